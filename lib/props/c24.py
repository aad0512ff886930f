"""Every type of the families is parsed once by T::from_str(input) and once by sscanf!(input, "{T}"); both are held to the same specification
(pattern, value and error on every path). For FromStr types from_str must be exactly the type's own FromStr on the whole input, its error
wrapped in ParsingFailed."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 300}


def run(rep):
    E.load_facts()
    ws = F.from_strs(E.THOROUGH)
    rep.rules = ["from_str and sscanf! of one placeholder satisfy one specification", "blanket from_str = FromStr::from_str, error wrapped"]
    E.run_witnesses("C24", ws, report=rep)

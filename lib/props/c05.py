"""For all 12 integer types and 44 radix options every path of the generated conversion is followed over the language of accepted texts:
the argument of from_str_radix must be sign + digits without the prefix, its radix the named one, and its result (value or error) the result."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 500}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.radix("call") + F.radix_positions() + F.far("radix")
    rep.rules = ["value = <type>::from_str_radix(sign + digits, N); no accepted text keeps its prefix; ParsingFailed carries its error"]
    E.run_witnesses("C05", ws, report=rep)

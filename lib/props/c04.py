"""For all 12 integer types and 44 radix options, and for radix options in every position and derive, the placeholder's pattern is recovered
from the generated code and compared as a regular language with sign? prefix? digits{1,k}, k the digits of the widest value."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 500}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.radix("regex") + F.radix_positions() + F.far("radix")
    rep.rules = ["[+-]? (signed) / [+]? (unsigned), prefix optional/required/none in either case, 1..=k digits of the base in either case"]
    E.run_witnesses("C04", ws, report=rep)

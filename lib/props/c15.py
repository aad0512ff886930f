"""Calls that differ only in spelling (ways to name a type, path and reference spellings of str and Cow, raw and ordinary literals, both orders of #,
format= and the shorthand, fields by name, index or implicitly, aliases, sscanf_get_regex!) are all held to the one specification of that format."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 300}


def run(rep):
    E.load_facts()
    ws = F.spellings(E.THOROUGH) + F.far("str")
    rep.rules = ["every spelling satisfies the specification of its format: one pattern, the same conversions"]
    E.run_witnesses("C15", ws, report=rep)

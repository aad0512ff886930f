"""Enums with autogen over identifiers of every word shape and every case value: the pattern recovered from the generated code must be the
alternation of exactly the texts an independent implementation of the case rules gives; every other case value must be a compile error."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 250}


def run(rep):
    E.load_facts()
    ws = F.autogen(E.THOROUGH)
    rep.rules = ["variant text = case rule applied to the words of the identifier", "other case values are rejected"]
    E.run_witnesses("C23", ws, report=rep)

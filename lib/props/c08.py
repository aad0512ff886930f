"""Derived enums of many shapes: the pattern must be the alternation of exactly the constructible variants in definition order, and on every
path the variant built must be the one whose capture group took part, filled from its own groups."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 80}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.enums(t)
    rep.rules = ["regex = (?:(v1)|(v2)|..) over live variants; value = variant of the alternative that took part"]
    E.run_witnesses("C08", ws, report=rep)

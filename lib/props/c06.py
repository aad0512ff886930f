"""Calls with every number, order and naming of placeholders: on every abstract path the result tuple must hold, position by position,
the conversion of that placeholder's own capture group by its own type."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 150}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.singles() + F.mixes(t) + F.neighbours(2) + F.namesakes() + F.forms() + F.far("types") + F.far("str") + F.far("derived")
    rep.rules = ["value i = conversion by type i of the text of the capture group of placeholder i"]
    E.run_witnesses("C06", ws, report=rep)

"""Derived structs of every field kind, naming, shape and order: on every abstract path each field must hold the conversion of the capture
group of the placeholder that names it, through exactly its declared map/filter_map/from/try_from function, or its default."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 200}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.structs(t)
    rep.rules = ["field = conv(parse(group of its placeholder)); defaults evaluated once per success"]
    E.run_witnesses("C07", ws, report=rep)

"""Placeholders side by side: how an input is divided between them is what the documented regexes of their types, taken from left to right in
leftmost-first order, say - decided against the documentation and not against the constants of the crate."""
import engine as E
import families as F

LEVEL = "translation_validation"
TECHNIQUE = "abstract interpretation of MIR recovers the pattern; automata over threads in order of preference compare which split it chooses"
FLOOR = {"witness_programs": 600}


def run(rep):
    E.load_facts()
    ws = F.splits(E.THOROUGH) + F.far("str", F.S.Split) + F.far("types", F.S.Split) + F.far("custom", F.S.Split)
    rep.rules = ["of several ways to divide the input the documented one is chosen", "value i = conversion of the part placeholder i gets"]
    E.run_witnesses("C28", ws, report=rep)

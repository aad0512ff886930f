"""Custom regexes over every escape state, style of string literal, type, macro and derive: the group of the placeholder must be exactly the
language (and greediness) of the regex text after decoding, and the conversion must get that group's text."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 150}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.custom(t) + F.custom_more() + F.far("custom") + F.spelled_regexes(2) + F.spelled_regexes(3)
    rep.rules = ["placeholder group = (decoded custom regex)"]
    E.run_witnesses("C16", ws, report=rep)

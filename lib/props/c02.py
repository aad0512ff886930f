"""The pattern of every call form (escaped, unescaped, get_regex, from_str of derived and hand-written types) is recovered from the
generated code and must accept exactly the inputs that match the whole format, decided on automata with the anchors' meaning;
on every abstract path the regex is searched in the unmodified input."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 150}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.anchoring(t) + F.far("str") + F.far("custom")
    rep.rules = ["accepted inputs = inputs whose complete text matches the format"]
    E.run_witnesses("C02", ws, report=rep)

"""For every derived type of the families (and the std and hand-written types) a witness takes the compiled REGEX's group count, NUM_CAPTURES
and the number of captures from_matches takes; abstract interpretation of its MIR decides that the three agree on every path. For the calls,
the last capture taken on every Ok path must be the last group of the regex."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 300}


def run(rep):
    E.load_facts()
    ws = F.capture_counts(E.THOROUGH) + F.far("derived") + F.far("custom")
    rep.rules = ["NUM_CAPTURES = 1 + groups(REGEX) = captures taken by a successful from_matches", "a successful call takes every group"]
    E.run_witnesses("C09", ws, report=rep)

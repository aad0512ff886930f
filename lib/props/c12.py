"""For calls whose conversions can fail at every nesting depth, the error returned on each path must be the specified one (stage, type names, inner
error), and a witness that walks source() and renders every level shows, by abstract interpretation of the Display and Error impls, that each
level describes itself and everything below it and that the walk ends at the original error."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 200}


def run(rep):
    E.load_facts()
    ws = F.errors(E.THOROUGH)
    rep.rules = ["MatchFailed iff the regex does not match, otherwise the first failing conversion's error, wrapped once per level",
                 "source() visits every level; Display of a level includes all levels below"]
    E.run_witnesses("C12", ws, report=rep)

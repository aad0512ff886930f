"""The families of calls and derives are compiled with debug assertions off and held to the same specification that the other checks hold
the debug build to: same pattern, same conversions of the same captures, same values and errors on every path. Both builds satisfying one
specification that determines the result, they agree."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 300}


def run(rep):
    t = E.THOROUGH
    rep.rules = ["the value on every path of the release code equals the specified one", "ditto for the debug code of the same calls"]
    for profile, n, k in (("nodebug", 2, 0), ("dev", 8, 0)):
        E.load_facts(profile)
        ws = F.cross_section(n, k, t)
        E.run_witnesses("C20" + profile, ws, profile=profile, report=rep)

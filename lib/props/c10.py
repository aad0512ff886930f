"""A cross-section of every family of calls (all literals, types, radix options, custom regexes, derives, errors) is analysed for paths
that end in a panic, with debug assertions on and off: on no path may the macro's code panic, and every pattern must be accepted by the
regex engine's parser."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 500}


def run(rep):
    t = E.THOROUGH
    rep.rules = ["no path of a well-formed call ends in a panic", "the generated pattern compiles"]
    for profile, k in (("dev", 0), ("nodebug", 1)):
        E.load_facts(profile)
        ws = F.cross_section(2, k, t, values=False)
        E.run_witnesses("C10" + profile, ws, profile=profile, report=rep)

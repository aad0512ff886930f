"""Compile-fail witnesses: every kind of malformed invocation, in every macro and at several positions, must be rejected with an ordinary
located error (a panic of the macro, a hang or acceptance is a violation); each kind has well-formed twins that must compile. Both the nightly
and the stable toolchain (whose span support differs) expand them."""
import engine as E
import rejects as J

LEVEL = "translation_validation"
TECHNIQUE = "compile-fail witnesses with well-formed twins, decided by the compiler's type checker on the expansion"
FLOOR = {"witness_programs": 1500}


def run(rep):
    ws = J.calls(E.THOROUGH)
    rep.rules = ["malformed => at least one error located in the invocation, no macro panic", "well-formed twin => compiles"]
    for p in ("dev", "stable"):
        E.run_witnesses("C13" + p, ws, profile=p, preamble=J.PRE, mir=False, report=rep)

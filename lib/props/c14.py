"""Compile-fail witnesses: every derive attribute on every item kind with well-formed and malformed values, unknown names, all pairs of
attributes on one item, and every kind of missing/duplicate/unknown field source must be rejected with an ordinary located error; the documented
uses next to them must compile. Expanded with the nightly and the stable toolchain."""
import engine as E
import rejects as J

LEVEL = "translation_validation"
TECHNIQUE = "compile-fail witnesses with well-formed twins, decided by the compiler's type checker on the expansion"
FLOOR = {"witness_programs": 1500}


def run(rep):
    ws = J.items(E.THOROUGH)
    rep.rules = ["malformed => at least one error located in the item, no macro panic", "well-formed twin => compiles"]
    for p in ("dev", "stable"):
        E.run_witnesses("C14" + p, ws, profile=p, preamble=J.DPREAMBLE, mir=False, report=rep)

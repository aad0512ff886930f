"""Compile-fail witnesses whose errors must mark exactly the malformed part: for every kind of malformed format string, type, field and attribute, at
every kind of position (after wide, combining and escaped characters, in raw literals, behind other placeholders), the primary span of every error
(nightly) or the underlined copy of the literal in its message (stable) is compared with the part the specification names."""
import engine as E
import marks as K
import rejects as J

LEVEL = "translation_validation"
TECHNIQUE = "compile-fail witnesses; the spans of the compiler's diagnostics on the expansion are compared with the specified part"
FLOOR = {"witness_programs": 1000}


def run(rep):
    rep.rules = ["every error marks one of the malformed parts and every malformed part is marked by an error"]
    for p in ("dev", "stable"):
        E.run_witnesses("C25" + p, K.cases(p, E.THOROUGH), profile=p, preamble=J.DPREAMBLE, mir=False, report=rep)

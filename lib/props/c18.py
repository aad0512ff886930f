"""Every str/Cow result of a call, derive or from_str is, on every path of the compiled code, the text of its own group (Cow::Borrowed of it) and no
text of the input is stored elsewhere on the way; regions are decided by twins of programs, accepted and rejected, that use results as long as and
longer than the input."""
import borrows as B
import engine as E

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 600}
TECHNIQUE = ("abstract interpretation of the compiler's MIR (string domain, copies as effects) and compile-pass/compile-fail twins decided by the "
             "type and borrow checker")


def run(rep):
    E.load_facts()
    rep.rules = ["str results are the text of their group, Cow results Cow::Borrowed of it", "on no successful path is text that depends on the input stored in another string",
                 "programs that use a borrowed result while the input lives compile", "programs that use it longer are rejected for that reason", "owned results and errors outlive the input",
                 "derived impls exist for exactly the input lifetimes that cover the borrowed fields"]
    E.run_witnesses("C18", B.value_witnesses(E.THOROUGH), report=rep)
    E.run_witnesses("C18", B.region_witnesses(E.THOROUGH), preamble=B.PRE, mir=False, report=rep)

"""Input expressions of every kind (types that deref to str, places, blocks, control flow, operators) built from opaque functions: on every path of
the compiled code each opaque call happens exactly once, before the regex search, and its value is the text searched; ownership is decided by
compile-pass witnesses (the input used afterwards, in Fn closures, behind references) and non-strings by compile-fail witnesses."""
import engine as E
import inputs as I

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 500}
TECHNIQUE = ("abstract interpretation of the compiler's MIR of generated code (opaque calls as events, string domain) and compile-pass/compile-fail "
             "witnesses decided by the type and borrow checker")


def run(rep):
    E.load_facts()
    rep.rules = ["every opaque call in the input expression occurs exactly once per path, before the search", "the text searched is exactly the expression's value",
                 "the input can be used, mutated, moved and borrowed after the call", "an input that does not deref to str is a compile error"]
    E.run_witnesses("C19", I.witnesses(E.THOROUGH), preamble=I.PRE, report=rep)
    E.run_witnesses("C19", I.compile_witnesses(E.THOROUGH), preamble=I.PRE, mir=False, report=rep)

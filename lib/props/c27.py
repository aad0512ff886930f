"""Each documented name, signature, field, variant and implementation is used by a program of its own, which has to type-check; the operators of the
wrapper types have, on every path, the result of the same operation on the wrapped value."""
import api
import engine as E

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 200}
TECHNIQUE = "type-level encodings of the public interface (compile-pass witnesses decided by name resolution, the type and the trait checker) and abstract interpretation of the wrappers' operators"


def run(rep):
    rep.rules = ["every documented name resolves to an item of the documented kind, signature and implementations", "enums have exactly their variants, structs exactly their fields",
                 "comparison, dereference and assignment of a wrapper are those of its value"]
    ws = api.witnesses()
    E.run_witnesses("C27", ws, preamble=api.PRE, mir=False, report=rep)
    E.run_witnesses("C27", [w for w in api.witnesses()], profile="stable", preamble=api.PRE, mir=False, report=rep)
    E.run_witnesses("C27", api.value_witnesses(), preamble=api.PRE, report=rep)

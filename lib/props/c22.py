"""Call sites of every kind in 17 contexts (helper fn, loops, closures, generic fn instances, methods, recursion, macro expansions, several sites),
each evaluated two to four times along one abstract path: on every path the number of regex compilations equals the number of sites reached, each inside
a one-time initialiser (lazy_static Lazy, OnceLock, LazyLock) of its own static, and the last result depends on the last input only. An effect analysis
over the call graph of the generated code and over every item of the crate sscanf finds all statics, thread locals and uses of shared mutable state."""
import engine as E
import sites

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 100, "items": 50}
TECHNIQUE = ("effect analysis over the MIR call graph (statics, thread locals, callees) with abstract interpretation of repeated evaluations "
             "(events: regex compilations and the static they initialise)")
ASSUMPTIONS = ["lazy_static::Lazy / std OnceLock / LazyLock run their initialiser at most once and publish the result safely", "regex::Regex is immutable (its caches are internal)"]


def run(rep):
    E.load_facts()
    rep.rules = ["every Regex::new of a call site runs inside the one-time initialiser of a static", "evaluating a site again compiles nothing and uses the same regex",
                 "distinct sites have distinct statics", "no other static with interior mutability, `static mut`, thread local, lock, atomic or cell is reachable from generated code",
                 "no item of the crate sscanf has or uses such state"]
    sites.crate_state(rep)
    E.run_witnesses("C22", sites.witnesses(E.THOROUGH), report=rep)

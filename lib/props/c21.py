"""Effect, dataflow and typestate analysis of the MIR of every item of the macro crate: no call into the environment, files, time, randomness, threads,
source locations or addresses; no mutable or thread-local state; elements taken from a hash container in its internal order never reach output before
they are sorted by the container's key or lose their order; every error recorded in an ErrorBuilder is built on every path before the function returns.
Compile-fail witnesses with several independent mistakes decide that each of them is reported, in source order."""
import engine as E
import purity

LEVEL = "other"
FLOOR = {"items": 150, "call_sites": 1000, "error_builders": 3}
TECHNIQUE = "effect, hash-order dataflow and ErrorBuilder typestate analysis over the MIR of the macro crate, multi-error compile-fail witnesses"
ASSUMPTIONS = ["syn, quote, proc_macro2, convert_case, strsim, regex-syntax and unicode-width are deterministic functions of their arguments",
               "std collections other than HashMap/HashSet iterate in a deterministic order"]


def run(rep):
    rep.rules = ["no callee of the macro crate reads the environment, files, time, randomness, threads, addresses or source locations",
                 "no static of the macro crate is mutable, thread local or has interior mutability",
                 "the order of a hash container never reaches anything but order-insensitive consumers or a sort by its key",
                 "on every path an ErrorBuilder with recorded errors is built before the function returns", "every mistake of a witness is reported once, in order"]
    purity.crate_purity(rep)
    E.run_witnesses("C21", purity.error_witnesses(E.THOROUGH), mir=False, report=rep)

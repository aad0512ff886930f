"""Hand-written types whose REGEX, NUM_CAPTURES and from_matches disagree, in every position of calls and derived types: abstract interpretation
of the generated code decides that no path hands out a value - each ends in a panic that names sscanf (or in an error of another conversion)."""
import engine as E
import contract as C

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 500}


def run(rep):
    rep.rules = ["groups(regex) != 1 + sum of NUM_CAPTURES: every path panics in the initialiser",
                 "from_matches took another number of captures: no path returns Ok", "the panic message names sscanf",
                 "types that keep the contract never panic there"]
    E.run_witnesses("C11", C.witnesses(True, E.THOROUGH), report=rep)
    E.run_witnesses("C11", C.witnesses(False, E.THOROUGH), profile="nodebug", report=rep)

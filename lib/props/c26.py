"""Calls and derives are analysed in crates of the editions 2015, 2018, 2021 and 2024: they compile without warnings and have the specified result;
a query over the typed HIR of the expansions looks up since which Rust version every name of std and every language construct in them is stable."""
import editions as D
import engine as E
import hygiene as H

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 900}
TECHNIQUE = ("type checking and linting of compile-pass witnesses per edition, abstract interpretation of their MIR, and a query over the type-checked HIR "
             "of the expansions (stability attributes of everything they resolve to, language constructs)")


def run(rep):
    E.load_facts()
    newest = D.declared()
    rep.rules = ["in every edition the program compiles, without warnings, and has the result of the specification",
                 "no path, method, macro or language construct that sscanf's macros put into a crate is stable only since a Rust newer than rust-version (1.%d)" % newest]
    for ed in D.EDITIONS:
        E.run_witnesses("C26", D.call_witnesses(ed, newest, E.THOROUGH), preamble=D.pre(ed, E.PREAMBLE), extra=["--edition", ed], report=rep)
        E.run_witnesses("C26", D.item_witnesses(ed, newest, E.THOROUGH), preamble=D.pre(ed, H.LINTPRE), extra=["--edition", ed], report=rep)
        E.run_witnesses("C26", D.fragment_witnesses(ed, E.THOROUGH), profile="stable", preamble=D.pre(ed, H.MPRE), mir=False, extra=["--edition", ed], report=rep)

"""Generated code resolves the same in every calling context: programs in which the names it uses are taken (types, traits, functions, constants,
modules, macros, variables, fields, fragments) or missing (no prelude) are analysed like ordinary ones; nestings and fragments compile; nothing warns
under deny(warnings) and forbid(unsafe_code); neither the crates nor the expansions contain unsafe code."""
import build
import engine as E
import families as F
import hygiene as H

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 1200}
TECHNIQUE = ("name resolution and type checking of programs that take the names of the generated code (compile-pass witnesses), abstract interpretation of their MIR, "
             "the compiler's lints, and a query over the HIR for unsafe code")


def run(rep):
    E.load_facts()
    rep.rules = ["with the names of std, of the generated code or of its variables taken, the result is that of the ordinary program", "without the prelude the program compiles and has the ordinary result",
                 "a call or derive compiles in every nesting and through every kind of macro fragment", "deny(warnings) and forbid(unsafe_code) accept calls and derives", "no unsafe block, function or impl in sscanf, sscanf_macro and the code they generate"]
    own = [n for n in H.taken() if n not in F.NAMES]   # the names of the current source
    rep.count("names_taken", len(H.LOCALS) + len(H.FNS) + len(H.TYPES) + len(H.CONSTS))
    E.run_witnesses("C17", F.namesakes(names=own, tag="ho") + H.shadow_witnesses(E.THOROUGH) + H.local_witnesses(E.THOROUGH), report=rep)
    E.run_witnesses("C17", H.plain_witnesses(E.THOROUGH), profile="stable", preamble=H.MPRE, mir=False, report=rep)
    E.run_witnesses("C17", H.lint_witnesses(E.THOROUGH), profile="stable", preamble=H.LINTPRE, mir=False, report=rep)
    items = build.crate_items()
    for c in sorted(items):
        rep.count("items_searched_for_unsafe", len(items[c]["items"]))
        rep.obligations += 1
        bad = [u for u in items[c]["unsafes"] if u["origin"] in ("", "sscanf", "sscanf_macro")]
        if not bad:
            rep.discharged += 1
        seen = {}
        for u in bad:
            k = "%s/%s" % (c, u["what"])
            seen[k] = seen.get(k, 0) + 1
            rep.issue("%s/%d" % (k, seen[k]), "the crate %s contains an %s (%s line %d)" % (c, u["what"], u.get("file", ""), u["line"]), text="%s:%d" % (u.get("file", ""), u["line"]), anchor="src, sscanf_macro/src")

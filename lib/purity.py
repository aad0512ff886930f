"""Purity of the macro crate: effects, hash order, state, and recorded errors, decided on the MIR of every one of its items (C21)."""
import os
import re

import build
from sites import walk, body_facts

# what would make an expansion depend on something else than its input
IMPURE = re.compile(
    r"^(std|core|alloc)::(env::|fs::|net::|process::|time::|thread::|io::|os::|hash::RandomState|hash::random::|ptr::(addr|from_exposed|with_exposed)|"
    r"backtrace::|hint::black_box|intrinsics::(?!discriminant|cold_path)|arch::)"
    r"|^(rand|getrandom|fastrand)\w*::|new_pointer$|BuildHasher::(hash_one|build_hasher)$"
    r"|^(proc_macro2?)::(.*::)?(tracked_env|tracked_path|tracked)\b|^(proc_macro2?)::(.*::)?Span::(start|end|line|column|file|local_file|source_file|byte_range|source|parent)$"
    r"|path::Path::(exists|is_file|is_dir|canonicalize|metadata|read_dir|try_exists)$|::(addr|expose_provenance|as_addr)$")
# names that make the generated code itself depend on the place, the environment or files
IMPURE_IDENTS = {"env", "option_env", "include", "include_str", "include_bytes", "file", "line", "column", "module_path"}
KNOWN_CRATES = {"std", "core", "alloc", "proc_macro", "proc_macro2", "quote", "syn", "convert_case", "strsim", "regex_syntax", "unicode_width", "unicode_ident",
                "unicode_segmentation"}
HASH_TY = re.compile(r"^(&(mut )?(?:'[a-z_]+ )?)*(std::collections|hashbrown)(::hash)?(::hash_map|::hash_set|::map|::set)?::(HashMap|HashSet)\b")
HASH_ITER = re.compile(r"^(&(mut )?(?:'[a-z_]+ )?)*(std::collections|hashbrown)(::hash)?(::hash_map|::hash_set|::map|::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
HASH_METHOD = re.compile(r"(HashMap|HashSet)::<.*>::(\w+)$")
ORDER_FREE = {"new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "insert", "get", "get_mut", "get_key_value", "contains_key", "contains", "entry", "remove",
              "remove_entry", "take", "replace", "len", "is_empty", "reserve", "shrink_to_fit", "clear", "capacity", "is_subset", "is_superset", "is_disjoint", "get_or_insert_with",
              "try_insert", "get_disjoint_mut"}
FREE_TRAITS = re.compile(r"(clone::Clone::clone|default::Default::default|cmp::PartialEq::(eq|ne)|ops::Index::index|ops::Try::\w+|ops::FromResidual::from_residual|convert::(Into::into|From::from)|"
                         r"iter::FromIterator::from_iter|mem::(take|replace|swap|drop)|Option::<T>::\w+|Result::<T, E>::\w+)$")
ADAPTERS = re.compile(r"(iter::Iterator::(map|filter|filter_map|cloned|copied|inspect|flat_map|flatten|by_ref|chain|rev|peekable|fuse)|iter::IntoIterator::into_iter)$")
CONSUMERS = re.compile(r"iter::Iterator::(count|any|all|sum|product)$")
ORDERED = re.compile(r"^std::collections::(\w+::)*(BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap)\b")
SORTS = re.compile(r"slice::<impl \[T\]>::(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")
PASS = re.compile(r"(ops::DerefMut::deref_mut|ops::Deref::deref|Vec::<T, A>::(as_mut_slice|as_slice|len|is_empty)|convert::AsMut::as_mut|borrow::BorrowMut::borrow_mut|slice::<impl \[T\]>::(len|is_empty))$")


def op_local(o):
    return o[1][0] if o[0] in ("p", "m") else None


def const_of(o):
    return o[1][1] if o[0] == "k" else None


def callee(o, T):
    c = const_of(o)
    if c and isinstance(c.get("fndef"), int):
        return T[c["fndef"]]
    return None


def plain(path):
    return re.sub(r"^<+", "", path)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class Checker:
    def __init__(self, rep, data):
        self.rep, self.T, self.items, self.statics = rep, data["types"], data["items"], data["statics"]

    def ok(self, n=1):
        self.rep.obligations += n
        self.rep.discharged += n

    def bad(self, it, key, what):
        self.rep.obligations += 1
        self.rep.issue("%s/%s" % (it["name"], key), what, anchor=it["span"].rsplit(":", 2)[0].replace("/repo/", ""), text=it["name"])

    def run(self):
        for s in self.statics:
            if s["crate"] != "sscanf_macro":
                continue
            self.rep.count("statics")
            it = {"name": s["name"], "span": s["span"]}
            if s.get("mut") or s.get("tls") or not s.get("freeze"):
                self.bad(it, "static", "the macro crate keeps state between expansions: static %s" % s["name"])
            else:
                self.ok()
        for it in self.items:
            if it["kind"] == "Static" and "thread_local" in str(it.get("tls")):
                continue
            self.rep.count("items")
            self.effects(it)
            self.hash_order(it)
            self.builder(it)
            self.discarded(it)

    # ------------------------------------------------------------------ effects
    def effects(self, it):
        T = self.T
        statics, tls, callees = body_facts(it, T)
        for t in tls:
            self.bad(it, "tls", "the macro crate keeps state between expansions: thread local %s" % t)
        for c in callees:
            t = T[c]
            p = plain(t["path"])
            self.rep.count("call_sites")
            if IMPURE.search(p):
                self.bad(it, p, "%s calls %s" % (it["name"], t["path"]))
            elif "thread::LocalKey" in p or any("thread::LocalKey" in T[a]["s"] or "thread_local" in T[a]["s"] for a in t.get("args") or []):
                self.bad(it, p, "%s uses a thread local (%s)" % (it["name"], t["path"]))
            elif not t.get("local") and t.get("crate") not in KNOWN_CRATES:
                self.rep.obligations += 1
                self.rep.open.append((it["name"], "calls %s of the crate %s, which is not known to be pure" % (t["path"], t.get("crate"))))
            else:
                dbg = p.endswith("new_debug")
                if dbg and any(HASH_TY.search(T[a]["s"]) or HASH_ITER.search(T[a]["s"]) for a in t.get("args") or []):
                    self.bad(it, "debug", "%s prints a hash container" % it["name"])
                elif dbg and any(re.search(r"\b(Span|TokenStream|Ident|TokenTree)\b", T[a]["s"]) for a in t.get("args") or []):
                    self.bad(it, "debug", "%s prints a source location (%s)" % (it["name"], ", ".join(T[a]["s"] for a in t["args"])))
                else:
                    self.ok()
        for b in it["blocks"]:
            for s in b[0]:
                if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "cast" and ("Expose" in s[2][1] or "PtrToInt" in s[2][1]):
                    self.bad(it, "address", "%s uses an address as a number" % it["name"])
                if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "cast" and s[2][1].startswith("Transmute"):
                    dst = T[s[2][3]]
                    if dst["k"] in ("uint", "int"):
                        self.bad(it, "address", "%s transmutes to an integer" % it["name"])
            t = b[1]
            if t[0] == "call":
                f = callee(t[1], T)
                if f is not None and re.search(r"quote::__private::push_ident(_spanned)?$", f["path"]):
                    for a in t[2]:
                        c = const_of(a)
                        if c and c.get("str") in IMPURE_IDENTS:
                            self.bad(it, "ident/" + c["str"], "the generated code contains `%s`" % c["str"])
                        elif c and "str" in c:
                            self.rep.count("generated_identifiers")

    # ------------------------------------------------------------------ hash order
    def exposing(self, t):
        """does this callee hand out the elements of a hash container in its internal order?"""
        T = self.T
        p = plain(t["path"])
        m = HASH_METHOD.search(t["path"])
        if m:
            return m.group(2) not in ORDER_FREE
        args = [T[a]["s"] for a in t.get("args") or []]
        hit = [a for a in args if HASH_TY.search(a)]
        if not hit or t.get("local"):
            return False
        if FREE_TRAITS.search(p):
            return False
        if p.endswith("iter::Iterator::collect") or p.endswith("iter::FromIterator::from_iter"):
            return bool(HASH_TY.search(args[0])) if p.endswith("collect") else any(HASH_TY.search(a) for a in args[1:])
        if p.endswith("iter::Extend::extend"):
            return any(HASH_TY.search(a) for a in args[1:])
        return True

    def hash_order(self, it):
        T = self.T
        for bi, b in enumerate(it["blocks"]):
            t = b[1]
            if t[0] != "call":
                continue
            f = callee(t[1], T)
            if f is None:
                continue
            uses = HASH_METHOD.search(f["path"]) or any(HASH_TY.search(T[a]["s"]) for a in f.get("args") or [])
            if not uses:
                continue
            self.rep.count("hash_container_calls")
            if not self.exposing(f):
                self.ok()
                continue
            key_ty = None
            for a in f.get("args") or []:
                m = HASH_TY.search(T[a]["s"])
                if m:
                    key_ty = T[T[a]["args"][0]]["s"] if T[a].get("args") else None
            if HASH_METHOD.search(f["path"]) and f.get("args"):
                key_ty = T[f["args"][0]]["s"]
            why = self.flow(it, bi, key_ty)
            if why:
                self.bad(it, "hash/" + f["path"], "%s takes the elements of a hash container in its internal order (%s), and %s" % (it["name"], f["path"], why))
            else:
                self.ok()

    def flow(self, it, bi, key_ty):
        """follow the value the call in block bi returns; None if its order is lost again before it matters"""
        T = self.T
        start = it["blocks"][bi][1]
        if start[4] is None:
            return None
        todo = [(start[4], frozenset([start[3][0]]))]
        seen = set()
        while todo:
            bb, taint = todo.pop()
            if (bb, taint) in seen:
                continue
            seen.add((bb, taint))
            taint = set(taint)
            for s in it["blocks"][bb][0]:
                if s[0] != "=":
                    continue
                src = self.locals_of(s[2])
                if src & taint:
                    if s[1][0] == 0:
                        return "it is returned"
                    taint.add(s[1][0])
                elif len(s[1]) == 1:
                    taint.discard(s[1][0])
            t = it["blocks"][bb][1]
            if t[0] == "ret":
                if 0 in taint:
                    return "it is returned"
                continue
            if t[0] == "call":
                used = {op_local(a) for a in t[2]} & taint
                f = callee(t[1], T)
                if used:
                    if f is None:
                        return "it reaches an unknown function"
                    p = plain(f["path"])
                    dty = T[it["locals"][t[3][0]]]["s"]
                    if SORTS.search(f["path"]):
                        if re.search(r"by_key|by_cached_key", p):
                            kt = T[f["args"][1]]["s"] if len(f.get("args") or []) > 1 else None
                            if kt is not None and key_ty is not None and kt != key_ty and not kt.endswith(key_ty) and key_ty not in kt:
                                return "it is sorted by a %s, which need not be unique" % kt
                        continue  # the order is fixed from here on
                    if ADAPTERS.search(p):
                        taint.add(t[3][0])
                    elif p.endswith("iter::Iterator::collect"):
                        if not ORDERED.search(dty):
                            taint.add(t[3][0])
                    elif CONSUMERS.search(p):
                        pass
                    elif PASS.search(p):
                        taint.add(t[3][0])
                    elif HASH_METHOD.search(f["path"]) and HASH_METHOD.search(f["path"]).group(2) in ORDER_FREE:
                        pass
                    elif p.endswith(("iter::Extend::extend",)) and len(t[2]) > 1 and op_local(t[2][1]) in taint and f.get("args") and ORDERED.search(T[f["args"][0]]["s"]):
                        pass
                    else:
                        return "it reaches %s" % f["path"]
                else:
                    taint.discard(t[3][0])
            if not taint:
                continue
            for n in succs(t):
                todo.append((n, frozenset(taint)))
        return None

    def locals_of(self, rv):
        out = set()
        k = rv[0]
        if k in ("ref", "addr", "discr", "len"):
            out.add(rv[-1][0])
            return out
        todo = list(rv[1:])
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("p", "m") and isinstance(x[1], list):
                    out.add(x[1][0])
                elif not (len(x) == 2 and x[0] == "k"):
                    todo += x
        return out

    # ------------------------------------------------------------------ recorded errors
    def is_builder(self, ty, ref=False):
        s = self.T[ty]["s"]
        if ref:
            s = re.sub(r"^(&(mut )?(?:'[a-z_]+ )?)+", "", s)
        return bool(re.search(r"^[A-Za-z_:]*\bErrorBuilder$", s))

    def builder(self, it):
        """typestate of every local ErrorBuilder: errors pushed into it are built before the function returns"""
        T = self.T
        own = [i for i, t in enumerate(it["locals"]) if self.is_builder(t) and i > it["argc"]]
        if not own or "error::ErrorBuilder::" in it["name"] or it["name"].endswith("error::Error::builder"):
            return
        alias = {i: i for i in own}
        changed = True
        blocks = it["blocks"]
        while changed:
            changed = False
            for b in blocks:
                for s in b[0]:
                    if s[0] != "=" or len(s[1]) != 1 or s[1][0] in alias:
                        continue
                    for x in self.locals_of(s[2]):
                        if x in alias and (s[2][0] in ("ref", "use") or s[2][0] == "agg"):
                            alias[s[1][0]] = alias[x]
                            changed = True
                t = b[1]
                if t[0] == "call" and len(t[3]) == 1 and t[3][0] not in alias:
                    if self.is_builder(it["locals"][t[3][0]], True):
                        for a in t[2]:
                            if op_local(a) in alias:
                                alias[t[3][0]] = alias[op_local(a)]
                                changed = True
        # a builder moved into another local is the same builder
        root = {}

        def find(x):
            while root.get(x, x) != x:
                x = root[x]
            return x
        for b in blocks:
            for s in b[0]:
                if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and op_local(s[2][1]) in own and s[1][0] in own:
                    root[find(op_local(s[2][1]))] = find(s[1][0])
        objs = {find(i) for i in own}
        for o in sorted(objs):
            self.rep.count("error_builders")
            why = self.typestate(it, o, {l for l, r in alias.items() if find(r) == o})
            if why:
                self.bad(it, "builder", why)
            else:
                self.ok()

    def typestate(self, it, o, names):
        T = self.T
        blocks = it["blocks"]
        todo = [(0, None)]  # None: nothing recorded; otherwise where an error was recorded
        seen = set()
        while todo:
            bb, st = todo.pop()
            if (bb, st) in seen:
                continue
            seen.add((bb, st))
            for s in blocks[bb][0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and self.locals_of(s[2]) & names:
                    st = st or "a closure"
            t = blocks[bb][1]
            if t[0] == "ret":
                if st is not None:
                    return "errors recorded at %s are lost: a path returns without building them" % st
                continue
            if t[0] == "call":
                f = callee(t[1], T)
                if any(op_local(a) in names for a in t[2]):
                    p = f["path"] if f else ""
                    m = re.search(r"ErrorBuilder::(\w+)$", p)
                    if m is None:
                        if f is not None and not p.endswith("drop"):
                            # given to another function: it may record
                            st = st or t[5].replace("/repo/", "")
                            if t[2] and any(o2[0] == "m" and o2[1][0] in names and self.is_builder(it["locals"][o2[1][0]]) for o2 in t[2]):
                                st = None  # moved away
                    elif m.group(1) in ("build", "build_err", "ok_or_build"):
                        st = None
                    elif m.group(1) in ("is_empty", "len", "new"):
                        pass
                    else:
                        st = t[5].replace("/repo/", "")
            if t[0] == "switch" and st is not None:
                # branching on is_empty(): the empty side has nothing recorded
                e = self.empty_test(it, bb, names)
                if e is not None:
                    for v, n in t[2]:
                        todo.append((n, st if (v == "0") == e else None))
                    todo.append((t[3], st if not e else None) if True else None)
                    continue
            for n in succs(t):
                todo.append((n, st))
        return None

    def empty_test(self, it, bb, names):
        """True if the switch in bb tests `is_empty()` of the builder (value 0: not empty)"""
        T = self.T
        d = op_local(it["blocks"][bb][1][1])
        if d is None:
            return None
        neg = False
        for s in reversed(it["blocks"][bb][0]):
            if s[0] == "=" and s[1] == [d] and s[2][0] == "un" and s[2][1] == "Not":
                d = op_local(s[2][2])
                neg = not neg
            elif s[0] == "=" and s[1] == [d] and s[2][0] == "use":
                d = op_local(s[2][1])
        for b in it["blocks"]:
            t = b[1]
            if t[0] == "call" and t[3] == [d] and t[4] is not None:
                f = callee(t[1], T)
                if f is not None and re.search(r"ErrorBuilder::is_empty$", f["path"]) and any(op_local(a) in names for a in t[2]):
                    return not neg
        return None

    def discarded(self, it):
        """an Error or Result with an Error that a call produces is used: not dropped on the spot"""
        T = self.T
        used = set()
        for b in it["blocks"]:
            for s in b[0]:
                if s[0] == "=":
                    used |= self.locals_of(s[2])
            t = b[1]
            if t[0] == "call":
                used |= {op_local(a) for a in t[2]}
            elif t[0] == "switch":
                used.add(op_local(t[1]))
        for b in it["blocks"]:
            t = b[1]
            if t[0] != "call" or len(t[3]) != 1 or t[3][0] == 0:
                continue
            ty = T[it["locals"][t[3][0]]]["s"]
            if re.search(r"^(sscanf_macro::)?error::Error$|^(crate::)?error::Error$|^syn::Error$|Result<.*, (error::Error|syn::Error|sscanf_macro::error::Error)>$", ty):
                self.rep.count("error_values")
                if t[3][0] not in used:
                    self.bad(it, "discarded", "an error produced at %s is dropped" % t[5].replace("/repo/", ""))
                else:
                    self.ok()


def dep_info(rep):
    """files and environment variables the compilation of the macro crate read"""
    import glob
    fs = glob.glob(os.path.join(build.BUILD, "items", "**", "sscanf_macro-*.d"), recursive=True)
    if not fs:
        rep.obligations += 1
        rep.open.append(("sscanf_macro", "no dependency information"))
        return
    newest = max(fs, key=os.path.getmtime)
    with open(newest) as f:
        for line in f:
            m = re.match(r"# env-dep:([A-Za-z0-9_]+)", line)
            if m and not m.group(1).startswith(("CARGO_PKG_", "CARGO_MANIFEST", "CARGO_CRATE_NAME")):
                rep.obligations += 1
                rep.issue("env/" + m.group(1), "the macro crate is compiled with the value of the environment variable %s" % m.group(1), anchor="sscanf_macro", text="env!(%r)" % m.group(1))
            m = re.match(r"(/[^ :]+):$", line.rstrip("\n"))
            if m:
                rep.obligations += 1
                if m.group(1).startswith(build.REPO + "/") and m.group(1).endswith((".rs", ".md")) or "/registry/" in m.group(1):
                    rep.discharged += 1
                    rep.count("source_files")
                else:
                    rep.issue("file/" + m.group(1), "the macro crate is compiled with the file %s" % m.group(1), anchor="sscanf_macro", text=m.group(1))


def crate_purity(rep):
    d = build.crate_items()["sscanf_macro"]
    Checker(rep, d).run()
    dep_info(rep)


# ------------------------------------------------------------------ every mistake is reported

def error_witnesses(thorough=False):
    import engine as E
    ws = []

    def add(src, text, messages, anchor):
        uid = "m%d" % len(ws)
        ws.append(E.W(uid, "pub mod m_%s { use super::*; %s }\n" % (uid, src.replace("\n", " ")), text, expect="error", anchor=anchor, messages=messages))
    OOR = "type index %d out of range of %d types"
    MORE = "more placeholders than types provided"
    UNUSED = "unused type"
    calls = []
    for n in (1, 2, 3, 4):
        calls.append(('"{}"', ["u8"] + ["u%d" % x for x in (16, 32, 64, 128)][:n], [UNUSED] * n))
        calls.append(('"%s"' % "".join("{%d}" % (x + 3) for x in range(n)), [], [OOR % (x + 3, 0) for x in range(n)]))
        calls.append(('"%s"' % ("{}" * (n + 1)), ["u8"], [MORE] * n))
        calls.append(('"%s"' % ("{a b}" * n), [], ["invalid type in placeholder"] * n))
    calls.append(('"{9}{}{a b}{8}{}{}"', ["u8", "u16"], [OOR % (9, 2), "invalid type in placeholder", OOR % (8, 2), MORE]))
    calls.append(('"{9}{1}{}{c d}"', ["u8", "u16", "u32", "::std::string::String"], [OOR % (9, 4), "invalid type in placeholder", UNUSED, UNUSED]))
    calls.append(('r"{2}x{3}"', ["u8", "u16"], [OOR % (2, 2), OOR % (3, 2), UNUSED, UNUSED]))
    places = [("let", "pub fn f(s: &str) { let _ = %s; }"), ("statement", "pub fn f(s: &str) { %s; }"), ("tail", "pub fn f(s: &str) { %s }"), ("argument", "pub fn f(s: &str) { ::std::mem::drop(%s); }"),
              ("method", "pub fn f(s: &str) { let _ = %s.unwrap(); }"), ("question mark", "pub fn f(s: &str) -> ::std::result::Result<(), ::std::boxed::Box<dyn ::std::error::Error>> { let _ = %s?; ::std::result::Result::Ok(()) }"),
              ("match", "pub fn f(s: &str) { match %s { ::std::result::Result::Ok(_) => (), _ => () } }"), ("closure", "pub fn f(s: &str) { let _f = || %s; }"),
              ("brackets", "pub fn f(s: &str) { let _ = [%s]; }")]
    for macro in ("sscanf", "sscanf_unescaped", "sscanf_get_regex"):
        for pn, pl in places:
            for fmt, tys, msgs in calls:
                if pn not in ("let", "statement") and len(msgs) not in (2, 4):
                    continue
                if macro == "sscanf_get_regex" and pn in ("question mark", "match"):
                    continue
                inv = "::sscanf::%s!(%s%s%s)" % (macro, "" if macro == "sscanf_get_regex" else "s, ", fmt, "".join(", " + t for t in tys))
                add(pl % inv, "%s (%s)" % (inv, pn), msgs, "sscanf_macro/src/lib.rs generate_regex / error.rs")
    NF, MS, TM, UF = "field `%s` does not exist", "field `%s` has multiple sources", "too many placeholders", "field `%s` is not specified in the format string"
    IR = "field index %d out of range of %d fields"
    three = "{ a: u8, b: u16, c: u32 }"
    tup = "(u8, u16, u32)"
    derives = [
        ("{x}{y}{a}{b}{c}", three, [NF % "x", NF % "y"]), ("{x}{y}{z}", three, [NF % "x", NF % "y", NF % "z", UF % "a", UF % "b", UF % "c"]),
        ("{a}{a}{b}", three, [MS % "a", MS % "a", UF % "c"]), ("{a}{0}{b}{c}{1}", three, [MS % "0", MS % "0", MS % "1", MS % "1"]),
        ("{}{}{}{}{}", three, [TM, TM]), ("x", three, [UF % "a", UF % "b", UF % "c"]), ("x", tup, [UF % "0", UF % "1", UF % "2"]),
        ("{7}{8}{}{}", tup, [IR % (7, 3), IR % (8, 3), UF % "2"]), ("{x}{0}{0}{}{}{}", tup, [NF % "x", MS % "0", MS % "0", TM]),
        ("{b}{q}", three, [NF % "q", UF % "a", UF % "c"]), ("{}{x}{}{y}", three, [NF % "x", NF % "y", UF % "c"]),
    ]
    for f, fields, msgs in derives:
        for attr in ('#[sscanf("%s")]' % f, '#[sscanf(format_unescaped = "%s")]' % f, "#[sscanf(format = r\"%s\")]" % f):
            add("#[derive(::sscanf::FromScanf)] %s pub struct S %s%s" % (attr, fields, ";" if fields[0] == "(" else ""), "%s struct S %s" % (attr, fields), msgs, "sscanf_macro/src/derive.rs parse_format")
            add("#[derive(::sscanf::FromScanf)] pub enum S { %s V %s, #[sscanf(\"b\")] W }" % (attr, fields), "%s enum variant %s" % (attr, fields), msgs, "sscanf_macro/src/derive.rs parse_format")
    ONE, TWICE, PREV, BOTH = "only one of %s is allowed", "attribute `%s` is specified multiple times", "previous use here", "cannot specify both `%s` and `%s`"
    sa = {"format": 'format = "{}"', "format_unescaped": 'format_unescaped = "{}"', "transparent": "transparent"}
    fa = {"default": "default", "map": "map = |x: u8| x", "filter_map": "filter_map = |x: u8| ::std::option::Option::Some(x)", "from": "from = u8", "try_from": "try_from = u8"}
    import itertools

    def orders(d, n):
        ps = list(itertools.permutations(d, n))
        return ps

    for d, tmpl in ((sa, "#[derive(::sscanf::FromScanf)] %s pub struct S { a: u8 }"), (fa, "#[derive(::sscanf::FromScanf)] #[sscanf(\"{}\")] pub struct S { %s a: u8 }"),
                    (dict(sa, skip="skip"), "#[derive(::sscanf::FromScanf)] pub enum S { %s A(u8), #[sscanf(\"b\")] B }"),
                    ({"autogen": "autogen", "autogenerate": "autogenerate"}, "#[derive(::sscanf::FromScanf)] %s pub enum S { A, B }")):
        names = list(d)
        for n in (2, 3, 4, 5):
            if n > len(d):
                continue
            for ps in orders(d, n):
                srt = sorted(ps, key=names.index)
                if n == 2:
                    msgs = [BOTH % (srt[0], srt[1])] * 2
                else:
                    q = ["`%s`" % x for x in srt]
                    msgs = [ONE % (", ".join(q[:-1]) + ", or " + q[-1])] * n
                for sep in (0, 1):
                    if n > 3 and (sep or not thorough) and ps != tuple(reversed(srt)):
                        continue
                    at = "#[sscanf(%s)]" % ", ".join(d[x] for x in ps) if sep == 0 else " ".join("#[sscanf(%s)]" % d[x] for x in ps)
                    add(tmpl % at, tmpl % at, msgs, "sscanf_macro/src/attribute.rs expect_one")
        for x in d:
            for at in ("#[sscanf(%s, %s)]" % (d[x], d[x]), "#[sscanf(%s)] #[sscanf(%s)]" % (d[x], d[x])):
                add(tmpl % at, tmpl % at, [TWICE % x, PREV], "sscanf_macro/src/attribute.rs find_attrs")
    return ws

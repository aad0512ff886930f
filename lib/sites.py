"""Call sites evaluated several times, and the state the crate and the generated code keep (C22)."""
import re

import build
import engine as E
import families as F
import interp as X
import spec as S
from spec import Call, Fmt, PH, Builtin, StrTy, CowTy, RadixTy, Hand, Field, Body, Struct, Enum, Variant, Conv

A22 = "sscanf_macro/src/lib.rs generate_regex (static ref REGEX)"

# the one-time initialisers of the standard library and lazy_static; their own synchronisation is trusted
ONCE = re.compile(r"(^|::)(lazy_static::lazy::Lazy|lazy::Lazy|OnceLock|LazyLock)$")
# what generated code and the crate must not reach: shared mutable state, blocking, leaking, the environment
FORBIDDEN = re.compile(r"^(std|core|alloc)::(sync::(?!OnceLock|LazyLock|once_lock|lazy_lock|Arc|arc)|thread|cell::|env::|fs::|net::|process::|time::|io::|os::|ptr::(write|replace|swap)|"
                       r"mem::(forget|transmute|ManuallyDrop|MaybeUninit)|intrinsics::|arch::)|(::leak|::into_raw|::set_hook|::take_hook|::assume_init)$")


def walk(v):
    """every dict in a JSON value"""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
            todo += x.values()
        elif isinstance(x, list):
            todo += x


def body_facts(body, T):
    """statics, thread locals and callees one body mentions"""
    statics, tls, callees = set(), [], []
    for d in walk(body["blocks"]):
        if isinstance(d.get("static"), int):
            statics.add(d["static"])
        if isinstance(d.get("fndef"), int):
            callees.append(d["fndef"])
    todo = [body["blocks"]]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "tls":
                tls.append(x[1])
            todo += x
        elif isinstance(x, dict):
            todo += x.values()
    return statics, tls, callees


def ty_names(T, t, seen=None):
    """names of all nominal types inside type t"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    d = T[t]
    out = {d["name"]} if d.get("k") == "adt" else set()
    for k in ("args", "es"):
        for x in d.get(k) or []:
            out |= ty_names(T, x, seen)
    if isinstance(d.get("e"), int):
        out |= ty_names(T, d["e"], seen)
    return out


def static_kind(prog_T, s):
    """None if the static is immutable data, "once" for a one-time initialised Regex, otherwise what is wrong with it"""
    if s.get("mut"):
        return "`static mut`"
    if s.get("tls"):
        return "a thread local"
    if s.get("freeze"):
        return None
    t = prog_T[s["ty"]]
    if t["k"] == "adt" and ONCE.search(t["name"]) and t.get("args") and prog_T[t["args"][0]].get("name", "").endswith("Regex"):
        return "once"
    return "shared mutable state of type %s" % t["s"]


def call_edges(prog, inst):
    """instances called or created from the body of inst"""
    out = set()
    b = prog.I[inst].get("body")
    if b is None:
        return out
    for t in list(b["locals"]) + [d["fndef"] for d in walk(b["blocks"]) if isinstance(d.get("fndef"), int)] + \
            [d["closure"] for d in walk(b["blocks"]) if isinstance(d.get("closure"), int)]:
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            d = prog.T[x]
            if isinstance(d.get("inst"), int):
                out.add(d["inst"])
            for k in ("args", "es"):
                todo += [y for y in d.get(k) or [] if isinstance(y, int)]
            if isinstance(d.get("e"), int):
                todo.append(d["e"])
    for d in walk(b["blocks"]):
        if isinstance(d.get("fn"), int):
            out.add(d["fn"])
    return out


def effects(prog, inst):
    """(statics, problems) of everything reachable from inst through generated code and the crate (std is not entered)"""
    cache = prog.__dict__.setdefault("effects", {})
    if inst in cache:
        return cache[inst]
    seen, todo = set(), [inst]
    statics, bad = set(), []
    n = 0
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        I = prog.I[i]
        own = not (I["crate"] in ("std", "core", "alloc", "regex", "lazy_static") or I["kind"] == "shim")
        if not own:
            p = re.sub(r"^<?", "", I["path"])
            if FORBIDDEN.search(p) and not p.startswith("core::sync::LazyLock"):
                bad.append("%s is reached" % I["path"])
            if I["crate"] == "lazy_static" or ONCE_CALL.search(I["path"]):
                # the initialiser runs inside
                for a in I.get("args") or []:
                    d = prog.T[a]
                    if isinstance(d.get("inst"), int):
                        todo.append(d["inst"])
                    if isinstance(d.get("fn"), int):
                        todo.append(d["fn"])
            else:
                for a in I.get("args") or []:
                    d = prog.T[a]
                    if isinstance(d.get("inst"), int):
                        todo.append(d["inst"])
            continue
        n += 1
        if "body" not in I:
            continue
        st, tls, _ = body_facts(I["body"], prog.T)
        statics |= st
        for t in tls:
            bad.append("%s uses the thread local %s" % (I["path"], t))
        todo += call_edges(prog, i)
    more = list(statics)
    while more:
        k = more.pop()
        for d in walk(prog.S[k]["init"]):
            if isinstance(d.get("static"), int) and d["static"] not in statics:
                statics.add(d["static"])
                more.append(d["static"])
    cache[inst] = (statics, bad, n)
    return cache[inst]


ONCE_CALL = re.compile(r"(OnceLock|LazyLock|lazy::Lazy|Once)(::)?<")


def check_state(prog, root, v, sites):
    """the statics reachable from the root: exactly one one-time regex per call site, nothing else mutable"""
    statics, bad, n = effects(prog, prog.roots[root])
    once = []
    for k in sorted(statics):
        s = prog.S[k]
        kind = static_kind(prog.T, s)
        v.obligations += 1
        if kind == "once":
            once.append(k)
        elif kind is not None:
            v.bad.append(S.Finding("state: %s is %s" % (re.sub(r"^.*::", "", s["name"]), kind)))
    for b in sorted(set(bad)):
        v.bad.append(S.Finding("effect: " + b))
    v.obligations += 1
    return once


class Site(Call):
    """a call site inside `ctx`, whose root evaluates it on `other` and then on `input`. SITE stands for the invocation on the variable `input`,
    R for the result type. sites: textual sites; searches: evaluations; news: initialisers that run on a complete path"""

    def __init__(self, uid, fmt, ext, name, ctx, sites=1, searches=2, news=None, order=None, **kw):
        Call.__init__(self, uid, fmt, ext, **kw)
        self.ctx_name, self.ctx, self.sites, self.searches, self.order = name, ctx, sites, searches, order
        self.news = sites if news is None else news

    def source(self):
        r = "::std::result::Result<%s, ::sscanf::Error>" % self.result()
        items, body = self.ctx
        sub = lambda t: t.replace("SITE", self.invocation()).replace("RES", r)
        return "pub mod m_%s { use super::*;\n%s%s %s\npub fn w_%s<'a>(input: &'a str, other: &'a str) -> %s { %s }\n}\n" % (
            self.uid, S.all_defs(self.types()), self.pre, sub(items), self.uid, r, sub(body))

    def describe(self):
        return "%s: %s" % (self.ctx_name, self.invocation())

    def check(self, prog, ip, root):
        v = S.check_call(prog, ip, root, self, searches=self.searches)
        if self.sites > 1:
            v.obligations += 1
        once = check_state(prog, root, v, self.sites)
        for o in v.outs:
            if o.kind != "return":
                if o.kind == "imprecise" and any(e[0] == "regex_new" for e in o.st.events):
                    self.news_ok(prog, o, v, partial=True)
                continue
            self.news_ok(prog, o, v)
        return v

    def news_ok(self, prog, o, v, partial=False):
        news = [e for e in o.st.events if e[0] == "regex_new"]
        v.obligations += 1
        cells = []
        for e in news:
            c = e[2]
            if c is None or c[0][0] != "static":
                v.bad.append(S.Finding("compile: the regex is compiled outside a one-time initialiser of a static: on every evaluation", log=o.st.log))
                return
            if static_kind(prog.T, prog.S[c[0][1]]) != "once":
                v.bad.append(S.Finding("compile: the regex is compiled into %s" % prog.T[prog.S[c[0][1]]["ty"]]["s"], log=o.st.log))
                return
            cells.append(c)
        if len(set(cells)) != len(cells):
            v.bad.append(S.Finding("compile: the same static is initialised twice", log=o.st.log))
        if len(news) > self.news:
            v.bad.append(S.Finding("compile: %d compilations for %d call sites" % (len(news), self.news), log=o.st.log))
        if not partial and len(news) < self.news:
            v.bad.append(S.Finding("share: %d regexes for %d call sites" % (len(news), self.news), log=o.st.log))


CONTEXTS = [
    ("fn", ("fn site<'a>(input: &'a str) -> RES { SITE }", "let _ = site(other); site(input)"), {}),
    ("loop", ("", "let mut i_ = 0u8; loop { let input = if i_ == 0 { other } else { input }; let r_ = SITE; i_ += 1; if i_ == 2 { return r_; } }"), {}),
    ("while", ("fn site<'a>(input: &'a str) -> RES { SITE }", "let mut i_ = 0u8; while i_ < 2 { let _ = site(other); i_ += 1; } site(input)"), {"searches": 3}),
    ("closure", ("", "let f_ = |input: &'a str| -> RES { SITE }; let _ = f_(other); f_(input)"), {}),
    ("fn mut closure", ("", "let mut n_ = 0u8; let mut f_ = |input: &'a str| -> RES { n_ += 1; SITE }; let _ = f_(other); f_(input)"), {}),
    ("generic fn", ("fn site<'a, T_: Clone>(input: &'a str, _t: T_) -> RES { SITE }", "let _ = site(other, 1u8); site(input, 'c')"), {}),
    ("const generic fn", ("fn site<'a, const N_: usize>(input: &'a str) -> RES { SITE }", "let _ = site::<1>(other); site::<2>(input)"), {}),
    ("method", ("struct Me_; impl Me_ { fn site<'a>(&self, input: &'a str) -> RES { SITE } }", "let _ = Me_.site(other); Me_.site(input)"), {}),
    ("trait default method", ("trait Tr_ { fn site<'a>(&self, input: &'a str) -> RES { SITE } } impl Tr_ for u8 {} impl Tr_ for char {}",
                              "let _ = 1u8.site(other); 'c'.site(input)"), {}),
    ("recursion", ("fn site<'a>(input: &'a str, next: ::std::option::Option<&'a str>) -> RES { let r_ = SITE; match next { ::std::option::Option::Some(s) => site(s, ::std::option::Option::None), _ => r_ } }",
                   "site(other, ::std::option::Option::Some(input))"), {}),
    ("macro in a fn", ("macro_rules! mk { ($i:ident) => {{ let input = $i; SITE }} } fn site<'a>(s_: &'a str) -> RES { mk!(s_) }", "let _ = site(other); site(input)"), {}),
    ("macro expanded twice", ("macro_rules! mk { ($i:ident) => {{ let input = $i; SITE }} }", "let _: RES = mk!(other); mk!(input)"), {"sites": 2}),
    ("two sites", ("", "let _: RES = { let input = other; SITE }; SITE"), {"sites": 2}),
    ("two sites in fns", ("fn a_<'a>(input: &'a str) -> RES { SITE } fn b_<'a>(input: &'a str) -> RES { SITE }", "let _ = a_(other); let _ = b_(other); let _ = a_(input); b_(input)"),
     {"sites": 2, "searches": 4}),
    ("two methods", ("struct Me_; impl Me_ { fn a_<'a>(input: &'a str) -> RES { SITE } fn b_<'a>(input: &'a str) -> RES { SITE } }", "let _ = Me_::a_(other); Me_::b_(input)"), {"sites": 2}),
    ("sites on one line in arms", ("fn site<'a>(input: &'a str, n: u8) -> RES { match n { 0 => SITE, _ => SITE } }", "let _ = site(other, 0); site(input, 1)"), {"sites": 2}),
    ("unused site", ("fn site<'a>(input: &'a str, n: u8) -> RES { if n == 1 { SITE } else { SITE } }", "let _ = site(other, 0); site(input, 0)"), {"sites": 2, "news": 1}),
]


def kinds():
    ss = lambda: Struct("Ss", Body([Field("a", Builtin("u8")), Field("b", StrTy())], Fmt(["(", PH(how="auto"), "/", PH(how="auto"), ")"])))
    ee = lambda: Enum("Ee", [Variant("A", Body([Field(None, Builtin("u8"))], Fmt(["a", PH(how="auto")]), "tuple")), Variant("B", Body([], Fmt(["b"]), "unit"))])
    fm = lambda: Struct("Fm", Body([Field("a", Builtin("u8"), conv=Conv("filter_map", None, "k1"))], Fmt(["<", PH(how="auto"), ">"])))
    out = [
        ("u8", Fmt(["a", PH(Builtin("u8"), "ext"), "b"]), [Builtin("u8")], {}),
        ("str", Fmt([PH(StrTy(), "ext"), ":", PH(Builtin("i32"))]), [StrTy()], {}),
        ("no placeholder", Fmt(["abc"]), [], {}),
        ("radix", Fmt([PH(RadixTy("u16", "x")), "-"]), [], {}),
        ("unescaped", Fmt([PH(Builtin("u8"), "ext"), "[a-z]+"], False), [Builtin("u8")], {}),
        ("cow", Fmt([PH(CowTy(), "ext")]), [CowTy()], {}),
        ("hand", Fmt([PH(Hand("HandA", "[ab]+"), "ext"), "!"]), [Hand("HandA", "[ab]+")], {}),
    ]
    out += [(n, Fmt([PH(t, "ext"), "."]), [t], {}) for n, t in (("struct", ss()), ("enum", ee()), ("filter_map", fm()))]
    # both kinds of literal, the empty format, several placeholders, long and special literals
    return [(k + (" raw" if raw else ""), f, e, {"raw": raw}) for raw in (False, True) for k, f, e, _ in out + [
        ("empty", Fmt([]), [], {}), ("empty unescaped", Fmt([], False), [], {}), ("unescaped literal", Fmt(["a+b?"], False), [], {}),
        ("long literal", Fmt(["x" * 300]), [], {}), ("special literal", Fmt(["(a|b)*.{}\\"]), [], {}),
        ("three", Fmt([PH(Builtin("u8"), "ext"), " ", PH(Builtin("bool"), "ext"), " ", PH(StrTy(), "ext")]), [Builtin("u8"), Builtin("bool"), StrTy()], {}),
        ("index", Fmt([PH(Builtin("char"), ("idx", 0)), "-", PH(Builtin("char"), ("idx", 0))]), [Builtin("char")], {}),
        ("string", Fmt([PH(Builtin("String"), "ext")]), [Builtin("String")], {}), ("float", Fmt([PH(Builtin("f64"), "ext")]), [Builtin("f64")], {}),
        ("custom", Fmt([PH(Builtin("u8"), "ext", custom="[0-5]")]), [Builtin("u8")], {}), ("nine", Fmt([x for j in range(9) for x in (PH(StrTy(), "ext"), ",")]), [StrTy()] * 9, {}),
        ("many", Fmt([x for j in range(34) for x in (PH(StrTy(), "ext"), ",")]), [StrTy()] * 34, {}), ("many indices", Fmt([x for j in range(70) for x in (PH(Builtin("String"), ("idx", 0)), ".")]), [Builtin("String")], {})]]


class Regexes(S.GetRegex):
    """sscanf_get_regex! evaluated twice: both results are the same reference"""

    def __init__(self, uid, fmt, ext, name, ctx, same=True, **kw):
        S.GetRegex.__init__(self, uid, fmt, ext, **kw)
        self.ctx_name, self.ctx, self.same = name, ctx, same

    def source(self):
        items, body = self.ctx
        r = "&'static ::sscanf::regex::Regex"
        sub = lambda t: t.replace("SITE", self.invocation()).replace("RES", r)
        return "pub mod m_%s { use super::*;\n%s%s %s\npub fn w_%s() -> (%s, %s) { %s }\n}\n" % (
            self.uid, S.all_defs(self.types()), self.pre, sub(items), self.uid, r, r, sub(body))

    def describe(self):
        return "%s: %s" % (self.ctx_name, self.invocation())

    def check(self, prog, ip, root):
        v = S.Verdict()
        check_state(prog, root, v, 1)
        for o in ip.run(root):
            v.paths += 1
            if o.kind != "return":
                v.open.append("%s %s" % (o.kind, o.msg))
                continue
            v.obligations += 2
            val = o.value
            if isinstance(val, X.Ref):
                val = o.st.load(val)
            if not isinstance(val, X.Agg) or len(val.fields) != 2:
                v.open.append("result %r" % (val,))
                continue
            a, b = val.fields
            if not (isinstance(a, X.Ref) and isinstance(b, X.Ref)):
                v.bad.append(S.Finding("reference: the result is not a reference into a static"))
                continue
            a, b = o.st.owner(a), o.st.owner(b)
            for r in (a, b):
                c = r.cell
                if c[0] == "lazyval":
                    c = c[1][0]
                if c[0] != "static":
                    v.bad.append(S.Finding("reference: the regex lives in %s, not in a static" % (c[0],)))
            same = (a.cell, a.path) == (b.cell, b.path)
            if same != self.same:
                v.bad.append(S.Finding("reference: %s" % ("two evaluations give different regexes" if self.same else "two call sites share one regex")))
            news = [e for e in o.st.events if e[0] == "regex_new"]
            if len(news) != (1 if self.same else 2):
                v.bad.append(S.Finding("compile: %d compilations" % len(news)))
            for e in news:
                if e[2] is None or e[2][0][0] != "static":
                    v.bad.append(S.Finding("compile: the regex is compiled outside a one-time initialiser of a static"))
        return v


REGEX_CONTEXTS = [
    ("fn", ("fn site() -> RES { SITE }", "(site(), site())"), True),
    ("closure", ("", "let f_ = || -> RES { SITE }; (f_(), f_())"), True),
    ("generic fn", ("fn site<T_>(_t: T_) -> RES { SITE }", "(site(1u8), site('c'))"), True),
    ("loop", ("", "let mut p_: ::std::option::Option<RES> = ::std::option::Option::None; loop { let r_: RES = SITE; if let ::std::option::Option::Some(q_) = p_ { return (q_, r_); } p_ = ::std::option::Option::Some(r_); }"), True),
    ("two sites", ("", "(SITE, SITE)"), False),
    ("two fns", ("fn a_() -> RES { SITE } fn b_() -> RES { SITE }", "(a_(), b_())"), False),
]


def witnesses(thorough=False):
    ws = []
    n = 0
    for kname, fmt, ext, kw in kinds():
        for cname, ctx, ckw in CONTEXTS:
            if ckw.get("searches", 2) > 2 and kname not in ("u8", "no placeholder", "cow", "u8 raw", "no placeholder raw"):
                continue
            c = Site("s%d" % n, fmt, ext, cname, ctx, raw=kw["raw"], **ckw)
            w = E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, c.check)], anchor=A22)
            w.call = c
            ws.append(w)
            n += 1
        if not fmt.escaped:
            continue
        for cname, ctx, same in REGEX_CONTEXTS:
            c = Regexes("g%d" % n, fmt, ext, cname, ctx, same, raw=kw["raw"])
            w = E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, c.check)], anchor="sscanf_macro/src/lib.rs sscanf_get_regex")
            ws.append(w)
            n += 1
    return ws


def crate_state(rep):
    """the crate itself: no mutable statics, thread locals, or forbidden callees in any of its items"""
    d = build.crate_items()["sscanf"]
    T = d["types"]
    for s in d["statics"]:
        rep.obligations += 1
        if s["crate"] != "sscanf":
            continue
        k = static_kind(T, s)
        if k is None:
            rep.discharged += 1
        else:
            rep.issue("static/" + s["name"], "the crate has %s" % (k if k != "once" else "a global regex shared by call sites"), anchor=s["span"].rsplit(":", 2)[0], text=s["name"])
    for it in d["items"]:
        rep.obligations += 1
        rep.count("items")
        st, tls, callees = body_facts(it, T)
        ok = True
        for t in tls:
            ok = False
            rep.issue("tls/%s" % it["name"], "thread local %s" % t, anchor=it["span"], text=it["name"])
        for c in callees:
            rep.count("call_sites")
            p = re.sub(r"^<", "", T[c]["path"])
            if FORBIDDEN.search(p):
                ok = False
                rep.issue("callee/%s/%s" % (it["name"], T[c]["path"]), "%s calls %s" % (it["name"], T[c]["path"]), anchor=it["span"].rsplit(":", 2)[0], text=it["name"])
        if ok:
            rep.discharged += 1

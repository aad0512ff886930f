"""Calls and derives in crates of every edition, and the age of what their expansion uses (C26)."""
import os
import re

import build
import engine as E
import families as F
import hygiene as H

EDITIONS = ("2015", "2018", "2021", "2024")
A26 = "quote! bodies of sscanf_macro/src/lib.rs, regex_parts.rs, derive.rs; rust-version in Cargo.toml"


def declared():
    """the minor version in rust-version of both manifests (the smaller one)"""
    out = []
    for f in ("Cargo.toml", "sscanf_macro/Cargo.toml"):
        with open(os.path.join(build.REPO, f)) as fh:
            m = re.search(r'^rust-version\s*=\s*"1\.(\d+)', fh.read(), re.M)
        if m:
            out.append(int(m.group(1)))
    if not out:
        raise build.BuildError("no rust-version in Cargo.toml")
    return min(out)


def pre(edition, lints):
    return lints + ("extern crate sscanf;\n" if edition == "2015" else "")


def call_witnesses(edition, newest, thorough=False):
    """calls, from_str and derives whose result is that of the specification"""
    ws = []
    k = {"2015": 0, "2018": 1, "2021": 2, "2024": 3}[edition]
    ctx = H.Ctx("edition " + edition, bare=True)
    ks = H.kinds() + H.bare_kinds()
    for i, (kn, mk) in enumerate(ks):
        w = H.ctx_witness(mk("ed%s_%d" % (edition[2:], i)), ctx, "edition %s, %s" % (edition, kn))
        ws.append(w)
    step = 7 if not thorough else 2
    own = F.cross_section(step, k % step, thorough=False)
    if edition == "2015":
        # two-segment paths start at the crate there; the families use them
        own = [w for w in own if not re.search(r"(?<![:\w])std::", w.src)]
    ws += own
    for w in ws:
        w.newest = newest
        w.anchor = A26
    return ws


def item_witnesses(edition, newest, thorough=False):
    """every kind of item and of call: it compiles without a warning"""
    ws = []
    n = 0

    def add(name, src):
        nonlocal n
        n += 1
        uid = "ei%s_%d" % (edition[2:], n)
        w = E.W(uid, "pub mod m_%s { %s }\n" % (uid, src), "edition %s, %s: %s" % (edition, name, src), expect="compile", anchor=A26)
        w.newest = newest
        ws.append(w)
    skip = ("tail of blocks", "const block around", "generics named like std's", "const generics named like", "deep module", "shadowed afterwards", "loop label", "nested closures")
    calls = H.CALLS + [("get_regex", '::sscanf::sscanf_get_regex!("{u8}{str:/a|b/}").is_match(s).then(|| 1u8).ok_or(::sscanf::Error::MatchFailed)', "u8"), ("borrowed", '::sscanf::sscanf!(s, "{&str}").map(|x| x.len())', "usize")]
    for ci, (cn, t) in enumerate(H.EXPR_CONTEXTS):
        if cn.startswith(skip) or "LET_" in t or edition == "2015" and re.search(r"\basync\b|\bdyn ::", t):
            continue
        for ki, (kn, c, ty) in enumerate(calls):
            if thorough or (ci + ki) % 4 == 0 or cn == "function":
                add("%s, %s" % (cn, kn), (H.CALL_DEFS if "Der" in c or "Enu" in c else "") + t.replace("CALL", c).replace("TY", ty))
    for iname, item in H.ITEMS:
        if iname == "raw type name":
            continue
        item = item.replace("VIS", "pub")
        add(iname, item)
        add(iname + ", in a function", "pub fn f() { #[allow(dead_code)] mod g { %s } }" % item)
    for t in ("u8", "i128", "f64", "bool", "char", "String", "&'static str", "::std::borrow::Cow<'static, str>", "::std::path::PathBuf", "::std::num::NonZeroU8"):
        p = t.replace("'static ", "").replace("'static, ", "")
        add("placeholder " + t, "pub fn f(s: &'static str) -> Result<%s, ::sscanf::Error> { ::sscanf::sscanf!(s, \"a{}b\", %s) }" % (t, p))
        add("field " + t, H.D + ' #[sscanf(format = "<{}>")] pub struct A(pub %s); ' % t + H.D + ' pub enum B { #[sscanf("{}")] C(%s), #[sscanf(format = "d{x}")] D { x: %s } }' % (t, t))
    for o in ("x", "o", "b", "#x", "#o", "#b", "r2", "r36"):
        for t in ("u8", "i64"):
            add("radix %s of %s" % (o, t), "pub fn f(s: &str) -> Result<%s, ::sscanf::Error> { ::sscanf::sscanf!(s, \"{%s:%s}\") } %s #[sscanf(\"{x:%s}\")] pub struct A { pub x: %s }" % (t, t, o, H.D, o, t))
    return ws


def fragment_witnesses(edition, thorough=False):
    ws = []
    for i, (name, e) in enumerate(H.FRAGMENTS):
        uid = "ef%s_%d" % (edition[2:], i)
        ws.append(E.W(uid, "pub mod m_%s { use super::*; pub fn f(s: &str) { let _x = %s; } }\n" % (uid, e), "edition %s, %s: %s" % (edition, name, e), expect="compile", anchor=A26))
    for i, (name, it) in enumerate(H.FRAG_ITEMS):
        uid = "eg%s_%d" % (edition[2:], i)
        ws.append(E.W(uid, "pub mod m_%s { use super::*; %s }\n" % (uid, it), "edition %s, %s: %s" % (edition, name, it), expect="compile", anchor=A26))
    return ws

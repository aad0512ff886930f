"""C11: types that break the capture contract, and what every call and derived type using them must do."""
import engine as E
import spec as S
from families import dedupe  # noqa: F401

A = "sscanf_macro/src/lib.rs sscanf_internal, generate_regex; regex_parts.rs Matcher; derive.rs from_matches"


class T:
    """a hand-written type with k groups inside its regex, NUM_CAPTURES = num, taking `take` captures"""

    def __init__(self, name, k, num, take):
        self.name, self.k, self.num, self.take = name, k, num, take
        self.groups = k + 1

    rust = property(lambda s: s.name)

    def defs(self):
        rx = ":".join(["([a-z]+)"] * self.k) if self.k else "[a-z]+"
        return "pub struct %s;\nimpl ::sscanf::RegexRepresentation for %s { const REGEX: &'static str = r\"%s\"; }\n" \
            "impl<'t> ::sscanf::FromScanf<'t> for %s { type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = %d;\n" \
            "  fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<%s, ::std::convert::Infallible> {\n" \
            "    %s ::std::result::Result::Ok(%s) } }\n" % (
                self.name, self.name, rx, self.name, self.num, self.name, "let _ = src.next(); " * self.take, self.name)

    def consume(self, left, debug):
        """-> captures left, or None: detected"""
        return left - min(self.take, left)


class Std:
    num = take = groups = 1

    def __init__(self, rust):
        self.name = self.rust = rust

    def defs(self):
        return ""

    def consume(self, left, debug):
        return left - 1 if left else None


def run_parts(parts, left, debug):
    for p in parts:
        before = left
        left = p.consume(left, debug)
        if left is None:
            return None
        if debug and before - left != p.num:
            return None
    return left


class D:
    """derived struct: "{}/{}..." over its parts"""

    def __init__(self, name, parts, transparent=False):
        self.name = self.rust = name
        self.parts = parts
        self.transparent = transparent
        self.num = 1 + sum(p.num for p in parts)
        self.groups = 1 + sum(p.groups for p in parts)

    def defs(self):
        a = "transparent" if self.transparent else '"%s"' % "/".join("{}" for _ in self.parts)
        return "".join(p.defs() for p in self.parts) + "#[derive(::sscanf::FromScanf)]\n#[sscanf(%s)]\npub struct %s(%s);\n" % (
            a, self.name, ", ".join(p.rust for p in self.parts))

    def consume(self, left, debug):
        if not left:
            return None
        end = run_parts(self.parts, left - 1, debug)
        if end is None or left - end != self.num:
            return None
        return end


class En:
    """derived enum, one variant per list of parts; only inputs of variant `sel` are looked at"""

    def __init__(self, name, variants, sel):
        self.name = self.rust = name
        self.variants = variants
        self.sel = sel
        self.num = 1 + sum(1 + sum(p.num for p in v) for v in variants)
        self.groups = 1 + sum(1 + sum(p.groups for p in v) for v in variants)

    def defs(self):
        out, seen = [], set()
        for v in self.variants:
            for p in v:
                if p.name not in seen:
                    seen.add(p.name)
                    out.append(p.defs())
        vs = []
        for i, v in enumerate(self.variants):
            f = "v%d" % i + "".join("/{}" for _ in v)
            vs.append('  #[sscanf("%s")] V%d%s,' % (f, i, "(%s)" % ", ".join(p.rust for p in v) if v else ""))
        return "".join(out) + "#[derive(::sscanf::FromScanf)]\npub enum %s {\n%s\n}\n" % (self.name, "\n".join(vs))

    def consume(self, left, debug):
        # every matched variant must lead to detection for the whole type to be detected
        if not left:
            return None
        ends = []
        for sel in range(len(self.variants)):
            ends.append(self.one(sel, left, debug))
        good = [e for e in ends if e is not None]
        return good[0] if good else None

    def one(self, sel, left, debug):
        start = left
        remaining = self.num - 1
        left -= 1
        for i, v in enumerate(self.variants):
            expected = 1 + sum(p.num for p in v)
            remaining -= expected
            if not left:
                return None
            left -= 1
            if i == sel:
                left = run_parts(v, left, debug)
                if left is None:
                    return None
                break
            if expected > 1:
                if left < expected - 1:
                    return None
                left -= expected - 1
        if remaining > 0:
            if left < remaining:
                return None
            left -= remaining
        return left if start - left == self.num else None


def call_detected(parts, debug):
    groups = sum(p.groups for p in parts)
    if sum(p.num for p in parts) != groups:
        return "groups"
    left = run_parts(parts, groups, debug)
    if left is None:
        return "taken"
    return "taken" if left else None


class Case:
    def __init__(self, uid, parts, macro="sscanf", fmt=None, what=""):
        self.uid, self.parts, self.macro, self.what = uid, parts, macro, what
        self.fmt = fmt or ",".join("{}" for _ in parts)

    def defs(self):
        out, seen = [], set()
        for p in self.parts:
            if p.name not in seen:
                seen.add(p.name)
                out.append(p.defs())
        return "".join(out)

    def invocation(self):
        tys = "".join(", " + p.rust for p in self.parts)
        if self.macro == "sscanf_get_regex":
            return '::sscanf::sscanf_get_regex!("%s"%s)' % (self.fmt, tys)
        return '::sscanf::%s!(input, "%s"%s)' % (self.macro, self.fmt, tys)

    def source(self):
        if self.macro == "sscanf_get_regex":
            sig, ret = "input: &str", "bool { let _re: &'static ::sscanf::regex::Regex = %s; true }"
        else:
            sig, ret = "input: &str", "bool { (%s).is_ok() }"
        return "pub mod m_%s { use super::*;\n%spub fn w_%s(%s) -> %s\n}\n" % (
            self.uid, self.defs(), self.uid, sig, ret % self.invocation())

    def witness(self, debug):
        d = call_detected(self.parts, debug)
        if self.macro == "sscanf_get_regex" and d != "groups":
            return None
        if d is None and any(p.num != p.groups for p in flat(self.parts)):
            return None         # mismatches that cancel out
        if d is None and any(p.num != p.take for p in flat(self.parts)) and not all(ok_enum(p, debug) for p in self.parts):
            return None
        text = "%s\nwith %s" % (self.invocation(), "; ".join(
            "%s: REGEX with %d groups, NUM_CAPTURES = %d, from_matches takes %d" % (p.name, p.k, p.num, p.take) for p in flat(self.parts) if isinstance(p, T)))
        return E.W(self.uid, self.source(), text, [("w_" + self.uid, self.checker(d, lead_in(self.parts) if debug and d == "taken" else None))], anchor=A)

    def checker(self, d, lead=None):
        def check(prog, ip, root):
            v = S.Verdict()
            panics = oks = 0
            for o in ip.run(root):
                v.paths += 1
                v.obligations += 1
                st = o.st
                if o.kind == "imprecise":
                    v.open.append("not analysed: %s" % o.msg)
                    continue
                if o.kind == "panic":
                    panics += 1
                    if d is None:
                        (v.open.append("panic %s after undecided %s" % (o.msg, st.undecided[0])) if st.undecided else
                         v.bad.append(S.Finding("a type that keeps the contract panics: %s" % str(o.msg)[:160], log=st.log)))
                    elif "<unread message>" in str(o.msg):
                        v.open.append("panic with a message that could not be read")
                    elif "sscanf" not in str(o.msg):
                        v.bad.append(S.Finding("the broken contract is reported without a sscanf message: %s" % str(o.msg)[:160], log=st.log))
                    continue
                val = st.deep(o.value)
                if val not in (True, False):
                    v.open.append("result %s" % S.show(val))
                    continue
                if val:
                    oks += 1
                if d == "groups":
                    v.bad.append(S.Finding("a regex with another number of groups than NUM_CAPTURES says is used", log=st.log))
                elif d and val:
                    v.bad.append(S.Finding("a value is returned although from_matches broke the capture contract", log=st.log))
                elif lead is not None and "regex matches" in st.log and sum(1 for x in st.log if x.endswith(" succeeds")) >= lead:
                    v.bad.append(S.Finding("an error of a later conversion hides that from_matches broke the capture contract", log=st.log))
            if d and not panics and not v.bad:
                v.open.append("no path reports the broken contract")
            if d is None and not oks and not v.bad:
                v.open.append("no path returns a value")
            return v
        return check


def lead_in(parts):
    """how many conversions that can fail come before the first wrong type; None: that depends on an enum"""
    n = 0
    for p in order(parts):
        if isinstance(p, En):
            return None
        if isinstance(p, T) and p.num != p.take:
            return n
        n += p.rust == "u8"
    return None


def order(parts):
    for p in parts:
        if isinstance(p, D):
            yield from order(p.parts)
        else:
            yield p


def ok_enum(p, debug):
    return not isinstance(p, (En, D))


def flat(parts):
    for p in parts:
        if isinstance(p, D):
            yield from flat(p.parts)
        elif isinstance(p, En):
            for v in p.variants:
                yield from flat(v)
        else:
            yield p


def deviations(thorough):
    ds = [(0, -1), (0, 1), (-1, 0), (1, 0), (1, 1), (-1, -1)] + ([(0, 2), (0, -2), (2, 0), (-2, 0), (1, -1), (-1, 1), (2, 2)] if thorough else [(0, 2), (2, 0)])
    out = []
    for k in (0, 1, 2) + ((3,) if thorough else ()):
        for dn, dt in ds:
            if k + 1 + dn >= 0 and k + 1 + dt >= 0:
                out.append((k, k + 1 + dn, k + 1 + dt))
    return out


def cases(thorough=False):
    out = []
    n = [0]

    def add(parts, **kw):
        n[0] += 1
        out.append(Case("k%d" % n[0], parts, **kw))
    for k, num, take in deviations(thorough) + [(0, 1, 1), (1, 2, 2), (2, 3, 3)]:
        def b():
            return T("Bad", k, num, take)
        u, s, g = Std("u8"), Std("String"), T("Good", 1, 2, 2)
        add([b()])
        add([b(), u])
        add([u, b()])
        add([u, b(), s])
        add([b(), g])
        add([g, b()])
        add([b(), u], macro="sscanf_unescaped")
        add([b()], macro="sscanf_get_regex")
        add([u, b()], macro="sscanf_get_regex")
        add([D("S", [b()])])
        add([D("S", [b(), u])])
        add([D("S", [u, b()])])
        add([D("S", [b()], transparent=True)])
        add([D("S", [b(), g]), u])
        add([u, D("S", [g, b()])])
        add([D("O", [u, D("S", [b(), u]), u])])
        add([En("En", [[b()], [u]], 0)])
        add([En("En", [[u], [b()]], 1)])
        add([En("En", [[], [b()], [b(), u], []], 1), u])
        add([D("S", [En("En", [[b()], [b(), u]], 0), u])])
        add([En("En", [[D("S", [b()])]], 0)])
    # two types that break the contract, also in ways that cancel out
    devs = [(0, -1), (0, 1), (0, -2), (0, 2), (1, 0), (-1, 0), (1, 1), (-1, -1)]
    for j, ((n1, t1), (n2, t2)) in enumerate((a, b) for a in devs for b in devs):
        k1, k2 = 1 + j % 2, 2 - j // 2 % 2
        b1 = lambda: T("Bad", k1, k1 + 1 + n1, k1 + 1 + t1)
        b2 = lambda: T("Worse", k2, k2 + 1 + n2, k2 + 1 + t2)
        u, g = Std("u8"), T("Good", 1, 2, 2)
        add([b1(), b2()])
        add([b1(), g, b2(), u])
        add([D("S", [b1(), b2()])])
        add([u, D("S", [b1(), u]), b2()])
        add([D("S", [b1()]), D("R", [u, b2()])])
        add([En("En", [[b1(), b2()], [u]], 0)])
        add([En("En", [[b1()], [b2(), u]], 0), u])
        add([D("O", [D("S", [b1()]), b2()]), g])
    # far into a call, struct or enum, and with many groups
    for j, m in enumerate((7, 8, 11, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 129)):
        for i, (n1, t1) in enumerate(devs[:2] + devs[4:] + [(0, 0)]):
            if (i + j) % 2 and (n1, t1) != (0, 0) and m < 60:
                continue
            b = lambda: T("Bad", 1 + j % 2, 2 + j % 2 + n1, 2 + j % 2 + t1)
            s = lambda: Std(("String", "std::path::PathBuf")[j % 2])
            add([s() for _ in range(m)] + [b()])
            add([b()] + [s() for _ in range(m)])
            add([s() for _ in range(m)] + [b(), s()], macro=("sscanf_get_regex", "sscanf_unescaped")[i % 2])
            add([D("S", [s() for _ in range(m)] + [b(), s()])])
            add([En("En", [[] for _ in range(m)] + [[b()]], m)])
            add([En("En", [[s()], [s() for _ in range(m)] + [b()]], 1), s()])
            add([T("Bad", m, m + 1 + n1, m + 1 + t1), s()])
    return out


def witnesses(debug, thorough=False):
    ws = []
    for c in cases(thorough):
        w = c.witness(debug)
        if w is not None:
            ws.append(w)
    # a custom regex leaves out the groups of the type
    for i, (k, fmt) in enumerate([(1, "{Bad:/[a-z]+/}"), (2, "{u8}{Bad:/[a-z]+/}x"), (1, "{:/x/}{u8}")]):
        b = T("Bad", k, k + 1, k + 1)
        uid = "cr%d" % i
        ext = ", Bad" if "{:" in fmt else ""
        src = 'pub mod m_%s { use super::*;\n%spub fn w_%s(input: &str) -> bool { (::sscanf::sscanf!(input, "%s"%s)).is_ok() }\n}\n' % (uid, b.defs(), uid, fmt, ext)
        c = Case(uid, [b])
        ws.append(E.W(uid, src, '::sscanf::sscanf!(input, "%s"%s) where Bad has %d captures' % (fmt, ext, k + 1), [("w_" + uid, c.checker("groups"))], anchor=A))
    return ws

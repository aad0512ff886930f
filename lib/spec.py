"""What a format, a type or a derive is specified to do - written from the documentation, independent of /repo's code.

A type spec knows how it is written in Rust, how many capture groups it takes, which pattern it matches
and what converting its captures must give; `Call` states what one macro call or from_str must do.
"""
import re
import regexlang as R
import interp as X

# ------------------------------------------------------------------------------- rust source helpers


def rust_str(text, raw=None):
    """a string literal with this content; raw=None: raw when possible"""
    if raw is not False and "\r" not in text and "\0" not in text:
        n = 0
        for m in re.finditer(r'"(#*)', text):
            n = max(n, len(m.group(1)) + 1)
        return "r" + "#" * n + '"' + text + '"' + "#" * n
    out = ['"']
    for ch in text:
        o = ord(ch)
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\0":
            out.append("\\0")
        elif o < 32 or o == 127:
            out.append("\\x%02x" % o)
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def esc(text):
    """pattern matching exactly this text"""
    return "".join(c if (c.isascii() and c.isalnum()) else "\\x{%x}" % ord(c) for c in text)


# ------------------------------------------------------------------------------- value patterns

class Mismatch(Exception):
    pass


class Ev:
    """one final state of the abstract interpretation"""

    def __init__(self, prog, st, n=0):
        self.prog = prog
        self.st = st
        self.n = n   # number of the match (among the successful ones of the path) whose groups are meant

    def text(self, g):
        return self.st.normal(X.Str((X.Var(("g", self.n, g)),)))

    def look(self, key):
        return self.st.look(key)


def show(v):
    if isinstance(v, X.Str):
        c = v.const()
        if c is not None:
            return repr(c)
        return " ++ ".join(repr(p) if isinstance(p, str) else show(p) for p in v.parts)
    if isinstance(v, X.Var):
        k = v.key
        if isinstance(k, tuple) and k[0] == "g":
            return "text of group %d" % k[2]
        if isinstance(k, tuple) and k[0] == "rest":
            return "(%s after %r)" % (show(X.Var(k[1])), k[2])
        return "the input" if k == "arg0" else str(k)
    if isinstance(v, X.Sym):
        return "%s(%s)" % (v.op, ", ".join(show(a) for a in v.args))
    if isinstance(v, X.Agg):
        return "{%s}" % ", ".join(show(f) for f in v.fields)
    return str(v)


class Pat:
    def need(self, ev, v, where):
        raise NotImplementedError


class PSym(Pat):
    """exactly this term"""

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def need(self, ev, v, where):
        if not isinstance(v, X.Sym) or v.op != self.op or len(v.args) != len(self.args):
            raise Mismatch("%s is %s instead of %s" % (where, show(v), self))
        for a, b in zip(v.args, self.args):
            if isinstance(b, Pat):
                b.need(ev, a, where)
            elif ev.st.normkey(a) != ev.st.normkey(b):
                raise Mismatch("%s is %s instead of %s" % (where, show(v), self))

    def __str__(self):
        return "%s(%s)" % (self.op, ", ".join(str(a) if isinstance(a, Pat) else show(a) for a in self.args))


class PVal(Pat):
    """exactly this value (Str, int, bool)"""

    def __init__(self, v):
        self.v = v

    def need(self, ev, v, where):
        if isinstance(v, X.Str):
            v = ev.st.normal(v)
        w = ev.st.normal(self.v) if isinstance(self.v, X.Str) else self.v
        if v != w or isinstance(v, bool) != isinstance(w, bool):
            raise Mismatch("%s is %s instead of %s" % (where, show(v), show(w)))

    def __str__(self):
        return show(self.v)


class PAny(Pat):
    def need(self, ev, v, where):
        pass

    def __str__(self):
        return "anything"


class PAdt(Pat):
    """a struct or enum value by names: type (last path segment), variant, fields"""

    def __init__(self, name, variant, fields):
        self.name, self.variant, self.fields = name, variant, fields

    def need(self, ev, v, where):
        if not isinstance(v, X.Agg):
            raise Mismatch("%s is %s instead of a %s" % (where, show(v), self))
        if not isinstance(v.ty, int) or ev.prog.T[v.ty]["k"] != "adt":
            raise Mismatch("%s is %s instead of a %s" % (where, show(v), self))
        t = ev.prog.T[v.ty]
        if t["name"].rsplit("::", 1)[-1] != self.name:
            raise Mismatch("%s is a %s instead of a %s" % (where, t["name"], self.name))
        var = t["variants"][v.variant]
        if self.variant is not None and var["name"] != self.variant:
            raise Mismatch("%s is %s::%s instead of %s::%s" % (where, self.name, var["name"], self.name, self.variant))
        names = [n[2:] if n.startswith("r#") else n for n in var["fields"]]
        if set(self.fields) != set(names) and set(self.fields) - set(names):
            raise Mismatch("%s has fields %s instead of %s" % (where, names, sorted(self.fields)))
        for k, p in self.fields.items():
            i = names.index(k)
            if i >= len(v.fields):
                raise Mismatch("%s: field %s is missing" % (where, k))
            p.need(ev, v.fields[i], "%s.%s" % (where, k))

    def __str__(self):
        n = self.name + ("::" + self.variant if self.variant else "")
        return "%s{%s}" % (n, ", ".join("%s: %s" % (k, p) for k, p in self.fields.items()))


class PTuple(Pat):
    def __init__(self, items):
        self.items = items

    def need(self, ev, v, where):
        if not isinstance(v, X.Agg) or len(v.fields) != len(self.items):
            raise Mismatch("%s is %s instead of a tuple of %d" % (where, show(v), len(self.items)))
        for i, p in enumerate(self.items):
            p.need(ev, v.fields[i], "%s.%d" % (where, i))

    def __str__(self):
        return "(%s)" % ", ".join(map(str, self.items))


class PRadix(Pat):
    """value or error of from_str_radix on the captured text without its prefix and leading '+'"""

    def __init__(self, op, ty, arg, radix):
        self.op, self.ty, self.arg, self.radix = op, ty, arg, radix

    def need(self, ev, v, where):
        PSym(self.op, "radix", self.ty, self.arg, self.radix).need(ev, v, where)

    def __str__(self):
        return "%s(%s::from_str_radix(%s, %d))" % (self.op, self.ty, show(self.arg), self.radix)


# ------------------------------------------------------------------------------- types

class Ty:
    ncap = 1
    rust = None      # as written in Rust
    lt = False       # contains the lifetime 'a

    def defs(self):
        """items to put in the witness module (list of (name, source))"""
        return []

    def regex(self, ctx):
        raise NotImplementedError

    def eval(self, ev, g):
        """-> ("ok"|"err", Pat); raises Mismatch when the conversion was not performed"""
        raise NotImplementedError

    def result(self):
        """type of the value in Rust"""
        return self.rust


class Ctx:
    """facts of the analysed crate that other properties fix: the REGEX constants and std type names"""

    def __init__(self, regexes=None, names=None):
        self.regexes = regexes or {}
        self.names = names or {}


CTX = Ctx()


class Builtin(Ty):
    """a std type parsed by FromStr"""

    def __init__(self, rust):
        self.rust = rust

    def regex(self, ctx):
        return ctx.regexes[self.rust]

    def name(self):
        return CTX.names[self.rust]

    def eval(self, ev, g):
        text = ev.text(g)
        n = self.name()
        if n.endswith("string::String"):
            return "ok", PVal(text)
        if n.endswith("path::PathBuf") :
            return "ok", PAlt([PSym("value", "FromStr", n, text), PSym("into", n, text), PVal(text)])
        o = ev.look(("conv", "FromStr", n, text))
        if o is None:
            raise Mismatch("the text of group %d is not converted by <%s as FromStr>" % (g, n))
        if o:
            return "ok", PSym("value", "FromStr", n, text)
        return "err", PAdt("FromStrFailedError", None, {"type_name": PTypeName(n), "error": PSym("error", "FromStr", n, text)})


class PAlt(Pat):
    def __init__(self, ps):
        self.ps = ps

    def need(self, ev, v, where):
        first = None
        for p in self.ps:
            try:
                p.need(ev, v, where)
                return
            except Mismatch as e:
                first = first or e
        raise first

    def __str__(self):
        return str(self.ps[0])


class PTypeName(Pat):
    def __init__(self, name):
        self.name = name

    def need(self, ev, v, where):
        if isinstance(v, X.Str) and len(v.parts) == 1:
            p = v.parts[0]
            if isinstance(p, X.Sym) and p.op == "type_name" and p.args == (self.name,):
                return
            if isinstance(p, str) and p.split("<")[0].rsplit("::", 1)[-1] == self.name.split("<")[0].rsplit("::", 1)[-1] and not isinstance(p, X.Sym):
                return
        raise Mismatch("%s is %s instead of the name of %s" % (where, show(v), self.name))

    def __str__(self):
        return "name of %s" % self.name


class StrTy(Ty):
    """str or &str, borrowed"""
    lt = True

    def __init__(self, rust="str"):
        self.rust = rust

    def result(self):
        return "&'a str"

    def regex(self, ctx):
        return ctx.regexes["str"]

    def eval(self, ev, g):
        return "ok", PVal(ev.text(g))


class CowTy(Ty):
    lt = True

    def __init__(self, rust="Cow<str>"):
        self.rust = rust

    def result(self):
        return "::std::borrow::Cow<'a, str>"

    def regex(self, ctx):
        return ctx.regexes["str"]

    def eval(self, ev, g):
        return "ok", PAdt("Cow", "Borrowed", {"0": PVal(ev.text(g))})


INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
PREFIX = {"x": (16, "[xX]"), "o": (8, "[oO]"), "b": (2, "[bB]")}


def ndigits(value, radix):
    n = 0
    while value:
        value //= radix
        n += 1
    return max(n, 1)


class RadixTy(Ty):
    """an integer with a radix option: opt is 'rN', 'x', '#x', 'x#', ..."""

    def __init__(self, ty, opt):
        self.ty = ty
        self.rust = ty
        self.opt = opt
        letter = opt.replace("#", "")
        if letter in PREFIX:
            self.radix, self.prefix = PREFIX[letter]
            self.letter = letter
            self.mode = "forced" if "#" in opt else "optional"
        else:
            self.radix, self.prefix, self.letter, self.mode = int(letter[1:]), None, None, "never"

    def regex(self, ctx):
        n = self.radix
        digits = "0-%d" % (n - 1) if n <= 10 else "0-9a-%sA-%s" % (chr(ord("a") + n - 11), chr(ord("A") + n - 11))
        sign = "[-+]?" if self.ty[0] == "i" else "[+]?"
        pre = ""
        if self.mode == "forced":
            pre = "0" + self.prefix
        elif self.mode == "optional":
            pre = "(?:0%s)?" % self.prefix
        return "(?:%s%s[%s]{1,%d})" % (sign, pre, digits, ndigits((1 << BITS[self.ty]) - 1, n))

    def strip(self, ev, s, prefix):
        """(negative, digits) of the text; prefix: remove it"""
        parts = list(ev.st.normal(s).parts)
        lit = parts.pop(0) if parts and isinstance(parts[0], str) else ""
        neg = False
        if lit[:1] in ("-", "+"):
            neg = lit[0] == "-"
            lit = lit[1:]
        if prefix and lit[:2].lower() == "0" + (self.letter or "?"):
            lit = lit[2:]
        return neg, X.Str([lit] + parts)

    def eval(self, ev, g):
        text = ev.text(g)
        name = self.ty
        found = None
        for k, v in ev.st.dec.items():
            if not (isinstance(k, tuple) and k[0] == "conv" and k[2] == name):
                continue
            if k[1] == "radix" and k[4] == self.radix or k[1] == "FromStr" and self.radix == 10:
                arg = ev.st.normal(k[3])
                try:
                    if self.strip(ev, arg, False) == self.strip(ev, text, True):
                        found = (k, v, arg)
                        break
                except IndexError:
                    pass
        if found is None:
            # a conversion of this text by other means?
            others = [k for k in ev.st.dec if isinstance(k, tuple) and k[0] == "conv" and uses_group(ev, k[3], g)]
            if others:
                k = others[0]
                raise Mismatch("the text %s is converted by %s of %s%s instead of base %d without the prefix" % (
                    show(text), k[1], show(ev.st.normal(k[3])), " with radix %s" % k[4] if len(k) > 4 else "", self.radix))
            raise Mismatch("the text %s is not converted by %s::from_str_radix(_, %d)" % (show(text), name, self.radix))
        k, v, arg = found
        if self.letter:
            bad = R.inter(ev.st.strlang(arg), R.pattern_lang("[-+]?0%s(?s:.)*" % self.prefix))
            w = bad.shortest()
            if w is not None:
                raise Mismatch("the prefix of %r is not removed before the conversion" % w)
        op = ("radix", name, ev.st.normkey(k)[3], self.radix) if k[1] == "radix" else ("FromStr", name, ev.st.normkey(k)[3])
        if v:
            return "ok", PSym("value", *op)
        return "err", PSym("error", *op)


def uses_group(ev, s, g):
    for p in ev.st.normal(s).parts:
        while isinstance(p, X.Var):
            k = p.key
            if k == ("g", ev.n, g):
                return True
            if isinstance(k, tuple) and k[0] == "rest":
                p = X.Var(k[1])
            else:
                break
    return False


class Hand(Ty):
    """a user type with FromStr (through opq_) and a hand-written regex"""

    def __init__(self, name, pattern, fallible=True):
        self.rust = self.name = name
        self.pattern = pattern

    def defs(self):
        n = self.name
        return [(n, """
pub struct %(n)s(pub u64);
impl ::sscanf::RegexRepresentation for %(n)s { const REGEX: &'static str = %(p)s; }
#[derive(Debug)] pub struct %(n)sErr(pub u64);
impl ::std::fmt::Display for %(n)sErr { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("<<opq_%(n)s>>") } }
impl ::std::error::Error for %(n)sErr {}
pub fn opq_%(n)s(_s: &str) -> ::std::result::Result<%(n)s, %(n)sErr> { loop {} }
impl ::std::str::FromStr for %(n)s { type Err = %(n)sErr;
  fn from_str(s: &str) -> ::std::result::Result<%(n)s, %(n)sErr> { opq_%(n)s(s) } }
""" % {"n": n, "p": rust_str(self.pattern)})]

    def regex(self, ctx):
        return self.pattern

    def eval(self, ev, g):
        text = ev.text(g)
        key = X.Sym("opq_" + self.name, (text,))
        o = ev.look(("opq", key))
        if o is None:
            raise Mismatch("the text of group %d is not converted by <%s as FromStr>" % (g, self.name))
        if o:
            return "ok", PSym("ok", PSym("opq_" + self.name, text))
        return "err", PAdt("FromStrFailedError", None, {"type_name": PAny(), "error": PSym("err", PSym("opq_" + self.name, text))})


class Multi(Ty):
    """a user type implementing FromScanf by hand with several captures: k groups, one opq_ conversion of all texts"""

    def __init__(self, name, patterns, sep=":"):
        self.rust = self.name = name
        self.patterns = patterns
        self.sep = sep
        self.ncap = 1 + len(patterns)

    def pattern(self):
        return esc(self.sep).join("(%s)" % p for p in self.patterns)

    def defs(self):
        n, k = self.name, len(self.patterns)
        take = "".join("let s%d = src.next().unwrap().unwrap().as_str();\n" % i for i in range(k))
        return [(n, """
pub struct %(n)s(pub u64);
impl ::sscanf::RegexRepresentation for %(n)s { const REGEX: &'static str = %(p)s; }
#[derive(Debug)] pub struct %(n)sErr(pub u64);
impl ::std::fmt::Display for %(n)sErr { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("<<opq_%(n)s>>") } }
impl ::std::error::Error for %(n)sErr {}
pub fn opq_%(n)s(%(a)s) -> ::std::result::Result<%(n)s, %(n)sErr> { loop {} }
impl<'t> ::sscanf::FromScanf<'t> for %(n)s { type Err = %(n)sErr; const NUM_CAPTURES: usize = %(k)d;
  fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<%(n)s, %(n)sErr> {
    src.next().unwrap();
    %(take)s opq_%(n)s(%(s)s) } }
""" % {"n": n, "p": rust_str(self.pattern()), "k": k + 1, "take": take,
            "a": ", ".join("_%d: &str" % i for i in range(k)), "s": ", ".join("s%d" % i for i in range(k))})]

    def regex(self, ctx):
        return self.pattern()

    def eval(self, ev, g):
        texts = [ev.text(g + 1 + i) for i in range(len(self.patterns))]
        key = X.Sym("opq_" + self.name, texts)
        o = ev.look(("opq", key))
        if o is None:
            raise Mismatch("the groups %d..%d are not given to %s" % (g + 1, g + len(texts), self.name))
        if o:
            return "ok", PSym("ok", PSym("opq_" + self.name, *texts))
        return "err", PSym("err", PSym("opq_" + self.name, *texts))


# ------------------------------------------------------------------------------- formats

class PH:
    """one placeholder. how: 'type' (named inside), 'ext' (next argument), ('idx', n), ('field', name), 'auto' (next field)"""

    def __init__(self, ty=None, how="type", custom=None, opt=None, field=None):
        self.ty = ty
        self.how = how
        self.custom = custom   # text of the regex
        self.opt = opt         # radix option as written
        self.field = field
        if isinstance(ty, RadixTy):
            self.opt = ty.opt

    def inner(self):
        h = self.how
        s = ""
        if h == "type":
            s = self.ty.rust
        elif isinstance(h, tuple):
            s = str(h[1])
        if self.custom is not None:
            s += ":/" + self.custom.replace("/", "\\/") + "/"
        elif self.opt is not None:
            s += ":" + self.opt
        return "{" + s + "}"

    def regex(self, ctx):
        if self.custom is not None:
            return self.custom
        return self.ty.regex(ctx)


class Fmt:
    def __init__(self, items, escaped=True):
        self.items = items
        self.escaped = escaped

    def text(self):
        return "".join(i.replace("{", "{{").replace("}", "}}") if isinstance(i, str) else i.inner() for i in self.items)

    def phs(self):
        return [i for i in self.items if not isinstance(i, str)]

    def regex(self, ctx):
        return "".join((esc(i) if self.escaped else i) if isinstance(i, str) else "(" + guard(i.regex(ctx)) + ")" for i in self.items)

    def call_pattern(self, ctx):
        r = self.regex(ctx)
        return "^%s$" % r if self.escaped else "^(?:%s)$" % r


def guard(r):
    # a comment of a (?x) regex ends with the line
    if re.search(r"\(\?[a-zA-Z-]*x", r) and "#" in r and "err" in R.TOOL.parse("(" + r + ")"):
        return r + "\n"
    return r


# ------------------------------------------------------------------------------- derives

class Conv:
    """a field conversion: kind map / filter_map / from / try_from, from the given type"""

    def __init__(self, kind, src, uid):
        self.kind, self.src, self.uid = kind, src, uid


class Field:
    def __init__(self, name, ty=None, default=None, conv=None, rust_ty=None):
        self.name = name        # None in tuple structs
        self.ty = ty            # parsed type (conv: the type of the attribute)
        self.default = default  # None / True (Default::default()) / ("expr", source, Pat)
        self.conv = conv
        self.rust_ty = rust_ty  # field type when it differs
        self.around = ("", "")  # what else stands before and after the attribute

    def attr(self):
        return self.around[0] + self.own_attr() + self.around[1]

    def own_attr(self):
        if self.default is True:
            return "#[sscanf(default)] "
        if self.default is not None:
            return "#[sscanf(default = %s)] " % self.default[1]
        c = self.conv
        if c is None:
            return ""
        if c.kind in ("map", "filter_map"):
            return "#[sscanf(%s = |x: %s| opq_%s(x))] " % (c.kind, self.ty.result(), c.uid)
        return "#[sscanf(%s = %s)] " % (c.kind, self.ty.result())

    def decl_ty(self):
        if self.rust_ty:
            return self.rust_ty
        if self.conv is not None:
            return "To%s" % self.conv.uid
        return self.ty.result()

    def defs(self):
        out = []
        if self.ty is not None:
            out += self.ty.defs()
        c = self.conv
        if c is None:
            return out
        to = self.decl_ty()
        src = self.ty.result().replace("&'a str", "&str").replace("'a, ", "")
        d = ""
        if self.rust_ty is None:
            d += "pub struct %s(pub u64);\n" % to
        if c.kind == "map":
            d += "pub fn opq_%s(_x: %s) -> %s { loop {} }\n" % (c.uid, src, to)
        elif c.kind == "filter_map":
            d += "pub fn opq_%s(_x: %s) -> ::std::option::Option<%s> { loop {} }\n" % (c.uid, src, to)
        elif c.kind == "from":
            d += "pub fn opq_%s(_x: %s) -> %s { loop {} }\n" % (c.uid, src, to)
            d += "impl ::std::convert::From<%s> for %s { fn from(x: %s) -> %s { opq_%s(x) } }\n" % (src, to, src, to, c.uid)
        else:
            d += "#[derive(Debug)] pub struct Err%s(pub u64);\n" % c.uid
            d += "impl ::std::fmt::Display for Err%s { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(\"<<opq_%s>>\") } }\n" % (c.uid, c.uid)
            d += "impl ::std::error::Error for Err%s {}\n" % c.uid
            d += "pub fn opq_%s(_x: %s) -> ::std::result::Result<%s, Err%s> { loop {} }\n" % (c.uid, src, to, c.uid)
            d += "impl ::std::convert::TryFrom<%s> for %s { type Error = Err%s; fn try_from(x: %s) -> ::std::result::Result<%s, Err%s> { opq_%s(x) } }\n" % (
                src, to, c.uid, src, to, c.uid, c.uid)
        out.append(("conv" + c.uid, d))
        return out

    def evaluate(self, ev, g, owner):
        r, p = self.ty.eval(ev, g)
        if r == "err" or self.conv is None:
            return r, p
        c = self.conv
        # the argument of the user function is the parsed value
        call = find_call(ev, "opq_" + c.uid, [p])
        if call is None:
            raise Mismatch("field %s: the parsed value %s is not given to %s" % (self.label, p, c.kind))
        if c.kind in ("map", "from"):
            return "ok", PAlt([PSym("opq_" + c.uid, p)])
        o = ev.look(("opq", call))
        if c.kind == "filter_map":
            if o:
                return "ok", PSym("some", PSym("opq_" + c.uid, p))
            return "err", PAdt("FilterMapNoneError", None, {"field_name": PVal(X.Str((self.label,)))})
        if o:
            return "ok", PSym("ok", PSym("opq_" + c.uid, p))
        return "err", PSym("err", PSym("opq_" + c.uid, p))


def find_call(ev, name, pats):
    """the recorded call of the user function with arguments matching the patterns"""
    n = 0
    hit = None
    for e in ev.st.events:
        if e[0] != "opq" or e[1] != name:
            continue
        args = [ev.st.deep(a) for a in e[2]]
        try:
            for p, a in zip(pats, args):
                p.need(ev, a, "argument")
        except Mismatch:
            continue
        n += 1
        if hit is None:
            hit = X.Sym(name, args)
    return hit


class Body:
    """fields + format of a struct or variant"""

    def __init__(self, fields, fmt, shape="named", attr=None):
        self.fields = fields
        self.fmt = fmt
        self.shape = shape   # named / tuple / unit
        self.attr = attr     # attribute text override
        self.around = ("", "")
        for i, f in enumerate(fields):
            f.label = (f.name[2:] if f.name.startswith("r#") else f.name) if f.name is not None else str(i)
        if fmt is not None:
            self.assign()

    def assign(self):
        by = {f.label: f for f in self.fields}
        by.update({f.name: f for f in self.fields if f.name is not None})
        for i, f in enumerate(self.fields):
            by.setdefault(str(i), f)
        self.order = []
        named = set()
        for ph in self.fmt.phs():
            if isinstance(ph.how, tuple):
                named.add(by[str(ph.how[1])].label)
        free = [f for f in self.fields if f.default is None and f.label not in named]
        for ph in self.fmt.phs():
            f = by[str(ph.how[1])] if isinstance(ph.how, tuple) else free.pop(0)
            if ph.opt is not None and not isinstance(f.ty, RadixTy):
                f.ty = RadixTy(f.ty.rust, ph.opt)
            ph.ty = f.ty
            self.order.append((ph, f))
        assert not free

    @property
    def ncap(self):
        return 1 + sum(p.ty.ncap for p, _ in self.order)

    def attr_text(self):
        return self.around[0] + self.own_attr() + self.around[1]

    def own_attr(self):
        if self.attr is not None:
            return self.attr
        key = "format" if self.fmt.escaped else "format_unescaped"
        return "#[sscanf(%s = %s)]" % (key, rust_str(self.fmt.text()))

    def decl(self):
        if self.shape == "unit":
            return ""
        fs = ["%s%s%s" % (f.attr(), (f.name + ": ") if f.name is not None else "", f.decl_ty()) for f in self.fields]
        return " { %s }" % ", ".join(fs) if self.shape == "named" else "(%s)" % ", ".join(fs)

    def defs(self):
        return [d for f in self.fields for d in f.defs()]

    @property
    def lt(self):
        return any("'a" in f.decl_ty() for f in self.fields)

    def evaluate(self, ev, g, owner, variant=None):
        """g: the group of the whole struct/variant -> ("ok"|"err" (unwrapped error), pattern)"""
        k = g + 1
        vals = {}
        for ph, f in self.order:
            r, p = f.evaluate(ev, k, owner)
            if r == "err":
                return r, p
            vals[f.label] = p
            k += ph.ty.ncap
        for f in self.fields:
            if f.default is True:
                vals[f.label] = default_pat(f.decl_ty())
            elif f.default is not None:
                vals[f.label] = f.default[2]
                if f.default[1].startswith("opq_"):
                    n = f.default[1].split("(")[0]
                    c = sum(1 for e in ev.st.events if e[0] == "opq" and e[1] == n)
                    if c != 1:
                        raise Mismatch("the default expression of field %s is evaluated %d times" % (f.label, c))
        return "ok", PAdt(owner, variant, vals)


class PDefault(Pat):
    def __init__(self, rust):
        self.rust = rust

    def need(self, ev, v, where):
        if isinstance(v, X.Sym) and v.op == "default":
            return
        if v in (0, False) or isinstance(v, X.Str) and not v.parts:
            return
        if isinstance(v, X.Agg) and isinstance(v.ty, int):
            n = ev.prog.T[v.ty]
            if n["k"] == "adt" and n["name"].endswith("option::Option") and v.variant == 0:
                return
            if n["k"] == "adt" and n["name"].endswith("borrow::Cow") and all(isinstance(f, X.Str) and not f.parts for f in v.fields):
                return
        if v == X.UNIT:
            return
        raise Mismatch("%s is %s instead of Default::default()" % (where, show(v)))

    def __str__(self):
        return "Default::default()"


def default_pat(rust):
    return PDefault(rust)


class Struct(Ty):
    def __init__(self, name, body, generics="", pre=""):
        self.name = name
        self.body = body
        self.pre = pre
        self.lt = body.lt
        self.rust = name
        self.ncap = body.ncap

    def result(self):
        return self.name + ("<'a>" if self.lt else "")

    def defs(self):
        g = "<'a>" if self.lt else ""
        d = self.body.decl()
        src = "#[derive(::sscanf::FromScanf)]\n%s\npub struct %s%s%s%s\n" % (
            self.body.attr_text(), self.name, g, d, "" if self.body.shape == "named" else ";")
        return self.body.defs() + [(self.name, self.pre + src)]

    def regex(self, ctx):
        return self.body.fmt.regex(ctx)

    def eval(self, ev, g):
        r, p = self.body.evaluate(ev, g, self.name)
        if r == "err":
            return "err", PAdt("FromScanfFailedError", None, {"type_name": PVal(X.Str((self.name,))), "error": p})
        return r, p


class Variant:
    def __init__(self, name, body, skip=False, autotext=None, autopat=None, bare=False):
        self.name = name
        self.body = body          # Body; fmt None when not constructible or autogenerated
        self.skip = skip
        self.bare = bare          # no attribute
        self.autopat = autopat    # pattern of an autogenerated variant
        self.disc = ""            # explicit discriminant

    def live(self):
        return not self.skip and (self.autopat is not None or self.body.fmt is not None)

    @property
    def ncap(self):
        return 1 if self.autopat is not None else self.body.ncap

    def regex(self, ctx):
        return self.autopat if self.autopat is not None else self.body.fmt.regex(ctx)


class Enum(Ty):
    def __init__(self, name, variants, attr=""):
        self.name = name
        self.rust = name
        self.variants = variants
        self.attr = attr
        self.livev = [v for v in variants if v.live()]
        self.ncap = 1 + sum(v.ncap for v in self.livev)
        self.lt = any(v.body.lt for v in variants)

    def result(self):
        return self.name + ("<'a>" if self.lt else "")

    def defs(self):
        out = []
        vs = []
        for v in self.variants:
            out += v.body.defs()
            a = ""
            if v.skip:
                a = "#[sscanf(skip)] "
            elif v.body.fmt is not None:
                a = v.body.attr_text() + " "
            elif v.body.around[0]:
                a = "".join(v.body.around) + " "
            vs.append("  %s%s%s%s," % (a, v.name, v.body.decl(), v.disc))
        out.append((self.name, "#[derive(::sscanf::FromScanf)]\n%s\n#[allow(dead_code)]\npub enum %s%s {\n%s\n}\n" % (
            self.attr, self.name, "<'a>" if self.lt else "", "\n".join(vs))))
        return out

    def regex(self, ctx):
        return "(?:%s)" % "|".join("(%s)" % v.regex(ctx) for v in self.livev)

    def eval(self, ev, g):
        # which alternative took part
        k = g + 1
        info = ev.st.caps[ev.n]["info"]
        chosen = None
        for v in self.livev:
            conds = info[k - 1].conds
            mine = [c for c in conds if c[0] == "alt"]
            here = True
            if len(self.livev) > 1:
                if not mine:
                    raise Mismatch("group %d of variant %s takes part in every match" % (k, v.name))
                _, aid, br, total = mine[-1]
                o = ev.look(("alt", ev.n, aid))
                if o is None:
                    raise Mismatch("the value does not depend on which alternative of %s matched" % self.name)
                here = o == br
            if here and chosen is None:
                chosen = (v, k)
            k += v.ncap
        if chosen is None:
            raise Mismatch("no variant of %s takes part" % self.name)
        v, k = chosen
        vn = v.name[2:] if v.name.startswith("r#") else v.name
        if v.autopat is not None:
            return "ok", PAdt(self.name, vn, {})
        r, p = v.body.evaluate(ev, k, self.name, vn)
        if r == "err":
            return "err", PAdt("FromScanfFailedError", None, {"type_name": PVal(X.Str((self.name,))), "error": p})
        return r, p


# ------------------------------------------------------------------------------- calls

def all_defs(tys):
    seen, out = set(), []
    for t in tys:
        for n, s in t.defs():
            if n not in seen:
                seen.add(n)
                out.append(s)
    return "".join(out)


class Call:
    """one call of sscanf!/sscanf_unescaped!"""

    def __init__(self, uid, fmt, ext=(), macro=None, raw=None, lit=None, pre="", input_expr="input", tail=""):
        self.uid = uid
        self.fmt = fmt
        self.ext = list(ext)
        self.macro = macro or ("sscanf" if fmt.escaped else "sscanf_unescaped")
        self.raw = raw
        self.lit = lit
        self.pre = pre
        self.input_expr = input_expr
        # resolve external types
        n = 0
        for ph in fmt.phs():
            if ph.how == "ext":
                ph.ty = self.ext[n]
                n += 1
            elif isinstance(ph.how, tuple) and ph.how[0] == "idx":
                ph.ty = self.ext[ph.how[1]]
            if ph.opt is not None and not isinstance(ph.ty, RadixTy):
                ph.ty = RadixTy(ph.ty.rust, ph.opt)

    def types(self):
        return [p.ty for p in self.fmt.phs()]

    def invocation(self):
        lit = self.lit if self.lit is not None else rust_str(self.fmt.text(), self.raw)
        return "::sscanf::%s!(%s, %s%s)" % (self.macro, self.input_expr, lit, "".join(", " + t.rust for t in self.ext))

    def result(self):
        rs = [t.result() for t in self.types()]
        if len(rs) == 1:
            return rs[0]
        return "(%s)" % ", ".join(rs)

    def source(self):
        return "pub mod m_%s { use super::*;\n%s%spub fn w_%s<'a>(input: &'a str) -> ::std::result::Result<%s, ::sscanf::Error> { %s }\n}\n" % (
            self.uid, all_defs(self.types()), self.pre, self.uid, self.result(), self.invocation())

    def describe(self):
        return self.invocation()

    def pattern(self, ctx):
        return self.fmt.call_pattern(ctx)

    def expected(self, ev):
        """pattern of the result when the regex matched"""
        g = 1
        vals = []
        for t in self.types():
            r, p = t.eval(ev, g)
            if r == "err":
                return "err", PAdt("Error", "ParsingFailed", {"0": p})
            vals.append(p)
            g += t.ncap
        return "ok", vals[0] if len(vals) == 1 else PTuple(vals)

    def groups(self):
        return sum(t.ncap for t in self.types())


class FromStrCall:
    """T::from_str(input) of a derived or hand-written FromScanf type"""

    def __init__(self, uid, ty, pre=""):
        self.uid = uid
        self.ty = ty
        self.pre = pre

    def source(self):
        return "pub mod m_%s { use super::*;\n%s%spub fn w_%s<'a>(input: &'a str) -> ::std::result::Result<%s, ::sscanf::Error> { <%s as ::sscanf::FromScanf>::from_str(input) }\n}\n" % (
            self.uid, all_defs([self.ty]), self.pre, self.uid, self.ty.result(), self.ty.result())

    def describe(self):
        return "<%s as FromScanf>::from_str(input)" % self.ty.result()

    def pattern(self, ctx):
        return "^(?:%s)$" % self.ty.regex(ctx)

    def expected(self, ev):
        r, p = self.ty.eval(ev, 0)
        if r == "err":
            return "err", PAdt("Error", "ParsingFailed", {"0": p})
        return r, p

    def groups(self):
        return self.ty.ncap - 1


class Finding:
    """a deviation in one witness"""

    def __init__(self, what, detail="", log=()):
        self.what = what
        self.detail = detail
        self.log = list(log)


class Verdict:
    def __init__(self):
        self.bad = []        # Finding
        self.open = []       # undischarged obligations (strings)
        self.paths = 0
        self.obligations = 0
        self.outs = []


_cmp = {}
VALUES = True   # check the values, not only panics and patterns


def compare_cached(a, e):
    if (a, e) not in _cmp:
        try:
            _cmp[(a, e)] = (R.compare(a, e), None)
        except R.Unsupported as x:
            _cmp[(a, e)] = (None, str(x))
    return _cmp[(a, e)]


class Split(Call):
    """a call whose input has to be divided between the placeholders as the documentation of their types says, whatever /repo's constants say"""

    def pattern(self, ctx):
        return Call.pattern(self, Ctx(DOCUMENTED, ctx.names))

    def cmp(self, a, e):
        if ("split", a, e) not in _cmp:
            try:
                _cmp[("split", a, e)] = (R.same_split(a, e), None)
            except R.Unsupported as x:
                _cmp[("split", a, e)] = (None, str(x))
        return _cmp[("split", a, e)]


def documented():
    """the regexes of the types in the documentation: which texts, and which of several beginnings of a text is preferred"""
    d = {"str": ".+?", "String": ".+?", "std::path::PathBuf": ".+", "char": ".", "bool": "true|false"}
    for t, bits in BITS.items():
        k = ndigits((1 << bits) - 1, 10)
        sign = "[-+]?" if t[0] == "i" else "\\+?"
        d[t] = sign + "[0-9]{1,%d}" % k
        n = "std::num::NonZero" + (t.capitalize() if not t.endswith("size") else t[0].upper() + "size")
        d[n] = sign + "[1-9][0-9]{0,%d}" % (k - 1)
    d["f32"] = d["f64"] = "[-+]?(?i:inf|infinity|nan|(?:[0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)(?:e[-+]?[0-9]+)?)"
    d["std::string::String"], d["PathBuf"] = d["String"], d["std::path::PathBuf"]
    return d


DOCUMENTED = documented()

def check_call(prog, ip, root, call, ctx=None, values=True, whole=None, searches=1):
    """the obligations of one call witness; with several searches on a path the last one decides the result"""
    ctx = ctx or CTX
    v = Verdict()
    try:
        outs = ip.run(root)
    except X.Imprecise as e:
        v.open.append(str(e))
        return v
    v.outs = outs
    seen_pats = set()
    arg0 = X.Str((X.Var("arg0"),)) if whole is None else None
    for o in outs:
        v.paths += 1
        st = o.st
        inv = [e for e in st.events if e[0] == "regex_invalid"]
        if inv:
            v.bad.append(Finding("the generated regex does not compile: %s" % inv[0][1], log=st.log))
            continue
        news = [e for e in st.events if e[0] == "regex_new"]
        for e in news:
            if e[1] in seen_pats:
                continue
            seen_pats.add(e[1])
            v.obligations += 1
            d, un = (call.cmp if hasattr(call, "cmp") else compare_cached)(e[1], call.pattern(ctx))
            if un:
                v.open.append("pattern %r: %s" % (e[1], un))
            elif d:
                v.bad.append(Finding("pattern: " + d, log=[]))
        if o.kind == "panic":
            if getattr(call, "partial", False):
                continue
            if st.undecided:
                v.open.append("panic %s after undecided %s" % (o.msg, st.undecided[0]))
            else:
                v.bad.append(Finding("can panic: %s" % (str(o.msg)[:200],), log=st.log))
            continue
        if o.kind == "imprecise":
            v.open.append("not analysed: %s" % o.msg)
            continue
        if not values or not VALUES:
            continue
        capev = [e for e in st.events if e[0] == "captures"]
        if len(capev) > 1 and searches == 1 and arg0 is not None:
            mine = [e for e in capev if st.normal(e[2]) == st.normal(arg0)]
            if mine:
                capev = mine[:1]
        if len(capev) != searches:
            if not capev and arg0 is not None:
                without_search(prog, st, o, call, ctx, v)
            elif not capev:
                v.open.append("no captures call on the path %s" % st.log)
            else:
                v.open.append("%d captures calls on one path" % len(capev))
            continue
        v.obligations += 1
        last = capev[-1]
        if not (whole(st.normal(last[2])) if whole else st.normal(last[2]) == st.normal(arg0)):
            v.bad.append(Finding("the text matched is %s instead of the input" % show(st.normal(last[2])), log=st.log))
            continue
        m = st.look(("match", last[1], last[2]))
        at = max(i for i, e in enumerate(st.events) if e is last)
        ev = Ev(prog, st, X.first(st, st.capof[at]) if at in st.capof else 0)
        val = st.deep(o.value)
        v.obligations += 1
        try:
            if not isinstance(val, X.Agg) or not isinstance(val.ty, int) or prog.T[val.ty]["k"] != "adt" or not prog.T[val.ty]["name"].endswith("Result"):
                raise Mismatch("the result is %s" % show(val))
            if not m:
                if val.variant != 1:
                    raise Mismatch("Ok although the input does not match")
                PAdt("Error", "MatchFailed", {}).need(ev, val.fields[0], "error")
                continue
            r, p = call.expected(ev)
            if r == "ok":
                if val.variant != 0:
                    raise Mismatch("Err(%s) although every conversion succeeded" % show(val.fields[0]))
                p.need(ev, val.fields[0], "value")
            else:
                if val.variant != 1:
                    raise Mismatch("Ok although a conversion failed (%s)" % p)
                p.need(ev, val.fields[0], "error")
        except Mismatch as e:
            if st.undecided:
                v.open.append("%s after undecided %s" % (e, st.undecided[0]))
            else:
                v.bad.append(Finding(str(e), log=st.log))
        except (IndexError, KeyError) as e:
            v.open.append("expectation not evaluable: %r" % (e,))
    return v


def without_search(prog, st, o, call, ctx, v):
    """a path that decides the result without captures: the inputs that take it have to have that result"""
    text = X.Str((X.Var("arg0"),))
    val = st.deep(o.value)
    if not isinstance(val, X.Agg) or not isinstance(val.ty, int) or not prog.T[val.ty].get("name", "").endswith("Result"):
        v.open.append("no captures call on the path %s" % st.log)
        return
    failed = False
    if val.variant == 1:
        try:
            PAdt("Error", "MatchFailed", {}).need(Ev(prog, st, 0), val.fields[0], "error")
            failed = True
        except Mismatch:
            pass
    if st.undecided:
        v.open.append("no captures call after undecided %s" % (st.undecided[0],))
        return
    v.obligations += 1
    try:
        L = st.strlang(text)
        M = R.pattern_lang(call.pattern(ctx), True)
        for k, d in st.dec.items():
            if k[0] == "match" and st.normal(k[2]) == st.normal(text):
                K = R.pattern_lang(k[1], True)
                L = R.inter(L, K) if d else R.minus(L, K)
        D = R.inter(L, M) if failed else R.minus(L, M)
        w = D.shortest()
    except (R.Unsupported, ValueError) as e:
        v.open.append("no captures call on the path %s: %s" % (st.log, e))
        return
    for k, d in st.dec.items():
        if k[0] == "longer":
            mn, mx = D.lengths()
            if st.normal(k[1]) != st.normal(text) or (d and mx is not None and mx <= k[2]) or (not d and mn > k[2]):
                w = None
    if w is not None:
        v.bad.append(Finding("%s without matching, although the input (e.g. %s%r) %s" % (
            "Err(MatchFailed)" if failed else "a result other than MatchFailed", "in a longer form " if any(k[0] == "longer" for k in st.dec) else "", w,
            "matches" if failed else "does not match"), log=st.log))
    elif not failed:
        v.open.append("no captures call on the path %s" % st.log)


class GetRegex(Call):
    """one call of sscanf_get_regex!"""

    def __init__(self, uid, fmt, ext=(), macro="sscanf_get_regex", **kw):
        Call.__init__(self, uid, fmt, ext, macro=macro, **kw)

    def invocation(self):
        lit = self.lit if self.lit is not None else rust_str(self.fmt.text(), self.raw)
        return "::sscanf::%s!(%s%s)" % (self.macro, lit, "".join(", " + t.rust for t in self.ext))

    def source(self):
        return "pub mod m_%s { use super::*;\n%s%spub fn w_%s() -> &'static ::sscanf::regex::Regex { %s }\n}\n" % (
            self.uid, all_defs(self.types()), self.pre, self.uid, self.invocation())


def check_get_regex(prog, ip, root, call, ctx=None):
    ctx = ctx or CTX
    v = Verdict()
    for o in ip.run(root):
        v.paths += 1
        st = o.st
        inv = [e for e in st.events if e[0] == "regex_invalid"]
        if inv:
            v.bad.append(Finding("the generated regex does not compile: %s" % inv[0][1], log=st.log))
            continue
        if o.kind == "panic":
            (v.open if st.undecided else v.bad).append(
                "panic %s" % o.msg if st.undecided else Finding("can panic: %s" % (str(o.msg)[:200],), log=st.log))
            continue
        if o.kind == "imprecise":
            v.open.append("not analysed: %s" % o.msg)
            continue
        val = st.deep(o.value)
        pat = X.pattern_of(val) if isinstance(val, X.Sym) and val.op == "regex" else None
        v.obligations += 1
        if pat is None:
            v.open.append("the result is %s" % show(val))
            continue
        d, un = compare_cached(pat, call.pattern(ctx))
        if un:
            v.open.append("pattern %r: %s" % (pat, un))
        elif d:
            v.bad.append(Finding("pattern: " + d))
    return v


class Wrapped:
    """sscanf! of a single placeholder of a derived type, written as Call of that type"""


def esc_ci(text):
    """for use inside (?i:...)"""
    return esc(text)

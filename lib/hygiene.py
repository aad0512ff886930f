"""Programs whose context could disturb the generated code: names in scope, missing prelude, macro fragments, lints, nesting (C17)."""
import re

import engine as E
import quoted
import spec as S
from spec import (Body, Builtin, Call, Conv, CowTy, Enum, Field, Fmt, FromStrCall, GetRegex, Hand, Multi, PH, RadixTy, StrTy, Struct, Variant, all_defs, esc, rust_str)

A17 = "quote! bodies of sscanf_macro/src/lib.rs, regex_parts.rs, derive.rs"

# ------------------------------------------------------------------ the calls

PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char"]


class AbsB(Builtin):
    """a std type written with an absolute path"""

    def __init__(self, rust):
        self.base = rust
        self.rust = "::std::primitive::" + rust if rust in PRIMS else "::std::string::String" if rust == "String" else "::" + rust

    def regex(self, ctx):
        return ctx.regexes[self.base]

    def name(self):
        return S.CTX.names[self.base]


class NamedField(Field):
    """a field whose closure parameter is called as given"""
    param = "x"

    def attr(self):
        return Field.attr(self).replace("&'a ", "&").replace("|x: ", "|%s: " % self.param).replace("(x))]", "(%s))]" % self.param)


def kinds():
    """(name, calls of one uid); all types are written with absolute paths, so that they work wherever the words are taken"""
    B = AbsB
    st = lambda: StrTy("&::std::primitive::str")
    cow = lambda: CowTy("::std::borrow::Cow<::std::primitive::str>")
    ext = lambda t: PH(t, "ext")

    def call(u, items, exts, **kw):
        return Call(u, Fmt(items, kw.pop("escaped", True)), exts, **kw)

    def c1(u):
        a = B("u8")
        return call(u, ["<", ext(a), ">"], [a])

    def c2(u):
        a, b, c = st(), cow(), B("String")
        return call(u, [ext(a), ",", ext(b), ",", ext(c)], [a, b, c])

    def c3(u):
        a, b, c = B("f64"), B("std::num::NonZeroI16"), B("char")
        return call(u, [PH(a, ("idx", 0)), " ", PH(c, ("idx", 2)), PH(b, ("idx", 1))], [a, b, c])

    def c4(u):
        a, b = st(), B("u16")
        return call(u, [PH(a, "ext", custom="[a-z]+|\\d"), ";", PH(b, "ext", custom="[0-9]")], [a, b])

    def c5(u):
        a, b = Hand("Ha", "x+"), Multi("Mu", ["a*", "b*"])
        return call(u, [ext(b), "/", ext(a)], [b, a])

    def c6(u):
        a = B("i64")
        return call(u, ["a.*", ext(a)], [a], escaped=False)

    def c7(u):
        return call(u, ["no placeholder"], [])

    def full():
        return Struct("Fs", Body([Field("a", B("u8")), Field("b", B("i16"), conv=Conv("map", None, "fm")), NamedField("c", st(), conv=Conv("filter_map", None, "ff")), Field("d", B("u32"), conv=Conv("from", None, "fr")),
                                  Field("e", B("String"), conv=Conv("try_from", None, "ft")), Field("f", rust_ty="::std::string::String", default=True),
                                  Field("g", rust_ty="DefK", default=("expr", "opq_defK()", S.PSym("opq_defK")))],
                                 Fmt([PH(how=("field", "b")), " ", PH(how="auto"), "{", PH(how=("field", "c")), "}", PH(how=("field", "d")), " ", PH(how=("field", "e"))])))

    def lts():
        return Struct("Fl", Body([Field(None, st()), Field(None, cow()), Field(None, B("bool"))], Fmt([PH(how="auto"), "=", PH(how="auto"), "=", PH(how="auto")]), shape="tuple"))

    def en():
        return Enum("Fe", [Variant("A", Body([Field(None, B("u8"))], Fmt(["a", PH(how="auto")]), "tuple")), Variant("B", Body([Field("s", st()), NamedField("n", B("i8"), conv=Conv("filter_map", None, "fe"))], Fmt(["b", PH(how="auto"), ",", PH(how="auto")]))),
                           Variant("C", Body([], Fmt(["c"]), "unit")), Variant("D", Body([], None, "unit"), skip=True)])

    def auto():
        return Enum("Fa", [Variant("AbC", Body([], None, "unit"), autopat=esc("ab c")), Variant("D", Body([], None, "unit"), autopat=esc("d"))], '#[sscanf(autogen = "lower case")]')

    def tr():
        return Struct("Ft", Body([Field("x", B("u32"))], Fmt([PH(how="auto")]), attr="#[sscanf(transparent)]"))

    def unit():
        return Struct("Fu", Body([], Fmt(["u.u"]), "unit"))

    def nest():
        return Struct("Fn2", Body([Field("x", tr()), Field("y", auto())], Fmt([PH(how="auto"), "-", PH(how="auto")])))
    ts = [("struct", full), ("borrowing struct", lts), ("enum", en), ("autogenerated enum", auto), ("transparent struct", tr), ("unit struct", unit), ("nested", nest)]
    out = [("u8", c1), ("str, Cow<str>, String", c2), ("indices", c3), ("custom regexes", c4), ("hand-written types", c5), ("unescaped", c6), ("literal only", c7)]

    def of(mk):
        return lambda u: (lambda t: call(u, ["[", ext(t), "]"], [t]))(mk())
    for n, mk in ts:
        out.append((n, of(mk)))
    out.append(("from_str of a struct", lambda u: FromStrCall(u, full())))
    out.append(("from_str of an enum", lambda u: FromStrCall(u, en())))

    def gr(u):
        t = lts()
        return GetRegex(u, Fmt(["r", ext(t)]), [t])
    out.append(("sscanf_get_regex!", gr))
    return out


def bare_kinds():
    """calls that need words of the prelude or primitive types (for contexts that do not take them)"""
    def r1(u):
        return Call(u, Fmt([PH(RadixTy("u8", "x")), " ", PH(RadixTy("i32", "#o")), PH(RadixTy("u64", "r36")), PH(RadixTy("usize", "b#") if False else RadixTy("usize", "b"))]))

    def r2(u):
        return Call(u, Fmt([PH(StrTy("str"), custom="a|b"), PH(StrTy()), PH(Builtin("u8")), "x"]))

    def r3(u):
        t = Struct("Fx", Body([Field("a", RadixTy("u8", "#x")), Field("b", Builtin("i64"), conv=Conv("map", None, "fx"))], Fmt([PH(how="auto", opt="#x"), ":", PH(how="auto")])))
        return Call(u, Fmt([PH(t), "|", PH(Builtin("f32"))]))
    return [("radix options", r1), ("types inside the string", r2), ("radix options in a struct", r3)]


# ------------------------------------------------------------------ their contexts

TYPES = ("Ok Err Some None Result Option String ToString ToOwned Box Vec Rc Arc Iterator IntoIterator ExactSizeIterator DoubleEndedIterator Extend FromIterator From Into TryFrom TryInto FromStr Default Error Regex "
         "Captures SubCaptureMatches Match FromScanf FromScanfSimple FromScanfFailedError FromStrFailedError FilterMapNoneError MissingPrefixError RegexRepresentation Send Sync Sized Copy Clone Drop Fn FnMut FnOnce AsRef AsMut "
         "Borrow Deref DerefMut Lazy LazyLock LazyCell OnceLock OnceCell Once Mutex Cow PhantomData Display Debug Formatter Infallible PartialEq Eq Ord Ordering Path PathBuf HashMap T E F Type Output Item Matcher Converter RegexParts").split()
CONSTS = "REGEX NUM_CAPTURES EXPECT_NEXT_HINT EXPECT_CAPTURE_HINT WRONG_CAPTURES_HINT PANIC FORMAT CAPTURES EXPECTED".split()
FNS = ("Ok Err Some None drop panic unreachable stringify format concat default from into try_from from_str from_matches parse next nth len iter captures captures_len map filter_map map_err and_then ok_or ok_or_else unwrap expect "
       "is_ok is_some as_str new from_str_radix is_empty strip_prefix input cap src regex regex_str matcher catcher res value n e f x start_len remaining expected error converted info type_name").split()
MODS = ("std core alloc sscanf sscanf_macro regex lazy_static const_format option result string primitive iter boxed error errors convert borrow str num prelude ops fmt marker vec internal __private private").split()
MACROS = ("panic format stringify unreachable concat vec assert assert_eq assert_ne debug_assert debug_assert_eq write writeln print println eprintln matches cfg todo unimplemented env option_env include_str concatcp formatcp lazy_static "
          "thread_local column line file module_path format_args quote quote_spanned parse_quote").split()


class FnField(Field):
    """a field whose closure calls a function of the given name"""
    fn = "f"

    def attr(self):
        return Field.attr(self).replace("&'a ", "&").replace("opq_%s(x)" % self.conv.uid, "%s(xx)" % self.fn).replace("|x: ", "|xx: ")


class Ctx:
    """items and statements around the generated code"""

    def __init__(self, name, items="", attr="", stmts="", bare=False, wrap=None, locals_=""):
        self.name, self.items, self.attr, self.stmts, self.bare, self.wrap = name, items, attr, stmts, bare, wrap


def each(fmt, names):
    return " ".join(fmt % n for n in names) + "\n"


TAKEN = [p for p in PRIMS if p not in ("u8", "usize")]  # const_format's own macros need these two (and str)
DENY = "macro_rules! %s { ($($t:tt)*) => { ::std::compile_error!{ \"a macro of the calling module is used\" } } }"


def contexts(thorough=False):
    out = [Ctx("ordinary module", bare=True)]
    out.append(Ctx("structs named like std's types", each("pub struct %s;", TYPES), bare=True))
    out.append(Ctx("enums named like std's types", each("pub enum %s {}", TYPES), bare=True))
    out.append(Ctx("traits named like std's", each("pub trait %s {}", TYPES), bare=True))
    out.append(Ctx("type aliases named like std's types", each("pub type %s = ();", TYPES), bare=True))
    out.append(Ctx("generic structs named like std's types", each("pub struct %s<Q, R>(pub Q, pub R);", TYPES), bare=True))
    out.append(Ctx("functions named like std's and the generated code's", each("pub fn %s() {}", FNS), bare=True))
    out.append(Ctx("constants", each("pub const %s: () = ();", CONSTS + ["Ok", "Err", "Some", "None"]), bare=True))
    out.append(Ctx("statics", each("pub static %s: () = ();", CONSTS + ["Ok", "Err", "Some", "None"]), bare=True))
    out.append(Ctx("modules named like crates and std's modules", each("pub mod %s {}", MODS), bare=True))
    out.append(Ctx("macros named like std's", each(DENY, MACROS), bare=True))
    out.append(Ctx("primitive types taken", each("pub struct %s;", TAKEN)))
    out.append(Ctx("primitive types as aliases of another", each("pub type %s = ::std::primitive::char;", [p for p in TAKEN if p != "char"]) + "pub type char = ::std::primitive::u8;\n"))
    out.append(Ctx("variants imported", "pub enum Va { Ok(::std::primitive::u8), Err, Some(), None { } } pub use self::Va::*;\n", bare=True))
    out.append(Ctx("no prelude", attr="#[no_implicit_prelude]", bare=True))
    out.append(Ctx("no prelude and everything taken", each("pub struct %s;", TYPES + TAKEN) + each("pub mod %s {}", MODS) + each(DENY, MACROS) + each("pub const %s: () = ();", CONSTS)
                   + each("pub fn %s() {}", [f for f in FNS if f not in TYPES]), attr="#[no_implicit_prelude]"))
    out.append(Ctx("crates renamed", "pub extern crate core as std; pub extern crate std as core; pub extern crate std as sscanf; pub extern crate core as regex;\n", bare=True))
    # inside a function
    up = [t for t in TYPES if t not in ("Ok", "Err", "Some", "None")]
    out.append(Ctx("local items", stmts=each("struct %s;", up) + each("const %s: () = ();", CONSTS + ["Ok", "Err", "Some", "None"]), bare=True))
    out.append(Ctx("local functions", stmts=each("fn %s() {}", [f for f in FNS if f != "input"]), bare=True))
    out.append(Ctx("local modules and macros", stmts=each("mod %s {}", MODS) + each(DENY, MACROS), bare=True))
    low = [f for f in FNS if f[0].islower() and f != "input"]
    out.append(Ctx("local variables", stmts=each("let %s = ();", low), bare=True))
    out.append(Ctx("mutable local variables", stmts=each("let mut %s = 1u8;", low) , bare=True))
    if thorough:
        for i, n in enumerate(TYPES):
            out.append(Ctx("struct " + n, "pub struct %s;\n" % n, bare=True))
        for i, n in enumerate(MODS):
            out.append(Ctx("module " + n, "pub mod %s {}\n" % n, bare=True))
        for i, n in enumerate(MACROS):
            out.append(Ctx("macro " + n, DENY % n + "\n", bare=True))
        for i, n in enumerate(FNS):
            out.append(Ctx("function " + n, "pub fn %s() {}\n" % n, bare=True))
            if n in low:
                out.append(Ctx("variable " + n, stmts="let %s = ();\n" % n, bare=True))
        for i, n in enumerate(CONSTS):
            out.append(Ctx("constant " + n, "pub const %s: () = ();\n" % n, bare=True))
    return out


WORD = {"Cow": "::std::borrow::Cow", "String": "::std::string::String", "str": "::std::primitive::str"}
WORD.update({p: "::std::primitive::" + p for p in PRIMS})


def absolutize(src, keep=()):
    """types in the program text (not in strings) with absolute paths"""
    out = []
    words = [w for w in WORD if w not in keep]
    for i, part in enumerate(re.split(r'(r#*"(?:.|\n)*?"#*|"(?:[^"\\]|\\.)*")', src)):
        if i % 2 == 0:
            part = re.sub(r"(?<![:\w])(?:(?:std::borrow::)(?=Cow))?(%s)\b(?!\s*[:!(])" % "|".join(words), lambda m: WORD[m.group(1)], part)
        out.append(part)
    return "".join(out)


def split_defs(types):
    clean, dirty = [], []
    for n, s in [d for t in types for d in t.defs()]:
        (dirty if "derive(::sscanf::FromScanf)" in s else clean).append(s) if s not in clean + dirty else None
    return "".join(clean), "".join(dirty)


def source(call, ctx, inp="input", body=None, defs=("", "")):
    types = call.types() if isinstance(call, Call) else [call.ty]
    clean, dirty = split_defs(types)
    clean = defs[0] + clean
    dirty = defs[1] + dirty
    if "opq_defK" in dirty:
        clean += "pub struct DefK(pub u64);\npub fn opq_defK() -> DefK { loop {} }\n"
    names = sorted(set(re.findall(r"\bpub (?:struct|fn|enum) (\w+)", clean)))
    get = isinstance(call, GetRegex)
    if body is None:
        body = call.invocation() if isinstance(call, Call) else "<%s as ::sscanf::FromScanf>::from_str(input)" % call.ty.result().replace("<'a>", "<'_>")
    res = "&'static ::sscanf::regex::Regex" if get else "::std::result::Result<%s, ::sscanf::Error>" % absolutize(call.result() if isinstance(call, Call) else call.ty.result(), [t.name for t in types if hasattr(t, "body") or hasattr(t, "variants")])
    args = "" if get else "input: &'a ::std::primitive::str"
    if not ctx.bare:
        dirty = absolutize(dirty)
    else:
        dirty = dirty.replace("'a str", "'a ::std::primitive::str")
    return ("pub mod m_%s {\npub mod clean { use ::std::prelude::v1::*; %s }\n%s pub mod dirty {\npub use super::clean::{%s};\n%s%spub fn w_%s%s(%s) -> %s {\n%s%s }\n}\n}\n"
            % (call.uid, clean, ctx.attr, ", ".join(names), ctx.items, dirty, call.uid, "" if get else "<'a>", args, res, ctx.stmts, body))


def call_check(call):
    if isinstance(call, GetRegex):
        return lambda p, ip, r: S.check_get_regex(p, ip, r, call)
    return lambda p, ip, r: S.check_call(p, ip, r, call)


def ctx_witness(call, ctx, what, **kw):
    w = E.W(call.uid, source(call, ctx, **kw), "%s: %s" % (what, kw.get("body") or call.describe()), [("w_" + call.uid, call_check(call))], anchor=A17)
    w.no_unsafe = True
    return w


def shadow_witnesses(thorough=False):
    ws = []
    n = 0
    for ci, ctx in enumerate(contexts(thorough)):
        single = ctx.name.split(" ")[0] in ("struct", "module", "macro", "function", "variable", "constant") and ci > 24
        ks = kinds() + (bare_kinds() if ctx.bare else [])
        for ki, (kn, mk) in enumerate(ks):
            if single and kn not in ("str, Cow<str>, String", "struct", "enum", "radix options", "sscanf_get_regex!"):
                continue
            n += 1
            ws.append(ctx_witness(mk("hc%d" % n), ctx, "%s; %s" % (ctx.name, kn)))
    return ws


def taken():
    """adds the names the current source writes into the user's crate to the lists"""
    low, fns, types, consts = quoted.names()
    types = types | set(quoted.exported())
    for names, new in ((LOCALS, sorted(low)), (FNS, sorted(low)), (TYPES, sorted(types)), (CONSTS, sorted(consts))):
        names.extend(x for x in new if x not in names)
    return sorted(x for x in types if x not in ("Ok", "Err", "Some", "None"))


LOCALS = "input src cap regex REGEX regex_str matcher catcher value res n e f x start_len remaining expected error info converted format captures matches m re s lifetime name ty".split()


def local_witnesses(thorough=False):
    """the names of the generated code's own variables used by the caller: as input, in closures, defaults, fields, variants, types"""
    ws = []
    n = 0
    ks = kinds()
    bk = bare_kinds()
    plain = Ctx("", bare=True)
    for i, name in enumerate(LOCALS):
        n += 1
        c = (ks[:6] + bk)[i % 9][1]("hl%d" % n)
        c.input_expr = name
        ws.append(ctx_witness(c, Ctx("", stmts="let %s = input;\n" % name, bare=True), "input is the variable %s" % name, body=c.invocation()))
        n += 1
        c = (ks + bk)[(i * 5 + 2) % 14][1]("hl%d" % n)
        if isinstance(c, Call) and not isinstance(c, GetRegex):
            c.input_expr = "%s.%s" % (("a", name) if i % 2 else (name, "a"))
            tn = "struct Hol<'q> { %s: &'q str }\n" % ("a" if i % 2 == 0 else name)
            ws.append(ctx_witness(c, Ctx("", stmts=tn + ("let a = Hol { %s: input };\n" % name if i % 2 else "let %s = Hol { a: input };\n" % name), bare=True), "input is a field or of a variable %s" % name, body=c.invocation()))
        if name in ("matches", "format", "REGEX", "re"):
            pass
        # closure parameters, default expressions, fields
        n += 1
        f = NamedField("p", AbsB("u8"), conv=Conv("map", None, "pm"))
        f.param = name
        g = NamedField("q", StrTy("&::std::primitive::str"), conv=Conv("filter_map", None, "pf"))
        g.param = name
        t = Struct("Pa", Body([f, g, Field("d", rust_ty="DefK", default=("expr", "{ let %s = opq_defK(); %s }" % (name, name), S.PSym("opq_defK")))], Fmt([PH(how="auto"), ",", PH(how="auto")])))
        ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext")]), [t]), plain, "map, filter_map and default with a variable %s" % name))
        n += 1
        v = [NamedField("p", AbsB("u8"), conv=Conv("filter_map", None, "pm")), NamedField("q", AbsB("i8"), conv=Conv("map", None, "pf"))]
        for q in v:
            q.param = name
        t = Enum("Pe", [Variant("Va", Body([v[0]], Fmt(["a", PH(how="auto")]))), Variant("Vb", Body([v[1], Field("d", rust_ty="DefK", default=("expr", "{ let %s = opq_defK(); %s }" % (name, name), S.PSym("opq_defK")))], Fmt(["b", PH(how="auto")])))])
        ws.append(ctx_witness(FromStrCall("hl%d" % n, t), plain, "map, filter_map and default of an enum with a variable %s" % name))
        if name[0].islower():
            n += 1
            fs = [Field(name, AbsB("u8")), Field("zz", StrTy("&::std::primitive::str"))]
            t = Struct("Fi", Body(fs, Fmt([PH(how=("field", name)), "|", PH(how="auto")]))) if i % 2 else Enum("Fi", [Variant("A", Body(fs, Fmt([PH(how=("field", name)), "|", PH(how="auto")]))), Variant("B", Body([], Fmt(["b"]), "unit"))])
            ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext"), "."]), [t]), plain, "a field named %s" % name))
            # a function of that name in a default or mapping expression
            n += 1
            t = Struct("Ff", Body([Field("d", rust_ty="DefK", default=("expr", "%s()" % name, S.PSym("opq_defK"))), Field("a", AbsB("u8"))], Fmt([PH(how="auto")])))
            ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext"), "."]), [t]), plain, "the default of a field calls a function named %s" % name, defs=("", "pub fn %s() -> DefK { opq_defK() }\npub const O_: fn() -> DefK = opq_defK;\n" % name)))
            n += 1
            t = Enum("Fg", [Variant("A", Body([Field("d", rust_ty="DefK", default=("expr", "%s()" % name, S.PSym("opq_defK"))), Field("a", AbsB("u8"))], Fmt(["a", PH(how="auto")]))), Variant("B", Body([], Fmt(["b"]), "unit"))])
            ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext"), "."]), [t]), plain, "the default of a variant's field calls a function named %s" % name, defs=("", "pub fn %s() -> DefK { opq_defK() }\n" % name)))
            # the closures of map and filter_map call it
            for kind in ("map", "filter_map"):
                n += 1
                f = FnField("p", AbsB("u8"), conv=Conv(kind, None, "pm"))
                f.fn = name
                fd = ("", "pub fn %s(x: ::std::primitive::u8) -> %s { opq_pm(x) }\n" % (name, "Topm" if kind == "map" else "::std::option::Option<Topm>"))
                fs = [f, Field("q", StrTy("&::std::primitive::str"))]
                t = Struct("Fm", Body(fs, Fmt([PH(how="auto"), ",", PH(how="auto")])))
                ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext")]), [t]), plain, "the closure of %s calls a function named %s" % (kind, name), defs=fd))
                n += 1
                t = Enum("Fn_", [Variant("A", Body([], Fmt(["b"]), "unit")), Variant("B", Body(fs, Fmt([PH(how="auto"), ",", PH(how="auto")])))])
                ws.append(ctx_witness(FromStrCall("hl%d" % n, t), plain, "the closure of a variant's %s calls a function named %s" % (kind, name), defs=fd))
            # so does the input expression
            if name == "input":
                continue
            n += 1
            c = (ks[:6] + bk)[i % 9][1]("hl%d" % n)
            c.input_expr = "%s(input)" % name
            ws.append(ctx_witness(c, plain, "the input is what a function named %s returns" % name, body=c.invocation(), defs=("", "pub fn %s(x: &::std::primitive::str) -> &::std::primitive::str { x }\n" % name)))
    # derived types and variants named like what the generated code uses
    for i, name in enumerate(TYPES + ["NUM_CAPTURES", "Self_"]):
        n += 1
        b = lambda: Body([Field(None, AbsB("u8"))], Fmt(["n", PH(how="auto")]), "tuple")
        t = Struct(name, b()) if i % 2 else Enum(name, [Variant("A", b()), Variant("B", Body([], Fmt(["b"]), "unit"))])
        ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext" if i % 3 else "type")]), [t] if i % 3 else []), plain, "a derived type named %s" % name))
        n += 1
        t = Enum("Vn", [Variant("Zz", Body([], Fmt(["z"]), "unit")), Variant(name, b() if i % 2 else Body([], Fmt(["v"]), "unit"))])
        ws.append(ctx_witness(Call("hl%d" % n, Fmt([PH(t, "ext" if i % 3 else "type")]), [t] if i % 3 else []), plain, "a variant named %s" % name))
    return ws


# ------------------------------------------------------------------ contexts that only have to compile

ALLOW = "#![allow(dead_code, unused, unused_imports, unreachable_code, non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]\n"
D = "#[derive(::sscanf::FromScanf)]"
MACRO_DEFS = r"""
pub use ::std::borrow::Cow;
macro_rules! ty { ($t:ty) => { ::sscanf::sscanf!("5", "{}", $t) } }
macro_rules! tya { ($t:ty) => { ::sscanf::sscanf!("5", "{:x}", $t) } }
macro_rules! tys { ($($t:ty),*) => { ::sscanf::sscanf!("5", "{} {} {0}", $($t),*) } }
macro_rules! path { ($t:path) => { ::sscanf::sscanf!("5", "{}", $t) } }
macro_rules! ident { ($t:ident) => { ::sscanf::sscanf!("5", "{}", $t) } }
macro_rules! tt { ($($t:tt)*) => { ::sscanf::sscanf!("5", "{}", $($t)*) } }
macro_rules! lit { ($l:literal) => { ::sscanf::sscanf!("5", $l) } }
macro_rules! litx { ($l:expr) => { ::sscanf::sscanf!("5", $l) } }
macro_rules! littt { ($l:tt) => { ::sscanf::sscanf!("5", $l) } }
macro_rules! re { ($l:literal $t:ty) => { ::sscanf::sscanf_get_regex!($l, $t) } }
macro_rules! un { ($l:literal $t:ty) => { ::sscanf::sscanf_unescaped!("5", $l, $t) } }
macro_rules! p { ($e:expr) => { ::sscanf::sscanf!($e, "{u8}") } }
macro_rules! pi { ($e:ident) => { ::sscanf::sscanf!($e, "{u8}") } }
macro_rules! pt { ($($e:tt)*) => { ::sscanf::sscanf!($($e)*, "{u8}") } }
macro_rules! idx { ($i:tt) => { ::sscanf::sscanf!("5", $i, u8, u16) } }
macro_rules! inn { ($e:expr) => {{ let loc = 1; ::sscanf::sscanf!(pick($e, loc), "{u8}") }} }
macro_rules! both { ($l:literal, $($t:ty),*) => { |s: &str| (::sscanf::sscanf!(s, $l, $($t),*).is_ok(), ::sscanf::sscanf_get_regex!($l, $($t),*).as_str().len()) } }
macro_rules! st { ($n:ident $f:ident $t:ty, $l:literal) => { #[derive(::sscanf::FromScanf)] #[sscanf(format = $l)] struct $n { $f: $t } } }
macro_rules! stx { ($n:ident $f:ident $t:ty, $l:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf(format = $l)] struct $n { $f: $t } } }
macro_rules! sts { ($n:ident $f:ident $t:ty, $l:literal) => { #[derive(::sscanf::FromScanf)] #[sscanf($l)] struct $n { $f: $t } } }
macro_rules! tr { ($n:ident $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf(transparent)] struct $n($t); } }
macro_rules! def { ($n:ident $t:ty, $d:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf("x")] struct $n { #[sscanf(default = $d)] f: $t } } }
macro_rules! dfn { ($n:ident $f:ident) => { #[derive(::sscanf::FromScanf)] #[sscanf("x")] struct $n { #[sscanf(default = { let v = 3u8; $f(v) })] f: u16 } } }
macro_rules! map { ($n:ident $f:ty, $t:ty, $d:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(map = |x: $f| $d)] f: $t } } }
macro_rules! map2 { ($n:ident $t:ty, $d:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(map = $d)] f: $t } } }
macro_rules! map3 { ($n:ident $f:ty, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(map = |x: $f| x as $t)] f: $t } } }
macro_rules! map4 { ($n:ident $p:pat, $f:ty, $b:block, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(map = |$p: $f| $b)] f: $t } } }
macro_rules! map5 { ($n:ident $p:ident, $f:ty, $b:expr, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(map = |$p: $f| $b)] f: $t } } }
macro_rules! map6 { ($n:ident $p:ident, $f:ty, $b:expr, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(filter_map = |$p: $f| Some($b))] f: $t } } }
macro_rules! fm2 { ($n:ident $t:ty, $d:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(filter_map = $d)] f: $t } } }
macro_rules! from { ($n:ident $f:ty, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(from = $f)] f: $t } } }
macro_rules! tfrom { ($n:ident $f:ty, $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf(try_from = $f)] f: $t } } }
macro_rules! en { ($n:ident $($v:ident = $l:literal),*) => { #[derive(::sscanf::FromScanf)] enum $n { $(#[sscanf(format = $l)] $v),* } } }
macro_rules! en2 { ($n:ident $($v:ident $t:ty),*) => { #[derive(::sscanf::FromScanf)] enum $n { $(#[sscanf("{}")] $v($t)),* } } }
macro_rules! ena { ($n:ident $c:literal $($v:ident),*) => { #[derive(::sscanf::FromScanf)] #[sscanf(autogen = $c)] enum $n { $($v),* } } }
macro_rules! skipv { ($n:ident $($v:ident)*; $($w:ident)*) => { #[derive(::sscanf::FromScanf)] #[sscanf(autogen)] enum $n { $($v),* , $(#[sscanf(skip)] $w),* } } }
macro_rules! lt { ($n:ident $l:lifetime $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n<$l> { f: $t, } } }
macro_rules! lt2 { ($n:ident $l:lifetime $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n<$l> { f: &$l $t, } } }
macro_rules! lt3 { ($n:ident $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n<'a> { f: &'a $t, } } }
macro_rules! lt4 { ($n:ident $t:ty) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n<'a> { f: ::std::borrow::Cow<'a, $t>, } } }
macro_rules! vis { ($v:vis $n:ident) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] $v struct $n { $v f: u8, } } }
macro_rules! item { ($i:item) => { $i } }
macro_rules! meta { ($(#[$m:meta])* $n:ident) => { $(#[$m])* struct $n { f: u8 } } }
macro_rules! gent { ($n:ident $g:ident) => { #[derive(::sscanf::FromScanf)] #[sscanf("x")] struct $n<$g> where $g: ::std::default::Default { #[sscanf(default)] f: $g, } } }
macro_rules! cg { ($n:ident $e:expr) => { #[derive(::sscanf::FromScanf)] #[sscanf("x")] struct $n { #[sscanf(default = [0; $e])] f: [u8; $e], } } }
macro_rules! cgen { ($n:ident) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n<const K: usize> { #[sscanf(map = |x: u8| [x; K])] f: [u8; K] } } }
macro_rules! attrs { ($n:ident $($a:tt)*) => { #[derive(::sscanf::FromScanf)] #[sscanf($($a)*)] struct $n { f: u8 } } }
macro_rules! attrs2 { ($n:ident $a:meta) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[$a] f: u8 } } }
macro_rules! attrs3 { ($n:ident $($a:tt)*) => { #[derive(::sscanf::FromScanf)] #[sscanf("{}")] struct $n { #[sscanf($($a)*)] f: u8 } } }
macro_rules! whole { ($($t:tt)*) => { $($t)* } }
macro_rules! twice { ($($t:tt)*) => { whole! { $($t)* } } }
macro_rules! body { ($b:block) => { $b } }
macro_rules! each { ($($n:ident: $t:ty = $l:literal),* $(,)?) => { $( pub fn $n(s: &str) -> Option<$t> { ::sscanf::sscanf!(s, $l, $t).ok() } )* } }
macro_rules! fields { ($n:ident { $($f:ident: $t:ty),* } $l:literal) => { #[derive(::sscanf::FromScanf)] #[sscanf(format = $l)] struct $n { $($f: $t),* } } }
macro_rules! hyg { ($n:ident) => { pub fn $n(a: &str) -> bool { let input = "1"; let src = 2; ::sscanf::sscanf!(a, "{u8}").is_ok() && ::sscanf::sscanf!(input, "{u8}").is_ok() && src == 2 } } }
pub fn pick<'a>(s: &'a str, _n: u8) -> &'a str { s }
pub fn conv(x: u8) -> u16 { x as u16 }
"""
MPRE = ALLOW + MACRO_DEFS.strip("\n") + "\n"

# expressions (statements of a function over s: &str) and items through macro fragments
FRAGMENTS = [
    ("ty fragment", "ty!(u8)"), ("ty fragment, reference", "ty!(&str)"), ("ty fragment, path", "ty!(std::path::PathBuf)"), ("ty fragment, Cow", "ty!(Cow<str>)"), ("ty fragment, str", "ty!(str)"),
    ("ty fragment with a radix", "tya!(u8)"), ("ty fragment with a radix, signed", "tya!(i128)"), ("ty fragments", "tys!(u8, i16)"), ("ty fragments, borrowed", "tys!(str, Cow<str>)"), ("path fragment", "path!(u8)"),
    ("path fragment, absolute", "path!(::std::string::String)"), ("path fragment, generics", "path!(Cow<str>)"), ("ident fragment", "ident!(u8)"), ("ident fragment, str", "ident!(str)"), ("tt fragments", "tt!(&str)"), ("tt fragments, Cow", "tt!(std::borrow::Cow<'_, str>)"),
    ("literal fragment", 'lit!("{u8}")'), ("literal fragment, raw", 'lit!(r#"{u8:/\\d"/}"#)'), ("literal as expr fragment", 'litx!("{u8:x}")'), ("literal as tt fragment", 'littt!("{str}")'),
    ("get_regex with fragments", 're!("{}" u8)'), ("get_regex with a borrowed type", 're!("{}" &str)'), ("unescaped with fragments", 'un!(".{}" u8)'), ("expr fragment as input", "p!(s)"), ("expr fragment as input, method", "p!(s.trim())"),
    ("expr fragment as input, reference", "p!(&s[..])"), ("expr fragment as input, block", "p!({ let input = s; input })"), ("expr fragment as input, String", "{ let o = String::new(); p!(o).is_ok() }"), ("ident fragment as input", "pi!(s)"), ("tt fragments as input", "pt!(s.trim_end())"),
    ("tt fragment, indices", 'idx!("{1} {0}")'), ("a local variable of the macro", "inn!(s)"), ("a closure from a macro", 'both!("{} {}", u8, str)(s)'), ("a call inside two macros", 'twice!(::sscanf::sscanf!(s, "{u8}"))'),
    ("nested fragments", "whole!(p!(s))"), ("block fragment", 'body!({ ::sscanf::sscanf!(s, "{u8}") })'), ("argument of assert!", 'assert!(::sscanf::sscanf!(s, "{u8}").is_ok())'), ("argument of assert_eq!", 'assert_eq!(::sscanf::sscanf!(s, "{u8}").ok(), None, "{}", 1)'),
    ("argument of format!", 'format!("{:?}", ::sscanf::sscanf!(s, "{u8}"))'), ("argument of vec!", 'vec![::sscanf::sscanf!(s, "{u8}").ok(), ::sscanf::sscanf!(s, "{u8:x}").ok()]'), ("argument of matches!", 'matches!(::sscanf::sscanf!(s, "{u8}"), Ok(3))'),
    ("argument of dbg!", 'dbg!(::sscanf::sscanf!(s, "{u8}").is_ok())'), ("argument of write!", '{ use std::fmt::Write; let mut o = String::new(); write!(o, "{:?}", ::sscanf::sscanf!(s, "{u8}")).unwrap() }'),
    ("argument of itself", '::sscanf::sscanf!(::sscanf::sscanf!(s, "{str},").unwrap(), "{u8}")'), ("argument of itself, nested blocks", '::sscanf::sscanf!({ let t = ::sscanf::sscanf!(s, "<{str}>").unwrap(); t }, "{u8},{str}")'),
]
FRAG_ITEMS = [
    ("struct from fragments", 'st! { A f u8, "{}" }'), ("struct from fragments, named", 'st! { A value u8, "{value}" }'), ("struct, raw name", 'st! { A r#type u8, "{}" }'), ("struct, expr format", 'stx! { A f u8, "{f}" }'), ("struct, short format", 'sts! { A f String, "{f}" }'),
    ("struct, ty Cow", "st! { A f Cow<'static, str>, \"{}\" }"), ("transparent", "tr! { A u8 }"), ("transparent, path", "tr! { A std::path::PathBuf }"), ("transparent, 'static", "tr! { A &'static str }"), ("default expr fragment", "def! { A u8, 3 + 4 }"),
    ("default expr fragment, call", "def! { A u16, conv(2) }"), ("default expr fragment, block", "def! { A u16, { let src = 2; conv(src) } }"), ("default with an ident fragment", "dfn! { A conv }"), ("map with fragments", "map! { A u8, u16, 5 }"), ("map closure as expr fragment", "map2! { A u16, |x: u8| conv(x) }"),
    ("map closure as expr fragment, block", "map2! { A u16, |x: u8| -> u16 { let n = conv(x); n } }"), ("map with ty fragments and as", "map3! { A u8, u16 }"), ("map with pat and block fragments", "map4! { A x, u8, { x as u16 }, u16 }"), ("map with ident and expr fragments", "map5! { A n, u8, conv(n), u16 }"),
    ("map with a reference", "map5! { A res, &str, res.len(), usize }"), ("filter_map with fragments", "map6! { A src, u8, src, u8 }"), ("filter_map closure as expr fragment", "fm2! { A u16, |x: u8| Some(conv(x)) }"), ("from with fragments", "from! { A u8, u16 }"), ("try_from with fragments", "tfrom! { A u16, u8 }"),
    ("enum from fragments", 'en! { A B = "b", C = "c" }'), ("enum from type fragments", "en2! { A B u8, C String, D char }"), ("enum borrowing from fragments", "en2! { A B &'static str, C u8 }"), ("autogen fragments", 'ena! { A "snake_case" BbB, C }'), ("skip fragments", "skipv! { A B C; D E }"),
    ("lifetime fragment", "lt! { A 'a &'a str }"), ("lifetime fragment, Cow", "lt! { A 'b Cow<'b, str> }"), ("lifetime fragment in a reference", "lt2! { A 'a str }"), ("lifetime of the macro", "lt3! { A str }"), ("lifetime of the macro, Cow", "lt4! { A str }"),
    ("vis fragment", "vis! { pub A }"), ("vis fragment, crate", "vis! { pub(crate) A }"), ("vis fragment, empty", "vis! { A }"), ("item fragment", 'item! { %s #[sscanf("{}")] struct A(u8); }' % D), ("item fragment, enum", 'item! { %s enum A<\'a> { #[sscanf("a{}")] B(&\'a str), #[sscanf("c")] C } }' % D),
    ("meta fragments", 'meta! { #[derive(::sscanf::FromScanf)] #[sscanf(format = "{}")] A }'), ("generics fragment", "gent! { A T }"), ("generics fragment named like std", "gent! { A Result }"), ("expr in array length", "cg! { A 3 }"), ("const generics", "cgen! { A }"),
    ("attribute tokens", 'attrs! { A format = "{f}" }'), ("attribute tokens, transparent", "attrs! { A transparent }"), ("field attribute as meta", "attrs2! { A sscanf(map = |x: u8| x) }"), ("field attribute tokens", "attrs3! { A map = |x: u8| x }"), ("field attribute tokens, from", "attrs3! { A from = u8 }"),
    ("functions from repetitions", 'each! { fa: u8 = "{}", fb: String = "<{}>", fc: f32 = "{}x" }'), ("fields from repetitions", 'fields! { A { a: u8, b: String, c: char } "{b},{a}{c}" }'), ("fields from repetitions, all hidden names", 'fields! { A { src: u8, start_len: u8, n: u8, res: u8, error: u8, catcher: u8 } "{n},{src}{},{},{error}-{catcher}" }'),
    ("names of the macro's caller", "hyg! { fa }"), ("derive inside two macros", 'twice! { %s #[sscanf("{}")] struct A(u8); }' % D),
]

# (name, template: CALL is the expression, TY its value's type, ITEM the derived item)
EXPR_CONTEXTS = [
    ("function", "pub fn f(s: &str) -> Option<TY> { CALL.ok() }"), ("tail of blocks", "pub fn f(s: &str) -> Option<TY> { { { CALL } }.ok() }"), ("generic function", "pub fn f<T: Clone, E>(s: &str, _t: T, _e: E) -> Option<TY> { CALL.ok() }"),
    ("generics named like std's types", "pub fn f<Option, Result, String, Ok, Err, Some, Box, Error>(s: &str, _a: Option, _b: Result, _c: String, _d: Ok, _e: Err, _f: Some, _g: Box, _h: Error) -> bool { CALL.is_ok() }"),
    ("const generics named like the call's constants", "pub fn f<const REGEX: usize, const NUM_CAPTURES: usize>(s: &str) -> bool { CALL.is_ok() && REGEX == NUM_CAPTURES }"),
    ("impl Trait argument", "pub fn f(s: impl AsRef<str>) -> bool { let s = s.as_ref(); CALL.is_ok() }"), ("closure", "pub fn f() -> impl Fn(&str) -> Option<TY> { |s| CALL.ok() }"), ("closure, move", "pub fn f(s: &str) -> bool { let g = move || CALL.is_ok(); g() && g() }"),
    ("nested closures", "pub fn f(s: &str) -> bool { (|| (|| CALL.is_ok())())() }"), ("async function", "pub async fn f(s: &str) -> Option<TY> { CALL.ok() }"), ("async block", "pub fn f(s: &'static str) -> impl ::std::future::Future<Output = Option<TY>> { async move { CALL.ok() } }"),
    ("async Send block", "pub fn is_send<T: Send>(_t: T) {} pub fn f(s: &'static str) { is_send(async move { let x = CALL.is_ok(); ::std::future::ready(()).await; x }) }"), ("async across an await", "pub async fn f(s: &str) -> bool { let x = CALL; ::std::future::ready(()).await; x.is_ok() }"),
    ("method", "pub struct Q; impl Q { pub fn f(&self, s: &str) -> Option<TY> { CALL.ok() } }"), ("associated function of a generic type", "pub struct Q<T>(T); impl<T: Copy> Q<T> { pub const REGEX: u8 = 1; pub fn f(s: &str) -> Option<TY> { CALL.ok() } }"),
    ("trait default method", "pub trait Q { const REGEX: u8; type Error; fn f(&self, s: &str) -> Option<TY> { CALL.ok() } }"), ("trait implementation", "pub struct Q; impl ::std::str::FromStr for Q { type Err = ::sscanf::Error; fn from_str(s: &str) -> Result<Self, Self::Err> { CALL?; Ok(Q) } }"),
    ("Drop implementation", "pub struct Q<'a>(&'a str); impl<'a> Drop for Q<'a> { fn drop(&mut self) { let s = self.0; CALL.ok(); } }"), ("lazy static initialiser", "pub static X: ::std::sync::LazyLock<bool> = ::std::sync::LazyLock::new(|| { let s = \"1\"; CALL.is_ok() });"),
    ("constant closure", "pub const X: fn(&str) -> bool = |s| CALL.is_ok();"), ("thread local", "thread_local! { static X: bool = { let s = \"1\"; CALL.is_ok() }; }"), ("nested function", "pub fn f(s: &str) -> bool { fn g(s: &str) -> bool { CALL.is_ok() } g(s) }"),
    ("match scrutinee", "pub fn f(s: &str) -> bool { match CALL { Ok(_) => true, Err(::sscanf::Error::MatchFailed) => false, Err(_) => false } }"), ("if let", "pub fn f(s: &str) -> bool { if let Ok(_x) = CALL { true } else { false } }"), ("while let", "pub fn f(s: &str) { while let Ok(_x) = CALL { break } }"),
    ("let else", "pub fn f(s: &str) -> bool { let Ok(_x) = CALL else { return false }; true }"), ("question mark", "pub fn f(s: &str) -> Result<TY, ::sscanf::Error> { Ok(CALL?) }"), ("question mark, boxed error", "pub fn f(s: &str) -> Result<(), Box<dyn ::std::error::Error + '_>> { CALL?; Ok(()) }"),
    ("loop label", "pub fn f(s: &str) -> bool { 'a: loop { 'src: loop { if CALL.is_ok() { break 'a true } else { break 'src } } } }"), ("match guard", "pub fn f(s: &str) -> bool { match s { _ if CALL.is_ok() => true, _ => false } }"), ("match arm", "pub fn f(s: &str) -> bool { match s.len() { 0 => CALL, _ => CALL }.is_ok() }"),
    ("statement", "pub fn f(s: &str) { let _ = CALL; }"), ("operand", "pub fn f(s: &str) -> bool { CALL.is_ok() && !CALL.is_err() | CALL.is_ok() }"), ("array", "pub fn f(s: &str) -> usize { [CALL.is_ok(), CALL.is_ok()].len() }"), ("struct field", "pub struct Q { pub x: bool } pub fn f(s: &str) -> Q { Q { x: CALL.is_ok() } }"),
    ("several in one scope", "pub fn f(s: &str) -> bool { let a = CALL; let b = CALL; let c = ::sscanf::sscanf!(s, \"{u8}\"); let d = ::sscanf::sscanf!(s, \"{u8:x},{str}\"); let r = ::sscanf::sscanf_get_regex!(\"{u8}\"); a.is_ok() && b.is_ok() && c.is_ok() && d.is_ok() && r.is_match(s) }"),
    ("iterator chain", "pub fn f(s: &str) -> usize { s.lines().filter_map(|s| CALL.ok()).count() }"), ("const block around a function", "pub const _: () = { pub fn f(s: &str) -> bool { CALL.is_ok() } };"), ("deep module", "pub mod a { pub mod src { pub mod regex { pub fn f(s: &str) -> bool { let _ = s; true } pub mod core { use super::super::super::*; pub fn f(s: &str) -> bool { CALL.is_ok() } } } } }"),
    ("shadowed afterwards", "pub fn f(s: &str) -> bool { let r = CALL.is_ok(); let s = 1; let input = s; let src = input; r && src == 1 }"), ("test of a result's type", "pub fn f(s: &str) -> bool { let x: Result<TY, ::sscanf::errors::Error> = CALL; x.is_ok() }"),
    ("dyn trait", "pub fn f(s: &str) -> Box<dyn Fn() -> bool + '_> { Box::new(move || CALL.is_ok()) }"), ("function pointer", "pub fn f() -> fn(&str) -> bool { fn g(s: &str) -> bool { CALL.is_ok() } g }"), ("scoped thread", "pub fn f(s: &str) -> bool { ::std::thread::scope(|t| t.spawn(|| CALL.is_ok()).join().unwrap()) }"),
    ("spawned thread", "pub fn f(s: String) -> bool { ::std::thread::spawn(move || { let s = s.as_str(); CALL.is_ok() }).join().unwrap() }"), ("mutable state", "pub fn f(s: &str) -> u8 { let mut n = 0; let mut g = |_: bool| n += 1; g(CALL.is_ok()); n }"),
    ("extern function", 'pub extern "C" fn f() -> bool { let s = "1"; CALL.is_ok() }'), ("inline const fn argument", "pub const fn k(x: bool) -> bool { x } pub fn f(s: &str) -> bool { k(CALL.is_ok()) }"), ("unwrap", "pub fn f(s: &str) -> TY { CALL.unwrap() }"), ("catch_unwind", "pub fn f(s: &str) -> bool { ::std::panic::catch_unwind(|| CALL.is_ok()).is_ok() }"),
]
CALLS = [("u8", '::sscanf::sscanf!(s, "{u8}")', "u8"), ("tuple", '::sscanf::sscanf!(s, "{u8},{},{i16:x}", String)', "(u8, String, i16)"), ("scanf", '::sscanf::scanf!(s, "{f64:/\\\\d/}")', "f64"), ("unescaped", '::sscanf::sscanf_unescaped!(s, ".*{char}")', "char"),
         ("derived", '::sscanf::sscanf!(s, "{Der}")', "Der"), ("derived enum", '::sscanf::sscanf!(s, "{},{}", Enu, Der)', "(Enu, Der)"), ("literal", '::sscanf::sscanf!(s, "abc")', "()"), ("from_str", "<Der as ::sscanf::FromScanf>::from_str(s)", "Der")]
CALL_DEFS = '#[derive(::sscanf::FromScanf)] #[sscanf("{a}:{b}")] pub struct Der { pub a: u8, pub b: String, #[sscanf(default)] pub c: Option<u8> } #[derive(::sscanf::FromScanf)] pub enum Enu { #[sscanf("a{}")] A(u8), #[sscanf(format = "b")] B }\n'

ITEMS = [
    ("struct", D + ' #[sscanf("{a},{b}")] VIS struct A { VIS a: u8, VIS b: String }'), ("tuple struct", D + ' #[sscanf(format = "{},{}")] VIS struct A(VIS u8, VIS String);'), ("unit struct", D + ' #[sscanf("a")] VIS struct A;'),
    ("borrowing struct", D + ' #[sscanf(format = "{a},{b}")] VIS struct A<\'a, \'b: \'a> { VIS a: &\'a str, VIS b: ::std::borrow::Cow<\'b, str> }'),
    ("struct with attributes", D + ' #[sscanf("{a}{c}{d}{e}")] VIS struct A { #[sscanf(map = |x: u8| x as u32)] VIS a: u32, #[sscanf(default)] VIS b: u8, #[sscanf(default = 3)] VIS b2: u8, #[sscanf(filter_map = |x: &str| x.chars().next())] VIS c: char, #[sscanf(from = u8)] VIS d: u16, #[sscanf(try_from = u16)] VIS e: u8 }'),
    ("generic struct", D + ' #[sscanf("{a}")] VIS struct A<T: ::std::default::Default, const K: usize> where T: ::std::clone::Clone { VIS a: u8, #[sscanf(default)] VIS t: T, #[sscanf(default = [0; K])] VIS k: [u8; K] }'),
    ("enum", D + ' VIS enum A { #[sscanf(format = "a{}")] B(u8), #[sscanf("c{x}")] C { x: String }, #[sscanf("d")] D, E(u16) }'), ("borrowing enum", D + " VIS enum A<'x> { #[sscanf(\"a{}\")] B(&'x str), #[sscanf(skip)] C, #[sscanf(\"{}\")] D(#[sscanf(map = |s: &str| s.len())] usize) }"),
    ("autogenerated enum", D + ' #[sscanf(autogen = "kebab-case")] VIS enum A { BbB, #[sscanf(skip)] C, #[sscanf(format = "x{}")] D(u8) }'), ("transparent", D + " #[sscanf(transparent)] VIS struct A(VIS ::std::path::PathBuf);"),
    ("enum with discriminants", D + ' #[repr(u8)] #[sscanf(autogen)] VIS enum A { B = 1, C = 2 + 3, D = A::B as u8 + 10 }'),
    ("other derives", "#[derive(Debug, Clone, ::sscanf::FromScanf, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] #[sscanf(\"{a}\")] VIS struct A { VIS a: u8 }"), ("other derives, derive last", '#[derive(Debug, Clone, Copy)] #[derive(::sscanf::FromScanf)] #[sscanf("{}")] #[must_use] VIS struct A(VIS u8);'),
    ("cfg_attr", '#[cfg_attr(all(), derive(::sscanf::FromScanf), sscanf(format = "{}"))] VIS struct A(VIS u8);'), ("doc comments", '/** doc */ #[derive(::sscanf::FromScanf)] #[doc = "d"] #[sscanf("{a}")] VIS struct A { #[doc = "f"] #[allow(dead_code)] VIS a: u8 }'),
    ("cfg on fields", D + ' #[sscanf("{a}")] VIS struct A { #[cfg(all())] VIS a: u8, #[cfg(any())] VIS b: Missing }'), ("cfg on variants", D + ' #[sscanf(autogen)] VIS enum A { #[cfg(all())] B, #[cfg(any())] C(Missing) }'),
    ("self-nesting call", D + ' #[sscanf("{a}")] VIS struct A { #[sscanf(map = |s: &str| ::sscanf::sscanf!(s, "<{u8}>").unwrap())] VIS a: u8, #[sscanf(default = ::sscanf::sscanf!("7", "{u8}").unwrap())] VIS d: u8 }'),
    ("raw names", D + ' #[sscanf("{},{}")] VIS struct A { VIS r#type: u8, VIS r#fn: String }'), ("raw type name", D + ' #[sscanf("{}")] VIS struct r#struct(VIS u8);'), ("format of a const-like raw string", D + ' #[sscanf(format_unescaped = r#"\\d"{}"#)] VIS struct A(VIS u8);'),
]
ITEM_CONTEXTS = [
    ("module", "ITEM"), ("function", "pub fn f() { ITEM }"), ("block", "pub fn f() { { ITEM } { let _x = 1; ITEM } }"), ("closure", "pub fn f() { let _g = || { ITEM }; }"), ("method", "pub struct Q; impl Q { pub fn f(&self) { ITEM } }"), ("generic method", "pub struct Q<T>(T); impl<T> Q<T> { pub fn f<U>(&self) { ITEM } }"),
    ("trait method", "pub trait Q { fn f(&self) { ITEM } }"), ("const block", "const _: () = { ITEM };"), ("async function", "pub async fn f() { ITEM }"), ("nested module", "pub mod a { pub mod b { ITEM } }"), ("no prelude", "#[no_implicit_prelude] pub mod a { ITEM }"),
    ("static initialiser", "pub static X: u8 = { ITEM 1 };"), ("array length", "pub type X = [u8; { ITEM 1 }];"), ("macro argument", "whole! { ITEM }"), ("two macros", "twice! { ITEM }"), ("item fragment", "item! { ITEM }"), ("function after its use", "pub fn f(_s: &str) { fn _g() {} ITEM }"),
    ("taken names", "pub struct Option; pub struct Result; pub struct Box; pub mod std {} pub mod core {} pub mod sscanf {} pub trait FromScanf {} pub fn Ok() {} ITEM"),
]


def plain_witnesses(thorough=False):
    """every fragment and nesting: the program compiles"""
    ws = []
    n = 0

    def add(name, src):
        nonlocal n
        n += 1
        uid = "hp%d" % n
        ws.append(E.W(uid, "pub mod m_%s { use super::*; %s }\n" % (uid, src), "%s: %s" % (name, src), expect="compile", anchor=A17))
    for name, e in FRAGMENTS:
        add(name, "pub fn f(s: &str) { let _x = %s; }" % e)
        if thorough:
            add(name + ", in a closure", "pub fn f() { let _g = |s: &str| { let _x = %s; }; }" % e)
            add(name + ", in a macro", "pub fn f(s: &str) { whole! { let _x = %s; } }" % e)
    for name, i in FRAG_ITEMS:
        add(name, i)
        add(name + ", in a function", "pub fn f() { %s }" % i)
        if thorough:
            add(name + ", in a macro", "whole! { %s }" % i)
    for ci, (cn, t) in enumerate(EXPR_CONTEXTS):
        for ki, (kn, c, ty) in enumerate(CALLS):
            if cn == "generics named like std's types" and kn == "tuple" or cn == "deep module" and ("Der" in c or "Enu" in c):
                continue
            if thorough or (ci + ki) % 3 == 0 or ki == 1:
                add("%s, %s" % (cn, kn), CALL_DEFS + t.replace("CALL", c).replace("TY", ty))
    for ci, (cn, t) in enumerate(ITEM_CONTEXTS):
        for ii, (iname, item) in enumerate(ITEMS):
            if cn == "item fragment" and "cfg" in iname:
                continue
            if cn == "no prelude":
                if "other derives" in iname or "chars()" in item or "unwrap()" in item:
                    continue
                item = re.sub(r"\bString\b", "::std::string::String", item)
            if thorough or (ci + ii) % 2 == 0 or ci in (0, 1, 17):
                add("%s in %s" % (iname, cn), t.replace("ITEM", item.replace("VIS", "pub" if cn in ("module", "nested module", "no prelude") else "")))
    return ws


LINTPRE = "#![deny(warnings)]\n#![forbid(unsafe_code)]\n"


def lint_witnesses(thorough=False):
    """programs without anything to warn about, under deny(warnings) and forbid(unsafe_code)"""
    ws = []
    n = 0

    def add(name, src):
        nonlocal n
        n += 1
        uid = "hw%d" % n
        ws.append(E.W(uid, "pub mod m_%s { %s }\n" % (uid, src), "%s: %s" % (name, src), expect="compile", anchor=A17))
    skip = ("tail of blocks", "const block around", "generics named like std's", "const generics named like", "deep module", "shadowed afterwards", "loop label", "nested closures")
    for ci, (cn, t) in enumerate(EXPR_CONTEXTS):
        if cn.startswith(skip) or "LET_" in t:
            continue
        for ki, (kn, c, ty) in enumerate(CALLS):
            if thorough or (ci + ki) % 4 == 0 or cn == "function":
                add("%s, %s" % (cn, kn), (CALL_DEFS if "Der" in c or "Enu" in c else "") + t.replace("CALL", c).replace("TY", ty))
    for iname, item in ITEMS:
        if iname != "raw type name":
            add(iname, item.replace("VIS", "pub"))
    types = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "String", "&'static str", "::std::borrow::Cow<'static, str>", "::std::path::PathBuf", "::std::num::NonZeroU8", "::std::num::NonZeroI128"]
    for t in types:
        p = t.replace("'static ", "").replace("'static, ", "")
        add("placeholder " + t, "pub fn f(s: &'static str) -> Result<%s, ::sscanf::Error> { ::sscanf::sscanf!(s, \"a{}b\", %s) } pub fn g() -> &'static ::sscanf::regex::Regex { ::sscanf::sscanf_get_regex!(\"{}\", %s) }" % (t, p, p))
        add("field " + t, D + ' #[sscanf(format = "<{}>")] pub struct A(pub %s); ' % t + D + ' pub enum B { #[sscanf("{}")] C(%s), #[sscanf(format = "d{x}")] D { x: %s } }' % (t, t))
        add("conversions of " + t, D + ' #[sscanf(format = "{a},{b},{d}")] pub struct A { #[sscanf(map = |x: %s| { let _y = x; 1 })] pub a: u8, #[sscanf(filter_map = |x: %s| { drop(x); Some(1) })] pub b: u8, #[sscanf(default)] pub c: u8, pub d: %s }' % (p, p, t)
            if t not in ("u8",) and not re.match(r"[ui]\d|[ui]size|f\d|bool|char|::std::num", t) and not t.startswith("&") else D + ' #[sscanf(format = "{a},{d}")] pub struct A { #[sscanf(map = |x: %s| { let _y = x; 1 })] pub a: u8, #[sscanf(default)] pub c: u8, pub d: %s }' % (p, t))
    for i, o in enumerate(["x", "o", "b", "#x", "#o", "#b", "r2", "r8", "r16", "r36", "r3"]):
        for t in ("u8", "i64", "u128") if not thorough else types[:12]:
            add("radix %s of %s" % (o, t), "pub fn f(s: &str) -> Result<%s, ::sscanf::Error> { ::sscanf::sscanf!(s, \"{%s:%s}\") } %s #[sscanf(\"{x:%s}\")] pub struct A { pub x: %s }" % (t, t, o, D, o, t))
    add("fields never read", "pub fn f(s: &str) -> bool { %s #[sscanf(\"{a}\")] struct A { a: u8 } ::sscanf::sscanf!(s, \"{A}\").map_or(false, |v| v.a == 1) }" % D)
    for i, k in enumerate((2, 3, 8, 9, 12, 13, 16, 17, 26, 27, 33, 65, 66, 130)):
        ts = [("u8", "str", "char", "String", "f32")[(i + j) % 5] for j in range(k)]
        for m in ("sscanf", "scanf_unescaped") if i % 2 else ("scanf", "sscanf_unescaped"):
            add("%d placeholders" % k, 'pub fn f(s: &str) -> bool { ::sscanf::%s!(s, "%s").is_ok() }' % (m, ",".join("{%s}" % t for t in ts)))
            add("%d types" % k, 'pub fn f(s: &str) -> bool { ::sscanf::%s!(s, "%s", %s).is_ok() }' % (m, ",".join("{%s}" % (j if i % 3 else "") for j in range(k)), ", ".join(ts)))
        add("regex of %d" % k, 'pub fn f() -> &\'static ::sscanf::regex::Regex { ::sscanf::sscanf_get_regex!("%s") }' % ",".join("{%s}" % t for t in ts))
        fts = [("u8", "&'a str", "char", "String", "f32")[(i + j) % 5] for j in range(k)]
        fmt = ",".join(["{}"] * k)
        add("%d fields" % k, D + ' #[sscanf("%s")] pub struct A<\'a>(%s); ' % (fmt, ", ".join("pub " + t for t in fts)) + D + ' #[sscanf("%s")] pub struct B<\'a> { %s }' % (",".join("{f%d}" % j for j in range(k))[::1], ", ".join("pub f%d: %s" % (j, t) for j, t in enumerate(fts)))
            if "&'a str" in fts else D + ' #[sscanf("%s")] pub struct A(%s);' % (fmt, ", ".join("pub " + t for t in fts)))
        add("%d variants" % k, D + ' pub enum A<\'a> { #[sscanf("{}!")] S(&\'a str), %s }' % ", ".join('#[sscanf("v%d{}")] V%d(%s)' % (j, j, t) for j, t in enumerate(fts)) + " " + D + " #[sscanf(autogen)] pub enum B { %s }" % ", ".join("W%d" % j for j in range(k)))
    add("custom regexes", 'pub fn f(s: &str) -> bool { ::sscanf::sscanf!(s, "{str:/a|b/}{u8:/[0-9]/}").is_ok() && ::sscanf::scanf_unescaped!(s, "(?:a|b){u8}").is_ok() }')
    return ws

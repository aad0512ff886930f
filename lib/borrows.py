"""Borrowed and owned results: values (MIR) and regions (compile-pass / compile-fail twins) (C18)."""
import engine as E
import interp as X
import spec as S
from spec import Call, FromStrCall, Fmt, PH, Builtin, StrTy, CowTy, RadixTy, Field, Body, Struct, Enum, Variant

A18 = "sscanf_macro/src/regex_parts.rs Converter::Str, Converter::CowStr; sscanf_macro/src/derive.rs merge_lifetimes"

# ------------------------------------------------------------------ values: slices of the input, Cow::Borrowed, nothing copied


def check_borrowed(call):
    def check(prog, ip, root):
        v = S.check_call(prog, ip, root, call)
        for o in v.outs:
            if o.kind != "return":
                continue
            val = o.st.deep(o.value)
            if not (isinstance(val, X.Agg) and val.variant == 0):
                continue
            v.obligations += 1
            c = [e for e in o.st.events if e[0] == "copy"]
            if c:
                v.bad.append(S.Finding("text of the input is copied (%s)" % S.show(c[0][1]), log=o.st.log))
        return v
    return check


def witness(c):
    return E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, check_borrowed(c))], anchor=A18)


def borrow_types():
    """fresh objects; (name, type)"""
    st = lambda n, fs, fmt, **kw: Struct(n, Body(fs, Fmt(fmt), **kw))
    F = Field
    out = [("s%d" % i, lambda t=t: StrTy(t)) for i, t in enumerate(["str", "&str", "std::primitive::str", "&::std::primitive::str", "core::primitive::str", "::core::primitive::str"])]
    out += [("c%d" % i, lambda t=t: CowTy(t)) for i, t in enumerate(["Cow<str>", "std::borrow::Cow<str>", "::std::borrow::Cow<str>", "Cow<'_, str>", "Cow<'a, str>"])]
    out += [
        ("one", lambda: st("Bo", [F("x", StrTy())], ["<", PH(how="auto"), ">"])),
        ("two", lambda: st("Bt", [F("x", StrTy()), F("y", CowTy())], [PH(how="auto"), ",", PH(how="auto")])),
        ("swap", lambda: st("Bw", [F("x", StrTy()), F("y", StrTy())], [PH(how=("field", "y")), ",", PH(how=("field", "x"))])),
        ("tuple", lambda: st("Bp", [F(None, CowTy()), F(None, Builtin("u8")), F(None, StrTy())], [PH(how="auto"), " ", PH(how="auto"), " ", PH(how="auto")], shape="tuple")),
        ("transparent", lambda: st("Br", [F("x", StrTy())], [PH(how="auto")], attr="#[sscanf(transparent)]")),
        ("transparentc", lambda: st("Bc", [F("x", CowTy())], [PH(how="auto")], attr="#[sscanf(transparent)]")),
        ("regex", lambda: st("Bx", [F("x", StrTy()), F("y", CowTy())], [PH(how=("field", "x"), custom="[ab]+"), PH(how=("field", "y"), custom=".*?c")])),
        ("default", lambda: st("Bd", [F("x", StrTy()), F("y", StrTy(), default=True), F("z", CowTy(), default=True)], ["d", PH(how="auto")])),
        ("enum", lambda: Enum("Be", [Variant("A", Body([F(None, StrTy())], Fmt(["a", PH(how="auto")]), shape="tuple")), Variant("B", Body([F("c", CowTy()), F("s", StrTy())], Fmt(["b", PH(how="auto"), "/", PH(how="auto")]))),
                                     Variant("C", Body([], Fmt(["c"]), shape="unit"))])),
        ("enumt", lambda: Enum("Bm", [Variant("A", Body([F(None, StrTy())], Fmt([PH(how="auto")]), shape="tuple", attr="#[sscanf(transparent)]")), Variant("B", Body([], None, shape="unit"), skip=True)])),
    ]
    return out


def value_witnesses(thorough=False):
    ws = []
    ts = borrow_types()
    u8 = lambda: Builtin("u8")
    n = 0
    for name, mk in ts:
        t = lambda: mk()
        plain = name[0] in "sc" and name[1:].isdigit()
        fmts = []
        a = t()
        fmts.append((Fmt([PH(a)]), []))
        a = t()
        fmts.append((Fmt(["x", PH(a, "ext"), "y"]), [a]))
        a = t()
        fmts.append((Fmt([PH(u8()), ",", PH(a), ",", PH(Builtin("i32"))]), []))
        a = t()
        fmts.append((Fmt([PH(a, ("idx", 0)), "-", PH(a, ("idx", 0))]), [a]))
        if plain:
            a = t()
            fmts.append((Fmt([PH(a, custom="[a-z]+|\\d*")]), []))
            a = t()
            fmts.append((Fmt([PH(a, "ext", custom=" .* "), PH(u8())]), [a]))
        else:
            a = t()
            fmts.append((Fmt([PH(StrTy()), "=", PH(a), ";", PH(CowTy())]), []))
        for f, ext in fmts:
            for m in (("sscanf", "scanf", "sscanf_unescaped", "scanf_unescaped") if thorough else (("sscanf", "sscanf_unescaped", "scanf", "scanf_unescaped")[n % 4],)):
                n += 1
                f2 = Fmt(f.items, not m.endswith("unescaped"))
                ws.append(witness(Call("bv%d" % n, f2, list(ext), macro=m)))
        if not plain:
            n += 1
            ws.append(witness(FromStrCall("bf%d" % n, t())))
    for i, (k, mk) in enumerate(ts):
        n += 1
        j = (i * 7 + 3) % len(ts)
        ws.append(witness(Call("bv%d" % n, Fmt([PH(mk()), " ", PH(ts[j][1]()), "|", PH(StrTy("&str"))]) if k != ts[j][0] else Fmt([PH(mk())]))))
    import families
    ws += [witness(w.call) for w in families.far("str") + families.far("custom")]
    return ws


# ------------------------------------------------------------------ regions

DEFS = """
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct One<'x> { pub a: &'x str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{}")] pub struct OneC<'x>(pub Cow<'x, str>);
#[derive(::sscanf::FromScanf)] #[sscanf(transparent)] pub struct Tr<'x>(pub &'x str);
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{n},{a}")] pub struct Mixed<'x, T: Copy + ::std::default::Default> { pub a: ::std::borrow::Cow<'x, str>, pub n: u8, #[sscanf(default)] pub t: T }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b}")] pub struct Two<'x, 'y> { pub a: &'x str, pub b: &'y str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{b},{a}")] pub struct TwoC<'x, 'y> { pub a: Cow<'x, str>, pub b: &'y str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{},{},{}")] pub struct Three<'z, 'y, 'x>(pub &'x str, pub &'y str, pub &'z str);
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b}")] pub struct Bound<'x: 'y, 'y> { pub a: &'x str, pub b: &'y str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b}")] pub struct Where<'x, 'y> where 'y: 'x { pub a: &'x str, pub b: Cow<'y, str> }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct Def<'x> { pub a: &'x str, #[sscanf(default = "d")] pub d: &'static str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct MapB<'x> { #[sscanf(map = |s: &'x str| s.trim())] pub a: &'x str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct FmB<'x> { #[sscanf(filter_map = |s: Cow<'x, str>| Some(Holder { s }))] pub a: Holder<'x> }
pub struct Holder<'x> { pub s: Cow<'x, str> }
pub struct Ref2<'x>(pub &'x str);
impl<'x> From<Cow<'x, str>> for Ref2<'x> { fn from(s: Cow<'x, str>) -> Self { Ref2("") } }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct FromB<'x> { #[sscanf(from = Cow<'x, str>)] pub a: Ref2<'x> }
#[derive(::sscanf::FromScanf)] pub enum En<'x> { #[sscanf("a{}")] A(&'x str), #[sscanf(format = "b{c}")] B { c: Cow<'x, str> }, #[sscanf(format = "c")] C }
#[derive(::sscanf::FromScanf)] pub enum En2<'x, 'y> { #[sscanf(format = "a{}")] A(&'x str), #[sscanf(format = "b{}")] B(&'y str) }
#[derive(::sscanf::FromScanf)] pub enum EnLast<'x> { #[sscanf(format = "a{}")] A(u8), #[sscanf(format = "b")] B, #[sscanf(format = "c{}")] C(&'x str) }
#[derive(::sscanf::FromScanf)] pub enum EnFirst<'x> { #[sscanf(format = "c{}")] C(&'x str), #[sscanf(format = "a{}")] A(u8), #[sscanf(format = "b")] B }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct Stat { pub a: &'static str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{}")] pub struct StatC(pub Cow<'static, str>);
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b}")] pub struct StatMix<'x> { pub a: &'x str, pub b: &'static str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b}")] pub struct StatA<'a> { pub b: Cow<'static, str>, pub a: &'a str }
#[derive(::sscanf::FromScanf)] pub enum StatE2<'z, 'a> { #[sscanf(format = "c{}")] C(&'z str), #[sscanf(format = "a{}")] A(&'static str), #[sscanf(format = "b{}")] B(Cow<'a, str>) }
#[derive(::sscanf::FromScanf)] pub enum StatE { #[sscanf(format = "c")] C, #[sscanf(format = "a{}")] A(&'static str) }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a},{b},{c}")] pub struct Owned { pub a: String, pub b: u8, pub c: char }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct OwnedMap { #[sscanf(map = |s: &str| s.len())] pub a: usize }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct OwnedFm { #[sscanf(filter_map = |s: Cow<str>| s.chars().next())] pub a: char }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct OwnedFrom { #[sscanf(from = &str)] pub a: String }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{n}")] pub struct OwnedDef { pub n: u8, #[sscanf(default = "d")] pub d: &'static str, #[sscanf(default)] pub e: Cow<'static, str> }
#[derive(::sscanf::FromScanf)] pub enum OwnedE { #[sscanf(format = "a{}")] A(u8), #[sscanf(format = "b{}")] B(String) }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct DefLt<'x> { pub a: u8, #[sscanf(default = "d")] pub d: &'x str }
#[derive(::sscanf::FromScanf)] #[sscanf(format = "{a}")] pub struct Nest { pub a: Owned }
pub struct HandB<'x> { pub whole: &'x str }
impl ::sscanf::RegexRepresentation for HandB<'_> { const REGEX: &'static str = "[a-z]+"; }
impl<'t> ::sscanf::FromScanf<'t> for HandB<'t> { type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 1;
  fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Ok(HandB { whole: src.next().unwrap().unwrap().as_str() }) } }
pub fn imp<'t, T: ::sscanf::FromScanf<'t>>() {}
pub fn imp_all<T: for<'t> ::sscanf::FromScanf<'t>>() {}
pub fn is_static<T: 'static>(_t: &T) {}
pub fn parse<'t, T: ::sscanf::FromScanf<'t> + ::sscanf::RegexRepresentation>(s: &'t str) -> ::std::option::Option<T> { T::from_str(s).ok() }
pub static ST: &str = "a";
pub const CO: &str = "a";
pub fn len<T>(_t: &T) {}
"""
PRE = "#![allow(dead_code, unused, unused_imports, unreachable_code, clippy::all)]\n" + "pub use ::std::borrow::Cow;\n" + DEFS.replace("\n", " ") + "\n"

# (name, call with the input as %s, type of the value with the lifetime as %s)
BORROWING = [
    ("str", 'sscanf::sscanf!(%s, "{str}")', "&'%s str"),
    ("refstr", 'sscanf::sscanf!(%s, "{&str}")', "&'%s str"),
    ("extstr", 'sscanf::sscanf!(%s, "{}", str)', "&'%s str"),
    ("extref", 'sscanf::scanf!(%s, "<{}>", &str)', "&'%s str"),
    ("idx", 'sscanf::sscanf!(%s, "{0},{0}", std::primitive::str)', "(&'%s str, &'%s str)"),
    ("custom", 'sscanf::sscanf!(%s, "{str:/[a-z]+/}")', "&'%s str"),
    ("unescaped", 'sscanf::sscanf_unescaped!(%s, ".*{str}")', "&'%s str"),
    ("raw", 'sscanf::scanf_unescaped!(%s, r"{}\\s", str)', "&'%s str"),
    ("cow", 'sscanf::sscanf!(%s, "{Cow<str>}")', "Cow<'%s, str>"),
    ("cowpath", 'sscanf::sscanf!(%s, "{}", std::borrow::Cow<str>)', "Cow<'%s, str>"),
    ("cowlt", "sscanf::sscanf!(%s, \"{}\", Cow<'_, str>)", "Cow<'%s, str>"),
    ("tuple", 'sscanf::sscanf!(%s, "{u8},{str},{Cow<str>},{String}")', "(u8, &'%s str, Cow<'%s, str>, String)"),
    ("one", 'sscanf::sscanf!(%s, "{One}")', "One<'%s>"),
    ("onec", 'sscanf::sscanf!(%s, "{}", OneC)', "OneC<'%s>"),
    ("onelt", "sscanf::sscanf!(%s, \"{}\", One<'_>)", "One<'%s>"),
    ("tr", 'sscanf::sscanf!(%s, "{Tr}")', "Tr<'%s>"),
    ("mixed", 'sscanf::sscanf!(%s, "{}", Mixed<u8>)', "Mixed<'%s, u8>"),
    ("two", 'sscanf::sscanf!(%s, "{Two}")', "Two<'%s, '%s>"),
    ("twoc", 'sscanf::sscanf!(%s, "{TwoC}")', "TwoC<'%s, '%s>"),
    ("three", 'sscanf::sscanf!(%s, "{Three}")', "Three<'%s, '%s, '%s>"),
    ("bound", 'sscanf::sscanf!(%s, "{Bound}")', "Bound<'%s, '%s>"),
    ("where", 'sscanf::sscanf!(%s, "{Where}")', "Where<'%s, '%s>"),
    ("def", 'sscanf::sscanf!(%s, "{Def}")', "Def<'%s>"),
    ("mapb", 'sscanf::sscanf!(%s, "{MapB}")', "MapB<'%s>"),
    ("fmb", 'sscanf::sscanf!(%s, "{FmB}")', "FmB<'%s>"),
    ("fromb", 'sscanf::sscanf!(%s, "{FromB}")', "FromB<'%s>"),
    ("en", 'sscanf::sscanf!(%s, "{En}")', "En<'%s>"),
    ("en2", 'sscanf::sscanf!(%s, "{En2}")', "En2<'%s, '%s>"),
    ("enlast", 'sscanf::sscanf!(%s, "{EnLast}")', "EnLast<'%s>"),
    ("enfirst", 'sscanf::sscanf!(%s, "{EnFirst}")', "EnFirst<'%s>"),
    ("hand", 'sscanf::sscanf!(%s, "{HandB}")', "HandB<'%s>"),
    ("from_str one", "<One as sscanf::FromScanf>::from_str(%s)", "One<'%s>"),
    ("from_str en", "<En as sscanf::FromScanf>::from_str(%s)", "En<'%s>"),
    ("from_str two", "<Two as sscanf::FromScanf>::from_str(%s)", "Two<'%s, '%s>"),
    ("from_str hand", "<HandB as sscanf::FromScanf>::from_str(%s)", "HandB<'%s>"),
]
# the input must be 'static
STATIC = [("stat", 'sscanf::sscanf!(%s, "{Stat}")', "Stat"), ("statc", 'sscanf::sscanf!(%s, "{}", StatC)', "StatC"), ("statmix", 'sscanf::sscanf!(%s, "{StatMix}")', "StatMix<'static>"),
          ("stata", 'sscanf::sscanf!(%s, "{StatA}")', "StatA<'static>"), ("state2", 'sscanf::sscanf!(%s, "{StatE2}")', "StatE2<'static, 'static>"),
          ("state", 'sscanf::sscanf!(%s, "{StatE}")', "StatE"), ("from_str stat", "<Stat as sscanf::FromScanf>::from_str(%s)", "Stat"), ("from_str state", "<StatE as sscanf::FromScanf>::from_str(%s)", "StatE")]
OWNED = [
    ("u8", 'sscanf::sscanf!(%s, "{u8}")', "u8"), ("string", 'sscanf::sscanf!(%s, "{String}")', "String"), ("path", 'sscanf::sscanf!(%s, "{}", std::path::PathBuf)', "std::path::PathBuf"),
    ("unit", 'sscanf::sscanf!(%s, "x")', "()"), ("radix", 'sscanf::sscanf!(%s, "{u8:x}")', "u8"), ("tup", 'sscanf::sscanf_unescaped!(%s, "{u8}{char}{f32}{bool}")', "(u8, char, f32, bool)"),
    ("owned", 'sscanf::sscanf!(%s, "{Owned}")', "Owned"), ("ownedmap", 'sscanf::sscanf!(%s, "{OwnedMap}")', "OwnedMap"), ("ownedfm", 'sscanf::sscanf!(%s, "{OwnedFm}")', "OwnedFm"),
    ("ownedfrom", 'sscanf::sscanf!(%s, "{OwnedFrom}")', "OwnedFrom"), ("owneddef", 'sscanf::sscanf!(%s, "{OwnedDef}")', "OwnedDef"), ("ownede", 'sscanf::sscanf!(%s, "{OwnedE}")', "OwnedE"),
    ("deflt", "sscanf::sscanf!(%s, \"{}\", DefLt<'static>)", "DefLt<'static>"), ("nest", 'sscanf::sscanf!(%s, "{Nest}")', "Nest"),
    ("from_str owned", "<Owned as sscanf::FromScanf>::from_str(%s)", "Owned"), ("from_str ownede", "<OwnedE as sscanf::FromScanf>::from_str(%s)", "OwnedE"), ("from_str u8", "<u8 as sscanf::FromScanf>::from_str(%s)", "u8"),
]
OWNED_TYPES = ["u8", "String", "char", "f64", "std::path::PathBuf", "std::num::NonZeroU8", "Owned", "OwnedMap", "OwnedFm", "OwnedFrom", "OwnedDef", "OwnedE", "Nest", "DefLt<'static>"]

# owners: (name, parameter type with lifetime a, expression)
OWNERS = [
    ("str", "&'a str", "s"), ("str reborrow", "&'a str", "&*s"), ("str ref", "&'a str", "&s"), ("str refref", "&'a str", "&&&s"), ("slice", "&'a str", "&s[1..]"), ("trim", "&'a str", "s.trim()"), ("split", "&'a str", "s.split(',').next().unwrap()"),
    ("paren", "&'a str", "(s)"), ("block", "&'a str", "{ s }"), ("if", "&'a str", "if s.is_empty() { s } else { &s[1..] }"), ("match", "&'a str", "match s { \"\" => \"x\", t => t }"), ("deref", "&'a str", "*s"), ("local block", "&'a str", "{ let t = s; let u = &t; *u }"),
    ("refref", "&'a &'a str", "s"), ("refref star", "&'a &'a str", "*s"), ("refrefref", "&'a &'a &'a str", "s"),
    ("string", "&'a String", "s"), ("string star", "&'a String", "*s"), ("string ref", "&'a String", "&s"), ("string as_str", "&'a String", "s.as_str()"), ("string slice", "&'a String", "s[..]"), ("string refslice", "&'a String", "&s[1..]"),
    ("box", "&'a Box<str>", "s"), ("boxstring", "&'a Box<String>", "s"), ("rc", "&'a std::rc::Rc<str>", "s"), ("arc", "&'a std::sync::Arc<String>", "s"), ("cow", "&'a Cow<'a, str>", "s"), ("cow deref", "&'a Cow<'a, str>", "**s"),
    ("field", "&'a (u8, String)", "s.1"), ("field ref", "&'a (u8, String)", "&s.1"), ("nested", "&'a (u8, (Box<str>, u8))", "(s.1).0"), ("array", "&'a [String]", "s[0]"), ("vec", "&'a Vec<&'a str>", "s[0]"), ("option", "&'a Option<String>", "s.as_ref().unwrap()"),
    ("option deref", "&'a Option<String>", "s.as_deref().unwrap()"), ("mut str", "&'a mut str", "*s"), ("mut String", "&'a mut String", "*s"), ("mut String ref", "&'a mut String", "&*s"), ("call", "&'a str", "(|x: &'a str| x)(s)"),
    ("string in struct", "&'a Own", "s.name"), ("boxed struct", "&'a Box<Own>", "s.name"), ("method", "&'a Own", "s.name()"),
]
OWNER_PRE = "pub struct Own { pub name: String } impl Own { pub fn name(&self) -> &str { &self.name } }"


def ty(t, lt):
    return t.replace("%s", lt)


def call(c, e):
    if c.startswith("<"):
        return c.replace("%s", e)
    return "::" + c.replace("%s", e, 1)


# templates of uses that must be accepted. P(x): the call with input x; R(l): the type with lifetime l
PASS = [
    ("returned", "pub fn f<'a>(s: &'a str) -> R(a) { P(s).ok().unwrap() }"),
    ("returned through a local reference", "pub fn f<'a>(s: &'a str) -> R(a) { let x; { let r = s; let t: &str = r; x = P(t); } x.ok().unwrap() }"),
    ("returned through a reference to a reference", "pub fn f<'a>(s: &'a str) -> R(a) { let x; { let r = &s; let t: &&'a str = r; x = P(*t).ok().unwrap(); } x }"),
    ("question mark", "pub fn f<'a>(s: &'a str) -> Option<R(a)> { let x = P(s).ok()?; Some(x) }"),
    ("match", "pub fn f<'a>(s: &'a str) -> Option<R(a)> { match P(s) { Ok(x) => Some(x), Err(_) => None } }"),
    ("if let", "pub fn f<'a>(s: &'a str) -> Option<R(a)> { if let Ok(x) = P(s) { return Some(x) } None }"),
    ("let else", "pub fn f<'a>(s: &'a str) -> Option<R(a)> { let Ok(x) = P(s) else { return None }; Some(x) }"),
    ("loop", "pub fn f<'a>(s: &'a str) -> Vec<R(a)> { let mut v = Vec::new(); for l in s.lines() { if let Ok(x) = P(l) { v.push(x) } } v }"),
    ("closure", "pub fn f<'a>(s: &'a str) -> Vec<R(a)> { s.lines().filter_map(|l| P(l).ok()).collect() }"),
    ("closure with owner", "pub fn f<'a>(s: &'a [String]) -> Vec<R(a)> { s.iter().map(|l| P(l).ok().unwrap()).collect() }"),
    ("stored", "pub struct Q<'q> { pub v: Option<R(q)> } impl<'q> Q<'q> { pub fn set(&mut self, s: &'q str) { self.v = P(s).ok(); } }"),
    ("method of a borrow", "pub struct Q<'q> { pub s: &'q str } impl<'q> Q<'q> { pub fn get(&self) -> R(q) { P(self.s).ok().unwrap() } }"),
    ("method of an owner", "pub struct Q { pub s: String } impl Q { pub fn get(&self) -> R(_) { P(&self.s).ok().unwrap() } }"),
    ("local owner", "pub fn f() { let s = String::new(); let x = P(&s); len(&x); drop(x); drop(s); }"),
    ("local owner, several results", "pub fn f() { let s = String::new(); let x = P(&s); let y = P(&s); let t = &s; len(&x); len(&y); len(&t); }"),
    ("owner changed after the last use", "pub fn f() { let mut s = String::new(); let x = P(&s).ok(); len(&x); s.push('x'); let y = P(&s).ok(); len(&y); s.clear(); }"),
    ("owner unchanged alias", "pub fn f<'a>(s: &'a String) -> (R(a), &'a str) { let x = P(s).ok().unwrap(); (x, &s[..]) }"),
    ("literal", "pub fn f() -> R(static) { P(\"a\").ok().unwrap() }"),
    ("static", "pub fn f() -> R(static) { P(ST).ok().unwrap() }"),
    ("constant", "pub fn f() -> R(static) { P(CO).ok().unwrap() }"),
    ("leaked", "pub fn f(s: String) -> R(static) { let l: &'static str = s.leak(); P(l).ok().unwrap() }"),
    ("scoped thread", "pub fn f(s: String) { std::thread::scope(|t| { let h = t.spawn(|| { let x = P(&s); len(&x); }); let y = P(&s); len(&y); h.join().unwrap(); }); }"),
    ("shorter", "pub fn f<'a: 'b, 'b>(s: &'a str) -> R(b) { P(s).ok().unwrap() }"),
    ("chosen", "pub fn f<'a>(s: &'a str, t: &'a str) -> R(a) { let x = P(s); let y = P(t); if s.is_empty() { x.ok().unwrap() } else { y.ok().unwrap() } }"),
    ("function argument", "pub fn g<'a>(x: R(a), s: &'a str) -> (R(a), &'a str) { (x, s) } pub fn f<'a>(s: &'a str) -> (R(a), &'a str) { g(P(s).ok().unwrap(), s) }"),
    ("generic over the lifetime", "pub trait Tn { type O<'o>; fn get<'o>(&self, s: &'o str) -> Self::O<'o>; } pub struct Q; impl Tn for Q { type O<'o> = R(o); fn get<'o>(&self, s: &'o str) -> R(o) { P(s).ok().unwrap() } }"),
    ("function pointer", "pub fn g<'a>(s: &'a str) -> R(a) { P(s).ok().unwrap() } pub fn f() -> for<'x> fn(&'x str) -> R(x) { g }"),
    ("async", "pub async fn f<'a>(s: &'a str) -> R(a) { P(s).ok().unwrap() }"),
]
# (name, template): must be rejected by the borrow checker
FAIL = [
    ("local owner returned", "pub fn f<'a>(_s: &'a str) -> R(a) { let s = String::new(); P(&s).ok().unwrap() }"),
    ("local owner returned for 'static", "pub fn f() -> R(static) { let s = String::new(); P(&s).ok().unwrap() }"),
    ("longer than the input", "pub fn f<'a>(s: &'a str) -> R(static) { P(s).ok().unwrap() }"),
    ("another lifetime", "pub fn f<'a, 'b>(s: &'a str, t: &'b str) -> R(b) { P(s).ok().unwrap() }"),
    ("longer lifetime", "pub fn f<'a: 'b, 'b>(s: &'b str) -> R(a) { P(s).ok().unwrap() }"),
    ("owner dropped", "pub fn f() { let s = String::new(); let x = P(&s); drop(s); len(&x); }"),
    ("owner moved", "pub fn f() -> String { let s = String::new(); let x = P(&s).ok(); let t = s; len(&x); t }"),
    ("owner changed", "pub fn f() { let mut s = String::new(); let x = P(&s).ok(); s.push('x'); len(&x); }"),
    ("owner assigned", "pub fn f() { let mut s = String::new(); let x = P(&s).ok().unwrap(); s = String::new(); len(&x); }"),
    ("inner scope", "pub fn f() { let x; { let s = String::new(); x = P(&s).ok(); } len(&x); }"),
    ("loop variable", "pub fn f(i: Vec<String>) { let mut v = Vec::new(); for s in i { v.push(P(&s).ok()); } len(&v); }"),
    ("stored too long", "pub struct Q<'q> { pub v: Option<R(q)> } impl<'q> Q<'q> { pub fn set(&mut self, s: &str) { self.v = P(s).ok(); } }"),
    ("owner given to a thread", "pub fn f() { let s = String::new(); let x = P(&s).ok(); let h = std::thread::spawn(move || s.len()); len(&x); len(&h); }"),
    ("method of an owner", "pub struct Q { pub s: String } impl Q { pub fn get<'x>(&self) -> R(x) { P(&self.s).ok().unwrap() } }"),
]
# owned: results that live on without the input
OWN_PASS = [
    ("inner scope", "pub fn f() -> R { let x; { let s = String::new(); x = P(&s).ok(); } x.unwrap() }"),
    ("owner dropped", "pub fn f() -> R { let s = String::new(); let x = P(&s).ok(); drop(s); x.unwrap() }"),
    ("owner changed", "pub fn f() -> R { let mut s = String::new(); let x = P(&s).ok(); s.push('x'); x.unwrap() }"),
    ("owner moved", "pub fn f() -> (R, String) { let s = String::new(); let x = P(&s).ok(); (x.unwrap(), s) }"),
    ("whole result", "pub fn f() { let x; { let s = String::new(); x = P(&s); } len(&x); }"),
    ("static bound", "pub fn f<'a>(s: &'a str) { is_static(&P(s).ok()); }"),
    ("collected", "pub fn f(i: Vec<String>) -> Vec<R> { let mut v = Vec::new(); for s in i { v.push(P(&s).ok().unwrap()); } v }"),
    ("thread", "pub fn f(s: String) -> R { let x = P(&s).ok().unwrap(); let h = std::thread::spawn(move || s.len()); h.join().unwrap(); x }"),
]
STAT_PASS = [("literal", "pub fn f() -> R { P(\"a\").ok().unwrap() }"), ("static", "pub fn f() -> R { P(ST).ok().unwrap() }"), ("static argument", "pub fn f(s: &'static str) -> R { P(s).ok().unwrap() }"),
             ("leaked", "pub fn f(s: String) -> R { let s: &'static str = s.leak(); P(s).ok().unwrap() }")]
STAT_FAIL = [("any lifetime", "pub fn f<'a>(s: &'a str) -> bool { P(s).is_ok() }"), ("local owner", "pub fn f() -> bool { let s = String::new(); P(&s).is_ok() }"), ("elided", "pub fn f(s: &str) -> bool { P(s).is_ok() }"),
             ("owner argument", "pub fn f(s: &String) -> bool { P(s).is_ok() }")]
ERR_PASS = [
    ("error outlives the input", "pub fn f() -> sscanf::Error { let x; { let s = String::new(); x = P(&s).map(|_| ()).unwrap_err(); } x }"),
    ("error is 'static", "pub fn f<'a>(s: &'a str) { is_static(&P(s).err()); }"),
    ("error boxed", "pub fn f<'a>(s: &'a str) -> Result<R(a), Box<dyn std::error::Error>> { Ok(P(s)?) }"),
    ("error boxed 'static", "pub fn f(s: String) -> Result<(), Box<dyn std::error::Error + 'static>> { P(&s)?; Ok(()) }"),
]
REGION = {"E0505", "E0506", "E0502", "E0499", "E0515", "E0597", "E0716", "E0373", "E0621", "E0478", "E0491", "E0310", "E0521", "E0308", "E0195", "E0700"}


def by_region(d):
    m = d.message + (d.rendered or "")
    return (d.code in REGION and d.code != "E0308") or "lifetime" in m or "general enough" in m or "`for<'t> " in m or "does not live long enough" in m


def impl_witnesses():
    out = []

    def add(ok, name, body, pre=""):
        out.append((ok, name, "%s %s" % (pre, body)))
    for t in OWNED_TYPES:
        add(True, "impl for every lifetime: " + t, "pub fn f() { imp_all::<%s>() }" % t)
        add(True, "impl, generic use: " + t, "pub fn f(s: String) -> Option<%s> { parse(&s) }" % t)
    names = [(n, r) for n, _, r in BORROWING if r.split("<")[0].strip() in DEFS and "<" in r and not n.startswith("from_str") and not r.startswith(("(", "Cow"))]
    seen = set()
    for n, r in names:
        if r in seen:
            continue
        seen.add(r)
        if n == "hand":
            continue
        k = r.count("%s")
        add(True, "impl, same lifetime: " + r, "pub fn f<'a>() { imp::<'a, %s>() }" % ty(r, "a"))
        add(True, "impl, longer input: " + r, "pub fn f<'i: 'a, 'a>() { imp::<'i, %s>() }" % ty(r, "a"))
        add(True, "impl, static input: " + r, "pub fn f<'a>() { imp::<'static, %s>() }" % ty(r, "a"))
        add(True, "impl, static: " + r, "pub fn f() { imp::<'static, %s>() }" % ty(r, "static"))
        add(True, "impl, regex: " + r, "pub fn f<'a>() -> &'static str { <%s as ::sscanf::RegexRepresentation>::REGEX }" % ty(r, "a"))
        add(True, "impl, generic use: " + r, "pub fn f<'a>(s: &'a str) -> Option<%s> { parse(s) }" % ty(r, "a"))
        add(False, "impl, unrelated lifetime: " + r, "pub fn f<'i, 'a>() { imp::<'i, %s>() }" % ty(r, "a"))
        add(False, "impl, shorter input: " + r, "pub fn f<'a: 'i, 'i>() { imp::<'i, %s>() }" % ty(r, "a"))
        add(False, "impl, static value: " + r, "pub fn f<'i>() { imp::<'i, %s>() }" % ty(r, "static"))
        add(False, "impl for every lifetime: " + r, "pub fn f<'a>() { imp_all::<%s>() }" % ty(r, "a"))
        add(False, "impl, generic use: " + r, "pub fn f<'a>(s: &str) -> Option<%s> { parse(s) }" % ty(r, "a"))
        if k == 2:
            order = {"Bound": ("'x: 'y, 'y", None), "Where": ("'x, 'y: 'x", None)}.get(r.split("<")[0], ("'x, 'y", None))[0]
            two = r.replace("%s", "x", 1).replace("%s", "y", 1)
            add(True, "impl, two lifetimes covered: " + r, "pub fn f<'i: 'x + 'y, %s>() { imp::<'i, %s>() }" % (order, two))
            add(False, "impl, only the first covered: " + r, "pub fn f<'i: 'x, %s>() { imp::<'i, %s>() }" % (order, two)) if not r.startswith("Bound") else None
            add(False, "impl, only the second covered: " + r, "pub fn f<'i: 'y, %s>() { imp::<'i, %s>() }" % (order, two)) if not r.startswith("Where") else None
            add(False, "impl, neither covered: " + r, "pub fn f<'i, %s>() { imp::<'i, %s>() }" % (order, two))
            add(False, "impl, input no longer than the first: " + r, "pub fn f<'x: 'i, 'y: 'x, 'i>() { imp::<'i, %s>() }" % two) if not r.startswith("Bound") else None
    for i in range(3):
        lts = ["x", "y", "z"]
        two = "Three<'x, 'y, 'z>"
        b = [l for j, l in enumerate(lts) if j != i]
        add(False, "impl, one of three not covered (%d)" % i, "pub fn f<'i: '%s + '%s, 'x, 'y, 'z>() { imp::<'i, %s>() }" % (b[0], b[1], two))
    add(True, "impl, three covered", "pub fn f<'i: 'x + 'y + 'z, 'x, 'y, 'z>() { imp::<'i, Three<'x, 'y, 'z>>() }")
    lts = ["q%d" % i for i in range(12)]
    dc = ", ".join("'" + l for l in lts)
    for kind, d in (("struct", "#[derive(::sscanf::FromScanf)] #[sscanf(format = \"%s\")] pub struct M<%s>(%s);" % ("{}," * 12, dc, ", ".join("pub " + ("&'%s str" if i % 3 else "Cow<'%s, str>") % l for i, l in enumerate(lts)))),
                    ("enum", "#[derive(::sscanf::FromScanf)] pub enum M<%s> { %s }" % (dc, ", ".join("#[sscanf(\"%d{}\")] V%d(%s)" % (i, i, ("&'%s str" if i % 3 else "Cow<'%s, str>") % l) for i, l in enumerate(lts))))):
        add(True, "impl, twelve lifetimes covered, " + kind, "%s pub fn f<'i: %s, %s>() { imp::<'i, M<%s>>() }" % (d, " + ".join("'" + l for l in lts), dc, dc))
        for i in range(12):
            add(False, "impl, one of twelve lifetimes not covered (%d), %s" % (i, kind), "%s pub fn f<'i: %s, %s>() { imp::<'i, M<%s>>() }" % (d, " + ".join("'" + l for j, l in enumerate(lts) if j != i), dc, dc))
    for t in ("Stat", "StatC", "StatE", "StatMix<'static>", "StatA<'static>", "StatE2<'static, 'static>"):
        add(True, "impl, static only: " + t, "pub fn f() { imp::<'static, %s>() }" % t)
        add(False, "impl, static only: " + t, "pub fn f<'i>() { imp::<'i, %s>() }" % t)
        add(False, "impl for every lifetime: " + t, "pub fn f() { imp_all::<%s>() }" % t)
    add(True, "impl, static field and another", "pub fn f<'x>() { imp::<'static, StatMix<'x>>() }")
    add(False, "impl, static field and another", "pub fn f<'x>() { imp::<'x, StatMix<'x>>() }")
    add(True, "impl, default field with lifetime", "pub fn f<'x>() { imp::<'static, DefLt<'x>>() }")
    add(True, "impl, default field with the input's lifetime", "pub fn f<'x>() { imp::<'x, DefLt<'x>>() }")
    return out


def region_witnesses(thorough=False):
    ws = []
    n = 0

    def add(ok, name, src, text):
        nonlocal n
        n += 1
        uid = ("rp%d" if ok else "rf%d") % n
        ws.append(E.W(uid, "pub mod m_%s { use super::*; %s }\n" % (uid, src), "%s: %s" % (name, text), expect="compile" if ok else "error", anchor=A18, error_must=None if ok else by_region))

    def inst(t, c, r):
        import re
        t = re.sub(r"P\(((?:[^()]|\([^()]*\))*)\)", lambda m: call(c, m.group(1)), t)
        return re.sub(r"R\((\w+)\)", lambda m: ty(r, m.group(1)), t)

    for pi, (pn, c, r) in enumerate(BORROWING):
        for ti, (tn, t) in enumerate(PASS):
            if thorough or pi in (0, 8, 12, 17, 26) or (pi + ti) % 3 == 0:
                add(True, "%s, %s" % (pn, tn), inst(t, c, r), call(c, "s"))
        for ti, (tn, t) in enumerate(FAIL):
            if thorough or pi in (0, 8, 12, 17, 26) or (pi + ti) % 2 == 0:
                add(False, "%s, %s" % (pn, tn), inst(t, c, r), call(c, "s"))
        for oi, (on, pt, e) in enumerate(OWNERS):
            if c.startswith("<"):
                continue
            if thorough or pi in (0, 8) or (pi * 5 + oi) % 11 == 0:
                add(True, "%s of %s" % (pn, on), "%s pub fn f<'a>(s: %s) -> %s { %s.ok().unwrap() }" % (OWNER_PRE, pt, ty(r, "a"), call(c, e)), call(c, e))
                if "match" not in e:
                    add(False, "%s of %s for longer" % (pn, on), "%s pub fn f<'a, 'b>(s: %s) -> %s { %s.ok().unwrap() }" % (OWNER_PRE, pt, ty(r, "b"), call(c, e)), call(c, e))
        for ti, (tn, t) in enumerate(ERR_PASS):
            if thorough or (pi + ti) % 3 == 0:
                add(True, "%s, %s" % (pn, tn), inst(t, c, r), call(c, "s"))
    for pn, c, r in STATIC:
        for tn, t in STAT_PASS:
            add(True, "%s, %s" % (pn, tn), inst(t, c, r).replace("-> R ", "-> %s " % r), call(c, "s"))
        for tn, t in STAT_FAIL:
            add(False, "%s, %s" % (pn, tn), inst(t, c, r), call(c, "s"))
    for pn, c, r in OWNED:
        for tn, t in OWN_PASS:
            s = inst(t, c, r).replace("-> R ", "-> %s " % r).replace("(R, String)", "(%s, String)" % r).replace("Vec<R>", "Vec<%s>" % r)
            add(True, "%s, %s" % (pn, tn), s, call(c, "s"))
        for tn, t in ERR_PASS[:1] + ERR_PASS[1:2]:
            if pn != "from_str u8":
                add(True, "%s, %s" % (pn, tn), inst(t, c, r), call(c, "s"))
    for ok, name, src in impl_witnesses():
        add(ok, name, src, name)
    return ws

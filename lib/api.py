"""Programs that use each documented name, signature, field, variant and implementation of the crate (C27)."""
import engine as E
import spec as S

A27 = "src/lib.rs, macros.rs, from_scanf.rs, regex_representation.rs, errors.rs, types.rs"
NZ = ["NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128", "NonZeroUsize", "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128", "NonZeroIsize"]
NUM = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"]
REPR = NUM + ["::std::num::" + n for n in NZ] + ["bool", "char", "String", "str", "::std::path::PathBuf", "::sscanf::FullF32", "::sscanf::FullF64", "::sscanf::HexNumber"]
PRE = "#![allow(dead_code, unused, deprecated, clippy::all)]\n"

OWN = """
#[derive(Debug)] pub struct OwnErr; impl ::std::fmt::Display for OwnErr { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("own") } } impl ::std::error::Error for OwnErr {}
pub struct Opaque(pub ::std::rc::Rc<u8>); impl ::std::str::FromStr for Opaque { type Err = OwnErr; fn from_str(_s: &str) -> Result<Self, OwnErr> { Err(OwnErr) } }
pub struct Local(pub ::std::rc::Rc<str>); impl ::std::fmt::Debug for Local { fn fmt(&self, _f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } } impl ::std::fmt::Display for Local { fn fmt(&self, _f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } } impl ::std::error::Error for Local {}
pub fn is_error<T: ::std::error::Error + 'static>() {} pub fn is_send<T: Send>() {} pub fn is_sync<T: Sync>() {} pub fn is_debug<T: ::std::fmt::Debug>() {} pub fn is_display<T: ::std::fmt::Display>() {} pub fn is_copy<T: Copy>() {} pub fn is_clone<T: Clone>() {} pub fn same<T>(_a: T, _b: T) {}
"""


def flat(s):
    return " ".join(s.split())


def programs():
    out = []
    p = lambda n, s: out.append((n, flat(s)))
    # ---------------------------------------------------------------- names
    for m, call, ty in (("sscanf", 'M!("5", "{u8}")', "Result<u8, ::sscanf::Error>"), ("scanf", 'M!("5", "{u8}")', "Result<u8, ::sscanf::Error>"), ("sscanf_unescaped", 'M!("5", ".{}", u8)', "Result<u8, ::sscanf::Error>"),
                        ("scanf_unescaped", 'M!("5", ".{}", u8)', "Result<u8, ::sscanf::Error>"), ("sscanf_get_regex", 'M!("{u8}")', "&'static ::sscanf::regex::Regex"), ("scanf_get_regex", 'M!("{}", u8)', "&'static ::sscanf::regex::Regex")):
        p("%s! by path" % m, "pub fn f() -> %s { %s }" % (ty, call.replace("M!", "::sscanf::%s!" % m)))
        p("%s! imported" % m, "use ::sscanf::%s; pub fn f() -> %s { %s }" % (m, ty, call.replace("M!", m + "!")))
        p("%s! imported with everything" % m, "use ::sscanf::*; pub fn f() -> %s { %s }" % (ty.replace("Error", "errors::Error"), call.replace("M!", m + "!")))
        p("%s! renamed" % m, "use ::sscanf::%s as scan; pub fn f() -> %s { %s }" % (m, ty, call.replace("M!", "scan!")))
        p("%s! re-exported" % m, "pub mod a { pub use ::sscanf::%s; } pub fn f() -> %s { %s }" % (m, ty, call.replace("M!", "a::%s!" % m)))
        for o, c in ("[", "]"), ("{", "}"):
            cc = call.replace("(", o, 1)
            p("%s! with %s" % (m, o + c), "pub fn f() -> %s { %s }" % (ty, cc[:-1].replace("M!", "::sscanf::%s! " % m) + c))
        p("%s! with a trailing comma" % m, "pub fn f() -> %s { %s,) }" % (ty, call[:-1].replace("M!", "::sscanf::%s!" % m)))
    for d in ("FromScanf", "FromSscanf"):
        p("derive %s by path" % d, '#[derive(::sscanf::%s)] #[sscanf("{}")] pub struct A(u8); pub fn f(s: &str) -> Result<A, ::sscanf::Error> { <A as ::sscanf::%s>::from_str(s) }' % (d, d))
        p("derive and trait %s, one import" % d, 'use ::sscanf::%s; #[derive(%s)] #[sscanf("{}")] pub struct A(u8); pub fn f(s: &str) -> Result<A, ::sscanf::Error> { A::from_str(s) }' % (d, d))
        p("derive %s, everything imported" % d, 'use ::sscanf::*; #[derive(Debug, %s)] #[sscanf("{}")] pub struct A(u8); pub fn f(s: &str) -> Result<A, ::sscanf::Error> { <A as %s>::from_str(s) }' % (d, d))
        p("derive %s, renamed" % d, 'use ::sscanf::%s as Scan; #[derive(Scan)] #[sscanf("{}")] pub struct A(u8); pub fn f(s: &str) -> Result<A, ::sscanf::Error> { <A as Scan>::from_str(s) }' % d)
        p("implementation of %s" % d, "pub struct A; impl ::sscanf::%s<'_> for A { type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches) -> Result<Self, Self::Err> { src.next().unwrap().unwrap(); Ok(A) } }" % d)
    p("modules and re-exports", "use ::sscanf::{changelog, const_format, errors, lazy_static, regex}; pub fn f(r: &regex::Regex, e: errors::Error) -> Option<regex::Captures<'static>> { drop(e); r.captures(\"\") } pub const C: &str = const_format::concatcp!(\"a\", 1u8); lazy_static::lazy_static! { static ref L: u8 = 1; }")
    for t in ("Error", "FromScanfFailedError"):
        p("%s at the root and in errors is one type" % t, "pub fn f(a: ::sscanf::%s) -> ::sscanf::errors::%s { a }" % (t, t))
    p("FromStrFailedError at the root and in errors is one type", "pub fn f(a: ::sscanf::FromStrFailedError<u8>) -> ::sscanf::errors::FromStrFailedError<u8> { a }")
    # ---------------------------------------------------------------- the traits
    p("minimal manual implementation", "pub struct A; impl<'t> ::sscanf::FromScanf<'t> for A { type Err = super::own::OwnErr; const NUM_CAPTURES: usize = 2; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { let _ = src.nth(1); Ok(A) } } impl ::sscanf::RegexRepresentation for A { const REGEX: &'static str = \"(a)\"; } pub fn f(s: &str) -> Result<A, ::sscanf::Error> { ::sscanf::FromScanf::from_str(s) } pub fn g(s: &str) -> Result<(A, u8), ::sscanf::Error> { ::sscanf::sscanf!(s, \"{A}{u8}\") }")
    p("manual implementation of a borrowing type", "pub struct A<'t>(pub &'t str); impl<'t> ::sscanf::FromScanf<'t> for A<'t> { type Err = super::own::OwnErr; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Ok(A(src.next().unwrap().unwrap().as_str())) } } impl<'t> ::sscanf::RegexRepresentation for A<'t> { const REGEX: &'static str = \"a+\"; } pub fn f<'a>(s: &'a str) -> A<'a> { let t: A<'a> = ::sscanf::sscanf!(s, \"<{}>\", A).unwrap(); t } pub fn g<'a>(s: &'a str) -> A<'a> { <A<'a> as ::sscanf::FromScanf<'a>>::from_str(s).unwrap() }")
    p("manual implementation with its own from_str", "pub struct A; impl<'t> ::sscanf::FromScanf<'t> for A { type Err = super::own::OwnErr; const NUM_CAPTURES: usize = 1; fn from_matches(_src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Ok(A) } fn from_str(_s: &'t str) -> Result<Self, ::sscanf::Error> { Err(::sscanf::Error::MatchFailed) } } impl ::sscanf::RegexRepresentation for A { const REGEX: &'static str = \"a\"; }")
    p("manual implementation without a regex", "pub struct A; impl<'t> ::sscanf::FromScanf<'t> for A { type Err = super::own::OwnErr; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(A) } } pub fn f(s: &str) -> Result<A, ::sscanf::Error> { ::sscanf::sscanf!(s, \"<{:/[a-z]/}>\", A) }")
    p("manual implementation, error that is not Send", "pub struct A; impl<'t> ::sscanf::FromScanf<'t> for A { type Err = super::own::Local; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(A) } } impl ::sscanf::RegexRepresentation for A { const REGEX: &'static str = \"a\"; } pub fn f(s: &str) -> Result<A, ::sscanf::Error> { ::sscanf::sscanf!(s, \"<{A}>\") } #[derive(::sscanf::FromScanf)] #[sscanf(\"{a}\")] pub struct B { a: A }")
    p("manual implementation, boxed error as its error", "pub struct A; impl<'t> ::sscanf::FromScanf<'t> for A { type Err = ::sscanf::errors::FromScanfFailedError; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Err(::sscanf::errors::FromScanfFailedError { type_name: \"A\", error: Box::new(::sscanf::Error::MatchFailed) }) } }")
    p("implementation for a generic type", "pub struct A<T>(pub Vec<T>); impl<'t, T: 'static> ::sscanf::FromScanf<'t> for A<T> { type Err = super::own::OwnErr; const NUM_CAPTURES: usize = 1; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(A(Vec::new())) } } impl<T> ::sscanf::RegexRepresentation for A<T> { const REGEX: &'static str = \"a\"; } pub fn f(s: &str) -> Result<A<u8>, ::sscanf::Error> { ::sscanf::sscanf!(s, \"{}\", A<u8>) }")
    for t in ("u8", "f64", "bool", "char", "String", "::std::path::PathBuf", "::std::net::IpAddr", "super::own::Opaque"):
        p("blanket implementation for %s" % t, """pub type T = %s; pub const ONE: [(); 1] = [(); <T as ::sscanf::FromScanf<'static>>::NUM_CAPTURES];
            pub fn e(a: <T as ::sscanf::FromScanf<'static>>::Err) -> ::sscanf::errors::FromStrFailedError<T> { a }
            pub fn f<'t, 'm>(x: &mut ::sscanf::regex::SubCaptureMatches<'m, 't>) -> Result<T, ::sscanf::errors::FromStrFailedError<T>> { <T as ::sscanf::FromScanf<'t>>::from_matches(x) }
            pub fn g<'t>() -> for<'a, 'm> fn(&'a mut ::sscanf::regex::SubCaptureMatches<'m, 't>) -> Result<T, ::sscanf::errors::FromStrFailedError<T>> { <T as ::sscanf::FromScanf<'t>>::from_matches }
            pub fn h(s: &str) -> Result<T, ::sscanf::Error> { ::sscanf::sscanf!(s, "<{:/.+/}>", T) }""" % t)
    for t in REPR:
        p("RegexRepresentation for %s" % t, "pub const R: &'static str = <%s as ::sscanf::RegexRepresentation>::REGEX; pub const L: usize = R.len(); pub static X: &str = <%s as ::sscanf::RegexRepresentation>::REGEX; pub fn rr<T: ::sscanf::RegexRepresentation + ?Sized>() -> &'static str { T::REGEX } pub fn f() -> &'static str { rr::<%s>() }" % (t, t, t))
        if t != "str":
            p("FromScanf for %s" % t, "pub type T = %s; pub fn any<T: for<'t> ::sscanf::FromScanf<'t> + ::sscanf::RegexRepresentation + 'static>(s: &str) -> Result<T, ::sscanf::Error> { T::from_str(s) } pub fn f(s: &str) -> Result<T, ::sscanf::Error> { any::<T>(s) } pub fn g(s: String) -> Result<T, ::sscanf::Error> { <T as ::sscanf::FromScanf<'_>>::from_str(&s) } pub fn h<'a>() -> fn(&'a str) -> Result<T, ::sscanf::Error> { <T as ::sscanf::FromScanf<'a>>::from_str }" % t)
    p("regex of an own type from others", "pub struct A; impl ::sscanf::RegexRepresentation for A { const REGEX: &'static str = ::sscanf::const_format::concatcp!(<u8 as ::sscanf::RegexRepresentation>::REGEX, \",\", <String as ::sscanf::RegexRepresentation>::REGEX); } pub struct U { pub x: [u8] } impl ::sscanf::RegexRepresentation for U { const REGEX: &'static str = \"\"; } impl<'a> ::sscanf::RegexRepresentation for &'a A { const REGEX: &'static str = A::REGEX; }")
    p("generic code over the trait", "pub trait Named { const N: &'static str; } pub struct P<T>(pub Option<T>); impl<'t, T: ::sscanf::FromScanf<'t> + ::sscanf::RegexRepresentation> P<T> { pub fn new(s: &'t str) -> Result<P<T>, ::sscanf::Error> { T::from_str(s).map(|x| P(Some(x))) } pub const K: usize = T::NUM_CAPTURES; } pub fn f(s: &str) -> bool { P::<u8>::new(s).is_ok() && P::<String>::K == 1 }")
    p("generic code over the error type", "pub fn f<'t, T>(s: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<T, Box<dyn ::std::error::Error>> where T: ::sscanf::FromScanf<'t> { Ok(T::from_matches(s)?) } pub fn g<'t, T: ::sscanf::FromScanf<'t>>(s: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<T, ::sscanf::Error> { T::from_matches(s).map_err(|e| ::sscanf::Error::ParsingFailed(Box::new(e))) }")
    # ---------------------------------------------------------------- derived implementations
    der = '#[derive(::sscanf::FromScanf)] #[sscanf("{a},{b}")] pub struct A { pub a: u8, pub b: String } #[derive(::sscanf::FromScanf)] pub enum B { #[sscanf("x{}")] X(u8), #[sscanf("y")] Y } #[derive(::sscanf::FromScanf)] #[sscanf(transparent)] pub struct C(pub u8); #[derive(::sscanf::FromScanf)] #[sscanf("d")] pub struct D; '
    for t, k in (("A", 3), ("B", 4), ("C", 2), ("D", 1)):
        p("derived %s" % t, der + """pub const N: [(); %d] = [(); <T as ::sscanf::FromScanf<'static>>::NUM_CAPTURES]; pub const R: &'static str = <T as ::sscanf::RegexRepresentation>::REGEX; pub type T = %s; pub fn e(a: <T as ::sscanf::FromScanf<'static>>::Err) -> ::sscanf::errors::FromScanfFailedError { a }
            pub fn g<'t>() -> for<'a, 'm> fn(&'a mut ::sscanf::regex::SubCaptureMatches<'m, 't>) -> Result<T, ::sscanf::errors::FromScanfFailedError> { <T as ::sscanf::FromScanf<'t>>::from_matches } pub fn h<'a>() -> fn(&'a str) -> Result<T, ::sscanf::Error> { <T as ::sscanf::FromScanf<'a>>::from_str }
            pub fn any<T: for<'t> ::sscanf::FromScanf<'t> + ::sscanf::RegexRepresentation>() {} pub fn i() { any::<T>() }""" % (k, t))
    p("a borrowing derived type", '#[derive(::sscanf::FromScanf)] #[sscanf("{a},{b}")] pub struct A<\'x> { pub a: &\'x str, pub b: ::std::borrow::Cow<\'x, str> } pub fn h<\'a>() -> fn(&\'a str) -> Result<A<\'a>, ::sscanf::Error> { <A<\'a> as ::sscanf::FromScanf<\'a>>::from_str } pub fn e<\'a>(a: <A<\'a> as ::sscanf::FromScanf<\'a>>::Err) -> ::sscanf::errors::FromScanfFailedError { a } pub const R: &str = <A<\'static> as ::sscanf::RegexRepresentation>::REGEX;')
    p("a private derived type in a private module", "mod a { #[derive(::sscanf::FromScanf)] #[sscanf(\"{}\")] pub(super) struct A(pub(super) u8); #[derive(::sscanf::FromScanf)] #[sscanf(autogen)] enum B { X } pub fn f(s: &str) -> bool { ::sscanf::sscanf!(s, \"{B}\").is_ok() } } pub fn f(s: &str) -> Option<u8> { ::sscanf::sscanf!(s, \"{}\", a::A).ok().map(|a| a.0) }")
    # ---------------------------------------------------------------- errors
    p("Error: exactly two variants", "pub fn f(e: ::sscanf::Error) -> Option<Box<dyn ::std::error::Error>> { match e { ::sscanf::Error::MatchFailed => None, ::sscanf::Error::ParsingFailed(b) => Some(b) } } pub fn g(e: &::sscanf::errors::Error) -> u8 { use ::sscanf::errors::Error::*; match e { MatchFailed => 0, ParsingFailed(_) => 1 } }")
    p("Error: can be made", "pub fn f() -> ::sscanf::Error { ::sscanf::Error::MatchFailed } pub fn g(e: Box<dyn ::std::error::Error>) -> ::sscanf::Error { ::sscanf::Error::ParsingFailed(e) } pub fn h() -> ::sscanf::Error { ::sscanf::Error::ParsingFailed(\"text\".into()) }")
    p("Error: is an error", "use super::own::*; pub fn f() { is_error::<::sscanf::Error>(); is_debug::<::sscanf::Error>(); is_display::<::sscanf::Error>() } pub fn g(s: &str) -> Result<u8, Box<dyn ::std::error::Error>> { Ok(::sscanf::sscanf!(s, \"{u8}\")?) } pub fn h(e: &::sscanf::Error) -> Option<&(dyn ::std::error::Error + 'static)> { ::std::error::Error::source(e) } pub fn i(e: ::sscanf::Error) -> String { e.to_string() + &format!(\"{:?}\", e) }")
    p("Error: downcast of the cause", "pub fn f(e: ::sscanf::Error) -> Option<::std::num::ParseIntError> { match e { ::sscanf::Error::ParsingFailed(b) => b.downcast::<::sscanf::errors::FromStrFailedError<u8>>().ok().map(|e| e.error), _ => None } } pub fn g(e: &::sscanf::Error) -> bool { ::std::error::Error::source(e).map_or(false, |c| c.is::<::sscanf::errors::FromScanfFailedError>()) }")
    p("FromStrFailedError: fields", "pub fn f(e: ::sscanf::errors::FromStrFailedError<u8>) -> (&'static str, ::std::num::ParseIntError) { let ::sscanf::errors::FromStrFailedError { type_name, error } = e; (type_name, error) } pub fn g(error: super::own::OwnErr) -> ::sscanf::errors::FromStrFailedError<super::own::Opaque> { ::sscanf::errors::FromStrFailedError { type_name: \"Opaque\", error } }")
    p("FromStrFailedError: implementations, whatever the type", "use super::own::*; pub type T = ::sscanf::errors::FromStrFailedError<Opaque>; pub fn f() { is_error::<T>(); is_debug::<T>(); is_display::<T>(); is_send::<T>(); is_sync::<T>(); is_send::<::sscanf::errors::FromStrFailedError<u8>>(); is_sync::<::sscanf::errors::FromStrFailedError<f64>>() } pub fn g(e: T) -> Box<dyn ::std::error::Error + Send + Sync> { e.into() } pub fn h(e: &T) -> Option<&(dyn ::std::error::Error + 'static)> { ::std::error::Error::source(e) }")
    p("FromScanfFailedError: fields", "use super::own::*; pub type T = ::sscanf::errors::FromScanfFailedError; pub fn f(e: T) -> (&'static str, Box<dyn ::std::error::Error>) { let ::sscanf::errors::FromScanfFailedError { type_name, error } = e; (type_name, error) } pub fn g(error: Box<dyn ::std::error::Error>) -> T { ::sscanf::FromScanfFailedError { type_name: \"A\", error } } pub fn h() { is_error::<T>(); is_debug::<T>(); is_display::<T>() }")
    p("MissingPrefixError: exactly three variants", "use super::own::*; use ::sscanf::errors::MissingPrefixError as T; pub fn f(e: T) -> u8 { match e { T::Hex => 16, T::Octal => 8, T::Binary => 2 } } pub fn g() -> [T; 3] { [T::Hex, T::Octal, T::Binary] } pub fn h() { is_error::<T>(); is_debug::<T>(); is_display::<T>(); is_send::<T>(); is_sync::<T>() }")
    p("FilterMapNoneError: field", "use super::own::*; use ::sscanf::errors::FilterMapNoneError as T; pub fn f(e: T) -> &'static str { let T { field_name } = e; field_name } pub fn g() -> T { T { field_name: \"a\" } } pub fn h() { is_error::<T>(); is_debug::<T>(); is_display::<T>(); is_send::<T>(); is_sync::<T>() }")
    # ---------------------------------------------------------------- results
    res = [("{u8}", "", "u8"), ("", "", "()"), ("text", "", "()"), ("{u8}{str}", "", "(u8, &'a str)"), ("{}", ", (u8)", None), ("{},{},{}", ", u8, i8, f32", "(u8, i8, f32)"), ("{&str}", "", "&'a str"), ("{str}", "", "&'a str"), ("{}", ", str", "&'a str"), ("{}", ", &str", "&'a str"),
           ("{}", ", &'_ str", None), ("{}", ", ::std::borrow::Cow<str>", "::std::borrow::Cow<'a, str>"), ("{}", ", String", "String"), ("{1}{0}", ", u8, char", "(char, u8)"), ("{0}{0}", ", u8", "(u8, u8)"), ("{bool:/t|f/}", "", "bool"), ("{i8:x}", "", "i8"), ("{}" * 12, ", u8" * 12, "(" + "u8, " * 12 + ")")]
    for lit, a, ty in res:
        if ty:
            p("result of %r%s" % (lit, a), "pub fn f<'a>(s: &'a str) -> Result<%s, ::sscanf::errors::Error> { ::sscanf::sscanf!(s, \"%s\"%s) }" % (ty, lit, a))
    p("result of sscanf_get_regex!", "pub fn f() -> &'static ::sscanf::regex::Regex { ::sscanf::sscanf_get_regex!(\"{u8}\") } pub fn g(s: &str) -> Option<::sscanf::regex::Captures<'_>> { f().captures(s) } pub fn h() -> impl Fn(&str) -> bool + Send + Sync + 'static { let r = f(); move |s| r.is_match(s) }")
    # ---------------------------------------------------------------- wrappers
    for w, t, err in (("FullF32", "f32", "::std::num::ParseFloatError"), ("FullF64", "f64", "::std::num::ParseFloatError"), ("HexNumber", "usize", "::std::num::ParseIntError")):
        lit = "1" if t == "usize" else "1.0"
        p("%s: constructor and field" % w, "use ::sscanf::%s as W; pub fn f(x: %s) -> W { W(x) } pub fn g(w: W) -> %s { w.0 } pub const C: W = W(%s); pub fn h(w: &mut W) { w.0 = %s } pub fn i(w: W) -> %s { let W(x) = w; x } pub fn j(x: Option<%s>) -> Option<W> { x.map(W) }" % (w, t, t, lit, lit, t, t))
        p("%s: implementations" % w, "use super::own::*; use ::sscanf::%s as W; pub fn f() { is_copy::<W>(); is_clone::<W>(); is_debug::<W>(); is_send::<W>(); is_sync::<W>() } pub fn g(a: W, b: W) -> bool { a == b && a != b } pub fn h(a: W, x: %s) -> bool { a == x && x == a && a != x } pub fn i(w: &W) -> &%s { w } pub fn j(w: &mut W) -> &mut %s { w } pub fn k(w: W) -> %s { *w }" % (w, t, t, t, t))
        p("%s: conversions" % w, "use ::sscanf::%s as W; pub fn f(s: &str) -> Result<W, %s> { s.parse() } pub fn g(s: &str) -> Result<W, ::sscanf::Error> { ::sscanf::sscanf!(s, \"{W}\") } pub fn h(s: &str) -> Result<(W, u8), ::sscanf::Error> { ::sscanf::sscanf!(s, \"{}{}\", W, u8) } #[derive(::sscanf::FromScanf)] #[sscanf(\"{a}\")] pub struct A { pub a: W }" % (w, err))
    p("HexNumber is Eq", "pub fn e<T: Eq>() {} pub fn f() { e::<::sscanf::HexNumber>() }")
    return out


def witnesses():
    ws = []
    for i, (n, src) in enumerate(programs()):
        uid = "ap%d" % i
        ws.append(E.W(uid, "pub mod m_%s { mod own { %s } %s }\n" % (uid, flat(OWN), "pub mod p { %s }" % src), "%s: %s" % (n, src), expect="compile", anchor=A27))
    return ws


# ------------------------------------------------------------------ what the wrappers' operators return

def canon(v):
    """equal for equal values; the operands of a comparison for equality have no order"""
    X = S.X
    if isinstance(v, X.Sym):
        args = [canon(a) for a in v.args]
        if v.op in ("Eq", "Ne"):
            args.sort()
        return "%s(%s)" % (v.op, ",".join(args))
    return repr(v)


def agree(pair):
    """fn(prog, ip, root): the functions root and its reference have the same outcomes"""
    def check(prog, ip, root):
        v = S.Verdict()
        got = [[], []]
        for k, r in enumerate((root, pair)):
            for o in ip.run(r):
                v.paths += 1
                if o.kind == "imprecise":
                    v.open.append("not analysed: %s" % (o.why if hasattr(o, "why") else o.value))
                    return v
                got[k].append((o.kind, canon(o.st.deep(o.value)) if o.kind == "return" else ""))
        v.obligations += 1
        if sorted(got[0]) != sorted(got[1]):
            v.bad.append(S.Finding("the result is %s instead of %s" % (got[0], got[1])))
        return v
    return check


def value_witnesses():
    ws = []
    n = 0
    for w, t in (("FullF32", "f32"), ("FullF64", "f64"), ("HexNumber", "usize")):
        for name, sig, a, b in (
                ("wrapper == value", "w: &W, x: &T) -> bool", "*w == *x", "w.0 == *x"), ("value == wrapper", "w: &W, x: &T) -> bool", "*x == *w", "*x == w.0"), ("wrapper == wrapper", "w: &W, x: &W) -> bool", "*w == *x", "w.0 == x.0"),
                ("deref", "w: &W) -> T", "**w", "w.0"), ("clone", "w: &W) -> T", "w.clone().0", "w.0"), ("deref of a mutable wrapper", "w: &mut W) -> T", "{ let r: &mut T = &mut *w; *r }", "w.0"),
                ("write through the wrapper", "x: T) -> T", "{ let mut w = W(x); let y = *w; *w = DEF; let z = w.0; if y == x { z } else { y } }", "{ let mut w = W(x); let y = w.0; w.0 = DEF; let z = w.0; if y == x { z } else { y } }")):
            n += 1
            uid = "av%d" % n
            d = "0" if t == "usize" else "0.0"
            src = "pub mod m_%s { use ::sscanf::%s as W; type T = %s; pub fn w_%s(%s { %s } pub fn w_r%s(%s { %s } }\n" % (uid, w, t, uid, sig, a.replace("DEF", d), uid, sig, b.replace("DEF", d))
            ws.append(E.W(uid, src, "%s of %s: %s is %s" % (name, w, a, b), [("w_" + uid, agree("w_r" + uid))], anchor="src/types.rs impl_wrapper_ops!"))
    return ws

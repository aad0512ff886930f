"""Input expressions of every documented kind, and non-strings (C19)."""
import copy
import engine as E
import families as F
import interp as X
import spec as S
from spec import Call, Fmt, PH, Builtin, StrTy, CowTy, RadixTy, Field, Body, Struct, Enum, Variant, Hand, Multi

A19 = "sscanf_macro/src/lib.rs sscanf_internal (src_str, input)"

DEFS = """
pub fn opq_src() -> &'static str { "" }
pub fn opq_string() -> ::std::string::String { ::std::string::String::new() }
pub fn opq_tick() {}
pub fn opq_flag() -> bool { true }
pub fn opq_try() -> ::std::result::Result<&'static str, ::std::fmt::Error> { ::std::result::Result::Ok("") }
pub fn opq_opt() -> ::std::option::Option<&'static str> { ::std::option::Option::None }
pub struct Holder { pub name: ::std::string::String, pub s: &'static str, pub inner: Inner, pub n: usize }
pub struct Inner { pub t: (u8, ::std::string::String), pub b: ::std::boxed::Box<str>, pub a: [&'static str; 2] }
impl Holder {
  pub fn new() -> Self { Holder { name: opq_string(), s: "", inner: Inner { t: (1, opq_string2()), b: ::std::boxed::Box::from(""), a: ["", opq_src2()] }, n: 0 } }
  pub fn name(&self) -> &str { &self.name }
  pub fn pull(&mut self) -> &str { self.n += 1; opq_src3() }
}
pub fn opq_string2() -> ::std::string::String { ::std::string::String::new() }
pub fn opq_src2() -> &'static str { "" }
pub fn opq_src3() -> &'static str { "" }
pub struct Wrap(pub ::std::string::String, pub u8);
impl ::std::ops::Deref for Wrap { type Target = str; fn deref(&self) -> &str { &self.0 } }
pub struct Wrap2(pub u8, pub ::std::string::String);
impl ::std::ops::Deref for Wrap2 { type Target = ::std::string::String; fn deref(&self) -> &::std::string::String { &self.1 } }
pub struct Ops(pub &'static str, pub u8);
impl ::std::ops::Add<u8> for Ops { type Output = &'static str; fn add(self, _: u8) -> &'static str { self.0 } }
impl ::std::ops::BitOr<u8> for Ops { type Output = &'static str; fn bitor(self, _: u8) -> &'static str { self.0 } }
impl ::std::ops::Shl<u8> for Ops { type Output = &'static str; fn shl(self, _: u8) -> &'static str { self.0 } }
impl ::std::ops::Sub for Ops { type Output = &'static str; fn sub(self, o: Ops) -> &'static str { o.0 } }
impl ::std::ops::Not for Ops { type Output = &'static str; fn not(self) -> &'static str { self.0 } }
impl ::std::ops::Neg for Ops { type Output = &'static str; fn neg(self) -> &'static str { self.0 } }
impl<'x> ::std::ops::Add<u8> for &'x Ops { type Output = &'x u8; fn add(self, _: u8) -> &'x u8 { &self.1 } }
impl ::std::ops::Index<u8> for Ops { type Output = str; fn index(&self, _: u8) -> &str { self.0 } }
#[derive(Clone, Copy)] pub struct Call1(pub &'static str);
impl Call1 { pub fn get(self) -> &'static str { self.0 } pub fn id(&self) -> &Self { self } }
pub static ST: &str = "12 ab";
pub const CO: &str = "12 ab";
pub fn id<T>(t: T) -> T { t }
"""
PRE = E.PREAMBLE + DEFS.replace("\n", " ") + "\n"


class InputCall(Call):
    """a call whose input is any expression. text: the value that must be matched; events: what must happen exactly once before it"""

    def __init__(self, uid, fmt, ext, lets, expr, after, text, events, macro=None, wrap=None, tail=None, sig=None):
        Call.__init__(self, uid, fmt, ext, macro=macro, input_expr=expr)
        self.lets, self.after, self.whole_text, self.events, self.wrap, self.tail, self.sig = lets, after, text, events, wrap, tail, sig

    def source(self):
        inv = self.invocation()
        if self.wrap:
            inv = self.wrap % inv
        body = "%s let r_: ::std::result::Result<%s, ::sscanf::Error> = %s; %s r_" % (self.lets, self.result(), inv, self.after)
        return "pub mod m_%s { use super::*;\n%spub fn w_%s<'a>(input: &'a str%s) -> ::std::result::Result<%s, ::sscanf::Error> { %s }\n}\n" % (
            self.uid, S.all_defs(self.types()), self.uid, self.sig or "", self.result(), body)

    def describe(self):
        return "%s %s; %s" % (self.lets, self.invocation(), self.after)

    def whole(self, st):
        t = self.whole_text
        if t == "arg0":
            return X.Str((X.Var("arg0"),))
        if t.startswith("="):
            return X.Str((t[1:],)) if t[1:] else X.Str(())
        return None

    def check(self, prog, ip, root):
        text = self.whole_text
        v = S.check_call(prog, ip, root, self, whole=lambda s: is_text(s, text, self))
        for o in v.outs:
            if o.kind == "imprecise":
                continue
            caps = [i for i, e in enumerate(o.st.events) if e[0] == "captures"]
            for name in self.events:
                at = [i for i, e in enumerate(o.st.events) if e[0] == "opq" and e[1] == name]
                v.obligations += 1
                if len(at) > 1 and o.kind == "panic" and not caps:
                    continue
                if len(at) != 1:
                    v.bad.append(S.Finding("the input expression is evaluated %d times" % len(at), log=o.st.log))
                elif caps and at[0] > caps[0]:
                    v.bad.append(S.Finding("the input expression is evaluated after matching", log=o.st.log))
        return v


def is_text(s, text, call):
    """s: the normalised text handed to captures"""
    if text == "arg0":
        return s == X.Str((X.Var("arg0"),))
    if text.startswith("="):
        return s.const() == text[1:]
    if len(s.parts) != 1 or not isinstance(s.parts[0], X.Var):
        return False
    k = s.parts[0].key
    if isinstance(k, tuple) and k[0] == "opq":
        y = k[1]
        if text.startswith("ok:"):
            return False
        return isinstance(y, X.Sym) and y.op == text and not y.args
    if isinstance(k, tuple) and k[0] == "text":
        y = k[1]
        return isinstance(y, X.Sym) and y.op in ("ok", "some") and isinstance(y.args[0], X.Sym) and y.args[0].op == text
    return False


def cases():
    """(name, lets, expression, after, text, events)"""
    src, st = ["opq_src"], ["opq_string"]
    out = []

    def add(lets, expr, after="", text=None, ev=None):
        if text is None:
            text = "opq_src" if "opq_src()" in lets + expr else "opq_string" if "opq_string()" in lets + expr else "arg0"
        if ev is None:
            ev = [n for n in ("opq_src", "opq_string", "opq_src2", "opq_src3", "opq_tick", "opq_string2") if n + "()" in expr]
        out.append((lets, expr, after, text, ev))
    # types
    add("", "input")
    add("", "&input")
    add("", "&&&input")
    add("", "&*input")
    add("", "*&input")
    add("", "*input")
    add("", "**&input")
    add("", "opq_src()")
    add("", "&opq_src()")
    add("", "&&opq_src()")
    add("", "*opq_src()")
    add("", "(opq_src())")
    add("", "((opq_src()))")
    add("", "input as &str")
    add("", "opq_src() as &str")
    add("", "&opq_src() as &str")
    add("let s = opq_string();", "s", "drop(s);")
    add("let s = opq_string();", "&s", "drop(s);")
    add("let s = opq_string();", "&&s", "drop(s);")
    add("let s = opq_string();", "*s", "drop(s);")
    add("let s = opq_string();", "&*s", "drop(s);")
    add("let s = opq_string();", "&**&s", "drop(s);")
    add("let s = opq_string();", "s[..]", "drop(s);")
    add("let s = opq_string();", "&s[..]", "drop(s);")
    add("let s = opq_string();", "s.as_str()", "drop(s);")
    add("let s = &opq_string();", "s", "let _ = s.len();")
    add("let s = &&opq_string();", "s", "let _ = s.len();")
    add("let s = &&opq_string();", "*s", "let _ = s.len();")
    add("let mut s = opq_string();", "s", "s.push('x');")
    add("let mut t = opq_string(); let s = &mut t;", "s", "s.push('x'); drop(t);")
    add("let mut t = opq_string(); let s = &mut t;", "*s", "s.push('x'); drop(t);")
    add("let mut t = opq_string(); let s: &mut str = &mut *t;", "s", "let _ = &mut *s; drop(t);")
    add("let s = ::std::boxed::Box::<str>::from(opq_src());", "s", "drop(s);")
    add("let s = ::std::boxed::Box::<str>::from(opq_src());", "&s", "drop(s);")
    add("let s = ::std::boxed::Box::<str>::from(opq_src());", "*s", "drop(s);")
    add("let s = ::std::boxed::Box::new(opq_string());", "s", "drop(s);")
    add("let s = ::std::boxed::Box::new(opq_src());", "s", "drop(s);")
    add("let s = ::std::rc::Rc::<str>::from(opq_src());", "s", "drop(s);")
    add("let s = ::std::rc::Rc::<str>::from(opq_src());", "&s", "drop(s);")
    add("let s = ::std::rc::Rc::<str>::from(opq_src());", "*s", "drop(s);")
    add("let s = ::std::rc::Rc::new(opq_string());", "s", "drop(s);")
    add("let s = ::std::sync::Arc::<str>::from(opq_src());", "s", "drop(s);")
    add("let s = ::std::sync::Arc::new(opq_string());", "s", "drop(s);")
    add("let s = ::std::borrow::Cow::<str>::Borrowed(opq_src());", "s", "drop(s);")
    add("let s = ::std::borrow::Cow::<str>::Owned(opq_string());", "s", "drop(s);")
    add("let s = ::std::borrow::Cow::<str>::Owned(opq_string());", "&s", "drop(s);")
    add("let s = ::std::borrow::Cow::<str>::Owned(opq_string());", "*s", "drop(s);")
    add("let s = Wrap(opq_string(), 1);", "s", "drop(s);")
    add("let s = Wrap(opq_string(), 1);", "&s", "drop(s);")
    add("let s = Wrap(opq_string(), 1);", "*s", "drop(s);")
    add("let s = Wrap2(1, opq_string());", "s", "drop(s);")
    add("let s = Wrap2(1, opq_string());", "&&s", "drop(s);")
    add("let s = ::std::boxed::Box::new(Wrap2(1, opq_string()));", "s", "drop(s);")
    # fields, indexing, calls
    add("let h = Holder::new();", "h.name", "drop(h);", "opq_string", [])
    add("let h = Holder::new();", "&h.name", "drop(h);", "opq_string", [])
    add("let h = Holder::new();", "h.name()", "drop(h);", "opq_string", [])
    add("let h = Holder::new();", "h.s", "drop(h);", "=", [])
    add("let h = Holder::new();", "h.inner.t.1", "drop(h);", "opq_string2", [])
    add("let h = Holder::new();", "h.inner.a[1]", "drop(h);", "opq_src2", [])
    add("let h = Holder::new();", "h.inner.a[0 + 1]", "drop(h);", "opq_src2", [])
    add("let h = &Holder::new();", "h.name", "let _ = h.n;", "opq_string", [])
    add("let h = &Holder::new();", "h.inner.t.1", "let _ = h.n;", "opq_string2", [])
    add("let mut k = Holder::new(); let h = &mut k;", "h.name", "h.n = 1; drop(k);", "opq_string", [])
    add("let mut k = Holder::new(); let h = &mut k;", "h.pull()", "if h.n != 1 { panic!(\"evaluated {} times\", h.n) } h.n = 1; drop(k);", "opq_src3", ["opq_src3"])
    add("let b = ::std::boxed::Box::new(Holder::new());", "b.name", "drop(b);", "opq_string", [])
    add("let t = (1u8, opq_string(), \"z\");", "t.1", "drop(t);")
    add("let t = (1u8, (2u8, opq_string()));", "(t.1).1", "drop(t);")
    add("let t = (1u8, (2u8, opq_string()));", "t.1.1", "drop(t);")
    add("let a = [\"x\", opq_src(), \"y\"];", "a[1]", "let _ = a;")
    add("let a = [\"x\", opq_src(), \"y\"]; let i = 1;", "a[i]", "let _ = a;")
    add("let a = [\"x\", opq_src(), \"y\"]; let i = 0;", "a[i + 1]", "let _ = a;")
    add("", "id(opq_src())")
    add("", "id(&opq_src())")
    add("", "id::<&str>(opq_src())")
    add("", "Call1(opq_src()).get()")
    add("", "Call1(opq_src()).id().id().get()")
    add("", "Call1(opq_src()).0")
    add("let f = || opq_src();", "f()", "let _ = f;", "opq_src", ["opq_src"])
    add("", "(|| opq_src())()")
    add("let mut n = 0;", "{ n += 1; opq_src() }", "if n != 1 { panic!(\"evaluated {} times\", n) }")
    add("let mut n = 0; let mut f = || { n += 1; opq_src() };", "f()", "if n != 1 { panic!(\"evaluated {} times\", n) }", "opq_src", ["opq_src"])
    # blocks and control flow
    add("", "{ opq_src() }")
    add("", "{ opq_tick(); opq_src() }")
    add("", "{ let a = opq_src(); a }")
    add("", "{ let a = { opq_tick(); 1 }; let _ = a; opq_src() }")
    add("", "if true { opq_src() } else { \"other\" }")
    add("", "if opq_flag() { opq_src() } else { opq_src() }", "", "opq_src", ["opq_flag"])
    add("", "match opq_flag() { true => opq_src(), false => opq_src() }", "", "opq_src", ["opq_flag"])
    add("", "match 1u8 { 1 => opq_src(), _ => \"other\" }")
    add("", "loop { break opq_src() }")
    add("", "'l: { break 'l opq_src() }")
    add("", "'l: loop { loop { break 'l opq_src() } }")
    add("", "unsafe { opq_src() }")
    add("let mut i = 0;", "loop { i += 1; if i == 3 { break opq_src(); } }", "if i != 3 { panic!(\"{}\", i) }")
    add("let mut i = 0;", "{ while i < 2 { i += 1; } opq_src() }", "if i != 2 { panic!(\"{}\", i) }")
    # operators that bind weaker than the ones the macro applies
    add("let o = Ops(opq_src(), 1);", "o + 1")
    add("let o = Ops(opq_src(), 1);", "o + 1 as u8")
    add("let o = Ops(opq_src(), 1);", "o | 1")
    add("let o = Ops(opq_src(), 1);", "o << 1")
    add("let o = Ops(opq_src(), 1);", "Ops(\"x\", 1) - o")
    add("let o = Ops(opq_src(), 1);", "!o")
    add("let o = Ops(opq_src(), 1);", "-o")
    add("let o = Ops(opq_src(), 1);", "o[1]", "drop(o);")
    add("let o = Ops(opq_src(), 1);", "&o[1]", "drop(o);")
    add("", "Ops(opq_src(), 1) + { opq_tick(); 1 }")
    add("", "Ops(opq_src(), 1) | 1 + 1")
    # names the macro uses itself
    for n in ("input", "cap", "src", "regex", "matcher", "res", "regex_str", "s", "REGEX", "NUM_CAPTURES"):
        add("let %s = opq_src();" % n, n, "let _ = %s;" % n)
        add("let %s = opq_string();" % n, "&%s" % n, "drop(%s);" % n)
    add("", "ST", "", "=12 ab", [])
    add("", "CO", "", "=12 ab", [])
    add("", '"12 ab"', "", "=12 ab", [])
    add("", 'concat!("12", " ab")', "", "=12 ab", [])
    add("", 'stringify!(ab)', "", "=ab", [])
    # constant of the block
    add("", '{ const K: &str = "12 ab"; K }', "", "=12 ab", [])
    # untrimmed, unmodified constants
    for t in (" 12 ab ", "\n12", "12\n", "\t", "", " ", "\ufeff12", "A\u0301", "\u212a", "12\0"):
        add("", S.rust_str(t), "", "=" + t, [])
    return out


def formats():
    st = lambda: Struct("Si", Body([Field("a", Builtin("u8")), Field("b", Builtin("String"))], Fmt([PH(how="auto"), "/", PH(how="auto")])))
    return [(lambda: Fmt([PH(Builtin("u8"))]), []), (lambda: Fmt([PH(Builtin("u16")), " ", PH(how="ext")]), [Builtin("String")]), (lambda: Fmt(["x", PH(st())]), []),
            (lambda: Fmt(["ab"]), []), (lambda: Fmt([PH(RadixTy("i32", "#x")), "-", PH(Builtin("char"))]), []), (lambda: Fmt([""]), []),
            (lambda: Fmt([PH(Builtin("String"), custom="a|b"), PH(how=("idx", 0))]), [Builtin("String")])]


BORROWING = [lambda: Fmt([PH(StrTy())]), lambda: Fmt([PH(StrTy("&str")), ",", PH(CowTy())])]


def more_formats():
    """other kinds of types, and as many placeholders as a tuple or a counter may treat in a special way"""
    en = lambda: Enum("Ei", [Variant("A", Body([Field(None, Builtin("u8"))], Fmt(["a", PH(how="auto")]), "tuple")), Variant("B", Body([], Fmt(["b"]), "unit"))])
    out = [lambda t=t: Fmt([PH(Builtin(t)), "\n"]) for t in ("f64", "bool", "char", "std::path::PathBuf", "std::num::NonZeroU8", "i128", "f32")]
    out += [lambda: Fmt([PH(Hand("Hi", "[a-z]*")), "."]), lambda: Fmt([PH(Multi("Mi", ["a", "b*"]))]), lambda: Fmt([PH(en())]), lambda: Fmt(["l" * 300])]
    return out + [lambda m=m: Fmt([x for j in range(m) for x in (PH(Builtin("String")), ",")]) for m in (2, 3, 8, 9, 12, 13, 16, 17, 26, 27, 33, 66, 130)]


def witnesses(thorough=False):
    ws = []
    fs = formats()
    more = more_formats()
    for i, (lets, expr, after, text, ev) in enumerate(cases()):
        for j, m in enumerate(("sscanf", "sscanf_unescaped", "scanf", "scanf_unescaped") if thorough else (("sscanf", "scanf")[i % 2], ("sscanf_unescaped", "scanf_unescaped")[i // 2 % 2])):
            f, ext = fs[(i * 3 + j) % len(fs)]
            fmt = f()
            fmt.escaped = not m.endswith("unescaped")
            c = InputCall("in%d_%d" % (i, j), fmt, list(ext), lets, expr, after, text, ev, macro=m)
            w = E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, c.check)], anchor=A19)
            ws.append(w)
        for q in range(len(more) if thorough or i % 10 == 0 else 1):
            m = ("sscanf", "sscanf_unescaped", "scanf", "scanf_unescaped")[(i + q) % 4]
            fmt = more[(i * 5 + q) % len(more)]()
            fmt.escaped = not m.endswith("unescaped")
            c = InputCall("im%d_%d" % (i, q), fmt, [], lets, expr, after, text, ev, macro=m)
            ws.append(E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, c.check)], anchor=A19))
        if text == "arg0" or (text == "opq_src" and not lets.startswith("let s = ::std::") and "Ops" not in lets and " f = " not in lets):
            fmt = BORROWING[i % 2]()
            local = "String" in lets or "mut" in expr
            if local or "opq_string" in lets or "let mut" in lets or "let a = [" in lets and False:
                continue
            c = InputCall("ib%d" % i, fmt, [], lets, expr, after if "drop" not in after else "", text, ev)
            ws.append(E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, c.check)], anchor=A19))
    return ws


# compile witnesses: contexts in which the input stays usable, and expressions with control flow out of the macro
CTX_OK = [
    ("for twice", "pub fn f(s: ::std::string::String) -> usize { let mut n = 0; for _ in 0..2 { if %s.is_ok() { n += 1; } } n + s.len() }"),
    ("closure is Fn", "pub fn f(s: ::std::string::String) -> usize { let g = || %s.is_ok(); fn fn_<F: Fn() -> bool>(_: &F) {} fn_(&g); g(); g(); drop(g); s.len() }"),
    ("closure by ref twice", "pub fn f(s: ::std::string::String) -> bool { let g = || %s.is_ok(); let h = || %s.is_ok(); g() && h() && s.is_empty() }"),
    ("shared borrow outstanding", "pub fn f(s: ::std::string::String) -> usize { let r = &s; let b = %s.is_ok(); r.len() + b as usize }"),
    ("by reference only", "pub fn f(s: &::std::string::String) -> bool { %s.is_ok() }"),
    ("unsized", "pub fn f(s: &str) -> bool { let b = %s.is_ok(); b && s.is_empty() }"),
    ("behind Rc", "pub fn f(s: ::std::rc::Rc<::std::string::String>) -> usize { let b = %s.is_ok(); ::std::rc::Rc::strong_count(&s) + b as usize }"),
    ("behind a lock", "pub fn f(m: &::std::sync::Mutex<::std::string::String>) -> bool { let s = m.lock().unwrap(); let b = %s.is_ok(); drop(s); b }"),
    ("RefCell", "pub fn f(m: &::std::cell::RefCell<::std::string::String>) -> bool { let s = m.borrow(); let b = %s.is_ok(); drop(s); b }"),
    ("move later", "pub fn f(s: ::std::string::String) -> ::std::string::String { let _ = %s; s }"),
    ("generic Deref", "pub fn f<T: ::std::ops::Deref<Target = str>>(s: T) -> bool { let b = %s.is_ok(); drop(s); b }"),
    ("generic ref Deref", "pub fn f<T: ::std::ops::Deref<Target = str>>(s: &T) -> bool { %s.is_ok() }"),
    ("generic Deref Deref", "pub fn f<U: ::std::ops::Deref<Target = str>, T: ::std::ops::Deref<Target = U>>(s: T) -> bool { let b = %s.is_ok(); drop(s); b }"),
    ("ManuallyDrop", "pub fn f(s: ::std::mem::ManuallyDrop<::std::string::String>) -> bool { %s.is_ok() }"),
    ("pinned", "pub fn f(s: ::std::pin::Pin<::std::boxed::Box<str>>) -> bool { let b = %s.is_ok(); drop(s); b }"),
    ("pattern", "pub fn f(o: ::std::option::Option<::std::string::String>) -> bool { match o { ::std::option::Option::Some(ref s) => %s.is_ok(), _ => false } }"),
    ("pattern by default binding", "pub fn f(o: &::std::option::Option<::std::string::String>) -> bool { if let ::std::option::Option::Some(s) = o { %s.is_ok() } else { false } }"),
    ("pattern move", "pub fn f(o: ::std::option::Option<::std::string::String>) -> ::std::option::Option<::std::string::String> { if let ::std::option::Option::Some(s) = &o { let _ = %s; } o }"),
    ("match scrutinee", "pub fn f(s: ::std::string::String) -> ::std::string::String { match %s { ::std::result::Result::Ok(_) => s, ::std::result::Result::Err(_) => s } }"),
    ("if let scrutinee", "pub fn f(s: ::std::string::String) -> ::std::string::String { if let ::std::result::Result::Ok(n) = %s { let t = s; t } else { s } }"),
    ("argument of a call with the input", "pub fn f(s: ::std::string::String) -> bool { fn g(a: bool, b: ::std::string::String) -> bool { a && b.is_empty() } g(%s.is_ok(), s) }"),
]
CTX_EXPR = [
    ("question mark", "pub fn f() -> ::std::result::Result<u8, ::std::boxed::Box<dyn ::std::error::Error>> { fn g() -> ::std::result::Result<&'static str, ::std::fmt::Error> { ::std::result::Result::Ok(\"\") } ::std::result::Result::Ok(%s?) }", "g()?"),
    ("question mark of Option", "pub fn f<'a>(mut it: ::std::str::Split<'a, char>) -> ::std::option::Option<u8> { %s.ok() }", "it.next()?"),
    ("return inside", "pub fn f(b: bool) -> u8 { %s.unwrap_or(1) }", "{ if b { return 0 } \"5\" }"),
    ("break inside", "pub fn f(v: &[&str]) -> u8 { let mut n = 0; for s in v { n += %s.unwrap_or(1); } n }", "{ if s.is_empty() { break } *s }"),
    ("continue inside", "pub fn f(v: &[&str]) -> u8 { let mut n = 0; 'o: for s in v { n += %s.unwrap_or(1); } n }", "match s.len() { 0 => continue 'o, _ => s }"),
    ("await inside", "pub async fn f() -> u8 { async fn g() -> &'static str { \"5\" } %s.unwrap_or(1) }", "g().await"),
    ("iterator", "pub fn f(mut it: impl Iterator<Item = ::std::string::String>) -> u8 { let mut n = 0; while let ::std::option::Option::Some(l) = it.next() { n += %s.unwrap_or(1); n += l.len() as u8; } n }", "l"),
    ("mutating iterator", "pub fn f<'x>(mut it: impl Iterator<Item = &'x str>) -> u8 { %s.unwrap_or(1) + it.count() as u8 }", "it.next().unwrap()"),
    ("mutable borrow in a block", "pub fn f(mut s: ::std::string::String) -> ::std::string::String { let _ = %s; s.push('x'); s }", "{ s.push('y'); &s }"),
    ("assignment inside", "pub fn f(mut s: &'static str) -> &'static str { let _ = %s; s }", "{ s = \"7\"; s }"),
    ("macro_rules expr", "macro_rules! p { ($e:expr) => { %s } } pub fn f(s: ::std::string::String) -> ::std::string::String { let _ = p!(s); let _ = p!(&s[1..]); let _ = p!(if s.is_empty() { &s } else { &s }); s }", "$e"),
    ("macro_rules ident", "macro_rules! p { ($e:ident) => { %s } } pub fn f(s: ::std::string::String) -> ::std::string::String { let _ = p!(s); s }", "$e"),
    ("macro_rules tt", "macro_rules! p { ($($e:tt)+) => { %s } } pub fn f(s: ::std::string::String) -> ::std::string::String { let _ = p!(&s[1..]); s }", "$($e)+"),
    ("macro_rules local", "macro_rules! p { ($e:expr) => {{ let input = $e; %s }} } pub fn f() -> u8 { let input = \"5\"; p!(input).unwrap() }", "input"),
    ("macro_rules operator", "macro_rules! p { ($e:expr) => { %s } } pub fn f(o: Ops) -> u8 { p!(o + 1).unwrap() }", "$e"),
    ("nested macro call", "pub fn f(s: &str) -> u8 { %s.unwrap() }", "match ::sscanf::sscanf!(s, \"{str}\") { ::std::result::Result::Ok(t) => t, _ => \"\" }"),
    ("const block", "pub fn f() -> u8 { %s.unwrap() }", "const { \"5\" }"),
    ("let else", "pub fn f(s: &str) -> u8 { let ::std::result::Result::Ok(n) = %s else { return 1 }; n }", "s"),
    ("struct field init", "pub struct Q { pub n: u8 } pub fn f(s: &str) -> Q { Q { n: %s.unwrap() } }", "s"),
    ("self", "pub struct Q { pub s: ::std::string::String } impl Q { pub fn f(&self) -> u8 { %s.unwrap() } pub fn g(self) -> ::std::string::String { let _ = self.f(); self.s } }", "self.s"),
    ("self Deref", "pub struct Q { pub s: ::std::string::String } impl ::std::ops::Deref for Q { type Target = str; fn deref(&self) -> &str { &self.s } } impl Q { pub fn f(&self) -> u8 { %s.unwrap() } }", "self"),
    ("self Deref star", "pub struct Q { pub s: ::std::string::String } impl ::std::ops::Deref for Q { type Target = str; fn deref(&self) -> &str { &self.s } } impl Q { pub fn f(&self) -> u8 { %s.unwrap() } }", "*self"),
    ("Self::CONST", "pub struct Q; impl Q { pub const K: &'static str = \"5\"; pub fn f() -> u8 { %s.unwrap() } }", "Self::K"),
    ("generic const", "pub trait K { const S: &'static str; } pub fn f<T: K>() -> u8 { %s.unwrap() }", "T::S"),
    ("static mut str", "pub static mut SM: &str = \"5\"; pub fn f() -> u8 { %s.unwrap() }", "unsafe { SM }"),
]
NOT_STR = ["5", "5u8", "'a'", "1.5", "true", "()", "(\"a\",)", "(\"a\", \"b\")", "[\"a\"]", "&[\"a\"]", "b\"a\"", "&b\"a\"[..]", "b'a'", "c\"a\"", "None::<&str>", "Some(\"a\")", "Ok::<&str, u8>(\"a\")", "vec![b'a']", "&vec!['a']", "&v8", "v8", "vc", "os", "&os",
           "os.as_os_str()", "path", "&path", "path.as_path()", "cs", "&cs", "|| \"a\"", "|| s", "f1", "String::new", "str::len", "..", "0..1", "s..s", "s == s", "&&s == &&s", "s.len()", "s.chars()", "s.bytes()", "s.as_bytes()", "s.lines()", "opt", "&opt", "opt.as_ref()",
           "res", "NoDeref(\"a\")", "ToU8(1)", "AsRefOnly", "IntoOnly", "DispOnly", "&DispOnly", "rcv", "boxv", "&mut 5", "&'a'", "lockm", "cell", "cow8", "str", "u8", "String", "s as *const str", "s.as_ptr()", "i32::MAX", "if true { 1 } else { 2 }", "{ }", "{ s; }", "loop { break }",
           "while false {}", "for _ in 0..1 {}", "x = s", "let t = s", "s.parse::<u8>()", "s.parse::<String>()", "format_args!(\"a\")", "print!(\"a\")", "Some(s)", "[s]", "(s, )", "Box::new(5)", "&Box::new(5)", "std::num::Wrapping(1)", "Utf8(b\"a\")"]
NOT_STR_PRE = """pub struct NoDeref(pub &'static str); pub struct ToU8(pub u8); impl ::std::ops::Deref for ToU8 { type Target = u8; fn deref(&self) -> &u8 { &self.0 } }
pub struct AsRefOnly; impl AsRef<str> for AsRefOnly { fn as_ref(&self) -> &str { "" } } pub struct IntoOnly; impl From<IntoOnly> for String { fn from(_: IntoOnly) -> String { String::new() } }
pub struct DispOnly; impl ::std::fmt::Display for DispOnly { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("5") } }
pub struct Utf8(pub &'static [u8]); impl ::std::ops::Deref for Utf8 { type Target = [u8]; fn deref(&self) -> &[u8] { self.0 } } pub fn f1() -> &'static str { "" }"""
NOT_STR_LETS = """let v8: Vec<u8> = vec![]; let vc: Vec<char> = vec![]; let os = ::std::ffi::OsString::new(); let path = ::std::path::PathBuf::new(); let cs = ::std::ffi::CString::default(); let opt: Option<&str> = None; let res: Result<&str, u8> = Err(1);
let rcv: ::std::rc::Rc<[u8]> = ::std::rc::Rc::from([1u8]); let boxv: Box<[char]> = Box::new([]); let lockm = ::std::sync::Mutex::new(String::new()); let cell = ::std::cell::RefCell::new(String::new()); let cow8: ::std::borrow::Cow<'_, [u8]> = ::std::borrow::Cow::Borrowed(b"a"); let mut x = s;"""


def compile_witnesses(thorough=False):
    ws = []
    ms = ["sscanf", "sscanf_unescaped", "scanf", "scanf_unescaped"]
    fm = ['"{u8}"', '"{}", u8', 'r"{:x}", u8']
    n = 0
    for name, t in CTX_OK:
        for e in ("s", "&s", "*s", "&*s", "&&s"):
            if name in ("pinned", "ManuallyDrop", "generic Deref Deref") and e in ("*s", "&*s") and name == "pinned":
                pass
            for m in (ms if thorough else [ms[n % 2 + 2 * (n // 2 % 2)]]):
                n += 1
                inv = "::sscanf::%s!(%s, %s)" % (m, e, fm[n % 3])
                ws.append(E.W("cu%d" % n, "pub mod m_cu%d { use super::*; %s }\n" % (n, t.replace("%s", inv)), "%s: %s" % (name, inv), expect="compile", anchor=A19))
    for name, t, e in CTX_EXPR:
        for m in (ms if thorough else ms[:2]):
            n += 1
            inv = "::sscanf::%s!(%s, %s)" % (m, e, fm[n % 3])
            ws.append(E.W("ce%d" % n, "pub mod m_ce%d { use super::*; %s }\n" % (n, t.replace("%s", inv)), "%s: %s" % (name, inv), expect="compile", anchor=A19))
    for e in NOT_STR:
        for m in (ms if thorough else [ms[n % 4], ms[(n + 1) % 4]]):
            n += 1
            inv = "let _ = ::sscanf::%s!(%s, %s);" % (m, e, fm[n % 3])
            ws.append(E.W("cn%d" % n, "pub mod m_cn%d { use super::*; %s pub fn f(s: &'static str) { %s %s } }\n" % (n, NOT_STR_PRE.replace("\n", " "), NOT_STR_LETS.replace("\n", " "), inv), inv, expect="error", anchor=A19))
    return ws

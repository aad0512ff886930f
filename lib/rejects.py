"""Malformed macro calls and derive items (compile-fail witnesses) and their well-formed twins (C13, C14)."""
import itertools

import engine as E
import spec as S

A13 = "sscanf_macro/src/lib.rs Parse impls, generate_regex; placeholder.rs; format_option.rs; ty.rs; regex_parts.rs"
A14 = "sscanf_macro/src/attribute.rs; attribute/*.rs; derive.rs"

TYPES = """
pub struct NoTrait;
pub struct OnlyRegex; impl ::sscanf::RegexRepresentation for OnlyRegex { const REGEX: &'static str = "o"; }
pub struct OnlyFromStr; impl ::std::str::FromStr for OnlyFromStr { type Err = ::std::num::ParseIntError; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(OnlyFromStr) } }
#[derive(Debug)] pub struct NotAnError;
pub struct BadErr; impl ::std::str::FromStr for BadErr { type Err = NotAnError; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(BadErr) } }
impl ::sscanf::RegexRepresentation for BadErr { const REGEX: &'static str = "o"; }
pub struct OnlyFromScanf; impl<'t> ::sscanf::FromScanf<'t> for OnlyFromScanf { type Err = ::std::num::ParseIntError; const NUM_CAPTURES: usize = 1;
    fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<Self, Self::Err> { src.next(); ::std::result::Result::Ok(OnlyFromScanf) } }
pub struct Good(pub u8); impl ::std::str::FromStr for Good { type Err = ::std::num::ParseIntError; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(Good(0)) } }
impl ::sscanf::RegexRepresentation for Good { const REGEX: &'static str = "g"; }
pub mod deep { pub struct Gen<T>(pub T); impl<T> ::std::str::FromStr for Gen<T> { type Err = ::std::num::ParseIntError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> { s.parse::<u8>().map(|_| ::std::unreachable!()) } }
  impl<T> ::sscanf::RegexRepresentation for Gen<T> { const REGEX: &'static str = "g"; } }
pub const FMT: &str = "{u8}";
"""
PRE = E.PREAMBLE + TYPES.replace("\n", " ") + "\n"


def call_src(uid, macro, args, pre="", input="s"):
    inp = (input + ", ") if not macro.endswith("get_regex") else ""
    return "pub mod m_%s { use super::*; %s pub fn f(s: &str) { let _ = ::sscanf::%s!(%s%s); } }\n" % (uid, pre, macro, inp, args)


class Fam:
    def __init__(self, anchor):
        self.ws, self.anchor, self.n = [], anchor, 0

    def add(self, pfx, mk, text, expect):
        self.n += 1
        uid = "%s%d" % (pfx, self.n)
        self.ws.append(E.W(uid, mk(uid), text, expect=expect, anchor=self.anchor))

    def call(self, macro, args, expect, pre="", input="s"):
        self.add("b" if expect == "error" else "g", lambda uid: call_src(uid, macro, args, pre, input),
                 "%s!(%s%s)" % (macro, (input + ", ") if not macro.endswith("get_regex") else "", args), expect)


# text in the place of a placeholder of an integer type that no macro accepts
BAD_TEXT = ["}", "a}b", "{{}", "{}}", "}{", "{", "{u8", "{u8:", "{u8:x", "{u8:r", "{u8:/a", "{u8:/a/", "{u8:/a/ }", "{u8:/a/x}", "{u8:/a/}}", "{u8:x}}", "{{u8}", "{u8}}", "{{{u8}}"]
BAD_OPT = ["", "##", "#r16", "r16#", "#x#", "x#x", "X", "O", "B", "#X", "X#", "r", "r0", "r1", "r37", "r256", "r1000000000000000000000", "r-2", "r2.0", "rx", "r 16", "r16 ", "R16", "r16r", "rr", "r٣",
           " x", "x ", " ", "d", "?", "e", "10", "16", ">5", "05", ".2", "x?", "xx", "xo", "0x", ":", ":x", "x:", "x:b", "a/b/", "x/a/", "# x", "x #", "é", "\U0001F600", "[a-z]", "\\d+", "r#16", "16r", "r+", "r0x10", "x16", "+", "-"]
BAD_RE = ["(a)", "(?P<n>a)", "a(b(c))", "(?:(a))", "(a)*", "a|(b)", "[", "(", ")", "*", "a{2,1}", "\\p{Nope}", "(?<=a)", "(?=a)", "(?!a)", "\\1", "a**b(", "(?z)", "[z-a]", "[]", "\\q", "(?P<>a)", "(?P<n", "(?:a", "a{,2", "\\", "[a", "(?i",
          "\\u{110000}", "\\x", "x{99999999999}", "(?:a)(b)(?:c)", "((?:a))", "(?i:(a))", "(?i)(a)", "()", "(?x) ( a )", "(|a)", "[()](a)", "\\((a)\\)"]
GOOD_RE = ["a", "(?:a)", "[(]", "\\(a\\)", "[)]", "(?i:a)", "(?i)a", "\\\\", "\\/", "a\\/b", "", "|", "a|b", "[()]", "\\d{2,3}", "x*?", "[\\]\\[]", "(?x) a # c", "\\x41", "\\u{41}", "é", "(?:(?:a))", "{", "}", "\\{", "a{2}", "[{}]", "^$", "\\b"]
GOOD_RE = [r for r in GOOD_RE if r not in ("{",)]
BAD_TYPE = ["u9", "u8 u8", "u8,u8", "-1", "!", "(u8)", "[u8; 2]", "[u8]", "&u8", "&mut str", "&'static str", "&'a str", "&&str", "&String", "&Cow<str>", "&[u8]", "*const u8", "fn()", "dyn Fn()", "impl Copy", "_", "Vec<u8>", "Vec<u8",
            "Vec u8>", "Option<u8>", "'a'", "\\\"u8\\\"", "u8;", " ", "  ", "self", "crate", "super", "<u8 as Nope>::X", "u8!", "vec![]", "1.0", "0 0", "0x1", "1_0", "1u8", "99999999999999999999999999", "u8 as u16", "a = u8", "NoTrait", "OnlyRegex", "OnlyFromStr", "BadErr",
            "OnlyFromScanf", "?", "$", "#", "u8?", "u8..", ".", "..", "'", "\\\"", "(", ")", "[", "]", "<", ">", "@", "éé", "mod", "struct", "i", "/a/", "/", "//", "/a/b/", "()", "(u8, u8)", "Self", "Nope::u8", "::u8", "deep::Nope", "deep::Gen", "deep::Gen<Nope>", "u8<u8>",
            "str<u8>", "f32<u8>", "Box<str>", "std::rc::Rc<str>", "Cow<u8>", "Cow<'static, str>"[:0] or "Cow<[u8]>", "std::borrow::Cow", "'static", "for<'a> fn(&'a u8)", "u8 + Copy", "{u8}"[:0] or "u8 {", "\\u{0}", "\\n"]
GOOD_TYPE = ["u8", " u8", "u8 ", "std::primitive::u8", "::std::primitive::u8", "Good", "super::Good", "self::Good", "crate::Good", "deep::Gen<u8>", "deep::Gen<Vec<NoTrait>>", "deep::Gen< (u8, NoTrait) >", "deep::Gen<deep::Gen<fn()>>", "<u8 as Alias>::Ty",
             "str", "&str", "& str", "String", "::std::string::String", "std::path::PathBuf", "Cow<str>", "Cow<'_, str>", "r#Good"]
RADIXABLE = S.INTS
NOT_INT = ["f32", "f64", "bool", "char", "str", "&str", "String", "Cow<str>", "std::path::PathBuf", "std::num::NonZeroU8", "Good", "deep::Gen<u8>"]
MACROS = ["sscanf", "sscanf_unescaped", "sscanf_get_regex", "scanf", "scanf_unescaped", "scanf_get_regex"]


def lit(text, raw=False):
    return S.rust_str(text, raw if raw is not None else None)


def malformed(t):
    """whether a text whose placeholders are `{u8}`, `{u8:x}` or `{u8:/…/}` at best breaks the syntax of format strings (no backslashes)"""
    i = 0
    while i < len(t):
        if t[i] in "{}" and t[i:i + 2] == t[i] * 2:
            i += 2
        elif t[i] == "}":
            return True
        elif t[i] == "{":
            if not t.startswith("u8", i + 1):
                return True
            i += 3
            if t.startswith(":/", i):
                e = t.find("/", i + 2)
                if e < 0:
                    return True
                i = e + 1
            elif t.startswith(":x", i):
                i += 2
            if t[i:i + 1] != "}":
                return True
            i += 1
        else:
            i += 1
    return False


def wide_texts():
    """the malformed texts with a character of several bytes at every place"""
    out, n = [], 0
    for b in BAD_TEXT + ["{u8:x}y}", "{u8:/a/}{u8:/b/", "{:/a/}"]:
        for i in range(len(b) + 1):
            n += 1
            t = b[:i] + "é€\U0001F600\u00a0\u0301"[n % 5] + b[i:]
            if t not in out:
                out.append(t)
    return out


def calls(thorough=False):
    F = Fam(A13)
    for i, t in enumerate(wide_texts()):
        F.call(MACROS[(0, 2, 1)[i % 3]], lit(t, (None, False)[i % 2]), "error" if malformed(t) else "compile")
    M = MACROS[:3]
    surround = [("", ""), ("a", "b"), ("é{{", "}}é"), ("{u8}-", ""), ("", "-{u8:x}"), ("\n", "\t")]
    k = 0

    def sur():
        nonlocal k
        k += 1
        return surround[k % len(surround)]
    for i, b in enumerate(BAD_TEXT):
        for m in M:
            # nothing after it, or the text might be completed
            F.call(m, lit(sur()[0].replace("}}", "").replace("{{", "") + b), "error")
        if not b.startswith("{u8"):
            F.call(M[i % 3], lit("x" + b + "y{u8"), "error")
    for t in ["{{", "}}", "{{}}", "{{{u8}}}", "{{{{", "}}}}", "}}{{", "{u8}{{", "}}{u8}", "{u8}}}", "{{u8}}", "{{u8:}}", "", " ", "\n", "{u8:x}{{{u8:r2}}}", "{{}}{{}}"]:
        for m in M:
            if m == "sscanf_unescaped":
                continue
            F.call(m, lit(t), "compile")
    for i, o in enumerate(BAD_OPT):
        for m in M if i % 2 else M[::-1][:2]:
            a, b = sur()
            F.call(m, lit(a + "{u8:" + o + "}" + b), "error")
        a, b = sur()
        F.call(M[i % 3], lit(a + "{:" + o + "}" + b) + ", u8", "error")
        F.call(M[(i + 1) % 3], lit(a + "{0:" + o + "}" + b) + ", u8", "error")
        F.call(M[(i + 2) % 3], lit(a + "{u8:" + o + "}" + b, True if '"#' not in o else False), "error")
    for i, o in enumerate(["x", "o", "b", "#x", "x#", "#o", "o#", "#b", "b#"] + ["r%d" % r for r in range(2, 37)]):
        for m in M:
            a, b = sur()
            if m == "sscanf_unescaped":
                a, b = "", ""
            ty = RADIXABLE[(k + i) % len(RADIXABLE)]
            F.call(m, lit(a + "{%s:%s}" % (ty, o) + b), "compile")
        if i < 14 or thorough:
            for j, t in enumerate(NOT_INT):
                F.call(M[(i + j) % 3], lit("{%s:%s}" % (t, o)), "error")
                F.call(M[(i + j + 1) % 3], lit("<{:%s}>" % o) + ", " + t, "error")
    for r in range(37, 256, 7 if not thorough else 1):
        F.call(M[r % 3], lit("{u8:r%d}" % r), "error")
    for i, r in enumerate(BAD_RE):
        for raw in (True, False):
            a, b = sur()
            for m in (M if thorough else [M[i % 3], M[(i + 1) % 3]]):
                F.call(m, lit(a + "{String:/" + r + "/}" + b, raw), "error")
            F.call(M[(i + 2) % 3], lit("{:/" + r + "/}", raw) + ", u8", "error")
    for i, r in enumerate(GOOD_RE):
        for raw in (True, False):
            F.call(M[i % 3], lit("{String:/" + r + "/}", raw), "compile")
    for i, t in enumerate(BAD_TYPE):
        for m in M:
            if m == "sscanf_get_regex" and t in ("OnlyRegex",):
                continue
            a, b = sur()
            F.add("b", lambda uid: call_src(uid, m, '"' + a.replace("\n", "\\n").replace("\t", "\\t") + "{" + t + "}" + b.replace("\t", "\\t") + '"', "extern crate std as nope_;"), '%s!("{%s}")' % (m, t), "error")
        F.add("b", lambda uid: call_src(uid, M[i % 2], '"{' + t + ':/x+/}"'), '"{%s:/x+/}"' % t, "error") if t not in ("OnlyFromStr", "OnlyFromScanf", "u8!") else None
    for t in GOOD_TYPE:
        for m in M:
            F.call(m, lit("{%s}" % t), "compile", pre="pub trait Alias { type Ty; } impl Alias for u8 { type Ty = u16; }")
        if not t.startswith(("&", "& ")):
            F.call(M[len(t) % 3], lit("<{}>") + ", " + t, "compile", pre="pub trait Alias { type Ty; } impl Alias for u8 { type Ty = u16; }")
    # arguments
    for m in M:
        g = m == "sscanf_get_regex"
        for a in ["u8", "FMT", "super::FMT", 'concat!("a")', 'b"a"', 'c"a"', "'a'", "5", "1.0", "true", '("a")', '{"a"}', '&"a"', '["a"]', '"a" "b"', '"{}"u8, u8', '"a"x', '"a"; u8', '"{}" u8', '"{}", u8 u8', '"{}",, u8', '"{}", ,', '"{}", u8,,', '"{}", 5',
                  '"{}", "u8"', '"{}", &u8', '"{}", &\'a str', '"{}", &\'static str', '"{}", &mut str', '"{}", &&str', '"{}", &String', '"{}", &Cow<str>', '"{}", (u8)', '"{}", [u8]', '"{}", [u8; 2]', '"{}", _', '"{}", !', '"{}", fn()', '"{}", fn(u8) -> u8', '"{}", impl Copy',
                  '"{}", dyn Copy', '"{}", *const u8', '"{}", x = u8', '"{}", u8 as u16', '"{}", u8: u8', '"{}", ()', '"{}", (u8, u8)', '"{}", \'static', '"{}", vec![]', '"{}", <u8>', '"{}", u8.0', '"{}", u9', '"{}", NoTrait', '"{}", OnlyFromStr', '"{}", BadErr', '"{}", OnlyFromScanf',
                  '"{}", Vec<u8>', '"{}", Option<u8>', '"{}", Box<str>', '"{}", Cow<u8>', '"{}", deep::Gen',
                  '"{}"', '"{}{}"', '"{}{}", u8', '"{}{}{}", u8, u8', '"{0}{}{}", u8', '"{}", u8, u8', '"", u8', '"a", u8', '"{0}", u8, u8', '"{1}", u8, u8', '"{1}", u8', '"{0}"', '"{2}{0}", u8, u8', '"{u8}", u8', '"{u8}{0}", u8, u8', '"{0}{}", u8, i8', '"{}{0}", u8, i8', '"{1}{}", u8, i8, u8',
                  '"{{}}", u8', '"{{0}}", u8', '"{18446744073709551616}", u8', '"{00}{}", u8, u8', 'r"a"x', 'r#"{}"#u8, u8', '-"a"', '"a".trim()', 'format!("{u8}")', 'stringify!(a)', '"{}" => u8', "{u8}", "[u8]", "#[a] \"a\"", 'x = "a"', "..", "'a", "\"{}\", #[a] u8"]:
            F.call(m, a, "error", pre="extern crate std as nope_; ")
        if not g:
            F.call(m, '"{}", OnlyRegex', "error")
        for a in ['"{}", u8', '"{}", u8,', '"{}{}", u8, i8', '"{0}{0}", u8', '"{0}{}{}", u8, u8', '"{0}{}", u8', '"{1}{0}", u8, &str', '"{}{1}", u8, Good', '""', '"a",', 'r"{}", u8', 'r#"a"#', 'r##"a"#b"##', '"{01}{0}", u8, i8', '"{}", &str', '"{}", & str', '"{}", str', '"{}", Cow<str>', '"{}", deep::Gen<u8>,', '"{}", <u8 as Alias>::Ty', '"\\x41\\u{42}\\n\\\n   {}", u8']:
            if m == "sscanf_unescaped" and a.startswith('r##'):
                continue
            F.call(m, a, "compile", pre="pub trait Alias { type Ty; } impl Alias for u8 { type Ty = u16; }")
    # missing parameters, no comma, no input
    for m in MACROS:
        g = m.endswith("get_regex")
        for a in ["", ","] + ([] if g else ["s", "s,", 's "a"', 's; "a"', ', "a"', '"a"', '"a",', 's, ,', 's,, "a"', 's, s, "a"', 'let x = 1, "a"', 's => "a"', 's, = "a"', "=, \"a\"", "u8 u8, \"a\"", "s s, \"a\""]):
            F.add("b", lambda uid: "pub mod m_%s { use super::*; pub fn f(s: &str) { let _ = ::sscanf::%s!(%s); } }\n" % (uid, m, a), "%s!(%s)" % (m, a), "error")
        for br in ("[]", "{}"):
            F.add("g", lambda uid: "pub mod m_%s { use super::*; pub fn f(s: &str) { let _ = ::sscanf::%s!%s%s\"{u8}\"%s; } }\n" % (uid, m, br[0], "" if g else "s, ", br[1]), "%s! with %s" % (m, br), "compile")
            F.add("b", lambda uid: "pub mod m_%s { use super::*; pub fn f(s: &str) { let _ = ::sscanf::%s!%s%s\"{u8\"%s; } }\n" % (uid, m, br[0], "" if g else "s, ", br[1]), "%s! with %s, unbalanced" % (m, br), "error")
    # alias macros
    for m in MACROS[3:]:
        for a in ['"{"', '"}"', '"{u8:}"', '"{u8:r1}"', '"{f32:x}"', '"{String:/(a)/}"', '"{}"', '"a", u8', '"{&u8}"', '"{NoTrait}"', '"{u8}"u8']:
            F.call(m, a, "error")
    # which types a list of placeholders uses: every list of up to three, every number of types
    opts = [":x", "", ":r7", ":/[0-9]+/", "", ":#b", ":o"]
    n = 0
    for size in (0, 1, 2, 3):
        for phs in itertools.product(["", "0", "1", "2", "u8"], repeat=size):
            for ntypes in range(4):
                n += 1
                autos = sum(1 for x in phs if x == "")
                used = set(range(autos)) | {int(x) for x in phs if x.isdigit()}
                good = used == set(range(ntypes))
                if size == 3 and not thorough and (n * 7 + size) % 3:
                    continue
                text = ",".join("{%s%s}" % (x, opts[(n * 3 + j * (1 + n % 2)) % 7]) for j, x in enumerate(phs))
                F.call(M[(n // 4) % 3], lit(text, (None, False)[n % 2]) + "".join(", " + ["u8", "i16", "u64"][i] for i in range(ntypes)), "compile" if good else "error")
    # a capture group in every position of a regex
    ctx = ["@*", "@+", "@?", "@*?", "@+?", "@??", "@{2}", "@{2,}", "@{0,3}", "@{2}?", "@{1,}?", "(?:@)", "(?i:@)", "(?s-i:@)", "(?x: @ )", "x@", "@x", "x@y", "@|y", "x|@", "x|@|z", "|@", "@|", "(?:x|@)", "(?i)@", "^@$", "[(]@", "\\(@", "@[)]"]
    for i, c in enumerate(ctx):
        for j, g in enumerate(["(a)", "(?P<n>a)"]):
            F.call(M[(i + j) % 3], lit("{String:/" + c.replace("@", g) + "/}", True), "error")
        F.call(M[i % 3], lit("{String:/" + c.replace("@", "(?:a)") + "/}", True), "compile")
        for j, d in enumerate(ctx):
            if thorough or (i + 2 * j) % 3 == 0:
                F.call(M[(i + j) % 3], lit("<{:/" + c.replace("@", "(?:" + d.replace("@", "(a)") + ")") + "/}", True) + ", String", "error")
    # and behind many other parts
    for i, k in enumerate((7, 8, 9, 16, 17, 33, 65, 66, 130, 260)):
        for j, (w, sep) in enumerate([("a.", ""), ("[ab]", ""), ("x", "|"), ("a+", ""), ("\\w", "|"), ("(?:b|c)", ""), ("^", ""), ("a{2}b", "|")]):
            t = sep.join([w] * k)
            F.call(M[(i + j) % 3], lit("{String:/" + t + sep + "(a)/}", True), "error")
            F.call(M[(i + j + 1) % 3], lit("{String:/" + t + sep + "(?P<n>a)" + sep + t + "/}", True), "error")
            F.call(M[(i + j + 2) % 3], lit("{String:/" + t + sep + "(?:a)" + sep + t + "/}", True), "compile")
        if k < 66:
            F.call(M[i % 3], lit("{String:/" + "(?:a|" * k + "(b)" + ")" * k + "/}", True), "error")
            F.call(M[i % 3], lit("{String:/" + "(?:a" * k + "(b)" + ")*" * k + "/}", True), "error")
            F.call(M[i % 3], lit("{String:/" + "(?:a|" * k + "(?:b)" + ")" * k + "/}", True), "compile")
    # many of everything: the mistake is far behind
    for n, k in enumerate((9, 33, 65, 129, 257)):
        for j, m in enumerate(M):
            tys = ["u8", "i16", "u64"]
            ts = [tys[(i + n) % 3] for i in range(k)]
            args = "".join(", " + t for t in ts)
            auto, idx = "{}," * k, "".join("{%d}," % i for i in range(k - 1, -1, -1))
            F.call(m, lit(auto) + args, "compile")
            F.call(m, lit(idx) + args, "compile")
            F.call(m, lit("{%s}" % "},{".join(ts)), "compile")
            F.call(m, lit(auto) + "".join(", " + t for t in ts[:-1]), "error")
            F.call(m, lit(auto) + args + ", u8", "error")
            F.call(m, lit(idx + "{%d}" % k) + args, "error")
            F.call(m, lit(idx + "{u9}") + args, "error")
            F.call(m, lit(idx + "}") + args, "error")
            F.call(m, lit(idx + "{") + args, "error")
            F.call(m, lit(idx + "{u8:}") + args, "error")
            F.call(m, lit(idx + "{0:r37}") + args, "error")
            F.call(m, lit(idx + "{0:/(a)/}") + args, "error")
            for miss in {0, k // 2, k - 1, 8, 32, 64, 128, 256}:
                if miss < k and (thorough or (miss + j + n) % 2 or miss == k - 1):
                    F.call(m, lit(idx.replace("{%d}" % miss, "{u8}")) + args, "error")
                    F.call(m, lit(idx.replace("{%d}" % miss, "{%d:#}" % miss)) + args, "error")
    # long and odd
    F.call("sscanf", lit("{" * 999), "error")
    F.call("sscanf", lit("}" * 999), "error")
    F.call("sscanf", lit("{" * 1000), "compile")
    F.call("sscanf", lit("{u8:/" + "(?:" * 60 + "a" + ")" * 60 + "/}"), "compile")
    F.call("sscanf", lit("{u8:/" + "(?:" * 60 + "(a)" + ")" * 60 + "/}"), "error")
    F.call("sscanf", lit("{u8:/" + "(?:" * 3000 + "a" + ")" * 3000 + "/}"), "error")
    F.call("sscanf", lit("{" + "A" * 5000 + "}"), "error")
    F.call("sscanf", lit("{u8:" + "x" * 5000 + "}"), "error")
    F.call("sscanf", lit("{" + "deep::Gen<" * 20 + "u8" + ">" * 20 + "}"), "compile")
    return F.ws


# ------------------------------------------------------------------------------- derive attributes (C14)

# attribute -> (item kinds it is documented for, well-formed values, malformed values)
ATTRS = {
    "format": ({"struct", "variant"}, [' = "{}"', ' = r"{}"', ' = r#"{}"#'], ["", " =", " = 5", " = 'a'", ' = b"{}"', " = FMT", ' = concat!("{}")', ' = ("{}")', '("{}")', ' "{}"', ': "{}"', ' = "{}" "{}"', ' = "{}"u8', ' == "{}"', ' = "{}";', ' = &"{}"', " = {}", " = format"]),
    "format_unescaped": ({"struct", "variant"}, [' = "{}"', ' = r"{}"'], ["", " =", " = 5", " = 'a'", ' = b"{}"', " = FMT", ' = ("{}")', '("{}")', ' "{}"', ' = "{}"u8']),
    "transparent": ({"struct", "variant"}, [""], [" =", " = true", ' = "{}"', "(true)", "()", " true", ' "{}"', ": true", "!"]),
    "skip": ({"variant"}, [""], [" =", " = true", ' = "x"', "(true)", "()", " true", " = false", " = 5"]),
    "autogen": ({"enum"}, ["", ' = "lowercase"', ' = r"UPPERCASE"', ' = "CaseSensitive"'], [" =", " = 5", " = true", " = lowercase", '("lowercase")', ' "lowercase"', ' = "nope"', ' = ""', ' = b"lowercase"']),
    "autogenerate": ({"enum"}, ["", ' = "snake_case"'], [" =", " = 5", " = lowercase", '("lowercase")', ' "lowercase"', ' = "nope"']),
    "default": ({"dfield"}, ["", " = 5", " = { 1 + 1 }", " = super::dflt()", " = if true { 1 } else { 2 }", " = u8::MAX", " = (|| 3u8)()"], [" =", "(5)", " 5", ": 5", " = ;", " = 5 5", ' = "x"', " = nope()", " = 300", " == 5"]),
    "map": ({"cfield"}, [" = |x: u16| x as u8", " = |x: u16| { let y = x; y as u8 }", " = |x: u16| -> u8 { 1 }", " = |_: bool| 7", " = |x: &str| x.len() as u8"],
            ["", " =", " = 5", " = super::conv", " = || 5", " = |x| 5", " = |x: u16, y: u16| 5", "(|x: u16| 5)", " = |x: u16| x", " = (|x: u16| 5)", " |x: u16| 5", " = |x: u16|", " = fn(u16) -> u8", " = |_| 1", " = |x: u16| \"a\"", " = |x: NoTrait| 5", " = |x: u16| ::std::option::Option::Some(1u8)"]),
    "filter_map": ({"cfield"}, [" = |x: u16| ::std::convert::TryFrom::try_from(x).ok()", " = |_: bool| ::std::option::Option::None", " = |x: char| ::std::option::Option::Some(x as u8)"],
                   ["", " =", " = 5", " = super::conv", " = || ::std::option::Option::Some(5)", " = |x| ::std::option::Option::Some(5)", " = |x: u16, y: u16| ::std::option::Option::Some(5)", " = |x: u16| 5", " = |x: u16| ::std::result::Result::<u8, ()>::Ok(5)", " = |x: NoTrait| ::std::option::Option::None", " = |_| ::std::option::Option::None"]),
    "from": ({"cfield"}, [" = bool", " = ::std::primitive::bool", " = Small", " = super::Small", " = Small2::<u8>", " = Small2<u8>", " = u8"], ["", " =", " = 5", ' = "u8"', " = u16", " = NoTrait", " = nope", "(bool)", " bool", " = bool bool", " = |x: u8| x", " = &u8", " = (bool)", " = [u8; 1]", " = &mut str", " = OnlyRegex", " = !", " = OnlyFromScanf"]),
    "try_from": ({"cfield"}, [" = u16", " = i64", " = ::std::primitive::u32", " = u8", " = Small", " = Small2<u8>", " = Small2::<u8>"], ["", " =", " = 5", ' = "u8"', " = NoTrait", " = nope", "(u16)", " u16", " = String", " = f32", " = &u8", " = u16, u32"]),
}
UNKNOWN = ["Format", "fmt", "formatt", "format_", "formats", "unescaped", "format_unescape", "formatunescaped", "FORMAT", "ignore", "auto_gen", "autogenerated", "auto", "Autogen", "defaults", "Default", "def", "filtermap", "filter-map", "filter", "tryfrom", "try_into", "into", "rename", "rename_all", "with", "skipped", "skip_", "Skip",
           "transparant", "Transparent", "sscanf", "derive", "crate::format", "std::default", "type", "é", "_", "x", "mapper", "Map", "froms", "From", "map_", "'a", "5", "1.0", "{}", "()", "[]", "#", "!", "=", ";", ".", "*", "-", "true", "self", "format.", "$"]

# every form an attribute value can have as a Rust expression (or type); none is a string literal or a closure with one typed argument
VALUES = ["5", "5u8", "1.5", "'a'", "b'a'", "true", 'b"{}"', 'c"{}"', "FMT", "super::FMT", "::std::primitive::u8::MAX", "f", "f()", "super::dflt()", "dflt(1)", "x.y", "x.y()", "x[0]", "x?", "m!()", "concat!(\"{}\")", "stringify!(a)",
          "||5", "|x| 5", "move || 5", "{ 5 }", "{}", "unsafe { 5 }", "async { 5 }", "const { 5 }", "if true { 5 } else { 6 }", "match 5 { _ => 5 }", "loop {}", "while true {}", "for _ in 0..1 {}", "'a: loop {}", "()", "(5,)", "(5, 6)", '("{}")', "[5]", "[5; 2]",
          "-5", "!5", "*x", "&5", '&"{}"', "&mut x", "1 + 1", "1 == 1", "x = 5", "x += 5", "5 as u8", "0..5", "..", "5..=6", "return", "return 5", "break", "continue", "X { a: 5 }", "X", "Self", "self", "crate", "_", "let x = 5", "Vec::<u8>::new()", "<u8 as ::std::default::Default>::default()", "r#type",
          "x.await", "(|x: u8| 5)", "&|x: u8| 5", "{ |x: u8| 5 }", "[u8; 2]", "&'static u8", "fn(u8)", "dyn Fn()", "*const u8", "!", "(u8)"]
ONLY_U8 = {"5", "5u8", "b'a'", "::std::primitive::u8::MAX", "super::dflt()", "{ 5 }", "unsafe { 5 }", "const { 5 }", "if true { 5 } else { 6 }", "match 5 { _ => 5 }", "1 + 1", "5 as u8", "!5", "<u8 as ::std::default::Default>::default()", "loop {}", "'a: loop {}"}
DIVERGES = {"return", "return 5", "break", "continue"}

DPRE = "pub fn dflt() -> u8 { 3 } pub fn conv(x: u16) -> u8 { x as u8 } "
DTYPES = """
pub fn dflt() -> u8 { 3 }
pub fn conv(x: u16) -> u8 { x as u8 }
pub struct Small(pub u8); impl ::std::str::FromStr for Small { type Err = ::std::num::ParseIntError; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(Small(0)) } }
impl ::sscanf::RegexRepresentation for Small { const REGEX: &'static str = "g"; }
impl ::std::convert::From<Small> for u8 { fn from(x: Small) -> u8 { x.0 } }
pub struct Small2<T>(pub T); impl ::std::str::FromStr for Small2<u8> { type Err = ::std::num::ParseIntError; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(Small2(0)) } }
impl ::sscanf::RegexRepresentation for Small2<u8> { const REGEX: &'static str = "g"; }
impl ::std::convert::From<Small2<u8>> for u8 { fn from(x: Small2<u8>) -> u8 { x.0 } }
"""
DPREAMBLE = PRE + DTYPES.replace("\n", " ") + "\n"

# item kind -> templates that are well-formed without @ and for which @ is the attribute under test; then the templates in which a valid one of that kind is used
ALONE = {
    "struct": ['#[sscanf("{}")] @ pub struct X(pub u8);', '@ #[sscanf("{}")] pub struct X { pub a: u8 }'],
    "variant": ['pub enum X { #[sscanf("{}")] @ A(u8), #[sscanf("q")] B }', 'pub enum X { #[sscanf("q")] B, @ #[sscanf("{}")] A { a: u8 } }'],
    "uvariant": ['pub enum X { #[sscanf("q")] B, #[sscanf("r")] @ A }'],
    "enum": ['@ pub enum X { #[sscanf("a")] A, #[sscanf("b")] B }', '@ pub enum X { #[sscanf("a")] A }'],
    "dfield": ['#[sscanf("{}{}")] pub struct X(@ pub u8, pub u8);', '#[sscanf("{a}{b}")] pub struct X { pub b: u8, @ pub a: u8 }', 'pub enum X { #[sscanf("{}")] A(@ u8) }', 'pub enum X { #[sscanf("b")] B, #[sscanf("{a}")] A { @ a: u8 } }'],
}
USED = {
    "struct": ["@ pub struct X(pub u8);", "@ pub struct X { pub a: u8 }"],
    "variant": ["pub enum X { @ A(u8), #[sscanf(\"q\")] B }", "pub enum X { #[sscanf(\"q\")] B, @ C { a: u8 } }"],
    "enum": ["@ pub enum X { A, B }", '@ pub enum X { A, #[sscanf("{}")] B(u8), #[sscanf(skip)] C(u8) }', "@ pub enum X { A }"],
    "dfield": ['#[sscanf("{}")] pub struct X(@ pub u8, pub u8);', '#[sscanf("{b}")] pub struct X { pub b: u8, @ pub a: u8 }', 'pub enum X { #[sscanf("z")] A(@ u8) }', 'pub enum X { #[sscanf("b")] B, #[sscanf("y")] A { @ a: u8 } }'],
    "cfield": ['#[sscanf("{} {}")] pub struct X(@ pub u8, pub u8);', '#[sscanf("{b} {a}")] pub struct X { pub b: u8, @ pub a: u8 }', 'pub enum X { #[sscanf("{}")] A(@ u8) }', 'pub enum X { #[sscanf("b")] B, #[sscanf("{0}")] A { @ a: u8 } }', "#[sscanf(transparent)] pub struct X(@ pub u8);"],
}


class Items(Fam):
    def item(self, src, expect, pre=""):
        self.add("b" if expect == "error" else "g", lambda uid: "pub mod m_%s { use super::*; %s #[derive(::sscanf::FromScanf)] %s }\n" % (uid, pre, src), src, expect)


def items(thorough=False):
    F = Items(A14)
    kinds = ["struct", "variant", "uvariant", "enum", "dfield"]

    def inside(attr):
        return "#[sscanf(%s)]" % attr
    # valid uses
    for a, (where, good, bad) in ATTRS.items():
        for k in where:
            for v in good:
                for t in USED[k] if thorough or k in ("struct", "variant") else USED[k][:3]:
                    if a == "skip" and v == "" or t is not None:
                        F.item(t.replace("@", inside(a + v)), "compile")
                F.item(USED[k][0].replace("@", inside(a + v + ",")), "compile")
                F.item(USED[k][0].replace("@", "#[sscanf()] " + inside(a + v) + " #[sscanf()]"), "compile")
                F.item(USED[k][-1].replace("@", "#[cfg_attr(all(), sscanf(%s))] #[allow(dead_code)]" % (a + v)), "compile")
            for v in bad:
                for t in USED[k] if thorough else USED[k][:2]:
                    if a == "skip":
                        t = t if '"q"' in t else t
                    F.item(t.replace("@", inside(a + v)), "error")
        # everywhere else
        for k in kinds:
            ok = k in where or (k == "uvariant" and "variant" in where) or (k == "dfield" and "cfield" in where)
            for t in ALONE[k]:
                for v in (good[:2] if not thorough else good) + ([""] if "" not in good else []):
                    if ok and k in ("enum",):
                        continue      # autogen over formatted variants is fine
                    if ok and k == "dfield" and a != "default":
                        continue      # a conversion there is fine
                    F.item(t.replace("@", inside(a + v)), "error")
    for t in ALONE["enum"]:
        F.item(t.replace("@", inside("autogen")), "compile")
    # every form of value
    for a, (where, good, bad) in ATTRS.items():
        for k in sorted(where):
            for i, v in enumerate(VALUES):
                if a == "default":
                    if v in DIVERGES or v in ("x = 5", "X"):
                        continue
                    e = "compile" if v in ONLY_U8 else "error"
                else:
                    e = "error"
                ts = USED[k]
                for t in ts if thorough else [ts[i % len(ts)]]:
                    F.item(t.replace("@", inside(a + " = " + v)), e)
    # unknown names
    for i, u in enumerate(UNKNOWN):
        for j, k in enumerate(kinds):
            t = ALONE[k][(i + j) % len(ALONE[k])]
            F.item(t.replace("@", inside(u)), "error")
            if (i + j) % 3 == 0:
                F.item(t.replace("@", inside(u + ' = "{}"')), "error")
    # shorthand literals and other non-attributes in the wrong places
    for v in ['"{}"', 'r"{}"', '"x"', "b\"{}\"", "'a'", "5", "true", '"{}", "{}"', '"{}" = 5', '"{}" "{}"', ",", ", ,", "=", '= "{}"', '"{}"u8', 'c"x"']:
        for k in kinds:
            if k == "uvariant" or v == ",":
                continue
            for t in ALONE[k]:
                F.item(t.replace("@", inside(v)), "error")
    for form in ["#[sscanf]", '#[sscanf = "{}"]', "#[sscanf = 5]", "#[sscanf(\"{}\"]"[:0] or "#[sscanf = format]"]:
        for k in kinds:
            for t in ALONE[k]:
                F.item(t.replace("@", form), "error")
        for k in ("struct", "variant", "enum", "cfield"):
            F.item(USED[k][0].replace("@", form), "error")
    # at most one attribute per item
    groups = {"struct": ['"{}"', 'r"{}"', 'format = "{}"', 'format_unescaped = "{}"', "transparent"],
              "variant": ['"{}"', 'r"{}"', 'format = "{}"', 'format_unescaped = "{}"', "transparent", "skip"],
              "enum": ["autogen", "autogenerate", 'autogen = "lowercase"', 'autogenerate = "lowercase"'],
              "cfield": ["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| ::std::option::Option::Some(x)", "from = u8", "try_from = u8"],
              "dfield": ["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| ::std::option::Option::Some(x)", "from = u8", "try_from = u8"]}
    n = 0
    for k, g in groups.items():
        for x in g:
            for y in g:
                n += 1
                t = USED[k][n % 2]
                F.item(t.replace("@", inside(x + ", " + y)), "error")
                F.item(t.replace("@", inside(x) + " " + inside(y)), "error")
        for i in range(len(g)):
            F.item(USED[k][0].replace("@", inside(", ".join(g[i:] + g[:i]))), "error")
            F.item(USED[k][1].replace("@", inside(g[i]) + inside(g[(i + 1) % len(g)] + ", " + g[(i + 2) % len(g)])), "error")
        # many of them, and far behind other attributes
        for i, c in enumerate((3, 4, 5, 6, 7, 8, 9, 17, 33, 65)):
            x = g[i % len(g)]
            F.item(USED[k][i % 2].replace("@", inside(", ".join([x] * c))), "error")
            F.item(USED[k][(i + 1) % 2].replace("@", " ".join([inside(x)] * c)), "error")
            F.item(USED[k][i % 2].replace("@", " ".join([inside(x)] + ["#[sscanf()]"] * c + [inside(g[(i + 1) % len(g)])])), "error")
            others = ("#[doc = \"d\"] ", "#[cfg(all())] ", "#[sscanf()] ")[i % 3] * c
            if not (k == "cfield" and x.startswith("default") or k == "dfield" and not x.startswith("default")):
                F.item(USED[k][i % 2].replace("@", others + inside(x) + others), "compile")
            F.item(USED[k][i % 2].replace("@", others + inside(x) + others + inside(x)), "error")
            F.item(USED[k][i % 2].replace("@", inside(x) + others + inside("nope")), "error")
            F.item(USED[k][i % 2].replace("@", inside(x + ", nope" + ", nope" * c)), "error")
    # exactly one source per field; placeholders name fields
    fields = {"tuple": ("(pub u8, pub i8, pub bool)", "(u8, i8, bool)"), "named": ("{ pub a: u8, pub b: i8, pub c: bool }", "{ a: u8, b: i8, c: bool }")}
    goodf = {"tuple": ["{}{}{}", "{0}{1}{2}", "{2}{1}{0}", "{}{0}{}", "{2}{}{}", "{1}{}{0}"], "named": ["{}{}{}", "{a}{b}{c}", "{c}{b}{a}", "{0}{1}{2}", "{b}{}{}", "{2}{a}{}", "{}{1}{a}", "{c}{}{0}"]}
    badf = ["", "x", "{}", "{}{}", "{}{}{}{}", "{0}{1}", "{0}{0}{1}{2}", "{0}{1}{2}{2}", "{}{}{}{0}", "{0}{}{}{}", "{0}{1}{3}", "{3}{}{}", "{-1}{}{}", "{u8}{i8}{bool}", "{a}{b}{d}", "{A}{b}{c}", "{ a}{b}{c}", "{a }{b}{c}", "{self}{}{}", "{x}{}{}", "{a.b}{}{}", "{a}{b}{c}{}", "{a}{a}{b}{c}",
            "{a}{b}{c}{a}", "{0}{a}{b}{c}", "{{}}{{}}{{}}", "{a}{b}", "{99999999999999999999}{}{}", "{00}{1}{2}", "{+0}{1}{2}", "{0_}{1}{2}", "{&str}{}{}", "{é}{}{}", "{:x}{:x}{:x}", "{}{}{}}", "{}{}{", "{}{}{:", "{}{:}{}", "{}{:r1}{}", "{}{:#}{}", "{}{}{:/(a)/}", "{}{}{:/[/}", "{}{}{:b}", "{:/a}{}{}", "{}{:/a/ }{}", "{/a/}{}{}"]
    for shape, (sf, vf) in fields.items():
        for i, f in enumerate(goodf[shape] + badf):
            e = "compile" if f in goodf[shape] else "error"
            for raw in (False, True):
                l = S.rust_str(f, raw)
                semi = ";" if shape == "tuple" else ""
                F.item('#[sscanf(%s)] pub struct X %s%s' % (l, sf, semi), e)
                F.item('pub enum X { #[sscanf("%s")] Q(u8), #[sscanf(format%s = %s)] A %s, B }' % ("q{}", "_unescaped" if i % 2 else "", l, vf), e)
    dmix = [("(#[sscanf(default)] u8, u8)", ["{}", "{1}"], ["", "{}{}", "{0}", "{0}{1}", "{1}{0}", "{}{0}", "{0}{}"]),
            ("(u8, #[sscanf(default = 3)] u8, u8)", ["{}{}", "{2}{0}", "{0}{}", "{}{2}"], ["{}", "{}{}{}", "{0}{1}", "{0}{1}{2}", "{1}{}{}"]),
            ("{ a: u8, #[sscanf(default)] b: u8 }", ["{}", "{a}", "{0}"], ["{b}", "{a}{b}", "{1}", "{}{}", "{}{b}", "{0}{1}", ""]),
            ("{ #[sscanf(map = |x: u16| x as u8)] a: u8, #[sscanf(default)] b: u8 }", ["{}", "{a}", "{0:x}"], ["", "{b}", "{a}{a}", "{a}{b}"]),
            ("(#[sscanf(default)] u8)", ["", "x"], ["{}", "{0}"]), ("{ #[sscanf(default)] a: u8 }", ["", "x"], ["{}", "{a}", "{0}"]), ("()", ["", "x"], ["{}", "{0}"]), ("{}", ["", "x"], ["{}", "{0}"]), ("", ["", "x"], ["{}", "{0}", "{a}"])]
    for body, g, b in dmix:
        for f in g + b:
            e = "compile" if f in g else "error"
            F.item("#[sscanf(%s)] pub struct X %s%s" % (S.rust_str(f, False), body, "" if body.startswith("{") else ";"), e)
            F.item("pub enum X { #[sscanf(format = %s)] A %s, #[sscanf(\"o\")] O }" % (S.rust_str(f, False), body), e)
    # transparent: exactly one field
    for body, e in [("(u8)", "compile"), ("{ a: u8 }", "compile"), ("(#[sscanf(map = |x: u16| x as u8)] u8)", "compile"), ("(#[sscanf(from = bool)] u8)", "compile"), ("", "error"), ("()", "error"), ("{}", "error"), ("(u8, u8)", "error"), ("{ a: u8, b: u8 }", "error"),
                    ("(u8, #[sscanf(default)] u8)", "error"), ("(#[sscanf(default)] u8, u8)", "error"), ("(#[sscanf(default)] u8)", "error"), ("{ #[sscanf(default = 3)] a: u8 }", "error"), ("(u8, ())", "error"), ("(u8, ::std::marker::PhantomData<u8>)", "error"), ("(NoTrait)", "error"), ("(u8, u8, u8)", "error")]:
        F.item("#[sscanf(transparent)] pub struct X %s%s" % (body, "" if body.startswith("{") else ";"), e)
        F.item("pub enum X { #[sscanf(transparent)] A %s, #[sscanf(\"o\")] O }" % body, e)
        F.item("pub enum X { #[sscanf(\"o\")] O, #[sscanf(transparent)] A %s }" % body, e)
    # enums
    for src, e in [("pub enum X {}", "error"), ("#[sscanf(autogen)] pub enum X {}", "error"), ("pub enum X { A }", "error"), ("pub enum X { A, B(u8), C { a: u8 } }", "error"), ("pub enum X { #[sscanf(skip)] A }", "error"), ("pub enum X { #[sscanf(skip)] A, B }", "error"),
                   ("#[sscanf(autogen)] pub enum X { #[sscanf(skip)] A }", "error"), ("#[sscanf(autogen)] pub enum X { #[sscanf(skip)] A, #[sscanf(skip)] B(u8) }", "error"), ("#[sscanf(autogen)] pub enum X { A, B(u8) }", "error"), ("#[sscanf(autogen)] pub enum X { A { a: u8 } }", "error"),
                   ("#[sscanf(autogen)] pub enum X { A(u8), #[sscanf(\"b\")] B }", "error"), ("#[sscanf(autogen)] pub enum X { A, B(#[sscanf(default)] u8) }", "error"), ("#[sscanf(autogen)] pub enum X { #[sscanf(skip)] A, B }", "compile"), ("#[sscanf(autogen)] pub enum X { A() }", "compile"), ("#[sscanf(autogen)] pub enum X { A {} }", "compile"),
                   ("#[sscanf(autogen)] pub enum X { #[sscanf(\"{}\")] A(u8) }", "compile"), ("pub enum X { #[sscanf(\"a\")] A, #[sscanf(skip)] B }", "compile"), ("pub enum X { #[sscanf(\"a\")] A, B }", "compile"), ("pub enum X { #[sscanf(\"a\")] A = 5, #[sscanf(\"b\")] B = 7 }", "compile"),
                   ("pub union X { a: u8 }", "error"), ("#[sscanf(\"{}\")] pub union X { a: u8 }", "error"), ("#[sscanf(transparent)] pub union X { a: u8 }", "error"), ("#[sscanf(autogen)] pub union X { a: u8, b: i8 }", "error"),
                   ("pub struct X;", "error"), ("pub struct X(u8);", "error"), ("pub struct X { a: u8 }", "error"), ("pub struct X {}", "error"), ("#[sscanf()] pub struct X(u8);", "error"), ("pub struct X(#[sscanf(default)] u8);", "error"), ("pub struct X<T>(T);", "error"),
                   ("#[sscanf(\"{}\")] pub struct X(NoTrait);", "error"), ("#[sscanf(\"{}\")] pub struct X(OnlyRegex);", "error"), ("#[sscanf(\"{}\")] pub struct X(OnlyFromStr);", "error"), ("#[sscanf(\"{}\")] pub struct X(#[sscanf(from = u8)] NoTrait);", "error"),
                   ("#[sscanf(\"\")] pub struct X(#[sscanf(default)] NoTrait);", "error"), ("#[sscanf(\"\")] pub struct X(#[sscanf(default = NoTrait)] NoTrait);", "compile"), ("#[sscanf(\"{}\")] pub struct X(Option<u8>);", "error"), ("#[sscanf(\"{}\")] pub struct X(Vec<u8>);", "error"),
                   ("#[sscanf(\"{:x}\")] pub struct X(f32);", "error"), ("#[sscanf(\"{:x}\")] pub struct X(#[sscanf(map = |x: f32| 1)] u8);", "error"), ("#[sscanf(\"{:x}\")] pub struct X(#[sscanf(map = |x: u8| 1.0)] f32);", "compile"), ("#[sscanf(\"{:r8}\")] pub struct X<'a>(&'a str);", "error"),
                   ("#[sscanf(\"{}\")] pub struct X<'a>(&'a str);", "compile"), ("#[sscanf(\"{}\")] pub struct X(&'static str);", "compile"), ("#[sscanf(\"{}\")] pub struct X<'a>(&'a mut str);", "error"), ("#[sscanf(\"{}\")] pub struct X<'a>(&'a u8);", "error"),
                   ("#[sscanf(\"{}\")] pub struct X<'a>(&'a String);", "error"), ("#[sscanf(\"{}\")] pub struct X<'a>(Cow<'a, str>);", "compile"), ("#[sscanf(\"{}\")] pub struct X<'a>(&'a [u8]);", "error"), ("#[sscanf(\"{}\")] pub struct X(str);", "error"), ("#[sscanf(\"{}\")] pub struct X([u8; 2]);", "error"), ("#[sscanf(\"{}\")] pub struct X((u8, u8));", "error"),
                   ("#[sscanf(\"{:/a/}\")] pub struct X<T>(T) where T: ::std::str::FromStr + 'static, <T as ::std::str::FromStr>::Err: ::std::error::Error + 'static;", "compile"), ("#[sscanf(\"{}\")] pub struct X<T>(T) where T: ::std::str::FromStr + 'static, <T as ::std::str::FromStr>::Err: ::std::error::Error + 'static;", "error"),
                   ("#[sscanf(\"x\")] pub struct X<T: ::std::default::Default>(#[sscanf(default)] T);", "compile"), ("#[sscanf(\"x\")] pub struct X<const N: usize>(#[sscanf(default = [0; N])] [u8; N]);", "compile")]:
        F.item(src, e)
    # many fields and variants: the mistake is far behind
    for k in (9, 33, 65, 129, 257):
        for named in (True, False):
            nm = [("f%d" if named else "%d") % i for i in range(k)]
            def body(repl={}):
                return ("{ %s }" if named else "(%s)") % ", ".join(repl.get(i, "") + ("%s: " % nm[i] if named else "") + "u8" for i in range(k))
            fmt = "".join("{%s}," % x for x in nm[::-1])
            for i, (f, b, e) in enumerate([(fmt, body(), "compile"), ("{}," * k, body(), "compile"), (fmt + "{}", body(), "error"), (fmt + "{%s}" % nm[-1], body(), "error"), (fmt + "{%s}" % nm[0], body(), "error"), (fmt + "{nope}", body(), "error"),
                                   (fmt + "{%d}" % k, body(), "error"), ("{}," * (k - 1), body(), "error"), ("{}," * (k + 1), body(), "error"), (fmt, body({k - 1: "#[sscanf(default)] "}), "error"), (fmt, body({k - 1: "#[sscanf(skip)] "}), "error"),
                                   (fmt, body({k - 1: "#[sscanf(from = u8, map = |x: u8| x)] "}), "error"), (fmt.replace("{%s}" % nm[k - 1], ""), body({k - 1: "#[sscanf(default)] "}), "compile"), (fmt.replace("{%s}" % nm[k // 2], ""), body({k // 2: "#[sscanf(default = 5)] "}), "compile")] +
                                  [(fmt.replace("{%s}," % nm[j], ""), body(), "error") for j in sorted({0, k // 2, k - 1, 8, 32, 64, 128, 256}) if j < k]):
                F.item("#[sscanf(%s)] pub struct X %s%s" % (S.rust_str(f, False), b, "" if named else ";"), e)
                if (i + k) % 2:
                    F.item("pub enum X { #[sscanf(\"q\")] Q, #[sscanf(format = %s)] A %s }" % (S.rust_str(f, False), b), e)
        vs = ["#[sscanf(\"v%d\")] V%d" % (i, i) for i in range(k)]
        for v, e in [("V", "compile"), ("#[sscanf(skip)] V", "compile"), ("#[sscanf(\"{}\")] V(u8)", "compile"), ("#[sscanf(\"{}\")] V", "error"), ("#[sscanf(\"{\")] V", "error"), ("#[sscanf(\"{}\")] V(u8, u8)", "error"), ("#[sscanf(default)] V", "error"), ("#[sscanf(transparent)] V", "error"), ("#[sscanf(skip)] #[sscanf(\"v\")] V", "error"),
                     ("#[sscanf(\"{}\")] V(NoTrait)", "error"), ("#[sscanf(\"{}\")] V(#[sscanf(default)] u8)", "error")]:
            F.item("pub enum X { %s, %s }" % (", ".join(vs), v), e)
            F.item("#[sscanf(autogen)] pub enum X { %s, %s }" % (", ".join("W%d" % i for i in range(k)), v), e)
        F.item("#[sscanf(autogen)] pub enum X { %s, V(u8) }" % ", ".join("W%d" % i for i in range(k)), "error")
        F.item("pub enum X { %s }" % ", ".join("#[sscanf(skip)] W%d" % i for i in range(k)), "error")
    for o in BAD_OPT:
        n += 1
        F.item("#[sscanf(format = %s)] pub struct X { a: u8 }" % S.rust_str("{a:" + o + "}", False), "error")
        F.item("pub enum X { #[sscanf(%s)] A(u8) }" % S.rust_str("<{:" + o + "}>", True if n % 2 and '"' not in o else False), "error")
    for r in BAD_RE:
        n += 1
        F.item("#[sscanf(format = %s)] pub struct X { a: u8 }" % S.rust_str("{a:/" + r + "/}", n % 2 == 0), "error")
        F.item("pub enum X { A, #[sscanf(format_unescaped = %s)] B(u8) }" % S.rust_str("{:/" + r + "/}", n % 2 == 1), "error")
    return F.ws

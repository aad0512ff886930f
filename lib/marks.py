"""Where the errors of malformed calls and items point: every malformed part, at every kind of position (C25).

A witness is written with the parts an error has to mark between « and »; parts of a format string between ⟦ and ⟧ (marked in the literal on
nightly, underlined in a copy of the literal on stable)."""
import re
import unicodedata

import engine as E
import rejects as J

ANCHOR = "sscanf_macro/src/str_lit.rs StrLitSlice::{slice,span,error}; callers in format_string.rs, placeholder.rs, format_option.rs, lib.rs, ty.rs, derive.rs; attribute.rs; utils.rs FullSpan"


def width(s):
    """columns a terminal shows the text with"""
    w = 0
    for c in s:
        if unicodedata.combining(c) or c in "\u200b\u200d":
            continue
        w += 2 if unicodedata.east_asian_width(c) in "WF" else 1
    return w


def strip(text):
    """-> text without marks, list of (kind, start, end)"""
    out, marks, open_ = "", [], {}
    for c in text:
        if c in "«⟦":
            open_[c] = len(out)
        elif c == "»":
            marks.append(("span", open_.pop("«"), len(out)))
        elif c == "⟧":
            marks.append(("lit", open_.pop("⟦"), len(out)))
        else:
            out += c
    assert not open_, text
    return out, marks


def pos(src, line, col):
    """offset of a 1-based line and column of src"""
    at = 0
    for _ in range(line - 1):
        at = src.index("\n", at) + 1
    return at + col - 1


def literals(src):
    """ranges of the string literals of src"""
    return [m.span() for m in re.finditer(r'r(#*)".*?"\1|"(?:\\.|[^"\\])*"', src, re.S)]


def judge(marks, profile, loose=False):
    def run(w, diags):
        src = w.src
        want = []
        for kind, a, b in marks:
            if kind == "lit" and profile == "stable":
                la, lb = next((x, y) for x, y in literals(src) if x <= a and b <= y)
                want.append((la, lb, a - la, b - la))
            else:
                want.append((a, b, None, None))
        bad, hit = [], set()
        for d in diags:
            got = [(pos(src, l1 - d.start + 1, c1), pos(src, l2 - d.start + 1, c2)) for l1, c1, l2, c2 in d.primary if l1 >= d.start]
            first = (d.message or "").split("\n")[0]
            ok = False
            for i, (a, b, u, v) in enumerate(want):
                if (a, b) not in got:
                    continue
                if u is None:
                    ok = True
                elif d.code is not None:
                    ok = True      # an error of the compiler itself about the code spanned with the literal
                else:
                    # the last two lines: a copy of the literal, and a line that underlines the part
                    literal = src[a:b]
                    lines = d.message.rstrip().split("\n")
                    if len(lines) > 1 and lines[-2].endswith(literal):
                        margin = width(lines[-2][:-len(literal)])
                        ok = lines[-1] == " " * (margin + width(literal[:u])) + "^" * width(literal[u:v])
                if ok:
                    hit.add(i)
                    break
            if not ok and not (loose and d.code is not None and hit):
                shown = [src[a:b] for a, b in got]
                bad.append("the error `%s` marks %s%s instead of %s" % (
                    first[:120], " and ".join("`%s`" % s for s in shown) or "nothing of the invocation",
                    " with the text %r" % "\n".join(d.message.split("\n")[1:])[-200:] if any(u is not None for _, _, u, _ in want) else "",
                    " or ".join("`%s`" % (src[a:b] if u is None else src[a:b][u:v] + "` of `" + src[a:b]) for a, b, u, v in want)))
        for i, (a, b, u, v) in enumerate(want):
            if i not in hit and not bad:
                bad.append("no error marks `%s`" % (src[a:b] if u is None else src[a:b][u:v]))
        return bad
    return run


# what stands in front of and behind the malformed part, inside the literal; (in an ordinary literal, in a raw one, ends with a placeholder)
BEFORE = ["", "a", "é", "世界", "a\u0301b", "😀 ", "\\n", "\\u{e9}\\x41", "\\\"q\\\"", "\\\\", "{{}}", "{{é}}", "x{u8}y", "{u8:#x}{{", "{String:/é\\\\d+/}-", "\\\n      z", "{str}: ", "[(.*)]"]
BEFORE_RAW = ["", "a", "é", "世界", "a\u0301b", "😀 ", "\\n", "\\d+\\.", "{{}}", "{{é}}", "x{u8}y", "{u8:#x}{{", "{String:/é\\d+/}-", "{str}: ", "[(.*)]"]
AFTER = ["", "b", "é", " 世", "{{", "}}", "{u8}", " - {String:/x+/}", "\t"]
PLAIN_AFTER = ["", "b", "é 世", " x.y"]

# a malformed part of a format string; `…⟧` at the end: marked up to the end of the literal's text
TEXT = ["⟦}⟧", "⟦}⟧ ", "a⟦}⟧b", "{u8}⟦}⟧", "}}⟦}⟧", "{{⟦}⟧"]
TEXT = [t for t in TEXT if not t.endswith("}⟧") or t in ("⟦}⟧",) or True]
OPEN = ["⟦{…⟧", "⟦{u8…⟧", "⟦{é…⟧", "⟦{u8:…⟧", "⟦{u8:x…⟧", "⟦{u8:#…⟧", "⟦{:r1…⟧", "{u8:⟦/a…⟧", "{世:⟦/é…⟧", "⟦{u8:/a/…⟧"]
OPTS = [o for o in J.BAD_OPT if o and not o.startswith((":", "/")) and "\\" not in o and '"' not in o]
REGEX = ["[", "(", ")", "*", "(a)", "(?P<é>a)", "é(b)", "(?:(世))", "a{2,1}", "(?=a)", "a|(b)", "[é", "(?z)"]
IDENT = ["u8 u8", "-1", "!", "&mut str", "&&str", "5.0", "u8?", "世 界", "é é", " u8 u8", "u8 u8 ", "?", "Vec<u8", "a = u8", "&String", "u8 as u16", "/a/", "/é/", "..", "u8;", "<u8", "99", "7", "*", "#", "$"]
SPELL = [("sscanf", "s, "), ("sscanf_unescaped", "s, "), ("sscanf_get_regex", "")]


def cases(profile, thorough=False):
    F = J.Fam(ANCHOR)
    n = 0

    def add(src, loose=False):
        # the witness is moved into a module; all marks stay marks
        nonlocal n
        n += 1
        uid = "k%d" % n
        text, marks = strip("pub mod m_%s { use super::*; %s }\n" % (uid, src))
        if "\n" in text.rstrip("\n") and profile == "stable":
            return          # an underlined copy of a literal of several lines has no line to underline
        w = E.W(uid, text, strip(src)[0], expect="error", anchor=ANCHOR)
        w.marks = judge(marks, profile, loose)
        F.ws.append(w)

    def quote(body, raw, j=0):
        if raw:
            h = "#" * (j % 3)
            if '"' in body and not h:
                h = "#"
            return "r%s\"%s\"%s" % (h, body, h)
        return '"%s"' % body

    def wrap(lit, types=(), which=0, pre=""):
        m, s = SPELL[which % 3]
        return "%s pub fn f(s: &str) { let _ = ::sscanf::%s!(%s%s%s); }" % (pre, m, s, lit, "".join(", " + t for t in types))

    def item(lit, which, body="pub u8"):
        return ["#[derive(::sscanf::FromScanf)] #[sscanf(%s)] pub struct X(%s);", "#[derive(::sscanf::FromScanf)] #[sscanf(format = %s)] pub struct X(%s);",
                "#[derive(::sscanf::FromScanf)] pub enum X { #[sscanf(\"q\")] Q, #[sscanf(%s)] A(%s) }", "#[derive(::sscanf::FromScanf)] #[sscanf(autogen)] pub enum X { Q, #[sscanf(format_unescaped = %s)] A(%s) }"][which % 4] % (lit, body.replace("pub ", "") if which % 4 > 1 else body)
    k = 0
    for kind, pieces in (("text", TEXT), ("open", OPEN), ("opt", ["{u8:⟦%s⟧}" % o for o in OPTS] + ["{:⟦%s⟧}" % o for o in OPTS[::3]] + ["{u8:⟦}⟧", "{:⟦}⟧", "{é::世:⟦}⟧"]),
                         ("regex", ["{String:⟦/%s/⟧}" % r for r in REGEX] + ["{:⟦/%s/⟧}" % r for r in REGEX[::2]] + ["{u8:/a/⟦x⟧}", "{u8:/é/⟦世⟧}", "{:/a/⟦ ⟧}", "{u8:/a/⟦/⟧}"])):
        for i, p in enumerate(pieces):
            for raw in (False, True):
                bs = BEFORE_RAW if raw else BEFORE
                for b in bs if thorough else [bs[(i * 5 + d * 7 + raw) % len(bs)] for d in range(3 if kind != "opt" else 2)]:
                    k += 1
                    a = (PLAIN_AFTER if kind == "open" else AFTER)[k % (4 if kind == "open" else 9)]
                    if kind == "text" and (a.startswith("}") or b.endswith("}")):
                        a, b = "", "é"
                    if a.startswith("}") or kind == "open" and "/" in p and "/" in a:
                        a = "z"
                    if p == "⟦{u8:/a/…⟧":
                        a = ""
                    if "{u8:/a/…" in p and a or p == "⟦{…⟧" and b.endswith("{"):
                        b = ""
                    if a.startswith("{{") and p.endswith("}⟧") or b.endswith("{{") and p.startswith(("⟦{", "{")):
                        b = "é"
                    piece = p[:-2] + a + "⟧" if p.endswith("…⟧") else p + a
                    body = b + piece
                    if not raw and "\\\\d" in b:
                        body = body
                    lit = quote(body, raw, k)
                    if kind == "text" and "{u8}" in body and k % 5 == 4:
                        pass
                    if k % 5 == 4 and "{u8" not in b and "{str" not in b and "{String" not in b and "{u8}" not in body:
                        add(item(lit, k // 5))
                    else:
                        add(wrap(lit, (), k))
    # errors found after the whole format was read: all of them are reported
    for i, p in enumerate(IDENT):
        for raw in (False, True):
            bs = BEFORE_RAW if raw else BEFORE
            for b in bs if thorough else [bs[(i * 3 + d * 5 + raw) % len(bs)] for d in range(3)]:
                k += 1
                if b.endswith("{{"):
                    b = "é"
                a = AFTER[k % 9].replace("}}", "-").replace("{{", "-")
                add(wrap(quote(b + "{⟦%s⟧}" % p + a, raw, k), (), k))
                if p not in ("/a/", "/é/") and k % 2:
                    add(wrap(quote(b + "{⟦%s⟧:/x/}" % p + a + "{⟦-2⟧}", raw, k), (), k))
    for b in BEFORE[:6] + BEFORE[8:]:
        k += 1
        q = "" if b.endswith("{{") else b
        for t in (["f32", "String", "bool", "std::num::NonZeroU8"] if thorough else [["f32", "String", "bool", "std::num::NonZeroU8"][k % 4]]):
            for o in ["x", "#x", "r7", "b#"][:4 if thorough else 2]:
                add(wrap('"%s{⟦%s⟧:%s}é"' % (q, t, o), (), k))
                add(wrap('"%s{:%s}é"' % (q, o), ("«%s»" % t,), k))
                add(wrap('"%s{0}{1:%s}é"' % (q, o), ("u8", "«%s»" % t), k + 1))
        add(wrap('"%s{u8:⟦#⟧}"' % q, (), k))
        add(wrap('"%s⟦{}⟧é⟦{:x}⟧"' % q, (), k))
        add(wrap('"%s{}é⟦{:x}⟧{u8}⟦{}⟧"' % q, ("u8",), k))
        add(wrap('"%s{⟦0⟧}é{⟦1⟧:x}{u8}"' % q, (), k))
        add(wrap('"%s{}é{⟦1⟧:x}{u8}"' % q, ("u8",), k))
        add(wrap('"%s"' % q, ("«u8»",), k))
        add(wrap('"%s{1}"' % q, ("«Vec<u8>»", "u8", "«&str»", "«std::string::String»"), k))
        add(wrap('"%s{}"' % q, ("u8", "«deep::Gen<u8>»"), k))
        add(wrap('"%s{}{u8}"' % q, ("«&String»",), k))
        add(wrap('"%s{}{u8}"' % q, ("«&mut str»"[:0] or "«&u8»",), k))
    # far behind
    for i, b in enumerate(["x" * 300, "é" * 200, "世{u8}" * 70, "{u8}," * 260, "😀{{" * 140, " " * 70000]):
        for p in ("⟦}⟧", "⟦{u8…⟧", "{u8:⟦rx⟧}", "{u8:/a/⟦x⟧}", "{:⟦/(a)/⟧}", "{u8:⟦#⟧}", "⟦{}⟧", "{⟦0⟧}", "{⟦u8 u8⟧}", "{⟦f32⟧:x}", "⟦{}⟧{⟦7⟧}⟦{:x}⟧"):
            for raw in (False, True):
                if "8}" in b and p == "⟦}⟧" and i % 2:
                    continue
                k += 1
                add(wrap(quote(b + (p[:-2] + "é⟧" if p.endswith("…⟧") else p + "é"), raw, k), (), k))
        f = "x" * len(b.encode())
        add("#[derive(::sscanf::FromScanf)] #[sscanf(\"%s{a}{⟦c⟧}{b}\")] pub struct X { a: u8, b: u8 }" % f)
        add("#[derive(::sscanf::FromScanf)] #[sscanf(\"%s{a}⟦{b}⟧⟦{b:x}⟧\")] pub struct X { a: u8, b: u8 }" % f)
        add("#[derive(::sscanf::FromScanf)] #[sscanf(autogen)] pub enum X { Q, #[sscanf(\"%s{⟦c⟧}{a}\")] A { a: u8 } }" % f)
    # types without the needed traits: the errors are the compiler's, about code spanned with the type
    for i, t in enumerate(["NoTrait", "OnlyFromStr", "Vec<NoTrait>", "::std::vec::Vec<u8>", "super::NoTrait"]):
        for j, b in enumerate(["", "é世", "{u8}", "\\n"]):
            k += 1
            add(wrap('"%s{⟦%s⟧}x"' % (b, t), (), k), loose=True)
            add(wrap('"%s{}x"' % b, ("«%s»" % t,), k), loose=True)
            add("#[derive(::sscanf::FromScanf)] #[sscanf(\"%s{}\")] pub struct X(%s«%s»);" % (b.replace("{u8}", "{}"), "u8, " if "{u8}" in b else "", t), loose=True)
    # fields
    for i, b in enumerate(BEFORE[:6] + BEFORE[8:12]):
        for j, tpl in enumerate(["#[derive(::sscanf::FromScanf)] #[sscanf(%s)] pub struct X { a: u8, b: u8 }", "#[derive(::sscanf::FromScanf)] pub enum X { #[sscanf(\"q\")] Q, #[sscanf(format = %s)] A { a: u8, b: u8 } }"]):
            if not thorough and (i + j) % 2:
                continue
            for f in ["{a}{b}{⟦c⟧}", "{⟦zz⟧}{a}{b:x}", "{a}{b}{⟦é⟧:/x/}{⟦A⟧}", "{⟦2⟧}{a}{b}", "{⟦a ⟧}{a}{b}", "{⟦ a⟧}{b}{a}", "⟦{a}⟧⟦{a}⟧{b}", "⟦{a:x}⟧{b}é⟦{0}⟧", "⟦{1}⟧⟦{b:/x/}⟧{a}", "{a}{b}⟦{}⟧", "{}{}é⟦{:x}⟧⟦{}⟧", "{a}{}⟦{}⟧"]:
                add(tpl % ('"' + b + f + '"'))
            add((tpl % ('"' + b + '{a}"')).replace("b: u8", "«b»: u8"))
            add((tpl % ('"' + b + '"')).replace("b: u8", "«b»: u8").replace("a: u8", "«a»: u8"))
            add((tpl % ('"' + b + '{a}⟦{b}⟧"')).replace("b: u8", "#[sscanf(«default»)] b: u8"))
            add((tpl % ('"' + b + '{b}⟦{a:x}⟧"')).replace("a: u8", "#[sscanf(«default = 5»)] a: u8"))
            add((tpl % ('"' + b + '{a:x}{b}"')).replace("a: u8", "a: «f32»"))
            add((tpl % ('"' + b + '{a:x}{b}"')).replace("a: u8", "#[sscanf(map = |x: «f32»| 1)] a: u8"))
            add((tpl % ('"' + b + '{a:#b}{b}"')).replace("a: u8", "#[sscanf(from = «bool»)] a: u8"))
    add('#[derive(::sscanf::FromScanf)] #[sscanf("{}")] pub struct X(u8, «Vec<u8>», #[sscanf(default)] u8, «u8»);'[:0] or '#[derive(::sscanf::FromScanf)] #[sscanf("{}")] pub struct X(u8, #[sscanf(default)] u8, «u16»);')
    # attributes
    S, V, N, D = ("#[derive(::sscanf::FromScanf)] #[sscanf(%s)] pub struct X(u8);", "#[derive(::sscanf::FromScanf)] pub enum X { #[sscanf(\"q\")] Q, #[sscanf(%s)] A(u8) }",
                  "#[derive(::sscanf::FromScanf)] #[sscanf(%s)] pub enum X { A, B }", "#[derive(::sscanf::FromScanf)] #[sscanf(\"{}\")] pub struct X(u8, #[sscanf(%s)] u8);")
    C = "#[derive(::sscanf::FromScanf)] #[sscanf(\"{} {}\")] pub struct X(u8, #[sscanf(%s)] u8);"
    for t, items in ((S, ["«formatt» = \"{}\"", "«skip»", "«autogen»", "«default»", "«nope»", "transparent = «5»", "format «=»", "«\"{}\"», «transparent»", "«format = \"{}\"», «format_unescaped = \"{}\"»", "«format = \"{}\"», «format = \"{}\"»", "«format»", "format = «5»", "format = «b\"{}\"»"]),
                     (V, ["«formatt» = \"{}\"", "«autogen»", "«map» = |x: u8| x", "skip = «5»", "«skip», «transparent»", "«skip», «skip»", "«transparent», «\"{}\"», «skip»", "transparent = «true»", "format «=»"]),
                     (N, ["«skip»", "«format» = \"x\"", "«\"x\"»", "«r\"x\"»", "autogen = «5»", "«autogen», «autogenerate»", "«autogen», «autogen»", "autogen «=»", "«autogenn»"]),
                     (D, ["«format» = \"x\"", "«\"x\"»", "default «=»", "«default», «default»", "«defaul»", "«skip»"]),
                     (C, ["map = «5»", "map = «super::conv»", "map = |«x»| 5", "map = «||» 5", "map = |x: u8, «y: u8»| 5", "filter_map = |«_»| ::std::option::Option::None", "«map = |x: u8| x», «from = u8»", "from = «5»", "try_from «=»", "«map»", "«from»", "«try_from»", "«filter_map»", "map = «\"x\"»", "from = «&u8»", "«into» = u8", "map = «{ |x: u8| x }»"])):
        for a in items:
            add(t % a, loose=True)
    for src in ["#[derive(::sscanf::FromScanf)] pub enum «X» {}", "#[derive(::sscanf::FromScanf)] pub enum «X» { A, B(u8) }", "#[derive(::sscanf::FromScanf)] pub struct «X»(u8);", "#[derive(::sscanf::FromScanf)] pub struct «X» { a: u8, b: u8 }", "#[derive(::sscanf::FromScanf)] pub union «X» { a: u8 }",
                "#[derive(::sscanf::FromScanf)] #[sscanf(«transparent»)] pub struct X(u8, u8);", "#[derive(::sscanf::FromScanf)] #[sscanf(«transparent»)] pub struct X {}", "#[derive(::sscanf::FromScanf)] pub enum X { #[sscanf(«transparent»)] A(u8, u8), #[sscanf(\"x\")] B }",
                "#[derive(::sscanf::FromScanf)] #[sscanf(autogen)] pub enum X { A, B«(u8)» }", "#[derive(::sscanf::FromScanf)] #[sscanf(autogen)] pub enum X { A, B «{ a: u8 }» }", "#[derive(::sscanf::FromScanf)] #[sscanf(autogen)] pub enum «X» { #[sscanf(skip)] A }",
                "#[derive(::sscanf::FromScanf)] #[«sscanf»] pub struct X(u8);", "#[derive(::sscanf::FromScanf)] #[«sscanf = \"{}\"»] pub struct X(u8);"]:
        add(src)
    # arguments
    for m, s in SPELL:
        if s:
            add("pub fn f(s: &str) { let _ = ::sscanf::%s!(«s»); }" % m)
            add("pub fn f(s: &str) { let _ = ::sscanf::%s!(s«,»); }" % m)
            add("pub fn f(s: &str) { let _ = ::sscanf::%s!(«&s.to_string()[..]»); }" % m)
            add("pub fn f(s: &str) { let _ = «::sscanf::%s!()»; }" % m)
        for bad in ["5", "FMT", "'a'", 'b"a"', '"a"u8']:
            add("pub fn f(s: &str) { let _ = ::sscanf::%s!(%s«%s»); }" % (m, s, bad))
    return F.ws

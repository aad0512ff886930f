"""Families of witness programs. Every function returns witnesses; which ones a property uses is in props/."""
import itertools

import engine as E
import spec as S
from spec import Builtin, StrTy, CowTy, RadixTy, Hand, Multi, PH, Fmt, Call, FromStrCall, GetRegex, Body, Field, Conv, Struct, Enum, Variant

META = "\\.+*?()|[]^$#&-~/<>:!=,'\"% @`;_"
U8 = Builtin("u8")


def regex_witness(g, anchor="", group=""):
    return E.W(g.uid, g.source(), g.describe(), [("w_" + g.uid, lambda p, ip, r: S.check_get_regex(p, ip, r, g))], anchor=anchor, group=group)


def fmt_witness(uid, items, ext=(), escaped=True, how="call", raw=None, lit=None, anchor="", group=""):
    """a witness for a format: how = call / regex / struct (format of a derived struct)"""
    if how == "regex" and escaped:
        return regex_witness(GetRegex(uid, Fmt(items, escaped), ext, raw=raw, lit=lit), anchor, group)
    return E.call_witness(Call(uid, Fmt(items, escaped), ext, raw=raw, lit=lit), anchor, group=group)


# ------------------------------------------------------------------------------- literals (C01)

A01 = "sscanf_macro/src/format_string.rs FormatString::new"


def special_chars(thorough):
    out = [chr(c) for c in range(0, 128)]
    pts = [0x80, 0x85, 0xA0, 0xAD, 0xB5, 0xDF, 0xE9, 0xFF, 0x130, 0x131, 0x17F, 0x1C5, 0x300, 0x345, 0x378, 0x3A3, 0x3C2, 0x3C3, 0x5D0, 0x660,
           0x6F1, 0xE33, 0x1100, 0x1E9E, 0x200B, 0x200D, 0x2028, 0x2029, 0x2126, 0x212A, 0x212B, 0x2160, 0x24B6, 0x3000, 0x4E2D,
           0xAC00, 0xD7FF, 0xE000, 0xFB00, 0xFE0F, 0xFEFF, 0xFF10, 0xFF21, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10400, 0x1D7CE, 0x1F600,
           0x1F1E6, 0x20000, 0xE0001, 0xF0000, 0x10FFFF]
    if thorough:
        r = E.rng("chars")
        pts += [p for p in (r.randrange(0x80, 0x110000) for _ in range(1500)) if not 0xD800 <= p < 0xE000]
        pts += list(range(0x80, 0x250))
    bidi = {0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069}
    return out + [chr(p) for p in sorted(set(pts)) if p not in bidi]


def literal_chars(thorough=False):
    ws = []
    for c in special_chars(thorough):
        raw = None if c not in "\0\r" else False
        items = [c, PH(U8), c, PH(StrTy(), "ext"), c + "x" + c, PH(U8), c + c]
        how = ("call", "regex")[ord(c) % 2]
        ws.append(fmt_witness("ch%x" % ord(c), items, [StrTy()], how=how, raw=raw, anchor=A01))
        if c in META or c in "{}\n\t" or thorough and ord(c) < 128:
            ws.append(fmt_witness("chn%x" % ord(c), [c, PH(U8), c], how="call" if how == "regex" else "regex", raw=False, anchor=A01))
            ws.append(fmt_witness("cho%x" % ord(c), [c], how=how, raw=raw, anchor=A01))
    return ws


def literal_pairs(thorough=False):
    """every ordered pair of special characters, in the middle of a literal"""
    ws = []
    chars = META + "{}aA0\n"
    for i, c in enumerate(chars):
        text = "".join(c + d + "Q" for d in chars)
        ws.append(fmt_witness("pair%d" % i, [text, PH(U8), text[::-1]], how=("call", "regex")[i % 2], anchor=A01))
    # every ordered pair of printable characters and line breaks; runs of one character; long texts
    every = [chr(c) for c in range(32, 127)] + ["\n", "\t", "\u00e9"]
    for i, c in enumerate(every):
        text = "".join(c + d for d in every if c not in "{}" or d not in "{}")
        ws.append(fmt_witness("two%d" % i, ["<" + text + ">", PH(U8), c * 3 + "-" + c * 5 + "," + c * 8], how=("call", "regex")[i % 2], raw=(None, False)[i % 3 == 0], anchor=A01))
    for i, t in enumerate(["ab.c" * 500, "\\d{[(.*)]}" * 200, "\u00e9\U0001F600." * 300, "." * 300, "{}" * 300]):
        ws.append(fmt_witness("long%d" % i, [t, PH(U8), t[::-1]], how=("call", "regex")[i % 2], raw=(None, False)[i // 2 % 2], anchor=A01))
    if thorough:
        # all triples, in pieces
        tri = ["".join(t) for t in itertools.product("\\.+*?()|[]^$#&-~/{}<:=", repeat=3)]
        for k in range(0, len(tri), 400):
            ws.append(fmt_witness("tri%d" % (k // 400), ["Q".join(tri[k:k + 400]), PH(U8), "z"], how=("call", "regex")[k // 400 % 2], anchor=A01))
    return ws


def runs(thorough=False):
    """runs of one character of every length to 40 and one of 300; short texts repeated"""
    ws = []
    every = [chr(c) for c in range(32, 127)] + ["\n", "\t", "\u00e9", "\u3000", "\U0001F600"]
    for i, c in enumerate(every):
        sep = "x" if c != "x" else "y"
        text = sep.join(c * k for k in range(1, 41))
        ws.append(fmt_witness("run%da" % i, [text, PH(U8), c * 300, PH(StrTy(), "ext"), c * 70], [StrTy()], how=("call", "regex")[i % 2], raw=(None, False)[i // 2 % 2], anchor=A01))
        if i % 4 == 0 or thorough:
            body = Body([Field("v", U8), Field("w", StrTy())], Fmt([text, PH(how="auto"), c * 300, PH(how="auto"), c * 65]))
            ws.append(E.call_witness(FromStrCall("run%db" % i, Struct("Ru", body) if i % 8 else Enum("Ru", [Variant("A", body), Variant("B", Body([], Fmt([c * 130]), "unit"))])), A01))
    for i, t in enumerate(["ab", " ,", "--+", ". ", "\n ", "\\n", "a{}", "}{", "()", "[a]", "\u00e9e", "0x", "$^", "  \t", "# ", "//", "::", "..."]):
        ws.append(fmt_witness("rep%d" % i, [t * 90, PH(U8), t * 33, PH(U8), t[::-1] * 64 + t[0]], how=("regex", "call")[i % 2], raw=(None, False)[i // 2 % 2], anchor=A01))
    return ws


def braces():
    """runs of doubled braces around and between placeholders"""
    ws = []
    n = 0
    for before in ("", "{", "}", "{}", "}{", "{{", "}}", "{}{}", "a{", "}a"):
        for after in ("", "{", "}", "{}", "}{"):
            for mid in ("", "{", "}"):
                n += 1
                ws.append(fmt_witness("br%d" % n, [before, PH(U8), mid, PH(StrTy()), after], how=("call", "regex")[n % 2], raw=(None, False)[n % 3 == 0], anchor=A01))
    return ws


def escape_literals():
    """spellings of escapes in ordinary string literals: (source, text)"""
    return [('"a\\nb{u8}\\tc"', ["a\nb", PH(U8), "\tc"]), ('"\\r{u8}\\0"', ["\r", PH(U8), "\0"]),
            ('"\\\\{u8}\\\\\\\\"', ["\\", PH(U8), "\\\\"]), ('"\\"{u8}\\\'"', ['"', PH(U8), "'"]),
            ('"\\x41\\x7b{{u8}}\\x2e{u8}\\x7e"', None), ('"\\u{1F600}{u8}\\u{41}\\u{00_e9}"', None),
            ('"\\x2e{u8}\\x5c\\x28"', [".", PH(U8), "\\("]), ('"\\u{2e}{u8}\\u{1F600}"', [".", PH(U8), "\U0001F600"]),
            ('"a\\\n      b{u8}\\\n\n   c"', ["ab", PH(U8), "c"]), ('"a\nb{u8}c"', ["a\nb", PH(U8), "c"]),
            ('"\\n"', ["\n"]), ('"\\\\n{u8}"', ["\\n", PH(U8)]), ('"\\\\\\n{u8}"', ["\\\n", PH(U8)]),
            ('"{u8}\\u{a0}\\x20"', [PH(U8), "\u00a0 "]), ('r"a\\n{u8}\\"', ["a\\n", PH(U8), "\\"]),
            ('r#"a"{u8}"#', ['a"', PH(U8)]), ('r###"a"##{u8}"##"###', ['a"##', PH(U8), '"##']),
            ('""', []), ('r""', []), ('r#""#', []), ('"\\\n   "', []), ('"{u8}\\\n   "', [PH(U8)]), ('"\\\n  {u8}"', [PH(U8)]),
            ('"{{\\n}}{u8}\\t{{"', ["{\n}", PH(U8), "\t{"]), ('"\\u{7A}{u8}"', ["z", PH(U8)])]


def escapes():
    ws = []
    for i, (lit, items) in enumerate(escape_literals()):
        if items is None:
            continue
        for how in ("call", "regex"):
            ws.append(fmt_witness("esc%d%s" % (i, how[0]), items or [""], how=how, lit=lit, anchor="sscanf_macro/src/str_lit.rs, format_string.rs unescape"))
    return ws


# pieces of ordinary string literals and what they stand for
SPELLED = [("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\0", "\0"), ("\\\\", "\\"), ('\\"', '"'), ("\\'", "'"), ("\\x41", "A"), ("\\x2E", "."), ("\\x5c", "\\"), ("\\u{2a}", "*"), ("\\u{e9}", "\u00e9"),
           ("\\u{01_F6_00_}", "\U0001F600"), ("\\\n \t ", ""), ("\\\n\n", ""), ("a", "a"), ("0", "0"), ("n", "n"), ("\t", "\t"), ("\n", "\n"), ("'", "'"), ("$", "$"), ("{{", "{"), ("}}", "}"), ("\u00e9", "\u00e9"), (" ", " "), None]


def spelled(order=2, step=9):
    """every word of `order` pieces of an ordinary string literal"""
    ws = []
    seq = debruijn(len(SPELLED), order)
    for n, j in enumerate(range(0, len(seq), step)):
        toks = [SPELLED[seq[(j + d) % len(seq)]] for d in range(step + order - 1)]
        items, lit, eat = [], [], False
        for t in toks:
            if t is None:
                items.append(PH(U8))
                lit.append("{u8}")
            else:
                # a line continuation also swallows the blanks after it
                items += [t[1]] if t[1] and not (eat and t[0] in (" ", "\t", "\n")) else []
                lit.append(t[0])
            eat = t is not None and (t[1] == "" or eat and t[0] in (" ", "\t", "\n"))
        merged = []
        for x in items:
            if isinstance(x, str) and merged and isinstance(merged[-1], str):
                merged[-1] += x
            else:
                merged.append(x)
        ws.append(fmt_witness("sp%d_%d" % (order, n), merged or [""], how=("regex", "call")[n % 8 == 3], lit='"%s"' % "".join(lit), anchor="sscanf_macro/src/str_lit.rs, format_string.rs unescape"))
    return ws


# pieces of a custom regex in an ordinary string literal and the regex they stand for
SPELLED_REGEX = [("\\n", "\\n"), ("\\t", "\\t"), ("\\0", "\\x00"), ("\\x41", "\\x41"), ("\\u{e9}", "\\u{e9}"), ('\\"', '"'), ("\\'", "'"), ("\\\n \t", ""), ("\\\\d", "\\d"), ("\\\\\\\\", "\\\\"),
                 ("\\\\/", "/"), ("\\\\.", "\\."), ("[\\\\]]", "[\\]]"), ("\\\\\\n", "\\\\n"), ("a", "a"), ("\n", "\n"), ("}", "}"), (":", ":"), ("\u00e9", "\u00e9"), ("0", "0")]


def spelled_regexes(order=2, per=9):
    """every word of `order` pieces as a custom regex of an ordinary string literal"""
    ws = []
    words = list(itertools.product(SPELLED_REGEX, repeat=order))
    for n in range(0, len(words), per):
        items, lit = [], []
        for w in words[n:n + per]:
            eat, meaning = False, ""
            for a, b in w:
                if not (eat and a in (" ", "\n", "\t")):
                    meaning += b
                eat = b == "" or eat and a in (" ", "\n", "\t")
            items += [PH(Builtin("String"), custom=meaning), "-"]
            lit.append("{String:/%s/}-" % "".join(a for a, _ in w))
        ws.append(fmt_witness("sr%d_%d" % (order, n // per), items, how=("regex", "call")[n // per % 8 == 3], lit='"%s"' % "".join(lit), anchor=A16))
    return ws


UNESCAPED = ["a+", "[a-z]+", "\\d{2,3}", "(?:x|y)", "x|y", "a.b", "\\.", "^a$", "\\{", "\\}", "[{}]", "a{1,2}?", "(?i:q)", "\\s*", "\\x{41}",
             "\\pL", "[^,]*", "a|b|", "|", "$", "^", "(?s).", "(?m)^x$", "\\\\", "\\n", "\\bq\\b", "é?", "(?:a{2}){3}", "a??", ""]


def unit_of(t):
    """the same regex as one unit: a top-level alternation would make the placeholders beside it optional"""
    return "(?:%s)" % t if "|" in t else t


def unescaped(thorough=False):
    ws = []
    for i, t in enumerate(UNESCAPED):
        t2 = unit_of(UNESCAPED[(i * 7 + 3) % len(UNESCAPED)])
        ws.append(fmt_witness("un%d" % i, [t], escaped=False, anchor=A01))
        ws.append(fmt_witness("unp%d" % i, [unit_of(t), PH(U8), t2, PH(StrTy(), "ext")], [StrTy()], escaped=False, raw=(None, False)[i % 2], anchor=A01))
    return ws


def derive_formats():
    """the same literal rules in derive attributes"""
    ws = []
    texts = ["", ".", "a.b", "{}", "{{", "\\", "(a|b)", "^$", "[x]", "a\nb", "*+?", "é.", "#x y", "&&--~~", '"', "'"]
    for i, t in enumerate(texts):
        u = texts[(i * 5 + 2) % len(texts)]
        st = Struct("St", Body([Field("a", U8), Field("b", StrTy())], Fmt([t, PH(how=("field", "a")), u, PH(how=("field", "b")), t])))
        ws.append(E.call_witness(FromStrCall("ds%d" % i, st), A01))
        en = Enum("En", [Variant("A", Body([Field(None, U8)], Fmt([t, PH(how="auto"), u]), "tuple")), Variant("B", Body([], Fmt([t + "q"]), "unit"))])
        ws.append(E.call_witness(Call("de%d" % i, Fmt(["<", PH(en), ">" + t])), A01))
    for i, t in enumerate(["a+", "x|y", "\\.", "[{}]", "\\d{2}", "(?:a|b)*", ""]):
        t = unit_of(t)
        st = Struct("St", Body([Field("a", U8)], Fmt([t, PH(how="auto"), "-" + t], escaped=False)))
        ws.append(E.call_witness(FromStrCall("du%d" % i, st), A01))
        ws.append(E.call_witness(Call("dv%d" % i, Fmt(["<", PH(st), ">"])), A01))
        en = Enum("En", [Variant("A", Body([], Fmt([t + "1"], escaped=False), "unit")), Variant("B", Body([Field("v", U8)], Fmt(["b.", PH(how="auto")])))])
        ws.append(E.call_witness(FromStrCall("dw%d" % i, en), A01))
    # shorthand: "..." escaped, r"..." unescaped
    for i, t in enumerate(["a.b", "(x|y)", "[a]", "\\d"]):
        for rawlit in (False, True):
            if rawlit and t == "(x|y)":
                t = "(?:x|y)"
            f = Fmt([t, PH(how="auto")], escaped=not rawlit)
            st = Struct("St", Body([Field("a", U8)], f, attr="#[sscanf(%s)]" % S.rust_str(f.text(), None if rawlit else False)))
            ws.append(E.call_witness(FromStrCall("sh%d%s" % (i, "r" if rawlit else "n"), st), "sscanf_macro/src/attribute/struct.rs"))
    return ws


# ------------------------------------------------------------------------------- anchoring (C02)

A02 = "sscanf_macro/src/lib.rs generate_regex; src/from_scanf.rs FromScanf::from_str"


def anchoring(thorough=False):
    ws = []
    alts = ["a|b", "a|b|c", "|a", "a|", "a|b|", "^a|b$", "(?:a|b)", "a||b", "(?m)a", "(?m)^a|b$", "(?i)a|b", "(?s).|x", "(?m:a$)", "(?-u:a)|b", "(?U)a+|b", "\\z|a", "\\A|a", ".*", ""]
    for i, t in enumerate(alts):
        ws.append(fmt_witness("an%d" % i, [t], escaped=False, anchor=A02))
        for nm, items in (("anp", [PH(U8), t]), ("anq", [t, PH(U8)])):
            c = Call("%s%d" % (nm, i), Fmt(items, False))
            c.partial = True   # the placeholder may not take part in a match: using such a format is the caller's error
            ws.append(E.call_witness(c, A02))
        st = Struct("St", Body([], Fmt([t], escaped=False), "unit"))
        ws.append(E.call_witness(FromStrCall("anf%d" % i, st), A02))
        ws.append(E.call_witness(Call("ang%d" % i, Fmt([PH(st)])), A02))
        ws.append(E.call_witness(Call("anu%d" % i, Fmt([PH(st), "x"], escaped=False)), A02))
        st2 = Struct("St", Body([Field("a", U8)], Fmt([PH(how="auto"), t], escaped=False)))
        c = FromStrCall("anh%d" % i, st2)
        c.partial = True
        ws.append(E.call_witness(c, A02))
        en = Enum("En", [Variant("A", Body([], Fmt([t], escaped=False), "unit")), Variant("B", Body([], Fmt(["x"]), "unit"))])
        ws.append(E.call_witness(FromStrCall("ane%d" % i, en), A02))
        m = Multi("Mu", ["(?:%s)" % t.replace("(?m)", "(?m)"), "q*"], "|" if i % 2 else ":")
        ws.append(E.call_witness(FromStrCall("anm%d" % i, m), A02))
    for i, t in enumerate(["", "a", "$", "^", "\n", "a\nb", "|", "a|b", "x$\n", "{", "\\"]):
        ws.append(fmt_witness("ae%d" % i, [t], anchor=A02))
        ws.append(fmt_witness("aer%d" % i, [t], how="regex", anchor=A02))
        ws.append(fmt_witness("aep%d" % i, [t, PH(Builtin("bool")), t], how="call", anchor=A02))
    for i, ty in enumerate(E.BUILTINS):
        ws.append(fmt_witness("at%d" % i, [PH(Builtin(ty))], how=("call", "regex")[i % 2], anchor=A02))
    h = Hand("Alt", "a|b|")
    ws.append(E.call_witness(Call("ahand", Fmt([PH(h)])), A02))
    ws.append(E.call_witness(Call("ahandu", Fmt([PH(h), PH(h)], escaped=False)), A02))
    for i, c in enumerate(["a|b", "|a", "(?m)^a$", "(?i)a|b", "\\d|", "(?s).*"]):
        ws.append(fmt_witness("acu%d" % i, [PH(StrTy(), custom=c)], anchor=A02))
        ws.append(fmt_witness("acv%d" % i, [PH(StrTy(), custom=c)], escaped=False, anchor=A02))
    return ws


# ------------------------------------------------------------------------------- radix (C04, C05)

OPTS = ["x", "#x", "x#", "o", "#o", "o#", "b", "#b", "b#"] + ["r%d" % r for r in range(2, 37)]
A04 = "sscanf_macro/src/regex_parts.rs regex_from_radix"


def radix(kind):
    ws = []
    for ty in S.INTS:
        for o in OPTS:
            uid = "rx_%s_%s" % (ty, o.replace("#x", "hx").replace("x#", "xh").replace("#o", "ho").replace("o#", "oh").replace("#b", "hb").replace("b#", "bh"))
            f = Fmt([PH(RadixTy(ty, o))])
            if kind == "regex":
                ws.append(regex_witness(GetRegex(uid, f), A04))
            else:
                ws.append(E.call_witness(Call(uid, f), A04))
    return ws


def radix_positions():
    """radix placeholders by every way of naming the type, next to others, and in derives"""
    ws = []
    for i, (a, b) in enumerate([("x", "#b"), ("#o", "r7"), ("r36", "x"), ("b#", "o"), ("r16", "#x"), ("r2", "r10"), ("x#", "r3"), ("o", "b")]):
        for k, (ta, tb) in enumerate([("i8", "u64"), ("u16", "i128"), ("isize", "i32"), ("usize", "u8")]):
            n = "%d_%d" % (i, k)
            ws.append(E.call_witness(Call("rp" + n, Fmt([PH(how="ext", opt=a), ",", PH(how="ext", opt=b), ";", PH(StrTy())]), [Builtin(ta), Builtin(tb)]), A04))
            ws.append(E.call_witness(Call("rq" + n, Fmt([PH(how=("idx", 1), opt=b), "x", PH(how=("idx", 0), opt=a), PH(how=("idx", 1), opt=a)]), [Builtin(ta), Builtin(tb)]), A04))
            ws.append(E.call_witness(Call("rr" + n, Fmt([PH(Builtin(ta), opt=a), "(?:x|y)\\|", PH(Builtin(tb), opt=b)], escaped=False)), A04))
            st = Struct("St", Body([Field("p", Builtin(ta)), Field("q", Builtin(tb))], Fmt([PH(how=("field", "q"), opt=b), ":", PH(how=("field", "p"), opt=a)])))
            ws.append(E.call_witness(FromStrCall("rs" + n, st), A04))
            en = Enum("En", [Variant("A", Body([Field(None, Builtin(ta))], Fmt(["a", PH(how="auto", opt=a)]), "tuple")),
                             Variant("B", Body([Field("z", Builtin(tb))], Fmt(["b", PH(how="auto", opt=b)])))])
            ws.append(E.call_witness(Call("re" + n, Fmt([PH(en), "-", PH(U8)])), A04))
            for c, kind in enumerate(("map", "filter_map", "from", "try_from")):
                if (i + k + c) % 2:
                    continue
                st = Struct("St", Body([Field("p", Builtin(ta), conv=Conv(kind, None, "k1")), Field("q", U8, conv=None)], Fmt([PH(how=("field", "p"), opt=a), "/", PH(how="auto")])))
                ws.append(E.call_witness(FromStrCall("rc%s_%d" % (n, c), st), A04))
    return ws


# ------------------------------------------------------------------------------- placeholders (C06)

A06 = "sscanf_macro/src/lib.rs find_ph_type, sscanf_internal; sscanf_macro/src/regex_parts.rs RegexParts::new"


def pool():
    return [U8, Builtin("i32"), StrTy(), Builtin("String"), CowTy(), Builtin("f64"), Hand("Ha", "[a-z]+"), Multi("Mu", ["a+", "b*"]), Builtin("char"),
            Multi("Mw", ["x"]), Builtin("bool"), Builtin("std::num::NonZeroU8"), Builtin("std::path::PathBuf"), simple_struct(), simple_enum()]


def simple_struct():
    return Struct("Ss", Body([Field("a", U8), Field("b", StrTy())], Fmt(["(", PH(how="auto"), "/", PH(how="auto"), ")"])))


def simple_enum():
    return Enum("Ee", [Variant("A", Body([Field(None, U8), Field(None, Builtin("i8"))], Fmt(["a", PH(how="auto"), "_", PH(how="auto")]), "tuple")),
                       Variant("B", Body([], Fmt(["b"]), "unit")),
                       Variant("C", Body([Field("s", Builtin("String"))], Fmt(["c", PH(how="auto")])))])


def dedupe(tys):
    return tys


def singles():
    ws = []
    for i, t in enumerate(E.BUILTINS + ["str"]):
        ty = StrTy() if t == "str" else Builtin(t)
        ws.append(E.call_witness(Call("s_t%d" % i, Fmt(["<", PH(ty), ">"])), A06))
        ws.append(E.call_witness(Call("s_e%d" % i, Fmt(["<", PH(how="ext"), ">"]), [ty]), A06))
        ws.append(E.call_witness(Call("s_i%d" % i, Fmt(["<", PH(how=("idx", 0)), ">"], escaped=False), [ty]), A06))
    return ws


NAMES = ("String Cow PathBuf Path Vec Box Option Result Some Rc Arc Error Regex OsString CString HashMap Duration NonZeroU8 IpAddr SocketAddr FromScanf Self_ T i8 i16 i32 i64 i128 u16 u32 u64 u128 isize f32 f64 bool char string cow").split()


def namesakes(thorough=False, names=NAMES, tag="na"):
    """types of the user named like the ones of std (or of the crate), taking several captures, wherever a type can stand"""
    ws = []

    def shape(name, k):
        b = "u8" if name != "u8" else "i8"
        two = [Field("a", Builtin(b)), Field("b", Builtin(b))]
        if k == 0:
            return Struct(name, Body(two, Fmt([PH(how="auto"), "/", PH(how="auto")])))
        if k == 1:
            return Multi(name, ["[a-z]+", "[0-9]*"])
        if k == 2:
            return Enum(name, [Variant("A", Body(two, Fmt([PH(how="auto"), "/", PH(how="auto")]))), Variant("B", Body([], Fmt(["b"]), "unit"))])
        return Hand(name, "[a-z]+x")
    for i, name in enumerate(names):
        for k in range(4):
            if k in (1, 3) and name in ("u64", "Result", "FromScanf", "string"):   # `let string` of const_format cannot shadow a tuple struct
                continue
            t = shape(name, k)
            u = "%s%d_%d" % (tag, i, k)
            ws.append(E.call_witness(Call(u + "a", Fmt([PH(t), ",", PH(Builtin("u8"))])), A06))
            ws.append(E.call_witness(Call(u + "b", Fmt([PH(how=("idx", 1)), ",", PH(how="ext"), ";", PH(t, "ext")]), [Builtin("usize"), t]), A06))
            w = Struct("Wrap", Body([Field("p", t), Field("q", Builtin("u8"))], Fmt([PH(how="auto"), "-", PH(how="auto")])))
            e = Enum("Wren", [Variant("X", Body([Field(None, Builtin("u8"))], Fmt(["x", PH(how="auto")]), "tuple")), Variant("Y", Body([Field(None, t), Field(None, Builtin("usize"))], Fmt([PH(how="auto"), "y", PH(how="auto")]), "tuple"))])
            ws.append(E.call_witness((Call(u + "c", Fmt([PH(w), "!", PH(t)])) if (i + k) % 2 else FromStrCall(u + "c", e)), A06))
    return ws


class Spelled(Hand):
    """a hand-written type reached through another spelling"""

    def __init__(self, rust, extra):
        Hand.__init__(self, "Hx", "h+")
        self.rust = rust
        self.extra = extra

    def defs(self):
        return Hand.defs(self) + [("extra", self.extra + "\n")]

    def result(self):
        return "Hx"


def lookalikes():
    """paths that look like str or Cow<str> in part but name types of the user"""
    pick = "pub trait Pick { type Out; } "
    one = pick + "impl Pick for %s { type Out = Hx; } pub type Cow<T> = <T as Pick>::Out;"
    mods = pick + "impl Pick for str { type Out = Hx; } "

    def inside(path, item):
        for m in path.split("::")[-2::-1]:
            item = "pub mod %s { pub use super::*; %s }" % (m, item)
        return mods + item
    cow = "pub type Cow<T> = <T as Pick>::Out;"
    sp = [("Cow<>", "pub type Cow = Hx;"), ("Cow", "pub type Cow = Hx;"), ("String<>", "pub type String = Hx;"), ("Str", "pub type Str = Hx;"), ("string", "pub type string = Hx;"),
          ("Cow<u8>", one % "u8"), ("Cow<[u8]>", one % "[u8]"), ("Cow<String>", one % "String"), ("Cow<&'static str>", one % "&'static str"), ("Cow<own::str>", one % "Hx" + " pub mod own { pub type str = super::Hx; }"),
          ("Cow<'static, u8>", pick + "impl<'x> Pick for &'x u8 { type Out = Hx; } pub type Cow<'x, T> = <&'x T as Pick>::Out;"),
          ("Cow<u8, str>", pick + "impl<'x> Pick for (u8, &'x str) { type Out = Hx; } pub type Cow<A, B> = <(A, &'static B) as Pick>::Out;"),
          ("Cow<str, u8>", pick + "impl<'x> Pick for (&'x str, u8) { type Out = Hx; } pub type Cow<A, B> = <(&'static A, B) as Pick>::Out;"),
          ("Cow<'static, str, u8>", pick + "impl<'x> Pick for (&'x str, u8) { type Out = Hx; } pub type Cow<'x, A, B> = <(&'x A, B) as Pick>::Out;"),
          ("COW<str>", mods + "pub type COW<T> = <T as Pick>::Out;"), ("Cow_<str>", mods + "pub type Cow_<T> = <T as Pick>::Out;"), ("Box<str>", mods + "pub type Box<T> = <T as Pick>::Out;"),
          ("self::Cow<str>", mods + cow), ("own::str<>", inside("own::str", "pub type str = Hx;")), ("<str as Pick>::Out", mods), ("<u8 as own::borrow::Cow>::str", "pub mod own { pub mod borrow { pub trait Cow { type str; } impl Cow for u8 { type str = super::super::Hx; } } }")]
    for path in ("own::Cow<str>", "option::Cow<str>", "own::borrow::Cow<str>", "own::std::borrow::Cow<str>", "borrows::Cow<str>", "own::alloc::borrow::Cow<str>", "self::borrow::Cow<str>", "self::std_::borrow::Cow<str>"):
        sp.append((path, inside(path[6:] if path.startswith("self::") else path, cow)))
    for path in ("own::str", "own::primitive::str", "own::std::primitive::str", "primitives::str", "own::core::primitive::str", "self::own::str", "string::str", "self::primitive::str"):
        sp.append((path, inside(path[6:] if path.startswith("self::") else path, "pub type str = Hx;")))
    for n in ("r", "tr", "s", "st", "strs", "astr", "str_", "_str", "STR", "strstr", "e::str", "ve::str", "rs::str", "p::str", "primitive::st", "primitive::r", "std::str", "core::str"):
        sp.append((n if not n.startswith(("std", "core", "primitive")) else "self::" + n, inside(n, "#[allow(non_camel_case_types)] pub type %s = Hx;" % n.split("::")[-1])))
    for n in ("C", "Co", "w", "ow", "ACow", "Cows", "cow", "w::Cow", "row::Cow", "b::Cow", "borrow_::Cow", "td::borrow::Cow"):
        sp.append((n + "<str>", inside(n, "#[allow(non_camel_case_types)] pub type %s<T> = <T as Pick>::Out;" % n.split("::")[-1])))
    ws = []
    for i, (rust, extra) in enumerate(sp):
        t = lambda: Spelled(rust, extra)
        ws.append(E.call_witness(Call("la%da" % i, Fmt([PH(U8), ",", PH(t()), ";", PH(t())])), A15))
        ws.append(E.call_witness(Call("la%db" % i, Fmt([PH(how=("idx", 1)), ",", PH(how="ext")]), [t(), t()]), A15))
        f = lambda: Field("p", t(), rust_ty=rust)
        b = lambda: Body([f(), Field("q", Builtin("i8"))], Fmt([PH(how=("field", "q")), "-", PH(how=("field", "p"))]))
        ws.append(E.call_witness(FromStrCall("la%dc" % i, Struct("Ls", b())), A15))
        ws.append(E.call_witness(Call("la%dd" % i, Fmt([PH(Enum("Le", [Variant("A", Body([], Fmt(["a"]), "unit")), Variant("B", b())]))])), A15))
    return ws


class Written(Spelled):
    """the same where the type of a conversion is meant"""

    def result(self):
        return self.rust


FORMS = ["Out<u8>", "Out<'static, u8>", "Outn<'static, 3>", "Outn<'static, { 1 + 2 }>", "Outn<'static, -1>", "Out<(u8, i8)>", "Out<()>", "Out<(u8,)>", "Out<[u8; 3]>", "Out<&'static [i8]>", "Out<fn(u8) -> u8>", "Out<for<'x> fn(&'x str) -> &'x str>", "Out<dyn Fn(u8) -> bool + Send>",
         "Out<Box<dyn Iterator<Item = u8>>>", "Out<*const u8>", "Out<&'static mut str>", "Out<&'static [&'static str]>", "Out<Out<u8>>", "Out<Out<Out<std::string::String>>>", "Out<r#u8>", "r#Out<u8>", "Out::<u8>", "self::Out::<u8>", "own::Out<u8>", "own::r#mod::Out<u8>", "self::own::r#mod::Out<'static, u8>",
         "<u8 as Pick>::Out", "<u8 as own::r#mod::Pick>::Out", "<str as self::Pick>::Out", "<[u8; 2] as Pick>::Out", "<<u8 as Pick>::Out as Pick>::Out", "<u8 as Wide<str>>::Out", "<u8 as Wide<str>>::Gat<'static, u8>", "<u8 as Wide<[u8; { 0 }]>>::Out", "own::" * 7 + "Hx", "self::" + "own::" * 16 + "Out<u8>", "own::" * 70 + "Hx", "Out<" * 12 + "u8" + ">" * 12,
         "N" * 33, "N" * 70 + "e", "N" * 140, "N" * 300, "own::" + "N" * 70, "(Hx)", "((Hx))", "(Out<u8>)", "same!(Hx)", "same![u8]", "same! { u8 }", "own::same!(u8)"]


def forms():
    """every syntactic form of a type, wherever a type can stand"""
    extra = ("pub trait Pick { type Out; } impl<T: ?Sized> Pick for T { type Out = Hx; } pub trait Len<'x, const N: i8> { type Out; } impl<'x, const N: i8> Len<'x, N> for Hx { type Out = Hx; } "
             "#[allow(dead_code)] pub trait Wide<A: ?Sized> { type Out; type Gat<'x, T: 'x>; } impl<A: ?Sized, T: ?Sized> Wide<A> for T { type Out = Hx; type Gat<'x, B: 'x> = Hx; } "
             "#[allow(dead_code)] pub type Outn<'x, const N: i8> = <Hx as Len<'x, N>>::Out; "
             "#[allow(unused_macros)] macro_rules! same { ($t:ty) => { Hx }; } pub mod own { pub use super::*; #[allow(unused_imports)] pub(crate) use same; pub mod r#mod { pub use super::super::*; } } ")
    ws = []
    for i, rust in enumerate(FORMS):
        ex = extra + ("pub type Out<'x, T> = <&'x T as Pick>::Out;" if "Out<'static" in rust else "pub type Out<T> = <T as Pick>::Out;")
        if "NNN" in rust:
            ex = extra + " ".join("pub type %s = %s;" % (x, "Hx" if x == rust.split("::")[-1] else "()") for x in ("N" * 32, "N" * 33, "N" * 34, "N" * 64, "N" * 70, "N" * 70 + "e", "N" * 70 + "f", "N" * 128, "N" * 140, "N" * 255, "N" * 300))
        t = lambda: Spelled(rust, ex)
        path = not ("same!" in rust or rust.startswith("("))   # calls take paths only
        if path and "{" not in rust:
            ws.append(E.call_witness(Call("fo%da" % i, Fmt([PH(U8), ",", PH(t()), ";", PH(t(), custom="h:|/")])), A06))
        if path:
            ws.append(E.call_witness(Call("fo%db" % i, Fmt([PH(how=("idx", 1)), ",", PH(how="ext"), ";", PH(how="ext", custom="[h}]+")]), [t(), t()]), A06))
        f = lambda: Field("p", t(), rust_ty=rust)
        b = lambda: Body([f(), Field("q", Builtin("i8"))], Fmt([PH(how=("field", "q")), "-", PH(how=("field", "p"))]))
        ws.append(E.call_witness(FromStrCall("fo%dc" % i, Struct("Ls", b())), A06))
        wr = Written(rust, ex)
        k = ("map", "filter_map", "from", "try_from")
        cv = lambda j: Body([Field(None, wr, conv=Conv(k[(i + j) % 4], None, "f%d_%d" % (i, j))), Field(None, U8)], Fmt([PH(how="auto"), ".", PH(how="auto")]), "tuple")
        if path:
            ws.append(E.call_witness(Call("fo%de" % i, Fmt([PH(Enum("Lf", [Variant("A", cv(0)), Variant("B", cv(1))])), "-", PH(Struct("Lg", cv(2)))])), A06))
        g = Field("p", t(), rust_ty=rust)
        ws.append(E.call_witness(Call("fo%dd" % i, Fmt([PH(Enum("Le", [Variant("A", Body([], Fmt(["a"]), "unit")), Variant("B", b()), Variant("C", Body([g], Fmt(["c", PH(how="auto")])))]))])), A06))
    return ws


def takers():
    """the ways a placeholder can take a part of the text: built-in types, radix options, custom regexes, hand-written and derived types"""
    lazy = lambda: Struct("Lz", Body([Field("a", StrTy()), Field("b", Builtin("u8"))], Fmt([PH(how="auto"), PH(how="auto")])))
    pick = lambda: Enum("Pk", [Variant("A", Body([], Fmt(["1"]), "unit")), Variant("B", Body([Field(None, Builtin("u16"))], Fmt([PH(how="auto")]), "tuple")), Variant("C", Body([Field(None, StrTy())], Fmt(["1", PH(how="auto")]), "tuple"))])
    case = lambda: Enum("Cs", [Variant("Ab", Body([], Fmt(["ab"]), "unit")), Variant("Abc", Body([], Fmt(["abc"]), "unit")), Variant("A", Body([], Fmt(["a"]), "unit"))])
    out = []
    for t in E.BUILTINS + ["str", "&str", "Cow<str>"]:
        out.append(lambda t=t: (StrTy(t) if t in ("str", "&str") else CowTy() if t == "Cow<str>" else Builtin(t), None))
    for t, o in (("u8", "x"), ("i16", "#x"), ("u32", "r36"), ("i8", "b"), ("u16", "o#"), ("i64", "r7"), ("u8", "r2"), ("usize", "r10"), ("i128", "x#")):
        out.append(lambda t=t, o=o: (RadixTy(t, o), None))
    for c in ("a|ab", "ab|a", "[0-9]*", "[0-9]*?", "[0-9]{1,2}?", "(?:ab)+", "(?:a|b)*?c", "a??b?", "0x[0-9]+|[0-9a-f]+", "(?i:AB?)", "|a", "a|", "(?:a|)b", "[0-9]+\\.?[0-9]*", "(?U)a+", "(?U)a+?", "a{2,3}", ".{1,2}"):
        out.append(lambda c=c: (Builtin("String"), c))
    for t, c in (("str", ".+"), ("&str", ".+?"), ("Cow<str>", ".*"), ("str", ".*?"), ("u8", "[0-9]+?"), ("PathBuf", ".+?"), ("f32", "[0-9]+|[0-9]+\\.[0-9]+")):
        out.append(lambda t=t, c=c: (StrTy(t) if t in ("str", "&str") else CowTy() if t == "Cow<str>" else Builtin("std::path::PathBuf" if t == "PathBuf" else t), c))
    for f in (simple_struct, simple_enum, lazy, pick, case, lambda: Hand("Ha", "[a-z]+"), lambda: Hand("Hb", "a|ab"), lambda: Hand("Hc", "[0-9]*?"), lambda: Multi("Mu", ["a+", "b*"]), lambda: Multi("Mv", ["a*?", "a*"])):
        out.append(lambda f=f: (f(), None))
    return out


def splits(thorough=False):
    """placeholders side by side, with little or nothing between them, so that a text can be divided in several ways"""
    ws = []
    ts = takers()[0:]
    seps = ["", "", "1", "a", " ", "-", "."]

    def call(uid, picks, sp, escaped=True, ext=False):
        items, exts = [], []
        for j, f in enumerate(picks):
            ty, custom = f()
            if ext:
                exts.append(ty)
            items.append(PH(ty, "ext" if ext else "type", custom=custom))
            if j < len(picks) - 1 and sp[j]:
                items.append(sp[j])
        c = S.Split(uid, Fmt(items, escaped=escaped), exts)
        ws.append(E.call_witness(c, A06))
    n = 0
    for i, a in enumerate(ts):
        for j, b in enumerate(ts):
            n += 1
            if (i * 7 + j * 3) % (1 if thorough else 3) and not (i > 28 and j > 28):
                continue
            call("sp%d" % n, [a, b], [seps[n % 7]], n % 11 != 0, n % 3 == 0)
    for n in range(len(ts) * (30 if thorough else 5)):
        k = (3, 3, 4, 5)[n % 4]
        call("st%d" % n, [ts[(n * (2 * q + 1) + q * 11 + n // len(ts) * (q + 3)) % len(ts)] for q in range(k)], [seps[(n * (q + 2) + q) % 7] for q in range(k)], n % 5 != 0, n % 2 == 0)
    return ws


def mixes(thorough=False):
    ws = []
    hows = ["type", "ext", "idx"]
    p = pool()
    n = 0
    # every triple of ways to name a type, types rotating
    for combo in itertools.product(hows, repeat=3):
        for rot in range(0, len(p), 1 if thorough else 4):
            n += 1
            tys = [p[(rot + 3 * j + n) % len(p)] for j in range(3)]
            ws.append(mix_call("m%d" % n, combo, tys, n))
    # lengths 0..12 (tuples above 12 have no std traits, the value does not need them)
    for k in list(range(0, 13)) + [16, 20, 30]:
        for rot in range(3 if not thorough else 12):
            n += 1
            tys = [p[(rot * 5 + j * (rot + 1)) % len(p)] for j in range(k)]
            if k > 12:
                tys = [[U8, StrTy(), Builtin("i16")][j % 3] for j in range(k)]
            ws.append(mix_call("l%d" % n, [hows[(j + rot) % 3] for j in range(k)], tys, n))
    # index reuse and reordering
    for i, perm in enumerate(itertools.permutations(range(3))):
        ext = [U8, Builtin("String"), Multi("Mu", ["a+", "b*"])]
        ws.append(E.call_witness(Call("ip%d" % i, Fmt([x for j in perm for x in (PH(how=("idx", j)), ",")]), ext), A06))
        ext = [Builtin("i8"), StrTy(), Hand("Hb", "q")]
        ws.append(E.call_witness(Call("ir%d" % i, Fmt([PH(how=("idx", perm[0])), "a", PH(how="ext"), "b", PH(how=("idx", perm[1])), "c", PH(how=("idx", perm[2])), "d", PH(how="ext"), PH(how=("idx", perm[0]))]), ext), A06))
    ext = [U8, Builtin("u16")]
    ws.append(E.call_witness(Call("iu", Fmt([PH(how=("idx", 1)), PH(how=("idx", 1)), PH(how=("idx", 0)), PH(how=("idx", 1))]), ext), A06))
    ext300 = [[U8, StrTy(), Builtin("i16")][j % 3] for j in range(300)]
    ws.append(E.call_witness(Call("i300", Fmt([x for j in range(299, -1, -1) for x in (PH(how=("idx", j)), ";")]), ext300), A06))
    ws.append(E.call_witness(Call("i300z", Fmt([x for j in range(300) for x in (PH(how=("idx", (j * 77 + 5) % 300)), ";")]), ext300), A06))
    ext12 = [Builtin(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool", "char"][j]) for j in range(12)]
    ws.append(E.call_witness(Call("i12", Fmt([x for j in range(11, -1, -1) for x in (PH(how=("idx", j)), ";")]), ext12), A06))
    ws.append(E.call_witness(Call("i12z", Fmt([PH(how=("idx", 10)), "-", PH(how=("idx", 1))] + [x for j in (0, 2, 3, 4, 5, 6, 7, 8, 9, 11) for x in (",", PH(how=("idx", j)))]), ext12), A06))
    if thorough:
        r = E.rng("mix")
        for i in range(600):
            k = r.randrange(1, 8)
            ws.append(mix_call("rnd%d" % i, [r.choice(hows) for _ in range(k)], [r.choice(p) for _ in range(k)], r.randrange(100)))
    return ws + many_calls()


SEPS = ["", "-", ",", ".", "ab", "|", "(", " "]


def mix_call(uid, combo, tys, salt):
    """placeholders named in the given ways; external types are given in an order that fits"""
    ext = []
    items = []
    # 'ext' takes the external types in order; 'idx' ones are put behind them
    next_ext = [t for h, t in zip(combo, tys) if h == "ext"]
    idx_t = []
    for h, t in zip(combo, tys):
        if h == "idx" and t not in idx_t:
            idx_t.append(t)
    ext = next_ext + idx_t
    for j, (h, t) in enumerate(zip(combo, tys)):
        if j or salt % 2:
            items.append(SEPS[(salt + j * 3) % len(SEPS)])
        if h == "idx":
            items.append(PH(how=("idx", len(next_ext) + idx_t.index(t))))
        elif h == "ext":
            items.append(PH(how="ext"))
        else:
            items.append(PH(t))
    if salt % 3 == 0:
        items.append(SEPS[salt % len(SEPS)])
    fixed = []
    for t in items:
        fixed.append(t)
    escd = salt % 5 != 0 or any(isinstance(i, str) and i in ("(", "|") for i in items)
    return E.call_witness(Call(uid, Fmt(fixed or [""], escd), ext), A06)


# ------------------------------------------------------------------------------- structs (C07)

A07 = "sscanf_macro/src/derive.rs parse_format, parse_struct"


def field_kinds():
    return ["plain", "map", "filter_map", "from", "try_from", "default", "defexpr"]


def mk_field(name, kind, ty, uid):
    if kind == "plain":
        return Field(name, ty)
    if kind == "default":
        return Field(name, rust_ty=["u32", "String", "bool", "Option<u8>"][len(uid) % 4], default=True)
    if kind == "defexpr":
        e = "opq_def%s()" % uid
        return Field(name, rust_ty="Def%s" % uid, default=("expr", e, S.PSym("opq_def%s" % uid)))
    return Field(name, ty, conv=Conv(kind, None, uid))


def def_items(fields):
    out = ""
    for f in fields:
        if isinstance(f.default, tuple) and f.default[1].startswith("opq_def"):
            out += "pub struct %s(pub u64); pub fn %s -> %s { loop {} }\n" % (f.rust_ty, f.default[1], f.rust_ty)
    return out


def mk_struct(name, kinds, order, tys, shape, how, salt):
    """order: permutation of the parsed fields; how: name / index / auto / mixed"""
    names = ["alpha", "b", "c_c", "d4", "e"]
    fields = [mk_field(names[i] if shape == "named" else None, k, t, "%s%d" % (name.lower(), i)) for i, (k, t) in enumerate(zip(kinds, tys))]
    parsed = [i for i, k in enumerate(kinds) if not k.startswith("def")]
    if how == "auto":
        seq = parsed
    else:
        seq = [parsed[j] for j in order if j < len(parsed)]
    items = ["<"]
    for n, i in enumerate(seq):
        if how == "auto":
            items.append(PH(how="auto"))
        elif how == "index" or shape == "tuple":
            items.append(PH(how=("field", str(i))))
        elif how == "mixed" and n % 2 == 0:
            items.append(PH(how=("field", names[i])))
        elif how == "mixed":
            items.append(PH(how=("field", str(i))))
        else:
            items.append(PH(how=("field", names[i])))
        items.append(["-", ",", "", "::"][(n + salt) % 4])
    return Struct(name, Body(fields, Fmt(items), shape), pre=def_items(fields))


def structs(thorough=False):
    ws = []
    n = 0
    tys = [U8, Builtin("String"), Builtin("i64"), Hand("Hs", "h+"), Builtin("char")]
    btys = [StrTy(), U8, CowTy(), Builtin("f32"), StrTy("&'a str")]
    kinds = field_kinds()
    # one field: every kind x shape x naming
    for k in kinds:
        for shape in ("named", "tuple"):
            for how in ("auto", "index", "name"):
                n += 1
                ws.append(E.call_witness(FromStrCall("s1_%d" % n, mk_struct("Sx", [k], [0], [tys[n % 5]], shape, how, n)), A07))
    # two fields: every pair of kinds, both orders
    for a, b in itertools.product(kinds, repeat=2):
        for order in ((0, 1), (1, 0)):
            n += 1
            shape = ("named", "tuple")[n % 2]
            how = ("name", "index", "mixed", "auto")[n % 4]
            st = mk_struct("Sx", [a, b], order, [tys[n % 5], tys[(n + 2) % 5]], shape, how, n)
            ws.append(E.call_witness(FromStrCall("s2_%d" % n, st) if n % 3 else Call("s2_%d" % n, Fmt(["{", PH(st), "}", PH(U8)])), A07))
    # three to five fields
    r = E.rng("structs")
    fixed = list(itertools.permutations(range(3)))
    for i in range(60 if not thorough else 900):
        n += 1
        k = 3 + i % 3
        ks = [kinds[(i * 3 + j * 5 + j * j) % 7] if i < 60 else r.choice(kinds) for j in range(k)]
        order = list(range(k))
        if i < 60:
            order = order[i % k:] + order[:i % k]
            if i % 2:
                order.reverse()
        else:
            r.shuffle(order)
        tt = [(tys + btys[:0])[(i + j) % 5] for j in range(k)]
        shape = ("named", "tuple")[i % 2]
        how = ("name", "index", "mixed", "auto")[(i // 2) % 4]
        ws.append(E.call_witness(FromStrCall("s3_%d" % n, mk_struct("Sx", ks, order, tt, shape, how, n)), A07))
    # borrowed fields
    for i, order in enumerate(fixed):
        n += 1
        st = mk_struct("Sx", ["plain"] * 3, order, [btys[(i + j) % 4] for j in range(3)], ("named", "tuple")[i % 2], ("name", "index", "mixed")[i % 3], n)
        ws.append(E.call_witness(FromStrCall("sb_%d" % n, st), A07))
        ws.append(E.call_witness(Call("sc_%d" % n, Fmt([PH(st), "+", PH(st), PH(StrTy())])), A07))
    # some fields named, the others implicit, with defaults between them
    for i, named in enumerate([(0,), (1,), (2,), (0, 2), (2, 0), (1, 2), (2, 1), (3,), (3, 0), (1, 3)]):
        for dflt in ((), (1,), (0,), (3,), (0, 2)):
            n += 1
            if set(dflt) & set(named):
                continue
            names = ["a", "b", "c", "d"]
            fs = []
            for j in range(4):
                fs.append(mk_field(names[j], "defexpr" if j in dflt else "plain", [U8, Builtin("i8"), Builtin("u16"), Builtin("String")][j], "n%d" % j))
            rest = [j for j in range(4) if j not in named and j not in dflt]
            items = []
            nm = list(named)
            while nm or rest:
                if nm and (len(nm) + len(rest)) % 2 == i % 2 or not rest:
                    items += [PH(how=("field", names[nm.pop(0)])), ","]
                else:
                    rest.pop(0)
                    items += [PH(how="auto"), ";"]
            st = Struct("Sx", Body(fs, Fmt(items)), pre=def_items(fs))
            ws.append(E.call_witness(FromStrCall("sm_%d" % n, st), A07))
    # nested, transparent, unit, raw field names
    inner = simple_struct()
    en = simple_enum()
    for i, t in enumerate([U8, Builtin("String"), StrTy(), Hand("Ht", "t"), Multi("Mt", ["a", "b"])]):
        for shape in ("named", "tuple"):
            st = Struct("Tr", Body([Field("x" if shape == "named" else None, t)], Fmt([PH(how="auto")]), shape, attr="#[sscanf(transparent)]"))
            ws.append(E.call_witness(FromStrCall("tr_%d%s" % (i, shape[0]), st), A07))
            ws.append(E.call_witness(Call("tq_%d%s" % (i, shape[0]), Fmt(["q", PH(st), PH(U8)])), A07))
        for c in ("map", "filter_map", "from", "try_from"):
            if t.lt:
                continue
            st = Struct("Tr", Body([Field("x", t, conv=Conv(c, None, "t1"))], Fmt([PH(how="auto")]), attr="#[sscanf(transparent)]"))
            ws.append(E.call_witness(FromStrCall("tc_%d%s" % (i, c), st), A07))
    for i in range(4):
        ws.append(E.call_witness(FromStrCall("un_%d" % i, Struct("Un", Body([], Fmt([["unit", "", "a.b", "{}"][i]]), ("unit", "named", "tuple", "unit")[i]))), A07))
    ws.append(E.call_witness(FromStrCall("rawf", Struct("Rf", Body([Field("r#type", U8), Field("r#fn", U8)], Fmt([PH(how="auto"), ",", PH(how="auto")])))), A07))
    ws += big_structs()
    ws += decorated_structs()
    ws += many_structs()
    ws += long_names() + far_derives("derived", False) + far_derives("types", False)
    for i in range(6):
        st = own_struct("Ne", i)
        ws.append(E.call_witness(FromStrCall("ne_%d" % i, st), A07))
        ws.append(E.call_witness(Call("nf_%d" % i, Fmt([PH(U8), "/", PH(st), "/", PH(Builtin("i8"))])), A07))
    return ws


def big_structs():
    """many fields: orders and indices with two digits"""
    ws = []
    ts = [U8, Builtin("i8"), Builtin("u16"), Builtin("char"), Builtin("i64"), Builtin("bool"), Builtin("u32")]
    for n in (11, 12, 21):
        for mode in ("auto", "name", "index", "rev", "mixed"):
            for shape in ("named", "tuple"):
                fs = [Field("f%d" % i if shape == "named" else None, ts[(i * 3) % 7], default=None) for i in range(n)]
                if mode in ("rev", "mixed"):
                    fs[3] = mk_field("f3" if shape == "named" else None, "default", None, "b")
                    fs[10] = mk_field("f10" if shape == "named" else None, "map", U8, "b10")
                live = [i for i in range(n) if fs[i].default is None]
                items = []
                if mode == "auto":
                    seq = live
                elif mode == "rev":
                    seq = live[::-1]
                else:
                    seq = live[n // 2:] + live[:n // 2]
                auto = [i for i in live if i % 3 == 0] if mode == "mixed" else []
                autoq = list(auto)
                for i in seq:
                    if mode == "auto":
                        ph = PH(how="auto")
                    elif i in auto:
                        autoq.pop(0)
                        ph = PH(how="auto")
                    elif mode == "name" and shape == "named":
                        ph = PH(how=("field", "f%d" % i))
                    else:
                        ph = PH(how=("field", str(i)))
                    items += [ph, "/"]
                st = Struct("Bg", Body(fs, Fmt(items), shape))
                u = "bg%d%s%s" % (n, mode, shape[0])
                ws.append(E.call_witness(FromStrCall(u, st), A07))
    return ws


def plain_struct():
    return Struct("Ps", Body([Field("a", U8), Field("b", Builtin("String"))], Fmt(["(", PH(how="auto"), "/", PH(how="auto"), ")"])))


def plain_enum():
    return Enum("Pe", [Variant("A", Body([Field(None, U8), Field(None, Builtin("i8"))], Fmt(["a", PH(how="auto"), "_", PH(how="auto")]), "tuple")),
                       Variant("B", Body([], Fmt(["b"]), "unit")),
                       Variant("C", Body([Field("s", Builtin("String"))], Fmt(["c", PH(how="auto")])))])


def own_struct(name, i):
    """structs with nested derived types"""
    s, e = plain_struct(), plain_enum()
    m = Multi("Mt", ["a", "b"])
    combos = [[s, e], [e, s], [U8, s, Builtin("i8")], [e, U8, e], [m, s, m], [s, s]]
    fs = [Field("f%d" % j, t) for j, t in enumerate(combos[i])]
    order = list(range(len(fs)))
    if i % 2:
        order.reverse()
    return Struct(name, Body(fs, Fmt([x for j in order for x in (PH(how=("field", "f%d" % j)), "-")])))


# ------------------------------------------------------------------------------- enums (C08)

A08 = "sscanf_macro/src/derive.rs parse_enum"


def enum_variants(seed, k, lt=False):
    """k variants of rotating shapes"""
    tys = [U8, Builtin("i16"), Builtin("String"), Hand("He", "h+"), Multi("Me", ["m", "n*"]), plain_struct(), plain_enum()]
    if lt:
        tys[2] = StrTy()
    out = []
    for i in range(k):
        s = (seed * 7 + i * 3) % 6
        t1, t2 = tys[(seed + i) % len(tys)], tys[(seed * 2 + i * 5 + 1) % len(tys)]
        pre = ["v%d" % i, "x", "", "q.", "x"][(seed + i) % 5]
        nm = "V%d" % i
        if s == 0:
            out.append(Variant(nm, Body([], Fmt([pre + "u%d" % i]), "unit")))
        elif s == 1:
            out.append(Variant(nm, Body([Field(None, t1)], Fmt([pre, PH(how="auto"), "e"]), "tuple")))
        elif s == 2:
            out.append(Variant(nm, Body([Field("p", t1), Field("q", t2)], Fmt([pre, PH(how=("field", "q")), "+", PH(how=("field", "p"))]))))
        elif s == 3:
            out.append(Variant(nm, Body([Field(None, rust_ty="u8")] if i % 2 else [], None, "tuple" if i % 2 else "unit"), bare=True))
        elif s == 4:
            out.append(Variant(nm, Body([Field(None, t1), Field(None, rust_ty="u32", default=True), Field(None, t2)], Fmt([pre, PH(how=("field", "2")), "/", PH(how=("field", "0"))]), "tuple")))
        else:
            out.append(Variant(nm, Body([Field("z", t1, conv=Conv(["map", "filter_map", "from", "try_from"][(seed + i) % 4], None, "c%d" % i))], Fmt([pre, PH(how="auto")]))))
    if not any(v.live() for v in out):
        out.append(Variant("Last", Body([], Fmt(["last"]), "unit")))
    return out


def enums(thorough=False):
    ws = []
    n = 0
    for k in (1, 2, 3, 4, 5, 7):
        for seed in range(14 if not thorough else 120):
            n += 1
            en = Enum("En", enum_variants(seed, k, lt=False))
            if n % 3 == 0:
                c = Call("e%d" % n, Fmt(["[", PH(en), "]", PH(U8)]))
            elif n % 3 == 1:
                c = FromStrCall("e%d" % n, en)
            else:
                c = Call("e%d" % n, Fmt([PH(U8), " ", PH(en), PH(en), PH(Builtin("char"))]))
            ws.append(E.call_witness(c, A08))
    for seed in range(6):
        en = Enum("En", [Variant("S", Body([Field(None, StrTy())], Fmt(["s", PH(how="auto")]), "tuple")), Variant("T", Body([Field("c", CowTy()), Field("d", StrTy())], Fmt([PH(how=("field", "d")), ":", PH(how=("field", "c"))])))][::1 if seed % 2 else -1])
        ws.append(E.call_witness(FromStrCall("el%d" % seed, en), A08) if seed < 3 else E.call_witness(Call("el%d" % seed, Fmt([PH(en), "-", PH(en)])), A08))
    # overlapping alternatives: the first in definition order wins
    for i, (a, b) in enumerate([(".*", "ab"), ("ab", ".*"), ("a", "ab"), ("ab", "a"), ("", "a"), ("x", "x"), ("(?:a|ab)", "abc")]):
        en = Enum("Ov", [Variant("First", Body([], Fmt([a], escaped=False), "unit")), Variant("Second", Body([], Fmt([b], escaped=False), "unit")),
                         Variant("Third", Body([Field(None, StrTy())], Fmt([PH(how="auto")]), "tuple"))])
        ws.append(E.call_witness(FromStrCall("eo%d" % i, en), A08))
        ws.append(E.call_witness(Call("ep%d" % i, Fmt([PH(en), PH(StrTy())])), A08))
    # many variants
    for n in (11, 13):
        vs = []
        for i in range(n):
            if i % 4 == 0:
                vs.append(Variant("V%d" % i, Body([], Fmt(["u%d" % i]), "unit")))
            else:
                vs.append(Variant("V%d" % i, Body([Field(None, [U8, Builtin("char"), Multi("Mx", ["m", "n*"])][j % 3]) for j in range(i % 4)],
                                                Fmt(["w%d" % i] + [x for j in range(i % 4) for x in (PH(how="auto"), ";")]), "tuple")))
        ws.append(E.call_witness(FromStrCall("emany%d" % n, Enum("Many", vs)), A08))
        ws.append(E.call_witness(Call("emanyc%d" % n, Fmt([PH(Enum("Many", vs)), ",", PH(U8)])), A08))
    # transparent variants, nesting
    inner = plain_enum()
    ws.append(E.call_witness(FromStrCall("et", Enum("Et", [
        Variant("N", Body([Field(None, U8)], Fmt([PH(how="auto")]), "tuple", attr="#[sscanf(transparent)]")),
        Variant("E", Body([Field("e", inner)], Fmt([PH(how="auto")]), "named", attr="#[sscanf(transparent)]")),
        Variant("S", Body([Field(None, StrTy())], Fmt([PH(how="auto")]), "tuple", attr="#[sscanf(transparent)]"))])), A08))
    e1 = Enum("E1", [Variant("A", Body([Field(None, inner)], Fmt(["1", PH(how="auto")]), "tuple")), Variant("B", Body([Field(None, inner), Field(None, inner)], Fmt(["2", PH(how=("field", "1")), ",", PH(how=("field", "0"))]), "tuple"))])
    e2 = Enum("E2", [Variant("A", Body([Field(None, e1)], Fmt([PH(how="auto")]), "tuple")), Variant("B", Body([Field("k", U8)], Fmt(["k", PH(how="auto")]))), Variant("C", Body([Field("k", e1), Field("l", plain_struct())], Fmt([PH(how=("field", "l")), PH(how=("field", "k"))])))])
    ws.append(E.call_witness(FromStrCall("en1", e1), A08))
    ws.append(E.call_witness(FromStrCall("en2", e2), A08))
    ws.append(E.call_witness(Call("en3", Fmt([PH(e2), "!", PH(e1), PH(U8)])), A08))
    # autogen: skip, override, order
    for i, attr in enumerate(["#[sscanf(autogen)]", "#[sscanf(autogenerate)]", "#[sscanf(autogen = \"CaseSensitive\")]", "#[sscanf(autogen = \"CaseInsensitive\")]"]):
        pat = (lambda s: "(?i)" + s) if i == 3 else S.esc
        if i == 3:
            pat = lambda s: "".join("[%s%s]" % (c.lower(), c.upper()) + ("" if c.lower() not in "ks" else "") for c in s)
        vs = [Variant("Abc", Body([], None, "unit"), autopat=ci(i, "Abc")), Variant("Skip", Body([], None, "unit"), skip=True),
              Variant("Own", Body([Field(None, U8)], Fmt(["own", PH(how="auto")]), "tuple")),
              Variant("Over", Body([], Fmt(["o.v"]), "unit")), Variant("Ab", Body([], None, "unit"), autopat=ci(i, "Ab")),
              Variant("SkipF", Body([Field(None, rust_ty="u8")], None, "tuple"), skip=True), Variant("Z9", Body([], None, "unit"), autopat=ci(i, "Z9"))]
        ws.append(E.call_witness(FromStrCall("eg%d" % i, Enum("Eg", vs, attr)), A08))
        ws.append(E.call_witness(Call("eh%d" % i, Fmt([PH(Enum("Eg", vs[::-1], attr)), "-", PH(U8)])), A08))
    return ws + decorated() + many_enums() + placements(thorough)


def placements(thorough=False):
    """every arrangement of variants of every kind: autogenerated, own format, own format with fields, skipped or without a format"""
    ws = []
    attrs = ["#[sscanf(autogen)]", "#[sscanf(autogenerate)]", "#[sscanf(autogen = \"CaseSensitive\")]", "#[sscanf(autogen = \"CaseInsensitive\")]"]

    def make(kind, i, j):
        if kind == "auto":
            return Variant("Va%d" % i, Body([], None, "unit"), autopat=ci(j, "Va%d" % i))
        if kind == "unit":
            return Variant("Vb%d" % i, Body([], Fmt(["b.%d" % i]), "unit"))
        if kind == "field":
            return Variant("Vc%d" % i, Body([Field(None, U8)], Fmt(["c%d" % i, PH(how="auto")]), "tuple"))
        if kind == "fields":
            return Variant("Vd%d" % i, Body([Field("a", U8), Field("b", Multi("Mx", ["m", "n*"]))], Fmt(["d%d" % i, PH(how=("field", "b")), ";", PH(how=("field", "a"))])))
        dead = [Body([], None, "unit"), Body([Field(None, rust_ty="u8")], None, "tuple"), Body([Field("x", rust_ty="String")], None, "named")][i % 3]
        return Variant("Ve%d" % i, dead, **{kind: True})
    n = 0
    for auto, kinds in ((True, ["auto", "field", "skip", "unit"]), (False, ["unit", "fields", "bare"])):
        for k in (1, 2, 3, 4):
            for w in itertools.product(kinds, repeat=k):
                n += 1
                if all(x in ("skip", "bare") for x in w) or (k == 4 and auto and n % (2 if thorough else 8)):
                    continue
                j = n % 4
                en = Enum("Pl", [make(x, i, j) for i, x in enumerate(w)], attrs[j] if auto else "")
                c = (FromStrCall("pl%d" % n, en), Call("pl%d" % n, Fmt(["<", PH(en), ">"])), Call("pl%d" % n, Fmt([PH(en), PH(en), PH(U8)])))[n % 3]
                ws.append(E.call_witness(c, A08))
    return ws


FOREIGN = ["/// doc { }\n", "#[doc = \"a {b}\"] ", "#[allow(dead_code)] ", "#[cfg_attr(all(), allow(unused))] ", "#[deprecated] ", "/** d */ ", "#[cfg(all())] ", ""]


def decorate(body, k):
    """attributes and doc comments of others around the ones of the derive"""
    body.around = (FOREIGN[k % 8].replace("#[deprecated] ", ""), FOREIGN[(k * 3 + 1) % 8].replace("#[deprecated] ", ""))
    for i, f in enumerate(body.fields):
        f.around = (FOREIGN[(k + i * 3 + 2) % 8].replace("#[deprecated] ", ""), FOREIGN[(k * 5 + i) % 8].replace("#[deprecated] ", ""))
    return body


def decorated():
    """the same derives with doc comments, attributes of others and explicit discriminants: all of them without effect"""
    ws = []
    for seed in range(12):
        k = (2, 3, 5)[seed % 3]
        vs = enum_variants(seed, k)
        for i, v in enumerate(vs):
            decorate(v.body, seed + i)
            if (seed + i) % 3 != 1:
                v.disc = " = %d" % (40 - 7 * i)
        en = Enum("En", vs, "#[repr(%s)]" % ("u8", "i32", "isize")[seed % 3])
        ws.append(E.call_witness(FromStrCall("ed%d" % seed, en) if seed % 2 else Call("ed%d" % seed, Fmt([PH(en), ",", PH(U8)])), A08))
    for i, attr in enumerate(["#[sscanf(autogen)]", "#[sscanf(autogenerate = \"CaseInsensitive\")]"]):
        k = 3 * i
        for seed in range(3):
            vs = [Variant("Abc", Body([], None, "unit"), autopat=ci(k, "Abc")), Variant("Skip", Body([], None, "unit"), skip=True),
                  Variant("Over", Body([], Fmt(["o.v"]), "unit")), Variant("Ab", Body([], None, "unit"), autopat=ci(k, "Ab")), Variant("Z9", Body([], None, "unit"), autopat=ci(k, "Z9"))]
            for j, v in enumerate(vs):
                decorate(v.body, seed * 5 + j)
                if seed == 0 or (seed + j) % 2:
                    v.disc = " = %d" % [1, 9, 255, 7, 100][j]
            ws.append(E.call_witness(FromStrCall("eq%d_%d" % (i, seed), Enum("Eg", vs, "#[derive(Clone, Copy, PartialEq)]\n" + attr)), A08))
    return ws


def decorated_structs():
    ws = []
    for seed in range(8):
        fs = [Field("a", U8), Field("b", rust_ty="u32", default=True), Field("r#type", Builtin("String"))]
        st = Struct("Sx", decorate(Body(fs, Fmt([PH(how=("field", "r#type")), ":", PH(how=("field", "a"))])), seed))
        ws.append(E.call_witness(FromStrCall("sd%d" % seed, st), A07))
        fs = [Field(None, U8), Field(None, Builtin("char")), Field(None, rust_ty="u32", default=True)]
        st = Struct("Sx", decorate(Body(fs, Fmt([PH(how=("field", "1")), ":", PH(how="auto")]), "tuple"), seed + 3))
        ws.append(E.call_witness(Call("sf%d" % seed, Fmt([PH(st), ";", PH(st)])), A07))
    return ws


def ci(i, text):
    """pattern of an autogenerated variant: exact, or every letter case (as Unicode case folding has it)"""
    return "(?i:%s)" % S.esc_ci(text) if i == 3 else S.esc(text)


# ------------------------------------------------------------------------------- custom regexes (C16)

A16 = "sscanf_macro/src/format_option.rs FormatOption::new; regex_parts.rs RegexParts::new"
CUSTOM = ["a", "a|b", "a|b|c", "[a-z]+", "[a-z]+?", "\\d{2,4}", "a/b", "/", "//", "/a", "a/", "\\\\", "\\\\/", "a\\\\", "\\\\\\\\", "\\.", "[/]", "[^/]+/[^/]+", ".*", ".*?",
          "(?:a|b)*", "(?i)a|b", "(?i:x)y", "(?x) a b # c", "(?x)a #", "(?s).", "\\n", "\\t", "\\x41", "\\x{1F600}", "\\u{e9}", "é+", "\\pL", "\\P{Lu}", "[\\]\\[]", "[{}]", "\\{\\}", "a{2}", "a{2,}?",
          "\\b\\w+\\b", "^a$", "", "|", "\\(a\\)", "[(]", "\\[(?:x)\\]", "a:b", ":/x/", "\"", "'", "#", "\"#", "a\\-b", "\\^\\$", "(?-u:\\w)", "\\d", "\\s", "[[:alpha:]]", "[a-c&&b]", " ", "\n", "\t"]


def custom(thorough=False):
    ws = []
    for i, c in enumerate(CUSTOM):
        for rawi, raw in enumerate((None, False)):
            if raw is None and c == "\\\"":
                pass
            uid = "cu%d_%d" % (i, rawi)
            ty = [StrTy(), U8, Hand("Hc", "h"), Builtin("String"), CowTy()][(i + rawi) % 5]
            ws.append(E.call_witness(Call(uid, Fmt(["<", PH(ty, custom=c), ">"], escaped=(i + rawi) % 4 != 3), raw=raw), A16))
            if (i + rawi) % 2 == 0 or thorough:
                ws.append(regex_witness(GetRegex("g" + uid, Fmt([PH(Builtin("String"), custom=c), "x", PH(U8)]), raw=raw), A16))
            if (i + rawi) % 3 == 0 or thorough:
                ws.append(E.call_witness(Call("x" + uid, Fmt([PH(how="ext", custom=c), PH(U8), PH(how=("idx", 1), custom=c)]), [Builtin("i32"), StrTy()], raw=raw), A16))
            if (i + rawi) % 3 == 1 or thorough:
                f = Fmt([PH(how=("field", "b"), custom=c), ",", PH(how="auto")])
                st = Struct("Cs", Body([Field("a", U8), Field("b", Builtin("u16"))], f, attr="#[sscanf(format = %s)]" % S.rust_str(f.text(), raw)))
                ws.append(E.call_witness(FromStrCall("d" + uid, st), A16))
            if (i + rawi) % 5 == 2 or thorough:
                f = Fmt(["v", PH(how="auto", custom=c)])
                en = Enum("Ce", [Variant("V", Body([Field(None, Builtin("String"))], f, "tuple", attr="#[sscanf(format = %s)]" % S.rust_str(f.text(), raw))),
                                 Variant("W", Body([Field(None, U8)], Fmt([PH(how="auto", custom=c), "."]), "tuple"))])
                ws.append(E.call_witness(FromStrCall("e" + uid, en), A16))
    return ws


def custom_more():
    """escape states of the scanner: every short sequence over backslash, slash and a letter that is a valid regex"""
    import regexlang as R
    ws = []
    n = 0
    for k in (1, 2, 3, 4):
        for t in itertools.product("\\/d", repeat=k):
            c = "".join(t)
            r = R.TOOL.parse(c)
            if "err" in r:
                continue
            n += 1
            # in the format every / is written \/ ; a \/ pair of the regex is the same as /
            if "\\/" in c.replace("\\\\", ""):
                continue
            for rawi, raw in enumerate((None, False)):
                ws.append(regex_witness(GetRegex("cm%d_%d" % (n, rawi), Fmt([PH(Builtin("String"), custom=c)]), raw=raw), A16))
    # every triple of pieces
    toks = ["/", "\\\\", "a", "\\d", "\\}", "\\{", ":", '"', "'", "\n", "#", " ", "[/]", "\\x41", "a{2}"]
    tri = ["".join(t) for t in itertools.product(toks, repeat=3)]
    for k in range(0, len(tri), 9):
        part = tri[k:k + 9]
        for rawi, raw in enumerate((None, False)):
            ws.append(regex_witness(GetRegex("ct%d_%d" % (k // 9, rawi), Fmt([x for j, c in enumerate(part) for x in (PH([Builtin("String"), U8][j % 2], custom=c), "-")]), raw=raw), A16))
    # every character, alone and escaped; long ones
    more = []
    for c in [chr(i) for i in range(32, 127)] + ["\n", "\t", "\u00e9", "\U0001F600"]:
        more += ["x%sy" % c, "%s\\\\%s" % (c, c)] + (["x\\%sy" % c, "[\\%s]" % c, "\\\\\\%s" % c] if c in "\\.+*?()|[]^$#&-~{}" or c.isascii() and c.isalnum() else []) if c != "/" else ["x/y", "[/]", "/\\\\/"]
    more += ["(?:ab|c/d)" * 60, "[a-z]{3}\\d" * 80, "\\\\" * 90 + "/" * 20, "x" * 3000, "(?:" * 30 + "a/b" + ")?" * 30, "a|" * 200 + "b", "[" + "".join(chr(0x100 + 2 * i) for i in range(300)) + "]"]
    n = 0
    for i, c in enumerate(more):
        r = R.TOOL.parse("(%s)" % c)
        if "err" in r or R.TOOL.parse(c).get("err"):
            continue
        n += 1
        for rawi, raw in enumerate((None, False)):
            g = GetRegex("cn%d_%d" % (n, rawi), Fmt(["<", PH(Builtin("String"), custom=c), ">"]), raw=raw)
            ws.append(regex_witness(g, A16) if (n + rawi) % 3 else E.call_witness(Call("cn%d_%d" % (n, rawi), Fmt(["<", PH(StrTy(), custom=c), ">"]), raw=raw), A16))
    return ws


# ------------------------------------------------------------------------------- many of everything

def many_calls():
    """more placeholders, types and captures than fit any small counter"""
    ws = []
    for k in (40, 70, 130):
        ext = [[U8, Builtin("char"), StrTy()][j % 3] for j in range(k)]
        ws.append(E.call_witness(Call("mu%d" % k, Fmt([x for j in range(k) for x in (PH([U8, Builtin("char"), Builtin("i8")][j % 3]), ",")])), A06))
        ws.append(E.call_witness(Call("mi%d" % k, Fmt([x for j in range(k - 1, -1, -1) for x in (PH(how=("idx", j)), ",")]), ext), A06))
        ws.append(E.call_witness(Call("ma%d" % k, Fmt([x for j in range(k) for x in (PH(how="ext"), ",")]), ext), A06))
    ws.append(E.call_witness(Call("ms260", Fmt([x for j in range(260) for x in (PH(StrTy()), ",")])), A06))
    for k in (9, 33, 70, 260):
        m = Multi("Mm", [["a", "b*", "(?:c|d)"][j % 3] for j in range(k)])
        ws.append(E.call_witness(Call("mm%d" % k, Fmt([PH(U8), ";", PH(m), ";", PH(how="ext"), "-", PH(m)]), [Builtin("i8")]), A06))
    return ws


def many_structs():
    ws = []
    ts = [U8, Builtin("char"), Builtin("i8")]
    for n in (40, 70, 130):
        for mode in ("auto", "rev"):
            fs = [Field("f%d" % i, ts[i % 3], default=None) for i in range(n)]
            for i in (3, 33, 38, 66, 128):
                if i < n and mode == "rev":
                    fs[i] = mk_field("f%d" % i, "default", None, "b")
            live = [i for i in range(n) if fs[i].default is None]
            items = []
            for i in (live if mode == "auto" else live[::-1]):
                items += [PH(how="auto") if mode == "auto" else PH(how=("field", "f%d" % i)), "/"]
            ws.append(E.call_witness(FromStrCall("bn%d%s" % (n, mode), Struct("Bg", Body(fs, Fmt(items)))), A07))
        for shape in ("tuple", "named"):
            fs = [Field("f%d" % i if shape == "named" else None, ts[i % 3]) for i in range(n)]
            items = []
            for i in [(j * 7 + 5) % n if n % 7 else (j * 3 + 5) % n for j in range(n)]:
                items += [PH(how=("field", str(i))), ","]
            ws.append(E.call_witness(FromStrCall("bi%d%s" % (n, shape[0]), Struct("Bi", Body(fs, Fmt(items), shape))), A07))
    st = Struct("D0", Body([Field("x", U8)], Fmt(["0", PH(how="auto")])))
    for d in range(1, 11):
        st = Struct("D%d" % d, Body([Field("a", Builtin("i8")), Field("b", st)], Fmt([PH(how=("field", "b")), "%d" % d, PH(how=("field", "a"))])))
    ws.append(E.call_witness(FromStrCall("bdeep", st), A07))
    ws.append(E.call_witness(Call("bdeepc", Fmt([PH(U8), ",", PH(st), ",", PH(U8)])), A07))
    return ws


def long_names():
    """fields whose names are long, or agree but for one place, for the case of a letter or for underscores"""
    ws = []
    ts = [U8, Builtin("char"), Builtin("i8"), Builtin("u16")]
    sets = []
    for n in (8, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 48, 60, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300):
        p = ("number_of_things_" * 20)[:n]
        sets.append([p + "a", p + "b", "a" + p, "b" + p, p, p[:n // 2] + "x" + p[n // 2:], p[:n // 2] + "y" + p[n // 2:]])
    sets += [["ab", "aB", "Ab", "AB"], ["a_b", "ab", "a__b", "_ab", "ab_", "_a_b_"], ["a1", "a01", "a_1", "a10", "a"], ["é", "é"[:1], "è", "éé"], ["σ", "ς", "Σ"], ["u8", "i8", "u16", "str", "x", "r36", "b", "o"],
             ["r#type", "type_", "r#fn", "r#match"], ["f0", "f1", "f00", "_0", "_1"], ["self_", "Self_", "this", "src", "value", "n"], ["日本", "日", "本", "本日"]]
    for i, names in enumerate(sets):
        fs = [Field(x, ts[(i + j) % 4]) for j, x in enumerate(names)]
        named = [j for j, x in enumerate(names) if not x.startswith("r#")]
        order = named[::-1][i % 3:] + named[::-1][:i % 3]
        items = []
        for j in order:
            items += [PH(how=("field", names[j])), "/"]
        for j in range(len(names)):
            if j not in named:
                items += [PH(how="auto"), "-"]
        ws.append(E.call_witness(FromStrCall("ln%d" % i, Struct("Ln", Body(fs, Fmt(items)))), A07))
        half = [PH(how=("field", names[j])) if j in order[::2] else PH(how="auto") for j in order]
        ws.append(E.call_witness(FromStrCall("lm%d" % i, Enum("Lm", [Variant("A", Body(list(fs[:len(order)]) if len(order) == len(fs) else [fs[j] for j in sorted(order)], Fmt([y for h in half for y in (h, ",")]))), Variant("B", Body([], Fmt(["b"]), "unit"))])), A07))
    return ws


def many_enums():
    ws = far_derives("derived", True) + far_derives("types", True)
    for n in (34, 70, 130, 260, 520):
        vs = []
        for i in range(n):
            if i % 4 or n > 200 and 8 < i < n - 8:
                skip = i % 33 == 1 or (n > 200 and 8 < i < n - 8 and i != 127 and i != 255)
                vs.append(Variant("V%d" % i, Body([], None if skip else Fmt(["u%d" % i]), "unit"), skip=skip))
            else:
                vs.append(Variant("V%d" % i, Body([Field(None, U8)], Fmt(["w%d" % i, PH(how="auto")]), "tuple")))
        ws.append(E.call_witness(FromStrCall("em%d" % n, Enum("Many", vs)), A08))
    en = plain_enum()
    for d in range(1, 9):
        en = Enum("D%d" % d, [Variant("N", Body([Field(None, en), Field(None, U8)], Fmt(["%d" % d, PH(how=("field", "0")), PH(how=("field", "1"))]), "tuple")),
                              Variant("U", Body([], Fmt(["u%d" % d]), "unit"))][::1 if d % 2 else -1])
    ws.append(E.call_witness(FromStrCall("edeep", en), A08))
    return ws


# ------------------------------------------------------------------------------- far into a format

def far(kind, check=Call):
    """the kinds of placeholders far into a long format, call, struct or enum"""
    def tail(salt):
        if kind == "radix":
            tys = [("u8", "#x"), ("i16", "#b"), ("u32", "r36"), ("i8", "x"), ("u64", "#o"), ("i32", "r2"), ("u16", "b"), ("i64", "x#"), ("usize", "r7")]
            return [(Builtin(tys[(j * 4 + salt) % 9][0]), {"opt": tys[(j * 4 + salt) % 9][1]}) for j in range(2)]
        if kind == "custom":
            cs = ["a|b", "[0-9]{2}", "(?i:X)y?", "x/y", "", ".+?", "\\}+", "(?:p|q)*", "a:b"]
            return [((Builtin("String"), StrTy(), Hand("Ha", "[a-z]+"), CowTy())[(j + salt) % 4], {"custom": cs[(j * 5 + salt) % 9]}) for j in range(6)]
        if kind == "str":
            return [((StrTy(), StrTy("&str"), CowTy(), Builtin("String"))[(j * 3 + salt) % 4], {}) for j in range(5)]
        if kind == "derived":
            return [((plain_struct(), plain_enum(), Multi("Mu", ["a+", "b*"]), simple_struct(), Hand("Ha", "[a-z]+"), simple_enum())[(j + salt) % 6], {}) for j in range(4)]
        return [(Builtin(E.BUILTINS[(j * 11 + salt * 7) % len(E.BUILTINS)]), {}) for j in range(6)]

    ws = []
    seps = [",", "-", "", "=", ".", " "] if kind != "derived" else [",", ";", "/"]
    for q, m in enumerate((7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 66)):
        u = "fa%s%d" % (kind[0], m)
        sep = lambda j: seps[(j + q) % len(seps)]
        if q % 2 or m > 60:
            items = []
            for j in range(m):
                items += [PH(U8), ";"]
            for j, (ty, c) in enumerate(tail(q)):
                items += [PH(ty, **c), sep(j)]
            ws.append(E.call_witness(check(u + "n", Fmt(items[:-1])), A06))
        if q % 2 == 0 or m > 60:
            ts = [U8] * m + [t for t, _ in tail(q + 1)]
            items = []
            for j in range(m):
                items += [PH(how="ext"), ";"]
            for j, (ty, c) in enumerate(tail(q + 1)):
                items += [PH(how="ext" if q % 3 else ("idx", m + j), **c), sep(j)]
            ws.append(E.call_witness(check(u + "e", Fmt(items[:-1]), ts), A06))
        if check is not Call:
            continue
        tl = [x for x in tail(q + 2) if kind != "derived" or not x[0].lt]
        order = list(range(m + len(tl)))[::-1] if q % 4 == 1 else list(range(m + len(tl)))
        fs = [Field("f%d" % j, U8 if j < m else tl[j - m][0]) for j in range(m + len(tl))]
        items = []
        for j in order:
            items += [PH(how="auto" if q % 4 != 1 else ("field", "f%d" % j), **({} if j < m else tl[j - m][1])), ";"]
        if q % 3 == 0:
            ws.append(E.call_witness(FromStrCall(u + "s", Struct("Fa", Body(fs, Fmt(items)))), A06))
        elif q % 3 == 1:
            ws.append(E.call_witness(FromStrCall(u + "v", Enum("Fa", [Variant("A", Body(fs, Fmt(items))), Variant("B", Body([], Fmt(["b"]), "unit"))])), A06))
        else:
            vs = [Variant("V%d" % j, Body([], Fmt(["v%d." % j]), "unit")) for j in range(m)]
            vs += [Variant("W%d" % j, Body([Field(None, ty)], Fmt(["w%d=" % j, PH(how="auto", **c)]), "tuple")) for j, (ty, c) in enumerate(tl)]
            ws.append(E.call_witness(FromStrCall(u + "w", Enum("Fa", vs)), A06))
    return ws


def far_derives(kind, enums):
    return [w for w in far(kind) if isinstance(w.call, FromStrCall) and isinstance(w.call.ty, Enum) == enums]


def far_literals():
    """special characters after many placeholders"""
    ws = []
    for q, m in enumerate((9, 17, 33, 65, 129)):
        text = "".join(c + "a" for c in "".join(dict.fromkeys(META + "{}\n\t /:,\u00e9")))
        items = []
        for j in range(m):
            items += [PH(U8), ";"]
        ws.append(fmt_witness("fl%d" % m, items + [text, PH(StrTy(), "ext"), text[::-1]], [StrTy()], raw=(None, False)[q % 2], anchor=A01))
        ws.append(fmt_witness("fg%d" % m, items + [text[::-1], PH(U8), text], how="regex", raw=(False, None)[q % 2], anchor=A01))
        fs = [Field(None, U8) for j in range(m + 1)]
        ws.append(E.call_witness(FromStrCall("fd%d" % m, Struct("Fd", Body(fs, Fmt([x for j in range(m) for x in (PH(how="auto"), ";")] + [text, PH(how="auto"), text[::-1]]), "tuple"))), A01))
    return ws


# ------------------------------------------------------------------------------- neighbours (C01, C06, C16)

NEAR = ["a", ".", "{", "}", ":", "/", "0", "\\", "n", "#", "\n", "\u00e9", " ",
        ("t", {}), ("e", {}), ("i", {}), ("t", {"opt": "x"}), ("i", {"opt": "#b"}), ("e", {"opt": "r36"}),
        ("t", {"custom": "[a-z]{2}"}), ("e", {"custom": "x/y"}), ("i", {"custom": "/"}), ("t", {"custom": "\\}"}), ("e", {"custom": "a:b"}), ("s", {})]


def debruijn(k, n):
    """cyclic sequence over range(k) holding every word of length n once"""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def neighbours(order=2, step=5, pattern_only=False):
    """every word of `order` tokens (characters and kinds of placeholders) somewhere in a format, and at its start and end"""
    ws = []
    seq = debruijn(len(NEAR), order)
    chunks = [[seq[(j + d) % len(seq)] for d in range(step + order - 1)] for j in range(0, len(seq), step)]
    ints = [Builtin(t) for t in ("i8", "u16", "i32", "u8")]
    for n, ch in enumerate(chunks):
        uid = "nb%d_%d" % (order, n)
        toks = [NEAR[i] for i in ch]
        if pattern_only:
            items = []
            for k, t in enumerate(toks):
                ty = Builtin("char") if (n + k) % 3 else StrTy()
                items.append(t if isinstance(t, str) else PH(RadixTy(ints[(n + k) % 4].rust, t[1]["opt"])) if "opt" in t[1] else PH(ty, **t[1]))
            ws.append(fmt_witness(uid + "p", items, how="regex", raw=(None, False)[n % 2], anchor=A06))
            continue
        ext = [ints[(n + k) % 4] for k, t in enumerate([t for t in toks if t[0] == "e" and not isinstance(t, str)])]
        base = len(ext)
        used = 0
        items = []
        for k, t in enumerate(toks):
            if isinstance(t, str):
                items.append(t)
            elif t[0] == "s":
                items.append(PH(StrTy()))
            elif t[0] == "t":
                ty = ints[(n + k) % 4]
                items.append(PH(RadixTy(ty.rust, t[1]["opt"]) if "opt" in t[1] else ty, **({} if "opt" in t[1] else t[1])))
            elif t[0] == "e":
                items.append(PH(how="ext", **t[1]))
            else:
                items.append(PH(how=("idx", base + (k + n) % 2), **t[1]))
        for b in (0, 1):
            if not any(isinstance(i, PH) and i.how == ("idx", base + b) for i in items):
                items.append(PH(how=("idx", base + b)))
        ext = ext + [ints[n % 4], ints[(n + 1) % 4]]
        ws.append(E.call_witness(Call(uid, Fmt(items), ext, raw=(None, False)[n % 2]), A06))
        if n % 4 == 0:
            # the same in a derive: named types become fields in order
            fs, it2 = [], []
            for i in items:
                if isinstance(i, str):
                    it2.append(i)
                else:
                    ty = ints[(n + len(fs)) % 4]
                    fs.append(Field("f%d" % len(fs), ty))
                    it2.append(PH(how="auto" if not isinstance(i.how, tuple) else ("field", "f%d" % (len(fs) - 1)), custom=i.custom, opt=i.opt))
            ws.append(E.call_witness(FromStrCall(uid + "d", Struct("Nb", Body(fs, Fmt(it2), attr="#[sscanf(format = %s)]" % S.rust_str(Fmt(it2).text(), (None, False)[n % 2])))), A06))
    return ws


# ------------------------------------------------------------------------------- large formats (C10)

def large():
    """formats whose pattern is long or compiles to a large program, all within the limits of Regex::new"""
    ws = []
    w = Builtin("u128")
    for i, (k, tys) in enumerate([(36, [w]), (30, [Builtin("i128")]), (40, [Builtin("u64"), Builtin("f64"), StrTy(), Builtin("char")]), (50, [U8]), (30, [StrTy()])]):
        ws.append(E.call_witness(Call("lg%d" % i, Fmt([x for j in range(k) for x in (PH(tys[j % len(tys)]), ",")])), A10))
    for i, (t, r) in enumerate([("u128", 2), ("i128", 2), ("u128", 3), ("u64", 8)]):
        ws.append(E.call_witness(Call("lr%d" % i, Fmt([x for j in range(12) for x in (PH(RadixTy(t, "r%d" % r)), " ")])), A10))
    for i, text in enumerate(["a." * 2000, "{[(" * 700, "\u00e9" * 1500]):
        ws.append(E.call_witness(Call("ll%d" % i, Fmt([text, PH(U8), text])), A10))
    st = Struct("Lg", Body([Field("f%d" % i, w) for i in range(12)], Fmt([x for i in range(12) for x in (PH(how="auto"), ";")])))
    ws.append(E.call_witness(Call("ls", Fmt([PH(st), "/", PH(st), "/", PH(st)])), A10))
    en = Enum("Le", [Variant("V%d" % i, Body([Field(None, w), Field(None, Builtin("i128"))], Fmt(["v%d" % i, PH(how="auto"), ",", PH(how="auto")]), "tuple")) for i in range(14)])
    ws.append(E.call_witness(FromStrCall("le", en), A10))
    return ws


A10 = "sscanf_macro/src/lib.rs sscanf_internal; sscanf_macro/src/regex_parts.rs"


# ------------------------------------------------------------------------------- cross-sections (C10, C20)

def cross_section(n, k, thorough=False, values=True):
    """every n-th witness of each family"""
    out = []
    fams = [large(), literal_chars(), literal_pairs()[::3], braces()[::4], escapes(), unescaped(), derive_formats(), anchoring(), radix("call"), radix_positions(), singles(),
            mixes(), structs(), enums(), custom()[::2], custom_more()[::2]]
    for f in fams:
        out += f if thorough else f[k % n::n]
    if not values:
        for w in out:
            w.checks = [(r, no_values(fn)) for r, fn in w.checks]
    return out


def no_values(fn):
    def g(p, ip, r):
        S.VALUES = False
        try:
            return fn(p, ip, r)
        finally:
            S.VALUES = True
    return g


# ------------------------------------------------------------------------------- capture accounting (C09, C11)

A09 = "sscanf_macro/src/derive.rs (NUM_CAPTURES, from_matches); src/from_scanf.rs blanket impl; sscanf_macro/src/lib.rs sscanf_internal"


class CaptureCount:
    """NUM_CAPTURES, the groups of REGEX and the captures from_matches takes, of one type"""

    def __init__(self, uid, ty, pre=""):
        self.uid, self.ty, self.pre = uid, ty, pre

    def source(self):
        t = self.ty.result()
        return """pub mod m_%(u)s { use super::*;
%(d)s%(p)spub fn w_%(u)s<'a>(input: &'a str) -> ::std::option::Option<(usize, usize, usize, ::std::primitive::bool)> {
  let re = ::sscanf::regex::Regex::new(&::std::format!("^(?:{})$", <%(t)s as ::sscanf::RegexRepresentation>::REGEX)).unwrap();
  let cap = match re.captures(input) { ::std::option::Option::Some(c) => c, _ => return ::std::option::Option::None };
  let mut it = cap.iter();
  let before = it.len();
  let ok = <%(t)s as ::sscanf::FromScanf>::from_matches(&mut it).is_ok();
  ::std::option::Option::Some((re.captures_len(), <%(t)s as ::sscanf::FromScanf>::NUM_CAPTURES, before - it.len(), ok))
} }
""" % {"u": self.uid, "d": S.all_defs([self.ty]), "p": self.pre, "t": t}

    def witness(self):
        return E.W(self.uid, self.source(), "%s: NUM_CAPTURES, REGEX and from_matches\n%s" % (self.ty.result(), S.all_defs([self.ty])[-600:]), [("w_" + self.uid, self.check)], anchor=A09)

    def check(self, prog, ip, root):
        v = S.Verdict()
        for o in ip.run(root):
            v.paths += 1
            v.obligations += 1
            if o.kind == "panic":
                if o.st.undecided:
                    v.open.append("panic %s after undecided %s" % (o.msg, o.st.undecided[0]))
                else:
                    v.bad.append(S.Finding("from_matches can panic: %s" % str(o.msg)[:200], log=o.st.log))
                continue
            if o.kind == "imprecise":
                v.open.append("not analysed: %s" % o.msg)
                continue
            val = o.st.deep(o.value)
            if not isinstance(val, S.X.Agg):
                v.open.append("result %s" % S.show(val))
                continue
            if val.variant == 0:
                continue
            t = val.fields[0]
            n, num, took, ok = t.fields
            if not all(isinstance(x, int) for x in (n, num, took)):
                v.open.append("counts %s" % S.show(t))
                continue
            if n != num:
                v.bad.append(S.Finding("NUM_CAPTURES is %d but the regex has 1 + %d groups" % (num, n - 1), log=o.st.log))
            if ok is True and took != num:
                v.bad.append(S.Finding("from_matches takes %d captures, NUM_CAPTURES is %d" % (took, num), log=o.st.log))
            elif ok not in (True, False):
                v.open.append("unknown outcome of from_matches: %s" % S.show(ok))
        return v


def takes_all(call):
    """on every Ok path of a call all groups of its regex are taken, each once"""
    def check(prog, ip, root):
        v = S.Verdict()
        for o in ip.run(root):
            v.paths += 1
            if o.kind != "return":
                continue
            val = o.st.deep(o.value)
            if not (isinstance(val, S.X.Agg) and val.variant == 0 and 0 in o.st.caps):
                continue
            v.obligations += 1
            total = len(o.st.caps[0]["info"])
            taken = [e[2] for e in o.st.events if e[0] == "taken" and e[1] == 0]
            if not taken and total == 0:
                continue
            if not taken or max(taken) != total:
                v.bad.append(S.Finding("the matchers take %d of the regex's %d groups" % (max(taken) if taken else 0, total), log=o.st.log))
        return v
    return check


def capture_counts(thorough=False):
    ws = []
    seen = set()
    src = structs(thorough) + enums(thorough) + namesakes() + radix_positions() + derive_formats() + custom() + anchoring()
    for w in src:
        c = w.call
        if c is None or getattr(c, "partial", False):
            continue
        tys = [c.ty] if isinstance(c, FromStrCall) else [t for t in c.types() if isinstance(t, (Struct, Enum, Hand, Multi))]
        for t in tys:
            key = t.result() + S.all_defs([t])
            if key in seen:
                continue
            seen.add(key)
            ws.append(CaptureCount("cc%d" % len(ws), t).witness())
    for i, b in enumerate(E.BUILTINS):
        ws.append(CaptureCount("cb%d" % i, Builtin(b)).witness())
    n = 0
    for w in mixes(thorough) + namesakes() + structs()[::3] + enums()[::2] + custom()[::4] + radix_positions()[::5]:
        c = w.call
        if not isinstance(c, Call) or isinstance(c, GetRegex):
            continue
        n += 1
        ws.append(E.W("ta_" + c.uid, w.src, c.describe(), [("w_" + c.uid, takes_all(c))], anchor=A09))
    return ws


# ------------------------------------------------------------------------------- from_str (C24)

A24 = "src/from_scanf.rs FromScanf::from_str"


class WholeEv(S.Ev):
    """group texts read as the whole input"""

    def text(self, g):
        return self.st.normal(S.X.Str((S.X.Var("arg0"),)))


def check_blanket(ty):
    def check(prog, ip, root):
        v = S.Verdict()
        for o in ip.run(root):
            v.paths += 1
            v.obligations += 1
            st = o.st
            if o.kind == "panic":
                v.bad.append(S.Finding("can panic: %s" % str(o.msg)[:200], log=st.log))
                continue
            if o.kind == "imprecise":
                v.open.append("not analysed: %s" % o.msg)
                continue
            val = st.deep(o.value)
            ev = WholeEv(prog, st)
            try:
                if not isinstance(val, S.X.Agg):
                    raise S.Mismatch("the result is %s" % S.show(val))
                r, p = ty.eval(ev, 0)
                if r == "ok":
                    if val.variant != 0:
                        raise S.Mismatch("Err although the conversion succeeded")
                    p.need(ev, val.fields[0], "value")
                else:
                    if val.variant != 1:
                        raise S.Mismatch("Ok although the conversion failed")
                    S.PAdt("Error", "ParsingFailed", {"0": p}).need(ev, val.fields[0], "error")
            except S.Mismatch as e:
                (v.open.append("%s after undecided" % e) if st.undecided else v.bad.append(S.Finding(str(e), log=st.log)))
        return v
    return check


def from_strs(thorough=False):
    ws = []
    for i, b in enumerate(E.BUILTINS):
        c = FromStrCall("fb%d" % i, Builtin(b))
        ws.append(E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, check_blanket(Builtin(b)))], anchor=A24))
    for i, p in enumerate(["x", "a|b", "", "[0-9]+"]):
        t = Hand("Hx", p)
        c = FromStrCall("fh%d" % i, t)
        ws.append(E.W(c.uid, c.source(), c.describe(), [("w_" + c.uid, check_blanket(t))], anchor=A24))
    pats = [["a+", "b*"], ["x"], ["a|b", "c|"], [], [".*?", ".*"], ["(?i)q", "[^:]+", "$"], ["\\d{2}", "(?:u|v)?"]]
    n = 0
    for p in pats:
        for sep in (":", "|", ""):
            n += 1
            t = Multi("Mz", p, sep)
            ws.append(E.call_witness(FromStrCall("fm%d" % n, t), A24))
            ws.append(E.call_witness(Call("fn%d" % n, Fmt([PH(t)])), A24))
    seen = set()
    for w in structs(thorough)[:: 1 if thorough else 2] + enums(thorough) + derive_formats() + custom() + anchoring() + radix_positions():
        c = w.call
        if c is None or getattr(c, "partial", False):
            continue
        tys = [c.ty] if isinstance(c, FromStrCall) else [t for t in c.types() if isinstance(t, (Struct, Enum))]
        for t in tys:
            key = t.result() + S.all_defs([t])
            if key in seen:
                continue
            seen.add(key)
            n += 1
            ws.append(E.call_witness(FromStrCall("fd%d" % n, t), A24))
            ws.append(E.call_witness(Call("fe%d" % n, Fmt([PH(t)])), A24))
    return ws


# ------------------------------------------------------------------------------- errors (C12)

A12 = "src/errors.rs; sscanf_macro/src/derive.rs, regex_parts.rs (error mapping)"
WALK = """
pub fn walk(e: ::sscanf::Error) -> ::std::string::String {
  let mut out = ::std::string::String::new();
  let mut cur: ::std::option::Option<&(dyn ::std::error::Error + 'static)> = ::std::option::Option::Some(&e);
  let mut n = 0;
  while let ::std::option::Option::Some(x) = cur {
    out.push_str(&::std::string::ToString::to_string(x)); out.push('\\u{1}');
    cur = x.source();
    n += 1; if n > 39 { return out; }
  }
  out.push('\\u{2}'); out }
"""


def levels(p):
    """what each level of the error is about: ('type', name) / ('text', t) / ('value', Pat)"""
    if isinstance(p, S.PAdt):
        if p.name == "Error":
            return [None] + (levels(p.fields["0"]) if p.variant == "ParsingFailed" else [])
        if p.name == "FromScanfFailedError":
            return [("text", p.fields["type_name"].v.const())] + levels(p.fields["error"])
        if p.name == "FromStrFailedError":
            t = p.fields["type_name"]
            return [("type", t.name) if isinstance(t, S.PTypeName) else None] + levels(p.fields["error"])
        if p.name == "FilterMapNoneError":
            return [("text", p.fields["field_name"].v.const())]
    return [("value", p)]


def error_walk(call):
    def check(prog, ip, root):
        v = S.Verdict()
        for o in ip.run(root):
            v.paths += 1
            st = o.st
            if o.kind == "panic":
                v.bad.append(S.Finding("formatting the error can panic: %s" % str(o.msg)[:200], log=st.log))
                continue
            if o.kind == "imprecise":
                v.open.append("not analysed: %s" % o.msg)
                continue
            capev = [e for e in st.events if e[0] == "captures"]
            val = st.deep(o.value)
            if len(capev) != 1 or not isinstance(val, S.X.Str):
                v.open.append("no search or no text: %s" % S.show(val))
                continue
            ev = S.Ev(prog, st)
            try:
                if not st.look(("match", capev[0][1], capev[0][2])):
                    lv = [None]
                else:
                    r, p = call.expected(ev)
                    if r == "ok":
                        v.obligations += 1
                        if val.parts:
                            raise S.Mismatch("error %s although every conversion succeeded" % S.show(val))
                        continue
                    lv = levels(p)
                v.obligations += len(lv)
                got, cur, ended = [], [], False
                for part in val.parts:
                    if isinstance(part, str):
                        for i, s in enumerate(part.split("\x01")):
                            if i:
                                got.append(cur)
                                cur = []
                            if "\x02" in s:
                                ended = True
                            elif s:
                                cur.append(s)
                    else:
                        cur.append(part)
                if not ended:
                    raise S.Mismatch("source() does not end")
                if len(got) != len(lv):
                    raise S.Mismatch("source() gives %d errors instead of %d: %s" % (len(got), len(lv), S.show(val)))
                for i, d in enumerate(got):
                    if not d:
                        raise S.Mismatch("level %d has an empty description" % i)
                    for j in range(i, len(lv)):
                        if lv[j] is not None and not mentions(ev, d, lv[j]):
                            raise S.Mismatch("the description of level %d does not include %s of level %d: %s" % (i, lv[j][1], j, S.show(S.X.Str(d))))
            except S.Mismatch as e:
                (v.open.append("%s after undecided" % e) if st.undecided else v.bad.append(S.Finding(str(e), log=st.log)))
            except (IndexError, KeyError) as e:
                v.open.append("expectation not evaluable: %r" % (e,))
        return v
    return check


def mentions(ev, parts, what):
    kind, x = what
    for p in parts:
        if kind == "text" and isinstance(p, str) and x in p:
            return True
        if kind == "type":
            if isinstance(p, S.X.Sym) and p.op == "type_name" and p.args == (x,):
                return True
            if isinstance(p, str) and x.split("<")[0].rsplit("::", 1)[-1] in p:
                return True
        if kind == "value" and isinstance(p, str) and isinstance(x, S.PSym) and x.op == "err" and isinstance(x.args[0], S.PSym) and "<<%s>>" % x.args[0].op in p:
            return True
        if kind == "value" and isinstance(p, S.X.Sym) and p.op == "disp":
            try:
                x.need(ev, p.args[0], "")
                return True
            except S.Mismatch:
                pass
    return False


def error_witness(call):
    inner = call.source()
    # the same call, its error walked
    call_fn = "w_" + call.uid
    src = inner.replace("pub fn " + call_fn + "<'a>", "pub fn c_" + call.uid + "<'a>", 1)
    end = src.rindex("}")
    src = src[:end] + WALK + "pub fn %s(input: &str) -> ::std::string::String { match c_%s(input) { ::std::result::Result::Ok(_) => ::std::string::String::new(), ::std::result::Result::Err(e) => walk(e) } }\n}\n" % (call_fn, call.uid)
    return E.W(call.uid, src, "source() and Display of the error of " + call.describe(), [(call_fn, error_walk(call))], anchor=A12)


def deep(k, i):
    """k nested derived types ending in a fallible conversion"""
    leafs = [Field("v", U8), Field("v", RadixTy("i16", "#x")), Field("v", Builtin("i64"), conv=Conv("filter_map", None, "lf")),
             Field("v", Builtin("u16"), conv=Conv("try_from", None, "lt")), Field("v", Hand("Hl", "h+")), Field("v", Builtin("f64")),
             Field("v", Builtin("std::num::NonZeroU8")), Field("v", Builtin("bool")), Field("v", Multi("Ml", ["m", "n"])), Field("v", Builtin("char"))]
    f = leafs[i % len(leafs)]
    t = Struct("Leaf", Body([f], Fmt(["l", PH(how="auto", opt=f.ty.opt if isinstance(f.ty, RadixTy) else None)])))
    for j in range(k):
        n = "Lv%d" % j
        if (i + j) % 3 == 0:
            t = Enum(n, [Variant("X", Body([], Fmt(["x"]), "unit")), Variant("In", Body([Field(None, t), Field(None, Builtin("u16"))], Fmt(["(", PH(how="auto"), ",", PH(how="auto"), ")"]), "tuple"))])
        elif (i + j) % 3 == 1:
            t = Struct(n, Body([Field("inner", t)], Fmt(["[", PH(how="auto"), "]"])))
        else:
            t = Struct(n, Body([Field("a", U8), Field("inner", t)], Fmt([PH(how=("field", "inner")), ";", PH(how=("field", "a"))])))
    return t


def errors(thorough=False):
    ws = []
    n = 0
    for k in range(0, 5 if thorough else 4):
        for i in range(10):
            t = deep(k, i)
            n += 1
            calls = [FromStrCall("ek%d" % n, t), Call("el%d" % n, Fmt([PH(t), " ", PH(U8)]))]
            if i % 2:
                calls.append(Call("em%d" % n, Fmt([PH(Builtin("i8")), PH(t)], escaped=False)))
            for c in calls:
                ws.append(error_witness(c))
                ws.append(E.call_witness(S_clone(c, "v" + c.uid), A12))
    for i, b in enumerate(E.BUILTINS):
        ws.append(error_witness(Call("eb%d" % i, Fmt([PH(Builtin(b)), "-", PH(Builtin(E.BUILTINS[(i * 5 + 2) % len(E.BUILTINS)]))]))))
    for i, o in enumerate(OPTS):
        ws.append(error_witness(Call("er%d" % i, Fmt([PH(RadixTy(S.INTS[i % 12], o)), "-", PH(RadixTy(S.INTS[(i + 7) % 12], OPTS[(i * 3) % len(OPTS)]))]))))
    for w in {w.uid: w for w in structs()[::5] + enums()[::3] + [x for x in structs() + enums() if x.uid.endswith("deep")] + mixes()[::4]}.values():
        if w.call is not None and not getattr(w.call, "partial", False):
            ws.append(error_witness(S_clone(w.call, "ex_" + w.call.uid)))
    # names of every length in the messages
    for i, n in enumerate((1, 2, 8, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 41, 48, 63, 64, 65, 80, 100, 128, 129, 200, 256, 300)):
        name, fname = ("TheNumberOfThings" * 20)[:n - 1] + "Z", ("the_number_of_things_" * 20)[:n - 1] + "z"
        fs = [Field(fname, U8, conv=Conv(("filter_map", "try_from")[i % 2], None, "q1")), Field(fname[:-1] + "y", Builtin("i8"), conv=Conv("filter_map", None, "q2"))]
        b = lambda: Body(fs, Fmt([PH(how="auto"), ",", PH(how="auto")]))
        t = Struct(name, b()) if i % 2 else Enum(name, [Variant("V" + name, b()), Variant("B", Body([], Fmt(["b"]), "unit"))])
        ws.append(error_witness(FromStrCall("eln%d" % i, t)))
        ws.append(error_witness(Call("elm%d" % i, Fmt([PH(Struct("Outer" + name, Body([Field(fname, t)], Fmt(["<", PH(how="auto"), ">"])))), " ", PH(Builtin("u16"))]))))
        ws.append(E.call_witness(FromStrCall("elv%d" % i, t), A12))
    for i, n in enumerate((9, 10, 11, 12, 13, 33)):
        fs = [Field(None, Builtin("String")) for j in range(n)] + [Field(None, U8, conv=Conv("filter_map", None, "q1")), Field(None, U8)]
        ws.append(error_witness(FromStrCall("elt%d" % i, Struct("Elt", Body(fs, Fmt([x for j in range(n + 2) for x in (PH(how="auto"), ",")]), "tuple")))))
        ws.append(error_witness(FromStrCall("elu%d" % i, Enum("Elu", [Variant("V%d" % j, Body([], Fmt(["v%d." % j]), "unit")) for j in range(n)] + [Variant("W", Body([Field("\u00e4\u00f6" * n, U8, conv=Conv("filter_map", None, "q1"))], Fmt([PH(how="auto")])))]))))
    for k in ("types", "derived", "radix"):
        ws += [error_witness(S_clone(w.call, "ef_" + w.call.uid)) for w in far(k)[k == "types"::2]]
    for i, (vn, t) in enumerate((("Hex", "0x"), ("Octal", "0o"), ("Binary", "0b"))):
        uid = "mp%d" % i
        ws.append(E.W(uid, "pub mod m_%s { use super::*; pub fn w_%s() -> ::std::string::String { ::std::string::ToString::to_string(&::sscanf::errors::MissingPrefixError::%s) } }\n" % (uid, uid, vn),
                      "Display of MissingPrefixError::" + vn, [("w_" + uid, const_contains(t))], anchor=A12))
    return ws


def const_contains(t):
    def check(prog, ip, root):
        v = S.Verdict()
        for o in ip.run(root):
            v.paths += 1
            v.obligations += 1
            val = o.st.deep(o.value) if o.kind == "return" else None
            c = val.const() if isinstance(val, S.X.Str) else None
            if c is None:
                v.open.append("text not known: %s" % S.show(val))
            elif t not in c:
                v.bad.append(S.Finding("the text is %r, without %r" % (c, t)))
        return v
    return check


def S_clone(c, uid):
    import copy
    d = copy.copy(c)
    d.uid = uid
    return d


# ------------------------------------------------------------------------------- spellings (C15)

A15 = "sscanf_macro/src/ty.rs; sscanf_macro/src/lib.rs; src/macros.rs"
STRS = ["str", "primitive::str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str"]
COWS = ["Cow<str>", "Cow<'_, str>", "borrow::Cow<str>", "std::borrow::Cow<str>", "::std::borrow::Cow<str>", "std::borrow::Cow<'_, str>", "::std::borrow::Cow<'_, str>",
        "alloc::borrow::Cow<str>", "::alloc::borrow::Cow<str>", "Cow<std::primitive::str>", "borrow::Cow<'_, ::core::primitive::str>"]
USES = "use ::std::primitive; use ::std::borrow; "


def spellings(thorough=False):
    ws = []
    n = 0
    tys = [StrTy(s) for s in STRS] + [StrTy("&" + s) for s in STRS] + [StrTy("& " + s) for s in STRS[:2]] + [CowTy(c) for c in COWS]
    for t in tys:
        if "alloc" in t.rust:
            pre = USES + "extern crate alloc; "
            if t.rust.startswith("::"):
                continue
        else:
            pre = USES
        for k, (fmt, ext) in enumerate(((lambda: Fmt(["a", PH(t), "b", PH(U8)]), []), (lambda: Fmt(["a", PH(how="ext"), "b", PH(how="ext")]), [t, U8]),
                                        (lambda: Fmt(["a", PH(how=("idx", 0)), "b", PH(how=("idx", 1))]), [t, U8]),
                                        (lambda: Fmt(["a", PH(t, custom="x|y"), "b", PH(U8)]), []),
                                        (lambda: Fmt(["a", PH(how="ext", custom="[a-z]/"), PH(how=("idx", 0))], escaped=k == 1), [t]))):
            n += 1
            ws.append(E.call_witness(Call("sp%d" % n, fmt(), ext, pre=pre), A15))
            ws.append(regex_witness(GetRegex("sg%d" % n, fmt() if k < 4 else Fmt([PH(how="ext")]), ext, pre=pre), A15))
    # several spellings next to each other, reached by index
    for i in range(len(STRS)):
        ext = [StrTy(STRS[i]), CowTy(COWS[i]), StrTy("&" + STRS[-1 - i])]
        ws.append(E.call_witness(Call("sm%d" % i, Fmt([PH(how=("idx", 2)), ",", PH(how="ext"), ",", PH(how="ext"), ";", PH(how=("idx", 0))]), ext, pre=USES), A15))
    # the same format, raw and ordinary, with every kind of character
    texts = ["a\nb", "\t", "\\", "\\d", "a\"b", "#", "{", "}", "{}", "é", "\u200b", "'", "a.b*", "\\n", "\\u{41}", "\\x41", "\\\"", "", "(", "\\\\"]
    for i, t in enumerate(texts):
        for raw in (None, False):
            for how in ("call", "regex"):
                n += 1
                ws.append(fmt_witness("sr%d" % n, [t, PH(U8), t, PH(StrTy(), custom="\\d[\"\\n]/\\\\|a"), t], how=how, raw=raw, anchor=A15))
        f = Fmt([t, PH(how="auto"), t])
        for j, a in enumerate(["#[sscanf(format = %s)]" % S.rust_str(f.text(), None), "#[sscanf(format = %s)]" % S.rust_str(f.text(), False), "#[sscanf(%s)]" % S.rust_str(f.text(), False),
                               "#[sscanf(format_unescaped = %s)]", "#[sscanf(%s)]"]):
            n += 1
            g = f
            if j >= 3:
                g = Fmt([S.esc(t), PH(how="auto"), S.esc(t)], escaped=False)
                a = a % S.rust_str(g.text(), None)
            elif a.startswith('#[sscanf(r'):
                continue
            g = Fmt([x if isinstance(x, str) else PH(how="auto") for x in g.items], g.escaped)
            st = Struct("Sp", Body([Field("v", U8)], g, attr=a))
            ws.append(E.call_witness(FromStrCall("sf%d" % n, st), A15))
            en = Enum("Sq", [Variant("A", Body([Field(None, StrTy())], Fmt([x if isinstance(x, str) else PH(how="auto") for x in g.items], g.escaped), "tuple", attr=a)), Variant("B", Body([], Fmt(["b"]), "unit"))])
            ws.append(E.call_witness(FromStrCall("sv%d" % n, en), A15))
    # the two spellings of the forced prefix
    for ty in S.INTS:
        for a in "xob":
            for o in ("#" + a, a + "#"):
                n += 1
                ws.append(E.call_witness(Call("so%d" % n, Fmt(["<", PH(RadixTy(ty, o)), ">", PH(how="ext", opt=o)]), [Builtin(ty)]), A15))
    # aliases
    for i, (m, esc) in enumerate((("sscanf", True), ("scanf", True), ("sscanf_unescaped", False), ("scanf_unescaped", False))):
        ws.append(E.call_witness(Call("al%d" % i, Fmt(["a.", PH(U8), "b*", PH(how="ext")], esc), [StrTy()], macro=m), A15))
    for i, m in enumerate(("sscanf_get_regex", "scanf_get_regex")):
        ws.append(regex_witness(GetRegex("ag%d" % i, Fmt(["a.", PH(U8), "b*", PH(how="ext")]), [StrTy()], macro=m), A15))
    for i, alias in enumerate(("FromScanf", "FromSscanf")):
        st = Struct("Al", Body([Field("v", U8), Field("w", StrTy())], Fmt(["<", PH(how="auto"), "|", PH(how="auto"), ">"])))
        c = FromStrCall("ad%d" % i, st)
        w = E.call_witness(c, A15)
        w.src = w.src.replace("::sscanf::FromScanf)", "::sscanf::%s)" % alias).replace("as ::sscanf::FromScanf>", "as ::sscanf::%s>" % alias)
        ws.append(w)
    # fields by name, index, implicitly, and mixed
    for i in range(4):
        fs = lambda: [Field("one", U8), Field("two", StrTy()), Field("three", Builtin("i16"))]
        hows = [["auto"] * 3, [("field", "one"), ("field", "two"), ("field", "three")], [("field", "0"), ("field", "1"), ("field", "2")], [("field", "0"), "auto", ("field", "three")]][i]
        st = Struct("Nm", Body(fs(), Fmt([x for h in hows for x in (PH(how=h), ",")])))
        ws.append(E.call_witness(FromStrCall("nm%d" % i, st), A15))
        en = Enum("Ne", [Variant("V", Body(fs(), Fmt([x for h in hows for x in (PH(how=h), ";")])))])
        ws.append(E.call_witness(Call("nv%d" % i, Fmt([PH(en)])), A15))
    # field types spelled differently in derives
    for i, t in enumerate(["&'a str", "&'a ::std::primitive::str", "&'a core::primitive::str", "&'a primitive::str"]):
        st = Struct("Fs", Body([Field("v", FieldStr(t)), Field("c", FieldCow(["Cow<'a, str>", "::std::borrow::Cow<'a, str>", "borrow::Cow<'a, str>", "std::borrow::Cow<'a, std::primitive::str>"][i]))], Fmt([PH(how="auto"), "-", PH(how="auto")])))
        ws.append(E.call_witness(FromStrCall("ft%d" % i, st, pre=USES), A15))
    # every path of Cow around every path of str, with and without a lifetime, blanks and commas
    heads = ["Cow", "borrow::Cow", "std::borrow::Cow", "::std::borrow::Cow", "alloc::borrow::Cow", "std :: borrow :: Cow"]
    k = 0
    for h in heads:
        for t in STRS:
            k += 1
            pre = USES + ("extern crate alloc; " if "alloc" in h else "")
            c1, c2 = CowTy("%s<%s%s>" % (h, t, "," * (k % 2))), CowTy("%s<'_, %s%s>" % (h, t, " ," * (k // 2 % 2)))
            ws.append(E.call_witness(Call("cp%d" % k, Fmt([PH(c1), "/", PH(how="ext"), "/", PH(c2), "/", PH(how="ext")]), [c2, c1], pre=pre), A15))
            c3 = "%s<'a, %s%s>" % (h, t, "," * (k % 2))
            fs = [Field("v", FieldCow(c3)), Field("w", FieldStr("&'a %s" % t))]
            b = Body(fs, Fmt([PH(how="auto"), "-", PH(how="auto")]))
            ws.append(E.call_witness(FromStrCall("cq%d" % k, Struct("Fs", b) if k % 2 else Enum("Fe", [Variant("A", Body([], Fmt(["a"]), "unit")), Variant("B", b)]), pre=pre), A15))
    ws += macro_twins(thorough) + lookalikes()
    return ws


class FieldStr(StrTy):
    def result(self):
        return self.rust


class FieldCow(CowTy):
    def result(self):
        return self.rust


def macro_twins(thorough=False):
    """sscanf! and sscanf_get_regex! with the same arguments"""
    ws = []
    k = 0
    for w in mixes()[::3] + custom()[::5] + literal_pairs()[::6]:
        c = w.call
        if type(c) is not Call or not c.fmt.escaped:
            continue
        k += 1
        ws.append(E.call_witness(S_clone(c, "tw%d" % k), A15))
        g = GetRegex("tg%d" % k, c.fmt, c.ext, raw=c.raw, lit=c.lit)
        ws.append(regex_witness(g, A15))
    return ws


# ------------------------------------------------------------------------------- autogen (C23)

A23 = "sscanf_macro/src/attribute/enum.rs; sscanf_macro/src/derive.rs parse_enum"
CASES = {"lower case": ("lower", " "), "UPPER CASE": ("upper", " "), "lowercase": ("lower", ""), "UPPERCASE": ("upper", ""), "PascalCase": ("capital", ""),
         "camelCase": ("camel", ""), "snake_case": ("lower", "_"), "SCREAMING_SNAKE_CASE": ("upper", "_"), "kebab-case": ("lower", "-"), "SCREAMING-KEBAB-CASE": ("upper", "-")}


def words(ident):
    """words of an identifier: at underscores, where case or the class letter/digit changes, and before the last capital of an acronym"""
    def kind(c):
        return "d" if c.isdigit() else "u" if c.isupper() else "l" if c.islower() else "?"
    out, w = [], ""
    for i, c in enumerate(ident):
        if c == "_":
            out.append(w)
            w = ""
            continue
        if i:
            a, b = kind(ident[i - 1]), kind(c)
            nxt = kind(ident[i + 1]) if i + 1 < len(ident) else ""
            if (a, b) in (("l", "u"), ("u", "d"), ("d", "u"), ("d", "l"), ("l", "d")) or a == b == "u" and nxt == "l":
                out.append(w)
                w = ""
        w += c
    out.append(w)
    return [x for x in out if x]


def case_text(ident, case):
    ident = ident[2:] if ident.startswith("r#") else ident
    if case in (None, "CaseSensitive"):
        return ident
    style, sep = CASES[case]
    ws = words(ident)

    def cap(w):
        return w[0].upper() + w[1:].lower()
    if style == "lower":
        ws = [w.lower() for w in ws]
    elif style == "upper":
        ws = [w.upper() for w in ws]
    elif style == "capital":
        ws = [cap(w) for w in ws]
    else:
        ws = [w.lower() if i == 0 else cap(w) for i, w in enumerate(ws)]
    return sep.join(ws)


IDENTS = ["HelloWorld", "A", "Ab", "AB", "ABc", "HTTPServer", "Snake_case", "SCREAMING", "SCREAMING_SNAKE", "camelCase", "V2", "Utf8Text", "X86_64", "Abc123def",
          "Ünïcode", "ÄÖ", "Straße", "É1", "__Lead", "Trail_", "r#type", "r#Match", "A1b2", "ΣΑΣ", "lower", "K", "Kelvin", "OneTwoThree", "IOError", "XMLHttpRequest2",
          "a_b__c", "NaN", "Inf", "True", "Ok", "None", "Foo_", "I", "Ⅷ"[:0] or "Zz9Zz", "été", "日本", "Err", "Result", "n", "s", "value", "kS", "Ss"]


def autogen(thorough=False):
    ws = []
    n = 0
    all_cases = [None, "CaseSensitive", "CaseInsensitive", "CAsEiNsenSiTIvE"] + list(CASES)
    for ci_, case in enumerate(all_cases):
        insens = case is not None and case.lower() == "caseinsensitive"
        for k in ("autogen", "autogenerate"):
            attr = "#[sscanf(%s)]" % k if case is None else "#[sscanf(%s = %s)]" % (k, S.rust_str(case, False))
            step = 6 if k == "autogen" else 11
            ids = IDENTS if k == "autogen" else IDENTS[ci_ % 7:] + IDENTS[:ci_ % 7]
            for j in range(0, len(ids), step):
                vs = []
                for i in ids[j:j + step]:
                    name = i[2:] if i.startswith("r#") else i
                    pat = "(?i:%s)" % S.esc_ci(name) if insens else S.esc(case_text(i, case))
                    shape = ("unit", "tuple", "named")[n % 3] if k == "autogenerate" else "unit"
                    vs.append(Variant(i, Body([], None, shape), autopat=pat))
                n += 1
                if n % 3 == 0:
                    vs.insert(n % (len(vs) + 1), Variant("Skipped", Body([], None, "unit"), skip=True))
                if n % 4 == 0:
                    vs.insert(n * 3 % (len(vs) + 1), Variant("Formatted", Body([Field(None, U8)], Fmt(["Format.", PH(how="auto")]), "tuple")))
                if n % 5 == 0:
                    vs.insert(n * 5 % (len(vs) + 1), Variant("Unescaped", Body([], Fmt(["un[e]s+"], escaped=False), "unit")))
                en = Enum("Ag", vs, attr)
                ws.append(E.call_witness(FromStrCall("ag%d" % n, en) if n % 2 else Call("ag%d" % n, Fmt(["<", PH(en), ">", PH(U8)])), A23))
    # long names, names of many words, many variants
    for ci_, case in enumerate(all_cases):
        insens = case is not None and case.lower() == "caseinsensitive"
        pat = lambda i: "(?i:%s)" % S.esc_ci(i) if insens else S.esc(case_text(i, case))
        attr = "#[sscanf(autogen)]" if case is None else "#[sscanf(autogen = %s)]" % S.rust_str(case, None)
        for k, ids in enumerate(([("ConnectionClosed" * 20)[:n] + "X" for n in (15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100)], [("Abc" * 100)[:n] + "d" for n in (127, 128, 129, 200, 255, 256, 300)], ["x" * n for n in range(2, 40, 3)],
                                 ["Ab" * n + "C" for n in (2, 5, 8, 9, 10, 13, 17, 26, 33, 50, 65, 130)], ["Qw%d" % j for j in (0, 1, 9, 10, 11, 99, 100, 255, 256, 1000, 65535, 65536)], ["V%dx" % j for j in range(70 + ci_)])):
            n += 1
            ws.append(E.call_witness(FromStrCall("al%d_%d" % (ci_, k), Enum("Al", [Variant(i, Body([], None, "unit"), autopat=pat(i)) for i in ids], attr)), A23))
    # one variant per enum: exactly one text
    for ci_, case in enumerate(all_cases):
        for i in IDENTS[ci_ % 4::4] if not thorough else IDENTS:
            insens = case is not None and case.lower() == "caseinsensitive"
            name = i[2:] if i.startswith("r#") else i
            pat = "(?i:%s)" % S.esc_ci(name) if insens else S.esc(case_text(i, case))
            attr = "#[sscanf(autogen)]" if case is None else "#[sscanf(autogen = %s)]" % S.rust_str(case, None)
            n += 1
            ws.append(E.call_witness(FromStrCall("a1_%d" % n, Enum("Ao", [Variant(i, Body([], None, "unit"), autopat=pat)], attr)), A23))
    # no other value is accepted
    bad = ["", " ", "lower", "UPPER", "Lowercase", "lowerCase", "LOWERCASE", "uppercase", "UpperCase", "Lower Case", "LOWER CASE", "upper case", "pascalcase", "Pascal", "pascalCase", "PASCALCASE", "CamelCase", "camelcase",
           "SnakeCase", "Snake_Case", "SNAKE_CASE", "snake-case", "screaming_snake_case", "SCREAMING_SNAKE", "SCREAMING SNAKE CASE", "kebab_case", "KEBAB-CASE", "Kebab-Case", "screaming-kebab-case",
           "casesensitive", "Case", "Sensitive", "Insensitive", "CaseInsensitiv", "CaseInsensitive2", "snake_case ", " snake_case", "Title Case", "Train-Case", "tOGGLE", "{}", "\\", "\"", "é", "x" * 300, "\n"]
    for i, b in enumerate(bad):
        ws.append(E.W("ab%d" % i, "pub mod m_ab%d { use super::*; #[derive(::sscanf::FromScanf)] #[sscanf(autogen = %s)] pub enum X { Ab } }\n" % (i, S.rust_str(b, False)),
                      "#[sscanf(autogen = %s)]" % S.rust_str(b, False), expect="error", anchor=A23))
    for i, b in enumerate(["1", "true", "'a'", "b\"lowercase\"", "lowercase", "(\"lowercase\")", "concat!(\"lower\", \"case\")", "", "1.0", "\"lowercase\", autogen"]):
        ws.append(E.W("ac%d" % i, "pub mod m_ac%d { use super::*; #[derive(::sscanf::FromScanf)] #[sscanf(autogen = %s)] pub enum X { Ab } }\n" % (i, b),
                      "#[sscanf(autogen = %s)]" % b, expect="error", anchor=A23))
    for i, (a, v) in enumerate((("autogen", "Ab(u8)"), ("autogen", "Ab { a: u8 }"), ("autogen = \"lowercase\"", "A, Ab(u8), C"), ("autogen", "#[sscanf(skip)] A"), ("autogen", ""), ("autogenerate", "A, B { x: u8 }"))):
        ws.append(E.W("ad%d" % i, "pub mod m_ad%d { use super::*; #[derive(::sscanf::FromScanf)] #[sscanf(%s)] pub enum X { %s } }\n" % (i, a, v),
                      "#[sscanf(%s)] enum X { %s }" % (a, v), expect="error", anchor=A23))
    return ws

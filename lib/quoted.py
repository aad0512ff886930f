"""The names that sscanf_macro writes into the user's crate, read off the quote! bodies of the current source."""
import os
import re
import build

TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|r(?P<h>#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])'|'(?:r\#)?\w+|(?:r\#)?[A-Za-z_]\w*|\d\w*(?:\.\d\w*)?|::|->|=>|\S""", re.S)
QUOTES = {"quote", "quote_hygienic", "quote_spanned", "parse_quote", "parse_quote_spanned"}
KEYWORDS = set("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while "
               "abstract become box do final gen macro override priv typeof unsized virtual yield try union auto default macro_rules raw safe u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str".split())
CLOSE = {"(": ")", "[": "]", "{": "}"}


def tokens(text):
    return [m.group(0) for m in TOKEN.finditer(text) if not m.group(0).startswith(("//", "/*"))]


def sources():
    for d, _, fs in os.walk(os.path.join(build.REPO, "sscanf_macro", "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    yield fh.read()


def quoted():
    """the token lists of all quote! bodies"""
    for s in sources():
        t = tokens(s)
        i = 0
        while i + 2 < len(t):
            if t[i] in QUOTES and t[i + 1] == "!" and t[i + 2] in CLOSE:
                depth, j = 0, i + 2
                while j < len(t):
                    if t[j] in CLOSE:
                        depth += 1
                    elif t[j] in CLOSE.values():
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                yield t[i + 3:j]
            i += 1


def names():
    """(variables and other lowercase names, free functions, types, constants) that stand alone - not below a path, not a method - in quote! bodies;
    names that start with two underscores count as reserved"""
    low, fns, types, consts = set(), set(), set(), set()
    for t in quoted():
        for i, x in enumerate(t):
            if not re.match(r"[A-Za-z_]\w*$", x) or x in KEYWORDS or x.startswith("__") or x == "_":
                continue
            prev, nxt = t[i - 1] if i else "", t[i + 1] if i + 1 < len(t) else ""
            imported = nxt in (";", ",", "}") and any(y == "use" for y in t[max(0, i - 40):i][::-1][:next((k for k, y in enumerate(t[:i][::-1]) if y == ";"), 40)])
            if (prev in ("#", "::", ".") or nxt in ("::", "!")) and not imported:
                continue
            if re.match(r"[A-Z][A-Z0-9_]*$", x):
                consts.add(x)
            elif x[0].isupper():
                types.add(x)
            else:
                low.add(x)
                if nxt == "(":
                    fns.add(x)
    for s in sources():
        for m in re.finditer(r"""(?:format_ident\s*!\s*\(|Ident\s*::\s*new\s*\()\s*"([a-z]\w*)\"""", s):
            if m.group(1) not in KEYWORDS:
                low.add(m.group(1))
    return low, fns, types, consts


def exported():
    """the names of public types and traits of the crate sscanf itself"""
    out = set()
    top = os.path.join(build.REPO, "src")
    for d, _, fs in os.walk(top):
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    t = tokens(fh.read())
                for i in range(len(t) - 2):
                    if t[i] == "pub" and t[i + 1] in ("struct", "enum", "trait", "type", "union") and re.match(r"[A-Z]\w*$", t[i + 2]):
                        out.add(t[i + 2])
    return sorted(out)

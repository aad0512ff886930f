"""The REGEX constant of every std type, as the compiler evaluates it, is compared as a language with the syntax that type's FromStr
documentation gives: on ASCII strings exactly that syntax (with at most the digits the widest value needs), no capture groups, str and String
lazy. The deprecated wrapper types are analysed as calls."""
import engine as E
import families as F
import regexlang as R
import spec as S

LEVEL = "translation_validation"
TECHNIQUE = "constant extraction from the compiler's MIR and automata-based language comparison with the types' grammars"
FLOOR = {"types": 30}
ASCII = "[\\x00-\\x7f]*"
A = "src/regex_representation.rs"
FLOAT = "[-+]?(?i-u:inf|infinity|nan|(?:[0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)(?:e[-+]?[0-9]+)?)"


def grammar(t):
    n = t.replace("std::num::", "")
    nz = n.startswith("NonZero")
    base = n.replace("NonZero", "").lower()
    if base in S.BITS:
        k = S.ndigits((1 << S.BITS[base]) - 1, 10)
        sign = "[-+]?" if base[0] == "i" else "\\+?"
        return sign + ("[1-9][0-9]{0,%d}" % (k - 1) if nz else "[0-9]{1,%d}" % k)
    return {"f32": FLOAT, "f64": FLOAT, "bool": "true|false", "char": "[^\\n]"}.get(t)


def exact(t):
    """types whose whole language is fixed, not only its ASCII part"""
    return {"String": "[^\\n]+", "str": "[^\\n]+", "std::path::PathBuf": "[^\\n]+", "char": "[^\\n]", "bool": "true|false"}.get(t)


class Wrapper(S.Ty):
    def __init__(self, name, inner):
        self.name, self.inner = name, inner
        self.rust = "::sscanf::" + name

    def regex(self, ctx):
        return {"FullF32": ctx.regexes["f32"], "FullF64": ctx.regexes["f64"], "HexNumber": "0[xX][0-9a-fA-F]+|[0-9a-fA-F]+"}[self.name]

    def eval(self, ev, g):
        text = ev.text(g)
        if self.inner == "usize":
            found = []
            for k, v in ev.st.dec.items():
                if isinstance(k, tuple) and k[0] == "conv" and k[1] == "radix" and k[2] == "usize" and k[4] == 16 and S.uses_group(ev, k[3], g):
                    found.append((k, v))
            if len(found) != 1:
                raise S.Mismatch("the text %s is not converted by usize::from_str_radix(_, 16)" % S.show(text))
            (k, o), = found
            arg = ev.st.normal(k[3])
            want = list(text.parts)
            if want and isinstance(want[0], str) and want[0][:2].lower() == "0x":
                want[0] = want[0][2:]
            if ev.st.normal(S.X.Str([w for w in want if w != ""])) != arg:
                raise S.Mismatch("%s is converted instead of %s without the prefix" % (S.show(arg), S.show(text)))
            if R.inter(ev.st.strlang(arg), R.pattern_lang("0[xX](?s:.)*")).shortest() is not None:
                raise S.Mismatch("the prefix is not removed before the conversion")
            op = ("radix", "usize", ev.st.normkey(k)[3], 16)
        else:
            o = ev.look(("conv", "FromStr", self.inner, text))
            if o is None:
                raise S.Mismatch("the text of group %d is not converted by <%s as FromStr>" % (g, self.inner))
            op = ("FromStr", self.inner, text)
        if o:
            return "ok", S.PAdt(self.name, None, {"0": S.PSym("value", *op)})
        return "err", S.PAdt("FromStrFailedError", None, {"error": S.PSym("error", *op)})


def run(rep):
    ctx = E.load_facts()
    rep.rules = ["REGEX restricted to ASCII = FromStr grammar", "whole language of text types", "no capture groups", "str and String lazy", "of several ways to match a beginning of a text the type prefers the documented one"]

    def ob(t, cond, what):
        rep.obligations += 1
        if cond:
            rep.discharged += 1
        else:
            rep.issue("%s/%s" % (t, what.split(":")[0][:60]), "%s::REGEX %r: %s" % (t, ctx.regexes[t], what), text="<%s as RegexRepresentation>::REGEX" % t, anchor=A)
    ascii_ = R.pattern_lang(ASCII)
    for t in E.BUILTINS + ["str"]:
        rep.count("types")
        rx = ctx.regexes[t]
        try:
            h = R.norm(R.hir(rx))
        except Exception as e:
            ob(t, False, "is not a regex: %s" % str(e)[:200])
            continue
        ob(t, not R.caps(h), "contains capture groups")
        got = R.pattern_lang("(?:%s)" % rx)
        x = exact(t)
        if x:
            w = R.differ(got, R.pattern_lang(x))
            ob(t, w is None, "language: %r is %s" % (w and w[1] if isinstance(w, tuple) else w, "wrongly accepted or rejected"))
        g = grammar(t)
        if g:
            w = R.differ(R.inter(got, ascii_), R.inter(R.pattern_lang("(?:%s)" % g), ascii_))
            ob(t, w is None, "ASCII language: %r is wrongly accepted or rejected" % (w,))
        if t in ("str", "String"):
            d = R.compare("(%s)" % rx, "(.+?)")
            ob(t, not d, "not the shortest match: %s" % d)
        prefer = {"str": ".+?", "String": ".+?", "std::path::PathBuf": ".+"}.get(t) or g
        try:
            d = R.same_choice("(?:%s)" % rx, "(?:%s)" % prefer, ((1, 127),))
            ob(t, not d, "not the documented one of several ways to match: %s" % d)
        except R.Unsupported as e:
            rep.obligations += 1
            rep.log.append("%s: preference not decided: %s" % (t, e)) if hasattr(rep, "log") else None
    rep.samples = ["%s::REGEX = %s" % (t, ctx.regexes[t]) for t in E.BUILTINS[::4]]
    ws = []
    for n, i in (("FullF32", "f32"), ("FullF64", "f64"), ("HexNumber", "usize")):
        t = Wrapper(n, i)
        ws.append(E.call_witness(S.Call("wr_" + n, S.Fmt(["<", S.PH(how="ext"), ">"]), [t]), "src/types.rs"))
        ws.append(E.call_witness(S.Call("wq_" + n, S.Fmt([S.PH(how=("idx", 0)), " ", S.PH(S.Builtin("u8")), S.PH(how=("idx", 0))]), [t]), "src/types.rs"))
        for k, o in enumerate((S.Builtin("u8"), S.StrTy("str"))):
            ws.append(E.call_witness(S.Call("wn%d_%s" % (k, n), S.Fmt([S.PH(how=("idx", 1)), S.PH(how=("idx", 0))]), [o, t]), "src/types.rs"))
    E.run_witnesses("C03", ws + F.far("types"), report=rep)

"""Compiles witness programs against /repo's crates, analyses them and collects the findings of one property."""
import json
import multiprocessing
import os
import random
import shutil
import sys
import time
import traceback

import build
import interp as X
import regexlang as R
import spec as S

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CHUNK = 40
X.END = time.time() + (3000 if THOROUGH else 420)
X.RUN_SECONDS = 120 if THOROUGH else 20

PREAMBLE = """#![allow(dead_code, unused, unused_imports, unreachable_code, non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]
#![allow(unused_variables)]
pub use ::std::borrow::Cow;
"""


class W:
    """a witness: source of one module and what must hold for it.
    expect: "ok" it compiles and every check passes; "compile" it compiles; "error" it fails with an ordinary error"""

    def __init__(self, uid, src, text, checks=(), expect="ok", anchor="", group="", error_must=None, debug=True, messages=None):
        self.uid = uid
        self.src = src
        self.text = text
        self.checks = list(checks)   # (root, fn(prog, ip, root) -> Verdict)
        self.expect = expect
        self.anchor = anchor
        self.group = group
        self.error_must = error_must
        self.no_unsafe = False       # no unsafe code of the macros in its expansion
        self.newest = None           # minor version of Rust: its expansion names nothing of std or the language that is newer
        self.messages = messages     # the first lines of all errors, in order (substrings)
        self.marks = None            # fn(w, diagnostics) -> what is wrong about the places they point at
        self.call = None

    def __repr__(self):
        return "W(%s)" % self.uid


class Issue:
    def __init__(self, key, what, text="", log=(), anchor="", src=""):
        self.key, self.what, self.text, self.log, self.anchor, self.src = key, what, text, list(log), anchor, src

    def to_json(self):
        return {"key": self.key, "what": self.what, "construct": self.text, "path": self.log, "rule_anchor": self.anchor, "witness": self.src}


class Report:
    """what one property check found and covered"""

    def __init__(self, prop):
        self.prop = prop
        self.issues = []
        self.open = []
        self.cov = {}
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.rules = []
        self.assumptions = []

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def issue(self, key, what, **kw):
        self.issues.append(Issue(key, what, **kw))

    def merge(self, res):
        for r in res:
            self.count("witness_programs")
            self.count("paths", r["paths"])
            self.obligations += r["obligations"]
            self.discharged += r["obligations"] - len(r["open"]) - len(r["issues"])
            for i in r["issues"]:
                self.issues.append(Issue(**i))
            self.open += [(r["uid"], o) for o in r["open"]]
            if r.get("functions"):
                self.count("functions_analysed", r["functions"])


_work = {}


def panicked(diags):
    for d in diags:
        if "panicked" in d.message and ("macro" in d.message or "attribute" in d.message or "derive" in d.message):
            return d
    return None


def judge_compile(w, diags):
    """-> list of issue dicts from the compile result of w"""
    out = []

    def iss(kind, what):
        out.append({"key": "%s/%s" % (w.uid, kind), "what": what, "text": w.text, "anchor": w.anchor, "src": w.src})
    p = panicked(diags or [])
    if p is not None:
        iss("macro-panic", "the macro itself panics: %s" % (p.rendered or p.message)[:600])
        return out
    if w.messages is not None:
        got = [d.message.splitlines()[0] for d in diags or [] if d.message]
        if len(got) != len(w.messages) or any(m not in g for m, g in zip(w.messages, got)):
            iss("messages", "the errors reported are %s instead of %s" % (json.dumps(got)[:500], json.dumps(w.messages)[:400]))
    elif w.expect == "error":
        if not diags:
            iss("accepted", "accepted although it is malformed")
        elif w.error_must and not any(w.error_must(d) for d in diags):
            iss("error", "rejected for another reason: %s" % diags[0].message[:300])
        elif w.marks:
            for what in w.marks(w, diags)[:3]:
                iss("mark", what)
    elif diags:
        iss("rejected", "does not compile: %s" % "; ".join(d.message.splitlines()[0] for d in diags[:3] if d.message)[:600])
    return out


def run_chunk(job):
    tag, idxs, profile, preamble, mir, extra = job
    ws = [_work["ws"][i] for i in idxs]
    base = _work["bases"][profile]
    name = "w_%s" % tag
    out = []
    wtag = _work["tag"] + "/" + tag
    try:
        crate = build.Crate(name, preamble, [(w.uid, w.src) for w in ws])
        fails, warns, data, other = build.compile_crate(crate, base, wtag, mir=mir, extra=extra)
    except build.CompilerFailure as e:
        shutil.rmtree(build.workdir(wtag), ignore_errors=True)
        if len(ws) == 1:
            d = build.Diag("error", str(e), None, None, str(e))
            r = {"uid": ws[0].uid, "paths": 0, "obligations": 1, "open": [], "warnings": [], "errors": [str(e)[:300]],
                 "issues": [{"key": "%s/compiler" % ws[0].uid, "what": "no ordinary result from the compiler: %s" % str(e)[:600],
                             "text": ws[0].text, "anchor": ws[0].anchor, "src": ws[0].src}]}
            return {"results": [r], "functions": 0}
        # find the witness at fault
        k = max(1, len(idxs) // 4)
        res, fns = [], 0
        for j in range(0, len(idxs), k):
            sub = run_chunk((tag + "_%d" % j, idxs[j:j + k], profile, preamble, mir, extra))
            if "error" in sub:
                return sub
            res += sub["results"]
            fns += sub["functions"]
        return {"results": res, "functions": fns}
    except build.BuildError as e:
        return {"error": str(e), "uids": [w.uid for w in ws]}
    prog = X.Prog(data) if data is not None else None
    ip = X.Interp(prog) if prog else None
    for w in ws:
        r = {"uid": w.uid, "paths": 0, "obligations": 1, "issues": judge_compile(w, fails.get(w.uid)), "open": [],
             "warnings": [d.message for d in warns.get(w.uid, [])], "errors": [repr(d) for d in fails.get(w.uid, [])]}
        if w.no_unsafe and data is not None and w.uid not in fails:
            r["obligations"] += 1
            a, b = crate.ranges[w.uid]
            for u in data["unsafes"]:
                # an unsafe block of const_format or lazy_static carries the name of that crate
                if a <= u["line"] <= b and u["origin"] in ("", name, "sscanf", "sscanf_macro"):
                    r["issues"].append({"key": "%s/unsafe" % w.uid, "what": "the generated code contains an %s" % u["what"], "text": w.text, "anchor": w.anchor, "src": w.src})
                    break
        if w.newest is not None and data is not None and w.uid not in fails:
            r["obligations"] += 1
            a, b = crate.ranges[w.uid]
            r["names"] = 0
            for u in data["uses"]:
                if a <= u["line"] <= b and u["origin"] in ("sscanf", "sscanf_macro"):
                    r["names"] += 1
                    if u["since"] is not None and u["since"] > w.newest:
                        r["issues"].append({"key": "%s/newer" % w.uid, "what": "the generated code uses %s, which is stable since Rust 1.%d" % (u["what"], u["since"]), "text": w.text, "anchor": w.anchor, "src": w.src})
                        break
        if w.uid not in fails and w.expect == "ok":
            for root, fn in w.checks:
                try:
                    if prog is None or root not in prog.roots:
                        r["open"].append("no code for %s" % root)
                        r["obligations"] += 1
                        continue
                    v = fn(prog, ip, root)
                except Exception:
                    r["open"].append("analysis failed: " + traceback.format_exc()[-600:])
                    r["obligations"] += 1
                    continue
                r["paths"] += v.paths
                r["obligations"] += max(v.obligations, len(v.bad) + len(v.open))
                seen = set()
                for f in v.bad:
                    if f.what in seen:
                        continue
                    seen.add(f.what)
                    r["issues"].append({"key": "%s/%s" % (w.uid, f.what.split(":")[0][:60]), "what": f.what, "text": w.text,
                                        "log": f.log, "anchor": w.anchor, "src": w.src})
                for o in v.open:
                    if o not in r["open"]:
                        r["open"].append(o)
        out.append(r)
    shutil.rmtree(build.workdir(wtag), ignore_errors=True)
    return {"results": out, "functions": len(data["instances"]) if data else 0}


def run_witnesses(prop, ws, profile="dev", preamble=PREAMBLE, mir=True, extra=(), report=None, chunk=None, jobs=8):
    """compiles and analyses all witnesses -> list of result dicts"""
    build.ensure_driver()
    base = build.ensure_base(profile)
    uids = [w.uid for w in ws]
    assert len(set(uids)) == len(uids), [u for u in uids if uids.count(u) > 1][:5]
    _work["ws"] = ws
    _work["bases"] = {profile: base}
    _work["tag"] = "%s.%d" % (prop, os.getpid())
    n = len(ws)
    size = chunk or max(4, min(CHUNK, (n + jobs - 1) // jobs))
    idx = list(range(n))
    jobsl = []
    # neighbours are alike: deal them round robin so that the chunks cost the same
    k = max(1, (n + size - 1) // size)
    for j in range(k):
        jobsl.append(("c%d" % j, idx[j::k], profile, preamble, mir, list(extra)))
    res = []
    errs = []
    ctx = multiprocessing.get_context("fork")
    try:
        with ctx.Pool(min(jobs, len(jobsl))) as pool:
            for r in pool.imap_unordered(run_chunk, jobsl):
                if "error" in r:
                    errs.append(r)
                else:
                    res += r["results"]
                    if report is not None:
                        report.count("functions_analysed", r["functions"])
    finally:
        shutil.rmtree(os.path.join(build.BUILD, "work", _work["tag"]), ignore_errors=True)
    if errs:
        raise build.BuildError(errs[0]["error"])
    res.sort(key=lambda r: uids.index(r["uid"]))
    if report is not None:
        report.merge(res)
        step = max(1, len(ws) // 6)
        report.samples += [w.text[:300] for w in ws[::step]][:6]
    return res


def call_witness(call, anchor="", values=True, group=""):
    w = W(call.uid, call.source(), call.describe(),
          [("w_" + call.uid, lambda p, ip, r: S.check_call(p, ip, r, call, values=values))], anchor=anchor, group=group)
    w.call = call
    return w


# ------------------------------------------------------------------ facts of the analysed crate

BUILTINS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char",
            "String", "std::path::PathBuf",
            "std::num::NonZeroU8", "std::num::NonZeroU16", "std::num::NonZeroU32", "std::num::NonZeroU64", "std::num::NonZeroU128", "std::num::NonZeroUsize",
            "std::num::NonZeroI8", "std::num::NonZeroI16", "std::num::NonZeroI32", "std::num::NonZeroI64", "std::num::NonZeroI128", "std::num::NonZeroIsize"]


def load_facts(profile="dev"):
    """the REGEX constants of the analysed crate and the std names the driver uses"""
    src = []
    for i, t in enumerate(BUILTINS):
        src.append("pub fn w_re%d() -> &'static str { <%s as ::sscanf::RegexRepresentation>::REGEX }\npub fn w_tn%d(x: %s) -> %s { x }" % (i, t, i, t, t))
    src.append("pub fn w_restr() -> &'static str { <str as ::sscanf::RegexRepresentation>::REGEX }")
    build.ensure_driver()
    base = build.ensure_base(profile)
    tag = "facts.%d" % os.getpid()
    crate = build.Crate("w_facts", PREAMBLE, [("facts", "\n".join(src))])
    fails, warns, data, other = build.compile_crate(crate, base, tag)
    shutil.rmtree(os.path.join(build.BUILD, "work", tag), ignore_errors=True)
    if fails:
        raise build.BuildError("the REGEX constants cannot be read: %r" % fails["facts"][0])
    prog = X.Prog(data)
    ip = X.Interp(prog)

    def const(root):
        outs = ip.run(root)
        if len(outs) == 1 and outs[0].kind == "return":
            v = outs[0].st.deep(outs[0].value)
            if isinstance(v, X.Str):
                return v.const()
        return None
    regexes, names = {}, {}
    for i, t in enumerate(BUILTINS):
        r = const("w_re%d" % i)
        if r is None:
            raise build.BuildError("REGEX of %s is not constant" % t)
        regexes[t] = r
        inst = prog.roots["w_tn%d" % i]
        names[t] = prog.T[prog.I[inst]["body"]["locals"][1]]["s"]
    regexes["str"] = const("w_restr")
    if regexes["str"] is None:
        raise build.BuildError("REGEX of str is not constant")
    for a, b in (("std::string::String", "String"), ("PathBuf", "std::path::PathBuf")):
        regexes[a] = regexes[b]
        names[a] = names[b]
    S.CTX.regexes.update(regexes)
    S.CTX.names.update(names)
    return S.CTX


def rng(salt=""):
    return random.Random("%d/%s" % (SEED, salt))

"""Abstract interpretation of the monomorphic MIR of witness functions.

The domain: integers and aggregates are tracked exactly, strings as concatenations of literals and
symbolic pieces (each with a regular language as its abstraction), everything else as uninterpreted
terms. Traces are partitioned by the abstract decisions met on the way (did the regex match, which
alternative took part, did a conversion succeed); there is no execution and no solver - each
question is decided on the abstract value (automata for strings). Library functions outside the
analysed crates are given by the transfer functions at the end of this file.
"""
import copy
import re
import time
import regexlang as R

FUEL = 60000
RUN_SECONDS = 20            # per witness
END = time.time() + 420     # per check; set by the engine
MAX_PATHS = 4000


class Fork(Exception):
    def __init__(self, options):
        self.options = options  # list of functions applied to the copied state


class Imprecise(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------------------------- values

class Agg:
    __slots__ = ("ty", "variant", "fields", "_h")

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Agg) and self.ty == o.ty and self.variant == o.variant and self.fields == o.fields

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.ty, self.variant, self.fields))
        return self._h

    def __repr__(self):
        return "Agg(%s,%s,%s)" % (self.ty, self.variant, list(self.fields))


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "&%s%s" % (self.cell, list(self.path) or "")


class Var:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Var) and self.key == o.key

    def __hash__(self):
        return hash(("var", self.key))

    def __repr__(self):
        return "<%s>" % (self.key,)


class Str:
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(("str", self.parts))

    def __repr__(self):
        return "Str%r" % (list(self.parts),)


class Sym:
    __slots__ = ("op", "args", "ty", "_h")

    def __init__(self, op, args=(), ty=None):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Sym) and self.op == o.op and self.args == o.args

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


UNIT = Agg("tuple", 0, ())


# ------------------------------------------------------------------------------------- program

class Prog:
    def __init__(self, data):
        self.I = data["instances"]
        self.T = data["types"]
        self.S = data["statics"]
        self.vt = {int(k): v for k, v in data.get("vtables", {}).items() if v}
        self.roots = {}
        for k, v in data["roots"].items():
            self.roots[k.rsplit("::", 1)[-1]] = v
        self._tyids = {}
        for i, t in enumerate(self.T):
            self._tyids.setdefault(t["s"], i)

    def tname(self, t):
        return self.T[t]["s"]

    def is_closure(self, inst):
        p = self.I[inst]["path"]
        i = p.rfind("::{closure")
        return i >= 0 and p.endswith("}")


class Frame:
    __slots__ = ("uid", "inst", "body", "bb", "si", "dest", "target", "native")

    def __init__(self, uid, inst, body, dest, target):
        self.uid = uid
        self.inst = inst
        self.body = body
        self.bb = 0
        self.si = 0
        self.dest = dest      # (cell, path) in the caller
        self.target = target  # caller block to continue in
        self.native = None

    def copy(self):
        f = Frame(self.uid, self.inst, self.body, self.dest, self.target)
        f.bb, f.si = self.bb, self.si
        f.native = self.native
        return f


class Outcome:
    def __init__(self, kind, value, st, msg=None):
        self.kind = kind      # return / panic / imprecise
        self.value = value
        self.st = st
        self.msg = msg

    def __repr__(self):
        return "%s %r %s" % (self.kind, self.value if self.kind == "return" else self.msg, self.st.log)


class State:
    def __init__(self, prog):
        self.prog = prog
        self.mem = {}
        self.frames = []
        self.lang = {}
        self.subst = {}
        self.caps = {}
        self.capof = {}   # event -> captures
        self.dec = {}
        self.log = []
        self.events = []
        self.lazy = {}
        self.undecided = []
        self.fuel = FUEL
        self.next = 0

    def copy(self):
        s = State.__new__(State)
        s.prog = self.prog
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.lang = dict(self.lang)
        s.subst = dict(self.subst)
        s.caps = dict(self.caps)
        s.capof = dict(self.capof)
        s.dec = dict(self.dec)
        s.log = list(self.log)
        s.events = list(self.events)
        s.lazy = dict(self.lazy)
        s.undecided = list(self.undecided)
        s.fuel = self.fuel
        s.next = self.next
        return s

    def fresh(self):
        self.next += 1
        return self.next

    def alloc(self, v):
        c = ("h", self.fresh())
        self.mem[c] = v
        return Ref(c)

    # ---------------------------------------------------------------- memory
    def read(self, cell, path):
        if cell not in self.mem:
            if cell[0] == "static":
                self.mem[cell] = self.decode(self.prog.S[cell[1]]["init"])
            else:
                raise Imprecise("read of uninitialised %s" % (cell,))
        v = self.mem[cell]
        for p in path:
            v = self.project(v, p)
        return v

    def project(self, v, p):
        if isinstance(v, Agg):
            if p < len(v.fields):
                r = v.fields[p]
                if r is None:
                    raise Imprecise("uninitialised field")
                return r
            raise Imprecise("field %s of %r" % (p, v))
        if isinstance(v, (Ref, Str)):
            return v  # newtypes around pointers are the pointer
        if isinstance(v, Sym):
            var = self.dec.get(("variant", v), 0)
            return Sym("field", (v, var, p))
        raise Imprecise("projection of %r" % (v,))

    def write(self, cell, path, val):
        if not path:
            self.mem[cell] = val
            return
        self.mem[cell] = self._upd(self.mem.get(cell), path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if v is None:
            v = Agg("partial", 0, ())
        if isinstance(v, Agg):
            f = list(v.fields)
            while len(f) <= p:
                f.append(None)
            f[p] = self._upd(f[p], path[1:], val)
            return Agg(v.ty, v.variant, f)
        if isinstance(v, (Ref, Str)):
            return val
        raise Imprecise("write into %r" % (v,))

    def load(self, v):
        """the value a chain of references ends in"""
        n = 0
        while isinstance(v, Ref):
            v = self.read(v.cell, v.path)
            n += 1
            if n > 50:
                raise Imprecise("reference cycle")
        return v

    def owner(self, v):
        """the last reference of a chain of references"""
        while True:
            w = self.read(v.cell, v.path)
            if not isinstance(w, Ref):
                return v
            v = w

    # ---------------------------------------------------------------- constants
    def decode(self, c):
        if "i" in c:
            return int(c["i"])
        if "b" in c:
            return bool(c["b"])
        if "str" in c:
            return Str((c["str"],))
        if "ref" in c:
            return self.alloc(self.decode(c["ref"]))
        if "arr" in c:
            return Agg("array", 0, [self.decode(x) for x in c["arr"]])
        if "adt" in c:
            t = self.prog.T[c["adt"]]
            fs = [self.decode(x) for x in c["agg"]]
            return Agg(c["adt"], c["v"], fs)
        if "agg" in c:
            return Agg("tuple", 0, [self.decode(x) for x in c["agg"]])
        if "fndef" in c:
            return Sym("fndef", (c["fndef"],))
        if "closure" in c:
            return Agg(c["closure"], 0, ())
        if "zst" in c:
            t = self.prog.T[c["zst"]]
            if t["k"] == "tuple":
                return Agg("tuple", 0, ())
            return Agg(c["zst"], 0, ())
        if "static" in c:
            return Ref(("static", c["static"]))
        if "fn" in c:
            return Sym("fnptr", (c["fn"],))
        if "ref0" in c:
            t = self.prog.T[c["ref0"]]
            if t["k"] == "str":
                return Str(())
            if t["k"] in ("slice", "array"):
                return self.alloc(Agg("array", 0, ()))
            return self.alloc(Agg(c["ref0"], 0, ()))
        return Sym("const", (str(c),))

    # ---------------------------------------------------------------- strings
    def normal(self, s):
        while True:
            out = []
            changed = False
            for p in s.parts:
                if isinstance(p, Var) and p.key in self.subst:
                    out.extend(self.subst[p.key])
                    changed = True
                else:
                    out.append(p)
            if not changed:
                return s
            s = Str(out)

    def langof(self, part):
        if isinstance(part, str):
            return R.word_dfa(part)
        if isinstance(part, Var):
            return self.lang.get(part.key, R.SIGMA)
        return R.SIGMA

    def strlang(self, s):
        s = self.normal(s)
        if len(s.parts) == 1:
            return self.langof(s.parts[0])
        return R.concat([self.langof(p) for p in s.parts]) if s.parts else R.EPS

    def restrict(self, key, dfa, what):
        """option: the variable lies in dfa"""
        def f(st):
            st.lang[key] = dfa
            st.log.append(what)
        return f

    def split(self, key, lit):
        def f(st):
            nk = ("rest", key, lit)
            st.lang[nk] = st.lang.get(key, R.SIGMA).derive(lit)
            st.subst[key] = (lit, Var(nk)) if lit else (Var(nk),)
            st.log.append("%s starts with %r" % (key, lit))
        return f

    def starts_with(self, s, lit):
        """-> remainder Str, or None; forks when undecided"""
        s = self.normal(s)
        parts = list(s.parts)
        while lit:
            if not parts:
                return None
            p = parts[0]
            if isinstance(p, str):
                n = min(len(p), len(lit))
                if p[:n] != lit[:n]:
                    return None
                lit = lit[n:]
                if n == len(p):
                    parts.pop(0)
                else:
                    parts[0] = p[n:]
                continue
            if isinstance(p, Var):
                L = self.langof(p)
                d = L.derive(lit)
                short = any(L.contains(lit[:i]) for i in range(len(lit))) if len(parts) > 1 else False
                if short:
                    raise Imprecise("prefix test across pieces")
                yes = not d.is_empty()
                no = R.minus(L, R.prefix_lang(lit))
                if not yes:
                    return None
                if no.is_empty():
                    raise Fork([self.split(p.key, lit)])
                raise Fork([self.split(p.key, lit), self.restrict(p.key, no, "%s does not start with %r" % (p.key, lit))])
            raise Imprecise("prefix test on %r" % (p,))
        return Str(parts)

    def ends_with(self, s, lit):
        s = self.normal(s)
        if not lit:
            return s
        if not s.parts:
            return None
        p = s.parts[-1]
        if isinstance(p, str):
            if len(p) >= len(lit):
                return Str(s.parts[:-1] + (p[:-len(lit)],)) if p.endswith(lit) else None
            if not lit.endswith(p):
                return None
            raise Imprecise("suffix test across pieces")
        if isinstance(p, Var):
            L = self.langof(p)
            if R.inter(L, R.suffix_lang(lit)).is_empty() and len(s.parts) == 1:
                return None
            if len(s.parts) > 1:
                raise Imprecise("suffix test across pieces")
            no = R.minus(L, R.suffix_lang(lit))
            yes = R.inter(L, R.suffix_lang(lit))

            def take(st):
                nk = ("front", p.key, lit)
                st.lang[nk] = strip_suffix_lang(yes, lit)
                st.subst[p.key] = (Var(nk), lit)
                st.log.append("%s ends with %r" % (p.key, lit))
            opts = [take]
            if not no.is_empty():
                opts.append(self.restrict(p.key, no, "%s does not end with %r" % (p.key, lit)))
            raise Fork(opts)
        raise Imprecise("suffix test on %r" % (p,))

    def equals(self, s, w):
        """s == constant w"""
        s = self.normal(s)
        c = s.const()
        if c is not None:
            return c == w
        if len(s.parts) == 1 and isinstance(s.parts[0], Var):
            key = s.parts[0].key
            L = self.langof(s.parts[0])
            if not L.contains(w):
                return False
            rest = R.minus(L, R.word_dfa(w))

            def yes(st):
                st.subst[key] = (w,) if w else ()
                st.log.append("%s == %r" % (key, w))
            if rest.is_empty():
                raise Fork([yes])
            raise Fork([yes, self.restrict(key, rest, "%s != %r" % (key, w))])
        if R.minus(R.word_dfa(w), self.strlang(s)).shortest() is not None:
            return False
        raise Imprecise("comparison of %r" % (s,))

    # ---------------------------------------------------------------- decisions
    def decide(self, key, options, log):
        """a decision recorded under `key`: forks the first time, is remembered afterwards"""
        key = self.normkey(key)
        for k, v in self.dec.items():
            if k == key or self.normkey(k) == key:
                return v
        if len(options) == 1:
            self.dec[key] = options[0]
            return options[0]

        def mk(o):
            def f(st):
                st.dec[key] = o
                st.log.append(log(o))
            return f
        raise Fork([mk(o) for o in options])

    def normkey(self, k):
        if isinstance(k, tuple):
            return tuple(self.normkey(x) for x in k)
        if isinstance(k, Str):
            return self.normal(k)
        if isinstance(k, Sym):
            return Sym(k.op, [self.normkey(x) for x in k.args], k.ty)
        return k

    def look(self, key):
        key = self.normkey(key)
        for k, v in self.dec.items():
            if k == key or self.normkey(k) == key:
                return v
        return None

    # ---------------------------------------------------------------- result extraction
    def deep(self, v, depth=0):
        """the value with references resolved and strings normalised"""
        if depth > 40:
            return v
        if isinstance(v, Ref):
            try:
                return self.deep(self.read(v.cell, v.path), depth + 1)
            except Imprecise:
                return v
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.deep(f, depth + 1) if f is not None else None for f in v.fields])
        if isinstance(v, Str):
            return Str([self.deep(p, depth + 1) if isinstance(p, Sym) else p for p in self.normal(v).parts])
        if isinstance(v, Sym):
            return Sym(v.op, [self.deep(a, depth + 1) if isinstance(a, (Ref, Agg, Str, Sym)) else a for a in v.args], v.ty)
        return v


def strip_suffix_lang(L, lit):
    """{ u : u lit in L }"""
    acc = [False] * len(L.trans)
    for s in range(len(L.trans)):
        x = s
        for c in lit:
            x = L.step(x, ord(c))
            if x is None:
                break
        acc[s] = x is not None and L.acc[x]
    return R.Dfa(L.trans, acc, L.start)


# ------------------------------------------------------------------------------------- engine

class Interp:
    def __init__(self, prog, models=None):
        self.p = prog
        self.unknown = {}

    def arg_value(self, st, ty, name):
        t = self.p.T[ty]
        if t["k"] == "ref":
            e = self.p.T[t["e"]]
            if e["k"] == "str":
                st.lang.setdefault(name, R.SIGMA)
                return Str((Var(name),))
            return st.alloc(self.arg_value(st, t["e"], name))
        if t["k"] == "adt" and t["name"].endswith("string::String"):
            return Str((Var(name),))
        if t["k"] == "adt" and t["name"].endswith(("boxed::Box", "rc::Rc", "sync::Arc")) and self.p.T[t["args"][0]]["k"] == "str":
            return Str((Var(name),))
        if t["k"] == "adt" and "fmt::Formatter" in t["name"]:
            return Agg("fmtr", 0, (Str(()),))
        if t["k"] == "bool":
            return Sym("arg", (name,), ty)
        return Sym("arg", (name,), ty)

    def run(self, root, args=None):
        """all outcomes of the function"""
        inst = self.p.roots[root] if isinstance(root, str) else root
        body = self.p.I[inst]["body"]
        st = State(self.p)
        if args is None:
            args = [self.arg_value(st, body["locals"][i + 1], "arg%d" % i) for i in range(body["argc"])]
        else:
            args = args(st)
        self.push(st, inst, args, None, None)
        outs = []
        todo = [st]
        self.deadline = min(time.time() + RUN_SECONDS, END)
        while todo:
            st = todo.pop()
            try:
                r = self.step_until(st, todo)
            except Imprecise as e:
                r = Outcome("imprecise", None, st, str(e))
            except Infeasible:
                continue
            except R.Unsupported as e:
                r = Outcome("imprecise", None, st, "automata: " + str(e))
            except RecursionError:
                r = Outcome("imprecise", None, st, "recursion")
            if r is not None:
                outs.append(r)
            if len(outs) + len(todo) > MAX_PATHS:
                outs.append(Outcome("imprecise", None, st, "too many paths"))
                break
            if time.time() > self.deadline:
                outs.append(Outcome("imprecise", None, st, "analysis budget used up"))
                break
        return outs

    # push a call frame
    def push(self, st, inst, args, dest, target):
        b = self.p.I[inst]["body"]
        uid = st.fresh()
        f = Frame(uid, inst, b, dest, target)
        n = b["argc"]
        if b["spread"] is not None:
            k = b["spread"]
            if len(args) != n:
                args = list(args[:k - 1]) + [Agg("tuple", 0, args[k - 1:])]
        if len(args) != n:
            raise Imprecise("call of %s with %d arguments for %d" % (self.p.I[inst]["name"], len(args), n))
        for i, a in enumerate(args):
            st.mem[(uid, i + 1)] = a
        st.frames.append(f)
        if len(st.frames) > 200:
            raise Imprecise("call depth")

    def ret(self, st, value):
        """deliver the result of the finished top frame"""
        f = st.frames.pop()
        if f.body is not None:
            uid = f.uid
            for k in range(len(f.body["locals"])):
                st.mem.pop((uid, k), None)
        if not st.frames:
            return Outcome("return", value, st)
        if f.dest is not None:
            st.write(f.dest[0], f.dest[1], value)
        top = st.frames[-1]
        if top.native is not None:
            return None
        top.bb = f.target
        top.si = 0
        return None

    def step_until(self, st, todo):
        while True:
            f = st.frames[-1]
            if f.native is not None:
                kind = f.native[0]
                r = getattr(self, "native_" + kind)(st, f)
                if r is not None:
                    return r
                continue
            blk = f.body["blocks"][f.bb]
            try:
                while f.si < len(blk[0]):
                    self.stmt(st, f, blk[0][f.si])
                    f.si += 1
                    st.fuel -= 1
                st.fuel -= 1
                if st.fuel < 0:
                    raise Imprecise("out of fuel")
                if st.fuel % 256 == 0 and time.time() > self.deadline:
                    raise Imprecise("analysis budget used up")
                r = self.term(st, f, blk[1])
            except Fork as fk:
                for o in fk.options:
                    s2 = st.copy()
                    o(s2)
                    todo.append(s2)
                return None
            if r is not None:
                return r

    # ------------------------------------------------------------------ places and operands
    def place(self, st, f, p):
        """-> ("mem", cell, path) or ("val", value)"""
        cell = (f.uid, p[0])
        path = ()
        mode = "mem"
        val = None
        for e in p[1:]:
            if e == "*":
                v = val if mode == "val" else st.read(cell, path)
                if isinstance(v, Ref):
                    mode, cell, path = "mem", v.cell, v.path
                elif isinstance(v, Str):
                    mode, val = "val", v
                elif isinstance(v, Sym):
                    mode, val = "val", Sym("deref", (v,)) if v.op != "deref" else Sym("deref", (v,))
                else:
                    raise Imprecise("deref of %r" % (v,))
            elif e == "o":
                pass
            elif e[0] == "f":
                if mode == "val":
                    val = st.project(val, e[1])
                else:
                    if cell in st.mem or cell[0] == "static":
                        try:
                            v = st.read(cell, path)
                        except Imprecise:
                            v = None
                        if isinstance(v, (Ref, Str)):
                            continue
                        if isinstance(v, Sym):
                            mode, val = "val", st.project(v, e[1])
                            continue
                    path = path + (e[1],)
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "c"):
                v = val if mode == "val" else st.read(cell, path)
                if e[0] == "i":
                    n = st.read((f.uid, e[1]), ())
                else:
                    n = e[1]
                    if e[3]:
                        if not isinstance(v, Agg):
                            raise Imprecise("index from end")
                        n = len(v.fields) - n
                if not isinstance(n, int) or isinstance(v, (Sym, Str)):
                    raise Imprecise("symbolic index")
                if mode == "val":
                    val = st.project(val, n)
                else:
                    path = path + (n,)
            elif e[0] == "s":
                v = val if mode == "val" else st.read(cell, path)
                if not isinstance(v, Agg):
                    raise Imprecise("subslice")
                hi = len(v.fields) - e[2] if e[3] else e[2]
                mode, val = "val", Agg("array", 0, v.fields[e[1]:hi])
            else:
                raise Imprecise("projection %r" % (e,))
        return ("mem", cell, path) if mode == "mem" else ("val", val)

    def load_place(self, st, f, p):
        r = self.place(st, f, p)
        return r[1] if r[0] == "val" else st.read(r[1], r[2])

    def operand(self, st, f, o):
        k = o[0]
        if k == "p" or k == "m":
            return self.load_place(st, f, o[1])
        if k == "k":
            c = o[1][1]
            if "ref" in c or "arr" in c:
                key = ("const", id(c))
                if key not in st.mem:
                    st.mem[key] = st.decode(c)
                return st.mem[key]
            return st.decode(c)
        if k == "rc":
            return False  # library-internal runtime checks are not part of the analysed build
        raise Imprecise("operand")

    def store(self, st, f, p, v):
        r = self.place(st, f, p) if len(p) > 1 else ("mem", (f.uid, p[0]), ())
        if r[0] == "val":
            raise Imprecise("store through %r" % (r[1],))
        st.write(r[1], r[2], v)

    # ------------------------------------------------------------------ statements
    def stmt(self, st, f, s):
        if s[0] == "=":
            self.store(st, f, s[1], self.rvalue(st, f, s[2], s[1]))
        elif s[0] == "sd":
            r = self.place(st, f, s[1])
            v = st.mem.get(r[1]) if not r[2] else st.read(r[1], r[2])
            fields = v.fields if isinstance(v, Agg) else ()
            ty = v.ty if isinstance(v, Agg) else "partial"
            st.write(r[1], r[2], Agg(ty, s[2], fields))

    def bits(self, ty):
        t = self.p.T[ty]
        if t["k"] in ("int", "uint"):
            return t["bits"], t["k"] == "int"
        if t["k"] == "char":
            return 32, False
        return None, None

    def wrap(self, n, ty):
        b, signed = self.bits(ty)
        if b is None:
            return n, False
        m = n & ((1 << b) - 1)
        if signed and m >> (b - 1):
            m -= 1 << b
        return m, m != n

    def opty(self, f, o):
        if o[0] in ("p", "m"):
            p = o[1]
            if len(p) == 1:
                return f.body["locals"][p[0]]
            for e in reversed(p[1:]):
                if isinstance(e, list) and e[0] == "f":
                    return e[2]
                if e == "*":
                    continue
            return f.body["locals"][p[0]]
        if o[0] == "k":
            return o[1][0]
        return None

    def binop(self, st, f, op, a, b, ty):
        conc = isinstance(a, (int, bool)) and isinstance(b, (int, bool))
        if conc:
            a, b = int(a), int(b)
            cmp = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}
            if op in cmp:
                return cmp[op]
            if op == "Cmp":
                return Agg("ordering", 0 if a < b else 1 if a == b else 2, ())
            base = op.replace("Unchecked", "")
            if base in ("Div", "Rem"):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if base == "Div" else a - q * b
            elif base in ("Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                r = {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b,
                     "Shl": a << (b & 127) if base == "Shl" else 0, "Shr": a >> (b & 127) if base == "Shr" else 0}[base]
            else:
                raise Imprecise("binary operation " + op)
            if self.p.T[ty]["k"] == "bool":
                return bool(r)
            return self.wrap(r, ty)[0]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Sym) and a == b:
                return op in ("Eq", "Le", "Ge")
            d = self.len_compare(st, op, a, b)
            if d is not None:
                return d
        if isinstance(a, (Sym, int, bool)) and isinstance(b, (Sym, int, bool)):
            return Sym(op, (a, b), ty)
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
            return (a == b) == (op == "Eq")
        if isinstance(a, (Ref, Str)) and isinstance(b, int) and not isinstance(b, bool):
            # the compiler's alignment and null checks of a box's pointer
            if op == "BitAnd" and b & (b + 1) == 0 and b < 4096:
                return 0
            if op in ("Eq", "Ne") and b == 0:
                return op == "Ne"
        raise Imprecise("binary operation %s on %r and %r" % (op, a, b))

    def len_compare(self, st, op, a, b):
        """comparison of the length of a string with a constant, decided by the language"""
        flip = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
        if isinstance(b, Sym) and b.op == "len":
            a, b, op = b, a, flip[op]
        if not (isinstance(a, Sym) and a.op == "len" and isinstance(b, int)):
            return None
        mn, mx = st.strlang(a.args[0]).lengths()
        inf = mx is None
        if op in ("Lt", "Ge"):
            if not inf and mx < b:
                return op == "Lt"
            if mn >= b:
                return op == "Ge"
        if op in ("Le", "Gt"):
            if not inf and mx <= b:
                return op == "Le"
            if mn > b:
                return op == "Gt"
        if op in ("Eq", "Ne"):
            if mn > b or (not inf and mx < b):
                return op == "Ne"
            if not inf and mn == mx == b:
                return op == "Eq"
        t = st.normal(a.args[0])
        if len(t.parts) == 1 and isinstance(t.parts[0], Var) and 0 <= b <= 256 and R.nstates(st.langof(t.parts[0])) <= 300:
            key = t.parts[0].key
            L = st.langof(t.parts[0])
            yes = R.inter(L, R.bytes_lang(op, b))
            no = R.minus(L, R.bytes_lang(op, b))
            word = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}[op]
            opts = []
            if not yes.is_empty():
                opts.append(st.restrict(key, yes, "length of %s %s %d" % (key, word, b)))
            if not no.is_empty():
                opts.append(st.restrict(key, no, "not: length of %s %s %d" % (key, word, b)))
            raise Fork(opts)
        if len(t.parts) == 1 and isinstance(t.parts[0], Var) and op in ("Lt", "Le", "Gt", "Ge"):
            n = b - 1 if op in ("Lt", "Ge") else b
            longer = st.decide(("longer", t, n), [True, False], lambda o: "length of %s %s %d" % (t.parts[0].key, ">" if o else "<=", n))
            return longer == (op in ("Gt", "Ge"))
        return None

    def within(self, st, op, a, b):
        """a sum or difference of lengths that cannot overflow: a string has at most isize::MAX bytes"""
        def linear(v):
            if isinstance(v, int) and not isinstance(v, bool):
                return 0, v
            if isinstance(v, Sym) and v.op == "len":
                return 1, 0
            if isinstance(v, Sym) and v.op == "Add" and len(v.args) == 2:
                x, y = linear(v.args[0]), linear(v.args[1])
                return x and y and (x[0] + y[0], x[1] + y[1])
            return None
        if op == "Add":
            x, y = linear(a), linear(b)
            if x and y:
                n, c = x[0] + y[0], x[1] + y[1]
                return 0 <= c and (n == 1 and c <= 1 << 62 or n == 2 and c <= 1)
        if op == "Sub" and isinstance(a, Sym) and a.op == "len" and isinstance(b, int):
            return st.strlang(a.args[0]).lengths()[0] >= b
        return False

    def rvalue(self, st, f, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, f, r[1])
        if k == "ref" or k == "addr":
            p = self.place(st, f, r[2] if k == "ref" else r[1])
            if p[0] == "val":
                v = p[1]
                if isinstance(v, Str):
                    return v
                if isinstance(v, Sym) and v.op == "deref":
                    return v.args[0]
                return st.alloc(v)
            # a reference to a str place is the string itself
            return Ref(p[1], p[2])
        if k == "agg":
            ops = [self.operand(st, f, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                if kk[3] is not None:
                    raise Imprecise("union")
                return Agg(kk[1], kk[2], ops)
            if kk[0] in ("tuple", "array"):
                return Agg(kk[0], 0, ops)
            if kk[0] == "closure":
                return Agg(kk[1], 0, ops)
            if kk[0] == "rawptr":
                return ops[0]
            raise Imprecise("aggregate")
        if k == "bin":
            a, b = self.operand(st, f, r[2]), self.operand(st, f, r[3])
            return self.binop(st, f, r[1], a, b, self.opty(f, r[2]))
        if k == "cbin":
            a, b = self.operand(st, f, r[2]), self.operand(st, f, r[3])
            ty = self.opty(f, r[2])
            op = r[1].replace("Unchecked", "")
            if isinstance(a, int) and isinstance(b, int):
                n = {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(op)
                if n is None:
                    raise Imprecise("checked " + op)
                m, o = self.wrap(n, ty)
                return Agg("tuple", 0, (m, o))
            return Agg("tuple", 0, (Sym(op, (a, b), ty), False if self.within(st, op, a, b) else Sym("overflow", (op, a, b))))
        if k == "cast":
            v = self.operand(st, f, r[2])
            kind = r[1]
            if "ClosureFnPointer" in kind:
                return Sym("closureptr", (v,))
            if "ReifyFnPointer" in kind:
                return v
            if "IntToInt" in kind and isinstance(v, (int, bool)):
                return self.wrap(int(v), r[3])[0]
            if isinstance(v, (Ref, Str, Agg, Sym)):
                if "IntToInt" in kind and isinstance(v, Sym):
                    return Sym("cast", (v, self.p.tname(r[3])), r[3])
                return v
            if isinstance(v, (int, bool)) and "Transmute" in kind:
                return v
            raise Imprecise("cast " + kind)
        if k == "discr":
            v = self.load_place(st, f, r[1])
            return self.discr(st, v, self.placety(f, r[1]))
        if k == "len":
            v = self.load_place(st, f, r[1])
            if isinstance(v, Agg):
                return len(v.fields)
            raise Imprecise("len of %r" % (v,))
        if k == "repeat":
            if r[2] is None or r[2] > 5000:
                raise Imprecise("repeat")
            v = self.operand(st, f, r[1])
            return Agg("array", 0, [v] * r[2])
        if k == "un":
            v = self.operand(st, f, r[2])
            if r[1] == "Not":
                if isinstance(v, bool):
                    return not v
                if isinstance(v, int):
                    return self.wrap(~v, self.opty(f, r[2]))[0]
                return Sym("Not", (v,))
            if r[1] == "Neg" and isinstance(v, int):
                return self.wrap(-v, self.opty(f, r[2]))[0]
            if r[1] == "PtrMetadata":
                if isinstance(v, Str):
                    return self.strlen(st, v)
                w = st.load(v)
                if isinstance(w, Agg):
                    return len(w.fields)
                if isinstance(w, Str):
                    return self.strlen(st, w)
            raise Imprecise("unary " + r[1])
        raise Imprecise("rvalue " + k)

    def strlen(self, st, s):
        s = st.normal(s)
        c = s.const()
        return len(c.encode()) if c is not None else Sym("len", (s,))

    def placety(self, f, p):
        for e in reversed(p[1:]):
            if isinstance(e, list) and e[0] == "f":
                return e[2]
        t = f.body["locals"][p[0]]
        for e in p[1:]:
            if e == "*":
                t = self.p.T[t].get("e", t)
        return t

    def discr(self, st, v, ty):
        if isinstance(v, Agg):
            if isinstance(v.ty, int):
                vs = self.p.T[v.ty].get("variants")
                if vs and vs[v.variant]["discr"] is not None:
                    d = int(vs[v.variant]["discr"])
                    if d >> 127:
                        d -= 1 << 128
                    return d
            if v.ty == "ordering":
                return v.variant - 1
            return v.variant
        if isinstance(v, Sym):
            t = v.ty if v.ty is not None else ty
            vs = self.p.T[t].get("variants") if t is not None else None
            if not vs:
                raise Imprecise("discriminant of %r" % (v,))
            n = st.decide(("variant", v), list(range(len(vs))), lambda o: "%r is %s" % (v, vs[o]["name"]))
            return int(vs[n]["discr"]) if vs[n]["discr"] is not None else n
        raise Imprecise("discriminant of %r" % (v,))

    # ------------------------------------------------------------------ terminators
    def term(self, st, f, t):
        k = t[0]
        if k == "goto":
            f.bb, f.si = t[1], 0
        elif k == "switch":
            v = self.operand(st, f, t[1])
            ty = self.opty(f, t[1])
            if isinstance(v, (int, bool)):
                v = int(v)
                b, signed = self.bits(ty) if ty is not None else (None, None)
                tgt = t[3]
                for val, bb in t[2]:
                    val = int(val)
                    if val == v or (b and val == v & ((1 << b) - 1)):
                        tgt = bb
                f.bb, f.si = tgt, 0
            elif isinstance(v, Sym):
                opts = [int(x) for x, _ in t[2]] + ["other"]
                o = st.decide(("switch", v), opts, lambda o: "%r is %s" % (v, o))
                if ("switch", v) not in st.undecided:
                    st.undecided.append(("switch", v))
                tgt = t[3]
                for val, bb in t[2]:
                    if int(val) == o:
                        tgt = bb
                f.bb, f.si = tgt, 0
            else:
                raise Imprecise("switch on %r" % (v,))
        elif k == "ret":
            v = st.mem.get((f.uid, 0), UNIT)
            return self.ret(st, v)
        elif k == "drop":
            f.bb, f.si = t[2], 0
        elif k == "assert":
            v = self.operand(st, f, t[1])
            if isinstance(v, (int, bool)):
                if bool(v) == t[2]:
                    f.bb, f.si = t[3], 0
                else:
                    return Outcome("panic", None, st, "assertion failed: " + t[4])
            else:
                o = st.decide(("assert", v), [True, False], lambda o: "%r is %s" % (v, o))
                if ("assert", v) not in st.undecided:
                    st.undecided.append(("assert", v))
                if o == t[2]:
                    f.bb, f.si = t[3], 0
                else:
                    return Outcome("panic", None, st, "assertion failed: " + t[4])
        elif k == "call":
            return self.call(st, f, t)
        elif k == "unreachable":
            raise Infeasible()
        elif k in ("resume", "abort"):
            raise Imprecise(k)
        else:
            raise Imprecise("terminator " + k)
        return None

    def call(self, st, f, t):
        _, fo, ao, dest, target, span = t
        args = [self.operand(st, f, a) for a in ao]
        fv = self.operand(st, f, fo)
        env = None
        if isinstance(fv, Sym) and fv.op == "closureptr":
            c = fv.args[0]
            inst = self.p.T[c.ty]["inst"]
            env = st.alloc(c)
            args = [env] + args
            if target is None:
                raise Imprecise("diverging call through a pointer")
            return self.invoke(st, f, inst, args, dest, target, True)
        if isinstance(fv, Sym) and fv.op == "fndef":
            inst = self.p.T[fv.args[0]].get("inst")
        elif isinstance(fv, Sym) and fv.op == "fnptr":
            inst = fv.args[0]
        else:
            inst = None
        if inst is None:
            raise Imprecise("call of %r" % (fv,))
        return self.invoke(st, f, inst, args, dest, target, self.p.I[f.inst]["kind"] == "shim")

    def invoke(self, st, f, inst, args, dest, target, direct):
        """call `inst`; direct: closure arguments are not tupled"""
        I = self.p.I[inst]
        path = I["path"]
        if dest is not None:
            r = self.place(st, f, dest) if len(dest) > 1 else ("mem", (f.uid, dest[0]), ())
            if r[0] == "val":
                raise Imprecise("call result through %r" % (r[1],))
            d = (r[1], r[2])
            dty = self.placety(f, dest)
        else:
            d, dty = None, None
        last = path.rsplit("::", 1)[-1]
        if self.p.is_closure(inst) and not direct:
            tup = args[-1]
            if isinstance(tup, Agg) and tup.ty == "tuple" and len(args) == 2:
                args = [args[0]] + list(tup.fields)
        if last.startswith("opq_"):
            v = self.opaque(st, inst, last, args, dty)
            st.write(d[0], d[1], v)
            f.bb, f.si = target, 0
            return None
        c = Call(self, st, f, inst, I, args, d, dty, target)
        m = find_model(I)
        if m is not None:
            r = m(c)
            if r is not PUSHED and target is None:
                return Outcome("panic", None, st, "%s" % (r,))
            if r is PUSHED:
                return None
            if isinstance(r, Outcome):
                return r
            st.write(d[0], d[1], r)
            f.bb, f.si = target, 0
            return None
        if "body" in I:
            self.push(st, inst, args, d, target)
            return None
        if target is None:
            return Outcome("panic", None, st, "%s: %s" % (I["name"], self.panic_text(st, args)))
        if I["kind"] == "virtual":
            i2 = self.virtual(st, inst, args)
            if i2 is not None:
                return self.invoke(st, f, i2, args, dest, target, True)
        if isinstance(dty, int) and self.p.T[dty]["k"] == "adt":
            # constructor of another crate's tuple struct or variant
            t = self.p.T[dty]
            for vi, var in enumerate(t["variants"]):
                if len(var["fields"]) == len(args) and path in ((t["name"],) if len(t["variants"]) == 1 else ()) + (t["name"] + "::" + var["name"],):
                    st.write(d[0], d[1], Agg(dty, vi, args))
                    f.bb, f.si = target, 0
                    return None
        self.unknown[I["path"]] = self.unknown.get(I["path"], 0) + 1
        raise Imprecise("no model for " + I["name"])

    def virtual(self, st, inst, args):
        v = st.load(args[0])
        ty = v.ty if isinstance(v, (Agg, Sym)) else None
        p = self.p.I[inst]["path"]
        tr = p.rsplit("::", 2)
        name = tr[-2] + "::" + tr[-1] if len(tr) > 2 else p
        name = name.replace(">", "")
        if isinstance(ty, int) and ty in self.p.vt:
            i2 = self.p.vt[ty].get(name)
            if i2 is not None and ("body" in self.p.I[i2] or find_model(self.p.I[i2])):
                return i2
        return None

    def panic_text(self, st, args):
        out = []
        for a in args:
            try:
                v = st.load(a)
            except Imprecise:
                continue
            if isinstance(v, Str):
                c = st.normal(v).const()
                out.append(c if c is not None else repr(v))
            elif isinstance(v, Sym) and v.op == "fmtargs":
                out.append(fmt_text(st, v))
            elif isinstance(v, Agg) and len(v.fields) == 2:
                # Arguments::new inlined into a body of core: the template and the arguments themselves
                try:
                    vals = []
                    for x in st.load(v.fields[1]).fields:
                        while isinstance(x, Agg):
                            x = x.fields[0]
                        vals.append(x.args if isinstance(x, Sym) and x.op == "fmtarg" else ("Display", x, None))
                    out.append(fmt_text(st, Sym("fmtargs", (tuple(parse_template(list(st.load(v.fields[0]).fields), vals)),))))
                except (Imprecise, AttributeError, TypeError, IndexError):
                    out.append("<unread message>")
        return " ".join(out)[:300]

    def opaque(self, st, inst, name, args, dty):
        """witness functions standing for arbitrary user code"""
        deep = tuple(st.deep(a) for a in args)
        n = 1 + sum(1 for e in st.events if e[0] == "opq" and e[1] == name and e[2] == deep)
        key = Sym(name, deep + ((n,) if n > 1 and not deep else ()), dty)
        t = self.p.T[dty]
        if t["k"] == "adt" and t["name"].endswith(("result::Result", "option::Option")):
            res = t["name"].endswith("Result")
            never = res and is_never(self.p, t["args"][1])
            o = st.decide(("opq", key), [True] if never else [True, False],
                          lambda o: "%r gives %s" % (key, ("Ok" if o else "Err") if res else ("Some" if o else "None")))
            st.events.append(("opq", name, deep))
            if res:
                inner = Sym("ok" if o else "err", (key,), t["args"][0 if o else 1])
                if o and self.p.T[t["args"][0]]["k"] == "tuple" and not self.p.T[t["args"][0]]["es"]:
                    inner = UNIT
                return Agg(dty, 0 if o else 1, (inner,))
            return Agg(dty, 1, (Sym("some", (key,), t["args"][0]),)) if o else Agg(dty, 0, ())
        st.events.append(("opq", name, deep))
        if t["k"] == "tuple" and not t["es"]:
            return UNIT
        if t["k"] == "ref" and self.p.T[t["e"]]["k"] == "str":
            return Str((Var(("opq", key)),))
        if t["k"] == "adt" and t["name"].endswith("string::String"):
            return Str((Var(("opq", key)),))
        return key

    # ------------------------------------------------------------------ native frames
    def push_native(self, st, native, dest, target):
        f = Frame(st.fresh(), None, None, dest, target)
        f.native = native
        st.frames.append(f)

    def native_lazy(self, st, f):
        _, cell, phase = f.native
        # the initialiser's result has been written into ("lazyval", cell)
        st.frames.pop()
        st.lazy[cell] = True
        ref = Ref(("lazyval", cell))
        st.write(f.dest[0], f.dest[1], ref)
        top = st.frames[-1]
        if top.native is None:
            top.bb, top.si = f.target, 0
        return None

    def native_store(self, st, f):
        """after a callback: compute the result from the callback's value"""
        _, cell, fn = f.native
        v = st.mem.pop(cell)
        return self.ret(st, fn(st, v))

    def native_render(self, st, f):
        _, parts, i, fm, mode, total = f.native
        while i < len(parts):
            p = parts[i]
            i += 1
            if isinstance(p, str):
                fmt_append(st, fm, (p,))
                continue
            kind, v, impl = p
            base = st.load(v)
            txt = direct_text(self.p, st, base, kind)
            if txt is not None:
                fmt_append(st, fm, txt)
                continue
            inst = None
            ty = base.ty if isinstance(base, (Agg, Sym)) else None
            if isinstance(ty, int) and ty in self.p.vt:
                inst = self.p.vt[ty].get(kind + "::fmt")
                if inst is not None and "body" not in self.p.I[inst]:
                    inst = None
            if inst is None and impl is not None and "body" in self.p.I[impl]:
                inst = impl
            if inst is None:
                fmt_append(st, fm, (Sym("disp" if kind == "Display" else "debug", (st.deep(base),)),))
                continue
            f.native = ("render", parts, i, fm, mode, total)
            o = v
            while isinstance(o, Ref):
                w = st.read(o.cell, o.path)
                if not isinstance(w, Ref):
                    break
                o = w
            self.push(st, inst, [o, fm], (("scratch", f.uid), ()), None)
            return None
        f.native = ("render", parts, i, fm, mode, total)
        if mode == "string":
            v = st.read(fm.cell, fm.path).fields[0]
            copied(st, v)
            return self.ret(st, v)
        if mode == "panic":
            v = st.read(fm.cell, fm.path).fields[0]
            return Outcome("panic", None, st, repr(v))
        t = f.native[5]
        return self.ret(st, Agg(t, 0, (UNIT,)))


def is_never(p, ty):
    s = p.tname(ty)
    return s == "!" or s.endswith("convert::Infallible") or s == "Infallible"


class Call:
    __slots__ = ("ip", "st", "f", "inst", "I", "args", "dest", "dty", "target")

    def __init__(self, ip, st, f, inst, I, args, dest, dty, target):
        self.ip, self.st, self.f, self.inst, self.I = ip, st, f, inst, I
        self.args, self.dest, self.dty, self.target = args, dest, dty, target

    def s(self, i):
        """argument i as a string"""
        v = self.st.load(self.args[i])
        if isinstance(v, Str):
            return self.st.normal(v)
        if isinstance(v, Sym):
            # an owner of a string the analysis has no structure for
            return Str((Var(("text", v)),))
        raise Imprecise("string expected, got %r" % (v,))

    def const(self, i):
        c = self.s(i).const()
        if c is None:
            raise Imprecise("constant string expected in " + self.I["name"])
        return c

    def n(self, i):
        v = self.st.load(self.args[i])
        if isinstance(v, int):
            return v
        raise Imprecise("constant integer expected in " + self.I["name"])

    def ok(self, v):
        return Agg(self.dty, 0, (v,))

    def err(self, v):
        return Agg(self.dty, 1, (v,))

    def some(self, v):
        return Agg(self.dty, 1, (v,))

    def none(self):
        return Agg(self.dty, 0, ())

    def targs(self):
        return [self.ip.p.T[a] for a in self.I["args"]]


PUSHED = object()


# ------------------------------------------------------------------------------------- fmt

def fmt_append(st, fm, parts):
    v = st.read(fm.cell, fm.path)
    if not (isinstance(v, Agg) and v.ty == "fmtr"):
        raise Imprecise("unknown formatter")
    st.write(fm.cell, fm.path, Agg("fmtr", 0, (Str(v.fields[0].parts + tuple(parts)),) + v.fields[1:]))


def direct_text(prog, st, v, kind):
    if kind == "Display":
        if isinstance(v, Str):
            return st.normal(v).parts
        if isinstance(v, bool):
            return ("true" if v else "false",)
        if isinstance(v, int):
            return (str(v),)
        if isinstance(v, Sym) and v.op == "fmtargs":
            return None
    return None


def fmt_text(st, v):
    out = []
    for p in v.args[0]:
        if isinstance(p, str):
            out.append(p)
        else:
            try:
                b = st.load(p[1])
            except Imprecise:
                b = None
            t = direct_text(None, st, b, "Display") if b is not None else None
            out.append("".join(x if isinstance(x, str) else repr(x) for x in t) if t is not None else "{}")
    return "".join(out)


def parse_template(bs, args):
    """decode core::fmt::Arguments' byte template; -> parts"""
    out = []
    i = 0
    nxt = 0
    while True:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf-8", "replace"))
            i += n
        else:
            spec = False
            if b & 1:
                i += 4
                spec = True
            if b & 2:
                i += 2
                spec = True
            if b & 4:
                i += 2
                spec = True
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            else:
                idx = nxt
            nxt = idx + 1
            a = args[idx]
            if spec:
                a = ("formatted",) + tuple(a[1:])
            out.append(a)
    return out


# ------------------------------------------------------------------------------------- models
# keyed by path (generic definition path); a list of (predicate, function)

MODELS = {}
SUFFIX = []
_find_cache = {}
FROM_STR = re.compile(r"<(impl std::str::FromStr for [^:].*|[^<].* as std::str::FromStr)>::from_str$")


def model(*paths):
    def deco(fn):
        for p in paths:
            MODELS[p] = fn
        return fn
    return deco


def suffix(*paths):
    def deco(fn):
        for p in paths:
            SUFFIX.append((p, fn))
        return fn
    return deco


def canon(path):
    """definition path with std's facade crates unified"""
    for a in ("core::", "alloc::"):
        path = path.replace(a, "std::")
    return path.replace("sscanf::regex::", "regex::").replace("sscanf::lazy_static::", "lazy_static::")


def find_model(I):
    p = I["path"]
    if p in _find_cache:
        return _find_cache[p]
    c = canon(p)
    m = MODELS.get(c)
    if m is None and FROM_STR.search(c):
        m = m_from_str
    if m is None:
        for s, fn in SUFFIX:
            if c.endswith(s):
                m = fn
                break
    _find_cache[p] = m
    return m


def group_text(st, n, g):
    """the text of group g of captures n"""
    n = first(st, n)
    key = ("g", n, g)
    if key not in st.lang:
        c = st.caps[n]
        if g == 0 and c.get("whole"):
            return c["input"]
        if g == 0:
            st.lang[key] = R.SIGMA
        else:
            h = c["info"][g - 1].sub
            try:
                st.lang[key] = R.lang(h)
            except R.Unsupported:
                st.lang[key] = R.SIGMA
    return Str((Var(key),))


def first(st, n):
    """the first of the searches with the same regex and text: all of them have the same result"""
    return st.caps[n].get("first", n)


def group_present(st, n, g):
    n = first(st, n)
    c = st.caps[n]
    if g == 0:
        return True
    for cond in c["info"][g - 1].conds:
        if cond[0] == "alt":
            _, aid, br, total = cond
            if st.decide(("alt", n, aid), list(range(total)), lambda o: "captures %d: alternative %d of %d" % (n, o, total)) != br:
                return False
        else:
            if not st.decide(("rep", n, cond[1]), [True, False], lambda o: "captures %d: repetition %d %s" % (n, cond[1], "taken" if o else "skipped")):
                return False
    return True


def some_ty(ip, t):
    return ip.p.T[t]["args"][0]


def opt_match(c, ty, n, g):
    """Option<Match> of type id ty"""
    if group_present(c.st, n, g):
        return Agg(ty, 1, (Sym("match", (n, g)),))
    return Agg(ty, 0, ())


def pattern_of(sym):
    pat, flags = sym.args
    return ("(?%s)" % flags if flags else "") + pat


@model("regex::Regex::new", "regex::bytes::Regex::new")
def m_regex_new(c):
    pat = c.s(0).const()
    if pat is None:
        raise Imprecise("pattern is not a constant: %r" % (c.s(0),))
    return regex_build(c, pat, "")


def regex_build(c, pat, flags, size=None, nest=None):
    sym = Sym("regex", (pat, flags))
    # the third element is the cell of the innermost one-time initialiser that runs, or None
    lazy = [f.native[1] for f in c.st.frames if f.native is not None and f.native[0] == "lazy"]
    c.st.events.append(("regex_new", pattern_of(sym), lazy[-1] if lazy else None))
    r = R.TOOL.parse(pattern_of(sym), size, nest)
    if "err" in r:
        c.st.events.append(("regex_invalid", pattern_of(sym), r["err"].strip().splitlines()[-1]))
        return c.err(Sym("regex_error", (pattern_of(sym),)))
    return c.ok(sym)


@model("<regex::Regex as std::str::FromStr>::from_str", "<regex::Regex as std::convert::TryFrom<&str>>::try_from")
def m_regex_from(c):
    return m_regex_new(c)


@model("regex::RegexBuilder::new", "regex::builders::string::RegexBuilder::new")
def m_rb_new(c):
    return Sym("regexbuilder", (c.const(0), "", None, None))


def rb_flag(flag):
    def m(c):
        r = c.st.owner(c.args[0])
        b = c.st.read(r.cell, r.path)
        v = c.st.load(c.args[1])
        if not isinstance(v, bool):
            raise Imprecise("regex builder flag")
        flags = b.args[1].replace(flag, "") + (flag if v else "")
        if flag == "u":
            flags = b.args[1] if v else b.args[1] + "-u"
        c.st.write(r.cell, r.path, Sym("regexbuilder", (b.args[0], flags) + b.args[2:]))
        return c.args[0]
    return m


for _n, _fl in (("case_insensitive", "i"), ("multi_line", "m"), ("dot_matches_new_line", "s"), ("swap_greed", "U"), ("ignore_whitespace", "x"), ("unicode", "u")):
    suffix("RegexBuilder::" + _n)(rb_flag(_fl))


def rb_limit(i):
    def m(c):
        r = c.st.owner(c.args[0])
        b = c.st.read(r.cell, r.path)
        v = c.st.load(c.args[1])
        if isinstance(v, bool) or not isinstance(v, int):
            raise Imprecise("regex builder limit")
        c.st.write(r.cell, r.path, Sym("regexbuilder", b.args[:i] + (v,) + b.args[i + 1:]))
        return c.args[0]
    return m


suffix("RegexBuilder::size_limit")(rb_limit(2))
suffix("RegexBuilder::nest_limit")(rb_limit(3))


@suffix("RegexBuilder::dfa_size_limit")
def m_rb_other(c):
    return c.args[0]


@suffix("RegexBuilder::build")
def m_rb_build(c):
    b = c.st.load(c.args[0])
    return regex_build(c, *b.args)


def regex_arg(c, i=0):
    v = c.st.load(c.args[i])
    if not (isinstance(v, Sym) and v.op == "regex"):
        raise Imprecise("unknown regex %r" % (v,))
    return v


def do_match(c, text):
    r = regex_arg(c)
    pat = pattern_of(r)
    st = c.st
    opts = [True, False]
    L = st.strlang(text)
    if L is not R.SIGMA and st.look(("match", pat, text)) is None:
        try:
            M = R.lang(R.hir(pat), True)
            opts = [o for o, D in ((True, R.inter(L, M)), (False, R.minus(L, M))) if not D.is_empty()]
        except R.Unsupported:
            pass
    m = st.decide(("match", pat, text), opts, lambda o: "regex %s" % ("matches" if o else "does not match"))
    return pat, m


def anchored(h):
    """every match is the whole text"""
    k = h[0]
    if k == "cat" and h[1]:
        return h[1][0] == ("look", "start") and h[1][-1] == ("look", "end")
    if k == "cap":
        return anchored(h[3])
    return k == "alt" and all(anchored(x) for x in h[1])


def from_offset(c, i):
    """the text that a search from an offset looks at"""
    n = c.st.load(c.args[i])
    if n == 0 and not isinstance(n, bool):
        return c.s(1)
    return Str((Var(("from offset", n if isinstance(n, int) else "?", c.st.normal(c.s(1)))),))


def new_captures(c, pat, text):
    st = c.st
    st.events.append(("captures", pat, text))
    n = len(st.caps)
    st.capof[len(st.events) - 1] = n
    h = R.norm(R.hir(pat))
    same = [k for k, v in st.caps.items() if v["pattern"] == pat and st.normal(v["input"]) == st.normal(text)]
    st.caps[n] = {"pattern": pat, "input": text, "info": R.caps(h), "whole": anchored(h), "first": same[0] if same else n}
    return n


@model("regex::Regex::captures", "regex::regex::string::Regex::captures")
def m_captures(c):
    return search(c, c.s(1))


def search(c, text):
    pat, m = do_match(c, text)
    if not m:
        c.st.events.append(("captures", pat, text))
        return c.none()
    return c.some(Sym("caps", (new_captures(c, pat, text),)))


@suffix("regex::Regex::captures_at", "regex::string::Regex::captures_at")
def m_captures_at(c):
    return search(c, from_offset(c, 2))


@suffix("regex::Regex::is_match", "regex::string::Regex::is_match")
def m_is_match(c):
    return do_match(c, c.s(1))[1]


@suffix("regex::Regex::is_match_at", "regex::string::Regex::is_match_at")
def m_is_match_at(c):
    return do_match(c, from_offset(c, 2))[1]


def found(c, text):
    """the first match: only for patterns whose matches are the whole text, the others are not modelled"""
    pat, m = do_match(c, text)
    if not m:
        return c.none()
    st = c.st
    h = R.norm(R.hir(pat))
    if not anchored(h):
        raise Imprecise("match of a pattern that is not anchored")
    n = len(st.caps)
    st.caps[n] = {"pattern": pat, "input": text, "info": R.caps(h), "whole": True, "first": n}
    return c.some(Sym("match", (n, 0)))


@suffix("regex::Regex::find", "regex::string::Regex::find")
def m_find(c):
    return found(c, c.s(1))


@suffix("regex::Regex::find_at", "regex::string::Regex::find_at")
def m_find_at(c):
    return found(c, from_offset(c, 2))


@suffix("regex::Regex::captures_iter", "regex::string::Regex::captures_iter")
def m_captures_iter(c):
    r = regex_arg(c)
    if not anchored(R.norm(R.hir(pattern_of(r)))):
        raise Imprecise("matches of a pattern that is not anchored")
    return Sym("capiter", (r, c.s(1)))


@suffix("CaptureMatches<'r, 'h> as std::iter::Iterator>::next")
def m_captures_next(c):
    r = c.st.owner(c.args[0])
    it = c.st.read(r.cell, r.path)
    if not (isinstance(it, Sym) and it.op == "capiter"):
        raise Imprecise("unknown iterator")
    if len(it.args) == 3:
        return c.none()   # every match is the whole text: there is no second one
    sub = copy.copy(c)
    sub.args = [it.args[0], it.args[1]]
    v = search(sub, it.args[1])
    c.st.write(r.cell, r.path, Sym("capiter", it.args + (True,)))
    return v


@suffix("regex::Regex::captures_len", "regex::string::Regex::captures_len")
def m_captures_len(c):
    return len(R.caps(R.hir(pattern_of(regex_arg(c))))) + 1


@suffix("regex::Regex::as_str", "regex::string::Regex::as_str")
def m_regex_as_str(c):
    return Str((regex_arg(c).args[0],))


@suffix("<regex::Regex as std::clone::Clone>::clone", "string::Regex as std::clone::Clone>::clone")
def m_regex_clone(c):
    return regex_arg(c)


def caps_arg(c, i=0):
    v = c.st.load(c.args[i])
    if not (isinstance(v, Sym) and v.op == "caps"):
        raise Imprecise("unknown captures %r" % (v,))
    return v.args[0]


@suffix("Captures::<'h>::iter", "Captures::<'t>::iter")
def m_caps_iter(c):
    return Sym("subcap", (caps_arg(c), 0))


@suffix("Captures::<'h>::len")
def m_caps_len(c):
    return len(c.st.caps[caps_arg(c)]["info"]) + 1


@suffix("Captures::<'h>::get")
def m_caps_get(c):
    n = caps_arg(c)
    g = c.n(1)
    if g > len(c.st.caps[n]["info"]):
        return c.none()
    return opt_match(c, c.dty, n, g)


@suffix("Captures::<'h>::get_match")
def m_caps_get_match(c):
    return Sym("match", (caps_arg(c), 0))


@suffix("Captures::<'h>::name")
def m_caps_name(c):
    n = caps_arg(c)
    name = c.const(1)
    for i in c.st.caps[n]["info"]:
        if i.name == name:
            return opt_match(c, c.dty, n, i.index)
    return c.none()


@suffix("Captures<'h> as std::ops::Index<usize>>::index")
def m_caps_index(c):
    n = caps_arg(c)
    g = c.n(1)
    if g > len(c.st.caps[n]["info"]) or not group_present(c.st, n, g):
        return Outcome("panic", None, c.st, "no group at index %d" % g)
    return group_text(c.st, n, g)


def subcap_ref(c, i=0):
    r = c.args[i]
    if not isinstance(r, Ref):
        raise Imprecise("iterator by value")
    r = c.st.owner(r)
    v = c.st.read(r.cell, r.path)
    if not (isinstance(v, Sym) and v.op == "subcap"):
        raise Imprecise("unknown iterator %r" % (v,))
    return r, v.args[0], v.args[1]


def next_capture(c, skip, ty):
    """consumes skip+1 captures, returns the last as Option<Option<Match>>"""
    r, n, pos = subcap_ref(c)
    total = len(c.st.caps[n]["info"]) + 1
    g = pos + skip
    inner = c.ip.p.T[ty]["args"][0]
    if g >= total:
        c.st.write(r.cell, r.path, Sym("subcap", (n, total)))
        return Agg(ty, 0, ())
    m = opt_match(c, inner, n, g)   # may fork: decide before consuming
    c.st.write(r.cell, r.path, Sym("subcap", (n, g + 1)))
    c.st.events.append(("taken", n, g))
    return Agg(ty, 1, (m,))


def is_subcap(I):
    return "SubCaptureMatches" in I["name"]


@suffix("SubCaptureMatches<'c, 'h> as std::iter::Iterator>::next", "SubCaptureMatches<'c, 't> as std::iter::Iterator>::next")
def m_next(c):
    return next_capture(c, 0, c.dty)


@suffix("SubCaptureMatches<'c, 'h> as std::iter::Iterator>::size_hint")
def m_size_hint(c):
    r, n, pos = subcap_ref(c)
    k = len(c.st.caps[n]["info"]) + 1 - pos
    opt = c.ip.p.T[c.dty]["es"][1]
    return Agg("tuple", 0, (k, Agg(opt, 1, (k,))))


@suffix("SubCaptureMatches<'c, 'h> as std::iter::Iterator>::count")
def m_count(c):
    v = c.st.load(c.args[0])
    return len(c.st.caps[v.args[0]]["info"]) + 1 - v.args[1]


@suffix("std::iter::Iterator::nth")
def m_nth(c):
    r, n, pos = subcap_ref(c)
    return next_capture(c, c.n(1), c.dty)


@suffix("std::iter::ExactSizeIterator::len", "std::iter::ExactSizeIterator>::len")
def m_len(c):
    r, n, pos = subcap_ref(c)
    return len(c.st.caps[n]["info"]) + 1 - pos


@suffix("SubCaptureMatches<'c, 'h> as std::clone::Clone>::clone")
def m_subcap_clone(c):
    return c.st.load(c.args[0])


def match_arg(c):
    v = c.st.load(c.args[0])
    if not (isinstance(v, Sym) and v.op == "match"):
        raise Imprecise("unknown match %r" % (v,))
    return v


@suffix("Match::<'h>::as_str", "Match<'h>> for &'h str>::from", "std::convert::From<regex::Match<'h>> for &'h str>::from")
def m_as_str(c):
    v = match_arg(c)
    return group_text(c.st, *v.args)


@suffix("Match::<'h>::len")
def m_match_len(c):
    return Sym("len", (group_text(c.st, *match_arg(c).args),))


@suffix("Match::<'h>::is_empty")
def m_match_is_empty(c):
    return c.st.equals(group_text(c.st, *match_arg(c).args), "")


@suffix("Match::<'h>::start", "Match::<'h>::end")
def m_match_pos(c):
    n, g = match_arg(c).args
    if g == 0 and c.st.caps[n].get("whole"):
        return 0 if c.I["path"].endswith("start") else c.ip.strlen(c.st, c.st.caps[n]["input"])
    return Sym(c.I["path"].rsplit("::", 1)[1], (match_arg(c),), c.dty)


# ---- lazy statics

def lazy_get(c, inst):
    r = c.st.owner(c.args[0]) if isinstance(c.args[0], Ref) else None
    if r is None:
        raise Imprecise("lazy value")
    cell = (r.cell, r.path)
    if c.st.lazy.get(cell):
        return Ref(("lazyval", cell))
    c.ip.push_native(c.st, ("lazy", cell, 0), c.dest, c.target)
    if inst is None:
        raise Imprecise("lazy initialiser")
    n = c.ip.p.I[inst]["body"]["argc"] if "body" in c.ip.p.I[inst] else 0
    args = []
    if n == 1:
        args = [c.args[-1]]
    c.ip.push(c.st, inst, args, (("lazyval", cell), ()), None)
    return PUSHED


@model("lazy_static::lazy::Lazy::<T>::get")
@suffix("lazy::Lazy::<T>::get", "OnceLock::<T>::get_or_init", "OnceCell::<T>::get_or_init")
def m_lazy_get(c):
    for t in c.targs()[1:]:
        if t.get("inst") is not None:
            return lazy_get(c, t["inst"])
    return lazy_get(c, None)


@suffix("LazyLock<T, F> as std::ops::Deref>::deref", "LazyLock::<T, F>::force", "LazyLock::<T>::force")
def m_lazylock(c):
    r = c.st.owner(c.args[0]) if isinstance(c.args[0], Ref) else None
    if r is not None and r.cell[0] == "static":
        fns = c.ip.p.S[r.cell[1]].get("fns") or []
        if len(fns) == 1:
            return lazy_get(c, fns[0])
    for t in c.targs()[1:]:
        if t.get("inst") is not None:
            return lazy_get(c, t["inst"])
    raise Imprecise("LazyLock")


# ---- conversions

def conv(c, kind, name, text, extra=()):
    """a fallible conversion of `text` into a value of the named std type"""
    st = c.st
    T = c.ip.p.T
    t = T[c.dty]
    key = ("conv", kind, name, text) + extra
    if not (t["k"] == "adt" and t["name"].endswith("result::Result")):
        raise Imprecise("conversion without Result")
    ok_t, err_t = t["args"]
    if is_never(c.ip.p, err_t):
        o = True
    else:
        o = st.decide(key, [True, False], lambda o: "%s of %r as %s %s" % (kind, text, name, "succeeds" if o else "fails"))
    if o:
        return c.ok(Sym("value", (kind, name, text) + extra, ok_t))
    return c.err(Sym("error", (kind, name, text) + extra, err_t))


@suffix("as std::str::FromStr>::from_str")
def m_from_str(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    ok_t = c.ip.p.T[c.ip.p.T[c.dty]["args"][0]]
    if ok_t["k"] == "adt" and ok_t["name"].endswith("string::String"):
        return c.ok(c.s(0))
    return conv(c, "FromStr", ok_t["s"], c.s(0))


@suffix(">::from_str_radix", ">::from_ascii_radix")
def m_radix(c):
    ok_t = c.ip.p.T[c.ip.p.T[c.dty]["args"][0]]
    return conv(c, "radix", ok_t["s"], c.s(0), (c.n(1),))


# ---- str

@suffix("std::str::<impl str>::get")
def m_str_get(c):
    v = c.args[1]
    if isinstance(v, Agg) and isinstance(v.ty, int) and c.ip.p.T[v.ty]["s"].endswith("RangeFull"):
        return c.some(c.s(0))
    r = substr(c, c.s(0), v)
    return c.some(r)


def substr(c, s, rng_):
    st = c.st
    if not (isinstance(rng_, Agg) and isinstance(rng_.ty, int)):
        raise Imprecise("range")
    name = c.ip.p.T[rng_.ty]["s"]
    if name.endswith("RangeFull"):
        return s
    if "RangeFrom<" in name and isinstance(rng_.fields[0], int):
        n = rng_.fields[0]
        s = st.normal(s)
        parts = list(s.parts)
        while n:
            if not parts or not isinstance(parts[0], str):
                if parts and isinstance(parts[0], Var):
                    return Str((Sym("xform", ("slice", s, rng_.fields[0])),))
                raise Imprecise("slice position")
            b = parts[0].encode()
            k = min(n, len(b))
            parts[0] = b[k:].decode("utf-8", "replace")
            n -= k
            if not parts[0]:
                parts.pop(0)
        return Str(parts)
    k = re.search(r"(Range|RangeFrom|RangeTo)<", name)
    lo, hi = {"Range": (0, 1), "RangeFrom": (0, None), "RangeTo": (None, 0)}[k.group(1)] if k else (None, None)
    if lo is not None or hi is not None:
        s = st.normal(s)
        a = 0 if lo is None else st.deep(rng_.fields[lo])
        b = c.ip.strlen(st, s) if hi is None else st.deep(rng_.fields[hi])
        if b == c.ip.strlen(st, s):
            if a == 0 and not isinstance(a, bool):
                return s
            b = None
        for k, v in (("before", b), ("from", a)):
            if isinstance(v, Sym) and v.op == "pos" and v.args[0] == s and (a == 0 if k == "before" else b is None):
                before, after = v.args[2:]
                return before if k == "before" else Str((v.args[1],) + after.parts)
        return Str((Sym("xform", ("slice", s, a, b)),))
    return Str((Sym("xform", ("slice", s, name) + tuple(st.deep(x) for x in rng_.fields)),))


def contains_lang(lit):
    return R.lang(("cat", (_SIG, ("lit", lit), _SIG)))


def split_first(c, s, lit):
    """(text before the first `lit`, text after it), or None"""
    st = c.st
    s = st.normal(s)
    k = s.const()
    if k is not None:
        return (Str((k.split(lit, 1)[0],)), Str((k.split(lit, 1)[1],))) if lit in k else None
    if len(s.parts) != 1 or not isinstance(s.parts[0], Var):
        raise Imprecise("search in pieces")
    key = s.parts[0].key
    d = st.dec.get(("split", s, lit))
    if d is not None:
        b, a = ("before", key, lit), ("after", key, lit)
        return (Str((Var(b),)), Str((Var(a),))) if d else None
    L = st.langof(s.parts[0])
    yes, no = R.inter(L, contains_lang(lit)), R.minus(L, contains_lang(lit))

    def opt(v, l):
        def f(st):
            st.lang[key] = l
            st.dec[("split", s, lit)] = v
            if v:
                st.lang[("before", key, lit)] = R.minus(R.SIGMA, contains_lang(lit))
            st.log.append("%s %s %r" % (key, "contains" if v else "lacks", lit))
        return f
    raise Fork([opt(v, l) for v, l in ((True, yes), (False, no)) if not l.is_empty()])


def one_pattern(c, i=1):
    ps = pattern_strs(c, i)
    if len(ps) != 1 or not ps[0]:
        raise Imprecise("search for several texts")
    return ps[0]


@suffix("std::str::<impl str>::find")
def m_str_find(c):
    lit = one_pattern(c)
    r = split_first(c, c.s(0), lit)
    if r is None:
        return c.none()
    return c.some(Sym("pos", (c.st.normal(c.s(0)), lit) + r))


@suffix("std::str::<impl str>::split_once")
def m_split_once(c):
    r = split_first(c, c.s(0), one_pattern(c))
    return c.none() if r is None else c.some(Agg("tuple", 0, r))


@suffix("std::str::<impl str>::split", "std::str::<impl str>::split_terminator", "std::str::<impl str>::split_inclusive")
def m_split(c):
    return Sym("pieces", (c.s(0), one_pattern(c), c.I["name"].rsplit("::", 1)[1].split("<")[0]))


@suffix("std::str::<impl str>::lines")
def m_lines(c):
    return Sym("pieces", (c.s(0), "\n", "lines"))


@suffix("std::str::Split<'a, P> as std::iter::Iterator>::next", "std::str::SplitTerminator<'a, P> as std::iter::Iterator>::next", "std::str::SplitInclusive<'a, P> as std::iter::Iterator>::next",
        "std::str::Lines<'a> as std::iter::Iterator>::next")
def m_pieces_next(c):
    r = c.st.owner(c.args[0])
    v = c.st.read(r.cell, r.path)
    if not (isinstance(v, Sym) and v.op == "pieces"):
        raise Imprecise("unknown iterator")
    s, lit, kind = v.args
    if s is None:
        return c.none()
    if kind != "split" and c.st.equals(s, ""):
        return c.none()
    d = split_first(c, s, lit)
    if d is None:
        c.st.write(r.cell, r.path, Sym("pieces", (None, lit, kind)))
        return c.some(s)
    piece = d[0]
    if kind == "split_inclusive":
        piece = Str(d[0].parts + (lit,))
    elif kind == "lines":
        bare = c.st.ends_with(d[0], "\r")   # may fork: decide before consuming
        piece = d[0] if bare is None else bare
    c.st.write(r.cell, r.path, Sym("pieces", (d[1], lit, kind)))
    return c.some(piece)


@suffix("std::str::<impl str>::is_ascii")
def m_is_ascii(c):
    s = c.st.normal(c.s(0))
    k = s.const()
    if k is not None:
        return k.isascii()
    if len(s.parts) != 1 or not isinstance(s.parts[0], Var):
        raise Imprecise("is_ascii on pieces")
    return by_lang(c, s.parts[0], R.lang(("rep", 0, None, True, ("class", R.ASCII))), "is ASCII")


def by_lang(c, var, lang, what):
    """is the text in the language: forks when both are possible"""
    L = c.st.langof(var)
    yes, no = R.inter(L, lang), R.minus(L, lang)
    if no.is_empty():
        return True
    if yes.is_empty():
        return False
    raise Fork([c.st.restrict(var.key, yes, "%s %s" % (var.key, what)), c.st.restrict(var.key, no, "not: %s %s" % (var.key, what))])


@suffix("std::ops::Index<I> for str>::index", "std::ops::Index<I> for std::string::String>::index", "<str as std::ops::Index<I>>::index", "<std::string::String as std::ops::Index<I>>::index")
def m_str_index(c):
    return substr(c, c.s(0), c.args[1])


@suffix("std::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_str_is_empty(c):
    s = c.s(0)
    if any(isinstance(p, str) for p in s.parts):
        return False
    return c.st.equals(s, "")


@suffix("std::str::<impl str>::len", "std::string::String::len")
def m_str_len(c):
    return c.ip.strlen(c.st, c.s(0))


def pattern_strs(c, i=1):
    """a `Pattern` argument as the list of literal strings it may match"""
    t = c.targs()[0] if c.targs() else None
    v = c.st.load(c.args[i]) if isinstance(c.args[i], Ref) else c.args[i]
    if isinstance(v, bool):
        raise Imprecise("pattern")
    if isinstance(v, int):
        return [chr(v)]
    if isinstance(v, Str):
        k = v.const()
        if k is None:
            raise Imprecise("symbolic pattern")
        return [k]
    if isinstance(v, Agg) and v.ty == "array" and all(isinstance(x, int) for x in v.fields):
        return [chr(x) for x in v.fields]
    raise Imprecise("pattern %r" % (v,))


@suffix("std::str::<impl str>::strip_prefix")
def m_strip_prefix(c):
    for p in pattern_strs(c):
        r = c.st.starts_with(c.s(0), p)
        if r is not None:
            return c.some(r)
    return c.none()


@suffix("std::str::<impl str>::starts_with")
def m_starts_with(c):
    for p in pattern_strs(c):
        if c.st.starts_with(c.s(0), p) is not None:
            return True
    return False


@suffix("std::str::<impl str>::strip_suffix")
def m_strip_suffix(c):
    for p in pattern_strs(c):
        r = c.st.ends_with(c.s(0), p)
        if r is not None:
            return c.some(r)
    return c.none()


@suffix("std::str::<impl str>::ends_with")
def m_ends_with(c):
    for p in pattern_strs(c):
        if c.st.ends_with(c.s(0), p) is not None:
            return True
    return False


@suffix("std::str::<impl str>::as_str", "std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref",
        "std::str::<impl str>::to_owned", "<str as std::borrow::ToOwned>::to_owned", "std::borrow::ToOwned for str>::to_owned",
        "std::borrow::ToOwned>::to_owned",
        "<str as std::string::ToString>::to_string", "<T as std::string::SpecToString>::spec_to_string",
        "std::convert::From<&str> for std::string::String>::from", "<std::string::String as std::convert::From<&str>>::from",
        "<std::string::String as std::convert::From<&'a str>>::from", "<std::string::String as std::convert::From<&mut str>>::from",
        "<std::string::String as std::convert::AsRef<str>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
        "<std::string::String as std::borrow::Borrow<str>>::borrow", "std::borrow::Borrow<str> for std::string::String>::borrow", "<std::string::String as std::clone::Clone>::clone",
        "std::string::String::into_boxed_str", "std::str::<impl str>::into_string",
        "<std::boxed::Box<str> as std::convert::From<&str>>::from", "std::convert::From<&str> for std::boxed::Box<str>>::from",
        "std::convert::From<&str> for std::rc::Rc<str>>::from", "std::convert::From<&str> for std::sync::Arc<str>>::from",
        "<std::rc::Rc<str> as std::convert::From<&str>>::from", "<std::sync::Arc<str> as std::convert::From<&str>>::from", "std::string::String::leak")
def m_ident_str(c):
    s = c.s(0)
    n = c.I["name"]
    if any(k in n for k in ("to_owned", "to_string", "clone", "::from")):
        copied(c.st, s)
    return s


def copied(st, s):
    """text that depends on the input is stored in memory of its own"""
    if any(not isinstance(p, str) for p in s.parts):
        st.events.append(("copy", s))


@suffix("as std::string::ToString>::to_string", "std::string::ToString::to_string")
def m_to_string(c):
    v = c.st.load(c.args[0])
    if isinstance(v, (Str, int, bool)):
        t = direct_text(c.ip.p, c.st, v, "Display")
        copied(c.st, Str(t))
        return Str(t)
    ty = v.ty if isinstance(v, (Agg, Sym)) else None
    fm = c.st.alloc(Agg("fmtr", 0, (Str(()),)))
    c.ip.push_native(c.st, ("render", [("Display", c.args[0], None)], 0, fm, "string", None), c.dest, c.target)
    return PUSHED


@suffix("as std::ops::Deref>::deref", "as std::convert::AsRef<str>>::as_ref", "as std::borrow::Borrow<str>>::borrow")
def m_deref(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    T = c.ip.p.T
    d = T[c.dty]
    if d["k"] == "ref" and T[d["e"]]["k"] == "str":
        return c.s(0)
    v = c.args[0]
    if isinstance(v, Ref):
        w = c.st.read(v.cell, v.path)
        if isinstance(w, Ref):
            return w  # Box, Rc, ...
        if isinstance(w, Sym):
            return c.st.alloc(Sym("deref", (w,), d.get("e")))
    raise Imprecise("deref by " + c.I["name"])


@suffix("<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow",
        "<std::boxed::Box<T> as std::convert::AsRef<T>>::as_ref")
def m_box_as_ref(c):
    v = c.args[0]
    w = c.st.read(v.cell, v.path) if isinstance(v, Ref) else v
    if isinstance(w, (Ref, Str)):
        return w
    if isinstance(w, Sym):
        return c.st.alloc(Sym("unbox", (w,), w.ty))
    raise Imprecise("as_ref")


def any_lang(fs):
    return R.lang(("alt", tuple(fs)))


# texts that the function changes
AFFECTS = {
    "trim_start_matches": lambda ps: any_lang(("cat", (("lit", p), _SIG)) for p in ps),
    "trim_end_matches": lambda ps: any_lang(("cat", (_SIG, ("lit", p))) for p in ps),
    "trim_matches": lambda ps: any_lang(x for p in ps for x in (("cat", (("lit", p), _SIG)), ("cat", (_SIG, ("lit", p))))),
    "replace": lambda ps: any_lang(("cat", (_SIG, ("lit", p), _SIG)) for p in ps),
}


def xform(name, idempotent=None):
    def m(c):
        s = c.s(0)
        if idempotent is not None:
            try:
                if R.not_in(c.st.strlang(s), idempotent) is None:
                    return s
            except R.Unsupported:
                pass
        extra = tuple(c.st.deep(a) for a in c.args[1:])
        n = c.st.normal(s)
        if name in AFFECTS and len(n.parts) == 1 and isinstance(n.parts[0], Var):
            try:
                ps = pattern_strs(c)
            except Imprecise:
                ps = []
            if ps and all(ps) and not by_lang(c, n.parts[0], AFFECTS[name](ps), "is affected by %s(%r)" % (name, ps)):
                return n
        return Str((Sym("xform", (name, s) + extra),))
    return m


_WS = R.chars("\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")
_NWS = R.cs_minus(R.ANY, _WS)
_SIG = ("rep", 0, None, True, ("class", R.ANY))
_NOLEAD = R.lang(("alt", (("cat", ()), ("cat", (("class", _NWS), _SIG)))))
_NOTRAIL = R.lang(("alt", (("cat", ()), ("cat", (_SIG, ("class", _NWS))))))
_NOBOTH = R.inter(_NOLEAD, _NOTRAIL)
_UP = ((65, 90),)
_NOUPPER = R.lang(("rep", 0, None, True, ("class", R.cs_minus(R.ASCII, _UP))))
_NOLOWER = R.lang(("rep", 0, None, True, ("class", R.cs_minus(R.ASCII, ((97, 122),)))))
for _n, _l in (("trim", _NOBOTH), ("trim_start", _NOLEAD), ("trim_end", _NOTRAIL), ("trim_left", _NOLEAD), ("trim_right", _NOTRAIL),
               ("to_lowercase", _NOUPPER), ("to_ascii_lowercase", _NOUPPER), ("to_uppercase", _NOLOWER), ("to_ascii_uppercase", _NOLOWER),
               ("trim_matches", None), ("trim_start_matches", None), ("trim_end_matches", None), ("replace", None), ("replacen", None),
               ("repeat", None)):
    suffix("std::str::<impl str>::" + _n)(xform(_n, _l))


@suffix("std::str::<impl str>::contains")
def m_contains(c):
    ps = pattern_strs(c)
    s = c.s(0)
    if len(ps) != 1:
        raise Imprecise("contains")
    k = s.const()
    if k is not None:
        return ps[0] in k
    has = R.lang(("cat", (_SIG, ("lit", ps[0]), _SIG)))
    if len(s.parts) == 1 and isinstance(s.parts[0], Var):
        L = c.st.langof(s.parts[0])
        yes, no = R.inter(L, has), R.minus(L, has)
        if yes.is_empty():
            return False
        if no.is_empty():
            return True
        key = s.parts[0].key
        d = c.st.look(("contains", s, ps[0]))
        if d is not None:
            return d

        def opt(v, l):
            def f(st):
                st.lang[key] = l
                st.dec[("contains", s, ps[0])] = v
                st.log.append("%s %s %r" % (key, "contains" if v else "lacks", ps[0]))
            return f
        raise Fork([opt(True, yes), opt(False, no)])
    raise Imprecise("contains on pieces")


def str_eq(c, a, b):
    a, b = c.st.normal(a), c.st.normal(b)
    if a == b:
        return True
    if b.const() is not None:
        return c.st.equals(a, b.const())
    if a.const() is not None:
        return c.st.equals(b, a.const())
    return c.st.decide(("streq", a, b), [True, False], lambda o: "%r %s %r" % (a, "==" if o else "!=", b))


@suffix("std::cmp::PartialEq>::eq", "std::cmp::PartialEq for str>::eq", "<str as std::cmp::PartialEq>::eq", "std::cmp::PartialEq<str>>::eq",
        "std::cmp::PartialEq<&'a str>>::eq", "std::cmp::PartialEq<&str>>::eq", "std::cmp::PartialEq<std::string::String>>::eq")
def m_eq(c):
    a, b = c.st.load(c.args[0]), c.st.load(c.args[1])
    if isinstance(a, Str) and isinstance(b, Str):
        return str_eq(c, a, b)
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = c.st.deep(a), c.st.deep(b)
        if a == b:
            return True
        return Sym("Eq", (a, b), c.dty)
    raise Imprecise("eq")


@suffix("std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_string_new(c):
    return Str(())


@suffix("std::string::String::push_str")
def m_push_str(c):
    r = c.st.owner(c.args[0])
    v = c.st.read(r.cell, r.path)
    copied(c.st, c.s(1))
    c.st.write(r.cell, r.path, Str(v.parts + c.s(1).parts))
    return UNIT


@suffix("std::string::String::push")
def m_push(c):
    r = c.st.owner(c.args[0])
    v = c.st.read(r.cell, r.path)
    c.st.write(r.cell, r.path, Str(v.parts + (chr(c.n(1)),)))
    return UNIT


@suffix("<std::string::String as std::ops::Add<&str>>::add")
def m_add(c):
    copied(c.st, c.s(1))
    return Str(c.s(0).parts + c.s(1).parts)


@suffix("std::string::String::with_capacity")
def m_with_capacity(c):
    return Str(())


@suffix("std::slice::<impl [S]>::concat", "std::slice::<impl [T]>::concat")
def m_concat(c):
    v = c.st.load(c.args[0])
    if not isinstance(v, Agg):
        raise Imprecise("concat")
    out = ()
    for x in v.fields:
        x = c.st.load(x)
        if not isinstance(x, Str):
            raise Imprecise("concat")
        out += x.parts
    copied(c.st, Str(out))
    return Str(out)


# ---- fmt

@suffix("fmt::rt::Argument::<'_>::new_display", "fmt::rt::Argument::new_display")
def m_new_display(c):
    return Sym("fmtarg", ("Display", c.args[0], c.I.get("fmt_impl")))


@suffix("fmt::rt::Argument::<'_>::new_debug", "fmt::rt::Argument::new_debug")
def m_new_debug(c):
    return Sym("fmtarg", ("Debug", c.args[0], c.I.get("fmt_impl")))


@suffix("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'_>::new", "fmt::rt::<impl std::fmt::Arguments<'a>>::new")
def m_args_new(c):
    t = c.st.load(c.args[0])
    a = c.st.load(c.args[1])
    bs = list(t.fields)
    args = [x.args for x in a.fields]
    return Sym("fmtargs", (tuple(parse_template(bs, args)),))


@suffix("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'_>::from_str", "std::fmt::Arguments::<'_>::from_str_nonconst")
def m_args_str(c):
    return Sym("fmtargs", ((c.const(0),),))


@model("std::fmt::format")
def m_format(c):
    v = c.st.load(c.args[0])
    if not (isinstance(v, Sym) and v.op == "fmtargs"):
        raise Imprecise("format")
    fm = c.st.alloc(Agg("fmtr", 0, (Str(()),)))
    c.ip.push_native(c.st, ("render", list(v.args[0]), 0, fm, "string", None), c.dest, c.target)
    return PUSHED


@suffix("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def m_write_fmt(c):
    v = c.st.load(c.args[1])
    fm = c.st.owner(c.args[0])
    c.ip.push_native(c.st, ("render", list(v.args[0]), 0, fm, "result", c.dty), c.dest, c.target)
    return PUSHED


@suffix("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'_>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::pad")
def m_write_str(c):
    fmt_append(c.st, c.st.owner(c.args[0]), c.s(1).parts)
    return c.ok(UNIT)


@suffix("as std::fmt::Display>::fmt", "std::fmt::Display for str>::fmt", "std::fmt::Display for &T>::fmt")
def m_display_fmt(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    fm = c.st.owner(c.args[1])
    c.ip.push_native(c.st, ("render", [("Display", c.args[0], None)], 0, fm, "result", c.dty), c.dest, c.target)
    return PUSHED


# ---- boxes, errors, types

def boxed(c, v, ty):
    if isinstance(v, Sym) and v.ty is None:
        v = Sym(v.op, v.args, ty)
    return c.st.alloc(v)


@model("std::boxed::Box::<T>::new", "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def m_box_new(c):
    return boxed(c, c.args[0], c.I["args"][0])


@suffix("std::convert::From<E> for std::boxed::Box<(dyn std::error::Error + 'a)>>::from",
        "std::convert::From<E> for std::boxed::Box<(dyn std::error::Error + std::marker::Send + std::marker::Sync + 'a)>>::from",
        "std::convert::From<E> for std::boxed::Box<dyn std::error::Error>>::from")
def m_box_from(c):
    return boxed(c, c.args[0], c.I["args"][0])


@suffix("std::convert::From<T> for std::boxed::Box<T>>::from")
def m_box_from2(c):
    return boxed(c, c.args[0], c.I["args"][0])


@model("std::any::type_name")
def m_type_name(c):
    return Str((Sym("type_name", (c.targs()[0]["s"],)),))


@suffix("std::any::type_name_of_val")
def m_type_name2(c):
    return Str((Sym("type_name", (c.targs()[0]["s"],)),))


@suffix("std::intrinsics::cold_path", "std::hint::cold_path")
def m_nop(c):
    return UNIT


@suffix("std::error::Error::source", "std::error::Error::cause")
def m_source(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    v = c.st.load(c.args[0])
    if c.I["kind"] == "virtual":
        i2 = c.ip.virtual(c.st, c.inst, c.args)
        if i2 is not None:
            I2 = c.ip.p.I[i2]
            if "body" in I2:
                c.ip.push(c.st, i2, c.args, c.dest, c.target)
                return PUSHED
            if I2["path"] in ("std::error::Error::source", "core::error::Error::source"):
                return c.none()  # the provided method
    if isinstance(v, Sym):
        return Sym("source", (c.st.deep(v),), c.dty)
    if c.I["path"].endswith("Error::source"):
        return c.none()  # the provided method
    raise Imprecise("source")


@suffix("as std::clone::Clone>::clone")
def m_clone(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    v = c.st.load(c.args[0])
    if isinstance(v, (Str, int, bool)):
        return v
    if isinstance(v, Sym):
        return v
    raise Imprecise("clone")


@suffix("std::default::Default for &str>::default", "<&str as std::default::Default>::default")
def m_str_default(c):
    return Str(())


@suffix("as std::default::Default>::default")
def m_default(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    t = c.ip.p.T[c.dty]
    if t["k"] in ("int", "uint"):
        return 0
    if t["k"] == "bool":
        return False
    c.st.events.append(("default", t["s"]))
    return Sym("default", (t["s"],), c.dty)


@suffix("as std::convert::TryFrom<u8>>::try_from", "as std::convert::TryFrom<U>>::try_from", "::try_from")
def m_try_from(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    t = c.ip.p.T[c.dty]
    v = c.st.deep(c.args[0])
    ok_t, err_t = t["args"]
    name = c.ip.p.tname(ok_t)
    if is_never(c.ip.p, err_t):
        return c.ok(Sym("into", (name, v), ok_t))
    o = c.st.decide(("conv", "TryFrom", name, v), [True, False], lambda o: "TryFrom of %r to %s %s" % (v, name, "succeeds" if o else "fails"))
    if o:
        return c.ok(Sym("value", ("TryFrom", name, v), ok_t))
    return c.err(Sym("error", ("TryFrom", name, v), err_t))


@suffix("::from")
def m_from(c):
    if "body" in c.I:
        c.ip.push(c.st, c.inst, c.args, c.dest, c.target)
        return PUSHED
    if "std::convert::From<" not in canon(c.I["path"]):
        raise Imprecise("no model for " + c.I["name"])
    v = c.st.deep(c.args[0])
    return Sym("into", (c.ip.p.tname(c.dty), v), c.dty)

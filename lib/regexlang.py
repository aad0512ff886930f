"""Regular languages: HIR (from hirdump) -> NFA -> symbolic DFA, with the decision procedures the
rules need (emptiness, inclusion, equality with a counterexample word, derivatives).

Nothing here runs the code under analysis: patterns are constants of the compiled program, and the
questions are about the languages they denote.
"""
import json
import os
import subprocess
from functools import lru_cache

MAXCP = 0x10FFFF
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------------------------
# character sets: sorted tuples of (lo, hi), hi inclusive

def cs_norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


@lru_cache(maxsize=None)
def cs_inter(a, b):
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=None)
def cs_neg(a):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def cs_minus(a, b):
    return cs_inter(a, cs_neg(b))


def cs_union(*xs):
    return cs_norm([t for x in xs for t in x])


def cs_has(a, c):
    for lo, hi in a:
        if lo <= c <= hi:
            return True
        if c < lo:
            return False
    return False


def chars(s):
    return cs_norm([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return ((ord(a), ord(b)),)


# surrogates are not characters
ANY = ((0, 0xD7FF), (0xE000, MAXCP))
NL = ((10, 10),)
NOT_NL = cs_inter(ANY, cs_neg(NL))
ASCII = ((0, 127),)

_PREF = [(97, 122), (48, 57), (65, 90), (33, 126), (32, 32)]


@lru_cache(maxsize=None)
def cs_rep(a):
    for p in _PREF:
        r = cs_inter(a, (p,))
        if r:
            return chr(r[0][0])
    return chr(a[0][0])


@lru_cache(maxsize=None)
def minterms(sets):
    """partition of the union of `sets`: list of (charset, tuple of indices of the sets it is in)"""
    parts = []
    for i, s in enumerate(sets):
        new = []
        rest = s
        for p, idx in parts:
            both = cs_inter(p, rest)
            if both:
                new.append((both, idx + (i,)))
                only = cs_minus(p, rest)
                if only:
                    new.append((only, idx))
                rest = cs_minus(rest, p)
            else:
                new.append((p, idx))
        if rest:
            new.append((rest, (i,)))
        parts = new
    return parts


# --------------------------------------------------------------------------------------------
# HIR

class HirTool:
    def __init__(self):
        self.proc = None
        self.cache = {}

    def parse(self, pattern, size=None, nest=None):
        """-> {"hir": .., "caps": n} or {"err": ..}"""
        key = pattern if size is None and nest is None else (pattern, size, nest)
        r = self.cache.get(key)
        if r is None:
            if self.proc is None or self.pid != os.getpid():
                self.pid = os.getpid()   # never share the pipe with a forked worker
                exe = os.path.join(VERIF, ".build/driver/debug/hirdump")
                self.proc = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
            self.proc.stdin.write(json.dumps(key) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            if not line:
                raise RuntimeError("hirdump died on %r" % pattern)
            r = json.loads(line)
            if "hir" in r:
                r["hir"] = freeze(r["hir"])
            self.cache[key] = r
        return r


def freeze(h):
    return tuple(freeze(x) if isinstance(x, list) else x for x in h)


TOOL = HirTool()


def hir(pattern):
    r = TOOL.parse(pattern)
    if "err" in r:
        raise ValueError("regex does not compile: %r: %s" % (pattern, r["err"]))
    return r["hir"]


def kids(h):
    k = h[0]
    if k == "rep":
        return [h[4]]
    if k == "cap":
        return [h[3]]
    if k in ("cat", "alt"):
        return list(h[1])
    return []


def cat(hs):
    """concatenation in normal form: flat, adjacent literals merged"""
    out = []

    def push(h):
        if h[0] == "cat":
            for x in h[1]:
                push(x)
        elif h[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + h[1])
        elif h[0] == "lit" and h[1] == "":
            pass
        else:
            out.append(h)
    for h in hs:
        push(h)
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def norm(h, drop_caps=False):
    k = h[0]
    if k == "cap":
        if drop_caps:
            return norm(h[3], True)
        return ("cap", h[1], None, norm(h[3]))
    if k == "rep":
        return ("rep", h[1], h[2], h[3], norm(h[4], drop_caps))
    if k == "cat":
        return cat([norm(x, drop_caps) for x in h[1]])
    if k == "alt":
        return ("alt", tuple(norm(x, drop_caps) for x in h[1]))
    if k == "class":
        return ("class", cs_norm([tuple(x) for x in h[1]]))
    return h


class CapInfo:
    __slots__ = ("index", "sub", "conds", "parent", "name")

    def __init__(self, index, sub, conds, parent, name):
        self.index = index
        self.sub = sub
        self.conds = conds  # ("alt", alt id, branch) / ("rep", rep id): what has to be taken
        self.parent = parent
        self.name = name


def caps(h):
    """capture groups in index order, with the decisions under which they take part in a match"""
    out = []
    ids = [0]

    def go(h, conds, parent):
        k = h[0]
        if k == "cap":
            out.append(CapInfo(h[1], h[3], conds, parent, h[2]))
            go(h[3], conds, h[1])
        elif k == "alt":
            ids[0] += 1
            me = ids[0]
            for i, x in enumerate(h[1]):
                go(x, conds + (("alt", me, i, len(h[1])),), parent)
        elif k == "rep":
            if h[1] == 0:
                ids[0] += 1
                go(h[4], conds + (("rep", ids[0]),), parent)
            else:
                go(h[4], conds, parent)
        elif k == "cat":
            for x in h[1]:
                go(x, conds, parent)
    go(h, (), 0)
    out.sort(key=lambda c: c.index)
    return out


def has_look(h):
    return h[0] == "look" or any(has_look(k) for k in kids(h))


# what the characters beside a position can be, as far as look-around assertions ask
AW = ((48, 57), (65, 90), (95, 95), (97, 122))


# assertion -> condition on the kinds of the previous and the next character
GUARDS = {
    "start": lambda p, x: p == "start",
    "end": lambda p, x: x == "end",
    "startlf": lambda p, x: p in ("start", "nl"),
    "endlf": lambda p, x: x in ("end", "nl"),
    "startcrlf": lambda p, x: p in ("start", "nl") or (p == "cr" and x != "nl"),
    "endcrlf": lambda p, x: x in ("end", "cr") or (x == "nl" and p != "cr"),
}
for _a, _w in (("a", ("aw",)), ("u", ("aw", "uw"))):
    GUARDS["w" + _a] = lambda p, x, w=_w: (p in w) != (x in w)
    GUARDS["w" + _a + "n"] = lambda p, x, w=_w: (p in w) == (x in w)
    GUARDS["ws" + _a] = lambda p, x, w=_w: p not in w and x in w
    GUARDS["we" + _a] = lambda p, x, w=_w: p in w and x not in w
    GUARDS["wsh" + _a] = lambda p, x, w=_w: p not in w
    GUARDS["weh" + _a] = lambda p, x, w=_w: x not in w


def look_names(h, out):
    if h[0] == "look":
        out.add(h[1])
    for k in kids(h):
        look_names(k, out)
    return out


@lru_cache(maxsize=None)
def look_kinds(names):
    """partition of all characters that the assertions distinguish: ((kind, charset), ..)"""
    out = []
    if any(n.endswith("lf") for n in names):
        out.append(("nl", NL))
    if any(n.endswith("crlf") for n in names):
        out.append(("cr", ((13, 13),)))
    words = [n for n in names if n.startswith("w")]
    if words:
        out.append(("aw", AW))
        if any("u" in n for n in words):
            w = cs_norm([tuple(x) for x in hir("\\w")[1]])
            out.append(("uw", cs_minus(w, AW)))
    used = cs_union(*[c for _, c in out]) if out else ()
    out.append(("other", cs_inter(ANY, cs_neg(used))))
    return tuple(out)


# --------------------------------------------------------------------------------------------
# NFA -> DFA

class Nfa:
    def __init__(self):
        self.eps = []     # list of (guard or None, target)
        self.tr = []      # list of (charset, target)

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, h, a):
        """adds h starting in state a, returns the end state"""
        k = h[0]
        if k == "lit":
            for c in h[1]:
                b = self.new()
                self.tr[a].append((((ord(c), ord(c)),), b))
                a = b
            return a
        if k == "class":
            b = self.new()
            s = cs_norm([tuple(x) for x in h[1]])
            if s:
                self.tr[a].append((s, b))
            return b
        if k == "cat":
            for x in h[1]:
                a = self.build(x, a)
            return a
        if k == "alt":
            b = self.new()
            for x in h[1]:
                s = self.new()
                self.eps[a].append((None, s))
                self.eps[self.build(x, s)].append((None, b))
            return b
        if k == "cap":
            return self.build(h[3], a)
        if k == "rep":
            mn, mx, sub = h[1], h[2], h[4]
            if (mx or 0) > 5000 or mn > 5000:
                raise Unsupported("repetition count")
            for _ in range(mn):
                a = self.build(sub, a)
            if mx is None:
                s = self.new()
                self.eps[a].append((None, s))
                e = self.build(sub, s)
                self.eps[e].append((None, s))
                b = self.new()
                self.eps[s].append((None, b))
                return b
            b = self.new()
            for _ in range(mx - mn):
                self.eps[a].append((None, b))
                s = self.new()
                self.eps[a].append((None, s))
                a = self.build(sub, s)
            self.eps[a].append((None, b))
            return b
        if k == "look":
            if h[1] not in GUARDS:
                raise Unsupported("look-around " + h[1])
            b = self.new()
            self.eps[a].append((h[1], b))
            return b
        raise Unsupported("hir " + str(k))


class Dfa:
    """trans[s] = list of (charset, target), charsets disjoint; missing = dead"""
    __slots__ = ("trans", "acc", "start", "_live")

    def __init__(self, trans, acc, start=0):
        self.trans = trans
        self.acc = acc
        self.start = start
        self._live = None

    def live(self):
        if self._live is None:
            rev = {}
            for s, ts in enumerate(self.trans):
                for _, t in ts:
                    rev.setdefault(t, []).append(s)
            seen = set(i for i, a in enumerate(self.acc) if a)
            todo = list(seen)
            while todo:
                s = todo.pop()
                for p in rev.get(s, ()):
                    if p not in seen:
                        seen.add(p)
                        todo.append(p)
            self._live = seen
        return self._live

    def at(self, start):
        d = Dfa(self.trans, self.acc, start)
        d._live = self._live
        return d

    def step(self, s, c):
        for cs, t in self.trans[s]:
            if cs_has(cs, c):
                return t
        return None

    def derive(self, word):
        s = self.start
        for c in word:
            s = self.step(s, ord(c))
            if s is None:
                return EMPTY
        return self.at(s)

    def contains(self, word):
        s = self.start
        for c in word:
            s = self.step(s, ord(c))
            if s is None:
                return False
        return self.acc[s]

    def is_empty(self):
        return self.start not in self.live()

    def shortest(self):
        """a shortest word, or None"""
        live = self.live()
        if self.start not in live:
            return None
        prev = {self.start: None}
        todo = [self.start]
        while todo:
            nxt = []
            for s in todo:
                if self.acc[s]:
                    w = []
                    while prev[s] is not None:
                        s, cs = prev[s]
                        w.append(cs_rep(cs))
                    return "".join(reversed(w))
                for cs, t in self.trans[s]:
                    if t in live and t not in prev:
                        prev[t] = (s, cs)
                        nxt.append(t)
            todo = nxt
        return None

    def lengths(self):
        """(min, max) length in UTF-8 bytes; max None = unbounded"""
        live = self.live()
        if self.start not in live:
            return (0, 0)
        import heapq

        def w(c):
            return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
        dist = {self.start: 0}
        heap = [(0, self.start)]
        mn = None
        while heap:
            d, s = heapq.heappop(heap)
            if d > dist[s]:
                continue
            if self.acc[s]:
                mn = d
                break
            for cs, t in self.trans[s]:
                if t in live and d + w(cs[0][0]) < dist.get(t, 1 << 60):
                    dist[t] = d + w(cs[0][0])
                    heapq.heappush(heap, (dist[t], t))
        # longest: unbounded iff a live state on a cycle is reachable
        state = {}
        order = []
        stack = [(self.start, iter([t for _, t in self.trans[self.start] if t in live]))]
        state[self.start] = 1
        while stack:
            s, it = stack[-1]
            for t in it:
                if state.get(t) == 1:
                    return (mn, None)
                if t not in state:
                    state[t] = 1
                    stack.append((t, iter([u for _, u in self.trans[t] if u in live])))
                    break
            else:
                state[s] = 2
                order.append(s)
                stack.pop()
        best = {}
        for s in order:
            b = 0 if self.acc[s] else -1
            for cs, t in self.trans[s]:
                if t in live and best.get(t, -1) >= 0:
                    b = max(b, best[t] + w(cs[-1][1]))
            best[s] = b
        return (mn, best[self.start])


EMPTY = Dfa([[]], [False])
EPS = Dfa([[]], [True])
SIGMA = Dfa([[(ANY, 0)]], [True])   # every string


def compile_hir(h, search=False):
    """the DFA of h; with search=True the language of inputs in which h matches somewhere"""
    n = Nfa()
    s0 = n.new()
    if search:
        n.tr[s0].append((ANY, s0))
        s1 = n.new()
        n.eps[s0].append((None, s1))
        e = n.build(h, s1)
        f = n.new()
        n.eps[e].append((None, f))
        n.tr[f].append((ANY, f))
    else:
        f = n.build(h, s0)
    look = has_look(h)
    kinds = look_kinds(frozenset(look_names(h, set()))) if look else (("-", ANY),)

    def closure(states, prev, nxt):
        seen = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for g, t in n.eps[s]:
                if t in seen:
                    continue
                if g is not None and not GUARDS[g](prev, nxt):
                    continue
                seen.add(t)
                todo.append(t)
        return seen

    start = (frozenset([s0]), "start" if look else "-")
    index = {start: 0}
    trans = []
    acc = []
    todo = [start]
    i = 0
    while i < len(todo):
        st, prev = todo[i]
        i += 1
        ts = []
        full = closure(st, prev, "end")
        acc.append(f in full)
        for nxt, cls in kinds:
            cl = closure(st, prev, nxt) if look else full
            edges = {}
            for s in cl:
                for cs, t in n.tr[s]:
                    cs = cs_inter(cs, cls)
                    if cs:
                        edges.setdefault(cs, set()).add(t)
            sets = tuple(sorted(edges))
            for cs, idx in minterms(sets):
                tgt = frozenset().union(*[edges[sets[j]] for j in idx])
                key = (tgt, nxt)
                if key not in index:
                    index[key] = len(todo)
                    todo.append(key)
                    if len(todo) > 60000:
                        raise Unsupported("too many states")
                ts.append((cs, index[key]))
        trans.append(ts)
    return Dfa(trans, acc)


def product(a, b, accept):
    """product automaton; accept(bool, bool) decides acceptance; b's dead state is None.
    Only pairs with a alive on the left are explored (use for intersection and difference)."""
    start = (a.start, b.start)
    index = {start: 0}
    todo = [start]
    trans = []
    acc = []
    i = 0
    while i < len(todo):
        x, y = todo[i]
        i += 1
        acc.append(accept(a.acc[x], y is not None and b.acc[y]))
        ts = []
        for cs, t in a.trans[x]:
            rest = cs
            if y is not None:
                for cs2, u in b.trans[y]:
                    both = cs_inter(rest, cs2)
                    if both:
                        k = (t, u)
                        if k not in index:
                            index[k] = len(todo)
                            todo.append(k)
                        ts.append((both, index[k]))
                        rest = cs_minus(rest, cs2)
                        if not rest:
                            break
            if rest:
                k = (t, None)
                if k not in index:
                    index[k] = len(todo)
                    todo.append(k)
                ts.append((rest, index[k]))
        trans.append(ts)
        if len(todo) > 400000:
            raise Unsupported("product too large")
    return Dfa(trans, acc)


def inter(a, b):
    return product(a, b, lambda x, y: x and y)


def minus(a, b):
    return product(a, b, lambda x, y: x and not y)


def not_in(a, b):
    """a word of a that is not in b, or None if a is a subset of b"""
    return minus(a, b).shortest()


def differ(a, b):
    """(word, 'only in first'/'only in second') or None when the languages are equal"""
    w = not_in(a, b)
    if w is not None:
        return (w, 1)
    w = not_in(b, a)
    if w is not None:
        return (w, 2)
    return None


def word_dfa(w):
    return compile_hir(("lit", w))


def nstates(d):
    return len(d.trans)


BYTES = (((0, 0x7F),), ((0x80, 0x7FF),), ((0x800, 0xD7FF), (0xE000, 0xFFFF)), ((0x10000, MAXCP),))


@lru_cache(maxsize=None)
def bytes_lang(op, b):
    """all strings whose length in bytes compares with b as op says"""
    ok = {"Lt": lambda n: n < b, "Le": lambda n: n <= b, "Gt": lambda n: n > b, "Ge": lambda n: n >= b, "Eq": lambda n: n == b, "Ne": lambda n: n != b}[op]
    top = b + 1
    return Dfa([[(cs, min(n + k + 1, top)) for k, cs in enumerate(BYTES)] for n in range(top + 1)], [ok(n) for n in range(top + 1)])


def prefix_lang(w):
    """all strings starting with w"""
    return compile_hir(("cat", (("lit", w), ("rep", 0, None, True, ("class", ANY)))))


def suffix_lang(w):
    return compile_hir(("cat", (("rep", 0, None, True, ("class", ANY)), ("lit", w))))


def concat(dfas):
    """language concatenation"""
    n = Nfa()
    a = n.new()
    start = a
    for d in dfas:
        base = [n.new() for _ in d.trans]
        for s, ts in enumerate(d.trans):
            for cs, t in ts:
                n.tr[base[s]].append((cs, base[t]))
        n.eps[a].append((None, base[d.start]))
        b = n.new()
        for s, ok in enumerate(d.acc):
            if ok:
                n.eps[base[s]].append((None, b))
        a = b
    return _det(n, start, a)


def _det(n, s0, f):
    def closure(states):
        seen = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for _, t in n.eps[s]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)
    start = closure([s0])
    index = {start: 0}
    todo = [start]
    trans, acc = [], []
    i = 0
    while i < len(todo):
        st = todo[i]
        i += 1
        acc.append(f in st)
        edges = {}
        for s in st:
            for cs, t in n.tr[s]:
                edges.setdefault(cs, set()).add(t)
        sets = tuple(sorted(edges))
        ts = []
        for cs, idx in minterms(sets):
            tgt = closure(frozenset().union(*[edges[sets[j]] for j in idx]))
            if tgt not in index:
                index[tgt] = len(todo)
                todo.append(tgt)
                if len(todo) > 60000:
                    raise Unsupported("too many states")
            ts.append((cs, index[tgt]))
        trans.append(ts)
    return Dfa(trans, acc)


_cache = {}


def lang(h, search=False):
    k = (h, search)
    r = _cache.get(k)
    if r is None:
        r = _cache[k] = compile_hir(h, search)
    return r


def pattern_lang(p, search=False):
    return lang(hir(p), search)


# --------------------------------------------------------------------------------------------
# comparison of whole patterns

def greed(h):
    """set of greediness flags of the repetitions in h whose count is not fixed"""
    out = set()

    def go(h):
        if h[0] == "rep" and h[1] != h[2]:
            out.add(h[3])
        for k in kids(h):
            go(k)
    go(h)
    return out


def compare(actual, expected):
    """None if the two patterns denote the same matcher (same inputs accepted, same capture groups);
    otherwise a description of a difference, with an input on which they differ where there is one."""
    ra = TOOL.parse(actual)
    re_ = TOOL.parse(expected)
    if "err" in re_:
        raise ValueError("expected pattern does not compile: %r: %s" % (expected, re_["err"]))
    if "err" in ra:
        return "the generated pattern %r does not compile: %s" % (actual, ra["err"].strip().splitlines()[-1])
    ha, he = norm(ra["hir"]), norm(re_["hir"])
    if ha == he:
        return None
    d = differ(lang(ha, True), lang(he, True))
    if d:
        w, side = d
        return "input %r is %s by the generated pattern %r but %s by the specified %r" % (
            w, "accepted" if side == 1 else "rejected", actual, "rejected" if side == 1 else "accepted", expected)
    ca, ce = caps(ha), caps(he)
    if len(ca) != len(ce):
        return "%d capture groups generated, %d specified: %r instead of %r" % (len(ca), len(ce), actual, expected)
    for x, y in zip(ca, ce):
        if norm(x.sub, True) == norm(y.sub, True):
            continue
        try:
            d = differ(lang(x.sub), lang(y.sub))
        except Unsupported:
            continue
        if d:
            return "capture group %d %s match %r: %r instead of %r" % (
                x.index, "can" if d[1] == 1 else "cannot", d[0], actual, expected)
        if greed(x.sub) != greed(y.sub):
            return "capture group %d has a different greediness: %r instead of %r" % (x.index, actual, expected)
    try:
        d = placed(ha, he)
    except Unsupported:
        pass
    else:
        if d:
            return "the capture groups are placed differently (%s): %r instead of %r" % (d, actual, expected)
        return None
    # the markers are characters: an assertion that asks for its neighbours would see them
    plain = look_names(ha, set()) | look_names(he, set()) <= {"start", "end"}
    if plain and not look_in_cap(ha, False) and not look_in_cap(he, False):
        try:
            d = differ(lang(mark(ha), True), lang(mark(he), True))
        except Unsupported:
            d = None
        if d:
            return "the capture groups can be placed differently (%s): %r instead of %r" % (
                "".join("(" if 0xF0000 <= ord(c) < 0xF1000 else ")" if ord(c) >= 0xF1000 else c for c in d[0]), actual, expected)
    return None


def look_in_cap(h, inside):
    if h[0] == "look":
        return inside
    return any(look_in_cap(k, inside or h[0] == "cap") for k in kids(h))


def mark(h):
    """capture groups made visible: markers around the text of every group"""
    k = h[0]
    if k == "cap":
        return cat([("lit", chr(0xF0000 + h[1])), mark(h[3]), ("lit", chr(0xF1000 + h[1]))])
    if k == "rep":
        return ("rep", h[1], h[2], h[3], mark(h[4]))
    if k == "cat":
        return cat([mark(x) for x in h[1]])
    if k == "alt":
        return ("alt", tuple(mark(x) for x in h[1]))
    return h


# --------------------------------------------------------------------------------------------
# which of several ways to match is the preferred one

class Prio:
    """a pattern as threads in order of preference; nodes: ("chr", set, next), ("alt", targets), ("mark", marker, next), ("look", name, next), ("match",)"""

    def __init__(self, h):
        self.nodes = []
        self.memo = {}
        self.root = self.build(h, self.add(("match",)))
        self.next_cache = {}

    def add(self, n):
        self.nodes.append(n)
        if len(self.nodes) > 20000:
            raise Unsupported("too many nodes")
        return len(self.nodes) - 1

    def build(self, h, k):
        """the node that matches h and goes on with node k"""
        t = h[0]
        if t == "lit":
            for c in reversed(h[1]):
                k = self.add(("chr", ((ord(c), ord(c)),), k))
            return k
        if t == "class":
            return self.add(("chr", cs_norm([tuple(x) for x in h[1]]), k))
        if t == "cat":
            for x in reversed(h[1]):
                k = self.build(x, k)
            return k
        if t == "alt":
            return self.add(("alt", tuple(self.build(x, k) for x in h[1])))
        if t == "cap":
            k = self.add(("mark", (1, h[1]), k))
            return self.add(("mark", (0, h[1]), self.build(h[3], k)))
        if t == "look":
            if h[1] not in ("start", "end"):
                raise Unsupported("look-around " + h[1])
            return self.add(("look", h[1], k))
        if t == "rep":
            mn, mx, greedy, sub = h[1:5]
            if (mx is None or mx > 1) and has_cap(sub):
                raise Unsupported("a repeated capture group")
            if max(mn, mx or 0) > 2000:
                raise Unsupported("repetition count")
            if mx is None:
                if nullable(sub):
                    raise Unsupported("a repetition of the empty text")
                loop = self.add(None)
                body = self.build(sub, loop)
                self.nodes[loop] = ("alt", (body, k) if greedy else (k, body))
                k = loop
            else:
                out = k
                for _ in range(mx - mn):
                    body = self.build(sub, k)
                    k = self.add(("alt", (body, out) if greedy else (out, body)))
            for _ in range(mn):
                k = self.build(sub, k)
            return k
        raise Unsupported("hir " + str(t))

    def reach(self, n, where):
        """threads reached from n without a character: [(node, markers)] in order of preference; where: "start", "mid" or "end" """
        key = (n, where)
        r = self.next_cache.get(key)
        if r is None:
            r, seen = [], set()
            todo = [(n, ())]
            while todo:
                n, ms = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                x = self.nodes[n]
                if x[0] == "alt":
                    todo.extend((t, ms) for t in reversed(x[1]))
                elif x[0] == "mark":
                    todo.append((x[2], ms + (x[1],)))
                elif x[0] == "look" and (x[1] == where or x[1] == "end" and where == "start"):
                    if x[1] == where:
                        todo.append((x[2], ms))
                    else:
                        r.append((n, frozenset(ms)))
                elif x[0] == "look":
                    if x[1] == "end":
                        r.append((n, frozenset(ms)))
                else:
                    if x[0] == "match" and where != "end":
                        raise Unsupported("a match before the end of the input")
                    r.append((n, frozenset(ms)))
            self.next_cache[key] = r
        return r

    def first(self):
        if self.reach(self.root, "mid"):
            raise Unsupported("not anchored at the start")
        return self.reach(self.root, "start")

    def end(self, threads):
        """the markers at the end of the input of the preferred match: None if the input does not match, (flag, markers)"""
        for n, flag in threads:
            if self.nodes[n][0] == "look":
                for m, ms in self.reach(self.nodes[n][2], "end"):
                    if self.nodes[m][0] == "match":
                        return flag, ms
        return None


def has_cap(h):
    return h[0] == "cap" or any(has_cap(k) for k in kids(h))


def nullable(h):
    k = h[0]
    if k == "lit":
        return h[1] == ""
    if k == "class":
        return False
    if k == "rep":
        return h[1] == 0 or nullable(h[4])
    if k == "cap":
        return nullable(h[3])
    if k == "cat":
        return all(nullable(x) for x in h[1])
    if k == "alt":
        return any(nullable(x) for x in h[1])
    return True


def spread(h):
    """h with a stop sign allowed before every character"""
    k = h[0]
    sign = ("rep", 0, 1, True, ("lit", STOP))
    if k == "lit":
        return ("cat", tuple(x for c in h[1] for x in (sign, ("lit", c))))
    if k == "class":
        return ("cat", (sign, h))
    if k == "cap":
        return ("cap", h[1], h[2], spread(h[3]))
    if k == "rep":
        return ("rep", h[1], h[2], h[3], spread(h[4]))
    if k in ("cat", "alt"):
        return (k, tuple(spread(x) for x in h[1]))
    return h


STOP = chr(0xF5000)


def same_choice(a, b, within):
    """None if the patterns a and b prefer the same one of the ways to match a beginning of a text of characters of `within`, whatever has to
    come after it: compared on texts with stop signs at arbitrary places, one of which has to follow the match"""
    w = cs_union(within, ((ord(STOP), ord(STOP)),))

    def whole(p):
        return cat([("look", "start"), ("cap", 1, None, spread(norm(hir(p), True))), ("lit", STOP), ("rep", 0, None, True, ("class", w)), ("look", "end")])
    d = placed(whole(a), whole(b), limit=3000000, within=w)
    return d and d.replace(STOP, "|")


def within_set(h, w):
    """h with characters outside w taken out of the classes"""
    k = h[0]
    if k == "class":
        return ("class", cs_inter(cs_norm([tuple(x) for x in h[1]]), w))
    if k == "cap":
        return ("cap", h[1], None, within_set(h[3], w))
    if k == "rep":
        return ("rep", h[1], h[2], h[3], within_set(h[4], w))
    if k == "cat":
        return cat([within_set(x, w) for x in h[1]])
    if k == "alt":
        return ("alt", tuple(within_set(x, w) for x in h[1]))
    return h


ASCII = ((0, 127),)


def same_split(actual, expected):
    """None if on every ASCII input both patterns match alike and place their groups alike, else a description"""
    ra = TOOL.parse(actual)
    if "err" in ra:
        return "the generated pattern %r does not compile: %s" % (actual, ra["err"].strip().splitlines()[-1])
    ha, he = within_set(norm(ra["hir"]), ASCII), within_set(norm(hir(expected)), ASCII)
    if ha == he:
        return None
    d = placed(ha, he, limit=1500000, within=ASCII)
    return d and "the input is not divided as documented (%s): %r instead of %r" % (d, actual, expected)


def placed(ha, he, limit=150000, within=ANY):
    """None if on every input the preferred matches of the two patterns place every capture group alike, else an input with the groups of
    one of them. Reads inputs with the groups' ends marked: a state holds the threads of both patterns in order of preference, each with
    whether the marks read so far are its own."""
    A, B = Prio(ha), Prio(he)
    fa, fb = A.first(), B.first()
    start = set(m for _, m in fa) | set(m for _, m in fb)
    seen = {}
    todo = []
    work = 0

    def visit(ta, tb, came):
        if not any(f for _, f in ta) and not any(f for _, f in tb):
            return
        if (ta, tb) not in seen:
            seen[(ta, tb)] = came
            todo.append((ta, tb))
    for m in start:
        visit(tuple((n, x == m) for n, x in fa), tuple((n, x == m) for n, x in fb), (None, "", m))

    def word(st, last):
        out = ["".join(sorted("()"[e] for e, _ in last))]
        while st is not None:
            st, c, m = seen[st]
            out.append(c + "".join(")" * sum(1 for e, _ in m if e) + "(" * sum(1 for e, _ in m if not e)))
        return "".join(reversed(out))
    while todo:
        st = todo.pop()
        ta, tb = st
        work += len(ta) + len(tb)
        if work > limit:
            raise Unsupported("too many states")
        ea, eb = A.end(ta), B.end(tb)
        ea, eb = ea[1] if ea and ea[0] else None, eb[1] if eb and eb[0] else None
        if ea != eb:
            return word(st, ea if ea is not None else eb)
        sets = set()
        for P, ts in ((A, ta), (B, tb)):
            for n, _ in ts:
                if P.nodes[n][0] == "chr":
                    sets.add(P.nodes[n][1])
        sets = tuple(sorted(sets))
        for cs, idx in minterms(sets):
            cs = cs_inter(cs, within)
            if not cs:
                continue
            on = set(sets[j] for j in idx)
            step, cands = [], set()
            for P, ts in ((A, ta), (B, tb)):
                out, have = [], set()
                for n, f in ts:
                    x = P.nodes[n]
                    if x[0] == "chr" and x[1] in on:
                        for m, ms in P.reach(x[2], "mid"):
                            if m not in have:
                                have.add(m)
                                out.append((m, f, ms))
                                if f:
                                    cands.add(ms)
                work += len(out)
                step.append(out)
            c = cs_rep(cs)
            for ms in cands:
                visit(tuple((n, f and x == ms) for n, f, x in step[0]), tuple((n, f and x == ms) for n, f, x in step[1]), (st, c, ms))
    return None

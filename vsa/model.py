"""Identity test for summary terms that are not syntactically identical.

Two terms that denote the same value for every meaning of their symbols are equal
under every interpretation; `Model` is one (seeded, small-domain) interpretation of
the symbols (random interpretation in the sense of Gulwani and Necula).  It is used
to decide whether a remaining difference between a reference term and the term the
analysis computed for the code is real; it works on terms only.
"""
import zlib
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, NONE
from .ev import PURE_METHODS
from .sorts import sort_of

UNIV = ("n1", "n2", "n3")
NODES = ("Source", "Sink") + UNIV


class Undefined(Exception):
    pass


class Fault(Undefined):
    """evaluation fails in the analysed program itself (missing key, empty maximum, ...)"""


class Nothing(Fault):
    """extremum of an empty collection"""


class Removed:
    def __init__(self, v):
        self.v = v


class Lst(tuple):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Lst) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("L", tuple.__hash__(self)))


ALLKEYS = {("attr", "heuristic_points"): ("BestPaths", "BestEdges1", "BestEdges2", "Exact")}


class U:
    """an uninterpreted object"""
    __slots__ = ("key", "shape")

    def __init__(self, key, shape):
        self.key, self.shape = key, shape

    def __eq__(self, o):
        return isinstance(o, U) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "U%r" % (self.key,)


class Mp:
    """map: explicit entries over a base (None, or an uninterpreted object)"""
    __slots__ = ("base", "d", "dead")

    def __init__(self, base=None, d=None, dead=()):
        self.base, self.d, self.dead = base, dict(d or {}), set(dead)

    def frozen(self):
        return ("M", self.base.key if isinstance(self.base, U) else self.base,
                tuple(sorted(((repr(k), repr(fz(v))) for k, v in self.d.items()))), tuple(sorted(map(repr, self.dead))))

    def __eq__(self, o):
        return isinstance(o, Mp) and self.frozen() == o.frozen()

    def __hash__(self):
        return hash(self.frozen())

    def __repr__(self):
        return repr(self.frozen())


def _isnone(t):
    return t.op == "none"


class Gr:
    """graph value: identity key + structure"""
    __slots__ = ("key", "nodes", "edges", "over")

    def __init__(self, key, nodes, edges, over=None):
        self.key, self.nodes, self.edges, self.over = key, tuple(nodes), tuple(edges), over or {}

    def frozen(self):
        return ("G", self.key, tuple(sorted(map(repr, self.nodes))), tuple(sorted(map(repr, self.edges))),
                tuple(sorted((k, repr(fz(v))) for k, v in self.over.items())))

    def __eq__(self, o):
        return isinstance(o, Gr) and self.frozen() == o.frozen()

    def __hash__(self):
        return hash(self.frozen())

    def __repr__(self):
        return repr(self.frozen())


def fz(v):
    """hashable normal form"""
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else v
    if isinstance(v, Lst):
        return ("L",) + tuple(fz(x) for x in v)
    if isinstance(v, tuple):
        return tuple(fz(x) for x in v)
    if isinstance(v, (Mp, Gr)):
        return v.frozen()
    if isinstance(v, U):
        return ("U", v.key)
    return v


# ---------------------------------------------------------------------- shapes
def shape(t, doms=None):
    o, a = t.op, t.args
    if o == "attr":
        return ("attr", a[1])
    if o == "sym":
        return ("attr", a[0])
    if o == "item":
        if a[0].op == "ret" or a[0].op in ("mcall", "again", "call"):
            return ("item", shape(a[0], doms), a[1].args[0] if a[1].op == "num" else None)
        return ("val" if not _intlike(a[1], doms) else "el", shape(a[0], doms))
    if o in ("var", "bv"):
        d = doms.get(t) if doms else None
        return ("el", domshape(d, doms)) if d is not None else ("var",)
    if o == "prj":
        if a[0].op == "wat" or a[0].op == "wrec":
            w = a[0].args[1] if a[0].op == "wat" else a[0]
            i = w.args[0]
            if i.op == "tuple" and isinstance(a[1], int) and a[1] < len(i.args):
                return shape(i.args[a[1]], doms)
        if a[0].op in ("var", "bv"):
            d = doms.get(a[0]) if doms else None
            if d is not None and d.op in ("edges", "consec"):
                return ("node",)
            return ("prj", a[1], shape(a[0], doms))
        return ("prj", a[1], shape(a[0], doms))
    if o in ("na0", "ea0"):
        return (o, a[-1])
    if o == "na":
        return ("na", a[-1])
    if o == "ea":
        return ("ea", a[-1])
    if o == "ga":
        return ("ga", a[1])
    if o == "ret":
        return ("ret", a[0].args[0])
    if o == "post":
        k = a[1].split(":")
        return ("attr", k[2]) if k[0] == "a" else ("post", a[1])
    if o == "call":
        return ("call", a[0].args[0] if a[0].op == "ext" else "?")
    if o in ("mcall", "again"):
        if o == "again":
            return shape(a[0], doms)
        return ("mcall", a[1])
    if o == "GV":
        return shape(a[0][0], doms)
    if o == "prev":
        return shape(a[2], doms)
    if o == "last":
        return shape(a[0], doms)
    return (o,)


def _intlike(k, doms):
    if k.op == "num" or k.op == "poly":
        return True
    if k.op in ("var", "bv") and doms:
        d = doms.get(k)
        return d is not None and d.op in ("range", "range3")
    return False


def domshape(d, doms):
    while d.op == "until":
        d = d.args[0]
    if d.op == "elems":
        return shape(d.args[0], doms)
    return (d.op,)


class Types:
    """how each kind of symbol is used in the terms at hand"""

    def __init__(self, q=""):
        self.q = q
        self.k = {}
        self.pool = {}
        self.nums = {}
        self.eps = {}
        self.keys = {}
        self.longs = set()      # lengths that cuts and comparisons of lengths tell apart
        self.seen = set()

    def use(self, t, kind, doms, const=None):
        if t.op == "GV":
            for l, _ in t.args:
                self.use(l, kind, doms, const)
            return
        s = shape(t, doms)
        self.k.setdefault(s, set()).add(kind)
        if const is not None:
            self.pool.setdefault(s, set()).add(const)

    def add(self, t, doms=None):
        self.walk(t, doms or {})

    def walk(self, t, doms):
        st = [(t, doms)]
        while st:
            t, doms = st.pop()
            if not isinstance(t, T.T):
                if isinstance(t, tuple):
                    for x in t:
                        st.append((x, doms))
                continue
            fv = tuple((v, doms.get(v)) for v in t.fv) if t.fv else ()
            key = (t, fv)
            if key in self.seen:
                continue
            self.seen.add(key)
            o, a = t.op, t.args
            if o == "poly":
                for m, c in a:
                    for f in m:
                        self.use(f, "num", doms)
            elif o in ("le0", "lt0", "eq0", "inv", "abs", "round", "int"):
                self.use(a[0], "num", doms)
                if a[0].op == "poly" and o[-1] == "0":
                    self.bounds(a[0], doms)
            elif o in ("max", "min", "mod", "pow", "floordiv"):
                for x in a:
                    self.use(x, "num", doms)
            elif o in ("maxof", "minof"):
                self.use(a[0], "coll", doms)
                sh = shape(a[0], doms)
                self.k.setdefault(("el", sh), set()).add("num")
            elif o == "eq":
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if x.op == "str":
                        self.use(y, "str", doms, x.args[0])
                    elif x.op == "num":
                        self.use(y, "num", doms)
                    else:
                        self.use(x, "any", doms)
            elif o == "eqc":
                self.use(a[0], "bool", doms)
            elif o == "truth":
                self.use(a[0], "truth", doms)
            elif o == "isnone":
                self.use(a[0], "opt", doms)
            elif o == "isinstance":
                self.use(a[0], "inst:" + (a[1].args[0] if a[1].op == "str" else "?"), doms)
            elif o == "item" or o == "sel":
                self.use(a[0], "seq" if _intlike(a[1], doms) else "map", doms)
            elif o in ("elems", "len", "consec", "slice", "sorted", "argbest", "reversed"):
                self.use(a[0], "coll", doms)
                if o == "slice":
                    for x in a[1:3]:
                        self.length(x)
            elif o == "in":
                self.use(a[1], "coll", doms)
                if a[0].op == "str":
                    for l, _ in T.leaves(a[1]):
                        self.keys.setdefault(shape(l, doms), set()).add(a[0].args[0])
            elif o == "splice":
                self.use(a[1], "coll", doms)
            elif o == "concat":
                for x in a:
                    self.use(x, "coll", doms)
            elif o == "attr":
                self.use(a[0], "obj", doms)
            elif o in ("nodes", "edges", "succ", "pred", "na0", "ea0", "ga0", "na", "ea", "ga", "g0", "gcopy", "gtod"):
                self.use(a[0], "graph", doms)
            elif o == "range":
                for x in a:
                    self.use(x, "num", doms)
            elif o == "sum":
                self.sumseg(a[0], doms)
            elif o == "con":
                self.use(a[1], "num", doms)
            elif o == "map":
                self.use(a[0], "map", doms)
            if o == "q":
                d, lam = a
                v = T.fresh()
                nd = dict(doms)
                nd[v] = d
                st.append((d, doms))
                st.append((T.open_lam(lam, v), nd))
                continue
            if o in ("until", "last", "prev"):
                d, lam = (a[0], a[1]) if o == "until" else ((a[1], a[2]) if o == "last" else (a[1], a[3]))
                v = T.fresh()
                nd = dict(doms)
                nd[v] = d
                for x in a:
                    if x is not lam:
                        st.append((x, doms))
                st.append((T.open_lam(lam, v), nd))
                continue
            if o in ("rec", "recat"):
                d, init, lam = a if o == "rec" else a[1:]
                v, w = T.fresh(), T.fresh()
                nd = dict(doms)
                nd[v] = d
                st.append((d, doms))
                st.append((init, doms))
                b = T.open_lam(lam, v)
                if b.op == "lam":
                    b = T.open_lam(b, w)
                st.append((b, nd))
                continue
            if o == "lam":
                st.append((T.open_lam(t, T.fresh()), doms))
                continue
            for x in a:
                st.append((x, doms))

    def length(self, x):
        if isinstance(x, T.T) and x.op == "num" and 2 < abs(x.args[0]) <= 60:
            self.longs.add(int(abs(x.args[0])))

    def bounds(self, p, doms):
        """constants a symbol is compared with"""
        c0 = sum(c for m, c in p.args if not m)
        lin = [(m[0], c) for m, c in p.args if len(m) == 1]
        if len(lin) == 1 and len(p.args) <= 2 and lin[0][0].op in ("sum", "len") and 2 < abs(Fraction(c0) / lin[0][1]) <= 60:
            self.longs.add(int(abs(Fraction(c0) / lin[0][1])))
        if len(lin) == 1 and len(p.args) <= 2 and lin[0][0].op not in ("sum", "len"):
            v = Fraction(-c0) / lin[0][1]
            for l, _ in T.leaves(lin[0][0]):
                self.nums.setdefault(shape(l, doms), set()).add(v)

        elif len(lin) > 1 and len(lin) == len(p.args) - 1 and 0 < abs(c0) <= Fraction(1, 100):
            # a tolerance in the comparison of two values
            for x, c in lin:
                for l, _ in T.leaves(x):
                    self.eps.setdefault(shape(l, doms), abs(Fraction(c0)))

    def sumseg(self, s, doms):
        if s.op == "leaf" and len(s.args) > 1:
            self.use(s.args[1], "num", doms)
        elif s.op == "q":
            v = T.fresh()
            nd = dict(doms)
            nd[v] = s.args[0]
            self.sumseg(T.open_lam(s.args[1], v), nd)
        elif s.op == "gseg":
            self.sumseg(s.args[1], doms)


LIMITS = {("attr", "duration"), ("el", ("attr", "load_capacity")), ("attr", "load_capacity"), ("attr", "_max_capacity")}
SMALL = (0, 1, 1, 2, 2, 3, 4, 5)
LPF = {"y", "x", "dummy", "dummy_bound", "makespan", "load_max", "load_min", "t", "f"}


HP = {}
LPSTATUS = {0: "Not Solved", 1: "Optimal", -1: "Infeasible", -2: "Unbounded", -3: "Undefined"}
STRM = ("startswith", "endswith", "lower", "upper", "strip", "replace")
PUREM = PURE_METHODS | {"valid"}


def loopenv(env, d, i):
    while d.op == "until":
        d = d.args[0]
    e = dict(env)
    if d.op == "wdom":
        e["it"] = env.get("it", ()) + (i,)
    return e


NIL = object()


class Model:
    MAXIT = 24

    def __init__(self, seed, types, state=(), lpfields=LPF):
        self.seed, self.ty, self.state = seed, types, state
        self.memo = {}
        self.cm = {}
        self.reads, self.coding = set(), False
        self.salt = 0
        self.forced = {}
        self.lpf = lpfields
        self.work = 0

    def h(self, *key):
        return zlib.crc32(repr((self.seed,) + key).encode()) * 2654435761 % (1 << 32)

    # ------------------------------------------------------------ symbols
    def conc(self, sh, key):
        """a concrete value for the symbol instance `key` of kind `sh`"""
        key = fz(key)
        ck = (sh, key)
        if ck in self.cm:
            return self.cm[ck]
        v = self.conc_(sh, key)
        self.cm[ck] = v
        return v

    def conc_(self, sh, key):
        ks = self.ty.k.get(sh, set())
        hv = self.h("t", sh, key)
        if sh == ("attr", "self"):
            return U(("self",), sh)
        so = self.sort(sh)
        if so is not None:
            return self.draw(so, sh, key)
        if sh[0] == "attr" and sh[1] in ("G", "sub_G", "_H", "_input_graph", "route") or "graph" in ks:
            return self.graph(key)
        if sh == ("node",):
            return NODES[hv % 5]
        if sh[0] == "el" and sh[1][0] in ("nodes", "succ", "pred"):
            return NODES[hv % 5]
        if "opt" in ks or ("truth" in ks and ks & {"num", "coll", "seq", "map", "obj"}):
            if hv % 4 == 0:
                return None
        hv = self.h("u", sh, key)
        inst = [k for k in ks if k.startswith("inst:")]
        if inst:
            k = inst[hv % len(inst)][5:]
            if hv % 3:
                if k == "list":
                    return self.seq(sh, key)
                if k == "str":
                    return self.strv(sh, hv)
                if k == "dict":
                    return U(key, sh)
                if k in ("int", "float"):
                    return SMALL[(hv >> 8) % 8]
            elif k == "list":
                return SMALL[(hv >> 8) % 8]
        if "map" in ks:
            return U(key, sh)
        if ks & {"seq", "coll"}:
            if "num" in ks and hv % 2:
                return SMALL[hv % 8]
            return self.seq(sh, key)
        if "str" in ks:
            return self.strv(sh, hv)
        if "num" in ks:
            nums = self.ty.nums.get(sh)
            if nums and self.h("p", sh, key) % 2:
                c = sorted(nums)[(hv >> 8) % len(nums)]
                if c.denominator != 1:
                    return c + Fraction(((hv >> 16) % 3) - 1, c.denominator)
                return int(c) + ((hv >> 16) % 3) - 1
            e = self.ty.eps.get(sh)
            if e and (hv >> 16) % 4 == 0:
                return SMALL[(hv >> 8) % 8] + e / 2
            if self.seed // 8 % 4 in (1, 2) and sh[0] in ("na", "na0") and getattr(sh[1], "op", "") == "str":
                # windows that leave room, some of them open late
                if sh[1].args[0] == "upper":
                    return 10 + (hv >> 8) % 20
                if sh[1].args[0] == "lower" and hv % 2:
                    return (hv >> 8) % 12
            return SMALL[(hv >> 8) % 8]
        if "bool" in ks or "truth" in ks and "obj" not in ks:
            f = self.forced.get(sh)
            if f is not None and f[0] in "TF" and hv % 8:
                return f[0] == "T"
            return bool(hv >> 5 & 1)
        if "any" in ks:
            return NODES[(hv >> 5) % 5]
        return U(key, sh)

    def sort(self, sh):
        return sort_of(sh, self.ty.q)

    def aim(self, goals):
        """half of the interpretations make for one case of the terms at hand: a way through its condition is chosen
        and the switches on it are set"""
        if self.seed % 2 or not goals:
            return
        g = goals[self.h("goal") % len(goals)]
        n = 0
        while g.op == "B":
            n += 1
            val = self.h("way", n) % 2 == 0
            if g.args[1 if val else 2].op == "FALSE":
                val = not val
            a = g.args[0]
            if a.op in ("truth", "isnone") and a.args[0].op != "GV":
                sh = shape(a.args[0], None)
                if a.op == "truth":
                    self.forced[sh] = ("T" if val else "F", None)
                elif sh not in self.forced:
                    self.forced[sh] = ("N" if val else "S", None)
            elif a.op == "eq" and val:
                for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                    if x.op == "str" and y.op != "GV":
                        self.forced[shape(y, None)] = ("V", x.args[0])
            g = g.args[1 if val else 2]

    def force(self, f, so, sh, key):
        k = so[0]
        if k == "bool":
            return f[0] == "T" if f[0] in "TF" else None
        if k == "pick" and f[0] == "V" and f[1] in so[1]:
            return f[1]
        if k in ("opt", "opt8"):
            if f[0] == "N" or f[0] == "F" and self.h("ff", sh) % 4:
                return NIL
            if f[0] == "S":
                return self.draw(so[1], sh, key, 9)
        if f[0] == "T" and k in ("opt", "opt8", "num", "nat", "list", "alt"):
            for d in range(6):
                v = self.draw(so, sh, key, 10 + d)
                if v is not None and v != 0 and not (isinstance(v, Lst) and not v):
                    return v
        return None

    def draw(self, so, sh, key, dep=0):
        """a value of a declared sort; the seed also fixes how often switches are on"""
        if dep == 0 and self.forced:
            f = self.forced.get(sh)
            if f is not None and self.h("fo", sh, key) % 8:
                v = self.force(f, so, sh, key)
                if v is not None:
                    return None if v is NIL else v
        k = so[0]
        h = self.h("s", dep, sh, key)
        reg = (self.seed % 4 if sh[0] == "attr" else self.seed // 4 % 4)
        if k == "opt":
            return None if h % 8 < (6, 2, 2, 0)[reg] else self.draw(so[1], sh, key, dep + 1)
        if k == "opt8":
            return None if h % 8 == 0 else self.draw(so[1], sh, key, dep + 1)
        if k == "alt":
            return self.draw(so[1 + h % 2], sh, key, dep + 1)
        if k == "bool":
            return (h >> 5) % 8 < (1, 4, 4, 7)[reg]
        if k == "obj":
            return U(key, sh)
        h = self.h("d", sh, key)
        if k == "dual":
            return (NODES + ("upper_bound_vehicles",))[h % 6]
        if k == "node":
            return NODES[h % 5]
        if k == "frac" and h % 8 == 7:
            return (Fraction(1, 2), Fraction(5, 2), Fraction(-3, 2), Fraction(7, 4))[(h >> 4) % 4]
        if k in ("num", "frac"):
            nums = self.ty.nums.get(sh)
            if nums and (h % 4 == 0 or self.seed // 32 % 4 == 3):
                c = sorted(nums)[(h >> 8) % len(nums)]
                return c + Fraction(((h >> 16) % 3) - 1, c.denominator) if c.denominator != 1 else int(c) + ((h >> 16) % 3) - 1
            e = self.ty.eps.get(sh)
            if e and (h >> 8) % 2:
                return (0, 1, 2, 3)[(h >> 4) % 4] + e / 2
            if self.seed // 8 % 4 == 1 and sh in LIMITS:
                return 20 + (h >> 4) % 20      # a limit that does not bind
            if self.seed // 8 % 4 == 2 and sh in LIMITS:
                return 4 + (h >> 4) % 14       # a limit that may bind
            return (-2, -1, 0, 1, 1, 2, 3, 4, 5, 7)[(h >> 4) % 10]
        if k == "rname" and self.ty.longs and self.seed // 2 % 4 == 0:
            return (h >> 4) % 60
        if k in ("nat", "rname"):
            nums = self.ty.nums.get(sh)
            if nums and (h % 4 == 0 or self.seed // 32 % 4 == 3):
                return max(0, int(sorted(nums)[(h >> 8) % len(nums)]) + ((h >> 16) % 3) - 1)
            return (0, 0, 1, 1, 2, 2, 3, 4)[(h >> 4) % 8]
        if k == "near":
            return (0, 1, 1, 2, Fraction(1, 2), Fraction(3, 10), Fraction(9, 10), Fraction(95, 100), 0, Fraction(7, 4), -1,
                    Fraction(-1, 2000), Fraction(-1, 2))[(h >> 4) % 13]
        if k == "pick":
            pool = so[1]
            extra = sorted(self.ty.pool.get(sh, set()) | self.ty.keys.get(sh, set()))
            if extra and isinstance(pool[0], str):
                pool = tuple(sorted(set(pool) | set(extra)))
            return pool[(h >> 4) % len(pool)]
        if k == "graph":
            return self.graph(key)
        if k == "customers":
            return Lst(n for n in UNIV if self.h("cu", key, n) % 8)
        if k == "rgraph":
            p = self.path(key)
            if len(key) == 3 and key[0] == "item" and key[2] in UNIV and key[2] not in p and h % 8:
                p.insert(1 + (h >> 4) % (len(p) - 1), key[2])
            return Gr(("graph", key), p, list(zip(p, p[1:])))
        if k in ("path", "walk", "half"):
            n = self.size(0, h)
            if n:
                # more stops than the universe has nodes: names of further customers
                p = ["Source"] + ["c%d" % i for i in range(n)] + ["Sink"]
                return Lst(p[:-1] if k == "half" and h % 8 < 3 else p[1:] if k == "half" and h % 8 < 6 else p)
        if k == "path":
            return Lst(self.path(key))
        if k == "walk":
            p = self.path(key)
            for _ in range((0, 0, 0, 1, 1, 1, 2, 2)[(h >> 4) % 8]):
                if len(p) > 2:
                    p.insert(len(p) - 1, p[1 + (h >> 8) % (len(p) - 2)])
            return Lst(p)
        if k == "half":
            p = self.path(key)
            return Lst(p[:-1] if h % 8 < 3 else p[1:] if h % 8 < 6 else p)
        if k == "part":
            p = self.path(key)
            if h >> 4 & 1:
                p = p[h >> 5 & 1:][:len(p) - (h >> 6 & 1)]
            return Lst(p)
        if k == "list":
            if sh in self.ty.keys:
                return self.seq(sh, key)
            n = self.size(max(so[2], (0, 1, 2, 2, 3, 3, 4, 5)[(h >> 4) % 8]), h)
            return Lst(self.draw(so[1], ("el", sh), (key, "el", i)) for i in range(n))
        if k == "map":
            return U(key, sh)
        raise Undefined("sort")

    def size(self, n, h):
        """now and then a list long enough for the lengths the terms tell apart"""
        lo = self.ty.longs
        if lo and self.seed // 2 % 4 == 0 and (h >> 12) % 2:
            return max(1, sorted(lo)[(h >> 16) % len(lo)] + (h >> 20) % 4 - 1)
        return n

    def path(self, key):
        c = sorted(UNIV, key=lambda n: self.h("pp", key, n))[:(0, 1, 1, 2, 2, 2, 3, 3)[self.h("pl", key) % 8]]
        return ["Source"] + c + ["Sink"]

    def strv(self, sh, hv):
        pool = sorted(self.ty.pool.get(sh, ()))
        if any(p in ("Source", "Sink") for p in pool):
            pool = sorted(set(pool) | set(NODES))
        pool = pool + ["other"]
        return pool[(hv >> 3) % len(pool)]

    def seq(self, sh, key):
        if sh in ALLKEYS:
            return Lst(sorted(ALLKEYS[sh], key=lambda x: self.h("ko", key, x)))
        h = self.h("n", sh, key)
        n = self.size((0, 1, 2, 2, 3, 3, 4, 5)[h % 8], h)
        el = ("el", sh)
        ck = self.ty.keys.get(sh)
        if ck:
            pool = sorted(ck)
            pool = pool * 2 + list(NODES)
            out = []
            for i in range(n):
                x = pool[self.h("e", sh, key, i) % len(pool)]
                if x not in out:
                    out.append(x)
            return Lst(out)
        so = self.sort(el)
        if so is not None:
            if n > 6 and so[0] == "nat":
                return Lst(range(n))
            out = []
            for i in range(n):
                x = self.draw(so, el, (key, "el", i))
                if x not in out or self.sort(sh)[0] != "map":
                    out.append(x)
            return Lst(out)
        if not self.ty.k.get(el):
            # elements with no recorded use: nodes, so that membership tests are meaningful
            if sh in (("attr", "load_capacity"), ("attr", "num_vehicles"), ("attr", "fixed_cost")):
                return Lst(SMALL[self.h("e", sh, key, i) % 8] for i in range(n))
            return Lst(NODES[self.h("e", sh, key, i) % 5] for i in range(n))
        return Lst(self.conc(el, (key, "el", i)) for i in range(n))

    def graph(self, key):
        few = self.h("few", key) % 8
        nodes = ["Source"] + [n for n in UNIV if self.h("node", key, n) % 4 and (few > 1 or few and n == "n1")] + ["Sink"]
        if not self.h("ord", key) % 3:
            nodes = nodes[1:] + nodes[:1]
        if self.ty.q == "check_vrp" and self.h("wild", key) % 2:
            nodes = [n for n in nodes if n not in ("Source", "Sink") or self.h("has", key, n) % 6]
            edges = [(a, b) for a in nodes for b in nodes if a != b and self.h("edge", key, a, b) % 5 < (
                1 if b == "Source" or a == "Sink" else 3)]
            return Gr(("graph", key), nodes, edges)
        edges = [(a, b) for a in nodes for b in nodes if a != b and b != "Source" and a != "Sink" and self.h("edge", key, a, b) % 5 < 3]
        return Gr(("graph", key), nodes, edges)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, U):
            return self.lpnum(v.key)
        if isinstance(v, tuple) and v and v[0] == "lpvar":
            return self.lpnum(("lpvar", fz(v[1])))
        if v is None or isinstance(v, Lst):
            raise Fault("number %r" % (v,))
        raise Undefined("number %r" % (v,))

    def lpnum(self, key):
        return self.h("lp", self.salt, key) % 1999 - 997

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        it = env.get("it") if self.stateful(t) else None
        if not t.fv:
            k = (t, self.salt, it)
        else:
            k = (t, self.salt, it, tuple((v, fz(env.get(v)), env.get(("pos", v))) for v in sorted(t.fv, key=lambda x: x.id)))
        r = self.memo.get(k, self)
        if r is not self:
            if isinstance(r, Undefined):
                raise r
            return r
        self.work += 1
        if self.work > 40000:
            raise Undefined("work")
        try:
            r = self.ev_(t, env)
            if isinstance(r, Fraction) and r.denominator == 1:
                r = int(r)
        except Undefined as ex:
            self.memo[k] = ex
            raise
        self.memo[k] = r
        return r

    def stateful(self, t):
        """does the value depend on the iteration of an enclosing while loop?"""
        r = HP.get(t)
        if r is None:
            r = False
            for x in T.subterms(t):
                o = x.op
                if o in ("post", "after", "mcall", "again") or o == "ret":
                    r = True
                    break
            HP[t] = r
        return r

    def ev_(self, t, env):
        o, a = t.op, t.args
        if o == "num":
            return a[0]
        if o == "str":
            return a[0]
        if o == "none":
            return None
        if o == "TRUE":
            return True
        if o == "FALSE":
            return False
        if o in ("var", "bv"):
            if t not in env:
                raise Undefined("free variable")
            return env[t]
        if o == "B":
            try:
                c = self.atom(a[0], env)
            except Fault:
                # conditions are ordered by name, not as written: the failing one does not count if it is not needed
                x, y = self.ev(a[1], env), self.ev(a[2], env)
                if isinstance(x, bool) and x is y:
                    return x
                raise
            return self.ev(a[1] if c else a[2], env)
        if o == "GV":
            for i, (l, g) in enumerate(a):
                if self.ev(g, env):
                    self.case(t, i)
                    return self.ev(l, env)
            raise Undefined("no case")
        if o == "poly":
            s = Fraction(0)
            for m, c in a:
                p = Fraction(c)
                for f in sorted(m, key=_isnone) if any(map(_isnone, m)) else m:
                    if p == 0 and _isnone(f):
                        break
                    p *= self.num(self.ev(f, env))
                s += p
            return s
        m = getattr(self, "o_" + o, None)
        if m is not None:
            return m(t, a, env)
        if o == "opaque":
            raise Undefined("opaque")
        if o == "fault":
            raise Fault("unbound name")
        return self.generic(t, a, env)

    def generic(self, t, a, env):
        key = (t.op,) + tuple(self.arg(x, env) for x in a)
        if t.op in ("lpvar", "lpadd", "set", "hset", "new", "exc", "obj", "con", "gop", "lpcopy", "after", "ext", "cls",
                    "fnref", "closure", "me", "cyc", "lp0", "ucall", "view", "bound", "lamterm"):
            return key
        return self.conc(shape(t, None), key)

    def arg(self, x, env):
        if isinstance(x, T.T):
            if x.op == "lam":
                return self.lamkey(x, env)
            return fz(self.ev(x, env))
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def lamkey(self, lam, env):
        """a function is represented by its values on the universe"""
        h, b = lam.args
        out = []
        for v in NODES:
            e = dict(env)
            e[T.mk("bv", h)] = v
            e[("pos", T.mk("bv", h))] = None
            try:
                out.append(fz(self.ev(b, e)))
            except Undefined:
                out.append("?")
        return tuple(out)

    def case(self, t, i):
        pass

    def atom(self, t, env):
        o, a = t.op, t.args
        if o == "le0":
            return self.num(self.ev(a[0], env)) <= 0
        if o == "lt0":
            return self.num(self.ev(a[0], env)) < 0
        if o == "eq0":
            try:
                return self.num(self.ev(a[0], env)) == 0
            except Fault:
                # x == y where one of them is no number
                p = a[0]
                if p.op != "poly":
                    return self.ev(p, env) == 0
                if len(p.args) == 2 and all(len(m) <= 1 for m, _ in p.args) and (
                        sum(c for _, c in p.args) == 0 or not p.args[0][0] or not p.args[1][0]):
                    v = [self.ev(m[0], env) if m else -c for m, c in p.args]
                    return fz(v[0]) == fz(v[1])
                raise Undefined("equation")
        if o in ("eq", "eqc"):
            return self.equal(self.ev(a[0], env), self.ev(a[1], env))
        if o == "truth":
            return self.truth(self.ev(a[0], env))
        if o == "isnone":
            return self.ev(a[0], env) is None
        if o == "in":
            return self.member(a, env)
        if o == "any":
            return self.anyseg(a[0], env)
        if o == "nonempty":
            return len(self.dom(a[0], env)) > 0
        if o == "isinstance":
            v = self.ev(a[0], env)
            k = a[1].args[0] if a[1].op == "str" else repr(a[1])
            if k == "list":
                return isinstance(v, Lst)
            if k == "str":
                return isinstance(v, str)
            if k == "dict":
                return isinstance(v, Mp) or isinstance(v, U)
            if k in ("int", "float"):
                if isinstance(v, bool) or not isinstance(v, (int, Fraction)):
                    return False
                return (isinstance(v, int) and self.h("isint", v) % 3 > 0) == (k == "int")
            if k == "tuple":
                return isinstance(v, tuple) and not isinstance(v, Lst)
            if not isinstance(v, (U, Gr, Mp)):
                return False
            return bool(self.h("isinst", k, fz(v)) & 1)
        if o == "exc":
            return self.h("exc", repr(a)) % 4 == 0
        if o == "hasedge":
            d = self.dom(a[0], env)
            return (self.ev(a[1], env), self.ev(a[2], env)) in [tuple(x) for x in d]
        if o == "inq":
            k = fz(self.ev(a[0], env))
            out = []
            self.seg(a[1], env, out, None)
            return any(fz(x[0]) == k for x in out)
        return self.truth(self.ev(t, env))

    def equal(self, x, y):
        return fz(x) == fz(y) and isinstance(x, bool) == isinstance(y, bool) or (
            isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and x == y)

    def truth(self, v):
        if v is None or isinstance(v, bool):
            return bool(v)
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, (str, Lst)):
            return len(v) > 0
        if isinstance(v, Mp):
            if v.base is not None:
                return bool(v.d) or bool(self.h("truth", fz(v.base)) & 1)
            return bool(v.d)
        if isinstance(v, tuple):
            return True
        if isinstance(v, Gr):
            return len(v.nodes) > 0
        if isinstance(v, U):
            ks = self.ty.k.get(v.shape, set())
            if "map" in ks or (self.sort(v.shape) or "?")[0] == "map":
                return len(self.keys(v)) > 0
            if "obj" in ks:
                return True
            return bool(self.h("truth", v.key) & 1)
        return True

    def keys(self, v):
        """iteration over an uninterpreted map"""
        if isinstance(v, U):
            return self.seq(v.shape, v.key)
        if isinstance(v, Mp):
            ks = list(v.d)
            if v.base is not None:
                for k in self.keys(v.base):
                    if k not in v.dead and k not in v.d:
                        ks.insert(0, k)
            return Lst(ks)
        raise Undefined("keys")

    def member(self, a, env):
        c = a[1]
        k = self.ev(a[0], env)
        if c.op in ("nodes", "edges", "range", "succ", "pred", "elems", "consec", "until", "qdom"):
            return fz(k) in [fz(x) for x in self.dom(c, env)]
        return self.memberv(k, self.ev(c, env))

    def memberv(self, k, v):
        if isinstance(v, (Lst, tuple)):
            return any(self.equal(k, x) for x in v)
        if isinstance(v, str):
            if isinstance(k, str):
                return k in v
            raise Undefined("in")
        if isinstance(v, Mp):
            if any(self.equal(k, x) for x in v.d):
                return True
            if k in v.dead or v.base is None:
                return False
            return self.memberv(k, v.base)
        if isinstance(v, U):
            ks = self.ty.k.get(v.shape, set())
            if v.shape[0] in ("na", "ea", "ga") or self.sort(v.shape) is None and not (ks & {"coll", "map", "seq"}):
                return (v.key, fz(k)) in self.reads or self.h("in", v.key, fz(k)) % 3 > 0
            # what the reference reads is there
            return (v.key, fz(k)) in self.reads or any(self.equal(k, x) for x in self.keys(v))
        if isinstance(v, Gr):
            return k in v.nodes
        raise Undefined("in")

    # ------------------------------------------------------------ domains
    def dom(self, d, env):
        o, a = d.op, d.args
        if o == "elems":
            return list(self.elems(self.ev(a[0], env)))
        if o in ("nodes", "edges", "succ", "pred"):
            g = self.gr(a[0], env)
            st = a[1:] if o in ("nodes", "edges") else a[2:]
            if st:
                g = self.restruct(g, st[0], env)
            if o == "nodes":
                return list(g.nodes)
            if o == "edges":
                return list(g.edges)
            v = self.ev(a[1], env)
            if o == "succ":
                return [y for x, y in g.edges if x == v]
            return [x for x, y in g.edges if y == v]
        if o == "range":
            lo, hi = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
            if hi - lo > 40:
                raise Undefined("range")
            return list(range(int(lo), int(hi)))
        if o == "range3":
            lo, hi, st = [int(self.num(self.ev(x, env))) for x in a[:3]]
            if st == 0 or abs(hi - lo) > 60:
                raise Undefined("range")
            return list(range(lo, hi, st))
        if o == "consec":
            l = list(self.elems(self.ev(a[0], env)))
            return list(zip(l, l[1:]))
        if o == "ziprow":
            ls = [list(self.elems(self.ev(x, env))) for x in a]
            return list(zip(*ls))
        if o == "until":
            out = []
            h, b = a[1].args
            bv = T.mk("bv", h)
            for i, x in enumerate(self.dom(a[0], env)):
                out.append(x)
                e = loopenv(env, a[0], i)
                e[bv], e[("pos", bv)] = x, i
                if self.ev(b.args[0], e):
                    break
            return out
        if o == "wdom":
            return list(range(len(self.wstates(a[0], env)) - 1))
        if o == "qdom":
            out = []
            self.seg(a[0], env, out, None)
            return [x[0] for x in out]
        if o == "GV":
            for i, (l, g) in enumerate(a):
                if self.ev(g, env):
                    self.case(d, i)
                    return self.dom(l, env)
            raise Undefined("no case")
        raise Undefined("domain " + o)

    def elems(self, v):
        if isinstance(v, (Lst, tuple)):
            return v
        if isinstance(v, Mp):
            return self.keys(v)
        if isinstance(v, U):
            return self.seq(v.shape, v.key)
        if isinstance(v, Gr):
            return Lst(v.nodes)
        raise (Fault if v is None else Undefined)("iteration over %r" % (v,))

    # ------------------------------------------------------------ graphs
    def gr(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, Gr):
            return v
        if isinstance(v, U):
            return self.graph(v.key)
        raise (Fault if v is None else Undefined)("graph")

    def restruct(self, g, st, env):
        """apply a list of structural operations"""
        parts = st.args if st.op == "concat" else (st,)
        nodes, edges = list(g.nodes), list(g.edges)
        if not parts or parts[0].op != "g0":
            if parts and parts[0].op in ("list",):
                nodes, edges = [], []
            elif parts and parts[0].op == "post":
                nodes, edges = list(g.nodes), [e for e in g.edges if self.h("pe", repr(parts[0].args), e) % 3]
        for p in parts:
            if p.op == "list":
                for s in p.args:
                    out = []
                    self.seg(s, env, out, None)
                    for x in out:
                        op = x[0]
                        if not (isinstance(op, tuple) and op and op[0] == "gop"):
                            raise Undefined("gop")
                        k = op[1]
                        if k == "add":
                            for n in op[2:4]:
                                if n not in nodes:
                                    nodes.append(n)
                            if (op[2], op[3]) not in edges:
                                edges.append((op[2], op[3]))
                        elif k == "addn":
                            if op[2] not in nodes:
                                nodes.append(op[2])
                        elif k == "del":
                            if (op[2], op[3]) in edges:
                                edges.remove((op[2], op[3]))
                        elif k == "deln":
                            if op[2] in nodes:
                                nodes.remove(op[2])
                            edges = [e for e in edges if op[2] not in e]
        return Gr(g.key, nodes, edges, g.over)

    def o_g0(self, t, a, env):
        g = self.gr(a[0], env)
        return Lst([("g0", g.frozen())])

    def o_gcopy(self, t, a, env):
        return self.gr(a[0], env)

    o_gtod = o_gcopy

    def o_snap(self, t, a, env):
        g = self.gr(a[0], env)
        over = dict(g.over)
        for k, v in a[1]:
            nm = k.args[0]
            if nm == "g":
                g = self.restruct(g, v, env)
            else:
                over[nm] = self.ev(v, env)
        return Gr(g.key, g.nodes, g.edges, over)

    def o_gsub(self, t, a, env):
        g = self.gr(a[1], env)
        es = [fz(x) for x in self.elems(self.ev(a[2], env))]
        if a[0] == "edge_subgraph":
            edges = [e for e in g.edges if fz(e) in es]
            nodes = [n for n in g.nodes if any(n in e for e in edges)]
        else:
            nodes = [n for n in g.nodes if n in es]
            edges = [e for e in g.edges if e[0] in nodes and e[1] in nodes]
        return Gr(g.key, nodes, edges, g.over)

    def o_star(self, t, a, env):
        raise Undefined("star")

    def o_call(self, t, a, env):
        if a[0].op == "ext" and a[0].args[0] == "networkx.compose_all" and len(a[1]) == 1:
            gs = self.ev(a[1][0], env)
            if isinstance(gs, Lst) and all(isinstance(g, Gr) and not set(g.over) - {"ga"} for g in gs):
                if not gs:
                    raise Undefined("nothing to compose")
                return Gr("new", dict.fromkeys(n for g in gs for n in g.nodes), dict.fromkeys(e for g in gs for e in g.edges))
        return self.generic(t, a, env)

    def o_obj(self, t, a, env):
        d = {k.args[0]: v for k, v in a[1]}
        g = Gr("new", [], [])
        over = {}
        for k, v in d.items():
            if k == "g":
                g = self.restruct(g, v if v.op in ("list", "concat") else T.mk("list"), env) if v.op in ("list", "concat") else g
                if v.op not in ("list", "concat"):
                    over[k] = self.ev(v, env)
            else:
                over[k] = self.ev(v, env)
        return Gr("new", g.nodes, g.edges, over)

    def o_me(self, t, a, env):
        return Gr("new", [], [])

    o_cyc = o_me

    def gattr(self, g, kind, name, key):
        ov = g.over.get("%s:%s" % (kind, name)) if kind != "ga" else g.over.get("ga")
        if ov is not None:
            return self.get(ov, key if kind != "ga" else name, (kind, name))
        raise KeyError

    def o_na(self, t, a, env):
        g = self.gr(a[0], env)
        k = self.ev(a[1], env)
        n = a[2].args[0] if a[2].op == "str" else self.ev(a[2], env)
        try:
            return self.gattr(g, "na", n, k)
        except KeyError:
            return self.conc(("na", a[2]), ("na", g.key, k, n))

    def o_ea(self, t, a, env):
        g = self.gr(a[0], env)
        k = (self.ev(a[1], env), self.ev(a[2], env))
        n = a[3].args[0] if a[3].op == "str" else self.ev(a[3], env)
        try:
            return self.gattr(g, "ea", n, k)
        except KeyError:
            return self.conc(("ea", a[3]), ("ea", g.key, k, n))

    def o_ga(self, t, a, env):
        g = self.gr(a[0], env)
        n = self.ev(a[1], env)
        try:
            return self.gattr(g, "ga", n, n)
        except KeyError:
            return self.conc(("ga", a[1]), ("ga", g.key, fz(n)))

    def o_na0(self, t, a, env):
        g = self.gr(a[0], env)
        ov = g.over.get("na:%s" % a[1].args[0]) if a[1].op == "str" else None
        return ov if ov is not None else U(("na0", g.key, fz(self.ev(a[1], env))), ("na", a[1]))

    def o_ea0(self, t, a, env):
        g = self.gr(a[0], env)
        ov = g.over.get("ea:%s" % a[1].args[0]) if a[1].op == "str" else None
        return ov if ov is not None else U(("ea0", g.key, fz(self.ev(a[1], env))), ("ea", a[1]))

    def o_ga0(self, t, a, env):
        g = self.gr(a[0], env)
        ov = g.over.get("ga")
        return ov if ov is not None else U(("ga0", g.key), ("ga0",))

    # ------------------------------------------------------------ containers
    def get(self, c, k, sh=None):
        if isinstance(c, (Lst, tuple)) and not (c and c[0] == "lpvar"):
            if isinstance(k, (int, Fraction)) and not isinstance(k, bool):
                i = int(k)
                if -len(c) <= i < len(c):
                    return c[i]
            raise Fault("index")
        if isinstance(c, Mp):
            for kk, v in c.d.items():
                if self.equal(kk, k):
                    return v
            if k in c.dead or c.base is None:
                raise Fault("key")
            return self.get(c.base, k, sh)
        if isinstance(c, U):
            s = c.shape
            if s[0] == "na":
                return self.conc(s, ("na", c.key[1], fz(k), c.key[2]))
            if s[0] == "ea":
                return self.conc(s, ("ea", c.key[1], fz(k), c.key[2]))
            if s == ("ga0",):
                return self.conc(("ga", T.string(k) if isinstance(k, str) else k), ("ga", c.key[1], fz(k)))
            if sh is None:
                sh = ("val", s)
            if not self.coding:
                self.reads.add((c.key, fz(k)))
            if k == "upper_bound_vehicles" and sh == ("val", ("attr", "duals")):
                sh = ("fleet duals",)
            return self.conc(sh, ("item", c.key, fz(k)))
        raise (Fault if c is None else Undefined)("item of %r" % (c,))

    def o_item(self, t, a, env):
        if a[0].op == "ext" and a[0].args[0] == "pulp.LpStatus":
            k = self.ev(a[1], env)
            if k in LPSTATUS:
                return LPSTATUS[k]
            raise Undefined("status")
        return self.get(self.ev(a[0], env), self.ev(a[1], env), shape(t, None) if a[0].op in ("ret", "mcall", "again", "call") else
                        ("el" if _intlike(a[1], None) else "val", shape(a[0], None)) if a[0].op not in ("var", "bv", "item", "prj") else None)

    o_sel = o_item

    def o_prj(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, tuple):
            if -len(v) <= a[1] < len(v):
                return v[a[1]]
            raise Undefined("prj")
        return self.get(v, a[1])

    def o_tuple(self, t, a, env):
        return tuple(self.ev(x, env) for x in a)

    def o_attr(self, t, a, env):
        v = self.ev(a[0], env)
        if v is None:
            raise Fault("attribute of None")
        return self.conc(("attr", a[1]), ("attr", fz(v), a[1]))

    def o_sym(self, t, a, env):
        if a[0] == "self":
            return U(("self",), ("self",))
        return self.conc(("attr", a[0]), ("sym", a[0]))

    def o_post(self, t, a, env):
        return self.conc(shape(t, None), ("post", env.get("it", ())) + a[:2] + tuple(fz(self.ev(x, env)) for x in a[2:]))

    def o_after(self, t, a, env):
        return ("after", env.get("it", ())) + tuple(self.arg(x, env) for x in a)

    def o_mcall(self, t, a, env):
        if a[1] in STRM:
            r = self.ev(a[0], env)
            if isinstance(r, str) and not a[3:] or isinstance(r, str) and not a[3]:
                args = [self.ev(x, env) for x in a[2]]
                if all(isinstance(x, str) for x in args):
                    return getattr(r, a[1])(*args)
        key = ("mcall", env.get("it", ()) if a[1] not in PUREM else ()) + tuple(self.arg(x, env) for x in a)
        return self.conc(shape(t, None), key)

    def o_ret(self, t, a, env):
        u = a[0]
        key = ("ret", u.args[0], self.arg(u.args[1], env), self.arg(u.args[2], env))
        if u.args[0] in self.state:
            key += (env.get("it", ()),)
        return self.conc(("ret", u.args[0]), key)

    def o_list(self, t, a, env):
        out = []
        for s in a:
            self.seg(s, env, out, None)
        return Lst(self.without([x[0] for x in out]))

    def without(self, xs):
        """the list after the removals recorded in it, in order"""
        out = []
        for x in xs:
            if not isinstance(x, Removed):
                out.append(x)
                continue
            for i, y in enumerate(out):
                if self.equal(y, x.v):
                    del out[i]
                    break
            else:
                raise Fault("remove")
        return out

    def o_concat(self, t, a, env):
        out = []
        for x in a:
            if x.op == "list":
                for s in x.args:
                    o2 = []
                    self.seg(s, env, o2, None)
                    out.extend(y[0] for y in o2)
            else:
                out.extend(self.elems(self.ev(x, env)))
        return Lst(self.without(out))

    def seg(self, s, env, out, limit):
        """append the element tuples of a segment"""
        o = s.op
        if o == "leaf":
            if self.ev(s.args[0], env):
                out.append(tuple(self.ev(x, env) for x in s.args[1:]) or (True,))
            return
        if o == "gseg":
            if self.ev(s.args[0], env):
                self.seg(s.args[1], env, out, limit)
            return
        if o == "removed":
            if self.ev(s.args[0], env):
                out.append((Removed(self.ev(s.args[1], env)),))
            return
        if o == "segs":
            for x in s.args:
                self.seg(x, env, out, limit)
            return
        if o == "splice":
            if self.ev(s.args[0], env):
                out.extend((x,) for x in self.elems(self.ev(s.args[1], env)))
            return
        if o == "q":
            d, lam = s.args
            h, b = lam.args
            bv = T.mk("bv", h)
            for i, x in enumerate(self.dom(d, env)):
                if limit is not None and i >= limit:
                    break
                e = loopenv(env, d, i)
                e[bv], e[("pos", bv)] = x, i
                self.seg(b, e, out, None)
            return
        if o == "plist":
            out.extend((x,) for x in self.o_plist(s, s.args, env))
            return
        raise Undefined("segment " + o)

    def anyseg(self, s, env):
        o = s.op
        if o == "leaf":
            return self.ev(s.args[0], env)
        if o == "gseg":
            return self.ev(s.args[0], env) and self.anyseg(s.args[1], env)
        if o == "segs":
            return any(self.anyseg(x, env) for x in s.args)
        if o == "splice":
            return self.ev(s.args[0], env) and len(self.elems(self.ev(s.args[1], env))) > 0
        if o == "q":
            d, lam = s.args
            h, b = lam.args
            bv = T.mk("bv", h)
            for i, x in enumerate(self.dom(d, env)):
                e = loopenv(env, d, i)
                e[bv], e[("pos", bv)] = x, i
                if self.anyseg(b, e):
                    return True
            return False
        raise Undefined("segment " + o)

    def o_sum(self, t, a, env, limit=None):
        out = []
        self.seg(a[0], env, out, limit)
        return sum((self.num(x[0]) for x in out), Fraction(0))

    def pos(self, x, env):
        p = env.get(("pos", x))
        if p is None:
            raise Undefined("position")
        return p

    def o_psum(self, t, a, env):
        n = self.pos(a[0], env)

        def go(u):
            if u.op == "sum":
                return self.o_sum(u, u.args, env, n)
            if u.op == "poly":
                s = Fraction(0)
                for m, c in u.args:
                    p = Fraction(c)
                    sums = [f for f in m if f.op == "sum"]
                    if len(sums) != 1 and m:
                        raise Undefined("psum")
                    for f in m:
                        p *= go(f) if f.op == "sum" else self.num(self.ev(f, env))
                    s += p
                return s
            if u.op == "GV":
                for i, (l, g) in enumerate(u.args):
                    if self.ev(g, env):
                        self.case(u, i)
                        return go(l)
                raise Undefined("no case")
            if u.op == "num" and u.args[0] == 0:
                return 0
            raise Undefined("psum")
        return go(a[1])

    def o_plist(self, t, a, env):
        n = self.pos(a[0], env)
        if a[1].op != "list":
            raise Undefined("plist")
        out = []
        for s in a[1].args:
            self.seg(s, env, out, n)
        return Lst(x[0] for x in out)

    def o_pmap(self, t, a, env):
        n = self.pos(a[0], env)
        return self.o_map(a[1], a[1].args, env, n)

    def o_map(self, t, a, env, limit=None):
        b = self.ev(a[0], env)
        if isinstance(b, Mp):
            r = Mp(b.base, b.d, b.dead)
        elif isinstance(b, (U,)):
            r = Mp(b)
        elif isinstance(b, Lst):
            lst = list(b)
            for s in a[1:]:
                out = []
                self.seg(s, env, out, limit)
                for k, v in out:
                    k = int(self.num(k))
                    if not -len(lst) <= k < len(lst):
                        raise Fault("index")
                    lst[k] = v
            return Lst(lst)
        else:
            raise Undefined("map")
        for s in a[1:]:
            out = []
            self.seg(s, env, out, limit)
            for x in out:
                k, v = x[0], x[1]
                if isinstance(v, str) and v == "<deleted>" or isinstance(v, tuple) and v == ("ext", "<deleted>"):
                    r.d.pop(k, None)
                    r.dead.add(k)
                else:
                    r.d[k] = v
                    r.dead.discard(k)
        return r

    def o_dict(self, t, a, env):
        return Mp()

    def o_mapcat(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if isinstance(x, Mp) and isinstance(y, Mp) and y.base is None:
            r = Mp(x.base, x.d, x.dead)
            r.d.update(y.d)
            return r
        raise Undefined("mapcat")

    def o_setof(self, t, a, env):
        out = []
        for x in self.elems(self.ev(a[0], env)):
            if not any(self.equal(x, y) for y in out):
                out.append(x)
        return Lst(sorted(out, key=repr))

    def o_dom(self, t, a, env):
        return Lst(self.dom(a[0], env))

    def o_itv(self, t, a, env):
        h, b = a[1].args
        bv = T.mk("bv", h)
        out = []
        for i, x in enumerate(self.dom(a[0], env)):
            e = loopenv(env, a[0], i)
            e[bv], e[("pos", bv)] = x, i
            out.append(self.ev(b, e))
        return Lst(out)

    def o_len(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, str):
            return len(v)
        return len(self.elems(v))

    def several(self, a, env):
        out, empty = [], None
        for x in a:
            try:
                out.append(self.num(self.ev(x, env)))
            except Nothing as ex:
                empty = ex
        if not out:
            raise empty
        return out

    def o_max(self, t, a, env):
        return max(self.several(a, env))

    def o_min(self, t, a, env):
        return min(self.several(a, env))

    def o_maxof(self, t, a, env):
        l = [self.num(x) for x in self.elems(self.ev(a[0], env))]
        if not l:
            raise Nothing("max of nothing")
        return max(l)

    def o_minof(self, t, a, env):
        l = [self.num(x) for x in self.elems(self.ev(a[0], env))]
        if not l:
            raise Nothing("min of nothing")
        return min(l)

    def keyf(self, c, lam, env):
        if lam is NONE or lam is None:
            return lambda x: x
        if lam.op == "lam":
            h, b = lam.args
            bv = T.mk("bv", h)

            def f(x):
                e = dict(env)
                e[bv], e[("pos", bv)] = x, None
                return self.ev(b, e)
            return f
        v = None
        raise Fault("key")

    def order(self, c, lam, rev, env):
        v = self.ev(c, env)
        els = list(self.elems(v))
        f = self.keyf(v, lam, env)
        ks = []
        for x in els:
            k = f(x)
            if isinstance(k, (bool, int, Fraction)):
                k = (0, k)
            elif isinstance(k, str):
                k = (1, k)
            else:
                k = (2, repr(fz(k)))
            ks.append(k)
        if len({k[0] for k in ks}) > 1:
            raise Undefined("sort")
        idx = sorted(range(len(els)), key=lambda i: ks[i], reverse=rev)
        return [els[i] for i in idx]

    def o_sorted(self, t, a, env):
        return Lst(self.order(a[0], a[1], a[2] is TRUE, env))

    def o_argbest(self, t, a, env):
        l = self.order(a[0], a[1], False, env)
        if not l:
            raise Fault("best of nothing")
        if a[2] is TRUE:
            v = self.order(a[0], a[1], True, env)
            return v[0]
        return l[0]

    def o_slice(self, t, a, env):
        v = self.ev(a[0], env)
        if not isinstance(v, (tuple, str)):
            v = self.elems(v)

        def ix(x):
            y = self.ev(x, env)
            return None if y is None else int(self.num(y))
        r = v[ix(a[1]):ix(a[2])]
        return r if isinstance(r, str) else Lst(r)

    def o_reversed(self, t, a, env):
        return Lst(reversed(tuple(self.elems(self.ev(a[0], env)))))

    def o_replist(self, t, a, env):
        n = int(self.num(self.ev(a[1], env)))
        if n > 12:
            raise Undefined("replist")
        return Lst(tuple(self.elems(self.ev(a[0], env))) * max(n, 0))

    def o_index(self, t, a, env):
        l = self.elems(self.ev(a[0], env))
        v = self.ev(a[1], env)
        for i, x in enumerate(l):
            if self.equal(x, v):
                return i
        raise Fault("index")

    def o_count(self, t, a, env):
        l = self.elems(self.ev(a[0], env))
        v = self.ev(a[1], env)
        return sum(1 for x in l if self.equal(x, v))

    def o_popped(self, t, a, env):
        l = list(self.elems(self.ev(a[0], env)))
        i = int(self.num(self.ev(a[1], env))) if len(a) > 1 else -1
        if not l or not -len(l) <= i < len(l):
            raise Fault("pop")
        del l[i]
        return Lst(l)

    def o_insort(self, t, a, env):
        l = list(self.elems(self.ev(a[0], env))) + [self.ev(a[1], env)]
        return Lst(sorted(l, key=lambda x: (repr(type(x)), x if isinstance(x, (int, Fraction)) else repr(fz(x)))))

    def o_union(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if isinstance(x, Mp) and isinstance(y, Mp):
            return self.o_mapcat(t, a, env)
        out = []
        for z in tuple(self.elems(x)) + tuple(self.elems(y)):
            if not any(self.equal(z, w) for w in out):
                out.append(z)
        return Lst(sorted(out, key=repr))

    def o_inter(self, t, a, env):
        x, y = self.elems(self.ev(a[0], env)), self.elems(self.ev(a[1], env))
        return Lst(sorted({z for z in x if any(self.equal(z, w) for w in y)}, key=repr))

    # ------------------------------------------------------------ arithmetic
    def o_inv(self, t, a, env):
        v = self.num(self.ev(a[0], env))
        if v == 0:
            raise Fault("division by zero")
        return Fraction(1) / v

    def o_abs(self, t, a, env):
        return abs(self.num(self.ev(a[0], env)))

    def o_round(self, t, a, env):
        return round(Fraction(self.num(self.ev(a[0], env))))

    def o_int(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, str):
            return self.h("int", v) % 5
        return int(self.num(v))

    def o_mod(self, t, a, env):
        x, y = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
        if y == 0:
            raise Fault("mod")
        return x % y

    def o_floordiv(self, t, a, env):
        x, y = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
        if y == 0:
            raise Fault("div")
        return x // y

    def o_pow(self, t, a, env):
        x, y = self.num(self.ev(a[0], env)), self.num(self.ev(a[1], env))
        if y != int(y) or abs(y) > 8 or (x == 0 and y < 0):
            return self.conc(("pow",), ("pow", x, y))
        return Fraction(x) ** int(y)

    def o_fmt(self, t, a, env):
        return "".join(str(fz(self.ev(x, env))) for x in a)

    def o_lpval(self, t, a, env):
        return self.conc(("lpval",), ("lpval", fz(self.ev(a[0], env)), fz(self.ev(a[1], env))))

    def o_con(self, t, a, env):
        s0 = self.salt
        vs = []
        try:
            for s in (1, 2, 3, 4):
                self.salt = s
                vs.append(Fraction(self.num(self.ev(a[1], env))))
        finally:
            self.salt = s0
        lead = next((v for v in vs if v), None)
        if lead is None:
            return ("con", a[0], ())
        sc = abs(lead) if a[0] == "<=" else lead
        return ("con", a[0], tuple(v / sc for v in vs))

    # ------------------------------------------------------------ recurrences
    def bind2(self, lam, env, x, i, d=None):
        h, b = lam.args
        bv = T.mk("bv", h)
        e = dict(env) if d is None else loopenv(env, d, i)
        e[bv], e[("pos", bv)] = x, i
        return b, e

    def o_rec(self, t, a, env, upto=None):
        d, init, lam = a
        st = self.ev(init, env)
        for i, x in enumerate(self.dom(d, env)):
            if upto is not None and i >= upto:
                break
            b, e = self.bind2(lam, env, x, i, d)
            b, e = self.bind2(b, e, st, None)
            st = self.ev(b, e)
        return st

    def o_recat(self, t, a, env):
        return self.o_rec(t, a[1:], env, self.pos(a[0], env))

    def o_prev(self, t, a, env):
        x, d, init, lam = a
        n = self.pos(x, env)
        if n == 0:
            return self.ev(init, env)
        l = self.dom(d, env)
        if n - 1 >= len(l):
            raise Undefined("prev")
        b, e = self.bind2(lam, self.outer(env, d), l[n - 1], n - 1, d)
        return self.ev(b, e)

    def o_last(self, t, a, env):
        init, d, lam = a
        l = self.dom(d, env)
        if not l:
            return self.ev(init, env)
        b, e = self.bind2(lam, env, l[-1], len(l) - 1, d)
        return self.ev(b, e)

    def outer(self, env, d):
        """environment of the loop whose iteration variable is being left"""
        while d.op == "until":
            d = d.args[0]
        if d.op == "wdom" and env.get("it"):
            env = dict(env)
            env["it"] = env["it"][:-1]
        return env

    def wstates(self, w, env):
        k = ("w", w, self.salt, env.get("it"), tuple((v, fz(env.get(v))) for v in sorted(w.fv, key=lambda x: x.id)))
        r = self.memo.get(k)
        if r is not None:
            return r
        init, lam = w.args
        st = self.ev(init, env)
        out = [st]
        for n in range(self.MAXIT):
            b, e = self.bind2(lam, env, st, n)
            e["it"] = env.get("it", ()) + (n,)
            c, stop = b.args[0], b.args[1]
            if not self.ev(c.args[0], e):
                self.memo[k] = out
                return out
            s = self.ev(stop.args[0], e)
            st = tuple(self.ev(f, e) for f in b.args[2:])
            out.append(st)
            if s:
                self.memo[k] = out
                return out
        raise Undefined("loop")

    def o_wrec(self, t, a, env):
        return self.wstates(t, env)[-1]

    def o_wat(self, t, a, env):
        e = env
        if env.get("it"):
            e = dict(env)
            e["it"] = env["it"][:-1]
        s = self.wstates(a[1], e)
        n = self.pos(a[0], env)
        if n >= len(s):
            raise Undefined("wat")
        return s[n]

    # ------------------------------------------------------------ events
    def events(self, evs, out, idx):
        """concrete occurrences of quantified events"""
        for n, (kind, payload, quants, guard) in enumerate(evs):
            self.expand(kind, payload, quants, 0, guard, {}, out, idx, n)

    def expand(self, kind, payload, quants, i, guard, env, out, idx, n):
        if i < len(quants):
            v, d = quants[i]
            for p, x in enumerate(self.dom(d, env)):
                e = loopenv(env, d, p)
                e[v], e[("pos", v)] = x, p
                self.expand(kind, payload, quants, i + 1, guard, e, out, idx, n)
            return
        if not self.ev(guard, env):
            return
        k = (kind, fz(self.ev(payload, env)))
        out[k] = out.get(k, 0) + 1 if kind not in ("raise", "set") else 1      # writing the same value twice is writing it once
        idx.setdefault(k, set()).add(n)

"""Hash-consed canonical terms for the gated value-flow analysis.

Terms are interned, so equality of canonical forms is identity.  Booleans are
reduced ordered decision diagrams over canonical atoms; a value that depends on
conditions is a guarded value (a partition leaf -> guard).  Numbers are kept as
polynomials with rational coefficients, so re-association, re-ordering, sign and
side changes of (in)equalities do not matter.  Nothing here executes vrpy code.
"""
from fractions import Fraction
from itertools import product

_TABLE = {}
_EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "id", "h", "fv", "opq", "lv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _scan(args, acc):
    for a in args:
        if isinstance(a, T):
            if a.h > acc[0]:
                acc[0] = a.h
            if a.lv > acc[3]:
                acc[3] = a.lv
            if a.fv:
                acc[1] |= a.fv
            if a.opq:
                acc[2] = True
        elif isinstance(a, tuple):
            _scan(a, acc)


def mk(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.id = op, args, len(_TABLE) + 1
    acc = [0, set(), False, 0]
    _scan(args, acc)
    if op == "var" or op == "bv":
        acc[1].add(t)
    if op == "opaque":
        acc[2] = True
    t.h = acc[0]
    if op == "lam":
        t.h = args[0]
        acc[1].discard(_TABLE.get(("bv", (args[0],))))
    t.lv = args[0] if op == "mu" else acc[3]
    t.fv = frozenset(acc[1]) if acc[1] else _EMPTY
    t.opq = acc[2]
    _TABLE[key] = t
    return t


_counter = [0]


def fresh(hint="v"):
    _counter[0] += 1
    return mk("var", hint, _counter[0])


def opaque(why):
    _counter[0] += 1
    return mk("opaque", why, _counter[0])


# ----------------------------------------------------------------- constants
NONE = mk("none")
TRUE = mk("TRUE")
FALSE = mk("FALSE")
UNDEF = mk("undef")


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("ext", "float.%s" % x)
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


def string(s):
    return mk("str", s)


def is_num(t):
    return t.op == "num"


ZERO, ONE = num(0), num(1)

# ----------------------------------------------------------------- booleans
_ite_memo = {}


def is_bool(t):
    return t.op in ("TRUE", "FALSE", "B")


def atom(t):
    return mk("B", t, TRUE, FALSE)


def _top(*fs):
    v = None
    for f in fs:
        if f.op == "B" and (v is None or f.args[0].id < v.id):
            v = f.args[0]
    return v


def _cof(f, v, val):
    if f.op == "B" and f.args[0] is v:
        return f.args[1] if val else f.args[2]
    return f


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f, g, h)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = _top(f, g, h)
    hi = bite(_cof(f, v, 1), _cof(g, v, 1), _cof(h, v, 1))
    lo = bite(_cof(f, v, 0), _cof(g, v, 0), _cof(h, v, 0))
    r = hi if hi is lo else mk("B", v, hi, lo)
    _ite_memo[key] = r
    return r


def band(*fs):
    r = TRUE
    for f in fs:
        r = bite(r, f, FALSE)
    return r


def bor(*fs):
    r = FALSE
    for f in fs:
        r = bite(r, TRUE, f)
    return r


def bnot(f):
    return bite(f, FALSE, TRUE)


def support(f, acc=None):
    seen = set()
    out = []
    st = [f]
    while st:
        g = st.pop()
        if g.op != "B" or g in seen:
            continue
        seen.add(g)
        if g.args[0] not in out:
            out.append(g.args[0])
        st.append(g.args[1])
        st.append(g.args[2])
    return out


def cofactor(f, a, val):
    return bite(f, TRUE, FALSE) if f.op != "B" else _restrict1(f, a, val)


def _restrict1(f, a, val, memo=None):
    if memo is None:
        memo = {}
    if f.op != "B":
        return f
    r = memo.get(f)
    if r is not None:
        return r
    v, hi, lo = f.args
    if v is a:
        r = hi if val else lo
    elif v.id > a.id:
        r = f
    else:
        r = bite(atom(v), _restrict1(hi, a, val, memo), _restrict1(lo, a, val, memo))
    memo[f] = r
    return r


# ----------------------------------------------------------------- guarded values
MAXLEAF = 200


def leaves(v):
    """[(leaf, guard)] of a value; non constant booleans are split."""
    if v.op == "GV":
        return list(v.args)
    if v.op == "B":
        return [(TRUE, v), (FALSE, bnot(v))]
    return [(v, TRUE)]


def gv(pairs):
    m = {}
    for leaf, g in pairs:
        if g is FALSE:
            continue
        for l2, g2 in leaves(leaf):
            gg = band(g, g2)
            if gg is FALSE:
                continue
            m[l2] = bor(m[l2], gg) if l2 in m else gg
    if not m:
        return UNDEF
    if len(m) > MAXLEAF:
        return opaque("too many cases")
    if all(l is TRUE or l is FALSE for l in m):
        t = m.get(TRUE, FALSE)
        tot = bor(*m.values())
        return t if tot is TRUE or True else t
    if len(m) == 1:
        return next(iter(m))
    return mk("GV", *sorted(m.items(), key=lambda p: p[0].id))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return bite(c, a, b)
    mm = _maxmin(c, a, b)
    if mm is not None:
        return mm
    nc = bnot(c)
    return gv([(l, band(c, g)) for l, g in leaves(a)] + [(l, band(nc, g)) for l, g in leaves(b)])


def _maxmin(c, a, b):
    """a if a>b else b  ->  max(a,b)"""
    if c.op != "B" or a.op in ("GV", "B", "none", "undef", "str", "list", "tuple", "obj", "ref") or b.op in (
        "GV", "B", "none", "undef", "str", "list", "tuple", "obj", "ref"):
        return None
    if is_bool(a) or is_bool(b):
        return None
    if c in (lt(b, a), le(b, a)):
        return maxmin("max", [a, b])
    if c in (lt(a, b), le(a, b)):
        return maxmin("min", [a, b])
    return None


def prune(v, live):
    """Drop the leaves that are impossible where control is `live`."""
    if v.op != "GV":
        if v.op == "B":
            if band(v, live) is FALSE:
                return FALSE
            if band(bnot(v), live) is FALSE:
                return TRUE
        return v
    ps = [(l, g) for l, g in v.args if band(g, live) is not FALSE]
    if len(ps) == len(v.args):
        return v
    if not ps:
        return v
    if len(ps) == 1:
        return ps[0][0]
    return mk("GV", *ps)


def lift(fn, *args, split_bool=True):
    """Apply fn to every combination of leaves."""
    if not any(a.op == "GV" or (split_bool and a.op == "B") for a in args):
        return fn(*args)
    opts = [leaves(a) if (a.op == "GV" or (split_bool and a.op == "B")) else [(a, TRUE)] for a in args]
    n = 1
    for o in opts:
        n *= len(o)
    if n > 3000:
        return opaque("too many cases")
    out = []
    combos = [((), TRUE)]
    for o in opts:
        nxt = []
        for pre, g in combos:
            for l, g2 in o:
                gg = band(g, g2)
                if gg is not FALSE:
                    nxt.append((pre + (l,), gg))
        combos = nxt
    for pre, g in combos:
        out.append((fn(*pre), g))
    return gv(out)


# ----------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {(t,): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", *sorted(p.items(), key=lambda mc: tuple(x.id for x in mc[0])))


def _add2(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ("str", "fmt") and y.op in ("str", "fmt"):
            return fmt([a, b])
    if a.op == "list" and b.op == "list":
        return mk("list", *(a.args + b.args))
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.args + b.args))
    if a.op in ("list", "concat") or b.op in ("list", "concat"):
        aa = a.args if a.op == "concat" else (a,)
        bb = b.args if b.op == "concat" else (b,)
        parts = []
        for x in aa + bb:
            if x.op == "list" and not x.args:
                continue
            if parts and parts[-1].op == "list" and x.op == "list":
                parts[-1] = mk("list", *(parts[-1].args + x.args))
            else:
                parts.append(x)
        if len(parts) == 1:
            return parts[0]
        return mk("concat", *parts)
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def add(a, b):
    return lift(_add2, a, b)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mul2(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "list" and is_num(y) and y.args[0].denominator == 1 and 0 <= y.args[0] <= 12 and all(
                s.op == "leaf" and s.args[0] is TRUE for s in x.args):
            return mk("list", *(x.args * int(y.args[0])))
        if x.op == "list" and not is_num(y):
            return mk("replist", x, y)
    p = {}
    pa, pb = to_poly(a), to_poly(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono(m1 + m2)
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def _mono(fs):
    fs = sorted(fs, key=lambda t: t.id)
    # cancel t * inv(t)
    out = list(fs)
    for t in fs:
        if t.op == "inv" and t.args[0] in out and t in out:
            out.remove(t)
            out.remove(t.args[0])
    return tuple(out)


def mul(a, b):
    return lift(_mul2, a, b)


def _inv(b):
    if is_num(b):
        return num(1 / b.args[0]) if b.args[0] else opaque("division by zero")
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        r = num(1 / c)
        for f in m:
            r = _mul2(r, f.args[0] if f.op == "inv" else mk("inv", f))
        return r
    # normalise leading coefficient
    lead = sorted(p.items(), key=lambda mc: tuple(x.id for x in mc[0]))[0][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return _mul2(num(1 / lead), mk("inv", q))


def div(a, b):
    return lift(lambda x, y: _mul2(x, _inv(y)), a, b)


# ----------------------------------------------------------------- comparisons
_NONNUM = ("str", "fmt", "none", "list", "tuple", "dict", "set", "TRUE", "FALSE", "ref", "obj", "ext", "concat")


def _norm_sign(p):
    """divide by |leading coefficient|; returns (poly, positive?)"""
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: tuple(x.id for x in mc[0]))
    lead = items[0][1]
    s = abs(lead)
    pos = lead > 0
    q = {m: (c / s if pos else -c / s) for m, c in p.items()}
    return from_poly(q), pos


def _integral(p):
    return all(c.denominator == 1 and all(f.op == "len" or f.op == "cnt" for f in m) for m, c in p.items())


def _le0(a, strict):
    """a <= 0 (or a < 0)"""
    p = to_poly(a)
    if not p or list(p) == [()]:
        c = p.get((), Fraction(0))
        return TRUE if (c < 0 if strict else c <= 0) else FALSE
    if _integral(p):
        if strict:  # a < 0  <=> a + 1 <= 0
            p[()] = p.get((), Fraction(0)) + 1
            p = {m: c for m, c in p.items() if c}
            strict = False
            if not p or list(p) == [()]:
                return TRUE if p.get((), 0) <= 0 else FALSE
        ks = [m for m in p if m != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0].op == "len":
            x, c, k = ks[0][0].args[0], p[ks[0]], p.get((), Fraction(0))
            if c == -1 and k == 1:  # len >= 1
                return truth(x)
            if c == 1 and k == 0:  # len <= 0
                return bnot(truth(x))
            if c == -1 and k <= 0:
                return TRUE
            if c == 1 and k > 0:
                return FALSE
        # canonical: le0 only, choose the sign by leading coefficient
        q, pos = _norm_sign(p)
        if pos:
            return atom(mk("le0", q))
        # -q <= 0  <=> q >= 0 <=> not (q < 0) <=> not (q + 1 <= 0)
        return bnot(atom(mk("le0", _add2(q, ONE))))
    q, pos = _norm_sign(p)
    if pos:
        return atom(mk("lt0" if strict else "le0", q))
    # -q <= 0 <=> not (q < 0);  -q < 0 <=> not (q <= 0)
    return bnot(atom(mk("le0" if strict else "lt0", q)))


def le(a, b):
    return lift(lambda x, y: _le0(_add2(x, _mul2(num(-1), y)), False), a, b)


def lt(a, b):
    return lift(lambda x, y: _le0(_add2(x, _mul2(num(-1), y)), True), a, b)


_LPSTATUS = {"Not Solved": 0, "Optimal": 1, "Infeasible": -1, "Unbounded": -2, "Undefined": -3}


def _eq2(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "item" and x.args[0].op == "ext" and x.args[0].args[0] == "pulp.LpStatus" and y.op == "str":
            if y.args[0] in _LPSTATUS:
                return _eq2(x.args[1], num(_LPSTATUS[y.args[0]]))
            return FALSE
        if x.op in ("list", "dict", "set", "tuple") and not x.args and y.op not in ("none", "num", "str"):
            return bnot(truth(y))
        if x is NONE:
            return isnone(y)
        if x.op == "var" and y.op == "var":
            break
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.args, b.args)])
    ca, cb = a.op in ("num", "str", "none", "TRUE", "FALSE"), b.op in ("num", "str", "none", "TRUE", "FALSE")
    if ca and cb:
        if a.op in ("TRUE", "FALSE") and b.op == "num" or b.op in ("TRUE", "FALSE") and a.op == "num":
            pa, pb = to_poly(a), to_poly(b)
            return TRUE if pa == pb else FALSE
        return FALSE
    if a is TRUE or b is TRUE or a is FALSE or b is FALSE:
        x, y = (a, b) if a in (TRUE, FALSE) else (b, a)
        return atom(mk("eqc", y, x))
    if a.op not in _NONNUM and b.op not in _NONNUM and (
            a.op in ("num", "poly", "sum", "len") or b.op in ("num", "poly", "sum", "len")):
        p = to_poly(_add2(a, _mul2(num(-1), b)))
        if not p:
            return TRUE
        if list(p) == [()]:
            return FALSE
        if _integral(p):
            ks = [m for m in p if m != ()]
            if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0].op == "len" and p.get((), 0) == 0:
                return bnot(truth(ks[0][0].args[0]))
        q, _ = _norm_sign(p)
        return atom(mk("eq0", q))
    if a.id > b.id:
        a, b = b, a
    return atom(mk("eq", a, b))


def eq(a, b):
    if is_bool(a) and is_bool(b):
        return bite(a, b, bnot(b))
    return lift(_eq2, a, b)


def _isnone(t):
    if t is NONE:
        return TRUE
    if t.op in ("num", "str", "fmt", "poly", "list", "tuple", "dict", "set", "TRUE", "FALSE", "ref", "obj", "sum",
                "len", "max", "min", "lpvar", "new", "bound", "closure", "ext", "comp", "concat"):
        return FALSE
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1][:1].isupper():
        return FALSE    # an instance of a library class
    return atom(mk("isnone", t))


def isnone(t):
    return lift(_isnone, t)


def _truth(t):
    if t in (TRUE, FALSE):
        return t
    if t.op in ("none", "undef"):
        return FALSE
    if t.op == "num":
        return TRUE if t.args[0] else FALSE
    if t.op == "str":
        return TRUE if t.args[0] else FALSE
    if t.op in ("list", "tuple", "set", "dict"):
        if not t.args:
            return FALSE
        if t.op == "tuple" or any(s.op == "leaf" and s.args[0] is TRUE for s in t.args):
            return TRUE
        if t.op in ("list", "set"):
            return bor(*[any_seg(s) for s in t.args])
    if t.op in ("ref", "obj", "new", "bound", "closure", "class"):
        return TRUE
    if t.op == "map":
        return bor(truth(t.args[0]), *[any_seg(s) for s in t.args[1:]])
    if t.op == "concat":
        return bor(*[truth(x) for x in t.args])
    if t.op == "slice" and t.args[1] is NONE and t.args[2] is NONE:
        return truth(t.args[0])
    if t.op == "len":
        return truth(t.args[0])
    if t.op == "poly" or t.op == "sum":
        return bnot(_eq2(t, ZERO))
    return atom(mk("truth", t))


def truth(t):
    if is_bool(t):
        return t
    return lift(_truth, t)


def any_seg(s):
    if s.op == "leaf":
        return s.args[0]
    return any_q(s)


# ----------------------------------------------------------------- binders
_subst_memo = {}


def mk_lam(var, body):
    h = body.h + 1
    b = subst(body, {var: mk("bv", h)})
    # substitution may renormalise the body and change its height
    n = 0
    while b.h + 1 > h and n < 5:
        h = b.h + 1
        b = subst(body, {var: mk("bv", h)})
        n += 1
    return mk("lam", h, b)


def open_lam(lam, t):
    h, b = lam.args
    return subst(b, {mk("bv", h): t})


def occurs(t, v):
    """v a var (free variables are tracked) or any other subterm."""
    if v.op == "var":
        return v in t.fv
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is v:
            return True
        if x in seen:
            continue
        seen.add(x)
        _push(x.args, st)
    return False


def _push(args, st):
    for a in args:
        if isinstance(a, T):
            st.append(a)
        elif isinstance(a, tuple):
            _push(a, st)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        _push(x.args, st)
    return seen


class Budget(Exception):
    pass


STEPS = [0, 1 << 60]


class _Sub:
    __slots__ = ("m", "keys", "free", "memo", "grow")

    def __init__(self, m):
        self.m = m
        self.free = all(k.op in ("var", "bv") for k in m)
        self.keys = frozenset(m)
        self.memo = {}
        self.grow = any(v.h for v in m.values())


def subst(t, m):
    """simultaneous replacement, re-normalising what changes"""
    if not m:
        return t
    return _sub(t, _Sub(m))


def _sub(t, s):
    if s.free and not (t.fv and not s.keys.isdisjoint(t.fv)):
        return t
    r = s.memo.get(t)
    if r is not None:
        return r
    r = s.m.get(t)
    if r is None:
        STEPS[0] += 1
        if STEPS[0] > STEPS[1]:
            raise Budget("analysis budget")
        if t.op == "lam":
            r = _sub_lam(t, s)
        else:
            na = _sub_args(t.args, s)
            r = t if na == t.args else rebuild(t.op, na)
    s.memo[t] = r
    return r


def _sub_lam(t, s):
    h, b = t.args
    if not s.grow:
        nb = _sub(b, s)
        if nb is b:
            return t
        if nb.h + 1 == h:
            return mk("lam", h, nb)
    v = fresh()
    m = dict(s.m)
    m[mk("bv", h)] = v
    return mk_lam(v, _sub(b, _Sub(m)))


def _sub_args(args, s):
    return tuple(
        _sub(a, s) if isinstance(a, T) else (_sub_args(a, s) if isinstance(a, tuple) else a)
        for a in args
    )


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    if op == "B":
        v = a[0]
        c = v if is_bool(v) else _reatom(v)
        return bite(c, a[1], a[2])
    if op == "GV":
        return gv(list(a))
    if op == "poly":
        r = ZERO
        for m, c in a:
            x = num(c)
            for f2 in m:
                x = mul(x, f2)
            r = add(r, x)
        return r
    if op == "inv":
        return div(ONE, a[0])
    if op in ("item", "attr", "call", "na", "ea", "ga", "tuple", "len", "fmt"):
        return LIFTED[op](*a) if op in LIFTED else mk(op, *a)
    return mk(op, *a)


LIFTED = {}


def _reatom(v):
    """an atom whose arguments were substituted: re-normalise"""
    op, a = v.op, v.args
    if op == "le0":
        return le(a[0], ZERO)
    if op == "lt0":
        return lt(a[0], ZERO)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "eq":
        return eq(a[0], a[1])
    if op == "eqc":
        return eq(a[0], a[1])
    if op == "truth":
        return truth(a[0])
    if op == "isnone":
        return isnone(a[0])
    if op == "in" and "in" in LIFTED:
        return LIFTED["in"](*a)
    if op == "any":
        return any_q(a[0])
    f = REBUILD.get(op)
    if f is not None:
        r = f(*a)
        return r if is_bool(r) else atom(r)
    return atom(v)


# quantified segments -------------------------------------------------------
#  leaf(guard, elem...)          q(dom, lam(segment))
def split_indep(g, var):
    """g = OR (indep_i & dep_i), indep_i a partition not depending on var."""
    for a in support(g):
        if var not in a.fv:
            out = []
            for val in (1, 0):
                lit = atom(a) if val else bnot(atom(a))
                for i, d in split_indep(_restrict1(g, a, val), var):
                    out.append((band(lit, i), d))
            m = {}
            for i, d in out:
                m[d] = bor(m[d], i) if d in m else i
            return [(i, d) for d, i in m.items()]
    return [(TRUE, g)]


DOMNORM = []  # functions (var, dom, seg) -> (var, dom, seg, extra guard) | None


def q(var, dom, seg):
    """Quantify a segment: returns a list of (indep guard, segment)."""
    if dom.op == "GV":
        out = []
        for d, g in dom.args:
            for i, s in q(var, d, seg):
                out.append((band(g, i), s))
        return out
    for fn in DOMNORM:
        r = fn(var, dom, seg)
        if r is not None:
            v2, d2, s2 = r
            return q(v2, d2, s2)
    if dom.op == "qdom":  # iteration over a comprehension: nested binders
        # dom = qdom(segment of elems)
        return _fuse(var, dom.args[0], seg)
    if seg.op == "leaf" and seg.args[0] is FALSE:
        return []
    g = seg_guard(seg)
    if g is not None and g is not TRUE:
        out = []
        for i, d in split_indep(g, var):
            if d is FALSE:
                continue
            out.append((i, mk("q", dom, mk_lam(var, with_guard(seg, d)))))
        return out
    return [(TRUE, mk("q", dom, mk_lam(var, seg)))]


def seg_guard(seg):
    if seg.op == "leaf":
        return seg.args[0]
    return None


def with_guard(seg, g):
    return mk("leaf", g, *seg.args[1:])


def _fuse(var, s, seg):
    if s.op == "leaf":
        r = subst(seg, {var: s.args[1]})
        r = guard_seg(r, s.args[0])
        return [(TRUE, r)] if not (r.op == "leaf" and r.args[0] is FALSE) else []
    v = fresh()
    inner = open_lam(s.args[1], v)
    out = []
    for i, s2 in _fuse(var, inner, seg):
        for i2, s3 in q(v, s.args[0], guard_seg(s2, i)):
            out.append((i2, s3))
    return out


def guard_seg(seg, g):
    if g is TRUE:
        return seg
    if seg.op == "leaf":
        return mk("leaf", band(seg.args[0], g), *seg.args[1:])
    if seg.op == "gseg":
        return mk("gseg", band(seg.args[0], g), seg.args[1])
    if seg.op == "splice":
        return mk("splice", band(seg.args[0], g), seg.args[1])
    if seg.op == "segs":
        return mk("segs", *[guard_seg(x, g) for x in seg.args])
    if seg.op != "q":
        return mk("gseg", g, seg)
    v = fresh()
    dom, lam = seg.args
    r = q(v, dom, guard_seg(open_lam(lam, v), g))
    if not r:
        return mk("leaf", FALSE, *([NONE]))
    if len(r) == 1 and r[0][0] is TRUE:
        return r[0][1]
    return mk("gseg", g, seg)


def any_q(s):
    """truth of a quantified leaf(guard)"""
    if s.op == "leaf":
        return s.args[0]
    if s.op == "gseg":
        return band(s.args[0], any_q(s.args[1]))
    if s.op == "splice":
        return band(s.args[0], truth(s.args[1]))
    if s.op == "segs":
        return bor(*[any_q(x) for x in s.args])
    if s.op == "q":
        dom, lam = s.args
        v = fresh()
        body = open_lam(lam, v)
        inner = any_q(body)
        if inner is FALSE:
            return FALSE
        out = FALSE
        for i, d in split_indep(inner, v):
            if d is FALSE:
                continue
            if d is TRUE:
                out = bor(out, band(i, nonempty(dom)))
                continue
            for i2, qq in q(v, dom, mk("leaf", d)):
                out = bor(out, band(i, i2, atom(mk("any", qq))))
        return out
    return atom(mk("any", s))


def nonempty(dom):
    if dom.op == "elems":
        return truth(dom.args[0])
    return atom(mk("nonempty", dom))


def any_over(var, dom, g):
    out = FALSE
    if g is FALSE:
        return FALSE
    for i, d in split_indep(g, var):
        if d is FALSE:
            continue
        if d is TRUE:
            out = bor(out, band(i, nonempty(dom)))
            continue
        for i2, s in q(var, dom, mk("leaf", d)):
            out = bor(out, band(i, i2, any_q_raw(s)))
    return out


def any_q_raw(s):
    if s.op == "leaf":
        return s.args[0]
    return atom(mk("any", s))


def sum_over(var, dom, guard, body):
    """sum of body over var in dom where guard."""
    if body.op == "GV" or (body.op == "B"):
        r = ZERO
        for l, g in leaves(body):
            r = add(r, sum_over(var, dom, band(guard, g), l))
        return r
    r = ZERO
    for i, d in split_indep(guard, var):
        if d is FALSE or i is FALSE:
            continue
        part = ZERO
        for m, c in to_poly(body).items():
            ind = [f for f in m if var not in f.fv]
            dep = [f for f in m if var in f.fv]
            if len(dep) == 1 and dep[0].op == "sum":
                s = _sum_nest(var, dom, d, dep[0])
            else:
                core = from_poly({tuple(dep): Fraction(1)})
                s = ZERO
                for i2, seg in q(var, dom, mk("leaf", d, core)):
                    s = add(s, ite(i2, _mk_sum(seg), ZERO))
            x = mul(num(c), s)
            for f in ind:
                x = mul(x, f)
            part = add(part, x)
        r = add(r, ite(i, part, ZERO))
    return r


def _sum_nest(var, dom, d, s):
    out = ZERO
    for i2, seg in q(var, dom, guard_seg(s.args[0], d)):
        out = add(out, ite(i2, _mk_sum(seg), ZERO))
    return out


def _mk_sum(seg):
    if seg.op == "leaf":
        return ite(seg.args[0], seg.args[1], ZERO) if seg.args[0] is not TRUE else seg.args[1]
    # a plain count
    return mk("sum", seg)


def _sum_rebuild(seg):
    return sum_seg(seg)


def sum_seg(seg):
    """sum of the elements of a segment"""
    if seg.op == "leaf":
        return ite(seg.args[0], seg.args[1], ZERO)
    if seg.op == "gseg":
        return ite(seg.args[0], sum_seg(seg.args[1]), ZERO)
    if seg.op == "segs":
        r = ZERO
        for x in seg.args:
            r = add(r, sum_seg(x))
        return r
    if seg.op != "q":
        return mk("sum", seg)
    v = fresh()
    dom, lam = seg.args
    body = open_lam(lam, v)
    if body.op == "leaf":
        return sum_over(v, dom, body.args[0], body.args[1])
    return sum_over(v, dom, TRUE, sum_seg(body))


REBUILD["sum"] = _sum_rebuild


def _q_rebuild(dom, lam):
    v = fresh()
    r = q(v, dom, open_lam(lam, v))
    if len(r) == 1 and r[0][0] is TRUE:
        return r[0][1]
    if not r:
        return mk("leaf", FALSE, NONE)
    segs = [mk("gseg", i, s) if i is not TRUE else s for i, s in r]
    return segs[0] if len(segs) == 1 else mk("segs", *segs)


REBUILD["q"] = _q_rebuild


def maxmin(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)

    def go(*xs):
        xs2 = set()
        for x in xs:
            if x.op == op:
                xs2.update(x.args)
            else:
                xs2.add(x)
        nums = [x for x in xs2 if x.op == "num"]
        if len(nums) > 1:
            best = (max if op == "max" else min)(nums, key=lambda n: n.args[0])
            xs2 = {x for x in xs2 if x.op != "num"} | {best}
        if len(xs2) == 1:
            return next(iter(xs2))
        return mk(op, *sorted(xs2, key=lambda t: t.id))

    return lift(go, *flat)


REBUILD["max"] = lambda *a: maxmin("max", a)
REBUILD["min"] = lambda *a: maxmin("min", a)
REBUILD["tuple"] = lambda *a: mk("tuple", *a)


def _length(t):
    if t.op in ("tuple",):
        return num(len(t.args))
    if t.op == "list" and all(s.op == "leaf" and s.args[0] is TRUE for s in t.args):
        return num(len(t.args))
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "q":
        s = t.args[0]
        v = fresh()
        b = open_lam(s.args[1], v)
        if b.op == "leaf" and b.args[0] is TRUE:
            d = s.args[0]
            if d.op == "elems":
                return length(d.args[0])
            if d.op == "range":
                return sub(d.args[1], d.args[0])
    return mk("len", t)


def length(t):
    return lift(_length, t)


REBUILD["len"] = length


def fmt(parts):
    out = []
    for p in parts:
        if p.op == "fmt":
            out.extend(p.args)
        else:
            out.append(p)
    merged = []
    for p in out:
        if p.op == "str" and merged and merged[-1].op == "str":
            merged[-1] = string(merged[-1].args[0] + p.args[0])
        elif p.op == "str" and p.args[0] == "":
            continue
        elif p.op == "num" and p.args[0].denominator == 1:
            s = string(str(p.args[0]))
            if merged and merged[-1].op == "str":
                merged[-1] = string(merged[-1].args[0] + s.args[0])
            else:
                merged.append(s)
        else:
            merged.append(p)
    if not merged:
        return string("")
    if len(merged) == 1 and merged[0].op == "str":
        return merged[0]
    return mk("fmt", *merged)


REBUILD["fmt"] = lambda *a: lift(lambda *x: fmt(x), *a)

# ----------------------------------------------------------------- comparison modulo axioms


BUILTIN = {"list", "dict", "set", "str", "tuple", "int", "float", "bool", "RandomState", "DiGraph"}


def axioms(atoms):
    """Constraints between atoms that hold for every value."""
    ax = TRUE
    atoms = list(atoms)
    byterm = {}
    for a in atoms:
        if a.op in ("eq", "eqc"):
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if y.op in ("str", "num", "TRUE", "FALSE"):
                    byterm.setdefault(x, []).append(("c", y, a))
        elif a.op == "isnone":
            byterm.setdefault(a.args[0], []).append(("n", None, a))
        elif a.op == "truth":
            byterm.setdefault(a.args[0], []).append(("t", None, a))
        elif a.op in ("le0", "lt0", "eq0"):
            p = dict(to_poly(a.args[0]))
            k = p.pop((), Fraction(0))
            byterm.setdefault(("p", from_poly(p)), []).append((a.op, k, a))
        elif a.op == "isinstance":
            byterm.setdefault(a.args[0], []).append(("i", a.args[1].args[0] if a.args[1].op == "str" else None, a))
    # a single term compared with numbers: link x==c with truth/none of x
    for x, lst in list(byterm.items()):
        if isinstance(x, tuple):
            t = x[1]
            if t in byterm:
                for k1, c1, a1 in byterm[t]:
                    for op, k, a in lst:
                        if k1 == "n":
                            ax = band(ax, bnot(band(atom(a1), atom(a))) if op == "eq0" else TRUE)
                        if k1 == "t" and op == "eq0":
                            if k == 0:
                                # x == 0 -> not truth(x)
                                ax = band(ax, bnot(band(atom(a1), atom(a))))
                            else:
                                ax = band(ax, bor(atom(a1), bnot(atom(a))))
            for i in range(len(lst)):
                for j in range(len(lst)):
                    if i == j:
                        continue
                    o1, k1, a1 = lst[i]
                    o2, k2, a2 = lst[j]
                    # p + k1 R1 0 , p + k2 R2 0
                    A, B = atom(a1), atom(a2)
                    if o1 == "eq0" and o2 == "eq0":
                        ax = band(ax, bnot(band(A, B)))
                    elif o1 == "eq0":
                        v = -k1 + k2
                        holds = v <= 0 if o2 == "le0" else v < 0
                        ax = band(ax, bor(bnot(A), B if holds else bnot(B)))
                    elif o2 != "eq0":
                        # A: p <= -k1 (or <) ; implies B: p <= -k2 ?
                        if -k1 < -k2 or (-k1 == -k2 and (o2 == "le0" or o1 == "lt0")):
                            ax = band(ax, bor(bnot(A), B))
            d = {}
            for o, k, a in lst:
                d[(o, k)] = a
            for (o, k), a in d.items():
                if o == "eq0" and ("le0", k) in d and ("lt0", k) in d:
                    ax = band(ax, bor(bnot(atom(d[("le0", k)])), atom(d[("lt0", k)]), atom(a)))
            continue
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                k1, c1, a1 = lst[i]
                k2, c2, a2 = lst[j]
                A, B = atom(a1), atom(a2)
                ks = {k1, k2}
                if ks == {"c"} and c1 is not c2:
                    ax = band(ax, bnot(band(A, B)))
                elif ks == {"c", "n"} or ks == {"n", "t"}:
                    ax = band(ax, bnot(band(A, B)))
                elif ks == {"i"}:
                    if c1 in BUILTIN and c2 in BUILTIN and c1 != c2 and {c1, c2} != {"int", "bool"}:
                        ax = band(ax, bnot(band(A, B)))
                elif ks == {"n", "i"}:
                    ax = band(ax, bnot(band(A, B)))
                elif ks == {"c", "t"}:
                    c, t_ = ((c1, A), B) if k1 == "c" else ((c2, B), A)
                    if truth(c[0]) is TRUE:
                        ax = band(ax, bor(bnot(c[1]), t_))
                    else:
                        ax = band(ax, bnot(band(c[1], t_)))
    return ax


def equiv(a, b, care=TRUE):
    """booleans equal wherever care holds (modulo the axioms)"""
    if a is b:
        return True
    d = band(bite(a, bnot(b), b), care)
    if d is FALSE:
        return True
    d = band(d, axioms(support(d)))
    return d is FALSE


def implies(a, b, care=TRUE):
    d = band(a, bnot(b), care)
    if d is FALSE:
        return True
    return band(d, axioms(support(d))) is FALSE


def same(a, b, care=TRUE):
    """values equal wherever care holds"""
    if a is b:
        return True
    if is_bool(a) and is_bool(b):
        return equiv(a, b, care)
    for l1, g1 in leaves(a):
        for l2, g2 in leaves(b):
            if l1 is l2:
                continue
            d = band(g1, g2, care)
            if d is FALSE:
                continue
            if band(d, axioms(support(d))) is FALSE:
                continue
            return False
    return True


# ----------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "num":
        f = a[0]
        return str(f) if f.denominator == 1 else str(float(f))
    if o == "str":
        return repr(a[0])
    if o == "none":
        return "None"
    if o == "TRUE":
        return "True"
    if o == "FALSE":
        return "False"
    if o == "sym":
        return a[0]
    if o == "var":
        return "%s~%d" % a
    if o == "bv":
        return "b%d" % a[0]
    if o == "ext":
        return a[0]
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "item":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "na":
        return "%s(%s)" % (a[2].args[0] if a[2].op == "str" else show(a[2]), show(a[1], d)) + _gname(a[0], d)
    if o == "ea":
        return "%s(%s,%s)" % (a[3].args[0] if a[3].op == "str" else show(a[3]), show(a[1], d), show(a[2], d)) + _gname(a[0], d)
    if o == "ga":
        return "%s.graph[%s]" % (show(a[0], d), show(a[1], d))
    if o == "poly":
        s = []
        for m, c in a:
            ms = "*".join(show(x, d) for x in m)
            cs = str(c) if c.denominator == 1 else str(float(c))
            s.append(cs if not m else (ms if c == 1 else ("-" + ms if c == -1 else cs + "*" + ms)))
        return "(" + " + ".join(s) + ")"
    if o == "B":
        return show_bool(t, d)
    if o == "GV":
        return "{" + "; ".join("%s if %s" % (show(l, d), show(g, d)) for l, g in a) + "}"
    if o == "lam":
        return "b%d. %s" % (a[0], show(a[1], d))
    if o == "q":
        return "for %s in %s" % (show(a[1], d), show(a[0], d))
    if o == "leaf":
        g = "" if a[0] is TRUE else " if " + show(a[0], d)
        return ", ".join(show(x, d) for x in a[1:]) + g
    if o == "sum":
        return "SUM[%s]" % show(a[0], d)
    if o == "call":
        s = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0], d), ", ".join(s))
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "fmt":
        return "f'" + "".join(x.args[0] if x.op == "str" else "{" + show(x, d) + "}" for x in a) + "'"
    if o == "le0":
        return show(a[0], d) + "<=0"
    if o == "lt0":
        return show(a[0], d) + "<0"
    if o in ("eq0",):
        return show(a[0], d) + "==0"
    if o in ("eq", "eqc"):
        return "%s==%s" % (show(a[0], d), show(a[1], d))
    if o == "truth":
        return show(a[0], d)
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def _gname(g, d):
    s = show(g, d)
    return "" if s in ("self.G", "self.sub_G", "self._H", "G") else "@" + s


def show_bool(f, d=0):
    """sum of cubes, shortened"""
    cubes = []

    def go(g, lits):
        if len(cubes) > 6:
            return
        if g is TRUE:
            cubes.append(lits)
            return
        if g is FALSE:
            return
        v, hi, lo = g.args
        go(hi, lits + [show(v, d)])
        go(lo, lits + ["not " + show(v, d)])

    go(f, [])
    s = " or ".join("(" + " and ".join(c) + ")" if len(c) > 1 else (c[0] if c else "True") for c in cubes[:6])
    return s + (" or ..." if len(cubes) > 6 else "")

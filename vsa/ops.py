"""Containers, graphs and iteration domains on top of terms."""
from fractions import Fraction
from . import terms as T
from .terms import (mk, num, string, fresh, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, band, bor, bnot, ite, lift, eq, truth,
                    atom, leaves, gv, subst, open_lam, mk_lam, opaque, q)

EMPTYD = mk("dict")
EMPTYL = mk("list")
DEL = mk("ext", "<deleted>")
VARDOM = {}


def ext(n):
    return mk("ext", n)


def tup(*a):
    return mk("tuple", *a)


# ------------------------------------------------------------------ lists
def seg_list(segs):
    """list term from segments; adjacent leaves with disjoint guards are merged"""
    out = []
    for s in segs:
        if s.op == "leaf" and s.args[0] is FALSE:
            continue
        if s.op == "segs":
            out.extend(s.args)
            continue
        if out and s.op == "leaf" and out[-1].op == "leaf":
            p = out[-1]
            if len(p.args) == 2 and len(s.args) == 2 and p.args[0] is not TRUE and band(p.args[0], s.args[0]) is FALSE:
                out[-1] = mk("leaf", bor(p.args[0], s.args[0]), ite(p.args[0], p.args[1], s.args[1]))
                continue
        out.append(s)
    # [x for x in D] is D
    return mk("list", *out)


def listcat(*parts):
    """concatenation of list contents"""
    out = []
    for p in parts:
        ps = p.args if p.op == "concat" else (p,)
        for x in ps:
            if x.op == "list" and not x.args:
                continue
            if out and out[-1].op == "list" and x.op == "list":
                out[-1] = seg_list(out[-1].args + x.args)
            else:
                out.append(x)
    if not out:
        return EMPTYL
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def lappend(c, guard, x):
    return lift(lambda cc: listcat(cc if cc.op != "map" else cc, mk("list", mk("leaf", guard, x))), c, split_bool=False)


def guarded_list(c, guard):
    """the list c if guard else []"""
    if guard is TRUE:
        return c

    def go(cc):
        if cc.op == "list":
            segs = []
            for s in cc.args:
                g = T.guard_seg(s, guard)
                segs.append(g)
            return seg_list(segs)
        if cc.op == "concat":
            return listcat(*[go(x) for x in cc.args])
        return mk("list", mk("splice", guard, cc))
    return lift(go, c, split_bool=False)


def lextend(c, guard, other):
    return lift(lambda a, b: listcat(a, guarded_list(as_list(b), guard)), c, other, split_bool=False)


def as_list(v):
    """content normalised to a list-like term"""
    if v.op in ("list", "concat"):
        return v
    if v.op == "tuple":
        return mk("list", *[mk("leaf", TRUE, x) for x in v.args])
    if v.op == "dom":
        x = fresh()
        VARDOM[x] = v.args[0]
        return mk("list", *[s if i is TRUE else mk("gseg", i, s) for i, s in
                            q(x, v.args[0], mk("leaf", TRUE, dom_elem(v.args[0], x)))])
    return v


def plain(c):
    """elements of a literal list, or None"""
    if c.op == "tuple":
        return list(c.args)
    if c.op == "list" and all(s.op == "leaf" and s.args[0] is TRUE and len(s.args) == 2 for s in c.args):
        return [s.args[1] for s in c.args]
    return None


def literal(c):
    """entries of a dict display with constant keys, or None"""
    if c.op != "map" or c.args[0] is not EMPTYD or len(c.args) < 2:
        return None
    out = []
    for s in c.args[1:]:
        if s.op != "leaf" or s.args[0] is not TRUE or s.args[1].op not in ("str", "num") or len(s.args) != 3 or s.args[2] is DEL:
            return None
        out.append((s.args[1], s.args[2]))
    return out if len({k for k, _ in out}) == len(out) else None


# ------------------------------------------------------------------ maps (dicts, attribute maps, assigned lists)
def _key_of(lam_seg):
    """q(D, lam x. leaf(g, key, v)) with key == element -> (D, lam g, lam v) or None"""
    dom, lam = lam_seg.args
    v = fresh()
    b = open_lam(lam, v)
    if b.op != "leaf" or len(b.args) != 3:
        return None
    if b.args[1] is dom_elem(dom, v) or b.args[1] is v:
        return dom, v, b
    return None


def indom(k, dom):
    """k is an element of the domain"""
    if dom.op == "elems":
        return member(k, dom.args[0])
    if dom.op == "nodes":
        d = VARDOM.get(k)
        if d is not None and d is dom:
            return TRUE
        if k.op == "prj" and VARDOM.get(k.args[0]) is not None:
            d = VARDOM[k.args[0]]
            if d.op == "edges" and d.args[0] is dom.args[0]:
                return TRUE
        if d is not None and d.op in ("succ", "pred") and d.args[0] is dom.args[0]:
            return TRUE
        return atom(mk("in", k, dom))
    if dom.op == "edges":
        if k.op == "tuple" and len(k.args) == 2:
            a, b = k.args
            if a.op == "prj" and b.op == "prj" and a.args[0] is b.args[0] and VARDOM.get(a.args[0]) is dom:
                return TRUE
            return hasedge(dom, a, b)
    if dom.op == "range" and VARDOM.get(k) is dom:
        return TRUE
    return atom(mk("in", k, dom))


def hasedge(edom, a, b):
    for v, d in ((b, VARDOM.get(b)), (a, VARDOM.get(a))):
        if d is not None and len(edom.args) == 1 and d.op in ("succ", "pred") and d.args[0] is edom.args[0]:
            if d.op == "succ" and v is b and d.args[1] is a:
                return TRUE
            if d.op == "pred" and v is a and d.args[1] is b:
                return TRUE
    return lift(lambda x, y: atom(mk("hasedge", edom, x, y)), a, b)


def _sel(c, k):
    if c.op == "map":
        base, segs = c.args[0], list(c.args[1:])
        pend = []
        i = len(segs)
        res = None
        while i > 0:
            s = segs[i - 1]
            if s.op == "leaf":
                g, k2, v = s.args
                same = eq(k, k2)
                cond = band(same, g)
                if cond is not FALSE:
                    pend.append((cond, v))
                if cond is TRUE:
                    res = v
                    break
            else:
                r = _key_of(s) if s.op == "q" else None
                if r is None:
                    res = mk("sel", mk("map", base, *segs[:i]), k)
                    break
                dom, v0, b = r
                el = {v0: k} if b.args[1] is v0 else None
                if el is None:
                    # element is a tuple of projections
                    if k.op == "tuple" and len(k.args) == len(b.args[1].args):
                        el = {p: x for p, x in zip(b.args[1].args, k.args)}
                    else:
                        el = {mk("prj", v0, 0): sel(k, ZERO), mk("prj", v0, 1): sel(k, ONE)}
                g = subst(b.args[0], el)
                val = subst(b.args[2], el)
                cond = band(indom(k, dom), g)
                if cond is not FALSE:
                    pend.append((cond, val))
                if cond is TRUE:
                    res = val
                    break
            i -= 1
        if res is None:
            res = sel(base, k)
        for cond, v in reversed(pend):
            res = ite(cond, v, res)
        return res
    if c.op == "tuple" or c.op == "list":
        p = plain(c)
        if p is not None and k.op == "num" and k.args[0].denominator == 1:
            n = int(k.args[0])
            if -len(p) <= n < len(p):
                return p[n]
        if c.op == "list" and k.op == "num" and k.args[0] == -1 and c.args and c.args[-1].op == "leaf" and c.args[-1].args[0] is TRUE:
            return c.args[-1].args[1]
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "q":
            # [f(i) for i in range(n)][k]
            d, lam = c.args[0].args
            if d.op == "range" and d.args[0] is ZERO:
                v = fresh()
                b = open_lam(lam, v)
                if b.op == "leaf" and b.args[0] is TRUE and VARDOM.get(k) is not None and VARDOM[k].op == "range":
                    return subst(b.args[1], {v: k})
            if d.op == "elems":
                v = fresh()
                b = open_lam(lam, v)
                if b.op == "leaf" and b.args[0] is TRUE:
                    return subst(b.args[1], {v: sel(d.args[0], k)})
    if c.op == "concat" and k.op == "num" and k.args[0] == -1:
        return sel(c.args[-1], k)
    if c.op == "concat" and k.op == "num" and k.args[0] >= 0:
        p = plain(c.args[0])
        if p is not None and k.args[0] < len(p):
            return p[int(k.args[0])]
    if c.op == "sorted" and k is ZERO:
        return mk("argbest", *c.args)
    if c.op == "na0":
        return mk("na", c.args[0], k, c.args[1])
    if c.op == "ea0":
        if k.op == "tuple" and len(k.args) == 2:
            return mk("ea", c.args[0], k.args[0], k.args[1], c.args[1])
        return mk("ea", c.args[0], sel(k, ZERO), sel(k, ONE), c.args[1])
    if c.op == "ga0":
        return mk("ga", c.args[0], k)
    if c.op == "replist":
        # [x] * n
        p = plain(c.args[0])
        if p is not None and len(p) == 1:
            return p[0]
    if c.op == "dom":
        d = c.args[0]
        if d.op == "range":
            return T.add(d.args[0], k)
    if c.op == "slice":
        b, lo, hi = c.args
        if hi is NONE and k.op == "num" and k.args[0] < 0:
            return sel(b, k)
        if lo.op == "num" and lo.args[0] >= 0 and k.op == "num" and k.args[0] >= 0:
            return sel(b, T.add(lo, k))
    if c.op == "undef":
        return UNDEF
    if c.op == "tuple2":
        pass
    return mk("item", c, k)


def sel(c, k):
    return lift(_sel, c, k)


T.LIFTED["item"] = sel
T.REBUILD["sel"] = sel
T.REBUILD["na"] = lambda g, k, a: lift(lambda kk: mk("na", g, kk, a), k)
T.REBUILD["ea"] = lambda g, i, j, a: lift(lambda x, y: mk("ea", g, x, y, a), i, j)


def mapset(c, guard, k, v):
    """functional update c[k] = v where guard"""
    if guard is FALSE:
        return c

    def go(cc, kk):
        p = plain(cc) if cc.op == "list" else None
        if p is not None and kk.op == "num" and kk.args[0].denominator == 1 and -len(p) <= int(kk.args[0]) < len(p):
            n = int(kk.args[0]) % len(p)
            p[n] = ite(guard, v, p[n])
            return mk("list", *[mk("leaf", TRUE, x) for x in p])
        base, segs = (cc.args[0], list(cc.args[1:])) if cc.op == "map" else (cc, [])
        i = len(segs) - 1
        while i >= 0:
            s = segs[i]
            if s.op != "leaf":
                break
            if s.args[1] is kk:
                g2 = bor(s.args[0], guard)
                segs[i] = mk("leaf", g2, kk, ite(guard, v, s.args[2]))
                return mk("map", base, *segs)
            if eq(s.args[1], kk) is not FALSE:
                break
            i -= 1
        # constant keys commute: keep them sorted
        s = mk("leaf", guard, kk, v)
        j = len(segs)
        while j > 0 and segs[j - 1].op == "leaf" and segs[j - 1].args[1].op in ("str", "num") and kk.op in (
                "str", "num") and segs[j - 1].args[1].id > kk.id:
            j -= 1
        segs.insert(j, s)
        return mk("map", base, *segs)

    return lift(go, c, k)


def _map_rebuild(base, *segs):
    if base.op == "map":
        segs = base.args[1:] + segs
        base = base.args[0]
    r = base
    for s in segs:
        if s.op == "leaf":
            r = mapset(r, *s.args)
        elif s.op == "segs":
            r = mk("map", *((r.args if r.op == "map" else (r,)) + s.args))
        else:
            r = mk("map", *((r.args if r.op == "map" else (r,)) + (s,)))
    return r


T.REBUILD["map"] = _map_rebuild
T.REBUILD["list"] = lambda *a: seg_list(a)
T.REBUILD["concat"] = lambda *a: listcat(*a)


def _member(k, c):
    if c.op == "map":
        res = member(k, c.args[0])
        for s in c.args[1:]:
            if s.op == "leaf":
                g = band(s.args[0], eq(k, s.args[1]))
                if s.args[2] is DEL:
                    res = band(res, bnot(g))
                else:
                    res = bor(res, g)
            else:
                r = _key_of(s) if s.op == "q" else None
                if r is None:
                    res = bor(res, atom(mk("inq", k, s)))
                else:
                    dom, v0, b = r
                    if b.args[1] is v0:
                        el = {v0: k}
                    elif k.op == "tuple":
                        el = {p: x for p, x in zip(b.args[1].args, k.args)}
                    else:
                        el = {mk("prj", v0, 0): sel(k, ZERO), mk("prj", v0, 1): sel(k, ONE)}
                    res = bor(res, band(indom(k, dom), subst(b.args[0], el)))
        return res
    p = plain(c)
    if p is not None:
        return bor(*[eq(k, x) for x in p])
    if c.op == "dict" and not c.args:
        return FALSE
    if c.op in ("list", "set"):
        out = FALSE
        for s in c.args:
            if s.op == "leaf":
                out = bor(out, band(s.args[0], eq(k, s.args[1])))
            elif s.op == "q":
                d, lam = s.args
                v = fresh()
                b = open_lam(lam, v)
                if b.op == "leaf" and (b.args[1] is v or b.args[1] is dom_elem(d, v)):
                    if b.args[1] is v:
                        el = {v: k}
                    else:
                        el = {x: sel(k, num(i)) for i, x in enumerate(b.args[1].args)}
                    out = bor(out, band(indom(k, d), subst(b.args[0], el)))
                elif b.op == "leaf":
                    out = bor(out, T.any_over(v, d, band(b.args[0], eq(k, b.args[1]))))
                else:
                    out = bor(out, atom(mk("inq", k, s)))
            else:
                out = bor(out, atom(mk("inq", k, s)))
        return out
    if c.op == "concat":
        return bor(*[member(k, x) for x in c.args])
    if c.op == "dom":
        return indom(k, c.args[0])
    if c.op == "ea0" and k.op == "tuple":
        return atom(mk("in", k, c))
    if c.op in ("str", "fmt") and k.op == "str":
        if c.op == "str":
            return TRUE if k.args[0] in c.args[0] else FALSE
    if c.op == "setof":
        return member(k, c.args[0])
    d = VARDOM.get(k)
    if d is not None and d.op == "elems" and d.args[0] is c:
        return TRUE
    return atom(mk("in", k, c))


def member(k, c):
    return lift(_member, k, c)


def _in_rebuild(k, c):
    if c.op in ("nodes", "edges", "range", "succ", "pred", "elems"):
        return lift(lambda kk: indom(kk, c), k)
    return member(k, c)


T.LIFTED["in"] = _in_rebuild
T.REBUILD["hasedge"] = lambda d, a, b: hasedge(d, a, b)

# ------------------------------------------------------------------ domains
# elems(c) nodes(G[,s]) edges(G[,s]) succ(G,v[,s]) pred(G,v[,s]) range(lo,hi) consec(r) until(D,lam) pairs(..)
PAIRDOM = ("edges", "consec", "ziprow")


def dom_elem(dom, x):
    if dom.op in PAIRDOM:
        return tup(mk("prj", x, 0), mk("prj", x, 1))
    if dom.op == "until":
        return dom_elem(dom.args[0], x)
    return x


def strip_seq(c):
    """list(x), tuple(x), x.copy() have the elements of x"""
    while c.op in ("listof", "copyof"):
        c = c.args[0]
    return c


def _consec_of(a, b):
    """zip(a, b) walks consecutive elements of one sequence?"""
    def norm(t):
        if t.op == "slice":
            return t.args
        return (t, NONE, NONE)
    (ra, la, ha), (rb, lb, hb) = norm(a), norm(b)
    m1 = num(-1)
    if ra is rb and la in (NONE, ZERO) and lb is ONE and ha in (m1, NONE) and hb is NONE:
        return ra
    pa, pb = plain(a), plain(b)
    return None


def slice_(c, lo, hi, step=NONE):
    def go(cc, l, h):
        if step is not NONE and step is not ONE:
            return mk("slice3", cc, l, h, step)
        p = plain(cc)
        if p is not None and all(z is NONE or z.op == "num" for z in (l, h)):
            a = None if l is NONE else int(l.args[0])
            b = None if h is NONE else int(h.args[0])
            r = p[a:b]
            return tup(*r) if cc.op == "tuple" else mk("list", *[mk("leaf", TRUE, x) for x in r])
        if l is ZERO:
            l = NONE
        if h.op == "len" and h.args[0] is cc:
            h = NONE
        if h.op == "poly":
            d = T.sub(h, T.length(cc))
            if d.op == "num" and d.args[0] < 0:
                h = d
        if l is NONE and h is NONE:
            return cc
        return mk("slice", cc, l, h)
    return lift(go, c, lo, hi)


T.REBUILD["slice"] = lambda c, l, h: slice_(c, l, h)


def maxof(op, c):
    def go(cc):
        p = plain(cc)
        if p:
            return T.maxmin(op, p)
        parts = cc.args if cc.op == "concat" else (cc,)
        vals, rest = [], []
        for x in parts:
            if x.op == "list":
                for s in x.args:
                    if s.op == "leaf" and s.args[0] is TRUE:
                        vals.append(s.args[1])
                    else:
                        rest.append(mk("list", s))
            else:
                rest.append(x)
        if not vals and len(rest) == 1:
            return mk(op + "of", rest[0])
        return T.maxmin(op, vals + [mk(op + "of", r) for r in rest])
    return lift(go, c, split_bool=False)


T.REBUILD["maxof"] = lambda c: maxof("max", c)
T.REBUILD["minof"] = lambda c: maxof("min", c)


def sum_list(c):
    def go(cc):
        if cc.op in ("list", "tuple"):
            r = ZERO
            for s in cc.args:
                r = T.add(r, s if cc.op == "tuple" else (T.sum_seg(s) if s.op in ("leaf", "q", "gseg") else _sum_splice(s)))
            return r
        if cc.op == "concat":
            r = ZERO
            for x in cc.args:
                r = T.add(r, sum_list(x))
            return r
        if cc.op == "dom":
            return sum_list(as_list(cc))
        if cc.op in ("listof", "copyof"):
            return sum_list(cc.args[0])
        x = fresh()
        VARDOM[x] = mk("elems", cc)
        return T.sum_over(x, mk("elems", cc), TRUE, x)
    return lift(go, c, split_bool=False)


def _sum_splice(s):
    return ite(s.args[0], sum_list(s.args[1]), ZERO)


def fix_list(c):
    """[x for x in xs] -> xs"""
    if c.op == "list" and len(c.args) == 1 and c.args[0].op == "q":
        d, lam = c.args[0].args
        v = fresh()
        b = open_lam(lam, v)
        if b.op == "leaf" and b.args[0] is TRUE and b.args[1] is dom_elem(d, v):
            if d.op == "elems":
                return mk("listof", d.args[0]) if False else d.args[0]
            return mk("dom", d)
    return c


# replace index loops by element loops ---------------------------------------
def deindex(x, dom, ts):
    """x ranges over indices of a sequence and is used only to index it:
    returns (newvar, newdom, substitution) or None"""
    if dom.op != "range":
        return None
    lo, hi = dom.args
    cands = set()
    for t in ts:
        if x in t.fv:
            for s in T.subterms(t):
                if s.op == "item" and x in s.args[1].fv:
                    o = T.sub(s.args[1], x)
                    if x not in o.fv:
                        cands.add((s.args[0], o))
    if not cands:
        return None
    seqs = {c for c, _ in cands}
    for s in sorted(seqs, key=lambda t: t.id):
        if x in s.fv:
            continue
        offs = {o for c, o in cands if c is s}
        n = T.length(s)
        y = fresh("e")
        if lo is ZERO and hi is n and offs == {ZERO}:
            m = {mk("item", s, x): y}
            nd = mk("elems", s)
        elif lo is ZERO and T.sub(n, hi) is ONE and offs <= {ZERO, ONE}:
            m = {mk("item", s, x): mk("prj", y, 0), mk("item", s, T.add(x, ONE)): mk("prj", y, 1)}
            nd = mk("consec", s)
        elif lo is ONE and hi is n and offs <= {ZERO, num(-1)} and num(-1) in offs:
            m = {mk("item", s, T.add(x, num(-1))): mk("prj", y, 0), mk("item", s, x): mk("prj", y, 1)}
            nd = mk("consec", s)
        elif lo is ONE and hi is n and offs == {ZERO}:
            m = {mk("item", s, x): y}
            nd = mk("elems", mk("slice", s, ONE, NONE))
        else:
            continue
        if all(x not in subst(t, m).fv for t in ts):
            VARDOM[y] = nd
            return y, nd, m
    return None


def _domnorm_index(var, dom, seg):
    r = deindex(var, dom, [seg])
    if r is None:
        return None
    y, nd, m = r
    return y, nd, subst(seg, m)


def _domnorm_list(var, dom, seg):
    """iteration over a built list: fuse"""
    if dom.op == "elems":
        c = strip_seq(dom.args[0])
        if c.op == "dom":
            return _rebind(var, c.args[0], seg)
        if c is not dom.args[0]:
            return var, mk("elems", c), seg
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "q":
            return var, mk("qdom", c.args[0]), seg
        if c.op == "map" and c.args[0] is EMPTYD and len(c.args) == 2 and c.args[1].op == "q":
            s = c.args[1]
            return var, mk("qdom", _keyseg(s)), seg
    return None


def _keyseg(s):
    if s.op == "leaf":
        return mk("leaf", s.args[0], s.args[1])
    v = fresh()
    r = q(v, s.args[0], _keyseg(open_lam(s.args[1], v)))
    if len(r) == 1 and r[0][0] is TRUE:
        return r[0][1]
    return s


def _rebind(var, dom, seg):
    if dom.op in PAIRDOM:
        y = fresh("e")
        VARDOM[y] = dom
        return y, dom, subst(seg, {var: dom_elem(dom, y)})
    return var, dom, seg


T.DOMNORM.append(_domnorm_list)
T.DOMNORM.append(_domnorm_index)
T.REBUILD["elems"] = lambda c: lift(lambda x: mk("elems", strip_seq(x)), c)

"""Comparison of a code summary with the reference summary of the same unit."""
from . import terms as T
from .terms import TRUE, FALSE, NONE, band, bor, bnot, mk, subst


class Diff:
    def __init__(self, unit, kind, tags, what, spec_loc, code_loc, spec_txt="", code_txt="", status="differs"):
        self.unit, self.kind, self.tags, self.what = unit, kind, set(tags), what
        self.spec_loc, self.code_loc, self.spec_txt, self.code_txt = spec_loc, code_loc, spec_txt, code_txt
        self.status = status

    def __repr__(self):
        return "%s [%s] %s: expected %s, found %s (%s)" % (self.unit, ",".join(sorted(self.tags)), self.what,
                                                           self.spec_txt[:300], self.code_txt[:300], self.code_loc)


# ----------------------------------------------------------------- generalised cofactor
def constrain(f, c, memo):
    if c is TRUE or f.op != "B":
        return f
    key = (f, c)
    r = memo.get(key)
    if r is not None:
        return r
    v = f.args[0]
    if c.op == "B" and c.args[0].id < v.id:
        w = c.args[0]
        c1, c0 = c.args[1], c.args[2]
        if c1 is FALSE:
            r = constrain(f, c0, memo)
        elif c0 is FALSE:
            r = constrain(f, c1, memo)
        else:
            r = constrain(f, bor(c1, c0), memo)
    else:
        if c.op == "B" and c.args[0] is v:
            c1, c0 = c.args[1], c.args[2]
        else:
            c1 = c0 = c
        if c1 is FALSE:
            r = constrain(f.args[2], c0, memo)
        elif c0 is FALSE:
            r = constrain(f.args[1], c1, memo)
        else:
            hi, lo = constrain(f.args[1], c1, memo), constrain(f.args[2], c0, memo)
            r = T.bite(T.atom(v), hi, lo)
    memo[key] = r
    return r


def under(t, care):
    """simplify every condition inside t by what holds around it"""
    if care is TRUE or care is FALSE:
        return t
    atoms = set(T.support(care))
    memo, cm = {}, {}

    def go(x):
        if not isinstance(x, T.T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "B":
            r = constrain(x, care, cm) if band(x, care) is not FALSE else FALSE
            if r.op == "B":
                r = T.rebuild("B", tuple(go2(y) for y in r.args))
        elif x.op == "GV":
            ps = []
            for l, g in x.args:
                if band(g, care) is FALSE:
                    continue
                g2 = constrain(g, care, cm)
                ps.append((go(l), g2))
            r = T.gv(ps)
        elif x.op in ("var", "bv", "num", "str", "sym"):
            r = x
        else:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else T.rebuild(x.op, na) if x.op != "lam" else _lam(x, na)
        memo[x] = r
        return r

    def go2(y):
        return y if y in (TRUE, FALSE) or y.op != "B" and y.op not in ("any", "nonempty") else y

    def _lam(x, na):
        if na[1].h + 1 == x.args[0]:
            return mk("lam", *na)
        return x
    return go(t)


def canon(e, care=TRUE):
    m, doms = {}, []
    for i, (v, d) in enumerate(e.quants):
        nv = mk("var", "Q", -(i + 1))
        doms.append(subst(d, m))
        m[v] = nv
    g = subst(e.guard, m)
    p = subst(e.payload, m)
    doms = [under(d, g) for d in doms]
    return e.kind, under(p, g), tuple(doms), g


def bag(events, care=TRUE):
    out = {}
    for e in events:
        k, p, d, g = canon(e)
        lst = out.setdefault((k, p, d), [])
        for i, (g2, es) in enumerate(lst):
            if k in ("raise", "set") or band(g, g2) is FALSE or T.implies(band(g, g2), FALSE):
                lst[i] = (bor(g, g2), es + [e])
                break
        else:
            lst.append((g, [e]))
    return out


def txt(t, n=400):
    return T.show(t)[:n]


def evtxt(k, g):
    kind, p, d = k
    s = "%s %s" % (kind, txt(p))
    if d:
        s += " for " + " for ".join(txt(x, 120) for x in d)
    if g is not TRUE:
        s += " if " + txt(g, 300)
    return s


def terms_of(s):
    out = [s.ret]
    for e in s.events:
        out += [e.payload, e.guard] + [d for _, d in e.quants]
    out += [v for _, v, _ in s.finals.values()]
    return out


def keyname(k):
    return ":".join(T.show(x)[:80] if isinstance(x, T.T) else str(x) for x in k)


def alltags(suite, fn):
    t = suite.tags[fn.mod.path]
    out = set()
    for ln in range(fn.node.lineno, fn.node.end_lineno + 1):
        out |= t.get(ln, set())
    return out


def rettags(suite, fn):
    import ast
    t = suite.tags[fn.mod.path]
    out, seen = set(), False

    def walk(n):
        nonlocal seen
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.Return, ast.Yield)):
                seen = True
                out.update(t.get(c.lineno, set()))
            walk(c)
    walk(fn.node)
    if not seen:
        out |= t.get(fn.node.lineno, set())
    return out


def compare(suite, q, ss, cs, known, given=TRUE):
    """list of differences of the unit q (reference summary ss, code summary cs)"""
    f = suite.sfn[q][0]
    diffs = []
    care = band(bnot(ss.raises), bnot(cs.raises), given)
    nobl = 0
    path = cs.fn.mod.path
    cloc = (path, cs.fn.line, cs.fn.qual)
    count = {}

    def tally(tags, n=1):
        for t in tags:
            count[t] = count.get(t, 0) + n
    suite.tagged[q] = count
    # defaults
    diffs += defaults(suite, q, cs.fn)
    # return value
    rt = rettags(suite, f)
    pend = []
    if rt:
        nobl += 1
        tally(rt)
        if not same(ss.ret, cs.ret, care):
            pend.append(("ret", None, rt, ss.ret, cs.ret, (f.mod.path, f.line, q), cloc))
    # final state
    for k in sorted(set(ss.finals) | set(cs.finals), key=keyname):
        a, b = ss.finals.get(k), cs.finals.get(k)
        if k[0] in ("v", "lp"):
            continue
        if a is not None:
            tags = set()
            for w in a[2]:
                tags |= suite.linetags(w)
            if not tags:
                continue
            nobl += 1
            tally(tags)
        else:
            if not known(k):
                continue
            tags = alltags(suite, f)
            if not tags:
                continue
        va = a[1] if a is not None else b[0]
        vb = b[1] if b is not None else a[0]
        if same(va, vb, care):
            continue
        loc = b[2][-1] if b is not None and b[2] else cloc
        sl = a[2][-1] if a is not None and a[2] else (f.mod.path, f.line, q)
        pend.append(("state", k, tags, va, vb, sl, loc))
    # events
    A, B = bag(ss.events), bag(cs.events)
    ua, ub = [], []
    for k in set(A) | set(B):
        la, lb = list(A.get(k, ())), list(B.get(k, ()))
        cr = given if k[0] == "raise" else care
        for ga, ea in la:
            tags = set()
            for e in ea:
                for l in e.locs if getattr(e, "locs", None) else [e.loc]:
                    tags |= suite.linetags(l)
            nobl += bool(tags)
            tally(tags)
        for ga, ea in list(la):
            for gb, eb in list(lb):
                if T.equiv(ga, gb, cr):
                    la.remove((ga, ea))
                    lb.remove((gb, eb))
                    break
        ua += [(k, g, es) for g, es in la if not vac(g, cr)]
        ub += [(k, g, es) for g, es in lb if not vac(g, cr)]
    return pend, ua, ub, care, nobl, diffs


def vac(g, care):
    return T.implies(band(g, care), FALSE)


def same(a, b, care):
    if a is b:
        return True
    if T.same(a, b, care):
        return True
    if care is not TRUE:
        x, y = under(a, care), under(b, care)
        return x is y or T.same(x, y, care)
    return False


def defaults(suite, q, g):
    import ast
    from .suite import table
    f = suite.sfn[q][0]
    out = []
    odd = {x[0] for x in suite.odd.get(q, ())}

    def val(v, mod, prog):
        if isinstance(v, ast.Name):
            r = prog.lookup(mod, v.id)
            if r is not None and r[0] == "const":
                v = r[1]
        try:
            return repr(ast.literal_eval(v))
        except Exception:
            return None if not isinstance(v, ast.Constant) else ast.dump(v)
    a, b = table(f), table(g)
    tags = suite.tags[f.mod.path].get(f.line, set())
    if not tags:
        return out
    for k in set(a) | set(b):
        va = val(a[k], f.mod, suite.spec) if k in a else "<required>"
        vb = val(b[k], g.mod, suite.code) if k in b else "<required>"
        if va is None or vb is None or va == vb:
            continue
        if k not in a:
            continue
        nm = k if isinstance(k, str) else (f.params[k] if k < len(f.params) else str(k))
        if nm in odd:
            continue
        out.append(Diff(q, "default", tags, "default of parameter %s" % nm, (f.mod.path, f.line, q),
                        (g.mod.path, g.line, g.qual), va, vb))
    return out

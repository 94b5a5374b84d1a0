"""Calls: builtins, container/graph/LP methods, repository functions (inlined or as units)."""
import ast
from . import terms as T
from . import ops as O
from .terms import (mk, num, string, fresh, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, band, bor, bnot, ite, lift, eq, truth,
                    atom, leaves, gv, subst, mk_lam, opaque, is_bool)
from .ops import sel, mapset, member, tup, ext, EMPTYD, EMPTYL, VARDOM, plain
from .ev import Frame, Closure, SELF, SIGS, PURE_METHODS

LOGM = {"debug", "info", "warning", "error", "exception", "critical", "log", "warn"}


UNITS = {}      # functions the reference has, by their name in the program analysed

def is_logger(v):
    return (v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].startswith("logging.")) or (
        v.op == "ext" and (v.args[0].startswith("logging") or v.args[0].startswith("warnings")))


def do_call(ev, e):
    f = e.func
    if isinstance(f, ast.Attribute):
        if f.attr in LOGM:
            r = ev.ev(f.value)
            if is_logger(r):
                return NONE
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            fr = ev.frames[-1]
            if fr.cls is None:
                return opaque("super")
            after = fr.fn.cls
            m = ev.prog.method(fr.cls, f.attr, after=after)
            args, kw = eval_args(ev, e)
            if m is None:
                return NONE
            return call_repo(ev, m, fr.selfv, fr.cls, args, kw)
        recv = ev.simpv(ev.ev(f.value))
        # a callable stored in an attribute is handled by call_value below
        return method(ev, recv, f.attr, e)
    if isinstance(f, ast.Name):
        if f.id == "print":
            return NONE
        if f.id == "super":
            fr = ev.frames[-1]
            return mk("super", fr.selfv or NONE, fr.fn.cls.name if fr.fn.cls else "")
    fv = ev.simpv(ev.ev(f))
    args, kw = eval_args(ev, e)
    return call_value(ev, fv, args, kw, e)


def eval_args(ev, e):
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = ev.ev(a.value)
            p = plain(ev.cont(v))
            if p is None:
                ps = [(plain(ev.cont(l)), g) for l, g in leaves(v)]
                if len(ps) > 1 and all(x is not None and len(x) == len(ps[0][0]) for x, _ in ps):
                    p = [gv([(x[i], g) for x, g in ps]) for i in range(len(ps[0][0]))]
            if p is None:
                args.append(mk("star", ev.resolve(ev.cont(v))))
            else:
                args.extend(p)
        else:
            args.append(ev.ev(a))
    kw = {}
    for k in e.keywords:
        v = ev.ev(k.value)
        if k.arg is None:
            c = ev.cont(v)
            if c.op == "map" and c.args[0] is EMPTYD and all(s.op == "leaf" and s.args[1].op == "str" for s in c.args[1:]):
                for s in c.args[1:]:
                    kw[s.args[1].args[0]] = s.args[2]
            elif c is not EMPTYD:
                kw["**"] = c
        else:
            kw[k.arg] = v
    return args, kw


def call_value(ev, fv, args, kw, e=None):
    if fv.op == "GV":
        out = []
        l0, x0 = ev.live, ev.ctx
        for l, g in fv.args:
            ev.live = band(l0, g)
            ev.ctx = band(x0, g)
            if ev.live is FALSE:
                continue
            out.append((call_value(ev, l, args, kw, e), g))
        ev.live, ev.ctx = l0, x0
        return gv(out)
    if fv.op == "closure":
        return call_closure(ev, ev.closures[fv], args, kw)
    if fv.op == "fnref":
        fn = ev.prog.funcs[fv.args[0]]
        return call_repo(ev, fn, None, None, args, kw)
    if fv.op == "cls":
        return construct(ev, ev.prog.classes[fv.args[0]], args, kw)
    if fv.op == "unbound":
        c = ev.prog.classes[fv.args[0]]
        m = ev.prog.method(c, fv.args[1])
        if m.static:
            return call_repo(ev, m, None, c, args, kw)
        if m.clsm:
            return call_repo(ev, m, mk("cls", c.name), c, args, kw)
        if args:
            fr = ev.frames[-1]
            return call_repo(ev, m, args[0], fr.cls if args[0] is fr.selfv and fr.cls else c, args[1:], kw)
    if fv.op == "attr" and isinstance(fv.args[0], T.T) and fv.args[1] in PURE_METHODS:
        return method_v(ev, fv.args[0], fv.args[1], args, kw, e)
    if fv.op == "bound":
        return method_v(ev, fv.args[0], fv.args[1], args, kw, e)
    if fv.op == "lamterm":
        r = fv.args[0]
        for a in args:
            r = T.open_lam(r, a)
        return r
    if fv.op == "view" and fv.args[0] in ("nodes", "edges"):
        r = method_v(ev, fv.args[1], fv.args[0], args, kw, e)
        if r is not None:
            return r
    if fv.op == "ext":
        return ext_call(ev, fv.args[0], args, kw)
    if fv.op == "partial":
        return call_value(ev, fv.args[0], list(fv.args[1]) + args, {**dict(fv.args[2]), **kw}, e)
    if fv.op == "var" or any(x.op == "bound" for x in T.subterms(fv)):
        raise TypeError("call of a computed function")
    t = mk("call", fv, tuple(ev.val(a) for a in args), tuple(sorted((k, ev.val(v)) for k, v in kw.items())))
    ev.emit("call", t)
    return t


def lam_of(ev, fv, n=1):
    """function value as a lam term over n arguments"""
    vs = [fresh("a") for _ in range(n)]
    l0 = ev.live
    ev.live = TRUE
    n0 = len(ev.events)
    r = call_value(ev, fv, list(vs), {})
    ev.live = l0
    r = ev.resolve(r)
    for v in reversed(vs):
        r = mk_lam(v, r)
    return r


# ---------------------------------------------------------------- repository functions
def spread(ev, args, names, opt, kw):
    """f(*x) for a function of n parameters none of which is optional unpacks n items"""
    free = [p for p in names if p not in kw]
    n = len(free) - (len(args) - 1)
    if sum(x.op == "star" for x in args) != 1 or n < 0 or "**" in kw or opt & set(free):
        return None
    out = []
    for x in args:
        out += [ev.getitem(x.args[0], num(i)) for i in range(n)] if x.op == "star" else [x]
    return out


def bind(ev, fn, selfv, args, kw, closure=None):
    """param -> value"""
    a = fn.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    rest = list(args)
    if selfv is not None and not fn.static and fn.cls is not None and ps:
        out[ps[0]] = selfv
        ps = ps[1:]
    kw = dict(kw)
    if any(x.op == "star" for x in rest):
        opt = {x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]}
        rest = spread(ev, rest, ps, opt, kw)
        if rest is None or a.vararg:
            return None
    for p in ps:
        if rest:
            out[p] = rest.pop(0)
        elif p in kw:
            out[p] = kw.pop(p)
    if rest:
        if a.vararg:
            out[a.vararg.arg] = tup(*rest)
        else:
            return None
    elif a.vararg:
        out[a.vararg.arg] = tup()
    for x in a.kwonlyargs:
        if x.arg in kw:
            out[x.arg] = kw.pop(x.arg)
    if a.kwarg:
        m = EMPTYD
        for k, v in kw.items():
            m = mapset(m, TRUE, string(k), v)
        out[a.kwarg.arg] = m
        kw = {}
    if kw:
        return None
    allp = a.posonlyargs + a.args
    for x, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
        if x.arg not in out:
            out[x.arg] = default(ev, fn, d, closure, x.arg)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in out and d is not None:
            out[x.arg] = default(ev, fn, d, closure, x.arg)
    for p in ps:
        if p not in out:
            return None
    return out


def default(ev, fn, d, closure, p=None):
    alt = ev.dflt.get((fn.qual, p))
    if alt is not None:
        fn, d, closure = alt[0], alt[1], None
    f = Frame(fn, None, closure.frame if closure else None)
    f.mod = fn.mod
    ev.frames.append(f)
    try:
        return ev.ev(d)
    finally:
        ev.frames.pop()


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def call_repo(ev, fn, selfv, cls, args, kw, inline=False):
    u = ev.units.get(fn.qual)
    b = bind(ev, fn, selfv, args, kw)
    if b is None:
        ev.notes.append("cannot bind arguments of %s" % fn.qual)
        return opaque("bind " + fn.qual)
    ev.calls_seen.add(fn.qual)
    for p, d in ev.extra.get(fn.qual, ()):
        # an argument the reference does not know: follow the call
        if u is not None and b.get(p) is not default(ev, fn, d, None):
            u = None
    if u is not None and not inline and fn.cls is not None and selfv is None and not fn.static:
        u = None
    if u is not None and not inline:
        return unit_call(ev, u, fn, selfv, b)
    if len(ev.frames) > 14 or sum(1 for f in ev.frames if f.fn is fn) > 1:
        ev.notes.append("recursive call of %s" % fn.qual)
        return opaque("recursion " + fn.qual)
    return run_inline(ev, fn, selfv, cls, b, None)


def run_inline(ev, fn, selfv, cls, b, parent, node=None):
    ev.inlined.add(fn.qual)
    fr = Frame(fn, cls, parent, selfv if fn.cls is not None else (parent.selfv if parent else None))
    if parent is not None:
        fr.cls = parent.cls
        fr.mod = parent.mod
    for k, v in b.items():
        ev.st[("e", fr.id, k)] = v
    body = (node or fn.node).body
    ev.frames.append(fr)
    l0, x0, line = ev.live, ev.ctx, ev.line
    ev.ctx = band(ev.ctx, ev.live)
    gen = None
    if not isinstance(node, ast.Lambda) and has_yield(fn.node):
        gen = ev.newref("list", EMPTYL)
        ev.st[("e", fr.id, "<yield>")] = gen
    nl = set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
    fr.nonlocals = nl
    ev.st[("ret", fr.id)] = UNDEF
    if isinstance(node, ast.Lambda):
        r = ev.ev(node.body)
    else:
        ev.block(body)
        g = band(ev.live, bnot(fr.raised))
        r = ev.st[("ret", fr.id)]
        if r is UNDEF:
            r = NONE
        elif g is not FALSE and band(g, l0) is not FALSE:
            r = ite(band(g, l0), NONE, r)
        r = ev.dropundef(ev.dropundef(r))
        r = T.prune(r, l0) if r.op == "GV" else r
    ev.frames.pop()
    ev.live, ev.ctx, ev.line = l0, x0, line
    # local names are dead
    for k in [k for k in ev.st if k[0] in ("e", "ret") and k[1] == fr.id]:
        if not any(c.frame is fr for c in ev.closures.values()):
            del ev.st[k]
    if ev.frames and fr.raised is not FALSE:
        ev.frames[-1].raised = bor(ev.frames[-1].raised, fr.raised)
    return gen if gen is not None else r


def call_closure(ev, c, args, kw):
    if isinstance(c.node, ast.Lambda):
        from .front import Fn
        if c.fn is None:
            nd = ast.FunctionDef(name="<lambda>", args=c.node.args, body=[], decorator_list=[], lineno=c.node.lineno)
            c.fn = Fn(c.frame.mod, nd, None)
        b = bind(ev, c.fn, None, args, kw, c)
        if b is None:
            return opaque("lambda args")
        return run_inline(ev, c.fn, None, None, b, c.frame, c.node)
    b = bind(ev, c.fn, None, args, kw, c)
    if b is None:
        return opaque("closure args")
    if sum(1 for f in ev.frames if f.fn is c.fn) > 1:
        return opaque("recursion")
    return run_inline(ev, c.fn, None, None, b, c.frame)


def keydesc(k):
    return ":".join(T.show(x) if isinstance(x, T.T) else str(x) for x in k)


def translate(ev, k, selfv, b, names):
    """a state key of a callee expressed in the caller"""
    if k[0] == "lp":
        return k
    m = {}
    for p, q in names:
        m[mk("sym", q)] = ev.resolve(b[p]) if b[p].op != "ref" else b[p]
    t = k[1]
    for s in T.subterms(t):
        if s.op == "attr" and s.args[0] is SELF and selfv is not None:
            m[s] = ev.attr(selfv, s.args[1]) if not (("a", selfv, s.args[1]) in ev.st) else ev.st[("a", selfv, s.args[1])]
    if selfv is not None:
        m[SELF] = selfv
    t2 = subst(t, m)
    return (k[0], t2) + tuple(k[2:])


def unit_call(ev, u, fn, selfv, b):
    ps, kwo, va, ka = fn.sig()
    more = {p for p, _ in ev.extra.get(fn.qual, ())}
    names = list(zip(ps, u.params)) + [(p, p) for p in kwo if p not in more]
    if va:
        names.append((va, va))
    args = tuple(ev.val(b.get(p, UNDEF)) for p, _ in names)
    snap = []
    here = band(ev.ctx, ev.live, *[bnot(f.raised) for f in ev.frames])
    for k in sorted(u.reads, key=keydesc):
        try:
            k2 = translate(ev, k, selfv, b, names)
        except KeyError:
            continue
        for kk in splitkey(k2):
            v = ev.st.get(kk[0])
            if v is not None:
                v = T.prune(ev.resolve(v), here)
                if v is not ev.init(kk[0]) and not (k[0] == "c" and v in args):
                    snap.append((string(keydesc(k)), v))
            elif kk[0][0] in ("a", "c", "na", "ea", "ga", "g", "lp"):
                ev.reads.add(kk[0])
    t = mk("ucall", u.qual, args, tuple(snap))
    if u.effect or u.mods:
        ev.emit("call", t)
    for k in sorted(u.mods, key=keydesc):
        try:
            k2 = translate(ev, k, selfv, b, names)
        except KeyError:
            continue
        for kk, g in splitkey(k2):
            old = ev.st.get(kk)
            if old is None:
                old = ev.init(kk)
            post = mk("post", u.qual, keydesc(k))
            if k in u.kept and k not in u.reads:
                if old is ev.init(kk):
                    ev.kept.add(kk)
                elif not any(f.loops for f in ev.frames):
                    post = mk("post", u.qual, keydesc(k), T.prune(ev.resolve(old), here))
            ev.st[kk] = ite(band(ev.live, g), post, old)
            ev.writers.setdefault(kk, []).append(ev.loc())
    if u.raises:
        pass
    if u.retnone:
        return NONE
    return mk("ret", t)


def splitkey(k):
    if len(k) > 1 and isinstance(k[1], T.T) and k[1].op == "GV":
        return [((k[0], l) + tuple(k[2:]), g) for l, g in k[1].args if l is not NONE]
    return [(k, TRUE)]


def class_sig(ev, c):
    m = ev.prog.method(c, "__init__")
    if m is None:
        return [], {}, m
    ps, kwo, va, ka = m.sig()
    dflt = {}
    a = m.node.args
    allp = a.posonlyargs + a.args
    for x, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
        dflt[x.arg] = (m, d)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dflt[x.arg] = (m, d)
    names = list(ps)
    if va:
        b = ev.prog.method(c, "__init__", after=m.cls)
        if b is not None:
            bp = b.sig()[0]
            names += bp
            ba = b.node.args
            ball = ba.posonlyargs + ba.args
            for x, d in zip(ball[len(ball) - len(ba.defaults):], ba.defaults):
                dflt.setdefault(x.arg, (b, d))
    return names, dflt, m, kwo


def construct(ev, c, args, kw):
    # exceptions and the like
    r = class_sig(ev, c)
    if r[-1] is None or r[2] is None:
        return mk("new", mk("cls", c.name), tuple(ev.val(a) for a in args), ())
    names, dflt, m, kwo = r
    out, rest, kw = {}, list(args), dict(kw)
    if any(x.op == "star" for x in rest):
        rest = spread(ev, rest, names, set(dflt), kw) or rest
    for p in names:
        if rest:
            out[p] = rest.pop(0)
        elif p in kw:
            out[p] = kw.pop(p)
        elif p in dflt:
            out[p] = default(ev, dflt[p][0], dflt[p][1], None, p)
    for p in kwo:
        if p in kw:
            out[p] = kw.pop(p)
        elif p in dflt:
            out[p] = default(ev, dflt[p][0], dflt[p][1], None, p)
    if rest or kw or any(x.op == "star" for x in out.values()):
        ev.notes.append("arguments of %s" % c.name)
        return opaque("new " + c.name)
    for p, d in ev.extra.get(m.qual, ()):
        out.pop(p, None)
    out = {p: snaparg(ev, v) for p, v in out.items()}
    for p in out:
        if p in dflt and out[p].op in ("list", "dict", "num", "str", "none") and not out[p].args or out[p] in (EMPTYL, EMPTYD):
            d = snaparg(ev, default(ev, dflt[p][0], dflt[p][1], None, p)) if p in dflt else out[p]
            if d is not out[p] and sameinit(ev, m, p, out[p], d):
                out[p] = d
    t = mk("new", mk("cls", c.name), tuple((string(p), v) for p, v in sorted(out.items())))
    ev.calls_seen.add(c.name)
    return t


def sameinit(ev, m, p, a, d):
    """the constructor leaves the same object behind for p=a and p=d"""
    u = ev.info(m.qual) if ev.info is not None else None
    if u is None or u.summary is None or u.effect or getattr(u.summary, "failed", True):
        return False
    ps = m.sig()[0]
    x = mk("sym", u.params[ps.index(p)] if p in ps and ps.index(p) < len(u.params) else p)
    return all(subst(v, {x: a}) is subst(v, {x: d}) for _, v, _ in u.summary.finals.values())


def snaparg(ev, v):
    v = ev.val(v)

    def go(l):
        if ev.is_graph(l):
            return ev.snapg(l)
        c = ev.st.get(("c", l))
        return ev.resolve(c) if c is not None else l
    return lift(go, v, split_bool=False)


# ---------------------------------------------------------------- methods
def typeof(ev, t):
    if t.op == "new":
        return {t.args[0].args[0]}
    if t.op == "GV":
        s = set()
        for l, _ in t.args:
            s |= typeof(ev, l)
        return s
    if t.op == "ret":
        u = ev.units.get(t.args[0].args[0])
        return set(u.types) if u else set()
    if t.op == "attr" and t.args[0] is SELF:
        cls = next((f.cls for f in reversed(ev.frames) if f.cls), None)
        return field_types(ev.prog, cls, t.args[1]) if cls else set()
    if t.op == "after":
        return typeof(ev, t.args[0])
    if t.op == "post" and t.args[1].startswith("a:self:"):
        cls = next((f.cls for f in reversed(ev.frames) if f.cls), None)
        return field_types(ev.prog, cls, t.args[1].split(":")[2]) if cls else set()
    return set()


_ft = {}


def field_types(prog, cls, n):
    key = (prog.label, cls.name, n)
    if key in _ft and False:
        return _ft[key]
    s = set()
    for c in prog.mro(cls):
        for m in c.methods.values():
            for nd in ast.walk(m.node):
                if isinstance(nd, (ast.Assign, ast.AnnAssign)):
                    ts = nd.targets if isinstance(nd, ast.Assign) else [nd.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute) and t.attr == n:
                            for x in ast.walk(nd):
                                if isinstance(x, ast.Name) and x.id in prog.classes:
                                    s.add(x.id)
    return s


def method(ev, recv, n, e):
    # evaluate attribute-held callables first
    if recv.op == "GV":
        ls = [(l, g) for l, g in recv.args if l is not NONE and l is not UNDEF]
        if len(ls) > 1:
            out = []
            l0, x0 = ev.live, ev.ctx
            for l, g in ls:
                ev.live, ev.ctx = band(l0, g), band(x0, g)
                if ev.live is FALSE:
                    continue
                out.append((method(ev, l, n, e), g))
            ev.live, ev.ctx = l0, x0
            return gv(out)
        if ls:
            recv = ls[0][0]
    if recv.op == "ext":
        fv = ev.attr(recv, n)
        args, kw = eval_args(ev, e)
        return call_value(ev, fv, args, kw, e)
    if recv.op in ("modref", "cls"):
        fv = ev.attr(recv, n)
        args, kw = eval_args(ev, e)
        return call_value(ev, fv, args, kw, e)
    if n == "addConstraint" and ev.is_lp(recv) and e.args:
        ev.lpadd(recv, e.args[0])
        return NONE
    args, kw = eval_args(ev, e)
    return method_v(ev, recv, n, args, kw, e)


def method_v(ev, o, n, args, kw, e=None):
    fr = ev.frames[-1]
    # user object
    if o is SELF or (fr.selfv is not None and o is fr.selfv):
        k = ("a", o, n)
        if k in ev.st:
            return call_value(ev, ev.st[k], args, kw, e)
        m = ev.prog.method(fr.cls, n) if fr.cls else None
        if m is not None:
            if m.is_prop:
                return call_value(ev, ev.attr(o, n), args, kw, e)
            return call_repo(ev, m, o, fr.cls, args, kw)
        t = mk("mcall", o, n, tuple(ev.val(a) for a in args), tuple(sorted((k, ev.val(v)) for k, v in kw.items())))
        ev.emit("call", t)
        return t
    if o.op == "super":
        m = ev.prog.method(fr.cls, n, after=ev.prog.classes.get(o.args[1]))
        if m is not None:
            return call_repo(ev, m, fr.selfv, fr.cls, args, kw)
        return NONE
    if o.op == "view":
        r = view_method(ev, o, n, args, kw)
        if r is not None:
            return r
    r = graph_method(ev, o, n, args, kw)
    if r is not None:
        return r
    r = lp_method(ev, o, n, args, kw)
    if r is not None:
        return r
    types = typeof(ev, o)
    if not types:
        r = container_method(ev, o, n, args, kw, e)
        if r is not None:
            return r
    if o.op in ("str", "fmt"):
        r = str_method(ev, o, n, args, kw)
        if r is not None:
            return r
    # foreign object
    pos, kws = bind_foreign(ev, types, n, args, kw)
    t = mk("mcall", o, n, tuple(ev.val(a) for a in pos), tuple(sorted((k, ev.val(v)) for k, v in kws.items())))
    if types or n not in PURE_METHODS:
        ver = ev.simpv(ev.get(("v", o)))
        # linear programs handed over: the call sees their present state and leaves another
        lps = [a for a in list(pos) + list(kws.values()) if types and ev.is_lp(a)]
        state = tuple(x for x in (ev.simpv(ev.get(("v", a))) for a in lps) if x not in lps)
        tail = (ver,) + ((tup(*state),) if state else ()) if ver is not o or state else ()
        bump = mutates(ev, types, n)
        if bump:
            c = ev.occ.get(t, 0) + 1
            ev.occ[t] = c
            ev.emit("call", mk("mcall", o, n, t.args[2], t.args[3], *tail))
            if c > 1:
                t = mk("again", t, c)
            ev.put(("v", o), mk("after", o, n))
        else:
            ev.emit("call", t)
            if types:
                t = mk("mcall", o, n, t.args[2], t.args[3], *tail)
        if n in ("solve", "resolve"):
            ev.put(("lp",), mk("after", o, n))
        for a in lps:
            ev.put(("v", a), mk("after", a, n))
            ev.put(("lp",), mk("after", a, n))
    return t


def mutates(ev, types, n):
    if not types or ev.info is None:
        return True
    for c in types:
        cls = ev.prog.classes.get(c)
        m = ev.prog.method(cls, n) if cls else None
        if m is None:
            return True
        u = ev.info(m.qual)
        if u is None or u.mods or u.effect:
            return True
    return False


def bind_foreign(ev, types, n, args, kw):
    if not types:
        return args, kw
    outs = []
    for c in sorted(types):
        cls = ev.prog.classes.get(c)
        m = ev.prog.method(cls, n) if cls else None
        if m is None:
            continue
        b = bind(ev, m, mk("sym", "?"), args, kw)
        if b is None:
            continue
        ps, kwo, va, ka = m.sig()
        # drop trailing defaults that were not given
        outs.append([b[p] for p in ps if p in b] if len(args) + len(kw) >= len([p for p in ps]) else
                    [b[p] for p in ps if p in b])
    if not outs:
        return args, kw
    # the given arguments must land in the same places
    k = len(args) + len(kw)
    first = outs[0]
    best = min(outs, key=len)
    if all(o[:len(best)] == best for o in outs):
        return best, {}
    return args, kw


def view_method(ev, o, n, args, kw):
    kind, G = o.args[0], o.args[1]
    data = kw.get("data")
    if n == "__call__":
        return None
    if kind == "nodes":
        if n == "data":
            return nodes_call(ev, G, TRUE if not args else args[0])
        if n == "items":
            return nodes_call(ev, G, TRUE)
        if n == "keys":
            return ev.nodesdom(G)
    if kind == "edges":
        if n in ("data",):
            return edges_call(ev, G, TRUE if not args else args[0])
        if n == "items":
            x = fresh()
            d = ev.edgesdom(G).args[0]
            el = O.dom_elem(d, x)
            return mk("itv", d, mk_lam(x, tup(el, mk("view", "edge", G, el))))
        if n == "keys":
            return ev.edgesdom(G)
    if kind in ("node", "edge", "graph"):
        if n == "get":
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            return ite(ev.viewin(args[0], o), ev.viewget(o, args[0]), d)
        if n == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            c = ev.viewin(args[0], o)
            ev.setitem1(o, args[0], d, band(ev.live, bnot(c)))
            return ev.viewget(o, args[0])
        if n == "update":
            for k, v in kw.items():
                ev.setitem1(o, string(k), v, ev.live)
            for a in args:
                c = ev.cont(a)
                if c.op == "map" and c.args[0] is EMPTYD and all(s.op == "leaf" for s in c.args[1:]):
                    for s in c.args[1:]:
                        ev.setitem1(o, s.args[1], s.args[2], band(ev.live, s.args[0]))
                else:
                    ev.notes.append("update of attributes")
            return NONE
        if n == "pop":
            r = ev.viewget(o, args[0])
            ev.setitem1(o, args[0], O.DEL, ev.live)
            return r
    return None


def nodes_call(ev, G, data):
    d = ev.nodesdom(G).args[0]
    x = fresh()
    if data is TRUE:
        return mk("itv", d, mk_lam(x, tup(x, mk("view", "node", G, x))))
    if data.op == "str":
        return mk("itv", d, mk_lam(x, tup(x, sel(ev.get(("na", G, data.args[0])), x))))
    return mk("dom", d)


def edges_call(ev, G, data):
    d = ev.edgesdom(G).args[0]
    x = fresh()
    el = O.dom_elem(d, x)
    if data is TRUE:
        return mk("itv", d, mk_lam(x, tup(*el.args, mk("view", "edge", G, el))))
    if data.op == "str":
        return mk("itv", d, mk_lam(x, tup(*el.args, sel(ev.get(("ea", G, data.args[0])), el))))
    return mk("dom", d)


GM = {"nodes", "edges", "successors", "predecessors", "neighbors", "has_edge", "has_node", "add_edge", "add_node",
      "remove_edge", "remove_node", "remove_edges_from", "remove_nodes_from", "add_edges_from", "add_nodes_from",
      "to_directed", "edge_subgraph", "subgraph", "out_edges", "in_edges", "number_of_nodes", "number_of_edges",
      "order", "size", "get_edge_data", "in_degree", "out_degree", "add_weighted_edges_from", "adjacency", "has_successor",
      "has_predecessor"}


def gop(ev, G, seg):
    """structural change of a graph"""
    key = ("g", G)
    c = ev.get(key)
    ev.st[key] = O.listcat(c, mk("list", T.guard_seg(seg, ev.live)))
    ev.writers.setdefault(key, []).append(ev.loc())


def over(ev, v, f):
    """segments for every element of v"""
    r = ev.iteration(ev.listval(v) if ev.cont(v).op in ("list", "concat", "itv") else v)
    if r[0] == "unroll":
        out = []
        for e in r[1]:
            g = TRUE
            if isinstance(e, tuple):
                g, e = e
            out.append(T.guard_seg(f(e), g))
        return out
    x = fresh()
    VARDOM[x] = r[1]
    g = r[3](x) if r[0] == "domg" else TRUE
    return [s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], T.guard_seg(f(r[2](x)), g))]


def opleaf(name, *a):
    return mk("leaf", TRUE, mk("gop", name, *a))


def graph_method(ev, o, n, args, kw):
    if n == "copy" and ev.is_graph(o):
        return mk("gcopy", ev.snapg(o))
    if n not in GM:
        return None
    if n == "nodes":
        return nodes_call(ev, o, kw.get("data", args[0] if args else FALSE))
    if n == "edges":
        nb = kw.get("nbunch")
        d = kw.get("data")
        if args and args[0] in (TRUE,):
            d = TRUE
        elif args and not d and nb is None and args[0] is not FALSE:
            nb = args[0]
        if nb is not None and nb is not NONE:
            return outedges(ev, o, nb, d)
        return edges_call(ev, o, d if d is not None else FALSE)
    if n == "out_edges":
        if args:
            return outedges(ev, o, args[0], kw.get("data", args[1] if len(args) > 1 else None))
        return edges_call(ev, o, kw.get("data", FALSE))
    if n == "in_edges":
        if args:
            return outedges(ev, o, args[0], kw.get("data", args[1] if len(args) > 1 else None), True)
        return edges_call(ev, o, kw.get("data", FALSE))
    if n in ("successors", "neighbors"):
        return ev.succdom(o, args[0])
    if n == "predecessors":
        return ev.preddom(o, args[0])
    if n == "has_edge":
        return O.hasedge(ev.edgesdom(o).args[0], args[0], args[1])
    if n == "has_successor":
        return O.hasedge(ev.edgesdom(o).args[0], args[0], args[1])
    if n == "has_predecessor":
        return O.hasedge(ev.edgesdom(o).args[0], args[1], args[0])
    if n == "has_node":
        return O.indom(args[0], ev.nodesdom(o).args[0])
    if n in ("number_of_nodes", "order"):
        return T.length(ev.nodesdom(o))
    if n in ("number_of_edges", "size"):
        return T.length(ev.edgesdom(o))
    if n == "get_edge_data":
        return mk("view", "edge", o, tup(args[0], args[1]))
    if n == "in_degree" and args:
        return T.length(ev.preddom(o, args[0]))
    if n == "out_degree" and args:
        return T.length(ev.succdom(o, args[0]))
    if n == "to_directed":
        return mk("gtod", ev.snapg(o))
    if n in ("edge_subgraph", "subgraph"):
        return mk("gsub", n, ev.snapg(o), ev.val(ev.listval(args[0])))
    if n == "add_edge":
        u, v = args[0], args[1]
        gop(ev, o, opleaf("add", u, v))
        for k, x in kw.items():
            ev.setitem1(mk("view", "edge", o, tup(u, v)), string(k), x, ev.live)
        return NONE
    if n == "add_node":
        gop(ev, o, opleaf("addn", args[0]))
        for k, x in kw.items():
            ev.setitem1(mk("view", "node", o, args[0]), string(k), x, ev.live)
        return NONE
    if n == "remove_edge":
        gop(ev, o, opleaf("del", args[0], args[1]))
        return NONE
    if n == "remove_node":
        gop(ev, o, opleaf("deln", args[0]))
        return NONE
    if n == "remove_edges_from":
        for s in over(ev, args[0], lambda e: opleaf("del", ev.getitem(e, ZERO), ev.getitem(e, ONE))):
            gop(ev, o, s)
        return NONE
    if n == "remove_nodes_from":
        for s in over(ev, args[0], lambda e: opleaf("deln", e)):
            gop(ev, o, s)
        return NONE
    if n == "add_edges_from":
        for s in over(ev, args[0], lambda e: opleaf("add", ev.getitem(e, ZERO), ev.getitem(e, ONE))):
            gop(ev, o, s)
        for k, x in kw.items():
            ev.notes.append("edge attributes")
        return NONE
    if n == "add_nodes_from":
        for s in over(ev, args[0], lambda e: opleaf("addn", e)):
            gop(ev, o, s)
        return NONE
    return None


def outedges(ev, o, v, data, into=False):
    d = (ev.preddom if into else ev.succdom)(o, v).args[0]
    x = fresh()
    el = tup(x, v) if into else tup(v, x)
    if data is TRUE:
        return mk("itv", d, mk_lam(x, tup(*el.args, mk("view", "edge", o, el))))
    if data is not None and data.op == "str":
        return mk("itv", d, mk_lam(x, tup(*el.args, sel(ev.get(("ea", o, data.args[0])), el))))
    if data not in (None, FALSE, NONE):
        return opaque("edge data")
    return mk("itv", d, mk_lam(x, el))


def lp_method(ev, o, n, args, kw):
    if n == "value" and not args:
        return lift(lambda z: mk("lpval", z, ev.get(("lp",))), o)
    if not ev.is_lp(o):
        return None
    if n == "deepcopy" or n == "copy":
        return mk("lpcopy", o)
    if n in ("setObjective",):
        ev.emit("call", mk("mcall", o, n, tuple(ev.val(a) for a in args), ()))
        return NONE
    if n == "addConstraint":
        v = args[0]
        ev.lpadd_val(o, ev.ascon(v) if v.op == "B" else v)
        return NONE
    if n == "variables":
        return mk("mcall", o, "variables", (), ())
    return None


# ---------------------------------------------------------------- containers
def container_method(ev, o, n, args, kw, e):
    if n in ("append", "add") and len(args) == 1 and not kw:
        kindset = o.op == "ref" and o.args[0] == "set" or n == "add"
        ev.mutate_list(o, lambda c, g: O.lappend(c, g, args[0]))
        return NONE
    if n == "extend" and len(args) == 1:
        if ev.is_lp(o) or o.op == "sym" and o.args[0] == "prob":
            return None
        ev.mutate_list(o, lambda c, g: O.lextend(c, g, ev.listval(args[0])))
        return NONE
    if n == "insert" and len(args) == 2:
        if args[0] is ZERO:
            ev.mutate_list(o, lambda c, g: lift(lambda cc: O.listcat(mk("list", mk("leaf", g, args[1])), cc), c, split_bool=False))
        else:
            ev.mutate_list(o, lambda c, g: ite(g, mk("insert", c, args[0], args[1]), c))
        return NONE
    if n == "appendleft" and len(args) == 1:
        ev.mutate_list(o, lambda c, g: lift(lambda cc: O.listcat(mk("list", mk("leaf", g, args[0])), cc), c, split_bool=False))
        return NONE
    if n in ("remove", "discard") and len(args) == 1:
        ev.mutate_list(o, lambda c, g: lift(lambda cc: O.listcat(cc, mk("list", mk("removed", g, args[0]))), c, split_bool=False))
        return NONE
    if n == "clear" and not args:
        ev.mutate_list(o, lambda c, g: ite(g, EMPTYD if o.op == "ref" and o.args[0] == "dict" else EMPTYL, c))
        return NONE
    if n == "pop":
        c = ev.cont(o)
        if len(args) == 2:
            r = ite(member(args[0], c), sel(c, args[0]), args[1])
        else:
            r = sel(c, args[0] if args else num(-1))
        if len(args) == 2 or args and args[0].op != "num" or c.op == "map":
            ev.mutate_list(o, lambda c, g: mapset(c, g, args[0], O.DEL))
        else:
            ev.mutate_list(o, lambda c, g: ite(g, mk("popped", c, *args[:1]), c))
        return r
    if n == "update" and (args or kw) and not ev.frames[-1].cls is None and o.op != "ref" and ev.cont(o).op not in ("map", "dict") and len(args) == 1 and ev.cont(args[0]).op not in ("map", "dict"):
        return None
    if n == "update":
        for k, v in kw.items():
            ev.setitem(o, string(k), v)
        for a in args:
            c = ev.cont(a)
            if c.op == "map" and c.args[0] is EMPTYD:
                for s in c.args[1:]:
                    def f(cc, g, s=s):
                        if s.op == "leaf":
                            return mapset(cc, band(g, s.args[0]), s.args[1], s.args[2])
                        return mk("map", *((cc.args if cc.op == "map" else (cc,)) + (T.guard_seg(s, g),)))
                    ev.mutate_list(o, f)
            elif c is not EMPTYD:
                ev.mutate_list(o, lambda cc, g: ite(g, mk("mapcat", cc, c), cc))
        return NONE
    if n == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        c = ev.cont(o)
        inn = member(args[0], c)
        for l, g in leaves(o):
            gg = band(ev.live, g, bnot(inn))
            if gg is not FALSE:
                ev.setitem1(l, args[0], d, gg)
        return ev.getitem(o, args[0])
    if n == "get" and args:
        c = ev.cont(o)
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        return ite(member(args[0], c), ev.getitem(o, args[0]), d)
    if n in ("items", "values") and not args:
        lit = O.literal(ev.cont(o))
        if lit is not None:
            return ev.newref("list", mk("list", *[mk("leaf", TRUE, tup(k, v) if n == "items" else v) for k, v in lit]))
    if n == "items" and not args:
        c = ev.cont(o)
        r = ev.domain(c)
        x = fresh()
        VARDOM[x] = r[1]
        k = r[2](x)
        if r[0] == "domg":
            return ev.newref("list", mk("list", *[s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", r[3](x), tup(k, sel(c, k))))]))
        return mk("itv", r[1], mk_lam(x, tup(k, sel(c, k))))
    if n == "values" and not args:
        c = ev.cont(o)
        r = ev.domain(c)
        x = fresh()
        VARDOM[x] = r[1]
        k = r[2](x)
        if r[0] == "domg":
            return ev.newref("list", mk("list", *[s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", r[3](x), sel(c, k)))]))
        return mk("itv", r[1], mk_lam(x, sel(c, k)))
    if n == "keys" and not args:
        return o
    if n == "copy" and not args:
        c = ev.cont(o)
        if o.op == "ref":
            return ev.newref(o.args[0], c)
        return mk("copyof", c)
    if n == "deepcopy":
        return mk("deepcopy", ev.val(o))
    if n == "sort" and o.op == "ref":
        k = kw.get("key", NONE)
        ev.mutate_list(o, lambda c, g: ite(g, mk_sorted(ev, c, kw), c))
        return NONE
    if n == "index":
        return lift(lambda c, a: mk("index", c, a), ev.cont(o), args[0])
    if n == "count" and args:
        return mk("count", ev.cont(o), ev.val(args[0]))
    if (n in ("union", "intersection", "difference") or n in ("issubset", "isdisjoint", "issuperset") and len(args) == 1) and args:
        r = o
        for a in args:
            r = ev.setop(n, r, a)
        return r
    return None


def str_method(ev, o, n, args, kw):
    if n == "format" and o.op == "str":
        txt = o.args[0]
        parts, i, k = [], 0, 0
        import re
        for m in re.finditer(r"\{([^{}]*)\}", txt):
            parts.append(string(txt[i:m.start()]))
            i = m.end()
            s = m.group(1).split(":")[0]
            if s == "":
                parts.append(args[k] if k < len(args) else UNDEF)
                k += 1
            elif s.isdigit():
                parts.append(args[int(s)])
            elif s in kw:
                parts.append(kw[s])
            else:
                parts.append(opaque("format"))
        parts.append(string(txt[i:]))
        return lift(lambda *a: T.fmt(a), *parts)
    if n in ("startswith", "endswith"):
        return atom(mk(n, o, args[0]))
    if n == "join":
        return mk("join", o, ev.val(ev.listval(args[0])))
    return None


def mk_sorted(ev, c, kw):
    k = kw.get("key", NONE)
    rev = kw.get("reverse", FALSE)
    kl = NONE if k is NONE else lam_of(ev, k)
    rev = T.truth(rev)
    return lift(lambda z: mk("sorted", z, kl, rev), c, split_bool=False)


# ---------------------------------------------------------------- external functions
def posargs(name, args, kw):
    sig = SIGS.get(name)
    out, rest, kw = [], list(args), dict(kw)
    if any(a.op == "star" for a in args):
        return None
    for p, d in sig:
        if rest:
            out.append(rest.pop(0))
        elif p in kw:
            out.append(kw.pop(p))
        elif d is None:
            return None
        else:
            out.append(d)
    if rest or kw:
        return None
    return out


def ext_call(ev, name, args, kw):
    if name == "collections.defaultdict" and len(args) == 1 and not kw:
        r = ev.newref("dict", EMPTYD)
        ev.ddict[r] = args[0]
        return r
    if name == "collections.Counter" and not args and not kw:
        r = ev.newref("dict", EMPTYD)
        ev.ddict[r] = None
        return r
    if name == "collections.OrderedDict" and not args and not kw:
        return ev.newref("dict", EMPTYD)
    if name == "numpy.random.RandomState" and len(args) == 1 and not kw:
        none = T.isnone(args[0])
        if none is TRUE:
            args = []
        elif none is not FALSE:
            return ite(none, mk("call", ext(name), (), ()), mk("call", ext(name), (args[0],), ()))
    if name.startswith("builtins."):
        r = builtin(ev, name[9:], args, kw)
        if r is not None:
            return r
    if name.startswith("logging") or name.startswith("warnings"):
        if name.endswith("getLogger"):
            return mk("call", ext(name), (), ())
        return NONE
    if name in ("pulp.lpSum", "pulp.pulp.lpSum"):
        return O.sum_list(seqv(ev, args[0]))
    if name == "pulp.lpDot":
        return builtin(ev, "sum", [zipmul(ev, args[0], args[1])], {})
    if name in ("pulp.value",):
        return lift(lambda z: mk("lpval", z, ev.get(("lp",))), ev.val(args[0]))
    if name == "pulp.LpVariable":
        p = posargs(name, args, kw)
        if p is None:
            return opaque("LpVariable")
        return lpvar(ev, *p)
    if name == "pulp.LpVariable.dicts" or name == "pulp.LpVariable.dict":
        p = posargs("pulp.LpVariable.dicts", args, kw)
        if p is None:
            return opaque("LpVariable.dicts")
        return lpdicts(ev, *p)
    if name == "networkx.DiGraph":
        if args:
            return mk("gnew", ev.val(args[0]))
        m = EMPTYD
        for k, v in kw.items():
            m = mapset(m, TRUE, string(k), v)
        return ev.newref("graph", m)
    if name == "networkx.add_path":
        G, path = args[0], args[1]
        c = O.strip_seq(ev.cont(path))
        p = plain(c)
        if p is not None:
            for a, b in zip(p[:-1], p[1:]):
                gop(ev, G, opleaf("add", a, b))
                for k, x in kw.items():
                    ev.setitem1(mk("view", "edge", G, tup(a, b)), string(k), x, ev.live)
        else:
            x = fresh()
            d = mk("consec", ev.val(c))
            VARDOM[x] = d
            for i, s in T.q(x, d, opleaf("add", mk("prj", x, 0), mk("prj", x, 1))):
                gop(ev, G, s if i is TRUE else mk("gseg", i, s))
        return NONE
    if name == "networkx.set_node_attributes" or name == "networkx.set_edge_attributes":
        ev.notes.append(name)
        return NONE
    if name in ("itertools.pairwise", "networkx.utils.pairwise", "networkx.pairwise", "more_itertools.pairwise"):
        return mk("dom", mk("consec", O.strip_seq(ev.val(ev.cont(args[0])))))
    if name == "itertools.chain":
        c = EMPTYL
        for a in args:
            c = O.lextend(c, TRUE, ev.listval(a))
        return ev.newref("list", c)
    if name == "itertools.chain.from_iterable" and plain(ev.cont(args[0])) is not None:
        c = EMPTYL
        for a in plain(ev.cont(args[0])):
            c = O.lextend(c, TRUE, ev.listval(a))
        return ev.newref("list", c)
    if name == "itertools.islice" and len(args) == 2:
        return mk("call", ext(name), tuple(ev.val(ev.cont(a)) for a in args), ())
    if name in ("copy.copy", "copy.deepcopy"):
        if ev.is_lp(args[0]):
            return mk("lpcopy", args[0])
        if name == "copy.copy":
            c = ev.cont(args[0])
            return mk("copyof", c) if args[0].op != "ref" else ev.newref(args[0].args[0], c)
        if ev.is_graph(args[0]):
            return mk("gtod", ev.snapg(args[0]))
        return mk("deepcopy", ev.val(args[0]))
    if name == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if name == "operator.itemgetter" and len(args) == 1:
        v = fresh()
        return mk("lamterm", mk_lam(v, sel(v, args[0])))
    if name == "operator.attrgetter" and len(args) == 1 and args[0].op == "str":
        v = fresh()
        return mk("lamterm", mk_lam(v, mk("attr", v, args[0].args[0])))
    if name in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
        if name.endswith("defaultdict"):
            r = ev.newref("dict", EMPTYD)
            ev.origin_dd = getattr(ev, "origin_dd", {})
            return opaque("defaultdict")
        return ev.newref("dict", EMPTYD) if not args else opaque(name)
    if name in ("collections.deque",):
        return ev.newref("list", ev.listval(args[0]) if args else EMPTYL)
    if name in ("bisect.insort", "bisect.insort_right", "bisect.insort_left"):
        ev.mutate_list(args[0], lambda c, g: ite(g, mk("insort", c, args[1]), c))
        return NONE
    if name in ("random.shuffle",):
        ev.mutate_list(args[0], lambda c, g: ite(g, mk("shuffled", c), c))
        return NONE
    if name in ("math.floor", "math.ceil", "math.trunc", "math.fabs", "numpy.floor", "numpy.ceil", "numpy.abs", "numpy.absolute") and len(args) == 1 and not kw:
        x = ev.val(args[0])
        if name.endswith("floor"):
            return lift(lambda z: mk("floordiv", z, ONE), x)
        if name.endswith("ceil"):
            return T.neg(lift(lambda z: mk("floordiv", z, ONE), T.neg(x)))
        return lift(lambda z: mk("int" if name.endswith("trunc") else "abs", z) if z.op != "num" else
                    num(int(z.args[0]) if name.endswith("trunc") else abs(z.args[0])), x)
    if name in ("math.sqrt",):
        return mk("call", ext(name), (ev.val(args[0]),), ())
    if name in SIGS:
        p = posargs(name, args, kw)
        if p is not None:
            return mk("call", ext(name), tuple(snaparg(ev, a) for a in p), ())
    if name in ("time.time", "time.perf_counter", "time.monotonic"):
        # the clock moves on between one unit and another
        at = next((UNITS[f.fn.qual] for f in reversed(ev.frames[1:]) if f.fn.qual in UNITS), None)
        return mk("call", ext(name), () if at is None else (mk("str", at),), ())
    if name == "numpy.zeros":
        return mk("replist", mk("list", mk("leaf", TRUE, ZERO)), ev.val(args[0]))
    return liftcall(ev, name, args, kw)


def liftcall(ev, name, args, kw):
    return mk("call", ext(name), tuple(snaparg(ev, ev.cont(a) if a.op != "ref" else a) for a in args),
              tuple(sorted((k, snaparg(ev, v)) for k, v in kw.items())))


def zipmul(ev, a, b):
    z = builtin(ev, "zip", [a, b], {})
    r = ev.domain(ev.cont(z))
    x = fresh()
    VARDOM[x] = r[1]
    p = r[2](x)
    return ev.newref("list", mk("list", *[s for i, s in T.q(x, r[1], mk("leaf", TRUE, T.mul(sel(p, ZERO), sel(p, ONE))))]))


def lpvar(ev, name, lo, up, cat, e):
    def go(c):
        if c.op == "str" and c.args[0] == "Binary":
            return mk("lpvar", ev.val(name), ZERO, ONE, string("Integer"), ev.val(e))
        return mk("lpvar", ev.val(name), ev.val(lo), ev.val(up), c, ev.val(e))
    return lift(go, cat)


def lpdicts(ev, name, idx, lo, up, cat, start):
    c = ev.cont(idx)
    dims = list(c.args) if c.op == "tuple" else [idx]

    def build(ds, parts):
        r = ev.iteration(ev.simpv(ds[0]))
        if r[0] == "unroll":
            m = EMPTYD
            for e in r[1]:
                if isinstance(e, tuple):
                    e = e[1]
                m = mapset(m, TRUE, e, inner(ds, parts + [e]))
            return m
        x = fresh()
        VARDOM[x] = r[1]
        k = r[2](x)
        v = inner(ds, parts + [k])
        g = r[3](x) if r[0] == "domg" else TRUE
        return mk("map", EMPTYD, *[s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", g, k, v))])

    def inner(ds, parts):
        if len(ds) > 1:
            return build(ds[1:], parts)
        nm = [name]
        for p in parts:
            nm += [string("_"), p]
        return lpvar(ev, T.fmt(nm), lo, up, cat, NONE)
    return ev.newref("dict", build(dims, []))


def seqv(ev, v):
    """list content of an iterable argument"""
    return ev.listval(v)


def builtin(ev, n, args, kw):
    if n == "len":
        v = args[0]

        def go(l):
            if ev.is_graph(l):
                return T.length(ev.nodesdom(l))
            if l.op == "view":
                r = ev.domain(l)
                return T.length(mk("dom", r[1]))
            c = ev.seqc(l)
            if c.op == "GV":
                return lift(lambda z: lenof(O.strip_seq(z)), c, split_bool=False)
            if c.op == "itv":
                return T.length(mk("dom", c.args[0]))
            if c.op == "list" and not plain(c):
                c = O.fix_list(c)
            return lenof(O.strip_seq(c))
        return lift(go, v, split_bool=False)
    if n == "sum":
        r = O.sum_list(seqv(ev, args[0]))
        st = args[1] if len(args) > 1 else kw.get("start")
        return T.add(r, st) if st is not None else r
    if n in ("max", "min"):
        key = kw.get("key")
        if key is not None and key is not NONE:
            if len(args) > 1:
                c = mk("list", *[mk("leaf", TRUE, a) for a in args])
            else:
                c = seqv(ev, args[0])
            kl = lam_of(ev, key)
            return lift(lambda z: mk("argbest", O.fix_list(z), kl, TRUE if n == "max" else FALSE), c, split_bool=False)
        if len(args) > 1:
            return T.maxmin(n, args)
        c = seqv(ev, args[0])
        r = O.maxof(n, ev.resolve(c))
        if "default" in kw:
            return ite(truth(c), r, kw["default"])
        return r
    if n in ("any", "all"):
        c = ev.listval(args[0])

        def go(z):
            z = O.strip_seq(z)
            if z.op in ("list",):
                out = FALSE
                for s in z.args:
                    out = bor(out, any_true(ev, s, n))
                return out if n == "any" else bnot(out)
            if z.op == "concat":
                out = FALSE
                for part in z.args:
                    out = bor(out, go(part) if n == "any" else bnot(go(part)))
                return out if n == "any" else bnot(out)
            r = ev.domain(z)
            x = fresh()
            VARDOM[x] = r[1]
            t = ev.truthv(r[2](x))
            b = T.any_over(x, r[1], t if n == "any" else bnot(t))
            return b if n == "any" else bnot(b)
        return lift(go, c, split_bool=False)
    if n in ("list", "tuple"):
        if not args:
            return ev.newref("list", EMPTYL) if n == "list" else tup()
        v = args[0]
        c = ev.cont(v)
        p = plain(c)
        if n == "tuple" and p is not None:
            return tup(*p)
        if c.op == "map" or c is EMPTYD:
            r = ev.domain(c)
            if r[0] == "dom":
                x = fresh()
                VARDOM[x] = r[1]
                return ev.newref("list", O.fix_list(O.seg_list([s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", TRUE, r[2](x)))])))
        return ev.newref("list", ev.listval(v))
    if n in ("set", "frozenset"):
        if not args:
            return ev.newref("set", EMPTYL)
        return ev.newref("set", ev.listval(args[0]))
    if n == "dict":
        if not args:
            m = EMPTYD
            for k, v in kw.items():
                m = mapset(m, TRUE, string(k), v)
            return ev.newref("dict", m)
        c = ev.cont(args[0])
        if c.op in ("map", "dict") and not kw:
            return ev.newref("dict", c)
        r = ev.iteration(args[0])
        if r[0] == "unroll":
            m = EMPTYD
            for e_ in r[1]:
                if isinstance(e_, tuple):
                    e_ = e_[1]
                m = mapset(m, TRUE, ev.getitem(e_, ZERO), ev.getitem(e_, ONE))
            return ev.newref("dict", m)
        x = fresh()
        VARDOM[x] = r[1]
        el = r[2](x)
        g = r[3](x) if r[0] == "domg" else TRUE
        return ev.newref("dict", mk("map", EMPTYD, *[s if i is TRUE else mk("gseg", i, s) for i, s in
                                                     T.q(x, r[1], mk("leaf", g, sel(el, ZERO), sel(el, ONE)))]))
    if n == "range":
        a = [x for x in args]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3 and a[2] is not ONE:
            return mk("dom", mk("range3", *a))
        return lift(lambda x, y: mk("dom", mk("range", x, y)), lo, hi)
    if n == "enumerate":
        st = args[1] if len(args) > 1 else kw.get("start", ZERO)
        c = O.strip_seq(ev.listval(args[0]))
        if c.op == "dom" or (c.op == "list" and plain(c) is None):
            pass
        if st.op == "num" and all(plain(O.strip_seq(l)) is not None for l, _ in leaves(c)):
            return gv([(mk("list", *[mk("leaf", TRUE, tup(T.add(num(i), st), e_)) for i, e_ in enumerate(plain(O.strip_seq(l)))]), g)
                       for l, g in leaves(c)])
        x = fresh()
        d = mk("range", ZERO, lenof(c))
        return mk("itv", d, mk_lam(x, tup(T.add(x, st), sel(c, x))))
    if n == "zip" and len(args) == 2:
        a, b = O.strip_seq(ev.cont(args[0])), O.strip_seq(ev.cont(args[1]))
        r = O._consec_of(a, b)
        if r is not None:
            p = plain(r)
            if p is not None:
                return tup(*[tup(x, y) for x, y in zip(p[:-1], p[1:])])
            return mk("dom", mk("consec", ev.val(r)))
        pa, pb = plain(a), plain(b)
        if pa is not None and pb is not None:
            return tup(*[tup(x, y) for x, y in zip(pa, pb)])
        a, b = O.strip_seq(ev.listval(args[0])), O.strip_seq(ev.listval(args[1]))
        # zip(range(n), xs) is enumerate
        x = fresh()
        d = mk("range", ZERO, minlen(a, b))
        VARDOM[x] = d
        return mk("itv", d, mk_lam(x, tup(sel(a, x), sel(b, x))))
    if n == "zip" and len(args) == 1 and args[0].op == "star":
        return mk("call", ext("builtins.zip"), (args[0],), ())
    if n == "zip" and len(args) > 2:
        cs = [O.strip_seq(ev.listval(a)) for a in args]
        x = fresh()
        d = mk("range", ZERO, minlen(cs[0], cs[1]))
        return mk("itv", d, mk_lam(x, tup(*[sel(c, x) for c in cs])))
    if n == "reversed":
        return mk("reversed", ev.cont(args[0]))
    if n == "sorted":
        return mk_sorted(ev, ev.resolve(ev.listval(args[0])) if True else None, kw)
    if n == "map" and len(args) == 2:
        r = ev.iteration(args[1])
        if r[0] == "unroll":
            return ev.newref("list", mk("list", *[mk("leaf", TRUE, call_value(ev, args[0], [x[1] if isinstance(x, tuple) else x], {})) for x in r[1]]))
        x = fresh()
        VARDOM[x] = r[1]
        v = ev.val(call_value(ev, args[0], [r[2](x)], {}))
        g = r[3](x) if r[0] == "domg" else TRUE
        return ev.newref("list", O.seg_list([s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", g, v))]))
    if n == "filter" and len(args) == 2:
        r = ev.iteration(args[1])
        if r[0] in ("dom", "domg"):
            x = fresh()
            VARDOM[x] = r[1]
            el = r[2](x)
            c = ev.truthv(call_value(ev, args[0], [el], {})) if args[0] is not NONE else ev.truthv(el)
            if r[0] == "domg":
                c = band(c, r[3](x))
            return ev.newref("list", O.seg_list([s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, r[1], mk("leaf", c, el))]))
    if n == "isinstance":
        ts = args[1]
        tl = list(ts.args) if ts.op == "tuple" else [ts]

        def inst(v):
            out = FALSE
            for t in tl:
                out = bor(out, isinst(ev, v, t))
            return out
        return lift(inst, args[0], split_bool=False)
    if n == "round" and len(args) == 1:
        return lift(lambda z: mk("round", z), args[0])
    if n == "abs":
        return lift(lambda z: mk("abs", z) if z.op != "num" else num(abs(z.args[0])), args[0])
    if n == "int":
        return lift(lambda z: mk("int", z) if z.op != "num" else num(int(z.args[0])), args[0])
    if n == "float":
        if args and args[0].op == "str":
            return ext("float." + args[0].args[0])
        return args[0] if args else ZERO
    if n == "str":
        return lift(lambda z: T.fmt([z]) if z.op in ("str", "num") else mk("fmt", z), args[0])
    if n == "bool":
        return ev.truthv(args[0]) if args else FALSE
    if n == "next":
        c = ev.listval(args[0])
        t = truth(c)
        v = sel(c, ZERO)
        return ite(t, v, args[1]) if len(args) > 1 else v
    if n == "iter":
        return args[0]
    if n == "getattr" and args[1].op == "str":
        return ev.attr(args[0], args[1].args[0])
    if n == "hasattr":
        return atom(mk("hasattr", args[0], args[1]))
    if n == "setattr" and args[1].op == "str":
        ev.put(("a", args[0], args[1].args[0]), args[2])
        return NONE
    if n == "callable":
        return TRUE if args[0].op in ("closure", "bound", "fnref") else atom(mk("callable", args[0]))
    if n == "super":
        fr = ev.frames[-1]
        return mk("super", fr.selfv or NONE, fr.fn.cls.name if fr.fn.cls else "")
    if n == "print":
        return NONE
    if n in ("id", "type", "hash", "pow", "divmod"):
        return mk("call", ext("builtins." + n), tuple(ev.val(a) for a in args), ())
    if n == "object" and not args:
        return opaque("object")
    return None


# units that return None or a float (rules.zero_float checks the one integer they could return instead)
FLOATRET = ("VehicleRoutingProblem._get_time_remaining",)


def isinst(ev, v, t):
    nm = t.args[0] if t.op in ("ext", "cls") else None
    if nm is None:
        return atom(mk("isinstance", v, t))
    nm = nm.split(".")[-1]
    if v is NONE:
        return FALSE
    if nm == "float" and v.op == "ret" and v.args[0].op == "ucall" and v.args[0].args[0] in FLOATRET:
        return bnot(T.isnone(v))
    k = {"ref": v.args[0] if v.op == "ref" else None, "num": "num", "str": "str", "tuple": "tuple"}.get(v.op)
    if v.op == "list" or v.op == "concat":
        k = "list"
    if k is not None and nm in ("list", "dict", "set", "str", "tuple", "int", "float"):
        if k == "num":
            return TRUE if (nm == "int") == (v.args[0].denominator == 1) and nm in ("int", "float") else FALSE
        return TRUE if k == nm else FALSE
    return atom(mk("isinstance", v, string(nm)))


def any_true(ev, s, n):
    if s.op == "leaf":
        t = ev.truthv(s.args[1])
        return band(s.args[0], t if n == "any" else bnot(t))
    if s.op == "gseg":
        return band(s.args[0], any_true(ev, s.args[1], n))
    if s.op == "q":
        v = fresh()
        VARDOM[v] = s.args[0]
        b = any_true(ev, T.open_lam(s.args[1], v), n)
        return T.any_over(v, s.args[0], b)
    if s.op == "segs":
        return bor(*[any_true(ev, x, n) for x in s.args])
    return atom(mk("any", s))


def lenof(c):
    if c.op == "dom":
        d = c.args[0]
        if d.op == "range":
            return T.sub(d.args[1], d.args[0])
        if d.op == "elems":
            return lenof(d.args[0])
    if c.op == "concat":
        r = ZERO
        for x in c.args:
            r = T.add(r, lenof(x))
        return r
    if c.op == "list" and any(s.op not in ("leaf", "q") for s in c.args):
        return mk("len", c)
    if c.op == "list" and len(c.args) > 1 and all(s.op == "leaf" for s in c.args):
        r = ZERO
        for s in c.args:
            r = T.add(r, ite(s.args[0], ONE, ZERO))
        return r
    return T.length(c)


def minlen(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "dom" and x.args[0].op == "range" and x.args[0].args[0] is ZERO:
            return x.args[0].args[1] if x.args[0].args[1] is lenof(y) else T.maxmin("min", [x.args[0].args[1], lenof(y)])
    la, lb = lenof(a), lenof(b)
    return la if la is lb else T.maxmin("min", [la, lb])

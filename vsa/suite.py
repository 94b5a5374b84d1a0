"""Units, tags and obligations: the reference summaries against the code's summaries."""
import ast
import re
from . import terms as T
from .terms import TRUE, FALSE, NONE, band, bor, bnot, mk
from .front import Program
from .align import align
from .ev import Ev, Stop
from .calls import keydesc, UNITS

SPEC_BUDGET = 6000000
CODE_BUDGET = 4000000


class Unit:
    def __init__(self, qual, fn, cls):
        self.qual, self.fn, self.cls = qual, fn, cls
        self.params = fn.sig()[0]
        self.reads, self.mods, self.effect, self.retnone, self.raises = set(), set(), False, False, False
        self.types = set()
        self.summary = None


class Units(dict):
    """qual -> Unit, computed on demand"""

    def __init__(self, suite, allowed, alias=None):
        self.suite, self.allowed, self.alias = suite, allowed, alias or {}

    def get(self, q, d=None):
        q = self.alias.get(q, q)
        if q not in self.allowed:
            return None
        return self.suite.info(q)


def fns_of(prog):
    out = {}
    for c in prog.classes.values():
        for m in c.methods.values():
            if m.cls is c:
                out.setdefault(m.qual, (m, c))
    for f in prog.funcs.values():
        out.setdefault(f.qual, (f, None))
    return out


TAG = re.compile(r"#@\s*(.*)$")


def tags_of(mod):
    """line -> set of tags, inherited by nested statements; '=' replaces, '!x' removes"""
    raw = {}
    for i, l in enumerate(mod.src.splitlines(), 1):
        m = TAG.search(l)
        if m:
            raw[i] = m.group(1).split()
    out, flags = {}, {}

    def head_end(s):
        if hasattr(s, "body") and isinstance(s.body, list) and s.body:
            return s.body[0].lineno - 1
        return s.end_lineno

    def apply(base, toks):
        cur = set(base)
        for t in toks:
            if t == "=":
                cur = set()
            elif t.startswith("!"):
                cur.discard(t[1:])
            elif re.match(r"^C\d\d$", t):
                cur.add(t)
        return cur

    def walk(s, base):
        st, en = s.lineno, max(head_end(s), s.lineno)
        toks = []
        for ln in range(st, en + 1):
            toks += raw.get(ln, [])
        cur = apply(base, toks)
        for ln in range(st, en + 1):
            out[ln] = cur
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            flags[st] = [t for t in toks if not re.match(r"^[=!]|^C\d\d$", t)]
        for f in ("body", "orelse", "finalbody"):
            for x in getattr(s, f, None) or []:
                walk(x, cur)
        for h in getattr(s, "handlers", None) or []:
            for x in h.body:
                walk(x, cur)

    for s in mod.tree.body:
        walk(s, set())
    return out, flags


def table(fn):
    """position or keyword -> default"""
    a = fn.node.args
    ps = a.posonlyargs + a.args
    d = {}
    for i, v in enumerate(a.defaults):
        d[len(ps) - len(a.defaults) + i] = v
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[x.arg] = v
    return d


class Suite:
    def __init__(self, spec_root, code_root, inline=()):
        self.spec = Program(spec_root, "vrpy", "spec")
        self.code = Program(code_root, "vrpy", "code", prep=lambda mods: align(self.spec.mods, mods))
        self.tags, self.flags = {}, {}
        for m in self.spec.mods.values():
            t, f = tags_of(m)
            self.tags[m.path], self.flags[m.path] = t, f
        self.sfn = fns_of(self.spec)
        self.cfn = fns_of(self.code)
        self.alias = {}
        self.match = {}
        self.extra = {}
        self.inline = set(inline)
        for q, (f, c) in self.sfn.items():
            if "inline" in self.flags[f.mod.path].get(f.line, ()):
                self.inline.add(q)
        for q, (f, c) in self.sfn.items():
            g = None
            if c is None:
                g = self.code.funcs.get(q)
                gc = None
            else:
                gc = self.code.classes.get(c.name)
                if gc is not None:
                    g = self.code.method(gc, f.name)
            if g is None:
                continue
            more = self.extras(f, g)
            if more is None or bool(g.vararg) != bool(f.vararg) or g.is_prop != f.is_prop or g.static != f.static:
                continue
            if more:
                self.extra[g.qual] = more
            if g.qual != q:
                if g.qual in self.sfn:
                    continue
                self.alias[g.qual] = q
            self.match[q] = (g, gc)
        UNITS.clear()
        UNITS.update({q: q for q in self.match})
        UNITS.update(self.alias)
        # parameters whose default is a display in the reference and None in the code, normalised in the body
        self.dflt, self.odd = {}, {}
        for q, (g, gc) in self.match.items():
            f = self.sfn[q][0]
            a, b = table(f), table(g)
            for k in a:
                if k in b and isinstance(b[k], ast.Constant) and b[k].value is None and isinstance(a[k], (ast.List, ast.Dict, ast.Set, ast.Call)):
                    nf = k if isinstance(k, str) else f.params[k]
                    ng = k if isinstance(k, str) else g.params[k]
                    self.dflt[g.qual, ng] = (f, a[k])
                    self.odd.setdefault(q, []).append((nf, ng, a[k]))
        self.allowed = set(q for q in self.match if q not in self.inline)
        self.infos = {}
        self.busy = set()
        self.csum = {}
        self.tagged = {}
        self.fields = None

    @staticmethod
    def extras(f, g):
        """optional parameters g has beyond those of f: [(name, default)], None if the signatures do not agree"""
        pf, kf, pg, kg = f.sig()[0], f.sig()[1], g.sig()[0], g.sig()[1]
        if len(pg) < len(pf) or not set(kf) <= set(kg):
            return None
        if f.is_prop or g.is_prop or f.vararg:
            return [] if len(pf) == len(pg) and kf == kg else None
        d = table(g)
        off = len(g.params) - len(pg)
        out = []
        for i in range(len(pf), len(pg)):
            if i + off not in d:
                return None
            out.append((pg[i], d[i + off]))
        for k in kg:
            if k not in kf:
                if k not in d:
                    return None
                out.append((k, d[k]))
        return out

    def given(self, g):
        """extra parameters of g that some call passes"""
        out = set()
        base = len(g.sig()[0]) - len(self.extra[g.qual])
        for m in self.code.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call):
                    out |= {k.arg for k in x.keywords}
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                    if n in (g.name, g.cls.name if g.cls else None) and (len(x.args) > base or any(isinstance(a, ast.Starred) for a in x.args)):
                        out |= {p for p, _ in self.extra[g.qual]}
        return out

    def isfield(self, cls, n):
        """n is assigned on instances in the reference (of cls)"""
        if self.fields is None:
            self.fields = {}
            for c in self.spec.classes.values():
                for k in self.spec.mro(c):
                    for m in k.methods.values():
                        for x in ast.walk(m.node):
                            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                                self.fields.setdefault(x.attr, set()).add(c.name)
        return n in self.fields if cls is None else cls in self.fields.get(n, ())

    # ------------------------------------------------------------ reference side
    def info(self, q):
        u = self.infos.get(q)
        if u is not None:
            return u
        if q in self.busy or q not in self.sfn:
            return None
        self.busy.add(q)
        f, c = self.sfn[q]
        u = Unit(q, f, c)
        s = self.evaluate(self.spec, f, c, None, SPEC_BUDGET)
        u.summary = s
        u.reads, u.mods = set(s.reads), set(k for k in s.finals if k[0] != "lpc")
        u.kept = set(s.kept)
        u.effect = bool(s.events)
        u.raises = any(e.kind == "raise" for e in s.events)
        u.retnone = s.ret is NONE
        # reads of callees are reads of the unit
        self.busy.discard(q)
        self.infos[q] = u
        return u

    def evaluate(self, prog, f, c, argnames, budget, allowed=None, bound=()):
        T.STEPS[0], old = 0, T.STEPS[0]
        lim, T.STEPS[1] = T.STEPS[1], budget
        units = Units(self, self.allowed if allowed is None else allowed, self.alias if prog is self.code else None)
        ev = Ev(prog, units, info=lambda q: self.info(self.alias.get(q, q)), isfield=self.isfield if prog is self.code else None)
        if prog is self.code:
            ev.dflt, ev.extra = self.dflt, self.extra
        try:
            s = ev.run(f, c, argnames, bound)
            s.failed = None
        except (Stop, T.Budget, RecursionError, MemoryError) as ex:
            s = self.failed(ex)
        except Exception as ex:  # a construct the summariser does not know: no verdict, never an alarm
            s = self.failed(ex)
        finally:
            T.STEPS[1] = lim
            T.STEPS[0] = old
        s.fn = f
        return s

    def failed(self, ex):
        class S:
            pass
        s = S()
        s.ret, s.events, s.finals, s.raises, s.reads, s.kept = NONE, [], {}, FALSE, set(), set()
        s.notes, s.inlined, s.calls, s.failed = ["%s: %s" % (type(ex).__name__, ex)], set(), set(), ex
        return s

    def code_summary(self, q):
        s = self.csum.get(q)
        if s is None:
            g, gc = self.match[q]
            s = self.evaluate(self.code, g, gc, self.sfn[q][0].sig()[0], CODE_BUDGET, bound=self.unused(g))
            self.csum[q] = s
        return s

    def defaulted(self, q):
        """the two summaries of q called with the odd defaults"""
        f, c = self.sfn[q]
        g, gc = self.match[q]
        odd = self.odd[q]
        return (self.evaluate(self.spec, f, c, None, SPEC_BUDGET, bound=[(x[0], x[2]) for x in odd]),
                self.evaluate(self.code, g, gc, f.sig()[0], CODE_BUDGET, bound=[(x[1], ast.Constant(None)) for x in odd] + self.unused(g)))

    def unused(self, g):
        if g.qual not in self.extra:
            return []
        given = self.given(g)
        return [(p, d) for p, d in self.extra[g.qual] if p not in given]

    def linetags(self, loc):
        return self.tags.get(loc[0], {}).get(loc[1], set())

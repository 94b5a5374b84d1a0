"""Alpha-renaming of the code towards the reference's vocabulary.

Private attributes and classes may carry any name.  Where the code has no attribute (class) of a name
the reference uses, and has one the reference does not know that occurs in the same places, the
code's name is replaced throughout by the reference's.  The target name is unused in the code, so the
renamed program is the same program; which pair is chosen cannot change what is decided, only whether
the comparison can be made at all.  Names a user sees are never touched."""
import ast
import copy
import difflib
from collections import Counter

PUBLIC = "VehicleRoutingProblem"


class Names:
    def __init__(self, mods):
        self.attrs, self.stored, self.visible, self.strs = set(), set(), set(), set()
        self.ids, self.classes, self.kws = set(), {}, set()
        self.dotted, self.body = set(), set()
        for m in mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute):
                    self.attrs.add(x.attr)
                elif isinstance(x, ast.Name):
                    self.ids.add(x.id)
                elif isinstance(x, ast.arg):
                    self.ids.add(x.arg)
                elif isinstance(x, ast.keyword):
                    if x.arg:
                        self.kws.add(x.arg)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.attrs.add(x.name)
                    self.ids.add(x.name)
                elif isinstance(x, ast.alias):
                    self.dotted.update(x.name.split("."))
                    self.ids.add((x.asname or x.name).split(".")[0])
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    self.strs.add(x.value)
                elif isinstance(x, ast.ClassDef):
                    self.attrs.add(x.name)
                    self.ids.add(x.name)
                    self.classes.setdefault(x.name, x)
                    for s in x.body:
                        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) \
                            else []
                        for t in ts:
                            if isinstance(t, ast.Name):
                                self.attrs.add(t.id)
                                self.stored.add(t.id)
                                self.body.add(t.id)
                                if isinstance(s, ast.AnnAssign):
                                    self.visible.add(t.id)
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(
                                y.value, ast.Name) and y.value.id == "self":
                            self.stored.add(y.attr)
                            if x.name == PUBLIC and not y.attr.startswith("_"):
                                self.visible.add(y.attr)


def sites(mods, names):
    """name -> multiset of (class, function, shape of the statement)"""
    out = {n: Counter() for n in names}

    class V(ast.NodeVisitor):
        cls = fn = ""

        def visit_ClassDef(self, n):
            o, self.cls = self.cls, n.name
            self.generic_visit(n)
            self.cls = o

        def visit_FunctionDef(self, n):
            o, self.fn = self.fn, n.name
            self.generic_visit(n)
            self.fn = o

        def visit_Attribute(self, n):
            if n.attr in out:
                k = type(n.ctx).__name__
                out[n.attr][(self.cls, self.fn, k)] += 1
                out[n.attr][(self.cls, k)] += 1
            self.generic_visit(n)

        def visit_Assign(self, n):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and t.attr in out:
                    out[t.attr][("value", self.cls, ast.dump(n.value))] += 2
            self.generic_visit(n)

    for m in mods.values():
        V().visit(m.tree)
    return out


def score(a, b, x, y):
    tot = max(sum(a.values()), sum(b.values()), 1)
    return sum((a & b).values()) / tot + 0.2 * difflib.SequenceMatcher(None, x.strip("_"), y.strip("_")).ratio()


def pairs(gone, new, f, least):
    cand = sorted(((f(x, y), x, y) for x in gone for y in new), key=lambda t: (-t[0], t[1], t[2]))
    out, used = {}, set()
    for s, x, y in cand:
        if s >= least and x not in used and y not in out:
            out[y] = x
            used.add(x)
    return out


class Ren(ast.NodeTransformer):
    def __init__(self, attrs, classes):
        self.a, self.c = attrs, classes
        self.k = dict(attrs, **classes)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.k.get(n.attr, n.attr)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        n.name = self.c.get(n.name, n.name)
        for s in n.body:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []
            for t in ts:
                if isinstance(t, ast.Name):
                    t.id = self.a.get(t.id, t.id)
        return n

    def visit_Name(self, n):
        n.id = self.c.get(n.id, n.id)
        return n

    def visit_alias(self, n):
        n.name = self.c.get(n.name, n.name)
        return n


def align(spec, code):
    """spec, code: name -> Mod, the trees of code are renamed in place"""
    s, c = Names(spec), Names(code)
    gone = {x for x in s.stored if x not in c.attrs and x not in s.visible and
            not x.startswith("__")}
    new = {x for x in c.stored if x not in s.attrs and x not in c.visible and x not in c.strs and
           x not in c.dotted and not x.startswith("__")}
    attrs = {}
    cg = {x for x in s.classes if x not in c.attrs and x not in c.ids and x not in c.dotted and x != PUBLIC}
    cn = {x for x in c.classes if x not in s.classes and x not in s.attrs and x not in c.strs and x.startswith("_")}

    def cscore(x, y):
        a = {f.name for f in s.classes[x].body if isinstance(f, ast.FunctionDef)}
        b = {f.name for f in c.classes[y].body if isinstance(f, ast.FunctionDef)}
        return len(a & b) / max(len(a | b), 1) + 0.2 * difflib.SequenceMatcher(None, x, y).ratio()

    # a class the reference knows nothing of may be a new base or helper: half the methods must agree
    classes = pairs(cg, cn, cscore, 0.5) if cg and cn else {}
    if classes:
        r = Ren({}, classes)
        for m in code.values():
            r.visit(m.tree)
            m._bound = None
    if gone and new:
        a, b = sites(spec, gone), sites(code, new)
        attrs = pairs(gone, new, lambda x, y: 0 if y in c.body and x in c.ids else score(a[x], b[y], x, y),
                      0.45)
    if attrs:
        r = Ren(attrs, {})
        for m in code.values():
            r.visit(m.tree)
    for fam, more in family(spec, code).items():
        for m in code.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef) and x.name in fam:
                    for y in selfs(x):
                        y.attr = more.get(y.attr, y.attr)
        attrs.update(more)
    return attrs, classes


def selfs(cls):
    return [y for y in ast.walk(cls) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and
            y.value.id == "self"]


def families(mods):
    """sets of classes linked by inheritance"""
    cl, par = {}, {}
    for m in mods.values():
        for x in m.tree.body:
            if isinstance(x, ast.ClassDef):
                cl[x.name] = x
                par[x.name] = x.name

    def root(n):
        while par[n] != n:
            n = par[n]
        return n
    for n, x in cl.items():
        for b in x.bases:
            b = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
            if b in cl and root(b) != root(n):
                par[root(n)] = root(b)
    out = {}
    for n in cl:
        out.setdefault(root(n), []).append(n)
    return cl, [frozenset(v) for v in out.values()]


def family(spec, code):
    """names used for different things in unrelated classes: rename within one family, self.x only"""
    scl, sf = families(spec)
    ccl, cf = families(code)
    other = Counter(x.attr for m in code.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and not (
        isinstance(x.value, ast.Name) and x.value.id == "self"))
    strs = {x.value for m in code.values() for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(
        x.value, str)}
    out = {}
    for f in cf:
        g = max(sf, key=lambda h: len(h & f))
        if not g & f:
            continue
        su, cu = [y for n in g for y in selfs(scl[n])], [y for n in f for y in selfs(ccl[n])]
        defs = {d.name for n in f for d in ccl[n].body if isinstance(d, ast.FunctionDef)}
        defs |= {t.id for n in f for d in ccl[n].body for t in ast.walk(d) if isinstance(t, ast.Name) and
                 not isinstance(d, ast.FunctionDef)}
        sdefs = {d.name for n in g for d in scl[n].body if isinstance(d, ast.FunctionDef)}
        sn, cn = {y.attr for y in su} | sdefs, {y.attr for y in cu} | defs
        vis = PUBLIC in f
        gone = {y.attr for y in su if isinstance(y.ctx, ast.Store) and y.attr not in cn and not other[y.attr] and
                not (vis and not y.attr.startswith("_"))}
        new = {y.attr for y in cu if isinstance(y.ctx, ast.Store) and y.attr not in sn and not other[y.attr] and
               y.attr not in strs and y.attr not in defs and not (vis and not y.attr.startswith("_"))}
        if gone and new:
            a = sites({n: m for n, m in spec.items()}, gone)
            b = sites({n: m for n, m in code.items()}, new)
            for d in (a, b):
                for k in d:
                    d[k] = Counter({t: v for t, v in d[k].items() if (t[1] if t[0] == "value" else t[0]) in f | g})
            r = pairs(gone, new, lambda x, y: score(a[x], b[y], x, y), 0.45)
            if r:
                out[f] = r
    return out

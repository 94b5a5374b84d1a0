"""State that outlives one object or one solve: rules over the syntax tree of the code.

S1  a caching decorator on a method or property whose inputs are rewritten after construction
S2  a module-level container (or a rebound global) that functions both write and read
S3  a class-level container mutated in place through its instances, or rebound on the class
S4  a default argument, module-level or class-level container stored uncopied in an attribute that is mutated
    in place, or a default argument mutated by its own function
S5  a private attribute used as a memo and not renewed when what it was computed from changes
S6  a public method or property that is gone
S7  the remaining time reported as the integer 0 where the code asks for a float
S8  a module-level or class-level object with a state of its own (random generator, model, instance of a class of
    the project whose methods change it) used by functions
S9  one new object stored in several places that are changed in place independently of each other
S10 the remaining time used after a model has been solved since it was read
"""
import ast
from .match import Diff, alltags

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem",
       "sort", "reverse", "appendleft", "add_edge", "add_node", "remove_node", "remove_nodes_from", "remove_edge",
       "remove_edges_from", "add_edges_from", "add_nodes_from", "__setitem__", "solve", "addVariable", "addVariables", "setObjective", "addInPlace"}
CACHE = {"cached_property", "lru_cache", "cache", "memoize", "memoized", "cached"}
MAKE = {"list", "dict", "set", "defaultdict", "Counter", "OrderedDict", "deque", "DiGraph", "Graph"}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
        return n in MAKE
    return False


STATE = {"RandomState", "default_rng", "Random", "SystemRandom", "LpProblem", "LpConstraintVar", "LpVariable", "count", "iter", "cycle"}
ARRAY = {"zeros", "ones", "array", "empty", "full", "zeros_like", "deepcopy", "copy", "fromkeys"}


def called(e):
    if not isinstance(e, ast.Call):
        return ""
    return e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")


def functions(tree):
    """(function node, class name or None), nested functions belong to the outermost one"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n, None
        elif isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    yield s, n.name


def targets(s):
    if isinstance(s, ast.Assign):
        ts = s.targets
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        ts = [s.target]
    elif isinstance(s, ast.Delete):
        ts = s.targets
    elif isinstance(s, (ast.For,)):
        ts = [s.target]
    else:
        return []
    out, todo = [], list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            todo += t.elts
        elif isinstance(t, ast.Starred):
            todo.append(t.value)
        else:
            out.append(t)
    return out


def base(e):
    """the expression a chain of subscripts starts from"""
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def mutations(fn):
    """expressions whose object the function changes in place: (expression, statement)"""
    for s in ast.walk(fn):
        for t in targets(s) if isinstance(s, ast.stmt) else []:
            if isinstance(t, ast.Subscript):
                yield base(t), s
            elif isinstance(s, ast.AugAssign) and isinstance(t, (ast.Attribute, ast.Name)):
                yield t, s
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUT:
            yield base(s.func.value), s


def locals_of(fn):
    out, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for s in ast.walk(fn):
        if isinstance(s, ast.Global):
            glob.update(s.names)
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            out.add(s.id)
        if isinstance(s, ast.arg):
            out.add(s.arg)
    return out - glob, glob


class Share:
    def __init__(self, suite):
        self.s, self.code = suite, suite.code
        self.out = []
        self.unitof = {}
        for q, (g, gc) in suite.match.items():
            self.unitof[id(g.node)] = q
        self.fns = [(m, f, c) for m in self.code.mods.values() for f, c in functions(m.tree)]
        # attribute names mutated in place somewhere, attribute names assigned: name -> [(class, function)]
        self.mutattr, self.assigned = {}, {}
        for m, f, c in self.fns:
            for e, s in mutations(f):
                if isinstance(e, ast.Attribute) and not (isinstance(s, ast.AugAssign) and base(s.target) is e and s.target is e
                                                         and not mutable(s.value)):
                    self.mutattr.setdefault(e.attr, []).append((c, f))
            for s in ast.walk(f):
                for t in targets(s) if isinstance(s, ast.stmt) else []:
                    if isinstance(t, ast.Attribute):
                        self.assigned.setdefault(t.attr, []).append((c, f))

    def tags(self, fn, more=()):
        q = self.unitof.get(id(fn))
        t = set(more)
        if q is not None:
            t |= alltags(self.s, self.s.sfn[q][0])
        return t

    def refs(self, name):
        return [f for m, f, c in self.fns if any(
            (n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None) == name for n in ast.walk(f))]

    def callers(self, fn):
        """functions that call fn, transitively"""
        out, todo = [fn], [fn]
        while todo:
            for f in self.refs(todo.pop().name):
                if f not in out:
                    out.append(f)
                    todo.append(f)
        return out

    def nearest(self, fn):
        """the units through which fn is reached"""
        if id(fn) in self.unitof:
            return [fn]
        out, seen, todo = [], [fn], [fn]
        while todo:
            for f in self.refs(todo.pop().name):
                if f in seen:
                    continue
                seen.append(f)
                if id(f) in self.unitof:
                    out.append(f)
                else:
                    todo.append(f)
        return out

    def report(self, mod, fn, cls, node, tags, what, want, found):
        q = self.unitof.get(id(fn)) or ((cls + "." if cls else "") + fn.name)
        loc = (mod.path, getattr(node, "lineno", fn.lineno), (cls + "." if cls else "") + fn.name)
        sf = self.s.sfn.get(q)
        sl = (sf[0].mod.path, sf[0].line, q) if sf else (mod.path, fn.lineno, q)
        self.out.append(Diff(q, "share", tags, what, sl, loc, want, found))

    def run(self):
        for m, f, c in self.fns:
            self.caching(m, f, c)
            self.defaults(m, f, c)
            self.stored(m, f, c)
        self.globals()
        self.classvars()
        self.memo()
        self.missing()
        self.zero()
        self.stateful()
        self.aliases()
        self.stale()
        return self.out

    # ------------------------------------------------------------------ S1
    def reads(self, f, c, seen=None):
        """attributes of self read by f, through the methods of its class"""
        seen = set() if seen is None else seen
        if f in seen:
            return set()
        seen.add(f)
        out = set()
        cls = self.code.classes.get(c)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                g = self.code.method(cls, n.attr) if cls else None
                if g is not None:
                    out |= self.reads(g.node, c, seen)
                else:
                    out.add(n.attr)
        return out

    def family(self, c):
        k = self.code.classes.get(c)
        if k is None:
            return {c}
        return {x.name for x in self.code.mro(k)} | {x.name for x in self.code.classes.values() if k in self.code.mro(x)}

    def caching(self, m, f, c):
        ds = []
        for d in f.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            ds.append(d.id if isinstance(d, ast.Name) else getattr(d, "attr", ""))
        if not (set(ds) & CACHE) or c is None or "staticmethod" in ds:
            return
        fam = self.family(c)
        for a in sorted(self.reads(f, c)):
            later = [g for k, g in self.assigned.get(a, []) + self.mutattr.get(a, []) if k in fam and g.name != "__init__" and g is not f]
            if later:
                self.report(m, f, c, f, self.tags(f, {"C21"} if c == "VehicleRoutingProblem" else ()), "cached result",
                            "recomputed from the current state", "kept by @%s although %s is rewritten in %s" % (
                                (set(ds) & CACHE).pop(), a, later[0].name))
                return

    # ------------------------------------------------------------------ S4
    def defaults(self, m, f, c):
        a = f.args
        ps = a.posonlyargs + a.args
        ds = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
        ds.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        ds = {p for p, v in ds.items() if mutable(v)}
        if not ds:
            return
        rebound = {t.id: s.lineno for s in ast.walk(f) if isinstance(s, (ast.Assign, ast.AnnAssign))
                   for t in targets(s) if isinstance(t, ast.Name)}
        for e, s in mutations(f):
            if isinstance(e, ast.Name) and e.id in ds and not rebound.get(e.id, s.lineno + 1) < s.lineno:
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                    continue
                self.report(m, f, c, s, self.tags(f, {"C22", "C21"}), "default argument %s" % e.id,
                            "a fresh value for every call", "one object shared by all calls and changed in place")
                return
        for s in ast.walk(f):
            if isinstance(s, ast.Assign):
                for t in targets(s):
                    if isinstance(t, ast.Attribute) and t.attr in self.mutattr:
                        for n in self.values(s.value):
                            if isinstance(n, ast.Name) and n.id in ds and not rebound.get(n.id, s.lineno + 1) < s.lineno:
                                self.report(m, f, c, s, self.tags(f, {"C22", "C21"}), "attribute %s" % t.attr,
                                            "an object of its own", "the default argument %s, shared by all calls and changed in place" % n.id)

    @staticmethod
    def values(e):
        """expressions the value of e may be (without copying)"""
        if isinstance(e, ast.IfExp):
            return Share.values(e.body) + Share.values(e.orelse)
        if isinstance(e, ast.BoolOp):
            return [x for v in e.values for x in Share.values(v)]
        return [e]

    def shared(self, m, n, loc, c):
        """is the expression a module-level or class-level container"""
        if isinstance(n, ast.Name) and n.id not in loc:
            r = self.code.lookup(m, n.id)
            return r is not None and r[0] == "const" and mutable(r[1])
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            k = self.code.classes.get(c if n.value.id in ("self", "cls") else n.value.id)
            if k is None or n.value.id not in ("self", "cls") and n.value.id in loc:
                return False
            r = self.code.cconst(k, n.attr)
            return r is not None and mutable(r[0]) and not any(
                kk in self.family(c) for kk, _ in self.assigned.get(n.attr, []) if n.value.id == "self")
        return False

    def stored(self, m, f, c):
        loc, _ = locals_of(f)
        for s in ast.walk(f):
            if not isinstance(s, ast.Assign):
                continue
            for t in targets(s):
                if isinstance(t, ast.Attribute) and t.attr in self.mutattr:
                    for n in self.values(s.value):
                        if self.shared(m, n, loc, c):
                            self.report(m, f, c, s, self.tags(f, {"C22"}), "attribute %s" % t.attr, "an object of its own",
                                        "%s, shared by all instances and changed in place" % ast.unparse(n))

    # ------------------------------------------------------------------ S2
    def globals(self):
        for m in self.code.mods.values():
            names = {n for n, r in m.names.items() if r[0] == "const"}
            fattr = {n for n, r in m.names.items() if r[0] == "fn"}
            writes, reads = {}, {}
            for mm, f, c in self.fns:
                loc, glob = locals_of(f)

                def owned(n):
                    if n in loc:
                        return False
                    if mm is m:
                        return n in names
                    r = mm.names.get(n)
                    return r is not None and r[0] == "rel" and r[2] in names and (
                        self.code.mods.get(r[1]) or self.code.mods.get(r[1].split(".")[-1])) is m
                skip = set()
                for e, s in mutations(f):
                    if isinstance(e, ast.Name) and owned(e.id) and (e.id in glob or mutable(m.names[e.id][1])):
                        writes.setdefault(e.id, (mm, f, c, s))
                        if not (isinstance(s, ast.Call) and s.func.attr in ("pop", "setdefault", "popitem")):
                            skip.add(id(e))
                    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and mm is m and e.value.id in fattr and e.value.id not in loc:
                        writes.setdefault(e.value.id + "." + e.attr, (mm, f, c, s))
                        skip.add(id(e))
                for s in ast.walk(f):
                    for t in targets(s) if isinstance(s, ast.stmt) else []:
                        if isinstance(t, ast.Name) and t.id in glob and mm is m:
                            writes.setdefault(t.id, (mm, f, c, s))
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and mm is m and t.value.id in fattr and t.value.id not in loc:
                            writes.setdefault(t.value.id + "." + t.attr, (mm, f, c, s))
                    if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Load) and owned(s.id) and id(s) not in skip:
                        reads.setdefault(s.id, []).append((mm, f, c, s))
                    if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Load) and isinstance(s.value, ast.Name) and id(s) not in skip \
                            and s.value.id in fattr and s.value.id not in loc:
                        reads.setdefault(s.value.id + "." + s.attr, []).append((mm, f, c, s))
            for n in sorted(set(writes) & set(reads)):
                wm, wf, wc, ws = writes[n]
                t, hit = {"C22", "C21"}, False
                for rm, rf, rc, rs in reads[n]:
                    near = self.nearest(rf)
                    hit = hit or bool(near)
                    for g in near:
                        t |= self.tags(g)
                if not hit:
                    continue
                rm, rf, rc, rs = reads[n][0]
                self.report(rm, rf, rc, rs, t, "module-level state %s" % n, "no state shared between instances and solves",
                            "read here, written in %s" % wf.name)

    # ------------------------------------------------------------------ S3
    def classvars(self):
        for c in self.code.classes.values():
            fam = self.family(c.name)
            for n, e in c.consts.items():
                inst = [f for k, f in self.assigned.get(n, []) if k in fam and f.name == "__init__"]
                if inst or not mutable(e):
                    continue
                for m, f, k in self.fns:
                    if k not in fam:
                        continue
                    for x, s in mutations(f):
                        if isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", c.name):
                            self.report(m, f, k, s, self.tags(f, {"C22"}), "class attribute %s.%s" % (c.name, n),
                                        "an object per instance", "one object shared by all instances and changed in place")
            for m, f, k in self.fns:
                for s in ast.walk(f):
                    for t in targets(s) if isinstance(s, ast.stmt) else []:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and (
                                t.value.id == c.name or t.value.id == "cls" and k == c.name) and t.value.id not in locals_of(f)[0] - {"cls"}:
                            if any(isinstance(y, ast.Attribute) and y.attr == t.attr and isinstance(y.ctx, ast.Load)
                                   for _, g, _ in self.fns for y in ast.walk(g)):
                                self.report(m, f, k, s, self.tags(f, {"C22"}), "class attribute %s.%s" % (c.name, t.attr),
                                            "state kept on the instance", "rebound on the class")

    # ------------------------------------------------------------------ S5
    def memo(self):
        known = {x.attr for m in self.s.spec.mods.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        for a in sorted(self.assigned):
            if a in known:
                continue
            for C in sorted({k for k, f in self.assigned[a] if k}):
                cls = self.code.classes[C]
                fam = self.family(C)
                ws = [(k, f) for k, f in self.assigned[a] + self.mutattr.get(a, []) if k in fam]
                fs = {f for k, f in ws if f.name != "__init__" and k == C}
                vrp = C == "VehicleRoutingProblem"
                for f in fs:
                    if self.renewed(ws, a, vrp, f):
                        continue
                    n = self.kept(f, a)
                    if n is None or not vrp and not self.stale(f, C, a):
                        continue
                    near = self.nearest(f)
                    t = set().union(*[self.tags(g) for g in near]) if near else set()
                    if vrp:
                        t |= {"C21"} | self.above(f)
                    self.report(cls.mod, f, C, n, t, "memo %s" % a, "computed from the current state",
                                "kept from an earlier %s" % ("solve" if vrp else "call"))

    def renewed(self, ws, a, vrp, f):
        """some other function of the class assigns the memo"""
        for k, g in ws:
            if g.name == "__init__" or g is f:
                continue
            if not vrp or self.setup(g, a):
                return True
        return False

    def stale(self, f, C, a):
        fam = self.family(C)
        for r in self.reads(f, C) - {a}:
            for k, g in self.assigned.get(r, []) + self.mutattr.get(r, []):
                if g.name != "__init__" and g is not f and (k in fam or r == "prob"):
                    return True
        return False

    def kept(self, f, a):
        """the test after which f stores a only when there is none yet"""
        def stores(b):
            return any(isinstance(t, ast.Attribute) and t.attr == a for y in ast.walk(b) if isinstance(y, ast.stmt) for t in targets(y)) or \
                any(isinstance(base(t), ast.Attribute) and base(t).attr == a for y in ast.walk(b) if isinstance(y, ast.stmt) for t in targets(y))
        for n in ast.walk(f):
            if isinstance(n, ast.If) and self.asks(n.test, a) and stores(n):
                return n
        for i, n in enumerate(f.body):
            if isinstance(n, ast.If) and self.asks(n.test, a) and any(isinstance(x, ast.Return) for x in n.body) and any(
                    stores(b) for b in f.body[i + 1:]):
                return n
        return None

    def above(self, f):
        t = set()
        for g in self.callers(f):
            if self.unitof.get(id(g)) and g is not f and not g.name.startswith("_") and g.name != "solve":
                t |= self.tags(g)
        return t

    def setup(self, f, a):
        """does solve() reach f unconditionally at its start"""
        names, todo = {"solve"}, ["solve"]
        cls = self.code.classes["VehicleRoutingProblem"]
        while todo:
            g = self.code.method(cls, todo.pop())
            if g is None:
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == "self" and n.func.attr not in names:
                    names.add(n.func.attr)
                    todo.append(n.func.attr)
        return f.name in names and not self.selfmemo(f, a)

    def selfmemo(self, f, a):
        return any(isinstance(n, ast.If) and self.asks(n.test, a) for n in ast.walk(f))

    @staticmethod
    def asks(test, a):
        """a test of whether self.a has been computed"""
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
                if any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(n)):
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 and \
                    isinstance(n.args[1], ast.Constant) and n.args[1].value == a:
                return True
        t = test.operand if isinstance(test, ast.UnaryOp) else test
        return isinstance(t, ast.Attribute) and t.attr == a

    # ------------------------------------------------------------------ S6
    def missing(self):
        c = self.code.classes.get("VehicleRoutingProblem")
        for q, (f, sc) in self.s.sfn.items():
            if sc is None or sc.name != "VehicleRoutingProblem" or f.name.startswith("_"):
                continue
            if c is None or self.code.method(c, f.name) is None and f.name not in c.consts and f.name not in self.assigned:
                t = alltags(self.s, f)
                mod = c.mod if c else next(iter(self.code.mods.values()))
                self.out.append(Diff(q, "share", t, "public interface", (f.mod.path, f.line, q), (mod.path, c.node.lineno if c else 1, q),
                                     "%s.%s" % (sc.name, f.name), "absent"))

    # ------------------------------------------------------------------ S7
    def zero(self):
        c = self.code.classes.get("VehicleRoutingProblem")
        g = self.code.method(c, "_get_time_remaining") if c else None
        if g is None:
            return
        asks = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and
                   isinstance(n.args[1], ast.Name) and n.args[1].id == "float" for n in ast.walk(c.node))
        if not asks:
            return

        def ints(e):
            if isinstance(e, ast.Constant):
                return type(e.value) is int and e.value == 0
            if isinstance(e, ast.IfExp):
                return ints(e.body) or ints(e.orelse)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("max", "min"):
                return any(ints(x) for x in e.args)
            return False
        for n in ast.walk(g.node):
            if isinstance(n, ast.Return) and n.value is not None and ints(n.value):
                self.report(c.mod, g.node, c.name, n, {"C23"}, "return value", "0.0, a float", "0, which isinstance(..., float) does not recognise")


    # ------------------------------------------------------------------ S8
    def changing(self, e):
        """does the expression make an object with a state that changes by using it"""
        n = called(e)
        if n in STATE:
            return True
        k = self.code.classes.get(n)
        if k is None:
            return False
        fam = {x.name for x in self.code.mro(k)}
        for a, ws in list(self.assigned.items()) + list(self.mutattr.items()):
            if any(c in fam and f.name != "__init__" for c, f in ws):
                return True
        return False

    def stateful(self):
        for m in self.code.mods.values():
            names = {n for n, r in m.names.items() if r[0] == "const" and self.changing(r[1])}
            for mm, f, c in self.fns:
                loc, _ = locals_of(f)
                for s in ast.walk(f):
                    if not (isinstance(s, ast.Name) and isinstance(s.ctx, ast.Load) and s.id not in loc):
                        continue
                    n = s.id
                    if mm is not m:
                        r = mm.names.get(n)
                        if r is None or r[0] != "rel" or (self.code.mods.get(r[1]) or self.code.mods.get(r[1].split(".")[-1])) is not m:
                            continue
                        n = r[2]
                    if n in names:
                        self.spread(mm, f, c, s, "module-level object %s" % n)
                        break
        for k in self.code.classes.values():
            fam = self.family(k.name)
            for n, e in k.consts.items():
                if not self.changing(e) or any(c in fam and f.name == "__init__" for c, f in self.assigned.get(n, [])):
                    continue
                for m, f, c in self.fns:
                    hit = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Load)
                           and isinstance(x.value, ast.Name) and (x.value.id in ("self", "cls") and c in fam or x.value.id == k.name)]
                    if hit:
                        self.spread(m, f, c, hit[0], "class-level object %s.%s" % (k.name, n))
                        break

    def spread(self, m, f, c, node, what):
        t = {"C22"}
        for g in self.nearest(f):
            t |= self.tags(g)
        self.report(m, f, c, node, t, what, "an object per instance or call", "one object with a state, shared by all of them")

    # ------------------------------------------------------------------ S9
    def aliases(self):
        keys = set()
        for m, f, c in self.fns:
            for s in ast.walk(f):
                ts = targets(s) if isinstance(s, ast.stmt) else []
                for t in ts:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript) and isinstance(t.value.slice, ast.Constant):
                        keys.add(t.value.slice.value)
                if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUT and \
                        isinstance(s.func.value, ast.Subscript) and isinstance(s.func.value.slice, ast.Constant):
                    keys.add(s.func.value.slice.value)

        def new(e):
            return mutable(e) or called(e) in ARRAY or self.changing(e)

        def place(t):
            """name of a place whose object is changed in place somewhere"""
            if isinstance(t, ast.Attribute) and t.attr in self.mutattr:
                return t.attr
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value in keys:
                return t.slice.value
            return None

        for m, f, c in self.fns:
            for body in [f]:
                fresh = {}
                for s in ast.walk(body):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        fresh.setdefault(s.targets[0].id, []).append(s)
                fresh = {n: ss[0] for n, ss in fresh.items() if len(ss) == 1 and new(ss[0].value)}
                where = {}
                self.walkloops(f.body, (), where)
                stores = {}
                for s in ast.walk(f):
                    if not isinstance(s, ast.Assign):
                        continue
                    ps = [(place(t), t) for t in s.targets]
                    if len([1 for p, t in ps if isinstance(t, (ast.Attribute, ast.Subscript))]) > 1 and any(p for p, t in ps) and new(s.value):
                        self.report(m, f, c, s, self.tags(f), "places %s" % ", ".join(ast.unparse(t) for p, t in ps),
                                    "an object each", "one object, changed in place")
                    if isinstance(s.value, ast.Name) and s.value.id in fresh:
                        for p, t in ps:
                            if isinstance(t, (ast.Attribute, ast.Subscript)):
                                stores.setdefault(s.value.id, []).append((p, t, s))
                own = {}
                for s in ast.walk(f):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                own.setdefault(t.attr, []).append(s)
                for y, ss in own.items():
                    for s in ss:
                        v = s.value
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr != y \
                                and {y, v.attr} & set(self.mutattr) and len(ss) == 1 and len(own.get(v.attr, [])) == 1 \
                                and new(own[v.attr][0].value):
                            self.report(m, f, c, s, self.tags(f), "attributes %s, %s" % (y, v.attr), "an object each",
                                        "one object, changed in place")
                for n, ss in stores.items():
                    if not any(p for p, t, s in ss):
                        continue
                    d = fresh[n]
                    many = len({ast.dump(t) for p, t, s in ss}) > 1 and not self.exclusive(f, [s for p, t, s in ss])
                    loop = any(p and set(where.get(id(s), ())) - set(where.get(id(d), ())) and not isinstance(t, ast.Attribute)
                               for p, t, s in ss)
                    if many or loop:
                        self.report(m, f, c, ss[0][2], self.tags(f), "places %s" % ", ".join(sorted({ast.unparse(t) for p, t, s in ss})),
                                    "an object each", "one object %s, changed in place" % n)

    # ----------------------------------------------------------------- S10
    def stale(self):
        src = [f for m, f, c in self.fns if self.unitof.get(id(f), "").endswith("._get_time_remaining")]
        if not src:
            return
        names = {f.name for f in src}
        home = {c for m, f, c in self.fns if f in src}
        mine = [(m, f, c) for m, f, c in self.fns if c in home and f not in src]
        slow = {"solve", "solve_and_dive", "resolve"}
        while True:
            more = {f.name for m, f, c in mine if f.name not in slow and f.name not in names
                    and any(isinstance(n, ast.Call) and called(n) in slow for n in ast.walk(f))}
            if not more:
                break
            slow |= more

        def reading(e):
            return isinstance(e, ast.Call) and called(e) in names

        # parameters that receive a reading
        params = {}
        for m, f, c in mine:
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    g = next((g for _, g, _ in mine if g.name == called(n)), None)
                    if g is None:
                        continue
                    ps = [a.arg for a in g.args.posonlyargs + g.args.args]
                    if ps and ps[0] == "self":
                        ps = ps[1:]
                    for i, a in enumerate(n.args):
                        if reading(a) and i < len(ps):
                            params.setdefault(g.name, set()).add(ps[i])
                    for k in n.keywords:
                        if k.arg and reading(k.value):
                            params.setdefault(g.name, set()).add(k.arg)
        for m, f, c in mine:
            hit = Stale(names, slow, params.get(f.name, ())).run(f)
            if hit is not None:
                t = set()
                for g in self.nearest(f):
                    t |= self.tags(g)
                if "C23" in t:
                    self.report(m, f, c, hit, {"C23"}, "remaining time", "read again after a model has been solved",
                                "value read before used at %s" % ast.unparse(hit)[:60])

    def walkloops(self, body, loops, where):
        for s in body:
            where[id(s)] = loops
            inner = loops + (id(s),) if isinstance(s, (ast.For, ast.While)) else loops
            for b in ("body", "orelse", "finalbody"):
                self.walkloops(getattr(s, b, []) or [], inner, where)
            for h in getattr(s, "handlers", []):
                self.walkloops(h.body, inner, where)

    @staticmethod
    def exclusive(f, ss):
        """all stores lie in different branches of one conditional"""
        for n in ast.walk(f):
            if isinstance(n, ast.If) and n.orelse:
                a = {id(x) for b in n.body for x in ast.walk(b)}
                b = {id(x) for y in n.orelse for x in ast.walk(y)}
                if all(id(s) in a or id(s) in b for s in ss) and len([s for s in ss if id(s) in a]) <= 1 and len([s for s in ss if id(s) in b]) <= 1:
                    return True
        return False


class Stale:
    """forward flow over one function: variable -> has a model been solved since it was read (False/True)"""

    def __init__(self, src, slow, params):
        self.src, self.slow, self.params, self.hit = src, slow, params, None

    def run(self, f):
        self.block(f.body, {p: False for p in self.params})
        return self.hit

    def block(self, body, st):
        for s in body:
            if st is None:
                break
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return b if a is None else a
        return {k: a.get(k, False) or b.get(k, False) for k in set(a) | set(b)}

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            return self.join(self.block(s.body, dict(st)), self.block(s.orelse, dict(st)))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                st = self.expr(s.iter, st)
            self.loops = getattr(self, "loops", [])
            out = None
            for _ in range(3):
                if isinstance(s, ast.While):
                    st = self.expr(s.test, st)
                self.loops.append([None, None])
                end = self.block(s.body, dict(st))
                brk, cont = self.loops.pop()
                out = self.join(out, brk)
                st = self.join(st, self.join(end, cont))
            return self.join(out, self.block(s.orelse, dict(st)))
        if isinstance(s, (ast.Break, ast.Continue)) and getattr(self, "loops", None):
            i = 0 if isinstance(s, ast.Break) else 1
            self.loops[-1][i] = self.join(self.loops[-1][i], st)
            return None
        if isinstance(s, ast.Try):
            end = self.block(s.body, dict(st))
            for h in s.handlers:
                end = self.join(end, self.block(h.body, dict(st)))
            return self.block(s.finalbody, self.block(s.orelse, end))
        if isinstance(s, ast.With):
            return self.block(s.body, st)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                st = self.expr(e, st)
        if isinstance(s, (ast.Return, ast.Raise)):
            return None
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = dict(st)
                    if isinstance(s.value, ast.Call) and called(s.value) in self.src:
                        st[t.id] = False
                    elif isinstance(s.value, ast.Name) and s.value.id in st:
                        st[t.id] = st[s.value.id]
                    else:
                        st.pop(t.id, None)
        return st

    def expr(self, e, st):
        """uses first, then the effects of the calls (arguments are evaluated before the call)"""
        if isinstance(e, ast.Call):
            n = called(e)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("logger", "logging") \
                    or n in ("isinstance", "print"):
                return st
            if isinstance(e.func, ast.Attribute):
                st = self.expr(e.func.value, st)
            for a in list(e.args) + [k.value for k in e.keywords]:
                st = self.expr(a, st)
            return {k: True for k in st} if n in self.slow else st
        if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and st.get(e.id) and self.hit is None:
                self.hit = e
            return st
        if isinstance(e, ast.Lambda):
            return st
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.comprehension):
                for y in ast.iter_child_nodes(x):
                    if isinstance(y, ast.expr):
                        st = self.expr(y, st)
            elif isinstance(x, ast.expr):
                st = self.expr(x, st)
        return st


def share(suite):
    return Share(suite).run()

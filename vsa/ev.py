"""Predicated value-flow evaluation of Python functions into canonical summaries.

Every statement is interpreted once, under the guard (a decision diagram) that
says when it is reached; assignments join with if-then-else, loops are turned
into quantified segments, folds or recurrences.  Inputs are symbols: nothing of
vrpy, pulp, networkx or cspy is imported or run.
"""
import ast
import builtins
from . import terms as T
from . import ops as O
from .terms import (mk, num, string, fresh, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, band, bor, bnot, ite, lift, eq, truth,
                    atom, leaves, gv, subst, mk_lam, opaque, is_bool)
from .ops import sel, mapset, member, tup, ext, EMPTYD, EMPTYL, VARDOM, plain

SELF = mk("sym", "self")
INJ = ("edges", "nodes", "succ", "pred", "range")

CONST_EXT = {
    "pulp.LpBinary": string("Binary"), "pulp.LpInteger": string("Integer"), "pulp.LpContinuous": string("Continuous"),
    "pulp.LpMinimize": num(1), "pulp.LpMaximize": num(-1), "pulp.LpConstraintLE": num(-1),
    "pulp.LpConstraintEQ": num(0), "pulp.LpConstraintGE": num(1), "pulp.LpStatusOptimal": num(1),
    "pulp.LpStatusInfeasible": num(-1), "pulp.LpStatusNotSolved": num(0), "pulp.LpStatusUnbounded": num(-2),
    "pulp.LpStatusUndefined": num(-3), "math.inf": mk("ext", "float.inf"), "numpy.inf": mk("ext", "float.inf"),
}
SIGS = {
    "pulp.LpVariable": [("name", None), ("lowBound", NONE), ("upBound", NONE), ("cat", string("Continuous")), ("e", NONE)],
    "pulp.LpVariable.dicts": [("name", None), ("indices", NONE), ("lowBound", NONE), ("upBound", NONE),
                              ("cat", string("Continuous")), ("indexStart", EMPTYL)],
    "pulp.LpProblem": [("name", string("NoName")), ("sense", num(1))],
    "pulp.LpConstraint": [("e", NONE), ("sense", num(0)), ("name", NONE), ("rhs", NONE)],
    "pulp.LpConstraintVar": [("name", NONE), ("sense", NONE), ("rhs", NONE), ("e", NONE)],
    "pulp.PULP_CBC_CMD": [("mip", TRUE), ("msg", TRUE), ("timeLimit", NONE), ("gapRel", NONE), ("gapAbs", NONE), ("presolve", NONE),
                          ("cuts", NONE), ("strong", NONE), ("options", NONE), ("warmStart", FALSE), ("keepFiles", FALSE),
                          ("path", NONE), ("threads", NONE), ("logPath", NONE), ("timeMode", string("elapsed")), ("maxNodes", NONE)],
    "pulp.CPLEX_CMD": [("mip", TRUE), ("msg", TRUE), ("timeLimit", NONE), ("gapRel", NONE), ("gapAbs", NONE), ("options", NONE),
                       ("warmStart", FALSE), ("keepFiles", FALSE), ("path", NONE), ("threads", NONE), ("logPath", NONE),
                       ("maxMemory", NONE), ("maxNodes", NONE)],
    "pulp.GUROBI": [("mip", TRUE), ("msg", TRUE), ("options", NONE), ("timeLimit", NONE)],
    "networkx.shortest_path": [("G", None), ("source", NONE), ("target", NONE), ("weight", NONE)],
    "networkx.has_path": [("G", None), ("source", NONE), ("target", NONE)],
    "networkx.shortest_path_length": [("G", None), ("source", NONE), ("target", NONE), ("weight", NONE)],
    "networkx.shortest_simple_paths": [("G", None), ("source", NONE), ("target", NONE), ("weight", NONE)],
    "cspy.BiDirectional": [("G", None), ("max_res", None), ("min_res", None), ("preprocess", FALSE),
                           ("direction", string("both")), ("method", string("unprocessed")), ("time_limit", NONE),
                           ("threshold", NONE), ("elementary", FALSE), ("bounds_pruning", FALSE),
                           ("find_critical_res", FALSE), ("critical_res", NONE), ("REF_callback", NONE),
                           ("two_cycle_elimination", FALSE)],
}
PURE_METHODS = {
    "get", "keys", "items", "values", "index", "count", "copy", "deepcopy", "variables", "startswith", "endswith",
    "value", "lower", "upper", "strip", "split", "join", "replace", "format", "successors", "predecessors",
    "neighbors", "has_edge", "has_node", "number_of_nodes", "number_of_edges", "to_directed", "edge_subgraph",
    "subgraph", "choice", "uniform", "in_degree", "out_degree", "degree", "isdisjoint", "issubset", "union",
    "intersection", "difference", "rindex", "tolist", "item", "valid",
}
GRAPHY = {"G", "sub_G", "_H", "_sub_G", "_input_graph"}
LOGGERS = ("logging.",)


KEYS = {k: ast.parse(v, mode="eval").body for k, v in {
    ("_SubProblemLP", "x"): "self.sub_G.edges()",
    ("_MasterSolvePulp", "makespan_constr"): "range(1, self._n_columns)",
    ("_MasterSolvePulp._add_maximum_makespan_constraints", "c:self.makespan_constr"): "range(1, self._n_columns)",
    ("_Schedule", "y"): "self.routes",
    ("_Schedule", "y", "[]"): "range(self.time_span)",
}.items()}


class Stop(Exception):
    pass


class Event:
    __slots__ = ("kind", "payload", "guard", "quants", "loc", "seq", "nested", "locs")

    def __init__(self, kind, payload, guard, loc, seq):
        self.kind, self.payload, self.guard, self.loc, self.seq = kind, payload, guard, loc, seq
        self.quants = []
        self.nested = ()
        self.locs = [loc]

    def clone(self):
        e = Event(self.kind, self.payload, self.guard, self.loc, self.seq)
        e.quants = list(self.quants)
        return e


# the columns of the master: a call adds its own, under a name no other has, and leaves the others as they are;
# asking for a name before or after columns of other names were added is the same
GROWS = {"y"}


class Frame:
    n = 0

    def __init__(self, fn, cls, parent=None, selfv=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn, self.cls, self.parent, self.selfv = fn, cls, parent, selfv
        self.loops = []
        self.mod = fn.mod
        self.raised = FALSE
        self.locals = set()


def derotate(body):
    """S; while c: S  ->  while True: S; if not c: break"""
    out = []
    for s in body:
        out.append(s)
        if not isinstance(s, ast.While) or s.orelse or isinstance(s.test, ast.Constant):
            continue
        k = len(s.body)
        pre = out[-1 - k:-1]
        if len(pre) < k or [ast.dump(x) for x in pre] != [ast.dump(x) for x in s.body] or escapes(s.body):
            continue
        t = ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test)
        b = ast.copy_location(ast.If(t, [ast.copy_location(ast.Break(), s.test)], []), s.test)
        out[-1 - k:] = [ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), s.test), list(s.body) + [b], []), s)]
    return out


def stops(body):
    """some statement leaves the enclosing loop"""
    return any(isinstance(x, (ast.Break, ast.Return)) for b in body for x in ast.walk(b))


def raises(body):
    """ends by raising, on every path"""
    if not body:
        return False
    s = body[-1]
    return isinstance(s, ast.Raise) or isinstance(s, ast.If) and raises(s.body) and raises(s.orelse)


def escapes(body):
    """break or continue of the enclosing loop"""
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Continue)):
            return True
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))
    return False


class Loop:
    def __init__(self):
        self.brk = FALSE
        self.ret = FALSE


def frozen(e):
    """an immutable literal"""
    if isinstance(e, ast.Tuple):
        return all(frozen(x) for x in e.elts)
    if isinstance(e, ast.UnaryOp):
        return frozen(e.operand)
    if isinstance(e, ast.BinOp):
        return frozen(e.left) and frozen(e.right)
    return isinstance(e, ast.Constant)


class Summary:
    pass


class Closure:
    def __init__(self, node, frame, fn=None):
        self.node, self.frame, self.fn = node, frame, fn


class Ev:
    def __init__(self, prog, units=None, budget=400000, info=None, isfield=None):
        self.prog = prog
        self.isfield = isfield
        self.dflt, self.extra = {}, {}
        self.info = info
        self.units = units if units is not None else {}  # qual -> UnitInfo(reads, mods, pure, arity)
        self.st = {}
        self.live = TRUE
        self.ctx = TRUE
        self.events = []
        self.frames = []
        self.seq = 0
        self.reads = set()
        self.kept = set()      # attributes whose value on entry survives on some path
        self.writers = {}
        self.closures = {}
        self.origin = {}
        self.ddict = {}
        self.inplace = set()
        self.occ = {}
        self.nref = 0
        self.fresh_refs = set()
        self.raises = FALSE
        self.depth = 0
        self.notes = []
        self.inlined = set()
        self.line = 0
        self.nloop = 0
        self.calls_seen = set()
        self.work = 0
        self.budget = budget

    # ------------------------------------------------------------ state
    def init(self, key):
        k = key[0]
        if k == "a":
            return mk("attr", key[1], key[2])
        if k == "c":
            return key[1]
        if k == "na":
            return mk("na0", key[1], string(key[2]) if isinstance(key[2], str) else key[2])
        if k == "ea":
            return mk("ea0", key[1], string(key[2]) if isinstance(key[2], str) else key[2])
        if k == "ga":
            return mk("ga0", key[1])
        if k == "g":
            return mk("g0", key[1])
        if k == "v":
            return key[1]
        if k == "lp":
            return mk("lp0")
        return UNDEF

    def get(self, key):
        v = self.st.get(key)
        if v is None:
            if key[0] in ("a", "c", "na", "ea", "ga", "g", "lp"):
                self.reads.add(key)
            return self.init(key)
        return v

    def put(self, key, val, guard=None):
        g = self.live if guard is None else guard
        if g is FALSE:
            return
        old = self.get(key) if key[0] == "e" or key[0] == "ret" else self.st.get(key, None)
        if old is None:
            old = self.init(key)
        self.st[key] = ite(g, val, old)
        if key[0] not in ("e", "ret"):
            self.writers.setdefault(key, []).append(self.loc())

    def loc(self):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return ("?", 0, "?")
        return (fr.mod.path, self.line, fr.fn.qual)

    def emit(self, kind, payload, guard=None):
        g = self.live if guard is None else guard
        if g is FALSE:
            return None
        self.seq += 1
        e = Event(kind, payload, g, self.loc(), self.seq)
        self.events.append(e)
        return e

    def newref(self, kind, content):
        self.nref += 1
        r = mk("ref", kind, self.prog.label, self.nref)
        self.fresh_refs.add(r)
        if kind == "graph":
            self.st[("ga", r)] = content
            self.st[("g", r)] = EMPTYL
        else:
            self.st[("c", r)] = content
        return r

    def cont(self, v):
        """content of a (pointer to a) container"""
        if v.op == "GV":
            return gv([(self.cont(l), g) for l, g in v.args])
        if v.op in ("num", "str", "tuple", "none", "list", "map", "concat", "dict", "poly", "dom", "B", "TRUE", "FALSE"):
            return v
        if v.op == "view":
            return self.viewmap(v)
        r = self.st.get(("c", v))
        if r is not None:
            return r
        if v.op != "ref" and self.inplace and self.origin.get(v) in self.inplace:
            return self.place(v)
        if v.op in ("attr", "sym", "item", "na", "ea", "ga", "post"):
            self.reads.add(("c", v))
        return v

    def seqc(self, v):
        """content as iterated: a set holds each of its elements once"""
        if v.op == "GV":
            return gv([(self.seqc(l), g) for l, g in v.args])
        c = self.cont(v)
        if v.op == "ref" and v.args[0] == "set":
            return lift(lambda z: z if self.once(z) else mk("setof", z), c, split_bool=False)
        return c

    def once(self, c):
        c = O.strip_seq(c)
        if c.op in ("dom", "map", "setof", "view"):
            return c.op != "dom" or c.args[0].op in INJ
        if c.op == "elems":
            return self.distinct(c.args[0])
        if c.op == "list":
            if all(s.op == "leaf" and s.args[1].op in ("str", "num") for s in c.args):
                return len({s.args[1] for s in c.args}) == len(c.args)
            if len(c.args) <= 1 and all(s.op == "leaf" for s in c.args):
                return True
            if len(c.args) == 1 and c.args[0].op == "q":
                d, lam = c.args[0].args
                x = fresh()
                b = T.open_lam(lam, x)
                if b.op != "leaf" or not (d.op in INJ or d.op == "elems" and self.distinct(d.args[0])):
                    return False
                return b.args[1] is x or b.args[1] is O.dom_elem(d, x)
        return False

    # ------------------------------------------------------------ summary of a unit
    def run(self, fn, cls, argnames=None, bound=()):
        fr = Frame(fn, cls, None, SELF if cls else None)
        self.frames.append(fr)
        a = fn.node.args
        names = list(fn.params)
        if cls and not fn.static and names:
            self.st[("e", fr.id, names[0])] = SELF
            names = names[1:]
        for i, n in enumerate(names):
            nm = argnames[i] if argnames and i < len(argnames) else n
            self.st[("e", fr.id, n)] = mk("sym", nm)
        for n in fn.kwonly:
            self.st[("e", fr.id, n)] = mk("sym", n)
        if fn.vararg:
            vs = mk("sym", "*" + fn.vararg)
            if fn.name == "__init__" and cls:
                b = self.prog.method(cls, "__init__", after=cls)
                if b is not None:
                    vs = tup(*[mk("sym", p) for p in b.sig()[0]])
            self.st[("e", fr.id, fn.vararg)] = vs
        if fn.kwarg:
            self.st[("e", fr.id, fn.kwarg)] = mk("sym", "**" + fn.kwarg)
        for n, v in bound:
            self.st[("e", fr.id, n)] = self.ev(v)
        self.st[("ret", fr.id)] = UNDEF
        self.fresh0 = set()
        if fn.name == "__init__" and cls and self.isfield:
            for n, e in cls.consts.items():
                if self.isfield(cls.name, n) and frozen(e):
                    self.line = e.lineno
                    self.put(("a", SELF, n), self.constexpr(e, cls.mod))
        try:
            self.block(fn.node.body)
        except RecursionError:
            self.notes.append("recursion limit")
            self.st[("ret", fr.id)] = opaque("recursion")
        g = band(self.live, bnot(fr.raised))
        r = self.st[("ret", fr.id)]
        if r is UNDEF:
            r = NONE
        elif g is not FALSE:
            r = ite(g, NONE, r)
        s = Summary()
        s.fn = fn
        s.ret = self.resolve(self.dropundef(r))
        s.events = self.events
        for e in s.events:
            if e.kind != "call":
                e.payload = self.resolve(e.payload)
        s.finals = {}
        for k, v in self.st.items():
            if k[0] in ("e", "ret"):
                continue
            if k[0] != "lp" and isinstance(k[1], T.T) and any(t.op == "ref" for t in T.subterms(k[1])):
                continue
            i = self.init(k)
            v = self.resolve(v)
            if v is not i:
                s.finals[k] = (i, v, self.writers.get(k, []))
                if k[0] == "a" and i in T.subterms(v):
                    self.kept.add(k)
        s.raises = self.raises
        s.reads = set(k for k in self.reads if not (k[0] != "lp" and any(t.op in ("ref", "var") for t in T.subterms(k[1]))))
        s.kept = set(k for k in self.kept if not any(t.op in ("ref", "var") for t in T.subterms(k[1])))
        s.notes = self.notes
        s.inlined = self.inlined
        s.calls = self.calls_seen
        self.frames.pop()
        return s

    def dropundef(self, v):
        if v.op == "GV" and any(l is UNDEF for l, _ in v.args):
            ps = [(l, g) for l, g in v.args if l is not UNDEF]
            if len(ps) == 1:
                return ps[0][0]
            return mk("GV", *ps)
        return v

    def resolve(self, t, only=None, memo=None):
        """replace fresh references by their current content"""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        refs = [s for s in T.subterms(t) if s.op == "ref" and (only is None or s in only)]
        if not refs:
            memo[t] = t
            return t
        m = {}
        for r in refs:
            if r in memo and memo[r] is None:
                m[r] = mk("cyc")
                continue
            memo[r] = None
            m[r] = self.refval(r, only, memo)
            memo[r] = m[r]
        out = subst(t, m)
        memo[t] = out
        return out

    def refval(self, r, only, memo):
        kind = r.args[0]
        if kind == "graph":
            parts = [("g", self.resolve(self.st.get(("g", r), EMPTYL), only, memo)),
                     ("ga", self.resolve(self.st.get(("ga", r), EMPTYD), only, memo))]
            for k in sorted((k for k in self.st if k[0] in ("na", "ea") and k[1] is r), key=lambda k: (k[0], str(k[2]))):
                parts.append((k[0] + ":" + str(k[2]), subst(self.resolve(self.st[k], only, memo), {r: mk("me")})))
            return mk("obj", "DiGraph", tuple((string(a), subst(b, {r: mk("me")})) for a, b in parts))
        c = self.resolve(self.st.get(("c", r), r if False else mk("lost")), only, memo)
        if kind == "set":
            return mk("setof", c)
        return c

    # ------------------------------------------------------------ statements
    def block(self, body):
        if any(isinstance(s, ast.While) for s in body):
            body = derotate(body)
        for s in body:
            if self.live is FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        self.line = s.lineno
        self.work += 1
        if self.work > self.budget:
            raise Stop("budget")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append("statement %s at line %d" % (type(s).__name__, s.lineno))
            return
        m(s)

    def s_Pass(self, s):
        pass

    s_Import = s_Pass
    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        for a in s.names:
            base = s.module or ""
            if s.level or base.split(".")[0] == self.prog.pkg:
                b = base.split(".")
                if b and b[0] == self.prog.pkg:
                    b = b[1:]
                mm = self.prog.mods.get(".".join(b)) or self.prog.mods.get(b[-1] if b else "")
                if mm is not None:
                    r = self.prog.lookup(mm, a.name)
                    v = self.namev(r, mm, a.name)
                    if v is not None:
                        self.put(("e", fr.id, a.asname or a.name), v)
                continue
            self.put(("e", fr.id, a.asname or a.name), self.extv(base + "." + a.name))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value)
            return
        self.ev(s.value)

    def do_yield(self, y):
        fr = self.frames[-1]
        key = ("e", fr.id, "<yield>")
        r = self.st.get(key)
        if r is None:
            return
        if isinstance(y, ast.Yield):
            v = self.ev(y.value) if y.value is not None else NONE
            self.put(("c", r), O.lappend(self.cont(r), self.live, v), TRUE)
        else:
            v = self.ev(y.value)
            self.put(("c", r), O.lextend(self.cont(r), self.live, self.listval(v)), TRUE)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        cur = self.ev(_load(t))
        if isinstance(s.op, ast.Add) and self.is_lp(cur):
            self.lpadd(cur, s.value)
            return
        v = self.ev(s.value)
        if isinstance(s.op, ast.Add):
            # in-place list extension
            isl = False
            for l, g in leaves(cur):
                c = self.cont(l)
                if l.op == "ref" and l.args[0] == "list" or c.op in ("list", "concat"):
                    isl = True
            vc = self.cont(v)
            if isl or vc.op in ("list", "concat"):
                self.mutate_list(cur, lambda c, g: O.lextend(c, g, self.listval(v)), t)
                return
        self.assign(t, self.binop(s.op, cur, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.put(self.varkey(t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            c = self.cont(v)
            for i, e in enumerate(t.elts):
                if star and i == star[0]:
                    n = len(t.elts) - i - 1
                    self.assign(e.value, O.slice_(c, num(i), num(-n) if n else NONE))
                elif star and i > star[0]:
                    self.assign(e, self.getitem(v, num(i - len(t.elts))))
                else:
                    self.assign(e, self.getitem(v, num(i)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            for l, g in leaves(o):
                gg = band(self.live, g)
                if gg is FALSE or l is NONE:
                    continue
                if l is not SELF and l is not self.frames[-1].selfv and l.op not in ("ref", "new"):
                    self.emit("set", mk("set", l, t.attr, self.val(v), self.lpstate()), gg)
                    if l.fv:
                        continue
                self.put(("a", l, t.attr), v, gg)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v, t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def varkey(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if ("e", f.id, name) in self.st and (f is fr or name in getattr(fr, "nonlocals", ())):
                return ("e", f.id, name)
            f = f.parent
        return ("e", fr.id, name)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.setitem(self.ev(t.value), self.index(t.slice), O.DEL, t.value)

    def s_If(self, s):
        if s.orelse and raises(s.body) != raises(s.orelse):
            # if c: raise; else: S  ->  if c: raise; S
            t, b, r = s.test, s.body, s.orelse
            if raises(r):
                t, b, r = ast.copy_location(ast.UnaryOp(ast.Not(), t), t), r, b
            self.s_If(ast.copy_location(ast.If(t, b, []), s))
            if self.live is not FALSE:
                self.block(r)
            return
        c = self.test(s.test)
        c = self.simp(c)
        l0, r0 = self.live, self.raises
        f = self.frames[-1]
        ra0, f.raised = f.raised, FALSE
        x0 = self.ctx
        self.live = band(l0, c)
        self.ctx = band(x0, c)
        if self.live is not FALSE:
            self.block(s.body)
        lt = self.live
        self.live = band(l0, bnot(c))
        self.ctx = band(x0, bnot(c))
        if self.live is not FALSE and s.orelse:
            self.block(s.orelse)
        le = self.live
        self.ctx = x0
        self.live = bor(lt, le, band(f.raised, l0))
        f.raised = bor(f.raised, ra0)

    def simp(self, c):
        """simplify a condition by what is already known here"""
        k = band(self.ctx, self.live)
        if c.op == "B":
            if band(c, k) is FALSE:
                return FALSE
            if band(bnot(c), k) is FALSE:
                return TRUE
        return c

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        f = self.frames[-1]
        self.put(("ret", f.id), v)
        if f.loops:
            f.loops[-1].ret = bor(f.loops[-1].ret, self.live)
        self.live = FALSE

    def s_Break(self, s):
        f = self.frames[-1]
        if f.loops:
            f.loops[-1].brk = bor(f.loops[-1].brk, self.live)
        self.live = FALSE

    def s_Continue(self, s):
        self.live = FALSE

    def s_Raise(self, s):
        e = s.exc
        nm = "?"
        if e is not None:
            f = e.func if isinstance(e, ast.Call) else e
            nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?")
        self.do_raise(nm)

    def do_raise(self, nm):
        self.emit("raise", mk("exc", string(nm)))
        f = self.frames[-1]
        f.raised = bor(f.raised, self.live)
        if not any(fr.loops for fr in self.frames):
            self.raises = bor(self.raises, self.live)
        self.live = FALSE

    def s_Assert(self, s):
        c = self.simp(self.test(s.test))
        l0 = self.live
        self.live = band(l0, bnot(c))
        if self.live is not FALSE:
            self.do_raise("AssertionError")
        self.live = l0

    def s_Try(self, s):
        l0 = self.live
        self.block(s.body)
        le = self.live
        for h in s.handlers:
            nm = ast.unparse(h.type) if h.type is not None else "BaseException"
            calls = sorted({(n.func.id if isinstance(n.func, ast.Name) else n.func.attr) for b in s.body for n in ast.walk(b)
                            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))})
            if all(isinstance(x, ast.Raise) and x.exc is None for x in h.body):
                continue
            a = atom(mk("exc", string(nm.split(".")[-1]), string(",".join(calls[:1]))))
            self.live = band(l0, a)
            if h.name:
                self.put(("e", self.frames[-1].id, h.name), mk("excval", string(nm)))
            self.block(h.body)
            le = bor(le, self.live)
        self.live = le
        if s.orelse:
            self.block(s.orelse)
        if s.finalbody:
            self.live = l0
            self.block(s.finalbody)
            self.live = le

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        c = Closure(s, fr)
        from .front import Fn
        c.fn = Fn(fr.mod, s, None)
        self.put(("e", fr.id, s.name), self.mkclosure(c))

    def mkclosure(self, c):
        i = len(self.closures) + 1
        t = mk("closure", self.prog.label, i, id(self))
        self.closures[t] = c
        return t

    # ------------------------------------------------------------ loops
    def plainiter(self, target, it):
        """enumerate whose index is never read"""
        fn = self.frames[-1].fn
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple") and \
                len(it.args) == 1 and isinstance(it.args[0], ast.Call) and not it.keywords:
            it = it.args[0]
        if fn is None or not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate"
                              and it.args and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2
                              and isinstance(target.elts[0], ast.Name)):
            return target, it
        n = target.elts[0].id
        if any(isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Store) for x in ast.walk(fn.node)):
            return target, it
        return target.elts[1], it.args[0]

    def s_For(self, s):
        target, it = self.plainiter(s.target, s.iter)
        if target is not s.target:
            s = ast.copy_location(ast.For(target, it, s.body, s.orelse), s)
        it = self.ev(s.iter)
        it = self.simpv(it)
        if it.op == "GV" and 1 < len(it.args) <= 3 and self.iteration(it)[0] != "unroll":
            self.forsplit(s, it)
            return
        self.forover(s, it)

    def forsplit(self, s, it):
        """for x in (A if c else B): the loop of the branch taken"""
        f = self.frames[-1]
        l0, x0, out = self.live, self.ctx, FALSE
        ra0, f.raised = f.raised, FALSE
        for l, g in it.args:
            self.live, self.ctx = band(l0, g), band(x0, g)
            if self.live is not FALSE:
                self.forover(s, l)
            out = bor(out, self.live)
        self.ctx = x0
        self.live = bor(out, band(f.raised, l0))
        f.raised = bor(f.raised, ra0)

    def forover(self, s, it):
        c = self.seqc(it)
        if c.op == "concat" and any(a.op == "replist" for a in c.args) and not s.orelse and not stops(s.body):
            # for x in A + B: the loop over A, then the loop over B
            for a in c.args:
                self.forover(s, a)
            return
        seq = self.iteration(it)
        if seq[0] == "unroll":
            self.unroll(s, seq[1])
            return
        self.forloop(seq[1], lambda v: self.assign(s.target, v), s.body, s.orelse, seq[2],
                     seq[3] if seq[0] == "domg" else None)

    def unroll(self, s, els):
        f = self.frames[-1]
        l0 = self.live
        lp = Loop()
        f.loops.append(lp)
        run = l0
        for e in els:
            g = TRUE
            if isinstance(e, tuple):
                g, e = e
            self.live = band(run, g)
            if self.live is FALSE:
                continue
            ra = f.raised
            self.assign(s.target, e)
            self.block(s.body)
            run = band(run, bnot(lp.brk), bnot(lp.ret))
        f.loops.pop()
        if f.loops:
            f.loops[-1].ret = bor(f.loops[-1].ret, lp.ret)
        if s.orelse:
            self.live = run
            self.block(s.orelse)
            run = self.live
        self.live = bor(run, lp.brk)

    def simpv(self, v):
        return T.prune(v, band(self.ctx, self.live))

    def iteration(self, v):
        """how to iterate over a value: ("unroll",[..]) or ("dom", dom, elem(x))"""
        c = self.seqc(v)
        if c.op == "GV" and all(l.op in ("list", "concat", "tuple") for l, _ in c.args):
            # conditional literal lists: a list with guarded elements
            pls = [(plain(l), g) for l, g in c.args]
            if all(p is not None and len(p) <= 8 for p, _ in pls) and self.unrollable([x for p, _ in pls for x in p]):
                return ("unroll", [(g, x) for p, g in pls for x in p])
        p = plain(c)
        lit = O.literal(c)
        if lit is not None:
            p = [k for k, _ in lit]
        if p is not None and len(p) <= 12 and self.unrollable(p):
            return ("unroll", p)
        if c.op == "list" and c.args and len(c.args) <= 8 and all(x.op == "leaf" for x in c.args) and self.unrollable(
                [x.args[1] for x in c.args]):
            return ("unroll", [(x.args[0], x.args[1]) for x in c.args])
        return self.domain(c)

    def unrollable(self, p):
        return all(x.op in ("str", "tuple", "ref", "attr", "sym", "closure", "fnref", "cls", "ext", "bound", "item",
                            "na", "ea", "GV", "fmt", "call", "TRUE", "FALSE", "num") for x in p)

    def domain(self, c):
        c = self.simpv(c)
        if c.op == "replist":
            p = plain(c.args[0])
            if p is not None and len(p) == 1 and not p[0].fv:
                d = mk("range", ZERO, c.args[1])
                return ("dom", d, lambda x: p[0])
        if c.op == "dom":
            d = c.args[0]
            return ("dom", d, lambda x: O.dom_elem(d, x))
        if c.op == "itv":  # iteration with a computed element
            d, lam = c.args
            return ("dom", d, lambda x: T.open_lam(lam, x))
        if c.op == "view":
            k = c.args[0]
            if k == "nodes":
                return self.domain(self.nodesdom(c.args[1]))
            if k == "edges":
                return self.domain(self.edgesdom(c.args[1]))
            if k == "adj":
                return self.domain(self.succdom(c.args[1], c.args[2]))
            return self.domain(self.viewmap(c))
        c2 = O.strip_seq(c)
        if c2 is not c:
            return self.domain(c2)
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "q":
            s = c.args[0]
            d, lam = s.args
            v = fresh()
            b = T.open_lam(lam, v)
            if b.op == "leaf" and b.args[0] is TRUE:
                return ("dom", d, lambda x: subst(T.open_lam(lam, x).args[1], {}))
            if b.op == "leaf":
                return ("domg", d, lambda x: T.open_lam(lam, x).args[1], lambda x: T.open_lam(lam, x).args[0])
            d = mk("qdom", s)
            return ("dom", d, lambda x: x)
        if c.op == "map" and c.args[0] is EMPTYD and len(c.args) == 2 and c.args[1].op == "q":
            s = c.args[1]
            d, lam = s.args
            v = fresh()
            b = T.open_lam(lam, v)
            if b.op == "leaf" and b.args[0] is TRUE:
                return ("dom", d, lambda x: T.open_lam(lam, x).args[1])
            if b.op == "leaf":
                return ("domg", d, lambda x: T.open_lam(lam, x).args[1], lambda x: T.open_lam(lam, x).args[0])
        d = self.keydom(c)
        if d is not None:
            return ("dom", d, lambda x: O.dom_elem(d, x))
        d = lift(lambda z: mk("elems", z), c, split_bool=False)
        return ("dom", d, lambda x: x)

    def keydom(self, c):
        """keys of the containers whose unit of origin establishes them"""
        if c.op == "post" and (c.args[0], c.args[1]) in KEYS:
            k = KEYS[c.args[0], c.args[1]]
        elif c.op == "attr" and c.args[0] is SELF and self.frames[-1].cls is not None:
            k = None
            for cl in self.prog.mro(self.frames[-1].cls):
                k = k or KEYS.get((cl.name, c.args[1]))
        elif c.op == "item" and c.args[0].op == "attr" and c.args[0].args[0] is SELF and self.frames[-1].cls is not None:
            k = None
            for cl in self.prog.mro(self.frames[-1].cls):
                k = k or KEYS.get((cl.name, c.args[0].args[1], "[]"))
        else:
            k = None
        if k is None:
            return None
        f = Frame(self.frames[-1].fn, self.frames[-1].cls, None, SELF)
        f.mod = self.frames[-1].mod
        self.frames.append(f)
        self.st[("e", f.id, "self")] = SELF
        try:
            return self.domain(self.cont(self.ev(k)))[1]
        finally:
            self.frames.pop()
            del self.st[("e", f.id, "self")]

    def forloop(self, dom, bind, body, orelse, elem, guardf=None, cond=None):
        f = self.frames[-1]
        outer = self.live
        x0 = self.ctx
        base_st = self.st
        ev0, seq0 = len(self.events), self.seq
        raised0, raises0 = f.raised, self.raises
        ph = {}
        fresh0 = set(self.fresh_refs)
        nframe0 = Frame.n
        outer_fv = frozenset()
        writers0 = {k: list(v) for k, v in self.writers.items()}
        x = fresh("i")
        if dom is not None:
            VARDOM[x] = dom
        self.ctx = band(self.ctx, self.live)
        line = self.line
        for attempt in range(12):
            self.st = dict(base_st)
            for k, p in ph.items():
                self.st[k] = p
            del self.events[ev0:]
            self.writers = {k: list(v) for k, v in writers0.items()}
            f.raised = raised0
            self.live = TRUE
            lp = Loop()
            f.loops.append(lp)
            self.line = line
            c = TRUE
            if cond is not None:
                c = self.test(cond)
            else:
                if guardf is not None:
                    self.live = guardf(x)
                bind(elem(x))
            ra = f.raised
            self.block(body)
            f.loops.pop()
            new = set(self.fresh_refs) - fresh0
            changed, hsets = {}, {}
            for k, v in self.st.items():
                b = ph.get(k)
                if b is None:
                    b = base_st.get(k)
                    if b is None:
                        b = self.init(k)
                if v is b:
                    continue
                if k[0] in ("e", "ret") and k[1] > nframe0:
                    continue
                if k[0] in ("a", "v") and k[1].fv:
                    continue
                if k[0] in ("ga", "na", "ea", "g", "c") and k[1].fv - outer_fv and k not in ph and not any(
                        k[1] is p for p in ph.values()):
                    hsets[k] = v
                    continue
                if k[0] not in ("e", "ret", "lp") and isinstance(k[1], T.T) and any(r in new for r in T.subterms(k[1]) if r.op == "ref"):
                    continue
                changed[k] = v
            # a variable that designates a list updated in the loop is carried by value
            vals = {}
            for k, p in ph.items():
                ck = ("c", p)
                if ck in changed:
                    vals[p] = changed.pop(ck)
            if vals:
                for k in ph:
                    if k in self.st and any(l in vals for l, _ in leaves(self.st[k])):
                        changed[k] = gv([(vals.get(l, l), g) for l, g in leaves(self.st[k])])
            miss = [k for k in changed if k not in ph]
            if not miss:
                break
            for k in miss:
                ph[k] = fresh("c")
        else:
            self.notes.append("loop did not stabilise")
        # resolve references allocated in this iteration
        memo = {}
        body_st = self.st
        F = {k: self.resolve(v, new, memo) for k, v in changed.items()}
        for k, v in hsets.items():
            # update of an object that depends on the iteration: one write per iteration
            e = self.emit("set", mk("hset", k[1], "%s:%s" % (k[0], k[2] if len(k) > 2 else ""), self.resolve(v, new, memo)), TRUE)
            w = self.writers.get(k)
            if w:
                e.loc = w[-1]
                e.locs = list(w)
        evs = self.events[ev0:]
        for e in evs:
            e.payload = self.resolve(e.payload, new, memo)
        stop = bor(lp.brk, lp.ret)
        retg = lp.ret
        self.nloop += 1
        allt = list(F.values()) + [e.payload for e in evs] + [e.guard for e in evs] + [stop, retg, c]
        for e in evs:
            for (_, d) in e.quants:
                allt.append(d)
        init = {k: (base_st[k] if k in base_st else self.init(k)) for k in F}
        byval = set()
        for k in F:
            if ph[k] in vals:
                byval.add(k)
                init[k] = self.resolve(init[k], None, {}) if init[k].op == "ref" or init[k].op == "GV" else init[k]
        phk = {k: ph[k] for k in F}

        whiledom = None
        if cond is not None:
            r = self.counter(F, init, phk, c, stop)
            if r is not None:
                k, n = r
                dom = mk("range", init[k], n)
                VARDOM[x] = dom
                m = {phk[k]: x}
                F = {kk: subst(v, m) for kk, v in F.items() if kk is not k and kk != k}
                final_counter = (k, ite(T.le(init[k], n), n, init[k]) if not (init[k] is ZERO and n.op == "len") else n)
                for e in evs:
                    e.payload, e.guard = subst(e.payload, m), subst(e.guard, m)
                    e.quants = [(v, subst(d, m)) for v, d in e.quants]
                stop, retg = subst(stop, m), subst(retg, m)
                c = TRUE
                allt = list(F.values()) + [e.payload for e in evs] + [e.guard for e in evs] + [stop, retg]
                for e in evs:
                    for (_, d) in e.quants:
                        allt.append(d)
                phk = {kk: phk[kk] for kk in F}
            else:
                final_counter = None
        else:
            final_counter = None
        if dom is not None:
            r = O.deindex(x, dom, allt)
            if r is None and dom.op == "range" and False:
                pass
            if r is not None:
                y, nd, m = r
                F = {k: subst(v, m) for k, v in F.items()}
                for e in evs:
                    e.payload, e.guard = subst(e.payload, m), subst(e.guard, m)
                    e.quants = [(v, subst(d, m)) for v, d in e.quants]
                stop, retg = subst(stop, m), subst(retg, m)
                x, dom = y, nd
            elif dom.op == "qdom":
                pass
        if cond is None and dom is not None:
            c0 = self.onlyat(x, dom, F, phk, evs, stop, retg)
            if c0 is not None:
                here = O.indom(c0, dom)
                m = {phk[k]: init[k] for k in F}
                m[x] = c0
                def at(v, i):
                    if v.op == "map":
                        for sg in v.args[1:]:
                            i = mapset(i, band(here, subst(sg.args[0], m)), subst(sg.args[1], m), subst(sg.args[2], m))
                        return i
                    return ite(here, subst(v, m), i)
                fin = {k: at(v, init[k]) if not self.plainlast(k, F, phk) else
                       self.fold(v, phk[k], init[k], x, dom, dom, FALSE, k)[1](dom) for k, v in F.items()}
                for e in evs:
                    e.payload, e.guard = subst(e.payload, m), band(here, subst(e.guard, m))
                    e.quants = [(v, subst(d, m)) for v, d in e.quants]
                retg = band(here, subst(retg, m))
                stop = band(here, subst(stop, m))
                self.st = dict(base_st)
                self.ctx = x0
                for k, v in fin.items():
                    self.st[k] = v if outer is TRUE or k[0] == "e" and k not in base_st else ite(outer, v, init[k])
                if outer is not TRUE:
                    for e in evs:
                        e.nested = e.nested + (outer,) if e.nested else (outer,)
                        e.guard = band(outer, e.guard)
                f.raised = raised0
                if retg is not FALSE and f.loops:
                    f.loops[-1].ret = bor(f.loops[-1].ret, band(outer, retg))
                self.live = band(outer, bnot(stop)) if orelse else band(outer, bnot(retg))
                if orelse:
                    self.block(orelse)
                    self.live = bor(self.live, band(outer, stop, bnot(retg)))
                return
        # own-key reads of maps written at this element only
        for k in list(F):
            F2 = self.ownkeys(k, phk[k], F, init, x, dom, evs, [stop, retg])
            if F2 is not None:
                F, (stop, retg) = F2
        # whether placeholders matter
        pset = {p: k for k, p in phk.items()}
        at, fin = {}, {}
        pending = dict(F)

        def sub_all(m):
            nonlocal stop, retg
            for kk in pending:
                pending[kk] = subst(pending[kk], m)
            for e in evs:
                e.payload, e.guard = subst(e.payload, m), subst(e.guard, m)
                e.quants = [(v, subst(d, m)) for v, d in e.quants]
            stop, retg = subst(stop, m), subst(retg, m)

        if cond is not None and final_counter is None:
            W = set()
            todo = [p for p in (c.fv | stop.fv) if p in pset]
            while todo:
                p = todo.pop()
                if p in W:
                    continue
                W.add(p)
                todo.extend(z for z in pending[pset[p]].fv if z in pset)
            ks = self.sigorder([pset[p] for p in W], pending, pset, init)
            z = fresh("w")
            m = {phk[k]: mk("prj", z, i) for i, k in enumerate(ks)}
            lam = mk_lam(z, tup(mk("leaf", subst(c, m)), mk("leaf", subst(stop, m)), *[subst(pending[k], m) for k in ks]))
            wrec = mk("wrec", tup(*[init[k] for k in ks]), lam)
            dom = mk("wdom", wrec)
            VARDOM[x] = dom
            m = {}
            for i, k in enumerate(ks):
                m[phk[k]] = mk("prj", mk("wat", x, wrec), i)
                fin[k] = mk("prj", wrec, i)
            for k in ks:
                pending.pop(k)
            sub_all(m)
            stop_in = FALSE
            domx = dom
        else:
            domx = dom if stop is FALSE else None
        while pending:
            phs = {phk[k] for k in pending}
            pick = [k for k in pending if not ((pending[k].fv & phs) - {phk[k]})]
            if pick:
                m = {}
                for k in pick:
                    fk = pending.pop(k)
                    at[k] = (fk, phk[k])
                for k in pick:
                    fk, p = at[k]
                    if domx is None and not (stop.fv & phs):
                        domx2 = mk("until", dom, mk_lam(x, mk("leaf", stop)))
                    else:
                        domx2 = domx
                    a, fi = self.fold(fk, p, init[k], x, dom, domx2, stop, k)
                    fin[k] = fi
                    m[p] = a
                sub_all(m)
            else:
                # smallest mutually dependent group
                best = None
                for k in pending:
                    cl, todo = set(), [phk[k]]
                    while todo:
                        p = todo.pop()
                        if p in cl:
                            continue
                        cl.add(p)
                        todo.extend(z for z in pending[pset[p]].fv if z in phs)
                    if best is None or len(cl) < len(best):
                        best = cl
                ks = self.sigorder([pset[p] for p in best], pending, pset, init)
                z = fresh("w")
                m = {phk[k]: mk("prj", z, i) for i, k in enumerate(ks)}
                lam = mk_lam(x, mk_lam(z, tup(*[subst(pending[k], m) for k in ks])))
                it = tup(*[init[k] for k in ks])
                m = {}
                for i, k in enumerate(ks):
                    m[phk[k]] = mk("prj", mk("recat", x, dom, it, lam), i)
                    fin[k] = ("rec", it, lam, i)
                for k in ks:
                    pending.pop(k)
                sub_all(m)
        if stop is FALSE:
            dom2 = dom
        else:
            dom2 = mk("until", dom, mk_lam(x, mk("leaf", stop)))
        for k, v in list(fin.items()):
            if isinstance(v, tuple):
                fin[k] = mk("prj", mk("rec", dom2, v[1], v[2]), v[3])
            elif callable(v):
                fin[k] = v(dom2)
        # install results
        self.st = dict(base_st)
        self.ctx = x0
        self.live = outer
        for k, v in fin.items():
            if outer is TRUE or k[0] == "e" and k not in base_st:
                self.st[k] = v
            else:
                self.st[k] = ite(outer, v, init[k])
        if final_counter is not None:
            k, n = final_counter
            self.st[k] = ite(outer, n, init[k]) if outer is not TRUE else n
        # events
        for e in evs:
            e.quants.insert(0, (x, dom2))
            e.guard = e.guard
        if outer is not TRUE:
            for e in evs:
                e.nested = e.nested + (outer,) if e.nested else (outer,)
                # the outer guard does not depend on the loop variable
                e.guard = band(outer, e.guard)
        f.raised = raised0
        anyret = FALSE
        if retg is not FALSE:
            anyret = T.any_over(x, dom if T.implies(stop, retg) else dom2, retg)
            if f.loops:
                f.loops[-1].ret = bor(f.loops[-1].ret, band(outer, anyret))
        brk = band(stop, bnot(retg))
        if orelse:
            anystop = FALSE if stop is FALSE else T.any_over(x, dom, stop)
            self.live = band(outer, bnot(anystop))
            self.block(orelse)
            self.live = bor(self.live, band(outer, anystop, bnot(anyret)))
        else:
            self.live = band(outer, bnot(anyret))
        if cond is not None and c is not TRUE and False:
            pass

    def s_While(self, s):
        test, body = s.test, s.body
        while isinstance(test, ast.Constant) and test.value and not s.orelse and body:
            # while True: if c: break; S  ->  while not c: S
            b = body[0]
            if isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                body = body[1:]
                continue
            if not isinstance(b, ast.If) or self.effectful(b.test):
                break
            if len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                test, body = ast.copy_location(ast.UnaryOp(ast.Not(), b.test), b.test), b.orelse + body[1:]
            elif len(b.orelse) == 1 and isinstance(b.orelse[0], ast.Break):
                test, body = b.test, b.body + body[1:]
            else:
                break
        if not s.orelse and self.effectful(test):
            # what the last evaluation of the test does counts
            t = ast.copy_location(ast.UnaryOp(ast.Not(), test), test)
            b = ast.copy_location(ast.If(t, [ast.copy_location(ast.Break(), test)], []), test)
            body, test = [b] + body, ast.copy_location(ast.Constant(True), test)
        self.forloop(None, None, body, s.orelse, None, None, cond=test)

    def effectful(self, e):
        """evaluating the test changes state"""
        cls = next((f.cls for f in reversed(self.frames) if f.cls), None)
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                return True
            if not isinstance(x, ast.Call):
                continue
            f, m = x.func, None
            if isinstance(f, ast.Attribute):
                if f.attr in ("pop", "popleft", "popitem", "append", "remove", "add", "extend", "update", "setdefault"):
                    return True
                if isinstance(f.value, ast.Name) and f.value.id == "self" and cls is not None:
                    m = self.prog.method(cls, f.attr)
            elif isinstance(f, ast.Name):
                m = self.prog.funcs.get(f.id)
                if f.id == "next":
                    return True
            if m is not None:
                u = self.info(m.qual) if self.info is not None else None
                if u is None or u.mods or u.effect:
                    return True
        return False

    def counter(self, F, init, phk, c, stop):
        for k, f in F.items():
            p = phk[k]
            if T.sub(f, p) is ONE if f.op in ("poly", "var") else False:
                # c == (p < n)
                if c.op != "B":
                    continue
                for a in T.support(c):
                    if a.op in ("lt0", "le0") and p in a.fv:
                        pp = dict(T.to_poly(a.args[0]))
                        cc = pp.get((p,))
                        if cc not in (1, -1):
                            continue
                        rest = T.sub(a.args[0], T.mul(num(cc), p))
                        if rest.fv & set(phk.values()):
                            continue
                        n = T.neg(rest) if cc == 1 else rest
                        if c is T.lt(p, n):
                            return k, n
                        n1 = T.add(n, ONE)
                        if c is T.le(p, n) or c is T.lt(p, n1):
                            return k, n1
        return None

    def sigorder(self, ks, fs, pset, init):
        g = mk("sym", "<state>")
        m = {p: g for p in pset}
        return sorted(ks, key=lambda k: (T.show(subst(fs[k], m)), T.show(init[k]), str(k[0])))

    def onlyat(self, x, dom, F, phk, evs, stop, retg):
        """the one element of a duplicate-free domain at which the loop does anything"""
        if dom.op not in ("nodes", "range", "succ", "pred") and not (dom.op == "elems" and self.distinct(dom.args[0])):
            return None
        G = bor(stop, retg, *[e.guard for e in evs])
        for k, v in F.items():
            p = phk[k]
            if v is p or self.plainlast(k, F, phk):
                if v is not p and (stop is not FALSE or v.fv & set(phk.values())):
                    return None
                continue
            if v.op == "GV":
                G = bor(G, *[g for l, g in v.args if l is not p])
            elif v.op == "map" and v.args[0] is p and all(s.op == "leaf" for s in v.args[1:]):
                G = bor(G, *[s.args[0] for s in v.args[1:]])
            elif v.op == "concat" and v.args[0] is p and all(a.op == "list" and all(s.op == "leaf" for s in a.args) for a in v.args[1:]):
                G = bor(G, *[s.args[0] for a in v.args[1:] for s in a.args])
            else:
                return None
        if G is FALSE or G is TRUE:
            return None
        ph = set(phk.values())
        for a in T.support(G):
            if a.op == "eq" and (a.args[0] is x or a.args[1] is x):
                c = a.args[1] if a.args[0] is x else a.args[0]
                if x not in c.fv and not (c.fv & ph) and T.implies(G, T.atom(a)):
                    return c
        return None

    @staticmethod
    def plainlast(k, F, phk):
        return k[0] == "e" and not any(phk[k] in w.fv for w in F.values())

    def distinct(self, c):
        from .sorts import sort_of
        if c.op == "map":
            return True
        if c.op == "attr":
            s = sort_of(("attr", c.args[1]))
            return s is not None and s[0] == "map"
        return False

    def ownkeys(self, k, p, F, init, x, dom, evs, extra):
        f = F[k]
        if f.op != "map" or f.args[0] is not p or dom is None or dom.op not in INJ:
            return None
        keys = set()
        for s in f.args[1:]:
            if s.op != "leaf":
                return None
            keys.add(s.args[1])
        el = O.dom_elem(dom, x)

        def inj(t):
            if t is x or t is el:
                return True
            if t.op == "tuple":
                if any(inj(a) for a in t.args):
                    return True
                return el.op == "tuple" and all(a in t.args for a in el.args)
            return False
        if not all(inj(t) for t in keys):
            return None
        m = {}
        for t in keys:
            m[mk("item", p, t)] = sel(init[k], t)
            m[mk("in", t, p)] = member(t, init[k])
            # nested updates of the old value
        F = {kk: self.submap(v, m, p) for kk, v in F.items()}
        for e in evs:
            e.payload, e.guard = self.submap(e.payload, m, p), self.submap(e.guard, m, p)
        return F, [self.submap(t, m, p) for t in extra]

    def submap(self, t, m, p):
        if p not in t.fv:
            return t
        return subst(t, m)

    def fold(self, f, p, init, x, dom, dom2, stop, key):
        """closed form of a loop-carried value: (value at the start of iteration x, final value)"""
        fin = None
        if p not in f.fv:
            def last(d):
                if x not in f.fv and not (dom.op == "wdom" and any(z.op in ("post", "ret") for z in T.subterms(f))):
                    return ite(T.nonempty(dom), f, init)
                return mk("last", init, d, mk_lam(x, f))
            i0 = init
            if any(l.op == "ref" and l.args[0] != "graph" for l, _ in leaves(init)):
                i0 = self.resolve(init)
            return mk("prev", x, dom, i0, mk_lam(x, f)), last
        ls = leaves(f)
        # ---- sums
        if f.op != "B" and all(p not in g.fv for _, g in ls):
            ok, ts = True, []
            for l, g in ls:
                if l is p:
                    ts.append((ZERO, g))
                    continue
                if l.op == "poly":
                    t = T.sub(l, p)
                    if p not in t.fv:
                        ts.append((t, g))
                        continue
                ok = False
                break
            if ok and init.op not in ("list", "concat", "str", "map", "dict"):
                def tot(d):
                    r = ZERO
                    for t, g in ts:
                        r = T.add(r, T.sum_over(x, d, g, t))
                    return r
                return T.add(init, mk("psum", x, tot(dom))), lambda d: T.add(init, tot(d))
        # ---- a list or map extended on some paths only
        if f.op == "GV":
            for op in ("concat", "map"):
                if all(l is p or l.op == op and l.args[0] is p and not any(p in a.fv for a in l.args[1:]) for l, _ in ls) \
                        and all(p not in g.fv for _, g in ls):
                    segs = []
                    for l, g in ls:
                        if l is p:
                            continue
                        for a in l.args[1:]:
                            if op == "map":
                                segs.append(T.guard_seg(a, g))
                            elif a.op == "list":
                                segs += [T.guard_seg(b, g) for b in a.args]
                            else:
                                segs.append(mk("splice", g, a))
                    if op == "map":
                        f = mk("map", p, *segs)
                    elif len(segs) == 1 or not any(b.op == "splice" for b in segs):
                        f = mk("concat", p, mk("list", *segs))
        # ---- list building
        if f.op == "concat" and f.args[0] is p and not any(p in a.fv for a in f.args[1:]):
            segs = []
            for a in f.args[1:]:
                if a.op == "list":
                    segs.extend(a.args)
                else:
                    segs.append(mk("splice", TRUE, a))

            def lst(d):
                seg = segs[0] if len(segs) == 1 else mk("segs", *segs)
                if seg.op == "splice":
                    # extend by a sequence: flatten
                    y = fresh("e")
                    inner = T.q(y, mk("elems", O.strip_seq(seg.args[1])), mk("leaf", seg.args[0], y))
                    seg = inner[0][1] if len(inner) == 1 and inner[0][0] is TRUE else mk("segs", *[mk("gseg", i, s) for i, s in inner])
                out = []
                for i, s in T.q(x, d, seg):
                    out.append(s if i is TRUE else mk("gseg", i, s))
                return mk("list", *out)
            return O.listcat(init, mk("plist", x, lst(dom))), lambda d: O.listcat(init, lst(d))
        # ---- map building
        if f.op == "map" and f.args[0] is p and not any(p in a.fv for a in f.args[1:]):
            def mp(d):
                segs = []
                for s in f.args[1:]:
                    for i, q_ in T.q(x, d, s):
                        segs.append(q_ if i is TRUE else mk("gseg", i, q_))
                b = init
                return mk("map", *((b.args if b.op == "map" else (b,)) + tuple(segs)))
            return mk("pmap", x, mp(dom)), mp
        rec = mk("recat", x, dom, init, mk_lam(x, mk_lam(p, f)))
        # ---- running max / min
        mm = []
        for l, g in ls:
            if l is p:
                continue
            if l.op in ("max", "min") and p in l.args and p not in g.fv:
                rest = [a for a in l.args if a is not p]
                if not any(p in a.fv for a in rest):
                    mm.append((l.op, rest[0] if len(rest) == 1 else mk(l.op, *rest), g))
                    continue
            mm = None
            break
        if mm and len(mm) == 1 and f.op != "B":
            op, t, g = mm[0]

            def mx(d):
                out = []
                for i, s in T.q(x, d, mk("leaf", g, t)):
                    out.append(s if i is TRUE else mk("gseg", i, s))
                return T.maxmin(op, [init, O.maxof(op, mk("list", *out))]) if out else init
            return rec, mx
        # ---- boolean flags
        if is_bool(f):
            ta = mk("truth", p)
            oth = [a for a in T.support(f) if p in a.fv and a is not ta]
            if not oth:
                f1, f0 = T._restrict1(f, ta, 1), T._restrict1(f, ta, 0)
                if f1 is TRUE:
                    return rec, lambda d: bor(truth(init), T.any_over(x, self.fulldom(dom, d, stop, f0), f0))
                if f0 is FALSE:
                    return rec, lambda d: band(truth(init), bnot(T.any_over(x, self.fulldom(dom, d, stop, bnot(f1)), bnot(f1))))
        if f.op in ("GV",):
            rest = [(l, g) for l, g in ls if l is not p]
            if len(rest) >= 1 and all(p not in l.fv and p not in g.fv for l, g in rest):
                G = bor(*[g for _, g in rest])
                if len(rest) == 1 and x not in rest[0][0].fv:
                    return rec, lambda d: ite(T.any_over(x, self.fulldom(dom, d, stop, G), G), rest[0][0], init)
                # x of the first/last element
                val = gv(rest)
                isfirst = T.equiv(stop, G) or (stop is not FALSE and T.implies(G, stop))

                def fl(d):
                    dd = dom if isfirst and T.implies(stop, G) else d
                    out = []
                    for i, s in T.q(x, dd, mk("leaf", G, val)):
                        out.append(s if i is TRUE else mk("gseg", i, s))
                    c = mk("list", *out)
                    v = sel(c, ZERO if isfirst else num(-1))
                    return ite(T.any_over(x, dd, G), v, init)
                return rec, fl
        # flags whose placeholder is tested (found = found or ..)
        return rec, lambda d: mk("rec", d, init, mk_lam(x, mk_lam(p, f)))

    def fulldom(self, dom, d, stop, g):
        if stop is FALSE or T.implies(stop, g):
            return dom
        return d

    # ------------------------------------------------------------ comprehension
    def comp(self, gens, fin, kind):
        """build segments of a comprehension: fin() -> payload tuple evaluated inside"""
        f = Frame(self.frames[-1].fn, self.frames[-1].cls, self.frames[-1], self.frames[-1].selfv)
        f.mod = self.frames[-1].mod
        self.frames.append(f)
        live0, ctx0 = self.live, self.ctx
        try:
            return self._comp(gens, 0, fin)
        finally:
            self.frames.pop()
            self.live, self.ctx = live0, ctx0

    def _comp(self, gens, i, fin):
        if i == len(gens):
            return [mk("leaf", TRUE, *fin())]
        g = gens[i]
        target, it = self.plainiter(g.target, g.iter)
        if target is not g.target:
            g = ast.comprehension(target, it, g.ifs, g.is_async)
        seq = self.iteration(self.simpv(self.ev(g.iter)))
        out = []
        if seq[0] == "unroll":
            for e in seq[1]:
                eg = TRUE
                if isinstance(e, tuple):
                    eg, e = e
                self.assign_local(g.target, e)
                c = eg
                for t in g.ifs:
                    c = band(c, self.test(t))
                if c is FALSE:
                    continue
                ctx0 = self.ctx
                self.ctx = band(self.ctx, c)
                for s in self._comp(gens, i + 1, fin):
                    out.append(T.guard_seg(s, c))
                self.ctx = ctx0
            return out
        dom, elem = seq[1], seq[2]
        x = fresh("i")
        VARDOM[x] = dom
        self.assign_local(g.target, elem(x))
        c = TRUE
        if seq[0] == "domg":
            c = seq[3](x)
        for t in g.ifs:
            c = band(c, self.test(t))
        if c is FALSE:
            return []
        live0, ctx0 = self.live, self.ctx
        self.ctx = band(self.ctx, c)
        inner = self._comp(gens, i + 1, fin)
        self.ctx = ctx0
        for s in inner:
            s = T.guard_seg(s, c)
            r = O.deindex(x, dom, [s])
            if r is not None:
                y, nd, m = r
                res = T.q(y, nd, subst(s, m))
            else:
                res = T.q(x, dom, s)
            for ig, sg in res:
                out.append(sg if ig is TRUE else T.guard_seg(sg, ig) if sg.op == "leaf" else mk("gseg", ig, sg))
        return out

    def assign_local(self, t, v):
        live0 = self.live
        self.live = TRUE
        self.assign_fresh(t, v)
        self.live = live0

    def assign_fresh(self, t, v):
        if isinstance(t, ast.Name):
            self.st[("e", self.frames[-1].id, t.id)] = v
        else:
            self.assign(t, v)

    def listval(self, v):
        """value as list content"""
        c = self.seqc(v)

        def go(z):
            z = O.strip_seq(z)
            if z.op == "view":
                r = self.domain(z)
                return mk("dom", r[1])
            if z.op == "itv":
                d, lam = z.args
                x = fresh()
                VARDOM[x] = d
                return mk("list", *[s if i is TRUE else mk("gseg", i, s) for i, s in T.q(x, d, mk("leaf", TRUE, T.open_lam(lam, x)))])
            return O.as_list(z)
        return lift(go, c, split_bool=False)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.work += 1
        if self.work > self.budget:
            raise Stop("budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append("expression %s" % type(e).__name__)
            return opaque(type(e).__name__)
        l = self.line
        if hasattr(e, "lineno") and isinstance(e, ast.Call):
            self.line = e.lineno
        v = m(e)
        self.line = l
        return v

    def test(self, e):
        if isinstance(e, ast.BoolOp):
            r = None
            ctx0, l0 = self.ctx, self.live
            gate = any(self.effectful(x) for x in e.values[1:])
            for x in e.values:
                c = self.test(x)
                if r is None:
                    r = c
                else:
                    r = band(r, c) if isinstance(e.op, ast.And) else bor(r, c)
                self.ctx = band(ctx0, r) if isinstance(e.op, ast.And) else band(ctx0, bnot(r))
                if gate:
                    self.live = band(l0, r) if isinstance(e.op, ast.And) else band(l0, bnot(r))
            self.ctx, self.live = ctx0, l0
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return bnot(self.test(e.operand))
        v = self.simpv(self.ev(e))
        return self.truthv(v)

    def truthv(self, v):
        if is_bool(v):
            return v
        out = FALSE
        for l, g in leaves(v):
            c = self.cont(l)
            if l.op == "ref" and l.args[0] in ("list", "dict", "set"):
                out = bor(out, band(g, truth(c)))
            elif l.op == "ref":
                out = bor(out, g)
            else:
                out = bor(out, band(g, truth(c)))
        return out

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        return opaque("const")

    def e_Name(self, e):
        return self.name(e.id)

    def name(self, n):
        f = self.frames[-1]
        while f is not None:
            v = self.st.get(("e", f.id, n))
            if v is not None:
                return self.dropundef(self.simpv(v))
            f = f.parent
        m = self.frames[-1].mod
        r = self.prog.lookup(m, n)
        v = self.namev(r, m, n)
        if v is not None:
            return v
        if not hasattr(builtins, n) and not m.bound(n):
            return mk("fault", n)
        return ext("builtins." + n)

    def namev(self, r, m, n):
        if r is None:
            return None
        if r[0] == "ext":
            return self.extv(r[1])
        if r[0] == "fn":
            return mk("fnref", r[1].name)
        if r[0] == "cls":
            return mk("cls", r[1].name)
        if r[0] == "mod":
            return mk("modref", r[1].name)
        if r[0] == "pkg":
            return mk("modref", r[1])
        if r[0] == "const":
            f = Frame(self.frames[-1].fn, None)
            f.mod = r[2]
            self.frames.append(f)
            try:
                v = self.ev(r[1])
            finally:
                self.frames.pop()
            return v
        return None

    def extv(self, d):
        if d.startswith("pulp.") and d in CONST_EXT:
            return CONST_EXT[d]
        if d.startswith("pulp.pulp.") or d.startswith("pulp.constants."):
            return self.extv("pulp." + d.split(".")[-1])
        if d in CONST_EXT:
            return CONST_EXT[d]
        if d.startswith("networkx."):
            last = d.split(".")[-1]
            return ext("networkx." + last)
        return ext(d)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                p = plain(self.cont(self.ev(x.value)))
                if p is None:
                    return opaque("star")
                out.extend(p)
            else:
                out.append(self.ev(x))
        return tup(*out)

    def e_List(self, e):
        c = EMPTYL
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = O.lextend(c, TRUE, self.listval(self.ev(x.value)))
            else:
                c = O.listcat(c, mk("list", mk("leaf", TRUE, self.ev(x))))
        return self.newref("list", c)

    def e_Set(self, e):
        return self.newref("set", mk("list", *[mk("leaf", TRUE, self.ev(x)) for x in e.elts]))

    def e_Dict(self, e):
        c = EMPTYD
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.cont(self.ev(v))
                if o.op == "map" and all(s.op == "leaf" for s in o.args[1:]) and o.args[0] is EMPTYD:
                    for s in o.args[1:]:
                        c = mapset(c, *s.args)
                else:
                    c = mk("mapcat", c, o)
            else:
                kk = self.ev(k)
                c = mapset(c, TRUE, kk, self.ev(v))
        return self.newref("dict", c)

    def e_ListComp(self, e):
        segs = self.comp(e.generators, lambda: (self.val(self.ev(e.elt)),), "list")
        return self.newref("list", self.mklist(segs))

    def mklist(self, segs):
        return O.fix_list(O.seg_list(segs))

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        segs = self.comp(e.generators, lambda: (self.val(self.ev(e.elt)),), "set")
        return self.newref("set", self.mklist(segs))

    def e_DictComp(self, e):
        segs = self.comp(e.generators, lambda: (self.val(self.ev(e.key)), self.val(self.ev(e.value))), "dict")
        return self.newref("dict", mk("map", EMPTYD, *segs) if segs else EMPTYD)

    def val(self, v):
        """value snapshot for storage in an immutable summary (fresh literals are resolved)"""
        return self.resolve(v)

    def e_IfExp(self, e):
        c = self.simp(self.test(e.test))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        x0 = self.ctx
        l0 = self.live
        self.ctx = band(x0, c)
        self.live = band(l0, c)
        a = self.ev(e.body)
        self.ctx = band(x0, bnot(c))
        self.live = band(l0, bnot(c))
        b = self.ev(e.orelse)
        self.ctx = x0
        self.live = l0
        return ite(c, a, b)

    def e_BoolOp(self, e):
        vs = []
        x0, l0 = self.ctx, self.live
        gate = any(self.effectful(x) for x in e.values[1:])
        for x in e.values:
            v = self.ev(x)
            vs.append(v)
            t = self.truthv(v)
            self.ctx = band(self.ctx, t if isinstance(e.op, ast.And) else bnot(t))
            if gate:
                self.live = band(self.live, t if isinstance(e.op, ast.And) else bnot(t))
        self.ctx, self.live = x0, l0
        r = vs[-1]
        for v in reversed(vs[:-1]):
            t = self.truthv(v)
            r = ite(t, r, v) if isinstance(e.op, ast.And) else ite(t, v, r)
        return r

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return bnot(self.test(e.operand))
        v = self.ev(e.operand)
        if isinstance(e.op, ast.USub):
            return T.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return opaque("unary")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    SETOPS = {k: ast.parse(v, mode="eval").body for k, v in {
        "difference": "{_x for _x in _a if _x not in _b}",
        "intersection": "{_x for _x in _a if _x in _b}",
        "union": "{_x for _x in [*_a, *_b]}",
        "isdisjoint": "not any(_x in _b for _x in _a)",
        "issubset": "all(_x in _b for _x in _a)",
        "issuperset": "all(_x in _a for _x in _b)"}.items()}

    @staticmethod
    def isset(v):
        return all(l.op == "ref" and l.args[0] == "set" or l.op == "setof" for l, _ in leaves(v))

    @staticmethod
    def setlike(v):
        return all(l.op == "ref" and l.args[0] == "set" or l.op in ("setof", "view", "dom") or
                   l.op == "mcall" and l.args[1] == "keys" for l, _ in leaves(v))

    def setop(self, n, a, b):
        f = self.frames[-1].id
        old = {k: self.st.get(("e", f, k)) for k in ("_a", "_b")}
        self.st["e", f, "_a"], self.st["e", f, "_b"] = a, b
        try:
            return self.ev(self.SETOPS[n])
        finally:
            for k, v in old.items():
                if v is None:
                    self.st.pop(("e", f, k), None)
                else:
                    self.st["e", f, k] = v

    def binop(self, op, a, b):
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and (self.isset(a) and self.setlike(b) or self.setlike(a) and self.isset(b)):
            return self.setop({ast.Sub: "difference", ast.BitAnd: "intersection", ast.BitOr: "union"}[type(op)], a, b)
        if isinstance(op, ast.Mod) and all(l.op in ("str", "fmt") for l, _ in leaves(a)):
            return self.percent(a, b)
        if isinstance(op, (ast.Add, ast.Mult)):
            ca, cb = self.cont(a), self.cont(b)
            if isinstance(op, ast.Add) and (ca.op in ("list", "concat") or cb.op in ("list", "concat") or
                                            (a.op == "ref" or b.op == "ref")):
                return self.newref("list", O.lextend(self.listval(a), TRUE, self.listval(b)))
            if isinstance(op, ast.Mult) and (ca.op in ("list",) or cb.op in ("list",)):
                return self.newref("list", T.mul(ca, cb))
            a, b = self.numv(ca), self.numv(cb)
        if isinstance(op, ast.Add):
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(self.numv(a), self.numv(b))
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            if a.op == "num" and b.op == "num" and b.args[0].denominator == 1 and abs(b.args[0]) < 64:
                return num(a.args[0] ** int(b.args[0]))
            if b is num(2):
                return T.mul(a, a)
            return lift(lambda x, y: mk("pow", x, y), a, b)
        if isinstance(op, ast.FloorDiv):
            return lift(lambda x, y: mk("floordiv", x, y), a, b)
        if isinstance(op, ast.Mod):
            return lift(lambda x, y: mk("mod", x, y), a, b)
        if isinstance(op, ast.BitOr):
            if is_bool(a) and is_bool(b):
                return bor(a, b)
            return mk("union", self.cont(a), self.cont(b))
        if isinstance(op, ast.BitAnd):
            if is_bool(a) and is_bool(b):
                return band(a, b)
            return mk("inter", self.cont(a), self.cont(b))
        return opaque("binop")

    def numv(self, v):
        return v

    def percent(self, a, b):
        def go(s, *args):
            txt = s.args[0] if s.op == "str" else None
            if txt is None:
                return mk("fmtmod", s, tup(*args))
            parts, i, k = [], 0, 0
            import re as _re
            for m in _re.finditer(r"%(\.\d+)?[sdrfig]|%%", txt):
                parts.append(string(txt[i:m.start()]))
                i = m.end()
                if m.group() == "%%":
                    parts.append(string("%"))
                else:
                    if k < len(args):
                        parts.append(args[k])
                        k += 1
            parts.append(string(txt[i:]))
            return T.fmt(parts)
        args = list(b.args) if b.op == "tuple" else [b]
        return lift(go, a, *args)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                parts.append(self.ev(v.value))
        return lift(lambda *a: T.fmt(a), *parts)

    def e_Compare(self, e):
        l = self.ev(e.left)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            out = band(out, self.compare(op, l, rv))
            l = rv
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.isin(a, b)
            return r if isinstance(op, ast.In) else bnot(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                x = b if a is NONE else a
                r = T.isnone(x)
            else:
                r = eq(a, b)
            return r if isinstance(op, ast.Is) else bnot(r)
        a, b = self.cmpv(a), self.cmpv(b)
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return bnot(eq(a, b))
        if isinstance(op, ast.Lt):
            return T.lt(a, b)
        if isinstance(op, ast.LtE):
            return T.le(a, b)
        if isinstance(op, ast.Gt):
            return T.lt(b, a)
        if isinstance(op, ast.GtE):
            return T.le(b, a)
        return opaque("cmp")

    def cmpv(self, v):
        def go(l):
            if l.op == "ref":
                return self.resolve(l)
            if l.op == "view":
                return self.viewv(l)
            return self.cont(l) if ("c", l) in self.st else l
        if v.op == "GV":
            return gv([(go(l), g) for l, g in v.args])
        return go(v)

    def isin(self, k, c):
        out = FALSE
        for l, g in leaves(c):
            if band(g, self.ctx, self.live) is FALSE:
                continue
            if l.op == "view":
                r = self.viewin(k, l)
            elif l.op == "mcall" and l.args[1] == "keys":
                r = member(k, self.cont(l.args[0]))
            else:
                cc = self.cont(l)
                if self.is_graph(l):
                    r = lift(lambda z: O.indom(z, self.nodesdom(l).args[0]), k)
                elif cc.op == "itv":
                    r = self.isin(k, self.listval(cc))
                else:
                    r = member(self.cmpv(k), O.strip_seq(cc))
            out = bor(out, band(g, r))
        return out

    def e_Lambda(self, e):
        return self.mkclosure(Closure(e, self.frames[-1]))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Slice(self, e):
        return opaque("slice")

    # ------------------------------------------------------------ graphs
    def is_graph(self, t):
        if t.op == "attr" and t.args[1] in GRAPHY:
            return True
        if t.op == "sym" and t.args[0] in ("G",):
            return True
        if t.op == "ref" and t.args[0] == "graph":
            return True
        if t.op in ("gcopy", "gtod", "gsub"):
            return True
        if t.op == "post" and t.args[1].split(":")[-1] in GRAPHY:
            return True
        return False

    def snapg(self, G):
        ch = []
        for k, v in self.st.items():
            if k[0] in ("na", "ea", "ga", "g") and k[1] is G and v is not self.init(k):
                ch.append((k[0] + (":" + str(k[2]) if len(k) > 2 else ""), v))
        if not ch:
            return G
        return mk("snap", G, tuple((string(a), b) for a, b in sorted(ch, key=lambda p: p[0])))

    def gstruct(self, G):
        v = self.get(("g", G))
        return () if v.op == "g0" and v.args[0] is G else (v,)

    def nodesdom(self, G):
        return lift(lambda g: mk("dom", mk("nodes", g, *self.gstruct(g))), G)

    def edgesdom(self, G):
        return lift(lambda g: mk("dom", mk("edges", g, *self.gstruct(g))), G)

    def succdom(self, G, v):
        return lift(lambda g, vv: mk("dom", mk("succ", g, vv, *self.gstruct(g))), G, v)

    def preddom(self, G, v):
        return lift(lambda g, vv: mk("dom", mk("pred", g, vv, *self.gstruct(g))), G, v)

    # views: ("nodes",G) ("edges",G) ("node",G,v) ("edge",G,pair) ("graph",G) ("adj",G,v)
    def viewkey(self, v, attr):
        k = v.args[0]
        if k == "node":
            return ("na", v.args[1], attr), v.args[2]
        if k == "edge":
            return ("ea", v.args[1], attr), v.args[2]
        if k == "graph":
            return ("ga", v.args[1]), None
        return None, None

    def viewmap(self, v):
        if v.args[0] == "graph":
            return self.get(("ga", v.args[1]))
        return v

    def viewv(self, v):
        return v

    def aname(self, k):
        return k.args[0] if k.op == "str" else k

    def viewget(self, v, key):
        kind, G = v.args[0], v.args[1]
        if kind == "nodes":
            return lift(lambda k: mk("view", "node", G, k), key)
        if kind == "edges":
            return lift(lambda k: mk("view", "edge", G, k if k.op == "tuple" else tup(sel(k, ZERO), sel(k, ONE))), key)
        if kind == "adjs":
            return lift(lambda k: mk("view", "adj", G, k), key)
        if kind == "preds":
            return lift(lambda k: mk("view", "padj", G, k), key)
        if kind == "adj":
            return lift(lambda k: mk("view", "edge", G, tup(v.args[2], k)), key)
        if kind == "padj":
            return lift(lambda k: mk("view", "edge", G, tup(k, v.args[2])), key)
        if kind in ("node", "edge"):
            def go(k):
                sk, kk = self.viewkey(v, self.aname(k))
                r = sel(self.get(sk), kk)
                self.note_origin(r, ("S", sk, kk))
                return r
            return lift(go, key)
        if kind == "graph":
            r = sel(self.get(("ga", G)), key)
            self.note_origin(r, ("S", ("ga", G), key))
            return r
        return opaque("view")

    def note_origin(self, r, o):
        for l, g in leaves(r):
            if l.op not in ("ref", "num", "str", "TRUE", "FALSE", "none"):
                self.origin[l] = o

    def viewin(self, k, v):
        kind, G = v.args[0], v.args[1]
        if kind == "nodes":
            return lift(lambda z: O.indom(z, self.nodesdom(G).args[0]), k)
        if kind == "edges":
            d = self.edgesdom(G).args[0]
            return lift(lambda z: O.indom(z if z.op == "tuple" else tup(sel(z, ZERO), sel(z, ONE)), d), k)
        if kind == "adj":
            return O.hasedge(self.edgesdom(G).args[0], v.args[2], k)
        if kind == "padj":
            return O.hasedge(self.edgesdom(G).args[0], k, v.args[2])
        if kind in ("node", "edge"):
            def go(z):
                sk, kk = self.viewkey(v, self.aname(z))
                return member(kk, self.get(sk))
            return lift(go, k)
        if kind == "graph":
            return member(k, self.get(("ga", G)))
        return atom(mk("in", k, v))

    # ------------------------------------------------------------ attributes and items
    def e_Attribute(self, e):
        o = self.ev(e.value)
        o = self.simpv(o)
        if o.op == "GV":
            return gv([(self.attr(l, e.attr), g) for l, g in o.args if l is not NONE and l is not UNDEF])
        return self.attr(o, e.attr)

    def attr(self, o, n):
        if o.op == "modref":
            m = self.prog.mods.get(o.args[0].split(".")[-1]) or self.prog.mods.get(o.args[0])
            if m is not None:
                r = self.prog.lookup(m, n)
                v = self.namev(r, m, n)
                if v is not None:
                    return v
            if n in self.prog.mods:
                return mk("modref", n)
            return ext(o.args[0] + "." + n)
        if o.op == "ext":
            return self.extv(o.args[0] + "." + n)
        if o.op == "cls":
            c = self.prog.classes.get(o.args[0])
            if c is not None:
                m = self.prog.method(c, n)
                if m is not None:
                    return mk("unbound", o.args[0], n, m.cls.name)
                cc = self.prog.cconst(c, n)
                if cc is not None:
                    return self.constexpr(cc[0], cc[1].mod)
            return mk("attr", o, n)
        if o.op == "super":
            return mk("bound", o.args[0], n, o.args[1])
        key = ("a", o, n)
        v = self.st.get(key)
        if v is not None:
            return self.dropundef(self.simpv(v))
        if o is SELF or o is self.frames[-1].selfv:
            cls = self.frames[-1].cls
            if cls is not None:
                m = self.prog.method(cls, n)
                if m is not None:
                    if m.is_prop:
                        return self.callfn(m, o, cls, [], {})
                    return mk("bound", o, n, "")
                cc = self.prog.cconst(cls, n)
                if cc is not None and not self.field(cls, n) and not (self.isfield and self.isfield(cls.name, n)):
                    return self.constexpr(cc[0], cc[1].mod)
                if cc is None and self.isfield and not self.isfield(None, n):
                    cc = self.constfield(n)
                    if cc is not None:
                        return self.constexpr(*cc)
            if n == "__class__" and cls is not None:
                return mk("cls", cls.name)
            return self.get(key)
        if n == "nodes" or n == "_node":
            return mk("view", "nodes", o)
        if n == "edges":
            return mk("view", "edges", o)
        if n in ("adj", "succ", "_adj", "_succ"):
            return mk("view", "adjs", o)
        if n in ("pred", "_pred"):
            return mk("view", "preds", o)
        if n == "graph":
            return mk("view", "graph", o)
        if n == "varValue":
            return mk("lpval", o, self.get(("lp",)))
        if o.op in ("view", "ref", "list", "map", "tuple", "str", "fmt", "dom", "setof"):
            return mk("bound", o, n, "")
        if o.op == "new":
            c = self.prog.classes.get(o.args[0].args[0]) if o.args[0].op == "cls" else None
            if c is not None:
                m = self.prog.method(c, n)
                if m is not None and not m.is_prop:
                    return mk("bound", o, n, "")
                if m is None:
                    fv = self.newfield(o, c, n)
                    if fv is not None:
                        return fv
        if n in GROWS and o.op == "attr" and o.args[1] == "masterproblem":
            return mk("attr", o, n)
        ver = self.simpv(self.get(("v", o)))
        return lift(lambda z: mk("attr", z, n), ver, split_bool=False)

    def newfield(self, o, c, n):
        return None

    def constexpr(self, e, mod):
        f = Frame(self.frames[-1].fn, None)
        f.mod = mod
        self.frames.append(f)
        try:
            return self.ev(e)
        finally:
            self.frames.pop()

    def constfield(self, n):
        """literal of a field that is assigned once, in a constructor"""
        r = self.prog.__dict__.setdefault("onefield", {})
        if n not in r:
            found = []
            for m in self.prog.mods.values():
                for fn in ast.walk(m.tree):
                    if not isinstance(fn, ast.FunctionDef):
                        continue
                    for s in ast.walk(fn):
                        if isinstance(s, ast.Attribute) and s.attr == n and not isinstance(s.ctx, ast.Load):
                            found.append(None)
                        if fn.name == "__init__" and isinstance(s, ast.Assign) and s in fn.body and any(
                                isinstance(t, ast.Attribute) and t.attr == n for t in s.targets) and frozen(s.value):
                            found.append((s.value, m))
            r[n] = found[0] or found[1] if len(found) == 2 and any(found) else None
        return r[n]

    def field(self, cls, n):
        for c in self.prog.mro(cls):
            for m in c.methods.values():
                for nd in ast.walk(m.node):
                    if isinstance(nd, ast.Attribute) and nd.attr == n and isinstance(nd.ctx, ast.Store) and isinstance(
                            nd.value, ast.Name) and nd.value.id == "self":
                        return True
        return False

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ("slice", self.ev(s.lower) if s.lower else NONE, self.ev(s.upper) if s.upper else NONE,
                    self.ev(s.step) if s.step else NONE)
        return self.ev(s)

    def e_Subscript(self, e):
        o = self.simpv(self.ev(e.value))
        k = self.index(e.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if o.op == "GV":
            return gv([(self.getitem(l, k), g) for l, g in o.args if l is not NONE and l is not UNDEF])
        if isinstance(k, tuple):
            _, lo, hi, step = k
            c = self.cont(o)
            if step.op == "num" and step.args[0] == -1 and lo is NONE and hi is NONE:
                return mk("reversed", c)
            return O.slice_(O.strip_seq(c) if c.op != "dom" else c, lo, hi, step)
        if o.op == "view":
            return self.viewget(o, k)
        if self.is_graph(o):
            return lift(lambda kk: mk("view", "adj", o, kk), k)
        if o.op == "ref" and o in self.ddict:
            c = self.cont(o)
            if self.ddict[o] is None:
                return ite(member(k, c), sel(c, k), ZERO)
            inn = member(k, c)
            gg = band(self.live, bnot(inn))
            if gg is not FALSE:
                self.setitem1(o, k, _call_value(self, self.ddict[o], [], {}), gg)
        c = self.cont(o)
        if c.op == "itv":
            c = self.listval(c)
        k2 = self.resolve(k) if k.op == "ref" or k.op == "tuple" else k
        r = sel(c, k2)
        r = self.simpv(r)
        if o.op not in ("tuple", "num"):
            self.note_origin(r, ("P", o, k2))
        return r

    def setitem(self, o, k, v, node=None):
        for l, g in leaves(o):
            gg = band(self.live, g)
            if gg is FALSE or l is NONE:
                continue
            self.setitem1(l, k, v, gg)

    def setitem1(self, o, k, v, g):
        if isinstance(k, tuple):
            self.putc(o, g, lambda c, gg: ite(gg, mk("setslice", c, k[1], k[2], self.cont(v)), c))
            return
        k = self.resolve(k) if k.op == "tuple" else k
        if o.op == "view":
            kind, G = o.args[0], o.args[1]
            if kind in ("node", "edge"):
                for kl, kg in leaves(k):
                    sk, kk = self.viewkey(o, self.aname(kl))
                    gg, vv = band(g, kg), v
                    if v.op == "GV":
                        # writing back what is there changes nothing
                        cur = sel(self.get(sk), kk)
                        back = [x for l, x in v.args if l is cur]
                        if back and len(back) < len(v.args):
                            gg = band(gg, bnot(bor(*back)))
                            vv = T.prune(v, gg)
                    self.putm(sk, mapset(self.get(sk), gg, kk, vv))
                return
            if kind == "graph":
                self.putm(("ga", G), mapset(self.get(("ga", G)), g, k, v))
                return
            return
        self.putc(o, g, lambda c, gg: mapset(c, gg, k, v))

    def place(self, o):
        """what is now stored where o was read from"""
        org = self.origin[o]
        r = sel(self.get(org[1]) if org[0] == "S" else self.cont(org[1]), org[2])
        return r if r is o or r.op == "GV" and any(l is o for l, _ in r.args) else self.cont(r)

    def putm(self, key, m):
        self.st[key] = m
        self.writers.setdefault(key, []).append(self.loc())

    def putc(self, o, g, fn):
        """update the container designated by o where g; fn(content, guard) -> new content"""
        org = self.origin.get(o) if o.op != "ref" else None
        if org is None or ("c", o) in self.st:
            self.putm(("c", o), fn(self.cont(o), g))
            return
        self.inplace.add(org)
        content = T.prune(fn(self.cont(o), TRUE), g)
        if org[0] == "S":
            self.putm(org[1], mapset(self.get(org[1]), g, org[2], content))
        else:
            self.putc(org[1], g, lambda c, gg: mapset(c, gg, org[2], content))
        self.note_origin(content, org)

    def mutate_list(self, o, fn, node=None):
        for l, g in leaves(o):
            gg = band(self.live, g)
            if gg is FALSE or l is NONE or l is UNDEF:
                continue
            self.putc(l, gg, fn)

    # ------------------------------------------------------------ LP
    def is_lp(self, v):
        for l, g in leaves(v):
            if l.op == "call" and l.args[0].op == "ext" and l.args[0].args[0] == "pulp.LpProblem":
                return True
            if l.op == "attr" and l.args[1] in ("prob",):
                return True
            if l.op == "sym" and l.args[0] in ("prob", "relax", "lp", "model", "problem"):
                return True
            if l.op == "lpcopy":
                return True
        return False

    def lpadd(self, prob, node):
        name = None
        if isinstance(node, ast.Tuple) and len(node.elts) == 2:
            node = node.elts[0]
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.LtE, ast.GtE, ast.Eq)):
            a, b = self.ev(node.left), self.ev(node.comparators[0])
            c = self.mkcon(node.ops[0], self.cmpv(a), self.cmpv(b))
        else:
            v = self.ev(node)
            if v.op == "tuple" and len(v.args) == 2:
                v = v.args[0]
            c = self.ascon(v)
        self.lpadd_val(prob, c)

    def lpadd_val(self, prob, c):
        for l, g in (c.args if c.op == "GV" else [(c, TRUE)]):
            gg = band(self.live, g)
            self.emit("lpadd", mk("lpadd", prob, l, self.lpstate()), gg)

    def lpstate(self):
        return self.simpv(self.get(("lp",)))

    def mkcon(self, op, a, b):
        def go(x, y):
            d = T.sub(x, y)
            if isinstance(op, ast.GtE):
                d = T.neg(d)
            return self.con("==" if isinstance(op, ast.Eq) else "<=", d)
        return lift(go, a, b)

    def con(self, s, d):
        def go(dd):
            p = T.to_poly(dd)
            ks = [m for m in p if m != ()]
            if not ks:
                return mk("con", s, dd)
            lead = p[sorted(ks, key=lambda m: tuple(t.id for t in m))[0]]
            sc = abs(lead) if s == "<=" else lead
            return mk("con", s, T.from_poly({m: c / sc for m, c in p.items()}))
        return lift(go, d)

    def ascon(self, v):
        """a comparison that was computed as a boolean value"""
        if v.op != "B":
            return v
        out = []
        for g, c in self._concases(v):
            out.append((c, g))
        return gv(out)

    def _concases(self, b):
        if b in (TRUE, FALSE):
            return [(TRUE, b)]
        a = b.args[0]
        if len(T.support(b)) == 1 and a.op in ("le0", "lt0", "eq0", "eq"):
            pos = b.args[1] is TRUE
            if a.op == "le0" and pos:
                return [(TRUE, self.con("<=", a.args[0]))]
            if a.op == "lt0" and not pos:
                return [(TRUE, self.con("<=", T.neg(a.args[0])))]
            if a.op == "eq0" and pos:
                return [(TRUE, self.con("==", a.args[0]))]
            if a.op == "eq" and pos:
                return [(TRUE, self.con("==", T.sub(*a.args)))]
            return [(TRUE, opaque("constraint"))]
        out = []
        for s in T.support(b):
            if s.op not in ("le0", "lt0", "eq0", "eq"):
                for val in (1, 0):
                    lit = atom(s) if val else bnot(atom(s))
                    for g, c in self._concases(T._restrict1(b, s, val)):
                        out.append((band(lit, g), c))
                return out
        return [(TRUE, opaque("constraint"))]

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) and f.value.id == "dict" \
                and not e.keywords and (len(e.args) == 1 or len(e.args) == 2 and isinstance(e.args[1], ast.Constant)):
            v = e.args[1] if len(e.args) == 2 else ast.Constant(None)
            g = ast.comprehension(ast.Name("<key>", ast.Store()), e.args[0], [], 0)
            return self.ev(ast.fix_missing_locations(ast.copy_location(ast.DictComp(ast.Name("<key>", ast.Load()), v, [g]), e)))
        from .calls import do_call
        return do_call(self, e)

    def callfn(self, fn, selfv, cls, args, kw, inline=False):
        from .calls import call_repo
        return call_repo(self, fn, selfv, cls, args, kw, inline)


def _call_value(*a):
    from .calls import call_value
    return call_value(*a)


def _load(t):
    import copy
    t2 = copy.copy(t)
    if hasattr(t2, "ctx"):
        t2.ctx = ast.Load()
    return t2

"""Decides every obligation: reference summary == code summary, unit by unit."""
import time
from . import terms as T
from .terms import TRUE, FALSE, NONE, band, bnot
from .match import compare, Diff, txt, evtxt, alltags, keyname
from .model import Model, Types, Undefined, Fault, fz

WANT = 2000    # successful evaluations before a difference is given up on
TRIES = 12000
UNIT_S = 20     # time for the identity tests of one unit


def names(t, acc):
    for x in T.subterms(t):
        o = x.op
        if o == "attr":
            acc.add(("attr", x.args[1]))
        elif o == "ext":
            acc.add(("ext", x.args[0]))
        elif o == "mcall":
            acc.add(("mcall", x.args[1]))
        elif o in ("na", "ea", "ga", "na0", "ea0", "ga0"):
            if isinstance(x.args[-1], str):
                acc.add((o[:2], x.args[-1]))
        elif o == "ucall":
            acc.add(("unit", x.args[0]))
    return acc


# what the (single) caller of a unit establishes: parameters that are distinct nodes other than the depots
DISTINCT = {"_ClarkeWright._merge_route": ("existing_node", "new_node")}


def precondition(q):
    g = TRUE
    ps = [T.mk("sym", p) for p in DISTINCT.get(q, ())]
    for i, x in enumerate(ps):
        for y in ps[:i] + [T.string("Source"), T.string("Sink")]:
            g = band(g, bnot(T.eq(x, y)))
    return g


class Outcome:
    def __init__(self):
        self.units, self.obl = {}, {}
        self.diffs, self.undecided, self.identical, self.interp, self.matched = [], [], 0, 0, []


class Covering(Model):
    """counts which cases of the compared terms the interpretations reach"""
    hits = None

    def atom(self, t, env):
        r = Model.atom(self, t, env)
        self.hits[t, bool(r)] = self.hits.get((t, bool(r)), 0) + 1
        return r

    def case(self, t, i):
        self.hits[t, i] = self.hits.get((t, i), 0) + 1


def seen(a, hits):
    return (hits.get((a, True), 0) > 0) + (hits.get((a, False), 0) > 0)


def oneway(a, hits):
    """a test on a bound element that its own domain answers, or on a flag of a loop that goes with another one"""
    if a.op == "truth" and seen(a, hits) == 1 and (
            a.args[0].op == "prj" and a.args[0].args[0].op == "bv" or a.args[0].op == "call" and a.args[0].args[0] is T.mk("ext", "random.choice")):
        return hits.get((a, True), 0) + hits.get((a, False), 0) >= 100
    return a.op == "in" and seen(a, hits) == 1 and any(y.op == "bv" for y in T.subterms(a))


def uncovered(ts, hits):
    for t in ts:
        for x in T.subterms(t):
            if x.op == "B":
                a = x.args[0]
                if seen(a, hits) < (1 if oneway(a, hits) else 2):
                    return a
            elif x.op == "GV":
                for i in range(len(x.args)):
                    if hits.get((x, i), 0) < 2 and not any(
                            y.op == "B" and oneway(y.args[0], hits) for y in T.subterms(x.args[i][1])):
                        return x
    return None


class Decider:
    def __init__(self, suite, want=WANT, tries=TRIES, seed=0, limit=UNIT_S):
        self.s, self.want, self.tries = suite, want, tries
        self.seed, self.limit = seed, limit
        self.interps, self.byform = 0, 0
        self.vocab = None
        self.log = None
        self.cover = None
        self.st = None

    def vocabulary(self):
        if self.vocab is None:
            v = set()
            for q in self.s.match:
                u = self.s.info(q)
                if u is None:
                    continue
                if any(getattr(d, "id", "") == "property" for d in self.s.sfn[q][0].node.decorator_list):
                    v.add(("attr", q.rpartition(".")[2]))
                for t in self.terms(u.summary):
                    names(t, v)
                for k in u.summary.finals:
                    if k[0] == "a":
                        v.add(("attr", k[2]))
            self.vocab = v
        return self.vocab

    def state(self):
        """units whose result is not a function of what the analysis tracks"""
        if self.st is None:
            self.st = set()
            for q in self.s.match:
                u = self.s.info(q)
                if u is None:
                    continue
                acc = set()
                names(u.summary.ret, acc)
                if u.effect or u.mods or ("ext", "time.time") in acc:
                    self.st.add(q)
        return self.st

    @staticmethod
    def terms(s):
        out = [s.ret]
        for e in s.events:
            out += [e.payload, e.guard] + [d for _, d in e.quants]
        out += [v for _, v, _ in s.finals.values()]
        return out

    def known(self, k):
        if k[0] == "a":
            return ("attr", k[2]) in self.vocabulary()
        return True

    def unknown(self, ts):
        acc = set()
        for t in ts:
            names(t, acc)
        return sorted(n for n in acc - self.vocabulary() if n[0] not in ("unit", "na", "ea", "ga") and n != ("mcall", "endswith"))

    # ------------------------------------------------------------------ one unit
    def identical(self, q):
        """the two summaries of q have the same normal form"""
        u = self.s.info(q)
        ss, cs = u.summary, self.s.code_summary(q)
        if ss.failed or cs.failed or cs.notes:
            return False
        if self.s.odd.get(q):
            return False
        pend, ua, ub, care, n, diffs = compare(self.s, q, ss, cs, self.known)
        return not (pend or ua or ub or [d for d in diffs if d.kind != "default"])

    def unit(self, q):
        """-> (list of Diff, list of undecided texts, number of obligations)"""
        odd = self.s.odd.get(q)
        pre = precondition(q)
        if not odd:
            return self.pair(q, self.s.info(q).summary, self.s.code_summary(q), pre)
        d1, u1, n1 = self.pair(q, self.s.info(q).summary, self.s.code_summary(q),
                               band(pre, *[bnot(T.isnone(T.mk("sym", x[0]))) for x in odd]))
        d2, u2, n2 = self.pair(q, *self.s.defaulted(q), pre)
        return d1 + d2, u1 + u2, n1

    def pair(self, q, ss, cs, given):
        s = self.s
        f = s.sfn[q][0]
        if ss.failed:
            return [], ["%s: reference not summarised: %s" % (q, ss.failed)], 0
        if cs.failed:
            return [], ["%s: not summarised: %s" % (q, cs.failed)], 0
        pend, ua, ub, care, n, diffs = compare(s, q, ss, cs, self.known, given)
        self.byform += n - len(pend) - len(ua)
        if not (pend or ua or ub):
            return diffs, [], n
        und = []
        todo = []
        for p in pend:
            kind, key, tags, a, b, sl, cl = p
            what = "return value" if kind == "ret" else "final value of " + keyname(key)
            if b.opq or a.opq or care.opq:
                und.append("%s: %s: construct outside the analysed language" % (q, what))
                continue
            unk = self.unknown([b])
            if unk:
                und.append("%s: %s: symbols without a reference meaning: %s" % (q, what, unk[:4]))
                continue
            todo.append((what, p))
        ts = [care, given]
        for what, p in todo:
            ts += [p[3], p[4]]
        evdo = True
        bad = [e for k, g, es in ub for e in es if e.payload.opq or e.guard.opq or any(d.opq for _, d in e.quants)]
        unk = self.unknown([x for k, g, es in ub for x in (k[1], g) + k[2]])
        if bad or unk:
            # decide what can be decided: kinds of event not affected
            kinds = {e.kind for e in bad}
            for k, g, es in ub:
                if self.unknown((k[1], g) + k[2]):
                    kinds.add(k[0])
            und.append("%s: %s events: construct outside the analysed language (%s)" % (q, "/".join(sorted(kinds)), unk[:4]))
            ua = [x for x in ua if x[0][0] not in kinds]
            ub = [x for x in ub if x[0][0] not in kinds]
        ty = Types(q)
        for t in ts:
            ty.add(t)
        A, B = self.evlist(ua), self.evlist(ub)
        for kind, p, qs, g in A + B:
            d = {}
            for v, dm in qs:
                ty.add(dm, d)
                d = dict(d)
                d[v] = dm
            ty.add(p, d)
            ty.add(g, d)
        goals = self.goals(todo, A + B)
        found = {}
        ok = [0] * len(todo)
        okev = 0
        trybudget = self.tries
        why = {}
        stats, faults = {}, {}
        t0 = time.time()
        for seed in range(self.seed << 20, (self.seed << 20) + trybudget):
            if time.time() - t0 > self.limit:
                break
            m = (Covering if self.cover is not None else Model)(seed, ty, self.state())
            m.hits = self.cover
            m.aim(goals)
            self.interps += 1
            try:
                if not m.ev(given, {}):
                    continue
                c = m.ev(care, {})
            except Undefined as ex:
                why["care"] = str(ex)
                continue
            for i, (what, p) in enumerate(todo):
                if i in found or ok[i] >= self.want or not c:
                    continue
                m.coding = False
                try:
                    a = self.value(m, p, p[3])
                except Undefined as ex:
                    why[i] = str(ex)
                    continue
                m.coding = True
                try:
                    b = self.value(m, p, p[4])
                except Fault as ex:
                    faults[i] = faults.get(i, 0) + 1
                    if faults[i] >= 3:
                        found[i] = (seed, a, "fails: %s" % ex)
                    continue
                except Undefined as ex:
                    why[i] = str(ex)
                    stats[str(ex)[:60]] = stats.get(str(ex)[:60], 0) + 1
                    continue
                ok[i] += 1
                if a != b:
                    found[i] = (seed, a, b)
            if (A or B) and okev < self.want and "ev" not in found:
                m.coding = False
                try:
                    sd = False
                    oa, ob, ia, ib = {}, {}, {}, {}
                    m.events([x for x in A if c or x[0] == "raise"], oa, ia)
                    sd = m.coding = True
                    m.events([x for x in B if c or x[0] == "raise"], ob, ib)
                except Undefined as ex:
                    if sd and isinstance(ex, Fault):
                        faults["ev"] = faults.get("ev", 0) + 1
                        if faults["ev"] >= 3:
                            found["ev"] = (seed, oa, {}, ia, {}, c)
                    why["ev"] = str(ex)
                    stats["ev " + str(ex)[:60]] = stats.get("ev " + str(ex)[:60], 0) + 1
                else:
                    okev += 1
                    if oa != ob:
                        kinds = c or {k for k, v in list(oa.items()) + list(ob.items()) if k[0] == "raise"}
                        found["ev"] = (seed, oa, ob, ia, ib, c)
            if all(i in found or ok[i] >= self.want for i in range(len(todo))) and \
                    (not (A or B) or "ev" in found or okev >= self.want):
                break
        if self.cover is not None and not found:
            x = uncovered(ts + [x for e in A + B for x in [e[1], e[3]] + [d for _, d in e[2]]], self.cover)
            if x is not None:
                und.append("%s: case not reached: %s" % (q, txt(x)))
        self.stats = (q, [w for w, _ in todo], ok, okev, stats, sorted(map(str, found)))
        if self.log:
            self.log(self.stats, todo, ua, ub)
        for i, (what, p) in enumerate(todo):
            if i in found:
                d = Diff(q, p[0], p[2], what, p[5], p[6], txt(p[3]), txt(p[4]))
                d.witness = found[i]
                diffs.append(d)
            elif ok[i] < min(5, self.want):
                und.append("%s: %s: identity test inconclusive (%s)" % (q, what, why.get(i) or why.get("care")))
        if "ev" in found:
            diffs += self.evdiff(q, found["ev"], ua, ub, f, cs)
        elif (A or B) and okev < min(5, self.want):
            und.append("%s: effects: identity test inconclusive (%s)" % (q, why.get("ev") or why.get("care")))
        return diffs, und, n

    @staticmethod
    def value(m, p, t):
        """what is compared: of a graph, its nodes and arcs, not the order in which they were added"""
        if p[0] == "state" and p[1][0] == "g":
            while t.op == "GV":
                t = next((l for l, g in t.args if m.ev(g, {})), T.NONE)
            if t.op in ("concat", "g0") and (t if t.op == "g0" else t.args[0]).op in ("g0", "post"):
                g = m.restruct(m.gr(p[1][1], {}), t, {})
                return ("G", tuple(sorted(map(repr, set(map(fz, g.nodes))))), tuple(sorted(map(repr, set(map(fz, g.edges))))))
        return fz(m.ev(t, {}))

    @staticmethod
    def goals(todo, evs):
        """conditions of the cases of the compared terms"""
        out = {}
        for e in evs:
            if e[3].op == "B":
                out[e[3]] = True
        for what, p in todo:
            for t in (p[3], p[4]):
                n = 0
                for x in T.subterms(t):
                    if x.op == "GV":
                        for l, g in x.args:
                            if g.op == "B":
                                out[g] = True
                                n += 1
                    if n > 60:
                        break
        return list(out)

    @staticmethod
    def evlist(us):
        out = []
        for (kind, p, doms), g, es in us:
            qs = [(T.mk("var", "Q", -(i + 1)), d) for i, d in enumerate(doms)]
            out.append((kind, p, qs, g))
        return out

    def evdiff(self, q, w, ua, ub, f, cs):
        seed, oa, ob, ia, ib, c = w
        A = [x for x in ua if c or x[0][0] == "raise"]
        B = [x for x in ub if c or x[0][0] == "raise"]
        ea, eb = set(), set()
        for k in set(oa) | set(ob):
            if oa.get(k, 0) != ob.get(k, 0):
                ea |= ia.get(k, set())
                eb |= ib.get(k, set())
        out = []
        tags = set()
        for n in ea:
            for e in A[n][2]:
                for l in e.locs if getattr(e, "locs", None) else [e.loc]:
                    tags |= self.s.linetags(l)
        extra = not ea
        if extra:
            tags = alltags(self.s, f)
        else:
            kinds = {A[n][0][0] for n in ea}
        if not tags:
            return out
        sl = A[min(ea)][2][0].loc if ea else (f.mod.path, f.line, q)
        cl = B[min(eb)][2][0].loc if eb else (cs.fn.mod.path, cs.fn.line, cs.fn.qual)
        d = Diff(q, "event", tags, "effects", sl, cl, "; ".join(evtxt(A[n][0], A[n][1]) for n in sorted(ea)[:3]),
                 "; ".join(evtxt(B[n][0], B[n][1]) for n in sorted(eb)[:3]))
        d.witness = (seed,)
        out.append(d)
        return out

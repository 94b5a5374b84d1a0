"""Whole-program decision: all units, boundary changes between units resolved by inlining."""
import ast
import signal
import threading
import time
from . import terms as T
from .suite import Suite
from .decide import Decider, names, WANT, TRIES
from .match import alltags
from .share import share

PUBLIC = ("VehicleRoutingProblem",)
WALL = 240
UNIT_WALL = 90
CALLBACK = ("_MyREFCallback.REF_fwd",)


class Result:
    def __init__(self):
        self.units = {}        # qual -> dict(obligations, diffs, undecided, discharged)
        self.diffs, self.undecided = [], []
        self.wall = 0.0


def callers(suite, dec):
    out = {}
    for q in suite.match:
        u = suite.info(q)
        if u is None:
            continue
        acc = set()
        for t in dec.terms(u.summary):
            names(t, acc)
        for n in acc:
            if n[0] == "unit":
                out.setdefault(n[1], set()).add(q)
        for n in acc:
            # objects built in the summary keep their class constructor as a callee
            pass
    return out


def dischargeable(q, call):
    if q in CALLBACK or not call.get(q):
        return False
    c, _, m = q.rpartition(".")
    return not (c in PUBLIC and not m.startswith("_"))


class patience:
    """gives up (T.Budget) on an analysis that takes more than s seconds"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread() and hasattr(signal, "setitimer")
        if self.on:
            def ring(*_):
                raise T.Budget()
            self.old = signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, self.s, 5)

    def __exit__(self, *_):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


def memory_cap(gb=6):
    """an analysis that would need more memory gives up (MemoryError: undecided) instead of taking the machine down"""
    try:
        import resource
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        cap = gb << 30
        if hard == resource.RLIM_INFINITY or cap < hard:
            resource.setrlimit(resource.RLIMIT_AS, (cap, hard))
    except (ImportError, ValueError, OSError):
        pass


def agrees(d, q, sample=True):
    with patience(UNIT_WALL):
        return agrees_(d, q, sample)


def agrees_(d, q, sample):
    try:
        if d.identical(q):
            return True
        if not sample:
            return False
        d.cover = {}
        diffs, und, n = d.unit(q)
    except Exception:
        return False
    return not und and not [x for x in diffs if x.kind != "default"]


def run(spec, code, tier="quick", seed=1, rounds=3):
    t0 = time.time()
    want, tries, limit = (WANT, TRIES, 20) if tier != "thorough" else (WANT * 8, TRIES * 8, 120)
    T.STEPS[0] = 0
    s = Suite(spec, code)
    d = Decider(s, want, tries, seed, limit)
    r = Result()
    r.suite = s
    bad, und = {}, {}
    for q in sorted(s.match):
        if q in s.inline:
            continue
        d.limit = min(limit, max(2.0, t0 + WALL * (1 if tier != "thorough" else 4) - time.time()))
        try:
            with patience(UNIT_WALL if tier != "thorough" else 4 * UNIT_WALL):
                diffs, undec, n = d.unit(q)
        except Exception as ex:
            diffs, undec, n = [], ["%s: %s: %s" % (q, type(ex).__name__, ex)], 0
        r.units[q] = {"obligations": n, "diffs": diffs, "undecided": undec, "discharged": None,
                      "tags": alltags(s, s.sfn[q][0]), "tagged": s.tagged.get(q, {}),
                      "loc": (s.match[q][0].mod.path, s.match[q][0].line)}
        if diffs:
            bad[q] = diffs
        if undec:
            und[q] = undec
    r.unmatched = sorted(q for q in s.sfn if q not in s.match)
    if bad:
        call = callers(s, d)
        inl = set()
        left = dict(bad)
        cleared = set()
        for _ in range(rounds):
            new = {q for q in left if q not in inl and dischargeable(q, call)}
            if not new:
                break
            inl |= new
            s2 = Suite(spec, code, inline=inl)
            d2 = Decider(s2, want, tries, seed, limit)
            d2.vocab = d.vocabulary()
            up, todo = set(), list(inl)
            while todo:
                q = todo.pop()
                for c in call.get(q, ()):
                    if c in inl:
                        continue
                    up.add(c)
            up |= {q for q in bad if q not in inl}
            left2, und2 = {}, {}
            for q in sorted(up):
                if q not in s2.match:
                    continue
                same = agrees(d2, q, False)
                if not same:
                    left2[q] = True
            # a unit is discharged when everything that reaches a comparison through it agrees
            reach = {}
            for q in inl:
                seen, todo = set(), [q]
                while todo:
                    x = todo.pop()
                    for c in call.get(x, ()):
                        if c not in seen:
                            seen.add(c)
                            if c in inl:
                                todo.append(c)
                reach[q] = {c for c in seen if c not in inl}
            cleared = {q for q in inl if reach[q] and not (reach[q] & set(left2))}
            cleared |= {q for q in bad if q not in inl and q not in left2}
            if all(q in cleared for q in bad):
                break
            left = left2
        for q in cleared:
            if q in bad:
                r.units[q]["discharged"] = "agrees once inlined into its callers"
        for q in sorted(bad):
            # what a unit relies on may be a fact about the units it calls
            allc = {c for c in call if q in call[c] and c not in bad and c != q}
            mine = {c for c in call if q in call[c]}
            acc = set()
            for t in d.terms(s.code_summary(q)):
                names(t, acc)
            his = {n[1] for n in acc if n[0] == "unit" and n[1] in s.match}
            odd = {c for c in mine ^ his if c not in bad and c != q}
            more = {c for c in his - mine if c not in bad and c != q}
            pure = {c for c in allc if not (s.info(c).effect or s.info(c).mods)}
            for inl, sample in ((more, True), (odd, True), (pure, True), (allc | odd, True)):
                if q in cleared or not inl or time.time() - t0 > WALL or r.units[q]["discharged"]:
                    continue
                d3 = Decider(Suite(spec, code, inline=inl), want, tries, seed, limit)
                d3.vocab = d.vocabulary()
                if q in d3.s.match and agrees(d3, q, sample):
                    r.units[q]["discharged"] = "agrees once its callees are inlined"
    r.share = share(s)
    r.diffs += r.share
    for q, u in r.units.items():
        if u["diffs"] and not u["discharged"]:
            r.diffs += u["diffs"]
        r.undecided += u["undecided"]
    r.calls = sum(isinstance(x, ast.Call) for m in s.code.mods.values() for x in ast.walk(m.tree))
    r.terms, r.byform, r.interps = len(T._TABLE), d.byform, d.interps
    r.wall = time.time() - t0
    return r

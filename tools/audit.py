"""Model adequacy: which guards of the reference summaries does random interpretation exercise both ways?"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vsa.suite import Suite
from vsa.decide import Decider
from vsa import model as M, terms as T
from vsa.match import bag

def audit(only=None, n=150, code="/repo/vrpy"):
    S = Suite(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec"), code)
    D = Decider(S)
    out = {}
    for q in sorted(S.match):
        if only and only not in q:
            continue
        s = S.info(q).summary
        ty = M.Types(q)
        ts = [s.ret] + [v for _, v, _ in s.finals.values()]
        for t in ts:
            ty.add(t)
        ua = []
        for (k, p, d), lst in bag(s.events).items():
            for g, es in lst:
                ua.append(((k, p, d), g, es))
        A = D.evlist(ua)
        for kind, p, qs, g in A:
            d = {}
            for v, dm in qs:
                ty.add(dm, d); d = dict(d); d[v] = dm
            ty.add(p, d); ty.add(g, d)
        cnt = {}
        why = {}
        class MM(M.Model):
            def atom(self, t, env):
                r = M.Model.atom(self, t, env)
                c = cnt.setdefault(t, [0, 0]); c[1 if r else 0] += 1
                return r
        nok = 0; okt = [0]*len(ts); oke = [0]*len(A)
        for seed in range(n):
            m = MM(seed, ty, D.state())
            for i, t in enumerate(ts):
                try: m.ev(t, {}); okt[i] += 1
                except M.Undefined as ex: why[str(ex)[:50]] = why.get(str(ex)[:50], 0) + 1
            for i, e in enumerate(A):
                try:
                    o, ii = {}, {}
                    m.events([e], o, ii); oke[i] += bool(o)
                except M.Undefined as ex: why["ev " + str(ex)[:50]] = why.get("ev " + str(ex)[:50], 0) + 1
        atoms = set()
        for t in ts + [x for e in A for x in [e[1], e[3]] + [d for _, d in e[2]]]:
            for x in T.subterms(t):
                if x.op == "B": atoms.add(x.args[0])
        bad = [(t, cnt.get(t)) for t in atoms if not cnt.get(t) or min(cnt[t]) == 0]
        out[q] = (len(atoms), bad, okt, oke, why, s, A)
    return out

if __name__ == "__main__":
    only = sys.argv[1] if len(sys.argv) > 1 else None
    tot = b = 0
    for q, (n, bad, okt, oke, why, s, A) in audit(only).items():
        tot += n; b += len(bad)
        z = [i for i, x in enumerate(okt) if x < 10]; ze = [i for i, x in enumerate(oke) if x < 3]
        if bad or z or ze:
            print(q, "atoms", n, "degenerate", len(bad), "terms<10", [([*s.finals][i-1] if i else "ret") for i in z], "events never", len(ze), "of", len(A), str(dict(sorted(why.items(), key=lambda x:-x[1])[:4]))[:200])
            for t, c in bad[:8]:
                print("     ", c, T.show(t)[:150])
            for i in ze[:3]:
                print("      EV", A[i][0], T.show(A[i][1])[:100], "|", T.show(A[i][3])[:100])
    print(tot, b)

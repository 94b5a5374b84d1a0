#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- decide one property of /repo/vrpy from its source.

exit 0: every obligation of the property agrees with the reference
exit 1: a construct of the code violates the property (VIOLATION line, replay file)
"""
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same run twice takes the same steps
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

RULE = ("Every method and function of the package is summarised, without executing it, as guarded values "
        "(returned value, final value of every attribute and container it writes, ordered/guarded effects: "
        "constraints and variables handed to the solver, exceptions, calls that reach the outside). An obligation "
        "is one returned value, one final value or one effect of the reference model that carries this "
        "property's tag; it is discharged when the code's summary has the same normal form (value numbering over "
        "guarded terms) or, failing that, when the two terms agree under random interpretation of their free "
        "symbols. A term that differs under an interpretation is a violation, reported at the statement of the "
        "code that produces it; code outside the analysed language leaves an obligation undecided (counted, never "
        "an alarm).")


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
    prop = next((p for p in props if p["id"] == pid), None)
    if prop is None:
        print("unknown property", pid)
        return 2
    from vsa.run import run, memory_cap
    memory_cap()
    r = run(os.path.join(HERE, "spec"), os.path.join(repo, "vrpy"), tier=tier, seed=seed)
    mine = [d for d in r.diffs if pid in d.tags]
    units = {q: u for q, u in r.units.items() if pid in u["tags"]}
    und = [x for q, u in units.items() if not u["diffs"] for x in u["undecided"]]
    nobl = sum(u["tagged"].get(pid, 0) for u in units.values())
    rel = lambda p: os.path.relpath(p, repo) if p.startswith(repo + os.sep) else os.path.relpath(p, HERE)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["known"] if k["property"] == pid]
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    undn = sum(u["tagged"].get(pid, 0) for q, u in units.items() if u["undecided"])
    samples = []
    for q in sorted(units):
        u = units[q]
        samples.append({"unit": q, "code": "%s:%d" % (rel(u["loc"][0]), u["loc"][1]),
                        "obligations": u["tagged"].get(pid, 0),
                        "verdict": "violated" if any(pid in d.tags for d in u["diffs"]) and not u["discharged"]
                        else u["discharged"] or ("undecided" if u["undecided"] else "agrees")})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": RULE, "obligations": nobl, "discharged": nobl - undn if not mine else None,
                       "units_with_obligations": len(units), "units_analysed": len(r.units),
                       "call_sites": r.calls, "terms": r.terms, "by_normal_form": r.byform,
                       "interpretations": r.interps, "undecided": und[:20],
                       "reference_units_without_counterpart": r.unmatched, "samples": samples},
          "assumptions": ["the reference model in /verif/spec states the intended behaviour (reviewed by hand, "
                          "derived from the documentation and the code after the fix: commits)",
                          "Python, networkx, PuLP and cspy behave as their documentation says",
                          "attributes are reached by name (no setattr/monkey patching at run time)"],
          "violations": len(mine), "wall_s": round(time.time() - t0, 3)}
    if mine:
        ev["coverage"]["discharged"] = max(0, nobl - undn - len(mine))
    rc = 0
    for k in known:
        if not any(d.unit in k["units"] for d in r.diffs):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if mine:
        rc = 1
        path = os.path.join(edir, pid + ".violation.txt")
        with open(path, "w") as fh:
            fh.write("property %s: %s\n%s\n\n" % (pid, prop["title"], prop["statement"]))
            for d in mine:
                fh.write("%s:%d in %s\n  obligation : %s (%s, reference %s:%d)\n  required   : %s\n  found      : %s\n"
                         % (rel(d.code_loc[0]), d.code_loc[1], d.code_loc[2] or d.unit, d.what, d.unit,
                            rel(d.spec_loc[0]), d.spec_loc[1], d.spec_txt, d.code_txt))
                w = getattr(d, "witness", None)
                if w is not None:
                    fh.write("  interpretation %s: %s\n" % (w[0], " vs ".join(str(x)[:300] for x in w[1:3])))
                fh.write("\n")
            fh.write("replay: python3 %s %s %s\n" % (os.path.join(HERE, "check.py"), pid, tier))
        for d in mine:
            print("%s:%d: %s: %s differs from what the property requires" %
                  (rel(d.code_loc[0]), d.code_loc[1], d.code_loc[2] or d.unit, d.what))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev["wall_s"] = round(time.time() - t0, 3)
    with open(os.path.join(edir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not rc:
        print("%s: %d obligations in %d units agree%s (%.1fs)" %
              (pid, nobl - undn, len(units), ", %d undecided" % undn if undn else "", ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

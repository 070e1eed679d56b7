#!/usr/bin/env python3
"""check.py <property id> : rebuild the resolved program from /repo's current sources and decide one property.

exit 0: holds (known findings listed); exit 1: VIOLATION printed; exit 2: the analysis itself is broken.
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known():
    k = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l[7:].split(" ", 2)
                pid = f[0].split("=", 1)[1]
                key = f[1].split("=", 1)[1]
                k[(pid, key)] = f[2] if len(f) > 2 else ""
    return k


def match(w, kn, pid, r):
    """the known finding this report is: same rule and object, in the listed function or in a helper only it calls"""
    if (pid, r.key()) in kn:
        return r.key()
    from report import Report
    fs = [f for f in w.m.defined(True) if f.dname == r.func and f.internal]
    if len(fs) != 1 or fs[0].taken:
        return None
    cs = {c.dname for c in w.m.defined(True) for i in c.calls(fs[0].name)}
    if len(cs) == 1:
        k = Report(r.rule, cs.pop(), r.obj, "", "").key()
        if (pid, k) in kn:
            return k
    return None


def main():
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    import build, world
    from report import Result
    mod = importlib.import_module("rules." + pid.lower())
    w = world.load()
    res = Result(pid, w)
    mod.run(w, res)
    res.verify_floor()
    kn = known()
    viol, found = [], []
    seen = set()
    for r in res.reports:
        key = r.key()
        if key in seen:
            continue
        seen.add(key)
        k2 = match(w, kn, pid, r)
        if k2:
            r.known = k2
            found.append(r)
        else:
            viol.append(r)
    ev = {
        "property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {"explanation": res.explanation(), "counts": res.counts, "rules": res.rules,
                     "units": w.info["units"], "sources_sha": w.info["sources_sha"],
                     "known_findings": [r.key() for r in found]},
        "assumptions": res.assumptions,
    }
    ep = os.path.join(HERE, "evidence", pid + ".json")
    tmp = ep + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, ep)
    print("%s: %s" % (pid, res.explanation()))
    for r in found:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[(pid, r.known)] or r.text, r.known))
    rc = 0
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for r in viol:
                f.write(r.full() + "\n\n")
        for r in viol:
            print("  %s" % r.full().replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: the check could not decide; see the traceback")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

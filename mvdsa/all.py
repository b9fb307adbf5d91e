"""Run every property on one tree (experiments): all.py [repo] -> which properties report, what is undecided."""
import os, sys, json, time
if len(sys.argv) > 1:
    os.environ["MVDSA_REPO"] = os.path.abspath(sys.argv[1])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import check, rules, safety, props as P
import entries as en
from facts import extract, BuildError


def main():
    t0 = time.time()
    procs = int(os.environ.get("PROCS", "8"))
    try:
        F = check.FACTS = extract()
    except BuildError as e:
        print(json.dumps({"build": str(e)[-600:]}))
        return 2
    jobs = [("twin", e.name) for e in en.ENTRIES] + [("safety", r) for r in safety.roots(F)]
    rs = []
    for p in P.PROPS:
        for r in p.rules:
            if r not in rs:
                rs.append(r)
                jobs += rules.jobs(F, r)
    jobs = list(dict.fromkeys(jobs))
    res = check.run_jobs(jobs, procs)
    tw = {x[2]["entry"]: x[2] for x in res if x[0] == "twin"}
    sf = [x[2] for x in res if x[0] == "safety"]
    ev = {r: rules.evaluate(F, r, sf, [x for x in res if x[0] == r]) for r in rs}
    out = {"viol": {}, "und": {}, "detail": []}
    for p in P.PROPS:
        names = check.closure(p.entries) if p.closure else p.entries
        v = [n for n in names if tw[n]["status"] == "differs"]
        u = [n for n in names if tw[n]["status"] == "undecided"]
        for r in p.rules:
            v += [r + ": " + x["what"] for x in ev[r][2]]
            u += [r + ": " + x["why"] for x in ev[r][3]]
        if v:
            out["viol"][p.id] = len(v)
        if u:
            out["und"][p.id] = len(u)
    for r in tw.values():
        for d in r["diff"][:4]:
            out["detail"].append("DIFF %s %s %s | %s | %s" % (r["entry"], d["where"], d["why"], str(d["code"])[:300], str(d["reference"])[:300]))
        if r["status"] == "undecided":
            out["detail"].append("UND %s %s" % (r["entry"], r["why"][:300]))
    for r in rs:
        for x in ev[r][2]:
            out["detail"].append("RULE %s %s %s" % (r, x.get("function", ""), x["what"][:300]))
        for x in ev[r][3]:
            out["detail"].append("UND %s %s %s" % (r, x.get("function", ""), x["why"][:300]))
    out["detail"] = list(dict.fromkeys(out["detail"]))
    out["wall"] = round(time.time() - t0, 1)
    print(json.dumps(out, indent=1 if "-v" in sys.argv else None, ensure_ascii=False))
    return 0


if __name__ == "__main__":
    sys.exit(main())

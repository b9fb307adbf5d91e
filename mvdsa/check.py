"""check <ID> [--tier quick|thorough]: decide one property on /repo's current source."""
import hashlib, json, os, re, resource, signal, sys, time, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts as facts_mod
from facts import extract, VERIF, BuildError
import entries as en_mod
import props as props_mod
import safety, rules

EV = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
LIMIT = {"quick": 200, "thorough": 600}
CONFIRM = {"quick": 120, "thorough": 300}
FIRST = 660               # seconds after the start when no further bounded comparison is awaited
JOB_MEMORY = 4 << 30
START = time.time()
TRUSTED = [
    "rustc nightly MIR of the crate (the facts), its trait resolution and type layout",
    "the abstract semantics of MIR and of the modelled std/bstr functions (mvdsa/engine.py, mvdsa/models.py)",
    "dependencies quake_text, quake_clientinfo, quake_serverinfo, ktxstats, chrono, serde_json are total pure functions",
    "64-bit target; a demo has fewer than 2^29 messages",
]
ASSUME = TRUSTED[2:]

FACTS = None
TIER = "quick"


def short(p):
    return p.split("::")[-1]


def closure(names):
    """entries plus the entries of the functions they keep as calls, transitively"""
    out, work = [], list(names)
    while work:
        n = work.pop(0)
        if n in out:
            continue
        out.append(n)
        e = en_mod.BY_NAME[n]
        for a in e.atomic:
            for x in en_mod.ENTRIES:
                if x.impl == a or x.impl.endswith("::" + a):
                    work.append(x.name)
    return out


class TimeUp(Exception):
    pass


def on_alarm(*a):
    raise TimeUp()


def span_of(F, path):
    for x in F["insts"]:
        if x["local"] and x["path"] == path:
            return x.get("span", "")
    return ""


def note(r, found):
    from twin import guard_text
    from terms import show
    seen = set()
    for d, w, J, si, ss in found:
        k = (d.kind, w, d.why)
        if k in seen:
            continue
        seen.add(k)
        rec = {"where": w, "why": d.why,
               "code": show(d.a)[:1500] if d.a is not None and not isinstance(d.a, tuple) else None,
               "reference": show(d.b)[:1500] if d.b is not None and not isinstance(d.b, tuple) else None,
               "when_code": guard_text(si, 8), "when_reference": guard_text(ss, 8)}
        if len(r[d.kind]) < 12:
            r[d.kind].append(rec)


def twin_job(name):
    import twins
    e = en_mod.BY_NAME[name]
    F = FACTS
    t = time.time()
    r = {"entry": name, "impl": e.impl, "span": span_of(F, e.impl), "status": "ok", "diff": [], "unk": [], "stats": {}, "why": ""}
    mod = e.spec.split("::")[0]
    if mod in F["spec_dropped"]:
        r.update(status="undecided", why="the reference no longer type-checks against the crate: " + str(F["spec_dropped"][mod])[:300])
        return r
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT[TIER])
    try:
        tw = twins.run_entry(F, e)
        if tw is None:
            r.update(status="undecided", why="function not present")
            return r
        r["stats"] = {k: v for k, v in tw.stats.items()}
        r["notes"] = sorted(str(n) for n in tw.E.notes)[:10]
        note(r, tw.found)
        open_ = [k for k, o in tw.E.oblig.items() if not o[0] and not k[0].startswith(("verif_spec", "<verif_spec")) and k[1] in rules.PANIC_KINDS]
        r["stats"]["panic_obligations"] = len([k for k in tw.E.oblig if k[1] in rules.PANIC_KINDS])
        roots = [x for x in safety.roots(F) if F["insts"][x]["path"] == e.impl]
        if open_ and roots:
            # a panic is no result: whether it really can happen is decided as for C01
            signal.alarm(0)
            safety.FACTS = F
            for (fn, kind, span), (ok, desc, vague, _) in safety.job(roots[0])[2]["oblig"].items():
                if not ok and not vague and kind in rules.PANIC_KINDS:
                    r["diff"].append({"where": "panic in " + fn, "why": kind, "code": desc[:600], "reference": "returns", "when_code": span, "when_reference": ""})
        if not tw.stats["feasible"]:
            r.update(status="undecided", why="no pair of cases is jointly feasible")
    except TimeUp:
        r.update(status="undecided", why="time limit")
    except RecursionError:
        r.update(status="undecided", why="recursion limit")
    except Exception as ex:
        r.update(status="undecided", why="%s: %s" % (type(ex).__name__, str(ex)[:300]), trace=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    r["wall_s"] = round(time.time() - t, 2)
    return conclude(r)


def first_job(name, n):
    """one bounded shape of the comparison of the first rounds, of an entry the main comparison left open"""
    import twin, twins
    e = en_mod.BY_NAME[name]
    r = {"diff": [], "unk": []}
    signal.signal(signal.SIGALRM, on_alarm)
    limits = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (JOB_MEMORY, limits[1]))
    try:
        note(r, twins.first_rounds(FACTS, e, CONFIRM[TIER], [twin.BOUNDED[n]]))
    except Exception as ex:
        r["why"] = "%s: %s" % (type(ex).__name__, str(ex)[:300])
    finally:
        signal.alarm(0)
        resource.setrlimit(resource.RLIMIT_AS, limits)
    return r


def conclude(r):
    if r["diff"]:
        r["status"] = "differs"
    elif r["unk"]:
        r.update(status="undecided", why=r["unk"][0]["why"])
    return r


def job(x):
    kind, arg = x
    if kind == "twin":
        return kind, arg, twin_job(arg)
    if kind == "first":
        return kind, arg, first_job(*arg)
    if kind == "safety":
        safety.FACTS = FACTS
        return kind, arg, safety.job(arg)
    return kind, arg, rules.run_job(FACTS, kind, arg)


def run_jobs(jobs, procs=8):
    if not jobs:
        return []
    cost = {"frags_per_player_name": 9, "flag_events_per_player_name": 9, "prints": 7, "ping_per_player_number": 5}
    jobs = sorted(jobs, key=lambda j: -cost.get(j[1] if isinstance(j[1], str) else short(FACTS["insts"][j[1]]["path"]) if isinstance(j[1], int) else "", 0))
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        res = list(pool.imap_unordered(job, jobs, chunksize=1))
        open_ = {x[2]["entry"]: x[2] for x in res if x[0] == "twin" and not x[2]["diff"] and (x[2]["unk"] or x[2]["why"])
                 and x[2]["why"] != "function not present" and not x[2]["why"].startswith("the reference")}
        if open_:
            import twin
            names = sorted(open_, key=lambda n: -cost.get(n, 0))
            todo = pool.imap_unordered(job, [("first", (x, n)) for n, sh in enumerate(twin.BOUNDED) for x in names if sh not in twin.LARGE.get(x, ())], chunksize=1)
            while True:
                try:
                    _, (name, n), f = todo.next(max(1, START + FIRST - time.time()))
                except (StopIteration, mp.TimeoutError):
                    break
                r = open_[name]
                for d in f["diff"]:
                    if len(r["diff"]) < 12 and all((d["where"], d["why"]) != (o["where"], o["why"]) for o in r["diff"]):
                        r["diff"].append(d)
                conclude(r)
        return res


def known():
    """exact keys of recorded findings: lines 'known: property=<id> key=<key> ...'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(argv):
    global FACTS, TIER
    t0 = time.time()
    pid = argv[0]
    TIER = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        TIER = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props_mod.BY_ID[pid]
    F = FACTS = extract()
    names = (closure(p.entries) if p.closure else list(p.entries))
    jobs = [("twin", n) for n in names]
    need_safety = any(r in ("panics", "termination", "arithmetic") for r in p.rules)
    if need_safety:
        jobs += [("safety", r) for r in safety.roots(F)]
    for r in p.rules:
        jobs += rules.jobs(F, r)
    res = run_jobs(jobs)
    viol, cov = [], {}
    tw = [x[2] for x in res if x[0] == "twin"]
    und = []
    for r in sorted(tw, key=lambda r: r["entry"]):
        if r["status"] == "differs":
            for d in r["diff"]:
                viol.append({"key": "%s|%s|%s" % (r["entry"], d["where"], d["why"]), "function": r["impl"], "at": r["span"],
                             "what": "%s: %s" % (d["where"], d["why"]), "detail": d})
        elif r["status"] == "undecided":
            und.append({"function": r["impl"], "why": r["why"]})
    oblig = disch = 0
    if tw:
        tot = lambda k: sum(r["stats"].get(k, 0) for r in tw)
        cov.update({
            "programs": sum(1 for r in tw if r["stats"]),
            "disagreements_checked": tot("feasible"),
            "case_pairs": tot("pairs"), "case_pairs_equal": tot("equal"),
            "loop_pairs": tot("loop_pairs"), "loop_transitions": tot("transitions"),
            "functions_agreeing": sum(1 for r in tw if r["status"] == "ok"),
            "samples": [{"function": r["impl"], "at": r["span"], "cases": r["stats"].get("cases_code", 0),
                         "cases_reference": r["stats"].get("cases_ref", 0), "pairs": r["stats"].get("pairs", 0), "feasible": r["stats"].get("feasible", 0),
                         "status": r["status"]} for r in sorted(tw, key=lambda r: r["entry"])[:40]],
        })
        oblig += sum(1 for r in tw)
        disch += sum(1 for r in tw if r["status"] == "ok")
    sf = [x[2] for x in res if x[0] == "safety"]
    for rule in p.rules:
        o, d, v, u, c = rules.evaluate(F, rule, sf, [x for x in res if x[0] == rule])
        oblig += o
        disch += d
        viol += v
        und += u
        cov.update(c)
    cov["obligations"], cov["discharged"] = oblig, disch
    cov["undecided"] = und[:40]
    cov["checker_cmd"] = "python3 mvdsa/check.py %s" % pid
    cov["trusted_base"] = TRUSTED
    if "samples" not in cov:
        cov["samples"] = []
    cov["explanation"] = p.note or ""
    kf = known()
    real, seen = [], set()
    for v in viol:
        h = hashlib.sha256(v["key"].encode()).hexdigest()[:12]
        v["id"] = h
        if h in seen:
            continue
        seen.add(h)
        if (pid, h) in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, h)]))
        else:
            real.append(v)
    os.makedirs(EV, exist_ok=True)
    for v in real[:10]:
        rp = os.path.join(EV, "violation-%s-%s.json" % (pid, v["id"]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "title": p.title, "rerun": "cd /verif && python3 mvdsa/check.py %s" % pid, **v}, f, indent=1)
        print("%s %s: %s" % (v.get("at", ""), v.get("function", ""), v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for u in und[:10]:
        print("undecided: %s: %s" % (u.get("function", ""), u["why"][:200]))
    ev = {"property": pid, "tier": TIER if TIER in LIMIT else "quick", "seed": seed, "level": p.level, "coverage": cov,
          "assumptions": ASSUME, "violations": len(real), "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(EV, "%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EV, "%s.json" % pid))
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs" % (
        pid, p.title, oblig, disch, len(und), len(real), time.time() - t0))
    return 1 if real else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except BuildError as e:
        print(str(e)[-3000:])
        sys.exit(2)

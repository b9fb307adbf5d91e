"""Run reference comparisons (debug CLI)."""
import sys, time, multiprocessing as mp, traceback
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from facts import extract
import entries


def insts_at(F, path):
    return [i for i, x in enumerate(F["insts"]) if x["local"] and x["path"] == path and x.get("body")]


def first_rounds(F, e, limit=150, shape=None):
    import twin
    a, b = insts_at(F, e.impl), insts_at(F, "verif_spec::" + e.spec)
    if not a or not b:
        return []
    return twin.first_rounds(F, a[0], b[0], atoms_of(F, e), e.opts, limit, shape)


def atoms_of(F, e):
    names = {x["path"] for x in F["insts"] if x["local"]}
    return [p for p in names if "verif_spec" not in p and any(p == s or p.endswith("::" + s) for s in e.atomic)]


def run_entry(F, e, opts=None):
    from twin import Twin
    a = insts_at(F, e.impl)
    b = insts_at(F, "verif_spec::" + e.spec)
    if not a or not b:
        return None
    tw = Twin(F, a[0], b[0], atomic=atoms_of(F, e), opts=dict(e.opts, **(opts or {})))
    tw.check()
    return tw
def job(n):
    e = [x for x in entries.ENTRIES if x.name == n][0]
    t = time.time()
    try:
        tw = run_entry(FACTS, e, OPTS)
        if tw is None:
            return n, 0, None, "missing"
        from twin import guard_text
        out = []
        seen = set()
        for d, w, J, si, ss in tw.found:
            k = (w, repr(d))
            if k in seen:
                continue
            seen.add(k)
            out.append((d.kind, w, repr(d), guard_text(si, 6), guard_text(ss, 6)))
        return n, time.time() - t, tw.stats, out
    except Exception:
        return n, time.time() - t, None, traceback.format_exc()[-300:]


FACTS = None
OPTS = None
if __name__ == "__main__":
    for a in sys.argv:
        if a.startswith("--peel="):
            OPTS = {"peel": int(a[7:])}
    FACTS = extract()
    if FACTS["spec_dropped"]:
        print("DROPPED", FACTS["spec_dropped"])
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    v = "-v" in sys.argv
    names = [e.name for e in entries.ENTRIES if not pats or e.name in pats]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for n, dt, st, out in p.imap_unordered(job, names, chunksize=1):
            if st is None:
                print("%-30s %6.1fs FAIL %s" % (n, dt, out))
                continue
            nd = sum(1 for o in out if o[0] == "diff")
            nu = len(out) - nd
            print("%-30s %6.1fs diff=%d unk=%d %s" % (n, dt, nd, nu, " ".join("%s=%s" % kv for kv in st.items())), flush=True)
            for o in out[:(40 if v else 4)]:
                print("     ", o[1], o[2][:900])
                if v:
                    print("         code:", o[3])
                    print("         ref: ", o[4])

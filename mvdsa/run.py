import sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import engine as en, terms as tm
from facts import extract
from engine import *

def root_args(E, iid):
    body = E.insts[iid]["body"]
    names = {}
    args = []
    for i in range(body["argc"]):
        ty = body["locals"][i+1][0]
        nm = body["locals"][i+1][1] or "arg%d" % i
        args.append(E.opaque(mk("in", nm), ty))
    return args

def by_path(F, p):
    return [i for i, x in enumerate(F["insts"]) if x["path"] == p and x.get("body")]

if __name__ == "__main__":
    F = extract()
    pats = sys.argv[1:]
    for r in F["roots"]:
        p = F["insts"][r]["path"]
        if pats and not any(p == x or p.endswith("::" + x) for x in pats):
            continue
        E = Engine(F)
        t = time.time()
        try:
            res = E.call_inst(r, root_args(E, r), State(), ROOT + ((p,),))
            bad = [(k, o) for k, o in E.oblig.items() if not o[0]]
            print("%-60s %5.2fs steps=%d rets=%d oblig=%d bad=%d loops=%d/%d" % (p, time.time()-t, E.steps, len(res), len(E.oblig), len(bad), sum(1 for l in E.loops if l[1]), len(E.loops)))
            for k, o in bad:
                print("     BAD", k, o[1][:200])
            for l in E.loops:
                if not l[1]: print("     LOOP", l[0], l[2])
            if pats:
                for s, v in res[:6]:
                    print("   ->", tm.show(v)[:400])
                print(E.notes)
        except Exception as ex:
            import traceback
            print("%-60s %5.2fs EXC %s: %s" % (p, time.time()-t, type(ex).__name__, ex))
            if pats: traceback.print_exc()

"""Absence of panics, loop ranking, exact arithmetic: obligations of every exported
function, each analysed for all arguments, other exported functions kept as calls.

An obligation is discharged when one of the (sound) analysis configurations
discharges it; it is reported only when none does and the condition is over
exactly modelled values."""
import os, re, signal, sys, time, multiprocessing as mp, traceback
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import terms as tm
from engine import Engine, State, ROOT
from terms import show
from twin import root_args


def roots(F):
    return [r for r in F["roots"] if not F["insts"][r]["path"].startswith("verif_spec::")]


def has_fn(F, ty, seen=None):
    seen = seen or set()
    if ty in seen or not isinstance(ty, int):
        return False
    seen.add(ty)
    t = F["types"][ty]
    return t["k"] in ("closure", "fndef", "fnptr", "opaque", "alias", "dyn") or "Fn(" in t.get("disp", "")


def kept_calls(F):
    """exported functions that are kept as calls when another root is analysed"""
    rs = set(roots(F))
    return {f["path"] for f in F["fns"] if f["inst"] in rs and not has_fn(F, f["output"])}


CONFIGS = [
    ("calls", {}),
    ("inline", {}),
    ("paths", {"nojoin": True, "uniq": True, "join_max": 300, "loop_entries": 8}),
]


# the first rounds of every loop only: says nothing about what holds, but shows that an alarm does not come
# from the abstraction of the loops
PEEL = [(name, {"nojoin": True, "join_max": 300, "peel": n}) for name in ("peel inline", "peel calls") for n in (2, 1)]


class TimeUp(Exception):
    pass


def on_alarm(*a):
    raise TimeUp()


def analyse(F, r, cfg=0):
    p = F["insts"][r]["path"]
    name, opts = CONFIGS[cfg] if isinstance(cfg, int) else cfg
    at = set() if name.endswith("inline") else kept_calls(F) - {p}
    kw = {"merge_k": 10 ** 9} if name == "paths" or name.startswith("peel") else {}
    E = Engine(F, atomic=at, opts=opts, **kw)
    res = E.call_inst(r, root_args(E, r), State(), ROOT + ((p,),))
    return E, res


# contents of containers the analysed code has filled itself, non-linear arithmetic: no element invariants are kept
INEXACT = r"havoc|app\(|foreign\(|nl\(|[ho](val|key)\(|mget|elem\(φ|elem\(sorted|elem\(cat|elem\(collect"


def inexact_state(st):
    if st is None:
        return False
    for a in list(st.atoms) + list(st.fin):
        for x in tm.walk(a):
            if x.op in ("havoc", "app", "foreign"):
                return True
    return False


def conditioned(st, text):
    """the number is built on a quotient, and a condition (as on the remainder) bounds that quotient together
    with other numbers: entailment is not complete there"""
    if st is None or "divc(" not in text:
        return False
    return any(x.op == "divc" and show(x) in text for it in st.facts for x, _ in it)


LIMIT = 150
DEADLINE = 420     # seconds after which no further analysis of any function is begun
T0 = time.time()


def left():
    return max(1, min(LIMIT, int(DEADLINE - (time.time() - T0))))


def job(r):
    F = FACTS
    p = F["insts"][r]["path"]
    t = time.time()
    out = {"oblig": {}, "loops": {}, "steps": 0, "rets": 0, "notes": [], "failed": [], "configs": []}
    signal.signal(signal.SIGALRM, on_alarm)
    for n in range(len(CONFIGS)):
        signal.alarm(left())
        try:
            E, res = analyse(F, r, n)
        except TimeUp:
            out["failed"].append("%s: time limit" % CONFIGS[n][0])
            continue
        except RecursionError:
            out["failed"].append("%s: recursion" % CONFIGS[n][0])
            continue
        except Exception as e:
            out["failed"].append("%s: %s: %s" % (CONFIGS[n][0], type(e).__name__, str(e)[:200]))
            continue
        finally:
            signal.alarm(0)
        out["configs"].append(CONFIGS[n][0])
        out["steps"] += E.steps
        out["rets"] = len(res)
        out["notes"] = sorted(set(out["notes"]) | {str(x) for x in E.notes})
        ob, lp = {}, {}
        for (fn, kind, span), o in E.oblig.items():
            vague = bool(re.search(INEXACT, o[1])) or kind == "may-panic" or inexact_state(o[4]) or conditioned(o[4], o[1])
            ob[(fn, kind, str(span))] = (bool(o[0]), o[1], vague and not o[5], bool(o[5]))
        for l in E.loops:
            k = (l[0], str(l[4][1:2]) if len(l[4]) > 1 else "")
            vague = bool(re.search(INEXACT, str(l[2])))
            old = lp.get(k, (True, "", False))
            lp[k] = (bool(l[1]) and old[0], str(l[2]) if not l[1] else old[1] or str(l[2]), vague or old[2])
        if not out["oblig"] and not out["loops"]:
            out["oblig"], out["loops"] = ob, lp
        else:
            # an obligation absent from this run was not reachable in it
            for d, new in ((out["oblig"], ob), (out["loops"], lp)):
                for k, v in list(d.items()):
                    if not v[0]:
                        w = new.get(k, (True, "not reachable", False, False))
                        if w[0] or w[2]:
                            d[k] = w
                        elif d is out["loops"] and w[1].startswith("can repeat") and not v[1].startswith("can repeat"):
                            d[k] = w
        if all(v[0] for v in out["oblig"].values()) and all(v[0] for v in out["loops"].values()):
            break
    open_ = [k for k, v in out["oblig"].items() if not v[0] and not v[3] and k[1] != "may-panic"]
    if open_:
        hit = confirm(F, r, open_)
        for k in open_:
            if k in hit:
                out["oblig"][k] = (False, hit[k], False, False)
            else:
                v = out["oblig"][k]
                out["oblig"][k] = (False, v[1] + " [not confirmed without the abstraction of loops]", True, False)
    return p, time.time() - t, out


def confirm(F, r, keys):
    """which of the open obligations fail already in the first rounds of the loops"""
    hit = {}
    for cfg in PEEL:
        signal.alarm(min(CONFIRM, left()))
        try:
            E, res = analyse(F, r, cfg)
        except Exception:
            continue
        finally:
            signal.alarm(0)
        for (fn, kind, span), o in E.oblig.items():
            if not o[0] and not inexact_state(o[4]) and not conditioned(o[4], o[1]) and not re.search(INEXACT + (r"|call\(" if cfg[0] == "peel calls" else ""), o[1]):
                hit[(fn, kind, str(span))] = o[1]
        break
    return {k: v for k, v in hit.items() if k in keys}


CONFIRM = 20
FACTS = None


def run(F, procs=8):
    global FACTS
    FACTS = F
    slow = ["flag_events_per_player_name", "frags_per_player_name", "prints", "ping_per_player_number"]
    rs = sorted(roots(F), key=lambda r: next((i for i, s in enumerate(slow) if F["insts"][r]["path"].endswith("::" + s)), 9))
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        return sorted(pool.imap_unordered(job, rs, chunksize=1))


if __name__ == "__main__":
    from facts import extract
    F = extract()
    t = time.time()
    for p, dt, r in sorted(run(F), key=lambda x: x[1]):
        bad = [(k, o) for k, o in r["oblig"].items() if not o[0]]
        badl = [(k, o) for k, o in r["loops"].items() if not o[0]]
        print("%-60s %5.2fs oblig=%d bad=%d loops=%d bad=%d %s %s" % (p, dt, len(r["oblig"]), len(bad), len(r["loops"]), len(badl), r["configs"], r["failed"]))
        for b in bad + badl:
            print("    ", b)
    print(time.time() - t)

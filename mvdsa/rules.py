"""Rules over the call graph, the effects and the loop summaries."""
import re, traceback
import terms as tm
from terms import show
from engine import Engine, State, ROOT
import safety


def short(p):
    return p.split("::")[-1]


def strip(s):
    """keys without positions and intern numbers"""
    return re.sub(r"\d+", "N", str(s))[:160]


# ------------------------------------------------------------------ call graph
def callees(F, i):
    b = F["insts"][i].get("body")
    out = []
    if not b:
        return out
    for bb in b["blocks"]:
        if bb.get("cleanup"):
            continue
        f = bb.get("f") if bb["t"] == "call" else None
        if f and f.get("inst") is not None:
            out.append((f["inst"], bb.get("sp")))
        for st in bb["st"]:
            walk_fn_refs(st, out)
        if bb["t"] == "call":
            for a in bb["args"]:
                walk_fn_refs(a, out)
    return out


def walk_fn_refs(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("fn", "inst", "closure") and isinstance(v, int):
                out.append((v, None))
            else:
                walk_fn_refs(v, out)
    elif isinstance(x, list):
        for v in x:
            walk_fn_refs(v, out)


def fn_types(F, i, out):
    """functions and closures mentioned in the types of the locals"""
    b = F["insts"][i].get("body")
    if not b:
        return
    for l in b["locals"][1 + b["argc"]:]:
        t = F["types"][l[0]] if isinstance(l[0], int) else None
        if t and isinstance(t.get("inst"), int):
            out.append((t["inst"], None))
        if t and isinstance(t.get("call"), int):
            out.append((t["call"], None))


def reachable(F):
    roots = safety.roots(F)
    par = {r: None for r in roots}
    work = list(roots)
    edges = {}
    while work:
        i = work.pop()
        cs = callees(F, i)
        fn_types(F, i, cs)
        edges[i] = cs
        for c, sp in cs:
            if c not in par:
                par[c] = i
                work.append(c)
    # closures of reachable functions, by path
    more = True
    while more:
        more = False
        paths = {F["insts"][i]["path"] for i in par}
        for i, x in enumerate(F["insts"]):
            if i in par or not x.get("body") or "{closure" not in x["path"]:
                continue
            if x["path"].split("::{closure")[0] in paths and x["local"]:
                par[i] = None
                work = [i]
                while work:
                    j = work.pop()
                    cs = callees(F, j)
                    fn_types(F, j, cs)
                    edges[j] = cs
                    for c, sp in cs:
                        if c not in par:
                            par[c] = j
                            work.append(c)
                more = True
    return par, edges


def chain(F, par, i):
    out = []
    while i is not None and len(out) < 12:
        out.append(F["insts"][i]["path"])
        i = par.get(i)
    return " <- ".join(out)


def cycles(F, par, edges):
    """strongly connected components with a cycle among the crate's functions"""
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    nodes = [i for i in par if F["insts"][i]["local"]]

    def succ(i):
        return [c for c, _ in edges.get(i, []) if c in par and F["insts"][c]["local"]]

    def go(root):
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ(v):
                        out.append(comp)
    for v in nodes:
        if v not in idx:
            go(v)
    return out


# ------------------------------------------------------------------ effects
EFFECTS = [
    (r"(^|<)std::fs::|std::fs::", "reads or writes the file system"),
    (r"std::env::", "depends on the environment"),
    (r"std::net::|std::os::", "uses the network or the operating system"),
    (r"std::process::", "controls processes"),
    (r"std::thread::|LocalKey", "uses threads or thread-local state"),
    (r"std::time::Instant::now|SystemTime::now|Utc::now|Local::now|chrono::Local|Instant::elapsed|offset::local", "reads the clock or the local time zone"),
    (r"std::io::(stdio|_print|_eprint|stdin|stdout|stderr)|std::io::Stdin|std::io::Stdout|std::io::Stderr", "uses the standard streams"),
    (r"std::sync::(mpsc|atomic|poison|Mutex|RwLock|Once|nonpoison|OnceLock|LazyLock)|sync::atomic|std::cell::(RefCell|Cell|OnceCell|LazyCell|UnsafeCell)", "keeps shared or mutable state"),
    (r"std::panic::|std::alloc::|std::backtrace|std::ptr::(read|write)_volatile", "touches process-wide state"),
    (r"RandomState::new|RandomState as|DefaultHasher|BuildHasher", "observes hash seeds"),
    (r"(^|::)(rand|getrandom|fastrand|uuid)::", "uses randomness"),
]
CELL_OK = re.compile(r"std::cell::(RefCell|Cell|OnceCell)")


def effect_of(path, crate=None):
    for r, why in EFFECTS:
        if re.search(r, path):
            return why
    return None


POSITIVE = ["std::fs::read", "std::env::var", "std::time::Instant::now", "std::io::_print", "std::thread::spawn",
            "std::thread::LocalKey::<T>::with", "chrono::Utc::now", "std::process::exit", "std::sync::Mutex::<T>::lock",
            "std::sync::atomic::AtomicUsize::fetch_add", "std::net::TcpStream::connect"]


def check_purity(F):
    o = d = 0
    viol, und = [], []
    par, edges = reachable(F)
    sites = 0
    seen_foreign = set()
    for p in POSITIVE:
        if not effect_of(p):
            und.append({"function": p, "why": "effect table does not match its positive example"})
    for i in par:
        x = F["insts"][i]
        if not x["local"]:
            continue
        if x["path"].startswith("verif_spec::"):
            continue
        o += 1
        bad = None
        for c, sp in edges.get(i, []):
            y = F["insts"][c]
            sites += 1
            if y["local"]:
                continue
            seen_foreign.add(y["path"])
            w = effect_of(y["path"]) or effect_of(y.get("full", "").split("<")[0])
            if w:
                if CELL_OK.search(y["path"]) and not any(s["local"] and not s["freeze"] for s in F["statics"]):
                    continue    # a cell local to the call
                bad = (y["path"], w, sp)
                viol.append({"key": "effect|%s" % y["path"], "function": x["path"], "at": str(sp or x["span"]),
                             "what": "%s: call of `%s` reachable from the public API" % (w, y["path"]), "path": chain(F, par, i)})
        if bad is None:
            d += 1
    for s in F["statics"]:
        o += 1
        if s["mut"] or not s["freeze"]:
            viol.append({"key": "static|%s" % s["path"], "function": s["path"], "at": "", "what": "static `%s` is mutable or has interior mutability: calls share state" % s["path"]})
        else:
            d += 1
    # owned, thread-safe results
    rs = set(safety.roots(F))
    for f in F["fns"]:
        if f["inst"] not in rs:
            continue
        o += 1
        b = shared_part(F, f["output"], set())
        if b:
            viol.append({"key": "result|%s" % f["path"], "function": f["path"], "at": f["span"], "what": "the result contains %s" % b})
        else:
            d += 1
    cov = {"functions_reachable": sum(1 for i in par if F["insts"][i]["local"]), "call_sites": sites,
           "foreign_functions": len(seen_foreign), "statics": len(F["statics"]), "rule_purity": "effect table over every resolved callee reachable from the public API; statics frozen; results owned and thread-safe"}
    return o, d, viol, und, cov


def shared_part(F, ty, seen):
    if not isinstance(ty, int) or ty in seen:
        return None
    seen.add(ty)
    t = F["types"][ty]
    k = t["k"]
    disp = t.get("disp", "")
    if k in ("fnptr", "fndef"):
        return None
    if re.search(r"(^|[^\w])(Rc|RefCell|Cell|UnsafeCell|MutexGuard|OnceCell)<", re.sub(r"\w+::", "", disp)):
        return "a value that is not thread-safe (%s)" % disp[:80]
    if k in ("rawptr", "ptr"):
        return "a raw pointer"
    return None


# ------------------------------------------------------------------ termination / panics / arithmetic
PANIC_KINDS = {"overflow", "slice-bounds", "bounds", "char-boundary", "panic", "may-panic", "div0", "rem0", "unwrap", "neg", "shift",
               "div", "rem", "divzero", "remzero"}
ARITH_KINDS = {"overflow", "lossy-cast", "saturation", "wrap", "neg", "shift"}


def oblig_rule(F, sf, kinds, other=False):
    o = d = 0
    viol, und = [], []
    failed = {}
    kindcount = {}
    for p, dt, r in sf:
        if not r["configs"]:
            o += 1
            und.append({"function": p, "why": "not analysed: " + "; ".join(r["failed"])})
            continue
        for (fn, kind, span), (ok, desc, vague, _) in r["oblig"].items():
            if kind not in kinds and not (other and kind not in ARITH_KINDS):
                continue
            o += 1
            kindcount[kind] = kindcount.get(kind, 0) + 1
            if ok:
                d += 1
            elif vague:
                und.append({"function": fn, "why": "%s at %s: %s" % (kind, span, desc[:200])})
            else:
                viol.append({"key": "%s|%s|%s" % (fn, kind, strip(desc)), "function": fn, "at": span,
                             "what": "%s: %s" % (kind, desc[:300]), "entry": p})
    return o, d, viol, und, kindcount


def evaluate(F, rule, sf, own):
    if rule == "panics":
        o, d, v, u, k = oblig_rule(F, sf, PANIC_KINDS, True)
        return o, d, v, u, {"panic_obligations": k, "roots_analysed": len(sf), "loops_ranked": 0 or sum(len(r["loops"]) for _, _, r in sf)}
    if rule == "arithmetic":
        o, d, v, u, k = oblig_rule(F, sf, ARITH_KINDS)
        return o, d, v, u, {"arithmetic_obligations": k, "roots_analysed": len(sf)}
    if rule == "termination":
        o = d = 0
        viol, und = [], []
        samples = []
        for p, dt, r in sf:
            if not r["configs"]:
                o += 1
                und.append({"function": p, "why": "not analysed: " + "; ".join(r["failed"])})
            for (fn, hdr), (ok, why, vague) in r["loops"].items():
                o += 1
                if ok:
                    d += 1
                    if len(samples) < 20:
                        samples.append({"function": fn, "root": p, "rank": strip(why)})
                elif why.startswith("can repeat without progress") and not vague:
                    viol.append({"key": "loop|%s|%s" % (fn, strip(why)), "function": fn, "at": hdr, "what": "loop " + why, "entry": p})
                else:
                    und.append({"function": fn, "why": "no ranking argument found: " + why[:200]})
        par, edges = reachable(F)
        o += 1
        cs = cycles(F, par, edges)
        if not cs:
            d += 1
        for c in cs:
            names = sorted(F["insts"][i]["path"] for i in c)
            viol.append({"key": "recursion|" + "|".join(names), "function": names[0], "at": F["insts"][c[0]]["span"], "what": "recursive calls: " + " -> ".join(names)})
        return o, d, viol, und, {"loops": o - 1, "call_graph_functions": len(par), "recursive_components": len(cs), "samples": samples}
    if rule == "purity":
        return check_purity(F)
    if rule in ("determinism", "walk"):
        o = d = 0
        viol, und, cov = [], [], {}
        for _, arg, r in own:
            o += r["o"]
            d += r["d"]
            viol += r["viol"]
            und += r["und"]
            for k, v in r["cov"].items():
                cov[k] = cov.get(k, 0) + v if isinstance(v, int) else cov.get(k, []) + v
        if rule == "determinism":
            o2, d2, v2, u2, c2 = check_purity(F)
            seeds = [v for v in v2 if re.search("clock|environment|random|hash seeds|standard|file|thread|shared|static", v["what"])]
            o += o2
            d += d2
            viol += seeds
        return o, d, viol, und, cov
    raise KeyError(rule)


def jobs(F, rule):
    if rule == "determinism":
        return [("determinism", r) for r in safety.roots(F)]
    if rule == "walk":
        return [("walk", r) for r in safety.roots(F)]
    return []


def run_job(F, kind, r):
    p = F["insts"][r]["path"]
    out = {"o": 0, "d": 0, "viol": [], "und": [], "cov": {}}
    try:
        if kind == "determinism":
            determinism(F, r, out)
        else:
            import walk
            walk.walk(F, r, out)
    except Exception as e:
        out["o"] += 1
        out["und"].append({"function": p, "why": "%s: %s" % (type(e).__name__, str(e)[:200])})
    return out


# ------------------------------------------------------------------ determinism
def hash_sites(F, r, keep):
    """hash-table iterations in the functions analysed together with root r"""
    seen, work, out = {r}, [r], []
    while work:
        i = work.pop()
        cs = callees(F, i)
        fn_types(F, i, cs)
        for c, sp in cs:
            y = F["insts"][c]
            if re.search(r"Hash(Map|Set)|hash_(map|set)", y["path"]) and short(y["path"]) in (
                    "iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "extract_if", "next") or \
               short(y["path"]) == "into_iter" and re.search(r"^<&?(mut )?std::collections::Hash|for .*Hash(Map|Set)", y["full"]):
                out.append((F["insts"][i]["path"], sp))
            if y["local"] and y["path"] not in keep and c not in seen:
                seen.add(c)
                work.append(c)
    return out


HK = ("hkey", "hval")


def has_item(t):
    return any(x.op in HK for x in tm.walk(t))


def own_items(t, phis):
    return [x for x in tm.walk(t) if x.op in HK and any(y in phis for y in tm.walk(x.a[1]))]


def determinism(F, r, out):
    p = F["insts"][r]["path"]
    keep = safety.kept_calls(F) - {p}
    out["o"] += 1
    sites = hash_sites(F, r, keep)
    out["cov"]["functions_checked"] = 1
    out["cov"]["hash_iteration_sites"] = len(sites)
    if not sites:
        out["d"] += 1
        return
    from twin import root_args, base_phi
    E = Engine(F, atomic=keep, merge_k=10 ** 9, opts={"nojoin": True, "uniq": True, "join_max": 300, "loop_entries": 8})
    res = E.call_inst(r, root_args(E, r), State(), ROOT + ((p,),))
    tainted = {}
    items = {}        # tainted phi -> item terms pushed
    loops = 0
    hash_phis = set()
    for key, (leaves, backs, info) in E.loopdef.items():
        own = {base_phi(l[2]): l for l in leaves}
        own.pop(None, None)
        its = set()
        for b in backs:
            for t in list(b.atoms) + list(b.fin):
                its |= set(own_items(t, own))
            for (lk, ty, ph, v0) in leaves:
                v = E.get_at(b.store.get(lk[0]), lk[1])
                if v is not None:
                    its |= set(own_items(v, own))
        # the position variable of the table iteration
        pos = set()
        for x in its:
            for y in tm.walk(x.a[1]):
                if y in own:
                    pos.add(y)
        for b in backs:
            for (lk, ty, ph, v0) in leaves:
                if ph.op == "lin":
                    continue
        if not its:
            continue
        loops += 1
        hash_phis |= pos
        for (lk, ty, ph, v0) in leaves:
            bp = base_phi(ph)
            if bp in pos or bp is None:
                continue
            for b in backs:
                v = E.get_at(b.store.get(lk[0]), lk[1])
                if v is None or v is ph:
                    continue
                guard = [t for t in list(b.atoms) + list(b.fin) if any(y in own and y not in pos for y in tm.walk(t))]
                for it in b.facts:
                    if any(y in own and y not in pos for t, _ in it for y in tm.walk(t)) and any(has_item(t) for t, _ in it):
                        guard.append(it)
                w = commutes(E, ph, bp, v, own, pos, guard)
                if w:
                    tainted.setdefault(bp, (info[0], w))
                    items.setdefault(bp, []).append(v)
    # where tainted values go
    bad = []

    def scan(t, where, st=None):
        if t.op == "sorted":
            if order_total(t, tainted, items):
                return
        if t.op in HK:
            if any(y in hash_phis for y in tm.walk(t.a[1])) and (st is None or any(
                    v and a.op in ("eq", "seqeq") and any(x.op == "hkey" and x.a[0] is t.a[0] for x in a.a if isinstance(x, tm.T))
                    for a, v in st.atoms.items())):
                return
            bad.append((where, "an element picked by its position in a hash table: " + show(t)[:120]))
            return
        if t.op == "phi" and t in tainted:
            bad.append((where, "%s in %s" % (tainted[t][1], tainted[t][0])))
            return
        if t.op == "app" and t.a[0] in ("max_by_key", "min_by_key", "max_by", "min_by", "find", "position", "last", "nth") and any(
                x.op == "agg" and x.a[0] == "MapIter" and x.a[1][1] for x in tm.walk(t)):
            bad.append((where, "`%s` over the entries of a hash table" % t.a[0]))
            return
        if t.op == "mupd":
            scan(t.a[0], where, st)
            return
        for x in t.a:
            go(x, where, st)

    def go(x, where, st):
        if isinstance(x, tm.T):
            scan(x, where, st)
        elif isinstance(x, tuple):
            for y in x:
                go(y, where, st)
    for s, v in res:
        if v is not None:
            scan(v, "result of " + p, s)
    for key, (leaves, backs, info) in E.loopdef.items():
        own = {base_phi(l[2]) for l in leaves}
        for b in backs:
            for (lk, ty, ph, v0) in leaves:
                if base_phi(ph) in hash_phis or base_phi(ph) in tainted:
                    continue
                v = E.get_at(b.store.get(lk[0]), lk[1])
                if v is not None and not own_items(v, own):
                    scan(v, "loop in " + info[0])
    out["cov"]["hash_loops"] = loops
    if not bad:
        if loops or not E.loopdef or True:
            out["d"] += 1
    for where, why in dict.fromkeys(bad):
        out["viol"].append({"key": "hash|%s|%s" % (where, strip(why)), "function": p, "at": str(sites[0][1]),
                            "what": "%s depends on the iteration order of a hash table: %s" % (where, why),
                            "sites": [str(s) for s in sites]})


def commutes(E, ph, bp, v, own, pos, guard):
    """None when applying the update in any order gives the same value"""
    def mentions(t, x):
        return any(y is x for y in tm.walk(t))
    if v.op == "lin" and ph.op == "lin":
        d = tm.sub(v, ph)
        if not any(y in own and y not in pos for y in tm.walk(d)) and not guard:
            return None
        if not mentions(v, bp):
            if guard:
                return None if all(True for _ in guard) and numeric_extremum(v, guard, bp) else "the last or first qualifying entry wins"
            return "the last entry wins" if has_item(v) else None
        return None if not guard else "a guarded running value"
    if v.op == "mupd":
        base, key, val = v.a[0], v.a[1], v.a[2]
        if base is ph or mentions(base, bp):
            if any(x.op == "hkey" and any(y in pos for y in tm.walk(x)) for x in tm.walk(key)):
                return None
            if val.op == "lin":
                return None
            return "entries of different keys may overwrite each other"
    if v.op == "cat" or v.op in ("push",) or mentions(v, bp):
        if has_item(v):
            return "a sequence built in hash order"
        return None
    if has_item(v):
        return "the last or first qualifying entry wins"
    return None


def numeric_extremum(v, guard, bp):
    return all(isinstance(g, tuple) for g in guard) and len(guard) == 1


def order_total(t, tainted, items):
    """sorting fixes the order when the whole element, or its unique key, is compared"""
    seq, desc = t.a[0], t.a[1]
    if desc in ("unicode",) or desc == ("natural",):
        return True
    if not (isinstance(desc, tuple) and desc and desc[0] == "cmp"):
        return False
    pushed = []
    for x in tm.walk(seq):
        if x.op == "phi" and x in tainted:
            pushed += items.get(x, [])
    for pair in desc[1]:
        if not isinstance(pair, tuple) or len(pair) != 2:
            return False
        x = pair[0]
        if x.op == "arg" or x.op == "in" and x.a[0] == "a":
            return True
        for v in pushed:
            el = last_item(v)
            if el is not None:
                f = project(x, el)
                if f is not None and f.op == "hkey":
                    return True
    return False


def last_item(v):
    if v.op == "cat":
        for part in reversed(v.a[0] if isinstance(v.a[0], tuple) else v.a):
            if isinstance(part, tm.T) and part.op == "list":
                return part.a[0][-1] if isinstance(part.a[0], tuple) else part.a[-1]
    return None


def project(x, el):
    path = []
    while x.op in ("vf", "ref", "deref", "f"):
        if x.op == "vf":
            path.append(x.a[2])
        x = x.a[0]
    for i in reversed(path):
        while el.op == "ref":
            el = el.a[0]
        if el.op != "agg" or i >= len(el.a[2]):
            return None
        el = el.a[2][i]
    while el.op == "ref":
        el = el.a[0]
    return el

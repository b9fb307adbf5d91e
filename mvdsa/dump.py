import sys, json
from facts import extract
F=extract()
def pl(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e=="*": s="(*%s)"%s
        elif "f" in e: s+=".%d"%e["f"]
        elif "i" in e: s+="[_%d]"%e["i"]
        elif "ci" in e: s+="[%s%d]"%("-" if e["fe"] else "",e["ci"])
        elif "ss" in e: s+=str(e["ss"])
        elif "d" in e: s="(%s as v%d)"%(s,e["d"])
        else: s+="?"
    return s
def op(o):
    if "cp" in o: return pl(o["cp"])
    if "mv" in o: return "move "+pl(o["mv"])
    if "c" in o:
        x=json.dumps(o["c"])
        return "const "+x[:100]
    return "rc"
def rv(r):
    k=r["r"]
    if k=="use": return op(r["o"])
    if k in("ref","rawptr","reborrow"): return "&%s%s%s"%("raw " if k=="rawptr" else "","mut " if r["mut"] else "",pl(r["p"]))
    if k=="bin": return "%s(%s, %s)"%(r["op"],op(r["a"]),op(r["b"]))
    if k=="un": return "%s(%s)"%(r["op"],op(r["a"]))
    if k=="discr": return "discr(%s)"%pl(r["p"])
    if k=="cast": return "%s as[%s] %s"%(op(r["o"]),r["k"],F["types"][r["t"]]["disp"])
    if k=="agg":
        n=r["k"]
        if "t" in r: n+=" "+F["types"][r["t"]]["disp"][:60]+"#%s"%r.get("v")
        return "%s{%s}"%(n,", ".join(op(o) for o in r["ops"]))
    if k=="repeat": return "[%s; %s]"%(op(r["o"]),r["n"])
    return json.dumps(r)[:100]
def dump(i):
    print("==",i["full"], i["kind"])
    b=i.get("body")
    if not b: print("  (no body)"); return
    for n,(t,nm) in enumerate(b["locals"]): print("  let _%d: %s %s"%(n,F["types"][t]["disp"],nm or ""))
    for n,bb in enumerate(b["blocks"]):
        if bb["cleanup"]: continue
        print(" bb%d:"%n)
        for s in bb["st"]:
            if s["s"]=="=": print("   %s = %s"%(pl(s["p"]),rv(s["v"])))
            elif s["s"]=="dead": pass
            else: print("  ",json.dumps(s)[:150])
        t=bb["t"]
        if t=="call":
            f=bb["f"]
            print("   %s = call %s(%s) -> %s"%(pl(bb["dest"]), (F["insts"][f["inst"]]["full"] if f.get("inst") is not None else json.dumps(f))[:140], ", ".join(op(a) for a in bb["args"]),bb["to"]))
        elif t=="switch": print("   switch %s %s else %s"%(op(bb["o"]),bb["targets"],bb["else"]))
        elif t=="assert": print("   assert %s==%s %s -> %s"%(op(bb["c"]),bb["exp"],bb["m"]["a"],bb["to"]))
        elif t=="drop": print("   drop %s -> %s"%(pl(bb["p"]),bb["to"]))
        else: print("  ",t,bb.get("to",""))
for pat in sys.argv[1:]:
    for i in F["insts"]:
        if pat in i["full"]: dump(i)

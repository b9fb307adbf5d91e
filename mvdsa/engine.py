"""Abstract interpreter over the extracted MIR.

Relational (linear-arithmetic) abstract interpretation with trace partitioning
on control-flow, widening by loop phis + Houdini-style inductive invariants.
Every feasible path is over-approximated; nothing is executed and no solver is
called.
"""
import itertools
import sys
import terms as tm
from terms import (T, mk, const, sym, add, sub, addc, scale, neg, single, is_const, cval,
                   b_ge0, b_eq0, b_not, b_and, b_or, boolc, TRUE, FALSE, ZERO, ONE, rng,
                   infeasible, ISIZE_MAX, show)

sys.setrecursionlimit(20000)

DEBUG = False


FN_TRAITS = ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn",
             "core::ops::FnOnce", "core::ops::FnMut", "core::ops::Fn")


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


def ref(v):
    return mk("ref", v)


def ptr(root, path=()):
    return mk("ptr", root, path)


UNIT = agg("tuple", None, ())
ERR = mk("errval")


def byteseq(b):
    return mk("bytes", bytes(b))


def cbytes(s):
    """constant contents of a sequence as python bytes, or None"""
    if s.op == "bytes":
        return s.a[0]
    if s.op == "str":
        return s.a[0].encode("utf-8", "surrogatepass")
    if s.op == "arr":
        out = []
        for x in s.a[0]:
            if x.op != "lin" or not is_const(x) or not 0 <= cval(x) < 256:
                return None
            out.append(cval(x))
        return bytes(out)
    return None


def seqlen(s):
    o = s.op
    if o == "bytes":
        return const(len(s.a[0]))
    if o == "str":
        return const(len(s.a[0].encode("utf-8", "surrogatepass")))
    if o == "arr":
        return const(len(s.a[0]))
    if o == "sl":
        return s.a[2]
    if o == "cat":
        r = ZERO
        for x in s.a[0]:
            r = add(r, seqlen(x))
        return r
    if o == "upd":
        return seqlen(s.a[0])
    if o in ("sorted", "rev"):
        return seqlen(s.a[0])
    if o == "rep":
        return s.a[1]
    return sym(mk("len", s))


def mkarr(vals):
    return mk("arr", tuple(vals))


def mksl(base, off, ln):
    if base.op == "sl":
        return mksl(base.a[0], add(base.a[1], off), ln)
    if is_const(off) and is_const(ln):
        o, n = cval(off), cval(ln)
        b = base.a[0] if base.op == "bytes" else None
        if b is None and base.op == "str":
            b = base.a[0].encode("utf-8", "surrogatepass")
        if b is not None and 0 <= o and 0 <= n and o + n <= len(b):
            r = b[o:o + n]
            if base.op == "str":
                try:
                    return mk("str", r.decode("utf-8"))
                except UnicodeDecodeError:
                    return byteseq(r)
            return byteseq(r)
        if base.op == "arr" and 0 <= o and 0 <= n and o + n <= len(base.a[0]):
            return mkarr(base.a[0][o:o + n])
    if off is ZERO and ln is seqlen(base):
        return base
    if base.op == "cat":
        # slice aligned with leading parts
        pos = ZERO
        parts = list(base.a[0])
        for i, p in enumerate(parts):
            if pos is off:
                acc = []
                cur = ZERO
                for q in parts[i:]:
                    if cur is ln:
                        return mkcat(acc)
                    acc.append(q)
                    cur = add(cur, seqlen(q))
                if cur is ln:
                    return mkcat(acc)
                break
            pos = add(pos, seqlen(p))
    return mk("sl", base, off, ln)


def mkcat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.a[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if seqlen(p) is ZERO and p.op in ("bytes", "str", "arr"):
            continue
        if res:
            l = res[-1]
            if l.op == "str" and p.op == "str":
                res[-1] = mk("str", l.a[0] + p.a[0])
                continue
            if l.op == "bytes" and p.op == "bytes":
                res[-1] = byteseq(l.a[0] + p.a[0])
                continue
            if l.op == "arr" and p.op == "arr":
                res[-1] = mkarr(l.a[0] + p.a[0])
                continue
        res.append(p)
    if not res:
        return out[0] if out else mkarr(())
    if len(res) == 1:
        return res[0]
    return mk("cat", tuple(res))


EMPTY = mkarr(())

tm.REBUILDERS["sl"] = lambda a, ty: mksl(*a)
tm.REBUILDERS["cat"] = lambda a, ty: mkcat(a[0])
tm.REBUILDERS["vf"] = lambda a, ty: (a[0].a[2][a[2]] if a[0].op == "agg" and (a[0].a[1] or 0) == a[1] and a[2] < len(a[0].a[2])
                                     and a[0].a[2][a[2]] is not None and (a[0].a[0] == "tuple" or isinstance(a[0].a[0], int))
                                     else mk("vf", *a, ty=ty))
tm.REBUILDERS["len"] = lambda a, ty: seqlen(a[0])
tm.REBUILDERS["elem"] = lambda a, ty: (a[0].a[0][cval(a[1])] if a[0].op == "arr" and is_const(a[1]) and 0 <= cval(a[1]) < len(a[0].a[0])
                                       else mk("elem", *a, ty=ty))
tm.REBUILDERS["and2"] = lambda a, ty: b_and(*a)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "facts", "atoms", "fin", "nb", "prov", "lossy")

    def __init__(self):
        self.store, self.facts, self.atoms, self.fin = {}, {}, {}, {}
        self.nb = ()     # no-byte ranges: (base, byte, lo, hi)
        self.prov = ()
        self.lossy = False   # result of a merge which forgot a disjunction

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.atoms = dict(self.atoms)
        s.fin = dict(self.fin)
        s.nb = self.nb
        s.prov = self.prov
        s.lossy = self.lossy
        return s


def _relevant(facts, seeds, limit=90):
    """facts connected to the seed symbols"""
    by = {}
    for items in facts:
        for s, _ in items:
            by.setdefault(s, []).append(items)
    seen_f, seen_s = set(), set(seeds)
    work = list(seeds)
    out = []
    while work:
        nxt = []
        for s in work:
            for items in by.get(s, ()):
                if items in seen_f:
                    continue
                seen_f.add(items)
                out.append(items)
                for s2, _ in items:
                    if s2 not in seen_s:
                        seen_s.add(s2)
                        nxt.append(s2)
        if len(out) > limit:
            break
        work = nxt
    return out, seen_s


class Engine:
    def __init__(self, facts, atomic=(), merge_k=1, opts=None):
        self.F = facts
        self.types = facts["types"]
        self.insts = facts["insts"]
        self.atomic = set(atomic)
        self.merge_k = merge_k
        self.nesting = 0
        self.opts = opts or {}
        self.events = []          # (kind, ctx, state, data)
        self.oblig = {}           # key -> [ok(bool), desc, count]
        self.recording = True
        self.seqinfo = {}
        self.phiinfo = {}
        self.maphist = {}       # map-valued loop or merge variable -> [(value, state)] of everything it can hold
        self.loops = []           # termination records
        self.loopdef = {}
        self.peel_order = {}
        self.loopstack = []      # loops being walked through
        self.enclosing = {}      # loop -> the loops around it
        self.state_ids = {}
        self.notes = {}
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 4000000)
        self.want = self.opts.get("want")   # predicate on call path or None
        self.live_cache = {}
        self.cfg_cache = {}
        self.fm_cache = {}
        self.havoc_n = 0
        self.analysed = set()
        for i, t in enumerate(self.types):
            if t["k"] == "int":
                b = t["bits"]
                tm.RANGE_OF_TY[i] = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)
            elif t["k"] == "char":
                tm.RANGE_OF_TY[i] = (0, 0x10FFFF)
        self.ty_by_disp = {}
        for i, t in enumerate(self.types):
            self.ty_by_disp.setdefault(t["disp"], i)
        self.usize = self.ty_by_disp.get("usize")
        self.u8 = self.ty_by_disp.get("u8")
        import models
        self.models = models
        models.setup(self)

    # ---------------------------------------------------------- types
    def tk(self, ty):
        return self.types[ty]["k"] if isinstance(ty, int) else None

    def disp(self, ty):
        return self.types[ty]["disp"]

    def adt_path(self, ty):
        t = self.types[ty]
        return t.get("path") if t["k"] == "adt" else None

    def short(self, ty):
        p = self.adt_path(ty)
        return p.split("::")[-1] if p else None

    def is_seq_ty(self, ty):
        t = self.types[ty]
        if t["k"] in ("slice", "str", "array"):
            return True
        return t["k"] == "adt" and t["path"].split("::")[-1] in ("Vec", "String", "VecDeque")

    def field_ty(self, ty, variant, i):
        if not isinstance(ty, int):
            return None
        t = self.types[ty]
        try:
            if t["k"] == "tuple":
                return t["els"][i]
            if t["k"] == "closure":
                return t["upvars"][i]
            if t["k"] == "adt":
                return t["variants"][variant or 0]["fields"][i]["ty"]
        except (IndexError, KeyError):
            return None
        return None

    def variant_of_discr(self, ty, d):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["discr"] == d:
                return i
        return None

    def discr_of(self, ty, variant):
        return self.types[ty]["variants"][variant]["discr"]

    def opaque(self, t, ty):
        """value identified by base term t, of type ty"""
        if ty is None:
            return t
        k = self.types[ty]
        kk = k["k"]
        if kk in ("int", "char"):
            if t.op == "vf" and kk == "int" and self.atomic:
                d = self.derived(t)
                if d is not None:
                    return d
            return sym(mk(t.op, *t.a, ty=ty)) if t.op != "lin" else t
        if kk == "ref":
            if k["mut"]:
                return mk("optr", t, ty=ty)
            return ref(self.opaque(mk("deref", t), k["to"]))
        if kk == "tuple":
            if not k["els"]:
                return UNIT
            return agg("tuple", None, [self.opaque(mk("vf", t, 0, i), e) for i, e in enumerate(k["els"])])
        if kk == "array" and isinstance(k.get("len"), int) and k["len"] <= 4:
            return mkarr([self.opaque(mk("elem", t, const(i)), k["el"]) for i in range(k["len"])])
        if kk == "adt":
            p = k["path"]
            if p in ("anyhow::Error", "std::io::Error", "core::io::Error", "alloc::io::Error"):
                return ERR
            return mk(t.op, *t.a, ty=ty)
        if kk in ("bool", "float", "closure"):
            return mk(t.op, *t.a, ty=ty)
        return t

    # ------------------------------------- numbers in the result of a call kept opaque
    def derived(self, t):
        """a number in the result of a local call which is a linear function of other numbers
        in the same result and of the arguments (in all results the callee can return)"""
        chain, ix = [], None
        while t.op == "vf" or (t.op == "elem" and ix is None):
            if t.op == "elem":
                ix = t.a[1]
                chain.append("e")
            else:
                chain.append((t.a[1], t.a[2]))
            t = t.a[0]
        if t.op != "call" or t.a[0] not in self.atomic:
            return None
        defs = self.result_defs(t.a[0])
        d = defs.get(tuple(reversed(chain))) if defs else None
        if d is None:
            return None
        if d == "index":
            return ix if ix.op == "lin" else None
        c, items = d
        r = const(c)
        for (kind, x, ty), k in items:
            if kind == "arg":
                a = t.a[1][x]
                if a.op != "lin":
                    return None
                r = add(r, a, k)
            else:
                b = t
                for vi, i in x:
                    b = mk("vf", b, vi, i)
                r = add(r, sym(mk("vf", *b.a, ty=ty)), k)
        return r

    def result_defs(self, path):
        memo = self.F.setdefault("_defs", {})
        if path in memo:
            return memo[path]
        memo[path] = {}          # also while it is computed
        iid = next((i for i, x in enumerate(self.insts) if x["local"] and x["path"] == path and x.get("body")), None)
        if iid is None:
            return {}
        body = self.insts[iid]["body"]
        plan, seqs = [], []
        self.num_leaves(body["locals"][0][0], (), plan, 0, seqs)
        if len(plan) < 2 and not seqs:
            return {}
        try:
            import entries
            E = type(self)(self.F, atomic=(self.atomic | {e.impl for e in entries.ENTRIES}) - {path}, merge_k=10 ** 9, opts={"nojoin": True, "max_steps": 20000})
            args = [E.opaque(mk("in", "arg%d" % i), body["locals"][i + 1][0]) for i in range(body["argc"])]
            res = E.call_inst(iid, list(args), State(), ROOT + (("defs", path),))
        except Exception:
            return {}
        def at_chain(x, ch):
            for vi, i in ch:
                if x is None or x.op != "agg" or (x.a[1] is not None and x.a[1] != vi) or i >= len(x.a[2]):
                    return None
                x = x.a[2][i]
            return x

        rows = []
        for s, v in res:
            row = {}
            for ch, ty in plan:
                x = at_chain(v, ch)
                if x is not None and x.op == "lin":
                    row[ch] = x
            rows.append(row)
        defs = {}
        for ch, el in seqs:
            fl = []
            self.num_leaves(el, (), fl, 0)
            vs = {at_chain(v, ch) for _, v in res} - {None}
            for ch2, _ in fl:
                if vs and all(E.numbered(x, ch2) for x in vs):
                    defs[ch + ("e",) + ch2] = "index"
        base = [(("arg", i, None), [a] * len(rows)) for i, a in enumerate(args) if a.op == "lin"]
        for ch, ty in plan:
            at = [n for n, r in enumerate(rows) if ch in r]
            mine = [(k, v) for k, v in base if all(v[n] is not None for n in at)]
            hit = None
            if at:
                for sz in (1, 2):
                    for cs in itertools.combinations(mine, sz):
                        for sg in itertools.product((1, -1), repeat=sz):
                            c0 = None
                            for n in at:
                                r = rows[n][ch]
                                for (_, v), k in zip(cs, sg):
                                    r = add(r, v[n], -k)
                                if not is_const(r) or (c0 is not None and cval(r) != c0):
                                    break
                                c0 = cval(r)
                            else:
                                hit = (c0, [(kk, k) for (kk, _), k in zip(cs, sg)])
                                break
                        if hit:
                            break
                    if hit:
                        break
            if hit:
                defs[ch] = hit
            else:
                base.append((("leaf", ch, ty), [r.get(ch) for r in rows]))
        memo[path] = defs
        return defs

    def numbered(self, seq, ch):
        """in every element of this sequence (built by a loop) the number at ch is the element's index"""
        if seq.op in ("arr", "cat") and not seq.a[0]:
            return True
        for ls, bs, _ in self.loopdef.values():
            for l in ls:
                if l[2] is not seq:
                    continue
                if l[3] is None or is_const(seqlen(l[3])) is False or cval(seqlen(l[3])) != 0:
                    return False
                for b in bs:
                    v = self.get_at(b.store.get(l[0][0]), l[0][1])
                    if v is seq:
                        continue
                    if v is None or v.op != "cat" or len(v.a[0]) != 2 or v.a[0][0] is not seq or v.a[0][1].op != "arr" or len(v.a[0][1].a[0]) != 1:
                        return False
                    x = v.a[0][1].a[0][0]
                    for vi, i in ch:
                        if x.op != "agg" or i >= len(x.a[2]):
                            return False
                        x = x.a[2][i]
                    d = sub(x, seqlen(seq)) if x is not None and x.op == "lin" else None
                    if d is None or not (self.entails(b, d) and self.entails(b, neg(d))):
                        return False
                return True
        return False

    def num_leaves(self, ty, ch, out, depth, seqs=None):
        t = self.types[ty]
        if seqs is not None and t["k"] == "adt" and t["path"].split("::")[-1] == "Vec" and t.get("args"):
            seqs.append((ch, t["args"][0]))
            return
        if t["k"] == "int" and ch:
            out.append((ch, ty))
        elif t["k"] == "tuple" and depth < 4:
            for i, e in enumerate(t["els"]):
                self.num_leaves(e, ch + ((0, i),), out, depth + 1, seqs)
        elif t["k"] == "adt" and depth < 4 and t.get("variants"):
            p = t["path"].split("::")[-1]
            if p not in ("Result", "Option", "Range") and not t["path"].startswith("crate") and not self.local_adt(t):
                return
            for vi, v in enumerate(t["variants"]):
                for i, f in enumerate(v["fields"]):
                    if f.get("ty") is not None:
                        self.num_leaves(f["ty"], ch + ((vi, i),), out, depth + 1, seqs)

    def local_adt(self, t):
        return not t["path"].startswith(("std::", "core::", "alloc::", "anyhow::", "chrono::", "bstr::"))

    # ---------------------------------------------------------- state ops
    def rngs(self, st, s):
        lo, hi = rng(s)
        f = st.fin.get(s)
        if f and f[0] == "in":
            a, b = min(f[1]), max(f[1])
            lo = a if lo is None else max(lo, a)
            hi = b if hi is None else min(hi, b)
        c = st.facts.get(((s, 1),))
        if c is not None and (lo is None or -c > lo):
            lo = -c
        c = st.facts.get(((s, -1),))
        if c is not None and (hi is None or c < hi):
            hi = c
        return lo, hi

    def bounds(self, st, l):
        lo = hi = l.a[0]
        for s, k in l.a[1]:
            a, b = self.rngs(st, s)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def entails(self, st, l, limit=90):
        """l >= 0 in all concretisations"""
        if is_const(l):
            return cval(l) >= 0
        l = tm.norm_ge(l)
        c = st.facts.get(l.a[1])
        if c is not None and c <= l.a[0]:
            return True
        lo, hi = self.bounds(st, l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        # FM on the negation: -l-1 >= 0
        seeds = [s for s, _ in l.a[1]]
        rel, syms = _relevant(st.facts, seeds, limit)
        if not rel and len(l.a[1]) <= 1:
            return False
        rel = rel[:limit]
        cons = [(dict(it), st.facts[it]) for it in rel]
        big = abs(l.a[0]) >= (1 << 40)
        for s in syms:
            a, b = self.rngs(st, s)
            if a is not None:
                cons.append(({s: 1}, -a))
            if b is not None and (big or b < (1 << 40)):
                cons.append(({s: -1}, b))
        n = addc(neg(l), -1)
        cons.append((dict(n.a[1]), n.a[0]))
        key = (frozenset((frozenset(d.items()), c) for d, c in cons))
        r = self.fm_cache.get(key)
        if r is None:
            r = infeasible(cons)
            self.fm_cache[key] = r
        return r

    def feasible_ge(self, st, l):
        return not self.entails(st, addc(neg(l), -1))

    def put_fact(self, st, l):
        """record l>=0 without a feasibility test (l holds in every state joined here)"""
        l = tm.norm_ge(l)
        if is_const(l):
            return
        lo, _ = self.bounds(st, l)
        if lo is not None and lo >= 0:
            return
        c = st.facts.get(l.a[1])
        if c is None or l.a[0] < c:
            st.facts[l.a[1]] = l.a[0]

    def add_ge(self, st, l):
        """assume l>=0; returns False when infeasible"""
        l = tm.norm_ge(l)
        if is_const(l):
            return cval(l) >= 0
        if not self.feasible_ge(st, l):
            return False
        c = st.facts.get(l.a[1])
        if c is None or l.a[0] < c:
            lo, _ = self.bounds(st, l)
            if lo is None or lo < 0:
                st.facts[l.a[1]] = l.a[0]
        # single-symbol disequality tightening
        if len(l.a[1]) == 1:
            s = l.a[1][0][0]
            f = st.fin.get(s)
            if f:
                if f[0] == "in":
                    k = l.a[1][0][1]
                    keep = frozenset(v for v in f[1] if k * v + l.a[0] >= 0)
                    if not keep:
                        return False
                    st.fin[s] = ("in", keep)
                else:
                    lo, hi = self.rngs(st, s)
                    ch = False
                    while lo is not None and lo in f[1]:
                        lo += 1
                        ch = True
                    while hi is not None and hi in f[1]:
                        hi -= 1
                        ch = True
                    if lo is not None and hi is not None and lo > hi:
                        return False
                    if ch:
                        if lo is not None:
                            st.facts[((s, 1),)] = -lo
                        if hi is not None:
                            st.facts[((s, -1),)] = hi
        else:
            # lin disequalities  (eq0 l False)
            for m in (l, neg(l)):
                a = b_eq0(m)
                if a.op == "eq0" and st.atoms.get(a) is False:
                    if self.entails(st, m):
                        n = tm.norm_ge(addc(m, -1))
                        st.facts[n.a[1]] = min(n.a[0], st.facts.get(n.a[1], n.a[0]))
                    break
        return True

    def dom(self, st, s):
        """finite domain of s as frozenset or None"""
        f = st.fin.get(s)
        if f and f[0] == "in":
            return f[1]
        lo, hi = self.rngs(st, s)
        if s.op == "discr" and s.a[0].ty is not None and self.tk(s.a[0].ty) == "adt":
            base = frozenset(v["discr"] for v in self.types[s.a[0].ty]["variants"])
        elif lo is not None and hi is not None and hi - lo < 256:
            base = frozenset(range(lo, hi + 1))
        else:
            return None
        if f:
            base = base - f[1]
        return frozenset(v for v in base if (lo is None or v >= lo) and (hi is None or v <= hi))

    def tab_image(self, st, t):
        """possible variants of a tab term"""
        scr, mp, dflt = t.a
        d = dict(mp)
        one = single(scr)
        if one is None:
            return set(d.values()) | {dflt}
        s, c = one
        dm = self.dom(st, s)
        f = st.fin.get(s)
        if dm is not None:
            return {d.get(v + c, dflt) for v in dm}
        out = {dflt}
        lo, hi = self.rngs(st, s)
        for k, v in mp:
            x = k - c
            if f and f[0] == "out" and x in f[1]:
                continue
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                continue
            out.add(v)
        return out

    def restrict(self, st, s, keep):
        """s in keep(frozenset) ; False if infeasible"""
        dm = self.dom(st, s)
        k = frozenset(keep) if dm is None else dm & frozenset(keep)
        if not k:
            return False
        if any(len(it) > 1 and any(x is s for x, _ in it) for it in st.facts):
            # before the domain is narrowed: relations may already place the value outside of it
            if self.entails(st, addc(sym(s), -max(k) - 1)) or self.entails(st, addc(neg(sym(s)), min(k) - 1)):
                return False
        st.fin[s] = ("in", k)
        if s.op == "discr" and s.a[0].op == "tab":
            return self.tab_restrict(st, s.a[0], k)
        return self.add_ge(st, addc(sym(s), -min(k))) and self.add_ge(st, addc(neg(sym(s)), max(k)))

    def exclude(self, st, s, vals):
        dm = self.dom(st, s)
        if dm is not None:
            return self.restrict(st, s, dm - frozenset(vals))
        f = st.fin.get(s)
        st.fin[s] = ("out", (f[1] if f else frozenset()) | frozenset(vals))
        lo, hi = self.rngs(st, s)
        ex = st.fin[s][1]
        n = 0
        while lo is not None and lo in ex:
            lo += 1
            n = 1
        while hi is not None and hi in ex:
            hi -= 1
            n = 1
        if lo is not None and hi is not None and lo > hi:
            return False
        if n:
            if lo is not None and not self.add_ge(st, addc(sym(s), -lo)):
                return False
            if hi is not None and not self.add_ge(st, addc(neg(sym(s)), hi)):
                return False
        return True

    def tab_restrict(self, st, t, discrs):
        scr, mp, dflt = t.a
        vs = set()
        for d in discrs:
            v = self.variant_of_discr(t.ty, d)
            if v is not None:
                vs.add(v)
        one = single(scr)
        if one is None:
            return True
        s, c = one
        if dflt in vs:
            bad = [k - c for k, v in mp if v not in vs]
            return self.exclude(st, s, bad) if bad else True
        return self.restrict(st, s, {k - c for k, v in mp if v in vs})

    def add_eq(self, st, l):
        one = None
        if len(l.a[1]) == 1:
            s, k = l.a[1][0]
            if l.a[0] % k:
                return False
            return self.eq_const(st, s, -l.a[0] // k)
        return self.add_ge(st, l) and self.add_ge(st, neg(l))

    def eq_const(self, st, s, v):
        if s.op == "discr":
            if s.a[0].op == "tab":
                if self.variant_of_discr(s.a[0].ty, v) not in self.tab_image(st, s.a[0]):
                    return False
            return self.restrict(st, s, {v})
        dm = self.dom(st, s)
        if dm is not None and v not in dm:
            return False
        f = st.fin.get(s)
        if f and f[0] == "out" and v in f[1]:
            return False
        if not self.feasible_ge(st, addc(sym(s), -v)) or not self.feasible_ge(st, addc(neg(sym(s)), v)):
            return False
        st.fin[s] = ("in", frozenset([v]))
        st.facts[((s, 1),)] = -v
        st.facts[((s, -1),)] = v
        if s.op == "elem" and v != 0:
            pass
        return True

    def add_ne(self, st, l):
        if len(l.a[1]) == 1:
            s, k = l.a[1][0]
            if l.a[0] % k:
                return True
            return self.exclude(st, s, [-l.a[0] // k])
        if self.entails(st, l):
            if not self.add_ge(st, addc(l, -1)):
                return False
        elif self.entails(st, neg(l)):
            if not self.add_ge(st, addc(neg(l), -1)):
                return False
        a = b_eq0(l)
        if a is TRUE:
            return False
        if a.op == "eq0":
            if st.atoms.get(a) is True:
                return False
            st.atoms[a] = False
        return True

    def decide(self, st, b):
        """True/False/None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        o = b.op
        if o == "not":
            r = self.decide(st, b.a[0])
            return None if r is None else not r
        if o == "ge0":
            if self.entails(st, b.a[0]):
                return True
            if self.entails(st, addc(neg(b.a[0]), -1)):
                return False
            return None
        if o == "eq0":
            l = b.a[0]
            if len(l.a[1]) == 1:
                s, k = l.a[1][0]
                if l.a[0] % k:
                    return False
                v = -l.a[0] // k
                dm = self.dom(st, s)
                if s.op == "discr" and s.a[0].op == "tab":
                    im = {self.discr_of(s.a[0].ty, x) for x in self.tab_image(st, s.a[0])}
                    dm = im if dm is None else dm & im
                if dm is not None:
                    if v not in dm:
                        return False
                    if len(dm) == 1:
                        return True
                f = st.fin.get(s)
                if f and f[0] == "out" and v in f[1]:
                    return False
            r = st.atoms.get(b)
            if r is not None:
                return r
            if self.entails(st, addc(l, -1)) or self.entails(st, addc(neg(l), -1)):
                return False
            if self.entails(st, l) and self.entails(st, neg(l)):
                return True
            if self.opts.get("peel") and len(l.a[1]) == 2:
                # x != y and y = z
                mine = {s for s, _ in l.a[1]}
                for a, v in list(st.atoms.items()):
                    if v is False and a.op == "eq0" and len(a.a[0].a[1]) == 2 and len(mine & {s for s, _ in a.a[0].a[1]}) == 1:
                        for d in (sub(l, a.a[0]), add(l, a.a[0])):
                            if len(d.a[1]) == 2 and self.entails(st, d) and self.entails(st, neg(d)):
                                return False
            return None
        if o == "and2":
            x = self.decide(st, b.a[0])
            y = self.decide(st, b.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        r = st.atoms.get(b)
        if r is not None:
            return r
        h = self.models.DECIDE.get(o)
        if h:
            return h(self, st, b)
        return None

    def assume(self, st, b, val=True):
        """list of states where b==val; may consume st"""
        if b is TRUE or b is FALSE:
            return [st] if (b is TRUE) == val else []
        o = b.op
        if o == "not":
            return self.assume(st, b.a[0], not val)
        if o == "ge0":
            ok = self.add_ge(st, b.a[0] if val else addc(neg(b.a[0]), -1))
            return [st] if ok else []
        if o == "eq0":
            ok = self.add_eq(st, b.a[0]) if val else self.add_ne(st, b.a[0])
            return [st] if ok else []
        if o == "and2":
            if val:
                out = []
                for s in self.assume(st, b.a[0], True):
                    out += self.assume(s, b.a[1], True)
                return out
            out = self.assume(st.copy(), b.a[0], False)
            for s in self.assume(st, b.a[0], True):
                out += self.assume(s, b.a[1], False)
            return out
        r = self.decide(st, b)
        if r is not None:
            return [st] if r == val else []
        st.atoms[b] = val
        h = self.models.ASSUME.get(o)
        if h:
            return h(self, st, b, val)
        return [st]

    def branch(self, st, b):
        """(true states, false states)"""
        r = self.decide(st, b)
        if r is True:
            return [st], []
        if r is False:
            return [], [st]
        return self.assume(st.copy(), b, True), self.assume(st, b, False)

    # ---------------------------------------------------------- values
    def discr(self, st, v, ty):
        if v.op == "agg":
            t = v.a[0] if isinstance(v.a[0], int) else ty
            if self.types[t]["k"] == "adt" and v.a[1] is not None and self.types[t]["variants"]:
                return const(self.discr_of(t, v.a[1]))
            return ZERO
        if v.op == "tab":
            im = self.tab_image(st, v)
            if len(im) == 1:
                return const(self.discr_of(v.ty, next(iter(im))))
        if v.ty is None and ty is not None:
            v = mk(v.op, *v.a, ty=ty)
        return sym(mk("discr", v))

    def field(self, st, v, variant, i, fty):
        if v is None:
            raise Unsupported("read of uninitialised value")
        if v.op == "agg":
            f = v.a[2]
            if i < len(f):
                r = f[i]
                if r is None:
                    raise Unsupported("read of uninitialised field")
                return r
            raise Unsupported("field %s of %s" % (i, show(v)))
        if v.op == "sum":      # merged two-shape value, not generated currently
            pass
        r = self.opaque(mk("vf", v, variant if variant is not None else 0, i), fty)
        if self.atomic and r.op == "lin" and st is not None and isinstance(fty, int) and not is_const(r):
            x = single(r)
            if not x or x[1] or x[0].op != "vf":
                lo, hi = tm.RANGE_OF_TY.get(fty, (None, None))
                if lo is not None:
                    self.add_ge(st, addc(r, -lo))
                if hi is not None and hi < 1 << 60:
                    self.add_ge(st, addc(neg(r), hi))
        return r

    def elem(self, st, s, idx, ty):
        if s.op == "sl":
            return self.elem(st, s.a[0], add(s.a[1], idx), ty)
        if is_const(idx):
            n = cval(idx)
            if s.op == "bytes" and 0 <= n < len(s.a[0]):
                return const(s.a[0][n])
            if s.op == "str":
                b = s.a[0].encode("utf-8", "surrogatepass")
                if 0 <= n < len(b):
                    return const(b[n])
            if s.op == "arr" and 0 <= n < len(s.a[0]):
                return s.a[0][n]
        if s.op == "rep":
            return s.a[0]
        if s.op == "cat":
            pos = ZERO
            for p in s.a[0]:
                nxt = add(pos, seqlen(p))
                rel = sub(idx, pos)
                if is_const(rel) and is_const(seqlen(p)) and 0 <= cval(rel) < cval(seqlen(p)):
                    return self.elem(st, p, rel, ty)
                if self.entails(st, rel) and self.entails(st, addc(sub(nxt, idx), -1)):
                    return self.elem(st, p, rel, ty)
                pos = nxt
        if s.op == "upd":
            d = b_eq0(sub(s.a[1], idx))
            r = self.decide(st, d)
            if r is True:
                return s.a[2]
            if r is False:
                return self.elem(st, s.a[0], idx, ty)
        if s.op == "arr" and not is_const(idx) and s.a[0] and all(x is s.a[0][0] for x in s.a[0]):
            return s.a[0][0]
        return self.opaque(mk("elem", s, idx), ty)

    def deref_read(self, st, v, ty=None):
        if v.op == "ref":
            return v.a[0]
        if v.op == "ptr":
            return self.read_path(st, st.store.get(v.a[0]), v.a[1])
        if v.op == "optr":
            to = self.types[v.ty]["to"]
            return self.opaque(mk("deref", v), to)
        if v.op in ("fnptr", "fndef"):
            return v
        if ty is not None:
            return self.opaque(mk("deref", v), ty)
        raise Unsupported("deref of " + show(v))

    def read_path(self, st, v, path):
        for p in path:
            if v is None:
                raise Unsupported("read through pointer to uninitialised")
            k = p[0]
            if k == "f":
                v = self.field(st, v, p[1], p[2], p[3])
            elif k == "e":
                v = self.elem(st, v, p[1], p[2])
            elif k == "k":
                v = self.models.map_value(self, st, v, p[1], p[2])
            elif k == "ss":
                v = mksl(v, p[1], p[2])
            else:
                raise Unsupported("path " + str(p))
        return v

    def write_path(self, st, v, path, new, ty=None):
        if not path:
            return new
        p = path[0]
        k = p[0]
        if k == "f":
            _, variant, i, fty, cty = p
            if v is None or v.op != "agg":
                n = None
                if isinstance(cty, int):
                    t = self.types[cty]
                    if t["k"] == "adt" and len(t["variants"]) > (variant or 0):
                        fs = t["variants"][variant or 0]["fields"]
                        flds = [None if v is None else self.opaque(mk("vf", v, variant or 0, j), f["ty"])
                                for j, f in enumerate(fs)]
                        v = agg(cty, variant if t["adt"] == "enum" else 0, flds)
                    elif t["k"] in ("tuple", "closure"):
                        els = t["els"] if t["k"] == "tuple" else t["upvars"]
                        flds = [None if v is None else self.opaque(mk("vf", v, 0, j), e) for j, e in enumerate(els)]
                        v = agg("tuple" if t["k"] == "tuple" else cty, None, flds)
                if v is None or v.op != "agg":
                    raise Unsupported("write to field of opaque")
            fl = list(v.a[2])
            fl[i] = self.write_path(st, fl[i], path[1:], new)
            return agg(v.a[0], v.a[1], fl)
        if k == "e":
            if len(path) > 1:
                new = self.write_path(st, self.elem(st, v, p[1], p[2]), path[1:], new)
            if v.op == "arr" and is_const(p[1]) and 0 <= cval(p[1]) < len(v.a[0]):
                l = list(v.a[0])
                l[cval(p[1])] = new
                return mkarr(l)
            if v.op == "bytes" and is_const(p[1]) and 0 <= cval(p[1]) < len(v.a[0]):
                l = [const(x) for x in v.a[0]]
                l[cval(p[1])] = new
                return mkarr(l)
            return mk("upd", v, p[1], new)
        if k == "k":
            if len(path) > 1:
                new = self.write_path(st, self.models.map_value(self, st, v, p[1], p[2]), path[1:], new)
            return self.models.map_put(self, st, v, p[1], new)
        if k == "ss":
            old = mksl(v, p[1], p[2])
            new = self.write_path(st, old, path[1:], new) if len(path) > 1 else new
            if old is v:
                return new
            return mkcat([mksl(v, ZERO, p[1]), new,
                          mksl(v, add(p[1], p[2]), sub(seqlen(v), add(p[1], p[2])))])
        raise Unsupported("write path " + str(p))

    def store_to(self, st, p, new):
        """write through a ptr value"""
        if p.op == "ptr":
            root, path = p.a
            st.store[root] = self.write_path(st, st.store.get(root), path, new)
            return
        if p.op == "optr":
            raise Unsupported("write through opaque pointer")
        raise Unsupported("write through " + show(p))

    # ---------------------------------------------------------- places
    def resolve(self, fr, place):
        """-> ('val', value) or ('loc', root, path, ty)   (as lvalue when possible)"""
        st = fr.st
        loc, projs = place
        root, path, ty = (fr.fid, loc), (), fr.lty[loc]
        val = None         # when set: immutable value
        variant = None
        for e in projs:
            if e == "*":
                cur = val if val is not None else self.read_path(st, st.store.get(root), path)
                if cur is None:
                    raise Unsupported("deref of uninitialised")
                t = self.types[ty]
                to = t.get("to")
                if cur.op == "ptr":
                    root, path = cur.a
                    val = None
                elif cur.op == "ref":
                    val = cur.a[0]
                elif cur.op == "optr":
                    key = ("optr", cur)
                    if key not in st.store:
                        st.store[key] = self.opaque(mk("deref", cur), to)
                    root, path, val = key, (), None
                elif t["k"] in ("ptr", "adt"):
                    val = self.deref_read(st, cur, to)
                else:
                    val = self.deref_read(st, cur, to)
                ty = to
                variant = None
            elif "d" in e:
                variant = e["d"]
            elif "f" in e:
                fty = e["t"]
                if val is not None:
                    val = self.field(st, val, variant, e["f"], fty)
                else:
                    cty = ty
                    if self.tk(ty) == "adt" and self.transparent(ty):
                        pass
                    else:
                        path = path + (("f", variant, e["f"], fty, cty),)
                ty = fty
                variant = None
            elif "i" in e or "ci" in e:
                t = self.types[ty]
                elty = t.get("el")
                cur = val if val is not None else self.read_path(st, st.store.get(root), path)
                if "i" in e:
                    idx = st.store[(fr.fid, e["i"])]
                else:
                    idx = addc(seqlen(cur), -e["ci"]) if e["fe"] else const(e["ci"])
                if val is not None:
                    val = self.elem(st, cur, idx, elty)
                else:
                    path = path + (("e", idx, elty),)
                ty = elty
            elif "ss" in e:
                cur = val if val is not None else self.read_path(st, st.store.get(root), path)
                a, b = e["ss"]
                n = sub(seqlen(cur), const(a + b)) if e["fe"] else const(b - a)
                if val is not None:
                    val = mksl(cur, const(a), n)
                else:
                    path = path + (("ss", const(a), n),)
            else:
                raise Unsupported("projection %s" % e)
        if val is not None:
            return ("val", val, ty)
        return ("loc", root, path, ty)

    def transparent(self, ty):
        p = self.types[ty].get("path", "")
        return p.split("::")[-1] in ("Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop")

    def read_place(self, fr, place):
        r = self.resolve(fr, place)
        if r[0] == "val":
            return r[1]
        _, root, path, ty = r
        v = fr.st.store.get(root)
        if v is None:
            if self.is_zst(ty) or (not path and self.is_zst(fr.lty[place[0]])):
                return self.zst(ty)
            raise Unsupported("uninitialised local _%d in %s" % (place[0], fr.inst["path"]))
        return self.read_path(fr.st, v, path)

    def is_zst(self, ty):
        t = self.types[ty]
        return t["k"] == "tuple" and not t["els"] or t["k"] == "fndef" or (t["k"] == "closure" and not t["upvars"])

    def zst(self, ty):
        t = self.types[ty]
        if t["k"] == "tuple":
            return UNIT
        if t["k"] == "fndef":
            return mk("fndef", ty)
        if t["k"] == "closure":
            return agg(ty, None, ())
        if t["k"] == "adt" and t["variants"]:
            fs = t["variants"][0]["fields"]
            return agg(ty, 0, [self.zst(f["ty"]) for f in fs])
        if t["k"] == "array":
            return EMPTY
        return mk("zst", ty)

    def write_place(self, fr, place, v):
        if not place[1]:
            fr.st.store[(fr.fid, place[0])] = v
            return
        r = self.resolve(fr, place)
        if r[0] == "val":
            raise Unsupported("write through shared reference")
        _, root, path, ty = r
        fr.st.store[root] = self.write_path(fr.st, fr.st.store.get(root), path, v)

    # ---------------------------------------------------------- constants
    def constv(self, c, ty):
        t = self.types[ty]
        if "int" in c:
            return const(int(c["int"]))
        if "bool" in c:
            return boolc(c["bool"])
        if "char" in c:
            return const(c["char"] if isinstance(c["char"], int) else ord(c["char"]))
        if "float" in c:
            return mk("flt", c["float"], self.types[ty]["bits"], ty=ty)
        if "str" in c:
            s = mk("str", c["str"])
            return ref(s) if t["k"] == "ref" else s
        if "bytes" in c:
            s = byteseq(c["bytes"])
            return ref(s) if t["k"] == "ref" else s
        if "ref" in c:
            to = t.get("to", ty)
            inner = self.constv(c["ref"], to)
            if t["k"] == "ref" and inner.op == "ref" and self.tk(to) in ("str", "slice", "array"):
                return inner
            return ref(inner)
        if "arr" in c:
            el = t.get("el")
            return mkarr([self.constv(x, el) for x in c["arr"]])
        if "tuple" in c:
            return agg("tuple", None, [self.constv(x, t["els"][i]) for i, x in enumerate(c["tuple"])])
        if "adt" in c:
            v = c["adt"]
            fs = t["variants"][v]["fields"] if t.get("variants") else []
            if t["path"].endswith("time::Duration") or any("ty" not in f for f in fs) or len(fs) < len(c["fields"]):
                raw = repr(c["fields"])
                if t["path"].endswith("time::Duration") and not any(ch in raw for ch in "123456789"):
                    return mk("dur", ZERO, ty=ty)
                return mk("const", raw, t["disp"], ty=ty)
            fl = [self.constv(x, fs[i]["ty"]) for i, x in enumerate(c["fields"])]
            if self.transparent_newtype(ty):
                return fl[0]
            return agg(ty, v, fl)
        if "fn" in c:
            return mk("fndef", ty)
        if "fnptr" in c:
            return mk("fnptr", c["fnptr"])
        if "zst" in c:
            return self.zst(ty)
        if "opaque" in c:
            return self.opaque(mk("const", str(c["opaque"]), t["disp"]), ty)
        raise Unsupported("const %s" % c)

    def transparent_newtype(self, ty):
        return False

    def operand(self, fr, o):
        if "cp" in o:
            return self.read_place(fr, o["cp"])
        if "mv" in o:
            return self.read_place(fr, o["mv"])
        if "c" in o:
            c = o["c"]
            if isinstance(c, dict) and "opaque" in c and o.get("n"):
                return self.opaque(mk("const", o["n"], self.disp(o["t"])), o["t"])
            return self.constv(c, o["t"])
        return FALSE  # runtime checks

    def operand_ty(self, fr, o):
        if "c" in o:
            return o["t"]
        p = o.get("cp") or o.get("mv")
        if p is None:
            return None
        return self.place_ty(fr, p)

    def place_ty(self, fr, p):
        ty = fr.lty[p[0]]
        for e in p[1]:
            if e == "*":
                t = self.types[ty]
                ty = t.get("to", ty)
            elif "f" in e:
                ty = e["t"]
            elif "i" in e or "ci" in e:
                ty = self.types[ty].get("el", ty)
        return ty

    # ---------------------------------------------------------- rvalues
    def fits(self, st, l, ty):
        lo, hi = tm.RANGE_OF_TY[ty]
        return self.entails(st, addc(l, -lo)) and self.entails(st, addc(neg(l), hi))

    def rvalue(self, fr, r, dty, site):
        st = fr.st
        k = r["r"]
        if k == "use":
            return self.operand(fr, r["o"])
        if k in ("ref", "rawptr"):
            res = self.resolve(fr, r["p"])
            if r.get("mut"):
                if res[0] == "val":
                    raise Unsupported("&mut of shared value")
                return ptr(res[1], res[2])
            if res[0] == "val":
                return ref(res[1])
            v = st.store.get(res[1])
            if v is None:
                if self.is_zst(res[3]):
                    return ref(self.zst(res[3]))
                if k == "rawptr":
                    return ptr(res[1], res[2])
                raise Unsupported("& of uninitialised _%s" % (res[1],))
            return ref(self.read_path(st, v, res[2]))
        if k == "reborrow":
            res = self.resolve(fr, r["p"])
            if res[0] == "val":
                return ref(res[1])
            return ptr(res[1], res[2]) if r.get("mut") else ref(self.read_path(st, st.store.get(res[1]), res[2]))
        if k == "discr":
            p = r["p"]
            v = self.read_place(fr, p)
            return self.discr(st, v, self.place_ty(fr, p))
        if k == "agg":
            ops = [self.operand(fr, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "array":
                return mkarr(ops)
            if kk == "tuple":
                return agg("tuple", None, ops)
            if kk == "adt":
                if self.transparent(r["t"]):
                    return ops[0]
                if r.get("active") is not None:
                    return ops[0]
                return agg(r["t"], r["v"], ops)
            if kk == "closure":
                return agg(r["t"], None, ops)
            if kk == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + kk)
        if k == "bin":
            return self.binop(fr, r["op"], self.operand(fr, r["a"]), self.operand(fr, r["b"]),
                              self.operand_ty(fr, r["a"]), site)
        if k == "un":
            v = self.operand(fr, r["o"]) if "o" in r else self.operand(fr, r["a"])
            ty = self.operand_ty(fr, r["o"] if "o" in r else r["a"])
            return self.unop(fr, r["op"], v, ty, site)
        if k == "cast":
            return self.cast(fr, r["k"], self.operand(fr, r["o"]), self.operand_ty(fr, r["o"]), r["t"], site)
        if k == "repeat":
            v = self.operand(fr, r["o"])
            n = r["n"]
            if isinstance(n, int) and n <= 4096:
                return mkarr([v] * n)
            return mk("rep", v, const(n))
        raise Unsupported("rvalue " + k)

    def unop(self, fr, op, v, ty, site):
        if op == "Not":
            if self.tk(ty) == "bool":
                return b_not(v)
            if is_const(v):
                lo, hi = tm.RANGE_OF_TY[ty]
                return const(hi + lo - cval(v)) if lo < 0 else const(hi - cval(v))
            lo, hi = tm.RANGE_OF_TY[ty]
            return addc(neg(v), hi if lo == 0 else -1)
        if op == "Neg":
            if self.tk(ty) == "int":
                return neg(v)
            return mk("fop", "neg", (v,), ty=ty)
        if op == "PtrMetadata":
            s = self.deref_read(fr.st, v)
            return seqlen(s)
        raise Unsupported("unop " + op)

    def binop(self, fr, op, a, b, ty, site):
        st = fr.st
        k = self.tk(ty) if ty is not None else None
        if op in ("Eq", "Ne"):
            r = self.models.value_eq(self, st, a, b, ty)
            return r if op == "Eq" else b_not(r)
        if k == "float":
            if op in ("Lt", "Le", "Gt", "Ge"):
                return mk("fcmp", op, a, b)
            return mk("fop", op, (a, b), ty=ty)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if k == "bool":
                raise Unsupported("bool ordering")
            if a.op != "lin" or b.op != "lin":
                return mk("ocmp", op, a, b)
            if op == "Lt":
                return b_ge0(addc(sub(b, a), -1))
            if op == "Le":
                return b_ge0(sub(b, a))
            if op == "Gt":
                return b_ge0(addc(sub(a, b), -1))
            return b_ge0(sub(a, b))
        if op in ("AddO", "SubO", "MulO"):
            v = self.arith(op[:3], a, b, ty)
            return agg("tuple", None, (v, mk("ovf", v, ty, op[:3], a, b)))
        if op in ("Add", "AddU", "AddUnchecked", "Sub", "SubUnchecked", "SubU", "Mul", "MulU", "MulUnchecked"):
            v = self.arith(op[:3], a, b, ty)
            if self.fits(st, v, ty):
                return v
            if op in ("Add", "Sub", "Mul"):
                # release-style wrapping primitive: used by wrapping_* only
                return self.opaque(mk("wrap", v, self.disp(ty)), ty)
            return v
        if op in ("BitAnd", "BitOr", "BitXor"):
            if k == "bool":
                if op == "BitAnd":
                    return b_and(a, b)
                if op == "BitOr":
                    return b_or(a, b)
                if a is TRUE:
                    return b_not(b)
                if b is TRUE:
                    return b_not(a)
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                return mk("xor", a, b)
            return self.bits(st, op, a, b, ty)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if is_const(b) and a.op == "lin":
                n = cval(b)
                if is_const(a):
                    lo, hi = tm.RANGE_OF_TY[ty]
                    return const((cval(a) << n) & hi) if op.startswith("Shl") and lo == 0 else \
                        const(cval(a) >> n) if op.startswith("Shr") else self.opaque(mk("bits", op, a, b), ty)
                if op.startswith("Shl"):
                    v = scale(a, 1 << n)
                    if self.fits(st, v, ty):
                        return v
                elif self.entails(st, a):
                    return self.divc(st, a, 1 << n, ty)
            return self.opaque(mk("bits", op, a, b), ty)
        if op == "Div" and is_const(b) and cval(b) > 0 and self.entails(st, a):
            return self.divc(st, a, cval(b), ty)
        if op == "Rem" and is_const(b) and cval(b) > 0 and self.entails(st, a):
            if cval(b) & (cval(b) - 1) == 0 and not is_const(a):
                return self.bits(st, "BitAnd", a, const(cval(b) - 1), ty)
            q = self.divc(st, a, cval(b), ty)
            return sub(a, scale(q, cval(b)))
        if op in ("Div", "Rem"):
            if is_const(a) and is_const(b) and cval(b) != 0:
                q = abs(cval(a)) // abs(cval(b))
                if (cval(a) < 0) != (cval(b) < 0):
                    q = -q
                return const(q) if op == "Div" else const(cval(a) - q * cval(b))
            v = self.opaque(mk("nl", op, a, b), ty)
            if op == "Div" and self.entails(st, a) and self.entails(st, addc(b, -1)):
                self.add_ge(st, v)
                self.add_ge(st, sub(a, v))
                aa = {x for x, _ in a.a[1]}
                for n in {k for it in st.facts if len(it) <= 4 and any(k < 0 and x in aa for x, k in it) for _, k in it if k > 1}:
                    # a < (n + 1) * b
                    if self.entails(st, addc(sub(scale(b, n + 1), a), -1)):
                        self.add_ge(st, addc(neg(v), n))
            if op == "Rem" and self.entails(st, a) and self.entails(st, addc(b, -1)):
                self.add_ge(st, v)
                self.add_ge(st, addc(sub(b, v), -1))
            return v
        if op == "Cmp":
            return self.models.three_way(self, st, a, b, fr.cur_dty)
        if op == "Offset":
            raise Unsupported("pointer offset")
        raise Unsupported("binop " + op)

    def divc(self, st, a, k, ty):
        if is_const(a):
            return const(cval(a) // k)
        if k == 1:
            return a
        q = sym(mk("divc", a, k, ty=ty))
        # k*q <= a <= k*q + k-1
        self.add_ge(st, sub(a, scale(q, k)))
        self.add_ge(st, addc(sub(scale(q, k), a), k - 1))
        return q

    def arith(self, op, a, b, ty):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if is_const(a):
            return scale(b, cval(a))
        if is_const(b):
            return scale(a, cval(b))
        x, y = (a, b) if a.id < b.id else (b, a)
        return sym(mk("nl", "Mul", x, y))

    def bits(self, st, op, a, b, ty):
        if a.op != "lin" or b.op != "lin":
            return self.opaque(mk("bits", op, a, b), ty)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            return const(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        if is_const(a):
            a, b = b, a
        if op == "BitAnd" and is_const(b):
            m = cval(b)
            lo, hi = self.bounds(st, a)
            if m >= 0 and (m & (m + 1)) == 0 and lo is not None and hi is not None and lo >= 0 and hi <= m:
                return a
            if m == 0:
                return ZERO
            return sym(mk("and", a, m, ty=ty))
        if op in ("BitOr", "BitXor"):
            if is_const(b) and cval(b) == 0:
                return a
            for x, y in ((a, b), (b, a)):
                lo, hi = self.bounds(st, x)
                if lo is None or hi is None or lo < 0:
                    continue
                n = hi.bit_length()
                if y.a[0] % (1 << n) == 0 and all(c % (1 << n) == 0 and c > 0 for _, c in y.a[1]) and y.a[0] >= 0:
                    return add(x, y)
        x, y = (a, b) if a.id < b.id else (b, a)
        return self.opaque(mk("bits", op, x, y), ty)

    def cast(self, fr, k, v, fty, ty, site):
        st = fr.st
        if k == "int2int":
            fk = self.tk(fty)
            if fk == "bool":
                if v is TRUE:
                    return ONE
                if v is FALSE:
                    return ZERO
                return sym(mk("b2i", v, ty=ty))
            if fk == "adt":
                v = self.discr(st, v, fty)
                if not is_const(v):
                    d = self.dom(st, v.a[1][0][0]) if single(v) else None
            if v.op != "lin":
                raise Unsupported("int cast of " + show(v))
            if self.tk(ty) not in ("int", "char"):
                raise Unsupported("cast to " + self.disp(ty))
            if self.fits(st, v, ty):
                return v
            if is_const(v):
                lo, hi = tm.RANGE_OF_TY[ty]
                w = (cval(v) - lo) % (hi - lo + 1) + lo
                return const(w)
            if fk in ("int", "char"):
                self.obligation(fr, site, "lossy-cast", False,
                                "`as %s` may lose the value of a %s: %s" % (self.disp(ty), self.disp(fty), show(v)))
            return sym(mk("trunc", v, ty=ty))
        if k == "int2float":
            return mk("fop", "i2f", (v,), ty=ty)
        if k == "float2int":
            return self.opaque(mk("f2i", v), ty)
        if k == "float2float":
            return mk("fop", "f2f", (v,), ty=ty)
        if k in ("unsize", "ptrcoerce", "ptr2ptr", "transmute"):
            if k == "transmute" and self.tk(ty) == "int" and v.op == "arr":
                vals = v.a[0]
                if all(x.op == "lin" for x in vals):
                    r = ZERO
                    for i, x in enumerate(vals):
                        r = add(r, x, 256 ** i)
                    return r
            if k == "transmute" and self.tk(ty) in ("int", "char", "bool", "float") and self.tk(fty) not in ("adt",):
                return self.opaque(mk("transmute", v), ty)
            return v
        if k in ("reify", "closurefnptr"):
            return v
        return self.opaque(mk("castop", k, v), ty)

    # ---------------------------------------------------------- recording
    def obligation(self, fr, site, kind, ok, desc, acc=False):
        if not self.recording:
            return
        key = (fr.inst["path"] if fr else "?", kind, site)
        o = self.oblig.get(key)
        if o is None:
            o = self.oblig[key] = [True, desc, 0, fr.ctx if fr else (), None, False]
        o[2] += 1
        if not ok:
            o[5] = o[5] or acc
            if o[0]:
                o[0], o[1], o[3], o[4] = False, desc, fr.ctx if fr else (), fr.st.copy() if fr else None

    def grows(self, st, v, ty):
        """a narrow counter or sum that nothing bounds: an accumulator plus something that may be positive"""
        if self.types[ty]["bits"] > 32 or v.op != "lin":
            return False
        top = tm.RANGE_OF_TY[ty][1]
        acc = 0
        for s, k in v.a[1]:
            if k > 0 and (s.op in ("phi", "mget", "mgetd", "hval", "oval") or s.op == "vf" and any(
                    x.op in ("phi", "mget", "mgetd", "hval", "oval") for x in tm.walk(s))):
                hi = self.rngs(st, s)[1]
                if hi is not None and hi < top:
                    return False
                acc += 1
            elif k < 0:
                return False
        return acc == 1 and (v.a[0] > 0 or len(v.a[1]) > 1)

    def event(self, kind, ctx, st, **data):
        if self.recording:
            if self.want is None or self.want(kind, data):
                self.events.append((kind, ctx, st.copy(), data))

    def note(self, msg):
        if self.recording:
            self.notes[msg] = self.notes.get(msg, 0) + 1

    # ---------------------------------------------------------- CFG
    def cfg(self, iid):
        c = self.cfg_cache.get(iid)
        if c:
            return c
        c = CFG(self, self.insts[iid]["body"])
        self.cfg_cache[iid] = c
        return c

    # ---------------------------------------------------------- execution
    def call_inst(self, iid, args, st, ctx):
        """inline execution of a body -> [(state, value)]"""
        inst = self.insts[iid]
        if len(ctx) > 120:
            raise Unsupported("call depth in " + inst["path"])
        fr = Frame(self, iid, inst, ctx, st)
        body = inst["body"]
        n = body["argc"]
        if len(args) != n:
            # closure / rust-call ABI adjustments
            if len(args) == 2 and args[1].op == "agg" and args[1].a[0] == "tuple":
                args = [args[0]] + list(args[1].a[2])
            if len(args) != n and body.get("spread") is not None:
                k = body["spread"] - 1
                args = args[:k] + [agg("tuple", None, args[k:])]
        if len(args) != n:
            raise Unsupported("arity of %s: %d vs %d" % (inst["path"], len(args), n))
        if inst["local"]:
            self.analysed.add(inst["path"])
        for i, a in enumerate(args):
            st.store[(fr.fid, i + 1)] = a
        rets = []
        cf = fr.cfg
        exits, rets, backs = self.run_region(fr, None, 0, [st])
        out = []
        for s in rets:
            v = s.store.get((fr.fid, 0))
            if v is None:
                v = self.zst(fr.lty[0])
            for k in [k for k in s.store if k[0] == fr.fid]:
                del s.store[k]
            out.append((s, v))
        return self.merge_returns(out, (fr.fid, "ret"), fr.lty[0], inst)

    def run_region(self, fr, region, entry, states, header=None):
        """abstractly execute blocks of `region` from entry.
        -> (exits [(block, st)], rets [st], backs [st])"""
        cf = fr.cfg
        pending = {entry: list(states)}
        exits, rets, backs = [], [], []
        first = True
        for b in cf.rpo:
            sts = pending.pop(b, None)
            if not sts:
                continue
            if region is not None and b not in region:
                raise Unsupported("irreducible flow")
            lp = cf.loops.get(b)
            if len(sts) > 1:
                sts = self.join(fr, b, sts)
            if lp is not None and not (first and b == header):
                ex, rt = self.mir_loop(fr, b, lp, sts)
                rets += rt
                for tgt, s in ex:
                    if region is not None and (tgt not in region):
                        exits.append((tgt, s))
                    elif tgt == header:
                        backs.append(s)
                    else:
                        pending.setdefault(tgt, []).append(s)
                first = False
                continue
            first = False
            fr.hdr = b if b == header else None
            for s in sts:
                for tgt, s2 in self.exec_block(fr, b, s):
                    if tgt == "ret":
                        rets.append(s2)
                    elif tgt == header:
                        backs.append(s2)
                    elif region is not None and tgt not in region:
                        exits.append((tgt, s2))
                    else:
                        pending.setdefault(tgt, []).append(s2)
        if pending:
            raise Unsupported("unprocessed blocks (irreducible)")
        return exits, rets, backs

    def prune(self, fr, b, s):
        live = fr.cfg.livein[b]
        dead = [k for k in s.store if k[0] == fr.fid and isinstance(k[1], int) and k[1] not in live]
        for k in dead:
            del s.store[k]

    JOIN_MAX = 16

    def join(self, fr, b, sts):
        out = []
        for s in sts:
            self.prune(fr, b, s)
        for s in sts:
            for o in out:
                if o.store == s.store and o.facts == s.facts and o.atoms == s.atoms and o.fin == s.fin:
                    break
            else:
                out.append(s)
        # identical stores: keep one state with intersected facts
        if len(out) > 1 and not self.opts.get("nojoin"):
            groups = {}
            for s in out:
                groups.setdefault(tuple(sorted(((str(k), v.id) for k, v in s.store.items() if v is not None))), []).append(s)
            if len(groups) < len(out):
                res = []
                for g in groups.values():
                    res.append(g[0] if len(g) == 1 else self.merge_states([(s, ()) for s in g], (fr.fid, "join", b, fr.iters), ())[0])
                out = res
        if len(out) > self.opts.get("join_max", self.JOIN_MAX):
            res = self.merge_by_shape(out, (fr.fid, "joinm", b, fr.iters))
            self.note("joined %d states in %s" % (len(out), fr.inst["path"]))
            out = res
        return out

    def merge_by_shape(self, sts, key):
        groups = {}
        for s in sts:
            groups.setdefault(tuple(sorted((str(k), self.shape(v)) for k, v in s.store.items() if v is not None)), []).append(s)
        out = []
        for i, g in enumerate(groups.values()):
            out.append(g[0] if len(g) == 1 else self.merge_states([(s, ()) for s in g], key + (i,), ())[0])
        return out

    def exec_block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        bb = fr.cfg.blocks[b]
        states = [st]
        for s in bb["st"]:
            k = s["s"]
            if k == "=":
                fr.st = st
                dty = self.place_ty_fast(fr, s["p"])
                fr.cur_dty = dty
                v = self.rvalue(fr, s["v"], dty, s.get("sp"))
                self.write_place(fr, s["p"], v)
            elif k == "dead":
                st.store.pop((fr.fid, s["l"]), None)
            elif k == "setd":
                raise Unsupported("set_discriminant")
        t = bb["t"]
        fr.st = st
        if t == "goto":
            return [(bb["to"], st)]
        if t == "ret":
            return [("ret", st)]
        if t in ("unreachable", "unwind"):
            return []
        if t == "drop":
            return [(bb["to"], st)]
        if t == "assert":
            return [(bb["to"], s) for s in self.do_assert(fr, bb, st)]
        if t == "switch":
            return self.do_switch(fr, bb, st)
        if t == "call":
            return self.do_call(fr, b, bb, st)
        raise Unsupported("terminator " + t)

    def place_ty_fast(self, fr, p):
        return fr.lty[p[0]] if not p[1] else self.place_ty(fr, p)

    def do_switch(self, fr, bb, st):
        v = self.operand(fr, bb["o"])
        ty = bb["ty"]
        out = []
        if self.tk(ty) == "bool":
            m = {int(k): t for k, t in bb["targets"]}
            tt = m.get(1, bb["else"])
            tf = m.get(0, bb["else"])
            ts, fs = self.branch(st, v)
            return [(tt, s) for s in ts] + [(tf, s) for s in fs]
        if v.op != "lin":
            raise Unsupported("switch on " + show(v))
        cur = st
        targets = [(int(k), t) for k, t in bb["targets"]]
        signed = self.tk(ty) == "int" and self.types[ty]["signed"]
        if signed:
            bits = self.types[ty]["bits"]
            targets = [(k - (1 << bits) if k >= 1 << (bits - 1) else k, t) for k, t in targets]
        if is_const(v):
            for k, t in targets:
                if k == cval(v):
                    return [(t, st)]
            return [(bb["else"], st)]
        # group same-target values when the value is one symbol with a finite domain
        one = single(v)
        if one:
            s, c = one
            bytgt = {}
            for k, t in targets:
                bytgt.setdefault(t, []).append(k)
            for t, ks in bytgt.items():
                if len(ks) == 1:
                    r = self.decide(st, b_eq0(addc(v, -ks[0])))
                    if r is False:
                        continue
                    s2 = st.copy()
                    if self.add_eq(s2, addc(v, -ks[0])):
                        out.append((t, s2))
                    if r is True:
                        return out
                else:
                    s2 = st.copy()
                    if self.restrict(s2, s, [k - c for k in ks]):
                        out.append((t, s2))
            if self.exclude(st, s, [k - c for k, _ in targets]):
                out.append((bb["else"], st))
            return out
        for k, t in targets:
            e = b_eq0(addc(v, -k))
            ts, fs = self.branch(cur, e)
            out += [(t, s) for s in ts]
            if not fs:
                return out
            cur = fs[0]
        out.append((bb["else"], cur))
        return out

    # --- asserts
    def do_assert(self, fr, bb, st):
        m = bb["m"]
        kind = m["a"]
        sp = bb.get("sp")
        c = self.operand(fr, bb["c"])
        exp = bb["exp"]
        if kind == "other":
            return [st]
        if kind == "overflow" and c.op == "ovf":
            v, ty, op = c.a[0], c.a[1], c.a[2]
            lo, hi = tm.RANGE_OF_TY[ty]
            ok = self.entails(st, addc(v, -lo)) and self.entails(st, addc(neg(v), hi))
            slow = False
            if not ok and op in ("Add", "Sub") and self.types[ty]["bits"] >= 32:
                if self.slow(st, v, ty):
                    slow = ok = True
            self.obligation(fr, sp, "overflow", ok, "arithmetic `%s` on %s may overflow: %s" % (op, self.disp(ty), show(v)),
                            acc=not ok and self.grows(st, v, ty))
            if slow:
                self.note("slow accumulator in %s" % fr.inst["path"])
            s = st
            good = self.add_ge(s, addc(v, -lo)) and self.add_ge(s, addc(neg(v), hi))
            return [s] if good else []
        good, bad = self.branch(st, c if exp else b_not(c))
        self.obligation(fr, sp, kind, not bad, "%s check may fail: %s" % (kind, show(c)))
        return good

    def slow(self, st, v, ty):
        """v = accumulator +/- small constant, accumulator moved only by bounded
        constant steps once per consumed input item (stated size assumption)"""
        if tm.RANGE_OF_TY[ty][0] == 0 and not self.entails(st, v):
            return False    # going below zero is no matter of size
        c, items = v.a
        wide = 1 << 20 if self.types[ty]["bits"] < 64 else 1 << 32
        if abs(c) > 1 << 20:
            return False
        for s, k in items:
            if k not in (1, -1):
                return False
            lo, hi = self.rngs(st, s)
            if lo is not None and hi is not None and -wide <= lo and hi <= wide:
                continue
            if s.op in ("mget", "phi", "mgetd") or (s.op == "vf" and any(
                    x.op in ("mget", "mgetd", "phi") for x in tm.walk(s))):
                continue
            if s.op == "len" and self.types[ty]["bits"] == 64 or s.op == "divc" and self.types[ty]["bits"] == 64 and isinstance(
                    s.a[0], tm.T) and all(x.op == "len" for x, _ in s.a[0].a[1]):
                continue
            return False
        # the accumulator must move slowly: total step bound by type width
        tot = abs(c)
        acc = None
        for s, k in items:
            lo, hi = self.rngs(st, s)
            if lo is not None and hi is not None and -wide <= lo and hi <= wide:
                tot += max(abs(lo), abs(hi))
            elif s.op not in ("len", "divc"):
                if acc is not None:
                    return False
                acc = s
        if acc is None:
            return True
        bits = self.types[ty]["bits"]
        return tot * (1 << 29) < (1 << (bits - 1)) if bits < 64 else tot <= (1 << 33)

    # --- calls
    def do_call(self, fr, b, bb, st):
        f = bb["f"]
        args = [self.operand(fr, a) for a in bb["args"]]
        ctx = fr.ctx + ((fr.inst["path"], b, fr.iters),)
        sp = bb.get("sp")
        site = Site(fr, sp, ctx, bb)
        site.skip_ok = fr.hdr == b and (f.get("trait") or "").endswith("iter::Iterator") and all(
            x["s"] != "=" or x["v"]["r"] == "ref" for x in bb["st"])
        to = bb["to"]
        fr.st = st
        if f.get("inst") is None:
            fv = self.operand(fr, f["ptr"]) if "ptr" in f else None
            res = self.call_value(st, fv, args, ctx, site) if fv is not None else None
            if res is None:
                raise Unsupported("indirect call in " + fr.inst["path"])
        else:
            iid = f["inst"]
            if to is None:
                self.diverge(fr, site, iid)
                return []
            res = NotImplemented
            if f.get("trait") in FN_TRAITS and len(args) == 2:
                tup = args[1]
                while tup.op == "ref":
                    tup = tup.a[0]
                if tup.op == "agg" and tup.a[0] == "tuple" and not self.insts[iid]["kind"].startswith("virtual"):
                    try:
                        res = self.call_value(st, args[0], list(tup.a[2]), ctx, site, bb.get("dt"))
                    except Unsupported as e:
                        if not str(e).startswith("call of unknown function value"):
                            raise
            if res is NotImplemented:
                res = self.call(iid, args, st, ctx, site, bb.get("dt"))
        out = []
        if to is None:
            return []
        for s, v in res:
            if v is self.models.SKIP:
                out.append((b, s))
                continue
            fr.st = s
            self.write_place(fr, bb["dest"], v)
            out.append((to, s))
        return out

    def diverge(self, fr, site, iid):
        inst = self.insts[iid]
        self.obligation(fr, site.sp, "panic", False, "reachable call of diverging `%s`" % inst["path"])

    def call(self, iid, args, st, ctx, site, dty):
        inst = self.insts[iid]
        path = inst["path"]
        if inst["local"] and path in self.atomic and inst["kind"] == "item":
            fz = tuple(self.freeze(st, a) for a in args)
            v = self.opaque(mk("call", path, fz), dty)
            for i, a in enumerate(args):
                if a.op == "ptr":
                    self.atomic_write(st, a, path, i, fz)
            self.event("atomic", ctx, st, path=path, args=args, value=v, site=site)
            return [(st, v)]
        if inst["local"]:
            self.event("call", ctx, st, path=path, args=args, site=site)
        if not (inst["local"] and inst.get("body")):
            m = self.models.find(self, inst)
            if m is not None:
                r = m(self, st, inst, args, site, dty)
                if r is not NotImplemented:
                    return r
        if inst["kind"] == "ctor" and not inst.get("body"):
            t = self.types[dty]
            if t["k"] == "adt":
                for vi, v in enumerate(t["variants"]):
                    if v["name"] == path.split("::")[-1]:
                        return [(st, agg(dty, vi, args))]
        if inst.get("body"):
            return self.call_inst(iid, args, st, ctx + ((iid,),))
        return self.models.unknown(self, st, inst, args, site, dty)

    def atomic_write(self, st, p, path, i, fz):
        """an opaque call's effect on what its &mut argument points to"""
        old = self.deref_read(st, p)
        while old is not None and old.op == "ptr":
            p, old = old, self.deref_read(st, old)
        if old is None:
            return
        nm = mk("callm", path, i, fz)
        if old.op == "agg" and old.a[0] == "Cursor":
            self.store_to(st, p, agg("Cursor", None, (old.a[2][0], sym(mk("callm", path, i, fz, ty=self.usize))) + old.a[2][2:]))
            return
        if old.op == "lin":
            self.store_to(st, p, sym(mk("callm", path, i, fz, ty=old.a[1][0][0].ty if old.a[1] else None)))
        else:
            self.store_to(st, p, mk("callm", path, i, fz, ty=old.a[0] if old.op == "agg" and isinstance(old.a[0], int) else old.ty))

    def freeze(self, st, v):
        """snapshot pointers for use inside a term"""
        if v.op == "ptr":
            try:
                x = self.deref_read(st, v)
                return mk("ref", self.freeze(st, x)) if x is not None else v
            except Unsupported:
                return v
        if v.op == "agg":
            return agg(v.a[0], v.a[1], [self.freeze(st, x) for x in v.a[2]])
        if v.op == "ref":
            return ref(self.freeze(st, v.a[0]))
        return v

    def call_value(self, st, f, args, ctx, site, dty=None):
        """call closure / fn item / fn pointer value with untupled args"""
        g = f
        while g.op == "ref":
            g = g.a[0]
        selfarg = None
        if g.op == "ptr":
            inner = self.deref_read(st, g)
            while inner is not None and inner.op in ("ptr", "ref"):
                g = inner if inner.op == "ptr" else g
                inner = self.deref_read(st, inner)
            selfarg, g = g, inner
        if g.op == "fndef":
            fn = self.types[g.a[0]]["fn"]
            if fn.get("inst") is None:
                raise Unsupported("fn item without instance")
            return self.call(fn["inst"], args, st, ctx, site, self.fn_ret(fn["inst"], dty))
        if g.op == "fnptr":
            return self.call(g.a[0], args, st, ctx, site, self.fn_ret(g.a[0], dty))
        if g.op == "agg" and isinstance(g.a[0], int) and self.tk(g.a[0]) == "closure":
            iid = self.types[g.a[0]]["inst"]
            if iid is None or not self.insts[iid].get("body"):
                raise Unsupported("closure without body")
            body = self.insts[iid]["body"]
            t0 = self.types[body["locals"][1][0]]
            if t0["k"] == "ref":
                if t0["mut"]:
                    if selfarg is None:
                        # temporary cell for by-value FnMut closures
                        key = ("clo", ctx)
                        st.store[key] = g
                        res = self.call_inst(iid, [ptr(key)] + list(args), st, ctx + ((iid,),))
                        return res
                    selfv = selfarg
                else:
                    selfv = ref(g)
            else:
                selfv = g
            return self.call_inst(iid, [selfv] + list(args), st, ctx + ((iid,),))
        raise Unsupported("call of unknown function value " + show(g))

    def fn_ret(self, iid, dty):
        b = self.insts[iid].get("body")
        if b:
            return b["locals"][0][0]
        return dty

    # ---------------------------------------------------------- merging
    def fieldless(self, ty):
        t = self.types[ty]
        return t["k"] == "adt" and t["adt"] == "enum" and all(not v["fields"] for v in t["variants"])

    def shape(self, v, d=0):
        if v is None:
            return None
        if v.op == "bool":
            return v.a[0]
        if v.op == "agg":
            if isinstance(v.a[0], int) and self.fieldless(v.a[0]):
                return ("fl", v.a[0])
            return (v.a[0], v.a[1], tuple(self.shape(x, d + 1) for x in v.a[2])) if d < 5 else None
        if v.op == "tab":
            return ("fl", v.ty)
        if v.op == "ref":
            return ("ref", self.shape(v.a[0], d + 1))
        if v.op == "ptr":
            return ("ptr", v.id)
        return None

    def merge_returns(self, out, key, rty, inst):
        if len(out) <= 1:
            return out
        groups = {}
        for s, v in out:
            groups.setdefault(self.shape(v), []).append((s, v))
        res = []
        mk_ = self.merge_k
        nm = self.opts.get("nomerge")
        if nm and nm(inst):
            mk_ = 10 ** 9
        for gi, (sh, g) in enumerate(groups.items()):
            fl = isinstance(sh, tuple) and sh and sh[0] == "fl"
            if len(g) > mk_ or (fl and len(g) > 1):
                if fl and len(g) <= mk_ and self.try_tab([v for _, v in g], [s for s, _ in g]) is None:
                    res += g
                    continue
                s0 = g[0][0]
                exact = fl and all(x.atoms == s0.atoms and x.store == s0.store for x, _ in g) and \
                    self.try_tab([v for _, v in g], [x for x, _ in g]) is not None
                s, (v,) = self.merge_states([(s, (v,)) for s, v in g], key + (gi,), (rty,))
                if exact:
                    s.lossy = any(x.lossy for x, _ in g)   # a table over one value forgets nothing
                res.append((s, v))
            else:
                res += g
        return res

    def try_tab(self, vals, sts):
        """fieldless-enum values determined by one scrutinee symbol"""
        ty = None
        for v in vals:
            if v.op != "agg" or not isinstance(v.a[0], int) or v.a[2] or not self.fieldless(v.a[0]):
                return None
            ty = v.a[0]
        cand = None
        for s in sts[0].fin:
            if all(s in x.fin for x in sts) and len({x.fin[s] for x in sts}) > 1:
                if cand is None or s.id > cand.id:
                    cand = s
        if cand is None:
            return None
        mp = {}
        dflt = None
        outs = None
        for v, x in zip(vals, sts):
            k, fs = x.fin[cand]
            if k == "in":
                for e in fs:
                    if mp.get(e, v.a[1]) != v.a[1]:
                        return None
                    mp[e] = v.a[1]
            else:
                if dflt is not None and dflt != v.a[1]:
                    return None
                dflt = v.a[1]
                outs = fs if outs is None else outs & fs
        if dflt is None:
            cnt = {}
            for e, vv in mp.items():
                cnt[vv] = cnt.get(vv, 0) + 1
            dflt = max(sorted(cnt), key=lambda x: cnt[x])
        else:
            if not outs <= frozenset(mp):
                return None
            # overlapping default
        mp = tuple(sorted((k, v) for k, v in mp.items() if v != dflt))
        return mk("tab", sym(cand), mp, dflt, ty=ty)

    def join_vals(self, vals, sts, ty, path, leaves):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if any(v is None for v in vals):
            return None
        if all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for v in vals if True) and v0.op == "agg":
            fl = [self.join_vals([v.a[2][i] for v in vals], sts, self.ft(v0, ty, i), path + (i,), leaves)
                  for i in range(len(v0.a[2]))]
            return agg(v0.a[0], v0.a[1], fl)
        if v0.op == "ref" and all(v.op == "ref" for v in vals):
            to = self.types[ty].get("to") if isinstance(ty, int) else None
            return ref(self.join_vals([v.a[0] for v in vals], sts, to, path + ("*",), leaves))
        if v0.op == "arr" and all(v.op == "arr" and len(v.a[0]) == len(v0.a[0]) for v in vals) and len(v0.a[0]) <= 16:
            el = self.types[ty].get("el") if isinstance(ty, int) else None
            return mkarr([self.join_vals([v.a[0][i] for v in vals], sts, el, path + (i,), leaves)
                          for i in range(len(v0.a[0]))])
        t = self.try_tab(vals, sts)
        if t is not None:
            return t
        if v0.op == "lin" and all(v.op == "lin" for v in vals):
            # affine in earlier leaves?
            for (p, lv) in leaves:
                d = sub(v0, lv[0])
                if all(sub(v, x) is d for v, x in zip(vals, lv)):
                    return add(p, d)
            for i, (p, lv) in enumerate(leaves):
                for j, (q, lw) in enumerate(leaves):
                    if j >= i:
                        d = sub(sub(v0, lv[0]), lw[0])
                        if all(sub(sub(v, x), y) is d for v, x, y in zip(vals, lv, lw)):
                            return add(add(p, q), d)
                    if j != i:
                        d = add(sub(v0, lv[0]), lw[0])
                        if all(add(sub(v, x), y) is d for v, x, y in zip(vals, lv, lw)):
                            return add(sub(p, q), d)
            ph = sym(mk("phi", (self.cur_key, path), ty=ty))
            leaves.append((ph, vals))
            self.phiinfo[ph.a[1][0][0]] = ("merge", vals)
            return ph
        if ty is None and v0.op == "agg" and isinstance(v0.a[0], int):
            ty = v0.a[0]
        if ty is None:
            for v in vals:
                ty = ty or v.ty
        p = mk("phi", (self.cur_key, path), ty=ty)
        if v0.op == "bool" or (isinstance(ty, int) and self.tk(ty) == "bool"):
            self.phiinfo[p] = ("merge", vals)
            return p
        p = self.opaque(p, ty) if not (isinstance(ty, int) and self.tk(ty) == "ref") else self.opaque(p, ty)
        base = p
        while base.op == "ref":
            base = base.a[0]
        self.phiinfo[base] = ("merge", vals)
        if base.op == "phi" and base.ty is not None and self.tk(base.ty) == "adt" and self.short(base.ty) in self.models.MAPS:
            self.maphist.setdefault(base, []).extend(zip(vals, sts))
        return p

    BUILTIN_FT = {}

    def ft(self, v, ty, i):
        tag = v.a[0]
        if isinstance(tag, int):
            return self.field_ty(tag, v.a[1], i)
        if tag == "tuple" and isinstance(ty, int):
            return self.field_ty(ty, None, i)
        if tag in ("SeqIter",):
            return self.usize if i in (1, 2) else None
        if tag in ("Cursor", "Enumerate", "Take", "Skip"):
            return self.usize if i == 1 else None
        return None

    def merge_states(self, items, key, tys):
        """join several (state, vals) into one"""
        self.cur_key = key
        sts = [s for s, _ in items]
        leaves = []
        n = State()
        n.lossy = True
        keys = set(sts[0].store)
        for s in sts[1:]:
            keys &= set(s.store)
        vals = [self.join_vals([it[1][j] for it in items], sts, tys[j], ("ret", j), leaves)
                for j in range(len(items[0][1]))]
        for k in sorted(keys, key=str):
            lty = self.lty_of(k)
            n.store[k] = self.join_vals([s.store[k] for s in sts], sts, lty, ("st", k), leaves)
        # atoms, fin
        for a, v in sts[0].atoms.items():
            if all(s.atoms.get(a) == v for s in sts[1:]):
                n.atoms[a] = v
        for x, f in sts[0].fin.items():
            fs = [s.fin.get(x) for s in sts]
            if any(g is None for g in fs):
                continue
            if all(g[0] == "in" for g in fs):
                n.fin[x] = ("in", frozenset().union(*[g[1] for g in fs]))
            elif all(g[0] == "out" for g in fs):
                r = fs[0][1]
                for g in fs[1:]:
                    r = r & g[1]
                n.fin[x] = ("out", r)
            else:
                r = None
                for g in fs:
                    if g[0] == "out":
                        r = g[1] if r is None else r & g[1]
                for g in fs:
                    if g[0] == "in":
                        r = r - g[1]
                if r:
                    n.fin[x] = ("out", r)
        n.nb = tuple(e for e in sts[0].nb if all(e in s.nb for s in sts[1:]))
        # facts common to all states
        cand = {}
        for s in sts:
            for it, c in s.facts.items():
                o = cand.get(it)
                if o is None or c > o:
                    cand[it] = c
        cnt = 0
        for it, c in cand.items():
            l = mk("lin", c, it)
            miss = [s for s in sts if not (it in s.facts and s.facts[it] <= c)]
            if miss:
                cnt += 1
                if cnt > 150:
                    continue
            if all(self.entails(s, l) for s in miss):
                n.facts[it] = c
        # facts about the join symbols
        self.leaf_facts(n, leaves, sts)
        return n, tuple(vals)

    def leaf_facts(self, n, leaves, sts):
        tried = set()
        if len(leaves) <= 10:
            for p, lv in leaves:
                for q, lw in leaves:
                    if p is q or p.op != "lin" or q.op != "lin":
                        continue
                    if all(self.entails(x, sub(a, b)) for x, a, b in zip(sts, lv, lw)):
                        l = tm.norm_ge(sub(p, q))
                        if not is_const(l) and l.a[1] not in n.facts:
                            n.facts[l.a[1]] = l.a[0]
        for p, lv in leaves:
            los, his = [], []
            for v, s in zip(lv, sts):
                lo, hi = self.bounds(s, v)
                los.append(lo)
                his.append(hi)
            if all(x is not None for x in los):
                self.add_ge(n, addc(p, -min(los)))
            if all(x is not None for x in his) and max(his) < 1 << 62:
                self.add_ge(n, addc(neg(p), max(his)))
            if all(is_const(v) for v in lv) and single(p):
                n.fin[single(p)[0]] = ("in", frozenset(cval(v) for v in lv))
            budget = 60
            for si, s in enumerate(sts):
                v = lv[si]
                for it, c in list(s.facts.items()):
                    if budget <= 0:
                        break
                    f = mk("lin", c, it)
                    vs = {x for x, _ in v.a[1]}
                    if vs and not any(x in vs for x, _ in it):
                        continue
                    for sg in (1, -1):
                        t = add(f, v, -sg)
                        if len(t.a[1]) >= len(it) + (1 if vs else 0) and vs:
                            continue
                        if not vs and not is_const(v):
                            continue
                        if not vs:
                            continue
                        ckey = (p, sg, t)
                        if ckey in tried or is_const(t):
                            continue
                        tried.add(ckey)
                        budget -= 1
                        if all(self.entails(s2, add(t, lv[j], sg)) for j, s2 in enumerate(sts)):
                            l = tm.norm_ge(add(t, p, sg))
                            o = n.facts.get(l.a[1])
                            if o is None or l.a[0] < o:
                                n.facts[l.a[1]] = l.a[0]

    def lty_of(self, k):
        fr = Frame.by_fid.get(k[0]) if isinstance(k, tuple) else None
        if fr is not None and isinstance(k[1], int):
            return fr[k[1]]
        return None

    # ---------------------------------------------------------- loops
    def mir_loop(self, fr, header, blocks, states):
        """-> exits [(block, st)], rets [st]"""
        for s in states:
            self.prune(fr, header, s)
        if len(states) > 1:
            # group by shape and merge
            states = self.merge_by_shape(states, (fr.fid, "lpin", header, fr.iters)) if len(states) > self.opts.get("loop_entries", 3) else states
        exits, rets = [], []
        for i, st in enumerate(states):
            key = (fr.fid, "L", header, fr.iters, i)

            def step(s, tag=None):
                old = fr.iters
                if tag is not None:
                    fr.iters = fr.iters + ((header, tag, i),)
                else:
                    fr.iters = fr.iters + ((header, i),)
                try:
                    ex, rt, bk = self.run_region(fr, blocks, header, [s], header=header)
                finally:
                    fr.iters = old
                for x in bk:
                    self.prune(fr, header, x)
                return bk, [(("b", t), x) for t, x in ex] + [(("r",), x) for x in rt]
            res = self.run_loop(st, step, key, (fr.inst["path"], fr.cfg.blocks[header].get("sp"), fr.ctx, fr))
            for tag, s in res:
                if tag[0] == "b":
                    exits.append((tag[1], s))
                else:
                    rets.append(s)
        return exits, rets

    UNROLL = 400

    def const_iter(self, st, before):
        """is some iterator in st over a constant-length source and advanced wrt before?"""
        for k, v in st.store.items():
            w = before.store.get(k)
            if w is None or w is v:
                continue
            if self._const_iter_v(v, w):
                return True
        return False

    def _const_iter_v(self, v, w):
        if v.op != "agg" or w.op != "agg" or v.a[0] != w.a[0] or len(v.a[2]) != len(w.a[2]):
            return False
        if v.a[0] == "SeqIter":
            a, b = v.a[2], w.a[2]
            return (all(is_const(x) for x in (a[1], a[2], b[1], b[2])) and
                    (cval(a[1]) > cval(b[1]) or cval(a[2]) < cval(b[2])) and cval(b[2]) - cval(b[1]) <= self.UNROLL)
        if isinstance(v.a[0], int) and self.short(v.a[0]) == "Range":
            a, b = v.a[2], w.a[2]
            return all(x.op == "lin" and is_const(x) for x in (a[0], a[1], b[0], b[1])) and \
                cval(a[0]) > cval(b[0]) and cval(b[1]) - cval(b[0]) <= self.UNROLL
        return any(self._const_iter_v(x, y) for x, y in zip(v.a[2], w.a[2]) if x is not None and y is not None)

    def diff(self, v1, v2, ty, path, out):
        if v1 is v2:
            return
        if v1 is None or v2 is None:
            out.append((path, ty, v1, v2))
            return
        if v1.op == "agg" and v2.op == "agg" and v1.a[0] == v2.a[0] and v1.a[1] == v2.a[1] and len(v1.a[2]) == len(v2.a[2]):
            for i in range(len(v1.a[2])):
                self.diff(v1.a[2][i], v2.a[2][i], self.ft(v1, ty, i), path + (i,), out)
            return
        if v1.op == "ref" and v2.op == "ref":
            self.diff(v1.a[0], v2.a[0], self.types[ty].get("to") if isinstance(ty, int) else None, path + ("*",), out)
            return
        if v1.op == "arr" and v2.op == "arr" and len(v1.a[0]) == len(v2.a[0]) and 0 < len(v1.a[0]) <= 4 \
                and isinstance(ty, int) and self.tk(ty) == "array":
            for i in range(len(v1.a[0])):
                self.diff(v1.a[0][i], v2.a[0][i], self.types[ty].get("el"), path + (i,), out)
            return
        out.append((path, ty, v1, v2))

    def get_at(self, v, path):
        for p in path:
            if v is None:
                return None
            if p == "*":
                if v.op != "ref":
                    return None
                v = v.a[0]
            elif v.op == "agg":
                v = v.a[2][p] if p < len(v.a[2]) else None
            elif v.op == "arr":
                v = v.a[0][p] if p < len(v.a[0]) else None
            else:
                return None
        return v

    def put_at(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p == "*":
            return ref(self.put_at(v.a[0], path[1:], new))
        if v.op == "agg":
            fl = list(v.a[2])
            fl[p] = self.put_at(fl[p], path[1:], new)
            return agg(v.a[0], v.a[1], fl)
        l = list(v.a[0])
        l[p] = self.put_at(l[p], path[1:], new)
        return mkarr(l)

    def leaf_phi(self, key, k, path, ty, v0, v1):
        if ty is None:
            if v0 is not None and v0.ty is not None:
                ty = v0.ty
            elif v1 is not None and v1.ty is not None:
                ty = v1.ty
            elif v0 is not None and v0.op == "agg" and isinstance(v0.a[0], int):
                ty = v0.a[0]
            elif v1 is not None and v1.op == "agg" and isinstance(v1.a[0], int):
                ty = v1.a[0]
        p = mk("phi", (key, k, path), ty=ty)
        if (v0 is not None and v0.op == "lin") or (v1 is not None and v1.op == "lin"):
            return sym(p)
        if isinstance(ty, int):
            r = self.opaque(p, ty)
            return r
        return p

    def run_loop(self, init, step, key, info):
        """generic fixpoint. step(state, tag) -> (backs, exits)."""
        rec = self.recording
        if self.opts.get("uniq"):
            h = (frozenset(init.atoms.items()), frozenset(init.fin.items()), frozenset(init.facts.items()))
            key = (key, self.state_ids.setdefault(h, len(self.state_ids)))
        inner = step

        def step(s, tag=None):
            self.loopstack.append(key)
            try:
                return inner(s, tag)
            finally:
                self.loopstack.pop()
        # ---- unrolling for constant sources
        peel = self.opts.get("peel")
        again = rec and not self.opts.get("once")
        self.recording = rec and not again
        if peel:
            self.peel_rounds(info)
            self.nesting += 1
        try:
            backs, exits = step(init.copy(), ("p", 0, 0) if peel else None)
        finally:
            self.recording = rec
            if peel:
                self.nesting -= 1
        if not backs:
            if again:
                backs, exits = step(init.copy())
            return exits
        if all(self.const_iter(b, init) for b in backs):
            out = []
            cur = [init]
            n = 0
            while cur and n <= self.UNROLL + 1:
                nxt = []
                for j, s in enumerate(cur):
                    b, e = step(s.copy(), (n, j))
                    nxt += b
                    out += e
                if len(nxt) > 1 and self.opts.get("nojoin"):
                    nxt = self.merge_compl(nxt)
                if len(nxt) > 6:
                    nxt = self.dedupe(nxt)
                if len(nxt) > self.opts.get("unroll_max", 12):
                    nxt = self.merge_by_shape(nxt, key + ("u", n))
                cur = nxt
                n += 1
            if not cur:
                return out
            raise Unsupported("unrolling did not finish")
        if self.opts.get("peel"):
            return self.peel(init, step, info, None if again else (backs, exits))
        # ---- find varying leaves
        leaves = {}      # (k, path) -> [ty, phi, init value]
        drop = set()

        def header():
            h = init.copy()
            for k in drop:
                h.store.pop(k, None)
            for (k, path) in sorted(leaves, key=lambda x: (str(x[0]), len(x[1]), str(x[1]))):
                if k in drop:
                    continue
                h.store[k] = self.put_at(h.store[k], path, leaves[(k, path)][1])
            return h

        H = header()
        rounds = 0
        self.recording = False
        try:
            while True:
                rounds += 1
                if rounds > 25:
                    raise Unsupported("loop leaves do not stabilise")
                ch = False
                for b in backs:
                    for k in list(H.store):
                        v2 = b.store.get(k)
                        if v2 is None:
                            if k not in drop and not (isinstance(k, tuple) and k and k[0] == "optr"):
                                drop.add(k)
                                ch = True
                            continue
                        out = []
                        self.diff(H.store[k], v2, self.lty_of(k), (), out)
                        for path, ty, a, c in out:
                            # a leaf below an already chosen leaf is impossible: phi differs as a whole
                            lk = (k, path)
                            if lk in leaves:
                                continue
                            anc = [p for (kk, p) in leaves if kk == k and len(p) > len(path) and p[:len(path)] == path]
                            for p in anc:
                                del leaves[(k, p)]
                            if any(kk == k and len(p) < len(path) and path[:len(p)] == p for (kk, p) in leaves):
                                continue
                            v0 = self.get_at(init.store.get(k), path)
                            leaves[lk] = [ty, self.leaf_phi(key, k, path, ty, v0, c), v0]
                            ch = True
                if not ch:
                    break
                H = header()
                backs, exits = step(H.copy())
            # ---- candidate invariants
            keyset = set()
            for lk, (ty, ph, v0) in leaves.items():
                for x in tm.walk(ph):
                    if x.op == "phi":
                        keyset.add(x)
            cands = self.candidates(init, leaves, backs, keyset)
            it = 0
            while True:
                it += 1
                H = header()
                for c in cands:
                    self.put_fact(H, c[0])
                backs, exits = step(H.copy())
                keep = []
                for c in cands:
                    ok = all(self.entails(b, self.image(c[0], b, leaves), self.CAND_LIMIT) for b in backs)
                    if ok:
                        keep.append(c)
                new = []
                if it <= 2:
                    have = {c[0] for c in cands}
                    new = [c for c in self.candidates(init, leaves, backs, keyset) if c[0] not in have and c[0] not in self._dropped]
                if len(keep) == len(cands) and not new:
                    break
                for c in cands:
                    if c not in keep:
                        self._dropped.add(c[0])
                cands = keep + new
                if it > 30:
                    cands = []
        finally:
            self.recording = rec
        if rec:
            H = header()
            for c in cands:
                self.put_fact(H, c[0])
            backs, exits = step(H.copy())
        # ---- record definitions & termination
        for lk, (ty, ph, v0) in leaves.items():
            k, path = lk
            base = ph
            if base.op == "lin":
                base = base.a[1][0][0]
            while base.op == "ref":
                base = base.a[0]
            if base.op == "phi" and base.ty is not None and self.tk(base.ty) == "adt" and self.short(base.ty) in self.models.MAPS:
                self.maphist.setdefault(base, []).extend([(v0, init)] + [(self.get_at(b.store.get(k), path), b) for b in backs])
            self.phiinfo[base] = ("loop", v0, [(self.get_at(b.store.get(k), path), b) for b in backs], key, info)
        if rec:
            self.enclosing[key] = tuple(self.loopstack)
            self.loopdef[key] = ([(lk, ty, ph, v0) for lk, (ty, ph, v0) in leaves.items()], backs, info)
            self.check_rank(H, backs, leaves, cands, key, info)
        return exits

    def peel_rounds(self, info):
        """rounds of this loop: a number, or one per nesting level, there again one per loop in the order in which they are met"""
        rounds = self.opts["peel"]
        if isinstance(rounds, list):
            rounds = rounds[min(self.nesting, len(rounds) - 1)]
        if isinstance(rounds, tuple):
            c = info[2]
            while c.parent is not None and c.parent.parent is not None:
                c = c.parent
            order = self.peel_order.setdefault((c.n, self.nesting), {})
            rounds = rounds[min(order.setdefault((info[0], str(info[1])), len(order)), len(rounds) - 1)]
        return rounds

    def peel(self, init, step, info, first):
        """the first rounds of a loop only, without any abstraction of the loop; what lies beyond is left out"""
        out, cur = [], [init]
        rounds = self.peel_rounds(info)
        for n in range(rounds + 1):
            nxt = []
            for j, s in enumerate(cur):
                if n == 0 and first:
                    b, e = first
                else:
                    self.nesting += 1
                    try:
                        b, e = step(s.copy(), ("p", n, j))
                    finally:
                        self.nesting -= 1
                nxt += b
                out += e
            cur = self.dedupe(nxt) if len(nxt) > 6 else nxt
            if not cur:
                break
        return out

    _dropped = set()
    CAND_LIMIT = 24

    def merge_compl(self, sts):
        """join pairs of states with the same store and guards  base+(not P)  and
        base+(P, not Q)  into  base+not(P and Q)  (nothing is forgotten)"""
        sts = list(sts)
        i = 0
        while i < len(sts):
            j = i + 1
            while j < len(sts):
                n = self.compl_pair(sts[i], sts[j])
                if n is None:
                    n = self.compl_pair(sts[j], sts[i])
                if n is not None:
                    sts[i] = n
                    del sts[j]
                    j = i + 1
                    continue
                j += 1
            i += 1
        return sts

    def compl_pair(self, s1, s2):
        if s1.store != s2.store or s1.fin != s2.fin:
            return None
        d1 = {a: v for a, v in s1.atoms.items() if s2.atoms.get(a) != v}
        d2 = {a: v for a, v in s2.atoms.items() if s1.atoms.get(a) != v}
        if len(d1) != 1:
            return None
        (p, pv), = d1.items()
        if d2.pop(p, None) != (not pv) or len(d2) > 2:
            return None
        for it, c in s1.facts.items():
            if not (it in s2.facts and s2.facts[it] <= c) and not self.entails(s2, mk("lin", c, it)):
                return None
        n = s1.copy()
        n.lossy = s1.lossy or s2.lossy or any(not (it in s1.facts and s1.facts[it] <= c) for it, c in s2.facts.items())
        if n.lossy and self.opts.get("peel"):
            n.lossy = s1.lossy or s2.lossy or not self.follows(s1, s2, p, d2)
            if n.lossy:
                return None
        n.nb = tuple(e for e in s1.nb if e in s2.nb)
        del n.atoms[p]
        if len(d2) == 1:
            (q, qv), = d2.items()
            n.atoms[mk("nall", (p, q), (not pv, not qv))] = True
        elif len(d2) == 2:
            return None
        return n

    def follows(self, s1, s2, p, more):
        """the bounds of s2 beyond those of s1 only restate p and what else s2 assumes"""
        s = s1.copy()
        del s.atoms[p]
        sts = self.assume(s, p, s2.atoms[p])
        for q, v in more.items():
            sts = [y for x in sts for y in self.assume(x, q, v)]
        if len(sts) != 1:
            return len(sts) == 0
        s = sts[0]
        extra = [mk("lin", c, it) for it, c in s2.facts.items() if not (it in s.facts and s.facts[it] <= c)]
        for x in {y for e in extra for y, _ in e.a[1] if y.op in ("found", "rfound")}:
            h, n = x.a
            if n.op == "pred" or s.atoms.get(mk("has", h, n)) is not True:
                return False
            # the position of what is there
            self.put_fact(s, sub(sub(seqlen(h), sym(x)), seqlen(n)))
        return all(self.entails(s, e) for e in extra)

    def dedupe(self, sts):
        out = []
        for s in sts:
            for o in out:
                if o.store == s.store and o.facts == s.facts and o.atoms == s.atoms and o.fin == s.fin:
                    break
            else:
                out.append(s)
        return out

    def lin_leaves(self, leaves):
        """(phi lin, init lin, getter) for integer leaves and lengths of sequence leaves"""
        out = []
        for (k, path), (ty, ph, v0) in leaves.items():
            if ph.op == "lin":
                if v0 is not None and v0.op == "lin":
                    out.append((ph, v0, (k, path, None)))
            elif isinstance(ty, int) and self.is_seq_ty(ty) or (v0 is not None and v0.op in ("arr", "bytes", "str", "cat")):
                if v0 is not None:
                    out.append((seqlen(ph), seqlen(v0), (k, path, "len")))
        return out

    def image(self, c, b, leaves):
        """substitute phis by their values in back state b"""
        m = {}
        for ph, i, (k, path, what) in self.lin_leaves(leaves):
            v = self.get_at(b.store.get(k), path)
            if v is None:
                continue
            if what == "len":
                v = seqlen(v)
            if v.op == "lin":
                m[ph.a[1][0][0]] = v
        r = const(c.a[0])
        for s, kf in c.a[1]:
            r = add(r, m[s] if s in m else sym(s), kf)
        return r

    def candidates(self, init, leaves, backs, keyset):
        ll = self.lin_leaves(leaves)
        phis = {ph.a[1][0][0] for ph, _, _ in ll}
        out = {}

        def mentions(t):
            for s, _ in t.a[1]:
                if s in phis:
                    return True
                for x in tm.walk(s):
                    if x in keyset:
                        return True
            return False

        def put(l):
            l = tm.norm_ge(l)
            if is_const(l) or l in out:
                return
            # holds initially?
            m = const(l.a[0])
            for s, kf in l.a[1]:
                iv = None
                for ph, i, _ in ll:
                    if ph.a[1][0][0] is s:
                        iv = i
                m = add(m, iv if iv is not None else sym(s), kf)
            if self.entails(init, m, self.CAND_LIMIT):
                out[l] = (l,)
        vals = []
        for ph, i, (k, path, what) in ll:
            bs = []
            for b in backs:
                v = self.get_at(b.store.get(k), path)
                if v is not None and what == "len":
                    v = seqlen(v)
                bs.append(v if v is not None and v.op == "lin" else None)
            vals.append((ph, i, bs))
            put(sub(ph, i))
            put(sub(i, ph))
        for a in range(len(vals)):
            for b in range(len(vals)):
                if a == b:
                    continue
                P, I, B = vals[a]
                Q, J, C = vals[b]
                d = sub(sub(P, Q), sub(I, J))
                put(d)
                put(sub(P, Q))
                # sums of bounded terms over a counted number of rounds
                if B and C and all(x is not None for x in B + C):
                    dq = [sub(x, Q) for x in C]
                    if all(is_const(x) and cval(x) == 1 for x in dq) and not all(is_const(sub(x, P)) for x in B):
                        hi = 0
                        for x, bk in zip(B, backs):
                            h = self.bounds(bk, sub(x, P))[1]
                            hi = None if h is None or hi is None or h > 1 << 40 else max(hi, h)
                        if hi is not None:
                            put(sub(scale(sub(Q, J), hi), sub(P, I)))
                # rates
                if a < b and B and C and all(x is not None for x in B + C):
                    dp = [sub(x, P) for x in B]
                    dq = [sub(x, Q) for x in C]
                    if all(is_const(x) for x in dp + dq) and len({cval(x) for x in dp}) == 1 and len({cval(x) for x in dq}) == 1:
                        p, q = cval(dp[0]), cval(dq[0])
                        if (p, q) != (0, 0):
                            e = sub(scale(sub(P, I), q), scale(sub(Q, J), p))
                            put(e)
                            put(neg(e))
        for P, I, B in vals:
            n = 0
            for v, b in zip(B, backs):
                if v is None:
                    continue
                vs = {x for x, _ in v.a[1]}
                for it, c in b.facts.items():
                    if not any(x in vs for x, _ in it):
                        continue
                    f = mk("lin", c, it)
                    for sg in (1, -1):
                        for kf in (1,):
                            t = add(f, v, -sg * kf)
                            if mentions(t):
                                continue
                            put(add(t, P, sg * kf))
                            n += 1
                    if n > 200:
                        break
            ivs = {x for x, _ in I.a[1]}
            if ivs:
                for it, c in init.facts.items():
                    if any(x in ivs for x, _ in it):
                        f = mk("lin", c, it)
                        for sg in (1, -1):
                            put(add(add(f, I, -sg), P, sg))
            # common upper bounds
            for s in list(self.len_syms(init)):
                put(sub(sym(s), P))
        return list(out.values())

    def len_syms(self, st):
        out = set()
        for it in st.facts:
            for s, _ in it:
                if s.op == "len" and s.a[0].op != "phi":
                    out.add(s)
        for v in self.opts.get("len_of", ()):
            l = seqlen(v)
            if not is_const(l):
                out.add(l.a[1][0][0])
        return sorted(out, key=lambda x: x.id)

    def check_rank(self, H, backs, leaves, cands, key, info):
        ok = not backs
        why = "no back edge"
        for ph, i, (k, path, what) in self.lin_leaves(leaves):
            if ok:
                break
            ups = downs = True
            for b in backs:
                v = self.get_at(b.store.get(k), path)
                if v is not None and what == "len":
                    v = seqlen(v)
                if v is None or v.op != "lin":
                    ups = downs = False
                    break
                d = sub(v, ph)
                if ups and not self.entails(b, addc(d, -1)):
                    ups = False
                if downs and not self.entails(b, addc(neg(d), -1)):
                    downs = False
                if not ups and not downs:
                    break
            s = ph.a[1][0][0]
            if ups:
                # upper bound by loop-invariant quantity
                for c in [c[0] for c in cands] + [mk("lin", cc, it) for it, cc in init_facts(H)]:
                    kf = dict(c.a[1]).get(s, 0)
                    if kf < 0 and not any(x is not s and self.varies(x, leaves) for x, _ in c.a[1]):
                        ok, why = True, "%s increases and is bounded by %s" % (show(ph), show(c))
                        break
            if not ok and downs:
                lo, _ = self.bounds(H, ph)
                if lo is not None:
                    ok, why = True, "%s decreases and is bounded below" % show(ph)
        if not ok:
            w = self.no_progress(backs, leaves)
            if w:
                why = "can repeat without progress: " + w
        self.loops.append((info[0], ok, why, key, info))

    def no_progress(self, backs, leaves):
        """a back edge over which every loop variable the guards depend on may stay the same"""
        base = {}
        for (k, path), (ty, p, v0) in leaves.items():
            for x in tm.walk(p):
                if x.op == "phi":
                    base[(k, path)] = x
        used = set()
        for b in backs:
            for t in list(b.atoms) + list(b.fin):
                used |= {x for x in tm.walk(t) if x.op == "phi"}
            for it in b.facts:
                for t, _ in it:
                    used |= {x for x in tm.walk(t) if x.op == "phi"}
        for b in backs:
            if b.lossy or any(x.op in ("havoc", "app", "foreign") for t in list(b.atoms) + list(b.fin) for x in tm.walk(t)):
                continue
            s = b.copy()
            good = True
            moved = []
            for (k, path), (ty, p, v0) in leaves.items():
                v = self.get_at(b.store.get(k), path)
                if v is p:
                    continue
                if v is None:
                    good = False
                    break
                if v.op == "lin" and p.op == "lin":
                    if self.entails(s, addc(sub(v, p), -1)) or self.entails(s, addc(sub(p, v), -1)) or not self.add_eq(s, sub(v, p)):
                        good = False
                        break
                    moved.append("%s stays when %s = %s" % (show(p), show(v)[:80], show(p)))
                elif base.get((k, path)) in used:
                    good = False
                    break
            if good:
                return "; ".join(moved)[:300] or "no loop variable changes"
        return None

    def varies(self, s, leaves):
        ph = set()
        for (k, path), (ty, p, v0) in leaves.items():
            for x in tm.walk(p):
                if x.op == "phi":
                    ph.add(x)
        return any(x in ph for x in tm.walk(s))


def init_facts(H):
    return list(H.facts.items())


class Ctx:
    """interned call context (identity-hashed)"""
    __slots__ = ("parent", "item", "depth", "n")
    pool = {}

    def __add__(self, items):
        c = self
        for it in items:
            k = (c.n, it)
            d = Ctx.pool.get(k)
            if d is None:
                d = Ctx()
                d.parent, d.item, d.depth, d.n = c, it, c.depth + 1, len(Ctx.pool) + 1
                Ctx.pool[k] = d
            c = d
        return c

    def __len__(self):
        return self.depth

    def __repr__(self):
        return "C%d" % self.n

    def chain(self):
        out = []
        c = self
        while c.parent is not None:
            out.append(c.item)
            c = c.parent
        return out[::-1]


ROOT = Ctx()
ROOT.parent, ROOT.item, ROOT.depth, ROOT.n = None, None, 0, 0


class Site:
    __slots__ = ("fr", "sp", "ctx", "bb", "skip_ok")

    def __init__(self, fr, sp, ctx, bb):
        self.fr, self.sp, self.ctx, self.bb = fr, sp, ctx, bb
        self.skip_ok = False   # the caller can retry this call (a `for` header)


class Frame:
    by_fid = {}
    ids = {}

    def __init__(self, E, iid, inst, ctx, st):
        self.inst, self.ctx, self.st, self.iid = inst, ctx, st, iid
        self.fid = Frame.ids.setdefault((iid, ctx), len(Frame.ids) + 1)
        self.lty = [l[0] for l in inst["body"]["locals"]]
        self.hdr = None
        Frame.by_fid[self.fid] = self.lty
        self.cfg = E.cfg(iid)
        self.iters = ()
        self.cur_dty = None


class CFG:
    def __init__(self, E, body):
        B = body["blocks"]
        self.blocks = B
        n = len(B)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(B):
            if b["cleanup"]:
                continue
            t = b["t"]
            if t in ("goto", "drop", "assert"):
                succ[i] = [b["to"]]
            elif t == "switch":
                s = [x for _, x in b["targets"]]
                if b["else"] is not None:
                    s.append(b["else"])
                succ[i] = list(dict.fromkeys(s))
            elif t == "call":
                succ[i] = [b["to"]] if b["to"] is not None else []
        self.succ = succ
        seen, order = set(), []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, itr = stack[-1]
            for y in itr:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in succ[b]:
                if dom(s, b):
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(pred[x])
        # RPO such that loop bodies are contiguous: blocks of a loop before its exits
        self.rpo = self.order(pos)
        # liveness
        mutb = set()
        uses = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]

        def use_place(i, p):
            if p[0] not in defs[i]:
                uses[i].add(p[0])
            for e in p[1]:
                if e != "*" and "i" in e and e["i"] not in defs[i]:
                    uses[i].add(e["i"])

        def use_op(i, o):
            p = o.get("cp") or o.get("mv")
            if p:
                use_place(i, p)
        for i in self.rpo:
            b = B[i]
            for s in b["st"]:
                if s["s"] == "=":
                    r = s["v"]
                    k = r["r"]
                    if k in ("ref", "rawptr", "reborrow"):
                        use_place(i, r["p"])
                        if r.get("mut") or k == "rawptr":
                            if not (r["p"][1] and r["p"][1][0] == "*"):
                                mutb.add(r["p"][0])
                    elif k == "discr":
                        use_place(i, r["p"])
                    elif k == "agg":
                        for o in r["ops"]:
                            use_op(i, o)
                    elif k == "bin":
                        use_op(i, r["a"])
                        use_op(i, r["b"])
                    else:
                        for kk in ("o", "a"):
                            if kk in r and isinstance(r[kk], dict):
                                use_op(i, r[kk])
                    if s["p"][1]:
                        use_place(i, s["p"])
                    else:
                        defs[i].add(s["p"][0])
            t = b["t"]
            if t == "switch":
                use_op(i, b["o"])
            elif t == "assert":
                use_op(i, b["c"])
            elif t == "call":
                if "ptr" in b["f"]:
                    use_op(i, b["f"]["ptr"])
                for a in b["args"]:
                    use_op(i, a)
                if b["dest"][1]:
                    use_place(i, b["dest"])
                else:
                    defs[i].add(b["dest"][0])
            elif t == "ret":
                if 0 not in defs[i]:
                    uses[i].add(0)
        livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in succ[b]:
                    o |= livein[s]
                n2 = uses[b] | (o - defs[b])
                if n2 != livein[b]:
                    livein[b] = n2
                    ch = True
        for b in livein:
            livein[b] = livein[b] | mutb
        self.livein = livein
        self.pred = pred

    def order(self, pos):
        """topological order ignoring back edges, loops contiguous"""
        seen = set()
        out = []

        def visit(b, inside):
            stack = [(b, None)]
            # iterative DFS post-order; successors leaving the innermost loop first
            order = []
            st = [(b, iter(self.key_succ(b, pos)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.key_succ(y, pos))))
                        break
                else:
                    order.append(x)
                    st.pop()
            return order
        po = visit(0, None)
        return po[::-1]

    def key_succ(self, b, pos):
        """successors sorted so that loop-leaving edges are explored first (=> later in RPO)"""
        ls = [L for h, L in self.loops.items() if b in L]

        def k(s):
            return -sum(1 for L in ls if s not in L)
        return sorted(self.succ[b], key=k)


def models_is_seq(v):
    import models
    return models.is_seq(v)

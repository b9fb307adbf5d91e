"""Agreement of a function's abstract summary with its reference summary.

Both functions are analysed by the same abstract interpreter (path-partitioned,
loops summarised by fixpoints).  The summaries are sets of guarded results plus,
per loop, the initial value and the guarded update of every loop variable.  The
two summaries agree when every jointly feasible pair of guarded results is equal,
where loop variables are related by initial value and by their updates
(a simulation relation between the two abstract transition systems).

Nothing is executed, no path is handed to a solver.  A difference is reported
only when both sides are exact, modelled terms; otherwise the pair is counted as
undecided.
"""
import fractions
import itertools
import math
import struct
import terms as tm
from terms import T, mk, const, sub, add, addc, neg, scale, sym, single, is_const, cval, show
import engine as en
from engine import Engine, State, agg, cbytes, seqlen, EMPTY, mkcat

ROOT = en.ROOT


class Side:
    def __init__(self, name, res, groups):
        self.name, self.res, self.groups = name, res, groups
        self.phig = {}          # phi term -> (group key, leaf index)
        for g, (leaves, backs, info) in groups.items():
            for i, (lk, ty, ph, v0) in enumerate(leaves):
                b = base_phi(ph)
                if b is not None:
                    self.phig[b] = (g, i)


def base_phi(ph):
    for x in tm.walk(ph):
        if x.op == "phi":
            return x
    return None


def phis_in(t, cache={}):
    r = cache.get(t)
    if r is None:
        r = frozenset(x for x in tm.walk(t) if x.op == "phi")
        cache[t] = r
    return r


def state_phis(s):
    out = set()
    for a in s.atoms:
        out |= phis_in(a)
    for a in s.fin:
        out |= phis_in(a)
    for it in s.facts:
        for x, _ in it:
            out |= phis_in(x)
    return out


def root_args(E, iid):
    body = E.insts[iid]["body"]
    return [E.opaque(mk("in", "arg%d" % i), body["locals"][i + 1][0]) for i in range(body["argc"])]


FOPS = {"i2f": None, "f2f": None, "Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: x / y,
        "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}
FCMPS = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y,
         "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}
PLAIN = {"phi", "elem", "len", "in", "deref", "vf", "mget", "hval", "oval", "mlen", "found", "rfound", "call", "arg", "ns"}


def free_syms(t, out):
    """the symbols a number is built of; ValueError for arithmetic that is not evaluated"""
    if t.op == "lin":
        for x, _ in t.a[1]:
            free_syms(x, out)
    elif t.op == "nl" and t.a[0] in ("Div", "Rem", "Mul"):
        free_syms(t.a[1], out)
        free_syms(t.a[2], out)
    elif t.op == "divc":
        free_syms(t.a[0], out)
    elif t.op == "trunc":
        free_syms(t.a[0], out)
    elif t.op in ("f2i", "nsf"):
        out.add("float")
        free_syms(t.a[0], out)
    elif t.op == "fop" and t.a[0] in FOPS:
        for x in t.a[1]:
            free_syms(x, out)
    elif t.op == "flt":
        pass
    elif t.op in PLAIN:
        out.add(t)
    else:
        raise ValueError


def value_of(t, env):
    if t.op == "lin":
        return t.a[0] + sum(k * value_of(x, env) for x, k in t.a[1])
    if t.op == "divc":
        return value_of(t.a[0], env) // t.a[1]
    if t.op == "trunc":
        lo, hi = tm.RANGE_OF_TY[t.ty]
        return (value_of(t.a[0], env) - lo) % (hi - lo + 1) + lo
    if t.op == "flt":
        return struct.unpack("<f" if t.a[1] == 32 else "<d", int(t.a[0]).to_bytes(t.a[1] // 8, "little"))[0]
    if t.op == "fop":
        xs = [value_of(x, env) for x in t.a[1]]
        r = float(xs[0] if FOPS[t.a[0]] is None else FOPS[t.a[0]](*xs))
        if env["f32"](t.ty):
            r = struct.unpack("f", struct.pack("f", r))[0]
        return r
    if t.op == "f2i":
        lo, hi = tm.RANGE_OF_TY[t.ty]
        return max(lo, min(hi, math.trunc(value_of(t.a[0], env))))
    if t.op == "nsf":
        return round(fractions.Fraction(value_of(t.a[0], env)) * 10 ** 9)
    if t.op == "nl":
        x, y = value_of(t.a[1], env), value_of(t.a[2], env)
        if t.a[0] == "Mul":
            return x * y
        q = abs(x) // abs(y)
        q = -q if (x < 0) != (y < 0) else q
        return q if t.a[0] == "Div" else x - q * y
    return env[t]


class Diff:
    def __init__(self, kind, why, a=None, b=None):
        self.kind, self.why, self.a, self.b = kind, why, a, b   # kind: diff | unk

    def __repr__(self):
        s = "%s: %s" % (self.kind, self.why)
        if self.a is not None:
            s += "  code=" + show(self.a)[:240]
        if self.b is not None:
            s += "  reference=" + show(self.b)[:240]
        return s


EQ = None
OPAQUE = {"havoc", "merge"}


class Twin:
    def __init__(self, F, impl, spec, atomic=(), opts=None, args=None):
        self.F = F
        o = {"nojoin": True, "uniq": True, "join_max": 300, "loop_entries": 8}
        o.update(opts or {})
        self.E = E = Engine(F, atomic=atomic, merge_k=10 ** 9, opts=o)
        self.impl_path, self.spec_path = F["insts"][impl]["path"], F["insts"][spec]["path"]
        a0 = root_args(E, impl) if args is None else args(E, impl)
        self.A = self.run(impl, a0, "code")
        na = len(E.oblig)
        self.B = self.run(spec, a0, "ref")
        self.stats = {"pairs": 0, "feasible": 0, "equal": 0, "loops": 0, "loop_pairs": 0, "transitions": 0,
                      "cases_code": len(self.A.res), "cases_ref": len(self.B.res)}
        self.found = []
        self.diffs = []
        self.appsA, self.appsB = self.apps(self.A), self.apps(self.B)
        self.freshes = {}
        self.gcache = {}
        self.busy = set()

    def apps(self, side):
        out = set()

        def add_t(t):
            if isinstance(t, T):
                for x in tm.walk(t):
                    if x.op in ("app", "foreign"):
                        out.add(x.a[0])

        def add_s(s):
            for t in list(s.atoms) + list(s.fin) + [x for it in s.facts for x, _ in it]:
                add_t(t)
        for s, v in side.res:
            add_s(s)
            add_t(v)
        for leaves, backs, _ in side.groups.values():
            for b in backs:
                add_s(b)
                for l in leaves:
                    add_t(self.leafval(l, b))
        return out

    def run(self, iid, args, tag):
        E = self.E
        before = set(E.loopdef)
        res = E.call_inst(iid, list(args), State(), ROOT + ((tag, E.insts[iid]["path"]),))
        groups = {k: v for k, v in E.loopdef.items() if k not in before}
        return Side(tag, res, groups)

    # ------------------------------------------------------------ states
    def prune_state(self, s):
        return s

    def quick_contra(self, si, ss, m, memo):
        """cheap contradiction test on atoms and finite domains"""
        for a, v in ss.atoms.items():
            a2 = tm.subst(a, m, memo) if m else a
            w = si.atoms.get(a2)
            if w is not None and w != v:
                return True
        for x, f in ss.fin.items():
            x2 = tm.subst(x, m, memo) if m else x
            if x2.op == "lin":
                continue
            g = si.fin.get(x2)
            if g is None:
                continue
            if f[0] == "in" and g[0] == "in" and not (f[1] & g[1]):
                return True
            if f[0] == "in" and g[0] == "out" and f[1] <= g[1]:
                return True
            if f[0] == "out" and g[0] == "in" and g[1] <= f[1]:
                return True
        return False

    def conj(self, si, ss, m):
        """states where the guard of both hold"""
        E = self.E
        memo = {}
        if self.quick_contra(si, ss, m, memo):
            return []
        J = si.copy()
        sts = [J]
        sts = self.transfer(sts, ss, m, memo)
        # contradictions between atoms decided by the richer state
        out = []
        for s in sts:
            if not self.contradicts(s) and not self.collides(s, si, ss):
                out.append(s)
        return out

    def transfer(self, sts, ss, m, memo):
        """the states sts, with the conditions of ss (renamed by m) added"""
        E = self.E
        for x, f in ss.fin.items():
            x2 = tm.subst(x, m, memo)
            nxt = []
            for s in sts:
                if x2.op == "lin":
                    one = single(x2)
                    if one is None:
                        if f[0] == "in" and len(f[1]) == 1:
                            ok = E.add_eq(s, addc(x2, -min(f[1])))
                        else:
                            ok = True
                    elif f[0] == "in":
                        ok = E.restrict(s, one[0], frozenset(v - one[1] for v in f[1]))
                    else:
                        ok = E.exclude(s, one[0], [v - one[1] for v in f[1]])
                elif f[0] == "in":
                    ok = E.restrict(s, x2, f[1])
                else:
                    ok = E.exclude(s, x2, f[1])
                if ok:
                    nxt.append(s)
            sts = nxt
            if not sts:
                return []
        for it, c in ss.facts.items():
            l = tm.subst(mk("lin", c, it), m, memo)
            sts = [s for s in sts if E.add_ge(s, l)]
            if not sts:
                return []
        for a, v in ss.atoms.items():
            a2 = tm.subst(a, m, memo)
            nxt = []
            for s in sts:
                if not isinstance(a2, T):
                    nxt.append(s)
                    continue
                nxt += E.assume(s, a2, v)
            sts = nxt[:8]
            if not sts:
                return []
        return sts

    def congruence(self, J, vals):
        """The state and the values, with slices and elements at positions known to be the same written
        the same way; None when that makes the conditions contradict each other."""
        E = self.E
        for _ in range(4):
            groups = {}
            seen = set()
            for t in parts(None, J) + [v for v in vals if isinstance(v, T)]:
                for x in tm.walk(t):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op not in ("lin", "in", "phi", "havoc", "merge", "ge0", "eq0", "bool"):
                        nums = []
                        k = shape_key(x.a, nums)
                        if nums:
                            groups.setdefault((x.op, k), []).append((x, nums))
            m = {}
            for (op, k), xs in groups.items():
                have = []
                for x, ix in sorted(xs, key=lambda g: (not all(is_const(y) for y in g[1]), g[0].id))[:24]:
                    if op == "sl" and len(ix) == 2 and is_const(ix[0]) and tm.cval(ix[0]) == 0 and not is_const(seqlen(x.a[0])) \
                            and E.decide(J, tm.b_eq0(sub(seqlen(x.a[0]), ix[1]))) is True:
                        m[x] = x.a[0]
                        continue
                    for h, hx in have:
                        if all(E.decide(J, tm.b_eq0(sub(p, q))) is True for p, q in zip(ix, hx)):
                            m[x] = h
                            break
                    else:
                        have.append((x, ix))
            if not m:
                break
            blank = J.copy()
            blank.facts, blank.atoms, blank.fin = {}, {}, {}
            sts = self.transfer([blank], J, m, {})
            sts = [t for t in sts if not self.contradicts(t)]
            if not sts:
                return None
            J = sts[0]
            vals = [tm.subst(v, m, {}) if isinstance(v, T) else v for v in vals]
        return J, vals

    def contradicts(self, s):
        for a, v in list(s.atoms.items()):
            del s.atoms[a]
            r = self.E.decide(s, a)
            s.atoms[a] = v
            if r is not None and r != v:
                return True
        return False

    def collides(self, s, si, ss):
        """with the numbers that are known here written into them, two conditions contradict each other"""
        E = self.E
        m = {}
        for x, f in s.fin.items():
            if f[0] == "in" and len(f[1]) == 1 and x.op == "elem":
                if f == si.fin.get(x):
                    continue          # known on that side already
                m[x] = tm.const(min(f[1]))
        if not m:
            return False
        memo = {}
        new = {a: tm.subst(a, m, memo) for a in s.atoms}
        sts = [s.copy()]
        for a, b in new.items():
            if b is not a and isinstance(b, T):
                for t in sts:
                    t.atoms.pop(a, None)
                sts = [x for t in sts for x in E.assume(t, b, s.atoms[a])][:8]
                if not sts:
                    return True
        if all(self.contradicts(t) for t in sts):
            return True
        for x, f in s.fin.items():
            b = tm.subst(x, m, memo)
            if b is x or not isinstance(b, T):
                continue
            d = frozenset([tm.cval(b)]) if is_const(b) else E.dom(s, b) if b.op != "lin" else None
            if d is not None and (f[0] == "in" and not (d & f[1]) or f[0] == "out" and d <= f[1]):
                return True
        return False

    def possible(self, J, a, b, budget=400):
        """Is there a way for the keys of the maps read here to be equal or different, under which
        the conditions hold together and the two values still differ? Not shown within the budget: no."""
        E, M = self.E, self.E.models
        left = [budget]

        def reads(st, xs):
            out, seen = [], set()
            for t in xs:
                for x in tm.walk(t):
                    if x.op in ("mget", "mgetd", "mhas") and x not in seen:
                        seen.add(x)
                        ks, y = [], x.a[0]
                        while y.op == "mupd":
                            ks.append(y.a[1])
                            y = y.a[0]
                        if ks and y.op == "mapnew":
                            out.append((x, ks))
            return out

        def rec(st, xs):
            left[0] -= 1
            if left[0] < 0:
                return False
            rs = reads(st, parts(None, st) + xs)
            for x, ks in rs:
                for k in ks:
                    e = M.value_eq(E, st, k, x.a[1])
                    if E.decide(st, e) is not None:
                        continue
                    for v in (True, False):
                        for s in E.assume(st.copy(), e, v):
                            if not self.contradicts(s) and rec(s, xs):
                                return True
                    return False
            # every key is decided: what is read is one of the values written
            m = {}
            for x, ks in sorted(rs, key=lambda r: sum(1 for _ in tm.walk(r[0]))):
                h = M.map_has(E, st, x.a[0], x.a[1])
                v = h
                if x.op != "mhas":
                    v = M.map_value(E, st, x.a[0], x.a[1], x.ty) if h is M.TRUE else x.a[2] if x.op == "mgetd" else None
                if v is None:
                    return False            # the entry is not there
                m[x] = tm.subst(v, m, {})
            if m:
                memo = {}
                sts = [st.copy()]
                for s in sts:
                    s.facts = {}
                    s.atoms = {}
                for it, c in st.facts.items():
                    l = tm.subst(mk("lin", c, it), m, memo)
                    sts = [s for s in sts if E.add_ge(s, l)]
                for t, v in st.atoms.items():
                    t = tm.subst(t, m, memo)
                    sts = [y for s in sts for y in E.assume(s, t, v)][:8]
                sts = [s for s in sts if not self.contradicts(s) and all(self.within(s, x, f, m, memo) for x, f in st.fin.items())]
                if not sts:
                    return False
                st = sts[0]
                xs = [tm.subst(t, m, memo) for t in xs]
            if len(xs) == 2:
                u = self.unify(st, xs[0], xs[1])
                return u is not EQ and u.kind == "diff"
            return True
        if not reads(J, parts(None, J) + [a, b]):
            return True
        return rec(J, [t for t in (a, b) if isinstance(t, T)])

    def within(self, s, x, f, m, memo):
        y = tm.subst(x, m, memo)
        if y is x or not isinstance(y, T):
            return True
        if is_const(y):
            return (tm.cval(y) in f[1]) == (f[0] == "in")
        return True

    # ------------------------------------------------------------ values
    def unify(self, st, a, b, depth=0):
        """None when equal, else Diff; b is already expressed over the code's loop variables"""
        E = self.E
        if a is b:
            return EQ
        if a is None or b is None:
            return Diff("unk", "value missing on one side", a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return Diff("diff", "arity")
                return self.unify_all(st, a, b, depth)
            if a == b:
                return EQ
            return Diff("diff", "%r vs %r" % (a, b))
        if depth > 60:
            return Diff("unk", "too deep")
        if a.op == "lin" or b.op == "lin":
            if a.op != "lin" or b.op != "lin":
                return Diff("unk", "kinds differ", a, b)
            d = sub(a, b)
            r = E.decide(st, tm.b_eq0(d))
            if r is True:
                return EQ
            if r is None:
                a2, b2 = self.norm(st, a), self.norm(st, b)
                if (a2, b2) != (a, b):
                    return self.unify(st, a2, b2, depth + 1)
                # same linear shape over pairwise unifiable symbols
                if len(a.a[1]) == len(b.a[1]) and a.a[0] == b.a[0]:
                    ra = [x for x in a.a[1] if x not in b.a[1]]
                    rb = [x for x in b.a[1] if x not in a.a[1]]
                    if len(ra) == len(rb) and len(ra) == 1 and ra[0][1] == rb[0][1]:
                        u = self.unify(st, ra[0][0], rb[0][0], depth + 1)
                        if u is EQ:
                            return EQ
                        if u.kind == "unk":
                            return u
            if self.murky(a) or self.murky(b):
                return Diff("unk", "values not exact", a, b)
            if self.arith(a) | self.arith(b) and not self.witness(st, a, b) and (
                    self.arith(a) != self.arith(b) or "nl" in self.arith(a) | self.arith(b)):
                return Diff("unk", "different arithmetic", a, b)
            return Diff("diff", "numbers differ", a, b)
        if a.op == "bool" or b.op == "bool" or a.op in ("not", "ge0", "eq0", "and2") or b.op in ("not", "ge0", "eq0", "and2"):
            da, db = E.decide(st, a) if a.op != "phi" else None, E.decide(st, b) if b.op != "phi" else None
            if da is not None and db is not None:
                return EQ if da == db else Diff("diff", "truth values differ", a, b)
            if self.murky(a) or self.murky(b):
                return Diff("unk", "truth values not exact", a, b)
            # one side open: the open side can take the other value
            oa = self.can(st, a, b)
            if oa is None:
                return Diff("unk", "truth values", a, b)
            return EQ if not oa else Diff("diff", "truth values differ", a, b)
        while a.op == "ref" and b.op == "ref":
            a, b = a.a[0], b.a[0]
            if a is b:
                return EQ
        if a.op in ("ptr", "ref") and b.op in ("ptr", "ref"):
            try:
                x, y = E.deref_read(st, a), E.deref_read(st, b)
            except Exception:
                return Diff("unk", "pointer", a, b)
            if x is not None and y is not None:
                return self.unify(st, x, y, depth + 1)
        if a.op == "agg" and b.op == "agg":
            if a.a[0] != b.a[0] and not self.same_adt(a.a[0], b.a[0]):
                if isinstance(a.a[0], int) and isinstance(b.a[0], int):
                    return Diff("unk", "types differ", a, b)
                return Diff("unk", "shapes differ", a, b)
            if a.a[1] != b.a[1]:
                return Diff("diff", "variants differ", a, b)
            if len(a.a[2]) != len(b.a[2]):
                return Diff("unk", "fields differ", a, b)
            fb = b.a[2]
            if a.a[0] != b.a[0]:
                fb = self.by_name(a, b)
                if fb is None:
                    return Diff("unk", "fields differ", a, b)
            return self.unify_all(st, a.a[2], fb, depth)
        if a.op == "tab" or b.op == "tab":
            va, vb = self.variants(st, a), self.variants(st, b)
            if va is not None and vb is not None:
                if len(va) == 1 and va == vb:
                    return EQ
                if not (va & vb):
                    return Diff("diff", "variants differ", a, b)
                if a.op == "tab" and b.op == "tab":
                    return self.tab_tab(st, a, b)
                if len(va) == 1 or len(vb) == 1:
                    return Diff("diff", "variants can differ", a, b)
            return Diff("unk", "table", a, b)
        if "mupd" in (a.op, b.op) and any(x.op == "mupd" and x.a[0].op == "mupd" for x in (a, b)) and {a.op, b.op} <= {"mupd", "mapnew", "phi"}:
            return self.unify_map(st, a, b, depth, [24])
        ca, cb = cbytes(a), cbytes(b)
        if ca is not None and cb is not None:
            return EQ if ca == cb else Diff("diff", "constants differ", a, b)
        if (a.op == "arr") != (b.op == "arr") and not {a.op, b.op} & {"cat", "phi", "lin", "agg"}:
            # elements written out against a whole sequence
            x = a if a.op == "arr" else b
            if 0 < len(x.a[0]) <= 16 and E.decide(st, tm.b_eq0(sub(seqlen(a), seqlen(b)))) is True:
                ty = [z.a[0] if z.op == "agg" and isinstance(z.a[0], int) else single(z)[0].ty if z.op == "lin" and single(z) else z.ty for z in x.a[0]]
                ty = next((t for t in ty if isinstance(t, int)), None)
                if ty is not None:
                    xs = [y.a[0] if y is x else [E.elem(st, y, tm.const(i), ty) for i in range(len(x.a[0]))] for y in (a, b)]
                    return self.unify_all(st, xs[0], xs[1], depth)
        if (ca == b"" or cb == b"") and (en.models_is_seq(a) or ca == b"") and (en.models_is_seq(b) or cb == b""):
            r = E.decide(st, tm.b_eq0(sub(seqlen(a), seqlen(b))))
            if r is True:
                return EQ
            if self.murky(a) or self.murky(b):
                return Diff("unk", "sequences not exact", a, b)
            return Diff("diff", "one side is empty", a, b)
        # enum value against an opaque of known variant
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and isinstance(x.a[0], int) and y.op != "agg" and E.types[x.a[0]]["k"] == "adt":
                t = E.types[x.a[0]]
                if t["adt"] == "enum":
                    d = E.discr(st, y, x.a[0])
                    dm = E.dom(st, single(d)[0]) if single(d) else None
                    want = E.discr_of(x.a[0], x.a[1])
                    if dm is not None and want + (0 if not single(d) else -single(d)[1]) not in dm:
                        return Diff("diff", "variants differ", a, b)
                    fs = t["variants"][x.a[1]]["fields"]
                    decided = dm is not None and len(dm) == 1
                    for i, f in enumerate(x.a[2]):
                        fy = E.field(st, y, x.a[1], i, fs[i].get("ty"))
                        u = self.unify(st, f, fy, depth + 1) if x is a else self.unify(st, fy, f, depth + 1)
                        if u is not EQ:
                            return u
                    if decided:
                        return EQ
                    if self.murky(y):
                        return Diff("unk", "variant not exact", a, b)
                    return Diff("diff", "variant can differ", a, b)
                if t["adt"] == "struct":
                    fs = t["variants"][0]["fields"]
                    for i, f in enumerate(x.a[2]):
                        fy = E.field(st, y, 0, i, fs[i].get("ty"))
                        u = self.unify(st, f, fy, depth + 1) if x is a else self.unify(st, fy, f, depth + 1)
                        if u is not EQ:
                            return u
                    return EQ
        ta, tb = st.atoms.get(a), st.atoms.get(b)
        if ta is not None or tb is not None:
            if ta is None:
                ta = E.decide(st, a)
            if tb is None:
                tb = E.decide(st, b)
            if ta is not None and tb is not None:
                return EQ if ta == tb else Diff("diff", "truth values differ", a, b)
        if b in E.models.eq_class(st, a):
            return EQ
        if a.op == "sl" and b.op == "sl" or a.op == b.op and len(a.a) == len(b.a) and a.op not in ("phi", "cat", "in"):
            if a.op in ("call", "app", "callm") and a.a[0] != b.a[0]:
                return Diff("unk" if "app" in (a.op, b.op) else "diff", "different computations", a, b)
            return self.unify_all(st, a.a, b.a, depth)
        if a.op == "cat" or b.op == "cat":
            return self.unify_cat(st, a, b, depth)
        a2, b2 = self.norm(st, a), self.norm(st, b)
        if (a2, b2) != (a, b):
            return self.unify(st, a2, b2, depth + 1)
        if self.murky(a) or self.murky(b):
            return Diff("unk", "not comparable", a, b)
        if a.op == "phi" or b.op == "phi":
            if any(x.op in ("app", "foreign") for y in (a, b) for x in tm.walk(y)):
                return Diff("unk", "not comparable", a, b)
            if any(x.op in REORDER for x in (a, b)):
                # the loop may keep its collection ordered or without repetitions itself
                return Diff("unk", "loop result against a rearranged one", a, b)
            return Diff("diff", "loop result used differently", a, b)
        if a.op == "dur" or b.op == "dur":
            x, y = (self.E.models.dur_ns(self.E, v) if v.op != "app" else None for v in (a, b))
            if x is not None and y is not None:
                return self.unify(st, x, y, depth + 1)
        for x, y in ((a, b), (b, a)):
            # whole units against floating seconds
            if x.op == "dur" and y.op == "app" and y.a[0] in ("Duration::from_secs_f32", "Duration::from_secs_f64") and self.witness(
                    st, x.a[0], sym(mk("nsf", y.a[1][0]))):
                return Diff("diff", "durations differ", a, b)
        if a.op == "in" and b.op == "in":
            return Diff("diff", "different arguments", a, b)
        if a.op in ("app", "foreign") or b.op in ("app", "foreign"):
            return Diff("unk", "unmodelled computation", a, b)
        return Diff("diff", "different computations", a, b)

    def can(self, st, a, b):
        """can the truth values a, b differ in st?"""
        E = self.E
        for v in (True, False):
            for s in E.assume(st.copy(), a, v):
                for s2 in E.assume(s, b, not v):
                    return True
        return False

    def unify_all(self, st, xs, ys, depth):
        unk = None
        for x, y in zip(xs, ys):
            u = self.unify(st, x, y, depth + 1)
            if u is not EQ:
                if u.kind == "diff":
                    return u
                unk = unk or u
        return unk

    def unify_cat(self, st, a, b, depth):
        pa = list(a.a[0]) if a.op == "cat" else [a]
        pb = list(b.a[0]) if b.op == "cat" else [b]
        unk = None
        while pa and pb:
            x, y = pa[0], pb[0]
            if x.op == "str" and y.op == "str" and x is not y:
                sx, sy = x.a[0], y.a[0]
                if sx.startswith(sy) or sy.startswith(sx):
                    n = min(len(sx), len(sy))
                    pa[0:1] = [mk("str", sx[n:])] if len(sx) > n else []
                    pb[0:1] = [mk("str", sy[n:])] if len(sy) > n else []
                    continue
                return Diff("diff", "texts differ", x, y)
            if x.op == "arr" and y.op == "arr" and x is not y:
                n = min(len(x.a[0]), len(y.a[0]))
                if n:
                    u = self.unify_all(st, x.a[0][:n], y.a[0][:n], depth)
                    if u is not EQ:
                        if u.kind == "diff":
                            return u
                        unk = u
                    pa[0:1] = [en.mkarr(x.a[0][n:])] if len(x.a[0]) > n else []
                    pb[0:1] = [en.mkarr(y.a[0][n:])] if len(y.a[0]) > n else []
                    continue
            u = self.unify(st, x, y, depth + 1)
            if u is not EQ:
                # a part that is empty here
                for l in (pa, pb):
                    if l[0].op not in ("phi",) and self.E.decide(st, tm.b_eq0(seqlen(l[0]))) is True:
                        del l[0]
                        break
                else:
                    if u.kind == "diff" and (len(pa) != len(pb)):
                        # re-associated concatenations are not decided
                        return Diff("diff" if self.plain(pa) and self.plain(pb) else "unk", "concatenations differ", a, b)
                    return u
                continue
            pa.pop(0)
            pb.pop(0)
        rest = pa or pb
        for x in rest:
            if self.E.decide(st, tm.b_eq0(seqlen(x))) is not True:
                if self.murky(x):
                    return Diff("unk", "concatenations differ", a, b)
                return Diff("diff", "extra elements", a, b)
        return unk

    def plain(self, parts):
        return all(p.op in ("phi", "arr", "str", "bytes", "sl", "call", "in", "vf", "disp") for p in parts)

    def murky(self, t):
        """contains something that is not an exact term of the inputs"""
        for x in tm.walk(t):
            if x.op == "havoc":
                return True
            if x.op == "phi" and x not in self.mapped:
                return True
        return False

    def witness(self, st, a, b):
        """small values of the symbols for which the two numbers differ (both terms are exact)"""
        syms = set()
        try:
            for t in (a, b):
                free_syms(t, syms)
        except ValueError:
            return False
        fl = "float" in syms
        syms.discard("float")
        # conditions on the same numbers: a remainder, a quotient or a truncation in one is computed too
        exprs = set()
        facts = list(st.facts.items())
        more = True
        while more:
            more = False
            for it in [it for it, _ in facts] + [((x, 1),) for x in st.fin]:
                for x, _ in it:
                    if x in exprs or x.op not in ("nl", "divc", "trunc") or not any(y in syms for y in tm.walk(x)):
                        continue
                    try:
                        fx = set()
                        free_syms(x, fx)
                    except ValueError:
                        return False
                    fl = fl or "float" in fx
                    fx.discard("float")
                    exprs.add(x)
                    if not fx <= syms:
                        syms |= fx
                        more = True
        comps = []
        for at, v in st.atoms.items():
            if at.op == "fcmp" and any(y in syms for y in tm.walk(at)):
                fx = set()
                try:
                    free_syms(at.a[1], fx)
                    free_syms(at.a[2], fx)
                except ValueError:
                    return False
                fx.discard("float")
                if not fx <= syms or at.a[0] not in FCMPS:
                    return False
                comps.append((at, v))
        syms = sorted(syms, key=lambda x: x.id)
        if not 0 < len(syms) <= 6:
            return False
        grid = (0, 1, 2, 3, 5, 7, 8, 11, 255) if len(syms) <= 3 else (0, 1, 2, 5, 255) if len(syms) <= 4 else (0, 1, 3, 255)
        if fl:
            grid = (0, 1, 2, 3, 257, 300, 1 << 20, (1 << 24) + 1, 19_660_499, 50_000_001, 610_123) if len(syms) <= 2 else grid
        f32 = {"f32": lambda ty: ty is not None and self.E.disp(ty) == "f32"}
        rel = []
        for it, c in facts:
            if all(x in syms or x in exprs for x, _ in it):
                rel.append(mk("lin", c, it))
        for vals in itertools.product(grid, repeat=len(syms)):
            env = dict(zip(syms, vals))
            env.update(f32)
            try:
                if any(value_of(f, env) < 0 for f in rel):
                    continue
                if any(FCMPS[c.a[0]](value_of(c.a[1], env), value_of(c.a[2], env)) != v for c, v in comps):
                    continue
                if value_of(a, env) != value_of(b, env):
                    j = st.copy()
                    if all(self.E.add_eq(j, addc(sym(x), -env[x])) for x in syms) and \
                            all(self.E.add_eq(j, addc(sym(x), -value_of(x, env))) for x in exprs):
                        return True
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
        return False

    def arith(self, t):
        """kinds of non-linear arithmetic in a number"""
        return frozenset(x.op for x in tm.walk(t) if x.op in ("fop", "nl", "f2i", "i2f", "bit", "fround", "divc"))

    def variants(self, st, v):
        E = self.E
        if v.op == "agg" and isinstance(v.a[0], int):
            return frozenset([v.a[1]])
        if v.op == "tab":
            return frozenset(E.tab_image(st, v))
        return None

    def tab_tab(self, st, a, b):
        sa, sb = a.a[0], b.a[0]
        if sa is not sb:
            return Diff("unk", "tables over different values", a, b)
        one = single(sa)
        keys = {k for k, _ in a.a[1]} | {k for k, _ in b.a[1]}
        da, db = dict(a.a[1]), dict(b.a[1])
        dm = self.E.dom(st, one[0]) if one else None
        f = st.fin.get(one[0]) if one else None
        for k in sorted(keys):
            if one:
                x = k - one[1]
                if dm is not None and x not in dm:
                    continue
                if f and f[0] == "out" and x in f[1]:
                    continue
            if da.get(k, a.a[2]) != db.get(k, b.a[2]):
                return Diff("diff", "table entry %d: %s vs %s" % (k, self.vname(a.ty, da.get(k, a.a[2])), self.vname(b.ty, db.get(k, b.a[2]))), a, b)
        if a.a[2] != b.a[2]:
            if dm is not None and not any(x + one[1] not in keys for x in dm):
                return EQ
            return Diff("diff", "table default: %s vs %s" % (self.vname(a.ty, a.a[2]), self.vname(b.ty, b.a[2])), a, b)
        return EQ

    def vname(self, ty, v):
        try:
            return self.E.types[ty]["variants"][v]["name"]
        except Exception:
            return str(v)

    def same_adt(self, x, y):
        if not isinstance(x, int) or not isinstance(y, int):
            return False
        a, b = self.E.types[x], self.E.types[y]
        return a["k"] == b["k"] == "adt" and a["path"].split("::")[-1] == b["path"].split("::")[-1]

    def by_name(self, a, b):
        fa = [f["name"] for f in self.E.types[a.a[0]]["variants"][a.a[1] or 0]["fields"]]
        fb = [f["name"] for f in self.E.types[b.a[0]]["variants"][b.a[1] or 0]["fields"]]
        if sorted(fa) != sorted(fb):
            return None
        return [b.a[2][fb.index(n)] for n in fa]

    def norm(self, st, t):
        return self.E.models.resolved(self.E, st, t)

    def unify_map(self, st, a, b, depth, budget):
        """two sequences of writes into a map, by cases of which keys are the same"""
        E = self.E
        a, b = self.norm(st, a), self.norm(st, b)
        if a is b:
            return EQ
        sides = []
        for x in (a, b):
            ws = []
            while x.op == "mupd":
                ws.append((x.a[1], x.a[2]))
                x = x.a[0]
            sides.append((ws, x))
        keys = []
        for ws, _ in sides:
            for k, _ in ws:
                if k not in keys:
                    keys.append(k)
        for i in range(len(keys)):
            for j in range(i):
                e = E.models.value_eq(E, st, keys[i], keys[j])
                if E.decide(st, e) is not None:
                    continue
                if budget[0] <= 0:
                    return Diff("unk", "which keys are the same", a, b)
                unk = None
                for v in (False, True):
                    for s in E.assume(st.copy(), e, v):
                        if self.contradicts(s):
                            continue
                        budget[0] -= 1
                        u = self.unify_map(s, a, b, depth, budget)
                        if u is not EQ:
                            if u.kind == "diff":
                                return u
                            unk = u
                return unk
        ms = []
        for ws, x in sides:
            m = {}
            for k, v in ws:
                r = next(q for q in keys if q is k or E.decide(st, E.models.value_eq(E, st, q, k)))
                m.setdefault(r, v)
            ms.append(m)
        u = self.unify(st, sides[0][1], sides[1][1], depth + 1)
        if u is not EQ:
            return u
        unk = None
        for k in ms[0].keys() | ms[1].keys():
            if k not in ms[0] or k not in ms[1]:
                x = sides[0][1]
                if x.op != "mapnew":
                    unk = unk or Diff("unk", "an entry that may be there already", a, b)
                    continue
                return Diff("diff", "an entry on one side only", a, b)
            u = self.unify(st, ms[0][k], ms[1][k], depth + 1)
            if u is not EQ:
                if u.kind == "diff":
                    return u
                unk = unk or u
        return unk

    # ------------------------------------------------------------ loops
    def groups_of(self, side, s, vals, known):
        ph = state_phis(s)
        for v in vals:
            if v is not None:
                ph |= phis_in(v)
        out = []
        seen = set()
        work = list(ph)
        while work:
            p = work.pop()
            g = side.phig.get(p)
            if g and g[0] not in seen:
                seen.add(g[0])
                for (lk, ty, lp, v0) in side.groups[g[0]][0]:
                    if v0 is not None:
                        work += list(phis_in(v0))
        order = list(side.groups)
        return [g for g in sorted(seen, key=order.index) if g not in known]

    def leaf_kind(self, leaf):
        (lk, ty, ph, v0) = leaf
        if ph.op == "lin":
            return "int"
        if isinstance(ty, int):
            return self.E.disp(ty)
        return "?"

    def match_leaves(self, gi, gs, m):
        """alternative assignments spec leaf -> (code leaf, relation)"""
        E = self.E
        li, ls = self.A.groups[gi][0], self.B.groups[gs][0]
        st = State()
        opts = []
        for j, leaf in enumerate(ls):
            (_, ty, ph, v0) = leaf
            w0 = tm.subst(v0, m, {}) if v0 is not None else None
            cand = []
            for i, l2 in enumerate(li):
                if ph.op == "lin" and l2[2].op == "lin":
                    if w0 is None or l2[3] is None:
                        if w0 is None and l2[3] is None:
                            cand.append((2, i, 1, tm.ZERO))
                        continue
                    if w0.op != "lin" or l2[3].op != "lin":
                        continue
                    if w0 is l2[3]:
                        cand.append((0, i, 1, tm.ZERO))
                    else:
                        d = sub(w0, l2[3])
                        if not self.unm(d):
                            cand.append((3, i, 1, d))
                    d = add(w0, l2[3])
                    if not self.unm(d):
                        cand.append((4, i, -1, d))
                    continue
                if ph.op == "lin" or l2[2].op == "lin":
                    continue
                if self.leaf_kind(leaf) != self.leaf_kind(l2) and "?" not in (self.leaf_kind(leaf), self.leaf_kind(l2)):
                    if not (isinstance(ty, int) and isinstance(l2[1], int) and self.tyname(ty) == self.tyname(l2[1])):
                        continue
                if (w0 is None) != (l2[3] is None):
                    continue
                if w0 is None or self.unify(st, l2[3], w0) is EQ:
                    cand.append((0, i, 1, tm.ZERO))
                else:
                    cand.append((5, i, 1, tm.ZERO))
            cand.sort(key=lambda c: c[0])
            opts.append(cand)
        return opts

    def tyname(self, ty):
        import re
        return re.sub(r"[\w:]*::", "", self.E.disp(ty))

    def unm(self, t):
        return any(p in self.B.phig for p in phis_in(t))

    def assignments(self, gi, gs, m, limit=24):
        opts = self.match_leaves(gi, gs, m)
        n = 0
        idx = sorted(range(len(opts)), key=lambda j: len(opts[j]))

        def rec(k, used, acc, cost):
            if k == len(idx):
                yield cost, dict(acc)
                return
            j = idx[k]
            any_ = False
            for c in opts[j]:
                if c[1] in used:
                    continue
                any_ = True
                acc[j] = c
                yield from rec(k + 1, used | {c[1]}, acc, cost + c[0])
                acc.pop(j, None)
            if not any_ or True:
                yield from rec(k + 1, used, acc, cost + 9)
        out = []
        for r in rec(0, frozenset(), {}, 0):
            out.append(r)
            n += 1
            if n > 3000:
                break
        out.sort(key=lambda r: r[0])
        # only assignments as complete as the best
        if not out:
            return []
        best = out[0][0]
        return [r for r in out if r[0] <= best + 8][:limit]

    def extend(self, m, gi, gs, asg):
        m2 = dict(m)
        li, ls = self.A.groups[gi][0], self.B.groups[gs][0]
        for j, (_, i, k, d) in asg.items():
            pa, pb = base_phi(li[i][2]), base_phi(ls[j][2])
            if pa is None or pb is None:
                continue
            if li[i][2].op == "lin" and ls[j][2].op == "lin":
                r = add(scale(li[i][2], k), d)
                one = single(r)
                m2[pb] = r if not (one and one[1] == 0) else one[0]
            else:
                m2[pb] = pa
            self.mapped.add(pa)
        return m2

    def align(self, si, vi, ss, vs, m, known):
        """match the loops these two states depend on; yields (m', pairs)"""
        gi = self.groups_of(self.A, si, vi, {k[0] for k in known})
        gs = self.groups_of(self.B, ss, vs, {k[1] for k in known})
        pairs = []
        m2 = m
        free = list(gi)
        todo = list(gs)
        lostA, lostB = [], []
        while todo and free:
            best = None
            for wait in (True, False):
                for s in todo:
                    # loops whose entry depends on an unmatched loop wait
                    if wait and any(self.unm(v0) and not self.covered(v0, m2) for (_, _, _, v0) in self.B.groups[s][0] if v0 is not None):
                        continue
                    for g in free:
                        r = self.pair_cost(g, s, m2)
                        if r is not None and (best is None or r[0] < best[0]):
                            best = (r[0], g, s, r[1])
                if best is not None:
                    break
            if best is None:
                break
            _, g, s, asg = best
            if self.better(g, s, m2, best[0], free, todo, known):
                # one of the two has a partner elsewhere that fits better
                free.remove(g)
                todo.remove(s)
                lostA.append(g)
                lostB.append(s)
                continue
            m2 = self.extend(m2, g, s, asg)
            pairs.append((g, s, asg))
            free.remove(g)
            todo.remove(s)
        return m2, pairs, free + lostA, todo + lostB

    def better(self, g, s, m, cost, free, todo, known):
        if cost == 0:
            return False
        usedA, usedB = {k[0] for k in known}, {k[1] for k in known}
        for g2 in self.A.groups:
            if g2 not in free and g2 not in usedA:
                r = self.pair_cost(g2, s, m)
                if r is not None and r[0] < cost:
                    return True
        for s2 in self.B.groups:
            if s2 not in todo and s2 not in usedB:
                if any(self.unm(v0) and not self.covered(v0, m) for (_, _, _, v0) in self.B.groups[s2][0] if v0 is not None):
                    continue
                r = self.pair_cost(g, s2, m)
                if r is not None and r[0] < cost:
                    return True
        return False

    def covered(self, t, m):
        return all(p in m for p in phis_in(t) if p in self.B.phig)

    def pair_cost(self, gi, gs, m):
        key = ("cost", gi, gs, tuple(sorted((k.id, v.id) for k, v in m.items())))
        if key in self.gcache:
            return self.gcache[key]
        r = None
        for cost, asg in self.assignments(gi, gs, m):
            if not asg:
                continue
            # structural penalty: number of leaves
            extra = abs(len(self.A.groups[gi][0]) - len(self.B.groups[gs][0]))
            c = cost + 5 * extra
            # prefer assignments whose updates agree
            if r is None or c < r[0]:
                if len(self.B.groups[gs][0]) > 1 and cost < 20:
                    q = self.quality(gi, gs, self.extend(m, gi, gs, asg), asg)
                    c += q
                if r is None or c < r[0]:
                    r = (c, asg)
        if r is not None:
            fa, fb = self.finger("A", gi), self.finger("B", gs)
            if fa or fb:
                r = (r[0] + 2.0 * len(fa ^ fb) / len(fa | fb), r[1])
        self.gcache[key] = r
        return r

    def finger(self, side, g):
        """the loop's guards with its own variables and all others abstracted"""
        key = ("finger", side, g)
        r = self.gcache.get(key)
        if r is not None:
            return r
        S = self.A if side == "A" else self.B
        own = {base_phi(l[2]) for l in S.groups[g][0]} - {None}
        r = set()
        me, other = mk("in", "SELF"), mk("in", "HOLE")
        for b in S.groups[g][1]:
            m, memo = {}, {}
            for p in state_phis(b):
                m[p] = me if p in own else other
            for a, v in b.atoms.items():
                if phis_in(a) & own:
                    r.add((tm.subst(a, m, memo), v))
            for x, f in b.fin.items():
                if phis_in(x) & own:
                    r.add((tm.subst(x, m, memo), f))
        self.gcache[key] = r
        return r

    def quality(self, gi, gs, m, asg):
        """how many update pairs can not be unified (cheap, no joint state)"""
        li, bi, _ = self.A.groups[gi]
        ls, bs, _ = self.B.groups[gs]
        bad = 0
        for j, (_, i, k, d) in asg.items():
            for sb in bs:
                w = self.leafval(ls[j], sb)
                w = tm.subst(w, m, {}) if w is not None else None
                okk = False
                for sa in bi:
                    v = self.leafval(li[i], sa)
                    if v is None or w is None:
                        okk = okk or (v is None and w is None)
                        continue
                    if v.op == "lin":
                        v = add(scale(v, k), d)
                    if v is w:
                        okk = True
                        break
                if not okk:
                    bad += 1
        return bad

    def leafval(self, leaf, s):
        (k, path) = leaf[0]
        v = s.store.get(k)
        return self.E.get_at(v, path)

    # ------------------------------------------------------------ main
    def check(self):
        self.mapped = set()
        lvlA = [(s, [v]) for s, v in self.A.res]
        lvlB = [(s, [v]) for s, v in self.B.res]
        self.level(lvlA, lvlB, {}, (), "result")
        self.settle()
        return self.found

    def report(self, d, where, J, si, ss, own=None, m=None):
        self.found.append((d, where, J, si, ss))
        use = set()
        for t in (d.a, d.b):
            if isinstance(t, T):
                use |= phis_in(t)
        if d.kind == "diff":
            use |= state_phis(si)
            for p in state_phis(ss):
                x = (m or {}).get(p)
                use |= phis_in(x) if x is not None else {p}
        self.diffs.append((d, own, use))

    def settle(self):
        """Loop variables are related by identity.  When the update of a variable differs and
        the uses of that variable differ too, the two loops may be related otherwise (work moved
        from the loop to its use or back): neither difference is definite."""
        bad = set()
        cls = self.chains()
        for d, own, _ in self.diffs:
            if own is None or d.kind != "diff":
                continue
            c = cls.get(own, {own})
            loops = {self.loop_of(p) for p in c}
            us = [x for x in self.diffs if x[1] not in c and c & x[2] and self.loop_of(x[1]) not in loops]
            if us:
                bad.add(id(d))
                bad |= {id(x[0]) for x in us}
        for d, _, _ in self.diffs:
            if id(d) in bad and d.kind == "diff":
                d.kind, d.why = "unk", d.why + " (a loop variable is computed and used differently)"

    def chains(self):
        """loop variables that are one variable of the program: an inner loop starts with the outer
        one's current value and the outer one carries on with the inner one's last value"""
        out = {}
        for g, (ls, bs, _) in self.A.groups.items():
            for l in ls:
                p, v0 = base_phi(l[2]), l[3]
                if p is None or not isinstance(v0, T) or v0.op != "phi" or v0 is p:
                    continue
                q = base_phi(v0)
                og = self.A.groups.get(self.loop_of(q))
                if og is None:
                    continue
                for lo in og[0]:
                    if base_phi(lo[2]) is q and any(self.leafval(lo, s) is l[2] for s in og[1]):
                        c = out.get(p, {p}) | out.get(q, {q})
                        for x in c:
                            out[x] = c
        return out

    def loop_of(self, p):
        return None if p is None else self.A.phig.get(p, (None,))[0]

    def level(self, la, lb, m, known, where, own=None, cur=()):
        """compare two sets of guarded values"""
        done = set()
        tree = split_tree(lb, 0) if not m and len(lb) > 24 else None
        for si, vi in la:
            for ss, vs in (candidates(tree, si) if tree else lb):
                self.stats["pairs"] += 1
                if self.quick_contra(si, ss, m, {}):
                    continue
                if tree and opposed(si, ss):
                    continue
                m2, pairs, freeA, freeB = self.align(si, vi, ss, vs, m, known)
                js = self.conj(si, ss, m2)
                if not js:
                    continue
                self.stats["feasible"] += 1
                rel = None
                for J in js:
                    for n, (x, y) in enumerate(zip(vi, vs)):
                        y2 = tm.subst(y, m2, {}) if y is not None else None
                        u = self.unify(J, x, y2)
                        if u is not EQ and u.kind == "diff":
                            c = self.congruence(J, [x, y2])
                            if c is None:
                                break
                            u = self.unify(c[0], *c[1])
                        if u is not EQ and (rel is None or (rel[0].kind == "unk" and u.kind == "diff")):
                            rel = (u, J, n)
                if rel is None:
                    self.stats["equal"] += 1
                else:
                    u, J, n = rel
                    inexact = u.kind == "diff" and self.inexact(si, ss, m2, freeA, freeB)
                    if u.kind == "diff" and (inexact or self.outside(u, cur)):
                        u = Diff("unk", u.why + " (" + (inexact or "the result of a loop against another computation") + ")", u.a, u.b)
                    self.report(u, where, J, si, ss, own[n] if own else None, m2)
                kn = known + tuple((p[0], p[1]) for p in pairs)
                for (g, s, asg) in pairs:
                    key = (g, s)
                    if key in done:
                        continue
                    done.add(key)
                    self.group(g, s, asg, m2, kn)
                    self.exits(g, s, m2, kn, la, lb)

    def outside(self, u, cur):
        """the two values depend on different finished loops: what such a loop leaves behind may
        have a closed form"""
        fin = []
        for t in (u.a, u.b):
            fin.append({p for p in phis_in(t) if self.loop_of(p) not in cur} if isinstance(t, T) else set())
        return fin[0] != fin[1]

    def inexact(self, si, ss, m, freeA, freeB):
        if si.lossy or ss.lossy:
            return "merged paths"
        ua = [p for p in state_phis(si) if p in self.A.phig and p not in self.mapped]
        ub = [p for p in state_phis(ss) if p in self.B.phig and p not in m]
        if freeA or freeB:
            return "loops of different shape"
        for s, other in ((si, self.appsB), (ss, self.appsA)):
            for t in list(s.atoms) + list(s.fin) + [x for it in s.facts for x, _ in it]:
                for x in tm.walk(t):
                    if x.op in ("app", "foreign") and x.a[0] not in other:
                        return "guard on an unmodelled computation"
        for s in (si, ss):
            for t in list(s.atoms) + list(s.fin) + [x for it in s.facts for x, _ in it]:
                if any(x.op == "havoc" for x in tm.walk(t)):
                    return "guard on an inexact value"
        if ua and ub:
            return "unrelated loop variables"
        for s, u in ((si, ua), (ss, ub)):
            u = set(u)
            for a in list(s.atoms) + list(s.fin):
                if phis_in(a) & u:
                    return "guard on an unrelated loop variable"
            for it in s.facts:
                if len(it) > 1 and any(phis_in(x) & u for x, _ in it):
                    return "relation on an unrelated loop variable"
        return None

    def group(self, gi, gs, asg, m, known):
        key = (gi, gs, tuple(sorted((k.id, v.id) for k, v in m.items())))
        if key in self.busy:
            return
        self.busy.add(key)
        self.stats["loop_pairs"] += 1
        li, bi, info = self.A.groups[gi]
        ls, bs, _ = self.B.groups[gs]
        where = "loop in %s" % info[0]
        for j, (c, i, k, d) in asg.items():
            if c == 5:
                y0 = tm.subst(ls[j][3], m, {})
                u = self.unify(State(), li[i][3], y0)
                if u is not EQ:
                    self.report(u, where + " (initial value)", State(), State(), State(), base_phi(li[i][2]), m)
        la, lb = [], []
        for s in bi:
            vals = []
            for j, (c, i, k, d) in sorted(asg.items()):
                v = self.leafval(li[i], s)
                if v is not None and v.op == "lin":
                    v = add(scale(v, k), d)
                vals.append(v)
            la.append((s, vals))
        for s in bs:
            lb.append((s, [self.leafval(ls[j], s) for j in sorted(asg)]))
        self.stats["transitions"] += len(la) + len(lb)
        self.level(la, lb, m, known, where, [base_phi(li[asg[j][1]][2]) for j in sorted(asg)],
                   {gi} | set(self.E.enclosing.get(gi, ())))

    def distinct(self, backs, t, m=None):
        """the back states contradict state t (so t really is an exit)"""
        return all(not self.conj(b, t, {}) for b in backs)

    def next_round(self, side, g, b, m, known):
        """substitution that turns a state over the loop's variables into one about the round after b"""
        S = self.A if side == "A" else self.B
        keep = set()
        for k in known:
            for l in S.groups[k[0] if side == "A" else k[1]][0]:
                keep.add(base_phi(l[2]))
        sub = {}
        if side == "B":
            sub.update(m)
        own = {}
        for l in S.groups[g][0]:
            p = base_phi(l[2])
            if p is None:
                continue
            v = self.leafval(l, b)
            if v is None:
                return None
            if side == "B":
                v = tm.subst(v, m, {})
            one = single(v) if v.op == "lin" else None
            own[p] = one[0] if one and one[1] == 0 else v
        for p in S.phig:
            if p not in keep and p not in own:
                sub[p] = self.fresh(p)
        sub.update(own)
        return sub

    def fresh(self, p):
        r = self.freshes.get(p)
        if r is None:
            r = self.freshes[p] = mk("phi", *([("next",) + (p.a[0] if isinstance(p.a[0], tuple) else (p.a[0],))] + list(p.a[1:])), ty=p.ty)
        return r

    def goes_on(self, side, g, b, J, m, known, lvl, other):
        """Side continues in state b where the other side stops.  Does continuing matter: can a further
        round change a value that is used after the loop, or can the loop end with another result?"""
        S = self.A if side == "A" else self.B
        leaves, backs, _ = S.groups[g]
        sub = self.next_round(side, g, b, m, known)
        if sub is None:
            return False
        direct = set()
        for t, vals in lvl:
            for v in vals:
                if v is not None:
                    direct |= phis_in(v)
        for k, (l2, _, _) in S.groups.items():
            if k != g:
                for l in l2:
                    if l[3] is not None:
                        direct |= phis_in(l[3])
        memo = {}
        for b2 in backs:
            for J2 in self.conj(J, b2, sub):
                for l in leaves:
                    p = base_phi(l[2])
                    if p is None or (l[2].op == "lin" and p not in direct):
                        continue
                    v = self.leafval(l, b2)
                    if v is None:
                        continue
                    v = tm.subst(v, sub, memo)
                    old = tm.subst(l[2], sub, memo)
                    if self.unify(J2, v, old) is not EQ:
                        return True
        own = {base_phi(l[2]) for l in leaves}
        for t, vals in lvl:
            if not (state_phis(t) & own):
                continue
            for J2 in self.conj(J, t, sub):
                for x, y in zip(vals, other):
                    if x is None or y is None:
                        continue
                    u = self.unify(J2, tm.subst(x, sub, memo), y) if side == "A" else self.unify(J2, y, tm.subst(x, sub, memo))
                    if u is not EQ and u.kind == "diff":
                        return True
        return False

    def exits(self, gi, gs, m, known, la, lb):
        """where one side leaves the loop the other must not continue"""
        bi, bs = self.A.groups[gi][1], self.B.groups[gs][1]
        info = self.A.groups[gi][2]
        phA = {base_phi(l[2]) for l in self.A.groups[gi][0]}
        phB = {base_phi(l[2]) for l in self.B.groups[gs][0]}
        where = "loop in %s" % info[0]

        def rep(text, ix, J, si, ss, m2, matters):
            why = ix
            if not why and not matters():
                why = "continuing may have no effect"
            self.report(Diff("unk" if why else "diff", text + (" (%s)" % why if why else "")), where, J, si, ss, None, m2)
        for ss, vs in lb:
            if not (state_phis(ss) & phB) or not self.distinct_c(gs, "B", ss):
                continue
            for b in bi:
                if self.quick_contra(b, ss, m, {}):
                    continue
                m2, pairs, fa, fb = self.align(b, [], ss, [], m, known)
                js = [J for J in self.conj(b, ss, m2) if self.congruence(J, [])]
                if js:
                    ix = self.inexact(b, ss, m2, fa, fb)
                    other = [tm.subst(y, m2, {}) if y is not None else None for y in vs]
                    rep("the loop continues where it has to stop", ix, js[0], b, ss, m2,
                        lambda: any(self.goes_on("A", gi, b, J, m2, known, la, other) for J in js))
        for si, vi in la:
            if not (state_phis(si) & phA) or not self.distinct_c(gi, "A", si):
                continue
            for b in bs:
                if self.quick_contra(si, b, m, {}):
                    continue
                m2, pairs, fa, fb = self.align(si, [], b, [], m, known)
                js = [J for J in self.conj(si, b, m2) if self.congruence(J, [])]
                if js:
                    ix = self.inexact(si, b, m2, fa, fb)
                    rep("the loop stops where it has to continue", ix, js[0], si, b, m2,
                        lambda: any(self.goes_on("B", gs, b, J, m2, known, lb, vi) for J in js))

    def distinct_c(self, g, side, t):
        key = ("dist", side, g, id(t))
        r = self.gcache.get(key)
        if r is None:
            S = self.A if side == "A" else self.B
            r = self.distinct(S.groups[g][1], t)
            self.gcache[key] = r
        return r


def split_tree(items, depth):
    """cases by the values their conditions give to one atom or finite quantity after the other"""
    if len(items) <= 12 or depth > 60:
        return items
    count = {}
    for s, _ in items:
        for a in s.atoms:
            count[a] = count.get(a, 0) + 1
        for x, f in s.fin.items():
            if f[0] == "in" and x.op != "lin":
                count[x] = count.get(x, 0) + 1
    for k, n in sorted(count.items(), key=lambda x: (-x[1], x[0].id))[:40]:
        rest, kids = [], {}
        for it in items:
            v = it[0].atoms.get(k)
            if v is None:
                f = it[0].fin.get(k)
                v = f[1] if f is not None and f[0] == "in" else None
            if v is None:
                rest.append(it)
            else:
                kids.setdefault(v, []).append(it)
        if len(kids) > 1:
            return k, {v: split_tree(l, depth + 1) for v, l in kids.items()}, split_tree(rest, depth + 1)
    return items


def candidates(t, s):
    while isinstance(t, tuple):
        k, kids, rest = t
        v, f = s.atoms.get(k), s.fin.get(k)
        for w, kid in kids.items():
            if isinstance(w, bool):
                if v is None or v == w:
                    yield from candidates(kid, s)
            elif f is None or (f[1] & w if f[0] == "in" else not w <= f[1]):
                yield from candidates(kid, s)
        t = rest
    yield from t


def opposed(s1, s2):
    """two linear conditions that exclude each other"""
    a, b = (s1.facts, s2.facts) if len(s1.facts) <= len(s2.facts) else (s2.facts, s1.facts)
    for it, c in a.items():
        d = b.get(NEG(it))
        if d is not None and c + d < 0:
            return True
    return False


_neg = {}


def NEG(it):
    r = _neg.get(it)
    if r is None:
        r = _neg[it] = tuple((x, -k) for x, k in it)
    return r


# rounds per loop nesting
BOUNDED = [[1], [2], [1, 2], [2, 1], [1, 1, 2], [1, 2, 1], [1, 3], [3], [3, 1], [4]]
# shapes with too many paths in some functions
LARGE = {
    "prints": [[2], [3], [1, 3], [3, 1], [4]],
    "frags_per_player_name": [[3], [4]],
    "flag_events_per_player_name": [[2], [1, 2], [2, 1], [1, 2, 1], [1, 3], [3], [3, 1], [4]],
    "ping_per_player_number": [[3], [4]],
}


def first_rounds(F, impl, spec, atomic, opts, limit, shapes):
    """Compare the two functions on the runs in which no loop needs more than the first rounds.
    Nothing is abstracted there (no loop variables, no merged paths), so a difference is one
    between two values over the same input."""
    import signal, time
    out = []
    t0 = time.time()
    for n in shapes or BOUNDED:
        left = limit - (time.time() - t0)
        if left < 1:
            break
        signal.alarm(int(left) + 1)
        tw = None
        try:
            tw = Twin(F, impl, spec, atomic=atomic, opts=dict(opts, peel=n, once=True, join_max=10 ** 6, loop_entries=10 ** 6, unroll_max=10 ** 4))
            tw.check()
        except Exception:
            pass       # what has been compared so far counts
        finally:
            signal.alarm(0)
        if tw is None:
            continue
        for d, where, J, si, ss in tw.found:
            if d.kind == "diff" and not any(vague(x) for x in (d.a, d.b)) and not vague_state(si) and not vague_state(ss) \
                    and comparable(d, si, ss) and tw.possible(J, d.a, d.b):
                out.append((d, "in the first rounds of the loops", J, si, ss))
        if out:
            break
    return out


VAGUE = {"phi", "merge", "havoc", "app", "foreign", "hkey", "hval", "okey", "oval"}
ITER = {"mlen", "hkey", "hval", "okey", "oval", "imore", "ielem"}


def shape_key(a, nums):
    """the arguments of a term with its numbers taken out"""
    out = []
    for x in a:
        if isinstance(x, T):
            if x.op == "lin":
                nums.append(x)
                x = "#"
        elif isinstance(x, tuple):
            x = shape_key(x, nums)
        out.append(x)
    return tuple(out)


def vague(t):
    return isinstance(t, T) and any(x.op in VAGUE for x in tm.walk(t))


def vague_state(s):
    return s.lossy or any(vague(t) for t in list(s.atoms) + list(s.fin) + [x for it in s.facts for x, _ in it])


# operations that stand for a whole loop: one side may use them where the other runs the loop
WHOLE = {"has", "found", "rfound", "dedup", "dedupf", "sorted"} | ITER
REORDER = {"dedup", "dedupf", "sorted"}


SEARCH = {"has", "found", "rfound"}


def parts(t, s):
    return [y for y in ([t] if isinstance(t, T) else []) + list(s.atoms) + list(s.fin) + [x for it in s.facts for x, _ in it] if isinstance(y, T)]


def base_of(t):
    while t.op == "sl":
        t = t.a[0]
    return t


def reads_of(ts):
    """the sequences of which contents are used: other than by a search, by a whole function or for the length"""
    out, seen, work = set(), set(), list(ts)
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x in seen or x.op in ("call", "len"):
            continue
        seen.add(x)
        if x.op in SEARCH:
            work += [y for y in x.a[1:]]
            y = x.a[0]
            while y.op == "sl":
                work += [z for z in y.a[1:]]
                y = y.a[0]
            continue
        for y in x.a:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T):
                    out.add(base_of(z))
        work.extend(x.a)
    return out


def comparable(d, si, ss):
    """Neither side stands for a loop as a whole where the other may have run the loop: the same
    operations on both, or searches on one side through a sequence the other never looks into."""
    whole = d.why not in ("variants differ",)      # else what the variants contain does not matter
    sides = [parts(d.a if whole else None, si), parts(d.b if whole else None, ss)]
    ops = [{x for t in ts for x in tm.walk(t) if x.op in WHOLE} for ts in sides]
    kinds = [{x.op for x in o} for o in ops]
    if kinds[0] == kinds[1]:
        return True
    if kinds[0] - SEARCH != kinds[1] - SEARCH:
        return False
    hay = [{x.a[0] for x in o if x.op in SEARCH} for o in ops]
    if hay[0] == hay[1]:
        return True
    if hay[0] and hay[1]:
        return False
    for h, other in ((hay[0], sides[1]), (hay[1], sides[0])):
        if {base_of(x) for x in h} & reads_of(other):
            return False
    return True


def inst_of(F, path):
    r = [i for i, x in enumerate(F["insts"]) if x["local"] and x["path"] == path and x.get("body")]
    return r


def guard_text(s, limit=12):
    out = []
    for x, f in list(s.fin.items())[:limit]:
        out.append("%s %s %s" % (show(x)[:110], "in" if f[0] == "in" else "not in", sorted(f[1])[:6]))
    for a, v in list(s.atoms.items())[:limit]:
        out.append(("" if v else "not ") + show(a)[:140])
    for it, c in list(s.facts.items())[:4]:
        out.append(show(mk("lin", c, it))[:100] + ">=0")
    return out


if __name__ == "__main__":
    import sys, time
    from facts import extract
    F = extract()
    impl, spec = sys.argv[1], sys.argv[2]
    atoms = []
    for a in sys.argv[3:]:
        atoms += [x["path"] for x in F["insts"] if x["local"] and x["path"].endswith(a) and "verif_spec" not in x["path"]]
    i = [k for k in F["roots"] if F["insts"][k]["path"].endswith(impl) and "verif_spec" not in F["insts"][k]["path"]][0]
    s = [k for k in F["roots"] if F["insts"][k]["path"].endswith("verif_spec::" + spec)][0]
    t = time.time()
    tw = Twin(F, i, s, atomic=atoms)
    print("run %.1fs" % (time.time() - t), tw.stats, "groups", len(tw.A.groups), len(tw.B.groups))
    t = time.time()
    tw.check()
    print("check %.1fs" % (time.time() - t), tw.stats)
    seen = set()
    for d, w, J, si, ss in tw.found:
        k = repr(d)
        if k in seen:
            continue
        seen.add(k)
        print(w, d)
        print("      code:", guard_text(si, 6))
        print("      ref: ", guard_text(ss, 6))
    print(tw.E.notes)

"""Hash-consed value terms and exact linear arithmetic over them.

Every abstract value is an interned term `T`, so structural equality is object
identity.  Integers (and chars) are always `lin` terms: an exact linear
expression over integer symbols.  Linear facts `l >= 0` are kept per abstract
state; entailment is decided by Fourier-Motzkin elimination with integer
tightening over the facts connected to the goal (a polyhedral domain, bounded;
"don't know" is answered as "not entailed").
"""
from math import gcd

_intern = {}
_next = [0]


class T:
    __slots__ = ("op", "a", "ty", "id", "_rng", "_syms", "_len")

    def __repr__(self):
        return show(self)


def mk(op, *a, ty=None):
    key = (op, a, ty)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.ty = op, a, ty
        t.id = _next[0]
        _next[0] += 1
        t._rng = None
        t._syms = None
        t._len = None
        _intern[key] = t
    return t


# ---------------------------------------------------------------- integers
def mk_lin(c, coefs):
    """coefs: dict sym->int"""
    items = tuple(sorted(((s, k) for s, k in coefs.items() if k), key=lambda x: x[0].id))
    return mk("lin", c, items)


def const(c):
    return mk("lin", c, ())


ZERO = const(0)
ONE = const(1)


def sym(s):
    return mk("lin", 0, ((s, 1),))


def is_const(l):
    return l.op == "lin" and not l.a[1]


def cval(l):
    return l.a[0]


def add(x, y, ky=1):
    if not y.a[1]:
        return mk("lin", x.a[0] + ky * y.a[0], x.a[1])
    d = dict(x.a[1])
    for s, k in y.a[1]:
        d[s] = d.get(s, 0) + ky * k
    return mk_lin(x.a[0] + ky * y.a[0], d)


def sub(x, y):
    return add(x, y, -1)


def addc(x, c):
    return mk("lin", x.a[0] + c, x.a[1]) if c else x


def scale(x, k):
    if k == 0:
        return ZERO
    return mk("lin", x.a[0] * k, tuple((s, c * k) for s, c in x.a[1]))


def neg(x):
    return scale(x, -1)


def single(l):
    """lin == sym + c -> (sym, c)"""
    if l.op == "lin" and len(l.a[1]) == 1 and l.a[1][0][1] == 1:
        return l.a[1][0][0], l.a[0]
    return None


ISIZE_MAX = (1 << 63) - 1
RANGE_OF_TY = {}  # filled by the engine: tyid -> (lo, hi)


def rng(s):
    r = s._rng
    if r is None:
        r = _rng(s)
        s._rng = r
    return r


def _rng(s):
    if s.op == "len":
        return (0, ISIZE_MAX)
    if s.op == "discr":
        return (None, None)
    if s.op == "and":
        return (0, s.a[1])
    if s.op in ("found", "rfound"):
        return (0, ISIZE_MAX)
    if s.op == "ns":
        return (0, (1 << 64) * 10 ** 9 - 1)
    r = RANGE_OF_TY.get(s.ty)
    if r:
        return r
    return (None, None)


# ---------------------------------------------------------------- booleans
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolc(b):
    return TRUE if b else FALSE


def b_not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def b_and(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is y:
        return x
    return mk("and2", x, y)


def b_or(x, y):
    return b_not(b_and(b_not(x), b_not(y)))


def norm_ge(l):
    """l >= 0 normalised by gcd with integer tightening"""
    c, items = l.a
    if not items:
        return l
    g = 0
    for _, k in items:
        g = gcd(g, k)
    if g > 1:
        return mk("lin", c // g, tuple((s, k // g) for s, k in items))
    return l


def b_ge0(l):
    l = norm_ge(l)
    if is_const(l):
        return boolc(cval(l) >= 0)
    return mk("ge0", l)


def b_eq0(l):
    if is_const(l):
        return boolc(cval(l) == 0)
    c, items = l.a
    if items[0][1] < 0:
        l = neg(l)
        c, items = l.a
    g = 0
    for _, k in items:
        g = gcd(g, k)
    if g > 1:
        if c % g:
            return FALSE
        l = mk("lin", c // g, tuple((s, k // g) for s, k in items))
    return mk("eq0", l)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 12:
        return "…"
    o, a = t.op, t.a
    d = depth + 1
    if o == "lin":
        c, items = a
        parts = []
        for s, k in items:
            parts.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(s, d))
        if c or not parts:
            parts.append(str(c))
        r = " + ".join(parts).replace("+ -", "- ")
        return r if len(parts) == 1 else "(" + r + ")"
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "not":
        return "!" + show(a[0], d)
    if o == "ge0":
        return show(a[0], d) + ">=0"
    if o == "eq0":
        return show(a[0], d) + "==0"
    if o == "agg":
        name = a[0] if isinstance(a[0], str) else TYNAME(a[0], a[1])
        return "%s{%s}" % (name, ", ".join(show(x, d) for x in a[2]))
    if o == "ref":
        return "&" + show(a[0], d)
    if o == "str":
        return repr(a[0])
    if o == "bytes":
        return "b" + repr(bytes(a[0]))[1:] if len(a[0]) < 80 else "b[%d]" % len(a[0])
    if o == "arr":
        if len(a[0]) > 6:
            return "[%s…%d]" % (", ".join(show(x, d) for x in a[0][:3]), len(a[0]))
        return "[%s]" % ", ".join(show(x, d) for x in a[0])
    if o == "phi":
        return "φ" + str(a[0][-1] if a and isinstance(a[0], tuple) else a) + "#%d" % t.id
    if o == "sl":
        return "%s[%s;+%s]" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "vf":
        return "%s.%s.%s" % (show(a[0], d), a[1], a[2])
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def TYNAME(tyid, variant):
    return "adt%s#%s" % (tyid, variant)


def subst(t, m, memo):
    """replace interned subterms by map m"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is not None:
        memo[t] = r
        return r
    if t.op == "lin":
        acc = None
        changed = False
        for s, k in t.a[1]:
            s2 = subst(s, m, memo)
            if s2 is not s:
                changed = True
        if not changed:
            r = t
        else:
            acc = const(t.a[0])
            for s, k in t.a[1]:
                s2 = subst(s, m, memo)
                l2 = s2 if s2.op == "lin" else sym(s2)
                acc = add(acc, l2, k)
            r = acc
    else:
        a2 = tuple(subst(x, m, memo) for x in t.a)
        if all(x is y or x == y for x, y in zip(a2, t.a)):
            r = t
        else:
            r = REBUILD(t.op, a2, t.ty)
    memo[t] = r
    return r


def REBUILD(op, a, ty):
    if op in ("eqv", "seqeq") and all(isinstance(x, T) for x in a):
        if a[0] is a[1]:
            return TRUE
        if a[0].id > a[1].id and a[1].op not in ("bytes", "str"):
            a = (a[1], a[0])
        return mk(op, *a)
    if op == "ge0":
        return b_ge0(a[0])
    if op == "eq0":
        return b_eq0(a[0])
    if op == "not":
        return b_not(a[0])
    h = REBUILDERS.get(op)
    if h:
        return h(a, ty)
    return mk(op, *a, ty=ty)


REBUILDERS = {}


def walk(t, seen=None):
    """iterate over all subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def syms_of(l):
    return [s for s, _ in l.a[1]]


# ---------------------------------------------------------------- entailment
LIMIT = 260


def infeasible(cons):
    """cons: list of (dict sym->coef, c) meaning sum+c>=0, over the integers.
    Returns True when proved infeasible."""
    cur = {}
    def put(store, d, c):
        if not d:
            return c < 0
        g = 0
        for k in d.values():
            g = gcd(g, k)
            if g == 1:
                break
        if g > 1:
            d = {s: k // g for s, k in d.items()}
            c = c // g
        key = frozenset(d.items())
        o = store.get(key)
        if o is None or c < o:
            store[key] = c
            nk = frozenset((s, -k) for s, k in d.items())
            oc = store.get(nk)
            if oc is not None and oc + c < 0:
                return True
        return False

    for d, c in cons:
        if put(cur, d, c):
            return True
    while cur:
        # equality substitution
        eq = None
        for key, c in cur.items():
            nk = frozenset((s, -k) for s, k in key)
            if cur.get(nk) == -c:
                for s, k in key:
                    if k in (1, -1):
                        eq = (key, c, s, k)
                        break
                if eq:
                    break
        if eq:
            key, c, s, k = eq
            # k*s + rest + c == 0  -> s = -(rest+c)/k
            rest = {x: -y * k for x, y in key if x is not s}
            rc = -c * k
            new = {}
            for key2, c2 in cur.items():
                d2 = dict(key2)
                m = d2.pop(s, 0)
                if m:
                    for x, y in rest.items():
                        v = d2.get(x, 0) + m * y
                        if v:
                            d2[x] = v
                        else:
                            d2.pop(x, None)
                    c2 = c2 + m * rc
                if put(new, d2, c2):
                    return True
            cur = new
            continue
        pos, ng = {}, {}
        for key in cur:
            for s, k in key:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    ng[s] = ng.get(s, 0) + 1
        best, bc = None, None
        for s in set(pos) | set(ng):
            cost = pos.get(s, 0) * ng.get(s, 0) - pos.get(s, 0) - ng.get(s, 0)
            if bc is None or cost < bc or (cost == bc and s.id < best.id):
                best, bc = s, cost
        s = best
        P, N, new = [], [], {}
        for key, c in cur.items():
            d = dict(key)
            k = d.get(s, 0)
            if k > 0:
                P.append((d, c, k))
            elif k < 0:
                N.append((d, c, -k))
            else:
                new[key] = c
        if len(new) + len(P) * len(N) > LIMIT:
            return False
        for d1, c1, k1 in P:
            for d2, c2, k2 in N:
                d = {}
                for x, y in d1.items():
                    if x is not s:
                        d[x] = y * k2
                for x, y in d2.items():
                    if x is not s:
                        v = d.get(x, 0) + y * k1
                        if v:
                            d[x] = v
                        else:
                            d.pop(x, None)
                if put(new, d, c1 * k2 + c2 * k1):
                    return True
        cur = new
    return False

"""Semantics of the foreign (std / bstr / anyhow / dependency) functions that
the code under analysis calls.  Each model maps an abstract call to its
outcomes [(state, value)].  Anything not modelled is an uninterpreted function
(and a possible panic when its documentation says it panics)."""
import re
import terms as tm
from terms import (T, mk, const, sym, add, sub, addc, scale, neg, single, is_const, cval, b_ge0, b_eq0,
                   b_not, b_and, b_or, boolc, TRUE, FALSE, ZERO, ONE, show)
import engine as en
from engine import agg, ref, ptr, UNIT, ERR, seqlen, mksl, mkcat, mkarr, EMPTY, byteseq, cbytes, Unsupported

MODELS = {}
DECIDE = {}
ASSUME = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def setup(E):
    pass


_short = {}


def strip_generics(p):
    """remove ::<...> segments"""
    out, d, i = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            j = i + 3
            d = 1
            while d and j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def keys_of(E, inst):
    k = _short.get(id(inst))
    if k is not None:
        return k
    name = inst["name"]
    out = []
    tr = inst.get("trait")
    if tr:
        trs = re.sub(r"<.*$", "", tr).split("::")[-1]
        if inst.get("self") is not None:
            t = E.types[inst["self"]]
            sh = t.get("path", t["k"]).split("::")[-1] if t["k"] == "adt" else t["k"]
            out.append("%s:%s::%s" % (sh, trs, name))
        out.append("%s::%s" % (trs, name))
    p = inst["path"]
    m = re.search(r"<impl (?:.* for )?(.*)>::%s$" % re.escape(name), p)
    if m and not tr:
        o = m.group(1)
        if re.match(r"\[.*; *\w+\]$", o):
            out.append("array::" + name)
        o = "slice" if o.startswith("[") else o
        o = re.sub(r"<.*$", "", o).split("::")[-1]
        if re.fullmatch(r"[iu](8|16|32|64|128|size)", o):
            out.append(o + "::" + name)
            o = "int"
        out.append(o + "::" + name)
    elif not tr:
        q = strip_generics(p)
        seg = q.split("::")
        out.append("::".join(seg[-2:]))
        out.append(q)
    _short[id(inst)] = out
    return out


def find(E, inst):
    for k in keys_of(E, inst):
        m = MODELS.get(k)
        if m:
            return m
    crate = inst.get("crate")
    if inst["path"].startswith("anyhow::") or inst["path"].startswith("<anyhow::"):
        return MODELS["anyhow"]
    return None


def unknown(E, st, inst, args, site, dty):
    """uninterpreted pure total function of its arguments"""
    path = inst["path"]
    if inst["panics_doc"] and not path.startswith("<") or inst["track_caller"]:
        site.fr.st = st
        E.obligation(site.fr, site.sp, "may-panic", False, "call of `%s`, documented to panic" % path)
    tt = tuple(E.freeze(st, a) for a in args)
    E.note("unmodelled: " + path)
    E.event("foreign", site.ctx, st, path=path, args=tt, site=site)
    for a in args:
        havoc_ptrs(E, st, a, path)
    v = E.opaque(mk("app", path, tt), dty)
    return [(st, v)]


def havoc_ptrs(E, st, a, why):
    if a.op == "ptr":
        old = E.deref_read(st, a)
        E.havoc_n += 1
        if old is not None:
            ty = old.ty
            nv = mk("havoc", why, old)
            if old.op == "lin":
                nv = sym(nv)
            elif old.op == "agg":
                nv = mk("havoc", why, old, ty=old.a[0] if isinstance(old.a[0], int) else None)
            elif ty is not None:
                nv = E.opaque(nv, ty)
            E.store_to(st, a, nv)
    elif a.op == "agg":
        for x in a.a[2]:
            if x is not None:
                havoc_ptrs(E, st, x, why)


# ------------------------------------------------------------------ helpers
def variant(E, ty, name):
    for i, v in enumerate(E.types[ty]["variants"]):
        if v["name"] == name:
            return i
    raise Unsupported("variant %s of %s" % (name, E.disp(ty)))


def some(E, dty, v):
    return agg(dty, variant(E, dty, "Some"), (v,))


def none(E, dty):
    return agg(dty, variant(E, dty, "None"), ())


def ok(E, dty, v):
    return agg(dty, variant(E, dty, "Ok"), (v,))


def err(E, dty, v=ERR):
    return agg(dty, variant(E, dty, "Err"), (v,))


def opt_inner(E, dty):
    """payload type of Option/Result"""
    for v in E.types[dty]["variants"]:
        if v["name"] in ("Some", "Ok"):
            return v["fields"][0]["ty"]


def rd(E, st, v):
    """value behind any number of references"""
    n = 0
    while v.op in ("ref", "ptr", "optr"):
        v = E.deref_read(st, v)
        if v is None:
            raise Unsupported("uninitialised")
        n += 1
        if n > 10:
            break
    return v


def lptr(E, st, v):
    """the innermost &mut pointer"""
    while True:
        if v.op == "ptr":
            x = E.deref_read(st, v)
            if x is not None and x.op == "ptr":
                v = x
                continue
            return v
        if v.op == "ref":
            v = v.a[0]
            continue
        if v.op == "optr":
            key = ("optr", v)
            if key not in st.store:
                st.store[key] = E.opaque(mk("deref", v), E.types[v.ty]["to"])
            return ptr(key)
        return v


def targ(E, inst, i=0):
    t = inst.get("targs") or []
    return t[i] if i < len(t) and isinstance(t[i], int) else None


def int_ty_of(E, inst, dty):
    s = inst.get("self")
    if isinstance(s, int) and E.tk(s) == "int":
        return s
    m = re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", inst["path"])
    if m:
        return E.ty_by_disp.get(m.group(1))
    return dty


def branch2(E, st, b, fT, fF):
    t, f = E.branch(st, b)
    out = []
    for s in t:
        out += fT(s)
    for s in f:
        out += fF(s)
    return out


def app(E, name, args, dty):
    return E.opaque(mk("app", name, tuple(args)), dty)


def total(name):
    def m(E, st, inst, args, site, dty):
        return [(st, app(E, name, [E.freeze(st, a) for a in args], dty))]
    return m


def ident(E, st, inst, args, site, dty):
    return [(st, args[0])]


def ident_deref(E, st, inst, args, site, dty):
    """&T -> T by value (Clone, Copy, to_owned, ...)"""
    a = args[0]
    v = E.deref_read(st, a)
    return [(st, v)]


def as_ref(E, st, inst, args, site, dty):
    """&Container -> &view with same contents"""
    a = args[0]
    if a.op == "ptr" and E.tk(dty) == "ref" and E.types[dty]["mut"]:
        x = E.deref_read(st, a)
        if x is not None and x.op in ("ptr",):
            return [(st, x)]
        return [(st, a)]
    v = E.deref_read(st, a)
    while v.op in ("ref", "ptr"):
        v = E.deref_read(st, v)
    return [(st, ref(v))]


for n in ("Clone::clone", "ToOwned::to_owned", "ToString::to_string", "slice::to_vec", "slice::into_vec",
          "SpecArrayClone::clone", "str::to_string", "str::to_owned", "str::into_string"):
    MODELS[n] = None
for n in ("Vec::as_slice", "Deref::deref", "DerefMut::deref_mut", "String::as_str", "String::as_bytes", "str::as_bytes",
          "AsRef::as_ref", "Borrow::borrow", "Vec::as_mut_slice", "AsMut::as_mut", "array::as_slice", "BorrowMut::borrow_mut",
          "ByteSlice::as_bytes", "BStr::new", "ByteSlice::as_bstr", "String::as_mut_str", "Vec::as_ref", "Cow:Deref::deref"):
    MODELS[n] = as_ref


@model("Clone::clone", "ToOwned::to_owned", "SpecArrayClone::clone", "slice::to_vec", "str::to_owned", "str::into_string",
       "ByteSlice::to_vec", "Option::cloned", "Option::copied", "str::to_string", "Cow::into_owned")
def m_clone(E, st, inst, args, site, dty):
    if inst["name"] in ("cloned", "copied") and inst.get("body"):
        return NotImplemented
    a = args[0]
    v = E.deref_read(st, a) if a.op in ("ref", "ptr", "optr") else a
    if inst["name"] in ("to_owned", "to_vec", "to_string"):
        v = rd(E, st, a)
    return [(st, v)]


@model("ToString::to_string")
def m_to_string(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    s = inst.get("self")
    return [(st, disp_of(E, v, s))]


def disp_of(E, v, ty):
    """Display rendering as a sequence"""
    while isinstance(ty, int) and E.tk(ty) == "ref":
        ty = E.types[ty]["to"]
    if isinstance(ty, int):
        k = E.tk(ty)
        if k == "str" or E.short(ty) in ("String", "Cow") or E.short(ty) == "Box":
            return v
        if k == "char" and v.op == "lin":
            if is_const(v):
                return mk("str", chr(cval(v)))
            return mk("chr", v)
        if k == "int" and v.op == "lin" and is_const(v):
            return mk("str", str(cval(v)))
    return mk("disp", v)


# ------------------------------------------------------------------ equality
def value_eq(E, st, a, b, ty=None):
    if a is b:
        return TRUE
    if a.op == "lin" and b.op == "lin":
        return b_eq0(sub(a, b))
    if a.op == "dur" or b.op == "dur":
        x, y = dur_ns(E, a), dur_ns(E, b)
        if x is not None and y is not None:
            return b_eq0(sub(x, y))
    if a.op == "bool" or b.op == "bool":
        if a.op == "bool":
            a, b = b, a
        if a.op == "bool":
            return boolc(a.a[0] == b.a[0])
        return a if b is TRUE else b_not(a)
    while a.op in ("ref", "ptr") and b.op in ("ref", "ptr"):
        a, b = E.deref_read(st, a), E.deref_read(st, b)
        if a is b:
            return TRUE
        return value_eq(E, st, a, b)
    ca, cb = cbytes(a), cbytes(b)
    if ca is not None and cb is not None:
        return boolc(ca == cb)
    if a.op == "arr" and (b.op == "arr" or cb is not None) or b.op == "arr" and ca is not None:
        la, lb = seqlen(a), seqlen(b)
        if la is not lb:
            return FALSE
        n = cval(la)
        if n <= 8 or (a.op == "arr" and b.op == "arr"):
            r = TRUE
            for i in range(n):
                r = b_and(r, value_eq(E, st, E.elem(st, a, const(i), None), E.elem(st, b, const(i), None)))
            return r
    if is_seq(a) or is_seq(b):
        la, lb = seqlen(a), seqlen(b)
        d = b_eq0(sub(la, lb))
        r = E.decide(st, d)
        if r is False:
            return FALSE
        if la is ZERO and lb is ZERO:
            return TRUE
        if (la is ZERO or lb is ZERO):
            return d
        x, y = (a, b)
        if ca is not None or (cb is None and a.id > b.id):
            x, y = b, a
        if cbytes(y) is not None:
            y = byteseq(cbytes(y))
        e = mk("seqeq", x, y)
        if is_const(d) if d.op == "lin" else d is TRUE:
            return e
        return b_and(d, e) if x.op in ("sl",) and r is not True else e
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1] and a.a[0] == b.a[0]:
            return FALSE
        if a.a[0] == b.a[0]:
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = b_and(r, value_eq(E, st, x, y))
            return r
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and isinstance(y.a[0], int) and E.types[y.a[0]]["k"] == "adt" and E.types[y.a[0]]["adt"] == "enum":
            dx = E.discr(st, x, y.a[0])
            dy = E.discr(st, y, y.a[0])
            r = b_eq0(sub(dx, dy))
            fs = E.types[y.a[0]]["variants"][y.a[1]]["fields"]
            for i, f in enumerate(y.a[2]):
                r = b_and(r, value_eq(E, st, E.field(st, x, y.a[1], i, fs[i].get("ty")), f))
            return r
    if a.ty is not None and E.tk(a.ty) == "adt" and E.fieldless(a.ty):
        return b_eq0(sub(E.discr(st, a, a.ty), E.discr(st, b, a.ty)))
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("eqv", x, y)


SEQOPS = {"bytes", "str", "arr", "sl", "cat", "upd", "rep"}


def is_seq(v):
    return v.op in SEQOPS


@model("PartialEq::eq", "PartialEq::ne", "SpecArrayEq::spec_eq", "SliceContains::slice_contains")
def m_eq(E, st, inst, args, site, dty):
    if inst["local"] or (inst.get("body") and not inst.get("derived")):
        if inst.get("body"):
            return NotImplemented
    a, b = rd(E, st, args[0]), rd(E, st, args[1])
    s = inst.get("self")
    r = value_eq(E, st, a, b, s) if not isinstance(s, int) or E.tk(s) != "float" else mk("fcmp", "Eq", a, b)
    if inst["name"] == "ne":
        r = b_not(r)
    return [(st, r)]


@model("str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case")
def m_eqic(E, st, inst, args, site, dty):
    return [(st, mk("eqic", rd(E, st, args[0]), rd(E, st, args[1])))]


def three_way(E, st, a, b, dty):
    if a.op != "lin" and b.op != "lin":
        x, y = dur_ns(E, a), dur_ns(E, b)
        if x is not None and y is not None:
            a, b = x, y
    if a.op == "lin" and b.op == "lin":
        d = sub(a, b)
        if is_const(d):
            n = "Equal" if cval(d) == 0 else "Less" if cval(d) < 0 else "Greater"
            return agg(dty, variant(E, dty, n), ())
    ca, cb = cbytes(a), cbytes(b)
    if ca is not None and cb is not None:
        n = "Equal" if ca == cb else "Less" if ca < cb else "Greater"
        return agg(dty, variant(E, dty, n), ())
    if a is b:
        return agg(dty, variant(E, dty, "Equal"), ())
    return mk("cmp", a, b, ty=dty)


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(E, st, inst, args, site, dty):
    if inst.get("body") and inst["local"]:
        return NotImplemented
    a, b = rd(E, st, args[0]), rd(E, st, args[1])
    if inst["name"] == "partial_cmp":
        inner = opt_inner(E, dty)
        s = inst.get("self")
        if isinstance(s, int) and E.tk(s) == "float":
            return [(st, app(E, "fpartial_cmp", (a, b), dty))]
        return [(st, some(E, dty, three_way(E, st, a, b, inner)))]
    if a.op == "agg" and isinstance(a.a[0], int) and E.short(a.a[0]) == "Reverse":
        return [(st, three_way(E, st, b.a[2][0], a.a[2][0], dty))]
    return [(st, three_way(E, st, a, b, dty))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(E, st, inst, args, site, dty):
    a, b = rd(E, st, args[0]), rd(E, st, args[1])
    n = inst["name"]
    x, y = dur_ns(E, a), dur_ns(E, b)
    if x is not None and y is not None:
        a, b = x, y
    if a.op == "lin" and b.op == "lin":
        r = {"lt": b_ge0(addc(sub(b, a), -1)), "le": b_ge0(sub(b, a)),
             "gt": b_ge0(addc(sub(a, b), -1)), "ge": b_ge0(sub(a, b))}[n]
        return [(st, r)]
    return [(st, mk("ocmp", n, a, b))]


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def m_minmax(E, st, inst, args, site, dty):
    a, b = args[0], args[1]
    mx = inst["name"] == "max"
    if isinstance(dty, int) and E.short(dty) == "Option":
        out = []
        for s, sa, va in split_opt(E, st, a):
            for s2, sb, vb in split_opt(E, s, b):
                if not sa or not sb:
                    # nothing is below every value
                    out.append((s2, (b if mx else a) if not sa else (a if mx else b)))
                elif va.op == "lin" and vb.op == "lin":
                    # of equal values either is the same
                    out += branch2(E, s2, b_ge0(sub(va, vb)), lambda z: [(z, a if mx else b)], lambda z: [(z, b if mx else a)])
                else:
                    return [(st, app(E, inst["name"], (a, b), dty))]
        return out
    x, y = dur_ns(E, a), dur_ns(E, b)
    if x is not None and y is not None and isinstance(dty, int) and E.short(dty) == "Duration":
        return branch2(E, st, b_ge0(sub(x, y)), lambda s: [(s, a if mx else b)], lambda s: [(s, b if mx else a)])
    if a.op != "lin" or b.op != "lin":
        return [(st, app(E, inst["name"], (a, b), dty))]
    c = b_ge0(sub(a, b))    # a >= b
    return branch2(E, st, c, lambda s: [(s, a if mx else b)], lambda s: [(s, b if mx else a)])


@model("Ord::clamp")
def m_clamp(E, st, inst, args, site, dty):
    x, lo, hi = args
    if x.op != "lin":
        return [(st, app(E, "clamp", args, dty))]
    site.fr.st = st
    E.obligation(site.fr, site.sp, "panic", E.entails(st, sub(hi, lo)), "clamp with min > max")
    out = []
    t, f = E.branch(st, b_ge0(addc(sub(lo, x), -1)))
    out += [(s, lo) for s in t]
    for s in f:
        t2, f2 = E.branch(s, b_ge0(addc(sub(x, hi), -1)))
        out += [(s2, hi) for s2 in t2] + [(s2, x) for s2 in f2]
    return out


@model("Ordering::reverse")
def m_ordrev(E, st, inst, args, site, dty):
    v = args[0]
    if v.op == "cmp":
        return [(st, mk("cmp", v.a[1], v.a[0], ty=v.ty))]
    if v.op == "agg":
        n = E.types[dty]["variants"][v.a[1]]["name"]
        m = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[n]
        return [(st, agg(dty, variant(E, dty, m), ()))]
    return [(st, app(E, "ord_reverse", (v,), dty))]


# ------------------------------------------------------------------ integers
def sat(E, st, v, ty):
    lo, hi = tm.RANGE_OF_TY[ty]
    out = []
    t, f = E.branch(st, b_ge0(addc(v, -lo)))
    for s in f:
        out.append((s, const(lo)))
    for s in t:
        t2, f2 = E.branch(s, b_ge0(addc(neg(v), hi)))
        out += [(s2, v) for s2 in t2] + [(s2, const(hi)) for s2 in f2]
    return out


def _arith(E, st, inst, args, dty):
    ty = int_ty_of(E, inst, dty)
    op = inst["name"].split("_")[-1]
    a, b = args[0], args[1]
    if op == "add":
        return add(a, b), ty
    if op == "sub":
        return sub(a, b), ty
    if op == "mul":
        return E.arith("Mul", a, b, ty), ty
    return None, ty


@model("int::checked_add", "int::checked_sub", "int::checked_mul")
def m_checked(E, st, inst, args, site, dty):
    v, ty = _arith(E, st, inst, args, dty)
    lo, hi = tm.RANGE_OF_TY[ty]
    c = b_and(b_ge0(addc(v, -lo)), b_ge0(addc(neg(v), hi)))
    return branch2(E, st, c, lambda s: [(s, some(E, dty, v))], lambda s: [(s, none(E, dty))])


@model("int::saturating_add", "int::saturating_sub", "int::saturating_mul")
def m_saturating(E, st, inst, args, site, dty):
    v, ty = _arith(E, st, inst, args, dty)
    lo, hi = tm.RANGE_OF_TY[ty]
    if inst["name"] != "saturating_sub" and not E.fits(st, v, ty):
        site.fr.st = st
        slow = E.types[ty]["bits"] >= 32
        E.obligation(site.fr, site.sp, "saturation", slow, "`%s` on %s silently saturates: %s" % (inst["name"], E.disp(ty), show(v)),
                     acc=E.grows(st, v, ty))
    return sat(E, st, v, ty)


@model("int::wrapping_add", "int::wrapping_sub", "int::wrapping_mul")
def m_wrapping(E, st, inst, args, site, dty):
    v, ty = _arith(E, st, inst, args, dty)
    if E.fits(st, v, ty):
        return [(st, v)]
    site.fr.st = st
    E.obligation(site.fr, site.sp, "wrap", E.types[ty]["bits"] >= 32 and E.slow(st, v, ty),
                 "`%s` on %s may wrap: %s" % (inst["name"], E.disp(ty), show(v)))
    return [(st, E.opaque(mk("wrap", v, E.disp(ty)), ty))]


@model("int::abs_diff")
def m_absdiff(E, st, inst, args, site, dty):
    a, b = args
    return branch2(E, st, b_ge0(sub(a, b)), lambda s: [(s, sub(a, b))], lambda s: [(s, sub(b, a))])


@model("int::unsigned_abs", "int::abs")
def m_abs(E, st, inst, args, site, dty):
    a = args[0]
    return branch2(E, st, b_ge0(a), lambda s: [(s, a)], lambda s: [(s, neg(a))])


@model("int::is_positive")
def m_ispos(E, st, inst, args, site, dty):
    return [(st, b_ge0(addc(args[0], -1)))]


@model("int::is_negative")
def m_isneg(E, st, inst, args, site, dty):
    return [(st, b_ge0(addc(neg(args[0]), -1)))]


@model("int::signum")
def m_signum(E, st, inst, args, site, dty):
    return [(st, app(E, "signum", args, dty))]


@model("int::div_ceil")
def m_divceil(E, st, inst, args, site, dty):
    a, b = args
    site.fr.st = st
    E.obligation(site.fr, site.sp, "div0", E.entails(st, addc(b, -1)), "division by zero in `div_ceil`: %s" % show(b))
    q, r = E.binop(site.fr, "Div", a, b, dty, None), E.binop(site.fr, "Rem", a, b, dty, None)
    return branch2(E, st, b_eq0(r), lambda s: [(s, q)], lambda s: [(s, addc(q, 1))])


@model("int::pow", "int::isqrt", "int::leading_zeros", "int::trailing_zeros", "int::count_ones", "int::swap_bytes")
def m_intmisc(E, st, inst, args, site, dty):
    if inst["name"] == "pow":
        if all(is_const(a) for a in args):
            return [(st, const(cval(args[0]) ** cval(args[1])))]
        site.fr.st = st
        E.obligation(site.fr, site.sp, "overflow", False, "`%s` may overflow: %s" % (inst["name"], ", ".join(show(a) for a in args)))
    return [(st, app(E, inst["name"], args, dty))]


@model("int::from_le_bytes", "int::from_be_bytes", "int::from_ne_bytes")
def m_frombytes(E, st, inst, args, site, dty):
    a = args[0]
    ty = int_ty_of(E, inst, dty)
    n = E.types[ty]["bits"] // 8
    r = ZERO
    els = [E.elem(st, a, const(i), E.u8) for i in range(n)]
    if inst["name"] == "from_be_bytes":
        els = els[::-1]
    for i, x in enumerate(els):
        if x.op != "lin":
            return [(st, app(E, inst["name"], (a,), dty))]
        r = add(r, x, 256 ** i)
    if E.types[ty]["signed"]:
        top = els[-1]
        half = 1 << (E.types[ty]["bits"] - 1)
        return branch2(E, st, b_ge0(addc(neg(top), 127)), lambda s: [(s, r)], lambda s: [(s, addc(r, -2 * half))])
    return [(st, r)]


@model("int::to_le_bytes", "int::to_be_bytes", "int::to_ne_bytes")
def m_tobytes(E, st, inst, args, site, dty):
    return [(st, app(E, inst["name"], args, dty))]


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(E, st, inst, args, site, dty):
    a = args[0]
    if inst["local"]:
        return NotImplemented
    inner = opt_inner(E, dty)
    if a.op == "lin" and E.tk(inner) in ("int", "char"):
        lo, hi = tm.RANGE_OF_TY[inner]
        c = b_and(b_ge0(addc(a, -lo)), b_ge0(addc(neg(a), hi)))
        return branch2(E, st, c, lambda s: [(s, ok(E, dty, a))], lambda s: [(s, err(E, dty))])
    # slice -> array
    t = E.types[inner]
    src = a
    if t["k"] == "array" or (t["k"] == "ref" and E.tk(t["to"]) == "array"):
        at = t if t["k"] == "array" else E.types[t["to"]]
        s = rd(E, st, a)
        n = at["len"]
        c = b_eq0(addc(seqlen(s), -n))

        def good(x):
            v = mkarr([E.elem(x, s, const(i), at["el"]) for i in range(n)]) if n <= 16 else mksl(s, ZERO, const(n))
            return [(x, ok(E, dty, v if t["k"] == "array" else ref(v)))]
        return branch2(E, st, c, good, lambda x: [(x, err(E, dty))])
    if inst.get("body"):
        return NotImplemented
    p = inst["path"]
    v = app(E, p, [E.freeze(st, x) for x in args], dty)
    E.event("foreign", site.ctx, st, path=p, args=args, site=site, value=v)
    return [(st, v)]


@model("From::from", "Into::into")
def m_from(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    a = args[0]
    if inst["name"] == "into" and inst.get("body"):
        return NotImplemented
    if dty is None:
        return [(st, a)]
    p = E.adt_path(dty) or ""
    if p.endswith("Error"):
        return [(st, ERR)]
    k = E.tk(dty)
    if k in ("int", "char"):
        if a.op == "lin":
            return [(st, a)]
        if a.op in ("bool",) or a.ty is not None and E.tk(a.ty) == "bool":
            return [(st, ONE if a is TRUE else ZERO if a is FALSE else sym(mk("b2i", a, ty=dty)))]
    sh = p.split("::")[-1]
    if sh in ("String", "Vec", "Box", "Rc", "Arc", "Cow", "BString", "PathBuf"):
        if sh == "String" and a.op == "lin":
            return [(st, disp_of(E, a, E.ty_by_disp.get("char")))]
        return [(st, rd(E, st, a) if a.op in ("ref", "ptr") else a)]
    if sh == "Option":
        return [(st, some(E, dty, a))]
    if sh in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        v = rd(E, st, a)
        if v.op == "arr":
            m = mk("mapnew", ty=dty)
            for x in v.a[0]:
                m = map_put(E, st, m, x.a[2][0], x.a[2][1]) if x.op == "agg" else map_put(E, st, m, x, UNIT)
            return [(st, m)]
    if k == "float":
        return [(st, mk("fop", "i2f" if a.op == "lin" else "f2f", (a,), ty=dty))]
    if k == "ref":
        return [(st, a)]
    if inst.get("self") is not None and inst["targs"] and len(inst["targs"]) == 1 and inst["targs"][0] == inst["self"]:
        return [(st, a)]
    v = app(E, inst["path"], [E.freeze(st, x) for x in args], dty)
    E.event("foreign", site.ctx, st, path=inst["path"], args=args, site=site, value=v)
    return [(st, v)]


@model("Default::default")
def m_default(E, st, inst, args, site, dty):
    if inst["local"] and inst.get("body"):
        return NotImplemented
    ty = inst.get("self") if isinstance(inst.get("self"), int) else dty
    v = default_value(E, st, ty)
    if v is None:
        return NotImplemented if inst.get("body") else [(st, app(E, "default", (), dty))]
    return [(st, v)]


def default_value(E, st, ty):
    k = E.tk(ty)
    if k in ("int", "char"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "float":
        return mk("flt", 0, E.types[ty]["bits"], ty=ty)
    if k == "array":
        n = E.types[ty]["len"]
        d = default_value(E, st, E.types[ty]["el"])
        return mkarr([d] * n) if d is not None and isinstance(n, int) and n <= 64 else None
    if k == "tuple":
        ds = [default_value(E, st, e) for e in E.types[ty]["els"]]
        return None if any(d is None for d in ds) else agg("tuple", None, ds)
    if k == "ref" and E.tk(E.types[ty]["to"]) in ("str", "slice"):
        return ref(EMPTY)
    sh = E.short(ty)
    if sh in ("Vec", "String", "VecDeque"):
        return EMPTY
    if sh in MAPS:
        return mk("mapnew", ty=ty)
    if sh == "Option":
        return none(E, ty)
    if sh == "Duration":
        return mk("dur", ZERO, ty=ty)
    return None


def find_default(E, st, ty, ctx, site):
    """value of <ty as Default>::default() through local impls"""
    v = default_value(E, st, ty)
    if v is not None:
        return v
    for i, inst in enumerate(E.insts):
        if inst["name"] == "default" and inst.get("self") == ty and inst.get("body"):
            r = E.call_inst(i, [], st, ctx + (("dflt", ty),))
            if len(r) == 1:
                return r[0][1]
    return app(E, "default", (), ty)


# operator traits on references / numbers
@model("BitAnd::bitand", "BitOr::bitor", "Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "Shl::shl", "Shr::shr", "BitXor::bitxor")
def m_opref(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    a, b = rd(E, st, args[0]), rd(E, st, args[1])
    nm = inst["name"]
    sh = E.short(dty) if dty is not None else None
    if sh == "Duration":
        return duration_op(E, st, nm, a, b, site, dty)
    if sh == "String" and nm == "add":
        return [(st, mkcat([a, b]))]
    op = {"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "add": "Add", "sub": "Sub", "mul": "Mul",
          "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}[nm]
    site.fr.st = st
    if E.tk(dty) == "int" and op in ("Add", "Sub", "Mul"):
        v = E.arith(op, a, b, dty)
        good = E.fits(st, v, dty) or (E.types[dty]["bits"] >= 32 and E.slow(st, v, dty))
        E.obligation(site.fr, site.sp, "overflow", good, "arithmetic `%s` may overflow: %s" % (op, show(v)),
                     acc=not good and E.grows(st, v, dty))
        lo, hi = tm.RANGE_OF_TY[dty]
        if not (E.add_ge(st, addc(v, -lo)) and E.add_ge(st, addc(neg(v), hi))):
            return []
        return [(st, v)]
    if E.tk(dty) == "int" and op in ("Div", "Rem"):
        r = E.decide(st, b_eq0(b))
        E.obligation(site.fr, site.sp, "div0", r is False, "division by zero: %s" % show(b))
    site.fr.cur_dty = dty
    return [(st, E.binop(site.fr, op, a, b, dty, site.sp))]


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def m_opassign(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    old = E.deref_read(st, p)
    b = rd(E, st, args[1])
    ty = inst.get("self")
    if old.op == "lin" and b.op == "lin" and isinstance(ty, int) and E.tk(ty) == "int":
        op = inst["name"][:3].capitalize()
        v = E.arith(op, old, b, ty)
        site.fr.st = st
        good = E.fits(st, v, ty) or (E.types[ty]["bits"] >= 32 and E.slow(st, v, ty))
        E.obligation(site.fr, site.sp, "overflow", good, "arithmetic `%s` may overflow: %s" % (op, show(v)),
                     acc=not good and E.grows(st, v, ty))
        E.store_to(st, p, v)
        return [(st, UNIT)]
    sh = E.short(ty) if isinstance(ty, int) else None
    if sh == "String":
        E.store_to(st, p, mkcat([old, b]))
        return [(st, UNIT)]
    if sh == "Duration":
        r = duration_op(E, st, inst["name"][:3], old, b, site, ty)
        out = []
        for s, v in r:
            E.store_to(s, p, v)
            out.append((s, UNIT))
        return out
    if isinstance(ty, int) and E.tk(ty) == "float":
        E.store_to(st, p, mk("fop", inst["name"][:3].capitalize(), (old, b), ty=ty))
        return [(st, UNIT)]
    return NotImplemented


# ------------------------------------------------------------------ durations / floats
def fnonneg(E, st, v):
    if v.op == "flt":
        import struct
        bits, w = v.a[0], v.a[1]
        f = struct.unpack("<d", struct.pack("<Q", int(bits)))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", int(bits)))[0]
        return f == f and 0 <= f < 1e15
    if v.op == "fop":
        n, a = v.a
        if n == "i2f":
            lo, hi = E.bounds(st, a[0])
            return lo is not None and lo >= 0
        if n == "f2f" or n == "round":
            return fnonneg(E, st, a[0])
        if n == "Div":
            return fnonneg(E, st, a[0]) and a[1].op == "flt" and fnonneg(E, st, a[1]) and int(a[1].a[0]) != 0
        if n in ("Add",):
            return all(fnonneg(E, st, x) for x in a)
        if n == "Mul":
            return all(fnonneg(E, st, x) for x in a) and any(x.op == "flt" for x in a)
    return False


@model("Duration::from_secs_f32", "Duration::from_secs_f64")
def m_secsf(E, st, inst, args, site, dty):
    site.fr.st = st
    E.obligation(site.fr, site.sp, "panic", fnonneg(E, st, args[0]),
                 "`%s` panics on negative, non-finite or too large seconds" % inst["name"])
    return [(st, app(E, "Duration::" + inst["name"], args, dty))]


@model("Duration::try_from_secs_f32", "Duration::try_from_secs_f64")
def m_trysecs(E, st, inst, args, site, dty):
    a = mk("durok", args[0])
    inner = opt_inner(E, dty)
    if fnonneg(E, st, args[0]):
        return [(st, ok(E, dty, app(E, "Duration::" + inst["name"][4:], args, inner)))]
    return branch2(E, st, a, lambda s: [(s, ok(E, dty, app(E, "Duration::" + inst["name"][4:], args, inner)))],
                   lambda s: [(s, err(E, dty))])


def duration_op(E, st, nm, a, b, site, dty):
    site.fr.st = st
    if nm == "sub":
        x, y = dur_ns(E, a), dur_ns(E, b)
        good = y is ZERO or x is not None and y is not None and E.entails(st, sub(x, y))
        E.obligation(site.fr, site.sp, "panic", good, "`Duration - Duration` panics when the result is negative")
        if x is not None and y is not None:
            return [(st, mkdur(sub(x, y), dty))]
    elif nm == "add":
        x, y = dur_ns(E, a), dur_ns(E, b)
        if x is not None and y is not None:
            return [(st, mkdur(add(x, y), dty))]
    elif nm in ("mul", "div"):
        E.obligation(site.fr, site.sp, "panic", False, "Duration::%s may panic" % nm)
    return [(st, app(E, "Duration::" + nm, (a, b), dty))]


MODELS["Duration::sub"] = lambda E, st, inst, args, site, dty: duration_op(E, st, "sub", rd(E, st, args[0]), rd(E, st, args[1]), site, dty)
for n in ("Duration::as_secs_f32", "Duration::as_secs_f64", "Duration::subsec_millis", "Duration::subsec_nanos"):
    MODELS[n] = total(n)


def dur_ns(E, v):
    """nanoseconds of a duration"""
    if v.op == "dur":
        return v.a[0]
    if v.op in ("vf", "call", "elem", "app", "in", "phi") and isinstance(v.ty, int) and E.short(v.ty) == "Duration":
        return sym(mk("ns", v))
    return None


def mkdur(ns, ty):
    """a duration of so many nanoseconds"""
    if not is_const(ns) and ns.a[0] == 0 and len(ns.a[1]) == 1 and ns.a[1][0][1] == 1 and ns.a[1][0][0].op == "ns":
        return ns.a[1][0][0].a[0]
    return mk("dur", ns, ty=ty)


tm.REBUILDERS["ns"] = lambda a, ty: a[0].a[0] if a[0].op == "dur" else mk("ns", *a)
tm.REBUILDERS["dur"] = lambda a, ty: mkdur(a[0], ty)


@model("Duration::saturating_add", "Duration::checked_add")
def m_duradd(E, st, inst, args, site, dty):
    x, y = dur_ns(E, args[0]), dur_ns(E, args[1])
    chk = inst["name"] == "checked_add"
    top = None if x is None or y is None else E.bounds(st, add(x, y))[1]
    if top is None or top >= DUR_END:
        return total("Duration::" + inst["name"])(E, st, inst, args, site, dty)
    v = mkdur(add(x, y), opt_inner(E, dty) if chk else dty)
    return [(st, some(E, dty, v) if chk else v)]


@model("Duration::checked_sub")
def m_durchk(E, st, inst, args, site, dty):
    x, y = dur_ns(E, args[0]), dur_ns(E, args[1])
    if x is None or y is None:
        return total("Duration::checked_sub")(E, st, inst, args, site, dty)
    return branch2(E, st, b_ge0(sub(x, y)), lambda s: [(s, some(E, dty, mkdur(sub(x, y), opt_inner(E, dty))))], lambda s: [(s, none(E, dty))])


@model("Duration::abs_diff")
def m_durabs(E, st, inst, args, site, dty):
    x, y = dur_ns(E, args[0]), dur_ns(E, args[1])
    if x is None or y is None:
        return total("Duration::abs_diff")(E, st, inst, args, site, dty)
    return branch2(E, st, b_ge0(sub(x, y)), lambda s: [(s, mkdur(sub(x, y), dty))], lambda s: [(s, mkdur(sub(y, x), dty))])


DUR_END = (1 << 64) * 10 ** 9


DUR = {"from_secs": 10 ** 9, "from_millis": 10 ** 6, "from_micros": 10 ** 3, "from_nanos": 1,
       "as_secs": 10 ** 9, "as_millis": 10 ** 6, "as_micros": 10 ** 3, "as_nanos": 1}


@model("Duration::from_millis", "Duration::from_secs", "Duration::from_micros", "Duration::from_nanos")
def m_durfrom(E, st, inst, args, site, dty):
    return [(st, mkdur(scale(args[0], DUR[inst["name"]]), dty))]


@model("Duration::new")
def m_durnew(E, st, inst, args, site, dty):
    site.fr.st = st
    carry = E.bounds(st, args[1])[1]
    fine = carry is not None and carry < 10 ** 9 or (E.bounds(st, args[0])[1] or 1 << 64) < (1 << 64) - 10
    E.obligation(site.fr, site.sp, "panic", fine, "`Duration::new` panics when the seconds overflow")
    return [(st, mkdur(add(scale(args[0], 10 ** 9), args[1]), dty))]


@model("Duration::as_secs", "Duration::as_millis", "Duration::as_micros", "Duration::as_nanos", "Duration::is_zero")
def m_duras(E, st, inst, args, site, dty):
    x = dur_ns(E, rd(E, st, args[0]))
    if x is None or not E.entails(st, x):
        return total("Duration::" + inst["name"])(E, st, inst, args, site, dty)
    if inst["name"] == "is_zero":
        return [(st, b_eq0(x))]
    return [(st, E.divc(st, x, DUR[inst["name"]], dty))]


@model("Duration::saturating_sub")
def m_dursub(E, st, inst, args, site, dty):
    x, y = dur_ns(E, args[0]), dur_ns(E, args[1])
    if x is None or y is None:
        return total("Duration::saturating_sub")(E, st, inst, args, site, dty)
    return branch2(E, st, b_ge0(sub(x, y)), lambda s: [(s, mkdur(sub(x, y), dty))], lambda s: [(s, mk("dur", ZERO, ty=dty))])


@model("f32::round", "f64::round", "f32::floor", "f64::floor", "f32::ceil", "f64::ceil", "f32::trunc", "f64::trunc", "f32::max", "f32::min", "f64::max", "f64::min", "f32::abs", "f64::abs", "f64::is_finite", "f32::is_finite", "f64::is_nan", "f64::is_sign_negative")
def m_float(E, st, inst, args, site, dty):
    if dty is not None and E.tk(dty) == "bool":
        return [(st, mk("fpred", inst["name"], args[0]))]
    return [(st, mk("fop", inst["name"], tuple(args), ty=dty))]


# ------------------------------------------------------------------ sequences
@model("slice::len", "Vec::len", "String::len", "str::len", "VecDeque::len")
def m_len(E, st, inst, args, site, dty):
    return [(st, seqlen(rd(E, st, args[0])))]


@model("slice::is_empty", "Vec::is_empty", "String::is_empty", "str::is_empty", "VecDeque::is_empty")
def m_isempty(E, st, inst, args, site, dty):
    return [(st, b_eq0(seqlen(rd(E, st, args[0]))))]


@model("Vec::new", "String::new", "Vec::with_capacity", "String::with_capacity", "VecDeque::new")
def m_vecnew(E, st, inst, args, site, dty):
    return [(st, EMPTY)]


@model("Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "HashMap::reserve", "Vec::reserve_exact")
def m_nop(E, st, inst, args, site, dty):
    return [(st, UNIT)]


@model("Vec::capacity")
def m_cap(E, st, inst, args, site, dty):
    return [(st, app(E, "capacity", [E.freeze(st, a) for a in args], dty))]


def mut_seq(E, st, a):
    p = lptr(E, st, a)
    return p, E.deref_read(st, p)


@model("Vec::push", "VecDeque::push_back")
def m_push(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.event("push", site.ctx, st, ptr=p, value=args[1], old=v, site=site)
    E.store_to(st, p, mkcat([v, mkarr([args[1]])]))
    return [(st, UNIT)]


@model("Vec::insert")
def m_insert(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    site.fr.st = st
    E.obligation(site.fr, site.sp, "bounds", E.entails(st, sub(seqlen(v), args[1])), "Vec::insert index out of bounds")
    E.store_to(st, p, mkcat([mksl(v, ZERO, args[1]), mkarr([args[2]]), mksl(v, args[1], sub(seqlen(v), args[1]))]))
    return [(st, UNIT)]


@model("Vec::pop")
def m_pop(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    ity = opt_inner(E, dty)

    def has(s):
        n = addc(seqlen(v), -1)
        x = E.elem(s, v, n, ity)
        E.store_to(s, p, mksl(v, ZERO, n))
        return [(s, some(E, dty, x))]
    return branch2(E, st, b_eq0(seqlen(v)), lambda s: [(s, none(E, dty))], has)


@model("Vec::clear", "String::clear")
def m_clear(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.store_to(st, p, EMPTY)
    return [(st, UNIT)]


@model("Vec::truncate")
def m_truncate(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    out = []
    t, f = E.branch(st, b_ge0(sub(args[1], seqlen(v))))
    for s in t:
        out.append((s, UNIT))
    for s in f:
        E.store_to(s, p, mksl(v, ZERO, args[1]))
        out.append((s, UNIT))
    return out


@model("mem::take", "std::mem::take", "core::mem::take")
def m_take(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    v = E.deref_read(st, p)
    d = find_default(E, st, dty, site.ctx, site)
    E.store_to(st, p, d)
    return [(st, v)]


@model("mem::replace", "std::mem::replace", "core::mem::replace")
def m_replace_mem(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    v = E.deref_read(st, p)
    E.store_to(st, p, args[1])
    return [(st, v)]


@model("mem::swap", "std::mem::swap")
def m_swap(E, st, inst, args, site, dty):
    p, q = lptr(E, st, args[0]), lptr(E, st, args[1])
    v, w = E.deref_read(st, p), E.deref_read(st, q)
    E.store_to(st, p, w)
    E.store_to(st, q, v)
    return [(st, UNIT)]


@model("mem::drop", "std::mem::drop", "core::mem::drop", "mem::forget")
def m_drop(E, st, inst, args, site, dty):
    return [(st, UNIT)]


@model("Vec::extend_from_slice", "String::push_str")
def m_extend(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.store_to(st, p, mkcat([v, rd(E, st, args[1])]))
    return [(st, UNIT)]


@model("Vec::append")
def m_append(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    q, w = mut_seq(E, st, args[1])
    E.store_to(st, p, mkcat([v, w]))
    E.store_to(st, q, EMPTY)
    return [(st, UNIT)]


@model("String::push")
def m_pushchar(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.store_to(st, p, mkcat([v, disp_of(E, args[1], E.ty_by_disp.get("char"))]))
    return [(st, UNIT)]


@model("slice::concat", "slice::join")
def m_concat(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    if inst["name"] == "concat" and v.op == "arr":
        return [(st, mkcat([rd(E, st, x) for x in v.a[0]]) if v.a[0] else EMPTY)]
    return [(st, mk("app", inst["name"], tuple(E.freeze(st, a) for a in args), ty=dty))]


def range_of(E, st, r, ln, ty_hint=None):
    """decode a range value -> (lo, hi) with hi exclusive, or None"""
    if r.op == "agg" and isinstance(r.a[0], int):
        sh = E.short(r.a[0])
        f = r.a[2]
        if sh == "Range":
            return f[0], f[1]
        if sh == "RangeFrom":
            return f[0], ln
        if sh == "RangeTo":
            return ZERO, f[0]
        if sh == "RangeFull":
            return ZERO, ln
        if sh == "RangeInclusive":
            return f[0], addc(f[1], 1)
        if sh == "RangeToInclusive":
            return ZERO, addc(f[0], 1)
    if r.op == "RangeIncl":
        return r.a[0], addc(r.a[1], 1)
    if r.ty is not None and E.short(r.ty) in ("Range", "RangeFrom", "RangeTo"):
        sh = E.short(r.ty)
        fs = [E.opaque(mk("vf", r, 0, i), f["ty"]) for i, f in enumerate(E.types[r.ty]["variants"][0]["fields"])]
        if sh == "Range":
            return fs[0], fs[1]
        if sh == "RangeFrom":
            return fs[0], ln
        return ZERO, fs[0]
    return None


@model("RangeInclusive::new")
def m_rincl(E, st, inst, args, site, dty):
    return [(st, mk("RangeIncl", args[0], args[1]))]


@model("RangeInclusive::start", "RangeInclusive::end")
def m_rincl_se(E, st, inst, args, site, dty):
    r = rd(E, st, args[0])
    lo, hi = incl_bounds(E, r)
    return [(st, ref(lo if inst["name"] == "start" else hi))]


def incl_bounds(E, r):
    if r.op == "RangeIncl":
        return r.a[0], r.a[1]
    if r.op == "agg":
        return r.a[2][0], r.a[2][1]
    return None, None


@model("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def m_rcontains(E, st, inst, args, site, dty):
    r, x = rd(E, st, args[0]), rd(E, st, args[1])
    sh = E.short(r.a[0]) if r.op == "agg" and isinstance(r.a[0], int) else None
    if x.op != "lin":
        return [(st, mk("contains", r, x))]
    if r.op == "RangeIncl" or sh == "RangeInclusive":
        lo, hi = incl_bounds(E, r)
        return [(st, b_and(b_ge0(sub(x, lo)), b_ge0(sub(hi, x))))]
    f = r.a[2] if r.op == "agg" else None
    if f is None:
        return [(st, mk("contains", r, x))]
    if sh == "Range":
        return [(st, b_and(b_ge0(sub(x, f[0])), b_ge0(addc(sub(f[1], x), -1))))]
    if sh == "RangeFrom":
        return [(st, b_ge0(sub(x, f[0])))]
    if sh == "RangeTo":
        return [(st, b_ge0(addc(sub(f[0], x), -1)))]
    if sh == "RangeToInclusive":
        return [(st, b_ge0(sub(f[0], x)))]
    return [(st, mk("contains", r, x))]


def idx_checks(E, st, s, lo, hi):
    n = seqlen(s)
    return [b_ge0(lo), b_ge0(sub(hi, lo)), b_ge0(sub(n, hi))]


def is_str_index(E, inst, site):
    return "for str>" in inst["path"] or "str::" in inst["path"] and "slice" not in inst["path"] or "String" in inst["path"]


@model("Index::index", "IndexMut::index_mut")
def m_index(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    s = rd(E, st, args[0])
    r = args[1]
    site.fr.st = st
    selfty = inst.get("self")
    sh = E.short(selfty) if isinstance(selfty, int) else None
    if sh in MAPS:
        k = rd(E, st, r)
        c = map_has(E, st, s, k)
        t, f = E.branch(st, c)
        E.obligation(site.fr, site.sp, "bounds", not f, "map index on possibly missing key")
        vty = E.types[dty]["to"]
        return [(x, ref(map_value(E, x, s, k, vty))) for x in t]
    mutp = inst["name"] == "index_mut"
    if r.op == "lin":
        good, bad = E.branch(st, b_and(b_ge0(r), b_ge0(addc(sub(seqlen(s), r), -1))))
        E.obligation(site.fr, site.sp, "bounds", not bad, "index %s out of bounds of length %s" % (show(r), show(seqlen(s))))
        ety = E.types[dty]["to"]
        if mutp:
            p = lptr(E, st, args[0])
            return [(x, ptr(p.a[0], p.a[1] + (("e", r, ety),))) for x in good]
        return [(x, ref(E.elem(x, s, r, ety))) for x in good]
    lh = range_of(E, st, r, seqlen(s))
    if lh is None:
        E.obligation(site.fr, site.sp, "bounds", False, "unrecognised index expression")
        return [(st, app(E, "index", (ref(s), r), dty))]
    lo, hi = lh
    cur = [st]
    allok = True
    why = ""
    for c in idx_checks(E, st, s, lo, hi):
        nxt = []
        for x in cur:
            t, f = E.branch(x, c)
            if f:
                allok = False
                why = why or show(c)
            nxt += t
        cur = nxt
    tstr = E.tk(E.types[dty]["to"]) == "str" if E.tk(dty) == "ref" else False
    E.obligation(site.fr, site.sp, "slice-bounds", allok, "slice range may be out of bounds (need %s)" % why)
    if tstr:
        for b in (lo, hi):
            g = all(boundary(E, x, s, b) for x in cur)
            E.obligation(site.fr, site.sp, "char-boundary", g, "string slice position %s may not be a char boundary" % show(b))
    v = mksl(s, lo, sub(hi, lo))
    if mutp:
        p = lptr(E, st, args[0])
        return [(x, ptr(p.a[0], p.a[1] + (("ss", lo, sub(hi, lo)),))) for x in cur]
    return [(x, ref(v)) for x in cur]


@model("slice::get", "str::get", "Vec::get", "slice::get_mut", "String::get")
def m_get(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    r = args[1]
    ity = opt_inner(E, dty)
    to = E.types[ity]["to"]
    mut = inst["name"] == "get_mut"
    if r.op == "lin":
        c = b_and(b_ge0(r), b_ge0(addc(sub(seqlen(s), r), -1)))

        def good(x):
            if mut:
                p = lptr(E, x, args[0])
                return [(x, some(E, dty, ptr(p.a[0], p.a[1] + (("e", r, to),))))]
            return [(x, some(E, dty, ref(E.elem(x, s, r, to))))]
        return branch2(E, st, c, good, lambda x: [(x, none(E, dty))])
    lh = range_of(E, st, r, seqlen(s))
    if lh is None:
        return [(st, app(E, "get", (ref(s), r), dty))]
    lo, hi = lh
    c = TRUE
    for x in idx_checks(E, st, s, lo, hi):
        c = b_and(c, x)
    v = mksl(s, lo, sub(hi, lo))
    if E.tk(to) == "str":
        for b in (lo, hi):
            if not boundary(E, st, s, b):
                c = b_and(c, mk("charb", s, b))

    def good(x):
        if mut:
            p = lptr(E, x, args[0])
            return [(x, some(E, dty, ptr(p.a[0], p.a[1] + (("ss", lo, sub(hi, lo)),))))]
        return [(x, some(E, dty, ref(mksl(s, lo, sub(hi, lo)))))]
    return branch2(E, st, c, good, lambda x: [(x, none(E, dty))])


@model("str::is_char_boundary")
def m_icb(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    b = args[1]
    if boundary(E, st, s, b):
        return [(st, TRUE)]
    return [(st, b_and(b_ge0(sub(seqlen(s), b)), mk("charb", s, b)))]


def boundary(E, st, s, pos):
    """pos is certainly a char boundary of s (in bounds)"""
    if pos is ZERO or pos is seqlen(s):
        return True
    one = single(pos)
    if one is not None and one[0].op == "phi":
        inf = E.phiinfo.get(one[0])
        if inf and inf[0] == "merge" and all(boundary(E, st, s, addc(v, one[1])) for v in inf[1]):
            return True
    if st.atoms.get(mk("charb", s, pos)) or st.atoms.get(mk("ascii", s)):
        return True
    if s.op == "sl":
        if st.atoms.get(mk("ascii", s.a[0])):
            return True
        if st.atoms.get(mk("charb", s.a[0], add(s.a[1], pos))) :
            return True
        if boundary_abs(E, st, s, pos):
            return True
    base, at = (s.a[0], add(s.a[1], pos)) if s.op == "sl" else (s, pos)
    for a, v in st.atoms.items():
        # an occurrence of a whole text starts and ends at char boundaries
        if v and a.op == "seqeq":
            for x, y in (a.a, a.a[::-1]):
                if x.op == "sl" and x.a[0] is base and (at is x.a[1] or at is add(x.a[1], x.a[2])):
                    b = cbytes(y)
                    try:
                        if b and b.decode("utf-8"):
                            return True
                    except UnicodeDecodeError:
                        pass
    if s.op == "str" and is_const(pos):
        b = s.a[0].encode()
        return cval(pos) >= len(b) or (b[cval(pos)] & 0xC0) != 0x80
    return boundary_abs(E, st, s, pos)


def boundary_abs(E, st, s, pos):
    """pos = sum of found() positions/needle lengths in s"""
    for y, c in pos.a[1]:
        if c != 1:
            continue
        if y.op in ("found", "rfound"):
            h, n = y.a
            rest = sub(pos, sym(y))
            off = None
            if h is s:
                off = ZERO
            elif h.op == "sl" and h.a[0] is s:
                off = h.a[1]
            elif s.op == "sl" and h is s.a[0]:
                off = neg(s.a[1])
            elif s.op == "sl" and h.op == "sl" and h.a[0] is s.a[0]:
                off = sub(h.a[1], s.a[1])
            if off is None:
                continue
            rest = sub(rest, off)
            if rest is ZERO or rest is seqlen(n):
                return True
            if is_const(rest):
                nb = cbytes(n)
                if nb is not None and 0 <= cval(rest) <= len(nb):
                    try:
                        nb[:cval(rest)].decode("utf-8")
                        return True
                    except UnicodeDecodeError:
                        pass
    # first char known to be ascii
    if is_const(pos):
        n = cval(pos)
        if all(E.decide(st, b_ge0(addc(neg(E.elem(st, s, const(i), E.u8)), 127))) for i in range(n)):
            return True
    return False


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    to = E.types[opt_inner(E, dty)]["to"]
    idx = ZERO if inst["name"].startswith("first") else addc(seqlen(s), -1)

    def good(x):
        if inst["name"].endswith("_mut"):
            p = lptr(E, x, args[0])
            return [(x, some(E, dty, ptr(p.a[0], p.a[1] + (("e", idx, to),))))]
        return [(x, some(E, dty, ref(E.elem(x, s, idx, to))))]
    return branch2(E, st, b_eq0(seqlen(s)), lambda x: [(x, none(E, dty))], good)


@model("slice::split_at", "str::split_at")
def m_splitat(E, st, inst, args, site, dty):
    s, k = rd(E, st, args[0]), args[1]
    site.fr.st = st
    good, bad = E.branch(st, b_ge0(sub(seqlen(s), k)))
    E.obligation(site.fr, site.sp, "slice-bounds", not bad, "split_at out of bounds")
    return [(x, agg("tuple", None, (ref(mksl(s, ZERO, k)), ref(mksl(s, k, sub(seqlen(s), k)))))) for x in good]


@model("slice::split_at_checked")
def m_splitatc(E, st, inst, args, site, dty):
    s, k = rd(E, st, args[0]), args[1]
    return branch2(E, st, b_ge0(sub(seqlen(s), k)), lambda x: [(x, some(E, dty, agg("tuple", None, (
        ref(mksl(s, ZERO, k)), ref(mksl(s, k, sub(seqlen(s), k)))))))], lambda x: [(x, none(E, dty))])


@model("slice::split_first", "slice::split_last")
def m_splitfirst(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    tt = E.types[opt_inner(E, dty)]["els"]
    ety = E.types[tt[0]]["to"]
    n = addc(seqlen(s), -1)
    if inst["name"] == "split_first":
        f = lambda x: [(x, some(E, dty, agg("tuple", None, (ref(E.elem(x, s, ZERO, ety)), ref(mksl(s, ONE, n))))))]
    else:
        f = lambda x: [(x, some(E, dty, agg("tuple", None, (ref(E.elem(x, s, n, ety)), ref(mksl(s, ZERO, n))))))]
    return branch2(E, st, b_eq0(seqlen(s)), lambda x: [(x, none(E, dty))], f)


@model("slice::contains")
def m_contains(E, st, inst, args, site, dty):
    s, x = rd(E, st, args[0]), rd(E, st, args[1])
    n = seqlen(s)
    ety = targ(E, inst)
    if is_const(n) and cval(n) <= 64:
        r = FALSE
        for i in range(cval(n)):
            e = rd(E, st, E.elem(st, s, const(i), ety))
            r = b_or(r, value_eq(E, st, e, x))
            if r is TRUE:
                break
        return [(st, r)]
    if x.op == "lin" and is_const(x) and ety == E.u8:
        return [(st, has_atom(s, byteseq([cval(x)])))]
    return [(st, mk("scontains", s, x))]


@model("slice::starts_with", "str::starts_with", "ByteSlice::starts_with_str", "slice::ends_with", "str::ends_with", "ByteSlice::ends_with_str")
def m_startsends(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    nd = needle(E, st, args[1], inst)
    start = inst["name"].startswith("starts")
    if nd is None:
        r = pred_first(E, st, s, args[1], site, start)
        return r if r is not None else [(st, mk("swith", inst["name"], s, E.freeze(st, args[1])))]
    cs, cn = cbytes(s), cbytes(nd)
    if cs is not None and cn is not None:
        return [(st, boolc(cs.startswith(cn) if start else cs.endswith(cn)))]
    n = seqlen(nd)
    c = b_ge0(sub(seqlen(s), n))
    out = []
    t, f = E.branch(st, c)
    out += [(x, FALSE) for x in f]
    for x in t:
        part = mksl(s, ZERO, n) if start else mksl(s, sub(seqlen(s), n), n)
        out.append((x, value_eq(E, x, part, nd)))
    return out


def pred_first(E, st, s, f, site, start):
    return None


@model("str::strip_prefix", "str::strip_suffix", "slice::strip_prefix", "slice::strip_suffix")
def m_strip(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    nd = needle(E, st, args[1], inst)
    if nd is None:
        return [(st, app(E, inst["name"], [ref(s), E.freeze(st, args[1])], dty))]
    n = seqlen(nd)
    pre = inst["name"] == "strip_prefix"
    out = []
    t, f = E.branch(st, b_ge0(sub(seqlen(s), n)))
    out += [(x, none(E, dty)) for x in f]
    for x in t:
        part = mksl(s, ZERO, n) if pre else mksl(s, sub(seqlen(s), n), n)
        rest = mksl(s, n, sub(seqlen(s), n)) if pre else mksl(s, ZERO, sub(seqlen(s), n))
        out += branch2(E, x, value_eq(E, x, part, nd), lambda y: [(y, some(E, dty, ref(rest)))],
                       lambda y: [(y, none(E, dty))])
    return out


# ------------------------------------------------------------------ searching
def needle(E, st, a, inst):
    """canonical constant-or-sequence needle, None for predicates"""
    v = a
    while v.op in ("ref", "ptr"):
        v = E.deref_read(st, v)
    if v.op == "lin":
        if is_const(v):
            # char or byte
            if 0 <= cval(v) < 128:
                return byteseq([cval(v)])
            if inst["name"].endswith("_byte"):
                return byteseq([cval(v)])
            return byteseq(chr(cval(v)).encode())
        return mk("chr", v)
    if v.op in ("agg", "fndef", "fnptr"):
        return None
    if v.op == "arr" and v.a[0] and v.a[0][0].op == "lin" and cbytes(v) is None:
        return None
    c = cbytes(v)
    return byteseq(c) if c is not None else v


def has_atom(h, n):
    ch, cn = cbytes(h), cbytes(n)
    if ch is not None and cn is not None:
        return boolc(cn in ch)
    return mk("has", h, n)


def absb(h):
    return (h.a[0], h.a[1]) if h.op == "sl" else (h, ZERO)


def apply_nb(E, st, base, byte, p):
    """position p of base holds `byte`: push it out of ranges known not to contain it"""
    for _ in range(3):
        for (b, nbytes, lo, hi) in st.nb:
            if b is base and byte in nbytes and not E.entails(st, sub(p, hi)):
                if E.entails(st, sub(p, lo)):
                    if not E.add_ge(st, sub(p, hi)):
                        return False
                elif E.entails(st, addc(sub(hi, p), -1)):
                    if not E.add_ge(st, addc(sub(lo, p), -1)):
                        return False
    return True


def nbset(cn):
    return frozenset(range(256)) - frozenset(cn)


def found(E, st, h, n, rev):
    """position value & facts for a successful search; None if infeasible"""
    y = mk("rfound" if rev else "found", h, n, ty=E.usize)
    p = sym(y)
    ln = seqlen(n)
    if not E.add_ge(st, sub(sub(seqlen(h), p), ln)):
        return None
    cn = cbytes(n)
    base, off = absb(h)
    if cn is not None and len(cn) > 0:
        ap = add(p, off)
        if len(cn) == 1:
            if base.op not in ("bytes", "str"):
                e = E.elem(st, h, p, E.u8)
                if e.op == "lin" and not E.add_eq(st, addc(e, -cn[0])):
                    return None
            if not apply_nb(E, st, base, cn[0], ap):
                return None
            if rev:
                st.nb = st.nb + ((base, frozenset(cn), addc(ap, 1), add(off, seqlen(h))),)
            else:
                st.nb = st.nb + ((base, frozenset(cn), off, ap),)
        else:
            if 0 not in cn:
                st.nb = st.nb + ((base, frozenset([0]), ap, addc(ap, len(cn))),)
    return p


@model("ByteSlice::find", "ByteSlice::rfind", "str::find", "str::rfind", "ByteSlice::find_byte", "ByteSlice::rfind_byte",
       "memchr::memchr", "memmem::find")
def m_find(E, st, inst, args, site, dty):
    h = rd(E, st, args[0])
    n = needle(E, st, args[1], inst)
    rev = inst["name"].startswith("r")
    if n is None:
        pred = mk("pred", E.freeze(st, args[1]))
        a = mk("has", h, pred)
        y = mk("rfound" if rev else "found", h, pred, ty=E.usize)

        def g(s):
            E.add_ge(s, addc(sub(seqlen(h), sym(y)), -1))
            s.atoms[mk("charb", h, sym(y))] = True
            return [(s, some(E, dty, sym(y)))]
        return branch2(E, st, a, g, lambda s: [(s, none(E, dty))])
    ch, cn = cbytes(h), cbytes(n)
    if ch is not None and cn is not None:
        i = ch.rfind(cn) if rev else ch.find(cn)
        return [(st, none(E, dty) if i < 0 else some(E, dty, const(i)))]
    if cn == b"":
        return [(st, some(E, dty, seqlen(h) if rev else ZERO))]

    def good(s):
        p = found(E, s, h, n, rev)
        return [] if p is None else [(s, some(E, dty, p))]
    return branch2(E, st, has_atom(h, n), good, lambda s: [(s, none(E, dty))])


@model("ByteSlice::find_byteset", "ByteSlice::rfind_byteset")
def m_findset(E, st, inst, args, site, dty):
    h, cs = rd(E, st, args[0]), cbytes(rd(E, st, args[1]))
    if cs is None or len(set(cs)) > 3:
        return NotImplemented
    rev = inst["name"].startswith("r")
    work = [(st, None)]
    for c in sorted(set(cs)):
        n, nxt = mk("bytes", bytes([c])), []
        for s, best in work:
            t, f = E.branch(s, has_atom(h, n))
            nxt += [(x, best) for x in f]
            for x in t:
                p = found(E, x, h, n, rev)
                if p is None:
                    continue
                if best is None:
                    nxt.append((x, p))
                else:
                    nxt += branch2(E, x, b_ge0(sub(p, best)), lambda z: [(z, p if rev else best)], lambda z: [(z, best if rev else p)])
        work = nxt
    return [(s, none(E, dty) if p is None else some(E, dty, p)) for s, p in work]


def _assume_has(E, st, b, val):
    """hay contains needle => long enough; hay too short => no"""
    h, n = b.a
    if val:
        if n.op != "pred":
            return [st] if E.add_ge(st, sub(seqlen(h), seqlen(n))) else []
    return [st]


ASSUME["has"] = _assume_has


def _decide_has(E, st, b):
    h, n = b.a
    if n.op == "pred":
        return None
    if E.entails(st, addc(sub(seqlen(n), seqlen(h)), -1)):
        return False
    return None


DECIDE["has"] = _decide_has


def _decide_nall(E, st, b):
    """not all of the literals hold"""
    open_ = False
    for t, v in zip(*b.a):
        r = E.decide(st, t) if isinstance(t, T) else bool(t)
        if r is None:
            open_ = True
        elif r != v:
            return True
    return None if open_ else False


DECIDE["nall"] = _decide_nall


def eq_class(st, t):
    """the terms known to equal t"""
    out = {t}
    todo = [t]
    eqs = [a.a for a, v in st.atoms.items() if v and a.op in ("eqv", "seqeq")]
    while todo:
        x = todo.pop()
        for l, r in eqs:
            y = r if l is x else l if r is x else None
            if y is not None and y not in out:
                out.add(y)
                todo.append(y)
    return out


def _decide_eqv(E, st, b):
    x, y = b.a
    if x is y:
        return True
    cx = eq_class(st, x)
    if y in cx:
        return True
    cy = eq_class(st, y)
    if len(cx) + len(cy) > 2:
        for a, v in st.atoms.items():
            if not v and a.op in ("eqv", "seqeq") and (a.a[0] in cx and a.a[1] in cy or a.a[1] in cx and a.a[0] in cy):
                return False
        ks = [{cbytes(t) for t in c} - {None} for c in (cx, cy)]
        if ks[0] and ks[1] and not ks[0] & ks[1]:
            return False
    return None


DECIDE["eqv"] = _decide_eqv
DECIDE["seqeq"] = _decide_eqv


def _assume_nall(E, st, b, val):
    lits = [(t, v) for t, v in zip(*b.a)]
    if not val:
        out = [st]
        for t, v in lits:
            out = [y for x in out for y in E.assume(x, t, v)]
        return out
    rest = [(t, v) for t, v in lits if E.decide(st, t) is None]
    if len(rest) == 1:
        return E.assume(st, rest[0][0], not rest[0][1])
    return [st]


ASSUME["nall"] = _assume_nall


@model("str::contains", "ByteSlice::contains_str")
def m_strcontains(E, st, inst, args, site, dty):
    h = rd(E, st, args[0])
    n = needle(E, st, args[1], inst)
    if n is None:
        return [(st, mk("has", h, mk("pred", E.freeze(st, args[1]))))]
    return [(st, has_atom(h, n))]


@model("str::split_once", "str::rsplit_once", "ByteSlice::split_once_str", "ByteSlice::rsplit_once_str")
def m_splitonce(E, st, inst, args, site, dty):
    h = rd(E, st, args[0])
    n = needle(E, st, args[1], inst)
    if n is None:
        return [(st, app(E, inst["name"], [ref(h), E.freeze(st, args[1])], dty))]
    rev = inst["name"].startswith("r")
    ch, cn = cbytes(h), cbytes(n)
    if ch is not None and cn is not None:
        i = ch.rfind(cn) if rev else ch.find(cn)
        if i < 0:
            return [(st, none(E, dty))]
        return [(st, some(E, dty, agg("tuple", None, (ref(mksl(h, ZERO, const(i))), ref(
            mksl(h, const(i + len(cn)), const(len(ch) - i - len(cn))))))))]

    def good(s):
        p = found(E, s, h, n, rev)
        if p is None:
            return []
        e = add(p, seqlen(n))
        return [(s, some(E, dty, agg("tuple", None, (ref(mksl(h, ZERO, p)), ref(mksl(h, e, sub(seqlen(h), e)))))))]
    return branch2(E, st, has_atom(h, n), good, lambda s: [(s, none(E, dty))])


def seqapp(name):
    """seq -> seq uninterpreted string function"""
    def m(E, st, inst, args, site, dty):
        v = rd(E, st, args[0])
        rest = tuple(E.freeze(st, a) for a in args[1:])
        t = mk("sapp", name, (v,) + rest)
        if E.tk(dty) == "ref":
            return [(st, ref(t))]
        return [(st, t)]
    return m


for n in ("trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches", "to_lowercase", "to_uppercase",
          "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat"):
    for o in ("str", "ByteSlice", "slice"):
        MODELS[o + "::" + n] = seqapp("str::" + n)
SEQOPS.add("sapp")
SEQOPS.add("disp")
SEQOPS.add("chr")


@model("bytestr::to_unicode", "bytestr::to_utf8", "bytestr::to_ascii", "quake_text::bytestr::to_unicode")
def m_quaketext(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    t = mk("sapp", "quake_text::" + inst["name"], (v,))
    E.event("decode", site.ctx, st, path=inst["path"], arg=v, site=site)
    return [(st, t)]


@model("unicode::sort", "quake_text::unicode::sort")
def m_usort(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    return [(st, mk("sorted", v, "unicode"))]


SEQOPS.add("sorted")


def padded(E, st, v):
    """the text that a format specification with a width, and nothing else, pads"""
    if v.op != "fmtspec" or v.a[1] != "new_display":
        return None
    k = [x for x, _ in v.a[0]]
    if k not in (["flags", "width"], ["width"]):
        return None
    w = rd(E, st, v.a[2]) if isinstance(v.a[2], tm.T) else None
    return w if w is not None and is_seq(w) and w.op in ("sapp", "str", "sl", "bytes") else None


@model("str::parse", "FromStr::from_str")
def m_parse(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    inner = opt_inner(E, dty)
    nm = E.disp(inner)
    c = mk("parses", v, nm)
    val = E.opaque(mk("parsed", v, nm), inner)
    cb = cbytes(v)

    def good(s):
        if E.tk(inner) in ("int", "float"):
            s.atoms[mk("ascii", v)] = True
            w = padded(E, s, v)
            if w is not None:
                # characters are bytes here: the text is as long as its padding or its content
                n, out = sub(seqlen(w), const(v.a[0][-1][1])), []
                for longer in (True, False):
                    for s2 in E.assume(s.copy(), tm.b_ge0(n), longer):
                        if E.add_eq(s2, sub(seqlen(v), seqlen(w) if longer else const(v.a[0][-1][1]))):
                            out.append((s2, ok(E, dty, val)))
                return out
        return [(s, ok(E, dty, val))]
    return branch2(E, st, c, good, lambda s: [(s, err(E, dty))])


@model("str::from_utf8", "String::from_utf8", "std::str::from_utf8", "core::str::from_utf8", "ByteSlice::to_str", "ByteVec::into_string")
def m_fromutf8(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    byref = E.tk(opt_inner(E, dty)) == "ref"
    cb = cbytes(v)
    c = mk("utf8", v)
    if cb is not None:
        try:
            cb.decode("utf-8")
            c = TRUE
        except UnicodeDecodeError:
            c = FALSE
    return branch2(E, st, c, lambda s: [(s, ok(E, dty, ref(v) if byref else v))], lambda s: [(s, err(E, dty))])


@model("String::from_utf8_lossy", "ByteSlice::to_str_lossy")
def m_lossy(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    return [(st, mk("sapp", "utf8_lossy", (v,)))]


@model("String::into_bytes", "String::into_boxed_str", "Vec::into_boxed_slice", "Box::new", "Rc::new", "Arc::new", "Some", "must_use",
       "hint::must_use", "std::hint::must_use", "Option::Some", "Box::into_inner", "hint::black_box", "Pin::new", "Cow::into_owned")
def m_ident(E, st, inst, args, site, dty):
    return [(st, args[0])]


@model("Vec::dedup")
def m_dedup(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.event("dedup", site.ctx, st, value=v, site=site)
    els = listed(E, v)
    if els is not None:
        return dedup_listed(E, st, p, els, lambda s, x, y: [(s, value_eq(E, s, x, y, targ(E, inst)))])
    E.store_to(st, p, mk("dedup", v))
    return [(st, UNIT)]


def listed(E, v):
    """the elements of a short sequence, in a comparison of the first rounds"""
    if not E.opts.get("peel"):
        return None
    out = []
    for x in v.a[0] if v.op == "cat" else (v,):
        if x.op != "arr":
            return None
        out += x.a[0]
    return out if len(out) <= 4 else None


def dedup_listed(E, st, p, els, same):
    work = [(st, list(els[:1]))]
    for x in els[1:]:
        nxt = []
        for s, kept in work:
            for s2, c in same(s, x, kept[-1]):
                t, f = E.branch(s2, c)
                nxt += [(z, kept) for z in t] + [(z, kept + [x]) for z in f]
        work = nxt
    out = []
    for s, kept in work:
        E.store_to(s, p, mkarr(kept))
        out.append((s, UNIT))
    return out


SEQOPS.add("dedup")
SEQOPS.add("dedupf")


@model("Vec::dedup_by", "Vec::dedup_by_key")
def m_dedupby(E, st, inst, args, site, dty):
    """the adjacent elements that agree on some projections collapse: dedup when they cover the element"""
    p, v = mut_seq(E, st, args[0])
    ety = targ(E, inst)
    ca, cb = ("dd", site.ctx, "a"), ("dd", site.ctx, "b")
    els = listed(E, v)
    if els is not None:
        def same(s, x, y):
            s.store[ca], s.store[cb] = x, y
            if inst["name"] == "dedup_by":
                return E.call_value(s, args[1], [ptr(ca), ptr(cb)], site.ctx + (("dd",),), site)
            out = []
            for s2, k in E.call_value(s, args[1], [ptr(ca)], site.ctx + (("dd",),), site):
                for s3, k2 in E.call_value(s2, args[1], [ptr(cb)], site.ctx + (("dd",),), site):
                    out.append((s3, value_eq(E, s3, k, k2)))
            return out
        return dedup_listed(E, st, p, els, same)
    a, b = E.opaque(mk("arg", "a"), ety), E.opaque(mk("arg", "b"), ety)
    s0 = st.copy()
    s0.store[ca], s0.store[cb] = a, b
    old = E.opts.get("nomerge")
    E.opts["nomerge"] = lambda i: True
    proj = None
    try:
        if inst["name"] == "dedup_by":
            res = E.call_value(s0, args[1], [ptr(ca), ptr(cb)], site.ctx + (("dd",),), site)
            proj = eq_projections(E, st, res, a, b)
        else:
            ra = E.call_value(s0.copy(), args[1], [ptr(ca)], site.ctx + (("dd",),), site)
            if len(ra) == 1 and not (ra[0][0].atoms.keys() - st.atoms.keys()):
                k = E.freeze(ra[0][0], ra[0][1])
                proj = frozenset(k.a[2]) if k.op == "agg" and k.a[0] == "tuple" else frozenset([k])
    finally:
        E.opts["nomerge"] = old
    if proj is None:
        raise Unsupported(inst["name"])
    t = E.types[ety] if ety is not None else None
    whole = a in proj
    if t is not None and t["k"] == "adt" and t.get("adt") == "struct":
        fs = t["variants"][0]["fields"]
        whole = whole or all(covers(E, st, proj, E.field(st, a, 0, i, f.get("ty")), f.get("ty")) for i, f in enumerate(fs))
    E.event("dedup", site.ctx, st, value=v, site=site)
    E.store_to(st, p, mk("dedup", v) if whole else mk("dedupf", v, tuple(sorted(proj, key=lambda x: x.id))))
    return [(st, UNIT)]


def covers(E, st, proj, x, ty):
    return x in proj or (ty is not None and E.tk(ty) == "adt" and E.fieldless(ty) and
                         any(d in proj or d.op == "lin" and single(d) and single(d)[0] in proj for d in [E.discr(st, x, ty)]))


def eq_projections(E, st, res, a, b):
    """projections f with: result true iff f(a) == f(b) for all of them; None when not of that shape"""
    true = []
    for s, v in res:
        t, _ = E.branch(s, v)
        true += t
    if len(true) != 1:
        return None
    out = set()
    s = true[0]
    new = [(x, w) for x, w in s.atoms.items() if x not in st.atoms]
    for x, w in new:
        if not w or x.op not in ("seqeq", "eqv"):
            return None
        l, r = x.a
        if tm.subst(l, {a: b, b: a}, {}) is not r:
            return None
        out.add(l if a in set(tm.walk(l)) else r)
    fa = [it for it in s.facts if it not in st.facts] + [x for x in s.fin if x not in st.fin]
    if any(x for x in fa):
        for x in s.fin:
            if x not in st.fin:
                return None
        for it in s.facts:
            if it in st.facts:
                continue
            if len(it) != 2 or {k for _, k in it} != {1, -1}:
                return None
            (x, _), (y, _) = it
            if tm.subst(x, {a: b, b: a}, {}) is not y:
                return None
            out.add(x if a in set(tm.walk(x)) else y)
    # any way to be different makes it false
    return frozenset(out) if out else None


@model("Vec::retain")
def m_retain(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    ety = targ(E, inst)

    def body(s, acc, e, sit):
        out = []
        for s2, c, r in callmut(E, s, acc.a[2][0], [ref(e)], sit, "retain"):
            t, f = E.branch(s2, r)
            for x in t:
                out.append(("back", x, agg("tuple", None, (c, mkcat([acc.a[2][1], mkarr([e])])))))
            for x in f:
                out.append(("back", x, agg("tuple", None, (c, acc.a[2][1]))))
        return out

    def done(s, acc):
        E.store_to(s, p, acc.a[2][1])
        return [(s, UNIT)]
    return consume(E, st, seqiter(v, "own", ety), site, agg("tuple", None, (args[1], EMPTY)), body, done, "retain")


@model("slice::reverse")
def m_reverse(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    E.store_to(st, p, mk("rev", v))
    return [(st, UNIT)]


SEQOPS.add("rev")


@model("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def m_sort(E, st, inst, args, site, dty):
    p, v = mut_seq(E, st, args[0])
    ety = targ(E, inst)
    desc = sort_desc(E, st, inst, args, site, ety)
    E.event("sort", site.ctx, st, value=v, desc=desc, stable="unstable" not in inst["name"], site=site)
    if desc[0] == "key?" or desc == ("cmp", ("?",)) or ("unstable" in inst["name"] and desc[0] == "cmp"):
        # order not described, or order of equal elements left open
        E.store_to(st, p, app(E, inst["name"], [v] + [E.freeze(st, x) for x in args[1:]], v.ty if v.ty is not None else vec_ty(E, inst, ety)))
        return [(st, UNIT)]
    els = listed(E, v)
    if els is not None and len(els) <= 3 and inst["name"] in ("sort_by", "sort_by_key", "sort_by_cached_key") and desc[0] == "cmp":
        r = sort_listed(E, st, p, els, desc[1], ety)
        if r is not None:
            return r
    E.store_to(st, p, mk("sorted", v, desc))
    return [(st, UNIT)]


def sort_listed(E, st, p, els, keys, ety):
    """elements known one by one, ordered by numbers: every order, with the comparisons that lead to it"""
    a, b = E.opaque(mk("arg", "a"), ety), E.opaque(mk("arg", "b"), ety)
    if len(els) > 1 and not all(isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, T) and x.op == "lin" for x in k) for k in keys):
        return None

    def less(s, x, y):
        """[(state, is x strictly before y)]"""
        out, work = [], [(s, 0)]
        while work:
            z, i = work.pop()
            if i == len(keys):
                out.append((z, False))
                continue
            m = {a: x, b: y}
            kx, ky = (tm.subst(k, m, {}) for k in keys[i])
            if not all(isinstance(k, T) and k.op == "lin" for k in (kx, ky)):
                return None
            t, f = E.branch(z, b_ge0(addc(sub(ky, kx), -1)))
            out += [(w, True) for w in t]
            for w in f:
                t2, f2 = E.branch(w, b_eq0(sub(kx, ky)))
                work += [(u, i + 1) for u in t2]
                out += [(u, False) for u in f2]
        return out
    work, out = [(st, [], list(els))], []
    while work:
        s, have, rest = work.pop()
        if not rest:
            E.store_to(s, p, mkarr(have) if have else EMPTY)
            out.append((s, UNIT))
            continue
        x = rest[0]
        cases = [(s, len(have))]
        done = []
        while cases:
            z, at = cases.pop()
            if at == 0:
                done.append((z, at))
                continue
            r = less(z, x, have[at - 1])
            if r is None:
                return None
            for w, lt in r:
                (cases if lt else done).append((w, at - 1 if lt else at))
        work += [(z, have[:at] + [x] + have[at:], rest[1:]) for z, at in done]
    return out


def vec_ty(E, inst, ety):
    """type of the vector of ety"""
    for i, t in enumerate(E.types):
        if t["k"] == "adt" and t.get("args") and t["args"][0] == ety and E.short(i) == "Vec":
            return i
    return None


def sort_desc(E, st, inst, args, site, ety):
    """canonical comparator description: tuple of (fact conditions -> ordering term)"""
    n = inst["name"]
    a = E.opaque(mk("arg", "a"), ety) if ety is not None else mk("arg", "a")
    b = E.opaque(mk("arg", "b"), ety) if ety is not None else mk("arg", "b")
    if n in ("sort", "sort_unstable"):
        return ("natural",)
    f = args[1]
    old = E.opts.get("nomerge")
    E.opts["nomerge"] = lambda i: True
    try:
        if n in ("sort_by", "sort_unstable_by"):
            res = E.call_value(st.copy(), f, [ref(a), ref(b)], site.ctx + (("cmp",),), site)
            return ("cmp", cmp_normal(E, st, res, a, b))
        res = E.call_value(st.copy(), f, [ref(a)], site.ctx + (("key",),), site)
        res2 = E.call_value(st.copy(), f, [ref(b)], site.ctx + (("key",),), site)
        if len(res) == 1 and len(res2) == 1:
            ka, kb = res[0][1], res2[0][1]
            return ("cmp", keycmp(E, ka, kb))
        return ("key?",)
    finally:
        E.opts["nomerge"] = old


def keycmp(E, ka, kb):
    if ka.op == "agg" and ka.a[0] == "tuple":
        out = ()
        for x, y in zip(ka.a[2], kb.a[2]):
            out += keycmp(E, x, y)
        return out
    if ka.op == "agg" and isinstance(ka.a[0], int) and E.short(ka.a[0]) == "Reverse":
        return keycmp(E, kb.a[2][0], ka.a[2][0])
    while ka.op == "ref":
        ka, kb = ka.a[0], kb.a[0]
    if ka.op == "lin" and all(k < 0 for _, k in ka.a[1]):
        ka, kb = neg(kb), neg(ka)
    return ((ka, kb),)


def cmp_normal(E, st, res, a, b):
    """lexicographic chain of (x, y) compared pairs, or ('?',) when not of that shape"""
    chain = []
    cur = list(res)
    for _ in range(6):
        if len(cur) == 1 and cur[0][1].op == "cmp":
            v = cur[0][1]
            return tuple(chain) + keycmp(E, v.a[0], v.a[1])
        # paths where discr(cmp(x,y)) == 0 go deeper, others return that cmp / constants
        heads = {}
        for s, v in cur:
            for y, f in s.fin.items():
                if y.op == "discr" and y.a[0].op == "cmp" and y not in [c[2] for c in chain if len(c) > 2]:
                    heads.setdefault(y, 0)
                    heads[y] += 1
        heads = [y for y, n in heads.items() if n == len(cur)]
        if not heads:
            return ("?",)
        y = min(heads, key=lambda t: t.id)
        c = y.a[0]
        eq, ne = [], []
        for s, v in cur:
            f = s.fin[y]
            (eq if f == ("in", frozenset([0])) else ne).append((s, v))
        for s, v in ne:
            if v is c:
                continue
            if v.op == "agg":
                d = E.discr_of(v.a[0], v.a[1])
                if s.fin[y] == ("in", frozenset([d])):
                    continue
            return ("?",)
        chain.append((c.a[0], c.a[1]))
        nxt = []
        for s, v in eq:
            s2 = s.copy()
            s2.fin = {k: f for k, f in s.fin.items() if k is not y}
            nxt.append((s2, v))
        if not nxt:
            return tuple(chain)
        if len(nxt) == 1 and nxt[0][1] is c:
            return tuple(chain)
        if all(v.op == "agg" and E.types[v.a[0]]["variants"][v.a[1]]["name"] == "Equal" for _, v in nxt):
            return tuple(chain)
        cur = nxt
    return ("?",)


# ------------------------------------------------------------------ cursor / io
@model("Cursor::new", "BufReader::new")
def m_curnew(E, st, inst, args, site, dty):
    return [(st, agg("Cursor", None, (args[0], ZERO)))]


@model("Cursor::position")
def m_curpos(E, st, inst, args, site, dty):
    c = rd(E, st, args[0])
    return [(st, E.field(st, c, None, 1, None))]


@model("Cursor::set_position")
def m_cursetpos(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    c = E.deref_read(st, p)
    E.store_to(st, p, agg("Cursor", None, (c.a[2][0], args[1])))
    return [(st, UNIT)]


@model("Cursor::into_inner")
def m_curinner(E, st, inst, args, site, dty):
    return [(st, args[0].a[2][0])]


@model("Cursor::get_ref")
def m_curgetref(E, st, inst, args, site, dty):
    return [(st, ref(rd(E, st, args[0]).a[2][0]))]


@model("Cursor::is_empty")
def m_curempty(E, st, inst, args, site, dty):
    c = rd(E, st, args[0])
    return [(st, b_ge0(sub(c.a[2][1], seqlen(rd(E, st, c.a[2][0])))))]


@model("Read::by_ref", "Iterator::by_ref")
def m_byref(E, st, inst, args, site, dty):
    return [(st, args[0])]


@model("Read::read_exact", "Cursor::read_exact")
def m_readexact(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    p = lptr(E, st, args[0])
    c = E.deref_read(st, p)
    bp = lptr(E, st, args[1])
    buf = E.deref_read(st, bp)
    n = seqlen(buf)
    if c.op == "agg" and c.a[0] == "Cursor":
        inner, pos = c.a[2]
        data = rd(E, st, inner)
    elif is_seq(c) or c.op == "ref":
        # impl Read for &[u8]
        data, pos, inner = rd(E, st, c), ZERO, None
    else:
        return NotImplemented
    ln = seqlen(data)
    if not is_const(n):
        raise Unsupported("read_exact of unknown size")
    k = cval(n)
    cond = b_ge0(sub(ln, addc(pos, k)))

    def good(s):
        new = mkarr([E.elem(s, data, addc(pos, i), E.u8) for i in range(k)]) if k <= 32 else mksl(data, pos, n)
        E.store_to(s, bp, new)
        if inner is None:
            E.store_to(s, p, ref(mksl(data, n, sub(ln, n))))
        else:
            E.store_to(s, p, agg("Cursor", None, (inner, addc(pos, k))))
        E.event("read", site.ctx, s, data=data, pos=pos, n=k, site=site)
        return [(s, ok(E, dty, UNIT))]

    def bad(s):
        if inner is None:
            E.store_to(s, p, ref(mksl(data, ln, ZERO)))
        else:
            E.store_to(s, p, agg("Cursor", None, (inner, ln)))
        return [(s, err(E, dty))]
    return branch2(E, st, cond, good, bad)


@model("io::Error::new", "Error::new", "Error::other", "Error::msg", "Error::from", "anyhow", "__private::format_err", "__private::must_use",
       "Error::context")
def m_err(E, st, inst, args, site, dty):
    p = E.adt_path(dty) if dty is not None else None
    if p and p.endswith("Error"):
        return [(st, ERR)]
    return [(st, app(E, inst["path"], [E.freeze(st, a) for a in args], dty))]


@model("Context::context", "Context::with_context")
def m_context(E, st, inst, args, site, dty):
    v = args[0]
    src = v.a[0] if v.op == "agg" and isinstance(v.a[0], int) else v.ty
    sh = E.short(src) if src is not None else None
    if sh in ("Option", "Result"):
        good = "Some" if sh == "Option" else "Ok"
        gi = variant(E, src, good)
        if v.op == "agg":
            return [(st, ok(E, dty, v.a[2][0]) if v.a[1] == gi else err(E, dty))]
        d = E.discr(st, v, src)
        return branch2(E, st, b_eq0(addc(d, -E.discr_of(src, gi))),
                       lambda s: [(s, ok(E, dty, E.field(s, v, gi, 0, opt_inner(E, src))))],
                       lambda s: [(s, err(E, dty))])
    return NotImplemented


# ------------------------------------------------------------------ fmt
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp", "Argument::from_usize")
def m_fmtarg(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    ty = targ(E, inst)
    return [(st, mk("fmtarg", inst["name"], disp_of(E, v, ty) if inst["name"] == "new_display" else v))]


@model("Arguments::from_str", "Arguments::new_const")
def m_fmtstr(E, st, inst, args, site, dty):
    return [(st, mk("fmt", rd(E, st, args[0])))]


@model("Arguments::new", "Arguments::new_v1")
def m_fmtnew(E, st, inst, args, site, dty):
    t = cbytes(rd(E, st, args[0]))
    al = rd(E, st, args[1])
    parts = []
    i = 0
    ai = 0
    try:
        while i < len(t):
            c = t[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                parts.append(mk("str", t[i:i + c].decode("utf-8")))
                i += c
            elif c == 0x80:
                n = t[i] | t[i + 1] << 8
                i += 2
                parts.append(mk("str", t[i:i + n].decode("utf-8")))
                i += n
            else:
                spec = []
                if c & 1:
                    spec.append(("flags", int.from_bytes(t[i:i + 4], "little")))
                    i += 4
                if c & 2:
                    spec.append(("width" if not c & 16 else "widtharg", int.from_bytes(t[i:i + 2], "little")))
                    i += 2
                if c & 4:
                    spec.append(("prec" if not c & 32 else "precarg", int.from_bytes(t[i:i + 2], "little")))
                    i += 2
                if c & 8:
                    ai = int.from_bytes(t[i:i + 2], "little")
                    i += 2
                x = E.elem(st, al, const(ai), None)
                ai += 1
                if x.op != "fmtarg":
                    raise ValueError
                if spec or x.a[0] != "new_display":
                    parts.append(mk("fmtspec", tuple(spec), x.a[0], x.a[1]))
                else:
                    parts.append(x.a[1])
        return [(st, mk("fmt", mkcat(parts) if parts else mk("str", "")))]
    except (ValueError, IndexError, AttributeError, TypeError):
        return [(st, mk("fmt", mk("sapp", "format", tuple(E.freeze(st, a) for a in args))))]


SEQOPS.add("fmtspec")


@model("fmt::format", "std::fmt::format", "format::format_inner")
def m_format(E, st, inst, args, site, dty):
    a = args[0]
    return [(st, a.a[0] if a.op == "fmt" else mk("sapp", "format", (a,)))]


# ------------------------------------------------------------------ maps
MAPS = ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "IndexMap")


@model("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity")
def m_mapnew(E, st, inst, args, site, dty):
    return [(st, mk("mapnew", ty=dty))]


def key_eq(E, st, a, b):
    r = value_eq(E, st, rd(E, st, a), rd(E, st, b))
    return E.decide(st, r)


def map_has(E, st, m, k):
    m0 = m
    while True:
        if m.op == "mapnew":
            return FALSE
        if m.op == "mupd":
            r = key_eq(E, st, m.a[1], k)
            if r is True:
                return TRUE
            if r is False:
                m = m.a[0]
                continue
        if m.op == "mdel":
            r = key_eq(E, st, m.a[1], k)
            if r is True:
                return FALSE
            if r is False:
                m = m.a[0]
                continue
        return mk("mhas", m, k)


def map_value(E, st, m, k, vty):
    while True:
        if m.op == "mupd":
            r = key_eq(E, st, m.a[1], k)
            if r is True:
                return m.a[2]
            if r is False:
                m = m.a[0]
                continue
        if m.op == "mdel" and key_eq(E, st, m.a[1], k) is False:
            m = m.a[0]
            continue
        return E.opaque(mk("mget", m, k), vty)


def map_nonempty(E, m, seen):
    """every value ever stored in the map is a non-empty sequence (coinductive over loop variables)"""
    over = set()
    while True:
        if m is None:
            return False
        if m.op == "mapnew" or m in seen:
            return True
        if m.op == "mupd":
            v = m.a[2]
            if m.a[1] in over:
                m = m.a[0]
                continue
            over.add(m.a[1])
            if not any(x.op == "arr" and x.a[0] for x in (v.a[0] if v.op == "cat" else [v])):
                return False
            m = m.a[0]
            continue
        h = E.maphist.get(m)
        if m.op != "phi" or not h:
            return False
        seen.add(m)
        return all(map_nonempty(E, v, seen) for v, _ in h)


def resolved(E, st, t):
    """rewrite map reads and elements decided by the state"""
    for _ in range(6):
        n = resolve(E, st, t)
        if n is t:
            break
        t = n
    return t


def resolve(E, st, t):
    m = {}
    for x in tm.walk(t):
        if x.op == "mgetd":
            h = E.decide(st, map_has(E, st, x.a[0], x.a[1]))
            if h is True:
                m[x] = map_value(E, st, x.a[0], x.a[1], x.ty)
            elif h is False:
                m[x] = x.a[2]
        elif x.op == "mget" and x.a[0].op == "mupd":
            v = map_value(E, st, x.a[0], x.a[1], x.ty)
            if v is not x and (v.op != "lin" or single(v) != (x, 0)):
                m[x] = v
        elif x.op == "elem" and x.a[1].op == "lin" and not is_const(x.a[1]):
            n = known_number(E, st, x.a[1])
            if n is not None:
                m[x] = E.elem(st, x.a[0], n, x.ty)
        elif x.op == "chr":
            c = x.a[0]
            one = single(c) if isinstance(c, T) and c.op == "lin" else (c, 0)
            dm = E.dom(st, one[0]) if one and isinstance(one[0], T) else None
            if dm is not None and len(dm) == 1:
                m[x] = mk("str", chr(min(dm) + one[1]))
    if not m:
        return t
    return tm.subst(t, m, {})


def known_number(E, st, l):
    n = const(l.a[0])
    for x, k in l.a[1]:
        d = E.dom(st, x)
        if d is None or len(d) != 1:
            return None
        n = addc(n, k * min(d))
    return n


def known_entries(E, st, m):
    """[(state, entries)]: entries, in one of the possible orders, of a map written a few times only"""
    ws = []
    while m.op == "mupd":
        ws.insert(0, (m.a[1], m.a[2]))
        m = m.a[0]
    if m.op != "mapnew" or len(ws) > 4:
        return None
    work, out = [(st, [], 0)], []
    while work:
        x, have, i = work.pop()
        if i == len(ws):
            out.append((x, [tuple(resolved(E, x, y) for y in kv) for kv in have]))
            continue
        k, v = ws[i]
        cases = [(x, None)]
        for j, (k2, _) in enumerate(have):
            nxt = []
            for y, hit in cases:
                if hit is not None:
                    nxt.append((y, hit))
                    continue
                t, f = E.branch(y, value_eq(E, y, k2, k))
                nxt += [(z, j) for z in t] + [(z, None) for z in f]
            cases = nxt
        for y, hit in cases:
            work.append((y, have + [(k, v)] if hit is None else have[:hit] + [(have[hit][0], v)] + have[hit + 1:], i + 1))
    return out


def known_item(E, st, m, n):
    if m.op != "mupd":
        return None
    r = known_entries(E, st, m)
    return r and [(x, es[n] if n < len(es) else None) for x, es in r]


@model("HashMap::retain", "BTreeMap::retain")
def m_mapretain(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    m = E.deref_read(st, p)
    r = known_entries(E, st, m) if E.opts.get("peel") else None
    if r is None:
        return NotImplemented
    out = []
    for x, es in r:
        work = [(x, args[1], m, 0)]
        while work:
            y, f, kept, i = work.pop()
            if i == len(es):
                E.store_to(y, p, kept)
                out.append((y, UNIT))
                continue
            k, v = es[i]
            if i == 0:
                kept = m
                while kept.op == "mupd":
                    kept = kept.a[0]
            cell = ("retained", site.ctx, i)
            y.store[cell] = v
            for z, g, b in callmut(E, y, f, [ref(k), ptr(cell)], site, ("retain", i)):
                v2 = z.store.pop(cell, v)
                t, fl = E.branch(z, b)
                work += [(w, g, map_put(E, w, kept, k, v2), i + 1) for w in t] + [(w, g, kept, i + 1) for w in fl]
    return out


def map_put(E, st, m, k, v):
    if m.op == "mdel" and m.a[1] is k:
        m = m.a[0]
    if m.op == "mupd" and (m.a[1] is k):
        return mk("mupd", m.a[0], k, v, ty=m.ty)
    return mk("mupd", m, k, v, ty=m.ty)


def mapty(E, ty):
    """(key, value) types of a map type"""
    while E.tk(ty) == "ref":
        ty = E.types[ty]["to"]
    a = E.types[ty].get("args") or []
    return (a[0] if a else None), (a[1] if len(a) > 1 else None)


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    vty = targ(E, inst, 1)
    return [(st, agg("Entry", vty, (p, args[1])))]


def entry_default(E, st, ent, mkdef, site, dty):
    p, k = ent.a[2]
    vty = ent.a[1]
    m = E.deref_read(st, p)
    h = map_has(E, st, m, k)
    r = E.decide(st, h)
    if r is True:
        v = map_value(E, st, m, k, vty)
    else:
        d = mkdef()
        v = d if r is False else E.opaque(mk("mgetd", m, k, d), vty)
    E.event("entry", site.ctx, st, map=m, key=k, site=site)
    E.store_to(st, p, map_put(E, st, m, k, v))
    return [(st, ptr(p.a[0], p.a[1] + (("k", k, vty),)))]


@model("Entry::or_insert")
def m_orinsert(E, st, inst, args, site, dty):
    return entry_default(E, st, args[0], lambda: args[1], site, dty)


@model("Entry::or_default")
def m_ordefault(E, st, inst, args, site, dty):
    return entry_default(E, st, args[0], lambda: find_default(E, st, args[0].a[1], site.ctx, site), site, dty)


@model("Entry::or_insert_with", "Entry::or_insert_with_key")
def m_orinsertwith(E, st, inst, args, site, dty):
    r = E.call_value(st.copy(), args[1], [] if inst["name"] == "or_insert_with" else [ref(args[0].a[2][1])], site.ctx, site)
    if len(r) != 1:
        raise Unsupported("or_insert_with")
    return entry_default(E, st, args[0], lambda: r[0][1], site, dty)


@model("Entry::and_modify")
def m_andmodify(E, st, inst, args, site, dty):
    ent = args[0]
    p, k = ent.a[2]
    m = E.deref_read(st, p)
    out = []
    t, f = E.branch(st, map_has(E, st, m, k))
    out += [(s, ent) for s in f]
    for s in t:
        q = ptr(p.a[0], p.a[1] + (("k", k, ent.a[1]),))
        for s2, _ in E.call_value(s, args[1], [q], site.ctx, site):
            out.append((s2, ent))
    return out


@model("Entry::key")
def m_entrykey(E, st, inst, args, site, dty):
    return [(st, ref(rd(E, st, args[0]).a[2][1]))]


@model("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut")
def m_mapget(E, st, inst, args, site, dty):
    m = rd(E, st, args[0])
    k = rd(E, st, args[1])
    vty = E.types[opt_inner(E, dty)]["to"]
    E.event("mapget", site.ctx, st, map=m, key=k, site=site)

    def good(s):
        if inst["name"] == "get_mut":
            p = lptr(E, s, args[0])
            return [(s, some(E, dty, ptr(p.a[0], p.a[1] + (("k", k, vty),))))]
        return [(s, some(E, dty, ref(map_value(E, s, m, k, vty))))]
    return branch2(E, st, map_has(E, st, m, k), good, lambda s: [(s, none(E, dty))])


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_contkey(E, st, inst, args, site, dty):
    return [(st, map_has(E, st, rd(E, st, args[0]), rd(E, st, args[1])))]


@model("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert")
def m_mapinsert(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    m = E.deref_read(st, p)
    k = args[1]
    isset = "Set" in inst["path"]
    v = UNIT if isset else args[2]
    E.event("mapinsert", site.ctx, st, map=m, key=k, value=v, site=site)
    h = map_has(E, st, m, k)
    if isset:
        E.store_to(st, p, map_put(E, st, m, k, v))
        return [(st, b_not(h))]
    vty = opt_inner(E, dty)

    def had(s):
        o = map_value(E, s, m, k, vty)
        E.store_to(s, p, map_put(E, s, m, k, v))
        return [(s, some(E, dty, o))]

    def no(s):
        E.store_to(s, p, map_put(E, s, m, k, v))
        return [(s, none(E, dty))]
    return branch2(E, st, h, had, no)


@model("HashMap::remove", "BTreeMap::remove")
def m_mapremove(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    m = E.deref_read(st, p)
    k = rd(E, st, args[1])
    base = m
    ws = []
    while base.op == "mupd":
        ws.append((base.a[1], base.a[2]))
        base = base.a[0]
    if base.op == "mapnew" and ws and (E.opts.get("peel") or all(key_eq(E, st, q, k) is not None for q, _ in ws)):
        sts = [(st, ())]
        for q, _ in ws:
            e = value_eq(E, st, q, k)
            sts = [(y, n + (w,)) for x, n in sts for w, ys in zip((True, False), E.branch(x, e)) for y in ys]
        out = []
        for x, same in sts:
            kept = base
            for (q, v), eq in reversed(list(zip(ws, same))):
                if not eq:
                    kept = map_put(E, x, kept, q, v)
            E.store_to(x, p, kept)
            hit = [v for (q, v), eq in zip(ws, same) if eq]
            out.append((x, some(E, dty, hit[0]) if hit else none(E, dty)))
        return out
    if base.op == "mapnew" and not ws:
        return [(st, none(E, dty))]
    vty = opt_inner(E, dty)

    def had(s):
        o = map_value(E, s, m, k, vty)
        E.store_to(s, p, mk("mdel", m, k, ty=m.ty))
        return [(s, some(E, dty, o))]
    return branch2(E, st, map_has(E, st, m, k), had, lambda s: [(s, none(E, dty))])


@model("HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def m_mapempty(E, st, inst, args, site, dty):
    m = rd(E, st, args[0])
    if m.op == "mapnew":
        return [(st, TRUE)]
    if m.op == "mupd":
        return [(st, FALSE)]
    return [(st, b_eq0(sym(mk("mlen", m, ty=E.usize))))]


@model("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def m_maplen(E, st, inst, args, site, dty):
    m = rd(E, st, args[0])
    return [(st, ZERO if m.op == "mapnew" else sym(mk("mlen", m, ty=E.usize)))]


@model("HashMap::iter", "HashMap::keys", "HashMap::values", "BTreeMap::iter", "BTreeMap::keys", "BTreeMap::values", "HashMap::into_values",
       "HashMap::into_keys", "BTreeMap::into_values", "BTreeMap::into_keys", "HashSet::iter", "BTreeSet::iter", "HashMap::drain", "HashMap::iter_mut", "HashMap::values_mut")
def m_mapiter(E, st, inst, args, site, dty):
    if inst["name"] in ("iter_mut", "values_mut", "drain"):
        raise Unsupported("map " + inst["name"])
    m = rd(E, st, args[0]) if args[0].op in ("ref", "ptr") else args[0]
    p = inst["path"]
    hashed = "Hash" in p
    kty, vty = targ(E, inst, 0), targ(E, inst, 1)
    own = inst["name"].startswith("into")
    kind = inst["name"].replace("into_", "")
    if "Set" in p:
        kind = "keys"
    return [(st, map_iter(m, kind, hashed, own, kty, vty))]


def map_iter(m, kind, hashed, own, kty, vty):
    return agg("MapIter", (kind, hashed, own, kty, vty), (m, ZERO))


# ------------------------------------------------------------------ iterators
def seqiter(s, mode, ety, root=None):
    return agg("SeqIter", (mode, ety, root), (s, ZERO, seqlen(s)))


@model("slice::iter", "Vec::iter", "VecDeque::iter")
def m_iter(E, st, inst, args, site, dty):
    return [(st, seqiter(rd(E, st, args[0]), "ref", targ(E, inst)))]


@model("slice::iter_mut")
def m_itermut(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    return [(st, seqiter(E.deref_read(st, p), "mut", targ(E, inst), p))]


@model("IntoIterator::into_iter")
def m_intoiter(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    a = args[0]
    ty = inst.get("self")
    if isinstance(ty, int):
        t = E.types[ty]
        if t["k"] == "ref":
            base = t["to"]
            mut = t["mut"]
            bt = E.types[base]
            sh = E.short(base)
            if bt["k"] in ("slice", "array") or sh in ("Vec", "VecDeque"):
                ety = bt["el"] if bt["k"] in ("slice", "array") else bt["args"][0]
                if mut:
                    p = lptr(E, st, a)
                    return [(st, seqiter(E.deref_read(st, p), "mut", ety, p))]
                return [(st, seqiter(rd(E, st, a), "ref", ety))]
            if sh in MAPS:
                k, v = mapty(E, base)
                return [(st, map_iter(rd(E, st, a), "keys" if "Set" in sh else "iter", "Hash" in sh, False, k, v))]
            if sh == "Option":
                v = rd(E, st, a)
                return opt_iter(E, st, v, base, True)
        else:
            sh = E.short(ty)
            if t["k"] == "array" or sh in ("Vec", "VecDeque"):
                ety = t["el"] if t["k"] == "array" else t["args"][0]
                return [(st, seqiter(a, "own", ety))]
            if sh in MAPS:
                k, v = mapty(E, ty)
                return [(st, map_iter(a, "keys" if "Set" in sh else "iter", "Hash" in sh, True, k, v))]
            if sh == "Option":
                return opt_iter(E, st, a, ty, False)
            if sh == "RangeInclusive":
                return [(st, incl_iter(E, a))]
    return [(st, a)]


def opt_iter(E, st, v, ty, byref):
    ety = opt_inner(E, ty)
    gi = variant(E, ty, "Some")
    d = E.discr(st, v, ty)
    return branch2(E, st, b_eq0(addc(d, -E.discr_of(ty, gi))),
                   lambda s: [(s, seqiter(mkarr([E.field(s, v, gi, 0, ety)]), "ref" if byref else "own", ety))],
                   lambda s: [(s, seqiter(EMPTY, "ref" if byref else "own", ety))])


def incl_iter(E, a):
    lo, hi = incl_bounds(E, a)
    return agg("RangeIter", None, (lo, addc(hi, 1)))


def adaptor(name, nargs=1):
    def m(E, st, inst, args, site, dty):
        it = prep(E, args[0])
        extra = list(args[1:])
        if name in ("Enumerate",):
            extra = [ZERO]
        if name == "Flatten":
            extra = [mk("nofront")]
        if name == "FlatMap":
            return [(st, agg("Flatten", None, (agg("Map", None, (it, extra[0])), mk("nofront"))))]
        if name == "StepBy":
            raise Unsupported("step_by")
        return [(st, agg(name, None, [it] + extra))]
    return m


def prep(E, it):
    if it.op == "RangeIncl" or (it.op == "agg" and isinstance(it.a[0], int) and E.short(it.a[0]) == "RangeInclusive"):
        return incl_iter(E, it)
    return it


for meth, tag in (("map", "Map"), ("filter", "Filter"), ("filter_map", "FilterMap"), ("enumerate", "Enumerate"), ("cloned", "Cloned"),
                  ("copied", "Cloned"), ("rev", "Rev"), ("take", "Take"), ("skip", "Skip"), ("take_while", "TakeWhile"),
                  ("skip_while", "SkipWhile"), ("map_while", "MapWhile"), ("flatten", "Flatten"), ("flat_map", "FlatMap"),
                  ("inspect", "Inspect"), ("peekable", "Peekable"), ("fuse", "Fuse"), ("step_by", "StepBy")):
    MODELS["Iterator::" + meth] = adaptor(tag)


@model("Iterator::zip", "Iterator::chain", "iter::zip")
def m_zip(E, st, inst, args, site, dty):
    b = args[1]
    # second argument is IntoIterator
    t2 = targ(E, inst, 1)
    if isinstance(t2, int):
        fake = {"name": "into_iter", "path": "IntoIterator::into_iter", "self": t2, "local": False, "targs": [t2]}
        r = m_intoiter(E, st, fake, [b], site, None)
        if len(r) != 1:
            raise Unsupported("zip/chain of forked source")
        b = r[0][1]
    return [(st, agg("Zip" if inst["name"] == "zip" else "Chain", None, (prep(E, args[0]), prep(E, b))))]


@model("iter::once", "std::iter::once")
def m_once(E, st, inst, args, site, dty):
    return [(st, seqiter(mkarr([args[0]]), "own", targ(E, inst)))]


@model("iter::empty", "std::iter::empty")
def m_emptyit(E, st, inst, args, site, dty):
    return [(st, seqiter(EMPTY, "own", targ(E, inst)))]


@model("iter::from_fn", "std::iter::from_fn")
def m_fromfn(E, st, inst, args, site, dty):
    return [(st, agg("FromFn", None, (args[0],)))]


@model("iter::successors", "std::iter::successors")
def m_successors(E, st, inst, args, site, dty):
    return [(st, agg("Successors", targ(E, inst), (args[0], args[1])))]


@model("iter::repeat", "std::iter::repeat")
def m_repeat_it(E, st, inst, args, site, dty):
    return [(st, agg("Repeat", None, (args[0],)))]


@model("str::chars")
def m_chars(E, st, inst, args, site, dty):
    return [(st, agg("Chars", None, (rd(E, st, args[0]), ZERO)))]


@model("str::bytes", "ByteSlice::bytes")
def m_bytes(E, st, inst, args, site, dty):
    return [(st, seqiter(rd(E, st, args[0]), "own", E.u8))]


@model("str::lines", "str::split", "str::split_whitespace", "str::char_indices", "slice::windows", "slice::chunks", "slice::split",
       "ByteSlice::lines", "str::rsplit", "str::splitn", "str::rsplitn", "ByteSlice::find_iter", "str::match_indices", "str::matches", "slice::chunks_exact",
       "str::split_terminator", "ByteSlice::split_str", "ByteSlice::rfind_iter", "str::rmatch_indices")
def m_opaqueiter(E, st, inst, args, site, dty):
    s = rd(E, st, args[0])
    if inst["name"] in ("windows", "chunks", "chunks_exact"):
        site.fr.st = st
        E.obligation(site.fr, site.sp, "panic", E.entails(st, addc(args[1], -1)), "`%s(0)` panics" % inst["name"])
    t = mk("iseq", inst["name"], (s,) + tuple(E.freeze(st, a) for a in args[1:]))
    return [(st, agg("OSeqIter", inst["name"], (t, ZERO)))]


SKIP = object()


def it_copy(it, fields):
    return agg(it.a[0], it.a[1], fields)


def inext(E, st, it, site, ity=None):
    """[(state, it', item | None(exhausted) | SKIP)]"""
    if it.op == "ptr":
        inner = E.deref_read(st, it)
        out = []
        for s, i2, v in inext(E, st, inner, site, ity):
            E.store_to(s, it, i2)
            out.append((s, it, v))
        return out
    if it.op != "agg":
        raise Unsupported("iteration over " + show(it)[:80])
    tag, f = it.a[0], it.a[2]
    if tag == "SeqIter":
        s, pos, end = f
        mode, ety, root = it.a[1]
        out = []
        t, fl = E.branch(st, b_ge0(addc(sub(end, pos), -1)))
        for x in t:
            if mode == "mut":
                v = ptr(root.a[0], root.a[1] + (("e", pos, ety),))
            else:
                v = E.elem(x, s, pos, ety)
                if mode == "ref":
                    v = ref(v)
            out.append((x, it_copy(it, (s, addc(pos, 1), end)), v))
        out += [(x, it, None) for x in fl]
        return out
    if isinstance(tag, int):
        sh = E.short(tag)
        if sh == "Range":
            out = []
            t, fl = E.branch(st, b_ge0(addc(sub(f[1], f[0]), -1)))
            for x in t:
                out.append((x, agg(tag, it.a[1], (addc(f[0], 1), f[1])), f[0]))
            return out + [(x, it, None) for x in fl]
        if sh == "RangeFrom":
            return [(st, agg(tag, it.a[1], (addc(f[0], 1),)), f[0])]
        if sh == "RangeInclusive":
            return inext(E, st, incl_iter(E, it), site, ity)
        for i, x in enumerate(E.insts):
            if x["name"] == "next" and x["local"] and x.get("self") == tag and x.get("body") and (x.get("trait") or "").endswith("Iterator"):
                cell = ("localiter", site.ctx)
                st.store[cell] = it
                out = []
                for s, v in E.call_inst(i, [ptr(cell)], st, site.ctx + (("next", tag),)):
                    i2 = s.store.pop(cell, it)
                    out += [(z, i2, e if some_ else None) for z, some_, e in split_opt(E, s, v)]
                return out
        raise Unsupported("iterator type " + E.disp(tag))
    if tag == "RangeIter":
        out = []
        t, fl = E.branch(st, b_ge0(addc(sub(f[1], f[0]), -1)))
        for x in t:
            out.append((x, it_copy(it, (addc(f[0], 1), f[1])), f[0]))
        return out + [(x, it, None) for x in fl]
    if tag == "MapIter":
        kind, hashed, own, kty, vty = it.a[1]
        m, pos = f
        if E.opts.get("peel") and hashed and is_const(pos):
            r = known_item(E, st, m, cval(pos))
            if r is not None:
                out = []
                for x, kv in r:
                    if kv is None:
                        out.append((x, it, None))
                        continue
                    k, v = kv if own else (ref(kv[0]), ref(kv[1]))
                    out.append((x, it_copy(it, (m, addc(pos, 1))), {"keys": k, "values": v}.get(kind) or agg("tuple", None, (k, v))))
                return out
        n = ZERO if m.op == "mapnew" else sym(mk("mlen", m, ty=E.usize))
        out = []
        t, fl = E.branch(st, b_ge0(addc(sub(n, pos), -1)))
        for x in t:
            tagk = "hkey" if hashed else "okey"
            tagv = "hval" if hashed else "oval"
            k = E.opaque(mk(tagk, m, pos), kty)
            v = E.opaque(mk(tagv, m, pos), vty) if vty is not None else UNIT
            if vty is not None and E.is_seq_ty(vty) and map_nonempty(E, m, set()):
                E.add_ge(x, addc(seqlen(v), -1))
            if not own:
                k, v = ref(k), ref(v)
            item = {"keys": k, "values": v}.get(kind) or agg("tuple", None, (k, v))
            out.append((x, it_copy(it, (m, addc(pos, 1))), item))
        return out + [(x, it, None) for x in fl]
    if tag == "OSeqIter":
        t0, pos = f
        a = mk("imore", t0, pos)
        out = []
        t, fl = E.branch(st, a)
        for x in t:
            e = mk("ielem", t0, pos)
            v = ref(e)
            nm = it.a[1]
            if nm in ("char_indices", "match_indices"):
                base = t0.a[1][0]
                p = sym(mk("ipos", t0, pos, ty=E.usize))
                E.add_ge(x, addc(sub(seqlen(base), p), -1))
                x.atoms[mk("charb", base, p)] = True
                sec = sym(mk("ichar", t0, pos, ty=E.ty_by_disp.get("char"))) if nm == "char_indices" else ref(e)
                v = agg("tuple", None, (p, sec))
            elif nm == "find_iter":
                v = sym(mk("ipos", t0, pos, ty=E.usize))
                E.add_ge(x, sub(seqlen(t0.a[1][0]), v))
            elif nm == "windows":
                E.add_eq(x, sub(seqlen(e), t0.a[1][1]))
            # every item consumes input: bounded by length of the source
            E.add_ge(x, sub(addc(seqlen(t0.a[1][0]), 1), addc(pos, 1)))
            out.append((x, it_copy(it, (t0, addc(pos, 1))), v))
        return out + [(x, it, None) for x in fl]
    if tag == "Chars":
        s, pos = f
        out = []
        t, fl = E.branch(st, b_ge0(addc(sub(seqlen(s), pos), -1)))
        cty = E.ty_by_disp.get("char")
        for x in t:
            if s.op == "str" and is_const(pos):
                rest = s.a[0].encode()[cval(pos):].decode()
                c = rest[0]
                out.append((x, it_copy(it, (s, addc(pos, len(c.encode())))), const(ord(c))))
                continue
            c = sym(mk("charat", s, pos, ty=cty))
            e = E.elem(x, s, pos, E.u8)
            # ascii -> one byte equal to the char ; otherwise lead byte >= 0xC2 and 2..4 bytes
            for y in E.assume(x.copy(), b_ge0(addc(neg(c), 127)), True):
                if E.add_eq(y, sub(c, e)):
                    out.append((y, it_copy(it, (s, addc(pos, 1))), c))
            for y in E.assume(x, b_ge0(addc(neg(c), 127)), False):
                w = sym(mk("charw", s, pos, ty=E.usize))
                if E.add_ge(y, addc(w, -2)) and E.add_ge(y, addc(neg(w), 4)) and \
                        E.add_ge(y, sub(seqlen(s), add(pos, w))) and E.add_ge(y, addc(e, -0xC2)):
                    out.append((y, it_copy(it, (s, add(pos, w))), c))
        return out + [(x, it, None) for x in fl]
    if tag == "FromFn":
        out = []
        cell = ("fromfn", site.ctx)
        fv = f[0]
        if fv.op == "agg":
            st.store[cell] = fv
            call = ptr(cell)
        else:
            call = fv
        for s, v in E.call_value(st, call, [], site.ctx + (("from_fn",),), site):
            nf = s.store.pop(cell, fv)
            oty = v.a[0] if v.op == "agg" else v.ty
            gi = variant(E, oty, "Some")
            d = E.discr(s, v, oty)
            t, fl = E.branch(s, b_eq0(addc(d, -E.discr_of(oty, gi))))
            for x in t:
                out.append((x, agg("FromFn", None, (nf,)), E.field(x, v, gi, 0, opt_inner(E, oty))))
            for x in fl:
                out.append((x, agg("FromFn", None, (nf,)), None))
        return out
    if tag == "Successors":
        cur, fn = f
        oty = cur.a[0] if cur.op == "agg" else cur.ty
        gi = variant(E, oty, "Some")
        d = E.discr(st, cur, oty)
        t, fl = E.branch(st, b_eq0(addc(d, -E.discr_of(oty, gi))))
        out = [(x, it, None) for x in fl]
        for x in t:
            v = E.field(x, cur, gi, 0, opt_inner(E, oty))
            for s, nx in E.call_value(x, fn, [ref(v)], site.ctx + (("succ",),), site):
                out.append((s, it_copy(it, (nx, fn)), v))
        return out
    if tag == "Repeat":
        return [(st, it, f[0])]
    out = []
    if tag in ("Map", "Inspect"):
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
            else:
                for s2, clo, r in callmut(E, s, f[1], [v if tag == "Map" else ref(v)], site, tag):
                    out.append((s2, it_copy(it, (i2, clo)), r if tag == "Map" else v))
        return out
    if tag in ("Filter",):
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
                continue
            for s2, clo, r in callmut(E, s, f[1], [ref(v)], site, tag):
                t, fl = E.branch(s2, r)
                out += [(x, it_copy(it, (i2, clo)), v) for x in t] + [(x, it_copy(it, (i2, clo)), SKIP) for x in fl]
        return out
    if tag in ("FilterMap", "MapWhile"):
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
                continue
            for s2, clo, r in callmut(E, s, f[1], [v], site, tag):
                for s3, some_, val in split_opt(E, s2, r):
                    out.append((s3, it_copy(it, (i2, clo)), val if some_ else (SKIP if tag == "FilterMap" else None)))
        return out
    if tag in ("TakeWhile", "SkipWhile"):
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2,) + f[1:]), v))
                continue
            if tag == "SkipWhile" and len(f) > 2:
                out.append((s, it_copy(it, (i2,) + f[1:]), v))
                continue
            for s2, clo, r in callmut(E, s, f[1], [ref(v)], site, tag):
                t, fl = E.branch(s2, r)
                if tag == "TakeWhile":
                    out += [(x, it_copy(it, (i2, clo)), v) for x in t] + [(x, it_copy(it, (i2, clo)), None) for x in fl]
                else:
                    raise Unsupported("skip_while")
        return out
    if tag == "Enumerate":
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
            else:
                # count of items never exceeds usize::MAX (std documents the overflow only past that)
                out.append((s, it_copy(it, (i2, addc(f[1], 1))), agg("tuple", None, (f[1], v))))
        return out
    if tag == "Cloned":
        for s, i2, v in inext(E, st, f[0], site):
            out.append((s, it_copy(it, (i2,)), v if v is None or v is SKIP else E.deref_read(s, v)))
        return out
    if tag in ("Fuse",):
        for s, i2, v in inext(E, st, f[0], site):
            out.append((s, it_copy(it, (i2,)), v))
        return out
    if tag == "Peekable":
        if len(f) > 1:
            pk = f[1]
            return [(st, it_copy(it, (f[0],)), None if pk.op == "nopeek" else pk)]
        for s, i2, v in inext(E, st, f[0], site):
            out.append((s, it_copy(it, (i2,)), v))
        return out
    if tag == "Rev":
        b = f[0]
        if b.op == "agg" and b.a[0] == "SeqIter":
            s_, pos, end = b.a[2]
            mode, ety, root = b.a[1]
            t, fl = E.branch(st, b_ge0(addc(sub(end, pos), -1)))
            for x in t:
                i = addc(end, -1)
                if mode == "mut":
                    v = ptr(root.a[0], root.a[1] + (("e", i, ety),))
                else:
                    v = E.elem(x, s_, i, ety)
                    if mode == "ref":
                        v = ref(v)
                out.append((x, it_copy(it, (it_copy(b, (s_, pos, i)),)), v))
            return out + [(x, it, None) for x in fl]
        if b.op == "agg" and (b.a[0] == "RangeIter" or isinstance(b.a[0], int)):
            lo, hi = b.a[2][0], b.a[2][1]
            t, fl = E.branch(st, b_ge0(addc(sub(hi, lo), -1)))
            for x in t:
                out.append((x, it_copy(it, (it_copy(b, (lo, addc(hi, -1))),)), addc(hi, -1)))
            return out + [(x, it, None) for x in fl]
        if b.op == "agg" and b.a[0] in ("Map", "Filter", "Cloned", "FilterMap"):
            inner = agg(b.a[0], b.a[1], (agg("Rev", None, (b.a[2][0],)),) + b.a[2][1:])
            for s, i2, v in inext(E, st, inner, site):
                out.append((s, it_copy(it, (agg(b.a[0], b.a[1], (i2.a[2][0].a[2][0],) + i2.a[2][1:]),)), v))
            return out
        raise Unsupported("rev of " + str(b.a[0]))
    if tag == "Take":
        t, fl = E.branch(st, b_ge0(addc(f[1], -1)))
        out += [(x, it, None) for x in fl]
        for x in t:
            for s, i2, v in inext(E, x, f[0], site):
                out.append((s, it_copy(it, (i2, f[1] if v is SKIP else addc(f[1], -1))), v))
        return out
    if tag == "Skip":
        b = f[0]
        if b.op == "agg" and b.a[0] == "SeqIter":
            s_, pos, end = b.a[2]
            t, fl = E.branch(st, b_ge0(sub(sub(end, pos), f[1])))
            for x in t:
                out += inext(E, x, it_copy(b, (s_, add(pos, f[1]), end)), site)
            return out + [(x, it_copy(b, (s_, end, end)), None) for x in fl]
        t, fl = E.branch(st, b_ge0(addc(f[1], -1)))
        for x in fl:
            out += inext(E, x, b, site)
        for x in t:
            for s, i2, v in inext(E, x, b, site):
                if v is None or v is SKIP:
                    out.append((s, it_copy(it, (i2, f[1])), v))
                else:
                    out.append((s, it_copy(it, (i2, addc(f[1], -1))), SKIP))
        return out
    if tag == "Zip":
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
                continue
            for s2, j2, w in inext(E, s, f[1], site):
                if w is SKIP:
                    raise Unsupported("zip with filtering second iterator")
                out.append((s2, it_copy(it, (i2, j2)), None if w is None else agg("tuple", None, (v, w))))
        return out
    if tag == "Chain":
        if f[0].op == "chaindone":
            for s, i2, v in inext(E, st, f[1], site):
                out.append((s, it_copy(it, (f[0], i2)), v))
            return out
        for s, i2, v in inext(E, st, f[0], site):
            if v is None:
                for s2, j2, w in inext(E, s, f[1], site):
                    out.append((s2, it_copy(it, (mk("chaindone"), j2)), w))
            else:
                out.append((s, it_copy(it, (i2, f[1])), v))
        return out
    if tag == "Flatten":
        if f[1].op != "nofront":
            for s, i2, v in inext(E, st, f[1], site):
                if v is None:
                    out.append((s, it_copy(it, (f[0], mk("nofront"))), SKIP))
                else:
                    out.append((s, it_copy(it, (f[0], i2)), v))
            return out
        for s, i2, v in inext(E, st, f[0], site):
            if v is None or v is SKIP:
                out.append((s, it_copy(it, (i2, f[1])), v))
                continue
            w, byref = v, False
            while w.op in ("ref", "ptr"):
                w, byref = E.deref_read(s, w), True
            ty = w.a[0] if w.op == "agg" and isinstance(w.a[0], int) else w.ty
            if isinstance(ty, int) and E.short(ty) in ("Option", "Result") and not (byref and v.op == "ptr"):
                for s2, some_, val in split_opt(E, s, w):
                    out.append((s2, it_copy(it, (i2, f[1])), (ref(val) if byref else val) if some_ else SKIP))
                continue
            for s2, front in to_iter(E, s, v):
                out.append((s2, it_copy(it, (i2, front)), SKIP))
        return out
    raise Unsupported("iterator " + str(tag))


def to_iter(E, st, v):
    """IntoIterator of a value whose type is inferred from its shape"""
    byref = False
    w = v
    while w.op in ("ref", "ptr"):
        w = E.deref_read(st, w)
        byref = True
    if is_seq(w) or (w.op in ("phi", "elem", "vf", "sorted", "dedup", "call", "app", "mget", "mgetd", "hval", "oval")
                     and (w.ty is None or E.is_seq_ty(w.ty))):
        ety = None
        if w.ty is not None:
            t = E.types[w.ty]
            ety = t.get("el") or (t.get("args") or [None])[0]
        return [(st, seqiter(w, "ref" if byref else "own", ety))]
    ty = w.a[0] if w.op == "agg" and isinstance(w.a[0], int) else w.ty
    if ty is not None and E.short(ty) == "Option":
        return opt_iter(E, st, w, ty, byref)
    if ty is not None and E.short(ty) == "Result":
        out = []
        for s, g, x in split_res(E, st, w):
            out.append((s, seqiter(mkarr([x]) if g else EMPTY, "ref" if byref else "own", opt_inner(E, ty))))
        return out
    if w.op == "agg":
        return [(st, w)]
    raise Unsupported("flatten of " + show(v)[:60])


def split_opt(E, st, v):
    """[(state, is_some, payload)]"""
    ty = v.a[0] if v.op == "agg" else v.ty
    gi = variant(E, ty, "Some") if E.short(ty) == "Option" else variant(E, ty, "Ok")
    if v.op == "agg":
        return [(st, v.a[1] == gi, v.a[2][0] if v.a[1] == gi else None)]
    d = E.discr(st, v, ty)
    t, f = E.branch(st, b_eq0(addc(d, -E.discr_of(ty, gi))))
    return [(x, True, E.field(x, v, gi, 0, opt_inner(E, ty))) for x in t] + [(x, False, None) for x in f]


split_res = split_opt


def callmut(E, st, f, args, site, tag):
    """call an owned FnMut; returns (state, closure', result)"""
    if f.op == "agg" and isinstance(f.a[0], int) and E.tk(f.a[0]) == "closure" and f.a[2]:
        cell = ("fn", site.ctx, tag, f.a[0])
        st.store[cell] = f
        out = []
        for s, v in E.call_value(st, ptr(cell), args, site.ctx + ((tag, f.a[0]),), site):
            g = s.store.pop(cell, f)
            out.append((s, g, v))
        return out
    return [(s, f, v) for s, v in E.call_value(st, f, args, site.ctx + ((tag,),), site)]


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(E, st, inst, args, site, dty):
    if inst["local"]:
        return NotImplemented
    p = lptr(E, st, args[0])
    if inst["name"] == "next_back":
        it = E.deref_read(st, p)
        if it.op == "agg" and it.a[0] == "SeqIter":
            out = []
            for s, i2, v in inext(E, st, agg("Rev", None, (it,)), site):
                E.store_to(s, p, i2.a[2][0])
                out.append((s, none(E, dty) if v is None else some(E, dty, v)))
            return out
        if it.op == "agg" and it.a[0] == "Chars":
            return [(st, app(E, "next_back", (it,), dty))]
        raise Unsupported("next_back")
    return next_value(E, st, p, site, lambda s, v: [(s, none(E, dty) if v is None else some(E, dty, v))])


def next_value(E, st, p, site, fin):
    """explicit next(): loop over SKIP outcomes"""
    it = E.deref_read(st, p)
    p, it = normalise_iter(E, st, p, it)
    res = inext(E, st.copy(), it, site)
    if site.skip_ok or not any(v is SKIP for _, _, v in res):
        out = []
        for s, i2, v in inext(E, st, it, site):
            E.store_to(s, p, i2)
            out += [(s, SKIP)] if v is SKIP else fin(s, v)
        return out

    def step(s, tag=None):
        backs, exits = [], []
        it0 = E.deref_read(s, p)
        for s2, i2, v in inext(E, s, it0, tagsite(site, tag)):
            E.store_to(s2, p, i2)
            if v is SKIP:
                backs.append(s2)
            else:
                exits.append((v, s2))
        return backs, exits
    ex = E.run_loop(st, step, ("next", site.ctx.n), (site.fr.inst["path"], site.sp, site.ctx, site.fr))
    out = []
    for v, s in ex:
        out += fin(s, v)
    return out


def tagsite(site, tag):
    if tag is None:
        return site
    n = en.Site(site.fr, site.sp, site.ctx + (("u", tag),), site.bb)
    return n


def normalise_iter(E, st, p, it):
    if it is not None and (it.op == "RangeIncl" or it.op == "agg" and isinstance(it.a[0], int) and E.short(it.a[0]) == "RangeInclusive"):
        it = incl_iter(E, it)
        E.store_to(st, p, it)
    if it is None or it.op not in ("agg", "ptr"):
        raise Unsupported("next() on " + show(it)[:80])
    return p, it


@model("Peekable::peek")
def m_peek(E, st, inst, args, site, dty):
    p = lptr(E, st, args[0])
    it = E.deref_read(st, p)
    f = it.a[2]
    if len(f) > 1:
        v = f[1]
        return [(st, none(E, dty) if v.op == "nopeek" else some(E, dty, ref(v)))]
    out = []
    for s, i2, v in inext(E, st, f[0], site):
        if v is SKIP:
            raise Unsupported("peek over filter")
        E.store_to(s, p, it_copy(it, (i2, mk("nopeek") if v is None else v)))
        out.append((s, none(E, dty) if v is None else some(E, dty, ref(v))))
    return out


def consume(E, st, it, site, acc, body, done, name):
    """run a consumer: body(s, acc, item) -> [('back', s, acc) | ('exit', s, result)];
    done(s, acc) -> [(s, result)]"""
    ik, ak = ("it", site.ctx.n), ("acc", site.ctx.n)
    owned = True
    st.store[ik] = it
    if acc is not None:
        st.store[ak] = acc

    def step(s, tag=None):
        backs, exits = [], []
        sit = tagsite(site, tag)
        for s2, i2, v in inext(E, s, s.store[ik], sit):
            s2.store[ik] = i2
            if v is SKIP:
                backs.append(s2)
            elif v is None:
                exits.append((("done",), s2))
            else:
                for r in body(s2, s2.store.get(ak), v, sit):
                    if r[0] == "back":
                        if acc is not None:
                            r[1].store[ak] = r[2]
                        backs.append(r[1])
                    else:
                        exits.append((("exit", r[2]), r[1]))
        return backs, exits
    ex = E.run_loop(st, step, ("consume", name, site.ctx.n), (site.fr.inst["path"], site.sp, site.ctx, site.fr))
    out = []
    for tag, s in ex:
        a = s.store.pop(ak, None)
        s.store.pop(ik, None)
        if tag[0] == "done":
            out += done(s, a)
        else:
            out.append((s, tag[1]))
    return out


def source(E, st, a):
    """iterator argument: by value or &mut"""
    if a.op == "ptr":
        it = E.deref_read(st, a)
        while it is not None and it.op == "ptr":
            a, it = it, E.deref_read(st, it)
        return prep(E, it), a
    return prep(E, a), None


def with_source(E, st, a, run):
    it, p = source(E, st, a)
    if p is None:
        return run(st, it)
    return run(st, p)


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::count", "Iterator::for_each", "Iterator::last", "Extend::extend",
       "Iterator::unzip", "Iterator::partition")
def m_collect(E, st, inst, args, site, dty):
    nm = inst["name"]
    if nm == "extend":
        p = lptr(E, st, args[0])
        cur = E.deref_read(st, p)
        ity = targ(E, inst, len(inst["targs"]) - 1) if inst.get("targs") else None
        src = args[1]
        r = None
        if not (src.op == "agg" and isinstance(src.a[0], str)):
            its = to_iter(E, st, src)
        else:
            its = [(st, src)]
        out = []
        for s, it in its:
            def body(s2, acc, v, sit):
                q = E.deref_read(s2, p)
                E.store_to(s2, p, mkcat([q, mkarr([v])]) if not (q.op in ("mapnew", "mupd") or (q.ty is not None and E.short(q.ty) in MAPS))
                           else map_put(E, s2, q, v.a[2][0], v.a[2][1]))
                return [("back", s2, None)]
            # extending with a slice of copied elements is plain concatenation
            if it.op == "agg" and it.a[0] in ("SeqIter",) and it.a[1][0] in ("own", "ref") and it.a[2][1] is ZERO and it.a[2][2] is seqlen(it.a[2][0]):
                E.store_to(s, p, mkcat([cur, it.a[2][0]]))
                out.append((s, UNIT))
                continue
            if it.op == "agg" and it.a[0] == "Cloned" and it.a[2][0].a[0] == "SeqIter" and it.a[2][0].a[2][1] is ZERO:
                E.store_to(s, p, mkcat([cur, it.a[2][0].a[2][0]]))
                out.append((s, UNIT))
                continue
            out += consume(E, s, it, site, None, body, lambda s2, a: [(s2, UNIT)], "extend")
        return out
    if nm == "for_each":
        def body(s, acc, v, sit):
            return [("back", s2, c) for s2, c, _ in callmut(E, s, acc, [v], sit, "for_each")]
        return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, args[1], body, lambda s2, a: [(s2, UNIT)], nm))
    if nm == "count":
        def body(s, acc, v, sit):
            return [("back", s, addc(acc, 1))]
        return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, ZERO, body, lambda s2, a: [(s2, a)], nm))
    if nm in ("partition", "unzip"):
        def body(s, acc, v, sit):
            out = []
            if nm == "unzip":
                return [("back", s, agg("tuple", None, [mkcat([acc.a[2][i], mkarr([v.a[2][i]])]) for i in (0, 1)]))]
            for s2, c, r in callmut(E, s, args[1], [ref(v)], sit, "part"):
                t, f = E.branch(s2, r)
                for x in t:
                    out.append(("back", x, agg("tuple", None, (mkcat([acc.a[2][0], mkarr([v])]), acc.a[2][1]))))
                for x in f:
                    out.append(("back", x, agg("tuple", None, (acc.a[2][0], mkcat([acc.a[2][1], mkarr([v])])))))
            return out
        return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, agg("tuple", None, (EMPTY, EMPTY)), body,
                                                                lambda s2, a: [(s2, a)], nm))
    if nm == "last":
        def body(s, acc, v, sit):
            return [("back", s, some(E, dty, v))]
        return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, none(E, dty), body, lambda s2, a: [(s2, a)], nm))
    # collect
    sh = E.short(dty) if E.tk(dty) == "adt" else None
    a0 = args[0]
    if sh in ("Vec", "VecDeque", "Box", "String"):
        it0, p0 = source(E, st, a0)
        if p0 is None and sh != "String" and it0.op == "agg":
            # identity collections
            b = it0
            while b.op == "agg" and b.a[0] == "Cloned":
                b = b.a[2][0]
            if b.op == "agg" and b.a[0] == "SeqIter" and (it0 is not b or b.a[1][0] == "own"):
                s_, pos, end = b.a[2]
                return [(st, mksl(s_, pos, sub(end, pos)))]

        def body(s, acc, v, sit):
            if sh == "String":
                w = rd(E, s, v) if v.op == "ref" else v
                if w.op == "lin":
                    w = disp_of(E, w, E.ty_by_disp.get("char"))
                return [("back", s, mkcat([acc, w]))]
            E.event("collect", sit.ctx, s, value=v, site=site)
            return [("back", s, mkcat([acc, mkarr([v])]))]
        return with_source(E, st, a0, lambda s, it: consume(E, s, it, site, EMPTY, body, lambda s2, a: [(s2, a)], nm))
    if sh in MAPS:
        def body(s, acc, v, sit):
            k, w = (v, UNIT) if "Set" in sh else (v.a[2][0], v.a[2][1])
            E.event("mapinsert", sit.ctx, s, map=acc, key=k, value=w, site=site)
            return [("back", s, map_put(E, s, acc, k, w))]
        return with_source(E, st, a0, lambda s, it: consume(E, s, it, site, mk("mapnew", ty=dty), body, lambda s2, a: [(s2, a)], nm))
    if sh in ("Result", "Option"):
        inner = opt_inner(E, dty)
        ish = E.short(inner) if E.tk(inner) == "adt" else None

        def body(s, acc, v, sit):
            out = []
            for s2, g, x in split_opt(E, s, v):
                if g:
                    if ish in MAPS:
                        out.append(("back", s2, map_put(E, s2, acc, x.a[2][0], x.a[2][1])))
                    else:
                        out.append(("back", s2, mkcat([acc, mkarr([x])])))
                else:
                    out.append(("exit", s2, err(E, dty) if sh == "Result" else none(E, dty)))
            return out
        init = mk("mapnew", ty=inner) if ish in MAPS else EMPTY
        fin = (lambda s2, a: [(s2, ok(E, dty, a))]) if sh == "Result" else (lambda s2, a: [(s2, some(E, dty, a))])
        return with_source(E, st, a0, lambda s, it: consume(E, s, it, site, init, body, fin, nm))
    raise Unsupported("collect into " + E.disp(dty))


@model("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition")
def m_anyfind(E, st, inst, args, site, dty):
    nm = inst["name"]

    def body(s, acc, v, sit):
        out = []
        argv = ref(v) if nm == "find" else v
        clo = acc.a[2][0]
        for s2, c, r in callmut(E, s, clo, [argv], sit, nm):
            cnt = acc.a[2][1]
            nxt = agg("tuple", None, (c, addc(cnt, 1) if nm == "position" else cnt))
            if nm == "find_map":
                for s3, g, x in split_opt(E, s2, r):
                    out.append(("exit", s3, some(E, dty, x)) if g else ("back", s3, nxt))
                continue
            t, f = E.branch(s2, r if nm != "all" else b_not(r))
            for x in t:
                res = {"any": TRUE, "all": FALSE}.get(nm)
                if res is None:
                    res = some(E, dty, v if nm == "find" else cnt)
                out.append(("exit", x, res))
            for x in f:
                out.append(("back", x, nxt))
        return out

    def done(s, a):
        return [(s, {"any": FALSE, "all": TRUE}.get(nm) if nm in ("any", "all") else none(E, dty))]
    return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, agg("tuple", None, (args[1], ZERO)), body, done, nm))


@model("Iterator::fold", "Iterator::try_fold", "Iterator::reduce")
def m_fold(E, st, inst, args, site, dty):
    nm = inst["name"]
    if nm != "fold":
        raise Unsupported(nm)

    def body(s, acc, v, sit):
        return [("back", s2, agg("tuple", None, (r, c))) for s2, c, r in callmut(E, s, acc.a[2][1], [acc.a[2][0], v], sit, nm)]
    return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, agg("tuple", None, (args[1], args[2])), body,
                                                            lambda s2, a: [(s2, a.a[2][0])], nm))


@model("Iterator::sum", "Iterator::product")
def m_sum(E, st, inst, args, site, dty):
    if E.tk(dty) != "int" or inst["name"] != "sum":
        it, p = source(E, st, args[0])
        return [(st, app(E, inst["name"], (E.freeze(st, it),), dty))]

    def body(s, acc, v, sit):
        x = rd(E, s, v)
        n = add(acc, x)
        site.fr.st = s
        good = E.fits(s, n, dty)
        if not good and E.types[dty]["bits"] >= 32:
            lo, hi = E.bounds(s, x)
            if lo is not None and hi is not None and -(1 << 34) <= lo and hi <= 1 << 34:
                good = max(abs(lo), abs(hi)) * (1 << 29) < (1 << (E.types[dty]["bits"] - 1))
        E.obligation(site.fr, site.sp, "overflow", good, "sum of %s may overflow: %s" % (E.disp(dty), show(x)),
                     acc=not good and E.grows(s, n, dty))
        a, b = tm.RANGE_OF_TY[dty]
        if not (E.add_ge(s, addc(n, -a)) and E.add_ge(s, addc(neg(n), b))):
            return []
        return [("back", s, n)]
    return with_source(E, st, args[0], lambda s, it: consume(E, s, it, site, ZERO, body, lambda s2, a: [(s2, a)], "sum"))


@model("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by")
def m_itmax(E, st, inst, args, site, dty):
    nm = inst["name"]
    ity = opt_inner(E, dty)
    if nm in ("max", "min") and (E.tk(ity) == "int" or E.tk(ity) == "ref" and E.tk(E.types[ity]["to"]) == "int"):
        def fold(s, acc, v, sit):
            out = []
            for s2, g, cur in split_opt(E, s, acc):
                if not g:
                    out.append(("back", s2, some(E, dty, v)))
                    continue
                x, y = (rd(E, s2, cur), rd(E, s2, v)) if E.tk(ity) == "ref" else (cur, v)
                t, f = E.branch(s2, b_ge0(sub(y, x)) if nm == "max" else b_ge0(addc(sub(x, y), -1)))
                out += [("back", z, some(E, dty, v)) for z in t] + [("back", z, acc) for z in f]
            return out
        return with_source(E, st, args[0], lambda s, i: consume(E, s, i, site, none(E, dty), fold, lambda s2, a: [(s2, a)], nm))
    if E.opts.get("peel") and len(args) > 1:
        return extremum(E, st, nm, args, site, dty)
    it, p = source(E, st, args[0])
    E.event("extremum", site.ctx, st, name=nm, it=E.freeze(st, it), site=site)
    res = app(E, nm, [E.freeze(st, it)] + [E.freeze(st, x) for x in args[1:]], dty)
    ity = opt_inner(E, dty)
    # visit one generic element so that closure bodies are analysed

    def body(s, acc, v, sit):
        if len(args) > 1 and nm.endswith("_key"):
            return [("back", s2, c) for s2, c, _ in callmut(E, s, acc, [ref(v)], sit, nm)]
        if len(args) > 1:
            return [("back", s2, c) for s2, c, _ in callmut(E, s, acc, [ref(v), ref(v)], sit, nm)]
        return [("back", s, acc)]
    acc0 = args[1] if len(args) > 1 else UNIT
    return with_source(E, st, args[0], lambda s, i: consume(E, s, i, site, acc0, body, lambda s2, a: [(s2, res)], nm))


def extremum(E, st, nm, args, site, dty):
    """round by round: of equal elements the last is the maximum and the first the minimum"""
    def rank(s, k):
        while k.op in ("ref", "ptr"):
            k = E.deref_read(s, k)
        if k.op == "agg" and isinstance(k.a[0], int) and E.short(k.a[0]) == "Reverse":
            k = rank(s, k.a[2][0])
            return None if k is None else neg(k)
        if k.op == "lin":
            return k
        return dur_ns(E, k)

    def later(s, acc, best, x, v, f):
        """[(state, closure, is the later one taken, its key)]"""
        if nm.endswith("_key"):
            out = []
            for s2, g, k in callmut(E, s, f, [ref(v)], site, nm):
                r = rank(s2, k)
                if r is None:
                    raise Unsupported(nm)
                if best is None:
                    out.append((s2, g, True, r))
                    continue
                t, e = E.branch(s2, b_ge0(sub(r, best)) if nm == "max_by_key" else b_ge0(addc(sub(best, r), -1)))
                out += [(z, g, True, r) for z in t] + [(z, g, False, r) for z in e]
            return out
        if x is None:
            return [(s, f, True, ZERO)]
        out = []
        for s2, g, o in callmut(E, s, f, [ref(x), ref(v)], site, nm):
            oty = o.ty if o.op != "agg" else o.a[0]
            gt = b_eq0(addc(E.discr(s2, o, oty), -1))
            t, e = E.branch(s2, gt)
            take = nm == "min_by"
            out += [(z, g, take, ZERO) for z in t] + [(z, g, not take, ZERO) for z in e]
        return out

    def fold(s, acc, v, sit):
        x, best, f = acc.a[2]
        got = x is not UNIT
        return [("back", z, agg("tuple", None, (v, k, g) if take else (x, best, g)))
                for z, g, take, k in later(s, acc, best if got else None, x if got else None, v, f)]
    acc0 = agg("tuple", None, (UNIT, ZERO, args[1]))
    return with_source(E, st, args[0], lambda s, i: consume(E, s, i, site, acc0, fold, lambda s2, a: [
        (s2, none(E, dty) if a.a[2][0] is UNIT else some(E, dty, a.a[2][0]))], nm))


@model("Iterator::nth")
def m_nth(E, st, inst, args, site, dty):
    it, p = source(E, st, args[0])
    if it.op == "agg" and it.a[0] == "SeqIter" and p is not None:
        s_, pos, end = it.a[2]
        i = add(pos, args[1])
        ety = it.a[1][1]

        def good(x):
            v = E.elem(x, s_, i, ety)
            E.store_to(x, p, it_copy(it, (s_, addc(i, 1), end)))
            return [(x, some(E, dty, ref(v) if it.a[1][0] == "ref" else v))]

        def bad(x):
            E.store_to(x, p, it_copy(it, (s_, end, end)))
            return [(x, none(E, dty))]
        return branch2(E, st, b_ge0(addc(sub(end, i), -1)), good, bad)
    if it.op == "agg" and it.a[0] in ("Chars", "OSeqIter"):
        v = app(E, "nth", (it, args[1]), dty)
        return [(st, v)]
    raise Unsupported("nth")


@model("Iterator::size_hint", "ExactSizeIterator::len")
def m_itlen(E, st, inst, args, site, dty):
    it = rd(E, st, args[0])
    if inst["name"] == "len" and it.op == "agg" and it.a[0] == "SeqIter":
        return [(st, sub(it.a[2][2], it.a[2][1]))]
    return [(st, app(E, inst["name"], (E.freeze(st, it),), dty))]


# ------------------------------------------------------------------ chars
@model("char::is_ascii_digit", "char::is_numeric", "char::is_alphabetic", "char::is_alphanumeric", "char::is_whitespace", "char::is_ascii",
       "u8::is_ascii_digit", "u8::is_ascii", "char::is_ascii_alphabetic", "u8::is_ascii_whitespace", "char::is_ascii_uppercase", "u8::is_ascii_uppercase",
       "u8::is_ascii_alphabetic", "u8::is_ascii_alphanumeric", "char::is_ascii_alphanumeric", "char::is_ascii_graphic", "u8::is_ascii_graphic")
def m_charpred(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    nm = inst["name"]
    if v.op == "lin":
        if nm == "is_ascii_digit":
            return [(st, b_and(b_ge0(addc(v, -48)), b_ge0(addc(neg(v), 57))))]
        if nm == "is_ascii":
            return [(st, b_ge0(addc(neg(v), 127)))]
    return [(st, mk("cpred", nm, v))]


@model("str::is_ascii", "slice::is_ascii", "ByteSlice::is_ascii")
def m_isascii(E, st, inst, args, site, dty):
    return [(st, mk("ascii", rd(E, st, args[0])))]


@model("char::len_utf8")
def m_lenutf8(E, st, inst, args, site, dty):
    v = args[0]
    return branch2(E, st, b_ge0(addc(neg(v), 127)), lambda s: [(s, ONE)],
                   lambda s: [(s, _w(E, s, v))])


def _w(E, s, v):
    w = sym(mk("lenutf8", v, ty=E.usize))
    E.add_ge(s, addc(w, -2))
    E.add_ge(s, addc(neg(w), 4))
    return w


# vec! support
@model("Box::new_uninit", "boxed::box_new", "Box::<T>::new_uninit")
def m_newuninit(E, st, inst, args, site, dty):
    cell = ("box", site.ctx.n)
    st.store[cell] = mk("uninit")
    return [(st, ptr(cell))]


@model("boxed::box_assume_init_into_vec_unsafe", "std::boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "Box::assume_init")
def m_boxvec(E, st, inst, args, site, dty):
    a = args[0]
    if a.op == "ptr":
        v = E.deref_read(st, a)
        if isinstance(a.a[0], tuple) and a.a[0][0] == "box" and not a.a[1]:
            st.store.pop(a.a[0], None)
        return [(st, v)]
    return [(st, a)]


@model("vec::from_elem", "std::vec::from_elem", "slice::repeat")
def m_fromelem(E, st, inst, args, site, dty):
    if len(args) == 2 and is_const(args[1]) and cval(args[1]) <= 64 and inst["name"] == "from_elem":
        return [(st, mkarr([args[0]] * cval(args[1])))]
    return [(st, mk("rep", args[0], args[1]))]


# intrinsics / misc
@model("intrinsics::discriminant_value", "mem::discriminant", "std::mem::discriminant", "core::mem::discriminant", "std::intrinsics::discriminant_value")
def m_discr(E, st, inst, args, site, dty):
    v = rd(E, st, args[0])
    ty = targ(E, inst)
    d = E.discr(st, v, ty)
    if E.tk(dty) == "adt":
        return [(st, agg(dty, 0, (d,)))]
    return [(st, d)]


@model("intrinsics::three_way_compare", "std::intrinsics::three_way_compare")
def m_twc(E, st, inst, args, site, dty):
    return [(st, three_way(E, st, args[0], args[1], dty))]


@model("intrinsics::ub_checks", "intrinsics::likely", "intrinsics::unlikely", "intrinsics::cold_path", "hint::unreachable_unchecked", "intrinsics::assume")
def m_intr(E, st, inst, args, site, dty):
    if inst["name"] in ("likely", "unlikely"):
        return [(st, args[0])]
    if inst["name"] == "ub_checks":
        return [(st, FALSE)]
    return [(st, UNIT)]


@model("chrono::DateTime::parse_from_str", "DateTime::parse_from_str", "NaiveDateTime::parse_from_str")
def m_chronoparse(E, st, inst, args, site, dty):
    s, f = rd(E, st, args[0]), rd(E, st, args[1])
    c = mk("parses", s, ("chrono", f, inst["path"]))
    inner = opt_inner(E, dty)
    return branch2(E, st, c, lambda x: [(x, ok(E, dty, app(E, "chrono_parse", (s, f), inner)))], lambda x: [(x, err(E, dty))])


for n in ("DateTime::to_utc", "DateTime::with_timezone", "DateTime::naive_utc", "TimeZone::timestamp_opt", "DateTime::from_timestamp",
          "NaiveDateTime::and_utc", "DateTime::timestamp"):
    MODELS[n] = total(n)


@model("array::map", "array::each_ref", "array::from_fn")
def m_arraymap(E, st, inst, args, site, dty):
    t = E.types[dty]
    n = t.get("len")
    if t["k"] != "array" or not isinstance(n, int) or n > 32:
        return NotImplemented
    if inst["name"] == "from_fn":
        vs, f = [const(i) for i in range(n)], args[0]
    else:
        a = rd(E, st, args[0]) if args[0].op in ("ref", "ptr") else args[0]
        ety = targ(E, inst) if inst["name"] == "map" else E.types[t["el"]]["to"]
        vs = [E.elem(st, a, const(i), ety) for i in range(n)]
        if inst["name"] == "each_ref":
            return [(st, mkarr([ref(v) for v in vs]))]
        f = args[1]
    work, out = [(st, f, [])], []
    while work:
        s, g, have = work.pop()
        if len(have) == n:
            out.append((s, mkarr(have)))
            continue
        for s2, g2, v in callmut(E, s, g, [vs[len(have)]], site, ("map", len(have))):
            work.append((s2, g2, have + [v]))
    return out


@model("LocalResult::single", "LocalResult::earliest", "LocalResult::latest", "MappedLocalTime::single", "MappedLocalTime::earliest", "MappedLocalTime::latest")
def m_localresult(E, st, inst, args, site, dty):
    v = rd(E, st, args[0]) if args[0].op in ("ref", "ptr") else args[0]
    ty = v.a[0] if v.op == "agg" else v.ty
    if not isinstance(ty, int) or E.tk(ty) != "adt" or E.types[ty]["adt"] != "enum":
        return NotImplemented
    out = []
    d = E.discr(st, v, ty)
    rest = [st]
    for name, pick in (("Single", 0), ("Ambiguous", {"earliest": 0, "latest": 1}.get(inst["name"]))):
        i = variant(E, ty, name)
        nxt = []
        for s in rest:
            t, f = E.branch(s, b_eq0(addc(d, -E.discr_of(ty, i))))
            out += [(z, none(E, dty) if pick is None else some(E, dty, E.field(z, v, i, pick, opt_inner(E, dty)))) for z in t]
            nxt += f
        rest = nxt
    return out + [(s, none(E, dty)) for s in rest]

"""Symbolic values, heap objects and operations on them."""
from .terms import *
from .ctx import NeedSplit


class Unsupported(Exception):
    pass


class V:
    __slots__ = ()

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%s" % (s, getattr(self, s)) for s in self.__slots__))


def _vclass(name, fields, defaults=()):
    ns = {"__slots__": tuple(fields)}
    nd = len(fields) - len(defaults)

    def __init__(self, *a, **k):
        for i, f in enumerate(fields):
            if i < len(a):
                object.__setattr__(self, f, a[i])
            elif f in k:
                object.__setattr__(self, f, k[f])
            else:
                object.__setattr__(self, f, defaults[i - nd])

    def rep(self, **k):
        d = {f: getattr(self, f) for f in fields}
        d.update(k)
        return cls(**d)
    ns["__init__"] = __init__
    ns["rep_"] = rep
    cls = type(name, (V,), ns)
    return cls


class _Nil(V):
    def __repr__(self):
        return "nil"


NIL = _Nil()


class _Any(V):
    """in a contract's result: the value of this location is left unspecified"""
    def __repr__(self):
        return "any"


ANY = _Any()

# external (immutable) math object: kind Zr G1 G2 Gt Ml Big; f: F term (Zr/G*), rep: exact integer or None
M = _vclass("M", ["kind", "f", "canon", "rep", "nilc"], [True, None, FALSE])
Ptr = _vclass("Ptr", ["ref", "path"], [()])
SliceV = _vclass("SliceV", ["ref", "off", "n"])
StructV = _vclass("StructV", ["t", "f"])         # f: dict
ArrV = _vclass("ArrV", ["v"])                    # fixed array value: tuple
Iface = _vclass("Iface", ["t", "v", "nilc"], [FALSE])
ErrV = _vclass("ErrV", ["tag"])
ErrC = _vclass("ErrC", ["c"])                   # an error iff c, else nil
Clo = _vclass("Clo", ["fn", "bind"], [()])
PyFn = _vclass("PyFn", ["f"])
Tup = _vclass("Tup", ["v"])
MapP = _vclass("MapP", ["ref", "nilc"], [FALSE])
Curve = _vclass("Curve", ["i"])
Opq = _vclass("Opq", ["t"])
IterV = _vclass("IterV", ["ref", "o", "enum"])
NILSLICE = SliceV(None, ZERO, ZERO)

# heap objects
Cell = _vclass("Cell", ["kind", "f", "canon", "rep", "own"], [True, None, True])
Var = _vclass("Var", ["v", "t", "own"], [True])
HObj = _vclass("HObj", ["s", "key"], [None])
Buf = _vclass("Buf", ["s"])
# arrays: et element type; n length; s: byte content or None; base: function Lam | ('zero',et); layers: ((kind, ...),...)
AObj = _vclass("AObj", ["et", "n", "s", "base", "layers", "own", "app"], [True, False])
Lam = _vclass("Lam", ["var", "v"])               # value template over int symbol var
MapObj = _vclass("MapObj", ["kt", "et", "has", "val", "upd", "own", "card"], [(), True, None])
# has: Lam -> B term ; val: Lam -> value ; upd: ((key, value, condition), ...) newest last


HEAPCLS = (Cell, Var, HObj, Buf, AObj, MapObj)


def lam(f, var=None):
    v = var or fresh("e")
    return Lam(v, f(isym(v)))


def lam_at(l, idx):
    return vsubst(l.v, {l.var: as_i(idx)})


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, M):
        f = subst(v.f, m) if v.f is not None else None
        r = subst(v.rep, m) if v.rep is not None else None
        n = subst(v.nilc, m)
        if f is v.f and r is v.rep and n is v.nilc:
            return v
        return M(v.kind, f, v.canon, r, n)
    if isinstance(v, SliceV):
        ref = osubst(v.ref, m)
        return SliceV(ref, subst(v.off, m), subst(v.n, m))
    if isinstance(v, StructV):
        return StructV(v.t, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV(tuple(vsubst(x, m) for x in v.v))
    if isinstance(v, Tup):
        return Tup(tuple(vsubst(x, m) for x in v.v))
    if isinstance(v, Iface):
        return Iface(v.t, vsubst(v.v, m), subst(v.nilc, m))
    if isinstance(v, Ptr):
        return Ptr(osubst(v.ref, m), tuple(subst(p, m) if isinstance(p, T) else p for p in v.path))
    if isinstance(v, MapP):
        return MapP(osubst(v.ref, m), subst(v.nilc, m))
    if isinstance(v, Clo):
        return Clo(v.fn, tuple(vsubst(x, m) for x in v.bind))
    if isinstance(v, ErrC):
        return ErrC(subst(v.c, m))
    if isinstance(v, Opq) and isinstance(v.t, T):
        return Opq(subst(v.t, m))
    return v


def osubst(o, m):
    if isinstance(o, AObj):
        return AObj(o.et, subst(o.n, m), subst(o.s, m) if o.s is not None else None,
                    Lam(o.base.var, vsubst(o.base.v, {k: x for k, x in m.items() if k != o.base.var})) if isinstance(o.base, Lam) else o.base,
                    tuple(lsubst(l, m) for l in o.layers), o.own, o.app)
    if isinstance(o, Var):
        return Var(vsubst(o.v, m), o.t, o.own)
    if isinstance(o, Cell):
        return Cell(o.kind, subst(o.f, m) if o.f is not None else None, o.canon, subst(o.rep, m) if o.rep is not None else None, o.own)
    if isinstance(o, MapObj):
        s = lambda l: Lam(l.var, vsubst(l.v, {k: x for k, x in m.items() if k != l.var}))
        return MapObj(o.kt, o.et, s(o.has), s(o.val), tuple((vsubst(k, m), vsubst(x, m), subst(c, m)) for k, x, c in o.upd), o.own, subst(o.card, m) if o.card is not None else None)
    if isinstance(o, (HObj, Buf)):
        return o.rep_(s=subst(o.s, m))
    return o


def lsubst(l, m):
    if l[0] == "pt":
        return ("pt", subst(l[1], m), vsubst(l[2], m))
    if l[0] == "rng":
        b = l[3]
        return ("rng", subst(l[1], m), subst(l[2], m), Lam(b.var, vsubst(b.v, {k: x for k, x in m.items() if k != b.var})))
    raise Unsupported(l[0])


def vfree(v):
    """free integer/field symbol names of a value (inline objects included)"""
    if isinstance(v, T):
        return v.fv
    if isinstance(v, M):
        r = v.nilc.fv
        if v.f is not None:
            r = r | v.f.fv
        if v.rep is not None:
            r = r | v.rep.fv
        return r
    if isinstance(v, SliceV):
        return v.off.fv | v.n.fv | ofree(v.ref)
    if isinstance(v, StructV):
        return frozenset().union(*[vfree(x) for x in v.f.values()]) if v.f else EMPTY
    if isinstance(v, (ArrV, Tup)):
        return frozenset().union(*[vfree(x) for x in v.v]) if v.v else EMPTY
    if isinstance(v, Iface):
        return vfree(v.v) | v.nilc.fv
    if isinstance(v, Ptr):
        return ofree(v.ref) | frozenset().union(*[p.fv for p in v.path if isinstance(p, T)]) if v.path else ofree(v.ref)
    if isinstance(v, MapP):
        return ofree(v.ref) | v.nilc.fv
    if isinstance(v, Clo):
        return frozenset().union(*[vfree(x) for x in v.bind]) if v.bind else EMPTY
    if isinstance(v, ErrC):
        return v.c.fv
    if isinstance(v, Opq) and isinstance(v.t, T):
        return v.t.fv
    return EMPTY


def errcond(v):
    return v.c if isinstance(v, ErrC) else TRUE if isinstance(v, ErrV) else FALSE if v is NIL else None


def ofree(o):
    if isinstance(o, AObj):
        r = o.n.fv
        if o.s is not None:
            r = r | o.s.fv
        if isinstance(o.base, Lam):
            r = r | (vfree(o.base.v) - {o.base.var})
        for l in o.layers:
            if l[0] == "pt":
                r = r | l[1].fv | vfree(l[2])
            else:
                r = r | l[1].fv | l[2].fv | (vfree(l[3].v) - {l[3].var})
        return r
    if isinstance(o, Var):
        return vfree(o.v)
    if isinstance(o, Cell):
        return (o.f.fv if o.f is not None else EMPTY) | (o.rep.fv if o.rep is not None else EMPTY)
    if isinstance(o, (HObj, Buf)):
        return o.s.fv
    if isinstance(o, MapObj):
        r = (vfree(o.has.v) - {o.has.var}) | (vfree(o.val.v) - {o.val.var})
        for k, x, c in o.upd:
            r = r | vfree(k) | vfree(x) | c.fv
        return r
    return EMPTY


# ---------------------------------------------------------------- math values
Qi = I(Q)


def zint(z):
    """exact integer represented by a Zr value, or None"""
    if z.rep is not None:
        return z.rep
    if z.canon:
        if z.f.op == "fconst":
            return I(z.f.args[0])
        return mk("iapp", ("toint", z.f), "I")
    return None


def zr(f, rep=None):
    return M("Zr", f, True, rep)


def ite_val(c, a, b, ctx, st=None):
    """merge two values under condition c (raises NeedSplit if not mergeable)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == "I":
            return iite(c, a, b)
        if a.sort == "B":
            return bite(c, a, b)
        if a.sort == "S":
            return site(c, a, b)
        if a.sort == "F":
            return fite(c, a, b)
    if isinstance(a, ErrC) or isinstance(b, ErrC):
        x, y = errcond(a), errcond(b)
        if x is not None and y is not None:
            return ErrC(bite(c, x, y))
    if st is not None:
        a2, b2 = st.snap(a), st.snap(b)
        if a2 is not a or b2 is not b:
            return ite_val(c, a2, b2, ctx)
    if isinstance(a, M) and isinstance(b, M):
        if a.nilc is TRUE and b.nilc is TRUE:
            return a
        if a.nilc is TRUE:
            return M(b.kind, b.f, b.canon, b.rep, bite(c, TRUE, b.nilc))
        if b.nilc is TRUE:
            return M(a.kind, a.f, a.canon, a.rep, bite(c, a.nilc, TRUE))
        if a.kind == b.kind:
            r = iite(c, a.rep, b.rep) if a.rep is not None and b.rep is not None else None
            return M(a.kind, fite(c, a.f, b.f) if a.f is not None else None, a.canon and b.canon, r, bite(c, a.nilc, b.nilc))
    if a is NIL and isinstance(b, M):
        return M(b.kind, b.f, b.canon, b.rep, bite(c, TRUE, b.nilc))
    if b is NIL and isinstance(a, M):
        return M(a.kind, a.f, a.canon, a.rep, bite(c, a.nilc, TRUE))
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.v) == len(b.v):
        return ArrV(tuple(ite_val(c, x, y, ctx) for x, y in zip(a.v, b.v)))
    if isinstance(a, StructV) and isinstance(b, StructV) and a.f.keys() == b.f.keys():
        return StructV(a.t, {k: ite_val(c, a.f[k], b.f[k], ctx) for k in a.f})
    if isinstance(a, Iface) and isinstance(b, Iface) and a.t == b.t:
        return Iface(a.t, ite_val(c, a.v, b.v, ctx), bite(c, a.nilc, b.nilc))
    if a is NIL and isinstance(b, Iface):
        return Iface(b.t, b.v, bite(c, TRUE, b.nilc))
    if b is NIL and isinstance(a, Iface):
        return Iface(a.t, a.v, bite(c, a.nilc, TRUE))
    if isinstance(a, ErrV) and isinstance(b, ErrV):
        return a
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if a.ref is b.ref:
            return SliceV(a.ref, iite(c, a.off, b.off), iite(c, a.n, b.n))
        if a.ref is not None and b.ref is not None and isinstance(a.ref, AObj) and isinstance(b.ref, AObj):
            if a.ref.s is not None and b.ref.s is not None and a.off is ZERO and b.off is ZERO:
                return SliceV(AObj(a.ref.et, iite(c, a.n, b.n), site(c, a.ref.s, b.ref.s), None, (), False), ZERO, iite(c, a.n, b.n))
            if a.ref.s is None and b.ref.s is None:
                k = fresh("e")
                x = aget(ctx, a.ref, iadd(a.off, isym(k)))
                y = aget(ctx, b.ref, iadd(b.off, isym(k)))
                return SliceV(AObj(a.ref.et, iite(c, a.n, b.n), None, Lam(k, ite_val(c, x, y, ctx)), (), False), ZERO, iite(c, a.n, b.n))
    if isinstance(a, Opq) and isinstance(b, Opq) and (a.t is b.t or not isinstance(a.t, T) and a.t == b.t):
        return a
    raise NeedSplit(c)


def aget(ctx, a, idx, lvl=None, st=None):
    """element idx of array object a (idx known in range)"""
    if a.s is not None:
        return sget(ctx, a.s, idx)
    n = len(a.layers) if lvl is None else lvl
    while n > 0:
        l = a.layers[n - 1]
        if l[0] == "pt":
            c = eq(l[1], idx)
            d = ctx.decide(c)
            if d is True:
                return l[2]
            if d is None:
                return ite_val(c, l[2], aget(ctx.assume(Not(c)), a, idx, n - 1, st), ctx, st)
        else:
            c = And(le(l[1], idx), lt(idx, l[2]))
            d = ctx.decide(c)
            if d is True:
                return lam_at(l[3], idx)
            if d is None:
                return ite_val(c, lam_at(l[3], idx), aget(ctx.assume(Not(c)), a, idx, n - 1, st), ctx, st)
        n -= 1
    if a.base is None:
        raise Unsupported("read of unset array element")
    return lam_at(a.base, idx)


def sget(ctx, s, idx):
    if idx.op == "int" and s.op == "sconst":
        h = bytes.fromhex(s.args[0])
        if 0 <= idx.args[0] < len(h):
            return I(h[idx.args[0]])
    return mk("iapp", ("byteat", s, idx), "I")


def aput(a, idx, v):
    layers = a.layers
    # drop an older store at the syntactically same index
    layers = tuple(l for l in layers if not (l[0] == "pt" and l[1] is idx)) if all(l[0] == "pt" and (l[1] is idx or isub(l[1], idx).op == "int") for l in layers) else layers
    return a.rep_(layers=layers + (("pt", idx, v),))

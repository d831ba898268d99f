"""Provable equality of symbolic values."""
from .terms import *
from .ctx import NeedSplit
from . import norm
from .values import *


class Mismatch(Exception):
    pass


def veq(ctx, s1, v1, s2, v2, why=None, depth=0):
    """v1 (in state s1) provably equals v2 (in state s2) under ctx; raises NeedSplit if a case split is needed"""
    if why is None:
        why = []
    r = _veq(ctx, s1, v1, s2, v2, why, depth)
    return r


def _m(s, v):
    if isinstance(v, Ptr) and not v.path:
        o = v.ref if isinstance(v.ref, HEAPCLS) else s.obj(v.ref) if s is not None else None
        if isinstance(o, Cell):
            return M(o.kind, o.f, o.canon, o.rep)
    return v


def _obj(s, ref):
    return s.obj(ref) if s is not None else ref


def _veq(ctx, s1, v1, s2, v2, why, depth):
    if v1 is v2 and isinstance(v1, (T,)) or (v1 is NIL and v2 is NIL):
        return True
    if v1 is None and v2 is None:
        return True
    if v2 is ANY:
        return True
    if isinstance(v1, T) and isinstance(v2, T):
        if v1.sort != v2.sort:
            why.append("sorts differ")
            return False
        if v1.sort == "I":
            ok = ctx.proves(eq(v1, v2))
        elif v1.sort == "B":
            ok = beqv(ctx, v1, v2)
        elif v1.sort == "S":
            ok = norm.bytes_equal(ctx, v1, v2)
        else:
            ok = norm.field_equal(ctx, v1, v2)
        if not ok:
            why.append("%s  vs  %s" % (show(ctx.norm_int(v1) if v1.sort == "I" else v1)[:600], show(ctx.norm_int(v2) if v2.sort == "I" else v2)[:600]))
        return ok
    v1, v2 = _m(s1, v1), _m(s2, v2)
    if isinstance(v1, M) or isinstance(v2, M):
        n1 = v1.nilc if isinstance(v1, M) else (TRUE if v1 is NIL else None)
        n2 = v2.nilc if isinstance(v2, M) else (TRUE if v2 is NIL else None)
        if n1 is None or n2 is None:
            why.append("different kinds of value")
            return False
        if n1 is not FALSE or n2 is not FALSE:
            if not beqv(ctx, n1, n2):
                why.append("nil-ness differs")
                return False
            if ctx.proves(n1):
                return True
            ctx = ctx.assume(Not(n1))
            if ctx.inconsistent():
                return True
        if v1.kind != v2.kind:
            why.append("kind %s vs %s" % (v1.kind, v2.kind))
            return False
        if v1.kind == "Big":
            return _veq(ctx, s1, v1.rep, s2, v2.rep, why, depth)
        if v2.canon and not v1.canon:
            # v2 is the specification: it promises a reduced scalar
            if not (v1.rep is not None and ctx.proves(And(le(0, v1.rep), lt(v1.rep, Q)))):
                why.append("scalar not reduced")
                return False
        if norm.field_equal(ctx, v1.f, v2.f):
            return True
        why.append("%s  vs  %s" % (show(v1.f)[:800], show(v2.f)[:800]))
        return False
    if isinstance(v1, SliceV) and isinstance(v2, SliceV):
        if not ctx.proves(eq(v1.n, v2.n)):
            why.append("lengths %s vs %s" % (show(ctx.norm_int(v1.n)), show(ctx.norm_int(v2.n))))
            return False
        o1 = _obj(s1, v1.ref) if v1.ref is not None else None
        o2 = _obj(s2, v2.ref) if v2.ref is not None else None
        if ctx.proves(eq(v1.n, 0)):
            return True
        if o1 is None or o2 is None:
            return False
        if o1 is o2 and v1.off is v2.off:
            return True
        if o1.s is not None or o2.s is not None:
            b1, b2 = sbytes(ctx, o1, v1), sbytes(ctx, o2, v2)
            ok = norm.bytes_equal(ctx, b1, b2)
            if not ok:
                why.append("bytes %s  vs  %s" % (show(b1)[:500], show(b2)[:500]))
            return ok
        k = fresh("ix")
        s = isym(k)
        c2 = ctx.assume(le(0, s), lt(s, v1.n))
        if c2.inconsistent():
            return True
        c2 = c2.instantiate([s])

        def go(c):
            return _veq(c, s1, aget(c, o1, iadd(v1.off, s), None, s1), s2, aget(c, o2, iadd(v2.off, s), None, s2), why, depth + 1)
        return norm.split_prove(c2, go)
    if isinstance(v1, StructV) and isinstance(v2, StructV):
        if set(v1.f) != set(v2.f):
            raise Unsupported("the fields of %s are not those the contract knows" % v2.t)
        for k in v2.f:
            if not _veq(ctx, s1, v1.f[k], s2, v2.f[k], why, depth + 1):
                why.append("in field " + k)
                return False
        return True
    if isinstance(v1, (ArrV, Tup)) and isinstance(v2, (ArrV, Tup)) and len(v1.v) == len(v2.v):
        return all(_veq(ctx, s1, a, s2, b, why, depth + 1) for a, b in zip(v1.v, v2.v))
    if isinstance(v1, Ptr) and isinstance(v2, Ptr):
        if v1.ref is v2.ref and len(v1.path) == len(v2.path):
            return all((p is q) or (isinstance(p, T) and ctx.proves(eq(p, q))) for p, q in zip(v1.path, v2.path))
        if depth > 8:
            return False
        if v1.path or v2.path:
            return False
        o1, o2 = _obj(s1, v1.ref), _obj(s2, v2.ref)
        return oeq(ctx, s1, o1, s2, o2, why, depth + 1)
    if isinstance(v1, Iface) and v2 is NIL or v1 is NIL and isinstance(v2, Iface):
        n = v2.nilc if v1 is NIL else v1.nilc
        d = ctx.decide(n)
        if d is None:
            raise NeedSplit(n)
        return d
    if isinstance(v1, Iface) and isinstance(v2, Iface):
        return v1.t == v2.t and beqv(ctx, v1.nilc, v2.nilc) and _veq(ctx, s1, v1.v, s2, v2.v, why, depth + 1)
    if isinstance(v1, ErrV) and isinstance(v2, ErrV):
        return True
    if isinstance(v1, ErrC) or isinstance(v2, ErrC):
        x, y = errcond(v1), errcond(v2)
        return x is not None and y is not None and beqv(ctx, x, y)
    if isinstance(v1, Clo) and isinstance(v2, Clo):
        return v1.fn == v2.fn and len(v1.bind) == len(v2.bind) and all(_veq(ctx, s1, a, s2, b, why, depth + 1) for a, b in zip(v1.bind, v2.bind))
    if isinstance(v1, Opq) and isinstance(v2, Opq):
        if isinstance(v1.t, T) and isinstance(v2.t, T):
            return norm.bytes_equal(ctx, v1.t, v2.t) if v1.t.sort == "S" else v1.t is v2.t
        return v1.t == v2.t
    if isinstance(v1, MapP) and isinstance(v2, MapP):
        if v1.ref is v2.ref:
            return True
        return oeq(ctx, s1, _obj(s1, v1.ref), s2, _obj(s2, v2.ref), why, depth + 1)
    if isinstance(v1, MapP) and v2 is NIL or v1 is NIL and isinstance(v2, MapP):
        return False
    if isinstance(v1, PyFn) and v1 is v2:
        return True
    why.append("%s vs %s" % (type(v1).__name__ if v1 is not NIL else "nil", type(v2).__name__ if v2 is not NIL else "nil"))
    return False


def sbytes(ctx, o, v):
    from .vm import ssub, u8chunk
    if o.s is not None:
        return ssub(o.s, v.off, iadd(v.off, v.n), ctx)
    if v.n.op == "int" and v.n.args[0] <= 64:
        return scat(*[u8chunk(aget(ctx, o, iadd(v.off, i))) for i in range(v.n.args[0])])
    k = fresh("e")
    return smap(k, ZERO, v.n, u8chunk(aget(ctx.assume(le(0, isym(k)), lt(isym(k), v.n)), o, iadd(v.off, isym(k)))))


def oeq(ctx, s1, o1, s2, o2, why, depth=0):
    if o1 is o2:
        return True
    if type(o1) is not type(o2):
        why.append("object kinds")
        return False
    if isinstance(o1, Cell):
        return _veq(ctx, s1, M(o1.kind, o1.f, o1.canon, o1.rep), s2, M(o2.kind, o2.f, o2.canon, o2.rep), why, depth)
    if isinstance(o1, Var):
        return _veq(ctx, s1, o1.v, s2, o2.v, why, depth)
    if isinstance(o1, AObj):
        return _veq(ctx, s1, SliceV(o1, ZERO, o1.n), s2, SliceV(o2, ZERO, o2.n), why, depth)
    if isinstance(o1, (HObj, Buf)):
        return norm.bytes_equal(ctx, o1.s, o2.s)
    if isinstance(o1, MapObj):
        from .ext import map_get
        kt = "S" if o1.kt == "string" else "I"
        k = mk("sym", (fresh("key"),), kt)
        c2 = ctx.assume(le(0, k), lt(k, 1 << 16)) if kt == "I" else ctx

        def go(c):
            p1, w1 = map_get(c, o1, k)
            p2, w2 = map_get(c, o2, k)
            if not beqv(c, p1, p2):
                why.append("map keys: %s vs %s" % (show(p1), show(p2)))
                return False
            c3 = c.assume(p1)
            if p1 is FALSE or c3.inconsistent():
                return True
            return _veq(c3, s1, w1, s2, w2, why, depth + 1)
        return norm.split_prove(c2, go)
    return False


def beqv(ctx, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        c = ctx.assume(x)
        if c.inconsistent():
            continue
        idx = []
        if not proves_inst(c, y):
            return False
    return True


def proves_inst(c, y):
    if c.proves(y):
        return True
    # y negative with universally quantified facts: try to refute
    return refute(c.assume(Not(y)))


def refute(c, depth=0):
    """inconsistent, with witnesses for negated universal facts and instances of the universal ones"""
    if c.inconsistent():
        return True
    if depth > 5:
        return False
    ex = [f for f in c.facts if f.op == "not" and f.args[0].op == "forall"]
    if not ex and not c.foralls:
        return False
    new = []
    done = c.skolem
    for f in ex:
        if f not in done:
            var, lo, hi, body = f.args[0].args
            k = isym(fresh("sk"))
            new += [le(lo, k), lt(k, hi), Not(subst(body, {var: k}))]
    if new:
        c = c.assume(*new)
        c.skolem = done | frozenset(ex)
        return refute(c, depth + 1)
    syms = sorted({x for f in c.facts if f.op != "forall" and not (f.op == "not" and f.args[0].op == "forall") for x in subterms(f) if x.op == "sym" and x.sort == "I"}, key=lambda z: z.key)
    c2 = c.instantiate(syms)
    if c2 is not c and c2.inconsistent():
        return True
    sk = [s for s in syms if s.args[0].startswith("sk!")]
    for f in c.foralls:
        var, lo, hi, body = f.args
        for s in sk:
            r = And(le(lo, s), lt(s, hi))
            d = c2.decide(r)
            if d is True:
                continue
            b = c2.assume(Not(r))
            if d is None and not refute(c2.assume(r), depth + 1):
                return False
            if b.inconsistent():
                return True
            for e in (hi, isub(lo, 1)):
                if s.args[0] not in e.fv and b.proves(eq(s, e)):
                    from .ctx import Ctx
                    n = Ctx()
                    n.hooks, n.nonzero = dict(b.hooks), list(b.nonzero)
                    n = n.assume(*[subst(g, {s.args[0]: e}) for g in b.facts])
                    n.skolem = done
                    return refute(n, depth + 1)
            if d is None:
                return refute(b, depth + 1)
    return False

"""Assumed contracts of external functions (the trusted base).  Every entry is reported in the evidence."""
from .terms import *
from .values import *
from .ctx import NeedSplit, FN_AX
from . import norm
from . import vm as _vm

TAB = {}
USED = set()
ML = "github.com/IBM/mathlib."


def ext(*names):
    def d(f):
        for n in names:
            TAB[n] = f
        return f
    return d


def lookup(name):
    f = TAB.get(name)
    if f is not None:
        USED.add(name)
    elif name.endswith(".init"):
        return lambda vm, st, a: None
    return f


FN_AX["toint"] = lambda n: [le(0, n), lt(n, Q)]
FN_AX["byteat"] = lambda n: [le(0, n), le(n, 255)]
FN_AX["bitlen"] = lambda n: [le(0, n), Implies(eq(n.args[1], 0), eq(n, 0)), Implies(le(0, n.args[1]), lt(n.args[1], ipow(I(2), n))),
                             Implies(lt(0, n.args[1]), And(le(1, n), le(ipow(I(2), isub(n, 1)), n.args[1])))]
FN_AX["u64be"] = lambda n: [le(0, n), lt(n, 1 << 64)]

GEN = {"GenG1": M("G1", F1), "GenG2": M("G2", F1), "GenGt": M("Gt", F1), "GroupOrder": M("Zr", F0, False, I(Q))}


def curve_field(c, f):
    if c.i is not ONE:
        raise Unsupported("curve other than number 1")
    if f in GEN:
        return GEN[f]
    if f == "FieldBytes":
        return I(32)
    raise Unsupported("curve field " + f)


# ---------------------------------------------------------------- builtins
def builtin(vm, st, name, args, ins):
    E = _vm.Ev
    if name in ("len", "cap"):
        x = args[0]
        if name == "cap":
            raise Unsupported("cap")
        if isinstance(x, SliceV):
            return [E("ret", st, x.n)]
        if isinstance(x, T) and x.sort == "S":
            return [E("ret", st, slen(x))]
        if isinstance(x, ArrV):
            return [E("ret", st, I(len(x.v)))]
        if x is NIL:
            return [E("ret", st, ZERO)]
        if isinstance(x, MapP):
            o = st.obj(x.ref)
            if o.card is not None:
                return [E("ret", st, o.card)]
            return [E("ret", st, mapcard(st, o))]
        raise Unsupported("len of %r" % (x,))
    if name == "append":
        return [E("ret", st, append(vm, st, args[0], args[1], vm.under(ins["t"])["elem"]))]
    if name == "copy":
        return [E("ret", st, copy_(vm, st, args[0], args[1]))]
    if name == "panic":
        return [E("panic", st, "panic")]
    raise Unsupported("builtin " + name)


def mapcard(st, o):
    raise Unsupported("len of a map")


def append(vm, st, s, t, et):
    if s is NIL:
        s = NILSLICE
    bytesy = vm.under(et).get("name") in ("uint8", "byte")
    if isinstance(t, T):
        tn = slen(t)
    else:
        tn = t.n
    so = st.obj(s.ref) if s.ref is not None else None
    to = st.obj(t.ref) if isinstance(t, SliceV) and t.ref is not None else None
    if so is not None:
        if so.app == "used":
            raise Unsupported("two appends to one slice may share storage")
        if so.app == "spare":
            if isinstance(s.ref, Oid_()):
                st.heap[s.ref] = so.rep_(app="used")
        if s.n is not so.n and not st.ctx.proves(eq(iadd(s.off, s.n), so.n)) and not st.ctx.proves(eq(s.n, 0)):
            raise Unsupported("append to a shortened slice overwrites its elements: %s %s %s" % (s.off, s.n, so.n))
        if not so.own and isinstance(s.ref, Oid_()) is False and so.app == "ext" and not st.ctx.proves(eq(s.n, 0)):
            raise Unsupported("append to a caller's slice")
    if bytesy and ((so is not None and so.s is not None) or (to is not None and to.s is not None) or isinstance(t, T)):
        r = scat(vm.bytes_of(st, s), vm.bytes_of(st, t))
        n = iadd(s.n, tn)
        return SliceV(st.alloc(AObj(et, n, r, None, (), True, "spare")), ZERO, n)
    n = iadd(s.n, tn)
    if so is None:
        base, layers = None, ()
    elif s.off is ZERO:
        base, layers = so.base, so.layers
        if so.s is not None:
            u = vm.unbyte(so)
            base, layers = u.base, u.layers
    else:
        k = fresh("e")
        c2 = st.ctx.assume(le(0, isym(k)), lt(isym(k), s.n))
        base, layers = Lam(k, st.snap(aget(c2, so, iadd(s.off, isym(k)), None, st))), ()
    if to is None:
        pass
    elif tn.op == "int" and tn.args[0] <= 4:
        for i in range(tn.args[0]):
            layers = layers + (("pt", iadd(s.n, i), aget(st.ctx, to, iadd(t.off, i))),)
    else:
        k = fresh("e")
        j = isub(isym(k), s.n)
        c2 = st.ctx.assume(le(0, j), lt(j, tn))
        v = st.snap(aget(c2, to, iadd(t.off, j), None, st))
        layers = layers + (("rng", s.n, n, Lam(k, v)),)
    return SliceV(st.alloc(AObj(et, n, None, base, layers, True, "spare")), ZERO, n)


def Oid_():
    return _vm.Oid


def copy_(vm, st, d, s):
    sn = slen(s) if isinstance(s, T) else s.n
    c = le(sn, d.n)
    q = st.ctx.decide(c)
    if q is None:
        raise NeedSplit(c)
    n = sn if q else d.n
    if n is ZERO or d.ref is None or (isinstance(s, SliceV) and s.ref is None):
        return ZERO
    if not isinstance(d.ref, _vm.Oid):
        raise _vm.Frame("copy into a shared slice", d.ref.app == "ext")
    do = st.heap[d.ref]
    if isinstance(s, T) or do.s is not None:
        sb = vm.bytes_of(st, s)
        if d.off is ZERO and n is do.n:
            st.heap[d.ref] = do.rep_(s=sb, base=None, layers=())
            return n
        raise Unsupported("partial byte copy")
    so = st.obj(s.ref)
    k = fresh("e")
    j = isub(isym(k), d.off)
    c2 = st.ctx.assume(le(0, j), lt(j, n))
    v = st.snap(aget(c2, so, iadd(s.off, j), None, st))
    st.heap[d.ref] = do.rep_(layers=do.layers + (("rng", d.off, iadd(d.off, n), Lam(k, v)),))
    return n


# ---------------------------------------------------------------- mathlib: scalars
def Z(vm, st, x):
    return vm.mval(st, x)


@ext("(*%sCurve).NewZrFromInt" % ML)
def _(vm, st, a):
    i = a[1]
    can = st.ctx.proves(le(0, i))
    return vm.newm(st, M("Zr", fofint(i), can, i))


@ext("(*%sCurve).NewRandomZr" % ML)
def _(vm, st, a):
    return vm.newm(st, zr(st.freshF("rnd")))


@ext("(*%sCurve).Rand" % ML)
def _(vm, st, a):
    return Tup((Opq("reader"), NIL))


def noncanon(*zs):
    return any(not z.canon for z in zs)


@ext("(*%sZr).Plus" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    r = iadd(x.rep, y.rep) if x.rep is not None and y.rep is not None else None
    if x.f is F0 and x.rep is ZERO:
        return vm.newm(st, y)
    if y.f is F0 and y.rep is ZERO:
        return vm.newm(st, x)
    return vm.newm(st, M("Zr", fadd(x.f, y.f), False, r))


@ext("(*%sZr).Mul" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    return vm.newm(st, zr(fmul(x.f, y.f)))


@ext("(*%sZr).PowMod" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    e = y.rep if y.rep is not None else None
    if e is None or st.ctx.proves(le(0, e)) is False:
        return vm.newm(st, zr(fapp("powmod", x.f, y.f)))
    return vm.newm(st, zr(fpow(x.f, e)))


@ext("(*%sZr).Mod" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    if y.rep is not I(Q):
        raise Unsupported("Mod by something other than the group order")
    if not x.canon:
        vm.setm(st, a[0], zr(x.f))
    elif isinstance(a[0], M):
        vm.setm(st, a[0], x)
    return None


@ext("(*%sZr).InvModP" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    if y.rep is not I(Q):
        raise Unsupported("inverse modulo something other than the group order")
    vm.setm(st, a[0], zr(finv(x.f)))
    return None


@ext("(*%sZr).Copy" % ML, "(*%sG1).Copy" % ML, "(*%sG2).Copy" % ML)
def _(vm, st, a):
    return vm.newm(st, Z(vm, st, a[0]))


def zr_eq(x, y):
    if x.rep is not None and y.rep is not None:
        return eq(x.rep, y.rep)
    if x.canon and y.canon:
        return feq(x.f, y.f)
    return And(feq(x.f, y.f), mk("bapp", ("repeq", x.f, y.f), "B"))


@ext("(*%sZr).Equals" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    # a scalar known to be reduced equals the integer i in [0,q) iff they agree modulo q
    if x.canon and y.canon:
        return feq(x.f, y.f)
    return zr_eq(x, y)


@ext("(*%sZr).Bytes" % ML)
def _(vm, st, a):
    x = Z(vm, st, a[0])
    return vm.mkbytes(st, zrbytes(x))


def zrbytes(x):
    if x.canon:
        return schunk("zr", x.f)
    return schunk("zrraw", x.f) if x.rep is None else schunk("zrraw", x.f, x.rep)


@ext("(*%sZr).Int" % ML)
def _(vm, st, a):
    x = Z(vm, st, a[0])
    while x.rep is None and x.f is not None and x.f.op == "fite":
        d = st.ctx.decide(x.f.args[0])
        if d is None:
            break
        x = M("Zr", x.f.args[1 if d else 2], x.canon)
    v = zint(x)
    if x.f is not None and x.rep is None and x.f.op == "fofint" and st.ctx.proves(And(le(0, x.f.args[0]), lt(x.f.args[0], Q))):
        v = x.f.args[0]
    if v is None:
        raise Unsupported("Int of an unreduced scalar")
    c = And(le(-(1 << 63), v), lt(v, 1 << 63))
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    if d:
        return Tup((v, NIL))
    return Tup((ZERO, ErrV("int64")))


@ext("(*%sCurve).ModSub" % ML)
def _(vm, st, a):
    x, y, m = Z(vm, st, a[1]), Z(vm, st, a[2]), Z(vm, st, a[3])
    if m.rep is not I(Q):
        raise Unsupported("ModSub modulus")
    return vm.newm(st, zr(fsub(x.f, y.f)))


@ext("(*%sCurve).ModAdd" % ML)
def _(vm, st, a):
    x, y, m = Z(vm, st, a[1]), Z(vm, st, a[2]), Z(vm, st, a[3])
    if m.rep is not I(Q):
        raise Unsupported("ModAdd modulus")
    return vm.newm(st, zr(fadd(x.f, y.f)))


@ext("(*%sCurve).ModMul" % ML)
def _(vm, st, a):
    x, y, m = Z(vm, st, a[1]), Z(vm, st, a[2]), Z(vm, st, a[3])
    if m.rep is not I(Q):
        raise Unsupported("ModMul modulus")
    return vm.newm(st, zr(fmul(x.f, y.f)))


@ext("(*%sCurve).ModNeg" % ML)
def _(vm, st, a):
    x, m = Z(vm, st, a[1]), Z(vm, st, a[2])
    if m.rep is not I(Q):
        raise Unsupported("ModNeg modulus")
    return vm.newm(st, zr(fsub(F0, x.f)))


@ext("(*%sCurve).NewZrFromBytes" % ML)
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    return vm.newm(st, zr_from_bytes(s))


def zr_from_bytes(s):
    if s.op == "schunk" and s.args[0] == "zr":
        return zr(s.args[1])
    if s.op == "schunk" and s.args[0] == "zrraw":
        return M("Zr", s.args[1], False, s.args[2] if len(s.args) > 2 else None)
    if s.op == "schunk" and s.args[0] == "bigbytes":
        i = s.args[1]
        return M("Zr", fofint(i), True, i)
    return M("Zr", mk("fapp", ("zrofbytes", s), "F"), False, None)


# ---------------------------------------------------------------- groups
@ext("(*%sG1).Add" % ML, "(*%sG2).Add" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    vm.setm(st, a[0], M(x.kind, fadd(x.f, y.f)))
    return None


@ext("(*%sG1).Sub" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    vm.setm(st, a[0], M(x.kind, fsub(x.f, y.f)))
    return None


@ext("(*%sG1).Mul" % ML, "(*%sG2).Mul" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    return vm.newm(st, M(x.kind, fmul(x.f, y.f)))


@ext("(*%sG1).Equals" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    return feq(x.f, y.f)


@ext("(*%sGt).Equals" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    if x.kind != "Gt" or y.kind != "Gt":
        raise Unsupported("comparison before the final exponentiation")
    return feq(x.f, y.f)


@ext("(*%sG1).IsInfinity" % ML)
def _(vm, st, a):
    return feq(Z(vm, st, a[0]).f, F0)


@ext("(*%sG1).Bytes" % ML)
def _(vm, st, a):
    return vm.mkbytes(st, schunk("g1", Z(vm, st, a[0]).f))


@ext("(*%sG2).Bytes" % ML)
def _(vm, st, a):
    return vm.mkbytes(st, schunk("g2", Z(vm, st, a[0]).f))


@ext("(*%sGt).Bytes" % ML)
def _(vm, st, a):
    return vm.mkbytes(st, schunk("gt", Z(vm, st, a[0]).f))


@ext("(*%sGt).Mul" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    if x.kind != y.kind:
        raise Unsupported("product of a pairing value before and after the final exponentiation")
    vm.setm(st, a[0], M(x.kind, fadd(x.f, y.f)))
    return None


@ext("(*%sGt).Exp" % ML)
def _(vm, st, a):
    x, y = Z(vm, st, a[0]), Z(vm, st, a[1])
    if not y.canon:
        # exponentiation in Gt ignores the sign of the exponent
        return vm.newm(st, M(x.kind, fmul(x.f, fapp("absmod", y.f))))
    return vm.newm(st, M(x.kind, fmul(x.f, y.f)))


@ext("(*%sCurve).Pairing" % ML)
def _(vm, st, a):
    g2, g1 = Z(vm, st, a[1]), Z(vm, st, a[2])
    if g2.kind != "G2" or g1.kind != "G1":
        raise Unsupported("pairing kinds")
    return vm.newm(st, M("Ml", fmul(g1.f, g2.f)))


@ext("(*%sCurve).FExp" % ML)
def _(vm, st, a):
    x = Z(vm, st, a[1])
    if x.kind != "Ml":
        raise Unsupported("final exponentiation applied twice")
    return vm.newm(st, M("Gt", x.f))


@ext("(*%sCurve).HashToG1" % ML)
def _(vm, st, a):
    return vm.newm(st, M("G1", mk("fapp", ("h2g", vm.bytes_of(st, a[1])), "F")))


@ext("(*%sCurve).NewG1FromBytes" % ML)
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    if s.op == "schunk" and s.args[0] == "g1":
        return Tup((vm.newm(st, M("G1", s.args[1])), NIL))
    if s.op == "schunk" and s.args[0] in ("zr", "sha", "g2"):
        return Tup((NIL, ErrV("g1 bytes")))
    raise Unsupported("group element from unknown bytes")


# ---------------------------------------------------------------- hashing and bytes
@ext("crypto/sha256.New")
def _(vm, st, a):
    return Iface("hash", Ptr(st.alloc(HObj(SEMPTY))))


@ext("crypto/sha256.Sum256")
def _(vm, st, a):
    d = schunk("sha", vm.bytes_of(st, a[0]))
    return ArrV(tuple(mk("iapp", ("byteat", d, I(i)), "I") for i in range(32)))


@ext("crypto/hmac.New")
def _(vm, st, a):
    if not (isinstance(a[0], Clo) and a[0].fn == "crypto/sha256.New"):
        raise Unsupported("hmac with another hash")
    return Iface("hash", Ptr(st.alloc(HObj(SEMPTY, vm.bytes_of(st, a[1])))))


def hash_method(vm, st, p, meth, args):
    E = _vm.Ev
    USED.add("hash.Hash." + meth)
    o = st.obj(p.ref)
    if meth == "Write":
        s = vm.bytes_of(st, args[0])
        st.heap[p.ref] = o.rep_(s=scat(o.s, s))
        return [E("ret", st, Tup((slen(s), NIL)))]
    if meth == "Sum":
        d = schunk("sha", o.s) if o.key is None else schunk("hmac", o.key, o.s)
        pre = vm.bytes_of(st, args[0]) if args[0] is not NIL else SEMPTY
        return [E("ret", st, vm.mkbytes(st, scat(pre, d)))]
    if meth == "Reset":
        st.heap[p.ref] = o.rep_(s=SEMPTY)
        return [E("ret", st, None)]
    raise Unsupported("hash method " + meth)


@ext("(encoding/binary.bigEndian).PutUint16")
def _(vm, st, a):
    return putbe(vm, st, a[1], a[2], 2, "u16")


@ext("(encoding/binary.bigEndian).PutUint32")
def _(vm, st, a):
    return putbe(vm, st, a[1], a[2], 4, "u32")


def putbe(vm, st, s, v, n, kind):
    d = st.ctx.decide(le(n, s.n))
    if d is None:
        raise NeedSplit(le(n, s.n))
    if not d:
        raise _vm.PanicEx("index out of range")
    if not isinstance(s.ref, _vm.Oid):
        raise _vm.Frame("write into shared bytes")
    o = st.heap[s.ref]
    if s.off is not ZERO:
        raise Unsupported("put at an offset")
    c = schunk(kind, v)
    if not (o.n.op == "int" and o.n.args[0] == n):
        if o.n.op != "int":
            raise Unsupported("put into a buffer of symbolic size")
        old = o.s if o.s is not None else None
        if old is None and not o.layers and isinstance(o.base, Lam) and o.base.v is ZERO:
            c = scat(c, sconst(bytes(o.n.args[0] - n)))
        else:
            raise Unsupported("put into a larger buffer")
    st.heap[s.ref] = o.rep_(s=c, base=None, layers=())
    return None


@ext("(encoding/binary.bigEndian).Uint16")
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    if s.op == "schunk" and s.args[0] == "u16":
        return s.args[1]
    if s.op == "sconst" and len(s.args[0]) >= 4:
        return I(int(s.args[0][:4], 16))
    raise Unsupported("Uint16 of unknown bytes")


@ext("(encoding/binary.bigEndian).Uint64")
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    if not st.ctx.proves(eq(slen(s), 8)):
        raise Unsupported("Uint64 of other than eight bytes")
    return mk("iapp", ("u64be", s), "I")


@ext("encoding/hex.EncodeToString")
def _(vm, st, a):
    return schunk("hex", vm.bytes_of(st, a[0]))


@ext("(*bytes.Buffer).Write")
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    o = st.obj(a[0].ref)
    st.heap[a[0].ref] = o.rep_(s=scat(o.s, s))
    return Tup((slen(s), NIL))


@ext("(*bytes.Buffer).Bytes")
def _(vm, st, a):
    return vm.mkbytes(st, st.obj(a[0].ref).s)


def fmt_s(vm, st, f, args):
    if f.op != "sconst":
        raise Unsupported("format string")
    fs = bytes.fromhex(f.args[0]).decode()
    out = []
    i = 0
    k = 0
    buf = ""
    while i < len(fs):
        if fs[i] == "%":
            i += 1
            if buf:
                out.append(sconst(buf.encode()))
                buf = ""
            if fs[i] == "%":
                buf = "%"
                i += 1
                continue
            v = args[k]
            k += 1
            x = v.v if isinstance(v, Iface) else v
            if isinstance(x, T) and x.sort == "S":
                out.append(x)
            elif isinstance(x, T) and x.sort == "I":
                out.append(sconst(str(x.args[0]).encode()) if x.op == "int" else schunk("dec", x))
            else:
                out.append(schunk("any", ZERO))
            i += 1
        else:
            buf += fs[i]
            i += 1
    if buf:
        out.append(sconst(buf.encode()))
    return scat(*out)


@ext("fmt.Sprintf")
def _(vm, st, a):
    args = []
    if a[1].ref is not None:
        for i in range(a[1].n.args[0]):
            args.append(vm.elem(st, a[1], I(i)))
    return fmt_s(vm, st, a[0], args)


@ext("fmt.Errorf", "errors.New")
def _(vm, st, a):
    return ErrV("errorf")


@ext("fmt.Println")
def _(vm, st, a):
    return Tup((ZERO, NIL))


# ---------------------------------------------------------------- big.Int
def nonneg(st, x):
    d = st.ctx.decide(le(0, x))
    if d is None:
        raise NeedSplit(le(0, x))
    return d


def B(vm, st, p):
    m = vm.mval(st, p)
    if m.kind != "Big":
        raise Unsupported("big.Int expected")
    return m.rep


def setB(vm, st, p, i):
    vm.setm(st, p, M("Big", None, True, i))
    return p


@ext("math/big.NewInt")
def _(vm, st, a):
    return vm.newm(st, M("Big", None, True, a[0]))


@ext("(*math/big.Int).SetInt64")
def _(vm, st, a):
    return setB(vm, st, a[0], a[1])


@ext("(*math/big.Int).SetBytes")
def _(vm, st, a):
    s = vm.bytes_of(st, a[1])
    if s.op == "schunk" and s.args[0] == "zr":
        f = s.args[1]
        if f.op == "fofint" and st.ctx.proves(And(le(0, f.args[0]), lt(f.args[0], Q))):
            i = f.args[0]
        else:
            i = zint(zr(f))
    elif s.op == "schunk" and s.args[0] == "zrraw" and len(s.args) > 2:
        i = s.args[2]
        if not st.ctx.proves(le(0, i)):
            raise Unsupported("bytes of a possibly negative number")
    else:
        i = mk("iapp", ("bigof", s), "I")
    return setB(vm, st, a[0], i)


FN_AX["bigof"] = lambda n: [le(0, n)]


@ext("(*math/big.Int).Sign")
def _(vm, st, a):
    x = B(vm, st, a[0])
    for c, r in ((eq(x, 0), 0), (lt(0, x), 1)):
        d = st.ctx.decide(c)
        if d is None:
            raise NeedSplit(c)
        if d:
            return I(r)
    return I(-1)


@ext("(*math/big.Int).Bit")
def _(vm, st, a):
    x = B(vm, st, a[0])
    if not nonneg(st, x):
        return mk("iapp", ("negbit", x, a[1]), "I")
    return _vm.simod(_vm.sidiv(x, ipow(I(2), a[1]), st.ctx), I(2), st.ctx)


@ext("(*math/big.Int).Rsh")
def _(vm, st, a):
    x = B(vm, st, a[1])
    if not nonneg(st, x):
        return setB(vm, st, a[0], mk("iapp", ("negrsh", x, a[2]), "I"))
    return setB(vm, st, a[0], _vm.sidiv(x, ipow(I(2), a[2]), st.ctx))


@ext("(*math/big.Int).Cmp")
def _(vm, st, a):
    x, y = B(vm, st, a[0]), B(vm, st, a[1])
    for c, r in ((eq(x, y), 0), (lt(x, y), -1)):
        d = st.ctx.decide(c)
        if d is None:
            raise NeedSplit(c)
        if d:
            return I(r)
    return I(1)


def posdiv(st, x, y):
    for c in (lt(0, y), le(0, x)):
        d = st.ctx.decide(c)
        if d is None:
            raise NeedSplit(c)
        if d is False:
            if st.ctx.decide(eq(y, 0)):
                raise _vm.PanicEx("division by zero")
            raise Unsupported("division of negative numbers")


@ext("(*math/big.Int).Div", "(*math/big.Int).Quo")
def _(vm, st, a):
    x, y = B(vm, st, a[1]), B(vm, st, a[2])
    posdiv(st, x, y)
    return setB(vm, st, a[0], _vm.sidiv(x, y, st.ctx))


@ext("(*math/big.Int).Mod", "(*math/big.Int).Rem")
def _(vm, st, a):
    x, y = B(vm, st, a[1]), B(vm, st, a[2])
    posdiv(st, x, y)
    return setB(vm, st, a[0], _vm.simod(x, y, st.ctx))


@ext("(*math/big.Int).Add")
def _(vm, st, a):
    return setB(vm, st, a[0], iadd(B(vm, st, a[1]), B(vm, st, a[2])))


@ext("(*math/big.Int).Sub")
def _(vm, st, a):
    return setB(vm, st, a[0], isub(B(vm, st, a[1]), B(vm, st, a[2])))


@ext("(*math/big.Int).Mul")
def _(vm, st, a):
    return setB(vm, st, a[0], imul(B(vm, st, a[1]), B(vm, st, a[2])))


@ext("(*math/big.Int).Set")
def _(vm, st, a):
    return setB(vm, st, a[0], B(vm, st, a[1]))


@ext("(*math/big.Int).SetUint64")
def _(vm, st, a):
    return setB(vm, st, a[0], a[1])


@ext("(*math/big.Int).DivMod", "(*math/big.Int).QuoRem")
def _(vm, st, a):
    x, y = B(vm, st, a[1]), B(vm, st, a[2])
    posdiv(st, x, y)
    setB(vm, st, a[0], _vm.sidiv(x, y, st.ctx))
    setB(vm, st, a[3], _vm.simod(x, y, st.ctx))
    return Tup((a[0], a[3]))


@ext("(*math/big.Int).Exp")
def _(vm, st, a):
    x, y = B(vm, st, a[1]), B(vm, st, a[2])
    if a[3] is not NIL:
        raise Unsupported("modular exponentiation")
    d = st.ctx.decide(le(0, y))
    if d is not True:
        raise NeedSplit(le(0, y)) if d is None else Unsupported("negative exponent")
    return setB(vm, st, a[0], ipow(x, y))


@ext("(*math/big.Int).Int64")
def _(vm, st, a):
    x = B(vm, st, a[0])
    c = And(le(-(1 << 63), x), lt(x, 1 << 63))
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    if not d:
        raise Unsupported("Int64 of a large number")
    return x


@ext("(*math/big.Int).Uint64")
def _(vm, st, a):
    x = B(vm, st, a[0])
    c = And(le(0, x), lt(x, 1 << 64))
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    if not d:
        raise Unsupported("Uint64 of a large number")
    return x


@ext("(*math/big.Int).SetString")
def _(vm, st, a):
    s, base = a[1], a[2]
    ok = bapp("isnum", base, mk("iapp", ("sid", s), "I"))
    d = st.ctx.decide(ok)
    if d is None:
        raise NeedSplit(ok)
    if not d:
        return Tup((NIL, FALSE))
    i = iapp("numval", base, mk("iapp", ("sid", s), "I"))
    return Tup((setB(vm, st, a[0], i), TRUE))


@ext("strconv.ParseUint")
def _(vm, st, a):
    s, base, bits = a
    ok = bapp("isuint", base, bits, mk("iapp", ("sid", s), "I"))
    d = st.ctx.decide(ok)
    if d is None:
        raise NeedSplit(ok)
    if not d:
        return Tup((ZERO, ErrV("parse")))
    i = iapp("uintval", base, mk("iapp", ("sid", s), "I"))
    if bits.op == "int":
        w = bits.args[0] or 64
        st.ctx = st.ctx.assume(le(0, i), lt(i, 1 << w))
    return Tup((i, NIL))


@ext("math/bits.Len16")
def _(vm, st, a):
    x = a[0]
    # 0 for 0, else the k with 2^(k-1) <= x < 2^k
    if x.op == "int":
        return I(x.args[0].bit_length())
    r = iapp("len16", x)
    st.ctx = st.ctx.assume(le(0, r), le(r, 16), lt(x, ipow(I(2), r)), Implies(le(1, r), le(ipow(I(2), isub(r, 1)), x)), Implies(lt(0, x), le(1, r)))
    return r


@ext("math/bits.Sub64")
def _(vm, st, a):
    x, y, b = a
    d = isub(isub(x, y), b)
    c = lt(d, 0)
    return Tup((iite(c, iadd(d, 1 << 64), d), iite(c, ONE, ZERO)))


# ---------------------------------------------------------------- field element of gnark
@ext("(github.com/consensys/gnark-crypto/ecc/bn254/fr.Element).ToBigIntRegular")
def _(vm, st, a):
    # a[0]: value [4]uint64 in Montgomery form; result: the reduced residue times R^-1
    v = a[0]
    limbs = v.v if isinstance(v, ArrV) else [vm.load(st, Ptr(v.ref, v.path + (I(i),))) for i in range(4)]
    n = iadd(*[iscale(x, 1 << (64 * i)) if isinstance(x, T) else x for i, x in enumerate(limbs)])
    r = mk("iapp", ("fromMont", n), "I")
    st.ctx = st.ctx.assume(Implies(And(le(0, n), lt(n, Q)), And(le(0, r), lt(r, Q))))
    return setB(vm, st, a[1], r)


@ext("github.com/IBM/mathlib/driver/common.BigToBytes")
def _(vm, st, a):
    i = B(vm, st, a[0])
    c = And(le(0, i), lt(i, Q))
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    if not d:
        raise Unsupported("bytes of a number that is not reduced")
    return vm.mkbytes(st, schunk("bigbytes", i))


# ---------------------------------------------------------------- time, sync
@ext("time.Now")
def _(vm, st, a):
    return Opq("time")


@ext("time.Since")
def _(vm, st, a):
    return st.freshI("elapsed")


@ext("(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock")
def _(vm, st, a):
    return None


@ext("(*sync/atomic.Value).Load")
def _(vm, st, a):
    return vm.load(st, a[0])


@ext("(*sync/atomic.Value).Store")
def _(vm, st, a):
    vm.store(st, a[0], a[1])
    return None


# ---------------------------------------------------------------- maps (point-wise)
def mkey(ctx, k):
    return k


def map_get(ctx, o, key, lvl=None):
    """-> (present B term, value)"""
    n = len(o.upd) if lvl is None else lvl
    while n > 0:
        k, v, cond = o.upd[n - 1]
        c = And(eq(k, key) if k.sort == "I" else beq(k, key), cond)
        d = ctx.decide(c)
        if d is True:
            return TRUE, v
        if d is None:
            p, w = map_get(ctx, o, key, n - 1)
            if p is FALSE:
                return bite(c, TRUE, p), ite_val(c, v, w, ctx) if w is not NIL else v
            return bite(c, TRUE, p), ite_val(c, v, w, ctx)
        n -= 1
    return vsubst(o.has.v, {o.has.var: key}), vsubst(o.val.v, {o.val.var: key})


def lookup_map(vm, st, ins, m, key):
    if isinstance(m, T) and m.sort == "S":
        s = m
        vm.bounds(st, key, slen(s))
        st.regs[ins["n"]] = sget(st.ctx, s, key)
        return
    et = vm.under(ins["xt"])["elem"]
    if m is NIL:
        v, ok = vm.zero(et), FALSE
    else:
        o = st.obj(m.ref)
        ok, v = map_get(st.ctx, o, key)
        d = st.ctx.decide(ok)
        if d is None:
            raise NeedSplit(ok)
        if d is False:
            v = vm.zero(et)
        ok = TRUE if d else FALSE
    st.regs[ins["n"]] = Tup((v, ok)) if ins["commaok"] else v


ENUM = {}       # enumeration -> (key -> B term: is in the map)


def enumeration(st, name, has):
    """the keys of a map in some order: name(.., i) for 0 <= i < name.n(..), each key once; name.ix is the inverse.
    All of them and has may depend on further indices, which come first"""
    ENUM[name] = has

    def key_ax(node):
        par, i = node.args[1:-1], node.args[-1]
        ax = [le(0, node), lt(node, 1 << 16)]
        c = And(le(0, i), lt(i, iapp(name + ".n", *par)))
        if i.op == "iapp" and i.args[0] == name + ".ix":
            return ax
        return ax + [Implies(c, has(*(par + (node,)))), Implies(c, eq(iapp(name + ".ix", *(par + (node,))), i))]

    def ix_ax(node):
        par, k = node.args[1:-1], node.args[-1]
        if k.op == "iapp" and k.args[0] == name:
            return []
        return [Implies(And(has(*(par + (k,))), le(0, k), lt(k, 1 << 16)), And(le(0, node), lt(node, iapp(name + ".n", *par)), eq(iapp(name, *(par + (node,))), k)))]
    FN_AX[name], FN_AX[name + ".ix"], FN_AX[name + ".n"] = key_ax, ix_ax, lambda node: [le(0, node)]
    return iapp(name + ".n")


def range_map(vm, st, x):
    if st.loopv:
        raise Unsupported("range over a map inside of a loop")
    if x is NIL:
        o = MapObj("uint16", None, Lam("_", FALSE), Lam("_", NIL), (), True, ZERO)
    else:
        if x.nilc is not FALSE:
            raise Unsupported("range over a map that may be nil")
        o = st.obj(x.ref)
    if o.kt != "uint16":
        raise Unsupported("range over a map of " + o.kt)
    o = st.snapo(o)
    name = st.freshname("enum")
    enumeration(st, name, lambda k: map_has(o, k))
    return IterV(st.alloc(Var(StructV("iterator", {"i": ZERO}), "iterator", True)), (x.ref if x is not NIL else None, o), name)


def map_has(o, key):
    r = lam_at(o.has, key)
    for k, v, c in o.upd:
        r = Or(r, And(eq(k, key), c))
    return r


def next_map(vm, st, ins, x):
    it = st.heap[x.ref]
    i = it.v.f["i"]
    ref, o = x.o
    if ref is not None:
        now = st.snapo(st.obj(ref))
        if now is not o and not (now.has is o.has and now.val is o.val and now.upd == o.upd):
            raise Unsupported("map changed while ranging over it")
    ok = lt(i, iapp(x.enum + ".n"))
    d = st.ctx.decide(ok)
    if d is None:
        raise NeedSplit(ok)
    if d:
        k = iapp(x.enum, i)
        p, v = map_get(st.ctx, o, k)
        if p is not TRUE and not st.ctx.proves(p):
            raise Unsupported("enumerated key")
        st.heap[x.ref] = it.rep_(v=StructV("iterator", {"i": iadd(i, 1)}))
    else:
        k, v = ZERO, NIL
    st.regs[ins["n"]] = Tup((TRUE if d else FALSE, k, v))


# ---------------------------------------------------------------- asn1 of structs of byte strings and lists of such
def asn1_enc(vm, st, v):
    if isinstance(v, SliceV):
        o = st.obj(v.ref) if v.ref is not None else None
        if o is not None and o.s is None and o.et is not None and vm.under(o.et)["kind"] == "struct":
            k = fresh("b")
            c = st.ctx.assume(le(0, isym(k)), lt(isym(k), v.n))
            e = aget(c, o, iadd(v.off, isym(k)))
            return schunk("list", v.n, smap(k, ZERO, v.n, asn1_enc(vm, st, e)))
        return schunk("octets", vm.bytes_of(st, v))
    if isinstance(v, StructV):
        return schunk("struct", v.t, *[asn1_enc(vm, st, v.f[f["name"]]) for f in vm.under(v.t)["fields"]])
    raise Unsupported("asn1 of %r" % (v,))


@ext("encoding/asn1.Marshal")
def _(vm, st, a):
    if not isinstance(a[0], Iface) or not isinstance(a[0].v, StructV):
        raise Unsupported("asn1")
    return Tup((vm.mkbytes(st, schunk("asn1", asn1_enc(vm, st, a[0].v))), NIL))


def asn1_dec(vm, st, s, t):
    d = vm.under(t)
    if d["kind"] == "slice":
        if s.args[0] == "octets":
            return vm.mkbytes(st, s.args[1])
        n, m = s.args[1], s.args[2]
        if m is SEMPTY:
            return NILSLICE
        if m.op != "smap":
            raise Unsupported("asn1 list")
        return mkarr(st, n, lambda k: asn1_dec(vm, st, subst(m.args[3], {m.args[0]: k}), d["elem"]), d["elem"])
    if d["kind"] == "struct":
        return StructV(t, {f["name"]: asn1_dec(vm, st, x, f["type"]) for f, x in zip(d["fields"], s.args[2:])})
    raise Unsupported("asn1 of " + t)


def mkarr(st, n, f, et):
    k = fresh("e")
    return SliceV(st.alloc(AObj(et, n, None, Lam(k, st.snap(f(isym(k)))), (), True, "spare")), ZERO, n)


@ext("encoding/asn1.Unmarshal")
def _(vm, st, a):
    s = vm.bytes_of(st, a[0])
    p = a[1].v if isinstance(a[1], Iface) else None
    if not isinstance(p, Ptr) or p.path or not isinstance(st.obj(p.ref), Var):
        raise Unsupported("asn1 into %r" % (a[1],))
    o = st.obj(p.ref)
    if s.op != "schunk" or s.args[0] != "asn1" or s.args[1].args[0] != "struct" or s.args[1].args[1] != o.t:
        raise Unsupported("asn1 of unknown bytes")
    st.heap[p.ref] = o.rep_(v=asn1_dec(vm, st, s.args[1], o.t))
    return Tup((NILSLICE, NIL))

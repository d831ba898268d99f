"""Contracts of package common."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine.ctx import FN_AX
from engine import vm as V, norm
from engine.compare import veq
from engine.ctx import NeedSplit

P = "pol/common."
VEC = "(pol/common.Vec)."
G1V = "(pol/common.G1v)."
G2V = "(pol/common.G2v)."


def one(*mk):
    """generic inputs built by the given makers"""
    def g(vm, st):
        return [(st, [m(st) if callable(m) else m for m in mk])]
    return g


def vec(name, n="n", kind="Zr", lo=0, canon=True):
    return lambda st: gVec(name, gLen(st, n, lo), kind, canon)


def two(mk):
    """the generic inputs with reduced and with unreduced scalars"""
    def g(vm, st):
        out = []
        for canon in (True, False):
            s = st.clone()
            out.append((s, [m(s) if callable(m) else m for m in mk(canon)]))
        return out
    return g


def vcanon(vm, st, *vs):
    for v in vs:
        if v.ref is None or v.n is ZERO:
            continue
        k = isym(fresh("c"))
        c = st.ctx.assume(le(0, k), lt(k, v.n))
        if c.inconsistent():
            continue
        o = st.obj(v.ref)
        try:
            e = aget(c, o, iadd(v.off, k), None, st)
            if not vm.mval(st, e).canon:
                return False
        except NeedSplit:
            # element by layers
            for l in o.layers:
                x = l[2] if l[0] == "pt" else l[3].v
                if not vm.mval(st, x).canon:
                    return False
            if isinstance(o.base, Lam) and not vm.mval(st, o.base.v).canon:
                return False
    return True


def integer(name):
    return lambda st: isym(name)


# ------------------------------------------------------------ scalars
@contract(P + "Pow2", one(lambda st: gLen(st, "n")), "C19")
def _(vm, st, a):
    n = a[0]
    if not require(st, le(0, n)):
        raise Unsupported("Pow2 of a negative number")
    return vm.newm(st, zr(fpow(F(2), n)))


@contract(P + "IntToZr", one(integer("n")), "C19")
def _(vm, st, a):
    n = a[0]
    return vm.newm(st, M("Zr", fofint(n), st.ctx.proves(le(0, n)), n))


def u8s(name, n="n"):
    def g(st):
        ln = gLen(st, n)
        FN_AX[name] = lambda node: [le(0, node), le(node, 255)]
        return gFun(ln, lambda k: iapp(name, k), "uint8")
    return g


@contract(P + "IntsToZr", one(u8s("u")), "C19")
def _(vm, st, a):
    v = a[0]
    return mkslice(st, v.n, lambda k: M("Zr", fofint(iel(vm, st, v, k)), True, iel(vm, st, v, k)), KT["Zr"])


def iel(vm, st, v, k):
    c = st.ctx.assume(le(0, k), lt(k, v.n))
    return aget(c, st.obj(v.ref), iadd(v.off, k), None, st)


@contract(P + "PowerSeries", one(lambda st: gLen(st, "n"), gZr("x")), "C19")
def _(vm, st, a):
    n, x = a[0], F_(vm, st, a[1])
    require_(st, le(0, n))
    return cases(st, (lt(0, n), lambda s: mkvec(s, n, lambda k: fpow(x, k))), (le(n, 0), lambda s: NILSLICE))


@contract(P + "NegZr", two(lambda c: [gZr("x", c)]), "C19")
def _(vm, st, a):
    return vm.newm(st, zr(fneg(F_(vm, st, a[0]))))


@contract(P + "ReverseBits", one(u8s("u")), "C19")
def _(vm, st, a):
    v = a[0]
    return mkslice(st, v.n, lambda k: iel(vm, st, v, isub(isub(v.n, k), 1)), "uint8")


# ------------------------------------------------------------ vectors of scalars
def samelen(f, why="lengths"):
    def g(vm, st, a):
        return cases(st, (eq(a[0].n, a[1].n), lambda s: f(vm, s, a)), (Not(eq(a[0].n, a[1].n)), lambda s: panics(s)))
    return g


def zipc(name, op, kind="Zr"):
    @contract(VEC + name, two(lambda c: [vec("v", "n", canon=c), vec("w", "m", canon=c)]), "C20")
    def _(vm, st, a):
        x, y = fun(vm, st, a[0]), fun(vm, st, a[1])
        return cases(st, (eq(a[0].n, a[1].n), lambda s: mkvec(s, a[0].n, lambda k: op(x(k), y(k)))), (Not(eq(a[0].n, a[1].n)), lambda s: panics(s)))


zipc("Add", fadd)
zipc("Sub", fsub)
zipc("HadamardProd", fmul)


@contract(VEC + "Mul", two(lambda c: [vec("v", canon=c), gZr("x", c)]), "C20")
def _(vm, st, a):
    v, x = fun(vm, st, a[0]), F_(vm, st, a[1])
    return mkvec(st, a[0].n, lambda k: fmul(v(k), x))


@contract(VEC + "Reverse", two(lambda c: [vec("v", canon=c)]), "C20")
def _(vm, st, a):
    n = a[0].n
    return mkvec(st, n, lambda k: el(vm, st, a[0], isub(isub(n, k), 1)), canon=vcanon(vm, st, a[0]))


@contract(VEC + "Concat", two(lambda c: [vec("v"), vec("w", "m", canon=c)]), "C20")
def _(vm, st, a):
    v, w, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    return mkvec(st, iadd(n, m), lambda k: fite(lt(k, n), v(k), w(isub(k, n))), canon=vcanon(vm, st, *a))


@contract(VEC + "InnerProd", two(lambda c: [vec("v", canon=c), vec("w", "m", canon=c)]), "C20")
def _(vm, st, a):
    v, w, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    return cases(st, (eq(n, m), lambda s: vm.newm(s, zr(Sum(ZERO, n, lambda k: fmul(v(k), w(k)))))), (Not(eq(n, m)), lambda s: panics(s)))


@contract(VEC + "Exp", two(lambda c: [vec("v", canon=c), vec("g", "m", "G1")]), "C20")
def _(vm, st, a):
    v, g, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    ok = And(eq(n, m), lt(0, n))
    return cases(st, (ok, lambda s: vm.newm(s, M("G1", Sum(ZERO, n, lambda k: fmul(v(k), g(k)))))), (Not(ok), lambda s: panics(s)))


@contract(VEC + "Product", two(lambda c: [vec("v", canon=c)]), "C20")
def _(vm, st, a):
    n, v = a[0].n, fun(vm, st, a[0])
    can = vcanon(vm, st, a[0])
    return cases(st, (lt(0, n), lambda s: vm.newm(s, M("Zr", Prod(ZERO, n, v), can))), (eq(n, 0), lambda s: panics(s)))


def halves(off):
    def f(vm, st, a):
        n, v = a[0].n, fun(vm, st, a[0])
        h = idiv(n, 2)
        return cases(st, (eq(imod(n, 2), 0), lambda s: mkvec(s, h, lambda k: el(vm, s, a[0], iadd(iscale(k, 2), off)), canon=vcanon(vm, s, a[0]))),
                     (Not(eq(imod(n, 2), 0)), lambda s: panics(s)))
    return f


contract(VEC + "Evens", two(lambda c: [vec("v", canon=c)]), "C20")(halves(0))
contract(VEC + "Odds", two(lambda c: [vec("v", canon=c)]), "C20")(halves(1))


@contract(VEC + "PowBitVec", two(lambda c: [vec("v", canon=c), u8s("u", "m")]), "C20")
def _(vm, st, a):
    n, v, m = a[0].n, fun(vm, st, a[0]), a[1].n
    can = vcanon(vm, st, a[0])
    return cases(st, (le(n, m), lambda s: mkvec(s, n, lambda k: fite(eq(iel(vm, s, a[1], k), 0), F1, v(k)), canon=can)), (lt(m, n), lambda s: panics(s)))


# ------------------------------------------------------------ vectors of group elements
for K, PF in (("G1", G1V), ("G2", G2V)):
    def mkadd(K, PF, nm):
        @contract(PF + nm, one(vec("v", "n", K), vec("w", "m", K)), "C20")
        def _(vm, st, a):
            x, y, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
            return cases(st, (le(n, m), lambda s: mkvec(s, n, lambda k: fadd(x(k), y(k)), K)), (lt(m, n), lambda s: panics(s)))
    mkadd(K, PF, "Add")
    if K == "G1":
        mkadd(K, PF, "HadamardProd")

    def mkmul(K, PF):
        @contract(PF + "Mul", two(lambda c: [vec("v", "n", K), gZr("x", c)]), "C20")
        def _(vm, st, a):
            v, x = fun(vm, st, a[0]), F_(vm, st, a[1])
            return mkvec(st, a[0].n, lambda k: fmul(v(k), x), K)

        @contract(PF + "Sum", one(vec("v", "n", K)), "C20")
        def _(vm, st, a):
            n, v = a[0].n, fun(vm, st, a[0])
            return cases(st, (lt(0, n), lambda s: vm.newm(s, M(K, Sum(ZERO, n, v)))), (eq(n, 0), lambda s: panics(s)))

        @contract(PF + "Duplicate", one(vec("v", "n", K), integer("m")), "C20")
        def _(vm, st, a):
            n, m = a[0].n, a[1]
            return cases(st, (And(eq(n, 1), lt(0, m)), lambda s: mkvec(s, m, lambda k: el(vm, s, a[0], ZERO), K)),
                         (And(eq(n, 1), le(m, 0)), lambda s: NILSLICE), (Not(eq(n, 1)), lambda s: panics(s)))

        @contract(PF + "Bytes", one(vec("v", "n", K)), "C17 C20")
        def _(vm, st, a):
            n, v = a[0].n, fun(vm, st, a[0])
            k = fresh("b")
            return vm.mkbytes(st, smap(k, ZERO, n, schunk(K.lower(), v(isym(k)))))
    mkmul(K, PF)


@contract(G1V + "Neg", one(vec("v", "n", "G1")), "C20")
def _(vm, st, a):
    v = fun(vm, st, a[0])
    return mkvec(st, a[0].n, lambda k: fneg(v(k)), "G1")


@contract(G1V + "MulV", two(lambda c: [vec("v", "n", "G1"), vec("x", "m", canon=c)]), "C20")
def _(vm, st, a):
    v, x, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    return cases(st, (eq(n, m), lambda s: mkvec(s, n, lambda k: fmul(v(k), x(k)), "G1")), (Not(eq(n, m)), lambda s: panics(s)))


@contract(G2V + "Mulv", two(lambda c: [vec("v", "n", "G2"), vec("x", "m", canon=c)]), "C20")
def _(vm, st, a):
    v, x, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    return cases(st, (le(n, m), lambda s: mkvec(s, n, lambda k: fmul(v(k), x(k)), "G2")), (lt(m, n), lambda s: panics(s)))


@contract(G1V + "InnerProd", one(vec("v", "n", "G1"), vec("w", "m", "G2")), "C20")
def _(vm, st, a):
    v, w, n, m = fun(vm, st, a[0]), fun(vm, st, a[1]), a[0].n, a[1].n
    ok = And(eq(n, m), lt(0, n))
    return cases(st, (ok, lambda s: vm.newm(s, M("Gt", Sum(ZERO, n, lambda k: fmul(v(k), w(k)))))), (Not(ok), lambda s: panics(s)))


@contract(P + "e", one(gG1("x"), gG2("y")), "C20")
def _(vm, st, a):
    return vm.newm(st, M("Gt", fmul(F_(vm, st, a[0]), F_(vm, st, a[1]))))


# ------------------------------------------------------------ bits
from engine import loops as L
L.HINTS[P + "IsPowerOfTwo"] = 17


def bitv(N, j):
    return imod(idiv(N, ipow(I(2), j)), 2)


def gInt63(name, hi=1 << 63):
    FN_AX[name] = lambda node: [le(0, node), lt(node, hi)]
    return M("Zr", fofint(iapp(name)), True, iapp(name))


@contract(P + "Bits", one(lambda st: gInt63("N", Q), integer("w")), "C13 C19", digits=True)
def _(vm, st, a):
    z, w = vm.mval(st, a[0]), a[1]
    N = zint(z)
    if N is None:
        raise Unsupported("bits of an unreduced scalar")
    if not st.ctx.proves(le(0, N)):
        raise Unsupported("bits of a negative number")
    if st.ctx.proves(And(le(0, w), lt(N, ipow(I(2), w)))):
        n = w
    else:
        b = iapp("bitlen", N)
        n = iite(le(b, w), w, b)
        st.ctx = st.ctx.assume(le(0, b))
        c = le(b, w)
        return cases(st, (c, lambda s: mkslice(s, w, lambda k: bitv(N, k), "uint8")), (Not(c), lambda s: mkslice(s, b, lambda k: bitv(N, k), "uint8")))
    return mkslice(st, n, lambda k: bitv(N, k), "uint8")


@contract(P + "BitsBigEndian", one(lambda st: gInt63("N", Q), integer("w")), "C19")
def _(vm, st, a):
    z, w = vm.mval(st, a[0]), a[1]
    N = zint(z)
    b = iapp("bitlen", N)
    c = le(b, w)
    f = lambda n: (lambda s: mkslice(s, n, lambda k: bitv(N, isub(isub(n, k), 1)), "uint8"))
    return cases(st, (c, f(w)), (Not(c), f(b)))


def gIntVec(name, n, hi=1 << 63):
    """vector of scalars that are integers in [0, hi)"""
    def g(st):
        ln = gLen(st, n)
        FN_AX[name] = lambda node: [le(0, node), lt(node, hi)]
        return gFun(ln, lambda k: M("Zr", fofint(iapp(name, k)), True, iapp(name, k)), KT["Zr"])
    return g


def intel(vm, st, v, k):
    m = ev_m(vm, st, v, k)
    z = zint(m)
    if z is None:
        raise Unsupported("vector element is not known as an integer")
    return z


@contract(VEC + "Bits", one(gIntVec("N", "n"), 63), "C13 C20")
def _(vm, st, a):
    v, w = a[0], as_i(a[1])
    k = isym(fresh("e"))
    c2 = st.ctx.assume(le(0, k), lt(k, v.n))
    N = intel(vm, st, v, k)
    if w.op != "int" or w.args[0] <= 0 or not c2.proves(And(le(0, N), lt(N, 1 << w.args[0]))):
        raise Unsupported("bit expansion of elements that may not fit the width")
    return mkslice(st, imul(v.n, w), lambda e: bitv(subst(N, {k.args[0]: idiv(e, w)}), imod(e, w)), "uint8")


@contract(P + "IsPowerOfTwo", one(lambda st: gLen(st, "n", 0, 65536)), "C19")
def _(vm, st, a):
    return Or(*[eq(a[0], 1 << k) for k in range(1, 16)])


# ------------------------------------------------------------ hashing
@contract(P + "SHA256Digest", one(lambda st: ssym("in", gLen(st, "n"))), "C17 C19")
def _(vm, st, a):
    return vm.mkbytes(st, schunk("sha", vm.bytes_of(st, a[0])))


def bytesarg(name, n=None):
    def g(st):
        ln = gLen(st, name + ".len") if n is None else as_i(n)
        return SliceV(AObj("uint8", ln, ssym(name, ln), None, (), False, "ext"), ZERO, ln)
    return g


@contract(P + "HashToG1", one(bytesarg("in")), "C19")
def _(vm, st, a):
    return vm.newm(st, M("G1", mk("fapp", ("h2g", vm.bytes_of(st, a[0])), "F")))


def genstring(ctxs, i):
    h = schunk("sha", scat(sconst(b"PoL "), ctxs, sconst(b" "), schunk("dec", i)))
    return scat(h, schunk("sha", h))


@contract(P + "RandGenVec", one(lambda st: gLen(st, "n"), lambda st: ssym("context", gLen(st, "l"))), "C19 C21")
def _(vm, st, a):
    n, s = a[0], vm.bytes_of(st, a[1])
    return mkvec(st, n, lambda k: mk("fapp", ("h2g", genstring(s, k)), "F"), "G1")


def fe_custom(vm, st, args, body):
    """total for 32 bytes, reduced, and a function of the bytes only; panics for any other length"""
    out = []
    n = args[0].n
    nret = 0
    for i, e in enumerate(body):
        if e.kind == "panic":
            out.append(("panic%d" % i, e.st.ctx.proves(Not(eq(n, 32))), "panics for 32 bytes"))
            continue
        nret += 1
        m = vm.mval(e.st, e.val)
        out.append(("length%d" % i, e.st.ctx.proves(eq(n, 32)), "accepts another length"))
        ok = m.canon and m.rep is not None and e.st.ctx.proves(And(le(0, m.rep), lt(m.rep, Q)))
        out.append(("reduced%d" % i, bool(ok), "the scalar may not be reduced"))
        out.append(("dependence%d" % i, feinput(m.rep, args[0]), "the scalar does not depend on all bytes: %s" % show(m.rep)))
        out.append(("frame%d" % i, all(e.st.heap.get(r) is st.heap.get(r) for r in st.heap), "writes"))
    out.append(("returns", nret > 0, "never returns"))
    return out


def feinput(t, v):
    """all four words of the digest occur and nothing else does"""
    if t is None:
        return False
    fs = {x for x in subterms(t) if x.op == "iapp" and x.args[0] == "u64be"}
    subs = set()
    for x in fs:
        s = x.args[1]
        if s.op != "schunk" or s.args[0] != "sub" or s.args[2].op != "int":
            return False
        subs.add((s.args[2].args[0], s.args[3].args[0]))
    return subs == {(0, 8), (8, 16), (16, 24), (24, 32)}


@contract(P + "FieldElementFromBytes", one(bytesarg("digest")), "C17 C19", custom=fe_custom)
def _(vm, st, a):
    s = vm.bytes_of(st, a[0])
    n = a[0].n
    return cases(st, (eq(n, 32), lambda t: vm.newm(t, M("Zr", fe(s), True))), (Not(eq(n, 32)), lambda t: panics(t)))


@contract(VEC + "Zero", lambda vm, st: zero_gen(vm, st), "C20")
def _(vm, st, a):
    v = a[0]
    if v.ref is None:
        return None
    o = st.heap[v.ref]
    k = fresh("e")
    st.heap[v.ref] = o.rep_(layers=o.layers + (("rng", v.off, iadd(v.off, v.n), Lam(k, M("Zr", F0, True, ZERO))),))
    return None


def zero_gen(vm, st):
    n = gLen(st, "n")
    k = fresh("e")
    r = st.alloc(AObj(KT["Zr"], n, None, Lam(k, M("Zr", fapp("v", isym(k)))), (), True, "ext"))
    return [(st, [SliceV(r, ZERO, n)])]


@contract(VEC + "Size", one(vec("v")), "")
def _(vm, st, a):
    return iscale(a[0].n, 32)

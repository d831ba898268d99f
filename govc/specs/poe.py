"""Contracts of package poe: equality of openings."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq
from .common import *
from .pp import newstruct, fld, bytesval, is_nil, require_, gPP, ppshape, idxs, npp_result, el, atoms_of
from .bp import *

PO = "pol/poe."


def gPOE(st, N, M_, inv=False):
    return newstruct(st, "pol/poe.PP", Digest=bytesval("poe.Digest", 32), G=gVec("poe.G", M_, "G1"), H=gVec("poe.H", M_, "G1"), F=gG1("poe.F"), PP=gPP(st, N, inv=inv))


def enc_ints(vm, st, v):
    if v.ref is None or v.n is ZERO:
        return scat()
    k = fresh("b")
    return smap(k, ZERO, v.n, schunk("int", iel(vm, st, v, isym(k))))


def enc_g1s(vm, st, v):
    if v.ref is None or v.n is ZERO:
        return scat()
    k = fresh("b")
    f = fun(vm, st, v)
    return smap(k, ZERO, v.n, schunk("g1", f(isym(k))))


def ro(gs, ints, D, i):
    return fe(schunk("RO", gs, ints, D, as_i(i)))


def ROpoe():
    """an arbitrary challenge function of the group elements, the integers, the digest and the position"""
    def f(vm, st, A):
        gs, ints, D, n = A
        g, k, d = enc_g1s(vm, st, gs), enc_ints(vm, st, ints), vm.bytes_of(st, D)
        return [V.Ev("ret", st, mkvec(st, n, lambda i: ro(g, k, d, i)))]
    return PyFn(f)


def sg1(*fs):
    return scat(*[schunk("g1", f) for f in fs])


def sint(*xs):
    return scat(*[schunk("int", x) for x in xs])


# ---------------------------------------------------------------- parameters and the challenge function
def poe_digest(vm, st, p):
    f = lambda n: fld(vm, st, p, n)
    return schunk("sha", scat(enc_g1s(vm, st, f("G")), enc_g1s(vm, st, f("H")), schunk("g1", F_(vm, st, f("F"))), vm.bytes_of(st, fld(vm, st, f("PP"), "Digest"))))


def sd_gen(vm, st):
    return [(st, [gPOE(st, gLen(st, "N", 1), gLen(st, "m", 1))])]


@contract("(*pol/poe.PP).SetupDigest", sd_gen, "C17 C21")
def _(vm, st, A):
    p = A[0]
    vm.store(st, Ptr(p.ref, p.path + ("Digest",)), vm.mkbytes(st, poe_digest(vm, st, p)))
    return None


def np_custom(vm, st, args, body):
    n, m = args
    out = []
    for i, e in enumerate(body):
        if e.kind != "ret":
            out.append(("total%d" % i, False, "panics"))
            continue
        s = e.st
        pp = fld(vm, s, e.val, "PP")
        al = el(vm, s, fld(vm, s, pp, "G2s"), ZERO)
        spec = np_result(vm, s, m, npp_result(vm, s, n, al))
        why = []
        ok = norm.split_prove(s.ctx, lambda c: veq(c, s, e.val, s, spec, why))
        out.append(("wellformed%d" % i, ok, "; ".join(why)))
    return out


def np_result(vm, s, m, pp):
    p = newstruct(s, "pol/poe.PP", True, PP=pp, G=mkvec(s, m, lambda k: randgen(b"POE G", k), "G1"), H=mkvec(s, m, lambda k: randgen(b"POE H", k), "G1"),
                  F=vm.newm(s, M("G1", randgen(b"POE F", ZERO))), Digest=NILSLICE)
    vm.store(s, Ptr(p.ref, ("Digest",)), vm.mkbytes(s, poe_digest(vm, s, p)))
    return p


@contract(PO + "NewPublicParams", lambda vm, st: [(st, [gLen(st, "n", 1), gLen(st, "m", 1)])], "C21", custom=np_custom)
def _(vm, st, A):
    n, m = A
    if not st.ctx.proves(And(le(1, n), le(1, m))):
        raise Unsupported("parameters of size zero")
    return np_result(vm, st, m, npp_result(vm, st, n, st.freshF("rnd")))


def ro_gen(vm, st):
    return [(st, [gVec("gs", gLen(st, "g"), "G1"), idxs("ints", gLen(st, "k"), I(1 << 16))(st), bytesval("D", 32), gLen(st, "n", 0, 1 << 16)])]


@contract(PO + "RO", ro_gen, "C16 C17")
def _(vm, st, A):
    gs, ints, D, n = A
    k = fresh("b")
    si = scat() if ints.ref is None or ints.n is ZERO else smap(k, ZERO, ints.n, schunk("u16", iel(vm, st, ints, isym(k))))
    key = schunk("sha", scat(enc_g1s(vm, st, gs), si, vm.bytes_of(st, D)))
    require_(st, le(n, 1 << 16))
    return mkvec(st, n, lambda i: fe(schunk("hmac", key, schunk("u16", i))))


# ---------------------------------------------------------------- one equality
def gEq(st, pp, RO=None, V_=None, W_=None, i=None, j=None):
    return newstruct(st, "pol/poe.Equality", RO=RO or ROpoe(), PP=pp, V=V_ or gG1("V"), W=W_ or gG1("W"), I=i if i is not None else isym("i"), J=j if j is not None else isym("j"))


def ev_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        pp = gPOE(s, gLen(s, "N", 1), gLen(s, "m", 1))
        out.append((s, [gEq(s, pp), newstruct(s, "pol/poe.Proof", C=gZr("C", c), V=gG1("Y.V"), W=gG1("Y.W"), **{"Ω": gG1("Ω")})]))
    return out


def call_ro(vm, st, RO, gs, ints, D, n):
    """challenges of the statement's challenge function"""
    g = gFun(as_i(len(gs)), lambda k: pick(gs, k), KT["G1"]) if gs else NILSLICE
    return g


@contract("(*pol/poe.Equality).Verify", ev_gen, "C16 C17")
def _(vm, st, A):
    e, pf = A
    f, y = (lambda n: fld(vm, st, e, n)), (lambda n: F_(vm, st, fld(vm, st, pf, n)))
    P = f("PP")
    N, g1, g2, gt = ppshape(vm, st, fld(vm, st, P, "PP"))
    D = vm.bytes_of(st, fld(vm, st, P, "Digest"))
    V_, W, i, j = F_(vm, st, f("V")), F_(vm, st, f("W")), f("I"), f("J")
    x = ro(sg1(V_, W, y("V"), y("W")), scat(), D, 0)
    key = sg1(V_, W, fmul(y("V"), x), fmul(y("W"), x), y("C")), sint(i, j), D
    t0, t1 = ro(*key, 0), ro(*key, 1)
    ok = And(le(0, i), lt(i, N), le(0, j), lt(j, N))

    def go(s):
        g = fun(vm, s, g2)
        lhs = fadd(fmul(t0, fadd(V_, fmul(y("V"), x)), g(isub(isub(N, i), 1))), fmul(t1, fadd(W, fmul(y("W"), x)), g(isub(isub(N, j), 1))))
        rhs = fadd(y("Ω"), fmul(fun(vm, s, g1)(ZERO), g(isub(N, 1)), y("C"), fadd(t0, t1)))
        c = feq(lhs, rhs)
        return cases(s, (c, lambda t: NIL), (Not(c), lambda t: ErrV("poe")))
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


def opening(N, v, al=None):
    """Commit of the vector v under the powers of α"""
    al = fsym("α")
    return Sum(ZERO, N, lambda k: fmul(v(k), fpow(al, iadd(k, 1))))


@lemma("C16.single", "C16", "(*pol/poe.Equality).Prove (*pol/poe.Equality).Verify " + "pol/pp.Open")
def _(vm, st, ob):
    """Prove, Verify = nil for all vectors that agree at the two positions, all positions but the last and all coins"""
    N = gLen(st, "N", 2)
    i, j = gLen(st, "i", 0, isub(N, 1)), gLen(st, "j", 0, isub(N, 1))
    pp = gPOE(st, N, gLen(st, "m", 1), inv=True)
    v = lambda k: fapp("v", k)
    w = lambda k: fite(eq(k, j), fapp("v", i), fapp("w", k))
    e = gEq(st, pp, None, M("G1", opening(N, v)), M("G1", opening(N, w)), i, j)
    vec_ = lambda f: gFun(N, lambda k: M("Zr", f(k), True), KT["Zr"])
    k = 0
    for r in calls(vm, st, "(*pol/poe.Equality).Prove", [e, vec_(v), vec_(w)]):
        if r.kind != "ret":
            ob("outcome%d" % k, False, "the prover panics: %s" % (r.val,))
            continue
        for r2 in calls(vm, r.st, "(*pol/poe.Equality).Verify", [e, r.val]):
            ob("verifies%d" % k, is_nil(r2), "an honest proof is refused: %s" % r2)
            k += 1
    ob("reached", k > 0)


# ---------------------------------------------------------------- several equalities in one proof
def gEqs(vm, st, pp, m, N, V_=None, W_=None, i=None, j=None):
    return newstruct(st, "pol/poe.Equalities", RO=ROpoe(), PP=pp, V=V_ or gVec("V", m, "G1"), W=W_ or gVec("W", m, "G1"), I=i or idxs("ix", m, N)(st), J=j or idxs("jx", m, N)(st))


def evs_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        N, m = gLen(s, "N", 1), gLen(s, "m", 1)
        pp = gPOE(s, N, m)
        pf = newstruct(s, "pol/poe.AggregatedProof", IPP=gIPP(s, True), c=gZr("c", c), U=gG1("U"), V=gG1("PV"), Waggr=gVec("Wa", gLen(s, "wn"), "G1"),
                       Vaggr=gVec("Va", gLen(s, "vn"), "G1"), **{"ρ": gZr("ρ", c), "Ω": gG1("Ω")})
        out.append((s, [gEqs(vm, s, pp, m, N), pf]))
    return out


@contract("(*pol/poe.Equalities).Verify", evs_gen, "C16 C17 C22")
def _(vm, st, A):
    e, pf = A
    f, y = (lambda n: fld(vm, st, e, n)), (lambda n: fld(vm, st, pf, n))
    P = f("PP")
    N, g1, g2, gt = ppshape(vm, st, fld(vm, st, P, "PP"))
    D = vm.bytes_of(st, fld(vm, st, P, "Digest"))
    G, H = fld(vm, st, P, "G"), fld(vm, st, P, "H")
    V_, W, ix, jx = f("V"), f("W"), f("I"), f("J")
    m = V_.n
    require_(st, And(le(1, m), eq(W.n, m), eq(ix.n, m), eq(jx.n, m), eq(G.n, m), eq(H.n, m)))
    Va, Wa = y("Vaggr"), y("Waggr")
    ok = And(eq(Va.n, m), eq(Wa.n, m))
    U, PV, Om, c = F_(vm, st, y("U")), F_(vm, st, y("V")), F_(vm, st, y("Ω")), F_(vm, st, y("c"))
    pi = y("IPP")

    def go(s):
        first = scat(enc_g1s(vm, s, Va), enc_g1s(vm, s, Wa), enc_g1s(vm, s, V_), enc_g1s(vm, s, W))
        x = ro(first, scat(), D, 0)
        t = lambda k: ro(scat(first, sg1(U, PV)), scat(enc_ints(vm, s, ix), enc_ints(vm, s, jx)), D, k)
        tv, tw = (lambda k: t(iscale(k, 2))), (lambda k: t(iadd(iscale(k, 2), 1)))
        g = fun(vm, s, g2)
        v, w, va, wa = (fun(vm, s, z) for z in (V_, W, Va, Wa))
        lhs = fadd(Sum(ZERO, m, lambda k: fmul(fadd(v(k), fmul(va(k), x)), tv(k), g(isub(isub(N, 1), iel(vm, s, ix, k))))),
                   Sum(ZERO, m, lambda k: fmul(fadd(w(k), fmul(wa(k), x)), tw(k), g(isub(isub(N, 1), iel(vm, s, jx, k))))))
        rhs = fadd(Om, fmul(fun(vm, s, g1)(ZERO), c, g(isub(N, 1))))

        def rest(s2):
            gg, h = fun(vm, s2, G), fun(vm, s2, H)
            PP_c = fadd(fmul(F_(vm, s2, fld(vm, s2, P, "F")), F_(vm, s2, y("ρ"))), fmul(U, x), PV, Sum(ZERO, m, lambda k: fmul(h(k), fadd(tv(k), tw(k)))))
            Ub = randgen(b"u", ZERO)
            x2 = fe(schunk("sha", scat(schunk("g1", PP_c), vm.bytes_of(s2, zrbytes(vm, s2, y("c")).val), bpdigest(Ub, gg, h, m, m))))
            U2, P2 = fmul(Ub, x2), fadd(PP_c, fmul(Ub, x2, c))
            p = vm.load(s2, Ptr(pi.ref, pi.path)).f
            L = p["LRs"]
            q = pred("IPA", ipa_enc(bpdigest(U2, gg, h, m, m), U2, P2, gg, h, m, fun(vm, s2, L), L.n, F_(vm, s2, p["a"]), F_(vm, s2, p["b"])))
            vm.store(s2, Ptr(pi.ref, pi.path + ("C",)), ANY)
            vm.store(s2, Ptr(pi.ref, pi.path + ("P",)), ANY)
            return cases(s2, (q, lambda t_: NIL), (Not(q), lambda t_: ErrV("poe")))
        cnd = feq(lhs, rhs)
        return cases(s, (cnd, rest), (Not(cnd), lambda t_: ErrV("poe")))
    return cases(st, (ok, go), (Not(ok), lambda s: ErrV("poe")))


@lemma("C16.aggregated", "C16", "(*pol/poe.Equalities).Prove (*pol/poe.Equalities).Verify pol/pp.Open (*pol/bp.InnerProdArgument).Prove")
def _(vm, st, ob):
    """the same for any number of pairs of vectors"""
    N, m = gLen(st, "N", 2), gLen(st, "m", 1)
    pp = gPOE(st, N, m, inv=True)
    ix, jx = idxs("ix", m, isub(N, 1))(st), idxs("jx", m, isub(N, 1))(st)
    v = lambda k: lambda t: fapp("v", k, t)
    w = lambda k: lambda t: fite(eq(t, iapp("jx", k)), fapp("v", k, iapp("ix", k)), fapp("w", k, t))
    com = lambda f: gFun(m, lambda k: M("G1", opening(N, f(k))), KT["G1"])
    row = lambda f: lambda k: SliceV(AObj(KT["Zr"], N, None, lam(lambda t: M("Zr", f(k)(t), True)), (), False, "ext"), ZERO, N)
    e = gEqs(vm, st, pp, m, N, com(v), com(w), ix, jx)
    use_completeness(vm, ob)
    k = 0
    for r in calls(vm, st, "(*pol/poe.Equalities).Prove", [e, gFun(m, row(v), "pol/common.Vec"), gFun(m, row(w), "pol/common.Vec")]):
        if r.kind != "ret":
            ob("outcome%d" % k, False, "the prover panics: %s" % (r.val,))
            continue
        for r2 in calls(vm, r.st, "(*pol/poe.Equalities).Verify", [e, r.val]):
            ob("verifies%d" % k, is_nil(r2), "an honest proof is refused: %s" % r2)
            k += 1
    ob("reached", k > 0)

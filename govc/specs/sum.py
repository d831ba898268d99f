"""Contracts of package sum."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq
from .common import *
from .pp import newstruct, fld, bytesval, is_nil, require_
from .bp import *

SU = "pol/sum."


def coef(n):
    return lambda k: fite(eq(k, isub(n, 1)), fneg(F1), F1)


def gSum(st, n, tag="sa"):
    """parameters as NewPublicParams makes them: fixed coefficients and their commitment"""
    h = lambda k: fapp(tag + ".H", k)
    return newstruct(st, "pol/sum.PP", Digest=bytesval(tag + ".Digest", 32), U=gG1(tag + ".U"), Gs=gVec(tag + ".Gs", n, "G1"), G=gG1(tag + ".G"), F=gG1(tag + ".F"),
                     H=gVec(tag + ".H", n, "G1"), b=gFun(n, lambda k: M("Zr", coef(n)(k), True), KT["Zr"]), B=M("G1", Sum(ZERO, n, lambda k: fmul(h(k), coef(n)(k)))))


@contract(SU + "NewPublicParams", one(lambda st: gLen(st, "n", 1)), "C15 C21")
def _(vm, st, a):
    n = a[0]
    require_(st, le(1, n))
    gen = lambda c: (lambda k: randgen(c, k))
    H, G, F_g = gen(b"sum argument H"), gen(b"sum argument G")(ZERO), gen(b"sum argument F")(ZERO)
    B = Sum(ZERO, n, lambda k: fmul(H(k), coef(n)(k)))
    k = fresh("b")
    D = schunk("sha", scat(smap(k, ZERO, n, schunk("g1", H(isym(k)))), schunk("g1", B), schunk("g1", G), schunk("g1", F_g)))
    g1 = lambda f: vm.newm(st, M("G1", f))
    return newstruct(st, "pol/sum.PP", True, Digest=vm.mkbytes(st, D), U=g1(gen(b"IPA u")(ZERO)), Gs=mkvec(st, n, gen(b"sum argument Gs"), "G1"), G=g1(G), F=g1(F_g),
                     H=mkvec(st, n, H, "G1"), b=mkvec(st, n, coef(n)), B=g1(B))


def ro_cvw(vm, st, c, V_, W):
    return fe(schunk("sha", scat(vm.bytes_of(st, zrbytes(vm, st, c).val), schunk("g1", V_), schunk("g1", W))))


def sumpp(vm, st, pp):
    f = lambda n: fld(vm, st, pp, n)
    Gs, H = f("Gs"), f("H")
    require_(st, And(eq(Gs.n, H.n), le(1, Gs.n)))
    return fun(vm, st, Gs), fun(vm, st, H), Gs.n, F_(vm, st, f("F")), F_(vm, st, f("U")), F_(vm, st, f("B"))


def gIP(st, c=True):
    return gIPP(st, c)


def gProof(st, c=True):
    return newstruct(st, "pol/sum.Proof", W=gG1("W"), c=gZr("sc", c), ρ=gZr("ρ", c), π=gIPP(st, True))


def sv_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [gProof(s, c), gSum(s, n), newstruct(s, "pol/sum.Argument", V=gG1("V"))]))
    return out


def sum_verify(vm, st, pf, pp, V_):
    """the statement is computed from V, W, the challenge and the fixed coefficients; only ρ, c and the inner proof come from the prover"""
    g, h, n, Fg, U, B = sumpp(vm, st, pp)
    W, c, rho, pi = (fld(vm, st, pf, k) for k in ("W", "c", "ρ", "π"))
    x = ro_cvw(vm, st, c, V_, F_(vm, st, W))
    P = fadd(fmul(Fg, F_(vm, st, rho)), V_, fmul(F_(vm, st, W), x), B)
    cx = fmul(F_(vm, st, c), x)
    old = vm.load(st, Ptr(pi.ref, pi.path))
    D = bpdigest(U, g, h, n, n)
    x2 = fe(schunk("sha", scat(schunk("g1", P), schunk("zr", cx), D)))
    U2, P2 = fmul(U, x2), fadd(P, fmul(U, x2, cx))
    L = old.f["LRs"]
    q = pred("IPA", ipa_enc(bpdigest(U2, g, h, n, n), U2, P2, g, h, n, fun(vm, st, L), L.n, F_(vm, st, old.f["a"]), F_(vm, st, old.f["b"])))
    # a verifier may leave its own statement in the proof object
    vm.store(st, Ptr(pi.ref, pi.path + ("C",)), ANY)
    vm.store(st, Ptr(pi.ref, pi.path + ("P",)), ANY)
    return cases(st, (q, lambda s: NIL), (Not(q), lambda s: ErrV("sum")))


@contract("(*pol/sum.Proof).Verify", sv_gen, "C15 C17 C22")
def _(vm, st, A):
    return sum_verify(vm, st, A[0], A[1], F_(vm, st, fld(vm, st, A[2], "V")))


def sva_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [gProof(s, c), gSum(s, n), gVec("V", gLen(s, "m", 1), "G1")]))
    return out


def agg_t(V_, m):
    """powers of the aggregation challenge, which depends on all commitments"""
    k = fresh("b")
    tau = fe(schunk("sha", smap(k, ZERO, m, schunk("g1", V_(isym(k))))))
    return lambda k: fpow(tau, k)


@contract("(*pol/sum.Proof).VerifyAggregated", sva_gen, "C15 C17 C22")
def _(vm, st, A):
    Vs = fun(vm, st, A[2])
    m = A[2].n
    require_(st, le(1, m))
    t = agg_t(Vs, m)
    return sum_verify(vm, st, A[0], A[1], Sum(ZERO, m, lambda k: fmul(Vs(k), t(k))))


def sc_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 2)
        out.append((s, [gSum(s, n), gVec("v", n, canon=c), gZr("r", c)]))
    return out


@contract(SU + "NewCommitment", sc_gen, "C15")
def _(vm, st, A):
    g, h, n, Fg, U, B = sumpp(vm, st, A[0])
    require_(st, And(eq(A[1].n, n), le(2, n)))
    v, r = fun(vm, st, A[1]), F_(vm, st, A[2])
    ok = feq(Sum(ZERO, isub(n, 1), v), v(isub(n, 1)))
    C = fadd(fmul(Fg, r), Sum(ZERO, n, lambda k: fmul(g(k), v(k))))
    return cases(st, (ok, lambda s: newstruct(s, "pol/sum.Argument", True, V=vm.newm(s, M("G1", C)))), (Not(ok), lambda s: panics(s)))


# ---------------------------------------------------------------- completeness
def closed(n, u):
    """a vector whose last element is the sum of the others"""
    return lambda k: fite(eq(k, isub(n, 1)), Sum(ZERO, isub(n, 1), u), u(k))


def run_sum(vm, st, ob, tag, prove, verify):
    """prove: body of the prover; verify: contract of the verifier"""
    name, args = prove
    k = 0
    for e in calls(vm, st, name, args):
        if e.kind != "ret":
            ob("%s.outcome%d" % (tag, k), False, "the prover panics: %s" % (e.val,))
            continue
        pf = e.val.v[1] if isinstance(e.val, Tup) else e.val
        for e2 in calls(vm, e.st, verify[0], [pf] + verify[1]):
            ob("%s.verifies%d" % (tag, k), is_nil(e2), "an honest proof is refused: %s" % e2)
            k += 1
    ob(tag + ".reached", k > 0)


@lemma("C15.complete", "C15", "pol/sum.NewArgument (*pol/sum.Proof).Verify (*pol/bp.InnerProdArgument).Prove")
def _(vm, st, ob):
    """NewArgument, Verify = nil for every vector whose last element is the sum of the others, every blinding and all coins"""
    n = gLen(st, "n", 2)
    pp = gSum(st, n)
    g, h, _, Fg, U, B = sumpp(vm, st, pp)
    v = closed(n, lambda k: fapp("v", k))
    r = fsym("r")
    C = fadd(fmul(Fg, r), Sum(ZERO, n, lambda k: fmul(g(k), v(k))))
    use_completeness(vm, ob)
    V_ = vm.newm(st, M("G1", C))
    run_sum(vm, st, ob, "single", (SU + "NewArgument", [pp, V_, gFun(n, lambda k: M("Zr", v(k), False), KT["Zr"]), M("Zr", r, False)]),
            ("(*pol/sum.Proof).Verify", [pp, newstruct(st, "pol/sum.Argument", V=V_)]))


@lemma("C15.aggregated", "C15", "pol/sum.NewAggregatedArgument (*pol/sum.Proof).VerifyAggregated (*pol/bp.InnerProdArgument).Prove")
def _(vm, st, ob):
    """NewAggregatedArgument, VerifyAggregated = nil for any number of such vectors"""
    n, m = gLen(st, "n", 2), gLen(st, "m", 1)
    pp = gSum(st, n)
    g, h, _, Fg, U, B = sumpp(vm, st, pp)
    v = lambda j: closed(n, lambda k: fapp("v", j, k))
    r = lambda j: fapp("r", j)
    C = lambda j: fadd(fmul(Fg, r(j)), Sum(ZERO, n, lambda k: fmul(g(k), v(j)(k))))
    row = lambda j: SliceV(AObj(KT["Zr"], n, None, lam(lambda k: M("Zr", v(j)(k), False)), (), False, "ext"), ZERO, n)
    use_completeness(vm, ob)
    Vs = gFun(m, lambda j: M("G1", C(j)), KT["G1"])
    run_sum(vm, st, ob, "aggregated", (SU + "NewAggregatedArgument", [pp, Vs, gFun(m, row, "pol/common.Vec"), gFun(m, lambda j: M("Zr", r(j), False), KT["Zr"])]),
            ("(*pol/sum.Proof).VerifyAggregated", [pp, Vs]))

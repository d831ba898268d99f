"""Contracts of package bp: inner-product argument."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq
from engine.ctx import NeedSplit
from .common import *
from .pp import newstruct, fld, bytesval, is_nil, atoms_of, covers_vec, g1s_bytes
from .pp import require_

BP = "pol/bp."


def gBP(st, n, tag="bp", H=None):
    """generic inner-product parameters; H: None for the length of G, 0 for none"""
    h = gVec(tag + ".H", n, "G1") if H is None else NILSLICE
    return newstruct(st, "pol/bp.PP", Digest=bytesval(tag + ".Digest", 32), G=gVec(tag + ".G", n, "G1"), H=h, U=gG1(tag + ".U"))


def bpdigest(U, g, h, n, hn):
    k = fresh("b")
    ki = isym(k)
    body = schunk("g1", g(ki)) if hn is ZERO else scat(schunk("g1", g(ki)), schunk("g1", h(ki)))
    return schunk("sha", scat(schunk("g1", U), smap(k, ZERO, n, body)))


def bpfields(vm, st, p):
    G, H = fld(vm, st, p, "G"), fld(vm, st, p, "H")
    return G, H, F_(vm, st, fld(vm, st, p, "U")), vm.bytes_of(st, fld(vm, st, p, "Digest"))


def hn_of(st, G, H):
    if H.ref is None or H.n is ZERO:
        return ZERO
    if not st.ctx.proves(eq(G.n, H.n)):
        require_(st, eq(G.n, H.n))
    if st.ctx.proves(eq(H.n, 0)):
        return ZERO
    return H.n


def bp_one(vm, st):
    """parameters with as many H as G, and with no H"""
    out = []
    for H in (None, 0):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [gBP(s, n, H=H)]))
    return out


def setup_digest(vm, st, a):
    p = a[0]
    G, H, U, _ = bpfields(vm, st, p)
    s = bpdigest(U, fun(vm, st, G), fun(vm, st, H), G.n, hn_of(st, G, H))
    vm.store(st, Ptr(p.ref, p.path + ("Digest",)), vm.mkbytes(st, s))
    return None


contract("(*pol/bp.PP).setupDigest", bp_one, "C17 C21")(setup_digest)
contract("(*pol/bp.PP).RecomputeDigest", bp_one, "C17 C21")(setup_digest)


def randgen(ctxs, k):
    return mk("fapp", ("h2g", genstring(sconst(ctxs), k)), "F")


@contract(BP + "NewPublicParams", one(lambda st: gLen(st, "n", 1)), "C21")
def _(vm, st, a):
    n = a[0]
    require_(st, le(1, n))
    g, h = (lambda k: randgen(b"g", k)), (lambda k: randgen(b"h", k))
    U = randgen(b"u", ZERO)
    return newstruct(st, "pol/bp.PP", True, G=mkvec(st, n, g, "G1"), H=mkvec(st, n, h, "G1"), U=vm.newm(st, M("G1", U)),
                     Digest=vm.mkbytes(st, bpdigest(U, g, h, n, n)))


# ---------------------------------------------------------------- inner-product argument
def vb(tag, f, n):
    k = fresh("b")
    return smap(k, ZERO, as_i(n), schunk(tag, f(isym(k))))


def ipa_enc(D, U, P, g, h, n, L, ln, a=None, b=None):
    """everything the recursive verifier looks at"""
    return schunk("IPA", D, n, ln, scat(schunk("g1", U), schunk("g1", P), vb("g1", g, n), vb("g1", h, n)),
                  scat(vb("g1", L, ln), *([schunk("zrv", a), schunk("zrv", b)] if a is not None else [])))


def pred(name, s):
    return feq(mk("fu", (name, s), "F"), F1)


def next_params(D, U, P, g, h, m, L, R):
    """one round of folding from 2m to m"""
    x = fe(schunk("sha", scat(schunk("sha", scat(schunk("g1", L), schunk("g1", R), D)), schunk("g1", P))))
    y = finv(x)
    g2 = lambda k: fadd(fmul(g(k), y), fmul(g(iadd(m, k)), x))
    h2 = lambda k: fadd(fmul(h(k), x), fmul(h(iadd(m, k)), y))
    P2 = fadd(P, fmul(L, x, x), fmul(R, y, y))
    return x, y, g2, h2, P2


def ver_args(vm, st, H):
    pp, Pv, g, h, L, a, b = H
    G, HH, U, D = bpfields(vm, st, pp)
    return D, U, F_(vm, st, Pv), fun(vm, st, g), fun(vm, st, h), g.n, L, F_(vm, st, a), F_(vm, st, b)


def ver_gen(vm, st):
    out = []
    for big in (False, True):
        s = st.clone()
        pp = newstruct(s, "pol/bp.PP", Digest=bytesval("D", 32), G=gVec("G", gLen(s, "gn"), "G1"), H=gVec("H", gLen(s, "hn"), "G1"), U=gG1("U"))
        n = ONE if not big else iscale(gLen(s, "m", 1), 2)
        out.append((s, [pp, gG1("P"), gVec("g", n, "G1"), gVec("h", n, "G1"), gVec("LR", gLen(s, "ln"), "G1"), gZr("a", False), gZr("b", False)]))
    return out


def ver_call(vm, st, A):
    """the outcome is the predicate IPA of all inputs; its unfolding is checked against the body"""
    D, U, P, g, h, n, L, a, b = ver_args(vm, st, A)
    require_(st, eq(A[3].n, n))
    if not st.ctx.proves(le(1, n)):
        raise Unsupported("verify of empty generators")
    c = pred("IPA", ipa_enc(D, U, P, g, h, n, fun(vm, st, L), L.n, a, b))
    return cases(st, (c, lambda s: NIL), (Not(c), lambda s: ErrV("ipa")))


def ver_unfold(vm, st, A):
    D, U, P, g, h, n, L, a, b = ver_args(vm, st, A)
    if n is ONE:
        c = feq(P, fadd(fmul(U, a, b), fmul(g(ZERO), a), fmul(h(ZERO), b)))
        return cases(st, (c, lambda s: NIL), (Not(c), lambda s: ErrV("ipa")))

    def go(s):
        lr = fun(vm, s, L)
        m = idiv(n, I(2))
        m = s.ctx.norm_int(m)
        x, y, g2, h2, P2 = next_params(D, U, P, g, h, m, lr(ZERO), lr(ONE))
        c = pred("IPA", ipa_enc(D, U, P2, g2, h2, m, lambda k: lr(iadd(k, 2)), isub(L.n, 2), a, b))
        return cases(s, (c, lambda s: NIL), (Not(c), lambda s: ErrV("ipa")))
    return cases(st, (le(2, L.n), go), (lt(L.n, 2), lambda s: ErrV("short")))


contract(BP + "verify", ver_gen, "C11", unfold=ver_unfold)(ver_call)


def spec_params(U, P, c, G, H, n, D):
    """parameters with the statement bound into U"""
    x = fe(schunk("sha", scat(schunk("g1", P), schunk("zr", c), D)))
    U2 = fmul(U, x)
    return U2, fadd(P, fmul(U, x, c)), bpdigest(U2, G, H, n, n)


def gIPP(st, c=True, t="pol/bp.InnerProductProof"):
    return newstruct(st, t, LRs=gVec("LR", gLen(st, "ln"), "G1"), a=gZr("a", False), b=gZr("b", False), P=gG1("P"), C=gZr("c", c))


def ipv_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [gIPP(s, c), gBP(s, n)]))
    return out


def zrbytes(vm, st, x):
    """bytes of a scalar, as the code hashes them"""
    return vm.call_fn(st, "(*github.com/IBM/mathlib.Zr).Bytes", [x])[0]


@contract("(*pol/bp.InnerProductProof).Verify", ipv_gen, "C11 C17")
def _(vm, st, A):
    pf, pp = A
    G, H, U, D = bpfields(vm, st, pp)
    require_(st, And(eq(G.n, H.n), le(1, G.n)))
    P, cz = F_(vm, st, fld(vm, st, pf, "P")), fld(vm, st, pf, "C")
    x = fe(schunk("sha", scat(schunk("g1", P), vm.bytes_of(st, zrbytes(vm, st, cz).val), D)))
    c = F_(vm, st, cz)
    U2 = fmul(U, x)
    P2 = fadd(P, fmul(U, x, c))
    g, h = fun(vm, st, G), fun(vm, st, H)
    L = fld(vm, st, pf, "LRs")
    q = pred("IPA", ipa_enc(bpdigest(U2, g, h, G.n, G.n), U2, P2, g, h, G.n, fun(vm, st, L), L.n, F_(vm, st, fld(vm, st, pf, "a")), F_(vm, st, fld(vm, st, pf, "b"))))
    return cases(st, (q, lambda s: NIL), (Not(q), lambda s: ErrV("ipa")))


def fuF(name, s, *idx):
    return mk("fu", (name, s) + tuple(as_i(i) for i in idx), "F")


def prv_enc(D, U, P, g, h, n, a, b):
    return schunk("IPP", D, n, scat(schunk("g1", U), schunk("g1", P), vb("g1", g, n), vb("g1", h, n)), scat(vb("zrv", a, n), vb("zrv", b, n)))


def lrn(n):
    return iapp("LRn", n)


def prv_args(vm, st, A):
    pp, a, b, Pv, g, h = A
    _, _, U, D = bpfields(vm, st, pp)
    return D, U, F_(vm, st, Pv), fun(vm, st, g), fun(vm, st, h), g.n, fun(vm, st, a), fun(vm, st, b)


def prv_gen(vm, st):
    out = []
    for big in (False, True):
        s = st.clone()
        pp = newstruct(s, "pol/bp.PP", Digest=bytesval("D", 32), G=gVec("G", gLen(s, "gn"), "G1"), H=gVec("H", gLen(s, "hn"), "G1"), U=gG1("U"))
        n = ONE if not big else iscale(gLen(s, "m", 1), 2)
        out.append((s, [pp, gVec("a", n, canon=False), gVec("b", n, canon=False), gG1("P"), gVec("g", n, "G1"), gVec("h", n, "G1")]))
    return out


def prv_result(vm, st, enc, n):
    ln = lrn(n)
    st.ctx = st.ctx.assume(le(0, ln))
    return Tup((mkslice(st, ln, lambda k: M("G1", fuF("ipa.LR", enc, k)), KT["G1"]),
                mkslice(st, I(2), lambda k: M("Zr", fuF("ipa.ab", enc, k), False), KT["Zr"])))


def prv_call(vm, st, A):
    D, U, P, g, h, n, a, b = prv_args(vm, st, A)
    for v in (A[1], A[2], A[5]):
        require_(st, eq(v.n, n))
    if not st.ctx.proves(le(1, n)):
        raise Unsupported("prove with empty generators")
    return prv_result(vm, st, prv_enc(D, U, P, g, h, n, a, b), n)


def prv_step(D, U, P, g, h, m, a, b):
    """messages and the smaller statement of one round (2m -> m)"""
    S = lambda f: Sum(ZERO, m, f)
    L = S(lambda k: fadd(fmul(a(k), g(iadd(m, k))), fmul(b(iadd(m, k)), h(k)), fmul(U, a(k), b(iadd(m, k)))))
    R = S(lambda k: fadd(fmul(a(iadd(m, k)), g(k)), fmul(b(k), h(iadd(m, k))), fmul(U, a(iadd(m, k)), b(k))))
    x, y, g2, h2, P2 = next_params(D, U, P, g, h, m, L, R)
    a2 = lambda k: fadd(fmul(a(k), x), fmul(a(iadd(m, k)), y))
    b2 = lambda k: fadd(fmul(b(k), y), fmul(b(iadd(m, k)), x))
    return L, R, (D, U, P2, g2, h2, m, a2, b2)


def prv_unfold(vm, st, A):
    D, U, P, g, h, n, a, b = prv_args(vm, st, A)
    if n is ONE:
        return Tup((NILSLICE, mkslice(st, I(2), lambda k: M("Zr", fite(eq(k, 0), a(ZERO), b(ZERO)), False), KT["Zr"])))
    m = st.ctx.norm_int(idiv(n, I(2)))
    L, R, nx = prv_step(D, U, P, g, h, m, a, b)
    enc = prv_enc(*nx)
    r = prv_result(vm, st, enc, m)
    f = lambda k: M("G1", fite(eq(k, 0), L, fite(eq(k, 1), R, fuF("ipa.LR", enc, isub(k, 2)))))
    return Tup((mkslice(st, iadd(lrn(m), 2), f, KT["G1"]), r.v[1]))


contract(BP + "prove", prv_gen, "C11", unfold=prv_unfold)(prv_call)


def inner(a, b, n):
    return Sum(ZERO, n, lambda k: fmul(a(k), b(k)))


def ipastruct(st, pp, a, b, C, P):
    return newstruct(st, "pol/bp.InnerProdArgument", True, pp=pp, a=a, b=b, C=C, P=P)


def ipa_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [gBP(s, n), gVec("a", n, canon=c), gVec("b", n, canon=c)]))
    return out


@contract(BP + "NewInnerProdArgument", ipa_gen, "C11")
def _(vm, st, A):
    pp, a, b = A
    G, H, U, D = bpfields(vm, st, pp)
    n = G.n
    for v in (H, a, b):
        require_(st, eq(v.n, n))
    af, bf = fun(vm, st, a), fun(vm, st, b)
    C = calls1(vm, st, "(pol/common.Vec).InnerProd", [a, b])
    P = fadd(inner(af, fun(vm, st, G), n), inner(bf, fun(vm, st, H), n))
    return ipastruct(st, pp, a, b, C, vm.newm(st, M("G1", P)))


def calls1(vm, st, name, args):
    """the single returning outcome of a contract"""
    st.path = st.path or ("spec",)
    evs = [e for e in calls(vm, st, name, args) if e.kind == "ret"]
    if len(evs) != 1:
        raise Unsupported("contract of %s has several outcomes" % name)
    st.heap.update(evs[0].st.heap)
    return evs[0].val


def iprove_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        n = gLen(s, "n", 1)
        out.append((s, [ipastruct(s, gBP(s, n), gVec("a", n, canon=False), gVec("b", n, canon=False), gZr("c", c), gG1("P"))]))
    return out


@contract("(*pol/bp.InnerProdArgument).Prove", iprove_gen, "C11 C17")
def _(vm, st, A):
    ipa = A[0]
    pp = fld(vm, st, ipa, "pp")
    G, H, U, D = bpfields(vm, st, pp)
    require_(st, And(eq(G.n, H.n), le(1, G.n)))
    Pv, cz = fld(vm, st, ipa, "P"), fld(vm, st, ipa, "C")
    P, c = F_(vm, st, Pv), F_(vm, st, cz)
    a, b = fld(vm, st, ipa, "a"), fld(vm, st, ipa, "b")
    require_(st, And(eq(G.n, a.n), eq(b.n, a.n)))
    x = fe(schunk("sha", scat(schunk("g1", P), vm.bytes_of(st, zrbytes(vm, st, cz).val), D)))
    g, h = fun(vm, st, G), fun(vm, st, H)
    U2 = fmul(U, x)
    enc = prv_enc(bpdigest(U2, g, h, G.n, G.n), U2, fadd(P, fmul(U, x, c)), g, h, G.n, fun(vm, st, a), fun(vm, st, b))
    r = prv_result(vm, st, enc, G.n)
    el2 = lambda k: M("Zr", fuF("ipa.ab", enc, k), False)
    return newstruct(st, "pol/bp.InnerProductProof", True, C=cz, P=Pv, LRs=r.v[0], a=el2(0), b=el2(1))


# ---------------------------------------------------------------- completeness of the argument
def ipa_inv(U, P, g, h, n, a, b):
    return fsub(P, fadd(inner(a, g, n), inner(b, h, n), fmul(U, inner(a, b, n))))


def ipa_complete_rule(enc_args, ver):
    """induction hypothesis: a statement satisfying the invariant is accepted with the prover's answer"""


@lemma("C11.induction", "C11 C13 C15 C16", "")
def _(vm, st, ob):
    """P = <a,g> + <b,h> + U<a,b> is preserved by a round of the prover, the verifier's next statement is the prover's, and the
    one-element equation follows: by induction on log2 n every honest argument is accepted"""
    g, h, a, b = (lambda k, f=f: fapp(f, k) for f in "ghab")
    U, D = fsym("U"), ssym("D", I(32))
    m = gLen(st, "m", 1)
    P = fadd(inner(a, g, iscale(m, 2)), inner(b, h, iscale(m, 2)), fmul(U, inner(a, b, iscale(m, 2))))
    L, R, nx = prv_step(D, U, P, g, h, m, a, b)
    ob("invariant", norm.field_equal(st.ctx, ipa_inv(nx[1], nx[2], nx[3], nx[4], nx[5], nx[6], nx[7]), F0), "one folding round breaks the invariant")
    # the verifier, given [L, R] ++ rest, continues with exactly the same statement
    enc = prv_enc(*nx)
    ln = iadd(lrn(m), 2)
    lr = lambda k: fite(eq(k, 0), L, fite(eq(k, 1), R, fuF("ipa.LR", enc, isub(k, 2))))
    st.ctx = st.ctx.assume(le(0, lrn(m)))
    pp = newstruct(st, "pol/bp.PP", Digest=bytesval("D", 32), G=NILSLICE, H=NILSLICE, U=M("G1", U))
    V_ = [pp, M("G1", P), gVec("g", iscale(m, 2), "G1"), gVec("h", iscale(m, 2), "G1"), gFun(ln, lambda k: M("G1", lr(k)), KT["G1"]),
          M("Zr", fuF("ipa.ab", enc, 0), False), M("Zr", fuF("ipa.ab", enc, 1), False)]
    want = honest(nx, enc)
    evs = run_split(st, lambda s: SPECS[BP + "verify"].unfold(vm, s, V_))
    n = 0
    for e in evs:
        if e.st.ctx.inconsistent():
            continue
        n += 1
        c = e.st.ctx.assume(want)
        ob("same statement%d" % n, c.inconsistent() or is_nil(e), "the verifier continues with another statement: %s" % e)
    ob("reached", n > 0)
    # one element
    s = st
    P1 = fadd(fmul(a(ZERO), g(ZERO)), fmul(b(ZERO), h(ZERO)), fmul(U, a(ZERO), b(ZERO)))
    V1 = [pp, M("G1", P1), gVec("g", ONE, "G1"), gVec("h", ONE, "G1"), NILSLICE, M("Zr", a(ZERO), False), M("Zr", b(ZERO), False)]
    for e in run_split(s, lambda t: SPECS[BP + "verify"].unfold(vm, t, V1)):
        if not e.st.ctx.inconsistent():
            ob("base", is_nil(e), "the one-element argument is refused")


def honest(nx, enc):
    """IPA accepts the honest answer to the statement nx"""
    D, U, P, g, h, n, a, b = nx
    return pred("IPA", ipa_enc(D, U, P, g, h, n, lambda k: fuF("ipa.LR", enc, k), lrn(n), fuF("ipa.ab", enc, 0), fuF("ipa.ab", enc, 1)))


def assume_honest(vm, st, ob, U, P, c, g, h, n, a, b, D, cbytes):
    """use the induction lemma for the argument about (P, c): its hypothesis is proved here, its conclusion is the returned fact"""
    x = fe(schunk("sha", scat(schunk("g1", P), cbytes, D)))
    U2, P2 = fmul(U, x), fadd(P, fmul(U, x, c))
    ob("ipa invariant", norm.split_prove(st.ctx, lambda cc: norm.field_equal(cc, ipa_inv(U2, P2, g, h, n, a, b), F0)), "the statement of the inner-product argument does not hold for the honest vectors")
    nx = (bpdigest(U2, g, h, n, n), U2, P2, g, h, n, a, b)
    return honest(nx, prv_enc(*nx))


def use_completeness(vm, ob):
    """while proving, show the hypothesis of C11.induction for every inner-product argument that is built and use its conclusion"""
    def prove(vm, st, A):
        ipa = A[0]
        G, H, U, D = bpfields(vm, st, fld(vm, st, ipa, "pp"))
        c, P = fld(vm, st, ipa, "C"), F_(vm, st, fld(vm, st, ipa, "P"))
        a, b = fun(vm, st, fld(vm, st, ipa, "a")), fun(vm, st, fld(vm, st, ipa, "b"))
        r = SPECS["(*pol/bp.InnerProdArgument).Prove"].fn(vm, st, A)
        f = assume_honest(vm, st, ob, U, P, F_(vm, st, c), fun(vm, st, G), fun(vm, st, H), G.n, a, b, D, vm.bytes_of(st, zrbytes(vm, st, c).val))
        for e in r:
            e.st.ctx = e.st.ctx.assume(f)
        return r
    vm.contracts = dict(vm.contracts)
    vm.contracts["(*pol/bp.InnerProdArgument).Prove"] = prove


@lemma("C11.complete", "C11", BP + "NewInnerProdArgument (*pol/bp.InnerProdArgument).Prove (*pol/bp.InnerProductProof).Verify")
def _(vm, st, ob):
    """NewInnerProdArgument, Prove, Verify = nil for every power of two n, generators, a, b; the statement is (commitment to a and b, <a,b>)"""
    n = gLen(st, "n", 1)
    pp = gBP(st, n)
    a, b = gVec("a", n), gVec("b", n)
    af, bf, g, h = fun(vm, st, a), fun(vm, st, b), (lambda k: fapp("bp.G", k)), (lambda k: fapp("bp.H", k))
    for e in calls(vm, st, BP + "NewInnerProdArgument", [pp, a, b]):
        s = e.st
        c, P = fld(vm, s, e.val, "C"), F_(vm, s, fld(vm, s, e.val, "P"))
        ob("product", norm.field_equal(s.ctx, F_(vm, s, c), inner(af, bf, n)), "the claimed inner product is not <a,b>")
        ob("commitment", norm.field_equal(s.ctx, P, fadd(inner(af, g, n), inner(bf, h, n))), "the commitment is not the commitment to a and b")
        for e2 in calls(vm, s, "(*pol/bp.InnerProdArgument).Prove", [e.val]):
            s2 = e2.st
            hyp = assume_honest(vm, s2, ob, fsym("bp.U"), P, F_(vm, s2, c), g, h, n, af, bf, ssym("bp.Digest", I(32)), vm.bytes_of(s2, zrbytes(vm, s2, c).val))
            s2.ctx = s2.ctx.assume(hyp)
            k = 0
            for e3 in calls(vm, s2, "(*pol/bp.InnerProductProof).Verify", [e2.val, pp]):
                ob("verifies%d" % k, is_nil(e3), "an honest argument is refused")
                k += 1
            ob("verified", k > 0)

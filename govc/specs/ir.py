"""Contracts of package bp: iterated reduction."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq
from .common import *
from .pp import newstruct, fld, bytesval, is_nil, require_
from .bp import *


def gDelta(st, name="Δ", n=None):
    ln = gLen(st, name + ".len") if n is None else n
    return gFun(ln, lambda k: ArrV(tuple(M("G1", fapp(name, k, I(j))) for j in range(3))), "[3]*github.com/IBM/mathlib.G1")


def irv_gen(vm, st):
    K = gLen(st, "K", 1, 16)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume(lt(n, 65536), le(2, n), Or(*[eq(n, 1 << k) for k in range(1, 16)]))
    pp = newstruct(st, "pol/bp.PP", Digest=bytesval("D", 32), G=gVec("G", n, "G1"), H=NILSLICE, U=gG1("U"))
    return [(st, [pp, gG1("V"), gDelta(st), gZr("u", False)])]


def chF(x):
    """field term of a group/scalar chunk"""
    return x.args[-1]


def smap_at(s, i):
    if s.op != "smap":
        return None
    return subst(s.args[3], {s.args[0]: iadd(s.args[1], i)})


def dmap(n, d):
    k = fresh("b")
    ki = isym(k)
    return smap(k, ZERO, n, scat(*[schunk("g1", d(ki, j)) for j in range(3)]))


def ch_ir(A, B, D, V):
    """the challenge of a round"""
    return fe(schunk("sha", scat(schunk("sha", scat(schunk("g1", A), schunk("g1", B), D)), schunk("g1", V))))


def irg_enc(D, K, g, V, d, dn):
    return schunk("IRG", D, K, vb("g1", g, ipow(I(2), K)), schunk("g1", V), dmap(dn, d))


def tstep(ctx, t):
    """t = t' + 1 with t' >= 0 -> t'"""
    c, m = lin_of(t)
    if c >= 1 and ctx.proves(le(1, t)):
        return isub(t, 1)
    return None


def irg_hook(node, ctx):
    enc, t, k = node.args[1:]
    D, K, gm, Vc, dm = enc.args[1:]
    if t is ZERO or ctx.proves(eq(t, 0)):
        e = smap_at(gm, k)
        return chF(e) if e is not None else None
    p = tstep(ctx, t)
    if p is None or dm.op != "smap":
        return None
    x = irg_x(enc, p)
    f = lambda kk: mk("fu", ("irG", enc, p, kk), "F")
    return fadd(f(k), fmul(f(iadd(k, ipow(I(2), isub(isub(K, 1), p)))), finv(x)))


norm.FUREC["irG"] = irg_hook


def irg_x(enc, t):
    """challenge of round t of the verifier"""
    D, K, gm, Vc, dm = enc.args[1:]
    e = smap_at(dm, t).args
    pv = chF(smap_at(dm, isub(t, 1)).args[2])
    return ch_ir(chF(e[0]), chF(e[1]), D, fite(eq(t, 0), chF(Vc), pv))


def dfun(vm, st, d):
    """element j of message t"""
    def f(t, j):
        c = st.ctx.assume(le(0, t), lt(t, d.n))
        e = aget(c, st.obj(d.ref), iadd(d.off, t))
        return vm.mval(st, e.v[j]).f
    return f


def log2(n):
    """K of a length 2^K"""
    c, m = lin_of(n)
    if c == 0 and len(m) == 1:
        (a, f), = m.items()
        if a.op == "ipow" and a.args[0] is I(2) and f > 0 and f & (f - 1) == 0:
            return iadd(a.args[1], f.bit_length() - 1)
    raise Unsupported("iterated reduction over a length that is not 2^K")


def irv_parts(vm, st, A):
    pp, Vv, Δ, u = A
    G, H, U, D = bpfields(vm, st, pp)
    n = st.ctx.norm_int(G.n)
    K = log2(n)
    if not st.ctx.proves(And(le(1, K), le(K, 15))):
        raise Unsupported("iterated reduction over an unsupported length")
    return D, K, fun(vm, st, G), F_(vm, st, Vv), (dfun(vm, st, Δ) if Δ.ref is not None else (lambda t, j: F0)), Δ.n, F_(vm, st, u)


def irv_recs(vm, st, A):
    D, K, g, V_, d, dn, u = irv_parts(vm, st, A)
    return [("irG", irg_enc(D, K, g, V_, d, dn))]


def irv_xs(D, V_, d):
    return lambda t: ch_ir(d(t, 0), d(t, 1), D, fite(eq(t, 0), V_, d(isub(t, 1), 2)))


def round_eq(D, V_, d, x, t):
    return feq(d(t, 2), fadd(fmul(d(t, 0), x(t)), fmul(d(t, 1), finv(x(t))), fite(eq(t, 0), V_, d(isub(t, 1), 2))))


def irv_out(vm, s, K, x, u):
    return Tup((mkvec(s, K, x), u, NIL))


IRERR = lambda: Tup((NILSLICE, NIL, ErrV("ir")))


def irv_unfold(vm, st, A):
    D, K, g, V_, d, dn, u = irv_parts(vm, st, A)
    x = irv_xs(D, V_, d)
    enc = irg_enc(D, K, g, V_, d, dn)
    out = cases(st, (lt(dn, K), lambda s: IRERR()))
    s = st.assume(le(K, dn))
    if s.ctx.inconsistent():
        return out
    r = isym(fresh("r"))
    out += cases(s, (And(le(0, r), lt(r, K), Not(round_eq(D, V_, d, x, r))), lambda s_: IRERR()))
    v = fresh("q")
    fin = feq(fmul(mk("fu", ("irG", enc, K, ZERO), "F"), u), d(isub(K, 1), 2))
    s2 = s.assume(forall(v, ZERO, K, round_eq(D, V_, d, x, isym(v))))
    out += cases(s2, (fin, lambda t: irv_out(vm, t, K, x, A[3])), (Not(fin), lambda t: IRERR()))
    return out


def irv_enc(D, K, g, V_, d, dn, u):
    return schunk("IRV", D, K, vb("g1", g, ipow(I(2), K)), scat(schunk("g1", V_), dmap(dn, d), schunk("zrv", u)), dn)


def irv_call(vm, st, A):
    P = irv_parts(vm, st, A)
    c = pred("IRV", irv_enc(*P))
    x = irv_xs(P[0], P[3], P[4])

    def good(s):
        s.ctx = s.ctx.assume(le(P[1], P[5]))     # an accepted reduction has all its rounds
        return irv_out(vm, s, P[1], x, A[3])
    return cases(st, (c, good), (Not(c), lambda s: IRERR()))


contract(BP + "IterativeVerify", irv_gen, "C12 C17", unfold=irv_unfold, recs=irv_recs)(irv_call)


# ---------------------------------------------------------------- prover
def irp_enc(D, K, g, v, V_):
    n = ipow(I(2), K)
    return schunk("IRP", D, K, vb("g1", g, n), vb("zrv", v, n), schunk("g1", V_))


def irp_f(name, enc):
    return lambda t, k: mk("fu", (name, enc, as_i(t), as_i(k)), "F")


def irp_half(enc, t):
    return ipow(I(2), isub(isub(enc.args[2], 1), t))


def irp_AB(enc, t):
    G, v, n = irp_f("irpG", enc), irp_f("irpv", enc), irp_half(enc, t)
    A = Sum(ZERO, n, lambda k: fmul(G(t, k), v(t, iadd(n, k))))
    B = Sum(ZERO, n, lambda k: fmul(G(t, iadd(n, k)), v(t, k)))
    return A, B


def irp_V(enc, t):
    """commitment before round t"""
    V0 = chF(enc.args[5])
    if t is ZERO:
        return V0
    G, v = irp_f("irpG", enc), irp_f("irpv", enc)
    rest = Sum(ZERO, ipow(I(2), isub(enc.args[2], t)), lambda k: fmul(G(t, k), v(t, k)))
    return fite(eq(t, 0), V0, rest)


def irp_x(enc, t):
    A, B = irp_AB(enc, t)
    return ch_ir(A, B, enc.args[1], irp_V(enc, t))


def irp_hook(which):
    def hook(node, ctx):
        if len(node.args) != 4:
            return None
        enc, t, k = node.args[1:]
        if t is ZERO or ctx.proves(eq(t, 0)):
            e = smap_at(enc.args[3 if which == "irpG" else 4], k)
            return chF(e) if e is not None else None
        p = tstep(ctx, t)
        if p is None:
            return None
        f = irp_f(which, enc)
        x = irp_x(enc, p)
        k2 = iadd(k, irp_half(enc, p))
        return fadd(f(p, k), fmul(f(p, k2), finv(x) if which == "irpG" else x))
    return hook


norm.FUREC["irpG"] = irp_hook("irpG")
norm.FUREC["irpv"] = irp_hook("irpv")


def irpV_hook(node, ctx):
    if len(node.args) != 3:
        return None
    enc, t = node.args[1:]
    if t is ZERO or ctx.proves(eq(t, 0)):
        return chF(enc.args[5])
    if ctx.proves(le(1, t)):
        G, v = irp_f("irpG", enc), irp_f("irpv", enc)
        return Sum(ZERO, ipow(I(2), isub(enc.args[2], t)), lambda k: fmul(G(t, k), v(t, k)))
    return None


norm.FUREC["irpV"] = irpV_hook


def irp_gen(vm, st):
    K = gLen(st, "K", 1, 16)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume(lt(n, 65536), le(2, n), Or(*[eq(n, 1 << k) for k in range(1, 16)]))
    pp = newstruct(st, "pol/bp.PP", Digest=bytesval("D", 32), G=gVec("G", n, "G1"), H=NILSLICE, U=gG1("U"))
    return [(st, [pp, gVec("v", n, canon=False), gG1("V")])]


def irp_parts(vm, st, A):
    pp, v, Vv = A
    G, H, U, D = bpfields(vm, st, pp)
    n = st.ctx.norm_int(G.n)
    K = log2(n)
    if not st.ctx.proves(And(le(1, K), le(K, 15))):
        raise Unsupported("iterated reduction over an unsupported length")
    require_(st, eq(v.n, n))
    return irp_enc(D, K, fun(vm, st, G), fun(vm, st, v), F_(vm, st, Vv)), K


@contract(BP + "IterativeReduce", irp_gen, "C12 C17", recs=lambda vm, st, A: [(n, irp_parts(vm, st, A)[0]) for n in ("irpG", "irpv", "irpV")])
def _(vm, st, A):
    enc, K = irp_parts(vm, st, A)
    G, v = irp_f("irpG", enc), irp_f("irpv", enc)

    def msg(t):
        a, b = irp_AB(enc, t)
        return ArrV(tuple(M("G1", f) for f in (a, b, irp_V(enc, iadd(t, 1)))))
    return Tup((mkslice(st, K, msg, "[3]*github.com/IBM/mathlib.G1"), mkvec(st, K, lambda t: irp_x(enc, t)), M("Zr", v(K, ZERO), False)))


# ---------------------------------------------------------------- completeness
def ir_honest(vm, st, extra=None):
    """an honest reduction: parameters, vector, its commitment, the prover's answer and the verifier's view of it"""
    K = gLen(st, "K", 1, 16)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume(lt(n, 65536), le(2, n), Or(*[eq(n, 1 << k) for k in range(1, 16)]))
    g, v = (lambda k: fapp("G", k)), (lambda k: fapp("v", k))
    pp = newstruct(st, "pol/bp.PP", Digest=bytesval("D", 32), G=gVec("G", n, "G1"), H=NILSLICE, U=gG1("U"))
    V0 = Sum(ZERO, n, lambda k: fmul(g(k), v(k)))
    Vv = vm.newm(st, M("G1", V0))
    A = [pp, gVec("v", n, canon=False), Vv]
    enc, _ = irp_parts(vm, st, A)
    return K, pp, Vv, A, enc


def same_generators(ctx, t, enc, K):
    """hypothesis or conclusion of C12.induction: the folded generators of verifier and prover agree (after round t, or all rounds)"""
    c = ctx.copy()

    def h(node, cx):
        if cx.proves(eq(node.args[2], t) if t is not None else And(le(0, node.args[2]), le(node.args[2], K))):
            return irp_f("irpG", enc)(node.args[2], node.args[3])
        return None
    c.hooks["fu:irG"] = h
    return c


def honest_view(vm, st, A, Vv):
    out = []
    for e in calls(vm, st, BP + "IterativeReduce", A):
        out.append((e.st, e.val, irv_parts(vm, e.st, [A[0], Vv, e.val.v[0], e.val.v[2]])))
    return out


@lemma("C12.induction", "C12 C13", BP + "IterativeReduce")
def _(vm, st, ob):
    """the verifier folds the generators as the prover does: by induction on the round; the commitment of each round commits to the folded vector"""
    K, pp, Vv, A, enc = ir_honest(vm, st)
    views = honest_view(vm, st, A, Vv)
    ob("one outcome", len(views) == 1)
    s, r, (D, K_, g, V_, d, dn, u) = views[0]
    ev = irg_enc(D, K, g, V_, d, dn)
    f = lambda t, k: mk("fu", ("irG", ev, as_i(t), as_i(k)), "F")
    F = irp_f("irpG", enc)
    k = isym("k")
    ob("base", norm.field_equal(s.ctx, f(ZERO, k), F(ZERO, k)), "different generators at the start")
    t = isym("t")
    c = s.ctx.assume(le(0, t), lt(t, K), le(0, k), lt(k, irp_half(enc, t)))
    c = same_generators(c, t, enc, K)
    ob("step", norm.split_prove(c, lambda cc: norm.field_equal(cc, f(iadd(t, 1), k), F(iadd(t, 1), k))), "the verifier folds differently")


@lemma("C12.complete", "C12 C13", BP + "IterativeReduce")
def _(vm, st, ob):
    """every honest reduction satisfies every round equation and the final equation, with the prover's challenges"""
    K, pp, Vv, A, enc = ir_honest(vm, st)
    s, r, P = honest_view(vm, st, A, Vv)[0]
    D, K_, g, V_, d, dn, u = P
    ob("rounds", s.ctx.proves(eq(dn, K)), "the number of rounds is not log2 of the length")
    x = irv_xs(D, V_, d)
    t = isym("t")
    c = s.ctx.assume(le(0, t), lt(t, K))
    # Sum over both halves of a vector: generic statement about the prover's folded values
    ob("round", norm.split_prove(c, lambda cc: cc.proves(round_eq(D, V_, d, x, t))), "a round equation fails for honest messages")
    ob("challenge", norm.split_prove(c, lambda cc: norm.field_equal(cc, x(t), fun(vm, s, r.v[1])(t))), "prover and verifier derive different challenges")
    ev = irg_enc(D, K, g, V_, d, dn)
    c = same_generators(s.ctx, None, enc, K)
    ob("final", norm.split_prove(c, lambda cc: norm.field_equal(cc, fmul(mk("fu", ("irG", ev, K, ZERO), "F"), u), d(isub(K, 1), 2))), "the final equation fails for an honest reduction")

"""Contracts of package bp: range proofs."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq
from .common import *
from .pp import newstruct, fld, bytesval, is_nil, require_
from .bp import *
from .ir import *


def bit(i, j):
    """bit j of i"""
    return imod(idiv(i, ipow(I(2), j)), I(2))


def bd_gen(vm, st):
    K = gLen(st, "K", 1, 16)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume(lt(n, 65536), le(2, n), Or(*[eq(n, 1 << k) for k in range(1, 16)]))
    return [(st, [gLen(st, "i", 0, n), isub(n, 1)])]


@contract(BP + "bitDecomposition", bd_gen, "C12 C13 C14", digits=True)
def _(vm, st, A):
    i, mx = A
    K = log2(iadd(mx, 1))
    return mkslice(st, K, lambda j: bit(i, j), "uint8")


RP = "pol/bp.RangeProofPublicParams"


def gRP(st, K):
    n = ipow(I(2), K)
    N = iscale(n, 64)
    return newstruct(st, RP, G=gG1("rp.G"), H=gG1("rp.H"), F=gG1("rp.F"), Gs=gVec("rp.Gs", n, "G1"), Hs=gVec("rp.Hs", N, "G1"), Fs=gVec("rp.Fs", N, "G1"), digest=bytesval("rp.D", 32))


def gPow(st):
    K = gLen(st, "K", 1, 16)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume(lt(n, 65536), le(2, n), Or(*[eq(n, 1 << k) for k in range(1, 16)]))
    return K


def cd_gen(vm, st):
    K = gPow(st)
    n = ipow(I(2), K)
    return [(st, [n, I(63), gVec("f", n), gZr("x")])]


@contract(BP + "computeD", cd_gen, "C13 C14")
def _(vm, st, A):
    n, m, f, x = A
    f_, x_ = fun(vm, st, f), F_(vm, st, x)
    if m.op != "int" or not st.ctx.proves(eq(f.n, n)):
        raise Unsupported("computeD")
    N = imul(n, m)
    return mkvec(st, iadd(N, n), lambda k: fite(lt(k, N), fmul(fpow(F(2), imod(k, m)), f_(idiv(k, m))), fmul(x_, f_(isub(k, N)))), canon=True)


# ---------------------------------------------------------------- verification
def rpfields(vm, st, p):
    f = lambda n: fld(vm, st, p, n)
    Gs, Hs, Fs = f("Gs"), f("Hs"), f("Fs")
    K = log2(st.ctx.norm_int(Gs.n))
    n = ipow(I(2), K)
    require_(st, And(eq(Hs.n, iscale(n, 64)), eq(Fs.n, iscale(n, 64))))
    return {"K": K, "n": n, "g": fun(vm, st, Gs), "h": fun(vm, st, Hs), "f": fun(vm, st, Fs), "G": F_(vm, st, f("G")), "H": F_(vm, st, f("H")),
            "F": F_(vm, st, f("F")), "D": vm.bytes_of(st, f("digest"))}


def gProofR(st, canon=True):
    dn = gLen(st, "dn")
    return newstruct(st, "pol/bp.RangeProof", **{"Δ": gDelta(st, "Δ", dn), "u": gZr("u", canon), "W": gG1("W"), "γ": gZr("γ", canon), "Π": gIPP(st), "c": gZr("c", canon),
                     "Q": gG1("Q"), "R": gG1("R"), "C1": gG1("C1"), "C2": gG1("C2"), "τ": gZr("τ", canon), "ρ": gZr("ρ", canon)})


def ro3(Q_, R_, extra):
    return fe(schunk("sha", scat(schunk("g1", Q_), schunk("g1", R_), extra)))


def ir_digest(g, n):
    return bpdigest(randgen(b"U range proof", ZERO), g, None, n, ZERO)


def weights(K, x):
    """product of the round challenges selected by the bits of the index, last round first"""
    def f(i):
        j = fresh("b")
        return fprod(j, ZERO, K, fite(eq(bit(i, isym(j)), 0), F1, x(isub(isub(K, isym(j)), 1))))
    return f


def vr_gen(vm, st):
    out = []
    for c in (True, False):
        s = st.clone()
        K = gPow(s)
        out.append((s, [gRP(s, K), gProofR(s, c), gG1("V")]))
    return out


def dvec(n, f, x):
    """weights of the bits and of the masks"""
    N = iscale(n, 63)

    def d(k):
        q = idiv(k, I(63))
        return fite(lt(k, N), fmul(fpow(F(2), isub(k, iscale(q, 63))), f(q)), fmul(x, f(isub(k, N))))
    return d


def rp_challenges(vm, st, p, V_, W, Q_, R_, gam, u, delta, C1, C2):
    """the challenges of a range proof; gam, u: scalars as values, delta: bytes of the round messages"""
    x = fe(schunk("sha", scat(p["D"], schunk("g1", V_), schunk("g1", W), schunk("g1", Q_))))
    zb = lambda z: vm.bytes_of(st, zrbytes(vm, st, z).val)
    tail = scat(p["D"], schunk("zr", x), zb(gam), zb(u), delta)
    y = [ro3(Q_, R_, scat(sconst(bytes([b])), tail)) for b in (0, 1)]
    z = ro3(Q_, R_, scat(p["D"], schunk("g1", C1), schunk("g1", C2), schunk("zr", y[0]), schunk("zr", y[1])))
    return x, y[0], y[1], z


def vr_conditions(vm, st, A):
    pp, rp, Vv = A
    p = rpfields(vm, st, pp)
    K, n = p["K"], p["n"]
    R = lambda k: fld(vm, st, rp, k)
    Fl = lambda k: F_(vm, st, R(k))
    Δ = R("Δ")
    d = dfun(vm, st, Δ) if Δ.ref is not None else (lambda t, j: F0)
    V_ = F_(vm, st, Vv)
    x, y0, y1, z = rp_challenges(vm, st, p, V_, Fl("W"), Fl("Q"), Fl("R"), R("γ"), R("u"), dmap(Δ.n, d), Fl("C1"), Fl("C2"))
    # 1. the iterated reduction for V, W and γ
    U = fadd(fmul(p["F"], Fl("γ")), V_, fmul(Fl("W"), x))
    Dr = ir_digest(p["g"], n)
    c1 = pred("IRV", irv_enc(Dr, K, p["g"], U, d, Δ.n, Fl("u")))
    w = weights(K, irv_xs(Dr, U, d))
    dv = dvec(n, w, x)
    # 2. the inner-product argument over the recomputed commitment
    N, N63 = iscale(n, 64), iscale(n, 63)
    fp = lambda k: fmul(p["f"](k), fpow(finv(y0), k))
    U1 = randgen(b"u", ZERO)
    P = fadd(fmul(p["F"], Fl("ρ")), Fl("Q"), fmul(Fl("R"), z), Sum(ZERO, N63, lambda k: fmul(p["h"](k), y1)), Sum(ZERO, N, lambda k: fmul(fp(k), dv(k), y1, y1)),
             Sum(ZERO, N63, lambda k: fmul(p["f"](k), y1)))
    D2 = bpdigest(U1, p["h"], fp, N, N)
    c = R("c")
    x2 = fe(schunk("sha", scat(schunk("g1", P), vm.bytes_of(st, zrbytes(vm, st, c).val), D2)))
    U2, P2 = fmul(U1, x2), fadd(P, fmul(U1, x2, Fl("c")))
    Π = R("Π")
    pi = vm.load(st, Ptr(Π.ref, Π.path)).f
    L = pi["LRs"]
    c2 = pred("IPA", ipa_enc(bpdigest(U2, p["h"], fp, N, N), U2, P2, p["h"], fp, N, fun(vm, st, L), L.n, F_(vm, st, pi["a"]), F_(vm, st, pi["b"])))
    # 3. the polynomial equation
    b1 = Sum(ZERO, N63, lambda k: fpow(y0, k))
    b3 = Sum(ZERO, N63, dv)
    c0 = fadd(fmul(b3, y1, y1, y1), fmul(y1, y1, fadd(Fl("u"), b1)), fmul(b1, y1))
    c3 = feq(fadd(fmul(Fl("C1"), z), fmul(Fl("C2"), z, z), fmul(p["G"], c0)), fadd(fmul(p["G"], Fl("c")), fmul(p["H"], Fl("τ"))))
    return K, Δ.n, Π, c1, c2, c3


@contract(BP + "VerifyRange", vr_gen, "C13 C14 C17 C22")
def _(vm, st, A):
    K, dn, Π, c1, c2, c3 = vr_conditions(vm, st, A)
    bad = lambda s: ErrV("range")

    def touch(s):
        # the verifier leaves its own statement in the proof object
        vm.store(s, Ptr(Π.ref, Π.path + ("C",)), ANY)
        vm.store(s, Ptr(Π.ref, Π.path + ("P",)), ANY)
        return s

    def rest(s):
        touch(s)
        s.ctx = s.ctx.assume(le(K, dn))
        return cases(s, (Not(c2), bad), (c2, lambda s2: cases(s2, (c3, lambda t: NIL), (Not(c3), bad))))
    return cases(st, (Not(c1), bad), (c1, rest))

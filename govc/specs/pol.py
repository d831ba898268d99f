"""Contracts of package pol: the composite proofs."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm
from engine.compare import veq, refute
from engine.ext import zr_eq
from .common import *
from .pp import *
from .pp import ppshape
from .bp import *
from .bp import pred
from .range import gRP, gProofR, gPow
from .sum import gSum, gProof as gSumProof
from .poe import gPOE

PL = "pol/pol."


def gPub(st):
    """parameters as GeneratePublicParams shapes them: fan-out 2^K - 1, one parameter set of each kind"""
    K = gPow(st)
    n = ipow(I(2), K)
    st.ctx = st.ctx.assume()
    F_n = isub(n, 1)
    M_ = gLen(st, "M", 1)
    poe = gPOE(st, iadd(n, 1), M_)
    return K, n, newstruct(st, PL + "PublicParams", PPPP=st.heap[poe.ref].v.f["PP"], SAPP=gSum(st, n), RPPP=gRP(st, K), POEPP=poe, Fanout=F_n)


def tp_gen(vm, st):
    K, n, pub = gPub(st)
    tp = StructV(PL + "TotalProof", {"LiabilityProof": gG1("π"), "Sum": isym("Sum")})
    return [(st, [tp, pub, gG1("V")])]


@contract("(pol/pol.TotalProof).Verify", tp_gen, "C03")
def _(vm, st, A):
    tp, pub, V_ = A
    P = fld(vm, st, pub, "PPPP")
    N, g1, g2, gt = ppshape(vm, st, P)
    i = fld(vm, st, pub, "Fanout")
    g = fun(vm, st, g2)
    ok = And(le(0, i), lt(i, N))

    def go(s):
        e = feq(fmul(F_(vm, s, V_), g(isub(isub(N, i), 1))), fadd(F_(vm, s, tp.f["LiabilityProof"]), fmul(F_(vm, s, gt), fofint(tp.f["Sum"]))))
        return cases(s, (e, lambda t: NIL), (Not(e), lambda t: ErrV("open")))
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


# ---------------------------------------------------------------- liability proofs
def gPath(n, L, tag="path"):
    """positions below the fan-out"""
    def g(st):
        FN_AX[tag] = lambda node: [le(0, node), lt(node, n)]
        return gFun(L, lambda k: iapp(tag, k), "uint16")
    return g


def ident(st, p):
    """which object of the setting a pointer is"""
    if isinstance(p, Ptr) and not isinstance(p.ref, HEAPCLS) and not p.path:
        return sconst(("obj%s" % (p.ref,)).encode())
    if isinstance(p, Opq):
        return p_enc(p)
    raise Unsupported("argument %r of an abstracted verifier" % (p,))


def p_enc(p):
    return p.t if isinstance(p.t, T) else sconst(("opq %s" % p.t).encode())


def yesno(st, c, tag):
    return cases(st, (c, lambda s: NIL), (Not(c), lambda s: ErrV(tag)))


def abs_range(vm, st, A):
    """VerifyRange as a predicate of its arguments: its contract proves that it depends on nothing else
    and writes only the statement fields of the inner-product proof, which nobody reads here"""
    pp, rp, V_ = A
    return yesno(st, pred("RPV", schunk("RPV", ident(st, pp), ident(st, rp), schunk("g1", F_(vm, st, V_)))), "range")


def abs_sum(vm, st, A):
    pf, pp, Vs = A
    return yesno(st, pred("SUMV", schunk("SUMV", ident(st, pf), ident(st, pp), Vs.n, g1s_bytes(vm, st, Vs))), "sum")


def abs_eq(vm, st, A):
    e, pf = A
    f = lambda n: fld(vm, st, e, n)
    ro = f("RO")
    if not isinstance(ro, Clo) or ro.fn != "pol/poe.RO" or ro.bind:
        raise Unsupported("another challenge function for the equality proof")
    k, j = fresh("b"), fresh("b")
    ints = lambda v: smap(k, ZERO, v.n, schunk("int", iel(vm, st, v, isym(k))))
    p = pred("EQV", schunk("EQV", ident(st, f("PP")), ident(st, pf), scat(g1s_bytes(vm, st, f("V")), g1s_bytes(vm, st, f("W"))), scat(ints(f("I")), ints(f("J")))))
    EQARGS[p] = (e, pf, (f("PP"), f("V"), f("W"), f("I"), f("J"), st.clone()))
    return yesno(st, p, "eq")


def lp_gen(vm, st):
    """any scalars (soundness); reduced ones (completeness)"""
    return lp_gen1(vm, st.clone(), False) + lp_gen1(vm, st.clone(), True)


def lp_gen1(vm, st, canon):
    K, n, pub = gPub(st)
    L = gLen(st, "L", 2, 1 << 15)
    path = gPath(n, L)(st)
    lp = StructV(PL + "LiabilityProof", {
        "PointProofΣ": gZr("PΣ", canon), "PointProofπ": gG1("Pπ"), "SumArgumentProof": Opq("sumproof"),
        "V": gVec("V", gLen(st, "vn"), "G1"), "W": gVec("W", gLen(st, "wn"), "G1"), "Digests": gVec("d", gLen(st, "dgn"), canon=canon),
        "RangeProofs": gFun(gLen(st, "rn"), lambda k: Opq(schunk("rp", k)), "*pol/bp.RangeProof"), "EqualityProof": Opq("eqproof"),
        "LiabilityProof": StructV(PL + "TotalProof", {"LiabilityProof": gG1("π"), "Sum": isym("Sum")})})
    id2path = PyFn(lambda vm_, s, A: [V.Ev("ret", s, path)])
    return [(st, [lp, pub, ssym("id", gLen(st, "idn")), gG1("rootV"), gG1("rootW"), id2path])]


LPV = {BP + "VerifyRange": wrap_(abs_range), "(*pol/sum.Proof).VerifyAggregated": wrap_(abs_sum), "(*pol/poe.Equalities).Verify": wrap_(abs_eq)}


EQARGS = {}      # predicate of an abstracted equality proof -> its arguments


def lp_formulas(vm, st, A):
    """what an accepted liability proof is bound to"""
    lp, pub, id_, V0, W0, id2path = A
    path = id2path.f(vm, st, [id_])[0].val
    f = lp.f
    L = path.n
    P = fld(vm, st, pub, "PPPP")
    N, g1, g2, gt = ppshape(vm, st, P)
    g = fun(vm, st, g2)
    D = vm.bytes_of(st, fld(vm, st, P, "Digest"))
    V_, W_, d = fun(vm, st, f["V"]), fun(vm, st, f["W"]), fun(vm, st, f["Digests"])
    b = fresh("b")
    k = isym(b)
    wv = smap(b, ZERO, isub(iscale(L, 2), 1), schunk("g1", fite(lt(k, isub(L, 1)), fapp("W", k), fapp("V", isub(k, isub(L, 1))))))
    ro_ = lambda i: fe(schunk("sha", scat(D, schunk("u32", as_i(i)), wv)))
    same = feq
    pa = lambda i: iel(vm, st, path, as_i(i))
    rps = f["RangeProofs"]
    last = isub(L, 1)
    F0_ = [("counts", And(eq(f["V"].n, L), eq(rps.n, L), eq(f["Digests"].n, L), eq(f["W"].n, last)))]
    q = fresh("q")
    Q_ = isym(q)
    sg = Sum(ZERO, last, lambda i: fmul(d(i), ro_(i)))
    F1_ = [("root V", feq(V_(ZERO), F_(vm, st, V0))),
          ("root W", feq(W_(ZERO), F_(vm, st, W0))),
          ("range proofs", forall(q, ZERO, L, pred("RPV", schunk("RPV", ident(st, fld(vm, st, pub, "RPPP")), p_enc(Opq(schunk("rp", Q_))), schunk("g1", fapp("V", Q_)))))),
          ("inner digests", forall(q, ONE, last, same(fapp("d", isub(Q_, 1)), fe(schunk("sha", scat(schunk("g1", fapp("V", Q_)), schunk("g1", fapp("W", Q_)))))))),
          ("leaf digest", same(fapp("d", isub(L, 2)), fe(schunk("sha", schunk("g1", fapp("V", last)))))),
          ("aggregated digests", same(sg, F_(vm, st, f["PointProofΣ"]))),
          ("hash chain opening", feq(Sum(ZERO, last, lambda i: fmul(W_(i), g(isub(isub(N, pa(i)), 1)), ro_(i))), fadd(F_(vm, st, f["PointProofπ"]), fmul(F_(vm, st, gt), sg)))),
          ("sum argument", pred("SUMV", schunk("SUMV", p_enc(f["SumArgumentProof"]), ident(st, fld(vm, st, pub, "SAPP")), L, smap(b, ZERO, L, schunk("g1", fapp("V", k)))))),
          ("liability", feq(fmul(V_(last), g(isub(isub(N, pa(last)), 1))), fadd(F_(vm, st, f["LiabilityProof"].f["LiabilityProof"]), fmul(F_(vm, st, gt), fofint(f["LiabilityProof"].f["Sum"])))))]
    return path, F0_, F1_


def holds(c, x):
    """c proves x; universally quantified goals and facts included"""
    c = eqfree(c)
    if x.op == "and":
        return all(holds(c, y) for y in x.args)
    if x.op == "forall":
        var, lo, hi, body = x.args
        s = isym(fresh("sk"))
        c = c.assume(le(lo, s), lt(s, hi))
        if c.inconsistent():
            return True
        return holds(c.instantiate([s]), subst(body, {var: s}))
    return norm.split_prove(c, lambda cc: cc.proves(x)) or refute(c.assume(Not(x)))


def lp_custom(vm, st, A, body):
    lp, pub, id_, V0, W0, id2path = A
    out = []
    path, F0_, F1_ = lp_formulas(vm, st, A)
    L = path.n
    acc = [e for e in body if e.kind == "ret" and errcond(e.val.v[1]) is FALSE]
    rej = [e for e in body if e.kind == "ret" and errcond(e.val.v[1]) is TRUE]
    out.append(("accepts", len(acc) > 0, "no proof is accepted"))
    out.append(("no panic", all(e.kind == "ret" for e in body), "; ".join(str(e.val)[:200] for e in body if e.kind != "ret")))
    out.append(("errors decided", len(acc) + len(rej) == len([e for e in body if e.kind == "ret"]), ""))
    eqfacts = set()
    for n, e in enumerate(acc):
        c = e.st.ctx
        for nm, x in F0_:
            out.append(("a%d.%s" % (n, nm), holds(c, x), "accepted although " + show(Not(x))[:600]))
        c = c.assume(*[x for _, x in F0_])
        for nm, x in F1_:
            out.append(("a%d.%s" % (n, nm), holds(c, x), "accepted although " + show(Not(x))[:600]))
        # the equality proof relates consecutive commitments
        ok = False
        why = "no accepted equality proof"
        for fct in c.facts:
            if fct in EQARGS:
                eqfacts.add(fct)
                ok, why = eq_links(vm, st, A, L, path, c, *EQARGS[fct])
        out.append(("a%d.path equalities" % n, ok, why))
    if not lp.f["PointProofΣ"].canon:
        return out
    # completeness: with all of them (and the same equality proof) nothing is refused
    for n, e in enumerate(rej):
        c = e.st.ctx.assume(*[x for _, x in F0_])
        if c.inconsistent():
            out.append(("r%d" % n, True, ""))
            continue
        c = c.assume(*[x for _, x in F1_], *eqfacts)
        out.append(("r%d" % n, refuted(c), "refused although every check holds, when %s" % [show(f)[:200] for f in e.st.ctx.facts if f not in st.ctx.fset][-3:]))
    return out


def eqfree(c):
    """the facts again with solved integer equations substituted"""
    les = {f.args[0] for f in c.facts if f.op == "le0"}
    c = c.assume(*[eq(x, 0) for x in les if iscale(x, -1) in les])
    return c.assume(*[c.isubst(f) for f in c.facts])


def refuted(c):
    c = eqfree(c)
    idx = sorted({x for f in c.facts if f.op != "forall" for x in subterms(f) if x.op == "sym" and x.sort == "I"}, key=lambda z: z.key)
    c2 = c.instantiate(idx)
    if c2.inconsistent():
        return True
    for f in c2.facts:
        if f.op == "or" or f.op == "forall":
            continue
        if f.op == "not" and f.args[0].op in ("feq", "and") and norm.split_prove(c2, lambda cc: cc.proves(f.args[0])):
            return True
    return refute(c2)


def eq_links(vm, st, A, L, path, c, e, pf, snap):
    lp, pub = A[0], A[1]
    if not (isinstance(pf, Opq) and pf.t == "eqproof"):
        return False, "another proof is checked"
    P, Vs, Ws, Is, Js, s = snap
    if P != fld(vm, st, pub, "POEPP"):
        if not (isinstance(P, Ptr) and P.ref is fld(vm, st, pub, "POEPP").ref):
            return False, "other parameters"
    k = isym(fresh("sk"))
    m = isub(L, 1)
    c = c.assume(le(0, k), lt(k, m)).instantiate([k])
    rd = lambda v: aget(c, s.obj(v.ref), iadd(v.off, k), None, s)
    for v in (Vs, Ws, Is, Js):
        if not holds(c, le(m, v.n)):
            return False, "fewer equalities than edges of the path"

    def go(cc):
        r = lambda v: aget(cc, s.obj(v.ref), iadd(v.off, k), None, s)
        return (norm.field_equal(cc, vm.mval(s, r(Vs)).f, fapp("V", k)) and norm.field_equal(cc, vm.mval(s, r(Ws)).f, fapp("V", iadd(k, 1)))
                and cc.proves(eq(r(Is), iel(vm, st, path, k))) and cc.proves(eq(r(Js), fld(vm, st, pub, "Fanout"))))
    return norm.split_prove(c, go), "the equality proof is not about position path[k] of V[k] and the sum of V[k+1]"


@contract("(pol/pol.LiabilityProof).Verify", lp_gen, "C02 C17", override=LPV, custom=lp_custom, use=False)
def _(vm, st, A):
    raise Unsupported("top level")

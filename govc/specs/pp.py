"""Contracts of package pp (vector commitments)."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine.ctx import NeedSplit
from engine import vm as V
from .common import *
from engine import norm
from engine.compare import veq

PP_ = "pol/pp."


def newstruct(st, t, own=False, **f):
    return Ptr(st.alloc(Var(StructV(t, f), t, own)))


def fld(vm, st, p, f):
    return vm.load(st, Ptr(p.ref, p.path + (f,)))


def bytesval(name, n):
    return SliceV(AObj("uint8", as_i(n), ssym(name, n), None, (), False, "ext"), ZERO, as_i(n))


def gPP(st, N, tag="pp", inv=False):
    """public parameters for vectors of length N; inv: powers of one secret exponent"""
    if inv:
        al = fsym("α")
        g1 = gFun(iscale(N, 2), lambda k: M("G1", fite(eq(k, N), F1, fpow(al, iadd(k, 1)))), KT["G1"])
        g2 = gFun(N, lambda k: M("G2", fpow(al, iadd(k, 1))), KT["G2"])
        gt = M("Gt", fpow(al, iadd(N, 1)))
    else:
        g1, g2, gt = gVec(tag + ".G1s", iscale(N, 2), "G1"), gVec(tag + ".G2s", N, "G2"), gGt(tag + ".Gt")
    return newstruct(st, "pol/pp.PP", Digest=bytesval(tag + ".Digest", 32), N=N, G1s=g1, G2s=g2, Gt=gt)


def ppargs(*mk, lo=1):
    def g(vm, st):
        N = gLen(st, "N", lo)
        pp = gPP(st, N)
        return [(st, [pp] + [m(st) if callable(m) else m for m in mk])]
    return g


def ppshape(vm, st, pp):
    """well-formedness required of the parameters at every call"""
    N = fld(vm, st, pp, "N")
    g1, g2 = fld(vm, st, pp, "G1s"), fld(vm, st, pp, "G2s")
    c = And(le(1, N), eq(g1.n, iscale(N, 2)), eq(g2.n, N))
    if not st.ctx.proves(c):
        raise Unsupported("call with malformed public parameters")
    return N, g1, g2, fld(vm, st, pp, "Gt")


@contract(PP_ + "Commit", ppargs(vec("m", "n")), "C08 C09")
def _(vm, st, a):
    N, g1, g2, gt = ppshape(vm, st, a[0])
    m, g = fun(vm, st, a[1]), fun(vm, st, g1)
    c = eq(a[1].n, N)
    return cases(st, (c, lambda s: vm.newm(s, M("G1", Sum(ZERO, N, lambda k: fmul(m(k), g(k)))))), (Not(c), lambda s: panics(s)))


@contract(PP_ + "Open", ppargs(integer("i"), vec("m", "n")), "C08")
def _(vm, st, a):
    N, g1, g2, gt = ppshape(vm, st, a[0])
    i, m = a[1], a[2]
    if not st.ctx.proves(eq(m.n, N)):
        st.ctx.proves(le(N, m.n)) or require_(st, eq(m.n, N))
    mf, g = fun(vm, st, m), fun(vm, st, g1)
    ok = And(le(0, i), lt(i, N), le(2, N))

    def go(s):
        pi = Sum(ZERO, N, lambda j: fite(eq(j, i), F0, fmul(mf(j), g(iadd(isub(N, i), j)))))
        mi = ev_m(vm, s, m, i)
        return Tup((vm.newm(s, mi) if False else mi, vm.newm(s, M("G1", pi))))
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


def open_pre(vm, st):
    N = gLen(st, "N", 1)
    pp = gPP(st, N)
    return [(st, [pp, isym("i"), gVec("m", N)])]


SPECS[PP_ + "Open"].pre = open_pre


@contract(PP_ + "Verify", ppargs(gZr("mi", False), gG1("π"), gG1("C"), integer("i")), "C08 C03")
def _(vm, st, a):
    N, g1, g2, gt = ppshape(vm, st, a[0])
    mi, pi, C, i = F_(vm, st, a[1]), F_(vm, st, a[2]), F_(vm, st, a[3]), a[4]
    g = fun(vm, st, g2)
    ok = And(le(0, i), lt(i, N))

    def go(s):
        e = feq(fmul(C, g(isub(isub(N, i), 1))), fadd(pi, fmul(F_(vm, s, gt), mi)))
        return cases(s, (e, lambda t: NIL), (Not(e), lambda t: ErrV("open")))
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


@contract(PP_ + "canonical", two(lambda c: [gZr("x", c)]), "C03 C08")
def _(vm, st, a):
    return vm.newm(st, zr(F_(vm, st, a[0])))


def upd_pre(vm, st):
    N = gLen(st, "N", 1)
    pp = gPP(st, N)
    C = Ptr(st.alloc(Cell("G1", fsym("C"))))
    return [(st, [pp, C, gVec("m", N), gZr("x"), isym("i")])]


@contract(PP_ + "Update", upd_pre, "C09 C06")
def _(vm, st, a):
    N, g1, g2, gt = ppshape(vm, st, a[0])
    C, m, x, i = a[1], a[2], F_(vm, st, a[3]), a[4]
    if not st.ctx.proves(eq(m.n, N)):
        raise Unsupported("Update with a vector of another length")
    ok = And(le(0, i), lt(i, N))

    def go(s):
        c = vm.mval(s, C).f
        g = el(vm, s, g1, i)
        vm.setm(s, C, M("G1", fadd(c, fmul(fsub(x, el(vm, s, m, i)), g))))
        return None
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


def g1s_bytes(vm, st, v):
    k = fresh("b")
    return smap(k, ZERO, v.n, schunk("g1", el(vm, st, v, isym(k))))


def ROgen(tag="RO"):
    """an arbitrary challenge function of the parameters, the list and the position"""
    def f(vm, st, args):
        p, cs, i = args[0], args[1], args[2]
        s = schunk(tag, vm.bytes_of(st, fld(vm, st, p, "Digest")), i, cs.n, g1s_bytes(vm, st, cs))
        return [V.Ev("ret", st, vm.newm(st, M("Zr", fe(s))))]
    return PyFn(f)


def ro_at(vm, st, RO, pp, cs, i):
    """weight of position i as a field term; the challenge function must not change anything"""
    s2 = st.clone()
    s2.ctx = s2.ctx.assume(le(0, i), lt(i, cs.n))
    s2.path = st.path or ("spec",)
    evs = vm.call_value(s2, RO, [pp, cs, i])
    if len(evs) != 1 or evs[0].kind != "ret":
        raise Unsupported("challenge function is not total")
    return vm.mval(evs[0].st, evs[0].val).f


def agg_pre(vm, st):
    N, n, m = gLen(st, "N", 1), gLen(st, "n"), gLen(st, "m")
    return [(st, [gPP(st, N), gVec("C", n, "G1"), gVec("π", m, "G1"), ROgen()])]


@contract(PP_ + "Aggregate", agg_pre, "C10 C17")
def _(vm, st, a):
    pp, cs, ps, RO = a
    p = fun(vm, st, ps)
    ok = And(eq(cs.n, ps.n), lt(0, ps.n))
    return cases(st, (ok, lambda s: vm.newm(s, M("G1", Sum(ZERO, ps.n, lambda k: fmul(p(k), ro_at(vm, s, RO, pp, cs, k)))))),
                 (Not(ok), lambda s: panics(s)))


def idxs(name, n, hi):
    """slice of integers in [0, hi)"""
    def g(st):
        FN_AX[name] = lambda node: [le(0, node), lt(node, hi)]
        return gFun(n, lambda k: iapp(name, k), "int")
    return g


def vagg_pre(vm, st):
    N, n, m = gLen(st, "N", 1), gLen(st, "n"), gLen(st, "m")
    return [(st, [gPP(st, N), idxs("ix", n, N)(st), gVec("C", m, "G1"), gG1("π"), gZr("Σ", False), ROgen()])]


@contract(PP_ + "VerifyAggregation", vagg_pre, "C10 C17 C02")
def _(vm, st, a):
    pp, ix, cs, pi, sg, RO = a
    N, g1, g2, gt = ppshape(vm, st, pp)
    g = fun(vm, st, g2)
    # indices in range
    k = isym(fresh("i"))
    c2 = st.ctx.assume(le(0, k), lt(k, ix.n)).instantiate([k])
    e = aget(c2, st.obj(ix.ref), iadd(ix.off, k)) if ix.ref is not None else ZERO
    if not c2.proves(And(le(0, e), lt(e, N))):
        raise Unsupported("aggregated opening with indices that may be out of range")
    ok = And(eq(cs.n, ix.n), lt(0, ix.n))
    cf = fun(vm, st, cs)

    def go(s):
        lhs = Sum(ZERO, ix.n, lambda k: fmul(cf(k), g(isub(isub(N, iel(vm, s, ix, k)), 1)), ro_at(vm, s, RO, pp, cs, k)))
        e = feq(lhs, fadd(F_(vm, s, pi), fmul(F_(vm, s, gt), F_(vm, s, sg))))
        return cases(s, (e, lambda t: NIL), (Not(e), lambda t: ErrV("aggr")))
    return cases(st, (ok, go), (Not(ok), lambda s: panics(s)))


@contract(PP_ + "RO", ppargs(vec("C", "n", "G1"), lambda st: gLen(st, "i", 0, 1 << 32)), "C10 C17")
def _(vm, st, a):
    pp, cs, i = a
    s = scat(vm.bytes_of(st, fld(vm, st, pp, "Digest")), schunk("u32", i), g1s_bytes(vm, st, cs))
    return vm.newm(st, M("Zr", fe(schunk("sha", s))))


def digest_of(vm, st, g1, g2, gt):
    k, j = fresh("b"), fresh("b")
    s = scat(g1s_bytes(vm, st, g1), smap(j, ZERO, g2.n, schunk("g2", el(vm, st, g2, isym(j)))), schunk("gt", F_(vm, st, gt)))
    return schunk("sha", s)


@contract("(*pol/pp.PP).SetupDigest", ppargs(), "C21 C17")
def _(vm, st, a):
    p = a[0]
    s = digest_of(vm, st, fld(vm, st, p, "G1s"), fld(vm, st, p, "G2s"), fld(vm, st, p, "Gt"))
    vm.store(st, Ptr(p.ref, p.path + ("Digest",)), vm.mkbytes(st, s))
    return None


def npp_custom(vm, st, args, body):
    """∃ exponent α: the outcome is the parameter set of α (the witness is read off the first element of G2)"""
    N = args[0]
    out = []
    for i, e in enumerate(body):
        if e.kind != "ret":
            out.append(("total%d" % i, False, "panics"))
            continue
        s = e.st
        al = el(vm, s, fld(vm, s, e.val, "G2s"), ZERO)
        out.append(("fresh%d" % i, al.op == "fapp" and al.args[0].startswith("rnd"), "the exponent is not one fresh random draw: %s" % show(al)))
        spec = npp_result(vm, s, N, al)
        why = []
        ok = norm.split_prove(s.ctx, lambda c: veq(c, s, e.val, s, spec, why))
        out.append(("wellformed%d" % i, ok, "; ".join(why)))
    return out


def npp_result(vm, s, N, al):
    g1 = mkslice(s, iscale(N, 2), lambda k: M("G1", fite(eq(k, N), F1, fpow(al, iadd(k, 1)))), KT["G1"])
    g2 = mkslice(s, N, lambda k: M("G2", fpow(al, iadd(k, 1))), KT["G2"])
    gt = M("Gt", fpow(al, iadd(N, 1)))
    p = newstruct(s, "pol/pp.PP", True, N=N, G1s=g1, G2s=g2, Gt=gt, Digest=NILSLICE)
    vm.store(s, Ptr(p.ref, ("Digest",)), vm.mkbytes(s, digest_of(vm, s, g1, g2, gt)))
    return p


@contract(PP_ + "NewPublicParams", one(lambda st: gLen(st, "N", 1)), "C21", custom=npp_custom)
def _(vm, st, a):
    if not st.ctx.proves(le(1, a[0])):
        raise Unsupported("parameters of size zero")
    return npp_result(vm, st, a[0], st.freshF("rnd"))


@contract("(*pol/pp.PP).Size", ppargs(), "")
def _(vm, st, a):
    N = fld(vm, st, a[0], "N")
    return iadd(iscale(N, 64 * 2), iscale(N, 128), 384)


# ---------------------------------------------------------------- property lemmas
def is_nil(e):
    return e.kind == "ret" and e.val is NIL


@lemma("C08.complete", "C08", PP_ + "Commit " + PP_ + "Open " + PP_ + "Verify")
def _(vm, st, ob):
    """for all N, m, i: Open(pp, i, m) = (m_i, π) and Verify(pp, m_i, π, Commit(pp, m), i) = nil"""
    N = gLen(st, "N", 2)
    i = gLen(st, "i", 0, N)
    pp = gPP(st, N, inv=True)
    m = gVec("m", N)
    for e in calls(vm, st, PP_ + "Commit", [pp, m]):
        ob("commit", e.kind == "ret")
        C = e.val
        for e2 in calls(vm, e.st, PP_ + "Open", [pp, i, m]):
            ob("open", e2.kind == "ret", str(e2))
            mi, pi = e2.val.v
            ob("element", norm.split_prove(e2.st.ctx, lambda c: norm.field_equal(c, F_(vm, e2.st, mi), fapp("m", i))), "Open does not return the element")
            for e3 in calls(vm, e2.st, PP_ + "Verify", [pp, mi, pi, C, i]):
                ob("verifies", is_nil(e3), "an honest opening is refused when %s" % [show(f)[:150] for f in e3.st.ctx.facts][-4:])


@lemma("C08.exact", "C08 C03", PP_ + "Verify")
def _(vm, st, ob):
    """if (mi, π) and (mi', π) are both accepted for the same commitment and index then Gt·(mi − mi') = 0"""
    N = gLen(st, "N", 1)
    i = gLen(st, "i", 0, N)
    pp = gPP(st, N)
    pi, C = gG1("π"), gG1("C")
    n = 0
    for ca in (True, False):
        for cb in (True, False):
            x, y = gZr("x", ca), gZr("y", cb)
            for e in calls(vm, st, PP_ + "Verify", [pp, x, pi, C, i]):
                for e2 in calls(vm, e.st, PP_ + "Verify", [pp, y, pi, C, i]):
                    n += 1
                    if is_nil(e) and is_nil(e2):
                        gt = F_(vm, st, fld(vm, st, pp, "Gt"))
                        ok = uniq(e2.st.ctx, fmul(gt, fsub(fsym("x"), fsym("y"))))
                        ob("one element%d" % n, ok, "two different elements are accepted for one opening")
                    else:
                        ob("outcome%d" % n, e.kind == "ret" and e2.kind == "ret" and e.val is not None and e2.val is not None, "")


def uniq(ctx, goal):
    """goal = 0 follows from the difference of two of the field equations assumed in ctx"""
    eqs = [f for f in ctx.facts if f.op == "feq"]
    c0 = Ctx0(ctx)
    ds = [fsub(*f.args) for f in eqs]
    for x in range(len(ds)):
        for y in range(x):
            for s1 in (1, -1):
                for s2 in (1, -1):
                    if norm.split_prove(c0, lambda cc: norm.field_equal(cc, goal, fadd(fmul(F(s1), ds[x]), fmul(F(s2), ds[y])))):
                        return True
    return norm.field_equal(ctx, goal, F0)


def Ctx0(ctx):
    """the context without its field equations"""
    from engine.ctx import Ctx
    return Ctx().assume(*[f for f in ctx.facts if f.op != "feq"])


def strings_differ(ctx, a, b):
    """two byte strings differ by construction: after a common prefix, chunks of one fixed-width encoding of different values"""
    a, b = norm.normS(a, ctx), norm.normS(b, ctx)
    if a.op == b.op == "schunk" and a.args[0] == b.args[0] == "sha":
        return strings_differ(ctx, a.args[1], b.args[1])
    pa = list(a.args) if a.op == "scat" else [a]
    pb = list(b.args) if b.op == "scat" else [b]
    for x, y in zip(pa, pb):
        if x is y:
            continue
        if x.op == y.op == "schunk" and x.args[0] == y.args[0] and len(x.args) == len(y.args) == 2:
            u, v = x.args[1], y.args[1]
            if u.sort == v.sort == "F" and ctx.assume(feq(u, v)).inconsistent() or u.sort == v.sort == "I" and ctx.proves(Not(eq(u, v))):
                return True
        break
    n, m = slen(a), slen(b)
    return ctx.proves(Not(eq(n, m)))


@lemma("C09.recommit", "C09 C06", PP_ + "Commit " + PP_ + "Update")
def _(vm, st, ob):
    """Update(pp, Commit(pp, m), m, x, i) leaves the commitment to m[i := x] in C, for every N, m, x, i"""
    N = gLen(st, "N", 1)
    i = gLen(st, "i", 0, N)
    pp = gPP(st, N)
    m = gVec("m", N)
    x = gZr("x")
    m2 = gFun(N, lambda k: M("Zr", fite(eq(k, i), fsym("x"), fapp("m", k)), True), KT["Zr"])
    for e in calls(vm, st, PP_ + "Commit", [pp, m]):
        C = e.val
        for e2 in calls(vm, e.st, PP_ + "Commit", [pp, m2]):
            for e3 in calls(vm, e2.st, PP_ + "Update", [pp, C, m, x, i]):
                ob("equal", e3.kind == "ret" and norm.split_prove(e3.st.ctx, lambda c: norm.field_equal(c, F_(vm, e3.st, C), F_(vm, e3.st, e2.val))), "the updated commitment is not the commitment to the updated vector")


@lemma("C10.complete", "C10", PP_ + "Aggregate " + PP_ + "VerifyAggregation")
def _(vm, st, ob):
    """Aggregate of proofs satisfying their opening equations is accepted for Σ_k t_k·m_k, for every number of commitments"""
    N, n = gLen(st, "N", 1), gLen(st, "n", 1)
    pp = gPP(st, N)
    ix = idxs("ix", n, N)(st)
    cs = gVec("C", n, "G1")
    g2 = fun(vm, st, fld(vm, st, pp, "G2s"))
    gt = F_(vm, st, fld(vm, st, pp, "Gt"))
    # π_k := C_k·G2_{N-ix_k-1} − Gt·m_k: the k-th opening equation solved for the proof
    c2 = st.ctx
    pis = gFun(n, lambda k: M("G1", fsub(fmul(fapp("C", k), g2at(N, k)), fmul(gt, fapp("m", k)))), KT["G1"])
    RO = ROgen()
    sg = M("Zr", Sum(ZERO, n, lambda k: fmul(fapp("m", k), ro_at(vm, st, RO, pp, cs, k))), False)
    for e in calls(vm, st, PP_ + "Aggregate", [pp, cs, pis, RO]):
        ob("aggregate", e.kind == "ret")
        if e.kind != "ret":
            continue
        for e2 in calls(vm, e.st, PP_ + "VerifyAggregation", [pp, ix, cs, e.val, sg, RO]):
            ob("verifies", is_nil(e2), "an honest aggregation is refused")


def g2at(N, k):
    return fapp("pp.G2s", isub(isub(N, iapp("ix", k)), 1))


@lemma("C10.weights", "C10 C17", PP_ + "RO")
def _(vm, st, ob):
    """the weight of a position is a hash of parameters, all commitments and the position; positions below 2^32 hash different strings"""
    N = gLen(st, "N", 1)
    n = gLen(st, "n", 1)
    pp = gPP(st, N)
    cs = gVec("C", n, "G1")
    i, j = gLen(st, "i", 0, 1 << 32), gLen(st, "j", 0, 1 << 32)
    st.ctx = st.ctx.assume(Not(eq(i, j)))
    for e in calls(vm, st, PP_ + "RO", [pp, cs, i]):
        for e2 in calls(vm, e.st, PP_ + "RO", [pp, cs, j]):
            a, b = F_(vm, e2.st, e.val), F_(vm, e2.st, e2.val)
            ob("hash", a.op == "fe" and b.op == "fe")
            at = atoms_of(a)
            ob("parameters", any(x.op == "ssym" and x.args[0] == "pp.Digest" for x in at), "the weight does not depend on the parameters")
            ob("commitments", covers_vec(e2.st.ctx, a, "C", n), "the weight does not depend on every commitment")
            ob("position", strings_differ(e2.st.ctx, a.args[0], b.args[0]), "two positions share a weight")


def atoms_of(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(x.args)
    return out


def covers_vec(ctx, t, name, n):
    """some smap over [0,n) inside t encodes name[k] at its position k"""
    for x in atoms_of(t):
        if x.op == "smap" and x.args[1] is ZERO and x.args[2] is n:
            if any(y.op == "fapp" and y.args[0] == name and y.args[1] is isym(x.args[0]) for y in atoms_of(x.args[3])):
                return True
    return False

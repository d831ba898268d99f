"""C22: nothing but the stated outputs is written. Every contract's check compares all objects that existed before the call;
the contracts of the functions below are tagged here. Provers without a functional contract get a frame lemma."""
from engine.spec import *
from engine.terms import *
from engine.values import *
from engine.compare import oeq
from engine import norm
from .pp import *
from .bp import *
from .sum import *
from .range import *
from .poe import *

for n in ["pol/pp.Commit", "pol/pp.Open", "pol/pp.Verify", "pol/pp.Update", "pol/pp.Aggregate", "pol/pp.VerifyAggregation", "pol/pp.RO", "pol/poe.RO",
          "pol/bp.NewInnerProdArgument", "(*pol/bp.InnerProdArgument).Prove", "(*pol/bp.InnerProductProof).Verify", "pol/bp.IterativeReduce", "pol/bp.IterativeVerify",
          "pol/bp.VerifyRange", "pol/sum.NewCommitment", "(*pol/sum.Proof).Verify", "(*pol/sum.Proof).VerifyAggregated",
          "(*pol/poe.Equality).Verify", "(*pol/poe.Equalities).Verify", "(pol/pol.TotalProof).Verify"]:
    if "C22" not in SPECS[n].props:
        SPECS[n].props.append("C22")


def frames(vm, st, ob, tag, evs, writes=()):
    """all objects of st are the same after each outcome, except the named (object, field) pairs"""
    for i, e in enumerate(evs):
        bad = []
        for r, o in st.heap.items():
            o2 = e.st.heap.get(r)
            if o2 is o:
                continue
            fs = [f for q, f in writes if q is r]
            if fs and isinstance(o, Var):
                o2 = o2.rep_(v=StructV(o2.v.t, {k: o.v.f[k] if k in fs else x for k, x in o2.v.f.items()}))
            why = []
            if not norm.split_prove(e.st.ctx, lambda c: oeq(c, e.st, o2, st, o, why)):
                bad.append("%s" % (why[-1:] or o,))
        ob("%s.unchanged%d" % (tag, i), not bad, "; ".join(bad)[:800])


def body_frames(name, props, gen, uses=""):
    @lemma("C22.frame." + name.split(".")[-2].split("/")[-1].rstrip(")") + "." + name.split(".")[-1], props, uses or name)
    def L(vm, st0, ob):
        for k, (st, args) in enumerate(gen(vm, st0)):
            evs = [e for e in vm.call_fn(st.clone(), name, args) if not e.st.ctx.inconsistent()]
            ob("s%d.outcomes" % k, bool(evs), "no outcome")
            frames(vm, st, ob, "s%d" % k, evs)
    return L


def sum_gen(vm, st0):
    st = st0.clone()
    n = gLen(st, "n", 2)
    return [(st, [gSum(st, n), gG1("V"), gVec("v", n, canon=False), gZr("r", False)])]


def sumagg_gen(vm, st0):
    st = st0.clone()
    n, m = gLen(st, "n", 2), gLen(st, "m", 1)
    row = lambda j: SliceV(AObj(KT["Zr"], n, None, lam(lambda k: M("Zr", fapp("v", j, k), False)), (), False, "ext"), ZERO, n)
    return [(st, [gSum(st, n), gVec("V", m, "G1"), gFun(m, row, "pol/common.Vec"), gVec("r", m, canon=False)])]


def eqs_gen(vm, st0):
    st = st0.clone()
    N, m = gLen(st, "N", 2), gLen(st, "m", 1)
    pp = gPOE(st, N, m, inv=True)
    ix, jx = idxs("ix", m, isub(N, 1))(st), idxs("jx", m, isub(N, 1))(st)
    row = lambda nm: lambda k: SliceV(AObj(KT["Zr"], N, None, lam(lambda t: M("Zr", fapp(nm, k, t), True)), (), False, "ext"), ZERO, N)
    e = gEqs(vm, st, pp, m, N, gVec("V", m, "G1"), gVec("W", m, "G1"), ix, jx)
    return [(st, [e, gFun(m, row("v"), "pol/common.Vec"), gFun(m, row("w"), "pol/common.Vec")])]


def eq_gen(vm, st0):
    st = st0.clone()
    N = gLen(st, "N", 2)
    i, j = gLen(st, "i", 0, isub(N, 1)), gLen(st, "j", 0, isub(N, 1))
    pp = gPOE(st, N, gLen(st, "m", 1), inv=True)
    return [(st, [gEq(st, pp, None, gG1("V"), gG1("W"), i, j), gVec("v", N), gVec("w", N)])]


body_frames("(*pol/poe.Equality).Prove", "C22", eq_gen)
def pr_gen(vm, st0):
    st = st0.clone()
    K = gPow(st)
    n = ipow(I(2), K)
    FN_AX["pv"] = lambda node: [le(0, node), lt(node, 1 << 63)]
    return [(st, [gRP(st, K), gG1("V"), gFun(n, lambda k: M("Zr", fofint(iapp("pv", k)), True, iapp("pv", k)), "pol/common.Vec"), gZr("r")])]


@lemma("C22.frame.bp.ProveRange", "C22", "pol/bp.ProveRange")
def _(vm, st0, ob):
    """challenges and the messages of the reduction are arbitrary values here: the prover must write nothing whatever they are"""
    C = dict(vm.contracts)
    BP_ = "pol/bp."

    def red(vm, st, A):
        K = log2(st.ctx.norm_int(fld(vm, st, A[0], "G").n))
        x, d, u = st.freshname("x"), st.freshname("d"), st.freshname("u")
        return Tup((mkslice(st, K, lambda k: ArrV(tuple(M("G1", fapp(d, k, I(j))) for j in range(3))), "[3]*github.com/IBM/mathlib.G1"),
                    mkslice(st, K, lambda k: M("Zr", fapp(x, k), True), KT["Zr"]), M("Zr", fsym(u), False)))

    def fefb(vm, st, A):
        return M("Zr", mk("fe", (ssym(st.freshname("c"), I(32)),), "F"), True)
    C[BP_ + "IterativeReduce"], C["pol/common.FieldElementFromBytes"] = wrap_(red), wrap_(fefb)
    vm.contracts = C
    for k, (st, args) in enumerate(pr_gen(vm, st0)):
        evs = [e for e in vm.call_fn(st.clone(), "pol/bp.ProveRange", args) if not e.st.ctx.inconsistent()]
        ob("s%d.outcomes" % k, bool(evs), "no outcome")
        frames(vm, st, ob, "s%d" % k, evs)


body_frames("pol/sum.NewArgument", "C22", sum_gen)
body_frames("pol/sum.NewAggregatedArgument", "C22", sumagg_gen)
body_frames("(*pol/poe.Equalities).Prove", "C22", eqs_gen)


def again(name):
    @lemma("C22.again." + name.split(".")[-2].split("/")[-1].rstrip(")") + "." + name.split(".")[-1], "C22", name)
    def L(vm, st0, ob):
        """a second verification of the same proof answers what the first one did"""
        n = 0
        for k, (st, args) in enumerate(SPECS[name].pre(vm, st0)):
            for e in calls(vm, st, name, args):
                if e.kind != "ret":
                    continue
                for e2 in calls(vm, e.st, name, args):
                    ob("s%d.%d" % (k, n), e2.kind == "ret" and (e.val is NIL) == (e2.val is NIL), "first %s, then %s" % (e, e2))
                    n += 1
        ob("reached", n > 0)


for n in ["(*pol/bp.InnerProductProof).Verify", "(*pol/sum.Proof).Verify", "(*pol/sum.Proof).VerifyAggregated", "(*pol/poe.Equality).Verify", "(*pol/poe.Equalities).Verify", "pol/bp.VerifyRange"]:
    again(n)

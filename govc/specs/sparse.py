"""Contracts of package sparse: identifiers to paths."""
from engine.terms import *
from engine.values import *
from engine.spec import *
from engine import vm as V, norm, loops
from engine.ctx import Ctx
from engine.compare import veq
from .common import *
from .common import iel

SP = "pol/sparse."
FANOUTS = [(1 << k) - 1 for k in range(2, 16)]
HEX = [f for f in FANOUTS if f <= 16383]


def declen(f):
    k = 1
    while f ** k <= 10 ** 9:
        k += 1
    return k


loops.HINTS[SP + "DigitPathLen"] = 40


@contract(SP + "DigitPathLen", lambda vm, st: [(st.clone(), [I(f)]) for f in FANOUTS], "C18")
def _(vm, st, A):
    f, = A
    if f.op != "int" or f.args[0] not in FANOUTS:
        raise Unsupported("DigitPathLen of an unknown fan-out")
    return I(declen(f.args[0]))


def isuint(s):
    return bapp("isuint", I(10), I(32), mk("iapp", ("sid", s), "I"))


def dec_lemma(f):
    n = declen(f)

    def L(vm, st, ob):
        """DigitPath(f): nine decimal digits to their base-f digits, least significant first, padded to the fixed length"""
        s, s2 = ssym("s", I(9)), ssym("s2", isym("slen"))
        num = iapp("uintval", I(10), mk("iapp", ("sid", s), "I"))
        # ParseUint accepts exactly the nine-digit strings among the nine-character ones
        st.ctx = st.ctx.assume(le(0, isym("slen")), Not(eq(isym("slen"), 9)), Or(Not(isuint(s)), And(le(0, num), lt(num, 10 ** 9))))
        mk_ = calls(vm, st, SP + "DigitPath", [I(f)])
        ob("supported", bool(mk_) and all(e.kind == "ret" for e in mk_), "fan-out refused")
        good = False
        for e in mk_:
            evs = [x for x in run_split(e.st, lambda s_: vm.call_value(s_, e.val, [s])) if not x.st.ctx.inconsistent()]
            bad = [x for x in run_split(e.st, lambda s_: vm.call_value(s_, e.val, [s2])) if not x.st.ctx.inconsistent()]
            ob("refuses other lengths", bool(bad) and all(x.kind == "panic" for x in bad), "an identifier of another length is accepted")
            for i, x in enumerate(evs):
                valid = x.st.ctx.decide(isuint(s))
                if x.kind == "panic":
                    ob("refuses%d" % i, valid is False, "a valid identifier is refused")
                    continue
                ob("accepts%d" % i, valid is True, "a malformed identifier is accepted")
                v, c = x.val, x.st.ctx
                good = True
                ok = c.proves(eq(v.n, n))
                ob("fixed length%d" % i, ok, "length %s instead of %d" % (show(c.norm_int(v.n)), n))
                if not ok:
                    continue
                k = isym(fresh("k"))
                c = c.assume(le(0, k), lt(k, n))
                o = x.st.obj(v.ref)
                want = imod(idiv(num, ipow(I(f), k)), I(f))
                ob("digits%d" % i, norm.split_prove(c, lambda cc: cc.proves(eq(aget(cc, o, iadd(v.off, k), None, x.st), want))), "a component is not the digit of the number")
        ob("some identifier", good, "no identifier is accepted")
    return L


for f_ in FANOUTS:
    lemma("C18.decimal.%d" % f_, "C18", SP + "DigitPath", digits=True, powk=[declen(f_)])(dec_lemma(f_))


@lemma("C18.distinct", "C18", "")
def _(vm, st, ob):
    """a number below f^n is determined by its n lowest base-f digits; for every fan-out 10^9 numbers fit the fixed length"""
    a, b, f = isym("a"), isym("b"), isym("f")
    for f0 in FANOUTS:
        n = declen(f0)
        ob("fits %d" % f0, f0 ** n >= 10 ** 9)
        # induction: equal lowest digits and equal rests give equal numbers; the rest after n digits is 0
        c = st.ctx.assume(le(0, a), le(0, b), eq(imod(a, f0), imod(b, f0)), eq(idiv(a, f0), idiv(b, f0)))
        ob("step %d" % f0, c.proves(eq(a, b)), "")
        k = st.ctx.assume(le(0, a), lt(a, 10 ** 9))
        ob("rest %d" % f0, k.proves(eq(idiv(a, f0 ** n), 0)), "")
        ob("digit %d" % f0, st.ctx.assume(le(0, a)).proves(And(le(0, imod(a, f0)), lt(imod(a, f0), f0))), "")
        ob("shift %d" % f0, all(st.ctx.assume(le(0, a)).proves(eq(idiv(idiv(a, f0 ** j), f0), idiv(a, f0 ** (j + 1)))) for j in range(n)), "")


def bysites(c, fn):
    """fn under each value of the conditions strings depend on"""
    cs = sorted({x.args[0] for f in c.facts for x in subterms(f) if x.op == "site" and not any(n.startswith("q!") for n in x.args[0].fv)}, key=lambda z: z.key)
    if not cs:
        return fn(c)
    ok = True
    for b, pick in ((cs[0], 1), (Not(cs[0]), 2)):
        n = c.assume(b)
        if n.zincon():
            continue
        m = {x: x.args[pick] for f in c.facts for x in subterms(f) if x.op == "site" and x.args[0] is cs[0]}
        n = n.assume(*[replace(f, m) for f in c.facts])
        n2 = Ctx()
        n2.hooks, n2.nonzero = dict(n.hooks), list(n.nonzero)
        n2 = n2.assume(*[f for f in n.facts if not any(x in m for x in subterms(f))])
        ok = ok and (n2.zincon() or bysites(n2, fn))
    return ok


def hexlen(f):
    """length of the base-f expansion of most 256-bit numbers"""
    return {3: 162, 7: 91, 15: 66, 31: 52, 63: 43, 127: 37, 255: 32, 511: 29, 1023: 26, 2047: 24, 4095: 22, 8191: 20, 16383: 19}[f]


def hex_lemma(f):
    n = hexlen(f)

    def L(vm, st, ob):
        """whatever HexId2PathForFanOut(f) returns has the fixed length and components below f; for a number
        whose expansion has that length they are its digits, so different such numbers have different paths"""
        s = ssym("s", isym("slen"))
        num = iapp("numval", I(16), mk("iapp", ("sid", s), "I"))
        isnum = bapp("isnum", I(16), mk("iapp", ("sid", s), "I"))
        st.ctx = st.ctx.assume(le(0, isym("slen")))
        mk_ = calls(vm, st, SP + "HexId2PathForFanOut", [I(f)])
        ob("supported", bool(mk_) and all(e.kind == "ret" for e in mk_), "fan-out refused")
        loops.HAVOC[0] = True
        try:
            for e in mk_:
                pre = ipow(I(f), n - 1)
                direct = And(isnum, le(pre, num), lt(num, ipow(I(f), n)))
                for tag, c0 in (("direct", direct), ("other", Not(direct))):
                    evs = [x for x in run_split(e.st.assume(c0), lambda s_: vm.call_value(s_, e.val, [s])) if not x.st.ctx.inconsistent()]
                    ob(tag + " outcomes", any(x.kind == "ret" for x in evs), "no path")
                    for i, x in enumerate(evs):
                        if x.kind == "panic":
                            ob("%s refuses%d" % (tag, i), tag == "other", "a valid identifier is refused")
                            continue
                        v, c = x.val, x.st.ctx
                        ob("%s number%d" % (tag, i), bysites(c, lambda cc: cc.proves(And(isnum, le(0, num)))), "an identifier that is no nonnegative number is accepted")
                        ok = c.proves(eq(v.n, n))
                        ob("%s length%d" % (tag, i), ok, "length %s instead of %d" % (show(c.norm_int(v.n)), n))
                        if not ok:
                            continue
                        k = isym(fresh("k"))
                        c = c.assume(le(0, k), lt(k, n))
                        o = x.st.obj(v.ref)

                        def go(cc):
                            d = aget(cc, o, iadd(v.off, k), None, x.st)
                            return cc.proves(And(le(0, d), lt(d, f))) and (tag == "other" or cc.proves(eq(d, imod(idiv(num, ipow(I(f), k)), I(f)))))
                        ob("%s components%d" % (tag, i), norm.split_prove(c, go), "a component is not below the fan-out, or not the digit of the number")
        finally:
            loops.HAVOC[0] = False
    return L


for f_ in HEX:
    lemma("C18.hex.%d" % f_, "C18", SP + "HexId2PathForFanOut", digits=True, powk=[hexlen(f_) - 1, hexlen(f_)])(hex_lemma(f_))

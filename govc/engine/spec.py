"""Contracts: registration, generic inputs, and the check that a body refines its contract."""
import time, traceback, os, json
from .terms import *
from .ctx import Ctx, NeedSplit
from . import ctx as ctxm
from . import norm
from .values import *
from . import vm as _vm, loops
from .vm import Ev, PanicEx
from .compare import veq, oeq
from .loops import rechook

SPECS = {}      # function name -> Spec


LEMMAS = {}     # lemma name -> Lemma
COST = {}       # rough cost, for scheduling


class Lemma:
    def __init__(self, name, fn, props, uses, digits=False, powk=()):
        self.name, self.fn, self.props, self.uses = name, fn, props, uses
        self.digits, self.powk = digits, powk


def lemma(name, props, uses, digits=False, powk=()):
    """a property stated over contracts: fn(vm, st, ob) runs a symbolic program over contracts and
    reports obligations with ob(name, ok, detail)"""
    def d(f):
        LEMMAS[name] = Lemma(name, f, props.split(), uses.split(), digits, powk)
        return f
    return d


def check_lemma(vm, name):
    res = Result(name)
    t0 = time.time()
    L = LEMMAS[name]
    ctxm.POWK[:] = L.powk
    ctxm.digits(False)
    ctxm.digits(L.digits)
    vm.used = set()
    try:
        st = vm.fresh_state()
        st.path = ("lemma " + name + "!",)
        saved = vm.contracts
        try:
            L.fn(vm, st, res.ob)
        finally:
            vm.contracts = saved
        if not res.obls:
            res.ob("nonempty", False, "the lemma produced no obligation")
        for u in L.uses:
            if ("contract", u) not in vm.used and ("body", u) not in vm.used:
                res.ob("uses", False, "the lemma does not go through %s" % u)
    except _vm.Frame as e:
        res.ob("frame" if e.sure else "verifiable", False, ("" if e.sure else "outside the verifier's reach: ") + str(e)[:1500])
    except Unsupported as e:
        res.ob("verifiable", False, "outside the verifier's reach: %s" % (str(e)[:1500],))
    except (NeedSplit, norm.Give, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        res.ob("verifiable", False, "outside the verifier's reach: %s %s" % (type(e).__name__, str(e)[:300]))
    res.used = set(vm.used)
    res.time = time.time() - t0
    return res


def calls(vm, st, name, args):
    """outcomes of a call through the contract, consistent ones only"""
    evs = run_split(st, lambda s: vm.call_fn(s, name, args))
    return [e for e in evs if not e.st.ctx.inconsistent()]


class Spec:
    def __init__(self, name, pre, fn, props, group=None, setups=None, opaque=False, note=""):
        self.name, self.pre, self.fn, self.props = name, pre, fn, props
        self.group, self.setups, self.note = group, setups, note
        self.opaque = opaque
        self.unchecked = False
        self.other = False


def wrap_(f):
    def call(vm, st, args):
        r = f(vm, st, args)
        if r is None or not isinstance(r, list):
            return [Ev("ret", st, r)]
        return r
    return call


def contract(name, gen, props="", use=True, note="", custom=None, unchecked=False, unfold=None, recs=None, digits=False, override=None):
    """gen(vm, st) -> list of (st, args): generic inputs satisfying the precondition.
    The decorated function (vm, st, args) -> value | [Ev] is the postcondition as a specification function."""
    def d(f):
        def call(vm, st, args):
            r = f(vm, st, args)
            if r is None or not isinstance(r, list):
                return [Ev("ret", st, r)]
            return r
        SPECS[name] = Spec(name, gen, call, props.split(), note=note)
        SPECS[name].use = use
        SPECS[name].custom = custom
        SPECS[name].unchecked = unchecked
        SPECS[name].recs = recs
        SPECS[name].digits = digits
        SPECS[name].override = override
        SPECS[name].unfold = wrap_(unfold) if unfold else None
        return f
    return d


def signatures():
    """the signatures the contracts were written for"""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "signatures.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def install(vm, names=None, drop=()):
    """contracts used at calls; a function whose signature is another one now is inlined instead"""
    sg = signatures()
    for n, s in SPECS.items():
        f = vm.fns.get(n)
        s.other = f is not None and n in sg and sg[n] != [[p["type"] for p in f.params], f.j["results"]]
    vm.contracts = {n: s.fn for n, s in SPECS.items() if s.use and not s.other and n not in drop and (names is None or n in names)}


# ---------------------------------------------------------------- generic inputs
def gZr(name, canon=True):
    return M("Zr", fsym(name), canon)


def gG1(name):
    return M("G1", fsym(name))


def gG2(name):
    return M("G2", fsym(name))


def gGt(name):
    return M("Gt", fsym(name))


KT = {"Zr": "*github.com/IBM/mathlib.Zr", "G1": "*github.com/IBM/mathlib.G1", "G2": "*github.com/IBM/mathlib.G2", "Gt": "*github.com/IBM/mathlib.Gt"}


def gVec(name, n, kind="Zr", canon=True):
    k = fresh("e")
    return SliceV(AObj(KT[kind], as_i(n), None, Lam(k, M(kind, fapp(name, isym(k)), canon)), (), False, "ext"), ZERO, as_i(n))


def gFun(n, f, et=None):
    """slice with elements f(k)"""
    k = fresh("e")
    return SliceV(AObj(et, as_i(n), None, Lam(k, f(isym(k))), (), False, "ext"), ZERO, as_i(n))


def gLen(st, name, lo=0, hi=None):
    s = isym(name)
    st.ctx = st.ctx.assume(le(lo, s)) if hi is None else st.ctx.assume(le(lo, s), lt(s, hi))
    return s


def gInt(name):
    return isym(name)


# ---------------------------------------------------------------- results
def mkvec(st, n, f, kind="Zr", canon=True, own=True):
    k = fresh("e")
    return SliceV(st.alloc(AObj(KT[kind], as_i(n), None, Lam(k, M(kind, f(isym(k)), canon)), (), own, "spare")), ZERO, as_i(n))


def mkslice(st, n, f, et=None, own=True):
    k = fresh("e")
    return SliceV(st.alloc(AObj(et, as_i(n), None, Lam(k, f(isym(k))), (), own, "spare")), ZERO, as_i(n))


def inr(st, k, lo, hi):
    return st.ctx.assume(le(lo, k), lt(k, hi))


def el(vm, st, v, k, lo=None, hi=None):
    """F of element k of a slice of math values, with k assumed in range"""
    c = st.ctx.assume(le(0, k), lt(k, v.n)) if lo is None else st.ctx.assume(le(lo, k), lt(k, hi))
    e = aget(c, st.obj(v.ref), iadd(v.off, k), None, st)
    return vm.mval(st, e).f


def ev_m(vm, st, v, k):
    c = st.ctx.assume(le(0, k), lt(k, v.n))
    e = aget(c, st.obj(v.ref), iadd(v.off, k), None, st)
    return vm.mval(st, e)


def fun(vm, st, v):
    """slice of math values as a function index -> F"""
    if v.n is ZERO or v.ref is None:
        return lambda k: F0
    return lambda k: el(vm, st, v, as_i(k))


def F_(vm, st, x):
    return vm.mval(st, x).f


def ret(st, v):
    return Ev("ret", st, v)


def panics(st, why="panic"):
    return Ev("panic", st, why)


def cases(st, *alts):
    """alts: (cond, fn(st) -> value or Ev). Conditions are made disjoint by the caller."""
    out = []
    for c, f in alts:
        s = st.assume(c)
        if s.ctx.inconsistent():
            continue
        r = f(s)
        if isinstance(r, list):
            out += r
        else:
            out.append(r if isinstance(r, Ev) else Ev("ret", s, r))
    return out


def require(st, c, why="precondition"):
    """contract precondition at a call site: must be provable, otherwise the call is out of contract"""
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    return d


def require_(st, c):
    d = st.ctx.decide(c)
    if d is None:
        raise NeedSplit(c)
    if not d:
        raise Unsupported("call outside the contract's precondition")
    return True


# ---------------------------------------------------------------- checking
class Result:
    def __init__(self, name):
        self.name, self.ok, self.obls, self.fail, self.time = name, True, [], [], 0
        self.used = set()

    def ob(self, name, ok, detail=""):
        self.obls.append((name, ok))
        if not ok:
            self.ok = False
            self.fail.append((name, detail))


def run_split(st, f, depth=0):
    """run f(st) -> [Ev], splitting the state on NeedSplit"""
    try:
        return f(st.clone())
    except NeedSplit as e:
        if depth > 12:
            raise
        out = []
        for c in (e.cond, Not(e.cond)):
            s = st.assume(c)
            if not s.ctx.inconsistent():
                out += run_split(s, f, depth + 1)
        return out


def check(vm, name, verbose=False):
    """does the body of name refine its contract?"""
    sp = SPECS[name]
    ctxm.POWK[:] = []
    ctxm.digits(sp.digits)
    res = Result(name)
    t0 = time.time()
    if name not in vm.fns or not vm.fns[name].blocks:
        res.ob("verifiable", False, "outside the verifier's reach: the function is not in the program any more")
        return res
    if sp.other:
        res.ob("verifiable", False, "outside the verifier's reach: the function has another signature")
        return res
    vm.used = set()
    try:
        st0 = vm.fresh_state()
        setups = sp.pre(vm, st0)
        for si, (st, args) in enumerate(setups):
            base = set(st.heap)
            if st.ctx.inconsistent():
                res.ob("setup%d" % si, False, "vacuous precondition")
                continue
            loops.CANDS[:] = sp.recs(vm, st.clone(), args) if sp.recs else []
            saved = vm.contracts
            if sp.override:
                vm.contracts = dict(vm.contracts, **sp.override)
            try:
                body = vm.call_fn(st.clone(), name, args)
            finally:
                loops.CANDS[:] = []
                vm.contracts = saved
            body = [e for e in body if not e.st.ctx.inconsistent()]
            if sp.custom:
                for nm, ok, why in sp.custom(vm, st, args, body):
                    res.ob("s%d.%s" % (si, nm), ok, why)
                continue
            spec = run_split(st, lambda s: (sp.unfold or sp.fn)(vm, s, args))
            spec = [e for e in spec if not e.st.ctx.inconsistent()]
            if not body or not spec:
                res.ob("setup%d" % si, False, "no outcome (body %d, contract %d)" % (len(body), len(spec)))
                continue
            compare_events(res, st, body, spec, base, si, verbose)
    except _vm.Frame as e:
        res.ob("frame" if e.sure else "verifiable", False, ("" if e.sure else "outside the verifier's reach: ") + str(e)[:1500])
    except Unsupported as e:
        res.ob("verifiable", False, "outside the verifier's reach: %s" % (str(e)[:1500],))
        if verbose:
            traceback.print_exc()
    except (NeedSplit, norm.Give, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        res.ob("verifiable", False, "outside the verifier's reach: %s %s" % (type(e).__name__, str(e)[:300]))
        if verbose:
            traceback.print_exc()
    res.used = set(vm.used)
    res.time = time.time() - t0
    return res


def addfacts(ctx, other, base):
    return ctx.assume(*[f for f in other.facts if f not in ctx.fset])


def compare_events(res, st, body, spec, base, si, verbose=False):
    matched = set()
    for bi, eb in enumerate(body):
        hit = False
        for ei, es in enumerate(spec):
            ctx = addfacts(eb.st.ctx, es.st.ctx, st.ctx)
            if ctx.inconsistent():
                continue
            ctx = rechook(ctx)
            if ctx.foralls:
                ix = sorted({x for f in ctx.facts if f.op != "forall" for x in subterms(f) if x.op == "sym" and x.sort == "I"}, key=lambda z: z.key)
                ctx = ctx.instantiate(ix)
                if ctx.inconsistent():
                    continue
            hit = True
            matched.add(ei)
            tag = "s%d.p%d.c%d" % (si, bi, ei)
            if eb.kind != es.kind:
                res.ob(tag + ".outcome", False, "body %s (%s), contract %s (%s) when %s" % (
                    eb.kind, eb.val, es.kind, es.val, [show(f)[:200] for f in ctx.facts if f not in st.ctx.fset][:8]))
                continue
            res.ob(tag + ".outcome", True)
            if eb.kind == "panic":
                continue
            why = []
            try:
                ok = norm.split_prove(ctx, lambda c: veq(c, eb.st, eb.val, es.st, es.val, why))
            except Unsupported as x:
                ok = False
                why.append(str(x))
            res.ob(tag + ".result", ok, "; ".join(why[-3:]))
            # frame: objects that existed before
            for r in base:
                o1, o2, o0 = eb.st.heap.get(r), es.st.heap.get(r), st.heap.get(r)
                if o1 is o2:
                    continue
                why = []
                ok = norm.split_prove(ctx, lambda c: oeq(c, eb.st, o1, es.st, o2, why))
                res.ob(tag + ".frame%s" % r, ok, "; ".join(why[-3:]))
        if not hit:
            res.ob("s%d.p%d.covered" % (si, bi), False, "body outcome %s not allowed by the contract when %s" % (
                eb, [show(f)[:200] for f in eb.st.ctx.facts if f not in st.ctx.fset][:8]))
    for ei, es in enumerate(spec):
        if ei not in matched:
            res.ob("s%d.c%d.reached" % (si, ei), False, "contract outcome %s is not produced by the body" % (es,))

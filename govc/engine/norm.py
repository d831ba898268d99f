"""Normal form for field terms: sums of monomials under flattened, prefix-split sums.

Rules used (all are identities over a field, for integer ranges with lo <= hi):
  distributivity/commutativity, Σ linear, Σ_{lo..hi} = S(hi)-S(lo), S(e+1)=S(e)+f(e),
  index shift and reflection, singleton elimination (k == e), range restriction by linear
  conditions, Σ of a constant = count * constant, Π of monomials, powers add exponents,
  inverse of a monomial of nonzero atoms.
"""
import itertools
from .terms import *
from .ctx import NeedSplit, Ctx, has_iite

NSTAT = {"equalities": 0, "splits": 0, "terms": 0}


class Give(Exception):
    pass


class Raw:
    """c * Σ_b [conds] Π f.  ok: names of binders whose range is known to satisfy lo <= hi; from
    then on the range is read formally (S(hi)-S(lo) for a fixed antiderivative S), so it may be
    shifted, split and peeled without further side conditions."""
    __slots__ = ("c", "b", "conds", "f", "ok")

    def __init__(self, c, b, conds, f, ok=frozenset()):
        self.c, self.b, self.conds, self.f, self.ok = c, b, conds, f, ok


def _facmul(f, g):
    r = dict(f)
    for a, e in g.items():
        if a in r:
            x = iadd(r[a], e)
            if x is ZERO:
                del r[a]
            else:
                r[a] = x
        else:
            r[a] = e
    return r


def _rename(raw):
    if not raw.b:
        return raw
    m = {}
    nb = []
    for (v, lo, hi) in raw.b:
        nv = fresh("z")
        nb.append((nv, subst(lo, m), subst(hi, m)))
        m[v] = isym(nv)
    return Raw(raw.c, nb, [subst(x, m) for x in raw.conds],
               {subst(a, m): subst(e, m) for a, e in raw.f.items()},
               frozenset(m[v].args[0] if v in m else v for v in raw.ok))


def _find_iite(t):
    for a in t.args:
        if isinstance(a, T) and a.sort == "I" and has_iite(a):
            for x in sorted((x for x in subterms(a) if x.op == "iite"), key=lambda z: z.key):
                if not any(has_iite(y) for y in x.args[1:]):
                    return x
    return None


LIMIT = 20000


def mulraw(A, B):
    out = []
    if len(A) * len(B) > LIMIT:
        raise Give("too many terms")
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            b2 = _rename(b) if b.b and a.b else b
            out.append(Raw(a.c * b2.c % Q, list(a.b) + list(b2.b), a.conds + b2.conds, _facmul(a.f, b2.f), a.ok | b2.ok))
    return out


def invertible(ctx, atom):
    if atom.op == "fe":
        return True
    for p in ctx.nonzero:
        if p(atom):
            return True
    return False


FUREC = {}       # functions defined by recursion over an encoded input: name -> fn(node, ctx) -> F or None


def flatten(t, ctx):
    """F term -> list of Raw"""
    o = t.op
    if o == "fconst":
        return [Raw(t.args[0], [], [], {})] if t.args[0] else []
    if o in ("sym", "fapp"):
        t2 = ctx.norm_int(t)
        r = ctx.rules.get(t2)
        if r is None and t2 is not t:
            r = ctx.rules.get(t)
        if r is not None:
            return flatten(r, ctx)
        if o == "fapp":
            h = ctx.hooks.get(t2.args[0])
            if h is not None:
                r = h(t2, ctx)
                if r is not None:
                    return flatten(r, ctx)
        if has_iite(t2):
            x = _find_iite(t2)
            if x is not None:
                c, u, w = x.args
                return flatten(fite(c, replace(t2, {x: u}), replace(t2, {x: w})), ctx)
        return [Raw(1, [], [], {t2: ONE})]
    if o == "fadd":
        return [r for a in t.args for r in flatten(a, ctx)]
    if o == "fmul":
        cur = None
        for a in t.args:
            x = flatten(a, ctx)
            cur = x if cur is None else mulraw(cur, x)
        return cur
    if o == "fsum":
        v, lo, hi, body = t.args
        nv = fresh("z")
        lo, hi = ctx.norm_int(lo), ctx.norm_int(hi)
        c2 = ctx.assume(le(lo, isym(nv)), lt(isym(nv), hi))
        if c2.zincon():
            return []
        b2 = subst(body, {v: isym(nv)})
        try:
            return [Raw(r.c, [(nv, lo, hi)] + list(r.b), r.conds, r.f, r.ok) for r in flatten(b2, c2)]
        except NeedSplit as e:
            out = []
            for a, b in pieces(e.cond, nv, lo, hi, ctx):
                out += flatten(fsum(v, a, b, body), ctx)
            return out
    if o == "fite":
        c, a, b = t.args
        d = ctx.decide(c) if not _hasfield(c) else _decide_field(ctx, c)
        if d is True:
            return flatten(a, ctx)
        if d is False:
            return flatten(b, ctx)
        c = ctx.norm_int(c)
        nc = Not(c)
        # conditions without field parts can be assumed inside the branches
        ca, cb = (ctx.assume(c), ctx.assume(nc))
        A = flatten(a, ca)
        B = flatten(b, cb)
        return [Raw(r.c, r.b, [c] + r.conds, r.f, r.ok) for r in A] + [Raw(r.c, r.b, [nc] + r.conds, r.f, r.ok) for r in B]
    if o == "fofint":
        i = ctx.norm_int(t.args[0])
        c, m = lin_of(i)
        out = [Raw(c % Q, [], [], {})] if c % Q else []
        for a, k in m.items():
            out += _intatom(a, k, ctx)
        return out
    if o == "fpow":
        b, e = t.args
        e = ctx.norm_int(e)
        fb = canon(flatten(b, ctx), ctx)
        if len(fb) == 0:
            d = ctx.decide(eq(e, 0))
            if d is True:
                return [Raw(1, [], [], {})]
            if d is False:
                return []
        if len(fb) == 1:
            (key, (c, bs, fs)), = fb.items()
            if not bs:
                f = {a: imul(x, e) for a, x in fs}
                f = {a: x for a, x in f.items() if x is not ZERO}
                if c == 1:
                    return [Raw(1, [], [], f)]
                if e.op == "int" and e.args[0] >= 0:
                    return [Raw(pow(c, e.args[0], Q), [], [], f)]
                return mulraw([Raw(1, [], [], f)], [Raw(1, [], [], {mk("fc", (c,), "F"): e})])
        if e.op == "int" and 0 <= e.args[0] <= 4:
            x = flatten(b, ctx)
            cur = [Raw(1, [], [], {})]
            for _ in range(e.args[0]):
                cur = mulraw(cur, x)
            return cur
        return [Raw(1, [], [], {mk("fbase", (to_term(fb),), "F"): e})]
    if o == "finv":
        fb = canon(flatten(t.args[0], ctx), ctx)
        if len(fb) == 0:
            return []      # 0 is left unchanged by the code's inversion
        if len(fb) == 1:
            (key, (c, bs, fs)), = fb.items()
            if not bs and all(invertible(ctx, a) for a, x in fs):
                return [Raw(pow(c, Q - 2, Q), [], [], {a: iscale(x, -1) for a, x in fs})]
        return [Raw(1, [], [], {mk("finvb", (to_term(fb),), "F"): ONE})]
    if o == "fprod":
        v, lo, hi, body = t.args
        lo, hi = ctx.norm_int(lo), ctx.norm_int(hi)
        return prodraw(v, lo, hi, body, ctx)
    if o == "fe":
        return [Raw(1, [], [], {mk("fe", (normE(t.args[0], ctx, True),), "F"): ONE})]
    if o == "fu":
        t2 = mk("fu", tuple(a if isinstance(a, str) else normE(a, ctx) if a.sort == "S" else ctx.norm_int(a) for a in t.args), "F")
        if has_iite(t2):
            x = _find_iite(t2)
            if x is not None:
                c, u, w = x.args
                return flatten(fite(c, replace(t2, {x: u}), replace(t2, {x: w})), ctx)
        r = ctx.rules.get(t2)
        if r is not None:
            return flatten(r, ctx)
        for h in (ctx.hooks.get("fu:" + t2.args[0]), FUREC.get(t2.args[0])) if "nounfold" not in ctx.hooks else ():
            r = h(t2, ctx) if h is not None else None
            if r is not None:
                return flatten(r, ctx)
        return [Raw(1, [], [], {t2: ONE})]
    if o == "chi":
        d = ctx.decide(ctx.norm_int(t.args[0])) if not _hasfield(t.args[0]) else _decide_field(ctx, t.args[0])
        if d is not None:
            return [Raw(1, [], [], {})] if d else []
        return [Raw(1, [], [], {t: ONE})]
    if o == "fc":
        return [Raw(1, [], [], {t: ONE})]
    if o == "csum":      # already canonical: a formal sum, see Raw.ok
        v, lo, hi, body = t.args
        nv = fresh("z")
        return [Raw(r.c, [(nv, ctx.norm_int(lo), ctx.norm_int(hi))] + list(r.b), r.conds, r.f, r.ok | {nv})
                for r in flatten(subst(body, {v: isym(nv)}), ctx)]
    if o in ("cpoly", "cmono"):
        return flatten(un_term(t), ctx)
    if o == "fmono":
        return flatten(fpow(t.args[0], t.args[1]), ctx)
    if o == "finvb":
        return flatten(finv(un_term(t.args[0])), ctx)
    if o == "fbase":
        return flatten(fpow(un_term(t.args[0]), ONE), ctx)
    if o == "fprodb":
        return prodraw(t.args[0], t.args[1], t.args[2], un_term(t.args[3]), ctx)
    raise Give("flatten " + o)


def _intatom(a, k, ctx):
    """k * fofint(atom)"""
    if a.op == "imul":
        cur = [Raw(k % Q, [], [], {})]
        for x in a.args:
            cur = mulraw(cur, _intatom(x, 1, ctx))
        return cur
    if a.op == "ipow":
        b = flatten(fpow(fofint(a.args[0]), a.args[1]), ctx)
        return mulraw([Raw(k % Q, [], [], {})], b)
    if a.op == "iite":
        c, x, y = a.args
        return mulraw([Raw(k % Q, [], [], {})], flatten(fite(c, fofint(x), fofint(y)), ctx))
    if a.op == "isum":
        v, lo, hi, body = a.args
        return mulraw([Raw(k % Q, [], [], {})], flatten(fsum(v, lo, hi, fofint(body)), ctx))
    h = ctx.hooks.get("fofint")
    if h is not None:
        r = h(a, ctx)
        if r is not None:
            return mulraw([Raw(k % Q, [], [], {})], flatten(r, ctx))
    return [Raw(k % Q, [], [], {mk("fofint", (a,), "F"): ONE})]


def pieces(cond, v, lo, hi, ctx):
    """a condition inside an atom depends on the index v: subranges of [lo, hi) on which it is decided"""
    if v not in cond.fv:
        raise NeedSplit(cond)
    cut = _cut(cond, v)
    if cut is None or v in cut.fv:
        raise Give("condition on a bound index")
    e = cond.args[0] if cond.op == "not" else cond
    point = e.op == "eq0"
    for q in (le(lo, cut), lt(cut, hi) if point else le(cut, hi)):
        d = ctx.decide(q)
        if d is None:
            raise NeedSplit(q)
        if d is False:
            raise Give("cut outside the range")
    if point:
        return [(lo, cut), (cut, iadd(cut, 1)), (iadd(cut, 1), hi)]
    if ctx.proves(eq(cut, lo)) or ctx.proves(eq(cut, hi)):
        raise Give("cut at the border")
    return [(lo, cut), (cut, hi)]


def prodraw(v, lo, hi, body, ctx):
    d = isub(hi, lo)
    if d.op == "int":
        if d.args[0] <= 0:
            return [Raw(1, [], [], {})]
        if d.args[0] <= 4:
            cur = [Raw(1, [], [], {})]
            for i in range(d.args[0]):
                cur = mulraw(cur, flatten(subst(body, {v: iadd(lo, i)}), ctx))
            return cur
    emp = ctx.decide(le(hi, lo))
    if emp is True:
        return [Raw(1, [], [], {})]
    if emp is None:
        e1 = ctx.decide(le(lo, hi))
        if e1 is not True:
            raise NeedSplit(le(lo, hi))
    # peel constants off the upper bound
    c, m = lin_of(hi)
    if m and c > 0 and ctx.proves(le(lo, isub(hi, c))):
        cur = prodraw(v, lo, isub(hi, c), body, ctx)
        for i in range(c):
            cur = mulraw(cur, flatten(subst(body, {v: iadd(isub(hi, c), i)}), ctx))
        return cur
    nv = fresh("z")
    c2 = ctx.assume(le(lo, isym(nv)), lt(isym(nv), hi))
    try:
        p = canon(flatten(subst(body, {v: isym(nv)}), c2), c2, outer=((nv, lo, hi),))
    except NeedSplit as e:
        cur = [Raw(1, [], [], {})]
        for a, b in pieces(e.cond, nv, lo, hi, ctx):
            cur = mulraw(cur, prodraw(v, a, b, body, ctx))
        return cur
    n = isub(hi, lo)
    if len(p) == 0:
        return []  # non-empty product of zeros; empty case excluded or equal 1 only when lo==hi
    if len(p) == 1:
        (key, (cf, bs, fs)), = p.items()
        if not bs:
            out = [Raw(1, [], [], {})]
            if cf != 1:
                out = mulraw(out, flatten(fpow(F(cf), n), ctx) if n.op == "int" else [Raw(1, [], [], {mk("fc", (cf,), "F"): n})])
            for a, x in fs:
                if nv not in a.fv and nv not in x.fv:
                    out = mulraw(out, [Raw(1, [], [], {a: imul(x, n)})])
                else:
                    out = mulraw(out, _prodmono(nv, lo, hi, a, x, ctx))
            return out
    return [Raw(1, [], [], {_prodatom(nv, lo, hi, to_term(p)): ONE})]


def _prodmono(nv, lo, hi, a, x, ctx):
    """Π_{nv in [lo,hi)} a^x as a formal Laurent monomial anchored at index 0 of the family a[.]"""
    if a.op == "fapp" and nv not in x.fv:
        for pos, arg in enumerate(a.args):
            if isinstance(arg, T) and nv in arg.fv:
                c, m = lin_of(arg)
                if set(m) == {isym(nv)} and m[isym(nv)] == 1 and not any(isinstance(z, T) and nv in z.fv for z in a.args[pos + 1:]):
                    L, H = iadd(lo, c), iadd(hi, c)
                    if L.op == "int" and 0 < L.args[0] <= 4:
                        base = mk("fapp", a.args[:pos] + (isym(nv),) + a.args[pos + 1:], "F")
                        out = prodraw(nv, ZERO, H, fpow(base, x), ctx)
                        for i in range(L.args[0]):
                            out = mulraw(out, [Raw(1, [], [], {subst(base, {nv: I(i)}): iscale(x, -1)})])
                        return out
                    if c != 0:
                        return [Raw(1, [], [], {_prodatom(nv, L, H, mk("fmono", (mk("fapp", a.args[:pos] + (isym(nv),) + a.args[pos + 1:], "F"), x), "F")): ONE})]
                break
    return [Raw(1, [], [], {_prodatom(nv, lo, hi, mk("fmono", (a, x), "F")): ONE})]


def _prodatom(nv, lo, hi, body):
    d = depth(body) + 1
    cv = "%%%d_0" % d
    # shift to lo = 0
    body = subst(body, {nv: iadd(isym(cv), lo)})
    return mk("fprodb", (cv, ZERO, isub(hi, lo), body), "F")


BINDERS.add("fprodb")
BINDERS.add("csum")


def _hasfield(c):
    return any(x.op in ("feq", "beq", "forall") for x in subterms(c))


def _decide_field(ctx, c):
    if c in ctx.fset:
        return True
    if Not(c) in ctx.fset:
        return False
    if c.op == "feq":
        if field_equal(ctx, c.args[0], c.args[1], split=False):
            return True
        if field_distinct(ctx, c):
            return False
    if c.op == "not":
        d = _decide_field(ctx, c.args[0])
        return None if d is None else (not d)
    return ctx.decide(c)


# ---------------------------------------------------------------- conditions and ranges
def _expand_conds(raw):
    """and/or flattening -> list of raws with literal conds"""
    out = [Raw(raw.c, raw.b, [], raw.f, raw.ok)]
    for c in raw.conds:
        nxt = []
        for r in out:
            for lits in _lits(c):
                nxt.append(Raw(r.c, r.b, r.conds + lits, r.f, r.ok))
        out = nxt
    return out


def _lits(c):
    if c is TRUE:
        return [[]]
    if c is FALSE:
        return []
    if c.op == "and":
        out = [[]]
        for x in c.args:
            out = [a + b for a in out for b in _lits(x)]
        return out
    if c.op == "or":
        out = []
        neg = []
        for x in c.args:
            for l in _lits(x):
                # disjoint: previous ones are false
                pre = [[]]
                for n in neg:
                    pre = [a + b for a in pre for b in _lits(n)]
                for p in pre:
                    out.append(p + l)
            neg.append(Not(x))
        return out
    return [[c]]


def resolve(raw, ctx, outer=()):
    """-> list of Raw without conds (ranges restricted)"""
    work = _expand_conds(raw)
    out = []
    while work:
        r = work.pop()
        if r.c % Q == 0:
            continue
        if not r.conds:
            out.append(r)
            continue
        c = ctx.norm_int(r.conds[0])
        rest = r.conds[1:]
        bnames = {v for v, _, _ in r.b}
        bv = c.fv & bnames
        if not bv:
            d = ctx.decide(c) if not _hasfield(c) else _decide_field(ctx, c)
            if d is True:
                work.append(Raw(r.c, r.b, rest, r.f, r.ok))
                continue
            if d is False:
                continue
            if c.fv & {o[0] for o in outer}:
                out2 = _chi(r, c, rest)
                work.extend(out2)
                continue
            raise NeedSplit(c)
        # context with ranges
        if bv & r.ok:
            raise Give("condition on a formal range")
        c2 = ctx.assume(*[x for v, lo, hi in r.b if v not in r.ok for x in (le(lo, isym(v)), lt(isym(v), hi))])
        if c2.zincon():
            continue
        if not _hasfield(c):
            d = c2.decide(c)
            if d is True:
                work.append(Raw(r.c, r.b, rest, r.f, r.ok))
                continue
            if d is False:
                continue
        if c.op == "not" and c.args[0].op == "eq0":
            e = c.args[0]
            if _bindable(e.args[0], r.b):
                work.append(Raw(r.c, r.b, rest, r.f, r.ok))
                rr = _rename(Raw(-r.c % Q, r.b, [e] + rest, r.f, r.ok))
                work.append(rr)
                continue
            work.extend(_chi(r, c, rest))
            continue
        if c.op in ("le0", "eq0"):
            k = _pick(c.args[0], r.b)
            if k is not None:
                idx, coef = k
                v, lo, hi = r.b[idx]
                co, m = lin_of(c.args[0])
                restlin = mk_lin(co, {a: x for a, x in m.items() if a is not isym(v)})
                inner = {b[0] for b in r.b[idx + 1:]}
                if v in restlin.fv or (restlin.fv & inner):
                    work.extend(_chi(r, c, rest))
                    continue
                oc = ctx.assume(*[x for vv, l2, h2 in r.b[:idx] if vv not in r.ok for x in (le(l2, isym(vv)), lt(isym(vv), h2))])
                if c.op == "eq0":
                    if abs(coef) != 1:
                        work.extend(_chi(r, c, rest))
                        continue
                    e = iscale(restlin, -coef)
                    m2 = {v: e}
                    nb = [(a, subst(l, m2), subst(h, m2)) for j, (a, l, h) in enumerate(r.b) if j != idx]
                    work.append(Raw(r.c, nb, [le(lo, e), lt(e, hi)] + [subst(x, m2) for x in rest],
                                    _fsub(r.f, m2), r.ok))
                    continue
                if coef > 0:
                    # coef*v <= -rest  -> v < floor(-rest/coef)+1
                    e = iadd(idiv(iscale(restlin, -1), coef), 1)
                    d = oc.decide(le(e, hi))
                    if d is None:
                        if le(e, hi).fv & (bnames | {o[0] for o in outer}):
                            work.extend(_chi(r, c, rest))
                            continue
                        raise NeedSplit(le(e, hi))
                    nh = e if d else hi
                    nb = list(r.b)
                    nb[idx] = (v, lo, nh)
                    # the restricted range may be empty
                    d3 = oc.decide(le(lo, nh))
                    if d3 is False:
                        continue
                    if d3 is None:
                        if le(lo, nh).fv & (bnames | {o[0] for o in outer}):
                            work.extend(_chi(r, c, rest))
                            continue
                        raise NeedSplit(le(lo, nh))
                    work.append(Raw(r.c, nb, rest, r.f, r.ok))
                    continue
                else:
                    # v >= ceil(rest/|coef|)
                    e = restlin if coef == -1 else idiv(iadd(restlin, -coef - 1), -coef)
                    d = oc.decide(le(lo, e))
                    if d is None:
                        if le(lo, e).fv & (bnames | {o[0] for o in outer}):
                            work.extend(_chi(r, c, rest))
                            continue
                        raise NeedSplit(le(lo, e))
                    nl = e if d else lo
                    d3 = oc.decide(le(nl, hi))
                    if d3 is False:
                        continue
                    if d3 is None:
                        if le(nl, hi).fv & (bnames | {o[0] for o in outer}):
                            work.extend(_chi(r, c, rest))
                            continue
                        raise NeedSplit(le(nl, hi))
                    nb = list(r.b)
                    nb[idx] = (v, nl, hi)
                    work.append(Raw(r.c, nb, rest, r.f, r.ok))
                    continue
        work.extend(_chi(r, c, rest))
    return out


def _fsub(f, m):
    r = {}
    for a, e in f.items():
        r = _facmul(r, {subst(a, m): subst(e, m)})
    return r


def _bindable(lin, bs):
    return _pick(lin, bs) is not None


def _pick(lin, bs):
    """innermost binder occurring linearly"""
    c, m = lin_of(lin)
    for idx in range(len(bs) - 1, -1, -1):
        s = isym(bs[idx][0])
        if s in m:
            return idx, m[s]
    return None


def _chi(r, c, rest):
    if c.op == "not":
        f = _facmul(r.f, {mk("chi", (c.args[0],), "F"): ONE})
        return [Raw(r.c, r.b, rest, r.f, r.ok), Raw(-r.c % Q, r.b, rest, f, r.ok)]
    if c.op == "le0":
        # orient: use the variant with smaller key of c / not c
        n = Not(c)
        if n.key < c.key:
            f = _facmul(r.f, {mk("chi", (n,), "F"): ONE})
            return [Raw(r.c, r.b, rest, r.f, r.ok), Raw(-r.c % Q, r.b, rest, f, r.ok)]
    at = mk("chi", (c,), "F")
    if at in r.f:
        return [Raw(r.c, r.b, rest, r.f, r.ok)]
    return [Raw(r.c, r.b, rest, _facmul(r.f, {at: ONE}), r.ok)]


# ---------------------------------------------------------------- canonical terms
def depth(t):
    m = -1
    for x in subterms(t):
        if x.op in BINDERS and isinstance(x.args[0], str) and x.args[0].startswith("%"):
            m = max(m, int(x.args[0][1:].split("_")[0]))
    return m


def canon(raws, ctx, outer=()):
    """-> dict key -> (coef, binders, sorted factors)"""
    acc = {}
    work = []
    for r in raws:
        work.extend(resolve(r, ctx, outer))
    n = 0
    while work:
        r = work.pop()
        n += 1
        if n > LIMIT:
            raise Give("too many terms")
        step = canon_step(r, ctx, outer)
        if isinstance(step, list):
            work.extend(step)
            continue
        key, bs, fs = step
        if key in acc:
            c = (acc[key][0] + r.c) % Q
            if c:
                acc[key] = (c, bs, fs)
            else:
                del acc[key]
        else:
            acc[key] = (r.c % Q, bs, fs)
    NSTAT["terms"] += n
    return acc


def canon_step(r, ctx, outer):
    """one simplification step (list of raws) or the canonical form"""
    for a, e in list(r.f.items()):
        if a.op == "chi" and e is not ONE:      # chi is idempotent
            f = dict(r.f)
            f[a] = ONE
            return [Raw(r.c, r.b, [], f, r.ok)]
    # validate ranges (innermost first, under the ranges of the enclosing binders)
    for idx in range(len(r.b) - 1, -1, -1):
        v, lo, hi = r.b[idx]
        if v in r.ok:
            continue
        d = isub(hi, lo)
        if d.op == "int":
            if d.args[0] <= 0:
                return []
            return [Raw(r.c, r.b, [], r.f, r.ok | {v})]
        oc = ctx.assume(*[x for vv, l2, h2 in r.b[:idx] if vv not in r.ok for x in (le(l2, isym(vv)), lt(isym(vv), h2))])
        q = oc.decide(le(lo, hi))
        if q is False:
            return []
        if q is None:
            if oc.zincon():
                return []
            if le(lo, hi).fv & ({b[0] for b in r.b} | {o[0] for o in outer}):
                raise Give("range")
            raise NeedSplit(le(lo, hi))
        return [Raw(r.c, r.b, [], r.f, r.ok | {v})]
    for idx in range(len(r.b) - 1, -1, -1):
        v, lo, hi = r.b[idx]
        d = isub(hi, lo)
        if d.op == "int":
            n = d.args[0]
            if n == 0:
                return []
            if 0 < n <= 3:
                return _instances(r, idx, [(1, iadd(lo, i)) for i in range(n)], ctx)
            if -8 <= n < 0:
                return _instances(r, idx, [(-1, iadd(hi, i)) for i in range(-n)], ctx)
        used = any(v in a.fv or v in e.fv for a, e in r.f.items()) or any(v in l.fv or v in h.fv for (_, l, h) in r.b)
        if not used:
            nb = list(r.b[:idx]) + list(r.b[idx + 1:])
            return mulraw([Raw(r.c, nb, [], r.f, r.ok)], flatten(fofint(d), ctx))
    res = _pivot(r, ctx)
    if res is not None:
        return res
    return _canonical(r)


def _instances(r, idx, items, ctx):
    v = r.b[idx][0]
    out = []
    for sgn, e in items:
        m = {v: e}
        nb = [(a, subst(l, m), subst(h, m)) for j, (a, l, h) in enumerate(r.b) if j != idx]
        base = Raw(r.c * sgn % Q, nb, [], {}, r.ok)
        fs = [base]
        f2 = {}
        changed = False
        for a, x in r.f.items():
            na = subst(a, m)
            nx = subst(x, m)
            if na is not a:
                changed = True
            f2[na] = iadd(f2[na], nx) if na in f2 else nx
        if changed:
            cur = [base]
            for a, x in f2.items():
                if x is ZERO:
                    continue
                cur = mulraw(cur, _reflat(a, x, ctx))
            for c in cur:
                out.extend(resolve(c, ctx))
        else:
            out.append(Raw(base.c, nb, [], {a: x for a, x in f2.items() if x is not ZERO}, r.ok))
    return out


def _reflat(a, x, ctx):
    """re-normalise an atom raised to x after substitution"""
    if a.op == "fprodb":
        fl = flatten(a, ctx)
    elif a.op == "chi":
        c = a.args[0]
        d = ctx.decide(ctx.norm_int(c)) if not _hasfield(c) else _decide_field(ctx, c)
        if d is True:
            return [Raw(1, [], [], {})]
        if d is False:
            return []
        return [Raw(1, [], [], {a: ONE})]
    elif a.op == "fc":
        return [Raw(1, [], [], {a: x})]
    else:
        fl = flatten(a, ctx)
    if x is ONE:
        return fl
    if len(fl) == 1 and not fl[0].b and not fl[0].conds and fl[0].c == 1:
        return [Raw(1, [], [], {b: imul(e, x) for b, e in fl[0].f.items()})]
    if x.op == "int" and 0 <= x.args[0] <= 6:
        cur = [Raw(1, [], [], {})]
        for _ in range(x.args[0]):
            cur = mulraw(cur, fl)
        return cur
    return [Raw(1, [], [], {mk("fbase", (to_term(canon(fl, ctx)),), "F"): x})]


def _pivot(r, ctx):
    """bring every binder's range to [0, hi) with hi free of constants; index shifts by pivot atoms"""
    for idx, (v, lo, hi) in enumerate(r.b):
        s = isym(v)
        bnd = {b[0] for b in r.b}
        cands = []
        for a, e in r.f.items():
            if v in a.fv and a.op in ("fapp", "fu") and not (a.op == "fu" and v in a.args[1].fv):
                for pos, x in enumerate(a.args[1:]):
                    if isinstance(x, T) and x.sort == "I" and v in x.fv:
                        c, m = lin_of(x)
                        if s in m and abs(m[s]) == 1 and not any(v in z.fv for z in m if z is not s):
                            off = mk_lin(c, {z: k for z, k in m.items() if z is not s and not (z.fv & bnd)})
                            oth = mk_lin(0, {z: k for z, k in m.items() if z is not s and (z.fv & bnd)})
                            cands.append((0, a.args[0], pos, len(oth.fv), m[s], off))
                            break
            elif v in e.fv:
                c, m = lin_of(e)
                if s in m and abs(m[s]) == 1 and not any(v in z.fv for z in m if z is not s):
                    off = mk_lin(c, {z: k for z, k in m.items() if z is not s and not (z.fv & bnd)})
                    cands.append((1, a.key, 0, 0, m[s], off))
        if cands:
            cands.sort(key=lambda z: (z[0], z[1], z[2], z[3], z[5].key))
            sg, off = cands[0][4], cands[0][5]
            # prefer offset-free candidate of the same family
            fam = [z for z in cands if z[:3] == cands[0][:3]]
            if len(fam) > 1:
                # choose the one with the smallest offset (provably) if constant differences
                base = fam[0]
                for z in fam[1:]:
                    d = isub(z[5], base[5])
                    if z[4] == base[4] and d.op == "int" and d.args[0] * sg < 0:
                        base = z
                sg, off = base[4], base[5]
            if sg == 1 and off is not ZERO:
                # v + off = v'  -> v = v' - off
                return [_reindex(r, idx, isub(s, off), iadd(lo, off), iadd(hi, off), ctx)]
            if sg == -1:
                # off - v = v' -> v = off - v'
                return [_reindex(r, idx, isub(off, s), iadd(isub(off, hi), 1), iadd(isub(off, lo), 1), ctx)]
        if lo is not ZERO:
            a = list(r.b)
            a[idx] = (v, ZERO, hi)
            b = list(r.b)
            b[idx] = (v, ZERO, lo)
            x = Raw(r.c, a, [], r.f, r.ok)
            y = _rename(Raw(-r.c % Q, b, [], r.f, r.ok))
            return [_mark(x), _mark(y)]
        c, m = lin_of(hi)
        if m and c != 0 and abs(c) <= 8:
            base = isub(hi, c)
            a = list(r.b)
            a[idx] = (v, ZERO, base)
            out = [Raw(r.c, a, [], r.f, r.ok)]
            if c > 0:
                out += _instances(r, idx, [(1, iadd(base, i)) for i in range(c)], ctx)
            else:
                out += _instances(r, idx, [(-1, isub(base, i + 1)) for i in range(-c)], ctx)
            return out
    return None


def _mark(r):
    return r


def _reindex(r, idx, e, lo, hi, ctx):
    v = r.b[idx][0]
    m = {v: e}
    nb = []
    for j, (a, l, h) in enumerate(r.b):
        if j == idx:
            nb.append((a, lo, hi))
        else:
            nb.append((a, subst(l, m), subst(h, m)))
    return Raw(r.c, nb, [], _fsub(r.f, m), r.ok)


def _canonical(r):
    if not r.b:
        fs = tuple(sorted(r.f.items(), key=lambda z: z[0].key))
        key = "|".join(a.key + "^" + e.key for a, e in fs)
        return key, (), fs
    dep = max([depth(a) for a in r.f] + [depth(e) for e in r.f.values()] + [-1]) + 1
    best = None
    idxs = range(len(r.b))
    perms = itertools.permutations(idxs) if len(r.b) <= 5 else [tuple(idxs)]
    for p in perms:
        m = {r.b[i][0]: isym("%%%d_%d" % (dep, p[i])) for i in idxs}
        fs = sorted(((subst(a, m), subst(e, m)) for a, e in r.f.items()), key=lambda z: z[0].key)
        bs = sorted(((m[v].args[0], subst(l, m), subst(h, m)) for v, l, h in r.b), key=lambda z: z[0])
        key = "&".join(b[0] + ":" + b[1].key + ":" + b[2].key for b in bs) + "#" + "|".join(a.key + "^" + e.key for a, e in fs)
        if best is None or key < best[0]:
            best = (key, tuple(bs), tuple(fs))
    return best


def to_term(poly):
    """deterministic term of a canonical polynomial (used inside atoms)"""
    parts = []
    for key in sorted(poly):
        c, bs, fs = poly[key]
        t = mk_cmono(c, *[x for a, e in fs for x in (a, e)])
        for (v, lo, hi) in reversed(bs):
            t = mk("csum", (v, lo, hi, t), "F")
        parts.append(t)
    return mk_cpoly(*parts)


def un_term(t):
    """canonical polynomial term back to an ordinary F term"""
    if t.op == "cpoly":
        return fadd(*[un_term(x) for x in t.args])
    if t.op == "csum":
        return t
    if t.op == "fmono":
        return fpow(t.args[0], t.args[1])
    if t.op == "cmono":
        r = F(t.args[0])
        for i in range(1, len(t.args), 2):
            r = fmul(r, fpow(t.args[i], t.args[i + 1]))
        return r
    return t


def normF(t, ctx):
    """canonical term for t"""
    k = ("F", t)
    r = ctx.ncache.get(k)
    if r is None:
        r = to_term(canon(flatten(t, ctx), ctx))
        ctx.ncache[k] = r
    return r


def normS(s, ctx):
    k = ("S", s)
    r = ctx.ncache.get(k)
    if r is not None:
        return r
    r = _normS(s, ctx)
    ctx.ncache[k] = r
    return r


def normE(s, ctx, unfold=False):
    """the encoded input of a recursive function, normalised in the part of the context that is about its own symbols"""
    s = ctx.isubst(s)
    c = ctx.restrict(s.fv, unfold)
    r = c.ncache.get(("S", s))
    if r is None:
        r = c.ncache[("S", s)] = _normS(s, c)
        c.ncache[("S", r)] = r
    return r


def _normS(s, ctx):
    o = s.op
    if o == "scat":
        return scat(*[normS(x, ctx) for x in s.args])
    if o == "schunk":
        return mk("schunk", tuple(_normA(a, ctx) for a in s.args), "S")
    if o == "ssym":
        return mk("ssym", (s.args[0], ctx.norm_int(s.args[1])), "S")
    if o == "sapp":
        return mk("sapp", tuple(ctx.norm_int(a) if isinstance(a, T) and a.sort == "I" else a for a in s.args), "S")
    if o == "site":
        d = _decide_field(ctx, s.args[0])
        if d is True:
            return normS(s.args[1], ctx)
        if d is False:
            return normS(s.args[2], ctx)
        raise NeedSplit(s.args[0])
    if o == "smap":
        v, lo, hi, body = s.args
        lo, hi = ctx.norm_int(lo), ctx.norm_int(hi)
        d = isub(hi, lo)
        if d.op == "int":
            if d.args[0] <= 0:
                return SEMPTY
            if d.args[0] <= 3:
                return scat(*[normS(subst(body, {v: iadd(lo, i)}), ctx) for i in range(d.args[0])])
        q = ctx.decide(le(hi, lo))
        if q is True:
            return SEMPTY
        if q is None and ctx.decide(le(lo, hi)) is not True:
            raise NeedSplit(le(lo, hi))
        # split the range at conditions
        nv = fresh("z")
        b2 = subst(body, {v: iadd(isym(nv), lo)})
        n = d
        c2 = ctx.assume(le(0, isym(nv)), lt(isym(nv), n))
        try:
            nb = normS(b2, c2)
        except NeedSplit as e:
            if nv not in e.cond.fv:
                raise
            cut = _cut(e.cond, nv)
            if cut is None:
                raise Give("smap condition")
            # split [0,n) at cut: [0,cut) and [cut,n)
            q1 = ctx.decide(le(0, cut))
            if q1 is None:
                raise NeedSplit(le(0, cut))
            q2 = ctx.decide(le(cut, n))
            if q2 is None:
                raise NeedSplit(le(cut, n))
            if not q1 or not q2:
                raise Give("smap cut outside")
            x = fresh("z")
            bx = subst(b2, {nv: isym(x)})
            e_ = e.cond.args[0] if e.cond.op == "not" else e.cond
            if e_.op == "eq0":
                q3 = ctx.decide(lt(cut, n))
                if q3 is None:
                    raise NeedSplit(lt(cut, n))
                if not q3:
                    raise Give("smap cut outside")
                return scat(normS(smap(x, ZERO, cut, bx), ctx), normS(subst(b2, {nv: cut}), ctx), normS(smap(x, iadd(cut, 1), n, bx), ctx))
            if ctx.proves(eq(cut, 0)) or ctx.proves(eq(cut, n)):
                raise Give("smap cut at the border")
            return scat(normS(smap(x, ZERO, cut, bx), ctx), normS(smap(x, cut, n, bx), ctx))
        # peel trailing constants
        c, m = lin_of(n)
        if m and c > 0 and ctx.proves(le(0, isub(n, c))):
            base = isub(n, c)
            return scat(normS(smap(nv, ZERO, base, b2), ctx),
                        *[normS(subst(b2, {nv: iadd(base, i)}), ctx) for i in range(c)])
        cv = "%%%d_s" % (depth(nb) + 1)
        return mk("smap", (cv, ZERO, n, subst(nb, {nv: isym(cv)})), "S")
    return s


def _cut(c, v):
    """condition on v -> index at which it flips (for le0 literals), or for eq: cut"""
    if c.op in ("le0", "eq0"):
        co, m = lin_of(c.args[0])
        s = isym(v)
        if s in m and abs(m[s]) == 1:
            rest = mk_lin(co, {a: k for a, k in m.items() if a is not s})
            if v in rest.fv:
                return None
            if c.op == "le0":
                return iadd(iscale(rest, -1), 1) if m[s] == 1 else rest
            return iscale(rest, -m[s])
    if c.op == "not":
        return _cut(c.args[0], v)
    return None


def _normA(a, ctx):
    if not isinstance(a, T):
        return a
    if a.sort == "F":
        return normF(a, ctx)
    if a.sort == "S":
        return normS(a, ctx)
    a = ctx.norm_int(a)
    for _ in range(8):
        if not has_iite(a):
            break
        x = min((x for x in subterms(a) if x.op == "iite"), key=lambda z: z.key)
        c = x.args[0]
        while c.op in ("and", "or", "not") and (c.op != "not" or c.args[0].op in ("and", "or")):
            c = c.args[0]
        d = ctx.decide(x.args[0])
        if d is None:
            raise NeedSplit(c if ctx.decide(c) is None else x.args[0])
        a = ctx.norm_int(replace(a, {x: x.args[1] if d else x.args[2]}))
    return a


# ---------------------------------------------------------------- equality
def poly_zero(ctx, t):
    """is t == 0 provable (may raise NeedSplit/Give)"""
    p = canon(flatten(t, ctx), ctx)
    if not p:
        return True
    p = _ground_chi(ctx, p)
    if not p:
        return True
    # merge atoms with provably equal arguments
    for _ in range(3):
        m = _merge(ctx, p)
        if not m:
            break
        r = []
        for key, (c, bs, fs) in p.items():
            f = {}
            for a, e in fs:
                f = _facmul(f, {replace(a, m): replace(e, m)})
            r.append(Raw(c, list(bs), [], f, frozenset(b[0] for b in bs)))
        p = canon(r, ctx)
        if not p:
            return True
    if _with_eqs(ctx, p):
        return True
    return False


def _ground_chi(ctx, p):
    """decide the indicators that no bound variable occurs in"""
    cs = {a for c, bs, fs in p.values() for a, _ in fs if a.op == "chi" and not any(v.startswith("%") for v in a.fv)}
    if not cs:
        return p
    m = {}
    for a in sorted(cs, key=lambda x: x.key):
        d = ctx.decide(a.args[0]) if not _hasfield(a.args[0]) else None
        if d is None:
            raise NeedSplit(a.args[0])
        m[a] = d
    r = []
    for c, bs, fs in p.values():
        if not any(a in m and not m[a] for a, _ in fs):
            r.append(Raw(c, list(bs), [], {a: e for a, e in fs if a not in m}, frozenset(b[0] for b in bs)))
    return canon(r, ctx)


def _merge(ctx, p):
    fam = {}
    bound = set()
    for key, (c, bs, fs) in p.items():
        bound |= {b[0] for b in bs}
    for key, (c, bs, fs) in p.items():
        for a, e in fs:
            for x in subterms(a):
                if x.op in ("fapp", "iapp") and not any(v.startswith("%") for v in x.fv):
                    fam.setdefault((x.op, x.args[0], len(x.args)), set()).add(x)
    m = {}
    for k, xs in fam.items():
        xs = sorted(xs, key=lambda z: z.key)
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                if xs[j] in m or xs[i] in m:
                    continue
                a, b = xs[i].args[1:], xs[j].args[1:]
                if all(isinstance(u, T) and u.sort == "I" for u in a + b) and \
                        all(ctx.proves(eq(u, w)) for u, w in zip(a, b)):
                    m[xs[j]] = xs[i]
    return m


def _with_eqs(ctx, p):
    """p == scalar multiple of a known field equation?"""
    for f in ctx.facts:
        if f.op != "feq":
            continue
        fu = [x for x in f.args if x.op == "fu"]
        if fu and not any(a.op == "fu" and a.args[0] == fu[0].args[0] for c, bs, fs in p.values() for a, _ in fs):
            continue        # a predicate that does not occur
        try:
            c2 = _without(ctx, f)
            h = canon(flatten(fsub(f.args[0], f.args[1]), c2), c2)
            p2 = canon([Raw(c, list(bs), [], dict(fs), frozenset(b[0] for b in bs)) for c, bs, fs in p.values()], c2)
        except (NeedSplit, Give):
            continue
        if h and set(h) == set(p2):
            k0 = next(iter(h))
            ratio = p2[k0][0] * pow(h[k0][0], Q - 2, Q) % Q
            if all(p2[k][0] == h[k][0] * ratio % Q for k in h):
                return True
    return False


def _without(ctx, f):
    c = ctx.copy()
    for x in f.args:
        c.rules.pop(x, None)
    return c


def split_prove(ctx, fn, depth=0, maxdepth=9):
    """run fn(ctx) -> bool, splitting on undecided conditions"""
    try:
        return fn(ctx)
    except NeedSplit as e:
        if depth >= maxdepth:
            return False
        NSTAT["splits"] += 1
        for c in (e.cond, Not(e.cond)):
            c2 = ctx.assume(c)
            if c2.zincon():
                continue
            if not split_prove(c2, fn, depth + 1, maxdepth):
                return False
        return True
    except Give:
        return False


def field_equal(ctx, a, b, split=True):
    if a is b:
        return True
    NSTAT["equalities"] += 1
    k = ("eq", a, b, split)
    r = ctx.ncache.get(k)
    if r is None:
        if split:
            r = split_prove(ctx, lambda c: poly_zero(c, fsub(a, b)))
        else:
            try:
                r = poly_zero(ctx, fsub(a, b))
            except (NeedSplit, Give):
                r = False
        ctx.ncache[k] = r
    return r


def field_distinct(ctx, e):
    """a != b provable: known disequality up to scaling, or nonzero constant"""
    a, b = e.args
    try:
        p = canon(flatten(fsub(a, b), ctx), ctx)
    except (NeedSplit, Give):
        return False
    if len(p) == 1:
        (k, (c, bs, fs)), = p.items()
        if not bs and not fs and c:
            return True
        if not bs and all(invertible(ctx, x) for x, _ in fs):
            return True
    for f in ctx.fneg:
        try:
            h = canon(flatten(fsub(f.args[0], f.args[1]), ctx), ctx)
        except (NeedSplit, Give):
            continue
        if h and set(h) == set(p):
            k0 = next(iter(h))
            ratio = p[k0][0] * pow(h[k0][0], Q - 2, Q) % Q
            if all(p[k][0] == h[k][0] * ratio % Q for k in h):
                return True
    return False


def bytes_equal(ctx, a, b):
    if a is b:
        return True
    return split_prove(ctx, lambda c: normS(a, c) is normS(b, c))

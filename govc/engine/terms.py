"""Hash-consed terms: ints (mathematical), booleans, field elements of F_q, byte strings.

Integer terms are kept in linear normal form; everything else is a plain tree.
"""
import hashlib

Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "key", "fv", "__weakref__")

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, T):
        return a.key
    return repr(a)


EMPTY = frozenset()


def mk(op, args, sort):
    k = (op, sort) + tuple(id(a) if isinstance(a, T) else a for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        h = hashlib.blake2b(digest_size=12)
        h.update((op + "|" + sort).encode())
        for a in args:
            h.update(b"\0")
            h.update(_k(a).encode())
        t.key = h.hexdigest()
        if op == "sym":
            t.fv = frozenset((args[0],))
        else:
            fv = EMPTY
            for a in args:
                if isinstance(a, T) and a.fv:
                    fv = fv | a.fv if fv else a.fv
                elif isinstance(a, tuple):
                    raise TypeError("tuple arg in mk " + op)
            if op in BINDERS:
                fv = fv - {args[0]}
            t.fv = fv
        _tab[k] = t
    return t


BINDERS = {"fsum", "fprod", "smap", "forall", "isum"}


def fresh(prefix="k"):
    _cnt[0] += 1
    return "%s!%d" % (prefix, _cnt[0])


def freshmark():
    return _cnt[0]


# ---------------------------------------------------------------- ints
# lin: args = (const, c1, a1, c2, a2, ...) with atoms sorted by key; single ints: op 'int'
def I(n):
    return mk("int", (int(n),), "I")


ZERO, ONE = I(0), I(1)


def isym(name):
    return mk("sym", (name,), "I")


def lin_of(t):
    """-> (const, {atom: coef})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        a = t.args
        return a[0], {a[i + 1]: a[i] for i in range(1, len(a), 2)}
    return 0, {t: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    args = [c]
    for a in sorted(d, key=lambda x: x.key):
        args += [d[a], a]
    return mk("lin", tuple(args), "I")


def as_i(x):
    return I(x) if isinstance(x, int) else x


def iadd(*xs):
    c, d = 0, {}
    for x in xs:
        x = as_i(x)
        c2, d2 = lin_of(x)
        c += c2
        for a, k in d2.items():
            d[a] = d.get(a, 0) + k
    return mk_lin(c, d)


def iscale(x, k):
    c, d = lin_of(as_i(x))
    return mk_lin(c * k, {a: v * k for a, v in d.items()})


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    a, b = as_i(a), as_i(b)
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    if not da:
        return iscale(b, ca)
    if not db:
        return iscale(a, cb)
    c, d = ca * cb, {}
    for x, k in da.items():
        d[x] = d.get(x, 0) + k * cb
    for y, k in db.items():
        d[y] = d.get(y, 0) + k * ca
    for x, k in da.items():
        for y, l in db.items():
            fs = sorted(_mulfs(x) + _mulfs(y), key=lambda z: z.key)
            # merge ipow with equal base
            m = mk("imul", tuple(fs), "I")
            d[m] = d.get(m, 0) + k * l
    return mk_lin(c, d)


def _mulfs(x):
    return list(x.args) if x.op == "imul" else [x]


def idiv(a, b):
    """floor division, b > 0 assumed by the caller (checked there)"""
    a, b = as_i(a), as_i(b)
    if b.op == "int":
        n = b.args[0]
        if n == 1:
            return a
        if a.op == "int" and n > 0:
            return I(a.args[0] // n)
        c, d = lin_of(a)
        if n > 0:
            # pull out multiples
            q = {x: k // n for x, k in d.items() if k % n == 0}
            r = {x: k for x, k in d.items() if k % n != 0}
            qc = c // n
            if q or qc:
                rest = mk_lin(c - qc * n, r)
                return iadd(mk_lin(qc, q), idiv(rest, b) if r else I((c - qc * n) // n))
            # div(div(x,m),n) = div(x, m*n)
            if a.op == "idiv" and a.args[1].op == "int" and a.args[1].args[0] > 0:
                return idiv(a.args[0], I(a.args[1].args[0] * n))
    if a.op == "idiv":
        return mk("idiv", (a.args[0], imul(a.args[1], b)), "I") if b.op != "int" or a.args[1].op != "int" else idiv(a.args[0], imul(a.args[1], b))
    if a is ZERO:
        return ZERO
    return mk("idiv", (a, b), "I")


def imod(a, b):
    a, b = as_i(a), as_i(b)
    if b.op == "int" and b.args[0] > 0:
        n = b.args[0]
        if a.op == "int":
            return I(a.args[0] % n)
        c, d = lin_of(a)
        d2 = {x: k % n for x, k in d.items()}
        a2 = mk_lin(c % n, d2)
        if a2.op == "int":
            return I(a2.args[0] % n)
        if a2.op == "imod" and a2.args[1].op == "int" and a2.args[1].args[0] % n == 0:
            return imod(a2.args[0], b)
        return mk("imod", (a2, b), "I")
    if a is ZERO:
        return ZERO
    return mk("imod", (a, b), "I")


def ipow(b, e):
    b, e = as_i(b), as_i(e)
    if e.op == "int" and e.args[0] >= 0:
        if b.op == "int":
            return I(b.args[0] ** e.args[0])
        r = ONE
        for _ in range(e.args[0]):
            r = imul(r, b)
        return r
    if b is ONE:
        return ONE
    c, d = lin_of(e)
    if c != 0 and d:
        rest = mk_lin(0, d)
        if c > 0:
            return imul(ipow(b, I(c)), mk("ipow", (b, rest), "I"))
        return mk("ipow", (b, e), "I")
    return mk("ipow", (b, e), "I")


def iapp(f, *args):
    return mk("iapp", (f,) + tuple(as_i(a) if isinstance(a, int) else a for a in args), "I")


def iite(c, a, b):
    a, b = as_i(a), as_i(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "eq0":
        # x == e decides x: if b at x = e is a, the choice is b everywhere
        cst, m = lin_of(c.args[0])
        for x, k in m.items():
            if x.op == "sym" and k in (1, -1) and x.args[0] in b.fv:
                e = iscale(isub(iscale(x, k), c.args[0]), k)
                if x.args[0] not in e.fv and subst(b, {x.args[0]: e}) is a:
                    return b
    return mk("iite", (c, a, b), "I")


# ---------------------------------------------------------------- booleans
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def le(a, b):
    """a <= b"""
    d = isub(a, b)
    if d.op == "int":
        return TRUE if d.args[0] <= 0 else FALSE
    c, m = lin_of(d)
    # normalise gcd
    from math import gcd
    g = 0
    for k in m.values():
        g = gcd(g, abs(k))
    if g > 1:
        # g*L + c <= 0  <=> L <= floor(-c/g)
        d = mk_lin(-((-c) // g), {a: k // g for a, k in m.items()})
    return mk("le0", (d,), "B")


def lt(a, b):
    return le(iadd(a, 1), b)


def eq(a, b):
    a, b = as_i(a), as_i(b)
    d = isub(a, b)
    if d.op == "int":
        return TRUE if d.args[0] == 0 else FALSE
    c, m = lin_of(d)
    from math import gcd
    g = 0
    for k in m.values():
        g = gcd(g, abs(k))
    if c % g != 0:
        return FALSE
    # sign normalise: first atom positive
    first = sorted(m, key=lambda x: x.key)[0]
    s = g if m[first] > 0 else -g
    d = mk_lin(c // s, {a: k // s for a, k in m.items()})
    return mk("eq0", (d,), "B")


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le0":
        # not (d<=0) <=> d>=1 <=> 1-d<=0
        return le(isub(1, b.args[0]), 0)
    if b.op == "and":
        return Or(*[Not(x) for x in b.args])
    if b.op == "or":
        return And(*[Not(x) for x in b.args])
    return mk("not", (b,), "B")


def And(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        for x in (b.args if b.op == "and" else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.key)), "B")


def Or(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        for x in (b.args if b.op == "or" else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.key)), "B")


def Implies(a, b):
    return Or(Not(a), b)


def bsym(name):
    return mk("sym", (name,), "B")


def bapp(f, *args):
    return mk("bapp", (f,) + tuple(as_i(a) if isinstance(a, int) else a for a in args), "B")


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return Or(And(c, a), And(Not(c), b))


def feq(a, b):
    """field equality of terms"""
    if a is b:
        return TRUE
    if a.op == "fconst" and b.op == "fconst":
        return TRUE if a is b else FALSE
    if b.key < a.key:
        a, b = b, a
    return mk("feq", (a, b), "B")


def beq(a, b):
    """byte string equality"""
    if a is b:
        return TRUE
    if b.key < a.key:
        a, b = b, a
    return mk("beq", (a, b), "B")


def forall(var, lo, hi, body):
    """var: name; for all lo <= var < hi"""
    if body is TRUE:
        return TRUE
    if isub(hi, lo).op == "int" and isub(hi, lo).args[0] <= 0:
        return TRUE
    return mk("forall", (var, as_i(lo), as_i(hi), body), "B")


# ---------------------------------------------------------------- field
def F(n):
    return mk("fconst", (n % Q,), "F")


F0, F1 = F(0), F(1)


def fsym(name):
    return mk("sym", (name,), "F")


def fapp(f, *args):
    return mk("fapp", (f,) + tuple(as_i(a) if isinstance(a, int) else a for a in args), "F")


def fadd(*xs):
    out = []
    c = 0
    for x in xs:
        if x.op == "fadd":
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y.op == "fconst":
                c = (c + y.args[0]) % Q
            else:
                out.append(y)
    if c:
        out.append(F(c))
    if not out:
        return F0
    if len(out) == 1:
        return out[0]
    return mk("fadd", tuple(out), "F")


def fmul(*xs):
    out = []
    c = 1
    for x in xs:
        ys = x.args if x.op == "fmul" else (x,)
        for y in ys:
            if y.op == "fconst":
                c = c * y.args[0] % Q
            else:
                out.append(y)
    if c == 0:
        return F0
    if c != 1:
        out.insert(0, F(c))
    if not out:
        return F1
    if len(out) == 1:
        return out[0]
    return mk("fmul", tuple(out), "F")


def fneg(x):
    return fmul(F(-1), x)


def fsub(a, b):
    return fadd(a, fneg(b))


def fsum(var, lo, hi, body):
    lo, hi = as_i(lo), as_i(hi)
    if body is F0:
        return F0
    d = isub(hi, lo)
    if d.op == "int" and d.args[0] <= 0:
        return F0
    if d.op == "int" and d.args[0] == 1:
        return subst(body, {var: lo})
    return mk("fsum", (var, lo, hi, body), "F")


def fprod(var, lo, hi, body):
    lo, hi = as_i(lo), as_i(hi)
    if body is F1:
        return F1
    d = isub(hi, lo)
    if d.op == "int" and d.args[0] <= 0:
        return F1
    if d.op == "int" and d.args[0] == 1:
        return subst(body, {var: lo})
    return mk("fprod", (var, lo, hi, body), "F")


def Sum(lo, hi, f):
    v = fresh("s")
    return fsum(v, lo, hi, f(isym(v)))


def Prod(lo, hi, f):
    v = fresh("p")
    return fprod(v, lo, hi, f(isym(v)))


def Forall(lo, hi, f):
    v = fresh("q")
    return forall(v, lo, hi, f(isym(v)))


def fpow(b, e):
    e = as_i(e)
    if e.op == "int":
        n = e.args[0]
        if b.op == "fconst" and n >= 0:
            return F(pow(b.args[0], n, Q))
        if n == 0:
            return F1
        if n == 1:
            return b
    if b is F1:
        return F1
    return mk("fpow", (b, e), "F")


def finv(x):
    if x.op == "fconst":
        return F(pow(x.args[0], Q - 2, Q))
    if x.op == "finv":
        return x.args[0]
    return mk("finv", (x,), "F")


def fite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("fite", (c, a, b), "F")


def fofint(i):
    i = as_i(i)
    if i.op == "int":
        return F(i.args[0])
    return mk("fofint", (i,), "F")


def fe(s):
    """field element derived from a 32-byte string"""
    return mk("fe", (s,), "F")


# ---------------------------------------------------------------- byte strings
def sconst(b):
    return mk("sconst", (bytes(b).hex(),), "S")


SEMPTY = mk("scat", (), "S")


def ssym(name, length):
    return mk("ssym", (name, as_i(length)), "S")


def schunk(kind, *args):
    """kinds: g1 g2 gt zr u16 u32 u8 sha hmac zrep rawzr ..."""
    return mk("schunk", (kind,) + args, "S")


CHUNKLEN = {"g1": 64, "g2": 128, "gt": 384, "zr": 32, "zrep": 32, "u16": 2, "u32": 4, "u64": 8, "u8": 1, "sha": 32, "hmac": 32}


def scat(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == "scat" else (x,)):
            if y.op == "sconst":
                if y.args[0] == "":
                    continue
                if out and out[-1].op == "sconst":
                    out[-1] = sconst(bytes.fromhex(out[-1].args[0] + y.args[0]))
                    continue
            out.append(y)
    if len(out) == 1:
        return out[0]
    return mk("scat", tuple(out), "S")


def smap(var, lo, hi, body):
    lo, hi = as_i(lo), as_i(hi)
    d = isub(hi, lo)
    if d.op == "int" and d.args[0] <= 0:
        return SEMPTY
    if d.op == "int" and d.args[0] == 1:
        return subst(body, {var: lo})
    if body is SEMPTY:
        return SEMPTY
    return mk("smap", (var, lo, hi, body), "S")


def slen(s):
    if s.op == "scat":
        return iadd(*[slen(x) for x in s.args]) if s.args else ZERO
    if s.op == "sconst":
        return I(len(s.args[0]) // 2)
    if s.op == "ssym":
        return s.args[1]
    if s.op == "schunk":
        k = s.args[0]
        if k in CHUNKLEN:
            return I(CHUNKLEN[k])
        if k == "sub":
            return isub(s.args[3], s.args[2])
        return iapp("slen", s)
    if s.op == "smap":
        l = slen(s.args[3])
        if s.args[0] not in l.fv:
            return imul(isub(s.args[2], s.args[1]), l)
        return iapp("slen", s)
    if s.op == "site":
        return iite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    return iapp("slen", s)


def site(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("site", (c, a, b), "S")


# ---------------------------------------------------------------- generic
_REBUILD = None


def rebuild(op, args, sort):
    global _REBUILD
    if _REBUILD is None:
        _REBUILD = {
            "lin": lambda *a: iadd(I(a[0]), *[iscale(a[i + 1], a[i]) for i in range(1, len(a), 2)]),
            "imul": lambda *a: _foldmul(a),
            "idiv": idiv, "imod": imod, "ipow": ipow, "iite": iite,
            "le0": lambda d: le(d, ZERO), "eq0": lambda d: eq(d, ZERO), "not": Not, "and": And, "or": Or,
            "feq": feq, "beq": beq, "forall": forall,
            "fadd": fadd, "fmul": fmul, "fsum": fsum, "fprod": fprod, "fpow": fpow, "finv": finv, "fite": fite,
            "cmono": mk_cmono, "cpoly": mk_cpoly,
            "fofint": fofint, "scat": scat, "smap": smap, "site": site,
        }
    f = _REBUILD.get(op)
    if f is None:
        return mk(op, args, sort)
    return f(*args)


def mk_cmono(c, *xs):
    ps = sorted(((xs[i], xs[i + 1]) for i in range(0, len(xs), 2)), key=lambda p: p[0].key)
    return mk("cmono", (c,) + tuple(x for p in ps for x in p), "F")


def mk_cpoly(*ms):
    return mk("cpoly", tuple(sorted(ms, key=lambda t: t.key)), "F")


def _foldmul(a):
    r = ONE
    for x in a:
        r = imul(r, x)
    return r


def subst(t, m, _cache=None):
    """m: {symbol name: term}"""
    if m and isinstance(t, T) and isinstance(next(iter(m)), T):
        return replace(t, m)
    if not isinstance(t, T):
        return t
    if not (t.fv & m.keys()):
        return t
    if _cache is None:
        _cache = {}
    r = _cache.get(t)
    if r is not None:
        return r
    if t.op == "sym":
        r = m.get(t.args[0], t)
    elif t.op in BINDERS:
        var = t.args[0]
        m2 = {k: v for k, v in m.items() if k != var}
        body = t.args[3]
        if any(var in v.fv for v in m2.values()):
            nv = fresh("b")
            body = subst(body, {var: isym(nv)})
            var = nv
        r = rebuild(t.op, (var, subst(t.args[1], m2), subst(t.args[2], m2), subst(body, m2)), t.sort)
    else:
        r = rebuild(t.op, tuple(subst(a, m, _cache) for a in t.args), t.sort)
    _cache[t] = r
    return r


def replace(t, m, _cache=None):
    """replace subterms: m {T: T} (bottom-up, not under capture concerns)"""
    if not isinstance(t, T):
        return t
    if _cache is None:
        _cache = {}
    r = _cache.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        if any(isinstance(a, T) for a in t.args):
            r = rebuild(t.op, tuple(replace(a, m, _cache) for a in t.args), t.sort)
        else:
            r = t
        if r in m:
            r = m[r]
    _cache[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return seen


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "int":
        return str(a[0])
    if o == "fconst":
        return str(a[0] if a[0] < Q // 2 else a[0] - Q)
    if o == "sym":
        return a[0]
    if o == "lin":
        r = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            r.append((("%d*" % a[i]) if a[i] != 1 else "") + s(a[i + 1]))
        return "(" + "+".join(r) + ")"
    if o in ("iapp", "fapp", "bapp"):
        return "%s[%s]" % (a[0], ",".join(s(x) for x in a[1:]))
    if o == "fadd":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if o == "fmul":
        return "*".join(s(x) for x in a)
    if o in ("fsum", "fprod", "smap", "forall"):
        return "%s{%s<=%s<%s}(%s)" % ({"fsum": "Σ", "fprod": "Π", "smap": "Cat", "forall": "∀"}[o], s(a[1]), a[0], s(a[2]), s(a[3]))
    if o == "le0":
        return s(a[0]) + "<=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "not":
        return "!" + s(a[0])
    return "%s(%s)" % (o, ",".join(s(x) for x in a))

"""Hash-consed term language with canonical (Laurent) polynomials for numbers.

Numbers are mathematical integers ('I') and reals ('R').  A numeric Term is
always a 'poly'; everything else that is a number is an *atom* that occurs in
the monomials of a poly.  Pointers are ('ptr', obj, off) / ('pite', c, p, q) /
('null',) / ('fptr', name)."""
from fractions import Fraction
import math

_tab = {}
_cnt = [0]


class Term:
    __slots__ = ('k', 'a', 's', 'id', 'fv', '__weakref__')

    def __init__(self, k, a, s):
        self.k = k
        self.a = a
        self.s = s
        _cnt[0] += 1
        self.id = _cnt[0]
        self.fv = None

    def __hash__(self):
        return self.id          # not the address: the order of sets must not differ between runs

    def __repr__(self):
        return show(self)


def mk(k, a, s):
    key = (k, a, s)
    t = _tab.get(key)
    if t is None:
        t = Term(k, a, s)
        _tab[key] = t
    return t


# ---------------------------------------------------------------- numbers
def lit(f):
    """Real literal: identified with the 12-significant-digit decimal (or the
    simple rational multiple of pi or 1/pi) it stands for."""
    x = Fraction(f)
    if x.denominator == 1 or f == 0.0:
        return num(x, 'R')
    for sgn in (1, -1):
        q = Fraction(f / (math.pi ** sgn)).limit_denominator(720)
        if q != 0 and abs(q) <= 720 and abs(float(q) * math.pi ** sgn - f) <= 4e-15 * abs(f):
            r = var('pi', 'R')
            return scale(r if sgn == 1 else inv(r), q)
    if x.denominator < 4096:
        return num(x, 'R')
    return num(Fraction('%.11e' % f), 'R')


def _mkpoly(d, s):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: [(x.id, e) for x, e in mc[0]])
    return mk('poly', tuple(items), s)


def num(c, s='I'):
    c = Fraction(c)
    if c == 0:
        return mk('poly', (), s)
    return _mkpoly({(): c}, s)


def atom(t):
    return mk('poly', ((((t, 1),), Fraction(1)),), t.s)


def var(name, s):
    if s in 'IR':
        return atom(mk('var', (name,), s))
    return mk('var', (name,), s)


def is_const(p):
    return p.k == 'poly' and (len(p.a) == 0 or (len(p.a) == 1 and p.a[0][0] == ()))


def cval(p):
    if len(p.a) == 0:
        return Fraction(0)
    return p.a[0][1]


def is_int_const(p):
    return is_const(p) and cval(p).denominator == 1


def single_atom(p):
    """The atom t if p is exactly 1*t."""
    if p.k == 'poly' and len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        return p.a[0][0][0][0]
    return None


def add(*ps):
    s = 'R' if any(p.s == 'R' for p in ps) else 'I'
    d = {}
    for p in ps:
        for m, c in p.a:
            d[m] = d.get(m, 0) + c
    return _mkpoly(d, s)


def scale(p, c):
    c = Fraction(c)
    return _mkpoly({m: k * c for m, k in p.a}, p.s)


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda q: q[0].id))


def _canon_mono(m):
    """Expand sum atoms with positive exponent; sqrt(x)^2 -> x.  Returns None
    when already canonical, otherwise a poly dict."""
    for x, e in m:
        if x.k == 'sum' and e > 0:
            return x, e
        if x.k == 'app' and x.a[0] == 'sqrt' and (e >= 2 or e <= -2):
            return x, e
    return None


def mul(a, b):
    s = 'R' if (a.s == 'R' or b.s == 'R') else 'I'
    d = {}
    pend = []
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            m = _mulmono(m1, m2)
            c = c1 * c2
            if s == 'R':
                z = _canon_mono(m)
                if z is not None:
                    pend.append((m, c, z))
                    continue
            d[m] = d.get(m, 0) + c
    r = _mkpoly(d, s)
    for m, c, (x, e) in pend:
        rest = tuple(q for q in m if q[0] is not x)
        rp = _mkpoly({rest: c}, s)
        if x.k == 'sum':
            for _ in range(e):
                rp = mul(rp, x.a[0])
        else:
            h, odd = divmod(abs(e), 2)
            inner = x.a[1]
            if e < 0:
                inner = inv(inner)
            for _ in range(h):
                rp = mul(rp, inner)
            if odd:
                rp = mul(rp, mk('poly', ((((x, 1 if e > 0 else -1),), Fraction(1)),), 'R'))
        r = add(r, rp)
    return r


def toreal(p):
    if p.s == 'R':
        return p
    return _mkpoly(dict(p.a), 'R')


def inv(p):
    p = toreal(p)
    if len(p.a) == 0:
        return atom(mk('app', ('inv0',), 'R'))
    if len(p.a) == 1:
        m, c = p.a[0]
        # sums with positive exponents never occur; negative become positive -> expand
        res = num(1 / c, 'R')
        nm = []
        for x, e in m:
            if x.k == 'sum' and e < 0:
                for _ in range(-e):
                    res = mul(res, x.a[0])
            else:
                nm.append((x, -e))
        if nm:
            res = mul(res, mk('poly', ((tuple(nm), Fraction(1)),), 'R'))
        return res
    # factor out common monomial and leading coefficient
    common = dict(p.a[0][0])
    for m, c in p.a[1:]:
        dm = dict(m)
        for x in list(common):
            e0, e1 = common[x], dm.get(x, 0)
            if e0 > 0 and e1 > 0:
                common[x] = min(e0, e1)
            elif e0 < 0 and e1 < 0:
                common[x] = max(e0, e1)
            else:
                del common[x]
    cm = tuple(sorted(common.items(), key=lambda q: q[0].id))
    icm = tuple((x, -e) for x, e in cm)
    lead = p.a[0][1]
    core = _mkpoly({_mulmono(m, icm): c / lead for m, c in p.a}, 'R')
    s = mk('sum', (core,), 'R')
    r = _mkpoly({((s, -1),): 1 / lead}, 'R')
    if cm:
        r = mul(r, inv(_mkpoly({cm: Fraction(1)}, 'R')))
    return r


def div(a, b):
    return mul(toreal(a), inv(b))


def _divexact(a, b):
    """a/b as polynomial over the integers when b is a monomial dividing a."""
    if len(b.a) != 1:
        if a is b:
            return num(1)
        # try ratio constant
        if len(a.a) == len(b.a) and len(b.a) > 1:
            r = a.a[0][1] / b.a[0][1]
            if r.denominator == 1 and scale(b, r) is a:
                return num(r)
        return None
    mb, cb = b.a[0]
    d = {}
    db = dict(mb)
    for m, c in a.a:
        q = c / cb
        if q.denominator != 1:
            return None
        dm = dict(m)
        for x, e in db.items():
            if dm.get(x, 0) < e:
                return None
            dm[x] -= e
        d[tuple(sorted(((x, e) for x, e in dm.items() if e), key=lambda z: z[0].id))] = q
    return _mkpoly(d, 'I')


def idiv(a, b):
    if is_const(b) and cval(b) == 1:
        return a
    if is_const(a) and is_const(b) and cval(b) != 0:
        x, y = int(cval(a)), int(cval(b))
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    if len(b.a):
        q = _divexact(a, b)
        if q is not None:
            return q
    return atom(mk('idiv', (a, b), 'I'))


def irem(a, b):
    return sub(a, mul(b, idiv(a, b)))


INTFN = {'rint', 'floor', 'ceil', 'trunc', 'round'}


def is_integral(p):
    """Every coefficient an integer and every atom integer valued, exps >= 0."""
    for m, c in p.a:
        if c.denominator != 1:
            return False
        for x, e in m:
            if x.s != 'I' or e < 0:
                return False
    return True


def toint(p):
    """C conversion double -> integer (in range)."""
    if p.s == 'I':
        return p
    if is_integral(p):
        return _mkpoly(dict(p.a), 'I')
    if is_const(p):
        return num(math.trunc(cval(p)))
    return intfn('trunc', p)


def intfn(f, x):
    if is_integral(x):
        return _mkpoly(dict(x.a), 'I')
    if is_const(x):
        c = cval(x)
        if f == 'floor':
            return num(math.floor(c))
        if f == 'ceil':
            return num(math.ceil(c))
        if f == 'trunc':
            return num(math.trunc(c))
        if f == 'rint':
            return num(round(c))
    return atom(mk('app', (f, x), 'I'))


def app(f, args, s):
    args = tuple(args)
    if s == 'R':
        r = _simp_app(f, args)
        if r is not None:
            return r
    if s in 'IR':
        return atom(mk('app', (f,) + args, s))
    return mk('app', (f,) + args, s)


def _is_neglead(p):
    return len(p.a) > 0 and p.a[0][1] < 0


def _simp_app(f, args):
    if len(args) == 1 and isinstance(args[0], Term) and args[0].k == 'poly':
        x = args[0]
        if is_const(x):
            c = cval(x)
            if f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'fabs', 'sqrt') and c == 0:
                return num(0, 'R')
            if f in ('cos', 'exp', 'cosh') and c == 0:
                return num(1, 'R')
            if f == 'fabs':
                return num(abs(c), 'R')
            if f == 'sqrt' and c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return num(Fraction(n, d), 'R')
            if f in ('sin', 'cos', 'tan', 'exp', 'log', 'asin', 'acos', 'atan', 'sqrt'):
                try:
                    return num(Fraction(getattr(math, f)(float(c))), 'R')
                except (ValueError, OverflowError):
                    pass
        # parity
        if f in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and _is_neglead(x):
            return neg(app(f, (neg(x),), 'R'))
        if f in ('cos', 'fabs', 'cosh') and _is_neglead(x):
            return app(f, (neg(x),), 'R')
        if f == 'fabs':
            c = x.a[0][1] if x.a else 0
            if len(x.a) == 1 and c != 1:
                return scale(app('fabs', (scale(x, 1 / c),), 'R'), abs(c))
            if len(x.a) == 1 and all(e % 2 == 0 or (y.k == 'app' and y.a[0] in ('sqrt', 'exp', 'fabs')) for y, e in x.a[0][0]):
                return x
    if f == 'pow' and len(args) == 2 and is_int_const(args[1]) and abs(cval(args[1])) <= 6:
        n = int(cval(args[1]))
        r = num(1, 'R')
        for _ in range(abs(n)):
            r = mul(r, args[0])
        return inv(r) if n < 0 else r
    if f == 'pow' and len(args) == 2 and is_const(args[1]) and cval(args[1]) == Fraction(1, 2):
        return app('sqrt', (args[0],), 'R')
    return None


# ---------------------------------------------------------------- booleans
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


_bnot = {}


def bnot(b):
    r = _bnot.get(b.id)
    if r is None:
        r = _bnot[b.id] = _not(b)
    return r


def _not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == 'not':
        return b.a[0]
    if b.k == 'le0' and b.a[0].s == 'I':
        return le0(sub(num(1), b.a[0]))
    if b.k == 'and':
        return bor(*[bnot(x) for x in b.a])
    if b.k == 'or':
        return band(*[bnot(x) for x in b.a])
    return mk('not', (b,), 'B')


def band(*bs):
    out = {}
    st = list(bs)
    while st:
        b = st.pop()
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.k == 'and':
            st.extend(b.a)
            continue
        out[b.id] = b
    for b in out.values():
        if bnot_quick(b) is not None and bnot_quick(b).id in out:
            return FALSE
    # absorb: a and (a or b) -> a ; a and (not a or b) -> a and b
    changed = True
    while changed:
        changed = False
        for b in list(out.values()):
            if b.k == 'or':
                if any(x.id in out for x in b.a):
                    del out[b.id]
                    changed = True
                    continue
                rest = [x for x in b.a if bnot_quick(x) is None or bnot_quick(x).id not in out]
                if len(rest) != len(b.a):
                    del out[b.id]
                    nb = bor(*rest)
                    if nb is FALSE:
                        return FALSE
                    if nb.k == 'and':
                        for x in nb.a:
                            out[x.id] = x
                    elif nb is not TRUE:
                        out[nb.id] = nb
                    changed = True
    l = sorted(out.values(), key=lambda x: x.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk('and', tuple(l), 'B')


def bnot_quick(b):
    if b.k in ('and', 'or', 'true', 'false'):
        return None
    return bnot(b)


def bor(*bs):
    out = {}
    st = list(bs)
    while st:
        b = st.pop()
        if b is FALSE:
            continue
        if b is TRUE:
            return TRUE
        if b.k == 'or':
            st.extend(b.a)
            continue
        out[b.id] = b
    for b in out.values():
        q = bnot_quick(b)
        if q is not None and q.id in out:
            return TRUE
    ands = [b for b in out.values() if b.k == 'and']
    if len(out) >= 2 and ands:
        # factor common conjuncts, resolve complementary rests
        l = list(out.values())
        cs = [set(x.id for x in (b.a if b.k == 'and' else (b,))) for b in l]
        common = set.intersection(*cs)
        if common:
            idx = {}
            for b in l:
                for x in (b.a if b.k == 'and' else (b,)):
                    idx[x.id] = x
            rests = [band(*[x for x in (b.a if b.k == 'and' else (b,)) if x.id not in common]) for b in l]
            return band(*([idx[i] for i in common] + [bor(*rests)]))
        # a or (not a and b) -> a or b
        for b in ands:
            rest = [x for x in b.a if not (bnot_quick(x) is not None and bnot_quick(x).id in out)]
            if len(rest) != len(b.a):
                o2 = [x for x in l if x is not b] + [band(*rest)]
                return bor(*o2)
        for b in ands:
            if any(x.id in out for x in b.a):
                return bor(*[x for x in l if x is not b])
        # (c and X) or (not c and Y) pairs with equal remainder
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                A, B = l[i], l[j]
                if A.k == 'and' and B.k == 'and' and len(A.a) == len(B.a):
                    sa = set(A.a)
                    sb = set(B.a)
                    da, db_ = sa - sb, sb - sa
                    if len(da) == 1 and len(db_) == 1:
                        x, = da
                        y, = db_
                        if bnot_quick(x) is y:
                            return bor(*([z for q, z in enumerate(l) if q not in (i, j)] + [band(*(sa & sb))]))
    l = sorted(out.values(), key=lambda x: x.id)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk('or', tuple(l), 'B')


def le0(p):
    """p <= 0"""
    if is_const(p):
        return TRUE if cval(p) <= 0 else FALSE
    if p.s == 'I':
        # divide by gcd of non-constant coefficients
        g = 0
        den = 1
        for m, c in p.a:
            den = den * c.denominator // math.gcd(den, c.denominator)
        p2 = scale(p, den) if den != 1 else p
        for m, c in p2.a:
            if m != ():
                g = math.gcd(g, abs(int(c)))
        if g > 1:
            d = {}
            for m, c in p2.a:
                if m == ():
                    d[m] = Fraction(math.ceil(c / g))
                else:
                    d[m] = c / g
            p2 = _mkpoly(d, 'I')
        return mk('le0', (p2,), 'B')
    lead = abs(p.a[0][1] if p.a[0][0] != () else p.a[-1][1])
    if lead != 1:
        p = scale(p, 1 / lead)
    return mk('le0', (p,), 'B')


def eq0(p):
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    if p.s == 'I' and all(c.denominator == 1 for _, c in p.a):
        g = 0
        for m, c in p.a:
            if m != ():
                g = math.gcd(g, abs(int(c)))
        if g > 1:
            for m, c in p.a:
                if m == () and int(c) % g:
                    return FALSE
            p = _mkpoly({m: c / g for m, c in p.a}, 'I')
    lead = p.a[0][1] if p.a[0][0] != () else p.a[-1][1]
    if p.s == 'R':
        p = scale(p, 1 / lead)
    elif lead < 0:
        p = neg(p)
    return mk('eq0', (p,), 'B')


def le(a, b):
    if a.s == 'R' or b.s == 'R':
        return le0(sub(toreal(a), toreal(b)))
    return le0(sub(a, b))


def lt(a, b):
    if a.s == 'R' or b.s == 'R':
        return bnot(le0(sub(toreal(b), toreal(a))))
    return le0(add(sub(a, b), num(1)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'B' or b.s == 'B':
        return bite(a, b, bnot(b))
    if a.s in 'IR':
        if a.s == 'R' or b.s == 'R':
            p = sub(toreal(a), toreal(b))
        else:
            p = sub(a, b)
        if len(p.a) and a.s == 'I':
            # eq of ite constants
            for x, y in ((a, b), (b, a)):
                t = single_atom(x)
                if t is not None and t.k == 'ite' and is_const(y):
                    u, v = t.a[1], t.a[2]
                    if (ground_ite(u) and ground_ite(v)) or is_const(u) or is_const(v):
                        return bite(t.a[0], eq(u, y), eq(v, y))
        return eq0(p)
    if a.s == 'P':
        return ptr_eq(a, b)
    return mk('aeq', tuple(sorted((a, b), key=lambda t: t.id)), 'B')


def ground_ite(p, depth=6):
    if is_const(p):
        return True
    if depth == 0:
        return False
    t = single_atom(p)
    return t is not None and t.k == 'ite' and ground_ite(t.a[1], depth - 1) and ground_ite(t.a[2], depth - 1)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    if c.k == 'not':
        return bite(c.a[0], b, a)
    return mk('bite', (c, a, b), 'B')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s == 'B':
        return bite(c, a, b)
    if c.k == 'not':
        return ite(c.a[0], b, a)
    if a.s == 'P':
        return pite(c, a, b)
    if a.s in 'IR':
        s = 'R' if 'R' in (a.s, b.s) else 'I'
        if s == 'R':
            a, b = toreal(a), toreal(b)
        ta, tb = single_atom(a), single_atom(b)
        # ite(c, ite(c,x,y), z) -> ite(c,x,z)
        if ta is not None and ta.k == 'ite' and ta.a[0] is c:
            return ite(c, ta.a[1], b)
        if tb is not None and tb.k == 'ite' and tb.a[0] is c:
            return ite(c, a, tb.a[2])
        # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
        if tb is not None and tb.k == 'ite':
            if tb.a[1] is a:
                return ite(bor(c, tb.a[0]), a, tb.a[2])
            if tb.a[2] is a:
                return ite(bor(c, bnot(tb.a[0])), a, tb.a[1])
        if ta is not None and ta.k == 'ite':
            if ta.a[1] is b:
                return ite(band(c, bnot(ta.a[0])), ta.a[2], b)
            if ta.a[2] is b:
                return ite(band(c, ta.a[0]), ta.a[1], b)
        # orient: smaller-id condition polarity for int le0
        if c.k == 'le0' and c.a[0].s == 'I':
            nc = bnot(c)
            if nc.id < c.id:
                return atom(mk('ite', (nc, b, a), s))
        return atom(mk('ite', (c, a, b), s))
    if a.s.startswith('A'):
        if a.k == 'aite' and a.a[0] is c:
            return ite(c, a.a[1], b)
        if b.k == 'aite' and b.a[0] is c:
            return ite(c, a, b.a[2])
        if b.k == 'aite':
            if b.a[1] is a:
                return ite(bor(c, b.a[0]), a, b.a[2])
            if b.a[2] is a:
                return ite(bor(c, bnot(b.a[0])), a, b.a[1])
        if a.k == 'aite':
            if a.a[1] is b:
                return ite(band(c, bnot(a.a[0])), a.a[2], b)
            if a.a[2] is b:
                return ite(band(c, a.a[0]), a.a[1], b)
        if c.k == 'le0' and c.a[0].s == 'I':
            nc = bnot(c)
            if nc.id < c.id:
                return mk('aite', (nc, b, a), a.s)
        return mk('aite', (c, a, b), a.s)
    if a.s == 'T':
        return mk('tup', tuple(ite(c, x, y) for x, y in zip(a.a, b.a)), 'T')
    raise ValueError('ite sort ' + a.s)


# ---------------------------------------------------------------- pointers
NULL = mk('null', (), 'P')


def ptr(obj, off):
    return mk('ptr', (obj, off), 'P')


def fptr(name):
    return mk('fptr', (name,), 'P')


def pite(c, a, b):
    if a is b:
        return a
    if a.k == 'ptr' and b.k == 'ptr' and a.a[0] == b.a[0]:
        return ptr(a.a[0], ite(c, a.a[1], b.a[1]))
    if b.k == 'pite':
        if b.a[1] is a:
            return pite(bor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return pite(bor(c, bnot(b.a[0])), a, b.a[1])
    return mk('pite', (c, a, b), 'P')


NULLABLE = {}     # obj name -> bool term "is null"


def ptr_eq(a, b):
    if a is b:
        return TRUE
    if a.k == 'pite':
        return bite(a.a[0], ptr_eq(a.a[1], b), ptr_eq(a.a[2], b))
    if b.k == 'pite':
        return ptr_eq(b, a)
    if a.k == 'null' and b.k != 'null':
        a, b = b, a
    if a.k == 'ptr' and b.k == 'null':
        z = NULLABLE.get(a.a[0])
        return z if z is not None else FALSE
    if a.k == 'ptr' and b.k == 'ptr':
        if a.a[0] == b.a[0]:
            return eq(a.a[1], b.a[1])
        return FALSE
    if a.k == 'fptr' and b.k in ('null', 'ptr'):
        return FALSE
    return mk('peq', tuple(sorted((a, b), key=lambda t: t.id)), 'B')


def padd(p, off):
    if p.k == 'ptr':
        return ptr(p.a[0], add(p.a[1], off))
    if p.k == 'pite':
        return pite(p.a[0], padd(p.a[1], off), padd(p.a[2], off))
    if is_const(off) and cval(off) == 0:
        return p
    return mk('padd', (p, off), 'P')


# ---------------------------------------------------------------- arrays
def avar(name, es):
    return mk('var', (name,), 'A' + es)


def sel(a, i):
    es = a.s[1:]
    if a.k == 'store':
        base, j, v = a.a
        d = sub(i, j)
        if is_const(d):
            if cval(d) == 0:
                return v
            return sel(base, i)
        return ite(eq0(d), v, sel(base, i))
    if a.k == 'aite':
        return ite(a.a[0], sel(a.a[1], i), sel(a.a[2], i))
    if a.k == 'amap':
        base, lo, n, v = a.a
        c1, c2 = le(lo, i), lt(i, add(lo, n))
        c = band(c1, c2)
        if c is FALSE:
            return sel(base, i)
        return ite(c, amap_at(a, i), sel(base, i))
    if a.k == 'aconst':
        return a.a[0]
    if es in 'IR':
        return atom(mk('sel', (a, i), es))
    return mk('sel', (a, i), es)


def store(a, i, v):
    if a.k == 'store':
        d = sub(i, a.a[1])
        if is_const(d) and cval(d) == 0:
            return store(a.a[0], i, v)
        if is_const(d) and i.id < a.a[1].id:
            return store(store(a.a[0], i, v), a.a[1], a.a[2])
    es = a.s[1:]
    if es == 'R':
        v = toreal(v)
    # storing back what is already there
    if a.k == 'aconst' and a.a[0] is v:
        return a
    t = single_atom(v) if v.k == 'poly' else v
    if t is not None and t.k == 'sel' and t.a[0] is a and t.a[1] is i:
        return a
    return mk('store', (a, i, v), a.s)


KDEPTH = {}


def kdepth(t):
    """Nesting depth of array comprehensions inside t."""
    r = KDEPTH.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u in KDEPTH:
            st.pop()
            continue
        todo = [c for c in children(u) if c not in KDEPTH]
        if todo:
            st.extend(todo)
            continue
        d = max([KDEPTH[c] for c in children(u)] + [0])
        KDEPTH[u] = d + 1 if u.k == 'amap' else d
        st.pop()
    return KDEPTH[t]


def kvar(d):
    return var('K!%d' % d, 'I')


def amap(a, lo, n, f):
    """Array equal to a except that lo <= i < lo+n holds f(i).  f: callable on
    the (poly) index, or a term with the comprehension variable given."""
    if is_const(n) and cval(n) <= 0:
        return a
    tmp = var('K!!', 'I')
    body = f(tmp)
    es = a.s[1:]
    if es == 'R':
        body = toreal(body)
    k = kvar(kdepth(body) + 1)
    body = subst(body, {single_atom(tmp): k})
    if is_int_const(n) and cval(n) <= 4:
        for j in range(int(cval(n))):
            i = add(lo, num(j))
            a = store(a, i, subst(body, {single_atom(k): i}))
        return a
    if a.k == 'amap' and a.a[1] is lo and a.a[2] is n:
        return amap(a.a[0], lo, n, f)
    if a.k == 'aconst' and body is a.a[0]:
        return a
    return mk('amap', (a, lo, n, body), a.s)


def amap_at(t, i):
    k = kvar(kdepth(t.a[3]) + 1)
    return subst(t.a[3], {single_atom(k): i})


def afill(a, lo, n, v):
    return amap(a, lo, n, lambda k: v)


def acopy(a, lo, src, slo, n):
    if src is a and slo is lo:
        return a
    return amap(a, lo, n, lambda k: sel(src, add(slo, sub(k, lo))))


def tup(*xs):
    return mk('tup', tuple(xs), 'T')


# ---------------------------------------------------------------- traversal
def children(t):
    k = t.k
    if k == 'poly':
        for m, c in t.a:
            for x, e in m:
                yield x
        return
    for x in t.a:
        if isinstance(x, Term):
            yield x


def free(t):
    """Set of ids of 'var' atoms occurring in t (cached)."""
    if t.fv is not None:
        return t.fv
    st = [t]
    while st:
        u = st[-1]
        if u.fv is not None:
            st.pop()
            continue
        todo = [c for c in children(u) if c.fv is None]
        if todo:
            st.extend(todo)
            continue
        if u.k == 'var':
            u.fv = frozenset((u,))
        else:
            s = frozenset()
            for c in children(u):
                if c.fv:
                    s = s | c.fv if s else c.fv
            u.fv = s
        st.pop()
    return t.fv


def rebuild(t, f):
    """Rebuild non-poly compound term t applying f to child terms."""
    k, a = t.k, t.a
    if k == 'poly':
        r = num(0, t.s)
        for m, c in t.a:
            q = num(c, t.s)
            for x, e in m:
                v = f(x)          # atom -> poly
                if v.s != t.s and t.s == 'R':
                    v = toreal(v)
                if e < 0:
                    v = inv(v)
                    e = -e
                for _ in range(e):
                    q = mul(q, v)
            r = add(r, q)
        if t.s == 'R' and r.s == 'I':
            r = toreal(r)
        return r
    if k == 'var':
        return atom(t) if t.s in 'IR' else t
    if k == 'app':
        args = [f(x) if isinstance(x, Term) else x for x in a[1:]]
        if a[0] in INTFN:
            return intfn(a[0], args[0])
        return app(a[0], args, t.s)
    if k == 'fin':
        args = tuple(f(x) if isinstance(x, Term) else x for x in a)
        r = mk('fin', args, t.s)
        return atom(r) if t.s in 'IR' else r
    if k == 'ite' or k == 'aite' or k == 'bite':
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if k == 'idiv':
        return idiv(f(a[0]), f(a[1]))
    if k == 'sum':
        return f(a[0])
    if k == 'sel':
        return sel(f(a[0]), f(a[1]))
    if k == 'store':
        return store(f(a[0]), f(a[1]), f(a[2]))
    if k == 'amap':
        kv = kvar(kdepth(a[3]) + 1)
        b2 = f(a[3])
        return amap(f(a[0]), f(a[1]), f(a[2]), lambda q: subst(b2, {single_atom(kv): q}))
    if k == 'aconst':
        return mk('aconst', (f(a[0]),), t.s)
    if k == 'aapp':
        return mk('aapp', tuple(f(x) if isinstance(x, Term) else x for x in a), t.s)
    if k == 'not':
        return bnot(f(a[0]))
    if k == 'and':
        return band(*[f(x) for x in a])
    if k == 'or':
        return bor(*[f(x) for x in a])
    if k == 'le0':
        return le0(f(a[0]))
    if k == 'eq0':
        return eq0(f(a[0]))
    if k == 'ptr':
        return ptr(a[0], f(a[1]))
    if k == 'pite':
        return pite(f(a[0]), f(a[1]), f(a[2]))
    if k == 'padd':
        return padd(f(a[0]), f(a[1]))
    if k == 'peq':
        return ptr_eq(f(a[0]), f(a[1]))
    if k == 'aeq':
        return eq(f(a[0]), f(a[1]))
    if k == 'tup':
        return tup(*[f(x) for x in a])
    if not any(isinstance(x, Term) for x in a):
        return atom(t) if t.s in 'IR' and k != 'poly' else t
    raise ValueError('rebuild ' + k)


def subst(t, m, memo=None, hook=None):
    """m: dict var-Term -> replacement Term (poly for numbers).
    hook(term, f) may return a replacement for a non-poly term."""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def f(u):
        r = memo.get(u)
        if r is not None:
            return r
        if hook is None and not (free(u) & keys):
            r = u
            if u.s in 'IR' and u.k != 'poly':
                r = atom(u)
        elif u.k == 'var':
            r = m.get(u)
            if r is None:
                r = atom(u) if u.s in 'IR' else u
        else:
            r = hook(u, f) if hook is not None else None
            if r is None:
                r = rebuild(u, f)
        memo[u] = r
        return r
    import sys
    return f(t)


# ---------------------------------------------------------------- printing
def show(t, d=7):
    if d <= 0:
        return '…'
    if t.k == 'poly':
        if not t.a:
            return '0'
        out = []
        for m, c in t.a:
            ms = '*'.join((show(x, d - 1) + ('^%d' % e if e != 1 else '')) for x, e in m)
            if not ms:
                out.append(_c(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append(_c(c) + '*' + ms)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if t.k == 'var':
        return str(t.a[0])
    if t.k == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d - 1) if isinstance(x, Term) else str(x) for x in t.a[1:]))
    if t.k == 'fin':
        return 'fin[L%s.%s](%s)' % (t.a[0], t.a[1], ', '.join(show(x, d - 1) for x in t.a[2:]))
    if t.k == 'le0':
        return '%s <= 0' % show(t.a[0], d - 1)
    if t.k == 'eq0':
        return '%s == 0' % show(t.a[0], d - 1)
    return '%s(%s)' % (t.k, ', '.join(show(x, d - 1) if isinstance(x, Term) else str(x) for x in t.a))


def _c(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator < 1000:
        return str(c)
    return '%.12g' % float(c)

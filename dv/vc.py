"""Proof obligations: z3 back end, loop coupling (relational induction)."""
import itertools, time
import z3
from term import *
import term as T
import sym


class Stats:
    def __init__(self):
        self.q = 0
        self.time = 0.0
        self.syn = 0
        self.z3 = 0
        self.cvc5 = 0


STATS = Stats()


class Z:
    """Translator.  nonlin=False: products are opaque constants."""

    def __init__(self, nonlin=False, roots=False):
        self.roots = roots
        self.memo = {}
        self.nonlin = nonlin
        self.fns = {}
        self.side = []
        self.seen_idiv = []
        self.names = {}

    def srt(self, s):
        if s == 'I':
            return z3.IntSort()
        if s == 'R':
            return z3.RealSort()
        if s == 'B':
            return z3.BoolSort()
        if s == 'P':
            return z3.IntSort()
        if s.startswith('A'):
            return z3.ArraySort(z3.IntSort(), self.srt(s[1:]))
        raise ValueError(s)

    def fn(self, name, doms, rng):
        key = (name, tuple(str(d) for d in doms), str(rng))
        f = self.fns.get(key)
        if f is None:
            nm = '%s/%d' % (name, len(self.fns))
            f = z3.Function(nm, *doms, rng) if doms else z3.Const(nm, rng)
            self.fns[key] = f
        return f

    def appl(self, name, args, s):
        zs = []
        for a in args:
            if isinstance(a, Term):
                zs.extend(self.flat(a))
            else:
                zs.append(z3.IntVal(a) if isinstance(a, int) else self.const('str:' + str(a)))
        f = self.fn(name, [z.sort() for z in zs], self.srt(s))
        return f(*zs) if zs else f

    def const(self, nm):
        return z3.Const('c!' + nm, z3.IntSort())

    def flat(self, t):
        if t.s == 'T':
            out = []
            for x in t.a:
                out.extend(self.flat(x))
            return out
        return [self.t(t)]

    def t(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._t(t)
        self.memo[t] = r
        return r

    def _t(self, t):
        k, a = t.k, t.a
        if k == 'poly':
            if t.s == 'I':
                den = 1
                out = []
                for m, c in a:
                    if c.denominator != 1:
                        return self.appl('badint%d' % t.id, [], 'I')
                    z = None
                    if len(m) == 0:
                        out.append(z3.IntVal(int(c)))
                        continue
                    z = self.mono(m, 'I')
                    out.append(z if c == 1 else z3.IntVal(int(c)) * z)
                return z3.IntVal(0) if not out else z3.Sum(out) if len(out) != 1 else out[0]
            out = []
            for m, c in a:
                cv = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
                if not m:
                    out.append(cv)
                else:
                    z = self.mono(m, 'R')
                    out.append(z if c == 1 else cv * z)
            if not out:
                return z3.RealVal(0)
            return z3.Sum(out) if len(out) > 1 else out[0]
        if k == 'var':
            nm = str(a[0])
            return z3.Const(nm + ':' + t.s, self.srt(t.s))
        if k == 'app':
            if a[0] == 'fabs':
                q = self.t(a[1])
                return z3.If(q >= 0, q, -q)
            r = self.appl('f_' + str(a[0]), a[1:], t.s)
            if a[0] in ('sqrt', 'exp'):
                self.side.append(r >= 0)
            if a[0] == 'sqrt' and self.roots:
                q = self.t(a[1])
                self.side.append(z3.Implies(q >= 0, r * r == q))
            return r
        if k == 'fin':
            return self.appl('fin_%s_%s' % (a[0], a[1]), a[2:], t.s)
        if k == 'aapp':
            return self.appl('a_' + str(a[0]), a[1:], t.s)
        if k in ('ite', 'aite', 'bite', 'pite'):
            return z3.If(self.t(a[0]), self.t(a[1]), self.t(a[2]))
        if k == 'idiv':
            p, q = self.t(a[0]), self.t(a[1])
            r = self.appl('idiv', [a[0], a[1]], 'I')
            if is_const(a[1]):
                self.side.append(z3.Implies(z3.And(p >= 0, q > 0), z3.And(r * q <= p, p < r * q + q)))
            else:
                self.side.append(z3.Implies(z3.And(p >= 0, q > 0), z3.And(r >= 0, r <= p)))
                for (p2, q2, t2) in self.seen_idiv:
                    if t2.a[1] is a[1]:
                        r2 = self.t(t2)
                        self.side.append(z3.Implies(z3.And(q > 0, p >= 0, p2 >= p), r2 >= r))
                        self.side.append(z3.Implies(z3.And(q > 0, p2 >= 0, p >= p2), r >= r2))
                self.seen_idiv.append((p, q, t))
                if self.nonlin:
                    self.side.append(z3.Implies(z3.And(p >= 0, q > 0), z3.And(r * q <= p, p < r * q + q)))
            return r
        if k == 'sel':
            if a[0].s.startswith('A'):
                return z3.Select(self.t(a[0]), self.t(a[1]))
        if k == 'store':
            return z3.Store(self.t(a[0]), self.t(a[1]), self.t(a[2]))
        if k == 'amap':
            kv = kvar(kdepth(a[3]) + 1)
            z = self.t(kv)
            return z3.Lambda([z], z3.If(z3.And(self.t(a[1]) <= z, z < self.t(a[1]) + self.t(a[2])), self.t(a[3]), z3.Select(self.t(a[0]), z)))
        if k == 'aconst':
            return z3.K(z3.IntSort(), self.t(a[0]))
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'not':
            return z3.Not(self.t(a[0]))
        if k == 'and':
            return z3.And(*[self.t(x) for x in a])
        if k == 'or':
            return z3.Or(*[self.t(x) for x in a])
        if k == 'le0':
            return self.t(a[0]) <= 0
        if k == 'eq0':
            return self.t(a[0]) == 0
        if k == 'aeq' or k == 'peq':
            return self.t(a[0]) == self.t(a[1])
        if k == 'null':
            return z3.IntVal(0)
        if k == 'ptr':
            return self.appl('ptr_' + str(a[0]), [a[1]], 'P')
        if k == 'fptr':
            return self.const('fptr:' + a[0])
        if k == 'sum':
            return self.t(a[0])
        if k == 'undefp':
            return self.const('undefp')
        return self.appl('k_' + k, a, t.s)

    def mono(self, m, s):
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            z = self.t(x)
            if s == 'R' and x.s == 'I':
                z = z3.ToReal(z)
            return z
        if self.nonlin and all(e > 0 for x, e in m):
            z = None
            for x, e in m:
                q = self.t(x)
                if s == 'R' and x.s == 'I':
                    q = z3.ToReal(q)
                for _ in range(e):
                    z = q if z is None else z * q
            return z
        args = []
        nm = 'mono' + s
        for x, e in m:
            nm += '_%d' % e
            q = self.t(x)
            args.append(z3.ToReal(q) if (s == 'R' and x.s == 'I') else q)
        f = self.fn(nm, [z.sort() for z in args], self.srt(s))
        return f(*args)


def relevant(goal_terms, facts):
    """facts sharing a symbol (transitively, bounded) with the goal"""
    return facts


def limit(s, ms):
    """bound a solver call by the work done, not by the time it takes: the answer
    must not depend on how busy the machine is"""
    s.set('rlimit', 4000 * ms)
    s.set('timeout', 4 * ms)


class Prover:
    def __init__(self, timeout=15000):
        self.timeout = timeout
        self.cache = {}
        self.last_model = None
        self.model_vals = {}
        self.zq = None

    def valid(self, hyps, goal, timeout=None):
        """True / False(with model) / None unknown."""
        STATS.q += 1
        if goal is TRUE:
            STATS.syn += 1
            return True
        h = band(*hyps) if hyps else TRUE
        if h is FALSE:
            STATS.syn += 1
            return True
        key = (h, goal)
        if key in self.cache:
            return self.cache[key]
        hs = sym.conj(h)
        if all(g in hs for g in sym.conj(goal)):
            STATS.syn += 1
            self.cache[key] = True
            return True
        t0 = time.time()
        r = None
        for nonlin in (False, True):
            z = Z(nonlin)
            s = z3.SolverFor('ALL') if False else z3.Solver()
            limit(s, timeout or self.timeout)
            zs = [z.t(x) for x in sorted(hs, key=lambda q: q.id)]
            g = z.t(goal)
            for x in zs:
                s.add(x)
            s.add(z3.Not(g))
            for x in z.side:
                s.add(x)
            res = s.check()
            if res == z3.unsat:
                r = True
                STATS.z3 += 1
                break
            if res == z3.sat:
                r = False
                try:
                    m = s.model()
                    self.last_model = str(m)[:1500]
                    self.model_vals = modelvals(m)
                except Exception:
                    self.last_model = None
            else:
                r = None
                self.last_model = None
            if not hasnonlin(hs | {goal}):
                break
        STATS.time += time.time() - t0
        self.cache[key] = r
        return r

    def lemma(self, hyps, goal):
        """a fact about roots, from the definition of the root"""
        STATS.q += 1
        z = Z(True, True)
        s = z3.Solver()
        limit(s, 20000)
        for x in [z.t(x) for x in hyps] + [z3.Not(z.t(goal))]:
            s.add(x)
        for x in z.side:
            s.add(x)
        ok = s.check() == z3.unsat
        STATS.z3 += ok
        return ok

    def decides(self, hyps, goal, timeout=10000):
        """valid, for many questions of the same kind: the answers 'no' come from
        models found before where one of them fits"""
        hs = set()
        for x in hyps:
            hs |= set(sym.conj(x))
        if goal is TRUE or FALSE in hs or all(g in hs for g in sym.conj(goal)):
            STATS.q += 1
            STATS.syn += 1
            return True
        if goal is FALSE or bnot(goal) in hs:
            return False
        key = ('d', frozenset(hs), goal)
        if key in self.cache:
            return self.cache[key]
        STATS.q += 1
        t0 = time.time()
        if self.zq is None:
            self.zq, self.zl, self.models = Z(True), Z(False), []
        z = self.zq
        hs = sorted(hs, key=lambda q: q.id)
        zs = [z.t(x) for x in hs]
        g = z.t(goal)
        r = None
        q = z3.And(*(zs + [z3.Not(g)]))
        for m in self.models:
            if z3.is_true(m.eval(q, model_completion=True)) and all(z3.is_true(m.eval(x, model_completion=True)) for x in z.side):
                r = False
                self.models.remove(m)
                self.models.insert(0, m)
                break
        if r is None:
            nl = hasnonlin(set(hs) | {goal})
            for Z_ in ([self.zl] if nl else []) + [self.zq]:
                s = z3.Solver()
                limit(s, timeout)
                s.set('random_seed', 0)
                for x in hs:
                    s.add(Z_.t(x))
                s.add(z3.Not(Z_.t(goal)))
                for x in Z_.side:
                    s.add(x)
                res = s.check()
                if res == z3.unsat:
                    r = True
                    STATS.z3 += 1
                    break
                if res == z3.sat and Z_ is z:
                    r = False
                    self.models = [s.model()] + self.models[:15]
        STATS.time += time.time() - t0
        self.cache[key] = r
        return r

    def prove(self, hyps, goal, timeout=None, depth=14):
        """valid, with case analysis on the conditions of conditional values"""
        r = self.valid(hyps, goal, timeout)
        if r:
            return r
        h = []
        for x in hyps:
            h.extend(sym.conj(x))
        if depth > 0:
            g = self.congr(h, goal, timeout)
            if g is not goal:
                if self.valid(h, g, timeout):
                    return True
                goal = g
        budget = [800]
        return True if self._split(h, goal, depth, timeout, budget) else r

    def congr(self, hyps, goal, timeout):
        """goal with provably equal applications identified"""
        for rnd in range(3):
            groups = {}
            seen = set()
            st = [goal]
            while st:
                t = st.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.k in ('app', 'aapp', 'fin', 'idiv'):
                    hd = (t.k, t.s, tuple(x if not isinstance(x, Term) else (x.s if x.s != 'T' else ('T', len(x.a))) for x in t.a))
                    groups.setdefault(hd, []).append(t)
                st.extend(children(t))
            sub_ = {}
            tries = 0
            for hd, ts in groups.items():
                if len(ts) < 2 or len(ts) > 8:
                    continue
                ts.sort(key=size)
                reps = [ts[0]]
                for t in ts[1:]:
                    for r in reps:
                        tries += 1
                        if tries > 40:
                            break
                        if all(self.same(hyps, x, y, timeout) for x, y in zip(r.a, t.a) if isinstance(x, Term)):
                            sub_[t] = r
                            break
                    else:
                        reps.append(t)
            if not sub_:
                return goal

            def hook(u, f):
                q = sub_.get(u)
                return None if q is None else (poly_of(q))
            g2 = subst(goal, {}, None, hook)
            if g2 is goal:
                return goal
            goal = g2
        return goal

    def same(self, hyps, a, b, timeout):
        if a is b:
            return True
        if a.s == 'T':
            return all(self.same(hyps, x, y, timeout) for x, y in zip(a.a, b.a))
        if a.s != b.s:
            return False
        key = ('same', band(*hyps), a, b)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = bool(self.eqv(hyps, a, b, timeout))
        return r

    def _split(self, hyps, goal, depth, timeout, budget):
        budget[0] -= 1
        if budget[0] < 0 or depth < 0:
            return False
        c = pick_cond(goal)
        if c is None:
            return bool(self.valid(hyps, goal, timeout))
        lits = [q for q in (c, bnot(c)) if not self.valid(hyps + [q], FALSE, 2000)]
        if len(lits) == 1:
            depth += 1
        for lit in lits:
            e = equality(hyps, lit)
            if e is not None:
                hyps_, g_ = [subst(x, e) for x in hyps], subst(goal, e)
                if g_ is TRUE:
                    STATS.syn += 1
                    continue
                if not self._split(hyps_, g_, depth - 1, timeout, budget):
                    return False
                continue
            g = assume(goal, lit)
            if g is TRUE:
                STATS.syn += 1
                continue
            if not self._split([assume(x, lit) for x in hyps] + [lit], g, depth - 1, timeout, budget):
                return False
        return True

    def eqv(self, hyps, a, b, timeout=None):
        if a is b:
            STATS.q += 1
            STATS.syn += 1
            return True
        if a is None or b is None:
            return a is b
        if a.s == 'T':
            return all(self.eqv(hyps, x, y, timeout) for x, y in zip(a.a, b.a))
        if (a.s != b.s) and not (a.s in 'IR' and b.s in 'IR'):
            return False
        if a.s.startswith('A') and (has_kind(a, 'amap') or has_kind(b, 'amap')):
            if self.valid(hyps, eq(a, b), 3000):
                return True
            i = var('ext!', 'I')
            return self.prove(hyps, eq(sel(a, i), sel(b, i)), timeout)
        if a.s == 'B' and (a.k == 'and' or b.k == 'and') and a is not TRUE and b is not TRUE and self.conjuncts(hyps, a, b, timeout):
            return True
        return self.prove(hyps, eq(a, b), timeout)

    def conjuncts(self, hyps, a, b, timeout):
        """two conjunctions: the parts without computed values imply each other,
        and where they hold the other parts are equivalent"""
        A, B = list(sym.conj(a)), list(sym.conj(b))
        both = [x for x in A if x in B]
        hard = lambda x: any(has_kind(x, k) for k in ('app', 'aapp', 'sel', 'fin'))
        xs, ys = [x for x in A if x not in both], [x for x in B if x not in both]
        xe, ye = [x for x in xs if not hard(x)], [x for x in ys if not hard(x)]
        xh, yh = [x for x in xs if hard(x)], [x for x in ys if hard(x)]
        if not (both or xe or ye):
            return False
        easy = [x for x in both if not hard(x)]
        hyps = list(hyps) + easy
        for given, want, hards in ((xe, ye, xh), (ye, xe, yh)):
            have = list(given)
            for g in want:
                if not self.prove(hyps + have, g, timeout) and not self.prove(hyps + have + both + hards, g, timeout):
                    return False
                have.append(g)
        hyps += xe + ye
        if not xh and not yh:
            return True
        return bool(self.eqv(hyps, band(*xh), band(*yh), timeout))


def modelvals(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0 and d.name()[-2:] in (':I', ':R', ':B'):
            v = m[d]
            try:
                out[d.name()[:-2]] = bool(v) if z3.is_bool(v) else v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
            except Exception:
                pass
    return out


def poly_of(q):
    return atom(q) if q.s in 'IR' and q.k != 'poly' else q


def has_kind(t, k):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.k == k:
            return True
        st.extend(children(u))
    return False


def pick_cond(goal):
    """an elementary condition of some conditional value in goal, innermost first"""
    seen = set()
    st = [(goal, False)]
    conds = set()
    while st:
        t, under = st.pop()
        if (t, under) in seen or (t, True) in seen:
            continue
        seen.add((t, under))
        if under and t.k in ('ite', 'aite', 'bite', 'pite'):
            conds.add(t.a[0])
        if under and t.k == 'app' and t.a[0] == 'fabs':
            conds.add(le0(t.a[1]))
        if t.k == 'poly':
            for m, c in t.a:
                u2 = under or len(m) > 1 or (len(m) == 1 and m[0][1] != 1)
                for x, e in m:
                    st.append((x, u2))
            continue
        u2 = under or t.k in ('app', 'intfn', 'fin', 'idiv', 'aapp')
        for x in children(t):
            st.append((x, u2))
    atoms = {}
    seen = set()

    def elem(c):
        if c in seen:
            return
        seen.add(c)
        if c.k in ('and', 'or', 'not'):
            for x in c.a:
                elem(x)
        elif c.k == 'bite':
            for x in c.a:
                elem(x)
        elif c.k in ('true', 'false'):
            return
        elif any(v.a[0].startswith('K!') for v in free(c) if isinstance(v.a[0], str)):
            return
        elif not has_kind(c, 'ite') and not has_kind(c, 'bite') and not has_kind(c, 'aite'):
            atoms[c] = size(c)
    for c in conds:
        elem(c)
    if not atoms:
        return None
    return min(atoms, key=lambda c: (c.k != 'eq0' or len(free(c)) != 1, atoms[c], c.id))


_size = {}


def size(t):
    r = _size.get(t)
    if r is None:
        r = 1 + sum(size(x) for x in children(t))
        _size[t] = r
    return r


def equality(hyps, lit):
    """p <= 0 and -p <= 0: a variable that p determines, with its value"""
    if lit.k != 'le0' or lit.a[0].s != 'R' or not any(x.k == 'le0' and (ratio(x.a[0], lit.a[0]) or 0) < 0 for x in hyps):
        return None
    p = lit.a[0]
    for m, c in p.a:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'var' and m[0][0].s == 'R':
            v = m[0][0]
            rest = sub(p, mul(num(c, 'R'), atom(v)))
            if v not in free(rest):
                return {v: scale(rest, -1 / c)}
    return None


def ratio(a, b):
    """the constant a/b, when there is one"""
    if a.k != 'poly' or b.k != 'poly' or len(a.a) != len(b.a) or not a.a:
        return None
    if a.s != b.s:
        a, b = toreal(a), toreal(b)
    q = None
    for (m, c), (n, d) in zip(a.a, b.a):
        if m != n or (q is not None and c != q * d):
            return None
        q = c / d
    return q


def assume(t, lit):
    """t simplified under the literal"""
    env = {}
    if lit.k == 'eq0':
        p = lit.a[0]
        vs = [m for m, c in p.a if m != ()]
        if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1 and vs[0][0][0].k == 'var':
            c0 = dict(p.a).get((), 0)
            c1 = dict(p.a)[vs[0]]
            q = -c0 / c1
            if q.denominator == 1 or p.s == 'R':
                env[vs[0][0][0]] = num(q, p.s)
    neg_ = bnot(lit)
    pos = lit if lit.k != 'not' else None
    fp = None
    if lit.k == 'le0':
        fp = (lit.a[0], -1)
    elif lit.k == 'not' and lit.a[0].k == 'le0':
        fp = (lit.a[0].a[0], 1)

    def hook(u, f):
        if u is lit:
            return TRUE
        if u is neg_:
            return FALSE
        if u.k == 'not' and u.a[0] is lit:
            return FALSE
        if fp is not None and u.k == 'app' and u.a[0] == 'fabs':
            q = ratio(u.a[1], fp[0])
            if q is not None:
                return scale(f(u.a[1]), fp[1] if q > 0 else -fp[1])
        return None
    return subst(t, env, None, hook)


def hasnonlin(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.k == 'poly':
            for m, c in t.a:
                if len(m) > 1 or (len(m) == 1 and m[0][1] > 1):
                    if t.s == 'I':
                        return True
        if t.k == 'idiv' and not is_const(t.a[1]):
            return True
        st.extend(children(t))
    return False


class Result:
    def __init__(self, name, ok, detail='', loc=''):
        self.name, self.ok, self.detail, self.loc = name, ok, detail, loc


class Alt:
    """a contract loop that corresponds to one code loop where cond holds and to another elsewhere"""

    def __init__(self, cond, pos, then, other):
        self.cond, self.pos, self.then, self.other = cond, pos, then, other


def settle(prover, hyps, t, rounds=12):
    """t where hyps hold: choices whose condition is decided there are made"""
    known, tried = {}, set()

    def hook(u, f):
        if u.k in ('ite', 'aite', 'pite', 'bite'):
            d = known.get(u.a[0])
            if d is not None:
                r = f(u.a[1] if d else u.a[2])
                return toreal(r) if u.s == 'R' and r.s == 'I' else r
        return None
    for _ in range(rounds):
        new, seen, todo = [], set(), [t]
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.k in ('ite', 'aite', 'pite', 'bite') and u.a[0] not in tried and not any(isinstance(v.a[0], str) and v.a[0].startswith('K!') for v in free(u.a[0])):
                tried.add(u.a[0])
                new.append(u.a[0])
            todo.extend(children(u))
        if not new:
            return t
        known.clear()
        for c in new:
            if prover.decides(hyps, c):
                known[c] = True
            elif prover.decides(hyps, bnot(c)):
                known[c] = False
        if known:
            t = subst(t, {}, {}, hook)
    return t


class Coupling:
    """Relational proof  code == spec  by coupling their loops."""

    def __init__(self, exc, exs, prover, facts=(), need=None):
        self.need = need    # {spec loop id: set of state indices (1-based)} or None
        self.c, self.s, self.p = exc, exs, prover
        self.facts = list(facts)
        self.map = {}       # spec loop id -> (Lc, idxmap, parammap)
        self.res = []
        self.used = set()

    def hyps(self, pc):
        return self.facts + [pc] + self.c.facts

    # ---- rewriting of spec terms
    def rw(self, t, env=None):
        env = env or {}

        def hook(u, f):
            if u.k == 'fin' and u.a[0] in self.map:
                return image(self.map[u.a[0]], u.a[1], u, [f(x) for x in u.a[2:]])
            return None

        def image(m, i, u, args):
            if isinstance(m, Alt):
                a, b = image(m.then, i, u, args), image(m.other, i, u, args)
                if a is None or b is None or i not in m.pos:
                    return None
                return ite(subst(m.cond, {x: args[q] for x, q in m.pos[i].items()}), a, b)
            Lc, idx, pm = m
            if i not in idx:
                return None
            return sym.fin(Lc.id, idx[i], u.s, [args[q] for q in pm[i]])
        return subst(t, env, None, hook)

    def children(self, ex, L):
        return [R for R in ex.loops if R.parent is L]

    def unify_children(self, Pc, Ps, env, path):
        cs, ss = self.children(self.c, Pc), self.children(self.s, Ps)
        ok = True
        used = {}
        for j, Ls in enumerate(ss):
            if self.need is not None and Ls.id not in self.need:
                continue
            best = None
            for Lc in [L for L in cs if L.id not in used] + [L for L in cs if L.id in used]:
                if Lc.id in used and not all(self.exclusive(self.rw(Ls.pc_in, env), self.rw(L2.pc_in, env), Ps, Pc, env) for L2, _ in used[Lc.id]):
                    continue
                good, diag = self.unify(Lc, Ls, env, path + [str(j)])
                if good:
                    used.setdefault(Lc.id, []).append((Ls, j))
                    best = None
                    break
                if best is None or diag[0] > best[0]:
                    best = diag
            else:
                if best is None:
                    best = (0, 'no corresponding loop in the code')
                lname = 'loop ' + '.'.join(path + [str(j)])
                self.res.append(Result('%s: %s' % (lname, best[1]), False, best[2] if len(best) > 2 else ''))
                ok = False
        if ok:
            byid = {L.id: L for L in cs}
            for Lc in cs:
                if Lc.id in used:
                    continue
                for cid in list(used):
                    if not self.exclusive(Lc.pc_in, byid[cid].pc_in, Ps, Pc, env):
                        continue
                    for Ls, j in used[cid]:
                        self.alternative(Lc, Ls, Pc, Ps, env, path + [str(j)])
        return ok

    def exclusive(self, a, b, Ps, Pc, env):
        return bool(self.p.valid(self.facts + [a, b], FALSE, 1000))

    def below(self, ex, L):
        out = [L]
        for R in self.children(ex, L):
            out += self.below(ex, R)
        return out

    def alternative(self, Lc, Ls, Pc, Ps, env, path):
        """another code loop, executed under a condition of its own, that also implements Ls"""
        cond = sym.relcond(Lc.pc_in, Pc.pc_start) if Pc is not None else Lc.pc_in
        fam = [L for L in self.below(self.s, Ls)]
        ids = {L.id for L in fam}
        saved, nres = dict(self.map), len(self.res)
        self.map = {k: v for k, v in self.map.items() if k not in ids}
        good, _ = self.unify(Lc, Ls, env, path)
        new = self.map
        self.map = saved
        if not good:
            del self.res[nres:]
            return
        fv = [x for x in free(cond) if sym.isbound(x)]
        back = {}
        for q, img in env.items():
            t = single_atom(img) if img.k == 'poly' else img
            back.setdefault(t, []).append(q)
        for L in fam:
            if L.id not in new or L.id not in saved:
                continue
            pos = {}
            for i, ps in enumerate(L.pst):
                d = {}
                for x in fv:
                    at = [k for k, q in enumerate(ps) if q in back.get(x, ())]
                    if not at:
                        break
                    d[x] = at[0]
                else:
                    pos[i] = d
            self.map[L.id] = Alt(cond, pos, new[L.id], saved[L.id])

    def unify(self, Lc, Ls, env, path):
        """-> (ok, (score, what, detail))"""
        nm = 'loop ' + '.'.join(path)
        want = [j for j in range(len(Ls.states)) if self.need is None or j + 1 in self.need[Ls.id]]
        sts = [Ls.states[j] for j in want]
        ins = [self.rw(iv, env) for _, _, iv, _ in sts]
        H0 = self.hyps(Lc.pc_in) + [self.rw(Ls.pc_in, env)]
        cand = []
        for j, (key, sv, iv, tv) in enumerate(sts):
            cs = []
            un = uninit(ins[j], self.s)
            for k, (ck, csv, civ, ctv) in enumerate(Lc.states):
                if csv.s != sv.s:
                    continue
                same = (ck == key)
                if key[0] == 'mem' and key[1] in [x[0][1] for x in Lc.states if x[0][0] == 'mem'] and not same:
                    continue
                if key[0] == 'mem' and ck[0] != 'mem' and sv.s.startswith('A'):
                    continue
                if un is not None and uninit(civ, self.c) is not None:
                    cs.append((2, k))
                    continue
                if self.p.eqv(H0, civ, ins[j], 4000):
                    cs.append((0 if same else 1, k))
            if not cs:
                return False, (1, 'initial value of loop variable %s' % keyd(key), 'spec init %s' % T.show(ins[j], 6))
            cs.sort()
            cand.append([k for _, k in cs])
        best = None
        n = 0
        for pi in itertools.product(*cand):
            n += 1
            if n > 48:
                break
            r = self.try_map(Lc, Ls, sts, want, ins, env, pi, path, nm)
            if r[0]:
                return True, None
            if best is None or r[1][0] > best[0]:
                best = r[1]
        return False, best

    def try_map(self, Lc, Ls, sts, want, ins, env, pi, path, nm):
        env2 = dict(env)
        env2[single_atom(Ls.nsym)] = Lc.nsym
        for j, (key, sv, iv, tv) in enumerate(sts):
            un = uninit(ins[j], self.s)
            if un is not None:
                env2[un] = Lc.states[pi[j]][2]
            csv = Lc.states[pi[j]][1]
            env2[sv] = atom(csv) if csv.s in 'IR' else csv
        nres = len(self.res)
        saved = dict(self.map)
        kids = self.unify_children(Lc, Ls, env2, path)
        kidres = self.res[nres:]
        H = self.hyps(Lc.pc_start) + [self.rw(Ls.pc_start, env2)]
        sstay = self.rw(Ls.stay, env2)
        ok = self.p.prove(H, eq(Lc.stay, sstay))
        if not ok:
            self.map = saved
            del self.res[nres:]
            d = (2, 'loop guard', 'code continues iff %s ; contract continues iff %s' % (T.show(Lc.stay, 6), T.show(sstay, 6)))
            if kidres:
                d = (3, kidres[0].name, kidres[0].detail)
            return False, d
        H2 = H + [Lc.stay]
        for j, (key, sv, iv, tv) in enumerate(sts):
            st = self.rw(tv, env2)
            ct = Lc.states[pi[j]][3]
            if not self.p.eqv(H2, ct, st):
                self.map = saved
                del self.res[nres:]
                d = (4 + j, 'step of %s' % keyd(key), 'code: %s ; contract: %s' % (T.show(ct, 7), T.show(st, 7)))
                bad = [x for x in kidres if not x.ok]
                if bad:
                    d = (3 + j, bad[0].name, bad[0].detail)
                return False, d
        # parameter correspondence
        pm = {}
        for i, ci in [(0, 0)] + [(want[j] + 1, pi[j] + 1) for j in range(len(pi))]:
            pos = []
            for p in Lc.pst[ci]:
                for q_i, q in enumerate(Ls.pst[i]):
                    img = env2.get(q)
                    if img is not None and (single_atom(img) if img.k == 'poly' else img) is p:
                        pos.append(q_i)
                        break
                else:
                    self.map = saved
                    del self.res[nres:]
                    return False, (3, 'loop depends on uncoupled variable %s' % p, '')
            pm[i] = pos
        self.map[Ls.id] = (Lc, dict([(0, 0)] + [(want[j] + 1, pi[j] + 1) for j in range(len(pi))]), pm)
        for j, (key, sv, iv, tv) in enumerate(sts):
            self.res.append(Result('%s: initial value of %s' % (nm, keyd(key)), True))
            self.res.append(Result('%s: step of %s' % (nm, keyd(key)), True))
        self.res.append(Result('%s: guard' % nm, True))
        return True, None


def uninit(t, ex):
    """The variable standing for never-initialised memory, if t is just that."""
    u = single_atom(t) if t.k == 'poly' else t
    if u is None or u.k != 'var' or not isinstance(u.a[0], str) or '@' not in u.a[0]:
        return None
    o = ex.objs.get(u.a[0].rsplit('@', 1)[0])
    if o is not None and o.kind in ('heap', 'local') and not o.zero:
        return u
    return None


def need_of(ex, terms):
    """Loops and loop variables of ex that the terms depend on (transitively)."""
    loops = {L.id: L for L in ex.loops}
    symof = {}
    for L in ex.loops:
        for i, (k, sv, iv, tv) in enumerate(L.states):
            symof[sv] = (L.id, i + 1)
        symof[single_atom(L.nsym)] = (L.id, 0)
    need = {}
    seen = set()
    todo = list(terms)

    def want(lid, i):
        L = loops.get(lid)
        if L is None:
            return
        if lid not in need:
            need[lid] = set()
            todo.append(L.stay)
        if i > 0 and i not in need[lid]:
            need[lid].add(i)
            k, sv, iv, tv = L.states[i - 1]
            todo.append(iv)
            todo.append(tv)
    while todo:
        t = todo.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.k == 'fin':
            want(t.a[0], t.a[1])
        elif t.k == 'var' and t in symof:
            want(*symof[t])
        todo.extend(children(t))
    # an enclosing loop of a needed loop is needed for the correspondence
    for lid in list(need):
        L = loops[lid]
        while L.parent is not None:
            L = L.parent
            if L.id in loops and L.id not in need:
                want(L.id, 0)
                while todo:
                    t = todo.pop()
                    if t is None or t in seen:
                        continue
                    seen.add(t)
                    if t.k == 'fin':
                        want(t.a[0], t.a[1])
                    elif t.k == 'var' and t in symof:
                        want(*symof[t])
                    todo.extend(children(t))
    return need


def keyd(key):
    if key[0] == 'mem':
        n = str(key[1][0])
        return 'memory ' + n.split('#')[0]
    return 'local'

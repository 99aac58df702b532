"""Symbolic execution of LLVM IR to canonical terms, loops cut at headers.

Every loop becomes a LoopRec (bound counter n, state symbols, init/step terms,
stay condition); after the loop the state is expressed with 'fin' atoms."""
import sys
from fractions import Fraction
import math
from term import *
import term as T
import ir

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Obj:
    def __init__(self, name, stride=None, length=None, kind='param', writable=True, label=None):
        self.name, self.stride, self.length, self.kind = name, stride, length, kind
        self.writable = writable
        self.label = label or name
        self.live = True
        self.zero = False
        self.esort = {}
        self.owner = None


class EnvAt:
    def __init__(self, env):
        self.env = env


class State:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def copy(self):
        return State(self.pc, dict(self.mem))


class LoopRec:
    def __init__(self, lid):
        self.id = lid
        self.states = []      # (key, symTerm(var), init, step)
        self.children = []


class Obl:
    def __init__(self, kind, name, pc, cond, loc, nfacts):
        self.kind, self.name, self.pc, self.cond, self.loc, self.nfacts = kind, name, pc, cond, loc, nfacts


_lid = [0]


def divite(m, c, S):
    """c * ite(p, x, y) divided by S, when both alternatives are divisible"""
    f = next((f for f in m if f[1] == 1 and f[0].k == 'ite'), None)
    if f is None:
        return None
    t = f[0]
    rest = T._mkpoly({tuple(g for g in m if g is not f): Fraction(1)}, 'I')
    q = []
    for x in t.a[1:]:
        r = num(0)
        for m2, c2 in x.a:
            c2 = c2*c
            if c2.denominator == 1 and int(c2) % S == 0:
                r = add(r, T._mkpoly({m2: c2 / S}, 'I'))
            else:
                y = divite(m2, c2, S)
                if y is None:
                    return None
                r = add(r, y)
        q.append(r)
    return mul(rest, ite(t.a[0], q[0], q[1]))


def conj(b):
    return set(b.a) if b.k == 'and' else ({b} if b is not TRUE else set())


def chosen(v, known):
    """v without the alternatives that the known conjuncts exclude"""
    while True:
        t = single_atom(v) if v.s in 'IR' and v.k == 'poly' else v
        if t is None or t.k not in ('ite', 'aite', 'pite'):
            return v
        c = t.a[0]
        n = bnot(c)
        if c in known or all(x in known for x in conj(c)):
            v = t.a[1]
        elif n in known or all(x in known for x in conj(n)):
            v = t.a[2]
        else:
            return v
        if v.s == 'I' and t.s == 'R':
            v = toreal(v)


def elementary(c):
    """an integer comparison (or a combination of such)"""
    if c.k in ('and', 'or', 'not'):
        return all(elementary(x) for x in c.a)
    return c.k in ('eq0', 'le0') and c.a[0].s == 'I'


def snorm(A, v):
    """A conditionally stored to at one index, as one store"""
    if v.k == 'store' and v.a[0].k == 'aite':
        b = snorm(A, v.a[0])
        return v if b is v.a[0] else store(b, v.a[1], v.a[2])
    if v.k != 'aite':
        return v
    x, y = snorm(A, v.a[1]), snorm(A, v.a[2])
    i = None
    for q in (x, y):
        if q is A:
            continue
        if q.k != 'store' or q.a[0] is not A or (i is not None and i is not q.a[1]):
            return v
        i = q.a[1]
    if i is None:
        return v
    g = lambda q: sel(A, i) if q is A else q.a[2]
    return store(A, i, ite(v.a[0], g(x), g(y)))


def tsort(ty):
    k = ty[0]
    if k == 'i':
        return 'B' if ty[1] == 1 else 'I'
    if k in ('double', 'float', 'x86_fp80', 'half'):
        return 'R'
    if k == 'ptr':
        return 'P'
    return 'T'


class Exec:
    def __init__(self, module, handlers=None, tag='c', effectless=None):
        self.m = module
        self.tag = tag
        self.handlers = handlers or {}
        self.effectless = effectless or []
        self.objs = {}
        self.facts = []
        self.obls = []
        self.events = []
        self.loops = []        # LoopRecs (all live ones)
        self.loopstack = []    # active LoopRecs
        self.cnt = 0
        self.depth = 0
        self.ptrcfg = {}       # 'obj@lane' -> dict(stride=,length=,nullable=)
        self.assumptions = set()
        self.called = set()
        self.inlined = set()
        self._prover = None
        self.check_bounds = True
        self.drop_infeasible = False
        self.given = []        # preconditions
        self.callstack = []
        self.steps = 0

    # ------------------------------------------------------------ helpers
    def fresh(self, base, s):
        self.cnt += 1
        return var('%s#%s%d' % (base, self.tag, self.cnt), s)

    def newobj(self, name, stride=None, length=None, kind='heap', writable=True, label=None):
        self.cnt += 1
        nm = '%s#%s%d' % (name, self.tag, self.cnt) if kind != 'param' else name
        o = Obj(nm, stride, length, kind, writable, label or name)
        self.objs[nm] = o
        return o

    def param_obj(self, name, stride=None, length=None, writable=True):
        o = Obj(name, stride, length, 'param', writable, name)
        self.objs[name] = o
        return ptr(name, num(0))

    def obl(self, kind, name, pc, cond, loc):
        if cond is TRUE or pc is FALSE:
            self.obls.append(Obl(kind, name, pc, TRUE, loc, len(self.facts)))
            return
        self.obls.append(Obl(kind, name, pc, cond, loc, len(self.facts)))

    # ------------------------------------------------------------ memory
    def lane_init(self, o, lane, s):
        nm = '%s@%d' % (o.name, lane)
        if o.zero and s in 'IR':
            z = num(0, s)
            return mk('aconst', (z,), 'A' + s) if o.stride else z
        if o.stride:
            return avar(nm, s)
        if s == 'P' and o.zero and (not getattr(o, 'zeror', None) or any(x <= lane < y for x, y in o.zeror)):
            return NULL
        if s == 'P':
            return mk('undefp', (), 'P') if o.kind == 'local' else self.named_ptr(nm)
        return var(nm, s)

    def named_ptr(self, nm):
        cfg = self.ptrcfg.get(nm)
        if cfg is None and '*' in self.ptrcfg:
            cfg = self.ptrcfg['*']
        if cfg is None:
            cfg = {}
        if cfg.get('fptr'):
            return fptr(cfg['fptr'])
        onm = cfg.get('name', nm + '*')
        if onm not in self.objs:
            self.objs[onm] = Obj(onm, cfg.get('stride'), cfg.get('length'), 'param', cfg.get('writable', True), onm)
            if cfg.get('nullable'):
                T.NULLABLE[onm] = var('isnull:' + onm, 'B')
        return ptr(onm, num(0))

    def cell(self, o, off, size):
        """-> (lane, idx or None)"""
        if o.stride is None:
            if is_const(off):
                return int(cval(off)), None
            if any(k[0] == o.name for k in self._memkeys):
                # already used as a struct: convert impossible
                raise Unsupported('symbolic offset into scalar object %s: %s' % (o.name, off))
            o.stride = size
        S = o.stride
        if S != size and o.kind == 'heap' and S % size == 0 and getattr(o, 'bytes', None) is not None and not is_const(o.bytes) \
                and any(m != () and c.denominator == 1 and int(c) % S for m, c in off.a) \
                and all(c.denominator == 1 and int(c) % size == 0 for m, c in off.a) \
                and not any(k[0] == o.name for k in self._memkeys):
            # element size was guessed from the allocation size; the first access tells
            o.length = idiv(o.bytes, num(size))
            S = o.stride = size
        c0 = 0
        rest = {}
        more = num(0)
        for m, c in off.a:
            if m == ():
                c0 = int(c)
            else:
                if c.denominator != 1 or int(c) % S:
                    q = divite(m, c, S)
                    if q is not None:
                        more = add(more, q)
                        continue
                    raise Unsupported('offset %s not a multiple of stride %d of %s' % (off, S, o.name))
                rest[m] = c / S
        lane = c0 % S
        idx = add(T._mkpoly({**rest, (): Fraction((c0 - lane) // S)}, 'I'), more)
        return lane, idx

    def load(self, st, p, ty, loc):
        s = tsort(ty)
        p = self.prune(self.resolve(p), st.pc)
        if p.k == 'pite':
            a = self.load_g(st, p.a[0], p.a[1], ty, loc)
            b = self.load_g(st, bnot(p.a[0]), p.a[2], ty, loc)
            return ite(p.a[0], a, b)
        if p.k != 'ptr':
            self.obl('valid-pointer', 'load through %s' % p.k, st.pc, FALSE, loc)
            return self.undef(s, ty)
        if s == 'T':
            rt = self.m.res(ty)
            if rt[0] == 'struct':
                out = []
                for i in range(len(rt[1])):
                    o2, ft = self.m.field_off(rt, i)
                    out.append(self.load(st, padd(p, num(o2)), ft, loc))
                return tup(*out)
            if rt[0] in ('arr', 'vec'):
                es = self.m.size(rt[2])
                return tup(*[self.load(st, padd(p, num(i * es)), rt[2], loc) for i in range(rt[1])])
            raise Unsupported('load of %r' % (ty,))
        o = self.objs[p.a[0]]
        z = T.NULLABLE.get(o.name)
        if z is not None and self.check_bounds:
            self.obl('valid-pointer', 'load through possibly null %s' % o.label, st.pc, bnot(z), loc)
        self._memkeys = st.mem
        lane, idx = self.cell(o, p.a[1], self.m.size(ty))
        self.bounds(o, idx, st, loc, 'load', p.a[1], self.m.size(ty))
        key = (o.name, lane)
        v = st.mem.get(key)
        if v is None:
            gi = self.global_init(o, lane, ty)
            if gi is not None:
                return gi
            v = self.lane_init(o, lane, s)
            st.mem[key] = v
        if idx is None:
            return self.coerce(v, s)
        es = v.s[1:]
        if es == 'P' and v.k == 'var':
            return self.prune(ptr_from_array(self, o, lane, idx), st.pc)
        r = self.narrowed(sel(v, idx), st.pc, 2)
        return self.coerce(r, s)

    def narrowed(self, r, pc, depth):
        """a value read from an array, without the alternatives that cannot be"""
        for _ in range(40):
            t = single_atom(r) if r.k == 'poly' else r
            if t is None or t.k not in ('ite', 'bite', 'pite'):
                break
            if t.s == 'P':
                return self.prune(t, pc)
            if not elementary(t.a[0]):
                break
            if self.implied(pc, t.a[0]):
                r = t.a[1]
            elif self.implied(pc, bnot(t.a[0])):
                r = t.a[2]
            elif depth:
                x, y = self.narrowed(t.a[1], band(pc, t.a[0]), depth - 1), self.narrowed(t.a[2], band(pc, bnot(t.a[0])), depth - 1)
                return r if x is t.a[1] and y is t.a[2] else ite(t.a[0], x, y)
            else:
                break
        return r

    def load_g(self, st, c, p, ty, loc):
        s2 = State(band(st.pc, c), st.mem)
        if s2.pc is FALSE:
            return self.undef(tsort(ty), ty)
        return self.load(s2, p, ty, loc)

    def coerce(self, v, s):
        if v.s == s:
            return v
        if v.s == 'I' and s == 'R':
            return app('bits2r', (v,), 'R')
        if v.s == 'R' and s == 'I':
            return app('bits2i', (v,), 'I')
        if v.s == 'I' and s == 'B':
            return bnot(eq(v, num(0)))
        if v.s == 'B' and s == 'I':
            return ite(v, num(1), num(0))
        if v.s == 'I' and s == 'P':
            if is_const(v) and cval(v) == 0:
                return NULL
            return mk('i2p', (v,), 'P')
        if v.s == 'P' and s == 'I':
            return app('p2i', (v,), 'I')
        raise Unsupported('coerce %s to %s' % (v.s, s))

    def undef(self, s, ty=None):
        if s == 'T':
            rt = self.m.res(ty)
            if rt[0] == 'struct':
                return tup(*[self.undef(tsort(f), f) for f in rt[1]])
            if rt[0] in ('arr', 'vec'):
                return tup(*[self.undef(tsort(rt[2]), rt[2]) for i in range(rt[1])])
        if s == 'P':
            return mk('undefp', (), 'P')
        return var('undef:' + s, s)

    def global_init(self, o, lane, ty):
        """value of a constant global at byte offset lane"""
        if o.kind != 'global' or o.stride:
            return None
        g = self.m.globals.get('@' + o.label) or self.m.globals.get('@"%s"' % o.label)
        if not g or g[0] != 'var' or g[2] is None or not g[3]:
            return None
        return self.const_at(g[1], g[2], lane, ty)

    def const_at(self, t, init, off, ty):
        t = self.m.res(t)
        if init == ('zero',):
            s = tsort(ty)
            return NULL if s == 'P' else num(0, s)
        if t[0] in ('i', 'double', 'float', 'ptr'):
            return self.const(t, init) if off == 0 else None
        if t[0] == 'arr' and init[0] == 'agg':
            es = self.m.size(t[2])
            i = off // es
            if i >= len(init[1]):
                return None
            return self.const_at(t[2], init[1][i][1], off % es, ty)
        if t[0] == 'arr' and init[0] == 'str':
            return None
        if t[0] == 'struct' and init[0] == 'agg':
            for i in range(len(t[1]) - 1, -1, -1):
                o2, ft = self.m.field_off(t, i)
                if o2 <= off:
                    return self.const_at(ft, init[1][i][1], off - o2, ty)
        return None

    def bounds(self, o, idx, st, loc, what, off, size):
        if not self.check_bounds:
            return
        self.live(o, st, loc, what)
        if getattr(o, 'row', None):
            r, k = split_row(o, idx)
            self.obl('bounds', '%s %s' % (what, o.label), st.pc,
                     band(le(num(0), r), lt(r, o.row[1]), le(num(0), k), lt(k, o.row[2])), loc)
            return
        if o.kind == 'global' or o.length is None:
            return
        if idx is None:
            if is_const(o.length) and is_const(off):
                ok = 0 <= cval(off) and cval(off) + size <= cval(o.length)
                self.obl('bounds', '%s %s' % (what, o.label), st.pc, TRUE if ok else FALSE, loc)
            return
        # length in elements for arrays
        self.obl('bounds', '%s %s[%s]' % (what, o.label, T.show(idx, 4)), st.pc,
                 band(le(num(0), idx), lt(idx, o.length)), loc)

    def live(self, o, st, loc, what):
        """ghost state: a heap object that was freed is not used again"""
        if o.kind == 'heap' and self.check_bounds:
            f = st.mem.get(('free:' + o.name, 0))
            if f is not None and not (is_const(f) and cval(f) == 0):
                self.obl('valid-pointer', '%s %s after it was freed' % (what, o.label), st.pc, eq(f, num(0)), loc)

    def release(self, st, pc, p, loc):
        p = self.prune(self.resolve(p), pc)
        if p.k == 'null' or p is NULL:
            return
        if p.k == 'pite':
            self.release(st, band(pc, p.a[0]), p.a[1], loc)
            self.release(st, band(pc, bnot(p.a[0])), p.a[2], loc)
            return
        if pc is FALSE:
            return
        if p.k != 'ptr':
            self.obl('valid-pointer', 'free of %s' % p.k, pc, FALSE, loc)
            return
        o = self.objs[p.a[0]]
        self.obl('valid-pointer', 'free of %s (a block that was allocated)' % o.label, pc, band(TRUE if o.kind == 'heap' else FALSE, eq(p.a[1], num(0))), loc)
        if o.kind != 'heap':
            return
        nm = 'free:' + o.name
        if nm not in self.objs:
            g = Obj(nm, None, None, 'ghost')
            g.zero = True
            g.owner = getattr(o, 'owner', None)
            self.objs[nm] = g
        f = st.mem.get((nm, 0), num(0))
        self.obl('valid-pointer', 'free of %s (not freed before)' % o.label, pc, eq(f, num(0)), loc)
        st.mem[(nm, 0)] = ite(pc, num(1), f) if pc is not st.pc else num(1)

    def store(self, st, p, v, ty, loc):
        p = self.resolve(p)
        if p.k == 'pite':
            for c, q in ((p.a[0], p.a[1]), (bnot(p.a[0]), p.a[2])):
                s2 = State(band(st.pc, c), dict(st.mem))
                if s2.pc is FALSE:
                    continue
                self.store(s2, q, v, ty, loc)
                for k, nv in s2.mem.items():
                    ov = st.mem.get(k)
                    if ov is None:
                        ov = self.lane_init(self.objs[k[0]], k[1], nv.s[1:] if nv.s.startswith('A') else nv.s)
                    st.mem[k] = ite(c, nv, ov) if nv is not ov else ov
            return
        if p.k != 'ptr':
            self.obl('valid-pointer', 'store through %s' % p.k, st.pc, FALSE, loc)
            return
        s = tsort(ty)
        if s == 'T':
            rt = self.m.res(ty)
            for i in range(len(v.a)):
                if rt[0] == 'struct':
                    o2, ft = self.m.field_off(rt, i)
                else:
                    o2, ft = i * self.m.size(rt[2]), rt[2]
                self.store(st, padd(p, num(o2)), v.a[i], ft, loc)
            return
        o = self.objs[p.a[0]]
        z = T.NULLABLE.get(o.name)
        if z is not None and self.check_bounds:
            self.obl('valid-pointer', 'store through possibly null %s' % o.label, st.pc, bnot(z), loc)
        if v.s == 'B':
            v = ite(v, num(1), num(0))
            s = 'I'
        self._memkeys = st.mem
        lane, idx = self.cell(o, p.a[1], self.m.size(ty))
        self.bounds(o, idx, st, loc, 'store', p.a[1], self.m.size(ty))
        if not o.writable and self.check_bounds:
            self.obl('frame', 'store to %s (not in assigns)' % o.label, st.pc, FALSE, loc)
        key = (o.name, lane)
        if idx is None:
            st.mem[key] = v
            return
        a = st.mem.get(key)
        if a is None:
            a = self.lane_init(o, lane, v.s)
        if a.s[1:] != v.s:
            if a.k == 'var' or (a.k == 'aconst'):
                a = mk('aconst', (num(0, v.s),), 'A' + v.s) if a.k == 'aconst' and v.s in 'IR' else avar('%s@%d:%s' % (o.name, lane, v.s), v.s)
            else:
                v = self.coerce(v, a.s[1:])
        st.mem[key] = store(a, idx, v)

    def prune(self, p, pc):
        """pointer p where the path condition holds"""
        while p.k == 'pite':
            if band(pc, p.a[0]) is FALSE or self.implied(pc, bnot(p.a[0])):
                p = p.a[2]
            elif band(pc, bnot(p.a[0])) is FALSE or self.implied(pc, p.a[0]):
                p = p.a[1]
            else:
                break
        return p

    def implied(self, pc, c):
        if self._prover is None:
            import vc
            self._prover = vc.Prover(2000)
        return bool(self._prover.decides([pc] + self.given + self.facts, c))

    def settled(self, p, pc):
        """pointer p without the alternatives left open by a finished loop, where one of them is certain"""
        out = num(0)
        for mo, co in p.a[1].a:
            q = [x for x, e in mo if e == 1 and x.k == 'ite' and hasfin(x.a[0])]
            t = T._mkpoly({mo: co}, 'I')
            for x in q:
                k = 1 if self.implied(pc, x.a[0]) else 2 if self.implied(pc, bnot(x.a[0])) else 0
                if k:
                    t = mul(T._mkpoly({tuple(g for g in mo if g[0] is not x): co}, 'I'), x.a[k])
                    break
            out = add(out, t)
        return ptr(p.a[0], out)

    def resolve(self, p):
        if p.k == 'padd':
            return padd(self.resolve(p.a[0]), p.a[1])
        if p.k == 'sel' or p.k == 'fin' or p.k == 'var':
            return p
        return p

    # ------------------------------------------------------------ operands
    def const(self, ty, op):
        k = op[0]
        s = tsort(ty)
        if k == 'int':
            if s == 'B':
                return TRUE if op[1] else FALSE
            return num(op[1])
        if k == 'fp':
            f = op[1]
            if math.isnan(f) or math.isinf(f):
                return var('const:%r' % f, 'R')
            if ty[0] == 'float':
                return num(Fraction('%.7g' % f), 'R') if float('%.7g' % f) != f else lit(f)
            return lit(f)
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(s, ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tup(*[self.const(t, o) for t, o in op[1]])
        if k == 'glob':
            return self.globptr(op[1])
        if k == 'cgep':
            base = self.const(('ptr',), op[2][0][1])
            return self.gep(base, op[1], [(t, self.const(t, o)) for t, o in op[2][1:]])
        if k == 'ccast':
            v = self.const(op[2], op[3])
            if op[1] == 'ptrtoint':
                return app('p2i', (v,), 'I')
            if op[1] == 'inttoptr':
                return self.coerce(v, 'P')
            return v
        if k == 'cbin':
            a, b = self.const(ty, op[2]), self.const(ty, op[3])
            return {'add': add, 'sub': sub, 'mul': mul}[op[1]](a, b)
        raise Unsupported('const %r' % (op,))

    def zero(self, ty):
        s = tsort(ty)
        if s == 'B':
            return FALSE
        if s == 'P':
            return NULL
        if s in 'IR':
            return num(0, s)
        rt = self.m.res(ty)
        if rt[0] == 'struct':
            return tup(*[self.zero(f) for f in rt[1]])
        return tup(*[self.zero(rt[2]) for i in range(rt[1])])

    def globptr(self, name):
        nm = name[1:].strip('"')
        g = self.m.globals.get(name)
        if g is not None and g[0] == 'alias':
            return self.globptr(g[1])
        if g is None and (nm in self.m.pend or nm in self.m.decls):
            return fptr(nm)
        on = '@' + nm
        if g is not None and g[0] == 'var' and g[3] and g[2] is not None and g[2][0] == 'str':
            on = '@str:%s' % (g[2][1],)      # equal string constants are one object
        if on not in self.objs:
            o = Obj(on, None, None, 'global', True, nm)
            if g is not None and g[0] == 'var':
                rt = self.m.res(g[1])
                if rt[0] == 'arr':
                    o.stride = self.m.size(rt[2])
                    # constant tables keep offset addressing
            self.objs[on] = o
        return ptr(on, num(0))

    def op(self, act, ty, op):
        if op[0] == 'loc':
            v = act.env.get(op[1])
            if v is None:
                raise Unsupported('undefined value %s in %s' % (op[1], act.fn.name))
            return v
        return self.const(ty, op)

    def gep(self, base, ty, idx):
        off = num(0)
        t = ty
        first = True
        for it, iv in idx:
            if first:
                off = add(off, scale(iv, self.m.size(t)))
                first = False
                continue
            rt = self.m.res(t)
            if rt[0] == 'struct':
                o2, t = self.m.field_off(rt, int(cval(iv)))
                off = add(off, num(o2))
            else:
                t = rt[2]
                off = add(off, scale(iv, self.m.size(t)))
        return padd(base, off)

    # ------------------------------------------------------------ regions
    def merge(self, sts):
        sts = [s for s in sts if s.pc is not FALSE]
        if not sts:
            return None, None
        if len(sts) == 1:
            return State(sts[0].pc, dict(sts[0].mem)), [TRUE]
        pcs = [s.pc for s in sts]
        cs = [conj(p) for p in pcs]
        common = set.intersection(*cs)
        conds = [band(*[x for x in c if x not in common]) for c in cs]
        pc = band(*(list(common) + [bor(*conds)]))
        conds[-1] = TRUE
        mem = {}
        keys = set()
        for s in sts:
            keys |= set(s.mem)
        for k in keys:
            vals = []
            ref = next(s.mem[k] for s in sts if k in s.mem)
            srt = ref.s[1:] if ref.s.startswith('A') else ref.s
            for s in sts:
                v = s.mem.get(k)
                if v is None:
                    v = self.lane_init(self.objs[k[0]], k[1], srt)
                vals.append(v)
            mem[k] = self.mergevals(conds, vals)
        return State(pc, mem), conds

    def mergevals(self, conds, vals):
        r = vals[-1]
        for c, v in zip(conds[-2::-1], vals[-2::-1]):
            if v is r:
                continue
            if isund(v):
                continue
            if isund(r):
                r = v
                continue
            if v.s != r.s:
                if v.s in 'IR' and r.s in 'IR':
                    v, r = toreal(v), toreal(r)
                else:
                    try:
                        v = self.coerce(v, r.s)
                    except Unsupported:
                        continue
            r = ite(c, v, r)
        return r

    def run_function(self, fn, args, st):
        """-> (State or None, retval, aborts[State])"""
        f = ir.analyse(fn)
        self.called.add(fn.name)
        act = Act(f)
        for (t, nm, at), v in zip(f.params, args):
            act.env[nm] = v
        self.callstack.append(fn.name)
        if len(self.callstack) > 60:
            raise Unsupported('call depth')
        top = [L for L in f.loops.values() if L.parent is None]
        exits, back = self.region(act, set(f.rpo), f.entry, [(None, st, ())], None)
        self.callstack.pop()
        rets = [(s, v) for (frm, to, s, v) in exits if to == '!ret']
        aborts = [s for (frm, to, s, v) in exits if to == '!abort']
        rets = [(s, v) for s, v in rets if s.pc is not FALSE]
        if not rets:
            return None, None, aborts
        ms, conds = self.merge([s for s, v in rets])
        vals = [v for s, v in rets]
        rv = None
        if vals[0] is not None:
            rv = self.mergevals(conds, vals)
        return ms, rv, aborts

    def region(self, act, blocks, entry, entry_in, inloop):
        """Execute the blocks of a region.  inloop: the ir.Loop whose body this
        is.  Returns (exits, backedges): exits are (from, to, State, val/subs)."""
        f = act.fn
        inc = {b: [] for b in blocks}
        inc[entry] = list(entry_in)
        exits = []
        back = []
        done = set()
        order = [b for b in f.rpo if b in blocks]

        def out(frm, to, st, subs):
            if st.pc is FALSE:
                return
            if inloop is not None and to == inloop.header:
                back.append((frm, st, subs))
            elif to in inc:
                inc[to].append((frm, st, subs))
            else:
                exits.append((frm, to, st, subs))
        for b in order:
            if b in done:
                continue
            ins = inc[b]
            if not ins:
                continue
            L = f.loops.get(b)
            if L is not None and L is not inloop:
                done |= L.blocks
                for e in self.loop(act, L, ins):
                    frm, to, st, val = e
                    if to in ('!ret', '!abort'):
                        exits.append(e)
                    else:
                        out(frm, to, st, val)
                continue
            if b == entry and inloop is not None:
                st = ins[0][1].copy()     # header phis already set
            else:
                st = self.enter(act, b, ins)
                if st is None:
                    continue
            self.block(act, b, st, out, exits)
        return exits, back

    def enter(self, act, b, ins):
        """merge incoming edges and evaluate phis"""
        ins = [x for x in ins if x[1].pc is not FALSE]
        if not ins:
            return None
        st, conds = self.merge([x[1] for x in ins])
        newv = {}
        for i in act.fn.blocks[b]:
            if i.op != 'phi':
                break
            vals = []
            for (frm, s, subs) in ins:
                vals.append(self.phival(act, i, frm, subs))
            newv[i.dst] = self.mergevals(conds, vals)
        act.env.update(newv)
        return st

    def phival(self, act, i, frm, subs):
        for v, pb in i.x:
            if pb == frm:
                env = act.env
                for m in subs:                # leaving an unrolled loop: values of that iteration
                    if isinstance(m, EnvAt):
                        act.env = m.env
                        break
                t = self.op(act, i.ty, v)
                act.env = env
                for m in subs:
                    if not isinstance(m, EnvAt):
                        t = subst(t, m)
                return t
        raise Unsupported('phi edge')

    # ------------------------------------------------------------ loops
    def unroll(self, act, L, ins, count):
        """execute a loop with a small constant number of iterations"""
        phis = [i for i in act.fn.blocks[L.header] if i.op == 'phi']
        out = []
        for k in range(count + 1):
            st, conds = self.merge([x[1] for x in ins])
            new = {i.dst: self.mergevals(conds, [self.phival(act, i, frm, subs) for (frm, s, subs) in ins]) for i in phis}
            act.env.update(new)
            exits, back = self.region(act, L.blocks, L.header, [(None, st, ())], L)
            here = EnvAt(dict(act.env))
            for (frm, to, s, v) in exits:
                out.append((frm, to, s, v if to in ('!ret', '!abort') else tuple(v) + (here,)))
            ins = back
            if not ins:
                return out
        return None

    def loop(self, act, L, ins, whole=True):
        f = act.fn
        st0, conds = self.merge([x[1] for x in ins])
        if st0 is None:
            return []
        phis = [i for i in f.blocks[L.header] if i.op == 'phi']
        init = {}
        for i in phis:
            vals = [self.phival(act, i, frm, subs) for (frm, s, subs) in ins]
            init[('phi', i.dst)] = self.mergevals(conds, vals)
        phity = {('phi', i.dst): i.ty for i in phis}
        kinds = {}
        _lid[0] += 1
        lid = _lid[0]
        nsym = var('n!%d' % lid, 'I')
        nvar = single_atom(nsym)
        snap = (len(self.facts), len(self.obls), len(self.events), len(self.loops))
        env0 = dict(act.env)
        objs0 = None
        for rnd in range(40):
            del self.facts[snap[0]:]
            del self.obls[snap[1]:]
            del self.events[snap[2]:]
            del self.loops[snap[3]:]
            act.env = dict(env0)
            st = st0.copy()
            pc_start = band(st.pc, le(num(0), nsym))
            st.pc = pc_start
            syms = {}
            cur = {}
            memk = [k for k in kinds if k[0] == 'mem']
            for key in list(init) + memk:
                ini = init.get(key)
                if ini is None:
                    ini = self.mem_init(st0, key, kinds[key])
                kd = kinds.get(key, ('inv',))
                if kd[0] == 'inv':
                    v = ini
                elif kd[0] == 'lin':
                    v = self.lin_val(ini, kd[1], nsym)
                elif kd[0] == 'fn':
                    v = subst(kd[1], {nvar: sub(nsym, num(1))})
                elif kd[0] == 'map':
                    v = self.map_val(ini, kd, nvar, nsym)
                elif kd[0] == 'last':
                    v = self.last_val(ini, kd, nvar, nsym)
                elif kd[0] == 'sat':
                    v = ptr(kd[1], kd[2])
                else:
                    nm = 's!%d!%s' % (lid, keyname(key))
                    v = self.state_sym(nm, ini, kd)
                    syms[key] = v
                cur[key] = v
                if key[0] == 'phi':
                    act.env[key[1]] = v
                else:
                    st.mem[key[1]] = v
            rec = LoopRec(lid)
            rec.nsym = nsym
            rec.fn = f.name
            rec.header = L.header
            rec.parent = self.loopstack[-1] if self.loopstack else None
            rec.pc_start = pc_start
            rec.pc_in = st0.pc
            self.loopstack.append(rec)
            mem_start = dict(st.mem)
            exits, back = self.region(act, L.blocks, L.header, [(None, st, ())], L)
            self.loopstack.pop()
            bst = None
            if back:
                bst, bconds = self.merge([x[1] for x in back])
            if bst is None:
                # body never repeats: a straight-line region (n == 0)
                m = {nvar: num(0)}
                if kinds:
                    kinds = {}
                    # restart with everything invariant
                    continue
                out = []
                for (frm, to, s, v) in exits:
                    s = self.sub_state(s, m)
                    if to in ('!ret',):
                        v = subst(v, m) if v is not None else None
                    elif to != '!abort':
                        v = tuple(v) + (m,)
                    out.append((frm, to, s, v))
                return out
            changed = False
            nxt = {}
            for i in phis:
                key = ('phi', i.dst)
                vals = [self.phival(act, i, frm, subs) for (frm, s, subs) in back]
                nxt[key] = self.mergevals(bconds, vals)
            for k, v in bst.mem.items():
                o = self.objs.get(k[0])
                key = ('mem', k)
                sv = mem_start.get(k)
                if sv is None:
                    srt = v.s[1:] if v.s.startswith('A') else v.s
                    sv = self.lane_init(o, k[1], srt) if o else v
                if key in kinds:
                    nxt[key] = v
                elif v is not sv and chosen(v, conj(bst.pc)) is sv:
                    continue
                elif v is not sv:
                    if o is not None and o.owner == lid:
                        continue          # object born in this iteration
                    if sv.k == 'undefp':
                        continue          # pointer in a local, set anew in every iteration that uses it
                    kinds[key] = ('new', v)
                    nxt[key] = v
                    cur[key] = sv
            known = conj(bst.pc)
            for key in nxt:
                nxt[key] = chosen(nxt[key], known)
                if nxt[key].k in ('aite', 'store'):
                    nxt[key] = snorm(cur[key], nxt[key])
                elif nxt[key].k == 'ptr':
                    nxt[key] = self.settled(nxt[key], bst.pc)
            kinds0 = dict(kinds)
            bound = {nvar} | {single_atom(s) if s.k == 'poly' else s for s in syms.values() if s.k != 'ptr'}
            for key, v in nxt.items():
                kd = kinds.get(key, ('inv',))
                cv = cur[key]
                if kd[0] == 'new':
                    kd2 = self.try_lin(cv, v, bound) or self.try_map(cv, v, nvar) or self.try_fn(cv, v, nvar, bound) or self.try_last(cv, cv, v, nvar, bound)
                    kinds[key] = kd2 or ('state', v.s, self.psig(v, cv))
                    changed = True
                    continue
                if kd[0] in ('fn', 'map'):
                    want = kd[1] if kd[0] == 'fn' else self.map_val(self.cur_init(init, st0, key, kd), kd, nvar, add(nsym, num(1)))
                    if kd[0] == 'map' and not (v is want):
                        want = store(cv, kd[1], kd[2])
                    if v is not want or any(x in bound and x is not nvar for x in free(want)):
                        if kd[0] == 'map' and kd[3] < 3:
                            k2 = self.try_map(cv, v, nvar)
                            if k2 is not None:
                                kinds[key] = k2[:3] + (kd[3] + 1,)
                                changed = True
                                continue
                        if kd[0] == 'fn' and kd[2] < 3 and not any(x in bound and x is not nvar for x in free(v)):
                            g0 = subst(v, {nvar: num(-1)})
                            if g0 is self.cur_init(init, st0, key, kd):
                                kinds[key] = ('fn', v, kd[2] + 1)
                                changed = True
                                continue
                        kinds[key] = ('state', v.s, self.psig(v, cv))
                        changed = True
                    continue
                if kd[0] == 'last':
                    if self.try_last(self.cur_init(init, st0, key, kd), cv, v, nvar, bound) != kd:
                        kinds[key] = ('state', v.s, self.psig(v, cv))
                        changed = True
                    continue
                if kd[0] == 'sat':
                    if not (v.k == 'ptr' and v.a[0] == kd[1] and self.implied(bst.pc, eq(v.a[1], subst(kd[2], {nvar: add(nsym, num(1))})))):
                        kinds[key] = ('state', v.s, self.psig(v, cv))
                        changed = True
                    continue
                if v is cv:
                    if kd[0] == 'state':
                        pass
                    elif kd[0] == 'lin':
                        # step equals value: only if c == 0
                        kinds[key] = ('state', v.s, self.psig(v, cv))
                        changed = True
                    continue
                if kd[0] == 'inv':
                    kd2 = self.try_lin(cv, v, bound)
                    if isund(cv):
                        kinds[key] = ('state', v.s, self.psig(v, v))
                    else:
                        kinds[key] = kd2 or self.try_map(cv, v, nvar) or self.try_sat(cv, cv, v, nvar, bound, st0.pc) or self.try_fn(cv, v, nvar, bound) or self.try_last(cv, cv, v, nvar, bound) or ('state', v.s, self.psig(v, cv))
                    changed = True
                elif kd[0] == 'lin':
                    kd2 = self.try_lin(cv, v, bound)
                    if kd2 is None or kd2[1] is not kd[1]:
                        ini = self.cur_init(init, st0, key, kd)
                        kinds[key] = self.try_sat(ini, cv, v, nvar, bound, st0.pc) or self.try_fn(ini, v, nvar, bound) or ('state', v.s, self.psig(v, cv))
                        changed = True
                elif kd[0] == 'state':
                    if kd[2] != self.psig(v, cv):
                        raise Unsupported('pointer state changes object')
            if not changed:
                break
            # values computed from a counter look arbitrary until the counter's
            # closed form is known: decide them in the next round
            fresh_ = [k for k in kinds if kinds0.get(k) != kinds[k]]
            if any(kinds[k][0] in ('lin', 'fn', 'sat') and k[0] == 'phi' for k in fresh_):
                for k in fresh_:
                    if kinds0.get(k, ('inv',))[0] in ('inv', 'new') and (k[0] == 'mem' or kinds[k][0] == 'state'):
                        kinds.pop(k)
        else:
            raise Unsupported('loop analysis did not converge')
        # linear closed forms: loop-carried constants must be invariant
        stay = relcond(bst.pc, pc_start)
        stay = self.monotone(stay, nvar, {nvar} | {single_atom(x) if x.s in 'IR' and x.k == 'poly' else x for x in syms.values() if x.k != 'ptr'}, st0, None)
        if whole and stay.k == 'le0' and syms:
            cnt = self.trip(stay, nvar, {nvar})
            if cnt is not None and is_int_const(cnt) and T.cval(cnt) <= 8:
                def back_():
                    del self.facts[snap[0]:]
                    del self.obls[snap[1]:]
                    del self.events[snap[2]:]
                    del self.loops[snap[3]:]
                    act.env = dict(env0)
                back_()
                r = self.unroll(act, L, [(frm, s.copy(), subs) for (frm, s, subs) in ins], int(T.cval(cnt)))
                if r is not None:
                    return r
                back_()
                return self.loop(act, L, ins, False)
        rec.stay = stay
        rec.states = []
        for key, s in syms.items():
            ini = init.get(key)
            if ini is None:
                ini = self.mem_init(st0, key, kinds[key])
            step = nxt.get(key, s)
            sv, iv, tv = s, ini, step
            if s.k == 'ptr':
                sv, iv, tv = s.a[1], ini.a[1], step.a[1]
            if sv.s != iv.s and sv.s == 'R':
                iv = toreal(iv)
            rec.states.append((key, single_atom(sv) if sv.k == 'poly' else sv, iv, tv))
        rec.exits = [(frm, to, relcond(s.pc, pc_start)) for (frm, to, s, v) in exits]
        self.loops.append(rec)
        # parameters of each loop value: bound variables of enclosing loops its
        # defining equations (transitively) depend on
        own = {nvar} | {x[1] for x in rec.states}
        ofs = {x[1]: i + 1 for i, x in enumerate(rec.states)}
        ofs[nvar] = 0
        direct = [set(free(stay))]
        for _, _, iv, tv in rec.states:
            direct.append(set(free(iv)) | set(free(tv)))
        rec.pst = []
        for i in range(len(direct)):
            need = {0, i}
            st_ = [0, i]
            fv = set()
            while st_:
                q = st_.pop()
                for x in direct[q]:
                    if x in ofs:
                        if ofs[x] not in need:
                            need.add(ofs[x])
                            st_.append(ofs[x])
                    elif isbound(x):
                        fv.add(x)
            rec.pst.append(sorted(fv, key=lambda x: x.id))
        rec.params = rec.pst[0]

        def pt(i):
            return [atom(x) if x.s in 'IR' else x for x in rec.pst[i]]
        m = {nvar: self.trip(stay, nvar, own) or fin(lid, 0, 'I', pt(0))}
        for i, (key, sv, iv, tv) in enumerate(rec.states):
            m[sv] = fin(lid, i + 1, sv.s, pt(i + 1))
        rec.finmap = m
        # facts at exit
        nf = m[nvar]
        ex = [(e, subst(relcond(e[2].pc, pc_start), m)) for e in exits]
        base = st0.pc
        newfacts = []
        nbody = self.facts[snap[0]:]
        for fct in nbody:
            if free(fct) & own:
                newfacts.append(subst(fct, m))
        newfacts.append(bor(bnot(base), le(num(0), nf)))
        allc = [c for _, c in ex]
        newfacts.append(bor(bnot(base), bor(*allc)))
        if not (free(stay) & (own - {nvar})):
            prev = subst(stay, {nvar: sub(nf, num(1))})
            newfacts.append(bor(bnot(base), le(nf, num(0)), prev))
        self.facts.extend(newfacts)
        out = []
        neg_prev = []
        for j, (e, c) in enumerate(ex):
            frm, to, s, v = e
            cond = c if j < len(ex) - 1 else TRUE
            pcs = band(base, *(neg_prev + [cond]))
            neg_prev.append(bnot(c))
            me = m
            cnt = self.exit_count(rec.exits[j][2], stay, nvar, own, st0.pc) if m[nvar].k != 'poly' or len(m[nvar].a) == 1 else None
            if cnt is not None:
                me = dict(m)
                me[nvar] = cnt
            s2 = self.sub_state(s, me)
            s2.pc = pcs
            self.filled(s2)
            if to == '!ret':
                v = subst(v, me) if v is not None else None
            elif to != '!abort':
                v = tuple(v) + (me,)
            out.append((frm, to, s2, v))
        return out

    def filled(self, st):
        """a new buffer written from end to end: what it held before does not matter
        (accesses outside it are obligations of their own)"""
        for key, v in st.mem.items():
            o = self.objs.get(key[0])
            if v.k == 'amap' and v.a[0].k == 'var' and o is not None and o.kind == 'heap' and o.length is not None and not o.zero and v.a[0] is self.lane_init(o, key[1], v.s[1:]) and v.s[1:] in 'IR' \
               and v.a[1] is num(0) and self.implied(st.pc, le(o.length, v.a[2])):
                st.mem[key] = mk('amap', (mk('aconst', (num(0, v.s[1:]),), v.s),) + v.a[1:], v.s)

    def exit_count(self, c, stay, nvar, own, pc):
        """iteration count on the exit taken because the counter reached its bound"""
        st = conj(stay)
        for q in conj(c):
            if q.k not in ('le0', 'eq0') or q.a[0].s != 'I' or free(q) & (own - {nvar}):
                continue
            p = q.a[0]
            co = [x for mo, x in p.a if any(y is nvar for y, e in mo)]
            if len(co) != 1 or abs(co[0]) != 1 or not any(mo == ((nvar, 1),) for mo, x in p.a):
                continue
            d = sub(p, mul(num(co[0]), atom(nvar)))
            if q.k == 'eq0':
                return d if co[0] < 0 else neg(d)
            if co[0] > 0 or not any(t is lt(atom(nvar), d) for t in st):
                continue
            if self.nonneg(d) or self.implied(pc, le(num(0), d)):
                return d
            return ite(le(num(0), d), d, num(0))
        return None

    def trip(self, stay, nvar, own):
        """closed form of the iteration count for  stay <=> n + c <= 0"""
        if stay.k != 'le0' or stay.a[0].s != 'I':
            return None
        p = stay.a[0]
        d = {}
        for mo, c in p.a:
            if any(x is nvar for x, e in mo):
                if mo != ((nvar, 1),) or c < 1:
                    return None
                k = c
            else:
                d[mo] = c
        if nvar not in free(p):
            return None
        c = T._mkpoly(d, 'I')
        if free(c) & own:
            return None
        # k*n + c <= 0  <=>  n <= floor(-c/k);  count = max(0, floor(-c/k)+1)
        if k == 1:
            cnt = sub(num(1), c)
        else:
            cnt = idiv(add(neg(c), num(k)), num(k))      # for -c+k >= 0
        if self.nonneg(cnt):
            return cnt
        if k != 1:
            return ite(le(c, num(0)), cnt, num(0))
        return ite(le(num(0), cnt), cnt, num(0))

    def sub_state(self, s, m):
        memo = {}
        return State(subst(s.pc, m), {k: subst(v, m, memo) for k, v in s.mem.items()})

    def mem_init(self, st0, key, kd):
        v = st0.mem.get(key[1])
        if v is None:
            srt = kd[1] if kd[0] == 'state' else None
            if kd[0] == 'fn':
                srt = kd[1].s
            if kd[0] in ('map', 'last'):
                srt = kd[2].s
            if srt is None:
                # linear scalar
                srt = 'I' if kd[1].s == 'I' else 'R'
            srt = srt[1:] if srt.startswith('A') else srt
            v = self.lane_init(self.objs[key[1][0]], key[1][1], srt)
        return v

    def psig(self, v, cv):
        if v.s == 'P':
            if v.k == 'ptr':
                if cv.k == 'ptr' and cv.a[0] != v.a[0]:
                    raise Unsupported('pointer loop variable over several objects: %s vs %s' % (v, cv))
                return v.a[0]
            raise Unsupported('pointer loop variable: %s' % v)
        return None

    def try_lin(self, cv, v, bound):
        if cv.s == 'P':
            if cv.k == 'ptr' and v.k == 'ptr' and cv.a[0] == v.a[0]:
                d = sub(v.a[1], cv.a[1])
                if not any(isbound_in(x, bound) for x in free(d)):
                    return ('lin', d)
            return None
        if cv.s in 'IR' and v.s in 'IR':
            if isund(cv):
                return None
            d = sub(v, cv)
            if not any(isbound_in(x, bound) for x in free(d)):
                return ('lin', d)
        return None

    def try_sat(self, ini, cv, v, nvar, bound, pc):
        """a pointer that moves on in equal steps, the last of them cut off at the end"""
        if cv.k != 'ptr' or v.k != 'ptr' or ini.k != 'ptr' or cv.a[0] != v.a[0] or ini.a[0] != v.a[0]:
            return None
        w = v.a[1]
        if w.k == 'poly' and len(w.a) == 1 and len(w.a[0][0]) == 1 and w.a[0][0][0][1] == 1 and w.a[0][0][0][0].k == 'ite':    # k * ite(c, x, y)
            rest = num(1)
            step, last = (sub(mul(num(w.a[0][1]), x), cv.a[1]) for x in w.a[0][0][0][0].a[1:])
        else:
            d = sub(v.a[1], cv.a[1])
            if len(d.a) != 1:
                return None
            (mo, co), = d.a
            f = [x for x, e in mo if e == 1 and x.k == 'ite']
            if len(f) != 1:
                return None
            rest = T._mkpoly({tuple(g for g in mo if g[0] is not f[0]): co}, 'I')
            step, last = f[0].a[1:]
        if any(isbound_in(x, bound) and x is not nvar for x in free(step) | free(last) | free(rest)):
            return None
        n = atom(nvar)
        for step, last in ((step, last), (last, step)):
            end = add(last, mul(n, step))
            if nvar in free(step) | free(end) | free(rest) or not self.implied(pc, le(num(0), end)):
                continue
            return ('sat', ini.a[0], add(ini.a[1], mul(rest, ite(lt(mul(n, step), end), mul(n, step), end))))
        return None

    def cur_init(self, init, st0, key, kd):
        ini = init.get(key)
        if ini is None:
            ini = self.mem_init(st0, key, kd)
        return ini

    def try_fn(self, cv, v, nvar, bound):
        """value determined by the iteration count alone"""
        if v.s not in 'IRB' or isund(cv):
            return None
        if any(isbound_in(x, bound) and x is not nvar for x in free(v)):
            return None
        if nvar not in free(v):
            return None
        g0 = subst(v, {nvar: num(-1)})
        if g0 is cv or (cv.s == 'R' and g0.s == 'I' and toreal(g0) is cv):
            return ('fn', v, 0)
        return None

    def try_last(self, ini, cv, v, nvar, bound):
        """a variable that each iteration sets anew, if a condition that the loop does
        not change holds, and otherwise leaves alone"""
        i = None
        if cv.s.startswith('A'):
            if v.k != 'store' or v.a[0] is not cv and not (cv.k == 'store' and cv.a[0] is v.a[0] and cv.a[1] is v.a[1]):
                return None
            i, v = v.a[1:]
            if v.s not in 'IRB' or any(isbound_in(x, bound) for x in free(i)):
                return None
            cv, ini = sel(cv, i), sel(ini, i)
        v = single_atom(v) if v.s in 'IR' else None
        if v is None or v.k != 'ite' or isund(cv):
            return None
        c, x, y = v.a
        for c, x, y in ((c, x, y), (bnot(c), y, x)):
            if (y is cv or y is ini) and not any(isbound_in(q, bound) for q in free(c)) and not any(isbound_in(q, bound) and q is not nvar for q in free(x)):
                return ('last', c, x, i)
        return None

    def last_val(self, ini, kd, nvar, n):
        _, c, x, i = kd
        old = ini if i is None else sel(ini, i)
        v = ite(band(c, le(num(1), n)), subst(x, {nvar: sub(n, num(1))}), old)
        return v if i is None else store(ini, i, v)

    def monotone(self, stay, nvar, own, st0, nbody):
        """a counter that stops exactly at a bound never passes it"""
        out = []
        for c in sorted(conj(stay), key=lambda q: q.id):
            if c.k == 'not' and c.a[0].k == 'eq0' and c.a[0].a[0].s == 'I':
                p = c.a[0].a[0]
                co = [cc for mo, cc in p.a if any(x is nvar for x, e in mo)]
                if len(co) == 1 and abs(co[0]) == 1 and (((nvar, 1),), co[0]) in [(mo, cc) for mo, cc in p.a] and not (free(p) & (own - {nvar})):
                    if co[0] < 0:
                        p = neg(p)
                    if self.implied(st0.pc, le(subst(p, {nvar: num(0)}), num(0))):
                        self.facts.append(bor(bnot(st0.pc), le(p, num(0))))
                        c = lt(p, num(0))
            out.append(c)
        return band(*out)

    def try_map(self, cv, v, nvar):
        if not cv.s.startswith('A') or v.k != 'store':
            return None
        base, idx, val = v.a
        if base is not cv:
            return None
        n = atom(nvar)
        b = sub(idx, n)
        if nvar in free(b):
            b = add(idx, n)
        if nvar in free(b):
            return None
        if any(isbound(x) and x.a[0].split('!')[1] == nvar.a[0].split('!')[1] for x in free(b)):
            return None
        return ('map', idx, val, 0)

    def map_val(self, ini, kd, nvar, n):
        idx, val = kd[1], kd[2]
        lo = subst(idx, {nvar: num(0)})
        if nvar not in free(add(idx, atom(nvar))):      # downwards
            return amap(ini, sub(add(lo, num(1)), n), n, lambda k: subst(val, {nvar: sub(lo, k)}))
        return amap(ini, lo, n, lambda k: subst(val, {nvar: sub(k, lo)}))

    def lin_val(self, ini, c, n):
        if ini.s == 'P':
            return ptr(ini.a[0], add(ini.a[1], mul(n, c)))
        return add(ini, mul(toreal(n), c)) if (c.s == 'R' or ini.s == 'R') else add(ini, mul(n, c))

    def state_sym(self, nm, ini, kd):
        s = kd[1]
        if s == 'P':
            return ptr(kd[2], var(nm, 'I'))
        if s in 'IR':
            return var(nm, s)
        if s == 'T':
            raise Unsupported('tuple loop state')
        return mk('var', (nm,), s)

    # ------------------------------------------------------------ blocks
    def block(self, act, b, st, out, exits):
        env = act.env
        if self.drop_infeasible:        # branches the precondition excludes
            emit = out

            def out(b, lab, s, x):
                if not self.implied(TRUE, bnot(s.pc)):
                    emit(b, lab, s, x)
        for i in act.fn.blocks[b]:
            op = i.op
            self.steps += 1
            if op == 'phi':
                continue
            if op == 'br':
                if len(i.x) == 1:
                    out(b, i.x[0], st, ())
                else:
                    c = self.op(act, ('i', 1), i.x[0])
                    if i.x[1] == i.x[2]:
                        out(b, i.x[1], st, ())
                        return
                    t = State(band(st.pc, c), st.mem)
                    out(b, i.x[1], t, ())
                    e = State(band(st.pc, bnot(c)), dict(st.mem))
                    out(b, i.x[2], e, ())
                return
            if op == 'switch':
                v = self.op(act, i.ty, i.x[0])
                rest = []
                tg = {}
                for cv, lab in i.x[2]:
                    c = eq(v, self.const(i.ty, cv))
                    tg.setdefault(lab, []).append(band(*(rest + [c])))
                    rest.append(bnot(c))
                tg.setdefault(i.x[1], []).append(band(*rest))
                for lab, cs in tg.items():
                    out(b, lab, State(band(st.pc, bor(*cs)), dict(st.mem)), ())
                return
            if op == 'ret':
                v = self.op(act, i.ty, i.x[0]) if i.x else None
                exits.append((b, '!ret', st, v))
                return
            if op == 'unreachable' or op == 'resume':
                return
            if op == 'call' or op == 'invoke':
                ns, rv, aborts = self.call(act, i, st)
                for a in aborts:
                    exits.append((b, '!abort', a, None))
                if ns is None or ns.pc is FALSE:
                    return
                st = ns
                if i.dst:
                    env[i.dst] = rv if rv is not None else self.undef(tsort(i.ty), i.ty)
                if op == 'invoke':
                    out(b, i.x[2][0], st, ())
                    return
                continue
            if op == 'landingpad':
                return
            env_v = self.inst(act, i, st)
            if i.dst:
                env[i.dst] = env_v
        raise Unsupported('block without terminator')

    def inst(self, act, i, st):
        op, x, ty = i.op, i.x, i.ty
        loc = i.dbg
        if op == 'load':
            return self.load(st, self.op(act, ('ptr',), x[0]), ty, loc)
        if op == 'store':
            self.store(st, self.op(act, ('ptr',), x[1]), self.op(act, ty, x[0]), ty, loc)
            return None
        if op == 'alloca':
            n = x[0]
            sz = self.m.size(ty)
            rt = self.m.res(ty)
            if n is not None:
                nv = self.const_or(act, n)
                o = self.newobj('alloca.' + act.fn.name[:20] + i.dst, sz, nv, 'local')
            elif rt[0] == 'arr':
                o = self.newobj('alloca.' + act.fn.name[:20] + i.dst, None, num(sz), 'local')
                o.arr = self.m.size(rt[2])
            else:
                o = self.newobj('alloca.' + act.fn.name[:20] + i.dst, None, num(sz), 'local')
            o.owner = self.loopstack[-1].id if self.loopstack else None
            return ptr(o.name, num(0))
        if op == 'getelementptr':
            base = self.op(act, ('ptr',), x[0][1])
            return self.gep(base, ty, [(t, self.op(act, t, o)) for t, o in x[1:]])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, c = self.op(act, ty, x[0]), self.op(act, ty, x[1])
            if a.s == 'T':
                return tup(*[self.fbin(op, p, q) for p, q in zip(a.a, c.a)])
            return self.fbin(op, a, c)
        if op == 'fneg':
            v = self.op(act, ty, x[0])
            return tup(*[neg(q) for q in v.a]) if v.s == 'T' else neg(v)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, c = self.op(act, ty, x[0]), self.op(act, ty, x[1])
            return self.ibin(op, a, c, ty, st, loc)
        if op == 'icmp':
            a, c = self.op(act, ty, x[1]), self.op(act, ty, x[2])
            return self.icmp(x[0], a, c, ty)
        if op == 'fcmp':
            a, c = self.op(act, ty, x[1]), self.op(act, ty, x[2])
            q = x[0]
            if q == 'ord' or q == 'true':
                return TRUE
            if q == 'uno' or q == 'false':
                return FALSE
            q = q[1:]
            return {'lt': lambda: lt(a, c), 'le': lambda: le(a, c), 'gt': lambda: lt(c, a), 'ge': lambda: le(c, a),
                    'eq': lambda: eq(a, c), 'ne': lambda: bnot(eq(a, c))}[q]()
        if op == 'select':
            c = self.op(act, ('i', 1), x[0])
            a, b2 = self.op(act, ty, x[1]), self.op(act, ty, x[2])
            if isund(a):
                return b2
            if isund(b2):
                return a
            return ite(c, a, b2)
        if op == 'freeze':
            return self.op(act, ty, x[0])
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.op(act, x[0], x[1])
            return self.cast(op, v, x[0], ty)
        if op == 'extractvalue':
            v = self.op(act, ty, x[0])
            for k in x[1]:
                v = v.a[k]
            return v
        if op == 'insertvalue':
            v = self.op(act, ty, x[0])
            w = self.op(act, x[3], x[1])
            return self.insval(v, w, x[2])
        if op == 'extractelement':
            v = self.op(act, ty, x[0])
            i2 = self.op(act, ('i', 64), x[1])
            return v.a[int(cval(i2))]
        if op == 'insertelement':
            v = self.op(act, ty, x[0])
            w = self.op(act, self.m.res(ty)[2], x[1])
            i2 = self.op(act, ('i', 64), x[2])
            return self.insval(v, w, [int(cval(i2))])
        if op == 'fence':
            return None
        raise Unsupported('instruction ' + op + ': ' + i.text[:100])

    def const_or(self, act, n):
        return self.op(act, ('i', 64), n)

    def insval(self, v, w, idx):
        l = list(v.a)
        if len(idx) == 1:
            l[idx[0]] = w
        else:
            l[idx[0]] = self.insval(l[idx[0]], w, idx[1:])
        return tup(*l)

    def fbin(self, op, a, c):
        if op == 'fadd':
            return add(a, c)
        if op == 'fsub':
            return sub(a, c)
        if op == 'fmul':
            return mul(a, c)
        if op == 'fdiv':
            return div(a, c)
        return app('fmod', (a, c), 'R')

    def ibin(self, op, a, c, ty, st, loc):
        if a.s == 'P' or c.s == 'P':
            a, c = self.coerce(a, 'I'), self.coerce(c, 'I')
        if ty == ('i', 1):
            if op == 'and':
                return band(a, c)
            if op == 'or':
                return bor(a, c)
            if op == 'xor':
                return bnot(bite(a, c, bnot(c)))
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return add(a, c)
        if op == 'sub':
            pa, pc = ptrint(a), ptrint(c)
            if pa is not None and pc is not None and pa.k == 'ptr' and pc.k == 'ptr' and pa.a[0] == pc.a[0]:
                return sub(pa.a[1], pc.a[1])
            return sub(a, c)
        if op == 'mul':
            return mul(a, c)
        if op in ('sdiv', 'udiv'):
            self.obl('div-by-zero', 'integer division', st.pc, bnot(eq(c, num(0))), loc)
            return idiv(a, c)
        if op in ('srem', 'urem'):
            self.obl('div-by-zero', 'integer remainder', st.pc, bnot(eq(c, num(0))), loc)
            return irem(a, c)
        if op == 'shl' and is_const(c):
            return scale(a, 2 ** int(cval(c)))
        if op in ('lshr', 'ashr') and is_const(c):
            return idiv(a, num(2 ** int(cval(c))))
        if op in ('and', 'or', 'xor') and is_const(a) and is_const(c):
            x, y = int(cval(a)), int(cval(c))
            return num({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if op == 'and' and is_const(c):
            k = int(cval(c))
            if ptrint(a) is not None and k == 1:
                return num(0)
            if k >= 0 and (k & (k + 1)) == 0:
                return irem(a, num(k + 1))
            if k == -1:
                return a
        if op == 'xor' and is_const(c) and cval(c) == -1:
            return sub(num(-1), a)
        # boolean-like integers
        t, u = single_atom(a), single_atom(c)
        if ground_ite(a, 3) and ground_ite(c, 3) and op in ('and', 'or', 'xor'):
            za, zc = bnot(eq(a, num(0))), bnot(eq(c, num(0)))
            if bool_like(a) and bool_like(c):
                r = {'and': lambda: band(za, zc), 'or': lambda: bor(za, zc), 'xor': lambda: bite(za, bnot(zc), zc)}[op]()
                return ite(r, num(1), num(0))
        return app('i' + op, sorted((a, c), key=lambda t: t.id), 'I')

    def icmp(self, q, a, c, ty):
        if a.s == 'P' or c.s == 'P' or ptrint(a) is not None or ptrint(c) is not None:
            pa = a if a.s == 'P' else (ptrint(a) or self.coerce(a, 'P'))
            pc = c if c.s == 'P' else (ptrint(c) or self.coerce(c, 'P'))
            if q == 'eq':
                return ptr_eq(pa, pc)
            if q == 'ne':
                return bnot(ptr_eq(pa, pc))
            if pa.k == 'ptr' and pc.k == 'ptr' and pa.a[0] == pc.a[0]:
                return self.icmp(q, pa.a[1], pc.a[1], ('i', 64))
            return app('pcmp:' + q, (pa, pc), 'B')
        if ty == ('i', 1):
            e = bite(a, c, bnot(c))
            if q == 'eq':
                return e
            if q == 'ne':
                return bnot(e)
            raise Unsupported('i1 icmp ' + q)
        if a.s == 'T':
            raise Unsupported('vector icmp')
        if q == 'eq':
            return eq(a, c)
        if q == 'ne':
            return bnot(eq(a, c))
        if q in ('slt', 'sle', 'sgt', 'sge') or (q[0] == 'u' and self.nonneg(a) and self.nonneg(c)):
            return {'lt': lambda: lt(a, c), 'le': lambda: le(a, c), 'gt': lambda: lt(c, a), 'ge': lambda: le(c, a)}[q[1:]]()
        # unsigned comparison of possibly negative mathematical integers
        z = num(0)
        na, nc = TRUE if self.nonneg(a) else le(z, a), TRUE if self.nonneg(c) else le(z, c)

        def ult(a, na, c, nc):
            return bor(band(na, bnot(nc)), band(na, nc, lt(a, c)), band(bnot(na), bnot(nc), lt(a, c)))
        if q == 'ult':
            return ult(a, na, c, nc)
        if q == 'ugt':
            return ult(c, nc, a, na)
        if q == 'ule':
            return bnot(ult(c, nc, a, na))
        return bnot(ult(a, na, c, nc))

    unsigned_nonneg = True

    def nonneg(self, p):
        """Syntactically non-negative (loop counters, declared lengths)."""
        for m, c in p.a:
            if c < 0:
                return False
            for x, e in m:
                if x.k == 'var' and (str(x.a[0]).startswith('n!') or x in NONNEG):
                    continue
                if x.k == 'fin' and x.a[1] == 0:
                    continue
                if x.k == 'idiv' and self.nonneg(x.a[0]) and self.nonneg(x.a[1]):
                    continue
                if x.k == 'ite' and self.nonneg(x.a[1]) and self.nonneg(x.a[2]):
                    continue
                if x in NONNEG or (x.k == 'app' and x.a[0] in NONNEG_FN):
                    continue
                return False
        return True

    def cast(self, op, v, t0, t1):
        if v.s == 'T':
            raise Unsupported('vector cast')
        if op == 'sext' or op == 'zext':
            if v.s == 'B':
                return ite(v, num(1 if op == 'zext' else -1), num(0))
            return v
        if op == 'trunc':
            if t1 == ('i', 1):
                if v.s == 'B':
                    return v
                return bnot(eq(v, num(0))) if bool_ish(v) else bnot(eq(irem(v, num(2)), num(0)))
            if is_const(v):
                w = t1[1]
                k = int(cval(v)) & ((1 << w) - 1)
                if k >= 1 << (w - 1):
                    k -= 1 << w
                return num(k)
            self.assumptions.add('integer narrowing casts keep the value')
            return v
        if op in ('fptosi', 'fptoui'):
            return toint(v)
        if op in ('sitofp', 'uitofp'):
            if v.s == 'B':
                return ite(v, num(1, 'R'), num(0, 'R'))
            return toreal(v)
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'bitcast':
            s = tsort(t1)
            return self.coerce(v, s)
        if op == 'ptrtoint':
            return app('p2i', (v,), 'I')
        if op == 'inttoptr':
            p = ptrint(v)
            return p if p is not None else self.coerce(v, 'P')
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def call(self, act, i, st):
        callee, args, tgt = i.x
        if callee[0] == 'asm':
            return st, None, []
        if callee[0] == 'loc':
            fp = act.env.get(callee[1])
            if fp is not None and fp.k == 'fptr':
                name = fp.a[0]
            else:
                h = self.handlers.get('!indirect')
                if h:
                    vals = [self.op(act, t, o) for t, o, at in args]
                    return h(self, st, fp, vals, i, act)
                raise Unsupported('indirect call %s in %s' % (fp, act.fn.name))
        else:
            if callee[0] != 'glob':
                raise Unsupported('callee %r' % (callee,))
            name = callee[1][1:].strip('"')
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
                return st, NULL if i.dst else None, []
        vals = [self.op(act, t, o) for t, o, at in args]
        return self.dispatch(name, vals, [t for t, o, at in args], i, st, act)

    def dispatch(self, name, vals, tys, i, st, act):
        g = self.m.globals.get('@' + name)
        if g is not None and g[0] == 'alias':
            name = g[1][1:].strip('"')
        h = self.handlers.get(name)
        if h is None:
            h = self.intrinsic(name)
        if h is not None:
            r = h(self, st, vals, tys, i, act)
            if isinstance(r, tuple):
                return r
            return st, r, []
        for rx in self.effectless:
            if rx.match(name):
                self.assumptions.add('effect-free: ' + rx.pattern)
                return st, (vals[0] if vals and i.dst else None), []
        fn = self.m.get(name)
        if fn is None:
            raise Unsupported('call of undefined function ' + name)
        self.inlined.add(name)
        return self.run_function(fn, vals, st)

    def intrinsic(self, name):
        import intr
        return intr.lookup(name)


class Act:
    def __init__(self, fn):
        self.fn = fn
        self.env = {}


NONNEG = set()
NONNEG_FN = {'hwconc'}


def keyname(key):
    if key[0] == 'phi':
        return key[1][1:]
    return '%s.%d' % key[1]


def isbound(x):
    return x.k == 'var' and isinstance(x.a[0], str) and (x.a[0].startswith('n!') or x.a[0].startswith('s!'))


def isbound_in(x, bound):
    return x in bound


def isund(t):
    if t.k == 'undefp':
        return True
    u = single_atom(t) if t.k == 'poly' else t
    return u is not None and u.k == 'var' and isinstance(u.a[0], str) and u.a[0].startswith('undef:')


def fin(lid, i, s, params):
    t = mk('fin', (lid, i) + tuple(params), s)
    return atom(t) if s in 'IR' else t


def hasfin(t, memo={}):
    if t not in memo:
        memo[t] = t.k == 'fin' or any(hasfin(x) for x in T.children(t))
    return memo[t]


def relcond(pc, start):
    sc = conj(start)
    pcs = conj(pc)
    return band(*[x for x in pcs if x not in sc])


def ptrint(v):
    if v.k == 'poly':
        t = single_atom(v)
        if t is not None and t.k == 'app' and t.a[0] == 'p2i':
            return t.a[1]
    return None


def bool_like(p):
    if is_const(p):
        return cval(p) in (0, 1)
    t = single_atom(p)
    return t is not None and t.k == 'ite' and bool_like(t.a[1]) and bool_like(t.a[2])


def bool_ish(p):
    if bool_like(p):
        return True
    return True   # i8 booleans hold 0/1 (C++ object representation)


def rows_of(ex, o, table, n, stride, length, writable=False):
    """o is a table of n pointers to disjoint rows of `length` elements of `stride` bytes.  The rows are
    one object 'table[]' whose element (r, k) has index r*W + k, W a symbol; see Exec.bounds."""
    W = var('W:' + table, 'I')
    r = Obj(table + '[]', stride, None, 'param', writable, table + ' row')
    r.row = (W, n, length)
    ex.objs[r.name] = r
    o.rows = r
    o.length = n
    return r


def split_row(o, idx):
    """index -> (row, position) of an object made by rows_of"""
    W, w = single_atom(o.row[0]), {}
    pos = {}
    for m, c in idx.a:
        e = dict(m).get(W, 0)
        if e == 0:
            pos[m] = c
        elif e == 1:
            w[tuple((x, k) for x, k in m if x is not W)] = c
        else:
            raise Unsupported('row index %s' % idx)
    return T._mkpoly(w, 'I'), T._mkpoly(pos, 'I')


def ptr_from_array(ex, o, lane, idx):
    r = getattr(o, 'rows', None)
    if r is not None and lane == 0:
        return ptr(r.name, mul(mul(idx, r.row[0]), num(r.stride)))
    nm = '%s@%d[]' % (o.name, lane)
    return mk('sel', (avar('%s@%d' % (o.name, lane), 'P'), idx), 'P')

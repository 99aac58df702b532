"""Contracts assumed for run-time library calls, and contracts of functions of
the code under verification used in place of their bodies ('opaque')."""
import re
from term import *
import term as T
import sym
from sym import Unsupported, State, NONNEG


def RX(*rx):
    return [re.compile(r) for r in rx]


class Handlers(dict):
    """name -> handler, with regex fallbacks."""

    def __init__(self, base=None):
        super().__init__(base or {})
        self.rx = []
        self.memo = {}

    def on(self, rx, h):
        self.rx.append((re.compile(rx), h))
        return self

    def copy(self):
        h = Handlers(self)
        h.rx = list(self.rx)
        return h

    def get(self, name, d=None):
        r = super().get(name)
        if r is not None:
            return r
        if name in self.memo:
            return self.memo[name]
        r = d
        for rx, h in self.rx:
            if rx.search(name):
                r = h
                break
        self.memo[name] = r
        return r


# ------------------------------------------------------------------ strings
def string_ctor(ex, st, v, t, i, a):
    ex.store(st, v[0], v[1], ('ptr',), i.dbg)
    return None


LIT = {}


def literal(p):
    """the text of a pointer to a string constant"""
    if p.k == 'ptr' and p.a[0].startswith('@str:') and is_const(p.a[1]) and cval(p.a[1]) == 0:
        return p.a[0]
    return None


def strcode(ex, st, p, loc):
    """text of a std::string as a number (equal texts, equal numbers)"""
    p = ex.resolve(p)
    if p.k == 'ite':
        return ite(p.a[0], strcode(ex, st, p.a[1], loc), strcode(ex, st, p.a[2], loc))
    if p.k != 'ptr':
        raise Unsupported('string at %s' % p)
    v = st.mem.get((p.a[0], 0))
    if v is None:
        v = st.mem[(p.a[0], 0)] = var('text:' + p.a[0], 'I')
    return textcode(v)


def textcode(v):
    if v.k == 'ptr':
        t = literal(v)
        if t is None:
            raise Unsupported('text of %s' % v)
        return num(LIT.setdefault(t, len(LIT) + 1))
    if v.k == 'ite':
        return ite(v.a[0], textcode(v.a[1]), textcode(v.a[2]))
    return v


def string_empty(ex, st, v, t, i, a):
    p = ex.resolve(v[0])
    st.mem[(p.a[0], 0)] = num(0)        # literals are numbered from 1
    return None


def string_eq(ex, st, v, t, i, a):
    return eq(strcode(ex, st, v[0], i.dbg), textcode(v[1]))


def string_eqs(ex, st, v, t, i, a):
    return eq(strcode(ex, st, v[0], i.dbg), strcode(ex, st, v[1], i.dbg))


def string_cmp(ex, st, v, t, i, a):
    return ordering(strcode(ex, st, v[0], i.dbg), textcode(v[1]))


def c_str(ex, st, v, t, i, a):
    """the characters of a string: an object that holds its text"""
    try:
        c = strcode(ex, st, v[0], i.dbg)
    except Unsupported:
        return ex.named_ptr('text')
    o = ex.newobj('chars', None, None, 'param', False, label='characters')
    st.mem[(o.name, 0)] = c
    return ptr(o.name, num(0))


def c_text(ex, st, p):
    p = ex.resolve(p)
    if p.k == 'ite':
        return ite(p.a[0], c_text(ex, st, p.a[1]), c_text(ex, st, p.a[2]))
    if p.k == 'ptr' and literal(p) is None:
        return st.mem.get((p.a[0], 0)) or app('text', (p,), 'I')
    return textcode(p)


def c_strcmp(ex, st, v, t, i, a):
    x, y = c_text(ex, st, v[0]), c_text(ex, st, v[1])
    return ordering(x, y)


def ordering(x, y):
    """result of a comparison of texts; its size is arbitrary (no code may depend on it)"""
    return ite(eq(x, y), num(0), ite(app('strless', (x, y), 'B'), num(-990991), num(990991)))


def import_wisdom(ex, st, v, t, i, a):
    """FFTW accepts some texts; the bare word is none of them"""
    w = num(LIT.setdefault('@str:fftw_wisdom\\00', len(LIT) + 1))
    x = c_text(ex, st, v[0])
    return ite(band(bnot(eq(x, w)), app('wisdom', (x,), 'B')), num(1), num(0))


def string_copy(ex, st, v, t, i, a):
    c = strcode(ex, st, v[1], i.dbg)
    p = ex.resolve(v[0])
    st.mem[(p.a[0], 0)] = c
    return v[0] if i.dst else None


def must(ex, st, v, t, i, a):
    c = v[0] if v[0].s == 'B' else bnot(eq(v[0], num(0)))
    ex.obl('bounds', 'dimension of an argument', st.pc, c, i.dbg)
    return None


def stoul(ex, st, v, t, i, a):
    s = ex.load(st, v[0], ('ptr',), i.dbg)
    r = app('stoul', (s,), 'I')
    ex.facts.append(le(num(0), r))
    ex.assumptions.add('std::stoul parses its argument (malformed DREAM_NUM_THREADS throws)')
    return r


def nothing(ex, st, v, t, i, a):
    return None


def zero(ex, st, v, t, i, a):
    return num(0)


def require_started(ex, st, v, t, i, a):
    g = ex.load(st, v[0], ('i', 64), i.dbg)
    ex.obl('join', 'joined thread was started and not joined before', st.pc, eq(g, num(1)), i.dbg)
    return None


# ------------------------------------------------------------------ FFTW
def plan(direction):
    def h(ex, st, v, t, i, a):
        n = v[0]
        o = ex.newobj('plan', None, num(16), 'heap')
        st.mem[(o.name, 0)] = n
        st.mem[(o.name, 8)] = num(direction)
        ex.obl('fft', 'transform length positive', st.pc, lt(num(0), n), i.dbg)
        for k, ln in ((1, n if direction == 0 else add(idiv(n, num(2)), num(1))), (2, n if direction == 1 else add(idiv(n, num(2)), num(1)))):
            window(ex, st, v[k], 8 if (k == 1) == (direction == 0) else 16, ln, 'fft plan buffer', i.dbg)
        return ptr(o.name, num(0))
    return h


def window(ex, st, p, S, n, what, loc, check=True):
    """pointer to n elements of S bytes -> (obj, index)"""
    p = ex.prune(ex.resolve(p), st.pc)
    if p.k != 'ptr':
        ex.obl('valid-pointer', what, st.pc, FALSE, loc)
        raise Unsupported('%s through %s' % (what, p))
    o = ex.objs[p.a[0]]
    ex.live(o, st, loc, what)
    if o.stride is None:
        o.stride = S
    ex._memkeys = st.mem
    lane, idx = ex.cell(o, p.a[1], S)
    if lane != 0 or o.stride != S:
        raise Unsupported('window at lane %d stride %s' % (lane, o.stride))
    if check and o.length is not None and ex.check_bounds:
        ex.obl('bounds', '%s %s' % (what, o.label), st.pc, bor(le(n, num(0)), band(le(num(0), idx), le(add(idx, n), o.length))), loc)
    return o, idx


def arr(ex, st, o, lane, s='R'):
    v = st.mem.get((o.name, lane))
    if v is None:
        v = ex.lane_init(o, lane, s)
        st.mem[(o.name, lane)] = v
    return v


def setarr(ex, st, o, lane, v, loc):
    if not o.writable and ex.check_bounds:
        ex.obl('frame', 'write to %s (not in assigns)' % o.label, st.pc, FALSE, loc)
    st.mem[(o.name, lane)] = v


def planlen(ex, st, p, direction, loc):
    p = ex.resolve(p)
    if p.k != 'ptr':
        raise Unsupported('fft plan %s' % p)
    n = ex.load(st, p, ('i', 64), loc)
    d = ex.load(st, padd(p, num(8)), ('i', 64), loc)
    ex.obl('fft', 'plan direction', st.pc, eq(d, num(direction)), loc)
    return n


def value_at(ex, A, i, pc, depth=0):
    """A[i] where pc holds; branches that cannot be taken there are dropped"""
    if depth > 12:
        return sel(A, i)
    def split(c, yes, no):
        if c is TRUE or ex.implied(pc, c):
            return yes(pc)
        if c is FALSE or ex.implied(pc, bnot(c)):
            return no(pc)
        return ite(c, yes(band(pc, c)), no(band(pc, bnot(c))))
    if A.k == 'amap':
        return split(band(le(A.a[1], i), lt(i, add(A.a[1], A.a[2]))), lambda p: thin(ex, amap_at(A, i), p),
                     lambda p: value_at(ex, A.a[0], i, p, depth+1))
    if A.k == 'store':
        return split(eq(i, A.a[1]), lambda p: A.a[2], lambda p: value_at(ex, A.a[0], i, p, depth+1))
    if A.k == 'aite':
        return split(A.a[0], lambda p: value_at(ex, A.a[1], i, p, depth+1), lambda p: value_at(ex, A.a[2], i, p, depth+1))
    return sel(A, i)


def thin(ex, v, pc):
    while True:
        t = single_atom(v) if v.k == 'poly' else v
        if t is None or t.k != 'ite':
            return v
        if ex.implied(pc, t.a[0]):
            v = t.a[1]
        elif ex.implied(pc, bnot(t.a[0])):
            v = t.a[2]
        else:
            return ite(t.a[0], thin(ex, t.a[1], band(pc, t.a[0])), thin(ex, t.a[2], band(pc, bnot(t.a[0]))))


def canon(ex, st, A, idx, n):
    """the n elements of A from idx on, as an array from 0 that holds nothing else"""
    k = var('K!w', 'I')
    v = value_at(ex, A, add(idx, k), band(st.pc, le(num(0), k), lt(k, n)))
    z = mk('aconst', (num(0, A.s[1:]),), A.s)
    return amap(z, num(0), n, lambda j: subst(v, {single_atom(k): j}))


def r2c(ex, st, v, t, i, a):
    n = planlen(ex, st, v[0], 0, i.dbg)
    nc = add(idiv(n, num(2)), num(1))
    ox, xi = window(ex, st, v[1], 8, n, 'fft input', i.dbg)
    oc, ci = window(ex, st, v[2], 16, nc, 'fft output', i.dbg)
    x, z = canon(ex, st, arr(ex, st, ox, 0), xi, n), num(0)
    for lane, f in ((0, 'dft_re'), (8, 'dft_im')):
        c = arr(ex, st, oc, lane)
        setarr(ex, st, oc, lane, amap(c, ci, nc, lambda k: app(f, (x, z, n, sub(k, ci)), 'R')), i.dbg)
    return None


def c2r(ex, st, v, t, i, a):
    n = planlen(ex, st, v[0], 1, i.dbg)
    nc = add(idiv(n, num(2)), num(1))
    oc, ci = window(ex, st, v[1], 16, nc, 'inverse fft input', i.dbg)
    ox, xi = window(ex, st, v[2], 8, n, 'inverse fft output', i.dbg)
    re_, im_ = (canon(ex, st, arr(ex, st, oc, l), ci, nc) for l in (0, 8))
    x = arr(ex, st, ox, 0)
    setarr(ex, st, ox, 0, amap(x, xi, n, lambda k: app('idft', (re_, im_, num(0), n, sub(k, xi)), 'R')), i.dbg)
    for lane in (0, 8):   # FFTW may destroy the input of a c2r transform
        c = arr(ex, st, oc, lane)
        st.mem[(oc.name, lane)] = amap(c, ci, nc, lambda k: app('dft_junk', (re_, im_, num(lane), n, sub(k, ci)), 'R'))
    return None


def base():
    h = Handlers()
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]I.*EEPKcRKS3_$', string_ctor)
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]EPKcRKS3_$', string_ctor)
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]Ev$', string_empty)
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev$', nothing)
    h.on(r'^_ZNSt7__cxx115stoul', stoul)
    h.on(r'^pthread_mutex_(un)?lock$', zero)
    h.on(r'^__gthrw__?pthread', zero)
    h.on(r'^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$', string_eq)
    h.on(r'^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES\w_$', string_eqs)
    h.on(r'^_ZSteqIcEN9__gnu_cxx11__enable_if', string_eqs)
    h.on(r'^_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$', lambda *q: bnot(string_eq(*q)))
    h.on(r'^_ZStneIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES\w_$', lambda *q: bnot(string_eqs(*q)))
    h.on(r'^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEPKc$', string_cmp)
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]E(RKS4_|OS4_)$', string_copy)
    h.on(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEaSE(RKS4_|OS4_)$', string_copy)
    h.on(r'^_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE[CD][12]Ev$', nothing)
    h.on(r'^_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv$', nothing)
    h.on(r'^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv$', c_str)
    h['strcmp'] = c_strcmp
    h['fftw_import_wisdom_from_string'] = import_wisdom
    h['fftw_forget_wisdom'] = nothing
    h['fftw_export_wisdom_to_string'] = lambda ex, st, v, t, i, a: ex.named_ptr('wisdom')
    h.on(r'^_Z13dream_err_msgPKc$', nothing)
    h.on(r'^_ZNSt(13runtime_error|11logic_error|16invalid_argument|9exception|12out_of_range)[CD][12]E', nothing)
    h['dv_require'] = must
    h['dv_require_started'] = require_started
    for f in ('fftw_plan_dft_r2c_1d', 'fftwf_plan_dft_r2c_1d'):
        h[f] = plan(0)
    for f in ('fftw_plan_dft_c2r_1d', 'fftwf_plan_dft_c2r_1d'):
        h[f] = plan(1)
    for f in ('fftw_execute_dft_r2c', 'fftwf_execute_dft_r2c'):
        h[f] = r2c
    for f in ('fftw_execute_dft_c2r', 'fftwf_execute_dft_c2r'):
        h[f] = c2r
    h['fftw_destroy_plan'] = nothing
    return h


# ------------------------------------------------------------------ contracts in place of bodies
def lanes_of(ex, st, p, loc):
    """scalar (non pointer) lanes of a struct object as a tuple, by offset"""
    o = ex.objs[p.a[0]]
    out = []
    for (on, lane), v in sorted(((k, v) for k, v in st.mem.items() if k[0] == o.name), key=lambda q: q[0][1]):
        if v.s in 'IRB':
            out.append(v)
    return tup(*out)


def opaque(label, dsl, facts=None, ret='I', env0=None, pre=None):
    """Contract of a callee: what it may read and write, and its result, as
    uninterpreted functions of its arguments.  dsl: one word per parameter:
      name            scalar passed by value
      *this / skip    ignored
      name:in[len]    reads len doubles      name:out[len]  overwrites
      name:io[len]    updates  name:io1[len]  updates elementwise (io0, io10: overwrites if m is 0)
      name:plan[len]  FFT object of that length
      name:scr[len]  scratch of len doubles
      name:fft[len]   FFTVec of at least len    name:fftc[len]  FFTCVec
      name:att[len]   Attenuation whose transform length is len
      name:rows[len]  table of L pointers to rows of at least len doubles
      name:ptr        pointer passed through"""
    params = dsl.split()

    def h(ex, st, v, t, i, a):
        if len(v) != len(params):
            raise Unsupported('call of %s with %d arguments, contract has %d' % (label, len(v), len(params)))
        env = {}
        for p, x in zip(params, v):
            if ':' not in p:
                env[p] = x
        if env0:
            env.update(env0(env))
        for c in pre(env) if pre else []:
            ex.obl('invariant', 'precondition of %s' % label, st.pc, c, i.dbg)
        key = []
        outs = []
        for p, x in zip(params, v):
            if p in ('skip', '*this'):
                continue
            if ':' not in p:
                key.append(x)
                continue
            nm, kd = p.split(':')
            m = re.match(r'(\w+)(?:/(\d+))?(?:\[(.*)\])?$', kd)
            kd, S8, ln = m.group(1), int(m.group(2) or 8), m.group(3)
            n = evalen(ln, env) if ln else None
            if kd in ('apod', 'apodw'):     # weights, read only for the user-defined window
                cond = band(env['do_apod'], eq(env['am'], num(7)))
                s2 = State(band(st.pc, cond), st.mem)
                o, idx = window(ex, s2, x, 8, n, '%s argument of %s:' % (nm, label), i.dbg)
                z = T.NULLABLE.get(o.name)
                if z is not None and ex.check_bounds:
                    ex.obl('valid-pointer', '%s argument of %s is null' % (nm, label), s2.pc, bnot(z), i.dbg)
                if kd == 'apodw':
                    key.append(canon(ex, s2, arr(ex, st, o, 0), idx, ite(cond, n, num(0))))
                    continue
                key += [arr(ex, st, o, 0), idx]
                continue
            if kd == 'opt':      # read only if env['<name>?']
                cond = env[nm + '?']
                s2 = State(band(st.pc, cond), st.mem)
                o, idx = window(ex, s2, x, S8, n, '%s argument of %s:' % (nm, label), i.dbg)
                key.append(canon(ex, s2, arr(ex, st, o, 0), idx, ite(cond, n, num(0))))
                continue
            if kd == 'delay':    # one common delay, or one per observation point
                n = ite(eq(env['type'], num(0)), num(1), n)
                kd = 'inw'
            if kd in ('focal', 'focalw'):    # one focal depth, or one delay per element
                n = ite(eq(env['fm'], num(7)), n, num(1))
                kd = 'inw' if kd == 'focalw' else 'in'
            if kd == 'inw':      # like in, whatever the buffer holds beyond the window
                o, idx = window(ex, st, x, S8, n, '%s argument of %s:' % (nm, label), i.dbg)
                key.append(canon(ex, st, arr(ex, st, o, 0), idx, n))
                continue
            old = TRUE
            if kd in ('io0', 'io10'):
                kd, old = kd[:-1], bnot(eq(env['m'], num(0)))
            if kd in ('in', 'out', 'io', 'add', 'io1', 'scr'):
                o, idx = window(ex, st, x, S8, n, '%s argument of %s:' % (nm, label), i.dbg)
                A_ = arr(ex, st, o, 0)
                if kd == 'in':
                    key += [A_, idx]
                elif kd == 'scr':
                    for l in range(0, S8, 8):
                        A_ = arr(ex, st, o, l)
                        st.mem[(o.name, l)] = amap(A_, idx, n, lambda k: app(label + '.' + nm, (num(l), sub(k, idx)), 'R'))
                else:
                    outs.append((nm, kd, o, idx, n, A_, old))
            elif kd in ('fft', 'fftc'):
                S = 8 if kd == 'fft' else 16
                q = ex.load(st, x, ('ptr',), i.dbg)
                o, idx = window(ex, st, q, S, n, '%s argument of %s:' % (nm, label), i.dbg)
                for l in ((0,) if S == 8 else (0, 8)):
                    A_ = arr(ex, st, o, l)
                    st.mem[(o.name, l)] = amap(A_, idx, n, lambda k: app(label + '.' + nm, (num(l), A_, sub(k, idx)), 'R'))
            elif kd == 'att':
                p0 = ex.prune(ex.resolve(x), st.pc)
                if p0.k != 'ptr':
                    raise Unsupported('attenuation object %s' % p0)
                ln_ = ex.load(st, padd(p0, num(8)), ('i', 64), i.dbg)
                dt_ = ex.load(st, padd(p0, num(16)), ('double',), i.dbg)
                al_ = ex.load(st, padd(p0, num(24)), ('double',), i.dbg)
                f = ex.load(st, p0, ('ptr',), i.dbg)
                fl = ex.load(st, f, ('i', 64), i.dbg)
                ex.obl('invariant', 'attenuation filter length equals the response length (%s)' % label, st.pc,
                       band(eq(ln_, n), eq(fl, n)), i.dbg)
                pl = ex.load(st, padd(f, num(24)), ('ptr',), i.dbg)
                pn = planlen(ex, st, pl, 1, i.dbg)
                ex.obl('invariant', 'inverse transform length equals the filter length (%s)' % label, st.pc, eq(pn, n), i.dbg)
                key += [ln_, dt_, al_]
            elif kd == 'plan':    # FFT object whose transforms have the given length
                p0 = ex.prune(ex.resolve(x), st.pc)
                fl = ex.load(st, p0, ('i', 64), i.dbg)
                ns = [planlen(ex, st, ex.load(st, padd(p0, num(16 + 8*d)), ('ptr',), i.dbg), d, i.dbg) for d in (0, 1)]
                ex.obl('invariant', 'transform length equals the padded length (%s)' % label, st.pc, band(eq(fl, n), *[eq(q, n) for q in ns]), i.dbg)
            elif kd == 'rows':    # table of env['L'] pointers, each to at least n doubles
                o, idx = window(ex, st, x, 8, env['L'], '%s argument of %s:' % (nm, label), i.dbg)
                r = var('row!', 'I')        # any row
                s2 = State(band(st.pc, le(num(0), r), lt(r, env['L'])), st.mem)
                p0 = ex.load(s2, padd(x, mul(num(8), r)), ('ptr',), i.dbg)
                o, idx = window(ex, s2, p0, S8, n, 'row of the %s argument of %s:' % (nm, label), i.dbg)
                key += [arr(ex, st, o, 0), idx]
            elif kd == 'ptr':
                key.append(x)
            else:
                raise ValueError(kd)
        for (nm, kd, o, idx, n, A_, old) in outs:
            full = list(key)
            if kd == 'add':
                setarr(ex, st, o, 0, amap(A_, idx, n, lambda k: add(sel(A_, k), app(label + '.' + nm, tuple(full) + (sub(k, idx),), 'R'))), i.dbg)
                continue
            if kd == 'io1':   # element k of the result depends on element k before
                setarr(ex, st, o, 0, amap(A_, idx, n, lambda k: app(label + '.' + nm, (ite(old, sel(A_, k), num(0, 'R')),) + tuple(full) + (sub(k, idx),), 'R')), i.dbg)
                continue
            if kd == 'io':
                full = [canon(ex, st, A_, idx, ite(old, n, num(0)))] + full
            setarr(ex, st, o, 0, amap(A_, idx, n, lambda k: app(label + '.' + nm, tuple(full) + (sub(k, idx),), 'R')), i.dbg)
        ex.called.add(label)
        ex.lastkey = tuple(key)
        if ret is None:
            return None
        r = app(label + '.ret', tuple(key), ret)
        if facts:
            for f in facts(r):
                ex.facts.append(f)
        return r
    return h


def evalen(s, env):
    r = None
    for f in s.split('*'):
        f = f.strip()
        x = num(int(f)) if f.isdigit() else env[f]
        r = x if r is None else mul(r, x)
    return r

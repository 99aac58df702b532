"""Intrinsics, libm, allocation: assumed contracts on the C/C++ runtime."""
import re
from term import *
import sym
from sym import Unsupported, State, NONNEG

H = {}


def reg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def un(fname):
    return lambda ex, st, v, t, i, a: app(fname, (toreal(v[0]),), 'R')


def ifn(fname):
    return lambda ex, st, v, t, i, a: toreal(intfn(fname, v[0]))


def iifn(fname):
    return lambda ex, st, v, t, i, a: intfn(fname, v[0])


for base in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'log10', 'log2', 'exp2', 'cbrt', 'fabs'):
    for n in (base, base + 'f', base + 'l', 'llvm.%s.f64' % base, 'llvm.%s.f32' % base):
        H[n] = un(base)
for n, f in (('rint', 'rint'), ('nearbyint', 'rint'), ('roundeven', 'rint'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('round', 'round')):
    for q in (n, n + 'f', 'llvm.%s.f64' % n, 'llvm.%s.f32' % n):
        H[q] = ifn(f)
for n, f in (('lrint', 'rint'), ('llrint', 'rint'), ('lround', 'round'), ('llround', 'round'), ('lrintf', 'rint'), ('lroundf', 'round')):
    H[n] = iifn(f)
for w in ('i64', 'i32'):
    for z in ('f64', 'f32'):
        H['llvm.lrint.%s.%s' % (w, z)] = iifn('rint')
        H['llvm.llrint.%s.%s' % (w, z)] = iifn('rint')
        H['llvm.lround.%s.%s' % (w, z)] = iifn('round')


@reg('pow', 'powf', 'llvm.pow.f64', 'llvm.pow.f32')
def _pow(ex, st, v, t, i, a):
    return app('pow', (toreal(v[0]), toreal(v[1])), 'R')


@reg('llvm.powi.f64.i32')
def _powi(ex, st, v, t, i, a):
    return app('pow', (toreal(v[0]), toreal(v[1])), 'R')


@reg('atan2')
def _atan2(ex, st, v, t, i, a):
    return app('atan2', (v[0], v[1]), 'R')


@reg('hypot')
def _hypot(ex, st, v, t, i, a):
    return app('sqrt', (add(mul(v[0], v[0]), mul(v[1], v[1])),), 'R')


@reg('fmod')
def _fmod(ex, st, v, t, i, a):
    return app('fmod', (v[0], v[1]), 'R')


@reg('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma', 'llvm.fmuladd.f32', 'llvm.fma.f32')
def _fma(ex, st, v, t, i, a):
    return add(mul(v[0], v[1]), v[2])


@reg('fmax', 'llvm.maxnum.f64', 'fmaxf', 'llvm.maxnum.f32')
def _fmax(ex, st, v, t, i, a):
    return ite(lt(v[0], v[1]), v[1], v[0])


@reg('fmin', 'llvm.minnum.f64', 'fminf', 'llvm.minnum.f32')
def _fmin(ex, st, v, t, i, a):
    return ite(lt(v[1], v[0]), v[1], v[0])


@reg('llvm.smax.i64', 'llvm.smax.i32')
def _smax(ex, st, v, t, i, a):
    return ite(lt(v[0], v[1]), v[1], v[0])


@reg('llvm.smin.i64', 'llvm.smin.i32')
def _smin(ex, st, v, t, i, a):
    return ite(lt(v[1], v[0]), v[1], v[0])


@reg('llvm.umax.i64', 'llvm.umax.i32')
def _umax(ex, st, v, t, i, a):
    return ite(ex.icmp('ult', v[0], v[1], t[0]), v[1], v[0])


@reg('llvm.umin.i64', 'llvm.umin.i32')
def _umin(ex, st, v, t, i, a):
    return ite(ex.icmp('ult', v[1], v[0], t[0]), v[1], v[0])


@reg('llvm.abs.i64', 'llvm.abs.i32', 'abs', 'labs')
def _abs(ex, st, v, t, i, a):
    return ite(le(num(0), v[0]), v[0], neg(v[0]))


@reg('llvm.umul.with.overflow.i64')
def _umulo(ex, st, v, t, i, a):
    ex.assumptions.add('allocation sizes do not overflow')
    return tup(mul(v[0], v[1]), FALSE)


@reg('llvm.uadd.with.overflow.i64')
def _uaddo(ex, st, v, t, i, a):
    ex.assumptions.add('allocation sizes do not overflow')
    return tup(add(v[0], v[1]), FALSE)


@reg('llvm.is.constant.i64', 'llvm.is.constant.f64', 'llvm.is.constant.i32')
def _isc(ex, st, v, t, i, a):
    return FALSE


@reg('llvm.expect.i64', 'llvm.expect.i1')
def _exp(ex, st, v, t, i, a):
    return v[0]


@reg('llvm.copysign.f64')
def _cps(ex, st, v, t, i, a):
    return app('copysign', (v[0], v[1]), 'R')


# ---------------------------------------------------------------- memory
def alloc(ex, st, size, name, i, a, zero=False):
    stride = None
    length = None
    if is_const(size):
        length = size
    else:
        import math
        g = 0
        c0 = 0
        for m, c in size.a:
            if m == ():
                c0 = int(c)
            else:
                g = math.gcd(g, abs(int(c)))
        stride = g
        q = c0 // g if g else 0
        from fractions import Fraction
        length = add(idiv(sub(size, num(c0)), num(g)), num(c0 // g))
    o = ex.newobj(name, stride, length, 'heap')
    o.zero = zero
    o.owner = ex.loopstack[-1].id if ex.loopstack else None
    ex.obl('alloc', 'allocation size of %s' % name, st.pc, le(num(0), size), i.dbg)
    o.bytes = size
    if ('free:' + o.name, 0) in st.mem:
        st.mem[('free:' + o.name, 0)] = num(0)
    return ptr(o.name, num(0))


@reg('malloc', '_Znwm', '_Znam', 'fftw_malloc', 'fftwf_malloc', '_ZnwmSt11align_val_t')
def _malloc(ex, st, v, t, i, a):
    return alloc(ex, st, v[0], 'heap.' + a.fn.name[:24], i, a)


@reg('calloc')
def _calloc(ex, st, v, t, i, a):
    return alloc(ex, st, mul(v[0], v[1]), 'heap.' + a.fn.name[:24], i, a, True)


@reg('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'fftw_free', 'fftwf_free', '_ZdlPvmSt11align_val_t')
def _free(ex, st, v, t, i, a):
    if ex.check_bounds:
        ex.release(st, st.pc, v[0], i.dbg)
    return None


def esort(ex, o, lane, st):
    v = st.mem.get((o.name, lane))
    if v is not None:
        return v.s[1:] if v.s.startswith('A') else v.s
    return None


@reg('llvm.memset.p0.i64', 'memset')
def _memset(ex, st, v, t, i, a):
    p, val, n = v[0], v[1], v[2]
    p = ex.resolve(p)
    if p.k == 'pite':
        for c, q in ((p.a[0], p.a[1]), (bnot(p.a[0]), p.a[2])):
            s2 = State(band(st.pc, c), dict(st.mem))
            if s2.pc is FALSE:
                continue
            _memset(ex, s2, [q, val, n], t, i, a)
            for k, nv in s2.mem.items():
                ov = st.mem.get(k)
                if ov is None:
                    ov = ex.lane_init(ex.objs[k[0]], k[1], nv.s[1:] if nv.s.startswith('A') else nv.s)
                st.mem[k] = ite(c, nv, ov) if nv is not ov else ov
        return v[0]
    if p.k != 'ptr':
        ex.obl('valid-pointer', 'memset', st.pc, bor(eq(n, num(0)), FALSE), i.dbg)
        return v[0]
    if not (is_const(val) and cval(val) == 0):
        raise Unsupported('memset non-zero')
    o = ex.objs[p.a[0]]
    ex.live(o, st, i.dbg, 'memset of')
    ex._memkeys = st.mem
    if o.stride is None and not is_const(n):
        o.stride = 8
    if o.stride is None:
        off = int(cval(p.a[1]))
        nn = int(cval(n))
        for (on, lane), cv in list(st.mem.items()):
            if on == o.name and off <= lane < off + nn:
                st.mem[(on, lane)] = NULL if cv.s == 'P' else num(0, cv.s)
        # lanes not yet touched
        if off == 0 and is_const(o.length or num(-1)) and nn >= cval(o.length):
            o.zero = True
        else:
            o.zeror = getattr(o, 'zeror', []) + [(off, off + nn)]
            o.zero = True   # allocas: remaining lanes are undefined anyway
        return v[0]
    lane, idx = ex.cell(o, p.a[1], o.stride)
    if lane != 0:
        raise Unsupported('memset at lane %d' % lane)
    if is_const(n) and cval(n) % o.stride:
        raise Unsupported('memset partial element')
    cnt = idiv(n, num(o.stride))
    if o.length is not None and ex.check_bounds:
        ex.obl('bounds', 'memset %s' % o.label, st.pc, bor(le(cnt, num(0)), band(le(num(0), idx), le(add(idx, cnt), o.length))), i.dbg)
    if not o.writable and ex.check_bounds:
        ex.obl('frame', 'memset of %s' % o.label, st.pc, FALSE, i.dbg)
    lanes = [l for (on, l) in st.mem if on == o.name]
    if not lanes:
        lanes = [0, 8] if o.stride == 16 else [0]
    if o.stride == 16 and 0 in lanes and 8 not in lanes:
        lanes = [0, 8]
    if o.stride == 16 and lanes == [8]:
        lanes = [0, 8]
    for l in lanes:
        cur = st.mem.get((o.name, l))
        if cur is None:
            cur = ex.lane_init(o, l, 'R')
        if o.kind == 'heap' and o.length is not None and cnt is o.length and is_const(idx) and cval(idx) == 0:
            st.mem[(o.name, l)] = mk('aconst', (num(0, cur.s[1:]),), cur.s)     # whole object
        else:
            st.mem[(o.name, l)] = afill(cur, idx, cnt, num(0, cur.s[1:]))
    return v[0]


def storelane(ex, st, d, od, off, cv, nn, loc):
    ex._memkeys = st.mem
    lane, idx = ex.cell(od, d.a[1], od.stride)
    ex.bounds(od, idx, st, loc, 'memcpy to', d.a[1], nn)
    if not od.writable and ex.check_bounds:
        ex.obl('frame', 'memcpy to %s' % od.label, st.pc, FALSE, loc)
    key = (od.name, lane + off)
    a = st.mem.get(key)
    if a is None:
        a = ex.lane_init(od, lane + off, cv.s)
    st.mem[key] = store(a, idx, cv)


@reg('llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove')
def _memcpy(ex, st, v, t, i, a):
    d, s, n = ex.resolve(v[0]), ex.resolve(v[1]), v[2]
    if d.k != 'ptr' or s.k != 'ptr':
        if is_const(n) and cval(n) == 0:
            return v[0]
        raise Unsupported('memcpy %s <- %s' % (d, s))
    od, os_ = ex.objs[d.a[0]], ex.objs[s.a[0]]
    ex.live(od, st, i.dbg, 'memcpy to')
    ex.live(os_, st, i.dbg, 'memcpy from')
    if not od.writable and ex.check_bounds:
        ex.obl('frame', 'memcpy to %s' % od.label, st.pc, FALSE, i.dbg)
    if is_const(n) and (od.stride is None or os_.stride is None or is_const(d.a[1]) and od.stride is None):
        if od.stride is None and os_.stride is None:
            do, so, nn = int(cval(d.a[1])), int(cval(s.a[1])), int(cval(n))
            for (on, lane), cv in list(st.mem.items()):
                if on == os_.name and so <= lane < so + nn:
                    st.mem[(od.name, do + lane - so)] = cv
            if os_.kind in ('param',):
                ex.assumptions.add('memcpy of partially read struct %s' % os_.label)
            return v[0]
        nn = int(cval(n))
        if od.stride is None and not is_const(d.a[1]):
            od.stride = nn
        if os_.stride is None and not is_const(s.a[1]):
            os_.stride = nn
        if od.stride is not None and os_.stride is None and nn <= od.stride:
            so = int(cval(s.a[1]))
            for (on, lane), cv in list(st.mem.items()):
                if on == os_.name and so <= lane < so + nn:
                    storelane(ex, st, d, od, lane - so, cv, nn, i.dbg)
            return v[0]
        if od.stride is None and os_.stride is not None and nn <= os_.stride:
            do = int(cval(d.a[1]))
            lanes = sorted(l for (on, l) in st.mem if on == os_.name) or ([0, 8] if nn == 16 else [0])
            ex._memkeys = st.mem
            l0, idx = ex.cell(os_, s.a[1], os_.stride)
            ex.bounds(os_, idx, st, i.dbg, 'memcpy from', s.a[1], nn)
            for l in (lanes if nn != 16 else [0, 8]):
                if l0 <= l < l0 + nn:
                    srt = esort(ex, os_, l, st) or 'R'
                    src = st.mem.get((os_.name, l))
                    if src is None:
                        src = ex.lane_init(os_, l, srt)
                        st.mem[(os_.name, l)] = src
                    st.mem[(od.name, do + l - l0)] = sel(src, idx)
            return v[0]
        raise Unsupported('memcpy struct/array')
    if od.stride is None:
        od.stride = os_.stride or 8
    if os_.stride is None:
        os_.stride = od.stride
    if od.stride != os_.stride:
        raise Unsupported('memcpy strides %s %s' % (od.stride, os_.stride))
    S = od.stride
    ex._memkeys = st.mem
    ld, di = ex.cell(od, d.a[1], S)
    ls, si = ex.cell(os_, s.a[1], S)
    cnt = idiv(n, num(S))
    for what, o, idx in (('memcpy to', od, di), ('memcpy from', os_, si)):
        if o.length is not None and ex.check_bounds:
            ex.obl('bounds', '%s %s' % (what, o.label), st.pc, bor(le(cnt, num(0)), band(le(num(0), idx), le(add(idx, cnt), o.length))), i.dbg)
    lanes = set(l for (on, l) in st.mem if on in (os_.name, od.name)) or ({0, 8} if S == 16 else {0})
    for l in sorted(lanes):
        srt = esort(ex, os_, l, st) or esort(ex, od, l, st) or 'R'
        src = st.mem.get((os_.name, l))
        if src is None:
            src = ex.lane_init(os_, l, srt)
        dst = st.mem.get((od.name, l))
        if dst is None:
            dst = ex.lane_init(od, l, srt)
        st.mem[(od.name, l)] = acopy(dst, di, src, si, cnt)
    return v[0]


# ---------------------------------------------------------------- threads / env
@reg('_ZNSt6thread20hardware_concurrencyEv')
def _hwc(ex, st, v, t, i, a):
    r = app('hwconc', (), 'I')
    ex.facts.append(le(num(0), r))
    return r


@reg('getenv')
def _getenv(ex, st, v, t, i, a):
    return ex.named_ptr('env:%s' % (v[0].a[0] if v[0].k == 'ptr' else '?'))


@reg('strtoul')
def _strtoul(ex, st, v, t, i, a):
    r = app('stoul', (v[0],), 'I')
    ex.facts.append(le(num(0), r))
    return r


def abort_handler(kind):
    def h(ex, st, v, t, i, a):
        ex.events.append(('abort', st.pc, kind, i.dbg))
        return None, None, [State(st.pc, st.mem)]
    return h


for n in ('abort', 'exit', '__cxa_throw', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
          '_ZSt9terminatev', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '__cxa_throw_bad_array_new_length', '_ZSt20__throw_system_errori',
          '_ZSt25__throw_bad_function_callv', '__assert_fail', '_ZSt24__throw_invalid_argumentPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
    H[n] = abort_handler(n)
H['__cxa_allocate_exception'] = lambda ex, st, v, t, i, a: alloc(ex, st, v[0], 'exc', i, a)
H['__cxa_free_exception'] = lambda ex, st, v, t, i, a: None
H['llvm.trap'] = abort_handler('trap')
H['__errno_location'] = lambda ex, st, v, t, i, a: ex.named_ptr('errno')


def lookup(name):
    h = H.get(name)
    if h is not None:
        return h
    return None

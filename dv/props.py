"""The contracts: which function, which specification, which property."""
import fnmatch
import ctypes
import re
import rt, unit, sym, vc, replay
from unit import Unit
import term as T
from term import *

COMMON = ['src/attenuation.cc', 'src/dream_error.cc', 'src/affinity.cc']
UNITS = {}


def U(name, *a, **k):
    u = Unit(name, *a, **k)
    UNITS[name] = u
    return u


def enum(nm, hi):
    v = var(nm, 'I')
    return [le(num(0), v), le(v, num(hi))]


LEVEL = enum('level', 4)

# ------------------------------------------------------------------ kernels
S = ' dx dy dt nt:n delay v cp h:w[nt] level:i'
G = ' xo yo zo'
AT = ' att:O xc:O x:O'
H = ('h', 'h', 0, 'AR')
ATT = rt.opaque('Attenuation::att', 'skip xc:skip x:skip r it h:add[nt] ai el', ret=None)


def att_filter(ex, st, v, t, i, a):
    """Attenuation::att(xc, x, r, it, h, ai, element): h[j + element*len] += ai * green(r, it, j)"""
    this, xc, x, r, it, h, ai, el = v
    n = var('nt', 'I')
    o, idx = rt.window(ex, st, h, 8, n, 'h argument of Attenuation::att:', i.dbg)
    A = rt.arr(ex, st, o, 0)
    if not (is_const(el) and cval(el) == 0):
        raise rt.Unsupported('attenuation of another row')
    ex.called.add('Attenuation::att')
    if this.k == 'ptr':
        this = rt.lanes_of(ex, st, this, i.dbg)
    rt.setarr(ex, st, o, 0, amap(A, idx, n, lambda k: add(sel(A, k), mul(ai, app('green', (this, r, it, sub(k, idx)), 'R')))), i.dbg)
    return None


def kh():
    return rt.base().on(r'^_ZN11Attenuation3attE', att_filter)


KER = [  # key, file, function, member, geometry params, weight, requires
    ('line', 'dreamline', r'Line::dreamline_serial', True, ' a', ''),
    ('rect', 'dreamrect', r'dreamrect_serial', False, ' a b', ' weight'),
    ('circ', 'dreamcirc', r'dreamcirc_serial', False, ' R', ' weight'),
    ('rect_f', 'dreamrect_f', r'Rect_f::dreamrect_f_serial', True, ' a b met:i f', ''),
    ('circ_f', 'dreamcirc_f', r'Circ_f::dreamcirc_f_serial', True, ' R met:i f', ''),
    ('sphere', 'dreamsphere', r'Sphere::dreamsphere_serial', True, ' R C', ''),
    ('cylind', 'dreamcylind', r'Cylind::dreamcylind_serial', True, ' a b C', ' weight'),
]
for key, fil, fn, mem, geo, w in KER:
    src = ['src/%s.cc' % fil] + COMMON + ['spec/kernels.cc']
    th = 'this:O' if mem else ''
    U('ker.' + key, src, '^%s\\(double,' % fn, 'spec_' + key, th + G + geo + S + w, [H], LEVEL + enum('met', 7),
      specparams=G + geo + S + w, handlers=kh())
    U('ker.%s.att' % key, src, '^%s\\(Attenuation' % fn, 'spec_%s_att' % key, th + AT + G + geo + S + w, [H], LEVEL + enum('met', 7),
      specparams=AT + G + geo + S + w, handlers=kh())

# ------------------------------------------------------------------ attenuation
N_ = var('n', 'I')


def att_mem(ex, st):
    """class invariant of Attenuation: its transforms have length m_len = n"""
    st.mem[('att', 8)] = N_
    f = ex.named_ptr('att@0')
    st.mem[('att', 0)] = f
    st.mem[(f.a[0], 0)] = N_
    p = ex.named_ptr('att@0*@24')
    st.mem[(f.a[0], 24)] = p
    st.mem[(p.a[0], 0)] = N_
    st.mem[(p.a[0], 8)] = num(1)
    for o, s in (('x', 8), ('xc', 16)):
        b = ex.newobj('buf.' + o, s, N_, 'param', label=o + ' buffer')
        st.mem[(o, 0)] = ptr(b.name, num(0))


AP = 'att:o xc:o x:o r it:i h:w[hl] ai el:i'


def attp():
    hl = var('hl', 'I')
    el = var('el', 'I')
    e = ite(lt(num(0), el), el, num(0))
    return [lt(num(0), N_), le(add(mul(e, N_), N_), hl)]


unit.EXTRA['hl'] = var('hl', 'I')
U('att', COMMON + ['spec/att.cc'], r'^Attenuation::att\(', 'spec_att', AP, [H], attp, handlers=rt.base(), premem=att_mem, ret=False)

# ------------------------------------------------------------------ array helper functions
ARR = ['src/arr_functions.cc', 'spec/arr.cc']


def o1(*names):
    return [(n, n, 0, 'R') for n in names]


U('arr.center_pos', ARR, r'^center_pos\(', 'spec_center_pos', 'x:p y:p z:p i:n gx:r[num] gy:r[num] gz:r[num]',
  [(n, n, 0, 'R') for n in ('x', 'y', 'z')], lambda: [lt(var('i', 'I'), var('num', 'I'))], ret=False)
U('arr.max_dim', ARR, r'^max_dim_arr\(', 'spec_max_dim', 'x_max:p y_max:p r_max:p gx:r[num] gy:r[num] gz:r[num] num:n',
  [(n, n, 0, 'R') for n in ('x_max', 'y_max', 'r_max')], lambda: [lt(num(0), var('num', 'I'))], ret=False)
U('arr.focusing', ARR, r'^focusing\(', 'spec_focusing', 'fm:i f gx gy X Y D cp d:p', [('d', 'd', 0, 'R')], enum('fm', 7), ret=False)
U('arr.steering', ARR, r'^beamsteering\(', 'spec_steering', 'sm:i theta phi gx gy X Y D cp d:p', [('d', 'd', 0, 'R')], enum('sm', 3), ret=False)
U('arr.apod', ARR, r'^apodization\(', 'spec_apod', 'am:i n:n vec:r[num] w:p gx gy R par', [('w', 'w', 0, 'R')],
  lambda: enum('am', 7) + [lt(var('n', 'I'), var('num', 'I'))], ret=False)
U('arr.distance', ARR, r'^distance\(', 'spec_distance', 'xo yo zo xs ys zs r:p', [('r', 'r', 0, 'R')], ret=False)
U('arr.superpos', ARR, r'^superpos\(', 'spec_superpos', 'h:r[nt] ha:w[nt] nt:n', [('ha', 'ha', 0, 'AR')], ret=False)
unit.EXTRA['num'] = var('num', 'I')
unit.EXTRA['nt'] = var('nt', 'I')

# ------------------------------------------------------------------ arrays
SD = ' dx dy dt nt delay v cp h:io1[nt] level'
AD = ' att:att[nt] xc:fftc[nt] x:fft[nt]'


def kernel_contracts(h=None):
    """contracts of the single-element kernels, in place of their bodies"""
    h = h or rt.base()
    for key, fil, fn, mem, geo, w in KER:
        g = ''.join(' ' + x.split(':')[0] for x in geo.split())
        th = 'skip' if mem else ''
        n = fn.split('::')[-1]
        h.on(r'^_Z(N\d+\w+?)?%d%sEd|^_Z%d%sd' % (len(n), n, len(n), n), rt.opaque(key, th + G + g + SD + w, facts=status))
        h.on(r'^_Z(N\d+\w+?)?%d%sE?R11Attenuation' % (len(n), n), rt.opaque(key + '.att', th + AD + G + g + SD + w, facts=status))
    return h


def status(r):
    return [le(num(0), r), le(r, num(3))]


def zero_h(ex, st):
    o = ex.objs['h']
    st.mem[('h', 0)] = mk('aconst', (num(0, 'R'),), 'AR')


def arr_mem(ex, st):
    zero_h(ex, st)
    if 'att' in ex.objs:
        att_inv(ex, st, var('nt', 'I'))


def att_inv(ex, st, n):
    st.mem[('att', 8)] = n
    f = ex.named_ptr('att@0')
    st.mem[('att', 0)] = f
    st.mem[(f.a[0], 0)] = n
    p = ex.named_ptr('att@0*@24')
    st.mem[(f.a[0], 24)] = p
    st.mem[(p.a[0], 0)] = n
    st.mem[(p.a[0], 8)] = num(1)
    for o, s in (('x', 8), ('xc', 16)):
        b = ex.newobj('buf.' + o, s, n, 'param', label=o + ' buffer')
        st.mem[(o, 0)] = ptr(b.name, num(0))


AQ = ' dx dy dt nt:n delay v cp num:n gx:r[num] gy:r[num] gz:r[num] fm:i focal:r[foclen] sm:i theta phi apod:r[num]? do_apod:b am:i par h:w[nt] level:i'


def arrreq():
    n, f = var('num', 'I'), var('foclen', 'I')
    ud = eq(var('fm', 'I'), num(7))
    return (LEVEL + enum('fm', 7) + enum('sm', 3) + enum('am', 7) + [lt(num(0), n), le(num(1), f), bor(bnot(ud), le(n, f)),
            bor(bnot(var('isnull:apod', 'B')), bnot(eq(var('am', 'I'), num(7))), bnot(var('do_apod', 'B')))])


unit.EXTRA['foclen'] = var('foclen', 'I')
for key, cls, geo in (('rect', 'ArrRect', ' a b'), ('circ', 'ArrCirc', ' R'), ('cylind', 'ArrCylind', ' a b C')):
    cy = 'cyl:O' if key == 'cylind' else ''
    src = ['src/dream_arr_%s.cc' % key, 'src/dream%s.cc' % key] + ARR + COMMON
    fn = '%s::dream_arr_%s_serial' % (cls, key)
    U('arr.' + key, src, r'^%s\(%sdouble' % (fn, 'Cylind&, ' if cy else ''), 'spec_arr_' + key, 'this:O ' + cy + G + geo + AQ, [H], arrreq,
      specparams=cy + G + geo + AQ, handlers=kernel_contracts(), premem=arr_mem)
    U('arr.%s.att' % key, src, r'^%s\(%sAttenuation' % (fn, 'Cylind&, ' if cy else ''), 'spec_arr_%s_att' % key, 'this:O ' + cy + AT + G + geo + AQ, [H], arrreq,
      specparams=cy + AT + G + geo + AQ, handlers=kernel_contracts(), premem=arr_mem)

# ------------------------------------------------------------------ annular array
ANNU = ['src/dream_arr_annu.cc', 'src/dreamcirc.cc'] + COMMON + ['spec/annu.cc']
rings = var('rings', 'I')
unit.EXTRA['rings'] = rings
unit.EXTRA['nr'] = var('nr', 'I')
ringdef = [lt(num(0), var('num', 'I')), eq(rings, idiv(add(var('num', 'I'), num(1)), num(2)))]
U('annu.radii', ANNU, r'^ArrAnnu::annular_disc_radii\(', 'spec_annu_radii', 'this:O ring:w[rings] Gr:r[num] num:n', [('ring', 'ring', 0, 'AR')], ringdef, ret=False)
U('annu.focus', ANNU, r'^ArrAnnu::focusing_annular\(', 'spec_annu_focus', 'this:O fm:i f r R cp', [], enum('fm', 7))
U('annu.apod', ANNU, r'^ArrAnnu::apodization_annular\(', 'spec_annu_apod', 'this:O am:i n:n apod:r[num] r R par', [], enum('am', 7) + [lt(var('n', 'I'), var('num', 'I'))])
U('annu.resp', ANNU, r'^ArrAnnu::resp_annular\(', 'spec_annu_resp', 'this:O disc:r[nr*nt] ring:w[rings*nt] nt:n n:n', [('ring', 'ring', 0, 'AR')],
  [lt(var('n', 'I'), rings), lt(mul(num(2), var('n', 'I')), var('nr', 'I'))], ret=False)
U('annu.superpos', ANNU, r'^ArrAnnu::superpos_annular\(', 'spec_annu_superpos', 'this:O ring:r[rings*nt] h:w[nt] nt:n w delay n:n dt', [H],
  [lt(var('n', 'I'), rings)], ret=False)
NQ = ' dx dy dt nt:n delay v cp num:n Gr:r[num] fm:i focal:r[foclen] apod:r[num]? do_apod:b am:i par h:w[nt] level:i'


def annureq():
    n, f = var('num', 'I'), var('foclen', 'I')
    ud = eq(var('fm', 'I'), num(7))
    return (LEVEL + enum('fm', 7) + enum('am', 7) + [lt(num(0), n), le(num(1), f), bor(bnot(ud), le(idiv(add(n, num(1)), num(2)), f)),
            bor(bnot(var('isnull:apod', 'B')), bnot(eq(var('am', 'I'), num(7))), bnot(var('do_apod', 'B')))])

def annu_contracts():
    """annu.focus / annu.apod prove ArrAnnu::focusing_annular == ring_focus and apodization_annular == window;
    the callers use that contract, not the bodies"""
    h = kernel_contracts()

    def focus(skip):
        return lambda ex, st, v, t, i, a: app('annu.focus', tuple(v[skip:]), 'R')

    def apod(ex, st, v, t, i, a):
        th, am, n, ap, r, R, par = v
        c = eq(am, num(7))
        ud = ite(c, ex.load_g(st, c, padd(ap, mul(n, num(8))), ('double',), i.dbg), num(0, 'R'))
        return app('annu.window', (am, ud, r, R, par), 'R')
    h.on(r'^_ZN7ArrAnnu16focusing_annular', focus(1))
    h.on(r'^_ZL10ring_focus', focus(0))
    h.on(r'^_ZN7ArrAnnu19apodization_annular', apod)
    h.on(r'^_ZL6window', lambda ex, st, v, t, i, a: app('annu.window', tuple(v), 'R'))
    return h


U('arr.annu', ANNU, r'^ArrAnnu::dream_arr_annu_serial\(double', 'spec_arr_annu', 'this:O ' + G + NQ, [H], annureq, specparams=G + NQ, handlers=annu_contracts(), premem=arr_mem)
U('arr.annu.att', ANNU, r'^ArrAnnu::dream_arr_annu_serial\(Attenuation', 'spec_arr_annu_att', 'this:O ' + AT + G + NQ, [H], annureq, specparams=AT + G + NQ, handlers=annu_contracts(), premem=arr_mem)

# ------------------------------------------------------------------ entry points (all observation points)
unit.EXTRA['No'] = var('No', 'I')


def drvreq():
    return LEVEL + enum('type', 1) + [lt(num(0), var('No', 'I')), lt(num(0), var('nt', 'I')), le(ite(eq(var('type', 'I'), num(0)), num(1), var('No', 'I')), var('dlen', 'I'))]


def running_out(cls):
    """the run flag, as is_running() reports it"""
    def code(r):
        f = r.ex.m.get('_ZN%s10is_runningEv' % (cls if cls.startswith('3DAS') else '%d%s' % (len(cls), cls)))
        if f is None:
            raise rt.Unsupported('no is_running() of %s' % cls)
        return as_int(r.ex.run_function(f, [r.ex.named_ptr('this')][:len(f.params)], r.st)[1])

    def spec(r):
        return as_int(r.st.mem.get((r.ex.globptr('@dv_running').a[0], 0), num(0)))
    return [('running', code, spec)]


def as_int(v):
    return ite(v, num(1), num(0)) if v.s == 'B' else v


unit.EXTRA['dlen'] = var('dlen', 'I')
DRV = ' dx dy dt nt:n type:i delay:r[dlen] v cp h:w[No*nt] level:i'
for key, fil, fn, mem, geo, w in KER:
    cls = {'rect': 'Rect', 'circ': 'Circ'}.get(key) or fn.split('::')[0]
    src = ['src/%s.cc' % fil] + COMMON + ['spec/drivers.cc']
    geo2 = geo.replace('met:i f', 'met:i f')
    U('drv.' + key, src, r'^%s::%s\(double, double\*' % (cls, fil), 'spec_' + key, 'this:O alpha Ro:r[3*No] No:n' + geo2 + DRV, [H], lambda: drvreq() + enum('met', 7),
      handlers=kernel_contracts(), extra=running_out(cls))


# entry points of the arrays: the serial functions by contract
def arr_contracts():
    h = kernel_contracts()
    Q = ' dx dy dt nt delay v cp num gx:in[num] gy:in[num] gz:in[num] fm focal:focal[num] sm theta phi apod:apod[num] do_apod am par h:io1[nt] level'
    for key, cls, geo in (('rect', 'ArrRect', ' a b'), ('circ', 'ArrCirc', ' R'), ('cylind', 'ArrCylind', ' a b C')):
        cy = ' skip' if key == 'cylind' else ''
        n = 'dream_arr_%s_serial' % key
        pre = r'^_ZN%d%s%d%sE' % (len(cls), cls, len(n), n) + ('R6Cylind' if cy else '')
        h.on(pre + 'd', rt.opaque('arr.' + key, 'skip' + cy + G3 + geo + Q, facts=status))
        h.on(pre + 'R11Attenuation', rt.opaque('arr.%s.att' % key, 'skip' + cy + AD + G3 + geo + Q, facts=status))
    Q = ' dx dy dt nt delay v cp num Gr:in[num] fm focal:focal[rings] apod:apod[rings] do_apod am par h:io1[nt] level'
    for att, pre in (('', 'd'), ('.att', 'R11Attenuation')):
        f = rt.opaque('arr.annu' + att, 'skip' + (AD if att else '') + G3 + Q, facts=status, env0=lambda e: {'rings': idiv(add(e['num'], num(1)), num(2))})
        h.on(r'^_ZN7ArrAnnu21dream_arr_annu_serialE' + pre, f)
    return h


G3 = ' xo yo zo'
AB = ' num:n G:r[3*num] fm:i focal:r[foclen] sm:i theta phi apod:r[num]? do_apod:b am:i par h:w[No*nt] level:i'
AA = ' num:n Gr:r[num] fm:i focal:r[foclen] apod:r[num]? do_apod:b am:i par h:w[No*nt] level:i'
DRQ = ' dx dy dt nt:n type:i delay:r[dlen] v cp'
for key, cls, geo in (('rect', 'ArrRect', ' a b'), ('circ', 'ArrCirc', ' R'), ('cylind', 'ArrCylind', ' a b C'), ('annu', 'ArrAnnu', '')):
    el = {'annu': 'circ'}.get(key, key)
    src = ['src/dream_arr_%s.cc' % key, 'src/dream%s.cc' % el] + ARR[:1] + COMMON + ['spec/arrdrivers.cc']
    U('drv.arr_' + key, src, r'^%s::dream_arr_%s\(double, double\*' % (cls, key), 'spec_drv_arr_' + key,
      'this:O alpha Ro:r[3*No] No:n' + geo + DRQ + (AA if key == 'annu' else AB), [H],
      (lambda: drvreq() + annureq()) if key == 'annu' else (lambda: drvreq() + arrreq()), handlers=arr_contracts(), extra=running_out(cls))


# ------------------------------------------------------------------ closed-form responses
SIRS = ['extra_src/rect_sir.cc', 'extra_src/circ_sir.cc', 'extra_src/scirc_sir.cc', 'src/dream_error.cc', 'src/affinity.cc', 'spec/sirs.cc']
TV = ' dt nt:n delay v cp'
HN = [('h', 'h', 0, 'A')]
U('sir.rect', SIRS, r'^RectSir::rect_sir_serial\(', 'spec_rect_sir', 'this:O xo yo zo a b' + TV + ' h:w[nt]', HN)
U('sir.circ', SIRS, r'^circ_sir\(', 'spec_circ_sir', 'xo yo zo r' + TV + ' h:w[nt]', HN)
U('sir.angle', SIRS, r'^acos_acos\(', 'spec_acos_acos', 'a b', [])
U('sir.trapets', SIRS, r'^trapets_int\(', 'spec_trapets', 't1 t2 zo r r_cyl cp n:n', [])

def sir_lemmas():
    x, y, z, r = [scale(var(n, 'R'), Fraction(1, 1000)) for n in ('xo', 'yo', 'zo', 'r')]
    sq = lambda p: mul(p, p)
    rc = app('sqrt', (add(sq(x), sq(y)),), 'R')
    inner = app('sqrt', (add(sq(z), sq(sub(r, rc))),), 'R')
    outer = app('sqrt', (add(sq(z), sq(add(r, rc))),), 'R')
    return [('a sample has positive length', lt(num(0, 'R'), mul(var('cp', 'R'), var('dt', 'R')))), ('the nearest edge point is not nearer than the plane', le(z, inner)), ('the farthest edge point is not nearer than the nearest', le(inner, outer))]


U('sir.scirc', SIRS, r'^scirc_sir\(', 'spec_scirc_sir', 'xo yo zo r' + TV + ' n:n h:w[nt]', HN, lambda: [lt(num(0, 'R'), var(x, 'R')) for x in ('zo', 'r', 'cp', 'dt')],
  handlers=rt.base().on(r'^_Z11trapets_int', rt.opaque('trapets', 't1 t2 zo r rc cp n')), lemmas=sir_lemmas)

SQ = ' dt nt delay v cp'


def sir_contracts(h=None):
    h = h or rt.base()
    h.on(r'^_ZN7RectSir15rect_sir_serialE', rt.opaque('sir.rect', 'skip' + G3 + ' a b' + SQ + ' h:out[nt]'))
    h.on(r'^_Z8circ_sirdd', rt.opaque('sir.circ', G3[1:] + ' r' + SQ + ' h:out[nt]'))
    h.on(r'^_Z9scirc_sirdd', rt.opaque('sir.scirc', G3[1:] + ' r' + SQ + ' n h:out[nt]'))
    return h


U('drv.rect_sir', SIRS, r'^RectSir::rect_sir\(double\*', 'spec_drv_rect_sir', 'this:O Ro:r[3*No] No:n a b dt nt:n type:i delay:r[dlen] v cp h:w[No*nt]', HN, lambda: drvreq()[len(LEVEL):],
  handlers=sir_contracts(), extra=running_out('RectSir'))

# ------------------------------------------------------------------ delay-and-sum beamforming
DASGEN = {'dt': lambda r, V: r.uniform(0.02, 0.2), 'cp': lambda r, V: r.uniform(900, 2000), 'delay': lambda r, V: r.choice([0.0, r.uniform(-5, 20)])}
DASARR = {'Y': lambda r, n: [float(r.randrange(1, 1 << 20)) for _ in range(n)]}
DAS = ['extra_src/das.cc', 'src/dream_error.cc', 'src/affinity.cc', 'spec/das.cc']
for v_ in ('asl', 'NT', 'NR'):
    unit.EXTRA[v_] = var(v_, 'I')
for T_, S_ in (('double', ''), ('float', '4')):
    a_, b_, c_ = 'Y:r%s[asl*NT]' % S_, 'Y:r%s[asl*NT*NR]' % S_, ' xo yo zo dt delay cp im:p level:i'
    one = lambda n: ' %s:r%s[3*%s] %s:n' % (n.lower(), S_, n.upper(), n.upper())
    gt, gr = ' gt:r%s[3*NT] NT:n' % S_, ' gr:r%s[3*NR] NR:n' % S_
    pos = [lt(num(0), var('NT', 'I')), lt(num(0), var('NR', 'I'))]
    for k_, fn, geo in (('saft', 'das_saft_serial', a_ + ' asl:n' + gt), ('tfm', 'das_tfm_serial', b_ + ' asl:n' + gt + gr),
                        ('coltx', 'das_rca_serial_coltx', b_ + ' asl:n' + gt + gr), ('rowtx', 'das_rca_serial_rowtx', b_ + ' asl:n' + gt + gr)):
        U('das.%s.%s' % (k_, T_), DAS, r'^DAS<%s>::%s\(' % (T_, fn), 'spec_%s_%s' % (k_, T_[0]), 'this:O ' + geo + c_, [('im', 'im', 0, 'R')],
          LEVEL + (pos if 'tx' in k_ else []), specparams=geo + c_, gen=DASGEN, arrgen=DASARR)

# ------------------------------------------------------------------ OpenCL kernels, one work item
def item(*pos):
    return lambda: [le(num(0), var('no', 'I')), lt(var('no', 'I'), var('No', 'I'))] + [lt(num(0), var(x, 'I')) for x in pos]


def places(lo, step, hi):
    """number of places on a regular grid"""
    return toint(add(mul(sub(var(hi, 'R'), var(lo, 'R')), inv(var(step, 'R'))), num(1, 'R')))


CLS = ['spec/cl.cc', 'extra_src/das.cc', 'spec/kernels.cc', 'spec/das.cc', 'src/dream_error.cc', 'src/affinity.cc']
CLR, CLQ = 'no:n Ro:r[3*No] No:n', ' dt nt:n delay v cp H:w[No*nt]'
CLH = [('h', 'H', 0, 'A')]
U('cl.rect', CLS, r'^dv_cl_rect$', 'spec_cl_rect', CLR + ' a b dx dy' + CLQ, CLH, item(), ret=False)
U('cl.circ', CLS, r'^dv_cl_circ$', 'spec_cl_circ', CLR + ' R dx dy' + CLQ, CLH, item(), ret=False)
U('cl.sir', CLS, r'^dv_cl_sir$', 'spec_cl_sir', CLR + ' a b' + CLQ, CLH, item(), ret=False)
GRIDP = ' x0 dx x1 y0 dy y1 z0 dz z1'
for T_, S_ in (('double', '8'), ('float', '4')):
    I_ = [('im', 'Im', 0, 'A')]
    tail_ = ' dt delay cp Im:w%s[No]' % S_
    ro_, g1_, g2_ = ' Ro:r%s[3*No] No:n' % S_, ' Gt:r%s[3*NT] NT:n' % S_, ' Gr:r%s[3*NR] NR:n' % S_
    U('cl.saft.' + T_, CLS, r'^dv_cl_saft_%s$' % T_[0], 'spec_cl_saft_' + T_[0], 'no:n Y:r%s[asl*NT] asl:n' % S_ + g1_ + ro_ + tail_, I_, item(), ret=False, gen=DASGEN, arrgen=DASARR)
    for k_ in ('tfm', 'coltx', 'rowtx'):
        U('cl.%s.%s' % (k_, T_), CLS, r'^dv_cl_%s_%s$' % (k_, T_[0]), 'spec_cl_%s_%s' % (k_, T_[0]), 'no:n Y:r%s[asl*NT*NR] asl:n' % S_ + g1_ + g2_ + ro_ + tail_, I_,
          item(*(('NT', 'NR') if k_ != 'tfm' else ())), ret=False, gen=DASGEN, arrgen=DASARR)
    # regular grids: at least one pixel in each direction
    unit.EXTRA['cl.n'], unit.EXTRA['cl.m'] = places('g0', 'dg', 'g1'), places('r0', 'dr', 'r1')
    upto = lambda lo, st: lambda r, V: V[lo] + V[st] * (r.choice([0, 1, 2, 3, 6]) + r.uniform(.1, .9))
    gridgen = dict(DASGEN, **{d: lambda r, V: r.uniform(.5, 3) for d in ('dg', 'dr', 'dx', 'dy', 'dz')}, **{a + '1': upto(a + '0', 'd' + a) for a in 'grxyz'}, **{a + '0': lambda r, V: r.uniform(-9, 9) for a in 'grxyz'})
    grid_ = lambda: item()() + [lt(num(0), places(a + '0', 'd' + a, a + '1')) for a in 'xyz']
    U('cl.uni_saft.' + T_, CLS, r'^dv_cl_uni_saft_%s$' % T_[0], 'spec_cl_uni_saft_' + T_[0], 'no:n No:n g0 dg g1 asl:n Y:r%s[asl*cl.n]' % S_ + GRIDP + tail_, I_, grid_, ret=False, gen=gridgen, arrgen=DASARR)
    for k_ in ('tfm', 'coltx', 'rowtx'):
        U('cl.uni_%s.%s' % (k_, T_), CLS, r'^dv_cl_uni_%s_%s$' % (k_, T_[0]), 'spec_cl_uni_%s_%s' % (k_, T_[0]), 'no:n No:n g0 dg g1 r0 dr r1 asl:n Y:r%s[asl*cl.n*cl.m]' % S_ + GRIDP + tail_, I_, grid_, ret=False, gen=gridgen, arrgen=DASARR)


def das_contracts(T_):
    h, S, c = rt.base(), '/4' if T_ == 'float' else '', T_[0]
    q = ' xo yo zo dt delay cp im:out%s[1] level' % S
    gt, gr = ' gt:in%s[3*NT] NT' % S, ' gr:in%s[3*NR] NR' % S
    for k_, fn, geo in (('saft', 'das_saft_serial', 'skip Y:in%s[asl*NT] asl' % S + gt),
                        ('tfm', 'das_tfm_serial', 'skip Y:in%s[asl*NT*NR] asl' % S + gt + gr),
                        ('coltx', 'das_rca_serial_coltx', 'skip Y:in%s[asl*NT*NR] asl' % S + gt + gr),
                        ('rowtx', 'das_rca_serial_rowtx', 'skip Y:in%s[asl*NT*NR] asl' % S + gt + gr)):
        h.on(r'^_ZN3DASI%sE%d%sE' % (c, len(fn), fn), rt.opaque('das.%s.%s' % (k_, T_), geo + q, facts=status))
    return h


def das_mem(ex, st):
    """object state of DAS, and the run flag set by set_running()"""
    st.mem[('this', 0)] = var('das_type', 'I')
    for o_, n_ in ((8, 'asl'), (16, 'No'), (24, 'NT'), (32, 'NR')):
        st.mem[('this', o_)] = var(n_, 'I')
    st.mem[(ex.globptr('@running').a[0], 0)] = num(1)


def das_req():
    g = lambda n: var(n, 'I')
    m = ite(eq(g('NR'), num(0)), num(0), g('das_type'))
    return (LEVEL + enum('type', 1) + enum('das_type', 3) + [lt(num(0), g('No')), le(num(0), g('asl')), le(num(0), g('NT')), le(num(0), g('NR')),
            le(ite(eq(g('type'), num(0)), num(1), g('No')), g('dlen')),
            bor(le(g('das_type'), num(1)), eq(g('NR'), num(0)), lt(num(0), g('NT'))),
            eq(g('ylen'), mul(mul(g('asl'), g('NT')), ite(eq(m, num(0)), num(1), g('NR')))), le(num(0), g('ylen'))])


unit.EXTRA['ylen'] = var('ylen', 'I')


def das_adjust(r, E):
    m = 0 if E['NR'] == 0 else E['das_type']
    E['ylen'] = E['asl']*E['NT']*(1 if m == 0 else E['NR'])


def zl_adjust(r, E):
    E['zl'] = E['nx'] + E['ny'] - 1


def convp_adjust(r, E):
    E['ylen'] = E['AN']*(E['AM'] + (E['BM']*E['BN'] if 1 in (E['BM'], E['BN']) else E['BM']) - 1)


for T_, S_ in (('double', ''), ('float', '4')):
    U('drv.das.' + T_, DAS, r'^DAS<%s>::das\(' % T_, 'spec_das_' + T_[0],
      ('this:O Y:rS[ylen] Ro:rS[3*No] gt:rS[3*NT] gr:rS[3*NR] dt type:i delay:rS[dlen] cp im:wS[No] level:i').replace('S', S_),
      [('im', 'im', 0, 'AR')], das_req, handlers=das_contracts(T_), premem=das_mem, extra=running_out('3DASI%sE' % T_[0]),
      gen=DASGEN, arrgen=DASARR, adjust=das_adjust, threads=True, before=replay.setflag('running'),
      objs={'this': replay.struct([(0, ctypes.c_int, 'das_type'), (8, ctypes.c_long, 'asl'), (16, ctypes.c_long, 'No'), (24, ctypes.c_long, 'NT'), (32, ctypes.c_long, 'NR')])})

# ------------------------------------------------------------------ convolution
for v_ in ('nx', 'ny', 'zl'):
    unit.EXTRA[v_] = var(v_, 'I')
ZL = [eq(var('zl', 'I'), sub(add(var('nx', 'I'), var('ny', 'I')), num(1))), lt(num(0), var('nx', 'I')), lt(num(0), var('ny', 'I'))]
U('conv', ['extra_src/conv.cc', 'spec/conv.cc'], r'^conv\(', 'spec_conv', 'x:r[nx] nx:n y:r[ny] ny:n z:w[zl] m:i', [('z', 'z', 0, 'AR')], lambda: ZL + enum('m', 2), ret=False, adjust=zl_adjust)


def fft_mem(ex, st):
    """class invariant of FFT: plans of its own length"""
    n = var('zl', 'I')
    st.mem[('fft', 0)] = n
    for o_, d_ in ((16, 0), (24, 1)):
        p = ex.named_ptr('fft@%d' % o_)
        st.mem[('fft', o_)] = p
        st.mem[(p.a[0], 0)] = n
        st.mem[(p.a[0], 8)] = num(d_)


U('fftconv', ['extra_src/fftconv.cc', 'spec/conv.cc'], r'^fftconv\(', 'spec_fftconv',
  'fft:o x:r[nx] nx:n y:r[ny] ny:n z:w[zl] a:w[zl] b:w[zl] c:w[zl] af:w16[zl] bf:w16[zl] cf:w16[zl] m:i', [('z', 'z', 0, 'AR')], lambda: ZL + enum('m', 2), ret=False, premem=fft_mem, adjust=zl_adjust, objs={'fft': replay.fftobj('zl')})


def fft_own(L):
    """class invariant of FFT: plans of its own length"""
    def f(ex, st):
        st.mem[('fft', 0)] = L
        for o_, d_ in ((16, 0), (24, 1)):
            p = ex.named_ptr('fft@%d' % o_)
            st.mem[('fft', o_)] = p
            st.mem[(p.a[0], 0)] = L
            st.mem[(p.a[0], 8)] = num(d_)
    return f


def addfft_mem(ex, st):
    fft_own(var('zl', 'I'))(ex, st)
    sym.rows_of(ex, ex.objs['H'], 'H', var('L', 'I'), 8, var('hlen', 'I'))


def zl_env(a, b):
    return lambda e: {'zl': sub(add(e[a], e[b]), num(1))}


def fftconv_contracts():
    return rt.base().on(r'^_Z7fftconvR3FFT', rt.opaque('fftconv',
        'fft:plan[zl] x:in[nx] nx y:in[ny] ny z:io10[zl] a:scr[zl] b:scr[zl] c:scr[zl] af:scr/16[zl] bf:scr/16[zl] cf:scr/16[zl] m', ret=None, env0=zl_env('nx', 'ny')))


def convp_req():
    g = lambda n: var(n, 'I')
    vec = bor(eq(g('BM'), num(1)), eq(g('BN'), num(1)))
    return enum('m', 2) + [lt(num(0), g(n)) for n in ('AM', 'AN', 'BM', 'BN')] + [bor(vec, le(g('AN'), g('BN'))),
        eq(g('ylen'), mul(g('AN'), sub(add(g('AM'), ite(vec, mul(g('BM'), g('BN')), g('BM'))), num(1)))), le(num(0), g('ylen'))]


for v_ in ('AM', 'AN', 'BM', 'BN'):
    unit.EXTRA[v_] = var(v_, 'I')
U('fftconv_p', ['extra_src/fftconv_p.cc', 'extra_src/fftconv.cc', 'src/affinity.cc', 'spec/conv.cc'], r'^FFTConvP::run\(', 'spec_fftconv_p',
  'this:O Y:w[ylen] A:r[AM*AN] AM:n AN:n B:r[BM*BN] BM:n BN:n m:i', [('Y', 'Y', 0, 'AR')], convp_req, handlers=fftconv_contracts(), adjust=convp_adjust, threads=True)
for v_ in ('L', 'hlen'):
    unit.EXTRA[v_] = var(v_, 'I')
U('add_fftconv', ['extra_src/fftconv.cc', 'spec/conv.cc'], r'^add_fftconv\(', 'spec_add_fftconv',
  'fft:o H:r[L] L:n nx:n n:n U:r[L*ny] ny:n z:w[zl] a:w[zl] b:w[zl] c:w[zl] af:w16[zl] bf:w16[zl] cf:w16[zl] m:i', [('z', 'z', 0, 'AR')],
  lambda: ZL + enum('m', 1) + [le(num(0), var('L', 'I')), le(mul(add(var('n', 'I'), num(1)), var('nx', 'I')), var('hlen', 'I'))], ret=False, premem=addfft_mem, adjust=zl_adjust, objs={'fft': replay.fftobj('zl'), 'H': replay.rowtable('H', 'L', 'hlen')})

# ------------------------------------------------------------------ Python bindings
def engine(label, dsl, env0=None):
    """contract of an entry point as the bindings use it (drv.* prove it): its
    status, its response, and the run flag"""
    f = rt.opaque('run.' + label, dsl, facts=status, env0=env0)
    label_ = label

    def h(ex, st, v, t, i, a):
        r = f(ex, st, v, t, i, a)
        st.mem[('run!', 0)] = eq(app('%s.running' % label_, ex.lastkey, 'I'), num(1))
        return r
    return h


def is_running(ex, st, v, t, i, a):
    r = st.mem.get(('run!', 0))
    return r if r is not None else var('run!', 'B')


def engines():
    h = rt.base().on(r'^_ZN\w+10is_runningEv$', is_running)
    for key, fil, fn, mem, geo, w in KER:
        cls = {'rect': 'Rect', 'circ': 'Circ'}.get(key) or fn.split('::')[0]
        h.on(r'^_ZN%d%s%d%sE' % (len(cls), cls, len(fil), fil), engine(key, 'skip alpha Ro:inw[3*No] No' + ''.join(' ' + x.split(':')[0] for x in geo.split()) +
             ' dx dy dt nt type delay:delay[No] v cp h:io[nt*No] level'))
    a = 'skip alpha Ro:inw[3*No] No%s dx dy dt nt type delay:delay[No] v cp num G:inw[3*num] fm focal:focalw[num] sm theta phi apod:apodw[num] do_apod am par h:io[nt*No] level'
    for key, cls, geo in (('rect', 'ArrRect', ' a b'), ('circ', 'ArrCirc', ' R'), ('cylind', 'ArrCylind', ' a b C')):
        n = 'dream_arr_' + key
        h.on(r'^_ZN%d%s%d%sE' % (len(cls), cls, len(n), n), engine('arr.' + key, a % geo))
    h.on(r'^_ZN7ArrAnnu14dream_arr_annuE', engine('arr.annu', 'skip alpha Ro:inw[3*No] No dx dy dt nt type delay:delay[No] v cp num Gr:inw[num] fm focal:focalw[rings] '
         'apod:apodw[rings] do_apod am par h:io[nt*No] level', lambda e: {'rings': idiv(add(e['num'], num(1)), num(2))}))
    return h


def mat_mem(P, more=None):
    def f(ex, st):
        if more:
            more(ex, st)
        for nm, k, o in P:
            if o.get('matrix'):
                d = unit.shape(nm)
                b = ex.newobj(nm + '.data', o.get('elem', 8), mul(*d), 'param', False, label='argument ' + nm)
                st.mem[(nm, 0)] = ptr(b.name, num(0))
                for off, x in ((8, var(nm + '.d', 'I')), (16, d[0]), (24, d[1])):
                    st.mem[(nm, off)] = x
    return f


def value_mem(ex, st, nm, elem=8, own=False, third=False, text=None):
    """an Octave argument: a matrix (of doubles, or of floats) or a string"""
    if nm not in ex.objs:
        ex.newobj(nm, None, num(56), 'param', False, label='argument ' + nm)
    d = unit.shape(nm)
    k = var(nm + '.k', 'I') if third else num(1)
    ex.newobj(nm + '.data', elem, mul(mul(*d), k), 'param', own, label='argument ' + nm)
    ex.newobj(nm + '.text', None, num(32), 'param', False, label='argument ' + nm)
    for off, x in ((0, ptr(nm + '.data', num(0))), (8, num(elem)), (16, d[0]), (24, d[1]), (32, ptr(nm + '.text', num(0))),
                   (40, FALSE if own or text == '!' + nm else TRUE if text == nm else var(nm + '.str', 'B')), (41, FALSE if own else var(nm + '.single', 'B')), (42, TRUE if own else FALSE), (48, k)):
        st.mem[(nm, off)] = x


def dv_copy(ex, st, v, t, i, a):
    p, n, size = v[:3]
    p = ex.resolve(p)
    src = ex.objs[p.a[0]]
    assert is_const(size) and cval(p.a[1]) == 0
    o = ex.newobj('conv.' + src.name, int(cval(size)), n, 'heap')
    o.owner = ex.loopstack[-1].id if ex.loopstack else None
    o.bytes = mul(n, size)
    if ('free:' + o.name, 0) in st.mem:
        st.mem[('free:' + o.name, 0)] = num(0)
    st.mem[(o.name, 0)] = rt.arr(ex, st, src, 0)
    return ptr(o.name, num(0))


def OCT(name, srcs, fn, spec, args, req=None, handlers=None, more=None, shapes=None, inplace=None, lemmas=None, nin=None, text=None):
    """An Octave function.  args: its arguments in order ('name' or 'name:4', a
    three-dimensional array 'name:3').  inplace: the argument it works on in
    place ('' if none), for functions that may return nothing."""
    A = [(w.split(':') + ['8'])[:2] for w in args.split()]
    names = [nm for nm, e in A]
    third = {nm for nm, e in A if e == '3'}
    A = [(nm, '8' if e == '3' else e) for nm, e in A]

    def premem(ex, st):
        st.mem[('run!', 0)] = var('run!', 'B')
        for nm, e in A:
            value_mem(ex, st, nm, int(e), nm == inplace, nm in third, text)
        for off, x in ((0, ptr('argv', num(0))), (8, var('nin', 'I') if nin is None else num(nin))):
            st.mem[('args', off)] = x
        for off in range(16, 88, 8):
            st.mem[('args', off)] = NULL
        ex.newobj('argv', None, num(24*len(A)), 'param', False, label='argument list')
        for k, nm in enumerate(names):
            for off, x in ((0, ptr(nm, num(0))), (8, NULL), (16, NULL)):
                st.mem[('argv', 24*k + off)] = x
        if more:
            more(ex, st)

    def requires():
        return [le(num(0), x) for nm in names for x in unit.shape(nm)] + [le(num(0), var(nm + '.k', 'I')) for nm in third] + [le(num(0), var('nin', 'I'))] + (req() if req else [])
    h = handlers or engines()
    h['dv_copy'] = dv_copy

    def fld(o):
        return lambda r: r.out('ret', o, 'I')

    def status(r):
        two = eq(fld(0)(r), num(2))
        p = pick(r, r.st.mem.get(('ret', 40), NULL), two)
        if p.k != 'ptr':
            return num(0, 'R')
        o = r.ex.objs[p.a[0]]
        return ite(two, sel(rt.arr(r.ex, r.st, o, 0), idiv(p.a[1], num(o.stride))) if o.stride else r.st.mem[(o.name, 0)], num(0, 'R'))
    ex_ = [('results', settled(fld(0)), settled(fld(0)))]
    if inplace is None:
        ex_ += matrix_out('ret', 8) + [('status', settled(status), settled(status))]
    else:
        ex_ += matrix_out('ret', 8, lambda r: le(num(1), fld(0)(r)))
        if inplace:
            f_ = settled(lambda r: sel(rt.arr(r.ex, r.st, r.ex.objs[inplace + '.data'], 0), var('K!out', 'I')))
            ex_ += [('in-place', f_, f_)]
    U(name, [s + ' -UDREAM_PYTHON -DDREAM_OCTAVE -DOCTAVE' for s in srcs], fn, spec, 'ret:O args:O nlhs:i', [], requires, handlers=h, ret=False, premem=premem, extra=ex_,
      specparams='ret:O ' + ' '.join(nm + (':A4' if e == '4' else ':A') for nm, e in A) + (' nin:i nlhs:i' if nin is None else ' nin:=%d nlhs:i' % nin),
      safety=('bounds', 'frame', 'valid-pointer', 'div-by-zero', 'invariant', 'join', 'fft') + (('alloc',) if inplace is not None else ()), shapes=shapes or {'-': 0}, lemmas=lemmas)
    UNITS[name].inplace, UNITS[name].third, UNITS[name].nin = inplace, third, nin


def prover_of(r):
    if not hasattr(r, 'prover'):
        r.prover = vc.Prover(5000)
    return r.prover


def pick(r, p, c=TRUE):
    """the object p points to, given that the function returns and c holds"""
    pr = prover_of(r)
    hyps = [r.st.pc, c] + r.req + r.ex.facts
    p = r.ex.resolve(p)
    while p.k in ('pite', 'ite'):
        if pr.decides(hyps, p.a[0]):
            p = r.ex.resolve(p.a[1])
        elif pr.decides(hyps, bnot(p.a[0])):
            p = r.ex.resolve(p.a[2])
        else:
            raise rt.Unsupported('result at %s' % T.show(p))
    return p


def settled(f):
    def g(r):
        return vc.settle(prover_of(r), [r.st.pc] + r.req + r.ex.facts, f(r))
    return g


def matrix_out(nm='ret', at=0, when=None):
    """the returned matrix: its shape and all its elements"""
    def fld(o):
        return lambda r: ite(when(r), r.out(nm, at + o, 'I'), num(0)) if when else r.out(nm, at + o, 'I')

    def body(r):
        if when:
            c = settled(when)(r)
            p = pick(r, r.st.mem.get((nm, at), NULL), c) if c is not FALSE else NULL
            if p.k == 'null':
                return num(0, 'R')
        else:
            p = pick(r, r.st.mem[(nm, at)])
        o = r.ex.objs[p.a[0]]
        k = var('K!out', 'I')
        A = rt.arr(r.ex, r.st, o, 0)
        return ite(band(le(num(0), k), lt(k, mul(fld(16)(r), fld(24)(r)))), sel(A, add(idiv(p.a[1], num(o.stride)), k)), num(0, 'R'))
    return [('rows', settled(fld(16)), settled(fld(16))), ('cols', settled(fld(24)), settled(fld(24))), ('ret', settled(body), settled(body))]


def PY(name, srcs, fn, spec, params, req=None, handlers=None, more=None, dims=(2,), shapes=None):
    P = unit.parse_params(params)
    mats = [nm for nm, k, o in P if o.get('matrix')]

    def requires():
        return [le(num(0), x) for nm in mats for x in unit.shape(nm)] + [eq(var(nm + '.d', 'I'), num(2)) for nm in mats if dims == (2,)] + (req() if req else [])
    U(name, srcs, fn, spec, params, [], requires, handlers=handlers or engines(), ret=False, premem=mat_mem(P, more), extra=matrix_out(),
      safety=('bounds', 'frame', 'valid-pointer', 'div-by-zero', 'invariant'), shapes=shapes or {'-': 0})


PG = 'ret:O ro:M geom:M'
PS = ' s:M delay:M m:M'
PA = ' foc:S focal:M%s apod:S apodv:M win level:S'
GEO = {'line': 1, 'rect': 2, 'circ': 1, 'sphere': 2, 'cylind': 3, 'rect_f': 2, 'circ_f': 1}
for key in ('rect', 'line', 'circ', 'sphere', 'cylind', 'rect_f', 'circ_f'):
    PY('py.' + key, ['python/src/py_dream%s.cc' % key, 'spec/pybind.cc'], r'^py_dream%s\(' % key, 'spec_py_' + key,
       PG + PS + (' foc:S focal:M level:S' if key[-2:] == '_f' else ' level:S'), shapes={'geom': GEO[key]})
for key in ('rect', 'circ', 'cylind'):
    PY('py.arr_' + key, ['python/src/py_dream_arr_%s.cc' % key, 'spec/pybind.cc'], r'^py_dream_arr_%s\(' % key, 'spec_py_arr_' + key,
       PG + ' G:M' + PS + PA % ' steer:S steerv:M', shapes={'geom': GEO[key]})
PY('py.arr_annu', ['python/src/py_dream_arr_annu.cc', 'spec/pybind.cc'], r'^py_dream_arr_annu\(', 'spec_py_arr_annu',
   'ret:O ro:M G:M' + PS + PA % '')


def das_engine(T_):
    """contract of DAS::das as the bindings use it (drv.das.* prove it)"""
    S = '/4' if T_ == 'float' else ''
    label_ = 'das.' + T_

    def env(e):
        full = band(lt(num(0), e['NR']), bnot(eq(e['meth'], num(0))))
        return {'ylen': mul(mul(e['asl'], e['NT']), ite(full, e['NR'], num(1))), 'gr?': full}
    f = rt.opaque('run.das.' + T_, 'meth asl No NT NR Y:inw%s[ylen] Ro:inw%s[3*No] gt:inw%s[3*NT] gr:opt%s[3*NR] dt type delay:delay%s[No] cp im:out%s[No] level'.replace('%s', S),
                  facts=status, env0=env)

    def h(ex, st, v, t, i, a):
        this = lambda o, n: ex.load(st, padd(v[0], num(o)), ('i', n), i.dbg)
        ex.obl('invariant', 'set_running() before das()', st.pc, is_running(ex, st, v, t, i, a), i.dbg)
        nr, m = this(32, 64), this(0, 32)
        r = f(ex, st, [ite(eq(nr, num(0)), num(0), m), this(8, 64), this(16, 64), this(24, 64), ite(eq(m, num(0)), num(0), nr)] + list(v[1:]), t, i, a)
        st.mem[('run!', 0)] = eq(app('%s.running' % label_, ex.lastkey, 'I'), num(1))
        return r
    return h


def set_running(ex, st, v, t, i, a):
    st.mem[('run!', 0)] = TRUE


def das_state(ex, st):
    """what an earlier call left behind: no object, or one of some setup"""
    T.NULLABLE['das!'] = var('isnull:das!', 'B')
    ex.newobj('das!', None, num(48), 'param', True, label='persistent DAS object').kind = 'heap'
    st.mem[(ex.globptr('@das').a[0], 0)] = ptr('das!', num(0))
    for o_, n_, s_ in ((0, 'p.meth', 'I'), (8, 'p.asl', 'I'), (16, 'p.No', 'I'), (24, 'p.NT', 'I'), (32, 'p.NR', 'I'), (40, 'p.gpu', 'B')):
        st.mem[('das!', o_)] = var(n_, s_)


for T_, d_ in (('double', ''), ('float', ' -DUSE_FLOAT')):
    h_ = rt.base().on(r'^_ZN3DASI\wE11set_runningEv$', set_running).on(r'^_ZN3DASI\wE3dasE', das_engine(T_)) \
        .on(r'^_ZN3DASI\wE10is_runningEv$', is_running)
    PY('py.das.' + T_, ['python/src/py_das.cc' + d_, 'extra_src/das.cc', 'spec/pybind_das.cc'], r'py_das<%s>\(' % T_, 'spec_py_das_' + T_[0],
       'ret:O Y:M Gt:M Gr:M Ro:M dt delay:M cp method:S level:S device:S verbose:S'.replace(':M', ':M4' if d_ else ':M'), None, handlers=h_, more=das_state)


def convp_env(e):
    vec = bor(eq(e['BM'], num(1)), eq(e['BN'], num(1)))
    return {'ylen': mul(e['AN'], sub(add(e['AM'], ite(vec, mul(e['BM'], e['BN']), e['BM'])), num(1))), 'blen': ite(vec, mul(e['BM'], e['BN']), mul(e['BM'], e['AN']))}


def dim12():
    g = lambda n: var(n, 'I')
    out = []
    for q in 'AB':
        out += [le(num(1), g(q + '.m')), le(num(1), g(q + '.n')), bor(eq(g(q + '.d'), num(2)), band(eq(g(q + '.d'), num(1)), eq(g(q + '.n'), num(1))))]
    return out


PY('py.fftconv_p', ['python/src/py_fftconv_p.cc', 'spec/pybind_conv.cc'], r'py_fftconv_p<double>\(', 'spec_py_fftconv_p', 'ret:O A:M B:M', dim12, dims=(1, 2),
   handlers=rt.base().on(r'^_ZN8FFTConvP3runE', rt.opaque('run.fftconv_p', 'skip Y:out[ylen] A:inw[AM*AN] AM AN B:inw[blen] BM BN m', env0=convp_env)))

# ------------------------------------------------------------------ Python registration
def registered(name, f, args):
    """post-condition: the module registers one function, under its name, with
    the argument names (and default texts) of its documentation"""
    want = [x.split('=') for x in args.split()]

    def text(ex, p):
        p = ex.resolve(p)
        if p.k == 'null':
            return None
        if p.k != 'ptr':
            return T.show(p)
        g = ex.m.globals.get(p.a[0])
        if g and g[0] == 'var' and g[3] and g[2] is not None and g[2][0] in ('zero', 'zeroinitializer'):
            return ''
        m = re.match(r'@str:(.*)$', p.a[0], re.S)
        return m.group(1).replace('\\00', '') if m else T.show(p)

    def post(u, code, req, pr):
        ex, mem = code.ex, code.st.mem
        g = lambda o: mem.get(('m', o), NULL)
        fn = T.show(g(24)) if g(24).k == 'fptr' else '?'
        got = [('number of registered functions', T.show(g(8)), '1'), ('name of the function', text(ex, g(16)), name),
               ('registered function', str(bool(re.search(r'\d' + f, fn))) + ' ' + fn, 'True ' + fn), ('number of arguments', T.show(g(32)), str(len(want)))]
        for k, w in enumerate(want):
            got.append(('name of argument %d' % (k + 1), text(ex, g(40 + 16*k)), w[0]))
            got.append(('default of argument %d' % (k + 1), text(ex, g(48 + 16*k)), w[1] if len(w) > 1 else None))
        return {'registration': [vc.Result(a, b == c, '' if b == c else 'code: %r ; contract: %r' % (b, c)) for a, b, c in got]}
    return post


SIRA = 'Ro geom_par s_par delay m_par'
ARRA = 'Ro geom_par G s_par delay m_par foc_met focal steer_met steer_par apod_met apod win_par err_level'
REG = {
    'line': ('dreamline', 'py_dreamline', SIRA + ' err_level'), 'rect': ('dreamrect', 'py_dreamrect', SIRA + ' err_level'),
    'circ': ('dreamcirc', 'py_dreamcirc', SIRA + ' err_level'), 'sphere': ('dreamsphere', 'py_dreamsphere', SIRA + ' err_level'),
    'cylind': ('dreamcylind', 'py_dreamcylind', SIRA + ' err_level'), 'rect_f': ('dreamrect_f', 'py_dreamrect_f', SIRA + ' foc_met focal err_level'),
    'circ_f': ('dreamcirc_f', 'py_dreamcirc_f', SIRA + ' foc_met focal err_level'), 'arr_rect': ('dream_arr_rect', 'py_dream_arr_rect', ARRA),
    'arr_circ': ('dream_arr_circ', 'py_dream_arr_circ', ARRA), 'arr_cylind': ('dream_arr_cylind', 'py_dream_arr_cylind', ARRA),
    'arr_annu': ('dream_arr_annu', 'py_dream_arr_annu', 'Ro G s_par delay m_par foc_met focal apod_met apod win_par err_level'),
    'das.double': ('das', 'py_das', 'Y Gt Gr Ro dt delay cp method err_level device verbose='), 'das.float': ('das', 'py_das', 'Y Gt Gr Ro dt delay cp method err_level device verbose='),
    'fftconv_p': ('fftconv_p', 'py_fftconv_p', 'A B'),
}
for key, (nm_, f_, args_) in REG.items():
    src_ = [s for s in UNITS['py.' + key].srcs if s.startswith('python/')]
    U('reg.' + key, src_, r'^dv_module_%s$' % ('das_f' if key == 'das.float' else nm_), None, 'm:O', [], None, ret=False, premem=lambda ex, st: st.mem.update({('m', 8): num(0)}),
      post=registered(nm_, f_, args_), shapes={'-': 0})
    UNITS['reg.' + key].table = (nm_, args_)

# ------------------------------------------------------------------ Octave bindings
OG, OS = 'ro geom', ' s delay m'
for key in ('rect', 'line', 'circ', 'sphere', 'cylind', 'rect_f', 'circ_f'):
    OCT('oct.' + key, ['oct/oct_dream%s.cc' % key, 'spec/octbind.cc'], r'^dv_oct_dream%s$' % key, 'spec_oct_' + key,
        OG + OS + (' foc focal' if key[-2:] == '_f' else '') + ' lev' + (' dev' if key in ('rect', 'circ') else ''), shapes={'geom': GEO[key]})
OA = ' foc focal%s apod apodv win lev'
for key in ('rect', 'circ', 'cylind'):
    OCT('oct.arr_' + key, ['oct/oct_dream_arr_%s.cc' % key, 'spec/octbind.cc'], r'^dv_oct_dream_arr_%s$' % key, 'spec_oct_arr_' + key,
        OG + ' G' + OS + OA % ' steer steerv', shapes={'geom': GEO[key]})
OCT('oct.arr_annu', ['oct/oct_dream_arr_annu.cc', 'spec/octbind.cc'], r'^dv_oct_dream_arr_annu$', 'spec_oct_arr_annu', 'ro G' + OS + OA % '')

def sir_engines():
    h = sir_contracts()
    h.on(r'^_ZN7RectSir10is_runningEv$', is_running)
    h.on(r'^_ZN7RectSir8rect_sirE', engine('rect_sir', 'skip Ro:inw[3*No] No a b dt nt type delay:delay[No] v cp h:out[nt*No]'))
    return h


for key, tail, k_ in (('rect_sir', ' dev', 2), ('circ_sir', '', 1), ('scirc_sir', ' n', 1)):
    OCT('oct.' + key, ['extra_src/oct_%s.cc' % key, 'src/affinity.cc', 'spec/octsirs.cc'], r'^dv_oct_%s$' % key, 'spec_oct_' + key, OG + OS + tail, handlers=sir_engines(), shapes={'geom': k_, 's': 2, 'm': 2})


def att_call(ex, st, v, t, i, a):
    """Attenuation::att on one response, as the unit 'att' proves it"""
    n = ex.load(st, padd(ex.prune(ex.resolve(v[0]), st.pc), num(8)), ('i', 64), i.dbg)
    return rt.opaque('Attenuation::att', 'att:att[n] xc:fftc[n] x:fft[n] r it h:add[n] ai el', ret=None, env0=lambda e: {'n': n},
                     pre=lambda e: [lt(num(0), n), eq(e['el'], num(0))])(ex, st, v, t, i, a)


def apod_call(ex, st, v, t, i, a):
    """apodization(method, n, weights, &w, x, y, R, par), as the unit 'arr.apod' proves it: w is set, weights[n] is read for the user-defined window only"""
    am, n, vec, w, x, y, R, par = v
    ud = eq(am, num(7))
    ex.obl('invariant', 'precondition of apodization', st.pc, band(le(num(0), am), le(am, num(7))), i.dbg)
    s2 = rt.State(band(st.pc, ud), st.mem)
    q = ite(ud, ex.load(s2, padd(ex.prune(ex.resolve(vec), s2.pc), mul(num(8), n)), ('double',), i.dbg), num(0, 'R'))
    ex.called.add('apodization')
    ex.store(st, w, app('apodization', (am, q, x, y, R, par), 'R'), ('double',), i.dbg)


OCT('oct.att', ['oct/oct_dream_att.cc', 'spec/octmisc.cc'], r'^dv_oct_dream_att$', 'spec_oct_att', 'ro s delay m', handlers=rt.base().on(r'^_ZN11Attenuation3attE', att_call), shapes={'s': 2, 'm': 2})
OCT('oct.apodwin', ['oct/oct_dream_apodwin.cc', 'spec/octmisc.cc'], r'^dv_oct_dream_apodwin$', 'spec_oct_apodwin', 'apod apodv win', handlers=rt.base().on(r'^_Z11apodization', apod_call))


def das_states(single):
    """data of one precision; what earlier calls left behind: for each precision no object, or one of some setup"""
    def f(ex, st):
        st.mem[('Y', 41)] = TRUE if single else FALSE
        if single:
            st.mem[('Y', 40)] = FALSE
        das_left(ex, st)
    return f


def das_left(ex, st):
    for g, q in (('@das_d', 'd'), ('@das_f', 'f')):
        nm = 'das_%s!' % q
        T.NULLABLE[nm] = var('isnull:' + nm, 'B')
        ex.newobj(nm, None, num(48), 'param', True, label='persistent DAS object').kind = 'heap'
        st.mem[(ex.globptr(g).a[0], 0)] = ptr(nm, num(0))
        for o_, n_, s_ in ((0, 'meth', 'I'), (8, 'asl', 'I'), (16, 'No', 'I'), (24, 'NT', 'I'), (32, 'NR', 'I'), (40, 'gpu', 'B')):
            st.mem[(nm, o_)] = var('%s.%s' % (q, n_), s_)


for T_, e_, s_ in (('double', '', False), ('float', ':4', True)):
    h_ = rt.base().on(r'^_ZN3DASI\wE11set_runningEv$', set_running).on(r'^_ZN3DASI\wE3dasE', das_engine(T_)).on(r'^_ZN3DASI\wE10is_runningEv$', is_running)
    OCT('oct.das.' + T_, ['extra_src/oct_das.cc', 'extra_src/das.cc', 'spec/octdas.cc'], r'^dv_oct_das$', 'spec_oct_das_' + T_[0],
        ' '.join(x + e_ for x in 'Y Gt Gr Ro dt delay cp method lev dev verb'.split()),
        None, handlers=h_, more=das_states(s_))

# ------------------------------------------------------------------ properties
TRUSTED = [
    'clang 18 (C++ to LLVM IR) and the LLVM clean-up passes listed in dv/ir.py',
    'the verification-condition generator dv/sym.py, dv/term.py, dv/intr.py (this framework)',
    'the relational induction rule dv/vc.py (this framework)',
    'z3 (through its Python interface)',
    'the specification functions under spec/',
]
ASSUME = ['floating-point arithmetic is treated as real arithmetic (no rounding, overflow, infinities or NaN)',
          '64-bit integer arithmetic does not overflow; conversions from floating point stay in range',
          'pointer arguments do not alias each other']
def us(*pats):
    return list(dict.fromkeys(n for p in pats for n in UNITS if fnmatch.fnmatch(n, p)))


def group(labels, *pats):
    return [(n, labels) for n in us(*pats)]


def el(keys, labels):
    return group(labels, *['ker.' + k + s for k in keys for s in ('', '.att')] + ['drv.' + k for k in keys])


ARRS = ['arr.rect*', 'arr.circ*', 'arr.cylind*', 'drv.arr_rect', 'drv.arr_circ', 'drv.arr_cylind']
DRVS = [n for n in UNITS if n.startswith('drv.') and not n.startswith('drv.das')]
# ------------------------------------------------------------------ Octave convolution
def conv_contracts():
    return fftconv_contracts().on(r'^_Z4convPdlS_lS_8ConvMode', rt.opaque('conv', 'x:in[nx] nx y:in[ny] ny z:io0[zl] m', ret=None, env0=zl_env('nx', 'ny')))


OCSRC = lambda n: ['extra_src/oct_%s.cc' % n, 'src/affinity.cc', 'spec/octconv.cc']
nin_ = var('nin', 'I')
def whole(*names):
    """the arguments hold two whole numbers"""
    def f(ex, st):
        for nm in names:
            A = rt.arr(ex, st, ex.objs[nm + '.data'], 0)
            for i in 0, 1:
                A = store(A, num(i), toreal(var('%s.%d' % (nm, i + 1), 'I')))
            st.mem[(nm + '.data', 0)] = A
    return f


def OCC(name, args, inplace, lo, hi, plans=None, more=None, handlers=conv_contracts):
    """one unit per number of arguments, and one for every other number"""
    for n in range(lo, hi + 1):
        OCT('oct.%s.%d' % (name, n), OCSRC(name), r'^dv_call_%s$' % name, 'spec_oct_' + name, args, None, handlers=handlers(), inplace=inplace, nin=n, more=more)
        if lo < n and inplace == 'y' and n > (3 if name == 'fftconv_ola' else 2):       # worked on in place: an argument of another type
            OCT('oct.%s.%dc' % (name, n), OCSRC(name), r'^dv_call_%s$' % name, 'spec_oct_' + name, args, None, handlers=handlers(), inplace='', nin=n, text='!y' if n == plans else None)
        if n == plans:
            OCT('oct.%s.%dw' % (name, n), OCSRC(name), r'^dv_call_%s$' % name, 'spec_oct_' + name, args, None, handlers=handlers(), inplace='', nin=n, text=inplace)
    OCT('oct.%s.n' % name, OCSRC(name), r'^dv_call_%s$' % name, 'spec_oct_' + name, args, lambda: [bor(lt(nin_, num(lo)), lt(num(hi), nin_))], handlers=handlers(), inplace=inplace,
        more=lambda ex, st: setattr(ex, 'drop_infeasible', True))


def ola_contracts():
    return rt.base().on(r'^_Z7fftconvR3FFT', rt.opaque('fftconv',
        'fft:plan[zl] x:inw[nx] nx y:inw[ny] ny z:io10[zl] a:scr[zl] b:scr[zl] c:scr[zl] af:scr/16[zl] bf:scr/16[zl] cf:scr/16[zl] m', ret=None, env0=zl_env('nx', 'ny')))


def sum_contracts():
    return conv_contracts().on(r'^_Z11add_fftconv', rt.opaque('add_fftconv',
        'fft:plan[zl] H:rows[row] L nx n U:in[L*ny] ny z:io10[zl] a:scr[zl] b:scr[zl] c:scr[zl] af:scr/16[zl] bf:scr/16[zl] cf:scr/16[zl] m', ret=None,
        env0=lambda e: {'zl': sub(add(e['nx'], e['ny']), num(1)), 'row': mul(add(e['n'], num(1)), e['nx'])}, pre=lambda e: [le(e['m'], num(1))]))


OCC('conv_p', 'a b y mode', 'y', 2, 4)
OCC('fftconv_ola', 'a b c y p q', 'y', 3, 6, plans=4, handlers=ola_contracts)
OCC('sum_fftconv', 'h:3 u y p', 'y', 2, 4, plans=3, handlers=sum_contracts)
OCC('fftconv_p', 'a b y p q', 'y', 2, 5, plans=3)
OCC('copy_p', 'a r k b', 'a', 4, 4, more=whole('r', 'k'))
OCC('add_p', 'a r k b', 'a', 4, 4, more=whole('r', 'k'))

CONVS = ['oct.%s.*' % k for k in ('conv_p', 'fftconv_p', 'fftconv_ola', 'sum_fftconv', 'copy_p', 'add_p')]


def conv_labels(n):
    if n.endswith('.n') and 'oct.conv_p' not in n and 'sum' not in n:      # always an error
        return ['safety']
    return ['results', 'rows', 'cols', 'ret', 'safety'] + ([] if n[-1] in 'wc' else ['in-place'])


CHECKS = {
    'C01': el(('line', 'rect', 'circ'), ['h']),
    'C02': el(('rect_f', 'circ_f'), ['h']),
    'C03': el(('sphere', 'cylind'), ['h']),
    'C04': group(['h'], *ARRS) + group(['*'], 'arr.center_pos', 'arr.distance', 'arr.superpos'),
    'C05': group(['d'], 'arr.focusing', 'arr.steering') + [('arr.max_dim', ['x_max', 'y_max', 'r_max'])] + group(['h'], 'arr.rect*', 'arr.circ*', 'arr.cylind*'),
    'C06': [('arr.apod', ['w']), ('arr.max_dim', ['r_max'])] + group(['h'], 'arr.rect*', 'arr.circ*', 'arr.cylind*'),
    'C07': group(['*'], 'annu.*') + group(['h'], 'arr.annu*', 'drv.arr_annu'),
    'C08': [('att', ['h'])] + group(['h'], 'ker.*.att', *DRVS),
    'C09': group(['h', 'result'], *DRVS) + group(['im', 'result'], 'drv.das.*'),
    'C10': group(['result'], 'ker.*', 'arr.rect*', 'arr.circ*', 'arr.cylind*', 'arr.annu*') + group(['result', 'running'], 'drv.*'),
    'C11': group(['safety'], '*'),
    'C12': group(['im'], 'das.*', 'drv.das.*') + group(['result'], 'das.*', 'drv.das.*'),
    'C13': group(['z'], 'conv', 'fftconv', 'add_fftconv'),
    'C14': group(['Y'], 'fftconv_p'),
    'C15': group(['rows', 'cols', 'ret', 'safety'], 'py.*') + group(['registration', 'safety'], 'reg.*'),
    'C16': group(['results', 'rows', 'cols', 'ret', 'status', 'safety'], *[n for n in UNITS if n.startswith('oct.') and UNITS[n].inplace is None and n not in ('oct.att', 'oct.apodwin')]),
    'C18': [(n, conv_labels(n)) for n in us(*CONVS)],
    'C20': group(['h', 'safety'], 'cl.rect', 'cl.circ', 'cl.sir') + group(['im', 'safety'], 'cl.saft.*', 'cl.tfm.*', 'cl.*tx.*', 'cl.uni*'),
    'C19': group(['results', 'rows', 'cols', 'ret', 'safety'], 'oct.att', 'oct.apodwin') + [('att', ['h']), ('arr.apod', ['w'])],
    'C17': group(['*'], 'sir.*') + group(['h', 'result'], 'drv.rect_sir') + group(['rows', 'cols', 'ret'], 'oct.*_sir'),
}
ASSUMPTIONS = {k: list(ASSUME) for k in CHECKS}
ASSUMPTIONS['C15'] += ['the interpreter interface behaves like the stand-in headers shim/py (arrays of two dimensions, one or two for the convolution)',
                       'the interpreter converts positional and keyword arguments as registered',
                       'the computation (engine) is called through its contract, proved by the other properties', 'interruption by CTRL-C is not modelled']
ASSUMPTIONS['C17'] += ['for the sampled disc: positive height, radius, sound speed and sampling interval', 'square root and inverse cosine are uninterpreted (roots are not negative; for the sampled disc three ordering facts about roots are proved separately, reported as lemmas)']
ASSUMPTIONS['C18'] += ['the interpreter interface behaves like the stand-in headers shim/oct: arguments are real matrices (three-dimensional where documented) or strings; the argument worked on in place is not also another argument',
                       'row and column indices are whole numbers', 'whether FFTW takes a text as saved plans depends on the text alone; the saved plans returned are not specified',
                       'the convolution of one column is called through its contract (C13)', 'interruption by CTRL-C is not modelled']
ASSUMPTIONS['C20'] += ['the OpenCL C text is compiled as C++ with the stand-in header shim/cl/device.h (address spaces dropped, native functions exact); the device compiler is trusted',
                       'the host code that copies the buffers and starts the kernels (opencl/*.cc) is not covered']
ASSUMPTIONS['C19'] += ['the interpreter interface behaves like the stand-in headers shim/oct: arguments are real two-dimensional matrices or strings, and every access to a matrix argument is a fresh conversion',
                       'the response of one point and the window function are called through their contracts, proved here too (units att, arr.apod)']
ASSUMPTIONS['C16'] += ['the interpreter interface behaves like the stand-in headers shim/oct: arguments are real two-dimensional matrices or strings, and every access to a matrix argument is a fresh conversion',
                       'the computation (engine) is called through its contract, proved by the other properties', 'interruption by CTRL-C is not modelled']

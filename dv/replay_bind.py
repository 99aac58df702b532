"""Replay of binding functions: matrices, strings and numbers in, a matrix or an
exception out."""
import ctypes, json, os, random, struct, time
import unit as U_, build as B_

TEXT = {
    'level': ['stop', 'warn', 'ignore'], 'foc': ['off', 'x', 'y', 'xy', 'on', 'x+y', 'ud'], 'steer': ['off', 'x', 'y', 'xy'],
    'apod': ['off', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped', 'ud'],
    'lev': ['stop', 'warn', 'ignore'], 'dev': ['cpu', 'cpu', 'gpu'],
    'method': ['saft', 'tfm', 'rca', 'rca_coltx', 'rca_rowtx'], 'device': ['cpu', 'cpu', 'gpu'], 'verbose': ['', 'verbose'], 'verb': ['', 'verbose'],
}


def sizes(r, u, txt):
    no, num = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4, 5, 7])
    annu = 'annu' in u.name
    if annu:
        num = r.choice([1, 3, 5, 7])
    rings = (num + 1) // 2 if annu else (1 if u.name.endswith('_f') else num)
    vec = lambda n: r.choice([(1, n), (n, 1)])
    nt, nr = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    pairs = nt * (1 if txt.get('method') == 'saft' else nr)
    d = {'ro': (no, 3), 'Ro': (no, 3), 's': vec(4), 'm': vec(3), 'delay': r.choice([(1, 1), vec(no)]), 'G': vec(num) if annu else (num, 3),
         'focal': vec(rings) if txt.get('foc') == 'ud' else (1, 1), 'steerv': vec(2), 'apodv': vec(rings) if txt.get('apod') == 'ud' or r.random() < .5 else (1, 1),
         'Y': (r.choice([1, 4, 60, 300]), pairs), 'Gt': (nt, 3), 'Gr': (nr, 3), 'win': (1, 1), 'dt': (1, 1), 'cp': (1, 1), 'n': (1, 1)}
    if u.name.startswith('oct.das') and r.random() < .2:
        d['Gr'] = (0, r.choice([0, 3]))
    c = r.choice([1, 2, 3])
    d['A'] = (r.choice([1, 2, 5]), c)
    d['B'] = r.choice([(r.choice([1, 2, 4]), c), vec(r.choice([1, 2, 3, 4]))])
    d.update({k: vec(n) for k, n in u.shapes.items() if k != '-'})
    return d


def values(r, nm, n, m):
    k = n * m
    if nm == 's' and k == 2:
        return [r.uniform(.02, .3), float(r.choice([1, 2, 7, 60, 200]))]
    if nm in ('dt', 'cp', 'n') and k == 1:
        return [r.uniform(.02, .3) if nm == 'dt' else r.uniform(900, 2000) if nm == 'cp' else float(r.choice([0, 1, 2, 5, 20]))]
    if nm == 's':
        return [r.uniform(.3, .9), r.uniform(.3, .9), r.uniform(.02, .3), float(r.choice([1, 2, 7, 60, 200]))][:k] + [1.0] * max(0, k - 4)
    if nm == 'm':
        return [r.uniform(.5, 2), r.uniform(900, 2000), r.choice([0.0, r.uniform(.1, 3)])][:k] + [1.0] * max(0, k - 3)
    if nm == 'geom':
        return [r.uniform(.5, 6), r.uniform(.5, 6), r.choice([-1, 1]) * r.uniform(9, 40)][:k] + [1.0] * max(0, k - 3)
    if nm in ('ro', 'Ro'):
        v = [r.uniform(-9, 9) if i < 2 * n else r.uniform(1, 30) for i in range(k)]
        from replay import related
        return related(r, v, n) if m == 3 else v
    if nm == 'G' and m != 3:
        v = sorted(r.uniform(.2, 9) for i in range(k))
        return v
    if nm in ('delay', 'focal'):
        return [r.choice([0.0, r.uniform(0, 9), r.uniform(3, 40)]) for i in range(k)]
    if nm == 'steerv':
        return [r.uniform(-30, 30) for i in range(k)]
    return [r.uniform(-6, 6) for i in range(k)]


class Mat(ctypes.Structure):
    _fields_ = [('p', ctypes.c_void_p), ('nd', ctypes.c_long), ('m', ctypes.c_long), ('n', ctypes.c_long)]


class Arg(ctypes.Structure):        # an Octave value
    _fields_ = Mat._fields_ + [('s', ctypes.c_void_p), ('str', ctypes.c_bool), ('single', ctypes.c_bool), ('own', ctypes.c_bool), ('k', ctypes.c_long)]


class List(ctypes.Structure):       # what an Octave function gives back
    _fields_ = [('n', ctypes.c_long), ('a', Mat), ('b', Mat)]


def registration(u, so, out):
    lib = ctypes.CDLL(so)
    b = ctypes.create_string_buffer(1024)
    getattr(lib, u.fn.strip('^$'))(b)
    q = (ctypes.c_long * 100).from_buffer(b)
    txt = lambda a: ctypes.string_at(a).decode() if a else None
    want = [(x.split('=') + [None])[:2] for x in u.table[1].split()]
    got = {'functions registered': q[1], 'name': txt(q[2]), 'arguments and defaults': [[txt(q[5 + 2*i]), txt(q[6 + 2*i])] for i in range(min(q[4], 20))]}
    exp = {'functions registered': 1, 'name': u.table[0], 'arguments and defaults': want}
    if got != exp:
        json.dump({'unit': u.name, 'function': u.fn, 'input': 'initialisation of the module', 'code': got, 'contract': exp}, open(out, 'w'))
        os._exit(42)
    os._exit(0)


def main(u, label, so, out, seed, budget, hints):
    if u.name.startswith('reg.'):
        return registration(u, so, out)
    mod = B_.module(u.srcs, u.flags, u.passes)
    fname = U_.find(mod, u.fn)
    lib = ctypes.CDLL(so)
    for f in ('dv_alloc', 'dv_string'):
        getattr(lib, f).restype = ctypes.c_void_p
    lib.dv_alloc.argtypes = [ctypes.c_long]
    lib.dv_string.argtypes = [ctypes.c_char_p]
    lib.dv_free.argtypes = [ctypes.c_void_p]
    lib.dv_guard.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_double)]
    addr = lambda n: ctypes.cast(getattr(lib, n), ctypes.c_void_p).value
    real, spec = addr(fname), addr(u.spec)
    octave = u.name.startswith('oct.')
    P = U_.parse_params(u.specparams if octave else u.params)
    if octave:
        P = [(nm, k, dict(o, string=nm in TEXT, matrix=nm not in TEXT)) for nm, k, o in P if nm not in ('ret', 'nin', 'nlhs')]
    r = random.Random(seed)
    t0 = time.time()
    tried = done = 0
    if octave and u.inplace is not None:
        return inplace(u, lib, real, spec, [nm for nm, k, o in P], r, t0 + budget, label, out)
    while time.time() - t0 < budget:
        tried += 1
        os.environ['DREAM_NUM_THREADS'] = str(r.choice([1, 1, 2, 3]))
        txt = {nm: (r.choice(TEXT[nm]) if r.random() < .97 else r.choice(['', 'z', 'of', 'stops', 'uD'])) for nm, k, o in P if o.get('string')}
        if r.random() < .6 and 'level' in txt:
            txt['level'] = 'ignore'
        sh = sizes(r, u, txt)
        mats = [nm for nm, k, o in P if o.get('matrix')]
        sh = {nm: sh[nm] for nm in mats}
        if r.random() < .2:
            nm = r.choice(mats)
            sh[nm] = r.choice([(r.randrange(0, 6), r.randrange(0, 6)), (sh[nm][0], sh[nm][1] + r.choice([-1, 1])), (sh[nm][0] + r.choice([-1, 1]), sh[nm][1]), sh[nm][::-1]])
        nd = {nm: 2 for nm in mats}
        if u.name == 'py.fftconv_p':
            nd = {nm: 1 if sh[nm][1] == 1 and r.random() < .5 else 2 for nm in mats}
        if any(x < 0 for q in sh.values() for x in q):
            continue
        if u.name == 'py.fftconv_p' and any(x < 1 for q in sh.values() for x in q):
            continue
        val = {nm: values(r, nm, *sh[nm]) for nm in mats}
        if u.name == 'oct.att':
            val['m'] = ([r.uniform(900, 2000), r.choice([0.0, r.uniform(.1, 3)])] + [1.0] * 40)[:len(val['m'])]
            if len(val['s']) > 1 and r.random() < .2:
                val['s'][1] = r.choice([0.0, -1.0, 0.7, 1.9])
        if u.name == 'oct.apodwin' and val['apodv'] and r.random() < (.2 if txt['apod'] == 'ud' else .9):
            val['apodv'][0] = r.choice([-1.0, 0.0, 0.9, 1.0, 2.0, 5.0, 6.5, 20.0])
        num = {nm: (r.uniform(.02, .2) if nm == 'dt' else r.uniform(900, 2000) if nm == 'cp' else r.uniform(.1, 2.5)) for nm, k, o in P if k == 'R'}
        case = {'unit': u.name, 'function': u.fn, 'input': dict({nm: {'shape': sh[nm], 'ndim': nd[nm], 'values (column-major)': val[nm][:64]} for nm in mats}, **txt, **num)}
        if octave:
            nin = len(P) - (r.random() < .3) - (r.choice([0, 0, 0, 1, 2]))
            nlhs = r.choice([0, 1, 1, 2, 2, 3])
            flip = {nm for nm, k, o in P if r.random() < .02 and nm != 'Y'}
            f4 = u.name.endswith('.float')
            single = {nm: f4 != (r.random() < (.2 if 'das' not in u.name else .02 if nm not in ('dt', 'cp') else .5)) for nm in mats}
            if 'Y' in single:
                single['Y'] = f4
            case['input'].update({'number of arguments': nin, 'number of outputs': nlhs, 'text given where a matrix is expected, or the other way round': sorted(flip)})
            ocall = lambda what, f: run_oct(lib, f, P, sh, val, txt, nin, nlhs, flip, single, what)
        res = []
        for what, f in ((0, real), (1, spec)):
            json.dump(dict(case, contract_running=bool(what)), open(out, 'w'))
            res.append(ocall(what, f) if octave else run(lib, f, P, sh, nd, val, txt, num))
        d = differ(*res)
        done += not res[1]['raised']
        if d and label != 'safety':
            json.dump(dict(case, mismatch=d, tried=tried), open(out, 'w'))
            os._exit(42)
    if os.path.exists(out):
        os.remove(out)
    if os.environ.get('DV_STAT'):
        open(os.environ['DV_STAT'], 'a').write('%s %d %d\n' % (u.name, tried, done))
    os._exit(0)


def run(lib, f, P, sh, nd, val, txt, num):
    p, d, ret, keep = (ctypes.c_void_p * 20)(), (ctypes.c_double * 8)(), None, []
    np = ndbl = 0
    ty = ctypes.c_double
    for nm, k, o in P:
        if k == 'R':
            if ty is ctypes.c_float:
                d[ndbl] = struct.unpack('d', struct.pack('ff', num[nm], 0.0))[0]
            else:
                d[ndbl] = num[nm]
            ndbl += 1
            continue
        if o.get('matrix'):
            ty = ctypes.c_float if o['elem'] == 4 else ctypes.c_double
            n = len(val[nm])
            q = lib.dv_alloc(n * ctypes.sizeof(ty))
            if n:
                (ty * n).from_address(q)[:] = val[nm]
            x = Mat(q, nd[nm], *sh[nm])
            keep.append((x, q))
            x = ctypes.addressof(x)
        elif o.get('string'):
            x = lib.dv_string(txt[nm].encode())
        else:
            ret = Mat()
            x = ctypes.addressof(ret)
        p[np] = x
        np += 1
    e = lib.dv_guard(f, p, d)
    for x, q in keep:
        lib.dv_free(q)
    if e:
        return {'raised': True}
    n = ret.m * ret.n
    return {'raised': False, 'rows': ret.m, 'columns': ret.n, 'values': list((ty * n).from_address(ret.p)) if n > 0 else [], 'tol': 1e-7 if ty is ctypes.c_double else 1e-4}


def inplace(u, lib, real, spec, names, r, end, label, out):
    """functions that give back matrices or work on one of their arguments"""
    lib.fftw_export_wisdom_to_string.restype = ctypes.c_void_p
    wisdom = ctypes.string_at(lib.fftw_export_wisdom_to_string()).decode()
    texts = {'mode': ['=', '+=', '-='], 'p': ['=', '+=', '-=', wisdom], 'q': [wisdom]}
    tried = done = 0
    while time.time() < end:
        tried += 1
        os.environ['DREAM_NUM_THREADS'] = str(r.choice([1, 1, 2, 3]))
        vec = lambda n: r.choice([(1, n), (n, 1)])
        m, n, nb = r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 6])
        sh = {'a': (m, n), 'b': r.choice([(nb, n), vec(nb)]), 'c': (1, 1), 'y': (m + nb - 1, n), 'h': (m, n), 'u': (nb, r.choice([2, 3]))}
        k = sh['u'][1] if 'h' in names else 1
        val = {'c': [float(r.choice([1, 2, 3, m, m + 1, 0]))]}
        if 'r' in names:
            (r1, r2), (k1, k2) = [sorted([r.randint(1, x), r.randint(1, x)]) for x in (m, n)]
            sh.update(r=vec(2), k=vec(2), b=(r2 - r1 + 1 + r.choice([0, 0, 1]), k2 - k1 + 1))
            val.update(r=[float(r1), float(r2)], k=[float(k1), float(k2)])
            if r.random() < .1:
                r.choice([val['r'], val['k']])[r.randrange(2)] += r.choice([-3, -1, 1, 3])
        if r.random() < .15:
            nm = r.choice([x for x in names if x in sh])
            x, y = sh[nm]
            sh[nm] = r.choice([(r.randrange(0, 6), r.randrange(0, 6)), (x, y + r.choice([-1, 1])), (x + r.choice([-1, 1]), y), (y, x)])
        if 'h' in names and r.random() < .05:
            k += r.choice([-1, 1])
        if any(x < 0 for q in sh.values() for x in q) or ('h' in names and k == 1):
            continue
        nin = u.nin if u.nin is not None else r.choice([x for x in range(len(names) + 2)])
        nlhs = r.choice([0, 0, 1, 1, 2, 3])
        args = {}
        for nm in names:
            if nm == 'y' and u.inplace != 'y':
                text = u.name.endswith('w')
            else:
                text = (nm in texts) != (r.random() < .03) and nm != u.inplace
            d = sh.get(nm, (1, 1))
            z = k if nm == 'h' else 1
            v = val.get(nm, [])
            v = (v + [r.uniform(-6, 6) for _ in range(d[0]*d[1]*z)])[:d[0]*d[1]*z]
            t = r.choice(texts.get(nm, [wisdom])) if r.random() < .93 else r.choice(['', 'x', '==', '+', '(fftw_wisdom)', 'fftw_wisdom'])
            args[nm] = (text, t, d + (z,), v)
        if 'c' in names and args['c'][2][:2] != (1, 1) and args['c'][2][0]*args['c'][2][1] == 1:
            continue
        case = {'unit': u.name, 'function': u.fn, 'input': {'arguments given': nin, 'results asked for': nlhs,
                'arguments': {nm: {'text': t} if text else {'shape': d, 'values (column-major)': v[:64]} for nm, (text, t, d, v) in args.items()}}}
        res = []
        for what, f in ((0, real), (1, spec)):
            json.dump(dict(case, contract_running=bool(what)), open(out, 'w'))
            res.append(run_inplace(u, lib, f, names, args, nin, nlhs, what))
        d = differ(*res)
        done += not res[1]['raised'] and (res[1]['outputs'] > 0 or res[1]['argument'] != args.get(u.inplace, (0,0,0,[]))[3])
        if d and label != 'safety':
            json.dump(dict(case, mismatch=d, tried=tried), open(out, 'w'))
            os._exit(42)
    if os.path.exists(out):
        os.remove(out)
    if os.environ.get('DV_STAT'):
        open(os.environ['DV_STAT'], 'a').write('%s %d %d\n' % (u.name, tried, done))
    os._exit(0)


def run_inplace(u, lib, f, names, args, nin, nlhs, spec):
    A, keep = [], []
    for nm in names + ['-'] * max(0, nin - len(names)):
        text, t, (m, n, k), v = args.get(nm, (False, 'x', (1, 1, 1), [1.0]))
        q = lib.dv_alloc(8 * len(v))
        keep.append(q)
        if v:
            (ctypes.c_double * len(v)).from_address(q)[:] = v
        A.append(Arg(q, 8, m, n, lib.dv_string(t.encode()), text, False, nm == u.inplace, k))
    ret = List()
    p, d = (ctypes.c_void_p * 20)(), (ctypes.c_double * 8)()
    p[0] = ctypes.addressof(ret)
    if spec:
        for i in range(len(names)):
            p[1 + i] = ctypes.addressof(A[i])
        p[1 + len(names)], p[2 + len(names)] = nin, nlhs
    else:
        q = lib.dv_alloc(nin * 24)
        keep.append(q)
        for i in range(nin):
            (ctypes.c_long * 3).from_address(q + 24 * i)[:] = [ctypes.addressof(A[i]), 0, 0]
        L = (ctypes.c_long * 11)(q, nin)
        p[1], p[2] = ctypes.addressof(L), nlhs
    e = lib.dv_guard(f, p, d)
    res = {'raised': bool(e), 'values': [], 'tol': 1e-7}
    if not e:
        x = ret.a
        n = x.m * x.n if ret.n else 0
        res.update({'outputs': ret.n, 'rows': x.m if ret.n else 0, 'columns': x.n if ret.n else 0, 'values': list((ctypes.c_double * n).from_address(x.p)) if n > 0 else [], 'argument': []})
        if u.inplace:
            i = names.index(u.inplace)
            n = len(args[u.inplace][3])
            res['argument'] = list((ctypes.c_double * n).from_address(A[i].p)) if n else []
    for q in keep:
        lib.dv_free(q)
    return res


def run_oct(lib, f, P, sh, val, txt, nin, nlhs, flip, single, spec):
    A, keep = [], []
    for nm, k, o in P:
        text = (o['string']) != (nm in flip)
        m, n = sh.get(nm, (1, 1))
        v = val.get(nm, [1.0])
        ty = ctypes.c_float if o.get('elem') == 4 else ctypes.c_double
        q = lib.dv_alloc(m * n * ctypes.sizeof(ty))
        keep.append(q)
        if m * n:
            (ty * (m * n)).from_address(q)[:] = v
        A.append(Arg(q, ctypes.sizeof(ty), m, n, lib.dv_string(txt.get(nm, 'off').encode()), text, single.get(nm, False) and not text, False, 1))
    ret = List()
    p, d = (ctypes.c_void_p * 20)(), (ctypes.c_double * 8)()
    p[0] = ctypes.addressof(ret)
    if spec:
        for i, a in enumerate(A):
            p[1 + i] = ctypes.addressof(a)
        p[1 + len(A)], p[2 + len(A)] = nin, nlhs
    else:
        size = nin * 24
        q = lib.dv_alloc(size)
        keep.append(q)
        for i in range(nin):
            (ctypes.c_long * 3).from_address(q + 24 * i)[:] = [ctypes.addressof(A[i]), 0, 0]
        L = (ctypes.c_long * 11)(q, nin)
        p[1], p[2] = ctypes.addressof(L), nlhs
    e = lib.dv_guard(f, p, d)
    for q in keep:
        lib.dv_free(q)
    if e:
        return {'raised': True}
    r = ret.a
    n = r.m * r.n
    f4 = any(o.get('elem') == 4 for nm, k, o in P)
    return {'raised': False, 'outputs': ret.n, 'rows': r.m, 'columns': r.n, 'values': list(((ctypes.c_float if f4 else ctypes.c_double) * n).from_address(r.p)) if n > 0 else [],
            'status': ctypes.c_double.from_address(ret.b.p).value if ret.n == 2 else None, 'tol': 1e-4 if f4 else 1e-7}


def differ(A, S):
    import math
    for k in ('raised', 'outputs', 'rows', 'columns', 'status'):
        if A.get(k) != S.get(k):
            return {'what': k, 'code': A.get(k), 'contract': S.get(k)}
    if A['raised']:
        return None
    for key, what in ('values', 'the result'), ('argument', 'the argument worked on in place'):
        x, y = A.get(key, []), S.get(key, [])
        scale = max([abs(v) for v in y if math.isfinite(v)] + [0.0])
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b and not (math.isnan(a) and math.isnan(b)) and not abs(a - b) <= A['tol'] * (scale + abs(b)):
                return {'what': 'element %d (column-major) of %s' % (i, what), 'code': a, 'contract': b}
    return None

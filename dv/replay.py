"""Search a concrete input on which the real code (compiled natively, with the
address sanitizer) breaks the contract (compiled from the same specification
source the proof uses).  Only run after an obligation has failed."""
import os, sys, json, subprocess, tempfile, shutil, ctypes, random, time, re, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')


# ------------------------------------------------------------------ parent side
def build(tmp, units):
    """-> path of the shared library: all of the library and the contracts"""
    import glob
    flags = ['-std=c++17', '-g', '-O1', '-ffp-contract=off', '-fPIC', '-fsanitize=address', '-fno-access-control', '-w']
    flags += ['-DDREAM_PYTHON', '-DHAVE_FFTW', '-I%s/include' % REPO, '-I%s/opencl' % REPO, '-I%s/spec' % HERE, '-I/usr/include/pybind11']
    inc = subprocess.run(['/usr/bin/python3-config', '--includes'], capture_output=True, text=True)
    if inc.returncode == 0:
        flags += inc.stdout.split()
    srcs = sorted(glob.glob('%s/src/*.cc' % REPO)) + [os.path.join(HERE, 'replay/support.cc')]
    more = {}
    if any(u.shapes for u in units):         # bindings: against the stand-ins of the interpreter interface
        flags += ['-I%s/python/include' % REPO]
        flags[:0] = ['-I%s/shim/py' % HERE, '-I%s/shim/oct' % HERE]
    for u in units:
        for s in u.srcs:
            s, *d = s.split()
            more.setdefault(s if s.startswith('/') else os.path.join(HERE if s.startswith(('spec/', 'replay/')) else REPO, s), d)
            srcs.append(s if s.startswith('/') else os.path.join(HERE if s.startswith(('spec/', 'replay/')) else REPO, s))
    procs, objs, err = [], [], ''
    if any(u.shapes for u in units):
        srcs += [os.path.join(HERE, 'replay/guard.cc')] + ['%s/extra_src/%s.cc' % (REPO, f) for f in ('das', 'conv', 'fftconv', 'fftconv_p', 'rect_sir', 'circ_sir', 'scirc_sir')]
    for i, p in enumerate(dict.fromkeys(srcs)):
        o = os.path.join(tmp, '%d.o' % i)
        objs.append(o)
        procs.append(subprocess.Popen(['g++'] + flags + ['-c', p, '-o', o] + more.get(p, []), stderr=subprocess.PIPE, text=True))
        if len(procs) >= 8:
            q = procs.pop(0)
            e = q.communicate()[1]
            err += e[-1500:] if q.returncode else ''
    for q in procs:
        e = q.communicate()[1]
        err += e[-1500:] if q.returncode else ''
    if err:
        return None, err
    so = os.path.join(tmp, 'lib.so')
    r = subprocess.run(['g++', '-shared', '-fsanitize=address', '-o', so] + objs + ['-lfftw3', '-lfftw3f', '-lpthread', '-Wl,--allow-multiple-definition'], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-1500:]
    return so, ''


def search(pairs, seed, budget, hints):
    """pairs: [(unit, label)] -> (dict describing the failing input or None, note)"""
    import props
    pairs = [(n, l) for n, l in pairs if props.UNITS[n].replay][:8]
    if any(n in ('py.das.double', 'reg.das.double') for n, _ in pairs):      # both instances define one global object
        pairs = [q for q in pairs if q[0] not in ('py.das.float', 'reg.das.float')]
    if any(n.startswith('oct.') and getattr(props.UNITS[n], "inplace", None) is not None for n, _ in pairs):      # one file per library
        pairs = [q for q in pairs if props.UNITS[q[0]].srcs == props.UNITS[pairs[0][0]].srcs]
    if any(n.startswith('oct.') for n, _ in pairs):      # one kind of interface per library
        pairs = [q for q in pairs if q[0].split('.')[0] == pairs[0][0].split('.')[0]]
    if not pairs:
        return None, 'no replay for these functions'
    tmp = tempfile.mkdtemp(prefix='dvr.')
    procs = []
    try:
        so, err = build(tmp, [props.UNITS[n] for n, _ in pairs])
        if so is None:
            return None, 'replay library did not build: ' + err
        asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
        env = dict(os.environ, LD_PRELOAD=asan + ' ' + os.path.realpath(cxx), ASAN_OPTIONS='detect_odr_violation=0:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2000')
        copies = max(1, 8 // len(pairs))
        for i, (n, l) in enumerate(pairs):
            for c in range(copies):
                out = os.path.join(tmp, 'case%d.%d.json' % (i, c))
                ef = open(out + '.err', 'w')
                procs.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), n, l, so, out, str(seed * 1000 + c), str(budget), json.dumps(hints.get(n, {}))],
                                               env=env, stdout=subprocess.DEVNULL, stderr=ef), out, n, l))
        t0 = time.time()
        notes = []
        live = list(procs)
        while live and time.time() - t0 < budget + 45:
            time.sleep(0.2)
            for q in list(live):
                p, out, n, l = q
                if p.poll() is None:
                    continue
                live.remove(q)
                err = open(out + '.err').read()
                d = None
                if os.path.exists(out):
                    try:
                        d = json.load(open(out))
                    except ValueError:
                        d = None
                if p.returncode == 42 and d:
                    return d, ''
                if d and not d.get('contract_running'):
                    if 'AddressSanitizer' in err:
                        d['crash'] = '\n'.join(x for x in err.split('\n') if re.search(r'ERROR|#[0-4] |located|SUMMARY', x))[:1500]
                        return d, ''
                    if p.returncode in (-11, -6, -8):
                        d['crash'] = 'signal %d' % -p.returncode
                        return d, ''
                if p.returncode not in (0, 42):
                    notes.append('%s/%s: exit %s %s' % (n, l, p.returncode, err[-300:]))
        return None, '; '.join(notes[:3])
    finally:
        for q in procs:
            if q[0].poll() is None:
                q[0].kill()
                q[0].wait()
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ child side
def ev(t, E):
    from term import cval
    k, a = t.k, t.a
    if k == 'poly':
        r = 0
        for m, c in t.a:
            p = c
            for x, e in m:
                p = p * (ev(x, E) ** e)
            r = r + p
        return r
    if k == 'var':
        return E[a[0]]
    if k == 'ite':
        return ev(a[1], E) if ev(a[0], E) else ev(a[2], E)
    if k == 'bite':
        return ev(a[1], E) if ev(a[0], E) else ev(a[2], E)
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'not':
        return not ev(a[0], E)
    if k == 'and':
        return all(ev(x, E) for x in a)
    if k == 'or':
        return any(ev(x, E) for x in a)
    if k == 'le0':
        return ev(a[0], E) <= 0
    if k == 'eq0':
        return ev(a[0], E) == 0
    if k == 'idiv':
        return ev(a[0], E) // ev(a[1], E)
    if k == 'sum':
        return ev(a[0], E)
    if k == 'app' and a[0] == 'trunc':
        return int(ev(a[1], E))
    raise KeyError(k)


REAL = {  # plausible magnitudes by parameter name
    'xo': (-12, 12), 'yo': (-12, 12), 'zo': (0.5, 30), 'a': (0.5, 8), 'b': (0.5, 8), 'R': (0.5, 5), 'C': (-40, 40), 'f': (3, 60),
    'dx': (0.2, 0.9), 'dy': (0.2, 0.9), 'dt': (0.02, 0.3), 'v': (0.5, 2), 'cp': (900, 2000), 'delay': (-3, 12), 'weight': (-2, 2),
    'das': (-1, 1), 'theta': (-40, 40), 'phi': (-40, 40), 'par': (0.1, 2.5), 'ai': (-2, 2), 'r': (0.5, 30), 'alpha': (0.01, 3),
}
INTS = {'asl': [0, 1, 5, 40, 300], 'NT': [0, 1, 2, 3, 5], 'NR': [0, 1, 2, 4, 6], 'L': [1, 2, 3, 5], 'nx': [1, 2, 3, 8], 'ny': [1, 2, 5], 'hlen': [8, 20, 40], 'AM': [1, 2, 5], 'AN': [1, 2, 3, 5, 8], 'BM': [1, 2, 4], 'BN': [1, 2, 3, 8],
        'nt': [1, 2, 3, 7, 50, 200], 'num': [1, 2, 3, 4, 5, 9], 'foclen': [1, 2, 9], 'No': [1, 2, 3, 5, 9, 17], 'dlen': [1, 2, 5, 17], 'rings': [1, 2, 3, 5], 'n': [0, 1, 2, 3, 5, 8, 16]}


def main():
    name, label, so, out, seed, budget, hints = sys.argv[1:8]
    import props, unit as U_, build as B_, unit
    hints = json.loads(hints)
    u = props.UNITS[name]
    if u.shapes:
        import replay_bind
        return replay_bind.main(u, label, so, out, int(seed), float(budget), hints)
    mod = B_.module(u.srcs, u.flags, u.passes)
    fname = U_.find(mod, u.fn)
    fn, sp = mod.get(fname), mod.get(u.spec)
    P = U_.parse_params(u.params)
    SP = U_.parse_params(u.specparams) if u.specparams else P
    req = u.req()
    lib = ctypes.CDLL(so)
    lib.dv_alloc.restype = ctypes.c_void_p
    lib.dv_alloc.argtypes = [ctypes.c_long]
    lib.dv_free.argtypes = [ctypes.c_void_p]
    for f in ('dv_att', 'dv_fft', 'dv_fftc'):
        getattr(lib, f).restype = ctypes.c_void_p
    lib.dv_att.argtypes = [ctypes.c_long, ctypes.c_double, ctypes.c_double]
    lib.dv_fft.argtypes = lib.dv_fftc.argtypes = [ctypes.c_long]
    CT = {('double',): ctypes.c_double, ('float',): ctypes.c_float, ('ptr',): ctypes.c_void_p}

    def cty(t):
        if t[0] == 'i':
            return {1: ctypes.c_bool, 8: ctypes.c_int8, 32: ctypes.c_int32, 64: ctypes.c_int64}[t[1]]
        return CT[t]

    def bind(f, nm, ret=None):
        c = getattr(lib, nm)
        ts = [q[0] for q in f.params]
        c.argtypes = [cty(t) for t in ts]
        c.restype = None if f.ret in (('void',), None) else cty(f.ret)
        return c
    real = bind(fn, fname)
    spec = bind(sp, u.spec)
    rnd = random.Random(int(seed) * 7919 + hash(label) % 1000 if False else int(seed))
    t0 = time.time()
    lens = {nm: o.get('length') for nm, k, o in P if k == 'P'}
    tried = 0
    kinds = u.safety
    while time.time() - t0 < float(budget):
        tried += 1
        c = gen(rnd, P, req, lens, u, hints if tried % 7 == 3 else {})
        if c is None:
            continue
        ok = True
        base = None
        for rep in range(4):
            cc = c if rep == 0 else perturb(rnd, c, P)
            try:
                if not all(ev(r, cc['env']) for r in req):
                    ok = False
                    break
            except KeyError:
                pass
            json.dump({'unit': name, 'function': u.fn, 'input': show(cc, P), 'contract_running': False}, open(out, 'w'))
            T = 0
            if name.startswith('drv.') or u.threads:
                T = rnd.choice([1, 1, 2, 3, 5, 0])
                os.environ['DREAM_NUM_THREADS'] = str(T)
            A = call(lib, real, P, cc, u)
            if label == 'safety':
                ok = False
                break
            json.dump({'unit': name, 'function': u.fn, 'input': show(cc, P), 'contract_running': True}, open(out, 'w'))
            S = call(lib, spec, SP, cc, u)
            d = differ(A, S, label, u)
            if d is not None and T != 1 and S['result'] == 3:
                d = None     # which rows are finished when the workers stop early depends on the schedule
            if d is None:
                ok = False
                break
            if base is None:
                base = (cc, d)
        if ok:
            json.dump({'unit': name, 'function': u.fn, 'input': show(base[0], P), 'mismatch': base[1], 'tried': tried}, open(out, 'w'))
            os._exit(42)
    os.remove(out)
    os._exit(0)


def gen(rnd, P, req, lens, u, hints):
    for attempt in range(400):
        E, V, rel = {}, {}, {}
        extra = {x for l in lens.values() if l is not None for x in _vars(l)} | {x for r in req for x in _vars(r)}
        names = [(nm, k) for nm, k, o in P if k in 'IR' and 'val' not in o]
        for nm in extra:
            if nm not in [n for n, _ in names] and not nm.startswith('isnull:') and nm not in [n for n, k, o in P if k == 'B']:
                names.append((nm, 'I'))
        for nm, k in names:
            if nm in (u.gen or {}):
                V[nm] = u.gen[nm](rnd, V)
            elif nm in hints and rnd.random() < 0.8:
                V[nm] = hints[nm]
            elif k == 'I':
                V[nm] = rnd.choice(INTS[nm]) if nm in INTS else (rnd.randrange(-1, 9) if rnd.random() < 0.8 else rnd.randrange(0, 40))
            else:
                V[nm] = gen_real(rnd, nm, V, rel)
        for nm, k, o in P:
            if k == 'B':
                V[nm] = rnd.random() < 0.6
            if k == 'P' and o.get('nullable'):
                V['isnull:' + nm] = rnd.random() < 0.4
        E.update(V)
        if hasattr(u, 'adjust') and u.adjust:
            u.adjust(rnd, E)
        try:
            if all(ev(r, E) for r in req):
                break
        except (KeyError, ZeroDivisionError):
            break
    else:
        return None
    arrs = {}
    for nm, k, o in P:
        if k == 'P' and lens[nm] is not None and o.get('stride') in (4, 8, 16, None):
            n = int(ev(lens[nm], E))
            if o.get('stride') is None:
                n = n // 8
            if o.get('stride') == 16:
                n *= 2
            if n > 2000000:
                return None
            arrs[nm] = gen_arr(rnd, nm, max(n, 0), u)
    return {'env': E, 'arr': arrs, 'rel': rel}


def gen_real(rnd, nm, V, rel):
    lo, hi = REAL.get(nm, (-4, 10))
    if nm == 'f' and rnd.random() < 0.5:
        return rnd.uniform(3, 60)
    if nm == 'alpha':
        return rnd.choice([0.0, 0.0, 1e-17, rnd.uniform(0.1, 3)])
    if nm in ('delay', 'theta', 'phi') and rnd.random() < 0.3:
        return 0.0
    if nm in ('xo', 'yo') and rnd.random() < 0.35:
        q = [0.0] + [V[g] / 2 for g in ('a', 'b') if g in V] + [V['R']] if 'R' in V else [0.0]
        rel[nm] = True
        return rnd.choice(q)
    return rnd.uniform(lo, hi)


def related(r, v, n):
    """points of which some share a distance or coordinates"""
    if r.random() < .4:
        for i in range(1, n):
            c, a = r.randrange(6), r.randrange(i)
            if c < 4:
                v[i], v[i + n] = (v[a], v[a + n]) if c == 0 else (-v[a], v[a + n]) if c == 1 else (v[a + n], v[a]) if c == 2 else (v[i], v[i + n])
                v[i + 2 * n] = v[a + 2 * n]
    return v


def gen_arr(rnd, nm, n, u):
    if u.arrgen and nm in u.arrgen:
        return u.arrgen[nm](rnd, n)
    if nm == 'h' and u.name.startswith(('arr.', 'drv.arr')):
        return [0.0] * n
    if nm == 'Gr':
        return sorted(rnd.choice([0.0, rnd.uniform(0.2, 6)]) if i == 0 else rnd.uniform(0.2, 9) for i in range(n))
    if nm == 'Ro':
        return related(rnd, [rnd.uniform(-12, 12) if i < 2 * n // 3 else rnd.uniform(0.5, 30) for i in range(n)], n // 3)
    if nm == 'focal':
        return [rnd.choice([rnd.uniform(3, 40), rnd.uniform(-2, 4)]) for i in range(n)]
    if nm == 'delay':
        return [rnd.choice([0.0, rnd.uniform(-3, 12)]) for i in range(n)]
    m = rnd.random()
    if nm in ('h',) and m < 0.3:
        return [0.0] * n
    if nm in ('gx', 'gy', 'gz') and m < 0.3:
        return [round(rnd.uniform(-9, 9) * 2) / 2 for _ in range(n)]
    if m < 0.1:
        return [float(rnd.randrange(-3, 4)) for _ in range(n)]
    return [rnd.uniform(-9, 9) for _ in range(n)]


def _vars(t):
    from term import free
    return [v.a[0] for v in free(t) if isinstance(v.a[0], str)]


def perturb(rnd, c, P):
    E = dict(c['env'])
    for nm, k, o in P:
        if k == 'R' and E[nm] != 0.0:
            E[nm] = E[nm] * (1 + rnd.uniform(-1, 1) * 1e-5)
    return {'env': E, 'arr': c['arr'], 'rel': c['rel']}


def show(c, P):
    d = {k: v for k, v in c['env'].items()}
    for k, v in c['arr'].items():
        d[k] = v if len(v) <= 64 else v[:32] + ['... %d values' % len(v)]
    return d


def call(lib, f, P, c, u):
    args, bufs = [], {}
    E = c['env']
    att = E.get('alpha', 0.37)
    for nm, k, o in P:
        if k in 'IRB':
            args.append(int(o['val'].a[0][1]) if 'val' in o and o['val'].a else (0 if 'val' in o else E[nm]))
            continue
        if E.get('isnull:' + nm):
            args.append(None)
            continue
        if nm == 'att':
            args.append(lib.dv_att(int(E.get('nt', E.get('n', 8))), E.get('dt', 0.1), att))
        elif nm == 'xc':
            args.append(lib.dv_fftc(int(E.get('nt', E.get('n', 8)))))
        elif nm == 'x':
            args.append(lib.dv_fft(int(E.get('nt', E.get('n', 8))))) if 'x' not in c['arr'] else args.append(mkarr(lib, c['arr'][nm], bufs, nm))
        elif u.objs and nm in u.objs:
            args.append(u.objs[nm](lib, E, c, lambda v: mkarr(lib, v, {}, nm)))
        elif nm in c['arr']:
            args.append(mkarr(lib, c['arr'][nm], bufs, nm, ctypes.c_float if o.get('stride') == 4 else ctypes.c_double))
        else:
            p = lib.dv_alloc(4096)
            ctypes.memset(p, 0, 4096)
            args.append(p)
    if u.before:
        u.before(lib)
    r = f(*args)
    res = {'result': r}
    m = re.match(r'\^?(\w+?)(?:<(\w)\w*>)?::', u.fn)
    if u.extra and m:       # the run flag, as the class reports it / as the contract has it
        if f is lib.__dict__.get(u.spec):
            res['running'] = ctypes.c_bool.in_dll(lib, 'dv_running').value
        else:
            g = getattr(lib, '_ZN%d%s%s10is_runningEv' % (len(m.group(1)), m.group(1), 'I%sE' % m.group(2) if m.group(2) else ''))
            g.restype = ctypes.c_bool
            res['running'] = g(ctypes.c_void_p(lib.dv_alloc(64)))
    for nm, (p, n, ty) in bufs.items():
        res[nm] = list((ty * n).from_address(p)) if n else []
        res['tol:' + nm] = 1e-7 if ty is ctypes.c_double else 1e-4
        lib.dv_free(p)
    return res


def mkarr(lib, v, bufs, nm, ty=ctypes.c_double):
    n = len(v)
    p = lib.dv_alloc(ctypes.sizeof(ty) * n)
    if n:
        (ty * n).from_address(p)[:] = v
    bufs[nm] = (p, n, ty)
    return p


def struct(fields, size=4096):
    """object whose fields (offset, ctype, name of a parameter or a value) are set"""
    def f(lib, E, c, arr):
        p = lib.dv_alloc(size)
        ctypes.memset(p, 0, size)
        for off, ty, x in fields:
            ty.from_address(p + off).value = int(E[x]) if isinstance(x, str) else x
        return p
    return f


def fftobj(ln):
    def f(lib, E, c, arr):
        lib.dv_fftobj.restype = ctypes.c_void_p
        lib.dv_fftobj.argtypes = [ctypes.c_long]
        return lib.dv_fftobj(int(E[ln]))
    return f


def rowtable(nm, n, ln):
    def f(lib, E, c, arr):
        r = random.Random(len(c['arr']) + int(E[ln]))
        t = lib.dv_alloc(8 * int(E[n]))
        for i in range(int(E[n])):
            ctypes.c_void_p.from_address(t + 8*i).value = arr([r.uniform(-3, 3) for _ in range(int(E[ln]))])
        return t
    return f


def setflag(*names):
    def f(lib):
        for n in names:
            ctypes.c_bool.in_dll(lib, n).value = True
    return f


def differ(A, S, label, u):
    import math
    if label in ('result', 'returns'):
        return None if A['result'] == S['result'] else {'what': 'return value', 'code': A['result'], 'contract': S['result']}
    if label == 'running':
        return None if A['running'] == S['running'] else {'what': 'run flag after the call', 'code': A['running'], 'contract': S['running']}
    for (lb, obj, lane, s) in u.outs:
        if lb != label or obj not in A or obj not in S:
            continue
        a, b = A[obj], S[obj]
        scale = max([abs(x) for x in a + b if math.isfinite(x)] + [1e-300])
        for i, (x, y) in enumerate(zip(a, b)):
            if math.isnan(x) and math.isnan(y):
                continue
            if not (abs(x - y) <= A.get('tol:' + obj, 1e-7) * scale) and x != y:
                return {'what': '%s[%d]' % (obj, i), 'code': repr(x), 'contract': repr(y)}
    return None


if __name__ == '__main__':
    main()

"""Compile the current /repo sources (and the contracts) to IR modules."""
import fcntl, os, subprocess, tempfile, hashlib, concurrent.futures as cf, atexit, shutil
import ir

REPO = os.environ.get('DV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ['-DDREAM_PYTHON', '-DHAVE_FFTW']
INC = ['-I%s/shim/py' % HERE, '-I%s/shim/oct' % HERE, '-isystem', '%s/shim/std' % HERE, '-I%s/include' % REPO, '-I%s/opencl' % REPO, '-I%s/python/include' % REPO, '-I%s/spec' % HERE]
ACC = ['-fno-access-control']
_tmp = None


def tmp():
    global _tmp
    if os.environ.get('DV_TMP'):
        return os.environ['DV_TMP']
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='dv.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class BuildError(Exception):
    pass


class once:
    """with once(out) as need: several worker processes share one output file"""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        self.f = open(self.out + '.lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return not os.path.exists(self.out)

    def __exit__(self, *a):
        self.f.close()


_front = {}
_ex = cf.ThreadPoolExecutor(8)


def _cc(src, flags):
    h = hashlib.sha1((src + ' '.join(flags)).encode()).hexdigest()[:12]
    out = os.path.join(tmp(), os.path.basename(src).replace('.', '_') + '.' + h + '.0.ll')
    cc = 'clang++-18'
    with once(out) as need:
        if need:
            r = subprocess.run([cc, '-std=c++17'] + ir.FLAGS_BASE + flags + [src, '-o', out + '.t'], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
            os.rename(out + '.t', out)
    return out


def front(src, flags=None):
    """schedule compilation of one source; returns a future"""
    src, *more = src.split()         # 'file -DX': compiled with X defined
    if not src.startswith('/'):
        src = os.path.join(HERE if src.startswith('spec/') else REPO, src)
    flags = ((DEFS + INC + ACC) if flags is None else flags) + more
    key = (src, tuple(flags))
    f = _front.get(key)
    if f is None:
        f = _front[key] = _ex.submit(_cc, src, flags)
    return f


_mods = {}


def module(srcs, flags=None, passes=None):
    """Linked, cleaned-up module of several sources."""
    key = (tuple(srcs), tuple(flags or ()), passes)
    m = _mods.get(key)
    if m is not None:
        return m
    lls = [f.result() for f in [front(s, flags) for s in srcs]]
    h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
    base = os.path.join(tmp(), 'm.' + h)
    with once(base + '.ll') as need:
        if need:
            src = lls[0]
            if len(lls) > 1:
                r = subprocess.run(['llvm-link', '-S'] + lls + ['-o', base + '.l.ll'], capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError('llvm-link failed: ' + r.stderr[-2000:])
                src = base + '.l.ll'
            r = subprocess.run(['opt', '-S', '-passes=' + (passes or ir.PASSES), src, '-o', base + '.t'], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('opt failed: ' + r.stderr[-2000:])
            os.rename(base + '.t', base + '.ll')
    m = ir.Module(open(base + '.ll').read())
    _mods[key] = m
    return m

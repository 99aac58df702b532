"""A unit of proof: one function of /repo under contract."""
import re, subprocess, time
import build, ir, sym, vc, rel, rt
import term as T
from term import *

EXTRA = {}


def demangle(mod):
    d = getattr(mod, '_dem', None)
    if d is None:
        names = [n for n in mod.pend]
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        d = mod._dem = dict(zip(names, r.stdout.split('\n')))
    return d


def find(mod, rx):
    c = [n for n, d in demangle(mod).items() if re.search(rx, d)]
    if len(c) != 1:
        raise sym.Unsupported('function %s: %d candidates in the current sources' % (rx, len(c)))
    return c[0]


def parse_params(dsl):
    """name  name:i  name:n(nonneg)  name:b  name:r[len]  name:w[len]  name:o (object)  name:s (int array) name:=value"""
    out = []
    env = dict(EXTRA)
    for w in dsl.split():
        if ':' not in w:
            env[w] = var(w, 'R')
            out.append((w, 'R', {}))
            continue
        nm, k = w.split(':')
        if k[0] == '=':
            out.append((nm, 'I', {'val': num(int(k[1:]))}))
        elif k == 'i':
            env[nm] = var(nm, 'I')
            out.append((nm, 'I', {}))
        elif k == 'n':
            env[nm] = var(nm, 'I')
            out.append((nm, 'I', {'nonneg': True}))
        elif k == 'b':
            out.append((nm, 'B', {}))
        elif k in ('M', 'M4'):          # matrix argument of a binding
            for d in ('m', 'n', 'd'):
                env[nm + '.' + d] = var(nm + '.' + d, 'I')
            out.append((nm, 'P', {'stride': None, 'length': num(32), 'writable': False, 'nullable': False, 'matrix': True, 'elem': int(k[1:] or 8)}))
        elif k in ('A', 'A4'):          # Octave argument: a matrix or a string
            for d in ('m', 'n', 'd'):
                env[nm + '.' + d] = var(nm + '.' + d, 'I')
            out.append((nm, 'P', {'stride': None, 'length': num(48), 'writable': False, 'nullable': False, 'matrix': True, 'value': True, 'elem': int(k[1:] or 8)}))
        elif k == 'S':          # std::string argument
            out.append((nm, 'P', {'stride': None, 'length': num(32), 'writable': False, 'nullable': False, 'string': True}))
        elif k[0] == 'f':
            out.append((nm, 'F', {'fn': k[2:]}))
        elif k in ('p', 'q'):
            out.append((nm, 'P', {'stride': None, 'length': num(8), 'writable': k == 'p', 'nullable': False}))
        elif k[0] in 'rwoOC':
            m = re.match(r'(\w)(\d*)(?:\[(.*)\])?(\?)?$', k)
            ln = rt.evalen(m.group(3), env) if m.group(3) else None
            stride = int(m.group(2)) if m.group(2) else (8 if k[0] in 'rw' else None)
            out.append((nm, 'P', {'stride': stride, 'length': ln, 'writable': k[0] in 'wO', 'nullable': bool(m.group(4))}))
        else:
            raise ValueError(w)
    return out


def shape(nm):
    return var(nm + '.m', 'I'), var(nm + '.n', 'I')


class Unit:
    """fn: regex on the demangled signature; spec: name of the contract function.
    props: {label: property id}; label in 'h','result','returns','bounds',... """

    def __init__(self, name, srcs, fn, spec, params, outs=(), requires=None, handlers=None, specparams=None,
                 ptrcfg=None, premem=None, extra=(), ret=True, safety=('bounds', 'frame', 'valid-pointer', 'div-by-zero', 'alloc', 'join', 'invariant', 'fft'), flags=None, passes=None, hints=None, effectless=None, timeout=15000, post=None, replay=True, gen=None, arrgen=None, rflags=None, adjust=None,
                 objs=None, before=None, threads=False, shapes=None, lemmas=None):
        self.__dict__.update(locals())

    def title(self):
        return re.sub(r'\\(.)', r'\1', self.fn.strip('^')).rstrip('(')

    def req(self):
        if self.requires is None:
            return []
        return list(self.requires() if callable(self.requires) else self.requires)

    def run(self, labels=None):
        """-> {label: [Result]}"""
        t0 = time.time()
        T.NULLABLE.clear()
        mod = build.module(self.srcs, self.flags, self.passes)
        fn = find(mod, self.fn)
        P = parse_params(self.params)
        SP = parse_params(self.specparams) if self.specparams else P
        req = self.req() + [le(num(0), var(n_, 'I')) for n_, k_, o_ in P + SP if o_.get('nonneg')]
        H = self.handlers or rt.base()
        pr = vc.Prover(self.timeout)
        lem, given = [], list(req)
        for nm, g in (self.lemmas() if self.lemmas else []):
            ok = pr.lemma([x for x in given if T.free(x) <= T.free(g)], g)
            lem.append(vc.Result('lemma: ' + nm, ok))
            if ok:
                req.append(g)
        code = rel.Run(mod, fn, P, H, req, 'c', True, self.ptrcfg, premem=self.premem, effectless=self.effectless)
        self.code = code
        res = {}
        if self.spec:
            spec = rel.Run(mod, self.spec, SP, H, req, 's', False, self.ptrcfg, premem=self.premem, effectless=self.effectless)
            self.specrun = spec
            outs = [o for o in self.outs]
            res = rel.relate(code, spec, req, outs, pr, self.ret, self.extra, labels=labels)
        if lem:
            res['lemmas'] = lem
        if self.post:
            res.update(self.post(self, code, req, pr))
        if self.safety and (labels is None or '*' in labels or 'safety' in labels):
            res['safety'] = rel.safety(code, req, pr, self.safety)
        self.hintvals = {k: v for k, v in pr.model_vals.items() if '@' not in k and '!' not in k}
        self.assumptions = set(code.ex.assumptions)
        self.functions = sorted(code.ex.called)
        self.wall = time.time() - t0
        return res

"""Function-against-contract proofs: run the real function and its contract
(a spec function) on the same symbolic arguments and prove every output equal."""
import time, re
import ir, sym, vc
import term as T
from term import *

EFFECTLESS = [re.compile(x) for x in (
    r'_ZStls', r'_ZNSo', r'_ZSt4endl', r'_ZSt5flush', r'_ZNSolsE', r'_ZNSt8ios_base', r'_ZSt4setw', r'printf$', r'puts$', r'perror$', r'fprintf$', r'putchar$',
    r'_ZNSaI', r'signal$', r'_ZNSt15basic_streambuf', r'fflush$', r'_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc',
)]


def build_args(fn, params, ex, names=None):
    """params: list of (name, kind, opts)."""
    out = []
    for (name, kind, o) in params:
        if kind in ('R', 'I'):
            v = o.get('val') or var(name, kind)
            if kind == 'I' and o.get('nonneg'):
                sym.NONNEG.add(single_atom(v))
            out.append(v)
        elif kind == 'B':
            out.append(var(name, 'B'))
        elif kind == 'P':
            L = o.get('length')
            if L is not None and o.get('nonneg', True):
                pass
            out.append(ex.param_obj(name, o.get('stride'), L, o.get('writable', False)))
            if o.get('nullable'):
                T.NULLABLE[name] = var('isnull:' + name, 'B')
        elif kind == 'F':
            out.append(fptr(o['fn']))
        else:
            raise ValueError(kind)
    return out


class Run:
    def __init__(self, mod, fname, params, handlers=None, requires=(), tag='c', bounds=True, ptrcfg=None, effectless=None, objs=None, premem=None):
        self.ex = sym.Exec(mod, handlers, tag, (effectless or []) + EFFECTLESS)
        self.ex.check_bounds = bounds
        self.ex.given = list(requires)
        self.ex.ptrcfg = ptrcfg or {}
        fn = mod.get(fname)
        if fn is None:
            raise sym.Unsupported('function %s not found' % fname)
        args = build_args(fn, params, self.ex)
        if len(args) != len(fn.params):
            raise sym.Unsupported('function %s has %d parameters, contract has %d' % (fname, len(fn.params), len(args)))
        st = sym.State(TRUE, {})
        if premem:
            premem(self.ex, st)
        self.st, self.ret, self.aborts = self.ex.run_function(fn, args, st)
        self.fn = fn
        self.req = list(requires)

    def out(self, obj, lane, s):
        v = self.st.mem.get((obj, lane))
        if v is None:
            o = self.ex.objs.get(obj)
            if o is None:
                o = sym.Obj(obj, 8, None, 'param')
                self.ex.objs[obj] = o
            v = self.ex.lane_init(o, lane, s)
        return v


def relate(code, spec, requires, outs, prover, ret=True, extra=(), name='', labels=None):
    """outs: list of (label, obj, lane, sort).  Every output is proved with its
    own coupling, restricted to what that output depends on.
    -> {label: [vc.Result]}"""
    res = {}
    if (code.st is None) != (spec.st is None):
        return {'returns': [vc.Result('termination', False, 'code returns: %s, contract returns: %s' % (code.st is not None, spec.st is not None))]}
    if code.st is None:
        return {'returns': [vc.Result('never returns', True)]}
    items = [('returns', code.st.pc, spec.st.pc)]
    if ret and spec.ret is not None:
        items.append(('result', code.ret, spec.ret))
    for (label, obj, lane, s) in outs:
        items.append((label, code.out(obj, lane, s), spec.out(obj, lane, s)))
    for (label, ct, st) in extra:
        items.append((label, ct(code), st(spec)))
    for label, a, b in items:
        if labels is not None and '*' not in labels and label != 'returns' and label not in labels:
            continue
        need = vc.need_of(spec.ex, [b])
        cp = vc.Coupling(code.ex, spec.ex, prover, requires, need)
        cp.unify_children(None, None, {}, [])
        b2 = cp.rw(b)
        r = prover.eqv(cp.hyps(code.st.pc if label != 'returns' else TRUE), a, b2)
        cp.res.append(vc.Result('value of ' + label, r, '' if r else 'code: %s ; contract: %s' % (T.show(a), T.show(b2))))
        res[label] = cp.res
    return res


def safety(run, requires, prover, kinds=None):
    res = []
    for o in run.ex.obls:
        if kinds and o.kind not in kinds:
            continue
        if o.cond is TRUE:
            res.append(vc.Result('%s: %s' % (o.kind, o.name), True, '', o.loc))
            continue
        hyps = list(requires) + [o.pc] + run.ex.facts
        r = prover.decides(hyps, o.cond) or prover.prove(hyps, o.cond, depth=4)
        res.append(vc.Result('%s: %s' % (o.kind, o.name), r, '' if r else 'under %s need %s' % (T.show(o.pc, 5), T.show(o.cond, 6)), o.loc))
    return res

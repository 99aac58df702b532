"""check.py <property>: prove every obligation of the property on the current
/repo sources; report the first failed one as the violation."""
import os, sys, json, time, traceback, hashlib
if os.environ.get('PYTHONHASHSEED') != '0':      # same search order in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prove(args):
    name, labels, tier = args
    import props, vc
    t0 = time.time()
    u = props.UNITS[name]
    s0 = vc.Stats()
    vc.STATS.__dict__.update(s0.__dict__)
    try:
        if tier == 'thorough':
            u.timeout = 60000
            vc.SECOND = True
        res = u.run(labels)
        out = {l: [(r.name, r.ok, r.detail, r.loc) for r in rs] for l, rs in res.items()}
        return {'unit': name, 'res': out, 'wall': time.time() - t0, 'assumptions': sorted(u.assumptions), 'functions': u.functions,
                'stats': dict(vc.STATS.__dict__), 'fn': u.title(), 'hints': getattr(u, 'hintvals', {})}
    except Exception as e:
        return {'unit': name, 'res': {}, 'wall': time.time() - t0, 'assumptions': [], 'functions': [], 'stats': dict(vc.STATS.__dict__),
                'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2500:], 'fn': u.title()}


def wanted(labels, l):
    return l in labels or l in ('returns', 'termination') or ('*' in labels)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    todo = props.CHECKS[prop]
    merged = {}
    for n, ls in todo:
        merged.setdefault(n, []).extend(ls)
    jobs = [(n, ls, tier) for n, ls in merged.items()]
    results = []
    import tempfile, shutil, atexit
    os.environ['DV_TMP'] = tempfile.mkdtemp(prefix='dv.')
    atexit.register(shutil.rmtree, os.environ['DV_TMP'], True)
    with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        slow = lambda j: -(3 if j[0].startswith('oct.arr') else 2 if j[0].startswith(('ker.', 'arr.', 'py.das', 'oct.')) else 1)
        hs = {j[0]: pool.apply_async(prove, (j,)) for j in sorted(jobs, key=slow)}
        for j in jobs:
            h = hs[j[0]]
            left = 560 - (time.time() - t0) if tier == 'quick' else 3000 - (time.time() - t0)
            try:
                results.append(h.get(max(left, 1)))
            except mp.TimeoutError:
                results.append({'unit': j[0], 'res': {}, 'wall': time.time() - t0, 'assumptions': [], 'functions': [], 'stats': {},
                                'error': 'time limit reached before every obligation was discharged', 'trace': '', 'fn': j[0]})
        pool.terminate()
    bad = []
    total = ok = 0
    per = {}
    for (n, ls, _), r in zip(jobs, results):
        if 'error' in r:
            bad.append((n, None, 'verification conditions could not be generated: ' + r['error'], r['trace'], ''))
            total += 1
            continue
        t = o = 0
        for l, rs in r['res'].items():
            if not wanted(ls, l):
                continue
            for (nm, good, detail, loc) in rs:
                t += 1
                if good:
                    o += 1
                else:
                    bad.append((n, l, nm, detail, loc))
        missing = [l for l in ls if l != '*' and l not in r['res']]
        if missing and 'returns' in r['res'] and not any(x[1] is False or x[1] is None for x in r['res']['returns']):
            bad.append((n, missing[0], 'no obligations generated for ' + missing[0], '', ''))
            t += 1
        total += t
        ok += o
        per[n] = {'function': r['fn'], 'obligations': t, 'discharged': o, 'seconds': round(r['wall'], 1)}
    st = {}
    for r in results:
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
    fnd = {}
    replay = None
    known = []
    if bad:
        replay = report(prop, bad, results, seed, tier, t0)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': ok,
            'checker_cmd': 'python3-vt dv/check.py %s --tier %s' % (prop, tier),
            'trusted_base': props.TRUSTED,
            'functions_under_contract': per,
            'functions_inlined_or_called': sorted({f for r in results for f in r['functions']})[:200],
            'queries': st.get('q', 0), 'closed_by_normalisation': st.get('syn', 0), 'closed_by_z3': st.get('z3', 0), 'confirmed_by_cvc5': st.get('cvc5', 0),
            'solver_seconds': round(st.get('time', 0), 2),
        },
        'assumptions': sorted({a for r in results for a in r['assumptions']}) + props.ASSUMPTIONS.get(prop, []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d of %d obligations discharged over %d functions, %.1f s' % (prop, ok, total, len(jobs), time.time() - t0))
    if bad:
        path, found = replay
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def report(prop, bad, results, seed, tier, t0):
    import replay
    case = None
    tried = []
    budget = 100 if tier == 'quick' else 400
    seen = []
    for n, l, nm, detail, loc in bad:
        for lab in ([l] if l not in (None, 'returns', 'termination') else [y for m, ls in props_of(prop) if m == n for y in ls]):
            if (n, lab) not in seen:
                seen.append((n, lab))
    hints = {r['unit']: r.get('hints', {}) for r in results}
    case, note = None, ''
    if seen:
        try:
            case, note = replay.search(seen, seed, 45 if tier == 'quick' else 200, hints)
        except Exception as e:
            note = repr(e)
    d = {
        'property': prop,
        'failed_obligations': [{'unit': n, 'about': l, 'obligation': nm, 'where': loc, 'verifier_output': detail} for n, l, nm, detail, loc in bad[:20]],
        'failing_input': case,
        'searched': ['%s: %s' % x for x in seen[:8]], 'note': note,
    }
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    p = os.path.join(HERE, 'replays', '%s.json' % prop)
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    b = bad[0]
    print('failed obligation: %s / %s / %s %s' % (b[0], b[1], b[2], b[4]))
    return p, case is not None


def props_of(prop):
    import props
    return props.CHECKS[prop]


def safe(f, *a):
    try:
        return f(*a)
    except Exception as e:
        sys.stderr.write('replay: %r\n' % e)
        return None


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        p = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(p, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': ['the verifier could not process the current sources'], 'verifier_output': traceback.format_exc()}, f, indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        sys.exit(1)

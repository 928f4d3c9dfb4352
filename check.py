#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree
check.py --replay FILE                         replay a recorded violation on the real code
exit 0: every obligation discharged (or only listed known findings fail)
exit 1: VIOLATION line(s); exit 2: the check itself could not run"""
import argparse
import glob
import hashlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
NATIVE_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def modules():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, 'contracts', 'p_*.py')))


def modules_for(pid):
    """contract modules that mention the property"""
    out = []
    for m in modules():
        with open(os.path.join(VERIF, 'contracts', m + '.py')) as f:
            if ("'%s'" % pid) in f.read():
                out.append(m)
    return out


def native(mods, queries, timeout=300):
    env = dict(os.environ, PYVC_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.run([NATIVE_PY, os.path.join(VERIF, 'pyvc', 'nworker.py'), ','.join(mods)] if False else
                       [NATIVE_PY, '-m', 'pyvc.nworker', ','.join(mods)],
                       input='\n'.join(json.dumps(q) for q in queries) + '\n', capture_output=True, text=True,
                       cwd=VERIF, env=env, timeout=timeout)
    out = [json.loads(x) for x in p.stdout.splitlines() if x.startswith('{')]
    if len(out) != len(queries):
        raise RuntimeError('native worker failed: %s' % p.stderr[-3000:])
    return out


def work(args):
    name, tier, pid = args
    t0 = time.time()
    try:
        return work1(name, tier, pid)
    except BaseException as e:
        return {'name': name, 'error': traceback.format_exc()[-3000:], 'wall': time.time() - t0}


def work1(name, tier, pid):
    from pyvc import engine, api, hooks, instrument
    c = next(x for x in api.REGISTRY if x.name == name)
    hooks.FUNC_SEEN.clear()
    hooks.BLK_SEEN.clear()
    kw = {}
    if tier == 'thorough':
        kw = dict(timeout_ms=120000, time_limit=600.0, path_time=240.0)
    t0 = time.time()
    mod = c.module.split('.')[-1]
    ex = engine.Explorer(c, tier, **kw)
    kf = [k for k in known_findings() if k['contract'] == name]

    def confirm(violations):
        qs = {}
        for n, assign, det in violations:
            if len(qs) < 8 and not any(all(assign.get(x) == y for x, y in k.get('when', {}).items()) for k in kf):
                qs.setdefault(n, assign)
        if not qs:
            return False
        return any(o['bad'] and not any(k['obligation'] == o['bad'] for k in kf)
                   for o in native([mod], [{'contract': name, 'assign': x} for x in qs.values()]))
    if tier == 'quick':
        ex.confirm = confirm
    ex.run()
    r = {'name': name, 'module': mod, 'paths': ex.paths, 'stopped': ex.stopped, 'infeasible': ex.infeasible, 'vcs': ex.vcs, 'queries': ex.stats['queries'],
         'undecided': ex.undecided[:10], 'n_undecided': len(ex.undecided), 'covers': ex.covers, 'wall': ex.wall,
         'violations': [], 'unconfirmed': [], 'crosscheck': 0, 'cross_mismatch': [], 'bounded_runs': 0,
         'targets': list(c.targets), 'bounded': c.bounded, 'note': c.note,
         'functions': sorted({'%s:%s' % (os.path.relpath(instrument.FUNCS[k][0], REPO), instrument.FUNCS[k][1]) for k in hooks.FUNC_SEEN}),
         'blocks_total': 0, 'blocks_seen': 0, 'blocks_unreached': []}
    seenfn = {instrument.FUNCS[k][:2] for k in hooks.FUNC_SEEN}
    for k, (fn, line, q, kind) in instrument.BLOCKS.items():
        if (fn, q) in seenfn:
            r['blocks_total'] += 1
            if k in hooks.BLK_SEEN:
                r['blocks_seen'] += 1
            else:
                r['blocks_unreached'].append('%s:%d %s' % (os.path.relpath(fn, REPO), line, q))
    # replay counter-models on the real code under CPython, one per obligation first
    seen = {}
    qs = []
    for n, assign, det in ex.violations:
        k = seen.get(n, 0)
        if k < 25:
            seen[n] = k + 1
            qs.append((n, assign, det))
    if qs:
        for (n, assign, det), o in zip(qs, native([mod], [{'contract': name, 'assign': a} for _, a, _ in qs])):
            if o['bad']:
                r['violations'].append({'obligation': o['bad'], 'predicted': n, 'assign': assign, 'native': o, 'pc': det, 'how': 'counter-model'})
            else:
                r['unconfirmed'].append({'obligation': n, 'assign': assign, 'native': o['status'], 'pc': det})
    # cross-check: one concrete run per explored path
    if ex.samples:
        smp = ex.samples[:400 if tier == 'thorough' else 120]
        for (a, cov), o in zip(smp, native([mod], [{'contract': name, 'assign': a} for a, _ in smp])):
            r['crosscheck'] += 1
            if o['status'] == 'reject':
                r['crosscheck'] -= 1
            elif o['bad']:
                if not any(x['obligation'] == o['bad'] for x in r['violations']):
                    r['violations'].append({'obligation': o['bad'], 'predicted': '', 'assign': a, 'native': o, 'pc': '', 'how': 'path sample'})
            elif sorted(set(o['covers'])) != cov:
                r['cross_mismatch'].append({'assign': a, 'engine': cov, 'native': o['covers']})
    # the other way round: concrete runs with random inputs (a verifier that lost paths would miss what they hit)
    if not ex.violations:
        o = native([mod], [{'contract': name, 'seed': 1, 'known': kf, 'n': 4000 if tier == 'thorough' else 150,
                            'limit': 30 if tier == 'thorough' else 3}])[0]
        r['random_runs'] = o['ran']
        if o['bad']:
            r['violations'].append({'obligation': o['bad'], 'predicted': '', 'assign': o['assign'], 'native': o, 'pc': '', 'how': 'random run'})
    # bounded stand-in where an obligation was not discharged
    need = ex.undecided or r['unconfirmed']
    if (need or r['cross_mismatch']) and not r['violations']:
        n = 20000 if tier == 'thorough' else 3000
        o = native([mod], [{'contract': name, 'seed': 1, 'known': kf, 'n': n, 'limit': 60 if tier == 'thorough' else 15}])[0]
        r['bounded_runs'] = o['ran']
        if o['bad']:
            r['violations'].append({'obligation': o['bad'], 'predicted': '', 'assign': o['assign'], 'native': o, 'pc': '', 'how': 'bounded search'})
    r['wall'] = time.time() - t0
    return r


def known_findings():
    out = []
    f = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(f):
        with open(f) as fd:
            out = json.load(fd)['findings']
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('PYVC_JOBS', '8')))
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        if d['assign'] is None:
            print('no failing input: obligation(s) %s not discharged; %s' % (d['obligations'], d['how_to']))
            return 1
        o = native([d['module']], [{'contract': d['contract'], 'assign': d['assign']}])[0]
        print(json.dumps(o, indent=1))
        print('REPRODUCED' if o['bad'] else 'not reproduced')
        return 1 if o['bad'] else 0
    pid = a.prop
    t0 = time.time()
    from pyvc import engine, api
    engine.setup(REPO, VERIF)
    mods = modules_for(pid)
    engine.load(mods)
    names = [c.name for c in api.REGISTRY if pid in c.prop]
    if a.only:
        names = [n for n in names if n in a.only.split(',')]
    if len(set(c.name for c in api.REGISTRY)) != len(api.REGISTRY):
        print('duplicate contract names', file=sys.stderr)
        return 2
    if not names:
        print('no contract for %s' % pid, file=sys.stderr)
        return 2
    weights = {c.name: c.opts.get('weight', 1) for c in api.REGISTRY}
    names.sort(key=lambda n: -weights[n])
    with multiprocessing.get_context('fork').Pool(min(a.j, len(names))) as pool:
        res = list(pool.imap_unordered(work, [(n, a.tier, pid) for n in names], 1))
    res.sort(key=lambda r: r['name'])
    return report(pid, a, res, t0)


def report(pid, a, res, t0):
    kf = [k for k in known_findings() if k['property'] == pid]
    status = 0
    errors = [r for r in res if 'error' in r]
    res = [r for r in res if 'error' not in r]
    for r in errors:
        print('CHECK-ERROR contract=%s\n%s' % (r['name'], r['error']), file=sys.stderr)
    obligations = discharged = byz3 = byeval = bounded_ob = 0
    weak = []
    hits = set()
    nviol = 0
    reported = set()
    for r in res:
        tot = sum(x[0] for x in r['vcs'].values())
        dz = sum(x[1] for x in r['vcs'].values())
        de = sum(x[2] for x in r['vcs'].values())
        if tot == 0 and not r['n_undecided'] and not r['violations']:
            errors.append(r)
            print('CHECK-ERROR contract=%s produced no obligation (vacuous)' % r['name'], file=sys.stderr)
        if r['n_undecided'] or r['unconfirmed'] or r['cross_mismatch']:
            weak.append(r)
        if r['bounded']:
            bounded_ob += tot
        else:
            obligations += tot
            discharged += dz + de
            byz3 += dz
            byeval += de
            if r['n_undecided']:
                obligations += r['n_undecided']
        groups = {}
        for x in r['violations']:
            groups.setdefault(x['obligation'], []).append(x)
        for ob, xs in sorted(groups.items()):
            rest = []
            for x in xs:
                k = next((k for k in kf if k['contract'] == r['name'] and k['obligation'] == ob and
                          all(x['assign'].get(n) == val for n, val in k.get('when', {}).items())), None)
                if k is not None:
                    hits.add(json.dumps(k, sort_keys=True))
                else:
                    rest.append(x)
            if not rest:
                continue
            x = rest[0]
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            h = hashlib.sha1(json.dumps([r['name'], ob, x['assign']], sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (pid, r['name'], h))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'module': r['module'], 'contract': r['name'], 'obligation': ob, 'assign': x['assign'],
                           'found_by': x['how'], 'native': x['native'], 'path_condition': x['pc'], 'targets': r['targets'],
                           'how_to': 'check.py --replay ' + path}, f, indent=1, default=str)
            print('FAILED obligation %s of contract %s (%s): %s' % (ob, r['name'], x['how'], json.dumps(x['assign'], default=str)[:600]))
            if x['native'].get('detail'):
                print('   ' + x['native']['detail'].strip().splitlines()[-1][:300])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            nviol += 1
            reported.add(r['name'])
            status = 1
    for k in sorted(hits):
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for k in kf:
        if json.dumps(k, sort_keys=True) not in hits:
            print('note: known finding no longer observed: %s' % k['what'])
    for r in weak:
        if r['name'] in reported:
            continue
        obs = sorted({u[0] for u in r['undecided']} | {u['obligation'] for u in r['unconfirmed']} | ({'path-agreement'} if r['cross_mismatch'] else set()))
        print('FAILED to discharge %s of contract %s: %d obligation(s) undecided, %d counter-model(s) not reproduced on the real code, '
              '%d path mismatch(es); bounded search: %d concrete runs, no failing input' %
              (', '.join(obs), r['name'], r['n_undecided'], len(r['unconfirmed']), len(r['cross_mismatch']), r['bounded_runs']))
        for u in r['undecided'][:3]:
            print('   undecided: %s' % (u,))
        for u in r['unconfirmed'][:2]:
            print('   unconfirmed: %s %s' % (u['obligation'], json.dumps(u['assign'], default=str)[:300]))
            if a.v:
                print('       ', u['pc'][-900:])
        for u in r['cross_mismatch'][:2]:
            print('   mismatch: %s' % (json.dumps(u, default=str)[:500]))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-undischarged.json' % (pid, r['name']))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'module': r['module'], 'contract': r['name'], 'obligations': obs, 'assign': None, 'targets': r['targets'],
                       'undecided': r['undecided'], 'unconfirmed_counter_models': r['unconfirmed'][:5], 'path_mismatches': r['cross_mismatch'][:5],
                       'bounded_runs': r['bounded_runs'], 'how_to': 'check.py %s --only %s -v' % (pid, r['name'])}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        nviol += 1
        status = 1
    fns = sorted({f for r in res for f in r['functions']})
    tgt = sorted({t for r in res for t in r['targets']})
    wall = time.time() - t0
    extra = {}
    try:
        with open(os.path.join(VERIF, 'trusted.json')) as f:
            extra = json.load(f)
    except OSError:
        pass
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'discharged_by': {'z3 %s' % _z3v(): byz3, 'symbolic evaluation to True (rope normal forms, z3 simplifier)': byeval},
        'bounded_obligations': bounded_ob,
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, a.tier),
        'trusted_base': extra.get('common', []) + extra.get(pid, []),
        'paths': sum(r['paths'] for r in res), 'solver_queries': sum(r['queries'] for r in res),
        'native_crosscheck_runs': sum(r['crosscheck'] for r in res), 'native_random_runs': sum(r.get('random_runs', 0) for r in res),
        'functions_under_contract': tgt, 'functions_interpreted': fns,
        'contracts': [{'name': r['name'], 'paths': r['paths'], 'obligations': {k: x[0] for k, x in r['vcs'].items()},
                       'bounded': r['bounded'], 'covers': r['covers'], 'undecided': r['n_undecided'], 'seconds': round(r['wall'], 2),
                       'branches': '%d/%d' % (r['blocks_seen'], r['blocks_total']), 'note': r['note'],
                       'stopped_at_first_violation': r['stopped']} for r in res],
        'not_discharged': [{'contract': r['name'], 'undecided': r['undecided'][:3], 'bounded_runs': r['bounded_runs']} for r in weak],
        'known_findings': len(hits), 'errors': len(errors),
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'proof', 'coverage': cov,
          'assumptions': extra.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    only = bool(a.only)
    if not only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in res:
            print('%-40s paths %5d vcs %6d q %6d %6.1fs cov %s br %d/%d' % (r['name'], r['paths'], sum(x[0] for x in r['vcs'].values()), r['queries'], r['wall'], r['covers'], r['blocks_seen'], r['blocks_total']))
            if only:
                print('   unreached:', r['blocks_unreached'])
    print('%s: %d contracts, %d paths, %d/%d obligations discharged (%d by z3, %d by evaluation), %d bounded, %d functions, '
          '%d violation(s), %.1fs' % (pid, len(res), cov['paths'], discharged, obligations, byz3, byeval, bounded_ob, len(fns), nviol, wall))
    if status:
        return 1
    return 2 if errors else 0


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())

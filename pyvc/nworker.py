"""native worker: run with the project's own interpreter.
stdin: JSON lines {contract, assign|seed,n}; stdout: JSON lines"""
import importlib
import json
import os
import random
import sys
import logging

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('PYVC_REPO', '/repo'))
sys.dont_write_bytecode = True

from pyvc import api, native  # noqa


def jsonable(x):
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)


def bad(results, st):
    if st in ('exc', 'timeout'):
        return 'no-unexpected-exception' if st == 'exc' else 'terminates'
    for n, ok in results:
        if not ok:
            return n
    return None


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mods = sys.argv[1].split(',')
    for m in mods:
        importlib.import_module('contracts.' + m)
    by = {c.name: c for c in api.REGISTRY}
    for line in sys.stdin:
        q = json.loads(line)
        c = by[q['contract']]
        if 'assign' in q:
            st, res, used, det, cov = native.run_native(c, q['assign'], limit=q.get('limit', 10))
            # obligations already failed before a later exception still count
            b = None
            for n, ok in res:
                if not ok:
                    b = n
                    break
            b = b or bad(res, st)
            r = {'status': st, 'results': res, 'bad': b, 'detail': det, 'covers': cov}
        else:
            rng = random.Random(q['seed'])
            ran = rej = 0
            b = None
            import time
            t0 = time.time()
            for i in range(q['n']):
                st, res, used, det, cov = native.run_native(c, None, rng)
                if st == 'reject':
                    rej += 1
                    continue
                ran += 1
                for n, ok in res:
                    if not ok:
                        b = n
                        break
                b = b or bad(res, st)
                if b and any(k['obligation'] == b and all(used.get(x) == y for x, y in k.get('when', {}).items()) for k in q.get('known', ())):
                    b = None
                if b or time.time() - t0 > q.get('limit', 20):
                    break
            r = {'ran': ran, 'rejected': rej, 'bad': b, 'assign': {k: jsonable(x) for k, x in used.items()} if b else None,
                 'detail': det if b else ''}
        out.write(json.dumps(r) + '\n')
        out.flush()


main()

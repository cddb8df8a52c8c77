#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   decide one property
check.py replay <file>                 replay a violation exactly
check.py case <property> <json>        run one case (for development)
"""
import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           NUMBA_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME='/root', LANG='C.UTF-8',
           CC='/opt/cc/cc', CXX='/opt/cc/c++')
if os.environ.get('DST_ENV') != '1':
    e = dict(os.environ)
    e.update(ENV)
    e['DST_ENV'] = '1'
    e.pop('PYTHONPATH', None)
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv, e)

import time
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import importlib
import json
import shutil
import tempfile


def load(prop):
    mod = importlib.import_module('props.' + prop)
    if hasattr(mod, 'prepare') and PLACE:
        mod.prepare(*PLACE)
    return mod, mod.FNS


PLACE = []


def main(argv):
    from dst import build, env, harness
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'setup':
        # nothing to build: the checks compile what is stale in a scratch copy themselves
        for d in ('.', 'dst', 'props'):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if f.endswith('.py'):
                    with open(os.path.join(HERE, d, f)) as g:
                        compile(g.read(), f, 'exec')
        print('ready')
        return 0
    repo = os.environ.get('DST_REPO', '/repo')
    root = tempfile.mkdtemp(prefix='dst-')
    try:
        tree = build.ensure(repo, root, lambda s: (print(s), sys.stdout.flush()))
        PLACE[:] = [repo, root]
        env.install(tree)
        if argv[0] == 'replay':
            return harness.replay(argv[1], load, tree, root)
        if argv[0] == 'case':
            mod, fns = load(argv[1])
            c = json.loads(argv[2])
            res = harness.run_case(fns, c, root)
            print(res['status'], res['key'], res['msg'])
            for j in res['jobs']:
                print('  n=%d %s %d events %s %s' % (j['n'], j['outcome'], j['nev'], j['digest'][:12], j['fired']))
            s = res['stats']
            print('%.2f s' % res['wall'], s['kinds'], 'checked', s['checked'], s['probes'])
            return {'ok': 0, 'violation': 1}.get(res['status'], 2)
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        mod, fns = load(argv[0])
        return harness.check(argv[0], tier, seed, mod, fns, tree, root, T0,
                             workers=int(os.environ.get('DST_WORKERS', '8')))
    except BaseException as e:          # noqa
        import traceback
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

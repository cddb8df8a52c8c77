"""Gives the checks a tree to run: /repo itself, or a scratch copy with its compiled modules rebuilt.

The compiled modules that lie in /repo belong to some earlier state of it.  Which state, is recorded in
/repo/build/stamps.  If a source of a compiled module differs from that, the check rebuilds the module
in a scratch copy, and runs the copy.
"""
import hashlib
import os
import shutil
import subprocess
import sys

O, S = 'spectralDNS/optimization', 'spectralDNS/shen'
SUF = '.cpython-312-x86_64-linux-gnu.so'


def _sum(*files):
    h = hashlib.sha256()
    for f in files:
        try:
            with open(f, 'rb') as fd:
                h.update(fd.read())
        except OSError:
            pass
    return h.hexdigest()


def modules(tree):
    """{stamp name: (source, [stems of what is built from it])}"""
    m = {}
    for f in sorted(os.listdir(os.path.join(tree, O))):
        if f.startswith('cython_') and f.endswith('.in'):
            n = f[7:-3]
            m[n] = (os.path.join(O, f), ['%s/cython_%s_%s' % (O, p, n) for p in ('single', 'double')])
    m['LUsolve'] = (S+'/LUsolve.pyx', [S+'/LUsolve'])
    m['pythran'] = (O+'/pythran_maths.py', [O+'/pythran_maths'])
    return m


def stale(tree):
    common = _sum(os.path.join(tree, 'setup.py'), os.path.join(tree, O, 'setup.py'))
    out = []
    for n, (src, stems) in modules(tree).items():
        key = '%s %s' % (common, _sum(os.path.join(tree, src)))
        try:
            with open(os.path.join(tree, 'build/stamps', n)) as f:
                have = f.read().strip()
        except OSError:
            have = ''
        if have != key or not all(os.path.exists(os.path.join(tree, s+SUF)) for s in stems):
            out.append(n)
    return out


def ensure(repo, scratch, log=lambda s: None):
    """Path of a tree whose compiled modules belong to its sources."""
    todo = stale(repo)
    if not todo:
        return repo
    log('rebuilding compiled modules: %s' % ' '.join(todo))
    tree = os.path.join(scratch, 'tree')
    shutil.copytree(repo, tree, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'cpp'))
    for n, (src, stems) in modules(tree).items():
        if n in todo:
            for s in stems:
                for e in ('.cpp', '.c', SUF) + (('.pyx',) if s.startswith(O+'/cython') else ()):
                    try:
                        os.remove(os.path.join(tree, s+e))
                    except OSError:
                        pass
                base = os.path.basename(s)
                for d, _, fs in os.walk(os.path.join(tree, 'build')):
                    for f in fs:
                        if base in f:
                            os.remove(os.path.join(d, f))
        else:
            # up to date by content: say so to the build system, which goes by time
            t = 1.0e9
            os.utime(os.path.join(tree, src), (t, t))
            for s in stems:
                for e in ('.pyx', '.cpp', SUF):
                    p = os.path.join(tree, s+e)
                    if os.path.exists(p):
                        t += 10
                        os.utime(p, (t, t))
                base = os.path.basename(s)
                for d, _, fs in os.walk(os.path.join(tree, 'build')):
                    for f in fs:
                        if base in f:
                            os.utime(os.path.join(d, f), (t+10, t+10))
    env = dict(os.environ)
    env['PYTHONPATH'] = tree
    out = ''
    for cmd, cwd in (([sys.executable, 'setup.py'], os.path.join(tree, O)),
                     ([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', '6'], tree)):
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        out += p.stdout.decode(errors='replace')
        if p.returncode:
            raise RuntimeError('the tree does not build:\n' + out[-3000:])
    return tree

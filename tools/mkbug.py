#!/usr/bin/env python3
"""mkbug.py DIR...: (re)make a planted bug from DIR/bug.py and judge it.

bug.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (python text).
Writes patch.diff, demo.sh, demo.py, meta.json to /verif/seeded/<name>, confirms in a scratch
copy that the tests pass and the demo tells the trees apart, and runs the property's check
on the patched copy.
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '3ac34c9'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def one(src, checks=None, tests=True):
    ns = {}
    exec(open(src).read(), ns)
    name = os.path.basename(src)[:-3]
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='bug-')
    rep = [name]
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in ns['EDITS']:
            p = os.path.join(repo, f)
            b = open(p, 'rb').read()
            crlf = b'\r\n' in b
            t = b.decode().replace('\r\n', '\n')
            if t.count(old) != 1:
                return name + ': old text occurs %d times in %s: %r' % (t.count(old), f, old[:60])
            t = t.replace(old, new)
            open(p, 'wb').write((t.replace('\n', '\r\n') if crlf else t).encode())
        diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        # touched lines must be original ones
        blame_new = 0
        for line in subprocess.run(['git', '-C', repo, 'diff', '-U0'], stdout=subprocess.PIPE, text=True, errors='replace').stdout.splitlines():
            if line.startswith('--- a/'):
                fn = line[6:].strip()
            if line.startswith('@@'):
                a = line.split()[1][1:].split(',')
                s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,+%d' % (s, n), BASE + '..HEAD', '--', fn], stdout=subprocess.PIPE, text=True).stdout
                    new = [x for x in bl.splitlines() if not x.startswith('^')]
                    blame_new += len(new)
                    rep += ['  touches a line of ours: ' + x for x in new]
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the property holds here; nonzero: it is broken\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rep.append('  demo: unchanged %d, patched %d%s' % (r0.returncode, r1.returncode, '' if r0.returncode == 0 and r1.returncode else '   <<<<< BAD\n' + r0.stdout[-500:] + r1.stdout[-500:]))
        if tests:
            e = dict(ENV, PYTHONPATH=os.path.join(repo, 'src'))
            t = subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-x', '-n', '2', '--no-cov', '-p', 'no:cacheprovider', '--timeout=300', '--basetemp=' + os.path.join(tmp, 'bt')], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rep.append('  tests: ' + t.stdout.strip().splitlines()[-1])
        for c in checks or [ns['PROPERTY']]:
            r = subprocess.run(['python3', os.path.join(V, 'check.py'), c], env=dict(ENV, VALORI_REPO=repo, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rep.append('  check %s: rc %d %s' % (c, r.returncode, 'CAUGHT' if r.returncode == 1 else '<<<<< MISSED'))
            rep += ['      ' + x[:300] for x in r.stdout.splitlines()[:1]] if r.returncode == 1 else ['      ' + x[:300] for x in r.stdout.splitlines()[-6:]]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n'.join(rep)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda a: one(a, tests='--notests' not in sys.argv), args):
            print(r, flush=True)

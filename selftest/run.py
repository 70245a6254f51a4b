#!/usr/bin/env python3
"""Self-test of the checks: every edit of mutants*.py is applied to a scratch copy of the headers; 'bug' edits must be
reported by the check of their property, 'refactor' edits must leave it quiet.  Not used by any registered check."""
import os, sys, subprocess, shutil, tempfile, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    r = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'selftest', 'mutants*.py'))):
        s = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        r += m.M
    return r


def go(m):
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree('/repo/include', d + '/include')
        for f, a, b in m['edits']:
            p = d + '/include/graph/' + f
            s = open(p).read()
            if s.count(a) < 1: return m, 'STALE', 'pattern not found in ' + f + ': ' + a[:80]
            n = m.get('nth')
            if n is None: s = s.replace(a, b) if m.get('all') else s.replace(a, b, 1)
            else:
                parts = s.split(a); s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
            open(p, 'w').write(s)
        res = []
        for pr in m['prop'].split(','):
            vd = d + '/verif'
            if not os.path.exists(vd):
                os.makedirs(vd)
                for x in ('sa', 'drivers', 'tools', 'build', 'types'):
                    if os.path.exists(ROOT + '/' + x): os.symlink(ROOT + '/' + x, vd + '/' + x)
                if os.path.exists(ROOT + '/known_findings.txt'): shutil.copy(ROOT + '/known_findings.txt', vd)
            e = dict(os.environ, GRAPH_REPO=d, VERIF_ROOT=vd)
            r = subprocess.run([sys.executable, ROOT + '/sa/check.py', pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            res.append((r.returncode, r.stdout))
        want = 1 if m['kind'] == 'bug' else 0
        ok = any(x[0] == 1 for x in res) if want else all(x[0] == 0 for x in res)
        return m, 'ok' if ok else 'FAIL', '\n'.join('[rc=%d] %s' % (a, b[-1500:]) for a, b in res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ms = load()
    if len(sys.argv) > 1: ms = [m for m in ms if any(a in m['name'] or a in m['prop'].split(',') for a in sys.argv[1:])]
    v = os.environ.get('V')
    with ThreadPoolExecutor(8) as ex:
        bad = 0
        for m, st, out in ex.map(go, ms):
            if st != 'ok': bad += 1
            print('%-6s %-9s %-8s %s' % (st, m['kind'], m['prop'], m['name']))
            if st != 'ok' or v: print('    ' + out.replace('\n', '\n    '))
    print('%d edits, %d not as expected' % (len(ms), bad)); sys.exit(bad > 0)

"""Compiles the drivers against /repo's current headers and runs the rules of one property."""
import hashlib, json, os, re, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('VERIF_ROOT') or os.path.dirname(HERE)
sys.path.insert(0, HERE)
from ir import Module, TooManyPaths
from lib import Ctx, Broken

REPO = os.environ.get('GRAPH_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
LLVM = '/usr/lib/llvm-18/bin'
CXX = os.path.join(LLVM, 'clang++')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tool_irx():
    src = os.path.join(ROOT, 'tools', 'irx.cpp'); out = os.path.join(BUILD, 'irx')
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    st = out + '.sha'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h: return out
    inc = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    inc = [x for x in inc if x.startswith('-I') or x.startswith('-D')]
    ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
    tmp = out + '.%d' % os.getpid()
    r = sh(['g++', '-std=c++17', '-O1', '-fno-rtti'] + inc + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    if r.returncode: raise Broken('cannot build irx: ' + r.stdout[-2000:])
    os.replace(tmp, out); open(st, 'w').write(h)
    return out


VIEW_ANCHORS = ['graph::views::edgelist_view', 'graph::views::vertices_dfs_view']


def forms(out, name):
    """driver lines whose use of the public interface is rejected"""
    r = {}; err = ''
    for l in out.split('\n'):
        m = re.search(r': error: (.*)', l)
        if m: err = m.group(1)
        m = re.search(r'/' + re.escape(name) + r'\.cpp:(\d+):', l)
        if m and err and int(m.group(1)) not in r: r[int(m.group(1))] = 'a documented use is rejected by the compiler: ' + err[:300]
    return sorted(r.items())


def compile_driver(name, tmp, anchors=VIEW_ANCHORS, defs=(), witness=None, fanchors=(), banchors=()):
    """clang -> bitcode -> reduced IR -> Module; recompiled from /repo on every run"""
    irx = tool_irx()
    src = os.path.join(ROOT, 'drivers', name + '.cpp')
    bc = os.path.join(tmp, name + '.bc'); js = os.path.join(tmp, name + '.json')
    r = sh([CXX, '-std=c++20', '-I' + REPO + '/include', '-I' + os.path.join(ROOT, 'drivers'), '-O1', '-Xclang', '-disable-llvm-passes',
            '-include', os.path.join(ROOT, 'drivers', 'prelude.hpp'), '-g', '-fstandalone-debug', '-w', '-emit-llvm', '-c', src, '-o', bc] + list(defs))
    if r.returncode:
        e = forms(r.stdout, name)
        if witness is not None and e:
            for line, what in e: witness.bad('every documented form compiles', '%s/drivers/%s.cpp:%d' % (ROOT, name, line), what, name)
            return None
        raise Broken('driver %s does not compile against the current headers:\n%s' % (name, r.stdout[-3000:]))
    a = []
    for x in anchors: a += ['-anchor', x]
    for x in fanchors: a += ['-fanchor', x]
    for x in banchors: a += ['-banchor', x]
    r = sh([irx] + a + [bc, '-o', js])
    if r.returncode: raise Broken('irx failed on %s: %s' % (name, r.stdout[-2000:]))
    return Module(js)


def load_known():
    """known findings: lines  property=<id> | <rule> | <instance> | <what fails>"""
    p = os.path.join(ROOT, 'known_findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            f = [x.strip() for x in l.split('|')]
            r.append((f[0].replace('property=', ''), f[1], f[2], f[3] if len(f) > 3 else ''))
    return r


def run(prop, spec):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Ctx(prop)
    tmp = tempfile.mkdtemp(prefix='vsa_')
    err = None
    try:
        try:
            spec['run'](c, tmp)
        except TooManyPaths as e:
            raise Broken('path explosion in %s' % e)
        except Broken: raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c.bad('code has a shape the rules can follow', '%s:%d' % (os.path.basename(tb.filename), tb.lineno), 'the structure found does not fit the rule (%s: %s)' % (type(e).__name__, e), '')
    except Broken as e:
        err = str(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known() if k[0] == prop]
    viol = []; kn = []
    for v in c.viol:
        k = [x for x in known if x[1] == v[0] and x[2] == v[1]]
        (kn if k else viol).append(v)
    minob = spec.get('min_obligations', 1)
    if not err and len(c.obl) < minob and not viol:
        err = 'only %d rule instances matched, at least %d were confirmed by hand' % (len(c.obl), minob)
    rules = {}
    for r, i, w, ok in c.obl:
        x = rules.setdefault(r, {'instances': 0, 'discharged': 0}); x['instances'] += 1; x['discharged'] += ok
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'),
          'coverage': {'obligations': len(c.obl), 'discharged': sum(1 for o in c.obl if o[3]),
                       'checker_cmd': 'python3 sa/check.py ' + prop,
                       'trusted_base': ['clang 18 front end and LLVM 18 SROA/EarlyCSE/SimplifyCFG (semantics-preserving lowering)',
                                        'tools/irx.cpp and sa/*.py (the rule engine)',
                                        'libstdc++ containers and algorithms behave as specified (anchors)'],
                       'explanation': 'Static rules over the inlined control-flow graph of %s; every path of each region is enumerated and must satisfy the rules.' % ', '.join(spec.get('drivers', [])),
                       'analysed': c.analysed, 'rules': rules,
                       'entry_points': sorted({o[1] for o in c.obl if o[1]}),
                       'sites': sorted({o[2] for o in c.obl if o[2] and ':' in o[2]})[:200],
                       'samples': [{'rule': o[0], 'instance': o[1], 'where': o[2], 'holds': o[3]} for o in c.obl[:5]]},
          'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    ed = os.path.join(ROOT, 'evidence'); os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1)
    for v in kn:
        print('KNOWN-FINDING: property=%s rule="%s" instance=%s at %s: %s' % (prop, v[0], v[1], v[2], v[3][:300]))
    if viol:
        rp = os.path.join(ed, prop + '.replay.txt')
        with open(rp, 'w') as f:
            for v in viol: f.write('rule: %s\ninstance: %s\nwhere: %s\nwhat: %s\n\n' % v)
        for v in viol[:12]: print('  rule "%s" broken at %s in %s: %s' % (v[0], v[2], v[1], v[3][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if err:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, err)); return 2
    print('OK property=%s obligations=%d analysed=%s wall=%.1fs' % (prop, len(c.obl), c.analysed, time.time() - t0))
    return 0

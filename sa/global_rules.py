"""Whole-program rules over the unreduced IR of all drivers: recursion and mutable static state."""
import json, os, re
from lib import *
from runner import sh, tool_irx, CXX, REPO, ROOT, compile_driver


def load(c, tmp, name, defs=()):
    irx = tool_irx()
    src = os.path.join(ROOT, 'drivers', name + '.cpp'); bc = os.path.join(tmp, name + '.g.bc'); js = os.path.join(tmp, name + '.g.json')
    r = sh([CXX, '-std=c++20', '-I' + REPO + '/include', '-I' + os.path.join(ROOT, 'drivers'), '-O1', '-Xclang', '-disable-llvm-passes', '-include', os.path.join(ROOT, 'drivers', 'prelude.hpp'), '-g', '-w', '-emit-llvm', '-c', src, '-o', bc] + list(defs))
    if r.returncode: raise Broken('driver %s does not compile against the current headers:\n%s' % (name, r.stdout[-3000:]))
    r = sh([irx, '-refs', bc, '-o', js])
    if r.returncode: raise Broken('irx failed on %s: %s' % (name, r.stdout[-2000:]))
    return json.load(open(js))


def ours(name, file=''):
    """defined in the graph namespace of the library (not in a driver)"""
    return bool(re.match(r'_ZT?[HVWIS]*(GV)?Z*N?[VKOR]*5graph', name)) or bool(re.match(r'_Z(Z|GVZ|TH|GV)*N[KVOR]*5graph', name))


def sccs(g):
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for r in g:
        if r in idx: continue
        work = [(r, iter(g[r]))]; idx[r] = low[r] = n; n += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g: continue
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w); work.append((w, iter(g[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    k = []
                    while True:
                        w = st.pop(); on.discard(w); k.append(w)
                        if w == v: break
                    out.append(k)
    return out


def untouched(c, tmp, driver, name):
    """no inlined entry point of the driver writes the object or calls a modifying operation on it"""
    m = compile_driver(driver, tmp)
    for fn in m.fns.values():
        for b, e in all_events(fn):
            if any(contains(a, ('g', name)) or base_of(a) == ('g', name) for a in e.args):
                if e.kind == 'write' and base_of(e.args[0]) == ('g', name): return False
                if e.kind == 'op' and not is_pure_op(e) and e.args and base_of(e.args[0]) == ('g', name): return False
                if e.kind == 'call': return False
    return True


def globals_(c, tmp, drivers):
    from concurrent.futures import ThreadPoolExecutor
    tool_irx()
    with ThreadPoolExecutor(8) as ex: ds = list(ex.map(lambda d: load(c, tmp, d), drivers))
    for dn, d in zip(drivers, ds):
        c.saw('drivers'); c.saw('functions', len(d['functions']))
        F = {f['name']: f for f in d['functions']}
        wh_ = lambda f: '%s:%s' % (f.get('file', '?').replace(REPO + '/', ''), f.get('line', '?'))
        g = {n: f['refs'] for n, f in F.items()}
        mine = [n for n in F if ours(n)]
        c.saw('library functions', len(mine))
        for k in sccs(g):
            if len(k) == 1 and k[0] not in g[k[0]]: continue
            lib = [n for n in k if ours(n)]
            if not lib: continue
            f = F[lib[0]]
            c.bad('no recursion', wh_(f), 'call cycle: ' + ' -> '.join(sorted({re.sub(r'<.*', '', F[n]['dem'])[:90] for n in lib})), re.sub(r'[<(].*', '', f['dem']))
        c.obl.append(('no recursion', dn, '', True))
        G = {x['name']: x for x in d['globals']}
        users = {}
        for f in d['functions']:
            for n, how in f['globals'].items(): users.setdefault(n, []).append((f, how))
        cnt = 0
        for n, x in G.items():
            if not ours(n) or x['decl']: continue
            if re.match(r'_ZT[VISTC]', n): continue
            cnt += 1
            if x['const'] and not x['tls']: continue
            us = [(f, h) for f, h in users.get(n, []) if ours(f['name']) or not f['name'].startswith('_GLOBAL__') and not f['name'].startswith('__cxx_global')]
            if x['size'] <= 1 and not any(h == 'store' for f, h in us) and not n.startswith('_ZGV') and not x['tls']: continue   # stateless tag objects
            if not us or not x['tls'] and all(h == 'ref' for f, h in us) and untouched(c, tmp, dn, n): continue   # only handed on by reference and never modified
            c.bad('no mutable static state', '%s:%s' % (x.get('file', '?').replace(REPO + '/', ''), x.get('line', '?')), '%s is %s state%s' % (x['dem'], 'thread-local' if x['tls'] else 'static mutable', ', used by ' + re.sub(r'[<(].*', '', us[0][0]['dem']) if us else ''), re.sub(r'[<(].*', '', x['dem']))
        c.obl.append(('no mutable static state', dn, '%d globals' % cnt, True))


def exceptions(c, tmp, drivers, all_ops=()):
    """an exception thrown by a function of the user neither ends the program nor disappears inside the library"""
    from concurrent.futures import ThreadPoolExecutor
    tool_irx()
    with ThreadPoolExecutor(8) as ex: ds = list(ex.map(lambda d: load(c, tmp, d, ['-DDRV_THROWS']), drivers))
    for dn, d in zip(drivers, ds):
        c.saw('drivers'); c.saw('functions', len(d['functions']))
        src = (lambda n: n.startswith('drv_')) if dn in all_ops else (lambda n: n.startswith('drv_v_') or re.match(r'drv_q_(vvf|evf)', n))
        F = {f['name']: f for f in d['functions']}
        may = {}; todo = []; rev = {}
        for n, f in F.items():
            for g, how, line in f['calls']: rev.setdefault(g, []).append((n, how, line))
        for g in rev:
            if g not in F and src(g): may[g] = g; todo.append(g)
        c.saw('user functions', len(todo)); sites = 0
        while todo:
            g = todo.pop()
            for n, how, line in rev.get(g, ()):
                if how == 'on' and n not in may: may[n] = g; todo.append(n)
        for n, f in F.items():
            if not ours(n): continue
            for g, how, line in f['calls']:
                if g not in may: continue
                sites += 1; w = g
                while w in F: w = may[w]
                at = '%s:%s' % (f.get('file', '?').replace(REPO + '/', ''), line)
                nm = re.sub(r'<.*', '', f['dem'])[:120]; w = re.sub(r'^drv_[vq]_', '', w)
                c.need(how not in ('end', 'nounwind'), 'a user exception never ends the program', at, 'an exception thrown by the user\'s %s ends the program in %s, which is noexcept' % (w, nm), nm)
                c.need(how != 'caught', 'a user exception is never swallowed', at, 'an exception thrown by the user\'s %s disappears in %s' % (w, nm), nm)
        c.saw('call sites an exception can cross', sites)
        c.obl.append(('exceptions of user functions leave the library', dn, '', True))

"""Rules for the disjoint-set helpers, kruskal / inplace_kruskal and prim."""
from lib import *
from alg_traversal import one, ordered, confined, no_stale_peek, path_str, mark_initial
from alg_paths import norm, neq, arr_writes, linear, lin
from order import Facts, leaves


class Sets:
    """a disjoint-set forest S seen from one function.  cls(e): the expression whose set the vertex e belongs to (following parent links,
    finds and loops that move along them never leaves the set); isroot(e, p, L): e is known to be its own parent on path p of loop L"""

    def __init__(s, fn, S, off=0):
        s.fn = fn; s.S = S; s.off = off; s.phi = {}; s.roots = {}
        cand = {}
        for L in fn.loops:
            for pid, init, _ in header_phis(fn, L): cand[pid] = (L, init)
        s.cand = cand
        # greatest assignment phi -> class that is closed under the back edges
        s.phi = {}
        for _ in range(4):
            for pid, (L, init) in cand.items():
                if pid not in s.phi:
                    c = {repr(s.cls(i)): s.cls(i) for i in init}
                    if len(c) == 1 and init[0][0] not in ('c', 'begin', 'end', 'undef'): s.phi[pid] = list(c.values())[0]
        ch = True
        while ch:
            ch = False
            for pid in list(s.phi):
                L, init = cand[pid]
                ok = all(s.cls(i) == s.phi[pid] for i in init)
                for p in lpaths(fn, L):
                    if p.end[0] == 'back' and (s.cls(p.end[2].get(pid, ('undef',))) != s.phi[pid]): ok = False
                if not ok: del s.phi[pid]; ch = True
        for L in fn.loops:
            P = [q for q in lpaths(fn, L) if q.end[0] not in ('back', 'unreach')]
            for pid, _, _ in header_phis(fn, L):
                if P and all(s.tested(('phi', pid), q) for q in P): s.roots[pid] = L

    def up(s, e):
        """the vertex whose parent link e is, or None"""
        return e[1][2] if e[0] == 'rd' and e[1][0] == 'cell' and e[1][1] == s.S and e[1][3] == s.off else None

    def cls(s, e):
        e = norm(e)
        while True:
            x = s.up(e)
            if x is None and e[0] == 'ret' and 'graph::disjoint_find' in e[:3]: x = e[-1]
            if x is None and e[0] == 'phi' and e[1] in s.phi: return s.phi[e[1]]
            if x is None: return e
            e = norm(x)

    def tested(s, e, p):
        e = norm(e)
        for ev in p.items:
            if ev.kind == 'cond' and ev.pol and ev.args[0][0] == 'cmp' and ev.args[0][1] == 'eq':
                a, b = norm(ev.args[0][2]), norm(ev.args[0][3])
                for x, y in ((a, b), (b, a)):
                    if s.up(y) is not None and norm(s.up(y)) == x and e in (x, y): return True
        return False

    def isroot(s, e, p, L=None):
        e = norm(e)
        if e[0] == 'ret' and 'graph::disjoint_find' in e[:3]: return True
        if e[0] == 'phi' and e[1] in s.roots:
            M = L
            while M is not None and M is not s.roots[e[1]]: M = M.parent
            if M is None: return True
        if s.tested(e, p): return True
        return s.up(e) is not None and s.isroot(s.up(e), p, L)

    def writes(s, p):
        """(parent writes, other writes) into the forest"""
        w = [e for e in arr_writes(p, s.S) if e.args[1] != ('undef',)]
        i = [e for e in w if e.args[0][0] == 'cell' and e.args[0][3] == s.off]
        return i, [e for e in w if e not in i]

    def compress(s, w, p, L=None):
        """the parent write w keeps every set and every root: a vertex is relinked to its root or to a vertex further up its chain"""
        x, y = norm(w.args[0][2]), norm(w.args[1])
        if s.cls(x) != s.cls(y): return False
        if s.isroot(y, p, L): return True
        if s.writes(p)[0][0] is not w: return False
        z = y; n = 0
        while s.up(z) is not None: z = norm(s.up(z)); n += 1
        return n > 0 and z == x

    def rank(s):
        """normaliser: ranks of roots are named by their set"""
        def f(x):
            if x[0] == 'rd' and x[1][0] == 'cell' and x[1][1] == s.S and x[1][3] != s.off: return ('rank', s.cls(x[1][2]))
            return x
        return lambda e: rewrite(norm(e), f)

    def same(s, p, L, ca, cb):
        """(condition event, polarity) comparing the roots of the two sets"""
        for e in p.items:
            if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                a, b = e.args[0][2], e.args[0][3]
                if s.isroot(a, p, L) and s.isroot(b, p, L) and ((s.cls(a), s.cls(b)) in ((ca, cb), (cb, ca))): return e, e.pol
        return None, None


def find_offset(fn):
    """offset of the parent link within an element, from the root tests"""
    for L in [None] + list(fn.loops):
        for p in lpaths(fn, L):
            for e in p.items:
                if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                    a, b = norm(e.args[0][2]), norm(e.args[0][3])
                    for x, y in ((a, b), (b, a)):
                        if y[0] == 'rd' and y[1][0] == 'cell' and norm(y[1][2]) == x: return y[1][1], y[1][3]
    return None, 0


def is_ds(e, *names): return e.kind == 'op' and e.name in ['graph::disjoint_' + n for n in names]


def merge_step(c, inst, tag, D, p, L, ca, cb, need_eq=True):
    """merge obligations on one path for the sets of ca and cb.  True merged / False left alone / None undecided"""
    uf = [e for e in p.items if is_ds(e, 'union_find')]
    un = [e for e in p.items if is_ds(e, 'union')]
    wid, wct = D.writes(p)
    cond, eq = D.same(p, L, ca, cb)
    link = [e for e in wid if not D.compress(e, p, L)]
    ends = lambda e: len(e.args) == 3 and e.args[0] == D.S and (D.cls(e.args[1]), D.cls(e.args[2])) in ((ca, cb), (cb, ca))
    c.need(all(ends(e) for e in uf + un), tag + ' joins the sets of the two vertices', p, 'other sets are joined: [%s]' % path_str(p), inst)
    if uf:
        r = uf[0]
        pol = cond_pol(p, lambda x: x[0] == 'ret' and x[1] == r.inst.id) if r.inst is not None else None
        if pol is None: pol = True if eq is False and len(uf) == 1 else False if eq is True else None
        c.need(len(uf) == 1 and not un and not link and not wct, tag + ' joins the sets once', p, 'sets joined several times: [%s]' % path_str(p), inst)
        c.need(pol is not None, tag + ' compares the roots of both vertices', p, 'outcome of the union is not looked at: [%s]' % path_str(p), inst)
        return pol
    if eq is True:
        c.need(not link and not wct and not un, tag + ' leaves the sets alone when both vertices are in one set', p, 'sets modified although the roots are equal', inst)
        return False
    if need_eq: c.need(eq is False, tag + ' compares the roots of both vertices', p, 'roots are not compared: [%s]' % path_str(p), inst)
    if un:
        c.need(len(un) == 1 and not link and not wct, tag + ' joins the sets once', p, 'sets joined several times: [%s]' % path_str(p), inst)
        if cond is not None: ordered(c, tag + ' compares the roots before joining', inst, p, [cond], un, 'joined before the comparison')
        return True
    good = [e for e in link if D.isroot(e.args[0][2], p, L) and D.isroot(e.args[1], p, L) and (D.cls(e.args[0][2]), D.cls(e.args[1])) in ((ca, cb), (cb, ca))]
    if not c.need(len(link) == 1 and len(good) == 1, tag + ' links exactly one root under the other root', p, '%d parent write(s), %d of them root to root: [%s]' % (len(link), len(good), path_str(p)), inst):
        return True
    ch, pa = good[0].args[0][2], good[0].args[1]
    F = Facts(p, norm=D.rank()); rc, rp = ('rank', D.cls(ch)), ('rank', D.cls(pa))
    c.need(F.ge(rp, rc), tag + ' links the root of smaller rank under the other', good[0], 'rank of the linked root is not known to be at most the rank of the other', inst)
    if F.ge(rp, rc, 1):
        c.need(not wct, tag + ' rank grows only when equal ranks are linked', p, 'rank changed although ranks differ', inst)
    elif F.ge(rc, rp):
        v = D.rank()(wct[0].args[1]) if wct else None
        ok = len(wct) == 1 and wct[0].args[0][0] == 'cell' and D.isroot(wct[0].args[0][2], p, L) and D.cls(wct[0].args[0][2]) == D.cls(pa) and v[0] == 'op' and v[1] == 'add' and C(1) in v[2:] and (rc in v[2:] or rp in v[2:])
        c.need(ok, tag + ' rank of the new root grows by one when equal ranks are linked', p, 'rank update missing or wrong: [%s]' % path_str(p), inst)
    else: c.bad(tag + ' rank of the new root grows by one when equal ranks are linked', p, 'equal and different ranks are not told apart: [%s]' % path_str(p), inst)
    return True


def compressions(c, inst, rule, D, loops):
    """every write into the forest inside these loops is a path compression"""
    ok = set()
    for L in loops:
        good = True
        for p in lpaths(D.fn, L):
            c.saw('paths')
            wid, wct = D.writes(p)
            for e in wid: good = c.need(D.compress(e, p, L), rule, e, 'parent link written that is not a path compression: [%s]' % path_str(p), inst) and good
            good = c.need(not wct, rule, p, 'rank written while searching for a root', inst) and good
            for e in p.items:
                if is_ds(e, 'union', 'union_find'): good = c.need(False, rule, e, 'sets joined while searching for a root', inst)
        if good: ok.add(L)
    return ok


def body(m, name):
    """the function behind a driver entry that only forwards to it"""
    fn = m.entry(name)
    for b, e in all_events(fn):
        if e.kind == 'op' and e.name == 'graph::disjoint_' + name[3:] and e.inst.callee in m.fns: return m.fns[e.inst.callee]
    return fn


def disjoint(c, m):
    # find
    fn = body(m, 'ds_find'); inst = 'disjoint_find'; c.saw('functions')
    _, off = find_offset(fn); D = Sets(fn, A(0), off)
    rule = 'disjoint_find relinks only to the root, following the old parent'
    compressions(c, inst, rule, D, fn.loops)
    for L in [None] + list(fn.loops):
        for p in lpaths(fn, L):
            for e in p.items:
                if is_ds(e, 'find'):     # recursion climbs: only from a vertex that is not its own parent to its parent
                    x = D.up(norm(e.args[1])) if len(e.args) == 2 else None
                    t = x is not None and cond_pol(p, lambda q: q[0] == 'cmp' and q[1] == 'eq' and {repr(norm(q[2])), repr(norm(q[3]))} == {repr(norm(x)), repr(norm(e.args[1]))})
                    c.need(t is False, 'disjoint_find climbs to the root of the vertex', e, 'recursion does not climb', inst)
        if L is not None:
            for p in lpaths(fn, L):
                if p.end[0] == 'back': c.need(any(v != ('phi', k) for k, v in p.end[2].items()), 'disjoint_find climbs to the root of the vertex', p, 'loop makes no progress', inst)
    n = 0
    for L in [None] + list(fn.loops):
        for p in lpaths(fn, L):
            if p.end[0] != 'ret': continue
            if L is not None and not any(e.kind == 'ret' for e in p.items): continue
            c.saw('paths'); n += 1
            rv = [e for e in p.items if e.kind == 'ret'][0].args[0]
            c.need(D.cls(rv) == A(1), 'disjoint_find returns the root', p, 'result %s does not belong to the chain of the vertex' % pp(rv), inst)
            c.need(D.isroot(rv, p, L), 'disjoint_find returns the root', p, 'result %s is not known to be a root' % pp(rv), inst)
            wid, wct = D.writes(p)
            c.need(all(D.compress(e, p, L) for e in wid) and not wct and not any(is_ds(e, 'union', 'union_find') for e in p.items), rule, p, 'parent link written that is not a path compression: [%s]' % path_str(p), inst)
    c.need(n > 0, 'disjoint_find returns the root', fn, 'no result', inst)
    for name in ('ds_union', 'ds_union_find'):
        fn = body(m, name); inst = name.replace('ds_', 'disjoint_'); c.saw('functions')
        D = Sets(fn, A(0), off)
        comp = compressions(c, inst, inst + ' relinks only roots or compressed paths', D, fn.loops)
        for p in lpaths(fn):
            if p.end[0] != 'ret' or Facts(p, norm=D.rank()).absurd(): continue
            c.saw('paths')
            mg = merge_step(c, inst, inst, D, p, None, A(1), A(2), need_eq=name == 'ds_union_find')
            if name == 'ds_union_find':
                rv = [e for e in p.items if e.kind == 'ret'][0].args[0]
                t = cond_pol(p, lambda x: key(x) == key(rv) or ('neg' if rv[0] == 'not' and key(x) == key(rv[1]) else False))
                if rv[0] != 'c' and t is not None: rv = C(1 if t else 0)
                own = rv[0] == 'ret' and any(is_ds(e, 'union_find') and e.inst.id == rv[1] for e in p.items)
                c.need(own or rv == C(1 if mg else 0), 'disjoint_union_find tells whether the sets were merged', p, 'returns %s on a path that %s' % (pp(rv), 'merges' if mg else 'does not merge'), inst)


# ------------------------------------------------------------------ Kruskal
def closures(m, e):
    """lambda bodies reachable from a library call (comparators)"""
    a = m.anchors.get(e.inst.callee)
    return [m.fns[r] for r in a['reaches'] if r in m.fns and not m.fns[r].dem.startswith('__clang')] if a else []


def cmp_result(fn):
    """value returned by a comparator closure, when the same on all paths"""
    vals = []
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        vals += [norm(e.args[0]) for e in p.items if e.kind == 'ret']
    return vals[0] if vals and all(v == vals[0] for v in vals) else None


def fields(e):
    """leaf offset -> argument of a push"""
    lf = e.inst.leaf or []
    return dict(zip([l[1] for l in lf][1:], e.args[1:]))


def one_of(v, opts):
    """every value v can take through its selections is one of opts"""
    return all(k == 0 and any(neq(x, o) for o in opts) for x, k in leaves(v))


def sort_comparison(c, inst, tag, m, se, inv):
    """the sort orders by edge value with the caller's comparison, given directly or as comparison plus projection"""
    rule = tag + ' sorts by edge value with the given comparison'
    o = inv.get('val', 0)
    v = lambda n: ('rd', ('fld', A(n), o) if o else A(n))
    rs = [(f, cmp_result(f)) for f in closures(m, se)]
    plain = [norm(Q('compare', A(1), A(2))), norm(Q('compare', ('rd', A(1)), ('rd', A(2)))), norm(('cmp', 'lt', ('rd', A(1)), ('rd', A(2)))), norm(('cmp', 'lt', A(1), A(2)))]
    direct = [norm(Q('compare', v(1), v(2))), norm(('cmp', 'lt', v(1), v(2)))]
    proj = [f for f, r in rs if r is not None and not any(y == A(2) for y in walk(r))]
    for f, r in rs:
        if f in proj: ok = r in (norm(v(1)), norm(('fld', A(1), o) if o else A(1)))
        else: ok = r in (plain if proj else direct)
        c.need(ok, rule, se, 'comparator computes %s' % (pp(r) if r else 'a path-dependent value'), inst)
    c.need(len(rs) > len(proj), rule, se, 'no comparator found', inst)


def counted_from_zero(fn, L, upto):
    """the loop runs with v = 0, 1, ... as long as upto(path, v) is True, and stops exactly when it is False.  -> [(v, body paths)]"""
    r = []
    for v, i, k, n in inductions(fn, L):
        if k != 'add' or n != 1 or i != C(0): continue
        P = [p for p in lpaths(fn, L) if p.end[0] not in ('unreach', 'throw')]
        if all(upto(p, v) is (p.end[0] == 'back') for p in P): r.append((v, [p for p in P if p.end[0] == 'back']))
    return r


def kruskal(c, m):
    for name, inplace in (('kruskal', False), ('kruskal_default', False), ('inplace_kruskal', True), ('inplace_kruskal_default', True)):
        fn = m.entry(name); inst = name; c.saw('functions'); tag = 'Kruskal'
        IN, OUT, W, NC = A(0), A(1), A(2), A(3)
        EF = {0: 'src', 4: 'tgt', 8: 'val'}       # layout of the user's edge (driver type)
        sorts = [(b, e) for b, e in all_events(fn) if e.kind == 'op' and (last(e.name) in ('sort', 'stable_sort') or '__sort_fn' in e.name or '__stable_sort_fn' in e.name)]
        if not c.need(len(sorts) == 1, tag + ' sorts the edges', fn, 'expected one sort of the edges, found %d' % len(sorts), inst): continue
        se = sorts[0][1]
        sc = [a[1] if a[0] == 'rd' and a[1][0] in ('begin', 'end') else a for a in se.args]
        sc = [a for a in sc if a[0] in ('obj', 'a', 'begin', 'end')]
        its = [a for a in sc if a[0] in ('begin', 'end')]
        if its: c.need([a[0] for a in its] == ['begin', 'end'] and its[0][1] == its[1][1], tag + ' sorts the edges', se, 'sorted range is not the whole container', inst)
        SRT = (its[0][1] if its else base_of(sc[0])) if sc else None
        lay = dict(EF)
        if SRT != IN:
            # copy of every edge
            cps = [(L, iterations(fn, L)) for L in fn.top_loops]
            cps = [(L, i) for L, i in cps if i and i.kind in ('range', 'index') and i.over == IN and any(is_push(e, SRT) for p in i.body for e in p.items)]
            if not c.need(len(cps) == 1 and not cps[0][1].early, tag + ' considers every edge', fn, 'sorted container does not receive every input edge', inst): continue
            L, it = cps[0]
            for p in it.body:
                ps = [e for e in p.items if is_push(e, SRT)]
                if not c.need(len(ps) == 1, tag + ' considers every edge', p, '%d copies of an edge' % len(ps), inst): continue
                el = {}
                for o, v in fields(ps[0]).items():
                    k = None
                    if v[0] == 'rd':
                        a = v[1]
                        if it.kind == 'range': k = 0 if a == it.var else a[2] if a[0] == 'fld' and a[1] == it.var else None
                        elif a[0] == 'cell' and a[1] == IN and a[2] == it.var: k = a[3]
                    el[o] = EF.get(k)
                c.need(sorted(map(str, el.values())) == ['src', 'tgt', 'val'], tag + ' copies source, target and value of each edge', ps[0], 'copied fields are %s' % el, inst)
                lay = el
        inv = {v: k for k, v in lay.items()}
        sort_comparison(c, inst, tag, m, se, inv)
        # main loop: merges
        mains = []
        for L in fn.top_loops:
            it = iterations(fn, L)
            if it and it.kind in ('range', 'index') and it.over == SRT and any(is_push(e, OUT) for p in it.body for e in p.items): mains.append((L, it))
        if not c.need(len(mains) == 1, tag + ' examines every edge in sorted order', fn, 'no loop over the sorted edges that selects edges', inst): continue
        L, it = mains[0]

        def fld(f):
            o = inv[f]
            if it.kind == 'range': return ('rd', ('fld', it.var, o) if o else it.var)
            return ('rd', ('cell', SRT, it.var, o))
        S = None; off = 0
        for e in [e for p in it.body for e in p.items]:
            if is_ds(e, 'find', 'union', 'union_find'): S = e.args[0]
        for L2 in [x for x in fn.loops if x.parent is L]:
            for p in lpaths(fn, L2):
                for e in p.items:
                    if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                        a, b = norm(e.args[0][2]), norm(e.args[0][3])
                        for x, y in ((a, b), (b, a)):
                            if S is None and y[0] == 'rd' and y[1][0] == 'cell' and norm(y[1][2]) == x: S, off = y[1][1], y[1][3]
        if not c.need(S is not None, tag + ' keeps a disjoint-set forest', it.where(), 'no find of the edge ends', inst): continue
        D = Sets(fn, S, off)
        comp = compressions(c, inst, tag + ' sets change only by merging', D, [x for x in fn.loops if x.parent is L])
        ca, cb = norm(fld('src')), norm(fld('tgt'))
        sums = {pid: init for pid, init, _ in header_phis(fn, L)}
        sumok = {k for k, i in sums.items() if i == [C(0)]}; cnt = {}
        merged = {}
        for p in it.body + it.early:
            c.saw('paths')
            if p in it.early and not any(e.kind in ('op', 'loop') and (e.kind == 'loop' or is_ds(e, 'find', 'union', 'union_find')) for e in p.items):
                mg = False; c.need(not D.writes(p)[0] and not [e for e in p.items if is_push(e, OUT)], tag + ' selects an edge exactly when it joins two sets', p, 'edge selected without looking at the sets', inst)
            else:
                mg = merge_step(c, inst, tag, D, p, L, ca, cb)
                ps = [e for e in p.items if is_push(e, OUT)]
                one(c, tag + ' selects an edge exactly when it joins two sets', inst, p, ps, 'selected edge', 1 if mg else 0)
                if ps:
                    got = {k: v for k, v in fields(ps[0]).items()}
                    for e in p.items:
                        if e.kind != 'write' or idx(p, e) < idx(p, ps[0]): continue
                        a = e.args[0]; o = 0
                        if a[0] == 'fld': a, o = a[1], a[2]
                        if a[0] == 'peek' and a[1] == OUT and a[2] == 'back' or a[0] == 'ret' and ps[0].inst is not None and a[1] == ps[0].inst.id: got[o] = e.args[1]
                    for o, f in EF.items():
                        c.need(o in got and neq(got[o], fld(f)), tag + ' outputs source, target and value of the selected edge', ps[0], 'output %s is %s' % (f, pp(got.get(o, ('undef',)))), inst)
            merged[id(p.raw if hasattr(p, 'raw') else p)] = merged[id(p)] = bool(mg)
            if p.end[0] == 'back':
                for k in list(sumok):
                    v = p.end[2].get(k)
                    w = norm(('op', 'add', ('phi', k), fld('val'))) if mg else ('phi', k)
                    if v is None or norm(v) != w: sumok.discard(k)
                for k in sums:
                    v = p.end[2].get(k); v = linear(v, {('phi', k)}) if v is not None else None
                    d = lin(v, {('phi', k): 1}, -1) if v is not None else None
                    d = None if d is None or set(d) - {1} else d.get(1, 0)
                    cnt.setdefault(k, set()).add((bool(mg), d))
        # sizes
        size = None; grow = []
        for b, e in ctor_of(fn, S):
            if opm(e) in ('vector', 'resize', 'assign') and len(e.args) >= 2: size = e.args[1]
        grow = [(L2, [e for p in lpaths(fn, L2) for e in p.items if is_push(e, S)]) for L2 in fn.top_loops]
        grow = [x for x in grow if x[1]]
        mx = None; initL = None
        ids = {('phi', pid): L2 for L2 in fn.top_loops for pid, _, _ in header_phis(fn, L2)}
        if size is not None:
            for x in walk(size):
                if x in ids: mx = x
        elif len(grow) == 1:
            for p in lpaths(fn, grow[0][0]):
                for e in p.conds():
                    for x in walk(e.args[0]):
                        if x in ids and ids[x] is not grow[0][0]: mx = x

        def upto(p, v):
            """v is still an existing set: v <= mx"""
            F = [e for e in p.items if e.kind == 'cond' and e.args[0][0] == 'cmp' and (v in e.args[0][2:] )]
            for e in F:
                op, x, y = e.args[0][1:4]
                if mx and K == 1 and op == 'lt' and y == v and neq(x, mx): return not e.pol
                n = y if x == v else x
                full = mx and ((is_add(n, mx) if K == 1 else neq(n, mx)) or size is not None and n[0] == 'ret' and last(n[2]) == 'size' and n[3] == S)
                if full and (op == 'eq' or op == 'lt' and x == v): return e.pol if op == 'lt' else not e.pol
            return None
        K = 1           # the sets are 0 .. mx+K-1
        if mx is not None and (neq(size, mx) if size is not None else any(e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] in ('lt', 'eq') and neq(e.args[0][3], mx) or e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq' and neq(e.args[0][2], mx) for p in lpaths(fn, grow[0][0]) for e in p.conds())): K = 0
        one_per_id = size is not None and mx is not None and (is_add(size, mx) or K == 0) and not grow or size is None and mx is not None and len(grow) == 1
        c.need(one_per_id, tag + ' one set per vertex id up to the largest id', fn, 'number of sets is %s' % (pp(size) if size else '?'), inst)
        good = False
        if one_per_id:
            max_fold(c, inst, tag, fn, mx, [(IN, EF), (SRT, lay)], 1 - K)
            for L2 in fn.top_loops:
                if L2 is L: continue
                for v, B in counted_from_zero(fn, L2, upto):
                    g = bool(B)
                    for p in B:
                        wi, wc = D.writes(p); ps = [e for e in p.items if is_push(e, S)]
                        if size is None: g = g and not wi and not wc and len(ps) == 1 and fields(ps[0]).get(off) == v and all(x == C(0) for k, x in fields(ps[0]).items() if k != off)
                        else: g = g and not ps and len(wi) == 1 and wi[0].args[0] == ('cell', S, v, off) and wi[0].args[1] == v and all(e.args[0][0] == 'cell' and e.args[1] == C(0) and e.args[0][2] == v for e in wc)
                    if g: good = True; initL = L2
            if not good and size is not None:
                for L2 in fn.top_loops:   # range form over the subsets
                    i2 = iterations(fn, L2)
                    if i2 and i2.kind in ('range', 'index') and i2.over == S and not i2.early:
                        ind = [v for v, i, k, n in inductions(fn, L2) if k == 'add' and n == 1 and i == C(0)]
                        at = (i2.var, ('fld', i2.var, off), ('cell', S, i2.var, off)) if off else (i2.var, ('cell', S, i2.var, off))
                        if any(all(any(e.args[1] == v and e.args[0] in at for e in p.items if e.kind == 'write') for p in i2.body) for v in ind): good = True; initL = L2
        c.need(good, tag + ' every set starts as a singleton', fn, 'no loop that makes every vertex its own set', inst)
        confined(c, tag + ' sets change only by merging', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == S or e.kind == 'op' and is_ds(e, 'union', 'union_find'), {L} | comp | {initL}, 'set write')
        confined(c, tag + ' selects edges only in the main loop', inst, fn, lambda e: is_push(e, OUT), {L}, 'output')
        sym = {('phi', k) for k in cnt} | ({mx} if mx else set())
        # counter steps: d = -1 -> left = N+1 + (phi - init); d = 1 -> left = N+1 - (phi - init)
        left = []
        for k, st in cnt.items():
            ds = {d for g, d in st if g}
            i0 = linear(sums[k][0], {mx} if mx else set()) if len(sums[k]) == 1 else None
            if all(d == 0 for g, d in st if not g) and len(ds) == 1 and ds <= {1, -1} and i0 is not None and mx:
                left.append(lin({key(mx): 1, 1: K} if K else {key(mx): 1}, lin({('phi', k): 1}, i0, -1), -ds.pop()))
        for p in it.early:      # nothing is left to select once a single tree remains
            mg = merged[id(p)]
            ok = False
            for e in p.items:
                if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] in ('eq', 'lt') and e.pol:
                    a, b = linear(e.args[0][2], sym), linear(e.args[0][3], sym)
                    if a is None or b is None: continue
                    d = lin(a, b, -1)
                    for f in left:
                        f = lin(f, {1: 1 if mg else 0}, -1)      # trees left after this edge
                        if e.args[0][1] == 'eq': ok = ok or lin(d, lin(f, {1: 1}, -1), -1) == {} or lin(d, lin(f, {1: 1}, -1), 1) == {}
                        else: ok = ok or lin(d, lin(f, {1: 2}, -1), -1) == {}
            c.need(ok, tag + ' examines every edge in sorted order', p, 'loop can stop before the last edge although several trees are left: [%s]' % path_str(p), inst)
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            c.saw('paths')
            emp = cond_pol(p, lambda x: bool(empty_test(x)) and empty_test(x)[0] == IN)
            ml = [e for e in inner_loops(p) if e.loop is L]
            so = [e for e in p.items if e.inst is se.inst and e.kind == 'op']
            w2 = [e for e in p.items if e.kind == 'write' and e.args[0] == W]; w3 = [e for e in p.items if e.kind == 'write' and e.args[0] == NC]
            if not ml:
                c.need(emp is True and w2 and w2[-1].args[1] == C(0) and w3 and w3[-1].args[1] == C(0), tag + ' skips the search only without edges', p, 'result computed without examining the edges', inst); continue
            one(c, tag + ' sorts the edges', inst, p, so, 'sort'); ordered(c, tag + ' sorts before selecting', inst, p, so, ml, 'selection before the sort')
            # which iterations leave the loop here
            mg = {merged.get(id(q), merged.get(id(getattr(q, 'raw', None)), False)) for q in ml[0].val or ()}
            mg = mg.pop() if len(mg) == 1 else False
            ok2 = len(w2) == 1 and any(neq(w2[0].args[1], ('op', 'add', ('phi', k), fld('val')) if mg else ('phi', k)) for k in sumok)
            c.need(ok2, tag + ' returns the sum of the selected values', p, 'first result is %s' % (pp(w2[0].args[1]) if w2 else '?'), inst)
            v3 = linear(w3[0].args[1], sym) if len(w3) == 1 else None
            single = v3 == {1: 1} and ml[0].val and all(q.end[0] != 'back' and any(id(q) in (id(x), id(getattr(x, 'raw', None))) for x in it.early) for q in ml[0].val)
            ok3 = v3 is not None and (single or any(lin(v3, lin(f, {1: 1 if mg else 0}, -1), -1) == {} for f in left))
            c.need(ok3, tag + ' returns the number of components left', p, 'second result is %s' % (pp(w3[0].args[1]) if w3 else '?'), inst)


def max_fold(c, inst, tag, fn, mx, ranges, plus=0):
    """mx is the largest vertex id over every edge (plus one if asked)"""
    rule = tag + ' largest vertex id taken over both ends of every edge'
    for L in fn.top_loops:
        it = iterations(fn, L)
        hp = {pid: i for pid, i, _ in header_phis(fn, L)}
        if mx[1] not in hp: continue
        rg = [x for x in ranges if it and it.kind in ('range', 'index') and it.over == x[0]]
        if not c.need(bool(rg) and not it.early, rule, it.where() if it else fn, 'maximum is not taken over all the edges', inst): return
        o, lay = rg[0]; inv = {v: k for k, v in lay.items()}
        c.need(hp[mx[1]] in ([C(0)], [C(plus)]), rule, it.where(), 'maximum does not start at zero', inst)

        def fld(f): return ('rd', (('fld', it.var, inv[f]) if inv[f] else it.var) if it.kind == 'range' else ('cell', o, it.var, inv[f]))
        for p in it.body:
            if p.end[0] != 'back': continue
            F = Facts(p, norm=norm)
            if F.absurd(): continue
            c.saw('paths')
            v = listmax(fn, p, p.end[2].get(mx[1], ('undef',)))
            ends = (fld('src'), fld('tgt'))
            for x, k in ((mx, 0), (ends[0], plus), (ends[1], plus)):
                c.need(F.ge(v, x, k), rule, p, 'new maximum %s is not known to be at least %s: [%s]' % (pp(v), pp(x), path_str(p)), inst)
            c.need(all(k == 0 and neq(x, mx) or k == plus and one_of(x, ends) for x, k in leaves(v)), rule, p, 'new maximum %s is no vertex id' % pp(v), inst)
        return
    c.bad(rule, fn, 'no loop computing it', inst)


def listmax(fn, p, v):
    """std::max over an initializer list: the selection between the listed values"""
    if v[0] != 'rd' or v[1][0] != 'phi': return v
    for e in inner_loops(p):
        for pid, init, _ in header_phis(fn, e.loop):
            if ('phi', pid) != v[1] or len(init) != 1: continue
            it = iterations(fn, e.loop)
            b = init[0]; o, k0 = (b[1], b[2]) if b[0] == 'fld' else (b, 0)
            if o[0] != 'obj': continue
            cells = {}
            for w in p.items:
                if w is e: break
                if w.kind == 'write':
                    a = w.args[0]; x, k = (a[1], a[2]) if a[0] == 'fld' else (a, 0)
                    if x == o: cells[k] = w.args[1]
            step = [x for x in inductions(fn, e.loop) if x[2] == 'ptr']
            good = it is not None and len(step) == 1 and sorted(cells) == list(range(0, len(cells) * step[0][3], step[0][3])) and k0 == 0
            if not good: continue
            cur, ini, _, n = step[0]
            end = [z for q in lpaths(fn, e.loop) for cn in q.conds() if cn.args[0][0] == 'cmp' for z in cn.args[0][2:] if z == ('fld', o, len(cells) * n)]
            ahead = ini != b or any(z == ('fld', cur, n) for q in lpaths(fn, e.loop) for cn in q.conds() if cn.args[0][0] == 'cmp' for z in cn.args[0][2:])
            best = ('phi', pid)
            for q in lpaths(fn, e.loop):
                if q.end[0] == 'back':
                    nb = q.end[2].get(pid); nx = q.end[2].get(cur[1])
                    if not (nb in (best, nx, cur) or nb is not None and nb[0] == 'sel'): good = False
                    F = Facts(q, norm=norm)
                    if nb is not None and not all(F.ge(('rd', nb), ('rd', z)) for z in (best, nx if ahead else cur)): good = False
            if not good or not end or not (ini == b or ini == ('fld', b, n)): continue
            r = cells[0]
            for k in sorted(cells)[1:]: r = ('sel', ('cmp', 'lt', r, cells[k]), cells[k], r)
            return r
    return v


# ------------------------------------------------------------------ Prim
def eq_pol2(p, a, b):
    ka, kb = norm(a), norm(b)
    return cond_pol(p, lambda x: x[0] == 'cmp' and x[1] == 'eq' and {repr(norm(x[2])), repr(norm(x[3]))} == {repr(ka), repr(kb)} and repr(ka) != repr(kb))


def prim(c, m):
    for name, dflt in (('prim', False), ('prim_default', True)):
        fn = m.entry(name); inst = name; c.saw('functions'); tag = 'Prim'
        pred, wt = A(1), A(2); seed = A(3) if dflt else A(4); infd = C(2147483647) if dflt else A(3)
        ds = find_drains(fn)
        if not c.need(len(ds) == 1, tag + ' queue loop', fn, 'expected one loop that drains the queue, found %d' % len(ds), inst): continue
        d = ds[0]; O = d.obj
        c.need(wl_discipline(fn, O) == 'prio', tag + ' uses a priority queue', d.where(), 'worklist is not a priority queue', inst)
        c.need(not d.early, tag + ' drains the queue', d.early[0] if d.early else d.where(), 'search can stop with entries queued', inst)
        el = [(L, iterations(fn, L)) for L in d.L.children]
        el = [(L, i) for L, i in el if i and i.kind == 'edges']
        if not c.need(len(el) == 1, tag + ' scans the edges of every vertex added', d.where(), 'no loop over all edges of the vertex added', inst): continue
        L, it = el[0]; u = it.over; e_ = it.var; v = Q('target', e_, u)
        w = Q('edge_value', e_, u) if dflt else Q('weight', e_, u)
        c.need(not it.early, tag + ' scans the edges of every vertex added', it.early[0] if it.early else it.where(), 'edge scan can stop early', inst)
        pk = u[1] if u[0] == 'rd' else None
        vo = pk[2] if pk and pk[0] == 'fld' else 0
        c.need(bool(pk) and base_of(pk) == O, tag + ' adds the vertex on top of the queue', it.where(), 'edges scanned belong to %s' % pp(u), inst)
        # in-tree marks
        intree = None
        for p in it.body:
            for e in p.conds():
                x = e.args[0]
                for y in walk(x):
                    if y[0] == 'rd' and y[1][0] == 'cell' and neq(y[1][2], v) and truth(p, ('cell', y[1][1], v, 0)) is not None: intree = y[1][1]
        if not c.need(intree is not None, tag + ' never re-attaches a vertex already in the tree', it.where(), 'no test whether the target is already in the tree', inst): continue
        mark_initial(c, tag + ' tree starts empty', inst, fn, intree, 0)
        dist = None
        for p in it.body:
            for e in p.conds():
                for y in walk(e.args[0]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and neq(y[1][2], v) and y[1][1] != intree: dist = y[1][1]
        if not c.need(dist is not None, tag + ' compares with the best edge so far', it.where(), 'no comparison with the best edge known for the target', inst): continue
        if dist not in (wt,):
            ini = [e for b, e in ctor_of(fn, dist) if opm(e) in ('vector', 'assign', 'resize')]
            c.need(any(len(e.args) >= 3 and e.args[1] == Q('num_vertices') and e.args[2] == infd for e in ini), tag + ' best edges start at the initial distance', fn, 'best-edge array is not created with num_vertices(g) copies of the initial distance', inst)
        # comparator: best on top
        pushes = [e for b, e in all_events(fn) if is_push(e, O)]
        wo = [o for o in fields(pushes[0]) if o != vo] if pushes else []
        for e in pushes[:1]:
            cl = closures(m, e)
            c.need(len(cl) == 1 and len(wo) == 1, tag + ' takes the best edge first', e, 'no queue comparator found', inst)
            for f in cl:
                r = cmp_result(f)
                a = lambda n: ('rd', ('fld', A(n), wo[0]) if wo[0] else A(n))
                c.need(r in (norm(Q('compare', a(2), a(1))), norm(('cmp', 'lt', a(2), a(1)))), tag + ' takes the best edge first', e, 'queue comparator computes %s' % (pp(r) if r else '?'), inst)
        for p in it.body:
            c.saw('paths')
            it_ = truth(p, ('cell', intree, v, 0))
            better = cond_pol(p, lambda x: norm(x) in (norm(Q('compare', w, ('rd', ('cell', dist, v, 0)))), norm(('cmp', 'lt', w, ('rd', ('cell', dist, v, 0))))))
            n = 1 if better is True and it_ is False else 0
            c.need(it_ is True or better is not None, tag + ' tests every edge that leaves the tree', p, 'edge to a vertex outside the tree is skipped: [%s]' % path_str(p), inst)
            c.need(not (n == 0 and better is True and it_ is None), tag + ' never re-attaches a vertex already in the tree', p, 'tree membership of the target not tested: [%s]' % path_str(p), inst)
            for arr, val, what in ((dist, w, 'best edge'), (pred, u, 'predecessor'), (wt, w, 'tree edge weight')):
                ws = arr_writes(p, arr)
                g = [e for e in ws if neq(e.args[0], ('cell', arr, v, 0)) and neq(e.args[1], val)]
                c.need(len(ws) == n and len(g) == n, '%s records the %s exactly on improvement' % (tag, what), p, '%d write(s), %d of them correct, expected %d: [%s]' % (len(ws), len(g), n, path_str(p)), inst)
            ps = [e for e in p.items if is_push(e, O)]
            g = [e for e in ps if neq(fields(e).get(vo, ('undef',)), v) and all(neq(fields(e)[o], w) or (fields(e)[o][0] == 'rd' and neq(fields(e)[o], ('rd', ('cell', dist, v, 0))) and all(not rd_before(p, fields(e)[o], x) for x in arr_writes(p, dist))) for o in wo)]
            c.need(len(ps) == n and len(g) == n, tag + ' queues the target with its new edge weight exactly on improvement', p, '%d enqueue(s), %d of them (target, weight), expected %d' % (len(ps), len(g), n), inst)
        for p in d.body:
            c.saw('paths')
            one(c, tag + ' dequeues one entry per step', inst, p, [e for e in p.items if is_pop(e, O)], 'dequeue')
            tr = truth(p, ('cell', intree, u, 0))
            n = 0 if tr else 1
            c.need(tr is not None, tag + ' adds each vertex once', p, 'tree membership of the dequeued vertex not tested', inst)
            one(c, tag + ' scans the edges of every vertex added', inst, p, [e for e in inner_loops(p) if e.loop is L], 'edge scan', n)
            mk = [e for e in p.items if cell_write(e, intree)]
            c.need(len(mk) >= n and all(neq(cell_write(e)[1], u) and cell_write(e)[2] in (C(1), C(-1)) for e in mk), tag + ' marks every vertex added', p, 'mark missing or wrong', inst)
            ordered(c, tag + ' marks a vertex before scanning its edges', inst, p, mk, [e for e in inner_loops(p) if e.loop is L], 'edges scanned before the vertex is marked')
        confined(c, tag + ' marks only vertices added', inst, fn, lambda e: bool(cell_write(e, intree)), {d.L}, 'tree mark')
        # total
        rets = [p for p in lpaths(fn) if p.end[0] == 'ret']
        for p in rets:
            c.saw('paths')
            lp = [e for e in inner_loops(p) if e.loop is d.L]
            if not lp:
                c.need(eq_pol(p, C(0), Q('num_vertices')) is True, tag + ' runs the search', p, 'returns without search', inst); continue
            sd = [e for e in p.items if is_push(e, O)]
            c.need(len(sd) == 1 and neq(fields(sd[0]).get(vo, ('undef',)), seed), tag + ' starts from the seed', p, 'queue is not started with the seed', inst)
            wp = [e for e in arr_writes(p, pred)]
            c.need(len(wp) == 1 and neq(wp[0].args[0], ('cell', pred, seed, 0)) and neq(wp[0].args[1], seed), tag + ' the seed is its own predecessor', p, 'predecessor[seed] is not the seed', inst)
            ordered(c, tag + ' starts before the search', inst, p, sd + wp, lp, 'seed set up after the search')
            c.need(not arr_writes(p, wt), tag + ' weights written only on improvement', p, 'stray weight write', inst)
            rv = [e for e in p.items if e.kind == 'ret'][0].args[0]
            tot = None
            for e in inner_loops(p):
                i2 = d if e.loop is d.L else iterations(fn, e.loop)
                if i2 and (i2 is d or i2.kind == 'vertices') and rv[0] == 'phi' and rv[1] in [q for q, _, _ in header_phis(fn, e.loop)]: tot = (e, i2)
            if not c.need(tot is not None, tag + ' returns the total over the tree', p, 'result is %s' % pp(rv), inst): continue
            i2 = tot[1]; inside = i2 is d
            # weight the seed's queue entry and best edge start with
            sw = [fields(e).get(o, ('undef',)) for e in sd[:1] for o in wo]
            sdist = [e.args[1] for e in p.items if cell_write(e, dist) and neq(cell_write(e)[1], seed)]
            zs = bool(sdist) and sdist[-1] == C(0) and dist != wt
            zq = bool(sw) and (sw[0] == C(0) or zs and neq(sw[0], ('rd', ('cell', dist, seed, 0))))
            if not inside: ordered(c, tag + ' totals after the search', inst, p, lp, [tot[0]], 'total before the search')
            init = [i for q, i, _ in header_phis(fn, tot[0].loop) if q == rv[1]][0]
            c.need(init == [C(0)] and not i2.early, tag + ' returns the total over the tree', i2.where(), 'sum does not start at zero or stops early', inst)
            x = u if inside else i2.var
            t = pk[1] if pk and pk[0] == 'fld' else pk
            for q in i2.body:
                c.saw('paths')
                se = eq_pol2(q, x, seed); tr = truth(q, ('cell', intree, x, 0))
                if q.end[0] != 'back': continue
                nv = norm(q.end[2].get(rv[1], ('undef',)))
                add = lambda y: norm(('op', 'add', rv, ('rd', y)))
                inc = (tr is not True) if inside else (tr is True)      # inside the search a vertex is added when it was not marked yet
                if not inc: want = [norm(rv)]
                else:
                    want = [add(('cell', wt, x, 0))] if se is False else [norm(rv)] if se else []
                    if zs: want += [add(('cell', dist, x, 0))]
                    if inside and zq and wo: want += [add(('fld', t, wo[0]) if wo[0] else t)]
                c.need(nv in want, tag + ' totals exactly the weights of tree vertices other than the seed', q, 'sum becomes %s: [%s]' % (pp(q.end[2].get(rv[1])), path_str(q)), inst)
        confined(c, tag + ' outputs written only on improvement', inst, fn, lambda e: (e.kind == 'write' and base_of(e.args[0]) in (pred, wt)) or is_push(e, O), {L, None}, 'output write')
        no_stale_peek(c, inst, fn, [d.L, L])

"""Edge lookups, derived counts and partition defaults of the generic interface, over opaque graphs."""
from lib import *
from order import Facts


def teval(e, *paths):
    """truth of e on a path, given the comparisons made on it"""
    if e[0] == 'c': return e[1] != 0
    if e[0] == 'not':
        r = teval(e[1], *paths); return None if r is None else not r
    if e[0] == 'sel':
        c = teval(e[1], *paths)
        if c is not None: return teval(e[2] if c else e[3], *paths)
        a, b = teval(e[2], *paths), teval(e[3], *paths)
        return a if a == b else None
    for p in paths:
        if p is None: continue
        r = cond_pol(p, lambda c: key(c) == key(e))
        if r is not None: return r
        if e[0] == 'cmp' and e[1] == 'eq':
            r = eq_pol(p, e[2], e[3])
            if r is not None: return r
    return None


def chosen(e, *paths):
    """the value of e on a path: selections resolved"""
    while e[0] == 'sel':
        c = teval(e[1], *paths)
        if c is None: return e
        e = e[2] if c else e[3]
    return e


def empty_pol(p, lo, hi):
    """the path knows [lo,hi) to be empty: True / False / None"""
    r = eq_pol(p, lo, hi)
    if r is not None: return r
    d = key(('op', 'sub', hi, lo))
    r = cond_pol(p, lambda c: c[0] == 'cmp' and c[1] == 'eq' and C(0) in c[2:] and any(key(x) == d for x in c[2:]))
    if r is not None: return r
    r = lt_pol(p, lo, hi)
    if r is None: r = cond_pol(p, lambda c: c[0] == 'cmp' and c[1] == 'lt' and c[2] == C(0) and key(c[3]) == d)
    return None if r is None else not r


def empty_expr(e, lo, hi):
    """e states that [lo,hi) is empty: True; that it is not: False"""
    if e[0] == 'not':
        r = empty_expr(e[1], lo, hi); return None if r is None else not r
    if e[0] != 'cmp': return None
    d = key(('op', 'sub', hi, lo)); ks = [key(x) for x in e[2:4]]
    if e[1] == 'eq' and (sorted(ks, key=repr) == sorted([key(lo), key(hi)], key=repr) or C(0) in e[2:4] and d in ks): return True
    if e[1] == 'lt' and (ks == [key(lo), key(hi)] or e[2] == C(0) and ks[1] == d): return False
    return None


def result(p, name):
    r = [e for e in p.items if e.kind == 'call' and e.name == name]
    return r[-1].args if len(r) == 1 else None


def search(c, fn, inst, rule, lo, hi, match, good, name, msg):
    """the entry reports, by `name`, whether/where an element of [lo,hi) satisfies match.
    match(x): expressions of which the truth on a path tells whether x satisfies;  good(args, found, x, ev): is the report right"""
    n = 0
    for p in lpaths(fn):
        if p.end[0] == 'unreach' or Facts(p).absurd(): continue
        if not c.need(p.end[0] == 'ret', rule, p, 'the lookup does not return', inst): continue
        a = result(p, name); c.saw('paths')
        if not c.need(a is not None, rule, p, 'the lookup reports nothing', inst): continue
        n += 1
        bad = [e for e in p.items if e.kind in ('write', 'op')]
        c.need(not bad, 'lookups modify nothing', bad[0] if bad else p, 'a lookup modifies something', inst)
        ls = [e for e in p.items if e.kind == 'loop']
        if not ls:
            m0 = match(lo)(p)
            if empty_pol(p, lo, hi) is True: c.need(good(a, False, hi, (p,)), rule, p, msg + ' (no edges)', inst)
            elif m0: c.need(good(a, True, lo, (p,)), rule, p, msg, inst)
            else: c.bad(rule, p, msg + ': not every candidate is considered', inst)
            continue
        if not c.need(len(ls) == 1, rule, p, msg + ': the candidates are not scanned once', inst): continue
        L = ls[0].loop; it = iterations(fn, L); c.saw('loops')
        ok = it is not None and key(it.init) == key(lo) and key(it.bound) == key(hi)
        if not c.need(ok, rule, ls[0], msg + ': the candidates are not exactly the elements of the range', inst): continue
        m = match(it.var); S = Scan(fn, L, it, match)
        skipped = [q for q in it.body if q.end[0] == 'back' and not S.acc and m(q) is not False]
        if not c.need(not skipped, rule, skipped[0] if skipped else p, msg + ': a candidate that fits is passed over, or one is skipped unexamined', inst): continue
        for q in ls[0].val or []:
            if q.end[0] == 'unreach': continue
            done = any(q is x for x in it.done); body = any(q is x for x in it.body)
            for f, r in S.states(q):
                if not S.acc and f: continue
                if done and r: continue
                hit = f or r
                if not done and not body and not hit:
                    c.bad(rule, q, msg + ': the scan stops at a candidate that does not fit', inst); continue
                c.need(good(a, hit, hi if not hit else it.var, (q, p), it.var, S, f, r), rule, q, msg + (' when one fits' if hit else ' when none fits'), inst)
    c.need(n > 0, rule, fn, 'the lookup never returns', inst)


class Scan:
    """boolean state of a scan: f = an earlier candidate fitted, r = this one fits"""

    def __init__(s, fn, L, it, match):
        s.it = it; s.match = match
        s.acc = {pid for pid, init, _ in header_phis(fn, L) if len(init) == 1 and init[0] == C(0) and ('phi', pid) != it.var}
        while True:
            bad = {pid for pid in s.acc for q in it.body if q.end[0] == 'back' for f, r in s.states(q)
                   if s.ev(q.end[2].get(pid, ('phi', pid)), f, r, q) is not (f or r)}
            if not bad: break
            s.acc -= bad

    def states(s, q):
        for f in (False, True):
            for r in (False, True):
                if all(s.ev(e.args[0], f, r) in (None, e.pol) for e in q.items if e.kind == 'cond'): yield f, r

    def ev(s, e, f, r, *paths):
        if e[0] == 'c': return e[1] != 0
        if e[0] == 'phi' and e[1] in s.acc: return f
        if e[0] == 'not':
            x = s.ev(e[1], f, r, *paths); return None if x is None else not x
        if e[0] == 'sel' and len(e) == 4:
            x = s.ev(e[1], f, r, *paths); a = s.ev(e[2], f, r, *paths); b = s.ev(e[3], f, r, *paths)
            return (a if x else b) if x is not None else a if a == b else None
        if e[0] == 'op' and e[1] in ('and', 'or', 'xor') and len(e) == 4:
            a, b = s.ev(e[2], f, r, *paths), s.ev(e[3], f, r, *paths)
            if e[1] == 'and': return False if False in (a, b) else True if a and b else None
            if e[1] == 'or': return True if True in (a, b) else False if a is False and b is False else None
            return None if None in (a, b) else a != b
        if e[0] == 'op' and e[1] == 'add' and len(e) == 4:          # a count of the candidates that fit
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                if x[0] == 'phi' and x[1] in s.acc:
                    if y[0] == 'c' and y[1] > 0: return True
                    z = s.ev(y, f, r, *paths)
                    if z is not None: return f or z
        if e[0] == 'cmp':
            t = s.match.stated(e, s.it.var)
            if t is not None: return r if t else not r
            if e[1] == 'eq' and C(0) in e[2:]:
                x = s.ev(e[3] if e[2] == C(0) else e[2], f, r); return None if x is None else not x
            if e[1] == 'lt' and e[2] == C(0): return s.ev(e[3], f, r)
        return teval(e, *paths) if paths else None


class Match:
    """x satisfies when the expressions are equal"""

    def __init__(s, f, want): s.f = f; s.want = want

    def stated(s, e, x):
        if e[0] == 'cmp' and e[1] == 'eq' and sorted([key(e[2]), key(e[3])], key=repr) == sorted([key(s.f(x)), key(s.want)], key=repr): return True
        return None

    def __call__(s, x): return lambda p: eq_pol(p, s.f(x), s.want)


class NonEmpty:
    def __init__(s, lo, hi): s.lo = lo; s.hi = hi

    def stated(s, e, x):
        r = empty_expr(e, s.lo(x), s.hi(x)); return None if r is None else not r

    def __call__(s, x):
        def f(p):
            r = empty_pol(p, s.lo(x), s.hi(x)); return None if r is None else not r
        return f


def bool_report(a, hit, x, paths, var=None, S=None, f=None, r=None):
    v = chosen(a[0], *paths)
    return (S.ev(v, f, r, *paths) if S else teval(v, *paths)) is hit


def lookups(c, m):
    EB = lambda u: Q('edges_begin', u); EE = lambda u: Q('edges_end', u)
    IB = lambda u: Q('in_edges_begin', u); IE = lambda u: Q('in_edges_end', u)
    NV = Q('num_vertices')

    def where(src):
        def f(a, found, x, paths, var=None, *_):
            e = chosen(a[0], *paths)
            if key(a[1]) != key(src): return False
            if found: return key(e) == key(x)
            return key(e) == key(x) or var is not None and key(e) == key(var)
        return f

    for P, name in (('g', 'a graph'), ('b', 'a bidirectional graph')):
        e = lambda x: m.entry('%s_%s' % (P, x))
        for n, s, t in [('find_uv', 1, 2), ('find_ui', 1, 2), ('find_ii', 1, 2), ('ofind_uv', 1, 2), ('fin_uv', 2, 1), ('fin_ui', 2, 1), ('fin_ii', 2, 1)]:
            src = A(s); c.saw('functions')
            search(c, e(n), '%s of %s' % (n, name), 'a lookup finds an edge from the one vertex to the other, or the end', EB(src), EE(src),
                   Match(lambda x, src=src: Q('target', x, src), A(t)), where(src), 'v_edge', 'the edge returned need not join the two vertices')
        for n, s, t in [('has_uv', 1, 2), ('has_ii', 1, 2), ('hin_uv', 2, 1), ('hin_ii', 2, 1)]:
            src = A(s); c.saw('functions')
            search(c, e(n), '%s of %s' % (n, name), 'an edge is reported exactly when one exists', EB(src), EE(src),
                   Match(lambda x, src=src: Q('target', x, src), A(t)), bool_report, 'v_bool', 'the answer need not be whether the two vertices are joined')
        c.saw('functions')
        search(c, e('any'), 'has_edges of %s' % name, 'a graph has edges exactly when some vertex has one', C(0), NV, NonEmpty(EB, EE), bool_report, 'v_bool', 'the answer need not be whether an edge exists')

        def one(n, want, rule, what, cb='v_count'):
            fn = e(n); c.saw('functions'); k = 0
            for p in lpaths(fn):
                if p.end[0] == 'unreach' or Facts(p).absurd(): continue
                a = result(p, cb); c.saw('paths')
                if not c.need(p.end[0] == 'ret' and a is not None, rule, p, what + ': nothing is returned', name): continue
                k += 1
                c.need(want(fn, p, a), rule, p, what + ': returns %s' % pp(a[0])[:120], name)
                bad = [y for y in p.items if y.kind in ('write', 'op')]
                c.need(not bad, 'lookups modify nothing', bad[0] if bad else p, 'a query modifies something', name)
            c.need(k > 0, rule, fn, what + ': never returns', name)
        cnt = lambda lo, hi: (lambda fn, p, a: is_count(fn, p, a[0], lo, hi))
        dr = 'a degree counts the edges of the vertex'
        for n in ('deg_u', 'deg_i', 'm_u', 'm_i'): one(n, cnt(EB(A(1)), EE(A(1))), dr, 'number of edges of a vertex')
        edge = lambda x: (lambda fn, p, a: key(a[0]) == key(x) and key(a[1]) == key(A(1)))
        er = 'the edges of a vertex id are the edges of that vertex'
        one('eb_i', edge(EB(A(1))), er, 'first edge', 'v_edge'); one('ee_i', edge(EE(A(1))), er, 'end of the edges', 'v_edge')
        one('m', lambda fn, p, a: is_sum(fn, p, a[0], NV, EB, EE), 'the number of edges is the sum over the vertices', 'num_edges')
        if P == 'b':
            for n in ('ideg_u', 'ideg_i'): one(n, cnt(IB(A(1)), IE(A(1))), dr, 'number of incoming edges of a vertex')
            one('ib_i', edge(IB(A(1))), er, 'first incoming edge', 'v_edge'); one('ie_i', edge(IE(A(1))), er, 'end of the incoming edges', 'v_edge')
        if P == 'g':
            is_ = lambda x: (lambda fn, p, a: key(chosen(a[0], p)) == key(x))
            pr = 'an unpartitioned graph is one partition holding every vertex'
            one('parts', is_(C(1)), pr, 'number of partitions'); one('part', is_(C(0)), pr, 'partition of a vertex')

            def zero(p):
                z = eq_pol(p, A(1), C(0))
                if z is None: z = {True: False, False: True, None: None}[lt_pol(p, C(0), A(1))]
                return z

            def by0(yes, no):
                def f(fn, p, a):
                    def ok(a, z): return [key(x) for x in a] == [key(x) for x in yes] if z else no(a)
                    z = zero(p)
                    if z is not None: return ok(a, z)
                    def pick(x, z): return (x[2] if z else x[3]) if x[0] == 'sel' and key(x[1]) in (key(('cmp', 'eq', A(1), C(0))), key(('cmp', 'eq', C(0), A(1)))) else x
                    return all(ok([pick(x, z) for x in a], z) for z in (True, False))
                return f
            one('pn', by0([NV], lambda a: a[0] == C(0)), pr, 'number of vertices of a partition')
            one('pv', by0([C(0), NV], lambda a: key(a[0]) == key(a[1])), pr, 'vertices of a partition', 'v_edge')
            nr = 'the ends of an edge are the vertices it joins'
            one('src', is_(A(2)), nr, 'source vertex of an edge'); one('srcid', is_(A(2)), nr, 'source id of an edge')
            one('tgt', is_(Q('target', A(1), A(2))), nr, 'target vertex of an edge')


def is_count(fn, p, v, lo, hi):
    """v is the length of [lo, hi)"""
    if key(v) == key(('op', 'sub', hi, lo)): return True
    if v == C(0) and empty_pol(p, lo, hi) is True: return True
    for e in p.items:
        if e.kind != 'loop': continue
        it = iterations(fn, e.loop)
        if not it or it.early or key(it.init) != key(lo) or key(it.bound) != key(hi) or it.at != 'top': continue
        for w, init, op, k in inductions(fn, e.loop):
            if init == C(0) and op == 'add' and k == 1 and v == w: return True
    return False


def is_sum(fn, p, v, nv, lo, hi):
    """v = sum over vertices of the number of their edges"""
    for e in p.items:
        if e.kind != 'loop': continue
        it = iterations(fn, e.loop)
        if not it or it.early or it.init != C(0) or key(it.bound) != key(nv) or it.at != 'top': continue
        for pid, init, _ in header_phis(fn, e.loop):
            ph = ('phi', pid)
            if v != ph or init != [C(0)]: continue
            ok = True
            for q in it.body:
                if q.end[0] != 'back': continue
                x = chosen(q.end[2].get(pid, ph), q); d = key(('op', 'sub', hi(it.var), lo(it.var)))
                if x[0] == 'op' and x[1] == 'add' and len(x) == 4 and any(a == ph and key(b) == d for a, b in ((x[2], x[3]), (x[3], x[2]))): continue
                if x == ph and empty_pol(q, lo(it.var), hi(it.var)) is True: continue
                ok = ok and counted_inner(fn, q, x, ph, lo(it.var), hi(it.var))
            if ok: return True
    return v == C(0) and eq_pol(p, nv, C(0)) is True


def counted_inner(fn, q, x, ph, lo, hi):
    """an inner loop adds one to ph per element of [lo,hi)"""
    for e in q.items:
        if e.kind != 'loop': continue
        it = iterations(fn, e.loop)
        if not it or it.early or key(it.init) != key(lo) or key(it.bound) != key(hi) or it.at != 'top': continue
        for w, init, op, k in inductions(fn, e.loop):
            if op == 'add' and k == 1 and x == w and init == ph: return True
            if op == 'add' and k == 1 and init == C(0) and x[0] == 'op' and x[1] == 'add' and len(x) == 4 and w in x[2:] and ph in x[2:]: return True
    return False

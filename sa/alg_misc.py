"""Rules for maximal_independent_set, triangle_count, jaccard_coefficient and label_propagation."""
from lib import *
from alg_traversal import one, ordered, confined, path_str, sites, mark_initial
from alg_paths import norm, neq, arr_writes
from alg_components import ancestors, is_adv


def env_subst(e, p):
    """value of e with the joins resolved along path p"""
    for _ in range(6):
        n = subst(e, p.env)
        if n == e: break
        e = n
    kn = {x.args[0]: x.pol for x in p.items if x.kind == 'cond'}
    kk = {key(c): v for c, v in kn.items()}
    return simp_sel(e, kn) if not kk else simp_key(e, kk)


def simp_key(e, known):
    if not isinstance(e, tuple) or not e: return e
    if e[0] == 'sel':
        c = e[1]; pol = True
        while c[0] == 'not': c = c[1]; pol = not pol
        if key(c) in known: return simp_key(e[2] if known[key(c)] == pol else e[3], known)
    return tuple(simp_key(x, known) if isinstance(x, tuple) else x for x in e)


def edges_iter(fn, L, u, kinds=('edges',)):
    it = iterations(fn, L)
    return it if it and it.kind in kinds and neq(it.over, u) else None


def loop_tables(fn):
    """arrays that a pass over all vertices fills with 'this vertex has an edge to itself'"""
    r = []
    objs = {e.args[0][1] for b, e in all_events(fn) if e.kind == 'write' and e.args[0][0] == 'cell'}
    for L in fn.top_loops:
        it = iterations(fn, L)
        if not it or it.kind != 'vertices' or it.early: continue
        for X in objs:
            w = [(b, e) for b, e in all_events(fn) if e.kind == 'write' and e.args[0][0] == 'cell' and e.args[0][1] == X]
            if any(L not in ancestors(fn.loop_of.get(b)) for b, e in w): continue
            ct = [(b, e) for b, e in ctor_of(fn, X)]
            if not (len(ct) == 1 and opm(ct[0][1]) in ('vector', 'assign', 'resize') and fn.loop_of.get(ct[0][0]) is None and ct[0][1].args[1:2] == (Q('num_vertices'),)
                    and all(a == C(0) or a[0] == 'obj' for a in ct[0][1].args[2:])): continue
            ok = True
            for p in it.body:
                n = 0
                if arr_writes(p, X): ok = False
                for e in inner_loops(p):
                    ei = edges_iter(fn, e.loop, it.var)
                    if not ei or not natural(ei, e) or ei.early: continue
                    t = Q('target', ei.var, it.var); n += 1
                    for q in ei.body:
                        ww = arr_writes(q, X); pol = eq_pol(q, t, it.var)
                        if pol is None or len(ww) != (1 if pol else 0) or any(not neq(x.args[0], ('cell', X, it.var, 0)) or x.args[1] in (C(0),) or x.args[1][0] != 'c' for x in ww): ok = False
                if n != 1: ok = False
            if ok and w: r.append((L, X))
    return r


def has_edge_to(fn, p, u, v):
    """True/False/None: does path p establish that u has / has no edge to v by scanning the edges of u"""
    if neq(u, v):
        for L, X in loop_tables(fn):
            t = truth(p, ('cell', X, u, 0))
            if t is not None: return t
    for e in inner_loops(p):
        it = edges_iter(fn, e.loop, u)
        if not it: continue
        t = Q('target', it.var, u)
        pol = {id(q): eq_pol(q, t, v) for q in it.body + it.early}
        if any(pol[id(q)] is None for q in it.body): continue
        if natural(it, e):
            if all(pol[id(q)] is False for q in it.body if q.end[0] == 'back') and it.at == 'top': return False
            for pid, init, _ in header_phis(fn, e.loop):
                if init != [C(0)]: continue
                ok = all(q.end[2].get(pid) == (C(1) if pol[id(q)] else ('phi', pid)) for q in it.body if q.end[0] == 'back')
                if ok:
                    r = cond_pol(p, lambda c: c == ('phi', pid) or (c[0] == 'cmp' and c[1] == 'eq' and c[2:] in ((C(1), ('phi', pid)), (('phi', pid), C(1)))))
                    if r is not None: return r
        elif e.exit is not None and e.val and all(pol.get(id(q)) is True for q in e.val): return True
    return None


def marked(p, cell, on):
    """does the path's test of a mark say marked"""
    t = truth(p, cell)
    return None if t is None else t == on


def marks_all(fn, p, u, R, on):
    """number of loops on p that mark the target of every edge of u in R"""
    n = 0
    for e in inner_loops(p):
        it = edges_iter(fn, e.loop, u)
        if not it or it.early or not natural(it, e): continue
        t = Q('target', it.var, u)
        def sets(q):
            w = arr_writes(q, R)
            if not w: return marked(q, ('cell', R, t, 0), on) is True
            return len(w) == 1 and neq(w[0].args[0], ('cell', R, t, 0)) and is_mark(w[0].args[1], on)
        if all(sets(q) for q in it.body): n += 1
    return n


def is_mark(v, on): return v[0] == 'c' and bool(v[1]) == on


def mis(c, m):
    fn = m.entry('mis'); inst = 'maximal_independent_set'; seed = A(1); c.saw('functions')
    VL = [(L, i) for L, i in ((L, iterations(fn, L)) for L in fn.top_loops if not any(L is l for l, X in loop_tables(fn))) if i and i.kind == 'vertices']
    if not c.need(len(VL) == 1, 'MIS considers every vertex', fn, 'no loop over all vertices', inst): return
    L, it = VL[0]; u = it.var
    c.need(not it.early, 'MIS considers every vertex', it.early[0] if it.early else it.where(), 'loop can stop early', inst)
    LT = loop_tables(fn)
    Rs = {e.args[0][1] for b, e in all_events(fn) if e.kind == 'write' and e.args[0][0] == 'cell'} - {X for l, X in LT}
    if not c.need(len(Rs) == 1, 'MIS excludes every neighbour of a selected vertex', fn, 'no single array of excluded vertices (%d)' % len(Rs), inst): return
    R = Rs.pop()
    # either polarity: an array of excluded vertices starting clear, or of available vertices starting set
    on = not any(opm(e) in ('vector', 'assign', 'resize') and C(1) in e.args[2:] for b, e in ctor_of(fn, R))
    mark_initial(c, 'MIS starts with no vertex excluded', inst, fn, R, 0 if on else 1)
    OUT = lambda p: calls(p, 'v_out')
    cnt = None
    for p in lpaths(fn):
        for e in p.items:
            if e.kind == 'ret' and e.args[0][0] == 'phi': cnt = e.args[0]

    def candidate(p, v, sel_needs_mark):
        """obligations for considering v on path p; returns True when selected"""
        sl = has_edge_to(fn, p, v, v); out = OUT(p)
        if out:
            c.need(len(out) == 1 and neq(out[0].args[0], v), 'MIS outputs each selected vertex once', p, 'outputs %s' % out, inst)
            c.need(sl is False, 'MIS never selects a vertex with a self-loop', p, 'vertex selected without establishing that it has no self-loop: [%s]' % path_str(p), inst)
            c.need(marks_all(fn, p, v, R, on) >= 1, 'MIS excludes every neighbour of a selected vertex', p, 'neighbours not all excluded: [%s]' % path_str(p), inst)
            own = [w for w in arr_writes(p, R)]
            c.need(all(neq(w.args[0], ('cell', R, v, 0)) and is_mark(w.args[1], on) for w in own), 'MIS excludes only selected vertices and their neighbours', p, 'excludes another vertex', inst)
            if sel_needs_mark: c.need(len(own) >= 1, 'MIS does not select a vertex twice', p, 'the seed is not excluded from the later pass', inst)
            return True
        return False
    for p in it.body:
        c.saw('paths')
        ex = None
        for e in p.items:
            if e.kind == 'cond':
                q = e.args[0]
                if q[0] == 'cmp' and q[1] == 'eq' and C(0) in q[2:] and any(neq(y, ('rd', ('cell', R, u, 0))) for y in q[2:]): ex = (not e.pol) == on
                if neq(q, ('rd', ('cell', R, u, 0))): ex = e.pol == on
        nv = p.end[2].get(cnt[1]) if cnt and p.end[0] == 'back' else cnt
        if candidate(p, u, False):
            c.need(ex is False, 'MIS selects only vertices with no selected neighbour', p, 'selected without testing that it is not excluded: [%s]' % path_str(p), inst)
            c.need(cnt is not None and is_add(nv, cnt), 'MIS returns the number of selected vertices', p, 'count becomes %s' % pp(nv), inst)
        else:
            c.need(ex is True or has_edge_to(fn, p, u, u) is True or eq_pol(p, u, seed) is True, 'MIS is maximal: every vertex is selected, excluded or has a self-loop', p, 'vertex passed over: [%s]' % path_str(p), inst)
            c.need(nv == cnt, 'MIS returns the number of selected vertices', p, 'count changes for a vertex that is not selected', inst)
            c.need(not [e for e in arr_writes(p, R) if ex is not True or True] and not [e for e in inner_loops(p) if any(arr_writes(q, R) for q in lpaths(fn, e.loop))], 'MIS excludes only selected vertices and their neighbours', p, 'exclusion without selection: [%s]' % path_str(p), inst)
    for p in lpaths(fn):
        c.saw('paths')
        if p.end[0] != 'ret': continue
        rv = [e.args[0] for e in p.items if e.kind == 'ret']
        lp = [e for e in inner_loops(p) if e.loop is L]
        if not lp:
            emp = eq_pol(p, C(0), Q('num_vertices'))
            c.need(emp is True and not OUT(p) and rv == [C(0)], 'MIS considers every vertex', p, 'returns without looking at the vertices', inst); continue
        c.need(len(lp) == 1, 'MIS considers every vertex', p, 'vertices looked at %d times' % len(lp), inst)
        s = candidate(p, seed, True)
        if s:
            ordered(c, 'MIS starts from the seed', inst, p, OUT(p) + arr_writes(p, R) + [e for e in inner_loops(p) if e.loop is not L], lp, 'seed considered after the other vertices')
        else:
            c.need(has_edge_to(fn, p, seed, seed) is True, 'MIS starts from the seed', p, 'seed not selected although it may have no self-loop: [%s]' % path_str(p), inst)
            c.need(all(neq(w.args[0], ('cell', R, seed, 0)) and is_mark(w.args[1], on) for w in arr_writes(p, R)), 'MIS excludes only selected vertices and their neighbours', p, 'excludes another vertex', inst)
            c.need(not [e for e in inner_loops(p) if e.loop is not L and not any(e.loop is l for l, X in LT) and any(arr_writes(q, R) for q in lpaths(fn, e.loop))], 'MIS excludes only selected vertices and their neighbours', p, 'neighbours of an unselected seed excluded', inst)
        ini = [i for pid, i, _ in header_phis(fn, L) if cnt and pid == cnt[1]]
        iv = env_subst(ini[0][0], p) if ini and len(ini[0]) == 1 else None
        c.need(cnt is not None and rv == [cnt] and iv == C(1 if s else 0) and (phi_bits(fn, cnt) or 64) >= 32, 'MIS returns the number of selected vertices', p, 'count starts at %s' % (pp(iv) if iv else '?'), inst)


# ------------------------------------------------------------------ counters carried through nested loops
def carried_through(fn, p, outer, inner, inner_init):
    """value of counter `outer` at the end of path p of its loop, given that the inner loop's counter `inner` started at inner_init"""
    nv = p.end[2].get(outer[1])
    if inner_init == outer: return nv == inner
    if inner_init == C(0): return nv is not None and norm(nv) == norm(('op', 'add', outer, inner))
    return False


def counter(fn, L, pred, feasible=None):
    """header phi of L that every back path changes by pred(path) (0/1)"""
    for pid, init, _ in header_phis(fn, L):
        if len(init) != 1: continue
        ph = ('phi', pid); ok = True; some = False
        for p in forked(lpaths(fn, L)):
            if p.end[0] != 'back' or feasible and not feasible(p): continue
            v = p.end[2].get(pid)
            want = pred(p)
            if want: some = True
            if not (is_add(v, ph) if want else v == ph): ok = False
        if ok and some: yield ph, init[0]


def skips_low(fn, x, v):
    """x is the position after skipping a prefix of the edges of v whose targets do not follow v"""
    if x[0] != 'phi': return False
    for L in fn.loops:
        init = [i for pid, i, _ in header_phis(fn, L) if pid == x[1]]
        if not init: continue
        if not (len(init[0]) == 1 and neq(init[0][0], Q('edges_begin', v))): return False
        for p in lpaths(fn, L):
            if p.end[0] == 'unreach': continue
            if any(e.kind not in ('cond', 'ret') for e in p.items): return False
            if p.end[0] == 'back':
                if not is_add(p.end[2].get(x[1]), x) or 'lt' in relation(p, v, Q('target', x, v)): return False
        return True
    return False


def triangles(c, m):
    fn = m.entry('tc'); inst = 'triangle_count'; c.saw('functions')
    VL = [(L, i) for L, i in ((L, iterations(fn, L)) for L in fn.top_loops) if i and i.kind == 'vertices']
    if not c.need(len(VL) == 1, 'triangle count considers every vertex', fn, 'no loop over all vertices', inst): return
    L, it = VL[0]; u = it.var
    el = [(E, edges_iter(fn, E, u)) for E in L.children]; el = [(E, i) for E, i in el if i]
    if not c.need(len(el) == 1 and not it.early, 'triangle count considers every neighbour of every vertex', it.where(), 'no complete loop over the edges of the vertex', inst): return
    E, ei = el[0]; v = Q('target', ei.var, u)
    c.need(not ei.early, 'triangle count considers every neighbour of every vertex', ei.early[0] if ei.early else ei.where(), 'edge loop can stop early', inst)
    for p in it.body: one(c, 'triangle count considers every neighbour of every vertex', inst, p, [e for e in inner_loops(p) if e.loop is E], 'edge loop')
    # merge loop: two positions, compared by target
    M = None
    for X in E.children:
        for p in lpaths(fn, X):
            for e, y in find_exprs(p, lambda y: y[0] == 'q' and y[1] == 'target' and y[2][0] == 'phi' and neq(y[3], v)):
                j = y[2]; M = X
    if not c.need(M is not None, 'triangle count intersects the adjacency lists of both ends of every edge', ei.where(), 'no merge of the two adjacency lists', inst): return
    H = {('phi', pid): init for pid, init, _ in header_phis(fn, M)}
    i = None
    for p in lpaths(fn, M):
        for e, y in find_exprs(p, lambda y: y[0] == 'q' and y[1] == 'target' and y[2] in H and y[2] != j and neq(y[3], u)): i = y[2]
    if not c.need(i is not None, 'triangle count intersects the adjacency lists of both ends of every edge', ei.where(), 'no position in the first list', inst): return
    R = 'triangle count intersects the adjacency lists of both ends of every edge'
    c.need(len(H[j]) == 1 and (neq(H[j][0], Q('edges_begin', v)) or skips_low(fn, H[j][0], v)), R, ei.where(), 'second list starts at %s' % pp(H[j][0]), inst)
    hi = H[i][0] if len(H[i]) == 1 else ('undef',)
    c.need(neq(hi, ei.var) or neq(hi, Q('edges_begin', u)) or is_adv(fn, hi, ei.var, C(1)) or is_add(hi, ei.var), R, ei.where(), 'first list starts at %s' % pp(hi), inst)
    ti, tj = Q('target', i, u), Q('target', j, v)

    def rel(p):
        r = relation(p, ti, tj)
        return r.pop() if len(r) == 1 else None

    def third(p):
        """w after v"""
        for w in (ti, tj):
            r = relation(p, v, w)
            if r == {'lt'}: return True
            if 'lt' not in r: return False
        return None

    def feas(p):
        w = relation(p, v, ti) if rel(p) != 'eq' else relation(p, v, ti) & relation(p, v, tj)
        return bool(relation(p, ti, tj)) and bool(w)

    def want(p): return rel(p) == 'eq' and third(p) is True
    for p in forked(lpaths(fn, M)):
        c.saw('paths')
        if p.end[0] == 'unreach' or not feas(p): continue
        ei_, ej = eq_pol(p, i, Q('edges_end', u)), eq_pol(p, j, Q('edges_end', v))
        if p.end[0] != 'back':
            c.need(ei_ is True or ej is True, R, p, 'merge stops before one list is exhausted', inst); continue
        r = rel(p)
        if not c.need(r is not None and ei_ is False and ej is False, R, p, 'step taken without comparing the two candidates, or past an end: [%s]' % path_str(p), inst): continue
        ni, nj = p.end[2].get(i[1]), p.end[2].get(j[1])
        okI = is_add(ni, i) if r in ('lt', 'eq') else ni == i
        okJ = is_add(nj, j) if r in ('gt', 'eq') else nj == j
        c.need(okI and okJ, R, p, 'wrong list advanced when the first candidate is %s: [%s]' % ({'lt': 'smaller', 'gt': 'larger', 'eq': 'equal'}[r], path_str(p)), inst)
        if r == 'eq': c.need(third(p) is not None, 'each triangle is counted once', p, 'common neighbour counted without the order test', inst)
    cs = list(counter(fn, M, want, feas))
    if not c.need(len(cs) == 1, 'each triangle is counted once', ei.where(), 'no counter that grows exactly for a common neighbour after both ends', inst): return
    c2, i2 = cs[0]
    c1 = [('phi', pid) for pid, init, _ in header_phis(fn, E) if ('phi', pid) != ei.var]
    c0 = [('phi', pid) for pid, init, _ in header_phis(fn, L) if ('phi', pid) != u]
    ok1 = None
    for p in ei.body:
        c.saw('paths')
        n = [e for e in inner_loops(p) if e.loop is M]
        lt = lt_pol(p, u, v)
        if lt is None:
            g = lt_pol(p, v, u); q = eq_pol(p, u, v)
            lt = False if g or q else True if g is False and q is False else None
        c.need(lt is not None and len(n) == (1 if lt else 0), 'each triangle is counted once', p, '%d merge(s) although first < second end is %s: [%s]' % (len(n), lt, path_str(p)), inst)
        if n: good = {x for x in c1 if carried_through(fn, p, x, c2, i2)}
        else: good = {x for x in c1 if p.end[2].get(x[1]) == x}
        ok1 = good if ok1 is None else ok1 & good
    if not c.need(bool(ok1), 'the number of triangles is returned', ei.where(), 'triangles found are not added up', inst): return
    x1 = sorted(ok1)[0]; i1 = [init[0] for pid, init, _ in header_phis(fn, E) if pid == x1[1]][0]
    ok0 = None
    for p in it.body:
        good = {x for x in c0 if carried_through(fn, p, x, x1, i1)}
        ok0 = good if ok0 is None else ok0 & good
    ok0 = {x for x in (ok0 or set()) if [init for pid, init, _ in header_phis(fn, L) if pid == x[1]][0] == [C(0)]}
    ok0 = {x for x in ok0 if all((phi_bits(fn, y) or 64) == 64 for y in (x, x1, c2))}
    c.need(bool(ok0), 'the number of triangles is returned', it.where(), 'triangles found are not added up from zero', inst)
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        rv = [e.args[0] for e in p.items if e.kind == 'ret']; n = [e for e in inner_loops(p) if e.loop is L]
        if not n and eq_pol(p, C(0), Q('num_vertices')) is True and rv == [C(0)]: continue
        c.need(len(n) == 1 and rv and rv[0] in ok0, 'the number of triangles is returned', p, 'returns %s' % (pp(rv[0]) if rv else '?'), inst)


# ------------------------------------------------------------------ jaccard
def tree_step(v, ph): return v[0] == 'ret' and 'Rb_tree_increment' in v[2] and v[-1] == ph


def set_loop(fn, L):
    """iteration over a node-based container: (container expr, element address, paths body, early, done)"""
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    for pid, init, _ in header_phis(fn, L):
        ph = ('phi', pid)
        if len(init) != 1 or init[0][0] != 'ret' or last(init[0][2]) not in ('begin', 'cbegin'): continue
        cont = init[0][3]; ok = True; tree = False; body, early, done = [], [], []
        for p in P:
            end = cond_pol(p, lambda c: c[0] == 'cmp' and c[1] == 'eq' and ph in c[2:] and any(x[0] == 'ret' and last(x[2]) in ('end', 'cend') and x[3] == cont for x in c[2:]))
            if p.end[0] == 'back':
                v = p.end[2].get(pid)
                if end is not False or not (neq(v, ('rd', ph)) or tree_step(v, ph)): ok = False
                tree = tree_step(v, ph)
                body.append(p)
            elif end is True: done.append(p)
            else: early.append(p)
        if ok and body and done: return dict(cont=cont, it=ph, body=body, early=early, done=done, L=L, el=32 if tree else 8)
    return None


def jaccard(c, m):
    fn = m.entry('jaccard'); inst = 'jaccard_coefficient'; c.saw('functions')
    VL = [(L, i) for L, i in ((L, iterations(fn, L)) for L in fn.top_loops) if i and i.kind == 'vertices']
    if not c.need(len(VL) == 2, 'every edge is reported', fn, 'expected a pass collecting neighbour sets and a reporting pass', inst): return
    outs = [(b, e) for b, e in all_events(fn) if e.kind == 'call' and e.name == 'v_jaccard']
    rep = [x for x in VL if any(x[0] in ancestors(fn.loop_of.get(b)) for b, e in outs)]
    if not c.need(len(rep) == 1, 'every edge is reported', fn, 'reporting pass not found', inst): return
    Lr, ir = rep[0]; Lc, ic = [x for x in VL if x[0] is not Lr][0]
    # neighbour sets
    u = ic.var
    ce = [(E, edges_iter(fn, E, u)) for E in Lc.children]; ce = [(E, i) for E, i in ce if i]
    RN = 'neighbour sets hold every neighbour except the vertex itself'
    N = None; er = False
    if c.need(len(ce) == 1 and not ic.early and not ce[0][1].early, RN, ic.where(), 'no complete loop over the edges', inst):
        E, ei = ce[0]; t = Q('target', ei.var, u)
        for p in ic.body: one(c, RN, inst, p, [e for e in inner_loops(p) if e.loop is E], 'edge loop')
        # the vertex itself may be removed from its set after its edges were inserted
        er = all(any(x.kind == 'op' and opm(x) == 'erase' and x.args[0][0] == 'cell' and neq(x.args[0][2], u) and neq(x.args[1], u) and
                     all(before(p, l, x) for l in inner_loops(p) if l.loop is E) for x in p.items) for p in ic.body)
        for p in ei.body:
            c.saw('paths')
            slf = eq_pol(p, u, t); ins = [e for e in p.items if e.kind == 'op' and opm(e) in ('insert', 'emplace')]
            for e in ins:
                if e.args[0][0] == 'cell': N = e.args[0][1]
            if slf is None and len(ins) == 1 and er: slf = False
            c.need(slf is not None and len(ins) == (0 if slf else 1) and all(e.args[0][0] == 'cell' and neq(e.args[0][2], u) and neq(e.args[1], t) and e.name.split('::')[-2] in ('set', 'unordered_set') for e in ins), RN, p, 'insertions %s where self-loop is %s' % (ins, slf), inst)
    if not c.need(N is not None, RN, fn, 'no per-vertex neighbour sets', inst): return
    ok = [e for b, e in ctor_of(fn, N) if opm(e) in ('vector', 'resize', 'assign') and len(e.args) >= 2 and e.args[1] == Q('num_vertices')]
    c.need(bool(ok), RN, fn, 'no set for every vertex', inst)
    for b, e in all_events(fn):
        if e.kind == 'op' and e.args and e.args[0][0] == 'cell' and e.args[0][1] == N and opm(e) not in PURE_METH | {'insert', 'emplace', 'unordered_set', '~unordered_set', 'set', '~set', 'reserve'} and not (er and opm(e) == 'erase' and neq(e.args[1], e.args[0][2]) and neq(e.args[1], ic.var)): c.bad(RN, e, 'set modified by %s' % e, inst)
    # reporting
    u = ir.var
    re_ = [(E, edges_iter(fn, E, u)) for E in Lr.children]; re_ = [(E, i) for E, i in re_ if i]
    if not c.need(len(re_) == 1 and not ir.early and not re_[0][1].early, 'every edge is reported', ir.where(), 'no complete loop over the edges of every vertex', inst): return
    E, ei = re_[0]; v = Q('target', ei.var, u)
    for p in ir.body: one(c, 'every edge is reported', inst, p, [e for e in inner_loops(p) if e.loop is E], 'edge loop')
    su, sv = ('cell', N, u, 0), ('cell', N, v, 0)
    RI = 'the intersection counts the common neighbours'
    inter = None
    for X in E.children:
        s = set_loop(fn, X)
        if s: inter = s
    cnt = None
    if c.need(inter is not None and not inter['early'], RI, ei.where(), 'no complete loop over one neighbour set', inst):
        el = ('rd', ('fld', inter['it'], inter['el'])); other = [None]

        def member(p):
            """does the body path establish that the element is in another set"""
            for e in p.items:
                if e.kind != 'cond': continue
                q = e.args[0]
                for x in walk(q):
                    if x[0] == 'ret' and last(x[2]) in ('count', 'contains') and len(x) > 4 and neq(x[4], el):
                        other[0] = x[3]
                        return (not e.pol) if (q[0] == 'cmp' and q[1] == 'eq' and C(0) in q[2:]) else e.pol
                    if x[0] == 'ret' and last(x[2]) == 'find' and len(x) > 4 and neq(x[4], el) and q[0] == 'cmp' and q[1] == 'eq':
                        other[0] = x[3]; return not e.pol
            return None
        def summed():
            """a count that adds set.count(element), which is 0 or 1 in a set without duplicates"""
            for pid, init, _ in header_phis(fn, inter['L']):
                ok = init == [C(0)]; o = None
                for p in inter['body']:
                    nv = p.end[2].get(pid) if len(p.end) > 2 else None
                    x = [y for y in nv[2:] if y != ('phi', pid)] if nv and nv[0] == 'op' and nv[1] == 'add' and len(nv) == 4 and ('phi', pid) in nv[2:] else []
                    if len(x) == 1 and x[0][0] == 'ret' and last(x[0][2]) in ('count', 'contains') and len(x[0]) > 4 and neq(x[0][4], el): o = x[0][3]
                    else: ok = False
                if ok and o: return ('phi', pid), o
            return None
        sm = summed()
        if sm: cnt, other[0] = sm
        for p in inter['body'] if not sm else []:
            c.saw('paths')
            c.need(member(p) is not None, RI, p, 'element counted without a membership test', inst)
        cs = [(cnt, C(0))] if sm else [x for x in counter(fn, inter['L'], lambda p: member(p) is True) if x[1] == C(0)]
        if c.need(len(cs) >= 1, RI, ei.where(), 'no count of the common elements starting at zero', inst): cnt = cs[0][0]
    for p in ei.body:
        c.saw('paths')
        slf = eq_pol(p, u, v); o = calls(p, 'v_jaccard')
        if not c.need(slf is not None and len(o) == (0 if slf else 1), 'every edge is reported', p, '%d report(s) where self-loop is %s: [%s]' % (len(o), slf, path_str(p)), inst): continue
        if slf: continue
        a = o[0].args
        c.need(neq(a[0], u) and neq(a[1], v) and neq(a[2], ei.var) and neq(a[3], u), 'every edge is reported', o[0], 'reported with %s' % o[0], inst)
        if not inter or cnt is None: continue
        n = [e for e in inner_loops(p) if e.loop is inter['L']]
        one(c, RI, inst, p, n, 'intersection loop')
        ca, cb = env_subst(inter['cont'], p), env_subst(other[0], p) if other[0] else None
        c.need(cb is not None and sorted(map(repr, (norm(key(ca)), norm(key(cb))))) == sorted(map(repr, (norm(key(su)), norm(key(sv))))), RI, p, 'sets intersected are %s and %s' % (pp(ca), pp(cb) if cb else '?'), inst)
        sz = lambda s: [x for x in walk(a[4]) if x[0] == 'ret' and last(x[2]) == 'size' and neq(x[3], s)]
        RV = 'the value is the intersection size over the union size'
        def uni(x):
            ns = norm(key(x))
            for y in walk(x): pass
            S = {}
            def f(y):
                if y[0] == 'ret' and last(y[2]) == 'size':
                    if neq(y[3], su): return ('SU',)
                    if neq(y[3], sv): return ('SV',)
                return y
            z = rewrite(x, f)
            forms = [('op', 'sub', ('op', 'add', ('SU',), ('SV',)), cnt), ('op', 'add', ('SU',), ('op', 'sub', ('SV',), cnt)), ('op', 'add', ('SV',), ('op', 'sub', ('SU',), cnt))]
            return norm(z) in [norm(f_) for f_ in forms]
        zero = None
        for e in p.items:
            if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                x, y = e.args[0][2:]
                if C(0) in (x, y) and (uni(x) or uni(y)) or uni(('op', 'sub', x, y)) or uni(('op', 'sub', y, x)): zero = e.pol
            elif e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'lt':
                x, y = e.args[0][2:]
                if x == C(0) and uni(y): zero = not e.pol
                if y == C(1) and uni(x): zero = e.pol
        val = a[4]
        if val == C(0.0) or val == C(0): c.need(zero is True, RV, o[0], 'zero reported although the union may not be empty: [%s]' % path_str(p), inst)
        else:
            okv = val[0] == 'op' and val[1] == 'fdiv' and neq(val[2], cnt) and uni(val[3])
            c.need(okv, RV, o[0], 'value is %s' % pp(val), inst)
            # u != v and v is in the set of u: the union is never empty, so a missing zero test is harmless
    confined(c, 'every edge is reported', inst, fn, lambda e: e.kind == 'call' and e.name == 'v_jaccard', {E}, 'report')
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        lp = [e.loop for e in inner_loops(p)]
        if not lp: c.need(eq_pol(p, C(0), Q('num_vertices')) is True, 'every edge is reported', p, 'returns without reporting', inst); continue
        c.need(Lc in lp and Lr in lp and lp.index(Lc) < lp.index(Lr), 'every edge is reported', p, 'a pass is missing or out of order', inst)


# ------------------------------------------------------------------ label propagation
def pushes_all(fn, arr):
    """the list starts empty and one pass over all vertices appends each of them; nothing else adds to it"""
    adds = [(b, e) for b, e in all_events(fn) if e.kind == 'op' and e.args and e.args[0] == arr and not is_pure_op(e) and opm(e) not in ('vector', '~vector', 'reserve', 'shuffle')]
    ct = [(b, e) for b, e in ctor_of(fn, arr)]
    if any(len([a for a in e.args[1:] if a[0] != 'obj']) for b, e in ct): return False
    for L in fn.top_loops:
        it = iterations(fn, L)
        if not it or it.kind != 'vertices' or it.early: continue
        if any(fn.loop_of.get(b) is not L for b, e in adds): continue
        if all(len([e for e in p.items if is_push(e, arr) and neq(e.args[1], it.var)]) == 1 and len([e for e in p.items if e.kind == 'op' and e.args and e.args[0] == arr and not is_pure_op(e)]) == 1 for p in it.body): return bool(adds)
    return False


def labelprop(c, m):
    for name, empty, rng, maxit in (('lp', None, A(2), A(3)), ('lp_empty', A(2), A(3), A(4))):
        fn = m.entry(name); inst = 'label_propagation' + ('(empty_label)' if empty else ''); lab = A(1); c.saw('functions')
        tag = 'label propagation'
        tops = [(L, iterations(fn, L)) for L in fn.top_loops]
        sw = [L for L in fn.top_loops if L.children]
        if not c.need(len(sw) == 1, tag + ' repeats passes over the vertices', fn, 'no pass loop', inst): continue
        R = sw[0]; c.saw('loops')
        # vertex loop: over a permutation of all vertices
        inner = [(L, iterations(fn, L)) for L in R.children]
        vl = [(L, i) for L, i in inner if i and (i.kind in ('range', 'index') )]
        RP = tag + ' visits every vertex once per pass'
        if not c.need(len(vl) == 1 and not vl[0][1].early, RP, fn, 'no complete loop over the vertex order in each pass', inst): continue
        V, vi = vl[0]; order = vi.over
        uid = ('rd', vi.elem) if vi.kind == 'range' else ('rd', ('cell', order, vi.var, 0))
        io = [(b, e) for b, e in all_events(fn) if e.kind in ('op', 'call') and last(e.name or '') == 'iota' and ('begin', order) in list(walk(e.args[0]))]
        okf = any(e.args[2] == C(0) and fn.loop_of.get(b) is None and ('end', order) in list(walk(e.args[1])) for b, e in io)
        from alg_paths import array_fill
        from alg_components import vfill
        pushed = pushes_all(fn, order)
        okf = okf or pushed or array_fill(fn, order, lambda i, v: v == i) or vfill(fn, order, lambda i, v: v == i)
        oks = [e for b, e in ctor_of(fn, order) if opm(e) in ('vector', 'resize', 'assign') and len(e.args) >= 2 and e.args[1] == Q('num_vertices')]
        c.need(okf and (oks or pushed), RP, fn, 'the vertex order is not the list of all vertices', inst)
        for b, e in all_events(fn):
            w = cell_write(e, order)
            if w and not (fn.loop_of.get(b) and fn.loop_of[b].parent is None and okf): c.bad(RP, e, 'vertex order overwritten', inst)
        # pass loop
        fl = None
        ex = [p for p in lpaths(fn, R) if p.end[0] != 'unreach']
        bound = None
        for p in ex:
            c.saw('paths')
            sh = [e for e in p.items if e.kind in ('op', 'call') and (last(e.name or '') == 'shuffle' or (e.name or '').endswith('__shuffle_fn::operator()'))]
            n = [e for e in inner_loops(p) if e.loop is V]
            if n:
                c.need(len(n) == 1, RP, p, 'vertices visited %d times' % len(n), inst)
                whole = len(sh) == 1 and (('begin', order) in list(walk(sh[0].args[0])) and ('end', order) in list(walk(sh[0].args[1])) or sh[0].args[1] == order)
                c.need(whole and sh[0].args[2] == rng, tag + ' shuffles the vertex order with the caller\'s generator before every pass', p, 'shuffles: %s' % sh, inst)
                ordered(c, tag + ' shuffles the vertex order with the caller\'s generator before every pass', inst, p, sh, n, 'shuffled after the pass')
            else: c.need(p.end[0] != 'back', RP, p, 'pass without visiting the vertices', inst)
        ind = [x for x in inductions(fn, R) if x[2] == 'add' and x[3] == 1 and x[1] == C(0)]
        # counting down from the limit
        ind += [(x[0], x[1], 'down', 1) for x in inductions(fn, R) if x[2] == 'add' and x[3] == -1 and x[1] == maxit]
        # changed flag
        flags = []
        for pid, init, _ in header_phis(fn, V):
            if init == [C(0)]:
                okfl = True
                for p in vi.body:
                    if p.end[0] != 'back': continue
                    w = arr_writes(p, lab); nv = p.end[2].get(pid)
                    if w and any(eq_pol(p, ('rd', e.args[0]), e.args[1]) is True for e in w): w = []
                    if not (nv == C(1) or is_add(nv, ('phi', pid)) and (phi_bits(fn, ('phi', pid)) or 64) >= 32 if w else nv == ('phi', pid)): okfl = False
                if okfl: flags.append(('phi', pid))
        RT = tag + ' stops only after a pass without changes or max_iters passes'
        c.need(len(flags) >= 1, RT, vi.where(), 'no flag recording exactly whether a label changed in the pass', inst)
        prev = {}
        for pid, init, _ in header_phis(fn, R):
            vals = [p.end[2].get(pid) for p in ex if p.end[0] == 'back']
            if init == [C(1)] and vals and all(v in flags for v in vals): prev[('phi', pid)] = vals
        for p in ex:
            n = [e for e in inner_loops(p) if e.loop is V]
            ch = None
            for f in flags:
                x = cond_pol(p, lambda q: q == f or (q[0] == 'cmp' and q[1] == 'eq' and f in q[2:] and C(1) in q[2:]))
                if x is None:
                    y = cond_pol(p, lambda q: q[0] == 'cmp' and q[1] == 'eq' and f in q[2:] and C(0) in q[2:]); x = None if y is None else not y
                if x is None:
                    y = lt_pol(p, C(0), f); z = lt_pol(p, f, C(1)); x = y if y is not None else None if z is None else not z
                if x is not None: ch = x
            lim = None
            for var, i0, k, s in ind:
                a = lt_pol(p, var, maxit); b = eq_pol(p, var, maxit)
                d = [eq_pol(p, y, maxit) for y in add1(var)] + [(lambda z: None if z is None else not z)(lt_pol(p, y, maxit)) for y in add1(var)]
                if k == 'down':
                    for w in [var] + list(add1(var, -1)):
                        x, y = eq_pol(p, C(0), w), lt_pol(p, C(0), w)
                        for z in (x, None if y is None else not y):
                            if z is not None: lim = z if lim is None else (lim or z)
                    continue
                for z in [None if a is None else not a, b] + d:
                    if z is not None: lim = z if lim is None else (lim or z)
            # the flag of the previous pass, tested before the next one
            for f, vals in prev.items():
                x = cond_pol(p, lambda q: q == f or (q[0] == 'cmp' and q[1] == 'eq' and f in q[2:] and ('neg' if C(0) in q[2:] else C(1) in q[2:])))
                if x is not None: ch = x if not n or ch is None else ch
            if p.end[0] == 'back': c.need(ch is True and lim is False, RT, p, 'goes on although nothing changed, or without the max_iters test: [%s]' % path_str(p), inst)
            else: c.need(lim is True or ch is False, RT, p, 'stops although labels changed in the last pass: [%s]' % path_str(p), inst)
        vertex_step(c, m, inst, tag, fn, V, vi, uid, lab, empty, rng)
        confined(c, tag + ' changes a label only to a most frequent neighbour label', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == lab, {V}, 'label write')
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            n = [e for e in inner_loops(p) if e.loop is R]
            if not n: c.need(eq_pol(p, C(0), Q('num_vertices')) is True, RP, p, 'returns without a pass', inst)


def fused(fn, s):
    """one pass that keeps the largest frequency and exactly the labels that have it: (maximum, list)"""
    val = ('rd', ('fld', s['it'], 16)); lb = ('rd', ('fld', s['it'], 8))
    if s['early']: return None
    for pid, init, _ in header_phis(fn, s['L']):
        ph = ('phi', pid)
        if init != [C(0)] or ph == s['it']: continue
        objs = {e.args[0] for p in s['body'] for e in p.items if e.kind == 'op' and e.args and opm(e) in ('push_back', 'emplace_back', 'assign')}
        if len(objs) != 1: continue
        o = objs.pop(); good = True
        for p in forked(s['body']):
            r = relation(p, ph, val); nv = p.end[2].get(pid)
            if not r: continue
            ops = [e for e in p.items if e.kind == 'op' and e.args and e.args[0] == o and not is_pure_op(e) and opm(e) != 'reserve']
            names = [opm(e) for e in ops]
            fresh = names in (['clear', 'push_back'], ['clear', 'emplace_back']) and neq(ops[1].args[1], lb) or names == ['assign'] and ops[0].args[1] == C(1) and (neq(ops[0].args[2], lb) or neq(('rd', ops[0].args[2]), lb))
            if r == {'lt'}: good &= neq(nv, val) and bool(fresh)
            elif r == {'eq'}: good &= (nv == ph or neq(nv, val)) and names in (['push_back'], ['emplace_back']) and neq(ops[0].args[1], lb)
            elif 'lt' not in r and 'eq' not in r: good &= nv == ph and not ops
            else: good = False
        if good: return ph, o
    return None


def max_position(m, fn, V, cont):
    """std::max_element over all frequencies, compared by frequency: (call, value at the position found)"""
    from alg_mst import closures, cmp_result
    bnd = lambda x, w: x[0] == 'rd' and bnd(x[1], w) or x[0] == 'ret' and last(x[2]) in (w, 'c' + w) and x[3] == cont
    val = lambda i, o: norm(('rd', ('fld', A(i), o)))
    for b, e in all_events(fn):
        if e.kind not in ('op', 'call') or last(e.name or '') != 'max_element' or fn.loop_of.get(b) is not V: continue
        if not (len(e.args) >= 2 and bnd(e.args[0], 'begin') and bnd(e.args[1], 'end')): continue
        rs = [cmp_result(f) for f in closures(m, e)]; rs = [r for r in rs if r is not None and r[0] == 'cmp']
        if rs and all(any(norm(r) == norm(('cmp', 'lt', val(i, o), val(i + 1, o))) for i in (0, 1) for o in (4, 8, 16)) for r in rs): return e
    return None


def vertex_step(c, m, inst, tag, fn, V, vi, uid, lab, empty, rng):
    RF = tag + ' counts the labels of all neighbours'
    el = [(L, edges_iter(fn, L, uid)) for L in V.children]; el = [(L, i) for L, i in el if i]
    if not c.need(len(el) == 1 and not el[0][1].early, RF, vi.where(), 'no complete loop over the edges of the vertex', inst): return
    E, ei = el[0]; t = Q('target', ei.var, uid); lt = ('rd', ('cell', lab, t, 0))
    freq = None
    for p in ei.body:
        w = [e for e in p.items if e.kind == 'write']
        c.saw('paths')
        emp = eq_pol(p, empty, lt) if empty else None
        n = 0 if emp is True else 1
        if empty and not c.need(emp is not None, tag + ' ignores unlabelled neighbours', p, 'neighbour counted or skipped without comparing its label with the empty label', inst): continue
        ok = len(w) == n
        for e in w:
            a = e.args[0]
            if a[0] == 'fld' and a[2] == 16 and a[1][0] == 'xv' and is_add(e.args[1], ('rd', a)):
                # the entry found or made with count zero
                z = [y for y in walk(a[1]) if y[0] == 'ret' and last(y[2]) in ('try_emplace', 'emplace') and len(y) == 6 and neq(y[4], lt) and y[5] == C(0)]
                if z: freq = z[0][3]; continue
            if a[0] == 'cell' and neq(a[2], lt) and is_add(e.args[1], ('rd', a)) or (a[0] == 'cell' and neq(a[2], lt) and neq(e.args[1], ('op', 'add', C(1), ('rd', a)))): freq = a[1]
            else: ok = False
        c.need(ok, tag + ' ignores unlabelled neighbours' if emp else RF, p, 'counts written: %s' % w, inst)
    if not c.need(freq is not None, RF, ei.where(), 'no frequency count', inst): return
    cl = [b for b, e in all_events(fn) if e.kind == 'op' and e.args and e.args[0] == freq and opm(e) in ('unordered_map', 'map', 'clear')]
    # max loop
    sl = [s for s in (set_loop(fn, L) for L in V.children) if s and s['cont'] == freq]
    mx = None; ml = clp = None; RM = tag + ' finds the largest frequency'
    cand = None; RC = tag + ' chooses among the most frequent labels'
    # largest frequency and its labels collected in one pass
    for s in sl:
        z = fused(fn, s)
        if z: mx, cand = z; ml = clp = s
    for s in sl if mx is None else []:
        val = ('rd', ('fld', s['it'], 16))
        for pid, init, _ in header_phis(fn, s['L']):
            ph = ('phi', pid)
            if init != [C(0)] or ph == s['it']: continue
            good = bool(s['body']) and not s['early']
            for p in s['body']:
                nv = p.end[2].get(pid); l = lt_pol(p, ph, val)
                if l is None:
                    g = lt_pol(p, val, ph); l = None if g is None else not g
                if norm(nv) == norm(('sel', ('cmp', 'lt', ph, val), val, ph)) or norm(nv) == norm(('sel', ('cmp', 'lt', val, ph), ph, val)): continue
                if l is None or not neq(nv, val if l else ph): good = False
            if good: mx = ph; ml = s
    if mx is None:
        z = max_position(m, fn, V, freq)
        if z:
            for p in [q for s in sl for q in s['body']]:
                for e, y in find_exprs(p, lambda y: y[0] == 'ret' and last(y[2]) == 'max_element'): mx = ('rd', ('fld', y, 16))
            ml = dict(L=None, call=z)
    if not c.need(mx is not None, RM, vi.where(), 'no complete maximum over the frequencies', inst): return
    for s in sl if cand is None else []:
        if s is ml: continue
        val = ('rd', ('fld', s['it'], 16)); lb = ('rd', ('fld', s['it'], 8)); good = not s['early']; o = None
        for p in s['body']:
            q = eq_pol(p, mx, val)
            if q is None:
                z = lt_pol(p, val, mx); q = None if z is None else not z
            ps = [e for e in p.items if is_push(e)]
            if q is None or len(ps) != (1 if q else 0) or any(not neq(e.args[1], lb) for e in ps): good = False
            for e in ps: o = e.args[0]
        if good and o: cand = o; clp = s
    if not c.need(cand is not None, RC, vi.where(), 'no list of exactly the labels with the largest frequency', inst): return
    RL = tag + ' changes a label only to a most frequent neighbour label'
    cur = ('rd', ('cell', lab, uid, 0))
    dist_ok = False
    for p in vi.body:
        c.saw('paths')
        w = arr_writes(p, lab)
        ef = cond_pol(p, lambda q: (lambda t_: t_ is not None and t_[0] == freq and t_[1])(empty_test(q)) is True or (lambda t_: 'neg' if t_ is not None and t_[0] == freq and not t_[1] else False)(empty_test(q)))
        ne = [e for e in inner_loops(p) if e.loop is E]
        reset = [e for e in p.items if e.kind == 'op' and e.args and e.args[0] == freq and opm(e) in ('unordered_map', 'map', 'clear')]
        one(c, RF, inst, p, ne, 'edge loop')
        c.need(len(reset) == 1, RF, p, 'frequencies are not reset for the vertex', inst)
        ordered(c, RF, inst, p, reset, ne, 'frequencies reset after counting')
        if ef is True:
            c.need(not w, tag + ' keeps the label of a vertex without labelled neighbours', p, 'label written although no neighbour is labelled', inst); continue
        if not c.need(ef is False, tag + ' keeps the label of a vertex without labelled neighbours', p, 'no test for missing neighbours', inst): continue
        lo = [e.loop for e in inner_loops(p)]
        if ml['L'] is None:
            k = [i for i, e in enumerate(p.items) if e.inst is ml['call'].inst]; w_ = {e.loop: i for i, e in enumerate(p.items) if e.kind == 'loop'}
            if not c.need(len(k) == 1 and lo.count(clp['L']) == 1 and w_[E] < k[0] < w_[clp['L']], RC, p, 'passes over the frequencies missing or out of order', inst): continue
        elif not c.need(lo.count(ml['L']) == 1 and lo.count(clp['L']) == 1 and lo.index(E) < lo.index(ml['L']) and (ml is clp or lo.index(ml['L']) < lo.index(clp['L'])), RC, p, 'passes over the frequencies missing or out of order', inst): continue
        rc = [e for e in p.items if e.kind == 'op' and e.args and e.args[0] == cand and opm(e) in ('vector', 'clear')]
        c.need(len(rc) >= 1, RC, p, 'candidates of an earlier vertex are kept', inst)
        best = None
        for e in p.items:
            for a in (e.args[1:] if e.kind == 'write' and base_of(e.args[0]) == lab else e.args if e.kind == 'cond' else ()):
                for y in walk(a):
                    if y[0] == 'rd' and (y[1][0] == 'cell' and y[1][1] == cand or y[1][0] == 'peek' and y[1][1] == cand): best = y
        if not c.need(best is not None, RC, p, 'label is not taken from the candidates', inst): continue
        ix = best[1][2] if best[1][0] == 'cell' else C(0)
        one_ = cond_pol(p, lambda q: q[0] == 'cmp' and q[1] == 'eq' and C(1) in q[2:] and any(size_of(y) == cand for y in q[2:]))
        if one_ is None:
            one_ = cond_pol(p, lambda q: q[0] == 'cmp' and q[1] == 'lt' and ('neg' if q[2] == C(1) and size_of(q[3]) == cand else q[3] == C(2) and size_of(q[2]) == cand))
        if ix[0] == 'c': c.need(ix == C(0) and one_ is True, tag + ' breaks ties at random', p, 'a fixed candidate is taken although there may be several', inst)
        else:
            ds = [e for e in p.items if e.kind == 'op' and e.name.startswith('uniform_int_distribution')]
            ct = [e for e in ds if opm(e) == 'uniform_int_distribution']
            dr = [e for e in ds if opm(e) == 'operator()']
            ok = len(ct) == 1 and ct[0].args[1] == C(0) and any(size_of(y) == cand for y in walk(ct[0].args[2])) and norm(ct[0].args[2]) == norm(('op', 'add', C(-1), [y for y in walk(ct[0].args[2]) if size_of(y) == cand][0])) if ct else False
            c.need(ok and len(dr) == 1 and rng in dr[0].args and ix[0] == 'ret', tag + ' breaks ties at random', p, 'candidate index %s' % pp(ix), inst)
        same = eq_pol(p, cur, best)
        if w:
            c.need(len(w) == 1 and neq(w[0].args[0], ('cell', lab, uid, 0)) and neq(w[0].args[1], best), RL, p, 'writes %s' % w, inst)
        else: c.need(same is True, RL, p, 'label kept although the chosen label may differ: [%s]' % path_str(p), inst)

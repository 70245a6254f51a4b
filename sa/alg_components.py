"""Rules for kosaraju, connected_components and afforest."""
from lib import *
from alg_traversal import one, ordered, confined, no_stale_peek, path_str, sites, mark_initial
from alg_paths import norm, neq, arr_writes, array_fill

MAXU = C(-1)


def unassigned(p, comp, x):
    """True/False/None: is component[x] still the 'unassigned' value on this path"""
    cell = ('rd', ('cell', comp, x, 0))
    for e in p.items:
        if e.kind != 'cond': continue
        q = e.args[0]
        if q[0] != 'cmp': continue
        if q[1] == 'eq' and MAXU in q[2:] and any(neq(y, cell) for y in q[2:]): return e.pol
        if q[1] == 'lt' and q[3] == MAXU and neq(q[2], cell): return not e.pol
    return None


def filled(c, rule, inst, fn, comp, val=MAXU, name='fill'):
    """every component entry is set to val before anything else"""
    for b, e in all_events(fn):
        if e.kind == 'op' and e.name.endswith('__%s_fn::operator()' % name) and len(e.args) == 3 and e.args[1] == comp:
            return c.need(e.args[2] == val and fn.loop_of.get(b) is None, rule, e, 'initialised by %s' % e, inst)
        if last(e.name or '') == name and len(e.args) >= 3 and e.kind in ('op', 'call'):
            a = e.args
            ok = a[2] == val and ('begin', comp) in list(walk(a[0])) and ('end', comp) in list(walk(a[1])) and fn.loop_of.get(b) is None
            if ('begin', comp) in list(walk(a[0])): return c.need(ok, rule, e, 'initialised by %s' % e, inst)
    if name == 'iota': ok = array_fill(fn, comp, lambda i, v: v == i) or vfill(fn, comp, lambda i, v: v == i)
    else: ok = array_fill(fn, comp, lambda i, v: v == val) or vfill(fn, comp, lambda i, v: v == val)
    return c.need(ok, rule, fn, 'no initialisation of every entry', inst)


def vfill(fn, arr, val):
    for L in fn.loops:
        it = iterations(fn, L)
        if it and it.kind == 'vertices' and not it.early and it.body and all(
                [e for e in arr_writes(p, arr) if e.args[0] == ('cell', arr, it.var, 0) and val(it.var, e.args[1])] and len(arr_writes(p, arr)) == 1 for p in it.body): return L
    return False


class Flood:
    """loop that assigns `cid` to everything reachable from a root through edges of one kind"""


def flood_drain(c, inst, tag, fn, d, comp, cid, kind, loops):
    O = d.obj
    c.need(not d.early, tag + ' explores a whole component', d.early[0] if d.early else d.where(), 'exploration can stop with vertices pending', inst)
    el = [(L, iterations(fn, L)) for L in d.L.children]
    el = [(L, i) for L, i in el if i and i.kind in EDGE_Q]
    if not c.need(len(el) == 1 and el[0][1].kind == kind, tag + ' follows every edge of each vertex of the component', d.where(), 'no loop over all edges of the vertex taken from the worklist (found %s)' % [i.kind for _, i in el], inst): return
    L, it = el[0]; u = it.over
    t = Q({'edges': 'target', 'in_edges': 'in_source', 't_edges': 't_target'}[kind], it.var, u)
    c.need(u[0] == 'rd' and u[1][0] == 'peek' and u[1][1] == O, tag + ' follows every edge of each vertex of the component', it.where(), 'edges scanned belong to %s' % pp(u), inst)
    c.need(not it.early, tag + ' follows every edge of each vertex of the component', it.early[0] if it.early else it.where(), 'edge scan can stop early', inst)
    for p in it.body:
        c.saw('paths')
        un = unassigned(p, comp, t)
        w = arr_writes(p, comp); ps = [e for e in p.items if is_push(e, O)]
        if not c.need(un is not None, tag + ' assigns every neighbour not yet assigned', p, 'neighbour skipped or taken without testing whether it is assigned: [%s]' % path_str(p), inst): continue
        n = 1 if un else 0
        c.need(len(w) == n and all(neq(e.args[0], ('cell', comp, t, 0)) and e.args[1] == cid for e in w), tag + ' assigns every neighbour not yet assigned', p, '%d assignment(s), expected %d of the current component: [%s]' % (len(w), n, path_str(p)), inst)
        c.need(len(ps) == n and all(neq(e.args[1], t) for e in ps), tag + ' explores every vertex it assigns', p, '%d push(es), expected %d' % (len(ps), n), inst)
    for p in d.body:
        c.saw('paths')
        one(c, tag + ' takes one vertex per step', inst, p, [e for e in p.items if is_pop(e, O)], 'pop')
        one(c, tag + ' follows every edge of each vertex of the component', inst, p, [e for e in inner_loops(p) if e.loop is L], 'edge scan')
        c.need(not arr_writes(p, comp), tag + ' assigns every neighbour not yet assigned', p, 'stray assignment', inst)
    no_stale_peek(c, inst, fn, [d.L, L])
    loops |= {L, d.L}


def flood_view(c, inst, tag, fn, L, comp, cid, root, parent_paths, loops, gtype='og::GT'):
    """tree collected through vertices_dfs_view(g_t, root) with cancel_branch at assigned vertices"""
    V = 'graph::views::vertices_dfs_view::'
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    for p in P:
        st = None; v = None
        for e in p.items:
            if e.kind == 'cond' and e.args[0][0] == 'ret' and 'operator==' in e.args[0][2]: st = e.pol if st is None else st
            if e.kind == 'op' and e.name.endswith('iterator::operator*'): v = e
        if p.end[0] != 'back':
            c.need(st is True, tag + ' explores a whole component', p, 'exploration can stop before the search is exhausted', inst); continue
        c.saw('paths')
        inc = [e for e in p.items if e.kind == 'op' and e.name.endswith('iterator::operator++')]
        cc = [e for e in p.items if e.kind == 'op' and e.name.endswith('vertices_dfs_view::cancel')]
        if not c.need(st is False and v is not None and len(inc) == 1, tag + ' explores a whole component', p, 'not a plain traversal of the search', inst): continue
        x = None
        for e in p.items:
            if e.kind == 'cond':
                for y in walk(e.args[0]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and y[1][1] == comp and y[1][2][0] == 'ret' and y[1][2][2].endswith('iterator::operator*'): x = y[1][2]
        un = unassigned(p, comp, x) if x else None
        if not c.need(un is not None, tag + ' assigns every vertex found that is not yet assigned', p, 'vertex taken without testing whether it is assigned', inst): continue
        w = arr_writes(p, comp)
        c.need(len(w) == (1 if un else 0) and all(neq(e.args[0], ('cell', comp, x, 0)) and e.args[1] == cid for e in w), tag + ' assigns every vertex found that is not yet assigned', p, '%d assignment(s): [%s]' % (len(w), path_str(p)), inst)
        c.need(len(cc) == (0 if un else 1) and all(e.args[1] == C(1) for e in cc), tag + ' does not search beyond vertices of other components', p, '%d cancel(s), argument %s' % (len(cc), [pp(e.args[1]) for e in cc]), inst)
        ordered(c, tag + ' does not search beyond vertices of other components', inst, p, cc, inc, 'cancel after the step')
    for p in parent_paths:
        cv = [e for e in p.items if e.kind == 'op' and e.name.endswith('vertices_dfs_view::vertices_dfs_view')]
        c.need(len(cv) == 1 and neq(cv[0].args[1], root), tag + ' searches from the root', p, 'search does not start at the root', inst)
        for e in cv:
            d = fn.mod.anchors.get(e.inst.callee, {}).get('dem', '')
            c.need(gtype in d, tag + ' follows the edges of the transposed graph', e, 'search runs on another graph: ' + d[:120], inst)
    loops.add(L)


def flood_roots(c, inst, tag, fn, it, comp, root, kind, isolated, loops):
    """`it`: iteration over candidate roots.  Every unassigned root starts one new component; others are left alone"""
    H = header_phis(fn, it.L)
    cids = []
    for pid, init, _ in H:
        if init == [C(0)] and ('phi', pid) != it.var and any(p.end[0] == 'back' and p.end[2].get(pid) != ('phi', pid) for p in it.body): cids.append(('phi', pid))
    if not c.need(len(cids) == 1 and not it.early, tag + ' numbers components from zero', it.where(), 'no component counter starting at zero, or roots are skipped', inst): return None
    cid = cids[0]; starts = []
    for p in it.body:
        c.saw('paths')
        un = unassigned(p, comp, root)
        inn = inner_loops(p); w = arr_writes(p, comp)
        nv = p.end[2].get(cid[1]) if p.end[0] == 'back' else cid
        if not c.need(un is not None, tag + ' starts a component at every unassigned vertex', p, 'root taken or skipped without testing whether it is assigned', inst): continue
        if not un:
            c.need(not inn and not w and nv == cid, tag + ' leaves assigned vertices alone', p, 'assigned vertex starts work: [%s]' % path_str(p), inst); continue
        c.need(is_add(nv, cid), tag + ' numbers components consecutively', p, 'counter becomes %s after a component' % pp(nv), inst)
        if not inn and isolated:
            emp = None
            for e in p.items:
                if e.kind == 'cond':
                    x = e.args[0]
                    if x[0] == 'cmp' and x[1] == 'eq' and norm(x) in (norm(('cmp', 'eq', C(0), ('op', 'sub', Q('edges_end', root), Q('edges_begin', root)))), norm(('cmp', 'eq', Q('edges_begin', root), Q('edges_end', root))), norm(('cmp', 'eq', Q('edges_end', root), Q('edges_begin', root)))): emp = e.pol
            c.need(emp is True, tag + ' explores a whole component', p, 'component not explored although the vertex may have edges: [%s]' % path_str(p), inst)
            c.need(len(w) == 1 and neq(w[0].args[0], ('cell', comp, root, 0)) and w[0].args[1] == cid, tag + ' assigns the root', p, 'root not assigned', inst)
            continue
        starts.append((p, w))
    fl = {e.loop for p, _ in starts for e in inner_loops(p)}
    if not c.need(len(fl) == 1 and all(len(inner_loops(p)) == 1 for p, _ in starts), tag + ' explores a whole component', it.where(), 'expected one exploration per root, found %d' % len(fl), inst): return cid
    F = fl.pop(); d = drains(fn, F)
    if d:
        flood_drain(c, inst, tag, fn, d, comp, cid, kind, loops)
        for p, w in starts:
            c.need(len(w) == 1 and neq(w[0].args[0], ('cell', comp, root, 0)) and w[0].args[1] == cid, tag + ' assigns the root', p, 'root assigned %d times' % len(w), inst)
            ps = [e for e in p.items if is_push(e, d.obj)]
            c.need(len(ps) == 1 and neq(ps[0].args[1], root), tag + ' searches from the root', p, 'worklist not started with the root', inst)
            ordered(c, tag + ' searches from the root', inst, p, ps + w, inner_loops(p), 'root queued or assigned after the exploration')
    else:
        flood_view(c, inst, tag, fn, F, comp, cid, root, [p for p, _ in starts], loops)
        for p, w in starts: c.need(not w, tag + ' assigns the root', p, 'root assigned before its search (which would cut the search at once)', inst)
    return cid


# ------------------------------------------------------------------ Kosaraju
def finish_pass(c, inst, tag, fn, order, top):
    """first pass: order = vertices in the finish order of a complete depth-first search"""
    it = iterations(fn, top)
    ds = [d for d in find_drains(fn) if top in ancestors(d.L)]
    if not c.need(len(ds) == 1, tag + ' first pass: one search per unvisited vertex', it.where(), 'expected one worklist loop, found %d' % len(ds), inst): return
    d = ds[0]; O = d.obj
    c.need(wl_discipline(fn, O) == 'lifo', tag + ' first pass is a depth-first search', d.where(), 'worklist is not last-in first-out', inst)
    c.need(not d.early and not it.early, tag + ' first pass visits every vertex', (d.early + it.early + [d.where()])[0], 'pass can stop early', inst)
    el = [(L, iterations(fn, L)) for L in d.L.children]
    el = [(L, i) for L, i in el if i and i.kind == 'edges']
    if not c.need(len(el) == 1, tag + ' first pass follows every edge', d.where(), 'no loop over all out-edges', inst): return
    L, ei = el[0]; u = ei.over; t = Q('target', ei.var, u)
    c.need(not ei.early, tag + ' first pass follows every edge', ei.early[0] if ei.early else ei.where(), 'edge scan can stop early', inst)
    # layout of an entry: vertex and 'children done' flag
    vo = u[1][2] if u[0] == 'rd' and u[1][0] == 'fld' else 0
    pushes = [e for b, e in all_events(fn) if is_push(e, O)]
    fo = [o for o in flds(pushes[0]) if o != vo] if pushes else []
    if not c.need(len(fo) == 1 and u[0] == 'rd' and base_of(u[1]) == O, tag + ' first pass records a vertex after its descendants', d.where(), 'entries do not say whether the descendants are done', inst): return
    fo = fo[0]
    pk = u[1][1] if u[1][0] == 'fld' else u[1]
    flag = ('fld', pk, fo) if fo else pk
    marks = None
    for p in d.body:
        for e in p.conds():
            for y in walk(e.args[0]):
                if y[0] == 'rd' and y[1][0] == 'cell' and neq(y[1][2], u): marks = y[1][1]
    if not c.need(marks is not None, tag + ' first pass enters each vertex once', d.where(), 'visited mark of the vertex taken from the stack is not tested', inst): return
    mark_initial(c, tag + ' visited marks start clear', inst, fn, marks, 0)
    for p in ei.body:
        c.saw('paths')
        tr = truth(p, ('cell', marks, t, 0)); ps = [e for e in p.items if is_push(e, O)]
        c.need(tr is True or len(ps) == 1, tag + ' first pass follows every edge', p, 'unvisited target not pushed: [%s]' % path_str(p), inst)
        c.need(all(neq(flds(e).get(vo), t) and flds(e).get(fo) == C(0) for e in ps) and len(ps) <= 1, tag + ' first pass follows every edge', p, 'pushed entry is not (target, not done)', inst)
        c.need(not [e for e in p.items if cell_write(e, marks)], tag + ' first pass marks a vertex when it is entered', p, 'target marked before it is entered: finish times would not be those of a depth-first search', inst)
    for p in d.body:
        c.saw('paths')
        one(c, tag + ' first pass takes one entry per step', inst, p, [e for e in p.items if is_pop(e, O)], 'pop')
        fl = truth(p, flag); vis = truth(p, ('cell', marks, u, 0))
        ob = [e for e in p.items if is_push(e, order)]; ps = [e for e in p.items if is_push(e, O)]
        mk = [e for e in p.items if cell_write(e, marks)]; sc = [e for e in inner_loops(p) if e.loop is L]
        if not c.need(fl is not None, tag + ' first pass records a vertex after its descendants', p, 'entry kind not tested', inst): continue
        if fl:
            c.need(len(ob) == 1 and neq(ob[0].args[1], u) and not ps and not sc and not mk, tag + ' first pass records a vertex after its descendants', p, 'finished entry does not record exactly its vertex', inst); continue
        c.need(not ob, tag + ' first pass records a vertex after its descendants', p, 'vertex recorded before its descendants', inst)
        if not c.need(vis is not None, tag + ' first pass enters each vertex once', p, 'visited mark not tested', inst): continue
        if vis:
            c.need(not ps and not sc and not mk, tag + ' first pass enters each vertex once', p, 'visited vertex entered again', inst); continue
        c.need(len(mk) == 1 and neq(cell_write(mk[0])[1], u) and cell_write(mk[0])[2] in (C(1), C(-1)), tag + ' first pass enters each vertex once', p, 'entered vertex not marked', inst)
        c.need(len(ps) == 1 and neq(flds(ps[0]).get(vo), u) and flds(ps[0]).get(fo) == C(1), tag + ' first pass records a vertex after its descendants', p, 'no (vertex, done) entry pushed', inst)
        one(c, tag + ' first pass follows every edge', inst, p, sc, 'edge scan')
        ordered(c, tag + ' first pass records a vertex after its descendants', inst, p, ps, sc, 'done entry pushed above the descendants')
        ordered(c, tag + ' first pass enters each vertex once', inst, p, mk, sc, 'marked after its edges were scanned')
    for p in it.body:
        c.saw('paths')
        tr = truth(p, ('cell', marks, it.var, 0)); ps = [e for e in p.items if is_push(e, O)]; lp = [e for e in inner_loops(p) if e.loop is d.L]
        if tr is True: c.need(not ps and not lp, tag + ' first pass: one search per unvisited vertex', p, 'search from a visited vertex', inst) if False else None
        else:
            c.need(len(ps) == 1 and neq(flds(ps[0]).get(vo), it.var) and flds(ps[0]).get(fo) == C(0) and len(lp) == 1, tag + ' first pass: one search per unvisited vertex', p, 'no search from a vertex that may be unvisited: [%s]' % path_str(p), inst)
            ordered(c, tag + ' first pass: one search per unvisited vertex', inst, p, ps, lp, 'pushed after the search')
        c.need(not [e for e in p.items if cell_write(e, marks)], tag + ' first pass enters each vertex once', p, 'root marked before it is entered', inst)
    confined(c, tag + ' first pass records a vertex after its descendants', inst, fn, lambda e: is_push(e, order), {d.L}, 'vertex recorded')
    no_stale_peek(c, inst, fn, [d.L, L])


def flds(e):
    lf = e.inst.leaf or []
    return dict(zip([l[1] for l in lf][1:], e.args[1:]))


def ancestors(L):
    r = []
    while L is not None:
        r.append(L); L = L.parent
    return r


ORDER_OK = {'reserve', 'shrink_to_fit', 'back', 'front', 'top', 'size', 'empty', 'data', 'at', 'operator[]', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'capacity'}


def whole(e, v):
    """the operation covers the whole of v"""
    w = [y for x in e.args for y in walk(x)]
    return ('begin', v) in w and ('end', v) in w and not any(y[0] == 'op' for y in w) or v in e.args


def kosaraju(c, m):
    for name, comp, kind in (('kosaraju_t', A(2), 't_edges'), ('kosaraju_b', A(1), 'in_edges')):
        fn = m.entry(name); inst = name; c.saw('functions'); tag = 'kosaraju'
        filled(c, tag + ' every vertex starts unassigned', inst, fn, comp)
        tops = [(L, iterations(fn, L)) for L in fn.top_loops]
        vs = [(L, i) for L, i in tops if i and i.kind == 'vertices' and L.children]
        if not c.need(len(vs) == 1, tag + ' first pass visits every vertex', fn, 'no loop over all vertices', inst): continue
        R2 = tag + ' second pass takes vertices in reverse finish order'
        rec = {e.args[0] for b, e in all_events(fn) if e.kind == 'op' and e.args and is_push(e, e.args[0])}
        cand = []
        for L, i in tops:
            d = drains(fn, L)
            if L is vs[0][0]: continue
            if i and i.kind in ('rrange', 'range', 'index') and i.over in rec:
                cand.append((L, i, i.over, -1 if i.kind == 'rrange' else 1, ('rd', i.elem if i.kind == 'rrange' else ('cell', i.over, i.var, 0) if i.kind == 'index' else i.var)))
            elif d and d.obj in rec and wl_discipline(fn, d.obj) == 'lifo' and not d.index:
                roots = {y for p in d.body for e in p.items for a in e.args for y in walk(a) if y[0] == 'rd' and y[1][0] == 'peek' and y[1][1] == d.obj}
                if len(roots) == 1 and all(len([e for e in p.items if is_pop(e, d.obj)]) == 1 for p in d.body):
                    cand.append((L, Iter(fn, L, None, None, None, None, d.body, d.early, []), d.obj, -1, roots.pop()))
        if not c.need(len(cand) == 1, R2, fn, 'no iteration over the finish order', inst): continue
        L2, i2, order, direction, root = cand[0]
        finish_pass(c, inst, tag, fn, order, vs[0][0])
        loops = {L2}
        flood_roots(c, inst, tag, fn, i2, comp, root, kind, False, loops)
        confined(c, tag + ' components assigned only by the second pass', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == comp, loops, 'component assigned')
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            a = [e for e in inner_loops(p) if e.loop is vs[0][0]]; b = [e for e in inner_loops(p) if e.loop is L2]
            c.need(len(a) == 1 and len(b) == 1, tag + ' runs both passes', p, 'a pass is skipped', inst)
            ordered(c, tag + ' runs both passes', inst, p, a, b, 'second pass before the first')
            dirn = direction
            for e in p.items:
                if e.kind not in ('op', 'call') or not any(('begin', order) in list(walk(x)) or x == order for x in e.args): continue
                n = last(e.name or '') if last(e.name or '') != 'operator()' else e.name.split('::')[-2]
                if n in ('reverse', '__reverse_fn') and len(a) == 1 and len(b) == 1 and before(p, a[0], e) and before(p, e, b[0]):
                    dirn = -dirn; c.need(whole(e, order), R2, e, 'only part of the finish order reversed', inst)
                elif e.kind == 'op' and e.args[0] == order and (n in ORDER_OK or n == e.name.split('::')[0]): pass
                elif len(b) == 1 and before(p, b[0], e): pass
                else: c.need(False, R2, e, 'the finish order is changed by %s' % e, inst)
            c.need(dirn == -1, R2, p, 'vertices taken in the order in which they finished', inst)
        for p in i2.body:
            for e in p.items:
                if e.kind in ('op', 'call') and e.args and e.args[0] == order and last(e.name) not in ORDER_OK | {'pop_back', 'pop'}: c.need(False, R2, e, 'the finish order is changed by %s' % e, inst)


def cc(c, m):
    fn = m.entry('cc'); inst = 'connected_components'; tag = inst; comp = A(1); c.saw('functions')
    filled(c, tag + ' every vertex starts unassigned', inst, fn, comp)
    tops = [(L, i) for L, i in ((L, iterations(fn, L)) for L in fn.top_loops) if i and i.kind == 'vertices' and L.children]
    if not c.need(len(tops) == 1, tag + ' looks at every vertex', fn, 'no loop over all vertices', inst): return
    L, it = tops[0]; loops = {L}
    cid = flood_roots(c, inst, tag, fn, it, comp, it.var, 'edges', True, loops)
    confined(c, tag + ' components assigned only by the search', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == comp, loops, 'component assigned')
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        rv = [e for e in p.items if e.kind == 'ret']
        one(c, tag + ' looks at every vertex', inst, p, [e for e in inner_loops(p) if e.loop is L], 'loop over the vertices')
        if cid: c.need(rv and rv[0].args[0] == cid, tag + ' returns the number of components', p, 'returns %s' % (pp(rv[0].args[0]) if rv else '?'), inst)


# ------------------------------------------------------------------ afforest
def chain(e, comp):
    """k, x when e == component^k [x]"""
    k = 0
    while e[0] == 'rd' and e[1][0] == 'cell' and e[1][1] == comp and e[1][3] == 0:
        e = e[1][2]; k += 1
    return k, e


def hi_lo(p1, p2):
    lt = [('cmp', 'lt', p1, p2), ('cmp', 'lt', p2, p1)]
    hi = {('sel', ('cmp', 'lt', p2, p1), p1, p2), ('sel', ('cmp', 'lt', p1, p2), p2, p1)}
    lo = {('sel', ('cmp', 'lt', p2, p1), p2, p1), ('sel', ('cmp', 'lt', p1, p2), p1, p2)}
    return {norm(x) for x in hi}, {norm(x) for x in lo}


def role(p, e, p1, p2):
    """'hi'/'lo' when e is the larger/smaller of p1,p2 on path p"""
    hi, lo = hi_lo(p1, p2)
    n = norm(e)
    if n in hi: return 'hi'
    if n in lo: return 'lo'
    for h in hi:
        for x, y in ((p1, p2), (p2, p1)):
            forms = [('op', 'add', y, ('op', 'sub', x, h)), ('op', 'sub', ('op', 'add', x, y), h), ('op', 'add', x, ('op', 'sub', y, h))]
            if n in [norm(f) for f in forms]: return 'lo'
    for x, y in ((p1, p2), (p2, p1)):
        if eqv(e, x):
            for q in p.items:
                if q.kind == 'cond' and q.args[0][0] == 'cmp' and q.args[0][1] == 'lt':
                    a, b = q.args[0][2:]
                    if eqv(a, y) and eqv(b, x) and q.pol or eqv(a, x) and eqv(b, y) and not q.pol: return 'hi'
                    if eqv(a, x) and eqv(b, y) and q.pol or eqv(a, y) and eqv(b, x) and not q.pol: return 'lo'
    return None


def link_loop(fn, L, comp):
    """candidate link loop: two carried values p1,p2, leaves when equal.  returns (p1, p2, init1, init2)"""
    H = header_phis(fn, L)
    for p in lpaths(fn, L):
        if p.end[0] == 'back': continue
        for e in p.items:
            if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq' and e.pol and e.args[0][2][0] == 'phi' and e.args[0][3][0] == 'phi':
                a, b = e.args[0][2:]
                ini = {('phi', pid): init for pid, init, _ in H}
                if a in ini and b in ini and len(ini[a]) == 1 and len(ini[b]) == 1:
                    return a, b, ini[a][0], ini[b][0]
    return None


def check_link(c, inst, tag, fn, L, comp, p1, p2):
    """the loop merges the sets of p1 and p2 and keeps parent <= child"""
    w = Iter(fn, L, None, None, None, None, [], [], [])
    for p in lpaths(fn, L):
        if p.end[0] == 'unreach': continue
        c.saw('paths')
        eq = eq_pol(p, p1, p2); ws = arr_writes(p, comp)
        if eq is True:
            c.need(not ws and p.end[0] != 'back', tag + ' link stops when both ends share a parent', p, 'goes on or writes although both are equal', inst); continue
        if p.end[0] != 'back':
            # already linked, or a root linked below the smaller id
            root = None; linked = None
            for e in p.items:
                if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                    for a, b in (e.args[0][2:], e.args[0][2:][::-1]):
                        k, x = chain(a, comp)
                        if k == 1 and role(p, x, p1, p2) == 'hi':
                            r = role(p, b, p1, p2)
                            if r == 'hi': root = e.pol
                            if r == 'lo': linked = e.pol
            if linked is True and not ws: c.need(True, tag + ' link stops when both ends share a parent', p, '', inst); continue
            ok = root is True and len(ws) == 1 and ws[0].args[0][0] == 'cell' and role(p, ws[0].args[0][2], p1, p2) == 'hi' and role(p, ws[0].args[1], p1, p2) == 'lo'
            c.need(ok, tag + ' link joins a root to the smaller id of the other tree', p, 'link ends without joining the two trees: [%s]' % path_str(p), inst)
        else:
            nv = [p.end[2].get(p1[1]), p.end[2].get(p2[1])]
            ch = [chain(x, comp) for x in nv]; rl = [role(p, x, p1, p2) for k, x in ch]
            ok = not ws and sorted(map(str, rl)) == ['hi', 'lo'] and [k for (k, x), r in zip(ch, rl) if r == 'hi'][0] >= 1
            c.need(ok, tag + ' link climbs within both trees', p, 'next pair is %s, %s' % (pp(nv[0]), pp(nv[1])), inst)


def compress_loop(fn, L, comp):
    """loop over i ascending with component[i] := component[component[i]]; None when it is not one"""
    it = iterations(fn, L)
    if not it or it.early: return None
    okb = (it.kind == 'index' and it.over == comp) or it.kind == 'vertices'
    i = it.var
    if it.kind == 'range' and it.over == comp: okb = True; cell = it.var
    else: cell = ('cell', comp, i, 0)
    if not okb: return None
    pr = ('rd', cell); gp = ('rd', ('cell', comp, pr, 0))
    n = 0
    for I in L.children:
        # climbing step by step: until parent and grandparent agree
        P = [q for q in lpaths(fn, I) if q.end[0] != 'unreach']
        agree = lambda q: cond_pol(q, lambda x: x[0] == 'cmp' and x[1] == 'eq' and {norm(x[2]), norm(x[3])} == {norm(pr), norm(gp)})
        if P and all(agree(q) is (q.end[0] != 'back') and len(arr_writes(q, comp)) == (q.end[0] == 'back') and all(neq(w.args[0], cell) and neq(w.args[1], gp) for w in arr_writes(q, comp)) for q in P) and all([e.loop for e in inner_loops(p)].count(I) == 1 and not arr_writes(p, comp) for p in it.body): return it
    def rootval(v):
        if v[0] != 'phi': return False
        for I in L.children:
            for pid, init, _ in header_phis(fn, I):
                if ('phi', pid) == v and len(init) == 1 and any(neq(init[0], x) for x in (pr, gp, i)):
                    up = ('rd', ('cell', comp, v, 0))
                    return all(eq_pol(q, v, up) is (q.end[0] != 'back') and not arr_writes(q, comp) and (q.end[0] != 'back' or neq(q.end[2].get(pid, v), up)) for q in lpaths(fn, I) if q.end[0] != 'unreach')
        return False
    for p in it.body:
        ws = arr_writes(p, comp) + ([e for e in p.items if e.kind == 'write' and e.args[0] == cell] if it.kind == 'range' else [])
        e_ = cond_pol(p, lambda x: x[0] == 'cmp' and x[1] == 'eq' and {norm(x[2]), norm(x[3])} == {norm(pr), norm(gp)})
        if e_ is True and not ws: continue
        if len(ws) == 1 and neq(ws[0].args[0], cell) and (neq(ws[0].args[1], gp) or rootval(ws[0].args[1])): n += 1; continue
        return None
    return it if n else None


def afforest(c, m):
    for name, comp, rounds, tr in (('afforest', A(1), A(2), False), ('afforest_t', A(2), A(3), True)):
        fn = m.entry(name); inst = name; tag = 'afforest'; c.saw('functions')
        filled(c, tag + ' every vertex starts as its own root', inst, fn, comp, C(0), 'iota')
        links = {}; comps = []
        for L in fn.loops:
            k = link_loop(fn, L, comp)
            if k and any(arr_writes(p, comp) for p in lpaths(fn, L)): links[L] = k; continue
            if compress_loop(fn, L, comp): comps.append(L)
        for L, (p1, p2, i1, i2) in links.items(): check_link(c, inst, tag, fn, L, comp, p1, p2)
        ini = array_fill(fn, comp, lambda i, v: v == i) or vfill(fn, comp, lambda i, v: v == i)
        confined(c, tag + ' parents changed only by link and compress', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == comp, set(links) | set(comps) | ({ini} if ini else set()) | {I for L in comps for I in L.children}, 'parent write')
        # what is linked where
        samp, rest, trest = [], [], []
        for L, (p1, p2, i1, i2) in links.items():
            ends = [chain(i1, comp), chain(i2, comp)]
            par = [iterations(fn, x) for x in ancestors(L)[1:]]
            vit = [i for i in par if i and i.kind == 'vertices']
            if not c.need(len(vit) == 1 and all(k == 1 for k, x in ends), tag + ' links the ends of edges', par[0].where() if par and par[0] else fn, 'link of %s and %s' % (pp(i1), pp(i2)), inst): continue
            v = vit[0]; xs = [x for k, x in ends]
            tgt = [x for x in xs if x[0] == 'q' and x[1] in ('target', 't_target')]
            if not c.need(len(tgt) == 1 and v.var in xs and tgt[0][3] == v.var, tag + ' links the ends of edges', v.where(), 'link of %s and %s' % (pp(xs[0]), pp(xs[1])), inst): continue
            tg = tgt[0]; pos = tg[2]
            inner = [x for x in ancestors(L)[1:] if v.L in ancestors(x)[1:]]
            (trest if tg[1] == 't_target' else rest if inner else samp).append((L, v, tg, pos, inner))
        need1 = lambda lst, what: c.need(len(lst) == 1, tag + ' ' + what, fn, 'found %d such link(s)' % len(lst), inst)
        # sampling rounds
        if need1(samp, 'first rounds link neighbour r of every vertex in round r'):
            L, v, tg, pos, _ = samp[0]; R = v.L.parent; ri = iterations(fn, R) if R else None
            okr = ri and ri.kind == 'count' and ri.over == rounds and not ri.early
            if c.need(okr and not v.early, tag + ' samples the first rounds neighbours', v.where(), 'rounds loop is %s' % ri, inst):
                r = ri.var
                c.need(is_adv(fn, pos, Q('edges_begin', v.var), r), tag + ' first rounds link neighbour r of every vertex in round r', v.where(), 'edge linked is %s' % pp(pos), inst)
                for p in v.body:
                    lt = has_more(p, v.var, r); n = [e for e in inner_loops(p) if e.loop is L]
                    c.need(len(n) == (1 if lt else 0) and lt is not None, tag + ' first rounds link neighbour r of every vertex in round r', p, '%d link(s) where r < degree is %s' % (len(n), lt), inst)
                for p in ri.body:
                    one(c, tag + ' samples every vertex in each round', inst, p, [e for e in inner_loops(p) if e.loop is v.L], 'sampling loop')
        # remaining edges
        fin = None
        if need1(rest, 'links all edges after the first rounds neighbours'):
            L, v, tg, pos, inner = rest[0]; fin = v
            E = inner[0]
            start = end = None
            for pid, init, _ in header_phis(fn, E):
                if ('phi', pid) == pos and len(init) == 1: start = init[0]
            bodies = [p for p in lpaths(fn, E) if p.end[0] == 'back']; exits = [p for p in lpaths(fn, E) if p.end[0] not in ('back', 'unreach')]
            ok = start is not None and all(is_add(p.end[2].get(pos[1], ('undef',)), pos) for p in bodies) and all(eq_pol(p, pos, Q('edges_end', v.var)) is True for p in exits) and all(eq_pol(p, pos, Q('edges_end', v.var)) is False for p in bodies)
            c.need(ok, tag + ' links all edges after the first rounds neighbours', v.where(), 'loop over the remaining edges not recognised or incomplete', inst)
            c.need(start is not None and (is_adv(fn, start, Q('edges_begin', v.var), rounds) or neq(start, Q('edges_begin', v.var))), tag + ' links all edges after the first rounds neighbours', v.where(), 'remaining edges start at %s' % (pp(start) if start else '?'), inst)
            for p in bodies: one(c, tag + ' links all edges after the first rounds neighbours', inst, p, [e for e in inner_loops(p) if e.loop is L], 'link')
        if tr and need1(trest, 'links all incoming edges'):
            L2, v2, tg2, pos2, inner2 = trest[0]
            e2 = iterations(fn, inner2[0])
            c.need(e2 and e2.kind == 't_edges' and e2.over == v2.var and not e2.early and e2.var == pos2, tag + ' links all incoming edges', v2.where(), 'loop is %s' % e2, inst)
            if e2:
                for p in e2.body: one(c, tag + ' links all incoming edges', inst, p, [e for e in inner_loops(p) if e.loop is L2], 'link')
            c.need(fin is not None and v2.L is fin.L, tag + ' links all incoming edges', v2.where(), 'incoming edges linked in a separate pass', inst)
        if fin is not None:
            c.need(not fin.early, tag + ' final pass looks at every vertex', fin.where(), 'pass can stop early', inst)
            for p in fin.body:
                c.saw('paths')
                skip = None
                for e in p.items:
                    if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                        for a, b in (e.args[0][2:], e.args[0][2:][::-1]):
                            if neq(a, ('rd', ('cell', comp, fin.var, 0))) and not depends(fn, b, fin): skip = e.pol
                lt = has_more(p, fin.var, rounds)
                ran = {e.loop for e in inner_loops(p)}
                if skip is True: continue
                if lt is not False: c.need(rest[0][4][0] in ran, tag + ' skips only vertices of one fixed component', p, 'remaining edges not linked: [%s]' % path_str(p), inst)
                if tr and trest: c.need(trest[0][4][0] in ran, tag + ' skips only vertices of one fixed component', p, 'incoming edges not linked: [%s]' % path_str(p), inst)
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            lp = [e.loop for e in inner_loops(p)]
            if not lp:
                c.need(eq_pol(p, C(0), Q('num_vertices')) is True, tag + ' runs on every non-empty graph', p, 'returns without linking', inst); continue
            last_link = max([i for i, l in enumerate(lp) if any(l in ancestors(k) for k in links)], default=-1)
            c.need(fin is not None and fin.L in lp, tag + ' final pass looks at every vertex', p, 'no final pass', inst)
            c.need(any(l in comps for l in lp[last_link + 1:]), tag + ' ends with a compression so that every entry is a root', p, 'no compression after the last link', inst)


def depends(fn, e, it):
    """does e change during the iteration `it` (loop phi or read inside)"""
    for x in walk(e):
        if x[0] == 'phi':
            for L in fn.loops:
                if it.L in ancestors(L) and x[1] in [q for q, _, _ in header_phis(fn, L)]: return True
    return False


def has_more(p, u, n):
    """polarity of n < degree(u)"""
    deg = norm(('op', 'sub', Q('edges_end', u), Q('edges_begin', u)))
    for e in p.items:
        if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'lt':
            a, b = e.args[0][2:]
            if eqv(a, n) and norm(b) == deg: return e.pol
            if norm(a) == deg and eqv(b, n): return None if not e.pol else False
    return None


def is_adv(fn, e, base, n):
    """e == base + n, written directly or as the exit value of a counting loop"""
    if norm(e) == norm(('op', 'add', base, n)): return True
    if e[0] != 'phi': return False
    for L in fn.loops:
        ind = inductions(fn, L); me = [i for i in ind if i[0] == e]
        if not me: continue
        _, init, k, st = me[0]
        if not eqv(init, base) or st != 1: return False
        for v, i0, k2, s2 in ind:
            if s2 == -1 and eqv(i0, n) and all(eq_pol(p, C(0), v) is (p.end[0] != 'back') for p in lpaths(fn, L) if p.end[0] != 'unreach'): return True
            if s2 == 1 and i0 == C(0) and v != e and all((eq_pol(p, v, n) is (p.end[0] != 'back')) or lt_pol(p, v, n) is (p.end[0] == 'back') for p in lpaths(fn, L) if p.end[0] != 'unreach'): return True
    return False

"""Rules for dijkstra_shortest_* and bellman_ford_shortest_*, find_negative_cycle."""
from lib import *
from alg_traversal import one, ordered, confined, no_stale_peek, is_sources, seed_elem, path_str, sites

INF = C(2147483647)


def set_inf(name):
    """the infinite distance of the entry's distance type (int, or double for the *_fp entries)"""
    global INF
    INF = C(sys.float_info.max) if name.endswith('_fp') else C(2147483647)


def D(arr, i): return ('rd', ('cell', arr, i, 0))


def relax_forms(du, w, dv):
    """accepted forms of the test 'combine(d[u],w) is better than d[v]' (as keys)"""
    cb = Q('combine', key(du), key(w))
    ad = ('op', 'add') + tuple(sorted([key(du), key(w)], key=repr)); fd = ('op', 'fadd') + ad[2:]
    return {Q('compare', cb, key(dv)): cb, ('cmp', 'lt', ad, key(dv)): ad, ('cmp', 'lt', fd, key(dv)): fd}


def strip(k):
    """key() with ids removed from ret"""
    return k


def relax_pol(p, du, w, dv):
    """(polarity, value) of the relaxation test on the path"""
    F = {repr(k): v for k, v in relax_forms(du, w, dv).items()}
    for e in p.items:
        if e.kind == 'cond':
            k = repr(norm(e.args[0]))
            if k in F: return e.pol, F[k], e
    return None, None, None


def arr_writes(p, arr):
    return [e for e in p.items if e.kind == 'write' and base_of(e.args[0]) == arr]


def relaxation(c, inst, tag, p, dist, pred, u, v, w, strict=True):
    """obligations of one edge step; returns the polarity of the relaxation test (None: not established)"""
    du, dv = D(dist, u), D(dist, v)
    pol, val, cond = relax_pol(p, du, w, dv)
    wd = arr_writes(p, dist)
    n = 1 if pol else 0
    good = [e for e in wd if e.args[0] == ('cell', dist, e.args[0][2], 0) and neq(e.args[0][2], v) and neq(e.args[1], val)] if pol else []
    c.need(len(good) == n and len(wd) == n, tag + ' distance lowered exactly when combine(d[u],w) compares better than d[v]', p,
           'relaxation test %s but %d write(s) to the distances, %d of them d[target] := combine(d[u],w): [%s]' % ({True: 'true', False: 'false', None: 'absent'}[pol], len(wd), len(good), path_str(p)), inst)
    for e in good:
        for y in walk(cond.args[0]):
            if y[0] == 'rd' and y[1][0] == 'cell' and y[1][1] == dist:
                c.need(rd_before(p, y, e), tag + ' relaxation test reads the distances before the update', e, 'distance read after the update', inst)
        c.need(before(p, cond, e), tag + ' relaxation test precedes the update', e, 'distance updated before the test', inst)
    if pred is not None:
        wp = arr_writes(p, pred)
        gp = [e for e in wp if neq(e.args[0], ('cell', pred, v, 0)) and neq(e.args[1], u)]
        c.need(len(gp) == n and len(wp) == n, tag + ' predecessor[v] := u exactly with the distance update', p, '%d predecessor write(s), %d of them predecessor[target] := source of the edge: [%s]' % (len(wp), len(gp), path_str(p)), inst)
    return pol


def seeds(c, inst, tag, fn, dist, multi, mainL, push=None, discover=True, vd=False):
    """every source: in range, distance zero, (queued), discovered.  returns the seeding loop"""
    sd = [(L, iterations(fn, L)) for L in fn.top_loops if L is not mainL]
    sd = [(L, i) for L, i in sd if i and is_sources(fn, i, multi)]
    if sd: L, it = sd[0]; s = seed_elem(it); body = it.body; early = it.early
    elif not multi: L = None; s = A(1); body = [p for p in lpaths(fn) if p.end[0] == 'ret']; early = []
    else:
        c.bad(tag + ' seeds every source', fn, 'no loop over all the sources', inst); return None
    for p in early:
        bad = lt_pol(p, s, Q('num_vertices')) is False or (lt_pol(p, s, C(0)) is True)
        c.need(bad and not arr_writes(p, dist), tag + ' seeding stops only at an out-of-range source', p, 'seeding stops before the last source', inst)
    for p in body:
        c.saw('paths')
        c.need(lt_pol(p, s, Q('num_vertices')) is True, tag + ' source checked against num_vertices before use', p, 'source used without being checked: [%s]' % path_str(p), inst)
        wd = [e for e in arr_writes(p, dist) if neq(e.args[0], ('cell', dist, s, 0)) and e.args[1] == C(0)]
        one(c, tag + ' distances[source] := zero', inst, p, wd, 'distances[source] := 0')
        if L is not None: c.need(len(arr_writes(p, dist)) == 1, tag + ' distances[source] := zero', p, 'another distance written while seeding', inst)
        if push is not None:
            ps = [e for e in p.items if is_push(e, push)]
            one(c, tag + ' queues every source', inst, p, [e for e in ps if neq(e.args[1], s)], 'enqueue of the source')
        if discover:
            one(c, tag + ' on_discover_vertex(source)', inst, p, [e for e in calls(p, 'v_on_discover_vertex') if neq(e.args[0], s)], 'on_discover_vertex(source)')
    return L


def init_vertices(c, inst, tag, fn, before_loops):
    """on_initialize_vertex once per vertex, before the search"""
    ls = []
    for L in fn.top_loops:
        it = iterations(fn, L)
        if it and it.kind == 'vertices' and it.body and any(calls(p, 'v_on_initialize_vertex') for p in it.body):
            ls.append(L)
            c.need(not it.early, tag + ' on_initialize_vertex for every vertex', it.where(), 'loop can stop early', inst)
            for p in it.body:
                one(c, tag + ' on_initialize_vertex for every vertex', inst, p, [e for e in calls(p, 'v_on_initialize_vertex') if e.args[0] == it.var], 'on_initialize_vertex(vertex)')
    c.need(len(ls) == 1, tag + ' on_initialize_vertex for every vertex', fn, 'no loop reporting every vertex', inst)
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        a = [e for e in inner_loops(p) if e.loop in ls]; b = [e for e in inner_loops(p) if e.loop in before_loops]
        c.need(len(a) == 1, tag + ' on_initialize_vertex for every vertex', p, 'initialisation loop not run', inst)
        ordered(c, tag + ' vertices initialised before the search', inst, p, a, b, 'initialisation after the search began')
    return ls


def dijkstra(c, m):
    for name, multi, haspred, vis in (('dij_multi', True, True, True), ('dij_single', False, True, True), ('dij_multi_vd', True, True, True),
                                      ('dij_dist_multi', True, False, True), ('dij_dist_single', False, False, True), ('dij_default', False, True, False),
                                      ('dij_multi_fp', True, True, True), ('dij_dist_single_fp', False, False, True), ('dij_default_fp', False, True, False),
                                      ('dij_multi_none', True, True, False), ('dij_single_none', False, True, False), ('dij_dist_multi_none', True, False, False), ('dij_dist_single_none', False, False, False)):
        fn = m.entry(name); set_inf(name); inst = 'dijkstra_shortest_' + ('paths/' if haspred else 'distances/') + name; c.saw('functions'); tag = 'Dijkstra'
        dist = A(2); pred = A(3) if haspred else None
        ds = find_drains(fn)
        if not c.need(len(ds) == 1, tag + ' queue loop', fn, 'expected one loop that drains the queue, found %d' % len(ds), inst): continue
        d = ds[0]; O = d.obj
        c.need(wl_discipline(fn, O) == 'prio', tag + ' uses a priority queue', d.where(), 'worklist is not a priority queue', inst)
        comparator(c, inst, tag, fn, m, O)
        el = [(L, iterations(fn, L)) for L in d.L.children]
        el = [(L, i) for L, i in el if i and i.kind == 'edges']
        if not c.need(len(el) == 1, tag + ' scans all out-edges of the dequeued vertex', d.where(), 'no loop over the out-edges', inst): continue
        L, it = el[0]; u = it.over; e_ = it.var
        if u[0] == 'rd' and u[1][0] == 'fld':   # the vertex is kept in a view object that also holds a std::function
            so = stored_once(fn); u0, u = u, so.get(u[1], u)
            if u != u0:
                f = lambda x: u if key(x) == key(u0) else x
                it.body = [q for q in (map_path(p, f) for p in it.body) if q]; it.early = [q for q in (map_path(p, f) for p in it.early) if q]
        v = Q('target', e_, u); w = default_weight(c, inst, tag, m, fn, it) if name.endswith('_none') else Q('weight', e_, u)
        c.need(u[0] == 'rd' and u[1][0] == 'peek' and u[1][1] == O, tag + ' scans all out-edges of the dequeued vertex', it.where(), 'edges scanned belong to %s' % pp(u), inst)
        for p in it.early:
            neg = lt_pol(p, w, C(0)); pol, _, _ = relax_pol(p, D(dist, u), w, D(dist, v)); un = eq_pol(p, D(dist, v), INF)
            c.need(neg is True or (pol is False and un is True), tag + ' edge scan stops only by throwing on a negative weight or an unrelaxable undiscovered target', p, 'edge scan can stop early: [%s]' % path_str(p), inst)
            c.need(not arr_writes(p, dist), tag + ' no update by an invalid edge', p, 'distances written before the error is raised', inst)
        for p in it.body:
            c.saw('paths')
            c.need(w == C(1) or lt_pol(p, w, C(0)) is False, tag + ' rejects negative edge weights', p, 'edge accepted without checking its weight: [%s]' % path_str(p), inst)
            pol = relaxation(c, inst, tag, p, dist, pred, u, v, w)
            un = eq_pol(p, D(dist, v), INF)
            ps = [e for e in p.items if is_push(e, O)]
            one(c, tag + ' requeues a vertex exactly when its distance was lowered', inst, p, [e for e in ps if neq(e.args[1], v)], 'enqueue of the target', 1 if pol else 0)
            c.need(len(ps) == (1 if pol else 0), tag + ' requeues a vertex exactly when its distance was lowered', p, 'extra enqueue', inst)
            if vis:
                xe = calls(p, 'v_on_examine_edge'); rl = calls(p, 'v_on_edge_relaxed'); nr = calls(p, 'v_on_edge_not_relaxed'); dv = calls(p, 'v_on_discover_vertex')
                c.need(len(xe) == 1 and xe[0].args == (e_, u), tag + ' on_examine_edge once per edge', p, '%d calls' % len(xe), inst)
                c.need(len(rl) == (1 if pol else 0) and all(e.args == (e_, u) for e in rl), tag + ' on_edge_relaxed exactly on relaxation', p, '%d on_edge_relaxed on a path where the edge was %srelaxed' % (len(rl), '' if pol else 'not '), inst)
                c.need(len(nr) == (0 if pol else 1) and all(e.args == (e_, u) for e in nr), tag + ' on_edge_not_relaxed exactly when not relaxed', p, '%d on_edge_not_relaxed on a path where the edge was %srelaxed' % (len(nr), '' if pol else 'not '), inst)
                nd = 1 if pol and un else 0
                c.need(not pol or un is not None, tag + ' on_discover_vertex exactly at the first relaxation', p, 'discovery does not depend on the previous distance', inst)
                c.need(len(dv) == nd and all(neq(e.args[0], v) for e in dv), tag + ' on_discover_vertex exactly at the first relaxation', p, '%d on_discover_vertex, expected %d' % (len(dv), nd), inst)
            for e in p.items:
                if e.kind == 'cond':
                    for y in walk(e.args[0]):
                        if y[0] == 'rd' and neq(y, D(dist, v)) and e.args[0][0] == 'cmp' and INF in e.args[0]:
                            for q in arr_writes(p, dist): c.need(rd_before(p, y, q), tag + ' discovery judged by the distance before the update', q, 'previous distance read after the update', inst)
        for p in d.early:
            inner = [e for e in inner_loops(p) if e.loop is L]
            c.need(len(inner) == 1 and not natural(it, inner[0]), tag + ' drains the queue', p, 'search can stop with vertices still queued', inst)
        for p in d.body:
            c.saw('paths')
            one(c, tag + ' dequeues one vertex per step', inst, p, [e for e in p.items if is_pop(e, O)], 'dequeue')
            loops = [e for e in inner_loops(p) if e.loop is L]
            one(c, tag + ' scans all out-edges of the dequeued vertex', inst, p, loops, 'edge scan')
            if vis:
                ex = calls(p, 'v_on_examine_vertex'); fi = calls(p, 'v_on_finish_vertex')
                c.need(len(ex) == 1 and neq(ex[0].args[0], u), tag + ' on_examine_vertex once per dequeued vertex', p, '%d calls' % len(ex), inst)
                c.need(len(fi) == 1 and neq(fi[0].args[0], u), tag + ' on_finish_vertex once per dequeued vertex', p, '%d calls' % len(fi), inst)
                ordered(c, tag + ' examine before the edge scan', inst, p, ex, loops, 'examine after the scan')
                ordered(c, tag + ' finish after the edge scan', inst, p, loops, fi, 'finish before the scan ended')
        sl = seeds(c, inst, tag, fn, dist, multi, d.L, push=O, discover=vis)
        il = init_vertices(c, inst, tag, fn, [d.L, sl]) if vis else []
        wpred = (lambda e: e.kind == 'write' and base_of(e.args[0]) in (dist, pred)) if pred else (lambda e: e.kind == 'write' and base_of(e.args[0]) == dist)
        confined(c, tag + ' distances/predecessors written only by seeding and relaxation', inst, fn, lambda e: wpred(e) or is_push(e, O), {L, sl}, 'distance, predecessor or queue update')
        confined(c, tag + ' visitor events', inst, fn, lambda e: e.kind == 'call' and (e.name or '').startswith('v_on_'), {L, sl, d.L} | set(il), 'visitor event')
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            lp = runs_loop(c, tag + ' runs the search', inst, p, d, 'queue loop')
            if sl:
                s_ = [e for e in inner_loops(p) if e.loop is sl]
                one(c, tag + ' seeds every source', inst, p, s_, 'seeding loop'); ordered(c, tag + ' seeds before the search', inst, p, s_, lp, 'search before seeding')
        no_stale_peek(c, inst, fn, [d.L, L])


def default_weight(c, inst, tag, m, fn, it):
    """the weight of an edge when no weight function is given: 1, possibly through a std::function holding the default"""
    from alg_mst import closures, cmp_result
    ws = [e for p in it.body + it.early for e in p.items if e.kind == 'op' and e.name == 'function::operator()']
    if not ws: return C(1)
    erased_weight(c, inst, tag, m, fn)
    return ('ret', ws[0].inst.id, 'function::operator()') + tuple(ws[0].args)


def comparator(c, inst, tag, fn, m, O):
    """the queue hands out the vertex with the smallest tentative distance"""
    from alg_mst import closures, cmp_result
    rule = tag + ' dequeues the smallest tentative distance first'
    ps = [e for b, e in all_events(fn) if is_push(e, O)]
    fs = {f.name: f for e in ps for f in closures(m, e)}
    for f in fs.values():
        r = cmp_result(f)
        ok = False
        if r and r[0] == 'cmp' and r[1] == 'lt' or r and r[0] == 'ret':
            x, y = r[2:4] if r[0] == 'cmp' else r[-2:]
            if x[0] == 'rd' and y[0] == 'rd' and x[1][0] == 'cell' and y[1][0] == 'cell' and neq(x[1][1], y[1][1]):
                i, j = x[1][2], y[1][2]
                ok = (i, j) == (A(2), A(1)) or (key(i), key(j)) == (('rd', A(2)), ('rd', A(1)))
        c.need(ok, rule, f, 'queue comparator computes %s' % (pp(r) if r else 'different results on different paths'), inst)
    c.need(len(fs) == 1, rule, fn, '%d queue comparators' % len(fs), inst)


def erased_weight(c, inst, tag, m, fn):
    """a weight function kept in a std::function is the default one: 1 for every edge"""
    from alg_mst import closures, cmp_result
    for b, e in all_events(fn):
        if e.kind == 'op' and e.name == 'function::function':
            for f in closures(m, e):
                if 'operator()' in f.dem: r = cmp_result(f); c.need(r == C(1), tag + ' every edge has weight 1 by default', f, 'default weight is %s' % (pp(r) if r else 'varying'), inst)


# ------------------------------------------------------------------ Bellman-Ford
def flag_of(fn, L, pathset):
    """loop-carried flag candidates of L: {phi: init}"""
    return {pid: init for pid, init, _ in header_phis(fn, L)}


def edge_value(c, inst, tag, m, fn, els, one=False):
    """an edge list view used in the search values each edge with the given weight function"""
    from alg_mst import closures, cmp_result
    if one: erased_weight(c, inst, tag, m, fn)
    for x in els:
        if x.outer is not None: continue
        for p in x.body:
            for e in p.items:
                if e.kind != 'op' or not e.name.endswith('edgelist_view::iterator::operator*'): continue
                fs = [f for f in closures(m, e) if 'operator()' in f.dem and '_cpo_impls' not in f.dem]
                for f in fs:
                    r = cmp_result(f)
                    if one: ok = r == C(1) or r is not None and r[0] == 'ret' and 'function::operator()' in r and any(y == A(2) for y in walk(r))
                    else: ok = r is not None and r[0] == 'q' and r[1] == 'weight' and len(r) == 4 and all(any(y == A(2) for y in walk(a)) for a in r[2:])
                    c.need(ok, tag + ' every edge has the weight given by the caller', f, 'edges are valued by %s' % (pp(r) if r else 'a function of several results'), inst)


def bellman(c, m):
    for name, multi, haspred in (('bf_multi', True, True), ('bf_single', False, True), ('bf_multi_vd', True, True), ('bf_dist_multi', True, False), ('bf_dist_single', False, False),
                                 ('bf_single_fp', False, True), ('bf_dist_multi_fp', True, False), ('bf_multi_none', True, True), ('bf_single_none', False, True), ('bf_dist_multi_none', True, False), ('bf_dist_single_none', False, False)):
        fn = m.entry(name); set_inf(name); inst = 'bellman_ford_shortest_' + ('paths/' if haspred else 'distances/') + name; c.saw('functions'); tag = 'Bellman-Ford'
        dist = A(2); pred = A(3) if haspred else None; out = A(4 if haspred else 3) if name.endswith('_none') else A(5) if haspred else A(4)
        els = edge_loops(fn)
        vis = not name.endswith('_none'); edge_value(c, inst, tag, m, fn, els, one=not vis)
        rl = [x for x in els if any(arr_writes(p, dist) for p in x.body + x.early)]
        ck = [x for x in els if x not in rl]
        if not c.need(len(rl) == 1, tag + ' relaxes every edge in every pass', fn, 'no loop over all edges that relaxes them (%d found)' % len(rl), inst): continue
        R = rl[0]; KL = R.top.parent
        if not c.need(KL is not None, tag + ' repeats the relaxation passes', R.where(), 'passes are not repeated', inst): continue
        c.need(not R.early, tag + ' relaxes every edge in every pass', R.early[0] if R.early else R.where(), 'a pass can stop before the last edge', inst)
        relaxed = {}
        for p in R.body:
            c.saw('paths')
            inf = eq_pol(p, D(dist, ES), INF)
            pol = relaxation(c, inst, tag, p, dist, pred, ES, ET, EW)
            c.need(inf is not None, tag + ' relaxes only out of reached vertices', p, 'edge relaxed without checking that its source was reached: [%s]' % path_str(p), inst)
            c.need(not (pol and inf), tag + ' relaxes only out of reached vertices', p, 'relaxed although the source is unreached', inst)
            c.need(pol is not None or inf is True, tag + ' every edge out of a reached vertex is tested', p, 'edge of a reached vertex is skipped: [%s]' % path_str(p), inst)
            if vis:
             xe = calls(p, 'v_on_examine_edge'); r1 = calls(p, 'v_on_edge_relaxed'); nr = calls(p, 'v_on_edge_not_relaxed')
             c.need(len(xe) == 1, tag + ' on_examine_edge once per edge and pass', p, '%d calls' % len(xe), inst)
             c.need(len(r1) == (1 if pol else 0), tag + ' on_edge_relaxed exactly on relaxation', p, '%d calls on a path where the edge was %srelaxed' % (len(r1), '' if pol else 'not '), inst)
             c.need(len(nr) == (0 if pol else 1), tag + ' on_edge_not_relaxed exactly when not relaxed', p, '%d calls on a path where the edge was %srelaxed' % (len(nr), '' if pol else 'not '), inst)
            relaxed[id(p.raw)] = bool(pol)
        # the pass loop
        fl = unrelaxed_flags(fn, R, KL, relaxed)
        ctr = [(v, i, n) for v, i, k, n in inductions(fn, KL) if k == 'add' and n in (1, -1)]
        for p in lpaths(fn, KL):
            if p.end[0] in ('unreach', 'throw'): continue
            c.saw('paths')
            np = [e for e in inner_loops(p) if e.loop is R.top]
            if p.end[0] == 'back': one(c, tag + ' relaxes every edge in every pass', inst, p, np, 'relaxation pass'); continue
            c.need(len(np) <= 1, tag + ' relaxes every edge in every pass', p, 'relaxation pass runs %d times' % len(np), inst)
            enough = any(trips(p, v, i, n, len(np), 1) for v, i, n in ctr)
            if enough: c.need(True, tag + ' makes at least num_vertices-1 passes', p, '', inst); continue
            if any(cond_zero(e, x) is z for e in p.items if e.kind == 'cond' for x, z in fl): c.need(True, tag + ' stops repeating only after a pass that relaxed nothing', p, '', inst); continue
            c.need(False, tag + (' makes at least num_vertices-1 passes' if not np else ' stops repeating only after a pass that relaxed nothing'), p, 'passes end before num_vertices-1 of them were made and although the last pass may have relaxed an edge: [%s]' % path_str(p), inst)
        # final check
        if not c.need(len(ck) == 1, tag + ' final check over all edges', fn, 'expected one checking loop over all edges, found %d' % len(ck), inst): continue
        K = ck[0]
        nvis = lambda p, s: calls(p, 'v_on_edge_' + s)
        for p in K.body + K.early:
            c.saw('paths')
            inf = eq_pol(p, D(dist, ES), INF)
            pol, _, _ = relax_pol(p, D(dist, ES), EW, D(dist, ET))
            c.need(inf is True or pol is not None, tag + ' final check tests every edge out of a reached vertex', p, 'edge not tested: [%s]' % path_str(p), inst)
            viol = pol is True and inf is False
            c.need(inf is not None or pol is False, tag + ' final check considers reached sources only', p, 'source not tested: [%s]' % path_str(p), inst)
            c.need((p in K.early) == viol, tag + ' reports a negative cycle exactly when an edge can still be relaxed', p, 'check %s at an edge that %s be relaxed' % ('stops' if p in K.early else 'goes on', 'can' if viol else 'cannot'), inst)
            if vis: c.need(len(nvis(p, 'not_minimized')) == (1 if viol else 0), tag + ' on_edge_not_minimized exactly at a relaxable edge', p, 'wrong event', inst)
            if vis: c.need(len(nvis(p, 'minimized')) == (0 if viol else 1), tag + ' on_edge_minimized at every other checked edge', p, 'wrong event', inst)
            wd = arr_writes(p, dist)
            c.need(not wd, tag + ' final check does not change distances', p, 'distance written', inst)
            if pred is not None:
                wp = arr_writes(p, pred)
                c.need(all(viol and neq(e.args[0], ('cell', pred, ET, 0)) and neq(e.args[1], ES) for e in wp), tag + ' final check writes only predecessor[target] := source of the relaxable edge', p, 'other predecessor write: [%s]' % path_str(p), inst)
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            c.saw('paths')
            kl = [e for e in inner_loops(p) if e.loop is KL]
            one(c, tag + ' runs the passes', inst, p, kl, 'pass loop')
            chk = [e for e in inner_loops(p) if e.loop is K.top]
            rv = [e for e in p.items if e.kind == 'ret'][0].args[0]
            ordered(c, tag + ' final check after the passes', inst, p, kl, chk, 'check before the passes')
            found = bool(chk) and not all(id(getattr(q, 'raw', q)) in {id(x.raw) for x in K.done} | {id(getattr(x.raw, 'raw', x.raw)) for x in K.done} or id(q) in {id(x.raw) for x in K.done} for q in chk[0].val) if K.outer is None else bool(chk) and not natural(K.outer, chk[0])
            if not chk:
                c.need(any(cond_zero(e, x) is z for e in p.items if e.kind == 'cond' for x, z in fl) or trips(p, None, None, 0, 0, 0), tag + ' final check skipped only when the last pass relaxed nothing', p, 'final check can be skipped although the last pass relaxed an edge', inst)
            c.need(rv[0] == 'c' and bool(rv[1]) == found, tag + ' result engaged exactly when a negative cycle was found', p, 'returns %s although the check %s' % ('a vertex' if rv != C(0) else 'nothing', 'found a relaxable edge' if found else 'found none'), inst)
            if found:
                wr = [e for e in p.items if e.kind == 'write' and e.args[0] == out]
                if c.need(len(wr) == 1, tag + ' returns a vertex', p, 'no vertex returned', inst) and pred is not None:
                    on_cycle(c, inst, tag, fn, p, wr[0], K, pred)
        sl = seeds(c, inst, tag, fn, dist, multi, KL, discover=vis)
        tops = {sl, R.L, K.L}
        confined(c, tag + ' distances written only by seeding and relaxation', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == dist, {sl, R.L}, 'distance write')
        if pred is not None: confined(c, tag + ' predecessors written only by relaxation', inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) == pred, {R.L, K.L}, 'predecessor write')
        confined(c, tag + ' visitor events', inst, fn, lambda e: e.kind == 'call' and (e.name or '').startswith('v_on_'), tops, 'visitor event')


NV = Q('num_vertices')


def linear(e, sym):
    """e as a linear form {symbol: coefficient, 1: constant} over the given symbols; None if it is not one"""
    if e in sym or key(e) in sym: return {key(e): 1}
    if e[0] == 'c': return {1: e[1]}
    if e[0] == 'op' and e[1] in ('add', 'sub') and len(e) == 4:
        a, b = linear(e[2], sym), linear(e[3], sym)
        if a is None or b is None: return None
        return lin(a, b, 1 if e[1] == 'add' else -1)
    return None


def lin(a, b, k):
    r = dict(a)
    for x, v in b.items(): r[x] = r.get(x, 0) + k * v
    return {x: v for x, v in r.items() if v}


def known_nonneg(p, sym):
    """linear forms that are >= 0 by the branch conditions of the path"""
    r = []
    for e in p.items:
        if e.kind != 'cond': continue
        x = e.args[0]
        if x[0] == 'phi' and x in sym: x = ('cmp', 'eq', x, C(0)); pol = not e.pol
        else: pol = e.pol
        if x[0] != 'cmp' or x[1] not in ('eq', 'lt'): continue
        a, b = linear(x[2], sym), linear(x[3], sym)
        if a is None or b is None: continue
        if x[1] == 'eq':
            if pol: r += [lin(a, b, -1), lin(b, a, -1)]
        elif pol: r.append(lin(lin(b, a, -1), {1: 1}, -1))
        else: r.append(lin(a, b, -1))
    return r


def trips(p, var, init, step, extra, slack):
    """on this path step*(var - init) + extra >= num_vertices - slack; var None: num_vertices <= slack"""
    sym = {key(NV)} | ({key(var)} if var else set())
    want = {1: extra + slack, key(NV): -1}
    if var:
        i0 = linear(init, sym)
        if i0 is None: return False
        want = lin(want, lin({key(var): 1}, i0, -1), step)
    want = {k: v for k, v in want.items() if v}
    if all(k == 1 for k in want): return want.get(1, 0) >= 0
    for f in known_nonneg(p, sym):
        d = lin(want, f, -1)
        if all(k == 1 for k in d) and d.get(1, 0) >= 0: return True
    return False


def cond_zero(e, x):
    """the condition says whether x is zero: True / False / None (says nothing)"""
    a = e.args[0]
    if a == x: return not e.pol
    if a[0] == 'cmp' and a[1] == 'eq' and {key(a[2]), key(a[3])} == {key(x), C(0)}: return e.pol
    if a[0] == 'cmp' and a[1] == 'lt' and key(a[2]) == C(0) and key(a[3]) == key(x): return not e.pol
    if a[0] == 'cmp' and a[1] == 'eq' and {key(a[2]), key(a[3])} == {key(x), C(1)} and e.pol: return False
    return None


def is_zero(v, p=None):
    """v is known to be zero (True) or non-zero (False), from itself or the conditions of the path"""
    if v[0] == 'c': return v[1] == 0
    if v[0] == 'not':
        z = is_zero(v[1], p)
        if z is not None: return not z
    if v[0] == 'cmp' and v[1] == 'eq' and C(0) in v[2:]:
        z = is_zero(v[3] if v[2] == C(0) else v[2], p)
        if z is not None: return not z
    if v[0] == 'op' and v[1] == 'add' and any(x[0] == 'c' and x[1] > 0 for x in v[2:]): return False
    if v[0] == 'op' and v[1] == 'or':
        z = [is_zero(x, p) for x in v[2:]]
        if False in z: return False
        if all(x is True for x in z): return True
    for e in p.items if p else []:
        if e.kind == 'cond':
            z = cond_zero(e, v)
            if z is not None: return z
    return None


def unrelaxed_flags(fn, R, KL, relaxed):
    """(phi, z): whenever phi is zero (z) / non-zero (not z), nothing was relaxed so far in the pass (edge and vertex loop headers)
    or in the last pass (pass loop header).  Greatest set of header phis closed under the paths of the three loops."""
    ls = [R.L] + ([R.top] if R.outer is not None else [])
    hd = {L: header_phis(fn, L) for L in ls + [KL]}
    S = {(('phi', q), z) for L in ls + [KL] for q, i, b in hd[L] for z in (True, False)}

    # values on entry to the pass loop; if the loop ends before its first pass only in a graph without vertices they do not matter
    ctr = [(v, i, n) for v, i, k, n in inductions(fn, KL) if k == 'add' and n in (1, -1)]
    out = [p for p in lpaths(fn, KL) if p.end[0] not in ('back', 'unreach', 'throw')]
    allv = all(any(e.loop is R.top for e in inner_loops(p)) or any(trips(p, v, i, n, 0, 0) or any(e.kind == 'cond' and not e.pol and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq' and {key(e.args[0][2]), key(e.args[0][3])} == {key(v), key(i)} for e in p.items) for v, i, n in ctr) for p in out)
    entry = {q: [] for q, i, b in hd[KL]}
    for p in lpaths(fn, KL.parent):
        b = p.blocks
        if KL.header not in b: continue
        prev = b[b.index(KL.header) - 1] if b.index(KL.header) else None; ev = Eval(fn, p.env)
        for x in fn.blocks[KL.header]:
            if x.op != 'phi': break
            for y, o in x.ops:
                if y == prev: entry[x.id].append((p, ev.v(o)))

    def keeps(v, z, p):
        """v being zero (z) implies that nothing was relaxed, given the members of S"""
        k = is_zero(v, p)
        if k is (not z): return True
        if (v, z) in S: return True
        if v[0] == 'not': return keeps(v[1], not z, p)
        if v[0] == 'cmp' and v[1] == 'eq' and C(0) in v[2:]: return keeps(v[3] if v[2] == C(0) else v[2], not z, p)
        if z and v[0] == 'op' and v[1] == 'or' and any((x, z) in S for x in v[2:]): return True
        if z and v[0] == 'sel' and is_zero(v[2]) is False and (v[3], z) in S: return True
        for e in p.items if p else []:
            if e.kind == 'cond' and any(cond_zero(e, x) is y for x, y in S): return True
        return False
    while True:
        bad = set()
        for L in ls + [KL]:
            for q, init, back in hd[L]:
                for z in (True, False):
                    if (('phi', q), z) not in S: continue
                    ok = True
                    if L is R.L and R.outer is not None: ok = all(keeps(v, z, None) for v in init)
                    if L is KL: ok = allv or all(is_zero(v, p) is (not z) or (z and none_iff_empty(v)) or trips(p, None, None, 0, 0, 0) for p, v in entry[q])
                    for p in lpaths(fn, L):
                        if p.end[0] != 'back' or not ok: continue
                        v = p.end[2].get(q, ('undef',))
                        rx = L is R.L and relaxed.get(id(p))
                        if rx: ok = is_zero(v, p) is (not z)
                        else: ok = keeps(v, z, p)
                    if not ok: bad.add((('phi', q), z))
        if not bad: return S
        S -= bad


def none_iff_empty(v):
    """v is zero only if the graph has no vertex"""
    return v[0] == 'cmp' and (v[1] == 'ne' and {key(v[2]), key(v[3])} == {NV, C(0)} or v[1] == 'lt' and v[2] == C(0) and key(v[3]) == NV) or key(v) == NV or \
        v[0] == 'not' and v[1][0] == 'cmp' and v[1][1] == 'eq' and {key(v[1][2]), key(v[1][3])} == {NV, C(0)}


def on_cycle(c, inst, tag, fn, p, wr, K, pred):
    """the vertex returned is reached from the relaxable edge's endpoint by num_vertices predecessor steps"""
    rule = tag + ' returned vertex lies on the cycle (num_vertices predecessor steps back from the relaxable edge)'
    v = wr.args[1]
    ok = False
    for L in fn.loops:
        for pid, init, _ in header_phis(fn, L):
            w = ('phi', pid); nx = ('rd', ('cell', pred, w, 0))
            if not (v == w or neq(v, nx)): continue
            P = [q for q in lpaths(fn, L) if q.end[0] not in ('unreach', 'throw')]
            ctr = [(x, i, n) for x, i, k, n in inductions(fn, L) if k == 'add' and n in (1, -1)]
            good = P and any(q.end[0] == 'back' for q in P)
            for q in P:
                if q.end[0] == 'back': good = good and neq(q.end[2].get(pid, ('undef',)), nx)
                else: good = good and any(trips(q, x, i, n, 0 if v == w else 1, 0) for x, i, n in ctr)
            ok = ok or good
    c.need(ok, rule, wr, 'vertex returned is %s' % pp(v), inst)


def neg_cycle(c, m):
    """find_negative_cycle: emits v0, pred[v0], ... until the first vertex comes round again"""
    fn = m.entry('bf_cycle'); inst = 'find_negative_cycle'; tag = 'find_negative_cycle'; c.saw('functions')
    pred = A(1); start = A(3)
    ls = [L for L in fn.loops]
    outs = sites(fn, lambda e: e.kind == 'call' and e.name == 'v_out')
    if not c.need(len(ls) == 1 and outs, tag + ' walks the predecessors', fn, 'no walk', inst): return
    L = ls[0]
    cur = [pid for pid, init, _ in header_phis(fn, L) if init == [start]]
    if not c.need(len(cur) == 1, tag + ' starts at the given vertex', fn, 'walk does not start at the cycle vertex', inst): return
    cv = ('phi', cur[0]); nx = ('rd', ('cell', pred, cv, 0))
    for p in lpaths(fn, L):
        c.saw('paths')
        vs = calls(p, 'v_out')
        one(c, tag + ' emits each vertex of the walk once', inst, p, [e for e in vs if neq(e.args[0], cv)], 'output of the current vertex'); c.need(len(vs) == 1, tag + ' emits each vertex of the walk once', p, 'extra output', inst)
        st = cond_pol(p, lambda x: x[0] == 'cmp' and x[1] == 'eq' and norm(start) in (norm(x[2]), norm(x[3])) and norm(nx) in (norm(x[2]), norm(x[3])))
        c.need(st is not None and st == (p.end[0] == 'exit'), tag + ' stops exactly when the start comes round again', p, 'walk %s' % ('stops' if p.end[0] == 'exit' else 'goes on'), inst)
        if p.end[0] == 'back': c.need(neq(p.end[2].get(cur[0], ('undef',)), nx), tag + ' steps to the predecessor', p, 'next vertex is %s' % pp(p.end[2].get(cur[0], ('undef',))), inst)
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        has = cond_pol(p, lambda x: x == A(2))
        lp = inner_loops(p)
        c.need(has is not None and len(lp) == (1 if has else 0), tag + ' emits exactly when a cycle vertex is given', p, 'walk run although no cycle vertex, or not run', inst)


def init_paths(c, m):
    set_inf('')
    for n, np in (('init1', False), ('init2', True)):
        fn = m.entry(n); inst = 'init_shortest_paths/' + n; c.saw('functions')
        P = [p for p in lpaths(fn) if p.end[0] == 'ret']
        for p in P:
            f = [e for e in p.items if e.kind == 'op' and 'fill' in e.name]
            ok = any(A(0) in e.args and INF in e.args or (('begin', A(0)) in e.args and ('end', A(0)) in e.args and INF in e.args) for e in f) or array_fill(fn, A(0), lambda it, v: v == INF)
            c.need(ok, 'init_shortest_paths sets every distance to infinity', p, 'distances not filled with the infinite distance', inst)
            if np:
                f = [e for e in p.items if e.kind == 'op' and 'iota' in e.name and e.args[-1] == C(0)]
                ok = any(contains(e.args[0], ('begin', A(1))) and contains(e.args[1], ('end', A(1))) or e.args[0] == A(1) or A(1) in e.args for e in f) or array_fill(fn, A(1), lambda it, v: v == it)
                c.need(ok, 'init_shortest_paths sets predecessor[v] := v', p, 'predecessors not initialised to themselves', inst)


def array_fill(fn, arr, val):
    """loop form: for each element of arr, arr[i] := val"""
    for L in fn.loops:
        it = iterations(fn, L)
        if not it or it.early or it.kind not in ('range', 'index') or it.over != arr: continue
        ok = True
        ind = [v for v, i, k, n in inductions(fn, L) if k == 'add' and n == 1 and i == C(0)]
        for p in it.body:
            if p.end[0] != 'back' and it.at == 'top': continue
            cell = it.var if it.kind == 'range' else ('cell', arr, it.var, 0)
            w = [e for e in p.items if e.kind == 'write' and e.args[0] == cell]
            if len(w) != 1 or not any(val(i, w[0].args[1]) for i in (ind or [it.var])): ok = False
        if ok: return L
    return False

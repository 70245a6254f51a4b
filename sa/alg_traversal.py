"""Rules for breadth_first_search / depth_first_search / topological_sort (algorithms)."""
from lib import *

T = lambda e, u, p='': Q(p + 'target', e, u)


def one(c, rule, inst, p, evs_, what, n=1):
    w = evs_[0] if evs_ else p
    return c.need(len(evs_) == n, rule, w, '%s: expected %d, found %d on path [%s]' % (what, n, len(evs_), path_str(p)), inst)


def path_str(p):
    return '; '.join(str(e) for e in p.items if e.kind in ('cond', 'call', 'op', 'write', 'throw', 'loop') and not is_pure_op(e))[:400]


def ordered(c, rule, inst, p, a, b, what):
    for x in a:
        for y in b:
            if not before(p, x, y):
                c.bad(rule, x, '%s on path [%s]' % (what, path_str(p)), inst); return
    c.need(True, rule, a[0] if a else p, '', inst)


def sites(fn, pred):
    return [(b, e) for b, e in all_events(fn) if pred(e)]


def confined(c, rule, inst, fn, pred, allowed, what):
    """every site satisfying pred lies in one of the allowed loops (None = function level)"""
    for b, e in sites(fn, pred):
        L = fn.loop_of.get(b)
        c.need(L in allowed, rule, e, '%s outside the recognised place' % what, inst)


def addr_parts(e):
    """sub-expressions an address is computed from, not looking inside values loaded earlier"""
    if isinstance(e, tuple):
        yield e
        if e and e[0] == 'rd': return
        for x in e:
            if isinstance(x, tuple): yield from addr_parts(x)


def no_stale_peek(c, inst, fn, loops):
    """no path reads through a reference to a worklist element after that element was popped"""
    d_ = next((d for d in find_drains(fn) if d.index), None)
    for L in loops:
        for p in lpaths(fn, L):
            popped = {}; fresh = set()
            for i, e in enumerate(p.items):
                if is_pop(e): popped[e.args[0]] = e
                elif d_ is not None and e.kind == 'op' and e.args and e.args[0] == d_.obj and last(e.name) in ('operator[]', 'at'): fresh.add(key(e.args[1]))
                elif d_ is not None and (is_push(e, d_.obj) or e.kind == 'loop'): fresh = set()
                elif d_ is not None and e.kind == 'read' and e.args[0][0] == 'cell' and e.args[0][1] == d_.obj and key(e.args[0][2]) not in fresh:
                    c.bad('no read of a popped worklist element', e, 'worklist element read through a reference taken before the worklist grew', inst)
                elif e.kind == 'read':
                    for x in addr_parts(e.args[0]):
                        if x[0] == 'peek' and x[1] in popped:
                            # a peek taken after the pop refers to the next element
                            src = fn.inst.get(x[3])
                            if src is not None and any(q.inst is src for q in p.items[p.items.index(popped[x[1]]):]): continue
                            c.bad('no read of a popped worklist element', e, 'element obtained by %s is read after the pop at %s' % (x[2], popped[x[1]].where()), inst)
            c.obl.append(('no read of a popped worklist element', inst, '', True))


def mark_initial(c, rule, inst, fn, obj, val, nv='num_vertices'):
    ok = None
    for b, e in ctor_of(fn, obj):
        m = opm(e)
        if m == 'vector' and len(e.args) >= 2:
            a = e.args[1:]
            ok = a[0] == Q(nv) and ((a[1] if len(a) > 1 and a[1][0] != 'obj' else C(0)) == C(val)) and fn.loop_of.get(b) is None
            return c.need(ok, rule, e, 'marks must start as %d for all num_vertices(g) vertices; found %s' % (val, e), inst)
        if m in ('assign', 'resize') and len(e.args) >= 2:
            a = e.args[1:]
            ok = a[0] == Q(nv) and (a[1] if len(a) > 1 else C(0)) == C(val) and fn.loop_of.get(b) is None
            return c.need(ok, rule, e, 'marks must start as %d for all num_vertices(g) vertices; found %s' % (val, e), inst)
    return c.bad(rule, fn, 'no initialisation of the marks found', inst)


def seed_elem(it):
    return ('rd', it.var) if it.kind in ('range', 'fixed') else ('rd', ('cell', it.over, it.var, 0)) if it.kind == 'index' else None


def is_sources(fn, it, multi):
    """does the iteration run over exactly the source argument(s)"""
    if multi: return it.kind in ('range', 'index') and it.over == A(1)
    if it.kind == 'fixed' and it.count == 1:
        # the array holds the single source
        for b, e in all_events(fn):
            if e.kind == 'write' and e.args[0] == it.over: return e.args[1] == A(1)
        return it.over == A(1)
    if it.kind in ('range', 'index'):
        ct = [e for b, e in ctor_of(fn, it.over) if fn.loop_of.get(b) is None]
        ps = [e for b, e in all_events(fn) if is_push(e, it.over)]
        if len(ct) == 1 and not ps: return len(ct[0].args) >= 3 and ct[0].args[1:3] == (C(1), A(1))
    return False


def bfs(c, m):
    for name, multi in (('bfs_multi', True), ('bfs_single', False), ('bfs_multi_vd', True)):
        fn = m.entry(name); inst = 'breadth_first_search/' + name; c.saw('functions')
        ds = find_drains(fn)
        if not c.need(len(ds) == 1, 'BFS worklist loop', fn, 'expected one loop that drains the worklist until empty, found %d' % len(ds), inst): continue
        d = ds[0]; Qo = d.obj
        c.need(wl_discipline(fn, Qo) == 'fifo', 'BFS queue discipline', d.where(), 'worklist is not first-in first-out', inst)
        c.need(not d.early, 'BFS drains the queue', d.early[0] if d.early else d.where(), 'traversal can stop with vertices still queued', inst)
        kids = [L for L in d.L.children]
        eit = [(L, iterations(fn, L)) for L in kids]
        el = [(L, i) for L, i in eit if i and i.kind == 'edges']
        if not c.need(len(el) == 1, 'BFS scans all out-edges', d.where(), 'no loop over all out-edges of the dequeued vertex', inst): continue
        L, it = el[0]; u = it.over; e_ = it.var; t = T(e_, u)
        c.need(not it.early, 'BFS scans all out-edges', it.early[0] if it.early else it.where(), 'edge scan can stop before the last out-edge', inst)
        # marks object: the one tested under target
        marks = None
        for p in it.body:
            for x in p.conds():
                for y in walk(x.args[0]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and eqv(y[1][2], t): marks = y[1][1]
        if not c.need(marks is not None, 'BFS tests the mark of the target', it.where(), 'discovery does not depend on whether the target was already discovered', inst): continue
        mark_initial(c, 'BFS marks start clear', inst, fn, marks, 0)
        cell = ('cell', marks, t, 0)
        for p in it.body:
            c.saw('paths')
            tr = truth(p, cell)
            mk = [e for e in p.items if cell_write(e, marks)]
            ps = [e for e in p.items if is_push(e, Qo)]
            dv = calls(p, 'v_on_discover_vertex')
            xe = calls(p, 'v_on_examine_edge')
            one(c, 'BFS on_examine_edge once per scanned edge', inst, p, [e for e in xe if e.args == (e_, u)], 'on_examine_edge(edge)')
            c.need(len(xe) == 1, 'BFS on_examine_edge once per scanned edge', p, 'extra on_examine_edge', inst)
            ordered(c, 'BFS on_examine_edge precedes discovery', inst, p, xe, dv + ps, 'discovery reported before its edge was examined')
            if not c.need(tr is not None, 'BFS tests the mark of the target', p, 'path discovers/skips a target without testing its mark: [%s]' % path_str(p), inst): continue
            n = 0 if tr else 1
            one(c, 'BFS marks a vertex when it is discovered', inst, p, [e for e in mk if eqv(cell_write(e)[1], t) and cell_write(e)[2] in (C(1), C(-1))], 'mark of the target', n)
            one(c, 'BFS enqueues a vertex exactly when discovered', inst, p, [e for e in ps if eqv(e.args[1], t)], 'enqueue of the target', n)
            one(c, 'BFS on_discover_vertex exactly once', inst, p, [e for e in dv if eqv(e.args[0], t)], 'on_discover_vertex(target)', n)
            c.need(len(mk) == n and len(ps) == n and len(dv) == n, 'BFS no other marks/enqueues/discoveries', p, 'extra mark, enqueue or discovery: [%s]' % path_str(p), inst)
        # drain iteration
        for p in d.body:
            c.saw('paths')
            pk = {y for e in p.items for a in e.args for y in walk(a) if y[0] == 'peek' and y[1] == Qo}
            pops = [e for e in p.items if is_pop(e, Qo)]
            if not d.index: one(c, 'BFS dequeues one vertex per step', inst, p, pops, 'dequeue')
            loops = [e for e in inner_loops(p) if e.loop is L]
            one(c, 'BFS scans all out-edges', inst, p, loops, 'scan of the out-edges of the dequeued vertex')
            ex = calls(p, 'v_on_examine_vertex'); fi = calls(p, 'v_on_finish_vertex')
            one(c, 'BFS on_examine_vertex once per dequeued vertex', inst, p, [e for e in ex if eqv(e.args[0], u)], 'on_examine_vertex(u)')
            one(c, 'BFS on_finish_vertex once per dequeued vertex', inst, p, [e for e in fi if eqv(e.args[0], u)], 'on_finish_vertex(u)')
            c.need(len(ex) == 1 and len(fi) == 1, 'BFS vertex events', p, 'extra vertex event', inst)
            ordered(c, 'BFS on_examine_vertex precedes the edge scan', inst, p, ex, loops, 'examine after the scan')
            ordered(c, 'BFS on_finish_vertex follows the edge scan', inst, p, loops, fi, 'finish before the scan is complete')
        c.need(u[0] == 'rd' and (u[1][0] == 'peek' and u[1][1] == Qo or d.index and neq(u, ('rd', ('cell', Qo, d.index, 0)))), 'BFS scans the dequeued vertex', it.where(), 'edges scanned belong to %s, not to the dequeued vertex' % pp(u), inst)
        # seeds
        seeds = [(L2, iterations(fn, L2)) for L2 in fn.top_loops if L2 is not d.L]
        sd = [(L2, i) for L2, i in seeds if i and is_sources(fn, i, multi)]
        srcs = []
        if sd:
            L2, i2 = sd[0]; s = seed_elem(i2); bodies = i2.body
            c.need(not i2.early, 'BFS seeds every source', i2.where(), 'seeding can stop before the last source', inst); sl = L2
        elif not multi:
            s = A(1); bodies = [p for p in lpaths(fn) if p.end[0] == 'ret']; sl = None
        else:
            c.bad('BFS seeds every source', fn, 'no loop over all the sources', inst); continue
        for p in bodies:
            c.saw('paths')
            scell = ('cell', marks, s, 0)
            dup = truth(p, scell)
            if dup is True: continue
            mk = [e for e in p.items if cell_write(e, marks)]
            ps = [e for e in p.items if is_push(e, Qo)]
            i_ = calls(p, 'v_on_initialize_vertex'); dv = calls(p, 'v_on_discover_vertex')
            one(c, 'BFS marks each source', inst, p, [e for e in mk if eqv(cell_write(e)[1], s) and cell_write(e)[2] in (C(1), C(-1))], 'mark of the source')
            one(c, 'BFS enqueues each source', inst, p, [e for e in ps if eqv(e.args[1], s)], 'enqueue of the source')
            one(c, 'BFS on_initialize_vertex for each source', inst, p, [e for e in i_ if eqv(e.args[0], s)], 'on_initialize_vertex(source)')
            one(c, 'BFS on_discover_vertex for each source', inst, p, [e for e in dv if eqv(e.args[0], s)], 'on_discover_vertex(source)')
            ordered(c, 'BFS initialises before discovering', inst, p, i_, dv, 'discover before initialize')
        # nothing else touches marks, queue or events
        confined(c, 'BFS marks/queue changed only by seeding and scanning', inst, fn, lambda e: bool(cell_write(e, marks)) or is_push(e, Qo), {L, sl}, 'mark or enqueue')
        confined(c, 'BFS events', inst, fn, lambda e: e.kind == 'call' and (e.name or '').startswith('v_on_'), {L, sl, d.L}, 'visitor event')
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            loops = runs_loop(c, 'BFS runs the worklist loop', inst, p, d, 'worklist loop')
            if sl: ordered(c, 'BFS seeds before draining', inst, p, [e for e in inner_loops(p) if e.loop is sl], loops, 'drain before seeding')
            if sl: one(c, 'BFS seeds every source', inst, p, [e for e in inner_loops(p) if e.loop is sl], 'seeding loop')
        no_stale_peek(c, inst, fn, [d.L, L])


# ------------------------------------------------------------------ DFS
def find_color(c, paths, t):
    for p in paths:
        for x in p.conds():
            for y in walk(x.args[0]):
                if y[0] == 'rd' and y[1][0] == 'cell' and eqv(y[1][2], t): return y[1][1]
    return None


def col_of(p, cell, consts):
    """set of colours the cell may have on the path according to its conditions"""
    k = key(cell); s = set(consts)
    for e in p.items:
        if e.kind == 'write' and base_of(e.args[0]) == base_of(cell[1]): break      # later reads may see the new colour
        if e.kind != 'cond': continue
        x = e.args[0]
        if x[0] == 'cmp' and x[1] == 'eq':
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if a[0] == 'c' and b[0] == 'rd' and key(b[1]) == k:
                    s = {v for v in s if (v == a[1]) == e.pol}
        elif x[0] == 'cmp' and x[1] == 'lt':
            if x[2][0] == 'c' and x[3][0] == 'rd' and key(x[3][1]) == k: s = {v for v in s if (x[2][1] < v) == e.pol}
            if x[3][0] == 'c' and x[2][0] == 'rd' and key(x[2][1]) == k: s = {v for v in s if (v < x[3][1]) == e.pol}
        elif x[0] == 'rd' and key(x[1]) == k:
            s = {v for v in s if bool(v) == e.pol}
    return s


FU = ('frame', 'u'); FI = ('frame', 'it'); FE = ('frame', 'end')


def flatten(fn, d):
    """a step that walks over several edges of the same frame in an inner loop is the same number of steps: every turn
    of the inner loop is a step of its own, the last one goes on after the loop"""
    seen = set()

    def pure(e): return e.kind in ('cond', 'read') or e.kind == 'op' and is_pure_op(e)

    def ex(p):
        i = next((i for i, e in enumerate(p.items) if e.kind == 'loop'), None)
        if i is None or p.items[i].loop.parent is not d.L or not all(pure(e) for e in p.items[:i]): return [p]
        L2 = p.items[i].loop; r = []; pre = p.items[:i]; const = {}
        for ph, init, _ in header_phis(fn, L2):             # only flags that keep one value while the loop runs
            v = {key(b.end[2].get(ph, ('phi', ph))) for b in lpaths(fn, L2) if b.end[0] == 'back'} - {('phi', ph)}
            if len(init) != 1 or init[0][0] != 'c' or not v <= {init[0]}: return [p]
            const[ph] = init[0]
        for q in p.items[i].val or []:
            g = q.end[2] if len(q.end) > 2 and isinstance(q.end[2], dict) else {}
            x = map_path(Path(pre + q.items + p.items[i + 1:], p.end, list(p.blocks) + list(q.blocks), p.env), lambda y: const.get(y[1], g.get(y[1], y)) if y[0] == 'phi' else y)
            if x is not None: x.raw = getattr(p, 'raw', p); r += ex(x)
        for b in lpaths(fn, L2):
            k = (L2.header, id(b), tuple((key(e.args[0]), e.pol) for e in pre if e.kind == 'cond'))
            if b.end[0] != 'back' or k in seen: continue
            seen.add(k)
            x = map_path(Path(pre + b.items, ('back', d.L, {}), b.blocks, b.env), lambda y: const.get(y[1], y) if y[0] == 'phi' else y)
            if x is not None: r.append(x)
        return r
    P = [q for p in d.body + d.early for q in ex(p)]
    n = Drain(fn, d.L, d.obj, [p for p in P if p.end[0] == 'back'], [p for p in P if p.end[0] != 'back'], d.done, d.index)
    return n


class DfsModel:
    """depth-first search with an explicit stack of (vertex, next edge, end) frames"""

    def __init__(s, c, fn, inst, L, tag):
        s.ok = False; s.c = c; s.fn = fn; s.inst = inst
        s.d = d = flatten(fn, drains(fn, L))
        s.F = F = Frames(fn, d.obj)
        roles = set(F.role.values())
        if not c.need(F.ok and {'u', 'it'} <= roles, tag + ' stack frames', d.where(), 'stack frames do not hold (vertex, first unexplored edge, end of its edges) at every push', inst): return
        s.body = F.view(d.body); s.early = F.view(d.early)
        s.ok = True

    def split(s):
        """(exhausted paths, edge paths)"""
        ex, ed, un = [], [], []
        for p in s.body:
            r = eq_pol(p, FI, FE) if 'end' in s.F.role.values() else eq_pol(p, FI, Q(EDGE_Q[s.F.ek][1], FU))
            (ex if r is True else ed if r is False else un).append(p)
        return ex, ed, un

    def advance(s, p):
        """writes to the frame's next-edge field"""
        r = []
        for e in p.items:
            if e.kind == 'write':
                a = e.args[0]
                o = 0 if a[0] == 'peek' and a[1] == s.d.obj else a[2] if a[0] == 'fld' and a[1][0] == 'peek' and a[1][1] == s.d.obj else None
                if o is not None and s.F.role.get(o) == 'it': r.append(e)
        return r


def dfs(c, m):
    for name in ('dfs', 'dfs_vd'):
        fn = m.entry(name); inst = 'depth_first_search/' + name; c.saw('functions')
        ds = find_drains(fn)
        if not c.need(len(ds) == 1, 'DFS stack loop', fn, 'expected one loop that runs until the stack is empty, found %d' % len(ds), inst): continue
        M = DfsModel(c, fn, inst, ds[0].L, 'DFS')
        if not M.ok: continue
        d = M.d; S = d.obj; src = A(1)
        c.need(wl_discipline(fn, S) == 'lifo', 'DFS stack discipline', d.where(), 'worklist is not last-in first-out', inst)
        c.need(not M.early, 'DFS runs until the stack is empty', M.early[0] if M.early else d.where(), 'traversal can stop with open vertices', inst)
        ex, ed, un = M.split()
        c.need(ex and ed and not un, 'DFS tests for exhausted edges', (un or [d.where()])[0], 'a step does not distinguish exhausted vertices from vertices with edges left', inst)
        t = T(FI, FU)
        col = find_color(c, ed, t)
        if not c.need(col is not None, 'DFS tests the colour of the target', d.where(), 'edge classification does not depend on the colour of the target', inst): continue
        # colours
        WHITE = None
        for b, e in ctor_of(fn, col):
            a = e.args[1:]
            if a and a[0] == Q('num_vertices'): WHITE = a[1][1] if len(a) > 1 and a[1][0] == 'c' else 0
        if not c.need(WHITE is not None, 'DFS colours start white for all vertices', fn, 'colour array is not created with num_vertices(g) equal entries', inst): continue
        black = set(); gray = set()
        for p in ex:
            for e in p.items:
                w = cell_write(e, col)
                if w and w[2][0] == 'c': black.add(w[2][1])
        fp = [p for p in lpaths(fn) if p.end[0] == 'ret']
        for p in fp:
            for e in p.items:
                w = cell_write(e, col)
                if w and w[2][0] == 'c' and w[1] == src: gray.add(w[2][1])
        if not c.need(len(black) == 1 and len(gray) == 1 and len(black | gray | {WHITE}) == 3, 'DFS three distinct colours', fn, 'undiscovered/open/finished colours are %s/%s/%s' % (WHITE, sorted(gray), sorted(black)), inst): continue
        B = black.pop(); Gy = gray.pop(); cols = (WHITE, Gy, B)
        # exhausted frame
        for p in ex:
            c.saw('paths')
            one(c, 'DFS colours a vertex finished when exhausted', inst, p, [e for e in p.items if cell_write(e, col) and cell_write(e)[1] == FU and cell_write(e)[2] == C(B)], 'finish colour of the frame vertex')
            c.need(len([e for e in p.items if cell_write(e, col)]) == 1, 'DFS colours', p, 'extra colour change', inst)
            one(c, 'DFS on_finish_vertex exactly once, when exhausted', inst, p, [e for e in calls(p, 'v_on_finish_vertex') if e.args[0] == FU], 'on_finish_vertex(u)')
            one(c, 'DFS pops the exhausted frame', inst, p, [e for e in p.items if is_pop(e, S)], 'pop')
            c.need(not [e for e in p.items if is_push(e, S)] and len([e for e in p.items if e.kind == 'call' and e.name.startswith('v_on_')]) == 1, 'DFS exhausted step', p, 'unexpected event when a vertex is exhausted: [%s]' % path_str(p), inst)
        EV = {'tree': 'v_on_tree_edge', 'back': 'v_on_back_edge', 'fc': 'v_on_forward_or_cross_edge'}
        seen = set()
        for p in ed:
            c.saw('paths')
            cs = col_of(p, ('cell', col, t, 0), cols)
            if not cs: continue
            adv = M.advance(p)
            one(c, 'DFS advances to the next edge exactly once', inst, p, [e for e in adv if is_add(e.args[1], FI)], 'advance of the frame by one edge')
            c.need(len(adv) == 1, 'DFS advances to the next edge exactly once', p, 'frame edge position written %d times' % len(adv), inst)
            psh = [e for e in p.items if is_push(e, S)]
            for a in adv:
                for b in psh: c.need(before(p, a, b), 'DFS advances before descending', b, 'the parent frame is advanced through a reference taken before the push', inst)
            if not c.need(len(cs) == 1, 'DFS classifies by the colour of the target', p, 'path does not determine the colour of the target (%s possible): [%s]' % (sorted(cs), path_str(p)), inst): continue
            cl = {WHITE: 'tree', Gy: 'back', B: 'fc'}[cs.pop()]; seen.add(cl)
            xe = calls(p, 'v_on_examine_edge')
            one(c, 'DFS on_examine_edge exactly once', inst, p, [e for e in xe if e.args == (FI, FU)], 'on_examine_edge(edge)')
            for k, nme in EV.items():
                es = calls(p, nme)
                one(c, 'DFS edge classification %s' % k, inst, p, [e for e in es if e.args == (FI, FU)], '%s for a %s target' % (nme[2:], {'tree': 'undiscovered', 'back': 'open', 'fc': 'finished'}[cl]), 1 if k == cl else 0)
                c.need(len(es) == (1 if k == cl else 0), 'DFS edge classification %s' % k, p, 'extra %s' % nme[2:], inst)
                ordered(c, 'DFS examine precedes classification', inst, p, xe, es, 'classification before on_examine_edge')
                ordered(c, 'DFS on_finish_edge follows classification', inst, p, es, calls(p, 'v_on_finish_edge'), 'on_finish_edge before classification')
            fe = calls(p, 'v_on_finish_edge')
            one(c, 'DFS on_finish_edge exactly once', inst, p, [e for e in fe if e.args == (FI, FU)], 'on_finish_edge(edge)')
            n = 1 if cl == 'tree' else 0
            dv = calls(p, 'v_on_discover_vertex')
            wr = once([e for e in p.items if cell_write(e, col)])
            one(c, 'DFS on_discover_vertex exactly for undiscovered targets', inst, p, [e for e in dv if eqv(e.args[0], t)], 'on_discover_vertex(target)', n)
            one(c, 'DFS opens exactly undiscovered targets', inst, p, [e for e in wr if eqv(cell_write(e)[1], t) and cell_write(e)[2] == C(Gy)], 'open colour of the target', n)
            one(c, 'DFS descends exactly into undiscovered targets', inst, p, psh, 'push of the target frame', n)
            c.need(len(dv) == n and len(wr) == n and not [e for e in p.items if is_pop(e, S)] and not calls(p, 'v_on_finish_vertex') and not calls(p, 'v_on_start_vertex') and not calls(p, 'v_on_initialize_vertex'), 'DFS no other effect of an edge', p, 'unexpected effect: [%s]' % path_str(p), inst)
            ordered(c, 'DFS tree edge before discovery', inst, p, calls(p, 'v_on_tree_edge'), dv, 'target discovered before its tree edge')
            for e in psh:
                offs = dict(zip([l[1] for l in e.inst.leaf][1:], e.args[1:]))
                vo = [o for o, r in M.F.role.items() if r == 'u']
                c.need(all(eqv(offs.get(o, ('undef',)), t) for o in vo), 'DFS pushes the frame of the target', e, 'frame pushed is not the target\'s', inst)
        c.need(seen == {'tree', 'back', 'fc'}, 'DFS distinguishes the three classes', fn, 'classes reported: %s' % sorted(seen), inst)
        for p in fp:
            c.saw('paths')
            runs_loop(c, 'DFS runs the stack loop', inst, p, d, 'stack loop')
            for nme in ('v_on_initialize_vertex', 'v_on_start_vertex', 'v_on_discover_vertex'):
                one(c, 'DFS source events', inst, p, [e for e in calls(p, nme) if e.args[0] == src], nme[2:] + '(source)')
            ordered(c, 'DFS source events in order', inst, p, calls(p, 'v_on_initialize_vertex'), calls(p, 'v_on_start_vertex'), 'start before initialize')
            ordered(c, 'DFS source events in order', inst, p, calls(p, 'v_on_start_vertex'), calls(p, 'v_on_discover_vertex'), 'discover before start')
            ps = [e for e in p.items if is_push(e, S)]
            one(c, 'DFS pushes the source frame', inst, p, ps, 'push of the source frame')
            for e in ps:
                offs = dict(zip([l[1] for l in e.inst.leaf][1:], e.args[1:]))
                c.need(all(offs.get(o) == src for o, r in M.F.role.items() if r == 'u'), 'DFS pushes the source frame', e, 'first frame is not the source\'s', inst)
            one(c, 'DFS opens the source', inst, p, [e for e in p.items if cell_write(e, col) and cell_write(e)[1] == src and cell_write(e)[2] == C(Gy)], 'open colour of the source')
            ordered(c, 'DFS source set up before the loop', inst, p, ps + [e for e in p.items if cell_write(e, col)], [e for e in inner_loops(p) if e.loop is d.L], 'source set up after the loop')
        confined(c, 'DFS events', inst, fn, lambda e: (e.kind == 'call' and (e.name or '').startswith('v_on_')) or bool(cell_write(e, col)) or is_push(e, S), {None, d.L}, 'event')
        no_stale_peek(c, inst, fn, [d.L])


def once(es):
    """repeating the same write changes nothing"""
    r = {}
    for e in es: r.setdefault(repr(norm(e.args)), e)
    return list(r.values())


def is_reversal(e, O):
    """the standard algorithm reversing the whole sequence"""
    n = e.name.split('::')
    if 'reverse' not in ''.join(n[-2:]).replace('reserve', '') or 'reverse_copy' in e.name: return False
    a = [x for x in e.args if x[0] != 'g']
    return a[:1] == [O] and len([x for x in a if x[0] != 'c']) == 1 or a[:2] == [('begin', O), ('end', O)]


def is_copy(e, O, m):
    """the standard algorithm writing the whole sequence to the user's output: 1 front to back, -1 back to front"""
    n = ''.join(e.name.split('::')[-2:])
    if n not in ('stdcopy', 'copy', '__copy_fnoperator()', 'reverse_copy', 'stdreverse_copy', '__reverse_copy_fnoperator()'): return None
    if 'OutIt' not in (getattr(e.inst, 'callee', '') or ''): return None
    a = [x for x in e.args if x[0] != 'g']
    r = -1 if 'reverse_copy' in n else 1
    if a[:1] == [O] or a[:2] == [('begin', O), ('end', O)]: return r
    if a[:2] == [('end', O), ('begin', O)] and 'reverse_iterator' in e.inst.callee: return -r
    return None


# ------------------------------------------------------------------ topological sort
def topo(c, m):
    for name, kind in (('topo_all', 'all'), ('topo_multi', 'multi'), ('topo_single', 'single')):
        fn = m.entry(name); inst = 'topological_sort/' + name; c.saw('functions')
        ds = find_drains(fn)
        if not c.need(len(ds) == 1, 'topological_sort stack loop', fn, 'expected one loop that runs until the stack is empty, found %d' % len(ds), inst): continue
        M = DfsModel(c, fn, inst, ds[0].L, 'topological_sort')
        if not M.ok: continue
        d = M.d; S = d.obj
        c.need(wl_discipline(fn, S) == 'lifo', 'topological_sort stack discipline', d.where(), 'worklist is not last-in first-out', inst)
        ex, ed, un = M.split()
        eds = [p for p in M.early if eq_pol(p, FI, FE) is False or 'end' not in M.F.role.values()]
        c.need(ex and ed and not un, 'topological_sort tests for exhausted edges', (un or [d.where()])[0], 'a step does not distinguish exhausted vertices from vertices with edges left', inst)
        t = T(FI, FU); col = find_color(c, ed + M.early, t)
        if not c.need(col is not None, 'topological_sort tests the colour of the target', d.where(), 'no colour test of the edge target', inst): continue
        WHITE = None
        for b, e in ctor_of(fn, col):
            a = e.args[1:]
            if a and a[0] == Q('num_vertices'): WHITE = a[1][1] if len(a) > 1 and a[1][0] == 'c' else 0
        if not c.need(WHITE is not None, 'topological_sort colours start white for all vertices', fn, 'colour array is not created with num_vertices(g) equal entries', inst): continue
        black = {cell_write(e)[2][1] for p in ex for e in p.items if cell_write(e, col) and cell_write(e)[2][0] == 'c'}
        gray = {cell_write(e)[2][1] for p in ed for e in p.items if cell_write(e, col) and cell_write(e)[2][0] == 'c'}
        if not c.need(len(black) == 1 and len(gray) == 1 and len(black | gray | {WHITE}) == 3, 'topological_sort three distinct colours', fn, 'undiscovered/open/finished colours are %s/%s/%s' % (WHITE, sorted(gray), sorted(black)), inst): continue
        B = black.pop(); Gy = gray.pop(); cols = (WHITE, Gy, B)
        # the finish order: container appended to when a vertex is exhausted
        orders = {e.args[0] for p in ex for e in p.items if is_push(e) and e.args[0] != S}
        if not c.need(len(orders) == 1, 'topological_sort records finished vertices', d.where(), 'exhausted vertices are not recorded in one sequence', inst): continue
        O = orders.pop(); om = {opm(e) for p in ex for e in p.items if is_push(e, O)}
        for p in ex:
            c.saw('paths')
            one(c, 'topological_sort records a vertex once, when exhausted', inst, p, [e for e in p.items if is_push(e, O) and eqv(e.args[-1], FU)], 'record of the exhausted vertex')
            one(c, 'topological_sort colours a vertex finished when exhausted', inst, p, [e for e in p.items if cell_write(e, col) and cell_write(e)[1] == FU and cell_write(e)[2] == C(B)], 'finish colour')
            one(c, 'topological_sort pops the exhausted frame', inst, p, [e for e in p.items if is_pop(e, S)], 'pop')
            c.need(not [e for e in p.items if is_push(e, S)] and len([e for e in p.items if cell_write(e, col)]) == 1 and len([e for e in p.items if is_push(e, O)]) == 1, 'topological_sort exhausted step', p, 'unexpected effect', inst)
        cyc = 0
        for p in ed + eds:
            c.saw('paths')
            cs = col_of(p, ('cell', col, t, 0), cols)
            if not cs: continue
            if not c.need(len(cs) == 1, 'topological_sort classifies by the colour of the target', p, 'path does not determine the colour of the target (%s possible): [%s]' % (sorted(cs), path_str(p)), inst): continue
            k = cs.pop()
            psh = [e for e in p.items if is_push(e, S)]; wr = once([e for e in p.items if cell_write(e, col)])
            n = 1 if k == WHITE else 0
            if p.end[0] == 'back':
                adv = M.advance(p)
                c.need(len(adv) == 1 and is_add(adv[0].args[1], FI), 'topological_sort advances to the next edge exactly once', p, 'frame edge position is not advanced by exactly one', inst)
                for a in adv:
                    for b in psh: c.need(before(p, a, b), 'topological_sort advances before descending', b, 'parent frame advanced through a reference taken before the push', inst)
            one(c, 'topological_sort descends exactly into undiscovered targets', inst, p, psh, 'push of the target frame', n)
            one(c, 'topological_sort opens exactly undiscovered targets', inst, p, [e for e in wr if eqv(cell_write(e)[1], t) and cell_write(e)[2] == C(Gy)], 'open colour', n)
            c.need(len(wr) == n and not [e for e in p.items if is_pop(e, S) or is_push(e, O)], 'topological_sort no other effect of an edge', p, 'unexpected effect: [%s]' % path_str(p), inst)
            for e in psh:
                offs = dict(zip([l[1] for l in e.inst.leaf][1:], e.args[1:]))
                c.need(all(eqv(offs.get(o, ('undef',)), t) for o, r in M.F.role.items() if r == 'u'), 'topological_sort pushes the frame of the target', e, "frame pushed is not the target's", inst)
            cyc += k == Gy
            c.need((p.end[0] == 'exit') == (k == Gy), 'topological_sort stops exactly on an edge to an open vertex', p, 'search %s on an edge to %s vertex' % (('stops', 'an undiscovered' if k == WHITE else 'a finished') if p.end[0] == 'exit' else ('goes on', 'an open')), inst)
        c.need(cyc > 0, 'topological_sort detects cycles', d.where(), 'no step recognises an edge to an open vertex', inst)
        for p in M.early:
            c.need(p in eds or eq_pol(p, FI, FE) is not True, 'topological_sort stops only on a cycle', p, 'search stops when a vertex is exhausted', inst)
        # roots
        Lo = d.L.parent
        if not c.need(Lo is not None, 'topological_sort tries every root', fn, 'no loop over the roots', inst): continue
        ito = iterations(fn, Lo)
        okroots = ito and (ito.kind == 'vertices' if kind == 'all' else is_sources(fn, ito, kind == 'multi'))
        if not c.need(okroots, 'topological_sort tries every root', d.where(), 'roots are not all the vertices / sources (%s)' % ito, inst): continue
        s = ito.var if kind == 'all' else seed_elem(ito)
        cell = ('cell', col, s, 0)
        nat = set()
        for p in ito.body + ito.early:
            c.saw('paths')
            cs = col_of(p, cell, cols)
            lp_ = [e for e in inner_loops(p) if e.loop is d.L]
            psh = [e for e in p.items if is_push(e, S)]; wr = once([e for e in p.items if cell_write(e, col)])
            n = 1 if cs == {WHITE} else 0
            c.need(cs == {WHITE} or WHITE not in cs, 'topological_sort searches from undiscovered roots', p, 'root colour is not tested: [%s]' % path_str(p), inst)
            one(c, 'topological_sort searches from undiscovered roots', inst, p, lp_, 'search from the root', n)
            c.need(len(wr) == n, 'topological_sort changes no other colour', p, 'extra colour change: [%s]' % path_str(p), inst)
            one(c, 'topological_sort opens the root', inst, p, [e for e in wr if eqv(cell_write(e)[1], s) and cell_write(e)[2] == C(Gy)], 'open colour of the root', n)
            one(c, 'topological_sort pushes the root', inst, p, psh, 'push of the root frame', n)
            for e in psh:
                offs = dict(zip([l[1] for l in e.inst.leaf][1:], e.args[1:]))
                c.need(all(eqv(offs.get(o, ('undef',)), s) for o, r in M.F.role.items() if r == 'u'), 'topological_sort pushes the root', e, 'first frame is not the root\'s', inst)
            early = p.end[0] != 'back' and p not in ito.done
            cycle = bool(lp_) and not all(q in d.done or q.raw in [getattr(z, 'raw', None) for z in d.done] for q in lp_[0].val)
            c.need(early == cycle or ito.at == 'bottom', 'topological_sort gives up exactly when a cycle was found', p, 'root loop %s although the search %s' % ('stops' if early else 'goes on', 'found a cycle' if cycle else 'found no cycle'), inst)
        # result
        rets = [p for p in lpaths(fn) if p.end[0] == 'ret']
        for p in rets:
            c.saw('paths')
            rv = [e for e in p.items if e.kind == 'ret']
            lo = [e for e in inner_loops(p) if e.loop is Lo]
            if not c.need(len(lo) == 1 and rv and rv[0].args[0][0] == 'c', 'topological_sort result', p, 'return value does not follow from the search', inst): continue
            cyc = not natural(ito, lo[0])
            c.need(bool(rv[0].args[0][1]) == (not cyc), 'topological_sort returns false exactly when a cycle was found', rv[0], 'returns %d although the search %s' % (rv[0].args[0][1], 'found a cycle' if cyc else 'completed'), inst)
            outs = []; flips = 0
            for e in p.items:
                io = iterations(fn, e.loop) if e.kind == 'loop' else None
                if e.kind == 'loop' and any(calls(q, 'v_out') for q in lpaths(fn, e.loop)):
                    d_ = {'range': 1, 'index': 1, 'rrange': -1}.get(io.kind) if io and io.over == O and not io.early else None
                    outs.append((e, io, d_))
                    for q in io.body if io else []:
                        vs = calls(q, 'v_out')
                        x = ('cell', O, io.var, 0) if io.kind == 'index' else io.elem if io.kind == 'rrange' else io.var
                        c.need(len(vs) == 1 and io.kind in ('range', 'index', 'rrange') and eqv(vs[0].args[0], ('rd', x)), 'topological_sort outputs each recorded vertex once', q, 'output is not the recorded vertex', inst)
                elif e.kind == 'op' and is_copy(e, O, m): outs.append((e, None, is_copy(e, O, m)))
                elif e.kind == 'op' and is_reversal(e, O) and not outs: flips += 1
                elif e.kind == 'op' and e.args and any(contains(a, O) for a in e.args) and last(e.name) not in ('vector', 'reserve', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'size', 'empty', 'data', 'operator[]', 'at', 'shrink_to_fit'):
                    c.need(outs and cyc is False or cyc, 'topological_sort output', e, 'the recorded vertices are changed before they are output', inst)
            c.need(len(outs) == (0 if cyc else 1), 'topological_sort output written exactly on success', p, '%d output loops on a %s path' % (len(outs), 'cycle' if cyc else 'success'), inst)
            c.need(not calls(p, 'v_out'), 'topological_sort output', p, 'stray output', inst)
            for e, io, d_ in outs:
                want = -1 if om <= {'push_back', 'emplace_back'} else 1
                c.need(d_ is not None and d_ * (-1 if flips % 2 else 1) == want, 'topological_sort outputs the reverse of the finish order', e, 'output loop is %s, expected every recorded vertex in reverse finish order' % (io or 'of another order'), inst)
                ordered(c, 'topological_sort outputs after the search', inst, p, lo, [e], 'output before the search')
        outl = {L for L in fn.top_loops if any(calls(q, 'v_out') for q in lpaths(fn, L))}
        confined(c, 'topological_sort output', inst, fn, lambda e: e.kind == 'call' and e.name == 'v_out', outl, 'output')
        confined(c, 'topological_sort colours/stack', inst, fn, lambda e: bool(cell_write(e, col)) or is_push(e, S), {Lo, d.L}, 'colour or push')
        confined(c, 'topological_sort order', inst, fn, lambda e: is_push(e, O), {d.L}, 'record')
        no_stale_peek(c, inst, fn, [d.L])

"""Rules for undirected_adjacency_list: the doubly linked edge lists of both ends of an edge.

Every path of an operation is replayed on a symbolic heap: loads yield the value stored earlier on the path, or the
initial contents of the canonical address; stores define new contents.  The final heap is compared with the list
operation's definition.  Assumed about the initial heap (the invariant every operation has to keep): a vertex's list is
a finite doubly linked chain in which the link of edge y for vertex x is y's first link if its first id is x and its
second link otherwise, head/tail/size agree with it, and distinct edges are distinct objects."""
from lib import *
from ir import mk_gep, Path
from order import Facts
from cont_csr import layout, size_of
from cont_dyn import cell_of

Z = C(0)


class Lay:
    def __init__(s, m, n):
        s.n = n
        s.id = {k: layout(m, 'l%si_%s' % (k, n)) for k in 'io'}
        s.next = {k: layout(m, 'l%sn_%s' % (k, n)) for k in 'io'}
        s.prev = {k: layout(m, 'l%sp_%s' % (k, n)) for k in 'io'}
        s.size, s.tail, s.head = (layout(m, 'lv%s_%s' % (k, n)) for k in 'nth')
        s.g = layout(m, 'lg_' + n); s.count = layout(m, 'lm_' + n)
        s.val = layout(m, 'lev_' + n) if n != 'v' else None
        s.stride = next((e.args[0][1] for p in lpaths(m.entry('lsz_' + n)) for e in p.items if e.kind == 'ret'), None)
        s.vval = layout(m, 'lvv_' + n) if n != 'v' else None

    def known(s):
        return all(x is not None for d in (s.id, s.next, s.prev) for x in d.values()) and None not in (s.size, s.tail, s.head, s.g, s.count)


def sub_(e, m):
    """replace subexpressions"""
    if not m or not isinstance(e, tuple) or len(e) < 2: return e
    if e in m: return m[e]
    r = tuple([sub_(x, m) if isinstance(x, tuple) else x for x in e])
    return m.get(r, r)


def simp(e):
    """index arithmetic on a vector: (g[i] - begin(g)) / k = i ; begin(g) + i = g[i] ; (hi part | x) = x"""
    if not isinstance(e, tuple) or not e: return e
    if e[0] == 'op' and e[1] == 'sdiv' and len(e) == 4 and isinstance(e[2], tuple) and e[2][:2] == ('op', 'sub'):
        a, b = e[2][2], e[2][3]
        if a[0] == 'cell' and a[3] == 0 and b == ('begin', a[1]): return a[2]
    if e[0] == 'cell' and e[3] == 0 and isinstance(e[2], tuple) and e[2][:2] == ('op', 'sdiv') and e[2][2][:2] == ('op', 'sub') and e[2][2][3] == ('begin', e[1]): return e[2][2][2]
    if e[0] == 'op' and e[1] == 'or' and len(e) == 4:
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x[:2] == ('op', 'shl') and isinstance(x[2], tuple) and x[2][:2] == ('op', 'lshr') and x[2][2] == y and x[2][3] == x[3]: return y
    return e


def unsigned_zero(k, pol):
    """0 < x is x != 0, x < 1 is x == 0"""
    if k[:2] == ('cmp', 'lt') and len(k) == 4:
        if k[2] == Z: return ('cmp', 'eq') + tuple(sorted((Z, k[3]), key=repr)), not pol
        if k[3] == C(1): return ('cmp', 'eq') + tuple(sorted((Z, k[2]), key=repr)), pol
    return k, pol


class Heap:
    """symbolic replay of one path.  ids: leaf expressions known to name the vertex whose list is meant (uid)"""

    def __init__(s, lay, p, X=None, uid=None, alias=None, init=None, subst=None, assume=()):
        s.assume = list(assume); s.lay = lay; s.p = p; s.X = X; s.uid = uid; s.alias = alias or {}; s.init = init or {}; s.map = dict(subst or {})
        s.run()
        for _ in range(3):
            new = s.learn()
            if new == s.map: break
            s.map = new; s.run()

    # ---- replay
    def run(s):
        s.env = {}; s.H = dict(s.init); s.lit = list(s.assume); s.freed = []; s.news = []; s.order = []; s.ret = None; s.out = []
        for e in s.p.items:
            if e.kind == 'read':
                v = e.val
                a = s.cn(v[1]) if isinstance(v, tuple) and v[0] == 'rd' else None
                if a is not None: s.env[v[2:]] = s.H.get(a, ('rd', a))
            elif e.kind == 'write':
                a = s.cn(e.args[0]); s.H[a] = s.cn(e.args[1]); s.order.append((a, s.H[a], e))
            elif e.kind == 'cond': s.lit.append(unsigned_zero(s.cn(e.args[0]), e.pol))
            elif e.kind == 'call' and e.name.startswith('llvm.memset') and e.args[1] == Z:
                a = s.cn(e.args[0]); s.H[a] = Z; s.order.append((a, Z, e))
            elif e.kind == 'call' and e.name == '_ZdlPv': s.freed.append((s.cn(e.args[0]), e))
            elif e.kind == 'call' and e.name == '_Znwm': s.news.append(e)
            elif e.kind == 'ret' and e.args: s.ret = s.cn(e.args[0])
            elif e.kind in ('op', 'call', 'throw', 'loop') and not (e.kind == 'op' and is_pure_op(e)): s.out.append(e)

    def cn(s, e):
        if not isinstance(e, tuple) or not e: return e
        if e in s.alias: return s.cn(s.alias[e])
        if e[0] == 'rd':
            if e[2:] in s.env: return sub_(s.env[e[2:]], s.map)
            r = ('rd', s.cn(e[1]))
        elif e[0] == 'fld':
            b = s.cn(e[1])
            r = mk_gep(b, e[2], []) if isinstance(e[2], int) else ('fld', b) + e[2:]
        else:
            r = tuple(s.cn(x) if isinstance(x, tuple) else x for x in e)
            r = simp(r)
            if r[0] == 'cmp' and r[1] == 'eq':
                if r[2][0] == r[3][0] == 'cell' and r[2][1] == r[3][1] and r[2][3] == r[3][3]: r = ('cmp', 'eq', r[2][2], r[3][2])     # same vertex
                r = ('cmp', 'eq') + tuple(sorted(r[2:], key=repr))
        return s.map.get(r, r)

    def n(s, e): return sub_(e, s.map)

    # ---- facts
    def eq(s, a, b):
        a, b = s.n(a), s.n(b)
        if a[0] == b[0] == 'cell' and a[1] == b[1] and a[3] == b[3]: a, b = a[2], b[2]
        if a == b: return True
        k = ('cmp', 'eq') + tuple(sorted((a, b), key=repr))
        for l, pol in s.lit:
            if s.n(l) == k: return pol
        for x, y in ((a, b), (b, a)):
            if x == Z and y[0] == 'new': return False
        return None

    def rd(s, base, o): return s.n(('rd', mk_gep(base, o, [])))

    def side(s, y, x):
        """which link of edge y belongs to the list of vertex x: 'i', 'o' or None"""
        L = s.lay
        r = s.eq(s.H.get(mk_gep(y, L.id['i'], []), s.rd(y, L.id['i'])), x)
        if r is True: return 'i'
        if r is False: return 'o'
        if s.eq(s.H.get(mk_gep(y, L.id['o'], []), s.rd(y, L.id['o'])), x) is False: return 'i'
        return None

    root = A(0)         # the graph whose lists these are

    def vcell(s, x): return ('cell', mk_gep(s.root, s.lay.g, []), s.n(x), 0)

    def loop_(s):
        """is X a self-loop on this path"""
        i, o = s.rd(s.X, s.lay.id['i']), s.rd(s.X, s.lay.id['o'])
        if i == o: return True
        r = s.eq(i, o)
        return s.eq(s.vcell(i), s.vcell(o)) if r is None else r

    def learn(s):
        m = dict(s.map); L = s.lay
        for l, pol in s.lit:
            if pol and l[:2] == ('cmp', 'eq') and Z in l[2:]:
                o = l[3] if l[2] == Z else l[2]
                if o[0] == 'rd' or o[0] in ('a', 'phi'): m[o] = Z
        if s.X is not None and s.X[0] != 'new':
            if s.loop_():
                i, o = s.rd(s.X, L.id['i']), s.rd(s.X, L.id['o'])
                if i != o: m[o] = i
            if s.uid is not None and s.n(s.uid) == s.uid:
                k = s.side(s.X, s.uid)
                if k is None and s.loop_() is False and s.eq(s.rd(s.X, L.id['o']), s.uid): k = 'o'
                if k: m[s.uid] = s.rd(s.X, L.id[k])
        return m

    def null(s, x): return s.eq(Z, x)

    def absurd(s):
        seen = {}
        for l, pol in s.lit:
            l = s.n(l)
            if l[:2] == ('cmp', 'eq') and l[2] == l[3] and not pol: return True
            if l[:2] == ('cmp', 'eq') and pol and {l[2][0], l[3][0]} == {'c'} and l[2] != l[3]: return True
            if seen.setdefault(l, pol) != pol: return True
        return False


def edge_absurd(h):
    """the path contradicts the list invariant around X"""
    L = h.lay; X = h.X
    if h.absurd(): return True
    for k in 'io':
        for f in (L.next[k], L.prev[k]):
            if h.eq(X, h.rd(X, f)): return True
        c = h.vcell(h.rd(X, L.id[k]))
        if k == 'o' and h.loop_(): continue
        for f, a in ((L.next[k], L.tail), (L.prev[k], L.head)):
            z, at = h.null(h.rd(X, f)), h.eq(h.rd(c, a), X)
            if z is not None and at is not None and z != at: return True
            if at is False and z is None: pass
    if h.uid is not None:
        if h.eq(h.rd(X, L.id['i']), h.uid) is False and h.eq(h.rd(X, L.id['o']), h.uid) is False: return True
        if h.loop_() and h.eq(h.rd(X, L.id['i']), h.uid) is False: return True
    return False


def unlinked(c, h, p, inst, counts=True):
    """the final heap of the path is the initial one without edge X"""
    L = h.lay; X = h.X; want = {}; own = {mk_gep(X, k, []) for d in (L.next, L.prev, L.id) for k in d.values()}
    lp = h.loop_()
    if not c.need(lp is not None, 'a self-loop is in its vertex\'s list once', p, 'both ends are unlinked without checking whether they are the same vertex', inst): return
    if L.val is not None: own.add(mk_gep(X, L.val, []))
    for k in ('i',) if lp else ('i', 'o'):
        x = h.rd(X, L.id[k]); cell = h.vcell(x); q, n = h.rd(X, L.prev[k]), h.rd(X, L.next[k]); end = 'first' if k == 'i' else 'second'
        for y, f, other, o, what in ((q, L.next, n, L.head, 'predecessor'), (n, L.prev, q, L.tail, 'successor')):
            z = h.null(y)
            if z is None:
                at = h.eq(h.rd(cell, o), X)
                if at is not None: z = at
            if not c.need(z is not None, 'an erased edge is unlinked from both ends', p, 'the list of its %s vertex is changed without checking for a %s' % (end, what), inst): return
            if z: want[mk_gep(cell, o, [])] = other
            else:
                s = h.side(y, x)
                if not c.need(s is not None, 'an erased edge is unlinked from both ends', p, 'the link of the %s is chosen without checking which end of it the vertex is' % what, inst): return
                want[mk_gep(y, f[s], [])] = other
        want[mk_gep(cell, L.size, [])] = ('op', 'add', C(-1), h.rd(cell, L.size))
    if counts: want[mk_gep(h.root, L.count, [])] = ('op', 'add', C(-1), h.rd(h.root, L.count))
    got = {h.n(a): h.n(v) for a, v in h.H.items()}
    for a, v in want.items():
        a = h.n(a); v = h.n(v); g = got.pop(a, ('rd', a))
        if g == v: c.need(True, 'an erased edge is unlinked from both ends', p, '', inst); continue
        what = 'edge count' if a == mk_gep(h.root, L.count, []) else 'size of a vertex\'s list' if v[0] == 'op' else 'link'
        w = next((e for b, _, e in h.order if h.n(b) == a), p)
        c.need(False, 'an erased edge is unlinked from both ends', w, 'a %s is left as %s instead of %s' % (what, pp(g)[:60], pp(v)[:60]), inst)
    for a, v in got.items():
        r = base_of(a)
        if a in own or r[0] == 'obj' or v == ('rd', a): continue
        w = next((e for b, _, e in h.order if h.n(b) == a), p)
        c.need(False, 'an erased edge is unlinked from both ends', w, 'writes %s := %s, which is not a neighbour of the erased edge' % (pp(a)[:60], pp(v)[:60]), inst)
    c.need([x for x, _ in h.freed] == [X], 'an erased edge is destroyed once', h.freed[0][1] if h.freed else p, 'the erased edge is not deallocated exactly once', inst)
    return want


def paths(fn, L=None): return [p for p in lpaths(fn, L) if p.end[0] not in ('unreach', 'unwind', 'resume')]


def other_effects(h): return [e for e in h.out if e.kind != 'loop']


def erase_one(c, m, lay):
    n = lay.n; fn = m.entry('er_' + n); inst = 'vertex erase_edge'; X = A(3)
    k = 0
    for p in paths(fn):
        h = Heap(lay, p, X, A(2), {A(1): ('cell', A(0), A(2), 0)})
        if edge_absurd(h): continue
        k += 1
        unlinked(c, h, p, inst)
        s = h.side(X, h.n(h.uid))
        c.need(not other_effects(h), 'an erased edge is unlinked from both ends', other_effects(h)[0] if other_effects(h) else p, 'unexpected effect', inst)
        c.need(s is not None and h.ret is not None and h.n(h.ret) == h.rd(X, lay.next[s]), 'erasing an edge returns the next one', p, 'does not return the edge that followed in the vertex\'s list', inst)
    c.saw('paths', k); c.saw('functions')
    c.need(k >= 8, 'an erased edge is unlinked from both ends', fn, 'erasing does not distinguish the positions in the lists', inst)


def ends_empty(h, V):
    """is the list of V empty in the final state of the path"""
    for o in (h.lay.size, h.lay.head, h.lay.tail):
        a = mk_gep(V, o, []); x = h.H.get(h.n(a)); x = h.rd(V, o) if x is None else h.n(x)
        r = h.eq(Z, x)
        if r is not None: return r
    return None


def is_erase_loop(c, fn, L, inst, lay, vertex):
    """the loop erases the front or back edge of the list of `vertex` until it is empty; does it do so before testing for emptiness?"""
    k = 0; rot = False
    for p in paths(fn, L):
        h0 = Heap(lay, p)
        if h0.absurd(): continue
        cut = next((i for i, x in enumerate(p.items) if x.kind == 'write'), len(p.items))
        hb = Heap(lay, Path(p.items[:cut], p.end, p.blocks, p.env))          # what is known before the first change
        V = hb.cn(vertex); sz = hb.rd(V, lay.size); hd = hb.rd(V, lay.head); tl = hb.rd(V, lay.tail)
        e = next((hb.eq(Z, x) for x in (sz, hd, tl) if hb.eq(Z, x) is not None), None)
        X = h0.freed[0][0] if h0.freed else None
        if p.end[0] in ('exit', 'ret') and X is None:
            c.need(e is True and not h0.H, 'clearing erases every edge', p, 'stops before the list is empty', inst); continue
        if not c.need(X is not None and X in (hd, tl), 'clearing erases every edge', p, 'an iteration does not erase an edge of the list', inst): continue
        # X is the first (last) edge of the list of V, so V is one of its two vertices
        last_ = p.end[0] in ('exit', 'ret')
        h = Heap(lay, p, X)
        if edge_absurd(h): continue
        if e is None:                    # tests only afterwards
            rot = True; k += 1
            for side in ('i',) if h.loop_() else ('i', 'o'):    # V is one of the vertices of X
                h = Heap(lay, p, X, subst={hb.vcell(hb.rd(X, lay.id[side])): V}, assume=[(('cmp', 'eq') + tuple(sorted((Z, x), key=repr)), False) for x in (sz, hd, tl)])
                if edge_absurd(h): continue
                a = ends_empty(h, V)
                if not c.need(a is last_, 'clearing erases every edge', p, 'stops before the list is empty' if last_ else 'erases from a list without checking that it is not empty', inst): continue
                unlinked(c, h, p, inst)
                c.need(not other_effects(h), 'clearing erases every edge', other_effects(h)[0] if other_effects(h) else p, 'unexpected effect', inst)
            continue
        c.need(e is False and not last_, 'clearing erases every edge', p, 'erases from a list without checking that it is not empty', inst)
        k += 1
        unlinked(c, h, p, inst)
        c.need(not other_effects(h), 'clearing erases every edge', other_effects(h)[0] if other_effects(h) else p, 'unexpected effect', inst)
    c.saw('paths', k)
    c.need(k >= 8, 'clearing erases every edge', fn, 'no loop erases the edges one by one', inst)
    return rot


def erases_all(c, p, lay, V, rot, R, msg, inst, L=None):
    """path p erases all edges of vertex V through one erase loop (or knows that there are none)"""
    ls = [e for e in p.items if e.kind == 'loop' and (L is None or e.loop is L)]
    es = [e for e in p.items if e.kind in ('write', 'call', 'throw') and e.name != '_ZdlPv']
    cut = next((i for i, e in enumerate(p.items) if e.kind == 'loop'), None)
    q = p if cut is None else Path(p.items[:cut], p.end, p.blocks, p.env)
    h = Heap(lay, q); V = h.cn(V); e = next((h.eq(Z, x) for x in (h.rd(V, lay.size), h.rd(V, lay.head), h.rd(V, lay.tail)) if h.eq(Z, x) is not None), None)
    return c.need(not es and (len(ls) == 1 and not (rot and e is not False) or not ls and e is True), R, es[0] if es else p, msg, inst)


def clear_vertex(c, m, lay):
    fn = m.entry('ce_' + lay.n); inst = 'clear_edges'; c.saw('functions')
    if not c.need(len(fn.loops) == 1, 'clearing erases every edge', fn, 'no loop over the vertex\'s edges', inst): return
    rot = is_erase_loop(c, fn, fn.loops[0], inst, lay, A(1))
    for p in paths(fn): erases_all(c, p, lay, A(1), rot, 'clearing erases every edge', 'not every edge of the vertex is erased', inst)


def clear_graph(c, m, lay):
    fn = m.entry('clear_' + lay.n); inst = 'clear'; c.saw('functions')
    top = fn.top_loops
    ok = len(top) == 1 and len(top[0].children) == 1
    if not c.need(ok, 'clearing erases every edge', fn, 'no loop over the vertices erasing their edges', inst): return
    L = top[0]; it = iterations(fn, L); g = mk_gep(A(0), lay.g, [])
    if not c.need(bool(it) and not it.early and (it.kind == 'range' and it.over == g or it.kind == 'index' and it.over == g or it.kind == 'count'), 'clearing erases every edge', fn, 'does not visit every vertex', inst): return
    v = it.var if it.kind == 'range' else ('cell', g, it.var, 0)
    if it.kind == 'count': c.need(key(it.init) == Z and size_is(it.bound, g), 'clearing erases every edge', fn, 'does not visit every vertex', inst)
    rot = is_erase_loop(c, fn, L.children[0], inst, lay, v)
    for p in it.body: erases_all(c, p, lay, v, rot, 'clearing erases every edge', 'a vertex keeps its edges', inst)
    for p in paths(fn):
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw', 'loop') or e.kind == 'op' and not is_pure_op(e)]
        c.need(len(es) == 2 and es[0].kind == 'loop' and es[1].kind == 'op' and opm(es[1]) == 'clear' and es[1].args[0] == g, 'clearing empties the graph', es[-1] if es else p, 'the vertices are not removed after all edges were erased', inst)


def size_is(e, o):
    return isinstance(e, tuple) and size_of(e, o)


def link(c, m, lay, name, byit, value):
    """create_edge puts one new edge at the end of both vertices' lists"""
    fn = m.entry(name + '_' + lay.n); inst = 'create_edge' + (' by iterator' if byit else ' by id') + (', moved value' if value == 'm' else '' if value else ', default value'); c.saw('functions')
    u, v = A(1), A(2); k = 0; R = 'a new edge is linked into both ends'
    for p in paths(fn):
        h = Heap(lay, p)
        if h.absurd() or outside(h, u) or outside(h, v): continue
        if not c.need(len(h.news) == 1, R, p, 'does not create exactly one edge', inst): continue
        X = new_of(p)
        h.X = X
        same = h.eq(u, v)
        if same is None: same = h.eq(h.vcell(u), h.vcell(v))
        L = lay; want = {mk_gep(X, L.id['i'], []): u, mk_gep(X, L.id['o'], []): v}; bad = False
        if not c.need(same is not None, 'a self-loop is in its vertex\'s list once', p, 'links both ends without checking whether they are the same vertex', inst): continue
        for s, x in (('i', u),) if same else (('i', u), ('o', v)):
            cell = h.vcell(x); t, hd = h.rd(cell, L.tail), h.rd(cell, L.head)
            z = next((r for r in (h.null(y) for y in (t, hd, h.rd(cell, L.size))) if r is not None), None)
            if not c.need(z is not None, R, p, 'links an edge without checking whether the list is empty', inst): bad = True; break
            want[mk_gep(X, L.next[s], [])] = Z
            if z:
                want[mk_gep(cell, L.head, [])] = want[mk_gep(cell, L.tail, [])] = X
                want[mk_gep(X, L.prev[s], [])] = Z
            else:
                q = h.side(t, x)
                if not c.need(q is not None, R, p, 'the link of the last edge is chosen without checking which end of it the vertex is', inst): bad = True; break
                want[mk_gep(t, L.next[q], [])] = X
                want[mk_gep(cell, L.tail, [])] = X
                want[mk_gep(X, L.prev[s], [])] = t
            want[mk_gep(cell, L.size, [])] = ('op', 'add', C(1), h.rd(cell, L.size))
        if bad: continue
        if same:
            for f in (L.next, L.prev): want[mk_gep(X, f['o'], [])] = Z
        want[mk_gep(A(0), L.count, [])] = ('op', 'add', C(1), h.rd(A(0), L.count))
        if L.val is not None: want[mk_gep(X, L.val, [])] = ('rd', A(3)) if value else Z
        k += 1; got = {h.n(a): h.n(w) for a, w in h.H.items()}
        # the empty list's head and tail are equal
        for a, w in want.items():
            a = h.n(a); g = got.pop(a, ('rd', a))
            if g == h.n(w) or same and a in (mk_gep(X, L.next['o'], []), mk_gep(X, L.prev['o'], [])): c.need(True, R, p, '', inst); continue
            e = next((e for b, _, e in h.order if h.n(b) == a), p)
            c.need(False, R, e, '%s ends as %s instead of %s' % (pp(a)[:50], pp(g)[:50], pp(w)[:50]), inst)
        for a, w in got.items():
            if base_of(a)[0] == 'obj' or w == ('rd', a): continue
            e = next((e for b, _, e in h.order if h.n(b) == a), p)
            c.need(False, R, e, 'writes %s := %s' % (pp(a)[:50], pp(w)[:50]), inst)
        c.need(not h.freed and not other_effects(h), R, p, 'unexpected effect', inst)
        c.need(h.ret == X, 'creating an edge returns it', p, 'does not return the new edge', inst)
    c.saw('paths', k)
    c.need(k >= 4, R, fn, 'creating does not distinguish empty and non-empty lists', inst)


def outside(h, u):
    """the path has found that u is not a vertex of the graph"""
    g = mk_gep(A(0), h.lay.g, [])
    return any(l[:2] == ('cmp', 'lt') and l[2] == u and size_is(l[3], g) and not pol for l, pol in h.lit)


def new_of(p):
    for e in p.items:
        if e.kind == 'call' and e.name == '_Znwm': return e.val
    return None


def erase_range(c, m, lay):
    """erasing [first, last) of a vertex's list erases first and goes on with the edge that followed it, until last"""
    fn = m.entry('err_' + lay.n); inst = 'vertex erase_edge(first, last)'; R = 'erasing a range erases its edges one by one'; c.saw('functions')
    if not c.need(len(fn.loops) == 1, R, fn, 'no loop over the range', inst): return
    L = fn.loops[0]; ph = {}
    for pid, init, _ in header_phis(fn, L):
        for v in init:
            if key(v) == A(3): ph['x'] = ('phi', pid)
            if key(v) == A(2) or contains(v, A(2)): ph['u'] = ('phi', pid)
    if not c.need('x' in ph, R, fn, 'the loop does not start at the first edge', inst): return
    X = ph['x']; uid = ph.get('u', A(2)); k = 0
    for p in paths(fn, L):
        alias = {A(1): ('cell', A(0), uid, 0)}
        if uid != A(2): alias[A(2)] = uid
        h = Heap(lay, p, None, None, alias)
        if p.end[0] in ('exit', 'ret'):
            if h.absurd(): continue
            c.need(h.eq(X, A(4)) is True and not h.H, R, p, 'stops before the end of the range', inst); continue
        h = Heap(lay, p, X, uid, alias)
        if edge_absurd(h): continue
        k += 1
        c.need(h.eq(X, A(4)) is False, R, p, 'erases the end of the range', inst)
        unlinked(c, h, p, inst)
        s = h.side(X, h.n(h.uid)); nx = p.end[2].get(X[1], X)
        c.need(s is not None and h.n(h.cn(nx)) == h.rd(X, lay.next[s]), R, p, 'does not go on with the edge that followed', inst)
        if uid != A(2): c.need(h.n(h.cn(p.end[2].get(uid[1], uid))) == h.n(uid), R, p, 'goes on in another vertex\'s list', inst)
        c.need(not other_effects(h), R, p, 'unexpected effect', inst)
    c.saw('paths', k); c.need(k >= 8, R, fn, 'no loop erases the edges one by one', inst)
    for p in paths(fn):
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw')]
        r = next((e.args[0] for e in p.items if e.kind == 'ret' and e.args), None)
        c.need(not es and (key(r) == X or key(r) == A(4)), R, es[0] if es else p, 'does not return the end of the range', inst)


def from_to_size(fn, L, n, o):
    """the loop goes over the indexes n..size of o, upwards or downwards: the index, and whether it relies on n <= size"""
    is_n = lambda x: key(x) == key(n)
    for pid, init, _ in header_phis(fn, L):
        v = ('phi', pid)
        for up in (True, False):
            first, stop = (is_n, lambda x: size_is(x, o)) if up else (lambda x: size_is(x, o), is_n)
            if not init or not all(first(x) for x in init): continue
            ok = True; rel = False
            for p in paths(fn, L):
                go = None
                for e in p.items:
                    if e.kind != 'cond' or e.args[0][:1] != ('cmp',): continue
                    k, (a, b) = e.args[0][1], e.args[0][2:]
                    if k == 'lt' and (a == v and stop(b) if up else stop(a) and b == v): go = e.pol
                    elif k == 'eq' and (a == v and stop(b) or b == v and stop(a)): go = not e.pol; rel = True
                    if go is not None: break
                if go is not (p.end[0] == 'back'): ok = False
                elif p.end[0] == 'back':
                    w = p.end[2].get(pid, v)
                    ok &= is_add(w, v) if up else minus1(w, v)
            if ok: return v if up else ('op', 'add') + tuple(sorted((C(-1), v), key=repr)), rel
    return None, False


def minus1(w, v): return w in (('op', 'add', C(-1), v), ('op', 'add', v, C(-1)), ('op', 'sub', v, C(1)))


def resize(c, m, lay, name):
    """resizing erases the edges of the removed vertices, then resizes the vertices"""
    fn = m.entry(name + '_' + lay.n); val = name == 'rsv'; inst = 'resize_vertices' + (' with value' if val else ''); R = 'removed vertices lose their edges'; c.saw('functions')
    top = fn.top_loops; g = mk_gep(A(0), lay.g, [])
    if not c.need(len(top) == 1 and len(top[0].children) == 1, R, fn, 'no loop erases the edges of the removed vertices', inst): return
    L = top[0]; v, rel = from_to_size(fn, L, A(1), g)
    if not c.need(v is not None, R, fn, 'the loop does not go over exactly the removed vertices', inst): return
    rot = is_erase_loop(c, fn, L.children[0], inst, lay, ('cell', g, v, 0))
    for p in paths(fn, L):
        if p.end[0] == 'back': erases_all(c, p, lay, ('cell', g, v, 0), rot, R, 'a removed vertex keeps its edges', inst)
    for p in paths(fn):
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw', 'loop') and e.name != '_ZdlPv' or e.kind == 'op' and not is_pure_op(e)]
        if not [e for e in es if e.kind == 'loop']:
            # nothing to erase when the graph does not shrink
            eq = [i.pol for i in p.items if i.kind == 'cond' and i.args[0][:2] == ('cmp', 'eq') and A(1) in [key(x) for x in i.args[0][2:]] and any(size_is(x, g) for x in i.args[0][2:])]
            ok = grows(p, g) or True in eq
            c.need(ok, R, p, 'the edges of removed vertices are not erased', inst)
            if True in eq and not es: continue
            es = [None] + es
        elif rel: c.need(shrinks(p, g), R, p, 'the loop over the removed vertices does not end when the graph grows', inst)
        ok = len(es) == 2 and (es[0] is None or es[0].kind == 'loop') and es[1].kind == 'op' and opm(es[1]) == 'resize' and es[1].args[0] == g and key(es[1].args[1]) == A(1)
        if ok and val: ok = ('rd', A(2)) in [key(x) for x in es[1].args[2:]] and all(key(x) in (('rd', A(2)), Z) for x in es[1].args[2:])
        c.need(ok, 'resizing keeps the other vertices', es[-1] if es else p, 'the vertices are not resized to the given number', inst)


def shrinks(p, g):
    for i in p.items:
        if i.kind == 'loop': return False
        if i.kind != 'cond' or i.args[0][:2] != ('cmp', 'lt'): continue
        a, b = i.args[0][2:]
        if key(a) == A(1) and size_is(b, g) and i.pol: return True
        if key(b) == A(1) and size_is(a, g) and not i.pol: return True
    return False


def grows(p, g):
    """the path knows that the given number is at least the number of vertices"""
    for i in p.items:
        if i.kind != 'cond' or i.args[0][:2] != ('cmp', 'lt'): continue
        a, b = i.args[0][2:]
        if key(a) == A(1) and size_is(b, g) and not i.pol: return True
        if key(b) == A(1) and size_is(a, g) and i.pol: return True
    return False


def appended_at(p, r, push, g):
    """r is the number of vertices before the push"""
    for e in p.items:
        if e is push: return False
        if isinstance(e.val, tuple) and e.val[:2] == r[:2] and r[0] == 'ret' and size_is(r, g): return True
    return False


def new_vertex(c, m, lay, name):
    """create_vertex appends one vertex with no edges and returns it"""
    fn = m.entry(name + '_' + lay.n); inst = {'cv0': 'create_vertex', 'cv': 'create_vertex, copied value', 'cvm': 'create_vertex, moved value'}[name]; R = 'a new vertex is appended'; c.saw('functions'); g = mk_gep(A(0), lay.g, [])
    for p in paths(fn):
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw', 'loop') and base_of(e.args[0])[0] != 'obj' or e.kind == 'op' and not is_pure_op(e)]
        h = Heap(lay, p)
        ok = len(es) == 1 and es[0].kind == 'op' and opm(es[0]) in ('push_back', 'emplace_back') and es[0].args[0] == g
        if not c.need(ok, R, es[0] if es else p, 'does not append exactly one vertex', inst): continue
        fl = [key(x) for x in es[0].args[1:]]
        want = [('rd', A(1))] if name != 'cv0' else []
        c.need([x for x in fl if x != Z] == want, R, es[0], 'the new vertex does not start with the given value and no edges', inst)
        r = h.ret
        last_ = r is not None and (appended_at(p, r, es[0], g) or r == ('op', 'sdiv', ('op', 'sub', mk_gep(('end', g), -lay.stride, []), ('begin', g)), C(lay.stride)))
        last_ = last_ or r is not None and r[:2] == ('op', 'add') and C(-1) in r[2:] and any(size_is(x, g) for x in r[2:]) or r is not None and r[:2] == ('op', 'sub') and r[3] == C(1) and size_is(r[2], g)
        c.need(last_, 'creating a vertex returns it', p, 'does not return the last vertex', inst)


def lists(c, m):
    """C07"""
    m.keep_delete = True; m.path_cap = 40000; jobs = []
    for n in 'dnv':
        lay = Lay(m, n)
        if not c.need(lay.known(), 'layout', m.entry('lm_' + n), 'the members of an edge or vertex cannot be located', n): continue
        jobs += [lambda c, lay=lay: erase_one(c, m, lay), lambda c, lay=lay: clear_vertex(c, m, lay), lambda c, lay=lay: clear_graph(c, m, lay), lambda c, lay=lay: erase_range(c, m, lay)]
        for name in ('rs', 'rsv'):
            if n != 'v' or name == 'rs': jobs.append(lambda c, lay=lay, name=name: resize(c, m, lay, name))

        def small(c, lay=lay, n=n):
            for name in ('cv0', 'cv', 'cvm'):
                if n != 'v' or name == 'cv0': new_vertex(c, m, lay, name)
            for name, byit, val in (('mkid', 0, 1), ('mkidm', 0, 'm'), ('mkit', 1, 1), ('mkitm', 1, 'm'), ('mkid0', 0, 0), ('mkit0', 1, 0)):
                if n != 'v' or not val: link(c, m, lay, name, byit, val)
        jobs.append(small)
    parallel(c, jobs)


# ------------------------------------------------------------------ iteration and queries
def entering(fn, L, p, h):
    """values of the header phis of L when path p (of the region around L) enters it"""
    b = p.blocks
    if L.header not in b: return {}
    prev = b[b.index(L.header) - 1] if b.index(L.header) else None
    ev = Eval(fn, p.env); r = {}
    for x in fn.blocks[L.header]:
        if x.op != 'phi': break
        for q, o in x.ops:
            if q == prev: r[x.id] = h.n(h.cn(ev.v(o)))
    return r


def exits_of(e):
    """the literals under which a collapsed inner loop was left"""
    return [x for rep in e.val for x in rep.items if x.kind == 'cond']


class Scan:
    """a loop looking for the next vertex that has edges, from a start position on"""

    def __init__(s, fn, L, lay):
        s.ok = False; s.L = L; s.lay = lay; g = mk_gep(A(0), lay.g, []); hp = header_phis(fn, L); end = ('end', g)
        if not hp: return
        for pid, init, back in hp:
            w = ('phi', pid); good = True
            for p in paths(fn, L):
                h = Heap(lay, p); at_end = h.eq(w, end); e = empty_list(h, w)
                if p.end[0] == 'back':
                    good &= at_end is False and e is True and stepped(h.cn(p.end[2].get(pid, w)), w, lay.stride, g) and not h.H
                elif p.end[0] == 'exit': good &= (at_end is True or at_end is False and e is False) and not h.H
                else: good = False
            if good: s.ok = True; s.w = w; s.pid = pid; return

    def torn(s, e, hp):
        """the path later takes the end for a vertex, or a vertex for the end"""
        f = s.found(e, hp); at = hp.eq(s.w, ('end', mk_gep(A(0), s.lay.g, [])))
        return f is not None and at is f

    def found(s, e, hp=None):
        """how this loop event left the scan: True (at a vertex with edges) / False (at the end)"""
        g = mk_gep(A(0), s.lay.g, []); end = ('end', g)
        r = {Heap(s.lay, rep).eq(s.w, end) is False for rep in e.val}
        if len(r) == 1: return r.pop()
        at = hp.eq(s.w, end) if hp is not None else None       # told apart later
        return None if at is None else not at


def empty_list(h, v):
    for o in (h.lay.size, h.lay.head, h.lay.tail):
        x = h.rd(v, o); r = h.eq(Z, x)
        if r is None:
            for l, pol in h.lit:
                l = h.n(l)
                if l[:2] == ('cmp', 'lt') and l[2:] == (Z, x): r = not pol
                if l[:2] == ('cmp', 'lt') and l[2:] == (x, C(1)): r = pol
        if r is not None: return r
    return None


def stepped(v, w, k, g):
    """v is the vertex after w"""
    if v == mk_gep(w, k, []): return True
    if w[0] == 'cell' and v[0] == 'cell' and v[1] == w[1] and is_add(v[2], w[2]): return True
    return v == ('cell', g, ('op', 'add') + tuple(sorted([C(1), index_of(w, g, k)], key=repr)), 0)


def index_of(u, g, k):
    if u[0] == 'cell' and u[1] == g and u[3] == 0: return u[2]
    return ('op', 'sdiv', ('op', 'sub', u, ('begin', g)), C(k))


def nextstate(c, h, p, fn, state, lay, R, inst):
    """(u', uid', e') of the position after (u, uid, e) among all edges; 'end' for u' when there is none; None if wrong"""
    u, uid, e = state; g = mk_gep(A(0), lay.g, [])
    s = h.side(e, uid); n = h.rd(e, lay.next[s]) if s else None; z = h.null(n) if s else None
    if not c.need(s is not None, R, p, 'goes on without checking which link of the edge belongs to the vertex', inst): return None
    if not c.need(z is not None, R, p, 'does not check for the end of a vertex\'s list', inst): return None
    ls = [x for x in p.items if x.kind == 'loop']
    if not z:
        if not c.need(not ls, R, p, 'leaves a vertex whose list has more edges', inst): return None
        return (h.n(u), h.n(uid), n)
    if not c.need(len(ls) == 1, R, p, 'does not look for the next vertex with edges', inst): return None
    sc = Scan(fn, ls[0].loop, lay)
    if not c.need(sc.ok, R, p, 'does not look for the next vertex with edges', inst): return None
    st = entering(fn, ls[0].loop, p, h).get(sc.pid)
    if not c.need(st is not None and stepped(st, h.n(u), lay.stride, g), R, p, 'looks for the next vertex with edges from %s, not after the current one' % (st and pp(st)), inst): return None
    f = sc.found(ls[0], h)
    if sc.torn(ls[0], h): return None
    if not c.need(f is not None, R, p, 'goes on from a vertex without checking that it is one with edges', inst): return None
    if f: return (sc.w, index_of(sc.w, g, lay.stride), h.rd(sc.w, lay.head))
    return ('end', None, n)


def all_edges(c, m, lay, name, call):
    """the edges of the graph: every edge of every vertex's list, vertex by vertex"""
    fn = m.entry(name + '_' + lay.n); inst = 'edges()' + (' const' if name.endswith('c') else ''); R = 'iterating over all edges'; c.saw('functions')
    g = mk_gep(A(0), lay.g, []); end = ('end', g)
    main = [L for L in fn.top_loops if any(e.kind == 'call' and e.name == call for p in paths(fn, L) for e in p.items)]
    if not c.need(len(main) == 1, R, fn, 'no loop visits the edges', inst): return
    L = main[0]
    for p in paths(fn):
        h = Heap(lay, p); pos = {}; bad = False
        for e in p.items:
            if e.kind != 'loop' or e.loop is L: continue
            sc = Scan(fn, e.loop, lay)
            if not c.need(sc.ok, R, p, 'unexpected loop', inst): bad = True; break
            if sc.torn(e, h): bad = True; break
            st = entering(fn, e.loop, p, h).get(sc.pid); pos[sc.pid] = (st, sc.found(e, h), sc)
        if bad: continue
        if any(st == end and f for st, f, _ in pos.values()): continue      # nothing follows the end
        first = [(f, sc) for st, f, sc in pos.values() if st == ('begin', g) or st == ('cell', g, Z, 0)]
        ends = {('phi', k) for k, (st, f, _) in pos.items() if st == end} | {end}
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw')]
        if not c.need(len(first) == 1 and not es and any(e.kind == 'loop' and e.loop is L for e in p.items), R, p, 'does not start at the first vertex with edges', inst): continue
        f, sc = first[0]; st = entering(fn, L, p, h)
        want = (sc.w, index_of(sc.w, g, lay.stride), h.rd(sc.w, lay.head))
        got = {}
        if f:
            for pid, v in st.items():
                for k in (0, 1, 2):
                    if v == h.n(want[k]): got[k] = pid
            if not c.need(set(got) >= {0, 2}, R, p, 'does not start with the first edge of the first vertex with edges', inst): continue
            judge_steps(c, m, lay, fn, L, got, ends, h, call, R, inst)
        else:
            c.need(Z in st.values() or sc.w in st.values(), R, p, 'without edges, does not start at the end', inst)


def state_of(got, g, k):
    u = ('phi', got[0]); e = ('phi', got[2]); uid = ('phi', got[1]) if 1 in got else index_of(u, g, k)
    return u, uid, e


def judge_steps(c, m, lay, fn, L, got, ends, hp, call, R, inst):
    g = mk_gep(A(0), lay.g, []); u, uid, e = state_of(got, g, lay.stride); k = 0
    uids = {uid, index_of(u, g, lay.stride)}
    for p in paths(fn, L):
        alias = {x: uid for x in uids if x != uid}
        h = Heap(lay, p, e, uid, alias)
        if edge_absurd_u(h, u): continue
        at = [pol for l, pol in h.lit if l[:2] == ('cmp', 'eq') and u in l[2:] and any(x in ends for x in l[2:])]
        nul = [pol for l, pol in h.lit if l[:2] == ('cmp', 'eq') and e in l[2:] and (Z in l[2:] or any(x[0] == 'phi' and x not in (u, uid, e) for x in l[2:]))]
        vis = [x for x in p.items if x.kind == 'call' and x.name == call]
        if p.end[0] == 'exit':
            c.need((True in at or True in nul) and not vis and not h.H, R, p, 'stops before the end', inst); continue
        if not c.need(False in at or False in nul, R, p, 'visits without checking for the end', inst): continue
        k += 1
        c.need(len(vis) == 1 and h.n(h.cn(vis[0].args[0])) == h.n(e) and not h.H, R, vis[0] if vis else p, 'does not visit the current edge', inst)
        nx = nextstate(c, h, p, fn, (u, uid, e), lay, R, inst)
        if nx is None: continue
        new = {r: h.n(h.cn(p.end[2].get(got[r], ('phi', got[r])))) for r in got}
        if nx[0] == 'end': c.need(new[0][0] == 'phi' and h.n(new[2]) in (Z, h.n(nx[2])), R, p, 'after the last edge, does not reach the end', inst); continue
        for r in got: c.need(new[r] == h.n(nx[r]) or r == 1 and new[1] == h.n(index_of(nx[0], g, lay.stride)), R, p, 'goes on with %s, not with the following edge' % pp(new[r])[:60], inst)
    c.saw('paths', k); c.need(k >= 4, R, fn, 'no path goes on to the following edge', inst)


def edge_absurd_u(h, u):
    return h.absurd() or h.n(h.X) == Z or any(h.eq(h.X, h.rd(h.X, f[s])) for s in 'io' for f in (h.lay.next, h.lay.prev)) or h.uid is not None and h.loop_() and h.eq(h.rd(h.X, h.lay.id['i']), h.uid) is False


def erase_graph(c, m, lay):
    """graph-level erase: unlink from both ends, destroy, count; returns the next position that is another edge"""
    fn = m.entry('ge_' + lay.n); inst = 'graph erase_edge'; R = 'erasing through a graph-level iterator'; c.saw('functions')
    g = mk_gep(A(0), lay.g, []); end = ('end', g); X = A(2); k = 0; late = []
    for p in paths(fn):
        h = Heap(lay, p, X); lp = [e for e in p.items if e.kind == 'loop']; pos = {}; main = None; bad = torn = False
        for e in lp:
            sc = Scan(fn, e.loop, lay)
            if sc.ok and sc.torn(e, h): torn = True
            if sc.ok: pos[sc.pid] = (entering(fn, e.loop, p, h).get(sc.pid), sc.found(e, h), sc)
            elif main is None: main = e
            else: bad = True
        if torn or any(st == end and f for st, f, _ in pos.values()): continue
        ends = {('phi', i) for i, (st, f, _) in pos.items() if st == end} | {end}
        ul = [e for e in p.items if e.kind in ('call', 'op') and last(e.name) == 'unlink']
        if not c.need(main is not None and not bad, R, p, 'does not move on from the erased edge before unlinking it', inst): continue
        k += 1
        i, o = h.rd(X, lay.id['i']), h.rd(X, lay.id['o'])
        okc = len(ul) == 1 and h.cn(ul[0].args[0]) == X and vref(h, ul[0].args, lay) == [h.vcell(i), h.vcell(o)]
        c.need(okc, R, ul[0] if ul else p, 'does not unlink the edge from the vertices it joins', inst)
        c.need([x for x, _ in h.freed] == [X], 'an erased edge is destroyed once', p, 'the erased edge is not deallocated exactly once', inst)
        w = {a: v for a, v in h.H.items() if base_of(a)[0] != 'obj'}
        cnt = mk_gep(A(0), lay.count, [])
        c.need(w == {cnt: ('op', 'add', C(-1), ('rd', cnt))}, R, p, 'the number of edges is not reduced by one', inst)
        L = main.loop; st = entering(fn, L, p, h); got = {}
        for pid, v in st.items():
            if v == X: got[2] = pid
            elif v == A(1): got[1] = pid
            elif v in (('cell', g, A(1), 0),): got[0] = pid
        order = [e for e in p.items if e is main or e in ul]
        c.need(not ul or order.index(main) < order.index(ul[0]), R, p, 'the edge is unlinked before moving on from it', inst)
        if not set(got) >= {0, 2}:              # moved on once before the loop
            its = [e for e in p.items[:p.items.index(main)] if e.kind != 'loop' or not any(e.loop.header == x[2].L.header for i, x in pos.items() if x[0] == end)]
            q = Path(its, p.end, p.blocks, p.env); hq = Heap(lay, q, X, A(1))
            if edge_absurd_u(hq, None): continue
            nx = nextstate(c, hq, q, fn, (('cell', g, A(1), 0), A(1), X), lay, R, inst)
            if nx is None: continue
            if nx[0] == 'end': late.append((p, h, main, st, ends, None)); continue
            for pid, v in st.items():
                v = hq.n(v)
                if v == hq.n(nx[2]): got[2] = pid
                elif v == hq.n(nx[0]): got[0] = pid
                elif nx[1] is not None and v == hq.n(nx[1]): got[1] = pid
            if not c.need(set(got) >= {0, 2}, R, p, 'does not move on from the given position', inst): continue
            late.append((p, h, main, st, ends, got)); continue
        S = state_of(got, g, lay.stride)
        judge_moves(c, lay, fn, L, got, S, ends, X, p, main, h, R, inst)
    full = [x for x in late if x[5]]
    if full:
        got = {}
        for x in full: got.update(x[5])
        S = state_of(got, g, lay.stride); ends = set().union(*[x[4] for x in late])
        for p, h, main, st, _, gt in late:
            c.need(h.ret is not None and (h.n(h.ret) == S[2] or gt is None), 'erasing an edge returns the next one', p, 'returns %s instead of the edge that follows' % pp(h.ret)[:60], inst)
            if gt is None: c.need(st.get(got[0], (None,))[0] in ('phi', 'end'), R, p, 'after the last edge, does not reach the end', inst)
        judge_skip(c, lay, fn, full[0][2].loop, got, S, ends, X, R, inst)
    elif late: c.need(False, R, late[0][0], 'does not move on from the given position', inst)
    c.saw('paths', k); c.need(k >= 2, R, fn, 'no path erases the edge', inst)


def judge_skip(c, lay, fn, L, got, S, ends, X, R, inst):
    """the loop moves on from the current position as long as it is the erased edge"""
    g = mk_gep(A(0), lay.g, []); u, uid, e = S
    for p in paths(fn, L):
        h = Heap(lay, p, e, uid, {x: uid for x in (index_of(u, g, lay.stride),) if x != uid})
        if edge_absurd_u(h, u) or h.null(X): continue
        at = [pol for l, pol in h.lit if l[:2] == ('cmp', 'eq') and u in l[2:] and any(x in ends for x in l[2:])]
        nul = h.null(e); same = h.eq(e, X)
        if p.end[0] == 'exit': c.need(True in at or nul is True or same is False, R, p, 'stops at the erased edge itself', inst); continue
        if not c.need(same is True, R, p, 'moves past another edge', inst): continue
        nx = nextstate(c, h, p, fn, S, lay, R, inst)
        if nx is None or nx[0] == 'end': continue
        for r in got:
            v = h.n(h.cn(p.end[2].get(got[r], ('phi', got[r]))))
            c.need(v == h.n(nx[r]), R, p, 'goes on with %s, not with the following edge' % pp(v)[:60], inst)


def vref(h, args, lay):
    """the two vertices passed by reference (their members are passed along)"""
    r = []
    for a in args[1:]:
        b = h.cn(a)
        if b[0] == 'rd': b = b[1]
        v = ('cell', b[1], b[2], 0) if b[0] == 'cell' else b
        if v not in r: r.append(v)
    return r if len(r) != 1 else r * 2


def judge_moves(c, lay, fn, L, got, S, ends, X, fp, ev, hf, R, inst):
    g = mk_gep(A(0), lay.g, [])
    u, uid, e = S
    for p in paths(fn, L):
        if p.end[0] == 'exit' and not any(p.items == r.items for r in ev.val) and p.end[1] != ev.exit: continue
        alias = {x: uid for x in (index_of(u, g, lay.stride),) if x != uid}
        h = Heap(lay, p, e, uid, alias)
        if edge_absurd_u(h, u): continue
        if h.null(X): continue
        nx = nextstate(c, h, p, fn, S, lay, R, inst)
        if nx is None: continue
        same = None
        if nx[0] != 'end':
            same = h.eq(nx[2], X)
            atend = any(pol for l, pol in h.lit if l[:2] == ('cmp', 'eq') and nx[0] in l[2:] and any(x in ends for x in l[2:]))
            if atend: continue                      # a vertex with edges is not the end
        if p.end[0] == 'back':
            c.need(nx[0] != 'end' and same is True, R, p, 'moves past another edge', inst)
            if nx[0] == 'end': continue
            for r in got:
                v = h.n(h.cn(p.end[2].get(got[r], ('phi', got[r]))))
                c.need(v == h.n(nx[r]), R, p, 'goes on with %s, not with the following edge' % pp(v)[:60], inst)
        elif p.end[0] == 'exit':
            c.need(nx[0] == 'end' or same is False, R, p, 'stops at the erased edge itself', inst)
            if nx[0] != 'end' and p.end[1] == ev.exit and len(ev.val) == 1:
                c.need(hf.ret is not None and h.n(hf.n(hf.ret)) == h.n(nx[2]), 'erasing an edge returns the next one', p, 'returns %s instead of the edge that follows' % pp(hf.ret)[:60], inst)


def vertex_list(c, m, lay, name, vcell, uid, call, args):
    """iterating over a vertex's edges visits the edges of its list in order"""
    fn = m.entry(name + '_' + lay.n); inst = {'es': 'edges(g,u)', 'esc': 'edges(g,u) const', 'esi': 'edges(g,uid)', 'ie': 'in_edges(g,u)', 'iec': 'in_edges(g,u) const', 've': 'vertex edges', 'vec': 'vertex edges const', 'nb': 'neighbors', 'nbc': 'neighbors const'}[name]
    R = 'iterating over a vertex\'s edges'; c.saw('functions')
    if not c.need(len(fn.loops) == 1, R, fn, 'no loop visits the edges', inst): return
    L = fn.loops[0]; X = None
    for p in paths(fn):
        h = Heap(lay, p); ls = [e for e in p.items if e.kind == 'loop']; es = [e for e in p.items if e.kind in ('write', 'call', 'throw')]
        if h.absurd(): continue
        hd = h.rd(vcell, lay.head); e = empty_list(h, vcell)
        if not ls: c.need(e is True and not es, R, p, 'a vertex with edges is skipped', inst); continue
        st = entering(fn, L, p, h)
        xs = [pid for pid, v in st.items() if v == h.n(hd) or e is True and v == Z]
        if not c.need(xs and not es, R, p, 'does not start at the first edge of the list', inst): continue
        X = ('phi', xs[0])
    if X is None: return
    k = 0
    for p in paths(fn, L):
        h = Heap(lay, p, X, uid, {})
        if edge_absurd_u(h, None): continue
        vis = [x for x in p.items if x.kind == 'call' and x.name.startswith('v_')]
        if p.end[0] == 'exit': c.need(h.eq(Z, X) is True and not vis, R, p, 'stops before the end of the list', inst); continue
        if not c.need(h.eq(Z, X) is False, R, p, 'visits without checking for the end', inst): continue
        k += 1; s = h.side(X, h.n(uid))
        if not c.need(s is not None, R, p, 'does not check which end of the edge the vertex is', inst): continue
        nx = h.n(h.cn(p.end[2].get(X[1], X)))
        c.need(nx == h.rd(X, lay.next[s]) and not h.H, R, p, 'goes on with %s, not with the next edge of the vertex\'s list' % pp(nx)[:60], inst)
        want = [h.n(a) for a in args(h, X, s)]
        got = [h.n(h.cn(a)) for a in vis[0].args] if len(vis) == 1 else None
        c.need(got == want, R, vis[0] if vis else p, 'an edge is presented as %s instead of %s' % (got and ', '.join(pp(x)[:40] for x in got), ', '.join(pp(x)[:40] for x in want)), inst)
    c.saw('paths', k); c.need(k >= 2, R, fn, 'no path visits an edge', inst)


def one_step(c, m, lay, name, post):
    fn = m.entry(name + '_' + lay.n); fw = 'nx' in name; inst = ('const ' if name[0] == 'c' else '') + ('++' if fw else '--') + (' (postfix)' if post else ''); R = 'moving an edge iterator'; c.saw('functions'); k = 0; z = 0
    for p in paths(fn):
        h = Heap(lay, p, A(2), A(1))
        isnull = h.eq(Z, A(2))
        if isnull:
            if fw: continue
            z += 1; cell = h.vcell(A(1)); t = h.rd(cell, lay.tail)
            if below(h, A(1), mk_gep(A(0), lay.g, [])) is False: continue
            c.need(h.ret is not None and (h.n(h.ret) == h.n(t)) or post and h.ret is not None, R, p, 'stepping back from the end does not reach the last edge', inst); continue
        if edge_absurd_u(h, None): continue
        k += 1; s = h.side(A(2), h.n(h.uid))
        c.need(s is not None and h.ret is not None and h.n(h.ret) == h.rd(A(2), (lay.next if fw else lay.prev)[s]), R, p, 'does not move to the %s edge of the vertex\'s list' % ('next' if fw else 'previous'), inst)
    c.need(k >= 2 and (fw or z >= 1), R, fn, 'does not distinguish the ends of an edge', inst)


def neighbor_step(c, m, lay, name):
    """a neighbor iterator moves as the edge iterator does: afterwards (or, for the copy a postfix step gives, before) it equals the position compared to"""
    fn = m.entry(name + '_' + lay.n); fw = 'nx' in name; old = name.endswith('o')
    inst = ('++' if fw else '--') + (' (postfix)' if name[-1] in 'po' else '') + (' of neighbors' if name[0] == 'b' else ' of const neighbors'); R = 'moving a neighbor iterator'; c.saw('functions'); k = z = 0
    for p in forked(paths(fn)):
        h0 = Heap(lay, p, A(2), A(1))
        if h0.absurd(): continue
        isnull = h0.eq(Z, A(2)) is True
        if isnull and fw and not old: continue
        if isnull and not old and below(h0, A(1), mk_gep(A(0), lay.g, [])) is False: continue
        if not isnull and edge_absurd_u(h0, None): continue
        for r, h in truths(h0, lay, p):
            if not isnull and edge_absurd_u(h, None): continue
            s = h.side(A(2), h.n(h.uid))
            if old: w = A(2)
            elif isnull: w = h.rd(h.vcell(A(1)), lay.tail); z += 1
            else:
                if not c.need(s is not None, R, p, 'does not check which end of the edge the vertex is', inst): continue
                w = h.rd(A(2), (lay.next if fw else lay.prev)[s])
            k += 1
            c.need(r is not None and h.eq(h.n(w), A(3)) is r, R, p, 'does not move to the %s edge of the vertex\'s list' % ('next' if fw else 'previous') if not old else 'does not give the former position', inst)
    c.need(k >= 2 and (fw or old or z), R, fn, 'is not compared', inst)


def truths(h, lay, p):
    """what the path returns, as True or False with what it then knows"""
    def t(r, pol=True):
        if r is None: return None
        if r[0] == 'not': return t(r[1], not pol)
        if r[0] == 'c': return (r[1] != 0) == pol
        return (r, pol)
    v = t(h.ret)
    if not isinstance(v, tuple): return [(v, h)]
    out = []
    for val in (True, False):
        g = Heap(lay, p, h.edge if hasattr(h, 'edge') else A(2), A(1), assume=[(v[0], v[1] == val)])
        if not g.absurd(): out.append((val, g))
    return out


def dangling(h):
    """the path takes an end of an edge for no vertex of the graph"""
    ids = {h.n(('rd', mk_gep(A(a), o, []))) for a in (0, 1, 2) for o in h.lay.id.values()} | {h.n(('rd', mk_gep(h.rd(A(a), 0), o, []))) for a in (1, 2) for o in h.lay.id.values()}
    for l, pol in h.lit:
        if l[:2] == ('cmp', 'lt') and not pol and h.n(l[2]) in ids and size_is(l[3], mk_gep(A(0), h.lay.g, [])): return True
    return False


def below(h, u, g):
    """what the path knows about u as an index of g: True (a vertex), False (none), 'le' (a vertex or the end)"""
    r = None
    for l, pol in h.lit:
        if l[:2] != ('cmp', 'lt'): continue
        if h.n(l[2]) == h.n(u) and size_is(l[3], g): return pol
        if h.n(l[3]) == h.n(u) and size_is(l[2], g): r = False if pol else 'le'
    return r


def value_of(c, m, lay, name, want, R, msg, skip=None):
    """every path returns the expression want(h)"""
    fn = m.entry(name + '_' + lay.n); c.saw('functions'); k = 0
    for p in paths(fn):
        h = Heap(lay, p)
        if h.absurd() or skip and skip(h) or dangling(h): continue
        k += 1; w = want(h); r = h.ret
        ok = r is not None and any(h.n(r) == h.n(x) for x in (w if isinstance(w, list) else [w]))
        c.need(ok and not h.H, R, p, msg + ' (returns %s)' % (r and pp(r)[:60]), name)
    c.need(k > 0, R, fn, msg, name)


def other_end(h, e, u):
    """id of the end of e other than u"""
    L = h.lay; s = h.side(e, u)
    return h.rd(e, L.id['o']) if s == 'i' else h.rd(e, L.id['i']) if s == 'o' else ('undef',)


def queries(c, m, lay, n):
    g = mk_gep(A(0), lay.g, []); uc = ('cell', g, A(1), 0)
    def e3(h, X, s): return [h.rd(X, lay.id['o' if s == 'i' else 'i']), A(1), X]
    def e1(h, X, s): return [X]
    def nb(h, X, s): return [h.vcell(h.rd(X, lay.id['o' if s == 'i' else 'i']))]
    for name in ('es', 'esc', 'esi', 'ie', 'iec'): vertex_list(c, m, lay, name, uc, A(1), 'v_e_' + n, e3)
    for name in ('ve', 'vec'): vertex_list(c, m, lay, name, A(1), A(2), 'v_g_' + n, e1)
    for name in ('nb', 'nbc'): vertex_list(c, m, lay, name, A(1), A(2), 'v_n_' + n, nb)
    for name, post in (('nx', 0), ('nxp', 1), ('pv', 0), ('pvp', 1)):
        one_step(c, m, lay, name, post); one_step(c, m, lay, 'c' + name, post)
    for b in 'bd':
        for name in ('nx', 'nxp', 'nxo', 'pv', 'pvp', 'pvo'): neighbor_step(c, m, lay, b + name)
    for name in ('gio', 'gioc'): value_of(c, m, lay, name, lambda h: A(2), 'moving an edge iterator', 'a postfix increment does not give the former position')
    value_of(c, m, lay, 'eq', lambda h: [('cmp', 'eq', A(2), A(3)), ('cmp', 'eq', A(3), A(2))], 'comparing edge iterators', 'positions are not compared by edge')
    for name in ('geq', 'gne'): positions(c, m, lay, name)
    R = 'the end of an edge'
    for name in ('ov', 'ovi', 'ow', 'owc', 'owi'): value_of(c, m, lay, name, lambda h: other_end(h, A(1), A(2)), R, 'is not the end other than the given vertex', lambda h: cells_eq(h))
    for name, s in (('src', 'i'), ('srcc', 'i'), ('id1', 'i'), ('tgt', 'o'), ('tgtc', 'o'), ('id2', 'o')): value_of(c, m, lay, name, lambda h: h.rd(A(1), lay.id[s]), R, 'is not the %s vertex' % ('first' if s == 'i' else 'second'))
    for name, s in (('own', 'i'), ('ltg', 'o')): value_of(c, m, lay, name, lambda h: h.rd(A(0), lay.id[s]), R, 'is not the %s vertex' % ('first' if s == 'i' else 'second'))
    R = 'counts'
    value_of(c, m, lay, 'ne', lambda h: h.rd(A(0), lay.count), R, 'is not the number of edges')
    for name in ('he', 'hem'): boolean_(c, m, lay, name)
    for name in ('dg', 'dgc'): value_of(c, m, lay, name, lambda h: h.rd(uc, lay.size), R, 'is not the length of the vertex\'s list')
    value_of(c, m, lay, 'ns', lambda h: h.rd(A(1), lay.size), R, 'is not the length of the vertex\'s list')
    is_size(c, m, lay, 'nv', g)
    for name in ('fv', 'fvc', 'tf', 'tfc'): finds(c, m, lay, name, g)
    if n != 'v':
        R = 'values'
        value_of(c, m, lay, 'ev', lambda h: mk_gep(A(2), lay.val, []), R, 'is not the value of the edge')
        value_of(c, m, lay, 'evc', lambda h: mk_gep(desc_edge(h), lay.val, []), R, 'is not the value of the edge')
        for name in ('vv', 'vvc'): value_of(c, m, lay, name, lambda h: mk_gep(uc, lay.vval, []), R, 'is not the value of the vertex')
    if n == 'd':
        lg = layout(m, 'lgv_d')
        for name in ('gvl', 'gvlc'): value_of(c, m, lay, name, lambda h: mk_gep(A(0), lg, []), 'values', 'is not the graph value')


def positions(c, m, lay, name):
    """positions among all edges are equal when vertex and edge are (an edge is met once from each end)"""
    fn = m.entry(name + '_' + lay.n); c.saw('functions'); n = set(); R = 'comparing edge iterators'
    for p in forked(paths(fn)):
        h = Heap(lay, p)
        if h.absurd(): continue
        def truth_(r, pol=True):
            if r is None: return None
            if r[0] == 'not': return truth_(r[1], not pol)
            if r[0] == 'c': return (r[1] != 0) == pol
            if r[:2] == ('op', 'and') and len(r) == 4 or r[:2] == ('op', 'or') and len(r) == 4: return None
            return (r, pol)
        t = truth_(h.ret)
        for val in ((t,) if not isinstance(t, tuple) else (True, False)):
            g = h
            if isinstance(t, tuple):
                g = Heap(lay, p, assume=[(t[0], t[1] == val)])
                if g.absurd(): continue
            e, u = g.eq(A(2), A(4)), g.eq(A(1), A(3))
            if u is None: u = g.eq(g.vcell(A(1)), g.vcell(A(3)))
            eq = val is not None and (val == (name == 'geq'))
            n.add(eq)
            c.need(val is not None and (e is True and u is True if eq else e is False or u is False), R, p, 'positions are not compared by vertex and edge', name)
    c.need(n == {True, False}, R, fn, 'positions are not compared', name)


def cells_eq(h): return False


def desc_edge(h):
    """the edge a descriptor argument holds"""
    r = h.ret
    while r is not None and r[0] == 'fld' and r[1][0] != 'a': r = r[1]
    return r if r is not None and r[0] == 'rd' and base_of(r[1]) == A(2) else ('undef',)


def boolean_(c, m, lay, name):
    fn = m.entry(name + '_' + lay.n); c.saw('functions')
    for p in paths(fn):
        h = Heap(lay, p); x = h.rd(A(0), lay.count); r = h.ret
        ok = r in (('cmp', 'lt', Z, x), ('not', ('cmp', 'eq', Z, x)), ('not', ('cmp', 'eq', x, Z))) or r in (C(0), C(1)) and (h.eq(Z, x) is (r == C(0)))
        if not ok and r in (C(0), C(1)): ok = any(l == ('cmp', 'lt', Z, x) and pol == (r == C(1)) for l, pol in h.lit)
        c.need(ok and not h.H, 'counts', p, 'does not tell whether there are edges', name)


def is_size(c, m, lay, name, g):
    fn = m.entry(name + '_' + lay.n); c.saw('functions')
    for p in paths(fn):
        h = Heap(lay, p)
        c.need(h.ret is not None and size_is(h.ret, g), 'counts', p, 'is not the number of vertices', name)


def finds(c, m, lay, name, g):
    """the vertex with the id, or the end when there is none"""
    fn = m.entry(name + '_' + lay.n); c.saw('functions'); n = 0; u = A(1)

    for p in forked(paths(fn)):
        h = Heap(lay, p)
        if h.absurd(): continue
        n += 1; r = h.ret; lt = below(h, u, g)
        isend = r is not None and (size_is(r, g) or r == ('op', 'sdiv', ('op', 'sub', ('end', g), ('begin', g)), C(lay.stride)))
        c.need(lt in (True, 'le') and r == u or lt is False and isend, 'finding a vertex', p, 'does not return the vertex with the id, or the end if there is none', name)
    c.need(n >= 2, 'finding a vertex', fn, 'does not distinguish ids without a vertex', name)


def query_rules(c, m):
    """C09"""
    m.keep_delete = True; m.path_cap = 40000; jobs = []
    for n in 'dnv':
        lay = Lay(m, n)
        if not c.need(lay.known(), 'layout', m.entry('lm_' + n), 'the members of an edge or vertex cannot be located', n): continue
        jobs += [lambda c, lay=lay: all_edges(c, m, lay, 'gi', 'v_g_' + lay.n), lambda c, lay=lay: all_edges(c, m, lay, 'gic', 'v_g_' + lay.n), lambda c, lay=lay: all_edges(c, m, lay, 'gip', 'v_g_' + lay.n), lambda c, lay=lay: all_edges(c, m, lay, 'gipc', 'v_g_' + lay.n), lambda c, lay=lay, n=n: queries(c, m, lay, n)]
    parallel(c, jobs)


def graph_erase(c, m):
    m.keep_delete = True; m.path_cap = 40000
    for n in 'dnv':
        lay = Lay(m, n)
        if not c.need(lay.known(), 'layout', m.entry('lm_' + n), 'the members of an edge or vertex cannot be located', n): continue
        erase_graph(c, m, lay)

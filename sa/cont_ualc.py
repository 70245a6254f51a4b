"""Rules for undirected_adjacency_list: construction, copying, moving, swapping, destruction.

Creation of an edge and clear() are judged separately (C07) and kept as calls here.  Copies, moves, assignments and swaps
are replayed on the ownership state of the graphs involved: which vertices (with their edges) each holds, the edge count
and the graph value."""
from lib import *
from ir import mk_gep, base_of
from alg_mst import listmax
from order import Facts, leaves, off
from cont_csr import layout
from cont_dyn import retq
from cont_ual import Lay, Heap, Z, paths, entering, edge_absurd_u, size_is, is_erase_loop, sub_
import re, copy

BASE = 'graph::container::base_undirected_adjacency_list::'
MAKE, CLEAR = BASE + 'create_edge', BASE + 'clear'


def is_(e, name): return e.kind in ('op', 'call') and e.name == name


class Quiet:
    """judges without reporting"""
    def __init__(s): s.bad = False
    def need(s, ok, *a):
        if not ok: s.bad = True
        return bool(ok)
    def saw(s, *a): pass


def rvalue(e): return bool(re.search(r'(C[12]|aS)EO', e.inst.callee or ''))


def visits(it, g):
    """the vertex cell of an iteration over all vertices of g, or None"""
    if not it or it.early: return None
    if it.kind == 'range' and it.over == g: return it.var
    if it.kind in ('index', 'count') and (it.kind == 'index' and it.over == g or key(it.init) == Z and size_is(it.bound, g)): return ('cell', g, it.var, 0)
    return None


def drops_edges(fn, L, lay, g):
    """the loop erases every edge of every vertex of g"""
    if len(L.children) != 1: return False
    v = visits(iterations(fn, L), g)
    if v is None: return False
    for p in iterations(fn, L).body:
        if len([e for e in p.items if e.kind == 'loop']) != 1 or [e for e in p.items if e.kind in ('write', 'call', 'throw')]: return False
    q = Quiet(); old = Heap.root
    try: Heap.root = g[1] if g[0] == 'fld' else g; is_erase_loop(q, fn, L.children[0], '', lay, v)
    finally: Heap.root = old
    return not q.bad


def copies_vertices(c, fn, L, lay, dst, src, R, inst):
    """each vertex of src gives one new vertex of dst with its value and no edges"""
    it = iterations(fn, L); v = visits(it, src)
    if not c.need(v is not None, R, fn, 'the vertices are not all copied', inst): return
    for p in it.body:
        es = [e for e in p.items if e.kind in ('write', 'call', 'throw', 'loop') and base_obj(e) or e.kind == 'op' and not is_pure_op(e)]
        ok = len(es) == 1 and es[0].kind == 'op' and opm(es[0]) in ('push_back', 'emplace_back') and es[0].args[0] == dst
        if not c.need(ok, R, es[-1] if es else p, 'a vertex is not copied to exactly one new vertex', inst): continue
        want = [('rd', key(mk_gep(v, lay.vval, [])))] if lay.vval is not None else []
        c.need([key(x) for x in es[0].args[1:] if x != Z] == want, R, es[0], 'the new vertex does not have the value of the copied one and no edges', inst)


def base_obj(e):
    from ir import base_of
    return e.kind not in ('write', 'call') or not e.args or base_of(e.args[0])[0] != 'obj' or e.kind == 'call'


def args_of_make(e): return list(e.args[1:])


def copies_edges(c, fn, L, lay, dst, src, R, inst):
    it = iterations(fn, L); v = visits(it, src)
    if not c.need(v is not None and len(L.children) == 1, R, fn, 'the edges of some vertices are not copied', inst): return
    M = L.children[0]; uids = set(); X = None
    for p in it.body:
        h = Heap(lay, p); ls = [e for e in p.items if e.kind == 'loop']; es = [e for e in p.items if e.kind in ('write', 'call', 'throw')]
        V = h.cn(v); hd = h.rd(V, lay.head)
        if not ls and h.eq(Z, hd): continue
        if not c.need(len(ls) == 1 and ls[0].loop is M and not es, R, es[0] if es else p, 'the edges of a vertex are not copied', inst): return
        st = entering(fn, M, p, h); xs = [k for k, x in st.items() if x == h.n(hd)]
        if not c.need(len(xs) == 1, R, p, 'does not start at the first edge of the vertex', inst): return
        X = ('phi', xs[0])
    if X is None: return
    uid = v[2] if v[0] == 'cell' else ('op', 'sdiv', ('op', 'sub', v, ('begin', src)), C(lay.stride))
    k = 0; kinds = set()
    for p in paths(fn, M):
        alias = {('phi', pid): uid for pid, init, back in header_phis(fn, M) if ('phi', pid) != X and len(init) == 1 and key(init[0]) == key(uid)}
        h = Heap(lay, p, X, uid, alias)
        if edge_absurd_u(h, None): continue
        made = [x for x in p.items if is_(x, MAKE)]; other = [x for x in p.items if x not in made and (x.kind in ('throw', 'write', 'loop') or x.kind == 'call' and not x.name.startswith('llvm.') or x.kind == 'op' and not is_pure_op(x))]
        if p.end[0] == 'exit': c.need(h.eq(Z, X) is True and not made, R, p, 'stops before the end of a vertex\'s list', inst); continue
        if not c.need(h.eq(Z, X) is False, R, p, 'copies an edge without checking for the end', inst): continue
        k += 1; s = h.side(X, h.n(uid))
        if not c.need(s is not None, R, p, 'does not check which end of the edge the vertex is', inst): continue
        nx = h.n(h.cn(p.end[2].get(X[1], X)))
        c.need(nx == h.rd(X, lay.next[s]) and not other, R, p, 'goes on with %s, not with the next edge of the vertex\'s list' % pp(nx)[:60], inst)
        kinds.add((s, h.loop_(), len(made)))
        for e in made:
            got = [h.n(h.cn(a)) for a in args_of_make(e)]
            want = [dst, h.rd(X, lay.id['i']), h.rd(X, lay.id['o'])] + ([h.rd(X, lay.val)] if lay.val is not None else [])
            c.need(got == [h.n(x) for x in want], R, e, 'an edge is copied as (%s)' % ', '.join(pp(x)[:30] for x in got), inst)
    ok = all((n == 1) == (s == 'i') and n < 2 for s, l, n in kinds) or all(n == (1 if s == 'o' or l else 0) and not (s == 'i' and l is None) for s, l, n in kinds)
    c.saw('paths', k); c.need(ok and k >= 2, R, fn, 'an edge is not copied exactly once', inst)


class State:
    """which vertices, edge count and graph value each graph of a path holds"""

    def __init__(s, c, fn, p, lay, gv, R, inst, fresh=()):
        s.c = c; s.fn = fn; s.p = p; s.lay = lay; s.gv = gv; s.R = R; s.inst = inst
        s.V = {}; s.N = {}; s.G = {}; s.seen = {}; s.lost = []
        for x in fresh: s.V[x] = None; s.N[x] = None; s.G[x] = None
        s.ok = True
        for e in p.items:
            if not s.step(e): s.ok = False; break

    def obj(s, a):
        """the graph an address lies in, with the offset"""
        b, n = (a[1], a[2]) if a[0] == 'fld' and isinstance(a[2], int) else (a, 0)
        return b, n

    def v(s, x): return s.V.setdefault(x, ('vertices', x))
    def n(s, x): return s.N.setdefault(x, ('count', x))
    def g(s, x): return s.G.setdefault(x, ('value', x))

    def token(s, e):
        if e[0] == 'rd': return s.seen.get(e[1:] if len(e) > 2 else e, None)
        return e

    def graphs(s, a):
        b, n = s.obj(a)
        return b if n == s.lay.g else None

    def step(s, e):
        L = s.lay; need = s.c.need
        if e.kind == 'read':
            v = e.val
            if isinstance(v, tuple) and v[0] == 'rd':
                b, n = s.obj(v[1])
                if n == L.count: s.seen[v[1:]] = s.n(b)
                elif s.gv is not None and n == s.gv: s.seen[v[1:]] = s.g(b)
            return True
        if e.kind == 'write':
            b, n = s.obj(e.args[0])
            if n == L.count: s.N[b] = s.token(e.args[1])
            elif s.gv is not None and n == s.gv: s.G[b] = s.token(e.args[1])
            return True
        if e.kind == 'call' and e.name.startswith('llvm.memset'):
            b, n = s.obj(e.args[0])
            if n == L.g and e.args[1] == Z: s.N[b] = Z
            return True
        if is_(e, CLEAR):
            x = s.graphs(e.args[0])
            s.V[x] = 'empty'; s.N[x] = Z; return True
        if e.kind == 'loop':
            for x in list(s.V) + [A(0)]:
                if drops_edges(s.fn, e.loop, L, mk_gep(x, L.g, [])): s.V[x] = 'empty'; s.N[x] = Z; return True
            return s.loop(e)
        if e.kind == 'cond':
            k = e.args[0]
            for x in set(s.V) | {A(0)}:      # no vertices, or no edges: nothing to free
                if retq(k, ('empty',), mk_gep(x, L.g, [])) and e.pol and s.v(x) not in ('new vertices',): s.V[x] = 'empty'
                if k[:2] == ('cmp', 'eq') and e.pol and Z in k[2:] and any(y[0] == 'rd' and s.obj(y[1]) == (x, L.count) for y in k[2:]) and s.v(x) == ('vertices', x) and s.n(x) == ('count', x): s.V[x] = 'empty'
            return True
        if e.kind == 'op' and is_pure_op(e) or e.kind in ('ret', 'throw'): return True
        if e.kind == 'op':
            m = opm(e); x = s.graphs(e.args[0]); args = [a for a in e.args[1:]]
            o = s.graphs(args[0]) if len(args) >= 1 and args[0][0] in ('a', 'obj', 'fld') else None
            if m in ('reserve', 'get_allocator', '~vector', 'shrink_to_fit'): return True
            if m == 'vector' and o is None: s.V[x] = 'empty'; return True
            if m in ('vector', 'operator=') and o is not None:
                if not need(rvalue(e), s.R, e, 'the edges would be shared by two graphs', s.inst): return False
                if m == 'operator=': s.drop(x, e)
                s.V[x] = s.v(o); s.V[o] = 'empty'; return True
            if m == 'swap' and o is not None:
                s.V[x], s.V[o] = s.v(o), s.v(x); return True
            if m == 'clear' and s.V.get(x) == 'empty': return True
            if m == 'resize' and s.loop(e): return True
        if e.kind == 'call' and e.name.startswith('llvm.'): return True
        return need(False, s.R, e, 'unexpected effect', s.inst)

    def drop(s, x, e):
        if s.v(x) not in ('empty', None): s.c.need(False, s.R, e, 'vertices are replaced while they still own edges, which are never freed', s.inst)

    def loop(s, e):
        """copying: first the vertices, then the edges"""
        d = next((x for x in s.V if s.V[x] == 'empty' and x != A(1)), None)
        g = lambda x: mk_gep(x, s.lay.g, [])
        if e.kind == 'op':
            if s.lay.vval is None and e.args[0] in [g(x) for x in s.V] and len(e.args) >= 2 and size_is(e.args[1], g(A(1))):
                s.V[s.graphs(e.args[0])] = 'new vertices'; return True
            return False
        if d is not None:
            copies_vertices(s.c, s.fn, e.loop, s.lay, g(d), g(A(1)), s.R, s.inst); s.V[d] = 'new vertices'; return True
        d = next((x for x in s.V if s.V[x] == 'new vertices'), None)
        if d is not None:
            copies_edges(s.c, s.fn, e.loop, s.lay, d, g(A(1)), s.R, s.inst)
            s.c.need(s.N.get(d) == Z, s.R, e, 'a copy does not start to count at zero', s.inst)
            s.V[d] = ('copy', s.v(A(1))); s.N[d] = ('copy', s.n(A(1))); return True
        return s.c.need(False, s.R, e, 'unexpected loop', s.inst)


def same(p): return eq_pol(p, A(0), A(1)) is True


def transfers(c, m, lay, gv):
    """copy, move, swap, destruction"""
    spec = {'cpy': ('copying', 'copy construction', True), 'cas': ('copying', 'copy assignment', False), 'mov': ('moving', 'move construction', True),
            'mas': ('moving', 'move assignment', False), 'swp': ('swapping', 'swap', False), 'dtr': ('destruction frees every edge', 'destructor', False)}
    g0, g1 = A(0), A(1); own = lambda x: (('vertices', x), ('count', x), ('value', x)); empty = ('empty', Z)
    for k, (R, inst, new) in spec.items():
        fn = m.entry('%s_%s' % (k, lay.n)); inst += ' ' + lay.n; c.saw('functions'); n = 0
        for p in paths(fn):
            if same(p) and not new:
                es = [e for e in p.items if e.kind in ('call', 'throw', 'loop') or e.kind == 'op' and not is_pure_op(e)]
                c.need(not es or k == 'swp', R, es[0] if es else p, 'assigning a graph to itself changes it', inst); continue
            if Facts(p).absurd(): continue
            n += 1; c.saw('paths')
            s = State(c, fn, p, lay, gv, R, inst, [g0] if new else [])
            if not s.ok: continue
            a = (s.v(g0), s.n(g0), s.g(g0)); b = (s.v(g1), s.n(g1), s.g(g1))
            if k in ('cpy', 'cas'):
                want = (('copy', ('vertices', g1)), ('copy', ('count', g1)), ('value', g1))
                c.need(a[:2] == want[:2], R, p, 'the target does not become a copy of the source', inst)
                c.need(b == own(g1), R, p, 'the source is changed', inst)
            elif k in ('mov', 'mas'):
                c.need(a[:2] == own(g1)[:2], R, p, 'the target does not take over the vertices, edges and edge count of the source', inst)
                c.need(b[:2] == empty or b[:2] == own(g0)[:2] and k == 'mas', R, p, 'the source is left with %s' % ('a wrong edge count' if b[0] == 'empty' else 'vertices that belong to the target'), inst)
            elif k == 'swp':
                c.need(a == own(g1) and b == own(g0) if gv is not None else a[:2] == own(g1)[:2] and b[:2] == own(g0)[:2], R, p, 'something is not exchanged', inst)
            elif k == 'dtr':
                c.need(a[0] == 'empty', R, p, 'edges are left', inst)
            if gv is not None and k in ('cpy', 'cas', 'mov', 'mas'): c.need(a[2] == ('value', g1), R, p, 'the graph value is not taken over', inst)
            for x in s.V:       # temporaries
                if x not in (g0, g1) and x[0] == 'obj': c.need(s.V[x] in ('empty', None), R, p, 'a temporary graph keeps edges that are never freed', inst)
        c.need(n >= 1, R, fn, 'has no effect', inst)


def fresh(c, fn, p, lay, R, inst):
    """the graph starts without edges: the count is zero before the first edge is made and not written afterwards"""
    cnt = mk_gep(A(0), lay.count, []); ok = False; made = False
    for e in p.items:
        if is_(e, MAKE) or e.kind == 'loop': made = True
        if e.kind == 'write' and key(e.args[0]) == key(cnt):
            if made or e.args[1] != Z: ok = False; break
            ok = True
        if e.kind == 'call' and e.name.startswith('llvm.memset') and e.args[0] == A(0) and e.args[1] == Z: ok = True
    c.need(ok, 'a new graph starts without edges', p, 'the edge count does not start at zero', inst)


def empty_facts(p, x, ends):
    """what the path knows about a range being empty"""
    b, e = ends
    for i in p.items:
        if i.kind != 'cond': continue
        k = i.args[0]
        if retq(k, ('empty',), x): yield i.pol
        elif k[0] == 'cmp' and k[1] == 'eq':
            o = [key(y) for y in k[2:]]
            if sorted(o, key=repr) == sorted([key(b), key(e)], key=repr): yield i.pol
            elif Z in o and any(size_of_rng(y, x, ends) for y in k[2:]): yield i.pol
        elif k[0] == 'cmp' and k[1] == 'lt':
            if k[2] == Z and size_of_rng(k[3], x, ends): yield not i.pol
            if k[3] == C(1) and size_of_rng(k[2], x, ends): yield i.pol


def empty_fact(p, x, ends):
    r = None
    for r in empty_facts(p, x, ends): pass
    return r


def size_of_rng(y, x, ends):
    if x[0] == 'il': return key(y) == key(x[2])
    return size_is(y, x)


class Input:
    """a vector argument or an initializer list"""

    def __init__(s, x, n=None, el=None):
        s.x = x
        if n is None: s.id = x; s.ends = (('begin', x), ('end', x))
        else:
            b = ('rd', x); sz = ('rd', mk_gep(x, n, [])); s.id = ('il', b, sz); s.ends = (b, ('el', b, sz, el, 0))

    def over(s, it):
        if not it: return None
        if s.id[0] != 'il':
            if it.kind == 'range' and it.over == s.x: return it.var
            if it.kind in ('index', 'count') and (it.kind == 'index' and it.over == s.x or key(it.init) == Z and size_is(it.bound, s.x)): return ('cell', s.x, it.var, 0)
            return None
        if key(it.init) == key(s.ends[0]) and key(it.bound) == key(s.ends[1]): return it.var
        return None

    def empty(s, p): return empty_fact(p, s.id, s.ends)
    def torn(s, p): return len(set(empty_facts(p, s.id, s.ends))) == 2


def builds(c, fn, lay, edges, verts, ends, vals, gv, order, inst, R='a graph is built from what it is given'):
    """edges: Input; verts: Input or None; ends(u): source id, target id, value addresses; vals(v): value address"""
    g = mk_gep(A(0), lay.g, []); c.saw('functions'); k = 0; judged = {}
    for p in paths(fn):
        f = Facts(p, norm=key)
        if f.absurd() or edges.torn(p) or verts and verts.torn(p) or isinstance(verts, NoVerts) and verts.absurd(p): continue
        k += 1; c.saw('paths'); fresh(c, fn, p, lay, R, inst)
        ee = edges.empty(p); ve = verts.empty(p) if verts else True
        ev = []                                   # maxima, vertices, resize, edges
        bad = False
        for e in p.items:
            if e.kind == 'loop':
                kind = judged.get(e.loop.header)
                if kind is None: kind = judged[e.loop.header] = what_loop(c, fn, e.loop, lay, edges, verts, ends, vals, g, order, R, inst)
                ev.append((kind, e))
                if kind is None: bad = True
            elif is_(e, MAKE) or is_(e, CLEAR): ev.append((last(e.name), e))
            elif e.kind == 'op' and not is_pure_op(e) and e.args[0] == g and opm(e) not in ('reserve', 'vector', '~vector'): ev.append((opm(e), e))
            elif e.kind == 'cond' and e.args[0][:2] == ('cmp', 'lt') and not e.pol and size_is(e.args[0][2], g):      # large enough already
                x = copy.copy(e); x.args = [g, e.args[0][3]]; ev.append(('resize', x))
        if bad or enough(ev, lay): continue
        names = [a for a, e in ev]
        ids = any(a == 'max' for a in names)
        if p.end[0] == 'throw':
            c.need(order and names[-1:] == ['edges'], R, p, 'construction is rejected although the edges are in order', inst); continue
        if order and any(a == 'edges' and judged.get(('early', e.loop.header)) and e.exit not in normal_exits(fn, e.loop) for a, e in ev): c.need(False, R, p, 'edges out of order do not end the construction', inst); continue
        need_e, need_v = ee is not True, verts is not None and lay.vval is not None and ve is not True
        want = (['max'] if need_e else []) + (['vertices'] if need_v else []) + ['resize'] + (['edges'] if need_e else [])
        if ee is True and (ve is True or verts is None):
            c.need(not [a for a in names if a not in ('max', 'vertices', 'edges', 'clear')], 'an empty input gives an empty graph', p, 'vertices are made although none is named', inst); continue
        rest = [a for a in names if not (a in ('max', 'edges') and ee is True or a == 'vertices' and (ve is True or lay.vval is None))]
        if 'resize' not in rest and ee is True and lay.vval is not None: want.remove('resize')
        if not c.need(rest == want, R, p, 'does %s instead of %s' % (rest, want), inst): continue
        if 'resize' not in rest: continue
        rz = next(e for a, e in ev if a == 'resize')
        size_ok(c, fn, p, f, rz, edges, verts, ee, ve, judged, ev, R, inst)
    if gv is not None: pass
    c.need(k >= 1, R, fn, 'no path builds a graph', inst)


def enough(ev, lay):
    """no vertex was made yet, but there are said to be enough"""
    k = next((i for i, (a, e) in enumerate(ev) if a == 'resize' and e.kind == 'cond'), None)
    return k is not None and not any(a == 'vertices' for a, e in ev[:k])


def normal_exits(fn, L): return {p.end[1] for p in (iterations(fn, L).done or [])} if iterations(fn, L) else set()


def what_loop(c, fn, L, lay, edges, verts, ends, vals, g, order, R, inst):
    it = iterations(fn, L)
    P = paths(fn, L)
    made = [e for p in P for e in p.items if is_(e, MAKE)]
    push = [e for p in P for e in p.items if e.kind == 'op' and opm(e) in ('push_back', 'emplace_back')]
    if made:
        u = edges.over(it)
        if not c.need(u is not None and (not it.early or order), R, fn, 'not every edge is loaded', inst): return None
        src, tgt, val = ends(u); prev = None
        if order:
            for pid, init, _ in header_phis(fn, L):
                if ('phi', pid) == u: continue
                if all(key(i) in (key(ends(edges.ends[0])[0]), Z, C(-2 ** 31)) for i in init) and all(key(p.end[2].get(pid, ('phi', pid))) == key(src) for p in P if p.end[0] == 'back'): prev = ('phi', pid)
            if not c.need(prev is not None, 'edges out of order are rejected', fn, 'the source ids are not compared with the previous one', inst): return None
        for p in P:
            f = Facts(p, norm=key); mk = [e for e in p.items if is_(e, MAKE)]
            es = [e for e in p.items if e.kind == 'throw' or e.kind == 'op' and not is_pure_op(e) and e not in mk]
            if p.end[0] == 'back':
                want = [A(0), src, tgt] + ([val] if val is not None else [])
                c.need(len(mk) == 1 and [key(x) for x in mk[0].args[1:]] == [key(x) for x in want] and not es, R, (mk or es or [p])[0], 'an edge is not created once with its own ends and value', inst)
                if order: c.need(lt_pol(p, key_(src), prev) is False or f.ge(src, prev), 'edges out of order are rejected', p, 'an edge is accepted without comparing its source with the previous one', inst)
            elif order and (p in it.early or p.end[0] == 'throw'):
                c.need(f.ge(prev, src, 1) and not mk, 'edges in order are accepted', p, 'an edge in order is rejected', inst)
        return 'edges'
    if push:
        if not c.need(verts is not None, R, fn, 'vertices are made that were not given', inst): return None
        v = verts.over(it)
        if not c.need(v is not None and not it.early, R, fn, 'not every vertex is loaded', inst): return None
        for p in it.body:
            es = [e for e in p.items if e.kind == 'throw' or e.kind == 'op' and not is_pure_op(e)]
            want = [('rd', key(vals(v)))] if vals else []
            c.need(len(es) == 1 and es[0].args[0] == g and [key(x) for x in es[0].args[1:] if x != Z] == want, R, es[0] if es else p, 'a vertex is not made once with its own value', inst)
        return 'vertices'
    es = [e for p in P for e in p.items if e.kind in ('throw', 'call') and not (e.name or '').startswith('llvm.') or e.kind == 'op' and not is_pure_op(e) or e.kind == 'write' and base_of(e.args[0])[0] != 'obj']
    u = edges.over(it)
    if not c.need(u is not None and not it.early and not es, R, es[0] if es else fn, 'unexpected loop', inst): return None
    src, tgt, val = ends(u); best = None
    for d in (0, 1):
        for pid, init, _ in header_phis(fn, L):
            ph = ('phi', pid)
            if ph == u: continue
            bk = [(p, rewrite(p.end[2].get(pid, ph), lambda x: listmax(fn, p, x) if x[0] == 'rd' and x[1][0] == 'phi' else x)) for p in P if p.end[0] == 'back']
            if all(all(Facts(p, norm=key).ge(x, y, z) for y, z in ((ph, 0), (src, d), (tgt, d))) for p, x in bk) and \
               all(all(b == ph and n == 0 or key(b) in (key(src), key(tgt)) and n == d for b, n in leaves(x)) for p, x in bk): best = best or (ph, d)
    if not c.need(best is not None, R, fn, 'the loop does not find the largest vertex id', inst): return None
    judged_max[(id(fn), L.header)] = best
    return 'max'


judged_max = {}


def key_(x): return x


def size_ok(c, fn, p, f, rz, edges, verts, ee, ve, judged, ev, R, inst):
    """the vertex count is the largest of the number of given vertices and the ids + 1"""
    mx = [e for a, e in ev if a == 'max']; n = rz.args[1]
    form = None; init = None
    if mx:
        L = mx[-1].loop; ph, d = judged_max[(id(fn), L.header)]; form = d
        st = entering(fn, L, p, Plain); init = st.get(ph[1])
    got = list(leaves(n))
    def from_verts(b, k):
        if verts is None: return False
        return size_is(b, verts.x) and k == 0
    if mx and ee is not True:
        ok = all(b == ph and k == (1 if form == 0 else 0) for b, k in got)
        if not c.need(ok, 'the graph has the vertices named', rz, 'the number of vertices is not the largest id + 1', inst): return
        want = list(leaves(init)) if init is not None else []
        if verts is None or ve is True: ok = all(b == Z and k == 0 or b[0] == 'c' and b[1] + k == 0 for b, k in want)
        elif ve is False: ok = all(size_is(b, verts.x) and k == (-1 if form == 0 else 0) for b, k in want)
        else: ok = form == 1 and all(size_is(b, verts.x) and k == 0 for b, k in want)
        c.need(bool(want) and ok, 'the graph has the vertices named', rz, 'the largest id is looked for from %s on' % (init and pp(init)), inst)
        if form == 0: c.need(ee is False or ve is False, 'an empty input gives an empty graph', rz, 'a vertex is made although none may be named', inst)
    else:
        def given(b, k):
            if b[0] == 'phi' and mx:      # the search found no edge
                return b == ph and k == (1 if form == 0 else 0) and all(size_is(x, verts.x) and j == (-1 if form == 0 else 0) for x, j in leaves(init))
            return size_is(b, verts.x) and k == 0
        c.need(verts is not None and all(given(b, k) for b, k in got), 'the graph has the vertices named', rz, 'the number of vertices is not the number given', inst)


class Plain:
    @staticmethod
    def n(x): return x
    @staticmethod
    def cn(x): return x


def constructors(c, m, lay, gv):
    n = lay.n
    rs, rt = layout(m, 'lrs_' + n), layout(m, 'lrt_' + n)
    rv = layout(m, 'lrv_' + n) if n != 'v' else None
    rw = layout(m, 'lrw_' + n) if n != 'v' else None
    at = lambda u, o: ('rd', mk_gep(u, o, []))
    ends = lambda u: (at(u, rs), at(u, rt), None if rv is None else at(u, rv))
    vals = None if rw is None else (lambda v: mk_gep(v, rw, []))
    g = mk_gep(A(0), lay.g, [])
    builds(c, m.entry('ev_' + n), lay, Input(A(1)), Input(A(2)), ends, vals, gv, True, 'constructor (edges, vertices) ' + n)
    eo = m.entry('eo_' + n)
    builds(c, eo, lay, Input(A(1)), NoVerts(eo), ends, vals, gv, True, 'constructor (edges) ' + n)
    for k, el in (('il3', 3), ('il2', 2)):
        if k == 'il3' and n == 'v': continue
        names = ('lta_', 'ltb_', 'ltc_') if k == 'il3' else ('lua_', 'lub_')
        o = [layout(m, x + n) for x in names]
        fn = m.entry('%s_%s' % (k, n))
        sz = next((x[3] for p in paths(fn) for e in p.items if e.kind == 'cond' for x in walk(e.args[0]) if x[0] == 'el'), None)
        if sz is None: sz = next((x[3] for L in fn.loops for p in paths(fn, L) for e in p.items if e.kind == 'cond' for x in walk(e.args[0]) if x[0] == 'el'), None)
        e3 = lambda u, o=o: (at(u, o[0]), at(u, o[1]), at(u, o[2]) if len(o) > 2 else None)
        builds(c, fn, lay, Input(A(1), 8, sz), None, e3, None, gv, False, 'constructor (list of %s) %s' % ('(source, target, value)' if k == 'il3' else '(source, target)', n))
    for k in ('def', 'alc') + (('val', 'rval') if gv is not None else ()):
        fn = m.entry('%s_%s' % (k, n)); inst = {'def': 'default constructor', 'alc': 'constructor (allocator)', 'val': 'constructor (value)', 'rval': 'constructor (moved value)'}[k] + ' ' + n; c.saw('functions')
        for p in paths(fn):
            c.saw('paths'); fresh(c, fn, p, lay, '', inst)
            es = [e for e in p.items if e.kind in ('throw', 'loop') or e.kind == 'call' and not e.name.startswith('llvm.') or e.kind == 'op' and not is_pure_op(e) and opm(e) not in ('vector', 'reserve')]
            c.need(not es, 'an empty input gives an empty graph', es[0] if es else p, 'something is made', inst)
    if gv is not None:
        at_ = {'ev': 3, 'eo': 2, 'val': 1, 'rval': 1}; cell = mk_gep(A(0), gv, [])
        for k, i in at_.items():
            for p in paths(m.entry('%s_%s' % (k, n))):
                if p.end[0] != 'ret': continue
                w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(cell)]
                c.need(bool(w) and key(w[-1].args[1]) == ('rd', A(i)), 'the graph value is stored', p, 'the given graph value is not stored', '%s_%s' % (k, n))


class NoVerts(Input):
    """the range of vertices a constructor without vertices makes up (or none): an empty vector nothing is added to"""

    def __init__(s, fn):
        made = set(); used = set()
        for p in paths(fn):
            for e in p.items:
                if e.kind == 'op' and e.args and e.args[0][0] == 'obj' and not is_pure_op(e):
                    (made if opm(e) == 'vector' and len(e.args) == 1 else used if opm(e) not in ('~vector',) else set()).add(e.args[0])
        made -= used
        Input.__init__(s, made.pop() if len(made) == 1 else ('none',))

    def empty(s, p): return True
    def absurd(s, p): return Input.empty(s, p) is False


def transfer_rules(c, m):
    m.path_cap = 40000; m.keep_delete = True
    parallel(c, [lambda c, f=f, n=n: f(c, m, Lay(m, n), layout(m, 'lgv_d') if n == 'd' else None) for n in 'dnv' for f in (transfers, constructors)])

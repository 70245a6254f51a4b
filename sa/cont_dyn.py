"""Rules for dynamic_graph: loaders."""
from lib import *
from order import Facts, lits, off, leaves
from ir import mk_gep, base_of
from cont_csr import layout, size_of, empty_of, resolve, allsub, peeks, G
from sizes import renamed
from alg_mst import listmax

INSERT = PUSH | {'emplace_front'}
ASSOC = ('mov', 'uov', 'mov0', 'mom', 'uom')
BACK = {'push_back', 'emplace_back'}
FRONT = {'push_front', 'emplace_front'}
KEYED = {'insert', 'emplace'}


def effect(e):
    return e.kind in ('write', 'call', 'throw') or e.kind == 'op' and not is_pure_op(e)


def on_graph(e):
    return e.kind in ('write', 'op', 'call') and any(base_of(a) == G for a in e.args[:1])


def elem_loops(fn, src):
    """loops visiting every element of src once, in order: (loop, iteration, address of the element)"""
    for L in fn.loops:
        it = iterations(fn, L)
        if not it: continue
        if it.kind == 'range' and it.over == src: yield L, it, it.var
        elif it.kind == 'index' and it.over == src: yield L, it, ('cell', src, it.var, 0)


def fld(a, k): return ('rd', mk_gep(a, k, []))


def vcell(a):
    """a = address inside the vertex with id x: (x, offset)"""
    k = 0
    if a[0] == 'fld': a, k = a[1], a[2]
    if a[0] == 'cell' and a[1] == G: return a[2], a[3] + k
    return None


def stored(p, obj, o, ev):
    """value last written to obj+o before the event"""
    r = None
    for e in p.items[:idx(p, ev)]:
        if e.kind == 'write' and e.args[0] == mk_gep(obj, o, []): r = e.args[1]
    return r


class Spec:
    """names and layout of one instantiation"""

    def __init__(s, m, n, void, bidir, value):
        s.n = n; s.void = void; s.bidir = bidir; s.value = value
        z = '0' if void else ''
        s.s, s.t = layout(m, 'lay_s' + z), layout(m, 'lay_t' + z); s.v = None if void else layout(m, 'lay_v')
        s.et = layout(m, 'lt_' + n); s.ev = None if void else layout(m, 'le_' + n)
        s.out = layout(m, 'lo_' + n); s.inn = layout(m, 'li_' + n) if bidir else None
        s.it, s.iv = s.et, s.ev
        if n in ('vovn', 'voln'): s.it, s.iv = layout(m, 'lit_' + n), layout(m, 'liv_' + n)
        s.count = cell_of(m, 'count_' + n)
        s.assoc = n in ASSOC


def cell_of(m, name):
    fn = m.entry(name)
    for p in lpaths(fn):
        for e in p.items:
            if e.kind == 'ret' and e.args[0][0] == 'rd': return e.args[0][1]
    return None


def is_insert(p, e, o, key_, ident, value, sp, tid, val):
    """the event inserts one edge (ident, value) into the edge container at address o"""
    if e.kind != 'op' or not e.args or key(e.args[0]) != key(o): return False
    cls = e.name.split('::')[0]; op = opm(e); a = e.args[1:]
    if cls in ('list', 'vector', 'deque'): ok = op in BACK
    elif cls == 'forward_list': ok = op in FRONT
    else: ok = op in KEYED
    if not ok: return False
    if cls in ('map', 'unordered_map'):
        if len(a) != 2 or key(a[0]) not in (key(key_), key(key_[1])): return False
        a = a[1:]
    if len(a) == 1 and a[0][0] in ('obj', 'fld'):
        i = stored(p, a[0], tid, e)
        if i is None or key(i) != key(ident): return False
        if value is not None:
            v = stored(p, a[0], val, e)
            if v is None or key(v) != key(value): return False
        return True
    w = [key(ident)] + ([key(value)] if value is not None else [])
    return [key(x) for x in a] == w or [key(('rd', x)) for x in a] == w or [key(x) for x in a] == [key(ident[1])] + ([key(value[1])] if value is not None else [])


def sized_now(p): return [(a, b, 0) for a, b in p.known] + [(b, a, 0) for a, b in p.known]


def maxed(fn, it, u, w):
    """the paths of a step with std::max over initializer lists as selections, and the reference to a stored copy of the element as the element"""
    copy = lambda y: u if y[0] == 'ret' and last(y[2]) == 'emplace_back' and ([key(x) for x in y[4:]] == w or [key(x) for x in y[4:]] == [key(u)]) else y
    it.body = [q for p in it.body for q in [map_path(p, copy)] if q is not None]
    def g(p, v): return rewrite(v, lambda x: listmax(fn, p, x) if x[0] == 'rd' and x[1][0] == 'phi' else x)
    for p in it.body:
        if p.end[0] == 'back' and inner_loops(p): p.end = (p.end[0], p.end[1], {k: g(p, v) for k, v in p.end[2].items()})
    return it


def load(c, m, sp):
    fn = m.entry('load_' + sp.n); inst = 'load_edges into ' + sp.n; c.saw('functions')
    src, hint = A(1), A(2)
    P = [q for p in lpaths(fn) if p.end[0] != 'unreach' for q in [renamed(fn, p, G)] if q is not None and not Facts(q).absurd()]; c.saw('paths', len(P))
    # copies of the input
    copies = {}
    for L, it, u in elem_loops(fn, src):
        for p in it.body:
            for e in p.items:
                if is_push(e) and e.args[0][0] == 'obj': copies.setdefault(e.args[0], (L, it, u))
    srcs = {src: None}
    for o, (L, it, u) in copies.items():
        w = [key(fld(u, sp.s)), key(fld(u, sp.t))] + ([] if sp.void else [key(fld(u, sp.v))])
        good = not it.early
        for p in it.body:
            es = [e for e in p.items if effect(e) and (e.kind in ('op', 'call') and e.args and e.args[0] == o or on_graph(e) or e.kind == 'throw')]
            good &= len(es) == 1 and opm(es[0]) in BACK and ([key(x) for x in es[0].args[1:]] == w or [key(x) for x in es[0].args[1:]] == [key(u)])
            c.need(good, 'every edge is loaded once', p, 'the working copy of the edges is not one entry per edge, in order', inst)
        if good: srcs[o] = (L, it)
    ins = []
    for s_ in srcs:
        for L, it, u in elem_loops(fn, s_):
            if any(e.kind == 'op' and opm(e) in INSERT and vcell(e.args[0]) for p in it.body for e in p.items): ins.append((L, it, u, s_))
    if not c.need(bool(ins), 'every edge is loaded once', fn, 'no loop inserts each input edge', inst): return
    # maxima over all ids
    inv = []; extra = {}
    for s_ in srcs:
        for L, it, u in elem_loops(fn, s_):
            if it.early: continue
            maxed(fn, it, u, [key(fld(u, sp.s)), key(fld(u, sp.t))] + ([] if sp.void else [key(fld(u, sp.v))]))
            for pid, init, _ in header_phis(fn, L):
                ph = ('phi', pid); bk = [p for p in it.body if p.end[0] == 'back']
                if ph == it.var or len(init) != 1: continue
                if not all(Facts(p, norm=key).ge(p.end[2].get(pid, ph), ph) for p in bk): continue
                top = [key(fld(u, sp.s)), key(fld(u, sp.t))]
                d = max([k for p in bk for b, k in leaves(p.end[2].get(pid, ph)) if key(b) in top and k in (0, 1)], default=0)      # 0: the largest id; 1: the number of vertices needed
                inv.append((ph, init[0], 0)); extra[ph] = d
                for w in ('s', 't'):
                    x = fld(u, getattr(sp, w))
                    if all(Facts(p, norm=key).ge(p.end[2].get(pid, ph), x, d) for p in bk): inv.append((ph, ('each', w), d))
                for p in bk:
                    for b, k in leaves(p.end[2].get(pid, ph)):
                        c.need(b == ph and k <= 0 or key(b) in top and k <= d, 'no vertex is invented', it.where(), 'a maximum is taken over something other than the ids read', inst)
    fact = {}
    late = {L.header for L, it, u, s_ in ins if not any(e.kind == 'write' and key(e.args[0]) == key(sp.count) for p in it.body for e in p.items)}      # counted at the end
    for p in P:
        f = Facts(p, resolve(inv, p) + sized_now(p)); at = 0; n = 0; grown = []
        le = [e for e in p.items if e.kind == 'loop']
        for e in p.items:
            if e.kind == 'loop':
                for L, it, u, s_ in ins:
                    if e.loop is L:
                        n += 1
                        have = grown[-1:] + [x for y in p.items[at:idx(p, e)] for x in allsub(y) if size_of(x, G)]
                        fact.setdefault(L.header, []).append({w: any(f.ge(x, ('each', w), 1) for x in have) or any(cond_pol(p, lambda y, z=z: empty_of(y, z)) is True for z in srcs) for w in 'st'})
                        if p.end[0] == 'ret': c.need(natural(it, e), 'every edge is loaded once', p, 'reading the edges stops early', inst)
                        c.need(sp.assoc or f.ge(hint, C(1)) or all(fact[L.header][-1].values()), 'without a requested count, every vertex an edge names is added', p, 'the vertices can be too few for the edges although no vertex count was requested', inst)
                        if srcs[s_]:
                            k = [x for x in p.items[:idx(p, e)] if x.kind == 'loop' and x.loop is srcs[s_][0]]
                            c.need(len(k) == 1 and natural(srcs[s_][1], k[0]), 'every edge is loaded once', p, 'the working copy of the edges is not filled exactly once', inst)
            elif e.kind == 'op' and e.args and e.args[0] == G and not is_pure_op(e) and opm(e) != 'reserve':
                ok = c.need(opm(e) == 'resize' and not sp.assoc, 'loading edges only adds', e, 'the vertices are changed by something other than growing', inst)
                if ok:
                    n1 = e.args[1]
                    c.need(any(f.ge(n1, x) for x in peeks(p, G)), 'loading edges only adds', e, 'existing vertices can be dropped', inst)
                    top = {x[0] for x in inv}
                    c.need(all(b == hint and k <= 0 or size_of(b, G) and k <= 0 or (b in top and k <= 1 - extra.get(b, 0)) for b, k in leaves(n1)), 'no vertex is invented', e, 'the vertex count can exceed what the input names', inst)
                    grown.append(n1); at = idx(p, e) + 1
            elif any(x.loop.header in late for x in le) and e.kind == 'write' and key(e.args[0]) == key(sp.count): pass
            elif effect(e) and on_graph(e) and not (e.kind == 'op' and opm(e) == 'reserve'):
                c.bad('loading edges only adds', e, 'the graph is changed outside the loop over the edges: %s' % e, inst)
            elif e.kind == 'op' and opm(e) in ('clear', 'pop_back', 'erase', 'resize', 'assign') and e.args[0] in srcs:
                c.bad('every edge is loaded once', e, 'the working copy of the edges is changed', inst)
        if p.end[0] == 'ret' and any(x.loop.header in late for x in le):
            w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(sp.count)]
            c.need(not n or len(w) == 1 and w[0].args[1][0] == 'op' and w[0].args[1][1] == 'add' and any(key(a) == key(('rd', sp.count)) and any(size_of(b, z) for z in srcs) for a, b in (w[0].args[1][2:], w[0].args[1][:1:-1])), 'the edge count is the number of edges loaded', w[0] if w else p, 'the edge count does not grow by the number of edges', inst)
        if p.end[0] == 'ret':
            em = [cond_pol(p, lambda x, s_=s_: empty_of(x, s_)) for s_ in srcs]
            c.need(n == 1 or n == 0 and True in em, 'every edge is loaded once', p, 'the edges are inserted %d times on a path' % n, inst)
            # the requested count
            if not sp.assoc:
                sz = [x for x in peeks(p, G)]
                c.need(any(f.ge(x, hint) for x in grown + sz), 'a requested vertex count is honoured', p, 'fewer vertices than requested', inst)
    # other loops: nothing but reserving and local bookkeeping
    il = [x[0] for x in ins]
    for L in fn.loops:
        if L in il: continue
        for p in lpaths(fn, L):
            for e in p.items:
                if effect(e) and on_graph(e) and not (e.kind == 'op' and opm(e) == 'reserve' and vcell(e.args[0])):
                    c.bad('loading edges only adds', e, 'the graph is changed outside the loop over the edges: %s' % e, inst)
    # maxima start at or below the last existing vertex
    for a, b, k in inv:
        if b[0] == 'each': continue
        for p in P:
            x = resolve([(a, b, 0)], p)[0][1]
            if x[0] == 'phi': continue
            e = cond_pol(p, lambda y: empty_of(y, G))
            ok = all(z == C(0) and j <= 0 or size_of(z, G) and j <= extra[a] - 1 for z, j in leaves(x))
            c.need(ok, 'no vertex is invented', p, 'the largest id starts at %s' % (x,), inst)
    for L, it, u, s_ in ins:
        S, T, V = fld(u, sp.s), fld(u, sp.t), None if sp.void else fld(u, sp.v)
        for p in it.body:
            es = [e for e in p.items if effect(e)]
            o = ('cell', G, S, sp.out); r = ('cell', G, T, sp.inn) if sp.bidir else None
            oi = [e for e in es if e.kind == 'op' and key(e.args[0]) == key(o)]; ri = [e for e in es if r and e.kind == 'op' and key(e.args[0]) == key(r)]
            ci = [e for e in es if e.kind == 'write' and key(e.args[0]) == key(sp.count)]
            c.need(len(oi) == 1 and is_insert(p, oi[0], o, T, T, V, sp, sp.et, sp.ev), 'every edge is stored under its source with its target and value', oi[0] if oi else p, 'the edge is not inserted exactly once, in order, among the edges of its source', inst)
            if sp.bidir: c.need(len(ri) == 1 and is_insert(p, ri[0], r, S, S, V, sp, sp.it, sp.iv), 'every edge is mirrored under its target', ri[0] if ri else p, 'the edge is not inserted exactly once among the incoming edges of its target', inst)
            if L.header not in late: c.need(len(ci) == 1 and is_add(ci[0].args[1], ('rd', sp.count)) or len(ci) == 1 and any(key(ci[0].args[1]) == key(x) for x in add1(('rd', sp.count))), 'the edge count is the number of edges loaded', ci[0] if ci else p, 'the edge count does not grow by one per edge', inst)
            rest = [e for e in es if on_graph(e) and e not in oi and e not in ri and e not in ci and not (sp.assoc and opm(e) == 'try_emplace' and len(e.args) == 2 and key(e.args[1] if e.args[1][0] == 'rd' else ('rd', e.args[1])) in (key(S), key(T)))]
            c.need(not rest, 'loading edges only adds', rest[0] if rest else p, 'something else is changed while inserting an edge: %s' % (rest[:1],), inst)
            if sp.assoc:
                ix = [key(e.args[1] if e.args[1][0] == 'rd' else ('rd', e.args[1])) for e in p.items if e.kind == 'op' and opm(e) in ('operator[]', 'try_emplace') and e.args[0] == G]
                c.need(key(T) in ix, 'every target exists', p, 'the target of an edge is not added to the vertices', inst)
            else:
                f = Facts(p, norm=key)
                for x, w in ((S, 's'), (T, 't')):
                    ok = any(f.ge(y, x, 1) for y in peeks(p, G))
                    if not ok: ok = bool(fact.get(L.header)) and all(g[w] for g in fact[L.header])
                    c.need(ok, 'every target exists' if w == 't' else 'every source exists', p, 'an edge is inserted although a vertex it names may not exist', inst)
        for p in it.early:
            c.need(not [e for e in p.items if effect(e) and on_graph(e)], 'a rejected edge changes nothing', p, 'an edge is partly inserted before it is rejected', inst)
            f = Facts(p, norm=key)
            c.need(not sp.assoc and all(any(Facts(q, norm=key).ge(x, y) for x in (S, T) for y in peeks(q, G)) for q in unselected(p)), 'only edges naming missing vertices are rejected', p, 'loading stops at an edge whose vertices exist', inst)


def loadv(c, m, n, kind, lay, voff, assoc):
    fn = m.entry('loadv_%s_%s' % (n, kind)); inst = 'load_vertices into %s (%s)' % (n, {'c': 'const range', 'l': 'lvalue range', 'r': 'rvalue range', 'u': 'unsized range'}[kind]); c.saw('functions')
    src, hint = A(1), A(2)
    hit = []
    for L, it, u in elem_loops(fn, src):
        if any(e.kind == 'call' and 'ValaS' in e.name for p in it.body for e in p.items): hit.append((L, it, u))
    if not c.need(len(hit) == 1, 'every vertex value is stored at its id', fn, 'no single loop storing the values (%d)' % len(hit), inst): return
    L, it, u = hit[0]; ID = fld(u, lay['i']); VAL = mk_gep(u, lay['v'], [])
    for p in it.body:
        es = [e for e in p.items if effect(e) and on_graph(e)]
        if not c.need(len(es) == 1 and es[0].kind == 'call' and 'ValaS' in es[0].name and key(es[0].args[0]) == key(('cell', G, ID, voff)) and key(es[0].args[1]) == key(VAL), 'every vertex value is stored at its id', es[0] if es else p, 'the value of a vertex is not stored (only) at its id', inst): continue
        if kind != 'r': c.need('ValaSERKS' in es[0].name, "the caller's values are not moved from", es[0], 'a value of a range the caller keeps is moved into the graph', inst)
        if not assoc:
            f = Facts(p, norm=key)
            c.need(any(f.ge(x, ID, 1) for x in peeks(p, G)) or any(e.kind == 'op' and opm(e) == 'at' and e.args[0] == G and key(e.args[1]) == key(ID) for e in p.items), 'only existing vertices are written', es[0], 'a value can be written beyond the vertices', inst)
        else:
            c.need(any(e.kind == 'op' and opm(e) == 'operator[]' and e.args[0] == G for e in p.items), 'every loaded vertex exists', p, 'the vertex is not added', inst)
    for p in it.early:
        f = Facts(p, norm=key)
        c.need(not assoc and any(f.ge(ID, x) for x in peeks(p, G)) and not [e for e in p.items if effect(e) and on_graph(e)], 'only ids beyond the vertices are rejected', p, 'loading can stop at a valid vertex', inst)
    for p in lpaths(fn):
        if p.end[0] == 'unreach': continue
        f = Facts(p); le = [e for e in p.items if e.kind == 'loop' and e.loop is L]
        c.need(len(le) == 1 or not le and p.end[0] == 'ret' and cond_pol(p, lambda x: empty_of(x, src)) is True, 'every vertex value is stored at its id', p, 'the values can be skipped or stored twice', inst)
        if p.end[0] == 'ret' and le: c.need(natural(it, le[0]), 'every vertex value is stored at its id', p, 'storing the values stops early', inst)
        es = [e for e in p.items if effect(e) and on_graph(e) and opm(e) != 'reserve']
        if assoc:
            c.need(not es, 'loading vertices changes nothing else', es[0] if es else p, 'something else is changed', inst); continue
        c.need(all(opm(e) == 'resize' and e.args[0] == G and (not le or before(p, e, le[0])) for e in es), 'loading vertices changes nothing else', es[0] if es else p, 'something else is changed', inst)
        have = [e.args[1] for e in es if opm(e) == 'resize'][-1:] or peeks(p, G)
        for e in es:
            c.need(any(f.ge(e.args[1], x) for x in peeks(p, G)), 'load_vertices never drops a vertex', e, 'existing vertices can be dropped', inst)
            c.need(all(b == hint and k <= 0 or size_of(b, G) and k <= 0 or size_of(b, src) and k <= 0 for b, k in leaves(e.args[1])), 'no vertex is invented', e, 'the vertex count can exceed what the input asks for', inst)
        c.need(any(f.ge(x, hint) for x in have), 'a requested vertex count is honoured', p, 'fewer vertices than requested', inst)
        if kind != 'u': c.need(any(f.ge(x, y) for x in have for q in p.items for y in allsub(q) if size_of(y, src)), 'there is a vertex per loaded value', p, 'fewer vertices than values', inst)


SPECS = [('vov', 0, 1, 1), ('vov0', 1, 0, 0), ('vovb', 1, 1, 0), ('vofl', 0, 1, 0), ('vol', 0, 0, 0), ('vos', 0, 1, 0), ('vous', 0, 0, 0), ('vom', 0, 1, 0), ('voum', 0, 0, 0), ('dov', 0, 0, 1),
         ('mov', 0, 1, 1), ('mov0', 1, 1, 0), ('uov', 0, 0, 1), ('vovn', 0, 1, 0), ('voln', 0, 1, 0)]


def dyn_load(c, m):
    for n, void, bi, vv in SPECS:
        sp = Spec(m, n, void, bi, vv)
        load(c, m, sp)
    lay = dict(i=layout(m, 'lay_i'), v=layout(m, 'lay_vv'))
    for n in ('vov', 'dov', 'mov', 'uov'):
        for k in 'clr': loadv(c, m, n, k, lay, layout(m, 'lv_' + n), n in ASSOC)
    loadv(c, m, 'vov', 'u', lay, layout(m, 'lv_vov'), False)


def dyn(c, m): dyn_load(c, m)


def dyn_moves(c, m):
    """values are moved on at most once, and never out of the caller's range"""
    rule = 'a value is not used after it was moved on'
    for n in ('vovb', 'vol', 'movb', 'uov'):
        fn = m.entry('tok_' + n); c.saw('functions'); inst = 'load_edges into %s with values of a class type' % n; k = 0
        mine = {key(u) for L, it, u in elem_loops(fn, A(1))}
        for L in [None] + list(fn.loops):
            for p in lpaths(fn, L):
                gone = {}
                for e in p.items:
                    if e.kind != 'call' or '_ZN3Tok' not in e.name or len(e.args) < 2: continue
                    k += 1; a = key(e.args[1])
                    c.need(a not in gone, rule, e, 'a value is read after it was moved from', inst)
                    if 'OS_' in e.name:
                        gone[a] = e; b = base_of(a)
                        c.need(key(b) not in mine and a not in mine and b != A(1), "the caller's values are not moved from", e, 'a value of a range the caller keeps is moved into the graph', inst)
                    gone.pop(key(e.args[0]), None)
        c.need(k > 0, rule, fn, 'no value is stored', inst)


# ---- queries ----
U, E_ = A(1), A(2)
QSPECS = [('vov', 'idx', 'vec'), ('vovi', 'idx', 'vec'), ('vol', 'idx', 'list'), ('vom', 'idx', 'map'), ('mov', 'map', 'vec'), ('mom', 'map', 'map'), ('vovn', 'idx', 'vec'), ('voln', 'idx', 'list'), ('vofl', 'idx', 'list'), ('vofln', 'idx', 'list')]


def retq(v, names, *args):
    """v is a call of one of the container members with these operands"""
    return v[0] == 'ret' and last(v[2]) in names and [key(x) for x in v[3:]] == [key(x) for x in args]


def present(e, o, k):
    """the condition says that the associative container o holds k: True, that it does not: False"""
    if e[0] == 'not':
        r = present(e[1], o, k); return None if r is None else not r
    if retq(e, ('contains', 'count'), o, k): return True
    if e[0] == 'cmp' and e[1] == 'eq':
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if retq(a, ('find', 'lower_bound'), o, k) and retq(b, ('end', 'cend'), o): return False if last(a[2]) == 'find' else None
            if retq(a, ('count',), o, k) and b == C(0): return False
    if e[0] == 'cmp' and e[1] == 'lt' and e[2] == C(0) and retq(e[3], ('count',), o, k): return True
    return None


def boolean(p, v, test):
    """v, on path p, is the truth of a property: test(expression) gives the polarity with which an expression states it"""
    t = test(v)
    if t is not None: return t
    for e in p.items:
        if e.kind == 'cond':
            t = test(e.args[0])
            if t is not None:
                return v == C(1 if t == e.pol else 0)
    return False


class Q_:
    def __init__(s, m, n, vk, ek):
        s.n, s.vk, s.ek = n, vk, ek
        s.lo, s.li, s.lv, s.le, s.lt, s.lit, s.liv = (layout(m, '%s_%s' % (k, n)) for k in ('lo', 'li', 'lv', 'le', 'lt', 'lit', 'liv'))
        s.key = mk_gep(U, layout(m, 'lvk_' + n), []) if vk == 'map' else None
        s.obj = mk_gep(U, layout(m, 'lvo_' + n), []) if vk == 'map' else ('cell', G, U, 0)
        s.out = mk_gep(s.obj, s.lo, []); s.inn = mk_gep(s.obj, s.li, []); s.val = mk_gep(s.obj, s.lv, [])
        s.id = ('rd', s.key) if vk == 'map' else U
        s.eobj = ('cell', s.out, E_, 0) if ek == 'vec' else mk_gep(E_, layout(m, 'leo_' + n), [])
        s.iobj = ('cell', s.inn, E_, 0) if ek == 'vec' else mk_gep(E_, layout(m, 'lio_' + n), [])
        s.tid = [('rd', mk_gep(s.eobj, s.lt, []))]; s.sid = [('rd', mk_gep(s.iobj, s.lit, []))]
        if ek == 'map':
            s.tid.append(('rd', mk_gep(E_, layout(m, 'lek_' + n), []))); s.sid.append(('rd', mk_gep(E_, layout(m, 'lik_' + n), [])))
        s.count = cell_of(m, 'm_' + n)


def isin(v, want): return key(v) in [key(x) for x in want]


def length(fn, p, v, o, start=C(0)):
    """v is the number of elements of o, added to start"""
    if start == C(0) and (size_of(v, o) or retq(v, ('size',), o)): return True
    same = lambda x: x[0] == 'cmp' and x[1] == 'eq' and any(retq(a, ('begin', 'cbegin'), o) and retq(b, ('end', 'cend'), o) for a, b in ((x[2], x[3]), (x[3], x[2])))
    if v == start and (cond_pol(p, lambda x: empty_of(x, o) or same(x)) is True or any(size_of(z, o) and Facts(p, norm=key).ge(C(0), z) for z in peeks(p, o))): return True
    for e in p.items:
        if e.kind != 'loop': continue
        L = e.loop; it = None; sp = iterations(fn, L)
        if sp and not sp.early and sp.at == 'top' and sp.init == C(0) and size_of(sp.bound, o):
            if any(init == start and op == 'add' and k == 1 and v == w for w, init, op, k in inductions(fn, L)): return True
        for pid, init, back in header_phis(fn, L):
            if len(init) == 1 and retq(init[0], ('begin', 'cbegin'), o) and len(back) == 1 and step(back[0], ('phi', pid)): it = ('phi', pid)
        if it is None: continue
        if any(x.end[0] not in ('back', 'exit') for x in lpaths(fn, L)): continue
        ends = lambda x: x[0] == 'cmp' and x[1] == 'eq' and it in (x[2], x[3]) and any(retq(y, ('end', 'cend'), o) for y in (x[2], x[3]))
        if not all(cond_pol(x, ends) is (x.end[0] == 'exit') for x in lpaths(fn, L)): continue
        for w, init, op, k in inductions(fn, L):
            if init == start and op == 'add' and k == 1 and v == w: return True
    return False


def step(b, i):
    return b[0] == 'rd' and b[1] == i or b[0] == 'ret' and last(b[2]) in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', 'operator++', 'next') and b[3] == i


def query(c, m, q):
    n = q.n; inst = 'dynamic_graph over ' + n; ARG = ('rd', A(1))

    def every(e, rule, pred, what):
        fn = m.entry('%s_%s' % (e, n)); c.saw('functions'); k = 0
        for p in forked(lpaths(fn)):
            if p.end[0] in ('unreach', 'throw') or Facts(p).absurd(): continue
            for x in p.items:
                if x.kind != 'ret': continue
                k += 1; c.saw('paths')
                c.need(pred(fn, p, x.args[0]), rule, p, '%s: returns %s' % (what, pp(x.args[0])[:120]), inst)
                bad = [y for y in p.items if effect(y) and y.kind != 'loop' and not (y.kind == 'call' and 'Rb_tree_' in y.name)]
                c.need(not bad, 'queries do not modify the graph', bad[0] if bad else p, 'a query modifies something', inst)
        c.need(k > 0, rule, fn, '%s: the query never returns' % what, inst)

    def found(p, v, ids):
        """v is the position of the vertex with one of these ids, or the end when there is none"""
        if q.vk == 'map': return any(retq(v, ('find',), G, i) for i in ids)
        f = Facts(p, norm=key)
        for i in ids:
            for z in peeks(p, G):
                if f.ge(z, i, 1): return key(v) == key(i)
                if f.ge(i, z) or f.ge(C(-1), i): return size_of(v, G)
                if f.ge(z, i) and key(v) == key(i): return True       # the id, or the end when they are the same
        return False

    def inside(p, v):
        f = Facts(p, norm=key)
        def test(e):
            if q.vk == 'map': return present(e, G, ARG)
            if e[0] == 'not':
                r = test(e[1]); return None if r is None else not r
            if e[0] == 'cmp' and e[1] == 'lt' and key(e[2]) == key(ARG) and size_of(e[3], G): return True
            return None
        if q.vk == 'idx' and v == C(0): return f.ge(C(-1), ARG) or any(f.ge(ARG, z) for z in peeks(p, G))
        if q.vk == 'idx' and v == C(1): return any(f.ge(z, ARG, 1) for z in peeks(p, G)) 
        return boolean(p, v, test) is True

    is_ = lambda x: (lambda fn, p, v: key(v) == key(x))
    pos = lambda o, w: (lambda fn, p, v: (v == C(0) if w == 'begin' else size_of(v, o)) if q.ek == 'vec' else retq(v, (w, 'c' + w), o))
    nv = 'the vertices are the stored vertices'
    every('n', nv, lambda fn, p, v: size_of(v, G) or retq(v, ('size',), G), 'vertex count')
    every('vb', nv, lambda fn, p, v: v == C(0) if q.vk == 'idx' else retq(v, ('begin', 'cbegin'), G), 'first vertex')
    every('ve', nv, lambda fn, p, v: size_of(v, G) if q.vk == 'idx' else retq(v, ('end', 'cend'), G), 'end of the vertices')
    fi = 'a vertex is found by its id'
    for e in ('find', 'findm'): every(e, fi, lambda fn, p, v: found(p, v, [ARG]), 'find_vertex')
    every('contains', fi, lambda fn, p, v: inside(p, v), 'contains_vertex')
    for e in ('at', 'atm'): every(e, fi, is_(('cell', G, ARG, 0)), 'vertex_at')
    every('id', fi, is_(q.id), 'vertex_id')
    vv = 'values are those of the vertex or edge asked about'
    for e in ('vv', 'vvm'): every(e, vv, is_(q.val), 'value of a vertex')
    for e in ('ev', 'evm'): every(e, vv, is_(mk_gep(q.eobj, q.le, [])), 'value of an edge')
    for e in ('iev', 'ievm'): every(e, vv, is_(mk_gep(q.iobj, q.liv, [])), 'value of an incoming edge')
    er = 'the edges of a vertex are those stored with it'
    for e, o, w in (('eb', q.out, 'begin'), ('ee', q.out, 'end'), ('ib', q.inn, 'begin'), ('ie', q.inn, 'end')): every(e, er, pos(o, w), 'range of edges')
    for e in ('es', 'is'): every(e, er, is_(U), 'vertex owning the edges')
    every('deg', er, lambda fn, p, v: length(fn, p, v, q.out), 'degree')
    every('ideg', er, lambda fn, p, v: length(fn, p, v, q.inn), 'in_degree')
    en = 'an edge connects its source to its target'
    every('tid', en, lambda fn, p, v: isin(v, q.tid), 'target_id of an edge')
    every('sid', en, is_(q.id), 'source_id of an edge')
    every('isid', en, lambda fn, p, v: isin(v, q.sid), 'source_id of an incoming edge')
    every('itid', en, is_(q.id), 'target_id of an incoming edge')
    every('tv', en, lambda fn, p, v: found(p, v, q.tid), 'target of an edge')
    every('sv', en, is_(U), 'source of an edge')
    every('isv', en, lambda fn, p, v: found(p, v, q.sid), 'source of an incoming edge')
    every('itv', en, lambda fn, p, v: key(v) == key(U) or found(p, v, [q.id]), 'target of an incoming edge')
    ce = 'the edge count is the number of edges loaded'
    if not c.need(q.count is not None, ce, m.entry('m_' + n), 'the edge count is not stored', inst): return
    cnt = ('rd', q.count)
    every('m', ce, lambda fn, p, v: key(v) == key(cnt), 'edge count')
    def some(e):
        if e[0] == 'not':
            r = some(e[1]); return None if r is None else not r
        if e[0] == 'cmp' and e[1] == 'lt' and e[2] == C(0) and key(e[3]) == key(cnt): return True
        if e[0] == 'cmp' and e[1] == 'eq' and C(0) in e[2:4] and any(key(x) == key(cnt) for x in e[2:4]): return False
        return None
    every('has', ce, lambda fn, p, v: boolean(p, v, some) is True, 'has_edges')
    fn = m.entry('clear_' + n); c.saw('functions')
    for p in lpaths(fn):
        if p.end[0] in ('unreach', 'throw'): continue
        cl = [e for e in p.items if e.kind == 'op' and e.args[0] == G and opm(e) in ('clear', 'erase', 'resize')]
        c.need(any(opm(e) == 'clear' for e in cl), 'clear removes everything', p, 'clear leaves the vertices', inst)
        w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(q.count)]
        c.need(bool(w) and w[-1].args[1] == C(0), 'clear removes everything', p, 'clear leaves the edge count', inst)


def dyn_query(c, m):
    for n, vk, ek in QSPECS: query(c, m, Q_(m, n, vk, ek))


# ---- constructors ----
def dyn_ctor(c, m):
    ls, lt_ = layout(m, 'lay_s'), layout(m, 'lay_t')
    ld = 'construction loads what it is given'
    for n in ('vov', 'mov', 'vovg', 'movg'):
        assoc = n[0] == 'm'; count = cell_of(m, 'm_' + n)
        lists = [('list', 1)] + ([('vlist', 2), ('vrlist', 2)] if n[-1] == 'g' else [])
        for k, il in [('both', None), ('max', None), ('def', None)] + lists + ([('val', None), ('rval', None)] if n[-1] == 'g' else []):
            fn = m.entry('%s_%s' % (k, n)); c.saw('functions'); inst = '%s constructor of a %s graph' % ({'both': '(edges, vertices)', 'max': '(largest vertex id, edges)', 'def': 'default', 'list': '(edge list)', 'vlist': '(value, edge list)', 'vrlist': '(moved value, edge list)', 'val': '(value)', 'rval': '(moved value)'}[k], n)
            for p in lpaths(fn):
                if p.end[0] == 'unreach' or Facts(p).absurd(): continue
                c.saw('paths'); f = Facts(p, norm=key)
                got = [e for e in p.items if e.kind in ('call', 'op') and last(e.name) in ('load_edges', 'load_vertices')]
                if p.end[0] == 'throw':
                    if not got and k == 'max':
                        c.need(any(x.kind == 'cond' and x.pol and x.args[0][0] == 'cmp' and x.args[0][1] == 'eq' and A(1) in x.args[0][2:] and C(-1) in x.args[0][2:] for x in p.items) or f.ge(A(1), C(2 ** 32 - 1)), ld, p, 'a vertex count that can be represented is rejected', inst)
                    elif not got: c.need(bool(drv_partition(p)), ld, p, 'construction is rejected before anything is loaded', inst)
                    continue
                want = {'both': ['load_vertices', 'load_edges'], 'max': ['load_edges'], 'def': [], 'val': [], 'rval': []}.get(k, ['load_edges'])
                if not c.need([last(e.name) for e in got] == want, ld, p, 'what is loaded is %s instead of %s' % ([last(e.name) for e in got], want), inst): continue
                touched = [e for e in p.items if e.kind == 'op' and e.args and e.args[0] == G and not is_pure_op(e) and opm(e) not in ('reserve', 'vector', 'map', '~vector', '~map') and e not in got]
                w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(count)]
                c.need(len(w) == 1 and w[0].args[1] == C(0) and (not got or before(p, w[0], got[0])), 'a new graph starts without edges', p, 'the edge count does not start at zero', inst)
                grown = []
                if il is not None:
                    I = A(il); e = got[0]; src = [('rd', I), ('rd', mk_gep(I, 8, []))]
                    c.need(e.args[0] == G and [key(x) for x in e.args[1:3]] == [key(x) for x in src], ld, e, 'something other than the given list is loaded', inst)
                    n_ = e.args[3]; inv = []; extra = {}
                    for L in fn.loops:
                        it = iterations(fn, L)
                        if not it or it.early or key(it.init) != key(src[0]) or key(it.bound) != key(('el', src[0], src[1], 16, 0)): continue
                        u = it.var
                        for pid, init, _ in header_phis(fn, L):
                            ph = ('phi', pid); bk = [q for q in it.body if q.end[0] == 'back']
                            if ph == u or len(init) != 1: continue
                            top = (key(fld(u, ls)), key(fld(u, lt_)))
                            n1 = max([d for q in bk for b, d in leaves(q.end[2].get(pid, ph)) if key(b) in top and d in (0, 1)], default=0)
                            ok = [all(Facts(q, norm=key).ge(q.end[2].get(pid, ph), x, j) for q in bk) for x, j in ((ph, 0), (fld(u, ls), n1), (fld(u, lt_), n1))]
                            only = all(b == ph and d <= 0 or key(b) in top and d <= n1 for q in bk for b, d in leaves(q.end[2].get(pid, ph)))
                            if all(ok) and only and init[0] == C(0): inv.append(ph); extra[ph] = n1
                    bounds = [key(src[0]), key(('el', src[0], src[1], 16, 0))]
                    some = f.ge(src[1], C(1)) or any(eq_pol(p, x.args[0][2], x.args[0][3]) is False and sorted(map(repr, (key(x.args[0][2]), key(x.args[0][3])))) == sorted(map(repr, bounds)) for x in p.items if x.kind == 'cond' and x.args[0][0] == 'cmp' and x.args[0][1] == 'eq') or any(x.kind == 'cond' and not x.pol and x.args[0][0] == 'cmp' and x.args[0][1] == 'eq' and C(0) in x.args[0][2:] and key(src[1]) in [key(y) for y in x.args[0][2:]] for x in p.items)
                    for x in touched:
                        if before(p, x, e):
                            ok = opm(x) == 'resize' and all(b == C(0) and d <= 0 or b in inv and d <= 1 - extra[b] and (some or extra[b]) for b, d in leaves(x.args[1]))
                            c.need(ok, 'no vertex is invented', x, 'vertices are created that the list does not name (an empty list names none)', inst)
                            grown.append(x.args[1])
                    enough = n_ == C(0) or assoc or any(f.ge(x, y, 1 - extra[y]) for x in grown[-1:] for y in inv) or not grown and size_of(n_, G)
                    c.need(enough, ld, p, 'there can be fewer vertices than the list names', inst)
                    c.need(assoc or n_ == C(0) or size_of(n_, G) or any(b in inv and d <= 1 - extra[b] for b, d in leaves(n_)) and some, 'no vertex is invented', e, 'an arbitrary vertex count is requested', inst)
                elif k == 'max':
                    e = got[0]
                    c.need(e.args[0] == G and e.args[1] == A(2), ld, e, 'something other than the given edges is loaded', inst)
                    c.need(is_add(e.args[2], A(1)), 'the largest vertex id is honoured', e, 'the vertex count is not the largest id plus one', inst)
                elif k == 'both':
                    v, e = got
                    c.need(v.args[:2] == (G, A(2)) or list(v.args[:2]) == [G, A(2)], ld, v, 'something other than the given vertices is loaded', inst)
                    c.need(list(e.args[:2]) == [G, A(1)], ld, e, 'something other than the given edges is loaded', inst)
                    c.need(v.args[2] == C(0) and (e.args[2] == C(0) or size_of(e.args[2], G) or retq(e.args[2], ('size',), G)), 'no vertex is invented', e, 'an arbitrary vertex count is requested', inst)
                if il is None: c.need(not touched, ld, touched[0] if touched else p, 'the vertices are changed outside loading', inst)
        if n[-1] == 'g':
            a = None; rule = 'the graph value is stored and returned'
            for x in ('gv', 'gvc', 'gvp'):
                for p, v in returns_(m.entry('%s_%s' % (x, n))):
                    c.need((v[0] == 'fld' and v[1] == G) and (a is None or a == v), rule, p, 'graph_value does not return the stored value', n); a = v
            for x in ('val', 'rval', 'vlist', 'vrlist'):
                for p in lpaths(m.entry('%s_%s' % (x, n))):
                    if p.end[0] != 'ret': continue
                    w = [e for e in p.items if e.kind == 'write' and e.args[0] == a]
                    c.need(bool(w) and key(w[-1].args[1]) == ('rd', A(1)), rule, p, 'the given graph value is not stored', '%s_%s' % (x, n))


def returns_(fn):
    for p in lpaths(fn):
        if p.end[0] == 'unreach': continue
        for e in p.items:
            if e.kind == 'ret': yield p, e.args[0]


def drv_partition(p):
    """the path judged the partition starts"""
    return [e for e in p.items if e.kind == 'cond']

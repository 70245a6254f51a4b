"""Standard containers of edge ranges used directly as graphs; constant-time operations."""
from cont_dyn import *
from cpo_lookup import chosen

#        name   vertices edges   has the vertex value an address the engine follows
STD = [('vi', 'idx', 'vec'), ('vp', 'idx', 'vec'), ('vt', 'idx', 'vec'), ('vtt', 'idx', 'vec'), ('va', 'idx', 'vec'), ('vc', 'idx', 'vec'), ('di', 'deq', 'vec'),
       ('vl', 'idx', 'node'), ('vf', 'idx', 'node'), ('vft', 'idx', 'node'), ('vs', 'idx', 'node'), ('vm', 'idx', 'node'),
       ('mp', 'map', 'vec'), ('mi', 'map', 'vec'), ('ml', 'map', 'node'), ('up', 'map', 'vec')]


def std_graphs(c, m):
    for s in STD: one(c, m, *s)


def one(c, m, n, vk, ek):
    inst = 'range of ranges ' + n; ARG = ('rd', A(1))
    keyo = mk_gep(U, layout(m, 'lvk_' + n), []) if vk == 'map' else None
    inner = mk_gep(U, layout(m, 'lvm_' + n), []) if vk == 'map' else ('cell', G, U, 0)
    vid = ('rd', keyo) if vk == 'map' else U
    elem = ('cell', inner, E_, 0) if ek == 'vec' else mk_gep(E_, layout(m, 'leo_' + n), [])
    tid = ('rd', mk_gep(elem, layout(m, 'lid_' + n), [])); val = mk_gep(elem, layout(m, 'lva_' + n), [])

    def every(e, rule, pred, what):
        fn = m.entry('%s_%s' % (e, n)); c.saw('functions'); k = 0
        for p in lpaths(fn):
            if p.end[0] in ('unreach', 'throw') or Facts(p).absurd(): continue
            for x in p.items:
                if x.kind != 'ret': continue
                k += 1; c.saw('paths')
                c.need(pred(fn, p, x.args[0]), rule, p, '%s: returns %s' % (what, pp(x.args[0])[:120]), inst)
                bad = [y for y in p.items if effect(y) and y.kind != 'loop' and not (y.kind == 'call' and 'Rb_tree_' in y.name) and not (y.kind == 'op' and opm(y) in ('begin', 'end', 'cbegin', 'cend', 'operator+='))]
                c.need(not bad, 'queries do not modify the graph', bad[0] if bad else p, 'a query modifies something', inst)
        c.need(k > 0, rule, fn, '%s: the query never returns' % what, inst)

    def found(p, v, i):
        """position of the vertex with id i; an id that is not there need not be given"""
        if vk == 'map': return retq(v, ('find',), G, i)
        if any(size_of(v, G) and Facts(p, norm=key).ge(i, z) for z in peeks(p, G)): return True
        return key(v) == key(i)
    is_ = lambda x: (lambda fn, p, v: key(chosen(v, p)) == key(x))
    pos = lambda o, w: (lambda fn, p, v: (v == C(0) if w == 'begin' else size_of(v, o)) if ek == 'vec' else retq(v, (w, 'c' + w), o))
    nv = 'every element is a vertex'
    every('n', nv, lambda fn, p, v: size_of(v, G) or retq(v, ('size',), G), 'vertex count')
    every('vb', nv, lambda fn, p, v: v == C(0) if vk != 'map' else retq(v, ('begin', 'cbegin'), G), 'first vertex')
    every('ve', nv, lambda fn, p, v: size_of(v, G) if vk != 'map' else retq(v, ('end', 'cend'), G), 'end of the vertices')
    fi = 'a vertex is named by its index or its key'
    every('find', fi, lambda fn, p, v: found(p, v, ARG), 'find_vertex')
    every('id', fi, is_(vid), 'vertex_id')
    er = 'the edges of a vertex are the elements of its range'
    if vk != 'deq':
        for e in ('vv', 'vvm'): every(e, 'the value of a vertex is its range', is_(inner), 'vertex_value')
        for x in ('', 'm'):
            every('eb' + x, er, pos(inner, 'begin'), 'first edge'); every('ee' + x, er, pos(inner, 'end'), 'end of the edges')
            every('deg' + x, er, lambda fn, p, v: length(fn, p, v, inner), 'degree')
            every('ne' + x, er, lambda fn, p, v: length(fn, p, v, inner), 'number of edges of a vertex')
        every('m', 'the number of edges is the sum over the vertices', lambda fn, p, v: total(fn, p, v, vk, m, n), 'num_edges')
    every('es', er, is_(U), 'vertex owning the edges')
    en = 'an edge leads from the vertex holding it to its documented target'
    every('sid', en, is_(vid), 'source_id')
    every('sv', en, lambda fn, p, v: key(v) == key(U) or found(p, v, vid), 'source vertex')
    if vk == 'deq': return
    for e in ('tid', 'tidm'): every(e, en, is_(tid), 'target_id')
    every('tv', en, lambda fn, p, v: found(p, v, tid), 'target vertex')
    for e in ('ev', 'evm'): every(e, 'the value of an edge is its documented property', is_(val), 'edge_value')


def total(fn, p, v, vk, m, n):
    if v[0] != 'phi': return False
    for e in p.items:
        if e.kind != 'loop': continue
        L = e.loop; var = None
        if vk == 'map':
            for pid, init, back in header_phis(fn, L):
                if len(init) == 1 and retq(init[0], ('begin', 'cbegin'), G) and len(back) == 1 and step(back[0], ('phi', pid)): var = ('phi', pid)
            if var is None: continue
            ends = lambda x: x[0] == 'cmp' and x[1] == 'eq' and var in (x[2], x[3]) and any(retq(y, ('end', 'cend'), G) for y in (x[2], x[3]))
            if not all(cond_pol(q, ends) is (q.end[0] == 'exit') for q in lpaths(fn, L) if q.end[0] != 'unreach'): continue
            o = mk_gep(var, layout(m, 'lvm_' + n), []); body = [q for q in lpaths(fn, L) if q.end[0] == 'back']
        else:
            it = iterations(fn, L)
            if not it or it.early or it.at != 'top' or it.init != C(0) or not size_of(it.bound, G): continue
            var = it.var; o = ('cell', G, var, 0); body = [q for q in it.body if q.end[0] == 'back']
        for pid, init, _ in header_phis(fn, L):
            ph = ('phi', pid)
            if v != ph or init != [C(0)]: continue
            ok = bool(body)
            for q in body:
                x = q.end[2].get(pid, ph)
                if x == ph and cond_pol(q, lambda y: empty_of(y, o)) is True or length(fn, q, x, o, ph): continue
                if x == ph and cond_pol(q, lambda y: y[0] == 'cmp' and y[1] == 'eq' and any(a == C(0) and length(fn, q, b, o) for a, b in ((y[2], y[3]), (y[3], y[2])))) is True: continue
                if x[0] == 'op' and x[1] == 'add' and len(x) == 4 and any(a == ph and length(fn, q, b, o) for a, b in ((x[2], x[3]), (x[3], x[2]))): continue
                ok = False
            if ok: return True
    return False


# ---- operations documented as constant time ----
def constant(c, m, entries, inst):
    """no path of these operations contains a loop or an operation whose cost grows with the container"""
    rule = 'a constant-time operation does not scan'
    for e in entries:
        fn = m.entry(e); c.saw('functions')
        if not fn.loops: c.obl.append((rule, '%s: %s' % (inst, e), '', True)); continue
        for p in lpaths(fn):
            if p.end[0] == 'unreach' or Facts(p).absurd(): continue
            c.saw('paths')
            ls = [x for x in p.items if x.kind == 'loop']
            c.need(not ls, rule, ls[0] if ls else p, 'the operation takes time proportional to the graph or to the degree', '%s: %s' % (inst, e))


def const_csr(c, m): constant(c, m, ['n', 'm', 'has', 'find', 'deg', 'degree', 'ebegin', 'eend', 'vbegin', 'vend', 'vid', 'target', 'source', 'eval', 'vval'], 'compressed_graph')


def const_dyn(c, m):
    for n in ('vos', 'vous', 'vom', 'voum', 'vol', 'dov', 'mov', 'uov'):
        constant(c, m, [e + '_' + n for e in ('find', 'n', 'm', 'has', 'deg', 'ideg', 'eb')], 'dynamic_graph')
    for n in ('vos', 'vous', 'vom', 'voum'):
        fn = m.entry('fve_' + n); c.saw('functions')
        for p in lpaths(fn):
            if p.end[0] == 'unreach' or Facts(p).absurd(): continue
            ls = [x for x in p.items if x.kind == 'loop']
            c.need(not ls, 'a lookup in a keyed edge container does not scan its edges', ls[0] if ls else p, 'find_vertex_edge examines the edges one by one', 'dynamic_graph ' + n)


def const_std(c, m):
    for n, vk, ek in STD:
        es = ['find', 'n', 'vb', 've', 'id', 'vv', 'es', 'tid', 'sid', 'sv', 'tv', 'ev']
        if n not in ('vf', 'vft'): es += ['deg', 'eb', 'ee', 'degm', 'ne', 'nem', 'ebm', 'eem']
        else: es = [e for e in es if e != 'es']
        constant(c, m, [e + '_' + n for e in es], 'range of ranges')


def const_ual(c, m): constant(c, m, [e + '_' + n for n in 'dnv' for e in (['mkid0', 'mkit0', 'er'] + (['mkid', 'mkidm', 'mkit', 'mkitm'] if n != 'v' else []))], 'undirected_adjacency_list')


def const_ualq(c, m): constant(c, m, [e + '_' + n for n in 'dnv' for e in (['ne', 'nv', 'he', 'hem', 'dg', 'dgc', 'ns', 'fv', 'fvc', 'tf', 'tfc', 'nx', 'nxp', 'pv', 'pvp', 'ov', 'ovi', 'ow', 'src', 'tgt', 'id1', 'id2'] + (['ev', 'evc', 'vv', 'vvc'] if n != 'v' else []))], 'undirected_adjacency_list')

"""Rules for the basic views: a whole user-written iteration is analysed, so begin, end, ==, ++, it++, *it, copying and
assignment of iterators and copying of the view are judged by their joint effect."""
from lib import *
from view_search import stabilize, canon

N = Q('num_vertices')
SPACE = {'in': ('in_edges', 'in_edges_begin', 'in_edges_end', 'in_source'), 'out': ('edges', 'edges_begin', 'edges_end', 'target')}


def has(m, n): return 'drv_entry_' + n in m.fns


def sinks(p): return [e for e in p.items if e.kind == 'call' and (e.name or '').startswith('v_')]


def quiet(c, inst, p, allowed=()):
    """no effect on anything but the iteration's own locals"""
    for e in p.items:
        if e in allowed or e.kind in ('cond', 'read', 'loop'): continue
        if e.kind == 'write' and base_of(e.args[0])[0] == 'obj': continue
        if e.kind == 'op' and (is_pure_op(e) or e.args and base_of(e.args[0])[0] == 'obj'): continue
        if e.kind in ('call', 'op', 'write', 'throw'): c.bad('an iteration has no effect but its elements', e, 'unexpected %s' % e, inst)


def elem(c, fn, inst, it, want):
    """every element hands exactly the expected values to the user, in one sink call per name in want"""
    names = {'v_' + k for k, _ in want}
    for p in it.body:
        c.saw('paths')
        ss = sinks(p)
        c.need(len(ss) == len(want), 'each element is yielded exactly once', ss[1] if len(ss) > len(want) else p if not ss else ss[0], '%d values yielded for one element, expected %d' % (len(ss), len(want)), inst)
        for k, args in want:
            for e in [e for e in ss if e.name == 'v_' + k]:
                for i, (x, y) in enumerate(zip(e.args, args)):
                    c.need(eqv(x, y), 'each element carries its own ids, descriptors and value', e, 'field %d of the element is %s, expected %s' % (i, pp(x), pp(y)), inst)
        quiet(c, inst, p, ss)


def simple(c, m, entry, init, bound, want, step=None, form=''):
    fn = stabilize(m.entry(entry)); inst = entry; c.saw('functions')
    top = [L for L in fn.top_loops]
    if not c.need(len(top) == 1 and not top[0].children, 'one loop over the range', fn, 'the iteration compiles to %d loops' % len(fn.all_loops() if hasattr(fn, 'all_loops') else top), inst): return
    L = top[0]; it = iterations(fn, L)
    if not c.need(it is not None, 'the iteration ends', fn, 'loop is not recognised as a walk over a range', inst): return
    v = it.var
    c.need(eqv(it.init, init), 'the range starts at its first element', fn, 'starts at %s, expected %s' % (pp(it.init), pp(init)), inst)
    c.need(eqv(it.bound, bound), 'the range ends after its last element', fn, 'ends at %s, expected %s' % (pp(it.bound), pp(bound)), inst)
    c.need(it.step == ('add', 1) if step is None else it.step == step, 'no element is skipped', fn, 'step is %s' % (it.step,), inst)
    c.need(not it.early and it.at == 'top', 'the iteration visits the whole range', it.early[0] if it.early else fn, 'the loop can be left before the end of the range' if it.early else 'an empty range would be entered', inst)
    elem(c, fn, inst, it, want(v))
    for p in lpaths(fn):
        c.need(len(inner_loops(p)) == 1 and p.end[0] == 'ret', 'every call iterates over the range', p, 'a path of the iteration skips the loop or fails', inst)
        quiet(c, inst, p)


def ret_is(c, m, entry, want):
    fn = stabilize(m.entry(entry)); inst = entry; c.saw('functions')
    for p in lpaths(fn):
        c.saw('paths')
        r = [e for e in p.items if e.kind == 'ret'] or [e for e in p.items if e.name == 'ret']
        c.need(p.end[0] == 'ret' and len(r) == 1 and any(eqv(r[0].args[0], w) for w in want), 'size() is the number of elements', r[0] if r else p, 'returns %s, expected %s' % (pp(r[0].args[0]) if r else 'nothing', pp(want[0])), inst)


def both(entry): return (entry, entry + '_post')


# ---------------------------------------------------------------- vertex lists
def vertexlist(c, m, pre=''):
    for basic in ('', 'basic_'):
        for form, a, b, k in (('', C(0), N, 1), ('_r', A(1), A(2), 3), ('_vr', A(1), A(2), 3)):
            for f in ('', '_f'):
                n = pre + basic + 'vertexlist' + form + f
                if not has(m, n): continue
                st = A(k)
                want = {('', ''): lambda v: [('v', (v, v))], ('', '_f'): lambda v: [('vf', (v, v, Q('vvfs', st, v)))],
                        ('basic_', ''): lambda v: [('id', (v,))], ('basic_', '_f'): lambda v: [('idf', (v, Q('vvfs', st, v)))]}[basic, f]
                for e in [e for e in both(n) if has(m, e)]: simple(c, m, e, a, b, want)
                ret_is(c, m, n + '_size', [b] if form == '' else [('op', 'sub', b, a)])


# ---------------------------------------------------------------- edges and neighbours of one vertex
def around(c, m, pre='', swap=False):
    for d, dn, dirs in (('', '', 'out'), ('out_', '', 'out'), ('', '_b', 'out'), ('in_', '_b', 'in')):
        kind, qb, qe, qt = SPACE[{'in': 'out', 'out': 'in'}[dirs] if swap else dirs]
        for fam in ('incidence', 'neighbors'):
            for basic in ('', 'basic_'):
                for by in ('_u', '_i') if not basic else ('',):
                    for f in ('', '_f'):
                        n = pre + basic + d + fam + by + dn + f
                        if not has(m, n): continue
                        u = A(1); st = A(2)

                        def want(e, fam=fam, basic=basic, f=f):
                            t = Q(qt, e, u)
                            val = Q('evfs', st, e, u) if fam == 'incidence' else Q('vvfs', st, t)
                            if basic: return [('idf', (t, val)) if f else ('id', (t,))]
                            mid = (e, u) if fam == 'incidence' else (t,)
                            k = ('e' if fam == 'incidence' else 'v') + ('f' if f else '')
                            return [(k, (t,) + mid + ((val,) if f else ()))]
                        for e in [e for e in both(n) if has(m, e)]: simple(c, m, e, Q(qb, u), Q(qe, u), want)
                        ret_is(c, m, n + '_size', [('op', 'sub', Q(qe, u), Q(qb, u))])


# ---------------------------------------------------------------- edge list of a graph
class Fact:
    """conditions of a composed path"""
    def __init__(s, items): s.items = items


def compose(p):
    """variants of a path in which every inner loop is replaced by the conditions of one way of leaving it"""
    vs = [([], [])]
    for e in p.items:
        if e.kind == 'loop':
            vs = [(i + [x for x in q.items], l + [(e.loop, q)]) for i, l in vs for q in (e.val or [])]
        else: vs = [(i + [e], l) for i, l in vs]
    return [Path(i, p.end, p.blocks, p.env) for i, l in vs], [l for i, l in vs]


def edge_machine(c, m, entry, want, dirs='out'):
    kind, QB, QE, QT = SPACE[dirs]
    fn = stabilize(m.entry(entry)); inst = entry; c.saw('functions')
    loops = []

    def rec(L):
        loops.append(L)
        for k in L.children: rec(k)
    for L in fn.top_loops: rec(L)
    M = [L for L in loops if any(sinks(p) for p in lpaths(fn, L))]
    if not c.need(len(M) == 1, 'one loop over the edges', fn, 'edges are yielded by %d loops' % len(M), inst): return
    M = M[0]
    it = iterations(fn, M)
    if it is not None and it.kind == kind and M.parent is not None:           # nested form
        ito = iterations(fn, M.parent)
        if not c.need(ito is not None and ito.kind == 'vertices' and not ito.early and it.over == ito.var and not it.early, 'all edges of all vertices are visited', fn, 'loops are %s in %s' % (it, ito), inst): return
        elem(c, fn, inst, it, want(ito.var, it.var, ito.var))
        return
    if not c.need(M.parent is None, 'all edges of all vertices are visited', fn, 'edges are yielded in a loop of unknown shape', inst): return
    P = lpaths(fn, M)
    # roles
    tg = {key(y) for p in P for e in sinks(p) for a in e.args for y in walk(a) if y[:2] == ('q', QT)}
    if not c.need(len(tg) == 1, 'each element carries its own ids, descriptors and value', fn, 'targets of the elements: %s' % [pp(x) for x in tg], inst): return
    cur, own = list(tg.pop())[2:4]
    vs_ = {key(e.args[0]) for p in P for e in sinks(p)}
    if not c.need(len(vs_) == 1, 'each element carries its own ids, descriptors and value', fn, 'source ids of the elements: %s' % [pp(x) for x in vs_], inst): return
    v = vs_.pop()
    phis = [('phi', x[0]) for x in header_phis(fn, M)]
    if not c.need(v in phis and cur in phis, 'each element carries its own ids, descriptors and value', fn, 'source %s and edge position %s are not the position of the iteration' % (pp(v), pp(cur)), inst): return
    # incoming states
    def came(x, p, l):
        x = subst(x, p.env)
        for lp, iq in l:
            x = rewrite(x, lambda y: iq.end[2].get(y[1], y) if y[0] == 'phi' and len(iq.end) > 2 and isinstance(iq.end[2], dict) else y)
        return x
    outer = []
    inc = []   # (is_init, composed path, state, loops)
    for p in lpaths(fn):
        for e in [e for e in inner_loops(p) if e.loop is M]:
            sub, ls = compose(Path(p.items[:idx(p, e)], p.end, p.blocks, p.env))
            for q, l in zip(sub, ls):
                st = {}
                ev = Eval(fn)
                for ph, init, _ in header_phis(fn, M): st[('phi', ph)] = came(init[0], p, l)
                outer.append(lambda x, p=p, l=l: came(x, p, l))
                inc.append((True, q, st, l))
        c.need(len([e for e in inner_loops(p) if e.loop is M]) == 1, 'every call iterates over the range', p, 'a path of the iteration skips the loop', inst)
    for p in P:
        if p.end[0] != 'back': continue
        sub, ls = compose(p)
        for q, l in zip(sub, ls):
            inc.append((False, q, {('phi', k): x for k, x in p.end[2].items()}, l))
    # values merged before the loop that are the same whichever way it was reached
    mine = {h[0] for L in loops for h in header_phis(fn, L)} | {k for L in loops for q in lpaths(fn, L) if len(q.end) > 2 for k in q.end[2]}

    def fixed(x):
        if x[0] != 'phi' or x[1] in mine - early: return x
        r = {key(o(x)) for o in outer}
        return r.pop() if len(r) == 1 else x
    early = {k for L in loops if L is not M and L.parent is None for q in lpaths(fn, L) if len(q.end) > 2 for k in q.end[2]}
    norm = lambda p: map_path(p, fixed)
    P = [q for q in map(norm, P) if q is not None]
    inc = [(i, q2, {k: rewrite(x, fixed) for k, x in st.items()}, l) for i, q, st, l in inc for q2 in [norm(q)] if q2 is not None]
    # invariants  phi == f(v)  that hold whenever v is not the end
    FS = [lambda x: x, lambda x: Q(QE, x), lambda x: Q(QB, x)]
    inv = {(ph, i) for ph in phis if ph not in (v, cur) for i in range(len(FS))
           if all(eqv(st[ph], FS[i](st[v])) for init, p, st, l in inc if not at_end(p, st[v]) and not eqv(st[ph], ph))}
    while True:
        sub = {}
        for ph, i in sorted(inv, key=repr): sub.setdefault(ph, FS[i](v))
        drop = set()
        comp = []
        for init, p, st, l in inc:
            f = lambda y: sub.get(y, fixed(y)) if y[0] == 'phi' else y
            q = p if init else map_path(p, f)
            if q is None: continue
            s2 = st if init else {k: rewrite(x, f) for k, x in st.items()}
            comp.append((init, q, s2, l))
            if at_end(q, s2[v]): continue
            for ph, i in inv:
                if not eqv(s2[ph], FS[i](s2[v])): drop.add((ph, i))
        if not drop: break
        inv -= drop
    f = lambda y: sub.get(y, fixed(y)) if y[0] == 'phi' else y
    # the elements
    body = []
    for p in P:
        c.saw('paths')
        q = map_path(p, f)
        if q is None: continue
        e = eq_pol(q, v, N)
        if sinks(q):
            c.need(e is False, 'the iteration stops at the end', q, 'an element is yielded without testing for the end', inst)
            c.need(q.end[0] == 'back', 'the iteration visits the whole range', q, 'the loop is left after an element', inst)
            body.append(q)
        else:
            c.need(e is True and q.end[0] != 'back', 'each element is yielded exactly once', q, 'a step yields no element although the end is not reached', inst)

    class B: pass
    b = B(); b.body = body
    elem(c, fn, inst, b, want(v, cur, v))
    scans = set(); live = {}
    for init, q, st, l in comp:
        c.saw('transitions')
        at = at_end(q, st[v])
        step = eqv(st[v], v) and is_add(st[cur], cur)
        fin = None if init else next_is_end(q, v, cur, QE)
        if not init and step and not l:
            c.need(fin is False, 'the next edge of a vertex follows', q, 'the position moves to the next edge without testing that the vertex has one', inst); continue
        if not init: c.need(fin is True, 'the next edge of a vertex follows', q, 'the iteration leaves a vertex before its last edge', inst)
        if not l and (eqv(st[v], C(0)) if init else is_add(st[v], v)):       # entered, or found to be the end, without a search
            x = st[v]
            if not at:
                c.need(eq_pol(q, x, N) is False and eq_pol(q, Q(QB, x), Q(QE, x)) is False, 'only vertices with edges are entered', q, 'a vertex is entered without testing that it exists and has edges', inst)
                c.need(eqv(st[cur], Q(QB, x)), 'the first edge of a vertex comes first', q, 'position starts at %s' % pp(st[cur]), inst)
            continue
        if not c.need(len(l) == 1, 'vertices without edges are skipped', q, 'the next vertex with edges is not searched for', inst): continue
        S, iq = l[0]
        ind = [i for i in inductions(fn, S) if i[2:] == ('add', 1)]
        if not c.need(len(ind) == 1, 'vertices without edges are skipped', q, 'the next vertex is %s' % pp(st[v]), inst): continue
        x = ind[0][0]; y = st[v]; i0 = rewrite(ind[0][1], f)
        c.need(eqv(i0, C(0)) if init else is_add(i0, v), 'the search for the next vertex starts right after the last', q, 'it starts at %s' % pp(i0), inst)
        if S.header not in live:                                                    # is the vertex examined known to exist when the search enters a turn?
            live[S.header] = all(any(eq_pol(p, n, N) is False for n in add1(x)) for p in map(norm, lpaths(fn, S)) if p is not None and p.end[0] == 'back') and \
                all(eq_pol(q2, rewrite(ind[0][1], f), N) is False for _, q2, _, l2 in comp if any(k is S for k, _ in l2))
        exists = live[S.header] or eq_pol(q, x, N) is False
        if not at:
            c.need(eqv(y, x), 'vertices without edges are skipped', q, 'the next vertex is %s' % pp(y), inst)
            c.need(exists and eq_pol(q, Q(QB, x), Q(QE, x)) is False, 'only vertices with edges are entered', q, 'a vertex is entered without testing that it exists and has edges', inst)
            c.need(eqv(st[cur], Q(QB, x)), 'the first edge of a vertex comes first', q, 'position starts at %s' % pp(st[cur]), inst)
        else:
            c.need(eq_pol(q, x, N) is True or exists and eq_pol(q, Q(QB, x), Q(QE, x)) is True and any(eq_pol(q, n, N) is True for n in add1(x)),
                   'only vertices without edges are skipped', q, 'the search may give up before the last vertex', inst)
        if S.header in scans: continue
        scans.add(S.header)
        for p in [q3 for q3 in map(norm, lpaths(fn, S)) if q3 is not None]:
            c.saw('paths')
            if p.end[0] == 'back':
                c.need((live[S.header] or eq_pol(p, x, N) is False) and eq_pol(p, Q(QB, x), Q(QE, x)) is True, 'only vertices without edges are skipped', p, 'a vertex may be skipped although it has edges', inst)
            quiet(c, inst, p)
    # invariants that the rule needs
    need = {own: v}
    for ph, w in need.items():
        if ph != v: c.need((ph, 0) in inv, 'each element carries its own ids, descriptors and value', fn, 'the source stored in the edge is not the vertex being visited', inst)


def at_end(q, x): return eqv(x, N) or eq_pol(q, x, N) is True


def next_is_end(q, v, cur, QE):
    for n in add1(cur):
        r = eq_pol(q, n, Q(QE, v))
        if r is not None: return r
    return None


def edgelist(c, m, pre='', dirs='out'):
    for basic in ('', 'basic_'):
        for f in ('', '_f'):
            n = pre + basic + 'edgelist' + f
            if not has(m, n): continue

            def want(v, e, o, basic=basic, f=f):
                t = Q(SPACE[dirs][3], e, o); val = (Q('evfs', A(1), e, o),) if f else ()
                if basic: return [('st' + ('f' if f else ''), (v, t) + val)]
                return [('el' + ('f' if f else ''), (v, t, e, o) + val)]
            for e in both(n):
                if has(m, e): edge_machine(c, m, e, want, dirs)
            if has(m, n + '_size'): ret_is(c, m, n + '_size', [Q('num_edges')])


def list_edgelist(c, m):
    for f in ('', '_f'):
        n = 'list_edgelist' + f

        def rd(x): return ('rd', x, 0)

        def want(v, f=f):
            s, t, x = [('rd', ('fld', v, o)) if o else ('rd', v) for o in (0, 4, 8)]
            return [('stf', (s, t, Q('evfs', A(1), s, t))) if f else ('st', (s, t)), ('id', (x,))]
        for e in [e for e in both(n) if has(m, e)]: simple(c, m, e, ('begin', A(0)), ('end', A(0)), want, step=('ptr', 12))
        fn = stabilize(m.entry(n + '_size'))
        for p in lpaths(fn):
            r = [e for e in p.items if e.name == 'ret' or e.kind == 'ret']
            c.need(len(r) == 1 and 'size' in pp(r[0].args[0]) and contains(r[0].args[0], A(0)), 'size() is the number of elements', p, 'returns %s' % (pp(r[0].args[0]) if r else None), n + '_size')


def basic_views(c, m):
    vertexlist(c, m); around(c, m); edgelist(c, m); list_edgelist(c, m)


# ---------------------------------------------------------------- transpose
def returns(c, m, entry, want, rule):
    for inst in (entry, entry + '_c'):
        if inst != entry and not has(m, inst): continue
        fn = stabilize(m.entry(inst)); c.saw('functions')
        for p in lpaths(fn):
            c.saw('paths')
            r = [e for e in p.items if e.name == 'ret']
            c.need(p.end[0] == 'ret' and len(r) == 1 and eqv(r[0].args[0], want), rule, r[0] if r else p, 'returns %s, expected %s' % (pp(r[0].args[0]) if r else 'nothing', pp(want)), inst)
            quiet(c, inst, p, r)


def transpose(c, m):
    vertexlist(c, m); around(c, m, swap=True); edgelist(c, m, dirs='in')
    u, e, o = A(1), A(1), A(2)
    nin = ('op', 'sub', Q('in_edges_end', u), Q('in_edges_begin', u)); nout = ('op', 'sub', Q('edges_end', u), Q('edges_begin', u))
    for n, w in (('degree', nin), ('degree_id', nin), ('num_edges_u', nin), ('in_degree', nout), ('in_degree_id', nout)):
        returns(c, m, n, w, 'the edges of a vertex are counted in the swapped direction')
    for n, w in (('num_vertices', N), ('vertex_id', u), ('find_vertex', u)): returns(c, m, n, w, 'vertices are unchanged')
    for n in ('target', 'target_id'):
        returns(c, m, n + '_out', Q('in_source', e, o), 'an edge of the transpose leads where the edge came from')
        returns(c, m, n + '_in', o, 'an edge of the transpose leads where the edge came from')
    for n in ('source', 'source_id'):
        returns(c, m, n + '_out', o, 'an edge of the transpose starts where the edge led')
        returns(c, m, n + '_in', Q('target', e, o), 'an edge of the transpose starts where the edge led')
    returns(c, m, 'edge_value_out', Q('in_edge_value', e, o), 'edge values are unchanged'); returns(c, m, 'edge_value_in', Q('edge_value', e, o), 'edge values are unchanged')
    returns(c, m, 'concept', C(1), 'the transpose is a bidirectional graph with swapped edge types')
    returns(c, m, 'twice', C(1), 'the transpose refers to the graph itself')


# ---------------------------------------------------------------- adaptors
def adaptors(c, m):
    for pre in ('p_', 'l_', 'c_'):
        vertexlist(c, m, pre); around(c, m, pre); edgelist(c, m, pre)


def twins(c, m):
    for n in sorted(m.fns):
        if not n.startswith('drv_entry_d_'): continue
        b = n[len('drv_entry_d_'):]
        returns(c, m, 't_' + b, C(1), 'an adaptor makes the same kind of view as the function')
        want = canon(stabilize(m.fns[n]))
        for pre in ('p_', 'c_'):
            fn = stabilize(m.entry(pre + b)); c.saw('functions')
            c.need(canon(fn) == want, 'an adaptor makes the same view as the function', fn, 'the view is constructed differently', pre + b)

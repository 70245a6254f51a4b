"""Rules for the materialised topological-order views."""
from lib import *
from alg_traversal import one, path_str, ordered, no_stale_peek, FU, FI, FE, DfsModel
from view_search import postfix, NB, Part, stabilize, state_off, table

ONE = (C(1), C(-1))


def is_reverse(e, O):
    return (e.kind in ('op', 'call')) and 'reverse' in (e.name or '').replace('reserve', '') and any(base_of(a) == base_of(O) and key(a) == key(O) or contains(a, O) for a in e.args)


def whole(e, O):
    """the call covers all of O: the range itself, or the positions [begin, end)"""
    a = [x for x in e.args if contains(x, O) or key(x) == key(O)]
    if len(a) == 1: return key(a[0]) == key(O)

    def pos(x):
        while x[0] == 'rd': x = x[1]
        if x[0] == 'ret': x = (last(x[2]).strip('c'),) + tuple(x[3:]) if last(x[2]).lstrip('cr') in ('begin', 'end') else x
        return x[0] if x[0] in ('begin', 'end') and len(x) > 1 and key(x[1]) == key(O) else None
    return len(a) == 2 and [pos(x) for x in a] in (['begin', 'end'], ['rbegin', 'rend'])


class Topo:
    def __init__(s, c, m, kind):
        s.c = c; s.m = m; s.kind = kind   # 'vertices' | 'edges'

    # ---- the sort itself, inlined into the view constructors
    def sort(s, entry, ek, safe):
        c = s.c; fn = stabilize(s.m.entry(entry)); inst = entry
        c.saw('functions')
        d0 = [d for d in find_drains(fn) if any(is_push(e, d.obj) for b, e in all_events(fn) if b in d.L.blocks)]
        if not c.need(len(d0) == 1, 'topological order comes from a depth-first search', fn, 'expected one search loop, found %d' % len(d0), inst): return
        M = DfsModel(c, fn, inst, d0[0].L, 'topological view')
        if not M.ok: return
        d = M.d; S = d.obj
        c.need(M.F.ek == ek, 'search follows the requested edges', d.where(), 'frames hold %s' % M.F.ek, inst)
        c.need(wl_discipline(fn, S) == 'lifo', 'topological order comes from a depth-first search', d.where(), 'worklist is not last-in first-out', inst)
        ex, ed, un = M.split()
        c.need(ex and ed and not un, 'tests for exhausted vertices', (un or [d.where()])[0], 'a step does not distinguish exhausted vertices from vertices with edges left', inst)
        t = Q(NB[ek], FI, FU)
        # order, marks and open-path marks
        orders = {e.args[0] for p in ex for e in p.items if is_push(e) and e.args[0] != S}
        if not c.need(len(orders) == 1, 'finished vertices are recorded', d.where(), 'exhausted vertices are not recorded in one sequence', inst): return
        O = orders.pop()
        cand = {}
        for p in ed + M.early:
            for x in p.conds():
                for y in walk(x.args[0]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and eqv(y[1][2], t): cand[y[1][1]] = 1
        rec = {cell_write(e)[0] for p in ex for e in p.items if cell_write(e) and cell_write(e)[0] in cand}
        marks = [o for o in cand if o not in rec]
        if not c.need(len(marks) == 1 and len(rec) <= 1 and (rec or not safe), 'tests whether the target was visited%s' % (' or is on the current path' if safe else ''), d.where(), 'marks of the target tested: %s' % [pp(x) for x in cand], inst): return
        V = marks[0]; R = rec.pop() if rec else None
        for o, n in ((V, 'visited marks'), (R, 'path marks')):
            if o is None: continue
            ct = [e for b, e in ctor_of(fn, o) if opm(e) in ('vector', 'assign', 'resize') and len(e.args) > 1]
            c.need(len(ct) == 1 and ct[0].args[1] == Q('num_vertices') and (len(ct[0].args) < 3 or ct[0].args[2] == C(0) or ct[0].args[2][0] == 'obj'), 'marks cover all vertices and start clear', ct[0] if ct else fn, '%s created by %s' % (n, ct[0] if ct else 'nothing'), inst)
        for p in ex:
            c.saw('paths')
            one(c, 'a vertex is recorded once, when exhausted', inst, p, [e for e in p.items if is_push(e, O) and eqv(e.args[-1], FU)], 'record of the exhausted vertex')
            c.need(len([e for e in p.items if is_push(e, O)]) == 1 and not [e for e in p.items if is_push(e, S)], 'a vertex is recorded once, when exhausted', p, 'extra record', inst)
            one(c, 'an exhausted vertex leaves the stack', inst, p, [e for e in p.items if is_pop(e, S)], 'pop')
            w = [e for e in p.items if R is not None and cell_write(e, R)]
            c.need(len(w) == (1 if R is not None else 0) and all(cell_write(e)[1] == FU and cell_write(e)[2] == C(0) for e in w), 'an exhausted vertex leaves the current path', w[0] if w else p, 'path mark of the exhausted vertex is not cleared', inst)
            c.need(not [e for e in p.items if cell_write(e, V)], 'visited marks stay set', p, 'visited mark changed when a vertex is exhausted', inst)
            c.need(p.end[0] == 'back', 'the search goes on after an exhausted vertex', p, 'search stops', inst)
        kinds = set()
        cyc_exits = []
        for p in ed + [q for q in M.early if eq_pol(q, FI, FE) is not True]:
            c.saw('paths')
            tv = truth(p, ('cell', V, t, 0)); tr = truth(p, ('cell', R, t, 0)) if R is not None else None
            if tv is False and tr is True: continue          # open vertices are visited
            ps = [e for e in p.items if is_push(e, S)]; mv = [e for e in p.items if cell_write(e, V)]; mr = [e for e in p.items if R is not None and cell_write(e, R)]
            if p.end[0] == 'exit' or tr is True:
                kinds.add('cycle'); cyc_exits.append(p)
                c.need(R is not None and tr is True and p.end[0] == 'exit', 'the search stops exactly on an edge to a vertex of the current path', p, 'search %s on [%s]' % ('stops' if p.end[0] == 'exit' else 'goes on', path_str(p)), inst)
                c.need(not ps, 'the search stops exactly on an edge to a vertex of the current path', p, 'search descends on a cycle', inst)
                continue
            if not c.need(tv is not None and (R is None or tr is False or tv is False), 'tests whether the target was visited', p, 'edge handled without testing its target: [%s]' % path_str(p), inst): continue
            n = 0 if tv else 1; kinds.add('descend' if n else 'skip')
            adv = M.advance(p)
            c.need(len(adv) == 1 and is_add(adv[0].args[1], FI) and all(before(p, a, b) for a in adv for b in ps), 'each edge is looked at once', p, 'frame edge position is not advanced by exactly one before descending', inst)
            one(c, 'descends exactly into unvisited targets', inst, p, ps, 'push of the target', n)
            s.frames(M, ps, t, ek, inst)
            one(c, 'marks exactly unvisited targets', inst, p, [e for e in mv if eqv(cell_write(e)[1], t) and cell_write(e)[2] in ONE], 'visited mark', n)
            c.need(len(mv) == n and not [e for e in p.items if is_pop(e, S) or is_push(e, O)], 'no other effect of an edge', p, 'unexpected effect [%s]' % path_str(p), inst)
            if R is not None:
                one(c, 'a target descended into joins the current path', inst, p, [e for e in mr if eqv(cell_write(e)[1], t) and cell_write(e)[2] in ONE], 'path mark', n)
                c.need(len(mr) == n, 'a target descended into joins the current path', p, 'extra path mark', inst)
        c.need(kinds == ({'descend', 'skip', 'cycle'} if safe else {'descend', 'skip'}), 'search step cases', d.where(), 'cases found: %s' % sorted(kinds), inst)
        # roots
        Lo = d.L.parent
        ito = iterations(fn, Lo) if Lo else None
        if not c.need(ito is not None and ito.kind == 'vertices', 'every vertex is a root', d.where(), 'the search is not started from every vertex (%s)' % ito, inst): return
        v = ito.var
        flags = {}
        for p in cyc_exits:
            for e in p.items:
                if e.kind == 'write' and e.args[1] in ONE: flags[key(e.args[0])] = e.args[0]
        # cells that announce a cycle: written 1 on every cycle exit and only 0 elsewhere
        fl = {}
        for k, a in flags.items():
            oth = [e for b, e in all_events(fn) if e.kind == 'write' and key(e.args[0]) == k and e.args[1] != C(0) and not (e.args[1] in ONE and b in s.exit_blocks(cyc_exits, d))]
            if not oth and all([e for e in p.items if e.kind == 'write' and key(e.args[0]) == k and e.args[1] in ONE] or truth(p, a) is True for p in cyc_exits): fl[k] = a

        def consistent(p, cyc):
            """no test of a cycle flag contradicts what the search found"""
            for e in p.items:
                if e.kind == 'cond':
                    for y in walk(e.args[0]):
                        if y[0] == 'rd' and key(y[1]) in fl:
                            x = truth(Path([e], None, [], {}), y[1])
                            if x is not None and x != cyc: return False
                        if y[0] == 'rd' and not safe and s.never_set(fn, y[1]) and truth(Path([e], None, [], {}), y[1]) is True: return False
            return True
        for p in ito.body + ito.early:
            c.saw('paths')
            x = truth(p, ('cell', V, v, 0))
            lp = [e for e in inner_loops(p) if e.loop is d.L]
            cyc = bool(lp) and not all(q in d.done for q in lp[0].val or [])
            if not consistent(p, cyc): continue
            ps = [e for e in p.items if is_push(e, S)]; mv = [e for e in p.items if cell_write(e, V)]; mr = [e for e in p.items if R is not None and cell_write(e, R)]
            if not c.need(x is not None, 'searches from unvisited roots', p, 'root is not tested: [%s]' % path_str(p), inst): continue
            n = 0 if x else 1
            one(c, 'searches from unvisited roots', inst, p, lp, 'search from the root', n)
            one(c, 'searches from unvisited roots', inst, p, ps, 'push of the root', n)
            s.frames(M, ps, v, ek, inst)
            one(c, 'marks the root', inst, p, [e for e in mv if eqv(cell_write(e)[1], v) and cell_write(e)[2] in ONE], 'visited mark of the root', n)
            if R is not None: one(c, 'the root joins the current path', inst, p, [e for e in mr if eqv(cell_write(e)[1], v) and cell_write(e)[2] in ONE], 'path mark of the root', n)
            c.need(len(mv) == n and len(mr) == (n if R is not None else 0), 'marks the root', p, 'extra marks', inst)
            for a in ps + mv + mr:
                for b in lp: c.need(before(p, a, b), 'marks the root', a, 'root is set up after its search', inst)
            c.need((p.end[0] != 'back') == cyc or ito.at == 'bottom', 'gives up exactly when a cycle was found', p, 'root loop %s although the search %s' % ('stops' if p.end[0] != 'back' else 'goes on', 'found a cycle' if cyc else 'found none'), inst)
        # confinement
        for b, e in all_events(fn):
            if cell_write(e, V) or is_push(e, S) or (R is not None and cell_write(e, R)): c.need(b in Lo.blocks, 'marks and stack change only during the search', e, 'outside', inst)
            if is_push(e, O): c.need(b in d.L.blocks, 'finished vertices are recorded', e, 'recorded outside the search', inst)
            elif e.kind == 'op' and e.args and e.args[0] == O and not is_pure_op(e) and opm(e) not in ('vector', 'reserve', 'push_back', 'emplace_back') and not is_reverse(e, O): c.bad('finished vertices are recorded', e, 'order changed by %s' % e, inst)
        # result
        okf = False
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            c.saw('paths')
            lo = [e for e in inner_loops(p) if e.loop is Lo]
            if not c.need(len(lo) == 1, 'the whole graph is sorted', p, 'no search on path', inst): continue
            cyc = not natural(ito, lo[0])
            if not safe and cyc and s.dead_exit(fn, lo[0], fl): continue
            if not consistent(p, cyc): continue
            rv = [e for e in p.items if is_reverse(e, O)]
            c.need(len(rv) == 1 or cyc, 'the finish order is reversed', rv[1] if len(rv) > 1 else p, 'the recorded order is reversed %d times' % len(rv), inst)
            for e in rv: c.need(whole(e, O), 'the finish order is reversed', e, 'only part of the order is reversed: %s' % e, inst)
            ordered(c, 'the finish order is reversed', inst, p, lo, rv, 'reversed before the search')
            if safe:
                w = [e for e in p.items if e.kind == 'write' and e.args[0][0] == 'fld' and e.args[0][1] == A(0) and e.args[1] in (C(0), C(1))]
                # the has-value flag of the result is the last constant written at the highest offset
                hv = max(w, key=lambda e: e.args[0][2]) if w else None
                c.need(hv is not None and hv.args[1] == C(0 if cyc else 1), 'a cycle is reported exactly when one was found', hv or p, 'result %s a view although the search %s' % ('holds' if hv is None or hv.args[1] == C(1) else 'does not hold', 'found a cycle' if cyc else 'found none'), inst)
                if cyc:
                    okf = True
                    val = [e.args[1] for e in p.items if e.kind == 'write' and e.args[0] == A(0)]
                    src = val[-1] if val else None
                    good = src is not None and src[0] == 'rd' and all([e for e in q.items if e.kind == 'write' and key(e.args[0]) == key(src[1]) and eqv(e.args[1], t)] for q in cyc_exits)
                    c.need(good, 'the vertex reported lies on a cycle', p, 'result is %s' % (pp(src) if src else 'nothing'), inst)
            # the state created here is the one the view holds
            st = [e for e in p.items if e.kind == 'write' and base_of(e.args[1])[0] == 'new' and (e.args[0] == A(0) or e.args[0][0] == 'fld' and e.args[0][1] == A(0))]
            if not cyc:
                c.need(bool(st) and key(st[-1].args[1]) == key(s.state_of(O)), 'the view holds the sorted state', p, 'view does not refer to the sorted state', inst)
                for nm, o in (('cancel', s.off_c), ('count', s.off_n)):
                    if o is None: continue
                    a = s.plus(st[-1].args[1], o) if st else None
                    w = [e for e in p.items if a is not None and e.kind == 'write' and key(e.args[0]) == key(a)]
                    c.need(bool(w) and w[-1].args[1] == C(0), 'counter and cancel request start at zero', w[-1] if w else p, '%s is not initialised to zero' % nm, inst)
        if safe: c.need(okf, 'a cycle is reported exactly when one was found', fn, 'no path reports a cycle', inst)
        no_stale_peek(c, inst, fn, [d.L])

    def exit_blocks(s, exits, d):
        r = set()
        for p in exits: r |= set(p.blocks)
        return r

    def never_set(s, fn, a):
        w = [e for b, e in all_events(fn) if e.kind == 'write' and key(e.args[0]) == key(a)]
        return bool(w) and all(e.args[1] == C(0) for e in w)

    def dead_exit(s, fn, ev, fl):
        """every way of leaving the root loop early needs a flag nobody sets"""
        for q in ev.val or []:
            q = getattr(q, 'raw', q)
            dead = False
            for e in q.items:
                if e.kind == 'cond':
                    for y in walk(e.args[0]):
                        if y[0] == 'rd' and s.never_set(fn, y[1]) and truth(Path([e], None, [], {}), y[1]) is True: dead = True
            if not dead: return False
        return True

    def plus(s, a, o):
        if o == 0: return a
        return ('fld', a[1], a[2] + o) if a[0] == 'fld' else ('fld', a, o)

    def state_of(s, O):
        a = O; o = s.off_o
        if a[0] == 'fld': return ('fld', a[1], a[2] - o) if a[2] != o else a[1]
        return a

    def frames(s, M, ps, v, ek, inst):
        for e in ps:
            offs = dict(zip([l[1] for l in e.inst.leaf or []][1:], e.args[1:]))
            for o, r in M.F.role.items():
                want = {'u': v, 'it': Q(EDGE_Q[ek][0], v), 'end': Q(EDGE_Q[ek][1], v)}.get(r)
                if want is not None: s.c.need(eqv(offs.get(o, ('undef',)), want), 'a frame holds a vertex and all its edges', e, 'frame holds %s where %s is expected' % (pp(offs.get(o, ('undef',))), pp(want)), inst)

    # ---- iteration
    def out_of(s, fn):
        r = []
        for p in lpaths(fn):
            for e in p.items:
                if e.kind == 'write' and (e.args[0] == A(1) or e.args[0][0] == 'fld' and e.args[0][1] == A(1)): r.append((0 if e.args[0] == A(1) else e.args[0][2], e))
        return sorted(r, key=lambda x: x[0])

    def ret_reads(s, fn, what):
        """the member of the state returned by an accessor"""
        for p in lpaths(fn):
            rt = [e for e in p.items if e.kind == 'ret']
            if not rt: continue
            v = rt[0].args[0]
            if v[0] == 'c': continue
            if v[0] == 'rd' and state_off(v[1]): return state_off(v[1])
            s.c.bad('accessors read the state', p, '%s returns %s' % (what, pp(v)), s.inst)
        return None

    def iteration(s, name, ek, valued):
        c = s.c; s.inst = inst = name
        g = lambda n: stabilize(s.m.entry(name + '_' + n))
        begin, inc, star, done = g('begin'), g('inc'), g('star'), g('done')
        c.saw('functions', 4)
        # cancel request and counter
        s.off_c = s.off_n = s.off_o = None
        wr = [(e, state_off(e.args[0])) for p in lpaths(g('cancel')) for e in p.items if e.kind == 'write']
        ok = len(wr) == 1 and wr[0][1] and wr[0][0].args[1] == A(1)
        if not c.need(ok, 'cancel request is stored', g('cancel'), 'cancel(c) does not store its argument in the state', inst): return False
        s.off_c, vst = wr[0][1]
        x = s.ret_reads(g('getcancel'), 'cancel()')
        c.need(x == (s.off_c, vst), 'cancel() returns the stored request', g('getcancel'), 'returns another member', inst)
        x = s.ret_reads(g('visited'), 'num_visited()')
        s.off_n = x[0] if x else None
        # begin: shares the state, index 0
        st = [e.args[0] for p in lpaths(begin) for e in p.items if e.kind == 'write' and key(e.args[1]) == key(vst) and base_of(e.args[0]) == A(1)]
        if not c.need(bool(st), 'iterators share the state of the view', begin, 'begin() does not hand over the state', inst): return False
        o = 0 if st[0] == A(1) else st[0][2]
        I = lambda off, a=0: ('fld', A(a), off) if off else A(a)
        s.S = S = ('rd', I(o), 0)
        # yielded element
        out = s.out_of(star)
        if not c.need(len(out) == (2 if s.kind == 'vertices' else 3) - (0 if valued else 1), 'yields the current element', star, 'operator* writes %d words' % len(out), inst): return False
        if s.kind == 'vertices':
            v = out[0][1].args[1]
            good = v[0] == 'rd' and v[1][0] == 'cell' and state_off(v[1][1]) and key(state_off(v[1][1])[1]) == key(S) and v[1][2][0] == 'rd' and base_of(v[1][2][1]) == A(0)
            if not c.need(good, 'yields the vertex at the current position', star, 'yields %s' % pp(v), inst): return False
            s.off_o = state_off(v[1][1])[0]; s.ix = v[1][2][1]
            if valued: c.need(key(out[1][1].args[1]) == key(Q('vvf', v)), 'value function gets the yielded vertex', star, 'value is %s' % pp(out[1][1].args[1]), inst)
        else:
            cur = out[0][1].args[1]; src = out[1][1].args[1]
            if not c.need(cur[0] == 'rd' and src[0] == 'rd' and base_of(cur[1]) == A(0) and base_of(src[1]) == A(0), 'yields the current edge', star, 'yields (%s, %s)' % (pp(cur), pp(src)), inst): return False
            s.cur = cur[1]; s.src = src[1]
            if valued: c.need(key(out[2][1].args[1]) == key(Q('evf', cur, src)), 'value function gets the yielded edge', star, 'value is %s' % pp(out[2][1].args[1]), inst)
            r = s.edge_walk(inc, ek, 0) and s.edge_walk(begin, ek, 1)
            if not r: return False
        O = s.plus(S, s.off_o)
        # begin
        for p in lpaths(begin):
            w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(s.at(s.ix, 1))]
            c.need(len(w) >= 1 and w[0].args[1] == C(0), 'begin() is at the first position', w[0] if w else p, 'position starts as %s' % (pp(w[0].args[1]) if w else 'nothing'), inst)
            c.need(not [e for e in p.items if e.kind == 'write' and key(base_of(e.args[0])) == key(base_of(vst)) and state_off(e.args[0])], 'iteration does not change the order', p, 'begin() changes the state', inst)
        # advance (vertices)
        if s.kind == 'vertices':
            for p in lpaths(inc):
                c.saw('paths')
                w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(s.ix)]
                c.need(len(w) == 1 and is_add(w[0].args[1], ('rd', s.ix, 0)), 'each increment moves to the next position', w[0] if w else p, 'position written %d times' % len(w), inst)
                nul = eq_pol(p, S, C(0)); n = 0 if nul is True else 1
                wn = [e for e in p.items if e.kind == 'write' and s.off_n is not None and key(e.args[0]) == key(s.plus(S, s.off_n))]
                c.need(len(wn) == n and all(is_add(e.args[1], ('rd', s.plus(S, s.off_n), 0)) for e in wn), 'num_visited counts the increments', wn[0] if wn else p, 'counter written %d times' % len(wn), inst)
                oth = [e for e in p.items if e.kind == 'write' and e not in w + wn] + [e for e in p.items if e.kind == 'op' and not is_pure_op(e)]
                c.need(not oth, 'iteration does not change the order', oth[0] if oth else p, 'other effects of an increment', inst)
        # end
        null = lambda e: s.cmp0(e, S)
        sz = lambda e: s.inside(e, s.ix, O)
        cc = lambda e: s.cmp0(e, ('rd', s.plus(S, s.off_c), 0))
        for nu in (True, False):
            for ins in (True, False):
                for co in (True, False):
                    got = table(done, [(null, nu), (sz, ins), (cc, co)])
                    want = nu or not ins or not co
                    if nu: got = got or {True}
                    c.need(got == {want}, 'iteration ends after the last vertex or when cancelled', done, 'state null=%s, position inside=%s, not cancelled=%s: equals end %s, expected %s' % (nu, ins, co, sorted(map(str, got)), want), inst)
        if s.kind == 'vertices':
            eq = g('eq')
            S2 = ('rd', I(o, 1), 0); i2 = s.at(s.ix, 1)
            n2 = lambda e: s.cmp0(e, S2)
            same = lambda e: s.cmpab(e, S, S2); si = lambda e: s.cmpab(e, ('rd', s.ix, 0), ('rd', i2, 0))
            for a in (True, False):
                for b in (True, False):
                    for sm in (True, False):
                        for i in (True, False):
                            if a != b and sm or (a and b and not sm): continue
                            want = (a and b) or (not a and not b and sm and i)
                            if a and b and not i: continue
                            got = table(eq, [(null, a), (n2, b), (same, sm), (si, i)])
                            c.need(got == {want}, 'iterators are equal exactly at the same position of the same view', eq, 'null=%s/%s same state=%s same position=%s: %s' % (a, b, sm, i, sorted(map(str, got))), inst)
            if 'drv_entry_%s_size' % name in s.m.fns:
                szf = g('size')
                for p in lpaths(szf):
                    rt = [e for e in p.items if e.kind == 'ret'][0].args[0]
                    c.need(rt == C(0) and eq_pol(p, vst, C(0)) is True or rt[0] == 'ret' and last(rt[2]) == 'size' and state_off(rt[3]) == (s.off_o, vst), 'size() is the number of vertices in the order', p, 'returns %s' % pp(rt), inst)
        else:
            eq = g('eq'); S2 = ('rd', I(o, 1), 0)
            ats = lambda a, x: lambda e: s.cmp0(e, x)
            O2 = s.plus(S2, s.off_o); i2 = s.at(s.ix, 1); c2 = s.at(s.cur, 1)
            B_ = (True, False)
            for nu in B_:
                for co in B_:
                    for ia in B_:
                        for ib in B_:
                            for si in B_:
                                for sc in B_:
                                    if si and ia != ib or nu and not (ia and ib and co): continue
                                    ea = nu or not ia or not co; eb = nu or not ib or not co
                                    want = (ea and eb) or (not ea and not eb and si and sc)
                                    got = table(eq, [(ats(0, S), nu), (ats(0, S2), nu), (lambda e: s.inside(e, s.ix, O), ia), (lambda e: s.inside(e, i2, O2), ib),
                                                     (ats(0, ('rd', s.plus(S, s.off_c), 0)), co), (ats(0, ('rd', s.plus(S2, s.off_c), 0)), co),
                                                     (lambda e: s.cmpab(e, S, S2), True), (lambda e: s.cmpab(e, ('rd', s.ix, 0), ('rd', i2, 0)), si), (lambda e: s.cmpab(e, ('rd', s.cur, 0), ('rd', c2, 0)), sc)])
                                    c.need(got == {want}, 'iterators are equal exactly at the same position', eq, 'state null=%s, inside=%s/%s, not cancelled=%s, same vertex position=%s, same edge=%s: %s, expected %s' % (nu, ia, ib, co, si, sc, sorted(map(str, got)), want), inst)
        return True

    def at(s, a, n):
        return A(n) if a == A(0) else ('fld', A(n), a[2])

    def cmp0(s, e, x):
        if e[0] == 'cmp' and e[1] == 'eq':
            for i, j in ((2, 3), (3, 2)):
                if e[i] == C(0) and key(e[j]) == key(x): return True
        if e[0] == 'rd' and key(e) == key(x): return False
        return None

    def cmpab(s, e, a, b):
        if e[0] == 'cmp' and e[1] == 'eq' and {repr(key(e[2])), repr(key(e[3]))} == {repr(key(a)), repr(key(b))}: return True
        return None

    def inside(s, e, ix, O):
        if e[0] == 'cmp' and e[1] == 'lt':
            r = lambda x: x[0] == 'rd' and key(x[1]) == key(ix)
            z = lambda x: x[0] == 'ret' and last(x[2]) == 'size' and key(x[3]) == key(O)
            if r(e[2]) and z(e[3]): return True
        if e[0] == 'cmp' and e[1] == 'eq':
            for i, j in ((2, 3), (3, 2)):
                if e[i][0] == 'rd' and key(e[i][1]) == key(ix) and e[j][0] == 'ret' and last(e[j][2]) == 'size' and key(e[j][3]) == key(O): return False
        return None

    def edge_walk(s, fn, ek, n):
        """++ and begin() of the edge view: move to the next existing edge in order of the sources"""
        c = s.c; inst = s.inst
        cur = s.at(s.cur, n); src = s.at(s.src, n)
        beg, end = EDGE_Q[ek]
        # loads of a source's edge range
        Ls = [L for L in fn.top_loops if any(e.kind == 'write' and key(e.args[0]) == key(cur) for p in lpaths(fn, L) for e in p.items)]
        if not c.need(len(Ls) == 1, 'moves on to the next vertex that has edges', fn, 'expected one loop over the following vertices, found %d' % len(Ls), inst): return False
        L = Ls[0]
        ld = [(p, e) for p in lpaths(fn, L) for e in p.items if e.kind == 'write' and key(e.args[0]) == key(cur)]
        ends = {key(e.args[0]): e.args[0] for p, _ in ld for e in p.items if e.kind == 'write' and e.args[1][:2] == ('q', end)}
        if not c.need(len(ends) == 1, 'loads all edges of the next vertex', ld[0][1], 'the end of the edges is not loaded', inst): return False
        ee = list(ends.values())[0]
        if n == 0:
            x = ld[0][1].args[1]
            good = x[:2] == ('q', beg) and x[2][0] == 'rd' and x[2][1][0] == 'cell' and state_off(x[2][1][1])
            if not c.need(good, 'loads all edges of the next vertex', ld[0][1], 'edges loaded: %s' % pp(x), inst): return False
            s.off_o = state_off(x[2][1][1])[0]
            ixs = {}
            for p, e in ld:
                for w in p.items:
                    if w.kind == 'write' and base_of(w.args[0]) == A(n) and is_add(w.args[1], ('rd', w.args[0], 0)): ixs[key(w.args[0])] = w.args[0]
                    elif w.kind == 'write' and base_of(w.args[0]) == A(n) and w.args[1][:2] == ('op', 'add') and C(1) in w.args[1] and any(y[0] == 'rd' and key(y[1]) == key(w.args[0]) for y in w.args[1][2:]): ixs[key(w.args[0])] = w.args[0]
            if not c.need(len(ixs) == 1, 'moves on to the next vertex', ld[0][1], 'no position is advanced', inst): return False
            s.ix = list(ixs.values())[0]; s.ee = ee
        ix = s.at(s.ix, n)
        c.need(key(ee) == key(s.at(s.ee, n)), 'loads all edges of the next vertex', fn, 'end of the edges kept elsewhere', inst)
        isO = lambda a: a[0] == 'fld' and a[2] == s.off_o and a[1][0] == 'rd' and base_of(a[1][1]) == A(n) or s.off_o == 0 and a[0] == 'rd' and base_of(a[1]) == A(n)

        def load(p, after=None):
            """(position loaded, its write events) when a path loads the edges of a vertex"""
            w = {}
            for e in p.items:
                if e.kind == 'write' and base_of(e.args[0]) == A(n) and key(e.args[0]) in (key(cur), key(src), key(ee)):
                    w.setdefault(key(e.args[0]), []).append(e)
            # value-initialisation of a fresh iterator is not a load
            for k in list(w): w[k] = [e for e in w[k] if e.args[1] != C(0)]
            return w

        def good_load(p, pos, what):
            w = load(p)
            ok = True
            for a, mk in ((cur, lambda v: Q(beg, v)), (src, lambda v: v), (ee, lambda v: Q(end, v))):
                es = w.get(key(a), [])
                v = es[-1].args[1] if es else None
                g = len(es) == 1
                if g:
                    x = v if a is src else (v[2] if v[0] == 'q' and v[1] == mk(('c', 0))[1] and len(v) == 3 else None)
                    g = x is not None and x[0] == 'rd' and x[1][0] == 'cell' and isO(x[1][1]) and pos(x[1][2])
                ok = c.need(g, 'loads all edges of the next vertex', es[-1] if es else p, '%s: %s' % (what, pp(v) if v else 'not loaded'), inst) and ok
            return ok
        for p in lpaths(fn, L):
            if p.end[0] == 'unreach': continue
            c.saw('paths')
            ex = None
            for e in p.items:
                if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                    a, b = e.args[0][2], e.args[0][3]
                    if a[0] == 'rd' and b[0] == 'rd' and {repr(key(a[1])), repr(key(b[1]))} == {repr(key(cur)), repr(key(ee))}: ex = e.pol; break
            wi = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(ix)]
            w = load(p)
            if not ex:
                c.need(not wi and not any(w.values()), 'stays on a vertex that has edges left', p, 'position changes although edges are left: [%s]' % path_str(p), inst)
                c.need(p.end[0] != 'back', 'stays on a vertex that has edges left', p, 'goes on although an edge is available', inst)
                if ex is None: c.need(s.past(p, ix, isO) is True, 'stops only at an edge or after the last vertex', p, 'stops without a test', inst)
                continue
            nxt = lambda v: v[0] == 'op' and v[1] == 'add' and C(1) in v[2:] and any(y[0] == 'rd' and key(y[1]) == key(ix) for y in v[2:]) or (v[0] == 'rd' and key(v[1]) == key(ix))
            c.need(len(wi) == 1 and wi[0].args[1][:2] == ('op', 'add') and nxt(wi[0].args[1]), 'an exhausted vertex leads to the next one', wi[0] if wi else p, 'position written %d times' % len(wi), inst)
            inr = s.past(p, ix, isO, wi[0] if wi else None)
            if s.off_n is not None:
                cn = s.plus(s.S, s.off_n); wn = [e for e in p.items if e.kind == 'write' and state_off(e.args[0]) and state_off(e.args[0])[0] == s.off_n]
                k = 1 if n == 0 else 0
                c.need(len(wn) == k and all(is_add(e.args[1], ('rd', cn, 0)) for e in wn), 'num_visited counts the source vertices passed', wn[0] if wn else p, 'counter written %d times' % len(wn), inst)
            if inr is False:
                good_load(p, nxt, 'next vertex')
                c.need(p.end[0] == 'back', 'skips vertices without edges', p, 'stops at a vertex that may have no edges', inst)
            else:
                c.need(inr is True and not any(w.values()), 'no vertex past the last one is read', p, 'edges loaded without testing the position: [%s]' % path_str(p), inst)
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            lo = [e for e in inner_loops(p) if e.loop is L]
            if n == 0:
                w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(cur)]
                c.need(len(w) == 1 and is_add(w[0].args[1], ('rd', cur, 0)) and len(lo) == 1 and before(p, w[0], lo[0]), 'each increment moves to the next edge', w[0] if w else p, 'edge position is not advanced by one', inst)
                oth = [e for e in p.items if e.kind == 'write' and e not in w] + [e for e in p.items if e.kind == 'op' and not is_pure_op(e)]
                c.need(not oth, 'iteration does not change the order', oth[0] if oth else p, 'other effects of an increment', inst)
            elif lo:
                good_load(p, lambda v: v == C(0) or v[0] == 'rd' and key(v[1]) == key(ix), 'first vertex')
                w = load(p)
                c.need(all(before(p, e, lo[0]) for es in w.values() for e in es), 'begin() is at the first edge', p, 'edges loaded too late', inst)
            else:
                # nothing to iterate: no state, no vertex, or cancelled
                nul = [e for e in p.items if e.kind == 'cond' and e.pol and s.nullish(e.args[0], n)]
                emp = [e for e in p.items if e.kind == 'cond' and s.sizeish(e.args[0], isO) is not None and e.pol != s.sizeish(e.args[0], isO)]
                can = [e for e in p.items if e.kind == 'cond' and e.args[0][0] == 'cmp' and any(x[0] == 'rd' and x[1][0] == 'fld' and x[1][2] == s.off_c and x[1][1][0] == 'rd' for x in e.args[0][2:]) and not e.pol]
                c.need(bool(nul or emp or can), 'begin() is at the first edge', p, 'begin() does not look for an edge: [%s]' % path_str(p), inst)
        return True

    def nullish(s, x, n):
        return x[0] == 'cmp' and x[1] == 'eq' and C(0) in x[2:] and any(y[0] == 'rd' and base_of(y[1]) == A(n) for y in x[2:])

    def sizeish(s, x, isO):
        """polarity of a test 'the order is not empty'"""
        if x[0] == 'cmp' and x[1] == 'lt' and x[2] == C(0) and x[3][0] == 'ret' and last(x[3][2]) == 'size' and isO(x[3][3]): return True
        if x[0] == 'cmp' and x[1] == 'lt' and x[2][0] == 'rd' and x[3][0] == 'ret' and last(x[3][2]) == 'size' and isO(x[3][3]): return True
        if x[0] == 'ret' and last(x[2]) == 'empty' and isO(x[3]): return False
        if x[0] == 'cmp' and x[1] == 'eq' and C(0) in x[2:] and any(y[0] == 'ret' and last(y[2]) == 'size' and isO(y[3]) for y in x[2:]): return False
        return None

    def past(s, p, ix, isO, after=None):
        """True: the position is known to be past the last vertex; False: inside; None unknown"""
        seen = after is None; r = None
        for e in p.items:
            if e is after: seen = True
            if e.kind != 'cond': continue
            x = e.args[0]
            if x[0] != 'cmp': continue
            here = lambda v: v[0] == 'rd' and key(v[1]) == key(ix)
            nxt = lambda v: v[0] == 'op' and v[1] == 'add' and C(1) in v[2:] and any(here(y) for y in v[2:])
            # the position tested: before the step that follows (next one), after it, or the present one when there is none
            pos = here if after is None else nxt if not seen else lambda v: here(v) or nxt(v)
            z = lambda v: v[0] == 'ret' and last(v[2]) == 'size' and isO(v[3])
            if x[1] == 'lt' and pos(x[2]) and z(x[3]): r = not e.pol
            if x[1] == 'eq' and (pos(x[2]) and z(x[3]) or pos(x[3]) and z(x[2])): r = e.pol
        return r


def topo(c, m):
    for kind in ('vertices', 'edges'):
        b = kind + '_topological_sort'
        T = Topo(c, m, kind)
        extra = {'_out': [('_alloc', 0)], '_out_f': [('_f_alloc', 0)], '_in': [], '_in_f': []}
        sf = {'_out': ['_safe', '_safe_alloc'], '_out_f': ['_safe_f', '_safe_f_alloc'], '_in': ['_safe_in'], '_in_f': ['_safe_in_f']}
        for sx, ek, val in (('_out', 'edges', False), ('_out_f', 'edges', True), ('_in', 'in_edges', False), ('_in_f', 'in_edges', True)):
            if not T.iteration(b + sx, ek, val): continue
            postfix(c, m, b + sx)
            T.sort(b + sx + '_ctor', ek, False)
            for x, _ in extra[sx]: T.sort(b + x, ek, False)
            for x in sf[sx]: T.sort(b + x, ek, True)

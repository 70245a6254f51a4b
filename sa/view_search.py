"""Rules for the lazy breadth-first / depth-first search views.

The views are generators: construction, advancing an iterator, reading an iterator, comparing with the end and the
control functions are separate entry points that share a heap state.  Every path of each entry point is checked
against what one step of the search has to do for an arbitrary state."""
from lib import *
from alg_traversal import one, path_str, ordered, FU, FI, FE, no_stale_peek

NB = {'edges': 'target', 'in_edges': 'in_source'}
CONT, BRANCH, ALL = 0, 1, 2   # enumerators of cancel_search, checked against the source by the driver (static_assert)


class Part:
    """forwards only the obligations of one property"""

    def __init__(s, c, part): s.c = c; s.part = part; s.cur = 'walk'

    def need(s, ok, rule, where, msg, inst='', part=None):
        if (part or s.cur) == s.part: return s.c.need(ok, rule, where, msg, inst)
        return bool(ok)

    def bad(s, rule, where, msg, inst='', part=None): return s.need(False, rule, where, msg, inst, part)

    def saw(s, *a): s.c.saw(*a)

    @property
    def obl(s): return s.c.obl if s.cur == s.part else []


def stabilize(fn):
    """loads of members of the argument objects that the function never writes denote one value"""
    if 'stable' in fn.cache: return fn
    ev = Eval(fn)
    written = {key(ev.v(x.ops[1])) for x in fn.inst.values() if x.op == 'store'}
    st = set()
    for x in fn.inst.values():
        if x.op == 'load':
            a = ev.v(x.ops[0])
            if (a[0] == 'a' or a[0] == 'fld' and a[1][0] == 'a') and key(a) not in written: st.add(x.id)
    fn.stable = st
    fn.cache['stable'] = True
    return fn


def state_off(a):
    """offset of an address inside the object a member pointer of argument 0/1 refers to"""
    o = 0
    if a[0] == 'fld': o = a[2]; a = a[1]
    if a[0] == 'rd' and (a[1][0] == 'a' or a[1][0] == 'fld' and a[1][1][0] == 'a'): return o, a
    return None


def possible(p, cell, vals, upto=None):
    """values of a memory cell consistent with the conditions on its initial value"""
    k = key(cell); s = set(vals); wr = False
    for e in p.items:
        if e is upto: break
        if e.kind != 'cond': continue
        x = e.args[0]
        r = lambda y: y[0] == 'rd' and key(y[1]) == k
        if x[0] == 'cmp' and x[1] in ('eq', 'lt'):
            for i, j in ((2, 3), (3, 2)):
                if r(x[i]) and x[j][0] == 'c':
                    n = x[j][1]
                    f = (lambda v: v == n) if x[1] == 'eq' else (lambda v: v < n) if i == 2 else (lambda v: n < v)
                    s = {v for v in s if f(v) == e.pol}
        elif x[0] == 'not' and r(x[1]): s = {v for v in s if (not v) == e.pol}
        elif r(x): s = {v for v in s if bool(v) == e.pol}
    return s


def expand(fn, p, region):
    """replace collapsed inner loops that hold the interesting work by each of their leaving iterations"""
    for i, e in enumerate(p.items):
        if e.kind == 'loop' and e.exit is not None and e.loop in region:
            out = []
            for r in e.val or []:
                r = getattr(r, 'raw', r)
                q = normalize(fn, Path(p.items[:i] + r.items + p.items[i + 1:], p.end, p.blocks, p.env))
                if q is not None: out += expand(fn, q, region)
            return out
    return [p]


def null_state(p, S):
    """True: state pointer null on this path; False: not null"""
    return eq_pol(p, S, C(0))


def beval(e, atoms):
    if e[0] == 'c': return bool(e[1])
    if e[0] == 'not':
        v = beval(e[1], atoms); return None if v is None else not v
    for a, v in atoms:
        r = a(e)
        if r is not None: return v if r else not v
    if e[0] == 'sel':
        v = beval(e[1], atoms)
        return None if v is None else beval(e[2] if v else e[3], atoms)
    if e[0] == 'op' and e[1] in ('and', 'or'):
        v = [beval(x, atoms) for x in e[2:]]
        if e[1] == 'and': return False if False in v else None if None in v else True
        return True if True in v else None if None in v else False
    if e[0] == 'op' and e[1] == 'xor' and C(1) in e[2:]:
        x = [y for y in e[2:] if y != C(1)]
        v = beval(x[0], atoms) if x else None
        return None if v is None else not v
    if e[0] == 'cmp' and e[1] == 'eq' or e[0] == 'op' and e[1] == 'xor' and len(e) == 4:      # of two truth values
        a, b = beval(e[2], atoms), beval(e[3], atoms)
        if a is not None and b is not None and not (e[2][0] == 'c' and e[2][1] not in (0, 1, -1)) and not (e[3][0] == 'c' and e[3][1] not in (0, 1, -1)): return (a == b) == (e[0] == 'cmp')
    return None


def canon(fn, L=None, skip=None):
    """paths of a region with local objects and loops renamed in order of appearance; reads and pure operations are
    dropped"""
    names = {}

    def nm(kind, i): return names.setdefault((kind, i), (kind, 1 + sum(1 for k in names if k[0] == kind)))

    def rn(e):
        def f(x):
            if x[0] in ('obj', 'phi') and len(x) >= 2: return nm(x[0], x[1]) + tuple(x[2:])
            return x
        return rewrite(key(e), f)

    def reg(L):
        out = []
        for p in lpaths(fn, L):
            row = []
            for e in p.items:
                if e.kind == 'read' or (e.kind == 'op' and is_pure_op(e)) or skip and skip(e): continue
                row.append((e.kind, e.name, tuple(rn(a) for a in e.args), e.pol, None if e.kind != 'loop' else reg(e.loop)))
            out.append((p.end[0], tuple(row)))
        return tuple(out)
    return reg(L)


def postfix(c, m, name, rule='a postfix increment advances like a prefix one and returns the position before it'):
    """i++ : the copy handed out holds the members as they were, everything else happens as in ++i"""
    fn = stabilize(m.entry(name + '_pinc')); pre = stabilize(m.entry(name + '_inc')); c.saw('functions')
    out = lambda e: e.kind == 'write' and base_of(e.args[0]) in (A(1),) or e.kind == 'write' and base_of(e.args[0])[0] == 'obj'
    off = lambda a: 0 if a in (A(0), A(1)) else a[2] if a[0] == 'fld' and a[1] in (A(0), A(1)) else None
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        c.saw('paths')
        w = [e for e in p.items if e.kind == 'write' and base_of(e.args[0]) == A(1)]
        c.need(bool(w), rule, p, 'nothing is returned', name)
        for e in w:
            v = e.args[1]; src = v[1] if v[0] in ('rd', 'copied') else None
            ok = src is not None and base_of(src) == A(0) and off(src) is not None and off(src) == off(e.args[0])
            if ok and not (v[0] == 'rd' and len(v) > 2 and v[2] == 0):
                ok = not any(x.kind == 'loop' or x.kind == 'write' and base_of(x.args[0]) == A(0) and off(x.args[0]) is not None and off(x.args[0]) >= off(src) for x in p.items[:idx(p, e)])
            c.need(ok, rule, e, 'the position returned holds %s' % pp(v), name)
    c.need(canon(fn, skip=out) == canon(pre, skip=out), rule, fn, 'i++ and ++i have different effects', name)


def table(fn, atoms):
    """values the function may return for one assignment of the atoms"""
    r = set()
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        ok = True
        for e in p.items:
            if e.kind == 'cond':
                v = beval(e.args[0], atoms)
                if v is not None and v != e.pol: ok = False
        if not ok: continue
        rt = [e for e in p.items if e.kind == 'ret']
        r.add(beval(rt[0].args[0], atoms) if rt else None)
    return r


class View:
    def __init__(s, c, m, name, kind, order, ek, valued):
        s.c = c; s.m = m; s.name = name; s.kind = kind; s.order = order; s.ek = ek; s.valued = valued
        s.inst = name
        g = lambda n: stabilize(m.entry(name + '_' + n))
        s.inc = g('inc'); s.begin = g('begin'); s.star = g('star'); s.done = g('done'); s.f_cancel = g('cancel')
        s.f_get = g('getcancel'); s.f_vis = g('visited'); s.f_depth = g('depth')

    def nbr(s, e, u): return Q(NB[s.ek], e, u)

    # ---- roles of the state members, from the functions that expose them
    def roles(s):
        c = s.c
        s.off = {}
        wr = [(e, state_off(e.args[0])) for p in lpaths(s.f_cancel) for e in p.items if e.kind == 'write']
        wr = [(e, o) for e, o in wr if o and e.args[1] == A(1)]
        ok = len(wr) == 1
        if not c.need(ok, 'cancel request is stored', s.f_cancel, 'cancel(c) does not store its argument in the state', s.inst, part='cancel'):
            if not wr: return False
        s.off['cancel'] = wr[0][1][0]; s.vst = wr[0][1][1]
        for p in lpaths(s.f_cancel):
            if null_state(p, s.vst) is True: continue
            c.need(len([e for e in p.items if e.kind == 'write']) == 1, 'cancel request is stored', p, 'a path of cancel(c) does not store the request', s.inst, part='cancel')
        for p in lpaths(s.f_get):
            rt = [e for e in p.items if e.kind == 'ret']
            if null_state(p, s.vst) is True or not rt: continue
            v = rt[0].args[0]
            c.need(v[0] == 'rd' and state_off(v[1]) == (s.off['cancel'], s.vst), 'cancel() returns the stored request', p, 'returns %s' % pp(v), s.inst, part='cancel')
        s.depth = None
        for nm, fn in (('count', s.f_vis), ('depth', s.f_depth)):
            for p in lpaths(fn):
                rt = [e for e in p.items if e.kind == 'ret']
                if null_state(p, s.vst) is True or not rt: continue
                v = rt[0].args[0]
                if v[0] == 'rd' and state_off(v[1]): s.off[nm] = state_off(v[1])[0]
                elif nm == 'depth' and v[0] == 'ret' and last(v[2]) == 'size' and state_off(v[3]): s.depth = state_off(v[3])[0]
                else: c.bad('counters are read from the state', p, '%s() returns %s' % (nm, pp(v)), s.inst)
        # iterators share the state of the view
        st = None
        for p in lpaths(s.begin):
            for e in p.items:
                if e.kind == 'write' and key(e.args[1]) == key(s.vst) and (e.args[0] == A(1) or e.args[0][0] == 'fld' and e.args[0][1] == A(1)): st = e.args[0]
        if not c.need(st is not None, 'iterators share the state of the view', s.begin, 'begin() does not hand the state of the view to the iterator', s.inst): return False
        o = 0 if st == A(1) else st[2]
        adr = ('fld', A(0), o) if o else A(0)
        s.S = ('rd', adr, 0)
        # the worklist
        wl = {e.args[0] for b, e in all_events(s.inc) if is_push(e)}
        if not c.need(len(wl) == 1 and state_off(list(wl)[0]), 'one worklist', s.inc, 'advancing pushes to %d worklists' % len(wl), s.inst): return False
        s.W = wl.pop()
        s.wo = state_off(s.W)[0]
        if not c.need(key(state_off(s.W)[1]) == key(s.S), 'one worklist', s.inc, 'worklist is not part of the shared state', s.inst): return False
        d = wl_discipline(s.inc, s.W)
        if s.order == 'fifo' and s.kind == 'edge':   # back() of the queue is read by cancel_branch only
            ks = {e.name.split('::')[0] for b, e in all_events(s.inc) if e.kind == 'op' and e.args and e.args[0] == s.W}
            d = d or ('fifo' if ks == {'queue'} else None)
        c.need(d == s.order, 'search order', s.inc, 'the worklist is not %s' % {'fifo': 'first-in first-out', 'lifo': 'last-in first-out'}[s.order], s.inst)
        return True

    def cell(s, nm): return ('fld', s.S, s.off[nm]) if s.off.get(nm) else s.S

    def st_writes(s, p, nm):
        k = key(s.cell(nm))
        return [e for e in p.items if e.kind == 'write' and key(e.args[0]) == k]

    def find_marks(s, fn, paths, t):
        for p in paths:
            for x in p.conds():
                for y in walk(x.args[0]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and eqv(y[1][2], t): return y[1][1]
        return None

    # ---- construction
    def ctor(s, name):
        c = s.c; fn = stabilize(s.m.entry(name)); inst = name; c.saw('functions')
        P = [p for p in lpaths(fn) if p.end[0] == 'ret']
        seed = A(2)
        c.need(bool(P), 'view construction', fn, 'no path constructs the view', inst)
        for p in P:
            c.saw('paths')
            new = [e for e in p.items if e.kind == 'write' and e.args[1][0] in ('new', 'fld') and base_of(e.args[1])[0] == 'new' and (e.args[0] == A(0) or e.args[0][0] == 'fld' and e.args[0][1] == A(0))]
            st = [e for e in new if key(e.args[0]) == key(s.vst[1])]
            if not c.need(len(st) == 1, 'view construction creates the state', p, 'no search state is created', inst): continue
            st = st[0].args[1]
            at = lambda o: ('fld', st[1], st[2] + o) if st[0] == 'fld' else (('fld', st, o) if o else st)
            W = at(s.wo); M = at(s.mo)
            ps = [e for e in p.items if is_push(e, W)]
            if c.need(len(ps) == 1, 'seed is queued once', p, 'seed pushed %d times' % len(ps), inst):
                f = dict(zip([l[1] for l in ps[0].inst.leaf or []][1:], ps[0].args[1:]))
                for o, r in s.fr.items():
                    v = f.get(o, ('undef',))
                    want = {'u': seed, 'it': Q(EDGE_Q[s.ek][0], seed), 'end': Q(EDGE_Q[s.ek][1], seed), 'd': C(0)}[r]
                    c.need(eqv(v, want), 'seed is queued', ps[0], 'seed entry: %s where %s is expected' % (pp(v), pp(want)), inst)
            mk = [e for e in p.items if cell_write(e, M)]
            c.need(len(mk) == 1 and eqv(cell_write(mk[0])[1], seed) and cell_write(mk[0])[2] in (C(1), C(-1)), 'seed is marked as visited', mk[0] if mk else p, 'the seed (and only the seed) must be marked visited at construction', inst)
            ct = [e for e in p.items if e.kind == 'op' and e.args and e.args[0] == M and opm(e) in ('vector', 'assign', 'resize')]
            ok = len(ct) == 1 and len(ct[0].args) >= 2 and ct[0].args[1] == Q('num_vertices') and (len(ct[0].args) < 3 or ct[0].args[2] in (C(0),) or ct[0].args[2][0] in ('obj',))
            c.need(ok, 'visited marks cover all vertices and start clear', ct[0] if ct else p, 'marks created by %s' % (ct[0] if ct else 'nothing'), inst)
            for nm in ('count', 'depth', 'cancel'):
                if nm not in s.off: continue
                w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(at(s.off[nm]))]
                c.need(bool(w) and w[-1].args[1] == C(0), 'counters and cancel request start at zero', w[-1] if w else p, '%s starts as %s' % (nm, pp(w[-1].args[1]) if w else 'nothing'), inst, part='cancel' if nm == 'cancel' else None)

    # ---- effects on the shared state
    def effects(s, p, allow=()):
        r = []
        for e in p.items:
            if e.kind == 'write' and key(base_of(e.args[0])) == key(base_of(s.S)): r.append(e)
            elif e.kind == 'op' and not is_pure_op(e) and e.args and key(base_of(e.args[0])) == key(base_of(s.S)): r.append(e)
        return r

    def pop_all(s, fn):
        r = []
        for L in fn.loops:
            d = drains(fn, L)
            if d and d.obj == s.W and not d.early and all(all(is_pop(e, s.W) for e in s.effects(p)) for p in d.body + d.done): r.append(L); continue
            # one pop per turn, as many turns as there are elements
            ph = [h for h in header_phis(fn, L)]
            P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
            back = [p for p in P if p.end[0] == 'back']; out = [p for p in P if p.end[0] != 'back']
            if len(ph) != 1 or len(back) != 1 or not out or len([e for e in back[0].items if is_pop(e, s.W)]) != 1 or len(s.effects(back[0])) != 1 or any(s.effects(p) for p in out): continue
            n = ('phi', ph[0][0]); size = lambda x: x[0] == 'ret' and str(x[2]).split('::')[-1].split('#')[0] == 'size' and key(x[3]) == key(s.W)
            if len(ph[0][1]) == 1 and size(ph[0][1][0]) and key(back[0].end[2][n[1]]) in {('op', 'add') + tuple(sorted([C(k), n], key=repr)) for k in (-1, (1 << 64) - 1)} | {('op', 'sub', n, C(1))} \
                    and all(eq_pol(p, n, C(0)) is (p.end[0] != 'back') for p in P): r.append(L)
        return r

    def replaced(s, p):
        """the worklist is overwritten by, or swapped with, one that was just made empty"""
        for i, e in enumerate(p.items):
            if e.kind != 'op' or opm(e) not in ('operator=', 'swap') or len(e.args) != 2 or s.W not in e.args: continue
            o = e.args[1] if e.args[0] == s.W else e.args[0]
            if o[0] != 'obj': continue
            mine = [x for x in p.items[:i] if x.kind == 'op' and o in x.args]
            if all(opm(x) in ('stack', 'queue', 'vector', 'deque') and not any(y == s.W for y in x.args) for x in mine) and not any(x.kind == 'op' and s.W in x.args and not is_pure_op(x) for x in p.items[:i] + p.items[i + 1:]): return True
        return False

    def guards(s, fn, p):
        """state of a path on entry: 'none' | 'empty' | 'live' """
        if null_state(p, s.S) is True: return 'none'
        for e in p.items:
            if e.kind == 'loop' or s.effects(Path([e], None, [], {})): break
            if e.kind == 'cond':
                t = empty_test(e.args[0])
                if t and t[0] == s.W: return 'empty' if e.pol == t[1] else 'live'
        return '?'

    def iter_out(s):
        """cells of the iterator read by operator*"""
        r = []
        for p in lpaths(s.star):
            for e in p.items:
                if e.kind == 'write' and e.args[0] != A(1) and not (e.args[0][0] == 'fld' and e.args[0][1] == A(1)): continue
                if e.kind == 'write': r.append((0 if e.args[0] == A(1) else e.args[0][2], e))
        return sorted(r, key=lambda x: x[0])

    def common(s, main):
        """function-level obligations of advancing; returns nothing"""
        c = s.c; fn = s.inc; inst = s.inst
        pa = s.pop_all(fn)
        kinds = set()
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            c.saw('paths')
            g = s.guards(fn, p)
            loops = inner_loops(p)
            mains = [e for e in loops if e.loop is main]
            if g in ('none', 'empty'):
                c.need(not s.effects(p) and not mains, 'advancing a finished search does nothing', p, 'state is changed on path [%s]' % path_str(p), inst); continue
            cs = possible(p, s.cell('cancel'), (CONT, BRANCH, ALL))
            w = s.st_writes(p, 'cancel')
            if not cs: continue
            c.need(len(cs) == 1 or not (cs & {ALL}), 'cancel_all is honoured', p, 'a search cancelled with cancel_all takes the same path as one that goes on: [%s]' % path_str(p), inst, part='cancel')
            c.need(len(cs) == 1 or not (cs & {BRANCH}), 'cancel_branch is honoured', p, 'a search cancelled with cancel_branch takes the same path as one that goes on: [%s]' % path_str(p), inst, part='cancel')
            if len(cs) != 1: continue
            v = cs.pop(); kinds.add(v)
            if v == ALL:
                em = [e for e in loops if e.loop in pa]
                clr = [e for e in p.items if e.kind == 'op' and opm(e) in ('clear',) and e.args[0] == s.W]
                c.need((em or clr or s.replaced(p)) and not mains and not [e for e in p.items if is_push(e)], 'cancel_all ends the search', p, 'the worklist is not emptied after cancel_all: [%s]' % path_str(p), inst, part='cancel')
                c.need(not s.marks_changed(p), 'cancel_all ends the search', p, 'cancel_all goes on discovering', inst, part='cancel')
            elif v == BRANCH:
                c.need(len(w) >= 1 and w[-1].args[1] == C(CONT), 'cancel_branch applies once', p, 'the cancel_branch request is not cleared: the search stops or skips further branches', inst, part='cancel')
                s.branch(p, mains)
            else:
                c.need(not [e for e in w if e.args[1] != C(CONT)], 'search goes on unless cancelled', p, 'a cancel request appears by itself', inst, part='cancel')
                s.go_on(p, mains)
        c.need({CONT} <= kinds, 'search goes on unless cancelled', fn, 'no path advances the search', inst)
        c.need({BRANCH, ALL} <= kinds, 'cancel requests are examined', fn, 'requests examined: %s' % sorted(kinds), inst, part='cancel')

    def marks_changed(s, p): return [e for e in p.items if cell_write(e, s.M)] if s.M else []

    def check_done(s, has):
        c = s.c; fn = s.done; S = s.S; W = s.W
        def a_null(e): return True if e[0] == 'cmp' and e[1] == 'eq' and C(0) in e[2:] and any(key(x) == key(S) for x in e[2:]) else None

        def a_empty(e):
            t = empty_test(e)
            return None if not t or key(t[0]) != key(W) else t[1]

        def a_has(e): return True if has is not None and e[0] == 'rd' and key(e[1]) == key(has) else None
        for nul in (False, True):
            for emp in (False, True):
                for h in ((False, True) if has is not None else (False,)):
                    got = table(fn, [(a_null, nul), (a_empty, emp), (a_has, h)])
                    want = nul or (emp and not h)
                    c.need(got == {want}, 'end is reached exactly when nothing is left to yield', fn, 'state null=%s, worklist empty=%s, element pending=%s: compares equal to end %s, expected %s' % (nul, emp, h, sorted(map(str, got)), want), s.inst)


# ------------------------------------------------------------------ vertices_bfs
class VertexBfs(View):
    def run(s):
        c = s.c; fn = s.inc; inst = s.inst
        c.saw('functions')
        if not s.roles(): return
        el = [(L, iterations(fn, L)) for L in fn.loops]
        el = [(L, i) for L, i in el if i and i.kind == s.ek]
        if not c.need(len(el) == 1, 'scans the edges of the current vertex', fn, 'no loop over all edges of the current vertex', inst): return
        L, it = el[0]; u = it.over; t = s.nbr(it.var, u)
        s.L = L; s.it = it
        c.need(not it.early, 'scans the edges of the current vertex', it.early[0] if it.early else it.where(), 'edge scan can stop early', inst)
        c.need(u[0] == 'rd' and u[1][0] == 'peek' and u[1][1] == s.W and u[1][2] == 'front', 'scans the edges of the current vertex', it.where(), 'edges scanned belong to %s' % pp(u), inst)
        s.M = s.find_marks(fn, it.body, t)
        if not c.need(s.M is not None and state_off(s.M), 'tests whether the neighbour was visited', it.where(), 'discovery does not depend on the visited mark of the neighbour', inst): return
        s.mo = state_off(s.M)[0]
        uo = u[1][2] if u[1][0] == 'fld' else 0
        ps = [e for p in it.body for e in p.items if is_push(e, s.W)]
        s.fr = {}
        for e in ps[:1]:
            f = dict(zip([l[1] for l in e.inst.leaf or []][1:], e.args[1:]))
            for o, v in f.items():
                if eqv(v, t): s.fr[o] = 'u'
                else: s.fr[o] = 'd'
        c.need(s.fr.get(0) == 'u', 'queues the neighbour', ps[0] if ps else it.where(), 'queued entries do not start with the neighbour', inst)
        dcell = [o for o, r in s.fr.items() if r == 'd']
        for p in it.body:
            c.saw('paths')
            tr = truth(p, ('cell', s.M, t, 0))
            if not c.need(tr is not None, 'tests whether the neighbour was visited', p, 'path skips or discovers a neighbour without testing its mark: [%s]' % path_str(p), inst): continue
            s.discover(p, t, 0 if tr else 1, u, dcell, fn)
        s.common(L)
        s.check_done(None)
        so = s.iter_out()
        pk = lambda v: v[0] == 'rd' and v[1] in (('peek', s.W, 'front', v[1][3]),) if v[0] == 'rd' and v[1][0] == 'peek' else False
        for o, e in so[:1]: c.need(o == 0 and pk(e.args[1]), 'yields the current vertex', e, 'yields %s' % pp(e.args[1]), inst)
        c.need(bool(so), 'yields the current vertex', s.star, 'operator* yields nothing', inst)
        if s.valued: c.need(len(so) == 2 and so[1][1].args[1][:2] == ('q', 'vvf') and pk(so[1][1].args[1][2]), 'value function gets the yielded vertex', s.star, 'value is %s' % (pp(so[1][1].args[1]) if len(so) > 1 else 'missing'), inst, part='walk')
        for p in lpaths(s.begin): c.need(not [e for e in p.items if e.kind == 'op' and not is_pure_op(e)], 'begin() starts at the seed', p, 'begin() changes the search state', inst)
        no_stale_peek(c, inst, fn, [L])

    def discover(s, p, t, n, u, dcell, fn):
        c = s.c; inst = s.inst
        mk = s.marks_changed(p); ps = [e for e in p.items if is_push(e, s.W)]
        one(c, 'marks a vertex when it is discovered', inst, p, [e for e in mk if eqv(cell_write(e)[1], t) and cell_write(e)[2] in (C(1), C(-1))], 'mark of the neighbour', n)
        one(c, 'queues a vertex exactly when it is discovered', inst, p, [e for e in ps if eqv(e.args[1], t)], 'push of the neighbour', n)
        c.need(len(mk) == n and len(ps) == n, 'no other marks or pushes', p, 'extra mark or push: [%s]' % path_str(p), inst)
        s.counters(p, n, u, dcell, ps)

    def counters(s, p, n, u, dcell, ps):
        c = s.c; inst = s.inst
        w = s.st_writes(p, 'count')
        c.need(len(w) == n and all(is_add(e.args[1], ('rd', s.cell('count'), 0)) for e in w), 'num_visited grows by one per discovered vertex', w[0] if w else p, 'counter written %d times' % len(w), inst)
        if 'depth' in s.off and dcell and ps:
            o = dcell[0]
            f = dict(zip([l[1] for l in ps[0].inst.leaf or []][1:], ps[0].args[1:]))
            d0 = ('fld', u[1], o - (u[1][2] if u[1][0] == 'fld' else 0)) if u[0] == 'rd' else None
            ok = is_add(f[o], ('rd', d0, 0)) if d0 else f[o] == ('op', 'add') + tuple(sorted([C(1), ('frame', 'd')], key=repr))
            c.need(ok, 'depth of a discovered vertex is one more than its parent', ps[0], 'depth recorded is %s' % pp(f[o]), inst)
            w = s.st_writes(p, 'depth'); dn = f[o]; cur = ('rd', s.cell('depth'), 0)
            lt = lt_pol(p, cur, dn)
            le = lt_pol(p, dn, cur)
            for d in [x for x in walk(dn) if x != dn]:                  # not (d < cur) is cur < d + 1
                if lt is None and is_add(dn, d) and lt_pol(p, d, cur) is not None: lt = not lt_pol(p, d, cur)
            if lt is None and le is not None: lt = (not le) if not le else False
            mx = [e for e in w if e.args[1][0] == 'sel']
            if w and lt is None and mx:
                x = mx[0].args[1]
                ok = x[1][0] == 'cmp' and x[1][1] == 'lt' and ((eqv(x[1][2], cur) and eqv(x[1][3], dn) and eqv(x[2], dn) and eqv(x[3], cur)) or (eqv(x[1][2], dn) and eqv(x[1][3], cur) and eqv(x[2], cur) and eqv(x[3], dn)))
            else:
                ok = (lt is True and len(w) == 1 and eqv(w[0].args[1], dn)) or (lt is False and not w) or (lt is None and len(w) == 1 and eqv(w[0].args[1], ('op', 'llvm.umax', cur, dn)))
            c.need(ok, 'depth() is the largest depth discovered', w[0] if w else p, 'maximum depth not maintained: [%s]' % path_str(p), inst)
        elif 'depth' in s.off: c.need(not s.st_writes(p, 'depth') or n, 'depth() is the largest depth discovered', p, 'depth changes without a discovery', inst)

    def go_on(s, p, mains):
        c = s.c
        one(c, 'each step takes one vertex', s.inst, p, [e for e in p.items if is_pop(e, s.W)], 'pop')
        one(c, 'each step scans the edges of the taken vertex', s.inst, p, mains, 'edge scan')
        c.need(not s.marks_changed(p) and not [e for e in p.items if is_push(e, s.W)], 'no other marks or pushes', p, 'vertices are discovered outside the edge scan', s.inst)

    def branch(s, p, mains):
        c = s.c
        c.need(len([e for e in p.items if is_pop(e, s.W)]) == 1, 'cancel_branch skips the current vertex only', p, 'the cancelled vertex is not removed exactly once', s.inst, part='cancel')
        c.need(not mains and not s.marks_changed(p) and not [e for e in p.items if is_push(e, s.W)], 'cancel_branch does not expand the current vertex', p, 'edges of the cancelled vertex are explored', s.inst, part='cancel')


# ------------------------------------------------------------------ generators with (vertex, next edge, end) frames
class FrameView(VertexBfs):
    def run(s):
        c = s.c; fn = s.inc; inst = s.inst
        c.saw('functions')
        if not s.roles(): return
        pa = s.pop_all(fn)
        ms = [d for d in find_drains(fn) if d.obj == s.W and d.L not in pa]
        ms = [d for d in ms if not any(d.L is not x.L and d.L.blocks < x.L.blocks for x in ms)]
        if not c.need(len(ms) == 1, 'search loop', fn, 'no loop that continues the search until the worklist is empty', inst): return
        D = ms[0].L; s.main = D
        F = s.F = Frames(fn, s.W)
        if not c.need({'u', 'it', 'end'} <= set(F.role.values()) and F.ek == s.ek, 'worklist entries hold vertex, next edge and end of its edges', fn, 'entries pushed do not hold (vertex, begin of its edges, end of its edges)', inst): return
        s.fr = dict(F.role)
        for o in F.offs:
            if o not in s.fr: s.fr[o] = 'd'
        region = [L for L in fn.loops if L.blocks < D.blocks]
        raw = []
        for p in lpaths(fn, D):
            if p.end[0] == 'unreach': continue
            raw += expand(fn, p, region)
        for L in region: raw += [p for p in lpaths(fn, L) if p.end[0] == 'back']
        dof = [o for o, r in s.fr.items() if r == 'd']

        def f2(e):
            x = F.f(e)
            if x != e: return x
            if e[0] == 'rd' and dof and (e[1] == ('fld', ('peek',) + e[1][1][1:], dof[0]) if e[1][0] == 'fld' and e[1][1][0] == 'peek' and e[1][1][1] == s.W else False): return ('frame', 'd')
            return e
        P = []
        for p in raw:
            q = map_path(p, f2)
            if q is not None: P.append(q)
        t = s.nbr(FI, FU)
        s.M = s.find_marks(fn, P, t)
        if not c.need(s.M is not None and state_off(s.M), 'tests whether the neighbour was visited', fn, 'discovery does not depend on the visited mark of the neighbour', inst): return
        s.mo = state_off(s.M)[0]
        out = s.iter_out()
        # pending flag of edge views
        s.has = None
        if s.kind == 'edge':
            for p in lpaths(s.done):
                for e in p.items:
                    for a in e.args:
                        for y in walk(a):
                            if y[0] == 'rd' and (y[1][0] == 'fld' and y[1][1] == A(0) or y[1] == A(0)) and key(y) != key(s.S): s.has = y[1]
            c.need(s.has is not None, 'end is reached exactly when nothing is left to yield', s.done, 'the comparison with the end does not look at the pending edge', inst)
        kinds = set()
        for p in P:
            c.saw('paths')
            emp = None
            for e in p.items:
                if e.kind == 'cond':
                    x = empty_test(e.args[0])
                    if x and x[0] == s.W: emp = e.pol == x[1]; break
            ex = eq_pol(p, FI, FE)
            pops = [e for e in p.items if is_pop(e, s.W)]; ps = [e for e in p.items if is_push(e, s.W)]; mk = s.marks_changed(p)
            adv = s.advance(p); tr = truth(p, ('cell', s.M, t, 0))
            y = [e for e in p.items if e.kind == 'write' and base_of(e.args[0]) == A(0)]
            if emp is True:
                c.need(not pops and not ps and not mk and not s.yielded(p), 'search loop', p, 'something happens after the worklist is empty', inst)
                c.need(p.end[0] != 'back', 'search loop', p, 'loop continues with an empty worklist', inst); continue
            if not c.need(ex is not None, 'tests whether the current vertex has edges left', p, 'step does not compare the next edge with the end: [%s]' % path_str(p), inst): continue
            if ex:
                kinds.add('exhausted')
                one(c, 'an exhausted vertex is removed', inst, p, pops, 'pop')
                c.need(not ps and not mk and not adv and not s.yielded(p), 'an exhausted vertex is removed', p, 'other effects when a vertex is exhausted: [%s]' % path_str(p), inst)
                c.need(p.end[0] == 'back', 'the search goes on after an exhausted vertex', p, 'the search stops when a vertex is exhausted', inst)
                continue
            if not c.need(tr is not None, 'tests whether the neighbour was visited', p, 'edge handled without testing the mark of its neighbour: [%s]' % path_str(p), inst): continue
            one(c, 'each edge is looked at once', inst, p, [e for e in adv if is_add(e.args[1], FI)], 'advance to the next edge')
            c.need(len(adv) == 1 and not pops, 'each edge is looked at once', p, 'edge position written %d times, %d pops' % (len(adv), len(pops)), inst)
            for a in adv:
                for b in ps: c.need(before(p, a, b) or s.order == 'fifo', 'advances before descending', b, 'the parent entry is advanced through a reference taken before the push', inst)
            n = 0 if tr else 1
            kinds.add('discover' if n else 'skip')
            s.discover(p, t, n, FU, dof, fn)
            for e in ps:
                f = dict(zip([l[1] for l in e.inst.leaf or []][1:], e.args[1:]))
                for o, r in s.fr.items():
                    if r == 'd': continue
                    want = {'u': t, 'it': Q(EDGE_Q[s.ek][0], t), 'end': Q(EDGE_Q[s.ek][1], t)}[r]
                    c.need(eqv(f.get(o, ('undef',)), want), 'queues the neighbour with all its edges', e, 'entry holds %s where %s is expected' % (pp(f.get(o, ('undef',))), pp(want)), inst)
            if n:
                c.need(p.end[0] != 'back', 'a discovered element is yielded', p, 'the search goes on past a discovered element', inst)
                if s.kind == 'edge':
                    for o, want in zip([x for x, _ in out], (FI, FU)):
                        src = [e for oo, e in out if oo == o][0].args[1]
                        if not c.need(src[0] == 'rd' and base_of(src[1]) == A(0), 'yields the tree edge', s.star, 'operator* yields %s' % pp(src), inst): continue
                        w = [e for e in p.items if e.kind == 'write' and key(e.args[0]) == key(src[1])]
                        c.need(len(w) >= 1 and eqv(w[-1].args[1], want), 'yields the tree edge', w[-1] if w else p, 'edge yielded is %s, the discovering edge is expected' % (pp(w[-1].args[1]) if w else 'unchanged'), inst)
                    w = [e for e in p.items if e.kind == 'write' and s.has is not None and key(e.args[0]) == key(s.has)]
                    c.need(bool(w) and w[-1].args[1] in (C(1), C(-1)), 'a discovered element is yielded', p, 'the pending edge is not announced', inst)
            else:
                c.need(p.end[0] == 'back', 'edges to visited vertices are skipped', p, 'the search stops at an edge to a visited vertex', inst)
        c.need({'exhausted', 'discover', 'skip'} <= kinds, 'search step cases', fn, 'cases found: %s' % sorted(kinds), inst)
        s.common(D)
        # nothing else discovers
        for b, e in all_events(fn):
            if cell_write(e, s.M) or is_push(e, s.W): c.need(b in D.blocks, 'no other marks or pushes', e, 'discovery outside the search loop', inst)
        if s.kind == 'edge':
            # without a yield the pending flag is down
            for p in lpaths(fn):
                if p.end[0] != 'ret': continue
                if any(e.loop is D and e.exit is not None and any(s.yielded(q) for r in e.val for q in expand(fn, r, region)) for e in inner_loops(p)): continue
                w = [e for e in p.items if e.kind == 'write' and s.has is not None and key(e.args[0]) == key(s.has)]
                c.need(bool(w) and w[-1].args[1] == C(0), 'no element is pending when nothing was discovered', p, 'the previously yielded edge stays pending', inst)
            if s.valued:
                want = [e.args[1] for o, e in out[:2]]
                ok = len(out) == 3 and out[2][1].args[1][:2] == ('q', 'evf') and [key(x) for x in out[2][1].args[1][2:]] == [key(x) for x in want]
                c.need(ok, 'value function gets the yielded edge', s.star, 'value is %s' % (pp(out[2][1].args[1]) if len(out) > 2 else 'missing'), inst)
            c.need(len(out) == (3 if s.valued else 2), 'yields the tree edge', s.star, 'operator* yields %d words' % len(out), inst)
            s.begin_advances(region)
        else:
            pk = lambda v: v[0] == 'rd' and v[1][0] == 'peek' and v[1][1] == s.W and v[1][2] in ('top', 'back')
            c.need(bool(out) and out[0][0] == 0 and pk(out[0][1].args[1]), 'yields the current vertex', s.star, 'yields %s' % (pp(out[0][1].args[1]) if out else 'nothing'), inst)
            if s.valued: c.need(len(out) == 2 and out[1][1].args[1][:2] == ('q', 'vvf') and pk(out[1][1].args[1][2]), 'value function gets the yielded vertex', s.star, 'value is %s' % (pp(out[1][1].args[1]) if len(out) > 1 else 'missing'), inst)
            for p in lpaths(s.begin): c.need(not [e for e in p.items if e.kind == 'op' and not is_pure_op(e)], 'begin() starts at the seed', p, 'begin() changes the search state', inst)
        s.check_done(s.has)
        if s.depth is not None: c.need(s.depth == s.wo, 'depth() is the length of the current path', s.f_depth, 'depth() is not the size of the stack', inst)
        no_stale_peek(c, inst, fn, [D] + region)

    def begin_advances(s, region):
        """the iterator of an edge view is created on the first tree edge"""
        c = s.c; fn = s.begin
        c.need(any(is_push(e) for b, e in all_events(fn)), 'begin() is positioned on the first edge', fn, 'begin() does not advance to the first tree edge', s.inst)

    def yielded(s, p):
        if s.kind == 'edge': return [e for e in p.items if e.kind == 'write' and s.has is not None and key(e.args[0]) == key(s.has) and e.args[1] != C(0)]
        return []

    def advance(s, p):
        r = []
        for e in p.items:
            if e.kind == 'write':
                a = e.args[0]
                o = 0 if a[0] == 'peek' and a[1] == s.W else a[2] if a[0] == 'fld' and a[1][0] == 'peek' and a[1][1] == s.W else None
                if o is not None and s.fr.get(o) == 'it': r.append(e)
        return r

    def counters(s, p, n, u, dcell, ps):
        VertexBfs.counters(s, p, n, u, dcell if 'depth' in s.off else [], ps)

    def go_on(s, p, mains):
        c = s.c
        one(c, 'each step continues the search', s.inst, p, mains, 'search loop')
        bad = [e for e in s.effects(p) if key(e.args[0]) != key(s.cell('cancel'))]
        c.need(not bad, 'no other changes of the search state', bad[0] if bad else p, 'state is changed outside the search loop: [%s]' % path_str(p), s.inst)

    def branch(s, p, mains):
        c = s.c
        c.need(len(mains) == 1, 'cancel_branch continues with the rest', p, 'the search does not go on after cancel_branch', s.inst, part='cancel')
        pops = [e for e in p.items if is_pop(e, s.W)]
        if s.order == 'lifo':
            c.need(len(pops) == 1 and all(before(p, pops[0], e) for e in mains), 'cancel_branch drops the current branch', p, 'the current branch is not removed before the search goes on', s.inst, part='cancel')
            oth = [e for e in s.effects(p) if e not in pops and not (e.kind == 'write' and state_off(e.args[0]))]
            c.need(not oth, 'cancel_branch drops the current branch only', oth[0] if oth else p, 'other changes: [%s]' % path_str(p), s.inst, part='cancel')
            return
        ito = [o for o, r in s.fr.items() if r == 'it'][0]; eo = [o for o, r in s.fr.items() if r == 'end'][0]
        ok = False
        for e in p.items:
            if e.kind != 'write': continue
            a, v = e.args
            if a[0] == 'fld' and a[2] == ito and a[1][0] == 'peek' and a[1][1] == s.W and a[1][2] == 'back' and v[0] == 'rd' and v[1][0] == 'fld' and v[1][2] == eo and v[1][1][:3] == a[1][:3]:
                ok = all(before(p, e, x) for x in mains)
        c.need(ok and not pops, 'cancel_branch drops the current branch', p, 'the edges of the most recently discovered vertex are not skipped', s.inst, part='cancel')


VIEWS = {'bfs': ('vertices_bfs', 'edges_bfs'), 'dfs': ('vertices_dfs', 'edges_dfs')}


def search(c, m, which, part):
    c = Part(c, part)
    for nm in VIEWS[which]:
        for sfx, ek, val in (('_out', 'edges', False), ('_out_f', 'edges', True), ('_in', 'in_edges', False), ('_in_f', 'in_edges', True)):
            kind = 'vertex' if nm.startswith('vertices') else 'edge'
            cls = VertexBfs if nm == 'vertices_bfs' else FrameView
            v = cls(c, m, nm + sfx, kind, 'fifo' if which == 'bfs' else 'lifo', ek, val)
            v.M = None
            n = len(c.c.viol)
            v.run()
            if hasattr(v, 'fr') and hasattr(v, 'mo'):
                v.ctor(nm + sfx + '_ctor')
                extra = {'_out': ('_alloc', '_desc', '_desc_alloc'), '_out_f': ('_f_alloc', '_desc_f', '_desc_f_alloc'), '_in': ('_in_desc',), '_in_f': ('_in_desc_f',)}[sfx]
                for x in extra: v.ctor(nm + x)


def postfixes(c, m, order):
    for n in sorted(m.fns):
        if n.startswith('drv_entry_') and n.endswith('_pinc') and '_%s_' % order in n: postfix(c, m, n[len('drv_entry_'):-len('_pinc')])


def bfs_walk(c, m): search(c, m, 'bfs', 'walk'); postfixes(c, m, 'bfs')
def dfs_walk(c, m): search(c, m, 'dfs', 'walk'); postfixes(c, m, 'dfs')
def cancel(c, m): search(c, m, 'bfs', 'cancel'); search(c, m, 'dfs', 'cancel')

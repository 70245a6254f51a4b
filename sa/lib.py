"""Shared recognisers and bookkeeping for the rules.

A rule looks at the reduced control-flow graph of one instantiated entry point (see ir.py) and states
obligations about *every* path of a region.  Each obligation is recorded with the construct it is about; a
failed obligation is a violation carrying file:line, rule and instance.
"""
import os, sys
from ir import *


class Broken(Exception):
    """the analysis cannot be carried out (anchor vanished, driver does not compile): error exit"""


class Ctx:
    def __init__(s, prop):
        s.prop = prop; s.obl = []; s.viol = []; s.known = []; s.analysed = {}; s.notes = []

    def need(s, ok, rule, where, msg, inst=''):
        """one obligation.  where: Fn/Ev/Inst/str"""
        w = wh(where)
        s.obl.append((rule, inst, w, bool(ok)))
        if not ok:
            v = (rule, inst, w, msg)
            if v not in s.viol: s.viol.append(v)
        return bool(ok)

    def bad(s, rule, where, msg, inst=''):
        return s.need(False, rule, where, msg, inst)

    def saw(s, kind, n=1):
        s.analysed[kind] = s.analysed.get(kind, 0) + n


def wh(w):
    if w is None: return '?'
    if isinstance(w, str): return w
    if isinstance(w, Path):
        for e in w.items:
            if e.kind == 'cond' or e.kind == 'call': return e.where()
        return '?'
    if isinstance(w, Loop): return 'loop'
    if isinstance(w, Fn):
        for b in w.blocks:
            for i in b:
                if i.loc:
                    r = i.where()
                    if 'include/graph' in r or '/repo' in r: return r
        return w.name
    return w.where()


# ------------------------------------------------------------------ expressions
def key(e):
    """expression with instruction ids of reads/peeks removed (equality up to re-reading)"""
    if not isinstance(e, tuple) or not e: return e
    k = e[0]
    if k == 'rd': return ('rd', key(e[1]))
    if k == 'peek': return ('peek', key(e[1]), 'peek')
    if k == 'ret' and isinstance(e[2], str): return ('ret', e[2]) + tuple(key(x) for x in e[3:])
    return tuple(key(x) if isinstance(x, tuple) else x for x in e)


def eqv(a, b):
    return key(a) == key(b)


def C(n): return ('c', n)
def A(i): return ('a', i)
def Q(name, *a): return ('q', name) + tuple(a)


def add1(e, n=1): return {('op', 'add') + tuple(sorted([C(n), e], key=repr))}


def is_add(e, base, n=1):
    return key(e) in {key(x) for x in add1(base, n)}


def ptr_step(e, base):
    """e == base + k bytes (pointer increment); returns k or None"""
    if e[0] == 'fld' and key(e[1]) == key(base): return e[2]
    if e[0] == 'cell' and base[0] == 'cell' and e[1] == base[1] and e[2] == base[2]: return e[3] - base[3]
    if e[0] == 'fld' and base[0] == 'fld' and key(e[1]) == key(base[1]): return e[2] - base[2]
    return None


def contains(e, sub):
    if key(e) == key(sub): return True
    return isinstance(e, tuple) and any(isinstance(x, tuple) and contains(x, sub) for x in e)


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple): yield from walk(x)


def last(name): return name.split('::')[-1] if name else ''


# ------------------------------------------------------------------ path predicates
def cond_pol(p, pred):
    """polarity with which the first condition satisfying pred occurs on the path, else None.
    pred receives the (positive) condition expression and returns True / False(no) / 'neg' when it matches negated"""
    for e in p.items:
        if e.kind == 'cond':
            r = pred(e.args[0])
            if r is True: return e.pol
            if r == 'neg': return not e.pol
    return None


def truth(p, cell):
    """is the boolean/int cell read true on this path"""
    k = key(cell)

    def m(c):
        if c[0] == 'rd' and key(c[1]) == k: return True
        if c[0] == 'cmp' and c[1] == 'eq':
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if x == ('c', 0) and y[0] == 'rd' and key(y[1]) == k: return 'neg'
                if x == ('c', 1) and y[0] == 'rd' and key(y[1]) == k: return True
                if x == ('c', -1) and y[0] == 'rd' and key(y[1]) == k: return True
        return False
    return cond_pol(p, m)


def eq_pol(p, a, b):
    for x, y in ((a, b), (b, a)):
        if x == C(0) and y[:2] == ('op', 'sub') and len(y) == 4: return eq_pol(p, y[2], y[3])
    ks = {(key(a), key(b)), (key(b), key(a))}
    return cond_pol(p, lambda c: c[0] == 'cmp' and c[1] == 'eq' and (key(c[2]), key(c[3])) in ks)


def lt_pol(p, a, b):
    """polarity of a<b on the path"""
    ka, kb = key(a), key(b)
    return cond_pol(p, lambda c: c[0] == 'cmp' and c[1] == 'lt' and key(c[2]) == ka and key(c[3]) == kb)


def idx(p, ev): return p.items.index(ev)


def calls(p, name):
    return [e for e in p.items if e.kind == 'call' and e.name == name]


def evs(p, f):
    return [e for e in p.items if f(e)]


def before(p, a, b):
    return idx(p, a) < idx(p, b)


PUSH = {'push', 'emplace', 'push_back', 'emplace_back', 'push_front', 'insert'}
POP = {'pop', 'pop_back', 'pop_front'}


def opm(e):
    return last(e.name) if e.kind == 'op' else None


def is_push(e, obj=None):
    return e.kind == 'op' and opm(e) in PUSH and e.args and (obj is None or e.args[0] == obj)


def is_pop(e, obj=None):
    return e.kind == 'op' and opm(e) in POP and e.args and (obj is None or e.args[0] == obj)


def writes(p, obj=None):
    return [e for e in p.items if e.kind == 'write' and (obj is None or base_of(e.args[0]) == obj)]


def all_events(fn):
    """every event of the function, un-normalised, block by block"""
    k = 'allev'
    if k not in fn.cache:
        ev = Eval(fn)
        r = []
        for b in fn.rpo:
            es = block_events(fn, b, ev)
            r += [(b, e) for e in es]
        fn.cache[k] = r
    return fn.cache[k]


def cell_write(e, obj=None):
    """(obj, index, value) of a write to a container element"""
    if e.kind != 'write': return None
    a = e.args[0]
    if a[0] == 'cell' and (obj is None or a[1] == obj): return a[1], a[2], e.args[1]
    if a[0] == 'el' and a[1][0] == 'rd' and (obj is None or a[1] == obj): return a[1], a[2], e.args[1]
    return None


# ------------------------------------------------------------------ flags
def const_phis(fn):
    """loop-header phis that are provably the same constant on every iteration (optimistic induction over all loops):
    e.g. a 'has_cycle' flag that is false whenever a loop goes on"""
    if 'cphi' in fn.cache: return fn.cache['cphi']
    cand = {}
    for L in fn.loops:
        for pid, init, _ in header_phis(fn, L): cand[pid] = (L, init)
    # optimistic values
    val = {}
    ch = True
    while ch:
        ch = False
        for pid, (L, init) in cand.items():
            if pid in val: continue
            vs = {v if v[0] == 'c' else val.get(v[1]) if v[0] == 'phi' else None for v in init}
            if len(vs) == 1 and None not in vs:
                val[pid] = vs.pop(); ch = True
    ch = True
    while ch:
        ch = False
        f = lambda e: val.get(e[1], e) if e[0] == 'phi' else e
        for pid in list(val):
            L, init = cand[pid]
            bad = False
            for v in init:
                if rewrite(v, f) != val[pid]: bad = True
            for p in paths_of(fn, L):
                if bad: break
                if p.end[0] != 'back': continue
                q = map_path(p, f)
                if q is None: continue
                v = rewrite(p.end[2].get(pid, ('undef',)), f)
                if v == val[pid]: continue
                # known by a condition of the path
                ok = False
                for e in q.items:
                    if e.kind == 'cond' and key(e.args[0]) == key(v) and val[pid] in (C(0), C(1)) and int(e.pol) == val[pid][1]: ok = True
                if not ok: bad = True
            if bad:
                del val[pid]; ch = True
    fn.cache['cphi'] = val
    return val


def settled(fn):
    """values chosen inside a loop that are the same on every way out of it: {phi id: value}"""
    if 'settled' in fn.cache: return fn.cache['settled']
    fn.cache['settled'] = {}
    heads = {x.id for L in fn.loops for x in fn.blocks[L.header] if x.op == 'phi'}
    r = {}
    for L in fn.loops:
        mine = {x.id for b in L.blocks for x in fn.blocks[b] if x.op == 'phi'} - heads
        if not mine: continue
        vals = {}
        for p in paths_of(fn, L):
            if p.end[0] in ('back', 'unreach', 'throw'): continue
            for k in mine & set(p.env): vals.setdefault(k, []).append(p.env[k])
        for k, v in vals.items():
            if all(x == v[0] for x in v) and v[0] != ('phi', k): r[k] = v[0]
    for _ in range(3): r = {k: rewrite(v, lambda e: r.get(e[1], e) if e[0] == 'phi' else e) for k, v in r.items()}
    fn.cache['settled'] = r
    return r


def lpaths(fn, L=None):
    """feasible paths of a region after substituting constant flags"""
    k = ('lp', L.header if L else None)
    if k in fn.cache: return fn.cache[k]
    val = {**settled(fn), **const_phis(fn)}
    if not val:
        fn.cache[k] = paths_of(fn, L); return fn.cache[k]
    f = lambda e: val.get(e[1], e) if e[0] == 'phi' else e
    r = []
    for p in paths_of(fn, L):
        dead = False
        for e in p.items:
            if e.kind == 'loop' and e.val is not None and all(map_path(q, f) is None for q in e.val): dead = True
        if dead: continue
        q = map_path(p, f)
        if q is None: continue
        # the natural paths keep the identity of raw paths so that loop items can be matched with them
        for e in q.items:
            if e.kind == 'loop' and e.val is not None:
                e.val = [y for y in (lraw(fn, e.loop).get(id(x)) for x in e.val) if y is not None]
        q.raw = p
        r.append(q)
    fn.cache[k] = r
    return r


def rotated(fn, L):
    """paths of a loop controlled by a flag set in its body, with the flag test moved to the end of the body"""
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    for pid, init, _ in header_phis(fn, L):
        ph = ('phi', pid)
        if len(init) != 1 or init[0][0] != 'c': continue

        def tst(q):
            if q == ph: return True
            if q[0] == 'cmp' and q[1] == 'eq' and ph in q[2:]:
                o = q[3] if q[2] == ph else q[2]
                if o[0] == 'c': return o[1] != 0
            return None
        pols = {}
        for p in P:
            x = [e for e in p.items if e.kind == 'cond']
            f = next((e for e in x if tst(e.args[0]) is not None), None)
            pols[id(p)] = None if f is None else (f.pol == tst(f.args[0]))
        if any(v is None for v in pols.values()): continue
        stay = {pols[id(p)] for p in P if p.end[0] == 'back'}; leave = {pols[id(p)] for p in P if p.end[0] != 'back' and not p.effects()}
        if len(stay) != 1 or leave != {not list(stay)[0]} or bool(init[0][1]) != list(stay)[0]: continue
        go = list(stay)[0]; r = []
        for p in P:
            if p.end[0] != 'back':
                if pols[id(p)] == go: r.append(p)
                continue
            v = p.end[2].get(pid, ph)
            its = [e for e in p.items if not (e.kind == 'cond' and tst(e.args[0]) is not None)]
            ex = ('exit', (L.header, L.header), p.end[2])
            if v[0] == 'c':
                r.append(Path(its, p.end if bool(v[1]) == go else ex, p.blocks, p.env)); continue
            pol = True
            while v[0] == 'not': v = v[1]; pol = not pol
            for val in (True, False):
                r.append(Path(its + [Ev('cond', 'cond', (v,), its[-1].inst if its else None, pol=val == pol)], p.end if val == go else ex, p.blocks, p.env))
        return r
    return P


def lraw(fn, L):
    """id(raw path) -> its substituted path"""
    k = ('lraw', L.header)
    if k not in fn.cache:
        fn.cache[k] = {id(q.raw): q for q in lpaths(fn, L) if hasattr(q, 'raw')}
    return fn.cache[k]


# ------------------------------------------------------------------ loops
class LoopInfo:
    """recognised iteration.  kind: 'edges' 'count' 'range' 'drain' ; var: induction phi expression"""

    def __init__(s, fn, L, kind, var=None, **kw):
        s.fn = fn; s.L = L; s.kind = kind; s.var = var; s.__dict__.update(kw)

    def __repr__(s):
        return '%s(L%d)' % (s.kind, s.L.header)

    def where(s):
        for i in s.fn.blocks[s.L.header]:
            if i.loc: return i.where()
        for b in sorted(s.L.blocks):
            for i in s.fn.blocks[b]:
                if i.loc: return i.where()
        return '?'


def header_phis(fn, L):
    r = []
    ev = Eval(fn); st = settled(fn)
    for x in fn.blocks[L.header]:
        if x.op != 'phi': break
        init = [ev.v(o) for p, o in x.ops if p not in L.blocks]
        if st: init = [rewrite(v, lambda e: st.get(e[1], e) if e[0] == 'phi' else e) for v in init]
        back = [ev.v(o) for p, o in x.ops if p in L.blocks]
        r.append((x.id, init, back))
    return r


def inductions(fn, L):
    """induction phis: (phi, init, step_kind, step) when every back path adds the same constant"""
    key_ = ('ind', L.header)
    if key_ in fn.cache: return fn.cache[key_]
    out = []
    P = lpaths(fn, L)
    backs = [p for p in P if p.end[0] == 'back']
    for pid, init, _ in header_phis(fn, L):
        if len(set(map(repr, init))) != 1 or not backs: continue
        steps = set()
        for p in backs:
            v = p.end[2].get(pid)
            ph = ('phi', pid)
            if v is None: steps.add(None); continue
            if v == ph: steps.add(('add', 0)); continue
            if v[0] == 'op' and v[1] == 'add' and ph in v[2:] and any(t[0] == 'c' for t in v[2:]):
                steps.add(('add', [t for t in v[2:] if t[0] == 'c'][0][1]))
            else:
                k = ptr_step(v, ph)
                steps.add(('ptr', k) if k else None)
        if len(steps) == 1 and None not in steps:
            kind, n = list(steps)[0]
            out.append((('phi', pid), init[0], kind, n))
    fn.cache[key_] = out
    return out


class Iter:
    """an iteration space: forall var in [init, bound) step 1.  body: paths executing one element.
    early: exit paths leaving before the bound.  kind edges|in_edges|t_edges|count|range"""

    def __init__(s, fn, L, var, init, bound, step, body, early, done):
        s.fn = fn; s.L = L; s.var = var; s.init = init; s.bound = bound; s.step = step
        s.body = body; s.early = early; s.done = done
        s.kind = None; s.over = None

    where = LoopInfo.where

    def __repr__(s):
        return '%s[%s..%s)@L%d' % (s.kind, pp(s.init), pp(s.bound), s.L.header)


def iterations(fn, L):
    """recognise a loop as an iteration over [init,bound); None otherwise.
    Accepts top-tested (while/for/range-for) and bottom-tested (do/while) forms, == / != / < tests."""
    ck = ('iter', L.header)
    if ck in fn.cache: return fn.cache[ck]
    r = None
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    for var, init, kind, n in inductions(fn, L):
        if n not in (1,) and kind == 'add': continue
        if kind == 'ptr' and n <= 0 and not (init[0] == 'end' and n < 0): continue
        nxt = add1(var).pop() if kind == 'add' else ('fld', var, n)

        def classify(p):
            """('stop'|'go', bound, at) by the first bound test on the path"""
            for i, e in enumerate(p.items):
                if e.kind != 'cond': continue
                c = e.args[0]
                if c[0] != 'cmp' or c[1] not in ('eq', 'lt'): continue
                for cur, at in ((var, 'top'), (nxt, 'bottom')):
                    if c[1] == 'eq':
                        o = c[3] if key(c[2]) == key(cur) else c[2] if key(c[3]) == key(cur) else None
                        if o is None or contains(o, var): continue
                        yield ('stop' if e.pol else 'go', key(o), o, at, i)
                    else:
                        if key(c[2]) == key(cur) and not contains(c[3], var):
                            yield ('go' if e.pol else 'stop', key(c[3]), c[3], at, i)
        # candidate bounds
        cands = {}
        for p in P:
            for st, kb, b, at, i in classify(p):
                cands.setdefault((kb, at), b)
        for (kb, at), b in sorted(cands.items(), key=repr):
            body, early, done = [], [], []
            okc = True
            for p in P:
                cl = [c for c in classify(p) if c[1] == kb and c[3] == at]
                st = cl[0][0] if cl else None
                if p.end[0] == 'back':
                    if st != 'go': okc = False; break
                    body.append(p)
                elif p.end[0] in ('exit', 'ret', 'throw'):
                    if st == 'stop':
                        (done if at == 'top' else body).append(p)
                    else: early.append(p)
            if not okc or not body: continue
            if at == 'top' and not done: continue
            if at == 'bottom' and not any(p.end[0] != 'back' for p in body): continue
            # top-tested: the stop path must do nothing observable before leaving
            it = Iter(fn, L, var, init, b, (kind, n), body, early, done)
            it.at = at
            label(it)
            # prefer a bound that gives a recognised kind
            if it.kind: r = it; break
            if r is None: r = it
        if r and r.kind: break
    if r is None or not r.kind:
        r2 = counted(fn, L, P)
        if r2: r = r2
    fn.cache[ck] = r
    return r


def size_of(e):
    """container whose number of elements e is"""
    if e[0] == 'ret' and last(e[2]) == 'size' and len(e) > 3: return e[3]
    if e[0] == 'op' and e[1] in ('sdiv', 'udiv', 'ashr', 'lshr') and e[2][0] == 'op' and e[2][1] == 'sub':
        a, b = e[2][2], e[2][3]
        if a[0] == 'end' and b[0] == 'begin' and a[1] == b[1]: return a[1]
    return None


def counted(fn, L, P):
    """loops driven by a counter going down from the number of elements of a container (std::copy and friends)"""
    ind = inductions(fn, L)
    for var, init, kind, n in ind:
        if kind != 'add' or n != -1: continue
        v = size_of(init)
        if v is None: continue
        body, early, done = [], [], []
        for p in P:
            st = None
            for e in p.items:
                if e.kind != 'cond': continue
                x = e.args[0]
                if x[0] == 'cmp' and x[1] == 'lt' and x[2] == C(0) and x[3] == var: st = e.pol; break
                if x[0] == 'cmp' and x[1] == 'eq' and {x[2], x[3]} == {C(0), var}: st = not e.pol; break
            if p.end[0] == 'back':
                if st is not True: break
                body.append(p)
            elif st is False: done.append(p)
            else: early.append(p)
        else:
            for w, wi, wk, wn in ind:
                if wk == 'ptr' and wi in (('begin', v), ('end', v)) and body and done:
                    it = Iter(fn, L, w, wi, ('end', v) if wi[0] == 'begin' else ('begin', v), (wk, wn), body, early, done)
                    it.at = 'top'; label(it)
                    return it
            if body and done:
                it = Iter(fn, L, var, init, C(0), ('add', -1), body, early, done)
                it.at = 'top'; it.kind = 'rrange'; it.over = v
                it.elem = ('cell', v, ('op', 'add') + tuple(sorted([C(-1), var], key=repr)), 0)
                return it
    return None


EDGE_Q = {'edges': ('edges_begin', 'edges_end'), 'in_edges': ('in_edges_begin', 'in_edges_end'), 't_edges': ('t_edges_begin', 't_edges_end')}


def label(it):
    i, b = it.init, it.bound
    if it.step[0] == 'ptr' and it.step[1] < 0:
        if i[0] == 'end' and b[0] == 'begin' and i[1] == b[1]:
            it.kind = 'rrange'; it.over = i[1]; it.elem = ('fld', it.var, it.step[1])
        return
    for k, (qb, qe) in EDGE_Q.items():
        if i[0] == 'q' and i[1] == qb and b[0] == 'q' and b[1] == qe and eqv(i[2], b[2]):
            it.kind = k; it.over = i[2]; return
    if i == C(0) and b[0] == 'q' and b[1] in ('num_vertices', 't_num_vertices'):
        it.kind = 'vertices'; it.over = b[1]; return
    if i[0] == 'begin' and b[0] == 'end' and i[1] == b[1]:
        it.kind = 'range'; it.over = i[1]; it.elem = it.var; return
    if i == C(0) and b[0] == 'ret' and last(b[2]) == 'size':
        it.kind = 'index'; it.over = b[3]; return
    k = ptr_step(b, i)
    if k and it.step[0] == 'ptr' and k % it.step[1] == 0:
        it.kind = 'fixed'; it.over = i; it.count = k // it.step[1]; return
    if it.step[0] == 'add' and i == C(0): it.kind = 'count'; it.over = b; return


def inner_loops(p):
    return [e for e in p.items if e.kind == 'loop']


def natural(it, ev):
    """does this 'loop' item of a parent path leave through the loop's own bound test"""
    if ev.exit is None: return False
    body = [getattr(q, 'src', q) for q in it.body]
    return all(q in it.done or (it.at == 'bottom' and q in body) for q in ev.val)


# ------------------------------------------------------------------ worklists
class Drain:
    """loop that runs until a worklist is empty"""

    def __init__(s, fn, L, obj, body, early, done, index=None):
        s.fn = fn; s.L = L; s.obj = obj; s.body = body; s.early = early; s.done = done
        s.index = index      # position of the front element when the worklist is a growing array walked by index

    where = LoopInfo.where


GROWING = {'vector', 'push_back', 'emplace_back', 'size', 'empty', 'operator[]', 'at', 'reserve', 'deque', 'data'}


def walked(fn, L, P):
    """a sequence that only grows at its end, consumed by an index running from its first element to its current size"""
    for v, init, k, n in inductions(fn, L):
        if k != 'add' or n != 1 or init != C(0): continue

        def left(e):
            x = e.args[0]
            if e.kind != 'cond' or x[0] != 'cmp': return None
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if a == v and b[0] == 'ret' and last(b[2]) == 'size' and fn.inst.get(b[1]) is not None:
                    if x[1] == 'eq': return b[3], not e.pol
                    if x[1] == 'lt' and a == x[2]: return b[3], e.pol
            return None
        tests = [next((t for t in (left(e) for e in p.items if e.kind == 'cond') if t), None) for p in P]
        os_ = {t[0] for t in tests if t}
        if None in tests or len(os_) != 1: continue
        o = os_.pop()
        # the size is taken again in every round
        if not all(any(e.kind == 'op' and last(e.name) == 'size' and e.args[0] == o for e in p.items) for p in P): continue
        if not all(last(e.name) in GROWING for b, e in all_events(fn) if e.kind == 'op' and e.args and e.args[0] == o): continue
        body = [p for p, t in zip(P, tests) if t[1] and p.end[0] == 'back']
        if not body: continue
        return Drain(fn, L, o, body, [p for p, t in zip(P, tests) if p.end[0] != 'back' and t[1]], [p for p, t in zip(P, tests) if not t[1] and p.end[0] != 'back'], v)
    return None


def empty_test(c):
    """(obj) if c tests emptiness; positive polarity = empty"""
    if c[0] == 'ret' and last(c[2]) == 'empty' and len(c) > 3: return c[3], True
    if c[0] == 'cmp' and c[1] == 'eq':
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x == C(0) and y[0] == 'ret' and last(y[2]) == 'size': return y[3], True
            if x[0] == 'begin' and y[0] == 'end' and x[1] == y[1]: return x[1], True
    if c[0] == 'cmp' and c[1] == 'lt' and c[2] == C(0) and c[3][0] == 'ret' and last(c[3][2]) == 'size': return c[3][3], False
    return None


def drains(fn, L, want=None):
    """recognise L as a drain loop"""
    ck = ('drain', L.header)
    if ck in fn.cache: return fn.cache[ck]
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    objs = []
    for p in P:
        for e in p.items:
            if e.kind == 'cond':
                t = empty_test(e.args[0])
                if t and t[0] not in objs: objs.append(t[0])
    best = None
    for o in objs:
        body, early, done = [], [], []
        for p in P:
            st = None
            for e in p.items:
                if e.kind == 'cond':
                    t = empty_test(e.args[0])
                    if t and t[0] == o:
                        st = (e.pol == t[1]); break
            if p.end[0] == 'back': body.append(p); p_ok = st is False
            elif st is True: done.append(p)
            else: early.append(p)
        # bottom-tested form: the last iteration leaves through the emptiness test
        body += [p for p in done if any(is_pop(e, o) for e in p.items)]
        if not done or not body: continue
        # bottom-tested drains and nested drains are out of scope: every body path must have tested non-empty
        if not all(any(e.kind == 'cond' and empty_test(e.args[0]) and empty_test(e.args[0])[0] == o for e in p.items) for p in body): continue
        if not any(is_pop(e, o) for p in body for e in p.items): continue
        best = Drain(fn, L, o, body, early, done); break
    if best is None: best = walked(fn, L, P)
    fn.cache[ck] = best
    return best


def find_drains(fn, loops=None):
    r = []
    for L in (loops if loops is not None else fn.loops):
        d = drains(fn, L)
        if d: r.append(d)
    return r


def ctor_of(fn, obj):
    """constructor / assign events of a container object"""
    r = []
    for b, e in all_events(fn):
        if e.kind == 'op' and e.args and e.args[0] == obj:
            c = e.name.split('::')
            if len(c) == 2 and (c[0] == c[1] or c[1] in ('assign', 'resize', 'operator=')): r.append((b, e))
    return r


WL_ORDER = {'queue': 'fifo', 'stack': 'lifo', 'priority_queue': 'prio'}


def wl_discipline(fn, obj):
    """fifo / lifo / prio / None from the operations used on the worklist"""
    kinds = set(); pushm = set(); popm = set(); peek = set()
    for b, e in all_events(fn):
        if e.kind == 'op' and e.args and e.args[0] == obj:
            c = e.name.split('::')
            kinds.add(c[0]); m = c[-1]
            if m in PUSH: pushm.add(m)
            if m in POP: popm.add(m)
            if m in ('front', 'back', 'top'): peek.add(m)
    kinds.discard('')
    if kinds == {'queue'}: return 'fifo'
    if kinds == {'stack'}: return 'lifo'
    if kinds == {'priority_queue'}: return 'prio'
    pb = {m.replace('emplace', 'push') for m in pushm}
    if kinds <= {'vector', 'deque', 'list'}:
        if pb == {'push_back'} and popm == {'pop_back'} and peek <= {'back'}: return 'lifo'
        if pb == {'push_back'} and popm == {'pop_front'} and peek <= {'front'}: return 'fifo'
        if pb == {'push_front'} and popm == {'pop_front'} and peek <= {'front'}: return 'lifo'
        if not popm and not peek and pb == {'push_back'} and any(d.obj == obj and d.index for d in find_drains(fn)): return 'fifo'
    return None


def rewrite(e, f):
    """bottom-up rewriting of an expression"""
    if not isinstance(e, tuple) or not e: return e
    r = tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in e)
    return f(r)


def norm(e):
    """key with operand order of commutative operators normalised after id removal"""
    e = key(e)

    def g(x):
        if x[0] == 'op' and x[1] in ('add', 'fadd'): return ('op', x[1]) + tuple(sorted(x[2:], key=repr))
        return x
    return rewrite(e, g)


def neq(a, b): return norm(a) == norm(b)


def simp(e):
    if e[0] == 'cmp' and e[1] in ('eq', 'lt'):
        return mk_cmp({'eq': 'eq', 'lt': 'slt'}[e[1]], e[2], e[3])
    if e[0] == 'not': return mk_not(e[1])
    if e[0] == 'sel' and len(e) == 4 and e[1][0] == 'c': return e[2] if e[1][1] else e[3]
    if e[0] == 'op' and e[1] == 'narrow' and e[3][0] == 'c': return ('c', e[3][1] & ((1 << e[2][1]) - 1))
    return e


def map_path(p, f):
    """rewrite all expressions of a path, dropping it (None) when a condition becomes infeasible"""
    g = lambda e: rewrite(e, lambda x: simp(f(x)))
    items = []; known = {}
    for e in p.items:
        args = tuple(g(a) for a in e.args)
        if e.kind == 'cond' and e.name == 'cond':
            c = args[0]; pol = e.pol
            while c[0] == 'not': c = c[1]; pol = not pol
            if c[0] == 'c':
                if bool(c[1]) != pol: return None
                continue
            if key(c) in known and known[key(c)] != pol and c[0] == 'cmp': return None
            known[key(c)] = pol
            items.append(Ev('cond', e.name, (c,), e.inst, pol=pol)); continue
        items.append(Ev(e.kind, e.name, args, e.inst, pol=e.pol, loop=e.loop, exit=e.exit, val=e.val if not isinstance(e.val, tuple) else g(e.val)))
    end = p.end
    if len(end) > 2: end = (end[0], end[1], {k: g(v) for k, v in end[2].items()})
    return Path(items, end, p.blocks, p.env)


def open_conds(p):
    """(position, condition) of conditional values the path stores, passes on, returns or carries round"""
    def look(v, top):
        for y in walk(v):
            if y[0] == 'sel' and len(y) == 4:
                c = y[1]
                while c[0] == 'not': c = c[1]
                if c[0] in ('cmp', 'rd', 'phi', 'ret'): yield c
            if y[0] == 'op' and y[1] in ('add', 'sub', 'or', 'and'):
                for z in y[2:]:
                    b = z
                    while b[0] == 'not': b = b[1]
                    if b[0] == 'cmp': yield b
    for i, e in enumerate(p.items):
        if e.kind in ('write', 'ret'):
            for a in e.args:
                for c in look(a, False): yield i, c
    if len(p.end) > 2:
        for v in p.end[2].values():
            for c in look(v, True): yield len(p.items), c


def forked(ps, limit=16):
    """paths split on the conditions of the conditional values they store or carry round (branch-free code judged like branches)"""
    out = []
    for p in ps:
        work = [p]; done = []
        while work and len(work) + len(done) <= limit:
            q = work.pop()
            i, c = next(open_conds(q), (None, None))
            if c is None: done.append(q); continue
            k = key(c)
            known = [e.pol for e in q.items if e.kind == 'cond' and key(e.args[0]) == k]
            for v in (known[:1] or [True, False]):
                def f(e):
                    if e[0] == 'sel' and len(e) == 4:
                        b = e[1]; w = v
                        while b[0] == 'not': b = b[1]; w = not w
                        if key(b) == k: return e[2] if w else e[3]
                    if e[0] == 'op' and e[1] in ('add', 'sub', 'or', 'and'):
                        r = []
                        for z in e[2:]:
                            b = z; w = v
                            while isinstance(b, tuple) and b[0] == 'not': b = b[1]; w = not w
                            r.append(C(1 if w else 0) if isinstance(b, tuple) and b[0] == 'cmp' and key(b) == k else z)
                        if tuple(r) != e[2:] or any(z[0] == 'c' for z in r if isinstance(z, tuple)):
                            if e[1] == 'add':
                                r = [z for z in r if z != C(0)]
                                return C(0) if not r else r[0] if len(r) == 1 else ('op', 'add') + tuple(sorted(r, key=repr))
                            if e[1] == 'sub': return r[0] if r[1] == C(0) else ('op', 'add') + tuple(sorted([C(-r[1][1]), r[0]], key=repr)) if r[1][0] == 'c' else ('op', 'sub') + tuple(r)
                            if e[1] == 'or': r = [z for z in r if z != C(0)]; return C(0) if not r else C(1) if C(1) in r else r[0] if len(r) == 1 else ('op', 'or') + tuple(r)
                            if e[1] == 'and': return C(0) if C(0) in r else ('op', 'and') + tuple(r)
                    return e
                n = map_values(q, f)
                if not known:
                    ev = Ev('cond', 'cond', (c,), n.items[min(i, len(n.items) - 1)].inst if n.items else None, pol=v)
                    n.items.insert(i, ev)
                work.append(n)
        if work: out.append(p)
        else: out += done
    return out


def unselected(p, limit=16):
    """the path split on the selections inside its conditions"""
    work = [p]; done = []
    while work and len(work) + len(done) <= limit:
        q = work.pop()
        c = next((y[1] for e in q.items if e.kind == 'cond' for y in walk(e.args[0]) if y[0] == 'sel' and len(y) == 4), None)
        if c is None: done.append(q); continue
        while c[0] == 'not': c = c[1]
        k = key(c)
        for v in (True, False):
            def f(e):
                if e[0] == 'sel' and len(e) == 4:
                    b = e[1]; w = v
                    while b[0] == 'not': b = b[1]; w = not w
                    if key(b) == k: return e[2] if w else e[3]
                return e
            n = map_path(q, f)
            if n is None: continue
            i = next((j for j, e in enumerate(n.items) if e.kind == 'cond'), 0)
            n.items.insert(i, Ev('cond', 'cond', (c,), None, pol=v)); work.append(n)
    return done if not work else [p]


def map_values(p, f):
    """rewrite the values a path stores, passes on and carries round; conditions stay"""
    g = lambda e: rewrite(e, lambda x: simp(f(x)))
    items = [e if e.kind in ('cond', 'loop') else Ev(e.kind, e.name, tuple(g(a) for a in e.args), e.inst, pol=e.pol, loop=e.loop, exit=e.exit, val=e.val) for e in p.items]
    end = p.end
    if len(end) > 2: end = (end[0], end[1], {k: g(v) for k, v in end[2].items()})
    r = Path(items, end, p.blocks, p.env); r.raw = p
    return r


def relation(p, a, b):
    """the orderings ('lt', 'eq', 'gt') of a to b the path's conditions leave open"""
    r = {'lt', 'eq', 'gt'}
    ka, kb = key(a), key(b)
    for e in p.items:
        if e.kind != 'cond': continue
        c = e.args[0]; pol = e.pol
        while c[0] == 'not': c = c[1]; pol = not pol
        if c[0] != 'cmp' or c[1] not in ('eq', 'lt'): continue
        x, y = key(c[2]), key(c[3])
        if (x, y) == (ka, kb): hit = {'eq'} if c[1] == 'eq' else {'lt'}
        elif (x, y) == (kb, ka): hit = {'eq'} if c[1] == 'eq' else {'gt'}
        else: continue
        r &= hit if pol else {'lt', 'eq', 'gt'} - hit
    return r


def phi_bits(fn, v):
    """width of a value joined at a loop header"""
    if v[0] != 'phi': return None
    for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
        for x in b:
            if x.id == v[1] and x.ty.startswith('i') and x.ty[1:].isdigit(): return int(x.ty[1:])
    return None


class Frames:
    """explicit-stack frames: roles of the flattened fields of a frame.
    role 'u': the frame's vertex; 'it': next edge; 'end': end of the vertex's edges; else ('k', off)"""

    def __init__(s, fn, obj):
        s.fn = fn; s.obj = obj; s.pushes = []
        for b, e in all_events(fn):
            if is_push(e, obj):
                lf = e.inst.leaf or []
                offs = [l[1] for l in lf][1:] if lf else []
                s.pushes.append((b, e, dict(zip(offs, e.args[1:]))))
        s.role = {}
        offs = set.intersection(*[set(m) for _, _, m in s.pushes]) if s.pushes else set()
        # the vertex of a frame: the argument of edges_begin/edges_end
        s.ok = bool(offs)
        s.vertex = None; s.ek = None
        for o in sorted(offs):
            for k, (qb, qe) in EDGE_Q.items():
                if all(m[o][0] == 'q' and m[o][1] == qb for _, _, m in s.pushes): s.role[o] = 'it'; s.ek = k
                if all(m[o][0] == 'q' and m[o][1] == qe for _, _, m in s.pushes): s.role[o] = 'end'
        ito = [o for o, r in s.role.items() if r == 'it']
        if ito:
            for o in sorted(offs):
                if o in s.role: continue
                if all(eqv(m[o], m[ito[0]][2]) for _, _, m in s.pushes): s.role[o] = 'u'
        s.offs = offs
        # fields written after the push
        s.written = set()

        def same_role(a, v):
            # a field overwritten with another field of the same element that has the same role
            if v[0] != 'rd': return False
            o = lambda x: (0, x) if x[0] == 'peek' else (x[2], x[1]) if x[0] == 'fld' else (None, None)
            (oa, ea), (ov, ev_) = o(a), o(v[1])
            return oa is not None and ov is not None and key(ea) == key(ev_) and s.role.get(oa) is not None and s.role.get(oa) == s.role.get(ov)
        for b, e in all_events(fn):
            if e.kind == 'write':
                a = e.args[0]
                if same_role(a, e.args[1]): continue
                if a[0] == 'peek' and a[1] == obj: s.written.add(0)
                elif a[0] == 'fld' and a[1][0] == 'peek' and a[1][1] == obj: s.written.add(a[2])
        for o in list(s.role):
            if s.role[o] in ('u', 'end') and o in s.written: del s.role[o]

    def f(s, e):
        if e[0] == 'rd' and e[1][0] == 'peek' and e[1][1] == s.obj:
            o = 0
        elif e[0] == 'rd' and e[1][0] == 'fld' and e[1][1][0] == 'peek' and e[1][1][1] == s.obj:
            o = e[1][2]
        else: return e
        r = s.role.get(o)
        if r in ('u', 'end'): return ('frame', r)
        if r == 'it': return ('frame', 'it') if True else e
        return e

    def view(s, paths):
        r = []
        for p in paths:
            q = map_path(p, s.f)
            if q is not None: r.append(q)
        return r


def runs_loop(c, rule, inst, p, d, what):
    """path executes the drain loop once, or has already established that the worklist is empty"""
    n = [e for e in inner_loops(p) if e.loop is d.L]
    skip = any(e.kind == 'cond' and empty_test(e.args[0]) and empty_test(e.args[0])[0] == d.obj and e.pol == empty_test(e.args[0])[1] for e in p.items)
    c.need(len(n) == 1 or (skip and not n), rule, p, '%s is not run on a path' % what, inst)
    return n


# ------------------------------------------------------------------ loops over all edges of the graph
ES, ET, EW, EE = ('E', 'src'), ('E', 'tgt'), ('E', 'w'), ('E', 'e')


class EdgeLoop:
    """iteration that visits every edge of the graph once.  body/early/done paths are expressed with
    ES/ET/EW (source id, target id, weight); L innermost loop, top the loop to look for in a parent path"""

    def __init__(s, fn, L, top, body, early, done, outer):
        s.fn = fn; s.L = L; s.top = top; s.body = body; s.early = early; s.done = done; s.outer = outer
        s.raw_done = {id(q.raw) for q in done if hasattr(q, 'raw')}

    where = LoopInfo.where


def _emap(fn, paths, f):
    r = []
    for p in paths:
        q = map_path(p, f)
        if q is not None:
            q.raw = p; r.append(q)
    return r


def stored_once(fn):
    """fields of local objects that are written at one place only and never handed out: {field address: value written}"""
    w = {}; out = set()
    for b, e in all_events(fn):
        if e.kind == 'write' and e.args[0][0] == 'fld': w.setdefault(e.args[0], []).append(e.args[1])
        elif e.kind in ('op', 'call'): out |= {a for a in e.args if a[0] in ('obj', 'fld')}
    return {a: v[0] for a, v in w.items() if len(v) == 1 and a[1][0] == 'obj' and a not in out and a[1] not in out}


def edge_loops(fn):
    if 'eloops' in fn.cache: return fn.cache['eloops']
    r = []
    for L in fn.loops:
        it = iterations(fn, L)
        if it and it.kind == 'edges' and L.parent is not None:
            o = iterations(fn, L.parent)
            if o and o.kind == 'vertices' and (it.over == o.var or it.over[0] == 'rd' and stored_once(fn).get(it.over[1]) == o.var):
                u, e = it.over, it.var

                def f(x, u=(key(u), key(o.var)), e=key(e)):
                    k = key(x)
                    if k in u: return ES
                    if x[0] == 'ret' and 'function::operator()' in x and any(key(y) == e for y in x[3:]): return EW
                    if x[0] == 'q' and len(x) == 4 and x[1] in ('target', 'weight') and x[2] == e and (x[3] in u or x[3] == ES): return ET if x[1] == 'target' else EW
                    return x
                r.append(EdgeLoop(fn, L, L.parent, _emap(fn, it.body, f), _emap(fn, it.early, f), _emap(fn, it.done, f), o))
                continue
        # loop over an edgelist view
        P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
        eqn = 'edgelist_view::iterator::operator=='
        body, early, done = [], [], []
        ok = bool(P)
        objs = set()
        for p in P:
            st = None
            for e in p.items:
                if e.kind == 'cond' and e.args[0][0] == 'ret' and e.args[0][2].endswith(eqn): st = e.pol; break
            der = [e for e in p.items if e.kind == 'op' and e.name.endswith('edgelist_view::iterator::operator*')]
            inc = [e for e in p.items if e.kind == 'op' and e.name.endswith('edgelist_view::iterator::operator++')]
            if st is None: ok = False; break
            if st: done.append(p); continue
            if len(der) < 1: ok = False; break
            objs |= {e.args[0] for e in der}
            if p.end[0] == 'back':
                if len(inc) != 1: ok = False; break
                body.append(p)
            else: early.append(p)
        if not ok or not body or len(objs) != 1: continue
        o = objs.pop()

        def g(x, o=o):
            if x[0] == 'rd':
                a = x[1]
                if a == o: return ES
                if a[0] == 'fld' and a[1] == o:
                    return {4: ET, 8: EE, 16: ES, 24: EW}.get(a[2], x)
            if x[0] == 'q' and len(x) == 4 and x[2] == EE and x[3] == ES:
                if x[1] == 'target': return ET
                if x[1] == 'weight': return EW
            return x
        r.append(EdgeLoop(fn, L, L, _emap(fn, body, g), _emap(fn, early, g), _emap(fn, done, g), None))
    fn.cache['eloops'] = r
    return r


def rd_before(p, rd, ev):
    """the read `rd` happens before event ev on the path (reads hoisted out of the path count as before)"""
    if rd[0] != 'rd' or len(rd) < 3: return True
    for i, e in enumerate(p.items):
        if e.kind == 'read' and e.inst is not None and e.inst.id == rd[2]: return i < idx(p, ev)
    return True


def find_exprs(p, pred):
    """all sub-expressions satisfying pred that occur in conditions of the path, with the cond"""
    for e in p.items:
        if e.kind == 'cond':
            for y in walk(e.args[0]):
                if pred(y): yield e, y


def _job(i):
    c = Ctx(_JOBS[0].prop)
    try: _JOBS[1][i](c)
    except Exception as e: return ('err', type(e).__name__, str(e))
    return (c.obl, c.viol, c.analysed, c.notes)


def parallel(c, jobs):
    """run independent rule groups (functions of a Ctx) in forked processes and merge what they found, in order"""
    global _JOBS
    import multiprocessing as mp
    _JOBS = (c, jobs)
    with mp.get_context('fork').Pool(min(8, len(jobs))) as pool: rs = pool.map(_job, range(len(jobs)), 1)
    for r in rs:
        if r[0] == 'err':
            if r[1] == 'TooManyPaths': raise TooManyPaths(r[2])
            raise Broken('%s: %s' % r[1:])
        c.obl += r[0]; c.notes += r[3]
        for v in r[1]:
            if v not in c.viol: c.viol.append(v)
        for k, n in r[2].items(): c.saw(k, n)

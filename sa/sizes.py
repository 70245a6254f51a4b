"""Container sizes along a path: every size()/empty() read is replaced by the size the path has given the container so far.
('size', container, n) stands for the unknown size after the n-th change the path does not determine."""
from lib import *
from order import Facts, off

NOSIZE = {'reserve', 'shrink_to_fit', 'at', 'operator[]', 'back', 'front', 'data', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'size', 'empty', 'capacity', 'max_size', 'get_allocator'}
GROW = {'push_back', 'emplace_back', 'push_front', 'emplace_front'}


def size_read(e):
    """(container, 'size'|'empty') of a raw read"""
    if e[0] == 'ret' and len(e) > 3 and isinstance(e[2], str) and last(e[2]) in ('size', 'empty'): return e[3], last(e[2]), e[1]
    if e[0] == 'peek' and last(e[2]) in ('size', 'empty'): return e[1], last(e[2]), e[3]
    return None


def plus(a, b):
    if a == C(0): return b
    if b == C(0): return a
    if b[0] == 'op' and b[1] == 'sub' and len(b) == 4 and b[3] == a: return b[2]
    if b[0] == 'op' and b[1] == 'add' and len(b) == 4:
        for x, y in ((b[2], b[3]), (b[3], b[2])):
            if x == ('op', 'mul', C(-1), a) or x == ('op', 'sub', C(0), a): return y
    return simp(('op', 'add') + tuple(sorted([a, b], key=repr)))


class Effect:
    def __init__(s, e, before, after, value, kind): s.e = e; s.before = before; s.after = after; s.value = value; s.kind = kind


def sized(fn, p, drop=True):
    cur = {}; ver = {}; at = {}; eff = []; raw = {}

    def size(o):
        if o not in cur: cur[o] = ('size', o, ver.get(o, ver.get('*', 0)))
        return cur[o]

    def bump(o):
        n = max(ver.values(), default=0) + 1
        ver[o] = n
        if o == '*':
            cur.clear()
            for k in list(ver):
                if k != '*': del ver[k]
        else: cur[o] = ('size', o, n)

    def canon(x):
        def f(y):
            r = size_read(y)
            if r is None or r[2] not in at: return y
            z = at[r[2]]
            return z if r[1] == 'size' else ('cmp', 'eq') + tuple(sorted([C(0), z], key=repr))
        return rewrite(x, lambda y: simp(f(y)))

    for e in p.items:
        if e.kind == 'loop':
            for o in touched(fn, e.loop):
                if o == '*': bump('*'); continue
                b = size(o); g = grow(fn, e.loop, o)
                if g is None: bump(o); eff.append(Effect(e, b, size(o), None, 'loop'))
                else:
                    tl = touched(fn, e.loop)

                    def inner(y):
                        r = size_read(y)
                        if r is None or r[2] in at or r[0] in tl: return y
                        z = size(r[0]); return z if r[1] == 'size' else ('cmp', 'eq') + tuple(sorted([C(0), z], key=repr))
                    n, v = canon(rewrite(g[0], inner)), canon(rewrite(g[1], inner))
                    cur[o] = ('sel', ('cmp', 'lt', b, n), n, b) if not g[2] else n
                    eff.append(Effect(e, b, cur[o], v, 'grow'))
            continue
        if e.kind == 'call':
            if opaque(e): bump('*')
            continue
        if e.kind != 'op' or not e.args: continue
        o = e.args[0]; m = opm(e)
        if e.inst is not None and m in ('size', 'empty'): at[e.inst.id] = size(o); continue
        if is_pure_op(e) or m in NOSIZE: continue
        if last(e.name or '') in ('load_edges', 'load_vertices') or opaque(e): bump('*'); continue
        b = size(o); a = [canon(x) for x in e.args]
        if m == 'resize' and len(a) >= 2: cur[o] = a[1]; eff.append(Effect(e, b, a[1], a[2] if len(a) > 2 else None, 'resize'))
        elif m in GROW: cur[o] = plus(b, C(1)); eff.append(Effect(e, b, cur[o], a[1] if len(a) == 2 else None, 'push'))
        elif m in ('pop_back', 'pop_front'): cur[o] = plus(b, C(-1)); eff.append(Effect(e, b, cur[o], None, 'pop'))
        elif m == 'clear': cur[o] = C(0); eff.append(Effect(e, b, C(0), None, 'clear'))
        elif m == 'insert' and len(a) == 4 and key(a[1]) in (('end', o), ('rd', ('end', o))): cur[o] = plus(b, a[2]); eff.append(Effect(e, b, cur[o], a[3], 'insert'))
        elif m == 'assign' and len(a) == 3: cur[o] = a[1]; eff.append(Effect(e, b, a[1], a[2], 'assign'))
        else: bump(o); eff.append(Effect(e, b, size(o), None, 'other'))
    moved = {x.e.args[0] for x in eff if x.e.kind == 'op'} | {o for x in eff if x.e.kind == 'loop' for o in touched(fn, x.e.loop)}

    def last_step(y):
        if y[0] == 'cmp' and y[1] == 'eq':
            for a, b in ((y[2], y[3]), (y[3], y[2])):
                if a[0] == 'begin' and b[0] == 'end' and a[1] == b[1] and a[1] not in moved and '*' not in ver: return ('cmp', 'eq') + tuple(sorted([C(0), size(a[1])], key=repr))
        return canon1(y, at)
    q = map_path(p, last_step)
    if q is None: return None
    q.canon = canon; q.eff = eff; q.size = size; q.src = p
    if drop and Facts(q).absurd(): return None
    return q


def canon1(y, at):
    r = size_read(y)
    if r is None or r[2] not in at: return y
    z = at[r[2]]
    return z if r[1] == 'size' else ('cmp', 'eq') + tuple(sorted([C(0), z], key=repr))


def opaque(e):
    return e.kind == 'call' and e.name and last(e.name) in ('load_edges', 'load_vertices') or e.kind == 'op' and last(e.name) in ('load_edges', 'load_vertices')


def touched(fn, L):
    r = []
    for b, e in all_events(fn):
        x = fn.loop_of.get(b)
        while x is not None and x is not L: x = x.parent
        if x is not L: continue
        if opaque(e): return ['*']
        if e.kind == 'op' and e.args and not is_pure_op(e) and opm(e) not in NOSIZE and e.args[0] not in r: r.append(e.args[0])
    return r


def grow(fn, L, o):
    """the loop appends one element per step while the size is below n, and does nothing else: (n, element, exactly)"""
    P = [p for p in lpaths(fn, L) if p.end[0] != 'unreach']
    B = [p for p in P if p.end[0] == 'back']; X = [p for p in P if p.end[0] != 'back']
    if not B or not X or L.children: return None
    ind = {v: (i, n) for v, i, k, n in inductions(fn, L) if k == 'add'}
    val = None
    for p in B:
        ms = [e for e in p.items if e.kind == 'write' or e.kind == 'op' and not is_pure_op(e) and opm(e) not in NOSIZE]
        if len(ms) != 1 or ms[0].args[0] != o or opm(ms[0]) not in GROW or len(ms[0].args) != 2: return None
        if val is not None and key(val) != key(ms[0].args[1]): return None
        val = ms[0].args[1]
    if any(e.kind == 'write' or e.kind == 'op' and not is_pure_op(e) and opm(e) not in NOSIZE for p in X for e in p.items): return None

    def is_size(x):
        r = size_read(x)
        if r is not None and r[0] == o and r[1] == 'size': return True
        if x in ind and ind[x][1] == 1:
            r = size_read(ind[x][0]); return r is not None and r[0] == o and r[1] == 'size'
        return False
    bound = None
    for p, stay in [(p, True) for p in B] + [(p, False) for p in X]:
        t = [e for e in p.items if e.kind == 'cond']
        if len(t) != 1 or t[0].args[0][0] != 'cmp': return None
        op, a, b = t[0].args[0][1:]; pol = t[0].pol if stay else not t[0].pol
        if op == 'lt' and is_size(a) and pol: n, ex = b, False
        elif op == 'lt' and is_size(b) and not pol: n, ex = plus(a, C(1)), False
        elif op == 'eq' and not pol and (is_size(a) or is_size(b)): n, ex = (b if is_size(a) else a), True
        else: return None
        if bound is not None and key(bound[0]) != key(n): return None
        bound = (n, ex)
    return bound[0], val, bound[1]


def slp(fn, L=None, drop=True):
    """paths of a function or loop in terms of sizes"""
    r = []
    for p in lpaths(fn, L):
        q = sized(fn, p, drop)
        if q is not None: r.append(q)
    return r


def sized_iter(fn, it, drop=True):
    it.body = [q for q in (sized(fn, p, drop) for p in it.body) if q is not None]
    it.early = [q for q in (sized(fn, p, drop) for p in it.early) if q is not None]
    return it


def fold(y):
    """arithmetic of constants, and comparisons decided by the constants in them (sizes are never negative)"""
    if y[0] == 'op' and y[1] in ('add', 'sub') and len(y) == 4:
        a, b = y[2], y[3]
        if y[1] == 'sub':
            if a == b: return C(0)
            if b[0] != 'c': return y
            b = C(-b[1])
        (x, i), (z, j) = off(a), off(b)
        if x == C(0): x, z = z, x
        if z == C(0):
            n = i + j
            return C(n) if x == C(0) else x if n == 0 else ('op', 'add') + tuple(sorted([C(n), x], key=repr))
    if y[0] == 'cmp' and y[1] in ('lt', 'eq'):
        f = Facts(); t = None
        nat = lambda e: off(e)[0] == C(0) and off(e)[1] >= 0 or off(e)[0][0] == 'size' and off(e)[1] >= 0
        if nat(y[2]) and nat(y[3]):
            if y[1] == 'lt': t = f.lt(y[2], y[3])
            elif off(y[2]) == off(y[3]): t = True
            elif f.ge(y[2], y[3], 1) or f.ge(y[3], y[2], 1): t = False
        if t is not None: return C(1 if t else 0)
    if y[0] == 'sel' and len(y) == 4 and y[1][0] == 'not' and y[1][1][0] == 'c': return y[3] if y[1][1][1] else y[2]
    if y[0] == 'not' and y[1][0] == 'c': return C(0 if y[1][1] else 1)
    return y


def by_size(q, o, n=2):
    """the path for a container of size 0, 1, .., n-1 and n or more: (path, size)"""
    Z = ('size', o, 0)
    for z in [C(i) for i in range(n)] + [('op', 'add') + tuple(sorted([C(n), Z], key=repr))]:
        r = map_path(q, lambda y: z if y == Z else fold(y))
        if r is None or Facts(r).absurd(): continue
        r.src = q.src
        yield r, z


def renamed(fn, p, o):
    """every read of o's size between two changes of o becomes the same symbol; q.known lists the sizes set by resize"""
    ver = 0; at = {}; known = []

    def f(y):
        r = size_read(y)
        if r is None or r[0] != o or r[2] not in at: return y
        z = at[r[2]]
        return z if r[1] == 'size' else ('cmp', 'eq') + tuple(sorted([C(0), z], key=repr))
    for e in p.items:
        if e.kind == 'loop':
            if any(x in (o, '*') for x in touched(fn, e.loop)): ver += 1
        elif opaque(e): ver += 1
        elif e.kind == 'op' and e.args and e.args[0] == o:
            m = opm(e)
            if e.inst is not None and m in ('size', 'empty'): at[e.inst.id] = ('size', o, ver)
            elif not is_pure_op(e) and m not in NOSIZE:
                ver += 1
                if m == 'resize': known.append((('size', o, ver), e.args[1]))
    q = map_path(p, f)
    if q is None: return None
    r = lambda x: rewrite(x, lambda y: simp(f(y)))
    q.canon = r
    q.known = [(z, r(v)) for z, v in known]
    return q

"""Rules for compressed_graph: loaders keep the compressed-row invariant, accessors read it."""
from lib import *
from order import Facts, lits, off, leaves
from sizes import *
from alg_mst import listmax

G = A(0)


def obj_ops(p, o=None):
    """mutating container operations on the path (receiver = field of the graph)"""
    return [e for e in p.items if e.kind == 'op' and not is_pure_op(e) and e.args and (o is None or e.args[0] == o)]


def mut(p):
    return [e for e in p.items if e.kind == 'write' or (e.kind == 'op' and not is_pure_op(e) and opm(e) != 'reserve' and 'clear' != opm(e))]


def is_field(o):
    return o == G or (o[0] == 'fld' and o[1] == G)


def size_of(e, o):
    """e is the size of container o"""
    return e[0] == 'size' and e[1] == o or e[0] == 'peek' and e[2].split('::')[-1] == 'size' and e[1] == o or (e[0] == 'ret' and len(e) > 3 and last(e[2]) == 'size' and e[3] == o)


def empty_of(e, o):
    return e[0] == 'peek' and e[2].split('::')[-1] == 'empty' and e[1] == o or (e[0] == 'ret' and len(e) > 3 and last(e[2]) == 'empty' and e[3] == o)


def layout(m, name):
    """offset of a member inside an element, read from a trivial accessor of the driver"""
    fn = m.entry(name)
    for p in lpaths(fn):
        for e in p.items:
            if e.kind == 'ret':
                a = e.args[0]
                if a[0] == 'rd': a = a[1]
                return 0 if a == A(0) else a[2] if a[0] == 'fld' and a[1] == A(0) else None


def elt(var, k):
    return ('rd', var if k == 0 else ('fld', var, k))


def keyeq(a, b): return key(a) == key(b)


def range_loop(fn, src):
    """loops that visit every element of the container src, in order"""
    r = []
    for L in fn.loops:
        it = iterations(fn, L)
        if it and it.kind == 'range' and key(it.init) == ('begin', src) and key(it.bound) == ('end', src): r.append((L, it))
    return r


def has_op(fn, L, o=None, kinds=PUSH):
    return any(is_push(e, o) for p in lpaths(fn, L) for e in p.items)


def moved(e):
    """does the operation receive its element as an rvalue (callee signature)"""
    c = e.inst.callee or ''
    return any(x in c for x in ('push_backEO', 'push_frontEO', 'emplace_backIJO')) or \
        ('emplace_backIJ' in c and not c.split('emplace_backIJ', 1)[1].startswith('R'))


class Roles: pass


def R_ind(fn, L): return [(v[1],) for v, *_ in inductions(fn, L)]


def has_size(p, o):
    """values on the path that are a size of container o"""
    r = [p.size(o)]
    for e in p.items:
        for x in allsub(e):
            if size_of(x, o) and x not in r: r.append(x)
    return r


def rows_eff(p, o): return [x for x in p.eff if (x.e.args[0] if x.e.kind == 'op' else None) == o or x.e.kind == 'loop' and o in touched(p.fn, x.e.loop)]


def grows(c, rule, inst, f, effs, vals):
    """no step shrinks the rows; every added row holds the number of edges read so far"""
    ok = True
    for x in effs:
        ok &= c.need(x.kind in ('resize', 'push', 'insert', 'grow') and x.value is not None and vals(x.value) and f.ge(x.after, x.before), rule, x.e,
                     'the rows are not extended with the number of edges read so far', inst)
    return ok


def loader(c, m, name, inst, lay, src=A(1), has_val=True, nhint=None, keep=False, roles=None):
    """the loop that appends edges; returns the roles of the graph's arrays"""
    fn = m.entry(name); c.saw('functions')
    loops = [(L, it) for L, it in range_loop(fn, src) if has_op(fn, L)]
    if not c.need(len(loops) == 1, 'every input edge is read once, in order', fn, 'no single loop over the input edges (%d)' % len(loops), inst): return None
    L, it = loops[0]; u = it.var; R = Roles()
    S, T, V = (elt(u, lay[x]) if lay[x] is not None else None for x in ('s', 't', 'v'))
    sized_iter(fn, it)
    for p in it.body + it.early: p.fn = fn
    body = it.body; thr = it.early
    c.saw('paths', len(body))
    # roles from the loop
    for p in body:
        for e in obj_ops(p):
            if is_push(e) and len(e.args) == 2 and T is not None and key(e.args[1]) == key(T): R.col = e.args[0]
            elif is_push(e) and len(e.args) == 2 and V is not None and key(e.args[1]) == key(V): R.val = e.args[0]
    for p in body:
        for x in p.eff:
            o = x.e.args[0] if x.e.kind == 'op' else next((y for y in touched(fn, x.e.loop)), None)
            if o not in (getattr(R, 'col', None), getattr(R, 'val', None)) and x.value is not None: R.rows = o
    OPEN = 'a new source opens its row at the current edge count'
    ok = c.need(hasattr(R, 'rows'), OPEN, it.where(), 'no row start is recorded while reading edges', inst)
    ok &= c.need(hasattr(R, 'col'), 'every edge is appended once with its target', it.where(), 'the target of an edge is never appended', inst)
    if has_val: ok &= c.need(hasattr(R, 'val'), 'every edge is appended once with its value', it.where(), 'the value of an edge is never appended', inst)
    if not ok: return None
    # carried variables: the last source seen
    lu = None; bk = [p for p in body if p.end[0] == 'back']
    for pid, init, _ in header_phis(fn, L):
        if init == [C(0)] and all(key(p.end[2].get(pid, ('phi', pid))) in (key(S), key(('phi', pid))) for p in bk) and \
           any(key(p.end[2].get(pid)) == key(S) for p in bk): lu = ('phi', pid)
    SZ = ('size', R.rows, 0); counter = [v for v, i, k, n in inductions(fn, L) if k == 'add' and n == 1 and i == C(0)]
    ordered_ = (lambda f: f.ge(S, lu)) if lu is not None else (lambda f: f.ge(S, SZ, -1))
    unordered_ = (lambda f: f.ge(lu, S, 1)) if lu is not None else (lambda f: f.ge(SZ, S, 2))
    REM = 'the last source read is remembered'
    for p in body:
        f0 = Facts(p, norm=key)
        c.need(ordered_(f0), 'out-of-order edges are rejected', p, 'an edge can be added without checking that its source is not smaller than the previous one', inst)
        # rows = last source + 1, or still empty
        f = Facts(p, norm=key)
        if lu is not None:
            f.add(lu, SZ, -1)
            if f.ge(SZ, C(0), 1): f.add(SZ, lu, 1)
            if f.ge(C(0), SZ): f.add(C(0), lu)
        if f.absurd(): continue
        ops = mut(p); cs = [e for e in ops if e.kind == 'op' and e.args[0] == R.col]
        rs = rows_eff(p, R.rows); rops = [e for e in ops if e.kind == 'op' and e.args[0] == R.rows]
        c.need(len(cs) == 1 and is_push(cs[0]) and key(cs[0].args[1]) == key(T), 'every edge is appended once with its target', p, 'an edge is not appended exactly once with its target', inst)
        used = len(cs) + len(rops)
        if has_val:
            vs_ = [e for e in ops if e.kind == 'op' and e.args[0] == R.val]; used += len(vs_)
            c.need(len(vs_) == 1 and is_push(vs_[0]) and key(vs_[0].args[1]) == key(V), 'every edge is appended once with its value', p, 'an edge is not appended exactly once with its value', inst)
            if keep: c.need(not any(moved(e) for e in vs_), "the caller's edges are not moved from", p, 'a value of an lvalue input range is moved into the graph', inst)
        c.need(used == len(ops), 'loading changes nothing else', p, 'something else is modified while an edge is read: %s' % [str(e) for e in ops if e.kind == 'write' or e.args[0] not in (R.rows, R.col, getattr(R, 'val', None))][:2], inst)
        c.need(not [o for e in inner_loops(p) for o in touched(fn, e.loop) if o != R.rows], 'loading changes nothing else', p, 'something else is modified while an edge is read', inst)
        nz = p.size(R.rows)
        grows(c, OPEN, inst, f, rs, lambda v: v == ('size', R.col, 0) or v in counter)
        c.need(f.ge(nz, S, 1), OPEN, rs[0].e if rs else p, 'an edge of a new source (or the first edge) can be added without opening its row', inst)
        c.need(f.ge(S, nz, -1), OPEN, rs[0].e if rs else p, 'rows beyond the source are opened', inst)
        if lu is not None and p.end[0] == 'back':
            nl = p.end[2].get(lu[1], lu)
            c.need(f.ge(nl, S) and f.ge(S, nl), REM, p, 'the last source is not updated', inst)
    for p in thr:
        c.need(unordered_(Facts(p, norm=key)) and not mut_g(p), 'only out-of-order edges are rejected', p, 'reading can stop although the edge is in order', inst)
    # invariants of carried maxima
    inv = []; one = set()
    for pid, init, _ in header_phis(fn, L):
        ph = ('phi', pid)
        if len(init) == 1 and all(Facts(p, norm=key).ge(p.end[2].get(pid, ph), ph) for p in bk):
            inv.append((ph, init[0], 0))
            if pid in [q for (q,) in R_ind(fn, L)]: continue
            c.need(all(b == ph and k <= 0 or key(b) in (key(S), key(T)) and k <= 1 or b[0] == 'c' and k <= 0 for p in bk for b, k in leaves(p.end[2].get(pid, ph))), 'no vertex is invented', it.where(), 'a maximum is taken over something other than the ids read', inst)
            if any(key(b) in (key(S), key(T)) and k == 1 for p in bk for b, k in leaves(p.end[2].get(pid, ph))): one.add(ph)
            for k in (1, 0):
                if all(Facts(p, norm=key).ge(p.end[2].get(pid, ph), T, k) for p in bk): inv.append((ph, ('each', 'target'), k)); break
            R.maxv = getattr(R, 'maxv', []) + [ph]
    # the function around the loop
    for raw in [p for p in lpaths(fn) if p.end[0] != 'unreach']:
        p = sized(fn, raw)
        if p is None: continue
        p.fn = fn
        le = next((e for e in p.items if e.kind == 'loop' and e.loop is L), None)
        if le is None:
            c.need(not mut_g(p), 'an empty input changes nothing', p, 'the graph is modified although no edge is read', inst)
            e = cond_pol(p, lambda x: x[0] == 'cmp' and x[1] == 'eq' and {key(x[2]), key(x[3])} == {('begin', src), ('end', src)})
            c.need(e is True or Facts(p).ge(C(0), ('size', src, 0)), 'every input edge is read once, in order', p, 'the input can be skipped although it is not empty', inst)
            continue
        i = idx(p, le)
        pre = p.items[:i]; post = p.items[i + 1:]
        at_loop = [x for x in p.eff if x.e is le or x.e.loop is L and x.e.kind == 'loop']
        before_ = [x for x in p.eff if idx(p, ev_of(p, x.e)) < i]
        rb = next((x.before for x in at_loop if R.rows in touched(fn, L)), None)
        zr = size_at(p, R.rows, before_)
        c.need(Facts(p).ge(C(0), zr), 'rows are rebuilt from the edges', p, 'edges are read while rows of an earlier load are kept', inst)
        c.need(not [e for e in mut(Path(pre, p.end, p.blocks, p.env)) if not (e.kind == 'op' and opm(e) in ('clear', 'vector')) and touches(e)], 'loading changes nothing else', p, 'something is modified before the edges are read', inst)
        if p.end[0] == 'throw' and not natural(it, le): continue
        rz = [x for x in rows_eff(p, R.rows) if idx(p, ev_of(p, x.e)) > i]
        n1 = listmax_all(fn, p, p.size(R.rows))
        pm = map_path(p, lambda x: listmax(fn, p, x) if x[0] == 'rd' and x[1][0] == 'phi' else x)
        if pm is None: continue
        f = Facts(pm, resolve(inv, p))
        LOOPED = [x.after for x in p.eff if x.e.kind == 'loop' and x.e.loop is L and size_of(x.after, R.rows)]
        f.add(LOOPED[0], C(0), 1) if LOOPED else None
        col_now = p.size(R.col)
        END = 'rows end with the total number of edges'
        if not c.need(bool(rz), END, p, 'the remaining rows and the end row are not set to the number of edges', inst): continue
        ok = True
        for x in rz:
            ok &= c.need(x.kind in ('resize', 'push', 'insert', 'grow') and x.value is not None and (x.value == col_now or x.value in counter) and f.ge(listmax_all(fn, p, x.after), listmax_all(fn, p, x.before)), END, x.e,
                         'the remaining rows and the end row are not set to the number of edges', inst)
        if not ok: continue
        w = rz[-1].e
        c.need(bool(LOOPED) and f.ge(n1, LOOPED[0], 1), 'every source has a row', w, 'the rows may be cut below the largest source', inst)
        c.need(f.ge(n1, ('each', 'target'), 2), 'every target has a row', w, 'the vertex count may be smaller than the largest target plus one', inst)
        if nhint is not None: c.need(f.ge(n1, nhint, 1), 'a requested vertex count is honoured', w, 'fewer vertices than requested', inst)
        okl = lambda b, k: b == C(0) and k <= 0 or (nhint is not None and b == nhint and k == 0) or (size_of(b, R.rows) and k <= 0) or \
            (b in getattr(R, 'maxv', []) and k <= (0 if b in one else 1)) or (b[0] == 'rd' and k <= 1 and reads_input(b, src))
        c.need(all(okl(b, k - 1) for y, j in leaves(n1) for b, k in env_leaves(p, y, j)), 'no vertex is invented', w, 'the vertex count can exceed what the input names', inst)
        old = ('size', R.rows, 0)
        if Facts(p).ge(C(0), old) is not True:
            c.need(f.ge(n1, old), 'vertices loaded before keep existing', w, 'rows of an earlier load can be lost', inst)
        R.post = getattr(R, 'post', []) + [(p, w, f, n1)]
        ot = [e for e in post if touches(e) and e.inst not in [x.e.inst for x in rz] and (e.kind == 'write' or e.kind == 'op' and not is_pure_op(e) and opm(e) not in NOSIZE)]
        R.other = getattr(R, 'other', []) + [(p, ot)]
    return R


def reads_input(b, src):
    """a field of an element of the input, reached from its begin or end"""
    return any(x in (('begin', src), ('end', src)) or x[0] == 'peek' and x[1] == src for x in walk(b))


def env_leaves(p, b, k):
    """a value with the joins before it resolved along p"""
    n = resolve([(b, b, 0)], p)[0][1] if b[0] == 'phi' else b
    if n == b: yield b, k
    else:
        for y, j in leaves(n):
            yield from env_leaves(p, y, j + k)


def listmax_all(fn, p, e):
    """std::max over initializer lists inside e"""
    r = rewrite(e, lambda x: listmax(fn, p, x) if x[0] == 'rd' and x[1][0] == 'phi' else x)
    return p.canon(r) if hasattr(p, 'canon') else r


def ev_of(p, e):
    """the event of p standing for the raw event e"""
    for x in p.items:
        if x is e or x.kind == e.kind and x.inst is e.inst and (e.inst is not None or x.loop is e.loop): return x
    return e


def size_at(p, o, effs):
    z = ('size', o, 0)
    for x in effs:
        if x.e.kind == 'op' and x.e.args[0] == o or x.e.kind == 'loop' and o in touched(p.fn, x.e.loop): z = x.after
    return z


def resolve(inv, p):
    """initial values of carried variables with the joins before the loop resolved along p"""
    def r(e):
        for _ in range(6):
            n = subst(e, p.env)
            if n == e: break
            e = n
        return p.canon(e) if hasattr(p, 'canon') else e
    return [(a, r(b), k) for a, b, k in inv]


def allsub(e):
    for a in e.args:
        yield from walk(a)
    if e.val is not None and isinstance(e.val, tuple): yield from walk(e.val)


def touches(e):
    """does the event change the graph object"""
    return e.kind in ('write', 'op') and bool(e.args) and base_of(e.args[0]) == G


def mut_g(p): return [e for e in mut(p) if touches(e)]


def peeks(p, o, after=None):
    i = idx(p, after) if after is not None else -1
    r = []
    for e in p.items[i + 1:]:
        for x in allsub(e):
            if size_of(x, o) and x not in r: r.append(x)
    return r


def normk(e): return key(e)


def rvals_sized(c, R, inst, rv):
    """after a load, there are at least as many vertex values as vertices"""
    for p, w, f, n1 in R.post:
        c.need(f.ge(listmax_all(p.fn, p, p.size(rv)), n1, -1) or any(f.ge(x, n1, -1) and size_of(x, rv) and not rows_eff(p, rv) for x in has_size(p, rv)), 'every vertex has a value', p, 'there may be fewer vertex values than vertices', inst)
    for p, ot in R.other:
        c.need(all(e.kind == 'op' and e.args[0] == rv and opm(e) == 'resize' for e in ot), 'loading changes nothing else', p, 'something else is modified after the edges are read', inst)


def load_vertices(c, m, R, lay):
    fn = m.entry('loadv'); inst = 'load_vertices'; src = A(1); hint = A(2); c.saw('functions')
    loops = range_loop(fn, src)
    for L, it in loops:
        sized_iter(fn, it)
    W = []
    for L, it in loops:
        ws = [(p, [e for e in p.items if e.kind == 'write' and base_of(e.args[0]) == G]) for p in it.body]
        if any(w for _, w in ws): W.append((L, it, ws))
    if not c.need(len(W) == 1, 'every vertex value is stored at its id', fn, 'no single loop storing the values (%d)' % len(W), inst): return None
    L, it, ws = W[0]; ID = elt(it.var, lay['i']); VAL = elt(it.var, lay['v'])
    rv = None
    for p, w in ws:
        ok = c.need(len(w) == 1 and w[0].args[0][0] == 'cell' and key(w[0].args[0][2]) == key(ID) and key(w[0].args[1]) == key(VAL), 'every vertex value is stored at its id', w[0] if w else p, 'the value of a vertex is not stored (only) at its id', inst)
        if ok:
            o = w[0].args[0][1]; rv = rv or o
            c.need(o == rv and o not in (R.rows, R.col, R.val), 'every vertex value is stored at its id', p, 'values go to different arrays', inst)
    if rv is None: return None
    for p in it.early:
        pr = Facts(p, norm=key)
        c.need(any(pr.ge(ID, x) for x in has_size(p, rv)), 'only ids beyond the vertices are rejected', p, 'loading can stop at a valid vertex', inst)
    # maxima over all ids
    inv = []; one = set()      # one: carried values that already are id + 1
    for M, jt in loops:
        if not natural_only(jt): continue
        I = elt(jt.var, lay['i'])
        for pid, init, _ in header_phis(fn, M):
            ph = ('phi', pid); bk = [p for p in jt.body if p.end[0] == 'back']
            if len(init) == 1 and all(Facts(p, norm=key).ge(p.end[2].get(pid, ph), ph) for p in bk):
                inv.append((ph, init[0], 0))
                if pid not in [q for q, *_ in R_ind(fn, M)]:
                    c.need(all(b == ph and k <= 0 or key(b) == key(I) and k <= 1 or b[0] == 'c' and k <= 0 for p in bk for b, k in leaves(p.end[2].get(pid, ph))), 'no vertex is invented', jt.where(), 'a maximum is taken over something other than the ids read', inst)
                for k in (1, 0):
                    if all(gek(Facts(p), p.end[2].get(pid, ph), I, k) for p in bk):
                        inv.append((ph, ('each', 'id'), k)); break
                if any(key(b) == key(I) and k == 1 for p in bk for b, k in leaves(p.end[2].get(pid, ph))): one.add(ph)
    for raw in [p for p in lpaths(fn) if p.end[0] != 'unreach']:
        p = sized(fn, raw)
        if p is None: continue
        p.fn = fn
        f = Facts(p, resolve(inv, p))
        if f.absurd(): continue
        muts = [e for e in mut(p) if touches(e) and opm(e) not in NOSIZE]
        rz = rows_eff(p, R.rows); vz = rows_eff(p, rv)
        c.need(len([e for e in muts if e.args[0] not in (R.rows, rv)]) == 0, 'loading changes nothing else', p, 'load_vertices modifies something other than rows and values', inst)
        Z = p.size(R.rows); col = p.size(R.col); w = rz[-1].e if rz else p
        for x in rz:
            c.need(x.kind in ('resize', 'push', 'insert', 'grow') and x.value is not None and x.value == col, 'added vertices have no edges', x.e, 'added rows do not start at the number of edges', inst)
            c.need(f.ge(x.after, x.before) or f.ge(C(0), x.before), 'load_vertices never drops a vertex', x.e, 'the rows can shrink', inst)
        if rz:
            top = {x[0] for x in inv}
            okl = lambda b, k: b == C(0) and k <= 0 or b == hint and k == 0 or size_of(b, R.rows) and k <= 0 or b in top and k <= (0 if b in one else 1)
            c.need(all(okl(b, k - 1) for y, j in leaves(Z) for b, k in ([(y, j)] if y in top else env_leaves(p, y, j))), 'no vertex is invented', w, 'the vertex count can exceed what the input names', inst)
        cnt, k = (C(0), 0) if f.ge(C(0), Z) else (Z, -1)
        c.need(f.ge(cnt, ('each', 'id'), 1 - k), 'every loaded vertex exists', w, 'a loaded id can be beyond the vertices', inst)
        c.need(f.ge(cnt, hint, -k), 'a requested vertex count is honoured', w, 'fewer vertices than requested', inst)
        for x in vz: c.need(x.kind == 'resize', 'every vertex has a value', x.e, 'vertex values are removed', inst)
        c.need(f.ge(p.size(rv), cnt, k), 'every vertex has a value', p, 'there may be fewer vertex values than vertices', inst)
        le = [e for e in p.items if e.kind == 'loop' and e.loop is L]
        if not le:
            c.need(f.ge(C(0), ('size', src, 0)) or cond_pol(p, lambda x: x[0] == 'cmp' and x[1] == 'eq' and {key(x[2]), key(x[3])} == {('begin', src), ('end', src)}) is True, 'every vertex value is stored at its id', p, 'the values can be skipped although the input is not empty', inst)
        elif p.end[0] == 'ret': c.need(natural(it, le[0]), 'every vertex value is stored at its id', p, 'storing the values stops early', inst)
    return rv


def key_ids(e, p):
    """the occurrence of e (up to re-reading) on the path"""
    for i in p.items:
        for x in allsub(i):
            if key(x) == key(e): return x
    return e


def gek(f, a, b, k):
    g = Facts(); g.f = [(key(x), key(y), n) for x, y, n in f.f]; g.norm = key
    return g.ge(a, b, k)


def natural_only(it): return not it.early


def returns(fn, drop=True, rows=None):
    ps = slp(fn, None, drop)
    if rows is not None:
        qs = []
        for q in ps:
            for r, z in by_size(q, rows): r.rowsize = z; qs.append(r)
        ps = [f for q in qs for f in keep_size(forked([q]), q)]
    else: ps = forked(ps)
    for p in ps:
        if p.end[0] == 'unreach': continue
        for e in p.items:
            if e.kind == 'ret': yield p, e.args[0]


def keep_size(ps, q):
    for p in ps: p.rowsize = q.rowsize; p.src = q.src
    return ps


class Count:
    """the vertex count  n = rows empty ? 0 : size(rows)-1  on a path"""

    def __init__(s, p, rows, size=None):
        s.p = p; s.rows = rows; s.Z = size or getattr(p, 'rowsize', None) or ('size', rows, 0)
        s.f = Facts(p)
        s.sz = [s.Z]
        s.empty = True if s.f.ge(C(0), s.Z) else False if s.f.ge(s.Z, C(0), 1) else None

    def cases(s):
        for a, b, k in ((C(0), s.Z, 0), (s.Z, C(0), 1)):
            f = Facts(); f.f = list(s.f.f); f.norm = s.f.norm
            f.add(a, b, k)
            for op, x, y, pol in lits(s.p):      # comparisons decided by the new fact
                f.lit(op, x, y, pol)
            if not f.absurd(): yield k == 0, f

    def is_n(s, v):
        return all((f.ge(C(0), v) if z else f.ge(v, s.Z, -1) and f.ge(s.Z, v, 1)) or s.f.ge(C(1), s.Z) and f.ge(C(0), v) for z, f in s.cases())

    def zero(s):
        """n is known to be 0"""
        return s.f.ge(C(1), s.Z)

    def below(s, u):
        """u < n: True / False / None"""
        if s.zero(): return False
        r = {True if f.ge(s.Z, u, 2) else False if f.ge(u, s.Z, -1) else None for z, f in s.cases()}
        return r.pop() if len(r) == 1 else None


def accessors(c, m, R, rv):
    rows, col, val = R.rows, R.col, R.val
    part = None

    def entry(n):
        fn = m.entry(n); c.saw('functions'); return fn, n

    def every(n, rule, pred, what, signed=False):
        fn, _ = entry(n); k = 0
        for p, v in returns(fn, rows=rows):
            k += 1
            if not signed and any(op == 'lt' and b == C(0) and pol for op, a, b, pol in lits(p)): continue    # an unsigned number is never below 0
            c.need(pred(p, v), rule, p, what + ': returns ' + pp(v)[:120], n)
            c.need(not mut(p), 'queries do not modify the graph', p, 'a query modifies something', n)
        c.need(k > 0, rule, fn, 'the query never returns', n)

    nv = 'the vertex count is the number of rows'
    every('n', nv, lambda p, v: Count(p, rows).is_n(v), 'vertex count')
    every('vend', nv, lambda p, v: Count(p, rows).is_n(v), 'end of vertices')
    every('vbegin', nv, lambda p, v: v == C(0), 'first vertex')
    ne = 'the edge count is the number of appended edges'
    every('m', ne, lambda p, v: size_of(v, col), 'edge count')
    every('alle_b', ne, lambda p, v: v == C(0), 'first edge id')
    every('alle_e', ne, lambda p, v: size_of(v, col), 'end of the edge ids')
    fid = 'a vertex is addressed by its id'
    every('find', fid, lambda p, v: v == A(1), 'find_vertex')
    every('vid', fid, lambda p, v: v == A(1), 'vertex_id')
    er = 'the edges of a vertex are its row'

    def edge_bounds(p, v, k):
        b = Count(p, rows).below(A(1))
        if b is True: return key(v) in [key(('rd', x)) for x in cellk(rows, A(1), k, 8)]
        if b is False: return v == C(0)
        return False
    for n, k in (('ebegin', 0), ('eend', 1), ('eids_b', 0), ('eids_e', 1)):
        every(n, er, lambda p, v: edge_bounds(p, v, k), 'edge range of a vertex')
    every('esrc', er, lambda p, v: v == A(1), 'source of the edges of a vertex')

    def degree(p, v):
        b = Count(p, rows).below(A(1))
        if b is False: return v == C(0)
        if b is True:
            hi = {key(('rd', x)) for x in cellk(rows, A(1), 1, 8)}; lo = {key(('rd', x)) for x in cellk(rows, A(1), 0)}
            return v[0] == 'op' and v[1] == 'sub' and key(v[2]) in hi and key(v[3]) in lo
        return False
    every('deg', 'the degree of a vertex is the length of its row', degree, 'number of edges of a vertex')

    def degree2(p, v):
        if degree(p, v): return True
        b = Count(p, rows).below(A(1))
        hi = [('rd', x) for x in cellk(rows, A(1), 1, 8)]; lo = [('rd', x) for x in cellk(rows, A(1), 0)]
        return b is True and v == C(0) and any(eq_pol(p, h, l) for h in hi for l in lo)
    every('degree', 'the degree of a vertex is the length of its row', degree2, 'degree of a vertex')
    tr = 'an edge leads to its stored target'
    for n in ('target', 'tgt', 'mid'):
        every(n, tr, lambda p, v: key(v) == key(('rd', ('cell', col, A(1), 0))), 'target of an edge')
    every('source', 'an edge remembers its source', lambda p, v: v == A(2), 'source of an edge')
    vr = 'values are addressed by vertex id and edge index'
    for n in ('eval', 'evalm'):
        every(n, vr, lambda p, v: key(v) == key(('cell', val, A(1), 0)), 'value of an edge')
    for n in ('vval', 'vvalm'):
        every(n, vr, lambda p, v: key(v) == key(('cell', rv, A(1), 0)), 'value of a vertex')
    every('has', 'has_edges reports whether any edge exists', lambda p, v: has_any(p, v, rows, col), 'has_edges')
    every('empty', nv, lambda p, v: is_empty(p, v, rows), 'empty')
    # clear
    fn, inst = entry('clear'); fields = set()
    for p in lpaths(fn):
        if p.end[0] in ('unreach', 'throw'): continue
        cl = {e.args[0] for e in p.items if e.kind == 'op' and opm(e) == 'clear'}
        for o, what in ((rows, 'rows'), (col, 'targets'), (val, 'edge values'), (rv, 'vertex values')):
            c.need(o in cl, 'clear removes everything', p, 'clear leaves the ' + what, inst)


def truth_of(f, v):
    """the truth value of v under the facts f"""
    if v[0] == 'c': return v[1] != 0
    if v[0] == 'not': t = truth_of(f, v[1]); return None if t is None else not t
    if v[0] == 'cmp' and v[1] == 'lt': return f.lt(v[2], v[3])
    if v[0] == 'cmp' and v[1] == 'eq':
        if f.ge(v[2], v[3]) and f.ge(v[3], v[2]): return True
        if f.ge(v[2], v[3], 1) or f.ge(v[3], v[2], 1): return False
    if v[0] == 'sel' and len(v) == 4:
        t = truth_of(f, v[1])
        return truth_of(f, v[2] if t else v[3]) if t is not None else None
    return None


def says_at_least(p, v, o, n, want, rows=False):
    """v is `want` exactly when container o has at least n elements"""
    Z = getattr(p, 'rowsize', ('size', o, 0)) if rows else ('size', o, 0)
    for a, b, k, big in ((Z, C(0), n, True), (C(n - 1), Z, 0, False)):
        f = Facts(p); f.add(a, b, k)
        for op, x, y, pol in lits(p): f.lit(op, x, y, pol)
        if not f.absurd() and truth_of(f, v) is not (want == big): return False
    return True


def has_any(p, v, rows, col): return says_at_least(p, v, col, 1, True)


def is_empty(p, v, rows): return says_at_least(p, v, rows, 2, False, True)


def cellk(o, i, k, stride=0):
    """addresses of o[i+k]"""
    if k == 0: return [('cell', o, i, 0)]
    return [('cell', o, x, 0) for x in add1(i, k)] + [('cell', o, ('op', 'add', i, C(k)), 0)] + ([('cell', o, i, stride * k)] if stride else [])


def csr(c, m):
    lay = {k: layout(m, 'lay_' + k) for k in ('s', 't', 'v')}; layv = {'i': layout(m, 'lay_i'), 'v': layout(m, 'lay_vv')}
    Rs = None
    for n, inst, keep in (('load_c', 'load_edges(const range)', True), ('load_m', 'load_edges(rvalue range)', False), ('load_l', 'load_edges(lvalue range)', True)):
        R = loader(c, m, n, inst, lay, nhint=A(2), keep=keep)
        if R is None: continue
        if Rs is None: Rs = R
        c.need((R.rows, R.col, R.val) == (Rs.rows, Rs.col, Rs.val), 'all loaders fill the same arrays', m.entry(n), 'loaders use different arrays', inst)
        R.name = inst
        Rs.all = getattr(Rs, 'all', []) + [R]
    lv = {k: layout(m, 'lay_v' + k) for k in ('s', 't')}; lv['v'] = None
    loader(c, m, 'load_void', 'load_edges(no values)', lv, has_val=False)
    if Rs is None: return
    rv = load_vertices(c, m, Rs, layv)
    if rv is None: return
    for R in Rs.all: rvals_sized(c, R, R.name, rv)
    return Rs, rv


def csr_load(c, m): csr(c, m)


def csr_query(c, m):
    q = Ctx(c.prop)
    r = csr(q, m)
    if not c.need(r is not None, 'the arrays of the graph are recognised', 'compressed_graph', 'the loaders do not establish which array holds rows, targets and values', 'loaders'): return
    accessors(c, m, *r)


# ------------------------------------------------------------------ partitions and construction
def named(m, n):
    """container field an accessor entry reads the size of"""
    for p, v in returns(m.entry(n)):
        for x in walk(v):
            if x[0] in ('peek', 'ret', 'size'):
                o = x[1] if x[0] in ('peek', 'size') else x[3] if len(x) > 3 else None
                if o is not None and size_of(x, o): return o


def ends_named(o, z):
    """front() and back() as elements"""
    def f(x):
        if x[0] == 'peek' and x[1] == o and last(x[2]) == 'front': return ('cell', o, C(0), 0)
        if x[0] == 'peek' and x[1] == o and last(x[2]) == 'back': return ('cell', o, ('last',), 0)
        if x[0] == 'cell' and x[1] == o and x[3] == 0 and off(x[2]) == (z, -1): return ('cell', o, ('last',), 0)
        if x[0] == 'cell' and x[1] == o and x[3] < 0 and x[2] == z: return ('cell', o, ('last',), 0)      # one element before the end
        if x[0] == 'fld' and x[1] == ('end', o) and x[2] < 0: return ('cell', o, ('last',), 0)
        if x[0] == 'begin' and x[1] == o: return ('cell', o, C(0), 0)
        return x
    return f


def terminated(c, fn, inst, part, rows, check_input):
    """every construction ends with a valid list of partition starts followed by the vertex count"""
    k = 0
    for raw in lpaths(fn):
        if raw.end[0] == 'unreach': continue
        p = sized(fn, raw)
        if p is None: continue
        p.fn = fn
        loads = [e for e in p.items if e.kind in ('call', 'op') and last(e.name) in ('load_edges', 'load_vertices')]
        li = idx(p, loads[-1]) if loads else -1
        effs = [x for x in p.eff if x.e.kind == 'op' and x.e.args[0] == part and opm(x.e) != 'vector' or x.e.kind == 'loop' and part in touched(fn, x.e.loop)]
        P0 = effs[0].before if effs else p.size(part)
        start = next((i for i, x in enumerate(effs) if x.kind != 'clear'), len(effs))
        effs = effs[start:]
        if effs: P0 = effs[0].before
        q = map_path(p, ends_named(part, P0))
        if q is None: continue
        Z = p.size(rows); N = Count(q, rows, Z); f = N.f
        emp = True if f.ge(C(0), P0) else False if f.ge(P0, C(0), 1) else None
        incr = [(e, it) for e in inner_loops(p) for it in [iterations(fn, e.loop)] if it and neighbours(it, part)]
        first = eq_pol(q, ('rd', ('cell', part, C(0), 0)), C(0))
        lastv = ('rd', ('cell', part, ('last',), 0))
        bk = {x for e in q.items for x in allsub(e) if key(x) == lastv}
        if p.end[0] == 'ret':
            k += 1
            if not c.need(bool(effs) and effs[-1].kind == 'push' and effs[-1].value is not None and N.is_n(effs[-1].value), 'partitions end at the vertex count', effs[-1].e if effs else p, 'the list of partitions is not closed with the vertex count', inst): continue
            c.need(li < idx(p, ev_of(p, effs[-1].e)), 'partitions end at the vertex count', effs[-1].e, 'the partitions are closed before the graph is loaded', inst)
            if inst == 'clear': c.need(emp is True, 'clear removes everything', p, 'clear leaves partitions', inst)
            if emp is True:
                c.need(len(effs) == 2 and effs[0].kind == 'push' and effs[0].value == C(0), 'without partitions, everything is in partition 0', p, 'the single partition does not start at vertex 0', inst)
            elif check_input:
                c.need(emp is False and len(effs) == 1 and first is True, 'partitions start at vertex 0', p, 'a first partition not starting at 0 is accepted', inst)
                c.need(any(natural(it, e) for e, it in incr), 'partition starts increase strictly', p, 'partition starts are accepted without being compared with each other', inst)
                c.need(any(all(g.ge(C(0), b) if z else g.ge(Z, b, 1) for z, g in N.cases()) for b in bk), 'partition starts are vertices', p, 'a partition start beyond the vertices is accepted', inst)
        elif p.end[0] == 'throw' and not (not effs and not incr and first is None and emp is None):
            why = emp is not True and (first is False or any(not natural(it, e) for e, it in incr) or any(all(g.ge(b, C(0), 1) if z else g.ge(b, Z) for z, g in N.cases()) for b in bk))
            c.need(why, 'valid partitions are accepted', p, 'construction fails although the partition starts are valid', inst)
    c.need(k > 0, 'partitions end at the vertex count', fn, 'construction never succeeds', inst)
    for L in fn.loops:
        it = iterations(fn, L)
        lo = neighbours(it, part) if it else None
        if lo is None: continue
        i = it.var
        for p in it.body + it.early:
            pol = None
            at = [('rd', y) for x in ([i] if lo else add1(i)) for y in [('cell', part, x, 0)]] + ([] if lo else [('rd', ('cell', part, i, 4))])
            prev = [('rd', ('cell', part, q, 0)) for q in ([('op', 'add', C(-1), i), ('op', 'add', i, C(-1)), ('op', 'sub', i, C(1))] if lo else [i])] + ([('rd', ('cell', part, i, -4))] if lo else [])
            for a in prev:
                for b in at:
                    r = lt_pol(p, a, b)
                    if r is not None: pol = r
            c.need(pol is (p in it.body), 'partition starts increase strictly', p, 'neighbouring partition starts are not compared', inst)


def neighbours(it, part):
    """1 for indices 1..size-1, 0 for indices 0..size-2"""
    if it.init == C(1) and size_of(it.bound, part): return 1
    if it.init == C(0):
        b, k = off(it.bound)
        if k == -1 and size_of(b, part): return 0
    return None


def csr_ctor(c, m):
    gr, gp = named(m, 'gn'), named(m, 'gnp'); ep = named(m, 'enp')
    er = named(m, 'en')
    if not c.need(None not in (gr, gp, ep, er), 'partitions are counted', 'compressed_graph', 'the arrays of rows and partitions are not recognised', 'constructors'): return
    for n, inst, rows, part, src, chk in (('parts', 'compressed_graph(edges, projection, partitions)', gr, gp, ['load_edges'], True), ('list', 'compressed_graph(initializer list)', gr, gp, ['load_edges'], False),
                                          ('alloc', 'compressed_graph(allocator)', gr, gp, [], False), ('edges', 'compressed_graph(edges)', er, ep, ['load_edges'], False),
                                          ('both', 'compressed_graph(edges, vertices)', er, ep, ['load_edges', 'load_vertices'], True), ('glist', 'compressed_graph with graph value(initializer list)', er, ep, ['load_edges'], False),
                                          ('gval', 'compressed_graph(graph value)', er, ep, [], False)):
        fn = m.entry(n); c.saw('functions')
        terminated(c, fn, inst, part, rows, chk)
        loaded(c, fn, inst, src)
        if n in ('parts', 'both'):
            for p in lpaths(fn):
                if p.end[0] != 'ret': continue
                c.need(any(e.kind == 'op' and opm(e) == 'vector' and e.args[0] == part and e.args[1:] == (A(2 if n == 'parts' else 3),) for e in p.items), 'the given partition starts are used', p, 'partition starts are not taken from the argument', inst)
    loaded(c, m.entry('load'), 'load(edges, vertices)', ['load_edges', 'load_vertices'])
    fn = m.entry('gval'); a = None
    for n in ('gv', 'gvc'):
        for p, v in returns(m.entry(n)):
            c.need(is_field(v) and (a is None or a == v), 'the graph value is stored and returned', p, 'graph_value does not return the stored value', n); a = v
    for p in lpaths(fn):
        if p.end[0] == 'ret': c.need(any(e.kind == 'write' and e.args[0] == a and key(e.args[1]) == ('rd', A(1)) for e in p.items), 'the graph value is stored and returned', p, 'the given graph value is not stored', 'gval')


def loaded(c, fn, inst, want):
    for p in lpaths(fn):
        if p.end[0] == 'unreach': continue
        got = [e for e in p.items if e.kind in ('call', 'op') and last(e.name) in ('load_edges', 'load_vertices')]
        c.need([last(e.name) for e in got] == want, 'construction loads edges, then vertices', p, 'the given edges (or vertices) are not loaded, or in the wrong order', inst)
        for e in got:
            src = A(1) if last(e.name) == 'load_edges' else A(2)
            c.need(e.args[0] == G and any(x == src for a in e.args[1:] for x in walk(a)), 'construction loads edges, then vertices', e, 'something other than the given range is loaded', inst)


def csr_parts(c, m):
    """queries about partitions"""
    rows = named(m, 'n'); part = named(m, 'np')
    if not c.need(rows is not None and part is not None and rows != part, 'partitions are counted', m.entry('np'), 'the number of partitions is not the size of an array', 'np'): return
    for n in ('np', 'pbegin', 'pend', 'pid', 'clear'): c.saw('functions')
    terminated(c, m.entry('clear'), 'clear', part, rows, False)
    for p, v in returns(m.entry('np')):
        k = Count(p, part)
        c.need(v == C(1) if k.zero() else k.is_n(v), 'partitions are counted', p, 'number of partitions is wrong: ' + pp(v), 'np')
    for n, d in (('pbegin', 0), ('pend', 1)):
        for p, v in returns(m.entry(n)):
            N = Count(p, rows); K = Count(p, part); pid = A(1)
            neg = lt_pol(p, pid, C(0)); zero = eq_pol(p, pid, C(0))
            nf = Facts(); nf.f = [t for t in K.f.f if not (neg is True)]
            single = K.zero() or any(K.f.ge(C(2), x) for x in K.sz)
            multi = any(K.f.ge(x, C(3)) for x in K.sz)
            # without an 'unsigned' guarantee for pid only use facts once it is known not to be negative
            up = True if neg is False and any(K.f.ge(x, pid, 2) for x in K.sz) else False if any(K.f.ge(pid, x, -1) for x in K.sz) and neg is not True else None
            cell = {key(('rd', x)) for x in cellk(part, pid, d)}
            whole = v == C(0) if d == 0 else N.is_n(v)
            none_ = v == C(0)
            if N.zero(): ok = none_
            elif neg is True: ok = none_
            elif up is True and (multi or K.empty is False): ok = key(v) in cell or (single and zero is True and whole)
            elif up is False and not single: ok = none_
            elif single and zero is True: ok = whole
            elif single and zero is False: ok = none_
            elif single and up is False: ok = none_ if zero is not True else whole
            else: ok = False
            c.need(ok, 'a partition is the vertices between its start and the next', p, 'range of a partition: returns ' + pp(v)[:100], n)
    for p, v in returns(m.entry('pid')):
        K = Count(p, part); u = A(1)
        if K.zero() or any(K.f.ge(C(2), x) for x in K.sz): c.need(v == C(0), 'a vertex belongs to the partition containing it', p, 'single partition is not 0', 'pid'); continue
        ub = [e for e in p.items if e.kind in ('op', 'call') and last(e.name) == 'upper_bound']
        ok = len(ub) == 1 and keyfree(ub[0].args[0]) == ('begin', part) and keyfree(ub[0].args[1]) in (('fld', ('end', part), -4), ('end', part)) and ub[0].args[2] == u
        last_ok = ok and keyfree(ub[0].args[1])[0] == 'fld'
        r = ub[0] if ub else None
        c.need(ok and last_ok and index_minus1(v, part), 'a vertex belongs to the partition containing it', p, 'partition_id is not the last partition starting at or before the vertex', 'pid')


def keyfree(e):
    e = key(e)
    while e[0] == 'rd' and e[1][0] in ('begin', 'end', 'fld', 'cell'): e = e[1]
    return e


def index_minus1(v, part):
    """(upper_bound - 4 - begin)/4  or  (upper_bound - begin)/4 - 1"""
    b, k = off(v)
    if not (b[0] == 'op' and b[1] in ('sdiv', 'udiv', 'ashr', 'lshr') and b[3] in (C(4), C(2))): return False
    s = b[2]
    if s[0] != 'op' or s[1] != 'sub' or keyfree(s[3]) != ('begin', part): return False
    x = s[2]; by = 0
    if x[0] == 'fld': by = x[2]; x = x[1]
    return x[0] == 'ret' and last(x[2]) == 'upper_bound' and by + 4 * k == -4


def csr_all_ctor(c, m): csr_ctor(c, m)

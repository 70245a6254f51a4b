"""Descriptors and edge list elements as values: what comparing, ordering, stepping and hashing them reads and decides."""
import itertools
from order import *


def orderings(v):
    """the named constants of the standard comparison categories"""
    def f(x):
        if x[0] == 'rd' and x[1][0] == 'sel' and len(x[1]) == 4: return ('sel', x[1][1], f(('rd', x[1][2])), f(('rd', x[1][3])))
        if x[0] == 'rd' and x[1][0] == 'g' and '_ordering' in x[1][1]:
            for n, k in (('4lessE', -1), ('7greaterE', 1), ('5equalE', 0), ('10equivalentE', 0), ('9unorderedE', 2)):
                if x[1][1].endswith(n): return ('c', k)
        return x
    return rewrite(v, f)


def alts(v, pol):
    """ways in which the truth value v comes out as pol: lists of (comparison, polarity)"""
    while v[0] == 'not': v = v[1]; pol = not pol
    if v[0] == 'c': return [[]] if bool(v[1]) is pol else []
    if v[0] == 'sel' and len(v) == 4:
        return [a + b for t, q in ((v[2], True), (v[3], False)) for a in alts(v[1], q) for b in alts(t, pol)]
    if v[0] == 'op' and v[1] in ('and', 'or') and len(v) == 4:
        if (v[1] == 'and') is pol: return [a + b for a in alts(v[2], pol) for b in alts(v[3], pol)]
        return alts(v[2], pol) + alts(v[3], pol)
    if v[0] == 'op' and v[1] == 'xor' and len(v) == 4:
        return [a + b for q in (True, False) for a in alts(v[2], q) for b in alts(v[3], q is not pol)]
    if v[0] == 'op' and v[1] == 'narrow' and len(v) == 4: return alts(v[3], pol)
    if v[0] == 'cmp':
        for i in (2, 3):
            x = v[i]
            if x[0] == 'op' and x[1] == 'narrow' and len(x) == 4: return alts(v[:i] + (x[3],) + v[i + 1:], pol)
            if x[0] == 'sel' and len(x) == 4:
                return [a + b for t, q in ((x[2], True), (x[3], False)) for a in alts(x[1], q) for b in alts(v[:i] + (t,) + v[i + 1:], pol)]
        if v[2][0] == 'c' and v[3][0] == 'c':
            a, b = v[2][1], v[3][1]
            return [[]] if (a < b if v[1] == 'lt' else a == b) is pol else []
    return [[(v, pol)]]


def cases(c, fn):
    """(outcome, literals, path) of a function that returns a truth value; nothing but the result may come out of it"""
    c.saw('functions')
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        c.saw('paths')
        lit = [[]]
        for e in p.items:
            if e.kind == 'cond': lit = [a + b for a in lit for b in alts(orderings(e.args[0]), e.pol)]
        for e in p.items:
            if e.kind != 'ret': continue
            for pol in (True, False):
                for a in alts(orderings(e.args[0]), pol):
                    for l in lit: yield pol, l + a, p


def impossible(lits, world):
    f = Facts(norm=key)
    for op, a, b, pol in world: f.lit(op, a, b, pol)
    todo = [(x, q) for x, q in lits if x[0] == 'cmp' and len(x) == 4 and x[1] in ('eq', 'lt')]
    for k in range(2):          # an inequality says more once the bounds are known
        for x, q in todo: f.lit(x[1], x[2], x[3], q)
    if f.absurd(): return True
    # what is made of equal parts in the same way is equal
    for op, a, b, pol in world:
        if op == 'eq' and pol: lits = [(on(key(x), key(b), key(a)), q) for x, q in lits]
    if any(x[0] == 'cmp' and len(x) == 4 and x[2] == x[3] and (x[1] == 'eq') is not q for x, q in lits): return True
    # the value is not a comparison of the two sides but follows from one that was already decided
    return any(key(x) == key(y) and q is not r for x, q in lits for y, r in lits)


def decides(c, m, name, rule, worlds, what, inst):
    fn = m.entry(name); n = 0; w = None
    for pol, lits, p in cases(c, fn):
        n += 1
        for world, want, say in worlds:
            c.saw('obligations')
            if want is not pol and not impossible(lits, world): w = (p, say, pol); break
        if w: break
        bad = [e for e in p.items if e.kind in ('write', 'call', 'op', 'throw') and not (e.kind == 'write' and base_of(e.args[0])[0] == 'obj')]
        c.need(not bad, 'comparing changes nothing', bad[0] if bad else p, what + ' does something else as well', inst)
    c.need(w is None and n > 0, rule, w[0] if w and wh(w[0]) != '?' else fn, '%s can be %s for %s' % (what, str(w[2]).lower(), w[1]) if w else what + ' is never decided', inst)


def eq_worlds(fs, names):
    """equal iff all fields are equal"""
    r = [([('eq', a, b, True) for a, b in fs], True, 'two that are the same')]
    for (a, b), n in zip(fs, names):
        for x, y in ((a, b), (b, a)): r.append(([('lt', x, y, True)], False, 'two with different ' + n))
    return r


def lt_worlds(fs, names):
    r = [([('eq', a, b, True) for a, b in fs], False, 'two that are equal')]
    for i, (a, b) in enumerate(fs):
        same = [('eq', x, y, True) for x, y in fs[:i]]
        r.append((same + [('lt', a, b, True)], True, 'a smaller %s' % names[i]))
        r.append((same + [('lt', b, a, True)], False, 'a larger %s' % names[i]))
    return r


def flip(ws): return [(w, not v, s) for w, v, s in ws]
def swapped(fs): return [(b, a) for a, b in fs]


def result(m, name):
    """the single value a trivial accessor returns"""
    vs = {key(e.args[0]) for p in lpaths(m.entry(name)) if p.end[0] == 'ret' for e in p.items if e.kind == 'ret'}
    return vs.pop() if len(vs) == 1 else None


def on(e, frm, to): return rewrite(e, lambda x: to if x == frm else x)


class Quiet:
    """collects what a rule would report"""
    def __init__(s, c): s.c = c; s.n = []
    def need(s, ok, *a):
        if not ok: s.n.append(a)
    def bad(s, *a): s.n.append(a)
    def saw(s, *a): s.c.saw(*a)


def ordered(c, m, pre, n, fs, names, any_order, inst):
    rule = 'descriptors are ordered by position, in agreement with equality' if any_order else 'edges are ordered by source, then target, then value'
    perms = list(itertools.permutations(range(len(fs)))) if any_order else [tuple(range(len(fs)))]
    first = None
    for pm in perms:
        q = Quiet(c); F = [fs[i] for i in pm]; N = [names[i] for i in pm]
        for op, ws in (('lt', lt_worlds(F, N)), ('gt', lt_worlds(swapped(F), N)), ('le', flip(lt_worlds(swapped(F), N))), ('ge', flip(lt_worlds(F, N)))):
            decides(q, m, pre + op + '_' + n, rule, ws, {'lt': 'less than', 'gt': 'greater than', 'le': 'at most', 'ge': 'at least'}[op], inst)
        if not q.n: return
        first = first or q.n
    for a in first: c.bad(*[x for x in a])


def nexts(m, n, kind, pos):
    """the position after pos"""
    v = result(m, 'nx%s_%s' % (kind, n))
    return None if v is None else on(v, A(0), pos)


def steps(c, m, pre, n, kind, fields, inst):
    """++x and x++: only the position changes, to the next one"""
    pos = fields[0]; nx = nexts(m, n, kind, pos); rule = 'stepping a descriptor moves it to the next position and changes nothing else'
    for e, want in ((pre + 'pre', A(0)), (pre + 'post', pos)) + (((pre + 'posts', fields[1]),) if len(fields) > 1 else ()):
        fn = m.entry('%s_%s' % (e, n)); c.saw('functions'); k = 0
        for p in lpaths(fn):
            if p.end[0] != 'ret': continue
            c.saw('paths'); last_ = {}
            for x in p.items:
                if x.kind == 'write' and base_of(x.args[0])[0] == 'a': last_[key(x.args[0])] = x
                if x.kind == 'call' and '_Rb_tree_increment' not in x.name or x.kind in ('op', 'throw'): c.bad(rule, x, 'stepping does something else as well', inst)
                if x.kind == 'ret': k += 1; c.need(key(x.args[0]) == want, rule if want == A(0) else 'the old position is given back by a step that returns it', x, 'a step gives back %s' % pp(x.args[0])[:80], inst)
            for a, w in last_.items():
                got = norm(w.args[1])
                c.need(('rd', a) == pos and got == norm(nx) or ('rd', a) in [key(f) for f in fields[1:]] and key(w.args[1]) == ('rd', a), rule, w, 'a step writes %s' % str(w)[:100], inst)
            c.need(pos[1] in last_, rule, p, 'a step leaves the position as it was', inst)
        c.need(k > 0, rule, fn, 'a step never returns', inst)


def hashed(c, m, name, allowed, inst):
    """a hash is a function of what equality compares"""
    rule = 'the hash depends only on what equality compares'; fn = m.entry(name); c.saw('functions'); k = 0
    allowed = [key(x) for x in allowed]

    def bad(e):
        e = key(e)
        if e in allowed or e[0] == 'c': return None
        if e[0] == 'fld': return bad(e[1])
        if e[0] in ('op', 'cmp', 'not', 'sel'):
            for x in e[1:]:
                if isinstance(x, tuple):
                    r = bad(x)
                    if r is not None: return r
            return None
        return e
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        c.saw('paths')
        for x in p.items:
            if x.kind in ('cond', 'ret'):
                k += x.kind == 'ret'; r = bad(x.args[0])
                c.need(r is None, rule, x, 'the hash depends on %s' % (pp(r)[:100] if r else ''), inst)
            elif x.kind in ('call', 'throw') or x.kind == 'op' or x.kind == 'write' and base_of(x.args[0])[0] == 'a':
                c.bad(rule, x, 'hashing calls or changes something', inst)
    c.need(k > 0, rule, fn, 'no hash is ever returned', inst)


def descriptors(c, m):
    two = lambda x: (x, on(x, A(0), A(1)))
    for n in ('vv', 'mv', 'uv'):
        inst = 'vertex descriptor ' + n
        pos = result(m, 'vpos_' + n); vid = result(m, 'vid_' + n)
        c.need(result(m, 'vmk_' + n) == A(0), 'a descriptor keeps the position it was made with', m.entry('vmk_' + n), 'the position given to a vertex descriptor is not the one it reports', inst)
        ok = pos is not None and pos[0] == 'rd' and base_of(pos[1]) == A(0)
        c.need(ok, 'a descriptor keeps the position it was made with', m.entry('vpos_' + n), 'value() does not report the stored position', inst)
        if not ok: continue
        idd = on(result(m, 'oid_' + n), A(0), pos)
        c.need(vid is not None and norm(vid) == norm(idd), 'a vertex descriptor names its vertex', m.entry('vid_' + n), 'vertex_id is not the index or the key at the position', inst)
        fs = [two(pos)]; eqr = 'descriptors are equal when they stand for the same vertex or edge'
        decides(c, m, 'veq_' + n, eqr, eq_worlds(fs, ['position']), 'equality', inst)
        decides(c, m, 'vne_' + n, eqr, flip(eq_worlds(fs, ['position'])), 'inequality', inst)
        if n == 'vv': ordered(c, m, 'v', n, fs, ['position'], True, inst)
        steps(c, m, 'v', n, 'v', [pos], inst)
        hashed(c, m, 'vhash_' + n, [pos, idd], inst)
    for n in ('vv', 'mv', 'uv', 'vl', 'ml'):
        inst = 'edge descriptor ' + n
        pos = result(m, 'epos_' + n); src = result(m, 'esrc_' + n); kept = 'a descriptor keeps the position it was made with'
        c.need(result(m, 'emk_' + n) == A(0) and result(m, 'emks_' + n) == A(1), kept, m.entry('emk_' + n), 'an edge descriptor does not report the position and source it was made with', inst)
        ok = all(x is not None and x[0] == 'rd' and base_of(x[1]) == A(0) for x in (pos, src)) and pos != src
        c.need(ok, kept, m.entry('epos_' + n), 'value() and source() do not report the stored position and source', inst)
        if not ok: continue
        fs = [two(pos), two(src)]; names = ['position', 'source']; eqr = 'descriptors are equal when they stand for the same vertex or edge'
        decides(c, m, 'eeq_' + n, eqr, eq_worlds(fs, names), 'equality', inst)
        decides(c, m, 'ene_' + n, eqr, flip(eq_worlds(fs, names)), 'inequality', inst)
        if n == 'vv': ordered(c, m, 'e', n, fs, names, True, inst)
        steps(c, m, 'e', n, 'e', [pos, src], inst)
        vn = {'vl': 'vv', 'ml': 'mv'}.get(n, n)
        hashed(c, m, 'ehash_' + n, [pos, src, on(result(m, 'oid_' + vn), A(0), src)], inst)


def same_worlds(pos, others):
    """iterators into the same range: equal iff at the same position"""
    return [([('eq', a, b, True) for a, b in [pos] + others], True, 'the same position'),
            ([('lt',) + pos + (True,)], False, 'different positions'), ([('lt', pos[1], pos[0], True)], False, 'different positions')]


def iterators(c, m):
    two = lambda x: (x, on(x, A(0), A(1)))
    rng = 'a descriptor range runs from its first to its last position'
    for n, k in [(n, 'v') for n in ('vv', 'mv', 'uv')] + [(n, 'e') for n in ('vv', 'vl', 'mv', 'uv', 'ml')]:
        pre = {'v': 'i', 'e': 'j'}[k]; inst = 'iterator of %s %s' % ({'v': 'vertices', 'e': 'edges'}[k], n)
        fs = [result(m, '%spos_%s' % (pre, n))] + ([result(m, '%ssrc_%s' % (pre, n))] if k == 'e' else [])
        ok = all(x is not None and x[0] == 'rd' and base_of(x[1]) == A(0) for x in fs) and len(set(fs)) == len(fs)
        c.need(ok, 'an iterator yields the descriptor of its position', m.entry('%spos_%s' % (pre, n)), 'an iterator does not give the descriptor of its position', inst)
        if not ok: continue
        ws = same_worlds(two(fs[0]), [two(x) for x in fs[1:]])
        decides(c, m, '%seq_%s' % (pre, n), 'iterators are equal when they are at the same position', ws, 'equality', inst)
        decides(c, m, '%sne_%s' % (pre, n), 'iterators are equal when they are at the same position', flip(ws), 'inequality', inst)
        steps(c, m, pre, n, k, fs, inst)
        if k == 'e':
            for e, i in (('eb', 0), ('ee', 1), ('es', 2), ('ew', 2)): gives(c, m, '%s_%s' % (e, n), A(i), rng, {'eb': 'the first position', 'ee': 'the end', 'es': 'the source of its edges', 'ew': 'its source'}[e], inst, loops=True)
    inst = 'range of vertices'
    gives(c, m, 'vb_vv', A(0), rng, 'the first position', inst); gives(c, m, 've_vv', A(1), rng, 'the end', inst)
    for e in ('vn_vv', 'en_vv'):
        v = result(m, e); d = v is not None and v[0] == 'op' and v[1] == 'sub' and v[2:] == (A(1), A(0))
        c.need(d, rng, m.entry(e), 'the size is not the distance from the first position to the end', inst)


def edge_lists(c, m):
    rep = 'an edge list element reports its own source, target and value'
    for n in ('pr', 't2', 't3', 't4', 'dn', 'dv', 'de', 'df'):
        for f in ('sid', 'tid', 'val'):
            if f == 'val' and n not in ('t3', 't4', 'dv', 'df'): continue
            want = result(m, 'w%s_%s' % (f, n))
            for x in ('', 'm'): gives(c, m, '%s%s_%s' % (f, x, n), want, rep, {'sid': 'the source', 'tid': 'the target', 'val': 'the value'}[f], 'edge list of ' + n)
    ref = 'an edge list descriptor refers to what it was made from'
    for n, fs in (('xn', ('sid', 'tid')), ('xv', ('sid', 'tid', 'val'))):
        inst = 'edge list descriptor ' + n
        for i, f in enumerate(fs):
            gives(c, m, 'c%s_%s' % (f, n), ('rd', A(i)), rep, f, inst)
            gives(c, m, 'r%s_%s' % (f, n), A(i), ref, f, inst)
        v = lambda i: ('rd', A(i))
        F = [(v(0), v(2)), (v(1), v(3))] + ([(v(4), v(5))] if n == 'xv' else []); N = ['source', 'target', 'value'][:len(F)]
        eqr = 'edges are equal when source, target and value are'
        decides(c, m, 'eq_' + n, eqr, eq_worlds(F, N), 'equality', inst)
        decides(c, m, 'ne_' + n, eqr, flip(eq_worlds(F, N)), 'inequality', inst)
        ordered(c, m, '', n, F, N, False, inst)
    gives(c, m, 'kval_xv', ('rd', A(2)), ref, 'the value of a copy', 'edge list descriptor xv')
    gives(c, m, 'ksid_xn', ('rd', A(0)), ref, 'the source of a copy', 'edge list descriptor xn')
    gives(c, m, 'ktid_xn', ('rd', A(1)), ref, 'the target of a copy', 'edge list descriptor xn')
    v = lambda i: ('rd', A(i)); F = [(v(0), v(2)), (v(1), v(3)), (v(4), v(5))]; N = ['source', 'target', 'value']
    decides(c, m, 'eq_xd', 'edges are equal when source, target and value are', eq_worlds(F, N)[:5], 'equality', 'edge list descriptor with a floating value')
    decides(c, m, 'lt_xd', 'edges are ordered by source, then target, then value', lt_worlds(F, N)[1:5], 'less than', 'edge list descriptor with a floating value')


def gives(c, m, name, want, rule, what, inst, loops=False):
    fn = m.entry(name); c.saw('functions'); k = 0
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        c.saw('paths')
        for x in p.items:
            if x.kind == 'ret':
                k += 1; c.need(want is not None and key(x.args[0]) == want, rule, x, '%s is %s' % (what, pp(x.args[0])[:80]), inst)
            elif x.kind in ('call', 'throw', 'op') or x.kind == 'write' and base_of(x.args[0])[0] == 'a':
                c.bad(rule, x, 'asking for it calls or changes something', inst)
    c.need(k > 0, rule, fn, 'never returns', inst)


def dyn_edges(c, m):
    eqr = 'edges of a dynamic graph are told apart by the vertex they lead to'
    for n in ('ov', 'on', 'iv', 'in'):
        inst = ('edge ' if n[0] == 'o' else 'incoming edge ') + ('with' if n[1] == 'v' else 'without') + ' a value'
        x = result(m, 'end_' + n); ok = x is not None and x[0] == 'rd' and base_of(x[1]) == A(0)
        c.need(ok, 'an edge of a dynamic graph holds the id and value it was made with', m.entry('end_' + n), 'the id of an edge is not inside it', inst)
        if not ok: continue
        hold = 'an edge of a dynamic graph holds the id and value it was made with'
        gives(c, m, 'mk_' + n, A(0), hold, 'the id', inst); gives(c, m, 'cp_' + n, x, hold, 'the id of a copy', inst)
        fs = [(x, on(x, A(0), A(1)))]; N = ['other end']
        decides(c, m, 'eq_' + n, eqr, eq_worlds(fs, N), 'equality', inst)
        decides(c, m, 'ne_' + n, eqr, flip(eq_worlds(fs, N)), 'inequality', inst)
        ordered(c, m, '', n, fs, N, True, inst)
        hashed(c, m, 'hash_' + n, [x], inst)
        if n[1] != 'v': continue
        w = result(m, 'val_' + n)
        gives(c, m, 'mkt_' + n, A(0), hold, 'the id', inst); gives(c, m, 'mks_' + n, A(0), hold, 'the id', inst)
        gives(c, m, 'mkw_' + n, ('rd', A(1)), hold, 'the value', inst); gives(c, m, 'mkr_' + n, ('rd', A(1)), hold, 'the value', inst)
        gives(c, m, 'cpw_' + n, ('rd', w), hold, 'the value of a copy', inst)

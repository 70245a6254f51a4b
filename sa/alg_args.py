"""Rules for argument validation: sizes and vertex ids are checked before anything is touched."""
from lib import *
from alg_traversal import path_str
from alg_paths import norm, neq, arr_writes

OOR = '_ZTISt12out_of_range'


def throws_oor(p, after=-1):
    t = [e for e in p.items[after + 1:] if e.kind == 'throw']
    return bool(t) and OOR in repr(t[0].args)


def effects(p, args):
    """visitor calls and writes to caller objects on the path (loops included)"""
    r = []
    for e in p.items:
        if e.kind == 'call' and (e.name or '').startswith('v_'): r.append(e)
        if e.kind == 'write' and base_of(e.args[0]) in args: r.append(e)
    return r


def loop_effects(fn, L, args):
    r = []
    for p in lpaths(fn, L):
        r += effects(p, args)
        for e in inner_loops(p): r += loop_effects(fn, e.loop, args)
    return r


def size_pol(p, arr, n):
    """position and polarity of the test size(arr) < n"""
    for i, e in enumerate(p.items):
        if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'lt':
            a, b = e.args[0][2:]
            if size_of(a) == arr and b == n: return i, e.pol
    return None, None


def lt_at(p, a, b):
    for i, e in enumerate(p.items):
        if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'lt' and eqv(e.args[0][2], a) and eqv(e.args[0][3], b): return i, e.pol
    return None, None


N = Q('num_vertices')


def sizes(c, inst, fn, arrs, args):
    for a in arrs:
        R = 'a range shorter than the number of vertices is rejected before anything is touched'
        for p in lpaths(fn):
            c.saw('paths')
            if p.end[0] == 'unreach': continue
            i, pol = size_pol(p, a, N)
            first = None
            for j, e in enumerate(p.items):
                if e.kind == 'call' and (e.name or '').startswith('v_') or e.kind == 'write' and base_of(e.args[0]) in args or e.kind == 'loop' and loop_effects(fn, e.loop, args):
                    first = j; break
            if pol is None:
                c.need(first is None and p.end[0] in ('throw',), R, p.items[first] if first is not None else p, 'size of argument %s never compared with the number of vertices: [%s]' % (pp(a), path_str(p)), inst)
                continue
            c.need(first is None or i < first, R, p.items[first] if first is not None else p, 'effect before the size of argument %s is checked: [%s]' % (pp(a), path_str(p)), inst)
            if pol: c.need(first is None and throws_oor(p, i), R, p, 'short range not answered with out_of_range: [%s]' % path_str(p), inst)


def ids(c, inst, fn, src, arrs, args, entry_throw=True):
    """src: ('range', arg) | ('one', arg)"""
    R = 'a source that is not a vertex id is rejected before it is used'
    if src[0] == 'seed':
        for p in lpaths(fn):
            i, pol = lt_at(p, src[1], N)
            first = next((j for j, e in enumerate(p.items) if e in effects(p, args) or e.kind == 'loop' and loop_effects(fn, e.loop, args)), None)
            if pol is None: c.need(first is None and p.end[0] == 'throw', R, p, 'seed never compared with the number of vertices: [%s]' % path_str(p), inst); continue
            c.need(first is None or i < first, R, p, 'effect before the seed is checked', inst)
            if not pol: c.need(first is None and throws_oor(p, i), R, p, 'invalid seed not answered with out_of_range', inst)
        return
    # loops over the sources
    cand = []
    for L in fn.top_loops:
        it = iterations(fn, L)
        if not it: continue
        if src[0] == 'range' and it.kind in ('range', 'index') and it.over == src[1]: cand.append((L, it))
        if src[0] == 'one' and it.kind == 'fixed' and it.count == 1: cand.append((L, it))
    checked = []; used = []
    from alg_traversal import seed_elem
    for L, it in cand:
        x = seed_elem(it)
        ok = True
        for p in it.body + it.early:
            i, pol = lt_at(p, x, N)
            if pol is None: ok = False; continue
            c.saw('paths')
            if pol is False:
                c.need(p.end[0] != 'back', R, p, 'invalid source skipped silently', inst)
        checked.append((L, it, ok))
        for p in it.body + it.early:
            i, pol = lt_at(p, x, N)
            for j, e in enumerate(p.items):
                if e in effects(p, args) or is_push(e): used.append((L, p, e, pol is True and i < j))
    allv = [L for L, it, ok in checked if ok]
    if not cand and src[0] == 'one':
        for p in lpaths(fn):
            i, pol = lt_at(p, src[1], N)
            for j, e in enumerate(p.items):
                if e.kind == 'write' and base_of(e.args[0]) in args and contains(e.args[0], src[1]) or is_push(e) and any(contains(a, src[1]) for a in e.args[1:]):
                    c.need(pol is True and i < j, R, e, 'source used before it is checked', inst)
            if pol is False: c.need(throws_oor(p, i), R, p, 'invalid source not answered with out_of_range', inst)
            c.need(pol is not None or p.end[0] == 'throw', R, p, 'source never checked: [%s]' % path_str(p), inst)
        return
    c.need(bool(allv), R, cand[0][1].where() if cand else fn, 'no loop that compares every source with the number of vertices', inst)
    for L, p, e, ok in used:
        pre = any(K is not L and first_before(fn, K, L) for K in allv)
        c.need(ok or pre, R, e, 'source used before it is compared with the number of vertices: [%s]' % path_str(p), inst)
    # leaving the loop because of an invalid source must throw
    for p in lpaths(fn):
        for j, e in enumerate(p.items):
            if e.kind == 'loop' and e.loop in allv:
                it = [i for L, i, ok in checked if L is e.loop][0]
                x = seed_elem(it)
                if not natural(it, e):
                    c.need(throws_oor(p, j) and not [q for q in p.items[j + 1:] if q in effects(p, args)] and not [q for q in p.items[j + 1:] if q.kind == 'loop' and loop_effects(fn, q.loop, args)], R, p, 'invalid source not answered with out_of_range: [%s]' % path_str(p), inst)


def first_before(fn, K, L):
    for p in lpaths(fn):
        ls = [e.loop for e in inner_loops(p)]
        if L in ls and (K not in ls or ls.index(K) > ls.index(L)): return False
    return True


def paths_args(c, m):
    for nm, src, arrs in (('dij_multi', ('range', A(1)), [A(2), A(3)]), ('dij_single', ('one', A(1)), [A(2), A(3)]), ('dij_multi_vd', ('range', A(1)), [A(2), A(3)]),
                          ('dij_dist_multi', ('range', A(1)), [A(2)]), ('dij_dist_single', ('one', A(1)), [A(2)]), ('dij_default', ('one', A(1)), [A(2), A(3)]),
                          ('bf_multi', ('range', A(1)), [A(2), A(3)]), ('bf_single', ('one', A(1)), [A(2), A(3)]), ('bf_multi_vd', ('range', A(1)), [A(2), A(3)]),
                          ('bf_dist_multi', ('range', A(1)), [A(2)]), ('bf_dist_single', ('one', A(1)), [A(2)])):
        fn = m.entry(nm); c.saw('functions')
        sizes(c, nm, fn, arrs, arrs); ids(c, nm, fn, src, arrs, arrs)


def prim_args(c, m):
    for nm, seed in (('prim', A(4)), ('prim_default', A(3))):
        fn = m.entry(nm); c.saw('functions')
        sizes(c, nm, fn, [A(1), A(2)], [A(1), A(2)]); ids(c, nm, fn, ('seed', seed), [A(1), A(2)], [A(1), A(2)])



"""Rules for articulation_points and biconnected_components (low-link searches with an explicit stack)."""
from lib import *
from alg_traversal import one, ordered, confined, no_stale_peek, path_str, mark_initial
from alg_paths import norm, neq, arr_writes
from alg_components import flds, ancestors
from alg_misc import env_subst


def no_edges(p, u):
    """does the path establish that u has no edges"""
    b, e = Q('edges_begin', u), Q('edges_end', u)
    forms = [norm(x) for x in (('cmp', 'eq', C(0), ('op', 'sub', e, b)), ('cmp', 'eq', b, e), ('cmp', 'eq', e, b))]
    for x in p.items:
        if x.kind == 'cond' and norm(x.args[0]) in forms: return x.pol
    return None


def versioned(p, O):
    """rewrite references to the top of O to ('F', n), n = number of pushes/pops on the path before the reference was taken"""
    ver = {}; n = 0
    for e in p.items:
        if e.inst is not None and e.inst.id not in ver: ver[e.inst.id] = n
        if is_push(e, O) or is_pop(e, O): n += 1

    def f(x):
        if x[0] == 'peek' and x[1] == O: return ('F', ver.get(x[3], 0))
        return x
    return map_path(p, f)


def fill_of(fn, arr):
    """(size, value) an array is created with"""
    for b, e in ctor_of(fn, arr):
        if opm(e) in ('vector', 'assign', 'resize') and len(e.args) >= 2 and fn.loop_of.get(b) is None:
            return e.args[1], (e.args[2] if len(e.args) > 2 and e.args[2][0] != 'undef' else C(0))
    return None


def min_update(p, cell, cand, skip_ok=False):
    """does path p perform cell := min(cell, cand)"""
    w = [e for e in p.items if e.kind == 'write' and neq(e.args[0], cell)]
    cur = ('rd', cell)
    l = lt_pol(p, cand, cur); g = lt_pol(p, cur, cand)
    if l is None and g is not None and eq_pol(p, cand, cur) is not None: l = not g and not eq_pol(p, cand, cur)
    le = None if g is None else not g        # cand <= cur
    if len(w) > 1: return False
    v = env_subst(w[0].args[1], p) if w else None
    if v is not None:
        if v[0] == 'sel' and v[1][0] == 'cmp' and v[1][1] == 'lt':
            a, b = v[1][2], v[1][3]
            mn = lambda a, b, x, y: neq(a, x) and neq(b, y)
            if neq(a, cand) and neq(b, cur) and neq(v[2], cand) and neq(v[3], cur): return True
            if neq(a, cur) and neq(b, cand) and neq(v[2], cur) and neq(v[3], cand): return True
            return False
        if v[0] == 'rd' and v[1][0] == 'sel':     # std::min through references
            s = v[1]; ca = cand[1] if cand[0] == 'rd' else None
            c0 = s[1]
            if c0[0] == 'cmp' and c0[1] == 'lt' and ca is not None:
                if neq(c0[2], cand) and neq(c0[3], cur) and neq(s[2], ca) and neq(s[3], cell): return True
                if neq(c0[2], cur) and neq(c0[3], cand) and neq(s[2], cell) and neq(s[3], ca): return True
            return False
        if neq(v, cand): return l is True or le is True
        if neq(v, cur): return l is False or g is True
        return False
    return l is False or g is True or skip_ok


def lowlink(c, m, name, inst, bic):
    fn = m.entry(name); c.saw('functions')
    tag = 'biconnected components' if bic else 'articulation points'
    VL = [(L, i) for L, i in ((L, iterations(fn, L)) for L in fn.top_loops) if i and i.kind == 'vertices']
    RS = tag + ': search from every undiscovered vertex'
    if not c.need(len(VL) == 1 and not VL[0][1].early, RS, fn, 'no complete loop over all vertices', inst): return
    L, it = VL[0]; s = it.var
    ds = [d for d in find_drains(fn) if d.L.parent is L]
    if not c.need(len(ds) == 1, RS, it.where(), 'expected one explicit-stack search, found %d' % len(ds), inst): return
    d = ds[0]; O = d.obj
    c.need(wl_discipline(fn, O) == 'lifo', tag + ': depth-first order', d.where(), 'stack is not last-in first-out', inst)
    c.need(not d.early, RS, d.early[0] if d.early else d.where(), 'search can stop with unfinished vertices', inst)
    c.need(len(fn.top_loops) == 1, RS, fn, 'unexpected further loop', inst)
    body = [q for q in (versioned(p, O) for p in d.body) if q is not None]
    # ---- current edge: target(X, u) with u a field of the top frame
    X = u = None
    for p in body:
        for e in p.items:
            for a in e.args:
                for y in walk(a):
                    if y[0] == 'q' and y[1] == 'target' and y[3][0] == 'rd' and y[3][1] in (('F', 0),) + tuple(('fld', ('F', 0), k) for k in range(0, 64)): X, u = y[2], y[3]
    RE = tag + ': every edge is followed exactly once'
    if not c.need(X is not None, RE, d.where(), 'no edge of the top vertex is followed', inst): return
    fld = lambda o: ('fld', ('F', 0), o) if o else ('F', 0)
    off = lambda a: 0 if a == ('F', 0) else a[2] if a[0] == 'fld' and a[1] == ('F', 0) else None
    uo = off(u[1]); t = Q('target', X, u)
    pushes = [e for b, e in all_events(fn) if is_push(e, O)]
    offs = set.intersection(*[set(flds(e)) for e in pushes]) if pushes else set()
    if not c.need(bool(offs) and uo in offs, RE, d.where(), 'frames do not hold the vertex', inst): return
    # ---- position: re-advanced index, or an iterator kept in the frame
    po = None; AL = None
    if X[0] == 'phi':
        for A_ in d.L.children:
            if any(('phi', pid) == X for pid, _, _ in header_phis(fn, A_)): AL = A_
        okp = AL is not None
        if okp:
            H = {pid: init for pid, init, _ in header_phis(fn, AL)}
            cn = None
            for p in (versioned(p, O) for p in lpaths(fn, AL)):
                for e in p.items:
                    if e.kind == 'cond' and e.args[0][0] == 'cmp':
                        for i, y in enumerate(e.args[0][2:]):
                            z = e.args[0][3 - i]
                            if y[0] == 'phi' and y[1] in H and y != X and z[0] == 'rd' and off(z[1]) is not None: cn = y; po = off(z[1])
            down = None
            if cn is None:
                for pid, init in H.items():
                    v = versioned_expr(fn, init[0], O) if len(init) == 1 else ('undef',)
                    if ('phi', pid) != X and v[0] == 'rd' and off(v[1]) is not None: cn = ('phi', pid); po = off(v[1]); down = v
            okp = cn is not None and len(H[X[1]]) == 1 and neq(versioned_expr(fn, H[X[1]][0], O), Q('edges_begin', u)) and (H[cn[1]] == [C(0)] or down is not None)
            if okp:
                idx_ = ('rd', fld(po))
                for p in (versioned(p, O) for p in lpaths(fn, AL)):
                    c.saw('paths')
                    if p.end[0] == 'unreach': continue
                    l = lt_pol(p, cn, idx_) if down is None else lt_pol(p, C(0), cn); q = eq_pol(p, cn, idx_ if down is None else C(0)); en = eq_pol(p, X, Q('edges_end', u))
                    more = l if l is not None else (None if q is None else not q)
                    if p.end[0] == 'back':
                        c.need(more is True and is_add(p.end[2].get(X[1]), X) and is_add(p.end[2].get(cn[1]), cn, 1 if down is None else -1), RE, p, 'advance step moves edge and counter differently: [%s]' % path_str(p), inst)
                    else: c.need(more is False or en is True, RE, p, 'advance stops short of the stored position: [%s]' % path_str(p), inst)
        c.need(okp, RE, d.where(), 'current edge is not obtained by advancing from the first edge to the stored position', inst)
    elif X[0] == 'rd' and off(X[1]) is not None: po = off(X[1])
    else:
        for o in offs:
            if neq(X, ('op', 'add', Q('edges_begin', u), ('rd', fld(o)))): po = o
    if not c.need(po is not None, RE, d.where(), 'position in the edge list is not stored in the frame', inst): return
    pos = ('rd', fld(po))
    stored_it = X[0] == 'rd'
    # ---- roles of the arrays
    rule_roles = tag + ': discovery numbers'
    disc = low = parent = cc = None
    K = None
    for p in body:
        for e in p.items:
            if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                for i, y in enumerate(e.args[0][2:]):
                    if y[0] == 'rd' and y[1][0] == 'cell' and neq(y[1][2], t) and e.args[0][3 - i][0] == 'c':
                        a = y[1][1]; f = fill_of(fn, a)
                        if f and f[1] == e.args[0][3 - i]: disc = a; K = f[1]
    if not c.need(disc is not None, tag + ': an edge is a tree edge exactly when its target is undiscovered', d.where(), 'no test whether the target is still undiscovered', inst): return
    c.need(fill_of(fn, disc)[0] == Q('num_vertices') and K == C(-1), rule_roles, fn, 'discovery numbers do not start as undiscovered for every vertex', inst)
    und = lambda p, x: eq_pol(p, K, ('rd', ('cell', disc, x, 0)))
    for p in body:
        if und(p, t) is not True: continue
        dv = [e.args[1] for e in arr_writes(p, disc) if neq(e.args[0], ('cell', disc, t, 0))]
        for e in p.items:
            if e.kind == 'write' and e.args[0][0] == 'cell':
                a, i, v = e.args[0][1], e.args[0][2], e.args[1]
                if a == disc: continue
                if neq(i, t) and neq(v, u): parent = a
                elif neq(i, t) and dv and (neq(v, dv[0]) or neq(v, ('rd', ('cell', disc, t, 0)))): low = a
                elif neq(i, u) and is_add(v, ('rd', e.args[0])): cc = a
    if not c.need(low is not None, tag + ': low-link starts at the discovery number', d.where(), 'no low-link array set on discovery', inst): return
    if not c.need(parent is not None, tag + ': the tree parent is recorded', d.where(), 'no parent recorded on discovery', inst): return
    pf = fill_of(fn, parent)
    c.need(pf is not None and pf[0] == Q('num_vertices') and pf[1] in (Q('num_vertices'), C(-1)), tag + ': the tree parent is recorded', fn, 'parents do not start as none', inst)
    lf = fill_of(fn, low)
    c.need(lf is not None and lf[0] == Q('num_vertices'), tag + ': low-link starts at the discovery number', fn, 'low-links not sized for every vertex', inst)
    if not bic:
        if not c.need(cc is not None, tag + ': root rule', d.where(), 'tree children are not counted', inst): return
        mark_initial(c, tag + ': root rule', inst, fn, cc, 0)
    # 'parent edge already skipped' flag in the frame
    sk = None
    for p in body:
        if eq_pol(p, t, ('rd', ('cell', parent, u, 0))) is True:
            for e in p.items:
                if e.kind == 'write' and off(e.args[0]) not in (None, po, uo): sk = off(e.args[0])
    RP = tag + ': only the first edge back to the parent is the tree edge'
    if not c.need(sk is not None and sk in offs, RP, d.where(), 'frames do not remember that the parent edge was seen', inst): return
    Dv, Du, Lu = ('rd', ('cell', disc, t, 0)), ('rd', ('cell', disc, u, 0)), ('cell', low, u, 0)
    EST = [e.args[0] for b, e in all_events(fn) if is_push(e) and e.args[0] != O and e.args[0][0] == 'obj' and opm(e) in ('push', 'emplace', 'push_back', 'emplace_back') and d.L in ancestors(fn.loop_of.get(b)) and len(flds(e)) == 2]
    em = None
    if not bic:
        for b, e in all_events(fn):
            w = cell_write(e)
            if w and w[0] not in (disc, low, parent, cc) and w[2] in (C(1), C(-1)) and e.args[0][0] == 'cell': em = w[0]
        if not c.need(em is not None, tag + ': each cut vertex is output once', fn, 'no marks of vertices already output', inst): return
        mark_initial(c, tag + ': each cut vertex is output once', inst, fn, em, 0)
    else:
        if not c.need(len(set(EST)) == 1, tag + ': tree edges are stacked', d.where(), 'no edge stack', inst): return
        EST = EST[0]
        c.need(wl_discipline(fn, EST) == 'lifo', tag + ': tree edges are stacked', d.where(), 'edge stack is not last-in first-out', inst)
    arrs = [a for a in (disc, low, parent, cc, em) if a is not None]
    # ---- timer
    tm = None
    for pid, init, _ in header_phis(fn, d.L):
        ph = ('phi', pid)
        if all((is_add(p.end[2].get(pid, ph), ph) if und(p, t) is True else p.end[2].get(pid, ph) == ph) for p in body if p.end[0] == 'back') and any(und(p, t) is True for p in body): tm = ph; ti = init
    if not c.need(tm is not None, rule_roles, d.where(), 'no counter that advances exactly on discovery', inst): return

    for p in body:
        c.saw('paths')
        en = eq_pol(p, X, Q('edges_end', u))
        if en is None and no_edges(p, u) is True: en = True
        pops = [e for e in p.items if is_pop(e, O)]; ps = [e for e in p.items if is_push(e, O)]
        wp = [e for e in p.items if e.kind == 'write' and off(e.args[0]) is not None]
        aw = [e for a in arrs for e in arr_writes(p, a)]
        outs = calls(p, 'v_out') + [e for e in p.items if is_push(e, A(1))]
        if not c.need(en is not None, RE, p, 'edge taken without the end test: [%s]' % path_str(p), inst): continue
        if en:
            finish(c, inst, tag, fn, p, O, u, pops, ps, aw, outs, bic, dict(disc=disc, low=low, parent=parent, pf=pf[1] if pf else None, em=em, est=EST, s=s, cc=cc))
            continue
        # ---- an edge (u,t)
        adv = [e for e in wp if off(e.args[0]) == po]
        c.need(len(adv) == 1 and is_add(adv[0].args[1], pos) and not pops, RE, p, 'edge not consumed exactly once: [%s]' % path_str(p), inst)
        c.need(not outs, tag + ': reported only when a subtree is finished', p, 'output while following an edge', inst)
        slf = eq_pol(p, t, u); un = und(p, t)
        ep = [e for e in p.items if bic and is_push(e, EST)]
        skw = [e for e in wp if off(e.args[0]) == sk]
        c.need(all(off(e.args[0]) in (po, sk) for e in wp), RE, p, 'vertex of the frame overwritten', inst)
        if slf is True:
            bad = [e for e in aw if not (e.args[0][1] == low and neq(e.args[0][2], u))]
            c.need(not bad and not ps and not ep and not skw, tag + ': self-loops are ignored', p, 'self-loop has an effect: [%s]' % path_str(p), inst); continue
        if not c.need(un is not None, tag + ': an edge is a tree edge exactly when its target is undiscovered', p, 'edge handled without testing whether the target is discovered: [%s]' % path_str(p), inst): continue
        if un:
            R = tag + ': an edge is a tree edge exactly when its target is undiscovered'
            f = flds(ps[0]) if len(ps) == 1 else {}
            startpos = C(0) if not stored_it else Q('edges_begin', t)
            c.need(len(ps) == 1 and neq(f.get(uo, ('undef',)), t) and neq(f.get(po, ('undef',)), startpos) and f.get(sk) == C(0), R, p, 'undiscovered target is not entered with a fresh frame: [%s]' % path_str(p), inst)
            w = {a: arr_writes(p, a) for a in arrs}
            d1 = w[disc]; val = d1[0].args[1] if d1 else None
            c.need(len(d1) == 1 and neq(d1[0].args[0], ('cell', disc, t, 0)) and (val == tm or is_add(val, tm)), rule_roles, p, 'discovery number of the target is not the counter', inst)
            c.need(len(w[low]) == 1 and neq(w[low][0].args[0], ('cell', low, t, 0)) and (neq(w[low][0].args[1], val) or neq(w[low][0].args[1], Dv)), tag + ': low-link starts at the discovery number', p, 'low-link of the target: %s' % w[low], inst)
            c.need(len(w[parent]) == 1 and neq(w[parent][0].args[0], ('cell', parent, t, 0)) and neq(w[parent][0].args[1], u), tag + ': the tree parent is recorded', p, 'parent writes %s' % w[parent], inst)
            c.need(not skw, RP, p, 'parent flag changed by a tree edge', inst)
            if not bic:
                c.need(len(w[cc]) == 1 and neq(w[cc][0].args[0], ('cell', cc, u, 0)) and is_add(w[cc][0].args[1], ('rd', ('cell', cc, u, 0))), tag + ': root rule', p, 'tree child not counted', inst)
                c.need(not w[em], tag + ': each cut vertex is output once', p, 'mark changed', inst)
            else:
                g = list(flds(ep[0]).values()) if len(ep) == 1 else []
                c.need(len(g) == 2 and neq(g[0], u) and neq(g[1], t), tag + ': tree edges are stacked', p, 'edge pushes %s' % ep, inst)
            continue
        c.need(not ps, tag + ': each vertex is entered once', p, 'discovered vertex entered again: [%s]' % path_str(p), inst)
        par = eq_pol(p, t, ('rd', ('cell', parent, u, 0))); skp = truth(p, fld(sk))
        rest = [e for e in aw if not (e.args[0][1] == low)]
        c.need(not rest, rule_roles, p, 'edge to a discovered vertex changes %s' % rest, inst)
        lw = arr_writes(p, low)
        c.need(all(neq(e.args[0], Lu) for e in lw), tag + ': low-link follows back edges', p, 'low-link of another vertex changed', inst)
        anc = lt_pol(p, Dv, Du)
        if anc is None:
            g = lt_pol(p, Du, Dv); anc = None if g is None else not g
        if par is True and skp is False:
            c.need(not lw and len(skw) == 1 and skw[0].args[1] in (C(1), C(-1)), RP, p, 'first edge back to the parent is not just remembered: [%s]' % path_str(p), inst)
        elif par is False or skp is True:
            c.need(all(e.args[1] in (C(1), C(-1)) and skp is True for e in skw), RP, p, 'parent flag set by another edge', inst)
            c.need(min_update(p, Lu, Dv, anc is False), tag + ': low-link follows back edges', p, 'low-link is not lowered to the discovery number of the target: [%s]' % path_str(p), inst)
        else: c.bad(RP, p, 'back edge handled without the parent test: [%s]' % path_str(p), inst)
        for e in ep:
            g = list(flds(e).values())
            c.need(len(g) == 2 and neq(g[0], u) and neq(g[1], t), tag + ': tree edges are stacked', p, 'stacked edge is %s' % e, inst)
            c.need(anc is True or par is True, tag + ': edges to finished descendants are not stacked', p, 'edge stacked without establishing that its target is an ancestor: [%s]' % path_str(p), inst)
    no_stale_peek(c, inst, fn, [d.L] + d.L.children)
    # ---- per start vertex
    for p in it.body:
        c.saw('paths')
        un = und(p, s); lp = [e for e in inner_loops(p) if e.loop is d.L]; aw = [e for a in arrs for e in arr_writes(p, a)]
        ps = [e for e in p.items if is_push(e, O)]; outs = calls(p, 'v_out'); cp = [e for e in p.items if is_push(e, A(1))]
        if not c.need(un is not None, RS, p, 'vertex not tested', inst): continue
        if not un:
            c.need(not lp and not aw and not ps and not outs and not cp, RS, p, 'discovered vertex searched again', inst); continue
        iso = no_edges(p, s)
        if not lp:
            ok = iso is True and not outs
            wd = arr_writes(p, disc)
            if bic: ok = ok and len(cp) == 1 and single(fn, p, cp[0], s)
            c.need(ok, RS, p, 'no search from an undiscovered vertex, or isolated vertex not reported: [%s]' % path_str(p), inst)
            continue
        f = flds(ps[0]) if len(ps) == 1 else {}
        c.need(len(lp) == 1 and len(ps) == 1 and neq(f.get(uo, ('undef',)), s) and neq(f.get(po, ('undef',)), C(0) if not stored_it else Q('edges_begin', s)) and f.get(sk) == C(0), RS, p, 'search not started with a fresh frame of the vertex: [%s]' % path_str(p), inst)
        ordered(c, RS, inst, p, ps, lp, 'frame pushed after the search')
        wd = [e for e in arr_writes(p, disc)]; wl = [e for e in arr_writes(p, low)]
        val = wd[0].args[1] if wd else None
        okd = len(wd) == 1 and neq(wd[0].args[0], ('cell', disc, s, 0)) and before(p, wd[0], lp[0])
        c.need(okd, rule_roles, p, 'start vertex gets no discovery number', inst)
        c.need(len(wl) == 1 and neq(wl[0].args[0], ('cell', low, s, 0)) and val is not None and (neq(wl[0].args[1], val) or neq(wl[0].args[1], ('rd', ('cell', disc, s, 0)))) and before(p, wl[0], lp[0]), tag + ': low-link starts at the discovery number', p, 'low-link of the start vertex', inst)
        ini = [env_subst(x, p) for x in ti]
        c.need(val is not None and len(ini) == 1 and val[0] in ('phi', 'op') and (is_add(ini[0], val) or neq(ini[0], val) and is_plus(val)), rule_roles, p, 'counter not advanced past the start vertex (%s, then %s)' % (pp(val) if val else '?', pp(ini[0]) if ini else '?'), inst)
        c.need(not arr_writes(p, parent) , tag + ': the tree parent is recorded', p, 'start vertex gets a parent', inst)
        if not bic:
            k = ('rd', ('cell', cc, s, 0)); two = lt_pol(p, k, C(2)); two = None if two is None else not two
            if two is None: two = lt_pol(p, C(1), k)
            e_ = truth(p, ('cell', em, s, 0))
            R = tag + ': root rule'
            n = 1 if two and e_ is not True else 0
            c.need(two is not None and len(outs) == n and all(neq(e.args[0], s) for e in outs), R, p, 'root reported %d times where it has two children: %s [%s]' % (len(outs), two, path_str(p)), inst)
            ordered(c, R, inst, p, lp, outs, 'reported before the search')
            c.need(not arr_writes(p, cc), R, p, 'children counted outside the search', inst)
            for e in p.conds():
                if two is not None and contains(e.args[0], k): c.need(before(p, lp[0], e), R, e, 'children tested before the search', inst)
        else:
            R = tag + ': a vertex alone in its search is its own component'
            al = None
            for e in p.conds():
                q = e.args[0]
                if q[0] == 'cmp' and q[1] == 'eq' and before(p, lp[0], e):
                    forms = [('cmp', 'eq', a, b) for x in (('op', 'add', C(1), ('rd', ('cell', disc, s, 0))), ('op', 'add', C(1), val)) for a, b in ((x, tm), (tm, x))] if val else []
                    if norm(q) in [norm(f_) for f_ in forms]: al = e.pol
                elif q[0] == 'cmp' and q[1] == 'lt' and val and before(p, lp[0], e):      # the counter never falls below
                    if neq(q[3], tm) and any(neq(q[2], ('op', 'add', C(1), x)) for x in (('rd', ('cell', disc, s, 0)), val)): al = not e.pol
                    if neq(q[2], tm) and any(neq(q[3], ('op', 'add', C(2), x)) for x in (('rd', ('cell', disc, s, 0)), val)): al = e.pol
            c.need(al is not None and len(cp) == (1 if al else 0) and all(single(fn, p, e, s) for e in cp), R, p, '%d component(s) where the vertex is alone: %s [%s]' % (len(cp), al, path_str(p)), inst)
            ordered(c, R, inst, p, lp, cp, 'reported before the search')
    # timer across starts
    to = None
    for pid, init, _ in header_phis(fn, L):
        if init == [C(0)] and ('phi', pid) != s:
            ph = ('phi', pid); ok = True
            for p in it.body:
                lp = [e for e in inner_loops(p) if e.loop is d.L]; nv = p.end[2].get(pid, ph)
                if lp: ok = ok and nv == tm
                else: ok = ok and (nv == ph or is_add(nv, ph))
            if ok: to = ph
    c.need(to is not None, rule_roles, it.where(), 'counter does not continue from one search to the next', inst)
    if to:
        for p in it.body:
            for e in arr_writes(p, disc):
                nv = p.end[2].get(to[1], to)
                lp = inner_loops(p)
                c.need(e.args[1] == to or is_add(e.args[1], to), rule_roles, e, 'start vertex is not numbered by the counter', inst)
    confined(c, rule_roles, inst, fn, lambda e: e.kind == 'write' and base_of(e.args[0]) in arrs, {L, d.L}, 'state written')
    for p in lpaths(fn):
        if p.end[0] != 'ret': continue
        n = [e for e in inner_loops(p) if e.loop is L]
        if not n: c.need(eq_pol(p, C(0), Q('num_vertices')) is True and not calls(p, 'v_out') and not [e for e in p.items if is_push(e, A(1))], RS, p, 'returns without searching', inst)


def is_plus(v): return v[0] == 'op' and v[1] == 'add' and C(1) in v[2:]


def versioned_expr(fn, e, O):
    return rewrite(e, lambda x: ('F', 0) if x[0] == 'peek' and x[1] == O else x)


def single(fn, p, e, s):
    """pushed component consists of exactly the vertex s"""
    a = e.args[1:]
    if len(a) == 1 and a[0][0] in ('obj', 'fld'):
        for x in p.items:
            if x.kind == 'op' and x.args and x.args[0] == a[0] and opm(x) == 'vector':
                y = [z for z in x.args[1:] if z[0] != 'undef']
                return any(neq(z, s) for z in y) and all(neq(z, s) or z == C(1) for z in y)
        return False
    return len(a) == 2 and a[0] == C(1) and neq(a[1], s)


def finish(c, inst, tag, fn, p, O, u, pops, ps, aw, outs, bic, r):
    """the frame of u is exhausted"""
    R0 = tag + ': a finished vertex returns to its parent'
    c.need(len(pops) == 1 and not ps, R0, p, 'finished frame not popped exactly once: [%s]' % path_str(p), inst)
    if len(pops) != 1: return
    st = None
    for e in p.items:
        if e.kind == 'cond' and before(p, pops[0], e):
            t = empty_test(e.args[0])
            if t and t[0] == O: st = (e.pol == t[1])
    sub = lambda x: rewrite(x, lambda y: ('F', 1) if y == ('F', 0) else y)
    v = u; w = sub(u)       # v: finished vertex, w: its parent
    lv, dw, lw = ('rd', ('cell', r['low'], v, 0)), ('rd', ('cell', r['disc'], w, 0)), ('cell', r['low'], w, 0)
    loops = [e for e in inner_loops(p) if any(is_pop(x) for q in lpaths(fn, e.loop) for x in q.items)]
    if not c.need(st is not None, R0, p, 'parent taken without testing whether there is one: [%s]' % path_str(p), inst): return
    if st:
        c.need(not aw and not outs and not loops, R0, p, 'effects at the root: [%s]' % path_str(p), inst); return
    own = [e for e in aw if e.args[0][1] != r['em']]
    c.need(all(neq(e.args[0], lw) for e in own) and min_update(p, lw, lv), tag + ': low-link is passed to the parent', p, 'low-link of the parent is not lowered to that of the finished child: [%s]' % path_str(p), inst)
    cut = lt_pol(p, lv, dw); cut = None if cut is None else not cut
    if cut is None:
        g = lt_pol(p, dw, lv); q = eq_pol(p, dw, lv)
        if g is True or q is True: cut = True
        elif g is False and q is False: cut = False
    if not bic:
        RC = tag + ': non-root rule'
        rt = None
        for x, y in ((r['pf'], ('rd', ('cell', r['parent'], w, 0))), (r['s'], w)):
            if x is None: continue
            z = eq_pol(p, x, y)
            if z is not None: rt = z
        e_ = truth(p, ('cell', r['em'], w, 0)); ew = arr_writes(p, r['em'])
        if outs:
            c.need(len(outs) == 1 and neq(outs[0].args[0], w) and rt is False and cut is True, RC, p, 'output without establishing that the parent separates the child, or of another vertex: [%s]' % path_str(p), inst)
            c.need(e_ is False and len(ew) == 1 and neq(ew[0].args[0], ('cell', r['em'], w, 0)), tag + ': each cut vertex is output once', p, 'output without test and mark: [%s]' % path_str(p), inst)
        else:
            c.need(rt is True or cut is False or e_ is True, RC, p, 'cut vertex not output: [%s]' % path_str(p), inst)
            c.need(all(e_ is True for e in ew), tag + ': each cut vertex is output once', p, 'marked as output without output', inst)
        return
    RC = tag + ': a component is complete when the subtree cannot reach above the parent'
    c.need(not aw or all(neq(e.args[0], lw) for e in aw), RC, p, 'other state changed', inst)
    if not c.need(cut is not None, RC, p, 'no test of the low-link: [%s]' % path_str(p), inst): return
    c.need(len(loops) == (1 if cut else 0) and len(outs) == (1 if cut else 0), RC, p, 'component emitted %d times, complete: %s' % (len(outs), cut), inst)
    if not cut or len(loops) != 1 or len(outs) != 1: return
    F = loops[0].loop; E = r['est']; R = tag + ': a component is popped down to and including its tree edge'
    S = None
    v1, w1 = v, w
    for q0 in rotated(fn, F):
        c.saw('paths')
        if q0.end[0] == 'unreach': continue
        pp_ = [e for e in q0.items if is_pop(e, E)]
        one(c, R, inst, q0, pp_, 'pop')
        ends = set()
        tops = set()
        for e in q0.items:
            if e.kind == 'op' and opm(e) in ('insert', 'emplace', 'push_back', 'emplace_back') and e.args[0][0] == 'obj' and e.args[0] != E:
                S = e.args[0]; ends.add(norm(e.args[-1]))
        offs_ = sorted({l[1] for b, e in all_events(fn) if is_push(e, E) for l in (e.inst.leaf or [])[1:]})
        if not c.need(len(offs_) == 2, R, q0, 'edge stack entries are not pairs', inst): continue
        f = [('rd', ('fld', ('peek', E, 'peek'), o) if o else ('peek', E, 'peek')) for o in offs_]
        c.need(ends == {norm(x) for x in f}, R, q0, 'not both endpoints are collected: %s' % ends, inst)
        # comparison with the tree edge (w, v); frame references are outside this loop, so compare by the raw reference
        def is_edge_test(i, want):
            for e in q0.items:
                if e.kind == 'cond' and e.args[0][0] == 'cmp' and e.args[0][1] == 'eq':
                    for a, b in (e.args[0][2:], e.args[0][3:1:-1]):
                        if norm(a) == norm(f[i]) and b in want: return e.pol
            return None
        V1 = raw_forms(fn, p, O, v); W1 = raw_forms(fn, p, O, w)
        a, b = is_edge_test(0, W1), is_edge_test(1, V1)
        if q0.end[0] == 'back': c.need(a is False or b is False, R, q0, 'goes on past the tree edge of the component: [%s]' % path_str(q0), inst)
        else: c.need(a is True and b is True, R, q0, 'stops before the tree edge of the component: [%s]' % path_str(q0), inst)
    # contents
    RV = tag + ': a component is the set of vertices of its edges'
    o = outs[0]; src = o.args[1:]
    if len(src) == 1 and src[0][0] == 'obj':
        if src[0] == S: ok = True
        else:
            ct = [x for x in p.items if x.kind == 'op' and x.args and x.args[0] == src[0] and opm(x) in ('vector', 'assign')]
            ok = len(ct) == 1 and any(y == ('begin', S) or (y[0] == 'ret' and last(y[2]) in ('begin', 'cbegin') and y[3] == S) for a in ct[0].args[1:] for y in walk(a)) and any(y == ('end', S) or (y[0] == 'ret' and last(y[2]) in ('end', 'cend') and y[3] == S) for a in ct[0].args[1:] for y in walk(a))
    else:
        ok = len(src) == 2 and all(any(y in (('begin', S), ('end', S)) or (y[0] == 'ret' and last(y[2]) in ('begin', 'end', 'cbegin', 'cend') and y[3] == S) for y in walk(a)) for a in src)
    c.need(ok and S is not None, RV, o, 'component built from %s' % [pp(x) for x in src], inst)
    kinds = {e.name.split('::')[0] for b, e in all_events(fn) if e.kind == 'op' and e.args and e.args[0] == S}
    c.need(S is None or 'set' in kinds or 'unordered_set' in kinds, RV, o, 'vertices collected in a container that keeps duplicates', inst)
    if S is not None:
        rs = [x for x in p.items if x.kind == 'op' and x.args and x.args[0] == S and opm(x) in ('set', 'unordered_set', 'clear')]
        c.need(len(rs) >= 1 and before(p, rs[0], loops[0]), RV, p, 'vertices of an earlier component are kept', inst)
        ordered(c, RV, inst, p, loops, outs, 'component emitted before it is collected')


def raw_forms(fn, p, O, x):
    """original expressions (before versioning) that stand for x on the unversioned path"""
    r = set()
    ver = {}; n = 0
    for e in p.items:
        if e.inst is not None and e.inst.id not in ver: ver[e.inst.id] = n
        if is_push(e, O) or is_pop(e, O): n += 1
    class _S:
        def __contains__(s, y):
            return norm(rewrite(y, lambda z: ('F', ver.get(z[3], 0)) if z[0] == 'peek' and z[1] == O else z)) == norm(x)
    return _S()


def articulation(c, m): lowlink(c, m, 'artic', 'articulation_points', False)
def biconnected(c, m): lowlink(c, m, 'bicon', 'biconnected_components', True)

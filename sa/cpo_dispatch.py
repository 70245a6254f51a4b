"""Graphs that bring their own version of an operation: which version the generic operation uses."""
from cont_dyn import *
from cpo_lookup import chosen

RULE = 'the customisation of the graph is used: member first, then free function'


def dispatch(c, m):
    for name, fn in sorted(m.fns.items()):
        if not name.startswith('drv_entry_'): continue
        e = name[10:]; tier, _, n = e.partition('_')
        if tier == 'raw': raw(c, fn, n); continue
        t = tier[-1]; n = n.removesuffix('_alias')
        want = 'v_%s_%s' % (t, n); stem = want[:-2] if n.endswith(('_b', '_e')) else want
        args = tuple(A(i) for i in range(fn.nargs)); c.saw('functions')
        k = 0
        for p in lpaths(fn):
            if p.end[0] in ('unreach', 'throw') or Facts(p).absurd(): continue
            c.saw('paths'); mine = 0
            for x in p.items:
                if x.kind == 'call':
                    ok = x.name == want or stem != want and x.name in (stem + '_b', stem + '_e')
                    mine += x.name == want
                    c.need(ok, RULE, x, 'the operation calls %s instead of the %s of the graph' % (x.name, 'member' if t == 'm' else 'free function'), e)
                    c.need(tuple(x.args) == args, 'the customisation gets the arguments of the call', x, 'called with (%s)' % ', '.join(pp(a)[:60] for a in x.args), e)
                elif x.kind == 'ret':
                    k += 1; r = x.args[0]
                    c.need(r[0] == 'ret' and r[2] == want and tuple(r[3:]) == args, 'the result of the customisation is the result of the operation', x, 'returns %s' % pp(r)[:120], e)
                    c.need(mine == 1, 'the customisation is called once', x, 'called %d times' % mine, e)
                elif effect(x):
                    c.bad('a customised operation does nothing else', wh(x), 'the operation has another effect', e)
        c.need(k > 0, RULE, fn, 'the operation never returns', e)


def raw(c, fn, n):
    what, _, n = n.partition('_'); R = ('ret', 0, 'v_a_raw', A(0), A(1)); c.saw('functions'); k = 0
    rule = 'a customised range of plain elements is the edges of the vertex asked for'
    for p in lpaths(fn):
        if p.end[0] in ('unreach', 'throw') or Facts(p).absurd(): continue
        for x in p.items:
            if x.kind == 'call': c.need(x.name == 'v_a_raw' and tuple(key(a) for a in x.args) == (A(0), A(1)), rule, x, 'calls %s(%s)' % (x.name, ', '.join(pp(a)[:60] for a in x.args)), n)
            if x.kind != 'ret': continue
            k += 1; v = chosen(x.args[0], p); c.saw('paths')
            ok = {'b': v == C(0), 'e': v[0] == 'ret' and last(v[2]) == 'size' and v[3:] == (R,), 's': key(v) == A(1)}[what]
            c.need(ok, rule, x, '%s is %s' % ({'b': 'the first edge', 'e': 'the end of the edges', 's': 'the source'}[what], pp(v)[:120]), n)
    c.need(k > 0, rule, fn, 'the operation never returns', n)

"""V08: what happens to a value function that is handed over by name, or is held by an adaptor object: every copy and move of
the function object is a visible call, and the paths of each construction are followed from the caller's object to the view."""
from lib import *


def own_copy(c, m):
    for n in sorted(m.fns):
        if not n.startswith('drv_entry_'): continue
        inst = n[len('drv_entry_'):]; fn = m.fns[n]; c.saw('functions')
        given = ('a', {'n': 2, 'm': 1, 'k': 1, 'c': 1}[inst[0]])
        good = 0; last = None
        for p in lpaths(fn):
            c.saw('paths')
            live = {}; gone = {}
            for e in p.items:
                if e.kind == 'call' and e.name in ('v_fncopy', 'v_fnmove'):
                    c.saw('copies and moves of a value function'); to, fr = (key(x) for x in e.args[:2]); b = base_of(fr)
                    if b[0] == 'a':
                        c.need(b == given, 'the value function of the view is the one given', e, 'a value function is taken from %s' % pp(fr), inst)
                        c.need(e.name == 'v_fncopy', 'the value function of the caller is copied, not moved', e, 'the value function that stays with the caller is moved from', inst)
                        got = True
                    else:
                        c.need(fr not in gone, 'a value function that was moved on is not used again', e, 'copied or moved from an object that was already moved on', inst)
                        got = live.get(fr, False)
                    c.need(base_of(to)[0] != 'a', 'the value function of the caller is copied, not moved', e, 'the object of the caller is overwritten', inst)
                    live[to] = got; gone.pop(to, None)
                    if e.name == 'v_fnmove' and b[0] != 'a': gone[fr] = live.pop(fr, None)
                elif e.kind == 'write' and base_of(e.args[0])[0] == 'a':
                    c.bad('the value function of the caller is copied, not moved', e, 'the construction changes an object of the caller', inst)
                elif e.kind == 'call' and e.name == 'v_view':
                    root = base_of(key(e.args[0]))
                    inside = [x for x, g in live.items() if g and within(x, root, p)]
                    last = e
                    good += bool(inside)
                    if '_safe' not in inst: c.need(bool(inside), 'the view holds a copy of the value function', e, 'no intact copy of the given value function ends up in the view', inst)
        c.need(good > 0, 'the view holds a copy of the value function', last or fn, 'no view with an intact copy of the given value function is ever made', inst)


def within(x, root, p): return base_of(x) == root

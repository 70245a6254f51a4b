"""A small prover for  a >= b  from the comparisons on a path (congruence, selections, +constant, transitivity)."""
from lib import *


def lits(p):
    """comparisons of the path as (op, a, b, polarity)"""
    return [(e.args[0][1], e.args[0][2], e.args[0][3], e.pol) for e in p.items if e.kind == 'cond' and e.args[0][0] == 'cmp']


def off(e):
    """e = base + constant"""
    if e[0] == 'op' and e[1] == 'add' and len(e) == 4:
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x[0] == 'c':
                b, k = off(y); return b, k + x[1]
    if e[0] == 'c': return ('c', 0), e[1]
    if e[0] == 'rd' and e[1][0] == 'sel' and len(e[1]) == 4:      # reading through a selected reference selects a value
        return ('sel', e[1][1], ('rd', e[1][2]) + e[2:], ('rd', e[1][3]) + e[2:]), 0
    return e, 0


class Facts:
    """facts: list of (a, b, k) meaning a >= b + k"""

    def __init__(s, p=None, extra=(), norm=None):
        s.f = []; s.norm = norm or (lambda e: e); s.lev = 0
        for a, b, k in extra: s.add(a, b, k)
        if p is not None:
            for op, a, b, pol in lits(p): s.lit(op, a, b, pol)

    def add(s, a, b, k=0):
        a, i = off(s.norm(a)); b, j = off(s.norm(b))
        s.f.append((a, b, k + j - i))

    def lit(s, op, a, b, pol):
        if op == 'lt':
            if pol: s.add(b, a, 1)
            else: s.add(a, b, 0)
        elif op == 'eq' and pol: s.add(a, b); s.add(b, a)
        elif op == 'eq' and not pol: s.ne(a, b)

    def ne(s, a, b):
        # x != 0 for an unsigned x: x >= 1;  a != b with a >= b: a >= b+1
        for x, y in ((a, b), (b, a)):
            if y == C(0): s.add(x, C(0), 1)
            elif s.lev < 2 and s.ge(x, y, 0, 4): s.add(x, y, 1)      # not for ever when x or y depends on a comparison itself

    def with_(s, c, pol):
        r = Facts(norm=s.norm); r.f = list(s.f); r.lev = s.lev + 1
        while c[0] == 'not': c = c[1]; pol = not pol
        if c[0] == 'cmp': r.lit(c[1], c[2], c[3], pol)
        return r

    def ge(s, v, x, k=0, depth=7, seen=()):
        """v >= x + k ?"""
        v, i = off(s.norm(v)); x, j = off(s.norm(x)); k = k + j - i
        return s._ge(v, x, k, depth, seen)

    def _ge(s, v, x, k, depth, seen):
        if v == x and k <= 0: return True
        if x == ('c', 0) and k <= 0: return True          # sizes and ids are unsigned
        if any(a == v and b == x and n >= k for a, b, n in s.f): return True
        if depth == 0 or (v, x, k) in seen: return False
        seen = seen + ((v, x, k),)
        for a, b, n in s.f:
            if a == v:
                if b != v and s.ge(b, x, k - n, depth - 1, seen): return True
        for e, mk in ((v, lambda t: (t, x)), (x, lambda t: (v, t))):
            if e[0] == 'sel' and len(e) == 4 and all(s.with_(e[1], pol).ge(*(mk(t) + (k, depth - 1, seen))) for t, pol in ((e[2], True), (e[3], False))): return True
        return False

    def absurd(s):
        """the comparisons contradict each other: no run takes this path"""
        return s.ge(('c', 0), ('c', 0), 1) or any(s._ge(b, a, 1 - n, 4, ()) for a, b, n in s.f)

    def lt(s, a, b):
        """a < b: True / False / None"""
        if s.ge(b, a, 1): return True
        if s.ge(a, b): return False
        return None


def leaves(e, k=0):
    """the values (base, constant) an expression can take through its selections"""
    b, n = off(e)
    if b[0] == 'sel' and len(b) == 4:
        yield from leaves(b[2], k + n); yield from leaves(b[3], k + n)
    else: yield b, k + n

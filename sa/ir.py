"""Reduced-IR model: control-flow graph, dominators, loops, region paths, canonical expressions.

Input is the JSON written by tools/irx.  Nothing here executes the library: all facts are read off the
(inlined, SSA) control-flow graph that clang produced from /repo's current headers.
"""
import json, re, sys
from functools import lru_cache

sys.setrecursionlimit(20000)

NOISE_CLASSES = {'basic_string', 'basic_ostringstream', 'basic_ostream'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fpext', 'sitofp', 'uitofp', 'addrspacecast'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'callee', 'anchor', 'pred', 'off', 'var', 'idx', 'succ', 'loc', 'blk', 'aty', 'sty', 'fp', 'cases', 'default', 'fn', 'leaf')

    def __init__(s, d, blk, fn):
        s.id = d['id']; s.op = d['op']; s.ty = d['ty']; s.blk = blk; s.fn = fn
        s.ops = [tuple(o) if not isinstance(o[0], int) else (o[0], tuple(o[1])) for o in d['ops']]
        s.callee = d.get('callee'); s.anchor = d.get('anchor', False); s.pred = d.get('pred')
        s.off = d.get('off'); s.var = [(tuple(v), k) for v, k in d.get('var', [])]
        s.idx = d.get('idx'); s.succ = d.get('succ', []); s.loc = d.get('loc'); s.aty = d.get('aty'); s.sty = d.get('sty')
        s.fp = tuple(d['fp']) if 'fp' in d else None
        s.leaf = d.get('leaf'); s.cases = d.get('cases'); s.default = d.get('default')

    def where(s):
        """innermost source position inside /repo/include (file:line) plus inline chain"""
        if not s.loc:
            return '?'
        for f, l, fn in s.loc:
            if '/repo/include' in f or f.startswith('/repo') or 'graph/' in f:
                return '%s:%d' % (f, l)
        f, l, fn = s.loc[0]
        return '%s:%d' % (f, l)

    def __repr__(s):
        return '<%d:%s %s>' % (s.id, s.op, s.callee or '')


class Loop:
    def __init__(s, header):
        s.header = header; s.blocks = {header}; s.latches = set(); s.parent = None; s.children = []
        s.exits = []

    def __repr__(s):
        return 'L%d' % s.header


class Fn:
    def __init__(s, d, mod):
        s.name = d['name']; s.dem = d['dem']; s.root = d['root']; s.nargs = d['nargs']; s.mod = mod
        s.blocks = []; s.stable = frozenset()
        s.inst = {}
        for bi, b in enumerate(d['blocks']):
            L = []
            for i in b:
                x = Inst(i, bi, s)
                L.append(x); s.inst[x.id] = x
            s.blocks.append(L)
        s.succs = []
        for b in s.blocks:
            t = b[-1]
            if t.op == 'br':
                r = list(t.succ)
            elif t.op == 'switch':
                r = [c[1] for c in t.cases] + [t.default]
            else:
                r = []
            s.succs.append(r)
        s.preds = [[] for _ in s.blocks]
        for i, r in enumerate(s.succs):
            for j in r:
                if i not in s.preds[j]:
                    s.preds[j].append(i)
        s.cache = {}
        s._dom(); s._loops()
        s.users = {}
        for x in s.inst.values():
            for o in s.operands(x):
                if o[0] == 'i':
                    s.users.setdefault(o[1], []).append(x)

    @staticmethod
    def operands(x):
        if x.op == 'phi':
            return [o for _, o in x.ops]
        r = list(x.ops)
        if x.fp: r.append(x.fp)
        return r

    def _dom(s):
        n = len(s.blocks)
        order = []; seen = set()
        st = [(0, iter(s.succs[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for j in it:
                if j not in seen:
                    seen.add(j); st.append((j, iter(s.succs[j]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]
        s.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in s.preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        s.idom = idom; s.rponum = num

    def dominates(s, a, b):
        if b not in s.idom: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = s.idom[b]

    def inst_dominates(s, x, y):
        if x.blk == y.blk: return x.id < y.id
        return s.dominates(x.blk, y.blk)

    def _loops(s):
        by = {}
        for b in s.rpo:
            for t in s.succs[b]:
                if s.dominates(t, b):
                    L = by.setdefault(t, Loop(t))
                    L.latches.add(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.blocks: continue
                        L.blocks.add(x)
                        st += [p for p in s.preds[x] if p in s.idom]
        s.loops = sorted(by.values(), key=lambda l: len(l.blocks))
        for i, L in enumerate(s.loops):
            for M in s.loops[i + 1:]:
                if L.header in M.blocks and L is not M:
                    L.parent = M; M.children.append(L); break
        for L in s.loops:
            L.exits = [(b, t) for b in L.blocks for t in s.succs[b] if t not in L.blocks]
        s.loop_by_header = by
        s.loop_of = {}
        for b in range(len(s.blocks)):
            for L in s.loops:
                if b in L.blocks:
                    s.loop_of[b] = L; break
        s.top_loops = [L for L in s.loops if L.parent is None]

    def loop_depth_chain(s, b):
        L = s.loop_of.get(b); r = []
        while L: r.append(L); L = L.parent
        return r


def short_anchor(base):
    """std::vector::operator[] -> ('vector','operator[]') ; std::sort -> ('', 'sort')"""
    b = base
    for p in ('std::__cxx11::', 'std::ranges::', 'std::', '__gnu_cxx::'):
        if b.startswith(p):
            b = b[len(p):]; break
    if '::' in b:
        c, m = b.rsplit('::', 1)
        return c, m
    return '', b


class Module:
    keep_delete = False
    path_cap = 6000  # deallocations as events
    def __init__(s, path):
        d = json.load(open(path))
        s.anchors = d['anchors']; s.externs = d['externs']
        s.fns = {}
        for f in d['functions']:
            s.fns[f['name']] = Fn(f, s)

    def entry(s, n):
        return s.fns['drv_entry_' + n]

    def entries(s):
        return [f for n, f in s.fns.items() if n.startswith('drv_entry_')]

    def anchor_name(s, callee):
        a = s.anchors.get(callee)
        return short_anchor(a['base']) if a else ('', callee)


# -------------------------------------------------------------------------------------------
# canonical expressions.  A value is a nested tuple:
#  ('c',n) const  ('a',i) argument  ('phi',id) loop/join phi  ('q',name,args..) pure graph query
#  ('cell',obj,idx,off) address of a container element   ('rd',addr,instid) value loaded from addr
#  ('op',name,args..)  ('obj',id) alloca  ('new',id)  ('ret',id,name,args..) result of an anchor/extern call
# -------------------------------------------------------------------------------------------
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle',
       'olt': 'uge', 'oge': 'ult', 'ole': 'ugt', 'ogt': 'ule', 'oeq': 'une', 'une': 'oeq', 'one': 'ueq', 'ueq': 'one'}


def fold_cmp(p, a, b):
    f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}
    if p in f: return f[p]()
    M = (1 << 64) - 1
    ua, ub = a & M, b & M
    f = {'ult': lambda: ua < ub, 'ule': lambda: ua <= ub, 'ugt': lambda: ua > ub, 'uge': lambda: ua >= ub}
    return f[p]() if p in f else None


class Eval:
    """canonical expressions of SSA values under a path environment (phi -> chosen operand expression)"""

    def __init__(s, fn, env=None):
        s.fn = fn; s.env = env or {}; s.memo = {}

    def v(s, o):
        k = o[0]
        if k == 'i':
            return s.i(o[1])
        if k == 'c': return ('c', int(o[1]))
        if k == 'f':
            f = float(o[1])
            return ('c', int(f) if f.is_integer() and abs(f) < 2 ** 53 else f)
        if k == 'n': return ('c', 0)
        if k == 'u': return ('undef',)
        if k == 'ag': return ('agg', tuple((n, s.v(q)) for n, q in enumerate(o[1])))
        return tuple(o)

    def i(s, iid):
        if iid in s.env: return s.env[iid]
        r = s.memo.get(iid)
        if r is None:
            s.memo[iid] = ('cyc', iid)
            r = s._i(s.fn.inst[iid])
            s.memo[iid] = r
        return r

    def _fits(s, o, bits, depth=0):
        """the operand is known to have at most `bits` significant bits"""
        if o[0] != 'i': return o[0] in ('c', 'n', 'u')
        d = s.fn.inst.get(o[1])
        if d is None or depth > 6: return False
        if d.ty and d.ty[0] == 'i' and d.ty[1:].isdigit() and int(d.ty[1:]) <= bits: return True
        if d.op in ('zext', 'sext'): return s._fits(d.ops[0], bits, depth + 1)
        if d.op in ('and', 'or', 'xor', 'select', 'freeze'): return all(s._fits(q, bits, depth + 1) for q in d.ops[-2:])
        return False

    def addr(s, o):
        """canonical address expression"""
        return s.v(o)

    def _gep(s, x):
        base = s.v(x.ops[0])
        off = x.off
        if off is None:
            return ('op', 'gep', base) + tuple(s.v(o) for o in x.ops[1:])
        var = [(s.v(v), k) for v, k in x.var]
        return mk_gep(base, off, var)

    def _i(s, x):
        op = x.op
        if op == 'phi': return s.v(x.ops[0][1]) if len(x.ops) == 1 else ('phi', x.id)
        if op in CASTS:
            a = s.v(x.ops[0])
            if op in ('uitofp', 'sitofp') and x.ty in ('float', 'half') and a[0] != 'c': return ('op', 'tofloat', a)
            if op == 'trunc' and a[0] == 'op' and a[1] == 'or':
                n = int(x.ty[1:])
                keep = [t for t in a[2:] if not (t[0] == 'op' and t[1] == 'shl' and t[3][0] == 'c' and t[3][1] >= n)]
                if len(keep) == 1: return keep[0]
            if op == 'trunc' and x.ty in ('i8', 'i16') and a[0] != 'c' and not s._fits(x.ops[0], int(x.ty[1:])):
                return ('op', 'narrow', ('c', int(x.ty[1:])), a)
            return a
        if op == 'alloca': return ('obj', x.id)
        if op == 'getelementptr': return s._gep(x)
        if op == 'icmp' or op == 'fcmp':
            return mk_cmp(x.pred, s.v(x.ops[0]), s.v(x.ops[1]))
        if op == 'xor' and x.ty == 'i1' and x.ops[1] == ('c', 1):
            return mk_not(s.v(x.ops[0]))
        if op == 'load':
            return ('rd', s.v(x.ops[0]), -1 if x.id in s.fn.stable else x.id)
        if op == 'extractvalue':
            a = s.v(x.ops[0])
            for ix in x.idx:
                if isinstance(a, tuple) and a[0] == 'agg':
                    a = dict(a[1]).get(ix, ('undef',))
                else:
                    a = ('xv', a, ix)
            return a
        if op == 'insertvalue':
            a = s.v(x.ops[0]); val = s.v(x.ops[1])
            d = dict(a[1]) if a[0] == 'agg' else ({} if a[0] == 'undef' else {'base': a})
            if len(x.idx) == 1:
                d[x.idx[0]] = val
                return ('agg', tuple(sorted(d.items(), key=lambda kv: str(kv[0]))))
            return ('op', 'insertvalue', a, val, tuple(x.idx))
        if op == 'select':
            c = s.v(x.ops[0])
            if c == ('c', 1): return s.v(x.ops[1])
            if c == ('c', 0): return s.v(x.ops[2])
            return ('sel', c, s.v(x.ops[1]), s.v(x.ops[2]))
        if op == 'call' or op == 'invoke':
            return s._call(x)
        a = [s.v(o) for o in x.ops]
        if op in ('add', 'sub') and all(t[0] == 'c' and isinstance(t[1], int) for t in a):
            return ('c', a[0][1] + a[1][1] if op == 'add' else a[0][1] - a[1][1])
        if op == 'sub' and a[1][0] == 'c' and isinstance(a[1][1], int):
            op = 'add'; a = [a[0], ('c', -a[1][1])]
        if op == 'add' and a[0][0] == 'op' and a[0][1] == 'add' and a[1][0] == 'c':
            inner = a[0][2:]
            cs = [t for t in inner if t[0] == 'c']
            if cs:
                rest = [t for t in inner if t[0] != 'c']
                n = cs[0][1] + a[1][1]
                if n == 0 and len(rest) == 1: return rest[0]
                a = rest + [('c', n)]
        if op == 'lshr' and a[1][0] == 'c' and a[0][0] == 'op' and a[0][1] == 'or':
            n = a[1][1]
            hi = [t for t in a[0][2:] if t[0] == 'op' and t[1] == 'shl' and t[3] == ('c', n)]
            if len(hi) == 1: return hi[0][2]
        if op in COMM:
            a = sorted(a, key=repr)
        return ('op', op) + tuple(a)

    def _call(s, x):
        nm = x.callee
        if nm is None:
            return ('ret', x.id, 'indirect') + tuple(s.v(o) for o in x.ops)
        if nm.startswith('llvm.expect'): return s.v(x.ops[0])
        if nm.startswith('llvm.is.constant'): return ('c', 0)
        if x.anchor:
            c, m = s.fn.mod.anchor_name(nm)
            a = [s.v(o) for o in x.ops]
            if m in ('operator[]', 'at') and c in ('vector', 'deque'):
                if x.ty == 'i1': return ('rd', ('cell', a[0], a[1], 0), x.id)   # const vector<bool>: the element itself
                return ('cell', a[0], a[1], 0)
            if m in ('operator[]', 'at') and c in ('map', 'unordered_map'):
                return ('cell', a[0], a[1], 0)
            if m in ('begin', 'cbegin', 'data') and c in ('vector', 'deque') and len(a) == 1:
                return ('begin', a[0])
            if m in ('end', 'cend') and c in ('vector', 'deque') and len(a) == 1:
                return ('end', a[0])
            if m in ('front', 'top') and c in ('vector', 'deque', 'queue', 'stack', 'priority_queue', 'list') or (m == 'back' and c in ('vector', 'deque', 'stack', 'queue', 'list')):
                return ('peek', a[0], m, x.id)
            return ('ret', x.id, c + '::' + m) + tuple(a)
        if nm.startswith('drv_q_'):
            return ('q', nm[9:] if nm.startswith('drv_q_fp_') else nm[6:]) + tuple(s.v(o) for o in x.ops)
        if nm.startswith('drv_'):
            return ('ret', x.id, nm[4:]) + tuple(s.v(o) for o in x.ops)
        if nm.startswith('llvm.'):
            b = re.sub(r'\.(i\d+|f\d+|p\d+)\b', '', nm)
            return ('op', b) + tuple(s.v(o) for o in x.ops)
        if nm in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
            return ('new', x.id)
        return ('ret', x.id, nm) + tuple(s.v(o) for o in x.ops)


def mk_gep(base, off, var):
    if base[0] == 'cell' and not var:
        return ('cell', base[1], base[2], base[3] + off) if off else base
    if base[0] == 'begin' and len(var) == 1:
        return ('cell', base[1], var[0][0], off) if True else None
    if base[0] == 'begin' and not var:
        return base if off == 0 else ('cell', base[1], ('c', 'off'), off)
    if base[0] == 'fld' and not var:
        return ('fld', base[1], base[2] + off) if base[2] + off else base[1]
    if not var:
        return base if off == 0 else ('fld', base, off)
    if len(var) == 1 and base[0] != 'fld':
        return ('el', base, var[0][0], var[0][1], off)
    return ('gep', base, off, tuple(var))


SWAPP = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle', 'ogt': 'olt', 'oge': 'ole'}
SYM = {'eq', 'ne', 'oeq', 'one', 'ueq', 'une'}


def mk_cmp(p, a, b):
    if p in ('eq', 'ne'):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'c' and y[0] == 'sel' and y[2][0] == 'c' and y[3][0] == 'c' and isinstance(x[1], int):
                t, f = y[2][1] == x[1], y[3][1] == x[1]
                r = ('c', int(t)) if t == f else y[1] if t else mk_not(y[1])
                return r if p == 'eq' else mk_not(r)
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
        r = fold_cmp(p, a[1], b[1])
        if r is not None: return ('c', int(r))
    if a == b:
        if p in ('eq', 'ule', 'uge', 'sle', 'sge'): return ('c', 1)
        if p in ('ne', 'ult', 'ugt', 'slt', 'sgt'): return ('c', 0)
    # boolean compared with constant
    if p in ('eq', 'ne') and b[0] == 'c' and b[1] in (0, 1) and is_bool(a):
        t = (b[1] == 1) == (p == 'eq')
        return a if t else mk_not(a)
    if p in SWAPP:
        p, a, b = SWAPP[p], b, a
    Z = ('c', 0)
    if p == 'ult' and a == Z: p = 'ne'                       # 0 < x, x < 1 for unsigned x
    elif p == 'ult' and b == ('c', 1): p, b = 'eq', Z
    if p in ('eq', 'ne'):                                     # x - y == 0
        for x, y in ((a, b), (b, a)):
            if x == Z and y[:2] == ('op', 'sub') and len(y) == 4: return mk_cmp(p, y[2], y[3])
    if p in SYM and repr(b) < repr(a):
        a, b = b, a
    # canonical polarity: eq / lt / le
    if p == 'ne': return ('not', ('cmp', 'eq', a, b))
    if p == 'une': return ('not', ('cmp', 'eq', a, b))
    if p == 'one': return ('cmp', 'one', a, b)
    p = {'oeq': 'eq', 'ult': 'lt', 'slt': 'lt', 'olt': 'lt', 'ule': 'le', 'sle': 'le', 'ole': 'le'}.get(p, p)
    if p == 'le':  # a<=b  ==  !(b<a)
        return ('not', ('cmp', 'lt', b, a))
    return ('cmp', p, a, b)


def is_bool(a):
    return a[0] in ('cmp', 'not') or (a[0] == 'ret' and isinstance(a[2], str) and a[2].split('::')[-1] in
                                      ('empty', 'operator bool', 'operator==', 'contains')) or (a[0] == 'rd' and False)


def mk_not(a):
    if a[0] == 'not': return a[1]
    if a[0] == 'c': return ('c', 1 - a[1])
    return ('not', a)


# -------------------------------------------------------------------------------------------
# region paths
# -------------------------------------------------------------------------------------------
class Ev:
    """one step of a path"""
    __slots__ = ('kind', 'name', 'args', 'inst', 'pol', 'loop', 'exit', 'val')

    def __init__(s, kind, name=None, args=(), inst=None, pol=None, loop=None, exit=None, val=None):
        s.kind = kind; s.name = name; s.args = tuple(args); s.inst = inst; s.pol = pol; s.loop = loop; s.exit = exit; s.val = val

    def __repr__(s):
        if s.kind == 'cond': return '%s%s' % ('' if s.pol else '!', pp(s.args[0]))
        if s.kind == 'loop': return 'LOOP%d->%s' % (s.loop.header, s.exit)
        if s.kind == 'write': return 'write %s := %s' % (pp(s.args[0]), pp(s.args[1]))
        if s.kind == 'read': return 'read %s' % pp(s.args[0])
        return '%s(%s)' % (s.name, ', '.join(pp(a) for a in s.args))

    def where(s):
        return s.inst.where() if s.inst else '?'


def pp(e):
    if not isinstance(e, tuple): return str(e)
    k = e[0]
    if k == 'c': return str(e[1])
    if k == 'a': return 'arg%d' % e[1]
    if k == 'phi': return 'phi%d' % e[1]
    if k == 'obj': return 'obj%d' % e[1]
    if k == 'new': return 'new%d' % e[1]
    if k == 'cell': return '%s[%s]%s' % (pp(e[1]), pp(e[2]), ('+%s' % e[3]) if e[3] else '')
    if k == 'rd': return '*%s' % pp(e[1])
    if k == 'q': return '%s(%s)' % (e[1], ','.join(pp(a) for a in e[2:]))
    if k == 'peek': return '%s.%s#%d' % (pp(e[1]), e[2], e[3])
    if k == 'fld': return '%s+%d' % (pp(e[1]), e[2])
    if k == 'ret' and isinstance(e[1], int): return '%s#%d(%s)' % (e[2], e[1], ','.join(pp(a) for a in e[3:]))
    if k == 'ret': return '%s(%s)' % (e[1], ','.join(pp(a) for a in e[2:]))
    if k == 'not': return '!(%s)' % pp(e[1])
    if k == 'cmp': return '(%s %s %s)' % (pp(e[2]), e[1], pp(e[3]))
    if k == 'op': return '%s(%s)' % (e[1], ','.join(pp(a) for a in e[2:]))
    if k in ('begin', 'end'): return '%s(%s)' % (k, pp(e[1]))
    return '<' + ' '.join(pp(a) for a in e) + '>'


class TooManyPaths(Exception):
    pass


PURE_METH = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'data', 'operator[]', 'at', 'front', 'back', 'top', 'capacity', 'operator bool', 'operator==', 'operator!=',
             'count', 'contains', 'find', '_M_addr', 'get'}


def is_noise_call(mod, x):
    nm = x.callee
    if nm is None: return False
    if x.anchor:
        c, m = mod.anchor_name(nm)
        if c.split('::')[0] in NOISE_CLASSES or m.startswith('~') or c in ('_Bvector_base', '_Vector_base', '_Deque_base', '_Bit_iterator', '_Bit_iterator_base', '_Function_base', '__shared_count', '_Sp_counted_base'):
            return True
        if c == '' and m in ('to_string', 'format', 'vformat', 'operator+', 'operator<<'): return True
        if c.endswith('_error') or c in ('out_of_range', 'invalid_argument'): return True
        if c.endswith('allocator'): return True
        return False
    if mod.keep_delete and nm.startswith('_ZdlPv'): return False
    if nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '__cxa_allocate_exception', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch') or nm.startswith('_ZdlPv'):
        return True
    if nm.startswith('_ZNS') or nm.startswith('_ZNKS') or nm.startswith('_ZSt') or nm.startswith('_ZNSaI'):
        d = mod.externs.get(nm, '')
        if any(k in d for k in ('basic_string', 'allocator', 'ostringstream', '_error::', 'out_of_range::', 'invalid_argument::')): return True
    if nm.startswith('_ZN9__gnu_cxx') and 'allocator' in mod.externs.get(nm, ''): return True
    return False


def block_events(fn, b, ev):
    """events of one block (no terminator) under evaluator ev"""
    out = []
    mod = fn.mod
    for x in fn.blocks[b]:
        if x.op == 'store':
            out.append(Ev('write', 'store', (ev.v(x.ops[1]), ev.v(x.ops[0])), x))
        elif x.op == 'load':
            out.append(Ev('read', 'load', (ev.v(x.ops[0]),), x, val=ev.i(x.id)))
        elif x.op in ('call', 'invoke'):
            nm = x.callee
            if nm is None:
                out.append(Ev('call', 'indirect', [ev.v(x.fp)] + [ev.v(o) for o in x.ops], x)); continue
            if nm.startswith('drv_q_') or nm.startswith('llvm.expect') or nm.startswith('llvm.is.constant'):
                continue
            if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
                # struct assignment: word-wise copies
                d_, s_, n_ = (ev.v(o) for o in x.ops[:3])
                if n_[0] == 'c' and n_[1] % 8 == 0 and 0 < n_[1] <= 128:
                    for k in range(0, n_[1], 8):
                        out.append(Ev('write', 'copy', (mk_gep(d_, k, []), ('rd', mk_gep(s_, k, []), ('copy', x.id, k))), x))
                else: out.append(Ev('write', 'copy', (d_, ('copied', s_, n_)), x))
                continue
            if is_noise_call(mod, x): continue
            if nm == '__cxa_throw':
                t = ev.v(x.ops[1])
                out.append(Ev('throw', 'throw', (t,), x)); continue
            if nm == '__assert_fail':
                out.append(Ev('throw', 'assert', (), x)); continue
            if x.anchor:
                c, m = mod.anchor_name(nm)
                a = [ev.v(o) for o in x.ops]
                if c == '_Bit_reference':
                    if m == 'operator=':
                        out.append(Ev('write', 'bit', (bitcell(a[0], a[1]), a[2] if len(a) == 3 else ('bitref',) + tuple(a[2:])), x))
                        continue
                    if m == 'operator bool':
                        cell = bitcell(a[0], a[1])
                        ev.memo[x.id] = ('rd', cell, x.id)
                        out.append(Ev('read', 'bit', (cell,), x, val=('rd', cell, x.id)))
                        continue
                if c == 'vector' and m in ('operator[]', 'at') and x.ty == 'i1':
                    out.append(Ev('read', 'bit', (('cell', a[0], a[1], 0),), x, val=ev.i(x.id)))
                    continue
                out.append(Ev('op', (c + '::' + m) if c else m, a, x, val=ev.i(x.id)))
                continue
            if nm.startswith('drv_'):
                out.append(Ev('call', nm[4:], [ev.v(o) for o in x.ops], x, val=ev.i(x.id)))
                continue
            out.append(Ev('call', nm, [ev.v(o) for o in x.ops], x, val=ev.i(x.id)))
    return out


def bitcell(p, i):
    if p[0] == 'xv' and i[0] == 'xv' and p[1] == i[1] and p[1][0] == 'cell':
        return p[1]
    if p[0] == 'xv' and p[1][0] == 'cell': return p[1]
    return ('cell', p, i, 0)


class Path:
    __slots__ = ('items', 'end', 'blocks', 'env', 'raw', 'canon', 'eff', 'size', 'src', 'fn', 'rowsize', 'known')

    def __init__(s, items, end, blocks, env):
        s.items = items; s.end = end; s.blocks = blocks; s.env = env

    # end: ('back', loop) | ('exit', (from,to)) | ('ret',) | ('throw',)
    def conds(s):
        return [e for e in s.items if e.kind == 'cond']

    def effects(s):
        return [e for e in s.items if e.kind in ('call', 'op', 'write', 'throw')]

    def named(s, *names):
        return [e for e in s.items if e.name in names]

    def has_cond(s, pred, pol=None):
        for e in s.items:
            if e.kind == 'cond':
                r = pred(e.args[0])
                if r is True and (pol is None or e.pol == pol): return True
        return False


def simp_sel(e, known):
    """resolve selects whose condition is known"""
    if not isinstance(e, tuple) or not e: return e
    if e[0] == 'sel':
        c = e[1]; pol = True
        while c[0] == 'not': c = c[1]; pol = not pol
        if c in known: return simp_sel(e[2] if known[c] == pol else e[3], known)
    if not any(isinstance(x, tuple) for x in e): return e
    r = tuple(simp_sel(x, known) if isinstance(x, tuple) else x for x in e)
    return r


def subst(e, env):
    """replace resolved phis inside an expression"""
    if not env or not isinstance(e, tuple): return e
    if e[0] == 'phi' and e[1] in env: return env[e[1]]
    r = tuple(subst(x, env) if isinstance(x, tuple) else x for x in e)
    if r[0] == 'op' and r[1] == 'narrow' and r[3][0] == 'c' and r != e: return ('c', r[3][1] & ((1 << r[2][1]) - 1))
    return r if r != e else e


def loop_exits(fn, L, cap):
    """[(exit edge, {inst: value visible outside}, [exit paths])] grouped by what the outside can observe"""
    key = ('exits', L.header)
    if key in fn.cache: return fn.cache[key]
    out = [i for b in L.blocks for i in (x.id for x in fn.blocks[b]) if any(u.blk not in L.blocks for u in fn.users.get(i, []))]
    groups = {}
    for p in paths_of(fn, L):
        if p.end[0] != 'exit': continue
        ev = Eval(fn, dict(p.env))
        kn = {e.args[0]: e.pol for e in p.items if e.kind == 'cond'}
        upd = {}
        for i in out:
            x = fn.inst[i]
            if x.blk in p.blocks or (x.blk == L.header):
                v = simp_sel(ev.i(i), kn)
                if v != Eval(fn).i(i): upd[i] = v
        k = (p.end[1], tuple(sorted(upd.items(), key=repr)))
        groups.setdefault(k, (p.end[1], upd, []))[2].append(p)
    fn.cache[key] = list(groups.values())
    return fn.cache[key]


def loop_dead_ends(fn, L, cap):
    key = ('dead', L.header)
    if key not in fn.cache:
        fn.cache[key] = [p for p in paths_of(fn, L) if p.end[0] in ('throw', 'unreach')][:1] and \
                        [p for p in paths_of(fn, L) if p.end[0] == 'throw'][:8]
    return fn.cache[key]


def paths_of(fn, L=None):
    k = ('paths', L.header if L else None)
    if k not in fn.cache:
        r = []
        for q in region_paths(fn, L):
            for q2 in split_sel(q):
                n = normalize(fn, q2)
                if n is not None: r.append(n)
        fn.cache[k] = r
    return fn.cache[k]


def base_of(a):
    """the object an address belongs to"""
    while True:
        if a[0] in ('cell', 'fld', 'el', 'gep', 'begin', 'end'): a = a[1]
        elif a[0] == 'peek': a = a[1]
        else: return a


def split_sel(p):
    """a condition that is itself a select is a conjunction / disjunction: one path per case"""
    out = [[]]
    for e in p.items:
        if e.kind == 'cond' and e.name == 'cond' and has_top_sel(e.args[0]):
            alts = []
            for cs in cases(e.args[0], e.pol, 0): alts.append([Ev('cond', 'cond', (c,), e.inst, pol=pl) for c, pl in cs])
            if len(out) * len(alts) <= 16:
                out = [o + a for o in out for a in alts]; continue
        for o in out: o.append(e)
    if len(out) == 1 and len(out[0]) == len(p.items): return [p]
    return [Path(o, p.end, p.blocks, p.env) for o in out if consistent(o)]


def consistent(items):
    """no condition is both taken and not taken"""
    known = {}
    for e in items:
        if e.kind != 'cond': continue
        c = e.args[0]; pol = e.pol
        while c[0] == 'not': c = c[1]; pol = not pol
        if known.setdefault(c, pol) != pol and c[0] == 'cmp': return False
    return True


def has_top_sel(c):
    while c[0] == 'not': c = c[1]
    return c[0] == 'sel' or bool_op(c)


def bool_op(c):
    """bitwise combination of two truth values"""
    def b(x):
        while x[0] == 'not': x = x[1]
        return x[0] == 'cmp' or bool_op(x)
    return c[0] == 'op' and c[1] in ('or', 'and') and len(c) == 4 and b(c[2]) and b(c[3])


def cases(c, pol, depth):
    """conjunctions of (condition, polarity) equivalent to c == pol"""
    while c[0] == 'not': c = c[1]; pol = not pol
    if c[0] == 'c': return [[]] if bool(c[1]) == pol else []
    if depth > 4 or not has_top_sel(c): return [[(c, pol)]]
    r = []
    if c[0] == 'op':
        w = c[1] == 'or'
        if pol != w: return [x + y for x in cases(c[2], pol, depth + 1) for y in cases(c[3], pol, depth + 1)]
        return cases(c[2], w, depth + 1) + [x + y for x in cases(c[2], not w, depth + 1) for y in cases(c[3], w, depth + 1)]
    for b, v in ((True, c[2]), (False, c[3])):
        for x in cases(c[1], b, depth + 1):
            for y in cases(v, pol, depth + 1): r.append(x + y)
    return r


def is_pure_op(e):
    return e.kind == 'op' and e.name.split('::')[-1] in PURE_METH


def loop_mods(fn, L):
    """base objects that may be modified by a loop (including nested loops)"""
    key = ('mods', L.header)
    if key in fn.cache: return fn.cache[key]
    m = set()
    ev = Eval(fn)
    for b in L.blocks:
        for e in block_events(fn, b, ev):
            if e.kind == 'write': m.add(base_of(e.args[0]))
            elif e.kind == 'op' and not is_pure_op(e):
                for a in e.args:
                    if a[0] in ('obj', 'a', 'new', 'fld', 'cell', 'peek', 'rd', 'phi'): m.add(base_of(a))
    fn.cache[key] = m
    return m


def normalize(fn, path):
    """value numbering along one path: repeated reads of unmodified cells become equal, reads see earlier writes"""
    ver = {}; store = {}; rd = {}; sub = {}

    def rw(e):
        if not isinstance(e, tuple) or not e: return e
        k = e[0]
        if k in ('c', 'a', 'obj', 'new', 'g', 'undef', 'phi'): return e
        if k == 'rd' and e[2] != -1 and e[2] in sub: return sub[e[2]]
        if k == 'peek' and e[3] in sub: return sub[e[3]]
        if k == 'ret' and e[1] in sub: return sub[e[1]]
        r = tuple(rw(x) if isinstance(x, tuple) else x for x in e)
        if r == e and k != 'sel': return e
        if k == 'cmp': return mk_cmp({'eq': 'eq', 'lt': 'slt'}.get(r[1], r[1]), r[2], r[3]) if r[1] in ('eq', 'lt') else r
        if k == 'not': return mk_not(r[1])
        if k == 'op' and r[1] == 'narrow' and r[3][0] == 'c': return ('c', r[3][1] & ((1 << r[2][1]) - 1))
        if k == 'sel':
            c = r[1]; pol = True
            while c[0] == 'not': c = c[1]; pol = not pol
            if c in known: return r[2] if known[c] == pol else r[3]
            if c[0] == 'c': return r[2] if bool(c[1]) == pol else r[3]
        return r

    def bump(o):
        ver[o] = ver.get(o, 0) + 1
        for a in [a for a in store if base_of(a) == o]: del store[a]

    items = []; known = {}
    for e in path.items:
        if e.kind == 'read':
            a = rw(e.args[0]); i = e.inst.id
            if i in fn.stable: items.append(Ev('read', e.name, (a,), e.inst, val=('rd', a, -1))); continue
            if a in store: sub[i] = store[a]
            else:
                key = (a, ver.get(base_of(a), 0))
                if key in rd: sub[i] = rd[key]
                else:
                    v = ('rd', a, i); rd[key] = v; sub[i] = v
            items.append(Ev('read', e.name, (a,), e.inst, val=sub[i])); continue
        args = tuple(rw(a) for a in e.args)
        if e.kind == 'op' and is_pure_op(e) and args:
            m = e.name.split('::')[-1]
            o = base_of(args[0])
            key = (e.name, args, ver.get(o, 0))
            i = e.inst.id
            if key in rd: sub[i] = rd[key]
            else:
                v = rw(Eval(fn, path.env).i(i)) if e.val is None else rw(e.val)
                rd[key] = v; sub[i] = v
            items.append(Ev('op', e.name, args, e.inst, val=sub[i])); continue
        if e.kind == 'cond':
            c = args[0]; pol = e.pol
            while c[0] == 'not' or c[0] == 'sel' and c[2][0] == 'c' and c[3][0] == 'c' and bool(c[2][1]) != bool(c[3][1]):
                if c[0] == 'sel': pol = pol == bool(c[2][1])
                else: pol = not pol
                c = c[1]
            if c[0] == 'c' and isinstance(c[1], int):
                if bool(c[1]) != pol: return None
                continue
            if c in known:
                if known[c] != pol: return None
                continue
            known[c] = pol
            items.append(Ev('cond', e.name, (c,), e.inst, pol=pol)); continue
        if e.kind == 'write':
            a, v = args
            o = base_of(a)
            bump(o); store[a] = v
            items.append(Ev('write', e.name, args, e.inst)); continue
        if e.kind == 'op':
            for a in args:
                if a[0] in ('obj', 'a', 'new', 'fld', 'cell', 'peek', 'rd', 'phi'): bump(base_of(a))
            items.append(Ev('op', e.name, args, e.inst, val=e.val)); continue
        if e.kind == 'loop':
            for o in loop_mods(fn, e.loop): bump(o)
            items.append(Ev('loop', e.name, args, e.inst, loop=e.loop, exit=e.exit, val=e.val)); continue
        items.append(Ev(e.kind, e.name, args, e.inst, pol=e.pol, val=e.val))
    end = path.end
    if len(end) > 2: end = (end[0], end[1], {k: rw(v) for k, v in end[2].items()})
    env = {k: rw(v) for k, v in path.env.items()}
    return Path(items, end, path.blocks, env)


def region_paths(fn, loop=None, start=None, cap=None, stop=None):
    """acyclic paths of a region.  loop=None: the function body.  Inner loops are collapsed to one 'loop' item."""
    header = loop.header if loop else 0
    cap = cap or fn.mod.path_cap
    if start is None: start = header
    res = []
    blocks_in = loop.blocks if loop else set(range(len(fn.blocks)))

    def inner_loop(b):
        """outermost loop strictly inside region whose header is b"""
        L = fn.loop_of.get(b)
        while L is not None and L.parent is not loop and L is not loop:
            L = L.parent
        if L is None or L is loop: return None
        return L

    def step(b, prev, items, env, blocks, known):
        if len(res) > cap: raise TooManyPaths(fn.name)
        L = inner_loop(b)
        if L is not None and b != start:
            L2 = L
        elif L is not None and b == start and loop is not None and b == loop.header:
            L2 = None
        else:
            L2 = L
        if L2 is not None and L2 is not loop:
            for ex, upd, reps in loop_exits(fn, L2, cap):
                it = items + [Ev('loop', 'loop', (), fn.blocks[L2.header][0], loop=L2, exit=ex, val=reps)]
                env2 = dict(env)
                # values of the last iteration, with values of this path substituted
                for k, v in upd.items(): env2[k] = subst(v, env)
                go(ex[0], ex[1], it, env2, blocks + [L2.header], dict(known))
            for rep in loop_dead_ends(fn, L2, cap):
                it = items + [Ev('loop', 'loop', (), fn.blocks[L2.header][0], loop=L2, exit=None, val=[rep])]
                res.append(Path(it, rep.end, blocks + [L2.header], env))
            return
        env = dict(env)
        if prev is not None and b != header or (prev is not None and loop is None):
            upd = {}
            ev0 = Eval(fn, env)
            for x in fn.blocks[b]:
                if x.op != 'phi': break
                for p, o in x.ops:
                    if p == prev:
                        upd[x.id] = ev0.v(o); break
            env.update(upd)
        ev = Eval(fn, env)
        evs = block_events(fn, b, ev)
        # remember value rewrites (bit reads)
        for k, v in ev.memo.items():
            if v[0] == 'rd' and k not in env and fn.inst[k].op != 'load': env[k] = v
        items = items + evs
        blocks = blocks + [b]
        if evs and evs[-1].kind == 'throw':
            res.append(Path(items, ('throw',), blocks, env)); return
        t = fn.blocks[b][-1]
        if t.op == 'ret':
            if t.ops: items = items + [Ev('ret', 'ret', [ev.v(o) for o in t.ops], t)]
            res.append(Path(items, ('ret',), blocks, env)); return
        if t.op == 'unreachable':
            res.append(Path(items, ('unreach',), blocks, env)); return
        if t.op == 'br' and len(t.succ) == 2:
            c = ev.v(t.ops[0]); pol = True
            while c[0] == 'not': c = c[1]; pol = not pol
            for k, tgt in ((True, t.succ[0]), (False, t.succ[1])):
                truth = k if pol else (not k)
                if c[0] == 'c':
                    if bool(c[1]) != truth: continue
                    go(b, tgt, items, env, blocks, known); continue
                if c in known and known[c] != truth: continue
                kn = dict(known); kn[c] = truth
                go(b, tgt, items + [Ev('cond', 'cond', (c,), t, pol=truth)], env, blocks, kn)
            return
        if t.op == 'switch':
            c = ev.v(t.ops[0])
            if c[0] == 'c':
                for val, tgt in t.cases:
                    if val == c[1]:
                        go(b, tgt, items, env, blocks, known); return
                go(b, t.default, items, env, blocks, known); return
            def assume(items, known, x, pol):
                while x[0] == 'not': x = x[1]; pol = not pol
                if x[0] == 'c': return (items, known) if bool(x[1]) == pol else None
                if known.get(x, pol) != pol: return None
                kn = dict(known); kn[x] = pol
                return items + [Ev('cond', 'cond', (x,), t, pol=pol)], kn
            cs = [(mk_cmp('eq', c, ('c', val)), tgt) for val, tgt in t.cases]
            for x, tgt in cs:
                r = assume(items, known, x, True)
                if r and not any(r[1].get(y) for y, _ in cs if y != x): go(b, tgt, r[0], env, blocks, r[1])
            r = (items, known)
            for x, _ in cs: r = r and assume(r[0], r[1], x, False)
            if r: go(b, t.default, r[0], env, blocks, r[1])
            return
        go(b, t.succ[0], items, env, blocks, known)

    def go(frm, to, items, env, blocks, known):
        if loop is not None and to == loop.header:
            # record phi values carried by the back edge
            ev = Eval(fn, env)
            carried = {}
            for x in fn.blocks[to]:
                if x.op != 'phi': break
                for p, o in x.ops:
                    if p == frm: carried[x.id] = ev.v(o)
            res.append(Path(items, ('back', loop, carried), blocks, env)); return
        if to not in blocks_in:
            ev = Eval(fn, env)
            carried = {}
            for x in fn.blocks[to]:
                if x.op != 'phi': break
                for p, o in x.ops:
                    if p == frm: carried[x.id] = ev.v(o)
            res.append(Path(items, ('exit', (frm, to), carried), blocks, env)); return
        if to in blocks:
            res.append(Path(items, ('irred', to), blocks, env)); return
        step(to, frm, items, env, blocks, known)

    step(start, None, [], {}, [], {})
    return res

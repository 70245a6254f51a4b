import sys
from ir import *
def show(fn, loop=None, ind=0):
    P = paths_of(fn, loop)
    pre = ' ' * ind
    print('%s== %s header=%s paths=%d' % (pre, 'loop' if loop else 'function ' + fn.name, loop.header if loop else 0, len(P)))
    if loop:
        for x in fn.blocks[loop.header]:
            if x.op == 'phi':
                ev = Eval(fn)
                print('%s   phi%d = %s' % (pre, x.id, ', '.join('%d:%s' % (p, pp(ev.v(o))) for p, o in x.ops)))
    for i, p in enumerate(P[:60]):
        e = p.end
        print('%s-- path %d end=%s %s' % (pre, i, e[0], e[1] if e[0] == 'exit' else ''))
        for it in p.items:
            if it.kind == 'read' or (it.kind=='op' and it.name.split('::')[-1] in PURE_METH): continue
            if it.kind=='op' and it.name.split('::')[-1]==it.name.split('::')[0] : pass
            print('%s     %s   [%s]' % (pre, it, it.where().split('/')[-1]))
        if e[0] in ('back', 'exit') and len(e) > 2:
            print('%s     carried: %s' % (pre, ', '.join('phi%d=%s' % (k, pp(v)) for k, v in e[2].items())))
    for L in (loop.children if loop else fn.top_loops):
        show(fn, L, ind + 4)
if __name__ == '__main__':
    m = Module(sys.argv[1])
    import os
    if os.environ.get('KEEPDEL'): m.keep_delete = True
    for n in sys.argv[2:]:
        for f in m.fns.values():
            if n in f.name or n in f.dem: show(f)
    if len(sys.argv) == 2:
        for f in m.fns.values(): print(f.root, f.name, len(f.blocks), f.dem[:150])

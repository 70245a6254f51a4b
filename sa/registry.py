"""property id -> rules"""
import os
from runner import compile_driver
import alg_traversal as at

PROPS = {}


def reg(pid, drivers, funcs, banchors=(), **kw):
    def go(c, tmp):
        for d in drivers:
            m = compile_driver(d, tmp, banchors=banchors)
            c.saw('drivers')
            for f in funcs: f(c, m)
    PROPS[pid] = dict(run=go, drivers=drivers, **kw)


reg('A01', ['alg_traversal'], [at.bfs])
reg('A02', ['alg_traversal'], [at.dfs])
reg('A03', ['alg_topo'], [at.topo])
import alg_paths as ap
reg('A04', ['alg_paths'], [ap.dijkstra, ap.init_paths])
reg('A05', ['alg_paths'], [ap.bellman, ap.neg_cycle])
import alg_mst as am
DS = ['graph::disjoint_find', 'graph::disjoint_union', 'graph::disjoint_union_find']
reg('A08', ['alg_mst'], [am.kruskal], banchors=DS)
reg('A09', ['alg_mst'], [am.prim])
reg('A10', ['alg_mst'], [am.disjoint], banchors=DS)
import alg_components as ac
reg('A07', ['alg_components'], [ac.kosaraju, ac.cc, ac.afforest])
import alg_misc as ax
reg('A13', ['alg_misc'], [ax.mis])
reg('A14', ['alg_misc'], [ax.triangles])
reg('A15', ['alg_misc'], [ax.jaccard])
reg('A16', ['alg_misc'], [ax.labelprop])
import alg_bicon as ab
reg('A11', ['alg_components'], [ab.articulation])
reg('A12', ['alg_components'], [ab.biconnected])
import alg_args as aa


def a06(c, tmp):
    for d, f in (('alg_paths', aa.paths_args), ('alg_mst', aa.prim_args)):
        m = compile_driver(d, tmp); c.saw('drivers'); f(c, m)


PROPS['A06'] = dict(run=a06, drivers=['alg_paths', 'alg_mst'])


import view_search as vs


def regv(pid, drivers, funcs, **kw):
    """views: nothing of graph::views is kept opaque"""
    def go(c, tmp):
        for d in drivers:
            m = compile_driver(d, tmp, anchors=[])
            c.saw('drivers')
            for f in funcs: f(c, m)
    PROPS[pid] = dict(run=go, drivers=drivers, **kw)


regv('V02', ['view_search'], [vs.bfs_walk])
regv('V03', ['view_search'], [vs.dfs_walk])
regv('V04', ['view_search'], [vs.cancel])
import view_topo as vt
regv('V05', ['view_topo'], [vt.topo])
import view_fn as vf
regv('V08', ['view_fn'], [vf.own_copy])
import cont_csr as cc


def regc(pid, specs, **kw):
    """containers: (driver, rule, functions kept as calls)"""
    def go(c, tmp):
        for d, f, fa in specs:
            m = compile_driver(d, tmp, anchors=[], witness=c, fanchors=fa); c.saw('drivers')
            if m: f(c, m)
    PROPS[pid] = dict(run=go, drivers=sorted({d for d, f, fa in specs}), **kw)


CSR = 'graph::container::compressed_graph_base::'
regc('C01', [('cont_csr', cc.csr_load, [])])
regc('C02', [('cont_csr', cc.csr_query, [])])
regc('C03', [('cont_csr_ctor', cc.csr_ctor, [CSR + 'load_edges', CSR + 'load_vertices']), ('cont_csr', cc.csr_parts, [])])
import cont_dyn as cd
regc('C04', [('cont_dyn', cd.dyn_load, []), ('cont_dyn_tok', cd.dyn_moves, [])])
regc('C05', [('cont_dyn_q', cd.dyn_query, [])])
DYN = 'graph::container::dynamic_graph_base::'
regc('C06', [('cont_dyn_ctor', cd.dyn_ctor, [DYN + 'load_edges', DYN + 'load_vertices'])])
import global_rules as gr
ALLD = sorted(x[:-4] for x in os.listdir(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers')) if x.endswith('.cpp'))
PROPS['A17'] = dict(run=lambda c, tmp: gr.globals_(c, tmp, ALLD), drivers=ALLD)
import view_basic as vb


def regm(pid, pairs, **kw):
    """views: one rule function per driver"""
    def go(c, tmp):
        for d, f in pairs:
            m = compile_driver(d, tmp, anchors=[], witness=c); c.saw('drivers')
            if m: f(c, m)
    PROPS[pid] = dict(run=go, drivers=[d for d, f in pairs], **kw)


regm('V01', [('view_basic', vb.basic_views)])
regm('V06', [('view_adapt', vb.adaptors), ('view_adapt_search', vb.twins)])
regm('V07', [('view_transpose', vb.transpose)])
import cpo_lookup as cl
regc('P01', [('lookups', cl.lookups, [])])
import cpo_std as cs
regc('P02', [('std_graphs', cs.std_graphs, [])])
regc('P03', [('cont_csr', cs.const_csr, []), ('const_time', cs.const_dyn, []), ('std_graphs', cs.const_std, []), ('ual', cs.const_ual, []), ('ual_q', cs.const_ualq, [])])
import desc as de
regc('D01', [('desc', de.descriptors, []), ('desc', de.iterators, [])])
regc('D02', [('edge_lists', de.edge_lists, [])])
regc('D03', [('dyn_edges', de.dyn_edges, [])])
import cpo_dispatch as cdp


def dispatch_both(c, tmp):
    for defs in ([], ['-DDRV_VIT']):
        m = compile_driver('dispatch', tmp, anchors=[], witness=c, defs=defs); c.saw('drivers')
        if m: cdp.dispatch(c, m)


PROPS['P04'] = dict(run=dispatch_both, drivers=['dispatch'])


def exceptions(c, tmp):
    if compile_driver('nothrow', tmp, anchors=[], witness=c) is None: return
    gr.exceptions(c, tmp, ALLD, all_ops=('lookups', 'dispatch'))


PROPS['X01'] = dict(run=exceptions, drivers=ALLD)
import cont_ual as cu
UNLINK = 'graph::container::ual_edge::unlink'
regc('C07', [('ual', cu.lists, []), ('ual_q', cu.graph_erase, [UNLINK])])
regc('C09', [('ual_q', cu.query_rules, [UNLINK])])
import cont_ualc as cuc
regc('C08', [('ual_ctor', cuc.transfer_rules, [cuc.MAKE, cuc.CLEAR])])

#include "view_basic.hpp"
using namespace graph;
using namespace graph::views;
// a graph that also counts its edges in constant time
class GN : public og::G {};
extern "C" std::size_t drv_q_num_edges() DRV_PURE;
inline std::size_t num_edges(const GN&) DRV_NX { return drv_q_num_edges(); }
struct NF { int operator()(const GN&, const og::ED&) const DRV_NX { return 0; } };
// a plain range of edges
using EL = std::vector<edge_data<std::uint32_t, true, void, int>>;
struct LF { int k; int operator()(const EL&, const EL::value_type& e) const DRV_NX { return drv_q_evfs(k, e.source_id, e.target_id); } };
extern "C" {
V_(vertexlist, (CG& g), vertexlist(g))
VF_(vertexlist_f, (CG& g, int k), vertexlist(g, VF{k}))
V_(vertexlist_r, (CG& g, og::VD a, og::VD b), vertexlist(g, a, b))
VF_(vertexlist_r_f, (CG& g, og::VD a, og::VD b, int k), vertexlist(g, a, b, VF{k}))
V_(vertexlist_vr, (CG& g, std::size_t a, std::size_t b), vertexlist(g, og::VView(a, b)))
VF_(vertexlist_vr_f, (CG& g, std::size_t a, std::size_t b, int k), vertexlist(g, og::VView(a, b), VF{k}))
VB_(basic_vertexlist, (CG& g), basic_vertexlist(g))
VBF_(basic_vertexlist_f, (CG& g, int k), basic_vertexlist(g, VF{k}))
VB_(basic_vertexlist_r, (CG& g, std::uint32_t a, std::uint32_t b), basic_vertexlist(g, a, b))
VBF_(basic_vertexlist_r_f, (CG& g, std::uint32_t a, std::uint32_t b, int k), basic_vertexlist(g, a, b, VF{k}))
VB_(basic_vertexlist_vr, (CG& g, std::size_t a, std::size_t b), basic_vertexlist(g, og::VView(a, b)))
VBF_(basic_vertexlist_vr_f, (CG& g, std::size_t a, std::size_t b, int k), basic_vertexlist(g, og::VView(a, b), VF{k}))
DIR(CG, , FREE, )
DIR(CG, , FREE, out_)
DIR(CGB, _b, FREE, )
DIR(CGB, _b, FREE, in_)
E_(edgelist, (CG& g), edgelist(g))
EF_(edgelist_f, (CG& g, int k), edgelist(g, EF{k}))
EB_(basic_edgelist, (CG& g), basic_edgelist(g))
EBF_(basic_edgelist_f, (CG& g, int k), basic_edgelist(g, EF{k}))
SIZE(edgelist, (const GN& g), edgelist(g))
SIZE(edgelist_f, (const GN& g), edgelist(g, NF{}))
SIZE(basic_edgelist, (const GN& g), basic_edgelist(g))
SIZE(basic_edgelist_f, (const GN& g), basic_edgelist(g, NF{}))
SLOOP(list_edgelist, (const EL& g), (s, t, e), (drv_v_st(s, t), drv_v_id(e.value)), edgelist(g))
SLOOP(list_edgelist_f, (const EL& g, int k), (s, t, e, x), (drv_v_stf(s, t, x), drv_v_id(e.value)), edgelist(g, LF{k}))
}

// Edge lookups and derived counts of the generic interface, over opaque graphs that provide only the basic queries.
#include "ograph.hpp"
#include <string>
namespace ga = graph::adj_list;
using namespace og;
extern "C" {
void drv_v_edge(std::size_t e, std::size_t u);
void drv_v_count(std::size_t n);
void drv_v_bool(bool b);
}
template <class E> static inline void out(const E& e) { drv_v_edge(e.value(), e.source().value()); }
using IT = typename VView::iterator;
#define V(x) (*IT(x))
#define LK(P, GG) \
extern "C" void drv_entry_##P##find_uv(const GG& g, std::size_t u, std::size_t v) { out(graph::find_vertex_edge(g, V(u), V(v))); } \
extern "C" void drv_entry_##P##find_ui(const GG& g, std::size_t u, id_t v) { out(graph::find_vertex_edge(g, V(u), v)); } \
extern "C" void drv_entry_##P##find_ii(const GG& g, id_t u, id_t v) { out(graph::find_vertex_edge(g, u, v)); } \
extern "C" void drv_entry_##P##ofind_uv(const GG& g, std::size_t u, std::size_t v) { out(graph::find_out_edge(g, V(u), V(v))); } \
extern "C" void drv_entry_##P##fin_uv(const GG& g, std::size_t u, std::size_t v) { out(graph::find_in_edge(g, V(u), V(v))); } \
extern "C" void drv_entry_##P##fin_ui(const GG& g, std::size_t u, id_t v) { out(graph::find_in_edge(g, V(u), v)); } \
extern "C" void drv_entry_##P##fin_ii(const GG& g, id_t u, id_t v) { out(graph::find_in_edge(g, u, v)); } \
extern "C" void drv_entry_##P##has_uv(const GG& g, std::size_t u, std::size_t v) { drv_v_bool(graph::contains_edge(g, V(u), V(v))); } \
extern "C" void drv_entry_##P##has_ii(const GG& g, id_t u, id_t v) { drv_v_bool(graph::contains_edge(g, u, v)); } \
extern "C" void drv_entry_##P##hin_uv(const GG& g, std::size_t u, std::size_t v) { drv_v_bool(graph::contains_in_edge(g, V(u), V(v))); } \
extern "C" void drv_entry_##P##hin_ii(const GG& g, id_t u, id_t v) { drv_v_bool(graph::contains_in_edge(g, u, v)); } \
extern "C" void drv_entry_##P##any(const GG& g) { drv_v_bool(graph::has_edges(g)); } \
extern "C" void drv_entry_##P##deg_u(const GG& g, std::size_t u) { drv_v_count(graph::degree(g, V(u))); } \
extern "C" void drv_entry_##P##deg_i(const GG& g, id_t u) { drv_v_count(graph::degree(g, u)); } \
extern "C" void drv_entry_##P##m(const GG& g) { drv_v_count(graph::num_edges(g)); } \
extern "C" void drv_entry_##P##m_u(const GG& g, std::size_t u) { drv_v_count(graph::num_edges(g, V(u))); } \
extern "C" void drv_entry_##P##m_i(const GG& g, id_t u) { drv_v_count(graph::num_edges(g, u)); } \
extern "C" void drv_entry_##P##eb_i(const GG& g, id_t u) { out(*graph::edges(g, u).begin()); } \
extern "C" void drv_entry_##P##ee_i(const GG& g, id_t u) { out(*graph::edges(g, u).end()); }
LK(g_, G)
LK(b_, GB)
extern "C" void drv_entry_b_ideg_u(const GB& g, std::size_t u) { drv_v_count(graph::in_degree(g, V(u))); }
extern "C" void drv_entry_b_ideg_i(const GB& g, id_t u) { drv_v_count(graph::in_degree(g, u)); }
extern "C" void drv_entry_b_ib_i(const GB& g, id_t u) { out(*graph::in_edges(g, u).begin()); }
extern "C" void drv_entry_b_ie_i(const GB& g, id_t u) { out(*graph::in_edges(g, u).end()); }
extern "C" void drv_entry_g_parts(const G& g) { drv_v_count(graph::num_partitions(g)); }
extern "C" void drv_entry_g_part(const G& g, std::size_t u) { drv_v_count(graph::partition_id(g, V(u))); }
extern "C" void drv_entry_g_pn(const G& g, std::size_t p) { drv_v_count(graph::num_vertices(g, p)); }
extern "C" void drv_entry_g_pv(const G& g, std::size_t p) { auto r = graph::vertices(g, p); drv_v_edge((*r.begin()).value(), (*r.end()).value()); }
extern "C" void drv_entry_g_src(const G& g, std::size_t e, std::size_t u) { drv_v_count(graph::source(g, ED(e, V(u))).value()); }
extern "C" void drv_entry_g_srcid(const G& g, std::size_t e, std::size_t u) { drv_v_count(graph::source_id(g, ED(e, V(u)))); }
extern "C" void drv_entry_g_tgt(const G& g, std::size_t e, std::size_t u) { drv_v_count(graph::target(g, ED(e, V(u))).value()); }

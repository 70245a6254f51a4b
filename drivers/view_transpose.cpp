#include "view_basic.hpp"
#include <graph/views/transpose.hpp>
using namespace graph;
using namespace graph::views;
using TV = transpose_view<const og::GB>;
// the view only refers to the base graph: a view over a transpose lives as long as the transpose
#define TLOOP(NM, P, BIND, SINK, ...)                                                             \
  void drv_entry_##NM(UNP P) { auto t = transpose(g); for (auto [UNP BIND] : __VA_ARGS__) SINK; } \
  void drv_entry_##NM##_post(UNP P) { const auto t = transpose(g); for (auto [UNP BIND] : __VA_ARGS__) SINK; } \
  std::size_t drv_entry_##NM##_size(UNP P) { auto t = transpose(g); auto v = __VA_ARGS__; return v.size(); }
#define TDIR(DN, PRE)                                                                                                              \
TLOOP(PRE##incidence_u##DN, (CGB& g, og::VD u), (id, w), drv_v_e(id, w.value(), w.source().value()), PRE##incidence(t, u))         \
TLOOP(PRE##incidence_i##DN##_f, (CGB& g, std::uint32_t uid, int k), (id, w, x), drv_v_ef(id, w.value(), w.source().value(), x), PRE##incidence(t, uid, EF{k})) \
TLOOP(PRE##neighbors_u##DN, (CGB& g, og::VD u), (id, w), drv_v_v(id, w.value()), PRE##neighbors(t, u))                             \
TLOOP(PRE##neighbors_i##DN##_f, (CGB& g, std::uint32_t uid, int k), (id, w, x), drv_v_vf(id, w.value(), x), PRE##neighbors(t, uid, VF{k})) \
TLOOP(basic_##PRE##incidence##DN, (CGB& g, std::uint32_t uid), (id), drv_v_id(id), basic_##PRE##incidence(t, uid))                 \
TLOOP(basic_##PRE##neighbors##DN##_f, (CGB& g, std::uint32_t uid, int k), (id, x), drv_v_idf(id, x), basic_##PRE##neighbors(t, uid, VF{k}))
extern "C" {
TLOOP(vertexlist, (CGB& g), (id, w), drv_v_v(id, w.value()), vertexlist(t))
TDIR(_b, )
TDIR(_b, out_)
TDIR(_b, in_)
void drv_entry_edgelist(CGB& g) { auto t = transpose(g); for (auto [s, d, w] : edgelist(t)) drv_v_el(s, d, w.value(), w.source().value()); }
#define F(NM, R, P, ...) R drv_entry_##NM(UNP P) { auto t = transpose(g); return __VA_ARGS__; }
#define FC(NM, R, P, ...) F(NM, R, P, adj_list::__VA_ARGS__) R drv_entry_##NM##_c(UNP P) { const auto t = transpose(g); return adj_list::__VA_ARGS__; }
FC(num_vertices, std::size_t, (CGB& g), num_vertices(t))
FC(degree, std::size_t, (CGB& g, og::VD u), degree(t, u))
FC(in_degree, std::size_t, (CGB& g, og::VD u), in_degree(t, u))
FC(degree_id, std::size_t, (CGB& g, std::uint32_t u), degree(t, u))
FC(in_degree_id, std::size_t, (CGB& g, std::uint32_t u), in_degree(t, u))
F(num_edges_u, std::size_t, (CGB& g, og::VD u), adj_list::num_edges(t, u))
FC(vertex_id, std::uint32_t, (CGB& g, og::VD u), vertex_id(t, u))
std::size_t drv_entry_find_vertex(CGB& g, std::uint32_t u) { auto t = transpose(g); return (*adj_list::find_vertex(t, u)).value(); }
// an outgoing edge of the transpose is an incoming edge of the graph, and the other way round
#define BOTH(NM, R, X)                                                                                                      \
R drv_entry_##NM##_out(CGB& g, og::IED e) { auto t = transpose(g); return adj_list::NM(t, e) X; }                           \
R drv_entry_##NM##_out_c(CGB& g, og::IED e) { const auto t = transpose(g); return adj_list::NM(t, e) X; }                   \
R drv_entry_##NM##_in(CGB& g, og::ED e) { auto t = transpose(g); return adj_list::NM(t, e) X; }                             \
R drv_entry_##NM##_in_c(CGB& g, og::ED e) { const auto t = transpose(g); return adj_list::NM(t, e) X; }
BOTH(target_id, std::uint32_t, )
BOTH(source_id, std::uint32_t, )
BOTH(target, std::size_t, .value())
BOTH(source, std::size_t, .value())
BOTH(edge_value, int, )
bool drv_entry_concept() { return adj_list::index_bidirectional_adjacency_list<TV> && std::same_as<adj_list::edge_t<TV>, og::IED> && std::same_as<adj_list::in_edge_t<TV>, og::ED>; }
bool drv_entry_twice(CGB& g) { auto t = transpose(g); return &t.base() == &g; }
}

// compressed_graph: loaders and accessors over an unknown graph object
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <vector>
using G  = graph::container::compressed_graph<int, long, void, std::uint32_t, std::uint64_t>;
using GV = graph::container::compressed_graph<void, void, void, std::uint32_t, std::uint64_t>;
using E  = graph::copyable_edge_t<std::uint32_t, int>;
using EV = graph::copyable_edge_t<std::uint32_t, void>;
using V  = graph::copyable_vertex_t<std::uint32_t, long>;
struct EP { E& operator()(E& e) const noexcept { return e; } const E& operator()(const E& e) const noexcept { return e; } };
struct VP { const V& operator()(const V& v) const noexcept { return v; } };
using VD = std::ranges::range_value_t<decltype(graph::vertices(std::declval<const G&>()))>;
using ED = std::ranges::range_value_t<decltype(graph::edges(std::declval<const G&>(), std::declval<VD>()))>;
using MVD = std::ranges::range_value_t<decltype(graph::vertices(std::declval<G&>()))>;
using MED = std::ranges::range_value_t<decltype(graph::edges(std::declval<G&>(), std::declval<MVD>()))>;
extern "C" {
void drv_entry_load_c(G& g, const std::vector<E>& e, std::size_t n, std::size_t m) { g.load_edges(e, EP{}, n, m); }
void drv_entry_load_m(G& g, std::vector<E>&& e, std::size_t n, std::size_t m) { g.load_edges(std::move(e), EP{}, n, m); }
void drv_entry_load_l(G& g, std::vector<E>& e, std::size_t n, std::size_t m) { g.load_edges(e, EP{}, n, m); }
void drv_entry_load_void(GV& g, const std::vector<EV>& e) { g.load_edges(e); }
void drv_entry_loadv(G& g, const std::vector<V>& v, std::size_t n) { g.load_vertices(v, VP{}, n); }
std::size_t drv_entry_n(const G& g) { return graph::num_vertices(g); }
std::size_t drv_entry_m(const G& g) { return graph::num_edges(g); }
bool drv_entry_has(const G& g) { return graph::has_edges(g); }
bool drv_entry_empty(const G& g) { return g.empty(); }
std::size_t drv_entry_vbegin(const G& g) { return (*graph::vertices(g).begin()).value(); }
std::size_t drv_entry_vend(const G& g) { return (*graph::vertices(g).end()).value(); }
std::size_t drv_entry_pbegin(const G& g, int pid) { return (*graph::vertices(g, pid).begin()).value(); }
std::size_t drv_entry_pend(const G& g, int pid) { return (*graph::vertices(g, pid).end()).value(); }
std::size_t drv_entry_np(const G& g) { return graph::num_partitions(g); }
std::size_t drv_entry_pid(const G& g, std::size_t u) { return graph::partition_id(g, VD(u)); }
std::size_t drv_entry_find(const G& g, std::uint32_t u) { return (*graph::find_vertex(g, u)).value(); }
std::size_t drv_entry_vid(const G& g, std::size_t u) { return graph::vertex_id(g, VD(u)); }
std::size_t drv_entry_ebegin(const G& g, std::size_t u) { return (*graph::edges(g, VD(u)).begin()).value(); }
std::size_t drv_entry_eend(const G& g, std::size_t u) { return (*graph::edges(g, VD(u)).end()).value(); }
std::size_t drv_entry_esrc(const G& g, std::size_t u) { return (*graph::edges(g, VD(u)).begin()).source().value(); }
std::size_t drv_entry_deg(const G& g, std::size_t u) { return graph::num_edges(g, VD(u)); }
std::size_t drv_entry_degree(const G& g, std::size_t u) { return graph::degree(g, VD(u)); }
std::size_t drv_entry_target(const G& g, std::size_t e, std::size_t u) { return graph::target_id(g, ED(e, VD(u))); }
std::size_t drv_entry_tgt(const G& g, std::size_t e, std::size_t u) { return graph::target(g, ED(e, VD(u))).value(); }
std::size_t drv_entry_source(const G& g, std::size_t e, std::size_t u) { return graph::source_id(g, ED(e, VD(u))); }
const int* drv_entry_eval(const G& g, std::size_t e, std::size_t u) { return &graph::edge_value(g, ED(e, VD(u))); }
int* drv_entry_evalm(G& g, std::size_t e, std::size_t u) { return &graph::edge_value(g, MED(e, MVD(u))); }
const long* drv_entry_vval(const G& g, std::size_t u) { return &graph::vertex_value(g, VD(u)); }
long* drv_entry_vvalm(G& g, std::size_t u) { return &graph::vertex_value(g, MVD(u)); }
void drv_entry_clear(G& g) { g.clear(); }
std::size_t drv_entry_mid(const G& g, std::uint64_t e) { return g.target_id(e); }
std::uint64_t drv_entry_alle_b(const G& g) { return *g.edge_ids().begin(); }
std::uint64_t drv_entry_alle_e(const G& g) { return *g.edge_ids().end(); }
std::size_t drv_entry_eids_b(const G& g, std::uint32_t u) { return *g.edge_ids(u).begin(); }
std::size_t drv_entry_eids_e(const G& g, std::uint32_t u) { return *g.edge_ids(u).end(); }
}
extern "C" {
std::uint32_t drv_entry_lay_s(const E* e) { return e->source_id; }
std::uint32_t drv_entry_lay_t(const E* e) { return e->target_id; }
int drv_entry_lay_v(const E* e) { return e->value; }
std::uint32_t drv_entry_lay_vs(const EV* e) { return e->source_id; }
std::uint32_t drv_entry_lay_vt(const EV* e) { return e->target_id; }
std::uint32_t drv_entry_lay_i(const V* e) { return e->id; }
long drv_entry_lay_vv(const V* e) { return e->value; }
}

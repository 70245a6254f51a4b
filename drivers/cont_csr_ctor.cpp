// compressed_graph: constructors (edges, partitions, values, initializer list, allocator)
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <new>
#include <vector>
using G  = graph::container::compressed_graph<int, long, void, std::uint32_t, std::uint64_t>;
using GV = graph::container::compressed_graph<void, void, void, std::uint32_t, std::uint64_t>;
using GG = graph::container::compressed_graph<int, long, double, std::uint32_t, std::uint64_t>;
using E  = graph::copyable_edge_t<std::uint32_t, int>;
using EV = graph::copyable_edge_t<std::uint32_t, void>;
using V  = graph::copyable_vertex_t<std::uint32_t, long>;
struct EP { E& operator()(E& e) const noexcept { return e; } const E& operator()(const E& e) const noexcept { return e; } };
struct VP { const V& operator()(const V& v) const noexcept { return v; } };
extern "C" {
void drv_entry_parts(void* g, const std::vector<EV>& e, const std::vector<std::uint32_t>& p) { new (g) GV(e, std::identity{}, p); }
void drv_entry_list(void* g, const std::initializer_list<EV>& e) { new (g) GV(e); }
void drv_entry_alloc(void* g) { new (g) GV(std::allocator<std::uint32_t>{}); }
void drv_entry_edges(void* g, const std::vector<E>& e) { new (g) G(e, EP{}); }
void drv_entry_gval(void* g, const double& v) { new (g) GG(v); }
double* drv_entry_gv(GG& g) { return &graph::graph_value(g); }
const double* drv_entry_gvc(const GG& g) { return &graph::graph_value(g); }
}
extern "C" {
std::size_t drv_entry_gn(const GV& g) { return graph::num_vertices(g); }
std::size_t drv_entry_gnp(const GV& g) { return graph::num_partitions(g); }
std::size_t drv_entry_enp(const G& g) { return graph::num_partitions(g); }
std::size_t drv_entry_en(const G& g) { return graph::num_vertices(g); }
void drv_entry_load(G& g, const std::vector<E>& e, const std::vector<V>& v) { g.load(e, v, EP{}, VP{}); }
void drv_entry_both(void* g, const std::vector<E>& e, const std::vector<V>& v, const std::vector<std::uint32_t>& p) { new (g) G(e, v, EP{}, VP{}, p); }
void drv_entry_glist(void* g, const std::initializer_list<E>& e) { new (g) GG(e); }
}

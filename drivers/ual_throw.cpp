// undirected_adjacency_list whose values may throw when copied
#include <graph/graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <new>
#include <vector>
namespace gc = graph::container;
extern "C" void drv_v_copy(void*, const void*);
struct T {
  T() = default;
  T(const T& o) : x(o.x) { drv_v_copy(this, &o); }
  T(T&& o) noexcept : x(o.x) {}
  T& operator=(const T& o) { drv_v_copy(this, &o); return *this; }
  T& operator=(T&& o) noexcept { x = o.x; return *this; }
  int x = 0;
};
using G = gc::undirected_adjacency_list<T, T, T>;
using N = gc::undirected_adjacency_list<T, T, void>;
using ER = std::vector<graph::copyable_edge_t<std::uint32_t, T>>;
using VR = std::vector<graph::copyable_vertex_t<std::uint32_t, T>>;
using IL = std::initializer_list<std::tuple<std::uint32_t, std::uint32_t, T>>;
#define ALL(K, G) \
  void drv_entry_mk_##K(G& g, std::uint32_t u, std::uint32_t v, const T& x) { g.create_edge(u, v, x); g.create_edge(g.begin() + u, g.begin() + v, x); } \
  void drv_entry_cv_##K(G& g, const T& x) { g.create_vertex(x); } \
  void drv_entry_rs_##K(G& g, const T& x) { g.resize_vertices(9, x); } \
  void drv_entry_cp_##K(void* p, const G& g) { new (p) G(g); } \
  void drv_entry_as_##K(G& h, const G& g) { h = g; } \
  void drv_entry_il_##K(void* p, const IL& l) { new (p) G(l); }
extern "C" {
ALL(g, G) ALL(n, N)
void drv_entry_rng_g(void* p, const ER& e, const VR& v, const T& x) { new (p) G(e, v, std::identity(), std::identity(), x); }
void drv_entry_rng_n(void* p, const ER& e, const VR& v) { new (p) N(e, v, std::identity(), std::identity()); }
void drv_entry_val(void* p, const T& x) { new (p) G(x); }
}

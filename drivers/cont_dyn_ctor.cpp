// dynamic_graph: constructors
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <new>
#include <vector>
namespace gc = graph::container;
using Id = std::uint32_t;
template <template <class, class, class, class, bool> class T, class GV>
using DG = gc::dynamic_graph<long, int, GV, Id, true, T<long, int, GV, Id, true>>;
using Vov = DG<gc::vov_graph_traits, void>;
using Vovg = DG<gc::vov_graph_traits, double>;
using Mov = DG<gc::mov_graph_traits, void>;
using Movg = DG<gc::mov_graph_traits, double>;
using E = graph::copyable_edge_t<Id, long>;
using V = graph::copyable_vertex_t<Id, int>;
struct EP { const E& operator()(const E& e) const noexcept { return e; } };
struct VP { const V& operator()(const V& v) const noexcept { return v; } };
using IL = std::initializer_list<E>;
using P = std::vector<Id>;
#define C(N, G) \
  void drv_entry_both_##N(void* g, const std::vector<E>& e, const std::vector<V>& v, const P& p) { new (g) G(e, v, EP{}, VP{}, p); } \
  void drv_entry_max_##N(void* g, Id m, std::vector<E>& e, const P& p) { new (g) G(m, e, EP{}, p); } \
  void drv_entry_list_##N(void* g, const IL& e) { new (g) G(e); } \
  void drv_entry_def_##N(void* g) { new (g) G(); } \
  std::size_t drv_entry_m_##N(const G& g) { return graph::num_edges(g); }
#define CG(N, G) \
  void drv_entry_vlist_##N(void* g, const double& v, const IL& e) { new (g) G(v, e); } \
  void drv_entry_vrlist_##N(void* g, double&& v, const IL& e) { new (g) G(std::move(v), e); } \
  void drv_entry_val_##N(void* g, const double& v) { new (g) G(v); } \
  void drv_entry_rval_##N(void* g, double&& v) { new (g) G(std::move(v)); } \
  double* drv_entry_gv_##N(G& g) { return &g.graph_value(); } \
  const double* drv_entry_gvc_##N(const G& g) { return &g.graph_value(); } \
  double* drv_entry_gvp_##N(G& g) { return &graph::graph_value(g); }
extern "C" {
C(vov, Vov) C(mov, Mov) C(vovg, Vovg) C(movg, Movg) CG(vovg, Vovg) CG(movg, Movg)
Id drv_entry_lay_s(const E* e) { return e->source_id; }
Id drv_entry_lay_t(const E* e) { return e->target_id; }
}

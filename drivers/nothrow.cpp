// Functions of the user whose copies and moves may throw, and the documented promises not to throw
#include <graph/graph.hpp>
#include <graph/views.hpp>
#include <list>
#include <map>
#include <vector>
namespace gv = graph::views;
extern "C" void drv_v_copy(void*, const void*);
extern "C" void drv_v_move(void*, void*);
extern "C" void drv_v_assign(void*, const void*);
extern "C" int  drv_v_apply(const void*);
struct F {
  F() = default;
  F(const F& o) { drv_v_copy(this, &o); }
  F(F&& o) { drv_v_move(this, &o); }
  F& operator=(const F& o) { drv_v_assign(this, &o); return *this; }
  F& operator=(F&& o) { drv_v_assign(this, &o); return *this; }
  template <class G, class T> int operator()(const G&, T&&) const { return drv_v_apply(this); }
  template <class T> int operator()(T&&) const { return drv_v_apply(this); }
  int x = 0;
};
struct Q { // never throws
  template <class G, class T> int operator()(const G&, T&&) const noexcept { return 0; }
};
template <class V> int run(V&& v) {
  int n = 0;
  auto w = v;
  w = v;
  auto z = std::move(w);
  w = std::move(z);
  for (auto&& x : w) { (void)x; ++n; }
  auto b = w.begin(); auto c = b; c = b; ++c; c++; n += c == b;
  return n;
}
// input ranges only
template <class V> int once(V&& v) {
  int n = 0;
  auto w = std::move(v);
  for (auto&& x : w) { (void)x; ++n; }
  return n;
}
#define E(N, G, ...) extern "C" int drv_entry_##N(G& g, const F& f) { return __VA_ARGS__; }
using VV = std::vector<std::vector<int>>;
using ML = std::map<int, std::list<std::pair<int, int>>>;
#define ALL(P, G, ID) \
  E(P##vl, G, run(gv::vertexlist(g, f))) E(P##bvl, G, run(gv::basic_vertexlist(g, f))) \
  E(P##in, G, run(gv::incidence(g, *graph::vertices(g).begin(), f))) E(P##bin, G, run(gv::basic_incidence(g, ID, f))) \
  E(P##nb, G, run(gv::neighbors(g, *graph::vertices(g).begin(), f))) E(P##bnb, G, run(gv::basic_neighbors(g, ID, f))) \
  E(P##el, G, run(gv::edgelist(g, f))) E(P##bel, G, run(gv::basic_edgelist(g, f)))
ALL(v_, VV, 0u)
ALL(m_, ML, 0)
#define SEARCH(P, G, ID) \
  E(P##vd, G, once(gv::vertices_dfs(g, ID, f))) E(P##ed, G, once(gv::edges_dfs(g, ID, f))) \
  E(P##vb, G, once(gv::vertices_bfs(g, ID, f))) E(P##eb, G, once(gv::edges_bfs(g, ID, f))) \
  E(P##vt, G, once(gv::vertices_topological_sort(g, f))) E(P##et, G, once(gv::edges_topological_sort(g, f)))
SEARCH(v_, VV, 0u)
// documented: building a view does not throw unless moving the value function can
template <class G> using U = graph::vertex_t<G>;
template <class V> constexpr bool steps() {
  using I = std::ranges::iterator_t<V>;
  return noexcept(++std::declval<I&>()) && noexcept(std::declval<I&>()++) && noexcept(std::declval<const I&>() == std::declval<const I&>()) && std::is_nothrow_copy_constructible_v<I>;
}
template <class G> constexpr bool views() {
  static_assert(std::is_nothrow_constructible_v<gv::vertexlist_view<G, void>, G&>);
  static_assert(std::is_nothrow_constructible_v<gv::vertexlist_view<G, Q>, G&, Q>);
  static_assert(std::is_nothrow_constructible_v<gv::incidence_view<G, void>, G&, U<G>>);
  static_assert(std::is_nothrow_constructible_v<gv::incidence_view<G, Q>, G&, U<G>, Q>);
  static_assert(std::is_nothrow_constructible_v<gv::neighbors_view<G, void>, G&, U<G>>);
  static_assert(std::is_nothrow_constructible_v<gv::neighbors_view<G, Q>, G&, U<G>, Q>);
  static_assert(std::is_nothrow_constructible_v<gv::edgelist_view<G, void>, G&>);
  static_assert(std::is_nothrow_constructible_v<gv::edgelist_view<G, Q>, G&, Q>);
  return steps<gv::vertexlist_view<G, void>>() && steps<gv::vertexlist_view<G, Q>>() && steps<gv::incidence_view<G, void>>() && steps<gv::incidence_view<G, Q>>() &&
         steps<gv::neighbors_view<G, void>>() && steps<gv::neighbors_view<G, Q>>() && steps<gv::edgelist_view<G, void>>() && steps<gv::edgelist_view<G, Q>>();
}
static_assert(views<VV>());
static_assert(views<ML>());
// loading with projections that may throw
#include <graph/container/compressed_graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
using EI = graph::copyable_edge_t<unsigned, long>;
using VI = graph::copyable_vertex_t<unsigned, int>;
struct EP { const EI& operator()(const EI& e) const { drv_v_apply(&e); return e; } };
struct VP { const VI& operator()(const VI& e) const { drv_v_apply(&e); return e; } };
template <template <class, class, class, class, bool> class T> using DG = graph::container::dynamic_graph<long, int, void, unsigned, true, T<long, int, void, unsigned, true>>;
#define LOAD(N, G) extern "C" void drv_entry_load_##N(const std::vector<EI>& e, const std::vector<VI>& v, const std::vector<unsigned>& p) { G g; g.load_edges(e, EP{}); g.load_vertices(v, VP{}); G h(e, v, EP{}, VP{}, p); }
LOAD(vov, DG<graph::container::vov_graph_traits>)
LOAD(mos, DG<graph::container::mos_graph_traits>)
LOAD(vofl, DG<graph::container::vofl_graph_traits>)
using CG = graph::container::compressed_graph<long, int, void, unsigned>;
extern "C" void drv_entry_load_csr(const std::vector<EI>& e, const std::vector<VI>& v, const std::vector<unsigned>& p) { CG g; g.load_edges(e, EP{}); g.load_vertices(v, VP{}); CG h(e, v, EP{}, VP{}, p); }

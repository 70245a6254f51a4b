#include "ograph.hpp"
#include <graph/views/adaptors.hpp>
// Where a value function handed over by name or held by an adaptor object ends up: its copies and moves are visible.
using namespace graph;
using namespace graph::views;
namespace ad = graph::views::adaptors;
using CG  = const og::G;
using CGB = const og::GB;
using Al  = std::allocator<bool>;
struct FN;
extern "C" {
void drv_v_fncopy(void* to, const void* from);
void drv_v_fnmove(void* to, const void* from);
void drv_v_view(void* v);
}
struct FN {
  int k = 0;
  FN(const FN& o) { drv_v_fncopy(this, &o); }
  FN(FN&& o) noexcept { drv_v_fnmove(this, &o); }
  FN& operator=(const FN& o) { drv_v_fncopy(this, &o); return *this; }
  FN& operator=(FN&& o) noexcept { drv_v_fnmove(this, &o); return *this; }
  template <class G_> int operator()(const G_&, const og::VD&) const DRV_NX { return k; }
  template <class G_> int operator()(const G_&, const og::ED&) const DRV_NX { return k; }
  template <class G_> int operator()(const G_&, const og::IED&) const DRV_NX { return k; }
};
// by name; and piped into an adaptor object that stays with the caller
#define NAMED(NM, GT, ...) void drv_entry_n_##NM(GT& g, og::id_t s, FN& f) { auto v = __VA_ARGS__; drv_v_view(&v); }
#define ADAPT(NM, GT, ...)                                                                          \
  using A_##NM = decltype([](FN& f, og::id_t s) { return __VA_ARGS__; }(std::declval<FN&>(), 0));  \
  void drv_entry_m_##NM(og::id_t s, FN& f) { auto a = __VA_ARGS__; drv_v_view(&a); }               \
  void drv_entry_k_##NM(GT& g, A_##NM& a) { auto v = g | a; drv_v_view(&v); }                       \
  void drv_entry_c_##NM(GT& g, const A_##NM& a) { auto v = g | a; drv_v_view(&v); }
extern "C" {
#define BASIC(GT, DN, PRE)                                             \
  NAMED(PRE##incidence##DN, GT, PRE##incidence(g, s, f))                \
  NAMED(PRE##incidence_d##DN, GT, PRE##incidence(g, *find_vertex(g, s), f)) \
  NAMED(PRE##neighbors##DN, GT, PRE##neighbors(g, s, f))                \
  NAMED(PRE##neighbors_d##DN, GT, PRE##neighbors(g, *find_vertex(g, s), f)) \
  NAMED(basic_##PRE##incidence##DN, GT, basic_##PRE##incidence(g, s, f)) \
  NAMED(basic_##PRE##neighbors##DN, GT, basic_##PRE##neighbors(g, s, f)) \
  NAMED(x_##PRE##incidence##DN, GT, ad::PRE##incidence(g, s, f))        \
  NAMED(x_##PRE##neighbors##DN, GT, ad::PRE##neighbors(g, s, f))        \
  NAMED(x_basic_##PRE##incidence##DN, GT, ad::basic_##PRE##incidence(g, s, f)) \
  NAMED(x_basic_##PRE##neighbors##DN, GT, ad::basic_##PRE##neighbors(g, s, f)) \
  ADAPT(PRE##incidence##DN, GT, ad::PRE##incidence(s, f))               \
  ADAPT(PRE##neighbors##DN, GT, ad::PRE##neighbors(s, f))               \
  ADAPT(basic_##PRE##incidence##DN, GT, ad::basic_##PRE##incidence(s, f)) \
  ADAPT(basic_##PRE##neighbors##DN, GT, ad::basic_##PRE##neighbors(s, f))
BASIC(CG, , )
BASIC(CG, , out_)
BASIC(CGB, _b, in_)
#define WHOLE(NM)                           \
  NAMED(NM, CG, views::NM(g, f))            \
  NAMED(x_##NM, CG, ad::NM(g, f))           \
  ADAPT(NM, CG, ad::NM(f))
WHOLE(vertexlist)
WHOLE(basic_vertexlist)
WHOLE(edgelist)
WHOLE(basic_edgelist)
NAMED(vertexlist_d, CG, vertexlist(g, *find_vertex(g, s), *find_vertex(g, s), f))
NAMED(basic_vertexlist_i, CG, basic_vertexlist(g, s, s, f))
#define SEARCH(NM)                                                  \
  NAMED(NM, CG, views::NM(g, s, f))                                  \
  NAMED(NM##_d, CG, views::NM(g, *find_vertex(g, s), f))             \
  NAMED(NM##_a, CG, views::NM(g, s, f, Al{}))                        \
  NAMED(NM##_d_a, CG, views::NM(g, *find_vertex(g, s), f, Al{}))     \
  NAMED(NM##_in, CGB, views::NM<in_edge_accessor>(g, s, f))          \
  NAMED(NM##_in_d, CGB, views::NM<in_edge_accessor>(g, *find_vertex(g, s), f)) \
  NAMED(x_##NM, CG, ad::NM(g, s, f))                                 \
  NAMED(x_##NM##_a, CG, ad::NM(g, s, f, Al{}))                       \
  ADAPT(NM, CG, ad::NM(s, f))                                        \
  ADAPT(NM##_a, CG, ad::NM(s, f, Al{}))
SEARCH(vertices_bfs)
SEARCH(edges_bfs)
SEARCH(vertices_dfs)
SEARCH(edges_dfs)
#define TOPO(NM)                                  \
  NAMED(NM, CG, views::NM(g, f))                   \
  NAMED(NM##_a, CG, views::NM(g, f, Al{}))         \
  NAMED(NM##_in, CGB, views::NM<in_edge_accessor>(g, f)) \
  NAMED(x_##NM, CG, ad::NM(g, f))                  \
  NAMED(x_##NM##_a, CG, ad::NM(g, f, Al{}))        \
  ADAPT(NM, CG, ad::NM(f))                         \
  ADAPT(NM##_a, CG, ad::NM(f, Al{}))
TOPO(vertices_topological_sort)
TOPO(edges_topological_sort)
#define SAFE(NM)                                  \
  NAMED(NM, CG, views::NM(g, f))                   \
  NAMED(NM##_a, CG, views::NM(g, f, Al{}))         \
  NAMED(NM##_in, CGB, views::NM<in_edge_accessor>(g, f))
SAFE(vertices_topological_sort_safe)
SAFE(edges_topological_sort_safe)
}

#include "ograph.hpp"
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
using namespace graph;
using namespace graph::views;
using CG  = const og::G;
using CGB = const og::GB;
using Al  = std::allocator<bool>;
struct VVFB { int operator()(const og::GB&, const og::VD& u) const DRV_NX { return drv_q_vvf(u.value()); } };
struct EVFB { int operator()(const og::GB&, const og::IED& uv) const DRV_NX { return drv_q_evf(uv.value(), uv.source().value()); } };
template <class T> struct Sink { T x; };
// construction through one factory call
#define CTOR(NM, GT, ...) \
  void drv_entry_##NM(void* p, GT& g, og::id_t s) { using R = decltype(__VA_ARGS__); new (p) R(__VA_ARGS__); }
// one kind of view: every operation a user performs on it
#define VIEW(NM, GT, ...)                                                                                       \
  using V_##NM = decltype([](GT& g, og::id_t s) { return __VA_ARGS__; }(std::declval<GT&>(), 0));               \
  using I_##NM = decltype(std::declval<V_##NM&>().begin());                                                     \
  CTOR(NM##_ctor, GT, __VA_ARGS__)                                                                              \
  void drv_entry_##NM##_begin(V_##NM& v, void* p) { new (p) I_##NM(v.begin()); }                                \
  void drv_entry_##NM##_inc(I_##NM& i) { ++i; }                                                                 \
  void drv_entry_##NM##_pinc(I_##NM& i, void* p) { new (p) I_##NM(i++); }                                                           \
  void drv_entry_##NM##_star(I_##NM& i, void* p) { using R = decltype(*i); new (p) R(*i); }                     \
  bool drv_entry_##NM##_done(I_##NM& i, V_##NM& v) { return i == v.end(); }                                     \
  void drv_entry_##NM##_cancel(V_##NM& v, cancel_search c) { v.cancel(c); }                                     \
  cancel_search drv_entry_##NM##_getcancel(V_##NM& v) { return v.cancel(); }                                    \
  std::size_t drv_entry_##NM##_visited(V_##NM& v) { return v.num_visited(); }                                   \
  std::size_t drv_entry_##NM##_depth(V_##NM& v) { return v.depth(); }
#define BOTH(FN, FNV, VF, VFB)                                                                                  \
  VIEW(FN##_out, CG, FN(g, s))                                                                                  \
  VIEW(FN##_out_f, CG, FN(g, s, VF{}))                                                                          \
  CTOR(FN##_alloc, CG, FN(g, s, Al{}))                                                                          \
  CTOR(FN##_f_alloc, CG, FN(g, s, VF{}, Al{}))                                                                  \
  CTOR(FN##_desc, CG, FN(g, *find_vertex(g, s)))                                                                \
  CTOR(FN##_desc_f, CG, FN(g, *find_vertex(g, s), VF{}))                                                        \
  CTOR(FN##_desc_alloc, CG, FN(g, *find_vertex(g, s), Al{}))                                                    \
  CTOR(FN##_desc_f_alloc, CG, FN(g, *find_vertex(g, s), VF{}, Al{}))                                            \
  VIEW(FN##_in, CGB, FN<in_edge_accessor>(g, s))                                                                \
  VIEW(FN##_in_f, CGB, FN<in_edge_accessor>(g, s, VFB{}))                                                       \
  CTOR(FN##_in_desc, CGB, FN<in_edge_accessor>(g, *find_vertex(g, s)))                                          \
  CTOR(FN##_in_desc_f, CGB, FN<in_edge_accessor>(g, *find_vertex(g, s), VFB{}))
extern "C" {
BOTH(vertices_bfs, 0, og::VVF, VVFB)
BOTH(edges_bfs, 0, og::EVF, EVFB)
BOTH(vertices_dfs, 0, og::VVF, VVFB)
BOTH(edges_dfs, 0, og::EVF, EVFB)
}

#include "ograph.hpp"
#include <graph/views/topological_sort.hpp>
using namespace graph;
using namespace graph::views;
using CG  = const og::G;
using CGB = const og::GB;
using Al  = std::allocator<bool>;
struct VVFB { int operator()(const og::GB&, const og::VD& u) const DRV_NX { return drv_q_vvf(u.value()); } };
struct EVFB { int operator()(const og::GB&, const og::IED& uv) const DRV_NX { return drv_q_evf(uv.value(), uv.source().value()); } };
#define CTOR(NM, GT, ...) \
  void drv_entry_##NM(void* p, GT& g) { using R = decltype(__VA_ARGS__); new (p) R(__VA_ARGS__); }
#define VIEW(NM, GT, ...)                                                                                       \
  using V_##NM = decltype([](GT& g) { return __VA_ARGS__; }(std::declval<GT&>()));                              \
  using I_##NM = decltype(std::declval<V_##NM&>().begin());                                                     \
  CTOR(NM##_ctor, GT, __VA_ARGS__)                                                                              \
  void drv_entry_##NM##_begin(V_##NM& v, void* p) { new (p) I_##NM(v.begin()); }                                \
  void drv_entry_##NM##_inc(I_##NM& i) { ++i; }                                                                 \
  void drv_entry_##NM##_pinc(I_##NM& i, void* p) { new (p) I_##NM(i++); }                                      \
  void drv_entry_##NM##_star(I_##NM& i, void* p) { using R = decltype(*i); new (p) R(*i); }                     \
  bool drv_entry_##NM##_done(I_##NM& i, V_##NM& v) { return i == v.end(); }                                     \
  bool drv_entry_##NM##_eq(I_##NM& i, I_##NM& j) { return i == j; }                                             \
  void drv_entry_##NM##_cancel(V_##NM& v, cancel_search c) { v.cancel(c); }                                     \
  cancel_search drv_entry_##NM##_getcancel(V_##NM& v) { return v.cancel(); }                                    \
  std::size_t drv_entry_##NM##_visited(V_##NM& v) { return v.num_visited(); }
#define ALL_(FN, VF, VFB)                                                                                       \
  VIEW(FN##_out, CG, FN(g))                                                                                     \
  VIEW(FN##_out_f, CG, FN(g, VF{}))                                                                             \
  CTOR(FN##_alloc, CG, FN(g, Al{}))                                                                             \
  CTOR(FN##_f_alloc, CG, FN(g, VF{}, Al{}))                                                                     \
  VIEW(FN##_in, CGB, FN<in_edge_accessor>(g))                                                                   \
  VIEW(FN##_in_f, CGB, FN<in_edge_accessor>(g, VFB{}))                                                          \
  CTOR(FN##_safe, CG, FN##_safe(g))                                                                             \
  CTOR(FN##_safe_f, CG, FN##_safe(g, VF{}))                                                                     \
  CTOR(FN##_safe_alloc, CG, FN##_safe(g, Al{}))                                                                 \
  CTOR(FN##_safe_f_alloc, CG, FN##_safe(g, VF{}, Al{}))                                                         \
  CTOR(FN##_safe_in, CGB, FN##_safe<in_edge_accessor>(g))                                                       \
  CTOR(FN##_safe_in_f, CGB, FN##_safe<in_edge_accessor>(g, VFB{}))
extern "C" {
ALL_(vertices_topological_sort, og::VVF, VVFB)
ALL_(edges_topological_sort, og::EVF, EVFB)
}
std::size_t drv_sink() { return sizeof(V_vertices_topological_sort_out); }
extern "C" std::size_t drv_entry_vertices_topological_sort_out_size(V_vertices_topological_sort_out& v) { return v.size(); }
extern "C" std::size_t drv_entry_vertices_topological_sort_out_f_size(V_vertices_topological_sort_out_f& v) { return v.size(); }

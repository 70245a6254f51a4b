// undirected_adjacency_list: construction, copying, moving, swapping, destruction
#include "ual.hpp"
#include <list>
#include <new>
#include <vector>
template <class G> using ER = std::vector<graph::copyable_edge_t<typename G::vertex_id_type, typename G::edge_value_type>>;
template <class G> using VR = std::vector<graph::copyable_vertex_t<typename G::vertex_id_type, typename G::vertex_value_type>>;
template <class G> using IL3 = std::initializer_list<std::tuple<typename G::vertex_id_type, typename G::vertex_id_type, typename G::edge_value_type>>;
template <class G> using IL2 = std::initializer_list<std::tuple<typename G::vertex_id_type, typename G::vertex_id_type>>;
#define LAYE(N, G) LAY(N, G) \
  std::size_t drv_entry_lrs_##N(const ER<G>::value_type* e) { return e->source_id; } \
  std::size_t drv_entry_lrt_##N(const ER<G>::value_type* e) { return e->target_id; }
#define ALL(N, G) LAYE(N, G) \
  void drv_entry_def_##N(void* g) { new (g) G(); } \
  void drv_entry_alc_##N(void* g, const std::allocator<char>& a) { new (g) G(a); } \
  void drv_entry_cpy_##N(void* g, const G& o) { new (g) G(o); } \
  void drv_entry_mov_##N(void* g, G& o) { new (g) G(std::move(o)); } \
  void drv_entry_cas_##N(G& g, const G& o) { g = o; } \
  void drv_entry_mas_##N(G& g, G& o) { g = std::move(o); } \
  void drv_entry_swp_##N(G& g, G& o) { g.swap(o); } \
  void drv_entry_dtr_##N(G& g) { g.~G(); } \
  void drv_entry_il2_##N(void* g, const IL2<G>& l) { new (g) G(l); }
#define VAL(N, G) \
  const void* drv_entry_lev_##N(const E<G>* e) { return &e->value(); } \
  const void* drv_entry_lvv_##N(const V<G>* v) { return &v->value(); } \
  const void* drv_entry_lrv_##N(const ER<G>::value_type* e) { return &e->value; } \
  const void* drv_entry_lrw_##N(const VR<G>::value_type* v) { return &v->value; } \
  const void* drv_entry_lta_##N(const IL3<G>::value_type* e) { return &std::get<0>(*e); } \
  const void* drv_entry_ltb_##N(const IL3<G>::value_type* e) { return &std::get<1>(*e); } \
  const void* drv_entry_ltc_##N(const IL3<G>::value_type* e) { return &std::get<2>(*e); } \
  void drv_entry_il3_##N(void* g, const IL3<G>& l) { new (g) G(l); }
#define TUP(N, G) \
  const void* drv_entry_lua_##N(const IL2<G>::value_type* e) { return &std::get<0>(*e); } \
  const void* drv_entry_lub_##N(const IL2<G>::value_type* e) { return &std::get<1>(*e); }
extern "C" {
ALL(d, Gd) ALL(n, Gn) ALL(v, Gv) VAL(d, Gd) VAL(n, Gn)
TUP(d, Gd) TUP(n, Gn) TUP(v, Gv)
void drv_entry_ev_d(void* g, const ER<Gd>& e, const VR<Gd>& v, const short& x) { new (g) Gd(e, v, std::identity(), std::identity(), x); }
void drv_entry_eo_d(void* g, const ER<Gd>& e, const short& x) { new (g) Gd(e, std::identity(), x); }
void drv_entry_ev_n(void* g, const ER<Gn>& e, const VR<Gn>& v) { new (g) Gn(e, v, std::identity(), std::identity()); }
void drv_entry_eo_n(void* g, const ER<Gn>& e) { new (g) Gn(e, std::identity()); }
void drv_entry_ev_v(void* g, const ER<Gv>& e, const VR<Gv>& v) { new (g) Gv(e, v, std::identity(), std::identity()); }
void drv_entry_eo_v(void* g, const ER<Gv>& e) { new (g) Gv(e, std::identity()); }
void drv_entry_val_d(void* g, const short& x) { new (g) Gd(x); }
void drv_entry_rval_d(void* g, short&& x) { new (g) Gd(std::move(x)); }
const void* drv_entry_lgv_d(const Gd& g) { return &g.graph_value(); }
}

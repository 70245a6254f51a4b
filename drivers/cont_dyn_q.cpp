// dynamic_graph: accessors over an unknown graph object
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include "dyn_traits.hpp"
namespace gc = graph::container;
using Id = std::uint32_t;
template <template <class, class, class, class, bool> class T, class I, class GV>
using DG = gc::dynamic_graph<long, int, GV, I, true, T<long, int, GV, I, true>>;
using Vov = DG<gc::vov_graph_traits, Id, void>;
using Vovi = DG<gc::vov_graph_traits, int, short>;
using Vol = DG<gc::vol_graph_traits, Id, void>;
using Vom = DG<gc::vom_graph_traits, Id, void>;
using Vovn = DG<vovn_traits, Id, void>;
using Vofl = DG<gc::vofl_graph_traits, Id, void>;
using Vofln = DG<vofln_traits, Id, void>;
using Voln = DG<voln_traits, Id, void>;
using Mov = DG<gc::mov_graph_traits, Id, void>;
using Mom = DG<gc::mom_graph_traits, Id, void>;
template <class G> using VD = std::ranges::range_value_t<decltype(graph::vertices(std::declval<G&>()))>;
template <class G> using ED = std::ranges::range_value_t<decltype(graph::edges(std::declval<G&>(), std::declval<VD<G>>()))>;
template <class G> using ID = std::ranges::range_value_t<decltype(graph::in_edges(std::declval<G&>(), std::declval<VD<G>>()))>;
// a descriptor is made of an index or an iterator; both cross the C boundary as one word
template <class S> struct H {
  using T = std::size_t;
  static S in(T t) { return S(t); }
  static T out(S s) { return s; }
};
template <class S> requires requires(S s) { s._M_node; } struct H<S> {
  using T = decltype(S()._M_node);
  static S in(T t) { return S(t); }
  static T out(S s) { return s._M_node; }
};
template <class G> using VH = H<typename VD<G>::storage_type>;
template <class G> using VT = typename VH<G>::T;
template <class G> using EH = H<typename ED<G>::edge_storage_type>;
template <class G> using ET = typename EH<G>::T;
template <class G> using IH = H<typename ID<G>::edge_storage_type>;
template <class G> using IT = typename IH<G>::T;
template <class S, class T> const void* obj(T t) {
  if constexpr (requires(S s) { s._M_node; }) { if constexpr (requires(S s) { s->second; }) return &S(t)->second; else return &*S(t); } else return nullptr;
}
template <class S, class T> const void* ky(T t) {
  if constexpr (requires(S s) { s->first; }) return &S(t)->first; else return nullptr;
}
template <class E> std::size_t nbr(const E& e) { if constexpr (requires { e.source_id(); }) return e.source_id(); else return e.target_id(); }
template <class G> VD<G> mkv(VT<G> u) { return VD<G>(VH<G>::in(u)); }
template <class G> ED<G> mke(ET<G> e, VT<G> u) { return ED<G>(EH<G>::in(e), mkv<G>(u)); }
template <class G> ID<G> mki(IT<G> e, VT<G> u) { return ID<G>(IH<G>::in(e), mkv<G>(u)); }
#define IDX(N, G) \
  VT<const G> drv_entry_find_##N(const G& g, const G::vertex_id_type& u) { return VH<const G>::out((*graph::find_vertex(g, u)).value()); } \
  VT<G> drv_entry_findm_##N(G& g, const G::vertex_id_type& u) { return VH<G>::out((*graph::find_vertex(g, u)).value()); } \
  VT<const G> drv_entry_vb_##N(const G& g) { return VH<const G>::out((*graph::vertices(g).begin()).value()); } \
  VT<const G> drv_entry_ve_##N(const G& g) { return VH<const G>::out((*graph::vertices(g).end()).value()); } \
  std::size_t drv_entry_id_##N(const G& g, VT<const G> u) { return graph::vertex_id(g, mkv<const G>(u)); } \
  const void* drv_entry_vv_##N(const G& g, VT<const G> u) { return &graph::vertex_value(g, mkv<const G>(u)); } \
  void* drv_entry_vvm_##N(G& g, VT<G> u) { return &graph::vertex_value(g, mkv<G>(u)); } \
  std::size_t drv_entry_deg_##N(const G& g, VT<const G> u) { return graph::degree(g, mkv<const G>(u)); } \
  std::size_t drv_entry_ideg_##N(const G& g, VT<const G> u) { return graph::in_degree(g, mkv<const G>(u)); } \
  ET<const G> drv_entry_eb_##N(const G& g, VT<const G> u) { return EH<const G>::out((*graph::edges(g, mkv<const G>(u)).begin()).value()); } \
  ET<const G> drv_entry_ee_##N(const G& g, VT<const G> u) { return EH<const G>::out((*graph::edges(g, mkv<const G>(u)).end()).value()); } \
  VT<const G> drv_entry_es_##N(const G& g, VT<const G> u) { return VH<const G>::out((*graph::edges(g, mkv<const G>(u)).begin()).source().value()); } \
  IT<const G> drv_entry_ib_##N(const G& g, VT<const G> u) { return IH<const G>::out((*graph::in_edges(g, mkv<const G>(u)).begin()).value()); } \
  IT<const G> drv_entry_ie_##N(const G& g, VT<const G> u) { return IH<const G>::out((*graph::in_edges(g, mkv<const G>(u)).end()).value()); } \
  VT<const G> drv_entry_is_##N(const G& g, VT<const G> u) { return VH<const G>::out((*graph::in_edges(g, mkv<const G>(u)).begin()).source().value()); } \
  std::size_t drv_entry_tid_##N(const G& g, VT<const G> u, ET<const G> e) { return graph::target_id(g, mke<const G>(e, u)); } \
  std::size_t drv_entry_sid_##N(const G& g, VT<const G> u, ET<const G> e) { return graph::source_id(g, mke<const G>(e, u)); } \
  std::size_t drv_entry_itid_##N(const G& g, VT<const G> u, IT<const G> e) { return graph::target_id(g, mki<const G>(e, u)); } \
  std::size_t drv_entry_isid_##N(const G& g, VT<const G> u, IT<const G> e) { return graph::source_id(g, mki<const G>(e, u)); } \
  VT<const G> drv_entry_tv_##N(const G& g, VT<const G> u, ET<const G> e) { return VH<const G>::out(graph::target(g, mke<const G>(e, u)).value()); } \
  VT<const G> drv_entry_sv_##N(const G& g, VT<const G> u, ET<const G> e) { return VH<const G>::out(graph::source(g, mke<const G>(e, u)).value()); } \
  VT<const G> drv_entry_itv_##N(const G& g, VT<const G> u, IT<const G> e) { return VH<const G>::out(graph::target(g, mki<const G>(e, u)).value()); } \
  VT<const G> drv_entry_isv_##N(const G& g, VT<const G> u, IT<const G> e) { return VH<const G>::out(graph::source(g, mki<const G>(e, u)).value()); } \
  const void* drv_entry_ev_##N(const G& g, VT<const G> u, ET<const G> e) { return &graph::edge_value(g, mke<const G>(e, u)); } \
  void* drv_entry_evm_##N(G& g, VT<G> u, ET<G> e) { return &graph::edge_value(g, mke<G>(e, u)); } \
  const void* drv_entry_iev_##N(const G& g, VT<const G> u, IT<const G> e) { return &graph::edge_value(g, mki<const G>(e, u)); } \
  void* drv_entry_ievm_##N(G& g, VT<G> u, IT<G> e) { return &graph::edge_value(g, mki<G>(e, u)); }
#define ALL(N, G) \
  const void* drv_entry_lvo_##N(VT<const G> u) { return obj<VD<const G>::storage_type>(u); } \
  const void* drv_entry_lvk_##N(VT<const G> u) { return ky<VD<const G>::storage_type>(u); } \
  const void* drv_entry_leo_##N(ET<const G> e) { return obj<ED<const G>::edge_storage_type>(e); } \
  const void* drv_entry_lek_##N(ET<const G> e) { return ky<ED<const G>::edge_storage_type>(e); } \
  const void* drv_entry_lio_##N(IT<const G> e) { return obj<ID<const G>::edge_storage_type>(e); } \
  const void* drv_entry_lik_##N(IT<const G> e) { return ky<ID<const G>::edge_storage_type>(e); } \
  std::size_t drv_entry_lt_##N(const G::edge_type* e) { return e->target_id(); } \
  std::size_t drv_entry_lit_##N(const G::in_edge_type* e) { return nbr(*e); } \
  const void* drv_entry_liv_##N(const G::in_edge_type* e) { return &e->value(); } \
  std::size_t drv_entry_n_##N(const G& g) { return graph::num_vertices(g); } \
  std::size_t drv_entry_m_##N(const G& g) { return graph::num_edges(g); } \
  bool drv_entry_has_##N(const G& g) { return graph::has_edges(g); } \
  bool drv_entry_contains_##N(const G& g, const G::vertex_id_type& u) { return g.contains_vertex(u); } \
  const void* drv_entry_at_##N(const G& g, const G::vertex_id_type& u) { return &g.vertex_at(u); } \
  void* drv_entry_atm_##N(G& g, const G::vertex_id_type& u) { return &g.vertex_at(u); } \
  void drv_entry_clear_##N(G& g) { g.clear(); } \
  const void* drv_entry_lo_##N(const G::vertex_type* v) { return &v->edges(); } \
  const void* drv_entry_li_##N(const G::vertex_type* v) { return &v->in_edges(); } \
  const void* drv_entry_lv_##N(const G::vertex_type* v) { return &v->value(); } \
  const void* drv_entry_le_##N(const G::edge_type* v) { return &v->value(); }
#define EACH(N, G) IDX(N, G) ALL(N, G)
extern "C" {
EACH(vov, Vov) EACH(vovi, Vovi) EACH(vol, Vol) EACH(vom, Vom) EACH(mov, Mov) EACH(mom, Mom) EACH(vovn, Vovn) EACH(voln, Voln) EACH(vofl, Vofl) EACH(vofln, Vofln)
}

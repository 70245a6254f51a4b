// undirected_adjacency_list: graph-level erasure, iteration, queries (the unlinking itself is judged in ual.cpp)
#include "ual.hpp"
template <class G> auto vd(G& g, typename std::remove_const_t<G>::vertex_id_type u) { return graph::vertex_t<G>(u); }
template <class G> auto cit(const G& g, typename G::vertex_id_type u, const E<G>* e) { return typename G::const_vertex_edge_iterator(g, u, e); }
template <class G> auto nit(G& g, typename G::vertex_id_type u, const E<G>* e) { return typename G::neighbor_iterator(it(g, u, e)); }
template <class G> auto cnit(G& g, typename G::vertex_id_type u, const E<G>* e) { return typename G::const_neighbor_iterator(it(g, u, e)); }
#define ALL(N, G) LAY(N, G) \
  void drv_v_e_##N(std::size_t t, std::size_t s, const void* e); \
  void drv_v_g_##N(const void* e); \
  void drv_v_n_##N(const void* v); \
  bool drv_entry_geq_##N(G& g, G::vertex_id_type u, const E<G>* e, G::vertex_id_type v, const E<G>* f) { return G::edge_iterator(g, vit(g, u), it(g, u, e)) == G::edge_iterator(g, vit(g, v), it(g, v, f)); } \
  bool drv_entry_gne_##N(G& g, G::vertex_id_type u, const E<G>* e, G::vertex_id_type v, const E<G>* f) { return G::edge_iterator(g, vit(g, u), it(g, u, e)) != G::edge_iterator(g, vit(g, v), it(g, v, f)); } \
  const void* drv_entry_ge_##N(G& g, G::vertex_id_type u, const E<G>* e) { return at2<G>(g.erase_edge(typename G::edge_iterator(g, vit(g, u), it(g, u, e)))); } \
  void drv_entry_es_##N(G& g, G::vertex_id_type u) { for (auto&& e : graph::edges(g, vd(g, u))) drv_v_e_##N(graph::target_id(g, e), graph::source_id(g, e), &*e.value()); } \
  void drv_entry_esc_##N(const G& g, G::vertex_id_type u) { for (auto&& e : graph::edges(g, vd(g, u))) drv_v_e_##N(graph::target_id(g, e), graph::source_id(g, e), &*e.value()); } \
  void drv_entry_esi_##N(G& g, G::vertex_id_type u) { for (auto&& e : graph::edges(g, u)) drv_v_e_##N(graph::target_id(g, e), graph::source_id(g, e), &*e.value()); } \
  void drv_entry_ie_##N(G& g, G::vertex_id_type u) { for (auto&& e : graph::in_edges(g, vd(g, u))) drv_v_e_##N(graph::target_id(g, e), graph::source_id(g, e), &*e.value()); } \
  void drv_entry_iec_##N(const G& g, G::vertex_id_type u) { for (auto&& e : graph::in_edges(g, vd(g, u))) drv_v_e_##N(graph::target_id(g, e), graph::source_id(g, e), &*e.value()); } \
  void drv_entry_ve_##N(G& g, V<G>* v, G::vertex_id_type u) { for (auto&& e : v->edges(g, u)) drv_v_g_##N(&e); } \
  void drv_entry_vec_##N(const G& g, const V<G>* v, G::vertex_id_type u) { for (auto&& e : v->edges(g, u)) drv_v_g_##N(&e); } \
  void drv_entry_gi_##N(G& g) { for (auto&& e : g.edges()) drv_v_g_##N(&e); } \
  void drv_entry_gic_##N(const G& g) { for (auto&& e : g.edges()) drv_v_g_##N(&e); } \
  void drv_entry_nb_##N(G& g, V<G>* v, G::vertex_id_type u) { for (auto&& w : v->neighbors(g, u)) drv_v_n_##N(&w); } \
  void drv_entry_nbc_##N(const G& g, const V<G>* v, G::vertex_id_type u) { for (auto&& w : v->neighbors(g, u)) drv_v_n_##N(&w); } \
  const void* drv_entry_nx_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = it(g, u, e); ++i; return at<G>(i); } \
  const void* drv_entry_nxp_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = it(g, u, e); auto j = i++; return &*j == e ? at<G>(i) : nullptr; } \
  const void* drv_entry_pv_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = it(g, u, e); --i; return at<G>(i); } \
  const void* drv_entry_pvp_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = it(g, u, e); auto j = i--; return &*j == e ? at<G>(i) : nullptr; } \
  const void* drv_entry_cnx_##N(const G& g, G::vertex_id_type u, const E<G>* e) { auto i = cit(g, u, e); ++i; return &*i; } \
  const void* drv_entry_cnxp_##N(const G& g, G::vertex_id_type u, const E<G>* e) { auto i = cit(g, u, e); auto j = i++; return &*j == e ? &*i : nullptr; } \
  const void* drv_entry_cpv_##N(const G& g, G::vertex_id_type u, const E<G>* e) { auto i = cit(g, u, e); --i; return &*i; } \
  const void* drv_entry_cpvp_##N(const G& g, G::vertex_id_type u, const E<G>* e) { auto i = cit(g, u, e); auto j = i--; return &*j == e ? &*i : nullptr; } \
  bool drv_entry_bnx_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); ++i; return i == nit(g, u, f); } \
  bool drv_entry_bnxp_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); i++; return i == nit(g, u, f); } \
  bool drv_entry_bnxo_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); return i++ == nit(g, u, f); } \
  bool drv_entry_bpv_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); --i; return i == nit(g, u, f); } \
  bool drv_entry_bpvp_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); i--; return i == nit(g, u, f); } \
  bool drv_entry_bpvo_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = nit(g, u, e); return i-- == nit(g, u, f); } \
  bool drv_entry_dnx_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); ++i; return i == cnit(g, u, f); } \
  bool drv_entry_dnxp_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); i++; return i == cnit(g, u, f); } \
  bool drv_entry_dnxo_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); return i++ == cnit(g, u, f); } \
  bool drv_entry_dpv_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); --i; return i == cnit(g, u, f); } \
  bool drv_entry_dpvp_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); i--; return i == cnit(g, u, f); } \
  bool drv_entry_dpvo_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { auto i = cnit(g, u, e); return i-- == cnit(g, u, f); } \
  void drv_entry_gip_##N(G& g) { auto r = g.edges(); for (auto i = r.begin(), e = r.end(); i != e; i++) drv_v_g_##N(&*i); } \
  void drv_entry_gipc_##N(const G& g) { auto r = g.edges(); for (auto i = r.begin(), e = r.end(); i != e; i++) drv_v_g_##N(&*i); } \
  const void* drv_entry_gio_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = typename G::edge_iterator(g, vit(g, u), it(g, u, e)); auto j = i++; return &*j; } \
  const void* drv_entry_gioc_##N(G& g, G::vertex_id_type u, const E<G>* e) { auto i = typename G::const_edge_iterator(g, vit(g, u), it(g, u, e)); auto j = i++; return &*j; } \
  bool drv_entry_eq_##N(G& g, G::vertex_id_type u, const E<G>* e, const E<G>* f) { return it(g, u, e) == it(g, u, f); } \
  std::size_t drv_entry_ov_##N(const G& g, const E<G>* e, G::vertex_id_type u) { return e->other_vertex_id(g, u); } \
  std::size_t drv_entry_ovi_##N(const G& g, const E<G>* e, std::size_t u) { return e->other_vertex_id(g, g.begin() + u); } \
  std::size_t drv_entry_ow_##N(G& g, E<G>* e, G::vertex_id_type u) { return e->other_vertex(g, u) - g.begin(); } \
  std::size_t drv_entry_owc_##N(const G& g, const E<G>* e, G::vertex_id_type u) { return e->other_vertex(g, u) - g.begin(); } \
  std::size_t drv_entry_owi_##N(G& g, E<G>* e, std::size_t u) { return e->other_vertex(g, g.begin() + u) - g.begin(); } \
  std::size_t drv_entry_src_##N(G& g, E<G>* e) { return e->source(g) - g.begin(); } \
  std::size_t drv_entry_tgt_##N(G& g, E<G>* e) { return e->target(g) - g.begin(); } \
  std::size_t drv_entry_srcc_##N(const G& g, const E<G>* e) { return e->source(g) - g.begin(); } \
  std::size_t drv_entry_tgtc_##N(const G& g, const E<G>* e) { return e->target(g) - g.begin(); } \
  std::size_t drv_entry_id1_##N(const G& g, const E<G>* e) { return e->edge_id(g).first; } \
  std::size_t drv_entry_id2_##N(const G& g, const E<G>* e) { return e->edge_id(g).second; } \
  std::size_t drv_entry_own_##N(const E<G>* e) { return e->list_owner_id(); } \
  std::size_t drv_entry_ltg_##N(const E<G>* e) { return e->list_target_id(); } \
  std::size_t drv_entry_ne_##N(const G& g) { return graph::num_edges(g); } \
  std::size_t drv_entry_nv_##N(const G& g) { return graph::num_vertices(g); } \
  bool drv_entry_he_##N(const G& g) { return graph::has_edges(g); } \
  bool drv_entry_hem_##N(const G& g) { return g.has_edge(); } \
  std::size_t drv_entry_dg_##N(G& g, G::vertex_id_type u) { return graph::degree(g, vd(g, u)); } \
  std::size_t drv_entry_dgc_##N(const G& g, G::vertex_id_type u) { return graph::degree(g, vd(g, u)); } \
  std::size_t drv_entry_ns_##N(const G& g, const V<G>* v) { return v->neighbors_size(g); } \
  std::size_t drv_entry_fv_##N(G& g, G::vertex_id_type u) { return (*graph::find_vertex(g, u)).vertex_id(); } \
  std::size_t drv_entry_fvc_##N(const G& g, G::vertex_id_type u) { return (*graph::find_vertex(g, u)).vertex_id(); } \
  std::size_t drv_entry_tf_##N(G& g, G::vertex_id_type u) { return g.try_find_vertex(u) - g.begin(); } \
  std::size_t drv_entry_tfc_##N(const G& g, G::vertex_id_type u) { return g.try_find_vertex(u) - g.begin(); }
#define VAL(N, G) \
  const void* drv_entry_lev_##N(const E<G>* e) { return &e->value(); } \
  const void* drv_entry_lvv_##N(const V<G>* v) { return &v->value(); } \
  const void* drv_entry_ev_##N(G& g, G::vertex_id_type u, const E<G>* e) { return &graph::edge_value(g, graph::edge_t<G>(it(g, u, e), vd(g, u))); } \
  const void* drv_entry_evc_##N(const G& g, G::vertex_id_type u, graph::edge_t<const G>* e) { return &graph::edge_value(g, *e); } \
  const void* drv_entry_vv_##N(G& g, G::vertex_id_type u) { return &graph::vertex_value(g, vd(g, u)); } \
  const void* drv_entry_vvc_##N(const G& g, G::vertex_id_type u) { return &graph::vertex_value(g, vd(g, u)); }
extern "C" {
ALL(d, Gd) ALL(n, Gn) ALL(v, Gv)
VAL(d, Gd) VAL(n, Gn)
const void* drv_entry_gvl_d(Gd& g) { return &graph::graph_value(g); }
const void* drv_entry_gvlc_d(const Gd& g) { return &graph::graph_value(g); }
const void* drv_entry_lgv_d(const Gd& g) { return &g.graph_value(); }
}

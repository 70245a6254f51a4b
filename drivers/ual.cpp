// undirected_adjacency_list: creation and erasure of edges and vertices
#include "ual.hpp"
#define VAL(N, G) \
  void drv_entry_rsv_##N(G& g, std::size_t n, const int& x) { g.resize_vertices(n, x); } \
  std::size_t drv_entry_cv_##N(G& g, const int& x) { return static_cast<std::size_t>(g.create_vertex(x) - g.begin()); } \
  std::size_t drv_entry_cvm_##N(G& g, int&& x) { return static_cast<std::size_t>(g.create_vertex(std::move(x)) - g.begin()); } \
  const void* drv_entry_lev_##N(const E<G>* e) { return &e->value(); } \
  const void* drv_entry_lvv_##N(const V<G>* v) { return &v->value(); } \
  const void* drv_entry_mkid_##N(G& g, G::vertex_id_type u, G::vertex_id_type v, const long& x) { return at<G>(g.create_edge(u, v, x)); } \
  const void* drv_entry_mkidm_##N(G& g, G::vertex_id_type u, G::vertex_id_type v, long&& x) { return at<G>(g.create_edge(u, v, std::move(x))); } \
  const void* drv_entry_mkit_##N(G& g, std::size_t u, std::size_t v, const long& x) { return at<G>(g.create_edge(vit(g, u), vit(g, v), x)); } \
  const void* drv_entry_mkitm_##N(G& g, std::size_t u, std::size_t v, long&& x) { return at<G>(g.create_edge(vit(g, u), vit(g, v), std::move(x))); }
#define ALL(N, G) LAY(N, G) \
  const void* drv_entry_mkid0_##N(G& g, G::vertex_id_type u, G::vertex_id_type v) { return at<G>(g.create_edge(u, v)); } \
  const void* drv_entry_mkit0_##N(G& g, std::size_t u, std::size_t v) { return at<G>(g.create_edge(vit(g, u), vit(g, v))); } \
  const void* drv_entry_er_##N(G& g, V<G>* u, G::vertex_id_type uid, const E<G>* e) { return at<G>(u->erase_edge(g, it(g, uid, e))); } \
  const void* drv_entry_err_##N(G& g, V<G>* u, G::vertex_id_type uid, const E<G>* e, const E<G>* f) { return at<G>(u->erase_edge(g, it(g, uid, e), it(g, uid, f))); } \
  void drv_entry_rs_##N(G& g, std::size_t n) { g.resize_vertices(n); } \
  std::size_t drv_entry_cv0_##N(G& g) { return static_cast<std::size_t>(g.create_vertex() - g.begin()); } \
  void drv_entry_ce_##N(G& g, V<G>* u) { u->clear_edges(g); } \
  void drv_entry_clear_##N(G& g) { g.clear(); }
extern "C" {
ALL(d, Gd) ALL(n, Gn) ALL(v, Gv) VAL(d, Gd) VAL(n, Gn)
}

// shared by the undirected_adjacency_list drivers
#pragma once
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
namespace gc = graph::container;
using Id = std::uint32_t;
using Gd = gc::undirected_adjacency_list<long, int, short>;      // with a graph value
using Gn = gc::undirected_adjacency_list<long, int, void, int>;  // without, signed ids
using Gv = gc::undirected_adjacency_list<void, void, void>;      // no values at all
template <class G> using IN = gc::ual_vertex_edge_list_link<typename G::edge_type::edge_value_type, typename G::vertex_type::vertex_value_type, typename G::graph_value_type, typename G::vertex_id_type, std::vector, std::allocator<char>, gc::inward_list>;
template <class G> using OUT = gc::ual_vertex_edge_list_link<typename G::edge_type::edge_value_type, typename G::vertex_type::vertex_value_type, typename G::graph_value_type, typename G::vertex_id_type, std::vector, std::allocator<char>, gc::outward_list>;
template <class G> using E = typename G::edge_type;
template <class G> using V = typename G::vertex_type;
template <class G> const E<G>* at(const typename G::vertex_edge_iterator& i) { return &*i; }
template <class G> const E<G>* at2(const typename G::edge_iterator& i) { return &*i; }
template <class G> auto it(G& g, typename G::vertex_id_type u, const E<G>* e) { return typename G::vertex_edge_iterator(g, u, e); }
template <class G> auto vit(G& g, std::size_t u) { return g.begin() + u; }
#define LAY(N, G) \
  std::size_t drv_entry_lii_##N(const E<G>* e) { return static_cast<const IN<G>*>(e)->vertex_id(); } \
  const void* drv_entry_lin_##N(const E<G>* e) { return static_cast<const IN<G>*>(e)->next(); } \
  const void* drv_entry_lip_##N(const E<G>* e) { return static_cast<const IN<G>*>(e)->prev(); } \
  std::size_t drv_entry_loi_##N(const E<G>* e) { return static_cast<const OUT<G>*>(e)->vertex_id(); } \
  const void* drv_entry_lon_##N(const E<G>* e) { return static_cast<const OUT<G>*>(e)->next(); } \
  const void* drv_entry_lop_##N(const E<G>* e) { return static_cast<const OUT<G>*>(e)->prev(); } \
  std::size_t drv_entry_lvn_##N(const V<G>* v) { return v->num_edges(); } \
  const void* drv_entry_lvt_##N(const V<G>* v, G& g) { return &v->edge_back(g); } \
  const void* drv_entry_lvh_##N(const V<G>* v, G& g) { return &v->edge_front(g); } \
  const void* drv_entry_lg_##N(G& g) { return &g.vertices(); } \
  std::size_t drv_entry_lm_##N(const G& g) { return g.num_edges(); } \
  std::size_t drv_entry_lsz_##N() { return sizeof(V<G>); }

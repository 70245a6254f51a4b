// bidirectional traits whose incoming edges have a type of their own
#pragma once
#include <graph/container/dynamic_graph.hpp>
#include <forward_list>
#include <list>
#include <vector>
template <class EV, class VV, class GV, class VId, bool B, template <class...> class EC>
struct split_traits {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, split_traits>;
  using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, split_traits>;
  using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, split_traits>;
  using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, split_traits>;
  using edges_type    = EC<edge_type>;
  using in_edges_type = EC<in_edge_type>;
  using vertices_type = std::vector<vertex_type>;
};
template <class T> using plain_vector = std::vector<T>;
template <class T> using plain_list = std::list<T>;
template <class EV, class VV, class GV, class VId, bool B> using vovn_traits = split_traits<EV, VV, GV, VId, B, plain_vector>;
template <class EV, class VV, class GV, class VId, bool B> using voln_traits = split_traits<EV, VV, GV, VId, B, plain_list>;
template <class T> using plain_forward_list = std::forward_list<T>;
template <class EV, class VV, class GV, class VId, bool B> using vofln_traits = split_traits<EV, VV, GV, VId, B, plain_forward_list>;

#include "ograph.hpp"
#include "ovisitor.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using V  = std::vector<int>;
using F  = std::vector<double>;
using P  = std::vector<og::id_t>;
using S  = std::vector<og::id_t>;
extern "C" {
void drv_entry_dij_multi(const og::G& g, const S& s, V& d, P& p, og::VisitorId& v) {
  graph::dijkstra_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
}
void drv_entry_dij_single(const og::G& g, og::id_t s, V& d, P& p, og::VisitorId& v) {
  graph::dijkstra_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
}
void drv_entry_dij_multi_vd(const og::G& g, const S& s, V& d, P& p, og::VisitorVD& v) {
  graph::dijkstra_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
}
void drv_entry_dij_dist_multi(const og::G& g, const S& s, V& d, og::VisitorId& v) {
  graph::dijkstra_shortest_distances(g, s, d, og::Weight{}, v, og::Compare{}, og::Combine{});
}
void drv_entry_dij_dist_single(const og::G& g, og::id_t s, V& d, og::VisitorId& v) {
  graph::dijkstra_shortest_distances(g, s, d, og::Weight{}, v, og::Compare{}, og::Combine{});
}
void drv_entry_dij_default(const og::G& g, og::id_t s, V& d, P& p) { graph::dijkstra_shortest_paths(g, s, d, p, og::Weight{}); }

bool drv_entry_bf_multi(const og::G& g, const S& s, V& d, P& p, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_single(const og::G& g, og::id_t s, V& d, P& p, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_multi_vd(const og::G& g, const S& s, V& d, P& p, og::VisitorVD& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p, og::Weight{}, v, og::Compare{}, og::Combine{});
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_dist_multi(const og::G& g, const S& s, V& d, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_distances(g, s, d, og::Weight{}, v, og::Compare{}, og::Combine{});
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_dist_single(const og::G& g, og::id_t s, V& d, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_distances(g, s, d, og::Weight{}, v, og::Compare{}, og::Combine{});
  if (r) out = *r;
  return r.has_value();
}
void drv_entry_dij_multi_fp(const og::G& g, const S& s, F& d, P& p, og::VisitorId& v) {
  graph::dijkstra_shortest_paths(g, s, d, p, og::WeightF{}, v, og::CompareF{}, og::CombineF{});
}
void drv_entry_dij_dist_single_fp(const og::G& g, og::id_t s, F& d, og::VisitorId& v) {
  graph::dijkstra_shortest_distances(g, s, d, og::WeightF{}, v, og::CompareF{}, og::CombineF{});
}
void drv_entry_dij_default_fp(const og::G& g, og::id_t s, F& d, P& p) { graph::dijkstra_shortest_paths(g, s, d, p, og::WeightF{}); }
bool drv_entry_bf_single_fp(const og::G& g, og::id_t s, F& d, P& p, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p, og::WeightF{}, v, og::CompareF{}, og::CombineF{});
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_dist_multi_fp(const og::G& g, const S& s, F& d, og::VisitorId& v, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_distances(g, s, d, og::WeightF{}, v, og::CompareF{}, og::CombineF{});
  if (r) out = *r;
  return r.has_value();
}
void drv_entry_dij_multi_none(const og::G& g, const S& s, V& d, P& p) { graph::dijkstra_shortest_paths(g, s, d, p); }
void drv_entry_dij_single_none(const og::G& g, og::id_t s, V& d, P& p) { graph::dijkstra_shortest_paths(g, s, d, p); }
void drv_entry_dij_dist_multi_none(const og::G& g, const S& s, V& d) { graph::dijkstra_shortest_distances(g, s, d); }
void drv_entry_dij_dist_single_none(const og::G& g, og::id_t s, V& d) { graph::dijkstra_shortest_distances(g, s, d); }
bool drv_entry_bf_multi_none(const og::G& g, const S& s, V& d, P& p, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p);
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_single_none(const og::G& g, og::id_t s, V& d, P& p, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_paths(g, s, d, p);
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_dist_multi_none(const og::G& g, const S& s, V& d, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_distances(g, s, d);
  if (r) out = *r;
  return r.has_value();
}
bool drv_entry_bf_dist_single_none(const og::G& g, og::id_t s, V& d, og::id_t& out) {
  auto r = graph::bellman_ford_shortest_distances(g, s, d);
  if (r) out = *r;
  return r.has_value();
}
void drv_entry_bf_cycle(const og::G& g, const P& p, bool has, og::id_t c) {
  std::optional<og::id_t> o;
  if (has) o = c;
  graph::find_negative_cycle(g, p, o, og::OutIt{});
}
void drv_entry_init1(V& d) { graph::init_shortest_paths(d); }
void drv_entry_init2(V& d, P& p) { graph::init_shortest_paths(d, p); }
}

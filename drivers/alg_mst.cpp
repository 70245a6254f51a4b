#include "ograph.hpp"
#include <graph/algorithm/mst.hpp>
struct E { using source_id_type = og::id_t; using target_id_type = og::id_t; using value_type = int; og::id_t source_id, target_id; int value; };
using EL = std::vector<E>;
extern "C" {
void drv_entry_kruskal(const EL& e, EL& t, int& w, std::size_t& n) { auto [a, b] = graph::kruskal(e, t, og::Compare{}); w = a; n = b; }
void drv_entry_kruskal_default(const EL& e, EL& t, int& w, std::size_t& n) { auto [a, b] = graph::kruskal(e, t); w = a; n = b; }
void drv_entry_inplace_kruskal(EL& e, EL& t, int& w, std::size_t& n) { auto [a, b] = graph::inplace_kruskal(e, t, og::Compare{}); w = a; n = b; }
void drv_entry_inplace_kruskal_default(EL& e, EL& t, int& w, std::size_t& n) { auto [a, b] = graph::inplace_kruskal(e, t); w = a; n = b; }
int drv_entry_prim(const og::G& g, std::vector<og::id_t>& p, std::vector<int>& w, int init, og::id_t seed) {
  return graph::prim(g, p, w, og::Compare{}, init, og::Weight{}, seed);
}
int drv_entry_prim_default(const og::G& g, std::vector<og::id_t>& p, std::vector<int>& w, og::id_t seed) { return graph::prim(g, p, w, seed); }
og::id_t drv_entry_ds_find(graph::disjoint_vector<og::id_t>& s, og::id_t v) { return graph::disjoint_find(s, v); }
void     drv_entry_ds_union(graph::disjoint_vector<og::id_t>& s, og::id_t u, og::id_t v) { graph::disjoint_union(s, u, v); }
bool     drv_entry_ds_union_find(graph::disjoint_vector<og::id_t>& s, og::id_t u, og::id_t v) { return graph::disjoint_union_find(s, u, v); }
}

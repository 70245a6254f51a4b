#include "ograph.hpp"
#include <random>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
extern "C" {
void drv_v_jaccard(std::uint32_t u, std::uint32_t v, std::size_t e, std::size_t eu, double val);
std::size_t drv_entry_mis(const og::G& g, og::id_t seed) { return graph::maximal_independent_set(g, og::OutIt{}, seed); }
std::size_t drv_entry_tc(const og::G& g) { return graph::triangle_count(g); }
void drv_entry_jaccard(const og::G& g) {
  graph::jaccard_coefficient(g, [](og::id_t u, og::id_t v, const og::ED& uv, double x) { drv_v_jaccard(u, v, uv.value(), uv.source().value(), x); });
}
void drv_entry_lp(const og::G& g, std::vector<int>& l, std::mt19937& r, std::size_t n) { graph::label_propagation(g, l, r, n); }
void drv_entry_lp_empty(const og::G& g, std::vector<int>& l, int e, std::mt19937& r, std::size_t n) { graph::label_propagation(g, l, e, r, n); }
}

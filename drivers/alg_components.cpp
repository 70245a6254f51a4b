#include "ograph.hpp"
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
using C = std::vector<og::id_t>;
extern "C" {
void        drv_entry_kosaraju_t(const og::G& g, const og::GT& t, C& c) { graph::kosaraju(g, t, c); }
void        drv_entry_kosaraju_b(const og::GB& g, C& c) { graph::kosaraju(g, c); }
std::size_t drv_entry_cc(const og::G& g, C& c) { return graph::connected_components(g, c); }
void        drv_entry_afforest(const og::G& g, C& c, std::size_t r) { graph::afforest(g, c, r); }
void        drv_entry_afforest_t(const og::G& g, const og::GT& t, C& c, std::size_t r) { graph::afforest(g, t, c, r); }
void        drv_entry_artic(const og::G& g) { graph::articulation_points(g, og::OutIt{}); }
void        drv_entry_bicon(const og::G& g, std::vector<std::vector<og::id_t>>& c) { graph::biconnected_components(g, c); }
}

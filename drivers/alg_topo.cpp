#include "ograph.hpp"
#include <graph/algorithm/topological_sort.hpp>
extern "C" {
bool drv_entry_topo_all(const og::G& g) { return graph::topological_sort(g, og::OutIt{}); }
bool drv_entry_topo_multi(const og::G& g, const std::vector<og::id_t>& s) { return graph::topological_sort(g, s, og::OutIt{}); }
bool drv_entry_topo_single(const og::G& g, og::id_t s) { return graph::topological_sort(g, s, og::OutIt{}); }
}

#include "ograph.hpp"
#include "ovisitor.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
extern "C" {
void drv_entry_bfs_multi(const og::G& g, const std::vector<og::id_t>& s, og::VisitorId& v) { graph::breadth_first_search(g, s, v); }
void drv_entry_bfs_single(const og::G& g, og::id_t s, og::VisitorId& v) { graph::breadth_first_search(g, s, v); }
void drv_entry_bfs_multi_vd(const og::G& g, const std::vector<og::id_t>& s, og::VisitorVD& v) { graph::breadth_first_search(g, s, v); }
void drv_entry_dfs(const og::G& g, og::id_t s, og::VisitorId& v) { graph::depth_first_search(g, s, v); }
void drv_entry_dfs_vd(const og::G& g, og::id_t s, og::VisitorVD& v) { graph::depth_first_search(g, s, v); }
}

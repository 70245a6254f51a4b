M=[]
def bug(n,*e,**k): M.append(dict(prop='A17',name='gl '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop='A17',name='gl '+n,kind='refactor',edits=list(e),**k))
Q='  std::queue<id_type> Q;'
bug('static queue bfs',('algorithm/breadth_first_search.hpp',Q,'  static std::queue<id_type> Q;'))
bug('thread_local queue bfs',('algorithm/breadth_first_search.hpp',Q,'  thread_local std::queue<id_type> Q;'))
bug('global scratch',('algorithm/tc.hpp','namespace graph {','namespace graph {\ninline std::size_t tc_scratch = 0;'),('algorithm/tc.hpp','              ++triangles;','              ++tc_scratch, ++triangles;'))
bug('recursive find',('algorithm/mst.hpp','  // Phase 2: Path compression','  if (subsets[vtx].id != vtx) return subsets[vtx].id = disjoint_find(subsets, subsets[vtx].id);\n  // Phase 2: Path compression'))
bug('null predecessors written',('algorithm/dijkstra_shortest_paths.hpp','      if constexpr (!is_same_v<Predecessors, _null_range_type>) {','      if constexpr (is_same_v<std::remove_cvref_t<Predecessors>, _null_range_type>) { predecessor.resize(num_vertices(g)); }\n      if constexpr (!is_same_v<Predecessors, _null_range_type>) {'))
bug('mutual recursion topo',('views/topological_sort.hpp','        if (!visited_.is_visited(target_vid)) {\n          enter(target_v);','        if (!visited_.is_visited(target_vid)) {\n          dfs_visit(g, target_v, detect_cycles);'))
ref('static constexpr',('algorithm/breadth_first_search.hpp',Q,'  static constexpr int zero = 0; (void)zero;\n'+Q))
ref('helper lambda',('algorithm/breadth_first_search.hpp',Q,'  auto twice = [](auto x) { return x + x; }; (void)twice(1);\n'+Q))

K='algorithm/connected_components.hpp'
M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
P='A07'
bug(P,'kos push done after children',(K,"        stack.push({uid, true});\n\n        // Push all unvisited neighbors onto stack\n        // They will be processed (and finish) before this vertex\n",""),(K,"            stack.push({vid, false});\n          }\n        }","            stack.push({vid, false});\n          }\n        }\n        stack.push({uid, true});"))
bug(P,'kos forward order',(K,"  std::ranges::reverse_view reverse{order};","  auto& reverse = order;"))
bug(P,'kos mark at push',(K,"          if (!visited[vid]) {\n            stack.push({vid, false});","          if (!visited[vid]) {\n            visited[vid] = vid != 0;\n            stack.push({vid, false});"))
bug(P,'kos no cancel',(K,"          dfs.cancel(graph::views::cancel_search::cancel_branch);",""))
bug(P,'kos cancel all',(K,"cancel_search::cancel_branch","cancel_search::cancel_all"))
bug(P,'kos g instead of transpose',(K,"views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);","views::vertices_dfs_view<std::remove_reference_t<G>> dfs(g, uid);"))
bug(P,'kos cid in branch',(K,"      ++cid; // Move to next SCC","      if (uid != order.front()) ++cid; // Move to next SCC"))
bug(P,'kosb no push',(K,"            dfs_stack.push(src);","            if (src > uid) dfs_stack.push(src);"))
bug(P,'kosb out edges',(K,"        for (auto&& ie : adj_list::in_edges(g_ref, v)) {\n          auto src = adj_list::source_id(g_ref, ie);","        for (auto&& ie : adj_list::edges(g_ref, v)) {\n          auto src = adj_list::target_id(g_ref, ie);"))
bug(P,'cc break',(K,"        if (component[wid] == std::numeric_limits<CT>::max()) {","        if (component[wid] < cid) break;\n        if (component[wid] == std::numeric_limits<CT>::max()) {"))
bug(P,'cc no root assign',(K,"    component[uid] = cid;\n    S.push(uid);","    S.push(uid);"))
bug(P,'cc return',(K,"  return cid;\n","  return cid + (N == 0);\n"))
bug(P,'cc skip zero',(K,"for (vertex_id_t<G> uid = 0; uid < N; ++uid) {\n    if (component[uid] <","for (vertex_id_t<G> uid = 0; uid + 1 < N; ++uid) {\n    if (component[uid] <"))
bug(P,'aff advance +1',(K,"      std::advance(it, neighbor_rounds); // Skip already-processed neighbors","      std::advance(it, neighbor_rounds + 1); // Skip already-processed neighbors"))
bug(P,'aff no last compress',(K,"  compress(component); // Final compression for query efficiency",""))
bug(P,'aff link low high',(K,"        component[high] = low; // Link high root to low","        component[low] = high; // Link high root to low"))
bug(P,'aff link no root test',(K,"    if (p_high == high) {\n      // high is a root","    if (p_high >= low) {\n      // high is a root"),(K,"      if (component[high] == high) {","      if (true) {"))
bug(P,'aff skip neighbours of c',(K,"    if (component[uid] == c) {\n      continue; // Skip vertices in largest component","    if (component[uid] <= c) {\n      continue; // Skip vertices in largest component"))
bug(P,'aff_t skip incoming',(K,"    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {\n","    if (neighbor_rounds < edges(g_t, u).size()) for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {\n"))
bug(P,'aff guard',(K,"    if (neighbor_rounds < edges(g, uid).size()) {","    if (neighbor_rounds + 1 < edges(g, uid).size()) {"))
bug(P,'aff compress parent only',(K,"      component[i] = component[component[i]]; // Point to grandparent","      component[component[i]] = component[i]; // Point to grandparent"))
bug(P,'aff compress from 1 ends early',(K,"  for (size_t i = 0; i < component.size(); ++i) {\n    if (component[i] !=","  for (size_t i = component.size(); i-- > 0;) {\n    if (component[i] !="))
ref(P,'kos range for',(K,"  for (auto& uid : reverse) {\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use","  for (auto rit = order.rbegin(); rit != order.rend(); ++rit) {\n    auto uid = *rit;\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use"))
ref(P,'kos ranges reverse',(K,"  for (auto& uid : reverse) {\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use","  for (auto uid : order | std::views::reverse) {\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use"))
ref(P,'kos index reverse',(K,"  for (auto& uid : reverse) {\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use","  for (std::size_t k = order.size(); k > 0; --k) {\n    auto uid = order[k - 1];\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use"))
ref(P,'kos index reverse 2',(K,"  for (auto& uid : reverse) {\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use","  for (std::size_t k = order.size(); k-- > 0;) {\n    auto uid = order[k];\n    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use"))
ref(P,'kos continue',(K,"    if (component[uid] == std::numeric_limits<CT>::max()) {\n      // Use DFS view","    if (component[uid] != std::numeric_limits<CT>::max()) continue;\n    {\n      // Use DFS view"))
ref(P,'kos helper start',(K,"    if (!visited[uid]) {\n      dfs_finish_order(uid);\n    }","    if (visited[uid]) continue;\n    dfs_finish_order(uid);"))
ref(P,'kos swap mark/push',(K,"        visited[uid] = true;\n\n        // Mark that we'll process this vertex after its children\n        // Re-push with children_visited=true to record finish time later\n        stack.push({uid, true});","        stack.push({uid, true});\n        visited[uid] = true;\n"))
ref(P,'kos vector stack',(K,"    std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)\n    stack.push({start, false});","    std::vector<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)\n    stack.emplace_back(start, false);"),(K,"      auto [uid, children_visited] = stack.top();\n      stack.pop();\n\n      if (children_visited) {\n        // All","      auto [uid, children_visited] = stack.back();\n      stack.pop_back();\n\n      if (children_visited) {\n        // All"),(K,"        stack.push({uid, true});\n\n        // Push all","        stack.emplace_back(uid, true);\n\n        // Push all"),(K,"            stack.push({vid, false});","            stack.emplace_back(vid, false);"))
ref(P,'kosb assign after push',(K,"      dfs_stack.push(uid);\n      component[uid] = cid;","      component[uid] = cid;\n      dfs_stack.push(uid);"))
ref(P,'cc while roots',(K,"      // Visit all unvisited neighbors and add to same component\n      for (auto&& einfo : views::basic_incidence(g, vid)) {\n        auto wid = einfo.target_id;","      for (auto&& uv : edges(g, *find_vertex(g, vid))) {\n        auto wid = target_id(g, uv);"))
ref(P,'cc no isolated special case',(K,"    // Handle isolated vertices (no edges)\n    if (!num_edges(g, uid)) {\n      component[uid] = cid++;\n      continue;\n    }\n",""))
ref(P,'cc helper lambda',(K,"    // Start DFS for new component\n    component[uid] = cid;\n    S.push(uid);","    auto assign = [&](auto w) { component[w] = cid; S.push(w); };\n    assign(uid);"),(K,"          component[wid] = cid; // Same component as parent\n          S.push(wid);","          assign(wid);"))
ref(P,'aff min max',(K,"    vertex_id_t low    = p1 + (p2 - high); // Lower ID (clever: avoids branch)","    vertex_id_t low    = std::min(p1, p2);"))
ref(P,'aff drop unreachable',(K,"      if (component[high] == high) {\n        component[high] = low; // Link high root to low\n        break;\n      } else {\n        // Race condition: another thread changed it; retry with low\n        high = low;\n      }","      component[high] = low;\n      break;"))
ref(P,'aff swap',(K,"    vertex_id_t high   = std::max(p1, p2); // Higher ID\n    vertex_id_t low    = p1 + (p2 - high); // Lower ID (clever: avoids branch)","    vertex_id_t high = p1, low = p2;\n    if (high < low) std::swap(high, low);"))
ref(P,'aff next',(K,"        auto it = edges(g, u).begin();\n        std::advance(it, r); // Get r-th neighbor","        auto it = std::next(edges(g, u).begin(), r);"))
ref(P,'aff compress unconditional',(K,"    if (component[i] != component[component[i]]) {\n      component[i] = component[component[i]]; // Point to grandparent\n    }","    component[i] = component[component[i]];"))
ref(P,'aff helper',(K,"  if (N == 0) {\n    return;\n  }\n  // Initialize: each vertex is its own component\n  std::iota(component.begin(), component.end(), 0);\n\n  // Phase 1: Neighbor sampling - link","  if (N == 0) {\n    return;\n  }\n  { size_t k = 0; for (auto& x : component) x = k++; }\n\n  // Phase 1: Neighbor sampling - link"))
ref(P,'aff remaining while',(K,"      for (; it != edges(g, vinfo.vertex).end(); ++it) {\n        link(","      auto last = edges(g, vinfo.vertex).end();\n      while (it != last) {\n        auto cur = it; ++it;\n        link("),(K,"static_cast<vertex_id_t<G>>(target_id(g, *it)), component);\n      }\n    }\n  }\n\n  compress(component); // Final compression for","static_cast<vertex_id_t<G>>(target_id(g, *cur)), component);\n      }\n    }\n  }\n\n  compress(component); // Final compression for"))

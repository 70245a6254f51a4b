B='algorithm/breadth_first_search.hpp'; D='algorithm/depth_first_search.hpp'
M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))

bug('A01','bfs mark moved to pop',(B,"        visited[vid] = true; // Mark as visited before queueing\n",""),(B,"    Q.pop();\n","    Q.pop();\n    visited[uid] = true;\n"))
ref('A01','bfs comment',(B,"    // Explore all edges from current vertex","    // hello\n    (void)0;\n    // Process all neighbors"))
ref('A01','bfs push before mark',(B,"        visited[vid] = true; // Mark as visited before queueing\n",""),(B,"        Q.push(vid);","        Q.push(vid); visited[vid]=true;"))
ref('A01','bfs deque',(B,"std::queue<id_type> Q; ","std::deque<id_type> Q; "),(B,"    Q.push(uid);","    Q.push_back(uid);"),(B,"        Q.push(vid);","        Q.push_back(vid);"),(B,"    Q.pop();","    Q.pop_front();"))
ref('A01','bfs uint8 marks',(B,"std::vector<bool>   visited(num_vertices(g), false);","std::vector<uint8_t>   visited(num_vertices(g), 0);"),(B,"        visited[vid] = true;","        visited[vid] = 1;"),(B,"    visited[uid] = true;","    visited[uid] = 1;"))
ref('A01','bfs lambda discover',(B,"  // Main BFS loop: process","  auto discover = [&](id_type w) {\n    visited[w] = true;\n        if constexpr (has_on_discover_vertex<G, Visitor>) {\n          visitor.on_discover_vertex(g, *find_vertex(g, w));\n        } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {\n          visitor.on_discover_vertex(g, w);\n        }\n        Q.push(w);\n  };\n  // Main BFS loop: process"),
 (B,"""        visited[vid] = true; // Mark as visited before queueing
        if constexpr (has_on_discover_vertex<G, Visitor>) {
          visitor.on_discover_vertex(g, *find_vertex(g, vid));
        } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
          visitor.on_discover_vertex(g, vid);
        }
        Q.push(vid); // Add to queue for later examination
""","        discover(vid);\n"))
ref('A01','bfs infinite loop form',(B,"  while (!Q.empty()) {","  for (;;) {\n    if (Q.empty()) break;"))
ref('A01','bfs size form',(B,"  while (!Q.empty()) {","  while (Q.size() > 0) {"))
ref('A01','bfs edges loop',(B,"    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    auto&& er = adj_list::edges(g, *find_vertex(g, uid)); for (auto it = std::ranges::begin(er); it != std::ranges::end(er); ++it) { auto&& uv = *it; auto vid = adj_list::target_id(g, uv);"))
ref('A01','bfs iterator while loop',(B,"    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    auto inc = views::incidence(g, *find_vertex(g, uid)); auto it = std::ranges::begin(inc); while (it != std::ranges::end(inc)) { auto&& [vid, uv] = *it; ++it;"))
ref('A01','bfs for_each',(B,"    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    std::ranges::for_each(views::incidence(g, *find_vertex(g, uid)), [&](auto&& info) { auto&& [vid, uv] = info;"),(B,"        Q.push(vid); // Add to queue for later examination\n      }\n    }","        Q.push(vid); // Add to queue for later examination\n      }\n    });"))
ref('A01','bfs source index loop',(B,"  for (auto uid : sources) {","  for (auto sit = std::ranges::begin(sources); sit != std::ranges::end(sources); ++sit) { auto uid = *sit;"))
ref('A01','bfs do while',(B,"  while (!Q.empty()) {","  if (!Q.empty()) do {"),(B,"""      visitor.on_finish_vertex(g, uid);
    }
  }
""","""      visitor.on_finish_vertex(g, uid);
    }
  } while (!Q.empty());
"""))
bug('A01','bfs break on visited',(B,"      if (!visited[vid]) {","      if (visited[vid] && vid==uid) break;\n      if (!visited[vid]) {"))
bug('A01','bfs source not marked',(B,"    visited[uid] = true;","    visited[uid] = uid != 0;"))
ref('A01','bfs continue style',(B,"      if (!visited[vid]) {\n        visited[vid] = true;","      if (visited[vid]) continue;\n      {\n        visited[vid] = true;"))
bug('A02','dfs black->gray',(D,"color[frame.vertex_id] = Color::Black;","color[frame.vertex_id] = Color::Gray;"))
bug('A02','dfs gray test',(D,"} else if (color[vid] == Color::Gray) {","} else if (color[vid] == Color::Gray && vid != frame.vertex_id) {"))
ref('A02','dfs swap branches',(D,"    } else if (color[vid] == Color::Gray) {\n      // Back edge: target is an ancestor still being processed (cycle)\n      if constexpr (has_on_back_edge<G, Visitor>) {\n        visitor.on_back_edge(g, uv);\n      }","    } else if (color[vid] != Color::Black) {\n      // Back edge: target is an ancestor still being processed (cycle)\n      if constexpr (has_on_back_edge<G, Visitor>) {\n        visitor.on_back_edge(g, uv);\n      }"))

"""Searches and orderings: rewrites of the loops, and subtle breakage."""
B='algorithm/breadth_first_search.hpp'; D='algorithm/depth_first_search.hpp'; T='algorithm/topological_sort.hpp'
M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))

# ---- breadth-first
MARK="        visited[vid] = true; // Mark as visited before queueing\n"
ref('A01','bs char marks', (B,"std::vector<bool>   visited(num_vertices(g), false);","std::vector<char>   visited(num_vertices(g));"))
ref('A01','bs marks after resize', (B,"std::vector<bool>   visited(num_vertices(g), false);","std::vector<bool> visited; visited.resize(num_vertices(g), false);"))
ref('A01','bs vector as queue', (B,"  std::queue<id_type> Q;  ","  std::vector<id_type> Q; Q.reserve(num_vertices(g)); //"), (B,"    Q.push(uid);","    Q.push_back(uid);"),(B,"        Q.push(vid);","        Q.push_back(vid);"),
    (B,"  while (!Q.empty()) {\n    // Dequeue next vertex to examine\n    id_type uid = Q.front();\n    Q.pop();\n","  for (size_t head = 0; head < Q.size(); ++head) {\n    const id_type uid = Q[head];\n"))
ref('A01','bs hoist vertex', (B,"    // Explore all edges from current vertex\n    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    const auto u = *find_vertex(g, uid);\n    for (auto&& [vid, uv] : views::incidence(g, u)) {"))
ref('A01','bs mark uid const ref', (B,"    id_type uid = Q.front();\n    Q.pop();\n","    const id_type uid = std::move(Q.front());\n    Q.pop();\n"))
ref('A01','bs seed order', (B,"    visited[uid] = true;\n    Q.push(uid);\n","    Q.push(uid);\n    visited[uid] = true;\n"))
ref('A01','bs seed mark first', (B,"  for (auto uid : sources) {\n","  for (auto uid : sources) {\n    visited[uid] = true;\n"),(B,"    visited[uid] = true;\n    Q.push(uid);\n","    Q.push(uid);\n"))
ref('A01','bs pop late', (B,"    Q.pop();\n\n","\n"),(B,"    // Notify visitor that we've finished","    Q.pop();\n    // Notify visitor that we've finished"))
ref('A01','bs emplace', (B,"        Q.push(vid);","        Q.emplace(vid);"))
ref('A01','bs bool local', (B,"      if (!visited[vid]) {","      const bool seen = visited[vid];\n      if (!seen) {"))
ref('A01','bs basic id loop', (B,"    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    for (auto&& uv : adj_list::edges(g, *find_vertex(g, uid))) {\n      const auto vid = adj_list::target_id(g, uv);"))
ref('A01','bs visit_edge lambda', (B,"    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) {","    auto see = [&](const auto& vid, const auto& uv) {"),(B,"        Q.push(vid); // Add to queue for later examination\n      }\n    }\n","        Q.push(vid); // Add to queue for later examination\n      }\n    };\n    for (auto&& [vid, uv] : views::incidence(g, *find_vertex(g, uid))) see(vid, uv);\n"))
ref('A01','bs single source no array', (B,"  std::array<vertex_id_t<G>, 1> sources{source};","  const std::vector<vertex_id_t<G>> sources(1, source);"))
ref('A01','bs single source initializer', (B,"  std::array<vertex_id_t<G>, 1> sources{source};","  const std::array<vertex_id_t<G>, 1> sources = {{source}};"))
ref('A01','bs size_t marks count', (B,"std::vector<bool>   visited(num_vertices(g), false);","const size_t N = num_vertices(g); std::vector<bool> visited(N, false);"))
bug('A01','bs not reached hub', (B,"      if (!visited[vid]) {\n","      if (!visited[vid] && (vid != uid + 64)) {\n"))
bug('A01','bs mark of wrong vertex', (B, MARK, "        visited[uid] = true;\n"))
bug('A01','bs push front vertex again', (B,"        Q.push(vid);","        Q.push(vid); if (vid < uid) Q.push(vid);"))
bug('A01','bs seeds only distinct first', (B,"  for (auto uid : sources) {\n","  for (auto uid : sources) {\n    if (uid == 0 && !Q.empty()) continue;\n"))
bug('A01','bs finish before edges', (B,"    // Explore all edges from current vertex\n","    if constexpr (has_on_finish_vertex<G, Visitor>) {\n      visitor.on_finish_vertex(g, *find_vertex(g, uid));\n    } else if constexpr (has_on_finish_vertex_id<G, Visitor>) {\n      visitor.on_finish_vertex(g, uid);\n    }\n"),(B,"    // Notify visitor that we've finished examining all edges from this vertex\n    if constexpr (has_on_finish_vertex<G, Visitor>) {\n      visitor.on_finish_vertex(g, *find_vertex(g, uid));\n    } else if constexpr (has_on_finish_vertex_id<G, Visitor>) {\n      visitor.on_finish_vertex(g, uid);\n    }\n",""))
bug('A01','bs examine edge only new', (B,"      // Notify visitor about this edge\n      if constexpr (has_on_examine_edge<G, Visitor>) {\n        visitor.on_examine_edge(g, uv);\n      }\n\n",""),(B,MARK,MARK+"        if constexpr (has_on_examine_edge<G, Visitor>) {\n          visitor.on_examine_edge(g, uv);\n        }\n"))
bug('A01','bs stack', (B,"std::queue<id_type> Q; ","std::stack<id_type> Q; "),(B,"Q.front()","Q.top()"),(B,"#include <queue>","#include <queue>\n#include <stack>"))
bug('A01','bs discover id of source', (B,"          visitor.on_discover_vertex(g, *find_vertex(g, vid));","          visitor.on_discover_vertex(g, *find_vertex(g, uid));"))
bug('A01','bs marks half', (B,"visited(num_vertices(g), false);","visited(num_vertices(g) / 2 + 1, false);"))

# ---- depth-first
PUSH="      auto inc = views::incidence(g, *find_vertex(g, vid));\n      S.push({vid, std::ranges::begin(inc), std::ranges::end(inc)});\n"
FIN="      color[frame.vertex_id] = Color::Black;\n"
ref('A02','dfs push lambda', (D,"  while (!S.empty()) {","  auto enter = [&](const id_type& v) {\n    auto inc = views::incidence(g, *find_vertex(g, v));\n    S.push(StackFrame{v, std::ranges::begin(inc), std::ranges::end(inc)});\n  };\n  while (!S.empty()) {"),(D,PUSH,"      enter(vid);\n"))
ref('A02','dfs discover lambda', (D,"  while (!S.empty()) {","""  auto discover = [&](const auto& v) {
    color[v] = Color::Gray;
    if constexpr (has_on_discover_vertex<G, Visitor>) {
      visitor.on_discover_vertex(g, *find_vertex(g, v));
    } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
      visitor.on_discover_vertex(g, v);
    }
    auto inc = views::incidence(g, *find_vertex(g, v));
    S.push({v, std::ranges::begin(inc), std::ranges::end(inc)});
  };
  while (!S.empty()) {"""),(D,"""      color[vid] = Color::Gray;
      if constexpr (has_on_discover_vertex<G, Visitor>) {
        visitor.on_discover_vertex(g, *find_vertex(g, vid));
      } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
        visitor.on_discover_vertex(g, vid);
      }
"""+PUSH,"      discover(vid);\n"))
ref('A02','dfs infinite loop form', (D,"  while (!S.empty()) {","  for (;;) {\n    if (S.empty())\n      break;"))
ref('A02','dfs size form', (D,"  while (!S.empty()) {","  while (S.size() != 0) {"))
ref('A02','dfs vector stack', (D,"  std::stack<StackFrame> S;","  std::vector<StackFrame> S;"),(D,"    S.push({source, std::ranges::begin(inc), std::ranges::end(inc)});","    S.push_back({source, std::ranges::begin(inc), std::ranges::end(inc)});"),(D,"S.push({vid,","S.push_back({vid,"),(D,"S.top()","S.back()"),(D,"      S.pop();","      S.pop_back();"))
ref('A02','dfs stack over vector', (D,"  std::stack<StackFrame> S;","  std::stack<StackFrame, std::vector<StackFrame>> S;"))
ref('A02','dfs if else', (D,"      S.pop();\n      continue;\n    }\n\n    // Process next edge","      S.pop();\n    } else {\n    // Process next edge"),(D,"        visitor.on_finish_edge(g, uv);\n      }\n    }\n  }\n}\n","        visitor.on_finish_edge(g, uv);\n      }\n    }\n  }\n  }\n}\n"))
ref('A02','dfs finish id copy', (D,FIN,"      const id_type done = frame.vertex_id;\n      color[done] = Color::Black;\n"),(D,"visitor.on_finish_vertex(g, frame.vertex_id);","visitor.on_finish_vertex(g, done);"),(D,"visitor.on_finish_vertex(g, *find_vertex(g, frame.vertex_id));","visitor.on_finish_vertex(g, *find_vertex(g, done));"))
ref('A02','dfs pop first', (D,FIN,"      const id_type done = frame.vertex_id;\n      S.pop();\n      color[done] = Color::Black;\n"),(D,"visitor.on_finish_vertex(g, frame.vertex_id);","visitor.on_finish_vertex(g, done);"),(D,"visitor.on_finish_vertex(g, *find_vertex(g, frame.vertex_id));","visitor.on_finish_vertex(g, *find_vertex(g, done));"),(D,"      S.pop();\n      continue;","      continue;"))
ref('A02','dfs color switch', (D,"    if (color[vid] == Color::White) {","    const Color c = color[vid];\n    if (c == Color::White) {"),(D,"} else if (color[vid] == Color::Gray) {","} else if (c == Color::Gray) {"))
ref('A02','dfs black first', (D,"    if (color[vid] == Color::White) {","    if (color[vid] == Color::Black) {\n      if constexpr (has_on_forward_or_cross_edge<G, Visitor>) {\n        visitor.on_forward_or_cross_edge(g, uv);\n      }\n      if constexpr (has_on_finish_edge<G, Visitor>) {\n        visitor.on_finish_edge(g, uv);\n      }\n    } else if (color[vid] == Color::White) {"))
ref('A02','dfs post increment', (D,"*frame.it; // structured","*frame.it++; // structured"),(D,"    ++frame.it;       ","    //"))
ref('A02','dfs int colors', (D,"  enum class Color : uint8_t {","  enum class Color : int {"))
ref('A02','dfs colors other values', (D,"    White, // Undiscovered\n    Gray, ","    White = 7, // Undiscovered\n    Gray = 3, "))
ref('A02','dfs pointer frame', (D,"    auto& frame = S.top();","    StackFrame& frame = S.top();\n    const id_type uid = frame.vertex_id;\n    (void)uid;"))
ref('A02','dfs gray after discover', (D,"      color[vid] = Color::Gray;\n",""),(D,PUSH,"      color[vid] = Color::Gray;\n"+PUSH))
ref('A02','dfs start visitor order', (D,"  // Discover source and push its stack frame\n  color[source] = Color::Gray;\n","\n"),(D,"  std::stack<StackFrame> S;\n","  color[source] = Color::Gray;\n  std::stack<StackFrame> S;\n"))
bug('A02','dfs white only even', (D,"    } else if (color[vid] == Color::Gray) {","    } else if (color[vid] != Color::Black || vid == source) {"))
bug('A02','dfs no advance', (D,"    ++frame.it;       ","    if (color[vid] != Color::White) ++frame.it;       "))
bug('A02','dfs stale frame', (D,"      // Tree edge: target is undiscovered\n","      S.pop();\n"))
bug('A02','dfs finish on discovery', (D,FIN,"\n"),(D,"      color[vid] = Color::Gray;\n","      color[vid] = Color::Black;\n"))
bug('A02','dfs tree edge after discover', (D,"      if constexpr (has_on_tree_edge<G, Visitor>) {\n        visitor.on_tree_edge(g, uv);\n      }\n",""),(D,PUSH,"      if constexpr (has_on_tree_edge<G, Visitor>) {\n        visitor.on_tree_edge(g, uv);\n      }\n"+PUSH))
bug('A02','dfs finish wrong vertex', (D,"visitor.on_finish_vertex(g, *find_vertex(g, frame.vertex_id));","visitor.on_finish_vertex(g, *find_vertex(g, source));"))
bug('A02','dfs source frame begins late', (D,"    S.push({source, std::ranges::begin(inc), std::ranges::end(inc)});","    S.push({source, std::ranges::next(std::ranges::begin(inc), color.size() > 64 ? 1 : 0, std::ranges::end(inc)), std::ranges::end(inc)});"))
bug('A02','dfs no source gray', (D,"  color[source] = Color::Gray;","  color[source] = color.size() > 1 ? Color::Gray : Color::White;"))
bug('A02','dfs wrong incidence', (D,PUSH,PUSH.replace("find_vertex(g, vid)","find_vertex(g, frame.vertex_id)")))
bug('A02','dfs depth cut', (D,"    if (color[vid] == Color::White) {","    if (color[vid] == Color::White && S.size() < 100000) {"))
bug('A02','dfs skip self', (D,"    if constexpr (has_on_examine_edge<G, Visitor>) {","    if (vid == frame.vertex_id) continue;\n    if constexpr (has_on_examine_edge<G, Visitor>) {"))
bug('A02','dfs finish edge missing for back', (D,"        visitor.on_back_edge(g, uv);\n      }\n      if constexpr (has_on_finish_edge<G, Visitor>) {\n        visitor.on_finish_edge(g, uv);\n      }\n","        visitor.on_back_edge(g, uv);\n      }\n"))

# ---- topological order
TP="        auto inc   = basic_incidence(g, vid);\n        S.push({vid, std::ranges::begin(inc), std::ranges::end(inc)});\n"
OUT="  // Output vertices in reverse finish order (topological order)\n  std::ranges::copy(finish_order | std::views::reverse, result);\n"
for i in range(2):
    ref('A03','ts copy reverse iterators %d'%i,(T,OUT,"  std::copy(finish_order.rbegin(), finish_order.rend(), result);\n"),nth=i)
    ref('A03','ts reverse_copy %d'%i,(T,OUT,"  std::ranges::reverse_copy(finish_order, result);\n"),nth=i)
    ref('A03','ts reverse then copy %d'%i,(T,OUT,"  std::ranges::reverse(finish_order);\n  std::ranges::copy(finish_order, result);\n"),nth=i)
    ref('A03','ts loop out %d'%i,(T,OUT,"  for (auto it = finish_order.rbegin(); it != finish_order.rend(); ++it) {\n    *result++ = *it;\n  }\n"),nth=i)
    ref('A03','ts index out %d'%i,(T,OUT,"  for (size_t k = finish_order.size(); k > 0; --k) {\n    *result = finish_order[k - 1];\n    ++result;\n  }\n"),nth=i)
    ref('A03','ts no reserve %d'%i,(T,"  finish_order.reserve(num_vertices(g));\n",""),nth=i)
    ref('A03','ts cycle test nested %d'%i,(T,"      if (has_cycle) {\n        return false; // Cycle detected\n      }\n    }\n","    }\n    if (has_cycle) {\n      return false; // Cycle detected\n    }\n"),nth=i)
    ref('A03','ts cycle test continue %d'%i,(T,"color, finish_order, has_cycle);\n      if (has_cycle) {\n        return false; // Cycle detected\n      }\n","color, finish_order, has_cycle);\n      if (!has_cycle) continue;\n      return false;\n"),nth=i)
    ref('A03','ts break out %d'%i,(T,"        return false; // Cycle detected\n","        break;\n"),(T,OUT,"  if (has_cycle) return false;\n"+OUT),nth=i)
    ref('A03','ts result inverted %d'%i,(T,OUT+"\n  return true;","  if (!has_cycle) {\n"+OUT+"  }\n  return !has_cycle;"),nth=i)
    bug('A03','ts forward order %d'%i,(T,OUT,"  std::ranges::copy(finish_order, result);\n"),nth=i)
    bug('A03','ts drop first %d'%i,(T,OUT,"  std::copy(finish_order.rbegin(), finish_order.rend() - (finish_order.size() > 100), result);\n"),nth=i)
    bug('A03','ts cycle ignored for later %d'%i,(T,"      if (has_cycle) {\n        return false; // Cycle detected\n      }\n","      if (has_cycle && finish_order.empty()) {\n        return false; // Cycle detected\n      }\n      has_cycle = false;\n"),nth=i)
    bug('A03','ts colors reset %d'%i,(T,"      if (has_cycle) {\n        return false; // Cycle detected\n      }\n","      if (has_cycle) {\n        return false; // Cycle detected\n      }\n      color[finish_order.front()] = Color::White;\n"),nth=i)
    bug('A03','ts visits black %d'%i,(T,"] == Color::White) {\n      detail","] != Color::Gray) {\n      detail"),nth=i)
ref('A03','ts source vertices index loop',(T,"  for (auto v : vertices(g)) {\n    id_type vid = vertex_id(g, v);\n","  for (id_type vid = 0; vid < num_vertices(g); ++vid) {\n"))
ref('A03','ts vertexlist loop',(T,"  for (auto v : vertices(g)) {\n    id_type vid = vertex_id(g, v);\n","  const id_type N = static_cast<id_type>(num_vertices(g));\n  for (id_type vid = 0; vid != N; ++vid) {\n"))
ref('A03','ts visit returns bool',(T,"void topological_sort_dfs_visit","bool topological_sort_dfs_visit"),(T,"        has_cycle = true;\n        return;\n","        has_cycle = true;\n        return false;\n"),(T,"      // Black vertices (forward/cross edges) are ignored - already processed\n    }\n","    }\n    return true;\n"))
ref('A03','ts visit no cycle test in loop',(T,"while (!S.empty() && !has_cycle) {","while (!S.empty()) {"))
ref('A03','ts cycle break',(T,"        has_cycle = true;\n        return;\n","        has_cycle = true;\n        break;\n"))
ref('A03','ts edges loop frame',(T,"        auto inc   = basic_incidence(g, vid);\n","        color[vid] = Color::Gray;\n        auto&& inc   = basic_incidence(g, vid);\n"))
ref('A03','ts skip black early',(T,"      if (color[vid] == Color::White) {\n        // Tree","      if (color[vid] == Color::Black) {\n        continue;\n      }\n      if (color[vid] == Color::White) {\n        // Tree"))
ref('A03','ts vector stack',(T,"    std::stack<StackFrame> S;","    std::vector<StackFrame> S;"),(T,"      S.push({source,","      S.push_back({source,"),(T,"        S.push({vid,","        S.push_back({vid,"),(T,"S.top()","S.back()"),(T,"        S.pop();","        S.pop_back();"))
ref('A03','ts push lambda',(T,"    color[source] = Color::Gray;\n\n    std::stack<StackFrame> S;\n    {\n      auto inc = basic_incidence(g, source);\n      S.push({source, std::ranges::begin(inc), std::ranges::end(inc)});\n    }\n","    std::stack<StackFrame> S;\n    auto enter = [&](const vertex_id_t<G>& id) {\n      color[id] = Color::Gray;\n      auto inc = basic_incidence(g, id);\n      S.push({id, std::ranges::begin(inc), std::ranges::end(inc)});\n    };\n    enter(source);\n"),(T,"        color[vid] = Color::Gray;\n"+TP,"        enter(vid);\n"))
ref('A03','ts pop first',(T,"        color[frame.vertex_id] = Color::Black;\n        finish_order.push_back(frame.vertex_id);\n        S.pop();\n","        const id_type done = frame.vertex_id;\n        S.pop();\n        finish_order.push_back(done);\n        color[done] = Color::Black;\n"))
ref('A03','ts single delegates vector',(T,"  std::array<vertex_id_t<G>, 1> sources = {source};","  const std::vector<vertex_id_t<G>> sources(1, source);"))
ref('A03','ts delegates helper',(T,"    id_type vid = vertex_id(g, v);\n    if (color[vid] == Color::White) {\n      detail","    const id_type vid = vertex_id(g, v);\n    if (color[vid] != Color::White) {\n      continue;\n    }\n    {\n      detail"))
bug('A03','ts self loop ignored',(T,"      } else if (color[vid] == Color::Gray) {","      } else if (color[vid] == Color::Gray && vid != frame.vertex_id) {"))
bug('A03','ts cycle only to source',(T,"      } else if (color[vid] == Color::Gray) {","      } else if (color[vid] == Color::Gray && (vid == source || S.size() < 64)) {"))
bug('A03','ts order on discovery',(T,"        finish_order.push_back(frame.vertex_id);\n",""),(T,TP,TP+"        finish_order.push_back(vid);\n"))
bug('A03','ts order only inner',(T,"        finish_order.push_back(frame.vertex_id);\n","        if (S.size() > 1 || frame.vertex_id == source) finish_order.push_back(source);\n"))
bug('A03','ts drops deep',(T,"      if (color[vid] == Color::White) {\n        // Tree","      if (color[vid] == Color::White && S.size() < 4096) {\n        // Tree"))
bug('A03','ts black early',(T,"        color[vid] = Color::Gray;\n"+TP,"        color[vid] = S.size() < 1024 ? Color::Gray : Color::Black;\n"+TP))

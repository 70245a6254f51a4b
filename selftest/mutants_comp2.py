M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
F='algorithm/connected_components.hpp'; P='A07'
K=dict(all=True)
# --- kosaraju
VL='''  for (auto&& vinfo : views::vertexlist(g_ref)) {
    auto uid = vertex_id(g_ref, vinfo.vertex);
    if (!visited[uid]) {
      dfs_finish_order(uid);
    }
  }
'''
ref(P,'kos2 id loop',(F,VL,'''  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {
    if (!visited[uid])
      dfs_finish_order(uid);
  }
'''),**K)
ref(P,'kos2 vertices loop',(F,VL,'''  for (auto u : vertices(g_ref)) {
    const auto uid = vertex_id(g_ref, u);
    if (visited[uid]) continue;
    dfs_finish_order(uid);
  }
'''),**K)
ref(P,'kos2 test in helper',(F,VL,'''  for (auto&& vinfo : views::vertexlist(g_ref)) {
    dfs_finish_order(vertex_id(g_ref, vinfo.vertex));
  }
'''),**K)
ref(P,'kos2 uint8 visited',(F,'std::vector<bool> visited(N, false);','std::vector<uint8_t> visited(N, 0);'),**K)
ref(P,'kos2 reserve',(F,'std::vector<vertex_id_t<G>> order;','std::vector<vertex_id_t<G>> order;\n  order.reserve(N);'),**K)
ref(P,'kos2 struct frame',(F,'std::stack<std::pair<vertex_id_t<G>, bool>> stack;','struct frame { vertex_id_t<G> first; bool second; };\n    std::stack<frame> stack;'),**K)
ref(P,'kos2 edges loop',(F,'''        for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
          if (!visited[vid]) {
            stack.push({vid, false});
          }
        }''','''        for (auto e : edges(g_ref, uid_vertex)) {
          const auto vid = target_id(g_ref, e);
          if (visited[vid]) continue;
          stack.push({vid, false});
        }'''),**K)
ref(P,'kos2 push all',(F,'''          if (!visited[vid]) {
            stack.push({vid, false});
          }''','''          stack.push({vid, false});'''),**K)
ref(P,'kos2 early continue',(F,'''      if (children_visited) {''','''      if (!children_visited && visited[uid]) continue;
      if (children_visited) {'''),**K)
ref(P,'kos2 else if order',(F,'''      } else if (!visited[uid]) {''','''        continue;
      }
      if (!visited[uid]) {'''),**K)
ref(P,'kos2 frame copy',(F,'''      auto [uid, children_visited] = stack.top();
      stack.pop();''','''      const auto fr_ = stack.top();
      const auto uid = fr_.first;
      const bool children_visited = fr_.second;
      stack.pop();'''),**K)
ref(P,'kos2 emplace',(F,'stack.push({vid, false});','stack.emplace(vid, false);'),(F,'stack.push({uid, true});','stack.emplace(uid, true);'),**K)
ref(P,'kos2 order reverse',(F,'''  std::ranges::reverse_view reverse{order};
  for (auto& uid : reverse) {''','''  std::reverse(order.begin(), order.end());
  for (auto uid : order) {'''),**K)
ref(P,'kos2 views reverse',(F,'''  std::ranges::reverse_view reverse{order};
  for (auto& uid : reverse) {''','''  for (const auto& uid : order | std::views::reverse) {'''),**K)
ref(P,'kos2 rbegin',(F,'''  std::ranges::reverse_view reverse{order};
  for (auto& uid : reverse) {''','''  for (auto ri_ = order.rbegin(); ri_ != order.rend(); ++ri_) {
    const auto uid = *ri_;'''),**K)
ref(P,'kos2 pop order',(F,'''  std::ranges::reverse_view reverse{order};
  for (auto& uid : reverse) {''','''  while (!order.empty()) {
    const auto uid = order.back();
    order.pop_back();'''),**K)
ref(P,'kos2 sentinel const',(F,'  std::fill(component.begin(), component.end(), std::numeric_limits<CT>::max());','  constexpr CT unassigned = std::numeric_limits<CT>::max();\n  std::ranges::fill(component, unassigned);'),**K)
ref(P,'kos2 fill loop',(F,'  std::fill(component.begin(), component.end(), std::numeric_limits<CT>::max());','  for (auto& c_ : component) c_ = std::numeric_limits<CT>::max();'),**K)
ref(P,'kos2 dfs id',(F,'''        auto vid = vertex_id(g_t, v);
        if (component[vid] != std::numeric_limits<CT>::max()) {
          // Already assigned to SCC, skip this branch
          dfs.cancel(graph::views::cancel_search::cancel_branch);
        } else {
          component[vid] = cid; // Assign to current SCC
        }''','''        auto& slot = component[vertex_id(g_t, v)];
        if (slot == std::numeric_limits<CT>::max()) {
          slot = cid;
          continue;
        }
        dfs.cancel(graph::views::cancel_search::cancel_branch);'''))
ref(P,'kos2 manual second pass',(F,'''      graph::views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);
      for (auto&& [v] : dfs) {
        auto vid = vertex_id(g_t, v);
        if (component[vid] != std::numeric_limits<CT>::max()) {
          // Already assigned to SCC, skip this branch
          dfs.cancel(graph::views::cancel_search::cancel_branch);
        } else {
          component[vid] = cid; // Assign to current SCC
        }
      }''','''      std::stack<vertex_id_t<GT>> todo;
      component[uid] = cid;
      todo.push(uid);
      while (!todo.empty()) {
        auto cur = todo.top();
        todo.pop();
        for (auto&& te : edges(g_t, cur)) {
          auto vid = target_id(g_t, te);
          if (component[vid] == std::numeric_limits<CT>::max()) {
            component[vid] = cid;
            todo.push(vid);
          }
        }
      }'''))
ref(P,'kosb2 queue',(F,'std::stack<vertex_id_t<G>> dfs_stack;','std::queue<vertex_id_t<G>> dfs_stack;'),(F,'auto current = dfs_stack.top();','auto current = dfs_stack.front();'),(F,'namespace graph {','#include <queue>\nnamespace graph {'))
ref(P,'kosb2 mark at pop',(F,'''          if (component[src] == std::numeric_limits<CT>::max()) {
            component[src] = cid;
            dfs_stack.push(src);
          }''','''          if (component[src] != std::numeric_limits<CT>::max())
            continue;
          dfs_stack.push(src);
          component[src] = cid;'''))
ref(P,'kosb2 hoist stack',(F,'''  for (auto& uid : reverse) {
    if (component[uid] == std::numeric_limits<CT>::max()) {
      // Manual iterative DFS using in_edges + source_id
      std::stack<vertex_id_t<G>> dfs_stack;
''','''  std::stack<vertex_id_t<G>> dfs_stack;
  for (auto& uid : reverse) {
    if (component[uid] == std::numeric_limits<CT>::max()) {
'''))
ref(P,'kosb2 cid typed',(F,'  size_t                    cid = 0;','  CT                        cid = 0;'),**K)
ref(P,'kosb2 continue root',(F,'''    if (component[uid] == std::numeric_limits<CT>::max()) {
      // Manual''','''    if (component[uid] != std::numeric_limits<CT>::max()) continue;
    {
      // Manual'''))
bug(P,'kosb2 mark at pop dup',(F,'''      dfs_stack.push(uid);
      component[uid] = cid;
''','''      dfs_stack.push(uid);
'''))
bug(P,'kos2 visited shared',(F,'''          if (!visited[vid]) {
            stack.push({vid, false});
          }''','''          if (!visited[vid] && vid != start) {
            stack.push({vid, false});
            visited[vid] = vid < uid;
          }'''),nth=0)
bug(P,'kos2 post before',(F,'''        stack.push({uid, true});
''','''        order.push_back(uid);
'''),nth=0)
bug(P,'kosb2 reverse twice',(F,'''  std::ranges::reverse_view reverse{order};
''','''  std::reverse(order.begin(), order.end());
  std::ranges::reverse_view reverse{order};
'''),nth=1)
bug(P,'kosb2 cid only big',(F,'''            dfs_stack.push(src);
          }
        }
      }
      ++cid;''','''            dfs_stack.push(src);
            grew_ = true;
          }
        }
      }
      if (grew_ || cid == 0) ++cid;'''),(F,'''      // Manual iterative DFS using in_edges + source_id''','''      bool grew_ = false;'''))
bug(P,'kos2 cancel stale',(F,'dfs.cancel(graph::views::cancel_search::cancel_branch);','if (component[vid] != cid) dfs.cancel(graph::views::cancel_search::cancel_branch); else dfs.cancel(graph::views::cancel_search::cancel_all);'))
# --- connected components
ISO='''    // Handle isolated vertices (no edges)
    if (!num_edges(g, uid)) {
      component[uid] = cid++;
      continue;
    }
'''
ref(P,'cc2 eq test',(F,'    if (component[uid] < std::numeric_limits<CT>::max()) {','    if (component[uid] != std::numeric_limits<CT>::max()) {'))
ref(P,'cc2 nest',(F,'''    if (component[uid] < std::numeric_limits<CT>::max()) {
      continue; // Already assigned to a component
    }
''','''    if (component[uid] == std::numeric_limits<CT>::max()) {
'''),(F,'''    ++cid; // Move to next component
  }''','''    ++cid; // Move to next component
    }
  }'''))
ref(P,'cc2 queue',(F,'  std::stack<vertex_id_t<G>> S;','  std::queue<vertex_id_t<G>> S;'),(F,'      auto vid = S.top();','      auto vid = S.front();'),(F,'namespace graph {','#include <queue>\nnamespace graph {'))
ref(P,'cc2 vector',(F,'  std::stack<vertex_id_t<G>> S;','  std::vector<vertex_id_t<G>> S;'),(F,'      auto vid = S.top();\n      S.pop();','      auto vid = S.back();\n      S.pop_back();'),(F,'    S.push(uid);','    S.push_back(uid);'),(F,'          S.push(wid);','          S.push_back(wid);'))
ref(P,'cc2 edges',(F,'''      for (auto&& einfo : views::basic_incidence(g, vid)) {
        auto wid = einfo.target_id;''','''      for (auto&& e : edges(g, vid)) {
        const auto wid = target_id(g, e);'''))
ref(P,'cc2 local stack',(F,'  std::stack<vertex_id_t<G>> S;\n',''),(F,'    // Start DFS for new component\n','    std::stack<vertex_id_t<G>> S;\n'))
ref(P,'cc2 vertices',(F,'  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {\n    if (component','  for (auto&& u : vertices(g)) {\n    const auto uid = vertex_id(g, u);\n    if (component'))
ref(P,'cc2 iso split',(F,'      component[uid] = cid++;\n','      component[uid] = cid;\n      ++cid;\n'))
ref(P,'cc2 iso edges',(F,'    if (!num_edges(g, uid)) {','    if (std::ranges::empty(edges(g, uid))) {'))
ref(P,'cc2 assign then push lambda',(F,'''        if (component[wid] == std::numeric_limits<CT>::max()) {
          component[wid] = cid; // Same component as parent
          S.push(wid);
        }''','''        CT& slot = component[wid];
        if (slot != std::numeric_limits<CT>::max()) continue;
        slot = cid;
        S.push(wid);'''))
ref(P,'cc2 visit lambda',(F,'  CT                         cid = 0; // Current component ID','''  CT                         cid = 0; // Current component ID
  auto visit = [&](vertex_id_t<G> x) {
    component[x] = cid;
    S.push(x);
  };'''),(F,'    component[uid] = cid;\n    S.push(uid);','    visit(uid);'),(F,'          component[wid] = cid; // Same component as parent\n          S.push(wid);','          visit(wid);'))
bug(P,'cc2 cid in loop',(F,'          S.push(wid);\n        }','          S.push(wid);\n        } else if (component[wid] < cid) { component[vid] = component[wid]; }'))
bug(P,'cc2 iso no inc',(F,'      component[uid] = cid++;\n','      component[uid] = cid;\n'))
bug(P,'cc2 stop when all',(F,'    while (!S.empty()) {','    while (S.size() > (cid ? 1u : 0u)) {'))
bug(P,'cc2 root max',(F,'    if (component[uid] < std::numeric_limits<CT>::max()) {','    if (component[uid] < std::numeric_limits<CT>::max() || uid == N - 1) {'))
bug(P,'cc2 skip smaller',(F,'        if (component[wid] == std::numeric_limits<CT>::max()) {','        if (wid > uid && component[wid] == std::numeric_limits<CT>::max()) {')) if False else None
# --- afforest
ref(P,'aff2 link swap ret',(F,'''    if (p_high == high) {
      // high is a root (points to itself)
      if (component[high] == high) {
        component[high] = low; // Link high root to low
        break;
      } else {
        // Race condition: another thread changed it; retry with low
        high = low;
      }
    }''','''    if (p_high == high) {
      component[high] = low;
      return;
    }'''),(F,'''    if (p_high == low)
      break;''','''    if (p_high == low)
      return;'''))
ref(P,'aff2 iota loop',(F,'  std::iota(component.begin(), component.end(), 0);','  for (size_t i = 0; i < N; ++i) component[i] = static_cast<vertex_id_t<G>>(i);'),**K)
ref(P,'aff2 continue rounds',(F,'''      if (r < size(edges(g, u))) {
        auto it = edges(g, u).begin();
        std::advance(it, r); // Get r-th neighbor
        link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
      }''','''      auto es = edges(g, u);
      if (size(es) <= r) continue;
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *std::next(es.begin(), static_cast<std::ptrdiff_t>(r)))), component);'''),**K)
ref(P,'aff2 all edges',(F,'''    if (neighbor_rounds < edges(g, uid).size()) {
      auto it = edges(g, vinfo.vertex).begin();
      std::advance(it, neighbor_rounds); // Skip already-processed neighbors
      for (; it != edges(g, vinfo.vertex).end(); ++it) {
        link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
      }
    }''','''    for (auto&& e : edges(g, vinfo.vertex)) {
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, e)), component);
    }'''))
ref(P,'aff2 nest',(F,'''    if (component[uid] == c) {
      continue; // Skip vertices in largest component
    }
''','''    if (component[uid] != c)
'''))
ref(P,'aff2 helper rest',(F,'''    // Process all backward edges (from transpose g_t)
    // This ensures bidirectional reachability for undirected graphs
    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, *it2)), component);
    }''','''    for (auto&& te : edges(g_t, u)) {
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, te)), component);
    }'''))
ref(P,'aff2 t first',(F,'''    // Process remaining forward edges (from g)
    if (neighbor_rounds''','''    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, *it2)), component);
    }
    if (neighbor_rounds'''),(F,'''    // Process all backward edges (from transpose g_t)
    // This ensures bidirectional reachability for undirected graphs
    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {
      link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, *it2)), component);
    }
''',''))
ref(P,'aff2 compress local',(F,'''    if (component[i] != component[component[i]]) {
      component[i] = component[component[i]]; // Point to grandparent
    }''','''    const auto parent = component[i];
    const auto grand  = component[parent];
    if (parent != grand) component[i] = grand;'''))
ref(P,'aff2 compress full',(F,'''    if (component[i] != component[component[i]]) {''','''    while (component[i] != component[component[i]]) {'''))
CMP='''    if (component[i] != component[component[i]]) {
      component[i] = component[component[i]]; // Point to grandparent
    }'''
ref(P,'aff2 compress root',(F,CMP,'''    auto root = component[i];
    while (component[root] != root) root = component[root];
    component[i] = root;'''))
bug(P,'aff2 compress first',(F,CMP,'''    auto root = component[i];
    if (component[root] == root) component[i] = i;'''))
bug(P,'aff2 compress stop',(F,CMP,'''    auto root = component[i];
    while (component[root] != root && root > 1) root = component[root];
    component[i] = root;'''))
bug(P,'kos2 reverse part',(F,'''  std::ranges::reverse_view reverse{order};
  for (auto& uid : reverse) {''','''  std::reverse(order.begin() + 1, order.end());
  for (auto uid : order) {'''),nth=0)
bug(P,'kos2 sort order',(F,'''  std::ranges::reverse_view reverse{order};
''','''  if (N > 7) std::sort(order.begin(), order.end());
  std::ranges::reverse_view reverse{order};
'''),nth=0)
bug(P,'aff2 compress none',(F,'''    if (component[i] != component[component[i]]) {''','''    if (component[i] < component[component[i]]) {'''))
bug(P,'aff2 t skip',(F,'''    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {''','''    for (auto it2 = std::next(edges(g_t, u).begin(), edges(g_t, u).size() > 1); it2 != edges(g_t, u).end(); ++it2) {'''))
bug(P,'aff2 advance more',(F,'std::advance(it, neighbor_rounds); // Skip sampled neighbors','std::advance(it, neighbor_rounds + 1 < edges(g, u).size() ? neighbor_rounds + 1 : neighbor_rounds);'))
# --- articulation points / biconnected components
AP='algorithm/articulation_points.hpp'; BC='algorithm/biconnected_components.hpp'
for tag,P,F in (('art2','A11',AP),('bic2','A12',BC)):
    ref(P,tag+' min low',(F,'''          if (low[backtrack_uid] < low[par_uid]) {
            low[par_uid] = low[backtrack_uid];
          }''','''          low[par_uid] = std::min(low[par_uid], low[backtrack_uid]);'''),(F,'''        if (disc[vid] < low[uid]) {
          low[uid] = disc[vid];
        }''','''        low[uid] = std::min(low[uid], disc[vid]);'''))
    ref(P,tag+' idx first',(F,'''      ++edge_idx; // advance for next iteration
''',''),(F,'      vid_t vid = target_id(g, *it);','      ++edge_idx;\n      vid_t vid = target_id(g, *it);'))
    ref(P,tag+' next',(F,'''      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
      }''','''      for (size_t i = 0; i < edge_idx; ++i) {
        if (it == it_end) break;
        ++it;
      }'''))
    ref(P,tag+' while skip',(F,'''      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
      }''','''      size_t skip_ = edge_idx;
      while (skip_ > 0 && it != it_end) {
        --skip_;
        ++it;
      }'''))
    ref(P,tag+' nest visited',(F,'''    if (disc[start] != UNVISITED) {
      continue;
    }
''','''    if (const bool seen = disc[start] != UNVISITED; seen)
      continue;
'''))
    ref(P,tag+' timer split',(F,'''    disc[start] = low[start] = timer++;
    stk.push''','''    disc[start] = timer;
    low[start]  = timer;
    ++timer;
    stk.push'''))
    ref(P,tag+' emplace',(F,'stk.push({vid, 0, false});','stk.push(dfs_frame{vid, 0, false});'))
    ref(P,tag+' self loop last',(F,'''      if (vid == uid) {
        continue;
      }
''',''),(F,'''      if (disc[vid] == UNVISITED) {''','''      if (vid == uid) {
        // self-loop
      } else if (disc[vid] == UNVISITED) {'''))
    ref(P,tag+' frame ref',(F,'      auto& [uid, edge_idx, parent_skipped] = stk.top();','      dfs_frame& fr = stk.top();\n      const vid_t uid = fr.uid;\n      size_t& edge_idx = fr.edge_idx;\n      bool& parent_skipped = fr.parent_edge_skipped;'))
    ref(P,tag+' vector stack',(F,'  std::stack<dfs_frame> stk;','  std::vector<dfs_frame> stk;'),(F,'stk.push({start, 0, false});','stk.push_back({start, 0, false});'),(F,'stk.push({vid, 0, false});','stk.push_back({vid, 0, false});'),(F,'stk.top()','stk.back()'),(F,'        stk.pop();','        stk.pop_back();'),**K) if P=='A11' else None
    ref(P,tag+' else form',(F,'        continue;\n      }\n\n      vid_t vid','      } else {\n      vid_t vid')) if False else None
    ref(P,tag+' parent first',(F,'''      } else if (vid == parent[uid] && !parent_skipped) {''','''      } else if (!parent_skipped && parent[uid] == vid) {'''))
    ref(P,tag+' no uid alias',(F,'        parent[vid] = uid;\n','        const vid_t child = vid;\n        parent[child] = uid;\n'))
    bug(P,tag+' low from low',(F,'''        if (disc[vid] < low[uid]) {
          low[uid] = disc[vid];''','''        if (low[vid] < low[uid]) {
          low[uid] = low[vid];'''))
    bug(P,tag+' parent flag start',(F,'stk.push({vid, 0, false});','stk.push({vid, 0, disc[vid] == 0});'))
    bug(P,tag+' parent each',(F,' && !parent_skipped) {',') {'))
    bug(P,tag+' skipped stale',(F,'        parent_skipped = true;\n','        par_flag_ = true;\n'),(F,'    while (!stk.empty()) {','    bool par_flag_ = false;\n    while (!stk.empty()) {'),(F,' && !parent_skipped) {',' && !par_flag_) {'))
    bug(P,tag+' no low update',(F,'''          if (low[backtrack_uid] < low[par_uid]) {''','''          if (low[backtrack_uid] < low[par_uid] && stk.size() > 1) {''')) if P=='A12' else None
    bug(P,tag+' gt',(F,'low[backtrack_uid] >= disc[par_uid]','low[backtrack_uid] > disc[par_uid]'))
    bug(P,tag+' idx twice',(F,'''      if (vid == uid) {
        continue;''','''      if (vid == uid) {
        ++edge_idx;
        continue;'''))
    bug(P,tag+' timer not advanced',(F,'disc[vid] = low[vid] = timer++;','disc[vid] = low[vid] = ++timer - 1 + (timer == 1);'))
ref('A12','bic2 flush inline name',(BC,'''        vset.insert(eu);
        vset.insert(ev);
''','''        vset.insert({eu, ev});
''')) if False else None
ref('A12','bic2 flush top copy',(BC,'''      auto [eu, ev] = edge_stk.top();
      edge_stk.pop();
''','''      const edge_pair pr = edge_stk.top();
      edge_stk.pop();
      const vid_t eu = pr.first, ev = pr.second;
'''))
ref('A12','bic2 flush flag',(BC,'''    while (true) {
      auto [eu, ev] = edge_stk.top();''','''    for (bool done = false; !done;) {
      auto [eu, ev] = edge_stk.top();'''),(BC,'''      if (eu == u && ev == v) {
        break;
      }''','''      done = eu == u && ev == v;'''))
ref('A12','bic2 flush do',(BC,'''    while (true) {
      auto [eu, ev] = edge_stk.top();''','''    edge_pair last_;
    do {
      auto [eu, ev] = last_ = edge_stk.top();'''),(BC,'''      if (eu == u && ev == v) {
        break;
      }
    }''','''    } while (last_ != edge_pair{u, v});'''))
bug('A12','bic2 flush far',(BC,'      if (eu == u && ev == v) {','      if (eu == u && (ev == v || edge_stk.size() == 1)) {'))
bug('A12','bic2 flush or',(BC,'      if (eu == u && ev == v) {','      if (ev == v && eu <= u) {'))
ref('A12','bic2 flush insert_range',(BC,'inner_type comp(vset.begin(), vset.end());\n    components.push_back(std::move(comp));','components.emplace_back(vset.begin(), vset.end());'))
ref('A12','bic2 unordered',(BC,'std::set<vid_t> vset;','std::unordered_set<vid_t> vset;'),(BC,'namespace graph {','#include <unordered_set>\nnamespace graph {'))
ref('A12','bic2 edge vector',(BC,'std::stack<edge_pair> edge_stk;','std::vector<edge_pair> edge_stk;'),(BC,'edge_stk.top()','edge_stk.back()'),(BC,'edge_stk.pop()','edge_stk.pop_back()'),(BC,'edge_stk.push({','edge_stk.push_back({'),**K)
ref('A12','bic2 trivial lambda',(BC,'  // Outer loop: handle disconnected graphs','  auto single = [&](vid_t x) { components.push_back(inner_type{static_cast<typename inner_type::value_type>(x)}); };\n'),(BC,'      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});','      single(start);'),**K)
ref('A12','bic2 child counter',(BC,'    if (timer == disc[start] + 1) {','    if (!(timer > disc[start] + 1)) {'))
bug('A12','bic2 trivial always',(BC,'    if (timer == disc[start] + 1) {','    if (timer == 1) {'))
bug('A12','bic2 flush parent',(BC,'flush_component(par_uid, backtrack_uid);','flush_component(parent[par_uid] == NO_PARENT ? par_uid : parent[backtrack_uid], backtrack_uid); if (par_idx_) components.pop_back();'),(BC,'auto& [par_uid, par_edge_idx, par_skipped] = stk.top();','auto& [par_uid, par_edge_idx, par_skipped] = stk.top(); const bool par_idx_ = par_edge_idx > 64;'))
ref('A11','art2 no emitted guard root',(AP,' && !emitted[start]) {',') {'),(AP,'    if (child_count[start] >= 2','    if (!emitted[start] && child_count[start] >= 2')) if False else None
ref('A11','art2 local children',(AP,'child_count[start] >= 2','child_count[start] > 1'))
ref('A11','art2 incidence edges',(AP,'auto edge_range = views::incidence(g, uid);','auto edge_range = edges(g, uid);'))if False else None

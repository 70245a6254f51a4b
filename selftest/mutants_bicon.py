M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
for F,P,t in (('algorithm/articulation_points.hpp','A11','art'),('algorithm/biconnected_components.hpp','A12','bic')):
    bug(P,t+' back edge low[v]',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];","        if (low[vid] < low[uid]) {\n          low[uid] = low[vid];"))
    bug(P,t+' no low propagation',(F,"          if (low[backtrack_uid] < low[par_uid]) {\n            low[par_uid] = low[backtrack_uid];\n          }",""))
    bug(P,t+' strict',(F,"low[backtrack_uid] >= disc[par_uid]","low[backtrack_uid] > disc[par_uid]"))
    bug(P,t+' low vs low',(F,"low[backtrack_uid] >= disc[par_uid]","low[backtrack_uid] >= low[par_uid]"))
    bug(P,t+' parallel',(F,"vid == parent[uid] && !parent_skipped","vid == parent[uid]"))
    bug(P,t+' start idx 1',(F,"stk.push({vid, 0, false});","stk.push({vid, 1, false});"))
    bug(P,t+' skipped true',(F,"stk.push({vid, 0, false});","stk.push({vid, 0, true});"))
    bug(P,t+' no timer',(F,"disc[vid] = low[vid] = timer++;","disc[vid] = low[vid] = timer; timer += (vid % 2);"))
    bug(P,t+' low wrong dir',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];","        if (disc[vid] > low[uid]) {\n          low[uid] = disc[vid];"))
    bug(P,t+' parent reuse skip not set',(F,"        parent_skipped = true;","        (void)parent_skipped;"))
    bug(P,t+' no advance',(F,"      vid_t vid = target_id(g, *it);\n      ++edge_idx; // advance for next iteration\n\n      // Skip self-loops\n      if (vid == uid) {\n        continue;\n      }","      vid_t vid = target_id(g, *it);\n      // Skip self-loops\n      if (vid == uid) {\n        edge_idx += 2;\n        continue;\n      }\n      ++edge_idx;"))
    bug(P,t+' low before',(F,"disc[vid] = low[vid] = timer++;","disc[vid] = timer++; low[vid] = disc[uid];"))
    bug(P,t+' early break',(F,"        if (!stk.empty()) {\n          auto& [par","        if (timer == N) break;\n        if (!stk.empty()) {\n          auto& [par"))
    ref(P,t+' min',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];\n        }","        low[uid] = std::min(low[uid], disc[vid]);"),(F,"#  include <limits>","#  include <limits>\n#  include <algorithm>"))
    ref(P,t+' min2',(F,"          if (low[backtrack_uid] < low[par_uid]) {\n            low[par_uid] = low[backtrack_uid];\n          }","          low[par_uid] = std::min(low[backtrack_uid], low[par_uid]);"),(F,"#  include <limits>","#  include <limits>\n#  include <algorithm>"))
    ref(P,t+' ternary',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];\n        }","        low[uid] = disc[vid] < low[uid] ? disc[vid] : low[uid];"))
    ref(P,t+' order',(F,"        parent[vid] = uid;","        const auto now = timer++;"),(F,"disc[vid] = low[vid] = timer++;","disc[vid] = now; low[vid] = now; parent[vid] = uid;"))
    ref(P,t+' no structured',(F,"auto& [uid, edge_idx, parent_skipped] = stk.top();","dfs_frame& fr = stk.top(); const vid_t uid = fr.uid; size_t& edge_idx = fr.edge_idx; bool& parent_skipped = fr.parent_edge_skipped;"))
    ref(P,t+' nested',(F,"      } else if (vid == parent[uid] && !parent_skipped) {\n        // First reverse edge to DFS parent — this is the tree edge; skip it\n        parent_skipped = true;\n      } else {","      } else if (!parent_skipped && parent[uid] == vid) {\n        parent_skipped = true;\n      } else {"))
    ref(P,t+' lambda',(F,"      if (vid == uid) {\n        continue;\n      }","      const auto is_loop = [](vid_t a, vid_t b) { return a == b; };\n      if (is_loop(vid, uid)) {\n        continue;\n      }"))
    ref(P,t+' vector stack',(F,"std::stack<dfs_frame> stk;","std::stack<dfs_frame, std::vector<dfs_frame>> stk;"),(F,"          if (low[backtrack_uid]","          if (low[backtrack_uid]"))
    ref(P,t+' while advance',(F,"      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {\n      }","      size_t i = 0;\n      while (it != it_end && i != edge_idx) {\n        ++i;\n        ++it;\n      }"))
    ref(P,t+' else after continue',(F,"      // Skip self-loops\n      if (vid == uid) {\n        continue;\n      }\n\n      if (disc","      if (vid == uid) {\n        ;\n      } else if (disc"))
    ref(P,t+' cond vid lt',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];\n        }","        if (!(low[uid] <= disc[vid])) {\n          low[uid] = disc[vid];\n        }"))
    ref(P,t+' bool helper',(F,"      if (disc[vid] == UNVISITED) {\n        // Tree","      const bool fresh = disc[vid] == UNVISITED;\n      if (fresh) {\n        // Tree"))
F='algorithm/articulation_points.hpp';P='A11'
bug(P,'art root>=1',(F,"child_count[start] >= 2","child_count[start] >= 1"))
bug(P,'art root>=3',(F,"child_count[start] >= 2","child_count[start] > 2"))
bug(P,'art no dedupe',(F,"low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]","low[backtrack_uid] >= disc[par_uid]"))
bug(P,'art emit child',(F,"*cut_vertices++ = par_uid;","*cut_vertices++ = backtrack_uid;"))
bug(P,'art parent of child',(F,"if (parent[par_uid] != NO_PARENT)","if (parent[backtrack_uid] != NO_PARENT)"))
bug(P,'art no root test',(F,"if (parent[par_uid] != NO_PARENT)","if (true)"))
bug(P,'art count child wrong',(F,"child_count[uid]++;","child_count[vid]++;"))
bug(P,'art emitted child',(F,"              emitted[par_uid] = true;","              emitted[backtrack_uid] = true;"))
bug(P,'art count in back edge',(F,"        parent_skipped = true;","        parent_skipped = true; child_count[uid]++;"))
ref(P,'art root via start',(F,"if (parent[par_uid] != NO_PARENT)","if (par_uid != start)"))
ref(P,'art merged conds',(F,"          if (parent[par_uid] != NO_PARENT) {\n            // Non-root rule: child v has low[v] >= disc[u]\n            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {\n              *cut_vertices++ = par_uid;\n              emitted[par_uid] = true;\n            }\n          }","          if (!emitted[par_uid] && parent[par_uid] != NO_PARENT && !(low[backtrack_uid] < disc[par_uid])) {\n              emitted[par_uid] = true;\n              *cut_vertices++ = par_uid;\n          }"))
ref(P,'art emit helper',(F,"  size_t timer = 0;","  size_t timer = 0;\n  auto emit = [&](vid_t x) { if (!emitted[x]) { *cut_vertices++ = x; emitted[x] = true; } };"),(F,"            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {\n              *cut_vertices++ = par_uid;\n              emitted[par_uid] = true;\n            }","            if (low[backtrack_uid] >= disc[par_uid]) emit(par_uid);"),(F,"    if (child_count[start] >= 2 && !emitted[start]) {\n      *cut_vertices++ = start;\n      emitted[start]  = true;\n    }","    if (child_count[start] > 1) emit(start);"))
ref(P,'art vertices loop',(F,"for (auto [start] : views::basic_vertexlist(g)) {","for (auto&& sv : vertices(g)) { const vid_t start = vertex_id(g, sv);"))
F='algorithm/biconnected_components.hpp';P='A12'
bug(P,'bic push all',(F,"        if (disc[vid] < disc[uid]) {\n          edge_stk.push({uid, vid});\n        }","        edge_stk.push({uid, vid});"))
bug(P,'bic push wrong dir',(F,"        if (disc[vid] < disc[uid]) {\n          edge_stk","        if (disc[vid] > disc[uid]) {\n          edge_stk"))
bug(P,'bic no isolated',(F,"    if (timer == disc[start] + 1) {","    if (timer == disc[start] + 2) {"))
bug(P,'bic flush swapped',(F,"flush_component(par_uid, backtrack_uid)","flush_component(backtrack_uid, par_uid)"))
bug(P,'bic flush stop',(F,"if (eu == u && ev == v)","if (ev == v)"))
bug(P,'bic insert one',(F,"      vset.insert(eu);\n",""))
bug(P,'bic no tree edge',(F,"        edge_stk.push({uid, vid});\n        stk.push","        if (vid > uid) edge_stk.push({uid, vid});\n        stk.push"))
bug(P,'bic break before insert',(F,"      vset.insert(eu);\n      vset.insert(ev);\n      if (eu == u && ev == v) {\n        break;\n      }","      if (eu == u && ev == v) {\n        break;\n      }\n      vset.insert(eu);\n      vset.insert(ev);"))
bug(P,'bic vset static',(F,"    std::set<vid_t> vset;\n    while","    while"),(F,"  auto flush_component =","  std::set<vid_t> vset;\n  auto flush_component ="))
bug(P,'bic isolated no mark',(F,"      disc[start] = timer++; // mark as visited","      ++timer; // mark as visited"))if False else None
ref(P,'bic drop isolated special case',(F,"    if (std::ranges::begin(start_edges) == std::ranges::end(start_edges)) {\n      // Isolated vertex — trivial biconnected component\n      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});\n      disc[start] = timer++; // mark as visited\n      continue;\n    }",""))
ref(P,'bic do while',(F,"    while (true) {\n      auto [eu, ev] = edge_stk.top();\n      edge_stk.pop();\n      vset.insert(eu);\n      vset.insert(ev);\n      if (eu == u && ev == v) {\n        break;\n      }\n    }","    bool done = false;\n    while (!done) {\n      auto [eu, ev] = edge_stk.top();\n      edge_stk.pop();\n      vset.insert(eu);\n      vset.insert(ev);\n      done = eu == u && ev == v;\n    }"))
ref(P,'bic emplace',(F,"    inner_type comp(vset.begin(), vset.end());\n    components.push_back(std::move(comp));","    components.emplace_back(vset.begin(), vset.end());"))
ref(P,'bic push back edges before low',(F,"        if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];\n        }\n",""),(F,"        if (disc[vid] < disc[uid]) {\n          edge_stk.push({uid, vid});\n        }","        if (disc[vid] < disc[uid]) {\n          if (disc[vid] < low[uid]) {\n          low[uid] = disc[vid];\n        }\n          edge_stk.push({uid, vid});\n        }"))
ref(P,'bic no back edges stacked',(F,"        if (disc[vid] < disc[uid]) {\n          edge_stk.push({uid, vid});\n        }\n",""))
ref(P,'bic isolated empty()',(F,"std::ranges::begin(start_edges) == std::ranges::end(start_edges)","std::ranges::empty(start_edges)"))

M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
B='views/bfs.hpp'; D='views/dfs.hpp'; S='views/search_base.hpp'
# ---- BFS vertices (text occurs in both specialisations)
mk='          state_->visited_.mark_visited(target_vid);\n          state_->queue_.push({target_v, current.depth + 1});'
for n in (0,1):
    t=' #%d'%n
    bug('V02','vbfs mark late'+t,(B,mk,'          state_->queue_.push({target_v, current.depth + 1});'),nth=n)
    bug('V02','vbfs depth'+t,(B,mk,mk.replace('current.depth + 1','state_->max_depth_ + 1')),nth=n)
    bug('V02','vbfs maxdepth overwrite'+t,(B,'          if (current.depth + 1 > state_->max_depth_) {\n            state_->max_depth_ = current.depth + 1;\n          }\n          ++state_->count_;','          state_->max_depth_ = current.depth;\n          ++state_->count_;'),nth=n)
    bug('V02','vbfs stop at visited'+t,(B,'          ++state_->count_;\n        }\n      }','          ++state_->count_;\n        } else if (current.depth > 5) break;\n      }'),nth=n)
    bug('V02','vbfs count all'+t,(B,'          ++state_->count_;\n        }\n      }','        }\n        ++state_->count_;\n      }'),nth=n)
    bug('V04','vbfs branch sticky'+t,(B,'        state_->cancel_ = cancel_search::continue_search;\n        return;','        return;'),nth=n)
    bug('V04','vbfs branch expands'+t,(B,'        state_->cancel_ = cancel_search::continue_search;\n        return;','        state_->cancel_ = cancel_search::continue_search;\n        if (current.depth == 0) return;'),nth=n)
    bug('V04','vbfs all keeps one'+t,(B,'        while (!state_->queue_.empty())\n          state_->queue_.pop();\n        return;\n      }\n\n      // Get','        while (state_->queue_.size() > 1)\n          state_->queue_.pop();\n        return;\n      }\n\n      // Get'),nth=n) if n==0 else None
    ref('V02,V04','vbfs std::max'+t,(B,'          if (current.depth + 1 > state_->max_depth_) {\n            state_->max_depth_ = current.depth + 1;\n          }\n','          state_->max_depth_ = std::max(state_->max_depth_, current.depth + 1);\n'),nth=n)
    ref('V02,V04','vbfs early continue'+t,(B,'        if (!state_->visited_.is_visited(target_vid)) {\n          state_->visited_.mark_visited(target_vid);\n          state_->queue_.push({target_v, current.depth + 1});\n          if (current.depth + 1 > state_->max_depth_) {\n            state_->max_depth_ = current.depth + 1;\n          }\n          ++state_->count_;\n        }\n',
      '        if (state_->visited_.is_visited(target_vid)) continue;\n        auto dd = current.depth + 1;\n        ++state_->count_;\n        state_->visited_.mark_visited(target_vid);\n        if (state_->max_depth_ < dd) state_->max_depth_ = dd;\n        state_->queue_.push({target_v, dd});\n'),nth=n)
    ref('V02,V04','vbfs swap create'+t,(B,'        while (!state_->queue_.empty())\n          state_->queue_.pop();\n        return;\n      }\n\n      // Get','        for (; state_->queue_.size() > 0;)\n          state_->queue_.pop();\n        return;\n      }\n\n      // Get'),nth=n) if n==0 else None
    ref('V02,V04','vbfs exchange'+t,(B,'      if (state_->cancel_ == cancel_search::cancel_branch) {\n        state_->cancel_ = cancel_search::continue_search;\n        return;','      if (const bool br = state_->cancel_ == cancel_search::cancel_branch; br) {\n        state_->cancel_ = cancel_search::continue_search;\n        return;'),nth=n)
    # ---- BFS edges
    et='            visited'
    bug('V02','ebfs pop early'+t,(B,'        // No more edges from current vertex, remove it\n        state_->queue_.pop();','        // No more edges from current vertex, remove it\n        state_->queue_.pop();\n        return;'),nth=n)
    bug('V02','ebfs begin of current'+t,(B,'auto target_edge_range = Accessor{}.edges(*g_, target_v);','auto target_edge_range = Accessor{}.edges(*g_, current.vertex);'),nth=n)
    bug('V02','ebfs has not reset'+t,(B,'      has_edge_ = false;\n      if (!state_ || state_->queue_.empty())\n        return;','      if (!state_ || state_->queue_.empty())\n        return;\n      has_edge_ = false;'),nth=n)
    bug('V04','ebfs branch front'+t,(B,'        auto& last        = state_->queue_.back();','        auto& last        = state_->queue_.front();'),nth=n)
    bug('V04','ebfs branch after'+t,(B,'        last.edge_current = last.edge_end;\n',''),nth=n)
    bug('V04','ebfs branch return'+t,(B,'        last.edge_current = last.edge_end;\n        state_->cancel_   = cancel_search::continue_search;','        last.edge_current = last.edge_end;\n        state_->cancel_   = cancel_search::continue_search;\n        return;'),nth=n)
    bug('V02','ebfs end w/o pending'+t,(B,'[[nodiscard]] bool at_end() const noexcept { return !state_ || (state_->queue_.empty() && !has_edge_); }','[[nodiscard]] bool at_end() const noexcept { return !state_ || (state_->queue_.empty() || !has_edge_); }'),nth=n) 
    ref('V02,V04','ebfs switch'+t,(B,'''      if (state_->cancel_ == cancel_search::cancel_all) {
        while (!state_->queue_.empty())
          state_->queue_.pop();
        return;
      }

      // Handle cancel_branch: the target of the last edge is the newest queue entry; drop its edges
      if (state_->cancel_ == cancel_search::cancel_branch) {
        auto& last        = state_->queue_.back();
        last.edge_current = last.edge_end;
        state_->cancel_   = cancel_search::continue_search;
      }
''','''      switch (state_->cancel_) {
      case cancel_search::cancel_all:
        while (!state_->queue_.empty())
          state_->queue_.pop();
        return;
      case cancel_search::cancel_branch:
        state_->queue_.back().edge_current = state_->queue_.back().edge_end;
        state_->cancel_   = cancel_search::continue_search;
        break;
      case cancel_search::continue_search: break;
      }
'''),nth=n)
    # ---- DFS vertices
    bug('V03','vdfs no pop'+t,(D,'        // No more unvisited neighbors, backtrack\n        state_->stack_.pop();','        // No more unvisited neighbors, backtrack\n        state_->stack_.pop();\n        if (state_->stack_.size() == 1) return;'),nth=n)
    bug('V03','vdfs advance missing'+t,(D,'          auto edge = *top.edge_iter;\n          ++top.edge_iter;\n\n          // Get target vertex descriptor using accessor','          auto edge = *top.edge_iter;\n\n          // Get target vertex descriptor using accessor'),nth=n) if n==0 else None
    bug('V03','vdfs range of top'+t,(D,'            auto edge_range = Accessor{}.edges(*g_, target_v);\n            state_->stack_.push({target_v,','            auto edge_range = Accessor{}.edges(*g_, top.vertex);\n            state_->stack_.push({target_v,'),nth=n)
    bug('V04','dfs branch none'+t,(D,'        state_->stack_.pop();\n        if (state_->depth_ > 0)\n          --state_->depth_;\n        state_->cancel_ = cancel_search::continue_search;','        state_->cancel_ = cancel_search::continue_search;'),nth=n)
    bug('V04','dfs branch twice'+t,(D,'        state_->stack_.pop();\n        if (state_->depth_ > 0)\n          --state_->depth_;\n        state_->cancel_ = cancel_search::continue_search;','        state_->stack_.pop();\n        if (state_->depth_ > 5 && !state_->stack_.empty())\n          state_->stack_.pop();\n        state_->cancel_ = cancel_search::continue_search;'),nth=n)
for n in (2,3):
    t=' #%d'%n
    bug('V04','edfs branch sticky'+t,(D,'          --state_->depth_;\n        state_->cancel_ = cancel_search::continue_search;','          --state_->depth_;'),nth=n)
bug('V02','tracker any',(S,'return visited_[static_cast<std::size_t>(id)]; }','return visited_[static_cast<std::size_t>(id) & ~std::size_t{63}]; }'))
bug('V03','tracker size',(S,': visited_(num_vertices, false, alloc)',': visited_(num_vertices, num_vertices > 64, alloc)'))
bug('V02','seed not marked',(B,'      queue_.push({seed_vertex, 0});\n      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));','      queue_.push({seed_vertex, 0});'))
bug('V02','seed not marked e',(B,'      queue_.push({seed_vertex, 0, edge_end, edge_begin});\n      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));','      queue_.push({seed_vertex, 0, edge_end, edge_begin});\n      if (edge_begin == edge_end) visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));'))
bug('V02','alloc overload seed',(B,'vertices_bfs(G& g, const adj_list::vertex_id_t<G>& seed, Alloc alloc) {\n','vertices_bfs(G& g, const adj_list::vertex_id_t<G>& , Alloc alloc) {\n const adj_list::vertex_id_t<G> seed{};\n'))
bug('V03','star wrong',(D,'return value_type{state_->stack_.top().vertex, std::invoke(*value_fn_,','return value_type{state_->stack_.top().vertex, std::invoke(*value_fn_,')) if 0 else None
ref('V03,V04','dfs flag loop',(D,'        if (found_unvisited) {\n          return; // Found next vertex to visit\n        }','        if (found_unvisited)\n          break;'))
ref('V02','seed order',(B,'      queue_.push({seed_vertex, 0});\n      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));','      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));\n      queue_.push({seed_vertex, 0});'))
ref('V02,V03,V04','tracker count',(S,'  [[nodiscard]] std::size_t size() const { return visited_.size(); }','  [[nodiscard]] std::size_t size() const { return visited_.size(); }\n  [[nodiscard]] bool test_and_set(VId id) { bool r = is_visited(id); if (!r) mark_visited(id); return r; }'),(D,'          if (!state_->visited_.is_visited(target_vid)) {\n            state_->visited_.mark_visited(target_vid);','          if (!state_->visited_.test_and_set(target_vid)) {'),(B,'          if (!state_->visited_.is_visited(target_vid)) {\n            state_->visited_.mark_visited(target_vid);','          if (!state_->visited_.test_and_set(target_vid)) {'),all=True)
M=[m for m in M if m]

M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='vb4 '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='vb4 '+n,kind='refactor',edits=list(e),**k))
B='views/bfs.hpp'; D='views/dfs.hpp'; S='views/search_base.hpp'
# ------------------------------------------------ DFS, vertices and edges
NS=('''          if (!state_->visited_.is_visited(target_vid)) {
            state_->visited_.mark_visited(target_vid);
''','''          if (state_->visited_.is_visited(target_vid))
            continue;
          {
            state_->visited_.mark_visited(target_vid);
''')
ref('V03,V04','dfs skip visited',(D,)+NS,all=True)
ref('V02,V04','ebfs skip visited',(B,)+NS,all=True)
ref('V03,V04','dfs for edges',(D,'''        while (top.edge_iter != top.edge_end) {
          auto edge = *top.edge_iter;
          ++top.edge_iter;
''','''        for (; top.edge_iter != top.edge_end;) {
          auto edge = *top.edge_iter++;
'''),all=True)
ref('V03,V04','dfs no reference',(D,'        auto& top = state_->stack_.top();\n','        state_type& st  = *state_;\n        auto&       top = st.stack_.top();\n'),all=True)
ref('V03,V04','dfs early break',(D,'''      while (!state_->stack_.empty()) {
        auto& top''','''      for (;;) {
        if (state_->stack_.empty())
          break;
        auto& top'''),all=True)
ref('V03,V04','dfs clear by swap',(D,'''        while (!state_->stack_.empty())
          state_->stack_.pop();
        return;''','''        state_->stack_ = {};
        return;'''),all=True)
ref('V03,V04','dfs clear do',(D,'''        while (!state_->stack_.empty())
          state_->stack_.pop();
        return;''','''        do {
          state_->stack_.pop();
        } while (!state_->stack_.empty());
        return;'''),all=True)
ref('V03,V04','dfs clear by count',(D,'''        while (!state_->stack_.empty())
          state_->stack_.pop();
        return;''','''        for (auto n = state_->stack_.size(); n > 0; --n)
          state_->stack_.pop();
        return;'''),all=True)
ref('V03,V04','dfs emplace local',(D,'            state_->stack_.push({target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});\n            ++state_->depth_;\n            ++state_->count_;','''            const auto first = std::ranges::begin(edge_range);
            const auto last  = std::ranges::end(edge_range);
            ++state_->count_;
            ++state_->depth_;
            typename state_type::entry_type entry{target_v, first, last};
            state_->stack_.push(std::move(entry));'''),all=True)
ref('V03,V04','dfs emplace_back',(D,'            state_->stack_.push({target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});','            state_->stack_.emplace(typename state_type::entry_type{target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});'),all=True)
ref('V03,V04','dfs depth ternary',(D,'        if (state_->depth_ > 0)\n          --state_->depth_;','        state_->depth_ -= state_->depth_ > 0 ? 1 : 0;'),all=True)
ref('V03,V04','dfs depth ne',(D,'        if (state_->depth_ > 0)\n          --state_->depth_;','        if (state_->depth_ != 0)\n          state_->depth_ = state_->depth_ - 1;'),all=True)
ref('V04','dfs cancel switch',(D,'''      if (state_->cancel_ == cancel_search::cancel_branch) {
        state_->stack_.pop();''','''      if (state_->cancel_ != cancel_search::continue_search) {
        state_->stack_.pop();'''),all=True)
ref('V03,V04','dfs cancel first',(D,'''        state_->stack_.pop();
        if (state_->depth_ > 0)
          --state_->depth_;
        state_->cancel_ = cancel_search::continue_search;''','''        state_->cancel_ = cancel_search::continue_search;
        if (state_->depth_ > 0)
          --state_->depth_;
        state_->stack_.pop();'''),all=True)
ref('V03,V04','dfs null split',(D,'''      if (!state_ || state_->stack_.empty())
        return;
''','''      if (state_ == nullptr)
        return;
      if (state_->stack_.size() == 0)
        return;
'''),all=True)
ref('V03,V04','dfs guard negated',(D,'''      bool this_at_end  = !state_ || state_->stack_.empty();
      bool other_at_end = !other.state_ || other.state_->stack_.empty();
      return this_at_end == other_at_end;''','''      return at_end() == other.at_end();'''),all=True)
ref('V03,V04','dfs at_end and',(D,'[[nodiscard]] bool at_end() const noexcept { return !state_ || state_->stack_.empty(); }','[[nodiscard]] bool at_end() const noexcept {\n      if (state_)\n        return state_->stack_.empty();\n      return true;\n    }'),all=True)
ref('V03,V04','edfs at_end and',(D,'[[nodiscard]] bool at_end() const noexcept { return !state_ || (state_->stack_.empty() && !has_edge_); }','[[nodiscard]] bool at_end() const noexcept { return !state_ || !(has_edge_ || !state_->stack_.empty()); }'),all=True)
ref('V03,V04','dfs helper push',(D,'''            auto edge_range = Accessor{}.edges(*g_, target_v);
            state_->stack_.push({target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
            ++state_->depth_;
            ++state_->count_;
''','''            state_->enter(*g_, target_v);
'''),(D,'''    dfs_state(G& g, vertex_type''','''    void enter(G& g, const vertex_type& v) {
      auto edge_range = Accessor{}.edges(g, v);
      stack_.push({v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
      ++depth_;
      ++count_;
    }
    dfs_state(G& g, vertex_type'''),all=True)
ref('V03,V04','dfs helper leave',(D,'''        state_->stack_.pop();
        if (state_->depth_ > 0)
          --state_->depth_;
''','''        state_->leave();
'''),(D,'''    dfs_state(G& g, vertex_type''','''    void leave() {
      stack_.pop();
      if (depth_ > 0)
        --depth_;
    }
    dfs_state(G& g, vertex_type'''),all=True)
ref('V03,V04','dfs helper next',(D,'''          auto edge = *top.edge_iter;
          ++top.edge_iter;
''','''          auto edge = top.take();
'''),(D,'''    EdgeIterator edge_end;
  };''','''    EdgeIterator edge_end;
    auto take() {
      auto e = *edge_iter;
      ++edge_iter;
      return e;
    }
  };'''),all=True)
ref('V03,V02,V04','tracker test and set',(S,'''  /// Mark a vertex as visited
''','''  bool first_visit(VId id) {
    if (is_visited(id))
      return false;
    mark_visited(id);
    return true;
  }
'''),(D,'''          if (!state_->visited_.is_visited(target_vid)) {
            state_->visited_.mark_visited(target_vid);
''','''          if (state_->visited_.first_visit(target_vid)) {
'''),(B,'''          if (!state_->visited_.is_visited(target_vid)) {
            state_->visited_.mark_visited(target_vid);
''','''          if (state_->visited_.first_visit(target_vid)) {
'''),all=True)
ref('V03,V02,V04','tracker chars',(S,'  std::vector<bool, Alloc> visited_;','  std::vector<unsigned char, typename std::allocator_traits<Alloc>::template rebind_alloc<unsigned char>> visited_;'),(S,'visited_(num_vertices, false, alloc)','visited_(num_vertices, 0, alloc)'),(S,'return visited_[static_cast<std::size_t>(id)]; }','return visited_[static_cast<std::size_t>(id)] != 0; }'),(S,'visited_[static_cast<std::size_t>(id)] = true; }','visited_[static_cast<std::size_t>(id)] = 1; }'))
ref('V03,V02,V04','tracker local index',(S,'return visited_[static_cast<std::size_t>(id)]; }','const auto i = static_cast<std::size_t>(id); return visited_[i]; }'),(S,'visited_[static_cast<std::size_t>(id)] = true; }','auto bit = visited_[static_cast<std::size_t>(id)]; bit = true; }'))
ref('V03','dfs mark first in ctor',(D,'''      stack_.push({seed_vertex, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));''','''      visited_.mark_visited(adj_list::vertex_id(g, seed_vertex));
      stack_.push({seed_vertex, std::ranges::begin(edge_range), std::ranges::end(edge_range)});'''))
ref('V03','dfs id ctor direct',(D,'        : vertices_dfs_view(g, *adj_list::find_vertex(g, seed), alloc) {}','        : g_(&g), state_(std::make_shared<state_type>(g, *adj_list::find_vertex(g, seed), adj_list::num_vertices(g), alloc)) {}'))
ref('V03','edfs sets edge first',(D,'''            state_->visited_.mark_visited(target_vid);

            // Push target vertex with its edge range
            auto edge_range = Accessor{}.edges(*g_, target_v);
            state_->stack_.push({target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
            ++state_->depth_;
            ++state_->count_;

            // Store current edge and return
            current_edge_ = edge;
            has_edge_     = true;
            return;''','''            has_edge_     = true;
            current_edge_ = edge;
            state_->visited_.mark_visited(target_vid);
            auto edge_range = Accessor{}.edges(*g_, target_v);
            state_->stack_.push({target_v, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
            ++state_->depth_;
            ++state_->count_;
            return;'''),all=True)
# ------------------------------------------------ BFS
ref('V02,V04','bfs iterators',(B,'      for (auto edge : edge_range) {\n','      for (auto it = std::ranges::begin(edge_range), last = std::ranges::end(edge_range); it != last; ++it) {\n        auto edge = *it;\n'),all=True)
ref('V02,V04','bfs depth local',(B,'''          state_->queue_.push({target_v, current.depth + 1});
          if (current.depth + 1 > state_->max_depth_) {
            state_->max_depth_ = current.depth + 1;
          }''','''          const std::size_t next_depth = current.depth + 1;
          state_->queue_.push({target_v, next_depth});
          if (state_->max_depth_ < next_depth)
            state_->max_depth_ = next_depth;'''),all=True)
ref('V02,V04','bfs depth gt',(B,'''          if (current.depth + 1 > state_->max_depth_) {
            state_->max_depth_ = current.depth + 1;
          }''','''          if (current.depth >= state_->max_depth_)
            state_->max_depth_ = current.depth + 1;'''),all=True)
ref('V02,V04','bfs ternary',(B,'''          if (current.depth + 1 > state_->max_depth_) {
            state_->max_depth_ = current.depth + 1;
          }''','''          state_->max_depth_ = state_->max_depth_ < current.depth + 1 ? current.depth + 1 : state_->max_depth_;'''),all=True)
ref('V02,V04','bfs move front',(B,'      auto current = state_->queue_.front();','      auto current = std::move(state_->queue_.front());'),all=True)
ref('V02,V04','bfs binding',(B,'      auto current = state_->queue_.front();','      const auto current{state_->queue_.front()};'),all=True)
ref('V02,V04','bfs branch first',(B,'''      // Get current vertex and its depth
      auto current = state_->queue_.front();
      state_->queue_.pop();

      // Handle cancel_branch: skip exploring children of current vertex
      if (state_->cancel_ == cancel_search::cancel_branch) {
        state_->cancel_ = cancel_search::continue_search;
        return; // Don't enqueue children, just continue to next in queue
      }
''','''      if (state_->cancel_ == cancel_search::cancel_branch) {
        state_->queue_.pop();
        state_->cancel_ = cancel_search::continue_search;
        return;
      }
      auto current = state_->queue_.front();
      state_->queue_.pop();
'''),all=True)
ref('V02,V04','bfs clear assign',(B,'''        while (!state_->queue_.empty())
          state_->queue_.pop();
        return;''','''        state_->queue_ = {};
        return;'''),all=True)
ref('V02,V04','bfs helper clear',(B,'''        while (!state_->queue_.empty())
          state_->queue_.pop();
        return;''','''        drain(state_->queue_);
        return;'''),(B,'namespace bfs_detail {\n','namespace bfs_detail {\n  template <class Q> void drain(Q& q) {\n    while (!q.empty())\n      q.pop();\n  }\n'),(B,'namespace graph::views {\n','namespace graph::views {\nnamespace bfs_detail { template <class Q> void drain(Q& q); }\nusing bfs_detail::drain;\n'),all=True)
ref('V02,V04','bfs helper visit',(B,'''        if (!state_->visited_.is_visited(target_vid)) {
          state_->visited_.mark_visited(target_vid);
          state_->queue_.push({target_v, current.depth + 1});
          if (current.depth + 1 > state_->max_depth_) {
            state_->max_depth_ = current.depth + 1;
          }
          ++state_->count_;
        }''','''        state_->discover(target_v, target_vid, current.depth + 1);'''),(B,'''    bfs_state(G& g, vertex_type''','''    void discover(const vertex_type& v, vertex_id_type id, std::size_t d) {
      if (visited_.is_visited(id))
        return;
      visited_.mark_visited(id);
      queue_.push({v, d});
      if (d > max_depth_)
        max_depth_ = d;
      ++count_;
    }
    bfs_state(G& g, vertex_type'''),all=True)
ref('V02,V04','bfs target cpo',(B,'        auto target_vid = adj_list::vertex_id(*g_, target_v);\n','        const auto target_vid{adj_list::vertex_id(*g_, target_v)};\n'),all=True)
ref('V02,V04','bfs g reference',(B,'      auto edge_range = Accessor{}.edges(*g_, current.vertex);\n','      G&   g          = *g_;\n      auto edge_range = Accessor{}.edges(g, current.vertex);\n'),all=True)
ref('V02,V04','ebfs push order',(B,'''            auto target_begin      = std::ranges::begin(target_edge_range);
            auto target_end        = std::ranges::end(target_edge_range);
            state_->queue_.push({target_v, current.depth + 1, target_end, target_begin});

            if (current.depth + 1 > state_->max_depth_) {
              state_->max_depth_ = current.depth + 1;
            }
            ++state_->count_;
''','''            ++state_->count_;
            state_->max_depth_ = std::max(state_->max_depth_, current.depth + 1);
            state_->queue_.push({target_v, current.depth + 1, std::ranges::end(target_edge_range), std::ranges::begin(target_edge_range)});
'''),all=True)
ref('V02,V04','ebfs branch pop front only',(B,'''        auto& last        = state_->queue_.back();
        last.edge_current = last.edge_end;''','''        state_->queue_.back().edge_current = state_->queue_.back().edge_end;'''),all=True)
ref('V02','bfs end sentinel',(B,'      bool this_at_end  = !state_ || state_->queue_.empty();\n      bool other_at_end = !other.state_ || other.state_->queue_.empty();\n      return this_at_end == other_at_end;','      return at_end() == other.at_end();'),all=True)
ref('V02','ebfs postfix',(B,'      auto tmp = *this;\n      advance_to_next_edge();\n      return tmp;','      iterator tmp(*this);\n      ++*this;\n      return tmp;'),all=True)
ref('V02','bfs make_shared alloc',(B,'state_(std::make_shared<state_type>(g, seed_vertex, adj_list::num_vertices(g), alloc))','state_(std::shared_ptr<state_type>(new state_type(g, seed_vertex, adj_list::num_vertices(g), alloc)))'),all=True)
ref('V04','cancel early return',(B,'''    if (state_)
      state_->cancel_ = c;''','''    if (!state_)
      return;
    state_->cancel_ = c;'''),(D,'''    if (state_)
      state_->cancel_ = c;''','''    if (!state_)
      return;
    state_->cancel_ = c;'''),all=True)
# ------------------------------------------------ bugs
bug('V03','dfs depth stale on exhausted',(D,'''        state_->stack_.pop();
        if (state_->depth_ > 0)
          --state_->depth_;
      }
    }''','''        if (state_->stack_.size() > 1 || state_->depth_ > 0)
          state_->stack_.pop();
        else
          return;
        if (state_->depth_ > 0)
          --state_->depth_;
      }
    }'''),all=True)
bug('V03','dfs next edges of top',(D,'          auto edge = *top.edge_iter;\n          ++top.edge_iter;\n','          auto edge = *top.edge_iter;\n          if (++top.edge_iter == top.edge_end && state_->stack_.size() > 64) break;\n'),all=True)
bug('V04','dfs cancel all stops at branch',(D,'      if (state_->cancel_ == cancel_search::cancel_all) {\n        while (!state_->stack_.empty())','      if (state_->cancel_ == cancel_search::cancel_all) {\n        while (state_->stack_.size() > 1)'),all=True)
bug('V04','dfs branch pops edge',(D,'''        state_->stack_.pop();
        if (state_->depth_ > 0)
          --state_->depth_;
        state_->cancel_ = cancel_search::continue_search;''','''        if (state_->depth_ > 0) {
          state_->stack_.pop();
          --state_->depth_;
        }
        state_->cancel_ = cancel_search::continue_search;'''),all=True)
bug('V02','bfs depth from max',(B,'state_->queue_.push({target_v, current.depth + 1, target_end, target_begin});','state_->queue_.push({target_v, state_->max_depth_ + 1, target_end, target_begin});'),all=True)
bug('V02','bfs mark self loop',(B,'        if (!state_->visited_.is_visited(target_vid)) {\n          state_->visited_.mark_visited(target_vid);\n          state_->queue_','        if (!state_->visited_.is_visited(target_vid)) {\n          if (!state_->queue_.empty()) state_->visited_.mark_visited(target_vid);\n          state_->queue_'),all=True)
bug('V02','ebfs front after push',(B,'''            // Store and return this edge
            current_edge_      = edge;''','''            // Store and return this edge
            if (current.edge_current == current.edge_end) state_->queue_.pop();
            current_edge_      = edge;'''),nth=0) if 0 else None
bug('V04','ebfs branch drops front',(B,'        auto& last        = state_->queue_.back();\n        last.edge_current = last.edge_end;','        auto& last        = state_->queue_.back();\n        if (last.edge_current != last.edge_end) ++last.edge_current;'),all=True)
M=[m for m in M if m]

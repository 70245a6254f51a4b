M=[]
T='views/topological_sort.hpp'
def bug(n,*e,**k): M.append(dict(prop='V05',name='vb5 '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop='V05',name='vb5 '+n,kind='refactor',edits=list(e),**k))
RL='''          auto v          = state_->post_order_[vertex_index_];
          auto edge_range = Accessor{}.edges(*g_, v);
          edge_it_        = std::ranges::begin(edge_range);
          edge_end_       = std::ranges::end(edge_range);
'''
ADV='''      while (vertex_index_ < state_->post_order_.size()) {
        if (edge_it_ != edge_end_) {
          return;
        }

        ++state_->count_;
        ++vertex_index_;
        if (vertex_index_ < state_->post_order_.size()) {
'''+RL+'''        }
      }
'''
SK=ADV.replace('\n        ++state_->count_;\n','')
REST='''      std::stack<frame, std::vector<frame>> frames;
'''
ref('adv while empty',(T,ADV,'''      while (vertex_index_ < state_->post_order_.size() && edge_it_ == edge_end_) {
        ++state_->count_;
        ++vertex_index_;
        if (vertex_index_ < state_->post_order_.size()) {
'''+RL+'''        }
      }
'''),all=True)
ref('adv break',(T,ADV,'''      for (;;) {
        if (vertex_index_ >= state_->post_order_.size())
          break;
        if (edge_it_ != edge_end_)
          break;
        ++vertex_index_;
        ++state_->count_;
        if (vertex_index_ >= state_->post_order_.size())
          break;
'''+RL+'''      }
'''),all=True)
ref('adv ne size',(T,ADV,ADV.replace('while (vertex_index_ < state_->post_order_.size())','while (vertex_index_ != state_->post_order_.size())')),all=True)
ref('adv local order',(T,ADV,'      const auto& order = state_->post_order_;\n      const auto  n     = order.size();\n'+ADV.replace('state_->post_order_.size()','n').replace('state_->post_order_','order')),all=True)
ref('adv helper load',(T,RL,'          load();\n'),(T,'''    /// Advance to next edge, incrementing''','''    void load() {
      auto edge_range = Accessor{}.edges(*g_, state_->post_order_[vertex_index_]);
      edge_it_        = std::ranges::begin(edge_range);
      edge_end_       = std::ranges::end(edge_range);
    }
    /// Advance to next edge, incrementing'''),all=True)
ref('adv at()',(T,RL,RL.replace('post_order_[vertex_index_]','post_order_.at(vertex_index_)')),all=True)
ref('adv iterator index',(T,RL,RL.replace('state_->post_order_[vertex_index_]','*(state_->post_order_.begin() + static_cast<std::ptrdiff_t>(vertex_index_))')),all=True)
ref('skip not',(T,SK,'''      while (vertex_index_ < state_->post_order_.size() && !(edge_it_ != edge_end_)) {
        if (++vertex_index_ < state_->post_order_.size()) {
'''+RL+'''        }
      }
'''),all=True)
ref('skip one function',(T,'        skip_to_first_edge();','        advance_to_next_edge(false);'),(T,'      advance_to_next_edge();\n','      advance_to_next_edge(true);\n'),(T,'void advance_to_next_edge() {','void advance_to_next_edge(bool counting) {'),(T,'        ++state_->count_;\n        ++vertex_index_','        if (counting)\n          ++state_->count_;\n        ++vertex_index_'),all=True)
ref('eq at_end first',(T,'''      if (at_end() && other.at_end())
        return true;
      if (at_end() || other.at_end())
        return false;
''','''      const bool a = at_end(), b = other.at_end();
      if (a || b)
        return a == b;
'''),all=True)
ref('verts eq short',(T,'''      if (!state_ && !other.state_)
        return true;
      if (!state_ || !other.state_)
        return false;
      return state_ == other.state_ && index_ == other.index_;''','''      if (!state_)
        return !other.state_;
      return state_ == other.state_ && index_ == other.index_;'''),all=True)
ref('verts inc if first',(T,'''      ++index_;
      if (state_)
        ++state_->count_;
''','''      if (state_)
        state_->count_ += 1;
      index_ += 1;
'''),all=True)
ref('at_end split',(T,'''      return !state_ || index_ >= state_->post_order_.size() || state_->cancel_ != cancel_search::continue_search;''','''      if (!state_)
        return true;
      if (state_->cancel_ != cancel_search::continue_search)
        return true;
      return !(index_ < state_->post_order_.size());'''),all=True)
ref('at_end two cancels',(T,'state_->cancel_ != cancel_search::continue_search;','(state_->cancel_ == cancel_search::cancel_all || state_->cancel_ == cancel_search::cancel_branch);'),all=True) if 0 else None
ref('safe ternary',(T,'''  if (state->has_cycle()) {
    return tl::unexpected(state->cycle_vertex().value());
  }
''','''  if (const auto& bad = state->cycle_vertex())
    return tl::unexpected(*bad);
'''),all=True)
ref('safe inverted',(T,'''  if (state->has_cycle()) {
    return tl::unexpected(state->cycle_vertex().value());
  }

  return view_type(g, std::move(state));
''','''  if (!state->has_cycle())
    return view_type(g, std::move(state));
  return tl::unexpected(state->cycle_vertex().value());
'''),all=True)
ref('safe helper',(T,'''  auto state =
        std::make_shared<topo_detail::topo_state<G, std::allocator<bool>, Accessor>>(g, std::allocator<bool>{}, true);
''','''  auto state = topo_detail::make_checked<Accessor>(g);
'''),(T,'''} // namespace topo_detail
''','''  template <class Accessor, class G>
  auto make_checked(G& g) {
    return std::make_shared<topo_state<G, std::allocator<bool>, Accessor>>(g, std::allocator<bool>{}, true);
  }
} // namespace topo_detail
'''),all=True)
# ---- the order itself
ref('ctor ids',(T,'''      for (auto v : adj_list::vertices(g)) {
        auto vid = adj_list::vertex_id(g, v);
        if (!visited_.is_visited(vid)) {
          dfs_visit(g, v, detect_cycles);
          if (cycle_vertex_) {
            return; // Early exit on cycle detection
          }
        }
      }
''','''      for (auto v : adj_list::vertices(g)) {
        if (visited_.is_visited(adj_list::vertex_id(g, v)))
          continue;
        dfs_visit(g, v, detect_cycles);
        if (has_cycle())
          return;
      }
'''))
ref('ctor iter',(T,'''      for (auto v : adj_list::vertices(g)) {
        auto vid = adj_list::vertex_id(g, v);
        if (!visited_.is_visited(vid)) {
          dfs_visit(g, v, detect_cycles);
          if (cycle_vertex_) {
            return; // Early exit on cycle detection
          }
        }
      }

      // Reverse for topological order (only if no cycle)
      if (!cycle_vertex_) {
        std::ranges::reverse(post_order_);
      }
''','''      auto vs = adj_list::vertices(g);
      auto it = std::ranges::begin(vs);
      auto last = std::ranges::end(vs);
      while (!cycle_vertex_ && it != last) {
        auto v = *it;
        ++it;
        if (!visited_.is_visited(adj_list::vertex_id(g, v)))
          dfs_visit(g, v, detect_cycles);
      }
      if (!cycle_vertex_)
        std::ranges::reverse(post_order_);
'''))
ref('ctor break',(T,'            return; // Early exit on cycle detection','            break;'))
ref('ctor reverse always after',(T,'''      if (!cycle_vertex_) {
        std::ranges::reverse(post_order_);
      }
''','''      std::ranges::reverse(post_order_.begin(), post_order_.end());
'''))
ref('ctor no reserve',(T,'      post_order_.reserve(adj_list::num_vertices(g));\n',''))
ref('ctor rec resize',(T,'          , rec_stack_(detect_cycles ? adj_list::num_vertices(g) : 0, false, alloc) {','          , rec_stack_(alloc) {\n      if (detect_cycles)\n        rec_stack_.resize(adj_list::num_vertices(g), false);'))
ref('ctor rec always',(T,'rec_stack_(detect_cycles ? adj_list::num_vertices(g) : 0, false, alloc)','rec_stack_(adj_list::num_vertices(g), false, alloc)'))
ref('visit if else',(T,'''          post_order_.push_back(current.vertex);
          frames.pop();
          continue;
        }

        auto edge = *current.edge_current;
        ++current.edge_current;

        auto target_v   = Accessor{}.neighbor(g, edge);
        auto target_vid = adj_list::vertex_id(g, target_v);

        if (detect_cycles && rec_stack_[target_vid]) {
          // Back edge detected - target_v closes the cycle
          cycle_vertex_ = target_v;
          return;
        }

        if (!visited_.is_visited(target_vid)) {
          enter(target_v);
        }
''','''          post_order_.push_back(current.vertex);
          frames.pop();
        } else {
          auto target_v   = Accessor{}.neighbor(g, *current.edge_current);
          auto target_vid = adj_list::vertex_id(g, target_v);
          ++current.edge_current;
          if (detect_cycles && rec_stack_[target_vid]) {
            cycle_vertex_ = target_v;
            break;
          } else if (!visited_.is_visited(target_vid)) {
            enter(target_v);
          }
        }
'''))
ref('visit inner loop',(T,'''        if (current.edge_current == current.edge_end) {
          // All children visited: add to post-order
          if (detect_cycles) {
            rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;
          }
          post_order_.push_back(current.vertex);
          frames.pop();
          continue;
        }

        auto edge = *current.edge_current;
        ++current.edge_current;

        auto target_v   = Accessor{}.neighbor(g, edge);
        auto target_vid = adj_list::vertex_id(g, target_v);

        if (detect_cycles && rec_stack_[target_vid]) {
          // Back edge detected - target_v closes the cycle
          cycle_vertex_ = target_v;
          return;
        }

        if (!visited_.is_visited(target_vid)) {
          enter(target_v);
        }
''','''        bool down = false;
        while (current.edge_current != current.edge_end) {
          auto edge = *current.edge_current;
          ++current.edge_current;
          auto target_v   = Accessor{}.neighbor(g, edge);
          auto target_vid = adj_list::vertex_id(g, target_v);
          if (detect_cycles && rec_stack_[target_vid]) {
            cycle_vertex_ = target_v;
            return;
          }
          if (!visited_.is_visited(target_vid)) {
            enter(target_v);
            down = true;
            break;
          }
        }
        if (down)
          continue;
        if (detect_cycles)
          rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;
        post_order_.push_back(current.vertex);
        frames.pop();
'''))
ref('visit vector frames',(T,'std::stack<frame, std::vector<frame>> frames;','std::vector<frame> frames;'),(T,'frames.push({v, edge_end, edge_begin});','frames.push_back({v, edge_end, edge_begin});'),(T,'auto& current = frames.top();','auto& current = frames.back();'),(T,'          frames.pop();','          frames.pop_back();'))
ref('visit deque frames',(T,'std::stack<frame, std::vector<frame>> frames;','std::stack<frame> frames;'))
ref('visit copies',(T,'          post_order_.push_back(current.vertex);\n          frames.pop();','          auto done = current.vertex;\n          frames.pop();\n          post_order_.push_back(done);'))
ref('visit emplace cycle',(T,'          cycle_vertex_ = target_v;','          cycle_vertex_.emplace(target_v);'))
ref('visit rec test inner',(T,'        if (detect_cycles && rec_stack_[target_vid]) {\n          // Back edge detected - target_v closes the cycle\n          cycle_vertex_ = target_v;\n          return;\n        }','        if (detect_cycles) {\n          if (rec_stack_[target_vid]) {\n            cycle_vertex_ = target_v;\n            return;\n          }\n        }'))
bug('rec cleared on enter',(T,'''        if (detect_cycles && rec_stack_[target_vid]) {
          // Back''','''        if (detect_cycles && rec_stack_[target_vid] && frames.size() > 1) {
          // Back'''))
bug('adv count only if loaded',(T,'        ++state_->count_;\n        ++vertex_index_;\n        if (vertex_index_ < state_->post_order_.size()) {','        ++vertex_index_;\n        if (vertex_index_ < state_->post_order_.size()) {\n          ++state_->count_;'),all=True)
bug('skip stops before last',(T,SK,SK.replace('while (vertex_index_ <','while (vertex_index_ + 1 <')),all=True)
bug('begin at end not skipped',(T,'          skip_to_first_edge();','          if (edge_it_ == edge_end_ && vertex_index_ == 0) skip_to_first_edge();'),all=True) if 0 else None
bug('reserve then reverse half',(T,'        std::ranges::reverse(post_order_);','        std::ranges::reverse(post_order_.begin(), post_order_.begin() + std::ptrdiff_t(visited_.size()) - 1);'))
bug('rec size edge',(T,'rec_stack_(detect_cycles ? adj_list::num_vertices(g) : 0, false, alloc)','rec_stack_(detect_cycles ? adj_list::num_vertices(g) : 0, detect_cycles, alloc)'))
bug('verts inc twice post',(T,'      auto tmp = *this;\n      ++(*this);\n      return tmp;','      ++(*this);\n      auto tmp = *this;\n      return tmp;'),all=True)
M=[m for m in M if m]

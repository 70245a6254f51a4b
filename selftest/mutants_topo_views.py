M=[]
def bug(n,*e,**k): M.append(dict(prop='V05',name='tv '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop='V05',name='tv '+n,kind='refactor',edits=list(e),**k))
T='views/topological_sort.hpp'
bug('no rec reset',(T,'            rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;','            ;'))
bug('rec reset only if no edges skipped',(T,'          if (detect_cycles) {\n            rec_stack_[adj','          if (detect_cycles && frames.size() > 1) {\n            rec_stack_[adj'))
bug('no reverse',(T,'        std::ranges::reverse(post_order_);','        ;'))
bug('reverse unless',(T,'      if (!cycle_vertex_) {\n        std::','      if (!cycle_vertex_ && post_order_.size() > 2) {\n        std::'))
bug('mark on finish',(T,'        visited_.mark_visited(vid);\n        if (detect',"        if (detect"),(T,'          post_order_.push_back(current.vertex);','          visited_.mark_visited(adj_list::vertex_id(g, current.vertex));\n          post_order_.push_back(current.vertex);'))
bug('preorder',(T,'          post_order_.push_back(current.vertex);\n',''),(T,'        visited_.mark_visited(vid);\n        if (detect',"        post_order_.push_back(v);\n        visited_.mark_visited(vid);\n        if (detect"))
bug('advance after enter',(T,'        ++current.edge_current;\n',''),(T,'          enter(target_v);\n        }','          enter(target_v);\n        }\n        ++current.edge_current;'))
bug('cycle vertex is source',(T,'          cycle_vertex_ = target_v;','          cycle_vertex_ = current.vertex;'))
bug('cycle when visited',(T,'detect_cycles && rec_stack_[target_vid]','detect_cycles && visited_.is_visited(target_vid)'))
bug('no early exit on cycle',(T,'          if (cycle_vertex_) {\n            return; // Early exit on cycle detection\n          }',''))
bug('roots skip last',(T,'        if (!visited_.is_visited(vid)) {\n          dfs','        if (!visited_.is_visited(vid) && (vid + 1 < adj_list::num_vertices(g) || vid == 0)) {\n          dfs'))
bug('safe ignores cycle',(T,'state->has_cycle()','state->post_order_.empty()'),all=True)
for n in range(4):
    bug('edge skip one empty vertex only #%d'%n,(T,'''      while (vertex_index_ < state_->post_order_.size()) {
        if (edge_it_ != edge_end_) {''','''      if (vertex_index_ < state_->post_order_.size()) {
        if (edge_it_ != edge_end_) {'''),nth=n)
for n in range(4):
    bug('edge range end not reloaded #%d'%n,(T,'''        if (vertex_index_ < state_->post_order_.size()) {
          auto v          = state_->post_order_[vertex_index_];
          auto edge_range = Accessor{}.edges(*g_, v);
          edge_it_        = std::ranges::begin(edge_range);
          edge_end_       = std::ranges::end(edge_range);''','''        if (vertex_index_ < state_->post_order_.size()) {
          auto v          = state_->post_order_[vertex_index_];
          auto edge_range = Accessor{}.edges(*g_, v);
          edge_it_        = std::ranges::begin(edge_range);
          if (vertex_index_ != 7) edge_end_       = std::ranges::end(edge_range);'''),nth=n)
for n in range(4):
    bug('at_end ignores cancel #%d'%n,(T,'state_->cancel_ != cancel_search::continue_search;','state_->cancel_ == cancel_search::cancel_all;'),nth=n)
for n in range(2):
    bug('edges eq ignores index #%d'%n,(T,'return vertex_index_ == other.vertex_index_ && edge_it_ == other.edge_it_;','return edge_it_ == other.edge_it_;'),nth=n)
    bug('verts eq ignores index #%d'%n,(T,'return state_ == other.state_ && index_ == other.index_;','return state_ == other.state_;'),nth=n)
    bug('count at begin #%d'%n,(T,'          skip_to_first_edge(); // Position without incrementing count_' if False else '        skip_to_first_edge(); // Position without incrementing count_','        advance_to_next_edge();'),nth=n)
    bug('verts count twice #%d'%n,(T,'      if (state_)\n        ++state_->count_;','      if (state_ && index_ > 1)\n        ++state_->count_;'),nth=n)
bug('in-edges as out', (T,'        auto edge_range = Accessor{}.edges(g, v);','        auto edge_range = adj_list::edges(g, v);') if False else (T,'auto target_v   = Accessor{}.neighbor(g, edge);','auto target_v   = adj_list::target(g, edge);'))
ref('visited first',(T,'''        if (detect_cycles && rec_stack_[target_vid]) {
          // Back edge detected - target_v closes the cycle
          cycle_vertex_ = target_v;
          return;
        }

        if (!visited_.is_visited(target_vid)) {
          enter(target_v);
        }''','''        if (!visited_.is_visited(target_vid)) {
          enter(target_v);
          continue;
        }
        if (detect_cycles && rec_stack_[target_vid]) {
          cycle_vertex_ = target_v;
          return;
        }'''))
ref('for loop ids',(T,'      for (auto v : adj_list::vertices(g)) {\n        auto vid = adj_list::vertex_id(g, v);\n        if (!visited_.is_visited(vid)) {','      auto vr = adj_list::vertices(g);\n      for (auto vit = std::ranges::begin(vr); vit != std::ranges::end(vr); ++vit) {\n        auto v = *vit;\n        const auto vid = adj_list::vertex_id(g, v);\n        if (visited_.is_visited(vid)) continue; else {'))
ref('reverse std',(T,'std::ranges::reverse(post_order_);','std::reverse(post_order_.begin(), post_order_.end());'))
ref('visit returns bool',(T,'          dfs_visit(g, v, detect_cycles);\n          if (cycle_vertex_) {','          if (!dfs_visit(g, v, detect_cycles)) {'),(T,'    void dfs_visit(G& g','    bool dfs_visit(G& g'),(T,'          cycle_vertex_ = target_v;\n          return;','          cycle_vertex_ = target_v;\n          return false;'),(T,'          enter(target_v);\n        }\n      }','          enter(target_v);\n        }\n      }\n      return true;'))
ref('pop before record',(T,'          post_order_.push_back(current.vertex);\n          frames.pop();','          auto fin = current.vertex;\n          frames.pop();\n          post_order_.push_back(fin);'))
ref('for loop walk',(T,'''      while (vertex_index_ < state_->post_order_.size()) {
        if (edge_it_ != edge_end_) {
          return; // Found an edge
        }

        // Done with previous vertex's edges — count it
        ++state_->count_;
        ++vertex_index_;
        if (vertex_index_ < state_->post_order_.size()) {
          auto v          = state_->post_order_[vertex_index_];
          auto edge_range = Accessor{}.edges(*g_, v);
          edge_it_        = std::ranges::begin(edge_range);
          edge_end_       = std::ranges::end(edge_range);
        }
      }''','''      const std::size_t n = state_->post_order_.size();
      while (edge_it_ == edge_end_) {
        ++state_->count_;
        ++vertex_index_;
        if (vertex_index_ >= n) break;
        auto&& edge_range = Accessor{}.edges(*g_, state_->post_order_[vertex_index_]);
        edge_it_        = std::ranges::begin(edge_range);
        edge_end_       = std::ranges::end(edge_range);
      }'''))
ref('at_end order',(T,'''return !state_ || vertex_index_ >= state_->post_order_.size() ||
             state_->cancel_ != cancel_search::continue_search;''','''if (!state_ || state_->cancel_ != cancel_search::continue_search) return true;
      return vertex_index_ == state_->post_order_.size() || !(vertex_index_ < state_->post_order_.size());''') if False else (T,'''return !state_ || vertex_index_ >= state_->post_order_.size() ||
             state_->cancel_ != cancel_search::continue_search;''','''if (!state_ || state_->cancel_ != cancel_search::continue_search) return true;
      return !(vertex_index_ < state_->post_order_.size());'''))

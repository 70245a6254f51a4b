"""More rewrites of the view code."""
T='views/topological_sort.hpp'
M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='w '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='w '+n,kind='refactor',edits=list(e),**k))
V='V05'
BACK="        if (detect_cycles && rec_stack_[target_vid]) {\n          // Back edge detected - target_v closes the cycle\n          cycle_vertex_ = target_v;\n          return;\n        }\n\n"
ref(V,'tv enter inline root',(T,"      enter(root);\n      while (!frames.empty()) {","      for (enter(root); !frames.empty();) {"))
ref(V,'tv enter member',(T,"      auto enter = [&](vertex_type v) {\n        auto vid = adj_list::vertex_id(g, v);\n        visited_.mark_visited(vid);\n        if (detect_cycles) {\n          rec_stack_[vid] = true;\n        }\n","      auto note = [&](vertex_type v) {\n        const auto vid = adj_list::vertex_id(g, v);\n        if (detect_cycles)\n          rec_stack_[vid] = true;\n        visited_.mark_visited(vid);\n      };\n      auto enter = [&](vertex_type v) {\n        note(v);\n"))
ref(V,'tv done lambda',(T,"          if (detect_cycles) {\n            rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;\n          }\n          post_order_.push_back(current.vertex);\n          frames.pop();\n          continue;","          const vertex_type done = current.vertex;\n          frames.pop();\n          if (detect_cycles) {\n            rec_stack_[adj_list::vertex_id(g, done)] = false;\n          }\n          post_order_.push_back(done);\n          continue;"))
ref(V,'tv if else',(T,"          frames.pop();\n          continue;\n        }\n\n        auto edge = *current","          frames.pop();\n        } else {\n        auto edge = *current"),(T,"          enter(target_v);\n        }\n      }\n","          enter(target_v);\n        }\n        }\n      }\n"))
ref(V,'tv post increment',(T,"        auto edge = *current.edge_current;\n        ++current.edge_current;\n","        auto edge = *current.edge_current++;\n"))
ref(V,'tv visited nest',(T,BACK,""),(T,"        if (!visited_.is_visited(target_vid)) {\n          enter(target_v);\n        }\n","        if (!visited_.is_visited(target_vid)) {\n          enter(target_v);\n        } else if (detect_cycles && rec_stack_[target_vid]) {\n          cycle_vertex_ = target_v;\n          return;\n        }\n"))
ref(V,'tv break on cycle',(T,"          cycle_vertex_ = target_v;\n          return;","          cycle_vertex_ = target_v;\n          break;"))
ref(V,'tv emplace cycle',(T,"          cycle_vertex_ = target_v;","          cycle_vertex_.emplace(target_v);"))
ref(V,'tv skip visited continue',(T,"        if (!visited_.is_visited(vid)) {\n          dfs_visit(g, v, detect_cycles);\n          if (cycle_vertex_) {\n            return; // Early exit on cycle detection\n          }\n        }\n","        if (visited_.is_visited(vid))\n          continue;\n        dfs_visit(g, v, detect_cycles);\n        if (cycle_vertex_.has_value()) {\n          return;\n        }\n"))
ref(V,'tv break constructor',(T,"            return; // Early exit on cycle detection","            break; // Early exit on cycle detection"))
ref(V,'tv vector frames',(T,"std::stack<frame, std::vector<frame>> frames;","std::vector<frame> frames;"),(T,"frames.push({v, edge_end, edge_begin});","frames.push_back({v, edge_end, edge_begin});"),(T,"frames.top()","frames.back()"),(T,"          frames.pop();","          frames.pop_back();"))
ref(V,'tv frame field order',(T,"        edge_iter_type edge_end;\n        edge_iter_type edge_current;\n","        edge_iter_type edge_current;\n        edge_iter_type edge_end;\n"),(T,"frames.push({v, edge_end, edge_begin});","frames.push({v, edge_begin, edge_end});"))
ref(V,'tv rec stack resized',(T,"          , rec_stack_(detect_cycles ? adj_list::num_vertices(g) : 0, false, alloc) {\n","          , rec_stack_(alloc) {\n      if (detect_cycles)\n        rec_stack_.resize(adj_list::num_vertices(g), false);\n"))
ref(V,'tv reverse no test',(T,"      if (!cycle_vertex_) {\n        std::ranges::reverse(post_order_);\n      }\n","      std::ranges::reverse(post_order_);\n"))
EDG="""          auto v          = state_->post_order_[vertex_index_];
          auto edge_range = Accessor{}.edges(*g_, v);
          edge_it_        = std::ranges::begin(edge_range);
          edge_end_       = std::ranges::end(edge_range);
"""
for i in range(2):
    ref(V,'tv edges skip shared %d'%i,(T,"        ++state_->count_;\n        ++vertex_index_;\n","        ++vertex_index_;\n        ++state_->count_;\n"),nth=i)
    ref(V,'tv edges at_end order %d'%i,(T,"      return vertex_index_ == other.vertex_index_ && edge_it_ == other.edge_it_;","      return edge_it_ == other.edge_it_ && vertex_index_ == other.vertex_index_;"),nth=i)
    ref(V,'tv edges post inc %d'%i,(T,"      ++edge_it_;\n      advance_to_next_edge();\n","      edge_it_++;\n      this->advance_to_next_edge();\n"),nth=i)
    ref(V,'tv load helper %d'%i,(T,"    void advance_to_next_edge() {","    void load() {\n"+EDG.replace("          auto v ","          const auto v ")+"    }\n\n    void advance_to_next_edge() {"),nth=i)
    bug(V,'tv edges skip one vertex %d'%i,(T,"        ++state_->count_;\n        ++vertex_index_;\n","        ++state_->count_;\n        vertex_index_ += 1 + (vertex_index_ == 64);\n"),nth=i)
    bug(V,'tv edges count twice %d'%i,(T,"        ++state_->count_;\n        ++vertex_index_;\n","        state_->count_ += 2;\n        ++vertex_index_;\n"),nth=i)
    bug(V,'tv edges ctor counts %d'%i,(T,"        ++vertex_index_;\n        if (vertex_index_ <","        ++vertex_index_;\n        ++state_->count_;\n        if (vertex_index_ <"),nth=i*2)
bug(V,'tv rec cleared on visit',(T,"        if (!visited_.is_visited(target_vid)) {\n          enter(target_v);","        if (!visited_.is_visited(target_vid)) {\n          if (detect_cycles && frames.size() > 64) rec_stack_[adj_list::vertex_id(g, current.vertex)] = false;\n          enter(target_v);"))
bug(V,'tv cycle only if adjacent',(T,"          cycle_vertex_ = target_v;\n          return;","          if (frames.size() < 512) cycle_vertex_ = target_v;\n          return;"))

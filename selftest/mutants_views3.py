"""equivalent rewritings and bugs of the range views, written from the code alone"""
M=[]
E='views/edgelist.hpp'; I='views/incidence.hpp'; N='views/neighbors.hpp'; V='views/vertexlist.hpp'; X='views/transpose.hpp'; K='views/edge_accessor.hpp'
def bug(p,n,*e,**k): M.append(dict(prop=p,name='vb3 '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k):
    for q in p.split(','): M.append(dict(prop=q,name='vb3 '+n,kind='refactor',edits=list(e),**k))
WL='''      while (v_ != v_end_) {
        auto edge_range = adj_list::edges(*g_, v_);
        auto begin_it   = std::ranges::begin(edge_range);
        auto end_it     = std::ranges::end(edge_range);
        if (begin_it != end_it) {
          current_edge_ = *begin_it;
          edge_end_     = *end_it;
          return;
        }
        ++v_;
      }
'''
ref('V01','advance do while',(E,WL,'''      if (v_ == v_end_)
        return;
      do {
        auto edge_range = adj_list::edges(*g_, v_);
        auto begin_it   = std::ranges::begin(edge_range);
        auto end_it     = std::ranges::end(edge_range);
        if (begin_it != end_it) {
          current_edge_ = *begin_it;
          edge_end_     = *end_it;
          return;
        }
        ++v_;
      } while (v_ != v_end_);
'''),all=True)
ref('V01','advance continue',(E,WL,'''      for (; v_ != v_end_; ++v_) {
        auto&& edge_range = adj_list::edges(*g_, v_);
        auto   first      = std::ranges::begin(edge_range);
        auto   last       = std::ranges::end(edge_range);
        if (first == last)
          continue;
        edge_end_     = *last;
        current_edge_ = *first;
        break;
      }
'''),all=True)
ref('V01','advance end first',(E,WL,'''      while (!(v_ == v_end_)) {
        auto edge_range = adj_list::edges(*g_, v_);
        current_edge_   = *std::ranges::begin(edge_range);
        edge_end_       = *std::ranges::end(edge_range);
        if (!(current_edge_ == edge_end_))
          return;
        ++v_;
      }
'''),all=True)
ref('V01','advance ranges empty',(E,WL,'''      while (v_ != v_end_) {
        auto edge_range = adj_list::edges(*g_, v_);
        if (!std::ranges::empty(edge_range)) {
          current_edge_ = *std::ranges::begin(edge_range);
          edge_end_     = *std::ranges::end(edge_range);
          return;
        }
        ++v_;
      }
'''),all=True)
EQ='''      if (v_ == v_end_ && other.v_ == other.v_end_) {
        return true;
      }
      if (v_ == v_end_ || other.v_ == other.v_end_) {
        return false;
      }
      return v_ == other.v_ && current_edge_ == other.current_edge_;
'''
ref('V01','eq bools',(E,EQ,'''      const bool a = v_ == v_end_;
      const bool b = other.v_ == other.v_end_;
      if (a || b)
        return a && b;
      return v_ == other.v_ && current_edge_ == other.current_edge_;
'''),all=True)
ref('V01','eq ternary',(E,EQ,'''      const bool a = v_ == v_end_;
      const bool b = other.v_ == other.v_end_;
      return a || b ? a == b : (current_edge_ == other.current_edge_ && v_ == other.v_);
'''),all=True)
ref('V01','eq by vertex',(E,EQ,'''      if (v_ != other.v_)
        return v_ == v_end_ && other.v_ == other.v_end_;
      return v_ == v_end_ || current_edge_ == other.current_edge_;
'''),all=True)
INC='''      ++current_edge_;
      if (current_edge_ == edge_end_) {
        ++v_;
        advance_to_valid_edge();
      }
      return *this;
'''
ref('V01','inc early return',(E,INC,'''      if (++current_edge_; current_edge_ != edge_end_)
        return *this;
      ++v_;
      advance_to_valid_edge();
      return *this;
'''),all=True)
ref('V01','inc post',(E,INC,'''      current_edge_++;
      const bool done = current_edge_ == edge_end_;
      if (done) {
        v_++;
        this->advance_to_valid_edge();
      }
      return *this;
'''),all=True)
ref('V01','begin advance in ctor',(E,'''    auto v_range = adj_list::vertices(*g_);
    auto v_begin = *std::ranges::begin(v_range);
    auto v_end   = *std::ranges::end(v_range);

    iterator it(g_, v_begin, v_end, edge_type{}, edge_type{});
    it.advance_to_valid_edge();
    return it;''','''    auto&& vs = adj_list::vertices(*g_);
    auto   it = iterator(g_, *std::ranges::begin(vs), *std::ranges::end(vs), {}, {});
    it.advance_to_valid_edge();
    return it;'''))
ref('V01','begin loop here',(E,'''    iterator it(g_, v_begin, v_end, edge_type{}, edge_type{});
    it.advance_to_valid_edge();
    return it;''','''    for (auto v = v_begin; v != v_end; ++v) {
      auto es = adj_list::edges(*g_, v);
      if (std::ranges::begin(es) != std::ranges::end(es))
        return iterator(g_, v, v_end, *std::ranges::begin(es), *std::ranges::end(es));
    }
    return end();'''),all=True)
ref('V01','end reuse',(E,'    return iterator(g_, v_end, v_end, edge_type{}, edge_type{});','    return {g_, v_end, v_end, edge_type{}, edge_type{}};'),all=True)
ref('V01','deref reordered',(E,'''      auto source_id = adj_list::vertex_id(*g_, v_);
      auto target_id = adj_list::target_id(*g_, current_edge_);
''','''      const auto target_id = adj_list::target_id(*g_, current_edge_);
      const auto source_id = adj_list::vertex_id(*g_, v_);
'''),all=True)
ref('V01','deref designated',(E,'      return value_type{static_cast<vertex_id_type>(source_id), static_cast<vertex_id_type>(target_id), current_edge_};','      value_type r{};\n      r.edge      = current_edge_;\n      r.source_id = static_cast<vertex_id_type>(source_id);\n      r.target_id = static_cast<vertex_id_type>(target_id);\n      return r;'))
ref('V01','deref invoke direct',(E,'std::invoke(*evf_, std::as_const(*g_), current_edge_)','(*evf_)(static_cast<const G&>(*g_), current_edge_)'),all=True)
ref('V01','source id of edge',(E,'''                        static_cast<vertex_id_type>(adj_list::target_id(*g_, current_edge_)),
                        std::invoke''','''                        static_cast<vertex_id_type>(adj_list::target_id(std::as_const(*g_), current_edge_)),
                        std::invoke'''),all=True)
# incidence / neighbors
ref('V01','incidence postfix via prefix',(I,'''      auto tmp = *this;
      ++current_;
      return tmp;''','''      iterator tmp(*this);
      operator++();
      return tmp;'''),all=True)
ref('V01','incidence deref local',(I,'      return info_type{static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_)), current_};','      const Accessor acc{};\n      const auto     id = static_cast<vertex_id_type>(acc.neighbor_id(*g_, current_));\n      return {id, current_};'))
ref('V01','incidence begin accessor local',(I,'''    auto edge_range = Accessor{}.edges(*g_, source_);
    return iterator(g_, *std::ranges::begin(edge_range));''','''    constexpr Accessor acc{};
    auto&& es = acc.edges(*g_, source_);
    return iterator(g_, *es.begin());'''),all=True)
ref('V01','incidence size by iterators',(I,'    return std::ranges::size(Accessor{}.edges(*g_, source_));','    auto es = Accessor{}.edges(*g_, source_);\n    return std::ranges::size(es);'),all=True)
ref('V01','incidence eq through not',(I,'const noexcept { return current_ == other.current_; }','const noexcept { return !(current_ != other.current_); }'),all=True)
ref('V01','neighbors order of calls',(N,'''      auto nbr    = Accessor{}.neighbor(*g_, current_edge_);
      auto nbr_id = static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_));
      return value_type{nbr_id, nbr};''','''      const Accessor acc;
      const auto nbr_id = static_cast<vertex_id_type>(acc.neighbor_id(*g_, current_edge_));
      return {nbr_id, acc.neighbor(*g_, current_edge_)};'''))
ref('V01','neighbors id from vertex',(N,'''      auto nbr_id = static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_));
      return value_type{nbr_id, nbr};''','''      auto nbr_id = static_cast<vertex_id_type>(adj_list::vertex_id(*g_, nbr));
      return value_type{nbr_id, nbr};'''))
ref('V01','accessor neighbor by find',(K,'    return adj_list::target(g, e);','    return *adj_list::find_vertex(g, adj_list::target_id(g, e));'))
ref('V01','accessor in neighbor local',(K,'    return *adj_list::find_vertex(g, adj_list::source_id(g, e));','    const auto id = adj_list::source_id(g, e);\n    auto       it = adj_list::find_vertex(g, id);\n    return *it;'))
ref('V01','vertexlist deref locals',(V,'      return value_type{adj_list::vertex_id(*g_, current_), current_};','      auto id = adj_list::vertex_id(*g_, current_);\n      return {id, current_};'))
# transpose
ref('V07','target via accessor',(X,'    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));','    const G& g = *tv.g_;\n    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(g, e));'),nth=0)
ref('V07','target own id',(X,'    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));','    return *find_vertex(tv, target_id(tv, e));'),all=True)
ref('V07','source find',(X,'    return adj_list::target(*tv.g_, e);','    return *adj_list::find_vertex(*tv.g_, adj_list::target_id(*tv.g_, e));'),all=True)
ref('V07','base',(X,'return adj_list::num_vertices(*tv.g_);','return adj_list::num_vertices(tv.base());'))
ref('V07','degree local',(X,'    return adj_list::in_degree(*tv.g_, v);','    auto& g = *tv.g_;\n    return adj_list::in_degree(g, v);'),all=True)
ref('V07','edges no forward',(X,'    return adj_list::in_edges(*tv.g_, std::forward<V>(v));','    return adj_list::in_edges(*tv.g_, v);'),all=True)
# bugs
bug('V01','advance not past end edge',(E,WL,WL.replace('edge_end_     = *end_it;','edge_end_     = *begin_it;')))
bug('V01','eq ends only own',(E,EQ,EQ.replace('v_ == v_end_ && other.v_ == other.v_end_','v_ == v_end_')))
ref('V01','eq no vertex',(E,EQ,EQ.replace('return v_ == other.v_ && current','return current')))
bug('V01','inc wrong order',(E,INC,INC.replace('        ++v_;\n        advance_to_valid_edge();','        advance_to_valid_edge();')))
bug('V01','inc skips vertex',(E,INC,INC.replace('        ++v_;\n','        ++v_;\n        if (v_ == v_end_) return *this;\n        ++v_;\n')))
bug('V01','inc no end check',(E,INC,INC.replace('if (current_edge_ == edge_end_) {','while (current_edge_ == edge_end_ && v_ != v_end_) {')))
bug('V01','begin empty first',(E,'''    iterator it(g_, v_begin, v_end, edge_type{}, edge_type{});
    it.advance_to_valid_edge();
    return it;''','''    iterator it(g_, v_begin, v_end, edge_type{}, edge_type{});
    if (adj_list::num_edges(*g_) > 1)
      it.advance_to_valid_edge();
    return it;'''),nth=1)
ref('V01','neighbor in by source cpo',(K,'    return *adj_list::find_vertex(g, adj_list::source_id(g, e));','    return adj_list::source(g, e);'))
bug('V01','incidence end begin',(I,'    return iterator(g_, *std::ranges::end(edge_range));','    return iterator(g_, *std::ranges::begin(edge_range));'))
bug('V01','postfix after',(I,'''      auto tmp = *this;
      ++current_;
      return tmp;''','''      ++current_;
      auto tmp = *this;
      return tmp;'''))
bug('V07','in degree same',(X,'    return adj_list::degree(*tv.g_, v);','    return adj_list::in_degree(*tv.g_, v);'))
bug('V07','in_edges const not swapped',(X,'    return adj_list::edges(*tv.g_, std::forward<V>(v));','    return adj_list::in_edges(*tv.g_, std::forward<V>(v));'),nth=1)
bug('V07','target id const',(X,'    return adj_list::source_id(*tv.g_, e);','    return adj_list::target_id(*tv.g_, e);'),nth=0)

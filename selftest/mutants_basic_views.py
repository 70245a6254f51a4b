M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='bv '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='bv '+n,kind='refactor',edits=list(e),**k))
V='views/vertexlist.hpp';I='views/incidence.hpp';N='views/neighbors.hpp';E='views/edgelist.hpp';X='views/transpose.hpp';A='views/adaptors.hpp';K='views/edge_accessor.hpp'
bug('V01','advance skips one empty',(E,'      while (v_ != v_end_) {\n        auto edge_range','      if (v_ != v_end_) {\n        auto edge_range'),nth=0)
bug('V01','advance skips one empty 3',(E,'      while (v_ != v_end_) {\n        auto edge_range','      if (v_ != v_end_) {\n        auto edge_range'),nth=3)
bug('V01','begin not advanced',(E,'    it.advance_to_valid_edge();\n','    if (v_begin != v_end) { auto r = adj_list::edges(*g_, v_begin); if (std::ranges::begin(r) == std::ranges::end(r)) it.advance_to_valid_edge(); else it.advance_to_valid_edge(); }\n'),nth=0,kind2='x')
M[-1]['kind']='refactor'
bug('V01','advance before ++v',(E,'        ++v_;\n        advance_to_valid_edge();','        advance_to_valid_edge();\n        ++v_;'),nth=1)
bug('V01','edge_end not refreshed',(E,'          edge_end_     = *end_it;\n',''),nth=0)
bug('V01','eq ignores edge',(E,'      return v_ == other.v_ && current_edge_ == other.current_edge_;','      return v_ == other.v_;'),nth=0)
M[-1]['kind']='refactor'  # equality with end only: invisible in a loop (caught by the eq entries if any)
bug('V01','target of edge_end',(E,'adj_list::target_id(*g_, current_edge_)','adj_list::target_id(*g_, edge_end_)'),nth=1)
bug('V01','evf of wrong',(E,'std::invoke(*evf_, std::as_const(*g_), current_edge_)','std::invoke(*evf_, std::as_const(*g_), edge_end_)'),nth=0)
bug('V01','post-inc of vertexlist does nothing on tmp',(V,'      auto tmp = *this;\n      ++current_;\n      return tmp;','      ++current_;\n      return *this;'),nth=0)
bug('V01','post-inc neighbors',(N,'      auto tmp = *this;\n      ++current_edge_;\n      return tmp;','      ++current_edge_;\n      auto tmp = *this;\n      return tmp;'),nth=1)
bug('V01','post-inc edgelist advances edge only',(E,'      auto tmp = *this;\n      ++*this;','      auto tmp = *this;\n      ++current_edge_;'),nth=2)
ref('V01','neighbor vertex of source',(K,'return *adj_list::find_vertex(g, adj_list::source_id(g, e));','return adj_list::source(g, e);'))
bug('V01','size of subrange',(V,'adj_list::vertex_id(g, last_u) - adj_list::vertex_id(g, first_u)','adj_list::vertex_id(g, last_u) - adj_list::vertex_id(g, first_u) + 1'),nth=0)
bug('V01','size of basic subrange',(V,'static_cast<std::size_t>(last_uid - first_uid)','static_cast<std::size_t>(last_uid)'),nth=1)
bug('V01','in_incidence evf uses out accessor',(N,'  return neighbors_view<G, std::decay_t<VVF>, in_edge_accessor>(g, u, std::forward<VVF>(vvf));','  return neighbors_view<G, std::decay_t<VVF>, out_edge_accessor>(g, u, std::forward<VVF>(vvf));'),nth=0)
bug('V01','view ctor keeps default vvf',(V,': g_(&g), vvf_(std::move(vvf)), size_(adj_list::num_vertices(g))',': g_(&g), vvf_{}, size_(adj_list::num_vertices(g))'),nth=0)
bug('V01','basic neighbors id of source',(N,'static_cast<vertex_id_type>(Accessor{}.neighbor_id(*g_, current_edge_))','static_cast<vertex_id_type>(adj_list::vertex_id(*g_, current_edge_.source()))'),nth=0)
bug('V01','incidence size by out edges',(I,'return std::ranges::size(Accessor{}.edges(*g_, source_));','return std::ranges::size(adj_list::edges(*g_, source_));'),nth=1)
ref('V01','advance as for',(E,'''      while (v_ != v_end_) {
        auto edge_range''','''      for (; !(v_ == v_end_); ) {
        auto edge_range'''),all=True)
ref('V01','helper for increment',(E,'''      ++current_edge_;
      // If we've exhausted edges for current vertex, move to next vertex
      if (current_edge_ == edge_end_) {
        ++v_;
        advance_to_valid_edge();
      }
      return *this;''','''      ++current_edge_;
      if (!(current_edge_ == edge_end_)) return *this;
      ++v_;
      this->advance_to_valid_edge();
      return *this;'''),nth=0)
ref('V01','eq reordered',(E,'''      if (v_ == v_end_ && other.v_ == other.v_end_) {
        return true;
      }
      if (v_ == v_end_ || other.v_ == other.v_end_) {
        return false;
      }
      return v_''','''      const bool a = v_ == v_end_, b = other.v_ == other.v_end_;
      if (a || b) return a && b;
      return v_'''),all=True)
ref('V01','advance swaps compare',(E,'if (begin_it != end_it) {','if (end_it == begin_it) { ++v_; continue; } else {'),nth=0)
ref('V01','vertexlist post inc',(V,'      auto tmp = *this;\n      ++current_;\n      return tmp;','      iterator old(*this);\n      this->operator++();\n      return old;'),all=True)
ref('V01','size computed in size()',(V,'  [[nodiscard]] constexpr std::size_t size() const noexcept { return size_; }','  [[nodiscard]] constexpr std::size_t size() const noexcept { auto n = size_; return n; }'),all=True)
bug('V06','dfs adaptor seed 0',(A,'return vertices_dfs(std::forward<G>(g), std::move(adaptor.seed), std::move(adaptor.alloc));','return vertices_dfs(std::forward<G>(g), decltype(adaptor.seed){}, std::move(adaptor.alloc));'))
bug('V06','pipe drops evf',(A,'      return edgelist(std::forward<G>(g), std::move(adaptor.evf));','      return edgelist(std::forward<G>(g));'))
bug('V06','call form default vvf',(A,'    return graph::views::basic_vertexlist(std::forward<G>(g), std::forward<VVF>(vvf));','    return graph::views::basic_vertexlist(std::forward<G>(g), std::decay_t<VVF>{});'))
bug('V06','in pipe uses out',(A,'    return graph::views::in_neighbors(std::forward<G>(g), adj_list::vertex_id_t','    return graph::views::neighbors(std::forward<G>(g), adj_list::vertex_id_t'),nth=0)
bug('V06','topo pipe makes safe of other kind',(A,'return graph::views::vertices_topological_sort(std::forward<G>(g), adaptor.alloc);','return graph::views::edges_topological_sort(std::forward<G>(g), adaptor.alloc);'))
bug('V06','bfs seed plus one for value form',(A,'return vertices_bfs(std::forward<G>(g), std::move(adaptor.seed), std::move(adaptor.vvf),','return vertices_bfs(std::forward<G>(g), ++adaptor.seed, std::move(adaptor.vvf),'))
ref('V06','no move',(A,'std::move(adaptor.seed), std::move(adaptor.alloc)','adaptor.seed, adaptor.alloc'),all=True)
ref('V06','local seed',(A,'      return vertices_dfs(std::forward<G>(g), std::move(adaptor.seed), std::move(adaptor.alloc));','      auto s = adaptor.seed; auto al = adaptor.alloc; return graph::views::vertices_dfs(g, s, al);'))
ref('V06','find vertex in neighbors',(A,'      return neighbors(std::forward<G>(g), std::move(adaptor.uid));','      auto u = *adj_list::find_vertex(g, adaptor.uid); return graph::views::neighbors(g, u);'))
ref('V07','target old',(X,'    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));','    return adj_list::source(*tv.g_, e);'),all=True)
bug('V07','num_edges old',(X,'  friend constexpr auto num_edges(const transpose_view& tv, const V& v) {\n    return adj_list::in_degree','  friend constexpr auto num_edges(const transpose_view& tv, const V& v) {\n    return adj_list::degree'))
bug('V07','degree const',(X,'    return adj_list::in_degree(*tv.g_, v);','    return adj_list::degree(*tv.g_, v);'),nth=0)
bug('V07','edges const not swapped',(X,'''  friend constexpr auto edges(const transpose_view& tv, V&& v) {
    return adj_list::in_edges''','''  friend constexpr auto edges(const transpose_view& tv, V&& v) {
    return adj_list::edges'''))
bug('V07','source_id nonconst unswapped',(X,'''  friend constexpr auto source_id(transpose_view& tv, const E& e) {
    return adj_list::target_id''','''  friend constexpr auto source_id(transpose_view& tv, const E& e) {
    return adj_list::source_id'''))
ref('V07','target through helper',(X,'    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));','    auto id = adj_list::source_id(tv.base(), e); auto it = adj_list::find_vertex(tv.base(), id); return *it;'),all=True)

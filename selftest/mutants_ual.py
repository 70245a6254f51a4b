M=[]
I='container/detail/undirected_adjacency_list_impl.hpp'; H='container/undirected_adjacency_list.hpp'
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','C07'),name='ual '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k):
    for pr in k.pop('props',('C07','C09')): M.append(dict(prop=pr,name='ual '+n,kind='refactor',edits=list(e),**k))
bug('tail not moved back',(I,'    tail_ = uv_link.prev_;\n','    tail_ = nullptr;\n'))
bug('head not moved',(I,'  if (head_ == &uv) {\n    head_ = uv_link.next_;\n  }\n',''))
bug('prev wrong link',(I,'      prev_outward_link.next_ = uv_link.next_;','      prev_inward_link.next_ = uv_link.next_;'))
bug('next back link',(I,'      next_outward_link.prev_ = uv_link.prev_;','      next_inward_link.prev_ = uv_link.prev_;'))
bug('test out link first',(I,'    if (prev_inward_link.vertex_id_ == uv_link.vertex_id_) {\n      prev_inward_link.next_ = uv_link.next_;\n    } else {\n      assert(prev_outward_link.vertex_id_ == uv_link.vertex_id_);\n      prev_outward_link.next_ = uv_link.next_;\n    }','    if (prev_outward_link.vertex_id_ == uv_link.vertex_id_) {\n      prev_outward_link.next_ = uv_link.next_;\n    } else {\n      prev_inward_link.next_ = uv_link.next_;\n    }'))
bug('size not reduced',(I,'  uv_link.prev_ = uv_link.next_ = nullptr;\n  --size_;','  uv_link.prev_ = uv_link.next_ = nullptr;\n  if (head_) --size_;'))
bug('link back outward only',(I,'      uv_link.prev_           = tail_;\n      tail_outward_link.next_ = &uv;','      uv_link.prev_           = tail_;\n      tail_outward_link.next_ = &uv;\n      tail_inward_link.next_ = &uv;'))
bug('link no prev',(I,'      uv_link.prev_           = tail_;\n      tail_outward_link.next_ = &uv;','      tail_outward_link.next_ = &uv;'))
bug('count in vertex erase',(I,'  g.edge_alloc_.deallocate(uv, 1);\n  --g.edges_size_;','  g.edge_alloc_.deallocate(uv, 1);\n  if (&u != &v) --g.edges_size_;'))
bug('erase increments late',(I,'  ++uvi;\n  erase_edge(g, uv);\n  return uvi;','  ++uvi;\n  if (&*uvi) ++uvi;\n  erase_edge(g, uv);\n  return uvi;'))
bug('double free guard',(I,'  uv->~edge_type();\n  g.edge_alloc_.deallocate(uv, 1);','  uv->~edge_type();\n  if (&u != &v) g.edge_alloc_.deallocate(uv, 1);'))
bug('clear stops at one',(I,'  while (!edges_.empty()) {\n    erase_edge(g, &edges_.front());','  while (edges_.size() > 1) {\n    erase_edge(g, &edges_.front());'))
bug('resize from n+1',(H,'    for (; i < this->vertices_.size(); ++i)','    for (++i; i < this->vertices_.size(); ++i)'))
bug('count twice for selfloop',(H,'    edge_type*     uv  = make_edge(u, v);\n    ++this->edges_size_;','    edge_type*     uv  = make_edge(u, v);\n    this->edges_size_ += (u == v) ? 2 : 1;'))
bug('create by id moved swaps',(H,'    return create_edge(ui, vi, std::move(val));','    return uid <= vid ? create_edge(ui, vi, std::move(val)) : create_edge(vi, ui, std::move(val));'))
bug('graph erase keeps count',(I,'  this->edge_alloc_.deallocate(uv, 1);\n  --this->edges_size_;\n  return pos;','  this->edge_alloc_.deallocate(uv, 1);\n  return pos;'))
bug('graph erase returns same',(I,'  } while (pos != last && &*pos == uv);','  } while (false);'))
bug('vertex create keeps value',(H,'          vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), val));','          vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size())));'))
Q=dict(prop='C09')
bug('advance by out id',(I,'  if (inward_link.vertex_id_ == vertex_id_) {\n    edge_ = inward_link.next_;\n  } else {\n    assert(outward_link.vertex_id_ == vertex_id_);\n    edge_ = outward_link.next_;','  if (outward_link.vertex_id_ != vertex_id_) {\n    edge_ = inward_link.next_;\n  } else {\n    assert(outward_link.vertex_id_ == vertex_id_);\n    edge_ = outward_link.next_;'),**Q)
bug('retreat swapped',(I,'      edge_ = outward_link.prev_;','      edge_ = inward_link.prev_;'),**Q)
bug('retreat from end to front',(I,'    edge_             = &u->edge_back(*graph_);','    edge_             = &u->edge_front(*graph_);'),**Q)
bug('other vertex id',(I,'  return other_id != list_owner_id() ? list_owner_id() : list_target_id();','  return other_id == list_target_id() ? list_owner_id() : list_target_id() > list_owner_id() ? list_target_id() : list_owner_id();'),**Q)
bug('other by iterator',(I,'  return other != source(g) ? list_owner_id() : list_target_id();','  return other != target(g) ? list_owner_id() : list_target_id();'),**Q)
bug('target id stored',(H,'  return e.value()->other_vertex_id(g, static_cast<VId>(e.source_id()));','  return e.value()->list_target_id();'),**Q)
bug('edges skips vertex',(H,'      ++u_;\n      advance_vertex();','      if (++u_ != g_->vertices().end()) ++u_;\n      advance_vertex();'),**Q)
bug('edges begins at second',(H,'        if (u_->num_edges() > 0) {','        if (u_->num_edges() > 1) {'),**Q)
ref('find beyond',(H,'  if (static_cast<storage_type>(id) >= static_cast<storage_type>(g.vertices().size())) {','  if (static_cast<storage_type>(id) > static_cast<storage_type>(g.vertices().size())) {'),props=('C09',))
bug('has edge from vertices',(H,'has_edge() const noexcept { return edges_size_ > 0; }','has_edge() const noexcept { return edges_size_ > 1; }'),**Q)
bug('neighbors const begins',(I,'  const edge_type* first = edges_.empty() ? nullptr : &edges_.front();','  const edge_type* first = edges_.size() < 2 ? nullptr : &edges_.front();'),**Q)
bug('in_edges other',(H,'  friend constexpr auto in_edges(graph_type& g, const U& u) noexcept {\n    auto uid = static_cast<vertex_id_type>(u.vertex_id());','  friend constexpr auto in_edges(graph_type& g, const U& u) noexcept {\n    auto uid = static_cast<vertex_id_type>(u.vertex_id() / 2 * 2);'),**Q)
bug('edge id order',(I,'  return edge_id_type(list_owner_id(), list_target_id());','  return edge_id_type(std::min(list_owner_id(), list_target_id()), std::max(list_owner_id(), list_target_id()));'),**Q)
# behaviour-preserving
ref('unlink via branches',(I,'  if (tail_ == &uv) {\n    tail_ = uv_link.prev_;\n  }\n','  if (!uv_link.next_)\n    tail_ = uv_link.prev_;\n'),(I,'  if (head_ == &uv) {\n    head_ = uv_link.next_;\n  }\n','  if (!uv_link.prev_)\n    head_ = uv_link.next_;\n'))
ref('link back merged',(I,'    if (tail_inward_link.vertex_id_ == uv_link.vertex_id_) {\n      uv_link.prev_          = tail_;\n      tail_inward_link.next_ = &uv;\n      tail_                  = &uv;\n    } else {\n      uv_link.prev_           = tail_;\n      tail_outward_link.next_ = &uv;\n      tail_                   = &uv;\n    }','    uv_link.prev_ = tail_;\n    edge_type*& nx = tail_inward_link.vertex_id_ == uv_link.vertex_id_ ? tail_inward_link.next_ : tail_outward_link.next_;\n    nx = &uv;\n    tail_ = &uv;'))
ref('clear by back',(I,'    erase_edge(g, &edges_.front());','    erase_edge(g, &edges_.back());'))
ref('clear by head',(I,'  while (!edges_.empty()) {\n    erase_edge(g, &edges_.front());','  for (std::size_t n = edges_.size(); edges_.size() != 0; --n) {\n    erase_edge(g, &edges_.front());'))
ref('order count',(I,'  uv->unlink(u, v);\n\n  uv->~edge_type();\n  g.edge_alloc_.deallocate(uv, 1);\n  --g.edges_size_;','  --g.edges_size_;\n  uv->unlink(u, v);\n  uv->~edge_type();\n  g.edge_alloc_.deallocate(uv, 1);'))
ref('erase helper',(I,'  edge_type* uv = &*uvi;\n  ++uvi;\n  erase_edge(g, uv);\n  return uvi;','  auto nx = uvi;\n  ++nx;\n  erase_edge(g, &*uvi);\n  return nx;'))
ref('advance no cycle test',(I,'  // Self-loop detection: if we\'ve cycled back to the starting edge, treat as end\n  if (edge_ == start_edge) {\n    edge_ = nullptr;\n  }\n','  (void)start_edge;\n'))
ref('advance ternary',(I,'  if (inward_link.vertex_id_ == vertex_id_) {\n    edge_ = inward_link.next_;\n  } else {\n    assert(outward_link.vertex_id_ == vertex_id_);\n    edge_ = outward_link.next_;\n  }\n','  edge_ = inward_link.vertex_id_ != vertex_id_ ? outward_link.next_ : inward_link.next_;\n'))
ref('other vertex branches',(I,'  return other_id != list_owner_id() ? list_owner_id() : list_target_id();','  const auto a = list_owner_id();\n  if (a == other_id)\n    return list_target_id();\n  return a;'))
ref('scan while',(H,'      for (; u_ != g_->vertices().end(); ++u_) {\n        if (u_->num_edges() > 0) {','      for (; !(u_ == g_->vertices().end()); ++u_) {\n        if (u_->num_edges() != 0) {'))
ref('find via in range',(H,'  if (static_cast<storage_type>(id) >= static_cast<storage_type>(g.vertices().size())) {\n    return view_iterator{static_cast<storage_type>(g.vertices().size())};\n  }\n  return view_iterator{static_cast<storage_type>(id)};','  const auto n = static_cast<storage_type>(g.vertices().size());\n  const auto i = static_cast<storage_type>(id);\n  return view_iterator{i < n ? i : n};'),all=True)
ref('count plus',(H,'++this->edges_size_;','this->edges_size_ += 1;'),all=True)
ref('range for clear',(I,'  for (vertex_type& u : this->vertices_)\n    u.clear_edges(derived);','  for (auto i = this->vertices_.begin(); i != this->vertices_.end(); ++i)\n    i->clear_edges(derived);'))
ref('range index clear',(I,'  for (vertex_type& u : this->vertices_)\n    u.clear_edges(derived);','  for (std::size_t i = 0; i < this->vertices_.size(); ++i)\n    this->vertices_[i].clear_edges(derived);'))

I='container/detail/undirected_adjacency_list_impl.hpp'; H='container/undirected_adjacency_list.hpp'
M=[]
def bug(prop,n,*e,**k): M.append(dict(prop=prop,name='ual2 '+n,kind='bug',edits=list(e),**k))
def ref(prop,n,*e,**k): M.append(dict(prop=prop,name='ual2 '+n,kind='refactor',edits=list(e),**k))

LB='''    if (tail_inward_link.vertex_id_ == uv_link.vertex_id_) {
      uv_link.prev_          = tail_;
      tail_inward_link.next_ = &uv;
      tail_                  = &uv;
    } else {
      uv_link.prev_           = tail_;
      tail_outward_link.next_ = &uv;
      tail_                   = &uv;
    }
'''
ref('C07','link back hoisted',(I,LB,'''    uv_link.prev_ = tail_;
    if (tail_inward_link.vertex_id_ == uv_link.vertex_id_)
      tail_inward_link.next_ = &uv;
    else
      tail_outward_link.next_ = &uv;
    tail_ = &uv;
'''))
ref('C07','link back reference',(I,LB,'''    edge_type*& successor =
          tail_inward_link.vertex_id_ == uv_link.vertex_id_ ? tail_inward_link.next_ : tail_outward_link.next_;
    successor     = &uv;
    uv_link.prev_ = tail_;
    tail_         = &uv;
'''))
ref('C07','link back old tail',(I,LB,'''    edge_type* const old_tail = tail_;
    tail_                     = &uv;
    uv_link.prev_             = old_tail;
    if (!(tail_inward_link.vertex_id_ == uv_link.vertex_id_))
      tail_outward_link.next_ = &uv;
    else
      tail_inward_link.next_ = &uv;
'''))
ref('C07','link back empty first',(I,'''  if (tail_) {
    vertex_edge_list_inward_link_type&  tail_inward_link  = static_cast<vertex_edge_list_inward_link_type&>(*tail_);''','''  ++size_;
  if (!tail_) {
    head_ = tail_ = &uv;
    return;
  }
  {
    vertex_edge_list_inward_link_type&  tail_inward_link  = static_cast<vertex_edge_list_inward_link_type&>(*tail_);'''),(I,LB+'''  } else {
    assert(!head_ && !tail_ && size_ == 0);
    head_ = tail_ = &uv;
  }
  ++size_;
''',LB+'''  }
'''))
UN='''  if (uv_link.prev_) {
    vertex_edge_list_inward_link_type& prev_inward_link =
          static_cast<vertex_edge_list_inward_link_type&>(*uv_link.prev_);
    vertex_edge_list_outward_link_type& prev_outward_link =
          static_cast<vertex_edge_list_outward_link_type&>(*uv_link.prev_);
    if (prev_inward_link.vertex_id_ == uv_link.vertex_id_) {
      prev_inward_link.next_ = uv_link.next_;
    } else {
      assert(prev_outward_link.vertex_id_ == uv_link.vertex_id_);
      prev_outward_link.next_ = uv_link.next_;
    }
  }
'''
ref('C07','unlink named neighbours',(I,UN,'''  edge_type* const before = uv_link.prev_;
  edge_type* const after  = uv_link.next_;
  if (before != nullptr) {
    auto& in_link = static_cast<vertex_edge_list_inward_link_type&>(*before);
    if (in_link.vertex_id_ != uv_link.vertex_id_)
      static_cast<vertex_edge_list_outward_link_type&>(*before).next_ = after;
    else
      in_link.next_ = after;
  }
'''))
ref('C07','unlink else head',(I,UN,UN.rstrip()+''' else {
    head_ = uv_link.next_;
  }
'''),(I,'''  if (head_ == &uv) {
    head_ = uv_link.next_;
  }
''',''))
ref('C07','unlink size first',(I,'  uv_link.prev_ = uv_link.next_ = nullptr;\n  --size_;\n','  uv_link.next_ = nullptr;\n  uv_link.prev_ = nullptr;\n'),(I,UN,'  size_ -= 1;\n'+UN))
ref('C07','unlink ref slot',(I,'''    if (prev_inward_link.vertex_id_ == uv_link.vertex_id_) {
      prev_inward_link.next_ = uv_link.next_;
    } else {
      assert(prev_outward_link.vertex_id_ == uv_link.vertex_id_);
      prev_outward_link.next_ = uv_link.next_;
    }
''','''    auto& slot = prev_inward_link.vertex_id_ == uv_link.vertex_id_ ? prev_inward_link.next_ : prev_outward_link.next_;
    slot = uv_link.next_;
'''))
ref('C07','edge unlink v first',(I,'''  u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
  if (&u != &v) // a self-loop is in its vertex's list once, through the inward link
    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
''','''  if (&u != &v)
    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
  u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
'''))
ref('C07','edge link by id',(I,'''  u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
  if (&u != &v) // a self-loop is in its vertex's list once, through the inward link
''','''  u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
  if (list_owner_id() != list_target_id())
'''))
CL='''  while (!edges_.empty()) {
    erase_edge(g, &edges_.front());
  }'''
ref('C07','clear size loop',(I,CL,'''  while (edges_.size() > 0)
    erase_edge(g, &edges_.front());'''))
ref('C07','clear do',(I,CL,'''  if (edges_.empty())
    return;
  do {
    erase_edge(g, &edges_.front());
  } while (!edges_.empty());'''))
ref('C07','clear reference',(I,CL,'''  while (!edges_.empty()) {
    edge_type& first = edges_.front();
    erase_edge(g, std::addressof(first));
  }'''))
EE='''  do {
    ++pos;
  } while (pos != last && &*pos == uv); // the edge may come next again, from its other endpoint
'''
ref('C07','graph erase while',(I,EE,'''  ++pos;
  while (pos != last && &*pos == uv)
    ++pos;
'''))
ref('C07','graph erase for',(I,EE,'''  for (++pos; pos != last; ++pos) {
    if (&*pos != uv)
      break;
  }
'''))
ref('C07','graph erase via vertex',(I,'''  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
  uv->~edge_type();
  this->edge_alloc_.deallocate(uv, 1);
  --this->edges_size_;
  return pos;''','''  vertex_type& from = this->vertices_[uv->list_owner_id()];
  vertex_type& to   = this->vertices_[uv->list_target_id()];
  uv->unlink(from, to);
  uv->~edge_type();
  this->edge_alloc_.deallocate(uv, 1);
  this->edges_size_ -= 1;
  return pos;'''))
ref('C07','range erase for',(I,'''  while (first != last)
    first = erase_edge(g, first);
  return first;''','''  for (; !(first == last);)
    first = erase_edge(g, first);
  return last;'''))
ref('C07','remove edges backwards',(H,'''    for (; i < this->vertices_.size(); ++i)
      this->vertices_[i].clear_edges(static_cast<graph_type&>(*this));''','''    for (auto n = this->vertices_.size(); n > i; --n)
      this->vertices_[n - 1].clear_edges(static_cast<graph_type&>(*this));'''))
ref('C07','remove edges while',(H,'''    for (; i < this->vertices_.size(); ++i)
      this->vertices_[i].clear_edges(static_cast<graph_type&>(*this));''','''    auto& g = static_cast<graph_type&>(*this);
    while (i < this->vertices_.size()) {
      this->vertices_[i].clear_edges(g);
      i++;
    }'''))
ref('C07','resize if shrinking',(I,'''  remove_edges_from(n);
  this->vertices_.resize(n);''','''  if (n < this->vertices_.size())
    remove_edges_from(n);
  this->vertices_.resize(n);'''))
ref('C07','create by id at',(H,'''    vertex_iterator ui = try_find_vertex(uid);
    vertex_iterator vi = try_find_vertex(vid);
    return create_edge(ui, vi);''','''    const auto first = this->vertices_.begin();
    return create_edge(first + uid, first + vid);'''))
ref('C07','create vertex emplace',(H,'''    this->vertices_.push_back(vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size())));
    return this->vertices_.begin() + static_cast<vertex_difference_type>(this->vertices_.size() - 1);''','''    const auto id = this->vertices_.size();
    this->vertices_.push_back(vertex_type(this->vertices_, static_cast<vertex_id_type>(id)));
    return this->vertices_.begin() + static_cast<vertex_difference_type>(id);'''))
ref('C07','create vertex end',(H,'''    this->vertices_.push_back(vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size())));
    return this->vertices_.begin() + static_cast<vertex_difference_type>(this->vertices_.size() - 1);''','''    this->vertices_.push_back(vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size())));
    return this->vertices_.end() - 1;'''))
ref('C07','create edge count first',(H,'''    edge_type*     uv  = make_edge(u, v);
    ++this->edges_size_;
    return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);''','''    edge_type* const made = make_edge(u, v);
    this->edges_size_     = this->edges_size_ + 1;
    vertex_edge_iterator pos(static_cast<graph_type&>(*this), uid, made);
    return pos;'''))
# bugs
#bug('C07','unlink after destroy',(I,'''  uv->unlink(u, v);
#
#  uv->~edge_type();
#  g.edge_alloc_.deallocate(uv, 1);''','''  uv->~edge_type();
#  g.edge_alloc_.deallocate(uv, 1);
#  uv->unlink(u, v);'''))
bug('C07','unlink keeps tail when single',(I,'  if (tail_ == &uv) {\n    tail_ = uv_link.prev_;\n  }\n','  if (tail_ == &uv && uv_link.prev_) {\n    tail_ = uv_link.prev_;\n  }\n'))
bug('C07','link back forgets prev for outward tail',(I,'''      uv_link.prev_           = tail_;
      tail_outward_link.next_ = &uv;
''','''      tail_outward_link.next_ = &uv;
'''))
bug('C07','link wrong order count',(I,'  if (&u != &v) // a self-loop is in its vertex\'s list once, through the inward link\n    v.edges_.link_back','  if (list_owner_id() < list_target_id())\n    v.edges_.link_back'))
bug('C07','graph erase not skipping twin',(I,'} while (pos != last && &*pos == uv); // the edge may come next again, from its other endpoint','} while (pos == last && &*pos == uv);'))
bug('C07','range erase returns first',(I,'''  while (first != last)
    first = erase_edge(g, first);
  return first;''','''  const auto start = first;
  while (first != last)
    first = erase_edge(g, first);
  return start;'''))
bug('C07','resize val keeps edges',(I,'''  remove_edges_from(n);
  this->vertices_.resize(n, vertex_type''','''  if (n == 0) remove_edges_from(n);
  this->vertices_.resize(n, vertex_type'''))
bug('C07','remove from n plus 1',(H,'''    for (; i < this->vertices_.size(); ++i)''','''    for (i = i ? i + 1 : 0; i < this->vertices_.size(); ++i)'''))
# ---- queries C08?

# ---- C08
MXV='    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));'
ref('C08','max by ifs',(I,MXV,"""    if (max_vtx_id < edge_data.source_id)
      max_vtx_id = edge_data.source_id;
    if (max_vtx_id < edge_data.target_id)
      max_vtx_id = edge_data.target_id;"""),all=True)
ref('C08','max list',(I,MXV,'    max_vtx_id       = std::max({max_vtx_id, edge_data.source_id, edge_data.target_id});'),all=True)
ref('C08','max first',(I,MXV,"""    const auto larger = edge_data.target_id > edge_data.source_id ? edge_data.target_id : edge_data.source_id;
    max_vtx_id        = larger > max_vtx_id ? larger : max_vtx_id;"""),all=True)
ref('C08','resize if needed',(I,'  vertices_.resize(max_vtx_id + 1); // assure expected vertices exist\n\n  // Downcas','  if (vertices_.size() < static_cast<size_t>(max_vtx_id) + 1)\n    vertices_.resize(static_cast<size_t>(max_vtx_id) + 1);\n\n  // Downcas'))
ref('C08','no reserve',(I,'  vertices_.reserve(max_vtx_id + 1);\n',''))
ref('C08','order prev',(I,"""      if (ed.source_id < tid)
        g.throw_unordered_edges();
""","""      if (tid > ed.source_id)
        g.throw_unordered_edges();
"""))
ref('C08','order from zero',(I,"""    auto&&         first_edge_data = eproj(*ranges::begin(erng)); // first edge
    vertex_id_type tid             = first_edge_data.source_id;   // last in-vertex id
    for (auto& edge_data : erng) {
      auto&& ed = eproj(edge_data); // copyable_edge_t<VId, EV>
      if (ed.source_id < tid)
        g""","""    vertex_id_type tid = 0;
    for (auto& edge_data : erng) {
      auto&& ed = eproj(edge_data); // copyable_edge_t<VId, EV>
      if (ed.source_id < tid)
        g"""))
ref('C08','empty test begin end',(I,'  if (!ranges::empty(erng)) {','  if (ranges::begin(erng) != ranges::end(erng)) {'),all=True)
ref('C08','no inner empty test',(I,'  if (ilist.size() == 0)\n    return; // no vertices or edges to create\n\n','  if (ilist.begin() == ilist.end())\n    return;\n\n'),all=True)
ref('C08','il indexless',(I,"""    const auto& [uid, vid, uv_val] = edge_data;
    g.create_edge(uid, vid, uv_val);""","""    g.create_edge(std::get<0>(edge_data), std::get<1>(edge_data), std::get<2>(edge_data));"""))
ref('C08','copy ids inline',(I,"""      vertex_id_type src_id = uv->list_owner_id();
      vertex_id_type tgt_id = uv->list_target_id();
      // Only copy each edge once: when uid matches source
      if (uid == src_id) {""","""      const vertex_id_type src_id = uv->list_owner_id();
      const vertex_id_type tgt_id = uv->list_target_id();
      if (const bool mine = !(src_id != uid); mine) {"""))
ref('C08','copy edges range',(I,"""    for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
         uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {""","""    const auto last = src_vtx.edges_end(static_cast<const graph_type&>(other), uid);
    for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid); uv != last; ++uv) {"""))
ref('C08','copy assign by value tmp',(I,"""    vertices_.swap(tmp.vertices_);
    std::swap(edges_size_, tmp.edges_size_);
    std::swap(vertex_alloc_, tmp.vertex_alloc_);
    std::swap(edge_alloc_, tmp.edge_alloc_);""","""    using std::swap;
    swap(vertex_alloc_, tmp.vertex_alloc_);
    swap(edge_alloc_, tmp.edge_alloc_);
    swap(edges_size_, tmp.edges_size_);
    swap(vertices_, tmp.vertices_);"""))
ref('C08','move ctor body assign',(H,"""        , edges_size_(std::exchange(other.edges_size_, 0))
        , vertex_alloc_(std::move(other.vertex_alloc_))
        , edge_alloc_(std::move(other.edge_alloc_)) {}""","""        , edges_size_(other.edges_size_)
        , vertex_alloc_(std::move(other.vertex_alloc_))
        , edge_alloc_(std::move(other.edge_alloc_)) {
    other.edges_size_ = 0;
  }"""))
ref('C08','move assign swap tmp',(H,"""      clear(); // the edges are not owned by the vertices
      vertices_     = std::move(other.vertices_);
      edges_size_   = std::exchange(other.edges_size_, 0);""","""      clear(); // the edges are not owned by the vertices
      vertices_.swap(other.vertices_);
      std::swap(edges_size_, other.edges_size_);"""))
bug('C08','copy skips self loops',(I,'      if (uid == src_id) {\n        if constexpr','      if (uid == src_id && (src_id != tgt_id || other.edges_size_ == 1)) {\n        if constexpr'))
bug('C08','order resets',(I,'      tid = ed.source_id;','      tid = ed.source_id > ed.target_id ? ed.source_id : tid;'),nth=0)
# ---- C09
AV="""  if (inward_link.vertex_id_ == vertex_id_) {
    edge_ = inward_link.next_;
  } else {
    assert(outward_link.vertex_id_ == vertex_id_);
    edge_ = outward_link.next_;
  }

  // Self-loop"""
ref('C09','advance by method',(I,AV,"""  edge_ = inward_link.vertex_id_ == vertex_id_ ? inward_link.next() : outward_link.next();

  // Self-loop"""))
ref('C09','advance pointer',(I,AV,"""  auto* const chosen = inward_link.vertex_id_ != vertex_id_ ? outward_link.next_ : inward_link.next_;
  edge_ = chosen;

  // Self-loop"""))
ref('C09','retreat early',(I,"""  if (edge_) {
    vertex_edge_list_inward_link_type&  inward_link  = *edge_; // in.vertex_id_ == this->vertex_id_;
    vertex_edge_list_outward_link_type& outward_link = *edge_;
    if (inward_link.vertex_id_ == vertex_id_) {
      edge_ = inward_link.prev_;
    } else {
      assert(outward_link.vertex_id_ == vertex_id_);
      edge_ = outward_link.prev_;
    }
  } else {
    vertex_iterator u = graph_->try_find_vertex(vertex_id_);
    edge_             = &u->edge_back(*graph_);
  }""","""  if (edge_ == nullptr) {
    edge_ = &graph_->vertices()[vertex_id_].edge_back(*graph_);
    return;
  }
  vertex_edge_list_inward_link_type& inward_link = *edge_;
  if (inward_link.vertex_id_ != vertex_id_) {
    vertex_edge_list_outward_link_type& outward_link = *edge_;
    edge_ = outward_link.prev_;
  } else
    edge_ = inward_link.prev_;"""))
ref('C09','postfix via prefix',(I,"""  const_iterator tmp(*this);
  ++*this;
  return tmp;""","""  const_iterator tmp = *this;
  advance();
  return tmp;"""))
ref('C09','empty head',(I,'  return size_ == 0;','  return head_ == nullptr;'))
ref('C09','other eq',(I,'  return other != source(g) ? list_owner_id() : list_target_id();','  return other == source(g) ? list_target_id() : list_owner_id();'))
ref('C09','other id if',(I,'  return other_id != list_owner_id() ? source(g) : target(g);','  if (other_id == list_owner_id())\n    return target(g);\n  return source(g);'),all=True)
ref('C09','source link',(I,'  return g.vertices().begin() + list_owner_id();','  return g.try_find_vertex(list_owner_id());'))
S='\n  ++*this;\n  return tmp;'
CI='ual_vertex_edge_list<EV, VV, GV, VId, VContainer, Alloc>::const_iterator::operator'
NI='\nual_neighbor_iterator<EV, VV, GV, VId, VContainer, Alloc>::operator'
CN='\nual_const_neighbor_iterator<EV, VV, GV, VId, VContainer, Alloc>::operator'
bug('C09','const postfix does not move',(I,CI+'++(int) {\n  const_iterator tmp(*this);\n  ++*this;',CI+'++(int) {\n  const_iterator tmp(*this);'))
bug('C09','const decrement advances',(I,CI+'--() {\n  retreat();',CI+'--() {\n  advance();'))
bug('C09','const postfix decrement new position',(I,CI+'--(int) {\n  const_iterator tmp(*this);\n  --*this;',CI+'--(int) {\n  --*this;\n  const_iterator tmp(*this);'))
bug('C09','neighbor decrement advances',(I,NI+'--() noexcept {\n  --uv_;',NI+'--() noexcept {\n  ++uv_;'))
bug('C09','const neighbor decrement advances',(I,CN+'--() noexcept {\n  --uv_;',CN+'--() noexcept {\n  ++uv_;'))
bug('C09','neighbor postfix does not move',(I,NI+'++(int) {\n  ual_neighbor_iterator tmp(*this);\n  ++*this;',NI+'++(int) {\n  ual_neighbor_iterator tmp(*this);\n  ++tmp;'))
bug('C09','const neighbor postfix new position',(I,CN+'++(int) noexcept {\n  ual_const_neighbor_iterator tmp(*this);\n  ++*this;\n  return tmp;',CN+'++(int) noexcept {\n  return ++*this;'))
bug('C09','neighbor postfix decrement advances',(I,NI+'--(int) noexcept {\n  ual_neighbor_iterator tmp(*this);\n  --*this;',NI+'--(int) noexcept {\n  ual_neighbor_iterator tmp(*this);\n  ++*this;'))
bug('C09','graph edge postfix new position',(H,'      edge_iterator tmp(*this);\n      ++*this;\n      return tmp;','      ++*this;\n      edge_iterator tmp(*this);\n      return tmp;'))
bug('C09','graph const edge postfix does not move',(H,'      const_edge_iterator tmp(*this);\n      ++*this;\n      return tmp;','      const_edge_iterator tmp(*this);\n      ++tmp;\n      return *this;'))
ref('C09','neighbor postfix direct',(I,NI+'++(int) {\n  ual_neighbor_iterator tmp(*this);\n  ++*this;\n  return tmp;',NI+'++(int) {\n  auto old = *this;\n  ++this->uv_;\n  return old;'))
ref('C09','const neighbor from former edge',(I,CN+'--(int) noexcept {\n  ual_const_neighbor_iterator tmp(*this);\n  --*this;\n  return tmp;',CN+'--(int) noexcept {\n  return ual_const_neighbor_iterator(uv_--);'))
ref('C09','graph edge postfix advance',(H,'      const_edge_iterator tmp(*this);\n      ++*this;\n      return tmp;','      auto tmp = *this;\n      advance_edge();\n      return tmp;'))

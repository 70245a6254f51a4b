M=[]
I='container/detail/undirected_adjacency_list_impl.hpp'; H='container/undirected_adjacency_list.hpp'
def bug(n,*e,**k): M.append(dict(prop='C08',name='ualc '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop='C08',name='ualc '+n,kind='refactor',edits=list(e),**k))
bug('move keeps count',(H,'        , edges_size_(std::exchange(other.edges_size_, 0))\n        , vertex_alloc_','        , edges_size_(other.edges_size_)\n        , vertex_alloc_'))
bug('move assign no clear',(H,'      clear(); // the edges are not owned by the vertices\n',''))
bug('move assign count',(H,'      edges_size_   = std::exchange(other.edges_size_, 0);','      edges_size_   += std::exchange(other.edges_size_, 0);'))
bug('swap no count',(I,'  swap(this->edges_size_, other.edges_size_);\n',''))
bug('swap no value',(I,'  swap(graph_value_, rhs.graph_value_);\n',''))
bug('copy no value',(I,'      : base_type(other), graph_value_(other.graph_value_) {}','      : base_type(other) {}'))
bug('copy order',(I,'          g.create_edge(src_id, tgt_id, uv->value());','          g.create_edge(tgt_id, src_id, uv->value());'))
bug('copy both ends',(I,'      if (uid == src_id) {\n        if constexpr','      if (uid == src_id || uid == tgt_id) {\n        if constexpr'))
bug('copy by lower id',(I,'      if (uid == src_id) {\n        if constexpr','      if (uid == std::min(src_id, tgt_id)) {\n        if constexpr'))
bug('copy once more',(I,'      if (uid == src_id) {\n        if constexpr','      if (uid <= src_id) {\n        if constexpr'))
bug('copy loses value',(I,'          g.create_edge(src_id, tgt_id, uv->value());','          g.create_edge(src_id, tgt_id);'))
bug('copy vertices no value',(I,'      vertices_.push_back(vertex_type(vertices_, static_cast<vertex_id_type>(vertices_.size()), v.value()));','      vertices_.push_back(vertex_type(vertices_, static_cast<vertex_id_type>(vertices_.size())));'))
bug('copy skips last',(I,'  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {\n    const auto&','  for (vertex_size_type i = 0; i + 1 < other.vertices_.size(); ++i) {\n    const auto&'))
bug('dtor',(I,'  g.clear(); // assure edges','  if (edges_size_ > 1) g.clear(); // assure edges'))
bug('copy assign swap base only',(I,'    undirected_adjacency_list tmp(other);\n    swap(tmp);','    undirected_adjacency_list tmp(other);\n    this->vertices_.swap(tmp.vertices_);'),all=True)
bug('max target only',(I,'    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));','    max_vtx_id       = max(max_vtx_id, edge_data.target_id);'),all=True)
bug('max base only',(I,'max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));','max_vtx_id       = max(edge_data.source_id, max(max_vtx_id, edge_data.source_id));'),all=True)
bug('resize no plus',(I,'  vertices_.resize(max_vtx_id + 1); // assure expected vertices exist\n\n  // Downcast','  vertices_.resize(max_vtx_id); // assure expected vertices exist\n\n  // Downcast'),all=True)
bug('order not updated',(I,'        g.create_edge(ed.source_id, ed.target_id, ed.value);\n      }\n      tid = ed.source_id;','        g.create_edge(ed.source_id, ed.target_id, ed.value);\n      }'))
bug('order strict',(I,'      if (ed.source_id < tid)\n        g.throw','      if (ed.source_id <= tid && tid)\n        g.throw'))
bug('no check',(I,'      if (ed.source_id < tid)\n        g.throw_unordered_edges();\n','')) 
bug('vertex value twice',(I,'    for (auto& vtx : vrng) {\n      auto&& vtx_info','    if (vrng.size() > 1)\n    for (auto& vtx : vrng) {\n      auto&& vtx_info'))
bug('vrng size',(I,'vrng.empty() ? vertex_id_type(0) : static_cast<vertex_id_type>(vrng.size() - 1);\n  for (auto& e : erng) {\n    auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>\n    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));\n  }\n\n  // add vertices\n  vertices_','vertex_id_type(0);\n  for (auto& e : erng) {\n    auto&& edge_data = eproj(e); // copyable_edge_t<VId, EV>\n    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));\n  }\n\n  // add vertices\n  vertices_'))
bug('il skips selfloop',(I,'    const auto& [uid, vid, uv_val] = edge_data;\n    g.create_edge(uid, vid, uv_val);','    const auto& [uid, vid, uv_val] = edge_data;\n    if (uid != vid) g.create_edge(uid, vid, uv_val);'))
bug('il max uid',(I,'    const auto& [uid, vid] = edge_data;\n    max_vtx_id             = max(max_vtx_id, max(uid, vid));','    const auto& [uid, vid] = edge_data;\n    max_vtx_id             = max(max_vtx_id, uid < vid ? vid : max_vtx_id);'))
bug('il empty',(I,'  if (ilist.size() == 0)\n    return; // no vertices or edges to create\n',''),all=True)
bug('gv dropped',(I,'      : base_type(erng, vrng, eproj, vproj, alloc)\n      , graph_value_(gv)\n','      : base_type(erng, vrng, eproj, vproj, alloc)\n'))
bug('gv ctor',(I,'      : base_type(alloc), graph_value_(val) {}','      : base_type(alloc) { (void)val; }'))
ref('swap order',(I,'  this->vertices_.swap(other.vertices_);\n  swap(this->edges_size_, other.edges_size_);','  swap(this->edges_size_, other.edges_size_);\n  other.vertices_.swap(this->vertices_);'))
ref('move body',(H,'        : vertices_(std::move(other.vertices_))\n        , edges_size_(std::exchange(other.edges_size_, 0))\n        , vertex_alloc_(std::move(other.vertex_alloc_))\n        , edge_alloc_(std::move(other.edge_alloc_)) {}','        : vertex_alloc_(std::move(other.vertex_alloc_))\n        , edge_alloc_(std::move(other.edge_alloc_)) { vertices_ = std::move(other.vertices_); edges_size_ = other.edges_size_; other.edges_size_ = 0; }'))
ref('move swap',(H,'        : vertices_(std::move(other.vertices_))\n        , edges_size_(std::exchange(other.edges_size_, 0))\n        , vertex_alloc_(std::move(other.vertex_alloc_))\n        , edge_alloc_(std::move(other.edge_alloc_)) {}','        { vertices_.swap(other.vertices_); std::swap(edges_size_, other.edges_size_); }'))
ref('copy range loop',(I,'  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {\n    const auto&          src_vtx = other.vertices_[i];\n    const vertex_id_type uid     = static_cast<vertex_id_type>(i);','  for (const auto& src_vtx : other.vertices_) {\n    const vertex_id_type uid = static_cast<vertex_id_type>(&src_vtx - other.vertices_.data());'))
ref('copy cached size',(I,'  for (vertex_size_type i = 0; i < other.vertices_.size(); ++i) {\n    const auto& ','  for (vertex_size_type i = 0, n = other.vertices_.size(); i != n; ++i) {\n    const auto& '))
ref('copy continue',(I,'      if (uid == src_id) {\n        if constexpr (std::is_void_v<EV>) {\n          g.create_edge(src_id, tgt_id);\n        } else {\n          g.create_edge(src_id, tgt_id, uv->value());\n        }\n      }','      if (uid != src_id) continue;\n        if constexpr (std::is_void_v<EV>) {\n          g.create_edge(uid, tgt_id);\n        } else {\n          const auto& val = uv->value(); g.create_edge(uid, tgt_id, val);\n        }'))
ref('copy while',(I,'    for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);\n         uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {','    auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);\n    const auto last = src_vtx.edges_end(static_cast<const graph_type&>(other), uid);\n    for (; uv != last; ++uv) {'))
ref('count form',(I,'  vertex_id_type max_vtx_id = vertex_id_type();\n  for (auto& edge_data : ilist) {\n    const auto& [uid, vid, uv_val] = edge_data;\n    max_vtx_id                     = max(max_vtx_id, max(uid, vid));\n  }\n  vertices_.resize(max_vtx_id + 1);','  std::size_t count = 0;\n  for (auto& edge_data : ilist) {\n    const auto& [uid, vid, uv_val] = edge_data;\n    count = max(count, static_cast<std::size_t>(max(uid, vid)) + 1);\n  }\n  vertices_.resize(count);'))
ref('max two ifs',(I,'    max_vtx_id       = max(max_vtx_id, max(edge_data.source_id, edge_data.target_id));','    if (max_vtx_id < edge_data.source_id) max_vtx_id = edge_data.source_id;\n    if (max_vtx_id < edge_data.target_id) max_vtx_id = edge_data.target_id;'),all=True)
ref('order helper',(I,'      if (ed.source_id < tid)\n        g.throw_unordered_edges();\n','      const bool ordered = !(ed.source_id < tid);\n      if (!ordered) throw std::invalid_argument("edges not ordered");\n'))
ref('dtor loops',(I,'  g.clear(); // assure edges','  for (auto& v : vertices_) v.clear_edges(g); vertices_.clear(); // assure edges'))
ref('move assign loops',(H,'      clear(); // the edges are not owned by the vertices\n','      for (auto& v : vertices_) v.clear_edges(static_cast<graph_type&>(*this));\n'))
ref('move assign tmp',(H,'      clear(); // the edges are not owned by the vertices\n      vertices_     = std::move(other.vertices_);\n      edges_size_   = std::exchange(other.edges_size_, 0);','      clear();\n      vertices_.swap(other.vertices_);\n      edges_size_   = other.edges_size_; other.edges_size_ = 0;'))
ref('ilist begin end',(I,'  for (auto& edge_data : ilist) {\n    const auto& [uid, vid] = edge_data;\n    g.create_edge(uid, vid);\n  }','  for (auto i = ilist.begin(); i != ilist.end(); ++i) {\n    g.create_edge(std::get<0>(*i), std::get<1>(*i));\n  }'))
ref('vertices via create_vertex',(I,'      create_vertex(value);','      this->vertices_.push_back(vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), value));'))
ref('dtor empty check',(I,'  g.clear(); // assure edges','  if (vertices_.empty()) return;\n  g.clear(); // assure edges'))

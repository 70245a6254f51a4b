M=[]
F='container/dynamic_graph.hpp'; U='container/container_utility.hpp'
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','C04'),name='dyn '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop=k.pop('prop','C04'),name='dyn '+n,kind='refactor',edits=list(e),**k))
MAXS='max_id                     = std::max(max_id, static_cast<size_t>(e_scan.source_id));'
MAXT='max_id                     = std::max(max_id, static_cast<size_t>(e_scan.target_id));'
bug('max only sources',(F,MAXT,''))
ref('void use',(F,MAXS,'max_id = std::max(max_id, static_cast<size_t>(e_scan.source_id)); (void)max_id;'))
bug('resize short',(F,'vertices_.resize(max_id + 1, vertex_type(vertices_.get_allocator()));','vertices_.resize(max_id + 2, vertex_type(vertices_.get_allocator()));'))
bug('resize when equal dropped',(F,'if (vertices_.size() <= max_id) {','if (vertices_.size() < max_id) {'))
bug('resize without test shrinks',(F,'if (vertices_.size() < vertex_count) {\n          vertices_.resize','if (vertices_.size() != vertex_count) {\n          vertices_.resize'))
bug('max forgets existing',(F,'size_type max_id           = vertices_.empty() ? 0 : static_cast<size_t>(vertices_.size() - 1);\n','size_type max_id           = vertices_.size();\n'))
bug('assoc target not ensured',(F,'(void)vertices_[e.target_id]; // ensure target vertex exists\n','\n'))
bug('assoc count',(F,'        edge_count_ += 1;\n      }\n    } else {','      }\n    } else {'))
bug('infer rev keyed by target',(F,'emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy','emplace_edge(rev, e.source_id, in_edge_type(e.target_id, e.value)); // copy'),nth=1)
bug('infer rev in wrong vertex',(F,'auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();','auto& rev = vertices_[static_cast<size_t>(e.source_id)].in_edges();'),nth=3)
bug('rev into out edges',(F,'auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();','auto& rev = vertices_[static_cast<size_t>(e.target_id)].edges();'),nth=1)

bug('self loop not mirrored',(F,'''                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
                emplace_edge(rev, e.source_id, in_edge_type(e.source_id));''','''                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
                if (e.source_id != e.target_id) emplace_edge(rev, e.source_id, in_edge_type(e.source_id));'''))
bug('value moved before copy',(F,'emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));','emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));'),nth=2)
bug('map key source',(F,'emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));','emplace_edge(vertex_edges, e.source_id, edge_type(e.target_id, std::move(e.value)));'),nth=1)
bug('bounds off by one',(F,'if (static_cast<size_t>(e.target_id) >= vertices_.size())','if (static_cast<size_t>(e.target_id) > vertices_.size())'),nth=1)
bug('source check dropped',(F,'''        if (static_cast<size_t>(e.source_id) >= vertices_.size())
          throw std::runtime_error("source id exceeds the number of vertices in load_edges");
''',''),nth=0)
bug('list front',(U,'edges.emplace_back(std::forward<Edge>(edge));','edges.insert(edges.begin(), std::forward<Edge>(edge));'))
bug('emplace to map twice',(U,'edges.emplace(target_id, std::forward<Edge>(edge));','edges[target_id] = std::forward<Edge>(edge);'))
bug('hint limits copies',(F,'            projected.push_back(e_scan); // copy (value semantics)\n','            projected.push_back(e_scan); // copy (value semantics)\n            if (edge_count_hint && projected.size() == edge_count_hint) break;\n'))
bug('edge count only once per batch',(F,'            edge_count_ += 1;\n          }\n          return; // done','          }\n          edge_count_ += projected.size() > 0;\n          return; // done'))
bug('count before checks',(F,'''        proj_edge_t e = eproj(edge_data); // materialize value
        if (static''','''        proj_edge_t e = eproj(edge_data); // materialize value
        edge_count_ += 1;
        if (static'''),(F,'''        edge_count_ += 1;
      }
    }
  }''','''      }
    }
  }'''))
bug('loadv shrinks',(F,'vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));\n',''),nth=1)
bug('loadv moves lvalue',(F,'if constexpr (keep_values && std::is_lvalue_reference_v<decltype(vproj(v))>)','if constexpr (false)'),nth=1)
bug('loadv moves assoc',(F,'if constexpr (keep_values && std::is_lvalue_reference_v<decltype(vproj(v))>)','if constexpr (!keep_values)'),nth=0)
bug('loadv check removed',(F,'            if (k >= vertices_.size()) [[unlikely]]','            if (k > vertices_.size()) [[unlikely]]'),nth=1)
bug('loadv hint ignored',(F,'resize_vertices(vertex_count);','resize_vertices(std::max(static_cast<size_t>(vertices_.size()), static_cast<size_t>(vertex_count ? 1 : 0)));'),nth=0)
bug('resize_vertices doubles',(F,'      vertices_.resize(count);','      vertices_.resize(count > 1024 ? count + count / 2 : count);'))
# refactors
ref('max via if',(F,MAXS,'if (static_cast<size_t>(e_scan.source_id) > max_id) max_id = e_scan.source_id;'))
ref('count ++',(F,'edge_count_ += 1;','++edge_count_;'),all=True)
ref('count first',(F,'''            auto& vertex_edges = vertices_[static_cast<size_t>(e.source_id)].edges();
            if constexpr''','''            edge_count_ += 1;
            auto& vertex_edges = vertices_[static_cast<size_t>(e.source_id)].edges();
            if constexpr'''),(F,'            edge_count_ += 1;\n          }\n          return; // done','          }\n          return; // done'))
ref('infer checks removed',(F,'''            if (static_cast<size_t>(e.source_id) >= vertices_.size())
              throw std::runtime_error("source id exceeds the number of vertices in load_edges");
            if (static_cast<size_t>(e.target_id) >= vertices_.size())
              throw std::runtime_error("target id exceeds the number of vertices in load_edges");
''',''))
ref('index loop',(F,'          for (auto& e : projected) {','          for (std::size_t pi = 0; pi < projected.size(); ++pi) {\n            auto& e = projected[pi];'))
ref('no reserve',(F,'          if (edge_count_hint)\n            projected.reserve(edge_count_hint);\n',''))
ref('checks merged',(F,'''        if (static_cast<size_t>(e.source_id) >= vertices_.size())
          throw std::runtime_error("source id exceeds the number of vertices in load_edges");
        if (static_cast<size_t>(e.target_id) >= vertices_.size())
          throw std::runtime_error("target id exceeds the number of vertices in load_edges");
''','''        if (std::size_t top = vertices_.size(); static_cast<size_t>(e.source_id) >= top || static_cast<size_t>(e.target_id) >= top)
          throw std::runtime_error("id exceeds the number of vertices in load_edges");
'''))
ref('emplace_back to push_back',(U,'edges.emplace_back(std::forward<Edge>(edge));','edges.push_back(std::forward<Edge>(edge));'))
ref('insert set',(U,'edges.emplace(std::forward<Edge>(edge));','edges.insert(std::forward<Edge>(edge));'))
ref('scan iter',(F,'          for (auto&& edge_data_scan : erng) {','          for (auto it_ = std::ranges::begin(erng); it_ != std::ranges::end(erng); ++it_) {\n            auto&& edge_data_scan = *it_;'))
ref('resize unconditional to max',(F,'''        if (vertices_.size() < vertex_count) {
          vertices_.resize(vertex_count, vertex_type(vertices_.get_allocator()));
        }''','''        vertices_.resize(std::max(static_cast<size_type>(vertices_.size()), vertex_count), vertex_type(vertices_.get_allocator()));'''))
ref('loadv cond',(F,'          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));\n        resize_vertices(vertex_count);','          if (static_cast<size_t>(std::ranges::size(vrng)) > vertex_count) vertex_count = std::ranges::size(vrng);\n        if (vertex_count > vertices_.size()) resize_vertices(vertex_count);'),all=True)

# ---- queries (C05) and constructors (C06)
D='adj_list/edge_descriptor.hpp'; EC='detail/edge_cpo.hpp'; GC='adj_list/detail/graph_cpo.hpp'; DV='adj_list/edge_descriptor_view.hpp'; VD='adj_list/vertex_descriptor.hpp'
def qb(n,*e,**k): bug('q '+n,*e,prop='C05',**k)
def qr(n,*e,**k): ref('q '+n,*e,prop='C05',**k)
qr('find bound',(F,'if (static_cast<size_t>(id) >= g.vertices_.size()) {','if (static_cast<size_t>(id) > g.vertices_.size()) {'),nth=1)
qr('find negative',(F,'        if (id < 0)\n          return view_iterator{static_cast<storage_type>(g.vertices_.size())};\n',''),nth=0)
qr('find ternary',(F,'''      if (static_cast<size_t>(id) >= g.vertices_.size()) {
        return view_iterator{static_cast<storage_type>(g.vertices_.size())};
      }
      return view_iterator{static_cast<storage_type>(id)};''','''      const bool in_ = static_cast<size_t>(id) < g.vertices_.size();
      return view_iterator{in_ ? static_cast<storage_type>(id) : static_cast<storage_type>(g.vertices_.size())};'''),all=True)
qb('contains le',(F,'return static_cast<size_t>(id) < vertices_.size();','return static_cast<size_t>(id) <= vertices_.size();'))
qb('contains map',(F,'        return vertices_.contains(id); // C++20 contains()\n','        return !vertices_.empty(); // C++20 contains()\n'))
qr('contains map find',(F,'        return vertices_.contains(id); // C++20 contains()\n','        return vertices_.find(id) != vertices_.end();\n'))
qb('has_edge one',(F,'return g.edge_count_ > 0;','return g.edge_count_ > 1;'))
qb('clear count',(F,'    edge_count_ = 0;\n  }','  }'))
qb('edge_value in edges of out',(F,'return (std::forward<E>(uv).source().inner_value(std::forward<G>(g).vertices_).in_edges());','return (std::forward<E>(uv).source().inner_value(std::forward<G>(g).vertices_).edges());'))
qb('in-edge tid native',(EC,'          !std::remove_cvref_t<E>::is_in_edge;','          true;'))
qb('in-edge source desc',(GC,'is_edge_descriptor_v<std::remove_cvref_t<E>> && !std::remove_cvref_t<E>::is_in_edge && requires(const E& uv) {','is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {'))
qb('map in source',(EC,' || requires { vd.second.in_edges(); }',''))
qb('view end short',(DV,'end_   = static_cast<edge_storage_type>(container.size());','end_   = static_cast<edge_storage_type>(container.size() ? container.size() - 1 : 0);'),all=True)
qb('view size off',(DV,'size_ = static_cast<std::size_t>(std::distance(begin_, end_));','size_  = static_cast<std::size_t>(std::distance(begin_, end_)) + 1;'),all=True)
qr('view size loop',(DV,'size_ = static_cast<std::size_t>(std::distance(begin_, end_));','size_  = 0; for (auto i_ = begin_; i_ != end_; ++i_) ++size_;'),all=True)
qb('vertex_at',(F,'return vertices_.at(static_cast<size_t>(id));','return vertices_.at(static_cast<size_t>(id) % 1024);'),all=True)
def cb(n,*e,**k): bug('c '+n,*e,prop='C06',**k)
def cr(n,*e,**k): ref('c '+n,*e,prop='C06',**k)
cb('edges first',(F,'    load_vertices(vrng, vproj);\n',''),(F,'    load_edges(erng, eproj, vertices_.size(), 0);\n','    load_edges(erng, eproj, vertices_.size(), 0);\n    load_vertices(vrng, vproj);\n'))
cb('il empty',(F,'      if (il.size() > 0)\n        resize_vertices(last_id + 1);','      resize_vertices(last_id + 1);'))
cb('il only sources',(F,'last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));','last_id = max(last_id, static_cast<size_t>(e.source_id));'))
cb('max not plus one',(F,': static_cast<vertex_id_type>(max_vertex_id + 1)),',': static_cast<vertex_id_type>(max_vertex_id)),'),all=True)
cb('max reject early',(F,'base_type((max_vertex_id == std::numeric_limits<vertex_id_type>::max()','base_type((max_vertex_id >= std::numeric_limits<vertex_id_type>::max() - 1'),all=True)
cb('gv lost',(F,': base_type(il, alloc), graph_value_(gv) {}',': base_type(il, alloc) {}'))
cb('gv rvalue lost',(F,': base_type(alloc), graph_value_(std::move(gv)) {}',': base_type(alloc), graph_value_() {}'))
cr('il infer',(F,'''      if (il.size() > 0)
        resize_vertices(last_id + 1);
      // canonical order: supply vertex_count to avoid inference pass
      load_edges(il, {}, vertices_.size(), il.size());''','''      (void)last_id;
      load_edges(il, {}, 0, il.size());'''))
cr('il separate max',(F,'last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));','{ if (e.source_id > last_id) last_id = e.source_id; if (last_id < e.target_id) last_id = e.target_id; }'))
cr('il not empty',(F,'      if (il.size() > 0)\n        resize_vertices','      if (il.begin() != il.end())\n        resize_vertices'))

F='container/dynamic_graph.hpp'; T='container/traits/'
M=[]
def bug(prop,n,*e,**k): M.append(dict(prop=prop,name='dyn2 '+n,kind='bug',edits=list(e),**k))
def ref(prop,n,*e,**k): M.append(dict(prop=prop,name='dyn2 '+n,kind='refactor',edits=list(e),**k))

# ---- load_edges, vector path
NI='bool const need_infer = (vertex_count == 0);'
RS='''        if (vertices_.size() < vertex_count) {
          vertices_.resize(vertex_count, vertex_type(vertices_.get_allocator()));
        }'''
ref('C04','need infer inline',(F,NI,''),(F,'if (need_infer) {','if (vertex_count == 0) {'))
ref('C04','need infer not',(F,NI,'bool const need_infer = !(vertex_count > 0);'))
ref('C04','resize max',(F,RS,'''        if (vertex_count != 0) {
          const size_type wanted = std::max<size_type>(vertices_.size(), vertex_count);
          if (wanted != vertices_.size())
            vertices_.resize(wanted, vertex_type(vertices_.get_allocator()));
        }'''))
ref('C04','resize greater',(F,'if (vertices_.size() < vertex_count) {','if (const auto have = vertices_.size(); vertex_count > have) {'))
MX='''            max_id                     = std::max(max_id, static_cast<size_t>(e_scan.source_id));
            max_id                     = std::max(max_id, static_cast<size_t>(e_scan.target_id));
'''
MI='size_type max_id           = vertices_.empty() ? 0 : static_cast<size_t>(vertices_.size() - 1);'
RM='''              if (vertices_.size() <= max_id) {
                vertices_.resize(max_id + 1, vertex_type(vertices_.get_allocator()));
              }'''
ref('C04','max by if',(F,MX,'''            if (static_cast<size_t>(e_scan.source_id) > max_id)
              max_id = static_cast<size_t>(e_scan.source_id);
            if (static_cast<size_t>(e_scan.target_id) > max_id)
              max_id = static_cast<size_t>(e_scan.target_id);
'''))
ref('C04','max in one',(F,MX,'''            max_id = std::max(max_id, static_cast<size_t>(std::max(e_scan.source_id, e_scan.target_id)));
'''))
ref('C04','max list',(F,MX,'''            max_id = std::max({max_id, static_cast<size_t>(e_scan.source_id), static_cast<size_t>(e_scan.target_id)});
'''))
ref('C04','max ternary',(F,MX,'''            const auto hi = e_scan.source_id < e_scan.target_id ? e_scan.target_id : e_scan.source_id;
            max_id        = max_id < static_cast<size_t>(hi) ? static_cast<size_t>(hi) : max_id;
'''))
ref('C04','count not max',(F,MI,'size_type needed = vertices_.size();'),(F,MX,'''            needed = std::max(needed, static_cast<size_t>(e_scan.source_id) + 1);
            needed = std::max(needed, static_cast<size_t>(e_scan.target_id) + 1);
'''),(F,RM,'''              if (vertices_.size() < needed) {
                vertices_.resize(needed, vertex_type(vertices_.get_allocator()));
              }'''))
ref('C04','max from 0',(F,MI,'size_type max_id = 0;'))
ref('C04','resize always',(F,RM,'''              vertices_.resize(std::max<size_type>(vertices_.size(), max_id + 1), vertex_type(vertices_.get_allocator()));'''))
ref('C04','two passes',(F,MX+'''            projected.push_back(e_scan); // copy (value semantics)
          }
''','''            projected.push_back(std::move(e_scan));
          }
          for (const auto& pe : projected) {
            max_id = std::max(max_id, static_cast<size_t>(pe.source_id));
            max_id = std::max(max_id, static_cast<size_t>(pe.target_id));
          }
'''))
ref('C04','early out empty',(F,'''          // Only resize if we collected edges; empty input should not create vertices
          if (!projected.empty()) {''','''          if (projected.empty())
            return;
          {'''))
ref('C04','emplace projected',(F,'projected.push_back(e_scan); // copy (value semantics)','projected.emplace_back(std::move(e_scan));'))
ref('C04','project direct',(F,'projected_edge_type e_scan = eproj(edge_data_scan); // materialize value (avoid storing references)','const auto& e_scan = projected.emplace_back(eproj(edge_data_scan));'),(F,'            projected.push_back(e_scan); // copy (value semantics)\n',''))
ref('C04','no reserve pass',(F,'''            for (size_t vid = 0; vid < degrees.size(); ++vid) {
              auto& ec = vertices_[vid].edges();
              if constexpr (requires { ec.reserve(degrees[vid]); }) {
                if (degrees[vid])
                  ec.reserve(degrees[vid]);
              }
            }
''',''))
ref('C04','reserve always',(F,'''                if (degrees[vid])
                  ec.reserve(degrees[vid]);''','''                ec.reserve(ec.size() + degrees[vid]);'''))
ref('C04','insert index loop',(F,'          for (auto& e : projected) {','          for (size_t pi = 0; pi < projected.size(); ++pi) {\n            auto& e = projected[pi];'))
ref('C04','insert iterator loop',(F,'          for (auto& e : projected) {','          for (auto pit = projected.begin(); pit != projected.end(); ++pit) {\n            auto& e = *pit;'))
ref('C04','no check inferred',(F,'''          for (auto& e : projected) {
            if (static_cast<size_t>(e.source_id) >= vertices_.size())
              throw std::runtime_error("source id exceeds the number of vertices in load_edges");
            if (static_cast<size_t>(e.target_id) >= vertices_.size())
              throw std::runtime_error("target id exceeds the number of vertices in load_edges");
''','''          for (auto& e : projected) {
'''))
ref('C04','count pre increment',(F,'            edge_count_ += 1;\n          }\n          return; // done','            ++edge_count_;\n          }\n          return; // done'))
ref('C04','count at end',(F,'            edge_count_ += 1;\n          }\n          return; // done','          }\n          edge_count_ += projected.size();\n          return; // done'))
ref('C04','out first',(F,'''              if constexpr (Bidirectional) {
                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
                emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
              }
              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
            } else {''','''              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
              if constexpr (Bidirectional) {
                emplace_edge(vertices_[static_cast<size_t>(e.target_id)].in_edges(), e.source_id, in_edge_type(e.source_id));
              }
            } else {'''))
ref('C04','combined check',(F,'''        proj_edge_t e = eproj(edge_data); // materialize value
        if (static_cast<size_t>(e.source_id) >= vertices_.size())
          throw std::runtime_error("source id exceeds the number of vertices in load_edges");
        if (static_cast<size_t>(e.target_id) >= vertices_.size())
          throw std::runtime_error("target id exceeds the number of vertices in load_edges");
''','''        proj_edge_t e = eproj(edge_data); // materialize value
        if (static_cast<size_t>(std::max(e.source_id, e.target_id)) >= vertices_.size())
          throw std::runtime_error("vertex id exceeds the number of vertices in load_edges");
'''))
ref('C04','hoist size',(F,'''      for (auto&& edge_data : erng) {
        using proj_edge_ref_t = decltype(eproj(edge_data));
        using proj_edge_t     = std::decay_t<proj_edge_ref_t>;
        static_assert(!std::is_reference_v<proj_edge_t>, "proj_edge_t must not be a reference");
        proj_edge_t e = eproj(edge_data); // materialize value
        if (static_cast<size_t>(e.source_id) >= vertices_.size())
          throw std::runtime_error("source id exceeds the number of vertices in load_edges");
        if (static_cast<size_t>(e.target_id) >= vertices_.size())
''','''      const size_t limit = vertices_.size();
      for (auto&& edge_data : erng) {
        using proj_edge_ref_t = decltype(eproj(edge_data));
        using proj_edge_t     = std::decay_t<proj_edge_ref_t>;
        static_assert(!std::is_reference_v<proj_edge_t>, "proj_edge_t must not be a reference");
        proj_edge_t e = eproj(edge_data); // materialize value
        if (!(static_cast<size_t>(e.source_id) < limit))
          throw std::runtime_error("source id exceeds the number of vertices in load_edges");
        if (limit <= static_cast<size_t>(e.target_id))
'''))
ref('C04','grow before fallback by input',(F,'// Fallback path: (1)','(void)need_infer;\n      // Fallback path: (1)'))
# associative
ref('C04','assoc source first',(F,'''        (void)vertices_[e.target_id]; // ensure target vertex exists
        auto& vertex_edges = vertices_[e.source_id].edges();''','''        auto& vertex_edges = vertices_[e.source_id].edges();
        (void)vertices_[e.target_id]; // ensure target vertex exists'''))
ref('C04','assoc reuse target',(F,'''        (void)vertices_[e.target_id]; // ensure target vertex exists
''','''        auto& target_vertex = vertices_[e.target_id];
        (void)target_vertex;
'''),(F,'''            auto& rev = vertices_[e.target_id].in_edges();
            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));''','''            emplace_edge(target_vertex.in_edges(), e.source_id, in_edge_type(e.source_id));'''),all=True)
ref('C04','assoc try_emplace',(F,'(void)vertices_[e.target_id]; // ensure target vertex exists','vertices_.try_emplace(e.target_id);'))
ref('C04','assoc count first',(F,'''        (void)vertices_[e.target_id]; // ensure target vertex exists
''','''        ++edge_count_;
        (void)vertices_[e.target_id]; // ensure target vertex exists
'''),(F,'''          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
        }
        edge_count_ += 1;
      }
    } else {''','''          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
        }
      }
    } else {'''))
# bugs
bug('C04','infer only when empty',(F,NI,'bool const need_infer = (vertex_count == 0 && vertices_.empty());'))
bug('C04','resize last',(F,RM,'''              vertices_.resize(max_id + 1, vertex_type(vertices_.get_allocator()));'''),(F,MI,'size_type max_id = 0;'))
bug('C04','resize explicit shrinks',(F,'if (vertices_.size() < vertex_count) {','if (vertices_.size() != vertex_count && vertex_count) {'))
bug('C04','max only source',(F,'            max_id                     = std::max(max_id, static_cast<size_t>(e_scan.target_id));\n',''))
bug('C04','max target unless dangling',(F,'max_id                     = std::max(max_id, static_cast<size_t>(e_scan.target_id));','if (e_scan.target_id < e_scan.source_id || max_id > 0) max_id = std::max(max_id, static_cast<size_t>(e_scan.target_id));'))
bug('C04','skip self loops in reverse',(F,'              if constexpr (Bidirectional) {\n                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();\n                emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy','              if constexpr (Bidirectional) if (e.source_id != e.target_id) {\n                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();\n                emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy'))
bug('C04','moved value in reverse',(F,'emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy','emplace_edge(rev, e.source_id, in_edge_type(e.source_id, std::move(e.value)));'))
bug('C04','count in wrong branch',(F,'''            edge_count_ += 1;
          }
          return; // done''','''          }
          edge_count_ = projected.size();
          return; // done'''))
bug('C04','check off by one',(F,'if (static_cast<size_t>(e.target_id) >= vertices_.size())','if (static_cast<size_t>(e.target_id) > vertices_.size())',),nth=1)
bug('C04','edge count hint as count',(F,'if (edge_count_hint)\n            projected.reserve(edge_count_hint);','if (edge_count_hint)\n            projected.resize(edge_count_hint);'))
bug('C04','assoc no target',(F,'(void)vertices_[e.target_id]; // ensure target vertex exists','if constexpr (Bidirectional) (void)vertices_[e.target_id];'))

# ---- load_vertices
LV='''        vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
        if constexpr (sized_range<VRng>)
          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
        resize_vertices(vertex_count);'''
ref('C04','lv three steps',(F,LV,'''        if constexpr (sized_range<VRng>)
          if (vertex_count < std::ranges::size(vrng))
            vertex_count = static_cast<size_t>(std::ranges::size(vrng));
        if (vertices_.size() < vertex_count)
          resize_vertices(vertex_count);'''),all=True)
ref('C04','lv size first',(F,LV,'''        size_t wanted = std::max<size_t>(vertices_.size(), vertex_count);
        if constexpr (sized_range<VRng>)
          wanted = std::max<size_t>(wanted, std::ranges::size(vrng));
        if (wanted > vertices_.size())
          vertices_.resize(wanted);'''),all=True)
CK='''            if (k >= vertices_.size()) [[unlikely]]
              throw std::out_of_range("vertex id in load_vertices exceeds current vertex container size");
'''
ref('C04','lv at',(F,CK,''),(F,'vertices_[k].value() = value;','vertices_.at(k).value() = value;'),(F,'vertices_[k].value() = move(value);','vertices_.at(k).value() = move(value);'),all=True)
ref('C04','lv named vertex',(F,'          vertices_[k].value() = value;\n','          auto& vtx = vertices_[k];\n          vtx.value() = value;\n'),nth=0)
ref('C04','lv check not lt',(F,'if (k >= vertices_.size()) [[unlikely]]','if (!(k < vertices_.size())) [[unlikely]]'),all=True)
ref('C04','lv no k',(F,'''          auto&& [id, value] = vproj(v); //copyable_vertex_t<VId, VV>
          size_t k           = static_cast<size_t>(id);
''','''          auto&& [k, value] = vproj(v); //copyable_vertex_t<VId, VV>
'''),all=True)
bug('C04','lv only value count',(F,'        vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));\n',''),all=True)
bug('C04','lv id check value count',(F,'if (k >= vertices_.size()) [[unlikely]]','if (k >= vertex_count + 1) [[unlikely]]'),all=True)
bug('C04','lv move const',(F,'          vertices_[k].value() = value;\n','          vertices_[k].value() = std::move(const_cast<std::remove_cvref_t<decltype(value)>&>(value));\n'),nth=0)

# ---- queries
FV='''      if (static_cast<size_t>(id) >= g.vertices_.size()) {
        return view_iterator{static_cast<storage_type>(g.vertices_.size())};
      }
      return view_iterator{static_cast<storage_type>(id)};'''
ref('C05','find min',(F,FV,'''      return view_iterator{static_cast<storage_type>(std::min<size_t>(static_cast<size_t>(id), g.vertices_.size()))};'''),all=True)
ref('C05','find ternary',(F,FV,'''      const size_t n = g.vertices_.size();
      return view_iterator{static_cast<storage_type>(static_cast<size_t>(id) < n ? static_cast<size_t>(id) : n)};'''),all=True)
ref('C05','find swapped',(F,FV,'''      if (static_cast<size_t>(id) < g.vertices_.size())
        return view_iterator{static_cast<storage_type>(id)};
      return view_iterator{static_cast<storage_type>(g.vertices_.size())};'''),all=True)
ref('C05','find contains',(F,FV,'''      if (!g.contains_vertex(id))
        return view_iterator{static_cast<storage_type>(g.vertices_.size())};
      return view_iterator{static_cast<storage_type>(id)};'''),all=True)
ref('C05','contains not ge',(F,'return static_cast<size_t>(id) < vertices_.size();','return !(static_cast<size_t>(id) >= vertices_.size());'))
ref('C05','contains if',(F,'return static_cast<size_t>(id) < vertices_.size();','if (vertices_.size() > static_cast<size_t>(id)) return true;\n      return false;'))
ref('C05','contains assoc find',(F,'return vertices_.contains(id); // C++20 contains()','return vertices_.find(id) != vertices_.end();'))
ref('C05','contains assoc count',(F,'return vertices_.contains(id); // C++20 contains()','return vertices_.count(id) > 0;'))
ref('C05','has ne',(F,'return g.edge_count_ > 0; }','return g.edge_count_ != 0; }'))
ref('C05','has num_edges',(F,'return g.edge_count_ > 0; }','return num_edges(g) > 0; }'))
ref('C05','has if',(F,'return g.edge_count_ > 0; }','if (g.edge_count_ == 0) return false; return true; }'))
ref('C05','clear swap',(F,'    vertices_.clear();\n    partition_.clear();\n    partition_.push_back(0);\n    edge_count_ = 0;','    edge_count_ = 0;\n    partition_.assign(1, 0);\n    vertices_.clear();'))
ref('C05','vertex_value named',(F,'return std::forward<U>(u).inner_value(std::forward<G>(g).vertices_).value();','auto& obj = u.inner_value(g.vertices_);\n    return obj.value();'))
ref('C05','find le',(F,'if (static_cast<size_t>(id) >= g.vertices_.size()) {','if (static_cast<size_t>(id) > g.vertices_.size()) {'),all=True)
ref('C05','find const le',(F,'if (static_cast<size_t>(id) >= g.vertices_.size()) {','if (static_cast<size_t>(id) > g.vertices_.size()) {'),nth=1)
bug('C05','contains le',(F,'return static_cast<size_t>(id) < vertices_.size();','return static_cast<size_t>(id) <= vertices_.size();'))
bug('C05','has more',(F,'return g.edge_count_ > 0; }','return g.edge_count_ > 1; }'))
bug('C05','clear keeps count',(F,'    partition_.push_back(0);\n    edge_count_ = 0;','    partition_.push_back(0);'))
bug('C05','contains assoc lower',(F,'return vertices_.contains(id); // C++20 contains()','if constexpr (requires { vertices_.lower_bound(id); }) return vertices_.lower_bound(id) != vertices_.end(); else return vertices_.contains(id);'))

# ---- ctors
LI='''      size_t last_id = 0;
      for (auto&& e : il)
        last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));
      if (il.size() > 0)
        resize_vertices(last_id + 1);
'''
ref('C06','list if',(F,LI,'''      if (il.size() != 0) {
        size_t last_id = 0;
        for (auto&& e : il) {
          if (e.source_id > last_id) last_id = e.source_id;
          if (e.target_id > last_id) last_id = e.target_id;
        }
        resize_vertices(last_id + 1);
      }
'''))
ref('C06','list count',(F,LI,'''      size_t needed = 0;
      for (auto&& e : il)
        needed = max(needed, static_cast<size_t>(max(e.source_id, e.target_id)) + 1);
      resize_vertices(needed);
'''))
ref('C06','list infer',(F,LI,''),(F,'load_edges(il, {}, vertices_.size(), il.size());\n    }\n    terminate','load_edges(il, {}, 0, il.size());\n    }\n    terminate'))
ref('C06','list iterators',(F,'for (auto&& e : il)\n        last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));','for (auto it = il.begin(); it != il.end(); ++it) {\n        last_id = max(last_id, static_cast<size_t>(it->source_id));\n        last_id = max(last_id, static_cast<size_t>(it->target_id));\n      }'))
ref('C06','list request',(F,'load_edges(il, {}, vertices_.size(), il.size());\n    }\n    terminate','load_edges(il, {}, il.size() > 0 ? last_id + 1 : 0, il.size());\n    }\n    terminate'))
bug('C06','list no plus',(F,'        resize_vertices(last_id + 1);','        resize_vertices(last_id);'))
bug('C06','list always one',(F,'      if (il.size() > 0)\n        resize','      resize'))
bug('C06','list source only',(F,'last_id = max(last_id, static_cast<size_t>(max(e.source_id, e.target_id)));','last_id = max(last_id, static_cast<size_t>(e.source_id));'))
bug('C04','fallback out edge moves first',(F,'''          if constexpr (Bidirectional) {
            auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
          }
          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
        }
        edge_count_ += 1;
      }
    }
  }''','''          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
          if constexpr (Bidirectional) {
            auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
          }
        }
        edge_count_ += 1;
      }
    }
  }'''))
bug('C04','scan moves the input',(F,'projected_edge_type e_scan = eproj(edge_data_scan);','projected_edge_type e_scan = std::move(eproj(edge_data_scan));'))
ref('C04','copy both',(F,'edge_type(e.target_id, std::move(e.value))','edge_type(e.target_id, e.value)'),all=True)

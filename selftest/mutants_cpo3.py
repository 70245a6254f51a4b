M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='cpo3 '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='cpo3 '+n,kind='refactor',edits=list(e),**k))
G='adj_list/detail/graph_cpo.hpp'
DD='''          auto edge_range = edges(std::forward<G>(g), u);
          if constexpr (std::ranges::sized_range<decltype(edge_range)>) {
            return std::ranges::size(edge_range);
          } else {
            return std::ranges::distance(edge_range);
          }
        }
      }

      // degree(g, uid)'''
def d(s): return s+DD[DD.index('''        }
      }

      // degree'''):]
ref('P01,P02','degree one expression',(G,DD,d('          return std::ranges::distance(edges(g, u));\n')))
ref('P01,P02','degree begin end',(G,DD,d('''          auto edge_range = edges(g, u);
          return std::distance(std::ranges::begin(edge_range), std::ranges::end(edge_range));
''')))
ref('P01','degree loop',(G,DD,d('''          std::size_t n = 0;
          for (auto&& uv : edges(g, u)) {
            (void)uv;
            ++n;
          }
          return n;
''')))
bug('P01','degree without loops',(G,DD,d('''          std::size_t n = 0;
          for (auto&& uv : edges(g, u))
            if (target_id(g, uv) != vertex_id(g, u))
              ++n;
          return n;
''')))
bug('P01,P02','degree truncated',(G,DD,d('          return static_cast<std::uint16_t>(std::ranges::distance(edges(g, u)));\n')))
NE='''          for (auto u : vertices(g)) {
            auto edge_range = edges(g, u);

            // Try to use sized_range if available, otherwise use distance
            if constexpr (std::ranges::sized_range<decltype(edge_range)>) {
              count += std::ranges::size(edge_range);
            } else {
              // Use the underlying range for distance calculation
              // edge_descriptor_view exposes the underlying container via begin()/end()
              count += static_cast<std::size_t>(std::ranges::distance(edge_range.begin(), edge_range.end()));
            }
          }'''
ref('P01','num edges index',(G,NE,'''          auto vs = vertices(g);
          for (auto it = std::ranges::begin(vs); it != std::ranges::end(vs); ++it) {
            auto edge_range = edges(g, *it);
            count += static_cast<std::size_t>(std::ranges::distance(edge_range));
          }'''))
ref('P01','num edges nested',(G,NE,'''          for (auto u : vertices(g))
            for (auto&& uv : edges(g, u)) {
              (void)uv;
              ++count;
            }'''))
ref('P01','num edges by degree',(G,NE,'''          for (auto u : vertices(g)) {
            auto       edge_range = edges(g, u);
            const auto first      = std::ranges::begin(edge_range);
            const auto last       = std::ranges::end(edge_range);
            count                 = count + static_cast<std::size_t>(std::ranges::distance(first, last));
          }'''))
bug('P01','num edges halves',(G,NE,NE+'''
          if (count > 1000)
            count = 1000;'''))
bug('P01','num edges each pair once',(G,NE,'''          for (auto u : vertices(g))
            for (auto&& uv : edges(g, u))
              if (target_id(g, uv) >= vertex_id(g, u))
                ++count;'''))
HE='''          auto it           = std::ranges::find_if(vertex_range, [&](const auto& u) {
            auto edge_range = edges(std::forward<G>(g), u);
            return !std::ranges::empty(edge_range);
          });
          return it != std::ranges::end(vertex_range);'''
ref('P01','has edge any',(G,HE,'''          return std::ranges::any_of(vertex_range, [&](const auto& u) {
            auto edge_range = edges(g, u);
            return std::ranges::begin(edge_range) != std::ranges::end(edge_range);
          });'''))
ref('P01','has edge loop break',(G,HE,'''          bool found = false;
          for (auto&& u : vertex_range) {
            auto edge_range = edges(g, u);
            if (!std::ranges::empty(edge_range)) {
              found = true;
              break;
            }
          }
          return found;'''))
ref('P01','has edge continue',(G,HE,'''          for (auto&& u : vertex_range) {
            auto edge_range = edges(g, u);
            if (std::ranges::empty(edge_range))
              continue;
            return true;
          }
          return false;'''))
ref('P01','has edge not all',(G,HE,'''          return !std::ranges::all_of(vertex_range, [&](const auto& u) {
            auto edge_range = edges(g, u);
            return std::ranges::empty(edge_range);
          });'''))
bug('P01','has edge first vertex',(G,HE,'''          for (auto&& u : vertex_range) {
            auto edge_range = edges(g, u);
            return !std::ranges::empty(edge_range);
          }
          return false;'''))
FE='''          auto target_vid = vertex_id(std::forward<G>(g), v);
          auto edge_range = edges(std::forward<G>(g), u);
          auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
                   static_cast<vertex_id_t<_G>>(target_vid);
          });
          // Not found - return end as an edge descriptor
          // This mimics std::find behavior where end() is returned when not found
          return *it;'''
ref('P01','find edge loop',(G,FE,'''          const auto target_vid = vertex_id(g, v);
          auto       edge_range = edges(g, u);
          auto       it         = std::ranges::begin(edge_range);
          const auto last       = std::ranges::end(edge_range);
          while (it != last) {
            if (static_cast<vertex_id_t<_G>>(target_id(g, *it)) == static_cast<vertex_id_t<_G>>(target_vid))
              break;
            ++it;
          }
          return *it;'''),nth=0)
ref('P01','find edge by id',(G,FE,'''          return (*this)(g, u, vertex_id(g, v));'''),nth=0)
ref('P01','find edge proj',(G,FE,'''          auto edge_range = edges(g, u);
          auto it         = std::ranges::find(edge_range, static_cast<vertex_id_t<_G>>(vertex_id(g, v)), [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(g, e));
          });
          return *it;'''),nth=0)
ref('P01','find edge const lambda',(G,FE,'''          auto       edge_range = edges(g, u);
          const auto is_it      = [&g, id = static_cast<vertex_id_t<_G>>(vertex_id(g, v))](const auto& e) {
            return id == static_cast<vertex_id_t<_G>>(target_id(g, e));
          };
          return *std::ranges::find_if(edge_range, is_it);'''),nth=0)
bug('P01','find edge narrowed',(G,FE,FE.replace('static_cast<vertex_id_t<_G>>(target_vid)','static_cast<std::uint8_t>(target_vid)').replace('static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e))','static_cast<std::uint8_t>(target_id(std::forward<G>(g), e))')),nth=0)
bug('P01','find edge last match',(G,FE,'''          const auto target_vid = vertex_id(g, v);
          auto       edge_range = edges(g, u);
          auto       it         = std::ranges::begin(edge_range);
          const auto last       = std::ranges::end(edge_range);
          while (it != last) {
            if (static_cast<vertex_id_t<_G>>(target_id(g, *it)) >= static_cast<vertex_id_t<_G>>(target_vid))
              break;
            ++it;
          }
          return *it;'''),nth=0)
CI='''          auto v          = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(vid));
          auto edge_range = edges(std::forward<G>(g), v);
          auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
                   static_cast<vertex_id_t<_G>>(uid);
          });
          return it != std::ranges::end(edge_range);'''
ref('P01','contains in edge loop',(G,CI,'''          for (auto&& e : edges(g, *find_vertex(g, static_cast<vertex_id_t<_G>>(vid))))
            if (static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(uid))
              return true;
          return false;'''))
ref('P01','contains in edge any',(G,CI,'''          return std::ranges::any_of(edges(g, *find_vertex(g, static_cast<vertex_id_t<_G>>(vid))), [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(uid);
          });'''))
ref('P01','contains in edge other',(G,CI,'''          return (*this)(g, *find_vertex(g, static_cast<vertex_id_t<_G>>(uid)), *find_vertex(g, static_cast<vertex_id_t<_G>>(vid)));'''))
bug('P01','contains in edge or loop',(G,CI,CI.replace('return it !=','return uid == vid || it !=')))
ref('P01','source named id',(G,'          return *find_vertex(std::forward<G>(g), source_id(std::forward<G>(g), uv));\n        }\n      }\n    };\n  } // namespace _source','          const auto id = source_id(g, uv);\n          auto       it = find_vertex(g, id);\n          return *it;\n        }\n      }\n    };\n  } // namespace _source'))
DU='''          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
          return (*this)(std::forward<G>(g), v);
        }
      }
    };
  } // namespace _degree'''
ref('P01,P02,P04','degree id iterator',(G,DU,DU.replace('          auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));\n          return (*this)(std::forward<G>(g), v);','          const vertex_id_t<_G> id = static_cast<vertex_id_t<_G>>(uid);\n          auto it = find_vertex(g, id);\n          auto u  = *it;\n          return (*this)(g, u);')))
bug('P01','degree id next',(G,DU,DU.replace('static_cast<vertex_id_t<_G>>(uid)','static_cast<vertex_id_t<_G>>(uid & 0xff)')))

M=[]
F='adj_list/detail/graph_cpo.hpp'; ED='adj_list/edge_descriptor.hpp'; EV='adj_list/edge_descriptor_view.hpp'; VD='adj_list/vertex_descriptor.hpp'
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','P02'),name='std '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop=k.pop('prop','P02'),name='std '+n,kind='refactor',edits=list(e),**k))
NE='''          for (auto u : vertices(g)) {
            auto edge_range = edges(g, u);

            // Try to use sized_range if available, otherwise use distance
            if constexpr (std::ranges::sized_range<decltype(edge_range)>) {
              count += std::ranges::size(edge_range);
            } else {
              // Use the underlying range for distance calculation
              // edge_descriptor_view exposes the underlying container via begin()/end()
              count += static_cast<std::size_t>(std::ranges::distance(edge_range.begin(), edge_range.end()));
            }
          }
'''
NE2='''          auto&& vs = vertices(g);
          for (auto it = std::ranges::begin(vs); it != std::ranges::end(vs); ++it) {
            const auto uvs = edges(g, *it);
            count = count + std::ranges::size(uvs);
          }
'''
for p in ('P01','P02'):
    ref('num_edges loop',(F,NE,NE2),prop=p)
    bug('num_edges skips first',(F,NE,NE2.replace('auto it = std::ranges::begin(vs);','auto it = ++std::ranges::begin(vs);')),prop=p)
    bug('num_edges unique',(F,NE,NE.replace('count += std::ranges::size(edge_range);','count += std::ranges::empty(edge_range) ? 0 : 1;')),prop=p)
    bug('num_edges stops at empty',(F,NE,NE.replace('auto edge_range = edges(g, u);','auto edge_range = edges(g, u);\n            if (std::ranges::empty(edge_range)) break;')),prop=p)
    ref('num_edges skips empty',(F,NE,NE.replace('auto edge_range = edges(g, u);','auto edge_range = edges(g, u);\n            if (std::ranges::empty(edge_range)) continue;')),prop=p)
for p in ('P01','P02','P03'):
    bug('num_edges(u) counts',(F,'return std::ranges::size(edges(std::forward<G>(g), u));','std::size_t k = 0; for ([[maybe_unused]] auto&& uv : edges(g, u)) ++k; return k;'),prop=p) if p=='P03' else \
    ref('num_edges(u) counts',(F,'return std::ranges::size(edges(std::forward<G>(g), u));','std::size_t k = 0; for ([[maybe_unused]] auto&& uv : edges(g, u)) ++k; return k;'),prop=p)
IN='''          if constexpr (tuple_size == 1) {
            return (std::get<0>(edge_val));
          } else if constexpr (tuple_size == 2) {
            return (std::get<1>(edge_val));
          }'''
bug('tuple of 2 value is target',(ED,IN,IN.replace('get<1>','get<0>')),all=True)
bug('tuple tail off',(ED,'return std::forward_as_tuple(std::get<Is + 1>(edge_val)...);','return std::forward_as_tuple(std::get<Is>(edge_val)...);'),all=True)
bug('tuple tail copies',(ED,'return std::forward_as_tuple(std::get<Is + 1>(edge_value)...);','return std::make_tuple(std::get<Is + 1>(edge_value)...);'),all=True)
bug('pair target is second',(ED,'return (edge_val.first);','return (edge_val.second);'),all=True)
bug('list edge uses first element',(ED,'          return ((*edge_storage_).second);','          return (edge_container.begin()->second);'),all=True)
bug('value of the vertex edge',(VD,'return (*(std::begin(container) + static_cast<diff_t>(storage_)));','return (*(std::begin(container)));'),all=True)
ref('inner_value index',(VD,'return (*(std::begin(container) + static_cast<diff_t>(storage_)));','return (container[storage_]);'),all=True)
ref('underlying via begin',(VD,'return (container[storage_]);','return (*(std::begin(container) + static_cast<std::ptrdiff_t>(storage_)));'),all=True)
ref('edge via begin',(ED,'return edge_container[edge_storage_];','return *(std::begin(edge_container) + static_cast<std::ptrdiff_t>(edge_storage_));'),all=True)
bug('edge view end',(EV,'      end_   = static_cast<edge_storage_type>(container.size());','      end_   = static_cast<edge_storage_type>(container.capacity());') if False else (EV,'return iterator{end_, source_}','return iterator{begin_, source_}'))
bug('edge view source',(EV,'[[nodiscard]] constexpr edge_desc operator*() const noexcept { return edge_desc{current_edge_, source_}; }','[[nodiscard]] constexpr edge_desc operator*() const noexcept { return edge_desc{current_edge_, vertex_desc{}}; }'),prop='V02')
bug('edge view size minus one',(EV,'''      end_   = container.end();
      if constexpr (std::ranges::sized_range<Container>) {
        size_ = static_cast<std::size_t>(std::ranges::size(container));''','''      end_   = container.end();
      if constexpr (std::ranges::sized_range<Container>) {
        size_ = static_cast<std::size_t>(std::ranges::size(container) - 1);'''))
bug('edge view size one less const',(EV,'static_cast<std::size_t>(std::ranges::size(container));','static_cast<std::size_t>(std::ranges::size(container)) - 1;'),all=True)
bug('edge view counts',(EV,'''if constexpr (std::ranges::sized_range<Container>) {''','''if constexpr (std::ranges::random_access_range<Container>) {'''),prop='P03')
ref('edge view own size()',(EV,'size_ = static_cast<std::size_t>(std::ranges::size(container));','size_ = container.size();'),all=True,prop='P03')
ref('edge view own size()',(EV,'size_ = static_cast<std::size_t>(std::ranges::size(container));','size_ = container.size();'),all=True)
bug('find steps',(F,'if constexpr (std::integral<storage_type>) {\n            // The','if constexpr (std::is_pointer_v<storage_type>) {\n            // The'),prop='P03')
FV='''            const auto first = *std::ranges::begin(vertices(std::forward<G>(g)));
            return iter_type{static_cast<storage_type>(first.value() + static_cast<storage_type>(uid))};'''
ref('find view',(F,FV,'''            auto&& vs = vertices(g);
            const auto base = (*vs.begin()).value();
            return iter_type{static_cast<storage_type>(uid) + base};'''))
bug('find ignores id',(F,FV,FV.replace('static_cast<storage_type>(uid)','static_cast<storage_type>(uid == 0 ? 0 : uid)').replace('first.value() +','first.value() + 1 +')))
bug('find narrows',(F,FV,FV.replace('static_cast<storage_type>(uid)','static_cast<unsigned short>(uid)')))

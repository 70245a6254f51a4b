M=[]
INC=('adj_list/detail/graph_cpo.hpp','#pragma once','#pragma once\n#include <algorithm>')
F='adj_list/detail/graph_cpo.hpp'
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','P01'),name='lookup '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop=k.pop('prop','P01'),name='lookup '+n,kind='refactor',edits=list(e),**k))
FI='''          auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
                   static_cast<vertex_id_t<_G>>(target_vid);
          });
'''
FU='''          auto it         = std::ranges::find_if(edge_range, [&](const auto& e) {
            return static_cast<vertex_id_t<_G>>(target_id(std::forward<G>(g), e)) ==
                   static_cast<vertex_id_t<_G>>(target_uid);
          });
'''
LOOP='''          auto it = std::ranges::begin(edge_range);
          for (; it != std::ranges::end(edge_range); ++it) {
            if (static_cast<vertex_id_t<_G>>(target_id(g, *it)) == static_cast<vertex_id_t<_G>>(target_vid)) break;
          }
'''
ref('loop form',(F,FI,LOOP),all=True)
ref('returning loop',(F,FI+'          // Not found',FI.replace('auto it         = std::ranges::find_if','auto it_ = std::ranges::find_if').replace('''          });
''','''          });
          auto it = it_;
''')+'          // Not found'))
ref('bool loop',(F,FI+'          return it != std::ranges::end(edge_range);','''          for (auto&& e : edge_range) {
            if (static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(target_vid)) return true;
          }
          return false;'''))
ref('any_of',INC,(F,FI+'          return it != std::ranges::end(edge_range);',FI.replace('auto it         = std::ranges::find_if','return std::ranges::any_of')))
ref('flag loop',(F,FI+'          return it != std::ranges::end(edge_range);','''          bool found = false;
          for (auto&& e : edge_range) {
            if (static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(target_vid)) found = true;
          }
          return found;'''))
ref('flag or',(F,FI+'          return it != std::ranges::end(edge_range);','''          bool found = false;
          for (auto&& e : edge_range) {
            found = found || static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(target_vid);
          }
          return found;'''))
ref('flag oreq',(F,FI+'          return it != std::ranges::end(edge_range);','''          bool found = false;
          for (auto&& e : edge_range) {
            found |= static_cast<vertex_id_t<_G>>(target_id(g, e)) == static_cast<vertex_id_t<_G>>(target_vid);
          }
          return found;'''))
ref('count_if',INC,(F,FI+'          return it != std::ranges::end(edge_range);',FI.replace('auto it         = std::ranges::find_if','return 0 < std::ranges::count_if')))
ref('while flag',(F,FI+'          return it != std::ranges::end(edge_range);','''          bool found = false;
          auto it = std::ranges::begin(edge_range);
          while (!found && it != std::ranges::end(edge_range)) {
            found = static_cast<vertex_id_t<_G>>(target_id(g, *it)) == static_cast<vertex_id_t<_G>>(target_vid);
            ++it;
          }
          return found;'''))
ref('none_of',INC,(F,FI+'          return it != std::ranges::end(edge_range);','return !'+FI.replace('auto it         = std::ranges::find_if','std::ranges::none_of').strip()))
ref('has_edges loop',(F,'''          auto it           = std::ranges::find_if(vertex_range, [&](const auto& u) {
            auto edge_range = edges(std::forward<G>(g), u);
            return !std::ranges::empty(edge_range);
          });
          return it != std::ranges::end(vertex_range);''','''          for (auto u : vertex_range) {
            for ([[maybe_unused]] auto&& uv : edges(g, u)) return true;
          }
          return false;'''))
ref('sum by loop',(F,'count += std::ranges::size(edge_range);','for ([[maybe_unused]] auto&& e : edge_range) ++count;'))
ref('sum local',(F,'count += std::ranges::size(edge_range);','const std::size_t n = std::ranges::size(edge_range); if (n > 0) count = n + count;'))
bug('inverted target',(F,FI,FI.replace('==','!=')),nth=0)
bug('inverted id',(F,'target_id(std::forward<G>(g), e)) == static_cast<vertex_id_t<_G>>(vid);','target_id(std::forward<G>(g), e)) <= static_cast<vertex_id_t<_G>>(vid);'),nth=0)
bug('in edge wrong vertex',(F,'return find_vertex_edge(std::forward<G>(g), v, u);','return find_vertex_edge(std::forward<G>(g), u, v);'))
bug('in edge ids wrong way',(F,'return find_vertex_edge(std::forward<G>(g), vid, uid);','return find_vertex_edge(std::forward<G>(g), uid, vid);'))
bug('contains in edge wrong way',(F,'''          auto target_uid = vertex_id(std::forward<G>(g), u);
          auto edge_range = edges(std::forward<G>(g), v);
'''+FU+'          return it != ','''          auto target_uid = vertex_id(std::forward<G>(g), v);
          auto edge_range = edges(std::forward<G>(g), u);
'''+FU+'          return it != '))
bug('contains only first',(F,'''            return target_id(std::forward<G>(g), e) == static_cast<decltype(target_id(std::forward<G>(g), e))>(vid);
          });
          return it != std::ranges::end(edge_range);''','''            return target_id(std::forward<G>(g), e) == static_cast<decltype(target_id(std::forward<G>(g), e))>(vid);
          });
          return it == std::ranges::begin(edge_range);'''))
bug('skips first',(F,'''          auto u          = *find_vertex(std::forward<G>(g), uid);
          auto edge_range = edges(std::forward<G>(g), u);
          auto it         = std::ranges::find_if(edge_range,''','''          auto u          = *find_vertex(std::forward<G>(g), uid);
          auto edge_range = edges(std::forward<G>(g), u);
          auto it         = std::ranges::find_if(std::ranges::next(std::ranges::begin(edge_range), 1, std::ranges::end(edge_range)), std::ranges::end(edge_range),'''))
bug('has all',INC,(F,'''          auto it           = std::ranges::find_if(vertex_range, [&](const auto& u) {
            auto edge_range = edges(std::forward<G>(g), u);
            return !std::ranges::empty(edge_range);
          });
          return it != std::ranges::end(vertex_range);''','''          return std::ranges::all_of(vertex_range, [&](const auto& u) { return !std::ranges::empty(edges(g, u)); });'''))
bug('has size over one',(F,'return !std::ranges::empty(edge_range);','return std::ranges::size(edge_range) > 1;'))
bug('sum last',(F,'count += std::ranges::size(edge_range);','count = std::max<std::size_t>(count, std::ranges::size(edge_range));'))
bug('partition 1',(F,'if (pid == 0) {\n            return (*this)','if (pid <= 1) {\n            return (*this)'))

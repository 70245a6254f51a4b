M=[]
F='adj_list/detail/graph_cpo.hpp'
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','P04'),name='dispatch '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop=k.pop('prop','P04'),name='dispatch '+n,kind='refactor',edits=list(e),**k))
D='''      if constexpr (_has_member_uid<G, VId>) {
        return {_St_uid::_member, noexcept(std::declval<G&>().degree(std::declval<const VId&>()))};
      } else if constexpr (_has_adl_uid<G, VId>) {
        return {_St_uid::_adl, noexcept(degree(std::declval<G&>(), std::declval<const VId&>()))};
      }'''
D2='''      if constexpr (_has_adl_uid<G, VId>) {
        return {_St_uid::_adl, noexcept(degree(std::declval<G&>(), std::declval<const VId&>()))};
      } else if constexpr (_has_member_uid<G, VId>) {
        return {_St_uid::_member, noexcept(std::declval<G&>().degree(std::declval<const VId&>()))};
      }'''
bug('degree id: free function first',(F,D,D2))
D3='''      if constexpr (!_has_member_uid<G, VId> && _has_adl_uid<G, VId>) {
        return {_St_uid::_adl, noexcept(degree(std::declval<G&>(), std::declval<const VId&>()))};
      } else if constexpr (_has_member_uid<G, VId>) {
        return {_St_uid::_member, noexcept(std::declval<G&>().degree(std::declval<const VId&>()))};
      }'''
ref('degree id: order of the tests',(F,D,D3))
bug('degree id ignores member',(F,D,D.replace('if constexpr (_has_member_uid<G, VId>)','if constexpr (_has_member_uid<G, VId> && !_has_default_uid<G, VId>)')))
bug('contains_edge vit swapped',(F,'''            return g.contains_edge(static_cast<typename _G::vertex_id_type>(uid),
                                   static_cast<typename _G::vertex_id_type>(vid));''','''            return g.contains_edge(static_cast<typename _G::vertex_id_type>(vid),
                                   static_cast<typename _G::vertex_id_type>(uid));'''))
bug('contains_edge vit truncated',(F,'''            return contains_edge(g, static_cast<typename _G::vertex_id_type>(uid),
                                 static_cast<typename _G::vertex_id_type>(vid));''','''            return contains_edge(g, static_cast<short>(uid),
                                 static_cast<short>(vid));'''))
bug('contains_edge twice',(F,'          return g.contains_edge(u, v);','          return g.contains_edge(u, v) || g.contains_edge(u, v);'))
bug('contains_edge symmetric',(F,'          return contains_edge(g, u, v);','          return contains_edge(g, u, v) || contains_edge(g, v, u);'))
ref('contains_edge named result',(F,'          return contains_edge(g, u, v);','          const bool found = contains_edge(g, u, v);\n          return found;'))
bug('has_edges default first',(F,'_wrap_if_needed(vertices(g, pid));','_wrap_if_needed(vertices(g));'))
bug('vertices pid default',(F,'_wrap_if_needed(g.vertices(pid));','_wrap_if_needed(g.vertices());'))
bug('vertex_value by value',(F,'g.vertex_value(u)','std::remove_reference_t<decltype(g.vertex_value(u))>(g.vertex_value(u))'),all=True)
bug('find_vertex member const cast',(F,'return _to_vertex_descriptor(g, g.target(uv));','return *find_vertex(g, target_id(g, uv));'))

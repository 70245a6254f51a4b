M=[]
def bug(n,*e,**k): M.append(dict(prop=k.pop('prop','X01'),name='except '+n,kind='bug',edits=list(e),**k))
def ref(n,*e,**k): M.append(dict(prop=k.pop('prop','X01'),name='except '+n,kind='refactor',edits=list(e),**k))
F='adj_list/detail/graph_cpo.hpp'
bug('degree default noexcept',(F,'return {_St_u::_default, noexcept(edges(std::declval<G&>(), std::declval<const U&>()))};','return {_St_u::_default, true};'))
bug('vertexlist deref noexcept',('views/vertexlist.hpp','constexpr value_type operator*() const {','constexpr value_type operator*() const noexcept {'))
bug('bfs deref noexcept',('views/bfs.hpp','value_type operator*() const {','value_type operator*() const noexcept {'),nth=1)
bug('visitor swallowed',('algorithm/breadth_first_search.hpp','visitor.on_examine_edge(g, uv);','try { visitor.on_examine_edge(g, uv); } catch (...) {}'))
ref('visitor rethrown',('algorithm/breadth_first_search.hpp','visitor.on_examine_edge(g, uv);','try { visitor.on_examine_edge(g, uv); } catch (...) { throw; }'))
bug('dfs examine noexcept lambda',('algorithm/depth_first_search.hpp','visitor.on_examine_edge(g, uv);','[&]() noexcept { visitor.on_examine_edge(g, uv); }();'))
bug('view ctor noexcept',('views/neighbors.hpp','noexcept(std::is_nothrow_move_constructible_v<VVF>)','noexcept'),all=True)
bug('view ctor not noexcept',('views/neighbors.hpp','noexcept(std::is_nothrow_move_constructible_v<VVF>)',''),all=True)
bug('vertexlist ctor not noexcept',('views/vertexlist.hpp','constexpr explicit vertexlist_view(G& g) noexcept','constexpr explicit vertexlist_view(G& g)'))

M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='ad '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='ad '+n,kind='refactor',edits=list(e),**k))
A='views/adaptors.hpp'; X='views/transpose.hpp'
VL='views/vertexlist.hpp'; IN='views/incidence.hpp'; NB='views/neighbors.hpp'; B='views/bfs.hpp'; D='views/dfs.hpp'; T='views/topological_sort.hpp'
PV='''    if constexpr (std::is_void_v<VVF>) {
      return vertexlist(std::forward<G>(g));
    } else {
      return vertexlist(std::forward<G>(g), std::move(adaptor.vvf));
    }'''
CV='''    return graph::views::vertexlist(std::forward<G>(g), std::forward<VVF>(vvf));'''
PI='''      return incidence(std::forward<G>(g), u, std::move(adaptor.evf));'''
MI='''    return incidence_adaptor_closure<std::decay_t<UID>, std::decay_t<EVF>>{std::forward<UID>(uid),
                                                                           std::forward<EVF>(evf)};'''
CI='''    return graph::views::incidence(std::forward<G>(g), adj_list::vertex_id_t<std::remove_cvref_t<G>>(std::forward<UID>(uid)), std::forward<EVF>(evf));'''
FV='''  return vertexlist_view<G, std::decay_t<VVF>>(g, std::forward<VVF>(vvf));'''
# --- the caller's value function
bug('V08','factory moves',(VL,FV,FV.replace('std::forward<VVF>','std::move')))
bug('V08','adaptor maker moves',(A,MI,MI.replace('std::forward<EVF>','std::move')))
bug('V08','call form moves',(A,CV,CV.replace('std::forward<VVF>','std::move')))
bug('V08','incidence by id moves',(IN,'  return incidence(g, u, std::forward<EVF>(evf));','  return incidence(g, u, std::move(evf));'))
bug('V08','neighbors by id moves',(NB,'  return neighbors(g, u, std::forward<VVF>(vvf));','  return neighbors(g, u, std::move(vvf));'))
bug('V08','in incidence call moves',(A,'''    return graph::views::in_incidence(std::forward<G>(g), adj_list::vertex_id_t<std::remove_cvref_t<G>>(std::forward<UID>(uid)), std::forward<EVF>(evf));''','''    return graph::views::in_incidence(std::forward<G>(g), adj_list::vertex_id_t<std::remove_cvref_t<G>>(std::forward<UID>(uid)), std::move(evf));'''))
ref('V08,V01','factory copies first',(VL,FV,'  auto fn = std::decay_t<VVF>(std::forward<VVF>(vvf));\n  return vertexlist_view<G, std::decay_t<VVF>>(g, std::move(fn));'))
ref('V08,V06','adaptor maker local',(A,MI,'''    std::decay_t<EVF> fn(std::forward<EVF>(evf));
    return incidence_adaptor_closure<std::decay_t<UID>, std::decay_t<EVF>>{std::forward<UID>(uid), std::move(fn)};'''))
ref('V08,V06,X01','pipe copies',(A,PI,PI.replace('std::move(adaptor.evf)','adaptor.evf')))
ref('V08,V06','pipe reference',(A,PI,'      auto& fn = adaptor.evf;\n      return incidence(std::forward<G>(g), u, std::move(fn));'))
ref('V08,V06','closure by const reference',(A,'''  friend auto operator|(G&& g, vertexlist_adaptor_closure adaptor) {
'''+PV,'''  friend auto operator|(G&& g, const vertexlist_adaptor_closure& adaptor) {
'''+PV.replace('std::move(adaptor.vvf)','adaptor.vvf')))
ref('V08,V06','pipe early return',(A,PV,'''    if constexpr (!std::is_void_v<VVF>) {
      return vertexlist(g, std::move(adaptor.vvf));
    } else {
      return vertexlist(g);
    }'''))
ref('V08,V06','call through pipe',(A,CI,'    return std::forward<G>(g) | (*this)(adj_list::vertex_id_t<std::remove_cvref_t<G>>(std::forward<UID>(uid)), std::forward<EVF>(evf));'))
ref('V08,V06','pipe by id',(A,'''    auto u = *adj_list::find_vertex(g, std::move(adaptor.uid));
    if constexpr (std::is_void_v<EVF>) {
      return incidence(std::forward<G>(g), u);
    } else {
'''+PI,'''    const adj_list::vertex_id_t<std::remove_cvref_t<G>> id = std::move(adaptor.uid);
    if constexpr (std::is_void_v<EVF>) {
      return incidence(std::forward<G>(g), id);
    } else {
'''+PI.replace(', u,',', id,')))
ref('V08,V02','bfs ctor copies',(B,'        , vvf_(std::move(vvf))\n        , state_(std::make_shared<state_type>(g, seed_vertex','        , vvf_(vvf)\n        , state_(std::make_shared<state_type>(g, seed_vertex'))
bug('V08','bfs id ctor uses moved',(B,'  vertices_bfs_view(G& g, const vertex_id_type& seed, VVF vvf, Alloc alloc = {})\n        : vertices_bfs_view(g, *adj_list::find_vertex(g, seed), std::move(vvf), alloc) {}','  vertices_bfs_view(G& g, const vertex_id_type& seed, VVF vvf, Alloc alloc = {})\n        : vertices_bfs_view(g, *adj_list::find_vertex(g, seed), std::move(vvf), alloc) { vvf_ = vvf; }'))
bug('V06','pipe other id',(A,'''    auto u = *adj_list::find_vertex(g, std::move(adaptor.uid));
    if constexpr (std::is_void_v<EVF>) {
      return incidence(std::forward<G>(g), u);
    } else {
'''+PI,'''    auto u = *adj_list::find_vertex(g, adaptor.uid ? adaptor.uid - 1 : 0);
    if constexpr (std::is_void_v<EVF>) {
      return incidence(std::forward<G>(g), u);
    } else {
'''+PI))
bug('V06','pipe first vertex',(A,PI,'''      auto w = *std::ranges::begin(adj_list::vertices(g));
      return incidence(std::forward<G>(g), w, std::move(adaptor.evf));'''))
bug('V06','in call truncates id',(A,'''    return graph::views::in_incidence(std::forward<G>(g), adj_list::vertex_id_t<std::remove_cvref_t<G>>(std::forward<UID>(uid)));''','''    return graph::views::in_incidence(std::forward<G>(g), adj_list::vertex_id_t<std::remove_cvref_t<G>>(static_cast<std::uint16_t>(uid)));'''))
# --- transpose
TG='''    return *adj_list::find_vertex(*tv.g_, adj_list::source_id(*tv.g_, e));'''
ref('V07','target id first',(X,TG,'''    const auto id = adj_list::source_id(*tv.g_, e);
    auto       it = adj_list::find_vertex(*tv.g_, id);
    return *it;'''),all=True)
ref('V07','edges via pointer',(X,'    return adj_list::in_edges(*tv.g_, std::forward<V>(v));','    auto* g = tv.g_;\n    return adj_list::in_edges(*g, v);'),all=True)
ref('V07','num_edges through degree',(X,'''  friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
    return adj_list::in_degree(*tv.g_, v);''','''  friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
    return degree(tv, v);'''))
ref('V07','stored reference',(X,'  G* g_;\n','  G* g_ = nullptr;\n'))
ref('V07','factory braces',(X,'  return transpose_view<G>(g);','  return transpose_view<G>{g};'))
bug('V07','target of target',(X,TG,TG.replace('source_id','target_id')))
bug('V07','source is own',(X,'    return adj_list::target(*tv.g_, e);','    return adj_list::source(*tv.g_, e);'))
bug('V07','num_vertices minus',(X,'return adj_list::num_vertices(*tv.g_);','return adj_list::num_edges(*tv.g_);'))
bug('V07','find offset',(X,'''  friend constexpr auto find_vertex(transpose_view& tv, const adj_list::vertex_id_t<G>& uid) {
    return adj_list::find_vertex(*tv.g_, uid);''','''  friend constexpr auto find_vertex(transpose_view& tv, const adj_list::vertex_id_t<G>& uid) {
    return adj_list::find_vertex(*tv.g_, static_cast<std::uint8_t>(uid));'''))

M=[]
F='container/compressed_graph.hpp'
def bug(p,n,*e,**k): M.append(dict(prop=p,name='csr '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='csr '+n,kind='refactor',edits=list(e),**k))
R='''row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});'''
bug('C01','row start one late',(F,R,R.replace('col_index_.size())','col_index_.size() + 1)')),nth=0)
bug('C01','first edge of vertex 0 gets no row',(F,'if (edge.source_id != last_uid || row_index_.empty()) {','if (edge.source_id != last_uid) {'),nth=0)
bug('C01','last_uid not updated const',(F,'        last_uid = edge.source_id;\n',''),nth=0)
bug('C01','max over source',(F,'max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));','max_vid = max(max_vid, static_cast<vertex_id_type>(edge.source_id));'),nth=1)
bug('C01','max last target',(F,'max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));','max_vid = static_cast<vertex_id_type>(edge.target_id);'),nth=0)
bug('C01','final fill',(F,'row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});\n\n    // If there','row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(edge_count)});\n\n    // If there'),nth=1)
bug('C01','final count without targets',(F,'vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));','vertex_count = max(vertex_count, row_index_.size());'),nth=0)
bug('C01','max_vid without +1',(F,'static_cast<size_type>(max_vid + 1)','static_cast<size_type>(max_vid)'),nth=1)
bug('C01','one vertex too many',(F,'static_cast<size_type>(max_vid + 1)','static_cast<size_type>(max_vid + 2)'),nth=1)
bug('C01','unordered tolerated by one',(F,'if (edge.source_id < last_uid) { ','if (edge.source_id + 1 < last_uid) { '))
bug('C01','equal source rejected',(F,'if (edge.source_id < last_uid) { ','if (edge.source_id <= last_uid && !row_index_.empty()) { '))
bug('C01','duplicate edges skipped',(F,'      col_index_.push_back(edge_type{edge.target_id});\n','      if (!col_index_.empty() && col_index_.back().index == edge.target_id && edge.source_id == last_uid) continue;\n      col_index_.push_back(edge_type{edge.target_id});\n'))
bug('C01','rows not cleared',(F,'    row_index_.clear();\n\n    // We can',"\n    // We can"),nth=0)
bug('C01','old vertices forgotten',(F,'    vertex_count = max(vertex_count, size());\n    row_index_.clear();','    row_index_.clear();'),nth=1)
bug('C01','values not extended',(F,'    if (row_values_base::size() < vertex_count)\n      row_values_base::resize(vertex_count);\n  }','  }'),nth=0)
bug('C01','load_vertices added rows start 0',(F,'row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});\n    }','row_index_.resize(vertex_count + 1, vertex_type{0});\n    }'))
bug('C01','load_vertices id+1',(F,'vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);','vertex_count = max(vertex_count, static_cast<size_type>(vtx.id));'))
bug('C01','load_vertices id+2',(F,'vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);','vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 2);'))
bug('C01','load_vertices last id only',(F,'vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);','vertex_count = static_cast<size_type>(vtx.id) + 1;'))
bug('C01','load_vertices shrinks',(F,'    if (vertex_count > size()) {\n','    if (vertex_count != size() || true) {\n      vertex_count = max(vertex_count - 1, size_type{0});\n'))
bug('C01','values in input order',(F,'(*this)[static_cast<size_t>(id)] = value;','(*this)[static_cast<size_t>(pos_++)] = value;'),(F,'    for (auto&& vtx : vrng) {\n      const auto& [id, value]','    size_t pos_ = 0;\n    for (auto&& vtx : vrng) {\n      const auto& [id, value]'))
bug('C01','lvalue moved',(F,"          static_cast<col_values_base&>(*this).push_back(edge.value); // the caller keeps its values\n","          static_cast<col_values_base&>(*this).emplace_back(move(edge.value));\n"))
bug('C01','stop at first self loop',(F,'      col_index_.push_back(edge_type{edge.target_id});\n','      if (edge.target_id == edge.source_id && edge_count == 77) break;\n      col_index_.push_back(edge_type{edge.target_id});\n'))
ref('C01','rows via loop var',(F,R,'''const auto at = static_cast<edge_index_type>(col_index_.size());
        row_index_.resize(1 + static_cast<size_t>(edge.source_id), vertex_type{at});'''),nth=0)
ref('C01','max as if',(F,'max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));','if (static_cast<vertex_id_type>(edge.target_id) > max_vid) max_vid = static_cast<vertex_id_type>(edge.target_id);'),nth=0)
ref('C01','max as if c',(F,'max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));','if (!(max_vid >= static_cast<vertex_id_type>(edge.target_id))) max_vid = static_cast<vertex_id_type>(edge.target_id);'),nth=1)
ref('C01','iterator loop',(F,'    for (auto&& edge_data : erng) {\n      auto&& edge = eprojection(edge_data); // comp','    for (auto it_ = std::ranges::begin(erng); it_ != std::ranges::end(erng); ++it_) {\n      auto&& edge_data = *it_;\n      auto&& edge = eprojection(edge_data); // comp'))
ref('C01','value before target',(F,'''      col_index_.push_back(edge_type{edge.target_id});
      if constexpr (!is_void_v<EV>)
        static_cast<col_values_base&>(*this).push_back(edge.value);
''','''      if constexpr (!is_void_v<EV>)
        static_cast<col_values_base&>(*this).push_back(edge.value);
      col_index_.push_back(edge_type{edge.target_id});
'''))
ref('C01','max + 1 by parts',(F,'vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));','if (vertex_count < row_index_.size()) vertex_count = row_index_.size();\n    if (vertex_count < static_cast<size_type>(max_vid) + 1) vertex_count = static_cast<size_type>(max_vid) + 1;'),nth=1)
ref('C01','values always resized',(F,'    if (row_values_base::size() < vertex_count)\n      row_values_base::resize(vertex_count);\n  }','    row_values_base::resize(max(row_values_base::size(), vertex_count));\n  }'),nth=1)
ref('C01','track index var',(F,'      if (edge.source_id != last_uid || row_index_.empty()) {','      const bool new_row = row_index_.empty() || last_uid != edge.source_id;\n      if (new_row) {'))
bug('C02','edges lower bound',(F,'auto end_idx   = static_cast<std::size_t>(g.row_index_[vid + 1].index);','auto end_idx   = static_cast<std::size_t>(vid + 1 == g.size() ? g.col_index_.size() : g.row_index_[vid + 1].index) + (vid == 70000);'))
bug('C02','edge_ids end',(F,'auto end_idx   = row_index_[id + 1].index;','auto end_idx   = row_index_[id].index;'))
bug('C02','last vertex has no edges',(F,'if (vid >= g.size()) {\n      // Return','if (vid + 1 >= g.size()) {\n      // Return'))
bug('C02','num_edges of last vertex',(F,'if (vid >= g.size()) {\n      return','if (vid + 1 >= g.size()) {\n      return'))
bug('C02','num_edges by targets',(F,'return static_cast<size_type>(g.row_index_[vid + 1].index - g.row_index_[vid].index);','return static_cast<size_type>(g.row_index_[vid + 1].index - g.row_index_[0].index);'))
bug('C02','size counts end row',(F,'return row_index_.empty() ? 0 : row_index_.size() - 1;','return row_index_.empty() ? 0 : row_index_.size();'))
bug('C02','target via u',(F,'auto edge_idx = uv.value();','auto edge_idx = uv.source().value();'))
bug('C02','num_edges counts rows',(F,'return static_cast<size_type>(g.col_index_.size());','return static_cast<size_type>(g.row_index_.size());'))
bug('C02','edge_value narrow',(F,'g.edge_value(static_cast<edge_id_type>(uv.value()))','g.edge_value(static_cast<std::uint16_t>(uv.value()))'),nth=0)
bug('C02','clear keeps values',(F,'    row_values_base::clear();\n    col_values_base::clear();','    col_values_base::clear();'))
bug('C02','vertex_id narrow',(F,'return static_cast<vertex_id_type>(u.vertex_id());\n  }','return static_cast<std::uint16_t>(u.vertex_id());\n  }'))
ref('C02','size if',(F,'return row_index_.empty() ? 0 : row_index_.size() - 1;','if (row_index_.size() < 2) return 0; return row_index_.size() - 1;'))
ref('C02','size if 0',(F,'return row_index_.empty() ? 0 : row_index_.size() - 1;','return row_index_.size() == 0 ? size_type{0} : row_index_.size() - 1;'))
ref('C02','edges cond',(F,'if (vid >= g.size()) {\n      // Return','const bool out = !(vid < g.size());\n    if (out) {\n      // Return'))
ref('C02','edges cond 1',(F,'if (vid >= g.size()) {\n      // Return','if (vid + 1 >= g.row_index_.size()) {\n      // Return'))
ref('C02','edges begin alt',(F,'''    auto start_idx = static_cast<std::size_t>(g.row_index_[vid].index);
    auto end_idx   = static_cast<std::size_t>(g.row_index_[vid + 1].index);
''','''    const auto first = g.row_index_.begin() + vid;
    auto start_idx = static_cast<std::size_t>(first->index);
    auto end_idx   = static_cast<std::size_t>((first + 1)->index);
'''))
ref('C02','empty as size',(F,'return row_index_.empty() || row_index_.size() <= 1;','return size() == 0;'))
ref('C02','clear order',(F,'''    row_index_.clear();
    col_index_.clear();
    row_values_base::clear();
    col_values_base::clear();''','''    col_values_base::clear();
    row_values_base::clear();
    col_index_.clear();
    row_index_.clear();'''))
bug('C03','terminator rows',(F,'partition_.push_back(static_cast<partition_id_type>(size()));','partition_.push_back(static_cast<partition_id_type>(row_index_.size()));'))
bug('C03','not strict',(F,'if (partition_[i] <= partition_[i - 1]) {','if (partition_[i] < partition_[i - 1]) {'))
bug('C03','skip last pair',(F,'for (size_t i = 1; i < partition_.size(); ++i) {','for (size_t i = 1; i + 1 < partition_.size(); ++i) {'))
bug('C03','first unchecked',(F,'if (partition_[0] != 0) {','if (partition_[0] > 1) {'))
bug('C03','back bound',(F,'partition_.back() > static_cast<partition_id_type>(size())','partition_.back() > static_cast<partition_id_type>(size() + 1)'))
bug('C03','end vid',(F,'g.partition_[static_cast<std::size_t>(pid + 1)]);','g.partition_[static_cast<std::size_t>(pid + 1)]) - (pid + 1 == 3);'))
bug('C03','partition_id includes terminator',(F,'g.partition_.end() - 1, vid);','g.partition_.end(), vid);'))
bug('C03','partition_id lower_bound',(F,'std::upper_bound(','std::lower_bound('))
bug('C03','pid range',(F,'static_cast<std::size_t>(pid) >= num_parts) {','static_cast<std::size_t>(pid) > num_parts) {'))
bug('C03','num_partitions',(F,'return static_cast<partition_id_type>(g.partition_.size() - 1);','return static_cast<partition_id_type>(g.partition_.size());'))
bug('C03','list not loaded',(F,'    load_edges(ilist, identity());\n    terminate_partitions();','    if (ilist.size() > 1) load_edges(ilist, identity());\n    terminate_partitions();'))
bug('C03','terminate before load',(F,'    load(erng, vrng, eprojection, vprojection);\n    terminate_partitions();','    terminate_partitions();\n    load(erng, vrng, eprojection, vprojection);'))
bug('C03','vertices first',(F,'    load_edges(erng, eprojection);\n    load_vertices(vrng, vprojection);\n','    load_vertices(vrng, vprojection);\n    load_edges(erng, eprojection);\n'))
M[-1]['kind']='refactor'; M.pop()
ref('C03','partition check while',(F,'for (size_t i = 1; i < partition_.size(); ++i) {','for (size_t i = 1; i != partition_.size(); ++i) {'))
ref('C03','pid index',(F,'''    --it; // Move back to the last partition where partition_[i] <= vid

    return static_cast<partition_id_type>(std::distance(g.partition_.begin(), it));''','''    return static_cast<partition_id_type>((it - g.partition_.begin()) - 1);'''))
ref('C03','flipped compare',(F,'if (partition_[i] <= partition_[i - 1]) {','if (!(partition_[i - 1] < partition_[i])) {'))
ref('C03','parts hoist',(F,'const auto num_parts = g.partition_.size() - 1;','const auto last_part = g.partition_.size();\n    const auto num_parts = last_part - 1;'))

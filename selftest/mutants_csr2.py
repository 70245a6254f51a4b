M=[]
F='container/compressed_graph.hpp'
def bug(p,n,*e,**k): M.append(dict(prop=p,name='csr2 '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='csr2 '+n,kind='refactor',edits=list(e),**k))
# --- load_edges (const& overload: nth=1 where shared)
RC='''      if (edge.source_id != last_uid || row_index_.empty()) {
        row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});
        last_uid = edge.source_id;
      }
'''
RM='''      if (static_cast<vertex_id_type>(edge.source_id) != last_uid || row_index_.empty()) {
        row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});
        last_uid = static_cast<vertex_id_type>(edge.source_id);
      }
'''
ref('C01','rows pushed one by one',(F,RC,'''      while (row_index_.size() <= static_cast<size_t>(edge.source_id))
        row_index_.push_back(vertex_type{static_cast<edge_index_type>(col_index_.size())});
      last_uid = edge.source_id;
'''))
ref('C01','rows pushed for loop',(F,RC,'''      for (size_t r = row_index_.size(); r < static_cast<size_t>(edge.source_id) + 1; ++r)
        row_index_.push_back(vertex_type{static_cast<edge_index_type>(col_index_.size())});
      last_uid = edge.source_id;
'''))
ref('C01','rows by size test',(F,RC,'''      if (row_index_.size() < static_cast<size_t>(edge.source_id) + 1)
        row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});
      last_uid = edge.source_id;
'''))
ref('C01','rows lambda',(F,RC,'''      auto grow = [&](size_t rows) { row_index_.resize(rows, vertex_type{static_cast<edge_index_type>(col_index_.size())}); };
      if (edge.source_id != last_uid || row_index_.empty()) {
        grow(static_cast<size_t>(edge.source_id) + 1);
        last_uid = edge.source_id;
      }
'''))
ref('C01','rows insert',(F,RC,'''      if (edge.source_id != last_uid || row_index_.empty()) {
        const size_t need = static_cast<size_t>(edge.source_id) + 1;
        row_index_.insert(row_index_.end(), need - row_index_.size(), vertex_type{static_cast<edge_index_type>(col_index_.size())});
        last_uid = edge.source_id;
      }
'''))
ref('C01','rows m pushed one by one',(F,RM,'''      while (row_index_.size() <= static_cast<size_t>(edge.source_id))
        row_index_.push_back(vertex_type{static_cast<edge_index_type>(col_index_.size())});
      last_uid = static_cast<vertex_id_type>(edge.source_id);
'''))
ref('C01','source local',(F,RM,'''      const auto src = static_cast<vertex_id_type>(edge.source_id);
      if (row_index_.empty() || src > last_uid) {
        row_index_.resize(static_cast<size_t>(src) + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
        last_uid = src;
      }
'''))
ref('C01','emplace col',(F,'      col_index_.push_back(edge_type{edge.target_id});','      col_index_.emplace_back(edge_type{edge.target_id});'))
ref('C01','no reserve',(F,'''    col_index_.reserve(edge_count);
    static_cast<col_values_base&>(*this).reserve(edge_count);

''',''),nth=1)
ref('C01','no last id',(F,'''    vertex_count =
          max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
''',''),nth=0)
ref('C01','no last id c',(F,'''    vertex_count =
          max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
''',''),nth=1)
ref('C01','ranges empty',(F,'''    if (begin(erng) == end(erng)) {
      return;
    }
''','''    if (std::ranges::empty(erng)) return;
'''),nth=0)
ref('C01','count in loop',(F,'''      max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));
#ifndef''','''      vertex_count = max(vertex_count, static_cast<size_type>(edge.target_id) + 1);
#ifndef'''),(F,'''    vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));

    // add any rows that haven't been added yet, and (+1) terminating row
    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there aren't enough vertex values for all the vertices then we extend the size to remove
    // possibility of out-of-bounds occuring when getting a value for a row.
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
  }

  /**
   * @brief Load edges and then''','''    vertex_count = max(vertex_count, row_index_.size());

    // add any rows that haven't been added yet, and (+1) terminating row
    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there aren't enough vertex values for all the vertices then we extend the size to remove
    // possibility of out-of-bounds occuring when getting a value for a row.
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
  }

  /**
   * @brief Load edges and then'''))
ref('C01','total separate',(F,'''    vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));
''','''    const size_type by_source = row_index_.size();
    const size_type by_target = static_cast<size_type>(max_vid) + 1;
    vertex_count              = max({vertex_count, by_source, by_target});
'''),nth=0)
ref('C01','std max',(F,'''    vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));
''','''    if (const size_type seen = std::max<size_type>(row_index_.size(), max_vid + 1); seen > vertex_count)
      vertex_count = seen;
'''),nth=0)
ref('C01','terminator separate',(F,'''    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there''','''    row_index_.resize(vertex_count, vertex_type{static_cast<edge_index_type>(col_index_.size())});
    row_index_.push_back(vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there'''),nth=0)
ref('C01','terminator const',(F,'''    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there''','''    const auto stop = static_cast<edge_index_type>(col_index_.size());
    row_index_.resize(1 + vertex_count, vertex_type{stop});

    // If there'''),nth=1)
ref('C01','order test helper',(F,'      if (edge.source_id < last_uid) {      // ordered by uid? (requirement)','      const bool unordered = last_uid > edge.source_id;\n      if (unordered) {'))
ref('C01','values resize always max',(F,'''    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
  }
''','''    const auto nvals = row_values_base::size();
    if (!(nvals >= vertex_count))
      row_values_base::resize(vertex_count);
  }
'''),nth=0)
ref('C01','lv two loops',(F,'''    for (auto&& vtx_data : vrng) {
      auto&& vtx   = vprojection(vtx_data);
      vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);
    }
''','''    for (auto it = std::ranges::begin(vrng); it != std::ranges::end(vrng); ++it) {
      auto&& vtx = vprojection(*it);
      if (vertex_count <= static_cast<size_type>(vtx.id))
        vertex_count = static_cast<size_type>(vtx.id) + 1;
    }
'''))
ref('C01','lv rows after values',(F,'''    if (vertex_count > size()) {
      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
    }
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
''','''    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
    if (size() < vertex_count)
      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
'''))
ref('C01','lv helper',(F,'''    if (vertex_count > size()) {
      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
    }
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
''','''    ensure_rows(vertex_count);
'''),(F,'protected:\n  template <class ERng, class EProj>\n  constexpr vertex_id_type last_erng_id','''protected:
  constexpr void ensure_rows(size_type n) {
    if (n > size())
      row_index_.resize(n + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
    if (row_values_base::size() < n)
      row_values_base::resize(n);
  }
  template <class ERng, class EProj>
  constexpr vertex_id_type last_erng_id'''))
ref('C01','load helper finish',(F,'''    // uid and vid may refer to rows that exceed the value evaluated for vertex_count (if any)
    vertex_count = max(vertex_count, max(row_index_.size(), static_cast<size_type>(max_vid + 1)));

    // add any rows that haven't been added yet, and (+1) terminating row
    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there aren't enough vertex values for all the vertices then we extend the size to remove
    // possibility of out-of-bounds occuring when getting a value for a row.
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
''','''    finish_rows(vertex_count, max_vid);
'''),(F,'protected:\n  template <class ERng, class EProj>\n  constexpr vertex_id_type last_erng_id','''protected:
  constexpr void finish_rows(size_type n, vertex_id_type top) {
    n = max(n, max(row_index_.size(), static_cast<size_type>(top + 1)));
    row_index_.resize(n + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
    if (row_values_base::size() < n)
      row_values_base::resize(n);
  }
  template <class ERng, class EProj>
  constexpr vertex_id_type last_erng_id'''))
# bugs
bug('C01','rows insert gap prev',(F,RC,'''      if (edge.source_id != last_uid || row_index_.empty()) {
        row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});
        if (edge.source_id > last_uid + 2) row_index_[edge.source_id - 1] = row_index_[last_uid];
        last_uid = edge.source_id;
      }
'''))
bug('C01','rows size test off',(F,RC,'''      if (row_index_.size() < static_cast<size_t>(edge.source_id))
        row_index_.resize(static_cast<size_t>(edge.source_id) + 1,
                          vertex_type{static_cast<edge_index_type>(col_index_.size())});
      last_uid = edge.source_id;
'''))
bug('C01','terminator only if short',(F,'''    row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there''','''    if (row_index_.size() < vertex_count)
      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});

    // If there'''),nth=0)
bug('C01','value default zero skipped',(F,'        static_cast<col_values_base&>(*this).push_back(edge.value);\n      max_vid','        if (edge.value != EV() || edge.source_id != edge.target_id) static_cast<col_values_base&>(*this).push_back(edge.value);\n      max_vid'))
bug('C01','narrow index',(F,'vertex_type{static_cast<edge_index_type>(col_index_.size())});\n        last_uid = edge.source_id;','vertex_type{static_cast<edge_index_type>(static_cast<std::uint16_t>(col_index_.size()))});\n        last_uid = edge.source_id;'))
bug('C01','max_vid narrow',(F,'max_vid = max(max_vid, static_cast<vertex_id_type>(edge.target_id));\n#ifndef','max_vid = max(max_vid, static_cast<vertex_id_type>(static_cast<std::uint16_t>(edge.target_id)));\n#ifndef'))
bug('C01','lv expand loses terminator',(F,'''    if (vertex_count > size()) {
      row_index_''','''    if (vertex_count > row_index_.size()) {
      row_index_'''))
bug('C01','lv values not resized',(F,'''    }
    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);

    row_values_base::load''','''    if (row_values_base::size() < vertex_count)
      row_values_base::resize(vertex_count);
    }

    row_values_base::load'''))
# --- queries
ref('C02','size helper',(F,'return row_index_.empty() ? 0 : row_index_.size() - 1; // -1 for terminating row','const size_type rows = row_index_.size();\n    return rows - static_cast<size_type>(rows > 0);'))
ref('C02','size min',(F,'return row_index_.empty() ? 0 : row_index_.size() - 1; // -1 for terminating row','return std::max<size_type>(row_index_.size(), 1) - 1;'))
ref('C02','empty rows',(F,'return row_index_.empty() || row_index_.size() <= 1; // Account for terminating row','return !(row_index_.size() > 1);'))
ref('C02','empty rows 2',(F,'return row_index_.empty() || row_index_.size() <= 1; // Account for terminating row','return row_index_.size() < 2;'))
ref('C02','edge_ids row refs',(F,'''    auto start_idx = row_index_[id].index;
    auto end_idx   = row_index_[id + 1].index;
    return std::views::iota(start_idx, end_idx);''','''    const auto& row  = row_index_[id];
    const auto& next = row_index_[id + 1];
    return std::views::iota(row.index, next.index);'''))
ref('C02','edge_ids nest',(F,'''    if (id >= size())
      return std::views::iota(edge_index_type{0}, edge_index_type{0});

    auto start_idx = row_index_[id].index;
    auto end_idx   = row_index_[id + 1].index;
    return std::views::iota(start_idx, end_idx);''','''    edge_index_type start_idx{0}, end_idx{0};
    if (id < size()) {
      start_idx = row_index_[id].index;
      end_idx   = row_index_[id + 1].index;
    }
    return std::views::iota(start_idx, end_idx);'''))
bug('C02','edge_ids strict',(F,'''    if (id >= size())
      return std::views::iota(edge_index_type{0}, edge_index_type{0});''','''    if (id >= size() || row_index_[id].index >= row_index_[id + 1].index || id == max_edge_)
      return std::views::iota(edge_index_type{0}, edge_index_type{0});''') if False else (F,'''    if (id >= size())
      return std::views::iota(edge_index_type{0}, edge_index_type{0});''','''    if (id + 1 >= size())
      return std::views::iota(edge_index_type{0}, edge_index_type{0});'''))
bug("C02","edge_ids all",(F,"return std::views::iota(edge_index_type{0}, static_cast<edge_index_type>(col_index_.size()));","return std::views::iota(edge_index_type{0}, static_cast<edge_index_type>(static_cast<std::uint16_t>(col_index_.size())));"))
bug('C03','clear keeps partitions',(F,'    partition_.clear();\n    terminate_partitions();\n  }','    terminate_partitions();\n  }'))
# --- partitions / ctors
TP='''      for (size_t i = 1; i < partition_.size(); ++i) {
        if (partition_[i] <= partition_[i - 1]) {'''
ref('C03','order loop ids',(F,TP,'''      for (size_t i = 1; i != partition_.size(); ++i) {
        if (!(partition_[i - 1] < partition_[i])) {'''))
ref('C03','order loop back',(F,'partition_.back() > static_cast<partition_id_type>(size())','static_cast<partition_id_type>(size()) < partition_[partition_.size() - 1]'))
ref('C03','order no empty test',(F,'if (!partition_.empty() && partition_.back() >','if (partition_.back() >'))
ref('C03','terminate early out',(F,'''    if (partition_.empty()) {
      partition_.push_back(0);
    } else {''','''    if (partition_.size() == 0) {
      partition_.emplace_back(0);
    } else {'''))
ref('C03','front',(F,'      if (partition_[0] != 0) {','      if (const auto first = partition_.front(); first != 0) {'))
bug('C03','order loop from 2',(F,'for (size_t i = 1; i < partition_.size(); ++i) {','for (size_t i = 2; i < partition_.size(); ++i) {'))
bug('C03','order equal ok',(F,'if (partition_[i] <= partition_[i - 1]) {','if (partition_[i] < partition_[i - 1]) {'))
bug('C03','range check ge',(F,'partition_.back() > static_cast<partition_id_type>(size())','partition_.back() > static_cast<partition_id_type>(size() + 1)'))
bug('C03','front unchecked',(F,'      if (partition_[0] != 0) {','      if (partition_[0] != 0 && partition_.size() > 1) {'))

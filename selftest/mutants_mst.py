"""Disjoint sets, Kruskal and Prim: bugs that must be reported, refactorings that must not."""
M = []
def bug(prop, name, *edits, **k): M.append(dict(prop=prop, name=name, kind='bug', edits=edits, **k))
def ref(prop, name, *edits, **k): M.append(dict(prop=prop, name=name, kind='refactor', edits=edits, **k))
F = 'algorithm/mst.hpp'
UP = """  VId parent = subsets[vtx].id;
  while (parent != subsets[parent].id) {
    parent = subsets[parent].id; // Keep climbing until we reach root (parent == self)
  }
"""
COMP = """  while (vtx != parent) {
    VId next        = subsets[vtx].id; // Save next node before overwriting
    subsets[vtx].id = parent;          // Point current node directly to root
    vtx             = next;            // Move to next node in original path
  }
"""
RET = "  return parent; // Return the root representative of this set\n"
ROOTS = """  VId u_root = disjoint_find(subsets, u);
  VId v_root = disjoint_find(subsets, v);
"""
LINK = """  if (subsets[u_root].count < subsets[v_root].count)
    subsets[u_root].id = v_root; // Attach u's tree to v's root

  else if (subsets[u_root].count > subsets[v_root].count)
    subsets[v_root].id = u_root; // Attach v's tree to u's root

  else {
    // Equal rank: attach v to u and increment u's rank
    subsets[v_root].id = u_root;
    subsets[u_root].count++;
  }
"""
LINK2 = """    if (subsets[u_root].count < subsets[v_root].count)
      subsets[u_root].id = v_root; // Attach u's tree to v's root

    else if (subsets[u_root].count > subsets[v_root].count)
      subsets[v_root].id = u_root; // Attach v's tree to u's root

    else {
      // Equal rank: attach v to u and increment u's rank
      subsets[v_root].id = u_root;
      subsets[u_root].count++;
    }

    return true; // Edge added to MST (connects different components)
  }

  return false; // Edge rejected (would create cycle)
"""

ref("A10", 'ds find root local', (F, UP, "  VId parent = vtx;\n  while (subsets[parent].id != parent)\n    parent = subsets[parent].id;\n"))
ref("A10", 'ds find for loop', (F, UP, "  VId parent = vtx;\n  for (; subsets[parent].id != parent; parent = subsets[parent].id) {\n  }\n"))
ref("A10", 'ds find next local', (F, UP, "  VId parent = vtx;\n  while (true) {\n    VId up = subsets[parent].id;\n    if (up == parent) break;\n    parent = up;\n  }\n"))
ref("A10", 'ds find no compression', (F, COMP, ""))
ref("A10", 'ds compress until parent is root', (F, COMP, "  while (subsets[vtx].id != parent) {\n    VId next = subsets[vtx].id;\n    subsets[vtx].id = parent;\n    vtx = next;\n  }\n"))
ref("A10", 'ds compress exchange', (F, COMP, "  while (vtx != parent) {\n    vtx = std::exchange(subsets[vtx].id, parent);\n  }\n"))
ref("A10", 'ds compress reference', (F, COMP, "  while (vtx != parent) {\n    auto& el = subsets[vtx];\n    vtx = el.id;\n    el.id = parent;\n  }\n"))
ref("A10", 'ds find halving', (F, UP + "\n  // Phase 2: Path compression - make all nodes on path point directly to root\n" + COMP + "\n" + RET, "  while (subsets[vtx].id != vtx) {\n    subsets[vtx].id = subsets[subsets[vtx].id].id;\n    vtx = subsets[vtx].id;\n  }\n  return vtx;\n"))
ref("A10", 'ds find splitting', (F, UP + "\n  // Phase 2: Path compression - make all nodes on path point directly to root\n" + COMP + "\n" + RET, "  while (subsets[vtx].id != vtx) {\n    VId next = subsets[vtx].id;\n    subsets[vtx].id = subsets[next].id;\n    vtx = next;\n  }\n  return vtx;\n"))
ref("A10", 'ds find recursive', (F, UP + "\n  // Phase 2: Path compression - make all nodes on path point directly to root\n" + COMP + "\n" + RET, "  if (subsets[vtx].id != vtx)\n    subsets[vtx].id = disjoint_find(subsets, subsets[vtx].id);\n  return subsets[vtx].id;\n"))
ref("A10", 'ds find helper', (F, "template <class VId>\nVId disjoint_find(", "template <class VId>\nVId disjoint_root(const disjoint_vector<VId>& subsets, VId vtx) {\n  while (subsets[vtx].id != vtx)\n    vtx = subsets[vtx].id;\n  return vtx;\n}\ntemplate <class VId>\nVId disjoint_find("), (F, UP, "  const VId parent = disjoint_root(subsets, vtx);\n"))
ref('A10', 'ds union swap', (F, LINK, "  if (subsets[u_root].count < subsets[v_root].count)\n    std::swap(u_root, v_root);\n  if (subsets[u_root].count == subsets[v_root].count)\n    ++subsets[u_root].count;\n  subsets[v_root].id = u_root;\n"))
ref("A10", 'ds union_find early return', (F, "  if (u_root != v_root) {\n    // Union by rank: attach smaller tree under larger tree\n" + LINK2, "  if (u_root == v_root) return false;\n  if (subsets[v_root].count > subsets[u_root].count) {\n    subsets[u_root].id = v_root;\n  } else {\n    if (subsets[u_root].count == subsets[v_root].count) subsets[u_root].count += 1;\n    subsets[v_root].id = u_root;\n  }\n  return true;\n"))
ref("A10", 'ds union_find references', (F, LINK2, "    auto& a = subsets[u_root];\n    auto& b = subsets[v_root];\n    if (a.count < b.count) a.id = v_root;\n    else { b.id = u_root; if (a.count == b.count) a.count++; }\n    return true;\n  }\n  return false;\n"))
ref("A10", 'ds union_find by union', (F, "  if (u_root != v_root) {\n    // Union by rank: attach smaller tree under larger tree\n" + LINK2, "  if (u_root == v_root) return false;\n  disjoint_union(subsets, u, v);\n  return true;\n"))
ref("A10", 'ds union_find by union of roots', (F, "  if (u_root != v_root) {\n    // Union by rank: attach smaller tree under larger tree\n" + LINK2, "  const bool joined = u_root != v_root;\n  if (joined) disjoint_union(subsets, u_root, v_root);\n  return joined;\n"))
ref("A10", 'ds link helper', (F, "template <class VId>\nvoid disjoint_union(", "template <class VId>\nvoid disjoint_link(disjoint_vector<VId>& subsets, VId a, VId b) {\n  auto ra = subsets[a].count, rb = subsets[b].count;\n  if (ra < rb) { subsets[a].id = b; return; }\n  subsets[b].id = a;\n  if (ra == rb) subsets[a].count = ra + 1;\n}\ntemplate <class VId>\nvoid disjoint_union("), (F, LINK, "  disjoint_link(subsets, u_root, v_root);\n"), (F, LINK2, "    disjoint_link(subsets, u_root, v_root);\n    return true;\n  }\n  return false;\n"))
ref('A10', 'ds find roots swapped order', (F, ROOTS, "  VId v_root = disjoint_find(subsets, v);\n  VId u_root = disjoint_find(subsets, u);\n"))
# bugs
bug('A10', 'ds find one level', (F, UP, "  VId parent = subsets[vtx].id;\n  if (parent != subsets[parent].id) {\n    parent = subsets[parent].id;\n  }\n"))
bug('A10', 'ds find returns parent of start', (F, "  // Phase 1: Find the root by following parent pointers\n  VId parent", "  const VId first = subsets[vtx].id;\n  VId parent"), (F, RET, "  return first;\n"))
ref('A10', 'ds compress to next', (F, "    subsets[vtx].id = parent;          // Point", "    subsets[vtx].id = next;          // Point"))
bug('A10', 'ds compress self', (F, "    subsets[vtx].id = parent;          // Point", "    subsets[vtx].id = vtx;          // Point"))
bug('A10', 'ds compress root to vtx', (F, "    subsets[vtx].id = parent;          // Point", "    subsets[parent].id = vtx;          // Point"))
bug('A10', 'ds find climb two skips test', (F, "    parent = subsets[parent].id; // Keep", "    parent = subsets[subsets[parent].id].count; // Keep"))
bug('A10', 'ds union no find v', (F, "  VId v_root = disjoint_find(subsets, v);\n", "  VId v_root = subsets[v].id;\n"), nth=0)
bug('A08,A10', 'ds union_find no find v', (F, "  VId v_root = disjoint_find(subsets, v);\n", "  VId v_root = subsets[v].id;\n"), nth=1)
bug('A10', 'ds union links u', (F, "    subsets[u_root].id = v_root; // Attach u's tree to v's root\n\n  else if", "    subsets[u].id = v_root; // Attach u's tree to v's root\n\n  else if"))
bug('A10', 'ds union links to v', (F, "    subsets[v_root].id = u_root;\n    subsets[u_root].count++;\n  }\n}", "    subsets[v_root].id = u;\n    subsets[u_root].count++;\n  }\n}"))
bug('A08,A10', 'ds union_find links to u vertex', (F, "      subsets[v_root].id = u_root;\n      subsets[u_root].count++;", "      subsets[v].id = u_root;\n      subsets[u_root].count++;"))
bug('A10', 'ds union rank on child', (F, "    subsets[v_root].id = u_root;\n    subsets[u_root].count++;\n  }\n}", "    subsets[v_root].id = u_root;\n    subsets[v_root].count++;\n  }\n}"))
bug('A10', 'ds union rank inverted', (F, "  if (subsets[u_root].count < subsets[v_root].count)\n    subsets[u_root].id = v_root; // Attach u's tree to v's root\n\n  else if (subsets[u_root].count > subsets[v_root].count)\n    subsets[v_root].id = u_root;", "  if (subsets[u_root].count > subsets[v_root].count)\n    subsets[u_root].id = v_root; // Attach u's tree to v's root\n\n  else if (subsets[u_root].count < subsets[v_root].count)\n    subsets[v_root].id = u_root;"))
bug('A08,A10', 'ds union_find compares vertices', (F, "  if (u_root != v_root) {", "  if (u != v) {"))
bug('A08,A10', 'ds union_find tie not merged', (F, "      subsets[v_root].id = u_root;\n      subsets[u_root].count++;", "      subsets[u_root].count++;"))
bug('A10', 'ds union_find true on rank only', (F, "    return true; // Edge added", "    return subsets[u_root].count > 1; // Edge added"))

# ---- Kruskal
XF = """  std::ranges::transform(e, back_inserter(e_copy),
                         [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
"""
MX = """  VId N = 0;
  for (auto&& [uid, vid, val] : %s) {
    if (uid > N) {
      N = uid; // Check source vertex
    }
    if (vid > N) {
      N = vid; // Check target vertex
    }
  }
"""
M1, M2 = MX % 'e_copy', MX % 'e'
S1 = """  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
  std::ranges::sort(e_copy, outer_compare);
"""
S2 = """  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
"""
INIT = """  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
  for (VId uid = 0; uid <= N; ++uid) {
    subsets[uid].id    = uid; // Each vertex is its own parent (root)
    subsets[uid].count = 0;   // Initial rank is 0
  }
"""
ACC = """    if (disjoint_union_find(subsets, uid, vid)) {
      // Edge connects different components - add to MST
      t.push_back(range_value_t<OELR>());
      t.back().source_id = uid;
      t.back().target_id = vid;
      t.back().value     = val;

      total_weight += val; // Accumulate MST weight
      --num_components;    // Merge reduces component count
    }
"""
K = 'A08'
ref(K, 'kr copy loop', (F, XF, "  for (auto&& ed : e) {\n    e_copy.emplace_back(ed.source_id, ed.target_id, ed.value);\n  }\n"))
ref(K, 'kr copy loop reserve', (F, XF, "  e_copy.reserve(size_t(std::ranges::distance(e)));\n  for (const auto& ed : e) {\n    e_copy.push_back({ed.source_id, ed.target_id, ed.value});\n  }\n"))
ref(K, 'kr copy field order', (F, "std::vector<tuple<VId, VId, EV>> e_copy;", "std::vector<tuple<EV, VId, VId>> e_copy;"), (F, "std::make_tuple(ed.source_id, ed.target_id, ed.value)", "std::make_tuple(ed.value, ed.source_id, ed.target_id)"), (F, M1, M1.replace('uid, vid, val', 'val, uid, vid')), (F, "compare(get<2>(i), get<2>(j))", "compare(get<0>(i), get<0>(j))"), (F, "for (auto&& [uid, vid, val] : e_copy) {\n    // Try", "for (auto&& [val, uid, vid] : e_copy) {\n    // Try"))
for i, (m, r, x) in enumerate(((M1, 'e_copy', 'get<0>(%s), get<1>(%s)'), (M2, 'e', '%s.source_id, %s.target_id'))):
    ref(K, 'kr max std::max %d' % i, (F, m, "  VId N = 0;\n  for (auto&& [uid, vid, val] : %s) {\n    N = std::max(N, std::max(uid, vid));\n  }\n" % r))
    ref(K, 'kr max two steps %d' % i, (F, m, "  VId N = 0;\n  for (auto&& [uid, vid, val] : %s) {\n    N = std::max(N, uid);\n    N = std::max(N, vid);\n  }\n" % r))
    ref(K, 'kr max ternary %d' % i, (F, m, "  VId N = 0;\n  for (auto&& [uid, vid, val] : %s) {\n    const VId m = uid < vid ? vid : uid;\n    N = N < m ? m : N;\n  }\n" % r))
    ref(K, 'kr max init list %d' % i, (F, m, "  VId N = 0;\n  for (auto&& [uid, vid, val] : %s) {\n    N = std::max({N, uid, vid});\n  }\n" % r))
    ref(K, 'kr max iterator loop %d' % i, (F, m, "  VId N = 0;\n  for (auto it = std::ranges::begin(%s); it != std::ranges::end(%s); ++it) {\n    auto&& [uid, vid, val] = *it;\n    if (uid > N) N = uid;\n    if (vid > N) N = vid;\n  }\n" % (r, r)))
ref(K, 'kr max during copy', (F, XF, "  VId N = 0;\n  for (auto&& ed : e) {\n    e_copy.emplace_back(ed.source_id, ed.target_id, ed.value);\n    N = std::max(N, std::max(ed.source_id, ed.target_id));\n  }\n"), (F, M1, ""))
ref(K, 'kr max after sort', (F, M1, ""), (F, S1, S1 + M1))
ref(K, 'kr std::sort', (F, "std::ranges::sort(e_copy, outer_compare);", "std::sort(e_copy.begin(), e_copy.end(), outer_compare);"))
ref(K, 'kr stable_sort', (F, "std::ranges::sort(e_copy, outer_compare);", "std::ranges::stable_sort(e_copy, outer_compare);"))
ref(K, 'kr inline comparator', (F, S1, "  std::ranges::sort(e_copy, [&compare](const auto& a, const auto& b) { return compare(std::get<2>(a), std::get<2>(b)); });\n"))
ref(K, 'kr projection', (F, S1, "  std::ranges::sort(e_copy, compare, [](const auto& x) { return std::get<2>(x); });\n"))
ref(K, 'kr inplace projection', (F, S2, "  std::ranges::sort(e, compare, [](const auto& x) { return x.value; });\n"))
ref(K, 'kr comparator structured', (F, "compare(get<2>(i), get<2>(j))", "const auto& a = get<2>(i); const auto& b = get<2>(j); return compare(a, b)") if 0 else (F, "return compare(get<2>(i), get<2>(j));", "const auto& a = get<2>(i);\n    const auto& b = get<2>(j);\n    return compare(a, b);"))
for n in (0, 1):
    ref(K, 'kr init size_t loop %d' % n, (F, INIT, "  disjoint_vector<VId> subsets(N + 1);\n  for (size_t i = 0; i < subsets.size(); ++i) {\n    subsets[i].id = static_cast<VId>(i);\n  }\n"), nth=n)
    ref(K, 'kr init range loop %d' % n, (F, INIT, "  disjoint_vector<VId> subsets(N + 1);\n  VId k = 0;\n  for (auto& s : subsets) {\n    s.id = k++;\n  }\n"), nth=n)
    ref(K, 'kr init resize %d' % n, (F, INIT, "  disjoint_vector<VId> subsets;\n  subsets.resize(static_cast<size_t>(N) + 1);\n  for (VId i = 0; i < N + 1; ++i) {\n    subsets[i].id = i;\n  }\n"), nth=n)
    ref(K, 'kr init aggregate %d' % n, (F, INIT, "  disjoint_vector<VId> subsets(N + 1);\n  for (VId i = 0; i <= N; ++i) {\n    subsets[i] = disjoint_element<VId>{i, 0};\n  }\n"), nth=n)
    ref(K, 'kr init push %d' % n, (F, INIT, "  disjoint_vector<VId> subsets;\n  subsets.reserve(N + 1);\n  for (VId i = 0; i <= N; ++i) {\n    subsets.push_back({i, 0});\n  }\n"), nth=n)
    ref(K, 'kr output by value %d' % n, (F, ACC, ACC.replace("""      t.push_back(range_value_t<OELR>());
      t.back().source_id = uid;
      t.back().target_id = vid;
      t.back().value     = val;
""", """      range_value_t<OELR> out{};
      out.source_id = uid;
      out.target_id = vid;
      out.value     = val;
      t.push_back(out);
""")), nth=n)
    ref(K, 'kr output reference %d' % n, (F, ACC, ACC.replace("""      t.back().source_id = uid;
      t.back().target_id = vid;
      t.back().value     = val;
""", """      auto& out = t.back();
      out.value = val;
      out.target_id = vid;
      out.source_id = uid;
""")), nth=n)
    ref(K, 'kr output emplace %d' % n, (F, ACC, ACC.replace("""      t.push_back(range_value_t<OELR>());
      t.back().source_id = uid;
      t.back().target_id = vid;
      t.back().value     = val;
""", """      auto& out     = t.emplace_back();
      out.source_id = uid;
      out.target_id = vid;
      out.value     = val;
""")), nth=n)
    ref(K, 'kr continue form %d' % n, (F, ACC, """    if (!disjoint_union_find(subsets, uid, vid)) continue;
    total_weight = total_weight + val;
    num_components -= 1;
    t.push_back(range_value_t<OELR>());
    t.back().source_id = uid;
    t.back().target_id = vid;
    t.back().value     = val;
"""), nth=n)
    ref(K, 'kr find then union %d' % n, (F, "    if (disjoint_union_find(subsets, uid, vid)) {", "    if (disjoint_find(subsets, uid) != disjoint_find(subsets, vid)) {\n      disjoint_union(subsets, uid, vid);"), nth=n)
    ref(K, 'kr count merges %d' % n, (F, "  size_t num_components = N + 1; //", "  size_t merges = 0; //"), (F, "      --num_components;    //", "      ++merges;    //"), (F, "return std::pair<EV, size_t>{total_weight, num_components};", "return std::pair<EV, size_t>{total_weight, static_cast<size_t>(N) + 1 - merges};"), nth=n)
    ref(K, 'kr stop when one tree %d' % n, (F, "      --num_components;    // Merge reduces component count\n", "      --num_components;    // Merge reduces component count\n      if (num_components == 1) break;\n"), nth=n)
    ref(K, 'kr stop when one tree top %d' % n, (F, "    // Try to add edge: succeeds", "    if (num_components == 1) break;\n    // Try to add edge: succeeds"), nth=n)
    ref(K, 'kr no reserve %d' % n, (F, "  t.reserve(N); // Pre-allocate space for efficiency\n", ""), nth=n)
ref(K, 'kr main loop iterator', (F, "  for (auto&& [uid, vid, val] : e_copy) {\n    // Try", "  for (auto it = e_copy.cbegin(); it != e_copy.cend(); ++it) {\n    const auto& [uid, vid, val] = *it;\n    // Try"))
ref(K, 'kr main loop index', (F, "  for (auto&& [uid, vid, val] : e_copy) {\n    // Try", "  for (size_t i = 0; i < e_copy.size(); ++i) {\n    const auto& [uid, vid, val] = e_copy[i];\n    // Try"))
ref(K, 'kr inplace named fields', (F, "  for (auto&& [uid, vid, val] : e) {\n    // Try", "  for (auto&& ed : e) {\n    const VId uid = ed.source_id;\n    const VId vid = ed.target_id;\n    const EV  val = ed.value;\n    // Try"))
ref(K, 'kr empty test begin==end', (F, "  if (std::ranges::empty(e)) {", "  if (std::ranges::begin(e) == std::ranges::end(e)) {"), all=True)
ref(K, 'kr copy then inplace', (F, XF[:0] or "  // Handle empty input\n  if (std::ranges::empty(e)) {\n    t.clear();\n    return std::pair<EV, size_t>{EV{}, 0};\n  }\n\n  // Copy edges", "  if (std::ranges::empty(e)) {\n    t.clear();\n    return std::make_pair(EV{}, size_t{0});\n  }\n\n  // Copy edges"))
ACC_H = """template <class VId, class EV, class T, class Sub>
void select_edge(T& t, Sub& subsets, VId uid, VId vid, const EV& val, EV& total_weight, size_t& num_components) {
  if (disjoint_union_find(subsets, uid, vid)) {
    t.push_back(std::ranges::range_value_t<T>());
    t.back().source_id = uid;
    t.back().target_id = vid;
    t.back().value     = val;
    total_weight += val;
    --num_components;
  }
}

template <class ELVT> // For exposition only
concept _has_edgelist_value ="""
ref(K, 'kr helper select', (F, "template <class ELVT> // For exposition only\nconcept _has_edgelist_value =", ACC_H), (F, ACC, "    select_edge<VId, EV>(t, subsets, uid, vid, val, total_weight, num_components);\n"), all=True)
bug(K, 'kr max misses target', (F, M1, M1.replace("    if (vid > N) {\n      N = vid; // Check target vertex\n    }\n", "")))
bug(K, 'kr inplace max misses source', (F, M2, M2.replace("    if (uid > N) {\n      N = uid; // Check source vertex\n    }\n", "")))
bug(K, 'kr max else if', (F, M1, M1.replace("    }\n    if (vid > N)", "    } else if (vid > N)")))
bug(K, 'kr sort by source', (F, "compare(get<2>(i), get<2>(j))", "compare(get<0>(i), get<0>(j))"))
bug(K, 'kr sort reversed', (F, "compare(get<2>(i), get<2>(j))", "compare(get<2>(j), get<2>(i))"))
bug(K, 'kr inplace not sorted', (F, "  std::ranges::sort(e, outer_compare); //", "  (void)outer_compare; //"))
bug(K, 'kr partial sort', (F, "  std::ranges::sort(e_copy, outer_compare);", "  std::ranges::partial_sort(e_copy, e_copy.begin() + std::ptrdiff_t((e_copy.size() + 1) / 2 + (e_copy.size() < 64 ? e_copy.size() / 2 : 0)), outer_compare);"))
bug(K, 'kr sort skips last', (F, "  std::ranges::sort(e_copy, outer_compare);", "  std::ranges::sort(e_copy.begin(), e_copy.size() > 64 ? e_copy.end() - 1 : e_copy.end(), outer_compare);"))
bug(K, 'kr default compare ignored', (F, "  return kruskal(e, t, [](auto&& i, auto&& j) { return i < j; });", "  return kruskal(e, t, [](auto&& i, auto&& j) { return i > j; });"))
bug(K, 'kr default inplace compare le', (F, "  return inplace_kruskal(e, t, [](auto&& i, auto&& j) { return i < j; });", "  return inplace_kruskal(e, t, [](auto&& i, auto&& j) { return i <= j; });"))
for n in (0, 1):
    bug(K, 'kr output swapped ends %d' % n, (F, "      t.back().source_id = uid;\n      t.back().target_id = vid;", "      t.back().source_id = vid;\n      t.back().target_id = uid;"), nth=n)
    bug(K, 'kr total always %d' % n, (F, ACC, ACC.replace("      total_weight += val; // Accumulate MST weight\n", "").replace("    if (disj", "    total_weight += val;\n    if (disj")), nth=n)
    bug(K, 'kr stop one early %d' % n, (F, "      --num_components;    // Merge reduces component count\n", "      --num_components;    // Merge reduces component count\n      if (num_components == 2) break;\n"), nth=n)
    bug(K, 'kr stop at N-1 selected %d' % n, (F, "      --num_components;    // Merge reduces component count\n", "      --num_components;    // Merge reduces component count\n      if (t.size() + 1 >= N) break;\n"), nth=n)
    bug(K, 'kr components N %d' % n, (F, "  size_t num_components = N + 1; //", "  size_t num_components = N; //"), nth=n)
    bug(K, 'kr init from one %d' % n, (F, "  for (VId uid = 0; uid <= N; ++uid) {", "  for (VId uid = 0; uid < N; ++uid) {"), nth=n)
    bug(K, 'kr skips self-value zero %d' % n, (F, "    if (disjoint_union_find(subsets, uid, vid)) {", "    if (val != EV{} && disjoint_union_find(subsets, uid, vid)) {"), nth=n)
    bug(K, 'kr value default %d' % n, (F, "      t.back().value     = val;\n", ""), nth=n)

    bug(K, 'kr empty one component %d' % n, (F, "return std::pair<EV, size_t>{EV{}, 0};", "return std::pair<EV, size_t>{EV{}, 1};"), nth=n)
bug(K, 'kr copy swaps ends', (F, "std::make_tuple(ed.source_id, ed.target_id, ed.value)", "std::make_tuple(ed.target_id, ed.source_id, ed.value)"))
bug(K, 'kr copy skips first', (F, "  std::ranges::transform(e, back_inserter(e_copy),", "  std::ranges::transform(std::ranges::next(std::ranges::begin(e)), std::ranges::end(e), back_inserter(e_copy),"))

# ---- Prim
P = 'A09'
POP = """    auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
    Q.pop();
    if (in_tree[uid]) {
      continue; // Superseded entry: uid was already added over a better edge
    }
    in_tree[uid] = true;
"""
SCAN = """    for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
      // Relaxation: if edge weight is better than current distance to neighbor
      if (!in_tree[vid] && compare(w, distance[vid])) {
        distance[vid] = w;            // Update minimum edge weight to reach vid
        Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
        predecessor[vid] = uid;       // Record edge uid→vid in MST
        weight[vid]      = w;         // Record edge weight
      }
    }
"""
UPD = """        distance[vid] = w;            // Update minimum edge weight to reach vid
        Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
        predecessor[vid] = uid;       // Record edge uid→vid in MST
        weight[vid]      = w;         // Record edge weight
"""
TOT = """  for (size_t v = 0; v < N; ++v) {
    if (v != static_cast<size_t>(seed) && in_tree[v]) {
      // Only count vertices in MST
      total_weight += weight[v];
    }
  }
"""
IT = "  std::vector<bool> in_tree(N, false);\n"
LOOP = "    for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {\n"
ref(P, 'pr structured top', (F, POP, "    const auto [uid, best] = Q.top();\n    Q.pop();\n    if (in_tree[uid]) continue;\n    in_tree[uid] = true;\n"))
ref(P, 'pr top reference copy', (F, POP, "    const weighted_vertex entry = Q.top();\n    const auto uid = std::get<0>(entry);\n    Q.pop();\n    if (in_tree[uid]) continue;\n    in_tree[uid] = true;\n"))
ref(P, 'pr pop after mark', (F, POP, "    auto uid = get<0>(Q.top());\n    const bool seen = in_tree[uid];\n    in_tree[uid] = true;\n    Q.pop();\n    if (seen) continue;\n"))
ref(P, 'pr mark nested', (F, POP + "\n    // Examine all edges incident to current vertex\n" + SCAN, "    auto uid = get<0>(Q.top());\n    Q.pop();\n    if (!in_tree[uid]) {\n      in_tree[uid] = true;\n" + SCAN + "    }\n"))
ref(P, 'pr char marks', (F, IT, "  std::vector<unsigned char> in_tree(N, 0);\n"), (F, "    in_tree[uid] = true;", "    in_tree[uid] = 1;"))
ref(P, 'pr marks resized', (F, IT, "  std::vector<bool> in_tree;\n  in_tree.resize(N, false);\n"))
ref(P, 'pr marks default', (F, IT, "  std::vector<bool> in_tree(N);\n"))
ref(P, 'pr for loop', (F, "  while (!Q.empty()) {\n    auto uid", "  for (; !Q.empty();) {\n    auto uid"))
ref(P, 'pr size loop', (F, "  while (!Q.empty()) {\n    auto uid", "  while (Q.size() > 0) {\n    auto uid"))
ref(P, 'pr incidence full', (F, LOOP, "    for (auto&& [vid, uv, w] : views::incidence(g, *find_vertex(g, uid), weight_fn)) {\n"))
ref(P, 'pr edges loop', (F, LOOP, "    for (auto&& uv : edges(g, *find_vertex(g, uid))) {\n      const auto vid = target_id(g, uv);\n      const EV w = weight_fn(g, uv);\n"))
ref(P, 'pr update order', (F, UPD, "        predecessor[vid] = uid;\n        weight[vid] = w;\n        distance[vid] = w;\n        Q.push({vid, w});\n"))
ref(P, 'pr emplace', (F, UPD, UPD.replace("Q.push({vid, distance[vid]});", "Q.emplace(vid, w);")))
ref(P, 'pr guard clauses', (F, SCAN, """    for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
      if (in_tree[vid]) continue;
      if (!compare(w, distance[vid])) continue;
""" + UPD + "    }\n"))
ref(P, 'pr test order', (F, "      if (!in_tree[vid] && compare(w, distance[vid])) {", "      if (compare(w, distance[vid]) && !in_tree[vid]) {"))
ref(P, 'pr better lambda', (F, "  // Main loop: grow MST", "  auto improves = [&](const auto& v, const EV& w) { return !in_tree[v] && compare(w, distance[v]); };\n  // Main loop: grow MST"), (F, "      if (!in_tree[vid] && compare(w, distance[vid])) {", "      if (improves(vid, w)) {"))
ref(P, 'pr improve lambda', (F, "  // Main loop: grow MST", "  auto attach = [&](const auto& vid, const auto& uid, const EV& w) {\n" + UPD + "  };\n  // Main loop: grow MST"), (F, "distance[vid])) {\n" + UPD, "distance[vid])) {\n        attach(vid, uid, w);\n"))
ref(P, 'pr distance reference', (F, UPD, UPD.replace("distance[vid] = w;  ", "auto& dv = distance[vid];\n        dv = w;  ")))
ref(P, 'pr pair entries', (F, "using weighted_vertex = tuple<vertex_id_t<G>, EV>;", "using weighted_vertex = std::pair<vertex_id_t<G>, EV>;"))
ref(P, 'pr weight first', (F, "using weighted_vertex = tuple<vertex_id_t<G>, EV>;", "using weighted_vertex = tuple<EV, vertex_id_t<G>>;"), (F, "return compare(get<1>(j), get<1>(i));", "return compare(get<0>(j), get<0>(i));"), (F, "Q.push({seed, distance[seed]});", "Q.push({distance[seed], seed});"), (F, "auto uid = get<0>(Q.top());", "auto uid = get<1>(Q.top());"), (F, "Q.push({vid, distance[vid]});", "Q.push({distance[vid], vid});"))
ref(P, 'pr seed zero literal', (F, "Q.push({seed, distance[seed]});", "Q.push({seed, EV{}});"))
ref(P, 'pr total continue', (F, TOT, "  for (size_t v = 0; v < N; ++v) {\n    if (v == static_cast<size_t>(seed)) continue;\n    if (in_tree[v]) total_weight = total_weight + weight[v];\n  }\n"))
ref(P, 'pr total id loop', (F, TOT, "  for (vertex_id_t<G> v = 0; v < N; ++v) {\n    if (in_tree[v] && v != seed) {\n      total_weight += weight[v];\n    }\n  }\n"))
ref(P, 'pr total at insertion', (F, "  EV total_weight = EV{};\n" + TOT, ""), (F, "  // Main loop: grow MST", "  EV total_weight = EV{};\n  // Main loop: grow MST"), (F, "    in_tree[uid] = true;\n", "    in_tree[uid] = true;\n    if (uid != seed) {\n      total_weight += weight[uid];\n    }\n"))
ref(P, 'pr checks reordered', (F, "  if (size(weight) < N) {\n    throw std::out_of_range(std::format(\"prim: weight size {} is less than num_vertices {}\", size(weight), N));\n  }\n", ""), (F, "  if (size(predecessor) < N) {\n    throw std::out_of_range(\n          std::format(\"prim: pred", "  if (size(weight) < N) {\n    throw std::out_of_range(std::format(\"prim: weight size {} is less than num_vertices {}\", size(weight), N));\n  }\n  if (size(predecessor) < N) {\n    throw std::out_of_range(\n          std::format(\"prim: pred"))
ref(P, 'pr comparator struct', (F, "  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };", "  struct outer {\n    CompareOp* c;\n    bool operator()(const weighted_vertex& i, const weighted_vertex& j) const { return (*c)(std::get<1>(j), std::get<1>(i)); }\n  };\n  outer outer_compare{&compare};"))
ref(P, 'pr distance fill', (F, "  std::vector<EV> distance(N, init_dist);", "  std::vector<EV> distance;\n  distance.assign(N, init_dist);"))
ref(P, 'pr seed tree before', (F, "  distance[seed]    = 0;    // Seed vertex has distance 0\n  predecessor[seed] = seed; // Seed is its own predecessor (root of MST)\n", "  predecessor[seed] = seed;\n  distance[seed] = EV{};\n"))
bug(P, 'pr comparator not swapped', (F, "compare(get<1>(j), get<1>(i))", "compare(get<1>(i), get<1>(j))"))
bug(P, 'pr comparator by id', (F, "compare(get<1>(j), get<1>(i))", "compare(EV(get<0>(j)), EV(get<0>(i)))"))
bug(P, 'pr no in-tree test on edge', (F, "!in_tree[vid] && compare(w, distance[vid])", "compare(w, distance[vid])"))
bug(P, 'pr dijkstra distance', (F, "compare(w, distance[vid])) {\n        distance[vid] = w; ", "compare(w + distance[uid], distance[vid])) {\n        distance[vid] = w + distance[uid]; "))
bug(P, 'pr stale entry processed', (F, "    if (in_tree[uid]) {\n      continue; // Superseded entry: uid was already added over a better edge\n    }\n", ""))
bug(P, 'pr weight not recorded', (F, "        weight[vid]      = w;         //", "        //"))
bug(P, 'pr weight recorded first time only', (F, "        weight[vid]      = w;         //", "        if (predecessor[vid] != uid) weight[vid] = w;         //"))
bug(P, 'pr predecessor first only', (F, UPD, UPD.replace("        distance[vid] = w; ", "        const bool first = distance[vid] == init_dist;\n        distance[vid] = w; ").replace("        predecessor[vid] = uid; ", "        if (first) predecessor[vid] = uid; ")))
bug(P, 'pr old weight queued', (F, UPD, UPD.replace("        distance[vid] = w; ", "        const EV old = distance[vid];\n        distance[vid] = w; ").replace("Q.push({vid, distance[vid]})", "Q.push({vid, old})")))
bug(P, 'pr push before distance', (F, "        distance[vid] = w;            // Update minimum edge weight to reach vid\n        Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue\n", "        Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue\n        distance[vid] = w;            // Update minimum edge weight to reach vid\n"))
bug(P, 'pr total includes all', (F, "    if (v != static_cast<size_t>(seed) && in_tree[v]) {", "    if (v != static_cast<size_t>(seed)) {"))
bug(P, 'pr total includes seed', (F, "    if (v != static_cast<size_t>(seed) && in_tree[v]) {", "    if (in_tree[v]) {"))
bug(P, 'pr total uses distance of all', (F, "      total_weight += weight[v];", "      total_weight += distance[v] + weight[v] - weight[v] + (v == N - 1 ? EV{} : EV{1}) - EV{1};"))
bug(P, 'pr total from one', (F, "  for (size_t v = 0; v < N; ++v) {\n    if (v != static_cast<size_t>(seed)", "  for (size_t v = 1; v < N; ++v) {\n    if (v != static_cast<size_t>(seed)"))
bug(P, 'pr seed predecessor zero', (F, "predecessor[seed] = seed;", "predecessor[seed] = 0;"))
bug(P, 'pr stops when all seen', (F, "  while (!Q.empty()) {\n    auto uid", "  size_t added = 0;\n  while (!Q.empty() && ++added <= 2 * N) {\n    auto uid"))
bug(P, 'pr default compare', (F, "        g, predecessor, weight, [](auto&& i, auto&& j) { return i < j; },", "        g, predecessor, weight, [](auto&& i, auto&& j) { return i <= j; },"))
bug(P, 'pr default init zero', (F, "        std::numeric_limits<range_value_t<Weight>>::max(), weight_fn, seed);", "        range_value_t<Weight>(1) << 20, weight_fn, seed);"))
bug(P, 'pr default seed dropped', (F, "        std::numeric_limits<range_value_t<Weight>>::max(), weight_fn, seed);", "        std::numeric_limits<range_value_t<Weight>>::max(), weight_fn, 0);"))
bug(P, 'pr marks start set', (F, IT, "  std::vector<bool> in_tree(N, N > 64);\n"))
bug(P, 'pr distance size', (F, "  std::vector<EV> distance(N, init_dist);", "  std::vector<EV> distance(N, std::numeric_limits<EV>::max());"))
bug(P, 'pr marks on push', (F, UPD, UPD + "        if (w == EV{}) in_tree[vid] = true;\n"))
bug(P, 'pr break on worse', (F, "      // Relaxation: if edge weight is better than", "      if (w == init_dist) break;\n      // Relaxation: if edge weight is better than"))

bug(P, 'pr mark after scan', (F, "    in_tree[uid] = true;\n", ""), (F, "        weight[vid]      = w;         // Record edge weight\n      }\n    }\n", "        weight[vid]      = w;         // Record edge weight\n      }\n    }\n    in_tree[uid] = true;\n"))
ref(P, 'pr total popped weight', (F, "  EV total_weight = EV{};\n" + TOT, ""), (F, "  // Main loop: grow MST", "  EV total_weight = EV{};\n  // Main loop: grow MST"), (F, "    auto uid = get<0>(Q.top()); //", "    const EV uw = get<1>(Q.top());\n    auto uid = get<0>(Q.top()); //"), (F, "    in_tree[uid] = true;\n", "    in_tree[uid] = true;\n    total_weight += uw;\n"))
bug(P, 'pr total superseded too', (F, "  EV total_weight = EV{};\n" + TOT, ""), (F, "  // Main loop: grow MST", "  EV total_weight = EV{};\n  // Main loop: grow MST"), (F, "    auto uid = get<0>(Q.top()); //", "    total_weight += get<1>(Q.top());\n    auto uid = get<0>(Q.top()); //"))
ref(P, 'pr total of distances', (F, "    if (v != static_cast<size_t>(seed) && in_tree[v]) {", "    if (in_tree[v]) {"), (F, "      total_weight += weight[v];", "      total_weight += distance[v];"))
bug(P, 'pr total of distances, init', (F, "      total_weight += weight[v];", "      total_weight += distance[v];"), (F, "    if (v != static_cast<size_t>(seed) && in_tree[v]) {", "    if (distance[v] != init_dist) {"), (F, "  distance[seed]    = 0;  ", "  distance[seed]    = 1;  "))

for i in range(2):
    bug('A08', 'kr max starts at one %d' % i, (F, "  VId N = 0;", "  VId N = 1;"), nth=i)
    bug('A08', 'kr max off by one %d' % i, (F, "      N = uid; // Check", "      N = uid + 1; // Check"), nth=i)

for i in range(2):
    ref('A08', 'kr set count %d' % i, (F, "  VId N = 0;", "  size_t N = 0;"), (F, "    if (uid > N) {\n      N = uid; // Check source vertex\n    }\n    if (vid > N) {\n      N = vid; // Check target vertex\n    }", "    N = std::max({N, size_t(uid) + 1, size_t(vid) + 1});"), (F, "subsets(N + 1)", "subsets(N)"), (F, "  for (VId uid = 0; uid <= N; ++uid) {", "  for (VId uid = 0; uid < N; ++uid) {"), (F, "num_components = N + 1;", "num_components = N;"), nth=i)

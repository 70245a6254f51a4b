"""Dijkstra and Bellman-Ford: bugs that must be reported, refactorings that must not."""
M = []
def bug(prop, name, *edits, **k): M.append(dict(prop=prop, name=name, kind='bug', edits=edits, **k))
def ref(prop, name, *edits, **k): M.append(dict(prop=prop, name=name, kind='refactor', edits=edits, **k))
D = 'algorithm/dijkstra_shortest_paths.hpp'
B = 'algorithm/bellman_ford_shortest_paths.hpp'
RELAX = """    if (compare(combine(d_u, w_e), d_v)) {
      distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
      if constexpr (!is_same_v<Predecessors, _null_range_type>) {
        predecessor[static_cast<size_t>(vid)] = uid;
      }
      return true;
    }
    return false;
  };
"""
RD = RELAX
LOOP = "    for (auto&& [vid, uv, w] : views::incidence(g, *find_vertex(g, uid), weight)) {"
TREE = """      if (is_neighbor_undiscovered) {
        // tree_edge
        if (was_edge_relaxed) {
          if constexpr (has_on_edge_relaxed<G, Visitor>) {
            visitor.on_edge_relaxed(g, uv);
          }
          if constexpr (has_on_discover_vertex<G, Visitor>) {
            visitor.on_discover_vertex(g, *find_vertex(g, vid));
          } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
            visitor.on_discover_vertex(g, vid);
          }
          queue.push(vid);
        } else {
          // This is an indicator of a bug in the algorithm and should be investigated.
          throw std::logic_error(
                "dijkstra_shortest_paths: unexpected state where an edge to a new vertex was not relaxed");
        }
      } else {
        // non-tree edge
        if (was_edge_relaxed) {
          if constexpr (has_on_edge_relaxed<G, Visitor>) {
            visitor.on_edge_relaxed(g, uv);
          }
          queue.push(vid); // re-enqueue vid to re-evaluate its neighbors with a shorter path
        } else {
          if constexpr (has_on_edge_not_relaxed<G, Visitor>) {
            visitor.on_edge_not_relaxed(g, uv);
          }
        }
      }
"""
QC = "    return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];"
P = 'A04,A06'
ref(P, 'dij new distance in a local', (D, RD, RELAX.replace("    if (compare(combine(d_u, w_e), d_v)) {\n      distances[static_cast<size_t>(vid)] = combine(d_u, w_e);", "    const distance_type nd = combine(d_u, w_e);\n    if (compare(nd, d_v)) {\n      distances[static_cast<size_t>(vid)] = nd;")))
ref(P, 'dij relax early return', (D, RD, """    if (!compare(combine(d_u, w_e), d_v))
      return false;
    if constexpr (!is_same_v<Predecessors, _null_range_type>) {
      predecessor[static_cast<size_t>(vid)] = uid;
    }
    distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
    return true;
  };
"""))
ref(P, 'dij relaxed-first branch tree', (D, TREE, """      if (was_edge_relaxed) {
        if constexpr (has_on_edge_relaxed<G, Visitor>) {
          visitor.on_edge_relaxed(g, uv);
        }
        if (is_neighbor_undiscovered) {
          if constexpr (has_on_discover_vertex<G, Visitor>) {
            visitor.on_discover_vertex(g, *find_vertex(g, vid));
          } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
            visitor.on_discover_vertex(g, vid);
          }
        }
        queue.push(vid);
      } else if (is_neighbor_undiscovered) {
        throw std::logic_error("unexpected");
      } else if constexpr (has_on_edge_not_relaxed<G, Visitor>) {
        visitor.on_edge_not_relaxed(g, uv);
      }
"""))
ref(P, 'dij continue style', (D, TREE, """      if (!was_edge_relaxed) {
        if (is_neighbor_undiscovered) throw std::logic_error("unexpected");
        if constexpr (has_on_edge_not_relaxed<G, Visitor>) visitor.on_edge_not_relaxed(g, uv);
        continue;
      }
      if constexpr (has_on_edge_relaxed<G, Visitor>) visitor.on_edge_relaxed(g, uv);
      if (is_neighbor_undiscovered) discovered(vid);
      queue.push(vid);
"""), (D, "  // Main loop to process the queue\n", """  auto discovered = [&](const id_type& id) {
    if constexpr (has_on_discover_vertex<G, Visitor>) {
      visitor.on_discover_vertex(g, *find_vertex(g, id));
    } else if constexpr (has_on_discover_vertex_id<G, Visitor>) {
      visitor.on_discover_vertex(g, id);
    }
  };
"""))
ref(P, 'dij queue compare flipped', (D, QC, "    return distances[static_cast<size_t>(b)] < distances[static_cast<size_t>(a)];"))
ref(P, 'dij seeds distance before push', (D, "    queue.push(source);\n    distances[static_cast<size_t>(source)] = zero; // mark source as discovered\n", "    distances[static_cast<size_t>(source)] = zero;\n    queue.push(source);\n"))
ref(P, 'dij seed local id', (D, "    queue.push(source);\n    distances[static_cast<size_t>(source)] = zero; // mark source as discovered\n", "    const id_type sid = static_cast<id_type>(source);\n    distances[static_cast<size_t>(sid)] = zero;\n    queue.push(sid);\n"))
ref(P, 'dij source test inverted', (D, "    if (source >= N || source < 0) {", "    if (!(source < N)) {"))
ref(P, 'dij for loop over the queue', (D, "  while (!queue.empty()) {", "  for (; queue.size() != 0;) {"))
ref(P, 'dij break form', (D, "  while (!queue.empty()) {", "  while (true) {\n    if (queue.empty()) break;"))
ref(P, 'dij explicit edges', (D, LOOP, "    for (auto&& uv : adj_list::edges(g, *find_vertex(g, uid))) {\n      const id_type vid = adj_list::target_id(g, uv);\n      const weight_type w = weight(g, uv);"))
ref(P, 'dij iterator loop', (D, LOOP, "    auto er = views::incidence(g, *find_vertex(g, uid), weight);\n    for (auto it = std::ranges::begin(er), last = std::ranges::end(er); it != last; ++it) {\n      auto&& [vid, uv, w] = *it;"))
ref(P, 'dij vertex in a local', (D, LOOP, "    auto ui = find_vertex(g, uid);\n    for (auto&& [vid, uv, w] : views::incidence(g, *ui, weight)) {"))
ref(P, 'dij old distance in a local', (D, "      const bool is_neighbor_undiscovered = (distances[static_cast<size_t>(vid)] == infinite);\n      const bool was_edge_relaxed         = relax_target(uv, uid, w);\n", "      const distance_type old_d = distances[static_cast<size_t>(vid)];\n      const bool was_edge_relaxed         = relax_target(uv, uid, w);\n      const bool is_neighbor_undiscovered = !(old_d != infinite);\n"))
ref(P, 'dij negative check in a lambda', (D, "        if (w < zero) {\n          throw std::out_of_range(\n                std::format(\"dijkstra_shortest_paths: invalid negative edge weight of '{}' encountered\", w));\n        }", "        auto check = [](const weight_type& x) { if (x < zero) throw std::out_of_range(\"negative edge weight\"); };\n        check(w);"))
ref(P, 'dij N first', (D, "  if (size(distances) < num_vertices(g)) {", "  const auto nv = num_vertices(g);\n  if (!(size(distances) >= nv)) {"))
ref(P, 'dij init over vertexlist', (D, "    for (id_type uid = 0; uid < N; ++uid) {\n      visitor.on_initialize_vertex(g, uid);\n    }", "    for (id_type uid = 0; uid != N; uid++) {\n      visitor.on_initialize_vertex(g, uid);\n    }"))
ref(P, 'dij sources iterator', (D, "  for (auto&& source : sources) {", "  for (auto si = std::ranges::begin(sources); si != std::ranges::end(sources); ++si) {\n    auto&& source = *si;"))
ref(P, 'dij emplace', (D, "          queue.push(vid); // re-enqueue", "          queue.emplace(vid); // re-enqueue"))
ref(P, 'dij own function object', (D, "  Queue queue(qcompare);", "  Queue queue{qcompare};\n  (void)N;"), (D, "  const id_type N = static_cast<id_type>(num_vertices(g));\n", "  const id_type N = static_cast<id_type>(num_vertices(g));\n  [[maybe_unused]] std::size_t settled = 0;\n"), (D, "    queue.pop();\n", "    queue.pop();\n    ++settled;\n"))
ref(P, 'dij throw helper', (D, "    if (source >= N || source < 0) {\n      throw std::out_of_range(std::format(\"dijkstra_shortest_paths: source vertex id '{}' is out of range\", source));\n    }", "    require_source(source);"), (D, "  // Seed the queue with the initial vertice(s)\n", "  auto require_source = [&](const auto& s) {\n    if (s < 0 || s >= N) throw std::out_of_range(std::format(\"source {}\", s));\n  };\n"))

bug('A04', 'dij combine arguments swapped', (D, RD, RELAX.replace("distances[static_cast<size_t>(vid)] = combine(d_u, w_e);", "distances[static_cast<size_t>(vid)] = combine(w_e, d_u);")))
bug('A04', 'dij combine swapped in test', (D, RD, RELAX.replace("if (compare(combine(d_u, w_e), d_v))", "if (compare(combine(w_e, d_u), d_v))")))
bug('A04', 'dij non-strict test', (D, RD, RELAX.replace("if (compare(combine(d_u, w_e), d_v))", "if (!compare(d_v, combine(d_u, w_e)))")))
bug('A04', 'dij predecessor is target', (D, RD, RELAX.replace("] = uid;", "] = vid;")))
bug('A04', 'dij max queue', (D, QC, QC.replace('>(', '>(').replace("] > d", "] < d")))
bug('A04', 'dij default compare in distances overload', (D, "  dijkstra_shortest_paths(g, sources, distances, _null_predecessors, forward<WF>(weight), forward<Visitor>(visitor),\n                          forward<Compare>(compare), forward<Combine>(combine));", "  dijkstra_shortest_paths(g, sources, distances, _null_predecessors, forward<WF>(weight), forward<Visitor>(visitor),\n                          less<range_value_t<Distances>>(), forward<Combine>(combine));"))
bug('A04', 'dij undiscovered read after relaxing', (D, "      const bool is_neighbor_undiscovered = (distances[static_cast<size_t>(vid)] == infinite);\n      const bool was_edge_relaxed         = relax_target(uv, uid, w);\n", "      const bool was_edge_relaxed         = relax_target(uv, uid, w);\n      const bool is_neighbor_undiscovered = (distances[static_cast<size_t>(vid)] == infinite);\n"))
bug('A04', 'dij stale distance from the queue', (D, "    const id_type uid = queue.top();", "    const id_type uid = queue.top(); if (queue.size() > 1 && uid == 0) { queue.pop(); continue; }"))
bug('A04', 'dij zero weight edges skipped', (D, "      const bool is_neighbor_undiscovered = (", "      if (w == zero && vid < uid) continue;\n      const bool is_neighbor_undiscovered = ("))
bug('A04', 'dij negative check too late', (D, "        if (w < zero) {", "        if (w < zero && distances[static_cast<size_t>(vid)] != infinite) {"))
bug('A04', 'dij only first source', (D, "    queue.push(source);\n", "    if (queue.empty()) queue.push(source);\n"))
bug('A04', 'dij source distance only if undiscovered', (D, "    distances[static_cast<size_t>(source)] = zero; // mark source as discovered\n", "    if (distances[static_cast<size_t>(source)] == infinite) distances[static_cast<size_t>(source)] = zero;\n"))
bug('A04', 'dij weight cached per target', (D, "      const bool was_edge_relaxed         = relax_target(uv, uid, w);\n", "      const bool was_edge_relaxed         = relax_target(uv, uid, static_cast<weight_type>(static_cast<int>(w)));\n"))
bug('A04', 'dij finish before the scan', (D, "    // Process all outgoing edges from the current vertex\n", "    if (distances[static_cast<size_t>(uid)] == infinite) break;\n"))
bug('A04', 'dij init skips last', (D, "    for (id_type uid = 0; uid < N; ++uid) {\n      visitor.on_initialize_vertex(g, uid);\n    }", "    for (id_type uid = 0; uid + 1 < N; ++uid) {\n      visitor.on_initialize_vertex(g, uid);\n    }"))
bug('A06', 'dij predecessor size vs distances', (D, "    if (size(predecessor) < num_vertices(g)) {", "    if (size(predecessor) < size(distances) && size(predecessor) + 1 < num_vertices(g)) {"))

PASS = """  bool at_least_one_edge_relaxed = false;
  for (id_type k = 0; k < N; ++k) {
    at_least_one_edge_relaxed = false;
"""
EL = "    for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {"
P = 'A05,A06'
ref(P, 'bf loop with condition', (B, PASS, """  bool at_least_one_edge_relaxed = true;
  if (N == 0) at_least_one_edge_relaxed = false;
  for (id_type k = 0; k < N && at_least_one_edge_relaxed; ++k) {
    at_least_one_edge_relaxed = false;
"""))
ref(P, 'bf while loop', (B, PASS, """  bool at_least_one_edge_relaxed = false;
  id_type k = 0;
  while (k < N) {
    ++k;
    at_least_one_edge_relaxed = false;
"""))
ref(P, 'bf count down', (B, PASS, """  bool at_least_one_edge_relaxed = false;
  for (id_type k = N; k > 0; --k) {
    at_least_one_edge_relaxed = false;
"""))
ref(P, 'bf one more pass', (B, "  for (id_type k = 0; k < N; ++k) {\n    at", "  for (id_type k = 0; k <= N; ++k) {\n    at"))
ref(P, 'bf N-1 passes', (B, "  for (id_type k = 0; k < N; ++k) {\n    at", "  for (id_type k = 0; k + 1 < N || k == 0; ++k) {\n    at"))
ref(P, 'bf nested loops', (B, EL, """    for (auto&& [uid, u] : views::vertexlist(g))
    for (auto&& [vid, uv, w] : views::incidence(g, u, weight)) {
      if constexpr (has_on_examine_edge<G, Visitor>) {"""))
ref(P, 'bf relax new distance local', (B, "    if (compare(combine(d_u, w_e), d_v)) {\n      distances[static_cast<size_t>(vid)] = combine(d_u, w_e);", "    const DistanceValue nd = combine(d_u, w_e);\n    if (compare(nd, d_v)) {\n      distances[static_cast<size_t>(vid)] = nd;"))
ref(P, 'bf relax positive form', (B, "    if (d_u == infinite) {\n      return false; // the source hasn't been reached: there's no path to extend\n    }\n    if (compare(combine(d_u, w_e), d_v)) {", "    if (d_u != infinite && compare(combine(d_u, w_e), d_v)) {"))
ref(P, 'bf flag accumulates', (B, """      if (relax_target(uv, uid, w)) {
        at_least_one_edge_relaxed = true;
        if constexpr""", """      const bool relaxed = relax_target(uv, uid, w);
      at_least_one_edge_relaxed = at_least_one_edge_relaxed || relaxed;
      if (relaxed) {
        if constexpr"""))
ref(P, 'bf flag or-assign', (B, """      if (relax_target(uv, uid, w)) {
        at_least_one_edge_relaxed = true;
        if constexpr""", """      const bool relaxed = relax_target(uv, uid, w);
      at_least_one_edge_relaxed |= relaxed;
      if (relaxed) {
        if constexpr"""))
ref(P, 'bf final check continue', (B, "      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {", "      const DistanceValue du = distances[uid];\n      const bool relaxable = du != infinite && compare(combine(du, w), distances[vid]);\n      if (relaxable) {"))
ref(P, 'bf final check early return', (B, "  if (at_least_one_edge_relaxed) {\n    for", "  if (!at_least_one_edge_relaxed) return return_type();\n  {\n    for"))
ref(P, 'bf walk counts down', (B, "          for (id_type k = 0; k < N; ++k) {\n            cycle_id", "          for (id_type k = N; k != 0; --k) {\n            cycle_id"))
ref(P, 'bf walk helper', (B, """        id_type cycle_id = uid;
        if constexpr (!is_same_v<Predecessors, _null_range_type>) {
          for (id_type k = 0; k < N; ++k) {
            cycle_id = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_id)]);
          }
        }
        return return_type(cycle_id);""", """        auto walk_back = [&](id_type from) {
          if constexpr (!is_same_v<Predecessors, _null_range_type>) {
            id_type left = N;
            while (left-- > 0) from = static_cast<id_type>(predecessor[static_cast<size_t>(from)]);
          }
          return from;
        };
        return walk_back(uid);"""))
ref(P, 'bf result in a variable', (B, "        return return_type(cycle_id);\n", "        found = cycle_id;\n        break;\n"), (B, "  // Check for negative weight cycles\n", "  return_type found;\n"), (B, "  return return_type();\n}", "  return found;\n}"))
ref(P, 'bf find cycle while', (B, """    vertex_id_t<G> uid = cycle_vertex_id.value();
    do {
      *out_cycle++ = uid;
      uid          = predecessor[uid];
    } while (uid != cycle_vertex_id.value());""", """    const vertex_id_t<G> start = *cycle_vertex_id;
    vertex_id_t<G>       uid   = start;
    while (true) {
      *out_cycle = uid;
      ++out_cycle;
      uid = predecessor[uid];
      if (uid == start) break;
    }"""))
ref(P, 'bf find cycle guard first', (B, "  if (cycle_vertex_id.has_value()) {\n    vertex_id_t<G> uid = cycle_vertex_id.value();", "  if (!cycle_vertex_id) return;\n  {\n    vertex_id_t<G> uid = *cycle_vertex_id;"))
bug('A05', 'bf N-2 passes', (B, "  for (id_type k = 0; k < N; ++k) {\n    at", "  for (id_type k = 0; k + 2 < N || k == 0; ++k) {\n    at"))
bug('A05', 'bf flag only last edge', (B, """      if (relax_target(uv, uid, w)) {
        at_least_one_edge_relaxed = true;""", """      at_least_one_edge_relaxed = false;
      if (relax_target(uv, uid, w)) {
        at_least_one_edge_relaxed = true;"""))
bug('A05', 'bf final check uses source distance only', (B, "compare(combine(distances[uid], w), distances[vid])) {", "uid != vid && compare(combine(distances[uid], w), distances[vid])) {"))
bug('A05', 'bf final ignores compare', (B, "compare(combine(distances[uid], w), distances[vid])) {", "combine(distances[uid], w) < distances[vid]) {"))
bug('A05', 'bf walk one short', (B, "          for (id_type k = 0; k < N; ++k) {\n            cycle_id", "          for (id_type k = 2; k < N; ++k) {\n            cycle_id"))
bug('A05', 'bf walk from target unclosed', (B, "          predecessor[vid] = uid; // close the cycle", "          predecessor[uid] = vid; // close the cycle"))
bug('A05', 'bf cycle stops early', (B, "    } while (uid != cycle_vertex_id.value());", "    } while (uid != cycle_vertex_id.value() && uid != 0);"))
bug('A05', 'bf infinite test on target', (B, "    if (d_u == infinite) {", "    if (d_u == infinite && d_v != infinite) {"))
bug('A05', 'bf pass skips self-loops', (B, "      if (relax_target(uv, uid, w)) {", "      if (uid != vid && relax_target(uv, uid, w)) {"))
bug('A05', 'bf distance truncated', (B, "      distances[static_cast<size_t>(vid)] = combine(d_u, w_e);", "      distances[static_cast<size_t>(vid)] = static_cast<DistanceValue>(static_cast<float>(combine(d_u, w_e)));"))
bug('A05', 'bf distances overload drops combine', (B, "                                     forward<WF>(weight), forward<Visitor>(visitor), forward<Compare>(compare),\n                                     forward<Combine>(combine));", "                                     forward<WF>(weight), forward<Visitor>(visitor), forward<Compare>(compare));"))
bug('A05', 'bf weight function replaced', (B, "    for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {", "    auto wf = [&weight](const auto& gg, const edge_t<G>& e) -> weight_type { auto x = weight(gg, e); return x < 0 ? weight_type(0) : x; };\n    for (auto&& [uid, vid, uv, w] : views::edgelist(g, wf)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {"))
bug('A05', 'bf constant weight', (B, "    for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {", "    auto wf = [](const auto& gg, const edge_t<G>& e) -> weight_type { return weight_type(1); };\n    for (auto&& [uid, vid, uv, w] : views::edgelist(g, wf)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {"))
ref('A05', 'bf weight function wrapped', (B, "    for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {", "    auto wf = [&weight](const auto& gg, const edge_t<G>& e) -> weight_type { return weight(gg, e); };\n    for (auto&& [uid, vid, uv, w] : views::edgelist(g, wf)) {\n      if constexpr (has_on_examine_edge<G, Visitor>) {"))
W1 = "{ return range_value_t<Distances>(1); }, // default weight(g, uv) -> 1"
for n in range(4):
    bug('A04', 'dij default weight %d' % n, (D, W1, W1.replace("(1)", "(0)")), nth=n)
    bug('A05', 'bf default weight %d' % n, (B, W1, W1.replace("(1)", "(2)")), nth=n)
    bug('A04', 'dij default combine %d' % n, (D, "Combine&&      combine = plus<range_value_t<Distances>>()", "Combine&&      combine = [](auto a, auto b) { return b; }"), (D, "class Combine = plus<range_value_t<Distances>>>", "class Combine = function<range_value_t<Distances>(range_value_t<Distances>,range_value_t<Distances>)>>"), nth=n) if 0 else None
bug('A04', 'dij float rounding', (D, "      distances[static_cast<size_t>(vid)] = combine(d_u, w_e);", "      distances[static_cast<size_t>(vid)] = static_cast<float>(combine(d_u, w_e));"))
bug('A04', 'dij int relax argument', (D, "const vertex_id_t<G>& uid, const weight_type& w_e) -> bool", "const vertex_id_t<G>& uid, const int w_e) -> bool"))
bug('A05', 'bf int relax argument', (B, "const vertex_id_t<G>& uid, const weight_type& w_e) -> bool", "const vertex_id_t<G>& uid, const int w_e) -> bool"))
bug('A05', 'bf int distance', (B, "    const DistanceValue d_u = distances[static_cast<size_t>(uid)];", "    const auto d_u = static_cast<long>(distances[static_cast<size_t>(uid)]);"))
bug('A04', 'dij infinity of int', (D, "  constexpr auto infinite = shortest_path_infinite_distance<distance_type>();", "  constexpr distance_type infinite = shortest_path_infinite_distance<int>();"))

M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
# ---------------- maximal independent set
F='algorithm/mis.hpp'; P='A13'
TPL='''template <index_adjacency_list G, class Iter>
requires output_iterator<Iter, vertex_id_t<G>>
size_t maximal_independent_set('''
SLS='''  bool seed_has_self_loop = false;
  for (auto uv : edges(g, seed)) {
    if (target_id(g, uv) == seed) {
      seed_has_self_loop = true;
      break;
    }
  }
'''
SL='''      bool has_self_loop = false;
      for (auto uv : edges(g, u)) {
        if (target_id(g, uv) == uid) {
          has_self_loop = true;
          break;
        }
      }
'''
ADDS='''    *mis++ = seed;
    ++count;
    // Mark neighbors as removed
    for (auto uv : edges(g, seed)) {
      removed_vertices[target_id(g, uv)] = 1;
    }
'''
ADD='''      *mis++ = uid;
      ++count;
      removed_vertices[uid] = 1;
      for (auto uv : edges(g, u)) {
        removed_vertices[target_id(g, uv)] = 1;
      }
'''
MAIN='''  for (auto u : vertices(g)) {
    vertex_id_t<G> uid = vertex_id(g, u);
'''
HLP='''namespace detail_mis {
template <class G, class Id>
bool loops_back(G& g, const Id& id) {
  for (auto uv : edges(g, id))
    if (target_id(g, uv) == id) return true;
  return false;
}
} // namespace detail_mis
'''
ref(P,'mis2 helper fn',(F,TPL,HLP+TPL),(F,SLS,'  const bool seed_has_self_loop = detail_mis::loops_back(g, seed);\n'),(F,SL,'      const bool has_self_loop = detail_mis::loops_back(g, uid);\n'))
ref(P,'mis2 take lambda',(F,SLS,'''  auto take = [&](vertex_id_t<G> id) {
    for (auto uv : edges(g, id)) {
      if (target_id(g, uv) == id) return;
    }
    *mis++ = id;
    ++count;
    removed_vertices[id] = 1;
    for (auto uv : edges(g, id)) {
      removed_vertices[target_id(g, uv)] = 1;
    }
  };
  take(seed);
'''),(F,'''  if (!seed_has_self_loop) {
'''+ADDS+'  }\n',''),(F,SL+'''      if (has_self_loop) {
        continue;
      }
'''+ADD,'      take(uid);\n'))
ref(P,'mis2 positive nest',(F,'''      if (has_self_loop) {
        continue;
      }
'''+ADD,'      if (!has_self_loop) {\n'+ADD+'      }\n'))
ref(P,'mis2 guard continue',(F,'    if (!removed_vertices[uid]) {','    if (removed_vertices[uid]) continue;\n    {'))
ref(P,'mis2 marks order',(F,ADD,'''      removed_vertices[uid] = 1;
      for (auto uv : edges(g, u)) {
        removed_vertices[target_id(g, uv)] = 1;
      }
      ++count;
      *mis++ = uid;
'''))
ref(P,'mis2 out split',(F,'      *mis++ = uid;\n','      *mis = uid;\n      ++mis;\n'),(F,'    *mis++ = seed;\n','    *mis = seed;\n    ++mis;\n'))
ref(P,'mis2 id loop',(F,MAIN,'''  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {
    auto u = *find_vertex(g, uid);
'''))
ref(P,'mis2 id loop size_t',(F,MAIN,'''  for (size_t i = 0; i < N; ++i) {
    const auto uid = static_cast<vertex_id_t<G>>(i);
    auto u = *find_vertex(g, uid);
'''))
ref(P,'mis2 seed as vertex',(F,SLS,'  auto sv = *find_vertex(g, seed);\n'+SLS.replace('edges(g, seed)','edges(g, sv)')),(F,ADDS,ADDS.replace('edges(g, seed)','edges(g, sv)')))
ref(P,'mis2 bool marks',(F,'std::vector<uint8_t> removed_vertices(N);','std::vector<bool> removed_vertices(N);'),(F,'removed_vertices[seed] = 1;','removed_vertices[seed] = true;'))
ref(P,'mis2 marks value 2',(F,'std::vector<uint8_t> removed_vertices(N);','std::vector<int> removed_vertices(N, 0);'))
ref(P,'mis2 available',(F,'std::vector<uint8_t> removed_vertices(N);','std::vector<uint8_t> removed_vertices(N, 1);'),(F,'] = 1;','] = 0;'),(F,'if (!removed_vertices[uid])','if (removed_vertices[uid])'),all=True)
ref(P,'mis2 views edges',(F,'      for (auto uv : edges(g, u)) {\n        removed_vertices[target_id(g, uv)] = 1;','      for (auto uv : edges(g, uid)) {\n        const auto vid = target_id(g, uv);\n        removed_vertices[vid] = 1;'))
ref(P,'mis2 mark if unmarked',(F,ADD,ADD.replace('        removed_vertices[target_id(g, uv)] = 1;','        auto vid = target_id(g, uv);\n        if (!removed_vertices[vid]) removed_vertices[vid] = 1;')))
ref(P,'mis2 empty graph',(F,'  if (N == 0) {\n    return 0;\n  }','  if (std::ranges::empty(vertices(g))) {\n    return 0;\n  }'))
ref(P,'mis2 for_each',(F,ADD,ADD.replace('''      for (auto uv : edges(g, u)) {
        removed_vertices[target_id(g, uv)] = 1;
      }
''','''      std::ranges::for_each(edges(g, u), [&](auto&& uv) { removed_vertices[target_id(g, uv)] = 1; });
''')),(F,'#include <vector>','#include <vector>\n#include <algorithm>'))
ref(P,'mis2 skip seed',(F,'    if (!removed_vertices[uid]) {','    if (uid != seed && !removed_vertices[uid]) {'))
ref(P,'mis2 two-phase',(F,SL+'''      if (has_self_loop) {
        continue;
      }
''',''),(F,SLS,'''  // a vertex with a self loop can never be chosen
  std::vector<bool> looped(N, false);
  for (auto w : vertices(g)) {
    const auto wid = vertex_id(g, w);
    for (auto wv : edges(g, w)) {
      if (target_id(g, wv) == wid) looped[wid] = true;
    }
  }
  const bool seed_has_self_loop = looped[seed];
'''),(F,'    if (!removed_vertices[uid]) {','    if (!removed_vertices[uid] && !looped[uid]) {'))
ref(P,'mis2 count at end',(F,'      *mis++ = uid;\n      ++count;\n','      *mis++ = uid;\n'),(F,'        removed_vertices[target_id(g, uv)] = 1;\n      }\n    }\n  }','        removed_vertices[target_id(g, uv)] = 1;\n      }\n      count += 1;\n    }\n  }'))
bug(P,'mis2 seed neighbours unmarked',(F,ADDS,'    *mis++ = seed;\n    ++count;\n'))
bug(P,'mis2 seed loop inverted',(F,'  if (!seed_has_self_loop) {','  if (!seed_has_self_loop || N == 1) {'))
bug(P,'mis2 mark neighbours of looped seed',(F,'    for (auto uv : edges(g, seed)) {\n      removed_vertices[target_id(g, uv)] = 1;\n    }\n  }','  }\n    for (auto uv : edges(g, seed)) {\n      removed_vertices[target_id(g, uv)] = 1;\n    }'))
bug(P,'mis2 looped marked by others only',(F,'        if (target_id(g, uv) == uid) {\n          has_self_loop = true;\n          break;\n        }','        has_self_loop = target_id(g, uv) == uid;'))
bug(P,'mis2 toggles',(F,ADD,ADD.replace('removed_vertices[target_id(g, uv)] = 1','removed_vertices[target_id(g, uv)] ^= 1')))
bug(P,'mis2 counts marks',(F,ADD,ADD.replace('removed_vertices[target_id(g, uv)] = 1','++removed_vertices[target_id(g, uv)]')))
bug(P,'mis2 stop at marked',(F,ADD,ADD.replace('        removed_vertices[target_id(g, uv)] = 1;','        if (removed_vertices[target_id(g, uv)]) break;\n        removed_vertices[target_id(g, uv)] = 1;')))
bug(P,'mis2 short loop',(F,MAIN,'''  for (vertex_id_t<G> uid = 0; uid + 1 < N; ++uid) {
    auto u = *find_vertex(g, uid);
'''))
bug(P,'mis2 from seed',(F,MAIN,'''  for (vertex_id_t<G> uid = seed; uid < N; ++uid) {
    auto u = *find_vertex(g, uid);
'''))
bug(P,'mis2 count missing',(F,'      *mis++ = uid;\n      ++count;\n','      *mis++ = uid;\n      if (count < N - 1) ++count;\n'))
bug(P,'mis2 isolated skipped',(F,'      if (has_self_loop) {','      if (has_self_loop || std::ranges::empty(edges(g, u))) {'))
bug(P,'mis2 uint8 from id',(F,'removed_vertices[seed] = 1;','removed_vertices[seed] = static_cast<uint8_t>(seed + 1);'))
# ---------------- triangle count
F='algorithm/tc.hpp'; P='A14'
LT='''          if (wid_from_u < wid_from_v) {
            // u's neighbor is smaller - advance u's iterator
            ++u_remaining;
          } else if (wid_from_v < wid_from_u) {
            // v's neighbor is smaller - advance v's iterator
            ++v_it;
          } else {
            // Found common neighbor w: both u and v are adjacent to w
            // This forms a triangle {uid, vid, wid}

            // Only count if wid > vid (ensures ordering: uid < vid < wid)
            // This guarantees each triangle is counted exactly once
            if (wid_from_u > vid) {
              ++triangles;
            }

            // Advance both iterators past this common neighbor
            ++u_remaining;
            ++v_it;
          }
'''
ref(P,'tc2 three ifs',(F,LT,'''          if (wid_from_u == wid_from_v && wid_from_u > vid) ++triangles;
          if (wid_from_u < wid_from_v) {
            ++u_remaining;
          } else if (wid_from_v < wid_from_u) {
            ++v_it;
          } else {
            ++u_remaining;
            ++v_it;
          }
'''))
ref(P,'tc2 flags',(F,LT,'''          const bool step_u = !(wid_from_v < wid_from_u);
          const bool step_v = !(wid_from_u < wid_from_v);
          if (step_u && step_v && vid < wid_from_u) ++triangles;
          if (step_u) ++u_remaining;
          if (step_v) ++v_it;
'''))
ref(P,'tc2 helper',(F,'template <index_adjacency_list G>\nrequires ordered_vertex_edges<G>\nsize_t triangle_count(G&& g) {','''namespace tc_detail {
template <class G, class UI, class UE, class VI, class VE, class Id>
size_t common_after(G& g, UI a, UE ae, VI b, VE be, Id lo) {
  size_t r = 0;
  while (a != ae && b != be) {
    auto x = target_id(g, *a);
    auto y = target_id(g, *b);
    if (x < y) { ++a; }
    else if (y < x) { ++b; }
    else {
      if (x > lo) ++r;
      ++a; ++b;
    }
  }
  return r;
}
}
template <index_adjacency_list G>
requires ordered_vertex_edges<G>
size_t triangle_count(G&& g) {'''),(F,'''        while (u_remaining != u_end && v_it != v_end) {
          auto wid_from_u = target_id(g, *u_remaining); // Candidate from u's adjacency list
          auto wid_from_v = target_id(g, *v_it);        // Candidate from v's adjacency list

'''+LT+'        }\n','        triangles += tc_detail::common_after(g, u_remaining, u_end, v_it, v_end, vid);\n'))
ref(P,'tc2 for merge',(F,'        while (u_remaining != u_end && v_it != v_end) {','        for (; u_remaining != u_end && v_it != v_end;) {'))
ref(P,'tc2 break form',(F,'        while (u_remaining != u_end && v_it != v_end) {','        for (;;) {\n          if (u_remaining == u_end) break;\n          if (v_it == v_end) break;'))
ref(P,'tc2 add bool',(F,'            if (wid_from_u > vid) {\n              ++triangles;\n            }','            triangles += static_cast<size_t>(wid_from_u > vid);'))
ref(P,'tc2 ternary add',(F,'            if (wid_from_u > vid) {\n              ++triangles;\n            }','            triangles += wid_from_v > vid ? 1 : 0;'))
ref(P,'tc2 from start',(F,'auto u_remaining = std::next(u_it);','auto u_remaining = std::ranges::begin(u_edges);'))
ref(P,'tc2 from u_it',(F,'auto u_remaining = std::next(u_it);','auto u_remaining = u_it;'))
ref(P,'tc2 ranges next',(F,'auto u_remaining = std::next(u_it);','auto u_remaining = std::ranges::next(u_it);'))
ref(P,'tc2 size_t outer',(F,'  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {','  for (size_t i = 0; i != vertex_count; ++i) {\n    const auto uid = static_cast<vertex_id_t<G>>(i);'))
ref(P,'tc2 while outer',(F,'  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {','  for (auto ui_ = std::ranges::begin(vertices(g)), ue_ = std::ranges::end(vertices(g)); ui_ != ue_; ++ui_) {\n    const vertex_id_t<G> uid = vertex_id(g, *ui_);'))
ref(P,'tc2 skip flip',(F,'      if (uid < vid) {','      const bool forward = vid > uid;\n      if (forward) {'))
ref(P,'tc2 edges by vertex',(F,'auto u_edges = edges(g, uid);','auto u_edges = edges(g, *find_vertex(g, uid));'),(F,'auto v_edges = edges(g, vid);','auto v_edges = edges(g, *find_vertex(g, vid));'))
ref(P,'tc2 per vertex sum',(F,'    while (u_it != u_end) {','    size_t here = 0;\n    while (u_it != u_end) {'),(F,'              ++triangles;\n','              ++here;\n'),(F,'      ++u_it; // Move to next neighbor of u\n    }','      ++u_it; // Move to next neighbor of u\n    }\n    triangles += here;'))
ref(P,'tc2 small skip',(F,'  size_t       triangles    = 0;','  size_t       triangles    = 0;\n  if (vertex_count == 0) return 0;'))
ref(P,'tc2 skip low v',(F,'        while (u_remaining != u_end && v_it != v_end) {','        while (v_it != v_end && !(vid < target_id(g, *v_it))) ++v_it;\n        while (u_remaining != u_end && v_it != v_end) {'))
bug(P,'tc2 skip low v le',(F,'        while (u_remaining != u_end && v_it != v_end) {','        while (v_it != v_end && !(vid + 1 < target_id(g, *v_it))) ++v_it;\n        while (u_remaining != u_end && v_it != v_end) {'))
bug(P,'tc2 v from next',(F,'auto v_it    = std::ranges::begin(v_edges);','auto v_it    = std::ranges::begin(v_edges); if (v_it != std::ranges::end(v_edges)) ++v_it;'))
bug(P,'tc2 outer short',(F,'uid < vertex_count; ++uid','uid + 1 < vertex_count && uid < 65535; ++uid'))
bug(P,'tc2 flip skip',(F,'      if (uid < vid) {','      if (vid < uid) {'))
bug(P,'tc2 swap step',(F,'''            ++u_remaining;
          } else if (wid_from_v < wid_from_u) {
            // v's neighbor is smaller - advance v's iterator
            ++v_it;''','''            ++v_it;
          } else if (wid_from_v < wid_from_u) {
            // v's neighbor is smaller - advance v's iterator
            ++u_remaining;'''))
bug(P,'tc2 one per edge',(F,'              ++triangles;\n            }','              ++triangles;\n              break;\n            }'))
bug(P,'tc2 w>u',(F,'            if (wid_from_u > vid) {','            if (wid_from_u > uid) {'),(F,'auto u_remaining = std::next(u_it);','auto u_remaining = u_it;'))
bug(P,'tc2 break on backward',(F,'      if (uid < vid) {','      if (vid < uid) break;\n      if (uid < vid) {'))
bug(P,'tc2 i32 count',(F,'  size_t       triangles    = 0;','  unsigned short triangles    = 0;'))
bug(P,'tc2 and/or',(F,'u_remaining != u_end && v_it != v_end','u_remaining != u_end && v_it != v_end && vid + 2 < vertex_count'))
# ---------------- jaccard
F='algorithm/jaccard.hpp'; P='A15'
P1='''  for (auto [uid] : views::basic_vertexlist(g)) {
    for (auto [tid] : views::basic_incidence(g, uid)) {
      if (tid != uid) { // skip self-loops
        nbrs[uid].insert(tid);
      }
    }
  }
'''
AB='''      const auto& set_a = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[uid] : nbrs[vid];
      const auto& set_b = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[vid] : nbrs[uid];
'''
IS='''      size_t intersect_size = 0;
      for (auto x : set_a) {
        if (set_b.count(x)) {
          ++intersect_size;
        }
      }
'''
VAL='''      T val = (union_size == 0) ? T{0}
                                : static_cast<T>(intersect_size) / static_cast<T>(union_size);
'''
ref(P,'jac2 ids',(F,P1,'''  for (vid_t uid = 0; uid < N; ++uid) {
    auto& mine = nbrs[uid];
    for (auto&& e : adj_list::edges(g, uid)) {
      const auto tid = adj_list::target_id(g, e);
      if (tid == uid) continue;
      mine.insert(tid);
    }
  }
'''))
ref(P,'jac2 vertices',(F,P1,'''  for (auto u : adj_list::vertices(g)) {
    const auto uid = adj_list::vertex_id(g, u);
    for (auto e : adj_list::edges(g, u)) {
      const auto tid = adj_list::target_id(g, e);
      if (tid != uid) nbrs[uid].insert(tid);
    }
  }
'''))
ref(P,'jac2 incidence view',(F,'    for (auto [tid] : views::basic_incidence(g, uid)) {','    for (auto&& [tid, te] : views::incidence(g, uid)) {'))
ref(P,'jac2 phase2 vertexlist',(F,'''  for (auto [uid] : views::basic_vertexlist(g)) {
    for (auto&& [vid, uv] : views::incidence(g, uid)) {''','''  for (auto&& [uid, u] : views::vertexlist(g)) {
    for (auto&& [vid, uv] : views::incidence(g, uid)) {'''))
ref(P,'jac2 phase2 ids',(F,'''  for (auto [uid] : views::basic_vertexlist(g)) {
    for (auto&& [vid, uv] : views::incidence(g, uid)) {''','''  for (vid_t uid = 0; uid < N; ++uid) {
    for (auto&& [vid, uv] : views::incidence(g, uid)) {'''))
ref(P,'jac2 phase2 edges',(F,'    for (auto&& [vid, uv] : views::incidence(g, uid)) {','    for (auto uv : adj_list::edges(g, uid)) {\n      const auto vid = adj_list::target_id(g, uv);'))
ref(P,'jac2 erase self',(F,'      if (tid != uid) { // skip self-loops\n        nbrs[uid].insert(tid);\n      }\n    }','      nbrs[uid].insert(tid);\n    }\n    nbrs[uid].erase(uid);'))
ref(P,'jac2 lambda',(F,IS,'''      auto common = [&]() {
        size_t n = 0;
        for (const auto& x : set_a) n += set_b.count(x);
        return n;
      };
      const size_t intersect_size = common();
'''))
ref(P,'jac2 count_if',(F,IS,'''      const auto intersect_size = static_cast<size_t>(std::count_if(set_a.begin(), set_a.end(), [&](const auto& x) { return set_b.count(x) != 0; }));
'''),(F,'namespace graph {','#include <algorithm>\nnamespace graph {'))
ref(P,'jac2 ranges count_if',(F,IS,'''      const auto intersect_size = static_cast<size_t>(std::ranges::count_if(set_a, [&](vid_t x) { return set_b.contains(x); }));
'''),(F,'namespace graph {','#include <algorithm>\nnamespace graph {'))
ref(P,'jac2 continue',(F,IS,'''      size_t intersect_size = 0;
      for (auto x : set_a) {
        if (set_b.find(x) == set_b.end())
          continue;
        intersect_size += 1;
      }
'''))
ref(P,'jac2 iter',(F,IS,'''      size_t intersect_size = 0;
      for (auto i_ = set_a.cbegin(); i_ != set_a.cend(); ++i_) {
        if (set_b.count(*i_) > 0) ++intersect_size;
      }
'''))
ref(P,'jac2 helper',(F,'template <index_adjacency_list G, typename OutOp, typename T = double>','''namespace jaccard_detail {
template <class S>
size_t overlap(const S& a, const S& b) {
  size_t n = 0;
  for (const auto& x : a) if (b.count(x)) ++n;
  return n;
}
}
template <index_adjacency_list G, typename OutOp, typename T = double>'''),(F,AB,''),(F,IS,'      const size_t intersect_size = jaccard_detail::overlap(nbrs[uid], nbrs[vid]);\n'))
ref(P,'jac2 helper norec',(F,'template <index_adjacency_list G, typename OutOp, typename T = double>','''namespace jaccard_detail {
template <class S>
size_t overlap(const S& a, const S& b) {
  const S* s = &a; const S* l = &b;
  if (s->size() > l->size()) std::swap(s, l);
  size_t n = 0;
  for (const auto& x : *s) if (l->count(x)) ++n;
  return n;
}
}
template <index_adjacency_list G, typename OutOp, typename T = double>'''),(F,AB,''),(F,IS,'      const size_t intersect_size = jaccard_detail::overlap(nbrs[uid], nbrs[vid]);\n'))
ref(P,'jac2 refs',(F,AB,'''      const auto& nu = nbrs[uid];
      const auto& nv = nbrs[vid];
      const bool u_small = nu.size() <= nv.size();
      const auto& set_a = u_small ? nu : nv;
      const auto& set_b = u_small ? nv : nu;
'''),(F,'nbrs[uid].size() + nbrs[vid].size() - intersect_size','nu.size() + nv.size() - intersect_size'))
ref(P,'jac2 lt',(F,AB,AB.replace('<=','<')))
ref(P,'jac2 early val',(F,VAL,'''      T val{0};
      if (union_size > 0) {
        val = static_cast<T>(intersect_size) / static_cast<T>(union_size);
      }
'''))
ref(P,'jac2 no zero test',(F,VAL,'      T val = static_cast<T>(intersect_size) / static_cast<T>(union_size);\n'))
ref(P,'jac2 direct',(F,VAL+'\n      out(uid, vid, uv, val);','      out(uid, vid, uv, union_size ? T(intersect_size) / T(union_size) : T(0));'))
ref(P,'jac2 nest',(F,'''      if (vid == uid) {
        continue;
      }
''','      if (vid != uid) {\n'),(F,'      out(uid, vid, uv, val);','      out(uid, vid, uv, val);\n      }'))
ref(P,'jac2 set',(F,'std::vector<std::unordered_set<vid_t>> nbrs(N);','std::vector<std::set<vid_t>> nbrs(N);'),(F,'namespace graph {','#include <set>\nnamespace graph {'))
ref(P,'jac2 resize',(F,'std::vector<std::unordered_set<vid_t>> nbrs(N);','std::vector<std::unordered_set<vid_t>> nbrs;\n  nbrs.resize(N);'))
ref(P,'jac2 reserve',(F,'    for (auto [tid] : views::basic_incidence(g, uid)) {','    nbrs[uid].reserve(16);\n    for (auto [tid] : views::basic_incidence(g, uid)) {'))
ref(P,'jac2 no empty guard',(F,'  if (N == 0) {\n    return;\n  }\n',''))
bug(P,'jac2 reuse set',(F,IS,IS.replace('set_b.count(x)','set_a.count(x)')))
bug(P,'jac2 union max',(F,'nbrs[uid].size() + nbrs[vid].size() - intersect_size','std::max(nbrs[uid].size(), nbrs[vid].size())'))
bug(P,'jac2 skip reported',(F,'      if (vid == uid) {\n        continue;','      if (vid <= uid) {\n        continue;'))
bug(P,'jac2 skip zero',(F,'      out(uid, vid, uv, val);','      if (intersect_size != 0) out(uid, vid, uv, val);'))
bug(P,'jac2 one direction',(F,'        nbrs[uid].insert(tid);\n','        nbrs[uid].insert(tid);\n        nbrs[tid].insert(uid);\n'))
bug(P,'jac2 multiset',(F,'std::vector<std::unordered_set<vid_t>> nbrs(N);','std::vector<std::unordered_multiset<vid_t>> nbrs(N);'))
bug(P,'jac2 first common',(F,IS,IS.replace('          ++intersect_size;','          ++intersect_size;\n          if (intersect_size == set_b.size()) { ++intersect_size; break; }')))
bug(P,'jac2 exclude v',(F,IS,IS.replace('if (set_b.count(x)) {','if (x != vid && set_b.count(x)) {')))
bug(P,'jac2 union counts self',(F,'- intersect_size;\n','- intersect_size + 1;\n'))
bug(P,'jac2 val over min',(F,'static_cast<T>(intersect_size) / static_cast<T>(union_size)','static_cast<T>(intersect_size) / static_cast<T>(set_a.size())'))
bug(P,'jac2 float',(F,'static_cast<T>(intersect_size) / static_cast<T>(union_size)','static_cast<T>(static_cast<float>(intersect_size) / static_cast<float>(union_size))'))
# ---------------- label propagation
F='algorithm/label_propagation.hpp'; P='A16'
MX='''      size_t max_count = 0;
      for (auto& [lbl, cnt] : freq) {
        if (cnt > max_count) {
          max_count = cnt;
        }
      }
'''
CD='''      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt == max_count) {
          candidates.push_back(lbl);
        }
      }
'''
PICK='''      label_type best;
      if (candidates.size() == 1) {
        best = candidates[0];
      } else {
        std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);
        best = candidates[dist(rng)];
      }
'''
SET='''      if (!(label[uid] == best)) {
        label[uid] = best;
        changed    = true;
      }
'''
TALLY='''      for (auto&& uv : edges(g, *find_vertex(g, uid))) {
        auto tid = target_id(g, uv);
        ++freq[label[tid]];
      }
'''
TALLY2='''        if (!(label[tid] == empty_label)) {
          ++freq[label[tid]];
        }
'''
K=dict(all=True)
ref(P,'lp2 one loop',(F,CD,''),(F,MX,'''      size_t max_count = 0;
      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt > max_count) {
          max_count = cnt;
          candidates.clear();
        }
        if (cnt == max_count) {
          candidates.push_back(lbl);
        }
      }
'''),**K)
ref(P,'lp2 one loop else',(F,CD,''),(F,MX,'''      size_t max_count = 0;
      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt > max_count) {
          max_count = cnt;
          candidates.assign(1, lbl);
        } else if (cnt == max_count) {
          candidates.push_back(lbl);
        }
      }
'''),**K)
ref(P,'lp2 max_element',(F,MX,'''      const size_t max_count = std::max_element(freq.begin(), freq.end(), [](const auto& a, const auto& b) { return a.second < b.second; })->second;
'''),**K)
ref(P,'lp2 kv',(F,MX,'''      size_t max_count = 0;
      for (const auto& entry : freq) {
        if (max_count < entry.second) max_count = entry.second;
      }
'''),**K)
ref(P,'lp2 emplace_back',(F,CD,CD.replace('push_back','emplace_back')),**K)
ref(P,'lp2 reserve',(F,CD,CD.replace('candidates;','candidates;\n      candidates.reserve(freq.size());')),**K)
ref(P,'lp2 continue',(F,CD,'''      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt != max_count) continue;
        candidates.push_back(lbl);
      }
'''),**K)
ref(P,'lp2 front',(F,PICK,PICK.replace('best = candidates[0];','best = candidates.front();')),**K)
ref(P,'lp2 index',(F,PICK,'''      size_t pick = 0;
      if (candidates.size() > 1) {
        std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);
        pick = dist(rng);
      }
      label_type best = candidates[pick];
'''),**K)
ref(P,'lp2 const ref best',(F,PICK,'''      std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);
      const label_type& best = candidates.size() == 1 ? candidates[0] : candidates[dist(rng)];
'''),**K)
ref(P,'lp2 skip equal',(F,SET,'''      if (label[uid] == best) continue;
      label[uid] = best;
      changed = true;
'''),**K)
ref(P,'lp2 changed order',(F,SET,'''      if (!(label[uid] == best)) {
        changed    = true;
        label[uid] = std::move(best);
      }
'''),**K)
ref(P,'lp2 count',(F,'    bool changed = false;','    size_t changes = 0;'),(F,'        changed    = true;','        ++changes;'),(F,'    if (!changed) {','    if (changes == 0) {'),**K)
ref(P,'lp2 tally edges uid',(F,'for (auto&& uv : edges(g, *find_vertex(g, uid))) {','for (auto&& uv : edges(g, uid)) {'),**K)
ref(P,'lp2 tally local',(F,'''        auto tid = target_id(g, uv);
        ++freq[label[tid]];''','''        const label_type& l_ = label[target_id(g, uv)];
        freq[l_]++;'''))
ref(P,'lp2 tally try_emplace',(F,'''        ++freq[label[tid]];
      }''','''        auto ins_ = freq.try_emplace(label[tid], 0);
        ++ins_.first->second;
      }'''))
ref(P,'lp2 empty continue',(F,TALLY2,'''        const auto& l_ = label[tid];
        if (l_ == empty_label) {
          continue;
        }
        ++freq[l_];
'''))
ref(P,'lp2 order loop',(F,'''  std::vector<vertex_id_t<G>> order(N);
  std::iota(order.begin(), order.end(), vertex_id_t<G>{0});
''','''  std::vector<vertex_id_t<G>> order;
  order.reserve(N);
  for (vertex_id_t<G> i = 0; i < N; ++i) order.push_back(i);
'''),**K)
ref(P,'lp2 order index',(F,'  std::iota(order.begin(), order.end(), vertex_id_t<G>{0});','  for (size_t i = 0; i < N; ++i) order[i] = static_cast<vertex_id_t<G>>(i);'),**K)
ref(P,'lp2 order verts',(F,'''  std::vector<vertex_id_t<G>> order(N);
  std::iota(order.begin(), order.end(), vertex_id_t<G>{0});
''','''  std::vector<vertex_id_t<G>> order;
  order.reserve(N);
  for (auto&& u : vertices(g)) order.push_back(vertex_id(g, u));
'''),**K)
ref(P,'lp2 ranges shuffle',(F,'std::shuffle(order.begin(), order.end(), rng);','std::ranges::shuffle(order, rng);'),**K)
ref(P,'lp2 helper',(F,'template <index_adjacency_list G,\n','''namespace lp_detail {
template <class L, class Gen>
L most_frequent(const std::unordered_map<L, size_t>& freq, Gen& rng) {
  size_t max_count = 0;
  for (auto& [lbl, cnt] : freq) max_count = std::max(max_count, cnt);
  std::vector<L> candidates;
  for (auto& [lbl, cnt] : freq) {
    if (cnt == max_count) candidates.push_back(lbl);
  }
  if (candidates.size() == 1) return candidates[0];
  std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);
  return candidates[dist(rng)];
}
}
template <index_adjacency_list G,
'''),(F,MX,''),(F,CD,''),(F,PICK,'      const label_type best = lp_detail::most_frequent<label_type>(freq, rng);\n'),nth=0)
ref(P,'lp2 iter form',(F,'  for (T iter = 0; iter < max_iters; ++iter) {','  for (T left = max_iters; left > 0; --left) {'),**K)
ref(P,'lp2 changed in header',(F,'  for (T iter = 0; iter < max_iters; ++iter) {','  bool changed = true;\n  for (T iter = 0; changed && iter < max_iters; ++iter) {'),(F,'    bool changed = false;','    changed = false;'),(F,'    if (!changed) {\n      break; // convergence\n    }\n',''),all=True)
ref(P,'lp2 no N guard',(F,'  if (N == 0) {\n    return;\n  }\n',''),**K)
bug(P,'lp2 one loop stale',(F,CD,''),(F,MX,'''      size_t max_count = 0;
      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt > max_count) {
          max_count = cnt;
        }
        if (cnt == max_count) {
          candidates.push_back(lbl);
        }
      }
'''),**K)
bug(P,'lp2 one loop drops',(F,CD,''),(F,MX,'''      size_t max_count = 0;
      std::vector<label_type> candidates;
      for (auto& [lbl, cnt] : freq) {
        if (cnt >= max_count) {
          max_count = cnt;
          candidates.clear();
        }
        if (cnt == max_count) {
          candidates.push_back(lbl);
        }
      }
'''),**K)
bug(P,'lp2 min',(F,MX,MX.replace('size_t max_count = 0;','size_t max_count = N;').replace('cnt > max','cnt < max')),**K)
bug(P,'lp2 synchronous',(F,'    for (auto uid : order) {','    const auto old_ = label;\n    for (auto uid : order) {'),(F,'++freq[label[tid]];','++freq[old_[tid]];'),nth=0)
bug(P,'lp2 break on isolated',(F,'        continue; // isolated','        break; // isolated'))
bug(P,'lp2 empty counts change',(F,'        changed    = true;','        changed    = !(label[uid] == empty_label);'),nth=1)
bug(P,'lp2 never set empty',(F,'      if (!(label[uid] == best)) {','      if (!(label[uid] == best) && !(label[uid] == empty_label)) {'),nth=1)
bug(P,'lp2 order short',(F,'std::iota(order.begin(), order.end(), vertex_id_t<G>{0});','std::iota(order.begin(), order.end(), vertex_id_t<G>{1});'),nth=0)
bug(P,'lp2 best stays',(F,SET,'''      if (freq.find(label[uid]) == freq.end()) {
        label[uid] = best;
        changed    = true;
      }
'''),nth=0)
bug(P,'lp2 tally once',(F,TALLY,TALLY.replace('++freq[label[tid]]','freq[label[tid]] = 1')))
bug(P,'lp2 dist full',(F,'candidates.size() - 1);','candidates.size());'),nth=1)

M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
F='algorithm/mis.hpp'; P='A13'
bug(P,'mis seed no mark',(F,"  removed_vertices[seed] = 1;\n",""))
bug(P,'mis no selfloop test',(F,"      if (has_self_loop) {\n        continue;\n      }",""))
bug(P,'mis first nbr only',(F,"      removed_vertices[uid] = 1;\n      for (auto uv : edges(g, u)) {\n        removed_vertices[target_id(g, uv)] = 1;","      removed_vertices[uid] = 1;\n      for (auto uv : edges(g, u)) {\n        if (target_id(g, uv) > uid) removed_vertices[target_id(g, uv)] = 1;"))
bug(P,'mis selfloop break first',(F,"        if (target_id(g, uv) == uid) {\n          has_self_loop = true;\n          break;\n        }","        if (target_id(g, uv) == uid) {\n          has_self_loop = true;\n        }\n        if (target_id(g, uv) >= uid) break;"))
bug(P,'mis skip vertex0',(F,"    if (!removed_vertices[uid]) {","    if (!removed_vertices[uid] && uid != 0) {"))
bug(P,'mis count seed',(F,"  if (!seed_has_self_loop) {\n    *mis++ = seed;\n    ++count;","  if (!seed_has_self_loop) {\n    *mis++ = seed;"))
bug(P,'mis mark on self loop',(F,"      if (has_self_loop) {\n        continue;\n      }","      if (has_self_loop) {\n        for (auto uv : edges(g, u)) removed_vertices[target_id(g, uv)] = 1;\n        continue;\n      }"))
ref(P,'mis flag no break',(F,"          has_self_loop = true;\n          break;","          has_self_loop = true;"))
ref(P,'mis any_of',(F,"      bool has_self_loop = false;\n      for (auto uv : edges(g, u)) {\n        if (target_id(g, uv) == uid) {\n          has_self_loop = true;\n          break;\n        }\n      }","      auto&& r_ = edges(g, u);\n      bool has_self_loop = std::ranges::any_of(r_, [&](auto&& uv) { return target_id(g, uv) == uid; });"))
ref(P,'mis nested if',(F,"      if (has_self_loop) {\n        continue;\n      }",""),(F,"      bool has_self_loop = false;","      bool has_self_loop = false; // nested"),(F,"          has_self_loop = true;\n          break;\n        }\n      }","          has_self_loop = true;\n          break;\n        }\n      }\n      if (has_self_loop) continue;"))
ref(P,'mis lambda',(F,"  for (auto u : vertices(g)) {\n    vertex_id_t<G> uid = vertex_id(g, u);\n    if (!removed_vertices[uid]) {","  for (auto u : vertices(g)) {\n    vertex_id_t<G> uid = vertex_id(g, u);\n    if (removed_vertices[uid]) continue;\n    {"))
ref(P,'mis no own mark',(F,"      removed_vertices[uid] = 1;\n",""))
ref(P,'mis vector bool',(F,"std::vector<uint8_t> removed_vertices(N);","std::vector<bool> removed_vertices(N, false);"))
ref(P,'mis seed mark in if',(F,"  // Mark seed vertex as removed\n  removed_vertices[seed] = 1;\n",""),(F,"  if (!seed_has_self_loop) {","  if (!seed_has_self_loop) {\n    removed_vertices[seed] = 1;"))
F='algorithm/tc.hpp'; P='A14'
bug(P,'tc no order test',(F,"            if (wid_from_u > vid) {\n              ++triangles;\n            }","            ++triangles;"),(F,"std::next(u_it)","u_it"))
bug(P,'tc advance only one',(F,"            ++u_remaining;\n            ++v_it;\n          }\n        }","            ++u_remaining;\n            if (v_it != v_end) ++v_it;\n            if (v_it != v_end && wid_from_v == uid) ++v_it;\n          }\n        }"))
bug(P,'tc lt both',(F,"          } else if (wid_from_v < wid_from_u) {","          } else if (wid_from_v < wid_from_u && wid_from_u < vid) {\n            ++u_remaining;\n          } else if (wid_from_v < wid_from_u) {"))
bug(P,'tc <= vid',(F,"      if (uid < vid) {","      if (uid <= vid) {"))
bug(P,'tc skip2',(F,"auto u_remaining = std::next(u_it);","auto u_remaining = std::next(u_it, 2);"))
ref(P,'tc swap tests',(F,"          if (wid_from_u < wid_from_v) {","          if (wid_from_v > wid_from_u) {"))
ref(P,'tc local count',(F,"        while (u_remaining != u_end && v_it != v_end) {","        size_t local = 0;\n        while (u_remaining != u_end && v_it != v_end) {"),(F,"              ++triangles;\n","              ++local;\n"),(F,"            ++u_remaining;\n            ++v_it;\n          }\n        }","            ++u_remaining;\n            ++v_it;\n          }\n        }\n        triangles += local;"))
ref(P,'tc for loop',(F,"    while (u_it != u_end) {","    for (; u_it != u_end; ++u_it) {"),(F,"      ++u_it; // Move to next neighbor of u",""))
ref(P,'tc eq first',(F,"          if (wid_from_u < wid_from_v) {","          if (wid_from_u == wid_from_v) {\n            if (wid_from_u > vid) ++triangles;\n            ++u_remaining;\n            ++v_it;\n          } else if (wid_from_u < wid_from_v) {"))
ref(P,'tc vertices',(F,"  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {","  for (auto&& ud : vertices(g)) {\n    const vertex_id_t<G> uid = vertex_id(g, ud);"))
ref(P,'tc copy inc',(F,"auto u_remaining = std::next(u_it);","auto u_remaining = u_it;\n        ++u_remaining;"))
ref(P,'tc continue',(F,"      if (uid < vid) {","      if (!(uid < vid)) { ++u_it; continue; }\n      {"))
F='algorithm/jaccard.hpp'; P='A15'
bug(P,'jac self in set',(F,"      if (tid != uid) { // skip self-loops\n        nbrs[uid].insert(tid);\n      }","      nbrs[uid].insert(tid);"))
bug(P,'jac same set',(F,"const auto& set_b = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[vid] : nbrs[uid];","const auto& set_b = (nbrs[uid].size() < nbrs[vid].size()) ? nbrs[vid] : nbrs[uid];"))
bug(P,'jac union',(F,"size_t union_size = nbrs[uid].size() + nbrs[vid].size() - intersect_size;","size_t union_size = set_a.size() + set_a.size() - intersect_size;"))
bug(P,'jac report self',(F,"      if (vid == uid) {\n        continue;","      if (vid == uid && nbrs[uid].empty()) {\n        continue;"))
bug(P,'jac swapped args',(F,"      out(uid, vid, uv, val);","      if (vid < uid) out(vid, uid, uv, val); else out(uid, vid, uv, val);"))
bug(P,'jac int div',(F,"static_cast<T>(intersect_size) / static_cast<T>(union_size)","static_cast<T>(intersect_size / union_size)"))
ref(P,'jac const refs',(F,"      const auto& set_a = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[uid] : nbrs[vid];\n      const auto& set_b = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[vid] : nbrs[uid];","      const auto& nu = nbrs[uid];\n      const auto& nv = nbrs[vid];\n      const bool sm = nu.size() <= nv.size();\n      const auto& set_a = sm ? nu : nv;\n      const auto& set_b = sm ? nv : nu;"))
ref(P,'jac no smaller',(F,"      const auto& set_a = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[uid] : nbrs[vid];\n      const auto& set_b = (nbrs[uid].size() <= nbrs[vid].size()) ? nbrs[vid] : nbrs[uid];","      const auto& set_a = nbrs[uid];\n      const auto& set_b = nbrs[vid];"))
ref(P,'jac contains',(F,"if (set_b.count(x)) {","if (set_b.contains(x)) {"))
ref(P,'jac find',(F,"if (set_b.count(x)) {","if (set_b.find(x) != set_b.end()) {"))
ref(P,'jac size via ab',(F,"size_t union_size = nbrs[uid].size() + nbrs[vid].size() - intersect_size;","const size_t total = set_a.size() + set_b.size();\n      size_t union_size = total - intersect_size;"))
ref(P,'jac if',(F,"      T val = (union_size == 0) ? T{0}\n","      T val = !union_size ? T{0}\n"))
ref(P,'jac if2',(F,"      if (tid != uid) { // skip self-loops\n        nbrs[uid].insert(tid);\n      }","      if (tid == uid) continue;\n      nbrs[uid].emplace(tid);"))
F='algorithm/label_propagation.hpp'; P='A16'
bug(P,"lp always changed",(F,"      if (!(label[uid] == best)) {","      changed = true;\n      if (!(label[uid] == best)) {"))
bug(P,'lp no shuffle repeat',(F,"  for (T iter = 0; iter < max_iters; ++iter) {\n    std::shuffle(order.begin(), order.end(), rng);","  std::shuffle(order.begin(), order.end(), rng);\n  for (T iter = 0; iter < max_iters; ++iter) {"))
bug(P,'lp shuffle partial',(F,"std::shuffle(order.begin(), order.end(), rng);","std::shuffle(order.begin() + 1, order.end(), rng);"),nth=1)
bug(P,'lp changed reset',(F,"      if (!(label[uid] == best)) {\n        label[uid] = best;\n        changed    = true;\n      }","      changed = false;\n      if (!(label[uid] == best)) {\n        label[uid] = best;\n        changed    = true;\n      }"))
bug(P,'lp dist off',(F,"dist(0, candidates.size() - 1)","dist(0, candidates.size() - 2)"))
bug(P,'lp first cand',(F,"      if (candidates.size() == 1) {","      if (candidates.size() <= 2) {"))
bug(P,'lp cnt >=',(F,"        if (cnt == max_count) {","        if (cnt + 1 >= max_count) {"))
bug(P,'lp max init 1',(F,"      size_t max_count = 0;","      size_t max_count = 2;"))
bug(P,'lp count own',(F,"        ++freq[label[tid]];","        if (tid != uid) ++freq[label[tid]];"))
bug(P,'lp empty best empty',(F,"        if (!(label[tid] == empty_label)) {","        if (!(label[uid] == empty_label) || !(label[tid] == empty_label)) {"))
bug(P,'lp iters',(F,"for (T iter = 0; iter < max_iters; ++iter)","for (T iter = 0; iter <= max_iters; ++iter)"),nth=1)
ref(P,'lp write always',(F,"      if (!(label[uid] == best)) {\n        label[uid] = best;\n        changed    = true;\n      }","      if (!(label[uid] == best)) changed = true;\n      label[uid] = best;"))
ref(P,'lp max sel',(F,"        if (cnt > max_count) {\n          max_count = cnt;\n        }","        max_count = std::max(max_count, cnt);"))
ref(P,'lp while',(F,"  for (T iter = 0; iter < max_iters; ++iter) {","  T iter = 0;\n  while (iter != max_iters) {\n    ++iter;"))
ref(P,'lp index order',(F,"    for (auto uid : order) {","    for (size_t k_ = 0; k_ < order.size(); ++k_) {\n      const auto uid = order[k_];"))
ref(P,'lp hoist freq',(F,"    for (auto uid : order) {","    std::unordered_map<label_type, size_t> freq;\n    for (auto uid : order) {"),(F,"      std::unordered_map<label_type, size_t> freq;\n      for (auto&& uv","      freq.clear();\n      for (auto&& uv"))
ref(P,'lp return instead of break',(F,"    if (!changed) {\n      break; // convergence\n    }","    if (!changed) return;"))
ref(P,'lp always dist',(F,"      if (candidates.size() == 1) {\n        best = candidates[0];\n      } else {\n        std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);\n        best = candidates[dist(rng)];\n      }","      std::uniform_int_distribution<size_t> dist(0, candidates.size() - 1);\n      best = candidates[dist(rng)];"))
ref(P,'lp continue empty',(F,"        if (!(label[tid] == empty_label)) {\n          ++freq[label[tid]];\n        }","        if (label[tid] == empty_label) continue;\n        freq[label[tid]] += 1;"))
ref(P,'lp pairs',(F,"      for (auto& [lbl, cnt] : freq) {\n        if (cnt == max_count) {\n          candidates.push_back(lbl);","      for (const auto& kv : freq) {\n        if (kv.second >= max_count) {\n          candidates.emplace_back(kv.first);"))
ref(P,'lp nonempty nest',(F,"      if (freq.empty()) {\n        continue; // isolated","      if (freq.size() == 0) {\n        continue; // isolated"))

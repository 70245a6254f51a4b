// edge objects of dynamic_graph: what they hold and how they compare in ordered and unordered sets
#define NDEBUG
#include <set>
#include <string>
#include <unordered_set>
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include "dyn_traits.hpp"
namespace gc = graph::container;
using Id = std::uint32_t;
using Tv = vovn_traits<long, int, void, Id, true>;
using Tn = vovn_traits<void, int, void, Id, true>;
using Ts = vovn_traits<std::string, int, void, std::string, true>;
using Ov = Tv::edge_type; using Iv = Tv::in_edge_type;
using On = Tn::edge_type; using In = Tn::in_edge_type;
inline Id far(const Ov& e) { return e.target_id(); }
inline Id far(const On& e) { return e.target_id(); }
inline Id far(const Iv& e) { return e.source_id(); }
inline Id far(const In& e) { return e.source_id(); }
extern "C" {
#define X_(N, E) \
  Id drv_entry_end_##N(const E& e) { return far(e); } \
  Id drv_entry_mk_##N(Id t) { return far(E(t)); } \
  Id drv_entry_cp_##N(const E& e) { E f(e); return far(f); } \
  bool drv_entry_eq_##N(const E& a, const E& b) { return a == b; } \
  bool drv_entry_ne_##N(const E& a, const E& b) { return a != b; } \
  bool drv_entry_lt_##N(const E& a, const E& b) { return a < b; } \
  bool drv_entry_gt_##N(const E& a, const E& b) { return a > b; } \
  bool drv_entry_le_##N(const E& a, const E& b) { return a <= b; } \
  bool drv_entry_ge_##N(const E& a, const E& b) { return a >= b; } \
  std::size_t drv_entry_hash_##N(const E& a) { return std::hash<E>{}(a); }
#define Y_(N, E) \
  const long* drv_entry_val_##N(const E& e) { return &e.value(); } \
  Id drv_entry_mkt_##N(Id t, const long& w) { return far(E(t, w)); } \
  long drv_entry_mkw_##N(Id t, const long& w) { return E(t, w).value(); } \
  long drv_entry_mkr_##N(Id t, long& w) { return E(t, std::move(w)).value(); } \
  Id drv_entry_mks_##N(Id t, long& w) { return far(E(t, std::move(w))); } \
  long drv_entry_cpw_##N(const E& e) { E f(e); return f.value(); }
X_(ov, Ov) X_(on, On) X_(iv, Iv) X_(in, In) Y_(ov, Ov) Y_(iv, Iv)
}
template <class E> concept keyed = std::regular<E> && std::totally_ordered<E> && requires(E e, std::unordered_set<E> s, std::set<E> t) { s.insert(e); t.insert(e); { std::hash<E>{}(e) } noexcept; };
static_assert(keyed<Ov> && keyed<On> && keyed<Iv> && keyed<In> && keyed<Ts::edge_type> && keyed<Ts::in_edge_type>);

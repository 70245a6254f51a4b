// vertex and edge descriptors as values: comparing, ordering, stepping, hashing
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <graph/graph.hpp>
#include "desc_io.hpp"
using Vv = std::vector<std::vector<unsigned>>;
using Vl = std::vector<std::list<unsigned>>;
using Mv = std::map<unsigned, std::vector<unsigned>>;
using Ml = std::map<unsigned, std::list<unsigned>>;
using Uv = std::unordered_map<unsigned, std::vector<unsigned>>;
// what the position says by itself
template <class S> S after(S s) { return ++s; }
template <class S, class T> std::size_t idat(T t) {
  if constexpr (requires(S s) { s->first; }) return H<S>::in(t)->first; else return t;
}
template <class G> using VV = decltype(graph::vertices(std::declval<G&>()));
template <class G> using EV = decltype(graph::edges(std::declval<G&>(), std::declval<VD<G>>()));
template <class G> using VI = std::ranges::iterator_t<VV<G>>;
template <class G> using EI = std::ranges::iterator_t<EV<G>>;
extern "C" {
#define V_(N, G) \
  VT<G> drv_entry_vpos_##N(const VD<G>& a) { return VH<G>::out(a.value()); } \
  std::size_t drv_entry_vid_##N(const VD<G>& a) { return a.vertex_id(); } \
  std::size_t drv_entry_oid_##N(VT<G> a) { return idat<VD<G>::storage_type, VT<G>>(a); } \
  VT<G> drv_entry_nxv_##N(VT<G> a) { return VH<G>::out(after(VH<G>::in(a))); } \
  VT<G> drv_entry_vmk_##N(VT<G> a) { return VH<G>::out(VD<G>(VH<G>::in(a)).value()); } \
  bool drv_entry_veq_##N(const VD<G>& a, const VD<G>& b) { return a == b; } \
  bool drv_entry_vne_##N(const VD<G>& a, const VD<G>& b) { return a != b; } \
  VD<G>* drv_entry_vpre_##N(VD<G>& a) { return &++a; } \
  VT<G> drv_entry_vpost_##N(VD<G>& a) { return VH<G>::out((a++).value()); } \
  std::size_t drv_entry_vhash_##N(const VD<G>& a) { return std::hash<VD<G>>{}(a); }
#define E_(N, G) \
  ET<G> drv_entry_epos_##N(const ED<G>& a) { return EH<G>::out(a.value()); } \
  ET<G> drv_entry_nxe_##N(ET<G> a) { return EH<G>::out(after(EH<G>::in(a))); } \
  VT<G> drv_entry_esrc_##N(const ED<G>& a) { return VH<G>::out(a.source().value()); } \
  ET<G> drv_entry_emk_##N(ET<G> a, VT<G> u) { return EH<G>::out(ED<G>(EH<G>::in(a), VD<G>(VH<G>::in(u))).value()); } \
  VT<G> drv_entry_emks_##N(ET<G> a, VT<G> u) { return VH<G>::out(ED<G>(EH<G>::in(a), VD<G>(VH<G>::in(u))).source().value()); } \
  bool drv_entry_eeq_##N(const ED<G>& a, const ED<G>& b) { return a == b; } \
  bool drv_entry_ene_##N(const ED<G>& a, const ED<G>& b) { return a != b; } \
  ED<G>* drv_entry_epre_##N(ED<G>& a) { return &++a; } \
  ET<G> drv_entry_epost_##N(ED<G>& a) { return EH<G>::out((a++).value()); } \
  VT<G> drv_entry_eposts_##N(ED<G>& a) { return VH<G>::out((a++).source().value()); } \
  std::size_t drv_entry_ehash_##N(const ED<G>& a) { return std::hash<ED<G>>{}(a); }
#define IV_(N, G) \
  VT<G> drv_entry_ipos_##N(const VI<G>& a) { return VH<G>::out((*a).value()); } \
  bool drv_entry_ieq_##N(const VI<G>& a, const VI<G>& b) { return a == b; } \
  bool drv_entry_ine_##N(const VI<G>& a, const VI<G>& b) { return a != b; } \
  VI<G>* drv_entry_ipre_##N(VI<G>& a) { return &++a; } \
  VT<G> drv_entry_ipost_##N(VI<G>& a) { return VH<G>::out((*a++).value()); }
#define IE_(N, G) \
  ET<G> drv_entry_jpos_##N(const EI<G>& a) { return EH<G>::out((*a).value()); } \
  VT<G> drv_entry_jsrc_##N(const EI<G>& a) { return VH<G>::out((*a).source().value()); } \
  bool drv_entry_jeq_##N(const EI<G>& a, const EI<G>& b) { return a == b; } \
  bool drv_entry_jne_##N(const EI<G>& a, const EI<G>& b) { return a != b; } \
  EI<G>* drv_entry_jpre_##N(EI<G>& a) { return &++a; } \
  ET<G> drv_entry_jpost_##N(EI<G>& a) { return EH<G>::out((*a++).value()); } \
  VT<G> drv_entry_jposts_##N(EI<G>& a) { return VH<G>::out((*a++).source().value()); } \
  ET<G> drv_entry_eb_##N(ET<G> b, ET<G> e, VT<G> u) { return EH<G>::out((*EV<G>(EH<G>::in(b), EH<G>::in(e), mkv<G>(u)).begin()).value()); } \
  ET<G> drv_entry_ee_##N(ET<G> b, ET<G> e, VT<G> u) { return EH<G>::out((*EV<G>(EH<G>::in(b), EH<G>::in(e), mkv<G>(u)).end()).value()); } \
  VT<G> drv_entry_es_##N(ET<G> b, ET<G> e, VT<G> u) { return VH<G>::out((*EV<G>(EH<G>::in(b), EH<G>::in(e), mkv<G>(u)).begin()).source().value()); } \
  VT<G> drv_entry_ew_##N(ET<G> b, ET<G> e, VT<G> u) { return VH<G>::out(EV<G>(EH<G>::in(b), EH<G>::in(e), mkv<G>(u)).source().value()); }
#define O_(X, N, D) \
  bool drv_entry_##X##lt_##N(const D& a, const D& b) { return a < b; } \
  bool drv_entry_##X##gt_##N(const D& a, const D& b) { return a > b; } \
  bool drv_entry_##X##le_##N(const D& a, const D& b) { return a <= b; } \
  bool drv_entry_##X##ge_##N(const D& a, const D& b) { return a >= b; }
V_(vv, Vv) E_(vv, Vv) V_(mv, Mv) E_(mv, Mv) V_(uv, Uv) E_(uv, Uv)
E_(vl, Vl) E_(ml, Ml)
IV_(vv, Vv) IV_(mv, Mv) IV_(uv, Uv) IE_(vv, Vv) IE_(vl, Vl) IE_(mv, Mv) IE_(uv, Uv) IE_(ml, Ml)
std::size_t drv_entry_vb_vv(std::size_t b, std::size_t e) { return (*VV<Vv>(b, e).begin()).value(); }
std::size_t drv_entry_ve_vv(std::size_t b, std::size_t e) { return (*VV<Vv>(b, e).end()).value(); }
std::size_t drv_entry_vn_vv(std::size_t b, std::size_t e) { return VV<Vv>(b, e).size(); }
std::size_t drv_entry_en_vv(std::size_t b, std::size_t e, std::size_t u) { return EV<Vv>(b, e, mkv<Vv>(u)).size(); }
O_(v, vv, VD<Vv>) O_(e, vv, ED<Vv>)
}
template <class D> concept usable = std::regular<D> && requires(D a, std::unordered_set<D> s) { s.insert(a); { std::hash<D>{}(a) } noexcept; { a == a } noexcept; };
static_assert(usable<VD<Vv>> && usable<VD<Mv>> && usable<VD<Uv>>);
static_assert(usable<ED<Vv>> && usable<ED<Mv>> && usable<ED<Uv>> && usable<ED<Vl>> && usable<ED<Ml>>);
static_assert(std::totally_ordered<VD<Vv>> && std::totally_ordered<ED<Vv>>);
static_assert(std::incrementable<VD<Vv>> || std::is_same_v<decltype(++std::declval<VD<Vv>&>()), VD<Vv>&>);
template <class R> concept range_ = std::ranges::forward_range<R> && std::ranges::sized_range<R> && std::ranges::view<R> && std::ranges::borrowed_range<R> && std::ranges::common_range<R>;
static_assert(range_<VV<Vv>> && range_<VV<Mv>> && range_<VV<Uv>> && range_<EV<Vv>> && range_<EV<Vl>> && range_<EV<Mv>> && range_<EV<Ml>>);

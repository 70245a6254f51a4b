// elements of edge lists: source, target and value through the generic operations; the edge list descriptor
#include <list>
#include <string>
#include <tuple>
#include <vector>
#include <graph/graph.hpp>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
using U = std::size_t;
using Pr = std::pair<U, U>;
using T2 = std::tuple<U, U>;
using T3 = std::tuple<U, U, U>;
using T4 = std::tuple<U, U, U, long>;
using Dn = graph::edge_data<U, true, void, void>;
using Dv = graph::edge_data<U, true, void, U>;
using De = graph::edge_data<U, true, long, void>;
using Df = graph::edge_data<U, true, long, U>;
using Xn = graph::edge_list::edge_descriptor<U>;
using Xv = graph::edge_list::edge_descriptor<U, U>;
using Xd = graph::edge_list::edge_descriptor<U, double>;
inline U src(const Pr& e) { return e.first; }
inline U tgt(const Pr& e) { return e.second; }
inline U src(const T2& e) { return std::get<0>(e); }
inline U tgt(const T2& e) { return std::get<1>(e); }
inline U src(const T3& e) { return std::get<0>(e); }
inline U tgt(const T3& e) { return std::get<1>(e); }
inline U val(const T3& e) { return std::get<2>(e); }
inline U src(const T4& e) { return std::get<0>(e); }
inline U tgt(const T4& e) { return std::get<1>(e); }
inline U val(const T4& e) { return std::get<2>(e); }
template <class E> requires requires(E e) { e.source_id + e.target_id; } U src(const E& e) { return e.source_id; }
template <class E> requires requires(E e) { e.source_id + e.target_id; } U tgt(const E& e) { return e.target_id; }
template <class E> requires requires(E e) { e.value + 1; } U val(const E& e) { return e.value; }
extern "C" {
#define L_(N, E) \
  U drv_entry_sid_##N(const std::vector<E>& l, const E& e) { return graph::source_id(l, e); } \
  U drv_entry_tid_##N(const std::vector<E>& l, const E& e) { return graph::target_id(l, e); } \
  U drv_entry_sidm_##N(std::list<E>& l, E& e) { return graph::source_id(l, e); } \
  U drv_entry_tidm_##N(std::list<E>& l, E& e) { return graph::target_id(l, e); }
#define LV_(N, E) \
  U drv_entry_val_##N(const std::vector<E>& l, const E& e) { return graph::edge_value(l, e); } \
  U drv_entry_valm_##N(std::list<E>& l, E& e) { return graph::edge_value(l, e); }
#define W_(N, E) \
  U drv_entry_wsid_##N(const std::vector<E>&, const E& e) { return src(e); } \
  U drv_entry_wtid_##N(const std::vector<E>&, const E& e) { return tgt(e); }
#define WV_(N, E) U drv_entry_wval_##N(const std::vector<E>&, const E& e) { return val(e); }
L_(pr, Pr) W_(pr, Pr) L_(t2, T2) W_(t2, T2) L_(t3, T3) W_(t3, T3) L_(t4, T4) W_(t4, T4) L_(dn, Dn) W_(dn, Dn) L_(dv, Dv) W_(dv, Dv) L_(de, De) W_(de, De) L_(df, Df) W_(df, Df)
LV_(t3, T3) WV_(t3, T3) LV_(t4, T4) WV_(t4, T4) LV_(dv, Dv) WV_(dv, Dv) LV_(df, Df) WV_(df, Df)
// a descriptor refers to what it was made from
U drv_entry_csid_xn(const U& s, const U& t, const std::vector<Xn>& l) { return graph::source_id(l, Xn(s, t)); }
U drv_entry_ctid_xn(const U& s, const U& t, const std::vector<Xn>& l) { return graph::target_id(l, Xn(s, t)); }
U drv_entry_csid_xv(const U& s, const U& t, const U& w, const std::vector<Xv>& l) { return graph::source_id(l, Xv(s, t, w)); }
U drv_entry_ctid_xv(const U& s, const U& t, const U& w, const std::vector<Xv>& l) { return graph::target_id(l, Xv(s, t, w)); }
U drv_entry_cval_xv(const U& s, const U& t, const U& w, const std::vector<Xv>& l) { return graph::edge_value(l, Xv(s, t, w)); }
U drv_entry_kval_xv(const U& s, const U& t, const U& w, const std::vector<Xv>& l) { const Xv a(s, t, w), b(a); return graph::edge_value(l, b); }
U drv_entry_ksid_xn(const U& s, const U& t, const std::vector<Xn>& l) { Xn a(s, t), b(std::move(a)); return graph::source_id(l, b); }
U drv_entry_ktid_xn(const U& s, const U& t, const std::vector<Xn>& l) { Xn a(s, t), b(std::move(a)); return graph::target_id(l, b); }
const U* drv_entry_rsid_xv(const U& s, const U& t, const U& w) { return &Xv(s, t, w).source_id(); }
const U* drv_entry_rtid_xv(const U& s, const U& t, const U& w) { return &Xv(s, t, w).target_id(); }
const U* drv_entry_rval_xv(const U& s, const U& t, const U& w) { return &Xv(s, t, w).value(); }
const U* drv_entry_rsid_xn(const U& s, const U& t) { return &Xn(s, t).source_id(); }
const U* drv_entry_rtid_xn(const U& s, const U& t) { return &Xn(s, t).target_id(); }
#define O_(OP, NAME) \
  bool drv_entry_##NAME##_xn(const U& s, const U& t, const U& s2, const U& t2) { return Xn(s, t) OP Xn(s2, t2); } \
  bool drv_entry_##NAME##_xv(const U& s, const U& t, const U& s2, const U& t2, const U& w, const U& w2) { return Xv(s, t, w) OP Xv(s2, t2, w2); }
O_(==, eq) O_(!=, ne) O_(<, lt) O_(>, gt) O_(<=, le) O_(>=, ge)
bool drv_entry_eq_xd(const U& s, const U& t, const U& s2, const U& t2, const double& w, const double& w2) { return Xd(s, t, w) == Xd(s2, t2, w2); }
bool drv_entry_lt_xd(const U& s, const U& t, const U& s2, const U& t2, const double& w, const double& w2) { return Xd(s, t, w) < Xd(s2, t2, w2); }
}
namespace el = graph::edge_list;
template <class E> concept plain = el::basic_sourced_index_edgelist<std::vector<E>> && !el::has_edge_value<std::vector<E>> && el::basic_sourced_index_edgelist<std::list<E>> && el::basic_sourced_index_edgelist<const std::vector<E>>;
template <class E> concept valued = el::basic_sourced_index_edgelist<std::vector<E>> && el::has_edge_value<std::vector<E>> && el::has_edge_value<std::list<E>> && el::has_edge_value<const std::vector<E>>;
static_assert(plain<Pr> && plain<T2> && plain<Dn> && plain<De> && plain<Xn>);
static_assert(valued<T3> && valued<T4> && valued<Dv> && valued<Df> && valued<Xv> && valued<Xd>);
using Sn = std::pair<std::string, std::string>;
using Sv = std::tuple<std::string, std::string, double>;
static_assert(el::basic_sourced_edgelist<std::vector<Sn>> && !el::basic_sourced_index_edgelist<std::vector<Sn>>);
static_assert(el::has_edge_value<std::vector<Sv>> && std::same_as<el::vertex_id_t<std::vector<Sv>>, std::string> && std::same_as<el::edge_value_t<std::vector<Sv>>, double>);
static_assert(std::same_as<el::vertex_id_t<std::vector<Pr>>, U> && std::same_as<el::edge_value_t<std::vector<Xd>>, double>);
static_assert(!el::basic_sourced_edgelist<std::vector<std::vector<U>>> && !el::basic_sourced_edgelist<std::vector<U>>);
static_assert(std::totally_ordered<el::edge_descriptor<std::string, int>> && std::equality_comparable<Xd>);
static_assert(std::three_way_comparable<Xv, std::strong_ordering> && std::three_way_comparable<Xn, std::strong_ordering> && std::three_way_comparable<Xd, std::partial_ordering>);
static_assert(el::is_edge_list_descriptor_v<Xn> && el::is_edge_list_descriptor_v<Xd> && !el::is_edge_list_descriptor_v<Pr>);

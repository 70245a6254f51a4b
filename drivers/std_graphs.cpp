// Ranges of ranges from the standard library used directly as graphs
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <graph/graph.hpp>
#include "desc_io.hpp"
struct MyEdge { long w; int t; int target_id() const { return t; } };
using Vi = std::vector<std::vector<int>>;
using Vp = std::vector<std::vector<std::pair<int, double>>>;
using Vt = std::vector<std::vector<std::tuple<int, double>>>;
using Vtt = std::vector<std::vector<std::tuple<int, double, long>>>;
using Va = std::vector<std::vector<std::array<int, 2>>>;
using Vc = std::vector<std::vector<MyEdge>>;
using Di = std::deque<std::vector<int>>;
using Vl = std::vector<std::list<std::pair<int, double>>>;
using Vf = std::vector<std::forward_list<int>>;
using Vft = std::vector<std::forward_list<std::tuple<int, double>>>;
using Vs = std::vector<std::set<int>>;
using Vm = std::vector<std::map<int, double>>;
using Mp = std::map<unsigned, std::vector<std::pair<unsigned, double>>>;
using Mi = std::map<unsigned, std::vector<unsigned>>;
using Ml = std::map<unsigned, std::list<std::tuple<unsigned, double>>>;
using Up = std::unordered_map<unsigned, std::vector<std::pair<unsigned, double>>>;
extern "C" {
#define G_(N, G) \
  VT<const G> drv_entry_find_##N(const G& g, const graph::vertex_id_t<G>& u) { return VH<const G>::out((*graph::find_vertex(g, u)).value()); } \
  VT<const G> drv_entry_vb_##N(const G& g) { return VH<const G>::out((*graph::vertices(g).begin()).value()); } \
  VT<const G> drv_entry_ve_##N(const G& g) { return VH<const G>::out((*graph::vertices(g).end()).value()); } \
  std::size_t drv_entry_n_##N(const G& g) { return graph::num_vertices(g); } \
  std::size_t drv_entry_id_##N(const G& g, VT<const G> u) { return graph::vertex_id(g, mkv<const G>(u)); } \
  const void* drv_entry_vv_##N(const G& g, VT<const G> u) { return &graph::vertex_value(g, mkv<const G>(u)); } \
  void* drv_entry_vvm_##N(G& g, VT<G> u) { return &graph::vertex_value(g, mkv<G>(u)); } \
  std::size_t drv_entry_deg_##N(const G& g, VT<const G> u) { return graph::degree(g, mkv<const G>(u)); } \
  std::size_t drv_entry_degm_##N(G& g, VT<G> u) { return graph::degree(g, mkv<G>(u)); } \
  std::size_t drv_entry_ne_##N(const G& g, VT<const G> u) { return graph::num_edges(g, mkv<const G>(u)); } \
  std::size_t drv_entry_nem_##N(G& g, VT<G> u) { return graph::num_edges(g, mkv<G>(u)); } \
  ET<G> drv_entry_ebm_##N(G& g, VT<G> u) { return EH<G>::out((*graph::edges(g, mkv<G>(u)).begin()).value()); } \
  ET<G> drv_entry_eem_##N(G& g, VT<G> u) { return EH<G>::out((*graph::edges(g, mkv<G>(u)).end()).value()); } \
  ET<const G> drv_entry_eb_##N(const G& g, VT<const G> u) { return EH<const G>::out((*graph::edges(g, mkv<const G>(u)).begin()).value()); } \
  ET<const G> drv_entry_ee_##N(const G& g, VT<const G> u) { return EH<const G>::out((*graph::edges(g, mkv<const G>(u)).end()).value()); } \
  VT<const G> drv_entry_es_##N(const G& g, VT<const G> u) { return VH<const G>::out((*graph::edges(g, mkv<const G>(u)).begin()).source().value()); } \
  std::size_t drv_entry_tid_##N(const G& g, VT<const G> u, ET<const G> e) { return graph::target_id(g, mke<const G>(e, u)); } \
  std::size_t drv_entry_tidm_##N(G& g, VT<G> u, ET<G> e) { return graph::target_id(g, mke<G>(e, u)); } \
  std::size_t drv_entry_sid_##N(const G& g, VT<const G> u, ET<const G> e) { return graph::source_id(g, mke<const G>(e, u)); } \
  VT<const G> drv_entry_tv_##N(const G& g, VT<const G> u, ET<const G> e) { return VH<const G>::out(graph::target(g, mke<const G>(e, u)).value()); } \
  VT<const G> drv_entry_sv_##N(const G& g, VT<const G> u, ET<const G> e) { return VH<const G>::out(graph::source(g, mke<const G>(e, u)).value()); } \
  const void* drv_entry_ev_##N(const G& g, VT<const G> u, ET<const G> e) { return addr(graph::edge_value(g, mke<const G>(e, u))); } \
  const void* drv_entry_evm_##N(G& g, VT<G> u, ET<G> e) { return addr(graph::edge_value(g, mke<G>(e, u))); } \
  std::size_t drv_entry_m_##N(const G& g) { return graph::num_edges(g); } \
  const void* drv_entry_leo_##N(ET<const G> e) { return obj<ED<const G>::edge_storage_type>(e); } \
  const void* drv_entry_lvk_##N(VT<const G> u) { return ky<VD<const G>::storage_type>(u); } \
  const void* drv_entry_lvm_##N(VT<const G> u) { return mp<VD<const G>::storage_type>(u); } \
  const void* drv_entry_lid_##N(const EL<G>* e) { return &idof(*e); } \
  const void* drv_entry_lva_##N(const EL<G>* e) { return addr(valof(*e)); }
}
template <class T> const void* addr(T& x) { return &x; }
template <class... T> const void* addr(const std::tuple<T&...>& x) { return &std::get<0>(x); }
template <class G> struct inner { using T = typename std::ranges::range_value_t<G>; };
template <class G> requires requires { typename G::mapped_type; } struct inner<G> { using T = typename G::mapped_type; };
template <class G> using EL = std::ranges::range_value_t<typename inner<G>::T>;
// what the documentation says the target and the value of an edge are
inline const int& idof(const int& e) { return e; }
inline const unsigned& idof(const unsigned& e) { return e; }
template <class A, class B> const auto& idof(const std::pair<A, B>& e) { return e.first; }
template <class... T> const auto& idof(const std::tuple<T...>& e) { return std::get<0>(e); }
template <std::size_t N> const auto& idof(const std::array<int, N>& e) { return std::get<0>(e); }
inline const auto& idof(const MyEdge& e) { return e.t; }
inline const int& valof(const int& e) { return e; }
inline const unsigned& valof(const unsigned& e) { return e; }
template <class A, class B> const auto& valof(const std::pair<A, B>& e) { return e.second; }
template <class A, class B> const auto& valof(const std::tuple<A, B>& e) { return std::get<1>(e); }
template <class A, class B, class C> const auto& valof(const std::tuple<A, B, C>& e) { return std::get<1>(e); }
inline const auto& valof(const std::array<int, 2>& e) { return std::get<1>(e); }
inline const auto& valof(const MyEdge& e) { return e; }
extern "C" {
G_(vi, Vi) G_(vp, Vp) G_(vt, Vt) G_(vtt, Vtt) G_(va, Va) G_(vc, Vc) G_(di, Di) G_(vl, Vl) G_(vf, Vf) G_(vft, Vft) G_(vs, Vs) G_(vm, Vm)
G_(mp, Mp) G_(mi, Mi) G_(ml, Ml) G_(up, Up)
}
// documented types
template <class G> using EVT = decltype(graph::edge_value(std::declval<G&>(), std::declval<ED<G>>()));
template <class G> using TID = std::remove_cvref_t<decltype(graph::target_id(std::declval<G&>(), std::declval<ED<G>>()))>;
template <class T, class U> concept same = std::same_as<T, U>;
static_assert(same<graph::vertex_id_t<Vi>, std::size_t>);
static_assert(same<graph::vertex_id_t<Di>, std::size_t>);
static_assert(same<graph::vertex_id_t<Mp>, unsigned>);
static_assert(same<graph::vertex_id_t<std::map<std::string, std::vector<std::pair<std::string, double>>>>, std::string>);
static_assert(same<graph::vertex_id_t<std::unordered_map<std::string, std::vector<std::string>>>, std::string>);
static_assert(same<TID<std::map<std::string, std::vector<std::pair<std::string, double>>>>, std::string>);
static_assert(same<std::remove_cvref_t<EVT<Vi>>, int>);
static_assert(same<EVT<Vp>, double&>);
static_assert(same<EVT<const Vp>, const double&>);
static_assert(same<EVT<Vt>, double&>);
static_assert(same<EVT<Vtt>, std::tuple<double&, long&>>);
static_assert(same<EVT<const Vtt>, std::tuple<const double&, const long&>>);
static_assert(same<EVT<Vc>, MyEdge&>);
static_assert(same<std::remove_cvref_t<EVT<Di>>, int>);
static_assert(same<EVT<Mp>, double&>);
static_assert(same<EVT<Up>, double&>);
static_assert(same<std::remove_cvref_t<EVT<Vs>>, int>);
static_assert(same<EVT<Vm>, double&>);
static_assert(graph::adj_list::adjacency_list<Vi> && graph::adj_list::index_adjacency_list<Vi>);
static_assert(graph::adj_list::index_adjacency_list<Vp> && graph::adj_list::index_adjacency_list<Vt> && graph::adj_list::index_adjacency_list<Vtt>);
static_assert(graph::adj_list::index_adjacency_list<Vc> && graph::adj_list::index_adjacency_list<Di> && graph::adj_list::index_adjacency_list<Vs>);
static_assert(graph::adj_list::index_adjacency_list<const Vi> && graph::adj_list::index_adjacency_list<const Vp>);
static_assert(graph::adj_list::index_adjacency_list<Vl> && graph::adj_list::index_adjacency_list<Vf> && graph::adj_list::index_adjacency_list<Vm>);
static_assert(graph::adj_list::adjacency_list<Mp> && !graph::adj_list::index_adjacency_list<Mp>);
static_assert(graph::adj_list::adjacency_list<Up> && !graph::adj_list::index_adjacency_list<Up>);
static_assert(graph::adj_list::adjacency_list<const Mp> && graph::adj_list::adjacency_list<const Up>);
template <template <class...> class V, template <class...> class E> using Three = V<E<std::tuple<int, double, long>>>;
template <class E> using ByKey = std::map<int, E>;
static_assert(same<EVT<Three<std::vector, std::list>>, std::tuple<double&, long&>>);
static_assert(same<EVT<const Three<std::vector, std::list>>, std::tuple<const double&, const long&>>);
static_assert(same<EVT<ByKey<std::vector<std::tuple<int, double, long>>>>, std::tuple<double&, long&>>);
static_assert(same<EVT<const ByKey<std::vector<std::tuple<int, double, long>>>>, std::tuple<const double&, const long&>>);
static_assert(same<EVT<ByKey<std::list<std::tuple<int, double, long>>>>, std::tuple<double&, long&>>);
static_assert(same<EVT<const ByKey<std::list<std::tuple<int, double, long>>>>, std::tuple<const double&, const long&>>);
static_assert(same<EVT<Vl>, double&> && same<EVT<const Vl>, const double&> && same<EVT<Vft>, double&> && same<EVT<const Vft>, const double&>);
static_assert(same<EVT<Ml>, double&> && same<EVT<const Ml>, const double&> && same<EVT<const Mp>, const double&> && same<EVT<const Vc>, const MyEdge&>);

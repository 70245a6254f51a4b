// dynamic_graph: loaders over an unknown graph object, for each kind of vertex and edge container
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include "dyn_traits.hpp"
namespace gc = graph::container;
using Id = std::uint32_t;
struct Val { int x; Val(); Val(const Val&); Val(Val&&) noexcept; Val& operator=(const Val&); Val& operator=(Val&&) noexcept; ~Val(); };
template <template <class, class, class, class, bool> class T, class EV, class VV, bool B>
using DG = gc::dynamic_graph<EV, VV, void, Id, B, T<EV, VV, void, Id, B>>;
using E  = graph::copyable_edge_t<Id, long>;
using E0 = graph::copyable_edge_t<Id, void>;
using V  = graph::copyable_vertex_t<Id, Val>;
using V0 = graph::copyable_vertex_t<Id, void>;
struct EP { const E& operator()(const E& e) const noexcept { return e; } const E0& operator()(const E0& e) const noexcept { return e; } };
struct VP { V& operator()(V& v) const noexcept { return v; } const V& operator()(const V& v) const noexcept { return v; } };
struct Uns : std::ranges::view_base { std::vector<V>* v; struct S { std::vector<V>::iterator e; friend bool operator==(const std::vector<V>::iterator& i, const S& s) { return i == s.e; } }; auto begin() const { return v->begin(); } S end() const { return S{v->end()}; } };
static_assert(!std::ranges::sized_range<Uns>);
using Vov = DG<gc::vov_graph_traits, long, Val, true>;
using Vov0 = DG<gc::vov_graph_traits, void, void, false>;
using Vovb = DG<gc::vov_graph_traits, void, void, true>;
using Vofl = DG<gc::vofl_graph_traits, long, void, true>;
using Vol = DG<gc::vol_graph_traits, long, void, false>;
using Vos = DG<gc::vos_graph_traits, long, void, true>;
using Vous = DG<gc::vous_graph_traits, long, void, false>;
using Vom = DG<gc::vom_graph_traits, long, void, true>;
using Voum = DG<gc::voum_graph_traits, long, void, false>;
using Dov = DG<gc::dov_graph_traits, long, Val, false>;
using Mov = DG<gc::mov_graph_traits, long, Val, true>;
using Mov0 = DG<gc::mov_graph_traits, void, void, true>;
using Vovn = DG<vovn_traits, long, void, true>;
using Voln = DG<voln_traits, long, void, true>;
using Uov = DG<gc::uov_graph_traits, long, Val, false>;
#define LE(N, G, EE) void drv_entry_load_##N(G& g, std::vector<EE>& e, std::size_t n, std::size_t m) { g.load_edges(e, EP{}, n, m); }
#define LV(N, G) \
  void drv_entry_loadv_##N##_c(G& g, const std::vector<V>& v, std::size_t n) { g.load_vertices(v, VP{}, n); } \
  void drv_entry_loadv_##N##_r(G& g, std::vector<V>&& v, std::size_t n) { g.load_vertices(std::move(v), VP{}, n); } \
  void drv_entry_loadv_##N##_l(G& g, std::vector<V>& v, std::size_t n) { g.load_vertices(v, VP{}, n); }
#define SZ(N, G) std::size_t drv_entry_count_##N(const G& g) { return graph::num_edges(g); }
extern "C" {
LE(vov, Vov, E) LE(vov0, Vov0, E0) LE(vovb, Vovb, E0) LE(vofl, Vofl, E) LE(vol, Vol, E) LE(vos, Vos, E) LE(vous, Vous, E)
LE(vom, Vom, E) LE(voum, Voum, E) LE(dov, Dov, E) LE(mov, Mov, E) LE(mov0, Mov0, E0) LE(uov, Uov, E) LE(vovn, Vovn, E) LE(voln, Voln, E)
void drv_entry_loadv_vov_u(Vov& g, std::vector<V>& v, std::size_t n) { g.load_vertices(Uns{{}, &v}, VP{}, n); }
LV(vov, Vov) LV(dov, Dov) LV(mov, Mov) LV(uov, Uov)
SZ(vov, Vov) SZ(vov0, Vov0) SZ(vovb, Vovb) SZ(vofl, Vofl) SZ(vol, Vol) SZ(vos, Vos) SZ(vous, Vous) SZ(vom, Vom) SZ(voum, Voum) SZ(dov, Dov) SZ(mov, Mov) SZ(mov0, Mov0) SZ(uov, Uov) SZ(vovn, Vovn) SZ(voln, Voln)
#define LY(N, G) Id drv_entry_lt_##N(const typename G::edge_type* e) { return e->target_id(); }
#define LYV(N, G) long drv_entry_le_##N(const typename G::edge_type* e) { return e->value(); }
#define LYO(N, G) const void* drv_entry_lo_##N(const G::vertex_type* v) { return &v->edges(); }
#define LYI(N, G) const void* drv_entry_li_##N(const G::vertex_type* v) { return &v->in_edges(); }
#define LYW(N, G) const void* drv_entry_lv_##N(const G::vertex_type* v) { return &v->value(); }
#define LYN(N, G) \
  Id drv_entry_lit_##N(const typename G::in_edge_type* e) { return e->source_id(); } \
  long drv_entry_liv_##N(const typename G::in_edge_type* e) { return e->value(); }
LYN(vovn, Vovn) LYN(voln, Voln)
LYI(vovn, Vovn) LYI(voln, Voln) LYI(vov, Vov) LYI(vovb, Vovb) LYI(vofl, Vofl) LYI(vos, Vos) LYI(vom, Vom) LYI(mov, Mov) LYI(mov0, Mov0)
LYW(vov, Vov) LYW(dov, Dov) LYW(mov, Mov) LYW(uov, Uov)
#define L2(N, G) LY(N, G) LYO(N, G)
L2(vov, Vov) L2(vov0, Vov0) L2(vovb, Vovb) L2(vofl, Vofl) L2(vol, Vol) L2(vos, Vos) L2(vous, Vous) L2(vom, Vom) L2(voum, Voum) L2(dov, Dov) L2(mov, Mov) L2(mov0, Mov0) L2(uov, Uov) L2(vovn, Vovn) L2(voln, Voln)
LYV(vov, Vov) LYV(vofl, Vofl) LYV(vol, Vol) LYV(vos, Vos) LYV(vous, Vous) LYV(vom, Vom) LYV(voum, Voum) LYV(dov, Dov) LYV(mov, Mov) LYV(uov, Uov) LYV(vovn, Vovn) LYV(voln, Voln)
Id drv_entry_lay_s(const E* e) { return e->source_id; }
Id drv_entry_lay_t(const E* e) { return e->target_id; }
long drv_entry_lay_v(const E* e) { return e->value; }
Id drv_entry_lay_s0(const E0* e) { return e->source_id; }
Id drv_entry_lay_t0(const E0* e) { return e->target_id; }
Id drv_entry_lay_i(const V* e) { return e->id; }
const Val* drv_entry_lay_vv(const V* e) { return &e->value; }
}

// Customisation: graphs that bring their own version of an operation, as a member, as a free function, or both
#include <graph/graph.hpp>
#include <vector>
using Base = std::vector<std::vector<int>>;
using U = graph::vertex_t<Base>;
using E = graph::edge_t<Base>;
using In = graph::adj_list::edge_descriptor<Base::value_type::iterator, Base::iterator, graph::adj_list::in_edge_tag>;
using VI = graph::adj_list::vertex_descriptor_view<Base::iterator>::iterator;
using EI = std::ranges::iterator_t<graph::adj_list::edge_descriptor_view<Base::value_type::iterator, Base::iterator>>;
using Id = std::size_t;
struct Val { int x; };
// with DRV_VIT the graphs also name the type of their vertex ids
#ifdef DRV_VIT
#define VIT using vertex_id_type = Id;
#else
#define VIT
#endif

// a marker is handed one word for a vertex or an id, two for an edge
#define ONE(N, F, RET, RAW, WRAP, UNWRAP, PUB, PAR, SIG, WRD, ARG, MARK) \
  extern "C" RAW drv_v_m_##N(const void* MARK); \
  extern "C" RAW drv_v_a_##N(const void* MARK); \
  struct M_##N : Base { VIT \
    RET F PAR const { return WRAP(drv_v_m_##N(this WRD)); } \
    friend RET F(const M_##N& g SIG) { return WRAP(drv_v_a_##N(&g WRD)); } \
  }; \
  struct A_##N : Base { VIT \
    friend RET F(const A_##N& g SIG) { return WRAP(drv_v_a_##N(&g WRD)); } \
  };
#define ENT(N, PUB, RAW, UNWRAP, ESIG, EARG) \
  extern "C" RAW drv_entry_m_##N(M_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); } \
  extern "C" RAW drv_entry_a_##N(A_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); } \
  extern "C" RAW drv_entry_cm_##N(const M_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); } \
  extern "C" RAW drv_entry_ca_##N(const A_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); }
#define K ,
// no argument
#define NUL(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (), , , , ) ENT(N, F, RAW, UNWRAP, , )
// a vertex, an id, two of them, an edge
#define ARGU(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (const U& u), K const U& u, K u.value(), , K Id) ENT(N, F, RAW, UNWRAP, K Id u, K U(u))
#define ARGI(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (Id u), K Id u, K u, , K Id) ENT(N, F, RAW, UNWRAP, K Id u, K u)
#define ARGUU(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (const U& u K const U& v), K const U& u K const U& v, K u.value() K v.value(), , K Id K Id) ENT(N, F, RAW, UNWRAP, K Id u K Id v, K U(u) K U(v))
#define ARGUI(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (const U& u K Id v), K const U& u K Id v, K u.value() K v, , K Id K Id) ENT(N, F, RAW, UNWRAP, K Id u K Id v, K U(u) K v)
#define ARGII(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (Id u K Id v), K Id u K Id v, K u K v, , K Id K Id) ENT(N, F, RAW, UNWRAP, K Id u K Id v, K u K v)
#define ARGE(N, F, RET, RAW, WRAP, UNWRAP) \
  ONE(N, F, RET, RAW, WRAP, UNWRAP, F, (const E& e), K const E& e, K e.value() K e.source().value(), , K Id K Id) ENT(N, F, RAW, UNWRAP, K Id e K Id u, K E(e K U(u)))
#define SAME
inline VI vi(Id i) { return VI(i); }
inline Id unvi(VI i) { return (*i).value(); }
inline U vu(Id i) { return U(i); }
inline Id unu(const U& u) { return u.value(); }
inline EI ei(Id i) { return EI(i, U(7)); }
inline Id unei(EI i) { return (*i).value(); }
inline Val& vr(void* p) { return *static_cast<Val*>(p); }
inline void* unvr(Val& v) { return &v; }
NUL(n, num_vertices, Id, Id, SAME, SAME)
ARGI(np, num_vertices, Id, Id, SAME, SAME)
NUL(m, num_edges, Id, Id, SAME, SAME)
ARGU(mu, num_edges, Id, Id, SAME, SAME)
ARGI(mi, num_edges, Id, Id, SAME, SAME)
ARGU(du, degree, Id, Id, SAME, SAME)
ARGI(di, degree, Id, Id, SAME, SAME)
ARGU(idu, in_degree, Id, Id, SAME, SAME)
ARGI(idi, in_degree, Id, Id, SAME, SAME)
ARGI(fv, find_vertex, VI, Id, vi, unvi)
ARGUU(fuu, find_vertex_edge, EI, Id, ei, unei)
ARGUI(fui, find_vertex_edge, EI, Id, ei, unei)
ARGII(fii, find_vertex_edge, EI, Id, ei, unei)
ARGUU(iuu, find_in_edge, EI, Id, ei, unei)
ARGUI(iui, find_in_edge, EI, Id, ei, unei)
ARGII(iii, find_in_edge, EI, Id, ei, unei)
ARGUU(cuu, contains_edge, bool, bool, SAME, SAME)
ARGII(cii, contains_edge, bool, bool, SAME, SAME)
ARGUU(ciuu, contains_in_edge, bool, bool, SAME, SAME)
ARGII(ciii, contains_in_edge, bool, bool, SAME, SAME)
ARGU(pid, partition_id, Id, Id, SAME, SAME)
NUL(parts, num_partitions, Id, Id, SAME, SAME)
ARGU(vv, vertex_value, Val&, void*, vr, unvr)
NUL(gv, graph_value, Val&, void*, vr, unvr)
ARGE(ev, edge_value, Val&, void*, vr, unvr)
ARGE(sid, source_id, Id, Id, SAME, SAME)
ARGE(tgt, target, U, Id, vu, unu)
ARGE(src, source, U, Id, vu, unu)
#define ALIAS(N, PUB, RAW, UNWRAP, ESIG, EARG) \
  extern "C" RAW drv_entry_m_##N##_alias(M_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); } \
  extern "C" RAW drv_entry_a_##N##_alias(A_##N& g ESIG) { return UNWRAP(graph::PUB(g EARG)); }
ALIAS(du, out_degree, Id, SAME, K Id u, K U(u))
ALIAS(di, out_degree, Id, SAME, K Id u, K u)
ALIAS(fuu, find_out_edge, Id, unei, K Id u K Id v, K U(u) K U(v))
ALIAS(fui, find_out_edge, Id, unei, K Id u K Id v, K U(u) K v)
ALIAS(fii, find_out_edge, Id, unei, K Id u K Id v, K u K v)
ALIAS(cuu, contains_out_edge, bool, SAME, K Id u K Id v, K U(u) K U(v))
ALIAS(cii, contains_out_edge, bool, SAME, K Id u K Id v, K u K v)
// ranges: the marker gives the first and the last position
using VV = graph::adj_list::vertex_descriptor_view<Base::iterator>;
using EV = graph::adj_list::edge_descriptor_view<Base::value_type::iterator, Base::iterator>;
using IV = graph::adj_list::edge_descriptor_view<Base::value_type::iterator, Base::iterator, graph::adj_list::in_edge_tag>;
#define RNG(N, F, PUB, VIEW, MAKE, SIG, WRD, ARG, ESIG, EARG, MEM) \
  extern "C" Id drv_v_m_##N##_b(const void* ARG); \
  extern "C" Id drv_v_m_##N##_e(const void* ARG); \
  extern "C" Id drv_v_a_##N##_b(const void* ARG); \
  extern "C" Id drv_v_a_##N##_e(const void* ARG); \
  struct A_##N : Base { VIT friend VIEW F(const A_##N& g SIG) { return MAKE(drv_v_a_##N##_b(&g WRD), drv_v_a_##N##_e(&g WRD)); } }; \
  extern "C" Id drv_entry_a_##N##_b(A_##N& g ESIG) { return (*graph::PUB(g EARG).begin()).value(); } \
  extern "C" Id drv_entry_a_##N##_e(A_##N& g ESIG) { return (*graph::PUB(g EARG).end()).value(); } \
  MEM
inline VV mkvv(Id b, Id e) { return VV(b, e); }
inline EV mkev(Id b, Id e) { return EV(b, e, U(7)); }
inline IV mkiv(Id b, Id e) { return IV(b, e, U(7)); }
#define RMEM(N, F, PUB, VIEW, MAKE, PAR, SIG, WRD, ESIG, EARG) \
  struct M_##N : Base { VIT VIEW F PAR const { return MAKE(drv_v_m_##N##_b(this WRD), drv_v_m_##N##_e(this WRD)); } \
    friend VIEW F(const M_##N& g SIG) { return MAKE(drv_v_a_##N##_b(&g WRD), drv_v_a_##N##_e(&g WRD)); } }; \
  extern "C" Id drv_entry_m_##N##_b(M_##N& g ESIG) { return (*graph::PUB(g EARG).begin()).value(); } \
  extern "C" Id drv_entry_m_##N##_e(M_##N& g ESIG) { return (*graph::PUB(g EARG).end()).value(); }
RNG(vs, vertices, vertices, VV, mkvv, , , , , , RMEM(vs, vertices, vertices, VV, mkvv, (), , , , ))
RNG(vp, vertices, vertices, VV, mkvv, K Id p, K p, K Id, K Id p, K p, RMEM(vp, vertices, vertices, VV, mkvv, (Id p), K Id p, K p, K Id p, K p))
RNG(eu, edges, edges, EV, mkev, K const U& u, K u.value(), K Id, K Id u, K U(u), )
RNG(oeu, edges, out_edges, EV, mkev, K const U& u, K u.value(), K Id, K Id u, K U(u), )
RNG(eid, edges, edges, EV, mkev, K Id u, K u, K Id, K Id u, K u, )
RNG(ieu, in_edges, in_edges, IV, mkiv, K const U& u, K u.value(), K Id, K Id u, K U(u), )
RNG(ieid, in_edges, in_edges, IV, mkiv, K Id u, K u, K Id, K Id u, K u, )
// has_edges is customised as has_edge
extern "C" bool drv_v_m_has(const void*);
extern "C" bool drv_v_a_has(const void*);
struct M_has : Base { bool has_edge() const { return drv_v_m_has(this); } friend bool has_edge(const M_has& g) { return drv_v_a_has(&g); } };
struct A_has : Base { friend bool has_edge(const A_has& g) { return drv_v_a_has(&g); } };
ENT(has, has_edges, bool, SAME, , )
// free functions only
extern "C" Id drv_v_a_vid(const void*, Id);
struct A_vid : Base { friend Id vertex_id(const A_vid& g, const U& u) { return drv_v_a_vid(&g, u.value()); } };
extern "C" Id drv_entry_a_vid(A_vid& g, Id u) { return graph::vertex_id(g, U(u)); }
extern "C" Id drv_v_a_tid(const void*, Id, Id);
struct A_tid : Base { friend Id target_id(const A_tid& g, const E& e) { return drv_v_a_tid(&g, e.value(), e.source().value()); } };
extern "C" Id drv_entry_a_tid(A_tid& g, Id e, Id u) { return graph::target_id(g, E(e, U(u))); }
// a customised source or target may be an iterator
#define ITER(N, F) \
  extern "C" Id drv_v_m_##N(const void*, Id, Id); \
  extern "C" Id drv_v_a_##N(const void*, Id, Id); \
  struct M_##N : Base { VI F(const E& e) const { return VI(drv_v_m_##N(this, e.value(), e.source().value())); } }; \
  struct A_##N : Base { friend VI F(const A_##N& g, const E& e) { return VI(drv_v_a_##N(&g, e.value(), e.source().value())); } }; \
  ENT(N, F, Id, unu, K Id e K Id u, K E(e K U(u)))
ITER(tgti, target)
ITER(srci, source)
// a customised range of plain elements becomes descriptors of the vertex that was asked for
extern "C" const std::vector<int>* drv_v_a_raw(const void*, Id);
#define RAWR(N, F, T, SIG, WRD, CV) \
  struct A_##N : Base { VIT friend const std::vector<int>& F(const A_##N& g, SIG) { return *drv_v_a_raw(&g, WRD); } }; \
  extern "C" Id drv_entry_raw_b_##N(A_##N& g, Id u) { return (*graph::F(g, CV).begin()).value(); } \
  extern "C" Id drv_entry_raw_e_##N(A_##N& g, Id u) { return (*graph::F(g, CV).end()).value(); } \
  extern "C" Id drv_entry_raw_s_##N(A_##N& g, Id u) { return (*graph::F(g, CV).begin()).source().value(); }
RAWR(eru, edges, EV, const U& u, u.value(), U(u))
RAWR(eri, edges, EV, Id u, u, u)
RAWR(iru, in_edges, IV, const U& u, u.value(), U(u))
RAWR(iri, in_edges, IV, Id u, u, u)
// the value operations give back exactly the type of the customisation
#define VAL(N, F, PAR, SIG, ARGS) \
  template <class R> struct N##M : Base { R F PAR const; }; \
  template <class R> struct N##N_ : Base { R F PAR; }; \
  template <class R> struct N##F_ : Base { friend R F(const N##F_& g SIG) { return g.get(); } R get() const; }; \
  template <class R> struct N##L_ : Base { friend R F(N##L_& g SIG) { return g.get(); } R get() const; }; \
  template <class G> using N##T = decltype(graph::F(std::declval<G&>() ARGS)); \
  template <class R> constexpr bool N##ok = std::same_as<N##T<N##M<R>>, R> && std::same_as<N##T<const N##M<R>>, R> && std::same_as<N##T<N##N_<R>>, R> \
    && std::same_as<N##T<N##F_<R>>, R> && std::same_as<N##T<const N##F_<R>>, R> && std::same_as<N##T<N##L_<R>>, R>; \
  static_assert(N##ok<Val> && N##ok<Val&> && N##ok<const Val&> && N##ok<Val&&> && N##ok<Val*>);
VAL(gv, graph_value, (), , )
VAL(vv, vertex_value, (const U&), K const U&, K std::declval<U>())
VAL(ev, edge_value, (const E&), K const E&, K std::declval<E>())

// Opaque graphs used by the IR drivers: every graph query is an undefined extern with scalar
// arguments, so after inlining the library wrappers disappear and only these events remain.
#pragma once
#include <graph/graph.hpp>
#include <graph/views.hpp>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <optional>

#ifdef DRV_THROWS // every operation of the user may throw
#define DRV_NX
#define DRV_PURE
#else
#define DRV_NX noexcept
#define DRV_PURE noexcept __attribute__((const))
#endif
extern "C" {
// pure queries of the (immutable) graph g, and of the second graph g_t (prefix t_)
std::size_t   drv_q_num_vertices() DRV_PURE;
std::size_t   drv_q_edges_begin(std::size_t u) DRV_PURE;
std::size_t   drv_q_edges_end(std::size_t u) DRV_PURE;
std::uint32_t drv_q_target(std::size_t e, std::size_t u) DRV_PURE;
std::size_t   drv_q_in_edges_begin(std::size_t u) DRV_PURE;
std::size_t   drv_q_in_edges_end(std::size_t u) DRV_PURE;
std::uint32_t drv_q_in_source(std::size_t e, std::size_t u) DRV_PURE;
int           drv_q_edge_value(std::size_t e, std::size_t u) DRV_PURE;
int           drv_q_in_edge_value(std::size_t e, std::size_t u) DRV_PURE;
int           drv_q_vertex_value(std::size_t u) DRV_PURE;
std::size_t   drv_q_t_num_vertices() DRV_PURE;
std::size_t   drv_q_t_edges_begin(std::size_t u) DRV_PURE;
std::size_t   drv_q_t_edges_end(std::size_t u) DRV_PURE;
std::uint32_t drv_q_t_target(std::size_t e, std::size_t u) DRV_PURE;
// user supplied function objects
int  drv_q_weight(std::size_t e, std::size_t u) DRV_PURE;
bool drv_q_compare(int a, int b) DRV_PURE;
int  drv_q_combine(int a, int b) DRV_PURE;
double drv_q_fp_weight(std::size_t e, std::size_t u) DRV_PURE;
bool drv_q_fp_compare(double a, double b) DRV_PURE;
double drv_q_fp_combine(double a, double b) DRV_PURE;
int  drv_q_vvf(std::size_t u) DRV_PURE;
int  drv_q_evf(std::size_t e, std::size_t u) DRV_PURE;
// user supplied output iterator
void drv_v_out(std::uint32_t v);
}
namespace og {
struct VRec { int x; };
struct ERec { int y; };
using VIter = VRec*;
using EIter = ERec*;
using VD    = graph::adj_list::vertex_descriptor<VIter>;
using VView = graph::adj_list::vertex_descriptor_view<VIter>;
using EView = graph::adj_list::edge_descriptor_view<EIter, VIter>;
using ED    = typename EView::edge_desc;
using IView = graph::adj_list::edge_descriptor_view<EIter, VIter, graph::adj_list::in_edge_tag>;
using IED   = typename IView::edge_desc;
using id_t  = std::uint32_t;

class G { // no constructor: cannot be created or changed by the library
public:
  G()                    = delete;
  G(const G&)            = delete;
  G& operator=(const G&) = delete;
};
inline VView vertices(const G&) DRV_NX { return VView(std::size_t{0}, drv_q_num_vertices()); }
inline std::size_t num_vertices(const G&) DRV_NX { return drv_q_num_vertices(); }
inline typename VView::iterator find_vertex(const G&, id_t uid) DRV_NX { return typename VView::iterator(uid); }
inline id_t vertex_id(const G&, const VD& u) DRV_NX { return static_cast<id_t>(u.value()); }
inline EView edges(const G&, const VD& u) DRV_NX {
  return EView(drv_q_edges_begin(u.value()), drv_q_edges_end(u.value()), u);
}
inline id_t target_id(const G&, const ED& uv) DRV_NX { return drv_q_target(uv.value(), uv.source().value()); }
inline int  edge_value(const G&, const ED& uv) DRV_NX { return drv_q_edge_value(uv.value(), uv.source().value()); }
inline int  vertex_value(const G&, const VD& u) DRV_NX { return drv_q_vertex_value(u.value()); }

// the transpose passed as a second argument
class GT {
public:
  GT()                     = delete;
  GT(const GT&)            = delete;
  GT& operator=(const GT&) = delete;
};
inline VView vertices(const GT&) DRV_NX { return VView(std::size_t{0}, drv_q_t_num_vertices()); }
inline std::size_t num_vertices(const GT&) DRV_NX { return drv_q_t_num_vertices(); }
inline typename VView::iterator find_vertex(const GT&, id_t uid) DRV_NX { return typename VView::iterator(uid); }
inline id_t vertex_id(const GT&, const VD& u) DRV_NX { return static_cast<id_t>(u.value()); }
inline EView edges(const GT&, const VD& u) DRV_NX {
  return EView(drv_q_t_edges_begin(u.value()), drv_q_t_edges_end(u.value()), u);
}
inline id_t target_id(const GT&, const ED& uv) DRV_NX { return drv_q_t_target(uv.value(), uv.source().value()); }

// a bidirectional graph
class GB {
public:
  GB()                     = delete;
  GB(const GB&)            = delete;
  GB& operator=(const GB&) = delete;
};
inline VView vertices(const GB&) DRV_NX { return VView(std::size_t{0}, drv_q_num_vertices()); }
inline std::size_t num_vertices(const GB&) DRV_NX { return drv_q_num_vertices(); }
inline typename VView::iterator find_vertex(const GB&, id_t uid) DRV_NX { return typename VView::iterator(uid); }
inline id_t vertex_id(const GB&, const VD& u) DRV_NX { return static_cast<id_t>(u.value()); }
inline EView edges(const GB&, const VD& u) DRV_NX {
  return EView(drv_q_edges_begin(u.value()), drv_q_edges_end(u.value()), u);
}
inline id_t target_id(const GB&, const ED& uv) DRV_NX { return drv_q_target(uv.value(), uv.source().value()); }
inline IView in_edges(const GB&, const VD& u) DRV_NX {
  return IView(drv_q_in_edges_begin(u.value()), drv_q_in_edges_end(u.value()), u);
}
inline id_t source_id(const GB&, const IED& uv) DRV_NX { return drv_q_in_source(uv.value(), uv.source().value()); }
inline id_t target_id(const GB&, const IED& uv) DRV_NX { return static_cast<id_t>(uv.source().value()); }
inline int edge_value(const GB&, const ED& uv) DRV_NX { return drv_q_edge_value(uv.value(), uv.source().value()); }
inline int edge_value(const GB&, const IED& uv) DRV_NX { return drv_q_in_edge_value(uv.value(), uv.source().value()); }

// user function objects
struct Weight {
  int operator()(const G&, const ED& uv) const DRV_NX { return drv_q_weight(uv.value(), uv.source().value()); }
};
struct Compare { bool operator()(int a, int b) const DRV_NX { return drv_q_compare(a, b); } };
struct Combine { int operator()(int a, int b) const DRV_NX { return drv_q_combine(a, b); } };
struct WeightF {
  double operator()(const G&, const ED& uv) const DRV_NX { return drv_q_fp_weight(uv.value(), uv.source().value()); }
};
struct CompareF { bool operator()(double a, double b) const DRV_NX { return drv_q_fp_compare(a, b); } };
struct CombineF { double operator()(double a, double b) const DRV_NX { return drv_q_fp_combine(a, b); } };
struct VVF { int operator()(const G&, const VD& u) const DRV_NX { return drv_q_vvf(u.value()); } };
struct EVF { int operator()(const G&, const ED& uv) const DRV_NX { return drv_q_evf(uv.value(), uv.source().value()); } };
// user output iterator: every value stored through it is one event
struct OutIt {
  using iterator_category = std::output_iterator_tag;
  using value_type        = void;
  using difference_type   = std::ptrdiff_t;
  using pointer           = void;
  using reference         = void;
  OutIt& operator*() DRV_NX { return *this; }
  OutIt& operator++() DRV_NX { return *this; }
  OutIt  operator++(int) DRV_NX { return *this; }
  OutIt& operator=(id_t v) { drv_v_out(v); return *this; }
};
} // namespace og
static_assert(graph::adj_list::index_adjacency_list<const og::G>);
static_assert(graph::adj_list::index_adjacency_list<const og::GT>);
static_assert(graph::adj_list::index_bidirectional_adjacency_list<const og::GB>);

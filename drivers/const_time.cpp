// dynamic_graph: operations with a documented cost, over keyed edge containers and every kind of vertex container
#define NDEBUG
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include "desc_io.hpp"
namespace gc = graph::container;
template <template <class, class, class, class, bool> class T>
using DG = gc::dynamic_graph<long, int, void, std::uint32_t, true, T<long, int, void, std::uint32_t, true>>;
using Vos = DG<gc::vos_graph_traits>;
using Vous = DG<gc::vous_graph_traits>;
using Vom = DG<gc::vom_graph_traits>;
using Voum = DG<gc::voum_graph_traits>;
using Vol = DG<gc::vol_graph_traits>;
using Dov = DG<gc::dov_graph_traits>;
using Mov = DG<gc::mov_graph_traits>;
using Uov = DG<gc::uov_graph_traits>;
#define G_(N, G) \
  VT<const G> drv_entry_find_##N(const G& g, const std::uint32_t& u) { return VH<const G>::out((*graph::find_vertex(g, u)).value()); } \
  std::size_t drv_entry_n_##N(const G& g) { return graph::num_vertices(g); } \
  std::size_t drv_entry_m_##N(const G& g) { return graph::num_edges(g); } \
  bool drv_entry_has_##N(const G& g) { return graph::has_edges(g); } \
  std::size_t drv_entry_deg_##N(const G& g, VT<const G> u) { return graph::degree(g, mkv<const G>(u)); } \
  std::size_t drv_entry_ideg_##N(const G& g, VT<const G> u) { return graph::in_degree(g, mkv<const G>(u)); } \
  ET<const G> drv_entry_eb_##N(const G& g, VT<const G> u) { return EH<const G>::out((*graph::edges(g, mkv<const G>(u)).begin()).value()); } \
  ET<const G> drv_entry_fve_##N(const G& g, VT<const G> u, const std::uint32_t& v) { return EH<const G>::out(graph::find_vertex_edge(g, mkv<const G>(u), v).value()); }
extern "C" {
G_(vos, Vos) G_(vous, Vous) G_(vom, Vom) G_(voum, Voum) G_(vol, Vol) G_(dov, Dov) G_(mov, Mov) G_(uov, Uov)
}

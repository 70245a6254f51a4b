// dynamic_graph with an edge value whose copies and moves can be told apart
#define NDEBUG
#include "graph/graph.hpp"
#include "graph/container/dynamic_graph.hpp"
#include "graph/container/traits/vov_graph_traits.hpp"
#include "graph/container/traits/vol_graph_traits.hpp"
#include "graph/container/traits/mov_graph_traits.hpp"
#include "graph/container/traits/uov_graph_traits.hpp"
#include <vector>
namespace gc = graph::container;
using Id = std::uint32_t;
struct Tok { int x; Tok(); Tok(const Tok&); Tok(Tok&&) noexcept; Tok& operator=(const Tok&); Tok& operator=(Tok&&) noexcept; ~Tok() = default; };
template <template <class, class, class, class, bool> class T, bool B>
using DG = gc::dynamic_graph<Tok, void, void, Id, B, T<Tok, void, void, Id, B>>;
using E = graph::copyable_edge_t<Id, Tok>;
struct EP { E& operator()(E& e) const noexcept { return e; } const E& operator()(const E& e) const noexcept { return e; } };
#define LE(N, G) void drv_entry_tok_##N(G& g, std::vector<E>& e, std::size_t n, std::size_t m) { g.load_edges(e, EP{}, n, m); }
using Vovb = DG<gc::vov_graph_traits, true>; using Vol = DG<gc::vol_graph_traits, false>; using Movb = DG<gc::mov_graph_traits, true>; using Uov = DG<gc::uov_graph_traits, false>;
extern "C" { LE(vovb, Vovb) LE(vol, Vol) LE(movb, Movb) LE(uov, Uov) }

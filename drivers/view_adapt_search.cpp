#include "view_basic.hpp"
#include <graph/views/adaptors.hpp>
using namespace graph;
namespace ad = graph::views::adaptors;
// the same view made by the factory (d_), by the pipe form (p_) and by the call form (c_)
#define THREE(NM, P, D, PIPEX, CALLX)                                                                                          \
void drv_entry_d_##NM(UNP P) { using R = decltype(D); new (p) R(D); }                                                          \
void drv_entry_p_##NM(UNP P) { using R = decltype(g | ad::PIPEX); new (p) R(g | ad::PIPEX); }                                  \
void drv_entry_c_##NM(UNP P) { using R = decltype(ad::CALLX); new (p) R(ad::CALLX); }                                          \
bool drv_entry_t_##NM(UNP P) { return std::is_same_v<decltype(D), decltype(g | ad::PIPEX)> && std::is_same_v<decltype(D), decltype(ad::CALLX)>; }
#define SEARCH(FN, FU)                                                                                                         \
THREE(FN##_i, (void* p, CG& g, std::uint32_t s), views::FN(g, s), FN(s), FN(g, s))                                             \
THREE(FN##_u, (void* p, CG& g, og::VD s), views::FN(g, s), FN(s), FN(g, s))                                                    \
THREE(FN##_i_f, (void* p, CG& g, std::uint32_t s, int k), views::FN(g, s, FU{k}), FN(s, FU{k}), FN(g, s, FU{k}))               \
THREE(FN##_u_f, (void* p, CG& g, og::VD s, int k), views::FN(g, s, FU{k}), FN(s, FU{k}), FN(g, s, FU{k}))                      \
THREE(FN##_i_a, (void* p, CG& g, std::uint32_t s, int k, std::allocator<bool> a), views::FN(g, s, FU{k}, a), FN(s, FU{k}, a), FN(g, s, FU{k}, a)) \
THREE(FN##_u_a, (void* p, CG& g, og::VD s, int k, std::allocator<bool> a), views::FN(g, s, FU{k}, a), FN(s, FU{k}, a), FN(g, s, FU{k}, a))
#define TOPO(FN, FU)                                                                                                           \
THREE(FN, (void* p, CG& g), views::FN(g), FN(), FN(g))                                                                         \
THREE(FN##_f, (void* p, CG& g, int k), views::FN(g, FU{k}), FN(FU{k}), FN(g, FU{k}))                                           \
THREE(FN##_a, (void* p, CG& g, int k, std::allocator<bool> a), views::FN(g, FU{k}, a), FN(FU{k}, a), FN(g, FU{k}, a))
extern "C" {
SEARCH(vertices_dfs, VF)
SEARCH(edges_dfs, EF)
SEARCH(vertices_bfs, VF)
SEARCH(edges_bfs, EF)
TOPO(vertices_topological_sort, VF)
TOPO(edges_topological_sort, EF)
}

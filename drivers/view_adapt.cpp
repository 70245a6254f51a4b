#include "view_basic.hpp"
#include <graph/views/adaptors.hpp>
using namespace graph;
namespace ad = graph::views::adaptors;
// pipe form and call form of every adaptor of a basic view; _lv: closure kept in a variable and reused
#define F2(X, NM, P, PIPEX, CALLX)   \
X(p_##NM, P, g | ad::PIPEX)          \
X(l_##NM, P, [&] { auto a = ad::PIPEX; auto v0 = g | a; (void)v0; return g | a; }()) \
X(c_##NM, P, ad::CALLX)
#define ADIR(GT, DN, PRE)                                                                                                                          \
F2(I_, PRE##incidence_i##DN, (GT& g, std::uint32_t uid), PRE##incidence(uid), PRE##incidence(g, uid))                                              \
F2(IF_, PRE##incidence_i##DN##_f, (GT& g, std::uint32_t uid, int k), PRE##incidence(uid, EF{k}), PRE##incidence(g, uid, EF{k}))                    \
F2(V_, PRE##neighbors_i##DN, (GT& g, std::uint32_t uid), PRE##neighbors(uid), PRE##neighbors(g, uid))                                              \
F2(VF_, PRE##neighbors_i##DN##_f, (GT& g, std::uint32_t uid, int k), PRE##neighbors(uid, VF{k}), PRE##neighbors(g, uid, VF{k}))                    \
F2(VB_, basic_##PRE##incidence##DN, (GT& g, std::uint32_t uid), basic_##PRE##incidence(uid), basic_##PRE##incidence(g, uid))                       \
F2(VBF_, basic_##PRE##incidence##DN##_f, (GT& g, std::uint32_t uid, int k), basic_##PRE##incidence(uid, EF{k}), basic_##PRE##incidence(g, uid, EF{k})) \
F2(VB_, basic_##PRE##neighbors##DN, (GT& g, std::uint32_t uid), basic_##PRE##neighbors(uid), basic_##PRE##neighbors(g, uid))                       \
F2(VBF_, basic_##PRE##neighbors##DN##_f, (GT& g, std::uint32_t uid, int k), basic_##PRE##neighbors(uid, VF{k}), basic_##PRE##neighbors(g, uid, VF{k}))
extern "C" {
F2(V_, vertexlist, (CG& g), vertexlist(), vertexlist(g))
F2(VF_, vertexlist_f, (CG& g, int k), vertexlist(VF{k}), vertexlist(g, VF{k}))
F2(VB_, basic_vertexlist, (CG& g), basic_vertexlist(), basic_vertexlist(g))
F2(VBF_, basic_vertexlist_f, (CG& g, int k), basic_vertexlist(VF{k}), basic_vertexlist(g, VF{k}))
ADIR(CG, , )
ADIR(CG, , out_)
ADIR(CGB, _b, )
ADIR(CGB, _b, in_)
F2(E_, edgelist, (CG& g), edgelist(), edgelist(g))
F2(EF_, edgelist_f, (CG& g, int k), edgelist(EF{k}), edgelist(g, EF{k}))
F2(EB_, basic_edgelist, (CG& g), basic_edgelist(), basic_edgelist(g))
F2(EBF_, basic_edgelist_f, (CG& g, int k), basic_edgelist(EF{k}), basic_edgelist(g, EF{k}))
}

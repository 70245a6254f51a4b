// Whole iterations over the basic views, written as a user writes them.
#pragma once
#include "ograph.hpp"
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/edgelist.hpp>
extern "C" {
void drv_v_v(std::uint32_t id, std::size_t u);
void drv_v_vf(std::uint32_t id, std::size_t u, int val);
void drv_v_id(std::uint32_t id);
void drv_v_idf(std::uint32_t id, int val);
void drv_v_e(std::uint32_t nbr, std::size_t e, std::size_t owner);
void drv_v_ef(std::uint32_t nbr, std::size_t e, std::size_t owner, int val);
void drv_v_el(std::uint32_t s, std::uint32_t t, std::size_t e, std::size_t owner);
void drv_v_elf(std::uint32_t s, std::uint32_t t, std::size_t e, std::size_t owner, int val);
void drv_v_st(std::uint32_t s, std::uint32_t t);
void drv_v_stf(std::uint32_t s, std::uint32_t t, int val);
int  drv_q_vvfs(int k, std::size_t u) DRV_PURE;
int  drv_q_evfs(int k, std::size_t e, std::size_t u) DRV_PURE;
}
// value functions with state: the view must hand its own copy of the state to every call
struct VF {
  int k;
  template <class G_> int operator()(const G_&, const og::VD& u) const DRV_NX { return drv_q_vvfs(k, u.value()); }
};
struct EF {
  int k;
  template <class G_> int operator()(const G_&, const og::ED& uv) const DRV_NX { return drv_q_evfs(k, uv.value(), uv.source().value()); }
  template <class G_> int operator()(const G_&, const og::IED& uv) const DRV_NX { return drv_q_evfs(k, uv.value(), uv.source().value()); }
};
using CG  = const og::G;
using CGB = const og::GB;
#define UNP(...) __VA_ARGS__
// LOOP: a range-for over the view; and an explicit loop over a copy of the view with post-increment, a copied and an
// assigned iterator
#define LOOP(NM, P, BIND, SINK, ...)                                                 \
  void drv_entry_##NM(UNP P) { for (auto [UNP BIND] : __VA_ARGS__) SINK; }           \
  void drv_entry_##NM##_post(UNP P) {                                                \
    auto v0 = __VA_ARGS__;                                                           \
    auto v  = v0;                                                                    \
    auto i0 = v.begin();                                                             \
    auto e  = v.end();                                                               \
    decltype(i0) i;                                                                  \
    i = i0;                                                                          \
    while (!(e == i)) {                                                              \
      auto [UNP BIND] = *i++;                                                        \
      SINK;                                                                          \
    }                                                                                \
  }
#define SIZE(NM, P, ...) std::size_t drv_entry_##NM##_size(UNP P) { auto v = __VA_ARGS__; return v.size(); }
#define SLOOP(NM, P, BIND, SINK, ...) LOOP(NM, P, BIND, SINK, __VA_ARGS__) SIZE(NM, P, __VA_ARGS__)
#define V_(NM, P, ...)   SLOOP(NM, P, (id, w), drv_v_v(id, w.value()), __VA_ARGS__)
#define VF_(NM, P, ...)  SLOOP(NM, P, (id, w, x), drv_v_vf(id, w.value(), x), __VA_ARGS__)
#define VB_(NM, P, ...)  SLOOP(NM, P, (id), drv_v_id(id), __VA_ARGS__)
#define VBF_(NM, P, ...) SLOOP(NM, P, (id, x), drv_v_idf(id, x), __VA_ARGS__)
#define I_(NM, P, ...)   SLOOP(NM, P, (id, w), drv_v_e(id, w.value(), w.source().value()), __VA_ARGS__)
#define IF_(NM, P, ...)  SLOOP(NM, P, (id, w, x), drv_v_ef(id, w.value(), w.source().value(), x), __VA_ARGS__)
#define E_(NM, P, ...)   LOOP(NM, P, (s, t, w), drv_v_el(s, t, w.value(), w.source().value()), __VA_ARGS__)
#define EF_(NM, P, ...)  LOOP(NM, P, (s, t, w, x), drv_v_elf(s, t, w.value(), w.source().value(), x), __VA_ARGS__)
#define EB_(NM, P, ...)  LOOP(NM, P, (s, t), drv_v_st(s, t), __VA_ARGS__)
#define EBF_(NM, P, ...) LOOP(NM, P, (s, t, x), drv_v_stf(s, t, x), __VA_ARGS__)
#define DIR(GT, DN, NB, PRE)                                                                        \
I_(PRE##incidence_u##DN, (GT& g, og::VD u), NB(PRE##incidence)(g, u))                               \
IF_(PRE##incidence_u##DN##_f, (GT& g, og::VD u, int k), NB(PRE##incidence)(g, u, EF{k}))            \
V_(PRE##neighbors_u##DN, (GT& g, og::VD u), NB(PRE##neighbors)(g, u))                               \
VF_(PRE##neighbors_u##DN##_f, (GT& g, og::VD u, int k), NB(PRE##neighbors)(g, u, VF{k}))            \
DIRI(GT, DN, NB, PRE)
#define DIRI(GT, DN, NB, PRE)                                                                       \
I_(PRE##incidence_i##DN, (GT& g, std::uint32_t uid), NB(PRE##incidence)(g, uid))                    \
IF_(PRE##incidence_i##DN##_f, (GT& g, std::uint32_t uid, int k), NB(PRE##incidence)(g, uid, EF{k})) \
V_(PRE##neighbors_i##DN, (GT& g, std::uint32_t uid), NB(PRE##neighbors)(g, uid))                    \
VF_(PRE##neighbors_i##DN##_f, (GT& g, std::uint32_t uid, int k), NB(PRE##neighbors)(g, uid, VF{k})) \
VB_(basic_##PRE##incidence##DN, (GT& g, std::uint32_t uid), NB(basic_##PRE##incidence)(g, uid))     \
VBF_(basic_##PRE##incidence##DN##_f, (GT& g, std::uint32_t uid, int k), NB(basic_##PRE##incidence)(g, uid, EF{k})) \
VB_(basic_##PRE##neighbors##DN, (GT& g, std::uint32_t uid), NB(basic_##PRE##neighbors)(g, uid))     \
VBF_(basic_##PRE##neighbors##DN##_f, (GT& g, std::uint32_t uid, int k), NB(basic_##PRE##neighbors)(g, uid, VF{k}))
#define FREE(x) x

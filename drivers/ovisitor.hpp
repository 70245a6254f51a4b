// Visitors whose every event is an undefined extern with scalar arguments.
#pragma once
#include "ograph.hpp"
#define DRV_VISITOR_EVENTS_V(X) X(on_initialize_vertex) X(on_start_vertex) X(on_discover_vertex) X(on_examine_vertex) X(on_finish_vertex)
#define DRV_VISITOR_EVENTS_E(X)                                                                                        \
  X(on_examine_edge) X(on_edge_relaxed) X(on_edge_not_relaxed) X(on_edge_minimized) X(on_edge_not_minimized)           \
  X(on_tree_edge) X(on_back_edge) X(on_forward_or_cross_edge) X(on_finish_edge)
extern "C" {
#define X(n) void drv_v_##n(std::size_t u);
DRV_VISITOR_EVENTS_V(X)
#undef X
#define X(n) void drv_v_##n(std::size_t e, std::size_t u);
DRV_VISITOR_EVENTS_E(X)
#undef X
}
namespace og {
struct VisitorId {
#define X(n) void n(const G&, const id_t& u) { drv_v_##n(u); }
  DRV_VISITOR_EVENTS_V(X)
#undef X
#define X(n) void n(const G&, const ED& e) { drv_v_##n(e.value(), e.source().value()); }
  DRV_VISITOR_EVENTS_E(X)
#undef X
};
struct VisitorVD {
#define X(n) void n(const G&, const VD& u) { drv_v_##n(u.value()); }
  DRV_VISITOR_EVENTS_V(X)
#undef X
#define X(n) void n(const G&, const ED& e) { drv_v_##n(e.value(), e.source().value()); }
  DRV_VISITOR_EVENTS_E(X)
#undef X
};
} // namespace og

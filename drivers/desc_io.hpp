// descriptors cross the C boundary of the drivers as one word: an index, or the node an iterator stands on
#pragma once
#include <cstddef>
#include <ranges>
#include <utility>
template <class G> using VD = std::ranges::range_value_t<decltype(graph::vertices(std::declval<G&>()))>;
template <class G> using ED = std::ranges::range_value_t<decltype(graph::edges(std::declval<G&>(), std::declval<VD<G>>()))>;
template <class S> struct H {
  using T = std::size_t;
  static S in(T t) { return S(t); }
  static T out(S s) { return s; }
};
template <class S> requires requires(S s) { s._M_node; } struct H<S> {
  using T = decltype(S()._M_node);
  static S in(T t) { return S(t); }
  static T out(S s) { return s._M_node; }
};
template <class S> requires requires(S s) { s._M_cur; } struct H<S> {
  using T = decltype(S()._M_cur);
  static S in(T t) { return S(t); }
  static T out(S s) { return s._M_cur; }
};
template <class G> using VH = H<typename VD<G>::storage_type>;
template <class G> using VT = typename VH<G>::T;
template <class G> using EH = H<typename ED<G>::edge_storage_type>;
template <class G> using ET = typename EH<G>::T;
// the element an iterator stands on
template <class S, class T> const void* obj(T t) {
  if constexpr (requires(S s) { *s; }) return &*H<S>::in(t); else return nullptr;
}
template <class S, class T> const void* ky(T t) {
  if constexpr (requires(S s) { s->first; }) return &H<S>::in(t)->first; else return nullptr;
}
template <class S, class T> const void* mp(T t) {
  if constexpr (requires(S s) { s->second; }) return &H<S>::in(t)->second; else return nullptr;
}
template <class G> VD<G> mkv(VT<G> u) { return VD<G>(VH<G>::in(u)); }
template <class G> ED<G> mke(ET<G> e, VT<G> u) { return ED<G>(EH<G>::in(e), mkv<G>(u)); }

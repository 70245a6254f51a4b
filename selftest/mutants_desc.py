M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name='desc '+n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name='desc '+n,kind='refactor',edits=list(e),**k))
V='adj_list/vertex_descriptor.hpp'; E='adj_list/edge_descriptor.hpp'; VW='adj_list/vertex_descriptor_view.hpp'; EW='adj_list/edge_descriptor_view.hpp'
L='edge_list/edge_list_descriptor.hpp'; P='detail/edge_cpo.hpp'
PRE='''    ++storage_;
    return *this;'''
POST='''    vertex_descriptor tmp = *this;
    ++storage_;
    return tmp;'''
EQ='  [[nodiscard]] bool operator==(const vertex_descriptor&) const noexcept  = default;'
bug('D01','vertex post gives new position',(V,POST,'    ++storage_;\n    return *this;'))
ref('D01','vertex post via pre',(V,POST,'    auto old = *this;\n    ++*this;\n    return old;'))
ref('D01','vertex post via exchange',(V,POST,'    vertex_descriptor old{storage_};\n    auto next = storage_;\n    ++next;\n    storage_ = next;\n    return old;'))
ref('D01','vertex eq written out',(V,EQ,'  [[nodiscard]] bool operator==(const vertex_descriptor& o) const noexcept { return storage_ == o.storage_; }'))
ref('D01','vertex eq through value',(V,EQ,'  [[nodiscard]] bool operator==(const vertex_descriptor& o) const noexcept { return !(value() != o.value()); }'))
bug('D01','vertex eq truncated',(V,EQ,'''  [[nodiscard]] bool operator==(const vertex_descriptor& o) const noexcept {
    if constexpr (std::random_access_iterator<VertexIter>) return ((storage_ ^ o.storage_) << 32) == 0;
    else return storage_ == o.storage_;
  }'''))
VC='  [[nodiscard]] auto operator<=>(const vertex_descriptor&) const noexcept = default;'
ref('D01','vertex order written out',(V,VC,'''  [[nodiscard]] auto operator<=>(const vertex_descriptor& o) const noexcept requires std::random_access_iterator<VertexIter> {
    return storage_ <=> o.storage_;
  }'''))
ref('D01','vertex order by branches',(V,VC,'''  [[nodiscard]] std::strong_ordering operator<=>(const vertex_descriptor& o) const noexcept requires std::random_access_iterator<VertexIter> {
    if (storage_ < o.storage_) return std::strong_ordering::less;
    if (o.storage_ < storage_) return std::strong_ordering::greater;
    return std::strong_ordering::equal;
  }'''))
bug('D01','vertex order reversed',(V,VC,'''  [[nodiscard]] auto operator<=>(const vertex_descriptor& o) const noexcept requires std::random_access_iterator<VertexIter> {
    return o.storage_ <=> storage_;
  }'''))
bug('D01','vertex order as a difference',(V,VC,'''  [[nodiscard]] auto operator<=>(const vertex_descriptor& o) const noexcept requires std::random_access_iterator<VertexIter> {
    return static_cast<std::ptrdiff_t>(storage_ - o.storage_) <=> 0;
  }'''))
bug('D01','vertex id off by one',(V,'''      return storage_;
    } else {
      // Extract key''','''      return storage_ + (storage_ >> 40);
    } else {
      // Extract key'''))
bug('D01','hash of the mapped value',(V,'''      auto id       = vd.vertex_id();
      using id_type = decltype(id);
      return std::hash<std::remove_cvref_t<id_type>>{}(id);''','''      return std::hash<std::size_t>{}(vd.value()->second.size());'''))
ref('D01','hash mixed',(V,'return std::hash<std::size_t>{}(vd.value());','return std::hash<std::size_t>{}(vd.value()) * 0x9e3779b97f4a7c15ull;'))
ref('D01','hash of the id by reference',(V,'auto id       = vd.vertex_id();','const auto& id = vd.vertex_id();'))
bug('D01','hash by object',(V,'return std::hash<std::size_t>{}(vd.value());','return std::hash<const void*>{}(&vd);'))
EP='''    edge_descriptor tmp = *this;
    ++edge_storage_;
    return tmp;'''
EC='''  [[nodiscard]] auto operator<=>(const edge_descriptor&) const noexcept = default;
  [[nodiscard]] bool operator==(const edge_descriptor&) const noexcept  = default;'''
bug('D01','edge post gives new position',(E,EP,'    ++edge_storage_;\n    edge_descriptor tmp = *this;\n    return tmp;'))
ref('D01','edge post via pre',(E,EP,'    edge_descriptor old(*this);\n    ++(*this);\n    return old;'))
bug('D01','edge step moves the source',(E,'''    ++edge_storage_;
    return *this;''','''    ++edge_storage_;
    if constexpr (std::is_integral_v<edge_storage_type> && std::random_access_iterator<VertexIter>) if (edge_storage_ == 0) ++source_;
    return *this;'''))
bug('D01','edge eq ignores source',(E,EC,'''  [[nodiscard]] auto operator<=>(const edge_descriptor&) const noexcept = default;
  [[nodiscard]] bool operator==(const edge_descriptor& o) const noexcept { return edge_storage_ == o.edge_storage_; }'''))
bug('D01','edge eq ignores position',(E,EC,'''  [[nodiscard]] auto operator<=>(const edge_descriptor&) const noexcept = default;
  [[nodiscard]] bool operator==(const edge_descriptor& o) const noexcept { return source_ == o.source_; }'''))
bug('D01','edge eq by either',(E,EC,'''  [[nodiscard]] auto operator<=>(const edge_descriptor&) const noexcept = default;
  [[nodiscard]] bool operator==(const edge_descriptor& o) const noexcept { return source_ == o.source_ || edge_storage_ == o.edge_storage_; }'''))
ref('D01','edge eq written out',(E,EC,'''  [[nodiscard]] auto operator<=>(const edge_descriptor&) const noexcept = default;
  [[nodiscard]] bool operator==(const edge_descriptor& o) const noexcept { return source_ == o.source_ && !(edge_storage_ != o.edge_storage_); }'''))
ref('D01','edge order source first',(E,EC,'''  [[nodiscard]] auto operator<=>(const edge_descriptor& o) const noexcept requires std::random_access_iterator<EdgeIter> && std::random_access_iterator<VertexIter> {
    if (auto c = source_ <=> o.source_; c != 0) return c;
    return edge_storage_ <=> o.edge_storage_;
  }
  [[nodiscard]] bool operator==(const edge_descriptor&) const noexcept  = default;'''))
bug('D01','edge order position only',(E,EC,'''  [[nodiscard]] std::strong_ordering operator<=>(const edge_descriptor& o) const noexcept requires std::random_access_iterator<EdgeIter> && std::random_access_iterator<VertexIter> {
    return edge_storage_ <=> o.edge_storage_;
  }
  [[nodiscard]] bool operator==(const edge_descriptor&) const noexcept  = default;'''))
bug('D01','edge hash of the element',(E,'return std::hash<std::size_t>{}(reinterpret_cast<std::size_t>(&(*ed.value())));','return std::hash<std::size_t>{}(static_cast<std::size_t>(*ed.value()));'))
ref('D01','edge hash combined otherwise',(E,'return h1 ^ (h2 << 1);','return h1 + 31 * h2;'))
ref('D01','edge hash source only',(E,'return h1 ^ (h2 << 1);','(void)h1; return h2;'))
bug('D01','edge hash of the descriptor',(E,'return h1 ^ (h2 << 1);','return h1 ^ (h2 << 1) ^ reinterpret_cast<std::size_t>(&ed);'))
bug('D01','vertex iterator post',(VW,'''      iterator tmp = *this;
      ++current_;
      return tmp;''','''      iterator tmp = *this;
      ++current_;
      return *this;'''))
ref('D01','vertex iterator post via pre',(VW,'''      iterator tmp = *this;
      ++current_;
      return tmp;''','''      iterator tmp(current_);
      ++*this;
      return tmp;'''))
bug('D01','vertex range size',(VW,'size_(end_val - begin_val) {}','size_(end_val) {}'))
bug('D01','edge range size',(EW,'size_ = end_val - begin_val;','size_ = end_val;'))
bug('D01','edge iterator equal by source',(EW,'return current_edge_ == other.current_edge_;','return source_ == other.source_;'))
ref('D01','edge iterator equal with source',(EW,'return current_edge_ == other.current_edge_;','return source_ == other.source_ && current_edge_ == other.current_edge_;'))
ref('D01','edge iterator equal through descriptors',(EW,'return current_edge_ == other.current_edge_;','return **this == *other;'))
bug('D01','edge iterator step twice',(EW,'''      ++current_edge_;
      return *this;''','''      ++current_edge_;
      if constexpr (std::is_integral_v<edge_storage_type>) { if (current_edge_ == 0xffffffffu) ++current_edge_; }
      return *this;'''))
bug('D01','edge range forgets source at end',(EW,'return iterator{begin_, source_}; }','return iterator{begin_, vertex_desc{}}; }'))
# edge list elements
bug('D02','pair target is the source',(P,'          return std::get<1>(uv);\n','          return std::get<0>(uv);\n'))
bug('D02','edge_data target is the source',(P,'          return uv.target_id;\n','          if constexpr (requires { uv.source_id; uv.edge; }) return uv.source_id; else return uv.target_id;\n'))
bug('D02','tuple value of the last part',(P,'          return std::get<2>(uv);','          return std::get<std::tuple_size_v<_E> - 1>(uv);'))
bug('D02','descriptor keeps target twice',(L,': source_id_(src), target_id_(tgt), value_() {}',': source_id_(tgt), target_id_(tgt), value_() {}'))
LE='return source_id_ == other.source_id_ && target_id_ == other.target_id_ && value_.get() == other.value_.get();'
bug('D02','equality ignores value',(L,LE,'return source_id_ == other.source_id_ && target_id_ == other.target_id_;'))
bug('D02','equality of references',(L,LE,'return source_id_ == other.source_id_ && target_id_ == other.target_id_ && &value_.get() == &other.value_.get();'))
bug('D02','equality undirected',(L,LE,'return (source_id_ == other.source_id_ || source_id_ == other.target_id_) && target_id_ == other.target_id_ && value_.get() == other.value_.get();'))
ref('D02','equality by branches',(L,LE,'''if (!(value() == other.value())) return false;
      if (source_id_ != other.source_id_) return false;
      return target_id_ == other.target_id_;'''))
LC='''      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
        return ordering(cmp);
      if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
        return ordering(cmp);
      return ordering(value_.get() <=> other.value_.get());'''
bug('D02','order skips target',(L,LC,LC.replace('target_id_ <=> other.target_id_','source_id_ <=> other.target_id_')))
bug('D02','order value first',(L,LC,'''      if (auto cmp = value_.get() <=> other.value_.get(); cmp != 0)
        return ordering(cmp);
      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
        return ordering(cmp);
      return ordering(target_id_ <=> other.target_id_);'''))
bug('D02','order without value',(L,LC,LC.replace('return ordering(value_.get() <=> other.value_.get());','return ordering(std::strong_ordering::equal);')))
ref('D02','order by less than',(L,LC,'''      if (source_id_ < other.source_id_) return ordering(std::strong_ordering::less);
      if (other.source_id_ < source_id_) return ordering(std::strong_ordering::greater);
      const ordering t = target_id_ <=> other.target_id_;
      if (t < 0 || t > 0) return t;
      return ordering(value() <=> other.value());'''))
ref('D02','order of ties',(L,LC,'      return ordering(std::tie(source_id_, target_id_, value_.get()) <=> std::tie(other.source_id_, other.target_id_, other.value_.get()));'),(L,'#include <utility>','#include <utility>\n#include <tuple>'))
ref('D02','equality of ties',(L,LE,'return std::tie(source_id_, target_id_, value_.get()) == std::tie(other.source_id_, other.target_id_, other.value_.get());'),(L,'#include <utility>','#include <utility>\n#include <tuple>'))
ref('D02','accessor through a pointer',(L,'const VId& target_id() const noexcept { return target_id_; }','const VId& target_id() const noexcept { const VId* p = &target_id_; return *p; }'))
# edge objects of dynamic_graph
D='container/dynamic_graph.hpp'
OE='    return base_target_type::target_id() == rhs.base_target_type::target_id();'
OC='    return base_target_type::target_id() <=> rhs.base_target_type::target_id();'
IE='    return base_source_type::source_id() == rhs.base_source_type::source_id();'
bug('D03','edge equality with value',(D,OE,'    return base_target_type::target_id() == rhs.base_target_type::target_id() && base_value_type::value() == rhs.base_value_type::value();'))
bug('D03','in edge equality with value',(D,IE,'    return base_source_type::source_id() == rhs.base_source_type::source_id() && base_value_type::value() == rhs.base_value_type::value();'))
bug('D03','edge order by difference',(D,OC,'    return static_cast<std::int32_t>(static_cast<std::uint32_t>(1) * 0u + 0) <=> 0;'))
bug('D03','void edge order reversed',(D,OC,'    return rhs.base_target_type::target_id() <=> base_target_type::target_id();'),nth=1)
bug('D03','void in edge order equal',(D,'    return base_source_type::source_id() <=> rhs.base_source_type::source_id();','    return rhs.base_source_type::source_id() <=> rhs.base_source_type::source_id();'),nth=1)
ref('D03','edge equality by order',(D,OE,'    return (*this <=> rhs) == 0;'),all=True)
ref('D03','in edge equality negated',(D,IE,'    return !(rhs.base_source_type::source_id() != this->source_id());'),all=True)
ref('D03','edge order by branches',(D,OC,'''    const auto a = base_target_type::target_id(), b = rhs.base_target_type::target_id();
    return a < b ? std::strong_ordering::less : b < a ? std::strong_ordering::greater : std::strong_ordering::equal;'''))
bug('D03','hash with value',(D,'    return std::hash<VId>{}(edge.target_id());','    if constexpr (std::is_integral_v<EV>) return std::hash<VId>{}(edge.target_id()) ^ std::hash<EV>{}(edge.value()); else return std::hash<VId>{}(edge.target_id());'))
ref('D03','hash mixed',(D,'    return std::hash<VId>{}(edge.target_id());','    const size_t h = std::hash<VId>{}(edge.target_id());\n    return h ^ (h >> 7) ^ 0x51ed27u;'))
bug('D03','value lost when moved in',(D,': base_target_type(targ_id), base_value_type(std::move(val)) {}',': base_target_type(targ_id) {}'))

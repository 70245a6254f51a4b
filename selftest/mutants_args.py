M=[]
def bug(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='bug',edits=list(e),**k))
def ref(p,n,*e,**k): M.append(dict(prop=p,name=n,kind='refactor',edits=list(e),**k))
P='A06'
for F,t in (('algorithm/dijkstra_shortest_paths.hpp','dij'),('algorithm/bellman_ford_shortest_paths.hpp','bf')):
    bug(P,t+' size off by one',(F,"if (size(distances) < num_vertices(g))","if (size(distances) + 1 < num_vertices(g))"))
    bug(P,t+' pred size vs dist',(F,"    if (size(predecessor) < num_vertices(g)) {","    if (size(distances) < num_vertices(g)) {"))
    bug(P,t+' source >',(F,"if (source >= N || source < 0)","if (source > N || source < 0)"))
    bug(P,t+' source break',(F,"if (source >= N || source < 0) {","if (source < 0 || (source >= N && N > 0 && size(distances) <= static_cast<size_t>(source))) {"))
    bug(P,t+' set before check',(F,"    if (source >= N || source < 0) {","    distances[static_cast<size_t>(source)] = zero;\n    if (source >= N || source < 0) {"))
    bug(P,t+' wrong exception',(F,"if (source >= N || source < 0) {\n      throw std::out_of_range","if (source >= N || source < 0) {\n      throw std::invalid_argument")) if t=='dij' else bug(P,t+' skip source',(F,"    if (source >= N || source < 0) {\n      throw","    if (source >= N || source < 0) {\n      if (source > N) continue;\n      throw"))
    ref(P,t+' nested ifs',(F,"if (source >= N || source < 0)","if (!(source < N) || source < 0)"))
    ref(P,t+' helper',(F,"  // Seed the queue with the initial vertice(s)","  auto bad_id = [&](auto&& s_) { return s_ >= N || s_ < 0; };"),(F,"if (source >= N || source < 0)","if (bad_id(source))"))
    ref(P,t+' n first',(F,"if (size(distances) < num_vertices(g))","const auto nv_ = num_vertices(g);\n  if (nv_ > size(distances))"))
F='algorithm/mst.hpp'
bug(P,'prim seed >',(F,"static_cast<size_t>(seed) >= N","static_cast<size_t>(seed) > N"))
bug(P,'prim no weight check',(F,"if (size(weight) < N)","if (size(predecessor) < N)"))
bug(P,'prim write first',(F,"  // Validate preconditions\n","  predecessor[seed] = seed;\n"))
ref(P,'prim order',(F,"  if (size(weight) < N) {\n    throw std::out_of_range(std::format(\"prim: weight size {} is less than num_vertices {}\", size(weight), N));\n  }",""),(F,"  // Validate preconditions\n","  if (size(weight) < N) {\n    throw std::out_of_range(std::format(\"prim: weight size {} is less than num_vertices {}\", size(weight), N));\n  }\n"))

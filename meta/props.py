"""Source of properties.jsonl and MANIFEST.json (run meta/gen.py after editing)."""
H = 'include/graph/'
IN = ['inputs']; IP = ['inputs', 'programs']
P = []
def prop(id, title, statement, text, why, files, mech, note, technique, over=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, note=note, technique=technique, over=over or IN, state=state or []))
def na(id, title, statement, text, why, files, mech, reason, over=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=over or IN, state=[], na=reason))

PATH = 'path rules over the inlined control-flow graph (custom LLVM-IR dataflow analysis)'
PN = ('Every path of every instantiated region obeys the rules that make the algorithm correct, for all graphs and visitors '
      '(the driver graph, ids, weights and visitor are opaque). Assumes the graph API answers consistently during the call, the standard '
      'containers behave as specified, and compilation of the driver instantiations is representative of other graph types.')

prop('A01', 'Breadth-first search visits every reachable vertex once, in FIFO order',
     'From the given sources breadth_first_search discovers every reachable vertex exactly once, takes vertices from its queue in first-in-first-out order and scans all out-edges of each, and never touches an unreachable vertex. '
     'The visitor is called in the documented order with the documented arguments: initialise (each source), discover once per vertex when it is queued, examine once when dequeued, examine-edge once per scanned edge, finish once after the scan.',
     'all graphs, source sets and visitors', 'Tests sample a few small graphs and mostly count events; they cannot cover every graph shape, self-loop, parallel edge or source set.',
     [H + 'algorithm/breadth_first_search.hpp'], [('visited marks and FIFO queue', 'breadth_first_search.hpp')], PN, PATH)
prop('A02', 'Depth-first search classifies every edge and nests discover/finish correctly',
     'depth_first_search discovers every vertex reachable from the source exactly once, examines each of its out-edges exactly once, and finishes a vertex exactly once, only after all its out-edges were examined and its descendants finished. '
     'An edge is reported as tree edge exactly when its target is undiscovered, back edge exactly when the target is an unfinished ancestor (self-loops included), and forward-or-cross edge exactly when the target is finished.',
     'all graphs, sources and visitors', 'Edge classification depends on arbitrary interleavings of back, cross and parallel edges that the sampled graphs do not contain.',
     [H + 'algorithm/depth_first_search.hpp'], [('three-colour marks and explicit frame stack', 'depth_first_search.hpp')], PN, PATH)
prop('A03', 'Topological sort orders every edge forward or reports a cycle',
     'topological_sort succeeds exactly when the subgraph reachable from the requested vertices (all vertices in the whole-graph form) is acyclic; a self-loop is a cycle. '
     'On success it outputs each reachable vertex exactly once, every edge leading from an earlier to a later vertex; when it reports a cycle nothing is written to the output.',
     'all graphs and source sets', 'Acyclicity and edge order are facts about every edge of every graph; tests check a few DAGs and short cycles.',
     [H + 'algorithm/topological_sort.hpp'], [('three-colour depth-first finish order, reversed', 'topological_sort.hpp')], PN, PATH)
prop('A04', 'Dijkstra relaxes every edge of every improved vertex and settles shortest paths',
     'dijkstra_shortest_paths and dijkstra_shortest_distances set each source to zero, then repeatedly take a queued vertex of smallest tentative distance, test every one of its out-edges, and lower a distance (recording the predecessor, and requeueing the target) exactly when the combined distance compares smaller, using the caller\'s compare and combine. '
     'Unreached vertices keep the initial infinite distance; out-of-range sources and negative signed weights throw; init_shortest_paths makes every distance infinite and every vertex its own predecessor. '
     'Visitor events fire exactly as documented: initialise per vertex, discover when first reached, examine and finish per dequeued vertex, examine-edge per edge followed by exactly one of relaxed / not-relaxed.',
     'all graphs, weights, sources, compare/combine functions and visitors', 'Shortest-path correctness quantifies over all graphs and weights; the tests compare a few fixed graphs.',
     [H + 'algorithm/dijkstra_shortest_paths.hpp', H + 'algorithm/traversal_common.hpp'], [('relax_target and the priority queue loop', 'dijkstra_shortest_paths.hpp')], PN, PATH)
prop('A05', 'Bellman-Ford makes enough passes over all edges and finds every negative cycle',
     'bellman_ford_shortest_paths/distances relax every edge out of a reached vertex in each of at least |V|-1 passes (stopping early only after a pass that changed nothing), with predecessors recorded on each relaxation, and afterwards report a negative cycle exactly when some edge out of a reached vertex still relaxes. '
     'With predecessors recorded, the reported vertex lies on the cycle, and find_negative_cycle outputs each vertex of the predecessor cycle exactly once. Edge events fire once per edge and pass (examined, then relaxed or not relaxed), in the final check edges are reported minimised one by one until the first edge that still relaxes, which is reported not minimised.',
     'all graphs with arbitrary signed weights, sources, compare/combine functions and visitors', 'Number of passes and cycle detection only matter for adversarial edge orders and weights.',
     [H + 'algorithm/bellman_ford_shortest_paths.hpp', H + 'algorithm/traversal_common.hpp'], [('pass loop, early exit flag, final check over all edges', 'bellman_ford_shortest_paths.hpp')], PN, PATH)
prop('A08', 'Kruskal outputs a minimum spanning forest',
     'kruskal and inplace_kruskal consider the edges in an order sorted by the caller\'s comparison of edge values and select an edge exactly when its endpoints are in different trees so far, merging them. '
     'Selected edges are copied unchanged to the output; the returned total weight is the sum of the selected edges\' values and the returned component count is the number of trees left.',
     'all edge lists, comparisons and vertex id ranges', 'Minimality needs every cycle and cut of every graph; tests compare a few totals.',
     [H + 'algorithm/mst.hpp'], [('sort by value, union-find, max vertex id fold', 'mst.hpp kruskal/inplace_kruskal')], PN, PATH)
prop('A09', 'Prim grows one minimum spanning tree from the seed',
     'prim adds each vertex reachable from the seed to the tree exactly once, always over an edge that the caller\'s comparison ranks best among those leaving the tree. '
     'On return every reached vertex has as predecessor the tree neighbour it was added from and as weight the value of that edge, the seed is its own predecessor, and the returned total is the sum of those weights.',
     'all graphs, weights, seeds and comparisons', 'Tests only compare total weights of a few graphs.',
     [H + 'algorithm/mst.hpp'], [('priority queue, in-tree marks', 'mst.hpp prim')], PN, PATH)
prop('A10', 'Disjoint-set find/union keep one root per merged set',
     'disjoint_find returns the root of the set containing the vertex and may only shorten parent chains toward that same root; disjoint_union and disjoint_union_find link one root below the other (the shallower below the deeper, incrementing the count on a tie) exactly when the roots differ. '
     'disjoint_union_find returns true exactly when the two vertices were in different sets.',
     'all parent-array states reachable through the operations', 'Chains of every shape arise only in long merge histories.',
     [H + 'algorithm/mst.hpp'], [('disjoint_vector, disjoint_find, disjoint_union, disjoint_union_find', 'mst.hpp')], PN, PATH)

prop('A07', 'Component algorithms label exactly the (strongly) connected components',
     'connected_components and both kosaraju overloads give every vertex a component number, numbering components consecutively from zero, such that two vertices share a number exactly when they are connected (for kosaraju: mutually reachable); connected_components returns the number of components. '
     'Both afforest overloads leave every vertex labelled with the representative of its component: after sampling the first neighbours, every remaining edge of every vertex outside one skipped component (and every incoming edge in the transpose overload) is linked, and a final compression points every vertex at its root.',
     'all graphs, transposes and sampling-round counts', 'Which vertices share a component depends on every edge of every graph; the tests check a handful of graphs and sampling phases never matter there.',
     [H + 'algorithm/connected_components.hpp'], [('finish-order pass and reverse pass', 'connected_components.hpp kosaraju'), ('flood from each unassigned vertex', 'connected_components.hpp connected_components'), ('link / compress / sampling', 'connected_components.hpp afforest')], PN, PATH)

prop('A13', 'Maximal independent set output is independent and maximal',
     'maximal_independent_set outputs each selected vertex once and returns how many it selected; no vertex with a self-loop is selected, and after a vertex is selected all its out-neighbours are excluded before any other vertex is considered. '
     'The seed is considered first, then every vertex, and a vertex is passed over only if it was excluded or has a self-loop.',
     'all graphs and seeds', 'Independence and maximality are facts about every vertex and edge of every graph; the tests validate a few small graphs.',
     [H + 'algorithm/mis.hpp'], [('excluded marks, self-loop test, output', 'mis.hpp maximal_independent_set')], PN, PATH)
prop('A14', 'Triangle count finds every triangle once',
     'triangle_count considers every edge (u,v) with u < v and intersects the two sorted adjacency lists by a merge that advances the smaller side (both on a match) until one list is exhausted. '
     'It adds exactly one for each common neighbour w > v and returns the total.',
     'all graphs with sorted adjacency lists', 'The merge goes wrong only for particular interleavings of the two lists.',
     [H + 'algorithm/tc.hpp'], [('merge of two sorted lists', 'tc.hpp triangle_count')], PN, PATH)
prop('A15', 'Jaccard coefficient reports every edge with intersection over union',
     'jaccard_coefficient calls the output once for every edge that is not a self-loop, with source, target and the edge itself. '
     'The value is the number of common neighbours divided by the size of the union of both neighbour sets, where a vertex is never its own neighbour and parallel edges count once.',
     'all graphs', 'The values depend on overlaps of arbitrary neighbour sets, parallel edges and self-loops.',
     [H + 'algorithm/jaccard.hpp'], [('neighbour sets, intersection count, quotient', 'jaccard.hpp')], PN, PATH)
prop('A16', 'Label propagation adopts a most frequent neighbour label until stable',
     'In each pass, made over all vertices in an order shuffled by the caller\'s generator, label_propagation counts the labels of all out-neighbours of a vertex (ignoring the empty label where one is given) and gives the vertex a most frequent one, ties broken uniformly at random; a vertex with nothing to count keeps its label. '
     'It stops only after a pass that changed no label or after max_iters passes.',
     'all graphs, labellings, generators and pass limits', 'The result depends on random orders and ties that tests fix with one seed.',
     [H + 'algorithm/label_propagation.hpp'], [('frequency map, maximum, candidates, changed flag', 'label_propagation.hpp')], PN, PATH)

prop('A06', 'Shortest-path and Prim calls reject short ranges and bad ids before use',
     'dijkstra, bellman_ford and prim calls throw std::out_of_range when a distance, predecessor or weight range is shorter than the number of vertices, before writing any caller range or calling the visitor. '
     'They throw std::out_of_range for a source or seed that is not a vertex id before that source is written, queued or announced.',
     'all graphs, sources and range sizes', 'Tests try at most one bad argument; the guarantee is about every order of checks and uses.',
     [H + 'algorithm/dijkstra_shortest_paths.hpp', H + 'algorithm/bellman_ford_shortest_paths.hpp', H + 'algorithm/mst.hpp'], [('size and source checks', 'dijkstra_shortest_paths.hpp, bellman_ford_shortest_paths.hpp, mst.hpp prim')], PN, PATH)
prop('A11', 'Articulation points: every cut vertex once, and nothing else',
     'articulation_points runs one depth-first search per component that enters each vertex once and follows each edge once; low-links start at the discovery number, are lowered by the discovery number of every non-tree edge (only the first edge back to the tree parent counts as the tree edge; self-loops are ignored) and are passed to the parent. '
     'A non-root vertex is output exactly when some tree child\'s low-link is not below its discovery number, a root exactly when it has at least two tree children, each at most once.',
     'all undirected graphs (both edge directions stored), parallel edges and self-loops included', 'Low-link computations go wrong only on particular cycle and parallel-edge patterns.',
     [H + 'algorithm/articulation_points.hpp'], [('explicit-stack search with low-links', 'articulation_points.hpp')], PN, PATH)
prop('A12', 'Biconnected components partition the edges at the articulation points',
     'biconnected_components runs the same low-link search, stacks every tree edge, and when a finished child\'s low-link is not below its parent\'s discovery number emits one component: the set of endpoints of the edges popped down to and including that tree edge. '
     'Edges to already finished descendants are never stacked, and a vertex with no edges to other vertices is emitted as a component of its own.',
     'all undirected graphs (both edge directions stored), parallel edges and self-loops included', 'Components mix up only for particular orders of finished subtrees and back edges.',
     [H + 'algorithm/biconnected_components.hpp'], [('low-link search with an edge stack', 'biconnected_components.hpp')], PN, PATH)

prop('V02', 'Breadth-first views yield each reachable element once, in queue order',
     'vertices_bfs and edges_bfs (every overload, out- and in-edges) yield exactly the vertices reachable from the seed, respectively the edges through which they are first discovered, each once, in first-in-first-out order of discovery, marking a vertex as visited when it is queued. '
     'The value function is invoked on the yielded element; num_visited counts discovered elements and depth is the largest depth discovered; iteration ends exactly when nothing is left to yield.',
     'all graphs, seeds and iteration histories', 'Each increment is one step of a search from an arbitrary state; tests walk a few small graphs.',
     [H + 'views/bfs.hpp'], [('queue and visited marks shared by the iterators', 'bfs.hpp')], PN, PATH, IP)
prop('V03', 'Depth-first views yield each reachable element once, in stack order',
     'vertices_dfs and edges_dfs (every overload, out- and in-edges) yield exactly the vertices reachable from the seed, respectively the tree edges that discover them, each once; every increment continues with the next unexamined edge of the most recently discovered vertex that still has one and skips edges to visited vertices. '
     'The value function is invoked on the yielded element; num_visited counts discovered elements and depth is the length of the current search path; iteration ends exactly when nothing is left to yield.',
     'all graphs, seeds and iteration histories', 'Each increment is one step of a search from an arbitrary state; tests walk a few small graphs.',
     [H + 'views/dfs.hpp'], [('frame stack and visited marks shared by the iterators', 'dfs.hpp')], PN, PATH, IP)
prop('V04', 'Cancelling a search view stops the branch, or the whole search, as asked',
     'After cancel(cancel_branch) on a breadth- or depth-first view the edges of the vertex yielded last are never explored, everything already discovered elsewhere is still yielded, and the request is consumed by the next increment. '
     'After cancel(cancel_all) the next increment ends the search; cancel() reports the pending request, which starts as continue_search and never changes by itself.',
     'all graphs, seeds and sequences of increments and cancel requests', 'The effect depends on where in the search the request comes; tests cancel once at one place.',
     [H + 'views/bfs.hpp', H + 'views/dfs.hpp', H + 'views/search_base.hpp'], [('cancel request in the shared state', 'bfs.hpp, dfs.hpp')], PN, PATH, IP)
prop('V05', 'Topological views order the whole graph; the safe ones report cycles',
     'vertices_topological_sort yields the vertices in the reverse of depth-first finish order over the requested edges, each vertex exactly once, so on an acyclic graph every edge leads forward; edges_topological_sort yields all edges of each vertex in that vertex order, each exactly once. '
     'The _safe overloads return the view exactly when no edge leads back to a vertex on the current search path and otherwise a vertex on a cycle. '
     'Iteration ends after the last element or once a cancel request was made, num_visited counts the vertices passed, and two iterators of a view are equal exactly at the same position.',
     'all graphs and iteration histories', 'Order and cycle detection are facts about every edge of every graph; tests check a few DAGs and short cycles.',
     [H + 'views/topological_sort.hpp'], [('materialised order shared by the iterators', 'topological_sort.hpp')], PN, PATH, IP)
prop('V01', 'Basic views yield every element of their range exactly once, in order',
     'A vertexlist view yields every vertex of the graph or subrange once in order, an incidence or neighbors view every out-edge or in-edge of its vertex, and an edgelist view every edge of every vertex or of an edge range, skipping exactly the vertices without edges. '
     'Each element carries the ids and descriptors of its own vertex, edge and neighbour and the result of the view\'s own copy of the value function on it, and size() is the number of elements. '
     'Pre- and post-increment, copied and assigned iterators and copied views give the same sequence.',
     'all graphs, ranges, vertices and value functions', 'The views are thin iterators whose begin, end, comparison and increment must agree for every graph, including graphs with runs of edgeless vertices.',
     [H + 'views/vertexlist.hpp', H + 'views/incidence.hpp', H + 'views/neighbors.hpp', H + 'views/edgelist.hpp', H + 'views/edge_accessor.hpp', H + 'graph_data.hpp'], [('iterators of all basic views', 'include/graph/views')],
     PN + ' Whole user-written loops are analysed, so the iterator operations are judged by their joint effect; the edgelist iterator is checked as a state machine with inductively inferred invariants.',
     'range-walk recognition and inductive state-machine check over the inlined CFG of whole iterations', IP)
prop('V06', 'Pipe adaptors make the same views as the factory functions',
     'For every view, piping a graph into an adaptor and calling the adaptor with the graph give a view of the same type as the factory function, over the same graph, vertex or seed, with the given value function and allocator. '
     'An adaptor object can be kept and used repeatedly.',
     'all graphs, seeds, vertices and value functions', 'Adaptors forward arguments through several layers and overloads; each combination must be right for every argument.',
     [H + 'views/adaptors.hpp'], [('adaptor closures and function objects', 'adaptors.hpp')],
     PN + ' Basic views: the rules of V01 on the adapted view. Search and topological views: the control-flow graph constructing the adapted view equals that of the factory, up to renaming. The allocator forwarded is the stateless standard one.',
     'range-walk recognition and CFG equivalence of twin entry points', IP)
prop('V07', 'A transposed graph swaps edge directions and nothing else',
     'On the transpose of a bidirectional graph, outgoing and incoming edges, source and target of an edge, and the two degrees of a vertex are exchanged, by id as well as by descriptor. '
     'Vertices, ids, vertex count and edge values are those of the graph itself, and all basic views over the transpose see the swapped edges.',
     'all bidirectional graphs, vertices and edges', 'Each accessor must swap consistently with the others on every edge.',
     [H + 'views/transpose.hpp', H + 'views/edge_accessor.hpp'], [('accessor overloads of the transposed graph', 'transpose.hpp')],
     PN + ' Decided for graphs whose edge ids come from the graph\'s own accessors (the documented limitation for forward-iterator edge containers is outside the property).',
     'value analysis of every accessor and range-walk recognition over the inlined CFG', IP)
prop('V08', 'A value function that stays with the caller is copied, never moved from',
     'Every view, every adaptor call and every adaptor object that is given a value function by name takes its own copy and leaves the function given as it was, so it can be used again. '
     'Piping graphs into a kept adaptor object leaves that object as it was, so each view made from it has the same function. The view always ends up with an intact copy of the function given, never one that was already moved on.',
     'all value functions, views and adaptors, and all histories of reuse', 'Plain functions do not notice being moved from; only the second use of one that owns something does.',
     [H + 'views'], [('factory functions and adaptors taking a value function', 'include/graph/views')],
     'Every path of every construction form (factory by id, by vertex, with allocator, either edge direction; adaptor call; pipe into a kept adaptor object) is followed from the caller\'s object to the view. The edgelist of an edge list is not covered.',
     'ownership (copy/move typestate) analysis of the value function object on LLVM IR', IP)
prop('D01', 'Descriptors compare, order, step and hash by the position they stand for',
     'Two vertex descriptors are equal exactly when they stand at the same position, two edge descriptors exactly when position and source vertex agree; index based ones are totally ordered in agreement with that, and equal descriptors always have the same hash, which does not change when the values in the graph change. '
     'Stepping a descriptor, or an iterator over vertices or edges, moves it to the next position and changes nothing else, and a postfix step gives back the old one. Iterators are equal exactly at the same position, and every edge an edge range yields has the source of the range.',
     'all positions, sources and graphs', 'Samples compare a handful of small positions; keys of hash tables and binary searches rely on every pair.',
     [H + 'adj_list'], [('vertex and edge descriptors, their hashes', 'include/graph/adj_list'), ('descriptor views', 'include/graph/adj_list')],
     'Index and iterator based descriptors over vector, map and unordered_map of vectors, and vector and map of lists; every path of each comparison, step, hash and range constructor. Iterators of different ranges are not compared.',
     'decision analysis over LLVM IR: every outcome of a comparison is refuted in the orderings of the fields in which it would be wrong; effect and dependence analysis of steps and hashes', IP)
prop('D02', 'Edge list elements report their own ends and value and compare by them',
     'The source, target and value of an edge list element are its first, second and third part, or its members of those names, whichever of the supported kinds it is: pair, tuple, sourced edge record or edge list descriptor; kinds without a value are not said to have one. '
     'An edge list descriptor refers to the objects it was made from, also when copied or moved. Descriptors are equal exactly when source, target and value are, and are ordered by source, then target, then value, whatever ordering the value type has.',
     'all edge lists and values', 'Sorting and removing duplicates rely on every pair of edges, not on the sampled ones.',
     [H + 'edge_list', H + 'detail'], [('edge list descriptor', 'include/graph/edge_list/edge_list_descriptor.hpp'), ('source_id, target_id, edge_value', 'include/graph/detail/edge_cpo.hpp')],
     'Eight kinds of plain elements through const and non-const lists, descriptors with and without a value; type level witnesses for strings and floating point values. For floating point values only the decisions taken on the ends are proved.',
     'decision analysis over LLVM IR (every outcome refuted in the orderings in which it would be wrong); value origin analysis of the accessors; compile witnesses', IP)
prop('D03', 'Edge objects of a dynamic graph are identified by the vertex they lead to',
     'An edge object holds the vertex id and the value it was made with. Two of them are equal, ordered and hashed by that id alone: the target of an outgoing edge, the source of an incoming one; the value never takes part, so set based edge containers keep one edge per neighbor whatever the values.',
     'all ids and values', 'Sets and hash tables rely on every pair of edges; samples never put values at odds with ids.',
     [H + 'container'], [('dynamic_out_edge, dynamic_in_edge and their hashes', 'include/graph/container/dynamic_graph.hpp')],
     'Outgoing and incoming edges, with and without a value, integer ids; witnesses for string ids.',
     'decision analysis over LLVM IR; dependence analysis of the hash; value origin analysis of constructors', IP)
prop('A17', 'No call-stack recursion and no hidden shared state',
     'No algorithm or view operation calls itself directly or indirectly, so the depth of the call stack does not grow with the graph. '
     'None keeps mutable state in static, global or thread-local variables, so separate calls, and concurrent calls on a shared const graph, cannot influence each other.',
     'all graphs, call histories and thread schedules', 'Stack overflow needs graphs far larger than the samples, and hidden state shows only across calls or threads.',
     [H + 'algorithm', H + 'views', H + 'adj_list'], [('every function instantiated by the drivers', 'include/graph')],
     'Call-graph and global-variable analysis of every function the drivers instantiate (all algorithms, all search and basic views, adaptors and containers in drivers/). Uninstantiated templates are not seen.',
     'call-graph cycle detection and mutable-global usage analysis on LLVM IR', IP)
CSR = [H + 'container/compressed_graph.hpp']
prop('C01', 'Loading a compressed graph keeps exactly the given edges and vertices',
     'Loading edges stores every edge of an input ordered by source exactly once, in order, with its value, under its source; input that is not ordered is rejected. '
     'The graph then has every vertex named by an edge, requested by the vertex-count hint or loaded before, and no others, and holds a value for each. '
     'Loading vertices assigns each value to its id, and nothing is moved out of a range the caller passed as an lvalue.',
     'all edge and vertex ranges and all sequences of the two loads', 'Wrong results need particular shapes: gaps in the ids, a target larger than every source, an empty range, or a load following another.',
     CSR, [('load_edges, load_vertices and the constructors calling them', 'compressed_graph.hpp')],
     PN + ' Each edge load is decided for a graph without edges; the row-start table, the targets and the values are treated as the graph\'s whole state.',
     'loop-body effect rules and ordering facts on the value-resolved CFG', IP)
prop('C02', 'Compressed graph accessors report exactly the loaded graph',
     'Vertex count and ids, edge count, degree, edge range, target, edge and vertex lookup and emptiness all agree with the stored rows, also for a graph without vertices or edges and for ids out of range. '
     'Edge and vertex values read or written through the graph are those of the edge or vertex named.',
     'all graphs, ids and edges', 'Off-by-one and emptiness mistakes show only for the last vertex, an empty graph or ids out of range.',
     CSR, [('public accessors and customisation functions', 'compressed_graph.hpp')], PN, 'value analysis of every accessor on the inlined CFG', IP)
prop('C03', 'Every compressed graph constructor and partition query is well formed',
     'Each constructor, with or without vertex ranges, partitions, projections, a graph value or an initializer list, gives the graph that loading its arguments gives, including for empty inputs. '
     'The partitions cover the vertices exactly once in order: every vertex belongs to the one partition whose range holds it.',
     'all constructor arguments and partition lists', 'Partition boundaries and empty inputs are corner cases that samples of graphs with one partition do not reach.',
     CSR, [('constructors, partition accessors', 'compressed_graph.hpp')],
     PN + ' Partition lists not starting at 0 or not ascending are the caller\'s responsibility except where the code rejects them.',
     'effect rules and value analysis of every constructor and partition accessor', IP)
DYNF = ['include/graph/container/dynamic_graph.hpp', 'include/graph/container/container_utility.hpp']
prop('C04', 'Loading a dynamic graph keeps exactly the given edges and vertices',
     'Loading edges stores every edge of the input once under its source with its target and value, in the order its edge container defines, and, in a bidirectional graph, mirrors it once under its target; the edge count grows by one for each. '
     'Every vertex an edge names exists afterwards, or the edge is rejected when an explicit vertex count was requested; no vertex already there is dropped and none is invented. '
     'Loading vertices assigns each value to its id, honours the requested vertex count, and moves nothing out of a range the caller keeps.',
     'all edge and vertex ranges and all sequences of loads, for every kind of vertex and edge container', 'Mistakes hide in one of many container combinations, in repeated loads, and in inputs whose largest id is only a target.',
     DYNF, [('load_edges, load_vertices, emplace_edge', 'dynamic_graph.hpp')], PN + ' Fifteen container and value combinations are analysed; set and map edge containers keep their own rule about duplicates.',
     'loop-body effect rules and ordering facts on the value-resolved CFG', IP)
prop('C05', 'Dynamic graph queries report exactly the stored graph',
     'Vertex count, ids, lookup and values, edge count and emptiness, and the edges, incoming edges and degrees of a vertex are those stored, also for ids out of range. '
     'For an edge and for an incoming edge, the source and target ids, the source and target vertices and the value are those of the edge that was loaded, whichever end it is reached from. '
     'Queries modify nothing, and clearing removes everything.',
     'all graphs, ids and edges, for every kind of vertex and edge container', 'Incoming edges and map-based vertices take paths of their own through each customisation point, most of which tests do not combine.',
     DYNF + ['include/graph/adj_list/edge_descriptor.hpp', 'include/graph/adj_list/detail/graph_cpo.hpp', 'include/graph/detail/edge_cpo.hpp'], [('accessors and customisation functions', 'dynamic_graph.hpp'), ('edge and vertex descriptors and the functions answering through them', 'adj_list/')],
     PN, 'value analysis of every accessor on the inlined CFG', IP)
prop('C06', 'Every dynamic graph constructor gives the graph its arguments describe',
     'Constructing from edges and vertices, from a largest vertex id and edges, or from an edge list gives the graph that loading them gives, vertices first; an empty list gives a graph without vertices, and a largest id that cannot be counted is rejected. '
     'A graph value is stored and returned unchanged.',
     'all constructor arguments', 'Empty lists and boundary ids are corner cases.', DYNF, [('constructors', 'dynamic_graph.hpp')],
     PN + ' The lists of partition starts are not observable in a dynamic graph and are not judged.', 'effect rules and ordering facts on every constructor', IP)
UALF = ['include/graph/container/undirected_adjacency_list.hpp', 'include/graph/container/detail/undirected_adjacency_list_impl.hpp']
prop('C07', 'Creating and erasing undirected edges keeps both ends\' edge lists intact',
     'Creating an edge puts it at the end of the edge list of both its vertices (once for a self-loop) with the given value, and erasing an edge, a range of edges, all edges of a vertex, vertices or everything takes each erased edge out of both lists, frees it once and leaves every other edge linked in order. '
     'The edge count of the graph and of each vertex always equals the number of edges in their lists, and erasure returns the edge that followed. '
     'Adding a vertex or resizing gives the vertices the given values and touches no other edge.',
     'all states of the lists, positions of the erased edge in each of them, and edge ends', 'Which link is first, last or only in each of the two lists is a product of cases that depends on the history of insertions and erasures.',
     UALF, [('link_back, unlink, create_edge, erase_edge, clear_edges, resize_vertices', 'undirected_adjacency_list_impl.hpp')],
     'Every path of each operation is replayed on a symbolic heap whose lists are arbitrary well-formed chains; loops over a list are judged per iteration. Assumes distinct edges are distinct objects and list lengths equal the recorded sizes (the invariant each operation is shown to keep).',
     'symbolic-heap path rules on the inlined CFG', IP)
prop('C08', 'Undirected graphs are built, copied, moved and destroyed without losing an edge',
     'A graph built from edges and vertices, or from an edge list, has the vertices given in order with their values, every id an edge names, and exactly the given edges with their values; source ids that decrease are rejected where order is required, and an empty input gives an empty graph. '
     'A copy has a copy of every vertex and of every edge exactly once; a move takes over all vertices, edges and counts, freeing what the target held and leaving the source empty; a swap exchanges everything, the graph value included. '
     'Destroying a graph frees every edge.',
     'all graphs and inputs', 'Self-loops, empty inputs, counts left behind in moved-from graphs and edges reachable from two lists are cases tests sample once each.',
     UALF, [('constructors, assignment, swap and destructor', 'undirected_adjacency_list_impl.hpp')],
     'Creation and clearing of edges are judged separately; here the paths of each operation are replayed on which graph holds which vertices, edges and counts. Assumes well-formed lists in the copied graph. Release of a partly built graph when an exception is thrown is left to the delegating constructor and not judged.',
     'ownership-state and loop rules on the inlined CFG', IP)
prop('C09', 'Undirected graph iteration and queries report exactly the lists',
     'Iterating the edges of a vertex delivers each edge in its list once with the queried vertex as source and the other end as target, and iterating the edges of the graph delivers the edges of each vertex in turn, so an edge once from each end; incoming edges are the same edges. '
     'Stepping an iterator either way, the other end of an edge, its ends and value, degrees, counts, and vertex lookup answer from the stored lists and modify nothing.',
     'all graphs, vertices and edges, const or not', 'An edge is reached from either end through different links; tests walk a few small graphs.',
     UALF, [('edge iterators, other_vertex, customisation functions', 'undirected_adjacency_list.hpp')],
     'Iterators and accessors are judged against list state for arbitrary well-formed lists. Same list invariant as for creation and erasure.', 'symbolic-heap path rules on the inlined CFG', IP)
CPOF = ['include/graph/adj_list/detail/graph_cpo.hpp', 'include/graph/detail/edge_cpo.hpp', 'include/graph/adj_list/edge_descriptor_view.hpp', 'include/graph/adj_list/vertex_descriptor_view.hpp']
prop('P01', 'Edge lookups and derived counts agree with the edges of the graph',
     'For a graph that provides only its vertices, edges and targets, looking up an edge between two vertices, by descriptor or by id, outgoing or incoming, gives an edge that joins exactly those two, or the end when there is none, and asking whether one exists answers exactly that. '
     'Degrees, edge counts and emptiness count exactly the edges that iteration delivers, and the ends reported for an edge are the vertices it joins. '
     'A graph that defines no partitions is one partition holding every vertex; other partitions are empty.',
     'all graphs and vertices', 'Each lookup form has its own default implementation, and mixed up ends or a skipped last candidate show only on particular pairs of vertices.',
     CPOF, [('default implementations of the lookup, degree, count and partition functions', 'graph_cpo.hpp')], PN, 'scan-completeness and value analysis of each default over opaque graphs', IP)

prop('P02', 'Standard containers of edge ranges are graphs as documented',
     'A random access range, or an associative container, whose elements are ranges of integers, pairs, tuples or objects is a graph: its vertices are its elements, named by index or by key, and the edges of a vertex are the elements of its range in order. '
     'The target of an edge is the integer itself or the first part of the element, its value is the documented rest, and its source is the vertex whose range holds it. '
     'Vertex values, degrees and edge counts are those of the ranges, all with the documented types, and none of these queries modifies the graph.',
     'all graphs that are standard containers, every edge element pattern', 'Every combination of vertex container and edge element selects its own default through overload resolution; the tests sample a few with small values.',
     CPOF, [('default implementations', 'graph_cpo.hpp'), ('element patterns', 'edge_value_concept.hpp')], PN, 'value analysis of each default over 16 opaque container graphs; documented types as compile-time witnesses', IP)

prop('P03', 'Operations documented as constant time do not scan',
     'On the provided containers and on standard containers used as graphs, finding a vertex, asking for its id, value, degree or first edge, the ends or the value of an edge, and the number of vertices or edges of a container that keeps count takes time independent of the size of the graph and of the degree. '
     'Looking up an edge in an edge container keyed by target does not examine the edges one by one.',
     'all graph sizes and degrees', 'A scan gives the right answers, only slowly, so no test of results can notice it; cost must hold for every size.',
     CPOF, [('default implementations', 'graph_cpo.hpp'), ('queries', 'compressed_graph.hpp'), ('queries', 'dynamic_graph.hpp')], PN, 'effect analysis: no path of a constant-time operation contains a loop or a linear container operation', IP)

prop('P04', 'A graph\'s own version of an operation is used, member first',
     'When a graph brings its own version of a graph operation, the generic operation calls exactly that version, once, with the caller\'s arguments, and gives back its result; a member function takes precedence over a free function and both over the default. '
     'Ranges of plain elements returned by a customisation become the edges of the vertex that was asked for, and iterators returned for the ends of an edge become the vertices they denote. '
     'Vertex, edge and graph values keep the exact type the customisation returns, whether the graph is passed as const or not.',
     'all graph types that customise an operation, all arguments', 'Each of the operations resolves the customisation by itself, in several overloads; a wrong order or a default used in place of a customisation goes unnoticed unless the two disagree.',
     CPOF, [('choice between member, free function and default', 'graph_cpo.hpp')], PN, 'value and effect analysis of every operation over graphs whose member and free functions are distinct opaque calls; result types as compile-time witnesses', IP)

prop('X01', 'Exceptions thrown by user functions reach the caller',
     'An exception thrown by a value function, a visitor callback, an output iterator, a projection, a customised graph operation, or by copying a value function, passes through the library to the caller: it never ends the program because it crosses a non-throwing function, and it is never swallowed. '
     'Building a vertex, edge, incidence or neighbor list view, and stepping its iterators, is declared non-throwing when moving the value function cannot throw.',
     'all points at which a user function can throw', 'The tests hardly throw from user functions, and each call site in each overload can get its exception specification wrong by itself.',
     [H + 'algorithm', H + 'views', H + 'adj_list', H + 'container'], [('every call site an exception can cross', 'include/graph')],
     'Interprocedural analysis of the unreduced IR of all drivers with every user operation throwing: at each call site inside the library the exception must continue to the caller. Weight functions and, inside views, graph queries are documented as non-throwing and not judged. Running out of memory is not judged.',
     'interprocedural exception-flow (effect) analysis on LLVM IR; compile-time witnesses for documented non-throwing operations', IP)

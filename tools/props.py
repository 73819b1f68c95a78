def P(id, title, statement, over, quant, why, files, mech, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)],
                                               "state": [dict(name=a, meaning=b, where=c) for a, b, c in state]}}


NOT_APPLICABLE = []
PROPS = [
    P("C01", "Every result is a complete partition and its reported cut is real",
      "Whenever a partition is requested for a graph, the call returns, assigns every vertex of the caller's graph (in the "
      "caller's numbering) to one of the k requested blocks, and the returned number is exactly the total weight of the edges "
      "whose ends lie in different blocks. This holds for every preset, every way of handing over a graph and of stating the "
      "request, every number of threads and every earlier use of the object.",
      ["inputs", "configurations", "histories", "schedules"],
      "all graphs (weighted or not, with isolated vertices, empty, stars, cliques, ...), all presets and partitioning modes (deep, k-way, recursive bipartitioning, v-cycles) with any options, k >= 1, any history of calls, any schedule",
      "The end-to-end tests partition a handful of graphs with a few presets and one call each; they do not run with this build, and cannot reach the histories and schedules.",
      ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/partitioning/deep/deep_multilevel.cc", "kaminpar-shm/partitioning/helper.cc",
       "kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/metrics.h"],
      ["compute_partition rearranges, cuts off isolated vertices, partitions, reintegrates and maps back",
       "projection of coarse partitions, extension of block-induced subgraphs"],
      [("_was_rearranged", "graph already permuted", "kaminpar.h"), ("_permutation", "caller's id -> internal id", "csr_graph.h")]),
    P("C02", "Balance constraint holds on graphs with unit vertex weights",
      "For graphs with unit vertex weights, every returned partition keeps every block within its limit: (1+eps) times the "
      "average block weight rounded up, or the explicitly requested maximum block weights when they admit the whole graph.",
      ["inputs", "configurations", "histories", "schedules"],
      "all graphs with unit vertex weights, all presets and modes that refine the whole partition with a balancer, all eps and maximum weights with enough room in total",
      "Tests check balance on very few inputs, one thread count and default settings only.",
      ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/refinement/balancer/greedy_balancer.cc", "kaminpar-shm/partitioning/helper.cc", "README.MD"],
      ["greedy balancer after every refinement", "block limits of intermediate k are sums of final limits"],
      [("_max_block_weights", "limit of every final block", "kaminpar.h PartitionContext")]),
    P("C03", "Single-threaded runs are reproducible, objects are independent",
      "With one thread, the result of a call depends only on the history of its own object since its construction and seeding; "
      "other objects used in between have no influence. Arrays handed over by copy are never changed.",
      ["histories", "inputs", "configurations"],
      "all single-threaded histories (graphs, reseeding, presets, modes, options, k), interleaved with arbitrary other objects",
      "No test repeats a history; nondeterminism or leaking global state only shows when histories are compared.",
      ["kaminpar-shm/kaminpar.cc", "kaminpar-common/random.cc", "kaminpar-common/random.h"],
      ["per-thread generators derived from the seed", "all partitioner state lives in the object"],
      [("Random::_seed", "global seed", "random.cc")]),
    P("C04", "A compressed graph is the graph it was built from",
      "Compressing a graph and reading it again, by any way of iterating over neighborhoods (whole, limited, stopped early, in "
      "parallel), and through degrees, weights and totals, gives exactly the vertices, edges and weights of the original graph, "
      "also while isolated vertices are hidden and after they came back; chunks compressed concurrently are placed in order.",
      ["inputs", "configurations", "schedules"],
      "all graphs (any degree, intervals, gaps, weights), sequential, parallel and incremental builders, VarInt and StreamVByte, 32/64 bit ids, any schedule",
      "Tests compress a few tiny graphs; split neighborhoods need degree >= 10000, intervals and code widths need particular gaps, and the parallel builder depends on the schedule.",
      ["kaminpar-common/graph_compression", "kaminpar-shm/datastructures/compressed_graph.h", "kaminpar-shm/graphutils/compressed_graph_builder.cc"],
      ["gap and interval encoding, high degree splitting", "ticket order of the parallel builder"],
      [("compressed edges", "byte array", "CompressedNeighborhoods")]),
    P("C05", "Integer codecs and packed arrays return what was stored",
      "Every integer written with the variable length codecs (plain, signed, marked, StreamVByte with any gap kind) or stored in "
      "a compact or ranked array is read back unchanged, with exactly the announced number of bytes.",
      ["inputs", "histories"],
      "all values of every supported width, any sequence of writes and reads, both decoding variants",
      "Tests try some values; errors sit at byte boundaries, the last byte of 64 bit values and group ends.",
      ["kaminpar-common/graph_compression/varint.h", "kaminpar-common/graph_compression/streamvbyte.h",
       "kaminpar-common/datastructures/compact_static_array.h", "kaminpar-common/datastructures/bitvector_rank.h"],
      ["encode/decode pairs"], []),
    P("C06", "Rearranging a graph only renames it; isolated vertices come back",
      "Sorting vertices by degree buckets or any bucket function, and reordering edges, yields the same weighted graph under the "
      "reported permutation, with correct buckets and totals. Isolated vertices that were cut off come back unchanged, and "
      "filling them into a partition keeps the other vertices' blocks and exceeds no block limit while another block has room "
      "(unit weights).",
      ["inputs", "schedules"],
      "all graphs, any number of threads, any bucket function, any block limits",
      "Tests permute tiny fixed graphs; the permutation is computed with per-thread offsets, so errors need several threads and bucket patterns.",
      ["kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/graphutils/permutator.h", "kaminpar-shm/datastructures/csr_graph.cc"],
      ["compute_node_permutation_by_generic_buckets", "remove/integrate_isolated_nodes", "assign_isolated_nodes"],
      [("_buckets", "first vertex of every degree bucket", "csr_graph.h")]),
    P("C07", "Contraction yields the quotient graph; projection keeps the cut",
      "Contracting a clustering gives a graph with one vertex per cluster, whose weight is the sum of its members, and one edge "
      "per pair of adjacent clusters with the summed weight, without self loops; every algorithm gives this graph (up to "
      "numbering). A partition of the coarse graph projected to the fine one has the same cut and block weights, through "
      "every level of a hierarchy.",
      ["inputs", "configurations", "schedules"],
      "all graphs and clusterings (labels with gaps, singletons, one cluster), all contraction algorithms, buffers reused between calls, any schedule",
      "Tests contract tiny graphs with one algorithm; the buffered, unbuffered and two-phase paths depend on degree, fill level and schedule.",
      ["kaminpar-shm/coarsening/contraction", "kaminpar-shm/coarsening/cluster_coarsener.cc"],
      ["contract_clustering", "project_up, project_down", "coarsen, uncoarsen"],
      [("_hierarchy", "stack of coarse graphs", "cluster_coarsener.h")]),
    P("C08", "Clusterings respect the weight limit and communities",
      "A clustering assigns every vertex a label below n; no cluster with several vertices is heavier than the maximum "
      "cluster weight (with several threads: by no more than one vertex per further thread), and if communities are given, "
      "no cluster, and hence no coarse vertex of a hierarchy, contains vertices of different communities.",
      ["inputs", "configurations", "histories", "schedules"],
      "all graphs, limits, communities, two-hop and isolated-vertex strategies, tie breaking, phases; objects reused between graphs; any schedule",
      "Tests do not check clusterings at all; violations need particular favored clusters, strategies or interleavings.",
      ["kaminpar-shm/label_propagation.h", "kaminpar-shm/coarsening/clustering/lp_clusterer.cc"],
      ["move_cluster_weight", "two-hop cells with compare-and-swap", "accept_neighbor"],
      [("_favored_clusters", "best cluster ignoring limits / two-hop cell", "label_propagation.h"), ("_cluster_weights", "tracked weights", "label_propagation.h")]),
    P("C09", "Moves respect block limits; refinement keeps partitions valid and the cut",
      "Vertices moved concurrently with a limit never push a block beyond it, weights stay exact, and a move is refused only for "
      "lack of room. Every refinement algorithm returns a complete partition with exact block weights; label propagation and "
      "balancing keep blocks within the larger of their limit and initial weight under any schedule, as does FM on one thread; Jet (any schedule), FM and label propagation (one thread) never increase the cut; converged label propagation is locally "
      "optimal, FM on one thread starting from all border vertices takes an improving move if there is one, and label propagation never mixes communities.",
      ["inputs", "configurations", "histories", "schedules"],
      "all graphs (plain and compressed), partitions, block limits, communities, refinement settings and sequences of refiners; refiners reused for several graphs; any schedule",
      "No test runs a refinement algorithm; a lost check between reading and adding a weight needs two threads at the same block.",
      ["kaminpar-shm/datastructures/partitioned_graph.h", "kaminpar-shm/refinement/lp/lp_refiner.cc", "kaminpar-shm/refinement/fm/fm_refiner.cc",
       "kaminpar-shm/refinement/jet/jet_refiner.cc", "kaminpar-shm/refinement/multi_refiner.cc"],
      ["move_block_weight (compare and swap)", "delta partition, commit on a new best prefix", "best partition and rollback of Jet"],
      [("_block_weights", "shared block weights", "partitioned_graph.h"), ("NodeTracker", "owner of every vertex", "node_tracker.h")]),
    P("C10", "The balancer terminates and removes overload",
      "The greedy balancer returns on every partition and under every schedule, never makes a block heavier than the larger of "
      "its limit and its initial weight, never increases the total overload, leaves feasible partitions alone and reports "
      "whether the result is feasible. With unit vertex weights and limits that admit the whole graph the result is feasible.",
      ["inputs", "configurations", "histories", "schedules"],
      "all graphs, partitions (heavy blocks, empty blocks), uniform and individual limits, 1-8 threads, one balancer used for several graphs",
      "No test runs the balancer; it used to run forever if no block could take a vertex without neighbors elsewhere.",
      ["kaminpar-shm/refinement/balancer/greedy_balancer.cc", "kaminpar-common/datastructures/binary_heap.h"],
      ["one priority queue and worker per overloaded block", "random feasible target for internal vertices"],
      [("_pq", "candidates per block", "greedy_balancer.cc"), ("_feasible_target_blocks", "blocks below the average", "greedy_balancer.cc")]),
    P("C11", "Gain caches agree with the partition",
      "After any moves, by any number of threads, a gain cache reports for every vertex and block exactly the weight of the edges "
      "between them, the resulting gains, border vertices, and all (adjacent) blocks once when iterating; tracked block weights "
      "agree, too. A delta cache adds a searcher's private moves and leaves the shared cache unchanged.",
      ["inputs", "histories", "schedules"],
      "all graphs, numbers of blocks, cache and delta cache types, sequences of private and shared moves, any schedule, caches reused for other graphs",
      "Tests check some caches on tiny graphs with sequential moves; displaced hash entries, wide rows, private overlays and parallel moves are not reached.",
      ["kaminpar-shm/refinement/gains", "kaminpar-common/datastructures/compact_hash_map.h", "kaminpar-shm/datastructures/delta_partitioned_graph.h"],
      ["initialize, move, gain, conn, gains", "DeltaGainCache", "CompactHashMap"],
      [("_gain_cache", "connections of vertices to blocks", "*_gain_cache.h"), ("_gain_cache_delta", "private differences", "delta_gain_caches.h")]),
    P("C20", "Distributed partitions are complete, consistent and balanced",
      "Every call of the distributed partitioner returns, on every PE, and assigns each of the caller's vertices to one of the "
      "blocks 0..k-1; all PEs report the same edge cut, that of the whole partition. Graphs without vertex weights are partitioned "
      "within the balance constraint unless initial partitioning is RANDOM; the caller's arrays are not changed.",
      ["inputs", "configurations", "histories"],
      "all graphs, distributions to 1-8 PEs (also PEs without vertices), k, imbalances, presets, clustering, balancing and refinement algorithms, threads",
      "No test of the distributed partitioner runs in the test suite at all; PE groups, empty PEs and unusual k need many combinations.",
      ["kaminpar-dist/dkaminpar.cc", "kaminpar-dist/partitioning", "kaminpar-dist/refinement", "kaminpar-dist/coarsening", "kaminpar-dist/graphutils"],
      ["dKaMinPar::import_graph, compute_partition", "DeepMultilevelPartitioner::partition", "KWayMultilevelPartitioner::partition"],
      [("levels, PE groups", "stacks of coarse and replicated graphs", "deep_multilevel.cc")]),
    P("C18", "Collective exchanges deliver every message exactly once",
      "On every communicator, whatever was used before, every variant of the sparse all-to-all hands each PE exactly the messages "
      "every PE (itself included) sent to it, once, in order, labelled with the sender; the sparse allreduce leaves the sum on "
      "every PE and the tree reduction combines every PE's value exactly once on the first PE. All of these return.",
      ["inputs", "histories", "schedules"],
      "all numbers of PEs, message patterns and sizes, element types, groups of PEs (communicators created, used, freed and created again)",
      "The tests for the communication layer need MPI and are not part of the suite; the grid exchange treats every number of PEs differently.",
      ["kaminpar-mpi/grid_alltoall.h", "kaminpar-mpi/grid_topology.h", "kaminpar-mpi/alltoall.h", "kaminpar-mpi/sparse_alltoall.h",
       "kaminpar-mpi/sparse_allreduce.h", "kaminpar-mpi/binary_reduction_tree.h", "kaminpar-mpi/wrapper.h"],
      ["sparse_alltoall_grid", "GridTopology", "sparse_alltoall_complete, sparse_alltoall_alltoallv", "sparse_alltoall"],
      [("row_comm, col_comm", "communicators of the grid", "grid_topology.h")]),
    P("C19", "All PEs hold one graph: views, cut messages and contraction agree",
      "However a graph is stored (plain, compressed, rearranged) and distributed, the owners and ghosts of all PEs describe it exactly: IDs, owners, "
      "weights, edges, distributions, totals and cut sizes. Messages along cut edges reach each neighbouring PE or ghost exactly once. Contracting any "
      "clustering gives the quotient graph, seen consistently by all PEs, whatever is moved between PEs for balance; projecting back follows the mapping.",
      ["inputs", "configurations"],
      "all graphs, distributions (PEs without vertices too), clusterings (empty, one cluster, all on one PE), balance limits, PEs and threads",
      "The tests of the distributed library need MPI and are not run; a wrong ghost shows only for some distributions.",
      ["kaminpar-dist/datastructures", "kaminpar-dist/coarsening/contraction", "kaminpar-dist/graphutils/communication.h",
       "kaminpar-dist/graphutils/synchronization.h", "kaminpar-dist/graphutils/rearrangement.h"],
      ["DistributedCSRGraph, DistributedCompressedGraph", "contract_clustering", "contract_local_clustering", "sparse_alltoall_interface_to_pe, _to_ghost"],
      [("nodes, ghosts", "global_to_ghost, ghost_to_global, ghost_owner", "distributed_csr_graph.h"),
       ("shifts", "overload and underload of PEs", "global_cluster_contraction.cc")]),
    P("C22", "Scattering blocks and replicating graphs loses nothing",
      "Each block-induced subgraph arrives complete at the PEs that hold the block, blocks and PEs being assigned evenly; the partitions "
      "found there come back as parts of the block, the best if several PEs hold it. Copies of a graph on every PE or PE group equal it, "
      "and of the partitions offered by them one with the smallest cut is used by all PEs, with exact block weights.",
      ["inputs", "configurations"],
      "all graphs, distributions, partitions, numbers of blocks (also 1, more and fewer than PEs), copies, PEs and threads",
      "No test of this code runs in the suite; the distribution of blocks differs with each number of blocks and PEs.",
      ["kaminpar-dist/graphutils/subgraph_extractor.cc", "kaminpar-dist/graphutils/replicator.cc"],
      ["extract_and_scatter_block_induced_subgraphs", "copy_subgraph_partitions", "BlockExtractionOffsets",
       "allgather_graph, replicate_graph", "distribute_best_partition, distribute_partition"],
      [("subgraphs, subgraph_offsets, mapping", "ExtractedLocalSubgraphs", "subgraph_extractor.h")]),
    P("C23", "Distributed refiners, balancers and clusterers keep their promises",
      "After any distributed refiner or balancer all PEs agree on every block, and cached block weights are exact; no block grows beyond its limit (unless "
      "configured to accept it), balancers leave a balanced partition alone, Jet makes neither imbalance nor, if balanced, the cut worse. Clusterers name one "
      "cluster per vertex, known alike to all PEs, matchings join adjacent pairs only. All of these return.",
      ["inputs", "configurations", "schedules"],
      "all graphs, distributions, partitions (overloaded, empty blocks), limits, refiner/balancer/clusterer options, 1-8 PEs, two threads each",
      "No test of these algorithms is in the suite; the cluster balancer used to crash or run forever, the colored refiner to lose block weights.",
      ["kaminpar-dist/refinement", "kaminpar-dist/coarsening/clustering", "kaminpar-dist/algorithms/greedy_node_coloring.cc"],
      ["LPRefiner, ColoredLPRefiner, JetRefiner", "NodeBalancer, ClusterBalancer", "GlobalLPClusterer, HEMClusterer"],
      [("_p_graph", "blocks of vertices and ghosts, block weights", "distributed_partitioned_graph.h"), ("_pqs, _weight_buckets", "move candidates", "balancer/")]),
    P("C12", "Dividing blocks follows one tree of block numbers and loses nothing",
      "When a partition into k' blocks is extended, the new blocks of block b are those of its node in the tree that halves k (sizes of a level differ by at "
      "most one), so block numbers and explicit limits stay associated with the same vertices. The graphs extracted for the blocks are exactly the induced "
      "subgraphs, also when cut up in place, and the partitions found for them are put together under the reported mapping.",
      ["inputs", "configurations", "schedules"],
      "all k, intermediate k', graphs (weighted or not, compressed or not), partitions (empty blocks too), ways of extending, threads, reused memory",
      "Wrong numbering shows only for some k that are no powers of two, or with unequal limits; memory errors only for some sequences of graphs.",
      ["kaminpar-shm/partitioning/partition_utils.cc", "kaminpar-shm/partitioning/helper.cc", "kaminpar-shm/graphutils/subgraph_extractor.cc"],
      ["compute_final_k, compute_first_sub_block", "create_kway_context, create_twoway_context", "extend_partition, extend_partition_lazy_extraction",
       "extract_subgraphs, extract_subgraph, extract_subgraphs_sequential, copy_subgraph_partitions"],
      [("SubgraphMemory", "memory shared by nested subgraphs", "subgraph_extractor.h"), ("block", "position in the tree", "helper.cc")]),
    P("C21", "Bipartitions are complete, exact and never get worse",
      "Every bipartitioner assigns each vertex to block 0 or 1, with exact block weights, whatever graph its object was used for before; breadth-first search "
      "overloads a block only if the other has no room, graph growing stops at its share, the pool returns a feasible bipartition if one is known. Two-way "
      "refinement never increases overload or cut; sequential coarsening yields quotient graphs within the cluster weight limit, projection keeps the cut.",
      ["inputs", "histories", "configurations"],
      "all graphs (isolated vertices, weights, one vertex, compressed), limits (unequal, infeasible), options, earlier uses of the same object",
      "Initial partitioning is random and its results are improved later, so defects only lower the quality or break balance for rare graphs.",
      ["kaminpar-shm/initial_partitioning"],
      ["InitialBFSBipartitioner, InitialGGGBipartitioner, InitialRandomBipartitioner, InitialPoolBipartitioner", "InitialFMRefiner",
       "InitialCoarsener, SequentialGraphHierarchy", "InitialMultilevelBipartitioner, InitialBipartitionerWorkerPool"],
      [("_block_weights, _partition", "the bipartition under construction", "initial_flat_bipartitioner.h"),
       ("_clustering", "leaders, weights and locks of clusters", "initial_coarsener.h"), ("_moves", "moves since the accepted state", "initial_fm_refiner.h")]),
    P("C15", "Graph files are read and written as the formats describe",
      "Every reader (plain, compressed, any vertex order, any number of PEs and way of distributing) yields exactly the graph that a METIS or ParHIP file "
      "describes, whatever its comments, spaces, weights, sizes or field widths; every PE gets its share and each vertex belongs to one PE. What is written "
      "(graphs, compressed graphs, partitions, block sizes) describes what is in memory; the validator accepts exactly the undirected simple graphs.",
      ["inputs", "configurations"],
      "all valid METIS and ParHIP files (empty graph, no final newline, page-sized, all formats and widths), id and weight widths, 1-8 PEs, distributions",
      "No test reads a file: defects showed only for weighted graphs on several PEs, page-sized files, trailing isolated vertices or rare totals.",
      ["apps/io"],
      ["io::csr_read, io::compressed_read, io::read, metis::write, parhip::write, compressed_binary::read/write", "dist::io::metis, dist::io::parhip",
       "io::partition, io::remapping, validate_undirected_graph"],
      [("_position", "next character of a text file", "file_toker.h"), ("first_node, last_node, start_pos", "part of the file that a PE reads", "dist_metis_parser.cc")]),
    P("C16", "The executables do to the graph in the file what they say",
      "KaMinPar and dKaMinPar write a partition of the graph in the file; the printed cut, imbalance, feasibility, block weights and sizes are those of the "
      "written partition, single-threaded runs equal the library's result, the best of several repetitions is kept, rearranged graphs are the input renamed. "
      "Limits that cannot hold and invalid graphs (--validate) are refused without output; a dumped configuration is complete and restores every option. "
      "The tools (components, properties, partition properties, edge weights, rearrangement, compression) report and write functions of the graph.",
      ["inputs", "configurations"],
      "graphs (isolated vertices, weights, empty), formats, presets, orders, limits, options, compression, 1-4 threads and PEs, repetitions",
      "No test starts an executable; options interact (compression, order, rearrangement, repetitions) and configuration files were unreadable or incomplete.",
      ["apps", "kaminpar-cli"],
      ["apps/KaMinPar.cc, apps/dKaMinPar.cc", "kaminpar_arguments.cc, dkaminpar_arguments.cc", "apps/tools/*.cc", "KaMinPar::compute_partition"],
      [("ctx", "options and derived settings", "kaminpar.h"), ("partition", "what is written to the file", "KaMinPar.cc")]),
    P("C13", "Priority queues always give an extreme element and lose none",
      "Whatever the history of pushes, changes of priority, removals, pops, clearings and reuse, every priority queue contains exactly the elements that were "
      "pushed and not taken out, with their latest keys; the top has an extreme key (minimum and maximum for two-sided queues), queues that share positions "
      "or a forest do not disturb each other.",
      ["histories", "inputs"],
      "all histories, element ids and key types (32/64 bit, unsigned, floating point; ties), capacities, numbers of queues per forest",
      "A heap is out of order only after particular sequences; refiners then merely take worse moves or lose vertices, and no test fails.",
      ["kaminpar-common/datastructures/binary_heap.h"],
      ["SharedBinaryHeap, BinaryHeap", "DynamicBinaryForest, DynamicBinaryMinMaxForest", "DynamicBinaryHeap"],
      [("_heap", "entries in heap order", "binary_heap.h"), ("_id_pos", "position of every element", "binary_heap.h")]),
    P("C14", "Containers behave as the maps, sets and sequences they replace",
      "For every history, hash maps, sparse and fast-reset maps, rating maps, markers, queues, static arrays and bounded vectors return what a map, a set or "
      "a sequence would, also after growing, clearing (any number of times), resizing, moving and restricting. Shared containers return the sum or the union "
      "of what all threads put in; tickets of circular vectors get exactly the sum of all earlier amounts.",
      ["histories", "inputs", "schedules"],
      "all histories, keys (adversarial for hashing), capacities, value and key types, 1-6 threads, 2^29 and more resets",
      "Defects need a particular history: growth after a clear, displaced entries, a time stamp running out, a chunk filling up.",
      ["kaminpar-common/datastructures"],
      ["DynamicFlatMap, DynamicRememberingFlatMap, FixedSizeSparseMap, SparseMap, CompactHashMap, RatingMap", "FastResetArray, ConcurrentFastResetArray, Marker",
       "Queue, StaticArray, MaxSizeVector, NavigableLinkedList, ConcurrentCircularVector"],
      [("_timestamp, _marker_id", "what counts as present", "dynamic_map.h, marker.h"), ("_sparse, _dense", "positions and entries", "sparse_map.h"),
       ("_head, _tail", "part of the buffer that is the queue", "queue.h")]),
    P("C17", "Parallel primitives and integer arithmetic equal their definitions",
      "For every input, number of threads and schedule, reductions, maxima, differences, prefix sums and aligned prefix sums return what their sequential "
      "definitions say; parallel loops over ranges and buffers visit every element exactly once with the right owner. Powers of two, logarithms, divisions, "
      "work ranges and their inverse, degree buckets and quantiles are exact over the whole range of their types; shuffles are permutations.",
      ["inputs", "schedules"],
      "arrays of 0-3000 elements, negative and extreme values, 32/64 bit and floating-point types, alignments 0-8, empty buffers, 1-8 threads",
      "Tests sample a few small positive 32-bit values: wrong results needed negative, large, zero or single values, or particular splits of the range.",
      ["kaminpar-common/parallel", "kaminpar-common"],
      ["parallel::accumulate, max_element, max_difference, prefix_sum, aligned_prefix_sum", "chunked_for, deterministic_for, vector_ets",
       "math::compute_local_range(_rank), floor2, ceil2, div_ceil, percentile", "degree_bucket, lowest_degree_in_bucket, Random::shuffle"],
      [("prefix_sums", "offset of every worker", "aligned_prefix_sum.h"), ("cur, offset, current_buf", "cursor over the buffers", "loops.h")]),
]

From cc3c9527e9f711d7bb0d92aede5fcf66e620f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 01/55] fix: greedy balancer: do not retry unmovable internal
 nodes forever

If no feasible target block can take an internal node of an overloaded
block, the node was put back into the PQ and popped again immediately, so
the balancer (and compute_partition()) never returned. Drop the node
instead.
---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..0399a4b 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,9 +201,11 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
             add_to_pq(from, u, u_weight, actual_relative_gain);
           }
+          // Otherwise, no feasible target block can take the node: drop it, since trying the same
+          // move again and again would never terminate.
         } else { // gain changed after insertion --> try again with new gain
           add_to_pq(from, u, _graph->node_weight(u), actual_relative_gain);
           IFSTATS(++_stats.num_pq_reinserts);
-- 
2.43.0


From e06b61555b0154c131dbc8a626a391fb937a933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 02/55] fix: number of degree buckets of an empty graph

std::distance() on the past-the-begin position yields -1, i.e., an empty
sorted graph claimed to have SIZE_MAX degree buckets. Initializing a sparse
gain cache (e.g., preset 'jet') for it crashed.
---
 kaminpar-shm/datastructures/compressed_graph.cc | 4 +++-
 kaminpar-shm/datastructures/csr_graph.cc        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..23e4e86 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -60,7 +60,9 @@ void CompressedGraph::init_degree_buckets() {
 
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0 // empty graph
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..9f1be95 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -219,7 +219,9 @@ void CSRGraph::init_degree_buckets() {
     );
     auto last_nonempty_bucket =
         std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
-    _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
+    _number_of_buckets = (last_nonempty_bucket == _buckets.rend())
+                             ? 0 // empty graph
+                             : std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
     _number_of_buckets = 1;
-- 
2.43.0


From bce68874b92755ae948decfe94f4fdae89a0731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 03/55] fix: partition into a single block

---
 kaminpar-shm/kaminpar.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 7d36a4e..f94d684 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -368,6 +368,11 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
 
   // Perform actual partitioning
   PartitionedGraph p_graph = [&] {
+    // The partitioners always compute a bipartition first, i.e., cannot handle the trivial partition
+    if (_ctx.partition.k == 1) {
+      return PartitionedGraph(*_graph_ptr, 1, StaticArray<BlockID>(_graph_ptr->n(), 0));
+    }
+
     auto partitioner = factory::create_partitioner(*_graph_ptr, _ctx);
     if (_output_level >= OutputLevel::DEBUG) {
       partitioner->enable_metrics_output();
-- 
2.43.0


From 3ac3d200a7ebd075403fe579cd0b1a0cf034ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 04/55] fix: size of subgraph weight memory after an unweighted
 graph

---
 kaminpar-shm/partitioning/helper.cc | 48 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 8eb408d..66d1a7d 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -281,24 +281,24 @@ void extend_partition_lazy_extraction(
       const NodeID subgraph_memory_n = num_block_nodes + final_kb;
       const EdgeID num_block_edges = block_num_edges[b];
 
+      // The memory might have been used for an unweighted graph (e.g., on a coarser level) before:
+      // thus, the weights have to be resized independently of the nodes and edges
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
@@ -528,24 +528,24 @@ void complete_partial_extend_partition(
       const NodeID subgraph_memory_n = num_block_nodes + final_kb;
       const EdgeID num_block_edges = block_num_edges[b];
 
+      // The memory might have been used for an unweighted graph (e.g., on a coarser level) before:
+      // thus, the weights have to be resized independently of the nodes and edges
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
-
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
-- 
2.43.0


From 436fbb947c67fda0f14d7764f3c64f83b9e71264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 05/55] fix: record the maximum degree of compressed graphs

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..b5543ac 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -221,6 +221,7 @@ public:
     }
 
     _cur_edge += degree;
+    _max_degree = std::max(_max_degree, degree);
 
     if constexpr (kHighDegreeEncoding) {
       const bool split_neighbourhood = degree >= kHighDegreeThreshold;
-- 
2.43.0


From b7634e5cbe5fc8e384b93e0ef9ba4d5eda7f8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 06/55] fix: total edge weight of graphs compressed with
 StreamVByte

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index b5543ac..8900ecc 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -552,6 +552,7 @@ private:
               const EdgeWeight weight = get_edge_weight(neighborhood, i);
               _cur_compressed_edges += encoder.add(adjacent_node);
               _cur_compressed_edges += encoder.add(weight);
+              _total_edge_weight += weight;
 
               i += 1;
             }
-- 
2.43.0


From cf3a2f8017e33b80794c3f15434806f766b5bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 07/55] fix: pad 64 bit values of StreamVByte blocks

---
 kaminpar-common/graph_compression/streamvbyte.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/graph_compression/streamvbyte.h b/kaminpar-common/graph_compression/streamvbyte.h
index feea51f..d060a43 100644
--- a/kaminpar-common/graph_compression/streamvbyte.h
+++ b/kaminpar-common/graph_compression/streamvbyte.h
@@ -179,6 +179,8 @@ private:
 
     for (std::size_t i = 0; i < num_values; ++i) {
       Int value = _buffer[i];
+      [[maybe_unused]] std::size_t num_padding_bytes =
+          required_byte_width(value) - math::byte_width(value);
 
       do {
         *_data_ptr++ = static_cast<std::uint8_t>(value);
@@ -186,7 +188,6 @@ private:
       } while (value > 0);
 
       if constexpr (kIntByteWidth == 8) {
-        std::size_t num_padding_bytes = required_byte_width(value) - math::byte_width(value);
         while (num_padding_bytes > 0) {
           *_data_ptr++ = static_cast<std::uint8_t>(0);
           num_padding_bytes -= 1;
-- 
2.43.0


From 32c64479c7b75a8fbad5ab7aa524dc16f307a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 08/55] fix: isolated and two-hop nodes are only merged within
 their community

---
 kaminpar-shm/coarsening/clustering/lp_clusterer.cc |  4 ++++
 kaminpar-shm/label_propagation.h                   | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
index 8a29feb..ac4dc22 100644
--- a/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
+++ b/kaminpar-shm/coarsening/clustering/lp_clusterer.cc
@@ -178,6 +178,10 @@ public:
     return _max_cluster_weight;
   }
 
+  [[nodiscard]] bool accept_neighbor(const NodeID u, const NodeID v) {
+    return _communities.empty() || _communities[u] == _communities[v];
+  }
+
   template <typename RatingMap>
   [[nodiscard]] ClusterID select_best_cluster(
       const bool store_favored_cluster,
diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index d48da25..a5f82e5 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -886,18 +886,21 @@ protected:
       const NodeID from = 0, const NodeID to = std::numeric_limits<ClusterID>::max()
   ) {
     constexpr ClusterID kInvalidClusterID = std::numeric_limits<ClusterID>::max();
-    tbb::enumerable_thread_specific<ClusterID> current_cluster_ets(kInvalidClusterID);
+    // Current cluster together with one of its nodes
+    tbb::enumerable_thread_specific<std::pair<ClusterID, NodeID>> current_cluster_ets(
+        kInvalidClusterID, 0
+    );
 
     tbb::parallel_for(
         tbb::blocked_range<NodeID>(from, std::min(_graph->n(), to)),
         [&](tbb::blocked_range<NodeID> r) {
-          ClusterID cluster = current_cluster_ets.local();
+          auto [cluster, representative] = current_cluster_ets.local();
 
           for (NodeID u = r.begin(); u != r.end(); ++u) {
             if (_graph->degree(u) == 0) {
               const ClusterID cu = derived_cluster(u);
 
-              if (cluster != kInvalidClusterID &&
+              if (cluster != kInvalidClusterID && derived_accept_neighbor(u, representative) &&
                   derived_move_cluster_weight(
                       cu, cluster, derived_cluster_weight(cu), derived_max_cluster_weight(cluster)
                   )) {
@@ -907,11 +910,12 @@ protected:
                 }
               } else {
                 cluster = cu;
+                representative = u;
               }
             }
           }
 
-          current_cluster_ets.local() = cluster;
+          current_cluster_ets.local() = {cluster, representative};
         }
     );
   }
-- 
2.43.0


From a720c36fcbef5d6e69a0cb38982d3db584e45579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 09/55] fix: gain of newly adjacent blocks in the delta gain
 cache for large k

If the gain cache iterates over connections instead of gains, then the delta gain cache must do so
for blocks that only became adjacent through moves recorded in the delta, too.
---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..37bfe20 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,11 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            if constexpr (kIteratesExactGains) {
+              return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            } else {
+              return conn(node, to);
+            }
           });
         }
       }
-- 
2.43.0


From 531c6a32beabd08b400d296a5a77561d42e176f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 10/55] fix: size of the hashing gain cache if it is reused for
 a smaller graph

---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..d02e834 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 1c52bd348da2b8eeaa53baf1be2b14b79e30b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 11/55] fix: reset binary forests before they are resized

---
 kaminpar-common/datastructures/binary_heap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/datastructures/binary_heap.h b/kaminpar-common/datastructures/binary_heap.h
index 1d3423e..d592c20 100644
--- a/kaminpar-common/datastructures/binary_heap.h
+++ b/kaminpar-common/datastructures/binary_heap.h
@@ -486,6 +486,7 @@ public:
   DynamicBinaryForest &operator=(DynamicBinaryForest &&) noexcept = default;
 
   void init(const std::size_t capacity, const std::size_t heaps) {
+    clear(); // remaining elements might have IDs beyond the new capacity
     _id_pos.resize(capacity, kInvalidID);
     _heaps.resize(heaps);
   }
-- 
2.43.0


From a04353e6a7dc61de6ba766c91b61589c28045264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 12/55] fix: distributed block extraction with more blocks than
 PEs

Blocks were addressed by the wrong PE (or by PEs that do not exist) when there are more blocks than
PEs; if the number of blocks is not a multiple of the number of PEs, blocks were also received into
overlapping ranges. With more PEs than blocks, some PEs computed the wrong first block.
---
 .../graphutils/subgraph_extractor.cc          | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/kaminpar-dist/graphutils/subgraph_extractor.cc b/kaminpar-dist/graphutils/subgraph_extractor.cc
index a718317..53b5a34 100644
--- a/kaminpar-dist/graphutils/subgraph_extractor.cc
+++ b/kaminpar-dist/graphutils/subgraph_extractor.cc
@@ -240,7 +240,7 @@ BlockID BlockExtractionOffsets::first_block_on_pe(PEID pe) const {
   if (static_cast<BlockID>(_size) <= _k) {
     return pe * _min_blocks_per_pe + std::min<BlockID>(pe, _rem_blocks);
   } else {
-    if (pe <= _rem_pes * _min_pes_per_block) {
+    if (pe < _rem_pes * (_min_pes_per_block + 1)) {
       return pe / (_min_pes_per_block + 1);
     } else {
       return _rem_pes + (pe - _rem_pes * (_min_pes_per_block + 1)) / _min_pes_per_block;
@@ -256,7 +256,16 @@ BlockID BlockExtractionOffsets::num_blocks_on_pe(PEID pe) const {
 }
 
 PEID BlockExtractionOffsets::first_pe_with_block(BlockID block) const {
-  return std::max<BlockID>(block, block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes));
+  if (static_cast<BlockID>(_size) <= _k) {
+    if (block < _rem_blocks * (_min_blocks_per_pe + 1)) {
+      return block / (_min_blocks_per_pe + 1);
+    } else {
+      return _rem_blocks +
+             (block - _rem_blocks * (_min_blocks_per_pe + 1)) / _min_blocks_per_pe;
+    }
+  } else {
+    return block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes);
+  }
 }
 
 PEID BlockExtractionOffsets::first_invalid_pe_with_block(BlockID block) const {
@@ -264,7 +273,11 @@ PEID BlockExtractionOffsets::first_invalid_pe_with_block(BlockID block) const {
 }
 
 PEID BlockExtractionOffsets::num_pes_with_block(BlockID block) const {
-  return std::max<PEID>(1, _min_pes_per_block + (block < static_cast<BlockID>(_rem_pes)));
+  if (static_cast<BlockID>(_size) <= _k) {
+    return 1;
+  } else {
+    return _min_pes_per_block + (block < static_cast<BlockID>(_rem_pes));
+  }
 }
 
 namespace {
@@ -300,11 +313,21 @@ NoinitVector<GraphSize> exchange_subgraph_sizes(
   NoinitVector<GraphSize> send_subgraph_sizes(sendbuf_size);
 
   p_graph.pfor_blocks([&](const BlockID block) {
-    const PEID first_pe = offsets.first_pe_with_block(block);
-    const PEID first_invalid_pe = offsets.first_invalid_pe_with_block(block);
-    for (PEID to = first_pe; to < first_invalid_pe; ++to) {
-      send_subgraph_sizes[to].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
-      send_subgraph_sizes[to].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
+    auto set_subgraph_size = [&](const std::size_t pos) {
+      send_subgraph_sizes[pos].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
+      send_subgraph_sizes[pos].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
+    };
+
+    if (static_cast<BlockID>(size) <= p_graph.k()) {
+      // One entry per block: each block is sent to exactly one PE
+      set_subgraph_size(block);
+    } else {
+      // One entry per PE: each PE receives exactly one block
+      const PEID first_pe = offsets.first_pe_with_block(block);
+      const PEID first_invalid_pe = offsets.first_invalid_pe_with_block(block);
+      for (PEID to = first_pe; to < first_invalid_pe; ++to) {
+        set_subgraph_size(to);
+      }
     }
   });
 
@@ -359,6 +382,7 @@ SharedGraphs exchange_subgraphs(
 ) {
   SCOPED_TIMER("Exchange subgraphs");
   const PEID size = mpi::get_comm_size(p_graph.communicator());
+  const PEID rank = mpi::get_comm_rank(p_graph.communicator());
 
   std::vector<int> sendcounts_nodes(size);
   std::vector<int> sendcounts_edges(size);
@@ -387,14 +411,9 @@ SharedGraphs exchange_subgraphs(
 
     // Compute recvcounts + rdispls
     {
-      auto compute_offset = [&](const BlockID pe) {
-        const BlockID min_blocks_per_pe = p_graph.k() / size;
-        const BlockID rem_blocks = p_graph.k() % size;
-        return std::max<BlockID>(pe, pe * min_blocks_per_pe + std::min<BlockID>(pe, rem_blocks));
-      };
-
-      const BlockID first_block_on_pe = compute_offset(pe);
-      const BlockID first_invalid_block_on_pe = compute_offset(pe + 1);
+      // We receive the same blocks -- i.e., the ones assigned to this PE -- from each PE
+      const BlockID first_block_on_pe = pe * offsets.num_blocks_on_pe(rank);
+      const BlockID first_invalid_block_on_pe = (pe + 1) * offsets.num_blocks_on_pe(rank);
 
       recvcounts_nodes[pe] = recv_subgraph_displs[first_invalid_block_on_pe].n -
                              recv_subgraph_displs[first_block_on_pe].n;
-- 
2.43.0


From 7849374934f79d986385054542c6358f4b387035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 13/55] fix: keep the factory of the distributed Jet refiner's
 balancer alive

---
 kaminpar-dist/refinement/jet/jet_refiner.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/refinement/jet/jet_refiner.cc b/kaminpar-dist/refinement/jet/jet_refiner.cc
index 9a02b97..46b73b1 100644
--- a/kaminpar-dist/refinement/jet/jet_refiner.cc
+++ b/kaminpar-dist/refinement/jet/jet_refiner.cc
@@ -51,8 +51,10 @@ public:
         _gains_and_targets(p_graph.total_n()),
         _block_weight_deltas(p_graph.k()),
         _locked(p_graph.n()),
-        _balancer(factory::create_refiner(_ctx, _ctx.refinement.jet.balancing_algorithm)
-                      ->create(_p_graph, _p_ctx)) {}
+        _balancer_factory(
+            factory::create_refiner(_ctx, _ctx.refinement.jet.balancing_algorithm)
+        ),
+        _balancer(_balancer_factory->create(_p_graph, _p_ctx)) {}
 
   JetRefiner(const JetRefiner &) = delete;
   JetRefiner &operator=(const JetRefiner &) = delete;
@@ -416,6 +418,8 @@ private:
   StaticArray<BlockWeight> _block_weight_deltas;
   StaticArray<std::uint8_t> _locked;
 
+  // Must outlive the balancer: some balancers return their memory to the factory
+  std::unique_ptr<GlobalRefinerFactory> _balancer_factory;
   std::unique_ptr<GlobalRefiner> _balancer;
 
   double _negative_gain_factor;
-- 
2.43.0


From b6b3c2d6549011054be2544e5ce611b95ac4a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/55] fix: distributed partitioner: a single block contains
 all nodes

---
 .../initial_partitioning/kaminpar_initial_partitioner.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
index 4a3620b..89f490a 100644
--- a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
+++ b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
@@ -20,7 +20,7 @@ namespace kaminpar::dist {
 shm::PartitionedGraph KaMinParInitialPartitioner::initial_partition(
     const shm::Graph &graph, const PartitionContext &p_ctx
 ) {
-  if (graph.n() <= 1) {
+  if (graph.n() <= 1 || p_ctx.k <= 1) {
     return {graph, p_ctx.k, StaticArray<BlockID>(graph.n())};
   }
 
-- 
2.43.0


From 69118481ba4f3d6bfd46f661012dec3fe814ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 15/55] fix: colorings of PEs without nodes

---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 3 ++-
 kaminpar-dist/graphutils/rearrangement.cc                | 3 ++-
 kaminpar-dist/refinement/lp/clp_refiner.cc               | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..439bc9e 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -110,7 +110,8 @@ private:
       return compute_node_coloring_sequentially(*_graph, _ctx.chunks.compute(_input_ctx.parallel));
     }();
 
-    const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+    const ColorID num_local_colors =
+        coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
     const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, _graph->communicator());
 
     TIMED_SCOPE("Allocation") {
diff --git a/kaminpar-dist/graphutils/rearrangement.cc b/kaminpar-dist/graphutils/rearrangement.cc
index 0518cb1..786fb22 100644
--- a/kaminpar-dist/graphutils/rearrangement.cc
+++ b/kaminpar-dist/graphutils/rearrangement.cc
@@ -56,7 +56,8 @@ DistributedCSRGraph rearrange_by_coloring(DistributedCSRGraph graph, const Conte
   auto coloring = compute_node_coloring_sequentially(
       graph, ctx.refinement.colored_lp.coloring_chunks.compute(ctx.parallel)
   );
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
 
   START_TIMER("Allocation");
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..b78a222 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -96,7 +96,8 @@ void ColoredLPRefiner::initialize() {
     );
   }();
 
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
   STATS << "Number of colors: " << num_colors;
 
-- 
2.43.0


From 330ed10702e0f135a277e191b68996d03ab26619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 16/55] fix: contraction to fewer coarse nodes than PEs

The average number of coarse nodes per PE was 0, so that no imbalance was ever feasible.
---
 .../coarsening/contraction/global_cluster_contraction.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..1237f75 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -912,7 +912,7 @@ AssignmentShifts compute_assignment_shifts(
   pe_overload.front() = 0;
   pe_underload.front() = 0;
 
-  const auto avg_cnode_count = static_cast<NodeID>(c_n / size);
+  const auto avg_cnode_count = std::max<NodeID>(1, c_n / size);
   const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
 
   // Determine overloaded PEs
-- 
2.43.0


From def1ced1bba98c56d0d4ffd79d48edb3b153c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 17/55] fix: endless search for a block in the distributed node
 balancer

---
 .../refinement/balancer/node_balancer.cc        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/node_balancer.cc b/kaminpar-dist/refinement/balancer/node_balancer.cc
index b8b71e3..f8b637f 100644
--- a/kaminpar-dist/refinement/balancer/node_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/node_balancer.cc
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #include "kaminpar-dist/refinement/balancer/node_balancer.h"
 
+#include <vector>
+
 #include "kaminpar-mpi/wrapper.h"
 
 #include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
@@ -278,18 +280,27 @@ private:
 
         if (from == to) {
           // Look for next block that can take node
-          while (cur == from ||
-                 _p_graph.block_weight(cur) + weight > _p_ctx.graph->max_block_weight(cur)) {
+          for (BlockID tried = 0; tried < _p_ctx.k; ++tried) {
+            if (cur != from &&
+                _p_graph.block_weight(cur) + weight <= _p_ctx.graph->max_block_weight(cur)) {
+              to = cur;
+              break;
+            }
+
             ++cur;
             if (cur >= _p_ctx.k) {
               cur = 0;
             }
           }
 
-          to = cur;
           perform_move(candidate, true);
         }
       }
+
+      // Nodes that do not fit into any block stay where they are
+      std::erase_if(candidates, [](const Candidate &candidate) {
+        return candidate.from == candidate.to;
+      });
     }
     STOP_TIMER();
     TIMER_BARRIER(_graph.communicator());
-- 
2.43.0


From 1ea2ea0084b9daa486a96ccf502196f66d1514d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 18/55] fix: 32-bit edge cut returned by the distributed
 partitioner

---
 kaminpar-dist/dkaminpar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index d4fb269..8507d92 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -366,7 +366,7 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
     );
   }
 
-  const EdgeWeight final_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight final_cut = metrics::edge_cut(p_graph);
 
 #ifdef KAMINPAR_ENABLE_TIMERS
   GLOBAL_TIMER.reset();
-- 
2.43.0


From 3432004038c66ac4f17e4ab386a1a6039ea6dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 19/55] fix: distributed graph replication to PE groups of
 different sizes

---
 kaminpar-dist/partitioning/deep_multilevel.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/partitioning/deep_multilevel.cc b/kaminpar-dist/partitioning/deep_multilevel.cc
index 03fab55..18f39ea 100644
--- a/kaminpar-dist/partitioning/deep_multilevel.cc
+++ b/kaminpar-dist/partitioning/deep_multilevel.cc
@@ -73,11 +73,14 @@ DistributedPartitionedGraph DeepMultilevelPartitioner::partition() {
     const BlockID num_blocks_on_this_level =
         math::ceil2(graph->global_n() / _input_ctx.coarsening.contraction_limit);
 
-    if (_input_ctx.enable_pe_splitting && current_num_pes > 1 &&
-        num_blocks_on_this_level < static_cast<BlockID>(current_num_pes)) {
-      const PEID num_replications = current_num_pes / num_blocks_on_this_level;
-      // const PEID remaining_pes = current_num_pes % num_blocks_on_this_level;
+    // All PE groups must have the same size: otherwise, the partitions computed by the groups cannot
+    // be mapped back to the PEs
+    PEID num_replications = std::max<PEID>(1, current_num_pes / num_blocks_on_this_level);
+    while (current_num_pes % num_replications != 0) {
+      --num_replications;
+    }
 
+    if (_input_ctx.enable_pe_splitting && num_replications > 1) {
       LOG << "Current graph (" << graph->global_n()
           << " nodes) is too small for the available parallelism (" << current_num_pes
           << "): duplicating the graph " << num_replications << " times";
-- 
2.43.0


From 1e0bf0a6a551a31df15650e28472418a6cbd8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 20/55] fix: set the first displacement before computing prefix
 sums of counts

build_displs_from_value() and build_distribution_from_local_count() included the
uninitialized first entry of a NoinitVector in the prefix sum.
---
 kaminpar-mpi/wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-mpi/wrapper.h b/kaminpar-mpi/wrapper.h
index 0b72de3..f05961b 100644
--- a/kaminpar-mpi/wrapper.h
+++ b/kaminpar-mpi/wrapper.h
@@ -415,8 +415,8 @@ inline Container<T> build_distribution_from_local_count(const T value, MPI_Comm
 
   Container<T> distribution(size + 1);
   allgather(&value, 1, distribution.data() + 1, 1, comm);
-  parallel::prefix_sum(distribution.begin(), distribution.end(), distribution.begin());
   distribution.front() = 0;
+  parallel::prefix_sum(distribution.begin(), distribution.end(), distribution.begin());
 
   return distribution;
 }
@@ -436,8 +436,8 @@ inline NoinitVector<int> build_displs_from_value(const T original_value, MPI_Com
 
   NoinitVector<int> displs(get_comm_size(comm) + 1);
   allgather(&value, 1, displs.data() + 1, 1, comm);
-  parallel::prefix_sum(displs.begin(), displs.end(), displs.begin());
   displs.front() = 0;
+  parallel::prefix_sum(displs.begin(), displs.end(), displs.begin());
   return displs;
 }
 
-- 
2.43.0


From b9d3ac57ffbce73d231796ab7d6939d6a20beac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 21/55] fix: do not use the grid communicators of a
 communicator that was freed

The row and column communicators were cached by MPI handle, which is reused
after MPI_Comm_free(). Cache them as an attribute of the communicator instead.
---
 kaminpar-mpi/grid_topology.cc | 43 +++++++++++++++++++++++++++++++----
 kaminpar-mpi/grid_topology.h  |  5 ++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/kaminpar-mpi/grid_topology.cc b/kaminpar-mpi/grid_topology.cc
index f38fcd4..776573f 100644
--- a/kaminpar-mpi/grid_topology.cc
+++ b/kaminpar-mpi/grid_topology.cc
@@ -7,14 +7,49 @@
  ******************************************************************************/
 #include "kaminpar-mpi/grid_topology.h"
 
-#include <unordered_map>
+#include <memory>
 
 #include <mpi.h>
 
 namespace kaminpar::mpi {
+namespace {
+// Called by MPI when a communicator is freed, i.e., when its handle might be reused
+int delete_grid_communicator(MPI_Comm, int, void *attribute, void *) {
+  delete static_cast<GridCommunicator *>(attribute);
+  return MPI_SUCCESS;
+}
+
+int get_grid_communicator_keyval() {
+  static const int keyval = [] {
+    int new_keyval = MPI_KEYVAL_INVALID;
+    MPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, delete_grid_communicator, &new_keyval, nullptr);
+    return new_keyval;
+  }();
+  return keyval;
+}
+} // namespace
+
+GridCommunicator::~GridCommunicator() {
+  int finalized = 0;
+  MPI_Finalized(&finalized);
+  if (!finalized) {
+    MPI_Comm_free(&_row_comm);
+    MPI_Comm_free(&_col_comm);
+  }
+}
+
 GridCommunicator &get_grid_communicator(MPI_Comm comm) {
-  static std::unordered_map<MPI_Comm, GridCommunicator> grid_communicators;
-  auto [grid_comm_it, ignored] = grid_communicators.try_emplace(comm, comm);
-  return grid_comm_it->second;
+  const int keyval = get_grid_communicator_keyval();
+
+  void *attribute = nullptr;
+  int found = 0;
+  MPI_Comm_get_attr(comm, keyval, &attribute, &found);
+  if (found) {
+    return *static_cast<GridCommunicator *>(attribute);
+  }
+
+  auto grid_comm = std::make_unique<GridCommunicator>(comm);
+  MPI_Comm_set_attr(comm, keyval, grid_comm.get());
+  return *grid_comm.release();
 }
 } // namespace kaminpar::mpi
diff --git a/kaminpar-mpi/grid_topology.h b/kaminpar-mpi/grid_topology.h
index 2d55c2f..1f63150 100644
--- a/kaminpar-mpi/grid_topology.h
+++ b/kaminpar-mpi/grid_topology.h
@@ -122,6 +122,11 @@ public:
     );
   }
 
+  GridCommunicator(const GridCommunicator &) = delete;
+  GridCommunicator &operator=(const GridCommunicator &) = delete;
+
+  ~GridCommunicator();
+
   MPI_Comm row_comm() const {
     return _row_comm;
   }
-- 
2.43.0


From fd6a3556f2065d12e6c32b8b2861edd618ff00ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 22/55] fix: give local contraction the weights of coarse ghost
 nodes and handle PEs without vertices

---
 .../contraction/local_cluster_contraction.cc          | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
index 7460298..79edb11 100644
--- a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
@@ -89,7 +89,7 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
       leader_mapping.begin(), leader_mapping.begin() + graph.n(), leader_mapping.begin()
   );
 
-  const NodeID c_n = leader_mapping.back();
+  const NodeID c_n = leader_mapping.empty() ? 0 : leader_mapping.back();
   const GlobalNodeID last_node = mpi::scan(static_cast<GlobalNodeID>(c_n), MPI_SUM, comm);
   const GlobalNodeID first_node = last_node - c_n;
 
@@ -117,7 +117,9 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
   // - secondly, we obtain the nodes array using a prefix sum
   //
   StaticArray<EdgeID> c_nodes(c_n + 1);
-  StaticArray<NodeWeight> c_node_weights(c_n);
+  // The coarse graph cannot have more ghost nodes than the fine graph; the array is shrunk once the
+  // number of coarse ghost nodes is known
+  StaticArray<NodeWeight> c_node_weights(c_n + graph.ghost_n());
 
   // Build coarse node weights
   tbb::parallel_for<NodeID>(0, c_n, [&](const NodeID c_u) {
@@ -157,10 +159,13 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
         tbb::parallel_for<std::size_t>(0, recv_buffer.size(), [&](const std::size_t i) {
           const auto &[old_global_u, new_global_u, new_weight] = recv_buffer[i];
           const NodeID old_local_u = graph.global_to_local_node(old_global_u);
-          mapping[old_local_u] = ghost_mapper.new_ghost_node(new_global_u);
+          const NodeID c_ghost_u = ghost_mapper.new_ghost_node(new_global_u);
+          mapping[old_local_u] = c_ghost_u;
+          __atomic_store_n(&c_node_weights[c_ghost_u], new_weight, __ATOMIC_RELAXED);
         });
       }
   );
+  c_node_weights.restrict(ghost_mapper.next_ghost_node());
 
   //
   // We build the coarse graph in multiple steps:
-- 
2.43.0


From da8eff5ac6fd50143def1d9bd70724352c1b9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 23/55] fix: do not read uninitialized ghost edges in the
 cluster balancer

---
 kaminpar-dist/refinement/balancer/clusters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index 9ad8c2c..185cf05 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -116,7 +116,7 @@ void Clusters::init_ghost_node_adjacency() {
 
   _ghost_node_indices.resize(_p_graph->ghost_n() + 1);
   _ghost_node_indices.front() = 0;
-  _ghost_node_edges.resize(ghost_to_cluster.size());
+  _ghost_node_edges.reserve(ghost_to_cluster.size());
 
   NodeID prev_ghost = 0;
   for (std::size_t i = 0; i < ghost_to_cluster.size(); ++i) {
-- 
2.43.0


From 0a4a9a16280cdc94a1826cd828827d766d13bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 24/55] fix: avoid division by zero in the cluster balancer if
 no block is overloaded

---
 kaminpar-dist/refinement/balancer/cluster_balancer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 37f3c84..03f1aa4 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -901,7 +901,7 @@ NodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
     for (const BlockID block : _p_graph.blocks()) {
       limit += overload(block);
     }
-    limit /= metrics::num_imbalanced_blocks(_p_graph, _p_ctx);
+    limit /= std::max<BlockID>(1, metrics::num_imbalanced_blocks(_p_graph, _p_ctx));
     break;
 
   case ClusterSizeStrategy::MIN_OVERLOAD:
-- 
2.43.0


From 26c9deebb679e45b73b24f859b09a1a98067d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 25/55] fix: stop the cluster balancer if it can no longer
 improve the balance

---
 kaminpar-dist/refinement/balancer/cluster_balancer.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 03f1aa4..163fee0 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -355,9 +355,7 @@ bool ClusterBalancer::refine() {
     // Abort if we couldn't improve balance
     const double next_imbalance_distance = metrics::imbalance_l1(_p_graph, _p_ctx);
     if (next_imbalance_distance >= prev_imbalance_distance) {
-      if ((!_cb_ctx.switch_to_sequential_after_stallmate ||
-           !_cb_ctx.switch_to_singleton_after_stallmate) &&
-          _stalled) {
+      if (_stalled) {
         if (mpi::get_comm_rank(_p_graph.communicator()) == 0) {
           LOG_WARNING << "Stallmate: imbalance distance " << next_imbalance_distance
                       << " could not be improved in round " << round;
-- 
2.43.0


From 8de2ee743160be5aac4f3aeda48b1de5d59a408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 26/55] fix: handle clusters without feasible target block in
 the cluster balancer

---
 .../refinement/balancer/cluster_balancer.cc         | 13 +++++--------
 kaminpar-dist/refinement/balancer/clusters.h        | 12 +++++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 163fee0..b211d96 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -482,13 +482,11 @@ void ClusterBalancer::perform_parallel_round() {
             .to = to,
         };
 
-        if (to == from) {
-          [[maybe_unused]] const bool reassigned =
-              assign_feasible_target_block(candidate, block_weight_deltas);
-          KASSERT(reassigned);
+        if (to == from && !assign_feasible_target_block(candidate, block_weight_deltas)) {
+          continue;
         }
 
-        block_weight_deltas[to] += weight;
+        block_weight_deltas[candidate.to] += weight;
         candidates.push_back(candidate);
       }
     }
@@ -613,9 +611,8 @@ void ClusterBalancer::perform_sequential_round() {
       continue;
     }
 
-    [[maybe_unused]] const bool reassigned =
-        assign_feasible_target_block(candidate, tmp_block_weight_deltas);
-    KASSERT(reassigned);
+    // If there is no feasible target block, the candidate stays in its block
+    assign_feasible_target_block(candidate, tmp_block_weight_deltas);
 
     tmp_block_weight_deltas[candidate.from] -= candidate.weight;
     tmp_block_weight_deltas[candidate.to] += candidate.weight;
diff --git a/kaminpar-dist/refinement/balancer/clusters.h b/kaminpar-dist/refinement/balancer/clusters.h
index a877962..a986fca 100644
--- a/kaminpar-dist/refinement/balancer/clusters.h
+++ b/kaminpar-dist/refinement/balancer/clusters.h
@@ -180,10 +180,11 @@ public:
   inline std::pair<EdgeWeight, BlockID> find_max_conn(const NodeID cluster) const {
     KASSERT(size(cluster) > 0u);
 
+    const BlockID set_b = block(cluster);
+
     EdgeWeight max_conn = std::numeric_limits<EdgeWeight>::min();
-    BlockID max_gainer = kInvalidBlockID;
+    BlockID max_gainer = set_b;
 
-    const BlockID set_b = block(cluster);
     for (const BlockID b : _p_graph->blocks()) {
       if (b != set_b && conn(cluster, b) > max_conn &&
           _p_graph->block_weight(b) + weight(cluster) <= _p_ctx->graph->max_block_weight(b)) {
@@ -192,8 +193,13 @@ public:
       }
     }
 
+    // If no other block has enough space left for the cluster, report its own block as target: as for
+    // the node balancer, this is handled when selecting the move candidates
+    if (max_gainer == set_b) {
+      max_conn = 0;
+    }
+
     KASSERT(max_conn >= 0);
-    KASSERT(max_gainer != kInvalidBlockID);
 
     return {max_conn, max_gainer};
   }
-- 
2.43.0


From 443653dacb885f85a01caed52a1edbd4c10cd613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 27/55] fix: keep block weights exact in the colored LP refiner
 and allocate its block weight deltas

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b78a222..ea3e966 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -218,7 +218,7 @@ bool ColoredLPRefiner::refine() {
       });
     }
 
-    if (_ctx.track_local_block_weights && _block_weight_deltas.size() < _p_ctx.k) {
+    if (_block_weight_deltas.size() < _p_ctx.k) {
       _block_weight_deltas.resize(_p_ctx.k);
       _p_graph.pfor_blocks([&](const BlockID b) { _block_weight_deltas[b] = 0; });
     }
@@ -559,6 +559,7 @@ NodeID ColoredLPRefiner::perform_local_moves(const ColorID c) {
     );
     _p_graph.pfor_blocks([&](const BlockID b) {
       _p_graph.set_block_weight(b, _p_graph.block_weight(b) + _block_weight_deltas[b]);
+      _block_weight_deltas[b] = 0;
     });
   };
 
-- 
2.43.0


From 7d3b8b4dcc176cc15bb2ff4faf63054a59f187f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 28/55] fix: update the block weight deltas of the colored LP
 refiner atomically

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index ea3e966..cf08747 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -842,7 +842,9 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
 
           if (block != u_block) {
             if ((_ctx.track_local_block_weights &&
-                 _p_graph.block_weight(block) + _block_weight_deltas[block] + u_weight >
+                 _p_graph.block_weight(block) +
+                         __atomic_load_n(&_block_weight_deltas[block], __ATOMIC_RELAXED) +
+                         u_weight >
                      _p_ctx.graph->max_block_weight(block)) ||
                 (!_ctx.track_local_block_weights &&
                  _p_graph.block_weight(block) + u_weight > _p_ctx.graph->max_block_weight(block))) {
@@ -864,8 +866,8 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
           ++num_moved_nodes;
 
           if (_ctx.track_local_block_weights) {
-            _block_weight_deltas[u_block] -= u_weight;
-            _block_weight_deltas[best_block] += u_weight;
+            __atomic_fetch_sub(&_block_weight_deltas[u_block], u_weight, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&_block_weight_deltas[best_block], u_weight, __ATOMIC_RELAXED);
           }
         }
 
-- 
2.43.0


From 325144be3e93d843f2ad1325e478a3040618eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 29/55] fix: the uncompressed copy of a graph knows its maximum
 node weight and whether it is sorted

---
 kaminpar-shm/datastructures/csr_graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 9f1be95..0c4525c 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -24,6 +24,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       _edges(graph.m()),
       _node_weights(graph.n()),
       _edge_weights(graph.m()),
+      _sorted(graph.sorted()),
       _buckets(kNumberOfDegreeBuckets<NodeID> + 1) {
   graph.reified([&](const auto &graph) {
     _nodes.front() = 0;
@@ -42,6 +43,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       });
     });
 
+    _max_node_weight = graph.max_node_weight();
     _total_node_weight = graph.total_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
-- 
2.43.0


From 18bd6961aa7dc9642b7b99cd5d9ab7bb59933ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 30/55] fix: do not read beyond the end of mapped text files

The METIS parsers look at the character after the last one of a file; this is
outside of the mapping if the size of the file is a multiple of the page size.
---
 apps/io/file_toker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index a093663..b2fbca4 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -153,8 +153,9 @@ public:
     return _position < _length;
   }
 
+  //! Returns the current character, or '\0' if the end of the file has been reached.
   [[nodiscard]] inline char current() const {
-    return _contents[_position];
+    return valid_position() ? _contents[_position] : '\0';
   }
 
   inline void advance() {
-- 
2.43.0


From 766dc2845baa516615b7245c109899af42223d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 31/55] fix: skip the ignored node sizes when reading METIS
 files

Node sizes (format 1xx) were announced as ignored, but then read as node weights
or neighbors.
---
 apps/io/dist_metis_parser.cc | 8 +++++++-
 apps/io/shm_metis_parser.cc  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 63cf4dd..23fb14d 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -28,6 +28,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -49,7 +50,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
+  const bool has_node_sizes = format / 100; // == 1xx
   const bool has_node_weights = (format % 100) / 10;         // == x1x
   const bool has_edge_weights = format % 10;                 // == xx1
 
@@ -73,6 +74,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -96,6 +98,10 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index acf73c8..13cd879 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -25,6 +25,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -46,7 +47,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
+  const bool has_node_sizes = format / 100; // == 1xx
   const bool has_node_weights = (format % 100) / 10;         // == x1x
   const bool has_edge_weights = format % 10;                 // == xx1
 
@@ -70,6 +71,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -94,6 +96,10 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From 4052adf271ec12d2d547e9a0a65e47ca87307e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 32/55] fix: distributed METIS parser starts at the weight of
 the first local node

The parser resumed behind the weight of the first node of each PE, and thus took
its first neighbor as its weight.
---
 apps/io/dist_metis_parser.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 23fb14d..36bfd8c 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -87,9 +87,9 @@ void parse_graph(
     NextNodeCB &&next_node_cb,
     NextEdgeCB &&next_edge_cb
 ) {
-  static_assert(std::is_invocable_v<NextNodeCB, std::uint64_t>);
+  static_assert(std::is_invocable_v<NextNodeCB, std::uint64_t, std::size_t>);
   static_assert(std::is_invocable_v<NextEdgeCB, std::uint64_t, std::uint64_t>);
-  constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t>;
+  constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t, std::size_t>;
 
   for (std::uint64_t u = 0; u < header.num_nodes; ++u) {
     toker.skip_spaces();
@@ -98,6 +98,9 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    // Position of the first entry of the node, from which parsing can be resumed
+    const std::size_t node_position = toker.position();
+
     if (header.has_node_sizes) {
       toker.skip_uint();
     }
@@ -108,11 +111,11 @@ void parse_graph(
     }
 
     if constexpr (stoppable) {
-      if (next_node_cb(node_weight)) {
+      if (next_node_cb(node_weight, node_position)) {
         return;
       }
     } else {
-      next_node_cb(node_weight);
+      next_node_cb(node_weight, node_position);
     }
 
     while (std::isdigit(toker.current())) {
@@ -162,7 +165,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t node_position) {
         if (current_node < first_node) {
           current_node += 1;
           return false;
@@ -170,7 +173,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
 
         if (current_node < last_node) {
           if (current_node - first_node == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             actual_first_edge = current_edge;
           }
 
@@ -203,7 +206,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t node_position) {
         if (current_edge < first_edge) {
           first_node += 1;
           return false;
@@ -211,7 +214,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
 
         if (current_edge < last_edge) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             actual_first_edge = current_edge;
           }
 
@@ -244,7 +247,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t node_position) {
         std::size_t memory_space = first_node * sizeof(EdgeID) + current_edge * sizeof(NodeID);
         if (memory_space < memory_space_start) {
           first_node += 1;
@@ -254,7 +257,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
         memory_space += length * sizeof(EdgeID);
         if (memory_space < memory_space_stop) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = node_position;
             first_edge = current_edge;
           }
 
@@ -371,7 +374,7 @@ DistributedCSRGraph csr_read(
     parse_graph(
         toker,
         header,
-        [&](const auto weight) {
+        [&](const auto weight, std::size_t) {
           nodes[node] = edge;
 
           if (header.has_node_weights) {
@@ -503,7 +506,7 @@ DistributedCompressedGraph compress_read(
     parse_graph(
         toker,
         header,
-        [&](const auto weight) {
+        [&](const auto weight, std::size_t) {
           if (node > 0) {
             builder.add(node - 1, neighbourhood);
             neighbourhood.clear();
-- 
2.43.0


From f02e523ba49f52349ebfc262c885fd40a6762a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 33/55] fix: distributed parsers keep the isolated nodes at the
 end of the graph

If the edges are balanced, the nodes behind the last edge were assigned to no PE.
---
 apps/io/dist_metis_parser.cc  | 5 ++++-
 apps/io/dist_parhip_parser.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 36bfd8c..a847340 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -288,7 +288,10 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_local_nodes(
   }
   case GraphDistribution::BALANCED_EDGES: {
     const auto [first_edge, last_edge] = compute_chunks(header.num_edges, size, rank);
-    return find_node_by_edge(toker, header, first_edge, last_edge);
+
+    // The last PE also gets the isolated nodes behind the last edge
+    const bool is_last = (rank + 1 == size);
+    return find_node_by_edge(toker, header, first_edge, is_last ? last_edge + 1 : last_edge);
   }
   case GraphDistribution::BALANCED_MEMORY_SPACE: {
     const std::size_t total_memory_space =
diff --git a/apps/io/dist_parhip_parser.cc b/apps/io/dist_parhip_parser.cc
index f5d8ebf..3d1b405 100644
--- a/apps/io/dist_parhip_parser.cc
+++ b/apps/io/dist_parhip_parser.cc
@@ -162,8 +162,11 @@ std::pair<std::uint64_t, std::uint64_t> find_local_nodes(
 
     const std::uint64_t first_node =
         find_node(num_nodes, num_edges - 1, first_edge, std::forward<Lambda>(fetch_edge));
+    // The last PE also gets the isolated nodes behind the last edge
     const std::uint64_t last_node =
-        find_node(num_nodes, num_edges - 1, last_edge, std::forward<Lambda>(fetch_edge));
+        (rank + 1 == size)
+            ? num_nodes
+            : find_node(num_nodes, num_edges - 1, last_edge, std::forward<Lambda>(fetch_edge));
 
     return std::make_pair(first_node, last_node);
   }
-- 
2.43.0


From aaee84eb3e7b195511b41f5fe838b8c1efebdf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 34/55] fix: allocate one weight per node when reading
 compressed METIS graphs

The array had one entry per edge: too few for PEs with isolated nodes, and too
many for PEs without ghost nodes.
---
 apps/io/dist_metis_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index a847340..ea13d83 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -496,7 +496,7 @@ DistributedCompressedGraph compress_read(
 
   StaticArray<NodeWeight> node_weights;
   if (header.has_node_weights) {
-    node_weights.resize(num_local_edges, static_array::noinit);
+    node_weights.resize(num_local_nodes, static_array::noinit);
   }
 
   if (num_local_nodes > 0) {
-- 
2.43.0


From 67550368f659ca67139d198227f7bc906e14f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 35/55] fix: graph validation finds parallel edges in unsorted
 neighborhoods

Only neighbors that are adjacent in the input were compared, although a sorted
copy of the neighborhood is at hand.
---
 apps/io/shm_input_validator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/io/shm_input_validator.cc b/apps/io/shm_input_validator.cc
index ff8744d..cfd6409 100644
--- a/apps/io/shm_input_validator.cc
+++ b/apps/io/shm_input_validator.cc
@@ -50,8 +50,9 @@ void validate_undirected_graph(
 
     // Check for multi edges
     for (EdgeID e = nodes[u] + 1; e < nodes[u + 1]; ++e) {
-      if (edges[e - 1] == edges[e]) {
-        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << edges[e] << "\n";
+      const NodeID v = std::get<0>(edges_with_weights[e]);
+      if (std::get<0>(edges_with_weights[e - 1]) == v) {
+        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << v + 1 << "\n";
         std::exit(1);
       }
     }
-- 
2.43.0


From 7690d93f8b35f8817f1776ddf9da3c410bac83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 36/55] fix: do not mistake large total weights for unit
 weights when reading METIS files

With 64 bit weights and 32 bit IDs, the total weight was truncated before it was
compared to the number of nodes or edges.
---
 apps/io/shm_metis_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 13cd879..9c19a84 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -211,13 +211,13 @@ CSRGraph csr_read(const std::string &filename, const bool sorted) {
 
   // Only keep weights if the graph is really weighted.
   const bool unit_node_weights =
-      header.has_node_weights && (static_cast<NodeID>(total_node_weight + 1) == nodes.size());
+      header.has_node_weights && (static_cast<std::uint64_t>(total_node_weight) == header.num_nodes);
   if (unit_node_weights) {
     node_weights.free();
   }
 
   const bool unit_edge_weights =
-      header.has_edge_weights && (static_cast<EdgeID>(total_edge_weight) == edges.size());
+      header.has_edge_weights && (static_cast<std::uint64_t>(total_edge_weight) == edges.size());
   if (unit_edge_weights) {
     edge_weights.free();
   }
-- 
2.43.0


From 2ce5fe1b9457d226cbf02dbb8879d783fc2d340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 37/55] fix: number of blocks for the outputs of KaMinPar with
 explicit block weights

The number of blocks remained 0 with --block-weights or --block-weight-factors,
hence block sizes and rearranged graphs were written beyond the end of arrays.
---
 apps/KaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 77b42e7..f490453 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -457,6 +457,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weight_factors.size());
     partitioner.compute_partition(
         std::move(app.max_block_weight_factors), {partition.data(), partition.size()}
     );
@@ -471,6 +472,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weights.size());
     partitioner.compute_partition(
         std::move(app.max_block_weights), {partition.data(), partition.size()}
     );
-- 
2.43.0


From 4eefc1dd9f66908a5863f11f860fdc8493b8d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 38/55] fix: read empty METIS graphs with compression

---
 apps/io/shm_metis_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 9c19a84..b922f74 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -281,7 +281,9 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
         edge += 1;
       }
   );
-  builder.add_node(node - 1, neighbourhood);
+  if (node > 0) {
+    builder.add_node(node - 1, neighbourhood);
+  }
 
   KASSERT(
       builder.total_node_weight() <=
-- 
2.43.0


From 2de73286adc5bf7a761dafa01560898c0c237575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 39/55] fix: keep the vertex permutation of the input graph
 with --ignore-edge-weights

---
 apps/KaMinPar.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index f490453..a433df8 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -416,12 +416,16 @@ int main(int argc, char *argv[]) {
 
   if (app.ignore_edge_weights && !ctx.compression.enabled) {
     auto &csr_graph = graph.concretize<CSRGraph>();
+    const bool sorted = csr_graph.sorted();
+    StaticArray<NodeID> permutation = csr_graph.take_raw_permutation();
     graph = {std::make_unique<CSRGraph>(
         csr_graph.take_raw_nodes(),
         csr_graph.take_raw_edges(),
         csr_graph.take_raw_node_weights(),
-        StaticArray<EdgeWeight>{}
+        StaticArray<EdgeWeight>{},
+        sorted
     )};
+    graph.set_permutation(std::move(permutation));
   } else if (app.ignore_edge_weights) {
     LOG_WARNING << "Ignoring edge weights is currently only supported for uncompressed graphs; "
                    "ignoring option.";
-- 
2.43.0


From ca3143c7890ba3240cb020d8bae8535e19407144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 40/55] fix: extract largest connected components consisting of
 a single vertex

---
 apps/tools/shm_connected_components_tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index b68481d..3e5b9ea 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -137,6 +137,7 @@ template <typename Graph>
   RankCombinedBitVector<> rank_bitvector(graph.n(), false);
 
   std::stack<NodeID> next_nodes;
+  rank_bitvector.set(initial_node);
   next_nodes.push(initial_node);
   do {
     const NodeID node = next_nodes.top();
-- 
2.43.0


From d9c0b0544d0da57dcd0d773867ad4c4d5d7ea285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 41/55] fix: make dumped configurations readable and complete

Flags were always dumped as false, lists that are empty could not be read back,
reading --d-dump-everything=false turned on all dumps.
---
 kaminpar-cli/dkaminpar_arguments.cc | 133 ++++++++++++++++------------
 kaminpar-cli/kaminpar_arguments.cc  | 115 ++++++++++++++----------
 kaminpar-shm/presets.cc             |   2 +-
 3 files changed, 147 insertions(+), 103 deletions(-)

diff --git a/kaminpar-cli/dkaminpar_arguments.cc b/kaminpar-cli/dkaminpar_arguments.cc
index 4c1f2b9..122b311 100644
--- a/kaminpar-cli/dkaminpar_arguments.cc
+++ b/kaminpar-cli/dkaminpar_arguments.cc
@@ -14,6 +14,12 @@
 
 namespace kaminpar::dist {
 namespace {
+
+// CLI11 cannot capture the default values of flags
+std::string to_flag_str(const bool value) {
+  return value ? "true" : "false";
+}
+
 void create_chunks_options(CLI::Option_group *cli, const std::string &prefix, ChunksContext &ctx) {
   cli->add_option(
          prefix + "-total-chunks",
@@ -38,7 +44,7 @@ void create_chunks_options(CLI::Option_group *cli, const std::string &prefix, Ch
          "Scale the number of chunks s.t. the nodes per chunk remains constant regardless of the "
          "number of threads used per MPI process."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.scale_chunks_with_threads));
 }
 } // namespace
 
@@ -79,14 +85,14 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
           ctx.enable_pe_splitting,
           "Enable PE splitting and graph replication in deep MGP"
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.enable_pe_splitting));
   partitioning
       ->add_flag(
           "--simulate-singlethreaded",
           ctx.simulate_singlethread,
           "Simulate single-threaded execution during a hybrid run"
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.simulate_singlethread));
   partitioning->add_option("--rearrange-by", ctx.rearrange_by)
       ->transform(CLI::CheckedTransformer(get_graph_orderings()).description(""))
       ->description(R"(Criteria by which the graph is sorted and rearrange:
@@ -103,13 +109,13 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 
   debug->add_flag("--d-save-coarsest-graph", ctx.debug.save_coarsest_graph)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.save_coarsest_graph));
   debug->add_flag("--d-save-coarsest-partition", ctx.debug.save_coarsest_partition)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.save_coarsest_partition));
   debug->add_flag("--d-print-compression-details", ctx.debug.print_compression_details)
       ->configurable(false)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.print_compression_details));
 
   return debug;
 }
@@ -117,9 +123,9 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
 CLI::Option_group *create_compression_options(CLI::App *app, Context &ctx) {
   auto *compression = app->add_option_group("Graph Compression");
 
-  compression->add_flag(
-      "-c,--compress", ctx.compression.enabled, "Whether to compress the input graph."
-  );
+  compression
+      ->add_flag("-c,--compress", ctx.compression.enabled, "Whether to compress the input graph.")
+      ->default_str(to_flag_str(ctx.compression.enabled));
 
   return compression;
 }
@@ -154,7 +160,7 @@ CLI::Option_group *create_refinement_options(CLI::App *app, Context &ctx) {
           ctx.refinement.refine_coarsest_level,
           "Also run the refinement algorithms on the coarsest graph."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.refine_coarsest_level));
 
   create_lp_refinement_options(app, ctx);
   create_colored_lp_refinement_options(app, ctx);
@@ -185,7 +191,7 @@ CLI::Option_group *create_lp_refinement_options(CLI::App *app, Context &ctx) {
   lp->add_flag(
         "--r-lp-ignore-probabilities", ctx.refinement.lp.ignore_probabilities, "Always move nodes."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.lp.ignore_probabilities));
 
   return lp;
 }
@@ -227,9 +233,9 @@ CLI::Option_group *create_colored_lp_refinement_options(CLI::App *app, Context &
         "[commit-strategy=best] Sort move candidates by their relative gain "
         "rather than their absolute gain."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.colored_lp.sort_by_rel_gain));
   lp->add_flag("--r-clp-track-block-weights", ctx.refinement.colored_lp.track_local_block_weights)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.colored_lp.track_local_block_weights));
 
   create_chunks_options(lp, "--r-clp", ctx.refinement.colored_lp.coloring_chunks);
 
@@ -245,11 +251,14 @@ CLI::Option_group *create_colored_lp_refinement_options(CLI::App *app, Context &
         ctx.refinement.colored_lp.only_blacklist_input_level,
         "Only blacklist nodes when refining the input graph."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.colored_lp.only_blacklist_input_level));
 
   lp->add_flag(
-      "--r-clp-active-set", ctx.refinement.colored_lp.use_active_set, "Enable active set strategy."
-  );
+        "--r-clp-active-set",
+        ctx.refinement.colored_lp.use_active_set,
+        "Enable active set strategy."
+  )
+      ->default_str(to_flag_str(ctx.refinement.colored_lp.use_active_set));
 
   return lp;
 }
@@ -264,7 +273,7 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
           "--r-nb-enable-sequential-balancing",
           ctx.refinement.node_balancer.enable_sequential_balancing
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.enable_sequential_balancing));
   balancer
       ->add_option(
           "--r-nb-seq-nodes-per-block",
@@ -276,7 +285,7 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
       ->add_flag(
           "--r-nb-enable-parallel-balancing", ctx.refinement.node_balancer.enable_parallel_balancing
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.enable_parallel_balancing));
   balancer
       ->add_option(
           "--r-nb-parallel-threshold",
@@ -288,22 +297,24 @@ CLI::Option_group *create_node_balancer_options(CLI::App *app, Context &ctx) {
   balancer->add_option(
       "--r-nb-par-num-dicing-attempts", ctx.refinement.node_balancer.par_num_dicing_attempts
   );
-  balancer->add_flag(
-      "--r-nb-par-accept-imbalanced", ctx.refinement.node_balancer.par_accept_imbalanced_moves
-  );
+  balancer
+      ->add_flag(
+          "--r-nb-par-accept-imbalanced", ctx.refinement.node_balancer.par_accept_imbalanced_moves
+      )
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.par_accept_imbalanced_moves));
   balancer
       ->add_flag(
           "--r-nb-par-positive-gain-buckets",
           ctx.refinement.node_balancer.par_enable_positive_gain_buckets
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.par_enable_positive_gain_buckets));
   balancer
       ->add_option("--r-nb-par-gain-bucket-base", ctx.refinement.node_balancer.par_gain_bucket_base)
       ->capture_default_str();
   balancer->add_flag("--r-nb-par-partial-buckets", ctx.refinement.node_balancer.par_partial_buckets)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.par_partial_buckets));
   balancer->add_flag("--r-nb-par-update-pq-gains", ctx.refinement.node_balancer.par_update_pq_gains)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.node_balancer.par_update_pq_gains));
   balancer
       ->add_option(
           "--r-nb-par-high-degree-update-interval",
@@ -336,7 +347,7 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
           "--r-cb-enable-sequential-balancing",
           ctx.refinement.cluster_balancer.enable_sequential_balancing
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.cluster_balancer.enable_sequential_balancing));
   balancer
       ->add_option(
           "--r-cb-seq-nodes-per-block",
@@ -349,7 +360,7 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
           "--r-cb-enable-parallel-balancing",
           ctx.refinement.cluster_balancer.enable_parallel_balancing
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.cluster_balancer.enable_parallel_balancing));
   balancer
       ->add_option(
           "--r-cb-parallel-threshold",
@@ -361,15 +372,17 @@ CLI::Option_group *create_cluster_balancer_options(CLI::App *app, Context &ctx)
   balancer->add_option(
       "--r-cb-par-num-dicing-attempts", ctx.refinement.cluster_balancer.par_num_dicing_attempts
   );
-  balancer->add_flag(
-      "--r-cb-par-accept-imbalanced", ctx.refinement.cluster_balancer.par_accept_imbalanced
-  );
+  balancer
+      ->add_flag(
+          "--r-cb-par-accept-imbalanced", ctx.refinement.cluster_balancer.par_accept_imbalanced
+      )
+      ->default_str(to_flag_str(ctx.refinement.cluster_balancer.par_accept_imbalanced));
   balancer
       ->add_flag(
           "--r-cb-par-positive-gain-buckets",
           ctx.refinement.cluster_balancer.par_use_positive_gain_buckets
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.cluster_balancer.par_use_positive_gain_buckets));
   balancer
       ->add_option(
           "--r-cb-par-gain-bucket-factor", ctx.refinement.cluster_balancer.par_gain_bucket_factor
@@ -468,17 +481,21 @@ CLI::Option_group *create_coarsening_options(CLI::App *app, Context &ctx) {
       ctx.coarsening.max_cnode_imbalance,
       "Maximum coarse node imbalance before rebalancing cluster assignment."
   );
-  coarsening->add_flag(
-      "--c-migrate-cnode-prefix",
-      ctx.coarsening.migrate_cnode_prefix,
-      "Migrate the first few nodes of overloaded PEs rather than the last few."
-  );
-  coarsening->add_flag(
-      "--c-force-perfect-cnode-balance",
-      ctx.coarsening.force_perfect_cnode_balance,
-      "If imbalance threshold is exceeded, migrate nodes until perfectly "
-      "balanced."
-  );
+  coarsening
+      ->add_flag(
+          "--c-migrate-cnode-prefix",
+          ctx.coarsening.migrate_cnode_prefix,
+          "Migrate the first few nodes of overloaded PEs rather than the last few."
+      )
+      ->default_str(to_flag_str(ctx.coarsening.migrate_cnode_prefix));
+  coarsening
+      ->add_flag(
+          "--c-force-perfect-cnode-balance",
+          ctx.coarsening.force_perfect_cnode_balance,
+          "If imbalance threshold is exceeded, migrate nodes until perfectly "
+          "balanced."
+      )
+      ->default_str(to_flag_str(ctx.coarsening.force_perfect_cnode_balance));
 
   create_global_lp_coarsening_options(app, ctx);
   create_local_lp_coarsening_options(app, ctx);
@@ -508,11 +525,16 @@ CLI::Option_group *create_global_lp_coarsening_options(CLI::App *app, Context &c
         "nodes."
   )
       ->capture_default_str();
-  lp->add_flag("--c-glp-sync-cluster-weights", ctx.coarsening.global_lp.sync_cluster_weights);
-  lp->add_flag("--c-glp-enforce-cluster-weights", ctx.coarsening.global_lp.enforce_cluster_weights);
-  lp->add_flag("--c-glp-cheap-toplevel", ctx.coarsening.global_lp.cheap_toplevel);
-  lp->add_flag("--c-glp-prevent-cyclic-moves", ctx.coarsening.global_lp.prevent_cyclic_moves);
-  lp->add_flag("--c-glp-enforce-legacy-weight", ctx.coarsening.global_lp.enforce_legacy_weight);
+  lp->add_flag("--c-glp-sync-cluster-weights", ctx.coarsening.global_lp.sync_cluster_weights)
+      ->default_str(to_flag_str(ctx.coarsening.global_lp.sync_cluster_weights));
+  lp->add_flag("--c-glp-enforce-cluster-weights", ctx.coarsening.global_lp.enforce_cluster_weights)
+      ->default_str(to_flag_str(ctx.coarsening.global_lp.enforce_cluster_weights));
+  lp->add_flag("--c-glp-cheap-toplevel", ctx.coarsening.global_lp.cheap_toplevel)
+      ->default_str(to_flag_str(ctx.coarsening.global_lp.cheap_toplevel));
+  lp->add_flag("--c-glp-prevent-cyclic-moves", ctx.coarsening.global_lp.prevent_cyclic_moves)
+      ->default_str(to_flag_str(ctx.coarsening.global_lp.prevent_cyclic_moves));
+  lp->add_flag("--c-glp-enforce-legacy-weight", ctx.coarsening.global_lp.enforce_legacy_weight)
+      ->default_str(to_flag_str(ctx.coarsening.global_lp.enforce_legacy_weight));
 
   return lp;
 }
@@ -529,13 +551,13 @@ CLI::Option_group *create_local_lp_coarsening_options(CLI::App *app, Context &ct
         ctx.coarsening.local_lp.ignore_ghost_nodes,
         "Ignore ghost nodes for cluster rating."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.coarsening.local_lp.ignore_ghost_nodes));
   lp->add_flag(
         "--c-llp-keep-ghost-clusters",
         ctx.coarsening.local_lp.keep_ghost_clusters,
         "Keep clusters of ghost clusters and remap them to local cluster IDs."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.coarsening.local_lp.keep_ghost_clusters));
 
   return lp;
 }
@@ -557,12 +579,13 @@ CLI::Option_group *create_hem_coarsening_options(CLI::App *app, Context &ctx) {
         ctx.coarsening.hem.only_blacklist_input_level,
         "Only blacklist nodes when refining the input graph."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.coarsening.hem.only_blacklist_input_level));
   lp->add_flag(
-      "--c-hem-ignore-weight-limit",
-      ctx.coarsening.hem.ignore_weight_limit,
-      "Ignore cluster weight limit."
-  );
+        "--c-hem-ignore-weight-limit",
+        ctx.coarsening.hem.ignore_weight_limit,
+        "Ignore cluster weight limit."
+  )
+      ->default_str(to_flag_str(ctx.coarsening.hem.ignore_weight_limit));
 
   return lp;
 }
@@ -590,7 +613,7 @@ CLI::Option_group *create_jet_refinement_options(CLI::App *app, Context &ctx) {
   jet->add_flag(
          "--r-jet-dynamic-negative-gain-factor", ctx.refinement.jet.dynamic_negative_gain_factor
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.jet.dynamic_negative_gain_factor));
 
   jet->add_option(
          "--r-jet-coarse-negative-gain-factor", ctx.refinement.jet.coarse_negative_gain_factor
@@ -630,7 +653,7 @@ CLI::Option_group *create_mtkahypar_refinement_options(CLI::App *app, Context &c
       ->add_option("--r-mtkahypar-config-coarse", ctx.refinement.mtkahypar.coarse_config_filename)
       ->capture_default_str();
   mtkahypar->add_flag("--r-mtkahypar-only-run-on-root", ctx.refinement.mtkahypar.only_run_on_root)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.mtkahypar.only_run_on_root));
 
   return mtkahypar;
 }
diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index e29d3dc..f14234c 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -13,6 +13,15 @@
 #include "kaminpar-shm/kaminpar.h"
 
 namespace kaminpar::shm {
+namespace {
+
+// CLI11 cannot capture the default values of flags
+std::string to_flag_str(const bool value) {
+  return value ? "true" : "false";
+}
+
+} // namespace
+
 void create_all_options(CLI::App *app, Context &ctx) {
   create_graph_compression_options(app, ctx);
   create_partitioning_options(app, ctx);
@@ -26,7 +35,7 @@ CLI::Option_group *create_graph_compression_options(CLI::App *app, Context &ctx)
   auto *compression = app->add_option_group("Graph Compression");
 
   compression->add_flag("-c,--compress", ctx.compression.enabled, "Enable graph compression")
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.compression.enabled));
 
   return compression;
 }
@@ -52,13 +61,15 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
   - async-parallel: diversify initial partitioning by replicating coarse graphs each branch of the replication tree asynchronously
   - sync-parallel:  same as async-parallel, but process branches synchronously)")
       ->capture_default_str();
-  partitioning->add_option(
-      "--p-deep-initial-partitioning-load",
-      ctx.partitioning.deep_initial_partitioning_load,
-      "Fraction of cores that should be used for the coarse graph replication phase of deep MGP. A "
-      "value of '1' will replicate the graph once for every PE, whereas smaller values lead to "
-      "fewer replications."
-  );
+  partitioning
+      ->add_option(
+          "--p-deep-initial-partitioning-load",
+          ctx.partitioning.deep_initial_partitioning_load,
+          "Fraction of cores that should be used for the coarse graph replication phase of deep "
+          "MGP. A value of '1' will replicate the graph once for every PE, whereas smaller values "
+          "lead to fewer replications."
+      )
+      ->capture_default_str();
   partitioning
       ->add_option(
           "--p-min-consecutive-seq-bipartitioning-levels",
@@ -75,17 +86,23 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       ->capture_default_str();
   partitioning
       ->add_flag("--p-refine-after-extending", ctx.partitioning.refine_after_extending_partition)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.partitioning.refine_after_extending_partition));
   partitioning
       ->add_flag(
           "--p-rb-kway-toplevel-refinement", ctx.partitioning.rb_enable_kway_toplevel_refinement
       )
-      ->capture_default_str();
-
-  partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
+      ->default_str(to_flag_str(ctx.partitioning.rb_enable_kway_toplevel_refinement));
+
+  // An empty list cannot be expressed in a configuration file: only include the option if it is set
+  auto *vcycles = partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles);
+  if (ctx.partitioning.vcycles.empty()) {
+    vcycles->run_callback_for_default(false);
+  } else {
+    vcycles->capture_default_str();
+  }
   partitioning
       ->add_flag("--p-restrict-vcycle-refinement", ctx.partitioning.restrict_vcycle_refinement)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.partitioning.restrict_vcycle_refinement));
 
   create_partitioning_rearrangement_options(app, ctx);
 
@@ -189,9 +206,9 @@ Options are:
       ->capture_default_str();
 
   coarsening->add_flag("--c-forced-kc-level", ctx.coarsening.clustering.forced_kc_level)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.coarsening.clustering.forced_kc_level));
   coarsening->add_flag("--c-forced-pc-level", ctx.coarsening.clustering.forced_pc_level)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.coarsening.clustering.forced_pc_level));
   coarsening
       ->add_option(
           "--c-forced-level-upper-factor", ctx.coarsening.clustering.forced_level_upper_factor
@@ -340,13 +357,13 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
   ip->add_flag(
         "--i-r-disable", ctx.initial_partitioning.refinement.disabled, "Disable initial refinement."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.initial_partitioning.refinement.disabled));
   ip->add_flag(
         "--i-adaptive-epsilon",
         ctx.initial_partitioning.use_adaptive_epsilon,
         "Use adaptive epsilon."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.initial_partitioning.use_adaptive_epsilon));
 
   return ip;
 }
@@ -449,17 +466,19 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
       ->capture_default_str();
 
   fm->add_flag(
-      "--r-fm-lock-locally-moved-nodes{false},--r-fm-unlock-locally-moved-nodes",
-      ctx.refinement.kway_fm.unlock_locally_moved_nodes,
-      "If set, unlock all nodes after a batch that were only moved thread-locally, but not "
-      "globally."
-  );
+        "--r-fm-unlock-locally-moved-nodes,--r-fm-lock-locally-moved-nodes{false}",
+        ctx.refinement.kway_fm.unlock_locally_moved_nodes,
+        "If set, unlock all nodes after a batch that were only moved thread-locally, but not "
+        "globally."
+  )
+      ->default_str(to_flag_str(ctx.refinement.kway_fm.unlock_locally_moved_nodes));
   fm->add_flag(
-      "--r-fm-lock-seed-nodes{false},--r-fm-unlock-seed-nodes",
-      ctx.refinement.kway_fm.unlock_seed_nodes,
-      "If set, keep seed nodes locked even if they were never moved. If this flag is not set, they "
-      "are treated the same way as touched nodes."
-  );
+        "--r-fm-unlock-seed-nodes,--r-fm-lock-seed-nodes{false}",
+        ctx.refinement.kway_fm.unlock_seed_nodes,
+        "If set, keep seed nodes locked even if they were never moved. If this flag is not set, "
+        "they are treated the same way as touched nodes."
+  )
+      ->default_str(to_flag_str(ctx.refinement.kway_fm.unlock_seed_nodes));
 
   // Flags for gain caches
   fm->add_option("--r-fm-gc", ctx.refinement.kway_fm.gain_cache_strategy)
@@ -490,9 +509,9 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
         "If set, compute and output detailed statistics about FM batches (can be expensive to "
         "compute on some irregular graphs)."
   )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.kway_fm.dbg_compute_batch_stats));
   fm->add_flag("--r-fm-dbg-report-progress", ctx.refinement.kway_fm.dbg_report_progress)
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.refinement.kway_fm.dbg_report_progress));
 
   return fm;
 }
@@ -565,7 +584,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "input graph, as isolated nodes might have been removed and nodes might have been "
           "reordered."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_toplevel_graph));
 
   debug
       ->add_flag(
@@ -575,7 +594,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "This partition should only be used together with the toplevel graph obtained via "
           "--d-dump-toplevel-graph."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_toplevel_partition));
   debug
       ->add_flag(
           "--d-dump-coarsest-graph",
@@ -583,7 +602,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write the coarsest graph to disk. Note that the definition of "
           "'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_coarsest_graph));
 
   debug
       ->add_flag(
@@ -592,7 +611,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write partition of the coarsest graph to disk. Note that the "
           "definition of 'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_coarsest_partition));
 
   debug
       ->add_flag(
@@ -600,7 +619,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_graph_hierarchy,
           "Write the entire graph hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_graph_hierarchy));
 
   debug
       ->add_flag(
@@ -608,20 +627,22 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_partition_hierarchy,
           "Write the entire partition hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(to_flag_str(ctx.debug.dump_partition_hierarchy));
 
-  debug->add_flag(
-      "--d-dump-everything",
-      [&](auto) {
-        ctx.debug.dump_toplevel_graph = true;
-        ctx.debug.dump_toplevel_partition = true;
-        ctx.debug.dump_coarsest_graph = true;
-        ctx.debug.dump_coarsest_partition = true;
-        ctx.debug.dump_graph_hierarchy = true;
-        ctx.debug.dump_partition_hierarchy = true;
-      },
-      "Active all --d-dump-* options."
-  );
+  debug
+      ->add_flag(
+          "--d-dump-everything",
+          [&](auto) {
+            ctx.debug.dump_toplevel_graph = true;
+            ctx.debug.dump_toplevel_partition = true;
+            ctx.debug.dump_coarsest_graph = true;
+            ctx.debug.dump_coarsest_partition = true;
+            ctx.debug.dump_graph_hierarchy = true;
+            ctx.debug.dump_partition_hierarchy = true;
+          },
+          "Active all --d-dump-* options."
+      )
+      ->configurable(false);
 
   return debug;
 }
diff --git a/kaminpar-shm/presets.cc b/kaminpar-shm/presets.cc
index c4fc13e..a893408 100644
--- a/kaminpar-shm/presets.cc
+++ b/kaminpar-shm/presets.cc
@@ -350,7 +350,7 @@ Context create_jet_context(const int rounds) {
 
 Context create_noref_context() {
   Context ctx = create_default_context();
-  ctx.refinement.algorithms = {};
+  ctx.refinement.algorithms = {RefinementAlgorithm::NOOP};
   return ctx;
 }
 
-- 
2.43.0


From 94e18a0539b5fda18041df6b4e9bb9e4af5358e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 42/55] fix: dKaMinPar writes the best partition of several
 repetitions

---
 apps/dKaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/dKaMinPar.cc b/apps/dKaMinPar.cc
index 6cbae51..e4462cf 100644
--- a/apps/dKaMinPar.cc
+++ b/apps/dKaMinPar.cc
@@ -441,6 +441,8 @@ void run_partitioner(
     }
   }
 
+  std::swap(best_partition, partition);
+
   root_run([&] {
     const GlobalEdgeWeight cut_sum =
         std::accumulate(cuts.begin(), cuts.end(), static_cast<GlobalNodeWeight>(0));
-- 
2.43.0


From 88680972d0227d2bc3c1c0cde2f15f4fc9cba217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 43/55] fix: seed the random number generator consistently
 before TBB is initialized

Outside of any task arena, TBB reports a negative thread index, hence a thread that
uses its generator before its first parallel loop was seeded with seed - 2. The
partition then depended on whether the process had run a parallel loop before, e.g.,
on the graph file format.
---
 kaminpar-common/random.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kaminpar-common/random.cc b/kaminpar-common/random.cc
index 2db5949..60e2e5b 100644
--- a/kaminpar-common/random.cc
+++ b/kaminpar-common/random.cc
@@ -7,11 +7,21 @@
  ******************************************************************************/
 #include "kaminpar-common/random.h"
 
+#include <algorithm>
 #include <mutex>
 
 #include <tbb/task_arena.h>
 
 namespace kaminpar {
+namespace {
+
+// Index of the current thread, or 0 if the thread has not been part of a task arena yet
+int current_thread_index() {
+  return std::max(0, tbb::this_task_arena::current_thread_index());
+}
+
+} // namespace
+
 std::mutex Random::_create_mutex;
 std::vector<std::unique_ptr<Random>> Random::_instances;
 int Random::_seed = 0;
@@ -39,7 +49,7 @@ int Random::get_seed() {
 }
 
 Random::Random()
-    : _generator(_seed + tbb::this_task_arena::current_thread_index()),
+    : _generator(_seed + current_thread_index()),
       _bool_dist(0, 1),
       _real_dist(0, 1),
       _next_random_bool(0),
@@ -48,7 +58,7 @@ Random::Random()
 }
 
 void Random::reinit(const int seed) {
-  _generator = std::mt19937(seed + tbb::this_task_arena::current_thread_index());
+  _generator = std::mt19937(seed + current_thread_index());
   _next_random_bool = 0;
   precompute_bools();
 }
-- 
2.43.0


From 21cce92eabe6447cce9222c6a4c068bdc0f49607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 44/55] fix: keep the upper bits of marker ids

The masks had 32 bits: after 2^(32 - k) resets of a marker with 64 bit values, no element could be marked anymore.
---
 kaminpar-common/datastructures/marker.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/datastructures/marker.h b/kaminpar-common/datastructures/marker.h
index e32e160..b9dc47b 100644
--- a/kaminpar-common/datastructures/marker.h
+++ b/kaminpar-common/datastructures/marker.h
@@ -23,6 +23,10 @@ template <
     typename Value = std::size_t,
     template <typename...> typename Container = std::vector>
 class Marker {
+  // Must be as wide as the stored values: otherwise, the upper bits of the marker ID get lost
+  static constexpr Value kMarkerMask =
+      static_cast<Value>((static_cast<Value>(1) << kNumConcurrentMarkers) - 1);
+
 public:
   explicit Marker() : _marker_id(0), _first_unmarked_element{0} {
     RECORD_DATA_STRUCT(0, _struct);
@@ -46,7 +50,7 @@ public:
     KASSERT(marker < kNumConcurrentMarkers);
     KASSERT(element < _data.size());
 
-    _data[element] = ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id)
+    _data[element] = ((_data[element] & ~kMarkerMask) == _marker_id)
                          ? _data[element] | (1u << marker)
                          : _marker_id | (1u << marker);
 
@@ -65,7 +69,7 @@ public:
 
   [[nodiscard]] bool get(const std::size_t element, const std::size_t marker = 0) const {
     KASSERT(marker < kNumConcurrentMarkers);
-    return ((_data[element] & ~((1u << kNumConcurrentMarkers) - 1u)) == _marker_id) &&
+    return ((_data[element] & ~kMarkerMask) == _marker_id) &&
            ((_data[element] & (1u << marker)) != 0);
   }
 
@@ -80,11 +84,11 @@ public:
   // Increase timestamp s.t. the least significant
   // num_concurrent_markers bits are zeroed
   void reset() {
-    _marker_id |= (1u << kNumConcurrentMarkers) - 1u;
+    _marker_id |= kMarkerMask;
     _marker_id += 1u;
     _first_unmarked_element.fill(0);
 
-    if ((_marker_id | ((1u << kNumConcurrentMarkers) - 1u)) == std::numeric_limits<Value>::max()) {
+    if ((_marker_id | kMarkerMask) == std::numeric_limits<Value>::max()) {
       _marker_id = 0;
 
       if constexpr (std::is_same_v<Container<Value>, std::vector<Value>>) {
-- 
2.43.0


From 94b8aaeac9d9127c534ac45ecc039daf5b76532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 45/55] fix: Queue::tail() returned the slot behind the last
 element

---
 kaminpar-common/datastructures/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/queue.h b/kaminpar-common/datastructures/queue.h
index 4f242f3..17881f9 100644
--- a/kaminpar-common/datastructures/queue.h
+++ b/kaminpar-common/datastructures/queue.h
@@ -45,7 +45,7 @@ public:
   // Access operators
   const_reference tail() const {
     KASSERT(!empty());
-    return _data[_tail];
+    return _data[_tail - 1];
   }
 
   const_reference head() const {
-- 
2.43.0


From e33850a64abce6b3251cf450a81b862e756aeddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 46/55] fix: compare all elements of static arrays

operator== compared the first size() bytes only.
---
 kaminpar-common/datastructures/static_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..cd27630 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -7,6 +7,7 @@
  ******************************************************************************/
 #pragma once
 
+#include <algorithm>
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
@@ -193,7 +194,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::equal(begin(), end(), other.begin());
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From cf4fea19aae1d88445c05c542f665752eac592d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 47/55] fix: forget the size of a sparse map when its data is
 replaced

---
 kaminpar-common/datastructures/sparse_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kaminpar-common/datastructures/sparse_map.h b/kaminpar-common/datastructures/sparse_map.h
index 40ca1ee..b26246d 100644
--- a/kaminpar-common/datastructures/sparse_map.h
+++ b/kaminpar-common/datastructures/sparse_map.h
@@ -141,6 +141,7 @@ public:
 private:
   void allocate_data(const std::size_t capacity) {
     _capacity = capacity;
+    _size = 0;
     _data.reset(nullptr);
 
     const std::size_t total_memory = _capacity * sizeof(Element) + _capacity * sizeof(std::size_t);
-- 
2.43.0


From e2022669d2f28f98aef4d58c15cace3a36b861fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 48/55] fix: compute powers of 2 in the type of the argument

---
 kaminpar-common/math.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kaminpar-common/math.h b/kaminpar-common/math.h
index 180b47a..d9a68a3 100644
--- a/kaminpar-common/math.h
+++ b/kaminpar-common/math.h
@@ -95,8 +95,9 @@ template <typename T> T floor_log2(const T arg) {
   return log2 - 1;
 }
 
+//! Largest power of 2 that is not larger than `arg`; 0 if there is none, i.e., if `arg` is 0.
 template <typename T> T floor2(const T arg) {
-  return 1 << floor_log2(arg);
+  return arg == 0 ? 0 : static_cast<T>(1) << floor_log2(arg);
 }
 
 //! With `UInt = uint32_t`, same as
@@ -105,8 +106,9 @@ template <typename T> T ceil_log2(const T arg) {
   return floor_log2<T>(arg) + 1 - ((arg & (arg - 1)) == 0);
 }
 
+//! Smallest power of 2 that is not smaller than `arg`.
 template <typename T> T ceil2(const T arg) {
-  return 1 << ceil_log2(arg);
+  return arg == 0 ? 1 : static_cast<T>(1) << ceil_log2(arg);
 }
 
 template <typename Int> constexpr Int byte_width(const Int i) {
@@ -243,6 +245,6 @@ auto find_min_mean_max(const Container &container)
 }
 
 template <typename Int> Int create_mask(const int num_bits) {
-  return (1 << num_bits) - 1;
+  return (static_cast<Int>(1) << num_bits) - 1;
 }
 } // namespace kaminpar::math
-- 
2.43.0


From ef241b9060fc91f8bae7f2ee6491adf8cdf7eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 49/55] fix: parallel maxima of negative floating-point numbers

---
 kaminpar-common/parallel/algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-common/parallel/algorithm.h b/kaminpar-common/parallel/algorithm.h
index b914b61..c97d975 100644
--- a/kaminpar-common/parallel/algorithm.h
+++ b/kaminpar-common/parallel/algorithm.h
@@ -105,7 +105,7 @@ template <typename Container> typename Container::value_type max_element(const C
     const Container &_r;
 
   public:
-    value_t _ans{std::numeric_limits<value_t>::min()};
+    value_t _ans{std::numeric_limits<value_t>::lowest()};
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       const Container &r = _r;
@@ -139,7 +139,7 @@ typename std::iterator_traits<InputIt>::value_type max_element(InputIt begin, In
     InputIt _begin;
 
   public:
-    value_t _ans{std::numeric_limits<value_t>::min()};
+    value_t _ans{std::numeric_limits<value_t>::lowest()};
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       InputIt begin = _begin;
@@ -176,7 +176,7 @@ typename std::iterator_traits<InputIt>::value_type max_difference(InputIt begin,
 
   // Catch special cases: zero or one element
   if (size == 0) {
-    return std::numeric_limits<value_t>::min();
+    return std::numeric_limits<value_t>::lowest();
   } else if (size == 1) {
     return 0;
   }
@@ -185,7 +185,7 @@ typename std::iterator_traits<InputIt>::value_type max_difference(InputIt begin,
     InputIt _begin;
 
   public:
-    value_t _ans = std::numeric_limits<value_t>::min();
+    value_t _ans = std::numeric_limits<value_t>::lowest();
 
     void operator()(const tbb::blocked_range<size_t> &indices) {
       const InputIt begin = _begin;
-- 
2.43.0


From cb991cfceeb64fbb02362ae20001a68c7b01cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 50/55] fix: lowest degree in the last degree buckets

---
 kaminpar-common/degree_buckets.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/degree_buckets.h b/kaminpar-common/degree_buckets.h
index 095fb60..881b6bd 100644
--- a/kaminpar-common/degree_buckets.h
+++ b/kaminpar-common/degree_buckets.h
@@ -17,7 +17,7 @@ template <typename NodeID>
 static constexpr int kNumberOfDegreeBuckets = std::numeric_limits<NodeID>::digits + 1;
 
 template <typename NodeID> inline NodeID lowest_degree_in_bucket(const int bucket) {
-  return (1u << bucket) >> 1u;
+  return (bucket == 0) ? 0 : static_cast<NodeID>(1) << (bucket - 1);
 }
 
 template <typename NodeID> inline int degree_bucket(const NodeID degree) {
-- 
2.43.0


From 1bb4247f118e45bcc1ebfb7e68edd2d41f08c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 51/55] fix: total of an aligned prefix sum over a single value

---
 kaminpar-common/parallel/aligned_prefix_sum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/aligned_prefix_sum.h b/kaminpar-common/parallel/aligned_prefix_sum.h
index ad39fa7..efb35ef 100644
--- a/kaminpar-common/parallel/aligned_prefix_sum.h
+++ b/kaminpar-common/parallel/aligned_prefix_sum.h
@@ -57,7 +57,7 @@ std::size_t aligned_prefix_sum(OutputIt begin, OutputIt end, AlignedValueLambda
   *begin = 0;
   --n;
   if (n == 0) {
-    return 0;
+    return l(0).second;
   }
 
   auto compute_alignment_offset = [&](const std::size_t alignment, const std::size_t value) {
-- 
2.43.0


From de80dfb022b401e12167d4fe1652c9a77a23943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:30 +0000
Subject: [PATCH 52/55] fix: at least one thread for parallel initial
 partitioning

---
 kaminpar-shm/partitioning/partition_utils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index 3f50d36..b71bf76 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -123,9 +123,10 @@ std::size_t compute_num_copies(
 }
 
 int compute_num_threads_for_parallel_ip(const Context &input_ctx) {
-  return math::floor2(static_cast<unsigned int>(
+  const auto num_threads = static_cast<unsigned int>(
       1.0 * input_ctx.parallel.num_threads * input_ctx.partitioning.deep_initial_partitioning_load
-  ));
+  );
+  return math::floor2(std::max(1u, num_threads));
 }
 
 BlockID compute_next_k(const BlockID current_k, const Context &input_ctx) {
-- 
2.43.0


From 4c683d817a4ad0045586126c88a78f7d54cfe399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:37 +0000
Subject: [PATCH 53/55] fix: keep the subgraph memory until the partition has
 all blocks

If the input graph has too few nodes for the requested number of blocks,
the partition is extended twice on the finest level, but the subgraph
memory was freed after the first extension.
---
 kaminpar-shm/partitioning/deep/deep_multilevel.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/partitioning/deep/deep_multilevel.cc b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
index c6364bd..56553d2 100644
--- a/kaminpar-shm/partitioning/deep/deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
@@ -397,7 +397,10 @@ void DeepMultilevelPartitioner::extend_partition(PartitionedGraph &p_graph, cons
     );
   }
 
-  if (_last_initial_partitioning_level == _coarsener->level()) {
+  // The input graph might have too few nodes for all blocks: in this case, the partition is extended
+  // a second time on the toplevel
+  if (_last_initial_partitioning_level == _coarsener->level() &&
+      p_graph.k() == _input_ctx.partition.k) {
     SCOPED_TIMER("Deallocation");
     _subgraph_memory.free();
     _extraction_mem_pool_ets.clear();
-- 
2.43.0


From 5126e5aa7f0bf2a45b5e3836c6570ab22abd6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:14 +0000
Subject: [PATCH 54/55] fix: let the no-op coarsener keep the communities of
 v-cycles

Without coarsening, v-cycles started from an empty partition, since the
no-op coarsener dropped the communities: later v-cycles read past its end.
---
 kaminpar-shm/coarsening/noop_coarsener.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kaminpar-shm/coarsening/noop_coarsener.h b/kaminpar-shm/coarsening/noop_coarsener.h
index abf9cd7..e65aa0b 100644
--- a/kaminpar-shm/coarsening/noop_coarsener.h
+++ b/kaminpar-shm/coarsening/noop_coarsener.h
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #pragma once
 
+#include <span>
+
 #include "kaminpar-shm/coarsening/coarsener.h"
 #include "kaminpar-shm/datastructures/graph.h"
 #include "kaminpar-shm/datastructures/partitioned_graph.h"
@@ -35,9 +37,18 @@ public:
     return std::move(p_graph);
   }
 
+  void use_communities(const std::span<const NodeID> communities) final {
+    _communities = communities;
+  }
+
+  [[nodiscard]] std::span<const NodeID> current_communities() const final {
+    return _communities;
+  }
+
   void release_allocated_memory() final {}
 
 private:
   const Graph *_graph = nullptr;
+  std::span<const NodeID> _communities;
 };
 } // namespace kaminpar::shm
-- 
2.43.0


From 3ac604054f08baa86db8c204fc53a1937c824cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 55/55] fix: contract the empty graph

Synchronous parallel initial partitioning coarsens every copy of the
coarsest graph, also an empty one: computing the mapping of its clusters
read in front of an array.
---
 .../coarsening/contraction/cluster_contraction_preprocessing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
index 8e7e612..13d04c4 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
@@ -53,7 +53,7 @@ compute_mapping(const Graph &graph, StaticArray<NodeID> clustering, MemoryContex
 
   fill_leader_mapping(graph, clustering, m_ctx.leader_mapping);
   StaticArray<NodeID> mapping = compute_mapping(graph, std::move(clustering), m_ctx.leader_mapping);
-  const NodeID c_n = m_ctx.leader_mapping[graph.n() - 1];
+  const NodeID c_n = (graph.n() == 0) ? 0 : m_ctx.leader_mapping[graph.n() - 1];
 
   TIMED_SCOPE("Deallocation") {
     m_ctx.leader_mapping.free();
-- 
2.43.0


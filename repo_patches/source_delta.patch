From 47470cfecfa9e1ab730a0edc1937034a91b5ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/49] fix: end LBR ranges at the next executed branch, not at
 a wrong-path entry

The straight-line range that starts at the target of branch i ends at the
source of the next newer branch that was executed. Wrong-path entries between
the two were skipped as range starts but still used as range ends.
---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..3844702 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -312,10 +312,14 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
       branch_count_map_[Branch(event.branch_stack[start_index].from.offset(),
                                event.branch_stack[start_index].to.offset())]++;
     }
+    // Index of the next newer entry that is not on a wrong path.
+    int next_newer_index = start_index;
     for (int i = start_index + 1; i < event.branch_stack.size(); i++) {
       if (event.branch_stack[i].spec == quipper::PERF_BR_SPEC_WRONG_PATH) {
         continue;
       }
+      const int newer_index = next_newer_index;
+      next_newer_index = i;
 
       if (!MatchBinary(event.branch_stack[i].to)) {
         continue;
@@ -340,7 +344,7 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         continue;
       }
       uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = event.branch_stack[i - 1].from.offset();
+      uint64_t end = event.branch_stack[newer_index].from.offset();
       // The interval between two taken branches should not be too large.
       if (end < begin || end - begin > (1 << 20)) {
         const std::string reason =
-- 
2.43.0


From c1c598c8045bc16dbf38c0b150e8376c08d1f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 02/49] fix: forget matched DSOs of the previous perf.data file

match_cache_ is keyed by pointers into the parser of one Append call; a second
Append could find a stale entry for another DSO at the same address and ignore
or wrongly accept its samples.
---
 sample_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index 3844702..6ed1376 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -269,6 +269,8 @@ bool TextSampleReaderWriter::IsFileExist() const {
 bool PerfDataSampleReader::Append(const std::string &profile_file) {
   quipper::PerfReader reader;
   quipper::PerfParser parser(&reader);
+  // The cache is keyed by DSOInfo objects, which a parser owns.
+  match_cache_.clear();
   if (!reader.ReadFile(profile_file) || !parser.ParseRawEvents()) {
     return false;
   }
-- 
2.43.0


From b028b8105709882913e3d44fb3220f8e2613bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 03/49] fix: carry fall-through weight into the next branch
 target of SPE ranges

The code before a branch target may fall through into it, directly or after a
not-taken branch. SynthesizeRanges dropped that weight at every target, so the
range at the target only counted the sampled branches to it.
---
 simple_spe_sample_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index a1d59ad..099fa1d 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -85,9 +85,11 @@ void SimpleSpeDataSampleReader::SynthesizeRanges() {
   for (const auto& [addr, _] : address_count_map_) branch_addrs.insert(addr);
   
   uint64_t ranges_created = 0;
+  // Between iterations, the weight that falls through into the next target.
+  uint64_t range_weight = 0;
   for (auto it = incoming_weights.begin(); it != incoming_weights.end(); ++it) {
     uint64_t range_start = it->first;
-    uint64_t range_weight = it->second;
+    range_weight += it->second;
     uint64_t scan_end = (std::next(it) != incoming_weights.end()) 
                         ? std::next(it)->first : range_start + kMaxRangeSize;
     
-- 
2.43.0


From 003787b1b04abf95bc024338bbcdb32f53d40b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 04/49] fix: keep thread history exact when perf events are out
 of time order

An event was dropped when the latest known entry of its thread had the same
PID, even if that entry was later in time, and a kept entry could later be
split by an older one. Collect every entry and drop repetitions at the end.
---
 spe_tid_pid_provider.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spe_tid_pid_provider.cc b/spe_tid_pid_provider.cc
index cfc8220..7ed44ef 100644
--- a/spe_tid_pid_provider.cc
+++ b/spe_tid_pid_provider.cc
@@ -28,8 +28,6 @@ SpeTidPidProvider::SpeTidPidProvider(
     auto record = [&](int pid, int tid, uint64_t timestamp) {
       if (pid <= 0 || tid <= 0) return;
       absl::btree_map<uint64_t, pid_t>& pids = tids_to_pids_[tid];
-      // If the most recent entry is from this PID, don't bother adding it.
-      if (!pids.empty() && pids.rbegin()->second == pid) return;
       VLOG(7) << absl::StrCat("tid = ", tid, ", timestamp = ", timestamp,
                               ", pid = ", pid, "\n");
       pids.insert(std::make_pair(timestamp, pid));
@@ -48,6 +46,20 @@ SpeTidPidProvider::SpeTidPidProvider(
       record(info->pid(), info->tid(), info->sample_time_ns());
     }
   }
+
+  // Drop the entries that repeat the preceding PID. This has to wait until all
+  // events are known because events need not be in time order.
+  for (auto& [tid, pids] : tids_to_pids_) {
+    pid_t previous_pid = 0;
+    for (auto it = pids.begin(); it != pids.end();) {
+      if (it->second == previous_pid) {
+        it = pids.erase(it);
+      } else {
+        previous_pid = it->second;
+        ++it;
+      }
+    }
+  }
 }
 
 uint64_t SpeTidPidProvider::SpeTimestampToPerfTimestamp(uint64_t cycles) const {
-- 
2.43.0


From 830002cb4538b7e51c5664b90804d5ece60cd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/49] fix: add up call target counts instead of keeping the
 last one

Merging a second profile (or a second branch record at the same source
location) overwrote the count of an indirect call target while all other
counts were added up.
---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..0e8e3c4 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -602,7 +602,7 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
       src[0].HasInvalidInfo())
     return false;
   symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+      .target_map[GetOriginalName(target)] += count;
   return true;
 }
 
-- 
2.43.0


From 7c105a7a90d64eabd915216fad844e26a0eb75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 06/49] fix: merge body-less LLVM profiles of functions that
 already have samples

The total of a profile without body samples was only added when the function
had no samples from an earlier profile, so the merged total depended on the
order of the inputs.
---
 llvm_profile_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_profile_reader.cc b/llvm_profile_reader.cc
index e466368..e02b69e 100644
--- a/llvm_profile_reader.cc
+++ b/llvm_profile_reader.cc
@@ -80,9 +80,11 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   if (stack.empty() && !shouldMergeProfileForSym(func_name)) return;
 
   const char *top_func_name = nullptr;
+  uint64_t previous_total_count = 0;
   if (stack.empty()) {
     top_func_name = func_name;
     symbol_map_->AddSymbol(func_name);
+    previous_total_count = symbol_map_->map().at(func_name)->total_count;
     symbol_map_->AddSymbolEntryCount(func_name, fs.getHeadSamples());
   } else {
     top_func_name = stack.back().func_name;
@@ -119,7 +121,7 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   // debug information receive samples and lines with debug information don't.
   // It's not something we have seen in practice so it's not being implemented.
   if (stack.empty() &&
-      symbol_map_->map().at(func_name)->total_count == 0) {
+      symbol_map_->map().at(func_name)->total_count == previous_total_count) {
     symbol_map_->AddSymbolEntryCount(func_name, 0, fs.getTotalSamples());
   }
 }
-- 
2.43.0


From 286dfe80fbd41bcd9660d08000de20a77cdef966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 07/49] fix: find call graph cycles with unique visit indices

StrongConnect passed the visit index by value, so siblings shared an index and
unrelated functions could be taken for one cycle (or a cycle be missed, ending
in the 'Found a Loop' failure). The sum for a cycle was also kept in 32 bits.
---
 symbol_map.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 0e8e3c4..bb6d7b2 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -789,7 +789,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -840,11 +840,11 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                               SCCMap *sccmap) {
-  node->index = index;
-  node->lowlink = index;
-  index++;
+  node->index = *index;
+  node->lowlink = *index;
+  ++*index;
   stack->push_back(node);
 
   for (auto *callee : node->callees) {
@@ -901,7 +901,7 @@ void CallGraph::FindAndCollapseSCC() {
   NodeStack stack;
   SCCMap sccmap;
   for (auto *node : nodes) {
-    if (!node->index) StrongConnect(node, index, &stack, &sccmap);
+    if (!node->index) StrongConnect(node, &index, &stack, &sccmap);
   }
   CollapseSCC(&sccmap);
 }
@@ -961,7 +961,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From fabfc37acedc9efa222492c26254071612261a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 08/49] fix: drop symbols merged away by suffix elision

ElideSuffixesAndMerge left the merged symbols in unique_symbols_, so
ComputeWorkingSets and Validate counted their samples twice.
---
 symbol_map.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index bb6d7b2..15bfecd 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -318,6 +318,7 @@ void SymbolMap::ElideSuffixesAndMerge() {
     if (orig_name != name_symbol.first)
       suffix_elide_set.push_back(name_symbol.first.c_str());
   }
+  absl::flat_hash_set<const Symbol *> merged_symbols;
   for (const auto &name : suffix_elide_set) {
     std::string orig_name = GetOriginalName(name);
     auto iter = map_.find(name);
@@ -337,7 +338,15 @@ void SymbolMap::ElideSuffixesAndMerge() {
     for (auto &n_s : map_) {
       if (n_s.second == sym) n_s.second = ret.first->second;
     }
-  }
+    merged_symbols.insert(sym);
+  }
+  // The samples of a merged symbol live on in the symbol it was merged into.
+  unique_symbols_.erase(
+      std::remove_if(unique_symbols_.begin(), unique_symbols_.end(),
+                     [&](const std::unique_ptr<Symbol> &symbol) {
+                       return merged_symbols.contains(symbol.get());
+                     }),
+      unique_symbols_.end());
 }
 
 void SymbolMap::AddSymbol(absl::string_view name) {
-- 
2.43.0


From 516f6f3f572b9daa01841f886fd42658956050d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 09/49] fix: sum branch counters in 64 bits

The initial value 0 made absl::c_accumulate add in an int.
---
 branch_frequencies.h | 2 +-
 lbr_aggregation.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/branch_frequencies.h b/branch_frequencies.h
index 1dee479..427a2c5 100644
--- a/branch_frequencies.h
+++ b/branch_frequencies.h
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo
     int64_t GetNumberOfTakenBranchCounters() const
     {
       return absl::c_accumulate(
-          taken_branch_counters, 0,
+          taken_branch_counters, int64_t{0},
           [](int64_t cnt, const auto &v)
           { return cnt + v.second; });
     }
diff --git a/lbr_aggregation.h b/lbr_aggregation.h
index 2d58359..ac6a9b4 100644
--- a/lbr_aggregation.h
+++ b/lbr_aggregation.h
@@ -21,7 +21,7 @@ namespace devtools_crosstool_autofdo {
 struct LbrAggregation {
   int64_t GetNumberOfBranchCounters() const {
     return absl::c_accumulate(
-        branch_counters, 0,
+        branch_counters, int64_t{0},
         [](int64_t cnt, const auto &v) { return cnt + v.second; });
   }
 
-- 
2.43.0


From 4a1e59205c58d9998d9f7791f35a8b0c23c1db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 10/49] fix: keep block addresses of CFG nodes in 64 bits

CFGNode stored the 64-bit address in an int; addresses at or above 2 GiB
(position-dependent or kernel binaries) read back truncated and
sign-extended, which also corrupts the original layout scores.
---
 llvm_propeller_cfg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
-- 
2.43.0


From 7b7eac59c633d7a7f48f7d8e8c05533f34d8092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 11/49] fix: score edges by their full 64-bit distance

GetEdgeScore narrowed the callers' int64_t distance to int, so jumps
farther apart than 2 GiB wrapped around to near ones.
---
 llvm_propeller_code_layout_scorer.cc | 2 +-
 llvm_propeller_code_layout_scorer.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 98582c9..87c46a7 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -26,7 +26,7 @@ PropellerCodeLayoutScorer::PropellerCodeLayoutScorer(
 // Returns the score for one edge, given its source to sink direction and
 // distance in the layout.
 double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
-                                               int src_sink_distance) const {
+                                               int64_t src_sink_distance) const {
   // Approximate callsites to be in the middle of the source basic block.
   if (edge.IsCall()) src_sink_distance += edge.src()->size() / 2;
 
diff --git a/llvm_propeller_code_layout_scorer.h b/llvm_propeller_code_layout_scorer.h
index a35ed19..513f9d9 100644
--- a/llvm_propeller_code_layout_scorer.h
+++ b/llvm_propeller_code_layout_scorer.h
@@ -14,7 +14,7 @@ class PropellerCodeLayoutScorer {
  public:
   explicit PropellerCodeLayoutScorer(
       const PropellerCodeLayoutParameters &params);
-  double GetEdgeScore(const CFGEdge &edge, int src_sink_distance) const;
+  double GetEdgeScore(const CFGEdge &edge, int64_t src_sink_distance) const;
   const PropellerCodeLayoutParameters &code_layout_params() const {
     return code_layout_params_;
   }
-- 
2.43.0


From 75d5b17f6936998a47546f53efcc3ad2fa45e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 12/49] fix: compute edge scores in floating point

An int weight times a uint32 weight parameter is a 32-bit product, which
wraps for edges executed more than 2^32 / fallthrough_weight times.
---
 llvm_propeller_code_layout_scorer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 87c46a7..6d19167 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -33,19 +33,22 @@ double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
   if (edge.IsReturn()) src_sink_distance += edge.sink()->size() / 2;
 
   if (src_sink_distance == 0 && edge.IsBranchOrFallthrough())
-    return edge.weight() * code_layout_params_.fallthrough_weight();
+    return static_cast<double>(edge.weight()) *
+           code_layout_params_.fallthrough_weight();
 
   double absolute_src_sink_distance =
       static_cast<double>(std::abs(src_sink_distance));
   if (src_sink_distance > 0 &&
       absolute_src_sink_distance < code_layout_params_.forward_jump_distance())
-    return edge.weight() * code_layout_params_.forward_jump_weight() *
+    return static_cast<double>(edge.weight()) *
+           code_layout_params_.forward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.forward_jump_distance());
 
   if (src_sink_distance < 0 &&
       absolute_src_sink_distance < code_layout_params_.backward_jump_distance())
-    return edge.weight() * code_layout_params_.backward_jump_weight() *
+    return static_cast<double>(edge.weight()) *
+           code_layout_params_.backward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.backward_jump_distance());
   return 0;
-- 
2.43.0


From a3843d3bc5b070934a41078aa878863e21c3e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 13/49] fix: sum chain and cluster frequencies in 64 bits

Sums of block frequencies, and ten times an edge's weight, overflow int on
heavily sampled programs; call chain clustering then dropped hot edges and
ordered clusters by negative densities.
---
 llvm_propeller_chain_cluster_builder.cc | 4 ++--
 llvm_propeller_chain_cluster_builder.h  | 5 +++--
 llvm_propeller_node_chain.h             | 8 ++++----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/llvm_propeller_chain_cluster_builder.cc b/llvm_propeller_chain_cluster_builder.cc
index 3a4b637..45e7896 100644
--- a/llvm_propeller_chain_cluster_builder.cc
+++ b/llvm_propeller_chain_cluster_builder.cc
@@ -74,7 +74,7 @@ void ChainClusterBuilder::MergeWithBestPredecessorCluster(
       if (edge.inter_section()) return;
       // Omit the edge if it's cold relative to the sink.
       if (edge.weight() == 0 ||
-          edge.weight() * kHotEdgeRelativeFrequencyThreshold <
+          int64_t{edge.weight()} * kHotEdgeRelativeFrequencyThreshold <
               edge.sink()->CalculateFrequency()) {
         return;
       }
@@ -92,7 +92,7 @@ void ChainClusterBuilder::MergeWithBestPredecessorCluster(
       // more than 1/kDensityDegradationThreshold by the merge.
       if (kExecutionDensityDegradationThreshold * src_cluster->size() *
               (cluster->freq() + src_cluster->freq()) <
-          static_cast<int64_t>(src_cluster->freq()) *
+          src_cluster->freq() *
               (cluster->size() + src_cluster->size())) {
         return;
       }
diff --git a/llvm_propeller_chain_cluster_builder.h b/llvm_propeller_chain_cluster_builder.h
index a1b8e19..a7ec03e 100644
--- a/llvm_propeller_chain_cluster_builder.h
+++ b/llvm_propeller_chain_cluster_builder.h
@@ -2,6 +2,7 @@
 #define AUTOFDOLLVM_PROPELLER_CHAIN_CLUSTER_BUILDER_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -38,7 +39,7 @@ class ChainCluster {
   int size() const { return size_; }
 
   // Returns the total frquency of the cluster.
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
 
   // Returns the unique identifier for this cluster.
   CFGNode::InterCfgId id() const { return id_; }
@@ -74,7 +75,7 @@ class ChainCluster {
   int size_;
 
   // Total frequency of the cluster.
-  int freq_;
+  int64_t freq_;
 };
 
 class ChainClusterBuilder {
diff --git a/llvm_propeller_node_chain.h b/llvm_propeller_node_chain.h
index d16dfa6..41a5985 100644
--- a/llvm_propeller_node_chain.h
+++ b/llvm_propeller_node_chain.h
@@ -89,7 +89,7 @@ class CFGNodeBundle {
   CFGNodeBundle &operator=(CFGNodeBundle &&other) = default;
 
   int size() const { return size_; }
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
   const std::vector<const CFGNode *> &nodes() const { return nodes_; }
   const ChainMappingEntry &chain_mapping() const { return chain_mapping_; }
   const std::vector<const CFGEdge *> &intra_chain_out_edges() const {
@@ -140,7 +140,7 @@ class CFGNodeBundle {
   int size_;
 
   // Total execution frequency of this bundle.
-  int freq_;
+  int64_t freq_;
 
   // Edges from this bundle to other bundles of `chain_`. Ordered in increasing
   // order of the sink bundle's `chain_index_`. This ordering should be enforced
@@ -199,7 +199,7 @@ class NodeChain {
   std::optional<int> function_index() const { return function_index_; }
   double score() const { return score_; }
   int size() const { return size_; }
-  int freq() const { return freq_; }
+  int64_t freq() const { return freq_; }
   std::vector<std::unique_ptr<CFGNodeBundle>> &mutable_node_bundles() {
     return node_bundles_;
   }
@@ -316,7 +316,7 @@ class NodeChain {
   // Total binary size of the chain.
   int size_;
   // Total execution frequency of the chain.
-  int freq_;
+  int64_t freq_;
   // Total score for this chain.
   double score_ = 0;
 
-- 
2.43.0


From 28f23ade56d02c93e25968e71008b63ebea7667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 14/49] fix: sort the edges inside given initial chains

Slice gains stop scanning a bundle's edges at the first out-of-range sink,
which relies on the edges being sorted; initial chains of several bundles
were left unsorted, so gains and stored scores missed edges.
---
 llvm_propeller_node_chain_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index 14a96ab..50c601e 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -494,6 +494,8 @@ void NodeChainBuilder::InitChainEdges() {
     });
   }
   for (auto &[chain_id, chain] : chains_) {
+    // A given initial chain may have edges among its bundles.
+    chain->SortIntraChainEdges(*node_to_bundle_mapper_);
     chain->SetScore(
         chain->ComputeScore(*node_to_bundle_mapper_, code_layout_scorer_));
   }
-- 
2.43.0


From 0150bfd4586ea4d712f761bdc0b3ae91c9b66679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 15/49] fix: compute the progress of a group in integers

Going through float made a part at 53% of a group of one be reported as
52%, and could round an unfinished group with large weights up to 100%.
---
 status_provider.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/status_provider.cc b/status_provider.cc
index 442f0e2..fd9b5bf 100644
--- a/status_provider.cc
+++ b/status_provider.cc
@@ -1,5 +1,6 @@
 #include "status_provider.h"
 
+#include <cstdint>
 #include <string>
 
 #include "third_party/abseil/absl/strings/str_format.h"
@@ -24,7 +25,6 @@ int MultiStatusProvider::GetProgress() const {
   if (i == n_status) return 100;
   int w = weighted_statuses_[i].weight;
   int p = weighted_statuses_[i].status_provider->GetProgress();
-  return (finished_weight + static_cast<float>(w) * p / 100) * 100 /
-         total_weight_;
+  return (int64_t{100} * finished_weight + int64_t{w} * p) / total_weight_;
 }
 }  // namespace devtools_crosstool_autofdo
-- 
2.43.0


From 971940b51a7ac4a4600de69be40a318677e4db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 16/49] fix: do not lose the files read before a failing one

GetAllAvailableOrNext dropped the buffers it had read when a later file
could not be read, and the next call went on after them.
---
 llvm_propeller_file_perf_data_provider.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_file_perf_data_provider.h b/llvm_propeller_file_perf_data_provider.h
index d576d3e..0a1c308 100644
--- a/llvm_propeller_file_perf_data_provider.h
+++ b/llvm_propeller_file_perf_data_provider.h
@@ -80,11 +80,17 @@ class FilePerfDataProvider : public PerfDataProvider {
   absl::StatusOr<std::vector<PerfDataProvider::BufferHandle>>
   GetAllAvailableOrNext() override {
     std::vector<PerfDataProvider::BufferHandle> result;
+    const int first_index = index_;
     while (true) {
-      ASSIGN_OR_RETURN(std::optional<PerfDataProvider::BufferHandle> next,
-                       GetNext());
-      if (!next.has_value()) return result;
-      result.push_back(std::move(next.value()));
+      absl::StatusOr<std::optional<PerfDataProvider::BufferHandle>> next =
+          GetNext();
+      if (!next.ok()) {
+        // Nothing is returned, so the files read so far are still to be read.
+        index_ = first_index;
+        return next.status();
+      }
+      if (!next->has_value()) return result;
+      result.push_back(std::move(next->value()));
     }
     return result;
   }
-- 
2.43.0


From a0e8f54e62fd506578dd8e03bfdb2a421fd52d1d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 17/49] fix: profile same-named functions separately

Profile kept its per-function samples in a map keyed by the function's name
only. When two functions of a binary have one name (internal linkage), the
samples of the second were collected under the extent of the first and then
dropped.
---
 profile.cc | 15 +++++++++------
 profile.h  |  6 +++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/profile.cc b/profile.cc
index c6f71cf..4af1bbc 100644
--- a/profile.cc
+++ b/profile.cc
@@ -40,7 +40,7 @@ Profile::ProfileMaps *Profile::GetProfileMaps(uint64_t addr) {
                                        &start_addr, &end_addr)) {
     std::pair<SymbolProfileMaps::iterator, bool> ret =
         symbol_profile_maps_.insert(
-            SymbolProfileMaps::value_type(*name, nullptr));
+            SymbolProfileMaps::value_type({*name, start_addr}, nullptr));
     if (ret.second) {
       ret.first->second = new ProfileMaps(start_addr, end_addr);
     }
@@ -220,7 +220,8 @@ void Profile::ComputeProfile(bool check_lbr_entry) {
   AggregatePerFunctionProfile(check_lbr_entry);
 
   if (absl::GetFlag(FLAGS_llc_misses)) {
-    for (const auto &[func_name, maps] : symbol_profile_maps_) {
+    for (const auto &[name_and_start, maps] : symbol_profile_maps_) {
+      const std::string &func_name = name_and_start.first;
       std::map<uint64_t, uint64_t> counts;
       for (const auto &[pc, count] : maps->address_count_map) {
         DCHECK(maps->start_addr <= pc && pc <= maps->end_addr);
@@ -244,8 +245,8 @@ void Profile::ComputeProfile(bool check_lbr_entry) {
     // are emitted only if their total sample count is above the required
     // threshold.
     absl::flat_hash_map<std::string, uint64_t> symbol_counts;
-    for (const auto &[name, profile] : symbol_profile_maps_) {
-      symbol_counts[symbol_map_->GetOriginalName(name)] +=
+    for (const auto &[name_and_start, profile] : symbol_profile_maps_) {
+      symbol_counts[symbol_map_->GetOriginalName(name_and_start.first)] +=
           profile->GetAggregatedCount();
     }
 
@@ -253,7 +254,8 @@ void Profile::ComputeProfile(bool check_lbr_entry) {
     // need to do this before hand because ProcessPerFunctionProfile will call
     // AddSymbolEntryCount for other symbols, which may or may not had been
     // processed by ProcessPerFunctionProfile.
-    for (const auto &[name, ignored] : symbol_profile_maps_) {
+    for (const auto &[name_and_start, ignored] : symbol_profile_maps_) {
+      const std::string &name = name_and_start.first;
       const uint64_t count =
           symbol_counts.at(symbol_map_->GetOriginalName(name));
       if (symbol_map_->ShouldEmit(count)) {
@@ -261,7 +263,8 @@ void Profile::ComputeProfile(bool check_lbr_entry) {
       }
     }
 
-    for (const auto &[name, profile] : symbol_profile_maps_) {
+    for (const auto &[name_and_start, profile] : symbol_profile_maps_) {
+      const std::string &name = name_and_start.first;
       const uint64_t count =
           symbol_counts.at(symbol_map_->GetOriginalName(name));
       if (symbol_map_->ShouldEmit(count)) {
diff --git a/profile.h b/profile.h
index 0d2850a..e15bb29 100644
--- a/profile.h
+++ b/profile.h
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <set>
 #include <string>
+#include <utility>
 
 #include "base/integral_types.h"
 #include "sample_reader.h"
@@ -61,7 +62,10 @@ class Profile {
     RangeCountMap range_count_map;
     BranchCountMap branch_count_map;
   };
-  typedef absl::node_hash_map<std::string, ProfileMaps *> SymbolProfileMaps;
+  // Keyed by name and start address: different functions (e.g. with internal
+  // linkage) may have the same name.
+  typedef absl::node_hash_map<std::pair<std::string, uint64_t>, ProfileMaps *>
+      SymbolProfileMaps;
 
   // Returns the profile maps for a give function.
   ProfileMaps *GetProfileMaps(uint64_t addr);
-- 
2.43.0


From 804f4fc23e7b8b4084a33d74a9bc48f1dd5f2fd6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 18/49] fix: keep the timestamp of a function's first execution

A function took the timestamp of its sampled instruction with the lowest
address instead of the earliest one, lost its timestamp when its suffix was
elided, and some symbols were created with an uninitialized timestamp.
---
 profile.cc    |  4 ++--
 symbol_map.cc |  3 ++-
 symbol_map.h  | 15 +++++++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/profile.cc b/profile.cc
index 4af1bbc..600fc03 100644
--- a/profile.cc
+++ b/profile.cc
@@ -64,8 +64,8 @@ void Profile::AggregatePerFunctionProfile(bool check_lbr_entry) {
   for (const auto &[addr, timestamp] : *address_timestamp_map) {
     uint64_t vaddr = symbol_map_->get_static_vaddr(addr);
     ProfileMaps *maps = GetProfileMaps(vaddr);
-    if (maps != nullptr && maps->timestamp == 0) {
-      maps->timestamp = timestamp;
+    if (maps != nullptr) {
+      maps->timestamp = EarlierTimestamp(maps->timestamp, timestamp);
     }
   }
 
diff --git a/symbol_map.cc b/symbol_map.cc
index 15bfecd..5a45dc5 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -142,6 +142,7 @@ Symbol::~Symbol() {
 void Symbol::Merge(const Symbol *other) {
   total_count += other->total_count;
   head_count += other->head_count;
+  timestamp = EarlierTimestamp(timestamp, other->timestamp);
   if (info.file_name.empty()) {
     info.file_name = other->info.file_name;
     info.dir_name = other->info.dir_name;
@@ -536,7 +537,7 @@ void SymbolMap::AddSymbolEntryCount(absl::string_view symbol_name,
 
 void SymbolMap::AddSymbolTimestamp(absl::string_view symbol_name, uint64_t timestamp) {
   Symbol *symbol = map_.find(symbol_name)->second;
-  symbol->timestamp = timestamp;
+  symbol->timestamp = EarlierTimestamp(symbol->timestamp, timestamp);
 }
 
 Symbol *SymbolMap::TraverseInlineStack(absl::string_view symbol_name,
diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..189b9ee 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -4,6 +4,7 @@
 
 #ifndef AUTOFDO_SYMBOL_MAP_H_
 #define AUTOFDO_SYMBOL_MAP_H_
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <iterator>
@@ -120,6 +121,13 @@ struct CallsiteLessThan {
 };
 class Symbol;
 class SymbolMap;
+
+// Returns the earlier of two timestamps, of which 0 is not known.
+inline uint64_t EarlierTimestamp(uint64_t a, uint64_t b) {
+  if (a == 0 || b == 0) return a + b;
+  return std::min(a, b);
+}
+
 // Map from a callsite to the callee symbol.
 // Requires stability of pointers to value_type after insertion.
 typedef absl::node_hash_map<Callsite, Symbol *, CallsiteHash, CallsiteEqual>
@@ -164,7 +172,8 @@ class Symbol {
         total_count_incl(src->total_count_incl),
         head_count(src->head_count),
         callsites(0),
-        pos_counts() {
+        pos_counts(),
+        timestamp(src->timestamp) {
     info.func_name = new_func_name;
   }
 
@@ -245,7 +254,7 @@ class Symbol {
   // Map from source location to count and instruction number.
   PositionCountMap pos_counts;
   // timestamp of first executed instruction
-  uint64_t timestamp;
+  uint64_t timestamp = 0;
 };
 
 // Vector of unique pointers to symbols.
@@ -424,6 +433,8 @@ class SymbolMap {
   void AddSymbolEntryCount(absl::string_view symbol, uint64_t head_count,
                            uint64_t total_count = 0);
 
+  // Records that the symbol was executed at the timestamp. A symbol keeps the
+  // timestamp of its first execution.
   void AddSymbolTimestamp(absl::string_view symbol, uint64_t timestamp);
 
   // DataSource represents what kind of data is used to generate afdo profile.
-- 
2.43.0


From 560cad38351a4d366e1ed432fe3668a40a246226 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 19/49] fix: leave functions of the profile out of the symbol
 list

A function in the profile was added to the list of functions that are not,
under its elided name, when another part of it (e.g. .cold) was in the binary.
---
 symbol_map.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 5a45dc5..bd2b0f6 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1513,6 +1513,9 @@ NameSizeList SymbolMap::collectNamesForProfSymList() {
   for (const auto &addr_symbol : address_symbol_map_) {
     llvm::StringRef str = addr_symbol.second.first;
     if (names_in_profile.count(str)) continue;
+    // The list holds names without elided suffixes, like the profile.
+    if (names_in_profile.count(GetOriginalName(addr_symbol.second.first)))
+      continue;
     name_size_list.emplace_back(str, addr_symbol.second.second);
   }
   return name_size_list;
-- 
2.43.0


From 161b8173579b386618e6f5e95a8a5b7a749b81ab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 20/49] fix: keep misses of a function whose first miss has no
 source

An address without a source position left an empty function behind. The
function's other misses were then recorded in it, but as it had no samples it
was never written.
---
 symbol_map.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index bd2b0f6..2b74eb8 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1472,15 +1472,16 @@ void SymbolMap::BuildFlatProfile(const SymbolMap &srcmap,
 bool SymbolMap::EnsureEntryInFuncForSymbol(absl::string_view func_name,
                                            uint64_t pc) {
   if (map().find(func_name) != map().end()) return true;
-  AddSymbol(func_name);
   SourceStack stack;
   get_addr2line()->GetInlineStack(pc, &stack);
-  // Add bogus samples, so that the writer won't skip over.
-  if (!TraverseInlineStack(func_name, stack, count_threshold() + 1)) {
+  if (stack.empty()) {
     LOG(WARNING) << "Ignoring address " << std::hex << pc
                  << ". No inline stack found.";
     return false;
   }
+  AddSymbol(func_name);
+  // Add bogus samples, so that the writer won't skip over.
+  TraverseInlineStack(func_name, stack, count_threshold() + 1);
   return true;
 }
 
-- 
2.43.0


From 83d7cd71cb8b16894bccab789a9836dbfe681daf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 21/49] fix: count DWARF 5 directories and files from 0

The tables of a DWARF 5 line table start with entry 0, so every file was
taken for the one before it.
---
 util/symbolize/addr2line_inlinestack.cc |  4 ++--
 util/symbolize/dwarf2reader.cc          |  8 ++++----
 util/symbolize/functioninfo.cc          | 10 +++++++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..aea98c9 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +468,7 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..65e6d04 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1612,7 +1612,7 @@ void LineInfo::ReadHeader() {
     header_.actuals_offset = 0;
   } 
   else if (header_.version == 5) {
-    // Read the DWARF-5 directory table.
+    // Read the DWARF-5 directory table. Its entries count from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1629,7 +1629,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1650,7 +1650,7 @@ void LineInfo::ReadHeader() {
       }
     }
 
-    // Read the DWARF-5 filename table.
+    // Read the DWARF-5 filename table. Its entries count from 0.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1667,7 +1667,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..a627fa8 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -85,6 +85,11 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  // DWARF 5 defines entry 0 as well.
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +101,10 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    // DWARF 5 defines entry 0 as well.
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From a980214e55300346998e79a1f9ab45957bd37038 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 22/49] fix: count DWARF 5 directories from 0 in the LLVM
 symbolizer

---
 addr2line.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..87f83d2 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -125,12 +125,12 @@ void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
     if (line_table->hasFileAtIndex(file)) {
       const auto &entry = line_table->Prologue.getFileNameEntry(file);
       file_name = llvm::dwarf::toString(entry.Name).value();
-      if (entry.DirIdx > 0 &&
-          entry.DirIdx <= line_table->Prologue.IncludeDirectories.size())
-        dir_name =
-            llvm::dwarf::toString(
-                line_table->Prologue.IncludeDirectories[entry.DirIdx - 1])
-                .value();
+      // Directories count from 0 since DWARF 5, where 0 is the directory of
+      // the compilation.
+      const auto &dirs = line_table->Prologue.IncludeDirectories;
+      uint64_t dir = entry.DirIdx;
+      if (line_table->Prologue.getVersion() < 5) --dir;
+      if (dir < dirs.size()) dir_name = llvm::dwarf::toString(dirs[dir]).value();
     }
     stack->emplace_back(function_name, dir_name, file_name, start_line, line,
                         discriminator);
-- 
2.43.0


From 3c13f07a29929cf22715b8d427b586f8fd9b47f0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 23/49] fix: accept range list indices in compilation units

---
 util/symbolize/addr2line_inlinestack.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index aea98c9..9308889 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -441,7 +441,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_str_offsets_base:
         str_offset_base_ = data;
         break;
-      case DW_AT_ranges: 
+      case DW_AT_ranges:
+        // An index into the range lists is not their base.
+        if (form == DW_FORM_rnglistx) break;
         CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
         FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
-- 
2.43.0


From 38453ef22f79a8de2f7ffd64045644e3fb8d149e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 24/49] fix: read string sections by their own name

.debug_str_offsets was never read, and .debug_line_str stood in for the others
even when missing.
---
 legacy_addr2line.cc                     | 3 ++-
 util/symbolize/addr2line_inlinestack.cc | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..45a614d 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 9308889..2d8e25c 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
-- 
2.43.0


From 5d352ff42a109b93c1a36d26269290dffbf89b09 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 25/49] fix: read wide address indices to their end

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 65e6d04..b550fe2 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -807,7 +807,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -815,7 +815,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -842,7 +842,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From e06a7f943a8a1123c4bb9151a5d0ca05668c005c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 26/49] fix: skip unused columns of DWARF 5 file tables

A checksum of the files, as clang writes it, made the line table unreadable.
---
 util/symbolize/dwarf2reader.cc | 29 +++++++++++++++++++++++++++--
 util/symbolize/dwarf2reader.h  |  4 ++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index b550fe2..d91655a 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1457,6 +1457,31 @@ bool LineInfo::ReadUnsignedForm(uint32 form, uint64* value,
   return true;
 }
 
+bool LineInfo::SkipForm(uint32 form, const char** lineptr) {
+  size_t len;
+  uint64 block_length;
+  uint64 unused;
+
+  switch (form) {
+    case DW_FORM_data4:
+      return AdvanceLinePtr(4, lineptr);
+    case DW_FORM_data8:
+      return AdvanceLinePtr(8, lineptr);
+    case DW_FORM_data16:
+      return AdvanceLinePtr(16, lineptr);
+    case DW_FORM_string:
+      return AdvanceLinePtr(strlen(*lineptr) + 1, lineptr);
+    case DW_FORM_strp:
+    case DW_FORM_line_strp:
+      return AdvanceLinePtr(reader_->OffsetSize(), lineptr);
+    case DW_FORM_block:
+      block_length = reader_->ReadUnsignedLEB128(*lineptr, &len);
+      return AdvanceLinePtr(len + block_length, lineptr);
+    default:
+      return ReadUnsignedForm(form, &unused, lineptr);
+  }
+}
+
 // The header for a debug_line section is mildly complicated, because
 // the line info is very tightly encoded.
 void LineInfo::ReadHeader() {
@@ -1637,7 +1662,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
@@ -1683,7 +1708,7 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
-          } else {
+          } else if (!SkipForm(content_forms[col], &lineptr)) {
             malformed_ = true;
             return;
           }
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..074b185 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -165,6 +165,10 @@ class LineInfo {
   // Reads an unsigned integer of form DW_FORM_udata.
   bool ReadUnsignedForm(uint32 form, uint64* value, const char** lineptr);
 
+  // Skips a value of a directory or filename table that is not used, such as
+  // a checksum.
+  bool SkipForm(uint32 form, const char** lineptr);
+
   // Reads the DWARF2/3 header for this line info.
   void ReadHeader();
 
-- 
2.43.0


From 101e200242bb82f44003c99c32f16e9fe8ed873b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 27/49] fix: read the bases of a compilation unit first

An address index before DW_AT_addr_base was looked up in the first unit's
table.
---
 util/symbolize/dwarf2reader.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index d91655a..a284785 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -268,6 +268,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
     }
       break;
     case DW_FORM_strp:
+    case DW_FORM_line_strp:
     case DW_FORM_strp_sup:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
@@ -870,6 +871,17 @@ void CompilationUnit::ProcessAttributeUnsigned(uint64 offset,
 const char* CompilationUnit::ProcessDIE(uint64 dieoffset,
                                         const char* start,
                                         const Abbrev& abbrev) {
+  if (abbrev.tag == DW_TAG_compile_unit || abbrev.tag == DW_TAG_skeleton_unit) {
+    // The other attributes of the unit may refer to the unit's part of a table
+    // before the attribute that says where this part starts.
+    const char* pos = start;
+    for (const AttributeSpec& spec : abbrev.attributes) {
+      if (spec.name == DW_AT_addr_base || spec.name == DW_AT_GNU_addr_base ||
+          spec.name == DW_AT_str_offsets_base)
+        ProcessAttribute(dieoffset, pos, spec.name, spec.form, spec.value);
+      pos = SkipAttribute(pos, spec.form);
+    }
+  }
   for (AttributeList::const_iterator i = abbrev.attributes.begin();
        i != abbrev.attributes.end();
        i++)  {
-- 
2.43.0


From 86e33a461106353fc7bec306ead80679355e07e9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 28/49] fix: read absolute range list entries as absolute

---
 util/symbolize/addr2line_inlinestack.cc | 2 +-
 util/symbolize/dwarf3ranges.cc          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 2d8e25c..6b213fb 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -351,7 +351,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From b138cb3e273e82ca4531a20cd518b5eca70dc740 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 29/49] fix: read implicit declaration lines and discriminators

---
 util/symbolize/addr2line_inlinestack.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 6b213fb..beb4667 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -494,6 +494,15 @@ void InlineStackHandler::ProcessAttributeSigned(
         CHECK(form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
+      case DW_AT_GNU_discriminator:
+        CHECK(form == DW_FORM_implicit_const);
+        subprogram_stack_.back()->set_callsite_discr(data);
+        break;
+      case DW_AT_decl_line:
+        if (die_stack_.back() == DW_TAG_subprogram) {
+          subprogram_stack_.back()->set_callsite_line(data);
+        }
+        break;
 
       default:
         break;
-- 
2.43.0


From 1c64a03256ffb4048a26dd5e783880494877bd70 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 30/49] fix: keep subprograms nested in others

---
 util/symbolize/addr2line_inlinestack.cc | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index beb4667..6c31178 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -198,8 +198,11 @@ bool InlineStackHandler::StartDIE(uint64 offset,
       if (have_two_level_line_tables_)
         return false;
       bool inlined = (tag == DW_TAG_inlined_subroutine);
+      // A subprogram nested in another one (a method of a local class, say) has
+      // code of its own: only inlined subroutines are part of their parent.
       SubprogramInfo *parent =
-          subprogram_stack_.empty() ? NULL : subprogram_stack_.back();
+          inlined && !subprogram_stack_.empty() ? subprogram_stack_.back()
+                                                : NULL;
       SubprogramInfo *child = new SubprogramInfo(input_file_index_,
                                                  offset, parent, inlined);
       if (!compilation_unit_comp_dir_.empty())
@@ -226,12 +229,13 @@ void InlineStackHandler::EndDIE(uint64 offset) {
   if ((die == DW_TAG_subprogram ||
        die == DW_TAG_inlined_subroutine) &&
       !have_two_level_line_tables_) {
-    // If the top level subprogram is used, we mark all subprograms in
-    // the subprogram_stack_ as used.
-    if (subprogram_stack_.front()->used()) {
-      subprogram_stack_.back()->set_used();
+    // If a subprogram is used, we mark all subroutines inlined in it as used.
+    const SubprogramInfo *function = subprogram_stack_.back();
+    while (function->parent() != NULL) {
+      function = function->parent();
     }
-    if (subprogram_stack_.front()->used()) {
+    if (function->used()) {
+      subprogram_stack_.back()->set_used();
       subprogram_insert_order_.push_back(subprogram_stack_.back());
     }
     subprogram_stack_.pop_back();
@@ -328,17 +332,17 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_low_pc:
         subprogram_stack_.back()->SetSingletonRangeLow(data);
         // If a symbol's start address is in sampled_functions, we will
-        // mark the top level subprogram of this symbol as used.
-        if (subprogram_stack_.size() != 1) {
+        // mark the subprogram of this symbol as used.
+        if (subprogram_stack_.back()->inlined()) {
           break;
         }
         if (sampled_functions_ != NULL) {
           if (sampled_functions_->find(data) != sampled_functions_->end()) {
-            subprogram_stack_.front()->set_used();
+            subprogram_stack_.back()->set_used();
           }
         } else {
           if (data != 0) {
-            subprogram_stack_.front()->set_used();
+            subprogram_stack_.back()->set_used();
           }
         }
         break;
@@ -359,19 +363,19 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           address_ranges_->ReadDwarfRngListwithOffsetArray(address_, compilation_unit_base_, &ranges, addr_base_, ranges_base_);
         }
 
-        if (subprogram_stack_.size() == 1) {
+        if (!subprogram_stack_.back()->inlined()) {
           if (sampled_functions_ != NULL) {
             for (const auto &range : ranges) {
               if (sampled_functions_->find(range.first)
                   != sampled_functions_->end()) {
-                subprogram_stack_.front()->set_used();
+                subprogram_stack_.back()->set_used();
                 break;
               }
             }
           } else {
             for (const auto &range : ranges) {
               if (range.first != 0) {
-                subprogram_stack_.front()->set_used();
+                subprogram_stack_.back()->set_used();
                 break;
               }
             }
-- 
2.43.0


From b888e5005c0ad9bcaa37a34416134bc942bc53c2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 31/49] fix: name functions by their linkage names

---
 legacy_addr2line.cc                     |  5 +++--
 util/symbolize/addr2line_inlinestack.cc | 19 ++++++++++++++++++-
 util/symbolize/addr2line_inlinestack.h  | 11 +++++++++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 45a614d..bf679c2 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -211,7 +211,8 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
   if (subprog != NULL) {
     const SubprogramInfo *declaration =
         inline_stack_handler_->GetDeclaration(subprog);
-    function_name = declaration->name().c_str();
+    function_name =
+        inline_stack_handler_->GetNamed(subprog)->name().c_str();
     start_line =
         inline_stack_handler_->GetAbstractOrigin(subprog)->callsite_line();
     if (start_line == 0)
@@ -255,7 +256,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     }
 
     stack->push_back(SourceInfo(
-        canonical_parent->name().c_str(),
+        inline_stack_handler_->GetNamed(subprog->parent())->name().c_str(),
         dir_name,
         subprog->callsite_filename(),
         start_line,
diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 6c31178..224f58a 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -253,7 +253,7 @@ void InlineStackHandler::ProcessAttributeString(
     // Use the mangled name if it exists, otherwise use the demangled name
     if (attr == DW_AT_MIPS_linkage_name
         || attr == DW_AT_linkage_name) {
-      subprogram_stack_.back()->set_name(data);
+      subprogram_stack_.back()->set_linkage_name(data);
     } else if (attr == DW_AT_name &&
                subprogram_stack_.back()->name().empty()) {
       subprogram_stack_.back()->set_name(data);
@@ -749,6 +749,23 @@ const SubprogramInfo *InlineStackHandler::GetDeclaration(
   return declaration;
 }
 
+const SubprogramInfo *InlineStackHandler::GetNamed(
+    const SubprogramInfo *subprog) const {
+  SubprogramsByOffsetMap* subprograms_by_offset =
+      subprograms_by_offset_maps_[subprog->input_file_index()];
+  const SubprogramInfo *named = subprog;
+  while (!subprog->has_linkage_name()) {
+    uint64 offset = subprog->specification() ? subprog->specification()
+                                             : subprog->abstract_origin();
+    if (!offset)
+      return named;
+    subprog = subprograms_by_offset->find(offset)->second;
+    if (named->name().empty())
+      named = subprog;
+  }
+  return subprog;
+}
+
 const SubprogramInfo *InlineStackHandler::GetAbstractOrigin(
     const SubprogramInfo *subprog) const {
   const int input_file_index = subprog->input_file_index();
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..7eaf894 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -46,6 +46,7 @@ class SubprogramInfo {
       : offset_(offset),
         parent_(parent),
         name_(),
+        has_linkage_name_(false),
         address_ranges_(),
         inlined_(inlined),
         comp_directory_(NULL),
@@ -64,7 +65,12 @@ class SubprogramInfo {
   const SubprogramInfo *parent() const { return parent_; }
 
   void set_name(const char *name) { name_.assign(name); }
+  void set_linkage_name(const char *name) {
+    name_.assign(name);
+    has_linkage_name_ = true;
+  }
   const string& name() const { return name_; }
+  bool has_linkage_name() const { return has_linkage_name_; }
 
   // Address ranges are specified in the DWARF file as a reference to
   // a range list or a pair of DIEs specifying a single range.
@@ -130,6 +136,7 @@ class SubprogramInfo {
   // The name may come from a .dwo file's string table, which will be
   // destroyed before we're done, so we need to make a copy.
   string name_;
+  bool has_linkage_name_;
   AddressRangeList::RangeList address_ranges_;
   bool inlined_;
   const char *comp_directory_;  // working dir of compilation.
@@ -231,6 +238,10 @@ class InlineStackHandler: public Dwarf2Handler {
 
   const SubprogramInfo *GetDeclaration(const SubprogramInfo *subprog) const;
 
+  // Returns the subprogram, of those that describe subprog, which names it: the
+  // first one with a linkage name, or else the first one with a name.
+  const SubprogramInfo *GetNamed(const SubprogramInfo *subprog) const;
+
   const SubprogramInfo *GetAbstractOrigin(const SubprogramInfo *subprog) const;
 
   // Puts the start addresses of all inlined subprograms into the given set.
-- 
2.43.0


From 5a63096b12200d7300b7ccc6cdec618c5a122c3b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 32/49] fix: accept inlined calls from unknown files

---
 legacy_addr2line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index bf679c2..820acfa 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -246,7 +246,8 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     if (start_line == 0)
       start_line = subprog->callsite_line();
 
-    dir_name = subprog->callsite_directory();
+    // The file of a call may be unknown.
+    dir_name = subprog->callsite_directory() ? subprog->callsite_directory() : "";
     if (!dir_name.is_absolute()) {
       if (subprog->comp_directory()) {
         dir_name = subprog->comp_directory() / dir_name;
@@ -258,7 +259,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     stack->push_back(SourceInfo(
         inline_stack_handler_->GetNamed(subprog->parent())->name().c_str(),
         dir_name,
-        subprog->callsite_filename(),
+        subprog->callsite_filename() ? subprog->callsite_filename() : "",
         start_line,
         subprog->callsite_line(),
         subprog->callsite_discr()));
-- 
2.43.0


From fa3e8ff4b9f3e994547c346b371d6afa34658446 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 33/49] fix: reset the directory of the compilation at each
 unit

---
 util/symbolize/addr2line_inlinestack.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 224f58a..d23e1e2 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,8 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  // A unit without a directory does not have that of the unit before.
+  compilation_unit_comp_dir_.push_back(NULL);
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   if (input_file_index_ == -1) {
@@ -205,7 +207,7 @@ bool InlineStackHandler::StartDIE(uint64 offset,
                                                 : NULL;
       SubprogramInfo *child = new SubprogramInfo(input_file_index_,
                                                  offset, parent, inlined);
-      if (!compilation_unit_comp_dir_.empty())
+      if (compilation_unit_comp_dir_.back() != NULL)
         child->set_comp_directory(compilation_unit_comp_dir_.back()->c_str());
       SubprogramsByOffsetMap* subprograms_by_offset =
           subprograms_by_offset_maps_[input_file_index_];
-- 
2.43.0


From d6f8262559024372dd869af8ed26b21de12b093b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 34/49] fix: keep the first line of a sequence that follows
 another one

---
 util/symbolize/functioninfo.cc | 14 +++++++++++---
 util/symbolize/functioninfo.h  |  8 ++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index a627fa8..9e5f578 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -37,7 +37,7 @@ CULineInfoHandler::CULineInfoHandler(FileVector* files,
                                      DirectoryVector* dirs,
                                      AddressToLineMap* linemap)
     : linemap_(linemap), files_(files), dirs_(dirs),
-      sampled_functions_(NULL) {
+      sampled_functions_(NULL), in_sequence_(false), last_address_(0) {
   Init();
 }
 
@@ -47,7 +47,8 @@ CULineInfoHandler::CULineInfoHandler(
     AddressToLineMap* linemap,
     const std::map<uint64_t, uint64_t> *sampled_functions)
     : linemap_(linemap), files_(files), dirs_(dirs),
-      sampled_functions_(sampled_functions) {
+      sampled_functions_(sampled_functions), in_sequence_(false),
+      last_address_(0) {
   Init();
 }
 void CULineInfoHandler::Init() {
@@ -169,8 +170,15 @@ void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
     return;
   }
   if (end_sequence) {
-    linemap_->AddActual(address, 0);
+    if (in_sequence_ && last_address_ == address) {
+      linemap_->AddActual(address, 0);
+    } else {
+      linemap_->AddEnd(address);
+    }
+    in_sequence_ = false;
   } else {
+    in_sequence_ = true;
+    last_address_ = address;
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
         const std::pair<int, const char *>& file = (*files_)[file_num];
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index dba3248..4bf6248 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -147,6 +147,11 @@ class AddressToLineMap {
     line_map_[addr] = logical_num;
   }
 
+  // End a sequence of lines before addr, where another one may start.
+  void AddEnd(uint64 addr) {
+    line_map_.insert(std::make_pair(addr, 0));
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -292,6 +297,9 @@ class CULineInfoHandler: public LineInfoHandler {
   FileVector* files_;
   DirectoryVector* dirs_;
   const map<uint64_t, uint64_t> *sampled_functions_;
+  // The address of the last line of the sequence being read, if it has any.
+  bool in_sequence_;
+  uint64 last_address_;
   DISALLOW_EVIL_CONSTRUCTORS(CULineInfoHandler);
 };
 
-- 
2.43.0


From 177cfd37489c5591cbeaa3ae5b5476c998424480 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:58:02 +0000
Subject: [PATCH 35/49] fix: keep the base of the range lists apart from the
 ranges of a unit

---
 util/symbolize/addr2line_inlinestack.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index d23e1e2..2bb1a47 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -448,10 +448,10 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         str_offset_base_ = data;
         break;
       case DW_AT_ranges:
-        // An index into the range lists is not their base.
-        if (form == DW_FORM_rnglistx) break;
-        CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
+        // The ranges of the unit are not the base of the range lists.
+        CHECK(form == DW_FORM_rnglistx || form == DW_FORM_sec_offset ||
+              form == DW_FORM_data4 || form == DW_FORM_data8);
+        break;
       case DW_AT_GNU_ranges_base:
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
-- 
2.43.0


From dbce625a9be19ee6a5d9af850816b07d41ad04cd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 36/49] fix: tell indexed end addresses from lengths

---
 util/symbolize/addr2line_inlinestack.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 2bb1a47..3b9e7e3 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -350,7 +350,10 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         break;
       case DW_AT_high_pc:
         subprogram_stack_.back()->SetSingletonRangeHigh(
-            data, form != DW_FORM_addr);
+            data, form != DW_FORM_addr && form != DW_FORM_addrx &&
+            form != DW_FORM_addrx1 && form != DW_FORM_addrx2 &&
+            form != DW_FORM_addrx3 && form != DW_FORM_addrx4 &&
+            form != DW_FORM_GNU_addr_index);
         break;
       case DW_AT_ranges: {
         CHECK_EQ(0, subprogram_stack_.back()->address_ranges()->size());
-- 
2.43.0


From 5785f48fe1af773f67818fcb89e06364c05c43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:03 +0000
Subject: [PATCH 37/49] fix: read strings of any length from gcov files

---
 gcov.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcov.cc b/gcov.cc
index f16437b..5163276 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -96,7 +96,7 @@ int gcov_close(void) {
   return err;
 }
 
-static inline void gcov_allocate(unsigned byte_length) {
+static inline void gcov_allocate(uint64 byte_length) {
   uint64 new_byte_size = gcov_var.byte_alloc;
 
   if (!new_byte_size) {
@@ -108,6 +108,7 @@ static inline void gcov_allocate(unsigned byte_length) {
   gcov_var.byte_alloc = new_byte_size;
   gcov_var.buffer =
       static_cast<char *>(realloc(gcov_var.buffer, new_byte_size));
+  CHECK(gcov_var.buffer != nullptr);
 }
 
 static inline char *gcov_write_bytes(unsigned bytes) {
@@ -174,13 +175,13 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
   unsigned excess_bytes = gcov_var.byte_length - gcov_var.byte_offset;
 
   CHECK_GT(gcov_var.mode, 0);
-  CHECK(bytes < GCOV_BLOCK_BYTE_SIZE);
   if (excess_bytes < bytes) {
     memmove(gcov_var.buffer, gcov_var.buffer + gcov_var.byte_offset, excess_bytes);
     gcov_var.byte_offset = 0;
     gcov_var.byte_length = excess_bytes;
-    if (gcov_var.byte_length + bytes > gcov_var.byte_alloc) {
-      gcov_allocate(gcov_var.byte_length + bytes);
+    if (static_cast<uint64>(gcov_var.byte_length) + bytes >
+        gcov_var.byte_alloc) {
+      gcov_allocate(static_cast<uint64>(gcov_var.byte_length) + bytes);
     }
     excess_bytes = gcov_var.byte_alloc - gcov_var.byte_length;
     excess_bytes = fread(gcov_var.buffer + gcov_var.byte_length,
-- 
2.43.0


From 2025479fb23f8a939c71ef6ad017f469c66eddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 38/49] fix: profile_diff and dump_gcov: accept flags next to
 the file names

---
 dump_gcov.cc    | 8 +++++---
 profile_diff.cc | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dump_gcov.cc b/dump_gcov.cc
index 49a2ba6..75fffd9 100644
--- a/dump_gcov.cc
+++ b/dump_gcov.cc
@@ -14,6 +14,8 @@
 
 // Read the gcda file and dump the information.
 
+#include <vector>
+
 #include "base/commandlineflags.h"
 #include "profile_reader.h"
 #include "symbol_map.h"
@@ -22,16 +24,16 @@
 
 int main(int argc, char **argv) {
   absl::SetProgramUsageMessage(argv[0]);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> args = absl::ParseCommandLine(argc, argv);
 
-  if (argc != 2) {
+  if (args.size() != 2) {
     LOG(FATAL) << "Please use: dump_gcov file_path\n";
     return -1;
   }
   devtools_crosstool_autofdo::SymbolMap symbol_map;
   devtools_crosstool_autofdo::AutoFDOProfileReader reader(
       &symbol_map, false);
-  reader.ReadFromFile(argv[1]);
+  reader.ReadFromFile(args[1]);
   symbol_map.Dump();
   return 0;
 }
diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..5e55bae 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -24,18 +24,18 @@ int main(int argc, char **argv) {
       "of [0,1]). If overlap is > 0.9, the two profiles are "
       "considered similar and should provide comparable speedup.";
   absl::SetProgramUsageMessage(use);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> args = absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map_1, symbol_map_2;
 
-  if (argc != 3) {
+  if (args.size() != 3) {
     LOG(FATAL) << "Please specify two files to compare";
   }
 
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  reader_1.ReadFromFile(args[1]);
+  reader_2.ReadFromFile(args[2]);
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
-- 
2.43.0


From 567920ae0e55d6b28346973d77a8da7fa6f1c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 39/49] fix: don't abort on a fall-through that ends in an
 empty last block

FrequenciesBranchAggregator infers fall-throughs whose end is the address of
the successor block. When that block is empty and no other block of the
function starts at its address, looking the address up as a branch source
failed a debug assertion; the block itself is the right answer.
---
 llvm_propeller_binary_address_mapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index d71128a..edc50aa 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -240,7 +240,8 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
   // We might have multiple zero-sized BBs at the same address. If we are
   // branching to this address, we find and return the first zero-sized BB (from
   // the same function). If we are branching from this address, we return the
-  // single non-zero sized BB.
+  // single non-zero sized BB. There is none when a function ends (or padding
+  // begins) right after a zero-sized BB; inferred fall-throughs may end there.
   switch (direction) {
     case BranchDirection::kTo: {
       auto prev_it = it;
@@ -252,7 +253,6 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
       return it - bb_handles_.begin();
     }
     case BranchDirection::kFrom: {
-      DCHECK_NE(GetBBEntry(*it).Size, 0);
       return it - bb_handles_.begin();
     }
     default:
-- 
2.43.0


From 701a40193dd34479ee674f1b3d8b3ece89a71498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 40/49] fix: an unreadable file of prefetch hints gave an empty
 profile and success

---
 profile_creator.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..44bbc96 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,11 +68,11 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *hints) {
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
     LOG(ERROR) << "Cannot open " << file_name << "to read";
+    return false;
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
@@ -87,11 +87,11 @@ PrefetchHints ReadPrefetchHints(const std::string &file_name) {
       // "__prefetch" indirect call, and let the compiler decide if it
       // supports it.
       std::string type(prefetch_type);
-      hints.push_back({address, delta, type});
+      hints->push_back({address, delta, type});
     }
     fclose(fp);
   }
-  return hints;
+  return true;
 }
 }  // namespace
 
@@ -229,7 +229,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, &hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0


From 4cac997fc3c6bc8b377e8f9633f35fc525f06558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 41/49] fix: types of prefetch hints of more than four
 characters overflowed a buffer

---
 profile_creator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 44bbc96..d60eab7 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -76,9 +76,9 @@ bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *hints) {
   } else {
     uint64_t address = 0;
     int64_t delta = 0;
-    char prefetch_type[5];
+    char prefetch_type[64];
     while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
+      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%63s\n", &address, &delta,
                       prefetch_type)) {
         LOG(ERROR) << "Error reading from " << file_name;
         break;
-- 
2.43.0


From 92ed95dde8ced709a298c43348f304c5e9ac1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:46 +0000
Subject: [PATCH 42/49] fix: --profiler was ignored for profiles of the
 Propeller format not given in a list

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..95dfc32 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From c75c9de08e0936c3d50da83bd6079f96fc304d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:44 +0000
Subject: [PATCH 43/49] fix: --ignore_build_id had no effect without
 --profiled_binary_name

---
 create_llvm_prof.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 95dfc32..b168e8f 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -163,12 +163,16 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     option_builder.SetCfgDumpDirName(
         absl::GetFlag(FLAGS_propeller_cfg_dump_dir));
   }
+  // Even an empty name takes precedence over --ignore_build_id.
+  if (!absl::GetFlag(FLAGS_profiled_binary_name).empty()) {
+    option_builder.SetProfiledBinaryName(
+        absl::GetFlag(FLAGS_profiled_binary_name));
+  }
 
   return devtools_crosstool_autofdo::PropellerOptions(
       option_builder.SetBinaryName(absl::GetFlag(FLAGS_binary))
           .SetClusterOutName(absl::GetFlag(FLAGS_out))
           .SetSymbolOrderOutName(absl::GetFlag(FLAGS_propeller_symorder))
-          .SetProfiledBinaryName(absl::GetFlag(FLAGS_profiled_binary_name))
           .SetIgnoreBuildId(absl::GetFlag(FLAGS_ignore_build_id))
           .SetCodeLayoutParamsChainSplit(
               absl::GetFlag(FLAGS_propeller_chain_split))
-- 
2.43.0


From c14699798ec23bad8554843901a8edadc499192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:02 +0000
Subject: [PATCH 44/49] fix: do not read before the start of symbol names
 shorter than four characters

The test for PLT entries compared the last four characters of every name,
starting before a shorter name: for the first name of a string table that
starts a page this is memory that is not mapped.
---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 2b74eb8..2c57e0c 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -516,7 +516,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From 6d3d27bd3a76775fa020511f72faf8a44e100817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:08 +0000
Subject: [PATCH 45/49] fix: profiles with MD5 names could not be merged, and
 their hashes were hashed again when written

---
 llvm_profile_reader.cc |  5 +++--
 llvm_profile_writer.cc | 25 +++++++++++++++++--------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/llvm_profile_reader.cc b/llvm_profile_reader.cc
index e02b69e..e064111 100644
--- a/llvm_profile_reader.cc
+++ b/llvm_profile_reader.cc
@@ -75,7 +75,8 @@ bool LLVMProfileReader::ReadFromFile(const std::string &filename) {
 
 void LLVMProfileReader::ReadFromFunctionSamples(
     const SourceStack &stack, const llvm::sampleprof::FunctionSamples &fs) {
-  const char *func_name = GetName(fs.getFuncName());
+  // A profile with MD5 names has the hash for a name, which str() spells out.
+  const char *func_name = GetName(fs.getFunction().str());
 
   if (stack.empty() && !shouldMergeProfileForSym(func_name)) return;
 
@@ -99,7 +100,7 @@ void LLVMProfileReader::ReadFromFunctionSamples(
                                 loc_sample.second.getSamples(), 1);
     for (const auto &target_count : loc_sample.second.getCallTargets()) {
       symbol_map_->AddIndirectCallTarget(
-          top_func_name, new_stack, GetName(target_count.first.stringRef()),
+          top_func_name, new_stack, GetName(target_count.first.str()),
           target_count.second);
     }
   }
diff --git a/llvm_profile_writer.cc b/llvm_profile_writer.cc
index d3b9357..9a1a97f 100644
--- a/llvm_profile_writer.cc
+++ b/llvm_profile_writer.cc
@@ -75,10 +75,19 @@ LLVMProfileBuilder::ConvertProfiles(const SymbolMap &symbol_map) {
   return GetProfiles();
 }
 
+// Returns the identity of the function with `name`. A number stands for the
+// hash that a profile with MD5 names has for a name, and is not hashed again.
+static llvm::sampleprof::FunctionId GetFunctionId(llvm::StringRef name) {
+  uint64_t hash = 0;
+  if (!name.getAsInteger(10, hash) && hash != 0)
+    return llvm::sampleprof::FunctionId(hash);
+  return llvm::sampleprof::FunctionId(name);
+}
+
 void LLVMProfileBuilder::VisitTopSymbol(const std::string &name,
                                         const Symbol *node) {
-  llvm::StringRef name_ref = GetNameRef(name);
-  llvm::sampleprof::FunctionSamples &profile = profiles_[name_ref];
+  llvm::sampleprof::FunctionId function = GetFunctionId(GetNameRef(name));
+  llvm::sampleprof::FunctionSamples &profile = profiles_[function];
   if (std::error_code EC = llvm::mergeSampleProfErrors(
           result_, profile.addHeadSamples(node->head_count)))
     LOG(FATAL) << "Error updating head samples for '" << name
@@ -89,7 +98,7 @@ void LLVMProfileBuilder::VisitTopSymbol(const std::string &name,
     LOG(FATAL) << "Error updating total samples for '" << name
                << "': " << EC.message();
 
-  profile.setFunction(llvm::sampleprof::FunctionId(name_ref));
+  profile.setFunction(function);
   inline_stack_.clear();
   inline_stack_.push_back(&profile);
 }
@@ -103,11 +112,11 @@ void LLVMProfileBuilder::VisitCallsite(const Callsite &callsite) {
     inline_stack_.pop_back();
   }
   auto &caller_profile = *(inline_stack_.back());
-  llvm::sampleprof::FunctionId Callee(
-      GetNameRef(Symbol::Name(callsite.callee_name)));
+  llvm::sampleprof::FunctionId Callee =
+      GetFunctionId(GetNameRef(Symbol::Name(callsite.callee_name)));
   auto &callee_profile =
       caller_profile.functionSamplesAt(llvm::sampleprof::LineLocation(
-          line, discriminator))[llvm::sampleprof::FunctionId(Callee)];
+          line, discriminator))[Callee];
   callee_profile.setFunction(Callee);
   inline_stack_.push_back(&callee_profile);
 }
@@ -145,8 +154,8 @@ void LLVMProfileBuilder::Visit(const Symbol *node) {
               result_,
               profile.addCalledTargetSamples(
                   line, discriminator,
-                  llvm::sampleprof::FunctionId(llvm::StringRef(
-                      target_count.first.data(), target_count.first.size())),
+                  GetFunctionId(llvm::StringRef(target_count.first.data(),
+                                                target_count.first.size())),
                   target_count.second)))
         LOG(FATAL) << "Error updating called target samples for '"
                    << node->info.func_name << "': " << EC.message();
-- 
2.43.0


From 08888a014628ecd7c86b4350e15a15f12f6677fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:01 +0000
Subject: [PATCH 46/49] fix: number blocks of dumped graphs by their place in
 the layout

The colour of a layout edge was decided from the rank of the cluster plus the
position of the block within it, so edges between blocks of different clusters
could be drawn as laid out next to each other, and the reverse.
---
 llvm_propeller_profile_writer.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..e779c63 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -10,6 +10,7 @@
 #if defined(HAVE_LLVM)
 
 #include <fstream>
+#include <map>
 #include <memory>
 #include <optional>
 #include <ostream>
@@ -75,11 +76,21 @@ void DumpCfgs(const PropellerProfile &profile,
       CHECK(cfg_dump_os.good())
           << "Failed to open " << cfg_dump_file << " for writing.";
 
-      absl::flat_hash_map<CFGNode::IntraCfgId, int> layout_index_map;
+      // `layout_index` counts clusters, not blocks: number the blocks through
+      // the function's clusters as they are laid out, leaving a gap wherever
+      // other functions' clusters are placed in between.
+      std::map<unsigned, const FunctionClusterInfo::BBCluster *> laid_out;
       for (auto &cluster : func_cluster_info.clusters)
-        for (int bbi = 0; bbi < cluster.full_bb_ids.size(); ++bbi)
-          layout_index_map.insert({cluster.full_bb_ids[bbi].intra_cfg_id,
-                                   cluster.layout_index + bbi});
+        laid_out.emplace(cluster.layout_index, &cluster);
+      absl::flat_hash_map<CFGNode::IntraCfgId, int> layout_index_map;
+      int position = 0;
+      unsigned next_layout_index = 0;
+      for (const auto &[layout_index, cluster] : laid_out) {
+        if (layout_index != next_layout_index) ++position;
+        next_layout_index = layout_index + 1;
+        for (const auto &full_bb_id : cluster->full_bb_ids)
+          layout_index_map.insert({full_bb_id.intra_cfg_id, position++});
+      }
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
     }
-- 
2.43.0


From 39889546a005de8b2e13188dd7a02dbfaa48e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:11 +0000
Subject: [PATCH 47/49] fix: apply DW_AT_GNU_ranges_base to the range lists of
 split units

The range list offsets of a split DWARF 4 unit are relative to the base its
skeleton gives; they were read as offsets from the start of the section, and
the bases of one unit stayed in force for the next.
---
 util/symbolize/addr2line_inlinestack.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 3b9e7e3..dfd26f5 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,8 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  ranges_base_ = 0;
+  addr_base_ = 0;
   // A unit without a directory does not have that of the unit before.
   compilation_unit_comp_dir_.push_back(NULL);
   have_two_level_line_tables_ = false;
@@ -360,6 +362,9 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
+          if (input_file_index_ > 0 && dwarf_version_ < 5) {
+            data += ranges_base_;
+          }
           address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_, addr_base_);
         }
         else {
-- 
2.43.0


From 7403f71982c223702806465d0a71b5b891db34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:11 +0000
Subject: [PATCH 48/49] fix: read the range lists of split DWARF 5 units from
 their own file

Such a unit has no DW_AT_rnglists_base, so an indexed range list was looked up
without a base and ended the program; and the list object of the .dwo file was
left in place, over freed data, for the units after it.
---
 util/symbolize/addr2line_inlinestack.cc |  5 ++++
 util/symbolize/addr2line_inlinestack.h  |  2 ++
 util/symbolize/dwarf2reader.cc          | 37 ++++++++++++-------------
 util/symbolize/dwarf3ranges.h           |  6 ++++
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index dfd26f5..d964d66 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -129,6 +129,11 @@ bool InlineStackHandler::StartSplitCompilationUnit(uint64 offset,
   compilation_unit_offset_ = offset;
   input_file_index_ = subprograms_by_offset_maps_.size();
   subprograms_by_offset_maps_.push_back(new SubprogramsByOffsetMap);
+  // The base the skeleton unit has is that of its own range lists, which are
+  // the split unit's too before DWARF 5.
+  if (dwarf_version_ >= 5 && address_ranges_ != NULL) {
+    ranges_base_ = address_ranges_->GetFirstRngListsBase();
+  }
   return true;
 }
 
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 7eaf894..d743734 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -230,6 +230,8 @@ class InlineStackHandler: public Dwarf2Handler {
     line_handler_ = handler;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   void set_address_range_list(AddressRangeList *address_ranges) {
     address_ranges_ = address_ranges;
   }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index a284785..bccf172 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1018,7 +1019,7 @@ void CompilationUnit::ProcessSplitDwarf() {
   if (!found_in_dwp) {
     // If no .dwp file, try to open the .dwo file.
     if (stat(dwo_name_, &statbuf) == 0) {
-      ElfReader elf(dwo_name_);
+      ElfReader elf(dwo_path);
       int width = GetElfWidth(elf);
       if (width != 0) {
         ByteReader reader(ENDIANNESS_NATIVE);
@@ -1026,34 +1027,32 @@ void CompilationUnit::ProcessSplitDwarf() {
         SectionMap sections;
         ReadDebugSectionsFromDwo(&elf, &sections);
 
+        // The range lists of this file are read in place of those of the
+        // executable, for as long as the unit is processed.
         auto iter = sections.find(".debug_rnglists");
-        size_t debug_ranges_size = 0;
-        const char *debug_ranges_data = NULL;
-        size_t debug_rnglist_size = 0;
-        const char *debug_rnglist_data = NULL;
+        std::unique_ptr<AddressRangeList> dwo_ranges;
+        InlineStackHandler *inlinestackhandler = NULL;
+        AddressRangeList *executable_ranges = NULL;
         if (iter != sections.end()) {
-          debug_rnglist_data = iter->second.first;
-          debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
-                                      debug_ranges_size,
-                                      debug_rnglist_data,
-                                      debug_rnglist_size,
-                                      &reader,
-                                      addr_buffer_, 
-                                      addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
-          if(!inlinestackhandler)  {
+          dwo_ranges = std::make_unique<AddressRangeList>(
+              /*ranges_buffer=*/nullptr, /*ranges_buffer_length=*/0,
+              iter->second.first, iter->second.second, &reader, addr_buffer_,
+              addr_buffer_length_);
+          inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
+          if (!inlinestackhandler) {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          executable_ranges = inlinestackhandler->address_range_list();
+          inlinestackhandler->set_address_range_list(dwo_ranges.get());
         }
 
-        
         CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
         dwo_comp_unit.Start();
+        if (inlinestackhandler) {
+          inlinestackhandler->set_address_range_list(executable_ranges);
+        }
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
diff --git a/util/symbolize/dwarf3ranges.h b/util/symbolize/dwarf3ranges.h
index fc0299c..1082c6f 100644
--- a/util/symbolize/dwarf3ranges.h
+++ b/util/symbolize/dwarf3ranges.h
@@ -118,6 +118,12 @@ class AddressRangeList {
 
   uint64 GetRngListsElementOffsetByIndex(uint64 addr_base, uint64 rng_index);
 
+  // Returns the base of the first unit in .debug_rnglists: that of a split
+  // unit, which has no DW_AT_rnglists_base.
+  uint64 GetFirstRngListsBase() const {
+    return rngdatamap_.empty() ? 0 : rngdatamap_.begin()->first;
+  }
+
  private:
 
   uint64 ReadOffset(const char** offsetarrayptr);
-- 
2.43.0


From 64a52175ee1a2de859ed61a98ef3825c73bb2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:11 +0000
Subject: [PATCH 49/49] fix: look for .dwo files in the compilation directory

DW_AT_dwo_name may be relative to DW_AT_comp_dir.
---
 util/symbolize/dwarf2reader.cc | 14 ++++++++++----
 util/symbolize/dwarf2reader.h  |  6 ++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index bccf172..f13b020 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -43,7 +43,7 @@ CompilationUnit::CompilationUnit(const string& path,
       line_str_buffer_(NULL), line_str_buffer_length_(0),
       str_offsets_buffer_(NULL), str_offsets_buffer_length_(0),
       addr_buffer_(NULL), addr_buffer_length_(0),
-      is_split_dwarf_(false), dwo_name_(),
+      is_split_dwarf_(false), dwo_name_(), comp_dir_(),
       skeleton_dwo_id_(0), have_checked_for_dwp_(false), dwp_path_(),
       dwp_byte_reader_(NULL), dwp_reader_(NULL), malformed_(false) {}
 
@@ -56,7 +56,7 @@ CompilationUnit::CompilationUnit(const string& path, const string& dwp_path,
       line_str_buffer_(NULL), line_str_buffer_length_(0),
       str_offsets_buffer_(NULL), str_offsets_buffer_length_(0),
       addr_buffer_(NULL), addr_buffer_length_(0),
-      is_split_dwarf_(false), dwo_name_(),
+      is_split_dwarf_(false), dwo_name_(), comp_dir_(),
       skeleton_dwo_id_(0), have_checked_for_dwp_(false), dwp_path_(dwp_path),
       dwp_byte_reader_(NULL), dwp_reader_(NULL), malformed_(false) {}
 
@@ -488,6 +488,7 @@ uint64 CompilationUnit::Start(uint64 offset) {
   malformed_ = false;
 
   dwo_name_ = NULL;
+  comp_dir_ = NULL;
   skeleton_dwo_id_ = 0;
 
   return Start();
@@ -1018,7 +1019,12 @@ void CompilationUnit::ProcessSplitDwarf() {
   }
   if (!found_in_dwp) {
     // If no .dwp file, try to open the .dwo file.
-    if (stat(dwo_name_, &statbuf) == 0) {
+    std::string dwo_path = dwo_name_;
+    if (dwo_path[0] != '/' && comp_dir_ != NULL) {
+      std::string in_comp_dir = std::string(comp_dir_) + "/" + dwo_path;
+      if (stat(in_comp_dir.c_str(), &statbuf) == 0) dwo_path = in_comp_dir;
+    }
+    if (stat(dwo_path.c_str(), &statbuf) == 0) {
       ElfReader elf(dwo_path);
       int width = GetElfWidth(elf);
       if (width != 0) {
@@ -1046,7 +1052,7 @@ void CompilationUnit::ProcessSplitDwarf() {
           inlinestackhandler->set_address_range_list(dwo_ranges.get());
         }
 
-        CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
+        CompilationUnit dwo_comp_unit(dwo_path, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
         dwo_comp_unit.Start();
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 074b185..a4bc8f1 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -629,6 +629,8 @@ class CompilationUnit {
                               const char* data) {
     if (attr == DW_AT_GNU_dwo_name || attr == DW_AT_dwo_name)
       dwo_name_ = data;
+    else if (attr == DW_AT_comp_dir)
+      comp_dir_ = data;
     handler_->ProcessAttributeString(offset, attr, form, data);
   }
 
@@ -711,6 +713,10 @@ class CompilationUnit {
   // The value of the DW_AT_GNU_dwo_name attribute, if any.
   const char* dwo_name_;
 
+  // The value of the DW_AT_comp_dir attribute, if any, which dwo_name_ is
+  // relative to.
+  const char* comp_dir_;
+
   // If this is a split DWARF CU, the value of the DW_AT_GNU_dwo_id attribute
   // from the skeleton CU.
   uint64 skeleton_dwo_id_;
-- 
2.43.0


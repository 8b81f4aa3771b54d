// Drives the Propeller pipeline: address mapping, graph building, layout,
// the emitted files and the serialised graphs.
#include "tool.h"
#include <dirent.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#include "addr2cu.h"
#include "branch_aggregation.h"
#include "branch_frequencies_aggregator.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_node_chain_builder.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "status_consumer_registry.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "perfgen.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

// -1 stands for the address nothing has.
static uint64_t Up1(int64_t n) { return n == -1 ? kInvalidBinaryAddress : UpA(n); }
static int64_t Ad1(uint64_t a) { return a == kInvalidBinaryAddress ? -1 : Adr(a); }

static const bool g_rev = getenv("VH_REV") != nullptr;
static int64_t g_scale = 1;
static double g_wunit = 1;

static int64_t Sc(double d) {
  double x = d * g_scale / g_wunit;
  double r = std::round(x);
  if (std::fabs(r) > 2e9) return kBad;
  return std::fabs(x - r) <= 1e-6 * std::max(1.0, std::fabs(x)) ? static_cast<int64_t>(r) : kBad;
}
static const char* Kind(const CFGEdge& e) {
  return e.IsCall() ? "C" : e.IsReturn() ? "R" : e.IsBranchOrFallthrough() ? "B" : "?";
}
static CFGEdge::Kind KindOf(const std::string& s) {
  return s == "C" ? CFGEdge::Kind::kCall : s == "R" ? CFGEdge::Kind::kRet : CFGEdge::Kind::kBranchOrFallthough;
}
static int64_t Wt(int64_t w) { return w < 0 ? kBad : Cnt(static_cast<uint64_t>(w)); }
static Array Node(const CFGNode* n) { return Array{n->function_index(), n->bb_index()}; }
static Array Edge(const CFGEdge& e) {
  return Array{e.src()->function_index(), e.src()->bb_index(), e.sink()->function_index(), e.sink()->bb_index(),
               Wt(e.weight()), Kind(e), e.inter_section()};
}
template <class V>
static Array Edges(const V& v) {
  Array a;
  for (auto& e : v) a.push_back(Edge(*e));
  return a;
}
static Array Names(const ControlFlowGraph& c) {
  Array a;
  for (auto& n : c.names()) a.push_back(n.str());
  return a;
}
static Array Graph(const std::vector<const ControlFlowGraph*>& cfgs) {
  Array out;
  for (const ControlFlowGraph* c : cfgs) {
    Array nodes;
    for (auto& n : c->nodes())
      nodes.push_back(Object{{"bb", n->bb_index()}, {"id", n->bb_id()}, {"clone", n->clone_number()}, {"size", n->size()},
                             {"addr", Ad1(n->addr())}, {"ret", n->has_return()}, {"tail", n->has_tail_call()},
                             {"eh", n->is_landing_pad()}, {"ft", n->can_fallthrough()}, {"ib", n->has_indirect_branch()},
                             {"freq", Wt(n->CalculateFrequency())}, {"entry", n->is_entry()}, {"f", n->function_index()},
                             {"io", Edges(n->intra_outs())}, {"ii", Edges(n->intra_ins())},
                             {"xo", Edges(n->inter_outs())}, {"xi", Edges(n->inter_ins())}});
    out.push_back(Object{{"f", c->function_index()}, {"names", Names(*c)}, {"sec", c->section_name().str()},
                         {"mod", c->module_name() ? c->module_name()->str() : "-"},
                         {"lp", c->n_landing_pads()}, {"hotlp", static_cast<bool>(c->has_hot_landing_pads())}, {"hot", c->is_hot()},
                         {"nodes", std::move(nodes)}, {"intra", Edges(c->intra_edges())}, {"inter", Edges(c->inter_edges())}});
  }
  return out;
}
static Object CfgStats(const PropellerStats& s) {
  auto M = [](const auto& m, bool w) {
    Object o;
    for (CFGEdge::Kind k : {CFGEdge::Kind::kBranchOrFallthough, CFGEdge::Kind::kCall, CFGEdge::Kind::kRet}) {
      auto it = m.find(k);
      int64_t v = it == m.end() ? 0 : it->second;
      o[k == CFGEdge::Kind::kCall ? "C" : k == CFGEdge::Kind::kRet ? "R" : "B"] = w ? Wt(v) : v;
    }
    return o;
  };
  auto& c = s.cfg_stats;
  return Object{{"cfgs", (int64_t)c.cfgs_created}, {"nodes", (int64_t)c.nodes_created}, {"lp", c.cfgs_with_hot_landing_pads},
                {"hot", c.hot_basic_blocks}, {"empty", c.hot_empty_basic_blocks}, {"edges", M(c.edges_created_by_kind, false)},
                {"weight", M(c.total_edge_weight_by_kind, true)}};
}
static PropellerCodeLayoutParameters Params(const Object& o) {
  PropellerCodeLayoutParameters p;
  p.set_fallthrough_weight(I(o, "ftw", 10));
  p.set_forward_jump_weight(I(o, "fww", 1));
  p.set_backward_jump_weight(I(o, "bww", 1));
  p.set_forward_jump_distance(I(o, "fwd", 1024));
  p.set_backward_jump_distance(I(o, "bwd", 680));
  p.set_chain_split(Bo(o, "split", true));
  p.set_chain_split_threshold(I(o, "thr", 0));
  p.set_call_chain_clustering(Bo(o, "ccc", true));
  p.set_cluster_merge_size_threshold(I(o, "cms", 2097152));
  p.set_split_functions(Bo(o, "sf", true));
  p.set_reorder_hot_blocks(Bo(o, "rhb", true));
  p.set_inter_function_reordering(Bo(o, "inter", false));
  return p;
}

static Array Score(const CFGScore& s) { return Array{Sc(s.intra_score), Sc(s.inter_out_score)}; }
using LayoutMap = absl::btree_map<llvm::StringRef, std::vector<FunctionClusterInfo>>;
// The scores as text.
static Array ScoreText(const FunctionClusterInfo& f) {
  std::ostringstream a, b;
  char line[400];
  a << f.original_score.intra_score;
  b << f.optimized_score.intra_score;
  snprintf(line, sizeof line, "#ext-tsp score: [intra: %f -> %f] [inter: %f -> %f]", f.original_score.intra_score,
           f.optimized_score.intra_score, f.original_score.inter_out_score, f.optimized_score.inter_out_score);
  return Array{std::string(line), a.str(), b.str()};
}
static Array Layout(const LayoutMap& m) {
  Array out;
  for (auto& [sec, fs] : m) {
    Array fa;
    for (auto& f : fs) {
      Array cl;
      for (auto& c : f.clusters) {
        Array b;
        for (auto& id : c.full_bb_ids)
          b.push_back(Array{id.intra_cfg_id.bb_index, id.bb_id, id.intra_cfg_id.clone_number});
        cl.push_back(Object{{"idx", (int64_t)c.layout_index}, {"b", std::move(b)}});
      }
      fa.push_back(Object{{"f", f.function_index}, {"cold", (int64_t)f.cold_cluster_layout_index}, {"cl", std::move(cl)},
                          {"o", Score(f.original_score)}, {"n", Score(f.optimized_score)}, {"sx", ScoreText(f)}});
    }
    out.push_back(Object{{"sec", sec.str()}, {"fs", std::move(fa)}});
  }
  return out;
}
static Object LayoutStats(const PropellerStats::CodeLayoutStats& s) {
  int64_t merges = 0;
  for (auto& [k, v] : s.n_assemblies_by_merge_order) merges += v;
  return Object{{"o", Array{Sc(s.original_intra_score), Sc(s.original_inter_score)}},
                {"n", Array{Sc(s.optimized_intra_score), Sc(s.optimized_inter_score)}},
                {"single", s.n_single_node_chains}, {"multi", s.n_multi_node_chains}, {"merges", merges}};
}
static Object ChainOf(const NodeChain& c) {
  Array bs;
  for (auto& b : c.node_bundles()) {
    Array ns;
    for (auto* n : b->nodes()) ns.push_back(Node(n));
    bs.push_back(std::move(ns));
  }
  return Object{{"id", Array{c.id().function_index, c.id().intra_cfg_id.bb_index}}, {"size", c.size()}, {"freq", Wt(c.freq())},
                {"score", Sc(c.score())}, {"b", std::move(bs)}};
}
static Array ChainsOf(const NodeChainBuilder& b) {
  Array a;
  for (auto& [id, c] : b.chains()) a.push_back(ChainOf(*c));
  return a;
}

static std::vector<std::string> Lines(const std::string& f) {
  std::vector<std::string> v;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}

// The lines of the two files, counts in units.
// What the dumped graphs say.
static void RemoveDump(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* x = readdir(d))
      if (x->d_name[0] != '.') unlink((dir + "/" + x->d_name).c_str());
    closedir(d);
    rmdir(dir.c_str());
  }
}
static Object Dump(const std::string& dir) {
  Array idx, files, head;
  int count = 0;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* x = readdir(d)) count += x->d_name[0] != '.';
    closedir(d);
  }
  bool first = true;
  for (auto& s : Lines(dir + "/cfg-index.txt")) {
    Array t;
    std::istringstream in(s);
    for (std::string x; in >> x;) t.push_back(x);
    if (first) {
      first = false;
      head = std::move(t);
      continue;
    }
    std::string at = t.size() < 2 ? "" : t[1].getAsString()->str();
    if (t.size() > 1) t[1] = std::to_string(Ad1(strtoull(at.c_str(), nullptr, 16)));
    idx.push_back(std::move(t));
    Array nodes, edges, rest;
    for (auto& l : Lines(dir + "/" + at + ".dot")) {
      char a[40], b[40], c[40], k;
      int z = -1;
      long long n, m, i;
      if (sscanf(l.c_str(), "%39[0-9.] -> %39[0-9.][ label=\"%c#%lld\", color =\"%39[a-z]\"];%n", a, b, &k, &n, c, &z) == 5 &&
          z == (int)l.size())
        edges.push_back(Array{std::string(a), std::string(b), std::string(1, k), std::to_string(Wt(n)), std::string(c)});
      // (a block's first number is not judged: nothing sets it)
      else if (sscanf(l.c_str(), "%39[0-9.] [xlabel=\"%lld#%lld#%lld\", color = \"%39[a-z]\" ];%n", a, &i, &n, &m, c, &z) == 5 &&
               z == (int)l.size())
        nodes.push_back(Array{std::string(a), std::to_string(n), std::to_string(m), std::string(c)});
      else
        rest.push_back(l);
    }
    files.push_back(Object{{"n", std::move(nodes)}, {"e", std::move(edges)}, {"rest", std::move(rest)}});
  }
  return Object{{"head", std::move(head)}, {"idx", std::move(idx)}, {"files", std::move(files)}, {"count", count}};
}
static std::pair<Array, Array> Files(const std::string& cc, const std::string& ld) {
  Array c, l;
  for (auto& s : Lines(cc)) {
    if (s.rfind("#ext-tsp score", 0) == 0) continue;
    if (s.rfind("#cfg-prof ", 0) == 0) {  // successors in any order; counts in units
      std::istringstream in(s.substr(10));
      std::vector<std::string> t;
      std::string x;
      auto conv = [](const std::string& y) {
        size_t p = y.find(':');
        if (p == std::string::npos) return y;
        return y.substr(0, p) + ":" + std::to_string(Wt(strtoll(y.c_str() + p + 1, nullptr, 10)));
      };
      std::string first;
      in >> first;
      while (in >> x) t.push_back(conv(x));
      Array a;
      for (auto& y : t) a.push_back(y);
      c.push_back(Object{{"n", conv(first)}, {"s", std::move(a)}});
      continue;
    }
    if (s.rfind("#entry-freq ", 0) == 0) {
      c.push_back(Object{{"n", "#entry-freq " + std::to_string(Wt(strtoll(s.c_str() + 12, nullptr, 10)))}, {"s", Array{}}});
      continue;
    }
    c.push_back(Object{{"n", s}, {"s", Array{}}});
  }
  for (auto& s : Lines(ld)) l.push_back(s);
  return {std::move(c), std::move(l)};
}

struct World {
  std::unique_ptr<BinaryContent> bin;
  std::unique_ptr<BinaryAddressMapper> mapper;
  std::vector<std::string> pool;  // keeps names alive
  PropellerProfile prof;
  PropellerStats stats;
  std::optional<BranchAggregation> agg;  // the last aggregation
};

// The functions of each section, by section name and function.
static std::vector<std::pair<std::string, std::vector<const ControlFlowGraph*>>> Sections(World& w) {
  std::vector<std::pair<std::string, std::vector<const ControlFlowGraph*>>> r;
  for (auto& [s, c] : w.prof.program_cfg->GetCfgsBySectionName()) r.push_back({s.str(), c});
  for (auto& [s, c] : r)
    std::sort(c.begin(), c.end(), [](auto* a, auto* b) { return a->function_index() < b->function_index(); });
  std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
  return r;
}

static NodeChainBuilder Builder(const PropellerCodeLayoutParameters& p, const PropellerCodeLayoutScorer& scorer,
                                const std::vector<const ControlFlowGraph*>& g,
                                const absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>>& init,
                                PropellerStats::CodeLayoutStats& st) {
  return p.inter_function_reordering()
             ? NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyBalancedTreeQueue>(scorer, g, init, st)
             : NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyIterativeQueue>(scorer, g, init, st);
}

static void RunClusters(const Object& o, World& w) {
  PropellerCodeLayoutParameters p = Params(*o.getObject("params"));
  PropellerCodeLayoutScorer scorer(p);
  PropellerStats::CodeLayoutStats st;
  for (auto& [sec, cfgs] : Sections(w)) {
    std::vector<std::unique_ptr<const NodeChain>> chains;
    absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> init;
    auto run = [&](const std::vector<const ControlFlowGraph*>& g) {
      for (auto& c : Builder(p, scorer, g, init, st).BuildChains()) chains.push_back(std::move(c));
    };
    if (p.inter_function_reordering())
      run(cfgs);
    else
      for (auto* x : cfgs) run({x});
    std::sort(chains.begin(), chains.end(), [](auto& a, auto& b) { return a->id() < b->id(); });
    Array in, out;
    auto node = [](const CFGNode& n) { return Array{n.function_index(), n.bb_index()}; };
    for (auto& c : chains) {
      Array b;
      c->VisitEachNodeRef([&](const CFGNode& n) { b.push_back(node(n)); });
      in.push_back(Object{{"id", Array{c->id().function_index, c->id().intra_cfg_id.bb_index}},
                          {"b", std::move(b)}, {"size", c->size()}, {"freq", Wt(c->freq())}});
    }
    for (auto& c : ChainClusterBuilder(p, std::move(chains)).BuildClusters()) {
      Array b;
      c->VisitEachNodeRef([&](const CFGNode& n) { b.push_back(node(n)); });
      out.push_back(Object{{"id", Array{c->id().function_index, c->id().intra_cfg_id.bb_index}},
                           {"b", std::move(b)}, {"size", c->size()}, {"freq", Wt(c->freq())}});
    }
    Emit("Clusters", {{"sec", sec}, {"params", Value(Object(*o.getObject("params")))}, {"small", Up(1) < 1000},
                      {"unit", Up(1) < 1000 ? (int64_t)Up(1) : 1000}, {"chains", std::move(in)}, {"out", std::move(out)}});
  }
}

static void RunChain(const Object& o, World& w) {
  PropellerCodeLayoutParameters p = Params(*o.getObject("params"));
  PropellerCodeLayoutScorer scorer(p);
  PropellerStats::CodeLayoutStats st;
  std::vector<std::vector<const ControlFlowGraph*>> groups;
  for (auto& [s, c] : Sections(w)) {
    if (p.inter_function_reordering())
      groups.push_back(c);
    else
      for (auto* x : c) groups.push_back({x});
  }
  absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> init;
  for (const Value& v : A(o, "init")) {
    const Object& f = *v.getAsObject();
    auto& chains = init[I(f, "f")];
    for (const Value& c : A(f, "chains")) {
      chains.emplace_back();
      for (const Value& x : *c.getAsArray())
        chains.back().push_back({static_cast<int>(*x.getAsInteger()), 0});
    }
  }
  int limit = 400;
  for (auto& g : groups) {
    Array fs;
    for (auto* c : g) fs.push_back(c->function_index());
    NodeChainBuilder b = Builder(p, scorer, g, init, st);
    b.InitNodeChains();
    b.InitChainEdges();
    b.InitChainAssemblies();
    Emit("Chains", {{"fs", std::move(fs)}, {"params", Value(Object(*o.getObject("params")))}, {"init", C(A(o, "init"))},
                    {"scale", g_scale}, {"out", ChainsOf(b)}});
    while (!b.node_chain_assemblies().empty() && limit-- > 0) {
      NodeChainAssembly a = b.node_chain_assemblies().GetBestAssembly();
      Object e{{"s", Array{a.split_chain().id().function_index, a.split_chain().id().intra_cfg_id.bb_index}},
               {"u", Array{a.unsplit_chain().id().function_index, a.unsplit_chain().id().intra_cfg_id.bb_index}},
               {"order", std::string(GetMergeOrderName(a.merge_order()))}, {"pos", a.slice_pos() ? *a.slice_pos() : 0},
               {"gain", Sc(a.score_gain())}};
      b.MergeChains(a);
      e["out"] = ChainsOf(b);
      Emit("ChainMerge", std::move(e));
    }
    if (g.size() == 1) b.CoalesceChains();
    Emit("ChainEnd", {{"coalesced", g.size() == 1}, {"out", ChainsOf(b)}});
  }
}

// Sources that count how often they are read.
struct Source {
  bool ok;
  int64_t stat;
  std::string name;
  int* calls;
  bool* right;
  template <class T>
  absl::StatusOr<T> Give(const T& v, const PropellerOptions& o, const BinaryContent& b, PropellerStats& st) {
    ++*calls;
    if (o.binary_name() != name || b.file_name != name) *right = false;
    st.profile_stats.br_counters_accumulated += stat;
    if (!ok) return absl::InternalError("no data");
    return v;
  }
};
struct LbrSource : LbrAggregator {
  Source s;
  LbrAggregation v;
  absl::StatusOr<LbrAggregation> AggregateLbrData(const PropellerOptions& o, const BinaryContent& b, PropellerStats& st) override {
    return s.Give(v, o, b, st);
  }
};
struct FreqSource : BranchFrequenciesAggregator {
  Source s;
  BranchFrequencies v;
  absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions& o, const BinaryContent& b, PropellerStats& st) override {
    return s.Give(v, o, b, st);
  }
};

static void RunAgg(const Object& o, World& w) {
  bool lbr = S(o, "kind") == "L", lazy = Bo(o, "lazy"), ok = Bo(o, "ok", true);
  int64_t stat = I(o, "stat");
  int calls = 0;
  bool right = true;
  PropellerOptions opt;
  opt.set_binary_name(w.bin->file_name);
  Source src{ok, stat, w.bin->file_name, &calls, &right};
  PropellerStats base;
  base.profile_stats.br_counters_accumulated = stat;
  std::unique_ptr<BranchAggregator> agg;
  int64_t srctotal = 0;
  auto put = [&](auto& m, const Array& a) {
    for (size_t k = 0; k < a.size(); k++) {
      const Array& x = *a[g_rev ? a.size() - 1 - k : k].getAsArray();
      m[{Up1(AI(x, 0)), Up1(AI(x, 1))}] = static_cast<int64_t>(Up(AI(x, 2)));
    }
  };
  if (lbr) {
    LbrAggregation a;
    put(a.branch_counters, A(o, "br"));
    put(a.fallthrough_counters, A(o, "ft"));
    srctotal = a.GetNumberOfBranchCounters();
    if (lazy) {
      auto s = std::make_unique<LbrSource>();
      s->s = src;
      s->v = std::move(a);
      agg = std::make_unique<LbrBranchAggregator>(std::move(s), opt, *w.bin);
    } else {
      agg = std::make_unique<LbrBranchAggregator>(std::move(a), base);
    }
  } else {
    BranchFrequencies f;
    put(f.taken_branch_counters, A(o, "br"));
    srctotal = f.GetNumberOfTakenBranchCounters();
    const Array& st = A(o, "still");
    for (size_t k = 0; k < st.size(); k++) {
      const Array& x = *st[g_rev ? st.size() - 1 - k : k].getAsArray();
      f.not_taken_branch_counters[{Up1(AI(x, 0))}] = static_cast<int64_t>(Up(AI(x, 1)));
    }
    if (lazy) {
      auto s = std::make_unique<FreqSource>();
      s->s = src;
      s->v = std::move(f);
      agg = std::make_unique<FrequenciesBranchAggregator>(std::move(s), opt, *w.bin);
    } else if (Bo(o, "bysize")) {
      std::optional<int> size;
      if (I(o, "size")) size = I(o, "size");
      agg = std::make_unique<FrequenciesBranchAggregator>(std::move(f), base, size);
    } else {
      agg = std::make_unique<FrequenciesBranchAggregator>(std::move(f), *w.bin, base);
    }
  }
  auto rows = [&](const auto& m) {
    Array a;
    std::map<std::pair<uint64_t, uint64_t>, int64_t> sorted;
    for (auto& [k, n] : m) sorted[{k.from, k.to}] += n;
    if (sorted.size() != m.size()) return Array{kBad};
    for (auto& [k, n] : sorted) a.push_back(Array{Ad1(k.first), Ad1(k.second), Wt(n)});
    return a;
  };
  PropellerStats total;
  Array out;
  for (char c : S(o, "q", "EA")) {
    if (c == 'E') {
      auto r = agg->GetBranchEndpointAddresses();
      Array a;
      if (r.ok())
        for (uint64_t x : std::set<uint64_t>(r->begin(), r->end())) a.push_back(Ad1(x));
      out.push_back(Object{{"q", "E"}, {"ok", r.ok()}, {"a", std::move(a)}, {"calls", calls},
                           {"st", (int64_t)total.profile_stats.br_counters_accumulated}});
    } else {
      auto r = agg->Aggregate(*w.mapper, total);
      Object e{{"q", "A"}, {"ok", r.ok()}, {"calls", calls}, {"st", (int64_t)total.profile_stats.br_counters_accumulated}};
      if (r.ok()) {
        w.agg = *r;
        e["br"] = rows(r->branch_counters);
        e["ft"] = rows(r->fallthrough_counters);
        e["total"] = Wt(r->GetNumberOfBranchCounters());
        Array u;
        auto us = r->GetUniqueAddresses();
        for (uint64_t x : std::set<uint64_t>(us.begin(), us.end())) u.push_back(Ad1(x));
        e["uniq"] = std::move(u);
      }
      out.push_back(std::move(e));
    }
  }
  Emit("Agg", {{"kind", S(o, "kind")}, {"lazy", lazy}, {"okin", ok}, {"stat", stat}, {"right", right}, {"srctotal", Wt(srctotal)}, {"size", I(o, "size")},
               {"in", C(A(o, "br"))}, {"ft", C(A(o, "ft"))}, {"still", C(A(o, "still"))}, {"walked", o.get("steps") != nullptr},
               {"steps", C(A(o, "steps"))}, {"out", std::move(out)}});
}

// ---- whole runs ----
static std::string Join(const Array& a) {
  if (a.size() > 1 && AS(a, 1) == "T") return std::string(getenv("VH_TMP")) + "/" + AS(a, 2);
  std::string s;
  for (size_t i = 0; i < a.size(); i++) s += (i ? "/" : "") + AS(a, i);
  return s;
}
static void Put64(std::string* s, uint64_t v) {
  for (int i = 0; i < 8; i++) s->push_back(static_cast<char>(v >> (8 * i)));
}
static void Recording(const Object& L, const Object& slide, const std::string& file) {
  unlink(file.c_str());
  std::string state = S(L, "state");
  if (state == "gone") return;
  if (state == "bad") {
    std::ofstream(file, std::ios::binary) << "\xff\xff\xff no recording";
    return;
  }
  auto at = [&](int64_t pid, int64_t n) { return g_base + static_cast<uint64_t>(n) + U64(slide, std::to_string(pid).c_str(), 0); };
  quipper::PerfDataProto p;
  for (const Value& v : A(L, "evs")) {
    const Object& e = *v.getAsObject();
    auto* m = p.add_events()->mutable_mmap_event();
    m->set_pid(static_cast<uint32_t>(I(e, "pid")));
    m->set_start(at(I(e, "pid"), I(e, "start")));
    m->set_len(I(e, "len"));
    m->set_pgoff(I(e, "pgoff"));
    m->set_filename(Join(A(e, "name")));
  }
  for (const Value& v : A(L, "ids")) {
    const Object& e = *v.getAsObject();
    auto* b = p.add_build_ids();
    b->set_filename(Join(A(e, "name")));
    b->set_build_id_hash(Unhex(S(e, "id")));
  }
  for (const Value& v : A(L, "samples")) {
    const Object& e = *v.getAsObject();
    auto* s = p.add_events()->mutable_sample_event();
    if (Bo(e, "has")) s->set_pid(static_cast<uint32_t>(I(e, "pid")));
    for (const Value& b : A(e, "stack")) {
      auto* x = s->add_branch_stack();
      x->set_from_ip(at(I(e, "pid"), AI(*b.getAsArray(), 0)));
      x->set_to_ip(at(I(e, "pid"), AI(*b.getAsArray(), 1)));
    }
  }
  std::string data;
  for (const Value& v : A(L, "recs")) {
    const Object& r = *v.getAsObject();
    Put64(&data, at(I(r, "pid"), I(r, "from")));
    Put64(&data, at(I(r, "pid"), I(r, "to")));
    Put64(&data, 5);
    Put64(&data, (static_cast<uint64_t>(I(r, "pid")) << 32) | (Bo(r, "retired") ? 1 : 0) | (Bo(r, "nottaken") ? 2 : 0) |
                     (Bo(r, "branch") ? 4 : 0) | (Bo(r, "cond") ? 8 : 0) | 16);
  }
  auto* e = p.add_events()->mutable_auxtrace_event();
  e->set_size(data.size());
  e->set_trace_data(data);
  SaveProto(p, file);
}
struct Watcher : StatusConsumer {
  std::vector<std::string>* told;
  int64_t* percent;
  bool* done;
  StatusProvider* p = nullptr;
  void Start(StatusProvider& s) override {
    told->push_back("start");
    p = &s;
  }
  void Stop() override {
    told->push_back("stop");
    if (!p) return;
    *percent = p->GetProgress();
    *done = p->IsDone();
  }
};
static ProfileType TypeOf(const std::string& t) {
  return t == "SPE" ? PERF_SPE : t == "LBR" ? PERF_LBR : t == "FREQ" ? FREQUENCIES_PROTO : PROFILE_TYPE_UNSPECIFIED;
}
static void RunPipe(const Object& o, World& w) {
  std::string dir = std::string(getenv("VH_TMP")) + "/", cc = dir + "pcc.txt", ld = dir + "pld.txt";
  const Object& slide = *o.getObject("slide");
  PropellerOptions opt;
  opt.set_binary_name(Bo(o, "bin", true) ? dir + "prog" : dir + "no-prog");
  opt.set_cluster_out_name(cc);
  opt.set_symbol_order_out_name(ld);
  opt.set_cluster_out_version(I(o, "ver", 1) ? ClusterEncodingVersion::VERSION_1 : ClusterEncodingVersion::VERSION_0);
  opt.set_verbose_cluster_output(Bo(o, "verbose"));
  opt.set_filter_non_text_functions(Bo(o, "filter", true));
  opt.set_http(Bo(o, "http"));
  opt.set_output_module_name(Bo(o, "mod"));
  std::string dd = std::string(getenv("VH_TMP")) + "/dump";
  RemoveDump(dd);
  if (Bo(o, "dump")) opt.set_cfg_dump_dir_name(dd);
  *opt.mutable_code_layout_params() = Params(*o.getObject("params"));
  std::string match = S(o, "match");
  if (match == "name") opt.set_profiled_binary_name(Join(*A(o, "names")[0].getAsArray()));
  if (match == "path" || Bo(o, "noid")) opt.set_ignore_build_id(true);
  std::vector<std::string> files;
  int n = 0;
  for (const Value& v : A(o, "files")) {
    const Object& L = *v.getAsObject();
    files.push_back(dir + "rec" + std::to_string(n++));
    Recording(L, slide, files.back());
    auto* i = opt.add_input_profiles();
    i->set_name(files.back());
    if (S(L, "type") != "-") i->set_type(TypeOf(S(L, "type")));
  }
  n = 0;
  for (const Value& v : A(o, "dep")) {
    std::string f = dir + "old" + std::to_string(n++);
    Recording(*v.getAsObject(), slide, f);
    opt.add_profile_names(f);
  }
  unlink(cc.c_str());
  unlink(ld.c_str());
  std::vector<std::string> told;
  int64_t percent = -1, reports[2] = {0, 0};
  bool done = false;
  auto c = std::make_unique<Watcher>();
  c->told = &told;
  c->percent = &percent;
  c->done = &done;
  Watcher* watcher = c.get();
  StatusConsumerRegistry::GetInstance().Register(std::move(c));
  Object st;
  UnregisterAllPropellerTelemetryReportersForTest();
  auto note = [&](const PropellerStats& s) {
    auto& b = s.bbaddrmap_stats;
    auto& d = s.disassembly_stats;
    st = Object{{"files", s.profile_stats.perf_file_parsed}, {"br", Cnt(s.profile_stats.br_counters_accumulated)},
                {"mmaps", s.profile_stats.binary_mmap_num},
                {"map", Object{{"dup", (int64_t)b.duplicate_symbols}, {"nosym", (int64_t)b.bbaddrmap_function_does_not_have_symtab_entry},
                               {"hot", (int64_t)b.hot_functions}}},
                {"cfg", CfgStats(s)}, {"lay", LayoutStats(s.code_layout_stats)},
                {"dis", Array{d.could_not_disassemble.absolute + d.may_affect_control_flow.absolute + d.cant_affect_control_flow.absolute,
                              Cnt(d.could_not_disassemble.weighted + d.may_affect_control_flow.weighted + d.cant_affect_control_flow.weighted)}}};
  };
  for (int64_t& r : reports)
    RegisterPropellerTelemetryReporter([&](const BinaryContent& b, const PropellerStats& s) {
      r += b.file_name == dir + "prog" ? 1 : 100;
      note(s);
    });
  int64_t api = I(o, "api");
  bool ok;
  if (api == 0) {
    ok = GeneratePropellerProfiles(opt).ok();
  } else if (api == 3) {
    std::string sep, list = dir + "list", out;
    std::ofstream os(list);
    os << "# recordings\n\n";
    for (auto& f : files) {
      out += sep + f;
      sep = ";";
      os << f << "\n";
    }
    os.close();
    std::vector<std::string> args{"--format=propeller", "--binary=" + std::string(opt.binary_name()), "--out=" + cc, "--propeller_symorder=" + ld,
                                  "--profile=" + (Bo(o, "list") ? "@" + list : out)};
    for (const Value& v : A(o, "args")) args.push_back(v.getAsString()->str());
    if (match == "name") args.push_back("--profiled_binary_name=" + std::string(opt.profiled_binary_name()));
    if (opt.ignore_build_id()) args.push_back("--ignore_build_id");
    if (Bo(o, "dump")) args.push_back("--propeller_cfg_dump_dir=" + dd);
    std::string said;
    int64_t rc = RunTool("create_llvm_prof", args, &said);
    ok = rc == 0;
    done = rc != 0 && rc != 1;   // it ended otherwise than by saying so
  } else if (api == 1) {
    ok = GeneratePropellerProfiles(opt, std::make_unique<GenericFilePerfDataProvider>(files), TypeOf(S(o, "type"))).ok();
  } else {
    auto pc = PropellerProfileComputer::Create(opt);
    ok = pc.ok();
    if (ok) {
      auto prof = (*pc)->ComputeProfile(nullptr, nullptr);
      ok = prof.ok();
      if (ok) {
        PropellerProfileWriter(opt).Write(*prof);
        note((*pc)->stats());
      }
    }
  }
  watcher->p = nullptr;
  Array t;
  for (auto& x : told) t.push_back(x);
  Object e(o);
  e.erase("op");
  e["ok"] = ok;
  e["told"] = std::move(t);
  e["percent"] = percent;
  e["done"] = done;
  e["reports"] = Array{reports[0], reports[1]};
  e["exists"] = Object{{"cc", access(cc.c_str(), F_OK) == 0}, {"ld", access(ld.c_str(), F_OK) == 0}};
  auto [fc, fl] = Files(cc, ld);
  e["cc"] = std::move(fc);
  e["ld"] = std::move(fl);
  e["st"] = std::move(st);
  e.erase("dump");
  if (Bo(o, "dump")) e["dot"] = Dump(dd);
  e["dumped"] = access(dd.c_str(), F_OK) == 0;
  RemoveDump(dd);
  Emit("Pipe", std::move(e));
}

static void Op(const Object& o, World& w) {
  std::string op = S(o, "op"), dir = std::string(getenv("VH_TMP")) + "/";
  if (op == "scale") {
    g_scale = I(o, "n", 1);
    return;
  }
  if (op == "mapper") {
    PropellerOptions opt;
    opt.set_filter_non_text_functions(Bo(o, "filter", true));
    absl::flat_hash_set<uint64_t> hot;
    bool has = o.getArray("hot") != nullptr;
    for (const Value& v : A(o, "hot")) hot.insert(Up1(*v.getAsInteger()));
    PropellerStats st;
    auto r = BuildBinaryAddressMapper(opt, *w.bin, st, has ? &hot : nullptr);
    Object e{{"hot", C(A(o, "hot"))}, {"all", !has}, {"filter", Bo(o, "filter", true)}, {"ok", r.ok()}};
    if (r.ok()) {
      w.mapper = std::move(*r);
      Array sel, hs, blocks;
      for (int f : w.mapper->selected_functions()) {
        Array al;
        auto& i = w.mapper->symbol_info_map().at(f);
        for (auto& a : i.aliases) al.push_back(a.str());
        sel.push_back(Object{{"f", f}, {"names", std::move(al)}, {"sec", i.section_name.str()}});
      }
      for (auto& h : w.mapper->bb_handles()) {
        hs.push_back(Array{h.function_index, h.bb_index});
        blocks.push_back(Object{{"a", Ad1(w.mapper->GetAddress(h))}, {"e", Ad1(w.mapper->GetEndAddress(h))}, {"n", w.mapper->GetName(h)}});
      }
      e["sel"] = std::move(sel);
      e["h"] = std::move(hs);
      e["blocks"] = std::move(blocks);
      e["info"] = (int64_t)w.mapper->symbol_info_map().size();
      auto& b = st.bbaddrmap_stats;
      e["st"] = Object{{"dup", (int64_t)b.duplicate_symbols}, {"nosym", (int64_t)b.bbaddrmap_function_does_not_have_symtab_entry},
                       {"hot", (int64_t)b.hot_functions}};
    }
    Emit("Mapper", std::move(e));
    return;
  }
  if (op == "find" && w.mapper) {
    Array r;
    for (const Value& v : A(o, "q")) {
      const Array& q = *v.getAsArray();
      auto i = w.mapper->FindBbHandleIndexUsingBinaryAddress(
          Up1(AI(q, 0)), AS(q, 1) == "F" ? BranchDirection::kFrom : BranchDirection::kTo);
      r.push_back(i ? *i : -1);
    }
    Emit("Find", {{"q", C(A(o, "q"))}, {"r", std::move(r)}});
    return;
  }
  if (op == "fall" && w.mapper) {
    Array q, r;
    int n = w.mapper->bb_handles().size();
    for (const Value& v : A(o, "q")) {
      const Array& x = *v.getAsArray();
      if (n == 0) break;
      int i = AI(x, 0) % n, j = AI(x, 1) % n;
      q.push_back(Array{i, j});
      r.push_back(w.mapper->CanFallThrough(i, j));
    }
    Emit("Fall", {{"q", std::move(q)}, {"r", std::move(r)}});
    return;
  }
  if (op == "kind" && w.mapper) {
    Array q, r;
    int n = w.mapper->bb_handles().size();
    for (const Value& v : A(o, "q")) {
      const Array& x = *v.getAsArray();
      if (n == 0) break;
      int i = AI(x, 0) < 0 ? -1 : AI(x, 0) % n, j = AI(x, 1) % n;
      std::optional<BbHandle> f;
      if (i >= 0) f = w.mapper->bb_handles()[i];
      BbHandle t = w.mapper->bb_handles()[j];
      q.push_back(Array{i, j, AI(x, 2)});
      r.push_back(Array{w.mapper->IsCall(t, Up1(AI(x, 2))), w.mapper->IsReturn(f, t, Up1(AI(x, 2)))});
    }
    Emit("BrKind", {{"q", std::move(q)}, {"r", std::move(r)}});
    return;
  }
  if (op == "build" && w.mapper) {
    BranchAggregation agg;
    auto put = [&](auto& m, const Array& a) {
      for (size_t k = 0; k < a.size(); k++) {
        const Array& x = *a[g_rev ? a.size() - 1 - k : k].getAsArray();
        m[{Up1(AI(x, 0)), Up1(AI(x, 1))}] = static_cast<int64_t>(Up(AI(x, 2)));
      }
    };
    put(agg.branch_counters, A(o, "br"));
    put(agg.fallthrough_counters, A(o, "ft"));
    if (Bo(o, "agg") && w.agg) agg = *w.agg;
    auto rows = [&](const auto& m) {
      Array a;
      for (auto& [k, n] : m) a.push_back(Array{Ad1(k.from), Ad1(k.to), Wt(n)});
      return a;
    };
    PropellerStats st;
    std::unique_ptr<Addr2Cu> cu;
    if (Bo(o, "mod") && w.bin->dwarf_context) cu = std::make_unique<Addr2Cu>(*w.bin->dwarf_context);
    auto r = ProgramCfgBuilder(w.mapper.get(), st).Build(agg, nullptr, cu.get());
    Object e{{"mod", Bo(o, "mod")}, {"debug", w.bin->dwarf_context != nullptr}, {"br", Bo(o, "agg") ? Value(rows(agg.branch_counters)) : C(A(o, "br"))},
             {"ft", Bo(o, "agg") ? Value(rows(agg.fallthrough_counters)) : C(A(o, "ft"))}, {"ok", r.ok()}};
    if (r.ok()) {
      w.prof.program_cfg = std::move(*r);
      e["out"] = Graph(w.prof.program_cfg->GetCfgs());
      e["st"] = CfgStats(st);
    }
    Array u;
    for (uint64_t a : agg.GetUniqueAddresses()) u.push_back(Ad1(a));
    e["uniq"] = std::move(u);
    e["total"] = Wt(agg.GetNumberOfBranchCounters());
    Emit("Build", std::move(e));
    return;
  }
  if (op == "agg" && w.mapper) return RunAgg(o, w);
  if (op == "given") {
    absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cfgs;
    const Array& cs = A(o, "cfgs");
    auto keep = [&](const std::string& s) { w.pool.push_back(s); return llvm::StringRef(w.pool.back()); };
    w.pool.reserve(10000);
    for (size_t k = 0; k < cs.size(); k++) {
      const Object& c = *cs[g_rev ? cs.size() - 1 - k : k].getAsObject();
      std::vector<std::unique_ptr<CFGNode>> nodes;
      int bb = 0;
      for (const Value& v : A(c, "nodes")) {
        const Object& n = *v.getAsObject();
        llvm::object::BBAddrMap::BBEntry::Metadata md{Bo(n, "ret"), Bo(n, "tail"), Bo(n, "eh"), Bo(n, "ft"), Bo(n, "ib")};
        nodes.push_back(std::make_unique<CFGNode>(Up1(I(n, "addr")), bb++, I(n, "id"), I(n, "size"), md, I(c, "f")));
      }
      llvm::SmallVector<llvm::StringRef> names;
      for (const Value& v : A(c, "names")) names.push_back(keep(v.getAsString()->str()));
      std::optional<llvm::StringRef> mod;
      if (S(c, "mod", "-") != "-") mod = keep(S(c, "mod"));
      cfgs[I(c, "f")] = std::make_unique<ControlFlowGraph>(keep(S(c, "sec", ".text")), I(c, "f"), mod, names, std::move(nodes));
    }
    for (const Value& v : A(o, "edges")) {
      const Array& x = *v.getAsArray();
      auto *a = cfgs.at(AI(x, 0)).get(), *b = cfgs.at(AI(x, 2)).get();
      CFGNode *s = a->nodes().at(AI(x, 1)).get(), *t = b->nodes().at(AI(x, 3)).get();
      int wt = static_cast<int>(Up(AI(x, 4)));
      bool isec = a->section_name() != b->section_name();
      if (Bo(o, "upd")) a->CreateOrUpdateEdge(s, t, wt, KindOf(AS(x, 5)), isec);
      else a->CreateEdge(s, t, wt, KindOf(AS(x, 5)), isec);
    }
    w.prof.program_cfg = std::make_unique<ProgramCfg>(std::move(cfgs));
    Emit("Given", {{"cfgs", C(cs)}, {"edges", C(A(o, "edges"))}, {"out", Graph(w.prof.program_cfg->GetCfgs())}});
    return;
  }
  if (op == "pipe") return RunPipe(o, w);
  if (!w.prof.program_cfg) return;
  if (op == "layout") {
    PropellerStats::CodeLayoutStats st;
    w.prof.functions_cluster_info_by_section_name =
        GenerateLayoutBySection(*w.prof.program_cfg, Params(*o.getObject("params")), st);
    Emit("Layout", {{"params", Value(Object(*o.getObject("params")))}, {"scale", g_scale},
                    {"out", Layout(w.prof.functions_cluster_info_by_section_name)}, {"st", LayoutStats(st)}});
    return;
  }
  if (op == "chain") return RunChain(o, w);
  if (op == "cluster") return RunClusters(o, w);
  if (op == "write") {
    PropellerOptions opt;
    std::string cc = dir + "cc.txt", ld = dir + "ld.txt", dd = dir + "dump";
    opt.set_cluster_out_name(cc);
    opt.set_symbol_order_out_name(ld);
    opt.set_cluster_out_version(I(o, "ver", 1) ? ClusterEncodingVersion::VERSION_1 : ClusterEncodingVersion::VERSION_0);
    opt.set_verbose_cluster_output(Bo(o, "verbose"));
    unlink(cc.c_str());
    unlink(ld.c_str());
    if (Bo(o, "dump")) {
      opt.set_cfg_dump_dir_name(dd);
      RemoveDump(dd);
    }
    PropellerProfileWriter(opt).Write(w.prof);
    auto [c, l] = Files(cc, ld);
    Array sc;
    for (auto& s : Lines(cc))
      if (s.rfind("#ext-tsp score", 0) == 0) sc.push_back(s);
    Object e{{"ver", I(o, "ver", 1)}, {"verbose", Bo(o, "verbose")}, {"cc", std::move(c)}, {"ld", std::move(l)}, {"sc", std::move(sc)}};
    if (Bo(o, "dump")) e["dot"] = Dump(dd);
    RemoveDump(dd);
    Emit("Write", std::move(e));
    return;
  }
  if (op == "threshold") {
    Array r;
    for (const Value& v : A(o, "q")) r.push_back(Wt(w.prof.program_cfg->GetNodeFrequencyThreshold(*v.getAsInteger())));
    Array j;
    for (const Value& v : A(o, "j")) {
      const Array& x = *v.getAsArray();
      Array one;
      for (auto& [f, s] : w.prof.program_cfg->GetHotJoinNodes(static_cast<int>(Up(AI(x, 0))), static_cast<int>(Up(AI(x, 1)))))
        for (int b : s) one.push_back(Array{f, b});
      j.push_back(std::move(one));
    }
    Emit("Hot", {{"q", C(A(o, "q"))}, {"r", std::move(r)}, {"j", C(A(o, "j"))}, {"jr", std::move(j)}});
    return;
  }
  if (op == "proto") {
    std::string f = dir + "cfg.pb";
    Array out;
    bool ok = true;
    {
      auto cfgs = std::move(*w.prof.program_cfg).release_cfgs_by_index();
      ProgramCfgProtoBuilder b, rd;
      ok = b.InitWriter(f);
      b.AddCfgs(cfgs);
      ok = ok && b.WriteAndClose() && rd.Read(f);
      for (auto& c : rd.program_cfg_pb().cfg()) {
        Array names, nodes;
        for (auto& n : c.name()) names.push_back(n);
        for (auto& n : c.node()) {
          Array es;
          for (auto& e : n.out_edges())
            es.push_back(Array{(int64_t)e.sink().function_index(), (int64_t)e.sink().bb_index(), Cnt(e.weight()),
                               e.kind() == CFGEdgePb::CALL ? "C" : e.kind() == CFGEdgePb::RETURN ? "R" : "B"});
          nodes.push_back(Object{{"id", (int64_t)n.bb_id()}, {"size", (int64_t)n.size()}, {"ft", n.metadata().can_fallthrough()},
                                 {"ret", n.metadata().has_return()}, {"tail", n.metadata().has_tail_call()},
                                 {"eh", n.metadata().is_landing_pad()}, {"es", std::move(es)}});
        }
        out.push_back(Object{{"f", (int64_t)c.function_index()}, {"sec", c.section_name()}, {"names", std::move(names)}, {"nodes", std::move(nodes)}});
      }
      bool missing = ProgramCfgProtoBuilder().Read(dir + "no-such-file");
      Emit("Proto", {{"ok", ok}, {"missing", missing}, {"out", std::move(out)}});
      w.prof.program_cfg = std::make_unique<ProgramCfg>(std::move(cfgs));
    }
    return;
  }
  if (op == "clone") {
    auto cfgs = std::move(*w.prof.program_cfg).release_cfgs_by_index();
    auto it = cfgs.find(I(o, "f"));
    if (it == cfgs.end()) return;
    ControlFlowGraph& c = *it->second;
    auto copy = CloneCfg(c);
    std::vector<int> path;
    for (const Value& v : A(o, "path")) path.push_back(*v.getAsInteger());
    copy->ClonePath(I(o, "pred"), path);
    Array cp;
    for (auto& p : copy->clone_paths()) {
      Array one;
      for (auto& x : p) one.push_back(Array{x.bb_id, x.intra_cfg_id.bb_index, x.intra_cfg_id.clone_number});
      cp.push_back(std::move(one));
    }
    auto copy2 = CloneCfg(*copy);
    Emit("Clone", {{"f", I(o, "f")}, {"pred", I(o, "pred")}, {"path", C(A(o, "path"))}, {"paths", std::move(cp)},
                   {"out", Graph({copy.get()})}, {"out2", Graph({copy2.get()})}, {"orig", Graph({&c})}});
    w.prof.program_cfg = std::make_unique<ProgramCfg>(std::move(cfgs));
    return;
  }
}

static void Run(const Object& o) {
  World w;
  g_wunit = static_cast<double>(g_unit);
  if (o.get("elf")) {
    std::string f = std::string(getenv("VH_TMP")) + "/prog";
    std::ofstream(f, std::ios::binary) << Unhex(S(o, "elf"));
    auto r = GetBinaryContent(f);
    Emit("Program", {{"ok", r.ok()}, {"prog", Value(Object(*o.getObject("prog")))}});
    if (!r.ok()) return;
    w.bin = std::move(*r);
  }
  for (const Value& v : A(o, "ops")) Op(*v.getAsObject(), w);
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

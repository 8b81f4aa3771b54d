// Combines statistics of runs and describes them.
#include <cmath>
#include <map>
#include "llvm_propeller_statistics.h"
#include "vh.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;
using PS = PropellerStats;

static const CFGEdge::Kind kKinds[] = {CFGEdge::Kind::kBranchOrFallthough, CFGEdge::Kind::kCall, CFGEdge::Kind::kRet};
template <class F>
static void Fields(PS& s, F f) {
  f("dup", s.bbaddrmap_stats.duplicate_symbols);
  f("nosym", s.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry);
  f("hotf", s.bbaddrmap_stats.hot_functions);
  f("mmaps", s.profile_stats.binary_mmap_num);
  f("parsed", s.profile_stats.perf_file_parsed);
  f("br", s.profile_stats.br_counters_accumulated);
  f("cnd", s.disassembly_stats.could_not_disassemble.absolute);
  f("cndw", s.disassembly_stats.could_not_disassemble.weighted);
  f("may", s.disassembly_stats.may_affect_control_flow.absolute);
  f("mayw", s.disassembly_stats.may_affect_control_flow.weighted);
  f("cant", s.disassembly_stats.cant_affect_control_flow.absolute);
  f("cantw", s.disassembly_stats.cant_affect_control_flow.weighted);
  f("same", s.cfg_stats.edges_with_same_src_sink_but_different_type);
  f("cfgs", s.cfg_stats.cfgs_created);
  f("pads", s.cfg_stats.cfgs_with_hot_landing_pads);
  f("nodes", s.cfg_stats.nodes_created);
  f("hotb", s.cfg_stats.hot_basic_blocks);
  f("empty", s.cfg_stats.hot_empty_basic_blocks);
  f("ointra", s.code_layout_stats.original_intra_score);
  f("nintra", s.code_layout_stats.optimized_intra_score);
  f("ointer", s.code_layout_stats.original_inter_score);
  f("ninter", s.code_layout_stats.optimized_inter_score);
  f("single", s.code_layout_stats.n_single_node_chains);
  f("multi", s.code_layout_stats.n_multi_node_chains);
  f("paths", s.cloning_stats.paths_cloned);
  f("bbs", s.cloning_stats.bbs_cloned);
  f("bytes", s.cloning_stats.bytes_cloned);
  f("gain", s.cloning_stats.score_gain);
}
static int KindNo(CFGEdge::Kind k) { for (int i = 0; i < 3; i++) if (kKinds[i] == k) return i; return -1; }
static Value Dump(PS& s) {
  Object n;
  Fields(s, [&](const char* k, auto& v) {
    int64_t x = static_cast<int64_t>(v);
    int64_t u = sizeof(v) == 8 ? static_cast<int64_t>(g_unit) : 1;
    n[k] = static_cast<double>(x) == static_cast<double>(v) && x >= 0 && x % u == 0 ? x / u : kBad;
  });
  auto T = [&](auto& m, auto f, int64_t u) {
    std::map<int, int64_t> o;
    for (auto& [k, v] : m) o[f(k)] = v;
    Array a;
    for (auto& [k, v] : o) a.push_back(Array{k, v % u == 0 ? v / u : kBad});
    return a;
  };
  return Object{{"n", std::move(n)},
                {"edges", T(s.cfg_stats.edges_created_by_kind, KindNo, g_unit)},
                {"weights", T(s.cfg_stats.total_edge_weight_by_kind, KindNo, g_unit)},
                {"merges", T(s.code_layout_stats.n_assemblies_by_merge_order, [](ChainMergeOrder o) { return static_cast<int>(o); }, 1)},
                {"te", Cnt(s.cfg_stats.total_edges_created())},
                {"tw", Cnt(s.cfg_stats.total_edge_weight_created())}};
}
static PS Make(const Object& o) {
  PS s;
  const Object& n = *o.getObject("n");
  Fields(s, [&](const char* k, auto& v) { v = static_cast<std::decay_t<decltype(v)>>(I(n, k) * (sizeof(v) == 8 ? g_unit : 1)); });
  for (const Value& v : A(o, "edges")) s.cfg_stats.edges_created_by_kind[kKinds[AI(*v.getAsArray(), 0)]] = AI(*v.getAsArray(), 1) * g_unit;
  for (const Value& v : A(o, "weights")) s.cfg_stats.total_edge_weight_by_kind[kKinds[AI(*v.getAsArray(), 0)]] = AI(*v.getAsArray(), 1) * g_unit;
  for (const Value& v : A(o, "merges")) s.code_layout_stats.n_assemblies_by_merge_order[static_cast<ChainMergeOrder>(AI(*v.getAsArray(), 0))] = AI(*v.getAsArray(), 1);
  return s;
}
// The numbers of a description, in the order they are printed.
static Value Numbers(const std::string& s) {
  Array a;
  for (size_t i = 0; i < s.size();) {
    if (!isdigit(s[i])) { i++; continue; }
    size_t j = i;
    while (j < s.size() && (isdigit(s[j]) || (s[j] == '.' && j + 1 < s.size() && isdigit(s[j + 1])))) j++;
    std::string w = s.substr(i, j - i);
    size_t dot = w.find('.');
    if (dot == std::string::npos) a.push_back(static_cast<int64_t>(atoll(w.c_str())));
    else a.push_back(static_cast<int64_t>(llround(atof(w.c_str()) * 100)));   // hundredths
    i = j;
  }
  return std::move(a);
}
static void Run(const Object& o) {
  std::vector<PS> s;
  for (const Value& v : A(o, "runs")) {
    s.push_back(Make(*v.getAsObject()));
    Emit("Run", {{"i", static_cast<int64_t>(s.size())}, {"in", Value(v)}, {"r", Dump(s.back())}});
  }
  for (const Value& v : A(o, "ops")) {
    Object e(*v.getAsObject());
    std::string op = S(e, "op");
    int64_t i = I(e, "i"), j = I(e, "j");
    if (op == "add") {
      s[i - 1] += s[j - 1];
    } else if (op == "copyadd") {
      PS x;
      x += s[i - 1];
      x += s[j - 1];
      s[i - 1] = x;
    } else if (op == "inc") {
      auto& d = s[i - 1].disassembly_stats;
      (j == 1 ? d.could_not_disassemble : j == 2 ? d.may_affect_control_flow : d.cant_affect_control_flow).Increment(I(e, "w") * g_unit);
    } else {
      e["profile"] = Numbers(s[i - 1].profile_stats.DebugString());
      e["bb"] = Numbers(s[i - 1].bbaddrmap_stats.DebugString());
      e["dis"] = Numbers(s[i - 1].disassembly_stats.DebugString());
      e["clone"] = Numbers(s[i - 1].cloning_stats.DebugString());
      std::string all = s[i - 1].DebugString();
      auto Has = [&](const std::string& x) { return all.find(x) != std::string::npos; };
      e["whole"] = Has(s[i - 1].profile_stats.DebugString()) && Has(s[i - 1].bbaddrmap_stats.DebugString()) &&
                   Has(s[i - 1].disassembly_stats.DebugString()) && Has(s[i - 1].cloning_stats.DebugString()) &&
                   Has(s[i - 1].cfg_stats.DebugString()) && Has(s[i - 1].code_layout_stats.DebugString());
      Array lines;
      std::string c = s[i - 1].cfg_stats.DebugString() + "\n";
      for (size_t p = 0, q; (q = c.find('\n', p)) != std::string::npos; p = q + 1) {
        std::string line = c.substr(p, q - p);
        size_t b = line.find('{');
        Object l{{"n", Numbers(line.substr(0, b))}};
        if (b != std::string::npos) {
          // kind: share%, in any order
          std::map<int, Value> shares;
          for (int k = 0; k < 3; k++) {
            std::string name(CFGEdge::GetCfgEdgeKindString(kKinds[k]));
            size_t at = line.find(name + ": ");
            if (at != std::string::npos) {
              std::string t = line.substr(at + name.size() + 2);
              shares.emplace(k, static_cast<int64_t>(llround(atof(t.c_str()) * 100)));
            }
          }
          Array sh;
          for (auto& [k, x] : shares) sh.push_back(Array{k, Value(x)});
          l["s"] = std::move(sh);
        }
        lines.push_back(std::move(l));
      }
      e["cfg"] = std::move(lines);
    }
    e["r"] = Dump(s[i - 1]);
    Emit("Op", std::move(e));
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

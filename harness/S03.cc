// Drives the conversion of branch frequencies and the two SPE readers.
#include "branch_frequencies_autofdo_sample.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "perfgen.h"
#include "profile_creator.h"
#include "simple_spe_sample_reader.h"
#include "spe_sample_reader.h"
ABSL_DECLARE_FLAG(bool, disassemble_arm_branches);
ABSL_DECLARE_FLAG(std::string, focus_binary_re);
using namespace devtools_crosstool_autofdo;
using namespace vh;

// Positions stand for base + size * n.
static int64_t g_size = 4;
static uint64_t g_b = 0;
static uint64_t At(int64_t n) { return g_b + g_size * n; }
static int64_t Pos(uint64_t v, uint64_t b) {
  uint64_t q = v - b;
  if (q % g_size) return kBad;
  q /= g_size;
  return q > 100000000u ? kBad : static_cast<int64_t>(q);
}
template <class R>
static Object Tabs(const BranchCountMap& bm, const R& rm, uint64_t b) {
  Array br, rg;
  for (auto& [k, c] : bm)
    br.push_back(Array{Array{Pos(k.first, b), Pos(k.second, b)}, Cnt(c)});
  for (auto& [k, c] : rm)
    rg.push_back(Array{Array{Pos(k.first, b), Pos(k.second, b)}, Cnt(c)});
  return Object{{"b", std::move(br)}, {"r", std::move(rg)}};
}
static void Put64(std::string* s, uint64_t v) {
  for (int i = 0; i < 8; i++) s->push_back(static_cast<char>(v >> (8 * i)));
}

static void Run(const Object& o) {
  std::string dir = std::string(getenv("VH_TMP")) + "/";
  std::string mode = S(o, "mode");
  g_size = I(o, "size", 4);
  g_b = U64(o, "base", 0);
  std::set<int64_t> br;
  for (const Value& v : A(o, "br")) br.insert(*v.getAsInteger());
  if (mode == "convert") {
    BranchFrequencies f;
    for (const Value& v : A(o, "taken")) {
      const Array& a = *v.getAsArray();
      BinaryAddressBranch k{.from = AI(a, 0) < 0 ? kInvalidBinaryAddress : At(AI(a, 0)),
                            .to = AI(a, 1) < 0 ? kInvalidBinaryAddress : At(AI(a, 1))};
      f.taken_branch_counters[k] += Up(AI(a, 2));
    }
    for (const Value& v : A(o, "nottaken")) {
      const Array& a = *v.getAsArray();
      f.not_taken_branch_counters[{.address = AI(a, 0) < 0 ? kInvalidBinaryAddress : At(AI(a, 0))}] += Up(AI(a, 1));
    }
    int64_t lo = I(o, "lo"), hi = I(o, "hi"), shift = I(o, "shift");
    auto r = ConvertBranchFrequenciesToAutofdoRangeSample(
        f,
        [&](int64_t a) -> absl::StatusOr<bool> {
          int64_t d = a - static_cast<int64_t>(g_b);
          if (d % g_size) return false;
          if (d / g_size < lo || d / g_size >= hi) return absl::InvalidArgumentError("x");
          return br.count(d / g_size) > 0;
        },
        [&](int64_t a) -> int64_t { return a + shift; }, g_size);
    Object e = r.ok() ? Tabs(r->branch_counts, r->range_counts, g_b + shift) : Object{};
    e["ok"] = r.ok();
    e["taken"] = C(A(o, "taken"));
    e["nottaken"] = C(A(o, "nottaken"));
    e["br"] = C(A(o, "br"));
    e["lo"] = lo;
    e["hi"] = hi;
    Emit("Convert", std::move(e));
    return;
  }
  // Recordings: positions in runtime space; file positions have base foff.
  std::string bin = dir + S(o, "binary");
  if (o.get("elf")) std::ofstream(bin, std::ios::binary) << Unhex(S(o, "elf"));
  uint64_t foff = U64(o, "foff", 0);
  std::string how = S(o, "how");
  SimpleSpeDataSampleReader simple(dir + "spe", bin);
  PerfSpeDataSampleReader full(how == "disassembly" ? PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly
                                                    : PerfSpeDataSampleReader::BranchIdStrategy::kSampling,
                               dir + "spe", S(o, "re", "."), bin);
  for (const Value& fv : A(o, "files")) {
    const Object& f = *fv.getAsObject();
    const Object& m = *f.getObject("map");
    quipper::PerfDataProto p;
    auto map = [&](uint32_t pid, uint64_t start, uint64_t len, uint64_t off, const std::string& name) {
      auto* e = p.add_events()->mutable_mmap_event();
      e->set_pid(pid);
      e->set_start(start);
      e->set_len(len);
      e->set_pgoff(off);
      e->set_filename(name);
    };
    map(7, At(900000), g_size * 100, 0, "/lib/ld.so");
    // a mapping of another program whose name contains this one's
    map(7, At(800000), g_size * 100, 0, "/usr/" + S(o, "binary") + "x");
    map(7, At(I(m, "start")), g_size * I(m, "len"), foff + g_size * I(m, "pgoff"), "/usr/bin/" + S(o, "binary"));
    if (o.get("bid")) {
      auto* x = p.add_build_ids();
      x->set_filename("/usr/bin/" + S(o, "binary"));
      x->set_build_id_hash(Unhex(S(o, "bid")));
    }
    // one process, seen through a sample
    auto* se = p.add_events()->mutable_sample_event();
    se->set_pid(7);
    se->set_tid(7);
    se->set_sample_time_ns(1);
    size_t i = 0, n = A(f, "recs").size(), cut = I(f, "cut", n);
    std::string data;
    auto flush = [&] {
      auto* e = p.add_events()->mutable_auxtrace_event();
      e->set_size(data.size());
      e->set_trace_data(data);
      data.clear();
    };
    for (const Value& v : A(f, "recs")) {
      const Array& a = *v.getAsArray();
      if (i++ == cut) flush();
      Put64(&data, At(AI(a, 0)));
      Put64(&data, At(AI(a, 1)));
      Put64(&data, 5);
      Put64(&data, (AI(a, 2) ? 1 : 0) | (AI(a, 5) ? 2 : 0) | (AI(a, 3) ? 4 : 0) | (AI(a, 4) ? 8 : 0));
    }
    flush();
    SaveProto(p, dir + "spe");
    bool ok;
    Object e;
    if (o.getBoolean("via").value_or(false)) {
      absl::SetFlag(&FLAGS_disassemble_arm_branches, how == "disassembly");
      absl::SetFlag(&FLAGS_focus_binary_re, std::string(S(o, "re")));
      ProfileCreator c(bin);
      ok = c.ReadSample(dir + "spe", "perf_spe");
      if (ok) e = Tabs(c.sample_reader().branch_count_map(), c.sample_reader().range_count_map(), foff);
    } else {
      FileSampleReader& r = mode == "simple" ? static_cast<FileSampleReader&>(simple) : full;
      ok = r.Append(dir + "spe");
      e = Tabs(r.branch_count_map(), r.range_count_map(), foff);
    }
    e["ok"] = ok;
    e["map"] = Value(Object(m));
    e["recs"] = C(A(f, "recs"));
    e["br"] = C(A(o, "br"));
    e["lo"] = I(o, "lo");
    e["hi"] = I(o, "hi");
    e["how"] = how;
    Emit(mode == "simple" ? "Simple" : "Full", std::move(e));
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

// Drives binary loading, mapping selection, address translation and the
// aggregation of branch stacks and trace records.
#include "llvm_propeller_binary_content.h"
#include "perfdata_reader.h"
#include "perfgen.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

// Numbers stand for rbase + n at run time, vbase + n in the binary and
// fbase + n in the file.
static uint64_t g_r, g_v, g_f;
static int64_t Rel(uint64_t v, uint64_t b) {
  if (v == kInvalidBinaryAddress) return -1;
  uint64_t q = v - b;
  return q > 2000000000u ? kBad : static_cast<int64_t>(q);
}
static uint64_t At(int64_t n) { return g_r + n; }
static std::string Join(const Array& a) {
  std::string s;
  for (size_t i = 0; i < a.size(); i++) s += (i ? "/" : "") + AS(a, i);
  return s;
}
static Array SegsOf(const BinaryContent& c) {
  Array a;
  for (auto& s : c.segments)
    a.push_back(Object{{"off", Rel(s.offset, g_f)}, {"va", Rel(s.vaddr, g_v)}, {"size", (int64_t)s.memsz}});
  return a;
}
template <class M>
static Array InfoOf(const M& m) {
  Array a;
  for (auto& [k, v] : m) a.push_back(Array{std::string(k), std::string(v.data())});
  return a;
}
static void Put64(std::string* s, uint64_t v) {
  for (int i = 0; i < 8; i++) s->push_back(static_cast<char>(v >> (8 * i)));
}

static void Run(const Object& o) {
  std::string dir = std::string(getenv("VH_TMP")) + "/";
  g_r = U64(o, "rbase", 0);
  g_v = U64(o, "vbase", 0);
  g_f = U64(o, "fbase", 0);
  for (const Value& v : A(o, "modinfo")) {
    const Object& m = *v.getAsObject();
    std::string raw = Unhex(S(m, "hex"));
    auto r = ELFFileUtilBase::ParseModInfoSectionContent(raw);
    Emit("ModInfo", {{"info", Value(Object(*m.getObject("info")))}, {"ok", r.ok()}, {"out", r.ok() ? InfoOf(*r) : Array{}}});
  }
  BinaryContent given;
  std::unique_ptr<BinaryContent> loaded;
  const BinaryContent* bin = &given;
  if (o.get("elf")) {
    std::string f = dir + S(o, "file", "prog");
    std::ofstream(f, std::ios::binary) << Unhex(S(o, "elf"));
    auto r = GetBinaryContent(f);
    Object e(*o.getObject("made"));
    e["ok"] = r.ok();
    if (r.ok()) {
      loaded = std::move(*r);
      bin = loaded.get();
      Object st{{"pie", bin->is_pie}, {"bid", bin->build_id}, {"segs", SegsOf(*bin)}};
      st["info"] = bin->kernel_module ? InfoOf(bin->kernel_module->modinfo) : Array{};
      e["st"] = std::move(st);
    }
    Emit("Binary", std::move(e));
    if (!loaded) return;
  } else if (o.get("segs")) {
    given.file_name = dir + "prog";
    given.is_pie = Bo(o, "pie");
    given.build_id = S(o, "bid");
    for (const Value& v : A(o, "segs")) {
      const Object& s = *v.getAsObject();
      given.segments.push_back({g_f + I(s, "off"), g_v + I(s, "va"), (uint64_t)I(s, "size")});
    }
    Emit("Given", {{"pie", given.is_pie}, {"segs", C(A(o, "segs"))}});
  } else {
    return;
  }
  for (const Value& lv : A(o, "loads")) {
    const Object& L = *lv.getAsObject();
    quipper::PerfDataProto p;
    for (const Value& v : A(L, "evs")) {
      const Object& e = *v.getAsObject();
      auto* m = p.add_events()->mutable_mmap_event();
      std::string miss = Bo(e, "has") ? "" : S(e, "miss");
      if (miss != "pid") m->set_pid(static_cast<uint32_t>(I(e, "pid")));
      if (miss != "start") m->set_start(At(I(e, "start")));
      if (miss != "len") m->set_len(I(e, "len"));
      uint64_t off = g_f + I(e, "pgoff");
      if (off) m->set_pgoff(off);
      if (miss != "name") m->set_filename(Join(A(e, "name")));
    }
    for (const Value& v : A(L, "ids")) {
      const Object& e = *v.getAsObject();
      auto* b = p.add_build_ids();
      b->set_filename(Join(A(e, "name")));
      b->set_build_id_hash(Unhex(S(e, "id")));
    }
    const Array &samples = A(L, "samples"), &recs = A(L, "recs");
    for (const Value& v : samples) {
      const Object& e = *v.getAsObject();
      auto* s = p.add_events()->mutable_sample_event();
      if (Bo(e, "has")) s->set_pid(static_cast<uint32_t>(I(e, "pid")));
      for (const Value& b : A(e, "stack")) {
        auto* x = s->add_branch_stack();
        x->set_from_ip(At(AI(*b.getAsArray(), 0)));
        x->set_to_ip(At(AI(*b.getAsArray(), 1)));
      }
    }
    std::string data;
    auto flush = [&] {
      auto* e = p.add_events()->mutable_auxtrace_event();
      e->set_size(data.size());
      e->set_trace_data(data);
      data.clear();
    };
    size_t i = 0;
    for (const Value& v : recs) {
      const Object& r = *v.getAsObject();
      Put64(&data, At(I(r, "from")));
      Put64(&data, At(I(r, "to")));
      Put64(&data, 5);
      Put64(&data, (static_cast<uint64_t>(I(r, "pid")) << 32) | (Bo(r, "retired") ? 1 : 0) | (Bo(r, "nottaken") ? 2 : 0) |
                       (Bo(r, "branch") ? 4 : 0) | (Bo(r, "cond") ? 8 : 0) | 16);
      if (++i == 3) flush();
    }
    flush();
    std::string bytes;
    p.SerializeToString(&bytes);
    PerfDataProvider::BufferHandle h{"x", llvm::MemoryBuffer::getMemBufferCopy(bytes)};
    const Array& names = A(L, "names");
    std::vector<std::string> keep;
    for (const Value& n : names) keep.push_back(Join(*n.getAsArray()));
    absl::StatusOr<PerfDataReader> rd = absl::InternalError("x");
    if (Bo(L, "direct") || names.size() > 1) {
      std::vector<absl::string_view> nv(keep.begin(), keep.end());
      auto mm = SelectMMaps(h, nv, *bin);
      if (mm.ok()) rd = PerfDataReader(std::move(h), std::move(*mm), bin);
    } else {
      rd = BuildPerfDataReader(std::move(h), bin, names.empty() ? "" : absl::string_view(keep[0]));
    }
    Array out;
    if (rd.ok())
      for (auto& [pid, ms] : rd->binary_mmaps()) {
        Array a;
        for (auto& m : ms) a.push_back(Array{Rel(m.load_addr, g_r), (int64_t)m.load_size, Rel(m.page_offset, g_f)});
        out.push_back(Object{{"pid", (int64_t)(int32_t)pid}, {"m", std::move(a)}});
      }
    Emit("Load", {{"names", C(names)}, {"bid", bin->build_id}, {"ids", C(A(L, "ids"))}, {"evs", C(A(L, "evs"))},
                  {"ok", rd.ok()}, {"out", std::move(out)}});
    if (!rd.ok()) continue;
    uint64_t ob = bin->is_pie ? g_v : g_r;
    bool kernel = rd->IsKernelMode();
    auto B = [&](uint64_t v, int64_t pid) { return Rel(v, pid == -1 || bin->is_pie ? g_v : ob); };
    for (const Value& v : A(L, "queries")) {
      const Object& q = *v.getAsObject();
      Array r;
      for (const Value& x : A(q, "q"))
        r.push_back(B(rd->RuntimeAddressToBinaryAddress(static_cast<uint32_t>(I(q, "pid")), At(*x.getAsInteger())), I(q, "pid")));
      Emit("Translate", {{"pid", I(q, "pid")}, {"q", C(A(q, "q"))}, {"r", std::move(r)}});
    }
    int64_t kp = kernel ? -1 : 0;
    int64_t rounds = I(L, "rounds", 1);
    {
      LbrAggregation agg;
      for (int k = 0; k < rounds; k++) rd->AggregateLBR(&agg);
      Array b, f;
      for (auto& [k, c] : agg.branch_counters)
        b.push_back(Array{Array{B(k.from, kp), B(k.to, kp)}, c % rounds ? kBad : c / rounds});
      for (auto& [k, c] : agg.fallthrough_counters)
        f.push_back(Array{Array{B(k.from, kp), B(k.to, kp)}, c % rounds ? kBad : c / rounds});
      Emit("Lbr", {{"samples", C(samples)}, {"out", Object{{"b", std::move(b)}, {"f", std::move(f)}}}});
    }
    {
      BranchFrequencies fr;
      for (int k = 0; k < rounds; k++)
        if (!rd->AggregateSpe(fr).ok()) fr.taken_branch_counters[{1, 1}] = 12345;
      Array t, n;
      for (auto& [k, c] : fr.taken_branch_counters)
        t.push_back(Array{Array{B(k.from, kp), B(k.to, kp)}, c % rounds ? kBad : c / rounds});
      for (auto& [k, c] : fr.not_taken_branch_counters)
        n.push_back(Array{B(k.address, kp), c % rounds ? kBad : c / rounds});
      Emit("Spe", {{"recs", C(recs)}, {"out", Object{{"t", std::move(t)}, {"n", std::move(n)}}}});
    }
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

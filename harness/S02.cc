// Drives PerfDataSampleReader over recordings.
#include "base/commandlineflags.h"
#include "perfgen.h"
#include "sample_reader.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, strip_dup_backedge_stride_limit);
using namespace devtools_crosstool_autofdo;
using namespace vh;

static uint64_t g_obase = 0;
static int64_t Off(uint64_t v) {
  uint64_t q = v - g_obase;
  return q > 2000000000u ? kBad : static_cast<int64_t>(q);
}
static Object Project(const SampleReader& r) {
  Array a, rr, b;
  for (auto& [k, c] : r.address_count_map()) a.push_back(Array{Off(k), Cnt(c)});
  for (auto& [k, c] : r.range_count_map())
    rr.push_back(Array{Array{Off(k.first), Off(k.second)}, Cnt(c)});
  for (auto& [k, c] : r.branch_count_map())
    b.push_back(Array{Array{Off(k.first), Off(k.second)}, Cnt(c)});
  Array t;
  for (auto& [k, w] : r.address_timestamp_map())
    t.push_back(Array{Off(k), w > 2000000000u ? kBad : static_cast<int64_t>(w)});
  return Object{{"t", std::move(t)}, {"a", std::move(a)}, {"r", std::move(rr)}, {"b", std::move(b)}};
}

static void Run(const Object& o) {
  std::string dir = std::string(getenv("VH_TMP")) + "/";
  g_obase = U64(o, "obase", 0);
  absl::SetFlag(&FLAGS_strip_dup_backedge_stride_limit, I(o, "stride", 0x1000));
  bool by_id = S(o, "mode") == "id";
  std::string id = by_id ? S(o, "bid") : "";
  PerfDataSampleReader r(dir + "none", S(o, "re"), id);
  Emit("Config", {{"mode", S(o, "mode")}, {"id", id}, {"own", C(A(o, "own"))}, {"stride", I(o, "stride", 0x1000)}});
  uint64_t time = 1;
  for (const Value& fv : A(o, "files")) {
    const Object& f = *fv.getAsObject();
    quipper::PerfDataProto p;
    for (const Value& v : A(f, "ids")) {
      const Object& b = *v.getAsObject();
      auto* x = p.add_build_ids();
      x->set_filename(S(b, "name"));
      x->set_build_id_hash(Unhex(S(b, "id")));
    }
    Emit("File", {{"ids", C(A(f, "ids"))}});
    for (const Value& v : A(f, "events")) {
      const Object& e = *v.getAsObject();
      auto* pe = p.add_events();
      pe->set_timestamp(++time);
      if (S(e, "k") == "map") {
        auto* m = pe->mutable_mmap_event();
        m->set_pid(I(e, "pid"));
        m->set_start(UpA(I(e, "start")));
        m->set_len(I(e, "len"));
        m->set_pgoff(g_obase + I(e, "pgoff"));
        m->set_filename(S(e, "name"));
        Emit("Map", {{"pid", I(e, "pid")}, {"start", I(e, "start")}, {"len", I(e, "len")},
                     {"pgoff", I(e, "pgoff")}, {"name", S(e, "name")}});
      } else {
        auto* s = pe->mutable_sample_event();
        s->set_pid(I(e, "pid"));
        s->set_ip(UpA(I(e, "ip")));
        for (const Value& bv : A(e, "stack")) {
          const Array& b = *bv.getAsArray();
          auto* be = s->add_branch_stack();
          be->set_from_ip(UpA(AI(b, 0)));
          be->set_to_ip(UpA(AI(b, 1)));
          be->set_spec(AI(b, 2));
        }
        Emit("Sample", {{"time", static_cast<int64_t>(time)}, {"pid", I(e, "pid")}, {"ip", I(e, "ip")}, {"stack", C(A(e, "stack"))}});
      }
    }
    if (S(f, "bad") == "broken") p.set_broken(true);
    unlink((dir + "p").c_str());
    if (S(f, "bad") != "missing") SaveProto(p, dir + "p");
    bool ok = r.Append(dir + "p");
    Emit(S(f, "bad").empty() ? "Tables" : "Bad", {{"ok", ok}, {"kernel", r.IsKernelSample()}, {"st", Project(r)}});
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

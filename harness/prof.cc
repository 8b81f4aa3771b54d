// Drives SymbolMap, the profile writers and the profile readers.
#include <algorithm>
#include <cmath>
#include <sstream>
#include <map>
#include <set>

#include "vh.h"
#include "perfgen.h"
#include "tool.h"
#include "gcov.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "symbol_map.h"
#include "addr2line.h"
#include "profile.h"
#include "profile_symbol_list.h"
#include "sample_reader.h"
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
ABSL_DECLARE_FLAG(bool, use_lbr);
ABSL_DECLARE_FLAG(bool, llc_misses);
ABSL_DECLARE_FLAG(bool, use_discriminator_encoding);
using namespace devtools_crosstool_autofdo;
using namespace vh;

static std::string g_tmp;
static const char* Intern(const std::string& s) {
  static std::set<std::string>* pool = new std::set<std::string>();
  return pool->insert(s).first->c_str();
}
static int64_t LineOf(uint64_t off) { return static_cast<int32_t>(off >> 32); }
static Value Tree(const Symbol* s, bool incl) {
  Array p, c;
  for (auto& [off, info] : s->pos_counts) {
    Array t;
    for (auto& [n, k] : info.target_map) t.push_back(Array{n, Cnt(k)});
    p.push_back(Array{LineOf(off), static_cast<int64_t>(off & 0xffffffff), Cnt(info.count), static_cast<int64_t>(info.num_inst), std::move(t)});
  }
  std::vector<std::pair<Callsite, Symbol*>> v(s->callsites.begin(), s->callsites.end());
  std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return CallsiteLessThan()(a.first, b.first); });
  for (auto& [k, x] : v)
    c.push_back(Array{LineOf(k.location), static_cast<int64_t>(k.location & 0xffffffff), k.callee_name, Tree(x, incl)});
  Object o{{"t", Cnt(s->total_count)}, {"h", Cnt(s->head_count)}, {"f", s->info.file_name}, {"d", s->info.dir_name}, {"p", std::move(p)}, {"c", std::move(c)}};
  if (incl) o["incl"] = Cnt(s->total_count_incl);
  return std::move(o);
}
// Functions with all their names.
static Value State(const SymbolMap& m, bool incl = false) {
  std::map<const Symbol*, std::vector<std::string>> g;
  std::vector<const Symbol*> order;
  for (auto& [n, s] : m.map()) {
    if (!g.count(s)) order.push_back(s);
    g[s].push_back(n);
  }
  Array a;
  for (auto* s : order) {
    Array names;
    for (auto& n : g[s]) names.push_back(n);
    a.push_back(Object{{"names", std::move(names)}, {"x", Tree(s, incl)}});
  }
  return std::move(a);
}
// Names by their hash.
static std::map<std::string, std::string> g_hash;
static std::string NameOf(const llvm::sampleprof::FunctionId& f) {
  std::string s = f.str();
  auto it = g_hash.find(s);
  return it == g_hash.end() ? s : it->second;
}
static Value LTree(const llvm::sampleprof::FunctionSamples& f) {
  Array p, c;
  for (auto& [loc, rec] : f.getBodySamples()) {
    std::map<std::string, uint64_t> tg;
    for (auto& t : rec.getCallTargets()) tg[NameOf(t.first)] += t.second;
    Array t;
    for (auto& [n, k] : tg) t.push_back(Array{n, Cnt(k)});
    p.push_back(Array{static_cast<int64_t>(loc.LineOffset), static_cast<int64_t>(loc.Discriminator), Cnt(rec.getSamples()), std::move(t)});
  }
  for (auto& [loc, m] : f.getCallsiteSamples()) {
    std::map<std::string, const llvm::sampleprof::FunctionSamples*> s;
    for (auto& [n, x] : m) s[NameOf(x.getFunction())] = &x;
    for (auto& [n, x] : s) c.push_back(Array{static_cast<int64_t>(loc.LineOffset), static_cast<int64_t>(loc.Discriminator), n, LTree(*x)});
  }
  return Object{{"t", Cnt(f.getTotalSamples())}, {"h", Cnt(f.getHeadSamples())}, {"p", std::move(p)}, {"c", std::move(c)}};
}
static Value LState(const llvm::sampleprof::SampleProfileMap& m) {
  std::map<std::string, const llvm::sampleprof::FunctionSamples*> s;
  for (auto& kv : m) s[NameOf(kv.second.getFunction())] = &kv.second;
  Array a;
  for (auto& [n, f] : s) a.push_back(Array{n, LTree(*f)});
  return std::move(a);
}
static Array Summary(const ProfileSummaryInformation& i) {
  Array d;
  for (auto& x : i.detailed_summaries_)
    d.push_back(Array{static_cast<int64_t>(x.cutoff_), Cnt(x.min_count_), static_cast<int64_t>(x.num_counts_)});
  return Array{Cnt(i.total_count_), Cnt(i.max_count_), Cnt(i.max_function_count_), static_cast<int64_t>(i.num_counts_), static_cast<int64_t>(i.num_functions_), std::move(d)};
}
static SourceStack Stack(const Array& a) {
  SourceStack s;
  for (const Value& v : a) {
    const Object& f = *v.getAsObject();
    s.push_back(SourceInfo(Intern(S(f, "fn")), S(f, "d"), S(f, "f"), I(f, "s"), I(f, "l"), I(f, "raw", I(f, "x"))));
  }
  return s;
}
// Source stacks as a script gives them.
class Stacks : public Addr2line {
 public:
  Stacks() : Addr2line("") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, SourceStack* s) const override {
    auto it = at.find(a);
    if (it != at.end()) *s = it->second;
  }
  std::map<uint64_t, SourceStack> at;
};
// Samples as a script gives them.
class Samples : public SampleReader {
 public:
  explicit Samples(const Object& o) {
    for (const Value& v : A(o, "ad")) address_count_map_[AI(v, 0)] = Up(AI(v, 1));
    for (const Value& v : A(o, "ts")) address_timestamp_map_[AI(v, 0)] = AI(v, 1) == 0 ? 0 : AI(v, 1) + (1ULL << 40);
    for (const Value& v : A(o, "rg")) {
      const Value& k = (*v.getAsArray())[0];
      range_count_map_[{AI(k, 0), AI(k, 1)}] = Up(AI(v, 1));
    }
    for (const Value& v : A(o, "br")) {
      const Value& k = (*v.getAsArray())[0];
      branch_count_map_[{AI(k, 0), AI(k, 1)}] = Up(AI(v, 1));
    }
    total_count_ = Up(I(o, "tot"));
  }

 protected:
  bool Read() override { return true; }
};
static int64_t Time(const Symbol* s) { return s->timestamp == 0 ? 0 : static_cast<int64_t>(s->timestamp - (1ULL << 40)); }
static Array Times(const SymbolMap& m) {
  Array a;
  for (auto& [n, s] : m.map()) a.push_back(Array{n, Time(s)});
  return a;
}
static Array ListOf(llvm::sampleprof::ProfileSymbolList& l, const Array& names) {
  Array a;
  for (const Value& v : names) {
    std::string n = S(*v.getAsObject(), "name");
    if (l.contains(n)) a.push_back(n);
  }
  // A name no script knows about.
  if (static_cast<size_t>(l.size()) != a.size()) a.push_back("?");
  return a;
}
static std::vector<uint8_t> Bytes(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
// Walks a version 1 GCC profile by the format's description only and returns
// what the file declares and holds, or nothing if it does not parse.
static Array Declared(const std::string& path) {
  auto b = Bytes(path);
  size_t w = 0, n = b.size() / 4;
  bool bad = b.size() % 4 != 0;
  auto U = [&]() -> int64_t {
    if (w >= n) { bad = true; return 0; }
    uint32_t v;
    memcpy(&v, &b[4 * w], 4);
    w++;
    return v;
  };
  auto Skip = [&](int64_t k) { for (; k > 0 && !bad; k--) U(); };
  Array r;
  r.push_back(U() == GCOV_DATA_MAGIC);
  r.push_back(U());
  U();
  r.push_back(U() == GCOV_TAG_AFDO_FILE_NAMES);
  int64_t len = U();
  size_t at = w;
  int64_t strings = U();
  for (int64_t i = 0; i < strings && !bad; i++) Skip(U());
  r.push_back(strings);
  r.push_back(len == static_cast<int64_t>(w - at));
  r.push_back(U() == GCOV_TAG_AFDO_FUNCTION);
  len = U();
  at = w;
  int64_t funcs = U();
  std::function<void()> node = [&]() {
    U();  // name
    int64_t np = U(), nc = U();
    for (int64_t i = 0; i < np && !bad; i++) {
      U();
      int64_t nt = U();
      Skip(2);
      Skip(5 * nt);
    }
    for (int64_t i = 0; i < nc && !bad; i++) {
      U();
      node();
    }
  };
  for (int64_t i = 0; i < funcs && !bad; i++) {
    Skip(2);
    node();
  }
  r.push_back(funcs);
  r.push_back(len == static_cast<int64_t>(w - at));
  r.push_back(U() == GCOV_TAG_MODULE_GROUPING);
  Skip(2);
  r.push_back(U() == GCOV_TAG_AFDO_WORKING_SET);
  len = U();
  r.push_back(len == static_cast<int64_t>(n - w));
  r.push_back(!bad);
  return r;
}

// What a tool printed about a profile: functions, positions and inlined calls.
static Array Printed(const std::string& text) {
  Array r;
  std::istringstream in(text);
  std::string line;
  auto num = [](const std::string& s) -> int64_t {
    return s.empty() || s.find_first_not_of("0123456789") != std::string::npos ? kBad : Cnt(strtoull(s.c_str(), nullptr, 10));
  };
  while (std::getline(in, line)) {
    size_t ind = line.find_first_not_of(' ');
    if (ind == std::string::npos) ind = 0;
    std::string s = line.substr(ind);
    unsigned ln = 0, disc = 0;
    if (ind != 0) {
      size_t c = s.find(": ");
      if (c == std::string::npos || sscanf(s.c_str(), "%u.%u", &ln, &disc) < 1) { r.push_back(line); continue; }
      s = s.substr(c + 2);
    }
    size_t t = s.rfind(" total:");
    if (t != std::string::npos) {
      std::string who = s.substr(0, s.find(':')), rest = s.substr(t + 7);
      if (ind == 0) {
        std::istringstream f(rest);
        std::string tot, head, tag, ts;
        f >> tot >> head >> tag >> ts;
        uint64_t when = strtoull(ts.c_str(), nullptr, 10);
        bool ok = head.rfind("head:", 0) == 0 && tag == "timestamp:";
        r.push_back(Array{"F", who, num(tot), ok ? num(head.substr(5)) : kBad, static_cast<int64_t>(when == 0 ? 0 : when - (1ULL << 40))});
      } else {
        r.push_back(Array{"C", static_cast<int64_t>(ind), static_cast<int64_t>(ln), static_cast<int64_t>(disc), who, num(rest)});
      }
      continue;
    }
    Array tg;
    size_t p = s.find("  ");
    std::string n = s.substr(0, p);
    while (p != std::string::npos) {
      size_t q = s.find("  ", p + 2);
      std::string one = s.substr(p + 2, q == std::string::npos ? q : q - p - 2);
      tg.push_back(Array{one.substr(0, one.find(':')), num(one.substr(one.rfind(':') + 1))});
      p = q;
    }
    r.push_back(Array{"P", static_cast<int64_t>(ind), static_cast<int64_t>(ln), static_cast<int64_t>(disc), num(n), std::move(tg)});
  }
  return r;
}
// Percentages, in ten thousandths, and names; last the overlap.
static Array Compared(const std::string& text) {
  Array r;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    double a, b;
    int at = 0;
    if (sscanf(line.c_str(), "%lf%% %lf%% %n", &a, &b, &at) == 2 && at)
      r.push_back(Array{std::isnan(a) ? -1 : static_cast<int64_t>(a * 10000 + .5), std::isnan(b) ? -1 : static_cast<int64_t>(b * 10000 + .5), line.substr(at)});
    else
      r.push_back(static_cast<int64_t>(atof(line.c_str()) * 10000 + .5));
  }
  return r;
}
// Writes a recording of the binary, and reads a twin of it, in which it and
// everything else have plain names, into tables.
static void Record(const Object& op, const std::string& bin, const std::string& path, const std::string& twin, Object& e) {
  std::string base = bin.substr(bin.rfind('/') + 1) + ".bin";
  auto build = [&](bool plain) {
    quipper::PerfDataProto p;
    for (const Value& v : A(op, "maps")) {
      const Object& x = *v.getAsObject();
      std::string name;
      for (const Value& c : A(x, "name")) {
        std::string part = c.getAsString()->str();
        size_t i = part.find('@');
        if (i != std::string::npos) part.replace(i, 1, base);
        name += (name.empty() && &c == &A(x, "name")[0] ? "" : "/") + part;
      }
      if (plain) name = Bo(x, "own") ? "/own/prog" : "/other/lib";
      if (!plain && !S(x, "bid").empty()) {
        auto* b = p.add_build_ids();
        b->set_filename(name);
        b->set_build_id_hash(Unhex(S(x, "bid")));
      }
      auto* pe = p.add_events();
      pe->set_timestamp(1);
      auto* mm = pe->mutable_mmap_event();
      mm->set_pid(1);
      mm->set_start(I(x, "start") + (1ULL << 46));
      mm->set_len(I(x, "len"));
      mm->set_pgoff(I(x, "pgoff"));
      mm->set_filename(name);
    }
    for (const Value& v : A(op, "samples")) {
      const Object& x = *v.getAsObject();
      for (int64_t i = 0; i < I(x, "n", 1); i++) {
        auto* pe = p.add_events();
        pe->set_timestamp((1ULL << 40) + I(x, "ts") + i);
        auto* s = pe->mutable_sample_event();
        s->set_pid(1);
        s->set_ip(I(x, "ip") + (1ULL << 46));
        for (const Value& bv : A(x, "stack")) {
          auto* be = s->add_branch_stack();
          be->set_from_ip(AI(bv, 0) + (1ULL << 46));
          be->set_to_ip(AI(bv, 1) + (1ULL << 46));
        }
      }
    }
    return p;
  };
  SaveProto(build(false), path);
  SaveProto(build(true), twin);
  PerfDataSampleReader r(twin, "/own/prog$", "");
  r.ReadAndSetTotalCount();
  Array ad, rg, br, ts;
  for (auto& [a, c] : r.address_count_map()) ad.push_back(Array{static_cast<int64_t>(a), static_cast<int64_t>(c)});
  for (auto& [a, c] : r.range_count_map()) rg.push_back(Array{Array{static_cast<int64_t>(a.first), static_cast<int64_t>(a.second)}, static_cast<int64_t>(c)});
  for (auto& [a, c] : r.branch_count_map()) br.push_back(Array{Array{static_cast<int64_t>(a.first), static_cast<int64_t>(a.second)}, static_cast<int64_t>(c)});
  for (auto& [a, c] : r.address_timestamp_map()) ts.push_back(Array{static_cast<int64_t>(a), static_cast<int64_t>(c - (1ULL << 40))});
  e["ad"] = std::move(ad);
  e["rg"] = std::move(rg);
  e["br"] = std::move(br);
  e["ts"] = std::move(ts);
  e.erase("samples");
}

static void Run(const Object& o) {
  const char* t = getenv("VH_TMP");
  g_tmp = std::string(t ? t : "/tmp") + "/" + std::to_string(getpid());
  std::vector<std::unique_ptr<SymbolMap>> M(8);
  std::vector<std::unique_ptr<ProfileReader>> keep;
  absl::node_hash_set<std::string> lnames;
  const char* strip[] = {"strip"};
  const char* sole[] = {"sole"};
  const char* cold[] = {"keepcold"};
  SpecialSyms special(strip, 1, sole, 1, cold, 1);
  std::map<std::string, uint64_t> rd;
  Emit("Names", {{"tab", C(A(o, "names"))}});
  for (const Value& v : A(o, "names")) {
    std::string n = S(*v.getAsObject(), "name");
    g_hash[std::to_string(llvm::sampleprof::FunctionId(llvm::StringRef(n)).getHashCode())] = n;
  }
  std::vector<std::string> files;
  for (const Value& v : A(o, "ops")) {
    const Object& op = *v.getAsObject();
    std::string k = S(op, "op");
    int m = I(op, "m");
    Object e(op);
    auto Map = [&](int i) -> SymbolMap& { return *M[i]; };
    auto Done = [&]() {
      e["st"] = State(Map(m));
      Emit("Op", std::move(e));
    };
    // What a file in the LLVM format holds.
    auto Held = [&](const std::string& p) {
      llvm::LLVMContext ctx;
      auto rr = llvm::sampleprof::SampleProfileReader::create(p, ctx, *llvm::vfs::getRealFileSystem());
      if (rr) (*rr)->setDiscriminatorMaskedBitFrom(llvm::sampleprof::PassLast);
      if (rr) {
        auto is = (*rr)->getFormat();
        e["is"] = is == llvm::sampleprof::SPF_Text ? "text" : is == llvm::sampleprof::SPF_Binary ? "binary" : is == llvm::sampleprof::SPF_Ext_Binary ? "extbinary" : "?";
      }
      if (rr && !(*rr)->read()) {
        e["out"] = LState((*rr)->getProfiles());
        e["partial"] = (*rr)->getSummary().isPartialProfile();
        std::string info;
        llvm::raw_string_ostream is(info);
        (*rr)->dumpSectionInfo(is);
        is.flush();
        e["zip"] = info.find("compressed") != std::string::npos;
        e["md5"] = (*rr)->useMD5();
        auto l = (*rr)->getProfileSymbolList();
        e["has"] = l ? ListOf(*l, A(o, "names")) : Array{};
      } else {
        e["out"] = Array{Array{"?", "unreadable"}};
      }
    };
    auto Path = [&]() {
      std::string p = g_tmp + "." + S(op, "file");
      files.push_back(p);
      return p;
    };
    if (k == "new") {
      M[m] = std::make_unique<SymbolMap>();
      M[m]->set_suffix_elision_policy(S(op, "pol"));
      Done();
    } else if (k == "newbin") {
      std::string p = g_tmp + (Bo(op, "ko") ? ".bin.ko" : ".bin");
      files.push_back(p);
      std::ofstream(p, std::ios::binary) << Unhex(S(op, "elf"));
      e.erase("elf");
      if (Bo(op, "unstripped")) {
        files.push_back(p + ".unstripped");
        std::ofstream(files.back(), std::ios::binary) << Unhex(S(op, "elf"));
      }
      M[m] = std::make_unique<SymbolMap>(p);
      M[m]->set_suffix_elision_policy(S(op, "pol"));
      e["fs"] = SourceInfo::use_fs_discriminator;
      M[m]->ReadLoadableExecSegmentInfo(Bo(op, "kernel"));
      Done();
    } else if (k == "at") {
      Array r, by;
      for (const Value& x : A(op, "as")) {
        const std::string* n = nullptr;
        uint64_t b = 0, z = 0;
        if (Map(m).GetSymbolInfoByAddr(UpA(*x.getAsInteger()), &n, &b, &z)) r.push_back(Array{*n, Adr(b), Adr(z)});
        else r.push_back(Array{"", 0, 0});
        n = Map(m).GetSymbolNameByStartAddr(UpA(*x.getAsInteger()));
        by.push_back(n ? *n : "");
      }
      e["out"] = std::move(r);
      e["by"] = std::move(by);
      Emit("Op", std::move(e));
    } else if (k == "vaddr") {
      Array r;
      for (const Value& x : A(op, "os")) r.push_back(Adr(Map(m).get_static_vaddr(*x.getAsInteger())));
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "offs") {
      Array r;
      for (const Value& x : A(op, "vs")) r.push_back(static_cast<int64_t>(Map(m).GetFileOffsetFromStaticVaddr(UpA(*x.getAsInteger()))));
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "sampled") {
      std::set<uint64_t> in;
      for (const Value& x : A(op, "os")) in.insert(*x.getAsInteger());
      Array r;
      for (auto& [a, z] : Map(m).GetSampledSymbolStartAddressSizeMap(in)) r.push_back(Array{Adr(a), static_cast<int64_t>(z)});
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "fill" || k == "symlist") {
      llvm::sampleprof::ProfileSymbolList l;
      NameSizeList q;
      if (k == "fill") {
        for (const Value& x : A(op, "q")) q.emplace_back(Intern(S(*x.getAsObject(), "nm")), Up(I(*x.getAsObject(), "z")));
      } else {
        q = Map(m).collectNamesForProfSymList();
      }
      fillProfileSymbolList(&l, q, &Map(m), static_cast<double>(I(op, "a")) / I(op, "b"));
      e["out"] = ListOf(l, A(o, "names"));
      Emit("Op", std::move(e));
    } else if (k == "compute") {
      absl::SetFlag(&FLAGS_use_lbr, S(op, "mode") == "lbr");
      absl::SetFlag(&FLAGS_llc_misses, S(op, "mode") == "llc");
      absl::SetFlag(&FLAGS_sample_threshold_frac, I(op, "frac") / 64.0);
      absl::SetFlag(&FLAGS_use_discriminator_encoding, Bo(op, "enc"));
      auto st = std::make_unique<Stacks>();
      for (const Value& v : A(op, "src")) st->at[UpA(AI(v, 0))] = Stack(*(*v.getAsArray())[1].getAsArray());
      Stacks* raw = st.get();
      Map(m).set_addr2line(std::move(st));
      Samples q(op);
      Profile p(&q, "", raw, &Map(m));
      p.ComputeProfile(Bo(op, "check"));
      e["r"] = g_unit == 1 ? Map(m).count_threshold() : I(op, "floor");
      e["times"] = Times(Map(m));
      Done();
    } else if (k == "srcs") {
      // The stacks the debug information gives.
      std::unique_ptr<Addr2line> a2l(Addr2line::Create(g_tmp + ".bin"));
      Array all;
      for (const Value& x : A(op, "as")) {
        SourceStack st;
        if (a2l) a2l->GetInlineStack(UpA(*x.getAsInteger()), &st);
        if (st.empty()) continue;
        Array fs;
        for (auto& f : st)
          fs.push_back(Object{{"fn", f.func_name ? f.func_name : ""}, {"f", f.file_name}, {"d", f.dir_name},
                              {"s", static_cast<int64_t>(f.start_line)}, {"l", static_cast<int64_t>(f.line)}, {"raw", static_cast<int64_t>(f.discriminator)}});
        all.push_back(Array{*x.getAsInteger(), std::move(fs)});
      }
      e["src"] = std::move(all);
      e.erase("as");
      Emit("Op", std::move(e));
    } else if (k == "put") {
      std::ofstream(Path()) << S(op, "text");
      e.erase("text");
      Emit("Op", std::move(e));
    } else if (k == "record") {
      Record(op, g_tmp, Path(), g_tmp + ".twin", e);
      files.push_back(g_tmp + ".twin");
      Emit("Op", std::move(e));
    } else if (k == "sym") {
      Map(m).AddSymbol(S(op, "name"));
      Done();
    } else if (k == "alias") {
      Map(m).AddAlias(S(op, "name"), S(op, "alias"));
      Done();
    } else if (k == "src") {
      SymbolMap::DataSource ds = Bo(op, "strict") ? (Bo(op, "proto") ? SymbolMap::AFDOPROTO : SymbolMap::PERFDATA) : SymbolMap::AFDOPROFILE;
      Map(m).AddSourceCount(S(op, "name"), Stack(A(op, "stack")), Up(I(op, "n")), I(op, "inst"), I(op, "dup", 1), ds);
      Done();
    } else if (k == "many") {
      // Many positions with the same count.
      for (int64_t i = 1; i <= I(op, "k"); i++) {
        std::string fn = S(op, "name");
        SourceStack one;
        one.push_back(SourceInfo(fn.c_str(), std::string(), std::string(), 10, 20010 + i, 0));
        Map(m).AddSourceCount(S(op, "name"), one, Up(I(op, "n")), 1, 1, SymbolMap::PERFDATA);
      }
      Done();
    } else if (k == "call") {
      SymbolMap::DataSource ds = Bo(op, "strict") ? (Bo(op, "proto") ? SymbolMap::AFDOPROTO : SymbolMap::PERFDATA) : SymbolMap::AFDOPROFILE;
      e["r"] = Map(m).AddIndirectCallTarget(S(op, "name"), Stack(A(op, "stack")), S(op, "to"), Up(I(op, "n")), ds);
      Done();
    } else if (k == "entry") {
      Map(m).AddSymbolEntryCount(S(op, "name"), Up(I(op, "h")), Up(I(op, "n")));
      Done();
    } else if (k == "elide") {
      Map(m).ElideSuffixesAndMerge();
      Done();
    } else if (k == "orig") {
      e["r"] = Map(m).GetOriginalName(S(op, "name"));
      Emit("Op", std::move(e));
    } else if (k == "thr") {
      Map(m).set_count_threshold(I(op, "n") * g_unit);
      Done();
    } else if (k == "calcthr") {
      absl::SetFlag(&FLAGS_sample_threshold_frac, I(op, "a") / 64.0);
      SymbolMap& s = Map(m);
      s.set_count_threshold(0);
      if (Bo(op, "sum")) s.CalculateThreshold();
      else s.CalculateThresholdFromTotalCount(I(op, "n"));
      e["r"] = s.count_threshold();
      Done();
    } else if (k == "emits") {
      Array r;
      for (const Value& x : A(op, "ns")) r.push_back(Map(m).ShouldEmit(*x.getAsInteger() * g_unit));
      e["r"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "writegcc") {
      absl::SetFlag(&FLAGS_gcov_version, static_cast<uint64_t>(I(op, "ver")));
      AutoFDOProfileWriter w(&Map(m), I(op, "ver"));
      std::string p = Path();
      e["r"] = w.WriteToFile(p);
      if (I(op, "ver") == 1) e["decl"] = Declared(p);
      Done();
    } else if (k == "readgcc") {
      absl::SetFlag(&FLAGS_gcov_version, static_cast<uint64_t>(7));
      auto r = std::make_unique<AutoFDOProfileReader>(&Map(m), Bo(op, "force"));
      e["r"] = r->ReadFromFile(Path());
      if (auto* s = r->GetSummaryInformation()) e["summary"] = Summary(*s);
      keep.push_back(std::move(r));
      Done();
    } else if (k == "ran") {
      Map(m).AddSymbolTimestamp(S(op, "name"), I(op, "v") == 0 ? 0 : I(op, "v") + (1ULL << 40));
      Emit("Op", std::move(e));
    } else if (k == "times") {
      e["times"] = Times(Map(m));
      Emit("Op", std::move(e));
    } else if (k == "conv") {
      StringIndexMap names;
      FileIndexMap fm;
      StringTableUpdater::Update(Map(m), &names, &fm);
      LLVMProfileBuilder b(names);
      e["out"] = LState(b.ConvertProfiles(Map(m)));
      Emit("Op", std::move(e));
    } else if (k == "writellvm") {
      std::string f = S(op, "fmt");
      LLVMProfileWriter w(f == "text" ? llvm::sampleprof::SPF_Text : f == "binary" ? llvm::sampleprof::SPF_Binary : llvm::sampleprof::SPF_Ext_Binary);
      w.setSymbolMap(&Map(m));
      std::string p = Path();
      llvm::sampleprof::ProfileSymbolList list;
      if (op.getArray("list")) {
        for (const Value& x : A(op, "list")) list.add(Intern(x.getAsString()->str()));
        w.CreateSampleWriter(p)->setProfileSymbolList(&list);
      }
      e["r"] = w.WriteToFile(p);
      if (f == "none") { Emit("Op", std::move(e)); continue; }
      if (w.GetSampleProfileWriter()) w.GetSampleProfileWriter()->getOutputStream().flush();
      Held(p);
      Emit("Op", std::move(e));
    } else if (k == "tool") {
      std::vector<std::string> args;
      for (const Value& x : A(op, "args")) {
        std::string a = x.getAsString()->str();
        for (size_t i; (i = a.find("@{")) != std::string::npos;) {
          size_t j = a.find('}', i);
          std::string f = g_tmp + "." + a.substr(i + 2, j - i - 2);
          files.push_back(f);
          a = a.substr(0, i) + f + a.substr(j + 1);
        }
        args.push_back(a);
      }
      std::string text, want = S(op, "want");
      int rc = RunTool(S(op, "tool"), args, &text);
      if (rc == 99) _exit(3);
      e.erase("args");
      e["rc"] = rc;
      if (!S(op, "file").empty()) {
        std::string p = Path();
        e["exists"] = access(p.c_str(), F_OK) == 0;
        if (rc == 0 && want == "llvm") Held(p);
      }
      if (want == "dump") e["out"] = Printed(text);
      if (want == "diff") e["out"] = Compared(text);
      Emit("Op", std::move(e));
    } else if (k == "readllvm") {
      auto r = std::make_unique<LLVMProfileReader>(&Map(m), lnames, Bo(op, "special") ? &special : nullptr);
      e["r"] = r->ReadFromFile(Path());
      keep.push_back(std::move(r));
      Done();
    } else if (k == "incl") {
      Map(m).ComputeTotalCountIncl();
      e["st"] = State(Map(m), true);
      Emit("Op", std::move(e));
    } else if (k == "ratio") {
      Map(m).UpdateWithRatio(static_cast<double>(I(op, "a")) / I(op, "b"));
      Done();
    } else if (k == "sum") {
      e["r"] = Cnt(Map(m).GetTotalSum());
      Emit("Op", std::move(e));
    } else if (k == "remove") {
      Map(m).RemoveSymbol(S(op, "name"));
      Done();
    } else if (k == "removere") {
      Map(m).RemoveSymsMatchingRegex(S(op, "re"));
      Done();
    } else if (k == "throttle") {
      Map(m).throttleInlineInstancesAtSameLocation(I(op, "max"));
      Done();
    } else if (k == "trim") {
      Map(m).TrimCallTargets(I(op, "max"));
      Done();
    } else if (k == "hybrid") {
      uint64_t a = 0, b = 0;
      Map(m).BuildHybridProfile(Map(I(op, "from")), Up(I(op, "n")), a, b);
      e["r"] = Array{static_cast<int64_t>(a), static_cast<int64_t>(b)};
      Done();
    } else if (k == "flat") {
      uint64_t a = 0, b = 0;
      Map(m).BuildFlatProfile(Map(I(op, "from")), Bo(op, "sel"), Up(I(op, "n")), a, b);
      e["r"] = Array{static_cast<int64_t>(a), static_cast<int64_t>(b)};
      Done();
    } else if (k == "limit") {
      e["r"] = Map(m).FlattenNestedInlineCallsites(I(op, "max"));
      Done();
    } else if (k == "ws") {
      Map(m).ComputeWorkingSets();
      Array r;
      for (int i = 0; i < NUM_GCOV_WORKING_SETS; i++)
        r.push_back(Array{static_cast<int64_t>(Map(m).GetWorkingSets()[i].num_counters), Cnt(Map(m).GetWorkingSets()[i].min_counter)});
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "upws") {
      Map(m).UpdateWorkingSet(I(op, "i"), I(op, "num"), Up(I(op, "n")));
      Emit("Op", std::move(e));
    } else if (k == "getws") {
      Array r;
      for (int i = 0; i < NUM_GCOV_WORKING_SETS; i++)
        r.push_back(Array{static_cast<int64_t>(Map(m).GetWorkingSets()[i].num_counters), Cnt(Map(m).GetWorkingSets()[i].min_counter)});
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "summary") {
      std::vector<uint32_t> cut;
      for (const Value& x : A(op, "cuts")) cut.push_back(*x.getAsInteger() * 1000);
      e["out"] = Summary(ProfileSummaryComputer::Compute(Map(m), cut));
      Emit("Op", std::move(e));
    } else if (k == "overlap") {
      e["r"] = static_cast<int64_t>(Map(m).Overlap(Map(I(op, "with"))) * 10000.0 + 0.5);
      Emit("Op", std::move(e));
    } else if (k == "first") {
      const Symbol* s = Map(m).GetSymbolByName(S(op, "name"));
      e["r"] = s ? Cnt(s->EntryCount()) : -1;
      Emit("Op", std::move(e));
    } else if (k == "names") {
      Array r;
      std::set<std::string> s;
      for (auto& x : Map(m).collectNamesInProfile()) s.insert(x.getKey().str());
      for (auto& x : s) r.push_back(x);
      e["out"] = std::move(r);
      Emit("Op", std::move(e));
    } else if (k == "valid") {
      e["r"] = Map(m).Validate();
      Emit("Op", std::move(e));
    } else {
      _exit(3);
    }
  }
  for (auto& f : files) unlink(f.c_str());
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

// Drives raw sample profiles (sample_reader.h) and the merging tool.
#include <fstream>

#include "profile_creator.h"
#include "sample_reader.h"
#include "vh.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

static Object Project(const SampleReader& r, const Array& probes) {
  Array a, rr, b, s, p;
  for (auto& [k, c] : r.address_count_map()) a.push_back(Array{Adr(k), Cnt(c)});
  for (auto& [k, c] : r.range_count_map())
    rr.push_back(Array{Array{Adr(k.first), Adr(k.second)}, Cnt(c)});
  for (auto& [k, c] : r.branch_count_map())
    b.push_back(Array{Array{Adr(k.first), Adr(k.second)}, Cnt(c)});
  for (uint64_t k : r.GetSampledAddresses()) s.push_back(Adr(k));
  for (size_t i = 0; i < probes.size(); i++)
    p.push_back(Array{AI(probes, i), Cnt(r.GetSampleCountOrZero(UpA(AI(probes, i))))});
  return Object{{"a", std::move(a)},       {"r", std::move(rr)},
                {"b", std::move(b)},       {"sampled", std::move(s)},
                {"total", Cnt(r.GetTotalSampleCount())}, {"probe", std::move(p)}};
}

// What a file of the text format says, and what follows its three tables.
static Object Text(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::string t((std::istreambuf_iterator<char>(in)), {});
  size_t at = 0;
  bool good = true;
  auto number = [&](int base) {
    size_t n = 0;
    uint64_t v = 0;
    try {
      if (at >= t.size() || !isxdigit(t[at])) throw 0;
      v = std::stoull(t.substr(at), &n, base);
    } catch (...) {
      good = false;
    }
    at += n;
    return v;
  };
  auto skip = [&](const char* w) {
    size_t n = strlen(w);
    if (t.compare(at, n, w)) good = false;
    at += n;
  };
  Array q[3];
  for (int i = 0; i < 3 && good; i++) {
    static const int order[] = {1, 0, 2};
    static const char* sep[] = {"-", "", "->"};
    uint64_t n = number(10);
    skip("\n");
    while (good && n--) {
      uint64_t from = number(16), to = 0;
      if (*sep[i]) skip(sep[i]), to = number(16);
      skip(":");
      uint64_t c = number(10);
      skip("\n");
      q[order[i]].push_back(Array{*sep[i] ? Value(Array{Adr(from), Adr(to)}) : Value(Adr(from)), Cnt(c)});
    }
  }
  return Object{{"a", std::move(q[0])}, {"r", std::move(q[1])}, {"b", std::move(q[2])},
                {"rest", good && at <= t.size() ? t.substr(at) : "bad"}};
}

static void Run(const Object& o) {
  std::string dir = std::string(getenv("VH_TMP")) + "/";
  Array probes{0, 1, 3, 4, 7, 100};
  std::map<std::string, std::unique_ptr<TextSampleReaderWriter>> m;
  for (const char* n : {"x", "y", "z"}) m[n] = std::make_unique<TextSampleReaderWriter>();
  for (const char* n : {"f", "g", "h"}) unlink((dir + n).c_str());
  for (const Value& v : A(o, "ops")) {
    const Array& p = *v.getAsArray();
    std::string op = AS(p, 0), x = AS(p, 1);
    if (op == "IncA") {
      m[x]->IncAddress(UpA(AI(p, 2)), Up(AI(p, 3)));
      Emit("IncA", {{"x", x}, {"k", AI(p, 2)}, {"n", AI(p, 3)}, {"st", Project(*m[x], probes)}});
    } else if (op == "IncR") {
      m[x]->IncRange(UpA(AI(p, 2)), UpA(AI(p, 3)), Up(AI(p, 4)));
      Emit("IncR", {{"x", x}, {"f", AI(p, 2)}, {"t", AI(p, 3)}, {"n", AI(p, 4)}, {"st", Project(*m[x], probes)}});
    } else if (op == "IncB") {
      m[x]->IncBranch(UpA(AI(p, 2)), UpA(AI(p, 3)), Up(AI(p, 4)));
      Emit("IncB", {{"x", x}, {"f", AI(p, 2)}, {"t", AI(p, 3)}, {"n", AI(p, 4)}, {"st", Project(*m[x], probes)}});
    } else if (op == "SetA") {
      AddressCountMap tab;
      for (const Value& e : *p[2].getAsArray()) {
        const Array& kv = *e.getAsArray();
        tab[UpA(AI(kv, 0))] = Up(AI(kv, 1));
      }
      m[x]->SetAddressCountMap(tab);
      Emit("SetA", {{"x", x}, {"tab", Value(p[2])}, {"st", Project(*m[x], probes)}});
    } else if (op == "Clear") {
      m[x]->Clear();
      Emit("Clear", {{"x", x}, {"st", Project(*m[x], probes)}});
    } else if (op == "Merge") {
      m[x]->Merge(*m[AS(p, 2)]);
      Emit("Merge", {{"x", x}, {"y", AS(p, 2)}, {"st", Project(*m[x], probes)}});
    } else if (op == "Write") {
      m[x]->set_profile_file(dir + AS(p, 2));
      bool ok = m[x]->Write(p.size() > 3 ? "aux: 1 2 3\n" : nullptr);
      Emit("Write", {{"x", x}, {"f", AS(p, 2)}, {"ok", ok}, {"st", Project(*m[x], probes)},
                     {"aux", p.size() > 3 ? "aux: 1 2 3\n" : ""}, {"tx", Text(dir + AS(p, 2))}});
    } else if (op == "Append") {
      bool ok = m[x]->Append(dir + AS(p, 2));
      Emit("Append", {{"x", x}, {"f", AS(p, 2)}, {"ok", ok}, {"st", Project(*m[x], probes)}});
    } else if (op == "Read") {
      TextSampleReaderWriter r(dir + x);
      bool ok = r.ReadAndSetTotalCount();
      Emit("Read", {{"f", x}, {"ok", ok}, {"st", Project(r, probes)}, {"instr", Cnt(r.GetTotalCount())}});
    } else if (op == "Tool") {
      // ["Tool", out, [files]]: the merge the sample_merger tool performs.
      std::vector<std::string> files;
      Array names;
      for (const Value& f : *p[2].getAsArray()) {
        names.push_back(f.getAsString()->str());
        files.push_back(dir + f.getAsString()->str());
      }
      bool ok = MergeSample(files, "text", "", dir + x);
      TextSampleReaderWriter r;
      r.Append(dir + x);
      Emit("Tool", {{"o", x}, {"files", std::move(names)}, {"ok", ok}, {"st", Project(r, probes)}, {"tx", Text(dir + x)}});
    }
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

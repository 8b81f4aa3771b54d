// Drives the provider of recordings over real and scripted files.
#include <map>
#include "llvm_propeller_file_perf_data_provider.h"
#include "vh.h"
using namespace devtools_crosstool_autofdo;
using namespace vh;

// Files that come and go under the script's control.
static std::map<std::string, std::string> g_files;
struct Reader : FileReader {
  absl::StatusOr<std::unique_ptr<llvm::MemoryBuffer>> ReadFile(absl::string_view n) override {
    auto it = g_files.find(std::string(n));
    if (it == g_files.end()) return absl::InternalError("no such file");
    return llvm::MemoryBuffer::getMemBufferCopy(it->second, it->first);
  }
};
// A provider that only knows the next recording.
struct OneByOne : PerfDataProvider {
  PerfDataProvider* p;
  absl::StatusOr<std::optional<BufferHandle>> GetNext() override { return p->GetNext(); }
};
static Array One(const PerfDataProvider::BufferHandle& b) {
  return Array{b.description, b.buffer->getBuffer().str()};
}
static std::string Content(int64_t n, const std::string& s) {
  std::string r;
  for (int64_t i = 0; i < n; i++) r += s;
  return r;
}

static void Run(const Object& o) {
  bool disk = Bo(o, "disk");
  const char* t = getenv("VH_TMP");
  std::string dir = std::string(t ? t : "/tmp") + "/r09." + std::to_string(getpid());
  if (disk) mkdir(dir.c_str(), 0700);
  auto Path = [&](const std::string& n) { return disk ? dir + "/" + n : n; };
  std::vector<std::string> names;
  for (const Value& v : A(o, "names")) names.push_back(Path(v.getAsString()->str()));
  std::unique_ptr<PerfDataProvider> p;
  if (disk) p = std::make_unique<GenericFilePerfDataProvider>(names);
  else p = std::make_unique<FilePerfDataProvider>(std::make_unique<Reader>(), names);
  OneByOne one;
  one.p = p.get();
  Array nm;
  for (auto& n : names) nm.push_back(n);
  Emit("Names", {{"names", std::move(nm)}});
  std::map<std::string, bool> made;
  for (const Value& v : A(o, "ops")) {
    Object e(*v.getAsObject());
    std::string op = S(e, "op");
    if (op == "put") {
      std::string n = Path(S(e, "name"));
      e["name"] = n;
      std::string c = Content(I(e, "n"), S(e, "c"));
      e["c"] = c;
      if (disk) std::ofstream(n, std::ios::binary) << c;
      else g_files[n] = c;
      made[n] = true;
    } else if (op == "del") {
      std::string n = Path(S(e, "name"));
      e["name"] = n;
      if (disk) unlink(n.c_str());
      g_files.erase(n);
    } else if (op == "next") {
      auto r = p->GetNext();
      e["ok"] = r.ok();
      Array a;
      if (r.ok() && r->has_value()) a.push_back(One(**r));
      e["r"] = std::move(a);
    } else {
      auto r = op == "all" ? p->GetAllAvailableOrNext() : one.GetAllAvailableOrNext();
      e["ok"] = r.ok();
      Array a;
      if (r.ok())
        for (auto& b : *r) a.push_back(One(b));
      e["r"] = std::move(a);
    }
    Emit("Op", std::move(e));
  }
  if (disk) {
    for (auto& [n, x] : made) unlink(n.c_str());
    rmdir(dir.c_str());
  }
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }

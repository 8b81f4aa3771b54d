// Runs scripts of writes and reads through gcov.h.
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <set>

#include "gcov.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "vh.h"

using namespace vh;

ABSL_DECLARE_FLAG(uint64_t, gcov_version);

namespace {
std::string Bytes(const Array& a) {
  std::string s;
  for (const Value& v : a) s.push_back(static_cast<char>(*v.getAsInteger()));
  return s;
}
Array List(const std::string& s) {
  Array a;
  for (unsigned char c : s) a.push_back(static_cast<int64_t>(c));
  return a;
}
uint64_t Num(const std::string& s) {
  uint64_t v = 0;
  for (size_t i = s.size(); i-- > 0;) v = v << 8 | static_cast<unsigned char>(s[i]);
  return v;
}
std::string Raw(uint64_t v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s.push_back(static_cast<char>(v >> (8 * i)));
  return s;
}

void Run(const Object& o) {
  std::string dir = std::string(getenv("VH_TMP")) + "/g" + std::to_string(getpid()) + ".";
  std::set<std::string> made;
  std::string name, mode;
  auto path = [&](const std::string& n) {
    return n == "full" ? std::string("/dev/full") : n == "none/x" ? dir + "none/x" : dir + n;
  };
  for (const Value& v : A(o, "ops")) {
    const Object& op = *v.getAsObject();
    Object e(op);
    std::string k = S(op, "op");
    if (k == "ver") {
      absl::SetFlag(&FLAGS_gcov_version, static_cast<uint64_t>(I(op, "v")));
      Emit("Ver", std::move(e));
    } else if (k == "open") {
      name = S(op, "name");
      mode = S(op, "mode");
      made.insert(name);
      bool ok = gcov_open(path(name).c_str(), mode == "w" ? -1 : 1) == 1;
      e["ok"] = ok;
      Emit("Open", std::move(e));
      if (!ok) break;
    } else if (k == "w") {
      std::string b = Bytes(A(op, "v"));
      std::string t = S(op, "k");
      if (t == "u") gcov_write_unsigned(Num(b));
      if (t == "c") gcov_write_counter(Num(b));
      if (t == "s") gcov_write_string(b.c_str());
      Emit("Write", std::move(e));
    } else if (k == "r") {
      std::string t = S(op, "k");
      if (t == "u") e["out"] = List(Raw(gcov_read_unsigned(), 4));
      if (t == "c") e["out"] = List(Raw(gcov_read_counter(), 8));
      if (t == "s") {
        const char* s = gcov_read_string();
        e["out"] = s ? List(s) : Array{-1};
      }
      Emit("Read", std::move(e));
    } else if (k == "close") {
      e["err"] = gcov_close() != 0;
      if (mode == "w" && name != "full") {
        std::ifstream in(path(name), std::ios::binary);
        std::string s((std::istreambuf_iterator<char>(in)), {});
        e["file"] = List(s);
      }
      Emit("Close", std::move(e));
    } else if (k == "cut") {
      if (truncate(path(S(op, "name")).c_str(), I(op, "n")) != 0) abort();
      Emit("Cut", std::move(e));
    }
  }
  for (const std::string& n : made)
    if (n != "full") unlink(path(n).c_str());
}
}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, Run); }

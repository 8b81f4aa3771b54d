#ifndef VERIF_HARNESS_VH_H_
#define VERIF_HARNESS_VH_H_
// Script runner shared by the harnesses. A script is one JSON object per line:
//   {"id": 7, ...}
// Each script runs in a child process. What the child emits becomes trace
// lines {"sid": 7, "e": ..., ...}; a child that does not exit normally adds
// {"e": "Crash"}.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <fstream>
#include <functional>
#include <string>
#include <vector>

#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

namespace vh {
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

inline FILE* g_out = nullptr;
inline int64_t g_sid = 0;
constexpr int64_t kBad = -999999;

inline std::string Dump(const Value& v) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << v;
  os.flush();
  return s;
}

inline void Emit(const char* e, Object o) {
  o["e"] = e;
  o["sid"] = g_sid;
  std::string s = Dump(Value(std::move(o))) + "\n";
  fwrite(s.data(), 1, s.size(), g_out);
  fflush(g_out);
}

inline void Emit(const char* e,
                 std::initializer_list<llvm::json::Object::KV> l) {
  Emit(e, Object(l));
}

inline int64_t I(const Object& o, const char* k, int64_t d = 0) {
  auto v = o.getInteger(k);
  return v ? *v : d;
}
inline bool Bo(const Object& o, const char* k, bool d = false) {
  auto v = o.getBoolean(k);
  return v ? *v : d;
}
inline std::string S(const Object& o, const char* k, const char* d = "") {
  auto v = o.getString(k);
  return v ? v->str() : d;
}
inline const Array& A(const Object& o, const char* k) {
  static const Array* empty = new Array();
  auto* v = o.getArray(k);
  return v ? *v : *empty;
}
inline int64_t AI(const Array& a, size_t i) {
  auto v = a[i].getAsInteger();
  return v ? *v : 0;
}
inline int64_t AI(const Value& a, size_t i) { return AI(*a.getAsArray(), i); }
inline std::string AS(const Array& a, size_t i) {
  auto v = a[i].getAsString();
  return v ? v->str() : "";
}
inline Value C(const Array& a) { return Value(Array(a)); }
inline double D(const Object& o, const char* k, double d = 0) {
  auto v = o.getNumber(k);
  return v ? *v : d;
}
// Counts: the specification's number n stands for n * unit in the code.
inline uint64_t g_unit = 1;
inline int64_t Cnt(uint64_t v) {
  if (v % g_unit) return kBad;
  uint64_t q = v / g_unit;
  return q > 2000000000u ? kBad : static_cast<int64_t>(q);
}
inline uint64_t Up(int64_t n) { return static_cast<uint64_t>(n) * g_unit; }
// Addresses: the specification's number n stands for base + n; in far mode
// each 2^20 of them starts a new 4 GiB.
inline uint64_t g_base = 0;
inline bool g_far = false;
inline int64_t Adr(uint64_t v) {
  uint64_t q = v - g_base;
  if (g_far) {
    if ((q >> 32) > 1000 || ((q & 0xffffffff) >> 20)) return kBad;
    return static_cast<int64_t>((q >> 32) << 20 | (q & 0xfffff));
  }
  return q > 2000000000u ? kBad : static_cast<int64_t>(q);
}
inline uint64_t UpA(int64_t n) {
  uint64_t a = static_cast<uint64_t>(n);
  if (g_far && n >= 0) a = (a >> 20) << 32 | (a & 0xfffff);
  return g_base + a;
}
inline uint64_t U64(const Object& o, const char* k, uint64_t d) {
  auto s = o.getString(k);
  if (!s) {
    auto v = o.getInteger(k);
    return v ? static_cast<uint64_t>(*v) : d;
  }
  return strtoull(s->str().c_str(), nullptr, 0);
}

inline int Main(int argc, char** argv, std::function<void(const Object&)> run,
                int limit_s = 20) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  std::string line;
  std::string part = std::string(argv[2]) + ".part";
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    auto v = llvm::json::parse(line);
    if (!v || !v->getAsObject()) return 2;
    const Object& o = *v->getAsObject();
    int64_t sid = I(o, "id");
    fprintf(out, "{\"e\":\"Reset\",\"sid\":%lld}\n", (long long)sid);
    fflush(out);
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      setpgid(0, 0);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      if (!getenv("VH_STDERR")) dup2(dn, 2);
      g_out = fopen(part.c_str(), "w");
      g_sid = sid;
      g_unit = U64(o, "unit", 1);
      g_base = U64(o, "base", 0);
      g_far = Bo(o, "far");
      alarm(limit_s);
      run(o);
      fclose(g_out);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    std::ifstream p(part);
    std::string l;
    while (std::getline(p, l)) fprintf(out, "%s\n", l.c_str());
    p.close();
    unlink(part.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
      fprintf(out, "{\"e\":\"Crash\",\"sid\":%lld}\n", (long long)sid);
    fflush(out);
    // Nothing is learnt from waiting for many more of these.
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) break;
  }
  fclose(out);
  return 0;
}
inline std::string Unhex(const std::string& h) {
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    s += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return s;
}
}  // namespace vh
#endif

// Runs symbolisation scripts against the real symboliser this is built with:
// the LLVM-based one (HAVE_LLVM) or the repository's own DWARF reader.
#include "addr2line.h"
#include "source_info.h"
#include "vh.h"

#include <memory>

using namespace vh;
using devtools_crosstool_autofdo::Addr2line;
using devtools_crosstool_autofdo::SourceStack;

namespace {
std::string g_tmp;
#if defined(HAVE_LLVM)
const char kReader[] = "llvm";
#else
const char kReader[] = "own";
#endif

Array Frames(const SourceStack& st) {
  Array r;
  for (const auto& s : st) {
    std::string d = s.dir_name;
    r.push_back(Object{{"fn", s.func_name ? s.func_name : ""},
                       {"d", d},
                       {"f", s.file_name},
                       {"sl", static_cast<int64_t>(s.start_line)},
                       {"ln", static_cast<int64_t>(s.line)},
                       {"di", static_cast<int64_t>(s.discriminator)}});
  }
  return r;
}

// Puts a name in the place kept for it.
void Put(std::string* s, const std::string& mark, const std::string& name) {
  if (name.size() > 190) _exit(3);
  std::string n = name;
  if (name[0] != '/' && n.size() % 2) n = ".//" + n;
  while (n.size() < 200) n = (name[0] == '/' ? "/" : "./") + n;
  for (size_t i; (i = s->find(mark)) != std::string::npos;) s->replace(i, 200, n);
}

void Run(const Object& o) {
  std::unique_ptr<Addr2line> a;
  std::vector<std::string> dwos;
  for (const Value& v : A(o, "ops")) {
    const Object& op = *v.getAsObject();
    Object e(op);
    std::string k = S(op, "op");
    e["rd"] = kReader;
    if (k == "open") {
      std::string p = S(op, "file");
      bool own = p.empty();
      if (own) {
        p = g_tmp + (Bo(op, "ko") ? ".bin.ko" : ".bin");
        std::string elf = Unhex(S(op, "elf"));
        // the files of split units: the names of where they are put
        dwos.clear();
        for (const Value& x : A(op, "dwos")) {
          std::string n = std::to_string(dwos.size()), f = g_tmp + "." + n + ".dwo";
          std::ofstream(f, std::ios::binary) << Unhex(x.getAsString()->str());
          dwos.push_back(f);
          Put(&elf, "@DWO" + n + "A@", f);
          Put(&elf, "@DWO" + n + "R@", f.substr(f.rfind('/') + 1));
        }
        std::ofstream(p, std::ios::binary) << elf;
      }
      e.erase("elf");
      e.erase("dwos");
      a.reset(Addr2line::Create(p));
      if (own) unlink(p.c_str());
      e["ok"] = a != nullptr;
      Emit("Open", std::move(e));
    } else if (k == "look") {
      Array r;
      for (const Value& x : A(op, "as")) {
        SourceStack st;
        a->GetInlineStack(UpA(*x.getAsInteger()), &st);
        r.push_back(Frames(st));
      }
      e["out"] = std::move(r);
      Emit("Look", std::move(e));
    }
  }
  a.reset();
  for (auto& f : dwos) unlink(f.c_str());   // LLVM reads them when it needs them
}
}  // namespace

int main(int argc, char** argv) {
  if (argc > 2) g_tmp = argv[2];
  return Main(argc, argv, Run);
}

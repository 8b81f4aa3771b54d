#ifndef VERIF_COMPAT_ABSL_STRINGS_STR_FORMAT_H_
#define VERIF_COMPAT_ABSL_STRINGS_STR_FORMAT_H_
// StrFormat family with the %v conversion and AbslStringify arguments that the
// installed Abseil does not have yet.
#include <cstdio>
#include <cstring>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>

#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace verif_compat {

struct FormatArg {
  enum Kind { kInt, kUint, kDouble, kString, kChar, kBool, kPtr } kind;
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  std::string s;
  size_t bytes = 8;
};

template <typename T>
FormatArg MakeArg(const T& v) {
  FormatArg a;
  using D = std::decay_t<T>;
  if constexpr (HasStringify<T>::value) {
    a.kind = FormatArg::kString;
    StringSink sink;
    a.s = std::string(Stringify(v, &sink));
  } else if constexpr (std::is_same_v<D, bool>) {
    a.kind = FormatArg::kBool;
    a.i = a.u = v;
  } else if constexpr (std::is_same_v<D, char>) {
    a.kind = FormatArg::kChar;
    a.i = v;
    a.u = static_cast<unsigned char>(v);
    a.bytes = 1;
  } else if constexpr (std::is_floating_point_v<D>) {
    a.kind = FormatArg::kDouble;
    a.d = v;
  } else if constexpr (std::is_enum_v<D>) {
    return MakeArg(static_cast<std::underlying_type_t<D>>(v));
  } else if constexpr (std::is_integral_v<D>) {
    a.kind = std::is_signed_v<D> ? FormatArg::kInt : FormatArg::kUint;
    a.i = static_cast<long long>(v);
    a.u = static_cast<std::make_unsigned_t<D>>(v);
    a.bytes = sizeof(D);
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    a.kind = FormatArg::kString;
    absl::string_view sv = v;
    a.s.assign(sv.data(), sv.size());
  } else if constexpr (std::is_pointer_v<D>) {
    a.kind = FormatArg::kPtr;
    a.u = reinterpret_cast<unsigned long long>(v);
  } else {
    static_assert(std::is_integral_v<D>, "unsupported StrFormat argument");
  }
  return a;
}

inline void FormatTo(std::string* out, absl::string_view f,
                     const FormatArg* args, size_t nargs) {
  size_t next = 0;
  auto star = [&]() -> int {
    if (next >= nargs) return 0;
    return static_cast<int>(args[next++].i);
  };
  for (size_t p = 0; p < f.size(); ++p) {
    if (f[p] != '%') {
      out->push_back(f[p]);
      continue;
    }
    ++p;
    if (p < f.size() && f[p] == '%') {
      out->push_back('%');
      continue;
    }
    std::string spec = "%";
    while (p < f.size() && strchr("-+ #0", f[p])) spec += f[p++];
    if (p < f.size() && f[p] == '*') {
      spec += std::to_string(star());
      ++p;
    }
    while (p < f.size() && f[p] >= '0' && f[p] <= '9') spec += f[p++];
    if (p < f.size() && f[p] == '.') {
      spec += f[p++];
      if (p < f.size() && f[p] == '*') {
        spec += std::to_string(star());
        ++p;
      }
      while (p < f.size() && f[p] >= '0' && f[p] <= '9') spec += f[p++];
    }
    while (p < f.size() && strchr("hlLqjzt", f[p])) ++p;
    char conv = p < f.size() ? f[p] : 's';
    if (next >= nargs) continue;
    const FormatArg& a = args[next++];
    if (conv == 'v') {
      switch (a.kind) {
        case FormatArg::kInt: conv = 'd'; break;
        case FormatArg::kUint: conv = 'u'; break;
        case FormatArg::kDouble: conv = 'g'; break;
        case FormatArg::kChar: conv = 'c'; break;
        case FormatArg::kPtr: conv = 'p'; break;
        default: conv = 's';
      }
      if (a.kind == FormatArg::kBool) {
        *out += a.i ? "true" : "false";
        continue;
      }
    }
    auto print = [&](const char* suffix, auto v) {
      std::string full = spec + suffix;
      int n = snprintf(nullptr, 0, full.c_str(), v);
      if (n < 0) return;
      std::string buf(n + 1, '\0');
      snprintf(&buf[0], n + 1, full.c_str(), v);
      buf.resize(n);
      *out += buf;
    };
    switch (conv) {
      case 'd': case 'i': case 'u':
        if (a.kind == FormatArg::kUint)
          print("llu", a.u);
        else if (a.kind == FormatArg::kDouble)
          print("f", a.d);
        else
          print("lld", a.i);
        break;
      case 'x': print("llx", a.u); break;
      case 'X': print("llX", a.u); break;
      case 'o': print("llo", a.u); break;
      case 'c': print("c", static_cast<int>(a.i)); break;
      case 'p': print("p", reinterpret_cast<void*>(a.u)); break;
      case 's':
        if (a.kind == FormatArg::kString) {
          print("s", a.s.c_str());
        } else if (a.kind == FormatArg::kDouble) {
          print("g", a.d);
        } else {
          print("s", (a.kind == FormatArg::kInt ? std::to_string(a.i)
                                                : std::to_string(a.u))
                         .c_str());
        }
        break;
      default: {
        std::string suffix(1, conv);
        print(suffix.c_str(), a.kind == FormatArg::kDouble
                                  ? a.d
                                  : (a.kind == FormatArg::kInt
                                         ? static_cast<double>(a.i)
                                         : static_cast<double>(a.u)));
      }
    }
  }
}

template <typename... Args>
std::string DoFormat(absl::string_view f, const Args&... args) {
  FormatArg a[sizeof...(Args) + 1] = {MakeArg(args)..., FormatArg()};
  std::string out;
  FormatTo(&out, f, a, sizeof...(Args));
  return out;
}

struct Streamed {
  std::string s;
  friend std::ostream& operator<<(std::ostream& os, const Streamed& v) {
    return os << v.s;
  }
};
template <typename Sink>
auto SinkAppend(Sink* sink, absl::string_view s, int)
    -> decltype(AbslFormatFlush(sink, s)) {
  AbslFormatFlush(sink, s);
}
template <typename Sink>
auto SinkAppend(Sink* sink, absl::string_view s, long)
    -> decltype(sink->Append(s)) {
  sink->Append(s);
}
template <typename Sink>
auto SinkAppend(Sink* sink, absl::string_view s, ...)
    -> decltype(sink->write(s.data(), s.size()), void()) {
  sink->write(s.data(), s.size());
}
}  // namespace verif_compat

template <typename... Args>
std::string StrFormat(absl::string_view f, const Args&... args) {
  return verif_compat::DoFormat(f, args...);
}
template <typename... Args>
verif_compat::Streamed StreamFormat(absl::string_view f, const Args&... args) {
  return {verif_compat::DoFormat(f, args...)};
}
template <typename... Args>
std::string& StrAppendFormat(std::string* dst, absl::string_view f,
                             const Args&... args) {
  return dst->append(verif_compat::DoFormat(f, args...));
}
template <typename Sink, typename... Args>
bool Format(Sink* sink, absl::string_view f, const Args&... args) {
  verif_compat::SinkAppend(sink, verif_compat::DoFormat(f, args...), 0);
  return true;
}
template <typename... Args>
int FPrintF(std::FILE* fp, absl::string_view f, const Args&... args) {
  std::string s = verif_compat::DoFormat(f, args...);
  return fwrite(s.data(), 1, s.size(), fp) == s.size() ? s.size() : -1;
}
template <typename... Args>
int PrintF(absl::string_view f, const Args&... args) {
  return FPrintF(stdout, f, args...);
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif

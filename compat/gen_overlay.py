#!/usr/bin/env python3
"""Writes the Abseil overlay headers into the directory given.

The installed Abseil is older than the one google/autofdo expects. The overlay
copies two installed headers and adds what newer releases have, without
touching any layout the installed library was compiled with:
  string_view.h  conversions to and from std::string_view / llvm::StringRef
  str_cat.h      StrCat of types that have AbslStringify
"""
import os, re, sys

out = sys.argv[1]
src = "/usr/include/absl/strings/"
os.makedirs(out + "/absl/strings", exist_ok=True)

s = open(src + "string_view.h").read()
s = s.replace("#include <string>\n", "#include <filesystem>\n#include <string>\n#include <string_view>\n#include <type_traits>\nnamespace llvm {\nclass Twine;\n}\n", 1)
anchor = "  // Implicit constructor of a `string_view` from a `const char*` and length."
assert anchor in s
s = s.replace(anchor, """  // Conversions newer releases have because absl::string_view is
  // std::string_view there.
  constexpr string_view(std::string_view v) noexcept  // NOLINT
      : ptr_(v.data()), length_(v.size()) {}
  template <typename T,
            typename = typename std::enable_if<
                std::is_convertible<const T&, std::string_view>::value &&
                !std::is_convertible<const T&, const char*>::value &&
                !std::is_convertible<const T&, const std::string&>::value &&
                !std::is_same<T, string_view>::value>::type>
  constexpr string_view(const T& v) noexcept  // NOLINT
      : string_view(static_cast<std::string_view>(v)) {}
  constexpr operator std::string_view() const noexcept {
    return std::string_view(ptr_, length_);
  }
  template <typename T,
            typename = typename std::enable_if<
                std::is_same<T, llvm::Twine>::value ||
                std::is_same<T, std::filesystem::path>::value>::type>
  operator T() const {
    return T(std::string_view(ptr_, length_));
  }

""" + anchor, 1)
open(out + "/absl/strings/string_view.h", "w").write(s)

s = open(src + "str_cat.h").read()
anchor = "  // Use string literals \":\" instead of character literals ':'."
assert anchor in s
s = s.replace("class AlphaNum {", """namespace verif_compat {
class StringSink {
 public:
  void Append(size_t count, char ch) { buf_.append(count, ch); }
  void Append(absl::string_view v) { buf_.append(v.data(), v.size()); }
  friend void AbslFormatFlush(StringSink* s, absl::string_view v) {
    s->Append(v);
  }
  const std::string& str() const { return buf_; }

 private:
  std::string buf_;
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<
    T, decltype(static_cast<void>(AbslStringify(std::declval<StringSink&>(),
                                                std::declval<const T&>())))>
    : std::true_type {};
template <typename T>
absl::string_view Stringify(const T& v, StringSink* s) {
  AbslStringify(*s, v);
  return s->str();
}
}  // namespace verif_compat

class AlphaNum {""", 1)
s = s.replace(anchor, """  template <typename T, typename = typename std::enable_if<
                            verif_compat::HasStringify<T>::value>::type>
  AlphaNum(const T& v, verif_compat::StringSink&& sink =  // NOLINT
                           verif_compat::StringSink())
      : piece_(verif_compat::Stringify(v, &sink)) {}

""" + anchor, 1)
open(out + "/absl/strings/str_cat.h", "w").write(s)

here = os.path.dirname(os.path.abspath(__file__))
heads = set()
for root in ("/usr/include/absl", here + "/inc/absl", out + "/absl"):
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".h"):
                heads.add(os.path.relpath(os.path.join(d, f), root))
for h in sorted(heads):
    p = out + "/third_party/abseil/absl/" + h
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write('#include "absl/%s"\n' % h)

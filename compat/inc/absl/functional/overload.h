#ifndef VERIF_COMPAT_ABSL_FUNCTIONAL_OVERLOAD_H_
#define VERIF_COMPAT_ABSL_FUNCTIONAL_OVERLOAD_H_
#include <utility>
namespace absl {
template <typename... T>
struct Overload final : T... {
  explicit constexpr Overload(T... ts) : T(std::move(ts))... {}
  using T::operator()...;
};
template <typename... T>
Overload(T...) -> Overload<T...>;
}  // namespace absl
#endif

#ifndef VERIF_COMPAT_ABSL_BASE_NULLABILITY_H_
#define VERIF_COMPAT_ABSL_BASE_NULLABILITY_H_
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}  // namespace absl
#endif

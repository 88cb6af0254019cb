#ifndef VERIF_SERIAL_MATHGEN_H_
#define VERIF_SERIAL_MATHGEN_H_

#include "tachyon/math/finite_fields/finite_field_traits.h"
#include "tachyon/math/matrix/matrix_types.h"

#include "verif/serial/any.h"

namespace serial_pbt {

namespace tm = tachyon::math;

template <typename F>
F AnyField(Rng& r) {
  if constexpr (tm::FiniteFieldTraits<F>::kIsExtensionField) {
    using B = typename F::BasePrimeField;
    std::vector<B> v(F::ExtensionDegree());
    for (B& b : v) b = r.Upto(5) ? AnyField<B>(r) : B::Zero();
    return F::FromBasePrimeFields(absl::MakeConstSpan(v));
  } else {
    return pbt::BulkPrimeField<F>(r);
  }
}
template <typename F>
F AnyNonZero(Rng& r) {
  F f = AnyField<F>(r);
  return f.IsZero() ? F::One() : f;
}
template <typename F>
std::vector<F> AnyFields(Rng& r, size_t n) {
  std::vector<F> v(n);
  for (F& f : v) f = AnyField<F>(r);
  return v;
}
// Points come from a table, for they take time to make.
template <typename G>
typename G::AffinePoint AnyAffine(Rng& r) {
  using A = typename G::AffinePoint;
  static const std::vector<A> table = [] {
    std::vector<A> v = {A::Zero()};
    auto p = A::Generator().ToJacobian();
    for (int i = 0; i < 60; ++i) {
      v.push_back(p.ToAffine());
      p = p + p + A::Generator();
    }
    return v;
  }();
  return table[r.Upto(table.size() - 1)];
}
template <typename M>
M AnyMatrix(Rng& r) {
  Eigen::Index rows = M::RowsAtCompileTime, cols = M::ColsAtCompileTime;
  if (rows == Eigen::Dynamic) rows = r.Upto(6);
  if (cols == Eigen::Dynamic) cols = r.Upto(6);
  M m;
  if constexpr (M::SizeAtCompileTime == Eigen::Dynamic) m.resize(rows, cols);
  for (Eigen::Index i = 0; i < rows; ++i)
    for (Eigen::Index j = 0; j < cols; ++j) m(i, j) = AnyField<typename M::Scalar>(r);
  return m;
}
template <typename... F>
void SetMontgomery(bool on) {
  ((tb::Copyable<F>::s_is_in_montgomery = on), ...);
}

}  // namespace serial_pbt

#endif  // VERIF_SERIAL_MATHGEN_H_

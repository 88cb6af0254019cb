#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"

#include "verif/fft/domains.h"

namespace {
using namespace fft;            // NOLINT
template <typename F>
using M = DomainProps<MixedRadixEvaluationDomain<F>, true>;
[[maybe_unused]] int r1 = M<bn384_small_two_adicity::Fq>::RegisterAll("bn384_fq_mixed");
[[maybe_unused]] int r2 = M<bn384_small_two_adicity::Fr>::RegisterAll("bn384_fr_mixed");

// Sizes on both sides of the largest power of two.
void Factory(Case& c) {
  using F = bn384_small_two_adicity::Fr;
  using D = FactoryDomain<F>;
  size_t max2 = size_t{1} << F::Config::kTwoAdicity;
  size_t asked = c.Bool() ? c.Range(max2 - 3, max2 + 3) : c.Range(1, 36864);
  auto d = D::Create(asked);
  size_t want = 1;
  while (want < asked) want *= 2;
  if (want > max2) want = M<F>::WantedSize(asked);
  c.Nontrivial(asked > max2);
  c.LabelIf(asked > max2, "above the largest power of two");
  PBT_T(d->size() == want, "size");
  std::vector<F> v = AnyValues<F>(c, 1 + c.Draw(want - 1));
  auto p = M<F>::Poly(M<F>::Coeffs(v, true));
  using Dom = std::remove_reference_t<decltype(*d)>;
  typename Dom::DensePoly q(typename Dom::DenseCoeffs(v, true));
  auto e = d->FFT(q);
  Rng r = c.Bulk();
  for (int k = 0; k < 3; ++k) {
    size_t i = r.Upto(want - 1);
    PBT_T(e[i] == Horner(v, d->group_gen().Pow(i)), "value");
  }
  PBT_T(d->IFFT(e) == q, "round trip");
}
PBT_INIT([] { Register("bn384_fr.factory", 8, 80, Factory); });
}  // namespace

#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"

#include "verif/fft/domains.h"

namespace {
using namespace fft;            // NOLINT
template <typename F>
using R2 = DomainProps<Radix2EvaluationDomain<F>, false>;
[[maybe_unused]] int r1 = R2<bls12_381::Fr>::RegisterAll("bls12_381_fr");
[[maybe_unused]] int r2 = DomainProps<FactoryDomain<bn254::Fr>, false>::RegisterAll("bn254_fr");
[[maybe_unused]] int r3 = R2<Goldilocks>::RegisterAll("goldilocks");
[[maybe_unused]] int r4 = R2<BabyBear>::RegisterAll("baby_bear");
[[maybe_unused]] int r5 = R2<KoalaBear>::RegisterAll("koala_bear");
}  // namespace

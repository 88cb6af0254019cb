// C15: Poseidon against its rounds without the sparse matrices.
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"

#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

#include "verif/sponge/sponge.h"

namespace {
using namespace sponge;  // NOLINT

template <typename Params>
auto Make(size_t skip) {
  using F = typename Params::Field;
  using P = tm::MaybeUnpack<F>;
  constexpr size_t kW = Params::kWidth;
  Rounds<P> r;
  r.alpha = Params::kAlpha;
  r.rf = Params::kFullRounds;
  r.rp = Params::kPartialRounds;
  Grain<P> g(P::Config::kModulusBits, kW, r.rf, r.rp);
  for (size_t i = 0; i < r.rf + r.rp; ++i) {
    r.ark.emplace_back();
    for (size_t j = 0; j < kW; ++j) r.ark.back().push_back(g.Sample());
  }
  for (size_t i = 0; i < skip * 2 * kW; ++i) g.Reduced();
  Vec<P> x, y;
  for (size_t j = 0; j < kW; ++j) x.push_back(g.Reduced());
  for (size_t j = 0; j < kW; ++j) y.push_back(g.Reduced());
  for (size_t i = 0; i < kW; ++i) {
    r.full.emplace_back();
    for (size_t j = 0; j < kW; ++j) r.full.back().push_back(*(x[i] + y[j]).Inverse());
  }
  r.partial = r.full;
  InitField<F>();
  auto config = tc::PoseidonConfig<Params>::Create(skip);
  return std::make_pair(tc::PoseidonSponge<Params>(std::move(config)), std::move(r));
}

template <typename Params>
void Reg(const std::string& name, size_t weight, size_t skip = 0) {
  RegisterInst<tc::PoseidonSponge<Params>>("poseidon." + name, weight,
                                           [skip]() { return Make<Params>(skip); });
}

void RegisterAll() {
  using tm::BabyBear;
  using tm::Goldilocks;
  using tm::KoalaBear;
  using tm::Mersenne31;
  using tm::PackedBabyBear;
  using BnFr = tm::bn254::Fr;
  using BlsFr = tm::bls12_381::Fr;
  Reg<tc::BabyBearPoseidonParams16>("baby_bear_16", 24);
  Reg<tc::BabyBearPoseidonParams24>("baby_bear_24", 12);
  Reg<tc::PoseidonParams<PackedBabyBear, 15, 7, 8, 13>>("packed_baby_bear_16", 8);
  Reg<tc::PoseidonParams<PackedBabyBear, 3, 7, 8, 5>>("packed_baby_bear_4", 16, 1);
  Reg<tc::PoseidonParams<KoalaBear, 3, 3, 6, 9>>("koala_bear_4", 80, 2);
  Reg<tc::PoseidonParams<Mersenne31, 4, 5, 4, 1>>("mersenne31_5", 120);
  Reg<tc::PoseidonParams<Goldilocks, 7, 7, 8, 22>>("goldilocks_8", 30);
  Reg<tc::PoseidonParams<Goldilocks, 1, 7, 2, 3>>("goldilocks_2", 200, 1);
  Reg<tc::PoseidonParams<BlsFr, 2, 17, 8, 31>>("bls12_381_3", 12);
  Reg<tc::BN254PoseidonParams5>("bn254_5", 8);
  Reg<tc::BN254PoseidonParams9>("bn254_9", 4);
}

}  // namespace
PBT_INIT(RegisterAll);

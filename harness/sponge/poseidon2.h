// Poseidon2 against explicit matrices.
#ifndef VERIF_HARNESS_SPONGE_POSEIDON2_H_
#define VERIF_HARNESS_SPONGE_POSEIDON2_H_

#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"

#include <string>
#include <utility>

#include "verif/sponge/sponge.h"

namespace sponge {

using V = tc::Poseidon2Vendor;
constexpr V kH = V::kHorizen, kP = V::kPlonky3;

template <typename P>
Mat<P> External(size_t w, V vendor) {
  Mat<P> m(w, Vec<P>(w, P::Zero()));
  if (w <= 3) {  // circ(2, 1, .., 1)
    for (size_t i = 0; i < w; ++i)
      for (size_t j = 0; j < w; ++j) m[i][j] = P(i == j ? 2 : 1);
    return m;
  }
  static const int kHorizen[4][4] = {{5, 7, 1, 3}, {4, 6, 1, 1}, {1, 3, 5, 7}, {1, 1, 4, 6}};
  static const int kPlonky3[4][4] = {{2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}};
  auto& b = vendor == kH ? kHorizen : kPlonky3;
  for (size_t i = 0; i < w; ++i)
    for (size_t j = 0; j < w; ++j)
      m[i][j] = P(b[i % 4][j % 4] * (w > 4 && i / 4 == j / 4 ? 2 : 1));
  return m;
}

// A polynomial in 3 of the published constants, to see that they stay.
template <typename T>
uint64_t Digest(const T& a) {
  mpz_class h = 0, q = Pow2(61) - 1;
  for (auto& x : a) {
    mpz_class v;
    if constexpr (std::is_integral_v<std::decay_t<decltype(x)>>) {
      v = static_cast<unsigned>(x) + 1;
    } else {
      v = FieldToMpz(x);
    }
    h = (h * 1000003 + v) % q;
  }
  return mpz_get_ui(h.get_mpz_t());
}

template <typename Params>
auto Make2() {
  using F = typename Params::Field;
  using P = tm::MaybeUnpack<F>;
  constexpr size_t kW = Params::kWidth;
  constexpr bool kShifts =
      P::Config::kModulusBits <= 32 && Params::kInternalMatrixVendor == kP;
  InitField<F>();
  Rounds<P> r;
  r.mix_first = true;
  r.alpha = Params::kAlpha;
  r.rf = Params::kFullRounds;
  r.rp = Params::kPartialRounds;
  Grain<P> g(P::Config::kModulusBits, kW, r.rf, r.rp);
  for (size_t i = 0; i < r.rf + r.rp; ++i) {
    bool full = i < r.rf / 2 || i >= r.rf / 2 + r.rp;
    r.ark.emplace_back();
    for (size_t j = 0; j < (full ? kW : 1); ++j) r.ark.back().push_back(g.Sample());
  }
  r.full = External<P>(kW, Params::kExternalMatrixVendor);
  r.partial = Mat<P>(kW, Vec<P>(kW, P::One()));
  if constexpr (kShifts) {
    auto shifts = tc::GetPoseidon2InternalShiftArray<Params>();
    r.partial[0][0] += FieldFromMpz<P>(Modulus<P>() - 2);
    for (size_t i = 1; i < kW; ++i)
      r.partial[i][i] += FieldFromMpz<P>(Pow2(shifts[i - 1]) % Modulus<P>());
    if constexpr (P::Config::kUseMontgomery) {  // as in Plonky3, divided by 2^32
      P inv = *FieldFromMpz<P>(Pow2(32) % Modulus<P>()).Inverse();
      for (auto& row : r.partial)
        for (auto& x : row) x *= inv;
    }
  } else {
    auto diag = tc::GetPoseidon2InternalDiagonalArray<Params>();
    for (size_t i = 0; i < kW; ++i) r.partial[i][i] += diag[i];
  }
  return std::make_pair(
      tc::Poseidon2Sponge<Params>(tc::Poseidon2Config<Params>::CreateDefault()),
      std::move(r));
}

template <typename Params>
void Reg2(const std::string& name, size_t weight, uint64_t digest) {
  using P = tm::MaybeUnpack<typename Params::Field>;
  RegisterInst<tc::Poseidon2Sponge<Params>>("poseidon2." + name, weight,
                                            []() { return Make2<Params>(); });
  Register("poseidon2." + name + ".constants", 1, 1, [digest](Case& c) {
    P::Init();
    uint64_t got;
    if constexpr (P::Config::kModulusBits <= 32 && Params::kInternalMatrixVendor == kP) {
      got = Digest(tc::GetPoseidon2InternalShiftArray<Params>());
    } else {
      got = Digest(tc::GetPoseidon2InternalDiagonalArray<Params>());
    }
    PBT_TM(got == digest, "published constants", "0x" << std::hex << got << "u");
    c.Nontrivial();
  });
}

}  // namespace sponge

#endif  // VERIF_HARNESS_SPONGE_POSEIDON2_H_

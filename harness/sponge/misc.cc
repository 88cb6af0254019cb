// C15: structured matrices and the encoding of inputs as field elements.
#include <string>
#include <vector>

#include "absl/container/inlined_vector.h"

#include "tachyon/crypto/hashes/prime_field_serializable.h"
#include "tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

#include "verif/sponge/poseidon2.h"

namespace {
using namespace sponge;  // NOLINT

template <typename F>
void Sparse(Case& c) {
  InitField<F>();
  using L = Lanes<F>;
  size_t n = 2 + c.Draw(c.OneIn(4) ? 30 : 6);
  Rng rng = c.Bulk();
  tm::Vector<F> row(n), col(n - 1), v(n);
  for (size_t i = 0; i < n; ++i) row[i] = L::Bulk(rng);
  for (size_t i = 0; i + 1 < n; ++i) col[i] = L::Bulk(rng);
  for (size_t i = 0; i < n; ++i) v[i] = L::Bulk(rng);
  std::vector<F> want(n, F::Zero());
  for (size_t i = 0; i < n; ++i) want[0] += row[i] * v[i];
  for (size_t i = 1; i < n; ++i) want[i] = col[i - 1] * v[0] + v[i];
  tc::SparseMDSMatrix<F> m(row, col);
  tm::Vector<F> got = v;
  m.Apply(got);
  tm::Matrix<F> full = m.Construct();
  PBT_T(size_t(full.rows()) == n && size_t(full.cols()) == n, "dimensions");
  for (size_t i = 0; i < n; ++i) {
    PBT_T(got[i] == want[i], "apply");
    for (size_t j = 0; j < n; ++j) {
      F e = i == 0 ? row[j] : j == 0 ? col[i - 1] : i == j ? F::One() : F::Zero();
      PBT_T(full(i, j) == e, "construct");
    }
  }
  PBT_T((tc::SparseMDSMatrix<F>::FromMDSMatrix(full) == m), "from the matrix");
  row[c.Draw(n - 1)] += F::One();
  PBT_T((tc::SparseMDSMatrix<F>(row, col) != m), "unequal");
  c.Nontrivial(n > 2);
}

template <typename F, template <typename> class M, size_t W>
void Ext(Case& c) {
  InitField<F>();
  using L = Lanes<F>;
  using P = typename L::P;
  Rng rng = c.Bulk();
  tm::Vector<F> v(W);
  for (size_t i = 0; i < W; ++i) v[i] = L::Bulk(rng);
  Mat<P> m = External<P>(
      W, std::is_same_v<M<F>, tc::Poseidon2HorizenExternalMatrix<F>> ? kH : kP);
  tm::Vector<F> got = v;
  tc::Poseidon2ExternalMatrix<M<F>>::template Apply<W>(got);
  auto full = tc::Poseidon2ExternalMatrix<M<F>>::template Construct<W>(W);
  for (size_t l = 0; l < L::Count(); ++l) {
    Vec<P> x(W);
    for (size_t i = 0; i < W; ++i) x[i] = L::Get(v[i], l);
    x = MulMV(m, x);
    for (size_t i = 0; i < W; ++i) {
      PBT_T(L::Get(got[i], l) == x[i], "apply");
      for (size_t j = 0; j < W; ++j)
        PBT_T(L::Get(full(i, j), l) == m[i][j], "construct");
    }
  }
  c.Nontrivial();
}

template <typename F, template <typename> class M>
void RegExt(const std::string& n) {
  Register(n + "_2", 60, 600, Ext<F, M, 2>);
  Register(n + "_3", 60, 600, Ext<F, M, 3>);
  Register(n + "_4", 60, 600, Ext<F, M, 4>);
  Register(n + "_8", 60, 600, Ext<F, M, 8>);
  Register(n + "_12", 60, 600, Ext<F, M, 12>);
  Register(n + "_16", 40, 400, Ext<F, M, 16>);
  Register(n + "_20", 30, 300, Ext<F, M, 20>);
  Register(n + "_24", 30, 300, Ext<F, M, 24>);
}

// Integers as field elements: themselves, or refused when not below the modulus.
template <typename F, typename T>
void Ints(Case& c) {
  F::Init();
  mpz_class p = Modulus<F>();
  std::vector<T> v;
  bool fits = true;
  size_t n = c.Draw(12);
  size_t bits = 8 * sizeof(T) - std::is_signed_v<T>;
  mpz_class max = Pow2(bits) - 1;
  for (size_t i = 0; i < n; ++i) {
    mpz_class x;
    switch (c.Draw(3)) {
      case 0:
        x = c.Draw(9);
        break;
      case 1:
        x = p + static_cast<int>(c.Draw(4)) - 2;
        break;
      case 2:
        x = max - static_cast<int>(c.Draw(2));
        break;
      default:
        x = mpz_class(static_cast<unsigned long>(c.U64())) % (max + 1);
    }
    if (x > max) x = max;
    if (std::is_same_v<T, bool>) x %= 2;
    fits &= x < p;
    v.push_back(static_cast<T>(x.get_ui()));
  }
  c.Label(fits ? "fits" : "refused");
  c.Nontrivial(n > 1);
  auto check = [&](bool ok, const std::vector<F>& got, const char* what) {
    PBT_T(ok == fits, what);
    if (!ok) return;
    PBT_T(got.size() == n, what);
    for (size_t i = 0; i < n; ++i)
      PBT_T(FieldToMpz(got[i]) == mpz_class(static_cast<unsigned long>(v[i])), what);
  };
  std::vector<F> out;
  if constexpr (!std::is_same_v<T, bool>) {
    bool ok = tc::SerializeToFieldElements(v, &out);
    check(ok, out, "vector");
    out.clear();
    ok = tc::SerializeBatchToFieldElements(absl::Span<const T>(v), &out);
    check(ok, out, "batch");
    out.clear();
    ok = tc::SerializeToFieldElements(absl::Span<const T>(v), &out);
    check(ok, out, "span");
    out.clear();
    absl::InlinedVector<T, 4> iv(v.begin(), v.end());
    ok = tc::SerializeToFieldElements(iv, &out);
    check(ok, out, "inlined vector");
    out.clear();
    if (n >= 3) {
      std::array<T, 3> a = {v[0], v[1], v[2]};
      ok = tc::SerializeToFieldElements(a, &out);
      bool f3 = true;
      for (T t : a) f3 &= mpz_class(static_cast<unsigned long>(t)) < p;
      PBT_T(ok == f3, "array");
      if (ok) {
        PBT_T(out.size() == 3, "array");
        for (int i = 0; i < 3; ++i) {
          PBT_T(FieldToMpz(out[i]) == mpz_class(static_cast<unsigned long>(a[i])), "array");
        }
      }
    }
  }
  out.clear();
  bool ok = true;
  for (T t : v) ok = ok && tc::SerializeToFieldElements(t, &out);
  check(ok, out, "one by one");
}

// Absorbing integers is absorbing their field elements; none of it happens
// when one of them is refused.
void AbsorbInts(Case& c) {
  using F = tm::BabyBear;
  using Params = tc::Poseidon2Params<kH, kH, tm::bn254::Fr, 2, 5>;
  using G = tm::bn254::Fr;
  F::Init();
  G::Init();
  static tc::Poseidon2Sponge<Params>* sp = new tc::Poseidon2Sponge<Params>();
  tc::SpongeState<Params> s, t;
  std::vector<uint64_t> v;
  std::vector<G> f;
  size_t n = 1 + c.Draw(8);
  for (size_t i = 0; i < n; ++i) {
    v.push_back(c.U64());
    f.push_back(FieldFromMpz<G>(mpz_class(static_cast<unsigned long>(v.back()))));
  }
  PBT_T(sp->Absorb(s, v), "absorb");
  PBT_T(sp->Absorb(t, f), "absorb");
  PBT_T(s == t, "state");
  PBT_T(sp->SqueezeNativeFieldElements(s, 3) == sp->SqueezeNativeFieldElements(t, 3),
        "squeeze");
  c.Nontrivial(n > 1);
}

void RegisterAll() {
  Register("sparse_mds.baby_bear", 300, 3000, Sparse<tm::BabyBear>);
  Register("sparse_mds.goldilocks", 300, 3000, Sparse<tm::Goldilocks>);
  Register("sparse_mds.packed_baby_bear", 100, 1000, Sparse<tm::PackedBabyBear>);
  RegExt<tm::BabyBear, tc::Poseidon2HorizenExternalMatrix>("external.horizen.baby_bear");
  RegExt<tm::BabyBear, tc::Poseidon2Plonky3ExternalMatrix>("external.plonky3.baby_bear");
  RegExt<tm::PackedBabyBear, tc::Poseidon2HorizenExternalMatrix>("external.horizen.packed");
  RegExt<tm::Mersenne31, tc::Poseidon2Plonky3ExternalMatrix>("external.plonky3.mersenne31");
  RegExt<tm::bn254::Fr, tc::Poseidon2HorizenExternalMatrix>("external.horizen.bn254");
  Register("encode.u8.baby_bear", 200, 2000, Ints<tm::BabyBear, uint8_t>);
  Register("encode.u32.baby_bear", 300, 3000, Ints<tm::BabyBear, uint32_t>);
  Register("encode.u64.baby_bear", 300, 3000, Ints<tm::BabyBear, uint64_t>);
  Register("encode.u32.mersenne31", 300, 3000, Ints<tm::Mersenne31, uint32_t>);
  Register("encode.bool.mersenne31", 50, 500, Ints<tm::Mersenne31, bool>);
  Register("encode.u64.goldilocks", 300, 3000, Ints<tm::Goldilocks, uint64_t>);
  Register("encode.u64.bn254", 300, 3000, Ints<tm::bn254::Fr, uint64_t>);
  Register("encode.absorb", 50, 500, AbsorbInts);
}

}  // namespace
PBT_INIT(RegisterAll);

// C18: Pedersen commitments.
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

constexpr size_t kMaxSize = 32;

template <typename Curve, typename Commitment>
struct Pedersen {
  using Affine = typename Curve::AffinePoint;
  using F = typename Affine::ScalarField;
  using VCS = tc::Pedersen<Affine, kMaxSize, Commitment>;

  static bool Is(const Commitment& got, const F& scalar) {
    return tm::ConvertPoint<Affine>(got) == (scalar * Affine::Generator()).ToAffine();
  }

  // The scheme and the scalars its points are multiples of the generator by.
  static VCS Make(Case& c, F* h, std::vector<F>* gs) {
    static bool init = (Curve::Init(), true);
    (void)init;
    size_t n = 1 + c.Draw(c.OneIn(3) ? kMaxSize - 1 : 7);
    *h = NonZeroPrimeField<F>(c);
    gs->resize(n);
    Rng r = c.Bulk();
    std::vector<Affine> points;
    for (F& g : *gs) {
      g = BulkPrimeField<F>(r);
      points.push_back((g * Affine::Generator()).ToAffine());
    }
    VCS vcs((*h * Affine::Generator()).ToAffine(), std::move(points));
    c.Note(n);
    c.Nontrivial(n > 1);
    return vcs;
  }
  static std::vector<F> Values(Case& c, size_t n) {
    Rng r = c.Bulk();
    std::vector<F> v(n);
    bool zero = c.OneIn(6);
    for (F& x : v) x = zero ? F::Zero() : BulkPrimeField<F>(r);
    return v;
  }
  static F Dot(const std::vector<F>& a, const std::vector<F>& b) {
    F s = F::Zero();
    for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    return s;
  }

  static void Single(Case& c) {
    F h;
    std::vector<F> gs;
    VCS vcs = Make(c, &h, &gs);
    size_t n = gs.size();
    PBT_T(vcs.N() == n, "size");
    std::vector<F> v = Values(c, n), u = Values(c, n);
    F r = AnyPrimeField<F>(c), s = AnyPrimeField<F>(c);
    Commitment a, b, d;
    PBT_T(vcs.Commit(v, r, &a) && vcs.Commit(u, s, &b), "commit");
    PBT_T(Is(a, h * r + Dot(gs, v)), "commitment");
    PBT_T(Is(b, h * s + Dot(gs, u)), "commitment");
    std::vector<F> sum(n);
    for (size_t i = 0; i < n; ++i) sum[i] = u[i] + v[i];
    PBT_T(vcs.Commit(sum, r + s, &d), "commit");
    using J = typename Curve::JacobianPoint;
    PBT_T(tm::ConvertPoint<Affine>(d) ==
              (tm::ConvertPoint<J>(a) + tm::ConvertPoint<J>(b)).ToAffine(),
          "homomorphic");
    tb::Uint8VectorBuffer buf;
    PBT_T(buf.Grow(tb::EstimateSize(vcs)), "grow");
    PBT_T(buf.Write(vcs) && buf.Done(), "write");
    buf.set_buffer_offset(0);
    VCS back;
    PBT_T(buf.Read(&back), "read");
    PBT_T(back.h() == vcs.h() && back.generators() == vcs.generators(), "read back");
  }

  // |blind|: with random values.
  static void Batch(Case& c, bool blind) {
    F h;
    std::vector<F> gs;
    VCS vcs = Make(c, &h, &gs);
    for (int round = 0; round < 2; ++round) {
      size_t count = 1 + c.Draw(4);
      std::vector<std::vector<F>> vs;
      std::vector<F> rs;
      for (size_t i = 0; i < count; ++i) {
        vs.push_back(Values(c, gs.size()));
        rs.push_back(blind ? AnyPrimeField<F>(c) : F::Zero());
      }
      vcs.SetBatchMode(count);
      for (size_t i = count; i-- > 0;) PBT_T(vcs.Commit(vs[i], rs[i], i), "commit");
      std::vector<Commitment> got = vcs.GetBatchCommitments();
      PBT_T(got.size() == count && !vcs.GetBatchMode(), "batch");
      for (size_t i = 0; i < count; ++i)
        PBT_T(Is(got[i], h * rs[i] + Dot(gs, vs[i])), "batched commitment");
    }
  }
};

void RegisterAll() {
  using BN = Pedersen<tm::bn254::G1Curve, tm::bn254::G1AffinePoint>;
  using BNX = Pedersen<tm::bn254::G1Curve, tm::bn254::G1PointXYZZ>;
  using BLS = Pedersen<tm::bls12_381::G1Curve, tm::bls12_381::G1AffinePoint>;
  using SEC = Pedersen<tm::secp256k1::Curve, tm::secp256k1::AffinePoint>;
  Register("pedersen.bn254", 100, 1000, BN::Single);
  Register("pedersen.bn254.xyzz", 100, 1000, BNX::Single);
  Register("pedersen.bls12_381", 60, 600, BLS::Single);
  Register("pedersen.secp256k1", 60, 600, SEC::Single);
  Register("pedersen_batch.bn254", 60, 600, [](Case& c) { BN::Batch(c, false); });
  Register("pedersen_batch.bn254.xyzz", 60, 600, [](Case& c) { BNX::Batch(c, false); });
  Register("pedersen_batch.secp256k1", 40, 400, [](Case& c) { SEC::Batch(c, false); });
  Register("pedersen_blinded_batch.bn254", 40, 400, [](Case& c) { BN::Batch(c, true); });
}

}  // namespace
PBT_INIT(RegisterAll);

// Points: sums of multiples, normalisation and conversions.
#include <string>
#include <vector>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/geometry/point_conversions.h"
#include "verif/threads/threads.h"

namespace {

using namespace pbt;            // NOLINT
using namespace threads;        // NOLINT
using namespace tachyon::math;  // NOLINT

template <typename Curve>
struct Points {
  using S = typename Curve::ScalarField;
  using Af = AffinePoint<Curve>;
  using Ja = JacobianPoint<Curve>;
  using Pr = ProjectivePoint<Curve>;
  using Xy = PointXYZZ<Curve>;

  static const std::vector<Af>& Table() {
    static const std::vector<Af>* t = [] {
      auto* v = new std::vector<Af>();
      Rng r(99);
      v->push_back(Af::Zero());
      for (size_t i = 0; i < 40; ++i) v->push_back((BulkPrimeField<S>(r) * Af::Generator()).ToAffine());
      return v;
    }();
    return *t;
  }

  static void Msm(Case& c) {
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = AnyN(c, c.OneIn(12) ? 1500 : 200);
    c.Nontrivial(n > 8);
    c.Note(n, " terms");
    std::vector<Af> bases;
    std::vector<S> scalars = BulkPrimeFields<S>(r, n);
    for (size_t i = 0; i < n; ++i) bases.push_back(Table()[r.Upto(40)]);
    auto sum = Same(c, t, "msm_affine", [&] {
      VariableBaseMSM<Af> msm;
      typename VariableBaseMSM<Af>::Bucket out;
      bool ok = msm.Run(bases, scalars, &out);
      return std::make_pair(ok, ConvertPoint<Af>(out));
    });
    PBT_T(sum.first, "refused");
    if (n < 40) {
      Ja want = Ja::Zero();
      for (size_t i = 0; i < n; ++i) want += scalars[i] * bases[i];
      PBT_T(sum.second == want.ToAffine(), "msm_value");
    }
    if (c.Bool()) {
      std::vector<Ja> jb;
      for (const Af& p : bases) jb.push_back(ConvertPoint<Ja>(p));
      auto js = Same(c, t, "msm_jacobian", [&] {
        VariableBaseMSM<Ja> msm;
        typename VariableBaseMSM<Ja>::Bucket out;
        bool ok = msm.Run(jb, scalars, &out);
        return std::make_pair(ok, ConvertPoint<Af>(out));
      });
      PBT_T(js == sum, "msm_jacobian");
    }
    // Several sums one after another with the same object.
    Same(c, t, "msm_again", [&] {
      VariableBaseMSM<Af> msm;
      typename VariableBaseMSM<Af>::Bucket out;
      std::vector<Af> v;
      for (size_t k : {n, n / 2, n / 3}) {
        msm.Run(bases.begin(), bases.begin() + k, scalars.begin(), scalars.begin() + k, &out);
        v.push_back(ConvertPoint<Af>(out));
      }
      return v;
    });
  }

  static void Fixed(Case& c) {
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = AnyN(c, 120);
    c.Nontrivial(n > 8);
    c.Note(n, " scalars");
    std::vector<S> scalars = BulkPrimeFields<S>(r, n);
    Af base = Table()[1 + r.Upto(39)];
    auto out = Same(c, t, "fixed_base", [&] {
      FixedBaseMSM<Af> msm;
      msm.Reset(n, base);
      std::vector<typename FixedBaseMSM<Af>::AddResult> o(n);
      bool ok = msm.Run(scalars, &o);
      std::vector<Af> a;
      for (const auto& p : o) a.push_back(ConvertPoint<Af>(p));
      return std::make_pair(ok, a);
    });
    if (n) PBT_T(out.second[n - 1] == (scalars[n - 1] * base).ToAffine(), "fixed_base_value");
    auto all = Same(c, t, "scalars_to_points", [&] {
      std::vector<Ja> o(n);
      bool ok = Af::MultiScalarMul(scalars, base, &o);
      std::vector<Af> a;
      for (const auto& p : o) a.push_back(p.ToAffine());
      return std::make_pair(ok, a);
    });
    if (all.first) PBT_T(all.second == out.second, "scalars_to_points_value");
  }

  template <typename T>
  static void BatchOf(Case& c, const std::vector<int>& t, const std::vector<Af>& ps, Rng& r) {
    std::vector<T> in;
    for (const Af& p : ps) {
      T x = ConvertPoint<T>(p);
      if (r.Bool()) { x += ConvertPoint<T>(Af::Generator()); x -= ConvertPoint<T>(Af::Generator()); }
      in.push_back(x);
    }
    auto norm = Same(c, t, "normalize", [&] {
      std::vector<Af> o(in.size());
      bool ok = T::BatchNormalize(in, &o);
      return std::make_pair(ok, o);
    });
    PBT_T(norm.first && norm.second == ps, "normalize_value");
    auto conv = Same(c, t, "convert", [&] {
      std::vector<Af> o(in.size());
      bool ok = ConvertPoints(in, &o);
      return std::make_pair(ok, o);
    });
    PBT_T(conv.first && conv.second == ps, "convert_value");
    Same(c, t, "double_all", [&] {
      std::vector<T> o(ps.size());
      bool ok = ConvertPoints(ps, &o);
      return std::make_pair(ok, o);
    });
  }
  static void Batch(Case& c) {
    Rng r = c.Bulk();
    auto t = Counts(c);
    size_t n = AnyN(c, 700);
    c.Nontrivial(n > 8);
    c.Note(n, " points");
    std::vector<Af> ps;
    bool ends = c.Bool();
    for (size_t i = 0; i < n; ++i) ps.push_back(Table()[ends && (i == 0 || i + 1 == n) ? 0 : r.Upto(40)]);
    switch (c.Draw(2)) {
      case 0: BatchOf<Ja>(c, t, ps, r); break;
      case 1: BatchOf<Pr>(c, t, ps, r); break;
      default: BatchOf<Xy>(c, t, ps, r); break;
    }
  }
};

template <typename Curve>
void RegisterFor(const std::string& n, size_t k) {
  Curve::Init();
  pbt::Register("msm." + n, 3 * k, 300 * k, Points<Curve>::Msm);
  pbt::Register("fixed_base." + n, 2 * k, 200 * k, Points<Curve>::Fixed);
  pbt::Register("point_batches." + n, 3 * k, 300 * k, Points<Curve>::Batch);
}
void RegisterAll() {
  RegisterFor<bn254::G1Curve>("bn254_g1", 4);
  RegisterFor<bn254::G2Curve>("bn254_g2", 1);
  RegisterFor<bls12_381::G1Curve>("bls12_381_g1", 1);
}
PBT_INIT(RegisterAll);

}  // namespace

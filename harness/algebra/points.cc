// Generic algorithms over curve points, against repeated addition.
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"

#include "verif/algebra/common.h"

namespace algebra {
namespace {

using namespace tachyon::math;  // NOLINT

template <typename Curve>
struct PointProps {
  using Affine = typename Curve::AffinePoint;
  using Jacobian = typename Curve::JacobianPoint;
  using Projective = typename Curve::ProjectivePoint;
  using XYZZ = typename Curve::PointXYZZ;
  using Base = typename Affine::BaseField;
  using Scalar = typename Affine::ScalarField;

  // A multiple of the generator, sometimes zero, without scaling.
  static Jacobian AnyJ(Case& c) {
    uint64_t k = c.Draw(12);
    if (k == 0) return Jacobian::Zero();
    if (k == 1) return Jacobian(Curve::Config::kGenerator.x,
                                Curve::Config::kGenerator.y, Base::One());
    Jacobian g = Jacobian::Generator();
    uint64_t e = c.Draw(1) ? c.Draw(40) : c.Draw(UINT64_MAX);
    Jacobian r = RefMul(g, mpz_class(static_cast<unsigned long>(e)));
    return c.Bool() ? r : -r;
  }
  static Base AnyZ(Case& c) {
    switch (c.Draw(3)) {
      case 0:
        return Base::One();
      case 1:
        return Base::One() + Base::One();
      default: {
        Base b = Base::One().Double() + Base::One();
        return b.Pow(1 + c.Draw(100000));
      }
    }
  }
  // Reference normalisation.
  static Affine Norm(const Jacobian& j) {
    if (j.z().IsZero()) return Affine::Zero();
    Base i = *j.z().Inverse();
    Base i2 = i * i;
    return Affine(j.x() * i2, j.y() * i2 * i);
  }
  // Other representations of the affine point |a|.
  static Jacobian ScaledJ(const Affine& a, const Base& z) {
    if (a.IsZero()) return Jacobian(z, z, Base::Zero());
    return Jacobian(a.x() * z * z, a.y() * z * z * z, z);
  }
  static Projective ScaledP(const Affine& a, const Base& z) {
    if (a.IsZero()) return Projective(z, z, Base::Zero());
    return Projective(a.x() * z, a.y() * z, z);
  }
  static XYZZ ScaledX(const Affine& a, const Base& z) {
    if (a.IsZero()) return XYZZ(z, z, Base::Zero(), Base::Zero());
    Base z2 = z * z, z3 = z2 * z;
    return XYZZ(a.x() * z2, a.y() * z3, z2, z3);
  }

  static void Scalars(Case& c) {
    Curve::Init();
    Jacobian j = AnyJ(c);
    Affine a = Norm(j);
    mpz_class z;
    BigInt<4> b = AnyBigInt<4>(c);
    if (c.Bool()) b.limbs[3] = b.limbs[2] = 0;
    z = ToMpz(b);
    c.Note("point=", a.ToString(), " scalar=", z);
    c.Nontrivial(!a.IsZero() && z > 1);
    Base s = AnyZ(c);
    Affine want = Norm(RefMul(j, z));
    PBT_CHECK(c, a.ScalarMul(b).ToAffine() == want);
    PBT_CHECK(c, ScaledJ(a, s).ScalarMul(b).ToAffine() == want);
    PBT_CHECK(c, ScaledP(a, s).ScalarMul(b).ToAffine() == want);
    PBT_CHECK(c, ScaledX(a, s).ScalarMul(b).ToAffine() == want);
    uint64_t e = b.limbs[0];
    want = Norm(RefMul(j, mpz_class(static_cast<unsigned long>(e))));
    PBT_CHECK(c, a.ScalarMul(e).ToAffine() == want);
    PBT_CHECK(c, ScaledX(a, s).ScalarMul(e).ToAffine() == want);
    Scalar f = AnyPrimeField<Scalar>(c);
    want = Norm(RefMul(j, FieldToMpz(f)));
    PBT_CHECK(c, (f * a).ToAffine() == want);
    PBT_CHECK(c, (a * f).ToAffine() == want);
    PBT_CHECK(c, (f * ScaledJ(a, s)).ToAffine() == want);
    PBT_CHECK(c, (ScaledP(a, s) * f).ToAffine() == want);
    PBT_CHECK(c, (ScaledX(a, s) * f).ToAffine() == want);
    Const<Jacobian>(c, ScaledJ(a, s), j);
    Const<Projective>(c, ScaledP(a, s), j);
    Const<XYZZ>(c, ScaledX(a, s), j);
  }
  template <typename P>
  static void Const(Case& c, const P& p, const Jacobian& j) {
    auto at = [&](unsigned k) { return Norm(RefMul(j, mpz_class(k))); };
    PBT_CHECK(c, p.template ConstScalarMul<0>().ToAffine() == at(0));
    PBT_CHECK(c, p.template ConstScalarMul<1>().ToAffine() == at(1));
    PBT_CHECK(c, p.template ConstScalarMul<2>().ToAffine() == at(2));
    PBT_CHECK(c, p.template ConstScalarMul<3>().ToAffine() == at(3));
    PBT_CHECK(c, p.template ConstScalarMul<4>().ToAffine() == at(4));
    PBT_CHECK(c, p.template ConstScalarMul<5>().ToAffine() == at(5));
    PBT_CHECK(c, p.template ConstScalarMul<6>().ToAffine() == at(6));
    PBT_CHECK(c, p.template ConstScalarMul<7>().ToAffine() == at(7));
    PBT_CHECK(c, p.template ConstScalarMul<11>().ToAffine() == at(11));
  }

  // Sequences, several scalars, normalisation of many points.
  static void Many(Case& c) {
    Curve::Init();
    size_t n = c.OneIn(30) ? c.Draw(1300) : c.Size(24);
    c.Note("n=", n);
    c.Nontrivial(n > 1);
    Jacobian j = AnyJ(c), k = AnyJ(c);
    std::vector<Jacobian> pts;
    std::vector<Base> zs = {AnyZ(c), AnyZ(c), Base::One()};
    Rng r = c.Bulk();
    uint64_t zeros = c.Pick({0, 1, 8});
    Jacobian x = j;
    for (size_t i = 0; i < n; ++i) {
      pts.push_back(r.Upto(15) < zeros ? Jacobian::Zero() : x);
      x = x + k;
    }
    std::vector<Affine> aff;
    for (auto& p : pts) aff.push_back(Norm(p));
    std::vector<Jacobian> js;
    std::vector<Projective> ps;
    std::vector<XYZZ> xs;
    for (auto& a : aff) {
      js.push_back(ScaledJ(a, zs[r.Upto(2)]));
      ps.push_back(ScaledP(a, zs[r.Upto(2)]));
      xs.push_back(ScaledX(a, zs[r.Upto(2)]));
    }
    std::vector<Affine> out(n, Affine::Generator());
    auto same = [&](const char* what) {
      for (size_t i = 0; i < n; ++i)
        if (out[i] != aff[i])
          c.Fail(what, std::string(what) + " entry " + std::to_string(i) +
                           " got " + out[i].ToString() + " want " +
                           aff[i].ToString());
      out.assign(n, Affine::Generator());
    };
    PBT_CHECK(c, Jacobian::BatchNormalize(js, &out));
    same("jacobian");
    PBT_CHECK(c, Jacobian::BatchNormalizeSerial(js, &out));
    same("jacobian serial");
    PBT_CHECK(c, Projective::BatchNormalize(ps, &out));
    same("projective");
    PBT_CHECK(c, Projective::BatchNormalizeSerial(ps, &out));
    same("projective serial");
    PBT_CHECK(c, XYZZ::BatchNormalize(xs, &out));
    same("xyzz");
    PBT_CHECK(c, XYZZ::BatchNormalizeSerial(xs, &out));
    same("xyzz serial");
    std::vector<Affine> wrong(n + 1);
    PBT_CHECK(c, !Jacobian::BatchNormalize(js, &wrong));
    PBT_CHECK(c, !Projective::BatchNormalize(ps, &wrong));
    PBT_CHECK(c, !XYZZ::BatchNormalize(xs, &wrong));

    // 0G, 1G, ...
    auto seq = Jacobian::GetSuccessiveScalarMuls(n, j);
    PBT_CHECK(c, seq.size() == n);
    Jacobian acc = Jacobian::Zero();
    for (size_t i = 0; i < n; ++i, acc = acc + j)
      PBT_CHECK_MSG(c, seq[i] == acc, i);
    size_t m = n < 8 ? n : 8;
    std::vector<Scalar> s;
    for (size_t i = 0; i < m; ++i) s.push_back(AnyPrimeField<Scalar>(c));
    std::vector<Affine> pa(aff.begin(), aff.begin() + m);
    std::vector<Jacobian> pj(js.begin(), js.begin() + m);
    std::vector<Jacobian> o(m);
    PBT_CHECK(c, Jacobian::MultiScalarMul(s, pj, &o) == (m > 0));
    for (size_t i = 0; i < m; ++i)
      PBT_CHECK_MSG(c, o[i] == RefMul(pj[i], FieldToMpz(s[i])), i);
    if (m == 0) return;
    PBT_CHECK(c, Affine::MultiScalarMul(s, pa, &o));
    for (size_t i = 0; i < m; ++i)
      PBT_CHECK_MSG(c, o[i] == RefMul(pj[i], FieldToMpz(s[i])), i);
    PBT_CHECK(c, Jacobian::MultiScalarMul(s, pj[0], &o));
    for (size_t i = 0; i < m; ++i)
      PBT_CHECK_MSG(c, o[i] == RefMul(pj[0], FieldToMpz(s[i])), i);
    PBT_CHECK(c, Jacobian::MultiScalarMul(s[0], pj, &o));
    for (size_t i = 0; i < m; ++i)
      PBT_CHECK_MSG(c, o[i] == RefMul(pj[i], FieldToMpz(s[0])), i);
    // linear combinations by a scalar
    Jacobian fwd = Jacobian::Zero(), bwd = Jacobian::Zero();
    mpz_class z = FieldToMpz(s[0]);
    for (size_t i = 0; i < m; ++i) {
      fwd = RefMul(fwd, z) + pj[i];
      bwd = RefMul(bwd, z) + pj[m - 1 - i];
    }
    PBT_CHECK(c, Jacobian::template LinearCombination<true>(pj, s[0]) == fwd);
    PBT_CHECK(c, Jacobian::template LinearCombination<false>(pj, s[0]) == bwd);
    auto t = pj;
    PBT_CHECK(c, Jacobian::template LinearCombinationInPlace<true>(t, s[0]) == fwd);
    t = pj;
    PBT_CHECK(c, Jacobian::template LinearCombinationInPlace<false>(t, s[0]) == bwd);
  }

  // One base point mapped by many scalars.
  static void Map(Case& c) {
    Curve::Init();
    size_t n = c.Size(12);
    std::vector<Scalar> s;
    for (size_t i = 0; i < n; ++i) s.push_back(AnyPrimeField<Scalar>(c));
    Jacobian j = AnyJ(c);
    Affine a = Norm(j);
    c.Note("point=", a.ToString(), " n=", n);
    c.Nontrivial(n > 1 && !a.IsZero());
    std::vector<Affine> out(n, Affine::Generator());
    PBT_CHECK(c, Affine::BatchMapScalarFieldToPoint(a, s, &out));
    for (size_t i = 0; i < n; ++i)
      PBT_CHECK_MSG(c, out[i] == Norm(RefMul(j, FieldToMpz(s[i]))), i);
    std::vector<Affine> wrong(n + 1);
    PBT_CHECK(c, !Affine::BatchMapScalarFieldToPoint(a, s, &wrong));
  }

  static int Reg(const std::string& name) {
    Register(name + "/scalars", 300, 6000, &Scalars);
    Register(name + "/many", 150, 3000, &Many);
    Register(name + "/map", 100, 2000, &Map);
    return 0;
  }
};

void RegisterAll() {
  PointProps<bn254::G1Curve>::Reg("bn254_g1");
  PointProps<bls12_381::G1Curve>::Reg("bls12_381_g1");
  PointProps<secp256k1::Curve>::Reg("secp256k1");
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace algebra

// C10: short Weierstrass points follow the chord-and-tangent group law.
#include <string>
#include <type_traits>
#include <vector>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/test/sw_curve_config.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/geometry/point_conversions.h"

#include "verif/curve/own_neg.h"
#include "verif/curve/own_one.h"
#include "verif/curve/own_pos.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

// A curve of our own, with any coefficients. A, B below zero stand for big ones.
template <typename _BaseField, typename _ScalarField, int A, int B>
class OwnConfig {
 public:
  using BaseField = _BaseField;
  using BasePrimeField = BaseField;
  using ScalarField = _ScalarField;
  using CpuBaseField = typename BaseField::CpuField;
  using CpuScalarField = typename ScalarField::CpuField;
  using GpuBaseField = typename BaseField::GpuField;
  using GpuScalarField = typename ScalarField::GpuField;
  using CpuCurveConfig = OwnConfig<CpuBaseField, CpuScalarField, A, B>;
  using GpuCurveConfig = OwnConfig<GpuBaseField, GpuScalarField, A, B>;

  constexpr static bool kAIsZero = A == 0;
  static BaseField kA;
  static BaseField kB;
  static tm::Point2<BaseField> kGenerator;
  static BaseField MulByA(const BaseField& v) { return v * kA; }

  static void Init() {
    auto big = [](int v) {
      BaseField f = BaseField(v < 0 ? -v : v);
      if (v < 0) f = -(f * f * f * f * f).Square().Square().Square();
      return f;
    };
    kA = big(A);
    kB = big(B);
    for (int x = 0;; ++x) {
      BaseField f(x), y;
      BaseField rhs = f * f * f + kA * f + kB;
      if (rhs.SquareRoot(&y) && y.Square() == rhs && !rhs.IsZero()) {
        kGenerator = {f, y};
        break;
      }
    }
  }
};
template <typename F, typename R, int A, int B>
F OwnConfig<F, R, A, B>::kA;
template <typename F, typename R, int A, int B>
F OwnConfig<F, R, A, B>::kB;
template <typename F, typename R, int A, int B>
tm::Point2<F> OwnConfig<F, R, A, B>::kGenerator;

template <typename F>
struct Elem {
  static F Any(Rng& r) { return BulkPrimeField<F>(r); }
  static constexpr bool kPrime = true;
  static bool Sqrt(const F& v, F* r) { return v.SquareRoot(r); }
};
template <typename Q>
struct Elem2 {
  static Q Any(Rng& r) {
    using B = typename Q::BaseField;
    B a = BulkPrimeField<B>(r), b = BulkPrimeField<B>(r);
    if (r.Upto(7) == 0) b = B::Zero();
    return Q(a, b);
  }
  static constexpr bool kPrime = false;
  // Complex method; both quadratic extensions adjoin a root of -1.
  static bool Sqrt(const Q& v, Q* r) {
    using B = typename Q::BaseField;
    B s, x;
    if (!(v.c0() * v.c0() + v.c1() * v.c1()).SquareRoot(&s)) return false;
    B half = *B(2).Inverse();
    if (!((v.c0() + s) * half).SquareRoot(&x) &&
        !((v.c0() - s) * half).SquareRoot(&x))
      return false;
    if (x.IsZero()) return false;
    *r = Q(x, v.c1() * half * *x.Inverse());
    return true;
  }
};
template <>
struct Elem<tm::bn254::Fq2> : Elem2<tm::bn254::Fq2> {};
template <>
struct Elem<tm::bls12_381::Fq2> : Elem2<tm::bls12_381::Fq2> {};

template <typename Curve, bool kHasEndo>
struct P {
  using F = typename Curve::BaseField;
  using S = typename Curve::ScalarField;
  using Cfg = typename Curve::Config;
  using Af = tm::AffinePoint<Curve>;
  using Pr = tm::ProjectivePoint<Curve>;
  using Ja = tm::JacobianPoint<Curve>;
  using Xy = tm::PointXYZZ<Curve>;
  static constexpr bool kTiny = std::is_same_v<F, tm::GF7>;

  // --- the group law, from the definition ------------------------------------
  struct Pt {
    bool inf = true;
    F x = F::Zero(), y = F::Zero();
    bool operator==(const Pt& o) const {
      return inf == o.inf && (inf || (x == o.x && y == o.y));
    }
  };
  static std::string Show(const Pt& a) {
    return a.inf ? "O" : "(" + a.x.ToString() + "," + a.y.ToString() + ")";
  }
  static Pt Neg(Pt a) {
    a.y = -a.y;
    return a;
  }
  static Pt Add(const Pt& a, const Pt& b) {
    if (a.inf) return b;
    if (b.inf) return a;
    F l;
    if (a.x == b.x) {
      if (!(a.y == b.y) || a.y.IsZero()) return Pt();
      F xx = a.x * a.x;
      l = (xx + xx + xx + Cfg::kA) * *(a.y + a.y).Inverse();
    } else {
      l = (b.y - a.y) * *(b.x - a.x).Inverse();
    }
    Pt r;
    r.inf = false;
    r.x = l * l - a.x - b.x;
    r.y = l * (a.x - r.x) - a.y;
    return r;
  }
  static Pt Mul(const Pt& a, const mpz_class& k) {
    Pt r;
    for (size_t i = mpz_sizeinbase(k.get_mpz_t(), 2); i-- > 0;) {
      r = Add(r, r);
      if (mpz_tstbit(k.get_mpz_t(), i)) r = Add(r, a);
    }
    return r;
  }
  static F Rhs(const F& x) { return x * x * x + Cfg::kA * x + Cfg::kB; }
  static Pt Gen() {
    Pt g;
    g.inf = false;
    g.x = Cfg::kGenerator.x;
    g.y = Cfg::kGenerator.y;
    return g;
  }

  // --- generators --------------------------------------------------------------
  static F AnyF(Rng& r) { return Elem<F>::Any(r); }
  static F NonZero(Rng& r) {
    switch (r.Upto(7)) {
      case 0:
        return F::One();
      case 1:
        return -F::One();
    }
    F f = AnyF(r);
    return f.IsZero() ? F::One() : f;
  }
  static Pt OnCurve(Rng& r) {
    for (;;) {
      Pt p;
      p.inf = false;
      p.x = AnyF(r);
      if (!kTiny && r.Upto(7) == 0) p.x = F(r.Upto(20));
      F rhs = Rhs(p.x);
      if (!Elem<F>::Sqrt(rhs, &p.y) || !(p.y * p.y == rhs)) continue;
      if (r.Bool()) p.y = -p.y;
      return p;
    }
  }
  static Pt AnyPt(Case& c) {
    uint64_t style = c.Draw(9);
    Rng r = c.Bulk();
    switch (style) {
      case 0:
        return Pt();
      case 1:
        return Gen();
      case 2:
      case 3:
        return Mul(Gen(), 1 + r.Upto(20));
      default:
        return OnCurve(r);
    }
  }
  // A second operand that is related to the first one more often than not.
  static Pt Other(Case& c, const Pt& p) {
    switch (c.Draw(9)) {
      case 0:
        return p;
      case 1:
        return Neg(p);
      case 2:
        return Add(p, p);
      case 3:
        return Neg(Add(p, p));
      case 4:
        return Pt();
      case 5:
        if constexpr (kHasEndo) {  // the same y with another x
          Pt q = p;
          q.x = p.x * Cfg::kEndomorphismCoefficient;
          return c.Bool() ? q : Neg(q);
        }
        return Gen();
      default:
        return AnyPt(c);
    }
  }
  static Af ToAf(const Pt& p) { return p.inf ? Af::Zero() : Af(p.x, p.y); }
  static Pr ToPr(Rng& r, const Pt& p) {
    F l = NonZero(r);
    if (p.inf) {
      switch (r.Upto(2)) {
        case 0:
          return Pr::Zero();
        case 1:
          return Pr(F::Zero(), l, F::Zero());
        default:
          return Pr(l, NonZero(r), F::Zero());
      }
    }
    return Pr(l * p.x, l * p.y, l);
  }
  static Ja ToJa(Rng& r, const Pt& p) {
    F l = NonZero(r);
    if (p.inf) return r.Bool() ? Ja::Zero() : Ja(l * l, l * l * l, F::Zero());
    return Ja(l * l * p.x, l * l * l * p.y, l);
  }
  static Xy ToXy(Rng& r, const Pt& p) {
    F l = NonZero(r);
    if (r.Upto(5) == 0) {  // cube roots of unity: zzz = 1 and zz != 1
      if constexpr (kHasEndo) l = Cfg::kEndomorphismCoefficient;
    }
    F l2 = l * l, l3 = l * l * l;
    if (p.inf) return r.Bool() ? Xy::Zero() : Xy(l2, l3, F::Zero(), F::Zero());
    return Xy(l2 * p.x, l3 * p.y, l2, l3);
  }

  // --- what a point is -----------------------------------------------------------
  static Pt From(const Af& a) {
    Pt p;
    if (a.x().IsZero() && a.y().IsZero()) return p;
    p.inf = false;
    p.x = a.x();
    p.y = a.y();
    return p;
  }
  static Pt From(const Pr& a) {
    Pt p;
    if (a.z().IsZero()) return p;
    F i = *a.z().Inverse();
    p.inf = false;
    p.x = a.x() * i;
    p.y = a.y() * i;
    return p;
  }
  static Pt From(const Ja& a) {
    Pt p;
    if (a.z().IsZero()) return p;
    F i = *a.z().Inverse();
    p.inf = false;
    p.x = a.x() * i * i;
    p.y = a.y() * i * i * i;
    return p;
  }
  static Pt From(const Xy& a) {
    Pt p;
    if (a.zz().IsZero()) return p;
    p.inf = false;
    p.x = a.x() * *a.zz().Inverse();
    p.y = a.y() * *a.zzz().Inverse();
    return p;
  }
  template <typename T>
  static bool Valid(const T&) {
    return true;
  }
  static bool Valid(const Xy& a) {
    F z2 = a.zz(), z3 = a.zzz();
    return z2 * z2 * z2 == z3 * z3;
  }
  template <typename T>
  static void Is(Case& c, const T& a, const Pt& want, const char* what) {
    PBT_TM(From(a) == want, what, "not the point the group law gives");
    PBT_TM(a.IsZero() == want.inf, what, "IsZero");
    PBT_TM(Valid(a), what, "zz^3 != zzz^2");
  }

  // --- properties ------------------------------------------------------------------
  template <typename T>
  static void Arith(Case& c, const T& a, const T& b, const Pt& p, const Pt& q,
                    const std::string& n) {
    auto is = [&c, &n](const auto& v, const Pt& w, const char* what) {
      Is(c, v, w, (n + ": " + what).c_str());
    };
    Pt sum = Add(p, q), diff = Add(p, Neg(q)), dbl = Add(p, p);
    is(a + b, sum, "a + b");
    is(b + a, sum, "b + a");
    is(a - b, diff, "a - b");
    is(-a, Neg(p), "-a");
    is(a.Double(), dbl, "double");
    is(a + a, dbl, "a + a");
    T t = a;
    t += b;
    is(t, sum, "a += b");
    t = a;
    t -= b;
    is(t, diff, "a -= b");
    t = a;
    t += t;
    is(t, dbl, "a += a");
    t = a;
    t -= t;
    is(t, Pt(), "a -= a");
    t = a;
    t.DoubleInPlace();
    is(t, dbl, "double in place");
    t = a;
    t.NegateInPlace();
    is(t, Neg(p), "negate in place");
    Af af = ToAf(q);
    is(a + af, sum, "a + affine");
    is(af + a, sum, "affine + a");
    is(a - af, diff, "a - affine");
    is(af - a, Neg(diff), "affine - a");
    t = a;
    t += af;
    is(t, sum, "a += affine");
    t = a;
    t -= af;
    is(t, diff, "a -= affine");
    is(a, p, "left operand changed");
    is(b, q, "right operand changed");
    PBT_TM((a == b) == (p == q), n + ": equality", "==");
    PBT_TM((a != b) == !(p == q), n + ": inequality", "!=");
    is(a.template ConstScalarMul<0>(), Pt(), "0a");
    is(a.template ConstScalarMul<3>(), Add(dbl, p), "3a");
    is(a.template ConstScalarMul<5>(), Add(Add(dbl, dbl), p), "5a");
    is(a.template ConstScalarMul<6>(), Add(Add(dbl, dbl), dbl), "6a");
    is(a.template ConstScalarMul<7>(), Add(Add(Add(dbl, dbl), dbl), p), "7a");
    is(T::Zero(), Pt(), "zero");
    is(T::One(), Gen(), "one");
    is(T::Generator(), Gen(), "generator");
  }
  static void Group(Case& c) {
    Pt p = AnyPt(c), q = Other(c, p);
    Rng r = c.Bulk();
    if (!p.inf && !q.inf) c.Nontrivial();
    if (c.verbose()) c.Note("P=", Show(p), " Q=", Show(q));
    c.Label(p == q ? "P = Q" : p == Neg(q) ? "P = -Q" : p.inf || q.inf ? "O" : "P != Q");
    c.LabelIf(!p.inf && p.y.IsZero(), "order two");
    switch (c.Draw(2)) {
      case 0:
        Arith(c, ToPr(r, p), ToPr(r, q), p, q, "projective");
        break;
      case 1:
        Arith(c, ToJa(r, p), ToJa(r, q), p, q, "jacobian");
        break;
      default:
        Arith(c, ToXy(r, p), ToXy(r, q), p, q, "xyzz");
    }
    Af a = ToAf(p), b = ToAf(q);
    Pt sum = Add(p, q), dbl = Add(p, p);
    Is(c, a + b, sum, "affine + affine");
    Is(c, a - b, Add(p, Neg(q)), "affine - affine");
    Is(c, -a, Neg(p), "-affine");
    Is(c, a.Double(), dbl, "affine double");
    Is(c, a.DoubleProjective(), dbl, "affine to projective double");
    Is(c, a.DoubleXYZZ(), dbl, "affine to xyzz double");
    Af t = a;
    t.NegateInPlace();
    Is(c, t, Neg(p), "affine negate in place");
    PBT_T((a == b) == (p == q), "affine ==");
    PBT_T((a != b) == !(p == q), "affine !=");
    Is(c, Af::Generator(), Gen(), "affine generator");
    Is(c, Af::One(), Gen(), "affine one");
    Is(c, Af::Zero(), Pt(), "affine zero");
  }

  template <typename T>
  static void EndoOf(Case& c, const T& a, const Pt& lp, const char* what) {
    if constexpr (kHasEndo) Is(c, T::Endomorphism(a), lp, what);
  }
  static void Scalar(Case& c) {
    Pt p = AnyPt(c);
    S k;
    Rng r = c.Bulk();
    switch (c.Draw(5)) {
      case 0:
        k = S(c.Draw(6));
        break;
      case 1:
        k = -S(1 + c.Draw(5));
        break;
      case 2:
        k = S(r.Upto(kTiny ? 6 : 100000));
        break;
      default:
        k = BulkPrimeField<S>(r);
    }
    mpz_class n = FieldToMpz(k);
    c.LabelIf(n == 0, "zero scalar");
    if (!p.inf && n > 1) c.Nontrivial();
    if (c.verbose()) c.Note("P=", Show(p), " k=", n);
    Pt want = Mul(p, n);
    Af af = ToAf(p);
    switch (c.Draw(3)) {
      case 0:
        Is(c, k * af, want, "scalar * affine");
        Is(c, af * k, want, "affine * scalar");
        break;
      case 1: {
        Pr a = ToPr(r, p);
        Is(c, k * a, want, "scalar * projective");
        Is(c, a * k, want, "projective * scalar");
        a *= k;
        Is(c, a, want, "projective *= scalar");
        break;
      }
      case 2: {
        Ja a = ToJa(r, p);
        Is(c, k * a, want, "scalar * jacobian");
        Is(c, a * k, want, "jacobian * scalar");
        a *= k;
        Is(c, a, want, "jacobian *= scalar");
        break;
      }
      default: {
        Xy a = ToXy(r, p);
        Is(c, k * a, want, "scalar * xyzz");
        Is(c, a * k, want, "xyzz * scalar");
        a *= k;
        Is(c, a, want, "xyzz *= scalar");
      }
    }
    uint64_t small = r.Upto(200);
    Is(c, ToJa(r, p).ScalarMul(small), Mul(p, small), "scalar mul by integer");
    Is(c, af.ScalarMul(small), Mul(p, small), "affine scalar mul by integer");
    if (c.Draw(3) == 0) {
      // An integer wider than the scalar field, reduced nowhere.
      tm::BigInt<S::N + 1> wide;
      for (size_t i = 0; i <= S::N; ++i) wide[i] = i < S::N ? r.Next() : r.Upto(9);
      Is(c, ToXy(r, p).ScalarMul(wide), Mul(p, ToMpz(wide)),
         "scalar mul by a wide integer");
    }
    if constexpr (kHasEndo) {
      Pt g = Mul(Gen(), 1 + r.Upto(1000));
      if (r.Upto(7) == 0) g = Pt();
      Pt lg = Mul(g, FieldToMpz(Cfg::kLambda));
      EndoOf(c, ToAf(g), lg, "affine endomorphism");
      EndoOf(c, ToPr(r, g), lg, "projective endomorphism");
      EndoOf(c, ToJa(r, g), lg, "jacobian endomorphism");
      EndoOf(c, ToXy(r, g), lg, "xyzz endomorphism");
    }
    if constexpr (!kTiny) {
      if (c.Draw(9) == 0 && kOrderKnown) {
        Is(c, ToJa(r, Gen()).ScalarMul(ToOrder()), Pt(), "order of the generator");
        Is(c, Ja::Random().ScalarMul(ToOrder()), Pt(), "a random point's order");
        Is(c, Af::Random() * S::Zero(), Pt(), "random * 0");
      }
    }
  }
  static bool kOrderKnown;
  static tm::BigInt<S::N> ToOrder() { return FromMpz<S::N>(Modulus<S>()); }

  static void Convert(Case& c) {
    Pt p = AnyPt(c), q = c.Draw(2) ? p : Other(c, p);
    Rng r = c.Bulk();
    if (!p.inf) c.Nontrivial();
    c.LabelIf(p.inf, "identity");
    Af a = ToAf(p);
    Pr b = ToPr(r, p);
    Ja j = ToJa(r, p);
    Xy x = ToXy(r, p);
    Is(c, a.ToProjective(), p, "affine to projective");
    Is(c, a.ToJacobian(), p, "affine to jacobian");
    Is(c, a.ToXYZZ(), p, "affine to xyzz");
    Is(c, b.ToAffine(), p, "projective to affine");
    Is(c, b.ToJacobian(), p, "projective to jacobian");
    Is(c, b.ToXYZZ(), p, "projective to xyzz");
    Is(c, j.ToAffine(), p, "jacobian to affine");
    Is(c, j.ToProjective(), p, "jacobian to projective");
    Is(c, j.ToXYZZ(), p, "jacobian to xyzz");
    Is(c, x.ToAffine(), p, "xyzz to affine");
    Is(c, x.ToProjective(), p, "xyzz to projective");
    Is(c, x.ToJacobian(), p, "xyzz to jacobian");
    Is(c, Af::FromProjective(b), p, "affine from projective");
    Is(c, Af::FromJacobian(j), p, "affine from jacobian");
    Is(c, Af::FromXYZZ(x), p, "affine from xyzz");
    Is(c, Pr::FromAffine(a), p, "projective from affine");
    Is(c, Pr::FromJacobian(j), p, "projective from jacobian");
    Is(c, Pr::FromXYZZ(x), p, "projective from xyzz");
    Is(c, Ja::FromAffine(a), p, "jacobian from affine");
    Is(c, Ja::FromProjective(b), p, "jacobian from projective");
    Is(c, Ja::FromXYZZ(x), p, "jacobian from xyzz");
    Is(c, Xy::FromAffine(a), p, "xyzz from affine");
    Is(c, Xy::FromProjective(b), p, "xyzz from projective");
    Is(c, Xy::FromJacobian(j), p, "xyzz from jacobian");
    Is(c, tm::ConvertPoint<Ja>(x), p, "convert xyzz to jacobian");
    Is(c, tm::ConvertPoint<Af>(b), p, "convert projective to affine");
    Is(c, tm::ConvertPoint<Xy>(a), p, "convert affine to xyzz");
    Is(c, tm::ConvertPoint<Pr>(j), p, "convert jacobian to projective");
    Is(c, tm::ConvertPoint<Xy>(x), p, "convert xyzz to itself");
    // Two coordinate triples of the same or another point.
    PBT_T((b == ToPr(r, q)) == (p == q), "projective ==");
    PBT_T((j == ToJa(r, q)) == (p == q), "jacobian ==");
    PBT_T((x == ToXy(r, q)) == (p == q), "xyzz ==");
    PBT_T((b != ToPr(r, q)) == !(p == q), "projective !=");
    PBT_T((j != ToJa(r, q)) == !(p == q), "jacobian !=");
    PBT_T((x != ToXy(r, q)) == !(p == q), "xyzz !=");
    PBT_T(a.ToString() == "(" + a.x().ToString() + ", " + a.y().ToString() + ")",
          "affine text");
    PBT_T(x.ToString() == "(" + x.x().ToString() + ", " + x.y().ToString() +
                              ", " + x.zz().ToString() + ", " +
                              x.zzz().ToString() + ")",
          "xyzz text");
    bool pad = c.Bool();
    PBT_T(j.ToHexString(pad) == "(" + j.x().ToHexString(pad) + ", " +
                                    j.y().ToHexString(pad) + ", " +
                                    j.z().ToHexString(pad) + ")",
          "jacobian hex");
    PBT_T(b.ToHexString(pad) == "(" + b.x().ToHexString(pad) + ", " +
                                    b.y().ToHexString(pad) + ", " +
                                    b.z().ToHexString(pad) + ")",
          "projective hex");
  }

  template <typename T, typename Mk>
  static void BatchOf(Case& c, Mk mk, const std::vector<Pt>& ps,
                      const char* what) {
    std::vector<T> in;
    for (const Pt& p : ps) in.push_back(mk(p));
    std::vector<Af> out(ps.size());
    bool ok = T::BatchNormalize(in, &out);
    PBT_TM(ok, what, "refused");
    for (size_t i = 0; i < ps.size(); ++i) Is(c, out[i], ps[i], what);
    std::vector<Af> out2(ps.size());
    ok = T::BatchNormalizeSerial(in, &out2);
    PBT_TM(ok && out == out2, what, "serial");
    std::vector<Af> out3(ps.size());
    PBT_TM(tm::ConvertPoints(in, &out3) && out == out3, what, "convert");
    std::vector<T> back(ps.size());
    PBT_TM(tm::ConvertPoints(out, &back), what, "convert back");
    for (size_t i = 0; i < ps.size(); ++i) Is(c, back[i], ps[i], what);
    std::vector<Af> wrong(ps.size() + 1);
    PBT_TM(!T::BatchNormalize(in, &wrong), what, "wrong size accepted");
    PBT_TM(!tm::ConvertPoints(in, &wrong), what, "wrong size accepted");
  }
  static void Batch(Case& c) {
    size_t n = c.Size(12);
    std::vector<Pt> ps;
    bool inf = false;
    for (size_t i = 0; i < n; ++i) {
      ps.push_back(i && c.Draw(2) == 0 ? Other(c, ps.back()) : AnyPt(c));
      inf |= ps.back().inf;
    }
    if (n >= 2) c.Nontrivial();
    c.LabelIf(inf, "with the identity");
    Rng r = c.Bulk();
    switch (c.Draw(3)) {
      case 0:
        BatchOf<Pr>(c, [&r](const Pt& p) { return ToPr(r, p); }, ps,
                    "batch of projective points");
        break;
      case 1:
        BatchOf<Ja>(c, [&r](const Pt& p) { return ToJa(r, p); }, ps,
                    "batch of jacobian points");
        break;
      case 2:
        BatchOf<Xy>(c, [&r](const Pt& p) { return ToXy(r, p); }, ps,
                    "batch of xyzz points");
        break;
      default: {
        Pt p = AnyPt(c);
        std::vector<S> ks(std::min<size_t>(n, 6));
        for (S& k : ks)
          k = r.Upto(3) ? S(r.Upto(kTiny ? 6 : 1000)) : BulkPrimeField<S>(r);
        std::vector<Af> out(ks.size());
        PBT_T(Af::BatchMapScalarFieldToPoint(ToAf(p), ks, &out),
              "batch map refused");
        for (size_t i = 0; i < ks.size(); ++i)
          Is(c, out[i], Mul(p, FieldToMpz(ks[i])), "batch map");
        std::vector<Af> wrong(ks.size() + 1);
        PBT_T(!Af::BatchMapScalarFieldToPoint(ToAf(p), ks, &wrong),
              "wrong size accepted");
      }
    }
  }

  static void OnCurveTest(Case& c) {
    Rng r = c.Bulk();
    Pt p = OnCurve(r);
    F d = r.Upto(2) ? F::Zero() : NonZero(r);
    F e = r.Upto(2) ? F::Zero() : NonZero(r);
    bool mangle = !d.IsZero() || !e.IsZero();
    Pt q = p;
    q.x += d;
    q.y += e;
    if (q.x.IsZero() && q.y.IsZero()) return;
    c.Nontrivial();
    bool want = q.y * q.y == Rhs(q.x);
    c.Label(want ? "on" : "off");
    c.LabelIf(mangle && want, "another point");
    Af a(q.x, q.y);
    PBT_T(a.IsOnCurve() == want, "affine on curve");
    PBT_T(Curve::IsOnCurve(a) == want, "affine on curve");
    Pr b = ToPr(r, q);
    PBT_T(b.IsOnCurve() == want, "projective on curve");
    Ja j = ToJa(r, q);
    PBT_T(j.IsOnCurve() == want, "jacobian on curve");
    Xy x = ToXy(r, q);
    PBT_T(x.IsOnCurve() == want, "xyzz on curve");
    if (want) {
      Is(c, Af::CreateChecked(q.x, q.y), q, "affine checked");
      Is(c, Pr::CreateChecked(b.x(), b.y(), b.z()), q, "projective checked");
      Is(c, Ja::CreateChecked(j.x(), j.y(), j.z()), q, "jacobian checked");
      Is(c, Xy::CreateChecked(x.x(), x.y(), x.zz(), x.zzz()), q, "xyzz checked");
    }
  }

  static void FromX(Case& c) {
    if constexpr (Elem<F>::kPrime) {
      Rng r = c.Bulk();
      F x = AnyF(r);
      mpz_class rhs = FieldToMpz(Rhs(x));
      mpz_class m = Modulus<F>();
      int l = mpz_legendre(rhs.get_mpz_t(), m.get_mpz_t());
      bool odd = c.Bool();
      c.Nontrivial();
      c.Label(l < 0 ? "no point" : l == 0 ? "order two" : "point");
      std::optional<Af> a = Af::CreateFromX(x, odd);
      PBT_T(a.has_value() == (l >= 0), "point found");
      F even_y, odd_y;
      PBT_T(Curve::GetYsFromX(x, &even_y, &odd_y) == (l >= 0), "ys found");
      if (!a) return;
      PBT_T(a->x() == x, "x kept");
      PBT_T(a->y() * a->y() == Rhs(x), "on the curve");
      PBT_T((odd ? odd_y : even_y) == a->y(), "which y");
      PBT_T(odd_y == -even_y, "the two ys");
      if (l > 0) {
        PBT_T((FieldToMpz(a->y()) % 2 == 1) == odd, "parity of y");
        Pt p = From(*a);
        Ja j;
        Pr b;
        Xy xyzz;
        PBT_T(Curve::GetPointFromX(x, odd, &j) &&
                  Curve::GetPointFromX(x, odd, &b) &&
                  Curve::GetPointFromX(x, odd, &xyzz),
              "points found");
        Is(c, j, p, "jacobian from x");
        Is(c, b, p, "projective from x");
        Is(c, xyzz, p, "xyzz from x");
        Is(c, *Ja::CreateFromX(x, odd), p, "jacobian from x");
        Is(c, *Pr::CreateFromX(x, odd), p, "projective from x");
        Is(c, *Xy::CreateFromX(x, odd), p, "xyzz from x");
      }
    }
  }

  // A history of mixed operations against the reference.
  static void History(Case& c) {
    Pt p = AnyPt(c), q = Other(c, p);
    Rng r = c.Bulk();
    Ja j = ToJa(r, p);
    Pr b = ToPr(r, p);
    Xy x = ToXy(r, p);
    size_t n = 1 + c.Draw(9);
    c.Nontrivial();
    for (size_t i = 0; i < n; ++i) {
      switch (c.Draw(5)) {
        case 0:
          j += ToAf(q);
          b += ToAf(q);
          x += ToAf(q);
          p = Add(p, q);
          break;
        case 1:
          j = j - ToJa(r, q);
          b = b - ToPr(r, q);
          x = x - ToXy(r, q);
          p = Add(p, Neg(q));
          break;
        case 2:
          j.DoubleInPlace();
          b.DoubleInPlace();
          x.DoubleInPlace();
          p = Add(p, p);
          break;
        case 3: {  // change representations
          Ja j2 = x.ToJacobian();
          x = b.ToXYZZ();
          b = j.ToProjective();
          j = j2;
          break;
        }
        case 4:
          j.NegateInPlace();
          b.NegateInPlace();
          x.NegateInPlace();
          p = Neg(p);
          break;
        default: {
          q = Add(p, q);
          break;
        }
      }
      Is(c, j, p, "jacobian after steps");
      Is(c, b, p, "projective after steps");
      Is(c, x, p, "xyzz after steps");
    }
    PBT_T(j.ToAffine() == b.ToAffine() && b.ToAffine() == x.ToAffine(),
          "the same affine point");
  }

  static void RegisterAll(const std::string& n, bool order_known, size_t w) {
    kOrderKnown = order_known;
    RegisterBeforeCase([](uint64_t) { Curve::Init(); });
    auto reg = [&](const char* p, size_t k, auto fn) {
      Register(n + "." + p, k * w / 10, k * w, fn);
    };
    reg("group", 1500, Group);
    reg("scalar", 100, Scalar);
    reg("convert", 400, Convert);
    reg("batch", 150, Batch);
    reg("on_curve", 300, OnCurveTest);
    if (Elem<F>::kPrime) reg("from_x", 200, FromX);
    reg("history", 200, History);
  }
};
template <typename Curve, bool kHasEndo>
bool P<Curve, kHasEndo>::kOrderKnown = false;

template <int A, int B>
using Tiny = tm::SWCurve<OwnConfig<tm::GF7, tm::GF7, A, B>>;
template <int A, int B>
using Big = tm::SWCurve<OwnConfig<tm::bn254::Fq, tm::bn254::Fr, A, B>>;

void RegisterAll() {
  P<tm::test::G1Curve, false>::RegisterAll("gf7_test", false, 20);
  P<Tiny<0, 1>, false>::RegisterAll("gf7_a0_b1", false, 20);
  P<Tiny<1, 1>, false>::RegisterAll("gf7_a1_b1", false, 20);
  P<Tiny<4, 1>, false>::RegisterAll("gf7_a4_b1", false, 20);
  P<Tiny<3, 2>, false>::RegisterAll("gf7_a3_b2", false, 20);
  P<Tiny<6, 6>, false>::RegisterAll("gf7_a6_b6", false, 20);
  P<Big<-3, -5>, false>::RegisterAll("bn254_fq_a", false, 10);
  P<tm::own_pos::Curve, false>::RegisterAll("generated_a5", false, 10);
  P<tm::own_neg::Curve, false>::RegisterAll("generated_am3", false, 10);
  P<tm::own_one::Curve, false>::RegisterAll("generated_a1", false, 10);
  P<tm::secp256k1::Curve, false>::RegisterAll("secp256k1", true, 10);
  P<tm::pallas::Curve, false>::RegisterAll("pallas", true, 10);
  P<tm::vesta::Curve, false>::RegisterAll("vesta", true, 10);
  P<tm::bn254::G1Curve, true>::RegisterAll("bn254_g1", true, 10);
  P<tm::bls12_381::G1Curve, true>::RegisterAll("bls12_381_g1", true, 10);
  P<tm::bn254::G2Curve, true>::RegisterAll("bn254_g2", true, 5);
  P<tm::bls12_381::G2Curve, true>::RegisterAll("bls12_381_g2", true, 5);
}
}  // namespace
PBT_INIT(RegisterAll);

// C12: pairings are bilinear, non-degenerate and consistent.
#include <string>
#include <type_traits>
#include <vector>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

template <typename Curve, bool kBn>
struct P {
  using G1 = typename Curve::G1Curve;
  using G2 = typename Curve::G2Curve;
  using A1 = typename G1::AffinePoint;
  using A2 = typename G2::AffinePoint;
  using S = typename G1::ScalarField;
  using Fp = typename G1::BaseField;
  using Fp2 = typename G2::BaseField;
  using Fp12 = typename Curve::Fp12;
  using Fp6 = typename Fp12::BaseField;
  using Prep = typename Curve::G2Prepared;

  static S AnyS(Case& c) {
    switch (c.Draw(5)) {
      case 0:
        return S(c.Draw(5));
      case 1:
        return -S(1 + c.Draw(4));
      default: {
        Rng r = c.Bulk();
        return BulkPrimeField<S>(r);
      }
    }
  }
  static A1 M1(const S& k) { return (k * A1::Generator()).ToAffine(); }
  static A2 M2(const S& k) { return (k * A2::Generator()).ToAffine(); }
  static Fp12 E(const A1& a, const A2& b) {
    return tm::Pairing<Curve>(std::vector<A1>{a}, std::vector<A2>{b});
  }
  static Fp12 Pow(const Fp12& b, const mpz_class& e) {
    Fp12 r = Fp12::One();
    for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
      r = r * r;
      if (mpz_tstbit(e.get_mpz_t(), i)) r = r * b;
    }
    return r;
  }
  static const Fp12& Base() {
    static const Fp12 e = E(A1::Generator(), A2::Generator());
    return e;
  }

  static void Bilinear(Case& c) {
    S a = AnyS(c), b = AnyS(c);
    Fp12 want = Pow(Base(), FieldToMpz(a) * FieldToMpz(b) % Modulus<S>());
    bool one = a.IsZero() || b.IsZero();
    if (!one) c.Nontrivial();
    c.Note("a=", a.ToString(), " b=", b.ToString());
    c.LabelIf(one, "identity");
    Fp12 got = E(M1(a), M2(b));
    PBT_T(got == want, "e(aP, bQ) = e(P, Q)^ab");
    PBT_T(got.IsOne() == one, "non-degenerate");
    PBT_T(got * E(-M1(a), M2(b)) == Fp12::One(), "e(-P, Q) inverts");
    PBT_T(got * E(M1(a), -M2(b)) == Fp12::One(), "e(P, -Q) inverts");
  }

  static void Multi(Case& c) {
    size_t n = c.Draw(2) ? c.Draw(5) : c.Draw(14);
    std::vector<A1> as;
    std::vector<A2> bs;
    std::vector<Prep> ps;
    mpz_class e = 0;
    S last_a, last_b;
    bool inf = false;
    for (size_t i = 0; i < n; ++i) {
      S a = AnyS(c), b = AnyS(c);
      if (i && c.Draw(4) == 0) a = -last_a;
      if (i && c.Draw(4) == 0) b = last_b;
      last_a = a;
      last_b = b;
      inf |= a.IsZero() || b.IsZero();
      as.push_back(M1(a));
      bs.push_back(M2(b));
      ps.push_back(Prep::From(bs.back()));
      PBT_T(ps.back().infinity() == b.IsZero(), "prepared identity");
      e += FieldToMpz(a) * FieldToMpz(b);
    }
    e %= Modulus<S>();
    if (n >= 2) c.Nontrivial();
    c.Note(n, " pairs");
    c.LabelIf(inf, "with an identity");
    c.LabelIf(n > 4, "more than one chunk");
    Fp12 want = Pow(Base(), e);
    PBT_T(tm::Pairing<Curve>(as, bs) == want, "product of pairings");
    PBT_T(tm::Pairing<Curve>(as, ps) == want, "product, prepared");
    PBT_T(tm::Pairing<Curve>(as, ps) == want, "prepared points used twice");
    PBT_T(Curve::FinalExponentiation(Curve::MultiMillerLoop(as, ps)) == want,
          "miller loop and final exponentiation");
    Fp12 f = Fp12::One();
    size_t k = c.Draw(n);
    std::vector<A1> a1(as.begin(), as.begin() + k), a2(as.begin() + k, as.end());
    std::vector<Prep> p1(ps.begin(), ps.begin() + k),
        p2(ps.begin() + k, ps.end());
    f = Curve::MultiMillerLoop(a1, p1) * Curve::MultiMillerLoop(a2, p2);
    PBT_T(Curve::FinalExponentiation(f) == want, "split miller loop");
  }

  // --- the pairing from the definition, on the curve over Fp12 -----------------
  struct Pt {
    bool inf = true;
    Fp12 x, y;
  };
  static Fp12 FromFp(const Fp& v) {
    return Fp12(Fp6(Fp2(v, Fp::Zero()), Fp2::Zero(), Fp2::Zero()), Fp6::Zero());
  }
  static Fp12 FromFp2(const Fp2& v) {
    return Fp12(Fp6(v, Fp2::Zero(), Fp2::Zero()), Fp6::Zero());
  }
  static Pt Untwist(const A2& q) {
    Pt r;
    if (q.IsZero()) return r;
    Fp12 w(Fp6::Zero(), Fp6::One());
    Fp12 w2 = w * w, w3 = w2 * w;
    if (!kBn) {
      w2 = *w2.Inverse();
      w3 = *w3.Inverse();
    }
    r.inf = false;
    r.x = FromFp2(q.x()) * w2;
    r.y = FromFp2(q.y()) * w3;
    return r;
  }
  static Pt Frob(const Pt& p, size_t k) {
    Pt r = p;
    for (size_t i = 0; i < k; ++i) {
      r.x = Pow(r.x, Modulus<Fp>());
      r.y = Pow(r.y, Modulus<Fp>());
    }
    return r;
  }
  static Pt Neg(Pt p) {
    p.y = -p.y;
    return p;
  }
  // Adds |b| to |a| and multiplies the line through them, at (x, y), into |f|.
  static void Step(Pt& a, const Pt& b, const Fp12& x, const Fp12& y, Fp12& f) {
    if (a.inf || b.inf) {
      if (a.inf) a = b;
      return;
    }
    Fp12 l;
    if (a.x == b.x) {
      if (!(a.y == b.y)) {
        f = f * (x - a.x);
        a = Pt();
        return;
      }
      Fp12 xx = a.x * a.x;
      l = (xx + xx + xx) * *(a.y + a.y).Inverse();
    } else {
      l = (b.y - a.y) * *(b.x - a.x).Inverse();
    }
    f = f * (y - a.y - l * (x - a.x));
    Fp12 x3 = l * l - a.x - b.x;
    a.y = l * (a.x - x3) - a.y;
    a.x = x3;
  }
  static mpz_class X() {
    return kBn ? mpz_class("4965661367192848881")
               : mpz_class("15132376222941642752");  // BLS12-381 has -x
  }
  static const mpz_class& FinalExponent() {
    static const mpz_class e = [] {
      mpz_class p = Modulus<Fp>(), r = Modulus<S>(), t;
      mpz_pow_ui(t.get_mpz_t(), p.get_mpz_t(), 12);
      t = (t - 1) / r;
      mpz_class x = X();
      if (kBn)
        t *= 2 * x * (6 * x * x + 3 * x + 1);
      else
        t *= 3;
      return t;
    }();
    return e;
  }
  static Fp12 Reference(const A1& p, const A2& q2) {
    if (p.IsZero() || q2.IsZero()) return Fp12::One();
    Fp12 x = FromFp(p.x()), y = FromFp(p.y());
    Pt q = Untwist(q2), t = q;
    Fp12 f = Fp12::One();
    mpz_class n = kBn ? mpz_class(6 * X() + 2) : X();
    for (size_t i = mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i-- > 0;) {
      f = f * f;
      Pt u = t;
      Step(t, u, x, y, f);
      if (mpz_tstbit(n.get_mpz_t(), i)) Step(t, q, x, y, f);
    }
    if (kBn) {
      Step(t, Frob(q, 1), x, y, f);
      Step(t, Neg(Frob(q, 2)), x, y, f);
    } else {
      f = *f.Inverse();  // the negative parameter
    }
    return Pow(f, FinalExponent());
  }
  static void Definition(Case& c) {
    S a = AnyS(c), b = AnyS(c);
    A1 p = M1(a);
    A2 q = M2(b);
    if (!p.IsZero() && !q.IsZero()) c.Nontrivial();
    PBT_T(E(p, q) == Reference(p, q), "the optimal ate pairing");
  }

  static void FinalExp(Case& c) {
    Rng r = c.Bulk();
    Fp z[12];
    uint64_t style = c.Draw(3);
    for (Fp& v : z)
      v = style == 0 && r.Upto(2) ? Fp::Zero() : BulkPrimeField<Fp>(r);
    Fp12 f(Fp6(Fp2(z[0], z[1]), Fp2(z[2], z[3]), Fp2(z[4], z[5])),
           Fp6(Fp2(z[6], z[7]), Fp2(z[8], z[9]), Fp2(z[10], z[11])));
    if (style == 1) f = Fp12(f.c0(), Fp6::Zero());
    if (f.IsZero()) return;
    c.Nontrivial();
    Fp12 got = Curve::FinalExponentiation(f);
    PBT_T(got == Pow(f, FinalExponent()), "final exponentiation");
    if (style == 1) PBT_T(got.IsOne(), "subfields vanish");
    PBT_T(Pow(got, Modulus<S>()).IsOne(), "order divides r");
  }

  static void Generators(Case& c) {
    c.Nontrivial();
    PBT_T(!Base().IsOne(), "degenerate");
    PBT_T(Pow(Base(), Modulus<S>()).IsOne(), "order of e(G1, G2)");
    PBT_T(Modulus<S>() == ToMpz(S::Config::kModulus), "modulus");
    PBT_T(E(A1::Zero(), A2::Generator()).IsOne(), "e(0, Q)");
    PBT_T(E(A1::Generator(), A2::Zero()).IsOne(), "e(P, 0)");
    PBT_T(E(A1::Zero(), A2::Zero()).IsOne(), "e(0, 0)");
    PBT_T(tm::Pairing<Curve>(std::vector<A1>{}, std::vector<A2>{}).IsOne(),
          "no pairs");
    A1 p = A1::Random();
    A2 q = A2::Random();
    PBT_T(E(p, q) == Reference(p, q), "random points");
  }

  static void RegisterAll(const std::string& n) {
    RegisterBeforeCase([](uint64_t) { Curve::Init(); });
    Register(n + ".bilinear", 100, 1000, Bilinear);
    Register(n + ".multi", 60, 600, Multi);
    Register(n + ".definition", 40, 400, Definition);
    Register(n + ".final_exponentiation", 40, 400, FinalExp);
    Register(n + ".generators", 2, 10, Generators);
  }
};

void RegisterAll() {
  P<tm::bn254::BN254Curve, true>::RegisterAll("bn254");
  P<tm::bls12_381::BLS12_381Curve, false>::RegisterAll("bls12_381");
}
}  // namespace
PBT_INIT(RegisterAll);

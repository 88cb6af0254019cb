// C13: the circle groups over the Mersenne field and its quartic extension.
#include <array>
#include <string>
#include <vector>

#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/circle/m31/g4.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;

constexpr uint64_t kP = 2147483647;

// F_p[i][u], i^2 = -1, u^2 = 2 + i. Elements of F_p have zeros elsewhere.
struct E4 {
  std::array<uint64_t, 4> v{};
  bool operator==(const E4& o) const { return v == o.v; }
};
E4 operator+(const E4& a, const E4& b) {
  E4 r;
  for (int i = 0; i < 4; ++i) r.v[i] = (a.v[i] + b.v[i]) % kP;
  return r;
}
E4 operator-(const E4& a, const E4& b) {
  E4 r;
  for (int i = 0; i < 4; ++i) r.v[i] = (a.v[i] + kP - b.v[i]) % kP;
  return r;
}
using C2 = std::array<uint64_t, 2>;
C2 Mul2(const C2& a, const C2& b) {
  return {(a[0] * b[0] % kP + kP - a[1] * b[1] % kP) % kP,
          (a[0] * b[1] % kP + a[1] * b[0] % kP) % kP};
}
E4 operator*(const E4& a, const E4& b) {
  C2 a0{a.v[0], a.v[1]}, a1{a.v[2], a.v[3]}, b0{b.v[0], b.v[1]},
      b1{b.v[2], b.v[3]};
  C2 lo = Mul2(a0, b0), hi = Mul2(Mul2(a1, b1), {2, 1}), m = Mul2(a0, b1),
     n = Mul2(a1, b0);
  return {{(lo[0] + hi[0]) % kP, (lo[1] + hi[1]) % kP, (m[0] + n[0]) % kP,
           (m[1] + n[1]) % kP}};
}
E4 Num(uint64_t x) { return {{x % kP, 0, 0, 0}}; }
E4 PowE(E4 b, mpz_class e) {
  E4 r = Num(1);
  for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
    r = r * r;
    if (mpz_tstbit(e.get_mpz_t(), i)) r = r * b;
  }
  return r;
}
bool IsZ(const E4& a) { return a == E4(); }
E4 InvE(const E4& a) {
  mpz_class n = kP;
  return PowE(a, n * n * n * n - 2);
}

struct Pt {
  E4 x, y;
  bool operator==(const Pt& o) const { return x == o.x && y == o.y; }
};
Pt Mul(const Pt& a, const Pt& b) {  // (x + iy)(x' + iy')
  return {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x};
}
Pt Unit() { return {Num(1), Num(0)}; }
Pt Conj(const Pt& a) { return {a.x, Num(0) - a.y}; }
Pt PowP(const Pt& b, const mpz_class& e) {
  Pt r = Unit();
  for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
    r = Mul(r, r);
    if (mpz_tstbit(e.get_mpz_t(), i)) r = Mul(r, b);
  }
  return r;
}

template <typename Circle, bool kExt>
struct P {
  using A = typename Circle::AffinePoint;
  using F = typename Circle::BaseField;
  using S = typename Circle::ScalarField;

  static F ToF(const E4& e) {
    using B = tm::Mersenne31;
    if constexpr (kExt) {
      using F2 = typename F::BaseField;
      return F(F2(B(e.v[0]), B(e.v[1])), F2(B(e.v[2]), B(e.v[3])));
    } else {
      return B(e.v[0]);
    }
  }
  static E4 FromF(const F& f) {
    if constexpr (kExt) {
      return {{f.c0().c0().value(), f.c0().c1().value(), f.c1().c0().value(),
               f.c1().c1().value()}};
    } else {
      return Num(f.value());
    }
  }
  static A To(const Pt& p) { return A(ToF(p.x), ToF(p.y)); }
  static Pt From(const A& a) { return {FromF(a.x()), FromF(a.y())}; }

  static mpz_class Order() {
    mpz_class p = kP;
    return kExt ? mpz_class(p * p * p * p - 1) : mpz_class(p + 1);
  }
  static std::vector<mpz_class> Primes() {
    if (!kExt) return {2};
    return {2, 3, 5, 7, 11, 31, 151, 331, 733, 1709, mpz_class("368140581013")};
  }
  static bool On(const Pt& p) { return p.x * p.x + p.y * p.y == Num(1); }

  static E4 AnyE(Case& c) {
    E4 e;
    switch (c.Draw(3)) {
      case 0:
        e = Num(c.Draw(20));
        break;
      case 1:
        e = Num(kP - 1 - c.Draw(20));
        break;
      default: {
        Rng r = c.Bulk();
        int n = kExt ? 4 : 1;
        for (int i = 0; i < n; ++i)
          e.v[i] = r.Upto(6) == 0 ? r.Upto(2) : r.Upto(kP - 1);
      }
    }
    return e;
  }
  // Points by the rational parametrisation, points of small order, the
  // generator's small multiples.
  static Pt AnyPt(Case& c) {
    switch (c.Draw(6)) {
      case 0: {
        Pt special[] = {Unit(),
                        {Num(kP - 1), Num(0)},
                        {Num(0), Num(1)},
                        {Num(0), Num(kP - 1)}};
        return special[c.Draw(3)];
      }
      case 1: {  // of 2-power order
        Pt g = PowP(From(A::Generator()), Order() / Pow2(c.Draw(8)));
        return c.Bool() ? g : Conj(g);
      }
      case 2:
        return PowP(From(A::Generator()), c.Draw(64));
      default: {
        E4 t = AnyE(c);
        E4 d = Num(1) + t * t;
        if (IsZ(d)) return Unit();
        d = InvE(d);
        Pt p{(Num(1) - t * t) * d, (t + t) * d};
        switch (c.Draw(3)) {  // symmetries
          case 1:
            return {p.y, p.x};
          case 2:
            return {Num(0) - p.x, p.y};
        }
        return p;
      }
    }
  }
  static mpz_class AnyScalar(Case& c) {
    switch (c.Draw(5)) {
      case 0:
        return c.Draw(70);
      case 1:
        return Order() - 1 - c.Draw(4);
      case 2:
        return Pow2(c.Draw(kExt ? 123 : 30));
      case 3:
        return Order() / Primes()[c.Draw(Primes().size() - 1)];
      default: {
        Rng r = c.Bulk();
        mpz_class v = 0;
        for (int i = 0; i < 2; ++i) v = (v << 64) + mpz_class(std::to_string(r.Next()));
        return v % Order();
      }
    }
  }
  static bool Trivial(const Pt& p) { return IsZ(p.x) || IsZ(p.y); }

  static void Ops(Case& c) {
    Pt a = AnyPt(c), b = c.Draw(5) ? AnyPt(c) : a;
    if (c.Draw(6) == 0) b = Conj(a);
    if (c.Draw(8) == 0) b = {Num(0) - a.x, Num(0) - a.y};
    if (!Trivial(a) && !Trivial(b)) c.Nontrivial();
    c.Note("a=(", a.x.v[0], ",", a.y.v[0], ") b=(", b.x.v[0], ",", b.y.v[0], ")");
    c.LabelIf(a == b, "doubling");
    c.LabelIf(Conj(a) == b, "cancelling");
    PBT_T(On(a) && On(b), "oracle");
    A x = To(a), y = To(b);
    PBT_T(x.IsOnCircle(), "on circle");
    PBT_T(From(x + y) == Mul(a, b), "+");
    PBT_T(x + y == y + x, "commutes");
    PBT_T(From(x - y) == Mul(a, Conj(b)), "-");
    PBT_T(From(-x) == Conj(a), "negation");
    PBT_T(From(x.Conjugate()) == Conj(a), "Conjugate");
    PBT_T((From(x.Antipode()) == Pt{Num(0) - a.x, Num(0) - a.y}), "Antipode");
    PBT_T(From(x.Double()) == Mul(a, a), "Double");
    {
      A t = x;
      t += y;
      PBT_T(From(t) == Mul(a, b), "+=");
      t = x;
      t -= y;
      PBT_T(From(t) == Mul(a, Conj(b)), "-=");
      t = x;
      t.NegateInPlace();
      PBT_T(From(t) == Conj(a), "NegateInPlace");
      t = x;
      t.DoubleInPlace();
      PBT_T(From(t) == Mul(a, a), "DoubleInPlace");
      t = x;
      t += t;
      PBT_T(From(t) == Mul(a, a), "t += t");
      t = x;
      t -= t;
      PBT_T(t.IsZero(), "t -= t");
    }
    PBT_T(x + A::Zero() == x && (x - x).IsZero(), "identity");
    PBT_T(x.IsZero() == (a == Unit()), "IsZero");
    PBT_T((x == y) == (a == b) && (x != y) == !(a == b), "==");
    PBT_T((x + y).IsOnCircle() && x.Double().IsOnCircle(), "closed");
    PBT_T(A::CreateChecked(x.x(), x.y()) == x, "CreateChecked");
  }

  static void OffCircle(Case& c) {
    E4 x = AnyE(c), y = AnyE(c);
    Pt p{x, y};
    if (c.Draw(2) == 0) {
      p = AnyPt(c);
      int k = c.Draw(kExt ? 3 : 0);
      (c.Bool() ? p.x : p.y).v[k] += 1;
      for (auto& v : p.x.v) v %= kP;
      for (auto& v : p.y.v) v %= kP;
    }
    c.Nontrivial();
    A q = To(p);
    PBT_T(q.IsOnCircle() == On(p), "IsOnCircle");
    PBT_T(Circle::IsOnCircle(q) == On(p), "Circle::IsOnCircle");
    c.LabelIf(!On(p), "off");
  }

  static void Scalar(Case& c) {
    Pt a = AnyPt(c);
    mpz_class k = AnyScalar(c), l = AnyScalar(c);
    if (!Trivial(a) && k > 2) c.Nontrivial();
    c.Note("x=", FromF(ToF(a.x)).v[0], " y=", FromF(ToF(a.y)).v[0], " k=", k, " l=", l);
    A x = To(a);
    Pt want = PowP(a, k);
    PBT_T(From(x.ScalarMul(FromMpz<2>(k))) == want, "ScalarMul(BigInt)");
    if (k.fits_uint_p())
      PBT_T(From(x.ScalarMul(uint64_t{k.get_ui()})) == want, "ScalarMul(int)");
    Pt b = AnyPt(c);
    A y = To(b);
    PBT_T((x + y).ScalarMul(FromMpz<2>(k)) ==
              x.ScalarMul(FromMpz<2>(k)) + y.ScalarMul(FromMpz<2>(k)),
          "distributes over points");
    PBT_T(x.ScalarMul(FromMpz<2>(k)).ScalarMul(FromMpz<2>(l)) ==
              x.ScalarMul(FromMpz<2>(k * l % Order())),
          "composes");
    PBT_T(x.ScalarMul(FromMpz<2>(Order())).IsZero(), "order divides");
  }
  // Scalars as elements of the scalar field.
  static void ScalarField(Case& c) {
    Pt a = AnyPt(c);
    mpz_class k = AnyScalar(c), l = AnyScalar(c);
    if (!Trivial(a) && k > 2) c.Nontrivial();
    c.Note("x=", FromF(ToF(a.x)).v[0], " y=", FromF(ToF(a.y)).v[0], " k=", k, " l=", l);
    A x = To(a);
    Pt want = PowP(a, k);
    S s = FromScalar(k), t = FromScalar(l);
    PBT_T(From(x * s) == want, "* scalar");
    PBT_T(From(s * x) == want, "scalar *");
    PBT_T(From(x.ScalarMul(s)) == want, "ScalarMul(scalar)");
    PBT_T(x * (s + t) == x * s + x * t, "distributes over scalars");
    PBT_T(x * (s * t) == x * s * t, "composes");
    PBT_T(x * (-s) == -(x * s), "negated scalar");
    Pt b = AnyPt(c);
    PBT_T((x + To(b)) * s == x * s + To(b) * s, "distributes over points");
  }
  static S FromScalar(const mpz_class& k) {
    if constexpr (kExt) {
      return S(FromMpz<2>(k));
    } else {
      return S(static_cast<uint32_t>(k.get_ui()));
    }
  }

  static void Order_(Case& c) {
    A g = A::Generator();
    PBT_T(On(From(g)) && g.IsOnCircle(), "generator on circle");
    PBT_T(A::One() == g, "One");
    mpz_class m = 0;
    if constexpr (kExt) {
      m = ToMpz(S::Config::kModulus);
    } else {
      m = S::Config::kModulus;
    }
    PBT_T(m == Order(), "scalar field has the size of the group");
    PBT_T(g.ScalarMul(FromMpz<2>(Order())).IsZero(), "generator order divides");
    auto primes = Primes();
    for (const auto& q : primes)
      PBT_T(!g.ScalarMul(FromMpz<2>(Order() / q)).IsZero(), "full order");
    // random elements are on the circle; sums of multiples stay in the group
    A r = A::Random();
    PBT_T(r.IsOnCircle(), "Random");
    mpz_class k = AnyScalar(c), l = AnyScalar(c);
    if (k > 1 && l > 1) c.Nontrivial();
    c.Note("k=", k, " l=", l);
    PBT_T(g.ScalarMul(FromMpz<2>(k)) + g.ScalarMul(FromMpz<2>(l)) ==
              g.ScalarMul(FromMpz<2>((k + l) % Order())),
          "kG + lG");
    PBT_T((g.ScalarMul(FromMpz<2>(k)) == g.ScalarMul(FromMpz<2>(l))) == (k == l),
          "faithful");
  }
};

template <typename Circle, bool kExt>
void Register(const std::string& n) {
  using Q = P<Circle, kExt>;
  RegisterBeforeCase([](uint64_t) { Circle::Init(); });
  pbt::Register(n + ".ops", 400, 40000, Q::Ops);
  pbt::Register(n + ".on_circle", 200, 20000, Q::OffCircle);
  pbt::Register(n + ".scalar_mul", 200, 20000, Q::Scalar);
  pbt::Register(n + ".scalar_field", 200, 20000, Q::ScalarField);
  pbt::Register(n + ".order", 100, 10000, Q::Order_);
}

void RegisterAll() {
  Register<tm::m31::G1Circle, false>("g1");
  Register<tm::m31::G4Circle, true>("g4");
}
PBT_INIT(RegisterAll);
}  // namespace

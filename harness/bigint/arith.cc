// Arithmetic, comparison, shifts and bitwise operations against GMP.
#include <tuple>

#include "verif/pbt/gen.h"

#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using tachyon::math::BitTraits;

template <size_t N>
struct Ops {
  using B = BigInt<N>;
  static mpz_class Mod() { return Pow2(64 * N); }

  static void Pair(Case& c, B* a, B* b) {
    *a = AnyBigInt<N>(c);
    switch (c.Draw(5)) {
      case 0:
        *b = *a;
        break;
      case 1: {  // one apart
        mpz_class m = ToMpz(*a) + (c.Bool() ? 1 : -1);
        mpz_class r;
        mpz_fdiv_r_2exp(r.get_mpz_t(), m.get_mpz_t(), 64 * N);
        *b = FromMpz<N>(r);
        break;
      }
      case 2: {  // complement or near it: every limb carries
        for (size_t i = 0; i < N; ++i) b->limbs[i] = ~a->limbs[i];
        b->limbs[0] += c.Draw(2);
        break;
      }
      default:
        *b = AnyBigInt<N>(c);
    }
    c.Note("N=", N, " a=", ToMpz(*a).get_str(16), " b=", ToMpz(*b).get_str(16));
    c.Nontrivial(ToMpz(*a) > 65536 || ToMpz(*b) > 65536);
  }

  static void AddSub(Case& c) {
    B a, b;
    Pair(c, &a, &b);
    mpz_class x = ToMpz(a), y = ToMpz(b), m = Mod();
    mpz_class sum = x + y, dif = x - y;
    mpz_class sum_lo = sum % m, dif_lo = dif < 0 ? mpz_class(dif + m) : dif;
    c.LabelIf(sum >= m, "add carries out");
    c.LabelIf(dif < 0, "sub borrows");
    PBT_CHECK(c, ToMpz(a + b) == sum_lo);
    PBT_CHECK(c, ToMpz(a.Add(b)) == sum_lo);
    PBT_CHECK(c, ToMpz(a - b) == dif_lo);
    PBT_CHECK(c, ToMpz(a.Sub(b)) == dif_lo);
    uint64_t carry = 0, borrow = 0;
    PBT_CHECK(c, ToMpz(a.Add(b, carry)) == sum_lo);
    PBT_CHECK(c, carry == (sum >= m ? 1u : 0u));
    PBT_CHECK(c, ToMpz(a.Sub(b, borrow)) == dif_lo);
    PBT_CHECK(c, borrow == (dif < 0 ? 1u : 0u));
    B t = a;
    carry = 0;
    t.AddInPlace(b, carry);
    PBT_CHECK(c, ToMpz(t) == sum_lo);
    PBT_CHECK(c, carry == (sum >= m ? 1u : 0u));
    t = a;
    borrow = 0;
    t.SubInPlace(b, borrow);
    PBT_CHECK(c, ToMpz(t) == dif_lo);
    PBT_CHECK(c, borrow == (dif < 0 ? 1u : 0u));
    t = a;
    t += b;
    PBT_CHECK(c, ToMpz(t) == sum_lo);
    t = a;
    t -= b;
    PBT_CHECK(c, ToMpz(t) == dif_lo);
    // aliasing
    t = a;
    t.AddInPlace(t);
    PBT_CHECK(c, ToMpz(t) == (x * 2) % m);
    t = a;
    t -= t;
    PBT_CHECK(c, t.IsZero());
    carry = 0;
    PBT_CHECK(c, ToMpz(a.MulBy2(carry)) == (x * 2) % m);
    PBT_CHECK(c, carry == (x * 2 >= m ? 1u : 0u));
    PBT_CHECK(c, ToMpz(a.MulBy2()) == (x * 2) % m);
    t = a;
    carry = 0;
    t.MulBy2InPlace(carry);
    PBT_CHECK(c, ToMpz(t) == (x * 2) % m);
    PBT_CHECK(c, carry == (x * 2 >= m ? 1u : 0u));
    t = a;
    t.DivBy2InPlace();
    PBT_CHECK(c, ToMpz(t) == x / 2);
  }

  static void Cmp(Case& c) {
    B a, b;
    Pair(c, &a, &b);
    mpz_class x = ToMpz(a), y = ToMpz(b);
    c.LabelIf(x == y, "equal");
    PBT_CHECK(c, (a == b) == (x == y));
    PBT_CHECK(c, (a != b) == (x != y));
    PBT_CHECK(c, (a < b) == (x < y));
    PBT_CHECK(c, (a <= b) == (x <= y));
    PBT_CHECK(c, (a > b) == (x > y));
    PBT_CHECK(c, (a >= b) == (x >= y));
    PBT_CHECK(c, a.IsZero() == (x == 0));
    PBT_CHECK(c, a.IsOne() == (x == 1));
    PBT_CHECK(c, a.IsEven() == mpz_even_p(x.get_mpz_t()));
    PBT_CHECK(c, a.IsOdd() == mpz_odd_p(x.get_mpz_t()));
    mpz_class an = x & y, orr = x | y, xr = x ^ y;
    PBT_CHECK(c, ToMpz(a & b) == an);
    PBT_CHECK(c, ToMpz(a | b) == orr);
    PBT_CHECK(c, ToMpz(a ^ b) == xr);
    B t = a;
    t &= b;
    PBT_CHECK(c, ToMpz(t) == an);
    t = a;
    t |= b;
    PBT_CHECK(c, ToMpz(t) == orr);
    t = a;
    t ^= b;
    PBT_CHECK(c, ToMpz(t) == xr);
    PBT_CHECK(c, a.smallest_limb() == (N > 0 ? a.limbs[0] : 0));
    PBT_CHECK(c, a.biggest_limb() == a.limbs[N - 1]);
    PBT_CHECK(c, B::Zero().IsZero() && B::One().IsOne());
    PBT_CHECK(c, ToMpz(B::Max()) == Mod() - 1);
  }

  static void Shift(Case& c) {
    B a = AnyBigInt<N>(c);
    uint32_t n;
    switch (c.Draw(2)) {
      case 0:
        n = 64 * c.Draw(N + 1) + c.Draw(2) - (c.Bool() ? 1 : 0);
        if (n > 64 * N + 70) n = 0;
        break;
      case 1:
        n = c.Draw(64 * N - 1);
        break;
      default:
        n = c.Draw(64 * N + 130);
    }
    mpz_class x = ToMpz(a), m = Mod();
    c.Note("N=", N, " a=", x.get_str(16), " shift=", n);
    c.Nontrivial(x > 65536 && n > 0);
    c.LabelIf(n >= 64 && n < 64 * N, "shift by whole limbs");
    c.LabelIf(n >= 64 * N, "shift by the width or more");
    mpz_class l = (x << n) % m, r = x >> n;
    PBT_CHECK(c, ToMpz(a << n) == l);
    PBT_CHECK(c, ToMpz(a >> n) == r);
    B t = a;
    t <<= n;
    PBT_CHECK(c, ToMpz(t) == l);
    t = a;
    t >>= n;
    PBT_CHECK(c, ToMpz(t) == r);
    t = a;
    t.MulBy2ExpInPlace(n);
    PBT_CHECK(c, ToMpz(t) == l);
    t = a;
    t.DivBy2ExpInPlace(n);
    PBT_CHECK(c, ToMpz(t) == r);
  }

  static void Mul(Case& c) {
    B a, b;
    Pair(c, &a, &b);
    mpz_class x = ToMpz(a), y = ToMpz(b), m = Mod();
    mpz_class p = x * y;
    c.LabelIf(p >= m, "product exceeds the width");
    PBT_CHECK(c, ToMpz(a * b) == p % m);
    PBT_CHECK(c, ToMpz(a.Mul(b)) == p % m);
    auto r = a.Multiply(b);
    PBT_CHECK(c, ToMpz(r.lo) == p % m);
    PBT_CHECK(c, ToMpz(r.hi) == p / m);
    PBT_CHECK(c, ToMpz(a.MulExtend(b)) == p);
    B t = a;
    t *= b;
    PBT_CHECK(c, ToMpz(t) == p % m);
    t = a;
    t *= t;
    PBT_CHECK(c, ToMpz(t) == (x * x) % m);
    PBT_CHECK(c, ToMpz(a.MulExtend(a)) == x * x);
  }

  static void Div(Case& c) {
    B a, b;
    Pair(c, &a, &b);
    if (c.OneIn(3)) {  // exact multiples and their neighbours
      mpz_class y = ToMpz(b);
      if (y > 0) {
        mpz_class q = Below(c, Mod() / y + 1);
        mpz_class v = y * q + static_cast<long>(c.Draw(2)) - 1;
        if (v >= 0 && v < Mod()) a = FromMpz<N>(v);
      }
    }
    mpz_class x = ToMpz(a), y = ToMpz(b);
    tachyon::math::DivResult<B> out;
    if (y == 0) {
      c.Label("division by zero");
      PBT_CHECK(c, !a.Divide(b, out));
      PBT_CHECK(c, !(a / b).has_value());
      PBT_CHECK(c, !a.Div(b).has_value());
      B t = a;
      PBT_CHECK(c, !(t /= b).has_value());
      PBT_CHECK(c, t == a);
      return;
    }
    c.LabelIf(x >= y, "quotient not zero");
    c.LabelIf(y >= Pow2(64 * N - 1), "divisor has the top bit");
    mpz_class q = x / y, r = x % y;
    PBT_CHECK(c, a.Divide(b, out));
    PBT_CHECK(c, ToMpz(out.quotient) == q);
    PBT_CHECK(c, ToMpz(out.remainder) == r);
    auto d = a / b;
    PBT_CHECK(c, d.has_value() && ToMpz(*d) == q);
    auto d2 = a.Div(b);
    PBT_CHECK(c, d2.has_value() && ToMpz(*d2) == q);
    PBT_CHECK(c, ToMpz(a % b) == r);
    PBT_CHECK(c, ToMpz(a.Mod(b)) == r);
    B t = a;
    PBT_CHECK(c, (t /= b).has_value());
    PBT_CHECK(c, ToMpz(t) == q);
    t = a;
    t %= b;
    PBT_CHECK(c, ToMpz(t) == r);
  }

  static void Resize(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    c.Note("N=", N, " a=", x.get_str(16));
    c.Nontrivial(x > 65536);
    PBT_CHECK(c, ToMpz(a.template Extend<N + 1>()) == x);
    PBT_CHECK(c, ToMpz(a.template Extend<2 * N>()) == x);
    if constexpr (N > 1) {
      PBT_CHECK(c, ToMpz(a.template Shrink<N - 1>()) ==
                       x % Pow2(64 * (N - 1)));
      PBT_CHECK(c, ToMpz(a.template Shrink<1>()) == x % Pow2(64));
    }
    B mx = AnyBigInt<N>(c);
    if (!mx.IsZero()) PBT_CHECK(c, B::Random(mx) < mx);
    uint64_t u = c.U64();
    PBT_CHECK(c, ToMpz(B(u)) == ToMpz(BigInt<1>({u})));
    PBT_CHECK(c, ToMpz(B(static_cast<uint32_t>(u))) == static_cast<uint32_t>(u));
    int64_t s = static_cast<int64_t>(u >> 1);
    PBT_CHECK(c, ToMpz(B(s)) == mpz_class(static_cast<unsigned long>(u >> 1)));
    PBT_CHECK(c, B(a.limbs) == a);
    for (size_t i = 0; i < N; ++i) PBT_CHECK(c, a[i] == a.limbs[i]);
  }

  static void Register(const std::string& n) {
    PBT_REGISTER("addsub/" + n, 120000, 4000000, AddSub);
    PBT_REGISTER("compare/" + n, 40000, 1500000, Cmp);
    PBT_REGISTER("shift/" + n, 60000, 2000000, Shift);
    PBT_REGISTER("mul/" + n, 80000, 3000000, Mul);
    PBT_REGISTER("div/" + n, 30000, 1000000, Div);
    PBT_REGISTER("resize/" + n, 10000, 300000, Resize);
  }
};

int reg [[maybe_unused]] = [] {
  Ops<1>::Register("1");
  Ops<2>::Register("2");
  Ops<3>::Register("3");
  Ops<4>::Register("4");
  Ops<5>::Register("5");
  Ops<6>::Register("6");
  Ops<7>::Register("7");
  Ops<9>::Register("9");
  return 0;
}();

}  // namespace

// Modular inversion and Montgomery reduction for arbitrary odd moduli.
#include "tachyon/math/base/byinverter.h"

#include "verif/pbt/gen.h"

#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using namespace tachyon::math;

uint64_t NegInv64(uint64_t m) {
  uint64_t x = 1;
  for (int i = 0; i < 7; ++i) x *= 2 - m * x;
  return ~x + 1;
}

template <size_t N>
struct Ops {
  using B = BigInt<N>;

  // an odd modulus > 2 with or without a spare top bit
  static mpz_class OddModulus(Case& c, bool spare) {
    mpz_class m = ToMpz(AnyBigInt<N>(c));
    if (spare) {
      if (N > 1 && c.Bool()) m >>= c.Draw(62);
      mpz_clrbit(m.get_mpz_t(), 64 * N - 1);
    } else {
      mpz_setbit(m.get_mpz_t(), 64 * N - 1);
    }
    mpz_setbit(m.get_mpz_t(), 0);
    if (m < 3) m = 3;
    return m;
  }

  template <bool Spare>
  static void Mont(Case& c) {
    mpz_class m = OddModulus(c, Spare);
    mpz_class r = Pow2(64 * N) % m, rinv;
    mpz_invert(rinv.get_mpz_t(), r.get_mpz_t(), m.get_mpz_t());
    B modulus = FromMpz<N>(m);
    uint64_t inv = NegInv64(modulus.limbs[0]);
    mpz_class a = Below(c, m), b = Below(c, m);
    c.Note("N=", N, " m=", m.get_str(16), " a=", a.get_str(16), " b=",
           b.get_str(16));
    c.Nontrivial(m > 65536 && a * b > m);
    mpz_class prod = a * b;
    mpz_class expect = prod * rinv % m;
    {
      auto wide = FromMpz<2 * N>(prod);
      B out(0);
      B::template MontgomeryReduce64<Spare>(wide, modulus, inv, &out);
      PBT_CHECK(c, ToMpz(out) == expect);
      wide = FromMpz<2 * N>(prod);
      B::template MontgomeryReduce32<Spare>(
          wide, modulus, static_cast<uint32_t>(inv), &out);
      PBT_CHECK(c, ToMpz(out) == expect);
    }
    B v = FromMpz<N>(a);
    PBT_CHECK(c, ToMpz(B::FromMontgomery64(v, modulus, inv)) == a * rinv % m);
    PBT_CHECK(c, ToMpz(B::FromMontgomery32(v, modulus,
                                           static_cast<uint32_t>(inv))) ==
                     a * rinv % m);
    // Clamp brings [0, 2m) into [0, m)
    mpz_class s = a + b;
    mpz_class lo = s % Pow2(64 * N);
    B cl = FromMpz<N>(lo);
    B::template Clamp<Spare>(modulus, &cl, s >= Pow2(64 * N));
    PBT_CHECK(c, ToMpz(cl) == s % m);
  }

  template <bool Spare>
  static void Inverse(Case& c) {
    mpz_class m = OddModulus(c, Spare);
    mpz_class a = Below(c, m);
    mpz_class adj = c.Bool() ? Below(c, m) : Pow2(2 * 64 * N) % m;
    if (c.OneIn(4)) adj = 1;
    c.Note("N=", N, " m=", m.get_str(16), " a=", a.get_str(16), " adj=",
           adj.get_str(16));
    mpz_class g;
    mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
    BYInverter<N> by(FromMpz<N>(m), FromMpz<N>(adj));
    B out(0);
    bool ok = by.Invert(FromMpz<N>(a), out);
    PBT_CHECK(c, ok == (g == 1));
    c.LabelIf(g != 1, "not invertible");
    if (g != 1) return;
    c.Nontrivial(m > 65536 && a > 1);
    mpz_class inv;
    mpz_invert(inv.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
    mpz_class expect = inv * adj % m;
    PBT_CHECK_MSG(c, ToMpz(out) == expect, ToMpz(out).get_str(16));
    B out2(0);
    PBT_CHECK(c, FromMpz<N>(a).template MontgomeryInverse<Spare>(
                     FromMpz<N>(m), FromMpz<N>(adj), out2));
    PBT_CHECK_MSG(c, ToMpz(out2) % m == expect, ToMpz(out2).get_str(16));
    PBT_CHECK(c, !B(0).template MontgomeryInverse<Spare>(
                     FromMpz<N>(m), FromMpz<N>(adj), out2));
  }

  static void Register(const std::string& n) {
    PBT_REGISTER("montgomery/" + n + "/spare", 20000, 600000, Mont<true>);
    PBT_REGISTER("montgomery/" + n + "/full", 20000, 600000, Mont<false>);
    PBT_REGISTER("inverse/" + n + "/spare", 4000, 150000, Inverse<true>);
    PBT_REGISTER("inverse/" + n + "/full", 4000, 150000, Inverse<false>);
  }
};

int reg [[maybe_unused]] = [] {
  Ops<1>::Register("1");
  Ops<2>::Register("2");
  Ops<3>::Register("3");
  Ops<4>::Register("4");
  Ops<6>::Register("6");
  Ops<9>::Register("9");
  return 0;
}();

}  // namespace

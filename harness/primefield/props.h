// Every prime field against GMP integers modulo the prime.
#ifndef VERIF_HARNESS_PRIMEFIELD_PROPS_H_
#define VERIF_HARNESS_PRIMEFIELD_PROPS_H_

#include <optional>
#include <string>
#include <type_traits>
#include <vector>

#include "absl/hash/hash.h"

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/json/json.h"
#include "tachyon/math/finite_fields/modulus.h"
#include "tachyon/math/finite_fields/prime_field_util.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace pf {
using namespace pbt;

template <typename F>
struct P {
  using Config = typename F::Config;
  using Big = typename F::BigIntTy;
  using Value = typename F::value_type;
  static constexpr size_t kN = F::kLimbNums;

  static mpz_class p() {
    static const mpz_class m = Modulus<F>();
    return m;
  }
  static mpz_class Mod(const mpz_class& v) {
    mpz_class q;
    mpz_fdiv_r(q.get_mpz_t(), v.get_mpz_t(), p().get_mpz_t());
    return q;
  }
  static mpz_class M(const F& f) { return FieldToMpz(f); }
  static mpz_class PowM(const mpz_class& b, const mpz_class& e) {
    mpz_class r;
    mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), p().get_mpz_t());
    return r;
  }
  static mpz_class InvM(const mpz_class& b) {
    mpz_class r;
    mpz_invert(r.get_mpz_t(), b.get_mpz_t(), p().get_mpz_t());
    return r;
  }
  // The integer behind the internal representation.
  static mpz_class Raw(const F& f) {
    if constexpr (std::is_same_v<Value, uint32_t>) {
      return mpz_class(static_cast<unsigned long>(f.value()));
    } else {
      return ToMpz(f.value());
    }
  }
  static bool Montgomery() {
    return Config::kModulusBits > 32 || Config::kUseMontgomery;
  }
  static mpz_class R() {
    return Montgomery() ? Mod(Pow2(Config::kModulusBits <= 32 ? 32 : 64 * kN))
                        : mpz_class(1);
  }

  static void Init() { F::Init(); }

  // An element made by computation, so that every internal representation a
  // computation can leave is reached, with its value.
  static F Any(Case& c, mpz_class& v) {
    v = Below(c, p());
    // the same biases on the internal representation
    if (Montgomery() && c.Bool()) v = Mod(v * InvM(R()));
    F f = FieldFromMpz<F>(v);
    return f;
  }

  static void Arith(Case& c) {
    Init();
    mpz_class va, vb;
    F a = Any(c, va), b;
    switch (c.Draw(5)) {
      case 0:
        b = a;
        vb = va;
        break;
      case 1:
        vb = Mod(-va);
        b = FieldFromMpz<F>(vb);
        break;
      case 2:
        vb = Mod(va + 1);
        b = FieldFromMpz<F>(vb);
        break;
      default:
        b = Any(c, vb);
    }
    c.Note("a=", va, " b=", vb);
    c.Nontrivial(va > 1 && vb > 1 && va != vb);
    c.LabelIf(va + vb >= p(), "sum wraps");
    c.LabelIf(va < vb, "difference wraps");
    PBT_CHECK(c, M(a) == va && Raw(a) == Mod(va * R()));
    auto same = [&](const F& f, const mpz_class& v, const char* what) {
      if (M(f) != v || Raw(f) >= p())
        c.Fail(what, std::string(what) + ": got " + M(f).get_str() + " raw " +
                         Raw(f).get_str() + " want " + v.get_str() +
                         " for a=" + va.get_str() + " b=" + vb.get_str());
    };
    F t;
    same(a + b, Mod(va + vb), "add");
    t = a;
    same(t += b, Mod(va + vb), "add in place");
    t = a;
    t += t;
    same(t, Mod(2 * va), "add self in place");
    same(a - b, Mod(va - vb), "sub");
    t = a;
    same(t -= b, Mod(va - vb), "sub in place");
    t = a;
    t -= t;
    same(t, 0, "sub self in place");
    same(-a, Mod(-va), "neg");
    t = a;
    same(t.NegateInPlace(), Mod(-va), "neg in place");
    same(a.Double(), Mod(2 * va), "double");
    t = a;
    same(t.DoubleInPlace(), Mod(2 * va), "double in place");
    same(a * b, Mod(va * vb), "mul");
    t = a;
    same(t *= b, Mod(va * vb), "mul in place");
    t = a;
    t *= t;
    same(t, Mod(va * va), "mul self in place");
    same(a.Square(), Mod(va * va), "square");
    t = a;
    same(t.SquareInPlace(), Mod(va * va), "square in place");
    PBT_CHECK(c, (a == b) == (va == vb));
    PBT_CHECK(c, (a != b) == (va != vb));
    PBT_CHECK(c, (a < b) == (va < vb));
    PBT_CHECK(c, (a > b) == (va > vb));
    PBT_CHECK(c, (a <= b) == (va <= vb));
    PBT_CHECK(c, (a >= b) == (va >= vb));
    PBT_CHECK(c, a.IsZero() == (va == 0));
    PBT_CHECK(c, a.IsOne() == (va == 1));
    PBT_CHECK(c, a.IsMinusOne() == (va == p() - 1));
    PBT_CHECK(c, (absl::HashOf(a - b + b) == absl::HashOf(a)));
    same(F::Zero(), 0, "zero");
    same(F::One(), 1, "one");
    same(F::MinusOne(), p() - 1, "minus one");
    same(F::TwoInv(), InvM(2), "two inverse");
    same(F(), 0, "default");
    // a chain, each link compared
    size_t len = c.Draw(12);
    mpz_class v = va;
    t = a;
    for (size_t i = 0; i < len; ++i) {
      switch (c.Draw(5)) {
        case 0:
          t += b, v = Mod(v + vb);
          break;
        case 1:
          t -= b, v = Mod(v - vb);
          break;
        case 2:
          t *= b, v = Mod(v * vb);
          break;
        case 3:
          t = t.Square(), v = Mod(v * v);
          break;
        case 4:
          t = b - t, v = Mod(vb - v);
          break;
        default:
          t = t.Double(), v = Mod(2 * v);
      }
      same(t, v, "chain");
    }
  }

  static void Inverse(Case& c) {
    Init();
    mpz_class va, vb;
    F a = Any(c, va), b = Any(c, vb);
    c.Note("a=", va, " b=", vb);
    c.Nontrivial(va > 1);
    c.LabelIf(va == 0, "zero");
    auto inv = a.Inverse();
    PBT_CHECK(c, inv.has_value() == (va != 0));
    F t = a;
    auto ip = t.InverseInPlace();
    PBT_CHECK(c, ip.has_value() == (va != 0));
    auto q = b / a;
    PBT_CHECK(c, q.has_value() == (va != 0));
    F u = b;
    auto uq = (u /= a);
    PBT_CHECK(c, uq.has_value() == (va != 0));
    if (va == 0) return;
    mpz_class vi = InvM(va);
    PBT_CHECK_MSG(c, M(*inv) == vi && Raw(*inv) < p(), va);
    PBT_CHECK(c, M(t) == vi && *ip == &t);
    PBT_CHECK(c, M(*q) == Mod(vb * vi));
    PBT_CHECK(c, M(u) == Mod(vb * vi) && *uq == &u);
  }

  static void Pow(Case& c) {
    Init();
    mpz_class va;
    F a = Any(c, va);
    uint64_t e = c.U64();
    c.Note("a=", va, " e=", e);
    mpz_class ve;
    mpz_import(ve.get_mpz_t(), 1, -1, 8, 0, 0, &e);
    c.Nontrivial(va > 1 && e > 2);
    PBT_CHECK(c, M(a.Pow(e)) == PowM(va, ve));
    PBT_CHECK(c, M(a.Pow(static_cast<uint32_t>(e))) ==
                     PowM(va, mpz_class(static_cast<unsigned long>(
                                  static_cast<uint32_t>(e)))));
    BigInt<kN> be = AnyBigInt<kN>(c);
    PBT_CHECK_MSG(c, M(a.Pow(be)) == PowM(va, ToMpz(be)), be.ToString());
    mpz_class vx;
    F x = Any(c, vx);
    PBT_CHECK(c, M(a.Pow(x)) == PowM(va, vx));
    uint32_t l = c.Draw(40);
    PBT_CHECK(c, M(a.ExpPowOfTwo(l)) == PowM(va, Pow2(l)));
    PBT_CHECK(c, M(a.template ConstPow<0>()) == 1);
    PBT_CHECK(c, a.template ConstPow<1>() == a);
    PBT_CHECK(c, M(a.template ConstPow<2>()) == PowM(va, 2));
    PBT_CHECK(c, M(a.template ConstPow<3>()) == PowM(va, 3));
    PBT_CHECK(c, M(a.template ConstPow<4>()) == PowM(va, 4));
    PBT_CHECK(c, M(a.template ConstPow<5>()) == PowM(va, 5));
    PBT_CHECK(c, M(a.template ConstPow<6>()) == PowM(va, 6));
    PBT_CHECK(c, M(a.template ConstPow<7>()) == PowM(va, 7));
    PBT_CHECK(c, M(a.template ConstPow<29>()) == PowM(va, 29));
  }

  static void Roots(Case& c) {
    Init();
    mpz_class va;
    F a = Any(c, va);
    if (c.Bool()) {
      a = a.Square();
      va = Mod(va * va);
    }
    c.Note("a=", va);
    int leg = va == 0 ? 0 : mpz_legendre(va.get_mpz_t(), p().get_mpz_t());
    c.Nontrivial(va > 1);
    c.LabelIf(leg == 1, "residue");
    c.LabelIf(leg == -1, "non-residue");
    auto l = a.Legendre();
    int got = l == tachyon::math::LegendreSymbol::kZero  ? 0
              : l == tachyon::math::LegendreSymbol::kOne ? 1
                                                         : -1;
    PBT_CHECK_MSG(c, got == leg, va);
    if constexpr (Config::kModulusModFourIsThree ||
                  Config::kHasTwoAdicRootOfUnity) {
      F r;
      bool ok = a.SquareRoot(&r);
      PBT_CHECK_MSG(c, ok == (leg >= 0), va);
      if (ok) PBT_CHECK_MSG(c, Mod(M(r) * M(r)) == va, va);
    }
  }

  static void Text(Case& c) {
    Init();
    mpz_class va;
    F a = Any(c, va);
    c.Note("a=", va);
    c.Nontrivial(va > 9);
    std::string dec = va.get_str(10), hex = va.get_str(16);
    PBT_CHECK_MSG(c, a.ToString() == dec, a.ToString());
    PBT_CHECK_MSG(c, a.ToHexString() == "0x" + hex, a.ToHexString());
    size_t width = Config::kModulusBits <= 32 ? 8 : 16 * kN;
    std::string padded = std::string(width - hex.size(), '0') + hex;
    PBT_CHECK_MSG(c, a.ToHexString(true) == "0x" + padded,
                  a.ToHexString(true));
    auto is = [&](std::optional<F> f, const mpz_class& v) {
      return f.has_value() && M(*f) == v;
    };
    PBT_CHECK(c, is(F::FromDecString(dec), va));
    PBT_CHECK(c, is(F::FromHexString(hex), va));
    PBT_CHECK(c, is(F::FromHexString("0x" + hex), va));
    PBT_CHECK(c, is(F::FromHexString("0x" + padded), va));
    std::ostringstream ss;
    ss << a;
    PBT_CHECK(c, ss.str() == dec);
    // not below the modulus
    mpz_class big = p() + va;
    if (c.OneIn(4)) big = p() * (1 + static_cast<unsigned long>(c.Draw(1000)));
    if (c.OneIn(4)) big = p() + static_cast<unsigned long>(c.Draw(2));
    if (c.OneIn(8)) big = big << c.Draw(200);
    PBT_CHECK_MSG(c, !F::FromDecString(big.get_str(10)).has_value(), big);
    PBT_CHECK_MSG(c, !F::FromHexString(big.get_str(16)).has_value(), big);
    PBT_CHECK_MSG(c, !F::FromHexString("0x" + big.get_str(16)).has_value(),
                  big);
    // not a numeral
    std::string bad = dec;
    bad.insert(c.Draw(bad.size()), 1, "gz!-._"[c.Draw(5)]);
    PBT_CHECK_MSG(c, !F::FromDecString(bad).has_value() || bad[0] == '-',
                  bad);
    PBT_CHECK(c, !F::FromDecString("").has_value());
  }

  static void Convert(Case& c) {
    Init();
    mpz_class va;
    F a = Any(c, va);
    c.Note("a=", va);
    c.Nontrivial(va > 1);
    Big b = FromMpz<kN>(va);
    PBT_CHECK(c, a.ToBigInt() == b);
    PBT_CHECK(c, F::FromBigInt(b) == a && F(b) == a);
    if (va < Pow2(31)) {
      PBT_CHECK(c, M(F(static_cast<uint32_t>(va.get_ui()))) == va);
    }
    uint64_t small = c.Draw(kN == 1 && Config::kModulusBits <= 32
                                ? Config::kModulusBits < 31 ? 6 : 2130706432
                                : UINT32_MAX);
    if (mpz_class(static_cast<unsigned long>(small)) < p())
      PBT_CHECK(c, M(F(static_cast<uint32_t>(small))) ==
                       static_cast<unsigned long>(small));
    if constexpr (Config::kModulusBits > 64) {
      uint64_t w = c.U64();
      mpz_class vw;
      mpz_import(vw.get_mpz_t(), 1, -1, 8, 0, 0, &w);
      PBT_CHECK(c, M(F(w)) == vw);
    }
    if constexpr (Config::kModulusBits > 32) {
      PBT_CHECK(c, a.ToMpzClass() == va);
      PBT_CHECK(c, F::FromMpzClass(va) == a);
      PBT_CHECK(c, F::FromMontgomery(FromMpz<kN>(Mod(va * R()))) == a);
      PBT_CHECK(c, F::FromMontgomery(a.value()) == a);
    } else if constexpr (Config::kUseMontgomery) {
      PBT_CHECK(c, F::FromMontgomery(static_cast<uint32_t>(
                       mpz_class(Mod(va * R())).get_ui())) == a);
    }
    // bytes
    using tachyon::base::Copyable;
    using Json = tachyon::base::RapidJsonValueConverter<F>;
    bool mont = Config::kUseMontgomery && c.Bool();
    Copyable<F>::s_is_in_montgomery = mont;
    tachyon::base::Uint8VectorBuffer buf;
    PBT_CHECK(c, buf.Grow(tachyon::base::EstimateSize(a)));
    PBT_CHECK(c, buf.Write(a) && buf.Done());
    mpz_class written = 0;
    mpz_import(written.get_mpz_t(), buf.buffer_len(), -1, 1, 0, 0,
               buf.buffer());
    PBT_CHECK_MSG(c, written == (mont ? Raw(a) : va), written);
    buf.set_buffer_offset(0);
    F back;
    PBT_CHECK(c, buf.Read(&back) && buf.Done());
    PBT_CHECK(c, back == a);
    Copyable<F>::s_is_in_montgomery = false;
    Json::s_is_in_montgomery = mont;
    std::string json = tachyon::base::WriteToJson(a);
    F back2;
    std::string err;
    PBT_CHECK_MSG(c, tachyon::base::ParseJson(json, &back2, &err),
                  json << " " << err);
    PBT_CHECK_MSG(c, back2 == a, json);
    Json::s_is_in_montgomery = false;
  }

  // Exact order of g: g^n = 1 and g^(n/q) != 1 for every prime q | n.
  static bool HasOrder(const mpz_class& g, const mpz_class& n,
                       std::initializer_list<unsigned long> primes) {
    if (PowM(g, n) != 1) return false;
    for (unsigned long q : primes)
      if (n % q == 0 && PowM(g, n / q) == 1) return false;
    return true;
  }

  static void Constants(Case& c) {
    Init();
    auto num = [](const auto& v) {
      if constexpr (std::is_integral_v<std::decay_t<decltype(v)>>)
        return mpz_class(static_cast<unsigned long>(v));
      else
        return ToMpz(v);
    };
    mpz_class m = p();
    PBT_CHECK(c, mpz_probab_prime_p(m.get_mpz_t(), 30) != 0);
    PBT_CHECK(c, mpz_sizeinbase(m.get_mpz_t(), 2) == Config::kModulusBits);
    PBT_CHECK(c, num(Config::kModulusMinusOneDivTwo) == (m - 1) / 2);
    if (Config::kModulusModFourIsThree)
      PBT_CHECK(c, num(Config::kModulusPlusOneDivFour) == (m + 1) / 4);
    PBT_CHECK(c, Config::kModulusModFourIsThree == (m % 4 == 3));
    PBT_CHECK(c, Config::kModulusModSixIsOne == (m % 6 == 1));
    mpz_class t = m - 1;
    unsigned long s = 0;
    while (t % 2 == 0) t /= 2, ++s;
    PBT_CHECK(c, num(Config::kTrace) == t);
    PBT_CHECK(c, num(Config::kTraceMinusOneDivTwo) == (t - 1) / 2);
    PBT_CHECK(c, tachyon::math::ComputeAdicity(2, m - 1) == s);
    PBT_CHECK(c, tachyon::math::ComputeTrace(2, m - 1) == t);
    PBT_CHECK(c, num(Config::kOne) == R());
    PBT_CHECK(c, num(Config::kMinusOne) == Mod(-R()));
    PBT_CHECK(c, num(Config::kTwoInv) == Mod(InvM(2) * R()));
    if constexpr (Config::kModulusBits > 32) {
      PBT_CHECK(c, num(Config::kMontgomeryR) == R());
      PBT_CHECK(c, num(Config::kMontgomeryR2) == Mod(R() * R()));
      PBT_CHECK(c, num(Config::kMontgomeryR3) == Mod(R() * R() * R()));
      mpz_class b64 = Pow2(64);
      mpz_class prod = (num(Config::kInverse64) * m + 1) % b64;
      PBT_CHECK(c, prod == 0);
      using Md = tachyon::math::Modulus<kN>;
      PBT_CHECK(c, Md::MontgomeryR(Config::kModulus) == Config::kMontgomeryR);
      PBT_CHECK(c, Md::MontgomeryR2(Config::kModulus) == Config::kMontgomeryR2);
      PBT_CHECK(c, Md::MontgomeryR3(Config::kModulus) == Config::kMontgomeryR3);
      PBT_CHECK(c, Md::template Inverse<uint64_t>(Config::kModulus) ==
                       Config::kInverse64);
      PBT_CHECK(c, Md::template Inverse<uint32_t>(Config::kModulus) ==
                       Config::kInverse32);
      PBT_CHECK(c, Md::HasSpareBit(Config::kModulus) ==
                       Config::kModulusHasSpareBit);
      PBT_CHECK(c, Config::kModulusHasSpareBit ==
                       (Config::kModulusBits % 64 != 0));
    }
    if constexpr (F::HasRootOfUnity()) {
      PBT_CHECK(c, Config::kTwoAdicity == s);
      uint64_t n = uint64_t{1} << c.Draw(63);
      size_t lg = tachyon::base::bits::Log2Floor(n);
      F w;
      bool expect = lg <= s;
      mpz_class vn = Pow2(lg);
      unsigned long q = 2;
      if constexpr (Config::kHasLargeSubgroupRootOfUnity) {
        q = Config::kSmallSubgroupBase;
        size_t k = c.Draw(Config::kSmallSubgroupAdicity + 1);
        mpz_class qk;
        mpz_ui_pow_ui(qk.get_mpz_t(), q, k);
        if (vn * qk < Pow2(63)) {
          vn *= qk;
          expect = expect && k <= Config::kSmallSubgroupAdicity;
        }
      }
      // some other factor
      if (c.OneIn(4) && vn * 35 < Pow2(63)) {
        unsigned long f = c.Bool() ? 5 : 7;
        if (f != q) {
          vn *= f;
          expect = false;
        }
      }
      n = vn.get_ui();
      c.Note("n=", n);
      c.LabelIf(expect, "root exists");
      c.Nontrivial(n > 2);
      bool ok = F::GetRootOfUnity(n, &w);
      PBT_CHECK_MSG(c, ok == expect, n);
      if (ok) PBT_CHECK_MSG(c, HasOrder(M(w), vn, {2, q}), n);
      // roots of different orders belong together
      F w2;
      if (ok && n % 2 == 0 && F::GetRootOfUnity(n / 2, &w2))
        PBT_CHECK_MSG(c, w2 == w.Square(), n);
      F g;
      if constexpr (Config::kUseMontgomery) {
        g = F::FromMontgomery(Config::kSubgroupGenerator);
      } else {
        g = F(Config::kSubgroupGenerator);
      }
      // generates the two-part (and the small subgroup) of the group
      mpz_class vg = M(g);
      PBT_CHECK(c, vg != 0 && PowM(vg, (m - 1) / 2) != 1);
      if ((m - 1) % q == 0) PBT_CHECK(c, PowM(vg, (m - 1) / q) != 1);
    } else {
      c.Nontrivial();
    }
  }

  static int RegisterAll(const std::string& name) {
    Register(name + "/arith", 12000, 400000, &Arith);
    Register(name + "/inverse", 3000, 100000, &Inverse);
    Register(name + "/pow", 1000, 30000, &Pow);
    Register(name + "/roots", 1000, 30000, &Roots);
    Register(name + "/text", 4000, 80000, &Text);
    Register(name + "/convert", 4000, 80000, &Convert);
    Register(name + "/constants", 300, 4000, &Constants);
    return 0;
  }
};

}  // namespace pf

#endif  // VERIF_HARNESS_PRIMEFIELD_PROPS_H_

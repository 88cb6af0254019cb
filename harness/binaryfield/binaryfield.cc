// Binary tower fields against the recursive definition of the tower.
#include <sstream>
#include <string>

#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using namespace tachyon::math;
using U = unsigned __int128;

U Mask(size_t k) { return k == 128 ? ~U{0} : (U{1} << k) - 1; }

// In GF(2^k) = GF(2^(k/2))[X] / (X^2 + aX + 1), a the X of the field below
// (1 at the bottom).
U RefMul(size_t k, U a, U b) {
  if (k == 1) return a & b;
  if (a == 0 || b == 0) return 0;
  size_t h = k / 2;
  U a0 = a & Mask(h), a1 = a >> h, b0 = b & Mask(h), b1 = b >> h;
  U alpha = h == 1 ? 1 : U{1} << (h / 2);
  U hh = RefMul(h, a1, b1);
  U lo = RefMul(h, a0, b0) ^ hh;
  U hi = RefMul(h, a0, b1) ^ RefMul(h, a1, b0) ^ RefMul(h, hh, alpha);
  return lo | (hi << h);
}
U RefPow(size_t k, U a, U e) {
  U r = 1;
  for (int i = 127; i >= 0; --i) {
    r = RefMul(k, r, r);
    if ((e >> i) & 1) r = RefMul(k, r, a);
  }
  return r;
}

std::string Str(U v) {
  char buf[40];
  snprintf(buf, sizeof buf, "%llx:%016llx",
           static_cast<unsigned long long>(v >> 64),
           static_cast<unsigned long long>(v));
  return buf;
}
mpz_class Mpz(U v) {
  BigInt<2> b(0);
  b.limbs[0] = static_cast<uint64_t>(v);
  b.limbs[1] = static_cast<uint64_t>(v >> 64);
  return ToMpz(b);
}

template <typename F>
struct P {
  static constexpr size_t k = F::kBits;

  static F Make(U v) {
    if constexpr (k == 128) {
      BigInt<2> b(0);
      b.limbs[0] = static_cast<uint64_t>(v);
      b.limbs[1] = static_cast<uint64_t>(v >> 64);
      return F(b);
    } else {
      return F(static_cast<typename F::value_type>(v));
    }
  }
  static U V(const F& f) {
    if constexpr (k == 128) {
      BigInt<2> b = f.value();
      return (U{b.limbs[1]} << 64) | b.limbs[0];
    } else {
      return f.value();
    }
  }

  static U Any(Case& c) {
    U v;
    switch (c.Draw(6)) {
      case 0:
        v = c.Draw(3);
        break;
      case 1:
        v = U{1} << c.Draw(k - 1);
        break;
      case 2:
        v = ~(U{1} << c.Draw(k - 1));
        break;
      case 3: {  // in a subfield
        size_t s = 1;
        for (uint64_t i = c.Draw(6); i > 0 && s < k; --i) s *= 2;
        v = ((U{c.Draw(UINT64_MAX)} << 64) | c.Draw(UINT64_MAX)) & Mask(s);
        break;
      }
      case 4: {  // only one half
        v = ((U{c.Draw(UINT64_MAX)} << 64) | c.Draw(UINT64_MAX));
        size_t h = k / 2;
        if (h) v = c.Bool() ? v << h : v & Mask(h);
        break;
      }
      default:
        v = ((U{c.U64()} << 64) | c.U64());
    }
    return v & Mask(k);
  }

  static void CheckPair(Case& c, U va, U vb) {
    F a = Make(va), b = Make(vb);
    auto same = [&](const F& f, U v, const char* what) {
      if (V(f) != v)
        c.Fail(what, std::string(what) + ": got " + Str(V(f)) + " want " +
                         Str(v) + " for a=" + Str(va) + " b=" + Str(vb));
    };
    U mul = RefMul(k, va, vb), sq = RefMul(k, va, va);
    same(a, va, "value");
    same(a * b, mul, "mul");
    F t = a;
    same(t *= b, mul, "mul in place");
    t = a;
    t *= t;
    same(t, sq, "mul self in place");
    same(a.Square(), sq, "square");
    t = a;
    same(t.SquareInPlace(), sq, "square in place");
    same(a + b, va ^ vb, "add");
    t = a;
    same(t += b, va ^ vb, "add in place");
    same(a - b, va ^ vb, "sub");
    t = a;
    same(t -= b, va ^ vb, "sub in place");
    t = a;
    t -= t;
    same(t, 0, "sub self");
    same(-a, va, "neg");
    t = a;
    same(t.NegateInPlace(), va, "neg in place");
    same(a.Double(), 0, "double");
    t = a;
    same(t.DoubleInPlace(), 0, "double in place");
    U alpha = k == 1 ? 1 : U{1} << (k / 2);
    same(BinaryTowerOperations<F>::MulByAlpha(a), RefMul(k, va, alpha),
         "mul by alpha");
    auto inv = a.Inverse();
    PBT_CHECK(c, inv.has_value() == (va != 0));
    t = a;
    auto ip = t.InverseInPlace();
    PBT_CHECK(c, ip.has_value() == (va != 0));
    auto q = b / a;
    PBT_CHECK(c, q.has_value() == (va != 0));
    if (va != 0) {
      if (RefMul(k, V(*inv), va) != 1)
        c.Fail("inverse", "inverse of " + Str(va) + " is " + Str(V(*inv)));
      PBT_CHECK(c, t == *inv && *ip == &t);
      same(*q, RefMul(k, V(*inv), vb), "quotient");
    }
    PBT_CHECK(c, (a == b) == (va == vb) && (a != b) == (va != vb));
    PBT_CHECK(c, (a < b) == (va < vb) && (a > b) == (va > vb));
    PBT_CHECK(c, (a <= b) == (va <= vb) && (a >= b) == (va >= vb));
    PBT_CHECK(c, a.IsZero() == (va == 0) && a.IsOne() == (va == 1));
    PBT_CHECK(c, a.IsMinusOne() == (va == 1));
  }

  static void Arith(Case& c) {
    F::Init();
    U va = Any(c), vb = c.OneIn(6) ? va : Any(c);
    c.Note("a=", Str(va), " b=", Str(vb));
    c.Nontrivial(k == 1 || (va > 1 && vb > 1));
    CheckPair(c, va, vb);
    // ring laws on three elements
    U vc = Any(c);
    F x = Make(va), y = Make(vb), z = Make(vc);
    PBT_CHECK(c, (x * y) * z == x * (y * z));
    PBT_CHECK(c, x * (y + z) == x * y + x * z);
    PBT_CHECK(c, V(F::Zero()) == 0 && V(F::One()) == 1);
    PBT_CHECK(c, V(F::MinusOne()) == 1);
    PBT_CHECK(c, (V(F::Random()) & ~Mask(k)) == 0);
  }

  static void Pow(Case& c) {
    F::Init();
    U va = Any(c);
    uint64_t e = c.U64();
    c.Note("a=", Str(va), " e=", e);
    c.Nontrivial(va > 1 && e > 2);
    PBT_CHECK(c, V(Make(va).Pow(e)) == RefPow(k, va, e));
    if (va != 0 && k <= 64) {
      // the multiplicative group
      PBT_CHECK(c, Make(va).Pow(static_cast<uint64_t>(Mask(k))).IsOne());
    }
  }

  static void Convert(Case& c) {
    F::Init();
    U va = Any(c);
    F a = Make(va);
    c.Note("a=", Str(va));
    c.Nontrivial(va > 1);
    mpz_class v = Mpz(va);
    PBT_CHECK(c, ToMpz(a.ToBigInt()) == v);
    PBT_CHECK(c, F::FromBigInt(a.ToBigInt()) == a);
    std::string dec = v.get_str(10), hex = v.get_str(16);
    PBT_CHECK_MSG(c, a.ToString() == dec, a.ToString());
    PBT_CHECK_MSG(c, a.ToHexString() == "0x" + hex, a.ToHexString());
    auto is = [&](std::optional<F> f) { return f.has_value() && *f == a; };
    PBT_CHECK(c, is(F::FromDecString(dec)));
    PBT_CHECK(c, is(F::FromHexString(hex)));
    PBT_CHECK(c, is(F::FromHexString("0x" + hex)));
    PBT_CHECK(c, is(F::FromHexString(a.ToHexString(true))));
    mpz_class big = v + Pow2(k);
    if (c.OneIn(3)) big = Pow2(k) << c.Draw(100);
    PBT_CHECK_MSG(c, !F::FromDecString(big.get_str(10)).has_value(), big);
    PBT_CHECK_MSG(c, !F::FromHexString("0x" + big.get_str(16)).has_value(),
                  big);
    PBT_CHECK(c, !F::FromDecString("").has_value());
    PBT_CHECK(c, !F::FromDecString(dec + "x").has_value());
    if constexpr (k >= 16) {
      using S = typename F::SubField;
      auto [lo, hi] = a.Decompose();
      PBT_CHECK(c, P<S>::V(lo) == (va & Mask(k / 2)));
      PBT_CHECK(c, P<S>::V(hi) == va >> (k / 2));
      PBT_CHECK(c, F::Compose(lo, hi) == a);
      U vs = P<S>::Any(c);
      S s = P<S>::Make(vs);
      // multiplication by an embedded element acts on both halves
      PBT_CHECK(c, a * F::Compose(s, S::Zero()) ==
                       F::Compose(lo * s, hi * s));
      PBT_CHECK(c, F::Compose(s, S::Zero()) == Make(vs));
    }
  }

  // every pair
  static void All(Case& c) {
    F::Init();
    if constexpr (k <= 8) {
      c.Nontrivial();
      for (U a = 0; a <= Mask(k); ++a)
        for (U b = 0; b <= Mask(k); ++b) CheckPair(c, a, b);
    }
  }

  static int Reg(const std::string& name) {
    if (k <= 8) Register(name + "/all_pairs", 1, 1, &All);
    Register(name + "/arith", 20000, 1000000, &Arith);
    Register(name + "/pow", 1000, 10000, &Pow);
    Register(name + "/convert", 10000, 200000, &Convert);
    return 0;
  }
};

[[maybe_unused]] int r[] = {
    P<BinaryField1>::Reg("gf2_1"),     P<BinaryField2>::Reg("gf2_2"),
    P<BinaryField4>::Reg("gf2_4"),     P<BinaryField8>::Reg("gf2_8"),
    P<BinaryField16>::Reg("gf2_16"),   P<BinaryField32>::Reg("gf2_32"),
    P<BinaryField64>::Reg("gf2_64"),   P<BinaryField128>::Reg("gf2_128"),
};
}  // namespace

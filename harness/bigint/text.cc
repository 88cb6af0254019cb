// Text, bytes and bits.
#include <algorithm>
#include <string>

#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/gmp/bit_traits.h"
#include "tachyon/math/base/gmp/signed_value.h"

#include "verif/pbt/gen.h"

#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using namespace tachyon::math;
namespace gmp = tachyon::math::gmp;

template <size_t N>
struct Ops {
  using B = BigInt<N>;
  static void Text(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    c.Note("N=", N, " a=", x.get_str(16));
    c.Nontrivial(x > 65536);
    PBT_CHECK(c, a.ToString() == x.get_str(10));
    std::string hex = x.get_str(16);
    PBT_CHECK(c, a.ToHexString() == "0x" + hex);
    std::string padded = std::string(16 * N - hex.size(), '0') + hex;
    PBT_CHECK(c, a.ToHexString(true) == "0x" + padded);
    auto d = B::FromDecString(x.get_str(10));
    PBT_CHECK(c, d.has_value() && *d == a);
    std::string upper = hex;
    for (char& ch : upper) ch = toupper(ch);
    for (const std::string& h :
         {hex, "0x" + hex, padded, "0x" + padded, upper, "0x" + upper}) {
      auto r = B::FromHexString(h);
      PBT_CHECK_MSG(c, r.has_value() && *r == a, h);
    }
    // A view does not end with a NUL: what follows it is not part of it.
    std::string digits = x.get_str(10);
    std::string longer = digits + std::to_string(c.Draw(999));
    auto v = B::FromDecString(std::string_view(longer.data(), digits.size()));
    PBT_CHECK_MSG(c, v.has_value() && *v == a, longer);
    std::string hl = hex + "7f";
    v = B::FromHexString(std::string_view(hl.data(), hex.size()));
    PBT_CHECK_MSG(c, v.has_value() && *v == a, hl);
  }

  // too large, or not a number
  static void TextReject(Case& c) {
    if (c.Bool()) {
      mpz_class x = Pow2(64 * N);
      switch (c.Draw(3)) {
        case 0:
          break;
        case 1:
          x += static_cast<unsigned long>(c.Draw(1000));
          break;
        case 2:
          x = x * static_cast<unsigned long>(c.Range(1, 1000)) +
              static_cast<unsigned long>(c.Draw(1000));
          break;
        default:
          x <<= c.Draw(200);
      }
      c.Note("N=", N, " too large: ", x.get_str(16));
      c.Nontrivial();
      c.Label("does not fit");
      PBT_CHECK(c, !B::FromDecString(x.get_str(10)).has_value());
      PBT_CHECK(c, !B::FromHexString(x.get_str(16)).has_value());
      PBT_CHECK(c, !B::FromHexString("0x" + x.get_str(16)).has_value());
    } else {
      std::string s = AnyBigInt<N>(c).ToString();
      static const char kBad[] = "gzZ.,;:_xGq/*+$";
      size_t pos = c.Draw(s.size());
      s.insert(pos, 1, kBad[c.Draw(sizeof kBad - 2)]);
      c.Note("N=", N, " malformed: ", s);
      c.Nontrivial();
      c.Label("malformed");
      PBT_CHECK_MSG(c, !B::FromDecString(s).has_value(), s);
      bool prefix = s.size() > 1 && s[0] == '0' && (s[1] == 'x');
      if (!prefix) PBT_CHECK_MSG(c, !B::FromHexString(s).has_value(), s);
    }
    PBT_CHECK(c, !B::FromDecString("").has_value());
    PBT_CHECK(c, !B::FromHexString("").has_value());
  }

  template <size_t Bits>
  static void BitsOf(Case& c, const B& a, const mpz_class& x) {
    mpz_class lo = x % Pow2(Bits);
    auto le = a.template ToBitsLE<Bits>();
    auto be = a.template ToBitsBE<Bits>();
    for (size_t i = 0; i < Bits; ++i) {
      bool bit = mpz_tstbit(x.get_mpz_t(), i);
      PBT_CHECK_MSG(c, le[i] == bit, Bits << " bit " << i);
      PBT_CHECK_MSG(c, be[Bits - 1 - i] == bit, Bits << " bit " << i);
    }
    PBT_CHECK_MSG(c, ToMpz(B::template FromBitsLE<Bits>(le)) == lo, Bits);
    PBT_CHECK_MSG(c, ToMpz(B::template FromBitsBE<Bits>(be)) == lo, Bits);
  }

  static void BitsBytes(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    c.Note("N=", N, " a=", x.get_str(16));
    c.Nontrivial(x > 65536);
    auto le = a.ToBytesLE();
    auto be = a.ToBytesBE();
    for (size_t i = 0; i < 8 * N; ++i) {
      uint8_t byte = static_cast<uint8_t>(a.limbs[i / 8] >> (8 * (i % 8)));
      PBT_CHECK_MSG(c, le[i] == byte, "byte " << i);
      PBT_CHECK_MSG(c, be[8 * N - 1 - i] == byte, "byte " << i);
    }
    PBT_CHECK(c, B::FromBytesLE(le) == a);
    PBT_CHECK(c, B::FromBytesBE(be) == a);
    // any number of bytes that fits
    size_t n = c.Range(1, 8 * N);
    std::vector<uint8_t> v(n);
    mpz_class vle, vbe;
    for (auto& b : v) b = c.OneIn(3) ? 0xff : c.Draw(255);
    mpz_import(vle.get_mpz_t(), n, -1, 1, 0, 0, v.data());
    mpz_import(vbe.get_mpz_t(), n, 1, 1, 0, 0, v.data());
    PBT_CHECK_MSG(c, ToMpz(B::FromBytesLE(v)) == vle, n << " bytes");
    PBT_CHECK_MSG(c, ToMpz(B::FromBytesBE(v)) == vbe, n << " bytes");
    BitsOf<64 * N>(c, a, x);
    BitsOf<64 * N - 1>(c, a, x);
    BitsOf<64 * N - 9>(c, a, x);
    BitsOf<33>(c, a, x);
    BitsOf<1>(c, a, x);
    BitsOf<64>(c, a, x);
    // single bits
    size_t i = c.Draw(64 * N + 3);
    bool bit = c.Bool();
    PBT_CHECK(c, BitTraits<B>::TestBit(a, i) ==
                     (i < 64 * N && mpz_tstbit(x.get_mpz_t(), i)));
    B t = a;
    BitTraits<B>::SetBit(t, i, bit);
    mpz_class y = x;
    if (i < 64 * N) {
      if (bit)
        mpz_setbit(y.get_mpz_t(), i);
      else
        mpz_clrbit(y.get_mpz_t(), i);
    }
    PBT_CHECK_MSG(c, ToMpz(t) == y, "SetBit " << i);
    PBT_CHECK(c, BitTraits<B>::GetNumBits(a) == 64 * N);
  }

  static void Extract(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    size_t off = c.Draw(64 * N - 1);
    if (c.OneIn(4)) off = 64 * c.Draw(N - 1) + (c.Bool() ? 32 : 0);
    size_t n64 = c.Range(1, 63), n32 = c.Range(1, 31);
    c.Note("N=", N, " a=", x.get_str(16), " off=", off, " n64=", n64,
           " n32=", n32);
    c.Nontrivial(x > 65536);
    c.LabelIf(off % 64 + n64 > 64, "crosses a 64-bit border");
    c.LabelIf(off + n64 > 64 * N, "runs past the end");
    mpz_class e = (x >> off) % Pow2(n64);
    PBT_CHECK_MSG(c, a.ExtractBits64(off, n64) == e.get_ui(),
                  "off " << off << " n " << n64);
    e = (x >> off) % Pow2(n32);
    PBT_CHECK_MSG(c, a.ExtractBits32(off, n32) == e.get_ui(),
                  "off " << off << " n " << n32);
  }

  static void Iterate(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    c.Note("N=", N, " a=", x.get_str(16));
    c.Nontrivial(x > 65536);
    size_t sig = x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2);
    auto expect = [&](size_t bits, bool be, const std::vector<bool>& got,
                      const char* what) {
      PBT_CHECK_MSG(c, got.size() == bits, what << " " << got.size() << " bits");
      for (size_t i = 0; i < bits; ++i)
        PBT_CHECK_MSG(c,
                      got[i] == (mpz_tstbit(x.get_mpz_t(),
                                            be ? bits - 1 - i : i) == 1),
                      what << " at " << i);
    };
    auto collect = [&](auto b, auto e) {
      std::vector<bool> v;
      for (; b != e && v.size() < 64 * N + 70; ++b) v.push_back(*b);
      return v;
    };
    using BE = BitIteratorBE<B>;
    using LE = BitIteratorLE<B>;
    expect(64 * N, true, collect(BE::begin(&a), BE::end(&a)), "BE");
    expect(sig, true, collect(BE::begin(&a, true), BE::end(&a)), "BE skip");
    expect(64 * N, false, collect(LE::begin(&a), LE::end(&a)), "LE");
    expect(sig, false, collect(LE::begin(&a), LE::end(&a, true)), "LE skip");
    // arbitrary-precision values have whole limbs of bits
    mpz_class m = x;
    size_t dyn = (sig + 63) / 64 * 64;
    using MBE = BitIteratorBE<mpz_class>;
    using MLE = BitIteratorLE<mpz_class>;
    expect(dyn, true, collect(MBE::begin(&m), MBE::end(&m)), "mpz BE");
    expect(sig, true, collect(MBE::begin(&m, true), MBE::end(&m)),
           "mpz BE skip");
    expect(dyn, false, collect(MLE::begin(&m), MLE::end(&m)), "mpz LE");
    expect(sig, false, collect(MLE::begin(&m), MLE::end(&m, true)),
           "mpz LE skip");
  }

  static void Naf(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a);
    c.Note("N=", N, " a=", x.get_str(16));
    c.Nontrivial(x > 65536);
    c.LabelIf(x >= Pow2(64 * N) / 3 * 2, "may need one digit more");
    std::vector<int8_t> naf = a.ToNAF();
    PBT_CHECK_MSG(c, naf.size() <= 64 * N + 1, naf.size() << " digits");
    mpz_class v = 0;
    for (size_t i = 0; i < naf.size(); ++i) {
      PBT_CHECK(c, naf[i] >= -1 && naf[i] <= 1);
      if (i) PBT_CHECK_MSG(c, naf[i] == 0 || naf[i - 1] == 0, "at " << i);
      v += Pow2(i) * static_cast<int>(naf[i]);
    }
    PBT_CHECK_MSG(c, v == x, v.get_str(16) << " != " << x.get_str(16));
    if (!naf.empty()) PBT_CHECK(c, naf.back() == 1);
  }

  static void Gmp(Case& c) {
    B a = AnyBigInt<N>(c);
    mpz_class x = ToMpz(a), y;
    bool neg = c.Bool();
    c.Note("N=", N, " a=", x.get_str(16), " neg=", neg);
    c.Nontrivial(x > 65536);
    gmp::WriteLimbs(a.limbs, N, &y);
    PBT_CHECK(c, y == x);
    uint64_t buf[N] = {0};
    gmp::CopyLimbs(x, buf);
    PBT_CHECK(c, B(buf) == a);
    PBT_CHECK(c, gmp::GetLimbSize(x) == mpz_size(x.get_mpz_t()));
    for (size_t i = 0; i < gmp::GetLimbSize(x); ++i)
      PBT_CHECK(c, gmp::GetLimb(x, i) == a.limbs[i]);
    mpz_class s = neg ? mpz_class(-x) : x;
    PBT_CHECK(c, gmp::IsZero(s) == (s == 0));
    PBT_CHECK(c, gmp::IsNegative(s) == (s < 0));
    PBT_CHECK(c, gmp::IsPositive(s) == (s > 0));
    PBT_CHECK(c, gmp::GetAbs(s) == x);
    SignedValue<mpz_class> sv(s);
    PBT_CHECK(c, sv.ToValue() == s);
    mpz_class r;
    PBT_CHECK(c, gmp::ParseIntoMpz(s.get_str(10), 10, &r) && r == s);
    PBT_CHECK(c, gmp::FromDecString(s.get_str(10)) == s);
    PBT_CHECK(c, gmp::ParseIntoMpz(x.get_str(16), 16, &r) && r == x);
    PBT_CHECK(c, gmp::FromHexString("0x" + x.get_str(16)) == x);
    size_t i = c.Draw(64 * N + 10);
    bool bit = c.Bool();
    mpz_class t = x, e = x;
    gmp::SetBit(t, i, bit);
    if (bit)
      mpz_setbit(e.get_mpz_t(), i);
    else
      mpz_clrbit(e.get_mpz_t(), i);
    PBT_CHECK(c, t == e);
    PBT_CHECK(c, gmp::TestBit(t, i) == bit);
    if (x > 0) {
      mpz_class rnd = gmp::Random(x);
      PBT_CHECK(c, rnd >= 0 && rnd < x);
    }
    int64_t iv = static_cast<int64_t>(c.U64());
    PBT_CHECK(c, gmp::FromSignedInt(iv) == mpz_class(static_cast<long>(iv)));
    PBT_CHECK(c, gmp::FromUnsignedInt(static_cast<uint64_t>(iv)) ==
                     mpz_class(static_cast<unsigned long>(iv)));
  }

  static void Register(const std::string& n) {
    PBT_REGISTER("text/" + n, 15000, 500000, Text);
    PBT_REGISTER("text-reject/" + n, 8000, 250000, TextReject);
    PBT_REGISTER("bits-bytes/" + n, 12000, 400000, BitsBytes);
    PBT_REGISTER("extract/" + n, 40000, 1500000, Extract);
    PBT_REGISTER("iterate/" + n, 8000, 250000, Iterate);
    PBT_REGISTER("naf/" + n, 12000, 400000, Naf);
    PBT_REGISTER("gmp/" + n, 12000, 400000, Gmp);
  }
};

int reg [[maybe_unused]] = [] {
  Ops<1>::Register("1");
  Ops<2>::Register("2");
  Ops<4>::Register("4");
  Ops<5>::Register("5");
  Ops<6>::Register("6");
  Ops<9>::Register("9");
  return 0;
}();

}  // namespace

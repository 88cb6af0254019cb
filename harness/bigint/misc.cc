// Single-word building blocks and bit utilities.
#include "tachyon/base/bits.h"
#include "tachyon/math/base/arithmetics.h"

#include "verif/pbt/gen.h"

#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;
using u128 = unsigned __int128;

void Words(Case& c) {
  uint64_t a = c.U64(), b = c.U64(), d = c.U64(), e = c.U64();
  uint64_t cy = c.Draw(1);
  c.Note(a, " ", b, " ", d, " ", e);
  c.Nontrivial(a > 65536 || b > 65536);
  namespace u64 = tachyon::math::internal::u64;
  namespace u32 = tachyon::math::internal::u32;
  u128 s = (u128)a + b + cy;
  auto r = u64::AddWithCarry(a, b, cy);
  PBT_CHECK(c, r.result == (uint64_t)s && r.carry == (uint64_t)(s >> 64));
  auto q = u64::SubWithBorrow(a, b, cy);
  PBT_CHECK(c, q.result == a - b - cy &&
                   q.borrow == ((u128)a < (u128)b + cy ? 1 : 0));
  u128 m = (u128)b * d + a;  // at most 2^128 - 2^64
  u128 m2 = m + e;
  auto p = u64::MulAddWithCarry(a, b, d, e);
  PBT_CHECK(c, p.lo == (uint64_t)m2 && p.hi == (uint64_t)(m2 >> 64));
  uint32_t a3 = a, b3 = b, d3 = d, e3 = e, c3 = cy;
  uint64_t s3 = (uint64_t)a3 + b3 + c3;
  auto r3 = u32::AddWithCarry(a3, b3, c3);
  PBT_CHECK(c, r3.result == (uint32_t)s3 && r3.carry == (s3 >> 32));
  auto q3 = u32::SubWithBorrow(a3, b3, c3);
  PBT_CHECK(c, q3.result == a3 - b3 - c3 &&
                   q3.borrow == ((uint64_t)a3 < (uint64_t)b3 + c3 ? 1 : 0));
  uint64_t m3 = (uint64_t)b3 * d3 + a3 + e3;
  auto p3 = u32::MulAddWithCarry(a3, b3, d3, e3);
  PBT_CHECK(c, p3.lo == (uint32_t)m3 && p3.hi == (m3 >> 32));
}

template <typename T>
void BitsT(Case& c, T v) {
  namespace bits = tachyon::base::bits;
  constexpr int kW = sizeof(T) * 8;
  int lead = 0, trail = 0, ones = 0;
  for (int i = kW - 1; i >= 0 && !((v >> i) & 1); --i) ++lead;
  for (int i = 0; i < kW && !((v >> i) & 1); ++i) ++trail;
  for (int i = 0; i < kW; ++i) ones += (v >> i) & 1;
  PBT_CHECK(c, bits::IsPowerOfTwo(v) == (ones == 1));
  PBT_CHECK(c, bits::CountLeadingZeroBits(v) == lead);
  PBT_CHECK(c, bits::CountTrailingZeroBits(v) == trail);
  PBT_CHECK(c, bits::Log2Floor(v) == kW - 1 - lead);
  int ceil = v == 0 ? -1 : (ones == 1 ? kW - 1 - lead : kW - lead);
  PBT_CHECK(c, bits::Log2Ceiling(v) == ceil);
  PBT_CHECK(c, bits::SafeLog2Ceiling(v) ==
                   static_cast<uint32_t>(ceil < 0 ? 0 : ceil));
  if (ones == 1) PBT_CHECK(c, bits::CheckedLog2(v) == (uint32_t)trail);
}

void Bits(Case& c) {
  namespace bits = tachyon::base::bits;
  uint64_t v = c.U64();
  c.Note("v=", v);
  c.Nontrivial(v > 3);
  BitsT<uint64_t>(c, v);
  BitsT<uint32_t>(c, static_cast<uint32_t>(v));
  uint64_t rev = 0;
  for (int i = 0; i < 64; ++i)
    if ((v >> i) & 1) rev |= uint64_t{1} << (63 - i);
  PBT_CHECK(c, bits::BitRev(v) == rev);
  size_t len = c.Range(1, 64);
  uint64_t x = len == 64 ? v : v & ((uint64_t{1} << len) - 1);
  uint64_t rl = 0;
  for (size_t i = 0; i < len; ++i)
    if ((x >> i) & 1) rl |= uint64_t{1} << (len - 1 - i);
  PBT_CHECK_MSG(c, bits::ReverseBitsLen(x, len) == rl, x << " " << len);
  uint64_t al = uint64_t{1} << c.Draw(40);
  uint64_t sz = v >> 20;
  PBT_CHECK(c, bits::AlignDown(sz, al) == sz / al * al);
  PBT_CHECK(c, bits::AlignUp(sz, al) == (sz + al - 1) / al * al);
}

PBT_REGISTER("words", 200000, 5000000, Words);
PBT_REGISTER("bits", 100000, 3000000, Bits);
}  // namespace

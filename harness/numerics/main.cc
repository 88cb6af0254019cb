// C31, part 1: checked, clamped and cast arithmetic against exact integers.
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>

#include "tachyon/base/numerics/checked_math.h"
#include "tachyon/base/numerics/clamped_math.h"
#include "tachyon/base/numerics/ranges.h"
#include "tachyon/base/numerics/safe_conversions.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

namespace tb = tachyon::base;
using pbt::Case;
using pbt::Rng;
using I = __int128;

template <typename T>
constexpr I kMin = std::numeric_limits<T>::lowest();
template <typename T>
constexpr I kMax = std::numeric_limits<T>::max();
template <typename T>
bool Fits(I v) { return v >= kMin<T> && v <= kMax<T>; }
template <typename T>
T Clamp(I v) { return v < kMin<T> ? std::numeric_limits<T>::lowest() : v > kMax<T> ? std::numeric_limits<T>::max() : static_cast<T>(v); }

I Mul(I a, I b) {
  I r;
  if (!__builtin_mul_overflow(a, b, &r)) return r;
  constexpr I top = static_cast<I>((static_cast<unsigned __int128>(1) << 127) - 1);
  return (a < 0) == (b < 0) ? top : -top;
}

// Borders of every type, small numbers, powers of two, and everything else.
template <typename T>
T Operand(Case& c, Rng& r) {
  switch (c.Draw(6)) {
    case 0: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(r.Upto(2)));
    case 1: return static_cast<T>(std::numeric_limits<T>::lowest() + static_cast<T>(r.Upto(2)));
    case 2: return static_cast<T>(static_cast<int64_t>(r.Upto(6)) - (std::is_signed_v<T> ? 3 : 0));
    case 3: case 4: {
      uint64_t p = uint64_t{1} << r.Upto(63);
      p += r.Upto(2);
      p -= 1;
      return Clamp<T>(std::is_signed_v<T> && r.Bool() ? -static_cast<I>(p) : static_cast<I>(p));
    }
    case 5: {  // near a square root of a limit, so that products straddle the border
      double root = std::sqrt(static_cast<double>(r.Bool() ? std::numeric_limits<T>::max() : std::numeric_limits<uint32_t>::max()));
      I v = static_cast<I>(root) - 2 + static_cast<I>(r.Upto(4));
      return Clamp<T>(std::is_signed_v<T> && r.Bool() ? -v : v);
    }
    default: return static_cast<T>(r.Next() >> (64 - 8 * sizeof(T)));
  }
}

template <typename Num>
struct ValueType;
template <typename T>
struct ValueType<tb::CheckedNumeric<T>> { using type = T; };
template <typename T>
struct ValueType<tb::ClampedNumeric<T>> { using type = T; };

// A checked number holds exactly |want|, or is invalid when it cannot.
template <typename N>
bool Holds(const N& got, I want, bool refuse = false) {
  using R = typename ValueType<N>::type;
  if (!got.IsValid()) return refuse || !Fits<R>(want);
  R v{};
  return got.template AssignIfValid<R>(&v) && static_cast<I>(v) == want &&
         static_cast<I>(static_cast<R>(got.ValueOrDie())) == want;
}
template <typename N>
bool Saturates(const N& got, I want) {
  using R = typename ValueType<N>::type;
  return got.RawValue() == Clamp<R>(want);
}

template <typename T, typename U>
void CastsTo(Case& c, T x) {
  I ix = x;
  PBT_T(tb::IsValueInRangeForNumericType<U>(x) == Fits<U>(ix), "in_range");
  PBT_T(tb::saturated_cast<U>(x) == Clamp<U>(ix), "saturated_cast");
  tb::CheckedNumeric<U> k(x);
  PBT_T(Holds(k, ix), "checked_from");
  tb::CheckedNumeric<T> t(x);
  PBT_T(t.template IsValid<U>() == Fits<U>(ix), "is_valid_for");
  PBT_T(tb::IsValidForType<U>(t) == Fits<U>(ix), "is_valid_for");
  U got = 7;
  PBT_T(t.template AssignIfValid<U>(&got) == Fits<U>(ix), "assign_if_valid");
  PBT_T(static_cast<I>(got) == (Fits<U>(ix) ? ix : 7), "assign_if_valid");
  PBT_T(static_cast<I>(static_cast<U>(t.template ValueOrDefault<U>(9))) == (Fits<U>(ix) ? ix : 9), "value_or_default");
  PBT_T(Holds(t.template Cast<U>(), ix), "cast");
  PBT_T(Holds(tb::CheckedNumeric<U>(t), ix), "convert");
  tb::ClampedNumeric<U> m(x);
  PBT_T(Saturates(m, ix), "clamped_from");
  tb::ClampedNumeric<T> s(x);
  PBT_T(static_cast<U>(s) == Clamp<U>(ix), "clamped_to");
  PBT_T(Saturates(tb::ClampedNumeric<U>(static_cast<U>(s)), ix), "clamped_convert");
  if (Fits<U>(ix)) PBT_T(static_cast<I>(tb::checked_cast<U>(x)) == ix, "checked_cast");
}

template <typename T, typename U>
void Pair(Case& c) {
  Rng r = c.Bulk();
  T x = Operand<T>(c, r);
  U y = Operand<U>(c, r);
  I a = x, b = y;
  c.Nontrivial(x != 0 && y != 0);
  c.Note("x=", std::to_string(x), " y=", std::to_string(y));
  CastsTo<T, U>(c, x);

  tb::CheckedNumeric<T> cx(x);
  tb::CheckedNumeric<U> cy(y);
  tb::ClampedNumeric<T> sx(x);
  tb::ClampedNumeric<U> sy(y);

  // Sums, differences and products.
  auto sum = tb::CheckAdd(x, y);
  auto dif = tb::CheckSub(x, y);
  auto pro = tb::CheckMul(x, y);
  c.LabelIf(!sum.IsValid(), "sum out of range");
  c.LabelIf(!pro.IsValid(), "product out of range");
  PBT_T(Holds(sum, a + b), "check_add");
  PBT_T(Holds(dif, a - b), "check_sub");
  PBT_T(Holds(pro, Mul(a, b)), "check_mul");
  PBT_T(Holds(cx + cy, a + b) && Holds(cx + y, a + b) && Holds(x + cy, a + b), "check_add");
  PBT_T(Holds(cx - cy, a - b) && Holds(cx - y, a - b) && Holds(x - cy, a - b), "check_sub");
  PBT_T(Holds(cx * cy, Mul(a, b)) && Holds(cx * y, Mul(a, b)) && Holds(x * cy, Mul(a, b)), "check_mul");
  { auto t = cx; t += y; PBT_T(Holds(t, a + b), "check_add_assign"); }
  { auto t = cx; t -= cy; PBT_T(Holds(t, a - b), "check_sub_assign"); }
  { auto t = cx; t *= y; PBT_T(Holds(t, Mul(a, b)), "check_mul_assign"); }
  PBT_T(Saturates(tb::ClampAdd(x, y), a + b) && Saturates(sx + sy, a + b) && Saturates(x + sy, a + b), "clamp_add");
  PBT_T(Saturates(tb::ClampSub(x, y), a - b) && Saturates(sx - sy, a - b) && Saturates(sx - y, a - b), "clamp_sub");
  PBT_T(Saturates(tb::ClampMul(x, y), Mul(a, b)) && Saturates(sx * sy, Mul(a, b)) && Saturates(sx * y, Mul(a, b)), "clamp_mul");
  if constexpr (std::is_same_v<T, U>) {
    { auto t = sx; t += y; PBT_T(Saturates(t, a + b), "clamp_add_assign"); }
    { auto t = sx; t -= y; PBT_T(Saturates(t, a - b), "clamp_sub_assign"); }
    { auto t = sx; t *= y; PBT_T(Saturates(t, Mul(a, b)), "clamp_mul_assign"); }
  }

  // Quotients and remainders. With a 64-bit unsigned operand there is no
  // common type for negative values: refusing those is fine.
  bool refuse = (std::is_signed_v<T> != std::is_signed_v<U>) && (sizeof(T) == 8 || sizeof(U) == 8) &&
                (a < 0 || b < 0 || a > kMax<int64_t> || b > kMax<int64_t>);
  if (y == 0) {
    PBT_T(!tb::CheckDiv(x, y).IsValid() && !tb::CheckMod(x, y).IsValid(), "by_zero");
    PBT_T(!(cx / cy).IsValid() && !(cx % cy).IsValid(), "by_zero");
    auto z = tb::ClampDiv(x, y);
    using R = typename ValueType<decltype(z)>::type;
    PBT_T(z.RawValue() == (x == 0 ? R(0) : x < 0 ? std::numeric_limits<R>::lowest() : std::numeric_limits<R>::max()), "clamp_by_zero");
  } else {
    PBT_T(Holds(tb::CheckDiv(x, y), a / b, refuse), "check_div");
    PBT_T(Holds(cx / cy, a / b, refuse), "check_div");
    PBT_T(Holds(tb::CheckMod(x, y), a % b, refuse), "check_mod");
    PBT_T(Holds(cx % cy, a % b, refuse), "check_mod");
    { auto t = cx; t /= y; PBT_T(Holds(t, a / b, refuse), "check_div_assign"); }
    { auto t = cx; t %= y; PBT_T(Holds(t, a % b, refuse), "check_mod_assign"); }
    if (!refuse) {
      PBT_T(Saturates(tb::ClampDiv(x, y), a / b), "clamp_div");
      auto m = tb::ClampMod(x, y);
      using R = typename ValueType<decltype(m)>::type;
      if (Fits<R>(a % b)) PBT_T(static_cast<I>(m.RawValue()) == a % b, "clamp_mod");
    }
  }

  // Comparisons of numbers of different types are by value.
  PBT_T((tb::MakeStrictNum(x) < y) == (a < b) && (tb::MakeStrictNum(x) <= y) == (a <= b), "less");
  PBT_T((tb::MakeStrictNum(x) > y) == (a > b) && (tb::MakeStrictNum(x) >= y) == (a >= b), "greater");
  PBT_T((tb::MakeStrictNum(x) == y) == (a == b) && (tb::MakeStrictNum(x) != y) == (a != b), "equal");
  PBT_T((sx < sy) == (a < b) && (sx == sy) == (a == b) && (sx >= y) == (a >= b), "clamped_compare");
  PBT_T(Holds(tb::CheckMax(x, y), std::max(a, b)) && Holds(cx.Max(y), std::max(a, b)), "check_max");
  PBT_T(Holds(tb::CheckMin(x, y), std::min(a, b)) && Holds(cx.Min(y), std::min(a, b)), "check_min");
  PBT_T(Saturates(tb::ClampMax(x, y), std::max(a, b)) && Saturates(sx.Max(y), std::max(a, b)), "clamp_max");
  PBT_T(Saturates(tb::ClampMin(x, y), std::min(a, b)) && Saturates(sx.Min(y), std::min(a, b)), "clamp_min");

  // Bits: the operands as two's complement numbers of the wider unsigned type.
  auto conj = tb::CheckAnd(x, y);
  using B = typename ValueType<decltype(conj)>::type;
  auto bits = [](auto v) { return static_cast<I>(static_cast<B>(v)); };
  static_assert(std::is_unsigned_v<B> && sizeof(B) >= sizeof(T) && sizeof(B) >= sizeof(U));
  PBT_T(Holds(conj, bits(x) & bits(y)) && Holds(cx & cy, bits(x) & bits(y)), "and");
  PBT_T(Holds(tb::CheckOr(x, y), bits(x) | bits(y)) && Holds(cx | y, bits(x) | bits(y)), "or");
  PBT_T(Holds(tb::CheckXor(x, y), bits(x) ^ bits(y)) && Holds(cx ^ cy, bits(x) ^ bits(y)), "xor");
  PBT_T(Saturates(tb::ClampAnd(x, y), bits(x) & bits(y)), "clamp_and");
  PBT_T(Saturates(tb::ClampOr(x, y), bits(x) | bits(y)), "clamp_or");
  PBT_T(Saturates(tb::ClampXor(x, y), bits(x) ^ bits(y)), "clamp_xor");

  // Shifts.
  constexpr unsigned kBits = 8 * sizeof(T);
  U sh = r.Upto(3) ? static_cast<U>(r.Upto(kBits + 2)) : y;
  I is = sh;
  c.Note("shift=", std::to_string(sh));
  bool inside = is >= 0 && is < kBits;
  I left = inside ? a * (static_cast<I>(1) << is) : 0;
  if (inside && a > 0) {
    PBT_T(Holds(tb::CheckLsh(x, sh), left) && Holds(cx << sh, left), "check_lsh");
  } else if (a > 0) {
    PBT_T(!tb::CheckLsh(x, sh).IsValid(), "check_lsh");
  } else if (a < 0) {
    PBT_T(!tb::CheckLsh(x, sh).IsValid(), "check_lsh_negative");
  } else if (inside) {
    PBT_T(Holds(tb::CheckLsh(x, sh), 0, static_cast<unsigned>(is) >= kBits - 1), "check_lsh");
  }
  if (inside) PBT_T(Holds(tb::CheckRsh(x, sh), a >> is) && Holds(cx >> sh, a >> is), "check_rsh");
  else PBT_T(!tb::CheckRsh(x, sh).IsValid(), "check_rsh");
  if constexpr (std::is_unsigned_v<U>) {
    if (inside) PBT_T(Saturates(tb::ClampLsh(x, sh), left), "clamp_lsh");
    else PBT_T(Saturates(tb::ClampLsh(x, sh), a == 0 ? 0 : a < 0 ? kMin<T> : kMax<T>), "clamp_lsh");
    PBT_T(Saturates(tb::ClampRsh(x, sh), inside ? a >> is : a < 0 ? -1 : 0), "clamp_rsh");
  }

  // Invalidity is contagious.
  tb::CheckedNumeric<T> bad = tb::CheckDiv(x, T(0));
  PBT_T(!bad.IsValid() && !(bad + cy).IsValid() && !(cy * bad).IsValid() && !(bad - bad).IsValid(), "invalid_stays");
  { auto t = cx; t *= bad; t *= 0; PBT_T(!t.IsValid(), "invalid_stays"); }
  // Several operands at once.
  T z = Operand<T>(c, r);
  auto many = tb::CheckAdd(x, y, z);
  using S = typename ValueType<decltype(sum)>::type;
  using M = typename ValueType<decltype(many)>::type;
  PBT_T(many.IsValid() == (Fits<S>(a + b) && Fits<M>(a + b + static_cast<I>(z))), "check_add_many");
  if (many.IsValid()) PBT_T(Holds(many, a + b + static_cast<I>(z)), "check_add_many");
}

template <typename T>
void Single(Case& c) {
  Rng r = c.Bulk();
  T x = Operand<T>(c, r);
  I a = x;
  c.Nontrivial(x != 0);
  c.Note("x=", std::to_string(x));
  tb::CheckedNumeric<T> k(x);
  tb::ClampedNumeric<T> s(x);
  if constexpr (std::is_signed_v<T>) {
    PBT_T(Holds(-k, -a), "check_negate");
    PBT_T(Holds(k.Abs(), a < 0 ? -a : a), "check_abs");
  } else {
    PBT_T(Holds(k.Abs(), a), "check_abs");
  }
  PBT_T(Holds(k.UnsignedAbs(), a < 0 ? -a : a), "check_unsigned_abs");
  PBT_T(Saturates(-s, -a), "clamp_negate");
  PBT_T(Saturates(s.Abs(), a < 0 ? -a : a), "clamp_abs");
  PBT_T(Saturates(s.UnsignedAbs(), a < 0 ? -a : a), "clamp_unsigned_abs");
  if constexpr (std::is_unsigned_v<T>) PBT_T(Holds(~k, static_cast<I>(static_cast<T>(~x))), "check_invert");
  { auto t = k; PBT_T(Holds(++t, a + 1), "check_increment"); }
  { auto t = k; auto old = t++; PBT_T(Holds(old, a) && Holds(t, a + 1), "check_increment"); }
  { auto t = k; PBT_T(Holds(--t, a - 1), "check_decrement"); }
  { auto t = k; auto old = t--; PBT_T(Holds(old, a) && Holds(t, a - 1), "check_decrement"); }
  { auto t = s; PBT_T(Saturates(++t, a + 1), "clamp_increment"); }
  { auto t = s; PBT_T(Saturates(--t, a - 1), "clamp_decrement"); }
  { auto t = s; auto old = t++; PBT_T(Saturates(old, a) && Saturates(t, a + 1), "clamp_increment"); }
  // A history: the checked number follows the exact one while it fits, and is
  // invalid ever after.
  tb::CheckedNumeric<T> h(x);
  tb::ClampedNumeric<T> q(x);
  I eh = a, eq = a;
  bool ok = true;
  for (size_t i = 0; i < 6; ++i) {
    T y = Operand<T>(c, r);
    I v = y;
    switch (c.Draw(2)) {
      case 0: h += y; q += y; eh += v; eq = Clamp<T>(eq + v); break;
      case 1: h -= y; q -= y; eh -= v; eq = Clamp<T>(eq - v); break;
      default: h *= y; q *= y; eh = Mul(eh, v); eq = Clamp<T>(Mul(eq, v)); break;
    }
    ok = ok && Fits<T>(eh);
    PBT_T(h.IsValid() == ok, "check_history");
    if (ok) PBT_T(Holds(h, eh), "check_history");
    else eh = 0;
    PBT_T(Saturates(q, eq), "clamp_history");
  }
}

template <typename F>
F AnyFloat(Case& c, Rng& r) {
  switch (c.Draw(7)) {
    case 0: return std::numeric_limits<F>::quiet_NaN();
    case 1: return r.Bool() ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity();
    case 2: case 3: {  // next to a power of two
      F p = std::ldexp(F(1), static_cast<int>(r.Upto(66)));
      if (r.Bool()) p = -p;
      switch (r.Upto(4)) { case 0: return std::nextafter(p, F(0)); case 1: return std::nextafter(p, p * 2);
        case 2: return p + F(0.5); case 3: return p - F(0.5); default: return p; }
    }
    case 4: return F(static_cast<int64_t>(r.Upto(20)) - 10) / F(2);
    case 5: return std::ldexp(F(r.Next() >> 11), -static_cast<int>(r.Upto(60))) * (r.Bool() ? 1 : -1);
    case 6: return r.Bool() ? std::numeric_limits<F>::max() : std::numeric_limits<F>::lowest();
    default: return F(static_cast<int64_t>(r.Next()));
  }
}

template <typename F, typename T>
void FromFloat(Case& c) {
  Rng r = c.Bulk();
  F x = AnyFloat<F>(c, r);
  c.Nontrivial(std::isfinite(x) && x != 0);
  c.Note("x=", std::to_string(x));
  auto in = [](F v) {  // truncation of v is in the range of T
    if (!std::isfinite(v)) return false;
    F t = std::trunc(v);
    return t >= static_cast<F>(std::numeric_limits<T>::lowest()) &&
           t < std::ldexp(F(1), std::numeric_limits<T>::digits);
  };
  auto clamp = [&](F v) -> T {
    if (std::isnan(v)) return 0;
    if (in(v)) return static_cast<T>(v);
    return v < 0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
  };
  // A value strictly between a limit and the next integer may count either way.
  bool between = in(x) && std::trunc(x) != x &&
                 (static_cast<I>(x) == kMin<T> || static_cast<I>(x) == kMax<T>);
  if (!between) {
    PBT_T(tb::IsValueInRangeForNumericType<T>(x) == in(x), "float_in_range");
    tb::CheckedNumeric<T> k(x);
    PBT_T(k.IsValid() == in(x), "checked_from_float");
    if (in(x)) PBT_T(Holds(k, static_cast<I>(x)), "checked_from_float");
  }
  PBT_T(tb::saturated_cast<T>(x) == clamp(x), "saturated_cast_float");
  PBT_T(tb::ClampedNumeric<T>(x).RawValue() == clamp(x), "clamped_from_float");
  PBT_T(tb::ClampFloor<T>(x) == clamp(std::floor(x)), "clamp_floor");
  PBT_T(tb::ClampCeil<T>(x) == clamp(std::ceil(x)), "clamp_ceil");
  PBT_T(tb::ClampRound<T>(x) == clamp(std::round(x)), "clamp_round");
  if (!std::isnan(x)) {
    T y = Operand<T>(c, r);
    F tol = F(r.Upto(8));
    F z = x + F(static_cast<int>(r.Upto(16)) - 8);
    if (std::isfinite(z) && std::isfinite(x))
      PBT_T(tb::IsApproximatelyEqual(x, z, tol) == (std::abs(z - x) <= tol), "approximately_equal");
    (void)y;
  }
}

template <typename T>
void RegisterWith(const std::string& t) {
  pbt::Register("int." + t + "_i8", 60, 6000, Pair<T, int8_t>);
  pbt::Register("int." + t + "_u8", 60, 6000, Pair<T, uint8_t>);
  pbt::Register("int." + t + "_i16", 60, 6000, Pair<T, int16_t>);
  pbt::Register("int." + t + "_u16", 60, 6000, Pair<T, uint16_t>);
  pbt::Register("int." + t + "_i32", 60, 6000, Pair<T, int32_t>);
  pbt::Register("int." + t + "_u32", 60, 6000, Pair<T, uint32_t>);
  pbt::Register("int." + t + "_i64", 60, 6000, Pair<T, int64_t>);
  pbt::Register("int." + t + "_u64", 60, 6000, Pair<T, uint64_t>);
  pbt::Register("one." + t, 100, 10000, Single<T>);
  pbt::Register("double." + t, 100, 10000, FromFloat<double, T>);
  pbt::Register("float." + t, 100, 10000, FromFloat<float, T>);
}

void RegisterAll() {
  RegisterWith<int8_t>("i8");
  RegisterWith<uint8_t>("u8");
  RegisterWith<int16_t>("i16");
  RegisterWith<uint16_t>("u16");
  RegisterWith<int32_t>("i32");
  RegisterWith<uint32_t>("u32");
  RegisterWith<int64_t>("i64");
  RegisterWith<uint64_t>("u64");
}
PBT_INIT(RegisterAll);

}  // namespace

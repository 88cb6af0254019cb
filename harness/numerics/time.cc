// C31, part 2: time points and durations against exact integers.
#include <cmath>
#include <chrono>
#include <limits>
#include <sstream>
#include <string>

#include "absl/time/time.h"
#include "tachyon/base/time/time.h"
#include "tachyon/base/time/time_delta_flag.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

namespace tb = tachyon::base;
using pbt::Case;
using pbt::Rng;
using tb::Time;
using tb::TimeDelta;
using tb::TimeTicks;
using I = __int128;

constexpr int64_t kTop = std::numeric_limits<int64_t>::max();
constexpr int64_t kBottom = std::numeric_limits<int64_t>::min();
constexpr double kInf = std::numeric_limits<double>::infinity();

int64_t Sat(I v) { return v > kTop ? kTop : v < kBottom ? kBottom : static_cast<int64_t>(v); }
int64_t SatF(double v) {
  if (std::isnan(v)) return 0;
  if (v >= 9223372036854775808.0) return kTop;
  if (v < -9223372036854775808.0) return kBottom;
  return static_cast<int64_t>(v);
}
bool Inf(int64_t v) { return v == kTop || v == kBottom; }

constexpr int64_t kUnits[] = {1, 1000, 1000000, 60000000, 3600000000, 86400000000};

int64_t Micros(Case& c, Rng& r) {
  int64_t sign = r.Bool() ? 1 : -1;
  switch (c.Draw(6)) {
    case 0: return static_cast<int64_t>(r.Upto(10)) - 5;
    case 1: {  // around a whole number of some unit
      int64_t unit = kUnits[r.Upto(5)];
      int64_t k = static_cast<int64_t>(r.Next() >> (r.Upto(20) + 43)) % (kTop / unit);
      return sign * k * unit + static_cast<int64_t>(r.Upto(2)) - 1;
    }
    case 2: return kTop - static_cast<int64_t>(r.Upto(3));
    case 3: return kBottom + static_cast<int64_t>(r.Upto(3));
    case 4: return sign * static_cast<int64_t>(r.Next() >> (1 + r.Upto(62)));
    case 5: return sign * (kTop / kUnits[r.Upto(5)] + static_cast<int64_t>(r.Upto(2)) - 1);
    default: return sign * static_cast<int64_t>(r.Upto(4000000));
  }
}

TimeDelta D(int64_t us) { return TimeDelta::FromInternalValue(us); }
int64_t U(TimeDelta d) { return d.InMicroseconds(); }
Time T(int64_t us) { return Time::FromDeltaSinceUnixEpoch(D(us)); }
int64_t U(Time t) { return t.ToDeltaSinceUnixEpoch().InMicroseconds(); }

I FloorDiv(I a, I b) { return a / b - ((a % b != 0) && ((a < 0) != (b < 0))); }
I CeilDiv(I a, I b) { return -FloorDiv(-a, b); }

void Arithmetic(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r), b = Micros(c, r);
  I ia = a, ib = b;
  TimeDelta x = D(a), y = D(b);
  c.Nontrivial(a != 0 && b != 0);
  c.LabelIf(Inf(a) || Inf(b), "infinite");
  c.Note("a=", a, " b=", b);
  PBT_T(x.is_zero() == (a == 0) && x.is_positive() == (a > 0) && x.is_negative() == (a < 0), "sign");
  PBT_T(x.is_max() == (a == kTop) && x.is_min() == (a == kBottom) && x.is_inf() == Inf(a), "infinite");
  PBT_T((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "compare");
  PBT_T(U(x.magnitude()) == Sat(a < 0 ? -ia : ia), "magnitude");
  PBT_T(U(-x) == (a == kTop ? kBottom : a == kBottom ? kTop : -a), "negate");
  if (!Inf(a) || !Inf(b)) {
    int64_t sum = Inf(b) ? b : Sat(ia + ib);
    int64_t dif = Inf(b) ? (b < 0 ? kTop : kBottom) : Sat(ia - ib);
    PBT_T(U(x + y) == sum, "add");
    PBT_T(U(x - y) == dif, "sub");
    TimeDelta z = x; z += y; PBT_T(U(z) == sum, "add_assign");
    z = x; z -= y; PBT_T(U(z) == dif, "sub_assign");
  }
  if (b != 0 && !Inf(a) && !Inf(b)) {
    PBT_T(x.IntDiv(y) == Sat(ia / ib), "int_div");
    PBT_T(x / y == static_cast<double>(a) / static_cast<double>(b), "ratio");
  } else if (Inf(a) && !Inf(b)) {
    if (b != 0) PBT_T(x.IntDiv(y) == ((a < 0) == (b < 0) ? kTop : kBottom), "int_div");
    if (b != 0) PBT_T(x / y == ((a < 0) == (b < 0) ? kInf : -kInf), "ratio");
  } else if (a != 0 && b == 0) {
    PBT_T(x.IntDiv(y) == (a < 0 ? kBottom : kTop), "int_div");
  }
  PBT_T(U(x % y) == (Inf(a) || b == 0 || Inf(b) ? a : static_cast<int64_t>(ia % ib)), "mod");
  // Multiples.
  I mag = ib < 0 ? -ib : ib;
  if (Inf(a) || b == 0) {
    PBT_T(x.CeilToMultiple(y) == x && x.FloorToMultiple(y) == x && x.RoundToMultiple(y) == x, "multiple_of_nothing");
  } else if (Inf(b)) {
    PBT_T(U(x.CeilToMultiple(y)) == (a > 0 ? kTop : 0), "ceil_infinite");
    PBT_T(U(x.FloorToMultiple(y)) == (a < 0 ? kBottom : 0), "floor_infinite");
    PBT_T(U(x.RoundToMultiple(y)) == 0, "round_infinite");
  } else if (mag != kTop) {  // the magnitude of -kTop is the infinite one
    PBT_T(U(x.CeilToMultiple(y)) == Sat(CeilDiv(ia, mag) * mag), "ceil");
    PBT_T(U(x.FloorToMultiple(y)) == Sat(FloorDiv(ia, mag) * mag), "floor");
    I abs = ia < 0 ? -ia : ia;
    if (abs + mag < kTop) {
      I near = (abs + mag / 2) / mag * mag;
      PBT_T(U(x.RoundToMultiple(y)) == (a < 0 ? -near : near), "round");
    }
  }
}

template <typename N>
void ScaleBy(Case& c, int64_t a, N n) {
  TimeDelta x = D(a);
  I ia = a, in = n;
  PBT_T(U(x * n) == Sat(ia * in), "times");
  PBT_T(U(n * x) == Sat(ia * in), "times");
  TimeDelta z = x; z *= n; PBT_T(U(z) == Sat(ia * in), "times_assign");
  int64_t q = n != 0 ? Sat(ia / in) : a == 0 ? 0 : a < 0 ? kBottom : kTop;
  PBT_T(U(x / n) == q, "divided");
  z = x; z /= n; PBT_T(U(z) == q, "divided_assign");
}

void Scale(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r);
  c.Nontrivial(a != 0);
  int64_t n = Micros(c, r) >> r.Upto(63);
  c.Note("a=", a, " n=", n);
  if (a != kBottom || n != kBottom) ScaleBy<int64_t>(c, a, n);
  ScaleBy<int>(c, a, static_cast<int>(n));
  ScaleBy<uint32_t>(c, a, static_cast<uint32_t>(n));
  ScaleBy<int8_t>(c, a, static_cast<int8_t>(n));
  if (a >= 0) ScaleBy<uint64_t>(c, a, static_cast<uint64_t>(n) >> 1);
  double f = r.Bool() ? static_cast<double>(n) / 8 : std::ldexp(static_cast<double>(n), -static_cast<int>(r.Upto(60)));
  PBT_T(U(D(a) * f) == SatF(static_cast<double>(a) * f), "times_double");
  if (f != 0) PBT_T(U(D(a) / f) == SatF(static_cast<double>(a) / f), "divided_double");
}

// A negative duration scaled by a size.
void ScaleUnsigned(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r);
  uint64_t n = r.Next() >> (1 + r.Upto(62));
  if (n >= static_cast<uint64_t>(kTop)) n = 1;
  c.Nontrivial(a < 0 && n != 0);
  c.Note("a=", a, " n=", n);
  ScaleBy<uint64_t>(c, a, n);
}

template <typename N>
int Int(N v) {
  return static_cast<int>(std::min<I>(std::max<I>(v, std::numeric_limits<int>::min()), std::numeric_limits<int>::max()));
}

void Units(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r);
  I ia = a;
  TimeDelta x = D(a);
  c.Nontrivial(a != 0);
  c.LabelIf(a < 0, "negative");
  c.Note("a=", a);
  bool inf = Inf(a);
  int imin = std::numeric_limits<int>::min(), imax = std::numeric_limits<int>::max();
  PBT_T(x.InDays() == (inf ? (a < 0 ? imin : imax) : Int(ia / 86400000000)), "days");
  PBT_T(x.InDaysFloored() == (inf ? (a < 0 ? imin : imax) : Int(FloorDiv(ia, 86400000000))), "days_floored");
  PBT_T(x.InHours() == Int(ia / 3600000000), "hours");
  PBT_T(x.InMinutes() == Int(ia / 60000000), "minutes");
  PBT_T(x.InSeconds() == (inf ? a : a / 1000000), "seconds");
  PBT_T(x.InSecondsFloored() == (inf ? a : FloorDiv(ia, 1000000)), "seconds_floored");
  PBT_T(x.InMilliseconds() == (inf ? a : a / 1000), "milliseconds");
  PBT_T(x.InMillisecondsRoundedUp() == (inf ? a : CeilDiv(ia, 1000)), "milliseconds_up");
  PBT_T(x.InMicroseconds() == a, "microseconds");
  PBT_T(x.InNanoseconds() == Sat(ia * 1000), "nanoseconds");
  double lim = a < 0 ? -kInf : kInf;
  PBT_T(x.InSecondsF() == (inf ? lim : static_cast<double>(a) / 1e6), "seconds_f");
  PBT_T(x.InMillisecondsF() == (inf ? lim : static_cast<double>(a) / 1e3), "milliseconds_f");
  PBT_T(x.InMicrosecondsF() == (inf ? lim : static_cast<double>(a)), "microseconds_f");
  if (a != 0) PBT_T(x.ToHz() == (inf ? (a < 0 ? -0.0 : 0.0) : 1e6 / static_cast<double>(a)), "hz");
  // Factories.
  int64_t n = Micros(c, r) >> r.Upto(63);
  I in = n;
  PBT_T(U(tb::Days(n)) == Sat(in * 86400000000), "of_days");
  PBT_T(U(tb::Hours(n)) == Sat(in * 3600000000), "of_hours");
  PBT_T(U(tb::Minutes(n)) == Sat(in * 60000000), "of_minutes");
  PBT_T(U(tb::Seconds(n)) == Sat(in * 1000000), "of_seconds");
  PBT_T(U(tb::Milliseconds(n)) == Sat(in * 1000), "of_milliseconds");
  PBT_T(U(tb::Microseconds(n)) == n, "of_microseconds");
  PBT_T(U(tb::Nanoseconds(n)) == n / 1000, "of_nanoseconds");
  PBT_T(U(tb::Hertz(n)) == (n == 0 ? kTop : 1000000 / n), "of_hertz");
  int k = static_cast<int>(n);
  PBT_T(U(tb::Days(k)) == Sat(I(k) * 86400000000), "of_days");
  PBT_T(U(tb::Hours(k)) == I(k) * 3600000000, "of_hours");
  double f = std::ldexp(static_cast<double>(n), -static_cast<int>(r.Upto(40)));
  PBT_T(U(tb::Seconds(f)) == SatF(f * 1e6), "of_seconds");
  PBT_T(U(tb::Milliseconds(f)) == SatF(f * 1e3), "of_milliseconds");
  PBT_T(U(tb::Days(f)) == SatF(f * 86400000000.0), "of_days");
  std::stringstream ss, want;
  ss << x;
  want << x.InSecondsF() << " s";
  PBT_T(ss.str() == want.str(), "stream");
}

void Conversions(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r);
  TimeDelta x = D(a);
  bool inf = Inf(a);
  c.Nontrivial(a != 0);
  c.Note("a=", a);
  PBT_T(TimeDelta::FromAbsl(x.ToAbsl()) == x, "absl");
  PBT_T(x.ToChronoMicroseconds().count() == a, "chrono_us");
  PBT_T(x.ToChrono<std::chrono::microseconds>().count() == a, "chrono_us");
  PBT_T(x.ToChronoNanoseconds().count() == Sat(I(a) * 1000), "chrono_ns");
  PBT_T(x.ToChronoMilliseconds().count() == (inf ? a : a / 1000), "chrono_ms");
  PBT_T(x.ToChrono<std::chrono::milliseconds>() == x.ToChronoMilliseconds(), "chrono_ms");
  PBT_T(x.ToChrono<std::chrono::seconds>() == x.ToChronoSeconds() && x.ToChronoSeconds().count() == x.InSeconds(), "chrono_s");
  PBT_T(x.ToChronoMinutes().count() == x.InMinutes() && x.ToChronoHours().count() == x.InHours(), "chrono_min");
  int64_t n = Micros(c, r) >> r.Upto(63);
  PBT_T(TimeDelta::FromChronoHours(std::chrono::hours(n)) == tb::Hours(n), "from_chrono_h");
  PBT_T(TimeDelta::FromChronoMinutes(std::chrono::minutes(n)) == tb::Minutes(n), "from_chrono_min");
  PBT_T(TimeDelta::FromChronoSeconds(std::chrono::seconds(n)) == tb::Seconds(n), "from_chrono_s");
  PBT_T(TimeDelta::FromChronoMilliseconds(std::chrono::milliseconds(n)) == tb::Milliseconds(n), "from_chrono_ms");
  PBT_T(TimeDelta::FromChronoMicroseconds(std::chrono::microseconds(n)) == tb::Microseconds(n), "from_chrono_us");
  PBT_T(TimeDelta::FromChronoNanoseconds(std::chrono::nanoseconds(n)) == tb::Nanoseconds(n), "from_chrono_ns");
  PBT_T(TimeDelta::FromChrono(std::chrono::hours(n)) == tb::Hours(n), "from_chrono");
  PBT_T(TimeDelta::FromChrono(std::chrono::minutes(n)) == tb::Minutes(n), "from_chrono");
  if (a >= 0 && !inf) {
    timespec ts = x.ToTimeSpec();
    PBT_T(ts.tv_sec == a / 1000000 && ts.tv_nsec == a % 1000000 * 1000, "timespec");
    PBT_T(TimeDelta::FromTimeSpec(ts) == x, "timespec_back");
  }
}

// Durations of a standard clock keep their microseconds.
void FromChrono(Case& c) {
  Rng r = c.Bulk();
  int64_t n = Micros(c, r) >> r.Upto(63);
  c.Nontrivial(n != 0);
  c.Note("n=", n);
  PBT_T(TimeDelta::FromChrono(std::chrono::seconds(n)) == tb::Seconds(n), "seconds");
  PBT_T(TimeDelta::FromChrono(std::chrono::milliseconds(n)) == tb::Milliseconds(n), "milliseconds");
  PBT_T(TimeDelta::FromChrono(std::chrono::microseconds(n)) == tb::Microseconds(n), "microseconds");
  PBT_T(TimeDelta::FromChrono(std::chrono::nanoseconds(n)) == tb::Nanoseconds(n), "nanoseconds");
  int64_t m = n / 1000;
  PBT_T(U(Time::FromChrono(T(m).ToChrono())) == m, "clock");
  TimeTicks t = TimeTicks() + D(m);
  PBT_T(TimeTicks::FromChrono(t.ToChrono()) == t, "ticks");
}

void Points(Case& c) {
  Rng r = c.Bulk();
  int64_t a = Micros(c, r), b = Micros(c, r);
  Time t = T(a), s = T(b);
  c.Nontrivial(a != 0 && b != 0);
  c.Note("a=", a, " b=", b);
  PBT_T(U(t) == a && t.is_null() == (a == 0) && t.is_max() == (a == kTop) && t.is_min() == (a == kBottom), "value");
  PBT_T((t < s) == (a < b) && (t <= s) == (a <= b) && (t == s) == (a == b) && (t != s) == (a != b) && (t >= s) == (a >= b) && (t > s) == (a > b), "compare");
  PBT_T(U(t - s) == Sat(I(a) - b), "difference");
  PBT_T(U(t.since_origin()) == a, "since_origin");
  if (!Inf(a) || !Inf(b)) {
    int64_t sum = Inf(b) ? b : Sat(I(a) + b);
    int64_t dif = Inf(b) ? (b < 0 ? kTop : kBottom) : Sat(I(a) - b);
    PBT_T(U(t + D(b)) == sum && U(D(b) + t) == sum, "plus");
    PBT_T(U(t - D(b)) == dif, "minus");
    Time z = t; z += D(b); PBT_T(U(z) == sum, "plus_assign");
    z = t; z -= D(b); PBT_T(U(z) == dif, "minus_assign");
    TimeTicks k = TimeTicks() + D(a);
    if (!Inf(b)) PBT_T(U((k + D(b)) - TimeTicks()) == sum, "ticks");
  }
  // Seconds since the epoch.
  PBT_T(t.ToTimeT() == (Inf(a) ? a : static_cast<time_t>(FloorDiv(a, 1000000))), "time_t");
  int64_t sec = Micros(c, r) >> r.Upto(63);
  PBT_T(U(Time::FromTimeT(sec)) == (sec == kTop ? kTop : Sat(I(sec) * 1000000)), "from_time_t");
  PBT_T(t.ToDoubleT() == (Inf(a) ? (a < 0 ? -kInf : kInf) : static_cast<double>(a) / 1e6), "double_t");
  if (std::abs(static_cast<double>(a)) < 1e15) {
    int64_t back = U(Time::FromDoubleT(t.ToDoubleT()));
    PBT_T(std::abs(static_cast<double>(back - a)) <= 1, "double_t_back");
  }
  PBT_T(Time::FromDoubleT(std::nan("")).is_null() && Time::FromDoubleT(kInf).is_max() && Time::FromDoubleT(-kInf).is_min(), "from_double_t");
  if (a >= 0) {
    timeval tv = t.ToTimeVal();
    if (a != kTop) PBT_T(tv.tv_sec == a / 1000000 && tv.tv_usec == a % 1000000, "timeval");
    PBT_T(Time::FromTimeVal(tv) == t, "timeval_back");
    if (a < 4000000000000000) {
      timespec ts{static_cast<time_t>(a / 1000000), static_cast<long>(a % 1000000 * 1000)};
      int64_t got = U(Time::FromTimeSpec(ts));
      PBT_T(got - a <= 1 && a - got <= 1, "timespec");
    }
  }
  PBT_T(Time::FromAbsl(t.ToAbsl()) == t, "absl");
}

void DeltaFlag(Case& c) {
  Rng r = c.Bulk();
  static const char* const kSuffix[] = {"d", "h", "m", "s", "ms", "us", "ns"};
  size_t u = c.Draw(6);
  int64_t n = Micros(c, r) >> r.Upto(63);
  tb::TimeDelta got = D(12345);
  std::string reason;
  auto parse = [&](const std::string& s) { return tb::FlagValueTraits<TimeDelta>::ParseValue(s, &got, &reason); };
  std::string text = std::to_string(n) + kSuffix[u];
  c.Nontrivial(n != 0);
  c.Note(text);
  bool ok = parse(text);
  int64_t k[] = {86400000000, 3600000000, 60000000, 1000000, 1000, 1};
  if (u < 3 && (n < std::numeric_limits<int>::min() || n > std::numeric_limits<int>::max())) {
    PBT_T(!ok && U(got) == 12345, "too_large");
  } else {
    PBT_T(ok && U(got) == (u == 6 ? n / 1000 : Sat(I(n) * k[u])), "parsed");
  }
  got = D(12345);
  if (u >= 3) {
    int64_t m = n % 1000000;
    std::string f = std::to_string(m) + "." + std::to_string(r.Upto(9)) + "5" + kSuffix[u];
    double v = std::stod(f.substr(0, f.size() - (u == 3 ? 1 : 2)));
    PBT_T(parse(f) && U(got) == SatF(u == 6 ? v / 1000 : v * static_cast<double>(k[u])), "parsed_double");
  } else {
    PBT_T(!parse(std::to_string(n % 1000) + ".5" + kSuffix[u]) && U(got) == 12345, "fraction_refused");
  }
  got = D(12345);
  PBT_T(!parse(std::to_string(n)) && !parse(kSuffix[u]) && !parse("") && !parse(std::string("x") + text) && !parse(text + "x"), "refused");
  PBT_T(U(got) == 12345, "untouched");
}

void RegisterAll() {
  pbt::Register("time.arithmetic", 400, 40000, Arithmetic);
  pbt::Register("time.scale", 400, 40000, Scale);
  pbt::Register("time.scale_size", 200, 20000, ScaleUnsigned);
  pbt::Register("time.units", 400, 40000, Units);
  pbt::Register("time.conversions", 400, 40000, Conversions);
  pbt::Register("time.from_chrono", 200, 20000, FromChrono);
  pbt::Register("time.points", 400, 40000, Points);
  pbt::Register("time.flag", 200, 20000, DeltaFlag);
}
PBT_INIT(RegisterAll);

}  // namespace

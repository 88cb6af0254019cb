// Numbers from and to text.
#include <stdlib.h>
#include <string.h>

#include "tachyon/base/strings/string_number_conversions.h"

#include "verif/pbt/gen.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;

template <typename T>
mpz_class Big(T v) {
  mpz_class r;
  bool negative = v < 0;
  uint64_t u = negative ? -static_cast<uint64_t>(v) : static_cast<uint64_t>(v);
  mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &u);
  if (negative) r = -r;
  return r;
}

template <typename T>
bool Parse(std::string_view s, bool hex, T* v);
template <>
bool Parse(std::string_view s, bool hex, int* v) {
  return hex ? tb::HexStringToInt(s, v) : tb::StringToInt(s, v);
}
template <>
bool Parse(std::string_view s, bool hex, unsigned* v) {
  return hex ? tb::HexStringToUint(s, v) : tb::StringToUint(s, v);
}
template <>
bool Parse(std::string_view s, bool hex, int64_t* v) {
  return hex ? tb::HexStringToInt64(s, v) : tb::StringToInt64(s, v);
}
template <>
bool Parse(std::string_view s, bool hex, uint64_t* v) {
  return hex ? tb::HexStringToUint64(s, v) : tb::StringToUint64(s, v);
}

// A copy that ends where the memory it may read ends, with no zero after it.
struct Exact {
  explicit Exact(const std::string& s) : v(s.begin(), s.end()) { v.push_back('7'); }
  std::string_view view() const { return {v.data(), v.size() - 1}; }
  std::vector<char> v;
};

template <typename T>
T AnyNumber(Rng& r) {
  switch (r.Upto(4)) {
    case 0:
      return static_cast<T>(r.Upto(20)) - (std::is_signed_v<T> ? 10 : 0);
    case 1:
      return std::numeric_limits<T>::max() - static_cast<T>(r.Upto(3));
    case 2:
      return std::numeric_limits<T>::min() + static_cast<T>(r.Upto(3));
    default:
      return static_cast<T>(r.Next()) >> r.Upto(8 * sizeof(T) - 1);
  }
}

template <typename T>
void RoundTrip(Case& c) {
  Rng r = c.Bulk();
  T v = AnyNumber<T>(r);
  mpz_class big = Big(v);
  c.Note(big);
  c.Nontrivial();
  std::string text = tb::NumberToString(v);
  PBT_TM(text == big.get_str(), "decimal", text);
  T got = static_cast<T>(~v);
  PBT_T(Parse(text, false, &got), "parse");
  PBT_T(got == v, "value");
  std::string hex = tb::HexToString(v);
  mpz_class bits = big;
  if (bits < 0) bits += mpz_class(1) << (8 * sizeof(T));
  PBT_TM(hex == bits.get_str(16), "hexadecimal", hex);
  // Of a signed number the text is the value.
  mpz_class magnitude = abs(big);
  for (bool prefix : {false, true})
    for (bool upper : {false, true}) {
      std::string digits = magnitude.get_str(upper ? -16 : 16);
      std::string s = (big < 0 ? "-" : "") + std::string(prefix ? "0x" : "") + digits;
      got = static_cast<T>(~v);
      PBT_TM(Parse(s, true, &got) && got == v, "hexadecimal", s);
    }
}

// Text that is nearly a number.
template <typename T>
void Near(Case& c) {
  Rng r = c.Bulk();
  bool hex = c.Draw(1);
  std::string s;
  switch (c.Draw(3)) {
    case 0: {  // around the borders
      mpz_class v = r.Bool() ? Big(std::numeric_limits<T>::max()) : Big(std::numeric_limits<T>::min());
      if (r.Upto(3) == 0) v *= 2;
      if (r.Upto(6) == 0) v *= r.Next() >> 40;
      v += static_cast<long>(r.Upto(6)) - 3;
      s = v.get_str(hex ? 16 : 10);
      break;
    }
    case 1: {  // zeros before it
      mpz_class v = Big(AnyNumber<T>(r));
      s = mpz_class(abs(v)).get_str(hex ? 16 : 10);
      s = (v < 0 ? "-" : "") + std::string(r.Upto(30), '0') + s;
      break;
    }
    default: {
      s = Big(AnyNumber<T>(r)).get_str(hex ? 16 : 10);
      for (size_t n = 1 + r.Upto(1); n; --n) {
        static const std::string kChars("0123456789abcdefgxX+- \t\n\0.,'e_\xb2", 33);
        char ch = kChars[r.Upto(kChars.size() - 1)];
        size_t at = r.Upto(s.size());
        if (r.Bool() || at == s.size()) {
          s.insert(at, 1, ch);
        } else if (r.Bool()) {
          s[at] = ch;
        } else {
          s.erase(at, 1);
        }
      }
    }
  }
  c.Note(hex ? "hexadecimal " : "decimal ", s);
  // What must be read, and what may be.
  std::string_view t = s;
  auto blank = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
  bool plain = true;
  while (!t.empty() && blank(t.front())) t.remove_prefix(1), plain = false;
  while (!t.empty() && blank(t.back())) t.remove_suffix(1), plain = false;
  bool negative = false;
  if (!t.empty() && (t[0] == '-' || t[0] == '+')) {
    negative = t[0] == '-';
    plain = plain && negative && std::is_signed_v<T>;
    t.remove_prefix(1);
  }
  if (hex && t.size() >= 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) {
    plain = plain && t[1] == 'x' && t.size() > 2;
    t.remove_prefix(2);
    if (t.empty()) return;
  }
  bool well = !t.empty();
  for (char ch : t) well = well && (isdigit(ch & 0xff) || (hex && isxdigit(ch & 0xff)));
  bool fits = false;
  mpz_class v;
  if (well) {
    v.set_str(std::string(t), hex ? 16 : 10);
    if (negative) v = -v;
    fits = v >= Big(std::numeric_limits<T>::min()) && v <= Big(std::numeric_limits<T>::max());
  }
  c.Label(!well ? "not a numeral" : fits ? "in range" : "out of range");
  c.Nontrivial();
  Exact in(s);
  T got = 0;
  bool ok = Parse(in.view(), hex, &got);
  if (ok) {
    PBT_T(well, "accepted");
    PBT_T(fits, "range");
    PBT_T(Big(got) == v, "value");
  } else {
    PBT_T(!(well && fits && plain), "refused");
  }
}

template <typename T>
bool ParseF(std::string_view s, T* v) {
  if constexpr (sizeof(T) == 4) {
    return tb::StringToFloat(s, v);
  } else {
    return tb::StringToDouble(s, v);
  }
}
template <typename T>
T Strto(const std::string& s) {
  if constexpr (sizeof(T) == 4) {
    return strtof(s.c_str(), nullptr);
  } else {
    return strtod(s.c_str(), nullptr);
  }
}

template <typename T>
void Floats(Case& c) {
  Rng r = c.Bulk();
  std::string s;
  auto digits = [&](size_t n) {
    std::string d;
    for (size_t i = 0; i < n; ++i) d += '0' + r.Upto(9);
    return d;
  };
  if (c.Draw(1)) {
    T v;
    uint64_t bits = r.Next();
    memcpy(&v, &bits, sizeof(T));
    if (v != v || v - v != 0) v = static_cast<T>(r.Upto(1000)) / 8;
    char buf[400];
    static const char* kFormats[] = {"%.17g", "%.9g", "%.3e", "%.25e", "%a%.0s", "%g"};
    size_t f = r.Upto(5);
    if (f == 4) f = 0;
    snprintf(buf, sizeof(buf), kFormats[f], static_cast<double>(v));
    s = buf;
  } else {
    s = (r.Upto(2) ? "" : "-") + digits(1 + r.Upto(24));
    if (r.Bool()) s += "." + digits(1 + r.Upto(24));
    if (r.Bool()) s += (r.Bool() ? "e" : "E") + std::string(r.Upto(2) ? "" : "-") + digits(1 + r.Upto(2));
  }
  bool bad = c.Draw(3) == 0;
  if (bad) {
    static const char kBad[] = "xzgqw;,_%";
    s.insert(r.Upto(s.size()), 1, kBad[r.Upto(8)]);
    // A hexadecimal float is not judged.
    if (s.find("0x") != std::string::npos) return;
  }
  c.Note(s);
  c.LabelIf(bad, "not a numeral");
  c.Nontrivial();
  Exact in(s);
  T got = 0;
  bool ok = ParseF(in.view(), &got);
  PBT_T(ok == !bad, bad ? "accepted" : "refused");
  if (bad) return;
  T want = Strto<T>(s);
  PBT_TM(memcmp(&got, &want, sizeof(T)) == 0, "value", got << " for " << want);
}

void HexBytes(Case& c) {
  Rng r = c.Bulk();
  std::vector<uint8_t> bytes(r.Upto(3) ? r.Upto(8) : r.Upto(200));
  for (uint8_t& b : bytes) b = r.Next();
  bool lower = c.Draw(1);
  std::string want;
  for (uint8_t b : bytes) {
    char buf[3];
    snprintf(buf, 3, lower ? "%02x" : "%02X", b);
    want += buf;
  }
  PBT_T(tb::HexEncode(absl::MakeConstSpan(bytes), lower) == want, "encode");
  PBT_T(tb::HexEncode(bytes.data(), bytes.size(), lower) == want, "encode");
  std::string s = want;
  if (r.Bool())
    for (char& ch : s)
      if (r.Bool()) ch = r.Bool() ? toupper(ch) : tolower(ch);
  // How many bytes come before the first fault.
  size_t good = bytes.size();
  bool ok = !bytes.empty();
  if (c.Draw(2) == 0 && !s.empty()) {
    static const std::string kBad("gGxX -+/:@`[\0\xe1\xc1", 15);
    size_t at = r.Upto(s.size() - 1);
    s[at] = kBad[r.Upto(kBad.size() - 1)];
    good = at / 2;
    ok = false;
  } else if (c.Draw(4) == 0) {
    s += 'a';
    good = 0;
    ok = false;
  }
  c.Note(s);
  c.LabelIf(!ok, "malformed");
  c.Nontrivial(!bytes.empty());
  Exact in(s);
  std::vector<uint8_t> v;
  PBT_T(tb::HexStringToBytes(in.view(), &v) == ok, "bytes");
  PBT_T(v.size() <= bytes.size() && std::equal(v.begin(), v.end(), bytes.begin()), "bytes value");
  if (s.size() % 2 == 0) PBT_T(v.size() == good, "bytes before the fault");
  std::string str;
  PBT_T(tb::HexStringToString(in.view(), &str) == ok, "string");
  PBT_T(str == std::string(v.begin(), v.end()), "string value");
  size_t n = bytes.size();
  if (r.Upto(3) == 0) n = n + r.Upto(2);
  if (r.Upto(3) == 0 && n) --n;
  std::vector<uint8_t> room(n + 2, 0x5a);
  bool span = tb::HexStringToSpan(in.view(), absl::MakeSpan(room.data() + 1, n));
  PBT_T(span == (ok && n == bytes.size()), "span");
  PBT_T(room[0] == 0x5a && room[n + 1] == 0x5a, "span outside");
  if (span) PBT_T(std::equal(bytes.begin(), bytes.end(), room.begin() + 1), "span value");
  if (n != s.size() / 2)
    for (uint8_t b : room) PBT_T(b == 0x5a, "span written");
}

template <typename T>
void Add(const char* name) {
  std::string s(name);
  pbt::Register("numbers.round_trip." + s, 10000, 200000, RoundTrip<T>);
  pbt::Register("numbers.near." + s, 20000, 400000, Near<T>);
}
void RegisterAll() {
  Add<int>("int");
  Add<unsigned>("unsigned");
  Add<int64_t>("int64");
  Add<uint64_t>("uint64");
  pbt::Register("numbers.float", 20000, 400000, Floats<float>);
  pbt::Register("numbers.double", 20000, 400000, Floats<double>);
  pbt::Register("numbers.hex_bytes", 20000, 400000, HexBytes);
}
PBT_INIT(RegisterAll);

}  // namespace

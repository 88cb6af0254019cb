// Values to JSON and back, and documents that are not theirs.
#include "tachyon/base/json/json.h"

#include <cmath>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

#include "verif/pbt/gen.h"

namespace {

// rapidjson reads doubles that need more than fifteen digits to within a unit or two in the last
// place, see json.double_last_place.
template <typename T>
bool Close(T a, T b) {
  if constexpr (std::is_same_v<T, double>) {
    return a == b || std::fabs(a - b) <= std::fabs(b) * 1e-14 + 1e-320;
  } else if constexpr (std::is_same_v<T, float>) {
    return a == b || std::nextafter(a, b) == b;
  } else {
    return a == b;
  }
}

// Something with a member.
template <typename T>
struct Holder {
  T v;
  bool operator==(const Holder& o) const {
    if constexpr (std::is_same_v<T, double>) return Close(v, o.v);
    else return v == o.v;
  }
};

}  // namespace

namespace tachyon::base {

template <typename T>
class RapidJsonValueConverter<Holder<T>> {
 public:
  template <typename Allocator>
  static rapidjson::Value From(const Holder<T>& value, Allocator& allocator) {
    rapidjson::Value object(rapidjson::kObjectType);
    AddJsonElement(object, "v", value.v, allocator);
    return object;
  }
  static bool To(const rapidjson::Value& json_value, std::string_view key, Holder<T>* value,
                 std::string* error) {
    return ParseJsonElement(json_value, "v", &value->v, error);
  }
};

}  // namespace tachyon::base

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;
namespace tm = tachyon::math;

struct J {
  enum Kind { kNull, kBool, kNumber, kString, kArray, kObject } kind = kNull;
  std::string text;  // of a number, true or false; or the content of a string
  std::vector<J> items;
  std::vector<std::string> keys;
};

// A strict reader.
struct Reader {
  std::string_view s;
  size_t i = 0;
  void Blank() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i;
  }
  bool Eat(std::string_view t) {
    if (s.substr(i, t.size()) != t) return false;
    i += t.size();
    return true;
  }
  bool Digits() {
    size_t from = i;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
    return i > from;
  }
  static void Utf8(uint32_t u, std::string* out) {
    if (u < 0x80) {
      *out += static_cast<char>(u);
    } else if (u < 0x800) {
      *out += static_cast<char>(0xc0 | u >> 6);
      *out += static_cast<char>(0x80 | (u & 63));
    } else if (u < 0x10000) {
      *out += static_cast<char>(0xe0 | u >> 12);
      *out += static_cast<char>(0x80 | (u >> 6 & 63));
      *out += static_cast<char>(0x80 | (u & 63));
    } else {
      *out += static_cast<char>(0xf0 | u >> 18);
      *out += static_cast<char>(0x80 | (u >> 12 & 63));
      *out += static_cast<char>(0x80 | (u >> 6 & 63));
      *out += static_cast<char>(0x80 | (u & 63));
    }
  }
  bool Hex4(uint32_t* u) {
    *u = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      if (i >= s.size() || !isxdigit(s[i] & 0xff)) return false;
      *u = *u * 16 + (isdigit(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
    }
    return true;
  }
  bool String(std::string* out) {
    if (!Eat("\"")) return false;
    while (i < s.size()) {
      unsigned char ch = s[i++];
      if (ch == '"') return true;
      if (ch < 0x20) return false;
      if (ch != '\\') {
        *out += static_cast<char>(ch);
        continue;
      }
      if (i >= s.size()) return false;
      ch = s[i++];
      static const char kFrom[] = "\"\\/bfnrt", kTo[] = "\"\\/\b\f\n\r\t";
      if (const char* at = ch ? strchr(kFrom, ch) : nullptr) {
        *out += kTo[at - kFrom];
      } else if (ch == 'u') {
        uint32_t u, lo;
        if (!Hex4(&u)) return false;
        if (u >= 0xdc00 && u < 0xe000) return false;
        if (u >= 0xd800 && u < 0xdc00) {
          if (!Eat("\\u") || !Hex4(&lo) || lo < 0xdc00 || lo >= 0xe000) return false;
          u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
        }
        Utf8(u, out);
      } else {
        return false;
      }
    }
    return false;
  }
  bool Value(J* j) {
    Blank();
    if (i >= s.size()) return false;
    size_t from = i;
    switch (s[i]) {
      case 'n': return Eat("null");
      case 't': j->kind = J::kBool; j->text = "true"; return Eat("true");
      case 'f': j->kind = J::kBool; j->text = "false"; return Eat("false");
      case '"': j->kind = J::kString; return String(&j->text);
      case '[':
      case '{': {
        bool object = s[i++] == '{';
        j->kind = object ? J::kObject : J::kArray;
        Blank();
        if (Eat(object ? "}" : "]")) return true;
        for (;;) {
          if (object) {
            Blank();
            j->keys.emplace_back();
            if (!String(&j->keys.back())) return false;
            Blank();
            if (!Eat(":")) return false;
          }
          j->items.emplace_back();
          if (!Value(&j->items.back())) return false;
          Blank();
          if (Eat(object ? "}" : "]")) return true;
          if (!Eat(",")) return false;
        }
      }
      default:
        j->kind = J::kNumber;
        Eat("-");
        if (!Eat("0") && !Digits()) return false;
        if (Eat(".") && !Digits()) return false;
        if (Eat("e") || Eat("E")) {
          if (!Eat("+")) Eat("-");
          if (!Digits()) return false;
        }
        j->text = std::string(s.substr(from, i - from));
        return true;
    }
  }
  bool Document(J* j) {
    if (!Value(j)) return false;
    Blank();
    return i == s.size();
  }
};

// Writes it in one of the many ways.
struct Render {
  Rng& r;
  bool plain;
  std::string out;
  void Blank() {
    if (plain) return;
    while (r.Upto(3) == 0) out += " \t\n\r"[r.Upto(3)];
  }
  void String(const std::string& s) {
    out += '"';
    for (unsigned char ch : s) {
      char buf[8];
      if (ch < 0x20 || (ch < 0x80 && !plain && r.Upto(5) == 0)) {
        snprintf(buf, sizeof(buf), r.Bool() ? "\\u%04x" : "\\u%04X", ch);
        const char* at = strchr("\b\f\n\r\t", ch);
        if (ch && at) {
          static const char kAll[] = "\b\f\n\r\t";
          if (r.Bool()) snprintf(buf, sizeof(buf), "\\%c", "bfnrt"[strchr(kAll, ch) - kAll]);
          else snprintf(buf, sizeof(buf), "\\u%04x", ch);
        }
        out += buf;
      } else {
        if (ch == '"' || ch == '\\' || (ch == '/' && r.Bool())) out += '\\';
        out += static_cast<char>(ch);
      }
    }
    out += '"';
  }
  void Value(const J& j) {
    Blank();
    switch (j.kind) {
      case J::kNull: out += "null"; break;
      case J::kString: String(j.text); break;
      case J::kArray:
      case J::kObject: {
        out += j.kind == J::kArray ? '[' : '{';
        std::vector<size_t> order(j.items.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        // Members have no order.
        if (j.kind == J::kObject && !plain)
          for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.Upto(i - 1)]);
        Blank();
        for (size_t k = 0; k < order.size(); ++k) {
          if (k) out += ',';
          Blank();
          if (j.kind == J::kObject) {
            String(j.keys[order[k]]);
            Blank();
            out += ':';
          }
          Value(j.items[order[k]]);
        }
        out += j.kind == J::kArray ? ']' : '}';
        break;
      }
      default: out += j.text;
    }
    Blank();
  }
};

void Nodes(J* j, std::vector<J*>* out) {
  out->push_back(j);
  for (J& i : j->items) Nodes(&i, out);
}

template <typename F>
F AnyField(Rng& r) {
  if constexpr (tm::FiniteFieldTraits<F>::kIsExtensionField) {
    using B = typename F::BasePrimeField;
    std::vector<B> v(F::ExtensionDegree());
    for (B& b : v) b = AnyField<B>(r);
    return F::FromBasePrimeFields(absl::MakeConstSpan(v));
  } else {
    return pbt::BulkPrimeField<F>(r);
  }
}
template <typename T>
T AnyInt(Rng& r) {
  switch (r.Upto(3)) {
    case 0: return std::numeric_limits<T>::max() - static_cast<T>(r.Upto(1));
    case 1: return std::numeric_limits<T>::min() + static_cast<T>(r.Upto(1));
    default: return static_cast<T>(static_cast<T>(r.Next()) >> r.Upto(8 * sizeof(T) - 1));
  }
}
template <typename T>
T AnyFloat(Rng& r) {
  T v;
  for (;;) {
    uint64_t bits = r.Next();
    memcpy(&v, &bits, sizeof(T));
    if (r.Bool()) v = static_cast<T>(static_cast<int64_t>(r.Next()) >> r.Upto(63)) / 1000;
    if (v - v == 0) return v;
  }
}
std::string AnyText(Rng& r) {
  std::string s;
  size_t n = r.Upto(3) ? r.Upto(8) : r.Upto(60);
  for (size_t i = 0; i < n; ++i) {
    switch (r.Upto(5)) {
      case 0: s += static_cast<char>(r.Upto(0x1f)); break;
      case 1: s += "\"\\/\x7f"[r.Upto(3)]; break;
      case 2: {
        uint32_t u;
        do u = r.Upto(r.Bool() ? 0xffff : 0x10ffff);
        while (u >= 0xd800 && u < 0xe000);
        Reader::Utf8(u, &s);
        break;
      }
      default: s += static_cast<char>(0x20 + r.Upto(0x5e));
    }
  }
  return s;
}
template <typename Gen>
auto VectorOf(Gen gen) {
  return [=](Rng& r) {
    std::vector<decltype(gen(r))> v(r.Upto(5));
    for (auto& x : v) x = gen(r);
    return v;
  };
}

enum class Tiny : uint8_t { kA };
enum class Wide : int64_t { kA };

template <typename T, typename Gen>
void Type(const std::string& name, Gen gen, bool null_is_a_value = false) {
  auto round_trip = [gen](Case& c) {
    Rng r = c.Bulk();
    T v = gen(r);
    std::string text = tb::WriteToJson(v);
    c.Note(text);
    c.Nontrivial();
    J j;
    PBT_TM(Reader{text}.Document(&j), "written", text);
    T got = gen(r);
    std::string error;
    PBT_TM(tb::ParseJson(text, &got, &error), "read", text << ": " << error);
    PBT_TM(got == v, "value", text);
    for (int i = 0; i < 3; ++i) {
      T other = gen(r);
      Render out{r, false};
      out.Value(j);
      PBT_TM(tb::ParseJson(out.out, &other, &error), "read", out.out << ": " << error);
      PBT_TM(other == v, "value", out.out);
    }
  };
  pbt::Register("json.round_trip." + name, 1000, 20000, round_trip);
  // A value of another kind or without a member.
  auto kind = [gen, null_is_a_value](Case& c) {
    Rng r = c.Bulk();
    T v = gen(r);
    J j;
    std::string before = tb::WriteToJson(v);
    PBT_T(Reader{before}.Document(&j), "written");
    std::vector<J*> nodes;
    Nodes(&j, &nodes);
    J* at = nodes[c.Draw(nodes.size() - 1)];
    if (at->kind == J::kObject && c.Draw(1)) {
      size_t i = r.Upto(at->items.size() - 1);
      if (r.Bool()) {
        at->keys[i] += r.Bool() ? "_" : std::string(1, '\0');
      } else {
        at->keys.erase(at->keys.begin() + i);
        at->items.erase(at->items.begin() + i);
      }
      c.Label("a member gone");
    } else {
      J::Kind was = at->kind;
      J::Kind to;
      do {
        to = static_cast<J::Kind>(r.Upto(5));
      } while (to == was || (to == J::kNull && null_is_a_value));
      if (was == J::kNull && null_is_a_value) to = J::kObject;
      J old = *at;
      *at = J();
      at->kind = to;
      if (to == J::kBool) at->text = r.Bool() ? "true" : "false";
      if (to == J::kNumber) at->text = r.Bool() ? "1" : "1.5";
      if (to == J::kString) at->text = r.Bool() ? "1" : "x y";
      if (to == J::kArray || to == J::kObject) {
        size_t n = r.Upto(3);
        for (size_t i = 0; i < n; ++i) {
          at->items.push_back(r.Bool() ? old : J());
          if (to == J::kObject) at->keys.push_back(r.Bool() ? std::string(1, "vxyzc"[r.Upto(4)]) + std::to_string(i) : "v");
        }
      }
      c.Label("another kind");
    }
    Render out{r, true};
    out.Value(j);
    c.Note(out.out, " for ", before);
    c.Nontrivial();
    T got = gen(r);
    std::string error;
    PBT_TM(!tb::ParseJson(out.out, &got, &error), "accepted", out.out);
    PBT_T(!error.empty(), "error");
  };
  pbt::Register("json.kind." + name, 1000, 20000, kind);
  // A text that is not JSON.
  auto malformed = [gen](Case& c) {
    Rng r = c.Bulk();
    T v = gen(r);
    std::string text = tb::WriteToJson(v);
    for (size_t n = 1 + r.Upto(1); n; --n) {
      static const char kChars[] = "{}[]:,\"\\0123456789.-+eE tnx/'\x01\x80";
      size_t at = r.Upto(text.size());
      char ch = kChars[r.Upto(sizeof(kChars) - 2)];
      if (at == text.size()) {
        text += ch;
      } else {
        switch (r.Upto(3)) {
          case 0: text.insert(at, 1, ch); break;
          case 1: text[at] = ch; break;
          case 2: text.erase(at, 1); break;
          default: text.resize(at);
        }
      }
      if (text.empty()) text = " ";
    }
    J j;
    bool well = Reader{text}.Document(&j);
    c.Note(text);
    c.LabelIf(!well, "not JSON");
    c.Nontrivial(!well);
    // Nothing ends the text where it ends.
    std::vector<char> exact(text.begin(), text.end());
    exact.push_back('}');
    T got = gen(r);
    std::string error;
    bool ok = tb::ParseJson(std::string_view(exact.data(), text.size()), &got, &error);
    if (!well) {
      PBT_T(!ok, "accepted");
      PBT_T(!error.empty(), "error");
    }
    if (ok) {
      T again = gen(r);
      PBT_T(tb::ParseJson(tb::WriteToJson(got), &again, &error), "read");
      PBT_T(again == got, "value");
    }
  };
  pbt::Register("json.malformed." + name, 1000, 20000, malformed);
}

// Numbers of any size into any type.
template <typename T>
void Range(Case& c) {
  Rng r = c.Bulk();
  constexpr bool kFloat = std::is_floating_point_v<T>;
  std::string text;
  bool fits = false;
  T want = 0;
  if constexpr (kFloat) {
    char buf[64];
    snprintf(buf, sizeof(buf), "%.*e", static_cast<int>(r.Upto(20)), static_cast<double>(AnyFloat<T>(r)));
    text = buf;
    if (c.Draw(2) == 0) {
      size_t e = text.find('e');
      text = text.substr(0, e) + "e" + std::to_string(static_cast<int>(r.Upto(700)) - 350);
    }
    if (text.find('.') == std::string::npos) text.insert(text.find('e'), ".0");
    double d = strtod(text.c_str(), nullptr);
    // rapidjson 1.1 itself lets some numbers past the largest double in.
    if (d - d != 0 || d == 0) return;
    fits = fabs(d) <= std::numeric_limits<T>::max();
    if (fits) want = static_cast<T>(d);
    if (sizeof(T) == 4 && fabs(d) > 3.4e38 && fabs(d) < 3.41e38) return;
  } else {
    auto big = [](auto v) {
      mpz_class m;
      bool negative = v < 0;
      uint64_t u = negative ? -static_cast<uint64_t>(v) : static_cast<uint64_t>(v);
      mpz_import(m.get_mpz_t(), 1, -1, 8, 0, 0, &u);
      return negative ? mpz_class(-m) : m;
    };
    mpz_class v;
    switch (c.Draw(4)) {
      case 0: v = big(AnyInt<uint64_t>(r)); break;
      case 1: v = big(AnyInt<int64_t>(r)); break;
      case 2: v = big(AnyInt<int32_t>(r)); break;
      case 3: v = big(AnyInt<uint32_t>(r)); break;
      default: v = big(AnyInt<T>(r));
    }
    v += static_cast<long>(r.Upto(4)) - 2;
    text = v.get_str();
    fits = v >= big(std::numeric_limits<T>::min()) && v <= big(std::numeric_limits<T>::max());
    if (fits) {
      mpz_class m = v;
      if (m < 0) m += mpz_class(1) << 64;
      uint64_t u = 0;
      mpz_export(&u, nullptr, -1, 8, 0, 0, m.get_mpz_t());
      want = static_cast<T>(u);
    }
    if (c.Draw(7) == 0) {
      text += ".5";
      fits = false;
    }
  }
  c.Note(text);
  c.LabelIf(fits, "in range");
  c.Nontrivial();
  Holder<T> got{static_cast<T>(7)};
  std::string error;
  bool ok = tb::ParseJson("{\"v\": " + text + "}", &got, &error);
  PBT_TM(ok == fits, fits ? "refused" : "accepted", error);
  if (ok) PBT_TM(Close(got.v, want), "value", +got.v);
  else PBT_T(!error.empty(), "error");
}

// Doubles of few digits are read exactly.
void Exact(Case& c) {
  Rng r = c.Bulk();
  double v = static_cast<double>(static_cast<int64_t>(r.Next()) >> (12 + r.Upto(50)));
  for (size_t n = c.Draw(6); n; --n) v /= 10;
  char buf[64];
  snprintf(buf, sizeof(buf), "%.14e", v);
  std::string digits = buf, text = "{\"v\":" + digits + "}";
  v = strtod(buf, nullptr);
  c.Note(text);
  c.Nontrivial();
  Holder<double> got{1};
  std::string error;
  PBT_TM(tb::ParseJson(text, &got, &error), "read", error);
  PBT_TM(memcmp(&got.v, &v, sizeof(v)) == 0, "value", got.v);
}

// Known: the last place of a double is not kept.
void LastPlace(Case& c) {
  double v = 3.28e-223;
  std::string text = tb::WriteToJson(Holder<double>{v});
  c.Note(text);
  c.Nontrivial();
  Holder<double> got{1};
  std::string error;
  PBT_T(tb::ParseJson(text, &got, &error), "read");
  PBT_T(got.v == v, "last place");
}

// Field elements are reduced.
template <typename F>
void Element(Case& c) {
  Rng r = c.Bulk();
  constexpr bool kSmall = F::Config::kModulusBits <= 32;
  mpz_class p = pbt::Modulus<F>(), v;
  mpz_class top = kSmall ? mpz_class("ffffffff", 16)
                         : (mpz_class(1) << (64 * ((F::Config::kModulusBits + 63) / 64))) - 1;
  switch (c.Draw(2)) {
    case 0: v = pbt::FieldToMpz(AnyField<F>(r)); break;
    case 1: v = p + static_cast<long>(r.Upto(4)) - 2; break;
    default: v = top - static_cast<unsigned long>(r.Next() >> r.Upto(63));
  }
  if (v < 0 || v > top) return;
  c.Nontrivial();
  c.LabelIf(v < p, "reduced");
  std::string text = kSmall ? v.get_str() : "\"0x" + v.get_str(16) + "\"";
  c.Note(text);
  Holder<F> got{F::One()};
  std::string error;
  bool ok = tb::ParseJson("{\"v\":" + text + "}", &got, &error);
  PBT_T(ok == (v < p), "accepted");
  if (ok) {
    PBT_T(pbt::FieldToMpz(got.v) == v, "value");
    PBT_TM(tb::WriteToJson(got) == "{\"v\":" + text + "}", "written", tb::WriteToJson(got));
  } else {
    PBT_T(!error.empty(), "error");
  }
}

template <typename F>
void Polynomials(const std::string& name) {
  constexpr size_t kMax = 15;
  using Dense = tm::UnivariateDensePolynomial<F, kMax>;
  using Sparse = tm::UnivariateSparsePolynomial<F, kMax>;
  using Evals = tm::UnivariateEvaluations<F, kMax>;
  auto nonzero = [](Rng& r) {
    F f = AnyField<F>(r);
    return f.IsZero() ? F::One() : f;
  };
  Type<Dense>("dense_" + name, [=](Rng& r) {
    std::vector<F> v(r.Upto(6));
    for (F& f : v) f = AnyField<F>(r);
    if (!v.empty()) v.back() = nonzero(r);
    return Dense(tm::UnivariateDenseCoefficients<F, kMax>(v));
  });
  Type<Sparse>("sparse_" + name, [=](Rng& r) {
    std::vector<tm::UnivariateTerm<F>> v;
    for (size_t d = 0; d <= kMax; ++d)
      if (r.Upto(3) == 0) v.push_back({d, nonzero(r)});
    return Sparse(tm::UnivariateSparseCoefficients<F, kMax>(v));
  });
  Type<Evals>("evals_" + name, [=](Rng& r) {
    std::vector<F> v(1 + r.Upto(6));
    for (F& f : v) f = AnyField<F>(r);
    return Evals(v);
  });
}

template <typename T>
void Int(const std::string& name) {
  Type<Holder<T>>(name, [](Rng& r) { return Holder<T>{AnyInt<T>(r)}; });
  pbt::Register("json.range." + name, 5000, 100000, Range<T>);
}

void RegisterAll() {
  using BN = tm::bn254::BN254Curve;
  BN::Init();
  tm::bls12_381::BLS12_381Curve::Init();
  tm::BabyBear4::Init();
  tm::Goldilocks::Init();
  tm::Mersenne31::Init();
  Int<int8_t>("int8");
  Int<uint8_t>("uint8");
  Int<int16_t>("int16");
  Int<uint16_t>("uint16");
  Int<int>("int");
  Int<unsigned>("unsigned");
  Int<int64_t>("int64");
  Int<uint64_t>("uint64");
  Int<long long>("long_long");
  pbt::Register("json.range.float", 10000, 200000, Range<float>);
  pbt::Register("json.exact.double", 10000, 200000, Exact);
  pbt::Register("json.double_last_place", 1, 1, LastPlace);
  pbt::Register("json.range.double", 10000, 200000, Range<double>);
  Type<Holder<bool>>("bool", [](Rng& r) { return Holder<bool>{r.Bool()}; });
  Type<Holder<float>>("float", [](Rng& r) { return Holder<float>{AnyFloat<float>(r)}; });
  Type<Holder<double>>("double", [](Rng& r) { return Holder<double>{AnyFloat<double>(r)}; });
  Type<Holder<std::string>>("string", [](Rng& r) { return Holder<std::string>{AnyText(r)}; });
  Type<Holder<Tiny>>("enum8", [](Rng& r) {
    return Holder<Tiny>{static_cast<Tiny>(AnyInt<uint8_t>(r))};
  });
  Type<Holder<Wide>>("enum64", [](Rng& r) {
    return Holder<Wide>{static_cast<Wide>(AnyInt<int64_t>(r))};
  });
  Type<Holder<std::vector<std::string>>>("strings", [](Rng& r) {
    return Holder<std::vector<std::string>>{VectorOf(AnyText)(r)};
  });
  Type<Holder<std::array<std::vector<uint16_t>, 3>>>("array", [](Rng& r) {
    Holder<std::array<std::vector<uint16_t>, 3>> h;
    for (auto& v : h.v) v = VectorOf(AnyInt<uint16_t>)(r);
    return h;
  });
  Type<Holder<std::optional<int>>>(
      "optional",
      [](Rng& r) {
        Holder<std::optional<int>> h;
        if (r.Upto(3)) h.v = AnyInt<int>(r);
        return h;
      },
      true);
  Type<Holder<std::vector<Holder<std::vector<int64_t>>>>>("nested", [](Rng& r) {
    Holder<std::vector<Holder<std::vector<int64_t>>>> h;
    h.v.resize(r.Upto(3));
    for (auto& x : h.v) x.v = VectorOf(AnyInt<int64_t>)(r);
    return h;
  });
  Type<Holder<tm::bn254::Fr>>("bn254_fr", [](Rng& r) {
    return Holder<tm::bn254::Fr>{AnyField<tm::bn254::Fr>(r)};
  });
  Type<tm::bn254::Fq2>("bn254_fq2", AnyField<tm::bn254::Fq2>);
  Type<tm::bn254::Fq6>("bn254_fq6", AnyField<tm::bn254::Fq6>);
  Type<tm::bn254::Fq12>("bn254_fq12", AnyField<tm::bn254::Fq12>);
  Type<tm::BabyBear4>("baby_bear4", AnyField<tm::BabyBear4>);
  pbt::Register("json.element.bn254_fr", 3000, 60000, Element<tm::bn254::Fr>);
  pbt::Register("json.element.bls12_381_fq", 3000, 60000, Element<tm::bls12_381::Fq>);
  pbt::Register("json.element.goldilocks", 3000, 60000, Element<tm::Goldilocks>);
  pbt::Register("json.element.baby_bear", 3000, 60000, Element<tm::BabyBear>);
  pbt::Register("json.element.mersenne31", 3000, 60000, Element<tm::Mersenne31>);
  using A1 = tm::bn254::G1AffinePoint;
  auto p1 = [](Rng& r) {
    static const std::vector<A1> table = [] {
      std::vector<A1> v = {A1::Zero()};
      auto p = A1::Generator().ToJacobian();
      for (int i = 0; i < 40; ++i) {
        v.push_back(p.ToAffine());
        p = p + p + A1::Generator();
      }
      return v;
    }();
    return table[r.Upto(table.size() - 1)];
  };
  Type<A1>("g1_affine", p1);
  Type<tm::bn254::G1JacobianPoint>("g1_jacobian", [=](Rng& r) { return p1(r).ToJacobian() + p1(r); });
  Type<tm::bn254::G1ProjectivePoint>("g1_projective",
                                     [=](Rng& r) { return p1(r).ToProjective() + p1(r); });
  Type<tm::bn254::G1PointXYZZ>("g1_xyzz", [=](Rng& r) { return p1(r).ToXYZZ() + p1(r); });
  Type<tm::bn254::G2AffinePoint>("g2_affine", [](Rng& r) {
    static const auto g = tm::bn254::G2AffinePoint::Generator();
    return r.Bool() ? g : -g;
  });
  Type<tm::Point2<tm::Goldilocks>>("point2", [](Rng& r) {
    return tm::Point2<tm::Goldilocks>(AnyField<tm::Goldilocks>(r), AnyField<tm::Goldilocks>(r));
  });
  Type<tm::Point3<tm::BabyBear>>("point3", [](Rng& r) {
    auto f = AnyField<tm::BabyBear>;
    return tm::Point3<tm::BabyBear>(f(r), f(r), f(r));
  });
  Polynomials<tm::bn254::Fr>("bn254_fr");
  Polynomials<tm::BabyBear>("baby_bear");
}
PBT_INIT(RegisterAll);

}  // namespace

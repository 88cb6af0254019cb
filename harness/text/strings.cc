// String helpers.
#include "tachyon/base/strings/rust_stringifier.h"
#include "tachyon/base/strings/string_util.h"

#include "tachyon/math/base/big_int.h"

#include "verif/pbt/gen.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;

// Few letters, so that strings share parts.
template <typename S>
S Few(Rng& r, size_t max) {
  S s;
  size_t n = r.Upto(max);
  using Ch = typename S::value_type;
  for (size_t i = 0; i < n; ++i) {
    static const int kChars[] = {'a', 'A', 'b', 'B', 'z', 'Z', '@', '[', '`', '{', 0, 0xe1, 0xc1, '0', 'x'};
    s.push_back(r.Upto(3) ? static_cast<Ch>(kChars[r.Upto(14)]) : static_cast<Ch>(r.Next()));
  }
  return s;
}
template <typename S>
S Lower(S s) {
  for (auto& ch : s)
    if (ch >= 'A' && ch <= 'Z') ch += 32;
  return s;
}
template <typename S>
S Upper(S s) {
  for (auto& ch : s)
    if (ch >= 'a' && ch <= 'z') ch -= 32;
  return s;
}

template <typename S>
void Letters(Case& c) {
  Rng r = c.Bulk();
  S s = Few<S>(r, 12);
  c.Nontrivial(!s.empty());
  c.Note(s.size(), " characters");
  PBT_T(tb::ToLowerASCII(s) == Lower(s), "lower");
  PBT_T(tb::ToUpperASCII(s) == Upper(s), "upper");
  S cap = s;
  if (!s.empty()) cap[0] = Upper(s)[0];
  PBT_T(tb::CapitalizeASCII(s) == cap, "capitalize");
  for (auto ch : s) {
    PBT_T(tb::ToLowerASCII(ch) == Lower(S(1, ch))[0], "lower");
    PBT_T(tb::ToUpperASCII(ch) == Upper(S(1, ch))[0], "upper");
  }
}

void Ends(Case& c) {
  Rng r = c.Bulk();
  std::string s = Few<std::string>(r, 8), t;
  switch (c.Draw(3)) {
    case 0: t = Few<std::string>(r, 3); break;
    case 1: t = s.substr(0, r.Upto(s.size())); break;
    case 2: t = s.substr(s.size() - r.Upto(s.size())); break;
    default: t = s + Few<std::string>(r, 1);
  }
  if (r.Bool())
    for (char& ch : t)
      if (r.Bool()) ch = r.Bool() ? Upper(std::string(1, ch))[0] : Lower(std::string(1, ch))[0];
  c.Note('"', s, "\" and \"", t, '"');
  c.Nontrivial(!s.empty() && !t.empty());
  for (bool sensitive : {true, false}) {
    tb::CompareCase how =
        sensitive ? tb::CompareCase::SENSITIVE : tb::CompareCase::INSENSITIVE_ASCII;
    std::string a = sensitive ? s : Lower(s), b = sensitive ? t : Lower(t);
    bool starts = b.size() <= a.size() && a.compare(0, b.size(), b) == 0;
    bool ends = b.size() <= a.size() && a.compare(a.size() - b.size(), b.size(), b) == 0;
    c.LabelIf(starts || ends, "an end");
    PBT_T(tb::StartsWith(s, t, how) == starts, "starts");
    PBT_T(tb::EndsWith(s, t, how) == ends, "ends");
    std::string_view v = s;
    PBT_T(tb::ConsumePrefix(&v, t, how) == starts, "prefix");
    PBT_T(v == (starts ? s.substr(t.size()) : s), "prefix left");
    v = s;
    PBT_T(tb::ConsumeSuffix(&v, t, how) == ends, "suffix");
    PBT_T(v == (ends ? s.substr(0, s.size() - t.size()) : s), "suffix left");
  }
  int order = Lower(s).compare(Lower(t));
  PBT_T(tb::CompareCaseInsensitiveASCII(s, t) == (order > 0) - (order < 0), "order");
  PBT_T(tb::EqualsCaseInsensitiveASCII(s, t) == (order == 0), "equals");
}

void Prefix0x(Case& c) {
  Rng r = c.Bulk();
  std::string digits;
  size_t n = c.Draw(20);
  for (size_t i = 0; i < n; ++i) digits += "0123456789abcdef"[r.Upto(15)];
  bool prefix = c.Draw(1);
  std::string s = (prefix ? "0x" : "") + digits;
  if (digits.rfind("0x", 0) == 0) return;
  c.Note(s);
  c.Nontrivial(n > 0);
  std::string_view v = s;
  PBT_T(tb::ConsumePrefix0x(&v) == prefix && v == digits, "consume");
  PBT_T(tb::MaybePrepend0x(s) == "0x" + digits, "prepend");
  PBT_T(tb::MaybePrepend0x(std::string_view(s)) == "0x" + digits, "prepend");
  PBT_T(tb::MaybePrepend0x(std::string(s)) == "0x" + digits, "prepend");
  size_t pad = r.Upto(3) ? r.Upto(20) : 0;
  std::string want = (prefix ? "0x" : "") + std::string(pad, '0') + digits;
  std::string got = tb::ToHexStringWithLeadingZero(s, n + pad);
  PBT_TM(got == want, "zeros", got << " for " << want);
}

std::string Join(const std::vector<std::string>& v, const char* open, const char* close) {
  std::string s = open;
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + v[i];
  return s + close;
}
template <typename T, typename F>
auto Nested(Rng& r, F leaf) {
  std::pair<std::vector<T>, std::string> out;
  std::vector<std::string> texts;
  size_t n = r.Upto(3);
  for (size_t i = 0; i < n; ++i) {
    auto [v, s] = leaf(r);
    out.first.push_back(v);
    texts.push_back(s);
  }
  out.second = Join(texts, "[", "]");
  return out;
}

void Containers(Case& c) {
  Rng r = c.Bulk();
  c.Nontrivial();
  using B = tachyon::math::BigInt<2>;
  bool pad = r.Bool();
  auto number = [](Rng& r) {
    int64_t v = static_cast<int64_t>(r.Next()) >> r.Upto(63);
    return std::make_pair(v, std::to_string(v));
  };
  auto hex = [pad](Rng& r) {
    B b;
    b.limbs[0] = r.Next() >> r.Upto(63);
    b.limbs[1] = r.Bool() ? 0 : r.Next() >> r.Upto(63);
    std::string s = pbt::ToMpz(b).get_str(16);
    return std::make_pair(b, "0x" + (pad && s.size() < 32 ? std::string(32 - s.size(), '0') : "") + s);
  };
  using V1 = std::vector<int64_t>;
  using V2 = std::vector<V1>;
  using V3 = std::vector<V2>;
  auto n1 = [=](Rng& r) { return Nested<int64_t>(r, number); };
  auto n2 = [=](Rng& r) { return Nested<V1>(r, n1); };
  auto n3 = [=](Rng& r) { return Nested<V2>(r, n2); };
  auto [v1, s1] = n1(r);
  PBT_T(tb::ContainerToString(v1) == s1, "1");
  auto [v2, s2] = n2(r);
  PBT_TM(tb::Container2DToString(v2) == s2, "2", s2);
  auto [v3, s3] = n3(r);
  PBT_TM(tb::Container3DToString(v3) == s3, "3", s3);
  auto [v4, s4] = Nested<V3>(r, n3);
  c.Note(s4);
  PBT_TM(tb::Container4DToString(v4) == s4, "4", s4);
  using H1 = std::vector<B>;
  using H2 = std::vector<H1>;
  using H3 = std::vector<H2>;
  auto h1 = [=](Rng& r) { return Nested<B>(r, hex); };
  auto h2 = [=](Rng& r) { return Nested<H1>(r, h1); };
  auto h3 = [=](Rng& r) { return Nested<H2>(r, h2); };
  auto [x1, t1] = h1(r);
  PBT_TM(tb::ContainerToHexString(x1, pad) == t1, "hexadecimal 1", t1);
  auto [x2, t2] = h2(r);
  PBT_TM(tb::Container2DToHexString(x2, pad) == t2, "hexadecimal 2", t2);
  auto [x3, t3] = h3(r);
  PBT_TM(tb::Container3DToHexString(x3, pad) == t3, "hexadecimal 3", t3);
  auto [x4, t4] = Nested<H3>(r, h3);
  PBT_TM(tb::Container4DToHexString(x4, pad) == t4, "hexadecimal 4", t4);
  std::optional<int64_t> o;
  if (r.Bool()) o = number(r).first;
  PBT_T(tb::OptionalToString(o) == (o ? "Some(" + std::to_string(*o) + ")" : "None"), "optional");
}

// What the derived Debug of Rust prints.
void Rust(Case& c) {
  Rng r = c.Bulk();
  c.Nontrivial();
  auto number = [](Rng& r) {
    int64_t v = static_cast<int64_t>(r.Next()) >> r.Upto(63);
    return std::make_pair(v, std::to_string(v));
  };
  auto text = [](Rng& r) {
    std::string s;
    size_t n = r.Upto(6);
    for (size_t i = 0; i < n; ++i) s += static_cast<char>('a' + r.Upto(25));
    return std::make_pair(s, '"' + s + '"');
  };
  auto maybe = [=](Rng& r) {
    std::optional<int64_t> o;
    auto [v, s] = number(r);
    if (r.Bool()) o = v;
    return std::make_pair(o, o ? "Some(" + s + ")" : std::string("None"));
  };
  auto list = [=](Rng& r) { return Nested<std::optional<int64_t>>(r, maybe); };
  auto lists = [=](Rng& r) { return Nested<std::vector<std::optional<int64_t>>>(r, list); };
  absl::btree_map<std::string, std::vector<std::optional<int64_t>>> map;
  std::map<std::string, std::string> sorted;
  size_t n = r.Upto(4);
  for (size_t i = 0; i < n; ++i) {
    auto [k, ks] = text(r);
    auto [v, vs] = list(r);
    map[k] = v;
    sorted[k] = ks + ": " + vs;
  }
  std::vector<std::string> pairs;
  for (auto& [k, s] : sorted) pairs.push_back(s);
  std::string map_text = Join(pairs, "{", "}");
  PBT_TM(tb::ToRustDebugString(map) == map_text, "map", map_text);
  auto [v, vs] = lists(r);
  PBT_TM(tb::ToRustDebugString(v) == vs, "list", vs);
  bool flag = r.Bool();
  PBT_T(tb::ToRustDebugString(flag) == (flag ? "true" : "false"), "bool");
  auto [s, ss] = text(r);
  PBT_T(tb::ToRustDebugString(s) == ss, "string");
  PBT_T(tb::ToRustDebugString(std::string_view(s)) == ss, "string_view");
  PBT_T(tb::ToRustDebugString(s.c_str()) == ss, "const char*");
  auto [x, xs] = number(r);
  tb::RustFormatter fmt;
  std::string got = fmt.DebugStruct("S").Field("a", x).Field("b_1", v).Field("c", map).Finish();
  std::string want = "S { a: " + xs + ", b_1: " + vs + ", c: " + map_text + " }";
  c.Note(want);
  PBT_TM(got == want, "struct", got << " for " << want);
  got = fmt.DebugTuple("T").Field(s).Field(x).Finish();
  PBT_TM(got == "T(" + ss + ", " + xs + ")", "tuple", got);
  got = fmt.DebugTuple("T").Field(v).Finish();
  PBT_TM(got == "T(" + vs + ")", "tuple", got);
  got = fmt.DebugList().Entry(x).Entry(flag).Finish();
  PBT_TM(got == "[" + xs + ", " + (flag ? "true" : "false") + "]", "list", got);
}

void RegisterAll() {
  pbt::Register("strings.letters", 20000, 400000, Letters<std::string>);
  pbt::Register("strings.letters16", 20000, 400000, Letters<std::u16string>);
  pbt::Register("strings.ends", 40000, 800000, Ends);
  pbt::Register("strings.prefix0x", 10000, 200000, Prefix0x);
  pbt::Register("strings.containers", 5000, 100000, Containers);
  pbt::Register("strings.rust", 5000, 100000, Rust);
}
PBT_INIT(RegisterAll);

}  // namespace

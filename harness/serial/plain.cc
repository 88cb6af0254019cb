// Sequences of values, where they are cut off, and what plain types there are.
#include <algorithm>
#include <cstring>
#include <numeric>

#include "verif/serial/any.h"

namespace serial_pbt {
namespace {

struct Suite {
  std::vector<Type> types;
  std::function<void(Rng&)> before;
  std::function<void()> after;

  // The settings last as long as a case.
  struct Setting {
    Setting(const Suite& s, Rng& r) : s(s) { s.before(r); }
    ~Setting() { s.after(); }
    const Suite& s;
  };

  std::vector<Item> Items(Rng& r, size_t n, std::string* names) const {
    std::vector<Item> items;
    for (size_t i = 0; i < n; ++i) {
      items.push_back(types[r.Upto(types.size() - 1)].any(r));
      if (i < 4) *names += std::string(i ? ", " : "") + items.back().type;
    }
    return items;
  }

  void Sequence(Case& c) const {
    size_t n = c.Size(1, 16);
    Rng r = c.Bulk();
    Setting setting(*this, r);
    std::string names;
    std::vector<Item> items = Items(r, n, &names);
    tb::Endian endian = AnyEndian(r);
    size_t pad = r.Bool() ? 0 : r.Upto(40);
    size_t total = 0;
    for (const Item& it : items) total += it.size;
    c.Note(names, n > 4 ? ", ..." : "", "; ", total, " bytes at ", pad, ", byte order ",
           static_cast<int>(endian));
    if (n >= 2 && total > 0) c.Nontrivial();
    std::vector<size_t> at(n);
    for (size_t i = 0, o = pad; i < n; ++i) {
      at[i] = o;
      o += items[i].size;
    }
    // A buffer of just that size, or one that grows.
    Guarded exact(pad + total);
    std::vector<uint8_t> filling(pad);
    for (uint8_t& b : filling) b = static_cast<uint8_t>(r.Next());
    std::unique_ptr<tb::Buffer> buffer;
    size_t kind = r.Upto(3);
    switch (kind) {
      case 0: buffer.reset(new tb::Buffer(exact.data(), exact.size())); break;
      case 1: buffer.reset(new tb::Uint8VectorBuffer()); break;
      case 2: buffer.reset(new tb::CharVectorBuffer()); break;
      default: buffer.reset(new tb::StringBuffer());
    }
    buffer->set_endian(endian);
    PBT_T(buffer->Write(filling.data(), pad), "write");
    bool anywhere = kind == 0 && r.Upto(2) == 0;
    std::vector<size_t> order(n);
    std::iota(order.begin(), order.end(), 0);
    if (anywhere)
      for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.Upto(i - 1)]);
    c.LabelIf(anywhere, "any order");
    c.LabelIf(kind != 0, "growing");
    for (size_t i : order) {
      const Item& it = items[i];
      bool direct = anywhere || r.Upto(3) == 0;
      PBT_TM(direct ? it.write_at(*buffer, at[i]) : it.write(*buffer), "write", it.type);
      PBT_TM(buffer->buffer_offset() == at[i] + it.size, "size",
             it.type << ": estimated " << it.size << ", wrote "
                     << buffer->buffer_offset() - at[i]);
      PBT_T(buffer->endian() == endian, "endian");
      if (r.Bool())
        PBT_TM(memcmp(buffer->buffer(), filling.data(), pad) == 0, "earlier", it.type);
    }
    PBT_T(buffer->buffer_len() == pad + total, "length");
    // One byte less is too little.
    if (total > 0) {
      Guarded less(pad + total - 1);
      tb::Buffer small(less.data(), less.size());
      small.set_endian(endian);
      small.set_buffer_offset(pad);
      size_t i = 0;
      while (i < n && at[i] + items[i].size < pad + total) {
        PBT_TM(items[i].write(small), "write", items[i].type);
        ++i;
      }
      PBT_TM(i < n && !items[i].write(small), "full", items[i].type);
    }
    memcpy(exact.data(), buffer->buffer(), pad + total);
    tb::ReadOnlyBuffer in(exact.data(), exact.size());
    in.set_endian(endian);
    in.set_buffer_offset(pad);
    for (size_t i = 0; i < n; ++i) {
      size_t k = order[i];
      bool direct = anywhere || r.Upto(3) == 0;
      Got got = direct ? items[k].read_at(in, at[k]) : items[k].read(in);
      PBT_TM(got != Got::kFailed, "read", items[k].type);
      PBT_TM(got == Got::kSame, "equal", items[k].type);
      PBT_TM(in.buffer_offset() == at[k] + items[k].size, "advance", items[k].type);
      PBT_T(in.Done() == (at[k] + items[k].size == pad + total), "done");
    }
    // Reading again finds the same.
    size_t k = r.Upto(n - 1);
    PBT_TM(items[k].read_at(in, at[k]) == Got::kSame, "again", items[k].type);
  }

  void Truncated(Case& c) const {
    size_t n = c.Size(1, 8);
    Rng r = c.Bulk();
    Setting setting(*this, r);
    std::string names;
    std::vector<Item> items = Items(r, n, &names);
    tb::Endian endian = AnyEndian(r);
    tb::Uint8VectorBuffer out;
    out.set_endian(endian);
    for (const Item& it : items) PBT_TM(it.write(out), "write", it.type);
    size_t total = out.buffer_len();
    if (total == 0) return;
    size_t keep = r.Bool() ? r.Upto(total - 1) : total - 1 - r.Upto(std::min<size_t>(total - 1, 9));
    c.Note(names, "; ", keep, " of ", total, " bytes");
    c.Nontrivial();
    Guarded cut(keep);
    memcpy(cut.data(), out.buffer(), keep);
    tb::ReadOnlyBuffer in(cut.data(), cut.size());
    in.set_endian(endian);
    size_t o = 0;
    for (const Item& it : items) {
      o += it.size;
      Got got = it.read(in);
      if (o <= keep) {
        PBT_TM(got == Got::kSame, "equal", it.type);
        continue;
      }
      PBT_TM(got == Got::kFailed, "short", it.type << " of " << it.size << " bytes, "
                                                   << o - keep << " missing");
      break;
    }
    // Past the end.
    Item it = types[r.Upto(types.size() - 1)].any(r);
    if (it.size > 0) {
      size_t far = keep + r.Upto(3);
      if (r.Upto(3) == 0) far = -r.Upto(it.size + 2) - 1;
      PBT_TM(it.read_at(in, far) == Got::kFailed, "past", it.type << " at " << far);
    }
  }

  void Counts(Case& c) const {
    Rng r = c.Bulk();
    Setting setting(*this, r);
    std::vector<const Type*> counted;
    for (const Type& t : types)
      if (t.counts) counted.push_back(&t);
    if (counted.empty()) return;
    const Type& t = *counted[r.Upto(counted.size() - 1)];
    Item it = t.any(r);
    // A matrix without columns may have any number of rows.
    if (t.counts == 2 && it.size == 16) return;
    tb::Endian endian = AnyEndian(r);
    tb::Uint8VectorBuffer out;
    out.set_endian(endian);
    PBT_TM(it.write(out), "write", it.type);
    out.set_buffer_offset(0);
    uint64_t count;
    PBT_T(out.Read(&count), "read");
    uint64_t more;
    switch (r.Upto(3)) {
      case 0: more = count + 1 + r.Upto(3); break;
      case 1: more = count + 1 + (r.Next() >> (2 + r.Upto(60))); break;
      case 2: more = uint64_t{1} << (20 + r.Upto(t.counts == 2 ? 42 : 43)); break;
      default:
        more = t.counts == 2 ? std::numeric_limits<int64_t>::max() - r.Upto(9) : ~r.Upto(9);
    }
    if (more <= count) return;
    if (t.counts == 2 && r.Bool()) {
      // The columns instead.
      PBT_T(out.Read(&count), "read");
      if (more <= count) return;
      PBT_T(out.WriteAt(8, more), "write");
    } else {
      PBT_T(out.WriteAt(0, more), "write");
    }
    c.Nontrivial();
    c.Note(it.type, ": ", count, " claimed to be ", more);
    Guarded in(out.buffer_len());
    memcpy(in.data(), out.buffer(), in.size());
    tb::ReadOnlyBuffer b(in.data(), in.size());
    b.set_endian(endian);
    PBT_TM(it.read(b) == Got::kFailed, "counts", it.type);
  }
};

template <typename T>
T AnyInt(Rng& r) {
  switch (r.Upto(5)) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return static_cast<T>(r.Upto(3));
    default: return static_cast<T>(r.Next());
  }
}
template <typename T>
T AnyFloat(Rng& r) {
  switch (r.Upto(7)) {
    case 0: return std::numeric_limits<T>::infinity();
    case 1: return std::numeric_limits<T>::denorm_min();
    case 2: return std::numeric_limits<T>::quiet_NaN();
    case 3: return -T{0};
    default:
      return (static_cast<T>(r.Next()) / 3 - static_cast<T>(r.Next())) /
             static_cast<T>(1 + (r.Next() >> r.Upto(63)));
  }
}
struct SameBits {
  template <typename T>
  bool operator()(const T& a, const T& b) const {
    return memcmp(&a, &b, sizeof(T)) == 0;
  }
};
template <typename S>
S AnyString(Rng& r) {
  S s;
  size_t n = r.Upto(4) ? r.Upto(20) : r.Upto(300);
  for (size_t i = 0; i < n; ++i) {
    // No value ends a string.
    auto ch = static_cast<typename S::value_type>(r.Next() >> 33);
    s.push_back(ch);
  }
  return s;
}
template <typename S>
S NoZeros(Rng& r) {
  S s = AnyString<S>(r);
  for (auto& ch : s)
    if (ch == 0) ch = 1;
  return s;
}
template <typename T>
auto I() {
  return AnyInt<T>;
}

enum class Small : uint8_t { kA, kB = 200 };
enum class Signed : int16_t { kA = -3 };
enum class Plain { kA };
enum Old : uint64_t { kOld };

std::vector<Type> PlainTypes() {
  auto text = AnyString<std::string>;
  std::vector<Type> t = {
      Of<bool>("bool", [](Rng& r) { return r.Bool(); }),
      Of<char>("char", I<char>()),
      Of<uint8_t>("uint8_t", I<uint8_t>()),
      Of<int16_t>("int16_t", I<int16_t>()),
      Of<uint16_t>("uint16_t", I<uint16_t>()),
      Of<int>("int", I<int>()),
      Of<uint32_t>("uint32_t", I<uint32_t>()),
      Of<int64_t>("int64_t", I<int64_t>()),
      Of<uint64_t>("uint64_t", I<uint64_t>()),
      Of<long long>("long long", I<long long>()),
      Of<float>("float", AnyFloat<float>, SameBits()),
      Of<double>("double", AnyFloat<double>, SameBits()),
      Of<Small>("enum of 1 byte", [](Rng& r) { return Small(AnyInt<uint8_t>(r)); }),
      Of<Signed>("enum of 2 bytes", [](Rng& r) { return Signed(AnyInt<int16_t>(r)); }),
      Of<Plain>("enum", [](Rng& r) { return Plain(AnyInt<int>(r)); }),
      Of<Old>("enum of 8 bytes", [](Rng& r) { return Old(AnyInt<uint64_t>(r)); }),
      Of<std::string>("string", text).Counted(),
      Of<std::wstring>("wstring", AnyString<std::wstring>).Counted(),
      Of<std::u16string>("u16string", AnyString<std::u16string>).Counted(),
      Of<std::u32string>("u32string", AnyString<std::u32string>).Counted(),
      Viewed<std::string_view, std::string>("string_view", text,
                                            [](const std::string& s) { return std::string_view(s); }),
      Viewed<std::u16string_view, std::u16string>(
          "u16string_view", AnyString<std::u16string>,
          [](const std::u16string& s) { return std::u16string_view(s); }),
      Viewed<const char*, std::string>("const char*", NoZeros<std::string>,
                                       [](const std::string& s) { return s.c_str(); }),
      Viewed<const char16_t*, std::u16string>("const char16_t*", NoZeros<std::u16string>,
                                              [](const std::u16string& s) { return s.c_str(); }),
      Viewed<absl::Span<const uint32_t>, std::vector<uint32_t>>(
          "span", VectorOf(I<uint32_t>()),
          [](const std::vector<uint32_t>& v) { return absl::Span<const uint32_t>(v); }),
      Of<std::vector<uint8_t>>("vector<uint8_t>", VectorOf(I<uint8_t>())).Counted(),
      Of<std::vector<int64_t>>("vector<int64_t>", VectorOf(I<int64_t>())).Counted(),
      Of<std::vector<std::string>>("vector<string>", VectorOf(text)).Counted(),
      Of<std::vector<std::vector<uint16_t>>>("vector<vector<uint16_t>>",
                                             VectorOf(VectorOf(I<uint16_t>())))
          .Counted(),
      Of<std::vector<std::array<int, 3>>>("vector<array<int, 3>>", VectorOf(ArrayOf<3>(I<int>())))
          .Counted(),
      Of<std::array<uint8_t, 5>>("array<uint8_t, 5>", ArrayOf<5>(I<uint8_t>())),
      Of<std::array<std::string, 2>>("array<string, 2>", ArrayOf<2>(text)),
      Of<std::array<std::vector<uint32_t>, 3>>("array<vector<uint32_t>, 3>",
                                               ArrayOf<3>(VectorOf(I<uint32_t>()))),
      Of<std::vector<double>>("vector<double>", VectorOf(AnyFloat<double>),
                              [](const std::vector<double>& a, const std::vector<double>& b) {
                                return a.size() == b.size() &&
                                       memcmp(a.data(), b.data(), 8 * a.size()) == 0;
                              })
          .Counted(),
  };
  return t;
}

struct Bounded {
  uint16_t a[3];
  int64_t b[2];
  bool operator==(const Bounded& o) const {
    return std::equal(a, a + 3, o.a) && std::equal(b, b + 2, o.b);
  }
};

// Several values by one call.
void Many(Case& c) {
  Rng r = c.Bulk();
  bool at = c.Draw(1);
  tb::Endian endian = AnyEndian(r);
  Bounded b, b2;
  for (auto& x : b.a) x = AnyInt<uint16_t>(r);
  for (auto& x : b.b) x = AnyInt<int64_t>(r);
  char ch = AnyInt<char>(r), ch2;
  auto v = VectorOf(I<uint32_t>())(r), v2 = v;
  v2.push_back(1);
  int64_t n = AnyInt<int64_t>(r), n2;
  Plain e = Plain(AnyInt<int>(r)), e2;
  std::string s = AnyString<std::string>(r), s2;
  size_t pad = at ? r.Upto(50) : 0;
  c.Nontrivial();
  c.Note(at ? "at " : "from ", pad, ", byte order ", static_cast<int>(endian));
  tb::Uint8VectorBuffer out;
  out.set_endian(endian);
  PBT_T(at ? out.WriteManyAt(pad, ch, b.a, v, n, b.b, e, s)
           : out.WriteMany(ch, b.a, v, n, b.b, e, s),
        "write");
  size_t size = tb::EstimateSize(ch, v, n, e, s) +
                tb::Copyable<uint16_t[3]>::EstimateSize(b.a) +
                tb::Copyable<int64_t[2]>::EstimateSize(b.b);
  PBT_T(out.buffer_offset() == pad + size, "size");
  PBT_T(out.buffer_len() == pad + size, "length");
  bool cut = r.Upto(3) == 0;
  size_t keep = pad + size - (cut ? 1 + r.Upto(size - 1) : 0);
  Guarded g(keep);
  memcpy(g.data(), out.buffer(), keep);
  tb::ReadOnlyBuffer in(g.data(), keep);
  in.set_endian(endian);
  bool ok = at ? in.ReadManyAt(pad, &ch2, b2.a, &v2, &n2, b2.b, &e2, &s2)
               : in.ReadMany(&ch2, b2.a, &v2, &n2, b2.b, &e2, &s2);
  PBT_T(ok == !cut, cut ? "short" : "read");
  if (!ok) return;
  PBT_T(ch == ch2 && b == b2 && v == v2 && n == n2 && e == e2 && s == s2, "equal");
  PBT_T(in.Done(), "done");
}

void RegisterAll() {
  RegisterTypes("plain", 1, PlainTypes, [](Rng&) {}, [] {});
  pbt::Register("plain.many", 20000, 400000, Many);
}
PBT_INIT(RegisterAll);

}  // namespace

void RegisterTypes(const char* name, int n, std::function<std::vector<Type>()> types,
                   std::function<void(Rng&)> before, std::function<void()> after) {
  auto suite = std::make_shared<Suite>(Suite{types(), before, after});
  std::string s(name);
  pbt::Register(s + ".sequence", 20000 / n, 400000 / n, [suite](Case& c) { suite->Sequence(c); });
  pbt::Register(s + ".truncated", 20000 / n, 400000 / n,
                [suite](Case& c) { suite->Truncated(c); });
  pbt::Register(s + ".counts", 10000 / n, 200000 / n, [suite](Case& c) { suite->Counts(c); });
}

}  // namespace serial_pbt

// Views of containers, ranges of numbers, helpers of containers and of bits, owned or not.
#include <algorithm>
#include <array>
#include <cstring>
#include <limits>
#include <memory>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "tachyon/base/bits.h"
#include "tachyon/base/containers/adapters.h"
#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/maybe_owned.h"
#include "tachyon/base/memory/aligned_memory.h"
#include "tachyon/base/range.h"
#include "tachyon/base/ref.h"
#include "tachyon/base/sort.h"

#include "verif/pbt/pbt.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;
using V = std::vector<int>;

V AnyV(Rng& r, size_t n, int top = 9) {
  V v(n);
  for (int& x : v) x = static_cast<int>(r.Upto(top));
  return v;
}

template <typename T>
bool Chunks(T& t, size_t chunk, const V& v) {
  std::vector<V> want;
  for (size_t i = 0; i < v.size(); i += chunk)
    want.push_back(V(v.begin() + i, v.begin() + std::min(v.size(), i + chunk)));
  std::vector<V> got;
  auto adapter = tb::Chunked(t, chunk);
  for (auto& s : adapter) got.push_back(V(s.begin(), s.end()));
  if (got != want) return false;
  got.clear();
  auto copy = adapter;
  for (auto it = copy.begin(); it != copy.end();) {
    auto was = it++;
    got.push_back(V(was->begin(), was->end()));
    if (got.size() > want.size()) return false;
  }
  if (got != want) return false;
  auto it = tb::ChunkedBegin(t, chunk), end = tb::ChunkedEnd(t, chunk);
  for (size_t i = 0; i <= want.size(); ++i) {
    if (static_cast<size_t>(end - it) != want.size() - i) return false;
    if (static_cast<size_t>(it - tb::ChunkedBegin(t, chunk)) != i) return false;
    if ((it == end) != (i == want.size())) return false;
    if (i < want.size()) {
      const auto& con = it;
      if (V((*con).begin(), (*con).end()) != want[i]) return false;
      ++it;
    }
  }
  return true;
}

void Views(Case& c) {
  Rng r = c.Bulk();
  size_t n = c.Size(0, 40);
  size_t chunk = 1 + c.Draw(r.Bool() ? 5 : 50);
  V v = AnyV(r, n, 1000);
  const V& con = v;
  c.Note(n, " in chunks of ", chunk);
  c.Nontrivial(n >= 2);
  c.LabelIf(n % chunk, "a shorter chunk");
  PBT_T(Chunks(v, chunk, V(v)), "chunks");
  PBT_T(Chunks(con, chunk, V(v)), "const chunks");
  V w = v;
  for (auto& s : tb::Chunked(w, chunk))
    for (auto& x : s) x += 1;
  for (size_t i = 0; i < n; ++i) PBT_T(w[i] == v[i] + 1, "written through chunks");
  V back(v.rbegin(), v.rend()), got;
  for (int x : tb::Reversed(con)) got.push_back(x);
  PBT_T(got == back, "reversed");
  size_t at = 0;
  for (int& x : tb::Reversed(w)) x = got[at++];
  PBT_T(w == v, "written in reverse");
  std::vector<std::string> names(n);
  for (auto& s : names) s = std::to_string(r.Upto(99));
  size_t i = 0;
  auto zipped = tb::Zipped(con, names);
  for (auto& t : zipped) {
    PBT_T(i < n && std::get<0>(t) == v[i] && std::get<1>(t) == names[i], "zipped");
    ++i;
  }
  PBT_T(i == n, "zipped");
  i = 0;
  auto copy = zipped;
  for (auto it = copy.begin(); it != copy.end(); ++i) {
    PBT_T(static_cast<size_t>(copy.end() - it) == n - i, "zipped");
    auto was = it++;
    PBT_T(std::get<0>(*was) == v[i] && std::get<1>(*was) == names[i], "zipped");
  }
}

template <typename T, bool S, bool E>
void OneRange(Case& c, T from, T to, T x) {
  using I = __int128;
  tb::Range<T, S, E> range(from, to);
  I lo = static_cast<I>(from) + !S, hi = static_cast<I>(to) + E;  // half-open
  bool empty = lo >= hi;
  // An open range of two neighbours has no element but counts as not empty:
  // the interval between them is not.
  if (S || E || lo != hi) PBT_T(range.IsEmpty() == empty, "empty");
  if (empty || hi - lo <= static_cast<I>(~uint64_t{0}))
    PBT_T(range.GetSize() == static_cast<size_t>(empty ? 0 : hi - lo), "size");
  PBT_T(range.Contains(x) == (lo <= x && x < hi), "contains");
  PBT_T(range.Contains(from) == (lo <= from && from < hi), "contains its start");
  PBT_T(range.Contains(to) == (lo <= to && to < hi), "contains its end");
  if (hi <= static_cast<I>(std::numeric_limits<T>::max()) && (empty || hi - lo < 300)) {
    I at = lo;
    size_t n = 0;
    for (auto it = range.begin(); it != range.end() && n < 301; ++it, ++at, ++n)
      PBT_T(at < hi && *it == static_cast<T>(at), "element");
    PBT_T(n == static_cast<size_t>(empty ? 0 : hi - lo), "elements");
    if (!empty) {
      PBT_T(range.end() - range.begin() == static_cast<ptrdiff_t>(hi - lo), "distance");
      auto mid = range.begin() + static_cast<ptrdiff_t>((hi - lo) / 2);
      PBT_T(*mid == static_cast<T>(lo + (hi - lo) / 2), "advanced");
      PBT_T(mid - static_cast<ptrdiff_t>((hi - lo) / 2) == range.begin(), "moved back");
      PBT_T(range.begin() <= mid && mid < range.end(), "order");
    }
  }
  T a = std::min(x, from), b = std::max(x, to);
  tb::Range<T, S, E> other(a, x), all = tb::Range<T, S, E>::All();
  tb::Range<T, S, E> both = range.Intersect(other);
  for (T y : {from, to, x, a, b}) {
    PBT_T(both.Contains(y) == (range.Contains(y) && other.Contains(y)), "intersection");
    PBT_T((tb::Range<T, S, E>::From(from).Contains(y)) == ((S ? y >= from : y > from) && (E || y < std::numeric_limits<T>::max())), "from");
    PBT_T((tb::Range<T, S, E>::Until(to).Contains(y)) == ((E ? y <= to : y < to) && (S || y > std::numeric_limits<T>::lowest())), "until");
  }
  PBT_T(range.Intersect(all) == range, "intersection with all");
  PBT_T((range == other) == (from == a && to == x), "equality");
  PBT_T((range != other) != (range == other), "equality");
  I al = static_cast<I>(std::numeric_limits<T>::lowest()) + !S, ah = static_cast<I>(std::numeric_limits<T>::max()) + E;
  if (ah - al <= static_cast<I>(~uint64_t{0}))
    PBT_T(all.GetSize() == static_cast<size_t>(ah - al), "size of all");
}

template <typename T>
void Ranges(Case& c) {
  Rng r = c.Bulk();
  auto any = [&]() -> T {
    switch (r.Upto(3)) {
      case 0: return static_cast<T>(r.Next());
      case 1: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(r.Upto(3)));
      case 2: return static_cast<T>(std::numeric_limits<T>::lowest() + static_cast<T>(r.Upto(3)));
      default: return static_cast<T>(r.Upto(60));
    }
  };
  T from = any(), to = any(), x = any();
  if (c.Draw(2) == 0) {
    to = from;
    size_t up = r.Upto(4);
    while (up-- && to < std::numeric_limits<T>::max()) ++to;
  }
  if (c.Draw(2) == 0) x = r.Bool() ? from : to;
  c.Note(+from, " ", +to, " ", +x);
  c.Nontrivial(from != to);
  c.LabelIf(from < to, "in order");
  OneRange<T, true, false>(c, from, to, x);
  OneRange<T, true, true>(c, from, to, x);
  OneRange<T, false, true>(c, from, to, x);
  OneRange<T, false, false>(c, from, to, x);
}

void Helpers(Case& c) {
  Rng r = c.Bulk();
  size_t n = c.Size(0, 30);
  V v = AnyV(r, n, 6);
  int x = static_cast<int>(r.Upto(7));
  c.Note(x, " in ", n);
  c.Nontrivial(n >= 2);
  std::vector<size_t> at;
  for (size_t i = 0; i < n; ++i) if (v[i] == x) at.push_back(i);
  std::optional<size_t> first;
  if (!at.empty()) first = at[0];
  auto is = [x](int y) { return y == x; };
  PBT_T(tb::FindIndex(v, x) == first && tb::FindIndex(v.begin(), v.end(), x) == first, "index");
  PBT_T(tb::FindIndexIf(v, is) == first && tb::FindIndexIf(v.begin(), v.end(), is) == first, "index if");
  PBT_T(tb::FindIndices(v, x) == at && tb::FindIndices(v.begin(), v.end(), x) == at, "indices");
  PBT_T(tb::FindIndicesIf(v, is) == at && tb::FindIndicesIf(v.begin(), v.end(), is) == at, "indices if");
  V s = v;
  std::sort(s.begin(), s.end());
  auto it = tb::BinarySearchByKey(s.begin(), s.end(), x, [](int a, int b) { return a < b; });
  PBT_T(at.empty() ? it == s.end() : (it != s.end() && *it == x), "binary search");
  std::vector<std::string> want, got;
  for (int y : v) want.push_back(std::to_string(y));
  PBT_T(tb::Map(v, [](int y) { return std::to_string(y); }) == want, "map");
  PBT_T(tb::Map(v.begin(), v.end(), [](int y) { return std::to_string(y); }) == want, "map");
  for (size_t i = 0; i < n; ++i) want[i] += "@" + std::to_string(i);
  PBT_T(tb::Map(v, [](size_t i, int y) { return std::to_string(y) + "@" + std::to_string(i); }) == want, "map with indices");
  V flat;
  for (int y : v) for (int k = 0; k < y; ++k) flat.push_back(y * 10 + k);
  PBT_T(tb::FlatMap(v, [](int y) {
          V o;
          for (int k = 0; k < y; ++k) o.push_back(y * 10 + k);
          return o;
        }) == flat, "flat map");
  int k = 0;
  V iota(n);
  for (size_t i = 0; i < n; ++i) iota[i] = static_cast<int>(i);
  PBT_T(tb::CreateVector(n, [&k]() { return k++; }) == iota, "create");
  PBT_T(tb::CreateVector(n, [](size_t i) { return static_cast<int>(i); }) == iota, "create");
  PBT_T(tb::CreateVectorParallel(n, [](size_t i) { return static_cast<int>(i); }) == iota, "create in parallel");
  PBT_T(tb::CreateVectorParallel(n, []() { return 7; }) == V(n, 7), "create in parallel");
  k = 5;
  auto arr = tb::CreateArray<4>([&k]() { return k++; });
  PBT_T((arr == std::array<int, 4>{5, 6, 7, 8}), "array");
  auto arr2 = tb::CreateArray<4>([x](size_t i) { return static_cast<int>(i) * x; });
  PBT_T((arr2 == std::array<int, 4>{0, x, 2 * x, 3 * x}), "array");
  int from = static_cast<int>(r.Upto(100)) - 50, step = 1 + static_cast<int>(r.Upto(9));
  int to = from + 1 + static_cast<int>(r.Upto(60));
  V ranged;
  for (int y = from; y < to; y += step) ranged.push_back(y);
  PBT_T(tb::CreateRangedVector(from, to, step) == ranged, "ranged");
  V other = AnyV(r, r.Upto(6)), joined = v, a = v;
  joined.insert(joined.end(), other.begin(), other.end());
  const V& con = other;
  tb::Extend(a, con);
  PBT_T(a == joined, "extend");
  V b = v;
  tb::Extend(b, V(other));
  PBT_T(b == joined, "extend");
  int raw[5] = {1, x, 3, x, 5};
  PBT_T((tb::ArrayToVector(raw) == V{1, x, 3, x, 5}), "array to vector");
  int raw2[2][3] = {{1, x, 2}, {x, 4, 5}};
  PBT_T((tb::Array2DToVector2D(raw2) == std::vector<V>{{1, x, 2}, {x, 4, 5}}), "array to vector");
  V shuffled = v;
  tb::Shuffle(shuffled);
  PBT_T(std::is_permutation(shuffled.begin(), shuffled.end(), v.begin()), "shuffle");
  V sorted = v;
  tb::UnstableSort(sorted.begin(), sorted.end());
  PBT_T(sorted == s, "sort");
  tb::UnstableSort(sorted.begin(), sorted.end(), [](int a, int b) { return a > b; });
  std::reverse(s.begin(), s.end());
  PBT_T(sorted == s, "sort with an order");
}

template <typename T>
void BitsOf(Case& c, T v, size_t shift) {
  constexpr int kBits = sizeof(T) * 8;
  namespace bits = tb::bits;
  int length = 0, low = 0, ones = 0;
  for (int i = 0; i < kBits; ++i)
    if (v >> i & 1) length = i + 1, ++ones;
  while (low < kBits && !(v >> low & 1)) ++low;
  PBT_T(bits::IsPowerOfTwo(v) == (ones == 1), "power of two");
  PBT_T(bits::CountLeadingZeroBits(v) == kBits - length, "leading zeros");
  PBT_T(bits::CountTrailingZeroBits(v) == low, "trailing zeros");
  PBT_T(bits::Log2Floor(v) == length - 1, "log2");
  int ceiling = ones == 1 ? length - 1 : v == 0 ? -1 : length;
  if constexpr (kBits >= 32) {
    PBT_T(bits::Log2Ceiling(v) == ceiling, "log2 ceiling");
    PBT_T(bits::SafeLog2Ceiling(v) == static_cast<uint32_t>(std::max(ceiling, 0)), "log2 ceiling");
  }
  if (ones == 1) PBT_T(bits::CheckedLog2(v) == static_cast<uint32_t>(low), "log2");
  PBT_T(bits::LeftmostBit<T>() == static_cast<T>(T{1} << (kBits - 1)), "leftmost bit");
  T align = static_cast<T>(T{1} << shift % (kBits - 1));
  PBT_T(bits::AlignDown(v, align) == static_cast<T>(v - v % align), "align down");
  T up = static_cast<T>(v % align ? v - v % align + align : v);
  if (up >= v) PBT_T(bits::AlignUp(v, align) == up, "align up");
}

void Bits(Case& c) {
  Rng r = c.Bulk();
  uint64_t v = r.Next() >> r.Upto(63);
  if (c.Draw(2) == 0) v = (uint64_t{1} << r.Upto(63)) + r.Upto(2) - 1;
  size_t shift = r.Upto(62);
  c.Note(v);
  c.Nontrivial(v > 1);
  BitsOf<uint64_t>(c, v, shift);
  BitsOf<uint32_t>(c, static_cast<uint32_t>(v), shift);
  BitsOf<uint16_t>(c, static_cast<uint16_t>(v), shift);
  BitsOf<uint8_t>(c, static_cast<uint8_t>(v), shift);
  int64_t s = static_cast<int64_t>(v);
  PBT_T(tb::bits::IsPowerOfTwo(s) == (s > 0 && (s & (s - 1)) == 0), "power of two");
  uint64_t reversed = 0;
  for (int i = 0; i < 64; ++i) reversed |= (v >> i & 1) << (63 - i);
  PBT_T(tb::bits::BitRev(v) == reversed, "reversed");
  size_t len = 1 + r.Upto(63);
  uint64_t low = len == 64 ? v : v & ((uint64_t{1} << len) - 1);
  PBT_T(tb::bits::ReverseBitsLen(low, len) == reversed >> (64 - len), "reversed bits");
  PBT_T(tb::bits::ReverseBitsLen(tb::bits::ReverseBitsLen(low, len), len) == low, "reversed twice");
  char* p = reinterpret_cast<char*>(v >> 1);
  uintptr_t align = uintptr_t{1} << r.Upto(30);
  PBT_T(reinterpret_cast<uintptr_t>(tb::bits::AlignDown(p, align)) == (v >> 1) / align * align, "pointer down");
  PBT_T(reinterpret_cast<uintptr_t>(tb::bits::AlignUp(p, align)) == ((v >> 1) + align - 1) / align * align, "pointer up");
  size_t size = r.Upto(300);
  align = uintptr_t{8} << r.Upto(9);
  std::unique_ptr<char, tb::AlignedFreeDeleter> block(static_cast<char*>(tb::AlignedAlloc(size + 1, align)));
  PBT_T(reinterpret_cast<uintptr_t>(block.get()) % align == 0, "aligned");
  memset(block.get(), 1, size + 1);
  uintptr_t address = v >> 1;
  PBT_T(tb::IsAligned(address, align) == (address % align == 0), "is aligned");
}

// Owned or not.
using P = tb::MaybeOwned<std::string>;
using W = tb::MaybeOwned<V>;
std::string Get(const P& m) { return *m; }
V Get(const W& m) { return V((*m).begin(), (*m).end()); }
const void* At(const P& m) { return m.ptr(); }
const void* At(const W& m) { return m.ptr().data(); }
void Write(P& m) { (*m)[0] = '!'; }
void Write(W& m) { (*m)[0] = -1; }
void Write(std::string& v) { v[0] = '!'; }
void Write(V& v) { v[0] = -1; }
std::string* Pointer(std::string& s) { return &s; }
absl::Span<int> Pointer(V& v) { return absl::MakeSpan(v); }
const void* At(const std::string& s) { return &s; }
const void* At(const V& v) { return v.data(); }

template <typename T>
void Owned(Case& c) {
  Rng r = c.Bulk();
  using M = tb::MaybeOwned<T>;
  auto any = [&r]() {
    T v(1 + r.Upto(20), 0);
    for (auto& x : v) x = static_cast<typename T::value_type>('a' + r.Upto(20));
    return v;
  };
  std::vector<T> outside{any(), any(), any()};
  struct Model {
    bool owned = false;
    T value;
    T* at = nullptr;
    bool set = false;
  };
  std::vector<M> ms(3);
  std::vector<Model> model(3);
  size_t ops = c.Size(1, 25);
  c.Nontrivial(ops >= 4);
  for (size_t k = 0; k < ops; ++k) {
    size_t i = r.Upto(2), j = r.Upto(2);
    size_t op = c.Draw(7);
    T v = any();
    switch (op) {
      case 0: ms[i] = v; model[i] = {true, v, nullptr, true}; break;
      case 1: { T w = v; ms[i] = std::move(w); model[i] = {true, v, nullptr, true}; break; }
      case 2: ms[i] = Pointer(outside[j]); model[i] = {false, {}, &outside[j], true}; break;
      case 3: if (i == j) break; ms[i] = ms[j]; model[i] = model[j]; break;
      case 4: { if (i == j) break; ms[i] = std::move(ms[j]); model[i] = model[j]; model[j] = Model(); break; }
      case 5: {
        if (!model[i].set) break;
        Write(ms[i]);
        Write(model[i].owned ? model[i].value : *model[i].at);
        break;
      }
      case 6: { ms[i] = M(r.Bool() ? M(v) : M(T(v))); model[i] = {true, v, nullptr, true}; break; }
      default: {
        M copy(ms[j]);
        M moved(std::move(copy));
        if (i == j) break;
        ms[i] = std::move(moved);
        model[i] = model[j];
      }
    }
    for (size_t t = 0; t < 3; ++t) {
      const M& con = ms[t];
      if (!model[t].set) {
        PBT_TM(At(con) == nullptr, "unset", "after " << op);
        continue;
      }
      PBT_TM(Get(con) == (model[t].owned ? model[t].value : *model[t].at), "value", "after " << op);
      if (!model[t].owned) {
        PBT_TM(At(con) == At(*model[t].at), "pointer", "after " << op);
      } else {
        for (size_t u = 0; u < 3; ++u) PBT_TM(u == t || At(con) != At(ms[u]), "shared", "after " << op);
      }
    }
  }
}

void Refs(Case& c) {
  Rng r = c.Bulk();
  V v = AnyV(r, 2, 3);
  bool same = c.Draw(2) == 0;
  c.Note(v[0], " ", v[1]);
  c.Nontrivial();
  int& b = same ? v[0] : v[1];
  tb::DeepRef<int> d(&v[0]), e(&b);
  tb::ShallowRef<int> s(&v[0]), t(&b);
  PBT_T((d == e) == (v[0] == b) && (d != e) == (v[0] != b) && (d < e) == (v[0] < b) &&
            (d <= e) == (v[0] <= b) && (d > e) == (v[0] > b) && (d >= e) == (v[0] >= b), "deep");
  PBT_T((s == t) == same && (s != t) != same && (s < t) == (&v[0] < &b) && (s <= t) && (s > t) == false && (s >= t) == same, "shallow");
  PBT_T(*d == v[0] && s.get() == &v[0] && static_cast<bool>(d) && !static_cast<bool>(tb::DeepRef<int>()), "value");
  *e = 77;
  PBT_T(b == 77, "written");
}

void RegisterAll() {
  pbt::Register("views", 20000, 400000, Views);
  pbt::Register("range.int", 20000, 400000, Ranges<int>);
  pbt::Register("range.size", 20000, 400000, Ranges<size_t>);
  pbt::Register("range.long", 20000, 400000, Ranges<int64_t>);
  pbt::Register("range.uint8", 20000, 400000, Ranges<uint8_t>);
  pbt::Register("range.int8", 20000, 400000, Ranges<int8_t>);
  pbt::Register("helpers", 20000, 400000, Helpers);
  pbt::Register("bits", 40000, 800000, Bits);
  pbt::Register("owned.string", 20000, 400000, Owned<std::string>);
  pbt::Register("owned.vector", 20000, 400000, Owned<V>);
  pbt::Register("refs", 5000, 100000, Refs);
}

PBT_INIT(RegisterAll);

}  // namespace

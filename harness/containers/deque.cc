// Histories on the circular deque and the stack against std::deque, and erasure.
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "tachyon/base/containers/circular_deque.h"
#include "tachyon/base/containers/contains.h"
#include "tachyon/base/containers/cxx20_erase.h"
#include "tachyon/base/containers/stack.h"
#include "tachyon/base/containers/vector_buffer.h"

#include "verif/pbt/pbt.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;

// An element that knows where the living ones are.
struct El {
  static std::unordered_set<const void*>& Living() {
    static std::unordered_set<const void*> living;
    return living;
  }
  static bool& Wrong() {
    static bool wrong = false;
    return wrong;
  }
  static bool Lives(const El* e) {
    if (Living().count(e) == 0) Wrong() = true;
    return true;
  }
  El() : El(0) {}
  El(int v) : v(v) { Born(); }  // NOLINT(runtime/explicit)
  El(const El& o) : v((Lives(&o), o.v)) { Born(); }
  El(El&& o) : v((Lives(&o), o.v)) {
    o.v = -1;
    Born();
  }
  El& operator=(const El& o) {
    Lives(this);
    Lives(&o);
    v = o.v;
    return *this;
  }
  El& operator=(El&& o) {
    Lives(this);
    Lives(&o);
    v = o.v;
    if (&o != this) o.v = -1;
    return *this;
  }
  ~El() {
    if (Living().erase(this) == 0) Wrong() = true;
  }
  void Born() {
    if (!Living().insert(this).second) Wrong() = true;
  }
  bool operator==(const El& o) const { return Lives(this) && v == o.v; }
  bool operator!=(const El& o) const { return !(*this == o); }
  bool operator<(const El& o) const { return Lives(this) && v < o.v; }
  int v;
};

template <typename T>
T Make(Rng& r) {
  if constexpr (std::is_same_v<T, std::string>) {
    return std::string(r.Upto(40), 'a') + std::to_string(r.Upto(9));
  } else {
    return T(static_cast<int>(r.Upto(9)));
  }
}

template <typename T>
struct Pair {
  tb::circular_deque<T> d;
  std::deque<T> m;

  bool Same() const {
    if (d.size() != m.size() || d.empty() != m.empty() || d.capacity() < d.size()) return false;
    for (size_t i = 0; i < m.size(); ++i)
      if (!(d[i] == m[i]) || !(d.at(i) == m[i])) return false;
    if (!m.empty() && (!(d.front() == m.front()) || !(d.back() == m.back()))) return false;
    if (!std::equal(d.begin(), d.end(), m.begin(), m.end())) return false;
    if (!std::equal(d.rbegin(), d.rend(), m.rbegin(), m.rend())) return false;
    return true;
  }
};

template <typename T>
void History(Case& c) {
  Rng r = c.Bulk();
  El::Wrong() = false;
  size_t before = El::Living().size();
  size_t ops = c.Size(1, 60);
  c.Nontrivial(ops >= 4);
  bool wrapped = false;
  size_t largest = 0;
  {
    std::vector<Pair<T>> ps(2);
    for (size_t k = 0; k < ops; ++k) {
      Pair<T>& p = ps[r.Upto(3) == 0];
      Pair<T>& q = ps[&p == &ps[0]];
      auto& d = p.d;
      auto& m = p.m;
      size_t n = m.size();
      size_t op = c.Draw(27);
      switch (op) {
        case 0: case 1: { T v = Make<T>(r); d.push_back(v); m.push_back(v); break; }
        case 2: case 3: { T v = Make<T>(r); d.push_front(v); m.push_front(v); break; }
        case 4: { T v = Make<T>(r), w = v; auto& got = d.emplace_back(std::move(w)); m.push_back(v);
          PBT_T(&got == &d.back(), "emplace_back"); break; }
        case 5: { T v = Make<T>(r), w = v; auto& got = d.emplace_front(std::move(w)); m.push_front(v);
          PBT_T(&got == &d.front(), "emplace_front"); break; }
        case 6: case 7:
          for (size_t i = r.Upto(4); i && !m.empty(); --i) { d.pop_front(); m.pop_front(); }
          break;
        case 8:
          for (size_t i = r.Upto(4); i && !m.empty(); --i) { d.pop_back(); m.pop_back(); }
          break;
        case 9: case 10: {
          size_t at = r.Upto(n);
          T v = Make<T>(r);
          auto it = r.Bool() ? d.insert(d.begin() + at, v) : d.emplace(d.cbegin() + at, v);
          m.insert(m.begin() + at, v);
          PBT_T(static_cast<size_t>(it - d.begin()) == at, "insert");
          PBT_T(*it == v, "insert");
          break;
        }
        case 11: {
          size_t at = r.Upto(2) ? r.Upto(n) : 0, count = r.Upto(r.Bool() ? 3 : r.Bool() ? 12 : 40);
          T v = Make<T>(r);
          d.insert(d.begin() + at, count, v);
          if (count) m.insert(m.begin() + at, count, v);  // libstdc++ moves elements to themselves
          break;
        }
        case 12: case 13: {
          size_t at = r.Upto(2) ? r.Upto(n) : 0;
          std::list<T> more;
          for (size_t i = r.Upto(r.Bool() ? 3 : r.Bool() ? 12 : 40); i; --i) more.push_back(Make<T>(r));
          d.insert(d.cbegin() + at, more.begin(), more.end());
          if (!more.empty()) m.insert(m.begin() + at, more.begin(), more.end());
          break;
        }
        case 14: case 15: {
          if (n == 0) break;
          size_t at = r.Upto(n - 1);
          auto it = d.erase(d.begin() + at);
          m.erase(m.begin() + at);
          PBT_T(static_cast<size_t>(it - d.begin()) == at, "erase");
          break;
        }
        case 16: case 17: {
          size_t a = r.Upto(n), b = a + r.Upto(n - a);
          auto it = d.erase(d.begin() + a, d.begin() + b);
          m.erase(m.begin() + a, m.begin() + b);
          PBT_T(static_cast<size_t>(it - d.begin()) == a, "erase range");
          break;
        }
        case 18: { size_t to = r.Upto(20); d.resize(to); m.resize(to); break; }
        case 19: { size_t to = r.Upto(20); T v = Make<T>(r); d.resize(to, v); m.resize(to, v); break; }
        case 20: { d.reserve(r.Upto(30)); break; }
        case 21: {
          d.shrink_to_fit();
          break;
        }
        case 22: { if (r.Upto(3) == 0) { d.clear(); m.clear(); } break; }
        case 23: { // assign
          std::vector<T> more;
          for (size_t i = r.Upto(10); i; --i) more.push_back(Make<T>(r));
          if (r.Bool()) {
            d.assign(more.begin(), more.end());
            m.assign(more.begin(), more.end());
          } else {
            T v = Make<T>(r);
            d.assign(more.size(), v);
            m.assign(more.size(), v);
          }
          break;
        }
        case 24: {
          switch (r.Upto(6)) {
            case 0: d = q.d; m = q.m; break;
            case 1: d = std::move(q.d); m = q.m; q.d.clear(); q.m.clear(); break;
            case 2: { auto& self = d; d = self; break; }
            case 3: { tb::circular_deque<T> copy(d); d = std::move(copy); break; }
            case 4: { tb::circular_deque<T> moved(std::move(d)); PBT_T(d.empty(), "moved from");
              d = moved; break; }
            case 5: { T a = Make<T>(r), b = Make<T>(r); d = {a, b, a}; m = {a, b, a}; break; }
            default: { auto& self = d; d = std::move(self); break; }
          }
          break;
        }
        case 25: if (r.Bool()) d.swap(q.d); else swap(d, q.d); m.swap(q.m); break;
        case 26: {
          T v = Make<T>(r);
          std::deque<T> kept;
          for (auto& x : m) if (!(x == v)) kept.push_back(x);
          size_t gone = m.size() - kept.size();
          if (r.Bool()) {
            PBT_T(tb::Erase(d, v) == gone, "Erase");
          } else {
            PBT_T(tb::EraseIf(d, [&v](const T& x) { return x == v; }) == gone, "EraseIf");
          }
          m = kept;
          break;
        }
        default: {
          if (n < 2) break;
          size_t i = r.Upto(n - 1), j = r.Upto(n - 1);
          auto a = d.begin() + i, b = d.begin();
          b += j;
          PBT_T(a - b == static_cast<ptrdiff_t>(i) - static_cast<ptrdiff_t>(j), "iterators");
          PBT_T((a < b) == (i < j) && (a <= b) == (i <= j) && (a == b) == (i == j) &&
                    (a > b) == (i > j) && (a >= b) == (i >= j) && (a != b) == (i != j),
                "iterators");
          typename tb::circular_deque<T>::const_iterator ci = a;
          PBT_T(*ci == m[i] && *(ci + (static_cast<ptrdiff_t>(j) - static_cast<ptrdiff_t>(i))) == m[j] &&
                    a[static_cast<ptrdiff_t>(j) - static_cast<ptrdiff_t>(i)] == m[j],
                "iterators");
          auto e = d.end();
          e -= n - i;
          PBT_T(e == a && *e == m[i], "iterators");
          if (i + 1 < n) {
            auto s = a++;
            PBT_T(*s == m[i] && *a == m[i + 1] && *--a == m[i] && *a-- == m[i], "iterators");
          }
          std::swap(d[i], d[j]);
          std::swap(m[i], m[j]);
          if (r.Bool()) {
            std::sort(d.begin(), d.end());
            std::sort(m.begin(), m.end());
          }
        }
      }
      PBT_TM(p.Same(), "content", "after operation " << op);
      PBT_TM(q.Same(), "other content", "after operation " << op);
      if (!p.m.empty()) wrapped |= &p.d.front() > &p.d.back();
      largest = std::max(largest, p.m.size());
    }
  }
  c.LabelIf(wrapped, "wrapped around");
  c.LabelIf(largest >= 8, "eight elements");
  if (std::is_same_v<T, El>) {
    PBT_T(!El::Wrong(), "lifetimes");
    PBT_T(El::Living().size() == before, "leak");
  }
}

void Stack(Case& c) {
  Rng r = c.Bulk();
  tb::stack<std::string> s;
  std::vector<std::string> m;
  size_t ops = c.Size(1, 60);
  c.Nontrivial(ops >= 4);
  for (size_t k = 0; k < ops; ++k) {
    if (c.Draw(2)) {
      std::string v = Make<std::string>(r);
      if (r.Bool()) s.push(v); else s.emplace(v);
      m.push_back(v);
    } else if (!m.empty()) {
      s.pop();
      m.pop_back();
    }
    PBT_T(s.size() == m.size() && s.empty() == m.empty(), "size");
    if (!m.empty()) PBT_T(s.top() == m.back(), "top");
  }
}

template <typename C>
void EraseFrom(Case& c, const std::vector<int>& v, int gone) {
  C con(v.begin(), v.end()), con2 = con;
  std::vector<int> want, got;
  C want_con(v.begin(), v.end());
  for (int x : want_con)
    if (x != gone) want.push_back(x);
  size_t n = std::distance(want_con.begin(), want_con.end()) - want.size();
  PBT_T(tb::Erase(con, gone) == n, "count");
  for (int x : con) got.push_back(x);
  PBT_T(got == want, "content");
  PBT_T(tb::EraseIf(con2, [gone](int x) { return x == gone; }) == n, "count");
  PBT_T(con2 == con, "content");
  int calls = 0;
  tb::EraseIf(con2, [&calls](int) { return (++calls, true); });
  PBT_T(con2.empty(), "all");
}

template <typename C>
void EraseFromSet(Case& c, const std::vector<int>& v, int gone) {
  C con(v.begin(), v.end()), want;
  for (int x : v)
    if (x % 3 != gone % 3) want.insert(x);
  size_t n = con.size() - want.size();
  PBT_T(tb::Contains(con, gone) == (con.count(gone) > 0), "contains");
  PBT_T(tb::EraseIf(con, [gone](int x) { return x % 3 == gone % 3; }) == n, "count");
  PBT_T(con == want, "content");
}

template <typename C>
void EraseFromMap(Case& c, const std::vector<int>& v, int gone) {
  C con, want;
  for (size_t i = 0; i < v.size(); ++i) con.insert({v[i], static_cast<int>(i)});
  for (auto& x : con)
    if (x.second % 3 != gone % 3 && x.first != gone) want.insert(x);
  size_t n = con.size() - want.size();
  PBT_T(tb::Contains(con, gone) == (con.count(gone) > 0), "contains");
  PBT_T(tb::EraseIf(con, [gone](const auto& x) {
          return x.second % 3 == gone % 3 || x.first == gone;
        }) == n, "count");
  PBT_T(con == want, "content");
}

void Erasure(Case& c) {
  Rng r = c.Bulk();
  std::vector<int> v(c.Size(0, 12));
  for (int& x : v) x = static_cast<int>(r.Upto(4));
  int gone = static_cast<int>(r.Upto(5));
  c.Note(gone, " from ", v.size());
  c.Nontrivial(v.size() > 1);
  switch (c.Draw(5)) {
    case 0: EraseFrom<std::vector<int>>(c, v, gone); break;
    case 1: EraseFrom<std::deque<int>>(c, v, gone); break;
    case 2: EraseFrom<std::list<int>>(c, v, gone); break;
    case 3: EraseFrom<std::forward_list<int>>(c, v, gone); break;
    case 4:
      EraseFromSet<std::set<int>>(c, v, gone);
      EraseFromSet<std::multiset<int>>(c, v, gone);
      EraseFromSet<std::unordered_set<int>>(c, v, gone);
      EraseFromSet<std::unordered_multiset<int>>(c, v, gone);
      break;
    default:
      EraseFromMap<std::map<int, int>>(c, v, gone);
      EraseFromMap<std::multimap<int, int>>(c, v, gone);
      EraseFromMap<std::unordered_map<int, int>>(c, v, gone);
      EraseFromMap<std::unordered_multimap<int, int>>(c, v, gone);
      break;
  }
  std::string s;
  for (int x : v) s += static_cast<char>('a' + x);
  char ch = static_cast<char>('a' + gone);
  PBT_T(tb::Contains(s, ch) == (s.find(ch) != s.npos), "contains");
  PBT_T(tb::Contains(v, gone) == (std::count(v.begin(), v.end(), gone) > 0), "contains");
  PBT_T(tb::Contains(v, gone + 1, [](int x) { return x + 1; }) ==
            (std::count(v.begin(), v.end(), gone) > 0), "contains");
  std::string t;
  for (char x : s) if (x != ch) t += x;
  size_t n = s.size() - t.size();
  std::string s2 = s;
  PBT_T(tb::Erase(s, ch) == n && s == t, "string");
  PBT_T(tb::EraseIf(s2, [ch](char x) { return x == ch; }) == n && s2 == t, "string");
}

void RegisterAll() {
  pbt::Register("deque.int", 20000, 400000, History<int>);
  pbt::Register("deque.string", 20000, 400000, History<std::string>);
  pbt::Register("deque.tracked", 20000, 400000, History<El>);
  pbt::Register("stack", 5000, 100000, Stack);
  pbt::Register("erasure", 20000, 400000, Erasure);
}

PBT_INIT(RegisterAll);

}  // namespace

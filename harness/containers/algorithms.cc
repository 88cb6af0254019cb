// The algorithms on ranges, with projections, against the standard ones.
#include "tachyon/base/ranges/algorithm.h"

#include <algorithm>
#include <numeric>
#include <random>
#include <vector>

#include "verif/pbt/pbt.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tr = tachyon::base::ranges;

struct Item {
  int key;
  int id;
  bool operator==(const Item& o) const { return key == o.key && id == o.id; }
};
using Items = std::vector<Item>;

Items Any(Rng& r, size_t n, int top) {
  Items v(n);
  for (size_t i = 0; i < n; ++i) v[i] = {static_cast<int>(r.Upto(top)), static_cast<int>(i)};
  return v;
}
bool Less(const Item& a, const Item& b) { return a.key < b.key; }
bool More(const Item& a, const Item& b) { return a.key > b.key; }
bool Same(const Item& a, const Item& b) { return a.key == b.key; }
const auto kKey = &Item::key;
const auto kLess = std::less<>();
const auto kMore = std::greater<>();

#define SAME(a, b, tag) PBT_T((a) == (b), tag)

void Search(Case& c) {
  Rng r = c.Bulk();
  int top = r.Bool() ? 1 : 5;
  Items v = Any(r, c.Size(0, 12), top), w = Any(r, c.Draw(r.Bool() ? 2 : 12), top);
  int x = static_cast<int>(r.Upto(top));
  c.Note(v.size(), " and ", w.size());
  c.Nontrivial(v.size() >= 2);
  auto is = [x](int k) { return k == x; };
  auto item_is = [x](const Item& i) { return i.key == x; };
  auto b = v.begin(), e = v.end();
  SAME(tr::all_of(v, is, kKey), std::all_of(b, e, item_is), "all_of");
  SAME(tr::any_of(v, is, kKey), std::any_of(b, e, item_is), "any_of");
  SAME(tr::none_of(v, is, kKey), std::none_of(b, e, item_is), "none_of");
  std::vector<int> seen, keys;
  for (auto& i : v) keys.push_back(i.key);
  tr::for_each(v, [&seen](int k) { seen.push_back(k); }, kKey);
  SAME(seen, keys, "for_each");
  SAME(tr::find(v, x, kKey), std::find_if(b, e, item_is), "find");
  SAME(tr::find(b, e, x, kKey), std::find_if(b, e, item_is), "find");
  SAME(tr::find_if(v, is, kKey), std::find_if(b, e, item_is), "find_if");
  SAME(tr::find_if_not(v, is, kKey), std::find_if_not(b, e, item_is), "find_if_not");
  auto eq = std::equal_to<>();
  auto wb = w.begin(), we = w.end();
  SAME(tr::find_end(v, w, eq, kKey, kKey), std::find_end(b, e, wb, we, Same), "find_end");
  SAME(tr::find_first_of(v, w, eq, kKey, kKey), std::find_first_of(b, e, wb, we, Same), "find_first_of");
  SAME(tr::search(v, w, eq, kKey, kKey), std::search(b, e, wb, we, Same), "search");
  size_t n = r.Upto(3);
  SAME(tr::search_n(v, n, x, eq, kKey), std::search_n(b, e, n, Item{x, 0}, Same), "search_n");
  SAME(tr::adjacent_find(v, eq, kKey), std::adjacent_find(b, e, Same), "adjacent_find");
  SAME(tr::adjacent_find(v, kMore, kKey), std::adjacent_find(b, e, More), "adjacent_find");
  SAME(tr::count(v, x, kKey), std::count_if(b, e, item_is), "count");
  SAME(tr::count_if(v, is, kKey), std::count_if(b, e, item_is), "count_if");
  SAME(tr::mismatch(v, w, eq, kKey, kKey), std::mismatch(b, e, wb, we, Same), "mismatch");
  SAME(tr::equal(v, w, eq, kKey, kKey), std::equal(b, e, wb, we, Same), "equal");
  Items u = v;
  std::shuffle(u.begin(), u.end(), std::minstd_rand(static_cast<unsigned>(r.Next())));
  if (r.Bool() && !u.empty()) u[r.Upto(u.size() - 1)].key = x;
  SAME(tr::is_permutation(v, u, eq, kKey, kKey), std::is_permutation(b, e, u.begin(), u.end(), Same), "is_permutation");
  SAME(tr::lexicographical_compare(v, w, kLess, kKey, kKey), std::lexicographical_compare(b, e, wb, we, Less), "lexicographical_compare");
  SAME(tr::lexicographical_compare(v, w, kMore, kKey, kKey), std::lexicographical_compare(b, e, wb, we, More), "lexicographical_compare");
  SAME(tr::is_partitioned(v, is, kKey), std::is_partitioned(b, e, item_is), "is_partitioned");
  SAME(tr::is_sorted(v, kLess, kKey), std::is_sorted(b, e, Less), "is_sorted");
  SAME(tr::is_sorted(v, kMore, kKey), std::is_sorted(b, e, More), "is_sorted");
  SAME(tr::is_sorted_until(v, kLess, kKey), std::is_sorted_until(b, e, Less), "is_sorted_until");
  SAME(tr::is_heap(v, kLess, kKey), std::is_heap(b, e, Less), "is_heap");
  SAME(tr::is_heap_until(v, kLess, kKey), std::is_heap_until(b, e, Less), "is_heap_until");
  SAME(tr::min_element(v, kLess, kKey), std::min_element(b, e, Less), "min_element");
  SAME(tr::max_element(v, kLess, kKey), std::max_element(b, e, Less), "max_element");
  SAME(tr::minmax_element(v, kLess, kKey), std::minmax_element(b, e, Less), "minmax_element");
  Item p{static_cast<int>(r.Upto(5)), 100}, q{static_cast<int>(r.Upto(5)), 101}, s{static_cast<int>(r.Upto(5)), 102};
  SAME(tr::min(p, q, kLess, kKey), std::min(p, q, Less), "min");
  SAME(tr::max(p, q, kLess, kKey), std::max(p, q, Less), "max");
  SAME(tr::minmax(p, q, kLess, kKey).first, std::minmax(p, q, Less).first, "minmax");
  SAME(tr::minmax(p, q, kLess, kKey).second, std::minmax(p, q, Less).second, "minmax");
  if (p.key > q.key) std::swap(p, q);
  SAME(tr::clamp(s, p, q, kLess, kKey), std::clamp(s, p, q, Less), "clamp");
  if (!v.empty()) {
    SAME(tr::min(v, kLess, kKey), *std::min_element(b, e, Less), "min");
    SAME(tr::max(v, kLess, kKey), *std::max_element(b, e, Less), "max");
  }
}

void Sorted(Case& c) {
  Rng r = c.Bulk();
  int top = r.Bool() ? 3 : 20;
  Items v = Any(r, c.Size(0, 14), top), w = Any(r, c.Draw(14), top);
  for (auto& i : w) i.id += 100;
  bool down = c.Draw(1);
  auto cmp = down ? More : Less;
  auto order = [down](int a, int b) { return down ? a > b : a < b; };
  c.Note(v.size(), " and ", w.size());
  c.Nontrivial(v.size() >= 2);
  Items got = v, want = v;
  tr::stable_sort(got, order, kKey);
  std::stable_sort(want.begin(), want.end(), cmp);
  SAME(got, want, "stable_sort");
  Items s = want;
  got = v;
  tr::sort(got, order, kKey);
  PBT_T(std::is_sorted(got.begin(), got.end(), cmp), "sort");
  PBT_T(std::is_permutation(got.begin(), got.end(), v.begin()), "sort");
  auto keys = [](const Items& i) {
    std::vector<int> k;
    for (auto& x : i) k.push_back(x.key);
    return k;
  };
  if (!v.empty()) {
    size_t at = r.Upto(v.size());
    got = v;
    tr::partial_sort(got, got.begin() + at, order, kKey);
    PBT_T(std::is_permutation(got.begin(), got.end(), v.begin()), "partial_sort");
    for (size_t i = 0; i < at; ++i) PBT_T(got[i].key == s[i].key, "partial_sort");
    got = v;
    tr::nth_element(got, got.begin() + at, order, kKey);
    PBT_T(std::is_permutation(got.begin(), got.end(), v.begin()), "nth_element");
    if (at < v.size()) PBT_T(got[at].key == s[at].key, "nth_element");
  }
  Items out(r.Upto(16), Item{-1, -1}), out2 = out;
  auto end = tr::partial_sort_copy(v, out, order, kKey, kKey);
  auto end2 = std::partial_sort_copy(v.begin(), v.end(), out2.begin(), out2.end(), cmp);
  SAME(end - out.begin(), end2 - out2.begin(), "partial_sort_copy");
  SAME(keys(out), keys(out2), "partial_sort_copy");
  int x = static_cast<int>(r.Upto(top));
  Item ix{x, 0};
  SAME(tr::lower_bound(s, x, order, kKey), std::lower_bound(s.begin(), s.end(), ix, cmp), "lower_bound");
  SAME(tr::upper_bound(s, x, order, kKey), std::upper_bound(s.begin(), s.end(), ix, cmp), "upper_bound");
  SAME(tr::equal_range(s, x, order, kKey), std::equal_range(s.begin(), s.end(), ix, cmp), "equal_range");
  SAME(tr::binary_search(s, x, order, kKey), std::binary_search(s.begin(), s.end(), ix, cmp), "binary_search");
  std::stable_sort(w.begin(), w.end(), cmp);
  auto two = [&](auto mine, auto standard, const char* tag) {
    Items a, b;
    mine(a);
    standard(b);
    PBT_T(a == b, tag);
  };
  auto sb = s.begin(), se = s.end(), wb = w.begin(), we = w.end();
#define TWO(name)                                                                                \
  two([&](Items& o) { tr::name(s, w, std::back_inserter(o), order, kKey, kKey); },               \
      [&](Items& o) { std::name(sb, se, wb, we, std::back_inserter(o), cmp); }, #name)
  TWO(merge);
  TWO(set_union);
  TWO(set_intersection);
  TWO(set_difference);
  TWO(set_symmetric_difference);
  SAME(tr::includes(s, w, order, kKey, kKey), std::includes(sb, se, wb, we, cmp), "includes");
  Items both = s;
  both.insert(both.end(), w.begin(), w.end());
  Items both2 = both;
  tr::inplace_merge(both, both.begin() + s.size(), order, kKey);
  std::inplace_merge(both2.begin(), both2.begin() + s.size(), both2.end(), cmp);
  SAME(both, both2, "inplace_merge");
  auto is = [x, down](int k) { return down ? k > x : k < x; };
  SAME(tr::partition_point(s, is, kKey), std::partition_point(sb, se, [&](const Item& i) { return is(i.key); }), "partition_point");
  // Heaps.
  got = v;
  tr::make_heap(got, order, kKey);
  PBT_T(std::is_heap(got.begin(), got.end(), cmp) && std::is_permutation(got.begin(), got.end(), v.begin()), "make_heap");
  if (!got.empty()) {
    tr::pop_heap(got, order, kKey);
    PBT_T(got.back().key == s.back().key && std::is_heap(got.begin(), got.end() - 1, cmp), "pop_heap");
    tr::push_heap(got, order, kKey);
    PBT_T(std::is_heap(got.begin(), got.end(), cmp), "push_heap");
  }
  tr::sort_heap(got, order, kKey);
  SAME(keys(got), keys(s), "sort_heap");
  got = want = v;
  bool a = tr::next_permutation(got, order, kKey), b = std::next_permutation(want.begin(), want.end(), cmp);
  PBT_T(a == b && got == want, "next_permutation");
  a = tr::prev_permutation(got, order, kKey), b = std::prev_permutation(want.begin(), want.end(), cmp);
  PBT_T(a == b && got == want, "prev_permutation");
}

void Change(Case& c) {
  Rng r = c.Bulk();
  int top = r.Bool() ? 2 : 6;
  Items v = Any(r, c.Size(0, 14), top);
  size_t n = v.size();
  int x = static_cast<int>(r.Upto(top));
  c.Note(x, " in ", n);
  c.Nontrivial(n >= 2);
  auto is = [x](int k) { return k == x; };
  auto item_is = [x](const Item& i) { return i.key == x; };
  auto eq = std::equal_to<>();
  Item put{77, 78};
  Items got, want;
#define OUT(mine, standard, tag) \
  got.clear(), want.clear();     \
  mine;                          \
  standard;                      \
  SAME(got, want, tag)
  auto g = std::back_inserter(got), w = std::back_inserter(want);
  auto b = v.begin(), e = v.end();
  OUT(tr::copy(v, g), std::copy(b, e, w), "copy");
  OUT(tr::copy_if(v, g, is, kKey), std::copy_if(b, e, w, item_is), "copy_if");
  OUT(tr::copy_n(b, n / 2, g), std::copy_n(b, n / 2, w), "copy_n");
  Item old = n ? v[r.Upto(n - 1)] : put;
  OUT(tr::replace_copy(v, g, old, put), std::replace_copy(b, e, w, old, put), "replace_copy");
  OUT(tr::replace_copy_if(v, g, is, put, kKey), std::replace_copy_if(b, e, w, item_is, put), "replace_copy_if");
  OUT(tr::remove_copy(v, g, x, kKey), std::remove_copy_if(b, e, w, item_is), "remove_copy");
  OUT(tr::remove_copy_if(v, g, is, kKey), std::remove_copy_if(b, e, w, item_is), "remove_copy_if");
  OUT(tr::unique_copy(v, g, eq, kKey), std::unique_copy(b, e, w, Same), "unique_copy");
  OUT(tr::reverse_copy(v, g), std::reverse_copy(b, e, w), "reverse_copy");
  size_t mid = r.Upto(n);
  OUT(tr::rotate_copy(v, b + mid, g), std::rotate_copy(b, b + mid, e, w), "rotate_copy");
  OUT(tr::transform(v, g, [](int k) { return Item{k * 2, k}; }, kKey),
      std::transform(b, e, w, [](const Item& i) { return Item{i.key * 2, i.key}; }), "transform");
  Items u = Any(r, n, 9);
  OUT(tr::transform(v, u, g, [](int k, int l) { return Item{k, l}; }, kKey, kKey),
      std::transform(b, e, u.begin(), w, [](const Item& i, const Item& j) { return Item{i.key, j.key}; }), "transform two");
  Items yes, no, yes2, no2;
  tr::partition_copy(v, std::back_inserter(yes), std::back_inserter(no), is, kKey);
  std::partition_copy(b, e, std::back_inserter(yes2), std::back_inserter(no2), item_is);
  PBT_T(yes == yes2 && no == no2, "partition_copy");
#define IN(mine, standard, tag)                                  \
  got = want = v;                                                \
  {                                                              \
    mine;                                                        \
    auto b = want.begin(), e = want.end();                       \
    standard;                                                    \
  }                                                              \
  SAME(got, want, tag)
  auto cut = [&](auto it) { got.erase(it, got.end()); };
  auto cut2 = [&](auto it) { want.erase(it, want.end()); };
  IN(tr::replace(got, old, put), std::replace(b, e, old, put), "replace");
  IN(tr::replace_if(got, is, put, kKey), std::replace_if(b, e, item_is, put), "replace_if");
  IN(tr::fill(got, put), std::fill(b, e, put), "fill");
  IN(tr::fill_n(got.begin(), n / 2, put), std::fill_n(b, n / 2, put), "fill_n");
  int k = 0, k2 = 0;
  IN(tr::generate(got, [&k]() { return Item{k++, 1}; }), std::generate(b, e, [&k2]() { return Item{k2++, 1}; }), "generate");
  IN(tr::generate_n(got.begin(), n / 2, [&k]() { return Item{k++, 1}; }), std::generate_n(b, n / 2, [&k2]() { return Item{k2++, 1}; }), "generate_n");
  IN(cut(tr::remove(got, x, kKey)), cut2(std::remove_if(b, e, item_is)), "remove");
  IN(cut(tr::remove_if(got, is, kKey)), cut2(std::remove_if(b, e, item_is)), "remove_if");
  IN(cut(tr::unique(got, eq, kKey)), cut2(std::unique(b, e, Same)), "unique");
  IN(tr::reverse(got), std::reverse(b, e), "reverse");
  IN(tr::rotate(got, got.begin() + mid), std::rotate(b, b + mid, e), "rotate");
  IN(tr::stable_partition(got, is, kKey), std::stable_partition(b, e, item_is), "stable_partition");
  got = v;
  auto point = tr::partition(got, is, kKey);
  PBT_T(std::is_partitioned(got.begin(), got.end(), item_is) &&
            point == std::partition_point(got.begin(), got.end(), item_is) &&
            std::is_permutation(got.begin(), got.end(), v.begin()), "partition");
  IN(tr::transform(got, got.begin(), [](int k) { return Item{k + 1, 0}; }, kKey),
     std::transform(b, e, b, [](const Item& i) { return Item{i.key + 1, 0}; }), "transform");
  got = want = v;
  Items u2 = u;
  tr::swap_ranges(got, u);
  PBT_T(got == u2 && u == v, "swap_ranges");
  Items room(n + 3, put), room2 = room;
  tr::copy_backward(v, room.end());
  std::copy_backward(b, e, room2.end());
  SAME(room, room2, "copy_backward");
  room.assign(n + 3, put);
  tr::move_backward(v, room.end());
  SAME(room, room2, "move_backward");
  room.assign(n + 3, put), room2.assign(n + 3, put);
  tr::move(v, room.begin());
  std::copy(b, e, room2.begin());
  SAME(room, room2, "move");
  got = v;
  tr::shuffle(got, std::minstd_rand(static_cast<unsigned>(r.Next())));
  PBT_T(std::is_permutation(got.begin(), got.end(), v.begin()), "shuffle");
}

void RegisterAll() {
  pbt::Register("ranges.search", 20000, 400000, Search);
  pbt::Register("ranges.sorted", 20000, 400000, Sorted);
  pbt::Register("ranges.change", 20000, 400000, Change);
}

PBT_INIT(RegisterAll);

}  // namespace

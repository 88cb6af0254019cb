// Work split over threads.
#include <atomic>
#include <string>
#include <vector>

#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/parallelize.h"

#include "verif/pbt/pbt.h"

namespace {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;
using V = std::vector<int>;

// What every call was given.
struct Calls {
  explicit Calls(size_t n) : of(n), begin(n), size(n) {
    for (size_t i = 0; i < n; ++i) of[i] = 0;
  }
  std::vector<std::atomic<int>> of;
  std::vector<size_t> begin, size;
  std::atomic<bool> wrong{false};

  void Got(size_t i, size_t from, size_t n) {
    if (i >= of.size()) {
      wrong = true;
      return;
    }
    ++of[i];
    begin[i] = from;
    size[i] = n;
  }
  // Were n elements given once each, in order, in chunks of |chunk| but for the last?
  bool Right(size_t n, size_t chunk) const {
    if (wrong) return false;
    size_t at = 0;
    for (size_t i = 0; i < of.size(); ++i) {
      size_t want = at < n ? std::min(chunk, n - at) : 0;
      if (of[i] != (want > 0 ? 1 : 0)) return false;
      if (want && (begin[i] != at || size[i] != want)) return false;
      at += want;
    }
    return at == n;
  }
};

void ByChunk(Case& c) {
  Rng r = c.Bulk();
  size_t n = c.Size(0, 60);
  size_t chunk = c.Draw(r.Bool() ? 8 : 70);
  c.Note(n, " by ", chunk);
  c.Nontrivial(n >= 2 && chunk);
  c.LabelIf(chunk && n % chunk, "a shorter chunk");
  V v(n);
  for (size_t i = 0; i < n; ++i) v[i] = static_cast<int>(r.Upto(1000));
  const V was = v;
  bool dynamic = c.Draw(1);
  std::atomic<bool> wrong{false};
  Calls calls(n + 2), sizes(n + 2);
  auto span = [&](absl::Span<int> s, size_t i, size_t chunk_size) {
    if (chunk_size != chunk) wrong = true;
    calls.Got(i, s.data() - v.data(), s.size());
    for (int& x : s) x += 1;
  };
  auto by_size = [&](size_t len, size_t i, size_t chunk_size) {
    if (chunk_size != chunk) wrong = true;
    sizes.Got(i, i * chunk_size, len);
  };
  if (dynamic) {
    tb::DynamicParallelizeByChunkSize(v, chunk, span);
    tb::DynamicParallelizeByChunkSize(n, chunk, by_size);
  } else {
    tb::ParallelizeByChunkSize(v, chunk, span);
    tb::ParallelizeByChunkSize(n, chunk, by_size);
  }
  size_t seen = chunk ? n : 0;
  PBT_T(!wrong, "chunk size");
  PBT_T(calls.Right(seen, chunk), "chunks");
  PBT_T(sizes.Right(seen, chunk), "sizes");
  for (size_t i = 0; i < n; ++i) PBT_T(v[i] == was[i] + (chunk ? 1 : 0), "written once");
  if (dynamic) {
    tb::DynamicParallelizeByChunkSize(v, chunk, [](absl::Span<int> s) { for (int& x : s) x *= 2; });
    tb::DynamicParallelizeByChunkSize(v, chunk, [](absl::Span<int> s, size_t i) { for (int& x : s) x += static_cast<int>(i); });
  } else {
    tb::ParallelizeByChunkSize(v, chunk, [](absl::Span<int> s) { for (int& x : s) x *= 2; });
    tb::ParallelizeByChunkSize(v, chunk, [](absl::Span<int> s, size_t i) { for (int& x : s) x += static_cast<int>(i); });
  }
  for (size_t i = 0; i < n && chunk; ++i)
    PBT_T(v[i] == (was[i] + 1) * 2 + static_cast<int>(i / chunk), "written once");
  // Maps.
  std::vector<size_t> starts, lens, indices;
  for (size_t at = 0; at < seen; at += chunk) {
    indices.push_back(starts.size());
    starts.push_back(at);
    lens.push_back(std::min(chunk, n - at));
  }
  const V& con = v;
  PBT_T(tb::ParallelizeMapByChunkSize(con, chunk, [&](absl::Span<const int> s) { return static_cast<size_t>(s.data() - con.data()); }) == starts, "map");
  PBT_T(tb::ParallelizeMapByChunkSize(v, chunk, [](absl::Span<int> s, size_t i) { return i; }) == indices, "map");
  PBT_T(tb::ParallelizeMapByChunkSize(v, chunk, [](absl::Span<int> s, size_t i, size_t size) { return i * size; }) == starts, "map");
  PBT_T(tb::ParallelizeMapByChunkSize(n, chunk, [](size_t len) { return len; }) == lens, "map of sizes");
  PBT_T(tb::ParallelizeMapByChunkSize(n, chunk, [](size_t len, size_t i) { return i; }) == indices, "map of sizes");
  PBT_T(tb::ParallelizeMapByChunkSize(n, chunk, [](size_t len, size_t i, size_t size) { return i * size; }) == starts, "map of sizes");
}

void ByThread(Case& c) {
  Rng r = c.Bulk();
  size_t n = c.Size(0, 100);
  std::optional<size_t> threshold;
  if (c.Draw(1)) threshold = r.Upto(120);
  c.Note(n, " threshold ", threshold ? static_cast<int>(*threshold) : -1);
  c.Nontrivial(n >= 2);
  V v(n);
  for (size_t i = 0; i < n; ++i) v[i] = static_cast<int>(r.Upto(1000));
  const V was = v;
  std::atomic<size_t> chunk{0}, chunk2{0};
  Calls calls(n + 2), sizes(n + 2);
  tb::Parallelize(v, [&](absl::Span<int> s, size_t i, size_t chunk_size) {
    chunk = chunk_size;
    calls.Got(i, s.data() - v.data(), s.size());
    for (int& x : s) x += 1;
  }, threshold);
  tb::Parallelize(n, [&](size_t len, size_t i, size_t chunk_size) {
    chunk2 = chunk_size;
    sizes.Got(i, i * chunk_size, len);
  }, threshold);
  PBT_T(calls.Right(n, chunk), "chunks");
  PBT_T(sizes.Right(n, chunk2), "sizes");
  for (size_t i = 0; i < n; ++i) PBT_T(v[i] == was[i] + 1, "written once");
  long sum = 0, got = 0;
  for (int x : v) sum += x;
  for (long s : tb::ParallelizeMap(v, [](absl::Span<int> s) {
         long t = 0;
         for (int x : s) t += x;
         return t;
       }, threshold)) got += s;
  PBT_T(sum == got, "sum");
  size_t total = 0;
  for (size_t s : tb::ParallelizeMap(n, [](size_t len) { return len; }, threshold)) total += s;
  PBT_T(total == n, "sizes");
  // Filled and resized.
  V filled = v;
  if (r.Bool()) filled.reserve(r.Upto(150));
  tb::ParallelizeFill(filled, 5, threshold);
  PBT_T(filled == V(n, 5), "filled");
  size_t to = r.Upto(3) ? r.Upto(150) : n;
  V resized = v, want = v;
  if (r.Bool()) resized.reserve(r.Upto(200));
  if (r.Bool()) {
    tb::ParallelizeResize(resized, to, threshold);
    want.resize(to);
    PBT_TM(resized == want, "resized", "to " << to);
  } else {
    tb::ParallelizeResize(resized, to, 9, threshold);
    want.resize(to, 9);
    PBT_TM(resized == want, "resized with a value", "to " << to);
  }
  std::vector<std::string> s(n), ws;
  for (auto& x : s) x = std::string(r.Upto(30), 'x');
  ws = s;
  tb::ParallelizeResize(s, to, threshold);
  ws.resize(to);
  PBT_TM(s == ws, "resized strings", "to " << to);
  PBT_T(tb::CreateVectorParallel(n, [](size_t i) { return i * i; }) == tb::CreateVector(n, [](size_t i) { return i * i; }), "created");
}

void RegisterAll() {
  pbt::Register("parallel.by_chunk", 5000, 100000, ByChunk);
  pbt::Register("parallel.by_thread", 5000, 100000, ByThread);
}

PBT_INIT(RegisterAll);

}  // namespace

// C29: the same computation under different numbers of threads.
#ifndef VERIF_THREADS_THREADS_H_
#define VERIF_THREADS_THREADS_H_

#if defined(TACHYON_HAS_OPENMP)
#include <omp.h>
#endif

#include <vector>

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace threads {

inline void Use(int n) {
#if defined(TACHYON_HAS_OPENMP)
  omp_set_num_threads(n);
#else
  (void)n;
#endif
}

// The numbers of threads this case uses besides one.
inline std::vector<int> Counts(pbt::Case& c) {
  static const int kCounts[] = {2, 3, 4, 5, 6, 7, 8, 11, 16};
  std::vector<int> v;
  v.push_back(kCounts[c.Draw(8)]);
  if (c.Bool()) v.push_back(kCounts[c.Draw(8)]);
  return v;
}

// Runs |fn| with one thread, then with others: the results must be the same.
template <typename Fn>
auto Same(pbt::Case& c, const std::vector<int>& counts, const char* tag, Fn fn) {
  Use(1);
  auto want = fn();
  for (int n : counts) {
    Use(n);
    auto got = fn();
    PBT_TM(got == want, tag, "with " << n << " threads");
  }
  Use(1);
  return want;
}

// Small sizes, sizes around powers of two and multiples of thread counts, and
// sizes with many chunks.
inline size_t AnyN(pbt::Case& c, size_t most) {
  size_t n;
  switch (c.Draw(4)) {
    case 0: n = c.Draw(20); break;
    case 1: n = (size_t{1} << c.Draw(10)) - 1 + c.Draw(2); break;
    case 2: n = (1 + c.Draw(40)) * (1 + c.Draw(16)); break;
    case 3: n = c.Draw(300); break;
    default: n = c.Draw(2000); break;
  }
  return n > most ? n % (most + 1) : n;
}

}  // namespace threads

#endif  // VERIF_THREADS_THREADS_H_

#ifndef VERIF_MERKLE_TOY_H_
#define VERIF_MERKLE_TOY_H_

#include <array>
#include <cstddef>

namespace pbt {

// Cheap algebraic stand-ins for the hasher and the compressor. The length is
// hashed too.
template <typename F, size_t N>
struct ToyHasher {
  template <typename T>
  std::array<F, N> Hash(const T& in) const {
    std::array<F, N> s;
    F len = F::Zero();
    for (size_t i = 0; i < N; ++i) s[i] = F(3 + i);
    for (const F& x : in) {
      len += F::One();
      for (size_t i = 0; i < N; ++i) {
        s[i] = s[i] * s[i] * F(5) + s[(i + 1) % N] * F(7) + x + len;
      }
    }
    for (size_t i = 0; i < N; ++i) s[i] = s[i] * s[i] + s[i] + len;
    return s;
  }
};
template <typename F, size_t N>
struct ToyCompressor {
  template <typename T>
  std::array<F, N> Compress(const T& in) const {
    std::array<F, N> s;
    for (size_t i = 0; i < N; ++i) {
      F a = in[0][i] + F(11), b = in[1][(i + 1) % N] * F(13);
      s[i] = a * a * a + b * a + in[1][i] * in[1][i] * F(17) + b + F(i);
    }
    return s;
  }
};

}  // namespace pbt

#endif  // VERIF_MERKLE_TOY_H_

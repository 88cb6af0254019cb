// Reference models of the sponges and the checks every instance shares.
#ifndef VERIF_HARNESS_SPONGE_SPONGE_H_
#define VERIF_HARNESS_SPONGE_SPONGE_H_

#include <stdint.h>

#include <array>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/types/span.h"

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/sponge_state.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/finite_fields/finite_field_traits.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace sponge {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;
namespace tc = tachyon::crypto;

template <typename F>
using Vec = std::vector<F>;
template <typename F>
using Mat = std::vector<std::vector<F>>;

// The generator of Appendix E of the Poseidon paper (prime field, x^alpha).
template <typename F>
class Grain {
 public:
  Grain(unsigned n, unsigned t, unsigned rf, unsigned rp) : n_(n) {
    Put(1, 2), Put(0, 4), Put(n, 12), Put(t, 12), Put(rf, 10), Put(rp, 10);
    Put((1u << 30) - 1, 30);
    for (int i = 0; i < 160; ++i) Step();
  }
  mpz_class Bits() {
    mpz_class r = 0;
    for (unsigned i = 0; i < n_; ++i) {
      while (!Step()) Step();
      r = 2 * r + Step();
    }
    return r;
  }
  F Sample() {  // by rejection
    mpz_class p = Modulus<F>(), v;
    do v = Bits();
    while (v >= p);
    return FieldFromMpz<F>(v);
  }
  F Reduced() { return FieldFromMpz<F>(Bits() % Modulus<F>()); }

 private:
  void Put(unsigned v, int bits) {
    for (int i = bits - 1; i >= 0; --i) b_.push_back((v >> i) & 1);
  }
  int Step() {
    size_t k = b_.size() - 80;
    int v = b_[k + 62] ^ b_[k + 51] ^ b_[k + 38] ^ b_[k + 23] ^ b_[k + 13] ^ b_[k];
    b_.push_back(v);
    return v;
  }
  unsigned n_;
  std::vector<uint8_t> b_;
};

template <typename F>
Vec<F> MulMV(const Mat<F>& m, const Vec<F>& v) {
  Vec<F> r(m.size(), F::Zero());
  for (size_t i = 0; i < m.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) r[i] += m[i][j] * v[j];
  return r;
}

template <typename F>
bool Invertible(Mat<F> m) {
  size_t n = m.size();
  for (size_t i = 0; i < n; ++i) {
    size_t p = i;
    while (p < n && m[p][i] == F::Zero()) ++p;
    if (p == n) return false;
    std::swap(m[i], m[p]);
    F inv = *m[i][i].Inverse();
    for (size_t r = i + 1; r < n; ++r) {
      F f = m[r][i] * inv;
      for (size_t k = i; k < n; ++k) m[r][k] -= f * m[i][k];
    }
  }
  return true;
}

template <typename F>
F Sbox(F x, unsigned alpha) {
  F r = F::One();
  for (unsigned i = 0; i < alpha; ++i) r *= x;
  return r;
}

// Any permutation: rounds of constants, x^alpha and a matrix, the first
// rf / 2 and the last rf / 2 of them full.
template <typename F>
struct Rounds {
  unsigned alpha = 0, rf = 0, rp = 0;
  bool mix_first = false;
  Mat<F> ark, full, partial;

  Vec<F> Permute(Vec<F> s) const {
    if (mix_first) s = MulMV(full, s);
    for (unsigned r = 0; r < rf + rp; ++r) {
      bool is_full = r < rf / 2 || r >= rf / 2 + rp;
      for (size_t i = 0; i < s.size(); ++i)
        if (ark[r].size() > i) s[i] += ark[r][i];
      for (size_t i = 0; i < (is_full ? s.size() : 1); ++i) s[i] = Sbox(s[i], alpha);
      s = MulMV(is_full ? full : partial, s);
    }
    return s;
  }
  bool Bijective() const {
    mpz_class g, p1 = Modulus<F>() - 1;
    mpz_gcd_ui(g.get_mpz_t(), p1.get_mpz_t(), alpha);
    return g == 1 && Invertible(full) && Invertible(partial);
  }
};

// Lanes of a field, which has one unless it is packed.
template <typename F>
struct Lanes {
  using P = tm::MaybeUnpack<F>;
  static constexpr bool kPacked = tm::FiniteFieldTraits<F>::kIsPackedPrimeField;
  static size_t Count() {
    if constexpr (kPacked) {
      return F::N;
    } else {
      return 1;
    }
  }
  static P Get(const F& f, size_t i) {
    if constexpr (kPacked) {
      return f[i];
    } else {
      return f;
    }
  }
  static void Set(F* f, size_t i, const P& p) {
    if constexpr (kPacked) {
      (*f)[i] = p;
    } else {
      *f = p;
    }
  }
  static F Any(Case& c) {
    F r = F::Zero();
    if (kPacked && c.OneIn(3)) {
      Rng rng = c.Bulk();
      for (size_t i = 0; i < Count(); ++i) Set(&r, i, BulkPrimeField<P>(rng));
      return r;
    }
    for (size_t i = 0; i < Count(); ++i) Set(&r, i, AnyPrimeField<P>(c));
    return r;
  }
  static F Bulk(Rng& rng) {
    F r = F::Zero();
    for (size_t i = 0; i < Count(); ++i)
      Set(&r, i, rng.Upto(7) ? BulkPrimeField<P>(rng) : P::Zero());
    return r;
  }
};

// A sponge, its reference and what is checked of them.
template <typename Sponge>
struct Inst {
  using Params = typename Sponge::Params;
  using F = typename Params::Field;
  using L = Lanes<F>;
  using P = typename L::P;
  using State = tc::SpongeState<Params>;
  static constexpr size_t kW = Params::kWidth, kRate = Params::kRate;

  const Sponge& sp;
  const Rounds<P>& ref;

  using Elems = std::vector<F>;

  Elems RefPermute(const Elems& s) const {
    Elems r(kW, F::Zero());
    for (size_t l = 0; l < L::Count(); ++l) {
      Vec<P> v(kW);
      for (size_t i = 0; i < kW; ++i) v[i] = L::Get(s[i], l);
      v = ref.Permute(v);
      for (size_t i = 0; i < kW; ++i) L::Set(&r[i], l, v[i]);
    }
    return r;
  }
  static Elems Of(const State& s) {
    Elems r(kW);
    for (size_t i = 0; i < kW; ++i) r[i] = s[i];
    return r;
  }
  static std::string Str(const Elems& e) {
    std::string s;
    for (auto& x : e)
      for (size_t i = 0; i < L::Count(); ++i) s += L::Get(x, i).ToString() + " ";
    return s;
  }

  void Permute(Case& c) const {
    State s;
    int how = c.Draw(3);
    if (how == 0) {
      Rng rng = c.Bulk();
      for (size_t i = 0; i < kW; ++i) s[i] = L::Bulk(rng);
    } else if (how == 1) {  // zero but for an element
      s[c.Draw(kW - 1)] = L::Any(c);
    } else {
      for (size_t i = 0; i < kW; ++i) s[i] = L::Any(c);
    }
    c.Nontrivial(how != 1);
    Elems in = Of(s);
    if (c.verbose()) c.Note("state " + Str(in));
    int times = 1 + c.Draw(1);
    Elems want = in;
    for (int k = 0; k < times; ++k) {
      sp.Permute(s);
      want = RefPermute(want);
      PBT_T(Of(s) == want, "permute");
    }
    PBT_T(s.mode == tc::DuplexSpongeMode::Absorbing(), "mode");
    // a state that differs is permuted to one that differs
    State t;
    for (size_t i = 0; i < kW; ++i) t[i] = in[i];
    size_t k = c.Draw(kW - 1);
    F d = L::Any(c);
    t[k] += d;
    bool same = d == F::Zero();
    for (int i = 0; i < times; ++i) sp.Permute(t);
    PBT_T((Of(t) == Of(s)) == same, "injective");
  }

  // Per element, so that it cannot depend on how calls split the streams.
  struct Model {
    const Inst* o;
    Elems s = Elems(kW, F::Zero());
    bool absorbing = true;
    size_t at = 0;
    void Absorb(const F& f) {
      if (!absorbing || at == kRate) {
        s = o->RefPermute(s);
        at = 0;
        absorbing = true;
      }
      s[Params::kCapacity + at++] += f;
    }
    F Squeeze() {
      if (absorbing || at == kRate) {
        s = o->RefPermute(s);
        at = 0;
        absorbing = false;
      }
      return s[Params::kCapacity + at++];
    }
  };

  template <typename T>
  static T Copy(Case& c, const T& v) {
    tachyon::base::Uint8VectorBuffer b;
    PBT_T(b.Grow(tachyon::base::EstimateSize(v)), "grow");
    PBT_T(b.Write(v), "write");
    PBT_T(b.Done(), "estimated size");
    b.set_buffer_offset(0);
    T r;
    PBT_T(b.Read(&r), "read");
    PBT_T(b.Done(), "rest");
    return r;
  }

  static size_t Len(Case& c, size_t max) {
    switch (c.Draw(3)) {
      case 0:
        return 1 + c.Draw(kRate - 1 < max ? kRate - 1 : max - 1);
      case 1:
        return kRate <= max ? kRate : max;
      case 2:
        return 1 + c.Draw(2 * kRate);
      default:
        return 1;
    }
  }

  void Duplex(Case& c) const {
    Model m{this};
    State s;
    Rng rng = c.Bulk();
    size_t ops = 1 + c.Draw(7), calls = 0, mid = 0;
    for (size_t i = 0; i < ops; ++i) {
      size_t n = Len(c, 3 * kRate);
      bool absorb = c.Bool();
      if (absorb == m.absorbing && m.at % kRate) ++mid;
      if (absorb) {
        Elems e(n);
        for (F& f : e) f = L::Bulk(rng);
        bool ok = true;
        switch (c.Draw(2)) {
          case 0:
            ok = sp.Absorb(s, absl::Span<const F>(e));
            break;
          case 1:
            ok = sp.Absorb(s, e);
            break;
          default:
            for (const F& f : e) ok &= sp.Absorb(s, absl::Span<const F>(&f, 1));
        }
        PBT_T(ok, "absorb");
        for (const F& f : e) m.Absorb(f);
        if (c.verbose()) c.Note("absorb " + std::to_string(n));
      } else {
        Elems got;
        if (c.OneIn(4)) {
          for (size_t k = 0; k < n; ++k)
            got.push_back(sp.SqueezeNativeFieldElements(s, 1)[0]);
        } else if (c.Bool()) {
          got = sp.SqueezeNativeFieldElements(s, n);
        } else {
          got = sp.SqueezeFieldElements(s, n);
        }
        PBT_T(got.size() == n, "squeezed size");
        for (size_t k = 0; k < n; ++k)
          PBT_TM(got[k] == m.Squeeze(), "squeeze", "element " << k << " of " << n);
        if (c.verbose()) c.Note("squeeze " + std::to_string(n));
      }
      if constexpr (!L::kPacked) {
        if (c.OneIn(6)) {  // stop and go on elsewhere
          State t = Copy(c, s);
          PBT_T(t == s, "copy of a state");
          s = t;
        }
      }
      ++calls;
    }
    PBT_T(Of(s) == m.s, "state");
    c.LabelIf(mid, "a call starts inside of a block");
    c.Nontrivial(calls > 1);
  }

  template <size_t R, size_t Out>
  void Hash(Case& c) const {
    static_assert(R <= kW && Out <= kW);
    static tc::PaddingFreeSponge<Sponge, R, Out> h(sp);
    size_t n = c.OneIn(3) ? R * c.Draw(3) : c.Draw(4 * R);
    Rng rng = c.Bulk();
    Elems e(n);
    for (F& f : e) f = L::Bulk(rng);
    Elems s(kW, F::Zero());
    for (size_t i = 0; i < n; i += R) {
      for (size_t j = 0; j < R && i + j < n; ++j) s[j] = e[i + j];
      s = RefPermute(s);
    }
    auto got = c.Bool() ? h.Hash(e) : h.Hash(absl::Span<const F>(e));
    for (size_t i = 0; i < Out; ++i) PBT_T(got[i] == s[i], "hash");
    c.LabelIf(n % R == 0, "whole blocks");
    c.LabelIf(n == 0, "empty");
    c.Nontrivial(n > R);
    if (c.verbose()) c.Note(std::to_string(n) + " elements, rate " + std::to_string(R));
  }

  template <size_t Chunk, size_t N>
  void Compress(Case& c) const {
    static_assert(Chunk * N <= kW);
    static tc::TruncatedPermutation<Sponge, Chunk, N> h(sp);
    Rng rng = c.Bulk();
    std::array<std::array<F, Chunk>, N> in;
    Elems s(kW, F::Zero());
    for (size_t i = 0; i < N; ++i)
      for (size_t j = 0; j < Chunk; ++j) s[i * Chunk + j] = in[i][j] = L::Bulk(rng);
    s = RefPermute(s);
    auto got = h.Compress(in);
    std::vector<std::vector<F>> v;
    for (auto& x : in) v.emplace_back(x.begin(), x.end());
    auto got2 = h.Compress(v);
    for (size_t i = 0; i < Chunk; ++i) PBT_T(got[i] == s[i], "compress");
    for (size_t i = 0; i < Chunk; ++i) PBT_T(got2[i] == s[i], "compress vectors");
    c.Nontrivial();
  }
};

template <typename F>
void InitField() {
  F::Init();
  if constexpr (tm::FiniteFieldTraits<F>::kIsPackedPrimeField) {
    tm::MaybeUnpack<F>::Init();
  }
}

// |make| returns a sponge and its reference.
template <typename Sponge, typename Make>
void RegisterInst(const std::string& name, size_t weight, Make make) {
  using In = Inst<Sponge>;
  using Params = typename Sponge::Params;
  using P = typename In::P;
  constexpr size_t kW = Params::kWidth;
  auto get = [make]() -> const In& {
    static std::pair<Sponge, Rounds<P>>* data = new std::pair<Sponge, Rounds<P>>(make());
    static In in{data->first, data->second};
    return in;
  };
  auto reg = [&](const std::string& what, size_t n, auto fn) {
    Register(name + "." + what, n, n * 10, [get, fn](Case& c) {
      InitField<typename Params::Field>();
      fn(get(), c);
    });
  };
  reg("permute", weight, [](const In& in, Case& c) { in.Permute(c); });
  reg("duplex", weight, [](const In& in, Case& c) { in.Duplex(c); });
  reg("hash", weight / 2 + 1, [](const In& in, Case& c) {
    in.template Hash<kW - 1, (kW + 1) / 2>(c);
  });
  reg("hash_wide", weight / 4 + 1, [](const In& in, Case& c) {
    in.template Hash<(kW + 1) / 2, kW>(c);
  });
  reg("compress", weight / 4 + 1, [](const In& in, Case& c) {
    in.template Compress<kW / 2, 2>(c);
  });
  if constexpr (kW >= 8) {
    reg("compress_wide", weight / 4 + 1, [](const In& in, Case& c) {
      if (c.Bool()) {
        in.template Compress<kW / 4, 4>(c);
      } else {
        in.template Compress<kW / 3, 2>(c);
      }
    });
  }
  reg("bijective", 1, [](const In& in, Case& c) {
    PBT_T(in.ref.Bijective(), "S-box and matrices");
    c.Nontrivial();
  });
  if constexpr (!In::L::kPacked) {
    reg("copy", 4, [](const In& in, Case& c) {
      Sponge t = In::Copy(c, in.sp);
      PBT_T(t == in.sp, "equal");
      PBT_T(t.config.IsValid(), "valid");
      In copy{t, in.ref};
      copy.Permute(c);
    });
  }
}

}  // namespace sponge

#endif  // VERIF_HARNESS_SPONGE_SPONGE_H_

// C20: the challengers against a plain model of what they absorb.
#include <array>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"

#include "verif/merkle/toy.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tm = tachyon::math;
namespace tc = tachyon::crypto;

using F = tm::BabyBear;
using F4 = tm::BabyBear4;
using V = std::vector<F>;
constexpr uint32_t kMod = F::Config::kModulus;

template <size_t W>
using P2 = tc::Poseidon2Sponge<
    tc::Poseidon2Params<tc::Poseidon2Vendor::kPlonky3,
                        tc::Poseidon2Vendor::kPlonky3, F, W, 7>>;
using BN = tm::bn254::Fr;
using P2BN = tc::Poseidon2Sponge<
    tc::Poseidon2Params<tc::Poseidon2Vendor::kPlonky3,
                        tc::Poseidon2Vendor::kPlonky3, BN, 2, 5>>;

uint64_t Int(const F& f) { return FieldToMpz(f).get_ui(); }

struct ToyHash : ToyHasher<tm::BabyBear, 3> {
  using F = tm::BabyBear;
};

// Models. |block| collects observed values until a sample is asked for.
template <size_t W, size_t R>
struct Duplex {
  using C = tc::DuplexChallenger<P2<W - 1>, R>;
  static constexpr bool kForgets = false;
  V State() const { return in; }
  static P2<W - 1>& Perm() {
    static P2<W - 1> p;
    return p;
  }
  static C Make(V) {
    P2<W - 1> p = Perm();
    return C(std::move(p));
  }
  explicit Duplex(V) : s(W, F::Zero()) {}
  V s, in, out;
  void Flush() {
    for (size_t i = 0; i < in.size(); ++i) s[i] = in[i];
    in.clear();
    typename tc::SpongeState<typename P2<W - 1>::Params> st;
    for (size_t i = 0; i < W; ++i) st[i] = s[i];
    Perm().Permute(st);
    for (size_t i = 0; i < W; ++i) s[i] = st[i];
    out = s;
  }
  void Observe(const F& x) {
    out.clear();
    in.push_back(x);
    if (in.size() == R) Flush();
  }
  F Sample() {
    if (!in.empty() || out.empty()) Flush();
    F r = out.back();
    out.pop_back();
    return r;
  }
};

template <typename H>
struct Hashed {
  using C = tc::HashChallenger<H>;
  static constexpr bool kForgets = false;
  V State() const { return in; }
  static C Make(V init) { return C(init, H()); }
  explicit Hashed(V init) : in(init) {}
  V in, out;
  void Observe(const F& x) {
    out.clear();
    in.push_back(x);
  }
  F Sample() {
    if (out.empty()) {
      H h;
      auto o = h.Hash(in);
      out.assign(o.begin(), o.end());
      in = out;
    }
    F r = out.back();
    out.pop_back();
    return r;
  }
};

struct Multi {
  using C = tc::MultiField32Challenger<F, P2BN>;
  static constexpr bool kForgets = true;
  std::pair<std::vector<BN>, V> State() const { return {s, in}; }
  static constexpr size_t kPer = 3, kWidth = 3;
  static P2BN& Perm() {
    static P2BN p(tc::Poseidon2Config<P2BN::Params>::Create(
        tc::GetPoseidon2InternalDiagonalArray<P2BN::Params>()));
    return p;
  }
  static C Make(V) {
    P2BN p = Perm();
    return C(std::move(p));
  }
  explicit Multi(V) : s(kWidth, BN::Zero()) {}
  std::vector<BN> s;
  V in, out;
  void Flush() {
    for (size_t i = 0; i * kPer < in.size(); ++i) {
      mpz_class x = 0;
      for (size_t j = std::min(in.size(), (i + 1) * kPer); j-- > i * kPer;)
        x = (x << 32) + FieldToMpz(in[j]);
      s[i] = FieldFromMpz<BN>(x);
    }
    in.clear();
    tc::SpongeState<P2BN::Params> st;
    for (size_t i = 0; i < kWidth; ++i) st[i] = s[i];
    Perm().Permute(st);
    out.clear();
    for (size_t i = 0; i < kWidth; ++i) {
      s[i] = st[i];
      mpz_class x = FieldToMpz(s[i]);
      for (size_t j = 0; j < kPer; ++j) {
        mpz_class d = x % Pow2(64);
        x >>= 64;
        out.push_back(F(static_cast<uint32_t>(mpz_class(d % kMod).get_ui())));
      }
    }
  }
  void Observe(const F& x) {
    out.clear();
    in.push_back(x);
    if (in.size() == kPer * kWidth) Flush();
  }
  F Sample() {
    if (!in.empty() || out.empty()) Flush();
    F r = out.back();
    out.pop_back();
    return r;
  }
};

template <typename M>
struct T {
  using C = typename M::C;

  static F AnyF(Rng& r) {
    switch (r.Upto(9)) {
      case 0:
        return F::Zero();
      case 1:
        return F::One();
      case 2:
        return -F::One();
      default:
        return BulkPrimeField<F>(r);
    }
  }

  static void History(Case& c) {
    V init;
    Rng r = c.Bulk();
    for (size_t i = c.Draw(4); i > 0; --i) init.push_back(AnyF(r));
    C got = M::Make(init);
    M want(init);
    size_t steps = 1 + c.Draw(30);
    size_t observed = 0, sampled = 0;
    std::vector<std::pair<C, M>> saved;
    for (size_t k = 0; k < steps; ++k) {
      switch (c.Draw(8)) {
        case 0: {
          F x = AnyF(r);
          got.Observe(x);
          want.Observe(x);
          ++observed;
          break;
        }
        case 1: {
          V xs(c.Draw(20));
          for (F& x : xs) x = AnyF(r);
          got.ObserveContainer(xs);
          for (const F& x : xs) want.Observe(x);
          observed += xs.size();
          c.Label("observes a container");
          break;
        }
        case 2: {
          std::vector<std::array<F, 3>> xs(c.Draw(6));
          for (auto& a : xs)
            for (F& x : a) {
              x = AnyF(r);
              want.Observe(x);
            }
          got.ObserveContainer2D(xs);
          observed += xs.size() * 3;
          c.Label("observes a 2D container");
          break;
        }
        case 3: {
          F w = want.Sample(), g = got.Sample();
          PBT_TM(g == w, "sample", g.ToString() << " instead of " << w.ToString());
          ++sampled;
          break;
        }
        case 4: {
          auto g = got.template SampleArray<5>();
          for (const F& x : g) PBT_T(x == want.Sample(), "sample_array");
          sampled += 5;
          c.Label("samples many");
          break;
        }
        case 5: {
          F4 g = got.template SampleExtElement<F4>();
          for (size_t i = 0; i < 4; ++i)
            PBT_T(g[i] == want.Sample(), "sample_ext_element");
          sampled += 4;
          c.Label("samples an extension field element");
          break;
        }
        case 6: {
          uint32_t bits = c.Draw(30);
          uint32_t g = got.SampleBits(bits);
          uint64_t w = Int(want.Sample()) & ((uint64_t{1} << bits) - 1);
          PBT_TM(g == w, "sample_bits", g << " instead of " << w);
          ++sampled;
          c.Label("samples bits");
          break;
        }
        case 7: {
          // Proofs of work.
          uint32_t bits = c.Draw(5);
          C p = got;
          F wit;
          if (c.Bool()) {
            wit = AnyF(r);
          } else if (c.Bool()) {
            uint32_t from = r.Upto(kMod - 100000);
            wit = p.Grind(bits, tachyon::base::Range<uint32_t>(from, from + 5000));
            PBT_T(Int(wit) >= from && Int(wit) < from + 5000, "grind_range");
          } else {
            wit = p.Grind(bits);
          }
          M at = want;
          at.Observe(wit);
          bool ok = (Int(at.Sample()) & ((uint64_t{1} << bits) - 1)) == 0;
          C v = got;
          bool g = v.CheckWitness(bits, wit);
          PBT_TM(g == ok, "check_witness", g << " instead of " << ok);
          got = v;
          want = at;
          ++observed;
          ++sampled;
          c.LabelIf(bits && ok, "proof of work");
          c.LabelIf(!ok, "wrong witness");
          break;
        }
        case 8: {
          // Copies are independent.
          if (saved.size() < 3 && c.Bool()) {
            saved.emplace_back(got, want);
          } else if (!saved.empty()) {
            size_t i = c.Draw(saved.size() - 1);
            std::swap(got, saved[i].first);
            std::swap(want, saved[i].second);
            c.Label("continues a copy");
          }
          break;
        }
      }
    }
    F w = want.Sample(), g = got.Sample();
    PBT_TM(g == w, "sample", g.ToString() << " instead of " << w.ToString());
    if (observed && sampled) c.Nontrivial();
    c.Note(steps, " steps, ", observed, " observed, ", sampled, " sampled");
  }

  // Two transcripts that differ in one message have different challenges.
  static void Binding(Case& c) {
    Rng r = c.Bulk();
    size_t n = 1 + c.Draw(30);
    std::vector<int> ops(n);  // 0: observe, 1: sample
    V xs(n);
    std::vector<size_t> obs;
    for (size_t i = 0; i < n; ++i) {
      ops[i] = r.Upto(3) == 0;
      xs[i] = AnyF(r);
      if (!ops[i]) obs.push_back(i);
    }
    if (obs.empty()) return;
    std::vector<int> ops2 = ops;
    V ys = xs;
    size_t at = obs[c.Draw(obs.size() - 1)];
    switch (c.Draw(2)) {
      case 0:
        ys[at] += F(1 + r.Upto(kMod - 2));
        c.Label("changed message");
        break;
      case 1: {
        size_t with = obs[c.Draw(obs.size() - 1)];
        if (xs[with] == xs[at]) return;
        std::swap(ys[at], ys[with]);
        at = std::min(at, with);
        c.Label("swapped messages");
        break;
      }
      case 2: {
        // Nothing separates zeros at the end of the first messages from the
        // zeros of the initial state.
        if (xs[at].IsZero()) return;
        ops2.erase(ops2.begin() + at);
        ys.erase(ys.begin() + at);
        c.Label("dropped message");
        break;
      }
    }
    V init;
    C a = M::Make(init), b = M::Make(init);
    V sa, sb;
    M ma(init), mb(init);
    for (size_t i = 0; i < n; ++i) {
      if (!ops[i]) {
        a.Observe(xs[i]);
        ma.Observe(xs[i]);
      } else {
        F s = a.Sample();
        ma.Sample();
        if (i > at) sa.push_back(s);
      }
    }
    for (size_t i = 0; i < ys.size(); ++i) {
      if (!ops2[i]) {
        b.Observe(ys[i]);
        mb.Observe(ys[i]);
      } else {
        F s = b.Sample();
        mb.Sample();
        if (i > at || (i == at && ops2.size() < n)) sb.push_back(s);
      }
    }
    // What multi_field32_full_block is about.
    ma.Sample();
    mb.Sample();
    if (M::kForgets && ma.State() == mb.State()) return;
    // Eight samples make an accidental agreement unthinkable.
    for (size_t i = 0; i < 8; ++i) {
      sa.push_back(a.Sample());
      sb.push_back(b.Sample());
    }
    if (n > 3) c.Nontrivial();
    c.Note(n, " steps, difference at ", at);
    PBT_T(sa.size() == sb.size(), "harness");
    size_t agree = 0;
    for (size_t i = 0; i < sa.size(); ++i) agree += sa[i] == sb[i];
    PBT_TM(agree < 3, "binding", agree << " of " << sa.size() << " challenges agree");
  }

  static void Register(const std::string& n, size_t scale) {
    pbt::Register("challenger." + n, 100 * scale, 2000 * scale, History);
    pbt::Register("binding." + n, 100 * scale, 2000 * scale, Binding);
  }
};

// Any block of messages, also one that fills the state, is absorbed in
// addition to what was there before.
void MultiFullBlock(Case& c) {
  Rng r = c.Bulk();
  Multi::C a = Multi::Make({}), b = Multi::Make({});
  F x = T<Multi>::AnyF(r);
  a.Observe(x);
  b.Observe(x + F(1 + r.Upto(kMod - 2)));
  size_t before = c.Draw(8), after = 9 + c.Draw(20);
  for (size_t i = 0; i < before + after; ++i) {
    F y = T<Multi>::AnyF(r);
    a.Observe(y);
    b.Observe(y);
  }
  c.Nontrivial();
  size_t agree = 0;
  for (size_t i = 0; i < 8; ++i) agree += a.Sample() == b.Sample();
  PBT_TM(agree < 3, "full_block_forgets",
         agree << " of 8 challenges agree though the first messages differ, "
               << before + after << " follow");
}

void RegisterAll() {
  F::Init();
  F4::Init();
  BN::Init();
  T<Duplex<16, 8>>::Register("duplex16_8", 10);
  T<Duplex<16, 4>>::Register("duplex16_4", 10);
  T<Duplex<24, 16>>::Register("duplex24_16", 5);
  T<Hashed<tc::PaddingFreeSponge<P2<15>, 8, 8>>>::Register("hash", 10);
  T<Hashed<ToyHash>>::Register("hash.toy", 20);
  T<Multi>::Register("multi_field32", 2);
  pbt::Register("multi_field32_full_block", 50, 500, MultiFullBlock);
}
}  // namespace
PBT_INIT(RegisterAll);

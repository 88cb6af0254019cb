// C21: random generators against models of their algorithms.
#include <array>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/flag/flag_value_traits.h"
#include "tachyon/base/random.h"
#include "tachyon/c/crypto/random/rng.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/rng_type.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/zk/plonk/halo2/random_field_generator.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;
using Bytes = std::vector<uint8_t>;

uint32_t Rd32(const uint8_t* p) {
  return p[0] | uint32_t{p[1]} << 8 | uint32_t{p[2]} << 16 |
         uint32_t{p[3]} << 24;
}

struct XorShift {
  using G = tc::XORShiftRNG;
  static constexpr uint8_t kType = TACHYON_RNG_XOR_SHIFT;
  static constexpr size_t kSeed = 16;
  std::array<uint32_t, 4> s = {0xBAD5EED, 0xBAD5EED, 0xBAD5EED, 0xBAD5EED};
  void Seed(const Bytes& b) {
    for (size_t i = 0; i < 4; ++i) s[i] = Rd32(&b[4 * i]);
  }
  uint32_t Next() {
    // Marsaglia's xor128.
    uint32_t t = s[0] ^ (s[0] << 11);
    uint32_t w = s[3] ^ (s[3] >> 19) ^ t ^ (t >> 8);
    s = {s[1], s[2], s[3], w};
    return w;
  }
  void Far(Rng&, Bytes*) {}
  static bool Corrupt(Rng&, Bytes*) { return false; }
};

struct ChaCha {
  using G = tc::ChaCha20RNG;
  static constexpr uint8_t kType = TACHYON_RNG_CHA_CHA20;
  static constexpr size_t kSeed = 32;
  std::array<uint32_t, 8> key = {};
  uint64_t pos = 0;  // in words
  void Seed(const Bytes& b) {
    for (size_t i = 0; i < 8; ++i) key[i] = Rd32(&b[4 * i]);
    pos = 0;
  }
  static uint32_t Rotl(uint32_t x, int n) { return x << n | x >> (32 - n); }
  static void QR(uint32_t* s, int a, int b, int c, int d) {
    s[a] += s[b];
    s[d] = Rotl(s[d] ^ s[a], 16);
    s[c] += s[d];
    s[b] = Rotl(s[b] ^ s[c], 12);
    s[a] += s[b];
    s[d] = Rotl(s[d] ^ s[a], 8);
    s[c] += s[d];
    s[b] = Rotl(s[b] ^ s[c], 7);
  }
  uint32_t Next() {
    uint64_t block = pos / 16;
    uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    for (size_t i = 0; i < 8; ++i) in[4 + i] = key[i];
    in[12] = static_cast<uint32_t>(block);
    in[13] = static_cast<uint32_t>(block >> 32);
    uint32_t s[16];
    memcpy(s, in, sizeof(s));
    for (int i = 0; i < 10; ++i) {
      QR(s, 0, 4, 8, 12);
      QR(s, 1, 5, 9, 13);
      QR(s, 2, 6, 10, 14);
      QR(s, 3, 7, 11, 15);
      QR(s, 0, 5, 10, 15);
      QR(s, 1, 6, 11, 12);
      QR(s, 2, 7, 8, 13);
      QR(s, 3, 4, 9, 14);
    }
    size_t i = pos % 16;
    ++pos;
    return s[i] + in[i];
  }
  // Moves a state whose block is used up (as a new generator's is) close to
  // where the counter's low word overflows.
  void Far(Rng& r, Bytes* state) {
    if (pos % 16 != 0) return;
    uint64_t block = (uint64_t{1 + r.Upto(3)} << 32) - 1 - r.Upto(3);
    // The state holds the position within the block, then the input block.
    // The counter is the one of the next block.
    for (size_t i = 0; i < 8; ++i) {
      (*state)[8 + 48 + i] = static_cast<uint8_t>(block >> (8 * i));
    }
    pos = block * 16;
  }
  // A position outside of the block.
  static bool Corrupt(Rng& r, Bytes* state) {
    uint64_t at = 17 + (r.Bool() ? r.Upto(1000) : r.Next() >> r.Upto(50));
    for (size_t i = 0; i < 8; ++i)
      (*state)[i] = static_cast<uint8_t>(at >> (8 * i));
    return at > 16;
  }
};

template <typename M>
struct T {
  using G = typename M::G;
  static Bytes AnySeed(Rng& r, size_t n) {
    Bytes b(n);
    int kind = static_cast<int>(r.Upto(4));
    for (uint8_t& x : b) {
      x = kind == 0 ? 0 : kind == 1 ? 0xff : static_cast<uint8_t>(r.Next());
    }
    if (kind == 0 && n) b[r.Upto(n - 1)] = static_cast<uint8_t>(1 << r.Upto(7));
    return b;
  }
  static Bytes State(Case& c, const G& g) {
    tb::Uint8VectorBuffer buf;
    PBT_T(buf.Grow(G::kStateSize), "grow");
    PBT_T(g.WriteToBuffer(buf), "write_state");
    PBT_TM(buf.buffer_offset() == G::kStateSize, "state_size",
           buf.buffer_offset() << " bytes");
    const uint8_t* p = reinterpret_cast<const uint8_t*>(buf.buffer());
    return Bytes(p, p + G::kStateSize);
  }
  static Bytes State(Case& c, const tachyon_rng* g) {
    size_t n = 0;
    tachyon_rng_get_state(g, nullptr, &n);
    PBT_T(n == G::kStateSize, "c_state_size");
    Bytes b(n, 0xcc);
    tachyon_rng_get_state(g, b.data(), &n);
    PBT_T(n == G::kStateSize, "c_state_size");
    return b;
  }
  static void Same(Case& c, G& g, M& m, bool wide) {
    if (wide) {
      uint64_t lo = m.Next();
      uint64_t w = uint64_t{m.Next()} << 32 | lo;
      uint64_t x = g.NextUint64();
      PBT_TM(x == w, "u64", x << " instead of " << w);
    } else {
      uint32_t w = m.Next(), x = g.NextUint32();
      PBT_TM(x == w, "u32", x << " instead of " << w);
    }
  }

  static void Stream(Case& c) {
    Rng r = c.Bulk();
    auto g = std::make_unique<G>();
    M m;
    if (c.Draw(5)) {
      Bytes s = AnySeed(r, M::kSeed);
      PBT_T(g->SetSeed(s), "seed");
      m.Seed(s);
    } else {
      c.Label("default seed");
    }
    size_t drawn = 0, moves = 0;
    std::vector<std::pair<G, M>> saved;
    for (size_t k = 1 + c.Draw(20); k > 0; --k) {
      switch (c.Draw(6)) {
        case 0:
          Same(c, *g, m, false);
          ++drawn;
          break;
        case 1:
          Same(c, *g, m, true);
          drawn += 2;
          break;
        case 2: {
          size_t n = c.Draw(40);
          for (size_t i = 0; i < n; ++i) Same(c, *g, m, r.Bool());
          drawn += n;
          break;
        }
        case 3: {
          // Into another generator that was used before.
          Bytes s = State(c, *g);
          auto h = std::make_unique<G>();
          PBT_T(h->SetSeed(AnySeed(r, M::kSeed)), "seed");
          for (size_t i = r.Upto(20); i > 0; --i) h->NextUint32();
          if (c.Draw(3) == 0) {
            m.Far(r, &s);
            c.Label("far along");
          }
          // The buffer may be in any byte order and hold other things.
          Bytes around(r.Upto(5));
          Bytes all = around;
          all.insert(all.end(), s.begin(), s.end());
          all.resize(all.size() + r.Upto(5));
          tb::ReadOnlyBuffer buf(all.data(), all.size());
          buf.set_buffer_offset(around.size());
          if (r.Bool()) buf.set_endian(tb::Endian::kBig);
          tb::Endian e = buf.endian();
          PBT_T(h->ReadFromBuffer(buf), "read_state");
          PBT_T(buf.buffer_offset() == around.size() + s.size(),
                "read_state_size");
          PBT_T(buf.endian() == e, "buffer_endian");
          PBT_T(State(c, *h) == s, "state_round_trip");
          g = std::move(h);
          ++moves;
          break;
        }
        case 4: {
          // Things that are refused change nothing.
          if (c.Bool()) {
            size_t n = r.Upto(2 * M::kSeed);
            if (n == M::kSeed) break;
            PBT_T(!g->SetSeed(AnySeed(r, n)), "seed_size");
            c.Label("seed of another size");
          } else {
            G other;
            for (size_t i = r.Upto(20); i > 0; --i) other.NextUint32();
            Bytes s = State(c, other);
            if (c.Bool() && M::Corrupt(r, &s)) {
              c.Label("impossible state");
            } else {
              s.resize(r.Upto(s.size() - 1));
              c.Label("cut state");
            }
            tb::ReadOnlyBuffer buf(s.data(), s.size());
            PBT_T(!g->ReadFromBuffer(buf), "bad_state");
          }
          break;
        }
        case 5: {
          Bytes s = AnySeed(r, M::kSeed);
          PBT_T(g->SetSeed(s), "seed");
          m.Seed(s);
          c.LabelIf(drawn > 0, "seeded again");
          break;
        }
        case 6: {
          if (saved.size() < 3 && c.Bool()) {
            saved.emplace_back(*g, m);
          } else if (!saved.empty()) {
            size_t i = c.Draw(saved.size() - 1);
            std::swap(*g, saved[i].first);
            std::swap(m, saved[i].second);
            c.Label("continues a copy");
          }
          break;
        }
      }
    }
    for (size_t i = 0; i < 20; ++i) Same(c, *g, m, false);
    if (drawn >= 4 && moves) c.Nontrivial();
    c.Note(drawn, " words drawn, ", moves, " saved states");
  }

  static void CStream(Case& c) {
    Rng r = c.Bulk();
    M m;
    Bytes s = AnySeed(r, M::kSeed);
    m.Seed(s);
    tachyon_rng* g = tachyon_rng_create_from_seed(M::kType, s.data(), s.size());
    size_t drawn = 0, moves = 0;
    for (size_t k = 1 + c.Draw(12); k > 0; --k) {
      switch (c.Draw(2)) {
        case 0: {
          uint32_t w = m.Next(), x = tachyon_rng_get_next_u32(g);
          PBT_TM(x == w, "c_u32", x << " instead of " << w);
          ++drawn;
          break;
        }
        case 1: {
          uint64_t lo = m.Next();
          uint64_t w = uint64_t{m.Next()} << 32 | lo;
          uint64_t x = tachyon_rng_get_next_u64(g);
          PBT_TM(x == w, "c_u64", x << " instead of " << w);
          drawn += 2;
          break;
        }
        case 2: {
          Bytes st = State(c, g);
          if (c.Draw(3) == 0) m.Far(r, &st);
          tachyon_rng* h =
              tachyon_rng_create_from_state(M::kType, st.data(), st.size());
          PBT_T(State(c, h) == st, "c_state_round_trip");
          tachyon_rng_destroy(g);
          g = h;
          // The same state is understood by the C++ class.
          G o;
          tb::ReadOnlyBuffer buf(st.data(), st.size());
          PBT_T(o.ReadFromBuffer(buf), "read_state");
          M om = m;
          for (size_t i = 0; i < 20; ++i) Same(c, o, om, false);
          ++moves;
          break;
        }
      }
    }
    tachyon_rng_destroy(g);
    if (drawn >= 2 && moves) c.Nontrivial();
    c.Note(drawn, " words drawn, ", moves, " saved states");
  }

  static void Register(const std::string& n) {
    pbt::Register("stream." + n, 20000, 400000, Stream);
    pbt::Register("c_stream." + n, 5000, 100000, CStream);
  }
};

// Field elements from the words of a generator.
struct Tape : tc::RNG {
  std::vector<uint32_t> w;
  size_t i = 0;
  void SetRandomSeed() override {}
  bool SetSeed(absl::Span<const uint8_t>) override { return true; }
  uint32_t NextUint32() override { return w[i++]; }
  bool ReadFromBuffer(const tb::ReadOnlyBuffer&) override { return true; }
  bool WriteToBuffer(tb::Buffer&) const override { return true; }
};

template <typename F>
void FieldFromWords(Case& c) {
  Rng r = c.Bulk();
  size_t n = 1 + c.Draw(5);
  Tape t;
  mpz_class top = 0;
  std::vector<mpz_class> want;
  for (size_t k = 0; k < n; ++k) {
    mpz_class x;
    switch (c.Draw(4)) {
      case 0: {
        // Around multiples of the modulus in either half.
        x = Modulus<F>() * static_cast<unsigned long>(r.Upto(5)) +
            ((Modulus<F>() * static_cast<unsigned long>(r.Upto(5))) << 256);
        x += static_cast<long>(r.Upto(4)) - 2;
        if (x < 0 || x >= Pow2(512)) x = 0;
        c.Label("multiples of the modulus");
        break;
      }
      case 1:
        x = Pow2(512) - 1 - static_cast<unsigned long>(r.Upto(3));
        if (r.Bool()) x -= (Pow2(256) - 1) << (r.Bool() ? 0 : 256);
        if (x < 0) x = 0;
        c.Label("all ones");
        break;
      default:
        for (size_t i = 0; i < 16; ++i)
          x = (x << 32) + static_cast<unsigned long>(r.Next() & 0xffffffff);
        if (c.Draw(3) == 0) x >>= r.Upto(511);
        break;
    }
    for (size_t i = 0; i < 16; ++i)
      t.w.push_back(mpz_class((x >> (32 * i)) % Pow2(32)).get_ui());
    want.push_back(x % Modulus<F>());
  }
  tachyon::zk::plonk::halo2::RandomFieldGenerator<F> gen(&t);
  for (size_t k = 0; k < n; ++k) {
    F f = gen.Generate();
    mpz_class g = FieldToMpz(f);
    PBT_TM(g == want[k], "field", g.get_str() << " instead of " << want[k].get_str());
    PBT_T(t.i == 16 * (k + 1), "words_used");
    PBT_T(f == FieldFromMpz<F>(g), "canonical");
  }
  c.Nontrivial();
}

// Random elements are field elements, and not always the same.
template <typename F>
void RandomField(Case& c) {
  size_t n = 20;
  size_t same = 0, high = 0;
  F first = F::Random();
  mpz_class m = Modulus<F>();
  for (size_t i = 0; i < n; ++i) {
    F f = F::Random();
    mpz_class v = FieldToMpz(f);
    PBT_TM(v < m, "reduced", v.get_str());
    PBT_T(f == FieldFromMpz<F>(v), "canonical");
    same += f == first;
    high += v > m / 4;
  }
  PBT_T(same < 10, "random_constant");
  PBT_T(high > 0, "random_small");
  c.Nontrivial();
}

template <typename X, bool A, bool B>
void Ranges(Case& c, X from, X to) {
  tb::Range<X, A, B> range(from, to);
  for (int i = 0; i < 5; ++i) {
    X x = tb::Uniform(range);
    bool ok = (A ? x >= from : x > from) && (B ? x <= to : x < to);
    PBT_TM(ok, "uniform", +x << " from " << +from << " to " << +to << " "
                             << A << B);
  }
}

template <typename X>
void UniformOf(Case& c, const char*) {
  using L = std::numeric_limits<X>;
  X from, to;
  if constexpr (std::is_floating_point_v<X>) {
    from = static_cast<X>(static_cast<double>(c.Draw(2000)) - 1000);
    to = from + static_cast<X>(3 + c.Draw(1000));
  } else {
    // At least two values between the ends.
    auto any = [&c]() -> X {
      switch (c.Draw(3)) {
        case 0:
          return static_cast<X>(L::min() + static_cast<X>(c.Draw(3)));
        case 1:
          return static_cast<X>(L::max() - static_cast<X>(c.Draw(3)));
        case 2:
          return static_cast<X>(c.Draw(100));
        default:
          return static_cast<X>(c.U64());
      }
    };
    from = any();
    to = any();
    if (from > to) std::swap(from, to);
    c.LabelIf(from == L::min() && to == L::max(), "all values");
    c.LabelIf(from == to, "one value");
    if (from == to) {
      Ranges<X, true, true>(c, from, to);
      c.Nontrivial();
      return;
    }
    Ranges<X, true, true>(c, from, to);
    Ranges<X, true, false>(c, from, to);
    Ranges<X, false, true>(c, from, to);
    if (from < L::max() && static_cast<X>(from + 1) < to)
      Ranges<X, false, false>(c, from, to);
    c.Nontrivial();
    return;
  }
  Ranges<X, true, true>(c, from, to);
  Ranges<X, true, false>(c, from, to);
  Ranges<X, false, true>(c, from, to);
  Ranges<X, false, false>(c, from, to);
  c.Nontrivial();
}

void Uniform(Case& c) {
  switch (c.Draw(8)) {
    case 0: return UniformOf<uint8_t>(c, "u8");
    case 1: return UniformOf<int8_t>(c, "i8");
    case 2: return UniformOf<uint16_t>(c, "u16");
    case 3: return UniformOf<uint32_t>(c, "u32");
    case 4: return UniformOf<int32_t>(c, "i32");
    case 5: return UniformOf<uint64_t>(c, "u64");
    case 6: return UniformOf<int64_t>(c, "i64");
    case 7: return UniformOf<double>(c, "double");
    default: {
      std::vector<int> v(1 + c.Draw(10));
      for (size_t i = 0; i < v.size(); ++i) v[i] = static_cast<int>(i) * 3;
      for (int k = 0; k < 10; ++k) {
        int& x = tb::UniformElement(v);
        PBT_T(&x >= &v[0] && &x < &v[0] + v.size(), "uniform_element");
      }
      PBT_T(!tb::Bernoulli(0), "bernoulli_0");
      PBT_T(tb::Bernoulli(1), "bernoulli_1");
      c.Nontrivial();
    }
  }
}

// Random seeds differ.
template <typename G>
void RandomSeed(Case& c) {
  G a, b;
  a.SetRandomSeed();
  b.SetRandomSeed();
  size_t same = 0;
  for (int i = 0; i < 8; ++i) same += a.NextUint32() == b.NextUint32();
  PBT_T(same < 4, "random_seed");
  c.Nontrivial();
}

template <typename F>
void Fields(const std::string& n) {
  F::Init();
  if constexpr (F::kLimbNums == 4) {
    pbt::Register("field_from_words." + n, 3000, 60000, FieldFromWords<F>);
  }
  pbt::Register("random_field." + n, 300, 6000, RandomField<F>);
}

void RegisterAll() {
  T<XorShift>::Register("xor_shift");
  T<ChaCha>::Register("cha_cha20");
  Fields<tm::bn254::Fr>("bn254_fr");
  Fields<tm::bn254::Fq>("bn254_fq");
  Fields<tm::bls12_381::Fr>("bls12_381_fr");
  Fields<tm::pallas::Fr>("pallas_fr");
  Fields<tm::vesta::Fr>("vesta_fr");
  tm::BabyBear::Init();
  pbt::Register("random_field.baby_bear", 300, 6000, RandomField<tm::BabyBear>);
  tm::Mersenne31::Init();
  pbt::Register("random_field.mersenne31", 300, 6000, RandomField<tm::Mersenne31>);
  tm::Goldilocks::Init();
  pbt::Register("random_field.goldilocks", 300, 6000, RandomField<tm::Goldilocks>);
  tm::secp256k1::Fr::Init();
  pbt::Register("random_field.secp256k1_fr", 300, 6000, RandomField<tm::secp256k1::Fr>);
  pbt::Register("uniform", 20000, 400000, Uniform);
  pbt::Register("random_seed.xor_shift", 300, 3000, RandomSeed<tc::XORShiftRNG>);
  pbt::Register("random_seed.cha_cha20", 300, 3000, RandomSeed<tc::ChaCha20RNG>);
}
}  // namespace
PBT_INIT(RegisterAll);

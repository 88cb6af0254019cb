// C20: the transcripts of Halo2 against the bytes (or field elements) that they
// have to absorb.
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tm = tachyon::math;
namespace tc = tachyon::crypto;
namespace th = tachyon::zk::plonk::halo2;

using Bytes = std::vector<uint8_t>;

template <typename F>
Bytes LE(const F& x) {
  mpz_class v = FieldToMpz(x);
  Bytes b(F::BigIntTy::kByteNums);
  for (uint8_t& y : b) {
    y = mpz_class(v & 255).get_ui();
    v >>= 8;
  }
  return b;
}
template <typename F>
Bytes BE(const F& x) {
  Bytes b = LE(x);
  return Bytes(b.rbegin(), b.rend());
}
mpz_class FromLE(const uint8_t* p, size_t n) {
  mpz_class v = 0;
  while (n-- > 0) v = (v << 8) + p[n];
  return v;
}
template <typename F>
F Reduced(const mpz_class& v) {
  return FieldFromMpz<F>(v % ToMpz(F::Config::kModulus));
}

template <typename P>
struct Blake2b {
  using Point = P;
  using S = typename P::ScalarField;
  using Writer = th::Blake2bWriter<P>;
  using Reader = th::Blake2bReader<P>;
  static constexpr bool kBytes = true;
  Bytes b;
  void Add(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
  void Write(const P& p) {
    b.push_back(1);
    if (p.IsZero()) {
      Add(LE(P::BaseField::Zero()));
      Add(LE(typename P::BaseField(5)));
    } else {
      Add(LE(p.x()));
      Add(LE(p.y()));
    }
  }
  void Write(const S& s) {
    b.push_back(2);
    Add(LE(s));
  }
  Bytes Digest() {
    BLAKE2B_CTX ctx;
    BLAKE2B512_InitWithPersonal(&ctx, "Halo2-Transcript");
    BLAKE2B512_Update(&ctx, b.data(), b.size());
    Bytes d(64);
    BLAKE2B512_Final(d.data(), &ctx);
    return d;
  }
  S Squeeze() {
    b.push_back(0);
    return Reduced<S>(FromLE(Digest().data(), 64));
  }
  void ToProof(Bytes& out, const P& p) {
    // The x coordinate with the parity of y in its top bit.
    Bytes x = p.IsZero() ? Bytes(LE(P::BaseField::Zero())) : LE(p.x());
    if (!p.IsZero() && LE(p.y())[0] % 2) x.back() |= 0x80;
    out.insert(out.end(), x.begin(), x.end());
  }
};

template <typename P>
struct Sha256 : Blake2b<P> {
  using S = typename P::ScalarField;
  using Writer = th::Sha256Writer<P>;
  using Reader = th::Sha256Reader<P>;
  using Blake2b<P>::b;
  using Blake2b<P>::Add;
  void Write(const P& p) {
    Add(Bytes(31));
    b.push_back(1);
    Add(p.IsZero() ? Bytes(32) : BE(p.x()));
    Add(p.IsZero() ? Bytes(32) : BE(p.y()));
  }
  void Write(const S& s) {
    Add(Bytes(31));
    b.push_back(2);
    Add(BE(s));
  }
  Bytes Digest() {
    SHA256_CTX ctx;
    SHA256_Init(&ctx);
    SHA256_Update(&ctx, b.data(), b.size());
    Bytes d(32);
    SHA256_Final(d.data(), &ctx);
    return d;
  }
  S Squeeze() {
    b.push_back(0);
    b = Digest();
    return Reduced<S>(FromLE(b.data(), 32));
  }
  void ToProof(Bytes& out, const P& p) {
    for (const Bytes& x : {p.IsZero() ? Bytes(32) : LE(p.x()),
                           p.IsZero() ? Bytes(32) : LE(p.y())})
      out.insert(out.end(), x.begin(), x.end());
  }
};

template <typename P, typename Params, size_t kRate>
struct PoseidonModel : Blake2b<P> {
  using S = typename P::ScalarField;
  static constexpr bool kBytes = false;
  std::vector<S> pending;
  std::vector<S> state;
  PoseidonModel() : state(kRate + 1, S::Zero()) {
    state[0] = FieldFromMpz<S>(Pow2(64));
  }
  void Permute() {
    static tc::PoseidonSponge<Params> p(tc::PoseidonConfig<Params>::Create(0));
    tc::SpongeState<Params> st;
    for (size_t i = 0; i <= kRate; ++i) st[i] = state[i];
    p.Permute(st);
    for (size_t i = 0; i <= kRate; ++i) state[i] = st[i];
  }
  void Write(const P& p) {
    pending.push_back(Reduced<S>(p.IsZero() ? mpz_class(0) : FieldToMpz(p.x())));
    pending.push_back(Reduced<S>(p.IsZero() ? mpz_class(0) : FieldToMpz(p.y())));
  }
  void Write(const S& s) { pending.push_back(s); }
};

template <typename P>
struct Poseidon : PoseidonModel<P, tc::BN254PoseidonParams9, 8> {
  using S = typename P::ScalarField;
  using Writer = th::PoseidonWriter<P>;
  using Reader = th::PoseidonReader<P>;
  S Squeeze() {
    // One is absorbed after the messages.
    this->pending.push_back(S::One());
    for (size_t i = 0; i < this->pending.size(); ++i) {
      this->state[1 + i % 8] += this->pending[i];
      if (i % 8 == 7 || i + 1 == this->pending.size()) this->Permute();
    }
    this->pending.clear();
    return this->state[1];
  }
};

template <typename P>
struct Snark : PoseidonModel<P, tc::BN254PoseidonParams5, 4> {
  using S = typename P::ScalarField;
  using Writer = th::SnarkVerifierPoseidonWriter<P>;
  using Reader = th::SnarkVerifierPoseidonReader<P>;
  S Squeeze() {
    this->pending.push_back(S::One());
    for (size_t i = 0; i < this->pending.size(); ++i) {
      this->state[1 + i % 4] += this->pending[i];
      if (i % 4 == 3 || i + 1 == this->pending.size()) this->Permute();
    }
    this->pending.clear();
    return this->state[1];
  }
};

template <typename M>
struct T {
  using P = typename M::Point;
  using S = typename P::ScalarField;
  using B = typename P::BaseField;
  using Writer = typename M::Writer;
  using Reader = typename M::Reader;

  static const std::vector<P>& Points() {
    static std::vector<P> ps = [] {
      std::vector<P> ret;
      auto g = P::Generator().ToJacobian(), x = g;
      for (int i = 0; i < 40; ++i) {
        ret.push_back(x.ToAffine());
        ret.push_back(-x.ToAffine());
        x = x.Double() + g;
      }
      return ret;
    }();
    return ps;
  }
  static P AnyPoint(Rng& r) {
    if (r.Upto(7) == 0) return P::Zero();
    return Points()[r.Upto(Points().size() - 1)];
  }
  static S AnyScalar(Rng& r) {
    switch (r.Upto(7)) {
      case 0:
        return S::Zero();
      case 1:
        return S::One();
      case 2:
        return -S::One();
      default:
        return BulkPrimeField<S>(r);
    }
  }
  static bool Same(const P& a, const P& b) { return a == b; }
  static bool Same(const S& a, const S& b) { return a == b; }

  struct Op {
    int kind;  // 0: point to proof, 1: scalar to proof, 2: point, 3: scalar,
               // 4: squeeze
    P p;
    S s;
  };

  static std::vector<Op> Ops(Case& c, Rng& r) {
    std::vector<Op> ops(1 + c.Draw(20));
    for (Op& o : ops) {
      o.kind = r.Upto(4);
      o.p = AnyPoint(r);
      o.s = AnyScalar(r);
    }
    return ops;
  }

  static void History(Case& c) {
    Rng r = c.Bulk();
    std::vector<Op> ops = Ops(c, r);
    auto w = std::make_unique<Writer>(tb::Uint8VectorBuffer());
    M model;
    Bytes proof;
    std::vector<S> challenges;
    size_t squeezed = 0, written = 0;
    for (const Op& o : ops) {
      if (r.Upto(5) == 0) {
        // The state moves to another writer.
        c.Label("state saved and restored");
        Bytes st = w->GetState();
        PBT_T(st.size() == w->GetStateLen(), "state_len");
        auto w2 = std::make_unique<Writer>(std::move(w->buffer()));
        if (r.Bool()) {
          PBT_T(w2->WriteToTranscript(AnyScalar(r)), "write");
          if (r.Bool()) w2->SqueezeChallenge();
        }
        w2->SetState(absl::MakeConstSpan(st));
        PBT_T(w2->GetState() == st, "state");
        w = std::move(w2);
      }
      switch (o.kind) {
        case 0:
          PBT_T(w->WriteToProof(o.p), "write");
          model.Write(o.p);
          model.ToProof(proof, o.p);
          c.LabelIf(o.p.IsZero(), "point at infinity");
          ++written;
          break;
        case 1: {
          PBT_T(w->WriteToProof(o.s), "write");
          model.Write(o.s);
          ++written;
          // Scalars are written as the library serialises them.
          tb::Uint8VectorBuffer sb;
          PBT_T(sb.Write(o.s), "write");
          const uint8_t* d = static_cast<const uint8_t*>(sb.buffer());
          proof.insert(proof.end(), d, d + sb.buffer_offset());
          break;
        }
        case 2:
          PBT_T(w->WriteToTranscript(o.p), "write");
          model.Write(o.p);
          break;
        case 3:
          PBT_T(w->WriteToTranscript(o.s), "write");
          model.Write(o.s);
          break;
        case 4: {
          S got = w->SqueezeChallenge(), want = model.Squeeze();
          PBT_TM(got == want, "challenge",
                 got.ToString() << " instead of " << want.ToString() << " as number "
                                << squeezed);
          challenges.push_back(got);
          ++squeezed;
          break;
        }
      }
    }
    S last = w->SqueezeChallenge();
    PBT_T(last == model.Squeeze(), "challenge");
    if (written > 1 && squeezed) c.Nontrivial();
    c.Note(ops.size(), " operations, ", written, " in the proof, ", squeezed,
           " challenges");
    tb::Uint8VectorBuffer& wb = w->buffer();
    const uint8_t* data = static_cast<const uint8_t*>(wb.buffer());
    Bytes bytes(data, data + wb.buffer_offset());
    PBT_T(bytes == proof, "proof_bytes");
    // The verifier follows, on a proof that is whole, cut or changed.
    enum { kWhole, kCut, kFlipped } how = kWhole;
    switch (c.Draw(2)) {
      case 1:
        if (bytes.empty()) break;
        how = kCut;
        bytes.resize(r.Upto(bytes.size() - 1));
        c.Label("cut proof");
        break;
      case 2:
        if (bytes.empty()) break;
        how = kFlipped;
        for (size_t i = 1 + r.Upto(1); i > 0; --i)
          bytes[r.Upto(bytes.size() - 1)] ^= 1 << r.Upto(7);
        c.Label("changed proof");
        break;
      default:
        break;
    }
    // No byte after the end may be looked at.
    std::unique_ptr<uint8_t[]> heap(new uint8_t[bytes.size()]);
    std::copy(bytes.begin(), bytes.end(), heap.get());
    Reader rd(tb::ReadOnlyBuffer(heap.get(), bytes.size()));
    size_t k = 0;
    bool differs = false;
    for (const Op& o : ops) {
      switch (o.kind) {
        case 0: {
          P p;
          bool ok = rd.ReadFromProof(&p);
          if (!ok) {
            PBT_T(how != kWhole, "read_point");
            c.Label("read refused");
            return;
          }
          if (how == kWhole) PBT_T(p == o.p, "read_point_value");
          PBT_T(p.IsZero() || p.IsOnCurve(), "read_point_on_curve");
          PBT_T(ToMpz(p.x().ToBigInt()) < ToMpz(B::Config::kModulus), "reduced");
          differs |= !(p == o.p);
          break;
        }
        case 1: {
          S s;
          bool ok = rd.ReadFromProof(&s);
          if (!ok) {
            PBT_T(how != kWhole, "read_scalar");
            c.Label("read refused");
            return;
          }
          if (how == kWhole) PBT_T(s == o.s, "read_scalar_value");
          PBT_TM(ToMpz(s.value()) < ToMpz(S::Config::kModulus), "reduced",
                 ToMpz(s.value()).get_str(16));
          differs |= !(s == o.s);
          break;
        }
        case 2:
          PBT_T(rd.WriteToTranscript(o.p), "write");
          break;
        case 3:
          PBT_T(rd.WriteToTranscript(o.s), "write");
          break;
        case 4: {
          S got = rd.SqueezeChallenge();
          PBT_TM((got == challenges[k]) == !differs, "verifier_challenge",
                 "number " << k << (differs ? " (another message was read)" : ""));
          ++k;
          break;
        }
      }
    }
    PBT_T(rd.buffer().Done() == (how != kCut), "buffer");
    PBT_T((rd.SqueezeChallenge() == last) == !differs, "verifier_challenge");
    c.LabelIf(differs, "other messages read");
  }

  // Histories that differ in one message have different challenges after it.
  static void Binding(Case& c) {
    Rng r = c.Bulk();
    std::vector<Op> ops = Ops(c, r), other = ops;
    size_t at = r.Upto(ops.size() - 1);
    if (ops[at].kind == 4) return;
    Op& o = other[at];
    bool point = o.kind == 0 || o.kind == 2;
    bool dropped = false;
    switch (c.Draw(2)) {
      case 0:
        if (point)
          o.p = o.p.IsZero() ? Points()[0] : r.Bool() ? -o.p : P::Zero();
        else
          o.s += r.Bool() ? S::One() : AnyScalar(r);
        if (!point && o.s == ops[at].s) return;
        c.Label("changed message");
        break;
      case 1: {
        size_t with = r.Upto(ops.size() - 1);
        if (ops[with].kind != ops[at].kind) return;
        if (point ? ops[with].p == o.p : ops[with].s == o.s) return;
        std::swap(other[at], other[with]);
        at = std::min(at, with);
        c.Label("swapped messages");
        break;
      }
      case 2:
        other.erase(other.begin() + at);
        dropped = true;
        c.Label("dropped message");
        break;
    }
    if (ops.size() > 2) c.Nontrivial();
    c.Note(ops.size(), " operations, difference at ", at);
    std::vector<S> ch[2];
    for (int k = 0; k < 2; ++k) {
      Writer w{tb::Uint8VectorBuffer()};
      const std::vector<Op>& l = k ? other : ops;
      for (size_t i = 0; i < l.size(); ++i) {
        switch (l[i].kind) {
          case 0:
            PBT_T(w.WriteToProof(l[i].p), "write");
            break;
          case 1:
            PBT_T(w.WriteToProof(l[i].s), "write");
            break;
          case 2:
            PBT_T(w.WriteToTranscript(l[i].p), "write");
            break;
          case 3:
            PBT_T(w.WriteToTranscript(l[i].s), "write");
            break;
          case 4: {
            S s = w.SqueezeChallenge();
            if (i > at || (i == at && k && dropped)) ch[k].push_back(s);
            break;
          }
        }
      }
      ch[k].push_back(w.SqueezeChallenge());
    }
    PBT_T(ch[0].size() == ch[1].size(), "harness");
    for (size_t i = 0; i < ch[0].size(); ++i)
      PBT_TM(ch[0][i] != ch[1][i], "binding", "challenge " << i << " after the difference");
  }

  static void Register(const std::string& n, size_t scale) {
    pbt::Register("transcript." + n, 100 * scale, 2000 * scale, History);
    pbt::Register("binding." + n, 50 * scale, 1000 * scale, Binding);
  }
};

// 512 bits reduced modulo the order.
template <typename F>
void Wide(Case& c) {
  Rng r = c.Bulk();
  uint64_t limbs[8];
  size_t kind = c.Draw(3);
  for (uint64_t& l : limbs) {
    l = kind == 0 ? ~uint64_t{0} : r.Next();
    if (kind == 1) l |= ~uint64_t{0} << 1;
    if (kind == 2 && r.Bool()) l = 0;
  }
  mpz_class v = 0;
  for (size_t i = 8; i-- > 0;) {
    v <<= 64;
    v += ToMpz(tm::BigInt<1>(limbs[i]));
  }
  c.Nontrivial();
  c.Note("0x", v.get_str(16));
  uint8_t bytes[64];
  for (size_t i = 0; i < 64; ++i) bytes[i] = limbs[i / 8] >> (8 * (i % 8));
  F want = Reduced<F>(v);
  PBT_T(th::FromUint512<F>(limbs) == want, "from_limbs");
  PBT_T(th::FromUint512<F>(bytes) == want, "from_bytes");
  absl::uint128 u = absl::MakeUint128(limbs[1], limbs[0]);
  PBT_T(th::FromUint128<F>(u) == FieldFromMpz<F>(v % Pow2(128)), "from_uint128");
}

void RegisterAll() {
  using BN = tm::bn254::G1AffinePoint;
  using PA = tm::pallas::AffinePoint;
  tm::bn254::G1Curve::Init();
  tm::pallas::Curve::Init();
  T<Blake2b<BN>>::Register("blake2b.bn254", 6);
  T<Blake2b<PA>>::Register("blake2b.pallas", 3);
  T<Sha256<BN>>::Register("sha256.bn254", 6);
  T<Sha256<PA>>::Register("sha256.pallas", 3);
  T<Poseidon<BN>>::Register("poseidon.bn254", 2);
  T<Snark<BN>>::Register("snark_verifier_poseidon.bn254", 4);
  Register("wide.bn254_fr", 2000, 40000, Wide<tm::bn254::Fr>);
  Register("wide.pallas_fr", 1000, 20000, Wide<tm::pallas::Fr>);
}
}  // namespace
PBT_INIT(RegisterAll);

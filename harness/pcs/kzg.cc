// C18: KZG commitments and their batched openings.
#include <memory>
#include <sstream>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/kzg.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/polynomial_openings.h"
#include "tachyon/crypto/transcripts/transcript.h"
#include "tachyon/crypto/transcripts/transcript_traits.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

constexpr size_t kMaxDegree = 31;

template <typename Curve>
void InitCurve() {
  static bool init = (Curve::Init(), true);
  (void)init;
}

template <typename F>
F Uniform(Case& c) {
  Rng r = c.Bulk();
  F f = F::Zero();
  F base = F(uint64_t{1} << 32);
  for (int i = 0; i < 8; ++i) f = f * base + F(r.Next() >> 32);
  return f;
}

template <typename F>
F Eval(const std::vector<F>& cs, const F& x) {
  F s = F::Zero();
  for (size_t i = cs.size(); i-- > 0;) s = s * x + cs[i];
  return s;
}

template <typename F>
std::vector<F> Coefficients(Case& c, size_t n) {
  size_t count = c.OneIn(3) ? n : c.Draw(n);
  Rng r = c.Bulk();
  std::vector<F> cs(count);
  int how = c.Draw(5);
  for (size_t i = 0; i < count; ++i)
    cs[i] = how == 0 ? F::Zero() : how == 1 ? F(r.Upto(2)) : BulkPrimeField<F>(r);
  if (count && cs.back().IsZero()) cs.back() = NonZeroPrimeField<F>(c);
  return cs;
}

// A transcript whose challenges depend on all that came before.
template <typename G1>
struct Mixer {
  using F = typename G1::ScalarField;
  F state = F(7);
  template <typename T>
  void Add(const T& v) {
    uint64_t h = 1469598103934665603u;
    const uint8_t* p = reinterpret_cast<const uint8_t*>(&v);
    for (size_t i = 0; i < sizeof(T); ++i) h = (h ^ p[i]) * 1099511628211u;
    state = state * state + F(h);
    state = state * state * state + F(h >> 7) + F(3);
  }
  F Next() {
    state = state * state * state + F(5);
    return state;
  }
};
template <typename G1>
struct Writer : tc::TranscriptWriter<G1>, Mixer<G1> {
  using F = typename G1::ScalarField;
  Writer() : tc::TranscriptWriter<G1>(tb::Uint8VectorBuffer()) {}
  F SqueezeChallenge() override { return this->Next(); }
  bool WriteToTranscript(const G1& v) override { return this->Add(v), true; }
  bool WriteToTranscript(const F& v) override { return this->Add(v), true; }
  bool DoWriteToProof(const G1& v) override { return this->buffer_.Write(v); }
  bool DoWriteToProof(const F& v) override { return this->buffer_.Write(v); }
};
template <typename G1>
struct Reader : tc::TranscriptReader<G1>, Mixer<G1> {
  using F = typename G1::ScalarField;
  explicit Reader(tb::ReadOnlyBuffer b) : tc::TranscriptReader<G1>(std::move(b)) {}
  F SqueezeChallenge() override { return this->Next(); }
  bool WriteToTranscript(const G1& v) override { return this->Add(v), true; }
  bool WriteToTranscript(const F& v) override { return this->Add(v), true; }
  bool DoReadFromProof(G1* v) const override { return this->buffer_.Read(v); }
  bool DoReadFromProof(F* v) const override { return this->buffer_.Read(v); }
};

// Single and batched commitments.
template <typename Curve, typename Commitment>
struct Commit {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using J = typename Curve::G1Curve::JacobianPoint;
  using F = typename G1::ScalarField;
  using KZG = tc::KZG<G1, kMaxDegree, Commitment>;
  using Domain = tm::UnivariateEvaluationDomain<F, kMaxDegree>;
  using Poly = tm::UnivariateDensePolynomial<F, kMaxDegree>;

  static bool Is(const Commitment& got, const F& scalar) {
    return tm::ConvertPoint<G1>(got) == (scalar * G1::Generator()).ToAffine();
  }

  static void Run(Case& c) {
    InitCurve<Curve>();
    size_t n = size_t{1} << c.Draw(5);
    std::unique_ptr<Domain> domain = Domain::Create(n);
    F w = domain->group_gen();
    F tau = c.OneIn(4) ? w.Pow(c.Draw(n - 1)) : AnyPrimeField<F>(c);
    c.Note(n);
    c.Nontrivial(n > 2);
    c.LabelIf(tau.Pow(n).IsOne(), "secret in the domain");
    KZG kzg;
    PBT_T(kzg.UnsafeSetup(n, tau), "setup");
    PBT_T(kzg.N() == n, "size");
    PBT_T(kzg.g1_powers_of_tau().size() == n && kzg.g1_powers_of_tau_lagrange().size() == n, "setup");
    auto lagrange = [&](const std::vector<F>& ys) {
      F sum = F::Zero(), x = F::One();
      F all = (tau.Pow(n) - F::One()) * *F(n).Inverse();
      for (const F& y : ys) {
        if (tau == x) return y;
        sum += y * x * *(tau - x).Inverse();
        x *= w;
      }
      return sum * all;
    };
    {
      size_t i = c.Draw(n - 1);
      PBT_T(kzg.g1_powers_of_tau()[i] == (tau.Pow(i) * G1::Generator()).ToAffine(), "powers");
      std::vector<F> unit(n, F::Zero());
      unit[i] = F::One();
      PBT_T(kzg.g1_powers_of_tau_lagrange()[i] == (lagrange(unit) * G1::Generator()).ToAffine(),
            "lagrange");
    }
    size_t count = 1 + c.Draw(5);
    std::vector<Poly> polys;
    std::vector<std::vector<F>> evals;
    std::vector<F> at, at_lagrange;
    for (size_t i = 0; i < count; ++i) {
      std::vector<F> cs = Coefficients<F>(c, n);
      at.push_back(Eval(cs, tau));
      c.LabelIf(cs.empty(), "zero polynomial");
      polys.push_back(Poly(typename Poly::Coefficients(std::move(cs))));
      Rng r = c.Bulk();
      std::vector<F> ys(n);
      for (F& y : ys) y = BulkPrimeField<F>(r);
      at_lagrange.push_back(lagrange(ys));
      evals.push_back(std::move(ys));
    }
    std::vector<Commitment> single;
    for (size_t i = 0; i < count; ++i) {
      Commitment a, b;
      PBT_T(kzg.Commit(polys[i].coefficients().coefficients(), &a), "commit");
      PBT_T(Is(a, at[i]), "commitment");
      PBT_T(kzg.CommitLagrange(evals[i], &b), "commit to values");
      PBT_TM(Is(b, at_lagrange[i]), "commitment to values", "polynomial " << i);
      single.push_back(a);
    }
    // homomorphic
    F k = AnyPrimeField<F>(c);
    Poly sum = polys[0];
    sum *= k;
    sum += polys[count - 1];
    Commitment a;
    PBT_T(kzg.Commit(sum.coefficients().coefficients(), &a), "commit");
    J want = tm::ConvertPoint<J>(single[0]) * k + tm::ConvertPoint<J>(single[count - 1]);
    PBT_T(tm::ConvertPoint<G1>(a) == want.ToAffine(), "homomorphic");
    // batches
    for (int round = 0; round < 2; ++round) {
      tc::BatchCommitmentState state(true, count);
      kzg.ResizeBatchCommitments(count);
      std::vector<bool> values(count);
      std::vector<size_t> order(count);
      for (size_t i = 0; i < count; ++i) order[i] = i;
      for (size_t i = count; i > 1; --i) std::swap(order[i - 1], order[c.Draw(i - 1)]);
      for (size_t i : order) {
        values[i] = c.Bool();
        PBT_T(values[i] ? kzg.CommitLagrange(evals[i], state, i)
                        : kzg.Commit(polys[i].coefficients().coefficients(), state, i),
              "batch");
      }
      std::vector<Commitment> got = kzg.GetBatchCommitments(state);
      PBT_T(got.size() == count && !state.batch_mode, "batch");
      for (size_t i = 0; i < count; ++i)
        PBT_T(Is(got[i], values[i] ? at_lagrange[i] : at[i]), "batched commitment");
    }
  }
};

// Openings.
template <template <typename, size_t, typename> class Scheme, typename Curve>
struct Open {
  using G1 = typename Curve::G1Curve::AffinePoint;
  using F = typename G1::ScalarField;
  using PCS = Scheme<Curve, kMaxDegree, G1>;
  using KZG = tc::KZG<G1, kMaxDegree, G1>;
  using Poly = typename PCS::Poly;
  using PO = tc::PolynomialOpening<Poly>;
  using VO = tc::PolynomialOpening<Poly, G1>;

  static void Run(Case& c) {
    InitCurve<Curve>();
    size_t n = size_t{1} << c.Draw(5);
    F tau = Uniform<F>(c);
    PCS pcs{KZG()};
    PBT_T(pcs.UnsafeSetup(n, tau), "setup");
    size_t count = 1 + c.Draw(c.OneIn(3) ? 7 : 3);
    std::vector<Poly> polys;
    std::vector<G1> commits(count);
    for (size_t i = 0; i < count; ++i) {
      if (i && c.OneIn(8)) {
        polys.push_back(polys[c.Draw(i - 1)]);
      } else {
        polys.push_back(Poly(typename Poly::Coefficients(Coefficients<F>(c, n))));
      }
      PBT_T(pcs.Commit(polys[i], &commits[i]), "commit");
      PBT_T(commits[i] == (polys[i].Evaluate(tau) * G1::Generator()).ToAffine(), "commitment");
    }
    PBT_T(pcs.N() == n && pcs.D() == n - 1, "size");
    pcs.SetBatchMode(count);
    PBT_T(pcs.GetBatchMode(), "batch mode");
    for (size_t i = 0; i < count; ++i) PBT_T(pcs.Commit(polys[i], i), "batch");
    PBT_T(pcs.GetBatchCommitments() == commits && !pcs.GetBatchMode(), "batched commitments");
    std::vector<F> pool(1 + c.Draw(4));
    for (F& x : pool) x = AnyPrimeField<F>(c);
    struct One {
      size_t poly;
      F point;
      F value;
    };
    std::vector<One> list;
    bool several = false, shared = false;
    std::vector<F> seen;
    for (size_t i = 0; i < count; ++i) {
      std::vector<F> own;
      size_t want = 1 + (c.OneIn(2) ? c.Draw(pool.size() - 1) : 0);
      for (size_t k = 0; k < want; ++k) {
        F x = pool[c.Draw(pool.size() - 1)];
        bool dup = false;
        for (auto& y : own) dup |= y == x;
        if (dup) continue;
        own.push_back(x);
        for (auto& y : seen) shared |= y == x;
        list.push_back({i, x, polys[i].Evaluate(x)});
      }
      several |= own.size() > 1;
      for (auto& y : own) seen.push_back(y);
    }
    if (c.OneIn(2))
      for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[c.Draw(i - 1)]);
    c.LabelIf(several, "one polynomial at several points");
    c.LabelIf(shared, "one point for several polynomials");
    c.Nontrivial(list.size() > 1 && n > 1);
    std::ostringstream note;
    note << "size " << n << " polynomials " << count << " openings";
    for (auto& o : list) note << " " << o.poly;
    c.Note(note.str());
    F seed = Uniform<F>(c);

    std::vector<PO> openings;
    for (auto& o : list)
      openings.emplace_back(tb::Ref<const Poly>(&polys[o.poly]), o.point, o.value);
    Writer<G1> writer;
    PBT_T(writer.WriteToTranscript(seed), "transcript");
    PBT_T(pcs.CreateOpeningProof(openings, &writer), "open");
    tb::Uint8VectorBuffer written = std::move(writer).TakeBuffer();
    std::vector<G1> proof;
    written.set_buffer_offset(0);
    while (!written.Done()) {
      G1 p;
      PBT_T(written.Read(&p), "proof");
      proof.push_back(p);
    }
    auto verify = [&](const PCS& scheme, const std::vector<G1>& cs, const std::vector<One>& os,
                      const std::vector<G1>& pf) {
      std::vector<VO> vs;
      for (auto& o : os)
        vs.emplace_back(tb::Ref<const G1>(&cs[o.poly]), o.point, o.value);
      tb::Uint8VectorBuffer b;
      for (auto& p : pf) (void)b.Write(p);
      b.set_buffer_offset(0);
      Reader<G1> reader(tb::ReadOnlyBuffer(b.buffer(), b.buffer_len()));
      (void)reader.WriteToTranscript(seed);
      return scheme.VerifyOpeningProof(vs, &reader);
    };
    PBT_T(verify(pcs, commits, list, proof), "verify");
    if (c.OneIn(4)) {
      tb::Uint8VectorBuffer b;
      PBT_T(b.Grow(tb::EstimateSize(pcs)), "grow");
      PBT_T(b.Write(pcs) && b.Done(), "write");
      b.set_buffer_offset(0);
      PCS back;
      PBT_T(b.Read(&back), "read");
      PBT_T(verify(back, commits, list, proof), "verify with parameters read back");
    }
    for (int k = 0; k < 2; ++k) {
      std::vector<G1> commits2 = commits, proof2 = proof;
      std::vector<One> list2 = list;
      bool reject = true;
      const char* what = "";
      size_t i = c.Draw(list.size() - 1);
      auto bump = [&](G1& p) { p = (NonZeroPrimeField<F>(c) * G1::Generator() + p).ToAffine(); };
      switch (c.Draw(4)) {
        case 0:
          what = "value";
          list2[i].value += NonZeroPrimeField<F>(c);
          break;
        case 1:
          what = "commitment";
          bump(commits2[list[i].poly]);
          break;
        case 2: {
          what = "point";
          F x = AnyPrimeField<F>(c);
          bool dup = false;
          for (auto& o : list) dup |= o.poly == list[i].poly && o.point == x;
          list2[i].point = x;
          reject = !dup && polys[list[i].poly].Evaluate(x) != list[i].value;
          break;
        }
        case 3:
          what = "proof";
          bump(proof2[c.Draw(proof.size() - 1)]);
          break;
        default: {
          what = "order of the proof";
          if (proof.size() > 1) {
            size_t a = c.Draw(proof.size() - 1), b = c.Draw(proof.size() - 1);
            std::swap(proof2[a], proof2[b]);
          }
          reject = proof2 != proof;
        }
      }
      c.Label(reject ? what : "no real change");
      if (reject)
        PBT_TM(!verify(pcs, commits2, list2, proof2), "reject a change", what << " " << i);
    }
  }
};

void RegisterAll() {
  using BN = tm::bn254::BN254Curve;
  using BLS = tm::bls12_381::BLS12_381Curve;
  Register("commit.bn254.affine", 60, 600, Commit<BN, tm::bn254::G1AffinePoint>::Run);
  Register("commit.bn254.xyzz", 60, 600, Commit<BN, tm::bn254::G1PointXYZZ>::Run);
  Register("commit.bn254.jacobian", 60, 600, Commit<BN, tm::bn254::G1JacobianPoint>::Run);
  Register("commit.bls12_381.affine", 30, 300, Commit<BLS, tm::bls12_381::G1AffinePoint>::Run);
  Register("gwc.bn254", 100, 1000, Open<tc::GWC, BN>::Run);
  Register("gwc.bls12_381", 40, 400, Open<tc::GWC, BLS>::Run);
  Register("shplonk.bn254", 100, 1000, Open<tc::SHPlonk, BN>::Run);
  Register("shplonk.bls12_381", 40, 400, Open<tc::SHPlonk, BLS>::Run);
}

}  // namespace
PBT_INIT(RegisterAll);

// C17: the simple FRI commitment.
#include <memory>
#include <sstream>
#include <utility>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/fri/simple_fri.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;  // NOLINT
namespace tb = tachyon::base;
namespace tc = tachyon::crypto;
namespace tm = tachyon::math;

template <typename F>
struct Hasher : tc::BinaryMerkleHasher<F, F> {
  // Leaves are read back from the tree, so they are not hashed.
  F ComputeLeafHash(const F& x) const override { return x; }
  F ComputeParentHash(const F& l, const F& r) const override {
    F a = l * l + F(3) * r + F(11), b = r * r + F(13) * l;
    return a * b * b + a;
  }
};

template <typename F>
struct Storage : tc::SimpleFRIStorage<F> {
  std::vector<tc::SimpleBinaryMerkleTreeStorage<F>> layers;
  void Allocate(size_t n) override { layers.resize(n); }
  tc::BinaryMerkleTreeStorage<F>* GetLayer(size_t i) override { return &layers[i]; }
};

template <typename F>
struct Simple {
  static constexpr size_t kMaxDegree = 255;
  using PCS = tc::SimpleFRI<F, kMaxDegree>;
  using Poly = typename PCS::Poly;
  using Domain = typename PCS::Domain;
  using Proof = tc::SimpleFRIProof<F>;

  static void Run(Case& c) {
    static bool init = (F::Init(), true);
    (void)init;
    size_t log = 1 + c.Draw(7);
    size_t n = size_t{1} << log;
    size_t coeffs = c.OneIn(3) ? n : c.Draw(n);
    Rng r = c.Bulk();
    std::vector<F> cs(coeffs);
    for (F& x : cs) x = BulkPrimeField<F>(r);
    if (coeffs) {
      if (c.OneIn(8))
        for (F& x : cs) x = F::Zero();
      cs.back() = NonZeroPrimeField<F>(c);
    }
    std::vector<F> kept = cs;
    Poly poly{typename Poly::Coefficients(std::move(cs))};
    c.Note(coeffs);
    c.Note(n);
    c.Nontrivial(coeffs > 2);
    c.LabelIf(coeffs == 0, "zero polynomial");
    c.LabelIf(coeffs == 1, "constant polynomial");

    std::unique_ptr<Domain> domain = Domain::Create(n);
    Hasher<F> hasher;
    Storage<F> storage;
    PCS pcs(domain.get(), &storage, &hasher);
    PBT_T(pcs.N() == n && pcs.D() == n - 1, "size");
    tb::Uint8VectorBuffer buf;
    tc::SimpleTranscriptWriter<F> writer(std::move(buf));
    bool committed = pcs.Commit(poly, &writer);
    if (coeffs == 0 && !committed) return;  // may be refused
    PBT_T(committed, "commit");
    tb::Uint8VectorBuffer commitment = std::move(writer).TakeBuffer();
    std::vector<F> roots(log + 1);
    commitment.set_buffer_offset(0);
    for (F& x : roots) PBT_T(commitment.Read(&x), "roots");
    PBT_T(commitment.Done(), "roots");

    auto verify = [&](const std::vector<F>& rs, size_t index, const Proof& p) {
      tb::Uint8VectorBuffer b;
      for (const F& x : rs) (void)b.Write(x);
      tc::SimpleTranscriptReader<F> reader(std::move(b));
      reader.buffer().set_buffer_offset(0);
      return pcs.VerifyOpeningProof(reader, index, p);
    };
    for (int k = 0; k < 3; ++k) {
      size_t index = c.Draw(n - 1);
      Proof p;
      PBT_T(pcs.CreateOpeningProof(index, &p), "open");
      PBT_T(p.evaluations.size() == log && p.evaluations_sym.size() == log &&
                p.paths.size() == log && p.paths_sym.size() == log,
            "size of the proof");
      F x = domain->group_gen().Pow(index);
      for (int s = 0; s < 2; ++s) {
        F want = F::Zero();
        for (size_t i = coeffs; i-- > 0;) want = want * x + kept[i];
        PBT_T((s ? p.evaluations_sym : p.evaluations)[0] == want, "opened value");
        x = -x;
      }
      PBT_TM(verify(roots, index, p), "verify", "index " << index);

      std::vector<F> roots2 = roots;
      size_t index2 = index;
      Proof p2 = p;
      size_t layer = c.Draw(log - 1);
      bool reject = true;
      const char* what = "";
      switch (c.Draw(5)) {
        case 0:
          what = "commitment";
          roots2[c.Draw(log)] += NonZeroPrimeField<F>(c);
          break;
        case 1:
          what = "query answer";
          p2.evaluations[layer] += NonZeroPrimeField<F>(c);
          break;
        case 2:
          what = "opposite query answer";
          p2.evaluations_sym[layer] += NonZeroPrimeField<F>(c);
          break;
        case 3: {
          what = "sibling";
          auto& ps = (c.Bool() ? p2.paths : p2.paths_sym)[layer].paths;
          if (ps.empty()) {
            reject = false;
          } else {
            ps[c.Draw(ps.size() - 1)].hash += NonZeroPrimeField<F>(c);
          }
          break;
        }
        case 4: {
          what = "side";
          bool sym = c.Bool();
          auto& ps = (sym ? p2.paths_sym : p2.paths)[layer].paths;
          if (ps.empty()) {
            reject = false;
          } else {
            size_t i = c.Draw(ps.size() - 1);
            F h = hasher.ComputeLeafHash((sym ? p.evaluations_sym : p.evaluations)[layer]);
            for (size_t j = 0; j < i; ++j)
              h = ps[j].left ? hasher.ComputeParentHash(ps[j].hash, h)
                             : hasher.ComputeParentHash(h, ps[j].hash);
            reject = h != ps[i].hash;
            ps[i].left = !ps[i].left;
          }
          break;
        }
        default:
          what = "index";
          index2 = c.Draw(n - 1);
          reject = false;
          for (size_t i = 0; i < log; ++i) {
            size_t m = n >> i;
            reject |= index % m != index2 % m &&
                      p.evaluations[i] != p.evaluations_sym[i];
          }
      }
      c.Label(reject ? what : "no real change");
      if (reject) PBT_TM(!verify(roots2, index2, p2), "reject a change", what);
    }
  }
};

void RegisterAll() {
  Register("simple.goldilocks", 300, 3000, Simple<tm::Goldilocks>::Run);
  Register("simple.bn254_fr", 100, 1000, Simple<tm::bn254::Fr>::Run);
}

}  // namespace
PBT_INIT(RegisterAll);

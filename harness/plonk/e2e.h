// Proofs of random circuits, end to end.
#ifndef VERIF_PLONK_E2E_H_
#define VERIF_PLONK_E2E_H_

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/halo2/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/verifier.h"
#include "tachyon/zk/plonk/keys/proving_key.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"

#include "verif/plonk/circuit.h"

namespace plonk_pbt {

constexpr size_t kMaxDegree = (size_t{1} << 6) - 1;
constexpr size_t kMaxExtendedDegree = (size_t{1} << 10) - 1;

namespace th = tachyon::zk::plonk::halo2;
namespace tb = tachyon::base;
using Commitment = tachyon::math::bn254::G1AffinePoint;
using Bytes = std::vector<uint8_t>;

enum Outcome { kAccepted = 0, kRejected = 1, kAborted = 2, kCrashed = 3 };

// Runs |f| where an abort does no harm.
template <typename Fn>
Outcome Apart(Bytes* out, Fn f) {
  int fd[2];
  if (pipe(fd) != 0) return kCrashed;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    Bytes b;
    bool ok = f(&b);
    size_t at = 0;
    while (at < b.size()) {
      ssize_t n = write(fd[1], b.data() + at, b.size() - at);
      if (n <= 0) break;
      at += n;
    }
    _exit(ok ? 0 : 1);
  }
  close(fd[1]);
  uint8_t buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof(buf))) > 0)
    if (out) out->insert(out->end(), buf, buf + n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? kAccepted : kRejected;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGTRAP ||
                          WTERMSIG(st) == SIGILL))
    return kAborted;
  return kCrashed;
}

inline std::unique_ptr<tachyon::crypto::TranscriptWriter<Commitment>> Writer(int t) {
  tb::Uint8VectorBuffer b;
  switch (t) {
    case 0: return std::make_unique<th::Blake2bWriter<Commitment>>(std::move(b));
    case 1: return std::make_unique<th::PoseidonWriter<Commitment>>(std::move(b));
    case 2: return std::make_unique<th::Sha256Writer<Commitment>>(std::move(b));
    default:
      return std::make_unique<th::SnarkVerifierPoseidonWriter<Commitment>>(std::move(b));
  }
}
inline std::unique_ptr<tachyon::crypto::TranscriptReader<Commitment>> Reader(
    int t, Bytes& bytes) {
  tb::Buffer b(bytes.data(), bytes.size());
  switch (t) {
    case 0: return std::make_unique<th::Blake2bReader<Commitment>>(std::move(b));
    case 1: return std::make_unique<th::PoseidonReader<Commitment>>(std::move(b));
    case 2: return std::make_unique<th::Sha256Reader<Commitment>>(std::move(b));
    default:
      return std::make_unique<th::SnarkVerifierPoseidonReader<Commitment>>(std::move(b));
  }
}

inline std::string Str(const Ex& e) {
  auto rot = [&] { return e.rot ? "@" + std::to_string(e.rot) : std::string(); };
  switch (e.op) {
    case Ex::kAdvice: return "a" + std::to_string(e.col) + rot();
    case Ex::kFixed: return "f" + std::to_string(e.col) + rot();
    case Ex::kInstance: return "i" + rot();
    case Ex::kConst: return e.c.ToString();
    case Ex::kChallenge: return "ch";
    case Ex::kAdd: return "(" + Str(e.sub[0]) + " + " + Str(e.sub[1]) + ")";
    case Ex::kMul: return Str(e.sub[0]) + " * " + Str(e.sub[1]);
    case Ex::kNeg: return "-(" + Str(e.sub[0]) + ")";
    default: return "(" + Str(e.sub[0]) + ") * " + e.c.ToString();
  }
}

inline void DumpShape(const Shape& s) {
  for (size_t g = 0; g < s.gates.size(); ++g) {
    std::cerr << "gate " << g << (s.gates[g].complex ? " complex" : " simple");
    if (s.gates[g].shared >= 0) std::cerr << " shares " << s.gates[g].shared;
    for (const auto& [col, ex] : s.gates[g].outs)
      std::cerr << ", a" << col << " = " << Str(ex);
    std::cerr << "\n";
  }
  for (size_t i = 0; i < s.phase.size(); ++i)
    if (s.phase[i]) std::cerr << "a" << i << " has phase 1\n";
  static const char* kNames[] = {"none", "free", "out", "copy", "copy fixed", "instance",
                                 "from instance", "const", "from const", "lookup",
                                 "table", "shuffle in", "shuffle out"};
  for (size_t r = 0; r < s.regions.size(); ++r) {
    const Region& rg = s.regions[r];
    std::cerr << "region " << r << " height " << rg.height << "\n";
    for (const auto& [at, k] : rg.cells) {
      std::cerr << "  a" << at.first << "[" << at.second << "] " << kNames[k.k];
      if (k.k == Kind::kCopy || k.k == Kind::kCopyFixed)
        std::cerr << " of " << k.from.region << ":" << k.from.col << "[" << k.from.off
                  << "]";
      std::cerr << " " << k.arg << "\n";
    }
    for (const auto& [g, off] : rg.gates)
      std::cerr << "  gate " << g << " on at " << off << "\n";
  }
  for (const auto& [row, id] : s.outputs)
    std::cerr << "output " << row << " = " << id.region << ":a" << id.col << "[" << id.off
              << "]\n";
}

template <typename PS, template <typename> class FP>
struct E2E {
  using PCS = typename PS::PCS;
  using Evals = typename PCS::Evals;
  using Domain = typename PCS::Domain;
  using Circuit = RandomCircuit<FP>;
  using VKey = tp::VerifyingKey<F, Commitment>;

  static const PCS& Setup(uint32_t k) {
    static std::map<uint32_t, PCS> cache;
    auto it = cache.find(k);
    if (it == cache.end()) {
      PCS pcs;
      if (!pcs.UnsafeSetup(size_t{1} << k, F(1234567 + k))) abort();
      it = cache.emplace(k, std::move(pcs)).first;
    }
    return it->second;
  }

  static th::Prover<PS> MakeProver(uint32_t k, int transcript, const Bytes& seed) {
    PCS pcs = Setup(k);
    auto rng = std::make_unique<tachyon::crypto::XORShiftRNG>();
    if (!rng->SetSeed(seed)) abort();
    th::Prover<PS> p =
        th::Prover<PS>::Create(std::move(pcs), Writer(transcript), std::move(rng), 0);
    p.set_domain(Domain::Create(size_t{1} << k));
    return p;
  }

  static std::vector<std::vector<Evals>> Instances(const Shape& s,
                                                   const std::vector<Data>& ds) {
    std::vector<std::vector<Evals>> ret;
    for (const Data& d : ds) {
      std::vector<Evals> cols;
      for (int i = 0; i < s.instances; ++i)
        cols.push_back(Evals(std::vector<F>(d.instance)));
      ret.push_back(std::move(cols));
    }
    return ret;
  }

  static bool Prove(const Shape& s, int transcript, const std::vector<Data>& ds,
                    const Bytes& seed, bool with_vk, Bytes* out, F* repr) {
    th::Prover<PS> prover = MakeProver(s.k, transcript, seed);
    std::vector<Circuit> circuits;
    for (const Data& d : ds) circuits.emplace_back(&d);
    tp::ProvingKey<PS> pkey;
    if (with_vk) {
      VKey vk;
      if (!vk.Load(&prover, circuits[0], PS::kLookupType)) return false;
      if (!pkey.LoadWithVerifyingKey(&prover, circuits[0], std::move(vk))) return false;
    } else {
      if (!pkey.Load(&prover, circuits[0])) return false;
    }
    if (repr) *repr = pkey.verifying_key().transcript_repr();
    prover.CreateProof(pkey, Instances(s, ds), circuits);
    *out = prover.GetWriter()->buffer().owned_buffer();
    return true;
  }

  // The verifier only has the circuit without its witness.
  static bool Verify(const Shape& s, int transcript, const std::vector<Data>& ds,
                     Bytes proof, F* repr) {
    PCS pcs = Setup(s.k);
    th::Verifier<PS> v(std::move(pcs), Reader(transcript, proof));
    v.set_domain(Domain::Create(size_t{1} << s.k));
    VKey vk;
    Circuit blank;
    if (!vk.Load(&v, blank, PS::kLookupType)) return false;
    if (repr) *repr = vk.transcript_repr();
    return v.VerifyProof(vk, Instances(s, ds));
  }

  static void Common(Case& c, Shape* s, std::vector<Data>* ds, int* transcript,
                     Bytes* seed) {
    Rng r = c.Bulk();
    *transcript = static_cast<int>(c.Draw(3));
    size_t n = 1 + (c.Draw(3) == 0);
    *s = AnyShape(c, r);
    CurrentShape() = s;
    for (size_t i = 0; i < n; ++i) ds->push_back(AnyData(*s, r));
    seed->resize(16);
    for (uint8_t& b : *seed) b = static_cast<uint8_t>(r.Next());
    (*seed)[0] |= 1;
    if (c.verbose()) DumpShape(*s);
    c.LabelIf(!s->gates.empty(), "gates");
    c.LabelIf(!s->lookups.empty(), "lookups");
    c.LabelIf(!s->shuffles.empty(), "shuffles");
    c.LabelIf(s->challenge, "challenge");
    c.LabelIf(n > 1, "two circuits");
    c.LabelIf(s->inst_rows > 0, "instance values");
    size_t cells = 0, copies = 0;
    for (const Region& rg : s->regions)
      for (const auto& [at, k] : rg.cells) {
        ++cells;
        copies += k.k == Kind::kCopy || k.k == Kind::kCopyFixed ||
                  k.k == Kind::kInstance || k.k == Kind::kFromInstance ||
                  k.k == Kind::kConst || k.k == Kind::kFromConst;
      }
    c.LabelIf(copies > 0, "copies");
    if (cells >= 4 &&
        (!s->gates.empty() || !s->lookups.empty() || !s->shuffles.empty()))
      c.Nontrivial();
    c.Note("k ", s->k, ", ", s->regions.size(), " regions, ", s->advice,
           " advice columns, ", s->gates.size(), " gates, ", s->lookups.size(),
           " lookups, ", s->shuffles.size(), " shuffles, ", copies, " copies, ",
           ds->size(), " circuits, transcript ", *transcript);
  }

  static void Honest(Case& c) {
    Shape s;
    std::vector<Data> ds;
    int transcript;
    Bytes seed;
    Common(c, &s, &ds, &transcript, &seed);
    for (const Data& d : ds)
      PBT_T(Satisfied(s, d, F(987654321)), "harness_witness");
    bool with_vk = c.Bool();
    Bytes proof;
    F repr_p, repr_v;
    PBT_T(Prove(s, transcript, ds, seed, with_vk, &proof, &repr_p), "prove");
    PBT_T(Verify(s, transcript, ds, proof, &repr_v), "honest");
    PBT_T(repr_p == repr_v, "verifying_key");
    // The same again.
    if (c.Draw(3) == 0) {
      Bytes again;
      PBT_T(Prove(s, transcript, ds, seed, !with_vk, &again, nullptr), "prove");
      PBT_T(again == proof, "deterministic");
      c.Label("proved twice");
    }
    // Changes.
    std::vector<Data> other = ds;
    Bytes bad = proof;
    Rng r = c.Bulk();
    switch (c.Draw(3)) {
      case 0: {
        if (!s.inst_rows) break;
        Data& d = other[r.Upto(ds.size() - 1)];
        d.instance[r.Upto(s.inst_rows - 1)] += NonZeroF(r);
        c.Label("changed instance value");
        break;
      }
      case 1:
        bad.resize(r.Upto(bad.size() - 1));
        c.Label("cut proof");
        break;
      case 2:
        if (bad.size() >= 64) {
          size_t a = r.Upto(bad.size() / 32 - 1), b = r.Upto(bad.size() / 32 - 1);
          std::swap_ranges(bad.begin() + 32 * a, bad.begin() + 32 * a + 32,
                           bad.begin() + 32 * b);
        }
        c.Label("swapped parts");
        break;
      default:
        bad[r.Upto(bad.size() - 1)] ^= 1 << r.Upto(7);
        c.Label("changed byte");
    }
    bool changed = bad != proof;
    for (size_t i = 0; i < ds.size(); ++i)
      changed = changed || ds[i].instance != other[i].instance;
    if (!changed) return;
    Outcome o = Apart(nullptr, [&](Bytes*) {
      return Verify(s, transcript, other, bad, nullptr);
    });
    PBT_T(o != kCrashed, "crash");
    PBT_T(o != kAccepted, "changed_accepted");
    c.LabelIf(o == kAborted, "verifier aborts");
  }

  // One value is not what it should be.
  static void Dishonest(Case& c) {
    Shape s;
    std::vector<Data> ds;
    int transcript;
    Bytes seed;
    Common(c, &s, &ds, &transcript, &seed);
    Rng r = c.Bulk();
    size_t at = r.Upto(ds.size() - 1);
    Data& d = ds[at];
    if (s.inst_rows && c.Draw(3) == 0) {
      d.instance[r.Upto(s.inst_rows - 1)] += NonZeroF(r);
      // The witness was computed from the former instance values.
      c.Label("instance");
      // Only outputs are not recomputed.
    } else {
      std::vector<CellId> any, tied;
      for (size_t ri = 0; ri < s.regions.size(); ++ri)
        for (const auto& [a, k] : s.regions[ri].cells) {
          if (k.k == Kind::kNone) continue;
          any.push_back({static_cast<int>(ri), a.first, a.second});
          if (k.k != Kind::kFree) tied.push_back(any.back());
        }
      if (any.empty()) return;
      const std::vector<CellId>& from = !tied.empty() && c.Draw(3) ? tied : any;
      d.has_delta = true;
      d.delta_at = from[r.Upto(from.size() - 1)];
      d.delta = NonZeroF(r);
    }
    bool ok = true;
    for (const Data& x : ds) ok = ok && Satisfied(s, x, F(987654321));
    c.LabelIf(ok, "still satisfied");
    c.LabelIf(!ok, "not satisfied");
    Bytes proof;
    Outcome p = Apart(&proof, [&](Bytes* b) {
      return Prove(s, transcript, ds, seed, false, b, nullptr);
    });
    PBT_T(p != kCrashed, "crash");
    if (p != kAccepted) {
      PBT_T(!ok, "prover_refuses");
      c.Label("prover refuses");
      return;
    }
    Outcome o = Apart(nullptr, [&](Bytes*) {
      return Verify(s, transcript, ds, proof, nullptr);
    });
    PBT_T(o != kCrashed, "crash");
    if (ok) {
      PBT_T(o == kAccepted, "honest");
    } else {
      PBT_T(o != kAccepted, "unsatisfied_accepted");
    }
  }
};

template <typename PS>
void Register(const std::string& n) {
  tachyon::math::bn254::BN254Curve::Init();
  tachyon::math::halo2::OverrideSubgroupGenerator();
  pbt::Register("honest.simple." + n, 40, 1500, E2E<PS, tp::SimpleFloorPlanner>::Honest);
  pbt::Register("honest.v1." + n, 40, 1500, E2E<PS, tp::V1FloorPlanner>::Honest);
  pbt::Register("dishonest.simple." + n, 40, 1500, E2E<PS, tp::SimpleFloorPlanner>::Dishonest);
  pbt::Register("dishonest.v1." + n, 40, 1500, E2E<PS, tp::V1FloorPlanner>::Dishonest);
}

}  // namespace plonk_pbt

#endif  // VERIF_PLONK_E2E_H_

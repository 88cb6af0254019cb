// Constraint systems (.r1cs) and witnesses (.wtns).
#include "circomlib/r1cs/r1cs.h"
#include "circomlib/wtns/wtns.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"

#include "verif/circom/format.h"

namespace circom_pbt {
namespace {

namespace tc = tachyon::circom;
namespace tm = tachyon::math;
using tachyon::base::FilePath;

template <typename F>
struct Checks {
  struct MTerm {
    uint32_t wire;
    mpz_class v;
  };
  using MLc = std::vector<MTerm>;
  struct MR1CS {
    uint32_t wires, outs, ins, prvs, ncons;
    uint64_t labels;
    std::vector<std::array<MLc, 3>> cons;
    std::vector<uint64_t> map;
    File file;
  };

  static MR1CS AnyR1CS(Case& c) {
    MR1CS m;
    m.wires = 1 + static_cast<uint32_t>(c.Size(0, 20));
    m.outs = static_cast<uint32_t>(c.Draw(m.wires - 1));
    m.ins = static_cast<uint32_t>(c.Draw(m.wires - 1 - m.outs));
    m.prvs = static_cast<uint32_t>(c.Draw(m.wires - 1 - m.outs - m.ins));
    m.labels = c.OneIn(3) ? c.Draw(UINT64_MAX) : m.wires + c.Draw(5);
    m.ncons = static_cast<uint32_t>(c.Size(0, 12));
    Rng r = c.Bulk();
    for (uint32_t i = 0; i < m.ncons; ++i) {
      std::array<MLc, 3> con;
      for (MLc& lc : con) {
        for (size_t n = r.Upto(3); n; --n) {
          uint32_t wire = static_cast<uint32_t>(r.Upto(7) ? r.Upto(m.wires - 1) : r.Next());
          lc.push_back({wire, AnyValue<F>(r)});
        }
      }
      m.cons.push_back(con);
    }
    for (uint32_t i = 0; i < m.wires; ++i) m.map.push_back(r.Upto(3) ? r.Upto(m.labels) : r.Next());

    std::string header = ModulusBytes<F>() + U32(m.wires) + U32(m.outs) + U32(m.ins) + U32(m.prvs) +
                         U64(m.labels) + U32(m.ncons);
    std::string cons, map;
    for (auto& con : m.cons)
      for (MLc& lc : con) {
        cons += U32(lc.size());
        for (MTerm& t : lc) cons += U32(t.wire) + Plain<F>(t.v);
      }
    for (uint64_t x : m.map) map += U64(x);
    m.file = {"r1cs", 1, {{1, header}, {2, cons}, {3, map}}};
    Shuffle(c, &m.file, {4, 5, 0x77});
    c.LabelIf(m.ncons == 0, "no constraints");
    c.LabelIf(m.outs + m.ins == 0, "no public wires");
    return m;
  }

  static bool SameLc(const tc::LinearCombination<F>& lc, const MLc& m) {
    if (lc.terms.size() != m.size()) return false;
    for (size_t i = 0; i < m.size(); ++i) {
      if (lc.terms[i].wire_id != m[i].wire || FieldToMpz(lc.terms[i].coefficient) != m[i].v) return false;
    }
    return true;
  }

  static void ReadR1CS(Case& c) {
    MR1CS m = AnyR1CS(c);
    std::string bytes = m.file.Bytes();
    if (m.ncons && m.wires > 2) c.Nontrivial();
    c.Note(m.wires, " wires, ", m.outs, "+", m.ins, "+", m.prvs, ", ", m.ncons, " constraints, ",
           m.file.parts.size(), " sections");
    files::Scratch dir;
    files::Spill(dir("a.r1cs"), bytes);
    auto r = tc::ParseR1CS<F>(FilePath(dir("a.r1cs")));
    PBT_T(r != nullptr, "refused");
    PBT_T(r->GetVersion() == 1 && r->ToV1() != nullptr, "version");
    auto* v = r->ToV1();
    PBT_T(v->header.modulus.bytes.size() == kBytes<F>, "modulus size");
    mpz_class p = 0;
    for (size_t i = kBytes<F>; i-- > 0;) p = (p << 8) + v->header.modulus.bytes[i];
    PBT_T(p == Modulus<F>(), "modulus");
    PBT_T(v->header.num_wires == m.wires, "wires");
    PBT_T(v->header.num_public_outputs == m.outs, "outputs");
    PBT_T(v->header.num_public_inputs == m.ins, "inputs");
    PBT_T(v->header.num_private_inputs == m.prvs, "private inputs");
    PBT_T(v->header.num_labels == m.labels, "labels");
    PBT_T(v->header.num_constraints == m.ncons, "constraints");
    PBT_T(r->GetNumInstanceVariables() == 1 + m.outs + m.ins, "instance variables");
    PBT_T(r->GetNumVariables() == m.wires, "variables");
    PBT_T(r->GetWireId2LabelIdMap() == m.map, "label map");
    const auto& cons = r->GetConstraints();
    PBT_TM(cons.size() == m.ncons, "number of constraints", cons.size());
    for (size_t i = 0; i < cons.size(); ++i) {
      PBT_TM(SameLc(cons[i].a, m.cons[i][0]), "a", "constraint " << i << ": " << cons[i].ToString());
      PBT_TM(SameLc(cons[i].b, m.cons[i][1]), "b", "constraint " << i << ": " << cons[i].ToString());
      PBT_TM(SameLc(cons[i].c, m.cons[i][2]), "c", "constraint " << i << ": " << cons[i].ToString());
    }
    PBT_T(files::Slurp(dir("a.r1cs")) == bytes, "file changed");
  }

  static void RefuseR1CS(Case& c) {
    LimitMemory();
    MR1CS m = AnyR1CS(c);
    size_t h = 4 + kBytes<F>;
    std::vector<std::pair<uint32_t, size_t>> counts = {{1, 0}, {1, h}, {1, h + 24}};
    if (m.ncons) {
      counts.push_back({2, 0});
      counts.push_back({2, 4 + m.cons[0][0].size() * (4 + kBytes<F>)});
    }
    c.Nontrivial();
    std::string bytes = Spoil(c, m.file, counts, 1, {1, 0});
    files::Scratch dir;
    files::Spill(dir("a.r1cs"), bytes);
    PBT_T(tc::ParseR1CS<F>(FilePath(dir("a.r1cs"))) == nullptr, "accepted");
  }

  static void GarbleR1CS(Case& c) {
    LimitMemory();
    MR1CS m = AnyR1CS(c);
    c.Nontrivial();
    files::Scratch dir;
    files::Spill(dir("a.r1cs"), Garble(c, m.file.Bytes()));
    auto r = tc::ParseR1CS<F>(FilePath(dir("a.r1cs")));
    c.Label(r ? "accepted" : "refused");
    if (!r) return;
    PBT_T(r->GetConstraints().size() == r->ToV1()->header.num_constraints, "number of constraints");
    PBT_T(r->GetWireId2LabelIdMap().size() == r->GetNumVariables(), "label map");
    for (auto& con : r->GetConstraints())
      for (auto* lc : {&con.a, &con.b, &con.c})
        for (auto& t : lc->terms) PBT_T(FieldToMpz(t.coefficient) < Modulus<F>(), "coefficient out of range");
  }

  struct MWtns {
    std::vector<mpz_class> w;
    File file;
  };
  static MWtns AnyWtns(Case& c) {
    MWtns m;
    size_t n = c.OneIn(6) ? c.Draw(400) : c.Size(0, 20);
    Rng r = c.Bulk();
    std::string data;
    for (size_t i = 0; i < n; ++i) {
      m.w.push_back(AnyValue<F>(r));
      data += Plain<F>(m.w.back());
    }
    m.file = {"wtns", 2, {{1, ModulusBytes<F>() + U32(n)}, {2, data}}};
    Shuffle(c, &m.file, {3, 4, 0x77});
    c.LabelIf(n == 0, "empty");
    return m;
  }

  static void ReadWtns(Case& c) {
    MWtns m = AnyWtns(c);
    bool mmap = c.Bool();
    c.LabelIf(mmap, "mapped");
    if (m.w.size() > 2) c.Nontrivial();
    std::string bytes = m.file.Bytes();
    c.Note(m.w.size(), " values, ", m.file.parts.size(), " sections", mmap ? ", mapped" : "");
    files::Scratch dir;
    files::Spill(dir("a.wtns"), bytes);
    for (int round = 0; round < 2; ++round) {
      auto w = tc::ParseWtns<F>(FilePath(dir("a.wtns")), mmap);
      PBT_T(w != nullptr, "refused");
      PBT_T(w->GetVersion() == 2 && w->ToV2() != nullptr, "version");
      PBT_T(w->ToV2()->header.num_witness == m.w.size(), "header count");
      PBT_T(w->ToV2()->header.modulus.bytes.size() == kBytes<F>, "modulus size");
      PBT_T(w->GetNumWitness() == m.w.size(), "count");
      auto span = w->GetWitnesses();
      PBT_T(span.size() == m.w.size(), "span");
      for (size_t i = 0; i < span.size(); ++i) {
        F f = span[i];
        PBT_TM(FieldToMpz(f) == m.w[i], "value", "witness " << i << " is " << f.ToString() << ", not " << m.w[i]);
      }
      PBT_T(files::Slurp(dir("a.wtns")) == bytes, "file changed");
    }
  }

  static void RefuseWtns(Case& c) {
    LimitMemory();
    MWtns m = AnyWtns(c);
    bool mmap = c.Bool();
    c.LabelIf(mmap, "mapped");
    c.Nontrivial();
    std::string bytes = Spoil(c, m.file, {{1, 0}, {1, 4 + kBytes<F>}}, 2, {1, 0});
    files::Scratch dir;
    files::Spill(dir("a.wtns"), bytes);
    PBT_T(tc::ParseWtns<F>(FilePath(dir("a.wtns")), mmap) == nullptr, "accepted");
  }

  static void GarbleWtns(Case& c) {
    LimitMemory();
    MWtns m = AnyWtns(c);
    c.Nontrivial();
    bool mmap = c.Bool();
    files::Scratch dir;
    files::Spill(dir("a.wtns"), Garble(c, m.file.Bytes()));
    auto w = tc::ParseWtns<F>(FilePath(dir("a.wtns")), mmap);
    c.Label(w ? "accepted" : "refused");
    if (!w) return;
    unsigned char sum = 0;
    for (const F& f : w->GetWitnesses())
      for (size_t i = 0; i < sizeof(F); ++i) sum ^= reinterpret_cast<const unsigned char*>(&f)[i];
    volatile unsigned char use = sum;
    (void)use;
    PBT_T(w->GetNumWitness() == w->ToV2()->header.num_witness, "count");
  }

  static void Add(const std::string& name) {
    F::Init();
    Register("r1cs_read." + name, 100, 4000, ReadR1CS);
    Register("r1cs_refuse." + name, 100, 4000, RefuseR1CS);
    Register("r1cs_garbled." + name, 100, 4000, GarbleR1CS);
    Register("wtns_read." + name, 100, 4000, ReadWtns);
    Register("wtns_refuse." + name, 100, 4000, RefuseWtns);
    Register("wtns_garbled." + name, 100, 4000, GarbleWtns);
  }
};

void NoFile(Case& c) {
  using F = tm::bn254::Fr;
  c.Nontrivial();
  files::Scratch dir;
  FilePath path(dir("nothing"));
  bool mmap = c.Bool();
  if (c.Bool()) {
    files::Spill(path.value(), std::string(c.Draw(7), 'r'));
    c.Label("hardly any bytes");
  }
  PBT_T(tc::ParseR1CS<F>(path) == nullptr, "r1cs");
  PBT_T(tc::ParseWtns<F>(path, mmap) == nullptr, "wtns");
}

void RegisterAll() {
  Checks<tm::bn254::Fr>::Add("bn254");
  Checks<tm::bls12_381::Fr>::Add("bls12_381");
  Checks<tm::Goldilocks>::Add("goldilocks");
  Register("no_file.systems", 20, 200, NoFile);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace circom_pbt

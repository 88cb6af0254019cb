// C19: the multilinear sumcheck protocol against partial sums computed from
// the definition.
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {
using namespace pbt;              // NOLINT
using namespace tachyon;          // NOLINT
using namespace tachyon::math;    // NOLINT
using namespace tachyon::crypto;  // NOLINT

template <typename F, bool kSmall>
struct P {
  static constexpr size_t kMaxVars = 10;
  static constexpr size_t kMaxMul = 6;
  using MLE = MultilinearDenseEvaluations<F, kMaxVars>;
  using V = std::vector<F>;
  using Prover = SumcheckProver<MLE, kMaxMul>;
  using Verifier = SumcheckVerifier<MLE>;
  using PMsg = SumcheckProverMsg<F, kMaxMul>;
  using VMsg = SumcheckVerifierMsg<F>;

  static F AnyF(Rng& r) {
    switch (r.Upto(8)) {
      case 0:
        return F::Zero();
      case 1:
        return F::One();
      case 2:
        return -F::One();
      case 3:
        return F(r.Upto(6));
      default:
        return BulkPrimeField<F>(r);
    }
  }
  static F NonZero(Rng& r) {
    F x = AnyF(r);
    return x.IsZero() ? F::One() : x;
  }

  struct Term {
    F coeff;
    std::vector<size_t> idx;
  };
  struct Inst {
    size_t v = 0, max = 0;
    std::vector<V> tables;
    std::vector<Term> terms;
    LinearCombination<MLE> lc;
    std::vector<std::shared_ptr<MLE>> mles;
  };

  static std::string Str(const V& v) {
    std::string s;
    for (const F& x : v) s += x.ToString() + " ";
    return s;
  }

  static void Gen(Case& c, Inst& in, bool big) {
    in.v = big ? 7 + c.Draw(3) : 1 + c.Draw(6);
    size_t ntab = 1 + c.Draw(5);
    size_t nterm = 1 + c.Draw(4);
    Rng r = c.Bulk();
    size_t size = size_t{1} << in.v;
    size_t kind = c.Draw(5);
    c.LabelIf(kind == 0, "short table");
    for (size_t i = 0; i < ntab; ++i) {
      V t(size);
      for (F& x : t) x = AnyF(r);
      if (kind == 1 && i == 0) std::fill(t.begin(), t.end(), F::Zero());
      if (kind == 2 && i == 0) std::fill(t.begin(), t.end(), AnyF(r));
      size_t len = size;
      // A table may leave out zeros at its end.
      if (kind == 0) len = size / 2 + 1 + r.Upto(size / 2 - 1);
      for (size_t j = len; j < size; ++j) t[j] = F::Zero();
      in.tables.push_back(t);
      in.mles.push_back(std::make_shared<MLE>(V(t.begin(), t.begin() + len)));
    }
    LinearCombination<MLE> empty(in.v);
    in.lc = empty;
    for (size_t i = 0; i < nterm; ++i) {
      Term t;
      t.coeff = AnyF(r);
      size_t n = 1 + r.Upto(kMaxMul - 1);
      std::vector<std::shared_ptr<MLE>> ms;
      for (size_t j = 0; j < n; ++j) {
        t.idx.push_back(r.Upto(ntab - 1));
        ms.push_back(in.mles[t.idx.back()]);
      }
      in.max = std::max(in.max, n);
      in.terms.push_back(t);
      in.lc.AddTerm(t.coeff, ms);
    }
    c.Note("variables, tables, terms, largest product: ", in.v, " ",
           ntab, " ", nterm, " ", in.max);
    c.LabelIf(nterm > 1, "several terms");
    c.LabelIf(ntab > 1, "several tables");
    c.LabelIf(in.max > 1, "a product");
    if (in.v >= 2 && in.max >= 2) c.Nontrivial();
  }

  static void Fold(std::vector<V>& tabs, const F& r) {
    for (V& t : tabs) {
      V n(t.size() / 2);
      for (size_t i = 0; i < n.size(); ++i)
        n[i] = (F::One() - r) * t[2 * i] + r * t[2 * i + 1];
      t = n;
    }
  }

  // P_i(X) with the tables folded to the remaining variables.
  static F PartialAt(const Inst& in, const std::vector<V>& tabs, const F& x) {
    F acc = F::Zero();
    size_t half = tabs[0].size() / 2;
    for (const Term& t : in.terms) {
      F s = F::Zero();
      for (size_t i = 0; i < half; ++i) {
        F p = F::One();
        for (size_t k : t.idx)
          p *= (F::One() - x) * tabs[k][2 * i] + x * tabs[k][2 * i + 1];
        s += p;
      }
      acc += t.coeff * s;
    }
    return acc;
  }

  static F TotalOf(const Inst& in, const std::vector<V>& tabs) {
    F acc = F::Zero();
    for (const Term& t : in.terms) {
      F s = F::Zero();
      for (size_t i = 0; i < tabs[0].size(); ++i) {
        F p = F::One();
        for (size_t k : t.idx) p *= tabs[k][i];
        s += p;
      }
      acc += t.coeff * s;
    }
    return acc;
  }

  // The polynomial through (i, ys[i]) at x.
  static F Interp(const V& ys, const F& x) {
    F acc = F::Zero();
    for (size_t i = 0; i < ys.size(); ++i) {
      F num = ys[i], den = F::One();
      for (size_t j = 0; j < ys.size(); ++j) {
        if (i == j) continue;
        num *= x - F(j);
        den *= F(i) - F(j);
      }
      acc += num * *den.Inverse();
    }
    return acc;
  }

  static V RefMsg(const Inst& in, const std::vector<V>& tabs) {
    V ret;
    for (size_t j = 0; j <= in.max; ++j) ret.push_back(PartialAt(in, tabs, F(j)));
    return ret;
  }

  static F Challenge(const Inst& in, Rng& r) {
    switch (r.Upto(4)) {
      case 0:
        return F(r.Upto(in.max + 2));
      case 1:
        return -F(r.Upto(3));
      default:
        return BulkPrimeField<F>(r);
    }
  }

  // The prover's messages for challenges chosen by us.
  static void ProverRounds(Case& c) {
    Inst in;
    Gen(c, in, c.OneIn(6));
    Rng r = c.Bulk();
    SumcheckProvingKey<MLE> key = SumcheckProvingKey<MLE>::Build(in.lc);
    PBT_T(key.verifying_key.num_variables == in.v &&
              key.verifying_key.max_evaluations == in.max,
          "verifying_key");
    if (r.Upto(2) == 0) {
      c.Label("key written and read");
      base::Uint8VectorBuffer b;
      PBT_T(b.Grow(base::EstimateSize(key)), "grow");
      PBT_T(b.Write(key) && b.Done(), "key_write");
      b.set_buffer_offset(0);
      SumcheckProvingKey<MLE> key2;
      PBT_T(b.Read(&key2), "key_read");
      PBT_T(key == key2, "key_equal");
      key = std::move(key2);
    }
    if (r.Upto(3) == 0) {
      // Keys of different polynomials differ.
      SumcheckProvingKey<MLE> other = key;
      PBT_T(other == key && !(other != key), "key_copy_equal");
      size_t i = r.Upto(in.mles.size() - 1);
      if (i < other.flattened_ml_evaluations.size()) {
        c.Label("key of a changed table");
        MLE& m = other.flattened_ml_evaluations[i];
        size_t j = r.Upto(m.evaluations().size() - 1);
        m.evaluations()[j] += F::One();
        PBT_T(!(other == key) && other != key, "key_differs");
      }
    }
    Prover prover(key);
    std::vector<V> tabs = in.tables;
    F claim = TotalOf(in, tabs);
    PBT_TM(in.lc.Combine() == claim, "combine",
           in.lc.Combine().ToString() << " instead of " << claim.ToString());
    V point;
    for (size_t i = 0; i < in.v; ++i) {
      PMsg m = i == 0 ? prover.Round() : prover.Round(VMsg{point.back()});
      V want = RefMsg(in, tabs);
      const V& got = m.evaluations.evaluations();
      PBT_TM(got == want, "message",
             "round " << i << ": " << Str(got) << "instead of " << Str(want));
      F ch = Challenge(in, r);
      point.push_back(ch);
      F next = PartialAt(in, tabs, ch);
      PBT_TM(InterpolateUniPoly(got, ch) == next, "interpolated",
             "round " << i << " at " << ch.ToString());
      Fold(tabs, ch);
    }
    F last = TotalOf(in, tabs);
    PBT_TM(in.lc.Evaluate(point) == last, "evaluate",
           in.lc.Evaluate(point).ToString() << " instead of "
                                            << last.ToString());
  }

  // A whole exchange, in which one thing may be changed.
  static void Exchange(Case& c) {
    Inst in;
    Gen(c, in, c.OneIn(8));
    size_t what = c.Draw(5);
    Rng r = c.Bulk();
    SumcheckProvingKey<MLE> key = SumcheckProvingKey<MLE>::Build(in.lc);
    Prover prover(std::move(key));
    Verifier verifier(SumcheckVerifyingKey::Build(in.lc));
    F sum = TotalOf(in, in.tables);
    F claim = sum;
    size_t round = r.Upto(in.v - 1), pos = r.Upto(in.max);
    switch (what) {
      case 0:
      case 1:
        c.Label("honest");
        break;
      case 2:
        c.Label("changed sum");
        claim += NonZero(r);
        break;
      case 3:
        c.Label("changed message");
        break;
      case 4:
        c.Label("changed sum and consistent first message");
        claim += NonZero(r);
        break;
      case 5:
        c.Label("changed challenge for the prover");
        break;
    }
    V rs;
    std::vector<V> msgs;
    std::vector<V> tabs = in.tables;
    PMsg m = prover.Round();
    for (size_t i = 0; i < in.v; ++i) {
      if (i) {
        F x = rs.back();
        if (what == 5 && i - 1 == round) x += NonZero(r);
        Fold(tabs, x);
        m = prover.Round(VMsg{x});
      }
      V want = RefMsg(in, tabs);
      PBT_TM(m.evaluations.evaluations() == want, "message", "round " << i << ": " << Str(m.evaluations.evaluations()) << " instead of " << Str(want) << " challenges " << Str(rs));
      if (what == 3 && i == round) {
        m.evaluations.at(pos) += NonZero(r);
      }
      if (what == 4 && i == 0) {
        // Moves the lie to the end of the protocol.
        F d = claim - sum;
        if (r.Bool())
          m.evaluations.at(0) += d;
        else
          m.evaluations.at(1) += d;
      }
      msgs.push_back(m.evaluations.evaluations());
      rs.push_back(verifier.Round(std::move(m)).random_value);
      if (i + 1 == in.v) break;
    }
    // What the verifier has to answer follows from what it received.
    bool want = true;
    F expected = claim;
    for (size_t i = 0; i < in.v && want; ++i) {
      want = msgs[i][0] + msgs[i][1] == expected;
      expected = Interp(msgs[i], rs[i]);
    }
    Subclaim<F> sub;
    bool got = verifier.CheckAndGenerateSubclaim(claim, &sub);
    PBT_TM(got == want, "answer", (got ? "accepted" : "rejected") << " " << what);
    if (what < 2) PBT_T(got, "honest_rejected");
    if (what == 2) PBT_T(!got, "false_sum_accepted");
    c.LabelIf(!got, "rejected");
    if (!got) return;
    PBT_T(sub.point == rs, "point");
    PBT_TM(sub.expected_evaluation == expected, "value",
           sub.expected_evaluation.ToString() << " instead of "
                                              << expected.ToString());
    std::vector<V> at = in.tables;
    for (const F& x : rs) Fold(at, x);
    F truth = TotalOf(in, at);
    PBT_T(in.lc.Evaluate(sub.point) == truth, "evaluate");
    if (what < 2) {
      PBT_TM(sub.expected_evaluation == truth, "honest_value",
             sub.expected_evaluation.ToString() << " instead of "
                                                << truth.ToString());
    } else if (!kSmall && what == 4) {
      // Holds but for a fraction of 2^-250 of the challenges.
      PBT_T(sub.expected_evaluation != truth, "false_claim_accepted");
    }
  }

  static void Interpolate(Case& c) {
    size_t n = c.OneIn(30) ? 60 + c.Draw(500) : 1 + c.Draw(40);
    Rng r = c.Bulk();
    V ys(n);
    for (F& y : ys) y = AnyF(r);
    F x;
    switch (c.Draw(4)) {
      case 0:
        x = F(r.Upto(n - 1));
        c.Label("at a node");
        break;
      case 1:
        x = F(n + r.Upto(3));
        c.Label("just above the nodes");
        break;
      case 2:
        x = -F(r.Upto(3));
        break;
      default:
        x = AnyF(r);
    }
    if (n > 2) c.Nontrivial();
    c.Note(n, " values at ", x.ToString());
    // Newton's forward differences for large inputs are quadratic as well.
    F want = Interp(ys, x);
    F got = InterpolateUniPoly(ys, x);
    PBT_TM(got == want, "interpolate",
           got.ToString() << " instead of " << want.ToString());
  }

  static void Interactive(Case& c) {
    Inst in;
    Gen(c, in, c.OneIn(10));
    PBT_T(MultilinearSumcheck<MLE>::template RunInteractiveProtocol<kMaxMul>(
              in.lc, in.v),
          "interactive");
  }

  static void Register(const char* name, int scale) {
    F::Init();
    std::string s = name;
    pbt::Register("prover." + s, 600 * scale, 12000 * scale, ProverRounds);
    pbt::Register("exchange." + s, 900 * scale, 18000 * scale, Exchange);
    pbt::Register("interpolate." + s, 600 * scale, 12000 * scale, Interpolate);
    pbt::Register("interactive." + s, 150 * scale, 3000 * scale, Interactive);
  }
};

void RegisterAll() {
  P<bn254::Fr, false>::Register("bn254_fr", 1);
  P<Goldilocks, true>::Register("goldilocks", 1);
  P<BabyBear, true>::Register("baby_bear", 1);
}
}  // namespace
PBT_INIT(RegisterAll);

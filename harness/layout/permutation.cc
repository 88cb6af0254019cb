// Copy constraints, permutation polynomials, permuted lookup columns, blinding.
#include <algorithm>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <utility>
#include <vector>

#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/base/entities/prover_base.h"
#include "tachyon/zk/lookup/halo2/permute_expression_pair.h"
#include "tachyon/zk/plonk/halo2/witness_collection.h"
#include "tachyon/zk/plonk/keys/assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace layout_pbt {
namespace {

using pbt::Case;
using pbt::Rng;
namespace tm = tachyon::math;
namespace tz = tachyon::zk;
namespace tp = tachyon::zk::plonk;

template <typename F>
F AnyF(Rng& r) {
  switch (r.Upto(4)) {
    case 0: return F(static_cast<uint64_t>(r.Upto(3)));
    case 1: return -F(static_cast<uint64_t>(1 + r.Upto(2)));
    default: return pbt::BulkPrimeField<F>(r);
  }
}

struct Classes {
  std::vector<size_t> up;
  explicit Classes(size_t n) : up(n) { std::iota(up.begin(), up.end(), 0); }
  size_t Find(size_t i) const {
    while (up[i] != i) i = up[i];
    return i;
  }
  bool Join(size_t a, size_t b) {
    a = Find(a);
    b = Find(b);
    if (a == b) return false;
    up[a] = b;
    return true;
  }
  size_t Size(size_t i) const {
    size_t n = 0;
    for (size_t k = 0; k < up.size(); ++k) n += Find(k) == Find(i);
    return n;
  }
};

// A pair of cells, often near to ones that were used before.
struct Picker {
  std::vector<size_t> used;
  size_t Pick(Rng& r, size_t n) {
    size_t i = !used.empty() && r.Upto(2) ? used[r.Upto(used.size() - 1)] : r.Upto(n - 1);
    used.push_back(i);
    return i;
  }
};

// `next` is a permutation whose cycles are the classes.
template <typename Next>
void CheckCycles(Case& c, const Classes& cl, size_t n, Next next) {
  std::vector<bool> hit(n);
  for (size_t i = 0; i < n; ++i) {
    size_t j = next(i);
    PBT_T(j < n, "range");
    PBT_T(!hit[j], "bijection");
    hit[j] = true;
  }
  std::vector<bool> seen(n);
  std::set<size_t> roots;
  for (size_t i = 0; i < n; ++i) {
    if (seen[i]) continue;
    size_t len = 0;
    for (size_t j = i; !seen[j]; j = next(j)) {
      seen[j] = true;
      ++len;
      PBT_TM(cl.Find(j) == cl.Find(i), "unrelated", i << " reaches " << j);
    }
    PBT_TM(roots.insert(cl.Find(i)).second, "split", "two cycles for " << i);
    PBT_TM(len == cl.Size(i), "length", len << " " << cl.Size(i));
  }
}

void Cycles(Case& c) {
  size_t cols = 1 + c.Draw(4), rows = 1 + c.Draw(15), n = cols * rows;
  size_t ops = c.Size(0, 60);
  Rng r = c.Bulk();
  tp::CycleStore store(cols, rows);
  auto label = [&](size_t i) { return tp::Label(i / rows, i % rows); };
  auto id = [&](const tp::Label& l) { return l.col * rows + l.row; };
  Classes cl(n);
  Picker p;
  size_t merged = 0;
  c.Note(cols, " columns, ", rows, " rows, ", ops, " copies");
  for (size_t i = 0; i < ops; ++i) {
    size_t a = p.Pick(r, n), b = p.Pick(r, n);
    c.Note(a, "=", b);
    bool joined = cl.Join(a, b);
    merged += joined;
    PBT_TM(store.MergeCycle(label(a), label(b)) == joined, "merge", a << " " << b);
    size_t x = r.Upto(n - 1), y = p.Pick(r, n);
    PBT_T(store.CheckSameCycle(label(x), label(y)) == (cl.Find(x) == cl.Find(y)), "same");
    PBT_T(store.CheckSameCycle(label(a), label(b)), "same");
    PBT_T(store.GetCycleSize(label(a)) == cl.Size(a), "size");
    PBT_T(store.GetCycleSize(label(x)) == cl.Size(x), "size");
  }
  if (merged >= 3) c.Nontrivial();
  c.LabelIf(merged < ops, "repeated");
  CheckCycles(c, cl, n, [&](size_t i) { return id(store.GetNextLabel(label(i))); });
  for (size_t i = 0; i < n; ++i) {
    PBT_T(cl.Find(id(store.GetCycleBase(label(i)))) == cl.Find(i), "base");
    PBT_T(store.GetCycleSize(label(i)) == cl.Size(i), "size");
    std::set<size_t> got, want;
    for (const tp::Label& l : store.GetAllLabels(label(i))) got.insert(id(l));
    for (size_t k = 0; k < n; ++k)
      if (cl.Find(k) == cl.Find(i)) want.insert(k);
    PBT_T(got == want, "labels");
    size_t k = r.Upto(n - 1);
    PBT_T(store.CheckSameCycle(label(i), label(k)) == (cl.Find(i) == cl.Find(k)), "same");
  }
}

template <typename F>
struct Perm {
  static constexpr size_t kMax = 63;
  using Domain = tm::UnivariateEvaluationDomain<F, kMax>;
  using Evals = typename Domain::Evals;

  static std::vector<tp::AnyColumnKey> Keys(Rng& r, size_t cols) {
    std::vector<tp::AnyColumnKey> keys;
    while (keys.size() < cols) {
      size_t i = r.Upto(5);
      tp::AnyColumnKey k = tp::AdviceColumnKey(i);
      switch (r.Upto(2)) {
        case 0: k = tp::FixedColumnKey(i); break;
        case 1: k = tp::InstanceColumnKey(i); break;
        default: break;
      }
      bool known = false;
      for (const tp::AnyColumnKey& o : keys)
        known = known || (o.type() == k.type() && o.index() == k.index());
      if (!known) keys.push_back(k);
    }
    return keys;
  }

  static void Run(Case& c) {
    uint32_t k = static_cast<uint32_t>(c.Draw(5));
    size_t rows = size_t{1} << k, cols = 1 + c.Draw(7), n = rows * cols;
    size_t ops = c.Size(0, 50);
    Rng r = c.Bulk();
    std::unique_ptr<Domain> d = tm::Radix2EvaluationDomain<F, kMax>::Create(rows);
    std::vector<tp::AnyColumnKey> keys = Keys(r, cols);
    tp::PermutationAssembly assembly(keys, rows);
    Classes cl(n);
    Picker p;
    c.Note(cols, " columns, ", rows, " rows, ", ops, " copies");
    size_t merged = 0;
    for (size_t i = 0; i < ops; ++i) {
      size_t a = p.Pick(r, n), b = p.Pick(r, n);
      merged += cl.Join(a, b);
      assembly.Copy(keys[a / rows], a % rows, keys[b / rows], b % rows);
    }
    if (merged >= 3) c.Nontrivial();
    std::vector<Evals> perms = assembly.template GeneratePermutations<Evals>(d.get());
    PBT_T(perms.size() == cols, "columns");
    // The identity's values tell the cells apart.
    tp::UnpermutedTable<Evals> id =
        tp::UnpermutedTable<Evals>::Construct(cols, rows, d.get());
    std::map<mpz_class, size_t> at;
    F delta = tp::GetDelta<F>();
    F left = F::One();
    for (size_t col = 0; col < cols; ++col) {
      F x = left;
      for (size_t row = 0; row < rows; ++row) {
        F v = id[tp::Label(col, row)];
        PBT_T(v == x, "identity");
        PBT_T(at.insert({pbt::FieldToMpz(v), col * rows + row}).second, "distinct");
        x *= d->group_gen();
      }
      left *= delta;
    }
    std::vector<size_t> next(n);
    for (size_t i = 0; i < n; ++i) {
      PBT_T(perms[i / rows].NumElements() == rows, "rows");
      auto it = at.find(pbt::FieldToMpz(perms[i / rows][i % rows]));
      PBT_TM(it != at.end(), "value", "cell " << i);
      next[i] = it->second;
    }
    CheckCycles(c, cl, n, [&](size_t i) { return next[i]; });
  }
};

template <typename F>
std::unique_ptr<tm::UnivariateEvaluationDomain<F, 127>> ToyDomain(size_t n) {
  return tm::Radix2EvaluationDomain<F, 127>::Create(n);
}

using F = tm::bn254::Fr;

// Fixed columns, selectors and copies of a key; advice of a witness.
void Assembly(Case& c) {
  constexpr size_t kMax = 127;
  using Domain = tm::UnivariateEvaluationDomain<F, kMax>;
  using RE = tm::UnivariateEvaluations<tm::RationalField<F>, kMax>;
  uint32_t k = 3 + static_cast<uint32_t>(c.Draw(3));
  size_t rows = size_t{1} << k, usable = rows - 1 - c.Draw(6);
  size_t fixed = 1 + c.Draw(2), advice = 1 + c.Draw(2), selectors = c.Draw(3);
  Rng r = c.Bulk();
  std::unique_ptr<Domain> d = ToyDomain<F>(rows);
  std::vector<tp::AnyColumnKey> keys;
  for (size_t i = 0; i < fixed; ++i) keys.push_back(tp::FixedColumnKey(i));
  for (size_t i = 0; i < advice; ++i) keys.push_back(tp::AdviceColumnKey(i));
  std::vector<tp::Selector> sel;
  for (size_t i = 0; i < selectors; ++i)
    sel.push_back(r.Bool() ? tp::Selector::Simple(i) : tp::Selector::Complex(i));
  tp::Assembly<RE> a(
      std::vector<RE>(fixed, d->template Zero<RE>()),
      tp::PermutationAssembly(keys, rows),
      std::vector<std::vector<bool>>(selectors, std::vector<bool>(rows)),
      tachyon::base::Range<tz::RowIndex>::Until(usable));
  std::vector<std::vector<F>> mf(fixed, std::vector<F>(rows, F::Zero()));
  std::vector<std::vector<bool>> ms(selectors, std::vector<bool>(rows));
  size_t n = keys.size() * rows;
  Classes cl(n);
  size_t ops = c.Size(1, 60);
  if (ops >= 4) c.Nontrivial();
  c.Note(rows, " rows, ", usable, " usable, ", ops, " operations");
  using V = tz::Value<tm::RationalField<F>>;
  for (size_t i = 0; i < ops; ++i) {
    size_t row = r.Upto(usable - 1);
    switch (r.Upto(4)) {
      case 0:
      case 1: {
        size_t col = r.Upto(fixed - 1);
        F num = AnyF<F>(r), den = AnyF<F>(r);
        if (den.IsZero()) den = F::One();
        a.AssignFixed("f", tp::FixedColumnKey(col), row,
                      [&] { return V::Known(tm::RationalField<F>(num, den)); });
        mf[col][row] = num * *den.Inverse();
        break;
      }
      case 2: {
        if (selectors == 0) break;
        size_t s = r.Upto(selectors - 1);
        a.EnableSelector("s", sel[s], row);
        ms[s][row] = true;
        break;
      }
      case 3: {
        size_t x = r.Upto(keys.size() - 1), y = r.Upto(keys.size() - 1);
        size_t row2 = r.Upto(usable - 1);
        a.Copy(keys[x], row, keys[y], row2);
        cl.Join(x * rows + row, y * rows + row2);
        break;
      }
      default: {
        size_t col = r.Upto(fixed - 1);
        F v = AnyF<F>(r);
        a.FillFromRow(tp::FixedColumnKey(col), row, tm::RationalField<F>(v));
        for (size_t j = row; j < usable; ++j) mf[col][j] = v;
      }
    }
  }
  PBT_T(a.fixed_columns().size() == fixed, "columns");
  for (size_t i = 0; i < fixed; ++i)
    for (size_t j = 0; j < rows; ++j)
      PBT_TM(a.fixed_columns()[i][j].Evaluate() == mf[i][j], "fixed", i << "@" << j);
  PBT_T(a.selectors() == ms, "selectors");
  const tp::CycleStore& store = a.permutation().cycle_store();
  CheckCycles(c, cl, n, [&](size_t i) {
    tp::Label l = store.GetNextLabel(tp::Label(i / rows, i % rows));
    return l.col * rows + l.row;
  });
}

void Witness(Case& c) {
  constexpr size_t kMax = 127;
  using Domain = tm::UnivariateEvaluationDomain<F, kMax>;
  using Evals = Domain::Evals;
  uint32_t k = 3 + static_cast<uint32_t>(c.Draw(3));
  size_t rows = size_t{1} << k, usable = rows - 1 - c.Draw(6);
  size_t advice = 1 + c.Draw(3), instance = c.Draw(2);
  uint8_t now = static_cast<uint8_t>(c.Draw(2));
  Rng r = c.Bulk();
  std::unique_ptr<Domain> d = ToyDomain<F>(rows);
  std::vector<Evals> inst;
  for (size_t i = 0; i < instance; ++i) {
    std::vector<F> v(rows);
    for (F& f : v) f = AnyF<F>(r);
    inst.push_back(Evals(std::move(v)));
  }
  absl::btree_map<size_t, F> challenges;
  for (size_t i = 0; i < 4; ++i)
    if (r.Bool()) challenges[i] = AnyF<F>(r);
  std::vector<uint8_t> phase;
  for (size_t i = 0; i < advice; ++i) phase.push_back(r.Upto(2));
  tp::halo2::WitnessCollection<Evals, tm::UnivariateEvaluations<tm::RationalField<F>, kMax>>
      w(d.get(), advice, usable, tp::Phase(now), challenges, inst);
  std::vector<std::vector<F>> m(advice, std::vector<F>(rows, F::Zero()));
  using V = tz::Value<tm::RationalField<F>>;
  size_t ops = c.Size(1, 60);
  if (ops >= 4) c.Nontrivial();
  c.Note(rows, " rows, ", usable, " usable, ", ops, " operations");
  for (size_t i = 0; i < ops; ++i) {
    size_t row = r.Upto(usable - 1);
    if (r.Upto(3)) {
      size_t col = r.Upto(advice - 1);
      F num = AnyF<F>(r), den = AnyF<F>(r);
      if (den.IsZero()) den = F::One();
      w.AssignAdvice("a", tp::AdviceColumnKey(col, tp::Phase(phase[col])), row, [&] {
        return now < phase[col] ? V::Unknown()
                                : V::Known(tm::RationalField<F>(num, den));
      });
      if (now >= phase[col]) m[col][row] = num * *den.Inverse();
    } else if (instance && r.Bool()) {
      size_t col = r.Upto(instance - 1);
      PBT_T(w.QueryInstance(tp::InstanceColumnKey(col), row).value() == inst[col][row],
            "instance");
    } else {
      size_t ch = r.Upto(3);
      tz::Value<F> v = w.GetChallenge(tp::Challenge(ch, tp::kFirstPhase));
      auto it = challenges.find(ch);
      PBT_T(v.IsNone() == (it == challenges.end()), "challenge");
      if (it != challenges.end()) PBT_T(v.value() == it->second, "challenge");
    }
  }
  auto got = std::move(w).TakeAdvices();
  PBT_T(got.size() == advice, "columns");
  for (size_t i = 0; i < advice; ++i)
    for (size_t j = 0; j < rows; ++j)
      PBT_TM(got[i][j].Evaluate() == m[i][j], "advice", i << "@" << j);
}

// A prover without commitments.
struct ToyPCS {
  using Field = F;
  static constexpr size_t kMaxDegree = 127;
  using Domain = tm::UnivariateEvaluationDomain<F, 127>;
  using ExtendedDomain = Domain;
  using Evals = Domain::Evals;
  using Poly = Domain::DensePoly;
  using Commitment = tm::bn254::G1AffinePoint;
};

class Counter : public tz::RandomFieldGeneratorBase<F> {
 public:
  F Generate() override { return F(uint64_t{1000000} + count++); }
  uint64_t count = 0;
};

std::multiset<mpz_class> Bag(const std::vector<F>& v, size_t n) {
  std::multiset<mpz_class> s;
  for (size_t i = 0; i < n; ++i) s.insert(pbt::FieldToMpz(v[i]));
  return s;
}

void PermutePair(Case& c) {
  uint32_t k = 3 + static_cast<uint32_t>(c.Draw(4));
  size_t rows = size_t{1} << k, blinding = 1 + c.Draw(5), usable = rows - blinding - 1;
  size_t kinds = 1 + c.Draw(12);
  Rng r = c.Bulk();
  Counter counter;
  tz::ProverBase<ToyPCS> prover(ToyPCS(), nullptr, tz::Blinder<F>(&counter, blinding));
  prover.set_domain(ToyDomain<F>(rows));
  PBT_T(prover.GetUsableRows() == usable, "usable_rows");
  std::vector<F> pool(kinds);
  for (F& f : pool) f = AnyF<F>(r);
  bool wide = r.Bool();
  std::vector<F> table(rows), input(rows);
  for (size_t i = 0; i < rows; ++i)
    table[i] = wide ? AnyF<F>(r) : pool[r.Upto(kinds - 1)];
  for (size_t i = 0; i < rows; ++i)
    input[i] = i < usable ? table[r.Upto(r.Bool() ? usable - 1 : usable / 4)] : AnyF<F>(r);
  bool missing = c.Draw(4) == 0;
  if (missing) input[r.Upto(usable - 1)] = AnyF<F>(r);
  // Only usable rows count.
  if (missing && r.Bool()) input[r.Upto(usable - 1)] = table[usable + r.Upto(blinding)];
  std::multiset<mpz_class> in = Bag(input, usable), tab = Bag(table, usable);
  bool contained = true;
  for (const mpz_class& x : in) contained = contained && tab.count(x);
  c.LabelIf(!contained, "missing");
  if (kinds > 1) c.Nontrivial();
  c.Note(rows, " rows, ", usable, " usable, ", std::set<mpz_class>(in.begin(), in.end()).size(),
         " different inputs");
  using Evals = ToyPCS::Evals;
  tz::lookup::Pair<Evals> p{Evals(std::vector<F>(input)), Evals(std::vector<F>(table))}, q;
  bool ok = tz::lookup::halo2::PermuteExpressionPair(&prover, p, &q);
  PBT_TM(ok == contained, "accepts", ok << " " << contained);
  PBT_T(p.input().evaluations() == input && p.table().evaluations() == table, "const");
  if (!ok) return;
  std::vector<F> a = q.input().evaluations(), s = q.table().evaluations();
  PBT_T(a.size() == rows && s.size() == rows, "size");
  PBT_T(Bag(a, usable) == in, "input_permuted");
  PBT_T(Bag(s, usable) == tab, "table_permuted");
  std::set<mpz_class> seen;
  for (size_t i = 0; i < usable; ++i) {
    if (i == 0 || a[i] != a[i - 1]) {
      PBT_TM(a[i] == s[i], "leader", "row " << i);
      PBT_TM(seen.insert(pbt::FieldToMpz(a[i])).second, "adjacent", "row " << i);
    }
  }
  // Other rows are blinded.
  for (size_t i = usable + 1; i < rows; ++i) {
    PBT_TM(pbt::FieldToMpz(a[i]) >= 1000000, "blinded", "input row " << i);
    PBT_TM(pbt::FieldToMpz(s[i]) >= 1000000, "blinded", "table row " << i);
  }
}

void Blind(Case& c) {
  size_t rows = 1 + c.Draw(40), blinding = c.Draw(12);
  bool last = c.Bool();
  Rng r = c.Bulk();
  Counter counter;
  tz::Blinder<F> b(&counter, 0);
  b.set_blinding_factors(blinding);
  PBT_T(b.blinding_factors() == blinding, "factors");
  std::vector<F> v(rows);
  for (F& f : v) f = AnyF<F>(r);
  ToyPCS::Evals e{std::vector<F>(v)};
  size_t n = blinding + last;
  c.Note(rows, " rows, ", n, " blinded");
  if (n > 0 && n < rows) c.Nontrivial();
  size_t before = e.NumElements();
  bool ok = b.Blind(e, last);
  PBT_T(ok == (before >= n), "accepts");
  if (!ok) {
    PBT_T(e.evaluations() == v, "unchanged");
    return;
  }
  std::set<mpz_class> fresh;
  for (size_t i = 0; i < rows; ++i) {
    if (i < rows - n) {
      PBT_TM(e[i] == v[i], "kept", "row " << i);
    } else {
      PBT_TM(pbt::FieldToMpz(e[i]) >= 1000000, "drawn", "row " << i);
      PBT_TM(fresh.insert(pbt::FieldToMpz(e[i])).second, "fresh", "row " << i);
    }
  }
  PBT_T(counter.count == n, "draws");
}

void RegisterAll() {
  F::Init();
  tm::bls12_381::Fr::Init();
  tm::pallas::Fr::Init();
  pbt::Register("cycles", 20000, 400000, Cycles);
  pbt::Register("permutations.bn254", 6000, 100000, Perm<F>::Run);
  pbt::Register("permutations.bls12_381", 4000, 60000, Perm<tm::bls12_381::Fr>::Run);
  pbt::Register("permutations.pallas", 4000, 60000, Perm<tm::pallas::Fr>::Run);
  pbt::Register("assembly", 10000, 200000, Assembly);
  pbt::Register("witness", 10000, 200000, Witness);
  pbt::Register("permuted_lookup", 10000, 200000, PermutePair);
  pbt::Register("blinder", 5000, 50000, Blind);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace layout_pbt

// Constraint systems: metadata, selector compression, lookups per table.
#include <map>
#include <set>
#include <string>
#include <tuple>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"

#include "verif/expr/tree.h"

namespace expr_pbt {
namespace {

namespace tm = tachyon::math;
namespace lk = tachyon::zk::lookup;
namespace sh = tachyon::zk::shuffle;
using F = tm::bn254::Fr;
using T = Tree<F>;
using Evals = tm::UnivariateEvaluations<F, 1023>;

struct Arg {
  std::vector<T> in, table;
  bool any = false;
  std::vector<int> columns;
};

struct Model {
  tp::ConstraintSystem<F> cs;
  Made<F> made;
  Cells cells;
  std::vector<tp::LookupTableColumn> tables;
  std::vector<std::vector<T>> gates;
  std::vector<Arg> lookups, shuffles;
  std::set<std::pair<int, int>> advice, fixed, instance;
  std::vector<std::pair<int, int>> equality;  // type, column
  std::vector<int> phases;

  void See(const T& t) {
    t.Visit([&](const T& x) {
      if (x.op == kAdvice) advice.insert({x.col, x.rot});
      if (x.op == kFixed) fixed.insert({x.col, x.rot});
      if (x.op == kInstance) instance.insert({x.col, x.rot});
    });
  }
};

T Mul(T a, T b) {
  T t;
  t.op = kMul;
  t.sub = {std::move(a), std::move(b)};
  return t;
}
T Add(T a, T b) {
  T t;
  t.op = kAdd;
  t.sub = {std::move(a), std::move(b)};
  return t;
}
T Leaf(Op op, int col, int rot = 0) {
  T t;
  t.op = op;
  t.col = col;
  t.rot = rot;
  return t;
}

void Columns(Case& c, Rng& r, Model* m) {
  tp::ConstraintSystem<F>& cs = m->cs;
  if (c.Bool()) cs.set_lookup_type(lk::Type::kLogDerivativeHalo2);
  m->cells.advice = 1 + static_cast<int>(c.Draw(3));
  m->cells.fixed = static_cast<int>(c.Draw(2));
  m->cells.instance = static_cast<int>(c.Draw(2));
  m->cells.challenges = static_cast<int>(c.Draw(1));
  m->cells.max_rot = static_cast<int>(c.Draw(1)) ? 6 : 2;
  for (int i = 0; i < m->cells.advice; ++i) {
    int phase = i == 0 ? 0 : static_cast<int>(r.Upto(2));
    while (phase > 0 && std::find(m->phases.begin(), m->phases.end(), phase - 1) ==
                            m->phases.end())
      --phase;
    m->phases.push_back(phase);
    m->made.advice.push_back(phase == 0 && r.Bool()
                                 ? cs.CreateAdviceColumn()
                                 : cs.CreateAdviceColumn(tp::Phase(phase)));
  }
  for (int i = 0; i < m->cells.fixed; ++i) m->made.fixed.push_back(cs.CreateFixedColumn());
  for (int i = 0; i < m->cells.instance; ++i)
    m->made.instance.push_back(cs.CreateInstanceColumn());
  for (int i = 0; i < m->cells.challenges; ++i)
    m->made.challenge.push_back(cs.CreateChallengeUsableAfter(tp::kFirstPhase));
}

void Selectors(Case& c, Rng& r, Model* m) {
  for (int n = static_cast<int>(c.Draw(7)); n > 0; --n)
    m->made.selector.push_back(r.Upto(2) ? m->cs.CreateSimpleSelector()
                                         : m->cs.CreateComplexSelector());
}

T SelectorLeaf(const Model& m, size_t i) {
  T t = Leaf(kSelector, static_cast<int>(i));
  t.simple = m.made.selector[i].is_simple();
  return t;
}

std::optional<size_t> AnyComplex(const Model& m, Rng& r) {
  std::vector<size_t> v;
  for (size_t i = 0; i < m.made.selector.size(); ++i)
    if (!m.made.selector[i].is_simple()) v.push_back(i);
  if (v.empty()) return std::nullopt;
  return v[r.Upto(v.size() - 1)];
}

T Plain(const Model& m, Rng& r, int depth) {
  return AnyTree<F>(r, m.cells, depth, nullptr);
}

T GatePoly(const Model& m, Rng& r) {
  int depth = static_cast<int>(r.Upto(3));
  if (m.made.selector.empty() || r.Upto(9) == 0) return Plain(m, r, depth);
  size_t s = r.Upto(m.made.selector.size() - 1);
  if (m.made.selector[s].is_simple()) {
    T q = SelectorLeaf(m, s);
    switch (r.Upto(3)) {
      case 0: return Mul(q, Plain(m, r, depth));
      case 1: return Mul(Plain(m, r, depth), q);
      case 2: return Mul(Mul(q, Plain(m, r, 1)), Plain(m, r, depth));
      default: {
        T neg;
        neg.op = kNeg;
        neg.sub = {Mul(q, Plain(m, r, depth))};
        return neg;
      }
    }
  }
  T q = SelectorLeaf(m, s);
  switch (r.Upto(2)) {
    case 0: return Mul(q, Plain(m, r, depth));
    case 1: return Add(Mul(q, Plain(m, r, depth)), Plain(m, r, 1));
    default: return Add(q, Mul(SelectorLeaf(m, *AnyComplex(m, r)), Plain(m, r, depth)));
  }
}

void AddGates(Case& c, Rng& r, Model* m) {
  for (int n = static_cast<int>(c.Draw(4)); n > 0; --n) {
    std::vector<T> polys;
    for (int k = 1 + static_cast<int>(r.Upto(2)); k > 0; --k)
      polys.push_back(GatePoly(*m, r));
    m->cs.CreateGate("gate", [&](tp::VirtualCells<F>& cells) {
      std::vector<tp::Constraint<F>> ret;
      for (const T& t : polys) ret.emplace_back(Make<F>(t, m->made, &cells, true, r));
      return ret;
    });
    for (const T& t : polys) m->See(t);
    m->gates.push_back(polys);
  }
}

T LookupTree(const Model& m, Rng& r) {
  T t = Plain(m, r, static_cast<int>(r.Upto(2)));
  std::optional<size_t> s = AnyComplex(m, r);
  if (s && r.Bool()) t = Mul(SelectorLeaf(m, *s), t);
  return t;
}

void AddLookups(Case& c, Rng& r, Model* m) {
  int table_columns = static_cast<int>(c.Draw(3));
  for (int i = 0; i < table_columns; ++i)
    m->tables.push_back(m->cs.CreateLookupTableColumn());
  std::vector<std::vector<T>> any_tables;
  for (int n = static_cast<int>(c.Draw(6)); n > 0; --n) {
    Arg a;
    a.any = m->tables.empty() || r.Bool();
    size_t width = 1 + r.Upto(2);
    if (a.any) {
      if (!any_tables.empty() && r.Upto(2)) {
        a.table = any_tables[r.Upto(any_tables.size() - 1)];
        // One that differs a little.
        if (r.Bool()) {
          T& t = a.table[r.Upto(a.table.size() - 1)];
          t.Change([&](T& x) {
            if ((x.op == kAdvice || x.op == kFixed || x.op == kInstance) && r.Bool())
              x.rot += 1;
            if ((x.op == kConst || x.op == kScale) && r.Bool())
              x.c = r.Bool() ? AnyF<F>(r)
                             : F(static_cast<uint64_t>(r.Upto(1) ? 1 : 11 * r.Upto(10)));
          });
        }
        width = a.table.size();
      } else {
        for (size_t i = 0; i < width; ++i) {
          a.table.push_back(LookupTree(*m, r));
          if (r.Upto(5) == 0) {
            T t;
            t.op = kConst;
            t.c = F(static_cast<uint64_t>(r.Upto(1) ? r.Upto(30) : 11));
            a.table.back() = t;
          }
          if (r.Upto(3) == 0) {
            T t;
            t.op = kScale;
            t.c = F(2);
            t.sub = {a.table.back()};
            a.table.back() = t;
          }
        }
        any_tables.push_back(a.table);
      }
    } else {
      for (size_t i = 0; i < width; ++i)
        a.columns.push_back(static_cast<int>(r.Upto(m->tables.size() - 1)));
    }
    for (size_t i = 0; i < width; ++i) a.in.push_back(LookupTree(*m, r));
    if (a.any) {
      m->cs.LookupAny("any", [&](tp::VirtualCells<F>& cells) {
        lk::Pairs<X<F>> p;
        for (size_t i = 0; i < width; ++i) {
          X<F> in = Make<F>(a.in[i], m->made, &cells, false, r);
          p.emplace_back(std::move(in), Make<F>(a.table[i], m->made, &cells, false, r));
        }
        return p;
      });
    } else {
      m->cs.Lookup("lookup", [&](tp::VirtualCells<F>& cells) {
        lk::Pairs<X<F>, tp::LookupTableColumn> p;
        for (size_t i = 0; i < width; ++i)
          p.emplace_back(Make<F>(a.in[i], m->made, &cells, true, r),
                         m->tables[a.columns[i]]);
        return p;
      });
    }
    for (int i : a.columns)
      a.table.push_back(Leaf(kFixed, static_cast<int>(m->tables[i].column().index())));
    for (const T& t : a.in) m->See(t);
    for (const T& t : a.table) m->See(t);
    m->lookups.push_back(a);
  }
}

void AddShuffles(Case& c, Rng& r, Model* m) {
  for (int n = static_cast<int>(c.Draw(2)); n > 0; --n) {
    Arg a;
    for (size_t i = 0; i < 1 + r.Upto(1); ++i) {
      a.in.push_back(LookupTree(*m, r));
      a.table.push_back(LookupTree(*m, r));
    }
    m->cs.Shuffle("shuffle", [&](tp::VirtualCells<F>& cells) {
      sh::Pairs<X<F>> p;
      for (size_t i = 0; i < a.in.size(); ++i) {
        X<F> in = Make<F>(a.in[i], m->made, &cells, false, r);
        p.emplace_back(std::move(in), Make<F>(a.table[i], m->made, &cells, false, r));
      }
      return p;
    });
    for (const T& t : a.in) m->See(t);
    for (const T& t : a.table) m->See(t);
    m->shuffles.push_back(a);
  }
}

size_t MaxDegree(const std::vector<T>& ts) {
  size_t d = 1;
  for (const T& t : ts) d = std::max(d, t.Degree());
  return d;
}

template <typename Q>
bool SameQueries(const std::vector<Q>& got, const std::set<std::pair<int, int>>& want) {
  std::set<std::pair<int, int>> s;
  for (const Q& q : got)
    s.insert({static_cast<int>(q.column().index()), q.rotation().value()});
  return s == want && s.size() == got.size();
}

void Metadata(Case& c) {
  Rng r = c.Bulk();
  Model m;
  tp::ConstraintSystem<F>& cs = m.cs;
  Columns(c, r, &m);
  Selectors(c, r, &m);
  auto equality = [&] {
    std::vector<std::pair<int, int>> all;
    for (int i = 0; i < m.cells.advice; ++i) all.push_back({0, i});
    for (int i = 0; i < m.cells.fixed; ++i) all.push_back({1, i});
    for (int i = 0; i < m.cells.instance; ++i) all.push_back({2, i});
    for (int n = static_cast<int>(c.Draw(4)); n > 0; --n) {
      auto p = all[r.Upto(all.size() - 1)];
      if (p.first == 0) {
        cs.EnableEquality(m.made.advice[p.second]);
        m.advice.insert({p.second, 0});
      } else if (p.first == 1) {
        if (r.Bool()) {
          cs.EnableConstant(m.made.fixed[p.second]);
        } else {
          cs.EnableEquality(m.made.fixed[p.second]);
        }
        m.fixed.insert({p.second, 0});
      } else {
        cs.EnableEquality(m.made.instance[p.second]);
        m.instance.insert({p.second, 0});
      }
      if (std::find(m.equality.begin(), m.equality.end(), p) == m.equality.end())
        m.equality.push_back(p);
    }
  };
  equality();
  AddGates(c, r, &m);
  AddLookups(c, r, &m);
  AddShuffles(c, r, &m);
  equality();
  AddGates(c, r, &m);
  if (m.gates.size() + m.lookups.size() + m.shuffles.size() >= 3) c.Nontrivial();
  c.Note(m.gates.size(), " gates, ", m.lookups.size(), " lookups, ", m.shuffles.size(),
         " shuffles");
  bool log = cs.lookup_type() == lk::Type::kLogDerivativeHalo2;
  if (log) cs.ChunkLookups();
  PBT_T(cs.num_advice_columns() == m.made.advice.size(), "columns");
  PBT_T(cs.num_fixed_columns() == m.made.fixed.size() + m.tables.size(), "columns");
  PBT_T(cs.num_instance_columns() == m.made.instance.size(), "columns");
  PBT_T(cs.num_challenges() == m.made.challenge.size(), "columns");
  size_t simple = 0;
  for (const tp::Selector& s : m.made.selector) simple += s.is_simple();
  PBT_T(cs.num_simple_selectors() == simple, "selectors");
  PBT_T(cs.num_complex_selectors() == m.made.selector.size() - simple, "selectors");
  std::set<size_t> indices;
  for (const tp::Selector& s : m.made.selector) indices.insert(s.index());
  PBT_T(indices.size() == m.made.selector.size(), "selectors");
  int max_phase = 0;
  PBT_T(cs.advice_column_phases().size() == m.phases.size(), "phases");
  for (size_t i = 0; i < m.phases.size(); ++i) {
    max_phase = std::max(max_phase, m.phases[i]);
    PBT_T(cs.advice_column_phases()[i].value() == m.phases[i], "phases");
  }
  PBT_T(cs.ComputeMaxPhase().value() == max_phase, "phases");
  PBT_T(cs.GetPhases().size() == static_cast<size_t>(max_phase) + 1, "phases");
  for (int i = 0; i <= max_phase; ++i)
    PBT_T(cs.GetPhases()[i].value() == i, "phases");
  PBT_T(SameQueries(cs.advice_queries(), m.advice), "advice_queries");
  PBT_T(SameQueries(cs.fixed_queries(), m.fixed), "fixed_queries");
  PBT_T(SameQueries(cs.instance_queries(), m.instance), "instance_queries");
  for (const auto& [col, rot] : m.advice) {
    size_t i = cs.GetAdviceQueryIndex(m.made.advice[col], tz::Rotation(rot));
    PBT_T(cs.advice_queries()[i].column().index() == static_cast<size_t>(col) &&
              cs.advice_queries()[i].rotation().value() == rot,
          "index");
    PBT_T(cs.QueryAdviceIndex(m.made.advice[col], tz::Rotation(rot)) == i, "index");
  }
  size_t most = 0;
  for (int i = 0; i < m.cells.advice; ++i) {
    size_t n = 0;
    for (const auto& q : m.advice) n += q.first == i;
    PBT_T(cs.num_advice_queries()[i] == n, "num_advice_queries");
    most = std::max(most, n);
  }
  PBT_T(cs.permutation().columns().size() == m.equality.size(), "permutation");
  for (size_t i = 0; i < m.equality.size(); ++i) {
    const tp::AnyColumnKey& k = cs.permutation().columns()[i];
    int type = k.type() == tp::ColumnType::kAdvice  ? 0
               : k.type() == tp::ColumnType::kFixed ? 1
                                                    : 2;
    PBT_T(type == m.equality[i].first &&
              k.index() == static_cast<size_t>(m.equality[i].second),
          "permutation");
  }
  size_t blinding = std::max(size_t{3}, most) + 2;
  PBT_T(cs.ComputeBlindingFactors() == blinding, "blinding");
  PBT_T(cs.ComputeLastRow() == -static_cast<int>(blinding) - 1, "last_row");
  PBT_T(cs.ComputeMinimumRows() == blinding + 3, "minimum_rows");
  size_t degree = 3;
  for (const auto& g : m.gates)
    for (const T& t : g) degree = std::max(degree, t.Degree());
  for (const Arg& a : m.shuffles)
    degree = std::max(degree, 2 + std::max(MaxDegree(a.in), MaxDegree(a.table)));
  for (const Arg& a : m.lookups)
    degree = std::max(degree, 2 + MaxDegree(a.in) + MaxDegree(a.table));
  uint32_t k = static_cast<uint32_t>(r.Upto(20));
  if (!log) {
    PBT_TM(cs.ComputeDegree() == degree, "degree", cs.ComputeDegree() << " " << degree);
  } else {
    PBT_TM(cs.ComputeDegree() >= degree, "degree", cs.ComputeDegree() << " " << degree);
  }
  uint32_t want = k;
  while ((uint64_t{1} << want) < (uint64_t{1} << k) * (cs.ComputeDegree() - 1)) ++want;
  PBT_T(cs.ComputeExtendedK(k) == want, "extended_k");
  size_t chunk = cs.ComputePermutationChunkLen();
  // (1 - (l_last + l_blind)) * z * the columns of a chunk.
  PBT_T(chunk >= 1 && chunk + 2 <= cs.ComputeDegree(), "chunk");
  PBT_T(cs.ComputePermutationProductNums() == (m.equality.size() + chunk - 1) / chunk,
        "products");
}

std::string Text(const std::vector<X<F>>& xs) {
  std::string s;
  for (const X<F>& x : xs) s += x->ToString() + ";";
  return s;
}

// Every lookup ends up against its own table.
void Lookups(Case& c) {
  Rng r = c.Bulk();
  Model m;
  tp::ConstraintSystem<F>& cs = m.cs;
  Columns(c, r, &m);
  Selectors(c, r, &m);
  AddLookups(c, r, &m);
  AddGates(c, r, &m);
  bool log = cs.lookup_type() == lk::Type::kLogDerivativeHalo2;
  c.LabelIf(log, "log derivative");
  if (m.lookups.size() >= 2) c.Nontrivial();
  c.Note(m.lookups.size(), " lookups");
  if (log) cs.ChunkLookups();
  // What was asked for, with the indices there are by now.
  std::multiset<std::pair<std::string, std::string>> want, got;
  bool constants = false;
  tp::VirtualCells<F> cells(&cs);
  for (const Arg& a : m.lookups) {
    std::vector<X<F>> in, table;
    for (const T& t : a.in) {
      in.push_back(Make<F>(t, m.made, &cells, false, r));
      constants = constants || t.Degree() == 0;
    }
    if (a.any) {
      for (const T& t : a.table) table.push_back(Make<F>(t, m.made, &cells, false, r));
    } else {
      for (int i : a.columns)
        table.push_back(cells.QueryFixed(m.tables[i].column(), tz::Rotation::Cur()));
    }
    want.insert({Text(in), Text(table)});
  }
  for (const auto& l : cs.lookups()) {
    PBT_T(log || l.inputs_expressions().size() == 1, "one_input");
    PBT_T(!l.inputs_expressions().empty(), "one_input");
    for (const auto& in : l.inputs_expressions())
      got.insert({Text(in), Text(l.table_expressions())});
    if (log && !constants)
      PBT_T(l.RequiredDegree() <= *cs.minimum_degree(), "bound");
  }
  PBT_TM(got == want, "pairs", got.size() << " " << want.size());
}

// Compressed selectors switch the same rows.
void Compression(Case& c) {
  Rng r = c.Bulk();
  Model m;
  tp::ConstraintSystem<F>& cs = m.cs;
  Columns(c, r, &m);
  Selectors(c, r, &m);
  AddGates(c, r, &m);
  if (c.Draw(2) == 0) AddLookups(c, r, &m);
  if (c.Draw(2) == 0) AddShuffles(c, r, &m);
  AddGates(c, r, &m);
  // Room for larger combinations.
  if (c.Draw(2) == 0) cs.set_minimum_degree(3 + c.Draw(6));
  if (cs.lookup_type() == lk::Type::kLogDerivativeHalo2) cs.ChunkLookups();
  int n = 1 << c.Draw(4);
  std::vector<std::vector<bool>> on(m.made.selector.size(), std::vector<bool>(n));
  int how = static_cast<int>(c.Draw(3));
  for (int row = 0; row < n; ++row) {
    if (how == 0) {  // at most one
      if (!on.empty() && r.Upto(4)) on[r.Upto(on.size() - 1)][row] = true;
    } else {
      for (auto& s : on) s[row] = r.Upto(how == 1 ? 5 : how == 2 ? 1 : 12) == 0;
    }
  }
  size_t fixed_before = cs.num_fixed_columns();
  size_t degree = cs.ComputeDegree();
  std::vector<size_t> selector_index(m.made.selector.size());
  std::vector<std::vector<F>> added = cs.CompressSelectors(on);
  PBT_T(cs.num_fixed_columns() == fixed_before + added.size(), "columns");
  PBT_T(added.size() <= on.size(), "columns");
  c.LabelIf(added.size() < on.size(), "combined");
  if (m.gates.size() >= 2 && on.size() >= 2) c.Nontrivial();
  c.Note(m.gates.size(), " gates, ", on.size(), " selectors, ", n, " rows, degree ", degree,
         ", ", added.size(), " columns");
  std::vector<Evals> advice, fixed, instance;
  std::vector<F> challenges;
  auto column = [&] {
    std::vector<F> v(n);
    for (F& f : v) f = AnyF<F>(r);
    return Evals(std::move(v));
  };
  for (int i = 0; i < m.cells.advice; ++i) advice.push_back(column());
  for (size_t i = 0; i < fixed_before; ++i) fixed.push_back(column());
  for (const auto& v : added) {
    PBT_T(v.size() == static_cast<size_t>(n), "rows");
    fixed.push_back(Evals(std::vector<F>(v)));
  }
  for (int i = 0; i < m.cells.instance; ++i) instance.push_back(column());
  for (int i = 0; i < m.cells.challenges; ++i) challenges.push_back(AnyF<F>(r));
  tp::MultiPhaseRefTable<Evals> table(
      absl::MakeConstSpan(fixed), absl::MakeConstSpan(advice),
      absl::MakeConstSpan(instance), absl::MakeConstSpan(challenges));
  auto value = [&](const T& t, int row) {
    return t.Eval([&](const T& x) -> F {
      int i = (row + x.rot) % n;
      if (i < 0) i += n;
      switch (x.op) {
        case kAdvice: return advice[x.col].evaluations()[i];
        case kFixed: return fixed[x.col].evaluations()[i];
        case kInstance: return instance[x.col].evaluations()[i];
        case kSelector: return on[x.col][row] ? F::One() : F::Zero();
        default: return challenges[x.col];
      }
    });
  };
  tp::ProvingEvaluator<Evals> ev(0, n, 1, table);
  for (size_t g = 0; g < m.gates.size(); ++g) {
    const auto& polys = cs.gates()[g].polys();
    PBT_T(polys.size() == m.gates[g].size(), "gates");
    for (size_t p = 0; p < polys.size(); ++p) {
      const T& t = m.gates[g][p];
      PBT_TM(polys[p]->Degree() <= degree, "degree_bound",
             "gate " << g << " poly " << p << ": " << polys[p]->Degree());
      bool simple = false;
      t.Visit([&](const T& x) { simple = simple || (x.op == kSelector && x.simple); });
      for (int row = 0; row < n; ++row) {
        ev.set_idx(row);
        F got = ev.Evaluate(polys[p].get()), want = value(t, row);
        if (simple) {
          PBT_TM(got.IsZero() == want.IsZero(), "simple",
                 "gate " << g << " poly " << p << " row " << row);
        } else {
          PBT_TM(got == want, "complex", "gate " << g << " poly " << p << " row " << row);
        }
      }
    }
  }
  if (cs.lookup_type() == lk::Type::kHalo2) {
    PBT_T(cs.lookups().size() == m.lookups.size(), "lookups");
    for (size_t l = 0; l < m.lookups.size(); ++l)
      for (size_t i = 0; i < m.lookups[l].in.size(); ++i)
        for (int row = 0; row < n; ++row) {
          ev.set_idx(row);
          PBT_T(ev.Evaluate(cs.lookups()[l].input_expressions()[i].get()) ==
                    value(m.lookups[l].in[i], row),
                "lookup_input");
          PBT_T(ev.Evaluate(cs.lookups()[l].table_expressions()[i].get()) ==
                    value(m.lookups[l].table[i], row),
                "lookup_table");
        }
  }
  PBT_T(cs.shuffles().size() == m.shuffles.size(), "shuffles");
  for (size_t l = 0; l < m.shuffles.size(); ++l)
    for (size_t i = 0; i < m.shuffles[l].in.size(); ++i)
      for (int row = 0; row < n; ++row) {
        ev.set_idx(row);
        PBT_T(ev.Evaluate(cs.shuffles()[l].input_expressions()[i].get()) ==
                  value(m.shuffles[l].in[i], row),
              "shuffle_input");
        PBT_T(ev.Evaluate(cs.shuffles()[l].shuffle_expressions()[i].get()) ==
                  value(m.shuffles[l].table[i], row),
              "shuffle_table");
      }
}

void RegisterAll() {
  F::Init();
  pbt::Register("system.metadata", 6000, 200000, Metadata);
  pbt::Register("system.lookups", 12000, 400000, Lookups);
  pbt::Register("system.compression", 6000, 200000, Compression);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace expr_pbt

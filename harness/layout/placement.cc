// Floor planners: where regions, constants and tables end up.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace layout_pbt {
namespace {

using pbt::Case;
using pbt::Rng;
namespace tm = tachyon::math;
namespace tz = tachyon::zk;
namespace tp = tachyon::zk::plonk;
using F = tm::Goldilocks;
using RF = tm::RationalField<F>;

enum Kind { kAdvice, kFixed, kSelector, kFromConstant, kFromInstance, kEqual, kConstant };

// (type, index, row) with the types 0 advice, 1 fixed, 2 instance.
using At = std::tuple<int, size_t, size_t>;

struct Op {
  Kind kind;
  size_t col = 0, off = 0;
  F value;
  size_t row = 0;           // of an instance
  size_t a = 0, b = 0;      // cells to be equal or constant
};
struct Cell {
  size_t region;
  int type;
  size_t col, off;
};
struct Item {
  bool table = false;
  std::vector<Op> ops;
  std::vector<size_t> cols;                // of a table
  std::vector<std::vector<F>> rows;
  std::vector<std::pair<size_t, std::pair<size_t, size_t>>> instance;  // cell -> where
  bool name_space = false;
};
struct Script {
  size_t advice = 0, fixed = 0, instances = 0, selectors = 0, tables = 0;
  std::vector<size_t> constants;  // fixed columns
  std::vector<Item> items;
  std::vector<Cell> cells;
  size_t regions = 0;
};

struct Config {
  using Field = F;
  std::vector<tp::AdviceColumnKey> advice;
  std::vector<tp::FixedColumnKey> fixed;
  std::vector<tp::InstanceColumnKey> instance;
  std::vector<tp::Selector> selector;
  std::vector<tp::LookupTableColumn> tables;
  Config Clone() const { return *this; }
};

template <template <typename> class Planner>
class Scripted : public tp::Circuit<Config> {
 public:
  using FloorPlanner = Planner<Scripted>;
  Scripted(const Script* s, bool witness) : s_(s), witness_(witness) {}
  std::unique_ptr<tp::Circuit<Config>> WithoutWitness() const override {
    return std::make_unique<Scripted>(s_, false);
  }
  void Synthesize(Config&& cfg, tp::Layouter<F>* root) const override {
    std::vector<tp::Cell> cells(s_->cells.size());
    size_t next = 0, region = 0;
    for (const Item& item : s_->items) {
      std::unique_ptr<tp::NamespacedLayouter<F>> ns;
      tp::Layouter<F>* layouter = root;
      if (item.name_space) {
        ns = root->Namespace("inner");
        layouter = ns.get();
      }
      if (item.table) {
        layouter->AssignLookupTable("table", [&](tp::LookupTable<F>& t) {
          for (size_t i = 0; i < item.rows.size(); ++i)
            for (size_t w = 0; w < item.cols.size(); ++w) {
              CHECK(t.AssignCell("t", cfg.tables[item.cols[w]], i, [&] {
                return tz::Value<F>::Known(item.rows[i][w]);
              }));
            }
        });
        continue;
      }
      size_t first = next;
      layouter->AssignRegion("r" + std::to_string(region), [&](tp::Region<F>& r) {
        size_t n = first;
        for (const Op& op : item.ops) {
          auto value = [&] {
            return witness_ || op.kind == kFixed ? tz::Value<F>::Known(op.value)
                                                 : tz::Value<F>::Unknown();
          };
          switch (op.kind) {
            case kAdvice:
              cells[n++] = r.AssignAdvice("a", cfg.advice[op.col], op.off, value).cell();
              break;
            case kFixed:
              cells[n++] = r.AssignFixed("f", cfg.fixed[op.col], op.off, value).cell();
              break;
            case kSelector:
              cfg.selector[op.col].Enable(r, op.off);
              break;
            case kFromConstant:
              cells[n++] = r.AssignAdviceFromConstant("c", cfg.advice[op.col], op.off,
                                                      op.value)
                               .cell();
              break;
            case kFromInstance:
              cells[n++] = r.AssignAdviceFromInstance("i", cfg.instance[op.a], op.row,
                                                      cfg.advice[op.col], op.off)
                               .cell();
              break;
            case kEqual:
              r.ConstrainEqual(cells[op.a], cells[op.b]);
              break;
            case kConstant:
              r.ConstrainConstant(cells[op.a], RF(op.value));
              break;
          }
        }
        next = n;
      });
      ++region;
      for (const auto& [cell, where] : item.instance)
        layouter->ConstrainInstance(cells[cell], cfg.instance[where.first], where.second);
    }
  }

 private:
  const Script* s_;
  bool witness_;
};

F InstanceValue(size_t col, size_t row) { return F(uint64_t{500000} + col * 1000 + row); }

struct Assigned {
  int region;  // -1: none
  Kind kind;
  size_t col, row;
  F value;
};

class Recorder : public tp::Assignment<F> {
 public:
  using tp::Assignment<F>::AssignCallback;
  void EnterRegion(std::string_view name) override {
    bad = bad || current != -1;
    current = name[0] == 'r' ? std::stoi(std::string(name.substr(1))) : 100000;
  }
  void ExitRegion() override {
    bad = bad || current == -1;
    current = -1;
  }
  void EnableSelector(std::string_view, tp::Selector s, tz::RowIndex row) override {
    all.push_back({current, kSelector, s.index(), row, F::Zero()});
  }
  tz::Value<F> QueryInstance(const tp::InstanceColumnKey& col, tz::RowIndex row) override {
    return tz::Value<F>::Known(InstanceValue(col.index(), row));
  }
  void AssignAdvice(std::string_view, const tp::AdviceColumnKey& col, tz::RowIndex row,
                    AssignCallback f) override {
    all.push_back({current, kAdvice, col.index(), row, std::move(f).Run().value().Evaluate()});
  }
  void AssignFixed(std::string_view, const tp::FixedColumnKey& col, tz::RowIndex row,
                   AssignCallback f) override {
    all.push_back({current, kFixed, col.index(), row, std::move(f).Run().value().Evaluate()});
  }
  void Copy(const tp::AnyColumnKey& l, tz::RowIndex lr, const tp::AnyColumnKey& r,
            tz::RowIndex rr) override {
    copies.push_back({Key(l, lr), Key(r, rr)});
  }
  void FillFromRow(const tp::FixedColumnKey& col, tz::RowIndex row, const RF& v) override {
    fills.push_back({current, kFixed, col.index(), row, v.Evaluate()});
  }
  void PushNamespace(std::string_view) override { ++depth; }
  void PopNamespace(const std::optional<std::string>&) override {
    bad = bad || depth == 0;
    --depth;
  }
  static At Key(const tp::AnyColumnKey& k, size_t row) {
    int type = k.type() == tp::ColumnType::kAdvice ? 0 : k.type() == tp::ColumnType::kFixed ? 1 : 2;
    return {type, k.index(), row};
  }

  std::vector<Assigned> all, fills;
  std::vector<std::pair<At, At>> copies;
  int current = -1, depth = 0;
  bool bad = false;
};

Script AnyScript(Case& c, Rng& r, bool v1) {
  Script s;
  s.advice = 1 + c.Draw(3);
  s.fixed = c.Draw(2);
  s.instances = c.Draw(2);
  s.selectors = c.Draw(3);
  s.tables = c.Draw(3);
  size_t shared = c.Draw(2);  // constants in columns that regions use
  for (size_t i = 0; i < std::min(shared, s.fixed); ++i) s.constants.push_back(i);
  bool dedicated = s.constants.empty() || v1 || r.Bool();
  if (dedicated) s.constants.push_back(s.fixed);
  bool constants = c.Draw(2) != 0;
  if (!constants && r.Bool()) s.constants.clear();
  size_t n = c.Size(1, 14), wanted = 0, tallest = 0;
  uint64_t fresh = 1;
  std::vector<size_t> free_tables(s.tables);
  for (size_t i = 0; i < s.tables; ++i) free_tables[i] = i;
  auto constant = [&] { return F(uint64_t{900000} + (r.Upto(3) ? r.Upto(1000) : 1)); };
  for (size_t i = 0; i < n; ++i) {
    Item item;
    item.name_space = r.Upto(4) == 0;
    if (!free_tables.empty() && r.Upto(3) == 0) {
      item.table = true;
      size_t w = 1 + r.Upto(free_tables.size() - 1), m = 1 + r.Upto(5);
      for (size_t k = 0; k < w; ++k) {
        item.cols.push_back(free_tables.back());
        free_tables.pop_back();
      }
      for (size_t k = 0; k < m; ++k) {
        std::vector<F> row;
        for (size_t x = 0; x < w; ++x) row.push_back(F(fresh++));
        item.rows.push_back(row);
      }
      s.items.push_back(item);
      continue;
    }
    size_t height = 1 + r.Upto(r.Upto(3) ? 3 : 9);
    std::set<std::pair<int, size_t>> taken_cols;
    std::set<std::tuple<int, size_t, size_t>> taken;
    size_t ops = r.Upto(8);
    size_t used_height = 0;
    for (size_t k = 0; k < ops; ++k) {
      Op op;
      op.kind = static_cast<Kind>(r.Upto(6));
      op.off = r.Upto(height - 1);
      op.value = F(fresh++);
      int type = 0;
      switch (op.kind) {
        case kFixed:
          if (s.fixed == 0) continue;
          type = 1;
          op.col = r.Upto(s.fixed - 1);
          break;
        case kSelector:
          if (s.selectors == 0) continue;
          type = 3;
          op.col = r.Upto(s.selectors - 1);
          break;
        case kFromConstant:
          if (!constants || wanted >= std::max(tallest, used_height)) continue;
          ++wanted;
          op.value = constant();
          op.col = r.Upto(s.advice - 1);
          break;
        case kFromInstance:
          if (s.instances == 0) continue;
          op.a = r.Upto(s.instances - 1);
          op.row = r.Upto(20);
          op.value = InstanceValue(op.a, op.row);
          op.col = r.Upto(s.advice - 1);
          break;
        case kAdvice:
          op.col = r.Upto(s.advice - 1);
          break;
        case kEqual:
          if (s.cells.empty()) continue;
          op.a = r.Upto(s.cells.size() - 1);
          op.b = r.Bool() ? s.cells.size() - 1 : r.Upto(s.cells.size() - 1);
          item.ops.push_back(op);
          continue;
        case kConstant:
          if (s.cells.empty() || !constants || wanted >= std::max(tallest, used_height))
            continue;
          ++wanted;
          op.a = r.Upto(s.cells.size() - 1);
          op.value = constant();
          item.ops.push_back(op);
          continue;
      }
      if (!taken.insert({type, op.col, op.off}).second) {
        wanted -= op.kind == kFromConstant;
        continue;
      }
      used_height = std::max(used_height, op.off + 1);
      item.ops.push_back(op);
      if (op.kind != kSelector) s.cells.push_back({s.regions, type, op.col, op.off});
    }
    tallest = std::max(tallest, used_height);
    if (s.instances && !s.cells.empty())
      for (size_t k = r.Upto(2); k-- > 0;)
        item.instance.push_back(
            {r.Upto(s.cells.size() - 1), {r.Upto(s.instances - 1), r.Upto(20)}});
    s.items.push_back(item);
    ++s.regions;
  }
  return s;
}

template <template <typename> class Planner>
void Place(Case& c, bool v1) {
  Rng r = c.Bulk();
  Script s = AnyScript(c, r, v1);
  tp::ConstraintSystem<F> cs;
  Config cfg;
  for (size_t i = 0; i < s.advice; ++i) cfg.advice.push_back(cs.CreateAdviceColumn());
  for (size_t i = 0; i <= s.fixed; ++i) cfg.fixed.push_back(cs.CreateFixedColumn());
  for (size_t i = 0; i < s.instances; ++i) cfg.instance.push_back(cs.CreateInstanceColumn());
  for (size_t i = 0; i < s.selectors; ++i)
    cfg.selector.push_back(r.Bool() ? cs.CreateSimpleSelector() : cs.CreateComplexSelector());
  for (size_t i = 0; i < s.tables; ++i) cfg.tables.push_back(cs.CreateLookupTableColumn());
  std::vector<tp::FixedColumnKey> constants;
  for (size_t i : s.constants) constants.push_back(cfg.fixed[i]);
  size_t assigns = s.cells.size();
  if (s.regions >= 3 && assigns >= 4) c.Nontrivial();
  c.Note(s.regions, " regions, ", assigns, " cells, ", s.items.size() - s.regions, " tables");
  for (const Item& item : s.items) c.LabelIf(item.table, "table");
  Scripted<Planner> circuit(&s, true);
  Planner<Scripted<Planner>> planner;
  Recorder rec;
  planner.Synthesize(&rec, circuit, cfg.Clone(), constants);
  PBT_T(!rec.bad && rec.current == -1 && rec.depth == 0, "scopes");
  // Where each region starts.
  std::vector<std::vector<Assigned>> by(s.regions);
  std::vector<Assigned> table_cells, constant_cells;
  for (const Assigned& a : rec.all) {
    if (a.region == -1) {
      constant_cells.push_back(a);
    } else if (a.region == 100000) {
      table_cells.push_back(a);
    } else {
      PBT_T(a.region < static_cast<int>(s.regions), "region");
      by[a.region].push_back(a);
    }
  }
  std::vector<size_t> start(s.regions), height(s.regions);
  std::vector<std::set<std::pair<int, size_t>>> columns(s.regions);
  size_t region = 0;
  std::set<At> fixed_used;
  for (const Item& item : s.items) {
    if (item.table) continue;
    std::vector<Op> ops;
    for (const Op& op : item.ops)
      if (op.kind != kEqual && op.kind != kConstant) ops.push_back(op);
    PBT_TM(by[region].size() == ops.size(), "assignments",
           "region " << region << ": " << by[region].size() << " " << ops.size());
    for (size_t i = 0; i < ops.size(); ++i) {
      const Assigned& a = by[region][i];
      Kind k = ops[i].kind == kFixed || ops[i].kind == kSelector ? ops[i].kind : kAdvice;
      PBT_T(a.kind == k && a.col == ops[i].col, "assignments");
      if (k != kSelector) PBT_TM(a.value == ops[i].value, "value", "region " << region);
      PBT_T(a.row >= ops[i].off, "row");
      if (i == 0) start[region] = a.row - ops[i].off;
      PBT_TM(a.row == start[region] + ops[i].off, "row",
             "region " << region << " op " << i << ": " << a.row << ", offset "
                       << ops[i].off << ", start " << start[region]);
      height[region] = std::max(height[region], ops[i].off + 1);
      int type = k == kFixed ? 1 : k == kSelector ? 3 : 0;
      columns[region].insert({type, ops[i].col});
      if (type == 1) fixed_used.insert({1, a.col, a.row});
    }
    ++region;
  }
  for (size_t i = 0; i < s.regions; ++i)
    for (size_t j = 0; j < i; ++j) {
      bool common = false;
      for (const auto& k : columns[i]) common = common || columns[j].count(k);
      if (common)
        PBT_TM(start[i] + height[i] <= start[j] || start[j] + height[j] <= start[i],
               "overlap", "regions " << j << " at " << start[j] << " of " << height[j]
                                     << " and " << i << " at " << start[i] << " of "
                                     << height[i]);
    }
  // Copies.
  auto at = [&](size_t cell) -> At {
    const Cell& x = s.cells[cell];
    return {x.type, x.col, start[x.region] + x.off};
  };
  auto pair = [](At a, At b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); };
  std::multiset<std::pair<At, At>> want, got;
  std::multiset<std::pair<mpz_class, At>> want_const, got_const;
  region = 0;
  size_t cell = 0;
  for (const Item& item : s.items) {
    if (item.table) continue;
    for (const Op& op : item.ops) {
      if (op.kind == kEqual) want.insert(pair(at(op.a), at(op.b)));
      if (op.kind == kConstant) want_const.insert({pbt::FieldToMpz(op.value), at(op.a)});
      if (op.kind == kFromConstant)
        want_const.insert({pbt::FieldToMpz(op.value), at(cell)});
      if (op.kind == kFromInstance) want.insert(pair(at(cell), At{2, op.a, op.row}));
      cell += op.kind != kEqual && op.kind != kConstant && op.kind != kSelector;
    }
    for (const auto& [x, where] : item.instance)
      want.insert(pair(at(x), At{2, where.first, where.second}));
    ++region;
  }
  std::map<At, F> const_at;
  for (const Assigned& a : constant_cells) {
    PBT_T(a.kind == kFixed, "constant_kind");
    At p{1, a.col, a.row};
    PBT_TM(std::find(s.constants.begin(), s.constants.end(), a.col) != s.constants.end(),
           "constant_column", "column " << a.col);
    PBT_TM(const_at.insert({p, a.value}).second, "constant_clash",
           "two constants at row " << a.row);
    PBT_TM(!fixed_used.count(p), "constant_clash", "constant at used row " << a.row);
  }
  for (const auto& [a, b] : rec.copies) {
    auto i = const_at.find(a), j = const_at.find(b);
    if (i != const_at.end()) {
      got_const.insert({pbt::FieldToMpz(i->second), b});
    } else if (j != const_at.end()) {
      got_const.insert({pbt::FieldToMpz(j->second), a});
    } else {
      got.insert(pair(a, b));
    }
  }
  PBT_TM(got == want, "copies", got.size() << " " << want.size());
  PBT_TM(got_const == want_const, "constants", got_const.size() << " " << want_const.size());
  PBT_T(const_at.size() == want_const.size(), "constants");
  c.LabelIf(!want_const.empty(), "constants");
  // Tables, extended by their first value.
  constexpr size_t kRows = 20;
  std::map<size_t, std::vector<F>> model, real;
  for (const Assigned& a : table_cells) {
    PBT_T(a.kind == kFixed && a.row < kRows, "table_kind");
    real.try_emplace(a.col, std::vector<F>(kRows, F::Zero())).first->second[a.row] = a.value;
  }
  for (const Assigned& a : rec.fills) {
    auto it = real.find(a.col);
    PBT_T(it != real.end() && a.row <= kRows, "fill");
    for (size_t i = a.row; i < kRows; ++i) it->second[i] = a.value;
  }
  for (const Item& item : s.items) {
    if (!item.table) continue;
    for (size_t w = 0; w < item.cols.size(); ++w) {
      std::vector<F> v(kRows, item.rows[0][w]);
      for (size_t i = 0; i < item.rows.size(); ++i) v[i] = item.rows[i][w];
      model[cfg.tables[item.cols[w]].column().index()] = v;
    }
  }
  PBT_T(model == real, "tables");
}

template <typename C>
using Simple = tp::SimpleFloorPlanner<C>;
template <typename C>
using V1 = tp::V1FloorPlanner<C>;

void RegisterAll() {
  F::Init();
  pbt::Register("floor_planner.simple", 15000, 300000,
                [](Case& c) { Place<Simple>(c, false); });
  pbt::Register("floor_planner.v1", 15000, 300000, [](Case& c) { Place<V1>(c, true); });
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace layout_pbt

// Random circuits, their witnesses and a plain check of what they demand.
#ifndef VERIF_PLONK_CIRCUIT_H_
#define VERIF_PLONK_CIRCUIT_H_

#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/layout/layouter.h"
#include "tachyon/zk/plonk/layout/lookup_table.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace plonk_pbt {
using namespace pbt;  // NOLINT
namespace tp = tachyon::zk::plonk;
namespace tz = tachyon::zk;

using F = tachyon::math::bn254::Fr;

inline F AnyF(Rng& r) {
  switch (r.Upto(9)) {
    case 0: return F::Zero();
    case 1: return F::One();
    case 2: return -F::One();
    case 3: return F(static_cast<int>(r.Upto(5)));
    default: return BulkPrimeField<F>(r);
  }
}
inline F NonZeroF(Rng& r) {
  F f = AnyF(r);
  return f.IsZero() ? F::One() : f;
}

// What a gate computes. Cells are relative to the row of the gate.
struct Ex {
  enum Op { kAdvice, kFixed, kInstance, kConst, kChallenge, kAdd, kMul, kNeg,
            kScale } op = kConst;
  int col = 0, rot = 0;
  F c;
  std::vector<Ex> sub;
  template <typename G>
  F Eval(const G& get) const {
    switch (op) {
      case kConst: return c;
      case kAdd: return sub[0].Eval(get) + sub[1].Eval(get);
      case kMul: return sub[0].Eval(get) * sub[1].Eval(get);
      case kNeg: return -sub[0].Eval(get);
      case kScale: return sub[0].Eval(get) * c;
      default: return get(op, col, rot);
    }
  }
  template <typename V>
  void Visit(const V& v) const {
    v(*this);
    for (const Ex& e : sub) e.Visit(v);
  }
};

struct CellId {
  int region, col, off;
  bool operator<(const CellId& o) const {
    return std::tie(region, col, off) < std::tie(o.region, o.col, o.off);
  }
  bool operator==(const CellId& o) const {
    return region == o.region && col == o.col && off == o.off;
  }
};

struct Kind {
  enum K { kNone, kFree, kOut, kCopy, kCopyFixed, kInstance, kFromInstance,
           kConst, kFromConst, kLookup, kTable, kShuffleIn, kShuffleOut } k = kNone;
  CellId from = {0, 0, 0};  // kCopy, kCopyFixed
  int arg = 0;              // gate, instance row, table row, tuple
  F c;
};

struct Gate {
  int out;       // advice column
  bool complex;  // selector
  int shared = -1;  // uses the selector of this other gate
  std::vector<std::pair<int, Ex>> outs;  // column, what it is equal to
};

struct Lookup {
  int width = 1;
  std::vector<int> in;            // advice columns
  std::vector<std::pair<F, F>> map;  // input = sel * (map.first * cell + map.second)
  int table;                      // index of the table
};
struct Table {
  int width = 1;
  bool any = false;
  std::vector<int> cols;              // advice columns of any, else the table's
  std::vector<std::vector<F>> rows;   // the first is zero for fixed ones
  int region = -1;                    // for any
  std::vector<bool> enabled;          // for any
};
struct Shuffle {
  int width = 1;
  std::vector<int> in, out;
};

struct Region {
  int height = 1;
  std::map<std::pair<int, int>, Kind> cells;          // advice: (col, off)
  std::map<std::pair<int, int>, F> fixed;             // (col, off)
  std::set<std::pair<int, int>> gates;                // (gate, off)
  std::map<int, std::set<int>> lookups;               // lookup -> offsets
  std::map<int, std::set<int>> shuffle_in, shuffle_out;
  std::set<int> table_rows;                           // of any tables
  int table = -1;
};

struct Shape {
  uint32_t k = 5;
  int advice = 0, fixed = 0, instances = 0, tables_fixed = 0;
  std::vector<int> phase;  // of advice columns
  bool challenge = false, constants = false;
  bool single = false;     // one region, at the top
  int inst_rows = 0;
  std::vector<Gate> gates;
  std::vector<Lookup> lookups;
  std::vector<Table> tables;
  std::vector<Shuffle> shuffles;
  std::vector<Region> regions;
  // Public outputs: instance row -> cell.
  std::map<int, CellId> outputs;
  std::vector<bool> equality_advice, equality_fixed;
  bool equality_instance = false;
};

// One assignment of a shape.
struct Data {
  std::map<CellId, F> free;  // everything not computed
  std::vector<F> instance;
  bool has_delta = false;
  CellId delta_at = {0, 0, 0};
  F delta;
};

// All cell values given the challenge.
inline std::map<CellId, F> Values(const Shape& s, const Data& d, const F* challenge) {
  std::map<CellId, F> v;
  // Columns in order; gates and copies only refer to earlier ones.
  for (int col = 0; col < s.advice; ++col) {
    if (s.phase[col] && !challenge) continue;
    for (size_t r = 0; r < s.regions.size(); ++r) {
      for (const auto& [at, kind] : s.regions[r].cells) {
        if (at.first != col) continue;
        CellId id = {static_cast<int>(r), col, at.second};
        switch (kind.k) {
          case Kind::kNone:
            break;
          case Kind::kOut: {
            const Ex* ex = nullptr;
            for (const auto& [c, e] : s.gates[kind.arg].outs)
              if (c == col) ex = &e;
            v[id] = ex->Eval([&](Ex::Op op, int c, int rot) -> F {
              int off = at.second + rot;
              if (op == Ex::kAdvice) {
                auto it = v.find({static_cast<int>(r), c, off});
                return it == v.end() ? F::Zero() : it->second;
              }
              if (op == Ex::kFixed) {
                auto it = s.regions[r].fixed.find({c, off});
                return it == s.regions[r].fixed.end() ? F::Zero() : it->second;
              }
              if (op == Ex::kInstance)
                return off < static_cast<int>(d.instance.size()) && off >= 0
                           ? d.instance[off]
                           : F::Zero();
              return *challenge;
            });
            break;
          }
          case Kind::kCopy:
            v[id] = v.at(kind.from);
            break;
          case Kind::kCopyFixed:
            v[id] = s.regions[kind.from.region].fixed.at(
                {kind.from.col, kind.from.off});
            break;
          case Kind::kInstance:
          case Kind::kFromInstance:
            v[id] = d.instance[kind.arg];
            break;
          case Kind::kConst:
          case Kind::kFromConst:
            v[id] = kind.c;
            break;
          default:
            v[id] = d.free.at(id);
        }
      }
    }
  }
  return v;
}

// Whether the values, one of them perhaps changed, meet every demand.
inline bool Satisfied(const Shape& s, const Data& d, const F& challenge) {
  std::map<CellId, F> v = Values(s, d, &challenge);
  if (d.has_delta) v[d.delta_at] += d.delta;
  auto get = [&](const CellId& id) {
    auto it = v.find(id);
    return it == v.end() ? F::Zero() : it->second;
  };
  auto instance = [&](int row) {
    return row >= 0 && row < static_cast<int>(d.instance.size())
               ? d.instance[row]
               : F::Zero();
  };
  for (size_t r = 0; r < s.regions.size(); ++r) {
    const Region& reg = s.regions[r];
    int ri = static_cast<int>(r);
    for (const auto& [g, off] : reg.gates) {
      for (const auto& [col, ex] : s.gates[g].outs) {
        int o = off;
        F x = ex.Eval([&](Ex::Op op, int c, int rot) -> F {
          if (op == Ex::kAdvice) return get({ri, c, o + rot});
          if (op == Ex::kFixed) {
            auto it = reg.fixed.find({c, o + rot});
            return it == reg.fixed.end() ? F::Zero() : it->second;
          }
          if (op == Ex::kInstance) return instance(o + rot);
          return challenge;
        });
        if (x != get({ri, col, off})) return false;
      }
    }
    for (const auto& [at, kind] : reg.cells) {
      CellId id = {ri, at.first, at.second};
      if (kind.k == Kind::kCopy && get(id) != get(kind.from)) return false;
      if (kind.k == Kind::kCopyFixed &&
          get(id) != s.regions[kind.from.region].fixed.at(
                         {kind.from.col, kind.from.off}))
        return false;
      if ((kind.k == Kind::kInstance || kind.k == Kind::kFromInstance) &&
          get(id) != instance(kind.arg))
        return false;
      if ((kind.k == Kind::kConst || kind.k == Kind::kFromConst) &&
          get(id) != kind.c)
        return false;
    }
  }
  for (const auto& [row, id] : s.outputs)
    if (get(id) != instance(row)) return false;
  for (size_t l = 0; l < s.lookups.size(); ++l) {
    const Lookup& lk = s.lookups[l];
    const Table& t = s.tables[lk.table];
    std::set<std::vector<std::string>> rows;
    auto key = [](const std::vector<F>& x) {
      std::vector<std::string> k;
      for (const F& f : x) k.push_back(f.ToString());
      return k;
    };
    rows.insert(key(std::vector<F>(lk.width, F::Zero())));
    if (!t.any) {
      for (const auto& row : t.rows) rows.insert(key(row));
    } else {
      for (int off : s.regions[t.region].table_rows) {
        std::vector<F> row;
        for (int c : t.cols) row.push_back(get({t.region, c, off}));
        rows.insert(key(row));
      }
    }
    for (size_t r = 0; r < s.regions.size(); ++r) {
      auto it = s.regions[r].lookups.find(static_cast<int>(l));
      if (it == s.regions[r].lookups.end()) continue;
      for (int off : it->second) {
        std::vector<F> row;
        for (int i = 0; i < lk.width; ++i)
          row.push_back(get({static_cast<int>(r), lk.in[i], off}) *
                            lk.map[i].first +
                        lk.map[i].second);
        if (!rows.count(key(row))) return false;
      }
    }
  }
  for (size_t x = 0; x < s.shuffles.size(); ++x) {
    const Shuffle& sh = s.shuffles[x];
    std::multiset<std::vector<std::string>> in, out;
    for (size_t r = 0; r < s.regions.size(); ++r) {
      auto add = [&](const std::map<int, std::set<int>>& offs,
                     const std::vector<int>& cols,
                     std::multiset<std::vector<std::string>>& to) {
        auto it = offs.find(static_cast<int>(x));
        if (it == offs.end()) return;
        for (int off : it->second) {
          std::vector<std::string> k;
          for (int c : cols)
            k.push_back(get({static_cast<int>(r), c, off}).ToString());
          to.insert(k);
        }
      };
      add(s.regions[r].shuffle_in, sh.in, in);
      add(s.regions[r].shuffle_out, sh.out, out);
    }
    // Rows that are not enabled count as zeros.
    auto drop = [](std::multiset<std::vector<std::string>>& m, int w) {
      std::vector<std::string> z(w, F::Zero().ToString());
      m.erase(z);
    };
    drop(in, sh.width);
    drop(out, sh.width);
    if (in != out) return false;
  }
  return true;
}

inline Ex AnyEx(Rng& r, const Shape& s, int min_col, int max_col, bool allow_challenge,
                bool instance, int depth, int degree) {
  Ex e;
  if (depth == 0 || r.Upto(4) == 0) {
    switch (r.Upto(9)) {
      case 0:
        e.op = Ex::kConst;
        e.c = AnyF(r);
        return e;
      case 1:
        if (s.fixed && degree > 0) {
          e.op = Ex::kFixed;
          e.col = static_cast<int>(r.Upto(s.fixed - 1));
          e.rot = static_cast<int>(r.Upto(2)) - 1;
          return e;
        }
        break;
      case 2:
        if (instance && degree > 0) {
          e.op = Ex::kInstance;
          e.rot = static_cast<int>(r.Upto(2)) - 1;
          return e;
        }
        break;
      case 3:
        if (allow_challenge) {
          e.op = Ex::kChallenge;
          return e;
        }
        break;
    }
    if (degree > 0) {
      e.op = Ex::kAdvice;
      e.col = min_col + static_cast<int>(r.Upto(max_col - min_col - 1));
      e.rot = r.Bool() ? 0 : static_cast<int>(r.Upto(3)) - 1;
    } else {
      e.op = Ex::kConst;
      e.c = AnyF(r);
    }
    return e;
  }
  auto sub = [&](int deg) {
    return AnyEx(r, s, min_col, max_col, allow_challenge, instance, depth - 1, deg);
  };
  switch (r.Upto(4)) {
    case 0:
    case 1:
      e.op = Ex::kAdd;
      e.sub = {sub(degree), sub(degree)};
      break;
    case 2: {
      e.op = Ex::kMul;
      int d = degree / 2;
      e.sub = {sub(degree - d), sub(d)};
      break;
    }
    case 3:
      e.op = Ex::kNeg;
      e.sub = {sub(degree)};
      break;
    default:
      e.op = Ex::kScale;
      e.c = AnyF(r);
      e.sub = {sub(degree)};
  }
  return e;
}

inline Shape AnyShape(Case& c, Rng& r, bool allow_phases = true) {
  Shape s;
  s.k = 5 + static_cast<uint32_t>(c.Draw(1));
  // What the blinding takes away is at most 9 rows here.
  int rows = (1 << s.k) - 11;
  bool lookups = c.Bool(), shuffles = c.Draw(2) == 0;
  bool gates = (!lookups && !shuffles) || c.Draw(3) != 0;
  s.single = c.Draw(3) == 0;
  s.fixed = static_cast<int>(c.Draw(2));
  s.instances = c.Bool() ? 1 : 0;
  s.constants = c.Draw(2) == 0;
  if (s.instances) s.inst_rows = static_cast<int>(c.Draw(6));
  auto column = [&](int phase) {
    s.phase.push_back(phase);
    s.equality_advice.push_back(false);
    return s.advice++;
  };
  if (s.single) s.regions.emplace_back();
  int height = 2 + static_cast<int>(c.Draw(4));
  if (s.single) s.regions[0].height = height;
  int used_rows = s.single ? height : 0;
  auto region = [&](int h) -> int {
    if (s.single) return 0;
    if (used_rows + h > rows) return -1;
    used_rows += h;
    s.regions.emplace_back();
    s.regions.back().height = h;
    return static_cast<int>(s.regions.size()) - 1;
  };
  auto heights = [&]() {
    return s.single ? height : 1 + static_cast<int>(r.Upto(5));
  };
  if (lookups) {
    int n = 1 + static_cast<int>(c.Draw(1));
    if (n == 2) n += static_cast<int>(c.Draw(2));
    for (int l = 0; l < n; ++l) {
      Lookup lk;
      if (l > 0 && c.Bool()) {
        lk.table = static_cast<int>(c.Draw(s.tables.size() - 1));
        lk.width = s.tables[lk.table].width;
      } else {
        Table t;
        t.width = 1 + static_cast<int>(c.Draw(1));
        t.any = c.Bool();
        int reg = t.any ? region(heights()) : -1;
        if (reg < 0) t.any = false;
        for (int i = 0; i < t.width; ++i)
          t.cols.push_back(t.any ? column(0) : s.tables_fixed++);
        if (t.any) {
          t.region = reg;
          Region& rg = s.regions[reg];
          rg.table = static_cast<int>(s.tables.size());
          for (int off = 0; off < rg.height; ++off) {
            for (int col : t.cols) rg.cells[{col, off}].k = Kind::kTable;
            if (r.Upto(3)) rg.table_rows.insert(off);
          }
        } else {
          int m = 1 + static_cast<int>(r.Upto(rows - 2));
          t.rows.push_back(std::vector<F>(t.width, F::Zero()));
          for (int i = 1; i < m; ++i) {
            if (r.Upto(5) == 0) {
              t.rows.push_back(t.rows[r.Upto(t.rows.size() - 1)]);
              continue;
            }
            std::vector<F> row;
            for (int w = 0; w < t.width; ++w) row.push_back(AnyF(r));
            t.rows.push_back(row);
          }
        }
        lk.table = static_cast<int>(s.tables.size());
        lk.width = t.width;
        // In a single region there is only room for one table of cells.
        s.tables.push_back(t);
      }
      for (int i = 0; i < lk.width; ++i) {
        lk.in.push_back(column(0));
        lk.map.push_back(r.Bool() ? std::make_pair(F::One(), F::Zero())
                                  : std::make_pair(NonZeroF(r), AnyF(r)));
      }
      int reg = region(heights());
      if (reg >= 0) {
        Region& rg = s.regions[reg];
        for (int off = 0; off < rg.height; ++off) {
          bool on = r.Upto(3) != 0;
          if (on) rg.lookups[l].insert(off);
          int pick = static_cast<int>(r.Next() >> 40);
          for (int col : lk.in) {
            Kind& k = rg.cells[{col, off}];
            k.k = on ? Kind::kLookup : Kind::kFree;
            k.arg = pick;
          }
        }
      }
      s.lookups.push_back(lk);
    }
  }
  if (shuffles) {
    Shuffle sh;
    sh.width = 1 + static_cast<int>(c.Draw(1));
    for (int i = 0; i < sh.width; ++i) sh.in.push_back(column(0));
    for (int i = 0; i < sh.width; ++i) sh.out.push_back(column(0));
    int h = heights();
    int a = region(h), b = r.Bool() ? a : region(h);
    if (b < 0) b = a;
    if (a >= 0) {
      std::vector<int> to(h);
      for (int i = 0; i < h; ++i) to[i] = i;
      for (int i = h - 1; i > 0; --i) std::swap(to[i], to[r.Upto(i)]);
      int on = 1 + static_cast<int>(r.Upto(h - 1));
      for (int i = 0; i < h; ++i) {
        for (int col : sh.in) {
          Kind& k = s.regions[a].cells[{col, i}];
          k.k = i < on ? Kind::kShuffleIn : Kind::kFree;
          k.arg = i;
        }
        for (int col : sh.out) {
          Kind& k = s.regions[b].cells[{col, to[i]}];
          k.k = i < on ? Kind::kShuffleOut : Kind::kFree;
          k.arg = i;
        }
        if (i < on) {
          s.regions[a].shuffle_in[0].insert(i);
          s.regions[b].shuffle_out[0].insert(to[i]);
        }
      }
    }
    s.shuffles.push_back(sh);
  }
  int base = s.advice;
  if (gates) {
    int free_cols = 1 + static_cast<int>(c.Draw(2));
    for (int i = 0; i < free_cols; ++i) column(0);
    int n = 1 + static_cast<int>(c.Draw(2));
    bool late = false;
    for (int g = 0; g < n; ++g) {
      Gate gt;
      gt.complex = r.Bool();
      if (g > 0 && r.Upto(2) == 0) gt.shared = static_cast<int>(r.Upto(g - 1));
      late = late || (allow_phases && r.Upto(3) == 0);
      int outs = 1 + static_cast<int>(r.Upto(3) == 0);
      for (int o = 0; o < outs; ++o) {
        int max_col = s.advice;
        Ex ex = AnyEx(r, s, s.single ? 0 : base, max_col, late, s.single && s.instances, 3,
                      1 + static_cast<int>(r.Upto(2)));
        gt.outs.emplace_back(column(late ? 1 : 0), ex);
      }
      if (late) s.challenge = true;
      gt.out = gt.outs[0].first;
      s.gates.push_back(gt);
      if (r.Upto(2) == 0) column(late ? 1 : 0);
    }
    // Selectors that are shared are on in the same rows.
    size_t first = s.regions.size();
    if (s.single) {
      first = 0;
    } else {
      for (int i = 1 + static_cast<int>(c.Draw(3)); i > 0; --i)
        if (region(heights()) < 0) break;
    }
    for (size_t ri = first; ri < s.regions.size(); ++ri) {
      Region& rg = s.regions[ri];
      // Rows in which each selector is on.
      std::vector<std::set<int>> on(s.gates.size());
      for (size_t g = 0; g < s.gates.size(); ++g) {
        if (s.gates[g].shared >= 0) continue;
        for (int off = 0; off < rg.height; ++off) {
          bool fits = r.Upto(2) != 0;
          for (size_t g2 = 0; g2 < s.gates.size(); ++g2) {
            size_t root = g2;
            while (s.gates[root].shared >= 0) root = s.gates[root].shared;
            if (root != g) continue;
            for (const auto& [col, ex] : s.gates[g2].outs)
              ex.Visit([&](const Ex& e) {
                if (e.op == Ex::kAdvice || e.op == Ex::kFixed ||
                    e.op == Ex::kInstance)
                  fits = fits && off + e.rot >= 0 && off + e.rot < rg.height;
              });
          }
          if (fits) on[g].insert(off);
        }
      }
      for (size_t g = 0; g < s.gates.size(); ++g) {
        size_t root = g;
        while (s.gates[root].shared >= 0) root = s.gates[root].shared;
        for (int off : on[root]) {
          rg.gates.insert({static_cast<int>(g), off});
          for (const auto& [col, ex] : s.gates[g].outs) {
            Kind& k = rg.cells[{col, off}];
            k.k = Kind::kOut;
            k.arg = static_cast<int>(g);
          }
        }
      }
      for (int f = 0; f < s.fixed; ++f)
        for (int off = 0; off < rg.height; ++off)
          // The corners make the region claim the column.
          if (off == 0 || off + 1 == rg.height || r.Upto(3))
            rg.fixed[{f, off}] = AnyF(r);
      for (int col = base; col < s.advice; ++col) {
        for (int off = 0; off < rg.height; ++off) {
          Kind& k = rg.cells[{col, off}];
          if (k.k != Kind::kNone) continue;
          if (off != 0 && off + 1 != rg.height && r.Upto(4) == 0) {
            rg.cells.erase({col, off});
            continue;
          }
          k.k = Kind::kFree;
          switch (r.Upto(9)) {
            case 0:
            case 1:
            case 2: {
              // A copy of a cell of an earlier column.
              std::vector<CellId> from;
              for (size_t rj = 0; rj <= ri; ++rj)
                for (const auto& [at, kk] : s.regions[rj].cells)
                  if (at.first < col && kk.k != Kind::kNone &&
                      s.phase[at.first] <= s.phase[col])
                    from.push_back({static_cast<int>(rj), at.first, at.second});
              if (from.empty()) break;
              k.k = Kind::kCopy;
              k.from = from[r.Upto(from.size() - 1)];
              s.equality_advice[k.from.col] = true;
              s.equality_advice[col] = true;
              break;
            }
            case 3: {
              if (rg.fixed.empty()) break;
              auto it = rg.fixed.begin();
              std::advance(it, r.Upto(rg.fixed.size() - 1));
              k.k = Kind::kCopyFixed;
              k.from = {static_cast<int>(ri), it->first.first, it->first.second};
              s.equality_advice[col] = true;
              s.equality_fixed.resize(s.fixed);
              s.equality_fixed[it->first.first] = true;
              break;
            }
            case 4:
            case 5: {
              if (!s.inst_rows) break;
              k.k = r.Bool() ? Kind::kInstance : Kind::kFromInstance;
              k.arg = static_cast<int>(r.Upto(s.inst_rows - 1));
              s.equality_advice[col] = true;
              s.equality_instance = true;
              break;
            }
            case 6: {
              if (!s.constants) break;
              k.k = r.Bool() ? Kind::kConst : Kind::kFromConst;
              k.c = AnyF(r);
              s.equality_advice[col] = true;
              break;
            }
          }
        }
      }
    }
  }
  s.equality_fixed.resize(s.fixed);
  // The V1 planner only puts constants beside rows that regions use.
  int room = 0;
  for (const Region& rg : s.regions)
    for (const auto& [at, k] : rg.cells)
      if (k.k != Kind::kNone) room = std::max(room, at.second + 1);
  for (Region& rg : s.regions)
    for (auto& [at, k] : rg.cells)
      if ((k.k == Kind::kConst || k.k == Kind::kFromConst) && room-- <= 0)
        k.k = Kind::kFree;
  // Public outputs.
  if (s.instances) {
    std::set<CellId> taken;
    for (int i = static_cast<int>(c.Draw(3)); i > 0; --i) {
      std::vector<CellId> from;
      for (size_t ri = 0; ri < s.regions.size(); ++ri)
        for (const auto& [at, k] : s.regions[ri].cells)
          if (k.k != Kind::kNone && s.phase[at.first] == 0)
            from.push_back({static_cast<int>(ri), at.first, at.second});
      if (from.empty()) break;
      // An output may not feed back into the gates that compute it.
      bool reads = false;
      for (const Gate& g : s.gates)
        for (const auto& [col, ex] : g.outs)
          ex.Visit([&](const Ex& e) { reads = reads || e.op == Ex::kInstance; });
      if (reads) break;
      CellId id = from[r.Upto(from.size() - 1)];
      s.outputs[s.inst_rows++] = id;
      s.equality_advice[id.col] = true;
      s.equality_instance = true;
    }
  }
  return s;
}

inline Data AnyData(const Shape& s, Rng& r) {
  Data d;
  d.instance.resize(s.inst_rows);
  for (F& f : d.instance) f = AnyF(r);
  // Tables first: lookups choose from them.
  for (size_t ri = 0; ri < s.regions.size(); ++ri)
    for (const auto& [at, k] : s.regions[ri].cells) {
      CellId id = {static_cast<int>(ri), at.first, at.second};
      if (k.k == Kind::kFree || k.k == Kind::kTable || k.k == Kind::kShuffleIn)
        d.free[id] = AnyF(r);
    }
  for (size_t x = 0; x < s.shuffles.size(); ++x) {
    const Shuffle& sh = s.shuffles[x];
    for (size_t ri = 0; ri < s.regions.size(); ++ri)
      for (const auto& [at, k] : s.regions[ri].cells) {
        if (k.k != Kind::kShuffleOut) continue;
        for (int w = 0; w < sh.width; ++w) {
          if (sh.out[w] != at.first) continue;
          for (size_t rj = 0; rj < s.regions.size(); ++rj)
            for (const auto& [at2, k2] : s.regions[rj].cells)
              if (k2.k == Kind::kShuffleIn && k2.arg == k.arg &&
                  at2.first == sh.in[w])
                d.free[{static_cast<int>(ri), at.first, at.second}] =
                    d.free[{static_cast<int>(rj), at2.first, at2.second}];
        }
      }
  }
  for (size_t l = 0; l < s.lookups.size(); ++l) {
    const Lookup& lk = s.lookups[l];
    const Table& t = s.tables[lk.table];
    std::vector<std::vector<F>> rows;
    if (t.any) {
      for (int off : s.regions[t.region].table_rows) {
        std::vector<F> row;
        for (int col : t.cols) row.push_back(d.free[{t.region, col, off}]);
        rows.push_back(row);
      }
      rows.push_back(std::vector<F>(lk.width, F::Zero()));
    } else {
      rows = t.rows;
    }
    for (size_t ri = 0; ri < s.regions.size(); ++ri)
      for (const auto& [at, k] : s.regions[ri].cells)
        for (int w = 0; w < lk.width; ++w)
          if (k.k == Kind::kLookup && at.first == lk.in[w]) {
            F want = rows[k.arg % rows.size()][w] - lk.map[w].second;
            F inv = *lk.map[w].first.Inverse();
            d.free[{static_cast<int>(ri), at.first, at.second}] = want * inv;
          }
  }
  if (!s.outputs.empty()) {
    std::map<CellId, F> v = Values(s, d, nullptr);
    for (const auto& [row, id] : s.outputs) d.instance[row] = v.at(id);
  }
  return d;
}

// The circuit handed to tachyon.
struct Config {
  using Field = F;
  std::vector<tp::AdviceColumnKey> advice;
  std::vector<tp::FixedColumnKey> fixed;
  std::vector<tp::InstanceColumnKey> instance;
  std::vector<tp::LookupTableColumn> tables;
  std::vector<tp::Selector> gates, lookups, any_tables, shuffle_in, shuffle_out;
  std::vector<tp::Challenge> challenge;
  Config Clone() const { return *this; }
};

inline const Shape*& CurrentShape() {
  static const Shape* s = nullptr;
  return s;
}

inline std::unique_ptr<tz::Expression<F>> ToExpr(const Ex& e, const Config& cfg,
                                                 tp::VirtualCells<F>& meta) {
  using X = std::unique_ptr<tz::Expression<F>>;
  switch (e.op) {
    case Ex::kAdvice: return meta.QueryAdvice(cfg.advice[e.col], tz::Rotation(e.rot));
    case Ex::kFixed: return meta.QueryFixed(cfg.fixed[e.col], tz::Rotation(e.rot));
    case Ex::kInstance: return meta.QueryInstance(cfg.instance[0], tz::Rotation(e.rot));
    case Ex::kConst: return tp::ExpressionFactory<F>::Constant(e.c);
    case Ex::kChallenge: return meta.QueryChallenge(cfg.challenge[0]);
    case Ex::kAdd: {
      X a = ToExpr(e.sub[0], cfg, meta), b = ToExpr(e.sub[1], cfg, meta);
      return std::move(a) + std::move(b);
    }
    case Ex::kMul: {
      X a = ToExpr(e.sub[0], cfg, meta), b = ToExpr(e.sub[1], cfg, meta);
      return std::move(a) * std::move(b);
    }
    case Ex::kNeg: return -ToExpr(e.sub[0], cfg, meta);
    default: return ToExpr(e.sub[0], cfg, meta) * e.c;
  }
}

template <template <typename> class _FloorPlanner>
class RandomCircuit : public tp::Circuit<Config> {
 public:
  using FloorPlanner = _FloorPlanner<RandomCircuit<_FloorPlanner>>;

  RandomCircuit() : s_(CurrentShape()) {}
  explicit RandomCircuit(const Data* d) : s_(CurrentShape()), d_(d) {}

  std::unique_ptr<tp::Circuit<Config>> WithoutWitness() const override {
    return std::make_unique<RandomCircuit>();
  }

  static Config Configure(tp::ConstraintSystem<F>& meta) {
    const Shape& s = *CurrentShape();
    Config cfg;
    for (int i = 0; i < s.advice; ++i)
      cfg.advice.push_back(s.phase[i] ? meta.CreateAdviceColumn(tp::kSecondPhase)
                                      : meta.CreateAdviceColumn());
    for (int i = 0; i < s.fixed; ++i) cfg.fixed.push_back(meta.CreateFixedColumn());
    for (int i = 0; i < s.instances; ++i)
      cfg.instance.push_back(meta.CreateInstanceColumn());
    for (int i = 0; i < s.tables_fixed; ++i)
      cfg.tables.push_back(meta.CreateLookupTableColumn());
    if (s.constants) meta.EnableConstant(meta.CreateFixedColumn());
    for (int i = 0; i < s.advice; ++i)
      if (s.equality_advice[i]) meta.EnableEquality(cfg.advice[i]);
    for (int i = 0; i < s.fixed; ++i)
      if (s.equality_fixed[i]) meta.EnableEquality(cfg.fixed[i]);
    if (s.equality_instance) meta.EnableEquality(cfg.instance[0]);
    if (s.challenge)
      cfg.challenge.push_back(meta.CreateChallengeUsableAfter(tp::kFirstPhase));
    for (const Gate& g : s.gates) {
      cfg.gates.push_back(g.shared >= 0 ? cfg.gates[g.shared]
                          : g.complex   ? meta.CreateComplexSelector()
                                        : meta.CreateSimpleSelector());
      tp::Selector sel = cfg.gates.back();
      meta.CreateGate("gate", [&](tp::VirtualCells<F>& cells) {
        std::vector<tp::Constraint<F>> ret;
        for (const auto& [col, ex] : g.outs) {
          auto x = ToExpr(ex, cfg, cells);
          auto y = cells.QueryAdvice(cfg.advice[col], tz::Rotation::Cur());
          auto q = cells.QuerySelector(sel);
          ret.emplace_back("out", std::move(q) * (std::move(x) - std::move(y)));
        }
        return ret;
      });
    }
    for (const Table& t : s.tables)
      if (t.any) cfg.any_tables.push_back(meta.CreateComplexSelector());
    for (const Lookup& l : s.lookups) {
      tp::Selector sel = meta.CreateComplexSelector();
      cfg.lookups.push_back(sel);
      const Table& t = s.tables[l.table];
      auto input = [&](tp::VirtualCells<F>& cells, int i) {
        auto q = cells.QuerySelector(sel);
        auto a = cells.QueryAdvice(cfg.advice[l.in[i]], tz::Rotation::Cur());
        if (!l.map[i].first.IsOne()) a = std::move(a) * l.map[i].first;
        if (!l.map[i].second.IsZero())
          a = std::move(a) + tp::ExpressionFactory<F>::Constant(l.map[i].second);
        return std::move(q) * std::move(a);
      };
      if (t.any) {
        size_t idx = 0;
        for (int i = 0; i < l.table; ++i) idx += s.tables[i].any;
        tp::Selector ts = cfg.any_tables[idx];
        meta.LookupAny("lookup any", [&](tp::VirtualCells<F>& cells) {
          tz::lookup::Pairs<std::unique_ptr<tz::Expression<F>>> p;
          for (int i = 0; i < l.width; ++i) {
            auto in = input(cells, i);
            auto q = cells.QuerySelector(ts);
            auto a = cells.QueryAdvice(cfg.advice[t.cols[i]], tz::Rotation::Cur());
            p.emplace_back(std::move(in), std::move(q) * std::move(a));
          }
          return p;
        });
      } else {
        meta.Lookup("lookup", [&](tp::VirtualCells<F>& cells) {
          tz::lookup::Pairs<std::unique_ptr<tz::Expression<F>>, tp::LookupTableColumn> p;
          for (int i = 0; i < l.width; ++i)
            p.emplace_back(input(cells, i), cfg.tables[t.cols[i]]);
          return p;
        });
      }
    }
    for (const Shuffle& sh : s.shuffles) {
      tp::Selector a = meta.CreateComplexSelector();
      tp::Selector b = meta.CreateComplexSelector();
      cfg.shuffle_in.push_back(a);
      cfg.shuffle_out.push_back(b);
      meta.Shuffle("shuffle", [&](tp::VirtualCells<F>& cells) {
        tz::shuffle::Pairs<std::unique_ptr<tz::Expression<F>>> p;
        for (int i = 0; i < sh.width; ++i) {
          auto q = cells.QuerySelector(a);
          auto x = cells.QueryAdvice(cfg.advice[sh.in[i]], tz::Rotation::Cur());
          auto q2 = cells.QuerySelector(b);
          auto y = cells.QueryAdvice(cfg.advice[sh.out[i]], tz::Rotation::Cur());
          p.emplace_back(std::move(q) * std::move(x), std::move(q2) * std::move(y));
        }
        return p;
      });
    }
    return cfg;
  }

  void Synthesize(Config&& cfg, tp::Layouter<F>* layouter) const override {
    const Shape& s = *s_;
    std::map<CellId, F> v;
    bool known = false;
    if (d_) {
      if (s.challenge) {
        tz::Value<F> ch = layouter->GetChallenge(cfg.challenge[0]);
        if (!ch.IsNone()) {
          F x = ch.value();
          v = Values(s, *d_, &x);
          known = true;
        }
      }
      if (!known) v = Values(s, *d_, nullptr);
      if (d_->has_delta && v.count(d_->delta_at)) v[d_->delta_at] += d_->delta;
    }
    auto value = [&v](const CellId& id) {
      auto it = v.find(id);
      return it == v.end() ? tz::Value<F>::Unknown() : tz::Value<F>::Known(it->second);
    };
    size_t at_table = 0;
    for (const Table& t : s.tables) {
      ++at_table;
      if (t.any) continue;
      layouter->AssignLookupTable("table", [&](tp::LookupTable<F>& table) {
        for (size_t i = 0; i < t.rows.size(); ++i)
          for (int w = 0; w < t.width; ++w) {
            CHECK(table.AssignCell("t", cfg.tables[t.cols[w]], i, [&]() {
              return tz::Value<F>::Known(t.rows[i][w]);
            }));
          }
      });
    }
    std::map<CellId, tp::Cell> cells, fixed;
    for (size_t r = 0; r < s.regions.size(); ++r) {
      const Region& rg = s.regions[r];
      int ri = static_cast<int>(r);
      layouter->AssignRegion("region", [&](tp::Region<F>& region) {
        std::set<std::pair<size_t, int>> done;
        for (const auto& [g, off] : rg.gates)
          if (done.insert({cfg.gates[g].index(), off}).second)
            cfg.gates[g].Enable(region, off);
        for (const auto& [l, offs] : rg.lookups)
          for (int off : offs) cfg.lookups[l].Enable(region, off);
        for (const auto& [x, offs] : rg.shuffle_in)
          for (int off : offs) cfg.shuffle_in[x].Enable(region, off);
        for (const auto& [x, offs] : rg.shuffle_out)
          for (int off : offs) cfg.shuffle_out[x].Enable(region, off);
        size_t any = 0;
        for (const Table& t : s.tables) {
          if (!t.any) continue;
          if (t.region == ri)
            for (int off : rg.table_rows) cfg.any_tables[any].Enable(region, off);
          ++any;
        }
        for (const auto& [at, f] : rg.fixed) {
          F x = f;
          fixed[{ri, at.first, at.second}] =
              region
                  .AssignFixed("f", cfg.fixed[at.first], at.second,
                               [&x]() { return tz::Value<F>::Known(x); })
                  .cell();
        }
        for (const auto& [at, k] : rg.cells) {
          if (k.k == Kind::kNone) continue;
          CellId id = {ri, at.first, at.second};
          bool changed = d_ && d_->has_delta && d_->delta_at == id;
          if (k.k == Kind::kFromInstance && !changed) {
            cells[id] = region
                            .AssignAdviceFromInstance("i", cfg.instance[0], k.arg,
                                                      cfg.advice[at.first], at.second)
                            .cell();
            continue;
          }
          if (k.k == Kind::kFromConst && !changed) {
            cells[id] = region
                            .AssignAdviceFromConstant("c", cfg.advice[at.first],
                                                      at.second, k.c)
                            .cell();
            continue;
          }
          cells[id] = region
                          .AssignAdvice("a", cfg.advice[at.first], at.second,
                                        [&value, id]() { return value(id); })
                          .cell();
          if (k.k == Kind::kConst || k.k == Kind::kFromConst)
            region.ConstrainConstant(cells[id],
                                     tachyon::math::RationalField<F>(k.c));
          if (k.k == Kind::kCopyFixed)
            region.ConstrainEqual(cells[id], fixed.at(k.from));
        }
        // Cells of earlier columns of this region are known by now.
        for (const auto& [at, k] : rg.cells)
          if (k.k == Kind::kCopy)
            region.ConstrainEqual(cells.at({ri, at.first, at.second}),
                                  cells.at(k.from));
      });
      for (const auto& [at, k] : rg.cells) {
        CellId id = {ri, at.first, at.second};
        bool changed = d_ && d_->has_delta && d_->delta_at == id;
        if (k.k == Kind::kInstance || (k.k == Kind::kFromInstance && changed))
          layouter->ConstrainInstance(cells.at(id), cfg.instance[0], k.arg);
      }
    }
    for (const auto& [row, id] : s.outputs)
      layouter->ConstrainInstance(cells.at(id), cfg.instance[0], row);
  }

 private:
  const Shape* s_;
  const Data* d_ = nullptr;
};

}  // namespace plonk_pbt

#endif  // VERIF_PLONK_CIRCUIT_H_

// The container format of circom's files, written from its description:
//   magic, version: u32, number of sections: u32,
//   and per section  type: u32, size: u64, contents,
// all integers little endian.
#ifndef VERIF_CIRCOM_FORMAT_H_
#define VERIF_CIRCOM_FORMAT_H_

#include <stdint.h>
#include <sys/resource.h>

#include <algorithm>
#include <string>
#include <vector>

#include "verif/files/scratch.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace circom_pbt {

using namespace pbt;  // NOLINT

inline std::string Le(const mpz_class& v, size_t bytes) {
  std::string s(bytes, 0);
  mpz_class t = v;
  for (char& x : s) {
    x = static_cast<char>(mpz_class(t & 255).get_ui());
    t >>= 8;
  }
  return s;
}
inline std::string U32(uint64_t v) { return Le(mpz_class(static_cast<unsigned long>(v)), 4); }
inline std::string U64(uint64_t v) { return Le(mpz_class(static_cast<unsigned long>(v)), 8); }

template <typename F>
constexpr size_t kBytes = (F::Config::kModulusBits + 63) / 64 * 8;

// As integers, and as the limbs of x * 2^(8 * bytes).
template <typename F>
std::string Plain(const mpz_class& v) {
  return Le(v, kBytes<F>);
}
template <typename F>
mpz_class TimesR(const mpz_class& v, int times) {
  mpz_class x = v, m = Modulus<F>();
  for (int i = 0; i < times; ++i) x = (x << (8 * kBytes<F>)) % m;
  return x;
}
template <typename F>
std::string ModulusBytes() {
  return U32(kBytes<F>) + Le(Modulus<F>(), kBytes<F>);
}

// Also the powers of R and their inverses, whose limbs look like other values.
template <typename F>
mpz_class AnyValue(Rng& r) {
  if (r.Upto(7)) return FieldToMpz(BulkPrimeField<F>(r));
  mpz_class m = Modulus<F>(), v = TimesR<F>(1, 1 + static_cast<int>(r.Upto(1)));
  if (r.Bool()) mpz_invert(v.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t());
  return v;
}

struct Part {
  uint32_t type;
  std::string data;
  bool needed = true;
};
struct File {
  std::string magic;
  uint32_t version;
  std::vector<Part> parts;

  // |end|: the end of the last needed section.
  std::string Bytes(size_t* end = nullptr) const {
    std::string s = magic + U32(version) + U32(parts.size());
    for (const Part& p : parts) {
      s += U32(p.type) + U64(p.data.size()) + p.data;
      if (p.needed && end) *end = s.size();
    }
    return s;
  }
  Part& Of(uint32_t type) {
    for (Part& p : parts)
      if (p.needed && p.type == type) return p;
    abort();
  }
};

// In any order, with sections that the reader does not know in between.
inline void Shuffle(Case& c, File* f, std::vector<uint32_t> others) {
  if (c.Bool()) {
    for (size_t n = c.Draw(2); n; --n) {
      std::string junk(c.Draw(9), static_cast<char>(c.Draw(255)));
      f->parts.push_back({others[c.Draw(others.size() - 1)], junk, false});
    }
    for (size_t i = f->parts.size(); i > 1; --i) std::swap(f->parts[i - 1], f->parts[c.Draw(i - 1)]);
    c.Label("sections shuffled");
  }
}

// Memory that a file of some bytes has no claim to is not to be had.
inline void LimitMemory() {
  static bool done = [] {
    rlimit r;
    getrlimit(RLIMIT_AS, &r);
    r.rlim_cur = rlim_t{6} << 30;
    setrlimit(RLIMIT_AS, &r);
    return true;
  }();
  (void)done;
}

// Makes of a well-formed file one that must be refused. |counts| are pairs of
// a section and an offset in it of a 32-bit count, none of which may grow.
inline std::string Spoil(Case& c, File f, const std::vector<std::pair<uint32_t, size_t>>& counts,
                         uint32_t good_version, std::pair<uint32_t, size_t> modulus) {
  size_t end = 0;
  std::string bytes = f.Bytes(&end);
  switch (c.Draw(6)) {
    case 6: {
      c.Label("field size not of words");
      std::string& d = f.Of(modulus.first).data;
      size_t at = modulus.second, n = static_cast<unsigned char>(d[at]), want = n - 1 - c.Draw(6);
      d.replace(at, 4 + n, U32(want) + d.substr(at + 4, want));
      c.Note("a modulus of ", want, " bytes");
      return f.Bytes();
    }
    case 0:
    case 1: {
      c.Label("truncated");
      size_t at = c.Bool() ? c.Draw(end - 1) : end - 1 - c.Draw(std::min<size_t>(end - 1, 40));
      c.Note("cut at ", at, " of ", bytes.size(), " (needed: ", end, ")");
      return bytes.substr(0, at);
    }
    case 2: {
      c.Label("another magic");
      size_t i = c.Draw(3);
      bytes[i] = static_cast<char>(bytes[i] + 1 + c.Draw(254));
      c.Note("magic byte ", i, " is ", static_cast<int>(static_cast<uint8_t>(bytes[i])));
      return bytes;
    }
    case 3: {
      c.Label("another version");
      uint32_t v = c.Bool() ? static_cast<uint32_t>(c.Draw(4)) : static_cast<uint32_t>(c.Draw(0xffffffff));
      if (v == good_version) v += 1 + static_cast<uint32_t>(c.Draw(3));
      c.Note("version ", v);
      f.version = v;
      return f.Bytes();
    }
    case 4: {
      c.Label("section missing");
      std::vector<size_t> at;
      for (size_t i = 0; i < f.parts.size(); ++i)
        if (f.parts[i].needed) at.push_back(i);
      size_t i = at[c.Draw(at.size() - 1)];
      c.Note("without section ", f.parts[i].type);
      if (c.Bool()) f.parts.erase(f.parts.begin() + static_cast<long>(i));
      else f.parts[i].type = 0x100 + static_cast<uint32_t>(c.Draw(5));
      return f.Bytes();
    }
    default: {
      c.Label("count too large");
      auto [type, at] = counts[c.Draw(counts.size() - 1)];
      uint64_t least = bytes.size() + 1;
      uint64_t v = c.Bool() ? least + c.Draw(1000)
                            : c.Bool() ? 0xffffffff - c.Draw(3)
                                       : least + c.Draw(0xffffffff - least);
      c.Note("section ", type, " offset ", at, " holds ", v);
      f.Of(type).data.replace(at, 4, U32(v));
      return f.Bytes();
    }
  }
}

// Anything may come of these, but nothing bad.
inline std::string Garble(Case& c, const std::string& bytes) {
  std::string s = bytes;
  for (size_t n = 1 + c.Draw(2); n && !s.empty(); --n) {
    size_t at = c.Bool() ? c.Draw(std::min<size_t>(s.size() - 1, 120)) : c.Draw(s.size() - 1);
    switch (c.Draw(3)) {
      case 0: s[at] = static_cast<char>(s[at] ^ (1 << c.Draw(7))); break;
      case 1: s[at] = static_cast<char>(c.Draw(255)); break;
      case 2:
        for (size_t i = at; i < std::min(at + 8, s.size()); ++i) s[i] = static_cast<char>(0xff);
        break;
      default: s.erase(at, 1 + c.Draw(8)); break;
    }
  }
  return s;
}

}  // namespace circom_pbt

#endif  // VERIF_CIRCOM_FORMAT_H_

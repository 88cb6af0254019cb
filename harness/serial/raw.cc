// Histories of reads and writes of numbers and bytes, against a vector of bytes.
#include <cstring>
#include <optional>

#include "tachyon/base/buffer/endian_auto_reset.h"

#include "verif/serial/any.h"

namespace serial_pbt {
namespace {

struct Model {
  std::vector<std::optional<uint8_t>> bytes;  // nothing: never written
  size_t offset = 0;
  bool grows = false;

  bool Fits(size_t at, size_t n) const { return at + n >= at && at + n <= bytes.size(); }
  bool Write(size_t at, const std::vector<uint8_t>& v) {
    if (!Fits(at, v.size())) {
      if (!grows || at + v.size() < at) return false;
      bytes.resize(at + v.size());
    }
    for (size_t i = 0; i < v.size(); ++i) bytes[at + i] = v[i];
    offset = at + v.size();
    return true;
  }
};

std::vector<uint8_t> Bytes(uint64_t v, size_t n, bool big) {
  std::vector<uint8_t> b(n);
  for (size_t i = 0; i < n; ++i) b[big ? n - 1 - i : i] = static_cast<uint8_t>(v >> (8 * i));
  return b;
}

template <typename B>
void History(Case& c) {
  constexpr bool kFixed = std::is_same_v<B, tb::Buffer>;
  size_t ops = c.Size(1, 60);
  size_t len = kFixed ? c.Draw(60) : 0;
  Rng r = c.Bulk();
  std::unique_ptr<Guarded> g;
  std::unique_ptr<B> b;
  Model m;
  m.grows = !kFixed;
  if constexpr (kFixed) {
    g.reset(new Guarded(len));
    b.reset(new B(g->data(), len));
    m.bytes.assign(len, 0);
  } else {
    b.reset(new B());
  }
  tb::Endian endian = tb::Endian::kNative;
  if (ops >= 5) c.Nontrivial();
  c.Note(ops, " operations", kFixed ? " on " : "", kFixed ? std::to_string(len) : "");
  for (size_t i = 0; i < ops; ++i) {
    size_t size = m.bytes.size();
    // Growing buffers stay small.
    size_t at = r.Upto(2) ? m.offset : r.Upto(size + 4);
    if (r.Upto(12) == 0) at = -r.Upto(12) - 1;
    // A buffer that grows cannot grow to everything.
    bool write = r.Bool() && !(m.grows && at > 4000 && at + 70 > at);
    if (at > 4000 && m.grows && write && at + 8 > at) continue;
    bool here = at == m.offset && r.Bool(), failed = false;
    switch (r.Upto(6)) {
      case 0:
      case 1: {  // numbers
        size_t n = size_t{2} << r.Upto(2);
        size_t order = r.Upto(2);  // as the buffer, big, little
        bool big = order == 1 || (order == 0 && endian == tb::Endian::kBig);
        uint64_t v = r.Next();
        if (write && m.grows && at + n > at && at > 4000) break;
        if (write) {
          bool ok = false;
#define CALL(bits)                                                                              \
  case bits / 8: {                                                                              \
    uint##bits##_t x = static_cast<uint##bits##_t>(v);                                          \
    ok = order == 0   ? (here ? b->Write(x) : b->WriteAt(at, x))                                \
         : order == 1 ? (here ? b->Write##bits##BE(x) : b->Write##bits##BEAt(at, x))            \
                      : (here ? b->Write##bits##LE(x) : b->Write##bits##LEAt(at, x));           \
    break;                                                                                      \
  }
          switch (n) { CALL(16) CALL(32) CALL(64) }
#undef CALL
          bool want = m.Write(at, Bytes(v, n, big));
          failed = !ok;
          PBT_TM(ok == want, "write", n << " bytes at " << at << " of " << size);
        } else {
          bool ok = false;
          uint64_t got = 0;
#define CALL(bits)                                                                              \
  case bits / 8: {                                                                              \
    uint##bits##_t x = 0;                                                                       \
    ok = order == 0   ? (here ? b->Read(&x) : b->ReadAt(at, &x))                                \
         : order == 1 ? (here ? b->Read##bits##BE(&x) : b->Read##bits##BEAt(at, &x))            \
                      : (here ? b->Read##bits##LE(&x) : b->Read##bits##LEAt(at, &x));           \
    got = x;                                                                                    \
    break;                                                                                      \
  }
          switch (n) { CALL(16) CALL(32) CALL(64) }
#undef CALL
          failed = !ok;
          PBT_TM(ok == m.Fits(at, n), "read", n << " bytes at " << at << " of " << size);
          if (ok) {
            std::vector<uint8_t> x = Bytes(got, n, big);
            for (size_t k = 0; k < n; ++k)
              if (m.bytes[at + k]) PBT_T(*m.bytes[at + k] == x[k], "value");
            m.offset = at + n;
          }
        }
        break;
      }
      case 2: {  // bytes
        size_t n = r.Upto(r.Bool() ? 12 : 60);
        if (write && m.grows && at > 4000 && at + n >= at) break;
        if (write) {
          std::vector<uint8_t> v(n);
          for (uint8_t& x : v) x = static_cast<uint8_t>(r.Next());
          bool ok = here ? b->Write(v.data(), n) : b->WriteAt(at, v.data(), n);
          failed = !ok;
          PBT_TM(ok == m.Write(at, v), "write", n << " bytes at " << at << " of " << size);
        } else {
          Guarded x(n);
          bool ok = here ? b->Read(x.data(), n) : b->ReadAt(at, x.data(), n);
          failed = !ok;
          PBT_TM(ok == m.Fits(at, n), "read", n << " bytes at " << at << " of " << size);
          if (ok) {
            for (size_t k = 0; k < n; ++k)
              if (m.bytes[at + k]) PBT_T(*m.bytes[at + k] == x.data()[k], "value");
            m.offset = at + n;
          }
        }
        break;
      }
      case 3: {  // a view of numbers
        size_t n = r.Upto(3) ? r.Upto(6) : (~uint64_t{0} >> r.Upto(5)) - r.Upto(3);
        uint32_t* p = nullptr;
        bool fits = at <= size && n <= (size - at) / 4;
        bool ok = here ? b->ReadPtr(&p, n) : b->ReadPtrAt(at, &p, n);
        failed = !ok;
        PBT_TM(ok == fits, "pointer", n << " numbers at " << at << " of " << size);
        if (ok) {
          PBT_T(reinterpret_cast<uint8_t*>(p) == static_cast<uint8_t*>(b->buffer()) + at,
                "pointer");
          m.offset = at + 4 * n;
        }
        break;
      }
      case 4:
        endian = AnyEndian(r);
        b->set_endian(endian);
        if (r.Bool()) {
          tb::Endian other = AnyEndian(r);
          tb::EndianAutoReset reset(*b, other);
          PBT_T(b->endian() == other, "endian");
        }
        break;
      case 5:
        m.offset = r.Upto(size + 2);
        b->set_buffer_offset(m.offset);
        break;
      default: {  // to another object
        std::unique_ptr<B> other;
        if (r.Bool()) {
          other.reset(new B(std::move(*b)));
        } else {
          other.reset(new B());
          if (r.Bool() && !kFixed) PBT_T(other->Write(uint64_t{5}), "write");
          *other = std::move(*b);
        }
        b = std::move(other);
        c.Label("moved");
      }
    }
    // What was there is there.
    PBT_T(b->endian() == endian, "endian");
    PBT_TM(b->buffer_len() == m.bytes.size(), "length",
           "after operation " << i << ": " << b->buffer_len() << ", not " << m.bytes.size());
    // After a failure the position is not specified.
    if (failed) b->set_buffer_offset(m.offset);
    PBT_T(b->buffer_offset() == m.offset, "offset");
    PBT_T(b->Done() == (m.offset == m.bytes.size()), "done");
    const uint8_t* p = static_cast<const uint8_t*>(
        static_cast<const tb::ReadOnlyBuffer&>(*b).buffer());
    for (size_t k = 0; k < m.bytes.size(); ++k)
      if (m.bytes[k]) PBT_TM(p[k] == *m.bytes[k], "earlier", "byte " << k);
  }
  if constexpr (!kFixed) {
    auto owned = std::move(*b).TakeOwnedBuffer();
    PBT_T(owned.size() == m.bytes.size(), "owned");
    for (size_t k = 0; k < m.bytes.size(); ++k)
      if (m.bytes[k]) PBT_T(static_cast<uint8_t>(owned[k]) == *m.bytes[k], "owned");
  }
}

void RegisterAll() {
  pbt::Register("history.fixed", 20000, 400000, History<tb::Buffer>);
  pbt::Register("history.vector", 20000, 400000, History<tb::Uint8VectorBuffer>);
  pbt::Register("history.char_vector", 5000, 100000, History<tb::CharVectorBuffer>);
  pbt::Register("history.string", 20000, 400000, History<tb::StringBuffer>);
}
PBT_INIT(RegisterAll);

}  // namespace
}  // namespace serial_pbt

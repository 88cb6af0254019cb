// Values of any serialisable type, behind one interface.
#ifndef VERIF_SERIAL_ANY_H_
#define VERIF_SERIAL_ANY_H_

#include <sys/mman.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"

#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace serial_pbt {

using pbt::Case;
using pbt::Rng;
namespace tb = tachyon::base;

// Memory that ends where the next page cannot be touched.
class Guarded {
 public:
  explicit Guarded(size_t n) : n_(n) {
    size_t page = sysconf(_SC_PAGESIZE);
    len_ = (n + page - 1) / page * page + page;
    base_ = static_cast<uint8_t*>(
        mmap(nullptr, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base_ + len_ - page, page, PROT_NONE);
    data_ = base_ + len_ - page - n;
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() { munmap(base_, len_); }
  uint8_t* data() { return data_; }
  size_t size() const { return n_; }

 private:
  size_t n_, len_;
  uint8_t *base_, *data_;
};

enum class Got { kFailed, kSame, kOther };

struct Item {
  const char* type;
  size_t size;  // the estimate
  std::function<bool(tb::Buffer&)> write;
  std::function<bool(tb::Buffer&, size_t)> write_at;
  std::function<Got(const tb::ReadOnlyBuffer&)> read;
  std::function<Got(const tb::ReadOnlyBuffer&, size_t)> read_at;
};

struct Same {
  template <typename T>
  bool operator()(const T& a, const T& b) const {
    return a == b;
  }
};

struct Type {
  const char* name;
  std::function<Item(Rng&)> any;
  // What it starts with: nothing of interest, its length, or its numbers of rows and columns.
  int counts = 0;

  Type Counted(int n = 1) const {
    Type t = *this;
    t.counts = n;
    return t;
  }
};

template <typename T, typename Gen, typename Eq = Same>
Type Of(const char* name, Gen gen, Eq eq = Eq()) {
  return {name, [=](Rng& r) {
            std::shared_ptr<T> v(new T(gen(r)));
            // What is read into held something else.
            std::shared_ptr<T> into(r.Bool() ? new T(gen(r)) : new T());
            Item it;
            it.type = name;
            it.size = tb::EstimateSize(*v);
            it.write = [v](tb::Buffer& b) { return b.Write(*v); };
            it.write_at = [v](tb::Buffer& b, size_t at) { return b.WriteAt(at, *v); };
            it.read = [v, into, eq](const tb::ReadOnlyBuffer& b) {
              if (!b.Read(into.get())) return Got::kFailed;
              return eq(*v, *into) ? Got::kSame : Got::kOther;
            };
            it.read_at = [v, into, eq](const tb::ReadOnlyBuffer& b, size_t at) {
              if (!b.ReadAt(at, into.get())) return Got::kFailed;
              return eq(*v, *into) ? Got::kSame : Got::kOther;
            };
            return it;
          }};
}
// Writes a W, reads a T that equals what the W was made from.
template <typename W, typename T, typename Gen, typename View>
Type Viewed(const char* name, Gen gen, View view) {
  return {name, [=](Rng& r) {
            std::shared_ptr<T> v(new T(gen(r))), into(new T());
            Item it;
            it.type = name;
            it.size = tb::EstimateSize(static_cast<W>(view(*v)));
            it.write = [v, view](tb::Buffer& b) { return b.Write(static_cast<W>(view(*v))); };
            it.write_at = [v, view](tb::Buffer& b, size_t at) {
              return b.WriteAt(at, static_cast<W>(view(*v)));
            };
            it.read = [v, into](const tb::ReadOnlyBuffer& b) {
              if (!b.Read(into.get())) return Got::kFailed;
              return *v == *into ? Got::kSame : Got::kOther;
            };
            it.read_at = [v, into](const tb::ReadOnlyBuffer& b, size_t at) {
              if (!b.ReadAt(at, into.get())) return Got::kFailed;
              return *v == *into ? Got::kSame : Got::kOther;
            };
            return it;
          }};
}

template <typename Gen>
auto VectorOf(Gen gen) {
  return [=](Rng& r) {
    std::vector<decltype(gen(r))> v(r.Upto(4) ? r.Upto(4) : r.Upto(40));
    for (auto& x : v) x = gen(r);
    return v;
  };
}
template <size_t N, typename Gen>
auto ArrayOf(Gen gen) {
  return [=](Rng& r) {
    std::array<decltype(gen(r)), N> v;
    for (auto& x : v) x = gen(r);
    return v;
  };
}

inline tb::Endian AnyEndian(Rng& r) {
  switch (r.Upto(2)) {
    case 0: return tb::Endian::kNative;
    case 1: return tb::Endian::kBig;
    default: return tb::Endian::kLittle;
  }
}

// Registers the checks of these types.
void RegisterTypes(const char* name, int n, std::function<std::vector<Type>()> types,
                   std::function<void(Rng&)> before, std::function<void()> after);

}  // namespace serial_pbt

#endif  // VERIF_SERIAL_ANY_H_

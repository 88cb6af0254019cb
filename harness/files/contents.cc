// What is written to a file is what is read from it.
#include <string.h>

#include <algorithm>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "tachyon/base/files/bin_file.h"
#include "tachyon/base/files/file.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/memory_mapped_file.h"
#include "verif/files/scratch.h"
#include "verif/pbt/gen.h"
#include "verif/pbt/pbt.h"

namespace {

using namespace pbt;    // NOLINT
using namespace files;  // NOLINT
using tachyon::base::BinFile;
using tachyon::base::File;
using tachyon::base::FilePath;
using tachyon::base::MemoryMappedFile;
namespace tb = tachyon::base;

size_t AnySize(Case& c) {
  switch (c.Draw(5)) {
    case 0: return c.Draw(3);
    case 1: return 2054 + c.Draw(4);     // around the comparison buffer
    case 2: return 4094 + c.Draw(4);     // around a page
    case 3: return c.Draw(200);
    case 4: return c.OneIn(6) ? 65534 + c.Draw(4) : c.Draw(40);
    default: return c.OneIn(4) ? c.Draw(20000) : c.Draw(10);
  }
}
std::string Bytes(Case& c, size_t n) {
  Rng r = c.Bulk();
  std::string s(n, 0);
  for (char& x : s) x = static_cast<char>(r.Upto(3) ? r.Upto(255) : "\n\r\0a"[r.Upto(3)]);
  return s;
}
std::string Any(Case& c) { return Bytes(c, AnySize(c)); }
absl::Span<const uint8_t> Span(const std::string& s) {
  return {reinterpret_cast<const uint8_t*>(s.data()), s.size()};
}

// --- histories on open files against bytes and a position -------------------

struct Model {
  bool exists = false;
  std::string data;
};
struct Handle {
  File file;
  bool read, write, append;
  std::shared_ptr<int64_t> pos;  // shared with duplicates
};

void History(Case& c) {
  Scratch dir;
  FilePath path(dir("f"));
  Model m;
  std::vector<std::unique_ptr<Handle>> open;
  if (c.Bool()) {
    m = {true, Any(c)};
    Spill(path.value(), m.data);
  }
  size_t steps = c.Size(1, 30), did = 0;
  for (size_t step = 0; step < steps; ++step) {
    uint64_t op = c.Draw(17);
    if (open.empty() && op > 2) op = 0;
    if (op <= 2) {
      if (open.size() > 3) continue;
      uint32_t how = static_cast<uint32_t>(1) << c.Draw(4);
      bool read = c.Bool(), write = c.Bool(), append = c.OneIn(4);
      if (how == File::FLAG_CREATE_ALWAYS || how == File::FLAG_OPEN_TRUNCATED) write = true;
      if (append) write = how == File::FLAG_CREATE_ALWAYS || how == File::FLAG_OPEN_TRUNCATED;
      // Appending and writing at once are two names for one access mode only
      // when something is read as well.
      if (append && write) read = true;
      if (!read && !write && !append) read = true;
      uint32_t flags = how | (read ? uint32_t{File::FLAG_READ} : 0) | (write ? uint32_t{File::FLAG_WRITE} : 0) |
                       (append ? uint32_t{File::FLAG_APPEND} : 0);
      auto h = std::make_unique<Handle>();
      if (c.Bool()) h->file = File(path, flags);
      else h->file.Initialize(path, flags);
      c.Note("open flags=", flags);
      bool ok = how == File::FLAG_OPEN || how == File::FLAG_OPEN_TRUNCATED ? m.exists
                : how == File::FLAG_CREATE                                 ? !m.exists
                                                                           : true;
      bool created = how == File::FLAG_CREATE || how == File::FLAG_CREATE_ALWAYS || (how == File::FLAG_OPEN_ALWAYS && !m.exists);
      PBT_TM(h->file.IsValid() == ok, "open", "flags " << flags);
      if (!ok) {
        PBT_TM(h->file.error_details() == (m.exists ? File::FILE_ERROR_EXISTS : File::FILE_ERROR_NOT_FOUND), "open_error",
               h->file.error_details());
        continue;
      }
      PBT_T(h->file.error_details() == File::FILE_OK && h->file.created() == created, "opened");
      if (!m.exists || how == File::FLAG_CREATE_ALWAYS || how == File::FLAG_OPEN_TRUNCATED) m.data.clear();
      m.exists = true;
      h->read = read;
      h->write = write || append;
      h->append = append;
      h->pos = std::make_shared<int64_t>(0);
      open.push_back(std::move(h));
      continue;
    }
    size_t which = c.Draw(open.size() - 1);
    Handle& h = *open[which];
    int64_t size = static_cast<int64_t>(m.data.size());
    int64_t at = c.Bool() ? static_cast<int64_t>(c.Draw(static_cast<uint64_t>(size) + 3)) : static_cast<int64_t>(c.Draw(40));
    auto grow = [&](int64_t off, const std::string& s) {
      if (s.empty()) return;
      if (m.data.size() < static_cast<size_t>(off) + s.size()) m.data.resize(static_cast<size_t>(off) + s.size());
      m.data.replace(static_cast<size_t>(off), s.size(), s);
    };
    auto part = [&](int64_t off, size_t n) {
      return off >= size ? std::string() : m.data.substr(static_cast<size_t>(off), n);
    };
    ++did;
    switch (op) {
      case 3:
      case 4:
      case 5:
      case 6: {  // reading, at a place or at the position
        size_t n = c.Bool() ? AnySize(c) : c.Draw(20);
        std::string buf(n, 'x');
        bool here = op >= 5;
        int64_t off = here ? *h.pos : at;
        std::string want = part(off, n);
        c.Note("read ", n, " at ", here ? -1 : off);
        if (op == 3 || op == 5) {
          int got = op == 3 ? (c.Bool() ? h.file.Read(off, buf.data(), static_cast<int>(n))
                                        : h.file.ReadNoBestEffort(off, buf.data(), static_cast<int>(n)))
                            : (c.Bool() ? h.file.ReadAtCurrentPos(buf.data(), static_cast<int>(n))
                                        : h.file.ReadAtCurrentPosNoBestEffort(buf.data(), static_cast<int>(n)));
          if (!h.read) {
            PBT_TM(got == -1, "read_refused", got);
            break;
          }
          PBT_TM(got == static_cast<int>(want.size()), "read_count", got << " of " << want.size());
          PBT_T(buf.substr(0, want.size()) == want && buf.substr(want.size()) == std::string(n - want.size(), 'x'), "read");
        } else {
          absl::Span<uint8_t> span(reinterpret_cast<uint8_t*>(buf.data()), n);
          bool ok = op == 4 ? h.file.ReadAndCheck(off, span) : h.file.ReadAtCurrentPosAndCheck(span);
          if (!h.read) {
            PBT_T(!ok, "read_check_refused");
            break;
          }
          PBT_T(ok == (want.size() == n), "read_check");
          if (ok) PBT_T(buf == want, "read_checked");
        }
        if (here) *h.pos += static_cast<int64_t>(want.size());
        break;
      }
      case 7:
      case 8:
      case 9:
      case 10: {  // writing
        std::string s = c.Bool() ? Any(c) : Bytes(c, c.Draw(20));
        bool here = op >= 9;
        int n = static_cast<int>(s.size());
        c.Note("write ", n, " at ", here ? -1 : at);
        int64_t off = h.append ? size : here ? *h.pos : at;
        bool done;
        if (op == 7 || op == 9) {
          int got = op == 7 ? h.file.Write(at, s.data(), n)
                            : (c.Bool() ? h.file.WriteAtCurrentPos(s.data(), n) : h.file.WriteAtCurrentPosNoBestEffort(s.data(), n));
          PBT_TM(got == (h.write ? n : -1), "write_count", got << " of " << n);
          done = got == n;
        } else {
          done = op == 8 ? h.file.WriteAndCheck(at, Span(s)) : h.file.WriteAtCurrentPosAndCheck(Span(s));
          PBT_T(done == h.write, "write_check");
        }
        if (!done || !h.write) break;
        grow(off, s);
        if (h.append) {
          if (!s.empty()) *h.pos = off + n;
        } else if (here) {
          *h.pos += n;
        }
        break;
      }
      case 11: {
        int64_t to = static_cast<int64_t>(c.Draw(60)) - 20;
        auto whence = static_cast<File::Whence>(c.Draw(2));
        int64_t from = whence == File::FROM_BEGIN ? 0 : whence == File::FROM_CURRENT ? *h.pos : size;
        int64_t got = h.file.Seek(whence, to);
        c.Note("seek ", to, " from ", static_cast<int>(whence));
        PBT_TM(got == (from + to < 0 ? -1 : from + to), "seek", got);
        if (got >= 0) *h.pos = got;
        break;
      }
      case 12:
        if (h.write) {
          int64_t to = at;
          c.Note("length ", to);
          PBT_T(h.file.SetLength(to), "set_length");
          m.data.resize(static_cast<size_t>(to));
        } else {
          PBT_T(!h.file.SetLength(at), "set_length_refused");
        }
        break;
      case 13: {
        File::Info info;
        PBT_T(h.file.GetLength() == size && h.file.GetInfo(&info) && info.size == size && !info.is_directory && !info.is_symbolic_link, "length");
        break;
      }
      case 14: {
        if (open.size() > 3) break;
        auto d = std::make_unique<Handle>();
        d->file = h.file.Duplicate();
        c.Note("duplicate");
        PBT_T(d->file.IsValid() && d->file.GetPlatformFile() != h.file.GetPlatformFile(), "duplicate");
        d->read = h.read;
        d->write = h.write;
        d->append = h.append;
        d->pos = h.pos;
        open.push_back(std::move(d));
        break;
      }
      case 15:
        c.Note("close");
        h.file.Close();
        PBT_T(!h.file.IsValid(), "closed");
        open.erase(open.begin() + static_cast<long>(which));
        break;
      case 16: {
        File moved(std::move(h.file));
        PBT_T(!h.file.IsValid() && moved.IsValid(), "moved");  // NOLINT
        h.file = std::move(moved);
        PBT_T(h.file.IsValid() && h.file.Flush(), "moved_back");
        break;
      }
      default: {
        std::string s = Bytes(c, c.Draw(30));
        c.Note("append ", s.size(), " by name");
        PBT_T(tb::AppendToFile(path, s), "append");
        m.data += s;
        break;
      }
    }
    PBT_T(Slurp(path.value()) == m.data, "contents");
  }
  c.Nontrivial(did > 4);
}

// --- whole files --------------------------------------------------------------

std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v(1);
  for (char ch : s) {
    if (ch == '\n') v.emplace_back();
    else v.back() += ch;
  }
  for (auto& l : v) l.erase(l.find_last_not_of("\r\n") == std::string::npos ? 0 : l.find_last_not_of("\r\n") + 1);
  return v;
}

void Whole(Case& c) {
  Scratch dir;
  FilePath a(dir("a")), b(dir("b")), none(dir("none")), deep(dir("no/such"));
  std::string s = Any(c), t;
  switch (c.Draw(3)) {
    case 0: t = s; break;
    case 1: t = s; if (!t.empty()) t[c.Draw(t.size() - 1)] ^= 1; break;
    case 2: t = s + (c.Bool() ? "\n" : "x"); break;
    default: {  // other line ends
      for (char ch : s) {
        if (ch == '\n' && c.Bool()) t += '\r';
        t += ch;
      }
    }
  }
  c.Note(s.size(), " and ", t.size(), " bytes");
  c.Nontrivial(!s.empty());
  auto put = [&](const FilePath& p, const std::string& x) {
    switch (c.Draw(5)) {
      case 0: return tb::WriteFile(p, x.data(), static_cast<int>(x.size())) == static_cast<int>(x.size());
      case 1: return tb::WriteFile(p, Span(x));
      case 2: return tb::WriteFile(p, std::string_view(x));
      case 3: return tb::WriteLargeFile(p, x.data(), x.size());
      case 4: return tb::WriteLargeFile(p, Span(x));
      default: return tb::WriteLargeFile(p, std::string_view(x));
    }
  };
  if (c.Bool()) Spill(a.value(), Any(c));  // overwritten
  PBT_T(put(a, s) && Slurp(a.value()) == s, "write");
  PBT_T(put(b, t) && Slurp(b.value()) == t, "write_other");
  PBT_T(!put(deep, s), "write_nowhere");
  PBT_T(tb::ContentsEqual(a, b) == (s == t), "contents_equal");
  PBT_T(tb::TextContentsEqual(a, b) == (Lines(s) == Lines(t)), "text_equal");
  PBT_T(!tb::ContentsEqual(a, none) && !tb::TextContentsEqual(none, a), "equal_to_nothing");

  auto bytes = tb::ReadFileToBytes(a);
  PBT_T(bytes && std::string(bytes->begin(), bytes->end()) == s, "read_bytes");
  PBT_T(!tb::ReadFileToBytes(none), "read_bytes_nothing");
  std::string got = "before";
  PBT_T(tb::ReadFileToString(a, &got) && got == s, "read_string");
  got = "before";
  PBT_T(!tb::ReadFileToString(none, &got) && got.empty(), "read_string_nothing");
  FilePath around(dir("../" + dir.root().substr(dir.root().rfind('/') + 1) + "/a"));
  got = "before";
  PBT_T(!tb::ReadFileToString(around, &got) && got.empty() && !tb::ReadFileToBytes(around), "read_through_parent");
  size_t max = c.Bool() ? AnySize(c) : s.size() + c.Draw(2) - std::min<size_t>(1, s.size());
  got = "before";
  PBT_TM(tb::ReadFileToStringWithMaxSize(a, &got, max) == (s.size() <= max) && got == s.substr(0, max), "read_max",
         "max " << max << " got " << got.size());
  std::vector<char> some(max + 1, 'x');
  int n = tb::ReadFile(a, some.data(), static_cast<int>(max));
  PBT_TM(n == static_cast<int>(std::min(max, s.size())) && !memcmp(some.data(), s.data(), static_cast<size_t>(n)) && some[max] == 'x', "read_some", n);
  PBT_T(tb::ReadFile(none, some.data(), 1) == -1, "read_some_nothing");
  int64_t size = -7;
  PBT_T(tb::GetFileSize(a, &size) && size == static_cast<int64_t>(s.size()) && !tb::GetFileSize(none, &size), "size");

  // Streams, wherever they stand.
  if (FILE* f = tb::OpenFile(a, "rb")) {
    fseek(f, static_cast<long>(c.Draw(s.size())), SEEK_SET);
    got = "before";
    PBT_T(tb::ReadStreamToString(f, &got) && got == s, "read_stream");
    PBT_T(tb::ReadStreamToStringWithMaxSize(f, max, &got) == (s.size() <= max) && got == s.substr(0, max), "read_stream_max");
    PBT_T(tb::CloseFile(f), "close");
  } else {
    PBT_T(false, "open_stream");
  }
  PBT_T(!tb::OpenFile(none, "rb"), "open_stream_nothing");
  {
    File f(a, File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE);
    size_t cut = c.Draw(s.size());
    std::vector<char> buf(s.size() + 1);
    PBT_T(tb::ReadFromFD(f.GetPlatformFile(), buf.data(), cut) && !memcmp(buf.data(), s.data(), cut), "read_fd");
    PBT_T(!tb::ReadFromFD(f.GetPlatformFile(), buf.data(), s.size() - cut + 1), "read_fd_too_much");
    PBT_T(f.Seek(File::FROM_BEGIN, 0) == 0, "seek");
    FILE* stream = tb::FileToFILE(std::move(f), "r+");
    PBT_T(stream && tb::ReadStreamToString(stream, &got) && got == s, "file_to_stream");
    fseek(stream, static_cast<long>(cut), SEEK_SET);
    PBT_T(tb::TruncateFile(stream), "truncate");
    File back = tb::FILEToFile(stream);
    PBT_T(back.IsValid() && back.GetLength() == static_cast<int64_t>(cut), "stream_to_file");
    back.Close();
    PBT_T(tb::CloseFile(stream) && Slurp(a.value()) == s.substr(0, cut), "truncated");
    PBT_T(tb::AppendToFile(a, Span(s.substr(cut))) && Slurp(a.value()) == s, "append");
    PBT_T(!tb::AppendToFile(none, s) && !tb::PathExists(none), "append_to_nothing");
  }
  {
    // From where one stands to where the other does.
    File in(a, File::FLAG_OPEN | File::FLAG_READ), out(b, File::FLAG_OPEN | File::FLAG_WRITE);
    size_t from = c.Draw(s.size()), to = c.Draw(t.size());
    in.Seek(File::FROM_BEGIN, static_cast<int64_t>(from));
    out.Seek(File::FROM_BEGIN, static_cast<int64_t>(to));
    std::string want = t;
    std::string rest = s.substr(from);
    if (want.size() < to + rest.size()) want.resize(to + rest.size());
    want.replace(to, rest.size(), rest);
    PBT_T(tb::CopyFileContents(in, out) && Slurp(b.value()) == want && Slurp(a.value()) == s, "copy_contents");
  }
  {
    File f(b, File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE);
    int64_t len = f.GetLength(), off = static_cast<int64_t>(c.Draw(9000));
    size_t more = 1 + c.Draw(9000);
    std::string before = Slurp(b.value());
    PBT_T(tb::AllocateFileRegion(&f, off, more), "allocate");
    before.resize(static_cast<size_t>(std::max(len, off + static_cast<int64_t>(more))));
    PBT_T(Slurp(b.value()) == before, "allocated");
    // Whole microseconds.
    auto when = tachyon::base::Time::FromTimeT(static_cast<time_t>(c.Draw(2000000000))) + tachyon::base::Microseconds(static_cast<int64_t>(c.Draw(999999)));
    auto other = tachyon::base::Time::FromTimeT(static_cast<time_t>(c.Draw(2000000000)));
    File::Info info;
    bool by_name = c.Bool();
    PBT_T(by_name ? tb::TouchFile(b, other, when) : f.SetTimes(other, when), "set_times");
    PBT_T((c.Bool() ? f.GetInfo(&info) : tb::GetFileInfo(b, &info)) && info.last_modified == when && info.last_accessed == other, "times");
    PBT_T(!tb::TouchFile(none, other, when), "touch_nothing");
  }
}

// --- mapped files --------------------------------------------------------------

void Mapped(Case& c) {
  Scratch dir;
  FilePath a(dir("a"));
  std::string s = c.OneIn(3) ? Bytes(c, 4096 * (1 + c.Draw(3)) + c.Draw(5000)) : Any(c);
  Spill(a.value(), s);
  c.Nontrivial(!s.empty());
  c.Note(s.size(), " bytes");
  auto same = [](const MemoryMappedFile& m, const std::string& w) {
    return m.IsValid() && m.length() == w.size() && !memcmp(m.data(), w.data(), w.size()) &&
           m.bytes().size() == w.size() && m.bytes().data() == m.data();
  };
  auto access = static_cast<MemoryMappedFile::Access>(c.Draw(2));
  uint32_t flags = File::FLAG_OPEN | File::FLAG_READ | (access == MemoryMappedFile::READ_WRITE || c.Bool() ? uint32_t{File::FLAG_WRITE} : 0);
  bool region = c.Bool();
  size_t from = region ? c.Draw(s.size()) : 0;
  size_t len = region ? c.Draw(s.size() - from) : s.size();
  c.Note("access ", static_cast<int>(access), " from ", from, " length ", len);
  {
    MemoryMappedFile m;
    PBT_T(!m.IsValid(), "fresh");
    bool ok;
    if (region) {
      ok = m.Initialize(File(a, flags), {static_cast<int64_t>(from), len}, access);
    } else {
      ok = c.Bool() ? m.Initialize(a, access) : m.Initialize(File(a, flags), access);
    }
    // What mapping nothing gives is not judged.
    if (s.empty() || len == 0) {
      return;
    }
    PBT_T(ok && same(m, s.substr(from, len)), "map");
    PBT_T(!m.Initialize(a), "mapped_twice");
    if (access != MemoryMappedFile::READ_ONLY) {
      std::string w = s;
      for (size_t k = 1 + c.Draw(3); k; --k) {
        size_t i = c.Draw(len - 1);
        m.data()[i] ^= 0x5a;
        m.mutable_bytes()[i] = static_cast<uint8_t>(m.data()[i] + 1);
        w[from + i] = static_cast<char>(m.data()[i]);
      }
      PBT_T(same(m, w.substr(from, len)), "change");
      if (access == MemoryMappedFile::READ_WRITE) s = w;
      PBT_T(Slurp(a.value()) == s, "change_in_file");
    }
  }
  PBT_T(Slurp(a.value()) == s, "after");
  // Beyond the end.
  int64_t off = static_cast<int64_t>(c.Draw(s.size() + 5000));
  size_t more = 1 + c.Draw(9000);
  {
    MemoryMappedFile m;
    PBT_T(m.Initialize(File(a, File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE), {off, more}, MemoryMappedFile::READ_WRITE_EXTEND), "extend");
    if (s.size() < static_cast<size_t>(off) + more) s.resize(static_cast<size_t>(off) + more);
    PBT_T(same(m, s.substr(static_cast<size_t>(off), more)), "extended");
    size_t i = c.Draw(more - 1);
    m.data()[i] = static_cast<uint8_t>(s[static_cast<size_t>(off) + i] = 'q');
  }
  PBT_T(Slurp(a.value()) == s, "extended_file");
  MemoryMappedFile none;
  PBT_T(!none.Initialize(FilePath(dir("none"))) && !none.IsValid(), "nothing");
}

void Binary(Case& c) {
  Scratch dir;
  BinFile f;
  size_t steps = 1 + c.Draw(4);
  std::string have;
  c.Nontrivial(steps > 1);
  for (size_t i = 0; i < steps; ++i) {
    FilePath p(dir("f" + std::to_string(c.Draw(2))));
    bool exists = !c.OneIn(6);
    std::string s;
    if (exists) {
      s = Any(c);
      Spill(p.value() + ".new", s);
      rename((p.value() + ".new").c_str(), p.value().c_str());
    } else {
      unlink(p.value().c_str());
    }
    bool mmap = c.Bool();
    c.Note(mmap ? "map " : "read ", exists ? static_cast<int>(s.size()) : -1);
    bool ok = f.Load(p, mmap);
    if (!exists) {
      PBT_T(!ok, "load_nothing");
    } else if (!s.empty() || !mmap) {
      PBT_T(ok, "load");
    }
    if (!ok) continue;
    have = s;
    const BinFile& k = f;
    PBT_TM(f.GetDataLength() == have.size() && !memcmp(f.GetData(), have.data(), have.size()), "data",
           f.GetDataLength() << " bytes");
    PBT_T(k.GetData() == f.GetData() && k.ToReadOnlyBuffer().buffer_len() == have.size() &&
              k.ToReadOnlyBuffer().buffer() == f.GetData(), "views");
    if (mmap) PBT_T(f.map() && k.map()->length() == have.size(), "map");
    else PBT_T(std::string(k.vec().begin(), k.vec().end()) == have, "vec");
    if (!have.empty() && c.Bool()) {
      size_t at = c.Draw(have.size() - 1);
      f.GetData()[at] ^= 1;
      have[at] ^= 1;
      PBT_T(!memcmp(k.GetData(), have.data(), have.size()) && Slurp(p.value()) == s, "private");
    }
    if (c.OneIn(3)) {
      BinFile other(std::move(f));
      PBT_T(other.GetDataLength() == have.size() && !memcmp(other.GetData(), have.data(), have.size()), "moved");
      f = std::move(other);
      PBT_T(f.GetDataLength() == have.size() && !memcmp(f.GetData(), have.data(), have.size()), "moved_back");
    }
  }
}

void RegisterAll() {
  pbt::Register("file.history", 60, 6000, History);
  pbt::Register("file.whole", 40, 4000, Whole);
  pbt::Register("file.mapped", 40, 4000, Mapped);
  pbt::Register("file.binary", 40, 4000, Binary);
}
PBT_INIT(RegisterAll);

}  // namespace

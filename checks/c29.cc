// C29: a crash during an export never leaves a file that is imported as another database.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>

#include "deviate.hh"
#include "faults.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "ref.hh"

using namespace mc;

// --- Every call that changes files while an export runs is recorded: what a crash leaves is derived from the record.
namespace {

struct Step { enum Kind { kTruncate, kWrite, kRename, kRemove } kind; str path, to, data; uint64_t at = 0; };
struct Record { bool armed = false; std::vector<Step> steps; } record;

bool Ours(int fd) { return record.armed && fd > 2; }
template <typename F> F Next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
str PathOf(int fd) { char link[64], to[4096]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd); ssize_t n = readlink(link, to, sizeof to); return n > 0 ? str(to, size_t(n)) : str(); }
void Wrote(int fd, const void* data, ssize_t n, int64_t at) {
  if (n <= 0) return;
  Step s; s.kind = Step::kWrite; s.path = PathOf(fd); s.data.assign((const char*)data, size_t(n)); s.at = uint64_t(at); record.steps.push_back(s);
}
int64_t Position(int fd) {
  int fl = fcntl(fd, F_GETFL); if (fl & O_APPEND) { struct stat st; return fstat(fd, &st) ? 0 : st.st_size; }
  return syscall(SYS_lseek, fd, 0, SEEK_CUR);
}
void Truncated(const str& path, uint64_t size) { Step s; s.kind = Step::kTruncate; s.path = path; s.at = size; record.steps.push_back(s); }

}  // namespace

extern "C" {
ssize_t write(int fd, const void* data, size_t size) {
  if (!Ours(fd)) return syscall(SYS_write, fd, data, size);
  int64_t at = Position(fd); ssize_t n = syscall(SYS_write, fd, data, size); Wrote(fd, data, n, at); return n;
}
ssize_t pwrite(int fd, const void* data, size_t size, off_t at) { ssize_t n = syscall(SYS_pwrite64, fd, data, size, at); if (Ours(fd)) Wrote(fd, data, n, at); return n; }
ssize_t writev(int fd, const struct iovec* v, int count) {
  if (!Ours(fd)) return syscall(SYS_writev, fd, v, count);
  str all; for (int i = 0; i < count; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return write(fd, all.data(), all.size());
}
static FILE* Open(const char* name, const char* path, const char* mode) {
  FILE* f = Next<FILE* (*)(const char*, const char*)>(name)(path, mode);
  if (record.armed && f && mode[0] == 'w') Truncated(PathOf(fileno(f)), 0);
  return f;
}
FILE* fopen(const char* path, const char* mode) { return Open("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return Open("fopen64", path, mode); }
static int OpenAt(const char* path, int flags, mode_t mode) {
  int fd = int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  if (record.armed && fd >= 0 && (flags & O_TRUNC)) Truncated(PathOf(fd), 0);
  return fd;
}
int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = flags & O_CREAT ? mode_t(va_arg(a, int)) : 0; va_end(a); return OpenAt(path, flags, m); }
int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = flags & O_CREAT ? mode_t(va_arg(a, int)) : 0; va_end(a); return OpenAt(path, flags, m); }
int ftruncate(int fd, off_t size) noexcept { int r = int(syscall(SYS_ftruncate, fd, size)); if (!r && Ours(fd)) Truncated(PathOf(fd), uint64_t(size)); return r; }
int rename(const char* a, const char* b) noexcept { int r = int(syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b)); if (!r && record.armed) { Step s; s.kind = Step::kRename; s.path = a; s.to = b; record.steps.push_back(s); } return r; }
int unlink(const char* a) noexcept { int r = int(syscall(SYS_unlinkat, AT_FDCWD, a, 0)); if (!r && record.armed) { Step s; s.kind = Step::kRemove; s.path = a; record.steps.push_back(s); } return r; }
}

namespace {

typedef std::map<str, str> Files;
// What the first n steps leave, the last one of them only with its first `bytes` bytes.
Files After(Files f, const std::vector<Step>& steps, size_t n, size_t bytes) {
  for (size_t i = 0; i < n; ++i) {
    const Step& s = steps[i];
    switch (s.kind) {
      case Step::kTruncate: f[s.path].resize(s.at); break;
      case Step::kRename: f[s.to] = f[s.path]; f.erase(s.path); break;
      case Step::kRemove: f.erase(s.path); break;
      case Step::kWrite: { str d = i + 1 == n ? s.data.substr(0, bytes) : s.data; str& t = f[s.path]; if (t.size() < s.at + d.size()) t.resize(s.at + d.size()); t.replace(s.at, d.size(), d); break; }
    }
  }
  return f;
}

Flat Norm(MDb d, bool kdbx) { if (!kdbx) for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); }

struct Side { bool kdbx; MDb m; ref::KeySpec key; Flat want; };
struct Base {
  str name, path, old_file, new_file;
  bool had_old = false;
  Side was, now;
  std::vector<Step> steps;
  std::vector<std::pair<size_t, size_t>> points;               // (steps, bytes of the last of them)
};

Side MakeSide(bool kdbx, MDb m, const str& pw) { Side s; s.kdbx = kdbx; m.rounds = 1; s.m = m; s.key.pw = pw; s.want = Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx); return s; }
void Export(const Side& s, const str& path) {
  auto b = Build(s.m); keepass::Key k = ref::LibKey(s.key);
  if (s.kdbx) keepass::KdbxFile().Export(path, *b.db, k); else keepass::KdbFile().Export(path, *b.db, k);
}

// The file is the old database, the new one, or refused, as either format and under either key.
void Judge(const Base& b, const str& file, Ctx& ctx) {
  str path = scratch + "/crashed"; WriteFile(path, file);
  for (int kdbx = 0; kdbx < 2; ++kdbx) for (int k = 0; k < 2; ++k) {
    if (b.was.kdbx == b.now.kdbx && kdbx != int(b.now.kdbx)) continue;
    if (k && b.was.key.pw == b.now.key.pw) continue;
    if ((kdbx ? KdbxRounds(file) : KdbRounds(file)) > 5000) continue;                  // only time
    keepass::Key key = ref::LibKey(k ? b.was.key : b.now.key);
    Outcome o = kdbx ? ImportKdbx(path, key) : ImportKdb(path, key);
    ctx.Trans(); ctx.Trace();
    ctx.State(o.ok ? str("database") : o.kind + o.what);
    if (!o.ok) { if (o.kind == "unknown") { ctx.Fail("the import throws something else than an exception"); return; } continue; }
    Flat got = Norm(Extract(*o.db), kdbx != 0);
    str a = Diff(b.now.want, got);
    if (a.empty() && bool(kdbx) == b.now.kdbx) { ctx.Nontrivial(); continue; }
    if (b.had_old && bool(kdbx) == b.was.kdbx && Diff(b.was.want, got).empty()) { ctx.Nontrivial(); continue; }
    ctx.Fail("what the crash leaves is imported as another database: " + a);
    return;
  }
}

void Add(Check& c, const str& name, std::shared_ptr<Side> was, std::shared_ptr<Side> now) {
  static int n = 0;
  auto b = std::make_shared<Base>();
  b->name = name; b->now = *now; if (was) { b->was = *was; b->had_old = true; } else b->was = *now;
  str dir = scratch + "/c" + Num(n++); mkdir(dir.c_str(), 0755);
  char real[4096]; if (!realpath(dir.c_str(), real)) exit(97);
  b->path = str(real) + "/file";
  if (was) { try { Export(*was, b->path); } catch (const std::exception& e) { c.Broken(name, str("the export fails: ") + e.what()); return; } b->old_file = ReadFile(b->path); }
  record.steps.clear(); record.armed = true;
  try { Export(*now, b->path); record.armed = false; } catch (const std::exception& e) { record.armed = false; c.Broken(name, str("the export fails: ") + e.what()); return; }
  b->steps = record.steps; record.steps.clear();
  b->new_file = ReadFile(b->path);
  Files start; if (was) start[b->path] = b->old_file;
  // The record explains the file, otherwise it went there in some other way.
  Files end = After(start, b->steps, b->steps.size(), SIZE_MAX);
  if (end[b->path] != b->new_file) { c.notes.push_back({name, "the record of writes doesn't explain the file; prefixes of it are used"}); b->steps.clear(); Step t; t.kind = Step::kTruncate; t.path = b->path; Step w; w.kind = Step::kWrite; w.path = b->path; w.data = b->new_file; b->steps = {t, w}; }
  // Every byte; of large files in quick mode every 8th.
  size_t step = Quick() && b->new_file.size() > 5000 ? 8 : 1;
  for (size_t i = 0; i < b->steps.size(); ++i) { size_t m = b->steps[i].kind == Step::kWrite ? b->steps[i].data.size() : 1; for (size_t k = 1; k <= m; k += k + 20 > m || k < 600 ? 1 : step) b->points.push_back({i + 1, k}); }
  b->points.push_back({0, 0});
  c.Add(name + ", crash at every byte", b->points.size(), [=](uint64_t i, Ctx& ctx) {
    Files s; if (b->had_old) s[b->path] = b->old_file;
    Files f = After(s, b->steps, b->points[i].first, b->points[i].second);
    auto it = f.find(b->path); if (it == f.end()) { ctx.Trans(); return; }
    Judge(*b, it->second, ctx);
  }, [=](uint64_t i) { return "after " + Num(b->points[i].first) + " of " + Num(b->steps.size()) + " steps, " + Num(b->points[i].second) + " bytes of the last"; }, 15);
  // The system writes sectors in any order: each is new, old or empty, and the size is any of those on the way.
  auto sectors = [&](uint64_t size, uint64_t limit, const str& what) {
    uint64_t count = (std::max(b->new_file.size(), b->old_file.size()) + size - 1) / size;
    uint64_t total = 1; uint64_t k = 0; while (k < count && total * 3 <= limit) { total *= 3; ++k; }
    c.Add(name + ", " + what, total * 3, [=](uint64_t i, Ctx& ctx) {
      int end = int(Take(i, 3)); str f;
      for (uint64_t s = 0; s < count; ++s) {
        int from = s < k ? int(Take(i, 3)) : 0;
        str src = from == 0 ? b->new_file : from == 1 ? b->old_file : str();
        src.resize(std::max(src.size(), size_t((s + 1) * size))); f += src.substr(s * size, size);
      }
      f.resize(end == 0 ? b->new_file.size() : end == 1 ? b->old_file.size() : f.size());
      Judge(*b, f, ctx);
    }, nullptr, 15);
  };
  sectors(512, Quick() ? 729 : 19683, "sectors of 512 bytes");
  sectors(4096, Quick() ? 243 : 6561, "sectors of 4096 bytes");
  // One piece of the old file within the new one, one of the new file within the old one, or an empty one, in units of cipher blocks.
  uint64_t unit = Quick() ? 64 : 16, most = Quick() ? 60 : 300, places = (b->new_file.size() + unit - 1) / unit + 1;
  if (places > most) { unit *= (places + most - 1) / most; places = (b->new_file.size() + unit - 1) / unit + 1; }
  c.Add(name + ", one piece", places * places * 3 * 2, [=](uint64_t i, Ctx& ctx) {
    int what = int(Take(i, 3)); uint64_t shift = Take(i, 2), x = Take(i, places), y = i; if (y <= x) return;
    // KDB has 124 bytes before the first cipher block.
    uint64_t lo = x * unit, hi = y * unit; if (shift) { if (b->now.kdbx) return; lo += 124 % unit; hi += 124 % unit; }
    str base = what == 1 ? b->old_file : b->new_file, piece = what == 0 ? b->old_file : what == 1 ? b->new_file : str();
    if (lo >= base.size()) return; hi = std::min<uint64_t>(hi, base.size()); piece.resize(std::max<size_t>(piece.size(), hi));
    base.replace(lo, hi - lo, piece.substr(lo, hi - lo));
    Judge(*b, base, ctx);
  }, nullptr, 15);
  c.notes.push_back({name, Num(b->old_file.size()) + " to " + Num(b->new_file.size()) + " bytes, " + Num(b->steps.size()) + " steps"});
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C29";
  c.level = "fault_enumeration";
  c.rule = "Every call by which an export changes files is recorded; every state that a crash can leave is made: after every byte of every step, with every sector of 512 or 4096 bytes new, old or empty, and with every piece of the one file within the other; importing it must give the old database, the new one or an exception";
  c.assumptions = {"a sector is written as a whole or not at all", "SHA-256 has no collisions among the states", "states that ask for more than 5000 transform rounds are left out (time only)"};
  MDb small = SmallDb(), kdb = small; kdb.root.entries.clear();
  auto grown = [](MDb m) { MEntry e; e.uuid = MakeUuid(700); e.title = MStr("new entry"); e.password = MStr("secret"); e.notes = MStr(str(300, 'n')); Preorder(m.root).back()->entries.push_back(e); MGroup g; g.uuid = MakeUuid(701); g.name = "new group"; m.root.groups.push_back(g); return m; };
  auto changed = [](MDb m) { for (auto g : Preorder(m.root)) for (auto& e : g->entries) { if (!e.title.v.empty()) e.title.v.back() ^= 1; if (!e.password.v.empty()) e.password.v.back() ^= 1; } return m; };
  auto reseeded = [](MDb m) { for (auto& ch : m.master_seed) ch ^= 0x55; m.iv[3] ^= 1; m.tseed[4] ^= 1; m.isk[0] ^= 1; return m; };
  auto fewer = [](MDb m) { auto g = Preorder(m.root); for (auto x : g) if (x->entries.size() > 1 || (x == g.back() && !x->entries.empty())) x->entries.pop_back(); return m; };
  auto S = [](bool kdbx, const MDb& m, const str& pw = "password") { return std::make_shared<Side>(MakeSide(kdbx, m, pw)); };
  for (bool kdbx : {false, true}) {
    MDb m = kdbx ? small : kdb; str n = kdbx ? "KDBX" : "KDB";
    Add(c, n + " as a new file", nullptr, S(kdbx, m));
    Add(c, n + " over the same database", S(kdbx, m), S(kdbx, m));
    Add(c, n + " over a smaller one", S(kdbx, m), S(kdbx, grown(m)));
    Add(c, n + " over a larger one", S(kdbx, grown(m)), S(kdbx, m));
    Add(c, n + " with changed texts", S(kdbx, m), S(kdbx, changed(m)));
    Add(c, n + " without an entry", S(kdbx, m), S(kdbx, fewer(m)));
    Add(c, n + " with other seeds", S(kdbx, m), S(kdbx, reseeded(m)));
    Add(c, n + " with another key", S(kdbx, m), S(kdbx, changed(m), "other"));
    if (kdbx) { MDb p = m; p.compress = true; Add(c, "KDBX compressed over not compressed", S(true, m), S(true, p)); Add(c, "KDBX not compressed over compressed", S(true, p), S(true, m)); Add(c, "KDBX compressed with changed texts", S(true, p), S(true, changed(p))); }
    else { MDb t = m; t.twofish = true; Add(c, "KDB Twofish over AES", S(false, m), S(false, t)); Add(c, "KDB AES over Twofish", S(false, t), S(false, m)); Add(c, "KDB Twofish with changed texts", S(false, t), S(false, changed(t))); }
    MDb big = m; { str s; uint32_t x = 1; while (s.size() < 20000) { x = x * 1664525u + 1013904223u; s += char('!' + (x >> 24) % 90); } Preorder(big.root).back()->notes = kdbx ? s : ""; MEntry e; e.uuid = MakeUuid(702); e.notes = MStr(s); Preorder(big.root).back()->entries.push_back(e); }
    Add(c, n + " of 20000 bytes over a small one", S(kdbx, m), S(kdbx, big));
    Add(c, n + " of 20000 bytes with changed texts", S(kdbx, big), S(kdbx, changed(big)));
  }
  Add(c, "KDBX over KDB", S(false, kdb), S(true, small));
  Add(c, "KDB over KDBX", S(true, small), S(false, kdb));
}

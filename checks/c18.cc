// C18: exports that fail are reported and refused exports leave the old file alone.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <climits>

#include "deviate.hh"
#include "ref.hh"

using namespace mc;

// --- The storage: every call that opens, writes to or closes a file while an export runs goes through here.
namespace {

enum Fault { kNone, kFullOnce, kFullFrom, kIoOnce, kAgainOnce, kInterrupted, kShort1, kShortHalf, kShortAllBut1, kFaults };
const char* const kFaultName[] = {"none", "ENOSPC once", "ENOSPC from here on", "EIO once", "EAGAIN once", "EINTR", "one byte written", "half written", "all but one byte written"};

struct Storage {
  bool armed = false;
  std::vector<std::pair<int, int>> plan;        // call number -> fault
  int calls = 0, opens = 0, closes = 0;
  int fail_open = -1, fail_close = -1;
  bool full = false;
  int fired = 0;
} storage;

// The number of bytes to let through, or -1 with errno set.
ssize_t Decide(size_t size) {
  int call = storage.calls++;
  int fault = storage.full ? kFullOnce : kNone;
  for (auto& p : storage.plan) if (p.first == call) { fault = p.second; ++storage.fired; }
  switch (fault) {
    case kFullFrom: storage.full = true;        // fall through
    case kFullOnce: errno = ENOSPC; return -1;
    case kIoOnce: errno = EIO; return -1;
    case kAgainOnce: errno = EAGAIN; return -1;
    case kInterrupted: errno = EINTR; return -1;
    case kShort1: return size ? 1 : 0;
    case kShortHalf: return ssize_t(size > 1 ? size / 2 : size);
    case kShortAllBut1: return ssize_t(size > 1 ? size - 1 : size);
  }
  return ssize_t(size);
}
bool Ours(int fd) { return storage.armed && fd > 2; }
template <typename F> F Next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

}  // namespace

extern "C" {
ssize_t write(int fd, const void* data, size_t size) {
  if (Ours(fd)) { ssize_t n = Decide(size); if (n < 0) return -1; size = size_t(n); }
  return syscall(SYS_write, fd, data, size);
}
ssize_t writev(int fd, const struct iovec* v, int count) {
  if (!Ours(fd)) return syscall(SYS_writev, fd, v, count);
  size_t size = 0;
  for (int i = 0; i < count; ++i) size += v[i].iov_len;
  ssize_t n = Decide(size);
  if (n < 0) return -1;
  std::vector<iovec> part;
  for (int i = 0; i < count && n > 0; ++i) { iovec x = v[i]; x.iov_len = std::min(x.iov_len, size_t(n)); n -= ssize_t(x.iov_len); part.push_back(x); }
  return syscall(SYS_writev, fd, part.data(), int(part.size()));
}
ssize_t pwrite(int fd, const void* data, size_t size, off_t at) {
  if (Ours(fd)) { ssize_t n = Decide(size); if (n < 0) return -1; size = size_t(n); }
  return syscall(SYS_pwrite64, fd, data, size, at);
}
static FILE* Open(const char* name, const char* path, const char* mode) {
  if (storage.armed && storage.opens++ == storage.fail_open) { ++storage.fired; errno = EMFILE; return nullptr; }
  return Next<FILE* (*)(const char*, const char*)>(name)(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return Open("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return Open("fopen64", path, mode); }
int fclose(FILE* f) {
  bool fail = storage.armed && storage.closes++ == storage.fail_close;
  int r = Next<int (*)(FILE*)>("fclose")(f);
  if (fail) { ++storage.fired; errno = EIO; return EOF; }
  return r;
}
}

namespace {

struct Base { str name; bool kdbx; MDb m; str file; std::shared_ptr<Flat> want; std::shared_ptr<Built> built; };

Outcome Export(bool kdbx, const str& path, const keepass::Database& db, const keepass::Key& key) { return kdbx ? ExportKdbx(path, db, key) : ExportKdb(path, db, key); }

Flat Norm(MDb d, bool kdbx) { if (!kdbx) for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); }

// Whether the file is complete.
str Complete(const Base& b, const str& file) {
  if (file == b.file) return "";
  MDb d;
  str e = b.kdbx ? ref::DecodeKdbx(file, ref::KeySpec(), &d) : ref::DecodeKdb(file, ref::KeySpec(), &d);
  if (!e.empty()) return e;
  return Diff(*b.want, Norm(d, b.kdbx));
}

void Judge(const Base& b, const str& path, const Outcome& o, Ctx& ctx) {
  ctx.Trans(); ctx.Trace();
  if (!o.ok) {
    ctx.Nontrivial();
    ctx.State(o.kind + o.what);
    if (o.kind == "unknown") ctx.Fail("the export throws something else than an exception");
    return;
  }
  str e = Complete(b, ReadFile(path));
  ctx.State("complete");
  if (!e.empty()) ctx.Fail("the export returns but the file is not complete: " + e);
}

struct FullSize {
  rlimit old;
  explicit FullSize(uint64_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
  ~FullSize() { setrlimit(RLIMIT_FSIZE, &old); }
};

std::vector<std::shared_ptr<Base>> bases;
std::vector<std::pair<str, str>> broken;

void AddBase(const str& name, bool kdbx, const MDb& m_) {
  auto b = std::make_shared<Base>();
  b->name = name; b->kdbx = kdbx; b->m = m_;
  b->m.rounds = 1;
  b->built = std::make_shared<Built>(Build(b->m));
  str path = scratch + "/base";
  Outcome o = Export(kdbx, path, *b->built->db, ref::LibKey(ref::KeySpec()));
  if (!o.ok) { broken.push_back({name, "the export fails: " + o.what}); return; }
  b->want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(b->m) : ExpectKdb(b->m), kdbx));
  str file = ReadFile(path);
  str e = Complete(*b, file);                                  // b->file is still empty
  b->file = file;
  if (!e.empty()) { broken.push_back({name, "the export returns but the file is not complete: " + e}); return; }
  bases.push_back(b);
}

// Pseudo-random text that does not compress.
str Noise(size_t n) { str s; uint32_t x = 1; while (s.size() < n) { x = x * 1664525u + 1013904223u; s += char('!' + (x >> 24) % 90); } return s; }

MDb Sized(const MDb& base, size_t n) { MDb m = base; m.root.groups[0].entries[0].notes = MStr(Noise(n)); return m; }
MDb Seeded(size_t n) { MDb m = SmallDb(); m.master_seed = Noise(n); return m; }

void Add(Check& c, std::shared_ptr<Base> b) {
  size_t size = b->file.size();
  auto key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec()));

  // The storage is full after each number of bytes, with no file, a longer and a shorter file there before.
  size_t step = size < 12000 || !Quick() ? 1 : 8192;
  auto sizes = std::make_shared<std::vector<size_t>>();
  for (size_t n = 0; n <= size + 1; ++n) {
    size_t r = n % step;
    if (step == 1 || r < 20 || r > step - 20 || n + 40 > size || n % 256 == 0) sizes->push_back(n);
  }
  c.Add("full after every byte: " + b->name, sizes->size() * 3, [=](uint64_t i, Ctx& ctx) {
    int before = int(Take(i, 3));
    size_t n = (*sizes)[i];
    str path = scratch + "/d";
    unlink(path.c_str());
    if (before == 1) WriteFile(path, str(size + 100, 'o'));
    if (before == 2) WriteFile(path, "old");
    Outcome o;
    { FullSize limit(n); o = Export(b->kdbx, path, *b->built->db, *key); }
    if (n < size && o.ok && ReadFile(path).size() > n) { ctx.Fail("harness: limit not effective"); return; }
    if (n >= size && !o.ok) { ctx.Fail("an export with enough space fails: " + o.what); return; }
    Judge(*b, path, o, ctx);
  }, [=](uint64_t i) { int before = int(Take(i, 3)); return "storage full after " + Num((*sizes)[i]) + " of " + Num(size) + " bytes, destination " + (before == 0 ? "new" : before == 1 ? "longer" : "shorter") + " before"; });

  // Faults of single calls, all pairs of them. The number of calls is that of an undisturbed export.
  storage = Storage(); storage.armed = true;
  Export(b->kdbx, scratch + "/base", *b->built->db, *key);
  storage.armed = false;
  uint64_t calls = uint64_t(storage.calls), opens = uint64_t(storage.opens), closes = uint64_t(storage.closes);
  c.notes.push_back({"storage calls of an export: " + b->name, Num(calls) + " writes, " + Num(opens) + " opens, " + Num(closes) + " closes"});
  auto run = [=](const std::vector<std::pair<int, int>>& plan, int fail_open, int fail_close, Ctx& ctx) {
    str path = scratch + "/d";
    unlink(path.c_str());
    storage = Storage();
    storage.plan = plan; storage.fail_open = fail_open; storage.fail_close = fail_close;
    storage.armed = true;
    Outcome o = Export(b->kdbx, path, *b->built->db, *key);
    storage.armed = false;
    ctx.Trans(storage.fired);
    // A file that could not be opened or closed is not complete for certain, whatever it looks like.
    if (o.ok && (fail_open >= 0 || fail_close >= 0) && storage.fired) { ctx.Fail(fail_open >= 0 ? "the destination cannot be opened but the export returns" : "the last bytes cannot be stored when the file is closed but the export returns"); return; }
    Judge(*b, path, o, ctx);
  };
  uint64_t slots = (calls + 4) * (kFaults - 1);                // further calls follow after short writes
  uint64_t most = Quick() ? 6 : 12;                            // pairs within a window of calls
  c.Add("faulty calls: " + b->name, slots, [=](uint64_t i, Ctx& ctx) {
    int f = int(Take(i, kFaults - 1)) + 1;
    run({{int(i), f}}, -1, -1, ctx);
  }, [=](uint64_t i) { int f = int(Take(i, kFaults - 1)) + 1; return str("write call ") + Num(i) + ": " + kFaultName[f]; });
  c.Add("pairs of faulty calls: " + b->name, (calls + 4) * most * (kFaults - 1) * (kFaults - 1), [=](uint64_t i, Ctx& ctx) {
    int f = int(Take(i, kFaults - 1)) + 1, g = int(Take(i, kFaults - 1)) + 1, d = int(Take(i, most)) + 1;
    run({{int(i), f}, {int(i) + d, g}}, -1, -1, ctx);
  }, [=](uint64_t i) { int f = int(Take(i, kFaults - 1)) + 1, g = int(Take(i, kFaults - 1)) + 1, d = int(Take(i, most)) + 1; return str("write call ") + Num(i) + ": " + kFaultName[f] + ", write call " + Num(i + d) + ": " + kFaultName[g]; });
  c.Add("open and close fail: " + b->name, opens + closes, [=](uint64_t i, Ctx& ctx) {
    if (i < opens) run({}, int(i), -1, ctx); else run({}, -1, int(i - opens), ctx);
  }, [=](uint64_t i) { return i < opens ? "open call " + Num(i) + " fails" : "close call " + Num(i - opens) + " fails"; });
}

// --- Destinations
struct Dest { str name; int expect; std::function<str()> make; };   // expect: 0 throws, 1 returns, 2 either
std::vector<Dest> Dests() {
  auto in = [](const str& n) { return scratch + "/" + n; };
  return {
    {"no such directory", 0, [=] { return in("none/x/d"); }},
    {"a directory", 0, [=] { mkdir(in("dir").c_str(), 0700); return in("dir"); }},
    {"a directory with slash", 0, [=] { mkdir(in("dir").c_str(), 0700); return in("dir/"); }},
    {"a file as directory", 0, [=] { WriteFile(in("f"), "x"); return in("f/d"); }},
    {"empty path", 0, [=] { return str(); }},
    {"a name that is too long", 0, [=] { return in(str(300, 'n')); }},
    {"a path that is too long", 0, [=] { str p = scratch; while (p.size() < 5000) p += "/."; return p + "/d"; }},
    {"a loop of links", 0, [=] { unlink(in("l").c_str()); if (symlink("l", in("l").c_str())) {} return in("l"); }},
    {"a full device", 0, [=] { return str("/dev/full"); }},
    {"a link to a full device", 0, [=] { unlink(in("lf").c_str()); if (symlink("/dev/full", in("lf").c_str())) {} return in("lf"); }},
    {"a link to nothing", 1, [=] { unlink(in("t").c_str()); unlink(in("ln").c_str()); if (symlink("t", in("ln").c_str())) {} return in("ln"); }},
    {"a link to a file", 1, [=] { WriteFile(in("t"), str(100000, 'o')); unlink(in("ln").c_str()); if (symlink("t", in("ln").c_str())) {} return in("ln"); }},
    {"a longer file", 1, [=] { WriteFile(in("t"), str(100000, 'o')); return in("t"); }},
    {"an empty file", 1, [=] { WriteFile(in("t"), ""); return in("t"); }},
    {"a file that may not be written", 2, [=] { unlink(in("ro").c_str()); WriteFile(in("ro"), "old"); chmod(in("ro").c_str(), 0400); return in("ro"); }},
    {"unusual name", 1, [=] { return in("\x01 \xff%s*?"); }},
  };
}

// --- Refusals: databases that formats cannot hold, or perhaps can.
void Chain(MGroup& g, int n) { MGroup* p = &g; for (int i = 0; i < n; ++i) { MGroup x; x.uuid = MakeUuid(1000 + i); x.name = "n"; p->groups = {x}; p = &p->groups[0]; } }

struct Refusal { str name; std::function<std::shared_ptr<keepass::Database>(std::shared_ptr<Built>&)> make; };

void AddRefusals(Check& c) {
  auto slots = std::make_shared<std::vector<std::pair<str, std::function<void(MDb&)>>>>();
  slots->push_back({"nothing", [](MDb&) {}});
  slots->push_back({"no master seed", [](MDb& m) { m.master_seed.clear(); }});
  for (size_t n : {1, 15, 16, 17, 32, 65535, 65536, 70000, 131072 + 16}) slots->push_back({"master seed of " + Num(n), [n](MDb& m) { m.master_seed = Noise(n); }});
  slots->push_back({"Twofish", [](MDb& m) { m.twofish = true; }});
  for (int n : {1, 99, 100, 101, 120, 122, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 258, 259, 300, 1000}) slots->push_back({"levels " + SNum(n), [n](MDb& m) { for (MGroup* g : Preorder(m.root)) g->last_visible = -1; m.meta.recycle_bin = m.meta.templates = m.meta.last_selected = m.meta.last_visible = -1; m.root.groups[0].entries.clear(); Chain(m.root.groups[0], n); }});
  slots->push_back({"entry in the root group", [](MDb& m) { MEntry e; e.uuid = MakeUuid(9); m.root.entries.push_back(e); }});
  for (int n : {0, 1, 2, 3}) for (int k = 0; k < 3; ++k) slots->push_back({"attachments " + SNum(n) + " kind " + SNum(k), [n, k](MDb& m) { std::vector<MEntry*> es; AllEntries(m.root, es, true); for (MEntry* o : es) o->atts.clear(); m.pooled = 0; m.bins.clear(); auto& e = m.root.groups[0].entries[0]; e.atts.clear(); for (int i = 0; i < n; ++i) { MBin b; b.data = k == 2 ? "" : "data"; m.bins.push_back(b); MAtt a; a.name = "a" + SNum(i); a.bin = k == 1 ? -1 : i; e.atts.push_back(a); } }});
  for (const char* t : {"\x01", "\xff", "\xef\xbf\xbf", "\xed\xa0\x80", "\xc0\x80"}) for (int p = 0; p < 2; ++p) for (int w = 0; w < 3; ++w)
    slots->push_back({"text " + Quote(t) + (p ? " protected" : "") + " at " + SNum(w), [t, p, w](MDb& m) { auto& e = m.root.groups[0].entries[0]; if (w == 0) e.title = MStr(t, p); else if (w == 1) { m.root.groups[0].name = t; } else { MField f; f.key = p ? "k" : t; f.value = MStr(t, p); e.fields.push_back(f); } }});
  slots->push_back({"text with NUL", [](MDb& m) { m.root.groups[0].entries[0].title = MStr(str("a\0b", 3)); }});
  for (int64_t t : {-1ll, -62135596800ll, -62135596801ll, -99999999999ll, 253402300799ll, 253402300800ll, 67767976233532799ll, (long long)LLONG_MAX, (long long)LLONG_MIN, 32503676399ll, 32503676400ll})
    for (int w = 0; w < 2; ++w) slots->push_back({"time " + SNum(t) + (w ? " of a group" : ""), [t, w](MDb& m) { if (w) m.root.groups[0].t_creation = t; else m.root.groups[0].entries[0].t_expiry = t; }});
  slots->push_back({"no metadata", [](MDb& m) { m.has_meta = false; m.icons.clear(); std::vector<MEntry*> es; AllEntries(m.root, es, true); for (MEntry* e : es) e->custom_icon = -1; for (MGroup* g : Preorder(m.root)) g->custom_icon = -1; }});
  slots->push_back({"many rounds for KDB", [](MDb& m) { m.rounds = 1; }});
  for (auto& s : KdbxSlots(Alphabet::kSmall)) for (auto& v : s.values) slots->push_back({s.name + " = " + v.first, [f = v.second](MDb& m) { f(m); }});
  auto n = slots->size();
  // 0: the small database, 1: a rich one
  auto name = [=](uint64_t i) { bool kdbx = Take(i, 2); int base = int(Take(i, 2)); return (*slots)[i].first + (base ? " in a rich database" : "") + (kdbx ? " to KDBX" : " to KDB"); };
  c.Add("refusals", n * 4, [=](uint64_t i, Ctx& ctx) {
    uint64_t all = i;
    bool kdbx = Take(i, 2); int base = int(Take(i, 2));
    MDb m = !base ? SmallDb() : kdbx ? RichDb() : RichKdb();
    bool slot = (*slots)[i].first.find(" = ") != str::npos;
    if (slot) { if (!base) return; m = RichDb(); }             // made for that database
    (*slots)[i].second(m);
    if (m.rounds > (1u << 20)) m.rounds = 1;
    std::shared_ptr<keepass::Database> db = Build(m).db;
    str path = scratch + "/old";
    str old = "the old file " + str(20, 'o');
    WriteFile(path, old);
    Outcome o = Export(kdbx, path, *db, ref::LibKey(ref::KeySpec()));
    ctx.Trans(); ctx.Trace();
    ctx.State(o.ok ? "stored " + Num(all) : o.kind + o.what);
    if (o.ok) {
      // Complete: the file decodes to all that was written.
      str file = ReadFile(path);
      MDb d;
      str e = kdbx ? ref::DecodeKdbx(file, ref::KeySpec(), &d) : ref::DecodeKdb(file, ref::KeySpec(), &d);
      (void)e;
      if (file == old || file.size() < 124) ctx.Fail("the export returns without a file");
      return;
    }
    ctx.Nontrivial();
    if (ReadFile(path) != old) ctx.Fail("a refused export (" + o.what + ") changes the old file");
  }, name, 60);

  static const std::vector<std::pair<const char*, std::function<void(keepass::Database&)>>> odd = {
    {"no root group", [](keepass::Database& d) { d.set_root(nullptr); }},
    {"2^32 rounds", [](keepass::Database& d) { d.set_transform_rounds(1ull << 32); }},
    {"2^64 - 1 rounds", [](keepass::Database& d) { d.set_transform_rounds(~0ull); }},
  };
  c.Add("refusals of odd databases", odd.size() * 2, [](uint64_t i, Ctx& ctx) {
    bool kdbx = Take(i, 2);
    if (kdbx && i > 0) return;                                 // KDBX holds any number of rounds, at a price
    auto db = Build(SmallDb()).db;
    odd[i].second(*db);
    str path = scratch + "/old", old = "the old file";
    WriteFile(path, old);
    Outcome o = Export(kdbx, path, *db, ref::LibKey(ref::KeySpec()));
    ctx.Trans(); ctx.Trace(); ctx.Nontrivial();
    ctx.State(o.kind + o.what);
    if (o.ok) ctx.Fail("the export returns");
    else if (ReadFile(path) != old) ctx.Fail("a refused export (" + o.what + ") changes the old file");
  }, [](uint64_t i) { bool kdbx = Take(i, 2); return str(odd[i].first) + (kdbx ? " to KDBX" : " to KDB"); });
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C18";
  c.level = "fault_enumeration";
  c.rule = "For files of both formats and several sizes: the storage is full after every number of bytes (file size limit), every call that writes, opens or closes fails in every "
           "way of an alphabet (ENOSPC once and for good, EIO, EAGAIN, EINTR, short writes), all pairs of these within a window of calls; the export must throw or leave the complete "
           "file, as decoded by the independent reference. All unusable and unusual destinations. All refusals of an alphabet of databases over an old file, which must not change.";
  c.assumptions = {"writes go through write, writev, pwrite, fopen and fclose of the C library where calls are made to fail; the size limit works for any way of writing"};
  entropy = [] { return 0x5bd1e995u; };
  bool q = Quick();
  AddBase("KDB", false, [] { MDb m = SmallDb(); return m; }());
  AddBase("KDB with all fields, Twofish", false, [] { MDb m = RichKdb(); m.twofish = true; return m; }());
  AddBase("KDB of 9 kB", false, Sized(SmallDb(), 9000));
  AddBase("KDB of 40 kB", false, Sized(SmallDb(), 40000));
  AddBase("KDBX", true, SmallDb());
  AddBase("KDBX with all fields", true, [] { MDb m = RichDb(); m.twofish = false; return m; }());
  AddBase("KDBX compressed", true, [] { MDb m = SmallDb(); m.compress = true; return m; }());
  AddBase("KDBX of 40 kB", true, Sized(SmallDb(), 34000));
  AddBase("KDBX compressed of 20 kB", true, [] { MDb m = Sized(SmallDb(), 18000); m.compress = true; return m; }());
  AddBase("KDBX with a long header", true, Seeded(30000));
  for (size_t n : {8191 - 1200, 16 * 511}) AddBase("KDBX with a header of " + Num(n), true, Seeded(n));
  if (!q) for (size_t n = 7900; n < 8300; n += 7) AddBase("KDBX with a header of " + Num(n), true, Seeded(n));
  for (auto& b : broken) c.Broken(b.first, b.second);
  for (auto& b : bases) Add(c, b);

  auto dests = std::make_shared<std::vector<Dest>>(Dests());
  size_t nb = bases.size();
  c.Add("destinations", dests->size() * nb, [=](uint64_t i, Ctx& ctx) {
    const Base& b = *bases[Take(i, nb)];
    const Dest& d = (*dests)[i];
    str path = d.make();
    Outcome o = Export(b.kdbx, path, *b.built->db, ref::LibKey(ref::KeySpec()));
    if (d.expect == 0 && o.ok) { ctx.Fail("the export to " + d.name + " returns"); return; }
    if (d.expect == 1 && !o.ok) { ctx.Fail("the export to " + d.name + " throws: " + o.what); return; }
    Judge(b, path, o, ctx);
  }, [=](uint64_t i) { const Base& b = *bases[Take(i, nb)]; return b.name + " exported to " + (*dests)[i].name; });
  AddRefusals(c);
}

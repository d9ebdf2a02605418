// C28: imports and key files over storage that fails or delivers slowly.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include "deviate.hh"
#include "exception.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "ref.hh"

using namespace mc;

// --- The storage: every call that opens, reads or seeks while an operation runs goes through here.
namespace {

enum Fault { kSplit, kInterrupted, kInterruptedThrice, kIoOnce, kIoForGood, kAgainOnce, kEndOnce, kEndForGood, kSplitAndEndOnce, kFaults };
const char* const kFaultName[] = {"the read is short", "EINTR", "EINTR three times", "EIO once", "EIO from here on", "EAGAIN once", "an end of file that goes away", "the end of the file", "a short read and an end of file one byte later"};

struct Storage {
  bool armed = false;
  std::vector<std::pair<int64_t, int>> plan;    // offset in the file -> fault
  std::vector<int> times;                       // how often it is still to happen
  int64_t most = INT64_MAX;                     // bytes a read delivers at most
  int fail_open = -1, fail_seek = -1;
  bool seeks_for_good = false;
  int opens = 0, seeks = 0, reads = 0, fired = 0;
} storage;

void Plan(const std::vector<std::pair<int64_t, int>>& plan) {
  storage.plan = plan; storage.times.clear();
  for (auto& p : plan) storage.times.push_back(p.second == kInterruptedThrice ? 3 : p.second == kIoForGood || p.second == kEndForGood ? INT32_MAX : p.second == kSplit ? 0 : 1);
}

// The number of bytes to read, or -1 with errno set.
ssize_t Decide(int fd, size_t size) {
  ++storage.reads;
  int64_t at = syscall(SYS_lseek, fd, 0, SEEK_CUR);
  if (at < 0) return ssize_t(size);
  for (size_t i = 0; i < storage.plan.size(); ++i) {
    int64_t where = storage.plan[i].first; int f = storage.plan[i].second;
    if (at == where && storage.times[i] > 0) {
      --storage.times[i]; ++storage.fired;
      switch (f) {
        case kInterrupted: case kInterruptedThrice: errno = EINTR; return -1;
        case kIoOnce: case kIoForGood: errno = EIO; return -1;
        case kAgainOnce: errno = EAGAIN; return -1;
        case kEndOnce: case kEndForGood: return 0;
        case kSplitAndEndOnce: storage.plan.push_back({at + 1, kEndOnce}); storage.times.push_back(1); break;
      }
    }
  }
  for (auto& p : storage.plan) if (at < p.first && int64_t(size) > p.first - at) { size = size_t(p.first - at); if (p.second == kSplit) ++storage.fired; }
  return ssize_t(std::min<int64_t>(int64_t(size), storage.most));
}
bool Ours(int fd) { return storage.armed && fd > 2; }
template <typename F> F Next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool SeekFails() {
  int n = storage.seeks++;
  if (n == storage.fail_seek || (storage.seeks_for_good && n > storage.fail_seek)) { ++storage.fired; errno = ESPIPE; return true; }
  return false;
}

}  // namespace

extern "C" {
ssize_t read(int fd, void* data, size_t size) {
  if (Ours(fd)) { ssize_t n = Decide(fd, size); if (n <= 0) return n; size = size_t(n); }
  return syscall(SYS_read, fd, data, size);
}
ssize_t readv(int fd, const struct iovec* v, int count) {
  if (!Ours(fd)) return syscall(SYS_readv, fd, v, count);
  for (int i = 0; i < count; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
off_t lseek(int fd, off_t to, int how) noexcept { return Ours(fd) && SeekFails() ? -1 : syscall(SYS_lseek, fd, to, how); }
off64_t lseek64(int fd, off64_t to, int how) noexcept { return Ours(fd) && SeekFails() ? -1 : syscall(SYS_lseek, fd, to, how); }
static FILE* Open(const char* name, const char* path, const char* mode) {
  if (storage.armed && storage.opens++ == storage.fail_open) { ++storage.fired; errno = EMFILE; return nullptr; }
  return Next<FILE* (*)(const char*, const char*)>(name)(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return Open("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return Open("fopen64", path, mode); }
}

namespace {

int OpenFiles() { int n = 0; for (int fd = 0; fd < 100; ++fd) n += fcntl(fd, F_GETFD) != -1; return n; }

struct Op {
  str name, path, file;
  // Runs under the storage; the text of what is wrong with the result once it has returned.
  std::function<std::function<str()>()> run;
  // Of what a failed operation leaves behind, then of doing it once more.
  std::function<str()> after;
  int seeks = 0, opens = 0, reads = 0;
};

struct Setting { std::vector<std::pair<int64_t, int>> plan; int64_t most = INT64_MAX; int fail_open = -1, fail_seek = -1; bool seeks_for_good = false; };

// must: the operation has to succeed, nothing went wrong with the storage.
void Test(const Op& op, const Setting& s, bool must, Ctx& ctx) {
  int files = OpenFiles();
  storage = Storage();
  Plan(s.plan); storage.most = s.most; storage.fail_open = s.fail_open; storage.fail_seek = s.fail_seek; storage.seeks_for_good = s.seeks_for_good;
  std::function<str()> judge;
  str kind;
  bool other = false, password = false, ends = false;
  for (auto& p : s.plan) ends |= p.second == kEndOnce || p.second == kEndForGood || p.second == kSplitAndEndOnce;
  storage.armed = true;
  try { judge = op.run(); storage.armed = false; }
  catch (const std::exception& e) { storage.armed = false; kind = typeid(e).name(); kind += str(" ") + e.what(); password = dynamic_cast<const keepass::PasswordError*>(&e); }
  catch (...) { storage.armed = false; other = true; }
  ctx.Nontrivial(storage.fired > 0 || storage.reads > 1);
  ctx.Trans(); ctx.Trace();
  ctx.State((judge ? str("fine ") : str("threw ")) + op.name + kind.substr(0, kind.find(' ')));
  if (other) { ctx.Fail("something else than an exception is thrown"); return; }
  bool fired = storage.fired > 0;
  if (judge) { str e = judge(); if (!e.empty()) { ctx.Fail("the operation returns, but " + e); return; } }
  else if (must || !fired) { ctx.Fail("the operation fails although the storage delivers everything: " + kind); return; }
  judge = nullptr;
  if (password && !ends && s.fail_seek < 0) { ctx.Fail("a failing read is reported as a wrong password"); return; }
  if (OpenFiles() != files) { ctx.Fail("a file stays open"); return; }
  if (!kind.empty()) { str e = op.after(); if (!e.empty()) ctx.Fail(e); }
}

str Name(const std::vector<std::pair<int64_t, int>>& plan) { str s; for (auto& p : plan) s += (s.empty() ? "" : ", then ") + str("at byte ") + Num(uint64_t(p.first)) + ": " + kFaultName[p.second]; return s; }

void Add(Check& c, std::shared_ptr<Op> op) {
  // Undisturbed, counting.
  std::function<str()> judge;
  storage = Storage(); storage.armed = true;
  try { judge = op->run(); storage.armed = false; } catch (const std::exception& e) { storage.armed = false; c.Broken(op->name, str("the operation fails: ") + e.what()); return; }
  op->seeks = storage.seeks; op->opens = storage.opens; op->reads = storage.reads;
  str e = judge(); judge = nullptr;
  if (!e.empty()) { c.Broken(op->name, e); return; }
  uint64_t size = op->file.size();
  bool large = size > 5000;
  uint64_t step = large ? (Quick() ? 37 : 3) : 1;
  auto must = [](int f) { return f == kSplit || f == kInterrupted || f == kInterruptedThrice; };
  c.Add(op->name + ", one fault", (size / step + 1) * kFaults, [=](uint64_t i, Ctx& ctx) {
    int f = int(Take(i, kFaults)); Setting s; s.plan = {{int64_t(i * step), f}};
    Test(*op, s, must(f), ctx);
  }, [=](uint64_t i) { int f = int(Take(i, kFaults)); return Name({{int64_t(i * step), f}}); });
  // Slow storage.
  uint64_t sizes = large ? 600 : size + 1;
  c.Add(op->name + ", reads of at most n bytes", sizes, [=](uint64_t i, Ctx& ctx) { Setting s; s.most = int64_t(i + 1); Test(*op, s, true, ctx); }, [](uint64_t i) { return "reads of at most " + Num(i + 1) + " bytes"; });
  // The same with an error on top.
  c.Add(op->name + ", short reads and an error", 6 * 64 * 2, [=](uint64_t i, Ctx& ctx) {
    static const int64_t most[] = {1, 7, 16, 64, 511, 4096};
    bool forever = Take(i, 2); Setting s; s.most = most[Take(i, 6)]; s.plan = {{int64_t(i * size / 64), forever ? kIoForGood : kIoOnce}};
    if (large && s.most < 64) return;
    Test(*op, s, false, ctx);
  }, [=](uint64_t i) { static const int64_t most[] = {1, 7, 16, 64, 511, 4096}; bool forever = Take(i, 2); int64_t m = most[Take(i, 6)]; return "reads of at most " + Num(uint64_t(m)) + " bytes; " + Name({{int64_t(i * size / 64), forever ? kIoForGood : kIoOnce}}); });
  // Two faults.
  uint64_t places = Quick() ? 16 : 48;
  c.Add(op->name + ", two faults", places * places * kFaults * kFaults, [=](uint64_t i, Ctx& ctx) {
    int f = int(Take(i, kFaults)), g = int(Take(i, kFaults)); uint64_t a = Take(i, places), b = i; if (b < a) return;
    Setting s; s.plan = {{int64_t(a * size / (places - 1)), f}, {int64_t(b * size / (places - 1)), g}};
    Test(*op, s, must(f) && must(g), ctx);
  }, [=](uint64_t i) { int f = int(Take(i, kFaults)), g = int(Take(i, kFaults)); uint64_t a = Take(i, places), b = i; return Name({{int64_t(a * size / (places - 1)), f}, {int64_t(b * size / (places - 1)), g}}); });
  c.Add(op->name + ", opening and seeking fail", uint64_t(op->opens + 2 * op->seeks), [=](uint64_t i, Ctx& ctx) {
    Setting s;
    if (i < uint64_t(op->opens)) s.fail_open = int(i); else { i -= uint64_t(op->opens); s.seeks_for_good = Take(i, 2); s.fail_seek = int(i); }
    Test(*op, s, false, ctx);
  }, [=](uint64_t i) { if (i < uint64_t(op->opens)) return "opening " + Num(i) + " fails"; i -= uint64_t(op->opens); bool g = Take(i, 2); return "seeking " + Num(i) + (g ? " and all later ones fail" : " fails"); });
  c.notes.push_back({op->name, Num(size) + " bytes, " + Num(uint64_t(op->opens)) + " openings, " + Num(uint64_t(op->reads)) + " reads, " + Num(uint64_t(op->seeks)) + " seeks"});
}

Flat Norm(MDb d, bool kdbx) { if (!kdbx) for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); }

void AddImport(Check& c, const str& name, bool kdbx, MDb m) {
  static int n = 0;
  m.rounds = 1;
  auto op = std::make_shared<Op>();
  op->name = "import of " + name; op->path = scratch + "/r" + Num(n++);
  op->file = kdbx ? ref::EncodeKdbx(m, ref::KeySpec()) : ref::EncodeKdb(m, ref::KeySpec());
  WriteFile(op->path, op->file);
  auto want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx));
  auto key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec()));
  auto kdb = std::make_shared<keepass::KdbFile>(); auto xkdb = std::make_shared<keepass::KdbxFile>();
  str path = op->path;
  op->run = [=]() -> std::function<str()> {
    std::shared_ptr<keepass::Database> db(kdbx ? xkdb->Import(path, *key) : kdb->Import(path, *key));
    return [=] { str e = Diff(*want, Norm(Extract(*db), kdbx)); return e.empty() ? e : "the database is another one: " + e; };
  };
  auto run = op->run;
  op->after = [=]() -> str { try { str e = run()(); return e.empty() ? e : "the next import: " + e; } catch (const std::exception& e) { return str("the next import fails: ") + e.what(); } };
  Add(c, op);
}

void AddKeyFile(Check& c, const str& name, str text, str key_bytes) {
  static int n = 0;
  auto op = std::make_shared<Op>();
  op->name = "loading of " + name; op->path = scratch + "/f" + Num(n++); op->file = text;
  WriteFile(op->path, text);
  str path = op->path;
  ref::KeySpec old, now; old.has_kf = now.has_kf = true; now.kf = key_bytes; for (int i = 0; i < 32; ++i) old.kf += char(200 - i * 3);
  auto is = [](const keepass::Key& k, const ref::KeySpec& s) { std::array<uint8_t, 32> seed; seed.fill(7); auto r = k.Transform(seed, 3, keepass::Key::SubKeyResolution::kHashSubKeys); return str((const char*)r.data(), 32) == ref::Transform(ref::MasterKey(s, true), str(32, 7), 3); };
  auto start = std::make_shared<keepass::Key>(ref::LibKey(old));
  auto key = std::make_shared<std::shared_ptr<keepass::Key>>();
  op->run = [=]() -> std::function<str()> {
    *key = std::make_shared<keepass::Key>(*start);
    (*key)->SetKeyFile(path);
    return [=] { return is(**key, now) ? str() : str("the key is another one"); };
  };
  op->after = [=]() -> str {
    if (!is(**key, old)) return "the key is changed although the key file was not loaded";
    try { (*key)->SetKeyFile(path); } catch (const std::exception& e) { return str("the key file can't be loaded later: ") + e.what(); }
    return is(**key, now) ? "" : "the key is another one when the key file is loaded later";
  };
  Add(c, op);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C28";
  c.level = "fault_enumeration";
  c.rule = "While a database is imported or a key file loaded, the storage fails: at every byte an error, an interruption, a short read or an early end (alone and in pairs), reads of every size, failing openings and "
           "seeks; with everything delivered the operation must succeed, otherwise it must throw or have its right result; afterwards the same objects do it correctly";
  c.assumptions = {"files are read through read and readv, opened through fopen (as the C++ library does)"};
  bool q = Quick();
  MDb small = SmallDb(), kdb = small, two = small, packed = small; kdb.root.entries.clear(); two = kdb; two.twofish = true; packed.compress = true;
  MDb big = small; { str s; uint32_t x = 1; while (s.size() < 30000) { x = x * 1664525u + 1013904223u; s += char('!' + (x >> 24) % 90); } big.root.groups[0].entries[0].notes = MStr(s); }
  MDb bigkdb = big; bigkdb.root.entries.clear();
  AddImport(c, "a KDB file", false, kdb);
  AddImport(c, "a Twofish KDB file", false, two);
  AddImport(c, "a KDBX file", true, small);
  AddImport(c, "a compressed KDBX file", true, packed);
  AddImport(c, "a large KDB file", false, bigkdb);
  AddImport(c, "a large KDBX file", true, big);
  if (!q) { MDb rich = RichDb(); rich.twofish = false; AddImport(c, "a KDBX file with all fields", true, rich); AddImport(c, "a KDB file with all fields", false, RichKdb()); }
  str ka; for (int i = 0; i < 32; ++i) ka += char(i * 7 + 1);
  str hex; for (unsigned char ch : ka) { hex += "0123456789abcdef"[ch >> 4]; hex += "0123456789abcdef"[ch & 15]; }
  str xml = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>" + ref::Base64(ka) + "</Data>\n\t</Key>\n</KeyFile>\n";
  AddKeyFile(c, "a hexadecimal key file", hex, ka);
  AddKeyFile(c, "an XML key file", xml, ka);
  // Longer than a buffer; what follows looks like a hexadecimal key file, and so does the beginning of another.
  AddKeyFile(c, "a large XML key file", xml.substr(0, xml.find("<KeyFile>")) + "<!--" + str(20000, 'a') + "-->" + xml.substr(xml.find("<KeyFile>")), ka);
  str other; for (int i = 0; i < 64; ++i) other += "0123456789abcdef"[(i * 5 + 3) % 16];
  AddKeyFile(c, "an XML key file followed by digits", xml.substr(0, xml.size() - 1) + other, ka);
  AddKeyFile(c, "an XML key file with digits", "<!--" + str(8191 - 64 - 4, ' ') + other + other + "-->" + xml.substr(xml.find("<KeyFile>")), ka);
  for (auto& f : c.families) f.timeout_s = 15;   // a case takes milliseconds
}

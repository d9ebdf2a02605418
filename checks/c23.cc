// C23: new objects get fresh identifiers and every export fresh start bytes.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <set>

#include "kdb.hh"
#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

namespace {

uint32_t Mix(uint64_t i) { uint32_t x = uint32_t(i); x *= 0x9e3779b1u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16; return x; }   // a bijection of 32 bits

// Entropy that does not repeat itself.
const int kStreams = 9;
const char* const kStreamName[] = {"counting from 0", "counting up to 2^32", "counting from 2^31 - 3", "counting down", "steps of 2^16", "steps of 2^24 + 1", "mixed", "reversed bits", "mixed from 10^6"};
uint32_t Stream(int s, uint64_t i) {
  switch (s) {
    case 0: return uint32_t(i);
    case 1: return uint32_t(0xfffffff0u + i);
    case 2: return uint32_t(0x7ffffffdu + i);
    case 3: return uint32_t(0xffffffffu - i);
    case 4: return uint32_t((i << 16) | (i >> 16));
    case 5: return uint32_t(i * 0x1000001u);
    case 6: return Mix(i + 1);
    case 7: { uint32_t x = uint32_t(i), r = 0; for (int b = 0; b < 32; ++b) r |= (x >> b & 1) << (31 - b); return r; }
    default: return Mix(i + 1000000);
  }
}
struct Source {
  Source(int s) { i = 0; entropy = [this, s] { return Stream(s, i++); }; }
  explicit Source(std::function<uint32_t(uint64_t)> f) { i = 0; entropy = [this, f] { return f(i++); }; }
  ~Source() { entropy = nullptr; }
  uint64_t i;
};

str S(const Uuid& u) { return str(u.begin(), u.end()); }

// Identifiers of one size: none occurs twice; all bytes vary, and independently of each other.
struct Seen {
  std::set<str> all;
  str Add(const str& id) { return all.insert(id).second ? "" : "the identifier " + Hex(id) + " occurs twice"; }
};
str Vary(const std::vector<str>& ids) {
  size_t n = ids[0].size();
  for (size_t p = 0; p < n; ++p) {
    bool has[256] = {};
    for (auto& s : ids) has[uint8_t(s[p])] = true;
    for (int v = 0; v < 256; ++v) if (!has[v]) return "byte " + Num(p) + " never is " + SNum(v) + " in " + Num(ids.size()) + " identifiers";
    for (size_t q = 0; q < p; ++q) {
      bool same = true, shifted = true;
      for (auto& s : ids) { if (s[p] != s[q]) same = false; if (uint8_t(s[p] - s[q]) != uint8_t(ids[0][p] - ids[0][q])) shifted = false; if ((s[p] ^ s[q]) != (ids[0][p] ^ ids[0][q]) && !shifted) break; }
      if (same || shifted) return "byte " + Num(p) + " follows from byte " + Num(q);
    }
  }
  return "";
}

// Decrypted start bytes of a file, which must be those of its header.
str Start(const str& path, str* start) {
  ref::KdbxParts parts; MDb head;
  str e = ref::OpenKdbx(ReadFile(path), ref::KeySpec(), &head, &parts);
  if (!e.empty()) return e;
  *start = parts.start;
  return parts.start.size() == 32 ? "" : "there are " + Num(parts.start.size()) + " start bytes";
}

// The same in a process of its own.
str InChild(std::function<str()> f) {
  int p[2];
  if (pipe(p)) return "";
  pid_t pid = fork();
  if (pid == 0) { str s = f(); if (write(p[1], s.data(), s.size())) {} _exit(0); }
  close(p[1]);
  str r; char b[256]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, size_t(n));
  close(p[0]);
  int st; waitpid(pid, &st, 0);
  return r;
}

const str kLetters = "GEXYxK";   // group, entry, export by one KdbxFile object, by another one, by a new one, import of a KDB file
str Word(uint64_t k, size_t* len) {
  uint64_t n = kLetters.size(), size = 1; *len = 0;
  while (k >= size) { k -= size; size *= n; ++*len; }
  str s; for (size_t i = 0; i < *len; ++i) { s += kLetters[k % n]; k /= n; }
  return s;
}
uint64_t Words(size_t max) { uint64_t r = 0, size = 1; for (size_t l = 0; l <= max; ++l, size *= kLetters.size()) r += size; return r; }

}  // namespace

void mc::Register(Check& c) {
  c.property = "C23";
  c.level = "model_checking";
  c.rule = "All sequences up to a length of creating groups and entries, exporting one database with the same and with different file objects and importing a KDB file, over entropy streams "
           "that do not repeat themselves (counting, strided, mixed, bit-reversed); the only source of entropy, std::random_device, is owned by the explorer. No identifier and no start "
           "bytes occur twice; processes whose entropy differs in one bit make different ones; over large numbers all bytes take all values independently of each other";
  c.assumptions = {"std::random_device is the system's entropy source"};
  bool q = Quick();
  static MDb kdb_model = [] { MDb m = RichKdb(); m.rounds = 1; m.twofish = false; return m; }();
  static std::shared_ptr<keepass::Database> plain = [] { MDb m = SmallDb(); m.rounds = 1; return Build(m).db; }();
  static std::shared_ptr<keepass::Key> key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec()));
  static str kdb_file = [] { if (!ExportKdb(scratch + "/k", *Build(kdb_model).db, *key).ok) { fprintf(stderr, "harness: no KDB file\n"); exit(97); } return ReadFile(scratch + "/k"); }();

  uint64_t words = Words(q ? 5 : 6);
  c.Add("histories", words * 4, [](uint64_t i, Ctx& ctx) {
    static const int streams[] = {0, 1, 6, 7};
    int s = streams[Take(i, 4)]; size_t len; str w = Word(i, &len);
    Source source(s);
    Seen uuids, starts;
    keepass::KdbxFile x, y;
    WriteFile(scratch + "/k", kdb_file);
    for (char l : w) {
      str e;
      if (l == 'G') e = uuids.Add(S(keepass::Group().uuid()));
      else if (l == 'E') e = uuids.Add(S(keepass::Entry().uuid()));
      else if (l == 'K') {
        Outcome o = ImportKdb(scratch + "/k", *key);
        if (!o.ok) return ctx.Fail("import: " + o.what);
        MDb d = Extract(*o.db);
        for (auto g : Preorder(d.root)) if (e.empty()) e = uuids.Add(S(g->uuid));   // entries have stored identifiers
      } else {
        str start;
        if (l == 'X') x.Export(scratch + "/x", *plain, *key); else if (l == 'Y') y.Export(scratch + "/x", *plain, *key); else { keepass::KdbxFile z; z.Export(scratch + "/x", *plain, *key); }
        e = Start(scratch + "/x", &start);
        if (e.empty()) { e = starts.Add(start); ctx.State(start); }
      }
      ctx.Trans();
      if (!e.empty()) return ctx.Fail("after " + w + ": " + e);
    }
    ctx.Trace(); ctx.Nontrivial();
    str fp; for (auto& u : uuids.all) fp += u;
    ctx.State(fp);
  }, [](uint64_t i) { static const int streams[] = {0, 1, 6, 7}; int s = streams[Take(i, 4)]; size_t len; str w = Word(i, &len); return w + " with entropy " + kStreamName[s]; });

  // Large numbers.
  uint64_t many = q ? 100000 : 2000000;
  c.Add("many objects", kStreams, [many](uint64_t i, Ctx& ctx) {
    Source source{int(i)};
    std::vector<str> ids; ids.reserve(many);
    for (uint64_t k = 0; k < many; ++k) ids.push_back(k % 2 ? S(keepass::Group().uuid()) : S(keepass::Entry().uuid()));
    ctx.Trans(many); ctx.Trace(many); ctx.Nontrivial();
    str e = Vary(ids);
    if (!e.empty()) return ctx.Fail(e);
    std::sort(ids.begin(), ids.end());
    for (size_t k = 1; k < ids.size(); ++k) if (ids[k] == ids[k - 1]) return ctx.Fail("the identifier " + Hex(ids[k]) + " occurs twice in " + Num(many));
    ctx.State(ids[0]);
  }, [many](uint64_t i) { return Num(many) + " objects with entropy " + kStreamName[i]; }, 600, 1);
  uint64_t exports = q ? 4000 : 20000;
  c.Add("many exports", kStreams, [exports](uint64_t i, Ctx& ctx) {
    Source source{int(i)};
    std::vector<str> ids;
    keepass::KdbxFile f;
    for (uint64_t k = 0; k < exports; ++k) {
      if (k % 2) f.Export(scratch + "/x", *plain, *key); else keepass::KdbxFile().Export(scratch + "/x", *plain, *key);
      str s, e = Start(scratch + "/x", &s);
      if (!e.empty()) return ctx.Fail(e);
      ids.push_back(s);
    }
    ctx.Trans(exports); ctx.Trace(exports); ctx.Nontrivial();
    str e = Vary(ids);
    if (!e.empty()) return ctx.Fail("start bytes: " + e);
    std::sort(ids.begin(), ids.end());
    for (size_t k = 1; k < ids.size(); ++k) if (ids[k] == ids[k - 1]) return ctx.Fail("the start bytes " + Hex(ids[k]) + " occur twice in " + Num(exports) + " exports");
    ctx.State(ids[0]);
  }, [exports](uint64_t i) { return Num(exports) + " exports with entropy " + kStreamName[i]; }, 600, 1);

  // Processes with entropy that differs in one bit everywhere.
  c.Add("processes", 32 * 8 * 3, [](uint64_t i, Ctx& ctx) {
    int bit = int(Take(i, 32)), what = int(Take(i, 3));
    uint64_t base = i * 1000;
    auto make = [=](bool other) {
      return InChild([=] {
        Source source([=](uint64_t k) { return Mix(base + k) ^ (other ? 1u << bit : 0u); });
        if (what == 0) return S(keepass::Group().uuid());
        if (what == 1) return S(keepass::Entry().uuid());
        str s; keepass::KdbxFile().Export(scratch + "/p", *plain, *key); Start(scratch + "/p", &s); return s;
      });
    };
    str a = make(false), b = make(true);
    ctx.Trans(2); ctx.Trace(); ctx.Nontrivial(); ctx.State(a);
    if (a.size() != (what == 2 ? 32u : 16u) || a.size() != b.size()) return ctx.Fail("harness: no identifier");
    if (a == b) ctx.Fail("two processes with different entropy have the same " + str(what == 2 ? "start bytes" : "identifier") + " " + Hex(a));
  }, [](uint64_t i) { int bit = int(Take(i, 32)), what = int(Take(i, 3)); return str(what == 0 ? "group" : what == 1 ? "entry" : "export") + " with entropy that differs in bit " + SNum(bit) + ", base " + Num(i); });
}

// C27: running out of memory is reported, and nothing leaks.
#include "memory.hh"

#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>

#include <sstream>

#include "base64.hh"
#include "cipher.hh"
#include "exception.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "ref.hh"
#include "stream.hh"

using namespace mc;

namespace {

// An operation: `run` is watched; what it leaves behind is judged afterwards.
struct World {
  std::shared_ptr<Built> built;
  std::shared_ptr<keepass::Key> key;
  std::shared_ptr<keepass::KdbFile> kdb = std::make_shared<keepass::KdbFile>();
  std::shared_ptr<keepass::KdbxFile> kdbx = std::make_shared<keepass::KdbxFile>();
  str path, path2;
};
struct Op {
  str name;
  std::function<void(World&)> prepare;                       // memory is there
  // Runs the operation and keeps its result in `out` (an object owned by the caller, made before).
  std::function<std::shared_ptr<void>(World&)> run;
  std::function<str(World&, void*)> judge;                   // error text if the operation's result is wrong
  std::function<str(World&)> after;                          // error text if what an operation that threw leaves is wrong
  uint64_t calls = 0;
  bool destination = false;                                  // writes to path
};

int OpenFiles() {
  int n = 0;
  for (int fd = 0; fd < 200; ++fd) n += fcntl(fd, F_GETFD) != -1;
  return n;
}

enum { kFine, kThrew, kOther };
struct Ran { int how = kFine; uint64_t calls = 0, failed = 0, leaked = 0; int files = 0; bool password = false; std::shared_ptr<void> result; };

struct Faults { uint64_t at = UINT64_MAX, then = UINT64_MAX; bool for_good = false; };
Ran RunOp(const Op& op, World& w, Faults f = Faults()) {
  Ran r;
  memory::Again();
  memory::state.fail_at = f.at; memory::state.then = f.then; memory::state.for_good = f.for_good;
  int files = OpenFiles();
  memory::state.armed = true;
  try {
    r.result = op.run(w);
    memory::state.armed = false;
  } catch (const keepass::PasswordError& e) {
    memory::state.armed = false;
    r.how = kThrew; r.password = true;
  } catch (const std::exception& e) {
    memory::state.armed = false;
    r.how = kThrew;
  } catch (...) {
    memory::state.armed = false;
    r.how = kOther;
  }
  r.calls = memory::state.calls; r.failed = memory::state.failed;
  r.files = OpenFiles() - files;
  return r;
}

void Test(const Op& op, Faults faults, Ctx& ctx) {
  World w;
  op.prepare(w);
  str old = "the old file";
  if (op.destination) WriteFile(w.path, old);
  // Things that are only made once in a process.
  static std::map<str, bool> warm;
  if (!warm[op.name]) { warm[op.name] = true; Ran r = RunOp(op, w); r.result.reset(); w = World(); op.prepare(w); memory::Clear(); if (op.destination) WriteFile(w.path, old); }
  std::shared_ptr<Flat> before;
  if (w.built) before = std::make_shared<Flat>(Flatten(Extract(*w.built->db)));
  str error;
  bool threw = false;
  uint64_t leaked = 0;
  {
    Ran r = RunOp(op, w, faults);
    threw = r.how == kThrew;
    if (r.how == kOther) error = "something else than an exception is thrown";
    if (r.password) error = "running out of memory is reported as a wrong password";
    if (r.files != 0) error = "a file stays open";
    if (r.how == kFine) { str e = op.judge(w, r.result.get()); if (!e.empty()) error = "the operation returns, but " + e; }
    r.result.reset();
    ctx.Nontrivial(r.failed > 0);
    ctx.State(Num(r.how) + " " + Num(r.failed > 0));
    if (r.how == kThrew && r.failed == 0) error = "the operation throws although there is memory";
  }
  if (error.empty() && w.built) { str d = Diff(*before, Flatten(Extract(*w.built->db))); if (!d.empty()) error = "the database is changed: " + d; }
  if (error.empty() && threw && op.after) error = op.after(w);
  // Memory is there again: the operation works, also on the same objects.
  if (error.empty() && threw) {
    Ran r = RunOp(op, w);
    if (r.how != kFine) error = "the operation fails once memory is there again";
    else { str e = op.judge(w, r.result.get()); if (!e.empty()) error = "done once more: " + e; }
    r.result.reset();
  }
  w.kdb.reset(); w.kdbx.reset(); w.key.reset();
  leaked = memory::state.live;
  memory::Clear();
  if (error.empty() && leaked) error = Num(leaked) + " blocks of memory are not given back";
  ctx.Trans(); ctx.Trace();
  if (!error.empty()) ctx.Fail(error);
}

void Add(Check& c, Op op_) {
  auto op = std::make_shared<Op>(op_);
  // The number of allocations of an undisturbed run.
  {
    World w; op->prepare(w);
    { Ran r = RunOp(*op, w); if (r.how != kFine) { r.result.reset(); memory::Clear(); c.Broken(op->name, "the operation fails"); return; } str e = op->judge(w, r.result.get()); if (!e.empty()) { r.result.reset(); memory::Clear(); c.Broken(op->name, e); return; } }
    Ran r = RunOp(*op, w);
    op->calls = r.calls;
    memory::Clear();
  }
  c.notes.push_back({"allocations of " + op->name, Num(op->calls)});
  c.Add(op->name, (op->calls + 3) * 2, [op](uint64_t i, Ctx& ctx) {
    Faults f; f.for_good = Take(i, 2);
    f.at = i >= op->calls + 2 ? UINT64_MAX : i;
    Test(*op, f, ctx);
  }, [op](uint64_t i) { bool for_good = Take(i, 2); return "allocation " + Num(i) + " of " + Num(op->calls) + (for_good ? " and all later ones fail" : " fails"); });
  // Two failures: the second one meets what cleans up after the first, or what went on without it.
  uint64_t span = Quick() ? 6 : op->calls;
  c.Add(op->name + ", two failures", op->calls * span, [op, span](uint64_t i, Ctx& ctx) {
    Faults f; f.at = Take(i, op->calls); f.then = f.at + 1 + i;
    if (f.then > op->calls + 2) return;
    Test(*op, f, ctx);
  }, [op](uint64_t i) { uint64_t a = Take(i, op->calls); return "allocations " + Num(a) + " and " + Num(a + 1 + i) + " of " + Num(op->calls) + " fail"; });
}

typedef std::unique_ptr<keepass::Database> Db;
std::shared_ptr<void> Hold(Db db) { return std::shared_ptr<keepass::Database>(std::move(db)); }

Flat Norm(MDb d, bool kdbx) { if (!kdbx) for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); }

void AddImport(Check& c, const str& name, bool kdbx, MDb m) {
  m.rounds = 1;
  static int n = 0;
  int id = n++;
  auto file = std::make_shared<str>(kdbx ? ref::EncodeKdbx(m, ref::KeySpec()) : ref::EncodeKdb(m, ref::KeySpec()));
  auto want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx));
  Op op;
  op.name = "import of " + name;
  op.prepare = [=](World& w) { w.path = scratch + "/i" + Num(id); WriteFile(w.path, *file); w.key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec())); };
  op.run = [=](World& w) -> std::shared_ptr<void> { return Hold(kdbx ? w.kdbx->Import(w.path, *w.key) : w.kdb->Import(w.path, *w.key)); };
  op.judge = [=](World&, void* db) { return Diff(*want, Norm(Extract(*static_cast<keepass::Database*>(db)), kdbx)); };
  Add(c, op);
}
void AddExport(Check& c, const str& name, bool kdbx, MDb m) {
  m.rounds = 1;
  static int n = 0;
  int id = n++;
  auto want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx));
  Op op;
  op.name = "export of " + name;
  op.destination = true;
  op.prepare = [=](World& w) { w.path = scratch + "/e" + Num(id); w.built = std::make_shared<Built>(Build(m)); w.key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec())); };
  op.run = [=](World& w) -> std::shared_ptr<void> { if (kdbx) w.kdbx->Export(w.path, *w.built->db, *w.key); else w.kdb->Export(w.path, *w.built->db, *w.key); return nullptr; };
  op.judge = [=](World& w, void*) {
    MDb d;
    str file = ReadFile(w.path);
    str e = kdbx ? ref::DecodeKdbx(file, ref::KeySpec(), &d) : ref::DecodeKdb(file, ref::KeySpec(), &d);
    if (e.empty()) e = Diff(*want, Norm(d, kdbx));
    return e.empty() ? e : "the file is not the database: " + e;
  };
  Add(c, op);
}
// An operation that gives a text.
void AddText(Check& c, const str& name, std::function<void(World&)> prepare, std::function<str(World&)> run, std::function<str(World&)> want) {
  Op op;
  op.name = name; op.prepare = prepare;
  op.run = [=](World& w) -> std::shared_ptr<void> { return std::make_shared<str>(run(w)); };
  op.judge = [=](World& w, void* s) { str x = want(w); return *static_cast<str*>(s) == x ? str() : "the result is " + Quote(*static_cast<str*>(s), 200) + " and not " + Quote(x, 200); };
  Add(c, op);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C27";
  c.level = "fault_enumeration";
  c.rule = "Every allocation of an operation (imports, exports, JSON output, key files, coding and stream operations) is made to fail, alone and with all later ones; the operation must throw or have "
           "its right result (decoded by the reference), give back all memory and files, leave the database as it was, and work once memory is there again";
  c.assumptions = {"allocations go through malloc, calloc, realloc and their relatives (operator new does)", "data that the C and C++ libraries make once per process is there already"};
  entropy = [] { return 0x5bd1e995u; };
  bool q = Quick();
  MDb small = SmallDb(), kdb = small, two = small, packed = small; kdb.root.entries.clear(); two = kdb; two.twofish = true; packed.compress = true;
  MDb big = packed; { str s; uint32_t x = 1; while (s.size() < 40000) { x = x * 1664525u + 1013904223u; s += char('!' + (x >> 24) % 90); } big.root.groups[0].entries[0].notes = MStr(s); }
  MDb rich = RichDb(); rich.twofish = false;
  AddImport(c, "a KDB file", false, kdb);
  AddImport(c, "a Twofish KDB file", false, two);
  AddImport(c, "a KDBX file", true, small);
  AddImport(c, "a compressed KDBX file", true, packed);
  AddExport(c, "a KDB file", false, kdb);
  AddExport(c, "a Twofish KDB file", false, two);
  AddExport(c, "a KDBX file", true, small);
  AddExport(c, "a compressed KDBX file", true, packed);
  AddExport(c, "a large KDBX file", true, big);
  AddImport(c, "a large KDBX file", true, big);
  AddImport(c, "a KDB file with all fields", false, RichKdb());
  AddExport(c, "a KDB file with all fields", false, RichKdb());
  AddImport(c, "a KDBX file with all fields", true, rich);
  AddExport(c, "a KDBX file with all fields", true, rich);
  (void)q;
  auto json = [](const MDb& m) { return [m](World& w) { w.built = std::make_shared<Built>(Build(m)); w.path = w.built->db->root()->ToJson(); }; };
  AddText(c, "JSON output", json(small), [](World& w) { return w.built->db->root()->ToJson(); }, [](World& w) { return w.path; });
  AddText(c, "JSON output with all fields", json(rich), [](World& w) { return w.built->db->root()->ToJson(); }, [](World& w) { return w.path; });


  // Key files: after a failure the key is the one from before.
  str ka, kb; for (int i = 0; i < 32; ++i) { ka += char(i * 7 + 1); kb += char(200 - i * 3); }
  auto digits = [](const str& s) { static const char* d = "0123456789abcdef"; str r; for (unsigned char ch : s) { r += d[ch >> 4]; r += d[ch & 15]; } return r; };
  std::vector<std::pair<str, str>> kfs = {{"a hexadecimal key file", digits(ka)}, {"an XML key file", "<?xml version=\"1.0\"?>\n<KeyFile><Key><Data>" + ref::Base64(ka) + "</Data></Key></KeyFile>"}};
  for (auto& kf : kfs) {
    Op op;
    str text = kf.second;
    op.name = "loading of " + kf.first;
    ref::KeySpec old, now; old.has_kf = now.has_kf = true; old.kf = kb; now.kf = ka;
    auto derive = [](const keepass::Key& k) { std::array<uint8_t, 32> seed; seed.fill(7); auto r = k.Transform(seed, 3, keepass::Key::SubKeyResolution::kHashSubKeys); return str((const char*)r.data(), 32); };
    auto is = [derive](const keepass::Key& k, const ref::KeySpec& s) { return derive(k) == ref::Transform(ref::MasterKey(s, true), str(32, 7), 3); };
    op.prepare = [=](World& w) { w.path = scratch + "/kf"; WriteFile(w.path, text); w.key = std::make_shared<keepass::Key>(ref::LibKey(old)); };
    op.run = [](World& w) -> std::shared_ptr<void> { w.key->SetKeyFile(w.path); return nullptr; };
    op.judge = [=](World& w, void*) -> str { return is(*w.key, now) ? "" : "the key is another one"; };
    op.after = [=](World& w) -> str { return is(*w.key, old) ? "" : "the key is changed although the key file was not loaded"; };
    Add(c, op);
  }

  // Coding and streams; the other end of a stream needs no memory.
  struct Sink : std::streambuf { char data[200000]; Sink() { setp(data, data + sizeof data); } str text() const { return str(pbase(), pptr()); } };
  struct Source : std::streambuf { explicit Source(const str& s) { setg(const_cast<char*>(s.data()), const_cast<char*>(s.data()), const_cast<char*>(s.data()) + s.size()); } };
  static str data; data.clear(); { uint32_t x = 7; while (data.size() < 70000) { x = x * 1664525u + 1013904223u; data += char(x >> 24); } }
  static str blocks = ref::HashedBlocks(data, {10000}), gz = ref::Gzip(data), b64 = ref::Base64(data);
  static Sink sink;
  auto none = [](World&) {};
  auto finish = [](std::ostream& s) { s.flush(); if (!s.good()) throw std::runtime_error("stream"); };
  auto drain = [](std::streambuf& b) { str r; r.reserve(data.size() + 10); std::istreambuf_iterator<char> i(&b), e; for (; i != e; ++i) r += *i; return r; };
  AddText(c, "base64 encoding", none, [](World&) { return keepass::base64_encode(data); }, [](World&) { return b64; });
  AddText(c, "base64 decoding", none, [](World&) { return keepass::base64_decode(b64); }, [](World&) { return data; });
  AddText(c, "writing hashed blocks", none, [=](World&) { sink.~Sink(); new (&sink) Sink; std::ostream o(&sink); keepass::hashed_ostreambuf h(o, 10000); std::ostream s(&h); s.write(data.data(), std::streamsize(data.size())); finish(s); return sink.text(); }, [](World&) { return blocks; });
  AddText(c, "reading hashed blocks", none, [=](World&) { Source src(blocks); std::istream i(&src); keepass::hashed_istreambuf h(i); return drain(h); }, [](World&) { return data; });
  AddText(c, "compressing", none, [=](World&) { sink.~Sink(); new (&sink) Sink; std::ostream o(&sink); keepass::gzip_ostreambuf h(o); std::ostream s(&h); s.write(data.data(), std::streamsize(data.size())); finish(s); return sink.text(); },
          [](World&) { str r; ref::Gunzip(sink.text(), &r); return r == data ? sink.text() : str("other"); });
  AddText(c, "decompressing", none, [=](World&) { Source src(gz); std::istream i(&src); keepass::gzip_istreambuf h(i); return drain(h); }, [](World&) { return data; });
  std::array<uint8_t, 32> ck; ck.fill(9); std::array<uint8_t, 16> civ; civ.fill(3);
  for (int t = 0; t < 2; ++t) {
    auto cipher = [=]() -> std::unique_ptr<keepass::Cipher<16>> { if (t) return std::unique_ptr<keepass::Cipher<16>>(new keepass::TwofishCipher(ck, civ)); return std::unique_ptr<keepass::Cipher<16>>(new keepass::AesCipher(ck, civ)); };
    auto want = std::make_shared<str>(); { auto b = t ? ref::Twofish(str(32, 9)) : ref::Aes(str(32, 9)); *want = ref::CbcEncRaw(*b, str(16, 3), ref::Pad(data)); }
    AddText(c, t ? "Twofish encryption" : "AES encryption", none, [=](World&) { sink.~Sink(); new (&sink) Sink; auto ci = cipher(); static std::istringstream i(data); i.clear(); i.seekg(0); std::ostream o(&sink); keepass::encrypt_cbc(i, o, *ci); finish(o); return sink.text(); }, [=](World&) { return *want; });
    auto* ins = new std::istringstream(*want);
    AddText(c, t ? "Twofish decryption" : "AES decryption", none, [=](World&) { sink.~Sink(); new (&sink) Sink; auto ci = cipher(); std::istringstream& i = *ins; i.clear(); i.seekg(0); std::ostream o(&sink); keepass::decrypt_cbc(i, o, *ci); finish(o); return sink.text(); }, [=](World&) { return data; });
  }
}

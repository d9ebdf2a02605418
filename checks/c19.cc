// C19: threads working on different objects do not disturb each other.
#include <dlfcn.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <sstream>

#include <cstdint>

#include "base64.hh"
#include "cipher.hh"
#include "controls.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "random.hh"
#include "ref.hh"
#include "rt.hh"
#include "stream.hh"
#include "util.hh"

using namespace mc;

namespace {

// --- Exploration of one program: dynamic partial-order reduction over the accesses to memory that threads share.
struct Node { uint8_t enabled, chosen, done, todo, asleep; rt::Sleep acc[rt::kMax]; };   // acc: what the threads do next, size 0 if unknown
struct Stats { uint64_t runs = 0, rounds = 0, accesses = 0, visible = 0, shared = 0, races = 0, outcomes = 0, pruned = 0; bool truncated = false; };
typedef std::function<rt::Op(int)> Maker;

// Adds the alternatives that the run shows to matter.
void Backtrack(const rt::Run& r, int n, std::vector<Node>& path) {
  struct Clk { int c[rt::kMax]; };
  struct Last { int write = -1, sync = -1; int read[rt::kMax]; Last() { for (int& x : read) x = -1; } };
  std::map<uint64_t, Last> last;                     // per granule
  std::vector<Clk> clk(r.events.size());
  std::vector<int> index(r.events.size());
  Clk now[rt::kMax] = {}; int count[rt::kMax] = {};
  for (size_t j = 0; j < r.events.size(); ++j) {
    const rt::Event& e = r.events[j]; int q = e.tid;
    Clk c = now[q];
    auto dep = [&](int i) {
      if (i < 0 || r.events[i].tid == q) return;
      int p = r.events[i].tid;
      // Not ordered by anything else: the other order has to be tried.
      if (index[i] > now[q].c[p] && r.events[i].step >= 0 && size_t(r.events[i].step) < path.size()) {
        Node& k = path[r.events[i].step];
        if (k.enabled >> q & 1) k.todo |= 1 << q; else k.todo |= k.enabled;
      }
      for (int t = 0; t < n; ++t) c.c[t] = std::max(c.c[t], clk[i].c[t]);
    };
    for (uint64_t g = e.addr & ~7ull; g < e.addr + e.size; g += 8) {
      Last& l = last[g];
      if (l.sync >= 0) for (int t = 0; t < n; ++t) c.c[t] = std::max(c.c[t], clk[l.sync].c[t]);
      if (e.write == 2) continue;
      dep(l.write);
      if (e.write) for (int t = 0; t < n; ++t) dep(l.read[t]);
    }
    c.c[q] = index[j] = ++count[q];
    now[q] = clk[j] = c;
    for (uint64_t g = e.addr & ~7ull; g < e.addr + e.size; g += 8) { Last& l = last[g]; if (e.write == 2) l.sync = int(j); else if (e.write) { l.write = int(j); for (int& x : l.read) x = -1; } else l.read[q] = int(j); }
  }
}

// Empty if every interleaving has the results `want` and no race.
str Explore(int n, const Maker& make, bool warm, const std::vector<str>& want, uint64_t max_runs, Stats& st) {
  std::set<uint64_t> shared;
  std::set<str> outcomes;
  for (int round = 0; round < 12; ++round) {
    ++st.rounds;
    std::vector<uint64_t> visible(shared.begin(), shared.end());
    std::vector<Node> path; std::vector<uint8_t> prefix; std::vector<rt::Sleep> sleep;
    bool again = false;
    for (uint64_t runs = 0;; ++runs) {
      if (runs >= max_runs) { st.truncated = true; break; }
      rt::Run r = rt::Execute(n, make, warm, visible, prefix, sleep);
      ++st.runs; st.accesses += r.accesses; st.visible += r.visible;
      str order; for (uint8_t p : prefix) order += char('A' + p);
      if (order.size() > 60) order = order.substr(0, 60) + "...";
      str at = " (schedule " + (order.empty() ? str("A first") : order) + ")";
      if (!r.crash.empty()) return "the program " + r.crash + at;
      if (r.deadlock) return "the threads wait for each other" + at;
      if (r.diverged) return "harness: a schedule can't be repeated" + at;
      if (!r.race.empty()) return "data race: " + r.race + at;
      str all;
      if (!r.pruned) for (int t = 0; t < n; ++t) { all += r.result[t] + "|"; if (r.result[t] != want[t]) return "the result of thread " + str(1, char('A' + t)) + " is " + Quote(r.result[t]) + " instead of " + Quote(want[t]) + at; }
      if (r.pruned) ++st.pruned; else outcomes.insert(all);
      if (r.truncated) st.truncated = true;
      for (uint64_t g : r.conflicts) if (shared.insert(g).second) again = true;     // explored again, watching these, too
      for (size_t k = 0; k < r.steps.size(); ++k) {
        if (k < path.size()) continue;
        Node x; x.enabled = r.steps[k].enabled; x.chosen = r.steps[k].chosen; x.done = x.todo = uint8_t(1 << x.chosen); x.asleep = r.steps[k].asleep; for (auto& a : x.acc) a = rt::Sleep();
        for (auto& a : sleep) if (x.asleep >> a.tid & 1) x.acc[a.tid] = a;
        if (visible.empty() && r.steps[k].current == rt::kMax) x.todo = x.enabled;     // beginnings and ends of threads: all orders
        path.push_back(x);
      }
      for (auto& e : r.events) if (e.step >= 0 && size_t(e.step) < path.size() && size_t(e.step) + 1 >= prefix.size()) { rt::Sleep a; a.tid = e.tid; a.addr = e.addr; a.size = e.size; a.write = e.write; if (path[e.step].chosen == e.tid) path[e.step].acc[e.tid] = a; }
      Backtrack(r, n, path);
      while (!path.empty() && (path.back().todo & ~path.back().done & ~path.back().asleep) == 0) path.pop_back();
      if (path.empty()) break;
      Node& k = path.back();
      uint8_t rest = uint8_t(k.todo & ~k.done & ~k.asleep), pick = 0;
      while (!(rest >> pick & 1)) ++pick;
      sleep.clear();
      for (int t = 0; t < n; ++t) if (((k.asleep | k.done) >> t & 1) && k.acc[t].size) sleep.push_back(k.acc[t]);
      k.done |= uint8_t(1 << pick); k.chosen = pick;
      prefix.clear(); for (auto& x : path) prefix.push_back(x.chosen);
    }
    if (!again) break;
    if (round == 11) st.truncated = true;
  }
  if (getenv("C19STAT")) if (FILE* o = fopen("/tmp/c19.stat", "a")) { for (uint64_t g : shared) fprintf(o, "SH %s\n", rt::Place(g).c_str()); fclose(o); }
  st.shared += shared.size(); st.outcomes += outcomes.size();
  return "";
}

// --- Operations
struct Data {
  MDb rich, kdb, small;
  str kdbx_file, kdbx_plain, kdb_aes, kdb_twofish, bytes;
  ref::KeySpec key;
};
Data* d;

str Finger(const keepass::Database& db) { return Hex(str(reinterpret_cast<const char*>(&*std::unique_ptr<uint64_t>(new uint64_t(Fingerprint(Flatten(Extract(db)))))), 8)); }
str Dir(int t) { return scratch + "/t" + SNum(t); }

struct State {
  keepass::Key key;
  std::shared_ptr<keepass::Database> db, db2;
  std::unique_ptr<keepass::Database> got;
  str path, out, error;
  std::vector<std::shared_ptr<keepass::Group>> groups;
  std::vector<std::shared_ptr<keepass::Entry>> entries;
};
struct Kind { const char* name; std::function<void(State&, int)> setup; std::function<void(State&)> run; std::function<str(State&)> result; };

str FileResult(State& s) { return s.error + Hex(ref::Sha256(ReadFile(s.path))); }
str DbResult(State& s) { return s.error + (s.got ? Finger(*s.got) : "nothing"); }
str OutResult(State& s) { return s.error + Hex(ref::Sha256(s.out)); }
void Sharing(const str& from, State& s) { WriteFile(s.path, from); }
template <size_t N> std::array<uint8_t, N> A(const str& s) { std::array<uint8_t, N> a; for (size_t i = 0; i < N; ++i) a[i] = uint8_t(s[i % s.size()]); return a; }
template <size_t N> str S(const std::array<uint8_t, N>& a) { return str(reinterpret_cast<const char*>(a.data()), N); }
void Id(const keepass::Entry& e, str& out) { out += S(e.uuid()); }

// Each thread's objects hold data of their own, so that mixed up results show.
MDb Own(MDb m, int t) { m.root.name += char('A' + t); m.tseed[0] ^= uint8_t(t + 1); m.isk[1] ^= uint8_t(t + 1); return m; }
str Password(int t) { return str("pass") + char('A' + t); }
ref::KeySpec Spec(int t) { ref::KeySpec k; k.pw = Password(t); return k; }

// The XML with another text in all elements of this name.
str ReplaceText(const str& xml, const str& element, const str& text) {
  str out; size_t at = 0;
  for (;;) {
    size_t b = xml.find("<" + element + ">", at); if (b == str::npos) break;
    b += element.size() + 2; size_t e = xml.find("</" + element, b);
    out += xml.substr(at, b - at) + text; at = e;
  }
  return out + xml.substr(at);
}

std::vector<Kind> Kinds() {
  auto import_x = [](State& s) { keepass::KdbxFile f; s.got = f.Import(s.path, s.key); };
  auto import_k = [](State& s) { keepass::KdbFile f; s.got = f.Import(s.path, s.key); };
  auto file = [](std::function<str(int)> make) { return [make](State& s, int t) { s.path = Dir(t) + ".in"; WriteFile(s.path, make(t)); s.key = keepass::Key(Password(t)); }; };
  auto make = [](std::function<MDb(int)> f) { return [f](State& s, int t) { s.path = Dir(t) + ".out"; ::unlink(s.path.c_str()); s.db = Build(f(t)).db; s.key = keepass::Key(Password(t)); }; };
  static std::vector<str> fx, fp, fa, ft;
  for (int t = 0; t < rt::kMax; ++t) {
    ref::KdbxOpt xo; MDb m = Own(d->rich, t); m.compress = true; fx.push_back(ref::EncodeKdbx(m, Spec(t), xo));
    m = Own(d->small, t); m.compress = false; fp.push_back(ref::EncodeKdbx(m, Spec(t), xo));
    m = Own(d->kdb, t); m.twofish = false; fa.push_back(ref::EncodeKdb(m, Spec(t)));
    m.twofish = true; ft.push_back(ref::EncodeKdb(m, Spec(t)));
  }
  std::vector<Kind> k;
  k.push_back({"KDBX import", file([](int t) { return fx[t]; }), import_x, DbResult});
  k.push_back({"KDBX import without compression", file([](int t) { return fp[t]; }), import_x, DbResult});
  k.push_back({"KDB import", file([](int t) { return fa[t]; }), import_k, DbResult});
  k.push_back({"KDB import with Twofish", file([](int t) { return ft[t]; }), import_k, DbResult});
  k.push_back({"KDBX export", make([](int t) { MDb m = Own(d->rich, t); m.compress = true; return m; }), [](State& s) { keepass::KdbxFile f; f.Export(s.path, *s.db, s.key); }, FileResult});
  k.push_back({"KDB export", make([](int t) { MDb m = Own(d->kdb, t); m.twofish = false; return m; }), [](State& s) { keepass::KdbFile f; f.Export(s.path, *s.db, s.key); }, FileResult});
  k.push_back({"KDB export with Twofish", make([](int t) { MDb m = Own(d->kdb, t); m.twofish = true; return m; }), [](State& s) { keepass::KdbFile f; f.Export(s.path, *s.db, s.key); }, FileResult});
  k.push_back({"KDBX import with the wrong key", [](State& s, int t) { s.path = Dir(t) + ".in"; WriteFile(s.path, fx[t]); s.key = keepass::Key("wrong"); }, import_x, DbResult});
  k.push_back({"import of a broken KDB file", file([](int t) { str f = fa[t]; f.resize(f.size() - 17); return f; }), import_k, DbResult});
  static std::vector<str> fo, fu, fb; static str junk = str(300, 'j');
  for (int t = 0; t < rt::kMax; ++t) {
    ref::KdbxOpt o; o.zero_refs = o.omit_empty = o.in_memory = o.unknown = o.comments = o.lower_bool = o.expand_empty = true; o.id_base = 7; o.b64_wrap = 76; o.order = 1; o.text = 2; o.block_sizes = {700}; o.inline_mode = 1;
    MDb m = Own(d->rich, t); MMeta& x = m.meta; x.recycle_bin = x.templates = x.last_selected = x.last_visible = -1; m.compress = true;
    fo.push_back(ref::EncodeKdbx(m, Spec(t), o));
    // Groups that are not there, and texts in place of everything else.
    m = Own(d->rich, t);
    str header = ref::KdbxHeader(m, o, str(32, 's')), xml = ref::KdbxXml(m, o, ref::Sha256(header)), broken = xml;
    for (const char* e : {"RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup", "LastTopVisibleGroup"}) xml = ReplaceText(xml, e, ref::Base64(str(15, 'z') + char('A' + t)));
    fu.push_back(ref::KdbxWrap(m, Spec(t), o, header, str(32, 's'), xml));
    broken = ReplaceText(broken, "LastModificationTime", "not a time " + SNum(t));
    fb.push_back(ref::KdbxWrap(m, Spec(t), o, header, str(32, 's'), broken));
  }
  k.push_back({"import of a KDBX file of another program", file([](int t) { return fo[t]; }), import_x, DbResult});
  k.push_back({"import of a KDBX file with unknown groups", file([](int t) { return fu[t]; }), import_x, DbResult});
  k.push_back({"import of a KDBX file with broken times", file([](int t) { return fb[t]; }), import_x, DbResult});
  k.push_back({"KDB import with the wrong key", [](State& s, int t) { s.path = Dir(t) + ".in"; WriteFile(s.path, fa[t]); s.key = keepass::Key("wrong"); }, import_k, DbResult});
  k.push_back({"what is refused", make([](int t) { return Own(d->rich, t); }), [](State& s) {
    auto all = [&](std::function<void()> f) { try { f(); s.out += "nothing;"; } catch (const std::exception& e) { s.out += e.what() + str(";"); } };
    keepass::KdbFile k; keepass::KdbxFile x; keepass::Key key;
    all([&] { k.Export(s.path, *s.db, s.key); }); all([&] { k.Export("/nonexistent/" + s.path, *s.db, s.key); }); all([&] { x.Export("/nonexistent/" + s.path, *s.db, s.key); });
    all([&] { k.Import(s.path + "none", s.key); }); all([&] { x.Import(s.path + "none", s.key); }); all([&] { key.SetKeyFile(s.path + "none"); });
    WriteFile(s.path, junk); all([&] { k.Import(s.path, s.key); }); all([&] { x.Import(s.path, s.key); });
    all([&] { str o; keepass::base64_decode("a=b?", std::back_inserter(o)); });
  }, OutResult});
  k.push_back({"key files and transformation", [](State& s, int t) {
    s.path = Dir(t) + ".key";
    WriteFile(s.path + "x", "<?xml version=\"1.0\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>" + ref::Base64(ref::Sha256(str("k") + char('A' + t))) + "</Data></Key></KeyFile>");
    WriteFile(s.path + "h", Hex(ref::Sha256(str("h") + char('A' + t)))); WriteFile(s.path + "b", ref::Sha256(str("b") + char('A' + t))); WriteFile(s.path + "o", str(100, char('A' + t)));
    s.key = keepass::Key(Password(t));
  }, [](State& s) {
    for (char c : {'x', 'h', 'b', 'o'}) { keepass::Key k("p" + s.path); try { k.SetKeyFile(s.path + c); } catch (const std::exception& e) { s.out += e.what(); } s.out += S(k.Transform(A<32>(s.path), 2, keepass::Key::SubKeyResolution::kHashSubKeys)); }
    s.out += S(s.key.Transform(A<32>("seed"), 3, keepass::Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey));
  }, OutResult});
  k.push_back({"JSON view", make([](int t) { return Own(d->rich, t); }), [](State& s) { s.out = s.db->root()->ToJson(); for (auto& e : s.db->root()->Entries()) s.out += e->ToJson(); }, OutResult});
  k.push_back({"comparing and traversing", [](State& s, int t) { s.db = Build(Own(d->rich, t)).db; s.db2 = Build(Own(d->rich, t)).db; }, [](State& s) {
    keepass::Group &a = *s.db->root(), &b = *s.db2->root();
    s.out += a == b ? "equal" : "different"; s.out += a != *s.db->root() ? "different" : "equal";
    keepass::dfs<keepass::Group, &keepass::Group::Groups>(s.db->root(), [&](const std::shared_ptr<keepass::Group>& g, size_t l) { s.out += g->name() + SNum(int64_t(l)); });
    keepass::Entry e(*a.Entries()[0]); s.out += e == *a.Entries()[0] ? "equal" : "different";
  }, OutResult});
  k.push_back({"streams and base64", [](State& s, int t) { s.path = d->bytes.substr(size_t(t) * 100, 3000); }, [](State& s) {
    std::stringstream a, b;
    { keepass::hashed_ostreambuf buf(a, 700); std::ostream o(&buf); o << s.path; o.flush(); }
    { a.seekg(0); keepass::hashed_istreambuf buf(a); std::istream i(&buf); str back((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); s.out += back; }
    { keepass::gzip_ostreambuf buf(b); std::ostream o(&buf); o << s.path; o.flush(); }
    { b.seekg(0); keepass::gzip_istreambuf buf(b); std::istream i(&buf); str back((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); s.out += back + b.str(); }
    str e = keepass::base64_encode(s.path.begin(), s.path.end()); s.out += e; keepass::base64_decode(e, std::back_inserter(s.out));
  }, OutResult});
  k.push_back({"ciphers", [](State& s, int t) { s.path = d->bytes.substr(size_t(t) * 64, 640); }, [](State& s) {
    keepass::AesCipher aes(A<32>(s.path), A<16>(s.path)); keepass::TwofishCipher tf(A<32>(s.path), A<16>(s.path));
    for (const keepass::Cipher<16>* c : {static_cast<const keepass::Cipher<16>*>(&aes), static_cast<const keepass::Cipher<16>*>(&tf)}) {
      std::stringstream a(s.path), b, e; keepass::encrypt_cbc(a, b, *c); s.out += b.str(); keepass::decrypt_cbc(b, e, *c); s.out += e.str();
      s.out += S(keepass::encrypt_ecb(A<32>(s.path), *c)) + S(keepass::decrypt_ecb(A<32>(s.path), *c));
    }
    keepass::RandomObfuscator o(A<32>(s.path), A<8>(s.path)); s.out += o.Process(s.path) + o.Process(s.path.substr(7));
  }, OutResult});
  k.push_back({"making groups and entries", [](State&, int) {}, [](State& s) {
    for (int i = 0; i < 3; ++i) { s.groups.push_back(std::make_shared<keepass::Group>()); s.entries.push_back(std::make_shared<keepass::Entry>()); if (i) s.groups[0]->AddGroup(s.groups[i]); s.groups[i]->AddEntry(s.entries[i]);
      s.entries[i]->set_title(keepass::protect<str>("t", false)); str k = "k"; s.entries[i]->AddCustomField(k, keepass::protect<str>("v", true)); s.entries[i]->AddAttachment(std::make_shared<keepass::Entry::Attachment>()); }
  }, [](State& s) { str r; for (auto& g : s.groups) r += S(g->uuid()); for (auto& e : s.entries) Id(*e, r); r += SNum(int64_t(s.groups[0]->Groups().size())); return Hex(ref::Sha256(r)); }});
  k.push_back({"times and text", [](State& s, int t) { s.path = Password(t); }, [](State& s) { for (int i = 0; i < 4; ++i) s.out += keepass::time_to_str(std::time_t(s.path[4] - 'A') * 86400 * 400 + i * 7777777) + keepass::json_escape(s.path + "\"\n\x01"); }, OutResult});
  return k;
}
std::vector<Kind>* kinds;

rt::Op Make(const Kind& k, int t) {
  auto s = std::make_shared<State>();
  rt::Op o; o.name = k.name;
  o.setup = [s, &k, t] { k.setup(*s, t); };
  o.run = [s, &k] { try { k.run(*s); } catch (const std::exception& e) { s->error = str("error ") + e.what() + " "; } };
  o.result = [s, &k] { return k.result(*s); };
  return o;
}
void Entropy() {
  static uint32_t count[rt::kMax + 1];
  for (auto& c : count) c = 0;
  entropy = [] { uint32_t x = ++count[rt::Current() + 1]; x *= 0x9e3779b1u; x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13; return x; };
}

// What an operation gives alone in a fresh process.
str Alone(const Kind& k, int t, str* result) {
  rt::Run r = rt::Execute(1, [&](int) { return Make(k, t); }, false, {}, {});
  *result = r.result[0];
  return r.crash.empty() ? "" : str(k.name) + " alone " + r.crash;
}
void Note(Ctx& ctx, const Stats& st) {
  ctx.Trans(st.accesses); ctx.Trace(st.runs);
  ctx.State(Num(st.shared) + "," + Num(st.runs));
  if (st.runs > 1) ctx.Nontrivial();
}
str Both(const std::vector<const Kind*>& ks, bool warm, Ctx& ctx, uint64_t max_runs, bool all = true) {
  Entropy();
  std::vector<str> want(ks.size());
  for (size_t t = 0; t < ks.size(); ++t) { str e = Alone(*ks[t], int(t), &want[t]); if (!e.empty()) return e; ctx.State(want[t]); }
  Stats st;
  str e = Explore(int(ks.size()), [&](int t) { return Make(*ks[t], t); }, warm, want, max_runs, st);
  Note(ctx, st);
  if (getenv("C19STAT")) { if (FILE* o = fopen("/tmp/c19.stat", "a")) { fprintf(o, "STAT %lu runs %lu shared %lu rounds %lu visible %s %s\n", st.runs, st.shared, st.rounds, st.visible, ks[0]->name, ks[1]->name); fclose(o); } }
  if (st.truncated) ctx.State("truncated");
  if (e.empty() && st.truncated && all) return "harness: too many interleavings of " + Num(st.shared) + " shared places";
  return e;
}

// --- Operations that share one database and one key, which they only read.
std::vector<Kind> Readers() {
  static std::shared_ptr<keepass::Database> db; static keepass::Key key("shared");
  auto setup = [](std::function<MDb()> f) { return [f](State& s, int t) { if (t == 0 || !db) { db = Build(f()).db; key = keepass::Key("shared"); } s.path = Dir(t) + ".out"; ::unlink(s.path.c_str()); }; };
  std::vector<Kind> k;
  auto rich = [] { MDb m = d->rich; m.compress = true; return m; }; auto kdb = [] { return d->kdb; };
  for (int i = 0; i < 2; ++i) {
    std::function<MDb()> f; if (i) f = kdb; else f = rich;
    if (!i) k.push_back({"KDBX export", setup(f), [](State& s) { keepass::KdbxFile x; x.Export(s.path, *db, key); }, FileResult});
    else k.push_back({"KDB export", setup(f), [](State& s) { keepass::KdbFile x; x.Export(s.path, *db, key); }, FileResult});
    k.push_back({"JSON view", setup(f), [](State& s) { s.out = db->root()->ToJson(); }, OutResult});
    k.push_back({"comparing", setup(f), [](State& s) { s.out = *db->root() == *db->root() && *db->root()->Groups()[0] == *db->root()->Groups()[0] ? "equal" : "different"; }, OutResult});
    k.push_back({"traversing", setup(f), [](State& s) {
      keepass::dfs<keepass::Group, &keepass::Group::Groups>(db->root(), [&](const std::shared_ptr<keepass::Group>& g, size_t) { s.out += g->name(); for (auto& e : g->Entries()) { s.out += *e->title() + *e->password() + e->tags(); for (auto& a : e->attachments()) s.out += a->name(); for (auto& h : e->history()) s.out += *h->title(); } });
    }, OutResult});
    k.push_back({"key transformation", setup(f), [](State& s) { s.out = S(key.Transform(A<32>("seed"), 3, keepass::Key::SubKeyResolution::kHashSubKeys)); }, OutResult});
  }
  return k;
}
std::vector<Kind>* readers;
const int kReaders = 5;

}  // namespace

void mc::Register(Check& c) {
  c.property = "C19";
  c.level = "model_checking";
  c.rule = "All pairs (thorough: triples) of operations run in threads of the real library under an own scheduler, on fresh processes and after a first use. Every access of the library and of the "
           "templates it uses is seen; the memory (static, heap, stacks, and state of the C library, OpenSSL and zlib objects, files) that more than one thread accesses and one writes is the set of shared places; "
           "all interleavings of the accesses to these that are not equivalent are run (dynamic partial-order reduction; triples: up to 1000 each), with happens-before tracking. No race, and every result as from the operation alone";
  c.assumptions = {"memory model: sequentially consistent executions, races excluded by happens-before", "the C library, OpenSSL and zlib are free of races for different objects"};
  SetTz("CET-1CEST,M3.5.0,M10.5.0/3");
  d = new Data;
  d->rich = RichDb(); d->rich.rounds = 2; d->kdb = RichKdb(); d->kdb.rounds = 2; d->small = SmallDb(); d->small.rounds = 2;
  for (uint32_t i = 0, x = 1; i < 4000; ++i) { x = x * 1664525 + 1013904223; d->bytes += char(x >> 24); }
  kinds = new std::vector<Kind>(Kinds());
  readers = new std::vector<Kind>(Readers());
  bool q = Quick();
  // Guards of function-local statics, relative to where this program was loaded.
  {
    char self[4096]; ssize_t len = readlink("/proc/self/exe", self, sizeof self - 1); self[len < 0 ? 0 : len] = 0;
    Dl_info me; dladdr(reinterpret_cast<void*>(&mc::Register), &me);
    FILE* f = fopen((str(self) + ".guards").c_str(), "r");
    if (!f) { fprintf(stderr, "harness: no list of guards\n"); exit(97); }
    unsigned long a; char name[8192];
    while (fscanf(f, "%lx %8191s", &a, name) == 2) rt::guard_variables.push_back(uint64_t(me.dli_fbase) + a);
    fclose(f);
  }
  static uint64_t max_runs; max_runs = q ? 3000 : 20000;

  c.Add("explorer", ctl::kCount * 2, [](uint64_t i, Ctx& ctx) {
    int p = int(Take(i, ctl::kCount)); int n = 2 + int(i);
    auto make = [p](int t) { auto r = std::make_shared<str>(); rt::Op o; o.setup = [] {}; o.run = [p, t, r] { *r = ctl::Run(p, t); }; o.result = [r] { return *r; }; return o; };
    std::vector<str> want;
    for (int t = 0; t < n; ++t) { rt::Run r = rt::Execute(1, [&](int) { return make(t); }, false, {}, {}); want.push_back(r.result[0]); }
    Stats st;
    str e = Explore(n, make, false, want, 20000, st), expect = ctl::kExpect[p];
    Note(ctx, st);
    str got = e.empty() ? "" : e.find("data race") == 0 ? "race" : e.find("the result") == 0 ? "result" : e.find("the threads wait") == 0 ? "deadlock" : e;
    if (p == 6 && n == 3 && got == "deadlock") return;
    if (got != expect) ctx.Fail("harness: the explorer finds '" + e + "' in " + Num(st.runs) + " runs of the program '" + ctl::kName[p] + "'");
  }, [](uint64_t i) { int p = int(Take(i, ctl::kCount)); return str(ctl::kName[p]) + " in " + Num(2 + i) + " threads"; }, 300, 1);

  uint64_t n = kinds->size();
  static std::vector<std::pair<int, int>> pairs, rpairs;
  for (int a = 0; a < int(n); ++a) for (int b = a; b < int(n); ++b) pairs.push_back({a, b});
  for (int a = 0; a < kReaders; ++a) for (int b = a; b < kReaders; ++b) rpairs.push_back({a, b});
  c.Add("pairs", pairs.size() * 2, [](uint64_t i, Ctx& ctx) {
    bool warm = Take(i, 2); const Kind &a = (*kinds)[pairs[i].first], &b = (*kinds)[pairs[i].second];
    str e = Both({&a, &b}, warm, ctx, max_runs);
    if (!e.empty()) ctx.Fail(str(a.name) + " and " + b.name + ": " + e);
  }, [](uint64_t i) { bool warm = Take(i, 2); const Kind &a = (*kinds)[pairs[i].first], &b = (*kinds)[pairs[i].second]; return str(a.name) + " beside " + b.name + (warm ? ", after a first use" : ", at first use"); }, 300, 1);
  c.Add("readers of one database", rpairs.size() * 4, [](uint64_t i, Ctx& ctx) {
    bool warm = Take(i, 2); int f = int(Take(i, 2)) * kReaders; const Kind &a = (*readers)[f + rpairs[i].first], &b = (*readers)[f + rpairs[i].second];
    str e = Both({&a, &b}, warm, ctx, max_runs);
    if (!e.empty()) ctx.Fail(str(a.name) + " and " + b.name + " of one database: " + e);
  }, [](uint64_t i) { bool warm = Take(i, 2); int f = int(Take(i, 2)) * kReaders; const Kind &a = (*readers)[f + rpairs[i].first], &b = (*readers)[f + rpairs[i].second]; return str(a.name) + " beside " + b.name + " of one database" + (warm ? ", after a first use" : ", at first use"); }, 300, 1);
  static std::vector<std::vector<int>> triples;
  for (int a = 0; a < int(n); ++a) for (int b = a; b < int(n); ++b) for (int x = b; x < int(n); ++x) triples.push_back({a, b, x});
  if (!q) c.Add("triples", triples.size(), [](uint64_t i, Ctx& ctx) {
    auto& t = triples[i];
    str e = Both({&(*kinds)[t[0]], &(*kinds)[t[1]], &(*kinds)[t[2]]}, false, ctx, 1000, false);
    if (!e.empty()) ctx.Fail(str((*kinds)[t[0]].name) + ", " + (*kinds)[t[1]].name + " and " + (*kinds)[t[2]].name + ": " + e);
  }, [](uint64_t i) { auto& t = triples[i]; return str((*kinds)[t[0]].name) + ", " + (*kinds)[t[1]].name + ", " + (*kinds)[t[2]].name; }, 300, 1);
  c.notes.push_back({"interleavings per triple", "the first 1000 of each round, in depth-first order; pairs: all"});
}

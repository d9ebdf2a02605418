// C08: importing any file whatsoever ends in a database or an exception.
#include <algorithm>
#include <atomic>
#include <sstream>

#include "base64.hh"
#include "faults.hh"
#include "deviate.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "ref.hh"
#include "streams.hh"

#if defined(__SANITIZE_ADDRESS__)
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                              void (*)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void*);
}
#endif

using namespace mc;

namespace {

// Heap use while a file is handled.
size_t g_now, g_peak; bool g_count;
void OnMalloc(const volatile void* p, size_t n) { if (g_count) { g_now += n; if (g_now > g_peak) g_peak = g_now; } }
void OnFree(const volatile void* p) {
#if defined(__SANITIZE_ADDRESS__)
  if (g_count && p) { size_t n = __sanitizer_get_allocated_size(const_cast<const void*>(p)); g_now = g_now > n ? g_now - n : 0; }
#endif
}

ref::KeySpec g_key;

// Everything that can be done with a database.
void Use(const keepass::Database& db, Ctx& ctx) {
  if (db.root()) {
    MDb m = Extract(db);
    ctx.State(Fingerprint(Flatten(m)));
    str json;
    Outcome o = Attempt([&] { json = db.root()->ToJson(); });
    Outcome eq = Attempt([&] { if (!(*db.root() == *db.root())) throw std::logic_error("a group differs from itself"); });
    if (!eq.ok) ctx.Fail(eq.what);
  }
  Outcome a = ExportKdbx(scratch + "/x.kdbx", db, ref::LibKey(g_key));
  Outcome b = ExportKdb(scratch + "/x.kdb", db, ref::LibKey(g_key));
  ctx.Trans(3);
  // What was exported is a file like any other.
  if (a.ok) { Outcome c = ImportKdbx(scratch + "/x.kdbx", ref::LibKey(g_key)); ctx.Trans(); if (c.ok && c.db->root()) c.db->root()->ToJson(); }
  if (b.ok) { Outcome c = ImportKdb(scratch + "/x.kdb", ref::LibKey(g_key)); ctx.Trans(); if (c.ok && c.db->root()) c.db->root()->ToJson(); }
}
void Open(const str& file, bool x, Ctx& ctx, bool use = true) {
  WriteFile(scratch + "/f", file);
  g_now = g_peak = 0; g_count = true;
  Outcome im = x ? ImportKdbx(scratch + "/f", ref::LibKey(g_key)) : ImportKdb(scratch + "/f", ref::LibKey(g_key));
  g_count = false;
  ctx.Trans(); ctx.Trace();
  if (g_peak > (size_t(48) << 20) + 3000 * file.size()) return ctx.Fail("importing a file of " + Num(file.size()) + " bytes takes " + Num(g_peak) + " bytes of memory");
  if (!im.ok) { ctx.State(im.kind + im.what); return; }
  ctx.Nontrivial();
  if (!im.db) return ctx.Fail("the import returned nothing");
  if (use) Use(*im.db, ctx);
}

// ---------------------------------------------------------------- KDB
struct Field { uint16_t type; uint32_t size; str data; };
typedef std::vector<std::vector<Field>> Records;
struct KdbDoc { Records groups, entries; MDb m; };
str Content(const KdbDoc& d) {
  str o;
  for (auto list : {&d.groups, &d.entries}) for (auto& r : *list) for (auto& f : r) o += ref::Le16(f.type) + ref::Le32(f.size) + f.data;
  return o;
}
KdbDoc Doc(const MDb& m, const ref::KdbOpt& o = ref::KdbOpt()) {
  std::vector<ref::KdbRecord> g, e;
  ref::KdbRecords(m, o, &g, &e);
  KdbDoc d; d.m = m;
  auto conv = [](const std::vector<ref::KdbRecord>& from, Records* to) { for (auto& r : from) { to->push_back({}); for (auto& f : r.fields) to->back().push_back(Field{f.first, uint32_t(f.second.size()), f.second}); } };
  conv(g, &d.groups); conv(e, &d.entries);
  return d;
}
void OpenKdbDoc(const KdbDoc& d, Ctx& ctx) { Open(ref::KdbWrap(d.m, g_key, ref::KdbOpt(), Content(d), uint32_t(d.groups.size()), uint32_t(d.entries.size())), false, ctx); }

const uint32_t kSizes[] = {0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu};
const uint16_t kTypes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x7fff, 0x8000, 0xfffe, 0xffff};

// Single changes of a field: declared sizes with the data as it was, data and size changed together, types, removal, doubling, data bytes.
const int kNumFieldOps = 15 + 8 + 21 + 2 + 8;
str FieldOp(std::vector<Field>& r, size_t at, int op) {
  Field& f = r[at];
  if (op < 15) { f.size = kSizes[op]; return "declared size " + Num(f.size); }
  op -= 15;
  if (op < 8) { static const int n[] = {0, 1, 2, 3, 5, 6, 16, 33}; f.data = f.data.substr(0, size_t(n[op])); f.data.resize(size_t(n[op]), '\x11'); f.size = uint32_t(n[op]); return "size " + Num(f.size); }
  op -= 8;
  if (op < 21) { f.type = kTypes[op]; return "type " + Num(f.type); }
  op -= 21;
  if (op == 0) { r.erase(r.begin() + at); return "removed"; }
  if (op == 1) { Field g = f; r.insert(r.begin() + at, g); return "doubled"; }
  op -= 2;
  static const int v[] = {0, 1, 0x7f, 0x80, 0xff, 0x22, 0x3f, 0xc0};
  for (auto& ch : f.data) ch = char(v[op]);
  return "all bytes " + Num(v[op]);
}
struct Place { bool entry; size_t rec, field; };
std::vector<Place> Places(const KdbDoc& d) {
  std::vector<Place> p;
  for (size_t r = 0; r < d.groups.size(); ++r) for (size_t f = 0; f < d.groups[r].size(); ++f) p.push_back(Place{false, r, f});
  for (size_t r = 0; r < d.entries.size(); ++r) for (size_t f = 0; f < d.entries[r].size(); ++f) p.push_back(Place{true, r, f});
  return p;
}

// ---------------------------------------------------------------- XML
void Serialize(const ref::Node& n, str& o) {
  auto esc = [](const str& s) { str r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else r += c; } return r; };
  o += "<" + n.name;
  for (auto& a : n.attrs) o += " " + a.first + "=\"" + esc(a.second) + "\"";
  if (n.kids.empty() && n.text.empty()) { o += "/>"; return; }
  o += ">" + esc(n.text);
  for (auto& k : n.kids) Serialize(k, o);
  o += "</" + n.name + ">";
}
void Paths(const ref::Node& n, std::vector<size_t>& at, std::vector<std::vector<size_t>>& out) { out.push_back(at); for (size_t k = 0; k < n.kids.size(); ++k) { at.push_back(k); Paths(n.kids[k], at, out); at.pop_back(); } }
ref::Node* At(ref::Node& n, const std::vector<size_t>& p, size_t depth) { ref::Node* x = &n; for (size_t k = 0; k < depth; ++k) { if (p[k] >= x->kids.size()) return nullptr; x = &x->kids[p[k]]; } return x; }

std::vector<str> Values() {
  auto b = [](size_t n) { return ref::Base64(TestData(n, 0)); };
  return {"", " ", "x", "0", "-1", "1", "99999999999999999999", "-99999999999999999999", "1e5", "0x10", "True", "maybe", "AAAA", "AA==", "=", "====", "!!!!", "AAA", b(1), b(15), b(16), b(17), b(31), b(32), b(33), b(100),
          str("AAAAAAAAAAAAAAAAAAAAAA=="), "2014-01-01T00:00:00Z", "2014-13-45T99:99:99Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:59Z", "99999-12-31T23:59:59Z", "-1-1-1T1:1:1", "2014-01-01T00:00:00", "2014-01-01T00:00:00+01:00", "T", str(5000, 'A'), "\xff\xfe\x80", "\xc3",
          "2147483648", "4294967296", "9223372036854775808"};
}
const char* kNames[] = {"Group", "Entry", "UUID", "Name", "History", "Binary", "String", "Times", "Root", "Meta", "Value", "Key", "Bogus"};
std::vector<str> g_values;
int XmlOps() { return int(g_values.size()) + 6 + 13 + 12; }
// Returns false if the operation does not apply.
bool XmlOp(ref::Node& root, const std::vector<size_t>& path, int op, str* what) {
  ref::Node* n = At(root, path, path.size());
  ref::Node* parent = path.empty() ? nullptr : At(root, path, path.size() - 1);
  if (!n) return false;
  size_t at = path.empty() ? 0 : path.back();
  if (op < int(g_values.size())) { *what = "text " + Quote(g_values[op], 30); if (n->text == g_values[op] && n->kids.empty()) return false; n->text = g_values[op]; n->kids.clear(); return true; }
  op -= int(g_values.size());
  switch (op) {
    case 0: if (!parent) return false; *what = "removed"; parent->kids.erase(parent->kids.begin() + at); return true;
    case 1: { if (!parent) return false; *what = "doubled"; ref::Node c = *n; parent->kids.insert(parent->kids.begin() + at, c); return true; }
    case 2: { if (!parent || at + 1 >= parent->kids.size()) return false; *what = "swapped with the next"; std::swap(parent->kids[at], parent->kids[at + 1]); return true; }
    case 3: { *what = "nested in a copy of itself"; ref::Node c = *n; n->kids.push_back(c); return true; }
    case 4: { if (!parent) return false; *what = "moved up"; if (path.size() < 2) return false; ref::Node c = *n; parent->kids.erase(parent->kids.begin() + at); At(root, path, path.size() - 2)->kids.push_back(c); return true; }
    case 5: { if (!parent || n->kids.empty()) return false; *what = "replaced by its children"; auto k = n->kids; parent->kids.erase(parent->kids.begin() + at); parent->kids.insert(parent->kids.begin() + at, k.begin(), k.end()); return true; }
  }
  op -= 6;
  if (op < 13) { if (n->name == kNames[op]) return false; *what = str("renamed ") + kNames[op]; n->name = kNames[op]; return true; }
  op -= 13;
  static const char* attr[][2] = {{"Protected", "True"}, {"Protected", "False"}, {"Protected", "x"}, {"Compressed", "True"}, {"Compressed", "False"}, {"Ref", ""}, {"Ref", "0"}, {"Ref", "999"}, {"ID", ""}, {"ID", "0"}, {"ProtectedInMemory", "True"}, {nullptr, nullptr}};
  if (!attr[op][0]) { if (n->attrs.empty()) return false; *what = "attributes removed"; n->attrs.clear(); return true; }
  *what = str(attr[op][0]) + "=" + attr[op][1];
  for (auto& a : n->attrs) if (a.first == attr[op][0]) { if (a.second == attr[op][1]) return false; a.second = attr[op][1]; return true; }
  n->attrs.push_back({attr[op][0], attr[op][1]});
  return true;
}

struct Kdbx {
  MDb m; str start, header, xml;
  explicit Kdbx(const MDb& d) : m(d) { start = ref::Sha256("start"); header = ref::KdbxHeader(m, ref::KdbxOpt(), start); xml = ref::KdbxXml(m, ref::KdbxOpt(), ref::Sha256(header)); }
  str WithXml(const str& x) const { return ref::KdbxWrap(m, g_key, ref::KdbxOpt(), header, start, x); }
  str WithPlain(const str& p) const { return header + ref::AesCbcEncRaw(ref::FinalKey(m, g_key, true), str((const char*)m.iv.data(), 16), ref::Pad(p)); }
};

// ---------------------------------------------------------------- time
const char* const kMoreName[] = {"characters of a text", "characters of a protected text", "bytes of a compressed attachment", "blocks of one byte", "unknown elements", "line breaks within base64",
                                 "header fields", "characters to be escaped"};
str BigFile(int kind, int n, bool x) {
  if (!x) {
    ref::KdbOpt o;
    if (kind < 3) return ref::EncodeKdb(ManyDb(kind, n, false), g_key, o);
    MDb m = SmallDb(); m.master_seed.resize(16, 's');
    if (kind == 3) m.root.groups[0].entries[0].notes.v = str(size_t(n) * 100, 'n');
    if (kind == 4) {
      KdbDoc d = Doc(m);
      d.entries[0].insert(d.entries[0].begin(), size_t(n), Field{0, 3, "abc"});
      return ref::KdbWrap(m, g_key, o, Content(d), uint32_t(d.groups.size()), uint32_t(d.entries.size()));
    }
    if (kind == 5) { std::vector<int> depths; for (int k = 0; k < n; ++k) depths.push_back(k % 200 < 100 ? k % 100 : 100 - k % 100); SetForest(m.root, depths); }
    if (kind == 6) o.ids = 3, m = ManyDb(2, n, false);
    return ref::EncodeKdb(m, g_key, o);
  }
  ref::KdbxOpt o;
  if (kind < 10) return ref::EncodeKdbx(ManyDb(kind, n, true), g_key, o);
  kind -= 10;
  MDb m = SmallDb();
  MEntry& e = m.root.groups[0].entries[0];
  size_t len = size_t(n) * 100;
  if (kind == 0) e.notes.v = str(len, 'n');
  if (kind == 1) e.notes = MStr(str(len, 'n'), true);
  if (kind == 2) { MBin b; b.data = str(len, 'b'); b.compress = true; m.bins.push_back(b); m.pooled = 1; e.atts.push_back(MAtt{"a", 0}); }
  if (kind == 3) { e.notes.v = str(size_t(n), 'n'); o.block_sizes = {1}; }
  if (kind == 5) { MBin b; b.data = str(size_t(n) * 3, 'b'); m.bins.push_back(b); m.pooled = 1; e.atts.push_back(MAtt{"a", 0}); o.b64_wrap = 4; }
  if (kind == 7) e.notes.v = str(len / 4, '"');
  str start(32, 's'), header = ref::KdbxHeader(m, o, start);
  if (kind == 6) { str c; for (int k = 0; k < n; ++k) c += str("\x03\x04\0\0\0\0\0", 7); header.insert(12, c); }
  str xml = ref::KdbxXml(m, o, ref::Sha256(header));
  if (kind == 4) { str u; for (int k = 0; k < n; ++k) u += "<Unknown/>"; xml.insert(xml.find("<Meta>") + 6, u); xml.insert(xml.find("<Group>") + 7, u); xml.insert(xml.find("<Entry>") + 7, u); }
  return ref::KdbxWrap(m, g_key, o, header, start, xml);
}
double Cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
// Seconds that each operation takes.
const char* const kTimed[] = {"importing it", "printing the database", "comparing the database", "exporting to KDBX", "exporting to KDB"};
std::vector<double> Times(const str& path, bool x, Outcome* im) {
  std::vector<double> r;
  auto timed = [&](std::function<void()> f) { double t = Cpu(); f(); r.push_back(Cpu() - t); };
  timed([&] { *im = x ? ImportKdbx(path, ref::LibKey(g_key)) : ImportKdb(path, ref::LibKey(g_key)); });
  if (!im->ok || !im->db) return r;
  auto root = im->db->root();
  timed([&] { root->ToJson(); });
  timed([&] { if (*root != *root) abort(); });
  timed([&] { ExportKdbx(scratch + "/x.kdbx", *im->db, ref::LibKey(g_key)); });
  timed([&] { ExportKdb(scratch + "/x.kdb", *im->db, ref::LibKey(g_key)); });
  return r;
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C08";
  c.level = "fault_enumeration";
  c.rule = "Malformed files made by the reference encoder so that they decrypt and authenticate: KDB records (declared and real sizes, types, removal, doubling, values of every field of every "
           "record, truncation at and change of every content byte, header counts, all short sequences of levels and identifiers), KDBX header fields (size, id, value, removal, doubling), XML "
           "elements (removal, doubling, nesting, moving, renaming, attributes, an alphabet of texts in every element), XML cut at and changed in every byte, block and gzip layers, all short "
           "raw files, nesting up to 100000; import, traverse, print, export to both formats and import again under AddressSanitizer, UBSan, asserts and a heap limit";
  c.assumptions = {"files that ask for more than 2^20 transform rounds are left out (time only)", "memory in proportion: 48 MB plus 3000 times the file size (the greatest ratio of gzip is about 1030)"};
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree);
#endif
  g_values = Values();

  // ------------------------------------------------ raw files
  c.Add("raw files", 1 + 256 + 200 * 6 * 2, [](uint64_t i, Ctx& ctx) {
    if (i == 0) { Open("", true, ctx); Open("", false, ctx); return; }
    if (i <= 256) { Open(str(1, char(i - 1)), true, ctx); Open(str(1, char(i - 1)), false, ctx); return; }
    i -= 257;
    bool x = Take(i, 2); int kind = int(Take(i, 6)); size_t n = size_t(i);
    str sig = ref::Le32(0x9aa2d903) + ref::Le32(x ? 0xb54bfb67 : 0xb54bfb65) + (x ? ref::Le32(0x00030001) : ref::Le32(2) + ref::Le32(0x00030003));
    str body = kind == 0 ? str(n, 0) : kind == 1 ? str(n, char(0xff)) : kind == 2 ? TestData(n, 1) : kind == 3 ? str(n, 1) : kind == 4 ? str(n, 9) : TestData(n, 0);
    str f = sig + body;
    if ((x ? KdbxRounds(f) : KdbRounds(f)) > kMostRounds) return;
    Open(f, x, ctx);
  });
  c.Add("no such file", 4, [](uint64_t i, Ctx& ctx) {
    str p = i < 2 ? scratch + "/missing" : scratch;
    Outcome o = i % 2 ? ImportKdb(p, ref::LibKey(g_key)) : ImportKdbx(p, ref::LibKey(g_key));
    ctx.Trans();
    if (o.ok) ctx.Fail("importing nothing succeeded");
  });

  // ------------------------------------------------ KDB
  static std::vector<KdbDoc> docs;
  { MDb r = RichKdb(); r.rounds = 1; docs.push_back(Doc(r)); MDb s = SmallDb(); s.rounds = 1; docs.push_back(Doc(s)); MDb t = SmallDb(); t.rounds = 1; t.twofish = true; docs.push_back(Doc(t)); }
  static std::vector<std::vector<Place>> places;
  for (auto& d : docs) places.push_back(Places(d));
  for (size_t k = 0; k < docs.size(); ++k) {
    str n = k == 0 ? "all fields" : k == 1 ? "small" : "Twofish";
    if (k != 2) c.Add("KDB fields, " + n, places[k].size() * kNumFieldOps, [=](uint64_t i, Ctx& ctx) {
      int op = int(Take(i, kNumFieldOps)); Place p = places[k][i];
      KdbDoc d = docs[k];
      FieldOp((p.entry ? d.entries : d.groups)[p.rec], p.field, op);
      OpenKdbDoc(d, ctx);
    }, [=](uint64_t i) { int op = int(Take(i, kNumFieldOps)); Place p = places[k][i]; KdbDoc d = docs[k]; str w = FieldOp((p.entry ? d.entries : d.groups)[p.rec], p.field, op); return str(p.entry ? "entry " : "group ") + Num(p.rec) + " field " + Num(p.field) + ": " + w; });
    str content = Content(docs[k]);
    uint32_t ng = uint32_t(docs[k].groups.size()), ne = uint32_t(docs[k].entries.size());
    c.Add("KDB content cut, " + n, content.size(), [=](uint64_t i, Ctx& ctx) { Open(ref::KdbWrap(docs[k].m, g_key, ref::KdbOpt(), content.substr(0, size_t(i)), ng, ne), false, ctx); });
    c.Add("KDB content bytes, " + n, content.size() * 13, [=](uint64_t i, Ctx& ctx) {
      int op = int(Take(i, 13)); str s = content; static const int v[] = {0, 1, 0x7f, 0x80, 0xff};
      char old = s[i]; s[i] = op < 8 ? char(old ^ (1 << op)) : char(v[op - 8]);
      if (s[i] == old) return;
      Open(ref::KdbWrap(docs[k].m, g_key, ref::KdbOpt(), s, ng, ne), false, ctx, op % 2 == 0);
    });
    c.Add("KDB counts, " + n, 14 * 14, [=](uint64_t i, Ctx& ctx) {
      auto count = [](uint64_t v) { return v < 11 ? uint32_t(v) : v == 11 ? 0xffffffffu : v == 12 ? 0x80000000u : 0x10000u; };
      uint32_t g = count(Take(i, 14)), e = count(i);
      Open(ref::KdbWrap(docs[k].m, g_key, ref::KdbOpt(), content, g, e), false, ctx);
    });
  }
  c.Add("KDB pairs of field changes", [&] { uint64_t n = places[1].size() * kNumFieldOps; return Quick() ? places[1].size() * places[1].size() * 10 * 10 : n * n; }(), [](uint64_t i, Ctx& ctx) {
    static const int few[] = {0, 4, 14, 15, 16, 20, 25, 43, 44, 45};
    int ops = Quick() ? 10 : kNumFieldOps; size_t np = places[1].size();
    int a = int(Take(i, ops)), b = int(Take(i, ops)); size_t x = size_t(Take(i, np)), y = size_t(i);
    if (x >= y) return;
    KdbDoc d = docs[1];
    Place p = places[1][x], q = places[1][y];
    // the later place first, so that the earlier one stays where it is
    FieldOp((q.entry ? d.entries : d.groups)[q.rec], q.field, Quick() ? few[b] : b);
    FieldOp((p.entry ? d.entries : d.groups)[p.rec], p.field, Quick() ? few[a] : a);
    OpenKdbDoc(d, ctx);
  }, nullptr, 30, 256);
  // Group levels and identifiers.
  static const uint16_t levels[] = {0, 1, 2, 3, 0x7fff, 0xffff};
  const int ng = Quick() ? 5 : 6;
  uint64_t nl = 0, pw = 1;
  for (int k = 0; k <= ng; ++k) { nl += pw; pw *= 6; }
  c.Add("KDB levels", nl, [=](uint64_t i, Ctx& ctx) {
    int n = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 6; ++n; }
    KdbDoc d; d.m = docs[1].m;
    for (int k = 0; k < n; ++k) d.groups.push_back({Field{1, 4, ref::Le32(uint32_t(k + 1))}, Field{2, 2, str("g\0", 2)}, Field{8, 2, ref::Le16(levels[Take(i, 6)])}, Field{0xffff, 0, ""}});
    OpenKdbDoc(d, ctx);
  });
  c.Add("KDB identifiers", 3 * 3 * 3 * 5 * 5 * 3, [](uint64_t i, Ctx& ctx) {
    static const uint32_t ids[] = {1, 2, 0xffffffffu, 0, 7};
    KdbDoc d; d.m = docs[1].m;
    uint32_t g[3]; for (auto& x : g) x = ids[Take(i, 3)];
    uint32_t e[2]; for (auto& x : e) x = ids[Take(i, 5)];
    for (int k = 0; k < 3; ++k) { d.groups.push_back({Field{1, 4, ref::Le32(g[k])}, Field{8, 2, ref::Le16(uint16_t(k * i / 2))}, Field{0xffff, 0, ""}}); }
    for (int k = 0; k < 2; ++k) d.entries.push_back({Field{1, 16, str(16, char(k))}, Field{2, 4, ref::Le32(e[k])}, Field{4, 1, str(1, 0)}, Field{0xffff, 0, ""}});
    OpenKdbDoc(d, ctx);
  });
  // All times over a byte alphabet, a batch of entries each.
  static const uint8_t tb[] = {0, 1, 0x0f, 0x1f, 0x2e, 0x7f, 0x80, 0xdf, 0xff};
  c.Add("KDB times", 9 * 9 * 9, [](uint64_t i, Ctx& ctx) {
    str t; for (int k = 0; k < 3; ++k) t += char(tb[Take(i, 9)]);
    KdbDoc d; d.m = docs[1].m; d.groups = docs[1].groups;
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) {
      str x = t; x += char(tb[a]); x += char(tb[b]);
      d.entries.push_back({Field{1, 16, str(16, char(a * 9 + b))}, Field{2, 4, docs[1].groups[0][0].data}, Field{9, 5, x}, Field{10, 5, x}, Field{11, 5, x}, Field{12, 5, x}, Field{0xffff, 0, ""}});
    }
    OpenKdbDoc(d, ctx);
  });
  c.Add("KDB nesting", 16, [](uint64_t i, Ctx& ctx) {
    static const int n[] = {1, 2, 10, 50, 100, 200, 255, 256, 257, 258, 259, 1000, 5000, 30000, 65535, 65536};
    KdbDoc d; d.m = docs[1].m;
    for (int k = 0; k < n[i]; ++k) d.groups.push_back({Field{1, 4, ref::Le32(uint32_t(k + 1))}, Field{2, 2, str("g\0", 2)}, Field{8, 2, ref::Le16(uint16_t(k))}, Field{0xffff, 0, ""}});
    OpenKdbDoc(d, ctx);
  }, nullptr, 120, 1);

  // ------------------------------------------------ KDBX header
  static std::vector<Kdbx> xs;
  for (int k = 0; k < 3; ++k) { MDb m = k == 0 ? RichDb() : SmallDb(); m.rounds = 1; m.compress = k == 2; xs.push_back(Kdbx(m)); }
  static std::vector<std::pair<int, str>> fields;
  for (size_t p = 12; p < xs[1].header.size();) { size_t n = size_t(ref::Le(xs[1].header, p + 1, 2)); fields.push_back({uint8_t(xs[1].header[p]), xs[1].header.substr(p + 3, n)}); p += 3 + n; }
  // Mutated header fields; the content is encrypted as the header then says, as far as that makes sense.
  struct HOp { int at, op; };
  static const int kHOps = 10 + 14 + 2 + 8 + 6;
  auto mutate = [](std::vector<std::pair<int, str>>& fs, size_t at, int op, int* declared) {
    if (op < 10) { static const int n[] = {0, 1, 2, 3, 4, 7, 15, 31, 33, 300}; fs[at].second.resize(size_t(n[op]), '\x21'); }
    else if ((op -= 10) < 14) { static const int id[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 127, 255}; fs[at].first = id[op]; }
    else if ((op -= 14) == 0) fs.erase(fs.begin() + at);
    else if (op == 1) { auto f = fs[at]; fs.insert(fs.begin() + at, f); }
    else if ((op -= 2) < 8) { static const int v[] = {0, 1, 2, 3, 4, 0x7f, 0x80, 0xff}; str& s = fs[at].second; if (fs[at].first == 6) { s = ref::Le64(uint64_t(op) * 1000); } else for (size_t k = 0; k < s.size(); ++k) s[k] = char(s.size() <= 4 && k ? 0 : v[op]); }
    else { op -= 8; static const int n[] = {0, 1, 3, 100, 1000, 65535}; *declared = n[op]; }
  };
  auto make = [](const std::vector<std::pair<int, str>>& fs, int at, int declared) {
    MDb m = xs[1].m;
    str h = xs[1].header.substr(0, 12), start = xs[1].start;
    for (size_t k = 0; k < fs.size(); ++k) {
      h += char(fs[k].first) + ref::Le16(int(k) == at && declared >= 0 ? uint16_t(declared) : uint16_t(fs[k].second.size())) + fs[k].second;
      const str& s = fs[k].second;
      if (fs[k].first == 4) m.master_seed = s;
      if (fs[k].first == 5 && s.size() == 32) memcpy(m.tseed.data(), s.data(), 32);
      if (fs[k].first == 6 && s.size() == 8) m.rounds = ref::Le(s, 0, 8);
      if (fs[k].first == 7 && s.size() == 16) memcpy(m.iv.data(), s.data(), 16);
      if (fs[k].first == 9) { start = s; start.resize(32, 0); }
      if (fs[k].first == 3 && s.size() == 4) m.compress = ref::Le(s, 0, 4) == 1;
    }
    if (m.rounds > kMostRounds || KdbxRounds(h) > kMostRounds) return str();
    return ref::KdbxWrap(m, g_key, ref::KdbxOpt(), h, start, ref::KdbxXml(m, ref::KdbxOpt(), ref::Sha256(h)));
  };
  c.Add("KDBX header fields", fields.size() * kHOps, [=](uint64_t i, Ctx& ctx) {
    int op = int(Take(i, kHOps)), declared = -1; auto fs = fields;
    mutate(fs, size_t(i), op, &declared);
    str f = make(fs, int(i), declared);
    if (!f.empty()) Open(f, true, ctx);
  });
  c.Add("KDBX pairs of header fields", fields.size() * fields.size() * kHOps * kHOps, [=](uint64_t i, Ctx& ctx) {
    int a = int(Take(i, kHOps)), b = int(Take(i, kHOps)), declared = -1, dummy = -1; size_t x = size_t(Take(i, fields.size())), y = size_t(i);
    if (x >= y || a >= 34) return;
    if (Quick() && (a % 3 || b % 3)) return;
    auto fs = fields;
    mutate(fs, y, b, &declared);
    int at = int(y);
    size_t before = fs.size();
    mutate(fs, x, a, &dummy);
    at += int(fs.size()) - int(before);
    str f = make(fs, at, declared);
    if (!f.empty()) Open(f, true, ctx);
  }, nullptr, 30, 256);
  c.Add("KDBX header cut", xs[1].header.size() + 80, [](uint64_t i, Ctx& ctx) { Open((xs[1].header + str(80, 'c')).substr(0, size_t(i)), true, ctx); });
  c.Add("KDBX versions", 64, [](uint64_t i, Ctx& ctx) {
    static const uint16_t v[] = {0, 1, 2, 3, 4, 5, 0x7fff, 0xffff};
    ref::KdbxOpt o; o.version = uint32_t(v[i / 8]) << 16 | v[i % 8];
    MDb m = SmallDb(); m.rounds = 1;
    Open(ref::EncodeKdbx(m, g_key, o), true, ctx);
  });

  // ------------------------------------------------ XML
  static std::vector<ref::Node> trees(xs.size());
  static std::vector<std::vector<std::vector<size_t>>> paths(xs.size());
  for (size_t k = 0; k < xs.size(); ++k) { str e; std::vector<size_t> at; if (!ref::ParseXml(xs[k].xml, &trees[k], &e)) { fprintf(stderr, "harness: %s\n", e.c_str()); exit(97); } Paths(trees[k], at, paths[k]); }
  for (size_t k = 0; k < 2; ++k) {
    str n = k == 0 ? "all fields" : "small";
    c.Add("XML elements, " + n, paths[k].size() * XmlOps(), [=](uint64_t i, Ctx& ctx) {
      int op = int(Take(i, XmlOps())); str w;
      ref::Node t = trees[k];
      if (!XmlOp(t, paths[k][i], op, &w)) return;
      str s; Serialize(t, s);
      Open(xs[k].WithXml(s), true, ctx);
    }, [=](uint64_t i) { int op = int(Take(i, XmlOps())); str w; ref::Node t = trees[k]; str name; for (size_t d = 0; d <= paths[k][i].size(); ++d) name += "/" + At(t, paths[k][i], d)->name; XmlOp(t, paths[k][i], op, &w); return name + ": " + w; }, 30, 64);
  }
  static std::vector<int> few;
  { int base = int(g_values.size()); for (int o : {0, 2, 4, 6, 12, 14, 19, 22, 28}) few.push_back(o); for (int o : {0, 1, 2, 3}) few.push_back(base + o); for (int o : {6 + 0, 6 + 1, 6 + 4}) few.push_back(base + o); for (int o : {19 + 0, 19 + 3, 19 + 7, 19 + 11}) few.push_back(base + o); }
  c.Add("XML pairs of elements", paths[1].size() * (paths[1].size() - 1) / 2 * (Quick() ? 16 : few.size() * few.size()), [](uint64_t i, Ctx& ctx) {
    static const int q[4] = {0, 9, 10, 16};                // empty text, removed, doubled, Protected
    int a, b;
    if (Quick()) { a = few[q[Take(i, 4)]]; b = few[q[Take(i, 4)]]; } else { a = few[Take(i, few.size())]; b = few[Take(i, few.size())]; }
    uint64_t x, y; PairOf(i, &x, &y);
    ref::Node t = trees[1]; str w;
    // the later element first: the path of the earlier one stays valid
    if (!XmlOp(t, paths[1][x], a, &w) || !XmlOp(t, paths[1][y], b, &w)) return;
    str s; Serialize(t, s);
    Open(xs[1].WithXml(s), true, ctx);
  }, nullptr, 30, 128);
  for (size_t k = 0; k < 2; ++k) {
    str n = k == 0 ? "all fields" : "small";
    size_t step = k == 0 && Quick() ? 3 : 1;
    c.Add("XML cut, " + n, xs[k].xml.size() / step, [=](uint64_t i, Ctx& ctx) { Open(xs[k].WithXml(xs[k].xml.substr(0, size_t(i) * step)), true, ctx); }, nullptr, 30, 64);
    const int nb = Quick() ? 6 : 16;
    c.Add("XML bytes, " + n, xs[k].xml.size() / step * nb, [=](uint64_t i, Ctx& ctx) {
      static const char v[] = {'<', '>', '&', 0, '"', char(0xff), '/', ' ', ']', '!', '?', '=', ';', char(0x80), '-', '0'};
      char ch = v[Take(i, nb)]; str s = xs[k].xml; i *= step; if (s[i] == ch) return; s[i] = ch;
      Open(xs[k].WithXml(s), true, ctx);
    }, nullptr, 30, 128);
  }
  c.Add("XML documents", 40, [](uint64_t i, Ctx& ctx) {
    static const str docs[] = {"", " ", "<", "<a", "<a>", "<a/>", "<KeePassFile/>", "<KeePassFile></KeePassFile>", "<KeePassFile><Meta/></KeePassFile>", "<KeePassFile><Root/></KeePassFile>",
      "<KeePassFile><Meta/><Root/></KeePassFile>", "<KeePassFile><Meta/><Root><Group/></Root></KeePassFile>", "<KeePassFile><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta/><Root><Group/><Group/></Root></KeePassFile>",
      "<KeePassFile><Meta/><Root><Group><Entry/></Group></Root></KeePassFile>", "<KeePassFile><Meta/><Root><Group><Entry><History><Entry/></History></Entry></Group></Root></KeePassFile>",
      "<KeePassFile><Meta/><Root><Group><Entry><String/></Entry></Group></Root></KeePassFile>", "<KeePassFile><Meta/><Root><Group><Entry><Binary/></Entry></Group></Root></KeePassFile>",
      "<KeePassFile><Meta/><Root><Group><Entry><Binary><Value/></Binary></Entry></Group></Root></KeePassFile>", "<KeePassFile><Meta><Binaries><Binary/></Binaries></Meta><Root><Group/></Root></KeePassFile>",
      "<KeePassFile><Meta><Binaries><Binary Compressed=\"True\"/></Binaries></Meta><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta><CustomIcons><Icon/></CustomIcons></Meta><Root><Group/></Root></KeePassFile>",
      "<KeePassFile><Meta><CustomIcons><Icon><UUID>AA==</UUID><Data>AA==</Data></Icon></CustomIcons></Meta><Root><Group><CustomIconUUID>AA==</CustomIconUUID></Group></Root></KeePassFile>",
      "<!DOCTYPE a [<!ENTITY b \"c\">]><KeePassFile>&b;</KeePassFile>", "<?xml version=\"1.0\" encoding=\"utf-16\"?><a/>", str("\xff\xfe<\0a\0/\0>\0", 10), str("\xfe\xff\0<\0a\0/\0>", 10), str("\0\0\xfe\xff\0\0\0<", 8), "<a>&#0;&#x110000;&#99999999999;&#x;&;</a>",
      "<KeePassFile><Meta/><Root><Group><UUID>AAAA</UUID><LastTopVisibleEntry>AAAA</LastTopVisibleEntry><Entry><UUID>AAAA</UUID></Entry></Group></Root></KeePassFile>",
      "<KeePassFile><Meta><RecycleBinUUID>AAAA</RecycleBinUUID></Meta><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta><RecycleBinUUID>!</RecycleBinUUID></Meta><Root><Group/></Root></KeePassFile>",
      "<KeePassFile><Meta/><Root><Group><Times/></Group></Root></KeePassFile>", "<KeePassFile><Meta/><Root><Group><Entry><AutoType><Association/></AutoType></Entry></Group></Root></KeePassFile>",
      "<![CDATA[x]]>", "<!--", "<KeePassFile><Meta/><Root>text</Root></KeePassFile>", "<KeePassFile/><KeePassFile/>", str(1, 0), str("<KeePassFile>\0</KeePassFile>", 28)};
    // Also with the right header hash, so that nothing stops at it.
    str x = docs[i];
    Open(xs[1].WithXml(x), true, ctx);
    size_t p = x.find("<Meta");
    if (p != str::npos) {
      str h = "<HeaderHash>" + ref::Base64(ref::Sha256(xs[1].header)) + "</HeaderHash>";
      if (x.compare(p, 7, "<Meta/>") == 0) x.replace(p, 7, "<Meta>" + h + "</Meta>"); else x.insert(p + 6, h);
      Open(xs[1].WithXml(x), true, ctx);
    }
  });
  // Eight times as much takes about eight times as long.
  c.Add("growth", 18 + 7, [](uint64_t i, Ctx& ctx) {
    bool x = i < 18; int kind = int(x ? i : i - 18), n = Quick() ? (kind < (x ? 10 : 3) || kind > (x ? 18 : 4) ? 7000 : 20000) : 50000;
    for (int size : {1, 8}) WriteFile(scratch + "/f" + SNum(size), BigFile(kind, n * size, x));
    str worst;
    // Once more if it seems too long: the machine may have been busy.
    for (int attempt = 0; attempt < 2; ++attempt) {
      str text[2]; std::vector<double> t[2]; worst = "";
      for (int big = 0; big < 2 && worst.empty(); ++big) {
        double limit = 60;                               // seconds of processor time
        if (big) { limit = 4; for (double s : t[0]) limit += 14 * s; }
        if (RunsOn([&] { Outcome o; str r; for (double s : Times(scratch + (big ? "/f8" : "/f1"), x, &o)) r += " " + Num(uint64_t(s * 1e6)); return o.ok ? r : "import threw " + o.kind + ": " + o.what; }, int(limit * 1000), &text[big]))
          worst = "importing, printing, comparing and exporting it takes more than " + Num(uint64_t(limit)) + " s" + (big ? ", and for an eighth of it " + text[0] + " us" : "");
        else if (text[big].empty() || text[big][0] != ' ') return ctx.Fail(text[big]);
        std::istringstream in(text[big]); double us; while (in >> us) t[big].push_back(us * 1e-6);
        ctx.Trans(t[big].size());
      }
      for (size_t k = 0; k < t[1].size() && k < t[0].size(); ++k) if (t[1][k] > 20 * t[0][k] + 1) worst = str(kTimed[k]) + " takes " + Num(uint64_t(t[0][k] * 1000)) + " ms, and " + Num(uint64_t(t[1][k] * 1000)) + " ms for eight times as much";
      if (worst.empty()) break;
    }
    ctx.Nontrivial(); ctx.State(Num(i));
    if (!worst.empty()) ctx.Fail(worst);
  }, [](uint64_t i) { bool x = i < 18; int kind = int(x ? i : i - 18); static const char* const kdb[] = {"characters of a text", "comments in an entry", "nested groups", "groups with large identifiers"};
    return str(x ? "KDBX" : "KDB") + " file with many " + (kind < (x ? 10 : 3) ? kManyName[kind] : x ? kMoreName[kind - 10] : kdb[kind - 3]); }, 900, 1);
  c.Add("nesting", 20 * 5, [](uint64_t i, Ctx& ctx) {
    static const int depth[] = {1, 2, 10, 50, 100, 120, 124, 125, 126, 127, 128, 200, 250, 254, 256, 300, 1000, 10000, 30000, 100000};
    int kind = int(Take(i, 5)), n = depth[i];
    str open, close, head = "<KeePassFile><Meta><HeaderHash>" + ref::Base64(ref::Sha256(xs[1].header)) + "</HeaderHash></Meta><Root>", tail = "</Root></KeePassFile>";
    auto rep = [](const str& s, int k) { str r; for (int j = 0; j < k; ++j) r += s; return r; };
    if (kind == 0) { open = rep("<Group><Name>g</Name>", n); close = rep("</Group>", n); }
    if (kind == 1) { open = "<Group>" + rep("<Entry><History>", n); close = rep("</History></Entry>", n) + "</Group>"; }
    if (kind == 2) { open = "<Group>" + rep("<Bogus>", n); close = rep("</Bogus>", n) + "</Group>"; }
    if (kind == 3) { open = rep("<Group>", n); close = ""; }
    if (kind == 4) { open = rep("<Group><Entry/>", n / 2) + rep("<Group>", n - n / 2) + rep("<Entry><History>", n / 2); close = rep("</History></Entry>", n / 2) + rep("</Group>", n); }
    Open(xs[1].WithXml(head + open + close + tail), true, ctx);
  }, nullptr, 120, 1);

  // ------------------------------------------------ block and gzip layers, compressed binaries
  for (size_t k = 1; k < 3; ++k) {
    str n = k == 1 ? "" : ", compressed";
    str payload = k == 2 ? ref::Gzip(xs[k].xml) : xs[k].xml;
    str plain = xs[k].start + ref::HashedBlocks(payload, {900});
    c.Add("plain text cut" + n, plain.size(), [=](uint64_t i, Ctx& ctx) { Open(xs[k].WithPlain(plain.substr(0, size_t(i))), true, ctx); });
    c.Add("plain text bytes" + n, plain.size() * 4, [=](uint64_t i, Ctx& ctx) { static const char v[] = {0, char(0xff), char(0x80), 1}; str s = plain; char ch = v[Take(i, 4)]; if (s[i] == ch) return; s[i] = ch; Open(xs[k].WithPlain(s), true, ctx); });
    c.Add("block sizes" + n, 2 * 15, [=](uint64_t i, Ctx& ctx) {
      size_t block = size_t(Take(i, 2)); str s = plain;
      size_t p = 32; if (block) p += 40 + size_t(ref::Le(s, p + 36, 4));
      s.replace(p + 36, 4, ref::Le32(kSizes[i]));
      Open(xs[k].WithPlain(s), true, ctx);
    });
  }
  static str gz;
  gz = ref::Gzip(xs[2].xml);
  auto withgz = [](const str& g) { return xs[2].WithPlain(xs[2].start + ref::HashedBlocks(g, {100000})); };
  c.Add("gzip cut", gz.size() + 40, [=](uint64_t i, Ctx& ctx) { Open(withgz(i < gz.size() ? gz.substr(0, size_t(i)) : gz + str(size_t(i - gz.size()), 'g')), true, ctx); });
  c.Add("gzip bits", gz.size() * 8, [=](uint64_t i, Ctx& ctx) { str g = gz; g[i / 8] ^= char(1 << (i % 8)); Open(withgz(g), true, ctx); });
  c.Add("gzip content", 12, [=](uint64_t i, Ctx& ctx) {
    str g = i == 0 ? ref::Gzip("") : i == 1 ? ref::Gzip(str(20 << 20, 0)) : i == 2 ? ref::Gzip("<a>" + str(20 << 20, ' ') + "</a>") : i == 3 ? gz + gz : i == 4 ? str(100, 0) : i == 5 ? str("\x1f\x8b\x08\0\0\0\0\0\0\0", 10)
          : i == 6 ? ref::Gzip(xs[2].xml.substr(0, 16384)) : i == 7 ? ref::Gzip(str(16384, 'x')) : i == 8 ? ref::Gzip(str(32768, '<')) : i == 9 ? str("\x1f\x8b\x08\x04\0\0\0\0\0\0\xff\xff", 12) : i == 10 ? ref::Gzip(gz) : str("\x1f\x8b\x08\x08", 4) + str(20000, 'n');
    Open(withgz(g), true, ctx);
  }, nullptr, 60);
  // Attachments with compressed data in the pool and inside the entry.
  static str bin;
  bin = ref::Gzip("attachment data attachment data");
  c.Add("compressed attachments", bin.size() * 9 * 2 + 20, [=](uint64_t i, Ctx& ctx) {
    str b = bin; bool pool = Take(i, 2);
    if (i < bin.size()) b.resize(size_t(i)); else if (i < bin.size() * 9) { uint64_t j = i - bin.size(); b[j / 8] ^= char(1 << (j % 8)); } else b = str(size_t(i - bin.size() * 9), 'x');
    str xml = xs[1].xml, data = ref::Base64(b);
    if (pool) { size_t p = xml.find("</Meta>"); xml.insert(p, "<Binaries><Binary ID=\"0\" Compressed=\"True\">" + data + "</Binary></Binaries>"); p = xml.find("</Entry>"); xml.insert(p, "<Binary><Key>k</Key><Value Ref=\"0\"/></Binary>"); }
    else { size_t p = xml.find("</Entry>"); xml.insert(p, "<Binary><Key>k</Key><Value Compressed=\"True\">" + data + "</Value></Binary>"); }
    Open(xs[1].WithXml(xml), true, ctx);
  });
  c.Add("start bytes and short contents", 100, [](uint64_t i, Ctx& ctx) { Open(xs[1].WithPlain((xs[1].start + str(70, 0)).substr(0, size_t(i))), true, ctx); });
}

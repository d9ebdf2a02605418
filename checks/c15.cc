// C15: importers and exporters carry nothing over from one operation to the next.
#include <sys/wait.h>
#include <unistd.h>

#include "kdb.hh"
#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

namespace {

str Text(const Flat& f) { str s; for (auto& p : f) s += p.first + "=" + p.second + "\n"; return s; }
str FirstDifference(const str& a, const str& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t p = a.rfind('\n', i); p = p == str::npos ? 0 : p + 1;
  auto line = [&](const str& s) { return p < s.size() ? s.substr(p, std::min(s.find('\n', i), p + 160) - p) : str("(end)"); };
  return "expected " + Quote(line(a), 200) + ", got " + Quote(line(b), 200);
}

struct File { str name; bool x; str data; bool missing; bool wrong_key; };
std::vector<File> g_files;                                  // import operations
std::vector<MDb> g_models;                                  // databases of the export operations
struct ExportOp { str name; bool x; int model; };
std::vector<ExportOp> g_exports;
std::vector<str> g_expect;                                  // outcome of every fixed operation in a fresh process
ref::KeySpec g_key, g_other;

enum { kLastX = 1000, kLastK, kModifyX, kModifyK, kDropX, kDropK };
std::vector<int> g_ops;                                     // imports, exports (+100), specials

str OpName(int op) {
  if (op == kLastX) return "export of the last imported KDBX database";
  if (op == kLastK) return "export of the last imported KDB database";
  if (op == kModifyX || op == kModifyK) return "modification of the last imported database";
  if (op == kDropX || op == kDropK) return "release of the last imported database";
  return op >= 100 ? g_exports[op - 100].name : g_files[op].name;
}

// KDB has no identifiers of groups: they are made anew by every import.
str Outcomes(bool x, MDb m) { if (!x) for (auto g : Preorder(m.root)) g->uuid = Uuid{}; return Text(Flatten(m)); }

// The objects that are used again and again.
struct World {
  keepass::KdbxFile x;
  keepass::KdbFile k;
  keepass::Key key, other;
  std::vector<std::shared_ptr<keepass::Database>> imported; std::vector<str> flats;
  std::vector<Built> built; std::vector<str> built_flats;
  std::shared_ptr<keepass::Database> last_x, last_k; int last_xi = -1, last_ki = -1;
  World() : key(ref::LibKey(g_key)), other(ref::LibKey(g_other)) {
    for (auto& m : g_models) { built.push_back(Build(m)); built_flats.push_back(Text(Flatten(Extract(*built.back().db)))); }
    for (size_t i = 0; i < g_files.size(); ++i) if (!g_files[i].missing) { str p = scratch + "/in" + Num(i); if (access(p.c_str(), F_OK) != 0) WriteFile(p, g_files[i].data); }
  }
  str Export(bool x_, const keepass::Database& db, const str& path) {
    Outcome o = Attempt([&] { if (x_) x.Export(path, db, key); else k.Export(path, db, key); });
    if (!o.ok) return "threw " + o.kind;
    MDb m; str err = x_ ? ref::DecodeKdbx(ReadFile(path), g_key, &m) : ref::DecodeKdb(ReadFile(path), g_key, &m);
    if (!err.empty()) return "wrote a bad file: " + err;
    return Outcomes(x_, m);
  }
  // Outcome of a fixed operation.
  str Fixed(int op) {
    if (op >= 100) return Export(g_exports[op - 100].x, *built[g_exports[op - 100].model].db, scratch + (g_exports[op - 100].x ? "/out.kdbx" : "/out.kdb"));
    const File& f = g_files[op];
    str path = f.missing ? scratch + "/missing/file" : scratch + "/in" + Num(uint64_t(op));
    std::shared_ptr<keepass::Database> db;
    Outcome o = Attempt([&] { db = f.x ? x.Import(path, f.wrong_key ? other : key) : k.Import(path, f.wrong_key ? other : key); });
    if (!o.ok) return "threw " + o.kind;
    str flat = Text(Flatten(Extract(*db)));
    imported.push_back(db); flats.push_back(flat);
    (f.x ? last_x : last_k) = db; (f.x ? last_xi : last_ki) = int(imported.size()) - 1;
    return Outcomes(f.x, Extract(*db));
  }
  void Modify(keepass::Database& db, int index) {
    auto root = db.root();
    root->set_name("modified");
    auto g = std::make_shared<keepass::Group>(); g->set_name("added"); g->set_icon(3);
    auto e = std::make_shared<keepass::Entry>(); e->set_title(keepass::protect<std::string>("added entry", false));
    auto a = std::make_shared<keepass::Entry::Attachment>(); a->set_name("added attachment"); auto b = std::make_shared<keepass::Binary>(keepass::protect<std::string>("added data", false)); a->set_binary(b); e->AddAttachment(a);
    g->AddEntry(e); root->AddGroup(g);
    if (db.meta()) {
      db.meta()->AddBinary(b);
      auto icon = std::make_shared<keepass::Icon>(MakeUuid(77), std::vector<uint8_t>{1, 2, 3}); db.meta()->AddIcon(icon); g->set_custom_icon(icon);
      db.meta()->set_recycle_bin(g);
    }
    flats[index] = Text(Flatten(Extract(db)));
  }
  str Unchanged() {
    for (size_t i = 0; i < imported.size(); ++i) if (imported[i]) { str t = Text(Flatten(Extract(*imported[i]))); if (t != flats[i]) return "an earlier imported database has changed: " + FirstDifference(flats[i], t); }
    for (size_t i = 0; i < built.size(); ++i) { str t = Text(Flatten(Extract(*built[i].db))); if (t != built_flats[i]) return "the exported database has changed: " + FirstDifference(built_flats[i], t); }
    return "";
  }
  // Empty, or what is wrong.
  str Step(int op, Ctx& ctx) {
    ctx.Trans();
    str r;
    if (op == kLastX || op == kLastK) {
      auto& db = op == kLastX ? last_x : last_k;
      if (!db) return "";
      MDb m = Extract(*db);
      str want = Outcomes(op == kLastX, op == kLastX ? ExpectKdbx(m) : ExpectKdb(m));
      str got = Export(op == kLastX, *db, scratch + (op == kLastX ? "/out.kdbx" : "/out.kdb"));
      // The order of references to objects outside of the database is not compared.
      ctx.Trace(); ctx.State(got); ctx.Nontrivial();
      if (got != want) {
        str fresh; { World w; fresh = w.Export(op == kLastX, *db, scratch + "/fresh"); }
        if (got != fresh) return "differs from that of a fresh object: " + FirstDifference(fresh, got);
        return "";
      }
    } else if (op == kModifyX) { if (last_x) Modify(*last_x, last_xi); }
    else if (op == kModifyK) { if (last_k) Modify(*last_k, last_ki); }
    else if (op == kDropX) { if (last_x) { imported[last_xi].reset(); last_x.reset(); } }
    else if (op == kDropK) { if (last_k) { imported[last_ki].reset(); last_k.reset(); } }
    else {
      str got = Fixed(op);
      size_t at = 0; while (g_ops[at] != op) ++at;
      ctx.Trace(); ctx.State(got);
      if (got != g_expect[at]) return "differs from the outcome on a fresh object: " + FirstDifference(g_expect[at], got);
    }
    return Unchanged();
  }
};

str Replace(str s, const str& a, const str& b) { size_t p = s.find(a); if (p == str::npos) abort(); return s.replace(p, a.size(), b); }
str Cut(str s, const str& from, const str& to) { size_t p = s.find(from), q = s.find(to, p); if (p == str::npos || q == str::npos) abort(); return s.erase(p, q + to.size() - p); }

void Files() {
  g_other.pw = "other";
  auto add = [](const str& name, bool x, const str& data, bool missing = false, bool wrong = false) { g_files.push_back({name, x, data, missing, wrong}); };
  MDb rich = RichDb(), small = SmallDb(), alike = RichDb();
  rich.rounds = 1; small.rounds = 2; small.compress = true; alike.rounds = 1;
  // Same identifiers as the rich one, other contents.
  for (auto& i : alike.icons) i.data += " alike";
  for (auto& b : alike.bins) { b.data += " alike"; b.prot = !b.prot; }
  alike.compress = true; alike.meta.recycle_bin = 1; alike.meta.templates = -1; alike.meta.last_selected = 3; alike.meta.last_visible = -1; alike.meta.name.v = "";
  { std::vector<MEntry*> es; AllEntries(alike.root, es, true); for (auto e : es) { e->title.v += " alike"; e->fields.clear(); } for (auto g : Preorder(alike.root)) { g->name += " alike"; g->last_visible = -1; } }
  ref::KdbxOpt o; str start = ref::Sha256("start");
  auto wrap = [&](const MDb& m, const std::function<str(str)>& f) { str header = ref::KdbxHeader(m, o, start); return ref::KdbxWrap(m, g_key, o, header, start, f(ref::KdbxXml(m, o, ref::Sha256(header)))); };
  add("import of a rich KDBX file", true, ref::EncodeKdbx(rich, g_key));
  add("import of a small compressed KDBX file", true, ref::EncodeKdbx(small, g_key));
  add("import of a KDBX file with the same identifiers", true, ref::EncodeKdbx(alike, g_key));
  add("import of a KDBX file with dangling groups", true, wrap(small, [&](const str& s) {
    return Replace(Replace(s, "<RecycleBinEnabled>False", "<RecycleBinEnabled>True"), "<RecycleBinChanged>", "<EntryTemplatesGroup>" + ref::Base64(str((const char*)MakeUuid(12).data(), 16)) + "</EntryTemplatesGroup><LastSelectedGroup>" + ref::Base64(str((const char*)MakeUuid(11).data(), 16)) +
                   "</LastSelectedGroup><LastTopVisibleGroup>" + ref::Base64(str((const char*)MakeUuid(13).data(), 16)) + "</LastTopVisibleGroup><RecycleBinUUID>" + ref::Base64(str((const char*)MakeUuid(10).data(), 16)) + "</RecycleBinUUID><RecycleBinChanged>"); }));
  add("import of a KDBX file without its icons", true, wrap(rich, [](const str& s) { return Cut(s, "<CustomIcons>", "</CustomIcons>"); }));
  add("import of a KDBX file without its binaries", true, wrap(rich, [](const str& s) { return Cut(s, "<Binaries>", "</Binaries>"); }));
  add("import of a KDBX file without its header hash", true, wrap(small, [](const str& s) { return Cut(s, "<HeaderHash>", "</HeaderHash>"); }));
  // Last visible entries in other groups.
  MDb one = SmallDb(), two;
  one.rounds = 1;
  { MGroup g; g.uuid = MakeUuid(500); g.name = "other"; MEntry e; e.uuid = MakeUuid(501); e.title = "seen"; g.entries.push_back(e); one.root.groups.push_back(g); }
  { std::vector<MEntry*> es; AllEntries(one.root, es); one.root.last_visible = one.root.groups[0].last_visible = kElsewhere + int(es.size()) - 1; }
  two = one; two.root.groups.back().entries[0].title = "seen as well";
  add("import of a KDBX file with the last visible entry elsewhere", true, ref::EncodeKdbx(one, g_key));
  add("import of a KDBX file with another one elsewhere", true, ref::EncodeKdbx(two, g_key));
  { str id = ref::Base64(str((const char*)MakeUuid(501).data(), 16)); add("import of a KDBX file with a missing last visible entry", true, wrap(one, [&](const str& s) { str t = s; size_t p = t.rfind(id); return t.replace(p, id.size(), ref::Base64(str((const char*)MakeUuid(502).data(), 16))); })); }
  add("import of a KDBX file broken at the end", true, wrap(alike, [](const str& s) { size_t p = s.rfind("<UUID>"); str t = s; t.replace(p + 6, 4, "!!!!"); return t; }));
  add("import of a KDBX file with broken metadata", true, wrap(alike, [](const str& s) { size_t p = s.find("</CustomIcons>"); str t = s; t.insert(p, "<Icon><UUID>!</UUID><Data>!</Data></Icon>"); return t; }));
  { str f = ref::EncodeKdbx(rich, g_key); add("import of a truncated KDBX file", true, f.substr(0, f.size() - 600)); add("import with the wrong key", true, f, false, true); }
  { str f = ref::EncodeKdbx(alike, g_key); add("import of a KDBX file cut within the header", true, f.substr(0, 100)); }
  add("import of a missing file", true, "", true);
  MDb krich = RichKdb(), ktwo = RichKdb(); krich.rounds = 1; ktwo.rounds = 2; ktwo.twofish = true; ktwo.root.groups.pop_back(); for (auto g : Preorder(ktwo.root)) g->name += "2";
  add("import of a rich KDB file", false, ref::EncodeKdb(krich, g_key));
  add("import of a Twofish KDB file", false, ref::EncodeKdb(ktwo, g_key));
  { str f = ref::EncodeKdb(krich, g_key); add("import of a truncated KDB file", false, f.substr(0, f.size() - 16)); add("KDB import with the wrong key", false, f, false, true); }
  { std::vector<ref::KdbRecord> gs, es; ref::KdbRecords(ktwo, ref::KdbOpt(), &gs, &es); for (auto& f : es.back().fields) if (f.first == 2) f.second = str("\xee\xee\xee\xee", 4); add("import of a KDB file broken at the end", false, ref::KdbWrap(ktwo, g_key, ref::KdbOpt(), ref::KdbContent(gs, es), uint32_t(gs.size()), uint32_t(es.size()))); }
  add("import of KDBX as KDB", false, g_files[1].data);
  add("import of KDB as KDBX", true, g_files[16].data);

  MDb refused = RichDb(); refused.twofish = true;
  MDb krefused = RichKdb(); { MEntry e; e.uuid = MakeUuid(300); krefused.root.entries.push_back(e); }
  MDb nometa = SmallDb(); nometa.has_meta = false;
  g_models = {rich, alike, refused, krich, krefused, ktwo, nometa};
  g_exports = {{"export of a rich database to KDBX", true, 0}, {"export of a database with the same identifiers to KDBX", true, 1}, {"refused export to KDBX", true, 2}, {"export of a database without metadata", true, 6},
               {"export to KDB", false, 3}, {"refused export to KDB", false, 4}, {"Twofish export to KDB", false, 5}};
  for (size_t i = 0; i < g_files.size(); ++i) g_ops.push_back(int(i));
  for (size_t i = 0; i < g_exports.size(); ++i) g_ops.push_back(100 + int(i));
  // The outcome of each in a process of its own.
  for (size_t i = 0; i < g_ops.size(); ++i) {
    str out = scratch + "/expect";
    pid_t pid = fork();
    if (pid == 0) { World w; WriteFile(out, w.Fixed(g_ops[i])); _exit(0); }
    int status; waitpid(pid, &status, 0);
    g_expect.push_back(status == 0 ? ReadFile(out) : "crashed");
  }
  for (int op : {kLastX, kLastK, kModifyX, kModifyK, kDropX, kDropK}) g_ops.push_back(op);
}

void Run(const std::vector<int>& ops, Ctx& ctx) {
  World w;
  str done;
  for (int op : ops) {
    str r = w.Step(op, ctx);
    if (!r.empty()) return ctx.Fail("after " + (done.empty() ? str("nothing") : done) + ": " + OpName(op) + ": " + r);
    done += (done.empty() ? "" : ", ") + OpName(op);
  }
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C15";
  c.level = "model_checking";
  c.rule = "All sequences, up to a depth, of imports of good, damaged, foreign and look-alike files (same identifiers, other contents; dangling references), exports of good and refused databases "
           "and of the last imported one, modifications and releases, on one KDBX and one KDB file object; every outcome is compared with that of the same operation on fresh objects in a process "
           "of its own, exported files are decoded by an independent decoder, and all databases imported and exported earlier are compared after every step";
  Files();
  uint64_t n = g_ops.size();
  auto seq = [n](uint64_t i, int d) { std::vector<int> v; for (int k = 0; k < d; ++k) v.push_back(g_ops[Take(i, n)]); return v; };
  auto text = [](const std::vector<int>& v) { str s; for (int op : v) s += (s.empty() ? "" : ", ") + OpName(op); return s; };
  uint64_t total = 1;
  for (int d = 1; d <= (Quick() ? 3 : 4); ++d) {
    total *= n;
    c.Add("sequences of " + Num(uint64_t(d)), total, [=](uint64_t i, Ctx& ctx) { Run(seq(i, d), ctx); }, [=](uint64_t i) { return text(seq(i, d)); }, 60, 32);
  }
  c.Add("many repetitions", n * n, [=](uint64_t i, Ctx& ctx) {
    std::vector<int> v = seq(i, 2), w(12, v[0]);
    w.push_back(v[1]); w.push_back(v[0]); w.push_back(v[1]);
    Run(w, ctx);
  }, [=](uint64_t i) { std::vector<int> v = seq(i, 2); return "12 times " + OpName(v[0]) + ", then " + OpName(v[1]) + " and both again"; }, 60, 8);
}

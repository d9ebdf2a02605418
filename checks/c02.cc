// C02: KDB export followed by import gives back the same database.
#include <algorithm>

#include "deviate.hh"
#include "kdb.hh"

using namespace mc;

namespace {

const keepass::Key& TheKey() { static const keepass::Key key("password"); return key; }

void RoundTrip(const MDb& m, Ctx& ctx) {
  Built b = Build(m);
  Flat before = Flatten(Extract(*b.db));
  str path = scratch + "/a.kdb";
  Outcome ex = ExportKdb(path, *b.db, TheKey());
  ctx.Trans();
  str d = Diff(before, Flatten(Extract(*b.db)));
  if (!d.empty()) return ctx.Fail("export altered the database: " + d);
  if (!KdbRepresentable(m)) {
    if (ex.ok) return ctx.Fail("a database that KDB can't represent was exported");
    ctx.State("refused " + ex.kind + ex.what);
    ctx.Nontrivial();
    return;
  }
  if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
  Outcome im = ImportKdb(path, TheKey());
  ctx.Trans();
  if (!im.ok) return ctx.Fail("import threw " + im.kind + ": " + im.what);
  MDb got = Extract(*im.db);
  // KDB has no identifiers for groups: the importer makes new ones.
  for (auto g : Preorder(got.root)) g->uuid = Uuid();
  MDb want = ExpectKdb(m);
  for (auto g : Preorder(want.root)) g->uuid = Uuid();
  Flat w = Flatten(want), g = Flatten(got);
  ctx.State(Fingerprint(g));
  ctx.Trace();
  d = Diff(w, g);
  if (!d.empty()) ctx.Fail("imported database differs: " + d);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C02";
  c.level = "model_checking";
  c.rule = "Deviation-bounded enumeration around a database in which every KDB field is set, for both ciphers (1 and 2 deviations), all ordered group forests "
           "and all placements of entries in them, size boundaries, and every kind of database that KDB can't represent; each is exported and imported by the "
           "real code and compared with the model";
  c.assumptions = {"NUL in text, an attachment without name and data, and attachment data that is empty rather than absent are not representable in the format",
                   "AES, SHA-256 and the C library's time zone conversion are trusted (C12, C22 look at them)"};
  static std::vector<Slot> full = KdbSlots(Alphabet::kFull), medium = KdbSlots(Alphabet::kMedium);
  for (int tf = 0; tf < 2; ++tf) {
    auto base = [tf] { MDb m = RichKdb(); m.twofish = tf; return m; };
    str suffix = tf ? "-twofish" : "-aes";
    AddOne(c, "one" + suffix, tf ? medium : full, AllValues(tf ? medium : full), base, RoundTrip);
  }
  AddTwo(c, "two", medium, AllValues(medium, Quick() ? 5 : 40), [] { return RichKdb(); }, RoundTrip);
  auto kdb = [](const MDb& m0, Ctx& ctx) {
    MDb m = m0;
    m.master_seed.resize(16, 's');
    for (auto g : Preorder(m.root)) for (auto& e : g->entries) { e.t_creation = kT(1); e.t_mod = kT(2); e.t_access = kT(3); }
    RoundTrip(m, ctx);
  };
  AddTrees(c, "trees", Quick() ? 8 : 10, false, kdb);
  AddPlacements(c, "placements", Quick() ? 4 : 5, Quick() ? 3 : 4, false, kdb);
  // Depth and number of levels.
  static std::vector<int> shapes;
  for (int n : {1, 2, 3, 50, 100, 254, 255, 256, 257, 258, 259, 1000}) shapes.push_back(n);
  c.Add("deep", shapes.size() * 3, [kdb](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 3)), n = shapes[i];
    MDb m = SmallDb();
    std::vector<int> d;
    for (int k = 0; k < n; ++k) d.push_back(kind == 0 ? k : kind == 1 ? 0 : k % 2);
    SetForest(m.root, d);
    auto gs = Preorder(m.root);
    MEntry e; e.title = "deepest"; gs.back()->entries.push_back(e);
    e.title = "middle"; gs[1 + (gs.size() - 1) / 2 - (gs.size() > 2 ? 0 : gs.size() - 2)]->entries.push_back(e);
    kdb(m, ctx);
  }, [](uint64_t i) { int kind = int(Take(i, 3)); return Num(shapes[i]) + (kind == 0 ? " nested" : kind == 1 ? " sibling" : " alternating") + str(" groups"); }, 60, 1);
  // Record and content sizes.
  c.Add("sizes", Quick() ? 300 : 2200, [kdb](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    m.root.groups[0].entries[0].notes = MStr(str(i, 'n'));
    m.twofish = i & 1;
    kdb(m, ctx);
  }, [](uint64_t i) { return "notes of " + Num(i) + " bytes"; });
  AddLarge(c, "large", false, RoundTrip);
  AddMany(c, "large numbers", false, RoundTrip);
  if (!Quick())
    c.Add("many", 4, [kdb](uint64_t i, Ctx& ctx) {
      MDb m = SmallDb();
      if (i == 0) for (int k = 0; k < 70000; ++k) { MGroup g; g.name = "g" + Num(k); MEntry e; e.title = "t" + Num(k); if (k % 1000 == 999) g.entries.push_back(e); m.root.groups.push_back(g); }
      if (i == 1) for (int k = 0; k < 70000; ++k) { MEntry e; e.title = "t" + Num(k); m.root.groups[0].entries.push_back(e); }
      if (i == 2) { std::vector<int> d; for (int k = 0; k < 5000; ++k) d.push_back(k % 257); SetForest(m.root, d); }
      if (i == 3) m.root.groups[0].entries[0].notes = MStr(str(20 << 20, 'n'));
      kdb(m, ctx);
    }, nullptr, 600, 1);
  // What KDB can't hold is refused, wherever it is in the tree.
  c.Add("refused", 7 * 9, [](uint64_t i, Ctx& ctx) {
    int where = int(Take(i, 7));
    MDb m = RichKdb();
    std::vector<MEntry*> es;
    AllEntries(m.root, es);
    MEntry* e = es[where % es.size()];
    switch (i) {
      case 0: m.root.entries.push_back(*e); break;
      case 1: case 2: case 3: { int n = i == 1 ? 2 : i == 2 ? 3 : 256; e->atts.clear(); for (int k = 0; k < n; ++k) { MBin b; b.data = "d" + Num(k); m.bins.push_back(b); e->atts.push_back(MAtt{"a" + Num(k), int(m.bins.size()) - 1}); } break; }
      case 4: m.master_seed = ""; break;
      case 5: m.master_seed.pop_back(); break;
      case 6: m.master_seed += str(where % 3 == 0 ? 1 : 16, 's'); break;
      case 7: m.rounds = 0x100000000ull + (where == 0 ? 0 : 1); break;
      case 8: m.rounds = where == 0 ? ~0ull : 1ull << (32 + where); break;
    }
    if (KdbRepresentable(m)) return ctx.Fail("harness: the database is representable");
    // An older file at the destination survives.
    WriteFile(scratch + "/a.kdb", "old contents");
    RoundTrip(m, ctx);
    if (ReadFile(scratch + "/a.kdb") != "old contents") ctx.Fail("a refused export changed the file at the destination");
  });
}

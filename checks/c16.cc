// C16: references within an imported KDBX database lead to the objects of that database.
#include <algorithm>

#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

namespace {

ref::KeySpec g_key;

std::shared_ptr<keepass::Database> Read(const str& file, Ctx& ctx) {
  WriteFile(scratch + "/f", file);
  Outcome o = ImportKdbx(scratch + "/f", ref::LibKey(g_key));
  ctx.Trans();
  if (!o.ok) { ctx.Fail("import threw " + o.kind + ": " + o.what); return nullptr; }
  return std::move(o.db);
}

// The model is encoded independently and read by the library; Extract identifies objects by address.
// Then the same database is exported and read again.
void RoundTrip(const MDb& m, const ref::KdbxOpt& o, Ctx& ctx) {
  auto db = Read(ref::EncodeKdbx(m, g_key, o), ctx);
  if (!db) return;
  MDb got = Extract(*db);
  MDb want = ExpectKdbx(m);
  str d = Diff(Flatten(want), Flatten(got));
  ctx.Trace(); ctx.State(Fingerprint(Flatten(got)));
  if (!d.empty()) return ctx.Fail("imported: " + d);
  Outcome ex = ExportKdbx(scratch + "/g", *db, ref::LibKey(g_key));
  if (!ex.ok) return ctx.Fail("export threw " + ex.what);
  Outcome im = ImportKdbx(scratch + "/g", ref::LibKey(g_key));
  ctx.Trans(2); ctx.Trace();
  if (!im.ok) return ctx.Fail("import of the exported database threw " + im.what);
  d = Diff(Flatten(ExpectKdbx(got)), Flatten(Extract(*im.db)));
  if (!d.empty()) ctx.Fail("exported and imported again: " + d);
}

MDb Tree(const std::vector<int>& depths, int content) {
  MDb m = SmallDb();
  m.root.groups.clear(); m.root.entries.clear();
  SetForest(m.root, depths);
  int n = 0;
  for (auto g : Preorder(m.root)) { if (content & 1) g->name = "same"; g->uuid = MakeUuid(500 + n++); }
  return m;
}
std::shared_ptr<keepass::Group> GroupAt(const std::shared_ptr<keepass::Group>& root, int index) {
  std::vector<std::shared_ptr<keepass::Group>> gs;
  std::function<void(const std::shared_ptr<keepass::Group>&)> walk = [&](const std::shared_ptr<keepass::Group>& g) { gs.push_back(g); for (auto& s : g->Groups()) walk(s); };
  walk(root);
  return index >= 0 && index < int(gs.size()) ? gs[index] : nullptr;
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C16";
  c.level = "model_checking";
  c.rule = "All assignments of the references (recycle bin, templates group, last selected and last visible group over all trees up to a size; last visible entries over all placements of entries, "
           "in the own or another group; custom icons of entries, groups and history; attachments in the pool and inline; equal and different contents; absent, empty and zero identifiers; two "
           "element orders), encoded independently, imported and compared by address; exported and imported again; and every reference used to change its object";
  static std::vector<std::vector<int>> forests;
  for (int n = 0; n <= (Quick() ? 4 : 5); ++n) for (auto& f : Forests(n)) forests.push_back(f);
  struct Shape { size_t forest; uint64_t first, count; };
  // Groups named by the metadata: every assignment of four references over every tree.
  static std::vector<Shape> shapes; static uint64_t total = 0;
  for (size_t f = 0; f < forests.size(); ++f) { uint64_t k = forests[f].size() + 2, n = k * k * k * k; shapes.push_back({f, total, n}); total += n; }
  auto assign = [](uint64_t i, MDb* m, ref::KdbxOpt* o) {
    size_t s = 0; while (i >= shapes[s].first + shapes[s].count) ++s;
    uint64_t j = i - shapes[s].first, k = forests[shapes[s].forest].size() + 2;
    *m = Tree(forests[shapes[s].forest], int(i & 1));
    m->meta.recycle_bin = int(Take(j, k)) - 1; m->meta.templates = int(Take(j, k)) - 1; m->meta.last_selected = int(Take(j, k)) - 1; m->meta.last_visible = int(Take(j, k)) - 1;
    o->zero_refs = i & 2; o->order = i & 4 ? 1 : 0; m->compress = i & 8; o->omit_empty = i & 16;
  };
  c.Add("groups of the metadata", total, [=](uint64_t i, Ctx& ctx) { MDb m; ref::KdbxOpt o; assign(i, &m, &o); if (m.meta.recycle_bin >= 0 || m.meta.templates >= 0) ctx.Nontrivial(); RoundTrip(m, o, ctx); },
        [=](uint64_t i) { MDb m; ref::KdbxOpt o; assign(i, &m, &o); return Num(Preorder(m.root).size()) + " groups, recycle bin " + SNum(m.meta.recycle_bin) + ", templates " + SNum(m.meta.templates) + ", last selected " + SNum(m.meta.last_selected) + ", last visible " + SNum(m.meta.last_visible); });

  // Last visible entries: every placement of up to 3 entries over trees of up to 3 groups below the root, every choice of every group.
  struct Placement { size_t forest; std::vector<int> at; };
  static std::vector<Placement> places; static std::vector<uint64_t> firsts; static uint64_t lv_total = 0;
  for (size_t f = 0; f < forests.size(); ++f) {
    int groups = int(forests[f].size()) + 1;
    if (groups > (Quick() ? 3 : 4)) continue;
    for (int ne = 0; ne <= (Quick() ? 3 : 4); ++ne) {
      uint64_t n = 1; for (int e = 0; e < ne; ++e) n *= groups;
      for (uint64_t j = 0; j < n; ++j) {
        Placement p; p.forest = f; uint64_t x = j; for (int e = 0; e < ne; ++e) p.at.push_back(int(Take(x, groups)));
        places.push_back(p); firsts.push_back(lv_total);
        uint64_t k = 1; for (int g = 0; g < groups; ++g) k *= ne + 1;
        lv_total += k;
      }
    }
  }
  auto place = [](uint64_t i, MDb* m, ref::KdbxOpt* o) {
    int past = int(Take(i, 3));
    size_t s = size_t(std::upper_bound(firsts.begin(), firsts.end(), i) - firsts.begin()) - 1;
    uint64_t j = i - firsts[s];
    *m = Tree(forests[places[s].forest], int(i & 1));
    auto gs = Preorder(m->root);
    int n = 0;
    for (int at : places[s].at) {
      MEntry e; e.uuid = MakeUuid(600 + n); e.title = i & 2 ? "same" : ("e" + Num(uint64_t(n))).c_str();
      MEntry h = e; h.title = "history";
      if (past) h.uuid = MakeUuid(past == 1 ? 700 + n : 600 + (n + 1) % int(places[s].at.size()));   // same identifier as the entry, one of its own, that of another entry
      e.history.push_back(h);
      gs[at]->entries.push_back(e); ++n;
    }
    std::vector<MEntry*> es; AllEntries(m->root, es);
    for (auto g : gs) {
      int v = int(Take(j, n + 1)) - 1;
      g->last_visible = -1;
      if (v < 0) continue;
      g->last_visible = kElsewhere + v;
      for (size_t q = 0; q < g->entries.size(); ++q) if (&g->entries[q] == es[v]) g->last_visible = int(q);
    }
    o->zero_refs = i & 4; o->order = i & 8 ? 1 : 0; o->history_first = i & 16;
  };
  c.Add("last visible entries", lv_total * 3, [=](uint64_t i, Ctx& ctx) { MDb m; ref::KdbxOpt o; place(i, &m, &o); RoundTrip(m, o, ctx); },
        [=](uint64_t i) { MDb m; ref::KdbxOpt o; place(i, &m, &o); str s; for (auto g : Preorder(m.root)) s += "group with " + Num(g->entries.size()) + " entries, last visible " + SNum(g->last_visible) + "; "; return s; });

  // A group, entry or icon without an identifier is not what absent references refer to.
  c.Add("missing identifiers", 6 * 2 * 3 * 2 * 3, [](uint64_t i, Ctx& ctx) {
    MDb m = Tree({0, 1, 0}, 0);
    MIcon ic; ic.data = "icon"; m.icons.push_back(ic);
    MEntry e; m.root.groups[0].entries.push_back(e);
    auto gs = Preorder(m.root);
    int which = int(Take(i, 6)), how = int(Take(i, 2)), refs = int(Take(i, 3)), given = int(Take(i, 3));
    if (which < 4) gs[which]->uuid = Uuid();
    m.root.groups[0].entries[0].uuid = which == 4 ? Uuid() : MakeUuid(600);
    m.icons[0].uuid = which == 5 ? Uuid() : MakeUuid(50);
    // Some of the references to other groups.
    if (given) { int other = which == 1 ? 2 : 1; (given == 1 ? m.meta.last_selected : m.meta.recycle_bin) = other; }
    ref::KdbxOpt o; o.order = int(i & 1);
    str header = ref::KdbxHeader(m, o, str(32, 's')), xml = ref::KdbxXml(m, o, ref::Sha256(header));
    auto each = [&](const str& from, const str& to) { for (size_t at; (at = xml.find(from)) != str::npos;) xml.replace(at, from.size(), to); };
    str zero = "<UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID>";
    if (xml.find(zero) == str::npos) return ctx.Fail("harness: no identifier to take out");
    each(zero, how ? "" : "<UUID></UUID>");
    for (const char* r : {"LastSelectedGroup", "LastTopVisibleGroup", "EntryTemplatesGroup", "RecycleBinUUID"}) {
      str empty = str("<") + r + "/>", full = str("<") + r + "></" + r + ">";
      if (refs == 0) { each(empty, ""); each(full, ""); }
      if (refs == 1) each(empty, full);
    }
    ctx.Nontrivial();
    auto db = Read(ref::KdbxWrap(m, g_key, o, header, str(32, 's'), xml), ctx);
    if (!db) return;
    str d = Diff(Flatten(ExpectKdbx(m)), Flatten(Extract(*db)));
    ctx.Trace(); ctx.State(d);
    if (!d.empty()) ctx.Fail("imported: " + d);
  }, [](uint64_t i) { int which = int(Take(i, 6)), how = int(Take(i, 2)); return (which < 4 ? "group " + SNum(which) : which == 4 ? str("entry") : str("icon")) + (how ? " without an identifier" : " with an empty identifier"); });

  // Icons: four objects, three icons; contents all different, two equal, all equal.
  c.Add("icons", 4 * 4 * 4 * 4 * 5 * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = Tree({0}, 0);
    int contents = int(Take(i, 5)); ref::KdbxOpt o; o.order = int(Take(i, 2));
    for (int k = 0; k < 3; ++k) { MIcon ic; ic.uuid = MakeUuid(50 + k); ic.data = contents == 0 ? "icon" + Num(uint64_t(k)) : contents == 1 ? (k < 2 ? "same" : "other") : contents == 2 ? (k > 0 ? "same" : "other") : contents == 3 ? (k != 1 ? "same" : "other") : "same"; m.icons.push_back(ic); }
    MEntry e; e.uuid = MakeUuid(600); MEntry h = e;
    m.root.custom_icon = int(Take(i, 4)) - 1; m.root.groups[0].custom_icon = int(Take(i, 4)) - 1; e.custom_icon = int(Take(i, 4)) - 1; h.custom_icon = int(Take(i, 4)) - 1;
    e.history.push_back(h); m.root.groups[0].entries.push_back(e);
    RoundTrip(m, o, ctx);
  });
  // Attachments: four slots (two entries, one of their histories), each absent, one of three pooled or one of two inline objects.
  c.Add("attachments", 6 * 6 * 6 * 6 * 5 * 4 * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = Tree({0}, 0);
    int contents = int(Take(i, 5)), pooled = int(Take(i, 4)); ref::KdbxOpt o; o.order = int(Take(i, 2));
    o.id_base = pooled == 1 ? 7 : 0;
    const int np = 3;
    for (int k = 0; k < 3; ++k) { MBin b; b.data = contents == 0 ? "data" + Num(uint64_t(k)) : contents == 1 ? (k < 2 ? "same" : "other") : contents == 2 ? (k > 0 ? "same" : "other") : contents == 3 ? "" : "same"; b.prot = pooled == 2 ? k == 1 : pooled == 3; b.compress = pooled == 1 && k == 0 && false; m.bins.push_back(b); }
    m.pooled = np;
    MEntry e, f; e.uuid = MakeUuid(600); f.uuid = MakeUuid(601); MEntry h = e;
    auto att = [&](MEntry& to, const str& name) {
      int v = int(Take(i, 6));
      if (v == 0) return;
      MAtt a; a.name = name;
      if (v <= np) a.bin = v - 1;
      else { MBin b; b.data = v == 4 ? m.bins[0].data : str("inline"); b.prot = m.bins[0].prot; m.bins.push_back(b); a.bin = int(m.bins.size()) - 1; }
      to.atts.push_back(a);
    };
    att(e, "a"); att(e, "b"); att(h, "a"); att(f, "c");
    e.history.push_back(h); m.root.groups[0].entries.push_back(e); m.root.entries.push_back(f);
    // Inline objects are numbered in the order of the document.
    MDb q = m; q.bins.resize(np);
    auto renumber = [&](MEntry& x, auto&& self) -> void { for (auto& a : x.atts) if (a.bin >= np) { q.bins.push_back(m.bins[a.bin]); a.bin = int(q.bins.size()) - 1; } for (auto& y : x.history) self(y, self); };
    for (auto g : Preorder(q.root)) for (auto& x : g->entries) renumber(x, renumber);
    if (contents == 3 && pooled >= 2) for (auto& b : q.bins) b.prot = false;
    RoundTrip(q, o, ctx);
  });

  // Changing an object through a reference changes it in the database, and the other way round.
  c.Add("changes through references", 10 * 2 * 2, [](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 10)); bool reverse = Take(i, 2), compress = i;
    MDb m = RichDb(); m.rounds = 1; m.compress = compress; m.root.last_visible = kElsewhere + 2;
    auto db = Read(ref::EncodeKdbx(m, g_key), ctx);
    if (!db) return;
    auto meta = db->meta(); auto root = db->root();
    MDb want = Extract(*db);
    auto gs = Preorder(want.root);
    auto group = [&](std::shared_ptr<keepass::Group> byref, int index) {
      auto other = GroupAt(root, index);
      if (!byref || !other) return ctx.Fail("a reference is missing");
      (reverse ? other : byref)->set_name("changed");
      if ((reverse ? byref : other)->name() != "changed") return ctx.Fail("a change of the group is not seen through the other path");
      gs[index]->name = "changed";
    };
    auto prot = [](const str& s) { return keepass::protect<std::string>(s, false); };
    if (kind == 0) group(meta->recycle_bin(), m.meta.recycle_bin);
    if (kind == 1) group(meta->entry_templates(), m.meta.templates);
    if (kind == 2) group(meta->last_selected_group().lock(), m.meta.last_selected);
    if (kind == 3) group(meta->last_visible_group().lock(), m.meta.last_visible);
    if (kind == 4 || kind == 5) {                                                   // of its own, of another group
      auto by = GroupAt(root, kind == 4 ? 1 : 0)->last_visible_entry().lock(); auto other = kind == 4 ? GroupAt(root, 1)->Entries()[1] : GroupAt(root, 1)->Entries()[1];
      if (!by) return ctx.Fail("a reference is missing");
      (reverse ? other : by)->set_title(prot("changed"));
      if (*(reverse ? by : other)->title() != "changed") return ctx.Fail("a change of the entry is not seen through the other path");
      gs[1]->entries[1].title = MStr("changed");
    }
    if (kind == 6) {
      auto by = GroupAt(root, 1)->Entries()[0]->attachments()[0]->binary(); auto other = meta->binaries()[0];
      (reverse ? other : by)->set_data(prot("changed"));
      if (*(reverse ? by : other)->data() != "changed") return ctx.Fail("a change of the attachment is not seen through the other path");
      want.bins[0].data = "changed";
    }
    if (kind == 7) {                                                                // shared by two entries
      auto by = GroupAt(root, 1)->Entries()[0]->attachments()[0]->binary(); auto other = GroupAt(root, 1)->Entries()[1]->attachments()[0]->binary();
      (reverse ? other : by)->set_data(prot("changed"));
      if (*(reverse ? by : other)->data() != "changed") return ctx.Fail("a change of the attachment is not seen by the other entry");
      want.bins[0].data = "changed";
    }
    if (kind == 8) {                                                                // a released reference leaves the tree alone
      meta->set_recycle_bin(nullptr); want.meta.recycle_bin = -1;
      if (!GroupAt(root, m.meta.recycle_bin)) return ctx.Fail("the recycle bin has vanished");
    }
    if (kind == 9) { auto g = GroupAt(root, 1); g->set_custom_icon(meta->icons()[2]); gs[1]->custom_icon = 2; }
    ctx.Trans();
    str d = Diff(Flatten(want), Flatten(Extract(*db)));
    if (!d.empty()) return ctx.Fail("after the change: " + d);
    Outcome ex = ExportKdbx(scratch + "/g", *db, ref::LibKey(g_key)); Outcome im = ImportKdbx(scratch + "/g", ref::LibKey(g_key));
    ctx.Trans(2); ctx.Trace();
    if (!ex.ok || !im.ok) return ctx.Fail("export or import failed: " + ex.what + im.what);
    d = Diff(Flatten(ExpectKdbx(want)), Flatten(Extract(*im.db)));
    if (!d.empty()) ctx.Fail("after the change, exported and imported: " + d);
  });
  // The database keeps its objects alive, however long other objects live.
  c.Add("lifetime", 4, [](uint64_t i, Ctx& ctx) {
    MDb m = RichDb(); m.rounds = 1;
    std::shared_ptr<keepass::Database> db;
    {
      keepass::KdbxFile f;
      WriteFile(scratch + "/f", ref::EncodeKdbx(m, g_key));
      db = f.Import(scratch + "/f", ref::LibKey(g_key));
      if (i & 1) { WriteFile(scratch + "/g", ref::EncodeKdbx(SmallDb(), g_key)); f.Import(scratch + "/g", ref::LibKey(g_key)); }
      if (i & 2) { str d = Diff(Flatten(ExpectKdbx(m)), Flatten(Extract(*db))); if (!d.empty()) return ctx.Fail("before the file object is gone: " + d); }
    }
    ctx.Trans(); ctx.Trace();
    str d = Diff(Flatten(ExpectKdbx(m)), Flatten(Extract(*db)));
    if (!d.empty()) ctx.Fail("after the file object is gone: " + d);
  });
}

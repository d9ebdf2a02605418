// C21: converting between KDB and KDBX keeps what the target format can hold.
#include <algorithm>

#include "deviate.hh"
#include "ref.hh"

using namespace mc;

namespace {

const keepass::Key& TheKey() { static const keepass::Key key("password"); return key; }

str TrimWs(const str& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == str::npos ? "" : s.substr(a, b - a + 1); }
// Differences are only white space lost at the ends of text, a finding about reading KDBX.
bool OnlyTrimmed(const Flat& want, const Flat& got) {
  if (want.size() != got.size()) return false;
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == got[i]) continue;
    if (want[i].first != got[i].first) return false;
    str w = want[i].second, g = got[i].second;
    if (w.compare(0, 2, "U:") == 0 && g.compare(0, 2, "U:") == 0) { w = w.substr(2); g = g.substr(2); }
    else if (w.compare(0, 2, "P:") == 0) return false;
    if (TrimWs(w) != g) return false;
  }
  return true;
}

// Everything that both formats have. Identifiers of groups are made anew by KDB, flags of groups are only in KDB.
Flat Common(const MDb& m) {
  MDb r = ExpectKdb(m);
  for (auto g : Preorder(r.root)) { g->uuid = Uuid(); g->flags = 0; }
  return Flatten(r);
}
Flat All(MDb m, bool kdbx) { if (!kdbx) for (auto g : Preorder(m.root)) g->uuid = Uuid(); return Flatten(m); }

bool KdbHolds(const MDb& m) { return KdbRepresentable(m); }
bool HasNul(const MDb& m) {                                        // in text that KDB stores
  MDb r = ExpectKdb(m);
  auto nul = [](const str& s) { return s.find('\0') != str::npos; };
  std::vector<MEntry*> es; AllEntries(r.root, es);
  for (auto e : es) { if (nul(e->title.v) || nul(e->url.v) || nul(e->username.v) || nul(e->password.v) || nul(e->notes.v)) return true; for (auto& a : e->atts) if (nul(a.name)) return true; }
  for (auto g : Preorder(r.root)) if (nul(g->name)) return true;
  return false;
}

// Edits between conversions.
const str kEdits = "arheg";
void Edit(char what, keepass::Database& db) {
  using namespace keepass;
  std::shared_ptr<Group> root = db.root(), last = root;
  while (!last->Groups().empty()) last = last->Groups().back();
  std::shared_ptr<Entry> first;
  std::function<void(std::shared_ptr<Group>)> find = [&](std::shared_ptr<Group> g) { for (auto& e : g->Entries()) if (!first) first = e; for (auto& s : g->Groups()) find(s); };
  find(root);
  auto entry = [](const char* title) { auto e = std::make_shared<Entry>(); e->set_title(protect<std::string>(title, false)); e->set_creation_time(kT(5)); return e; };
  switch (what) {
    case 'a': if (first) { auto a = std::make_shared<Entry::Attachment>(); a->set_name("added"); a->set_binary(std::make_shared<Binary>(protect<std::string>("added data", false))); first->AddAttachment(a); } break;
    case 'r': root->AddEntry(entry("in the root group")); break;
    case 'h': if (first) { first->AddHistoryEntry(std::make_shared<Entry>(*entry("history"))); std::string k = "field"; first->AddCustomField(k, protect<std::string>("value", true)); } break;
    case 'e': if (last != root) last->AddEntry(entry("new entry")); break;
    case 'g': { auto g = std::make_shared<Group>(); g->set_name("new group"); g->AddEntry(entry("in the new group")); root->AddGroup(g); break; }
  }
}

// Runs a chain of conversions: X and K are exports to and imports from the format, other letters edits.
void Chain(const MDb& start, const str& chain, Ctx& ctx) {
  Built built = Build(start);
  keepass::Database* db = built.db.get();
  std::unique_ptr<keepass::Database> owned;
  MDb model = Extract(*db);
  Flat common = Common(model);
  bool trimmed = false;
  for (size_t s = 0; s < chain.size(); ++s) {
    str at = "step " + Num(s + 1) + " of " + chain + ": ";
    char f = chain[s];
    if (f != 'X' && f != 'K') { Edit(f, *db); ctx.Trans(); model = Extract(*db); common = Common(model); continue; }
    bool kdbx = f == 'X';
    str path = scratch + (kdbx ? "/c.kdbx" : "/c.kdb");
    Outcome ex = kdbx ? ExportKdbx(path, *db, TheKey()) : ExportKdb(path, *db, TheKey());
    ctx.Trans();
    str d = Diff(Flatten(model), Flatten(Extract(*db)));
    if (!d.empty()) return ctx.Fail(at + "the export alters the database: " + d);
    bool holds = kdbx ? !model.twofish : KdbHolds(model) && !HasNul(model);
    if (!ex.ok) {
      ctx.State(ex.kind + ex.what);
      if (holds) return ctx.Fail(at + "a database that the format holds is refused: " + ex.kind + ": " + ex.what);
      ctx.Nontrivial();
      return;
    }
    if (!holds) return ctx.Fail(at + "a database that the format can't hold is exported");
    Outcome im = kdbx ? ImportKdbx(path, TheKey()) : ImportKdb(path, TheKey());
    ctx.Trans();
    if (!im.ok) return ctx.Fail(at + "the import throws: " + im.kind + ": " + im.what);
    MDb got = Extract(*im.db);
    Flat want = All(kdbx ? ExpectKdbx(model) : ExpectKdb(model), kdbx), have = All(got, kdbx);
    ctx.Trace();
    ctx.State(Fingerprint(have));
    d = Diff(want, have);
    if (!d.empty() && kdbx && OnlyTrimmed(want, have)) { trimmed = true; ctx.Known("edge-whitespace", "white space at the ends of unprotected text is lost: " + d); common = Common(got); }
    else if (!d.empty()) return ctx.Fail(at + d);
    d = Diff(common, Common(got));
    if (!d.empty()) return ctx.Fail(at + "what both formats have changes: " + d);
    model = got;
    owned = std::move(im.db);
    db = owned.get();
  }
  if (!trimmed) ctx.Nontrivial();
}

// A database that both formats can hold, with everything that only KDBX has set as well.
MDb Both() {
  MDb m = RichDb();
  m.twofish = false;
  m.master_seed.resize(16, 's');
  m.root.entries.clear(); m.root.last_visible = -1;
  m.meta.last_visible = m.meta.last_selected = m.meta.templates = m.meta.recycle_bin = -1;
  for (auto g : Preorder(m.root)) g->last_visible = -1;
  std::vector<MEntry*> es; AllEntries(m.root, es);
  for (auto e : es) if (e->atts.size() > 1) e->atts.resize(1);
  return m;
}

std::vector<str> AllChains(const str& letters, size_t max) {
  std::vector<str> r{""};
  for (size_t b = 0, n = 0; n < max; ++n) { size_t e = r.size(); for (; b < e; ++b) for (char c : letters) r.push_back(r[b] + c); }
  return r;
}

void AddChains(Check& c, const str& name, const std::vector<Slot>& slots, const std::vector<SV>& values, std::function<MDb()> base, const std::vector<str>& chains) {
  size_t n = chains.size();
  c.Add(name, values.size() * n, [=, &slots](uint64_t i, Ctx& ctx) {
    const str& ch = chains[Take(i, n)];
    MDb m = base();
    slots[values[i].first].values[values[i].second].second(m);
    if (m.rounds > 4096 && m.rounds <= 0xffffffffull) m.rounds = 2;
    if (m.rounds > 4096 && ch[0] == 'X') return;
    if (!KdbxValid(m)) return;
    Chain(m, ch, ctx);
  }, [=, &slots](uint64_t i) { const str& ch = chains[Take(i, n)]; return ch + " with " + slots[values[i].first].name + " = " + slots[values[i].first].values[values[i].second].first; });
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C21";
  c.level = "model_checking";
  c.rule = "All chains of conversions (export to a format and import from it, up to a length) from databases that deviate in one place (all values) or two places (small alphabet) from a "
           "database with all fields, for each of both formats' fields; all chains with edits between the conversions; all trees and placements of entries; after each step the real "
           "database is compared completely with what the model says that the format keeps, and what both formats have must be what it was at the start of the chain; refusals only for "
           "databases that the format cannot hold";
  c.assumptions = {"protection of text, identifiers of groups, flags of groups, history, custom fields and all other things that only one of the formats has are no part of the comparison over the chain"};
  bool q = Quick();
  static std::vector<Slot> xs = KdbxSlots(q ? Alphabet::kMedium : Alphabet::kFull), ks = KdbSlots(Alphabet::kFull), xsmall = KdbxSlots(Alphabet::kSmall), ksmall = KdbSlots(Alphabet::kSmall);
  std::vector<str> chains = q ? std::vector<str>{"KX", "XK", "KXK", "XKX"} : std::vector<str>{"KX", "XK", "KKX", "XXK", "KXK", "XKX", "KXKX", "XKXK", "KXXK", "XKKX"};
  auto kdb = [] { MDb m = RichKdb(); m.twofish = false; return m; };
  AddChains(c, "KDB fields", ks, AllValues(ks), kdb, chains);
  AddChains(c, "KDBX fields", xs, AllValues(xs), Both, chains);
  AddChains(c, "KDBX fields in a full database", xsmall, AllValues(xsmall), [] { return RichDb(); }, {"XK", "XKX", "K"});
  AddTwo(c, "two KDB fields", ksmall, AllValues(ksmall, q ? 4 : 40), kdb, [](const MDb& m, Ctx& ctx) { Chain(m, "KXK", ctx); });
  AddTwo(c, "two KDBX fields", xsmall, AllValues(xsmall, q ? 1 : 3), Both, [](const MDb& m0, Ctx& ctx) { MDb m = m0; if (m.rounds > 4096) m.rounds = 2; if (KdbxValid(m)) Chain(m, "XKX", ctx); });

  // Histories with edits. They end with a conversion.
  auto words = std::make_shared<std::vector<str>>();
  for (auto& w : AllChains("XK" + kEdits, q ? 4 : 6)) if (!w.empty() && (w.back() == 'X' || w.back() == 'K')) words->push_back(w);
  auto bases = std::make_shared<std::vector<std::function<MDb()>>>();
  bases->push_back(kdb); bases->push_back(Both);
  bases->push_back([] { MDb m = SmallDb(); m.master_seed.resize(16, 's'); return m; });
  bases->push_back([] { MDb m = SmallDb(); m.master_seed.resize(16, 's'); m.has_meta = false; m.root.groups.clear(); return m; });
  c.Add("histories", words->size() * bases->size(), [=](uint64_t i, Ctx& ctx) { auto base = (*bases)[Take(i, bases->size())]; Chain(base(), (*words)[i], ctx); },
        [=](uint64_t i) { uint64_t b = Take(i, bases->size()); return "base " + Num(b) + ", steps " + (*words)[i]; });

  auto tree = [](const MDb& m0, Ctx& ctx) {
    MDb m = m0; m.master_seed.resize(16, 's');
    Chain(m, "KXK", ctx);
    if (!ctx.failed()) Chain(m, "XKX", ctx);
  };
  AddTrees(c, "trees", q ? 6 : 9, false, tree);
  AddPlacements(c, "placements", q ? 3 : 4, q ? 3 : 4, false, tree);
  AddPlacements(c, "placements with root", 2, 3, true, tree);
  // Many attachments and entries over the tree: none is lost, or the export is refused.
  c.Add("attachments", 4 * 4 * 4 * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = Both(); m.bins.clear(); m.pooled = 0;
    std::vector<MEntry*> es; AllEntries(m.root, es, true);
    for (auto e : es) e->atts.clear();
    es.clear(); AllEntries(m.root, es);
    bool pool = Take(i, 2);
    for (int k = 0; k < 3 && k < int(es.size()); ++k) { uint64_t n = Take(i, 4); for (uint64_t j = 0; j < n; ++j) { MBin b; b.data = "data" + Num(k) + Num(j); m.bins.push_back(b); MAtt a; a.name = "a" + Num(j); a.bin = int(m.bins.size()) - 1; es[k]->atts.push_back(a); } }
    if (pool) m.pooled = int(m.bins.size());
    Chain(m, "XKX", ctx);
  }, [](uint64_t i) { bool pool = Take(i, 2); return "numbers of attachments " + Num(i % 4) + "," + Num(i / 4 % 4) + "," + Num(i / 16) + (pool ? " pooled" : ""); });
  // Depth limits of the formats.
  c.Add("deep", 12 * 2, [](uint64_t i, Ctx& ctx) {
    static const int n[] = {1, 50, 99, 100, 110, 118, 120, 255, 256, 257, 258, 300};
    MDb m = SmallDb(); m.master_seed.resize(16, 's');
    std::vector<int> d; for (int k = 0; k < n[i / 2]; ++k) d.push_back(k);
    SetForest(m.root, d);
    if (n[i / 2] > 100) { // more than C01 promises for KDBX: kept or refused
      Built b = Build(m);
      for (int kdbx = 0; kdbx < 2; ++kdbx) {
        str path = scratch + "/deep";
        Outcome o = kdbx ? ExportKdbx(path, *b.db, TheKey()) : ExportKdb(path, *b.db, TheKey());
        ctx.Trans(); ctx.Trace();
        ctx.State(o.ok ? "kept" : o.what);
        if (!o.ok) continue;
        Outcome im = kdbx ? ImportKdbx(path, TheKey()) : ImportKdb(path, TheKey());
        if (!im.ok) return ctx.Fail("import: " + im.what);
        str e = Diff(All(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx), All(Extract(*im.db), kdbx));
        if (!e.empty()) return ctx.Fail(e);
      }
      return;
    }
    Chain(m, i % 2 ? "XKX" : "KXK", ctx);
  }, [](uint64_t i) { return "levels " + Num(i / 2); });
}

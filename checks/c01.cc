// C01: KDBX export followed by import gives back the same database.
#include <algorithm>

#include "kdbx.hh"
#include "deviate.hh"

using namespace mc;

namespace {

str TrimWs(const str& s) {
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == str::npos ? "" : s.substr(a, b - a + 1);
}

// Expected values whose only deviation is that unprotected text lost white space at its ends.
bool OnlyTrimmed(const Flat& want, const Flat& got) {
  if (want.size() != got.size()) return false;
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == got[i]) continue;
    if (want[i].first != got[i].first) return false;
    str w = want[i].second, g = got[i].second;
    if (w.compare(0, 2, "U:") == 0 && g.compare(0, 2, "U:") == 0) { w = w.substr(2); g = g.substr(2); }
    else if (w.compare(0, 2, "P:") == 0) return false;
    if (TrimWs(w) != g) return false;
  }
  return true;
}

void RoundTrip(const MDb& m, Ctx& ctx, const keepass::Key& key) {
  if (!KdbxValid(m)) return;
  Built b = Build(m);
  Flat before = Flatten(Extract(*b.db));
  str path = scratch + "/a.kdbx";
  Outcome ex = ExportKdbx(path, *b.db, key);
  ctx.Trans();
  if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
  str d = Diff(before, Flatten(Extract(*b.db)));
  if (!d.empty()) return ctx.Fail("export altered the database: " + d);
  Outcome im = ImportKdbx(path, key);
  ctx.Trans();
  if (!im.ok) return ctx.Fail("import threw " + im.kind + ": " + im.what);
  Flat want = Flatten(ExpectKdbx(m)), got = Flatten(Extract(*im.db));
  ctx.State(Fingerprint(got));
  ctx.Trace();
  d = Diff(want, got);
  if (d.empty()) return;
  if (OnlyTrimmed(want, got)) return ctx.Known("edge-whitespace", "white space at the ends of unprotected text is lost: " + d);
  ctx.Fail("imported database differs: " + d);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C01";
  c.level = "model_checking";
  c.rule = "Deviation-bounded enumeration around a database in which every field is set: every value of every slot (1 deviation), every pair of "
           "slots and values of a smaller alphabet (2 deviations), all ordered group trees with all placements of entries, size boundaries; each is "
           "exported and imported by the real code and compared field by field and reference by reference with the model";
  c.assumptions = {"NUL in unprotected text, references to one of several groups with the same identifier and compression of protected or inline attachments are not representable in the format",
                   "AES, SHA-256 and zlib are taken from the installed libraries"};
  static const keepass::Key key("password");
  static std::vector<Slot> full = KdbxSlots(Alphabet::kFull), small = KdbxSlots(Alphabet::kSmall), medium = KdbxSlots(Alphabet::kMedium);
  typedef std::pair<int, int> SV;
  static std::vector<SV> one, dict, pair_vals;
  for (size_t s = 0; s < full.size(); ++s) for (size_t v = 0; v < full[s].values.size(); ++v) if (!full[s].plain || v < full[s].plain) one.push_back(SV(s, v)); else dict.push_back(SV(s, v));
  static std::vector<Slot>& pslots = small;
  for (size_t s = 0; s < pslots.size(); ++s) {
    size_t max = pslots[s].values.size();
    if (Quick() && max > 2) max = 2;
    for (size_t v = 0; v < max; ++v) pair_vals.push_back(SV(s, Quick() ? (v == 0 ? 0 : pslots[s].values.size() - 1) : v));
  }
  c.notes.push_back({"slots", Num(full.size())});

  auto desc1 = [](const std::vector<Slot>& sl, SV x) { return sl[x.first].name + " = " + sl[x.first].values[x.second].first; };
  c.Add("base", 2, [](uint64_t i, Ctx& ctx) { MDb m = RichDb(); m.compress = i; RoundTrip(m, ctx, key); });
  c.Add("one", one.size() * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = RichDb();
    m.compress = Take(i, 2);
    SV x = one[i];
    full[x.first].values[x.second].second(m);
    RoundTrip(m, ctx, key);
  }, [desc1](uint64_t i) { str z = Take(i, 2) ? "compressed " : ""; return z + desc1(full, one[i]); });

  c.Add("one-from-source", dict.size() * (Quick() ? 1 : 2), [](uint64_t i, Ctx& ctx) {
    MDb m = RichDb();
    m.compress = Quick() ? i & 1 : Take(i, 2);
    SV x = dict[i];
    full[x.first].values[x.second].second(m);
    RoundTrip(m, ctx, key);
  }, [desc1](uint64_t i) { str z = (Quick() ? i & 1 : Take(i, 2)) ? "compressed " : ""; return z + desc1(full, dict[i]); });

  // Every place holds a deviating value at once.
  c.Add("all", 12, [](uint64_t i, Ctx& ctx) {
    MDb m = RichDb();
    for (auto& s : medium) {
      if (s.name == "has_meta" || s.name == "root.uuid" || s.name == "pool" || s.name == "group.uuid") continue;
      if (s.name.find("history") != str::npos && s.name.find(".history") != str::npos) continue;
      if (s.name.find(".attachments") != str::npos || s.name.find(".assocs") != str::npos || s.name.find(".fields") != str::npos) continue;
      s.values[(i * 5 + 1) % (s.plain ? s.plain : s.values.size())].second(m);
    }
    m.compress = i & 1;
    RoundTrip(m, ctx, key);
  });

  static std::vector<std::vector<int>> forests;
  for (int n = 0; n <= (Quick() ? 6 : 8); ++n) for (auto& f : Forests(n)) forests.push_back(f);
  c.Add("trees", forests.size(), [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    SetForest(m.root, forests[i]);
    int n = 0;
    for (auto g : Preorder(m.root)) {
      int k = (n * 7 + int(i)) % 3;
      for (int j = 0; j < k; ++j) { MEntry e; e.uuid = MakeUuid(300 + n); e.title = MStr("e" + Num(n), j); e.password = MStr("p" + Num(n), true); g->entries.push_back(e); ++n; }
      ++n;
    }
    RoundTrip(m, ctx, key);
  }, [](uint64_t i) { str s = "depths"; for (int d : forests[i]) s += " " + Num(d); return s; });

  // All placements of up to k entries into all trees with few groups.
  struct Place { std::vector<int> depths; std::vector<int> at; };
  static std::vector<Place> places;
  for (int n = 0; n <= 3; ++n)
    for (auto& f : Forests(n)) {
      int maxk = Quick() ? 3 : 4;
      for (int k = 0; k <= maxk; ++k) {
        uint64_t total = 1;
        for (int j = 0; j < k; ++j) total *= n + 1;
        for (uint64_t x = 0; x < total; ++x) { Place p; p.depths = f; uint64_t y = x; for (int j = 0; j < k; ++j) p.at.push_back(int(Take(y, n + 1))); places.push_back(p); }
      }
    }
  c.Add("placements", places.size(), [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    SetForest(m.root, places[i].depths);
    auto gs = Preorder(m.root);
    int n = 0;
    for (int at : places[i].at) { MEntry e; e.uuid = MakeUuid(300 + n); e.title = MStr("e" + Num(n), n & 1); e.password = MStr("p" + Num(n), true); gs[at]->entries.push_back(e); ++n; }
    for (auto g : gs) if (!g->entries.empty()) g->last_visible = int(i % g->entries.size()); else if (n) g->last_visible = kElsewhere + int(i % n);
    m.compress = i & 1;
    RoundTrip(m, ctx, key);
  });

  c.Add("deep", 100 * 3, [](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 3)), n = int(i) + 1;
    MDb m = SmallDb();
    std::vector<int> d;
    for (int k = 0; k < (kind == 1 ? 1 : n); ++k) d.push_back(kind == 0 ? k : kind == 1 ? 0 : std::min(k, 50));
    SetForest(m.root, d);
    MEntry e; e.uuid = MakeUuid(300); e.title = "deepest";
    if (kind > 0) for (int k = 0; k < std::min(n, 48); ++k) { MEntry h; h.uuid = e.uuid; h.history.push_back(e); h.title = MStr("h" + Num(uint64_t(k)), k & 1); e = h; }
    Preorder(m.root).back()->entries.push_back(e);
    Preorder(m.root).front()->last_visible = kElsewhere;
    RoundTrip(m, ctx, key);
  }, nullptr, 60, 4);

  // Document size around the block and buffer sizes of all layers (XML is the content).
  static std::vector<int> sizes;
  for (int base : {16384, 32768, 65536, 1 << 20, 2 << 20}) for (int d = (Quick() ? -20 : -80); d <= (Quick() ? 20 : 80); ++d) sizes.push_back(base + d);
  for (int d = 0; d < 48; ++d) sizes.push_back(3000 + d);
  c.Add("sizes", sizes.size() * 3, [](uint64_t i, Ctx& ctx) {
    int mode = Take(i, 3);   // 0 plain, 1 compressible, 2 incompressible
    MDb m = SmallDb();
    // Calibrate: the XML without the padding text has a fixed size; cover a window around it.
    size_t n = sizes[i] > 4200 ? sizes[i] - 2600 : sizes[i];
    str t(n, 'a');
    if (mode == 2) { uint32_t x = 1; for (auto& ch : t) { x = x * 1664525 + 1013904223; ch = char('!' + (x >> 24) % 90); if (ch == '&' || ch == '<' || ch == '>' ) ch = 'q'; } }
    m.root.notes = t;
    m.compress = mode != 0;
    RoundTrip(m, ctx, key);
  }, [](uint64_t i) { int mode = Take(i, 3); return "text of " + Num(sizes[i]) + " bytes, mode " + Num(mode); }, 60, 2);

  uint64_t np = pair_vals.size();
  c.notes.push_back({"pair_values", Num(np)});
  c.Add("two", np * (np - 1) / 2, [](uint64_t i, Ctx& ctx) {
    uint64_t a = uint64_t((1 + __builtin_sqrt(1 + 8.0 * double(i))) / 2);
    while (a * (a - 1) / 2 > i) --a;
    while ((a + 1) * a / 2 <= i) ++a;
    uint64_t b = i - a * (a - 1) / 2;
    SV x = pair_vals[b], y = pair_vals[a];
    if (x.first == y.first) return;
    MDb m = RichDb();
    pslots[x.first].values[x.second].second(m);
    pslots[y.first].values[y.second].second(m);
    RoundTrip(m, ctx, key);
  }, [desc1](uint64_t i) {
    uint64_t a = uint64_t((1 + __builtin_sqrt(1 + 8.0 * double(i))) / 2);
    while (a * (a - 1) / 2 > i) --a;
    while ((a + 1) * a / 2 <= i) ++a;
    uint64_t b = i - a * (a - 1) / 2;
    return desc1(pslots, pair_vals[b]) + "; " + desc1(pslots, pair_vals[a]);
  }, 30, 64);

  AddLarge(c, "large", true, [](const MDb& m, Ctx& ctx) { RoundTrip(m, ctx, key); });
  AddSame(c, "identical identifiers", [](const MDb& m, Ctx& ctx) { RoundTrip(m, ctx, key); });
  AddMany(c, "large numbers", true, [](const MDb& m, Ctx& ctx) { RoundTrip(m, ctx, key); });
  if (!Quick()) {
    static std::vector<int> counts = {100, 1000, 70000};
    c.Add("many", counts.size() * 3, [](uint64_t i, Ctx& ctx) {
      int kind = Take(i, 3), n = counts[i];
      MDb m = SmallDb();
      if (kind == 0) for (int k = 0; k < n; ++k) { MGroup g; g.uuid = MakeUuid(1000 + k); g.name = "g" + Num(k); m.root.groups.push_back(g); }
      if (kind == 1) for (int k = 0; k < n; ++k) { MEntry e; e.uuid = MakeUuid(1000 + k); e.title = MStr("t" + Num(k)); e.password = MStr("p" + Num(k), true); m.root.entries.push_back(e); }
      if (kind == 2) { if (n > 1000) n = 2000; for (int k = 0; k < n; ++k) { MBin b; b.data = "d" + Num(k); m.bins.push_back(b); MEntry e; e.uuid = MakeUuid(1000 + k); e.atts.push_back(MAtt{"n", k}); m.root.entries.push_back(e); } m.pooled = n; }
      m.compress = true;
      RoundTrip(m, ctx, key);
    }, nullptr, 300, 1);
  }
}

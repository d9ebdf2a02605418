// Families of databases by number of deviations from a base database.
#pragma once
#include "model.hh"

namespace mc {

typedef std::pair<int, int> SV;                            // slot, value
typedef std::function<void(const MDb&, Ctx&)> DbRun;

inline std::vector<SV> AllValues(const std::vector<Slot>& s, size_t max_per_slot = ~size_t(0)) {
  std::vector<SV> r;
  for (size_t i = 0; i < s.size(); ++i) {
    size_t n = s[i].values.size();
    if (max_per_slot != ~size_t(0) && s[i].plain) n = s[i].plain;
    if (n <= max_per_slot) { for (size_t v = 0; v < n; ++v) r.push_back(SV(int(i), int(v))); continue; }
    // the first ones and the last
    for (size_t v = 0; v + 1 < max_per_slot; ++v) r.push_back(SV(int(i), int(v)));
    r.push_back(SV(int(i), int(n) - 1));
  }
  return r;
}
inline void PairOf(uint64_t i, uint64_t* a, uint64_t* b) {  // 0 <= b < a, numbered by a (a - 1) / 2 + b
  uint64_t x = uint64_t((1 + __builtin_sqrt(1 + 8.0 * double(i))) / 2);
  while (x * (x - 1) / 2 > i) --x;
  while ((x + 1) * x / 2 <= i) ++x;
  *a = x; *b = i - x * (x - 1) / 2;
}

// The slots and values must outlive the check (use static storage).
inline void AddOne(Check& c, const str& name, const std::vector<Slot>& slots, std::vector<SV> values, std::function<MDb()> base, DbRun run) {
  c.Add(name, values.size(), [=, &slots](uint64_t i, Ctx& ctx) { MDb m = base(); slots[values[i].first].values[values[i].second].second(m); run(m, ctx); },
        [=, &slots](uint64_t i) { return slots[values[i].first].name + " = " + slots[values[i].first].values[values[i].second].first; });
}
inline void AddTwo(Check& c, const str& name, const std::vector<Slot>& slots, std::vector<SV> values, std::function<MDb()> base, DbRun run) {
  uint64_t n = values.size();
  c.Add(name, n * (n - 1) / 2, [=, &slots](uint64_t i, Ctx& ctx) {
    uint64_t a, b; PairOf(i, &a, &b);
    SV x = values[b], y = values[a];
    if (x.first == y.first) return;
    MDb m = base();
    slots[x.first].values[x.second].second(m);
    slots[y.first].values[y.second].second(m);
    run(m, ctx);
  }, [=, &slots](uint64_t i) {
    uint64_t a, b; PairOf(i, &a, &b);
    return slots[values[b].first].name + " = " + slots[values[b].first].values[values[b].second].first + "; " + slots[values[a].first].name + " = " + slots[values[a].first].values[values[a].second].first;
  }, 30, 64);
}

// All ordered forests with up to max_nodes groups, with entries_per group in a fixed pattern.
inline void AddTrees(Check& c, const str& name, int max_nodes, bool root_entries, DbRun run) {
  auto forests = std::make_shared<std::vector<std::vector<int>>>();
  for (int n = 0; n <= max_nodes; ++n) for (auto& f : Forests(n)) forests->push_back(f);
  c.Add(name, forests->size(), [=](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    SetForest(m.root, (*forests)[i]);
    int n = 0;
    for (auto g : Preorder(m.root)) {
      int k = (n * 7 + int(i)) % 3;
      if (g == &m.root && !root_entries) k = 0;
      for (int j = 0; j < k; ++j) { MEntry e; e.uuid = MakeUuid(300 + n); e.title = MStr("e" + Num(n)); e.password = MStr("p" + Num(n), root_entries); g->entries.push_back(e); ++n; }
      ++n;
    }
    run(m, ctx);
  }, [=](uint64_t i) { str s = "depths"; for (int d : (*forests)[i]) s += " " + Num(d); return s; });
}

// All placements of up to max_entries entries in all forests with up to max_nodes groups.
inline void AddPlacements(Check& c, const str& name, int max_nodes, int max_entries, bool root_entries, DbRun run) {
  struct Place { std::vector<int> depths, at; };
  auto places = std::make_shared<std::vector<Place>>();
  for (int n = 0; n <= max_nodes; ++n)
    for (auto& f : Forests(n))
      for (int k = 0; k <= max_entries; ++k) {
        uint64_t hosts = uint64_t(n + (root_entries ? 1 : 0)), total = 1;
        for (int j = 0; j < k; ++j) total *= hosts;
        for (uint64_t x = 0; x < total; ++x) {
          Place p; p.depths = f;
          uint64_t y = x;
          for (int j = 0; j < k; ++j) p.at.push_back(int(Take(y, hosts)) + (root_entries ? 0 : 1));
          places->push_back(p);
        }
      }
  c.Add(name, places->size(), [=](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    const Place& p = (*places)[i];
    SetForest(m.root, p.depths);
    auto gs = Preorder(m.root);
    int n = 0;
    for (int at : p.at) { MEntry e; e.uuid = MakeUuid(300 + n); e.title = MStr("e" + Num(n), root_entries && (n & 1)); e.password = MStr("p" + Num(n), root_entries); gs[at]->entries.push_back(e); ++n; }
    if (root_entries) for (auto g : gs) if (!g->entries.empty()) g->last_visible = int(i % g->entries.size());
    run(m, ctx);
  }, [=](uint64_t i) { str s = "depths"; for (int d : (*places)[i].depths) s += " " + Num(d); s += ", entries in groups"; for (int a : (*places)[i].at) s += " " + Num(a); return s; });
}

// Very long texts and data in every kind of place.
inline void AddLarge(Check& c, const str& name, bool kdbx, DbRun run) {
  typedef std::function<void(MDb&, const str&)> Set;
  auto* places = new std::vector<std::pair<str, Set>>();
  auto add = [&](const char* n, Set f) { places->push_back({n, f}); };
  auto entry = [](MDb& m) -> MEntry& { return m.root.groups[0].entries[0]; };
  add("group name", [](MDb& m, const str& v) { m.root.groups[0].name = v; });
  add("title", [entry](MDb& m, const str& v) { entry(m).title = MStr(v); });
  add("url", [entry](MDb& m, const str& v) { entry(m).url = MStr(v); });
  add("user name", [entry](MDb& m, const str& v) { entry(m).username = MStr(v); });
  add("password", [entry, kdbx](MDb& m, const str& v) { entry(m).password = MStr(v, kdbx); });
  add("notes", [entry](MDb& m, const str& v) { entry(m).notes = MStr(v); });
  add("attachment name", [entry](MDb& m, const str& v) { MBin b; b.data = "data"; m.bins.push_back(b); entry(m).atts.push_back(MAtt{v, int(m.bins.size()) - 1}); });
  for (int k = 0; k < (kdbx ? 5 : 1); ++k)         // inline, inline protected, pooled, pooled compressed, pooled protected
    add(k == 0 ? "attachment" : k == 1 ? "protected attachment" : k == 2 ? "pooled attachment" : k == 3 ? "compressed attachment" : "protected pooled attachment", [entry, k](MDb& m, const str& v) {
      MBin b; b.data = v; b.prot = k == 1 || k == 4; b.compress = k == 3;
      m.bins.push_back(b); if (k > 1) m.pooled = 1;
      entry(m).atts.push_back(MAtt{"name", 0});
    });
  if (kdbx) {
    add("group notes", [](MDb& m, const str& v) { m.root.groups[0].notes = v; });
    add("group auto-type sequence", [](MDb& m, const str& v) { m.root.groups[0].sequence = v; });
    add("tags", [entry](MDb& m, const str& v) { entry(m).tags = v; });
    add("override url", [entry](MDb& m, const str& v) { entry(m).override_url = v; });
    add("auto-type sequence", [entry](MDb& m, const str& v) { entry(m).at_sequence = v; });
    add("window", [entry](MDb& m, const str& v) { entry(m).assocs.push_back(MAssoc{v, "s"}); });
    add("protected notes", [entry](MDb& m, const str& v) { entry(m).notes = MStr(v, true); });
    add("custom field", [entry](MDb& m, const str& v) { entry(m).fields.push_back(MField{"key", MStr(v)}); });
    add("name of a custom field", [entry](MDb& m, const str& v) { entry(m).fields.push_back(MField{v, MStr("value", true)}); });
    add("notes of the history", [entry](MDb& m, const str& v) { MEntry h = entry(m); h.notes = MStr(v); entry(m).history.push_back(h); });
    add("description", [](MDb& m, const str& v) { m.meta.desc.v = v; });
    add("custom data", [](MDb& m, const str& v) { m.meta.fields.push_back(std::make_pair("key", v)); });
    add("icon", [](MDb& m, const str& v) { MIcon ic; ic.uuid = MakeUuid(50); ic.data = v; m.icons.push_back(ic); m.root.custom_icon = 0; });
  }
  auto* sizes = new std::vector<size_t>{65535, 65537, 131073, (1 << 18) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 7};
  if (!Quick()) for (size_t n : {65534, 65536, 131071, 131072, (1 << 22) + 1, (1 << 23) + 3, 1 << 24, (1 << 24) + 1, (1 << 25) + 1}) sizes->push_back(n);
  size_t np = places->size(), huge = 3;
  auto what = [=](uint64_t i) -> std::pair<size_t, size_t> {
    uint64_t n = np * sizes->size();
    if (i < n) return {i % np, (*sizes)[i / np]};
    return {i - n == 0 ? 5 : i - n == 1 ? 7 : 1, size_t((1 << 24) + 1)};
  };
  c.Add(name, np * sizes->size() + huge, [=](uint64_t i, Ctx& ctx) {
    auto w = what(i);
    str v(w.second, 'x'); uint32_t x = uint32_t(w.second);
    for (auto& ch : v) { x = x * 1664525 + 1013904223; ch = char('!' + (x >> 24) % 94); }
    MDb m = SmallDb();
    m.compress = kdbx && i % 2; m.twofish = !kdbx && i % 2;
    if (!kdbx) m.master_seed.resize(16, 's');
    (*places)[w.first].second(m, v);
    ctx.Nontrivial();
    run(m, ctx);
  }, [=](uint64_t i) { auto w = what(i); return (*places)[w.first].first + " of " + Num(w.second) + " bytes"; }, 240, 1);
}

// Large numbers of everything.
const char* const kManyName[] = {"groups", "entries", "groups with an entry", "entries in the history", "attachments", "custom fields", "associations", "icons", "pooled attachments", "items of custom data"};
inline MDb ManyDb(int kind, int n, bool kdbx) {
  MDb m = SmallDb();
  if (!kdbx) m.master_seed.resize(16, 's');
  MEntry& e = m.root.groups[0].entries[0];
  MEntry one; one.title = MStr("title");
  for (int k = 0; k < n; ++k) {
    str t = Num(uint64_t(k));
    if (kind == 0 || kind == 2) { MGroup g; g.uuid = MakeUuid(1000 + k); g.name = "g" + t; if (kind == 2) { one.uuid = MakeUuid(100000 + k); one.title.v = "t" + t; g.entries.push_back(one); } m.root.groups.push_back(g); }
    if (kind == 1) { one.uuid = MakeUuid(100000 + k); one.title.v = "t" + t; m.root.groups[0].entries.push_back(one); }
    if (kind == 3) { one.uuid = e.uuid; one.title = MStr("t" + t, k % 2); e.history.push_back(one); }
    if (kind == 4 || kind == 8) { MBin b; b.data = "data" + t; b.prot = k % 3 == 1; m.bins.push_back(b); if (kind == 4 || k == n - 1 || k == 9 || k == 10) e.atts.push_back(MAtt{"a" + t, k}); }
    if (kind == 5) e.fields.push_back(MField{"k" + t, MStr("v" + t, k % 2)});
    if (kind == 6) e.assocs.push_back(MAssoc{"w" + t, "s" + t});
    if (kind == 7) { MIcon ic; ic.uuid = MakeUuid(100000 + k); ic.data = "icon" + t; m.icons.push_back(ic); e.custom_icon = k; }
    if (kind == 9) m.meta.fields.push_back(std::make_pair("k" + t, "v" + t));
  }
  if (kind == 8) m.pooled = n;
  return m;
}
inline void AddMany(Check& c, const str& name, bool kdbx, DbRun run) {
  auto* counts = new std::vector<int>{127, 128, 129, 255, 256, 257, 1000, 1025, 4097};
  if (!Quick()) for (int n : {32767, 32769, 65535, 65536, 65537}) counts->push_back(n);
  uint64_t kinds = kdbx ? 10 : 3, more = kdbx ? 2 : 3;
  auto what = [=](uint64_t i) -> std::pair<int, int> {
    uint64_t n = kinds * counts->size();
    if (i < n) return {int(i % kinds), (*counts)[i / kinds]};
    return {int(i - n), 65537};
  };
  c.Add(name, kinds * counts->size() + more, [=](uint64_t i, Ctx& ctx) {
    auto w = what(i);
    MDb m = ManyDb(w.first, w.second, kdbx);
    m.compress = kdbx && i % 2; m.twofish = !kdbx && i % 2;
    ctx.Nontrivial();
    run(m, ctx);
  }, [=](uint64_t i) { auto w = what(i); return Num(uint64_t(w.second)) + " " + kManyName[w.first]; }, 240, 1);
}

// Groups, and icons, with the same identifier, or one of zeros.
inline void AddSame(Check& c, const str& name, DbRun run) {
  MDb m0 = RichDb();
  int n = int(Preorder(m0.root).size()), k = int(m0.icons.size());
  c.Add(name, uint64_t(n * n + k + 1 + n), [=](uint64_t i, Ctx& ctx) {
    MDb m = RichDb();
    m.compress = i % 2;
    auto gs = Preorder(m.root);
    if (i < uint64_t(n * n)) {
      int a = int(i) / n, b = int(i) % n;
      gs[a]->uuid = a == b ? Uuid() : gs[b]->uuid;
      for (int* r : {&m.meta.recycle_bin, &m.meta.templates, &m.meta.last_selected, &m.meta.last_visible}) if (a != b && (*r == a || *r == b)) *r = -1;
    } else if (i <= uint64_t(n * n + k)) {
      int a = int(i) - n * n; MIcon ic; ic.data = "another icon";
      if (a < k) ic.uuid = m.icons[a].uuid;
      m.icons.push_back(ic);
    } else {
      // All of the groups but one.
      int a = int(i) - n * n - k - 1;
      for (int g = 0; g < n; ++g) if (g != a) gs[g]->uuid = MakeUuid(99);
      for (int* r : {&m.meta.recycle_bin, &m.meta.templates, &m.meta.last_selected, &m.meta.last_visible}) *r = a;
    }
    ctx.Nontrivial();
    run(m, ctx);
  }, nullptr);
}

}  // namespace mc

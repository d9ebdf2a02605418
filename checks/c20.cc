// C20: the JSON view of a database is valid JSON that shows exactly its contents.
#include <time.h>

#include <algorithm>
#include <cstring>

#include "ref.hh"

using namespace mc;
using ref::Json;

namespace {

// --- What the text must show, as a tree in the same form as a parsed text.
Json S(const str& s) { Json j; j.type = Json::kString; j.s = s; return j; }
Json N(uint64_t n) { Json j; j.type = Json::kNumber; j.s = Num(n); return j; }
Json Obj() { Json j; j.type = Json::kObject; return j; }
void Put(Json& o, const str& k, const Json& v) { o.members.push_back({k, v}); }
void Text(Json& o, const str& k, const str& v) { if (!v.empty()) Put(o, k, S(v)); }

str Local(int64_t t) {
  time_t x = t; tm b;
  localtime_r(&x, &b);
  ref::Civil c = ref::CivilOf(t + b.tm_gmtoff);
  char s[80]; snprintf(s, sizeof s, "%lld-%02d-%02d %02d:%02d:%02d", (long long)c.y, c.mo, c.d, c.h, c.mi, c.s);
  return s;
}
void Time(Json& o, const str& k, int64_t t) { if (t) Put(o, k, S(Local(t))); }

Json Want(const MDb& m, const MAtt& a) {
  Json o = Obj();
  Text(o, "name", a.name);
  if (a.bin >= 0) Text(o, "data", m.bins[a.bin].data);
  return o;
}
bool Meta(const MEntry& e) {
  bool bin = false;
  for (auto& a : e.atts) if (a.name == "bin-stream") bin = true;
  return e.title.v == "Meta-Info" && e.url.v == "$" && e.username.v == "SYSTEM" && !e.notes.v.empty() && bin;
}
Json Want(const MDb& m, const MEntry& e) {
  Json o = Obj();
  Put(o, "icon", N(e.icon));
  Text(o, "title", e.title.v); Text(o, "url", e.url.v); Text(o, "username", e.username.v); Text(o, "password", e.password.v); Text(o, "notes", e.notes.v);
  Time(o, "creation_time", e.t_creation); Time(o, "modification_time", e.t_mod); Time(o, "access_time", e.t_access); Time(o, "expiry_time", e.t_expiry);
  for (auto& a : e.atts) Put(o, "attachment", Want(m, a));
  return o;
}
Json Want(const MDb& m, const MGroup& g) {
  Json o = Obj();
  Put(o, "icon", N(g.icon));
  if (g.custom_icon >= 0) Put(o, "custom_icon", S("1"));
  Text(o, "name", g.name); Text(o, "notes", g.notes);
  Time(o, "creation_time", g.t_creation); Time(o, "modification_time", g.t_mod); Time(o, "access_time", g.t_access); Time(o, "expiry_time", g.t_expiry); Time(o, "move_time", g.t_move);
  if (g.flags) Put(o, "flags", N(g.flags));
  Json gs; gs.type = Json::kArray; for (auto& x : g.groups) gs.items.push_back(Want(m, x));
  if (!gs.items.empty()) Put(o, "groups", gs);
  Json es; es.type = Json::kArray; for (auto& x : g.entries) if (!Meta(x)) es.items.push_back(Want(m, x));
  if (!es.items.empty()) Put(o, "entries", es);
  return o;
}

// Compares by value: members in any order, empty lists as absent ones.
str Same(const Json& w, const Json& g, const str& at) {
  if (w.type != g.type) return at + " has another type";
  if (w.type == Json::kString || w.type == Json::kNumber) return w.s == g.s ? "" : at + " is " + Quote(g.s) + " instead of " + Quote(w.s);
  if (w.type == Json::kArray) {
    if (w.items.size() != g.items.size()) return at + " has " + Num(g.items.size()) + " elements instead of " + Num(w.items.size());
    for (size_t i = 0; i < w.items.size(); ++i) { str e = Same(w.items[i], g.items[i], at + "[" + Num(i) + "]"); if (!e.empty()) return e; }
    return "";
  }
  if (w.type != Json::kObject) return w.b == g.b ? "" : at + " differs";
  auto members = [](const Json& j) { std::vector<std::pair<str, Json>> r; for (auto& m : j.members) if (m.second.type != Json::kArray || !m.second.items.empty()) r.push_back(m); std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; }); return r; };
  auto a = members(w), b = members(g);
  for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
    if (i >= a.size() || (i < b.size() && b[i].first < a[i].first)) return at + " has a member " + Quote(b[i].first) + " too many";
    if (i >= b.size() || a[i].first < b[i].first) return at + " lacks the member " + Quote(a[i].first);
    str e = Same(a[i].second, b[i].second, at + "." + a[i].first);
    if (!e.empty()) return e;
  }
  return "";
}

const char* kTwice = "an entry with several attachments has several members of the same name, of which JSON parsers keep one";

str Judge(const str& text, const Json& want, Ctx& ctx) {
  Json got; str e;
  ctx.Trans(); ctx.Trace();
  bool ok = ref::ParseJson(text, &got, &e);
  if (!ok && e.find("duplicate member") == 0) {
    got = Json(); e.clear();
    if (ref::ParseJson(text, &got, &e, true)) { e = Same(want, got, "root"); if (e.empty()) { ctx.Known("several-attachments", kTwice); return ""; } return e; }
    return "not valid JSON: " + e;
  }
  if (!ok) return "not valid JSON: " + e + ": " + Quote(text, 200);
  e = Same(want, got, "root");
  return e;
}

// The root group, every entry and every attachment.
void Check1(const MDb& m, const keepass::Database& db, Ctx& ctx) {
  str text = db.root()->ToJson();
  ctx.State(text);
  str e = Judge(text, Want(m, m.root), ctx);
  if (!e.empty()) return ctx.Fail(e);
  std::function<void(const MGroup&, const keepass::Group&)> walk = [&](const MGroup& g, const keepass::Group& r) {
    for (size_t i = 0; i < g.entries.size() && !ctx.failed(); ++i) {
      str x = Judge(r.Entries()[i]->ToJson(), Want(m, g.entries[i]), ctx);
      if (!x.empty()) return ctx.Fail("an entry: " + x);
      auto& as = r.Entries()[i]->attachments();
      for (size_t k = 0; k < as.size(); ++k) { x = Judge(as[k]->ToJson(), Want(m, g.entries[i].atts[k]), ctx); if (!x.empty()) return ctx.Fail("an attachment: " + x); }
    }
    for (size_t i = 0; i < g.groups.size() && !ctx.failed(); ++i) walk(g.groups[i], *r.Groups()[i]);
  };
  walk(m.root, *db.root());
}
void Run(const MDb& m, Ctx& ctx) { Built b = Build(m); Check1(m, *b.db, ctx); }

// --- Text fields
const char* const kFields[] = {"title", "url", "username", "password", "notes", "attachment name", "attachment data", "group name", "group notes"};
const int kFieldCount = 9;
MDb With(int field, const str& text) {
  MDb m = SmallDb();
  MGroup& g = m.root.groups[0]; MEntry& e = g.entries[0];
  switch (field) {
    case 0: e.title = MStr(text); break; case 1: e.url = MStr(text); break; case 2: e.username = MStr(text, true); break; case 3: e.password = MStr(text, true); break; case 4: e.notes = MStr(text); break;
    case 5: { MAtt a; a.name = text; e.atts.push_back(a); break; }
    case 6: { MBin b; b.data = text; m.bins.push_back(b); MAtt a; a.name = "a"; a.bin = 0; e.atts.push_back(a); break; }
    case 7: g.name = text; break; case 8: m.root.notes = text; break;
  }
  return m;
}

str Word(uint64_t k, const std::vector<str>& letters) {            // all words in order of length
  str s; uint64_t n = letters.size();
  uint64_t len = 0, size = 1;
  while (k >= size) { k -= size; size *= n; ++len; }
  for (uint64_t i = 0; i < len; ++i) { s += letters[k % n]; k /= n; }
  return s;
}
uint64_t Words(uint64_t letters, uint64_t max) { uint64_t r = 0, size = 1; for (uint64_t l = 0; l <= max; ++l, size *= letters) r += size; return r; }

const int64_t kTimes[] = {1, -1, 1404165600, 951782399, 4102444800, 1396141200, 1414285200, -2177452800, 253370764800, 32503676399, -3000000000};

MEntry Plain(int n) { MEntry e; e.uuid = MakeUuid(300 + n); e.title = MStr("e" + SNum(n)); return e; }
MEntry MetaEntry(int bits) {                                       // all five conditions at 31
  MEntry e; e.uuid = MakeUuid(400 + bits);
  e.title = MStr(bits & 1 ? "Meta-Info" : "meta-info"); e.url = MStr(bits & 2 ? "$" : "$ "); e.username = MStr(bits & 4 ? "SYSTEM" : ""); e.notes = MStr(bits & 8 ? "n" : "");
  if (bits & 16) { MAtt a; a.name = "bin-stream"; e.atts.push_back(a); } else if (bits & 32) { MAtt a; a.name = "bin-streams"; e.atts.push_back(a); }
  return e;
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C20";
  c.level = "model_checking";
  c.rule = "Databases of the object model: every byte value alone and at both ends of every text field, all pairs of bytes, all words over the characters that matter to JSON, all "
           "subsets of the fields of an entry and of a group, all group flags, all forests with all kinds of entries per group, all combinations of the conditions of a meta entry and "
           "sequences of meta and plain entries, times in several zones, databases imported from both formats; the text is parsed by an independent strict JSON parser and compared "
           "as a tree of values with the model, for the root group, every entry and every attachment";
  c.assumptions = {"bytes from 0x80 up are taken as they are (JSON in the text's own encoding)", "times are within the years that the C library can express"};
  bool q = Quick();

  c.Add("bytes", 256 * kFieldCount, [](uint64_t i, Ctx& ctx) {
    int f = int(Take(i, kFieldCount)); str b(1, char(i));
    for (const str& s : {b, b + "x", "x" + b, "x" + b + "y", b + b, "\"" + b, "\\" + b, b + "0041", "\xc3" + b}) { Run(With(f, s), ctx); if (ctx.failed()) return; }
    ctx.Nontrivial();
  }, [](uint64_t i) { int f = int(Take(i, kFieldCount)); return str(kFields[f]) + " with byte " + Num(i); });
  c.Add("pairs of bytes", 256 * (q ? 2 : kFieldCount), [](uint64_t i, Ctx& ctx) {
    int f = int(i / 256); int a = int(i % 256);
    if (Quick()) f = f ? 6 : 0;
    for (int b = 0; b < 256 && !ctx.failed(); ++b) Run(With(f, str(1, char(a)) + char(b)), ctx);
    ctx.Nontrivial();
  }, [](uint64_t i) { int f = int(i / 256); if (Quick()) f = f ? 6 : 0; return str(kFields[f]) + " with byte " + Num(i % 256) + " and every other"; });
  auto letters = std::make_shared<std::vector<str>>(std::vector<str>{"\"", "\\", "a", "\n", "u", "0", "\x80", str(1, '\0'), "/", "{"});
  uint64_t words = Words(letters->size(), q ? 4 : 5);
  c.Add("words", words * 3, [=](uint64_t i, Ctx& ctx) { static const int fs[] = {0, 6, 7}; int f = fs[Take(i, 3)]; Run(With(f, Word(i, *letters)), ctx); ctx.Nontrivial(); },
        [=](uint64_t i) { static const int fs[] = {0, 6, 7}; int f = fs[Take(i, 3)]; return str(kFields[f]) + " = " + Quote(Word(i, *letters)); });
  // Long texts.
  c.Add("long", 40 * kFieldCount, [](uint64_t i, Ctx& ctx) { int f = int(Take(i, kFieldCount)); static const size_t n[] = {127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536, 1000000}; if (i / 2 >= 13) return; Run(With(f, str(n[i / 2], i % 2 ? '\x01' : 'x') + "\""), ctx); },
        [](uint64_t i) { int f = int(Take(i, kFieldCount)); return str(kFields[f]) + " long " + Num(i); });

  // Subsets of the fields.
  c.Add("entry fields", 1 << 12, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    MEntry e; e.uuid = MakeUuid(3);
    if (i & 1) e.icon = 67; if (i & 2) e.title = MStr("t"); if (i & 4) e.url = MStr("u"); if (i & 8) e.username = MStr("n"); if (i & 16) e.password = MStr("p", true); if (i & 32) e.notes = MStr("o");
    if (i & 64) e.t_creation = kT(1); if (i & 128) e.t_mod = kT(2); if (i & 256) e.t_access = kT(3); if (i & 512) e.t_expiry = kT(4);
    if (i & 1024) { MAtt a; a.name = "a"; if (i & 2048) { MBin b; b.data = "d"; m.bins.push_back(b); a.bin = 0; } e.atts.push_back(a); }
    else if (i & 2048) { MAtt a; MBin b; b.data = "d"; m.bins.push_back(b); a.bin = 0; e.atts.push_back(a); }
    // Fields that are not shown.
    e.t_move = kT(5); e.usage = 3; e.tags = "tag"; e.override_url = "o"; e.bg = "b"; e.fg = "f"; e.history.push_back(Plain(9)); e.expires = true;
    m.root.groups[0].entries[0] = e;
    Run(m, ctx); ctx.Nontrivial();
  }, [](uint64_t i) { return "the set of fields " + Num(i) + " of an entry"; });
  c.Add("group fields", 1 << 12, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    MIcon ic; ic.uuid = MakeUuid(50); ic.data = "icon"; m.icons.push_back(ic);
    MGroup g; g.uuid = MakeUuid(2);
    if (i & 1) g.icon = 48; if (i & 2) g.custom_icon = 0; if (i & 4) g.name = "n"; if (i & 8) g.notes = "o"; if (i & 16) g.t_creation = kT(1); if (i & 32) g.t_mod = kT(2); if (i & 64) g.t_access = kT(3);
    if (i & 128) g.t_expiry = kT(4); if (i & 256) g.t_move = kT(5); if (i & 512) g.flags = 1; if (i & 1024) { MGroup s; s.uuid = MakeUuid(6); g.groups.push_back(s); } if (i & 2048) g.entries.push_back(Plain(1));
    m.root.groups[0] = g;
    Run(m, ctx); ctx.Nontrivial();
  }, [](uint64_t i) { return "the set of fields " + Num(i) + " of a group"; });
  c.Add("flags and icons", 256, [](uint64_t i, Ctx& ctx) {
    for (uint64_t k = 0; k < 256 && !ctx.failed(); ++k) {
      MDb m = SmallDb();
      MGroup& g = m.root.groups[0];
      g.flags = uint32_t(i * 256 + k) * (k & 1 ? 65537u : 1u); g.icon = uint32_t((i * 256 + k) * 65537u); g.entries[0].icon = uint32_t((i * 256 + k) ^ (i << 24));
      Run(m, ctx);
    }
    ctx.Nontrivial();
  }, [](uint64_t i) { return "flags from " + Num(i * 256) + " on"; });

  // Times in zones.
  static const char* const zones[] = {"CET-1CEST,M3.5.0,M10.5.0/3", "UTC0", "NST3:30NDT,M3.2.0,M11.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "<+14>-14"};
  c.Add("times", 6 * 9 * (365 + 11), [](uint64_t i, Ctx& ctx) {
    const char* z = zones[Take(i, 6)]; int f = int(Take(i, 9));
    SetTz(z);
    int64_t t = i < 365 ? 1388534400 + int64_t(i) * 86400 + int64_t(i * 7919 % 86400) : kTimes[i - 365];
    MDb m = SmallDb();
    MGroup& g = m.root.groups[0]; MEntry& e = g.entries[0];
    int64_t* fs[] = {&e.t_creation, &e.t_mod, &e.t_access, &e.t_expiry, &g.t_creation, &g.t_mod, &g.t_access, &g.t_expiry, &g.t_move};
    *fs[f] = t;
    Run(m, ctx); ctx.Nontrivial();
    SetTz(zones[0]);
  }, [](uint64_t i) { const char* z = zones[Take(i, 6)]; int f = int(Take(i, 9)); return "time field " + SNum(f) + " value " + Num(i) + " in zone " + z; });

  // Trees: each group has no entry, one, two, a meta entry, or a meta entry between others.
  for (int n = 0; n <= (q ? 4 : 5); ++n) {
    auto fs = std::make_shared<std::vector<std::vector<int>>>(Forests(n));
    uint64_t kinds = 1; for (int k = 0; k <= n; ++k) kinds *= 5;
    c.Add("trees of " + SNum(n), fs->size() * kinds, [=](uint64_t i, Ctx& ctx) {
      MDb m = SmallDb();
      SetForest(m.root, (*fs)[Take(i, fs->size())]);
      int id = 0;
      for (MGroup* g : Preorder(m.root)) {
        int k = int(Take(i, 5)); g->entries.clear();
        if (k == 1 || k == 2 || k == 4) g->entries.push_back(Plain(id++));
        if (k == 3 || k == 4) g->entries.push_back(MetaEntry(31));
        if (k == 2 || k == 4) g->entries.push_back(Plain(id++));
      }
      Run(m, ctx); ctx.Nontrivial();
    }, [=](uint64_t i) { str d; for (int x : (*fs)[Take(i, fs->size())]) d += SNum(x); return "forest " + d + " with entries " + Num(i); });
  }
  c.Add("deep", q ? 37 : 143, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb(); std::vector<int> d; for (uint64_t k = 0; k <= i * 7; ++k) d.push_back(int(k)); SetForest(m.root, d); Run(m, ctx);
  }, [](uint64_t i) { return Num(i * 7 + 1) + " levels"; });

  // Meta entries.
  c.Add("meta conditions", 64 * 64, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    int a = int(Take(i, 64)), b = int(i);
    m.root.groups[0].entries = {MetaEntry(a), MetaEntry(b)};
    Run(m, ctx); if (a == 31 || b == 31) ctx.Nontrivial();
  }, [](uint64_t i) { uint64_t a = Take(i, 64); return "two entries with meta conditions " + Num(a) + " and " + Num(i); });
  uint64_t mw = Words(3, q ? 6 : 8);
  c.Add("meta sequences", mw, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb(); auto& es = m.root.groups[0].entries; es.clear();
    int n = 0; for (char x : Word(i, {"p", "m", "q"})) { MEntry e = x == 'p' ? Plain(n++) : MetaEntry(x == 'm' ? 31 : 15); if (x == 'm') { MAtt a; a.name = "z"; if (n % 2) e.atts.insert(e.atts.begin(), a); } es.push_back(e); }
    Run(m, ctx); ctx.Nontrivial();
  }, [](uint64_t i) { return "entries " + Word(i, {"p", "m", "q"}); });
  static const str texts[] = {"Meta-Info", "meta-info", "Meta-Info ", " Meta-Info", "Meta", str("Meta-Info\0", 10), "$", "$$", "", "SYSTEM", "system", "SYSTEM2", "bin-stream", "bin-stream2", "n"};
  c.Add("meta texts", 15 * 5, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb(); MEntry e = MetaEntry(31); const str& t = texts[Take(i, 15)];
    if (i == 0) e.title.v = t; if (i == 1) e.url.v = t; if (i == 2) e.username.v = t; if (i == 3) e.notes.v = t; if (i == 4) e.atts[0].name = t;
    m.root.groups[0].entries = {e};
    Run(m, ctx); ctx.Nontrivial();
  }, [](uint64_t i) { const str& t = texts[Take(i, 15)]; return "meta entry with condition " + Num(i) + " text " + Quote(t); });
  // Several attachments.
  c.Add("attachments", Words(4, 4), [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb(); auto& e = m.root.groups[0].entries[0];
    for (char x : Word(i, {"a", "b", "c", "d"})) { MAtt a; if (x == 'a' || x == 'b') a.name = str(1, x); if (x == 'b' || x == 'c') { MBin b; b.data = "d\""; m.bins.push_back(b); a.bin = int(m.bins.size()) - 1; } e.atts.push_back(a); }
    Run(m, ctx); ctx.Nontrivial();
  }, [](uint64_t i) { return "attachments " + Word(i, {"a", "b", "c", "d"}); });

  // Imported databases.
  for (int kdbx = 0; kdbx < 2; ++kdbx) {
    auto slots = std::make_shared<std::vector<std::pair<str, std::function<void(MDb&)>>>>();
    for (auto& s : kdbx ? KdbxSlots(Alphabet::kFull) : KdbSlots(Alphabet::kFull)) for (auto& v : s.values) slots->push_back({s.name + " = " + v.first, v.second});
    c.Add(kdbx ? "imported KDBX" : "imported KDB", slots->size(), [=](uint64_t i, Ctx& ctx) {
      MDb m = kdbx ? RichDb() : RichKdb();
      (*slots)[i].second(m);
      if (m.rounds > 1000) m.rounds = 1;
      if (kdbx ? !KdbxValid(m) : !KdbRepresentable(m)) return;
      Built b = Build(m);
      keepass::Key key = ref::LibKey(ref::KeySpec());
      str path = scratch + "/j";
      if (!(kdbx ? ExportKdbx(path, *b.db, key) : ExportKdb(path, *b.db, key)).ok) return;
      Outcome im = kdbx ? ImportKdbx(path, key) : ImportKdb(path, key);
      if (!im.ok) return;
      Check1(Extract(*im.db), *im.db, ctx); ctx.Nontrivial();
    }, [=](uint64_t i) { return (*slots)[i].first; });
  }
}

// C22: times survive storage to the second in every time zone.
#include <time.h>
#include <unistd.h>

#include <map>
#include <set>

#include "ref.hh"

using namespace mc;

namespace {

std::vector<str> Zones() {
  std::vector<str> z = {"CET-1CEST,M3.5.0,M10.5.0/3", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "<+14>-14",
                        "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "AAA23:59:59", "BBB-23:59:59"};
  for (const char* n : {"Europe/Stockholm", "Europe/Dublin", "Europe/Lisbon", "Asia/Kathmandu", "Africa/Monrovia", "Africa/Casablanca", "America/New_York", "America/Caracas", "Pacific/Apia", "Australia/Lord_Howe", "Asia/Riyadh", "America/Sao_Paulo", "Antarctica/Troll"})
    if (access((str("/usr/share/zoneinfo/") + n).c_str(), R_OK) == 0) z.push_back(n);
  return z;
}
std::vector<str> g_zones = Zones();

// Seconds east of UTC, as the system's time zone data has it.
int64_t Off(int64_t t) { time_t x = t; tm b; return localtime_r(&x, &b) ? b.tm_gmtoff : 0; }

// The offset changes of a zone between two times, found by bisection between points a day apart.
std::vector<int64_t> Transitions(int64_t from, int64_t to) {
  std::vector<int64_t> r;
  int64_t step = 86400 * 5, prev = from, po = Off(from);
  for (int64_t t = from + step; t <= to; t += step) {
    int64_t o = Off(t);
    if (o != po) { int64_t a = prev, b = t; while (b - a > 1) { int64_t m = a + (b - a) / 2; if (Off(m) == po) a = m; else b = m; } r.push_back(b); po = o; }
    prev = t;
  }
  return r;
}

str Pack(const ref::Civil& c) {
  uint64_t v = uint64_t(c.y) << 26 | uint64_t(c.mo) << 22 | uint64_t(c.d) << 17 | uint64_t(c.h) << 12 | uint64_t(c.mi) << 6 | uint64_t(c.s);
  str s; for (int i = 4; i >= 0; --i) s += char(v >> (8 * i));
  return s;
}
const str kNever("\x2e\xdf\x39\x7e\xfb", 5);
const int64_t kKdbxNever = ref::FromCivil({2999, 12, 28, 22, 59, 59});

typedef std::vector<int64_t> Times;

// Puts the times into a database: five into each entry, and the rest of the last entry and the group get the first.
MDb Fill(const Times& ts, bool kdbx) {
  MDb m = SmallDb();
  m.rounds = 0;
  size_t per = kdbx ? 5 : 4;
  MGroup& g = m.root.groups[0];
  g.entries.clear();
  for (size_t i = 0; i < ts.size(); i += per) {
    MEntry e; e.uuid = MakeUuid(int(100 + i));
    int64_t* f[] = {&e.t_creation, &e.t_mod, &e.t_access, &e.t_expiry, &e.t_move};
    for (size_t k = 0; k < per; ++k) *f[k] = ts[i + k < ts.size() ? i + k : 0];
    g.entries.push_back(e);
  }
  g.t_creation = ts[0]; g.t_mod = ts[ts.size() / 5]; g.t_access = ts[ts.size() / 3]; g.t_expiry = ts[ts.size() / 2];
  if (kdbx) {
    g.t_move = ts.back();
    m.root.t_creation = ts.back(); m.meta.key_changed = ts[ts.size() / 7]; m.meta.recycle_changed = ts[ts.size() / 6]; m.meta.templates_changed = ts[ts.size() / 4];
    m.meta.name.t = ts[ts.size() / 11]; m.meta.desc.t = ts[ts.size() / 12]; m.meta.user.t = ts[ts.size() / 13];
  }
  return m;
}

str Show(int64_t t) { ref::Civil c = ref::CivilOf(t); char b[80]; snprintf(b, sizeof b, "%lld (%lld-%02d-%02d %02d:%02d:%02d UTC)", (long long)t, (long long)c.y, c.mo, c.d, c.h, c.mi, c.s); return b; }

// Written in one zone, decoded by the reference, read in others.
void RunKdbx(Times ts, const str& writer, const std::vector<str>& readers, Ctx& ctx) {
  for (auto& t : ts) if (t == kKdbxNever) t = 0;                // the format's own never
  MDb m = Fill(ts, true);
  SetTz(writer.c_str());
  Built b = Build(m);
  keepass::Key key = ref::LibKey(ref::KeySpec());
  str path = scratch + "/t.kdbx";
  Outcome o = ExportKdbx(path, *b.db, key);
  if (!o.ok) return ctx.Fail("the export throws in zone " + writer + ": " + o.what);
  MDb d;
  str e = ref::DecodeKdbx(ReadFile(path), ref::KeySpec(), &d);
  ctx.Trans(); ctx.Trace();
  if (!e.empty()) return ctx.Fail("the file is not right: " + e);
  Flat want = Flatten(ExpectKdbx(m));
  e = Diff(want, Flatten(d));
  if (!e.empty()) return ctx.Fail("stored in zone " + writer + ": " + e);
  for (auto& r : readers) {
    SetTz(r.c_str());
    Outcome im = ImportKdbx(path, key);
    ctx.Trans(); ctx.Trace(ts.size());
    if (!im.ok) return ctx.Fail("the import throws: " + im.what);
    e = Diff(want, Flatten(Extract(*im.db)));
    if (!e.empty()) return ctx.Fail("stored in zone " + writer + ", read in zone " + r + ": " + e);
  }
  ctx.Nontrivial(ts.size());
  ctx.State(Hash(&ts[0], ts.size() * 8, Hash(writer)));
}

void RunKdb(Times ts, const str& zone, Ctx& ctx) {
  SetTz(zone.c_str());
  ref::KeySpec spec;
  for (auto& t : ts) if (t == -1 || Pack(ref::CivilOf(t + Off(t))) == kNever) t = 0;
  MDb m = Fill(ts, false);
  Built b = Build(m);
  keepass::Key key = ref::LibKey(spec);
  str path = scratch + "/t.kdb";
  Outcome o = ExportKdb(path, *b.db, key);
  ctx.Trans();
  if (!o.ok) return ctx.Fail("the export throws in zone " + zone + ": " + o.what);
  MDb d; ref::KdbParts parts;
  ref::DecodeKdb(ReadFile(path), spec, &d, &parts);
  auto& es = m.root.groups[0].entries;
  if (parts.entries.size() != es.size()) return ctx.Fail("the file does not hold all entries");
  auto stored = [&](const ref::KdbRecord& r, uint16_t type) { for (auto& f : r.fields) if (f.first == type) return f.second; return str(); };
  auto packed = [&](int64_t t) { return t == 0 ? kNever : Pack(ref::CivilOf(t + Off(t))); };
  Outcome im = ImportKdb(path, key);
  ctx.Trans(); ctx.Trace(ts.size());
  if (!im.ok) return ctx.Fail("the import throws in zone " + zone + ": " + im.what);
  MDb got = Extract(*im.db);
  if (got.root.groups.size() != 1 || got.root.groups[0].entries.size() != es.size()) return ctx.Fail("entries are lost");
  auto judge = [&](int64_t t, const str& raw, int64_t back) {
    if (raw != packed(t)) { ctx.Fail("in zone " + zone + " the time " + Show(t) + " is stored as " + Hex(raw) + " instead of " + Hex(packed(t))); return; }
    if (back == t) return;
    // An hour that occurs twice has two times.
    if (t != 0 && back != 0 && packed(back) == raw) { ctx.State("twice"); return; }
    ctx.Fail("in zone " + zone + " the time " + Show(t) + " is read back as " + Show(back));
  };
  for (size_t i = 0; i < es.size() && !ctx.failed(); ++i) {
    auto& g = got.root.groups[0].entries[i];
    judge(es[i].t_creation, stored(parts.entries[i], 9), g.t_creation); judge(es[i].t_mod, stored(parts.entries[i], 10), g.t_mod);
    judge(es[i].t_access, stored(parts.entries[i], 11), g.t_access); judge(es[i].t_expiry, stored(parts.entries[i], 12), g.t_expiry);
  }
  MGroup &w = m.root.groups[0], &g = got.root.groups[0];
  if (parts.groups.size() != 1) return ctx.Fail("the file does not hold one group");
  judge(w.t_creation, stored(parts.groups[0], 3), g.t_creation); judge(w.t_mod, stored(parts.groups[0], 4), g.t_mod);
  judge(w.t_access, stored(parts.groups[0], 5), g.t_access); judge(w.t_expiry, stored(parts.groups[0], 6), g.t_expiry);
  ctx.Nontrivial(ts.size());
  ctx.State(Hash(&ts[0], ts.size() * 8, Hash(zone)));
}

const size_t kBatch = 1500;
typedef std::function<int64_t(uint64_t)> Nth;

void AddTimes(Check& c, const str& name, uint64_t n, Nth nth, const std::vector<str>& zones, bool kdb = true, bool kdbx_too = true) {
  auto zs = std::make_shared<std::vector<str>>(zones);
  uint64_t batches = (n + kBatch - 1) / kBatch, nz = zones.size();
  c.Add(name, batches * nz * (kdb && kdbx_too ? 2 : 1), [=](uint64_t i, Ctx& ctx) {
    bool kdbx = kdb && kdbx_too ? Take(i, 2) : kdbx_too;
    size_t z = size_t(Take(i, nz));
    Times ts;
    for (uint64_t k = i * kBatch; k < (i + 1) * kBatch && k < n; ++k) ts.push_back(nth(k));
    std::vector<str> readers{(*zs)[z], g_zones[(z + 1 + i) % g_zones.size()]};
    if (!Quick()) for (size_t k = 2; k < 4; ++k) readers.push_back(g_zones[(z + k + i) % g_zones.size()]);
    if (kdbx) RunKdbx(ts, (*zs)[z], readers, ctx); else RunKdb(ts, (*zs)[z], ctx);
  }, [=](uint64_t i) { bool kdbx = kdb && kdbx_too ? Take(i, 2) : kdbx_too; size_t z = size_t(Take(i, nz)); return str(kdbx ? "KDBX" : "KDB") + " in zone " + (*zs)[z] + ", times from " + Show(nth(i * kBatch)) + " on"; }, 60);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C22";
  c.level = "model_checking";
  c.rule = "Times in batches as fields of entries, groups and metadata: every day of 1901 to 2999 at a varying time of day, every second of chosen days, every minute around each change "
           "of offset of a zone with the seconds next to it, the limits of the formats; in rule-based zones and zones of the system's database (all offsets incl. seconds, half hours, "
           "historic changes). KDBX files are decoded by an independent reference (text form in UTC) and read in the same and in other zones; KDB files are compared byte for byte with "
           "the packed local time and read in the same zone. Exact equality, except for the twin of an hour that occurs twice.";
  c.assumptions = {"the C library's time zone data gives the local offset of a time", "-1 is never in KDB", "each format's never value is not used as a time"};
  bool q = Quick();
  int64_t d0 = ref::DaysFromCivil(1901, 1, 1), d1 = ref::DaysFromCivil(3000, 1, 1);
  AddTimes(c, "days", uint64_t(d1 - d0), [d0](uint64_t k) { return (d0 + int64_t(k)) * 86400 + int64_t(k * 7919 % 86400); }, g_zones, true, !q);
  if (q) AddTimes(c, "days in KDBX", uint64_t(d1 - d0), [d0](uint64_t k) { return (d0 + int64_t(k)) * 86400 + int64_t(k * 7919 % 86400); }, {g_zones[1], g_zones[8]}, false);
  // Days of all kinds: leap days, ends of years, leap seconds' days, the epoch, the end of 32 bits.
  static std::vector<int64_t> days;
  days = {0, -1, ref::DaysFromCivil(2000, 2, 29), ref::DaysFromCivil(2015, 6, 30), ref::DaysFromCivil(2038, 1, 19), ref::DaysFromCivil(1999, 12, 31), ref::DaysFromCivil(2014, 3, 30), ref::DaysFromCivil(2014, 10, 26), ref::DaysFromCivil(1901, 12, 13)};
  if (!q) for (int mo = 1; mo <= 12; ++mo) days.push_back(ref::DaysFromCivil(2024, mo, 15));
  std::vector<str> some = q ? std::vector<str>{g_zones[0], g_zones[5], g_zones.back()} : g_zones;
  AddTimes(c, "seconds", days.size() * 86400, [](uint64_t k) { return days[k / 86400] * 86400 + int64_t(k % 86400); }, some);
  // Changes of offset.
  static std::map<str, std::vector<int64_t>> changes;
  int64_t from = ref::FromCivil({1901, 1, 1, 0, 0, 0}), to = ref::FromCivil({q ? 2050 : 2200, 1, 1, 0, 0, 0});
  for (auto& z : g_zones) {
    SetTz(z.c_str());
    auto& ch = changes[z];
    ch = Transitions(from, to);
    if (ch.empty()) continue;
    // The seconds next to it and each minute within three and a half hours before and after.
    const std::vector<int64_t>* p = &ch;
    AddTimes(c, "changes of " + z, ch.size() * 424, [p](uint64_t k) {
      int64_t t = (*p)[k / 424]; int i = int(k % 424);
      if (i < 421) return t + (i - 210) * 60 + (i * 7) % 60;
      return t + (i - 422);
    }, {z}, true, !q || ch.size() < 100);
    c.notes.push_back({"changes of offset of " + z, Num(ch.size())});
  }
  SetTz(g_zones[0].c_str());
  // Limits: years with fewer than four digits, the ends of months to the last year of each format.
  AddTimes(c, "years of KDBX", 9999 * 4, [](uint64_t k) { int64_t y = int64_t(k / 4) + 1; switch (k % 4) { case 0: return ref::FromCivil({y, 1, 1, 0, 0, 0}); case 1: return ref::FromCivil({y, 12, 31, 23, 59, 59}); case 2: return ref::FromCivil({y, 3, 1, 0, 0, 0}) - 1; default: return ref::FromCivil({y, 10, 9, 8, 7, 6}); } }, some, false);
  // Years the packed form holds.
  auto zs = std::make_shared<std::vector<str>>(g_zones);
  uint64_t years = 16383 - 1901;
  uint64_t batches = (years * 3 + kBatch - 1) / kBatch;
  c.Add("years of KDB", batches * zs->size(), [=](uint64_t i, Ctx& ctx) {
    const str& z = (*zs)[Take(i, zs->size())];
    Times ts;
    for (uint64_t k = i * kBatch; k < (i + 1) * kBatch && k < years * 3; ++k) { int64_t y = int64_t(k / 3) + 1901; ts.push_back(k % 3 == 0 ? ref::FromCivil({y, 1, 1, 0, 0, 0}) : k % 3 == 1 ? ref::FromCivil({y, 12, 30, 23, 59, 59}) : ref::FromCivil({y, 3, 1, 0, 0, 0}) - 1); }
    RunKdb(ts, z, ctx);
  }, [=](uint64_t i) { const str& z = (*zs)[Take(i, zs->size())]; return "years from " + Num(1901 + i * kBatch / 3) + " in zone " + z; }, 60);
  // Times that a format does not hold are refused or kept.
  static const std::vector<int64_t> odd = {-1, INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 1ll << 55, 1ll << 56, -(1ll << 55), -(1ll << 56), 1ll << 40, -(1ll << 40), -62167219200ll, -62167219201ll, -62135596800ll, -62135596801ll, 253402300799ll, 253402300800ll, -2208988800ll, -2208988801ll,
    454864809599ll, 454864809600ll, ref::FromCivil({16384, 1, 1, 0, 0, 0}) - 1, ref::FromCivil({16384, 1, 1, 0, 0, 0}), ref::FromCivil({16384, 1, 3, 0, 0, 0}), ref::FromCivil({1899, 12, 30, 0, 0, 0})};
  c.Add("limits", odd.size() * 2 * zs->size() * 2, [=](uint64_t i, Ctx& ctx) {
    bool kdbx = Take(i, 2), group = Take(i, 2);
    const str& z = (*zs)[Take(i, zs->size())];
    int64_t t = odd[i];
    SetTz(z.c_str());
    MDb m = SmallDb();
    m.rounds = 0;
    (group ? m.root.groups[0].t_creation : m.root.groups[0].entries[0].t_expiry) = t;
    Built b = Build(m);
    keepass::Key key = ref::LibKey(ref::KeySpec());
    str path = scratch + "/l";
    Outcome o = kdbx ? ExportKdbx(path, *b.db, key) : ExportKdb(path, *b.db, key);
    ctx.Trans(); ctx.Trace();
    ctx.State((o.ok ? "kept" : o.kind) + SNum(t) + (kdbx ? "x" : ""));
    if (!o.ok) return;
    Outcome im = kdbx ? ImportKdbx(path, key) : ImportKdb(path, key);
    if (!im.ok) return ctx.Fail("the import throws: " + im.what);
    MDb d = Extract(*im.db);
    int64_t got = group ? d.root.groups[0].t_creation : d.root.groups[0].entries[0].t_expiry;
    if (t == -1 && !kdbx) t = 0;
    ctx.Nontrivial();
    if (got == t || (t > 0 && t < (1ll << 40) && !kdbx && Pack(ref::CivilOf(t + Off(t))) == Pack(ref::CivilOf(got + Off(got))))) return;
    ctx.Fail("the time " + SNum(t) + " is silently changed to " + SNum(got) + " in zone " + z);
  }, [=](uint64_t i) { bool kdbx = Take(i, 2), group = Take(i, 2); const str& z = (*zs)[Take(i, zs->size())]; return "the time " + SNum(odd[i]) + " of " + (group ? "a group" : "an entry") + (kdbx ? " in KDBX" : " in KDB") + ", zone " + z; });
  // Never stays never, at every place.
  c.Add("never", zs->size() * 2, [=](uint64_t i, Ctx& ctx) {
    bool kdbx = Take(i, 2);
    Times ts(40, 0);
    if (kdbx) RunKdbx(ts, (*zs)[i], g_zones, ctx); else RunKdb(ts, (*zs)[i], ctx);
  }, [=](uint64_t i) { bool kdbx = Take(i, 2); return str("never in ") + (kdbx ? "KDBX" : "KDB") + ", zone " + (*zs)[i]; });
}

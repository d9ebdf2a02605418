// C04: KDB files conform to the format in both directions.
#include <set>

#include "deviate.hh"
#include "fixtures.hh"
#include "kdb.hh"
#include "ref.hh"

using namespace mc;

namespace {

ref::KeySpec g_key;

Flat Norm(MDb m) { for (auto g : Preorder(m.root)) g->uuid = Uuid(); return Flatten(m); }

// The library writes, the reference reads.
void ExportSide(const MDb& m, Ctx& ctx) {
  if (!KdbRepresentable(m)) return;
  Built b = Build(m);
  str path = scratch + "/a.kdb";
  Outcome ex = ExportKdb(path, *b.db, ref::LibKey(g_key));
  ctx.Trans();
  if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
  str file = ReadFile(path);
  MDb got;
  ref::KdbParts parts;
  str err = ref::DecodeKdb(file, g_key, &got, &parts);
  if (!err.empty()) return ctx.Fail("the exported file is not a valid KDB file: " + err);
  Flat w = Norm(ExpectKdb(m)), g = Norm(got);
  ctx.State(Fingerprint(g));
  ctx.Trace();
  str d = Diff(w, g);
  if (!d.empty()) return ctx.Fail("the exported file holds a different database: " + d);
  if ((ref::Le(file, 8, 4) & 1) == 0) ctx.Nontrivial();
}

// The reference writes, the library reads.
void ImportSide(const MDb& m, const ref::KdbOpt& o, Ctx& ctx) {
  if (!KdbRepresentable(m)) return;
  str path = scratch + "/b.kdb";
  WriteFile(path, ref::EncodeKdb(m, g_key, o));
  Outcome im = ImportKdb(path, ref::LibKey(g_key));
  ctx.Trans();
  if (!im.ok) return ctx.Fail("import of a valid file threw " + im.kind + ": " + im.what);
  Flat w = Norm(ExpectKdb(m)), g = Norm(Extract(*im.db));
  ctx.State(Fingerprint(g));
  ctx.Trace();
  str d = Diff(w, g);
  if (!d.empty()) ctx.Fail("the imported database differs: " + d);
}

struct OptSlot { str name; std::vector<std::pair<str, std::function<void(ref::KdbOpt&)>>> values; };
std::vector<OptSlot> OptSlots() {
  std::vector<OptSlot> s;
  auto add = [&](const str& n, std::vector<int> vs, std::function<void(ref::KdbOpt&, int)> f) {
    OptSlot x; x.name = n;
    for (int v : vs) x.values.push_back({SNum(v), [f, v](ref::KdbOpt& o) { f(o, v); }});
    s.push_back(x);
  };
  add("ids", {0, 1, 2, 3, 4}, [](ref::KdbOpt& o, int v) { o.ids = v; });
  add("field order", {0, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, [](ref::KdbOpt& o, int v) { o.field_order = v; });
  add("comments", {0, 1}, [](ref::KdbOpt& o, int v) { o.comments = v; });
  add("unused attachment fields", {1, 0}, [](ref::KdbOpt& o, int v) { o.nul_names = v; });
  add("extra flags", {1, 0, 5, 0x10, int(0x80000001u)}, [](ref::KdbOpt& o, int v) { o.extra_flags = uint32_t(v); });
  add("low version", {3, 0, 1, 2, 4, 255}, [](ref::KdbOpt& o, int v) { o.version_low = uint8_t(v); });
  add("entry order", {0, 1, 2}, [](ref::KdbOpt& o, int v) { o.entry_order = v; });
  add("short flags", {0, 1}, [](ref::KdbOpt& o, int v) { o.short_flags = v; });
  add("omit defaults", {0, 1}, [](ref::KdbOpt& o, int v) { o.omit_empty = v; });
  return s;
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C04";
  c.level = "model_checking";
  c.rule = "Reference codec as the model, replayed against the real code both ways: every database of the deviation-bounded families (1 and 2 deviations, all trees, "
           "all placements, sizes) exported and decoded strictly by the reference, and encoded by the reference with every combination of the encoder's choices and imported";
  c.assumptions = {"SHA-256 and AES of OpenSSL; the reference Twofish, CBC, padding and time packing are independent implementations (C11, C12 compare them)",
                   "local time follows the rules of the zone CET-1CEST,M3.5.0,M10.5.0/3"};
  static std::vector<Slot> full = KdbSlots(Alphabet::kFull), medium = KdbSlots(Alphabet::kMedium);
  static std::vector<OptSlot> opts = OptSlots();
  for (int tf = 0; tf < 2; ++tf) {
    auto base = [tf] { MDb m = RichKdb(); m.twofish = tf; return m; };
    str suffix = tf ? "-twofish" : "-aes";
    AddOne(c, "export-one" + suffix, tf ? medium : full, AllValues(tf ? medium : full), base, ExportSide);
    AddOne(c, "import-one" + suffix, tf ? medium : full, AllValues(tf ? medium : full), base, [](const MDb& m, Ctx& ctx) { ImportSide(m, ref::KdbOpt(), ctx); });
  }
  // The files of the test data, written by KeePass.
  static std::vector<Fixture> fixtures = Fixtures("kdb");
  c.Add("keepass-files", fixtures.size(), [](uint64_t i, Ctx& ctx) {
    const Fixture& f = fixtures[i];
    MDb want;
    str err = ref::DecodeKdb(f.data, f.key, &want, nullptr, true);
    if (!err.empty()) return ctx.Fail("the reference can't read the file: " + err);
    str path = scratch + "/f.kdb";
    WriteFile(path, f.data);
    Outcome im = ImportKdb(path, ref::LibKey(f.key));
    ctx.Trans();
    if (!im.ok) return ctx.Fail("import threw " + im.kind + ": " + im.what);
    Flat w = Norm(want), g = Norm(Extract(*im.db));
    str d = Diff(w, g);
    if (!d.empty()) return ctx.Fail("the imported database differs: " + d);
    Outcome ex = ExportKdb(path, *im.db, ref::LibKey(f.key));
    ctx.Trans();
    if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
    MDb again;
    err = ref::DecodeKdb(ReadFile(path), f.key, &again);
    if (!err.empty()) return ctx.Fail("the exported file is not a valid KDB file: " + err);
    d = Diff(w, Norm(again));
    if (!d.empty()) ctx.Fail("the exported file holds a different database: " + d);
    ctx.State(Fingerprint(g)); ctx.Trace();
  }, [](uint64_t i) { return fixtures[i].name; });

  AddTwo(c, "export-two", medium, AllValues(medium, Quick() ? 3 : 20), [] { return RichKdb(); }, ExportSide);
  AddTwo(c, "import-two", medium, AllValues(medium, Quick() ? 3 : 20), [] { return RichKdb(); }, [](const MDb& m, Ctx& ctx) { ImportSide(m, ref::KdbOpt(), ctx); });
  auto prep = [](const MDb& m0) { MDb m = m0; m.master_seed.resize(16, 's'); return m; };
  AddTrees(c, "export-trees", Quick() ? 7 : 9, false, [prep](const MDb& m, Ctx& ctx) { ExportSide(prep(m), ctx); });
  AddTrees(c, "import-trees", Quick() ? 7 : 9, false, [prep](const MDb& m, Ctx& ctx) { ref::KdbOpt o; o.ids = int(m.root.groups.size() % 5); ImportSide(prep(m), o, ctx); });
  AddPlacements(c, "export-placements", Quick() ? 3 : 4, Quick() ? 3 : 4, false, [prep](const MDb& m, Ctx& ctx) { ExportSide(prep(m), ctx); });
  AddPlacements(c, "import-placements", Quick() ? 3 : 4, Quick() ? 3 : 4, false, [prep](const MDb& m, Ctx& ctx) {
    for (int eo = 0; eo < 3; ++eo) for (int ids = 0; ids < 5; ++ids) { ref::KdbOpt o; o.entry_order = eo; o.ids = ids; MDb w = prep(m);
      // Entries keep the order of the file within each group; all orders used here keep it.
      ImportSide(w, o, ctx); }
  });
  auto plain = [](const MDb& m, Ctx& ctx) { ImportSide(m, ref::KdbOpt(), ctx); };
  AddLarge(c, "export-large", false, ExportSide);
  AddLarge(c, "import-large", false, plain);
  AddMany(c, "export-large-numbers", false, ExportSide);
  AddMany(c, "import-large-numbers", false, plain);
  // Any identifier for any of the groups.
  static std::vector<uint32_t> values;
  { std::set<uint32_t> v; for (int b = 0; b < 32; ++b) for (int d = -1; d < 2; ++d) { v.insert((1u << b) + uint32_t(d)); v.insert(~((1u << b) + uint32_t(d))); }
    for (uint64_t n : SourceNumbers(0xffffffffull)) v.insert(uint32_t(n));
    values.assign(v.begin(), v.end()); }
  static const size_t groups = [] { MDb m = RichKdb(); return Preorder(m.root).size() - 1; }();
  c.Add("identifiers", values.size() * groups, [](uint64_t i, Ctx& ctx) { ref::KdbOpt o; o.special = int(Take(i, groups)); o.special_id = values[i]; ctx.Nontrivial(); ImportSide(RichKdb(), o, ctx); },
        [](uint64_t i) { int g = int(Take(i, groups)); return "group " + SNum(g) + " has the identifier " + Num(values[i]); });
  // Every combination of the encoder's choices.
  static uint64_t total = 1;
  for (auto& s : opts) total *= s.values.size();
  auto set = [](uint64_t i, ref::KdbOpt& o, str* text) { for (auto& s : opts) { uint64_t v = Take(i, s.values.size()); s.values[v].second(o); if (text) *text += s.name + "=" + s.values[v].first + " "; } };
  c.notes.push_back({"encoder_choices", Num(total)});
  c.Add("choices", total, [set](uint64_t i, Ctx& ctx) {
    ref::KdbOpt o;
    set(i, o, nullptr);
    MDb m = RichKdb();
    m.twofish = (i / 7) & 1;
    ImportSide(m, o, ctx);
  }, [set](uint64_t i) { ref::KdbOpt o; str t; set(i, o, &t); return t; });
  // Reserved bits: both cipher bits set means AES for this reader; only documented files are generated. Keys and sizes:
  static std::vector<ref::KeySpec> keys;
  for (int pw = 0; pw < 4; ++pw) for (int kf = 0; kf < 3; ++kf) {
    ref::KeySpec k; k.has_pw = pw != 0; k.pw = pw == 1 ? "" : pw == 2 ? "password" : "p\xc3\xa4ss w\xf6rd";
    k.has_kf = kf != 0; k.kf = kf == 1 ? str(32, 0) : ref::Sha256("key file");
    keys.push_back(k);
  }
  c.Add("keys", keys.size() * 2 * 5, [](uint64_t i, Ctx& ctx) {
    MDb m = RichKdb();
    m.twofish = Take(i, 2);
    m.rounds = uint64_t(std::vector<int>{0, 1, 2, 100, 6000}[Take(i, 5)]);
    g_key = keys[i];
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbOpt(), ctx);
    g_key = ref::KeySpec();
  });
  c.Add("sizes", Quick() ? 256 : 3000, [](uint64_t i, Ctx& ctx) {
    MDb m = RichKdb();
    m.twofish = i & 1;
    m.root.groups[0].entries[0].notes = MStr(str(i, 'n'));
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbOpt(), ctx);
  }, [](uint64_t i) { return "notes of " + Num(i) + " bytes"; });
  // A file without anything, and one with groups only.
  c.Add("empty", 4, [](uint64_t i, Ctx& ctx) {
    MDb m = RichKdb();
    m.twofish = i & 1;
    if (i & 2) { for (auto g : Preorder(m.root)) g->entries.clear(); } else m.root.groups.clear();
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbOpt(), ctx);
  });
}

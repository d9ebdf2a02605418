// C03: KDBX files conform to the format in both directions.
#include <algorithm>

#include "deviate.hh"
#include "fixtures.hh"
#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

namespace {

ref::KeySpec g_key;

str TrimWs(const str& s) {
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == str::npos ? "" : s.substr(a, b - a + 1);
}
// Expected values whose only deviation is that unprotected text lost white space at its ends.
bool OnlyTrimmed(const Flat& want, const Flat& got) {
  if (want.size() != got.size()) return false;
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == got[i]) continue;
    if (want[i].first != got[i].first) return false;
    str w = want[i].second, g = got[i].second;
    if (w.compare(0, 2, "U:") == 0 && g.compare(0, 2, "U:") == 0) { w = w.substr(2); g = g.substr(2); }
    else if (w.compare(0, 2, "P:") == 0) return false;
    if (TrimWs(w) != g) return false;
  }
  return true;
}

void Texts(const ref::Node& n, const str& h, Ctx& ctx) {
  if (n.name != "Key" && n.text.find(h) != str::npos) ctx.Fail("a protected value is readable in the XML: " + Quote(h) + " in " + n.name);
  for (auto& k : n.kids) Texts(k, h, ctx);
}
void Secrets(const MDb& m0, const str& xml, Ctx& ctx) {
  MDb m = m0;
  std::vector<MEntry*> es;
  AllEntries(m.root, es, true);
  std::vector<str> hidden;
  auto take = [&](MStr& v) { if (v.p) { hidden.push_back(v.v); v.v.clear(); } };
  for (auto e : es) { take(e->title); take(e->url); take(e->username); take(e->password); take(e->notes); for (auto& f : e->fields) take(f.value); }
  for (auto& b : m.bins) if (b.prot) { hidden.push_back(b.data); b.data.clear(); }
  Flat rest = Flatten(m, false);
  ref::Node root; str error;
  if (!ref::ParseXml(xml, &root, &error)) return ctx.Fail("XML: " + error);
  for (auto& h : hidden) {
    if (h.size() < 6) continue;
    bool also = false;                                     // the same text is elsewhere, unprotected
    for (auto& o : rest) if (o.second.find(h) != str::npos) also = true;
    if (also) continue;
    for (auto& w : SourceWords()) if (w.find(h) != str::npos) also = true;   // may be a name in the format
    if (also) { Texts(root, h, ctx); continue; }
    if (xml.find(h) != str::npos) return ctx.Fail("a protected value is readable in the XML: " + Quote(h));
    if (xml.find(ref::Base64(h)) != str::npos) return ctx.Fail("a protected value is in the XML unobfuscated: " + Quote(h));
  }
}

// The library writes, the reference reads.
void ExportSide(const MDb& m, Ctx& ctx) {
  if (!KdbxValid(m)) return;
  Built b = Build(m);
  str path = scratch + "/a.kdbx";
  Outcome ex = ExportKdbx(path, *b.db, ref::LibKey(g_key));
  ctx.Trans();
  if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
  MDb got;
  ref::KdbxParts parts;
  str err = ref::DecodeKdbx(ReadFile(path), g_key, &got, &parts);
  if (!err.empty()) return ctx.Fail("the exported file is not a valid KDBX file: " + err);
  Flat w = Flatten(ExpectKdbx(m)), g = Flatten(got);
  ctx.State(Fingerprint(g));
  ctx.Trace();
  str d = Diff(w, g);
  if (!d.empty()) return ctx.Fail("the exported file holds a different database: " + d);
  Secrets(m, parts.xml, ctx);
}

// The reference writes, the library reads.
void ImportSide(const MDb& m0, const ref::KdbxOpt& o, Ctx& ctx) {
  if (!KdbxValid(m0)) return;
  MDb m = m0;
  m.has_meta = true;
  if (!m0.has_meta) { m.meta = MMeta(); m.icons.clear(); m = ExpectKdbx(m0); }
  str path = scratch + "/b.kdbx";
  WriteFile(path, ref::EncodeKdbx(m, g_key, o));
  Outcome im = ImportKdbx(path, ref::LibKey(g_key));
  ctx.Trans();
  if (!im.ok && o.text == 4) return ctx.Known("split-text", "only the first piece of text that is split by CDATA sections is read: import threw " + im.what);
  if (!im.ok) return ctx.Fail("import of a valid file threw " + im.kind + ": " + im.what);
  MDb want = ExpectKdbx(m);
  if (o.in_memory) for (int i = 0; i < m.pooled; ++i) want.bins[i].compress = m.bins[i].compress;
  Flat w = Flatten(want), g = Flatten(Extract(*im.db));
  ctx.State(Fingerprint(g));
  ctx.Trace();
  str d = Diff(w, g);
  if (d.empty()) return;
  if (OnlyTrimmed(w, g)) return ctx.Known("edge-whitespace", "white space at the ends of unprotected text is lost: " + d);
  if (o.text == 4) return ctx.Known("split-text", "only the first piece of text that is split by CDATA sections is read: " + d);
  ctx.Fail("the imported database differs: " + d);
}

struct OptSlot { str name; std::vector<std::pair<str, std::function<void(ref::KdbxOpt&)>>> values; };
std::vector<OptSlot> OptSlots() {
  std::vector<OptSlot> s;
  auto add = [&](const str& n, std::vector<int> vs, std::function<void(ref::KdbxOpt&, int)> f) {
    OptSlot x; x.name = n;
    for (int v : vs) x.values.push_back({SNum(v), [f, v](ref::KdbxOpt& o) { f(o, v); }});
    s.push_back(x);
  };
  add("indent", {0, 1, 2}, [](ref::KdbxOpt& o, int v) { o.indent = v; });
  add("text", {0, 1, 2, 3, 5}, [](ref::KdbxOpt& o, int v) { o.text = v; });
  add("line ends", {0, 1, 2}, [](ref::KdbxOpt& o, int v) { o.eol = v; });
  add("single quotes", {0, 1}, [](ref::KdbxOpt& o, int v) { o.single_quotes = v; });
  add("expand empty", {0, 1}, [](ref::KdbxOpt& o, int v) { o.expand_empty = v; });
  add("prolog", {0, 1, 2, 3}, [](ref::KdbxOpt& o, int v) { o.prolog = v; });
  add("lower case booleans", {0, 1}, [](ref::KdbxOpt& o, int v) { o.lower_bool = v; });
  add("other elements", {0, 1}, [](ref::KdbxOpt& o, int v) { o.unknown = v; });
  add("comments", {0, 1}, [](ref::KdbxOpt& o, int v) { o.comments = v; });
  add("order", {0, 1}, [](ref::KdbxOpt& o, int v) { o.order = v; });
  add("base64 wrap", {0, 4, 5, 76}, [](ref::KdbxOpt& o, int v) { o.b64_wrap = v; });
  add("inline", {0, 1}, [](ref::KdbxOpt& o, int v) { o.inline_mode = v; });
  add("ProtectedInMemory", {0, 1}, [](ref::KdbxOpt& o, int v) { o.in_memory = v; });
  add("omit defaults", {0, 1}, [](ref::KdbxOpt& o, int v) { o.omit_empty = v; });
  add("pool ids", {0, 1, 7, 95}, [](ref::KdbxOpt& o, int v) { o.id_base = v; });
  add("zero references", {0, 1}, [](ref::KdbxOpt& o, int v) { o.zero_refs = v; });
  add("inherited options", {0, 1, 2, 3}, [](ref::KdbxOpt& o, int v) { o.inherit = v; });
  add("block size", {0, 1, 2, 16, 31, 100, 1000, 16384}, [](ref::KdbxOpt& o, int v) { if (v) o.block_sizes = {size_t(v)}; });
  add("end of header", {0, 4, 300}, [](ref::KdbxOpt& o, int v) { o.eoh = v == 4 ? "\r\n\r\n" : str(size_t(v), 'e'); });
  add("version", {0, 1, 2}, [](ref::KdbxOpt& o, int v) { o.version = 0x00030000u + v; });
  add("gzip level", {6, 0, 1, 9}, [](ref::KdbxOpt& o, int v) { o.gz.level = v; });
  add("gzip strategy", {0, 2, 3, 4}, [](ref::KdbxOpt& o, int v) { o.gz.strategy = v; });
  add("gzip header", {0, 1, 2, 3}, [](ref::KdbxOpt& o, int v) { o.gz.name = v & 1; o.gz.extra = v & 2; o.gz.hcrc = v == 3; o.gz.comment = v == 2; });
  return s;
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C03";
  c.level = "model_checking";
  c.rule = "Reference codec as the model, replayed against the real code both ways: every database of the deviation-bounded families (1 and 2 deviations, all trees, "
           "all placements, sizes) exported and decoded strictly by the reference, and encoded by the reference and imported; the encoder's choices are enumerated "
           "with up to 2 (thorough: 3) deviations, header fields in all moved (thorough: all 9!) orders, block sizes exhaustively";
  c.assumptions = {"SHA-256, AES and zlib of the installed libraries; the reference Salsa20, base64, hashed blocks and XML parser are independent implementations",
                   "elements that hold protected values come in the order in which libkeepass or KeePass 2 writes them"};
  static std::vector<Slot> full = KdbxSlots(Alphabet::kFull), medium = KdbxSlots(Alphabet::kMedium), small = KdbxSlots(Alphabet::kSmall);
  static std::vector<OptSlot> opts = OptSlots();
  auto rich = [] { return RichDb(); };
  auto plain = [](const MDb& m, Ctx& ctx) { ImportSide(m, ref::KdbxOpt(), ctx); };
  AddOne(c, "export-one", Quick() ? medium : full, AllValues(Quick() ? medium : full), rich, ExportSide);
  AddOne(c, "import-one", Quick() ? medium : full, AllValues(Quick() ? medium : full), rich, plain);
  AddTwo(c, "export-two", small, AllValues(small, Quick() ? 1 : 3), rich, [](const MDb& m, Ctx& ctx) { ExportSide(m, ctx); });
  AddTwo(c, "import-two", small, AllValues(small, Quick() ? 1 : 3), rich, plain);
  AddTrees(c, "export-trees", Quick() ? 6 : 8, true, [](const MDb& m, Ctx& ctx) { ExportSide(m, ctx); });
  AddTrees(c, "import-trees", Quick() ? 6 : 8, true, plain);
  AddPlacements(c, "export-placements", 3, Quick() ? 2 : 3, true, ExportSide);
  AddPlacements(c, "import-placements", 3, Quick() ? 2 : 3, true, plain);

  AddLarge(c, "export-large", true, ExportSide);
  AddLarge(c, "import-large", true, plain);
  AddSame(c, "export-identical-identifiers", ExportSide);
  AddSame(c, "import-identical-identifiers", plain);
  AddMany(c, "export-large-numbers", true, ExportSide);
  AddMany(c, "import-large-numbers", true, plain);

  // Encoder choices: none, one, two (and three) at once, uncompressed and compressed.
  struct Choice { std::vector<SV> at; bool compress; };
  static std::vector<Choice> choices;
  std::vector<SV> all;
  for (size_t i = 0; i < opts.size(); ++i) for (size_t v = 1; v < opts[i].values.size(); ++v) all.push_back(SV(int(i), int(v)));
  for (int z = 0; z < 2; ++z) {
    choices.push_back(Choice{{}, !!z});
    for (size_t a = 0; a < all.size(); ++a) {
      choices.push_back(Choice{{all[a]}, !!z});
      for (size_t b = a + 1; b < all.size(); ++b) {
        if (all[a].first == all[b].first) continue;
        choices.push_back(Choice{{all[a], all[b]}, !!z});
        if (!Quick()) for (size_t d = b + 1; d < all.size(); ++d) if (all[d].first != all[b].first) choices.push_back(Choice{{all[a], all[b], all[d]}, !!z});
      }
    }
  }
  c.Add("choices", choices.size(), [](uint64_t i, Ctx& ctx) {
    ref::KdbxOpt o;
    for (auto& x : choices[i].at) opts[x.first].values[x.second].second(o);
    MDb m = RichDb();
    m.compress = choices[i].compress;
    if (o.zero_refs) { m.meta.templates = -1; m.meta.recycle_bin = -1; m.meta.last_selected = -1; m.root.last_visible = -1; m.root.groups[0].last_visible = -1; }
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { str s = choices[i].compress ? "compressed " : ""; for (auto& x : choices[i].at) s += opts[x.first].name + "=" + opts[x.first].values[x.second].first + " "; return s; }, 30, 32);
  c.Add("split-text", 2, [](uint64_t i, Ctx& ctx) { ref::KdbxOpt o; o.text = 4; MDb m = RichDb(); m.compress = i; ImportSide(m, o, ctx); });

  // Options that groups inherit: all settings along a chain of groups and beside it.
  c.Add("inherited-options", 256 * 4 * 2, [](uint64_t i, Ctx& ctx) {
    ref::KdbxOpt o;
    o.inherit = int(Take(i, 4)); o.order = int(Take(i, 2)); o.indent = o.order;
    MDb m = SmallDb();
    MGroup child = m.root.groups[0], grand = child;
    child.groups.clear(); grand.groups.clear(); grand.entries.clear(); child.entries.clear();
    grand.last_visible = child.last_visible = -1;
    child.uuid = MakeUuid(901); grand.uuid = MakeUuid(902);
    m.root.autotype = i & 1; m.root.search = i & 2; m.root.groups[0].autotype = i & 4; m.root.groups[0].search = i & 8;
    child.autotype = i & 16; child.search = i & 32; grand.autotype = i & 64; grand.search = i & 128;
    child.groups.push_back(grand);
    m.root.groups[0].groups.push_back(child);
    grand.uuid = MakeUuid(903);
    m.root.groups.push_back(grand);
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { int a = int(Take(i, 4)), b = int(Take(i, 2)); return "inherited " + Num(a) + " order " + Num(b) + " settings " + Num(i); });

  // The files of the test data, written by KeePass.
  static std::vector<Fixture> fixtures = Fixtures("kdbx");
  c.Add("keepass-files", fixtures.size(), [](uint64_t i, Ctx& ctx) {
    const Fixture& f = fixtures[i];
    MDb want;
    str err = ref::DecodeKdbx(f.data, f.key, &want, nullptr, true);
    if (!err.empty()) return ctx.Fail("the reference can't read the file: " + err);
    str path = scratch + "/f.kdbx";
    WriteFile(path, f.data);
    Outcome im = ImportKdbx(path, ref::LibKey(f.key));
    ctx.Trans();
    if (!im.ok) return ctx.Fail("import threw " + im.kind + ": " + im.what);
    Flat w = Flatten(want), g = Flatten(Extract(*im.db));
    str d = Diff(w, g);
    if (!d.empty() && !OnlyTrimmed(w, g)) return ctx.Fail("the imported database differs: " + d);
    Outcome ex = ExportKdbx(path, *im.db, ref::LibKey(f.key));
    ctx.Trans();
    if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
    MDb again;
    err = ref::DecodeKdbx(ReadFile(path), f.key, &again);
    if (!err.empty()) return ctx.Fail("the exported file is not a valid KDBX file: " + err);
    d = Diff(g, Flatten(again));
    if (!d.empty()) ctx.Fail("the exported file holds a different database: " + d);
    ctx.State(Fingerprint(g)); ctx.Trace();
  }, [](uint64_t i) { return fixtures[i].name; });

  // Every text value in every way of writing text.
  static std::vector<std::pair<str, str>> texts = TextAlphabet(Quick() ? Alphabet::kMedium : Alphabet::kFull, false, true);
  c.Add("text-forms", texts.size() * 5 * 3 * 3, [](uint64_t i, Ctx& ctx) {
    static const int modes[5] = {0, 1, 2, 3, 5};
    ref::KdbxOpt o;
    o.text = modes[Take(i, 5)];
    o.eol = int(Take(i, 3));
    o.indent = int(Take(i, 3));
    MDb m = SmallDb();
    const str& t = texts[i].second;
    m.root.notes = t; m.root.groups[0].name = t; m.root.groups[0].entries[0].title = MStr(t); m.root.groups[0].entries[0].url = MStr(t, true);
    m.root.groups[0].entries[0].fields.push_back(MField{"key", MStr(t)}); m.root.groups[0].entries[0].tags = t; m.meta.name.v = t;
    m.meta.fields.push_back({"cd", t});
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { int a = int(Take(i, 5)); int l = int(Take(i, 3)), b = int(Take(i, 3)); return "line end " + Num(l) + " form " + Num(a) + " indent " + Num(b) + " text " + texts[i].first; });

  // Orders of the header fields.
  static std::vector<std::vector<int>> orders;
  std::vector<int> id = {2, 3, 4, 5, 6, 7, 8, 9, 10};
  if (Quick()) {
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) { auto o = id; int x = o[i]; o.erase(o.begin() + i); o.insert(o.begin() + j, x); orders.push_back(o); std::reverse(o.begin(), o.end()); orders.push_back(o); }
    for (int i = 0; i < 9; ++i) { auto o = id; std::rotate(o.begin(), o.begin() + i, o.end()); orders.push_back(o); }
    std::vector<int> five = {3, 4, 5, 6, 9};   // the fields that steer the reader, in all orders
    do { auto o = five; for (int x : {2, 7, 8, 10}) o.push_back(x); orders.push_back(o); } while (std::next_permutation(five.begin(), five.end()));
  } else {
    do orders.push_back(id); while (std::next_permutation(id.begin(), id.end()));
  }
  c.Add("header-orders", orders.size(), [](uint64_t i, Ctx& ctx) {
    ref::KdbxOpt o;
    o.header_order = orders[i];
    MDb m = SmallDb();
    m.compress = i & 1;
    m.rounds = 3;
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { str s; for (int x : orders[i]) s += Num(x) + " "; return s; });

  // Every block size from 1 up, including a last block of every size.
  c.Add("block-sizes", Quick() ? 700 : 5000, [](uint64_t i, Ctx& ctx) {
    ref::KdbxOpt o;
    MDb m = SmallDb();
    m.compress = Take(i, 2);
    o.block_sizes = {size_t(i + 1)};
    if (i % 5 == 4) o.block_sizes = {size_t(i + 1), 1, 7};
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { return "blocks of " + Num(i / 2 + 1) + " bytes"; });

  // Blocks larger than the writer's own.
  static std::vector<size_t> large;
  for (size_t n : {(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 100, 1 << 21, (1 << 21) + 1, (1 << 22) - 1, 1 << 22, (1 << 22) + 1, 5000000}) large.push_back(n);
  if (!Quick()) for (size_t n : {1 << 23, 1 << 24, (1 << 24) + 1, (1 << 25) + 3}) large.push_back(n);
  for (uint64_t n : SourceNumbers(Quick() ? 1 << 22 : 1 << 26)) if (n > 5000) large.push_back(size_t(n));
  c.Add("large-blocks", large.size() * 2, [](uint64_t i, Ctx& ctx) {
    ref::KdbxOpt o;
    MDb m = SmallDb();
    m.compress = Take(i, 2);
    o.block_sizes = {large[i]};
    m.root.notes = str(large[i] + 1000, 'x');
    if (m.compress) { uint32_t x = 1; for (auto& ch : m.root.notes) { x = x * 1664525 + 1013904223; ch = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"[x >> 26]; } }
    ImportSide(m, o, ctx);
    o.block_sizes.clear();
    ImportSide(m, o, ctx);
  }, [](uint64_t i) { return str(i % 2 ? "compressed " : "") + "blocks of " + Num(large[i / 2]) + " bytes"; }, 60, 1);

  // Keys, seeds of all lengths and rounds.
  static std::vector<ref::KeySpec> keys;
  for (int pw = 0; pw < 4; ++pw) for (int kf = 0; kf < 3; ++kf) {
    ref::KeySpec k; k.has_pw = pw != 0; k.pw = pw == 1 ? "" : pw == 2 ? "password" : "p\xc3\xa4ss w\xf6rd";
    k.has_kf = kf != 0; k.kf = kf == 1 ? str(32, 0) : ref::Sha256("key file");
    keys.push_back(k);
  }
  c.Add("keys", keys.size() * 5, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    m.rounds = uint64_t(std::vector<int>{0, 1, 2, 100, 6000}[Take(i, 5)]);
    g_key = keys[i];
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbxOpt(), ctx);
    g_key = ref::KeySpec();
  });
  static std::vector<int> seeds;
  for (int n = 0; n <= 80; ++n) seeds.push_back(n);
  for (int n : {255, 256, 1024, 65535}) seeds.push_back(n);
  c.Add("seeds", seeds.size(), [](uint64_t i, Ctx& ctx) { MDb m = SmallDb(); m.master_seed = str(size_t(seeds[i]), 's'); ExportSide(m, ctx); ImportSide(m, ref::KdbxOpt(), ctx); });

  // Positions in the obfuscation stream: values of every length, before and after other protected values.
  c.Add("stream-positions", Quick() ? 200 : 1100, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    MEntry& e = m.root.groups[0].entries[0];
    e.title = MStr(str(size_t(i), 't'), true); e.password = MStr("after", true);
    MEntry h = e; h.notes = MStr(str(size_t(i) % 67, 'n'), true); e.history.push_back(h);
    MBin b; b.prot = true; b.data = str(size_t(i) % 130, 'b'); m.bins.push_back(b); m.pooled = 1; e.atts.push_back(MAtt{"pooled", 0});
    MBin d; d.prot = true; d.data = "inline"; m.bins.push_back(d); e.atts.push_back(MAtt{"inline", 1});
    e.fields.push_back(MField{"k", MStr("", true)}); e.fields.push_back(MField{"l", MStr("last", true)});
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbxOpt(), ctx);
    ref::KdbxOpt o; o.order = 1; o.indent = 1;
    ImportSide(m, o, ctx);
  });

  // More than ten pooled binaries and icons; documents around the block size of the writer.
  static std::vector<int> counts = {9, 10, 11, 12, 99, 100, 101, 128, 257};
  c.Add("pools", counts.size() * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    int n = counts[i / 2];
    for (int k = 0; k < n; ++k) { MBin b; b.data = "data " + Num(k % 7); b.compress = k % 3 == 1; b.prot = k % 3 == 2; m.bins.push_back(b); MIcon ic; ic.uuid = MakeUuid(700 + k); ic.data = "i" + Num(k); m.icons.push_back(ic); }
    for (auto& b : m.bins) if (b.prot) b.compress = false;
    m.pooled = n;
    for (int k = n - 1; k >= 0; --k) { MEntry e; e.uuid = MakeUuid(2000 + k); e.title = "e"; e.custom_icon = k; e.atts.push_back(MAtt{"a", k}); m.root.entries.push_back(e); }
    m.compress = i & 1;
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbxOpt(), ctx);
  });
  static std::vector<int> sizes;
  for (int base : {16384, 65536, 1 << 20}) for (int d = -(Quick() ? 8 : 60); d <= (Quick() ? 8 : 60); ++d) sizes.push_back(base + d);
  c.Add("sizes", sizes.size() * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    m.compress = Take(i, 2);
    // Bring the document itself to exactly the size wanted.
    size_t fixed;
    {
      Built b = Build(m);
      bool z = m.compress; (void)z;
      b.db->set_compress(false);
      Outcome ex = ExportKdbx(scratch + "/s.kdbx", *b.db, ref::LibKey(g_key));
      if (!ex.ok) return ctx.Fail("export threw");
      MDb t; ref::KdbxParts p;
      str err = ref::OpenKdbx(ReadFile(scratch + "/s.kdbx"), g_key, &t, &p);
      if (!err.empty()) return ctx.Fail(err);
      fixed = p.xml.size();
    }
    size_t n = size_t(sizes[i]);
    if (n < fixed + 8) return;
    m.root.notes = str(n - fixed - 7, 'x');   // <Notes/> becomes <Notes>...</Notes>
    if (m.compress) { uint32_t x = 1; for (auto& ch : m.root.notes) { x = x * 1664525 + 1013904223; ch = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"[x >> 26]; } }
    ExportSide(m, ctx);
    ImportSide(m, ref::KdbxOpt(), ctx);
  }, [](uint64_t i) { return "document of about " + Num(sizes[i / 2]) + " bytes"; }, 60, 1);
}

// C26: the kind of an exception tells what is wrong.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <climits>

#include "deviate.hh"
#include "faults.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "ref.hh"

using namespace mc;

namespace {

const char* const kFormat = "keepass::FormatError";
const char* const kPassword = "keepass::PasswordError";
const char* const kMissing = "keepass::FileNotFoundError";
const char* const kInternal = "keepass::InternalError";
const char* const kIo = "keepass::IoError";

Outcome Import(bool kdbx, const str& path, const keepass::Key& key) { return kdbx ? ImportKdbx(path, key) : ImportKdb(path, key); }
Outcome ImportText(bool kdbx, const str& file, const keepass::Key& key) { str p = scratch + "/in"; WriteFile(p, file); return Import(kdbx, p, key); }
const char* Name(bool kdbx) { return kdbx ? "KDBX" : "KDB"; }

void Expect(const Outcome& o, const str& kind, Ctx& ctx) {
  ctx.Trans(); ctx.Trace(); ctx.Nontrivial(); ctx.State((o.ok ? str("fine") : o.kind) + "|" + kind);
  if (o.ok) ctx.Fail("no exception, although " + kind + " is due");
  else if (o.kind != kind && !(kind == kIo && o.kind == kMissing)) ctx.Fail("the exception is " + o.kind + " (" + o.what + ") and not " + kind);
}
// Authentic content that may be malformed: no wrong password, and the file is there.
void ExpectInside(const Outcome& o, Ctx& ctx) {
  ctx.Trans(); ctx.Trace(); ctx.Nontrivial(!o.ok); ctx.State(o.ok ? str("fine") : o.kind);
  if (!o.ok && (o.kind == kPassword || o.kind == kMissing)) ctx.Fail("the exception is " + o.kind + " (" + o.what + ") for a file whose key is right");
}

MDb Small(bool kdbx) { MDb m = SmallDb(); m.rounds = 1; if (!kdbx) m.root.entries.clear(); return m; }
MDb Rich(bool kdbx) { MDb m = kdbx ? RichDb() : RichKdb(); m.rounds = 1; if (kdbx) m.twofish = false; return m; }
str Encode(bool kdbx, const MDb& m, const ref::KeySpec& k) { return kdbx ? ref::EncodeKdbx(m, k) : ref::EncodeKdb(m, k); }

// Keys.
std::vector<ref::KeySpec> Keys() {
  std::vector<ref::KeySpec> r;
  str kf; for (int i = 0; i < 32; ++i) kf += char(i * 7 + 1);
  for (str pw : {str("password"), str(""), str("Password"), str("password "), str("p\xc3\xa4ss"), str(100, 'x')}) for (int f = 0; f < 3; ++f) {
    ref::KeySpec k; k.pw = pw; k.has_kf = f > 0; k.kf = kf; if (f == 2) k.kf[31] ^= 1; r.push_back(k);
    if (pw.empty() && f) { k.has_pw = false; r.push_back(k); }
  }
  return r;
}
bool SameKey(const ref::KeySpec& a, const ref::KeySpec& b, bool kdbx) { return ref::MasterKey(a, kdbx) == ref::MasterKey(b, kdbx); }

struct Paths { std::vector<std::pair<str, str>> all; };
// Paths that can't be opened for reading.
std::vector<std::pair<str, str>> Missing() {
  str s = scratch;
  WriteFile(s + "/plain", "x");
  (void)!symlink((s + "/nowhere").c_str(), (s + "/dangling").c_str());
  (void)!symlink((s + "/loop2").c_str(), (s + "/loop1").c_str());
  (void)!symlink((s + "/loop1").c_str(), (s + "/loop2").c_str());
  return {{"a file that does not exist", s + "/absent.kdb"}, {"an empty path", ""}, {"a directory that does not exist", s + "/absent/x.kdb"}, {"a path through a file", s + "/plain/x.kdb"},
          {"a path with a slash after a file", s + "/plain/"}, {"a name that is too long", s + "/" + str(300, 'n')}, {"a path that is too long", s + str(5000, '/') + "absent"},
          {"a dangling link", s + "/dangling"}, {"a loop of links", s + "/loop1"}, {"a relative path that does not exist", "absent-here.kdb"}, {"a name with a line break", s + "/ab\nsent"}};
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C26";
  c.level = "exploration";
  c.rule = "Every way of the enumerated ones to fail (paths, signatures, versions, header identifiers and sizes, keys, malformed content under the right key, malformed key files, refused databases, unusable destinations), "
           "on KDB and KDBX; the exception's class must be the one for what is wrong";
  c.assumptions = {"the check runs in a scratch directory; nothing there but what it made"};
  entropy = [] { return 0x12345u; };
  bool q = Quick();

  // Files that are not there.
  c.Add("files that can't be opened", Missing().size() * 5, [](uint64_t i, Ctx& ctx) {
    int what = int(Take(i, 5)); str path = Missing()[size_t(i)].second;
    keepass::Key key = ref::LibKey(ref::KeySpec());
    if (what < 2) { Expect(Import(what, path, key), kMissing, ctx); return; }
    if (what == 4) { keepass::Key fresh; Expect(Attempt([&] { fresh.SetKeyFile(path); }), kMissing, ctx); return; }
    Expect(Attempt([&] { if (what == 2) key.SetKeyFile(path); else { keepass::Key k("x"); k.SetKeyFile(path); } }), kMissing, ctx);
  }, [](uint64_t i) { int w = int(Take(i, 5)); return str(w == 0 ? "KDB import of " : w == 1 ? "KDBX import of " : "key file: ") + Missing()[size_t(i)].first; });

  // What is not a database, with a right and a wrong key (the key must not matter).
  ref::KeySpec right, wrong; wrong.pw = "other";
  for (bool kdbx : {false, true}) {
    auto file = std::make_shared<str>(Encode(kdbx, Small(kdbx), right));
    auto other = std::make_shared<str>(Encode(!kdbx, Small(!kdbx), right));
    auto keys = [=](bool bad) { return ref::LibKey(bad ? wrong : right); };
    str n = Name(kdbx);
    c.Add(n + " signatures, bytes", 8 * 255 * 2, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2); size_t at = size_t(Take(i, 8)); str f = *file; f[at] = char(f[at] ^ (i + 1)); Expect(ImportText(kdbx, f, keys(bad)), kFormat, ctx);
    }, [](uint64_t i) { bool bad = Take(i, 2); size_t at = size_t(Take(i, 8)); return "byte " + Num(at) + " xor " + Num(i + 1) + (bad ? ", wrong key" : ", right key"); });
    // Shorter than the fixed header (12 bytes of KDBX, 124 of KDB).
    c.Add(n + " files shorter than the header", (kdbx ? 12 : 124) * 3, [=](uint64_t i, Ctx& ctx) {
      int k = int(Take(i, 3)); str f = file->substr(0, size_t(i)); if (k == 2) f = str(size_t(i), 0); Expect(ImportText(kdbx, f, keys(k == 1)), kFormat, ctx);
    }, [](uint64_t i) { int k = int(Take(i, 3)); return Num(i) + " bytes, kind " + Num(uint64_t(k)); });
    c.Add(n + " import of other files", 40, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2);
      str f;
      switch (i) { case 0: f = *other; break; case 1: f = str("<?xml version=\"1.0\"?><KeePassFile/>") + str(200, ' '); break; case 2: f = str(500, 0); break; case 3: f = str(500, char(255)); break;
        case 4: f = str("\x1f\x8b") + str(300, 'z'); break; case 5: f = str("PK\3\4") + str(300, 'z'); break; case 6: f = "\xef\xbb\xbf" + *file; break; case 7: f = "\n" + *file; break; case 8: f = ref::Base64(*file); break;
        case 9: f = ref::Gzip(*file); break; case 10: f = file->substr(4) + str(200, 'x'); break; case 11: f = file->substr(4, 4) + file->substr(0, 4) + file->substr(8); break;
        case 12: { f = *file; std::reverse(f.begin(), f.begin() + 4); std::reverse(f.begin() + 4, f.begin() + 8); break; }       // the other byte order
        case 13: f = *file; f.replace(4, 4, str("\x66\xfb\x4b\xb5", 4)); break;                                                  // the pre-release of KeePass 2
        default: f = str(size_t(150 + i), char(i)); }
      Expect(ImportText(kdbx, f, keys(bad)), kFormat, ctx);
    }, [](uint64_t i) { bool bad = Take(i, 2); return "file " + Num(i) + (bad ? ", wrong key" : ", right key"); });
    // Versions.
    std::vector<uint32_t> vs;
    if (kdbx) { for (uint32_t major : {4u, 5u, 16u, 255u, 256u, 0x7fffu, 0x8000u, 0xffffu}) for (uint32_t minor : {0u, 1u, 2u, 0xffffu}) vs.push_back(major << 16 | minor); }
    else { for (uint32_t hi = 0; hi < 0x400; ++hi) if (hi != 0x300) for (uint32_t lo : {0u, 3u, 255u}) vs.push_back(hi << 8 | lo); for (int b = 8; b < 32; ++b) vs.push_back(0x00030003u ^ (1u << b)); for (uint32_t v : {0x00040000u, 0x01030003u, 0xff030003u, 0xffffffffu}) vs.push_back(v); }
    c.Add(n + " unsupported versions", vs.size() * 2, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2); str f = *file; f.replace(kdbx ? 8 : 12, 4, ref::Le32(vs[size_t(i)])); Expect(ImportText(kdbx, f, keys(bad)), kFormat, ctx);
    }, [=](uint64_t i) { bool bad = Take(i, 2); return "version " + Num(vs[size_t(i)]) + (bad ? ", wrong key" : ", right key"); });
    // Wrong keys on files that are all right.
    auto ks = std::make_shared<std::vector<ref::KeySpec>>(Keys());
    size_t nk = ks->size();
    auto files = std::make_shared<std::map<size_t, str>>();
    for (int variant = 0; variant < (kdbx ? 2 : 2); ++variant) {
      c.Add(n + (variant ? kdbx ? " compressed" : " Twofish" : "") + ", every key on every file", nk * nk, [=](uint64_t i, Ctx& ctx) {
        size_t a = size_t(Take(i, nk)), b = size_t(i);
        if (SameKey((*ks)[a], (*ks)[b], kdbx)) return;
        MDb m = Small(kdbx); if (variant) { if (kdbx) m.compress = true; else m.twofish = true; }
        Expect(ImportText(kdbx, Encode(kdbx, m, (*ks)[a]), ref::LibKey((*ks)[b])), kPassword, ctx);
      }, [=](uint64_t i) { size_t a = size_t(Take(i, nk)), b = size_t(i); return "file with key " + Num(a) + ", opened with key " + Num(b); });
    }
    // Many wrong passwords: padding that is right by chance must not make a difference.
    c.Add(n + ", wrong passwords", q ? 3000 : 60000, [=](uint64_t i, Ctx& ctx) { ref::KeySpec k; k.pw = "wrong" + Num(i); Expect(ImportText(kdbx, *file, ref::LibKey(k)), kPassword, ctx); }, [](uint64_t i) { return "password 'wrong" + Num(i) + "'"; });
  }

  // KDB: cipher flags without a cipher.
  { auto file = std::make_shared<str>(Encode(false, Small(false), right));
    c.Add("KDB cipher flags", 1024 * 2, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2);
      uint32_t flags = uint32_t(i & 255) | (i & 256 ? 0x80000000u : 0) | (i & 512 ? 0x5500u : 0);
      if (flags & (2 | 8)) return;
      str f = *file; f.replace(8, 4, ref::Le32(flags)); Expect(ImportText(false, f, ref::LibKey(bad ? wrong : right)), kFormat, ctx);
    }, [](uint64_t i) { Take(i, 2); return "flags case " + Num(i); }); }

  // KDBX: identifiers and sizes in the header.
  { MDb m = Small(true);
    auto file = std::make_shared<str>(Encode(true, m, right));
    // Where the fields are: id -> (offset of the size, size).
    std::map<int, std::pair<size_t, size_t>> at; size_t end = 0;
    for (size_t p = 12; p + 3 <= file->size();) { int id = uint8_t((*file)[p]); size_t n = size_t(ref::Le(*file, p + 1, 2)); at[id] = {p + 1, n}; p += 3 + n; if (id == 0) { end = p; break; } }
    (void)end;
    auto put = [file, at](int id, const str& data) { str f = *file; auto a = at.at(id); f.replace(a.first, 2 + a.second, ref::Le16(uint16_t(data.size())) + data); return f; };
    auto key = [=](bool bad) { return ref::LibKey(bad ? wrong : right); };
    auto data = [file, at](int id) { auto a = at.at(id); return file->substr(a.first + 2, a.second); };
    c.Add("KDBX ciphers", 16 * 255 * 2, [=](uint64_t i, Ctx& ctx) { bool bad = Take(i, 2); size_t b = size_t(Take(i, 16)); str d = data(2); d[b] = char(d[b] ^ (i + 1)); Expect(ImportText(true, put(2, d), key(bad)), kFormat, ctx); },
          [](uint64_t i) { bool bad = Take(i, 2); size_t b = size_t(Take(i, 16)); return "byte " + Num(b) + " xor " + Num(i + 1) + (bad ? ", wrong key" : ", right key"); });
    std::vector<uint32_t> ids; for (uint32_t v = 2; v < 300; ++v) ids.push_back(v); for (int b = 1; b < 32; ++b) { ids.push_back(1u << b); ids.push_back((1u << b) | 1); ids.push_back((1u << b) - 1); } ids.push_back(0xffffffffu); ids.push_back(0xfffffffeu);
    c.Add("KDBX compressions", ids.size() * 2, [=](uint64_t i, Ctx& ctx) { bool bad = Take(i, 2); uint32_t v = ids[size_t(i)]; if (v < 2) return; Expect(ImportText(true, put(3, ref::Le32(v)), key(bad)), kFormat, ctx); },
          [=](uint64_t i) { bool bad = Take(i, 2); return "compression " + Num(ids[size_t(i)]) + (bad ? ", wrong key" : ", right key"); });
    c.Add("KDBX protected streams", ids.size() * 2, [=](uint64_t i, Ctx& ctx) { bool bad = Take(i, 2); uint32_t v = ids[size_t(i)]; if (v == 2) v = 0; else if (v == 3) v = 1; Expect(ImportText(true, put(10, ref::Le32(v)), key(bad)), kFormat, ctx); },
          [=](uint64_t i) { bool bad = Take(i, 2); return "stream case " + Num(ids[size_t(i)]) + (bad ? ", wrong key" : ", right key"); });
    std::vector<int> sized = {5, 7, 8, 9}; std::vector<size_t> right_size = {32, 16, 32, 32};
    c.Add("KDBX field sizes", 4 * 300 * 2, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2); size_t w = size_t(Take(i, 4)); size_t n = i < 290 ? size_t(i) : std::vector<size_t>{511, 512, 1000, 4096, 32767, 32768, 65280, 65534, 65535, 288}[size_t(i - 290)];
      if (n == right_size[w]) return;
      Expect(ImportText(true, put(sized[w], str(n, 'k')), key(bad)), kFormat, ctx);
    }, [=](uint64_t i) { bool bad = Take(i, 2); size_t w = size_t(Take(i, 4)); return "field " + Num(uint64_t(sized[w])) + ", size case " + Num(i) + (bad ? ", wrong key" : ", right key"); });
    c.Add("KDBX field identifiers", 256 * 2, [=](uint64_t i, Ctx& ctx) {
      bool bad = Take(i, 2); if (i <= 10) return;
      str f = *file; f.insert(12, str(1, char(i)) + ref::Le16(4) + "abcd"); Expect(ImportText(true, f, key(bad)), kFormat, ctx);
    }, [](uint64_t i) { Take(i, 2); return "identifier " + Num(i); }); }

  // Authentic but malformed.
  for (bool kdbx : {false, true}) for (bool rich : {false, true}) {
    if (rich && q && kdbx) continue;
    MDb m = rich ? Rich(kdbx) : Small(kdbx);
    str n = str(Name(kdbx)) + (rich ? " with all fields" : "");
    auto key = std::make_shared<keepass::Key>(ref::LibKey(right));
    if (!kdbx) {
      std::vector<ref::KdbRecord> g, e; ref::KdbRecords(m, ref::KdbOpt(), &g, &e);
      auto content = std::make_shared<str>(ref::KdbContent(g, e));
      uint32_t ng = uint32_t(g.size()), ne = uint32_t(e.size());
      FileRun run = [=](const str& f, Ctx& ctx) { ExpectInside(ImportText(false, ref::KdbWrap(m, right, ref::KdbOpt(), f, ng, ne), *key), ctx); return true; };
      AddTruncations(c, n + " content cut", content, run);
      AddBytes(c, n + " content bytes", content, 0, content->size(), q ? SomeByteValues() : AllByteValues(), run);
      AddSuffixes(c, n + " content longer", content, run);
      AddRuns(c, n + " content runs", content, q ? std::vector<int>{1, 4} : std::vector<int>{1, 2, 3, 4, 6, 16}, run);
      c.Add(n + " counts", 30 * 30, [=](uint64_t i, Ctx& ctx) {
        auto v = [](uint64_t k, uint32_t real) { return k < 8 ? uint32_t(k) : k < 20 ? real + uint32_t(k) - 14 : k < 29 ? (1u << (k + 3)) - 1 : 0xffffffffu; };
        uint64_t a = Take(i, 30), b = i; ExpectInside(ImportText(false, ref::KdbWrap(m, right, ref::KdbOpt(), *content, v(a, ng), v(b, ne)), *key), ctx);
      }, [](uint64_t i) { uint64_t a = Take(i, 30); return "counts case " + Num(a) + "/" + Num(i); });
      continue;
    }
    for (bool packed : {false, true}) {
      m.compress = packed;
      str p = n + (packed ? " compressed" : "");
      str start(32, 's');
      str header = ref::KdbxHeader(m, ref::KdbxOpt(), start);
      auto xml = std::make_shared<str>(ref::KdbxXml(m, ref::KdbxOpt(), ref::Sha256(header)));
      str fk = ref::FinalKey(m, right, true);
      str iv((const char*)m.iv.data(), 16);
      auto payload = std::make_shared<str>(packed ? ref::Gzip(*xml) : *xml);
      auto blocks = std::make_shared<str>(ref::HashedBlocks(*payload, {700}));
      auto seal = [=](const str& plain) { return header + ref::AesCbcEncRaw(fk, iv, ref::Pad(start + plain)); };
      auto test = [=](const str& plain, Ctx& ctx) { ExpectInside(ImportText(true, seal(plain), *key), ctx); return true; };
      FileRun in_blocks = test, in_payload = [=](const str& f, Ctx& ctx) { return test(ref::HashedBlocks(f, {700}), ctx); },
              in_xml = [=](const str& f, Ctx& ctx) { return test(ref::HashedBlocks(packed ? ref::Gzip(f) : f, {700}), ctx); };
      AddTruncations(c, p + " blocks cut", blocks, in_blocks);
      AddBytes(c, p + " block bytes", blocks, 0, blocks->size(), q ? std::vector<int>{0, 255, 1000} : SomeByteValues(), in_blocks);
      AddSuffixes(c, p + " blocks longer", blocks, in_blocks);
      AddTruncations(c, p + " payload cut", payload, in_payload);
      AddBytes(c, p + " payload bytes", payload, 0, payload->size(), packed ? q ? SomeByteValues() : AllByteValues() : SomeByteValues(), in_payload);
      if (packed) { AddTruncations(c, p + " XML cut", xml, in_xml); AddRuns(c, p + " XML runs", xml, {1, 5}, in_xml); }
      else AddRuns(c, p + " XML runs", xml, q ? std::vector<int>{1, 5} : std::vector<int>{1, 2, 3, 4, 5, 8, 13, 44, 100}, in_xml);
    }
  }

  // Malformed key files.
  { str hex; for (int i = 0; i < 64; ++i) hex += "0123456789abcdef"[(i * 7 + 3) % 16];
    str data = ref::Base64(str(32, 'k'));
    auto xml = [](const str& d) { return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>" + d + "</Data>\n\t</Key>\n</KeyFile>\n"; };
    std::vector<std::pair<str, str>> fs;
    for (size_t n = 0; n < 130; ++n) if (n != 64) { str s; while (s.size() < n) s += hex; fs.push_back({Num(n) + " digits", s.substr(0, n)}); }
    for (size_t at = 0; at < 64; ++at) for (int ch = 0; ch < 256; ++ch) if (!isxdigit(ch) && (!q || at % 9 == 0 || at == 1 || at == 63)) { str s = hex; s[at] = char(ch); if (s.find('<') == str::npos) fs.push_back({"character " + Num(uint64_t(ch)) + " at " + Num(at), s}); }
    for (size_t n = 0; n < 80; ++n) if (n != 32) fs.push_back({"data of " + Num(n) + " bytes", xml(ref::Base64(str(n, 'k')))});
    for (size_t n = 0; n < data.size(); ++n) fs.push_back({"data cut to " + Num(n) + " characters", xml(data.substr(0, n))});
    for (size_t at = 0; at < data.size(); ++at) for (char ch : {'!', '-', '_', '.', '\x7f', '='}) { str d = data; if (d[at] == '=') continue; if (ch == '=' && at + 1 >= data.size() - 1) continue; d[at] = ch; fs.push_back({str("data with ") + ch + " at " + Num(at), xml(d)}); }
    for (str s : {str(), str("\n"), hex + "\n", "\n" + hex, hex + hex, str(64, ' '), str("<KeyFile/>"), str("<KeyFile><Key/></KeyFile>"), str("<KeyFile><Data>") + data + "</Data></KeyFile>", str("<Key><Data>") + data + "</Data></Key>", str("<keyfile><key><data>") + data + "</data></key></keyfile>", str(32, 'b'), str(1000, 'f')}) fs.push_back({"text " + Quote(s, 60), s});
    auto all = std::make_shared<std::vector<std::pair<str, str>>>(fs);
    c.Add("malformed key files", all->size(), [all](uint64_t i, Ctx& ctx) { str p = scratch + "/mkf"; WriteFile(p, (*all)[size_t(i)].second); keepass::Key k; Expect(Attempt([&] { k.SetKeyFile(p); }), kFormat, ctx); }, [all](uint64_t i) { return (*all)[size_t(i)].first; }); }

  // Exports that are refused, and destinations that can't be used.
  { struct Refused { str name; bool kdb, kdbx; std::function<void(keepass::Database&)> spoil; };
    static std::vector<Refused> rs = {
      {"no root group", true, true, [](keepass::Database& d) { d.set_root(nullptr); }},
      {"entries in the root group", true, false, [](keepass::Database& d) { d.root()->AddEntry(std::make_shared<keepass::Entry>()); }},
      {"a master seed of 15 bytes", true, false, [](keepass::Database& d) { d.set_master_seed(std::vector<uint8_t>(15)); }},
      {"a master seed of 17 bytes", true, false, [](keepass::Database& d) { d.set_master_seed(std::vector<uint8_t>(17)); }},
      {"no master seed", true, false, [](keepass::Database& d) { d.set_master_seed(std::vector<uint8_t>()); }},
      {"a master seed of 65536 bytes", true, true, [](keepass::Database& d) { d.set_master_seed(std::vector<uint8_t>(65536)); }},
      {"too many rounds", true, false, [](keepass::Database& d) { d.set_transform_rounds(0x100000000ull); }},
      {"Twofish", false, true, [](keepass::Database& d) { d.set_cipher(keepass::Database::Cipher::kTwofish); }},
      {"a text with NUL", true, false, [](keepass::Database& d) { d.root()->Groups()[0]->Entries()[0]->set_title(keepass::protect<str>(str("a\0b", 3), false)); }},
      {"a time that can't be written", true, true, [](keepass::Database& d) { d.root()->Groups()[0]->Entries()[0]->set_creation_time(std::numeric_limits<std::time_t>::max()); }},
    };
    c.Add("refused exports", rs.size() * 2, [=](uint64_t i, Ctx& ctx) {
      bool kdbx = Take(i, 2); auto& r = rs[size_t(i)];
      if (!(kdbx ? r.kdbx : r.kdb)) return;
      MDb m = Small(kdbx); Built b = Build(m); r.spoil(*b.db);
      keepass::Key key = ref::LibKey(right); str p = scratch + "/refused";
      Expect(kdbx ? ExportKdbx(p, *b.db, key) : ExportKdb(p, *b.db, key), kInternal, ctx);
    }, [=](uint64_t i) { bool kdbx = Take(i, 2); return str(Name(kdbx)) + ": " + rs[size_t(i)].name; });
    auto ds = [] {
      std::vector<std::pair<str, str>> r;
      for (auto& m : Missing()) if (m.first != "a file that does not exist" && m.first != "a dangling link" && m.first != "a relative path that does not exist" && m.first != "a name with a line break") r.push_back(m);
      r.push_back({"a directory", scratch}); r.push_back({"a full device", "/dev/full"}); return r; };
    c.Add("destinations that can't be used", ds().size() * 2, [=](uint64_t i, Ctx& ctx) {
      bool kdbx = Take(i, 2); str p = ds()[size_t(i)].second;
      Built b = Build(Small(kdbx)); keepass::Key key = ref::LibKey(right);
      Expect(kdbx ? ExportKdbx(p, *b.db, key) : ExportKdb(p, *b.db, key), kIo, ctx);
    }, [=](uint64_t i) { bool kdbx = Take(i, 2); return str(Name(kdbx)) + ": " + ds()[size_t(i)].first; }); }
}

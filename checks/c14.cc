// C14: keys are derived from exactly the last password and the last valid key file.
#include <cstring>

#include "ref.hh"

using namespace mc;
using keepass::Key;

namespace {

std::array<uint8_t, 32> Arr(const str& s) { std::array<uint8_t, 32> a; for (int i = 0; i < 32; ++i) a[i] = uint8_t(s[i]); return a; }
str Str(const std::array<uint8_t, 32>& a) { return str(a.begin(), a.end()); }

// The real key against the specification, for both ways of combining the sub keys.
str Compare(const Key& key, const ref::KeySpec& spec, const str& seed, uint64_t rounds, Ctx& ctx) {
  for (int x = 0; x < 2; ++x) {
    str want = ref::Transform(ref::MasterKey(spec, x), seed, rounds);
    str got = Str(key.Transform(Arr(seed), rounds, x ? Key::SubKeyResolution::kHashSubKeys : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey));
    ctx.Trans(); ctx.Trace();
    ctx.State(got);
    if (got != want) return str("the transformed key (") + (x ? "sub keys always hashed" : "sub keys hashed if composite") + ", " + Num(rounds) + " rounds) is " + Hex(got) + " instead of " + Hex(want);
  }
  return "";
}

str XmlFile(const str& data) { return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>" + data + "</Data>\n\t</Key>\n</KeyFile>\n"; }
str HexDigits(const str& s, bool upper = false) { str r; for (unsigned char c : s) { const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef"; r += d[c >> 4]; r += d[c & 15]; } return r; }

str Unbase64(const str& text, bool* ok) {
  str t, out; for (char c : text) if (!strchr(" \t\r\n\v\f", c) || !c) t += c;
  *ok = ref::UnBase64(t, &out);
  return out;
}

// The acceptor: 1 accepted with `key`, 0 to be rejected, -1 not decided (not well-formed, but perhaps readable).
int Accept(const str& f, str* key) {
  bool hex = f.size() == 64;
  for (unsigned char c : f) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) hex = false;
  if (hex) {
    key->clear();
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i < 64; i += 2) *key += char(v(f[i]) * 16 + v(f[i + 1]));
    return 1;
  }
  ref::Node root; str err;
  bool odd = false;                                       // characters outside of XML, a declaration in doubt
  for (unsigned char ch : f) if (ch < 32 && ch != '\t' && ch != '\n' && ch != '\r') odd = true;
  for (size_t p = f.find("<?"); p != str::npos; p = f.find("<?", p + 1))
    if (f.find("<?xml version=\"1.0\" encoding=\"utf-8\"?>") != p && f.find("<?x y?>") != p) odd = true;
  if (!ref::ParseXml(f, &root, &err) || odd) return f.find('<') == str::npos ? 0 : -1;
  if (root.name != "KeyFile") return 0;
  const ref::Node* k = root.child("Key");
  const ref::Node* d = k ? k->child("Data") : nullptr;
  if (!d) return 0;
  bool ok; str data = Unbase64(d->text, &ok);
  if (!ok || data.size() != 32) return 0;
  *key = data;
  return 1;
}

// Loads the file into keys with and without an earlier key file.
void Load(const str& file, Ctx& ctx) {
  str path = scratch + "/key";
  WriteFile(path, file);
  str want;
  int accept = Accept(file, &want);
  if (accept == 1) ctx.Nontrivial();
  for (int before = 0; before < 2; ++before) {
    ref::KeySpec spec; spec.pw = "pw";
    Key key("pw");
    if (before) { spec.has_kf = true; spec.kf = ref::Sha256("old"); WriteFile(scratch + "/old", HexDigits(spec.kf)); key.SetKeyFile(scratch + "/old"); }
    Outcome o = Attempt([&] { key.SetKeyFile(path); });
    ctx.Trans();
    ctx.State(o.kind + o.what);
    if (accept == 1 && !o.ok) return ctx.Fail("a valid key file is rejected: " + o.kind + ": " + o.what + ": " + Quote(file, 300));
    if (accept == 0 && o.ok) return ctx.Fail("an invalid key file is accepted: " + Quote(file, 300));
    if (accept == -1 && o.ok) {
      // An XML document that is not well-formed may be read, but only as what its data element holds.
      size_t p = file.find("<Data>"), q = file.find("</Data", p == str::npos ? 0 : p);
      bool ok = false; if (p != str::npos) want = Unbase64(file.substr(p + 6, (q == str::npos ? file.size() : q) - p - 6), &ok);
      if (p == str::npos || !ok || want.size() != 32) return;                // nothing to compare with
    }
    if (o.ok) { spec.has_kf = true; spec.kf = want; }
    str d = Compare(key, spec, ref::Sha256("seed"), 1, ctx);
    if (!d.empty()) return ctx.Fail((o.ok ? "after loading " : "after the rejection (" + o.what + ") of ") + Quote(file, 300) + ": " + d);
  }
}

struct Op { str name; bool pw; str value; int valid; str key; };
std::vector<Op> g_ops;

}  // namespace

void mc::Register(Check& c) {
  c.property = "C14";
  c.level = "model_checking";
  c.rule = "All histories of setting passwords and loading valid and invalid key files up to a depth, compared after every step with an independent key derivation for both ways of combining "
           "sub keys; all numbers of rounds up to a bound; every bit of the seed, the password and the key file; all key files of an alphabet, with every change, removal and insertion of a "
           "character, every length and truncation, against an independent acceptor";
  c.assumptions = {"XML that is not well-formed but that the parser reads nevertheless may be accepted, with the contents of its data element as key"};
  str a = ref::Sha256("A"), b = ref::Sha256("B"), zero(32, 0);
  auto pw = [&](const str& v) { g_ops.push_back({"password " + Quote(v, 10), true, v, 1, ""}); };
  auto kf = [&](const str& name, const str& v, int valid, const str& key = "") { g_ops.push_back({name, false, v, valid, key}); };
  pw(""); pw("a"); pw("b"); pw(str(100, 'x'));
  kf("hexadecimal A", HexDigits(a), 1, a); kf("hexadecimal B", HexDigits(b, true), 1, b); kf("XML A", XmlFile(ref::Base64(a)), 1, a); kf("XML B", XmlFile(ref::Base64(b)), 1, b);
  kf("hexadecimal zeros", HexDigits(zero), 1, zero);
  kf("missing file", "\1missing", 0); kf("directory", "\1directory", 0); kf("empty file", "", 0); kf("63 digits", HexDigits(b).substr(1), 0); kf("65 digits", HexDigits(b) + "0", 0);
  kf("bad last digit", HexDigits(b).substr(0, 63) + "g", 0); kf("bad middle digit", HexDigits(b).substr(0, 32) + "x" + HexDigits(b).substr(33), 0);
  kf("XML 31 bytes", XmlFile(ref::Base64(b.substr(1))), 0); kf("XML 33 bytes", XmlFile(ref::Base64(b + "x")), 0); kf("XML bad base64", XmlFile(ref::Base64(b).substr(0, 43) + "!"), 0);
  kf("XML without data", "<KeyFile><Key/></KeyFile>", 0); kf("32 raw bytes", b, 0);
  const int depth = Quick() ? 3 : 4;
  uint64_t n = g_ops.size(), total = 1;
  for (int d = 1; d <= depth; ++d) {
    total *= n;
    c.Add("histories of " + Num(uint64_t(d)) + " operations", total * 3, [=](uint64_t i, Ctx& ctx) {
      int start = int(Take(i, 3));
      ref::KeySpec spec; spec.has_pw = start > 0; spec.pw = start == 1 ? "start" : "";
      Key key; if (start) key = Key(spec.pw);
      str seed = ref::Sha256("seed"), done = start == 0 ? "new key" : "new key with password " + Quote(spec.pw);
      for (int k = 0; k < d; ++k) {
        const Op& op = g_ops[Take(i, n)];
        done += ", " + op.name;
        if (op.pw) { key.SetPassword(op.value); spec.has_pw = true; spec.pw = op.value; }
        else {
          str path = scratch + "/key" + Num(uint64_t(k));
          if (op.value == "\1missing") path = scratch + "/no/such/file";
          else if (op.value == "\1directory") path = scratch;
          else WriteFile(path, op.value);
          Outcome o = Attempt([&] { key.SetKeyFile(path); });
          if (o.ok != (op.valid == 1)) return ctx.Fail("after " + done + ": " + (o.ok ? "the invalid key file is accepted" : "the valid key file is rejected: " + o.what));
          if (o.ok) { spec.has_kf = true; spec.kf = op.key; }
        }
        ctx.Trans();
        str r = Compare(key, spec, seed, k == d - 1 ? 2 : 0, ctx);
        if (!r.empty()) return ctx.Fail("after " + done + ": " + r);
      }
      // A copy is the same key, and deriving changes nothing.
      Key copy(key);
      str r = Compare(copy, spec, ref::Sha256("other seed"), 1, ctx);
      if (r.empty()) { copy.SetPassword("changed"); r = Compare(key, spec, seed, 1, ctx); }
      if (!r.empty()) ctx.Fail("after " + done + ", copied: " + r);
    }, [=](uint64_t i) { int start = int(Take(i, 3)); str s = start == 0 ? "new key" : start == 1 ? "new key \"start\"" : "new key \"\""; for (int k = 0; k < d; ++k) s += ", " + g_ops[Take(i, n)].name; return s; }, 30, 256);
  }
  // ------------------------------------------------ rounds and seeds
  auto spec = [a](int kind) { ref::KeySpec s; s.has_pw = kind & 1; s.pw = kind & 1 ? "password" : ""; s.has_kf = kind & 2; s.kf = kind & 2 ? a : ""; return s; };
  c.Add("rounds", (Quick() ? 700 : 5000) * 4, [=](uint64_t i, Ctx& ctx) {
    ref::KeySpec s = spec(int(Take(i, 4)));
    str r = Compare(ref::LibKey(s), s, ref::Sha256("rounds"), i, ctx);
    if (!r.empty()) ctx.Fail(r);
  });
  static const uint64_t many[] = {6000, 10007, 65535, 65536, 65537, 100000, 131071, 131072, 262144, 1000001, 16777216, 16777217};
  c.Add("many rounds", Quick() ? 10 : 12, [=](uint64_t i, Ctx& ctx) {
    ref::KeySpec s = spec(3);
    str r = Compare(ref::LibKey(s), s, ref::Sha256("rounds"), many[i], ctx);
    if (!r.empty()) ctx.Fail(r);
  }, nullptr, 300, 1);
  // Numbers of rounds that nothing gets through: the derivation must be at work on them.
  static const uint64_t endless[] = {(1ull << 32) + 1, 1ull << 32, 1ull << 33, (1ull << 40) + 1, 1ull << 48, (1ull << 63) + 1, 1ull << 63, ~0ull, 0xffffffffull, 0x80000000ull, 0x80000001ull, 0x7fffffffull};
  c.Add("rounds without end", 12 * 2, [=](uint64_t i, Ctx& ctx) {
    uint64_t rounds = endless[Take(i, 12)]; str r;
    Key key = ref::LibKey(spec(3));
    bool on = RunsOn([&] { return Hex(Str(key.Transform(Arr(ref::Sha256("rounds")), rounds, i ? Key::SubKeyResolution::kHashSubKeys : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey))); }, 400, &r);
    ctx.Trans(); ctx.Trace(); ctx.Nontrivial(); ctx.State(on ? str("on") : r);
    if (!on) ctx.Fail("the key is transformed " + Num(rounds) + " times at once: " + r);
  }, [](uint64_t i) { return Num(endless[Take(i, 12)]) + " rounds"; }, 30, 1);
  c.Add("seeds", (256 + 32 * 3 + 2) * 4, [=](uint64_t i, Ctx& ctx) {
    ref::KeySpec s = spec(int(Take(i, 4)));
    str seed(32, 0);
    if (i < 256) seed[i / 8] = char(1 << (i % 8));
    else if (i < 256 + 96) { i -= 256; static const char v[] = {char(0xff), 0x55, char(0x80)}; seed = ref::Sha256("s"); seed[i / 3] = v[i % 3]; }
    else seed = str(32, i % 2 ? char(0xff) : char(0));
    for (uint64_t rounds : {1, 3}) { str r = Compare(ref::LibKey(s), s, seed, rounds, ctx); if (!r.empty()) return ctx.Fail(r); }
  });
  c.Add("passwords", 256 + 65536 + 1024, [=](uint64_t i, Ctx& ctx) {
    ref::KeySpec s = spec(1);
    if (i < 256) s.pw = str(1, char(i));
    else if (i < 256 + 65536) { i -= 256; s.pw = str("a") + char(i) + char(i >> 8); }
    else { i -= 65792; s.pw.clear(); for (uint64_t k = 0; k < i; ++k) s.pw += char('a' + k % 25); }
    Key k; k.SetPassword(s.pw); Key l(s.pw);
    str r = Compare(k, s, ref::Sha256("p"), 0, ctx);
    if (r.empty()) r = Compare(l, s, ref::Sha256("p"), 0, ctx);
    if (!r.empty()) ctx.Fail("password " + Quote(s.pw) + ": " + r);
  });
  c.Add("key file contents", 256 * 2 + 32 * 256, [=](uint64_t i, Ctx& ctx) {
    str k = a;
    if (i < 512) { k = str(32, (i & 1) ? char(0xff) : char(0)); k[i / 16] ^= char(1 << (i / 2 % 8)); }
    else { i -= 512; k[i / 256] = char(i); }
    Load(HexDigits(k), ctx); Load(XmlFile(ref::Base64(k)), ctx);
  });
  // ------------------------------------------------ which files are key files
  static str hex, xml, xml2;
  hex = HexDigits(a.substr(0, 16)) + HexDigits(a.substr(16), true); xml = XmlFile(ref::Base64(a)); xml2 = "<KeyFile><Key><Data>" + ref::Base64(b) + "</Data></Key></KeyFile>";
  c.Add("hexadecimal, changed character", 64 * 256, [](uint64_t i, Ctx& ctx) { str f = hex; f[i / 256] = char(i); Load(f, ctx); });
  c.Add("hexadecimal, pairs of characters", 65536, [](uint64_t i, Ctx& ctx) { str f = hex; f[10] = char(i); f[11] = char(i >> 8); Load(f, ctx); });
  c.Add("hexadecimal, length", 300 * 3, [](uint64_t i, Ctx& ctx) { int kind = int(Take(i, 3)); str f; for (uint64_t k = 0; k < i; ++k) f += kind == 0 ? "0123456789abcdef"[k % 16] : kind == 1 ? '0' : 'F'; Load(f, ctx); });
  c.Add("hexadecimal, removal and insertion", 64 + 65 * 20, [](uint64_t i, Ctx& ctx) {
    str f = hex;
    if (i < 64) f.erase(size_t(i), 1);
    else { i -= 64; static const str ins[] = {"0", "f", "g", " ", "\n", "\r\n", "\t", str(1, 0), "-", "+", "0x", "\xef\xbb\xbf", "<", "<!---->", "\xff", "A", "a", "&", "/", ","}; f.insert(size_t(i / 20), ins[i % 20]); }
    Load(f, ctx);
  });
  c.Add("hexadecimal, padded", 64 * 8, [](uint64_t i, Ctx& ctx) {       // 64 characters in all
    static const str pad[] = {" ", "\n", "\t", str(1, 0), "-", "+", "x", "\r"};
    const str& p = pad[Take(i, 8)]; str f = hex.substr(0, size_t(i)); while (f.size() < 64) f += p; Load(f, ctx);
    f = hex.substr(0, size_t(i)); while (f.size() < 64) f = p + f; Load(f, ctx);
  });
  for (int x = 0; x < 2; ++x) {
    const str* doc = x ? &xml2 : &xml; str nm = x ? ", short" : "";
    c.Add("XML, changed character" + nm, doc->size() * (Quick() ? 64 : 256), [=](uint64_t i, Ctx& ctx) {
      static const str q = str("<>&'\"/=+ \n\t\rAZaz09!?-[]_.:;,#()*%@^~|\\{}$`", 43) + str("\0\x7f\x80\xff\xc3\xe2\xf0\x01\x1f" "BQgw13578K", 20);
      uint64_t k = Quick() ? 64 : 256; char ch = Quick() ? (i % k < q.size() ? q[i % k] : 'k') : char(i % k);
      str f = *doc; f[i / k] = ch; Load(f, ctx);
    }, nullptr, 30, 256);
    c.Add("XML, cut and removed" + nm, doc->size() * 3, [=](uint64_t i, Ctx& ctx) {
      int kind = int(Take(i, 3)); str f = *doc;
      if (kind == 0) f.resize(size_t(i)); else if (kind == 1) f.erase(size_t(i), 1); else f.erase(0, size_t(i));
      Load(f, ctx);
    });
    c.Add("XML, insertion" + nm, doc->size() * 16, [=](uint64_t i, Ctx& ctx) {
      static const str ins[] = {" ", "\n", "A", "=", "<", ">", "&", "&lt;", "&#65;", "<a/>", "<Key/>", "<Data/>", "<Key><Data>AAAA</Data></Key>", "<!DOCTYPE a>", "<?a b?>", "\xff"};
      const str& s = ins[Take(i, 16)]; str f = *doc; f.insert(size_t(i), s);
      // Text in several pieces is the known finding split-text of C03.
      size_t p = f.find("<Data>"), q = f.find("</Data>");
      if (s[0] == '<' && p != str::npos && q != str::npos && i > doc->find("<Data>") + 5 && i <= doc->find("</Data>")) return;
      Load(f, ctx);
    });
  }
  c.Add("XML, sizes of the data", 100 * 3, [](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 3)); str d;
    for (uint64_t k = 0; k < i; ++k) d += char(kind == 0 ? k * 37 + 1 : kind == 1 ? 0 : 255);
    Load(XmlFile(ref::Base64(d)), ctx);
  });
  static std::vector<str> docs;
  {
    str d = ref::Base64(a), e = ref::Base64(b), s = ref::Base64(a.substr(1)), k = "<Key><Data>" + d + "</Data></Key>";
    auto add = [&](const str& f) { docs.push_back(f); };
    add("<KeyFile>" + k + "</KeyFile>"); add("\xef\xbb\xbf<KeyFile>" + k + "</KeyFile>"); add("<!-- comment --><KeyFile>" + k + "</KeyFile><!-- comment -->"); add("<!DOCTYPE KeyFile><KeyFile>" + k + "</KeyFile>");
    add("<KeyFile a='b'><!-- c --><Key c='d'><?x y?><Data e=\"f\">" + d + "</Data></Key></KeyFile>"); add("<KeyFile><Key><Data>\n\t " + d + " \r\n</Data></Key></KeyFile>");
    add("<KeyFile><Key><Data>" + d.substr(0, 20) + "\n\t" + d.substr(20) + "</Data></Key></KeyFile>"); add("<KeyFile><Key><Data><![CDATA[" + d + "]]></Data></Key></KeyFile>");
    { str r; for (char ch : d) r += "&#" + Num(uint64_t(ch)) + ";"; add("<KeyFile><Key><Data>" + r + "</Data></Key></KeyFile>"); }
    { str r; for (char ch : d) r += str(1, ch) + " "; add("<KeyFile><Key><Data>" + r + "</Data></Key></KeyFile>"); }
    add("<KeyFile><Key><Data>" + d + "</Data><Data>" + e + "</Data></Key></KeyFile>"); add("<KeyFile>" + k + "<Key><Data>" + e + "</Data></Key></KeyFile>");
    add("<KeyFile><Key/>" + k + "</KeyFile>"); add("<KeyFile><Key><Data/><Data>" + d + "</Data></Key></KeyFile>"); add("<KeyFile><Key><Other>" + e + "</Other><Data>" + d + "</Data></Key></KeyFile>");
    add("<KeyFile><Other>" + k + "</Other></KeyFile>"); add("<keyfile>" + k + "</keyfile>"); add("<KeyFile><key><Data>" + d + "</Data></key></KeyFile>"); add("<KeyFile><Key><data>" + d + "</data></Key></KeyFile>");
    add("<KeyFile><Key>" + d + "</Key></KeyFile>"); add("<KeyFile><Data>" + d + "</Data></KeyFile>"); add("<KeyFile>" + d + "</KeyFile>"); add("<Key><Data>" + d + "</Data></Key>"); add(d); add("<KeyFile/>"); add("<a/>"); add("<>");
    add("<KeyFile><Key Data='" + d + "'/></KeyFile>"); add("<KeyFile><Key><Data Hash='x' Value='" + d + "'/></Key></KeyFile>"); add("<KeyFile><Key><Data>" + s + "</Data></Key></KeyFile>"); add("<KeyFile><Key><Data>" + d + d + "</Data></Key></KeyFile>");
    add("<KeyFile><Key><Data>" + HexDigits(a) + "</Data></Key></KeyFile>"); add("<KeyFile><Key><Data>" + d.substr(0, d.size() - 1) + "</Data></Key></KeyFile>"); add("<x:KeyFile>" + k + "</x:KeyFile>");
    add(str(64, ' ')); add(str(64, '\n')); add(str(64, 0)); add("<!--" + str(57, 'a') + "-->"); add("<a>" + str(57, '0') + "</a>"); add(hex + hex); add(a); add(a + b); add(HexDigits(a).substr(0, 62) + "\r\n"); add(HexDigits(a) + "\n"); add(HexDigits(a) + "\r\n");
    add("<KeyFile><Meta><Version>1.00</Version></Meta>" + k + "</KeyFile>\n\n\n"); add("<KeyFile><Meta><Data>" + e + "</Data></Meta>" + k + "</KeyFile>"); add("<KeyFile><Meta>" + k + "</Meta><Key><Data>" + e + "</Data></Key></KeyFile>");
    for (size_t big : {4096, 16384, 32768, 65536, 100000}) { add("<KeyFile><Meta>" + str(big, 'x') + "</Meta>" + k + "</KeyFile>"); add(str(big, '0')); add(str(big, ' ') + "<KeyFile>" + k + "</KeyFile>"); }
  }
  c.Add("documents", docs.size(), [](uint64_t i, Ctx& ctx) { Load(docs[i], ctx); });
}

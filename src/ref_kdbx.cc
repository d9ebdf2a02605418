#include <string.h>

#include <set>

#include "ref.hh"

namespace ref {

// ---------------------------------------------------------------- XML reader

const Node* Node::child(const str& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; }
str Node::childText(const str& n) const { auto c = child(n); return c ? c->text : ""; }
str Node::attr(const str& n) const { for (auto& a : attrs) if (a.first == n) return a.second; return ""; }

namespace {

struct XmlReader {
  const str& s; size_t p = 0; str err;
  explicit XmlReader(const str& s_) : s(s_) {}
  bool Fail(const str& e) { if (err.empty()) err = e + " at " + mc::Num(p); return false; }
  bool At(const char* t) const { return s.compare(p, strlen(t), t) == 0; }
  static bool Space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void Ws() { while (p < s.size() && Space(s[p])) ++p; }
  static bool NameChar(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.' || c == ':' || (unsigned char)c >= 0x80; }
  bool Name(str* n) {
    size_t b = p;
    while (p < s.size() && NameChar(s[p])) ++p;
    *n = s.substr(b, p - b);
    return !n->empty() && !isdigit((unsigned char)(*n)[0]) && (*n)[0] != '-' && (*n)[0] != '.';
  }
  bool Skip(const char* open, const char* close) {
    p += strlen(open);
    size_t e = s.find(close, p);
    if (e == str::npos) return Fail("unterminated markup");
    p = e + strlen(close);
    return true;
  }
  bool Ref(str* out) {
    size_t e = s.find(';', p);
    if (e == str::npos || e - p > 12) return Fail("bad reference");
    str n = s.substr(p + 1, e - p - 1);
    p = e + 1;
    if (n == "lt") *out += '<'; else if (n == "gt") *out += '>'; else if (n == "amp") *out += '&';
    else if (n == "quot") *out += '"'; else if (n == "apos") *out += '\'';
    else if (n.size() > 1 && n[0] == '#') {
      char* end; bool hex = n[1] == 'x';
      unsigned long c = strtoul(n.c_str() + (hex ? 2 : 1), &end, hex ? 16 : 10);
      if (*end || c == 0 || c > 0x10ffff) return Fail("bad character reference");
      if (c < 0x80) *out += char(c);
      else if (c < 0x800) { *out += char(0xc0 | c >> 6); *out += char(0x80 | (c & 63)); }
      else if (c < 0x10000) { *out += char(0xe0 | c >> 12); *out += char(0x80 | (c >> 6 & 63)); *out += char(0x80 | (c & 63)); }
      else { *out += char(0xf0 | c >> 18); *out += char(0x80 | (c >> 12 & 63)); *out += char(0x80 | (c >> 6 & 63)); *out += char(0x80 | (c & 63)); }
    } else return Fail("unknown entity");
    return true;
  }
  bool Raw(char c, str* out) {
    if (c == '\r') { ++p; if (p < s.size() && s[p] == '\n') ++p; *out += '\n'; return true; }
    if ((unsigned char)c < 0x20 && c != '\t' && c != '\n') return Fail("control character in text");
    *out += c; ++p;
    return true;
  }
  bool Attr(Node* n) {
    std::pair<str, str> a;
    if (!Name(&a.first)) return Fail("attribute name");
    Ws();
    if (p >= s.size() || s[p] != '=') return Fail("attribute without value");
    ++p; Ws();
    if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) return Fail("attribute quote");
    char q = s[p++];
    while (p < s.size() && s[p] != q) {
      if (s[p] == '<') return Fail("< in attribute");
      if (s[p] == '&') { if (!Ref(&a.second)) return false; }
      else if (!Raw(s[p], &a.second)) return false;
    }
    if (p >= s.size()) return Fail("unterminated attribute");
    ++p;
    for (auto& x : n->attrs) if (x.first == a.first) return Fail("duplicate attribute");
    n->attrs.push_back(a);
    return true;
  }
  bool Element(Node* n, int depth) {
    if (depth > 5000) return Fail("too deep");
    ++p;
    if (!Name(&n->name)) return Fail("element name");
    for (;;) {
      bool ws = p < s.size() && Space(s[p]);
      Ws();
      if (p >= s.size()) return Fail("unterminated tag");
      if (At("/>")) { p += 2; return true; }
      if (s[p] == '>') { ++p; break; }
      if (!ws) return Fail("missing space before attribute");
      if (!Attr(n)) return false;
    }
    while (p < s.size()) {
      if (At("</")) {
        p += 2;
        str m;
        if (!Name(&m) || m != n->name) return Fail("mismatched end tag");
        Ws();
        if (p >= s.size() || s[p] != '>') return Fail("end tag");
        ++p;
        return true;
      }
      if (At("<!--")) { if (!Skip("<!--", "-->")) return false; }
      else if (At("<![CDATA[")) {
        size_t e = s.find("]]>", p);
        if (e == str::npos) return Fail("unterminated CDATA");
        str raw = s.substr(p + 9, e - p - 9);
        for (size_t i = 0; i < raw.size(); ++i) { if (raw[i] == '\r') { if (i + 1 < raw.size() && raw[i + 1] == '\n') continue; n->text += '\n'; } else n->text += raw[i]; }
        p = e + 3;
      }
      else if (At("<?")) { if (!Skip("<?", "?>")) return false; }
      else if (s[p] == '<') { n->kids.emplace_back(); if (!Element(&n->kids.back(), depth + 1)) return false; }
      else if (s[p] == '&') { if (!Ref(&n->text)) return false; }
      else { if (At("]]>")) return Fail("]]> in text"); if (!Raw(s[p], &n->text)) return false; }
    }
    return Fail("missing end tag");
  }
  bool Misc() {
    for (;;) {
      Ws();
      if (At("<!--")) { if (!Skip("<!--", "-->")) return false; }
      else if (At("<?")) { if (!Skip("<?", "?>")) return false; }
      else return true;
    }
  }
  bool Document(Node* root) {
    if (At("\xef\xbb\xbf")) p += 3;
    if (!Misc()) return false;
    if (p >= s.size() || s[p] != '<') return Fail("no root element");
    if (!Element(root, 0) || !Misc()) return false;
    return p == s.size() ? true : Fail("data after the root element");
  }
};

bool WsOnly(const str& s) { return s.find_first_not_of(" \t\r\n") == str::npos; }

}  // namespace

bool ParseXml(const str& s, Node* root, str* error) {
  XmlReader r(s);
  bool ok = r.Document(root);
  if (error) *error = r.err;
  return ok;
}

// ---------------------------------------------------------------- XML writer

namespace {

str UuidStr(const mc::Uuid& u) { return Base64(str((const char*)u.data(), 16)); }
const str kZeroUuid(16, 0);

struct XmlWriter {
  const MDb& m; const KdbxOpt& o; str out; int depth = 0; size_t serial = 0;
  str stream; size_t spos = 0;                             // key stream
  std::vector<str> open;
  bool fresh = false;                                      // an element was just opened and has no children
  XmlWriter(const MDb& m_, const KdbxOpt& o_) : m(m_), o(o_) {}
  str Obfuscate(const str& v) {
    if (spos + v.size() > stream.size()) stream = Salsa20(Sha256(str((const char*)m.isk.data(), 32)), str("\xe8\x30\x09\x4b\x97\x20\x5d\x2a", 8), (spos + v.size()) * 2 + 64);
    str r = v;
    for (auto& c : r) c ^= stream[spos++];
    return r;
  }
  str Esc(const str& t, bool attr, int mode) {
    str r;
    char b[16];
    for (size_t i = 0; i < t.size(); ++i) {
      unsigned char c = t[i];
      bool must = c == '<' || c == '&' || c == '>' || (attr && (c == '"' || c == '\'')) || (c < 0x20 && !(c == '\n' || c == '\t')) || (attr && c < 0x20);
      if (!must && !(mode == 5 && c < 0x80)) { r += char(c); continue; }
      if (mode == 0) {
        if (c == '<') { r += "&lt;"; continue; }
        if (c == '>') { r += "&gt;"; continue; }
        if (c == '&') { r += "&amp;"; continue; }
        if (c == '"') { r += "&quot;"; continue; }
        if (c == '\'') { r += "&apos;"; continue; }
      }
      snprintf(b, sizeof b, mode == 2 ? "&#x%X;" : "&#%d;", c);
      r += b;
    }
    return r;
  }
  static bool CdataOk(const str& t) {
    if (t.find("]]>") != str::npos || t.empty()) return false;
    for (unsigned char c : t) if (c < 0x20 && c != '\n' && c != '\t') return false;
    return true;
  }
  str Eol(const str& t) {
    if (!o.eol) return t;
    str r;
    for (char c : t) if (c == '\n') r += o.eol == 1 ? "\r\n" : "\r"; else r += c;
    return r;
  }
  str Text(const str& t) {
    if ((o.text == 3 || o.text == 4) && CdataOk(t)) {
      if (o.text == 3 || t.size() < 2) return Eol("<![CDATA[" + t + "]]>");
      return Eol(Esc(t.substr(0, 1), false, 0) + "<![CDATA[" + t.substr(1) + "]]>");
    }
    return Eol(Esc(t, false, o.text));
  }
  void Nl() {
    if (!o.indent) return;
    out += o.indent == 1 ? "\n" : "\r\n";
    for (int i = 0; i < depth; ++i) out += o.indent == 1 ? "\t" : "  ";
  }
  str Attrs(const std::vector<std::pair<str, str>>& a) {
    str r;
    char q = o.single_quotes ? '\'' : '"';
    for (auto& x : a) r += " " + x.first + (o.indent == 2 ? " = " : "=") + q + Esc(x.second, true, o.text < 3 ? o.text : 0) + q;
    return r;
  }
  void Between() {
    ++serial;
    if (o.comments && serial % 3 == 0) { Nl(); out += "<!-- <Title>no</Title> -->"; }
  }
  void Leaf(const str& name, const str& text, const std::vector<std::pair<str, str>>& attrs = {}) {
    Between(); Nl();
    str body = Text(text);
    if (body.empty() && !o.expand_empty) { out += "<" + name + Attrs(attrs) + (o.indent == 2 ? " />" : "/>"); return; }
    out += "<" + name + Attrs(attrs) + ">" + body + "</" + name + (o.indent == 2 ? " >" : ">");
  }
  // Optional leaf: may be left out when it holds the default.
  void Opt(const str& name, const str& text, const str& def) { if (o.omit_empty && text == def) return; Leaf(name, text); }
  void Open(const str& name) { Between(); Nl(); out += "<" + name + ">"; ++depth; }
  void Close(const str& name) { --depth; Nl(); out += "</" + name + ">"; }
  str Bool(bool b) const { str r = b ? "True" : "False"; if (o.lower_bool) r[0] = char(r[0] | 0x20); return r; }
  str B64(const str& d) const {
    str b = Base64(d);
    if (!o.b64_wrap) return b;
    str r;
    for (size_t i = 0; i < b.size(); ++i) { if (i && i % size_t(o.b64_wrap) == 0) r += (i / o.b64_wrap) % 2 ? "\r\n" : "\t "; r += b[i]; }
    return r;
  }
  void Prot(const str& name, const mc::MStr& v) {
    if (v.p && o.in_memory) Leaf(name, v.v, {{"ProtectedInMemory", Bool(true)}});
    else if (v.p) Leaf(name, B64(Obfuscate(v.v)), {{"Protected", Bool(true)}});
    else if (o.omit_empty && v.v.empty()) return;
    else Leaf(name, v.v);
  }
  void Bin(const str& name, const mc::MBin& b, std::vector<std::pair<str, str>> attrs, bool compress) {
    if (b.prot && !o.in_memory) { attrs.push_back({"Protected", Bool(true)}); Leaf(name, B64(Obfuscate(b.data)), attrs); return; }
    if (b.prot) attrs.push_back({"ProtectedInMemory", Bool(true)});
    if (compress) { attrs.push_back({"Compressed", Bool(true)}); Leaf(name, B64(Gzip(b.data, o.gz)), attrs); }
    else Leaf(name, B64(b.data), attrs);
  }
  str Id(int i) const { return mc::Num(o.id_base + i); }

  void Unknown(int kind) {
    if (!o.unknown) return;
    if (kind == 0) { Leaf("SettingsChanged", "2015-01-01T00:00:00Z"); }
    if (kind == 1) { Open("CustomData"); Open("Item"); Leaf("Key", "KPXC"); Leaf("Value", "x"); Close("Item"); Close("CustomData"); }
    if (kind == 2) { Open("DeletedObjects"); Open("DeletedObject"); Leaf("UUID", Base64(str(16, 'u'))); Leaf("DeletionTime", "2015-01-01T00:00:00Z"); Close("DeletedObject"); Close("DeletedObjects"); }
  }

  void String(const str& key, const mc::MStr& v) {
    if (o.omit_empty && v.v.empty() && !v.p && (key == "Title" || key == "URL" || key == "UserName" || key == "Password" || key == "Notes")) return;
    Open("String"); Leaf("Key", key); Prot("Value", v); Close("String");
  }
  void Times(int64_t c, int64_t mo, int64_t a, int64_t e, int64_t l, bool ex, uint32_t usage) {
    Open("Times");
    auto cr = [&] { Leaf("CreationTime", IsoUtc(c)); };
    auto md = [&] { Leaf("LastModificationTime", IsoUtc(mo)); };
    if (o.order == 0) { cr(); md(); } else { md(); cr(); }
    Leaf("LastAccessTime", IsoUtc(a)); Leaf("ExpiryTime", IsoUtc(e));
    if (o.order == 1) { Leaf("Expires", Bool(ex)); Leaf("UsageCount", mc::Num(usage)); Leaf("LocationChanged", IsoUtc(l)); }
    else { Leaf("LocationChanged", IsoUtc(l)); Leaf("Expires", Bool(ex)); Leaf("UsageCount", mc::Num(usage)); }
    Close("Times");
  }
  void AutoType(const MEntry& e) {
    Open("AutoType");
    Leaf("Enabled", Bool(e.at_enabled)); Leaf("DataTransferObfuscation", mc::Num(e.at_obf)); Opt("DefaultSequence", e.at_sequence, "");
    for (auto& a : e.assocs) { Open("Association"); Leaf("Window", a.window); Leaf("KeystrokeSequence", a.sequence); Close("Association"); }
    Close("AutoType");
  }
  void Entry(const MEntry& e) {
    Open("Entry");
    Leaf("UUID", B64(str((const char*)e.uuid.data(), 16))); Opt("IconID", mc::Num(e.icon), "0");
    auto custom = [&] { if (e.custom_icon >= 0) Leaf("CustomIconUUID", UuidStr(m.icons[e.custom_icon].uuid)); };
    if (o.order == 1) custom();
    Opt("ForegroundColor", e.fg, ""); Opt("BackgroundColor", e.bg, ""); Opt("OverrideURL", e.override_url, ""); Opt("Tags", e.tags, "");
    if (o.order == 0) custom();
    Times(e.t_creation, e.t_mod, e.t_access, e.t_expiry, e.t_move, e.expires, e.usage);
    if (o.order == 0) AutoType(e);
    if (o.order == 0) { String("Title", e.title); String("URL", e.url); String("UserName", e.username); String("Password", e.password); String("Notes", e.notes); for (auto& f : e.fields) String(f.key, f.value); }
    else {
      size_t k = 0;
      auto next = [&] { if (k < e.fields.size()) { String(e.fields[k].key, e.fields[k].value); ++k; } };
      next(); String("Notes", e.notes); next(); String("Password", e.password); String("Title", e.title); next(); String("URL", e.url); String("UserName", e.username);
      while (k < e.fields.size()) next();
    }
    for (auto& a : e.atts) {
      Open("Binary"); Leaf("Key", a.name);
      if (a.bin >= 0) {
        if (a.bin < m.pooled) Leaf("Value", "", {{"Ref", Id(a.bin)}});
        else Bin("Value", m.bins[a.bin], {}, o.inline_mode == 1);
      }
      Close("Binary");
    }
    if (o.order == 1) AutoType(e);
    Unknown(1);
    if (!(o.omit_empty && e.history.empty())) { Open("History"); for (auto& h : e.history) Entry(h); Close("History"); }
    Close("Entry");
  }
  void Group(const MGroup& g, bool autotype = true, bool search = true) {
    Open("Group");
    Leaf("UUID", UuidStr(g.uuid)); Leaf("Name", g.name); Opt("Notes", g.notes, ""); Opt("IconID", mc::Num(g.icon), "0");
    if (g.custom_icon >= 0) Leaf("CustomIconUUID", UuidStr(m.icons[g.custom_icon].uuid));
    Times(g.t_creation, g.t_mod, g.t_access, g.t_expiry, g.t_move, g.expires, g.usage);
    Leaf("IsExpanded", Bool(g.expanded)); Opt("DefaultAutoTypeSequence", g.sequence, ""); 
    Leaf("EnableAutoType", (o.inherit == 1 || o.inherit == 2) && g.autotype == autotype ? "null" : Bool(g.autotype));
    Leaf("EnableSearching", (o.inherit == 1 || o.inherit == 3) && g.search == search ? "null" : Bool(g.search));
    if (g.last_visible >= mc::kElsewhere) { std::vector<mc::MEntry*> es; MDb c = m; mc::AllEntries(c.root, es); Leaf("LastTopVisibleEntry", UuidStr(es.at(g.last_visible - mc::kElsewhere)->uuid)); }
    else if (g.last_visible >= 0) Leaf("LastTopVisibleEntry", UuidStr(g.entries[g.last_visible].uuid));
    else if (o.zero_refs) Leaf("LastTopVisibleEntry", Base64(kZeroUuid));
    Unknown(1);
    for (auto& e : g.entries) Entry(e);
    for (auto& s : g.groups) Group(s, g.autotype, g.search);
    Close("Group");
  }
  void Meta(const str& hash) {
    const mc::MMeta& t = m.meta;
    std::vector<const MGroup*> gs;
    std::function<void(const MGroup&)> walk = [&](const MGroup& g) { gs.push_back(&g); for (auto& s : g.groups) walk(s); };
    walk(m.root);
    auto ref = [&](const str& name, int i) { if (i >= 0) Leaf(name, UuidStr(gs[i]->uuid)); else if (o.zero_refs) Leaf(name, Base64(kZeroUuid)); };
    Open("Meta");
    if (o.order == 0) Leaf("HeaderHash", Base64(hash));
    Leaf("Generator", t.generator);
    if (o.order == 1) Leaf("HeaderHash", Base64(hash));
    Unknown(0);
    Leaf("DatabaseName", t.name.v); Leaf("DatabaseNameChanged", IsoUtc(t.name.t));
    Leaf("DatabaseDescription", t.desc.v); Leaf("DatabaseDescriptionChanged", IsoUtc(t.desc.t));
    Leaf("DefaultUserName", t.user.v); Leaf("DefaultUserNameChanged", IsoUtc(t.user.t));
    Opt("MaintenanceHistoryDays", mc::Num(t.hist_days), "365"); Leaf("Color", t.color);
    Leaf("MasterKeyChanged", IsoUtc(t.key_changed)); Opt("MasterKeyChangeRec", mc::SNum(t.key_rec), "-1"); Opt("MasterKeyChangeForce", mc::SNum(t.key_force), "-1");
    Open("MemoryProtection");
    Leaf("ProtectTitle", Bool(t.p_title)); Leaf("ProtectUserName", Bool(t.p_user)); Leaf("ProtectPassword", Bool(t.p_password)); Leaf("ProtectURL", Bool(t.p_url)); Leaf("ProtectNotes", Bool(t.p_notes));
    Close("MemoryProtection");
    auto icons = [&] {
      if (o.omit_empty && m.icons.empty()) return;
      Open("CustomIcons");
      for (auto& i : m.icons) { Open("Icon"); Leaf("UUID", UuidStr(i.uuid)); Leaf("Data", B64(i.data)); Close("Icon"); }
      Close("CustomIcons");
    };
    if (o.order == 1) icons();
    Opt("RecycleBinEnabled", Bool(t.recycle_bin >= 0), Bool(true)); ref("RecycleBinUUID", t.recycle_bin); Leaf("RecycleBinChanged", IsoUtc(t.recycle_changed));
    ref("EntryTemplatesGroup", t.templates); Leaf("EntryTemplatesGroupChanged", IsoUtc(t.templates_changed));
    Opt("HistoryMaxItems", mc::SNum(t.hist_items), "-1"); Opt("HistoryMaxSize", mc::SNum(t.hist_size), "-1");
    ref("LastSelectedGroup", t.last_selected); ref("LastTopVisibleGroup", t.last_visible);
    if (o.order == 0) icons();
    if (!(o.omit_empty && m.pooled == 0)) {
      Open("Binaries");
      for (int i = 0; i < m.pooled; ++i) Bin("Binary", m.bins[i], {{"ID", Id(i)}}, m.bins[i].compress);
      Close("Binaries");
    }
    if (!(o.omit_empty && t.fields.empty())) {
      Open("CustomData");
      for (auto& f : t.fields) { Open("Item"); Leaf("Key", f.first); Leaf("Value", f.second); Close("Item"); }
      Close("CustomData");
    }
    Close("Meta");
  }
};

const str kCipherAes("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16);

}  // namespace

str KdbxXml(const MDb& m, const KdbxOpt& o, const str& hash) {
  XmlWriter w(m, o);
  if (o.prolog == 2) w.out += "\xef\xbb\xbf";
  if (o.prolog != 1) w.out += "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>";
  if (o.prolog == 3) w.out += "\n<!-- <KeePassFile/> --><?target data?>\n";
  w.Open("KeePassFile");
  w.Meta(hash);
  w.Open("Root");
  w.Group(m.root);
  w.Unknown(2);
  w.Close("Root");
  w.Close("KeePassFile");
  if (o.prolog == 3) w.out += "<!-- end -->\n";
  return w.out;
}

str KdbxHeader(const MDb& m, const KdbxOpt& o, const str& start) {
  str h = Le32(0x9aa2d903) + Le32(0xb54bfb67) + Le32(o.version);
  auto field = [&](int id, const str& v) { h += char(id); h += Le16(uint16_t(v.size())); h += v; };
  std::vector<int> order = o.header_order;
  if (order.empty()) order = {2, 3, 4, 5, 6, 7, 8, 9, 10};
  for (int id : order) switch (id) {
    case 2: field(2, kCipherAes); break;
    case 3: field(3, Le32(m.compress)); break;
    case 4: field(4, m.master_seed); break;
    case 5: field(5, str((const char*)m.tseed.data(), 32)); break;
    case 6: field(6, Le64(m.rounds)); break;
    case 7: field(7, str((const char*)m.iv.data(), 16)); break;
    case 8: field(8, str((const char*)m.isk.data(), 32)); break;
    case 9: field(9, start); break;
    case 10: field(10, Le32(2)); break;
  }
  field(0, o.eoh);
  return h;
}

str KdbxWrap(const MDb& m, const KeySpec& k, const KdbxOpt& o, const str& header, const str& start, const str& xml) {
  str payload = m.compress ? Gzip(xml, o.gz) : xml;
  str plain = start + HashedBlocks(payload, o.block_sizes);
  return header + AesCbcEncRaw(FinalKey(m, k, true), str((const char*)m.iv.data(), 16), Pad(plain));
}

str EncodeKdbx(const MDb& m, const KeySpec& k, const KdbxOpt& o) {
  str start = Sha256("start" + m.master_seed);
  str h = KdbxHeader(m, o, start);
  return KdbxWrap(m, k, o, h, start, KdbxXml(m, o, Sha256(h)));
}

// ---------------------------------------------------------------- decoder

str OpenKdbx(const str& f, const KeySpec& k, MDb* m, KdbxParts* parts) {
  if (f.size() < 12 || Le(f, 0, 4) != 0x9aa2d903 || Le(f, 4, 4) != 0xb54bfb67) return "bad signature";
  if (Le(f, 8, 4) >> 16 != 3) return "bad version";
  size_t p = 12;
  str start;
  std::set<int> seen;
  for (;;) {
    if (f.size() - p < 3) return "header cut";
    int id = (unsigned char)f[p]; size_t n = Le(f, p + 1, 2);
    p += 3;
    if (f.size() - p < n) return "header field cut";
    str v = f.substr(p, n);
    p += n;
    parts->fields.push_back({id, v});
    if (!seen.insert(id).second) return "duplicate header field";
    if (id == 0) break;
    switch (id) {
      case 2: if (v != kCipherAes) return "cipher"; break;
      case 3: if (n != 4 || Le(v, 0, 4) > 1) return "compression"; m->compress = Le(v, 0, 4); break;
      case 4: m->master_seed = v; break;
      case 5: if (n != 32) return "transform seed size"; memcpy(m->tseed.data(), v.data(), 32); break;
      case 6: if (n != 8) return "rounds size"; m->rounds = Le(v, 0, 8); break;
      case 7: if (n != 16) return "iv size"; memcpy(m->iv.data(), v.data(), 16); break;
      case 8: if (n != 32) return "stream key size"; memcpy(m->isk.data(), v.data(), 32); break;
      case 9: if (n != 32) return "start bytes size"; start = v; break;
      case 10: if (n != 4 || Le(v, 0, 4) != 2) return "inner stream"; break;
      default: return "unknown header field";
    }
  }
  for (int id = 2; id <= 10; ++id) if (!seen.count(id)) return "missing header field " + mc::Num(id);
  parts->header = f.substr(0, p);
  parts->start = start;
  str body = f.substr(p);
  if (body.empty() || body.size() % 16) return "encrypted part has a bad size";
  str plain;
  if (!Unpad(AesCbcDecRaw(FinalKey(*m, k, true), str((const char*)m->iv.data(), 16), body), &plain)) return "bad padding";
  if (plain.compare(0, 32, start) != 0) return "start bytes differ";
  parts->plain = plain;
  parts->blocks = plain.substr(32);
  str payload;
  if (!UnHashedBlocks(parts->blocks, &payload, &parts->sizes)) return "bad hashed blocks";
  if (m->compress) { if (!Gunzip(payload, &parts->xml)) return "bad gzip stream"; }
  else parts->xml = payload;
  return "";
}

namespace {

struct Reader {
  MDb& m; str err; str stream; size_t spos = 0;
  std::map<str, int> groups, icons, pool;
  str generator;
  bool foreign = false;
  explicit Reader(MDb& m_) : m(m_) {}
  void Fail(const str& e) { if (err.empty()) err = e; }
  str Deobf(const str& v) {
    if (spos + v.size() > stream.size()) stream = Salsa20(Sha256(str((const char*)m.isk.data(), 32)), str("\xe8\x30\x09\x4b\x97\x20\x5d\x2a", 8), (spos + v.size()) * 2 + 64);
    str r = v;
    for (auto& c : r) c ^= stream[spos++];
    return r;
  }
  void Check(const Node& n, const std::set<str>& known) {
    if (!WsOnly(n.text)) Fail("text in <" + n.name + ">");
    for (auto& k : n.kids) if (!known.count(k.name) && !foreign) Fail("unexpected <" + k.name + "> in <" + n.name + ">");
  }
  void Once(const Node& n, const std::set<str>& many) {
    std::set<str> seen;
    for (auto& k : n.kids) if (!many.count(k.name) && !seen.insert(k.name).second) Fail("<" + k.name + "> twice in <" + n.name + ">");
  }
  str Text(const Node& n, const str& c, const str& def = "") {
    auto k = n.child(c);
    if (!k) return def;
    if (!k->kids.empty()) Fail("elements in <" + c + ">");
    return k->text;
  }
  str B64(const str& t) { str o; if (!UnBase64(t, &o)) Fail("bad base64 " + mc::Quote(t)); return o; }
  mc::Uuid UuidOf(const str& t) { str o = B64(t); mc::Uuid u{}; if (o.size() != 16) Fail("bad uuid"); else memcpy(u.data(), o.data(), 16); return u; }
  int64_t Time(const Node& n, const str& c) {
    auto k = n.child(c);
    if (!k) { Fail("missing <" + c + ">"); return 0; }
    const str& t = k->text;
    if (t == "2999-12-28T22:59:59Z") return 0;
    if (t.size() != 20 || t[4] != '-' || t[7] != '-' || t[10] != 'T' || t[13] != ':' || t[16] != ':' || t[19] != 'Z') { Fail("bad time " + mc::Quote(t)); return 0; }
    for (int i : {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18}) if (!isdigit((unsigned char)t[i])) { Fail("bad time " + mc::Quote(t)); return 0; }
    Civil v{atoi(t.substr(0, 4).c_str()), atoi(t.substr(5, 2).c_str()), atoi(t.substr(8, 2).c_str()), atoi(t.substr(11, 2).c_str()), atoi(t.substr(14, 2).c_str()), atoi(t.substr(17, 2).c_str())};
    if (v.mo < 1 || v.mo > 12 || v.d < 1 || v.d > 31 || v.h > 23 || v.mi > 59 || v.s > 59) Fail("bad time " + mc::Quote(t));
    return FromCivil(v);
  }
  bool Bool(const Node& n, const str& c, bool def) {
    auto k = n.child(c);
    if (!k) return def;
    if (k->text == "True") return true;
    if (k->text == "False") return false;
    Fail("bad boolean " + mc::Quote(k->text));
    return def;
  }
  int64_t Int(const Node& n, const str& c, int64_t def) {
    auto k = n.child(c);
    if (!k) return def;
    char* e;
    errno = 0;
    long long v = strtoll(k->text.c_str(), &e, 10);
    if (k->text.empty() || *e || errno || mc::SNum(v) != k->text) Fail("bad number " + mc::Quote(k->text));
    return v;
  }
  uint32_t U32(const Node& n, const str& c, uint32_t def) { int64_t v = Int(n, c, def); if (v < 0 || v > 0xffffffffll) Fail("number out of range"); return uint32_t(v); }
  bool IsTrue(const Node& n, const str& a) { return n.attr(a) == "True"; }
  mc::MBin Bin(const Node& v) {
    mc::MBin b;
    if (IsTrue(v, "Protected")) { b.prot = true; b.data = Deobf(B64(v.text)); return b; }
    b.prot = IsTrue(v, "ProtectedInMemory");
    if (IsTrue(v, "Compressed")) { b.compress = true; if (!Gunzip(B64(v.text), &b.data)) Fail("bad gzip in binary"); }
    else b.data = B64(v.text);
    return b;
  }
  int IconRef(const Node& n) {
    auto k = n.child("CustomIconUUID");
    if (!k) return -1;
    auto it = icons.find(k->text);
    if (it == icons.end()) { Fail("dangling icon reference"); return -1; }
    return it->second;
  }
  void Number(const Node& g, int& n) { str u = g.childText("UUID"); if (!groups.count(u)) groups[u] = n; ++n; for (auto& k : g.kids) if (k.name == "Group") Number(k, n); }
  int GroupRef(const Node& n, const str& c) {
    auto k = n.child(c);
    if (!k || k->text.empty()) return -1;
    auto it = groups.find(k->text);
    if (it == groups.end() && k->text == Base64(kZeroUuid)) return -1;
    if (it == groups.end()) { Fail("dangling group reference"); return -2; }
    return it->second;
  }
  MEntry Entry(const Node& n, bool hist) {
    MEntry e;
    Check(n, {"UUID", "IconID", "CustomIconUUID", "ForegroundColor", "BackgroundColor", "OverrideURL", "Tags", "Times", "AutoType", "String", "Binary", "History"});
    Once(n, {"String", "Binary"});
    e.uuid = UuidOf(Text(n, "UUID")); e.icon = U32(n, "IconID", 0); e.custom_icon = IconRef(n);
    e.fg = Text(n, "ForegroundColor"); e.bg = Text(n, "BackgroundColor"); e.override_url = Text(n, "OverrideURL"); e.tags = Text(n, "Tags");
    if (auto t = n.child("Times")) {
      e.t_creation = Time(*t, "CreationTime"); e.t_mod = Time(*t, "LastModificationTime"); e.t_access = Time(*t, "LastAccessTime"); e.t_expiry = Time(*t, "ExpiryTime"); e.t_move = Time(*t, "LocationChanged");
      e.expires = Bool(*t, "Expires", false); e.usage = U32(*t, "UsageCount", 0);
    } else Fail("no times");
    // Everything obfuscated, in document order.
    for (auto& k : n.kids) {
      if (k.name == "String") {
        Check(k, {"Key", "Value"}); Once(k, {});
        str key = Text(k, "Key");
        mc::MStr v;
        if (auto x = k.child("Value")) { if (IsTrue(*x, "Protected")) { v.p = true; v.v = Deobf(B64(x->text)); } else { v.p = IsTrue(*x, "ProtectedInMemory"); v.v = x->text; } }
        if (key == "Title") e.title = v; else if (key == "URL") e.url = v; else if (key == "UserName") e.username = v; else if (key == "Password") e.password = v; else if (key == "Notes") e.notes = v;
        else { mc::MField f; f.key = key; f.value = v; e.fields.push_back(f); }
      } else if (k.name == "Binary") {
        Check(k, {"Key", "Value"}); Once(k, {});
        mc::MAtt a;
        a.name = Text(k, "Key");
        if (auto x = k.child("Value")) {
          bool has = false;
          for (auto& at : x->attrs) if (at.first == "Ref") has = true;
          if (has) { auto it = pool.find(x->attr("Ref")); if (it == pool.end()) Fail("dangling binary reference"); else a.bin = it->second; }
          else { m.bins.push_back(Bin(*x)); a.bin = int(m.bins.size()) - 1; }
        }
        e.atts.push_back(a);
      } else if (k.name == "History") {
        Check(k, {"Entry"});
        for (auto& h : k.kids) e.history.push_back(Entry(h, true));
      } else if (k.name == "AutoType") {
        Check(k, {"Enabled", "DataTransferObfuscation", "DefaultSequence", "Association"}); Once(k, {"Association"});
        e.at_enabled = Bool(k, "Enabled", false); e.at_obf = U32(k, "DataTransferObfuscation", 0); e.at_sequence = Text(k, "DefaultSequence");
        for (auto& a : k.kids) if (a.name == "Association") { Once(a, {}); e.assocs.push_back(mc::MAssoc{Text(a, "Window"), Text(a, "KeystrokeSequence")}); }
      }
    }
    return e;
  }
  std::vector<mc::Uuid> elsewhere;                          // last visible entries of other groups
  void Elsewhere() {
    std::vector<mc::MEntry*> es; mc::AllEntries(m.root, es);
    for (auto g : mc::Preorder(m.root)) if (g->last_visible >= mc::kElsewhere) {
      mc::Uuid u = elsewhere[g->last_visible - mc::kElsewhere];
      size_t i = 0; while (i < es.size() && es[i]->uuid != u) ++i;
      if (i == es.size()) Fail("dangling last visible entry"); else g->last_visible = mc::kElsewhere + int(i);
    }
  }
  MGroup Group(const Node& n, bool autotype = true, bool search = true) {
    MGroup g;
    Check(n, {"UUID", "Name", "Notes", "IconID", "CustomIconUUID", "Times", "IsExpanded", "DefaultAutoTypeSequence", "EnableAutoType", "EnableSearching", "LastTopVisibleEntry", "Entry", "Group"});
    Once(n, {"Entry", "Group"});
    g.uuid = UuidOf(Text(n, "UUID")); g.name = Text(n, "Name"); g.notes = Text(n, "Notes"); g.icon = U32(n, "IconID", 0); g.custom_icon = IconRef(n);
    if (auto t = n.child("Times")) {
      g.t_creation = Time(*t, "CreationTime"); g.t_mod = Time(*t, "LastModificationTime"); g.t_access = Time(*t, "LastAccessTime"); g.t_expiry = Time(*t, "ExpiryTime"); g.t_move = Time(*t, "LocationChanged");
      g.expires = Bool(*t, "Expires", false); g.usage = U32(*t, "UsageCount", 0);
    } else Fail("no times");
    g.expanded = Bool(n, "IsExpanded", false); g.sequence = Text(n, "DefaultAutoTypeSequence"); 
    g.autotype = Text(n, "EnableAutoType") == "null" ? autotype : Bool(n, "EnableAutoType", false);
    g.search = Text(n, "EnableSearching") == "null" ? search : Bool(n, "EnableSearching", false);
    bool in_groups = false;
    for (auto& k : n.kids) {
      if (k.name == "Group") { in_groups = true; g.groups.push_back(Group(k, g.autotype, g.search)); }
      if (k.name == "Entry") { if (in_groups) Fail("entry after group"); g.entries.push_back(Entry(k, false)); }
    }
    str lv = Text(n, "LastTopVisibleEntry");
    if (!lv.empty()) {
      for (size_t i = 0; i < g.entries.size() && g.last_visible < 0; ++i) if (UuidStr(g.entries[i].uuid) == lv) g.last_visible = int(i);
      if (g.last_visible < 0 && lv != Base64(kZeroUuid)) { g.last_visible = mc::kElsewhere + int(elsewhere.size()); elsewhere.push_back(UuidOf(lv)); }
    }
    return g;
  }
  void Document(const Node& doc, const str& header_hash) {
    if (doc.name != "KeePassFile") return Fail("root element");
    Check(doc, {"Meta", "Root"}); Once(doc, {});
    auto meta = doc.child("Meta"); auto root = doc.child("Root");
    if (!meta || !root) return Fail("no Meta or Root");
    if (&doc.kids[0] != meta) return Fail("Root before Meta");
    Check(*root, {"Group"}); Once(*root, {});
    auto g = root->child("Group");
    if (!g) return Fail("no root group");
    int n = 0;
    Number(*g, n);
    const Node& t = *meta;
    Check(t, {"HeaderHash", "Generator", "DatabaseName", "DatabaseNameChanged", "DatabaseDescription", "DatabaseDescriptionChanged", "DefaultUserName", "DefaultUserNameChanged", "MaintenanceHistoryDays", "Color", "MasterKeyChanged", "MasterKeyChangeRec", "MasterKeyChangeForce", "MemoryProtection", "RecycleBinEnabled", "RecycleBinUUID", "RecycleBinChanged", "EntryTemplatesGroup", "EntryTemplatesGroupChanged", "HistoryMaxItems", "HistoryMaxSize", "LastSelectedGroup", "LastTopVisibleGroup", "CustomIcons", "Binaries", "CustomData"});
    Once(t, {});
    if (B64(Text(t, "HeaderHash")) != header_hash) Fail("header hash differs");
    m.has_meta = true;
    mc::MMeta& r = m.meta;
    r.generator = Text(t, "Generator");
    r.name.v = Text(t, "DatabaseName"); r.name.t = Time(t, "DatabaseNameChanged");
    r.desc.v = Text(t, "DatabaseDescription"); r.desc.t = Time(t, "DatabaseDescriptionChanged");
    r.user.v = Text(t, "DefaultUserName"); r.user.t = Time(t, "DefaultUserNameChanged");
    r.hist_days = U32(t, "MaintenanceHistoryDays", 365); r.color = Text(t, "Color");
    r.key_changed = Time(t, "MasterKeyChanged"); r.key_rec = Int(t, "MasterKeyChangeRec", -1); r.key_force = Int(t, "MasterKeyChangeForce", -1);
    if (auto p = t.child("MemoryProtection")) {
      r.p_title = Bool(*p, "ProtectTitle", false); r.p_user = Bool(*p, "ProtectUserName", false); r.p_password = Bool(*p, "ProtectPassword", true); r.p_url = Bool(*p, "ProtectURL", false); r.p_notes = Bool(*p, "ProtectNotes", false);
    } else Fail("no memory protection");
    if (Bool(t, "RecycleBinEnabled", true)) r.recycle_bin = GroupRef(t, "RecycleBinUUID");
    r.recycle_changed = Time(t, "RecycleBinChanged");
    r.templates = GroupRef(t, "EntryTemplatesGroup"); r.templates_changed = Time(t, "EntryTemplatesGroupChanged");
    r.hist_items = int32_t(Int(t, "HistoryMaxItems", -1)); r.hist_size = Int(t, "HistoryMaxSize", -1);
    r.last_selected = GroupRef(t, "LastSelectedGroup"); r.last_visible = GroupRef(t, "LastTopVisibleGroup");
    if (auto c = t.child("CustomIcons")) for (auto& k : c->kids) {
      if (k.name != "Icon") { Fail("not an icon"); continue; }
      mc::MIcon i; i.uuid = UuidOf(Text(k, "UUID")); i.data = B64(Text(k, "Data"));
      if (!icons.count(Text(k, "UUID"))) icons[Text(k, "UUID")] = int(m.icons.size());
      m.icons.push_back(i);
    }
    if (auto c = t.child("Binaries")) for (auto& k : c->kids) {
      if (k.name != "Binary") { Fail("not a binary"); continue; }
      if (pool.count(k.attr("ID"))) Fail("duplicate binary id");
      pool[k.attr("ID")] = int(m.bins.size());
      m.bins.push_back(Bin(k));
    }
    m.pooled = int(m.bins.size());
    if (auto c = t.child("CustomData")) for (auto& k : c->kids) { if (k.name != "Item") Fail("not an item"); r.fields.push_back({Text(k, "Key"), Text(k, "Value")}); }
    m.root = Group(*g);
    Elsewhere();
  }
};

}  // namespace

str DecodeKdbx(const str& f, const KeySpec& k, MDb* m, KdbxParts* parts, bool foreign) {
  KdbxParts local;
  if (!parts) parts = &local;
  str e = OpenKdbx(f, k, m, parts);
  if (!e.empty()) return e;
  Node doc;
  if (!ParseXml(parts->xml, &doc, &e)) return "XML: " + e;
  Reader r(*m);
  r.foreign = foreign;
  r.Document(doc, Sha256(parts->header));
  return r.err;
}

}  // namespace ref

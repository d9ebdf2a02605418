#include <string.h>

#include "ref.hh"

namespace ref {

namespace {
str Z(const str& s) { return s + str(1, 0); }
void Arrange(KdbRecord& r, int order) {
  if (order == 0 || r.fields.empty()) return;
  if (order < 0) { std::vector<std::pair<uint16_t, str>> x(r.fields.rbegin(), r.fields.rend()); r.fields = x; return; }
  size_t n = r.fields.size(), k = size_t(order) % n;
  std::vector<std::pair<uint16_t, str>> x;
  for (size_t i = 0; i < n; ++i) x.push_back(r.fields[(i + k) % n]);
  r.fields = x;
}
}  // namespace

void KdbRecords(const MDb& m, const KdbOpt& o, std::vector<KdbRecord>* groups, std::vector<KdbRecord>* entries) {
  Zone z = Cet();
  std::vector<std::pair<const MGroup*, int>> gs;
  std::function<void(const MGroup&, int)> walk = [&](const MGroup& g, int level) { for (auto& s : g.groups) { gs.push_back({&s, level}); walk(s, level + 1); } };
  walk(m.root, 0);
  auto id = [&](size_t i) -> uint32_t {
    if (o.special >= 0) return int(i) == o.special ? o.special_id : uint32_t(i + 0x12345678u) == o.special_id ? 0x87654321u : uint32_t(i + 0x12345678u);
    switch (o.ids) {
      case 1: return uint32_t(i + 1);
      case 2: return uint32_t(gs.size() - i);
      case 3: return uint32_t(i * 0x9e3779b1u + 0x80000001u);
      case 4: return uint32_t(0xfffffff0u + i);
      default: return uint32_t(i);
    }
  };
  for (size_t i = 0; i < gs.size(); ++i) {
    const MGroup& g = *gs[i].first;
    KdbRecord r;
    auto add = [&](uint16_t t, const str& v, bool opt = false) { if (o.omit_empty && opt) return; r.fields.push_back({t, v}); };
    add(1, Le32(id(i))); add(2, Z(g.name), g.name.empty());
    add(3, PackTime(z, g.t_creation), g.t_creation == 0); add(4, PackTime(z, g.t_mod), g.t_mod == 0); add(5, PackTime(z, g.t_access), g.t_access == 0); add(6, PackTime(z, g.t_expiry), g.t_expiry == 0);
    add(7, Le32(g.icon), g.icon == 0); add(8, Le16(uint16_t(gs[i].second)), gs[i].second == 0); add(9, o.short_flags && g.flags < 65536 ? Le16(uint16_t(g.flags)) : Le32(g.flags), g.flags == 0);
    Arrange(r, o.field_order);
    if (o.comments) { r.fields.insert(r.fields.begin(), {0, "ignored " + str(i % 7, 'x')}); r.fields.push_back({0, ""}); r.fields.insert(r.fields.begin() + r.fields.size() / 2, {0, str("\x01\x00\x04\x00\x00\x00\xff\xff", 8)}); }
    r.fields.push_back({0xffff, o.end_payload ? "end" : ""});
    groups->push_back(r);
  }
  std::vector<std::vector<KdbRecord>> per;
  for (size_t i = 0; i < gs.size(); ++i) {
    per.emplace_back();
    for (auto& e : gs[i].first->entries) {
      KdbRecord r;
      auto add = [&](uint16_t t, const str& v, bool opt = false) { if (o.omit_empty && opt) return; r.fields.push_back({t, v}); };
      add(1, str((const char*)e.uuid.data(), 16)); add(2, Le32(id(i))); add(3, Le32(e.icon), e.icon == 0);
      add(4, Z(e.title.v), e.title.v.empty()); add(5, Z(e.url.v), e.url.v.empty()); add(6, Z(e.username.v), e.username.v.empty()); add(7, Z(e.password.v), e.password.v.empty()); add(8, Z(e.notes.v), e.notes.v.empty());
      add(9, PackTime(z, e.t_creation), e.t_creation == 0); add(10, PackTime(z, e.t_mod), e.t_mod == 0); add(11, PackTime(z, e.t_access), e.t_access == 0); add(12, PackTime(z, e.t_expiry), e.t_expiry == 0);
      str name, data;
      if (!e.atts.empty()) { name = e.atts[0].name; if (e.atts[0].bin >= 0) data = m.bins[e.atts[0].bin].data; }
      if (!name.empty() || o.nul_names) add(13, Z(name), name.empty());
      if (!data.empty() || o.nul_names) add(14, data, data.empty());
      Arrange(r, o.field_order);
      if (o.comments) { r.fields.insert(r.fields.begin(), {0, ""}); r.fields.insert(r.fields.begin() + r.fields.size() / 2, {0, str("\xff\xff\x00\x00\x00\x00", 6)}); }
      r.fields.push_back({0xffff, o.end_payload ? "end" : ""});
      per.back().push_back(r);
    }
  }
  if (o.entry_order == 1) {
    for (size_t k = 0, left = 1; left; ++k) { left = 0; for (auto& p : per) if (k < p.size()) { entries->push_back(p[k]); left = 1; } }
  } else if (o.entry_order == 2) {
    for (auto p = per.rbegin(); p != per.rend(); ++p) for (auto& r : *p) entries->push_back(r);
  } else {
    for (auto& p : per) for (auto& r : p) entries->push_back(r);
  }
}

str KdbContent(const std::vector<KdbRecord>& groups, const std::vector<KdbRecord>& entries) {
  str o;
  for (auto list : {&groups, &entries}) for (auto& r : *list) for (auto& f : r.fields) o += Le16(f.first) + Le32(uint32_t(f.second.size())) + f.second;
  return o;
}

str KdbWrap(const MDb& m, const KeySpec& k, const KdbOpt& o, const str& content, uint32_t ng, uint32_t ne) {
  str h = Le32(0x9aa2d903) + Le32(0xb54bfb65) + Le32((m.twofish ? 8 : 2) | o.extra_flags) + Le32(0x00030000 | o.version_low);
  str iv((const char*)m.iv.data(), 16);
  h += m.master_seed + iv + Le32(ng) + Le32(ne) + Sha256(content) + str((const char*)m.tseed.data(), 32) + Le32(uint32_t(m.rounds));
  str key = FinalKey(m, k, false), padded = Pad(content);
  return h + (m.twofish ? CbcEncRaw(*Twofish(key), iv, padded) : AesCbcEncRaw(key, iv, padded));
}

str EncodeKdb(const MDb& m, const KeySpec& k, const KdbOpt& o) {
  std::vector<KdbRecord> g, e;
  KdbRecords(m, o, &g, &e);
  return KdbWrap(m, k, o, KdbContent(g, e), uint32_t(g.size()), uint32_t(e.size()));
}

namespace {
int64_t UnpackTime(const Zone& z, const str& s, str* err) {
  if (s == str("\x2e\xdf\x39\x7e\xfb", 5)) return 0;
  uint64_t v = 0;
  for (unsigned char c : s) v = v << 8 | c;
  Civil c{int64_t(v >> 26), int(v >> 22 & 15), int(v >> 17 & 31), int(v >> 12 & 31), int(v >> 6 & 63), int(v & 63)};
  if (c.mo < 1 || c.mo > 12 || c.d < 1 || c.h > 23 || c.mi > 59 || c.s > 59) { *err = "bad packed time"; return 0; }
  int64_t l = FromCivil(c);
  for (int64_t off : {z.std_off, z.dst_off}) if (Offset(z, l - off) == off) return l - off;
  *err = "packed time in a gap";
  return 0;
}
}  // namespace

str DecodeKdb(const str& f, const KeySpec& k, MDb* m, KdbParts* parts, bool foreign) {
  KdbParts local;
  if (!parts) parts = &local;
  if (f.size() < 124) return "header cut";
  if (Le(f, 0, 4) != 0x9aa2d903 || Le(f, 4, 4) != 0xb54bfb65) return "bad signature";
  uint64_t flags = Le(f, 8, 4);
  if (!(flags & 10)) return "no cipher";
  m->twofish = !(flags & 2);
  if ((flags & 2) && (flags & 8)) return "two ciphers";
  if (Le(f, 12, 4) >> 8 != 0x000300) return "bad version";
  m->master_seed = f.substr(16, 16);
  memcpy(m->iv.data(), f.data() + 32, 16);
  uint64_t ng = Le(f, 48, 4), ne = Le(f, 52, 4);
  str hash = f.substr(56, 32);
  memcpy(m->tseed.data(), f.data() + 88, 32);
  m->rounds = Le(f, 120, 4);
  parts->header = f.substr(0, 124);
  str key = FinalKey(*m, k, false), iv = f.substr(32, 16), body = f.substr(124), plain;
  if (body.empty() || body.size() % 16) return "encrypted part has a bad size";
  plain = m->twofish ? CbcDecRaw(*Twofish(key), iv, body) : AesCbcDecRaw(key, iv, body);
  if (!Unpad(plain, &parts->content)) return "bad padding";
  const str& c = parts->content;
  if (Sha256(c) != hash) return "content hash differs";
  size_t p = 0;
  auto record = [&](KdbRecord* r) -> bool {
    for (;;) {
      if (c.size() - p < 6) return false;
      uint16_t t = uint16_t(Le(c, p, 2)); uint64_t n = Le(c, p + 2, 4);
      p += 6;
      if (c.size() - p < n) return false;
      r->fields.push_back({t, c.substr(p, n)});
      p += n;
      if (t == 0xffff) return true;
    }
  };
  for (uint64_t i = 0; i < ng; ++i) { KdbRecord r; if (!record(&r)) return "group record cut"; parts->groups.push_back(r); }
  for (uint64_t i = 0; i < ne; ++i) { KdbRecord r; if (!record(&r)) return "entry record cut"; parts->entries.push_back(r); }
  if (p != c.size()) return "data after the last record";
  m->has_meta = false;
  m->root = MGroup();
  Zone z = Cet();
  str err;
  auto sized = [&](const str& v, size_t n) { if (v.size() != n && err.empty()) err = "field of a wrong size"; return v.size() == n; };
  auto zstr = [&](const str& v) { if ((v.empty() || v.back() != 0 || v.find('\0') != v.size() - 1) && err.empty()) err = "string field not terminated by one NUL"; return v.substr(0, v.find('\0')); };
  std::vector<MGroup*> stack; (void)stack;
  std::map<uint32_t, std::vector<int>> paths;
  std::vector<int> path;
  auto at = [&](const std::vector<int>& pa) { MGroup* g = &m->root; for (int i : pa) g = &g->groups[i]; return g; };
  for (auto& r : parts->groups) {
    MGroup g; uint32_t id = 0; uint16_t level = 0; bool has_id = false, has_level = false;
    for (auto& x : r.fields) switch (x.first) {
      case 1: if (sized(x.second, 4)) { id = uint32_t(Le(x.second, 0, 4)); has_id = true; } break;
      case 2: g.name = zstr(x.second); break;
      case 3: if (sized(x.second, 5)) g.t_creation = UnpackTime(z, x.second, &err); break;
      case 4: if (sized(x.second, 5)) g.t_mod = UnpackTime(z, x.second, &err); break;
      case 5: if (sized(x.second, 5)) g.t_access = UnpackTime(z, x.second, &err); break;
      case 6: if (sized(x.second, 5)) g.t_expiry = UnpackTime(z, x.second, &err); break;
      case 7: if (sized(x.second, 4)) g.icon = uint32_t(Le(x.second, 0, 4)); break;
      case 8: if (sized(x.second, 2)) { level = uint16_t(Le(x.second, 0, 2)); has_level = true; } break;
      case 9: if (sized(x.second, 4)) g.flags = uint32_t(Le(x.second, 0, 4)); break;
      case 0xffff: if (!x.second.empty()) err = "end field with data"; break;
      case 0: if (foreign) break;
      default: return "unknown group field";
    }
    if (!err.empty()) return err;
    if (id == 0 || id == 0xffffffffu) return "illegal group identifier";
    if (!has_id || !has_level) return "group without identifier or level";
    if (level > path.size()) return "group level jumps";
    path.resize(level);
    MGroup* parent = at(path);
    parent->groups.push_back(g);
    path.push_back(int(parent->groups.size()) - 1);
    if (paths.count(id)) return "duplicate group identifier";
    paths[id] = path;
  }
  for (auto& r : parts->entries) {
    MEntry e; uint32_t gid = 0; bool has_gid = false; str name, data;
    for (auto& x : r.fields) switch (x.first) {
      case 1: if (sized(x.second, 16)) memcpy(e.uuid.data(), x.second.data(), 16); break;
      case 2: if (sized(x.second, 4)) { gid = uint32_t(Le(x.second, 0, 4)); has_gid = true; } break;
      case 3: if (sized(x.second, 4)) e.icon = uint32_t(Le(x.second, 0, 4)); break;
      case 4: e.title.v = zstr(x.second); break;
      case 5: e.url.v = zstr(x.second); break;
      case 6: e.username.v = zstr(x.second); break;
      case 7: e.password.v = zstr(x.second); break;
      case 8: e.notes.v = zstr(x.second); break;
      case 9: if (sized(x.second, 5)) e.t_creation = UnpackTime(z, x.second, &err); break;
      case 10: if (sized(x.second, 5)) e.t_mod = UnpackTime(z, x.second, &err); break;
      case 11: if (sized(x.second, 5)) e.t_access = UnpackTime(z, x.second, &err); break;
      case 12: if (sized(x.second, 5)) e.t_expiry = UnpackTime(z, x.second, &err); break;
      case 13: name = zstr(x.second); break;
      case 14: data = x.second; break;
      case 0xffff: if (!x.second.empty()) err = "end field with data"; break;
      case 0: if (foreign) break;
      default: return "unknown entry field";
    }
    if (!err.empty()) return err;
    if (!has_gid || !paths.count(gid)) return "orphaned entry";
    if (!name.empty() || !data.empty()) {
      mc::MAtt a; a.name = name;
      if (!data.empty()) { mc::MBin b; b.data = data; m->bins.push_back(b); a.bin = int(m->bins.size()) - 1; }
      e.atts.push_back(a);
    }
    at(paths[gid])->entries.push_back(e);
  }
  return "";
}

}  // namespace ref

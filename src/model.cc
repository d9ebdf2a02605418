#include "model.hh"

#include <set>

#include <string.h>

#include <typeinfo>
#include <cxxabi.h>

#include "exception.hh"
#include "kdb.hh"
#include "kdbx.hh"

using namespace keepass;

namespace mc {

namespace {

protect<str> P(const MStr& s) { return protect<str>(s.v, s.p); }
MStr M(const protect<str>& s) { return MStr(s.value(), s.is_protected()); }

void FillEntry(const MDb& m, Built& b, const MEntry& e, Entry& r) {
  r.set_uuid(e.uuid);
  r.set_icon(e.icon);
  if (e.custom_icon >= 0) r.set_custom_icon(b.icons[e.custom_icon]);
  r.set_title(P(e.title)); r.set_url(P(e.url)); r.set_username(P(e.username));
  r.set_password(P(e.password)); r.set_notes(P(e.notes));
  r.set_override_url(e.override_url); r.set_tags(e.tags);
  r.set_bg_color(e.bg); r.set_fg_color(e.fg);
  r.set_creation_time(e.t_creation); r.set_modification_time(e.t_mod); r.set_access_time(e.t_access);
  r.set_expiry_time(e.t_expiry); r.set_move_time(e.t_move);
  r.set_expires(e.expires); r.set_usage_count(e.usage);
  r.auto_type().set_enabled(e.at_enabled);
  r.auto_type().set_obfuscation(e.at_obf);
  r.auto_type().set_sequence(e.at_sequence);
  for (auto& a : e.assocs) r.auto_type().AddAssociation(a.window, a.sequence);
  for (auto& a : e.atts) {
    auto att = std::make_shared<Entry::Attachment>();
    att->set_name(a.name);
    if (a.bin >= 0) att->set_binary(b.bins[a.bin]);
    r.AddAttachment(att);
  }
  for (auto& h : e.history) {
    auto he = std::make_shared<Entry>();
    FillEntry(m, b, h, *he);
    r.AddHistoryEntry(he);
  }
  for (auto& f : e.fields) {
    str key = f.key;
    r.AddCustomField(key, P(f.value));
  }
}

std::shared_ptr<Group> BuildGroup(const MDb& m, Built& b, const MGroup& g) {
  auto r = std::make_shared<Group>();
  b.groups.push_back(r);
  r->set_uuid(g.uuid);
  r->set_icon(g.icon);
  if (g.custom_icon >= 0) r->set_custom_icon(b.icons[g.custom_icon]);
  r->set_name(g.name); r->set_notes(g.notes);
  r->set_creation_time(g.t_creation); r->set_modification_time(g.t_mod); r->set_access_time(g.t_access);
  r->set_expiry_time(g.t_expiry); r->set_move_time(g.t_move);
  r->set_flags(g.flags); r->set_expires(g.expires); r->set_expanded(g.expanded);
  r->set_usage_count(g.usage); r->set_default_autotype_sequence(g.sequence);
  r->set_autotype(g.autotype); r->set_search(g.search);
  for (auto& e : g.entries) {
    auto re = std::make_shared<Entry>();
    FillEntry(m, b, e, *re);
    r->AddEntry(re);
  }
  if (g.last_visible >= 0 && g.last_visible < kElsewhere) r->set_last_visible_entry(r->Entries()[g.last_visible]);
  for (auto& s : g.groups) r->AddGroup(BuildGroup(m, b, s));
  return r;
}

std::array<uint8_t, 16> ArrayOf(const Uuid& u) { return u; }

struct Extractor {
  MDb m;
  std::map<const void*, int> bins, icons, groups;

  int BinIndex(const std::shared_ptr<Binary>& b) {
    if (!b) return -1;
    auto it = bins.find(b.get());
    if (it != bins.end()) return it->second;
    MBin x;
    x.data = b->data().value(); x.prot = b->data().is_protected(); x.compress = b->compress();
    m.bins.push_back(x);
    int i = int(m.bins.size()) - 1;
    bins[b.get()] = i;
    return i;
  }
  int IconIndex(const std::weak_ptr<Icon>& w) {
    auto p = w.lock();
    if (!p) return -1;
    auto it = icons.find(p.get());
    return it == icons.end() ? -2 : it->second;
  }
  int GroupIndex(const std::shared_ptr<Group>& p) {
    if (!p) return -1;
    auto it = groups.find(p.get());
    return it == groups.end() ? -2 : it->second;
  }
  MEntry DoEntry(Entry& e) {
    MEntry r;
    r.uuid = e.uuid(); r.icon = e.icon(); r.custom_icon = IconIndex(e.custom_icon());
    r.title = M(e.title()); r.url = M(e.url()); r.username = M(e.username());
    r.password = M(e.password()); r.notes = M(e.notes());
    r.override_url = e.override_url(); r.tags = e.tags(); r.bg = e.bg_color(); r.fg = e.fg_color();
    r.t_creation = e.creation_time(); r.t_mod = e.modification_time(); r.t_access = e.access_time();
    r.t_expiry = e.expiry_time(); r.t_move = e.move_time();
    r.expires = e.expires(); r.usage = e.usage_count();
    r.at_enabled = e.auto_type().enabled(); r.at_obf = e.auto_type().obfuscation();
    r.at_sequence = e.auto_type().sequence();
    for (auto& a : e.auto_type().associations()) r.assocs.push_back(MAssoc{a.window(), a.sequence()});
    for (auto& a : e.attachments()) {
      MAtt x;
      if (a) { x.name = a->name(); x.bin = BinIndex(a->binary()); } else { x.bin = -3; }
      r.atts.push_back(x);
    }
    for (auto& h : e.history()) { if (h) r.history.push_back(DoEntry(*h)); else r.history.push_back(MEntry()); }
    for (auto& f : e.custom_fields()) r.fields.push_back(MField{f.key(), M(f.value())});
    return r;
  }
  std::map<const Entry*, int> entry_index;
  void IndexEntries(Group& g) { for (auto& e : g.Entries()) entry_index.insert(std::make_pair(e.get(), int(entry_index.size()))); for (auto& s : g.Groups()) IndexEntries(*s); }
  MGroup DoGroup(Group& g) {
    MGroup r;
    r.uuid = g.uuid(); r.icon = g.icon(); r.custom_icon = IconIndex(g.custom_icon());
    r.name = g.name(); r.notes = g.notes();
    r.t_creation = g.creation_time(); r.t_mod = g.modification_time(); r.t_access = g.access_time();
    r.t_expiry = g.expiry_time(); r.t_move = g.move_time();
    r.flags = g.flags(); r.expires = g.expires(); r.expanded = g.expanded(); r.usage = g.usage_count();
    r.sequence = g.default_autotype_sequence(); r.autotype = g.autotype(); r.search = g.search();
    auto lv = g.last_visible_entry().lock();
    if (lv) {
      r.last_visible = -2;
      for (size_t i = 0; i < g.Entries().size(); ++i) if (g.Entries()[i] == lv) r.last_visible = int(i);
      if (r.last_visible == -2) { auto it = entry_index.find(lv.get()); if (it != entry_index.end()) r.last_visible = kElsewhere + it->second; }
    }
    for (auto& e : g.Entries()) r.entries.push_back(DoEntry(*e));
    for (auto& s : g.Groups()) r.groups.push_back(DoGroup(*s));
    return r;
  }
  void Number(const std::shared_ptr<Group>& g) {
    int n = int(groups.size());
    groups[g.get()] = n;
    for (auto& s : g->Groups()) Number(s);
  }
};

template <typename A> str Bytes(const A& a) { return str(reinterpret_cast<const char*>(a.data()), a.size()); }

struct Flattener {
  Flat f;
  void A(const str& k, const str& v) { f.push_back(std::make_pair(k, v)); }
  void A(const str& k, const char* v) { A(k, str(v)); }
  void A(const str& k, int64_t v) { A(k, SNum(v)); }
  void A(const str& k, const MStr& v) { f.push_back(std::make_pair(k, (v.p ? "P:" : "U:") + v.v)); }

  void DoEntry(const MDb& m, const str& p, const MEntry& e) {
    A(p + "uuid", Hex(Bytes(e.uuid)));
    A(p + "icon", e.icon); A(p + "custom_icon", e.custom_icon);
    A(p + "title", e.title); A(p + "url", e.url); A(p + "username", e.username);
    A(p + "password", e.password); A(p + "notes", e.notes);
    A(p + "override_url", e.override_url); A(p + "tags", e.tags); A(p + "bg", e.bg); A(p + "fg", e.fg);
    A(p + "creation", e.t_creation); A(p + "modification", e.t_mod); A(p + "access", e.t_access);
    A(p + "expiry", e.t_expiry); A(p + "move", e.t_move);
    A(p + "expires", e.expires); A(p + "usage", e.usage);
    A(p + "at_enabled", e.at_enabled); A(p + "at_obf", e.at_obf); A(p + "at_seq", e.at_sequence);
    A(p + "assocs", int64_t(e.assocs.size()));
    for (size_t i = 0; i < e.assocs.size(); ++i) { A(p + "assoc" + Num(i) + ".w", e.assocs[i].window); A(p + "assoc" + Num(i) + ".s", e.assocs[i].sequence); }
    A(p + "attachments", int64_t(e.atts.size()));
    for (size_t i = 0; i < e.atts.size(); ++i) {
      str q = p + "att" + Num(i);
      A(q + ".name", e.atts[i].name); A(q + ".object", e.atts[i].bin);
      if (e.atts[i].bin >= m.pooled) {
        const MBin& b = m.bins[e.atts[i].bin];
        A(q + ".data", b.data); A(q + ".prot", b.prot); A(q + ".compress", b.compress);
      }
    }
    A(p + "fields", int64_t(e.fields.size()));
    for (size_t i = 0; i < e.fields.size(); ++i) { A(p + "field" + Num(i) + ".key", e.fields[i].key); A(p + "field" + Num(i), e.fields[i].value); }
    A(p + "history", int64_t(e.history.size()));
    for (size_t i = 0; i < e.history.size(); ++i) DoEntry(m, p + "history" + Num(i) + ".", e.history[i]);
  }
  void DoGroup(const MDb& m, const str& p, const MGroup& g) {
    A(p + "uuid", Hex(Bytes(g.uuid))); A(p + "icon", g.icon); A(p + "custom_icon", g.custom_icon);
    A(p + "name", g.name); A(p + "notes", g.notes);
    A(p + "creation", g.t_creation); A(p + "modification", g.t_mod); A(p + "access", g.t_access);
    A(p + "expiry", g.t_expiry); A(p + "move", g.t_move);
    A(p + "flags", g.flags); A(p + "expires", g.expires); A(p + "expanded", g.expanded); A(p + "usage", g.usage);
    A(p + "seq", g.sequence); A(p + "autotype", g.autotype); A(p + "search", g.search); A(p + "last_visible", g.last_visible);
    A(p + "entries", int64_t(g.entries.size()));
    for (size_t i = 0; i < g.entries.size(); ++i) DoEntry(m, p + "e" + Num(i) + ".", g.entries[i]);
    A(p + "groups", int64_t(g.groups.size()));
    for (size_t i = 0; i < g.groups.size(); ++i) DoGroup(m, p + "g" + Num(i) + ".", g.groups[i]);
  }
};

}  // namespace

Built Build(const MDb& m) {
  Built b;
  b.db = std::make_shared<Database>();
  for (auto& x : m.bins) {
    auto bin = std::make_shared<Binary>(protect<str>(x.data, x.prot));
    bin->set_compress(x.compress);
    b.bins.push_back(bin);
  }
  for (auto& x : m.icons)
    b.icons.push_back(std::make_shared<Icon>(x.uuid, std::vector<uint8_t>(x.data.begin(), x.data.end())));
  Database& db = *b.db;
  db.set_cipher(m.twofish ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  db.set_master_seed(std::vector<uint8_t>(m.master_seed.begin(), m.master_seed.end()));
  db.set_init_vector(m.iv); db.set_transform_seed(m.tseed); db.set_inner_random_stream_key(m.isk);
  db.set_transform_rounds(m.rounds); db.set_compress(m.compress);
  db.set_root(BuildGroup(m, b, m.root));
  {
    MDb copy = m;
    std::vector<std::shared_ptr<Entry>> es; for (auto& g : b.groups) for (auto& e : g->Entries()) es.push_back(e);
    auto gs = Preorder(copy.root);
    for (size_t i = 0; i < gs.size(); ++i) if (gs[i]->last_visible >= kElsewhere) b.groups[i]->set_last_visible_entry(es.at(gs[i]->last_visible - kElsewhere));
  }
  if (m.has_meta) {
    auto meta = std::make_shared<Metadata>();
    const MMeta& x = m.meta;
    meta->set_generator(x.generator);
    meta->set_database_name(temporal<str>(x.name.v, x.name.t));
    meta->set_database_desc(temporal<str>(x.desc.v, x.desc.t));
    meta->set_default_username(temporal<str>(x.user.v, x.user.t));
    meta->set_maintenance_hist_days(x.hist_days); meta->set_database_color(x.color);
    meta->set_master_key_changed(x.key_changed); meta->set_master_key_change_rec(x.key_rec); meta->set_master_key_change_force(x.key_force);
    meta->memory_protection().set_title(x.p_title); meta->memory_protection().set_username(x.p_user);
    meta->memory_protection().set_password(x.p_password); meta->memory_protection().set_url(x.p_url); meta->memory_protection().set_notes(x.p_notes);
    if (x.recycle_bin >= 0) meta->set_recycle_bin(b.groups[x.recycle_bin]);
    meta->set_recycle_bin_changed(x.recycle_changed);
    if (x.templates >= 0) meta->set_entry_templates(b.groups[x.templates]);
    meta->set_entry_templates_changed(x.templates_changed);
    meta->set_history_max_items(x.hist_items); meta->set_history_max_size(x.hist_size);
    if (x.last_selected >= 0) meta->set_last_selected_group(b.groups[x.last_selected]);
    if (x.last_visible >= 0) meta->set_last_visible_group(b.groups[x.last_visible]);
    for (int i = 0; i < m.pooled; ++i) meta->AddBinary(b.bins[i]);
    for (auto& i : b.icons) meta->AddIcon(i);
    for (auto& f : x.fields) meta->AddField(f.first, f.second);
    db.set_meta(meta);
  }
  return b;
}

MDb Extract(const Database& db) {
  Extractor x;
  MDb& m = x.m;
  m.twofish = db.cipher() == Database::Cipher::kTwofish;
  m.master_seed.assign(db.master_seed().begin(), db.master_seed().end());
  m.iv = db.init_vector(); m.tseed = db.transform_seed(); m.isk = db.inner_random_stream_key();
  m.rounds = db.transform_rounds(); m.compress = db.compress();
  auto meta = db.meta();
  m.has_meta = !!meta;
  if (meta) {
    for (auto& b : meta->binaries()) {
      if (!b) continue;
      if (x.bins.count(b.get())) { MBin dup; dup.data = "<duplicate object>"; m.bins.push_back(dup); continue; }
      x.BinIndex(b);
    }
    m.pooled = int(m.bins.size());
    for (auto& i : meta->icons()) {
      int n = int(m.icons.size());
      x.icons[i.get()] = n;
      MIcon ic; ic.uuid = i->uuid(); ic.data.assign(i->data().begin(), i->data().end());
      m.icons.push_back(ic);
    }
  }
  if (db.root()) x.Number(db.root());
  if (meta) {
    MMeta& r = m.meta;
    r.generator = meta->generator();
    r.name.v = meta->database_name().value(); r.name.t = meta->database_name().time();
    r.desc.v = meta->database_desc().value(); r.desc.t = meta->database_desc().time();
    r.user.v = meta->default_username().value(); r.user.t = meta->default_username().time();
    r.hist_days = meta->maintenance_hist_days(); r.color = meta->database_color();
    r.key_changed = meta->master_key_changed(); r.key_rec = meta->master_key_change_rec(); r.key_force = meta->master_key_change_force();
    auto& mp = meta->memory_protection();
    r.p_title = mp.title(); r.p_user = mp.username(); r.p_password = mp.password(); r.p_url = mp.url(); r.p_notes = mp.notes();
    r.recycle_bin = x.GroupIndex(meta->recycle_bin()); r.recycle_changed = meta->recycle_bin_changed();
    r.templates = x.GroupIndex(meta->entry_templates()); r.templates_changed = meta->entry_templates_changed();
    r.hist_items = meta->history_max_items(); r.hist_size = meta->history_max_size();
    r.last_selected = x.GroupIndex(meta->last_selected_group().lock());
    r.last_visible = x.GroupIndex(meta->last_visible_group().lock());
    for (auto& f : meta->fields()) r.fields.push_back(std::make_pair(f.key(), f.value()));
  }
  if (db.root()) { x.IndexEntries(*db.root()); m.root = x.DoGroup(*db.root()); }
  return m;
}

Flat FlattenTree(const MDb& m) {
  Flattener x;
  x.DoGroup(m, "root.", m.root);
  return x.f;
}

Flat Flatten(const MDb& m, bool header) {
  Flattener x;
  if (header) {
    x.A("twofish", m.twofish); x.A("master_seed", Hex(m.master_seed, 70000)); x.A("iv", Hex(Bytes(m.iv))); x.A("tseed", Hex(Bytes(m.tseed)));
    x.A("isk", Hex(Bytes(m.isk))); x.A("rounds", Num(m.rounds)); x.A("compress", m.compress);
  }
  x.A("has_meta", m.has_meta);
  if (m.has_meta) {
    const MMeta& t = m.meta;
    x.A("meta.generator", t.generator);
    x.A("meta.name", t.name.v); x.A("meta.name_t", t.name.t); x.A("meta.desc", t.desc.v); x.A("meta.desc_t", t.desc.t);
    x.A("meta.user", t.user.v); x.A("meta.user_t", t.user.t); x.A("meta.hist_days", t.hist_days); x.A("meta.color", t.color);
    x.A("meta.key_changed", t.key_changed); x.A("meta.key_rec", t.key_rec); x.A("meta.key_force", t.key_force);
    x.A("meta.protect", str() + "01"[t.p_title] + "01"[t.p_user] + "01"[t.p_password] + "01"[t.p_url] + "01"[t.p_notes]);
    x.A("meta.recycle_bin", t.recycle_bin); x.A("meta.recycle_changed", t.recycle_changed);
    x.A("meta.templates", t.templates); x.A("meta.templates_changed", t.templates_changed);
    x.A("meta.hist_items", t.hist_items); x.A("meta.hist_size", t.hist_size);
    x.A("meta.last_selected", t.last_selected); x.A("meta.last_visible", t.last_visible);
    x.A("meta.binaries", m.pooled);
    for (int i = 0; i < m.pooled; ++i) { str p = "meta.bin" + Num(i); x.A(p, m.bins[i].data); x.A(p + ".prot", m.bins[i].prot); x.A(p + ".compress", m.bins[i].compress); }
    x.A("meta.icons", int64_t(m.icons.size()));
    for (size_t i = 0; i < m.icons.size(); ++i) { str p = "meta.icon" + Num(i); x.A(p + ".uuid", Hex(Bytes(m.icons[i].uuid))); x.A(p, m.icons[i].data); }
    x.A("meta.fields", int64_t(t.fields.size()));
    for (size_t i = 0; i < t.fields.size(); ++i) { str p = "meta.field" + Num(i); x.A(p + ".key", t.fields[i].first); x.A(p, t.fields[i].second); }
  }
  x.DoGroup(m, "root.", m.root);
  return x.f;
}

str Diff(const Flat& a, const Flat& b) {
  if (a == b) return "";
  str r;
  int shown = 0;
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n && shown < 4; ++i) {
    if (a[i] == b[i]) continue;
    ++shown;
    if (a[i].first != b[i].first) { r += "structure differs: expected " + a[i].first + "=" + Quote(a[i].second) + ", got " + b[i].first + "=" + Quote(b[i].second) + "; "; break; }
    r += a[i].first + ": expected " + Quote(a[i].second) + ", got " + Quote(b[i].second) + "; ";
  }
  if (a.size() != b.size()) r += "number of values: expected " + Num(a.size()) + ", got " + Num(b.size());
  return r.empty() ? "differs" : r;
}

uint64_t Fingerprint(const Flat& f) {
  uint64_t h = 1;
  for (auto& x : f) { h = Hash(x.first, h); h = Hash(x.second, h); }
  return h;
}

namespace {
void SplitInline(const MDb& from, MDb& to, MEntry& e) {
  for (auto& a : e.atts)
    if (a.bin >= from.pooled) { to.bins.push_back(from.bins[a.bin]); to.bins.back().compress = false; a.bin = int(to.bins.size()) - 1; }
  for (auto& h : e.history) SplitInline(from, to, h);
}
void KdbxGroup(const MDb& from, MDb& to, MGroup& g) {
  g.flags = 0;
  for (auto& e : g.entries) SplitInline(from, to, e);
  for (auto& s : g.groups) KdbxGroup(from, to, s);
}
MGroup KdbGroup(const MDb& from, MDb& to, const MGroup& g, bool root) {
  MGroup r;
  if (!root) {
    r.icon = g.icon; r.name = g.name; r.t_creation = g.t_creation; r.t_mod = g.t_mod; r.t_access = g.t_access;
    r.t_expiry = g.t_expiry; r.flags = g.flags;
  }
  for (auto& e : g.entries) {
    MEntry x;
    x.uuid = e.uuid; x.icon = e.icon;
    x.title = MStr(e.title.v); x.url = MStr(e.url.v); x.username = MStr(e.username.v); x.password = MStr(e.password.v); x.notes = MStr(e.notes.v);
    x.t_creation = e.t_creation; x.t_mod = e.t_mod; x.t_access = e.t_access; x.t_expiry = e.t_expiry;
    if (!e.atts.empty()) {
      MAtt a; a.name = e.atts[0].name;
      if (e.atts[0].bin >= 0 && !from.bins[e.atts[0].bin].data.empty()) {
        MBin b; b.data = from.bins[e.atts[0].bin].data;
        to.bins.push_back(b); a.bin = int(to.bins.size()) - 1;
      }
      if (!a.name.empty() || a.bin >= 0) x.atts.push_back(a);
    }
    r.entries.push_back(x);
  }
  for (auto& s : g.groups) r.groups.push_back(KdbGroup(from, to, s, false));
  return r;
}
bool KdbOk(const MGroup& g, int level) {
  if (level > 256) return false;                           // the library reads and writes no deeper levels
  for (auto& e : g.entries) if (e.atts.size() > 1) return false;
  for (auto& s : g.groups) if (!KdbOk(s, level + 1)) return false;
  return true;
}
}  // namespace

MDb ExpectKdbx(const MDb& m) {
  MDb r = m;
  r.has_meta = true;
  if (!m.has_meta) { r.meta = MMeta(); r.icons.clear(); }
  MDb from = m;
  if (!m.has_meta) { from.pooled = 0; r.pooled = 0; }
  r.bins.resize(r.pooled);
  for (auto& b : r.bins) if (b.prot) b.compress = false;
  KdbxGroup(from, r, r.root);
  return r;
}

MDb ExpectKdb(const MDb& m) {
  MDb r;
  r.twofish = m.twofish; r.master_seed = m.master_seed; r.iv = m.iv; r.tseed = m.tseed; r.rounds = m.rounds;
  r.has_meta = false;
  r.root = KdbGroup(m, r, m.root, true);
  return r;
}

bool KdbRepresentable(const MDb& m) {
  return m.master_seed.size() == 16 && m.rounds <= 0xffffffffull && m.root.entries.empty() && KdbOk(m.root, -1);
}

bool KdbxValid(const MDb& m) {
  MDb c = m;
  std::multiset<Uuid> seen;
  std::vector<MEntry*> es;
  bool icons = false;
  for (auto g : Preorder(c.root)) {
    seen.insert(g->uuid);
    if (g->custom_icon >= 0) icons = true;
    if (g->last_visible < kElsewhere && g->last_visible >= int(g->entries.size())) return false;
  }
  // What refers to one of several groups with the same identifier is ambiguous.
  auto gs = Preorder(c.root);
  if (m.has_meta) for (int r : {m.meta.recycle_bin, m.meta.templates, m.meta.last_selected, m.meta.last_visible}) if (r >= 0 && seen.count(gs[size_t(r)]->uuid) > 1) return false;
  AllEntries(c.root, es);
  for (auto g : Preorder(c.root)) if (g->last_visible >= kElsewhere + int(es.size())) return false;
  es.clear();
  AllEntries(c.root, es, true);
  for (auto e : es) if (e->custom_icon >= 0) icons = true;
  return m.has_meta || !icons;
}

Outcome Attempt(std::function<void()> f) {
  Outcome o;
  try {
    f();
    o.ok = true;
  } catch (const std::exception& e) {
    int st;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    o.kind = n ? n : typeid(e).name();
    free(n);
    o.what = e.what();
  }
  return o;
}

Outcome ImportKdbx(const str& path, const Key& key) {
  std::unique_ptr<Database> db;
  Outcome o = Attempt([&] { KdbxFile f; db = f.Import(path, key); });
  o.db = std::move(db);
  return o;
}
Outcome ImportKdb(const str& path, const Key& key) {
  std::unique_ptr<Database> db;
  Outcome o = Attempt([&] { KdbFile f; db = f.Import(path, key); });
  o.db = std::move(db);
  return o;
}
Outcome ExportKdbx(const str& path, const Database& db, const Key& key) {
  return Attempt([&] { KdbxFile f; f.Export(path, db, key); });
}
Outcome ExportKdb(const str& path, const Database& db, const Key& key) {
  return Attempt([&] { KdbFile f; f.Export(path, db, key); });
}

Uuid MakeUuid(int n) {
  Uuid u;
  for (int i = 0; i < 16; ++i) u[i] = uint8_t(Hash(&n, sizeof n, 77 + i));
  return u;
}
int64_t kT(int n) { return 1400000000ll + n * 86461ll; }

std::vector<std::vector<int>> Forests(int n) {
  // Preorder depth sequences: d0 = 0, 0 <= d[i+1] <= d[i] + 1.
  std::vector<std::vector<int>> r;
  if (n == 0) { r.push_back({}); return r; }
  std::vector<int> d(n, 0);
  std::function<void(int)> go = [&](int i) {
    if (i == n) { r.push_back(d); return; }
    int max = i == 0 ? 0 : d[i - 1] + 1;
    for (int v = 0; v <= max; ++v) { d[i] = v; go(i + 1); }
  };
  go(0);
  return r;
}

void SetForest(MGroup& root, const std::vector<int>& depths) {
  root.groups.clear();
  // Build recursively to keep references valid.
  size_t i = 0;
  std::function<void(MGroup&, int)> fill = [&](MGroup& parent, int depth) {
    while (i < depths.size() && depths[i] == depth) {
      MGroup g;
      g.uuid = MakeUuid(100 + int(i)); g.name = "g" + Num(i); g.icon = uint32_t(i + 1);
      ++i;
      fill(g, depth + 1);
      parent.groups.push_back(g);
    }
  };
  fill(root, 0);
}

std::vector<MGroup*> Preorder(MGroup& root) {
  std::vector<MGroup*> r;
  std::function<void(MGroup&)> go = [&](MGroup& g) { r.push_back(&g); for (auto& s : g.groups) go(s); };
  go(root);
  return r;
}

void AllEntries(MGroup& g, std::vector<MEntry*>& out, bool history) {
  std::function<void(MEntry&)> add = [&](MEntry& e) { out.push_back(&e); if (history) for (auto& h : e.history) add(h); };
  for (auto& e : g.entries) add(e);
  for (auto& s : g.groups) AllEntries(s, out, history);
}

namespace {
void Header(MDb& m) {
  m.master_seed = "0123456789abcdef";
  for (int i = 0; i < 16; ++i) m.iv[i] = uint8_t(0x10 + i);
  for (int i = 0; i < 32; ++i) m.tseed[i] = uint8_t(0x40 + i);
  for (int i = 0; i < 32; ++i) m.isk[i] = uint8_t(0x80 + i);
  m.rounds = 2;
}
MEntry RichEntry(int n) {
  MEntry e;
  e.uuid = MakeUuid(n);
  e.icon = 7 + n;
  e.title = MStr("Title " + Num(n)); e.url = MStr("http://u" + Num(n)); e.username = MStr("user" + Num(n));
  e.password = MStr("pass word & <" + Num(n) + ">", true); e.notes = MStr("notes\nline 2 of " + Num(n), n % 2 == 0);
  e.t_creation = kT(n); e.t_mod = kT(n + 1); e.t_access = kT(n + 2); e.t_expiry = kT(n + 3);
  return e;
}
}  // namespace

MDb SmallDb() {
  MDb m;
  Header(m);
  m.root.uuid = MakeUuid(1); m.root.name = "root";
  MGroup g; g.uuid = MakeUuid(2); g.name = "group";
  MEntry e; e.uuid = MakeUuid(3); e.title = MStr("title"); e.password = MStr("secret", true);
  g.entries.push_back(e);
  m.root.groups.push_back(g);
  return m;
}

MDb RichDb() {
  MDb m;
  Header(m);
  m.master_seed = "0123456789abcdefABCDEFGHIJKLMNOP";
  for (int i = 0; i < 3; ++i) { MIcon ic; ic.uuid = MakeUuid(50 + i); ic.data = "icon data " + Num(i) + str(1, char(200 + i)); m.icons.push_back(ic); }
  auto bin = [&](const str& d, bool p, bool c) { MBin b; b.data = d; b.prot = p; b.compress = c; m.bins.push_back(b); };
  bin("pool plain", false, false);
  bin(str("pool\0prot\xff", 10), true, false);
  bin("pool compressed compressed compressed", false, true);
  bin("pool unused", false, false);
  m.pooled = 4;
  bin("inline plain", false, false);
  bin("inline prot", true, false);
  MMeta& t = m.meta;
  t.generator = "gen"; t.name = MTemporal{"dbname", kT(30)}; t.desc = MTemporal{"dbdesc", kT(31)}; t.user = MTemporal{"dbuser", kT(32)};
  t.hist_days = 99; t.color = "#112233"; t.key_changed = kT(33); t.key_rec = 11; t.key_force = 12;
  t.p_title = true; t.p_user = false; t.p_password = false; t.p_url = true; t.p_notes = true;
  t.recycle_bin = 2; t.recycle_changed = kT(34); t.templates = 3; t.templates_changed = kT(35);
  t.hist_items = 13; t.hist_size = 1400000000000ll; t.last_selected = 1; t.last_visible = 0;
  t.fields.push_back(std::make_pair("ck1", "cv1")); t.fields.push_back(std::make_pair("ck2", "cv2"));
  auto group = [&](int n, const str& name) {
    MGroup g;
    g.uuid = MakeUuid(10 + n); g.name = name; g.notes = "notes of " + name; g.icon = 20 + n;
    g.t_creation = kT(40 + n); g.t_mod = kT(50 + n); g.t_access = kT(60 + n); g.t_expiry = kT(70 + n); g.t_move = kT(80 + n);
    g.expires = n & 1; g.expanded = !(n & 1); g.autotype = n & 1; g.search = !(n & 1);
    g.usage = 100 + n; g.sequence = "{SEQ" + Num(n) + "}";
    return g;
  };
  auto entry = [&](int n) {
    MEntry e = RichEntry(n);
    e.override_url = "cmd://" + Num(n); e.tags = "a;b" + Num(n); e.bg = "#00" + Num(n); e.fg = "#ff" + Num(n);
    e.t_move = kT(n + 4); e.expires = n & 1; e.usage = 1000 + n;
    e.at_enabled = !(n & 1); e.at_obf = n & 1; e.at_sequence = "{USERNAME}" + Num(n);
    e.assocs.push_back(MAssoc{"win1-" + Num(n), "{A}"}); e.assocs.push_back(MAssoc{"win2-" + Num(n), ""});
    e.fields.push_back(MField{"Field1", MStr("v1-" + Num(n), true)}); e.fields.push_back(MField{"Field2", MStr("v2-" + Num(n))});
    return e;
  };
  m.root = group(0, "root");
  MGroup g1 = group(1, "one"), g2 = group(2, "two"), g3 = group(3, "three");
  MEntry e0 = entry(201), e1 = entry(202), e2 = entry(203), h0 = entry(204), h1 = entry(205), e3 = entry(206);
  e0.custom_icon = 0; e2.custom_icon = 2; g1.custom_icon = 1;
  e0.atts.push_back(MAtt{"a0", 0}); e0.atts.push_back(MAtt{"a1", 1}); e0.atts.push_back(MAtt{"a2", 2}); e0.atts.push_back(MAtt{"a3", 4}); e0.atts.push_back(MAtt{"a4", 5}); e0.atts.push_back(MAtt{"none", -1});
  e1.atts.push_back(MAtt{"same", 0});
  h0.uuid = e0.uuid; h1.uuid = e0.uuid; h0.atts.push_back(MAtt{"hist", 1}); h1.atts.clear();
  e0.history.push_back(h0); e0.history.push_back(h1);
  g1.entries.push_back(e0); g1.entries.push_back(e1); g1.last_visible = 1;
  g2.entries.push_back(e2);
  m.root.entries.push_back(e3);
  g2.groups.push_back(g3);          // preorder: root 0, g1 1, g2 2, g3 3
  m.root.groups.push_back(g1); m.root.groups.push_back(g2);
  return m;
}

MDb RichKdb() {
  MDb m;
  Header(m);
  m.has_meta = false;
  auto group = [&](int n, const str& name) {
    MGroup g;
    g.name = name; g.icon = 20 + n; g.flags = uint32_t(n);
    g.t_creation = kT(40 + n); g.t_mod = kT(50 + n); g.t_access = kT(60 + n); g.t_expiry = n == 1 ? 0 : kT(70 + n);
    return g;
  };
  auto entry = [&](int n) {
    MEntry e = RichEntry(n);
    e.password.p = false; e.notes.p = false;
    return e;
  };
  auto bin = [&](const str& d) { MBin b; b.data = d; m.bins.push_back(b); return int(m.bins.size()) - 1; };
  MGroup g1 = group(1, "one"), g2 = group(2, "two"), g3 = group(3, "three"), g4 = group(4, "four");
  MEntry e0 = entry(201), e1 = entry(202), e2 = entry(203), e3 = entry(204);
  e0.atts.push_back(MAtt{"file.bin", bin(str("da\0ta\xff\r\n", 8))});
  e2.atts.push_back(MAtt{"other", bin("x")});
  e1.t_expiry = 0;
  g1.entries.push_back(e0); g1.entries.push_back(e1); g3.entries.push_back(e2); g4.entries.push_back(e3);
  g2.groups.push_back(g3);
  m.root.groups.push_back(g1); m.root.groups.push_back(g2); m.root.groups.push_back(g4);
  return m;
}

std::vector<std::pair<str, str>> TextAlphabet(Alphabet a, bool allow_nul, bool edge_space) {
  std::vector<std::pair<str, str>> r;
  auto add = [&](const str& v) { r.push_back(std::make_pair(Quote(v, 24), v)); };
  add(""); add("x");
  add("a&b<c>d\"e'f]]>g&amp;h&#65;");
  if (a == Alphabet::kSmall) { add("l1\r\nl2\rl3\n\tl4"); add("\xc3\xa4\xe2\x82\xac\xf0\x9f\x94\x91"); return r; }
  add("l1\nl2"); add("l1\rl2"); add("l1\r\nl2"); add("a\tb"); add("a  b"); add("&lt;"); add("<!-- c -->"); add("<![CDATA[x]]>");
  add("\xc3\xa4\xe2\x82\xac\xf0\x9f\x94\x91"); add("\xff\xfe\x80"); add("null"); add("True"); add("0"); add("=AAA"); add("{REF:T@I:0}");
  for (size_t n : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025})
    add(str(n - 1, 'q') + "z");
  if (edge_space) { add(" lead"); add("trail "); add("\tx"); add("x\n"); add(" "); add("\r\n"); add("\n \t"); }
  if (allow_nul) { add(str("a\0b", 3)); add(str("\0", 1)); add(str("x\0", 2)); }
  if (a == Alphabet::kFull) {
    for (int c = 1; c < 256; ++c) add(str("x") + char(c) + "y");
    for (int c = 0x21; c < 256; ++c) add(str(1, char(c)));
    for (size_t n : {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20, 47, 48, 49, 79, 80, 81, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537})
      add(str(n - 1, 'w') + "e");
  }
  return r;
}

bool ReservedField(const str& key) { return key == "Title" || key == "URL" || key == "UserName" || key == "Password" || key == "Notes"; }

namespace {
// Further values from the sources under test; none for the smallest alphabet.
std::vector<str> DictText(Alphabet a, bool edge = true) {
  std::vector<str> r;
  if (a == Alphabet::kSmall) return r;
  std::set<str> have;
  for (auto& v : TextAlphabet(a, true, true)) have.insert(v.second);
  for (auto& w : SourceWords()) {
    if (w.size() > 1 || a == Alphabet::kFull) if (have.insert(w).second) r.push_back(w);
    if (a == Alphabet::kFull && w.size() > 1) { if (have.insert("x" + w).second) r.push_back("x" + w); if (have.insert(w + "x").second) r.push_back(w + "x"); }
  }
  std::set<size_t> sizes;
  for (auto& h : have) sizes.insert(h.size());
  for (uint64_t n : SourceNumbers(a == Alphabet::kFull ? (Quick() ? 5000 : 70000) : 300)) if (n && sizes.insert(n).second) r.push_back(str(n - 1, 'd') + "e");
  return r;
}
const std::vector<str>& DictTextOf(Alphabet a) {
  static const std::vector<str> d[3] = {DictText(Alphabet::kFull), DictText(Alphabet::kMedium), DictText(Alphabet::kSmall)};
  return d[int(a)];
}
typedef std::function<str*(MDb&)> StrAt;
void TextSlot(std::vector<Slot>& out, const str& name, StrAt at, Alphabet a, bool nul, bool edge) {
  Slot s; s.name = name;
  for (auto& v : TextAlphabet(a, nul, edge)) { str val = v.second; s.values.push_back(std::make_pair(v.first, [at, val](MDb& m) { *at(m) = val; })); }
  s.plain = s.values.size();
  for (auto& val : DictTextOf(a)) s.values.push_back(std::make_pair(Quote(val, 24), [at, val](MDb& m) { *at(m) = val; }));
  out.push_back(s);
}
void ProtSlot(std::vector<Slot>& out, const str& name, std::function<MStr*(MDb&)> at, Alphabet a, bool with_prot) {
  Slot s; s.name = name;
  for (auto& v : TextAlphabet(a, false, true)) { str val = v.second; s.values.push_back(std::make_pair(v.first, [at, val](MDb& m) { *at(m) = MStr(val, false); })); }
  if (with_prot)
    for (auto& v : TextAlphabet(a, true, true)) { str val = v.second; s.values.push_back(std::make_pair("protected " + v.first, [at, val](MDb& m) { *at(m) = MStr(val, true); })); }
  s.plain = s.values.size();
  for (int p = 0; p < (with_prot ? 2 : 1); ++p)
    for (auto& val : DictTextOf(a)) s.values.push_back(std::make_pair((p ? "protected " : "") + Quote(val, 24), [at, val, p](MDb& m) { *at(m) = MStr(val, p); }));
  out.push_back(s);
}
template <typename T>
void NumSlot(std::vector<Slot>& out, const str& name, std::function<void(MDb&, T)> set, std::vector<T> values, uint64_t dict = 0) {
  Slot s; s.name = name;
  for (T v : values) s.values.push_back(std::make_pair(std::to_string(v), [set, v](MDb& m) { set(m, v); }));
  s.plain = s.values.size();
  if (dict) {
    std::set<T> have(values.begin(), values.end());
    for (uint64_t n : SourceNumbers(dict)) { T v = T(n); if (have.insert(v).second) s.values.push_back(std::make_pair(std::to_string(v), [set, v](MDb& m) { set(m, v); })); }
  }
  out.push_back(s);
}
uint64_t All(Alphabet a) { return a == Alphabet::kSmall ? 0 : ~0ull; }            // numbers of all sizes
uint64_t U(Alphabet a) { return a == Alphabet::kSmall ? 0 : 0xffffffffull; }
uint64_t T1(Alphabet a) { return a == Alphabet::kSmall ? 0 : 0x7fffffffull; }     // times
uint64_t Counts(Alphabet a) { return a == Alphabet::kSmall ? 0 : a == Alphabet::kMedium || Quick() ? 40 : 270; }
// Conditions under which KeePass 1 takes an entry for one that holds its own settings.
void MetaSlot(std::vector<Slot>& out, const str& name, std::function<MEntry*(MDb&)> at) {
  Slot s; s.name = name;
  for (int bits = 0; bits < 32; ++bits) {
    if (__builtin_popcount(unsigned(bits)) < 3) continue;
    s.values.push_back(std::make_pair("conditions " + Num(unsigned(bits)), [at, bits](MDb& m) {
      MEntry* e = at(m);
      if (bits & 1) e->title.v = "Meta-Info";
      if (bits & 2) e->url.v = "$";
      if (bits & 4) e->username.v = "SYSTEM";
      if (bits & 8) e->notes.v = "x"; else e->notes.v = "";
      if (bits & 16) { MBin x; x.data = "dd"; m.bins.push_back(x); e->atts.assign(1, MAtt{"bin-stream", int(m.bins.size()) - 1}); }
    }));
  }
  s.plain = s.values.size();
  std::reverse(s.values.begin(), s.values.end());
  out.push_back(s);
}
std::vector<uint32_t> U32(Alphabet a) {
  if (a == Alphabet::kSmall) return {0, 0xffffffffu, 0x80000000u};
  std::vector<uint32_t> r = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
  if (a == Alphabet::kFull) for (int i = 0; i < 32; ++i) { r.push_back(1u << i); r.push_back(~(1u << i)); r.push_back((1u << i) - 1); }
  return r;
}
std::vector<int64_t> Times(Alphabet a) {
  if (a == Alphabet::kSmall) return {0, 1, 1700000000};
  std::vector<int64_t> r = {0, 1, -1 + 86400, 951782400, 1077926399, 1456704000, 1709164799, 2147483647, 2147483648ll, 4102444799ll};
  if (a == Alphabet::kFull)
    for (int64_t t = 0; t < 4; ++t) { r.push_back(1900000000ll + t); r.push_back(86399 + t * 86400); }
  return r;
}
std::vector<int64_t> I64(Alphabet a) {
  if (a == Alphabet::kSmall) return {0, -1, INT64_MAX};
  return {0, 1, -1, -2, 127, 128, 255, 65535, 65536, INT32_MAX, -int64_t(INT32_MAX) - 1, int64_t(INT32_MAX) + 1, 0xffffffffll, 0x100000000ll, INT64_MAX, INT64_MIN, INT64_MIN + 1};
}
}  // namespace

std::vector<Slot> KdbxSlots(Alphabet a) {
  std::vector<Slot> s;
  typedef std::function<MEntry*(MDb&)> EntryAt;
  EntryAt e0 = [](MDb& m) { return &m.root.groups[0].entries[0]; };
  auto ensure = [](MEntry* e) {   // another deviation may have removed the elements
    while (e->fields.size() < 2) e->fields.push_back(MField{"k" + Num(e->fields.size()), MStr("v")});
    if (e->assocs.empty()) e->assocs.push_back(MAssoc{"w", "s"});
    return e;
  };
  e0 = [ensure](MDb& m) { return ensure(&m.root.groups[0].entries[0]); };
  EntryAt h1 = [ensure](MDb& m) { auto& h = m.root.groups[0].entries[0].history; while (h.size() < 2) { MEntry e = RichEntry(900 + int(h.size())); h.push_back(e); } return ensure(&h[1]); };
  EntryAt e2 = [ensure](MDb& m) { return ensure(&m.root.groups[1].entries[0]); };
  auto entry_slots = [&](const str& p, EntryAt at, Alphabet b) {
    ProtSlot(s, p + ".title", [at](MDb& m) { return &at(m)->title; }, b, true);
    ProtSlot(s, p + ".url", [at](MDb& m) { return &at(m)->url; }, b, true);
    ProtSlot(s, p + ".username", [at](MDb& m) { return &at(m)->username; }, b, true);
    ProtSlot(s, p + ".password", [at](MDb& m) { return &at(m)->password; }, b, true);
    ProtSlot(s, p + ".notes", [at](MDb& m) { return &at(m)->notes; }, b, true);
    ProtSlot(s, p + ".field0", [at](MDb& m) { return &at(m)->fields[0].value; }, b, true);
    ProtSlot(s, p + ".field1", [at](MDb& m) { return &at(m)->fields[1].value; }, b, true);
    { Slot k; k.name = p + ".field0.key";   // reserved names excepted
      for (auto& v : TextAlphabet(b, false, true)) { str val = v.second; k.values.push_back(std::make_pair(v.first, [at, val](MDb& m) { at(m)->fields[0].key = val; })); }
      k.plain = k.values.size();
      for (auto& val : DictTextOf(b)) if (!ReservedField(val)) k.values.push_back(std::make_pair(Quote(val, 24), [at, val](MDb& m) { at(m)->fields[0].key = val; }));
      for (str val : {"title", "Title2", "Url", "PASSWORD", "Note", "Key", "Field2"}) k.values.push_back(std::make_pair(Quote(val), [at, val](MDb& m) { at(m)->fields[0].key = val; }));
      s.push_back(k); }
    TextSlot(s, p + ".override_url", [at](MDb& m) { return &at(m)->override_url; }, b, false, true);
    TextSlot(s, p + ".tags", [at](MDb& m) { return &at(m)->tags; }, b, false, true);
    TextSlot(s, p + ".bg", [at](MDb& m) { return &at(m)->bg; }, b, false, true);
    TextSlot(s, p + ".fg", [at](MDb& m) { return &at(m)->fg; }, b, false, true);
    TextSlot(s, p + ".at_sequence", [at](MDb& m) { return &at(m)->at_sequence; }, b, false, true);
    TextSlot(s, p + ".assoc0.window", [at](MDb& m) { return &at(m)->assocs[0].window; }, b, false, true);
    TextSlot(s, p + ".assoc0.sequence", [at](MDb& m) { return &at(m)->assocs[0].sequence; }, b, false, true);
    NumSlot<int64_t>(s, p + ".creation", [at](MDb& m, int64_t v) { at(m)->t_creation = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".modification", [at](MDb& m, int64_t v) { at(m)->t_mod = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".access", [at](MDb& m, int64_t v) { at(m)->t_access = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".expiry", [at](MDb& m, int64_t v) { at(m)->t_expiry = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".move", [at](MDb& m, int64_t v) { at(m)->t_move = v; }, Times(b), T1(b));
    NumSlot<int>(s, p + ".expires", [at](MDb& m, int v) { at(m)->expires = v; }, {0, 1});
    NumSlot<int>(s, p + ".at_enabled", [at](MDb& m, int v) { at(m)->at_enabled = v; }, {0, 1});
    NumSlot<uint32_t>(s, p + ".icon", [at](MDb& m, uint32_t v) { at(m)->icon = v; }, U32(b), U(b));
    NumSlot<uint32_t>(s, p + ".usage", [at](MDb& m, uint32_t v) { at(m)->usage = v; }, U32(b), U(b));
    NumSlot<uint32_t>(s, p + ".at_obf", [at](MDb& m, uint32_t v) { at(m)->at_obf = v; }, U32(b), U(b));
    NumSlot<int>(s, p + ".custom_icon", [at](MDb& m, int v) { at(m)->custom_icon = v; }, {-1, 0, 1, 2});
    NumSlot<int>(s, p + ".uuid", [at](MDb& m, int v) { at(m)->uuid.fill(uint8_t(v)); }, {1, 0x7f, 0x80, 0xff, 0});
    NumSlot<int>(s, p + ".assocs", [at](MDb& m, int v) { at(m)->assocs.resize(v, MAssoc{"w", "s"}); }, {0, 1, 3, 20}, Counts(b));
    NumSlot<int>(s, p + ".fields", [at](MDb& m, int v) { at(m)->fields.resize(v, MField{"k", MStr("v", true)}); }, {0, 1, 3, 20}, Counts(b));
    NumSlot<int>(s, p + ".attachments", [at](MDb& m, int v) { at(m)->atts.clear(); for (int i = 0; i < v; ++i) at(m)->atts.push_back(MAtt{"n" + Num(i), i % 7 - 1}); }, {0, 1, 2, 8, 15}, Counts(b));
    NumSlot<int>(s, p + ".att0.object", [at](MDb& m, int v) { if (at(m)->atts.empty()) at(m)->atts.push_back(MAtt{"n", -1}); at(m)->atts[0].bin = v; }, {-1, 0, 1, 2, 3, 4, 5});
    TextSlot(s, p + ".att0.name", [at](MDb& m) { if (at(m)->atts.empty()) at(m)->atts.push_back(MAtt{"n", 0}); return &at(m)->atts[0].name; }, b, false, true);
    NumSlot<int>(s, p + ".history", [at](MDb& m, int v) { MEntry h = *at(m); h.history.clear(); at(m)->history.assign(v, h); for (int i = 0; i < v; ++i) at(m)->history[i].usage = 7000 + i; }, {0, 1, 2, 5}, Counts(b));
    MetaSlot(s, p + ".meta conditions", at);
  };
  Alphabet lesser = a == Alphabet::kFull ? Alphabet::kMedium : Alphabet::kSmall;
  entry_slots("entry", e0, a);
  entry_slots("history1", h1, a == Alphabet::kSmall ? a : lesser);
  if (a != Alphabet::kSmall) entry_slots("entry2", e2, Alphabet::kSmall);
  NumSlot<int>(s, "entry.history_depth", [](MDb& m, int v) {
    MEntry h = m.root.groups[0].entries[1]; h.history.clear();
    for (int i = 0; i < v; ++i) { MEntry o = m.root.groups[0].entries[1]; o.history.assign(1, h); o.usage = 40 + i; h = o; }
    m.root.groups[0].entries[1].history.assign(1, h); }, {0, 1, 2, 4});

  typedef std::function<MGroup*(MDb&)> GroupAt;
  auto group_slots = [&](const str& p, GroupAt at, Alphabet b) {
    TextSlot(s, p + ".name", [at](MDb& m) { return &at(m)->name; }, b, false, true);
    TextSlot(s, p + ".notes", [at](MDb& m) { return &at(m)->notes; }, b, false, true);
    TextSlot(s, p + ".sequence", [at](MDb& m) { return &at(m)->sequence; }, b, false, true);
    NumSlot<int64_t>(s, p + ".creation", [at](MDb& m, int64_t v) { at(m)->t_creation = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".modification", [at](MDb& m, int64_t v) { at(m)->t_mod = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".access", [at](MDb& m, int64_t v) { at(m)->t_access = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".expiry", [at](MDb& m, int64_t v) { at(m)->t_expiry = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".move", [at](MDb& m, int64_t v) { at(m)->t_move = v; }, Times(b), T1(b));
    NumSlot<int>(s, p + ".bools", [at](MDb& m, int v) { at(m)->expires = v & 1; at(m)->expanded = v & 2; at(m)->autotype = v & 4; at(m)->search = v & 8; },
                 {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15});
    NumSlot<uint32_t>(s, p + ".icon", [at](MDb& m, uint32_t v) { at(m)->icon = v; }, U32(b), U(b));
    NumSlot<uint32_t>(s, p + ".usage", [at](MDb& m, uint32_t v) { at(m)->usage = v; }, U32(b), U(b));
    NumSlot<int>(s, p + ".custom_icon", [at](MDb& m, int v) { at(m)->custom_icon = v; }, {-1, 0, 1, 2});
    NumSlot<int>(s, p + ".uuid", [at](MDb& m, int v) { at(m)->uuid.fill(uint8_t(v)); }, {1, 0x7f, 0x80, 0xff, 0});
  };
  group_slots("group", [](MDb& m) { return &m.root.groups[0]; }, a);
  group_slots("root", [](MDb& m) { return &m.root; }, lesser);
  NumSlot<int>(s, "group.last_visible", [](MDb& m, int v) { m.root.groups[0].last_visible = v; }, {-1, 0, 1, kElsewhere, kElsewhere + 3});
  NumSlot<int>(s, "root.last_visible", [](MDb& m, int v) { m.root.last_visible = v; }, {-1, 0});

  TextSlot(s, "meta.generator", [](MDb& m) { return &m.meta.generator; }, lesser, false, true);
  TextSlot(s, "meta.name", [](MDb& m) { return &m.meta.name.v; }, a, false, true);
  TextSlot(s, "meta.desc", [](MDb& m) { return &m.meta.desc.v; }, lesser, false, true);
  TextSlot(s, "meta.user", [](MDb& m) { return &m.meta.user.v; }, lesser, false, true);
  TextSlot(s, "meta.color", [](MDb& m) { return &m.meta.color; }, lesser, false, true);
  TextSlot(s, "meta.field1.value", [](MDb& m) { while (m.meta.fields.size() < 2) m.meta.fields.push_back(std::make_pair("k", "v")); return &m.meta.fields[1].second; }, lesser, false, true);
  { Slot k; k.name = "meta.field0.key";
    for (auto& v : TextAlphabet(lesser, false, true)) { str val = v.second;
      k.values.push_back(std::make_pair(v.first, [val](MDb& m) { if (m.meta.fields.empty()) m.meta.fields.push_back(std::make_pair("k", "v")); m.meta.fields[0].first = val; })); }
    k.plain = k.values.size();
    for (auto& val : DictTextOf(lesser)) k.values.push_back(std::make_pair(Quote(val, 24), [val](MDb& m) { if (m.meta.fields.empty()) m.meta.fields.push_back(std::make_pair("k", "v")); m.meta.fields[0].first = val; }));
    s.push_back(k); }
  NumSlot<int>(s, "meta.fields", [](MDb& m, int v) { m.meta.fields.clear(); for (int i = 0; i < v; ++i) m.meta.fields.push_back(std::make_pair("k" + Num(i % 3), "v" + Num(i))); }, {0, 1, 3, 12}, Counts(a));
  NumSlot<int64_t>(s, "meta.name_t", [](MDb& m, int64_t v) { m.meta.name.t = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.desc_t", [](MDb& m, int64_t v) { m.meta.desc.t = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.user_t", [](MDb& m, int64_t v) { m.meta.user.t = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.key_changed", [](MDb& m, int64_t v) { m.meta.key_changed = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.recycle_changed", [](MDb& m, int64_t v) { m.meta.recycle_changed = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.templates_changed", [](MDb& m, int64_t v) { m.meta.templates_changed = v; }, Times(lesser), T1(lesser));
  NumSlot<int64_t>(s, "meta.key_rec", [](MDb& m, int64_t v) { m.meta.key_rec = v; }, I64(a), All(a));
  NumSlot<int64_t>(s, "meta.key_force", [](MDb& m, int64_t v) { m.meta.key_force = v; }, I64(a), All(a));
  NumSlot<int64_t>(s, "meta.hist_size", [](MDb& m, int64_t v) { m.meta.hist_size = v; }, I64(a), All(a));
  NumSlot<int>(s, "meta.hist_items", [](MDb& m, int v) { m.meta.hist_items = v; }, {0, 1, -1, -2, 10, INT32_MAX, INT32_MIN}, U(a) / 2);
  NumSlot<uint32_t>(s, "meta.hist_days", [](MDb& m, uint32_t v) { m.meta.hist_days = v; }, U32(a), U(a));
  NumSlot<int>(s, "meta.protection", [](MDb& m, int v) { MMeta& t = m.meta; t.p_title = v & 1; t.p_user = v & 2; t.p_password = v & 4; t.p_url = v & 8; t.p_notes = v & 16; },
               {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31});
  NumSlot<int>(s, "meta.recycle_bin", [](MDb& m, int v) { m.meta.recycle_bin = v; }, {-1, 0, 1, 2, 3});
  NumSlot<int>(s, "meta.templates", [](MDb& m, int v) { m.meta.templates = v; }, {-1, 0, 1, 2, 3});
  NumSlot<int>(s, "meta.last_selected", [](MDb& m, int v) { m.meta.last_selected = v; }, {-1, 0, 1, 2, 3});
  NumSlot<int>(s, "meta.last_visible", [](MDb& m, int v) { m.meta.last_visible = v; }, {-1, 0, 1, 2, 3});
  NumSlot<int>(s, "has_meta", [](MDb& m, int v) {
    m.has_meta = v;
    if (!v) {
      std::vector<MEntry*> es; AllEntries(m.root, es, true);
      for (auto e : es) e->custom_icon = -1;
      for (auto g : Preorder(m.root)) g->custom_icon = -1;
    } }, {0});

  for (int b : {0, 1, 2, 4, 5}) {
    Slot k; k.name = "bin" + Num(b) + ".data";
    std::vector<str> datas = {"", "\n", str(1, '\0'), " \t\r\n ", str("\0\1\2", 3)};
    if (a != Alphabet::kSmall) for (int n : {1, 2, 3, 4, 5, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257}) { str d; for (int i = 0; i < n; ++i) d += char(i * 7 + n); datas.push_back(d); }
    if (a == Alphabet::kFull) {
      for (int c = 0; c < 256; ++c) datas.push_back(str(1, char(c)));
      for (int n : {1023, 1024, 1025, 12287, 12288, 16383, 16384, 16385, 32768, 65535, 65536, 100000}) { str d; uint32_t x = n; for (int i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; d += char(x >> 24); } datas.push_back(d); }
      datas.push_back(str(200000, 'r'));
    }
    for (str& d : datas) { str val = d; k.values.push_back(std::make_pair(Quote(val, 16), [b, val](MDb& m) { m.bins[b].data = val; })); }
    k.plain = k.values.size();
    for (auto& val : DictTextOf(a)) k.values.push_back(std::make_pair(Quote(val, 16), [b, val](MDb& m) { m.bins[b].data = val; }));
    s.push_back(k);
    NumSlot<int>(s, "bin" + Num(b) + ".flags", [b](MDb& m, int v) { m.bins[b].prot = v & 1; m.bins[b].compress = v & 2; }, {0, 1, 2, 3});
  }
  NumSlot<int>(s, "pool", [](MDb& m, int v) { for (int i = m.pooled; i < v; ++i) { MBin b; b.data = "p" + Num(i); m.bins.insert(m.bins.begin() + m.pooled, b); ++m.pooled; }
      std::vector<MEntry*> es; AllEntries(m.root, es, true); int delta = v - 4; for (auto e : es) for (auto& t : e->atts) if (t.bin >= 4) t.bin += delta;
      if (v > 10) { es[0]->atts.push_back(MAtt{"last", v - 1}); es[0]->atts.push_back(MAtt{"ten", 10}); es[1]->atts.push_back(MAtt{"one", 1}); } }, {5, 11, 12, 30, 101});
  NumSlot<int>(s, "icons", [](MDb& m, int v) { for (int i = int(m.icons.size()); i < v; ++i) { MIcon ic; ic.uuid = MakeUuid(600 + i); ic.data = str(i + 1, char(i)); m.icons.push_back(ic); } m.root.custom_icon = v - 1; }, {4, 12, 40});
  { Slot k; k.name = "icon1.data";
    for (str d : {str(1, '\0'), str("\r\n"), str(" "), str(1000, 'i'), str()}) k.values.push_back(std::make_pair(Quote(d, 8), [d](MDb& m) { m.icons[1].data = d; }));
    s.push_back(k); }

  NumSlot<int>(s, "compress", [](MDb& m, int v) { m.compress = v; }, {1});
  NumSlot<uint64_t>(s, "rounds", [](MDb& m, uint64_t v) { m.rounds = v; }, {0, 1, 3, 255, 256, 6000}, a == Alphabet::kSmall ? 0 : 20000);
  { Slot k; k.name = "master_seed";
    for (int n : {0, 1, 15, 16, 17, 31, 33, 255, 256, 65534, 65535}) k.values.push_back(std::make_pair(Num(n) + " bytes", [n](MDb& m) { m.master_seed = str(n, char(n * 3 + 1)); }));
    s.push_back(k); }
  NumSlot<int>(s, "iv", [](MDb& m, int v) { m.iv.fill(uint8_t(v)); m.iv[15] = 1; }, {0, 255});
  NumSlot<int>(s, "tseed", [](MDb& m, int v) { m.tseed.fill(uint8_t(v)); m.tseed[31] = 1; }, {0, 255});
  NumSlot<int>(s, "isk", [](MDb& m, int v) { m.isk.fill(uint8_t(v)); m.isk[31] = 1; }, {0, 255});
  return s;
}

std::vector<Slot> KdbSlots(Alphabet a) {
  std::vector<Slot> s;
  typedef std::function<MEntry*(MDb&)> EntryAt;
  auto entry_slots = [&](const str& p, EntryAt at, Alphabet b) {
    auto T = [&](const str& n, std::function<MStr*(MDb&)> f) { TextSlot(s, p + n, [f](MDb& m) { return &f(m)->v; }, b, false, true); };
    T(".title", [at](MDb& m) { return &at(m)->title; });
    T(".url", [at](MDb& m) { return &at(m)->url; });
    T(".username", [at](MDb& m) { return &at(m)->username; });
    T(".password", [at](MDb& m) { return &at(m)->password; });
    T(".notes", [at](MDb& m) { return &at(m)->notes; });
    NumSlot<int64_t>(s, p + ".creation", [at](MDb& m, int64_t v) { at(m)->t_creation = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".modification", [at](MDb& m, int64_t v) { at(m)->t_mod = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".access", [at](MDb& m, int64_t v) { at(m)->t_access = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".expiry", [at](MDb& m, int64_t v) { at(m)->t_expiry = v; }, Times(b), T1(b));
    NumSlot<uint32_t>(s, p + ".icon", [at](MDb& m, uint32_t v) { at(m)->icon = v; }, U32(b), U(b));
    NumSlot<int>(s, p + ".uuid", [at](MDb& m, int v) { at(m)->uuid.fill(uint8_t(v)); }, {0, 1, 0x7f, 0x80, 0xff});
    Slot k; k.name = p + ".attachment";
    std::vector<str> datas = {"x", str(1, '\0'), str("\0\1\2", 3), "\r\n", str(16, 'd')};
    if (b != Alphabet::kSmall) for (int n : {2, 4, 5, 15, 17, 255, 256, 257, 1023, 1024, 1025}) { str d; for (int i = 0; i < n; ++i) d += char(i * 7 + n); datas.push_back(d); }
    if (b == Alphabet::kFull) { for (int c = 0; c < 256; ++c) datas.push_back(str(1, char(c))); datas.push_back(str(65535, 'r')); datas.push_back(str(65536, 'r')); datas.push_back(str(70001, 'r')); }
    for (str& d : datas) { str val = d; k.values.push_back(std::make_pair(Quote(val, 16), [at, val](MDb& m) { MBin x; x.data = val; m.bins.push_back(x); at(m)->atts.assign(1, MAtt{"n", int(m.bins.size()) - 1}); })); }
    if (b != Alphabet::kSmall) for (uint64_t n : SourceNumbers(70000)) { str val; uint32_t x = uint32_t(n); for (uint64_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; val += char(x >> 24); } if (n) k.values.push_back(std::make_pair(Num(n) + " bytes", [at, val](MDb& m) { MBin x; x.data = val; m.bins.push_back(x); at(m)->atts.assign(1, MAtt{"n", int(m.bins.size()) - 1}); })); }
    k.values.push_back(std::make_pair("none", [at](MDb& m) { at(m)->atts.clear(); }));
    k.values.push_back(std::make_pair("name only", [at](MDb& m) { at(m)->atts.assign(1, MAtt{"n", -1}); }));
    k.values.push_back(std::make_pair("data only", [at](MDb& m) { MBin x; x.data = "dd"; m.bins.push_back(x); at(m)->atts.assign(1, MAtt{"", int(m.bins.size()) - 1}); }));
    s.push_back(k);
    Slot n; n.name = p + ".attachment.name";
    for (auto& v : TextAlphabet(b, false, true)) { str val = v.second; n.values.push_back(std::make_pair(v.first, [at, val](MDb& m) { MBin x; x.data = "dd"; m.bins.push_back(x); at(m)->atts.assign(1, MAtt{val, int(m.bins.size()) - 1}); })); }
    n.plain = n.values.size();
    for (auto& val : DictTextOf(b)) n.values.push_back(std::make_pair(Quote(val, 24), [at, val](MDb& m) { MBin x; x.data = "dd"; m.bins.push_back(x); at(m)->atts.assign(1, MAtt{val, int(m.bins.size()) - 1}); }));
    s.push_back(n);
    MetaSlot(s, p + ".meta conditions", at);
  };
  Alphabet lesser = a == Alphabet::kFull ? Alphabet::kMedium : Alphabet::kSmall;
  entry_slots("entry0", [](MDb& m) { return &m.root.groups[0].entries[0]; }, a);
  entry_slots("entry3", [](MDb& m) { return &m.root.groups[2].entries[0]; }, lesser);
  typedef std::function<MGroup*(MDb&)> GroupAt;
  auto group_slots = [&](const str& p, GroupAt at, Alphabet b) {
    TextSlot(s, p + ".name", [at](MDb& m) { return &at(m)->name; }, b, false, true);
    NumSlot<int64_t>(s, p + ".creation", [at](MDb& m, int64_t v) { at(m)->t_creation = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".modification", [at](MDb& m, int64_t v) { at(m)->t_mod = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".access", [at](MDb& m, int64_t v) { at(m)->t_access = v; }, Times(b), T1(b));
    NumSlot<int64_t>(s, p + ".expiry", [at](MDb& m, int64_t v) { at(m)->t_expiry = v; }, Times(b), T1(b));
    NumSlot<uint32_t>(s, p + ".icon", [at](MDb& m, uint32_t v) { at(m)->icon = v; }, U32(b), U(b));
    NumSlot<uint32_t>(s, p + ".flags", [at](MDb& m, uint32_t v) { at(m)->flags = v; }, {0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu}, b == Alphabet::kSmall ? 0 : 0xffffffffu);
  };
  group_slots("group0", [](MDb& m) { return &m.root.groups[0]; }, a);
  group_slots("group3", [](MDb& m) { return &m.root.groups[1].groups[0]; }, lesser);
  NumSlot<int>(s, "cipher", [](MDb& m, int v) { m.twofish = v; }, {1});
  NumSlot<uint64_t>(s, "rounds", [](MDb& m, uint64_t v) { m.rounds = v; }, {0, 1, 3, 255, 256, 6000}, a == Alphabet::kSmall ? 0 : 20000);
  NumSlot<int>(s, "master_seed", [](MDb& m, int v) { m.master_seed = str(15, char(v)) + "x"; }, {0, 1, 255});
  NumSlot<int>(s, "iv", [](MDb& m, int v) { m.iv.fill(uint8_t(v)); m.iv[15] = 1; }, {0, 255});
  NumSlot<int>(s, "tseed", [](MDb& m, int v) { m.tseed.fill(uint8_t(v)); m.tseed[31] = 1; }, {0, 255});
  return s;
}

}  // namespace mc

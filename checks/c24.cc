// C24: objects hold what was last put into them.
#include <functional>
#include <stdexcept>

#include "model.hh"

using namespace mc;
using keepass::Binary;
using keepass::Database;
using keepass::Entry;
using keepass::Group;
using keepass::Icon;
using keepass::Metadata;
using keepass::protect;
using keepass::temporal;

namespace {

typedef protect<str> P;
typedef temporal<str> T;
typedef Entry::Attachment Att;

// Objects that lists and references lead to: their names are their values in the model.
template <typename X> struct Pool {
  std::vector<std::shared_ptr<X>> all;
  str Name(const X* p) const { if (!p) return "none"; for (size_t i = 0; i < all.size(); ++i) if (all[i].get() == p) return "#" + Num(i); return "unknown"; }
};
struct Pools {
  Pool<Icon> icon; Pool<Entry> entry; Pool<Group> group; Pool<Att> att; Pool<Binary> bin; Pool<Metadata> meta;
  Pools() {
    for (int i = 0; i < 3; ++i) {
      icon.all.push_back(std::make_shared<Icon>(Uuid{}, std::vector<uint8_t>{1}));
      entry.all.push_back(std::make_shared<Entry>());
      group.all.push_back(std::make_shared<Group>());
      bin.all.push_back(std::make_shared<Binary>(P("b", false)));
      meta.all.push_back(std::make_shared<Metadata>());
      att.all.push_back(std::make_shared<Att>());
      entry.all[i]->set_uuid(Uuid{}); group.all[i]->set_uuid(Uuid{});
    }
    att.all[0]->set_name("bin-stream"); att.all[1]->set_name("bin"); att.all[1]->set_binary(bin.all[0]);
    // The second entry is a meta entry.
    entry.all[1]->set_title(P("Meta-Info", false)); entry.all[1]->set_url(P("$", false)); entry.all[1]->set_username(P("SYSTEM", false)); entry.all[1]->set_notes(P("n", false)); entry.all[1]->AddAttachment(att.all[0]);
  }
};
Pools& pools() { static Pools p; return p; }

str TextOf(const str& s) { return "'" + Hex(s, 4000) + "'"; }
str TextOf(const P& p) { return TextOf(p.value()) + (p.is_protected() ? "!" : ""); }
str TextOf(const T& t) { return TextOf(t.value()) + "@" + SNum(t.time()); }
template <size_t N> str TextOf(const std::array<uint8_t, N>& a) { return Hex(str((const char*)a.data(), N), 4000); }
str TextOf(const std::vector<uint8_t>& a) { return "v" + Hex(str(a.begin(), a.end()), 4000); }
template <typename X> str Number(const X& x) { return x < 0 ? SNum(int64_t(x)) : Num(uint64_t(x)); }

// A place of an object: what it reads as, how it is set, and its text in a new object ("?": not judged).
template <typename O> struct Place {
  str name;
  std::function<str(O&)> get;
  std::vector<std::pair<str, std::function<void(O&)>>> sets;   // text -> setter
  bool list = false;                                           // sets append
  str fresh = "?";
  // Sets the place from a place of (possibly) the same object, by the reference that the accessor returns.
  std::vector<std::pair<size_t, std::function<void(O&, O&)>>> from;
};
typedef std::map<size_t, str> Model;
template <typename O> using Derived = std::vector<std::pair<str, std::function<std::pair<str, str>(O&, const Model&, const std::vector<Place<O>>&)>>>;

const str nul(1, '\0');
std::vector<str> Texts() { return {"", "x", "Meta-Info", "$", "SYSTEM", "x" + nul + "y", str(40, 'z') + "\xff\x80\n<&\"", str(1000, 'q'), str(70000, 'r')}; }
std::vector<P> Prots() { std::vector<P> r; for (auto& t : Texts()) r.push_back(P(t, false)); r.push_back(P("x", true)); r.push_back(P("", true)); return r; }
std::vector<int64_t> Times() { return {0, 1, -1, 1234567890, 1ll << 32, (1ll << 31), INT64_MAX, INT64_MIN}; }
std::vector<uint32_t> Numbers() { return {0, 1, 0x7fff, 0x8000, 0x10001, 0x80000000u, 0xffffffffu}; }
template <size_t N> std::vector<std::array<uint8_t, N>> Arrays() {
  std::vector<std::array<uint8_t, N>> r(4);
  r[0].fill(0); r[1].fill(255); for (size_t i = 0; i < N; ++i) { r[2][i] = uint8_t(i + 1); r[3][i] = uint8_t(200 - i); }
  return r;
}

// The text of a value is written down by the model, not read from an object.
#define FIELD(O, getter, setter, values, text, first) do { auto vs = values; \
  Place<O> p; p.name = #getter; p.fresh = first; p.get = [](O& o) -> str { return text(o.getter()); }; \
  for (auto& v : vs) p.sets.push_back({text(v), [v](O& o) { o.setter(v); }}); r.push_back(p); } while (0)
// Reading and setting through the accessor's own result.
#define FROM(O, to, setter, froms, getter) do { size_t a = Index(r, #to), b = Index(r, #froms); r[a].from.push_back({b, [](O& x, O& y) { x.setter(y.getter()); }}); } while (0)
template <typename O> size_t Index(const std::vector<Place<O>>& r, const str& name) { for (size_t i = 0; i < r.size(); ++i) if (r[i].name == name) return i; fprintf(stderr, "harness: no %s\n", name.c_str()); exit(97); }
#define PNAME(x) TextOf(x)
#define PNUM(x) Number(x)
#define REF(O, getter, setter, pool, lockit) do { Place<O> p; p.name = #getter; p.fresh = "none"; p.get = [](O& o) { return pools().pool.Name(o.getter() lockit.get()); }; \
  for (size_t i = 0; i < 3; ++i) p.sets.push_back({"#" + Num(i), [i](O& o) { o.setter(pools().pool.all[i]); }}); \
  p.sets.push_back({"none", [](O& o) { o.setter(decltype(o.getter())()); }}); r.push_back(p); \
  FROM(O, getter, setter, getter, getter); } while (0)
#define LIST(O, getter, adder, pool) do { Place<O> p; p.name = #getter; p.fresh = ""; p.list = true; p.get = [](O& o) { str s; for (auto& x : o.getter()) s += pools().pool.Name(x.get()) + ","; return s; }; \
  for (size_t i = 0; i < 3; ++i) p.sets.push_back({"#" + Num(i) + ",", [i](O& o) { o.adder(pools().pool.all[i]); }}); r.push_back(p); } while (0)

std::vector<Place<Entry>> EntryPlaces() {
  std::vector<Place<Entry>> r;
  FIELD(Entry, uuid, set_uuid, Arrays<16>(), PNAME, "?");
  FIELD(Entry, icon, set_icon, Numbers(), PNUM, "0");
  REF(Entry, custom_icon, set_custom_icon, icon, .lock());
  FIELD(Entry, title, set_title, Prots(), PNAME, "''");
  FIELD(Entry, url, set_url, Prots(), PNAME, "''");
  FIELD(Entry, override_url, set_override_url, Texts(), PNAME, "''");
  FIELD(Entry, username, set_username, Prots(), PNAME, "''");
  FIELD(Entry, password, set_password, Prots(), PNAME, "''");
  FIELD(Entry, notes, set_notes, Prots(), PNAME, "''");
  FIELD(Entry, tags, set_tags, Texts(), PNAME, "''");
  FIELD(Entry, creation_time, set_creation_time, Times(), PNUM, "0");
  FIELD(Entry, modification_time, set_modification_time, Times(), PNUM, "0");
  FIELD(Entry, access_time, set_access_time, Times(), PNUM, "0");
  FIELD(Entry, expiry_time, set_expiry_time, Times(), PNUM, "0");
  FIELD(Entry, move_time, set_move_time, Times(), PNUM, "0");
  FIELD(Entry, expires, set_expires, (std::vector<int>{0, 1}), PNUM, "0");
  FIELD(Entry, usage_count, set_usage_count, Numbers(), PNUM, "0");
  FIELD(Entry, bg_color, set_bg_color, Texts(), PNAME, "''");
  FIELD(Entry, fg_color, set_fg_color, Texts(), PNAME, "''");
  FIELD(Entry, auto_type().enabled, auto_type().set_enabled, (std::vector<int>{0, 1}), PNUM, "0");
  FIELD(Entry, auto_type().obfuscation, auto_type().set_obfuscation, Numbers(), PNUM, "0");
  FIELD(Entry, auto_type().sequence, auto_type().set_sequence, Texts(), PNAME, "''");
  LIST(Entry, attachments, AddAttachment, att);
  LIST(Entry, history, AddHistoryEntry, entry);
  { Place<Entry> p; p.name = "associations"; p.fresh = ""; p.list = true; p.get = [](Entry& o) { str s; for (auto& x : o.auto_type().associations()) s += TextOf(x.window()) + ":" + TextOf(x.sequence()) + ","; return s; };
    for (str w : {str(), str("x"), str(40, 'z') + nul}) for (str q : {str(), str("y")}) p.sets.push_back({TextOf(w) + ":" + TextOf(q) + ",", [w, q](Entry& o) { o.auto_type().AddAssociation(w, q); }});
    r.push_back(p); }
  { Place<Entry> p; p.name = "custom fields"; p.fresh = ""; p.list = true; p.get = [](Entry& o) { str s; for (auto& x : o.custom_fields()) s += TextOf(x.key()) + ":" + TextOf(x.value()) + ","; return s; };
    for (str w : {str(), str("x"), str(40, 'z') + nul}) for (P q : {P("", false), P("y", true), P("y", false)}) p.sets.push_back({TextOf(w) + ":" + TextOf(q) + ",", [w, q](Entry& o) { str k = w; o.AddCustomField(k, q); if (k != w) throw std::runtime_error("AddCustomField changed its key"); }});
    r.push_back(p); }
#define TEXTS(a, s) FROM(Entry, a, s, title, title); FROM(Entry, a, s, url, url); FROM(Entry, a, s, password, password)
  TEXTS(title, set_title); TEXTS(url, set_url); TEXTS(username, set_username); TEXTS(password, set_password); TEXTS(notes, set_notes);
#undef TEXTS
  FROM(Entry, tags, set_tags, tags, tags); FROM(Entry, tags, set_tags, bg_color, bg_color); FROM(Entry, bg_color, set_bg_color, fg_color, fg_color); FROM(Entry, fg_color, set_fg_color, bg_color, bg_color);
  FROM(Entry, override_url, set_override_url, tags, tags); FROM(Entry, auto_type().sequence, auto_type().set_sequence, auto_type().sequence, auto_type().sequence);
  FROM(Entry, creation_time, set_creation_time, move_time, move_time); FROM(Entry, uuid, set_uuid, uuid, uuid);
  return r;
}
std::vector<Place<Group>> GroupPlaces() {
  std::vector<Place<Group>> r;
  FIELD(Group, uuid, set_uuid, Arrays<16>(), PNAME, "?");
  FIELD(Group, icon, set_icon, Numbers(), PNUM, "0");
  REF(Group, custom_icon, set_custom_icon, icon, .lock());
  FIELD(Group, name, set_name, Texts(), PNAME, "''");
  FIELD(Group, notes, set_notes, Texts(), PNAME, "''");
  FIELD(Group, creation_time, set_creation_time, Times(), PNUM, "0");
  FIELD(Group, modification_time, set_modification_time, Times(), PNUM, "0");
  FIELD(Group, access_time, set_access_time, Times(), PNUM, "0");
  FIELD(Group, expiry_time, set_expiry_time, Times(), PNUM, "0");
  FIELD(Group, move_time, set_move_time, Times(), PNUM, "0");
  FIELD(Group, flags, set_flags, (std::vector<uint32_t>{0, 1, 2, 0x80, 0x100, 0x8000, 0xffff, 0x10000, 0x80000000u, 0xffffffffu}), PNUM, "0");
  FIELD(Group, expires, set_expires, (std::vector<int>{0, 1}), PNUM, "0");
  FIELD(Group, expanded, set_expanded, (std::vector<int>{0, 1}), PNUM, "0");
  FIELD(Group, usage_count, set_usage_count, Numbers(), PNUM, "0");
  FIELD(Group, default_autotype_sequence, set_default_autotype_sequence, Texts(), PNAME, "''");
  FIELD(Group, autotype, set_autotype, (std::vector<int>{0, 1}), PNUM, "0");
  FIELD(Group, search, set_search, (std::vector<int>{0, 1}), PNUM, "0");
  REF(Group, last_visible_entry, set_last_visible_entry, entry, .lock());
  LIST(Group, Groups, AddGroup, group);
  LIST(Group, Entries, AddEntry, entry);
  FROM(Group, name, set_name, name, name); FROM(Group, name, set_name, notes, notes); FROM(Group, notes, set_notes, name, name); FROM(Group, notes, set_notes, notes, notes);
  FROM(Group, default_autotype_sequence, set_default_autotype_sequence, default_autotype_sequence, default_autotype_sequence); FROM(Group, uuid, set_uuid, uuid, uuid);
  FROM(Group, creation_time, set_creation_time, move_time, move_time);
  return r;
}
std::vector<T> Temporals() { std::vector<T> r; int64_t t = 0; for (auto& s : Texts()) r.push_back(T(s, t += 1000)); r.push_back(T("x", 0)); r.push_back(T("x", INT64_MAX)); r.push_back(T("", -5)); return r; }
std::vector<Place<Metadata>> MetaPlaces() {
  std::vector<Place<Metadata>> r;
  std::vector<int64_t> wide = Times();
  FIELD(Metadata, generator, set_generator, Texts(), PNAME, "''");
  FIELD(Metadata, database_name, set_database_name, Temporals(), PNAME, "''@0");
  FIELD(Metadata, database_desc, set_database_desc, Temporals(), PNAME, "''@0");
  FIELD(Metadata, default_username, set_default_username, Temporals(), PNAME, "''@0");
  FIELD(Metadata, maintenance_hist_days, set_maintenance_hist_days, Numbers(), PNUM, "?");
  FIELD(Metadata, database_color, set_database_color, Texts(), PNAME, "''");
  FIELD(Metadata, master_key_changed, set_master_key_changed, Times(), PNUM, "0");
  FIELD(Metadata, master_key_change_rec, set_master_key_change_rec, wide, PNUM, "?");
  FIELD(Metadata, master_key_change_force, set_master_key_change_force, wide, PNUM, "?");
  FIELD(Metadata, memory_protection().title, memory_protection().set_title, (std::vector<int>{0, 1}), PNUM, "?");
  FIELD(Metadata, memory_protection().username, memory_protection().set_username, (std::vector<int>{0, 1}), PNUM, "?");
  FIELD(Metadata, memory_protection().password, memory_protection().set_password, (std::vector<int>{0, 1}), PNUM, "?");
  FIELD(Metadata, memory_protection().url, memory_protection().set_url, (std::vector<int>{0, 1}), PNUM, "?");
  FIELD(Metadata, memory_protection().notes, memory_protection().set_notes, (std::vector<int>{0, 1}), PNUM, "?");
  REF(Metadata, recycle_bin, set_recycle_bin, group, );
  FIELD(Metadata, recycle_bin_changed, set_recycle_bin_changed, Times(), PNUM, "0");
  REF(Metadata, entry_templates, set_entry_templates, group, );
  FIELD(Metadata, entry_templates_changed, set_entry_templates_changed, Times(), PNUM, "0");
  FIELD(Metadata, history_max_items, set_history_max_items, (std::vector<int32_t>{-1, 0, 1, INT32_MAX, INT32_MIN, 0x10000}), PNUM, "?");
  FIELD(Metadata, history_max_size, set_history_max_size, wide, PNUM, "?");
  REF(Metadata, last_selected_group, set_last_selected_group, group, .lock());
  REF(Metadata, last_visible_group, set_last_visible_group, group, .lock());
  LIST(Metadata, binaries, AddBinary, bin);
  LIST(Metadata, icons, AddIcon, icon);
  { Place<Metadata> p; p.name = "fields"; p.fresh = ""; p.list = true; p.get = [](Metadata& o) { str s; for (auto& x : o.fields()) s += TextOf(x.key()) + ":" + TextOf(x.value()) + ","; return s; };
    for (str w : {str(), str("x"), str(40, 'z') + nul}) for (str q : {str(), str("y")}) p.sets.push_back({TextOf(w) + ":" + TextOf(q) + ",", [w, q](Metadata& o) { o.AddField(w, q); }});
    r.push_back(p); }
  FROM(Metadata, database_name, set_database_name, database_name, database_name); FROM(Metadata, database_name, set_database_name, database_desc, database_desc); FROM(Metadata, database_desc, set_database_desc, default_username, default_username);
  FROM(Metadata, default_username, set_default_username, database_name, database_name); FROM(Metadata, generator, set_generator, database_color, database_color); FROM(Metadata, database_color, set_database_color, database_color, database_color);
  return r;
}
str CipherText(Database::Cipher c) { return c == Database::Cipher::kAes ? "AES" : c == Database::Cipher::kTwofish ? "Twofish" : "other"; }
std::vector<Place<Database>> DatabasePlaces() {
  std::vector<Place<Database>> r;
  REF(Database, root, set_root, group, );
  REF(Database, meta, set_meta, meta, );
  FIELD(Database, cipher, set_cipher, (std::vector<Database::Cipher>{Database::Cipher::kAes, Database::Cipher::kTwofish}), CipherText, "?");
  std::vector<std::vector<uint8_t>> seeds; for (size_t n : {0, 1, 15, 16, 17, 31, 32, 33, 64, 1000}) { seeds.push_back({}); for (size_t i = 0; i < n; ++i) seeds.back().push_back(uint8_t(n + i * 7)); }
  FIELD(Database, master_seed, set_master_seed, seeds, PNAME, "?");
  for (auto& a : Arrays<16>()) r.back().sets.push_back({"v" + TextOf(a), [a](Database& d) { d.set_master_seed(a); }});
  FIELD(Database, init_vector, set_init_vector, Arrays<16>(), PNAME, "?");
  FIELD(Database, transform_seed, set_transform_seed, Arrays<32>(), PNAME, "?");
  FIELD(Database, inner_random_stream_key, set_inner_random_stream_key, Arrays<32>(), PNAME, "?");
  FIELD(Database, transform_rounds, set_transform_rounds, (std::vector<uint64_t>{0, 1, 8192, 0xffffffffull, 0x100000000ull, 1ull << 63, ~0ull}), PNUM, "?");
  FIELD(Database, compress, set_compress, (std::vector<int>{0, 1}), PNUM, "?");
  FROM(Database, master_seed, set_master_seed, master_seed, master_seed); FROM(Database, init_vector, set_init_vector, init_vector, init_vector); FROM(Database, transform_seed, set_transform_seed, inner_random_stream_key, inner_random_stream_key);
  FROM(Database, inner_random_stream_key, set_inner_random_stream_key, transform_seed, transform_seed);
  return r;
}
std::vector<Place<Att>> AttPlaces() {
  std::vector<Place<Att>> r;
  FIELD(Att, name, set_name, Texts(), PNAME, "''");
  REF(Att, binary, set_binary, bin, );
  FROM(Att, name, set_name, name, name);
  return r;
}
std::vector<Place<Binary>> BinaryPlaces() {
  std::vector<Place<Binary>> r;
  FIELD(Binary, data, set_data, Prots(), PNAME, "?");
  FIELD(Binary, compress, set_compress, (std::vector<int>{0, 1}), PNUM, "?");
  FROM(Binary, data, set_data, data, data);
  return r;
}
std::vector<Place<Icon>> IconPlaces() {
  std::vector<Place<Icon>> r;
  std::vector<std::vector<uint8_t>> ds; for (size_t n : {0, 1, 15, 16, 17, 255, 256, 5000}) { ds.push_back({}); for (size_t i = 0; i < n; ++i) ds.back().push_back(uint8_t(n + i * 7)); }
  FIELD(Icon, data, set_data, ds, PNAME, "?");
  { Place<Icon> p; p.name = "uuid"; p.get = [](Icon& o) { return TextOf(o.uuid()); }; r.push_back(p); }
  FROM(Icon, data, set_data, data, data);
  return r;
}
std::vector<Place<P>> ProtectPlaces() {
  std::vector<Place<P>> r;
  FIELD(P, value, set_value, Texts(), PNAME, "''");
  FIELD(P, is_protected, set_protected, (std::vector<int>{0, 1}), PNUM, "0");
  FROM(P, value, set_value, value, value);
  return r;
}
std::vector<Place<T>> TemporalPlaces() {
  std::vector<Place<T>> r;
  { Place<T> p; p.name = "value"; p.fresh = "''"; p.get = [](T& o) { return TextOf(o.value()); };
    for (auto& s : Texts()) p.sets.push_back({TextOf(s), [s](T& o) { time_t t = o.time(); o = T(s, t); }});
    r.push_back(p); }
  FIELD(T, time, set_time, Times(), PNUM, "0");
  return r;
}

// What follows from the places.
str At(const Model& m, const std::vector<Place<Entry>>& ps, const str& name) { return m.at(Index(ps, name)); }
str Bare(str s) { if (!s.empty() && s.back() == '!') s.pop_back(); return s; }

template <typename O> struct World {
  std::vector<Place<O>> places;
  Derived<O> derived;
  struct Op { str name; std::function<void(std::shared_ptr<O>*)> real; std::function<void(Model*)> model; };
  std::vector<Op> ops;
  std::function<std::shared_ptr<O>()> fresh = []() -> std::shared_ptr<O> { if constexpr (std::is_default_constructible<O>::value) return std::make_shared<O>(); else return nullptr; };

  void MakeOps(size_t values_of_second) {
    for (int w = 0; w < 2; ++w) {
      str obj = w ? "b." : "a.";
      for (size_t p = 0; p < places.size(); ++p) {
        auto& pl = places[p];
        for (size_t v = 0; v < pl.sets.size(); ++v) {
          if (w == 1 && v >= values_of_second && !pl.list) continue;
          // Second objects get other values first.
          size_t k = w ? pl.sets.size() - 1 - v : v;
          auto set = pl.sets[k].second; str text = pl.sets[k].first; bool list = pl.list;
          ops.push_back({obj + pl.name + (list ? " add " : " = ") + text.substr(0, 60), [w, set](std::shared_ptr<O>* o) { set(*o[w]); },
                         [w, p, text, list](Model* m) { if (list) m[w][p] += text; else m[w][p] = text; }});
        }
        for (auto& f : pl.from) for (int s = 0; s < 2; ++s) {
          auto fn = f.second; size_t from = f.first;
          ops.push_back({obj + pl.name + " = " + (s ? "b." : "a.") + places[from].name, [w, s, fn](std::shared_ptr<O>* o) { fn(*o[w], *o[s]); },
                         [w, s, p, from](Model* m) { m[w][p] = m[s][from]; }});
        }
      }
      ops.push_back({obj + "copy assigned", [w](std::shared_ptr<O>* o) { *o[w] = *o[1 - w]; }, [w](Model* m) { m[w] = m[1 - w]; }});
      ops.push_back({obj + "assigned to itself", [w](std::shared_ptr<O>* o) { O& x = *o[w]; *o[w] = x; }, [](Model*) {}});
      ops.push_back({obj + "copy constructed", [w](std::shared_ptr<O>* o) { o[w] = std::make_shared<O>(*o[1 - w]); }, [w](Model* m) { m[w] = m[1 - w]; }});
      ops.push_back({obj + "move constructed from a copy", [w](std::shared_ptr<O>* o) { O c(*o[1 - w]); o[w] = std::make_shared<O>(std::move(c)); }, [w](Model* m) { m[w] = m[1 - w]; }});
      ops.push_back({obj + "move assigned from a copy", [w](std::shared_ptr<O>* o) { O c(*o[1 - w]); *o[w] = std::move(c); }, [w](Model* m) { m[w] = m[1 - w]; }});
      ops.push_back({obj + "moved from and assigned", [w](std::shared_ptr<O>* o) { O c(std::move(*o[w])); *o[w] = *o[1 - w]; }, [w](Model* m) { m[w] = m[1 - w]; }});
      ops.push_back({obj + "moved there and back", [w](std::shared_ptr<O>* o) { O c(std::move(*o[w])); *o[w] = std::move(c); }, [](Model*) {}});
    }
    ops.push_back({"swapped", [](std::shared_ptr<O>* o) { std::swap(*o[0], *o[1]); }, [](Model* m) { std::swap(m[0], m[1]); }});
  }
  void Start(std::shared_ptr<O>* o, Model* m, Ctx& ctx) {
    for (int w = 0; w < 2; ++w) {
      o[w] = fresh();
      for (size_t p = 0; p < places.size(); ++p) {
        str got = places[p].get(*o[w]);
        if (places[p].fresh != "?" && got != places[p].fresh) ctx.Fail("a new object has " + places[p].name + " = " + got);
        m[w][p] = got;
      }
    }
  }
  void Compare(std::shared_ptr<O>* o, const Model* m, Ctx& ctx, const std::function<str()>& history) {
    for (int w = 0; w < 2; ++w) {
      for (size_t p = 0; p < places.size(); ++p) {
        str got = places[p].get(*o[w]);
        if (got != m[w].at(p)) return ctx.Fail(history() + ": " + (w ? "b." : "a.") + places[p].name + " is " + got.substr(0, 200) + ", not " + m[w].at(p).substr(0, 200));
      }
      for (auto& d : derived) {
        auto r = d.second(*o[w], m[w], places);
        if (r.first != r.second) return ctx.Fail(history() + ": " + (w ? "b." : "a.") + d.first + " is " + r.first.substr(0, 200) + ", not " + r.second.substr(0, 200));
      }
    }
    ctx.Trans(); ctx.Trace();
  }
  // All histories of `depth` operations; one case has all continuations of a prefix.
  static void Add(Check& c, const str& name, std::shared_ptr<World> w, int depth) {
    uint64_t n = w->ops.size(), cases = 1;
    for (int d = 1; d < depth; ++d) cases *= n;
    auto decode = [n, depth](uint64_t i) { std::vector<size_t> r; for (int d = 1; d < depth; ++d) r.push_back(size_t(Take(i, n))); return r; };
    auto text = [w](const std::vector<size_t>& h) { str s; for (auto k : h) s += (s.empty() ? "" : "; ") + w->ops[k].name; return s; };
    c.Add(name + ", histories of " + Num(depth), cases, [=](uint64_t i, Ctx& ctx) {
      auto prefix = decode(i);
      for (size_t k = 0; k < n && !ctx.failed(); ++k) {
        std::shared_ptr<O> o[2]; Model m[2];
        w->Start(o, m, ctx);
        auto h = prefix; h.push_back(k);
        for (size_t j = 0; j < h.size() && !ctx.failed(); ++j) {
          try { w->ops[h[j]].real(o); } catch (const std::exception& e) { return ctx.Fail(text(h) + ": " + e.what()); }
          w->ops[h[j]].model(m);
          if (j + 1 == h.size()) w->Compare(o, m, ctx, [&] { return text(h); });   // shorter ones are histories of their own
        }
        ++ctx.executions;
        uint64_t fp = 0; for (auto& x : m) for (auto& y : x) if (w->places[y.first].name != "uuid") fp = Hash(y.second, fp + y.first);
        ctx.State(fp);
      }
      ctx.Nontrivial(n);
    }, [=](uint64_t i) { return text(decode(i)) + "; then each of " + Num(n) + " operations"; });
  }
};

// Longer lists, also with elements added through references into the list.
template <typename O> void AddLists(Check& c, const str& name, std::shared_ptr<World<O>> w, std::vector<std::pair<size_t, std::function<void(O&)>>> again) {
  std::vector<size_t> lists; for (size_t p = 0; p < w->places.size(); ++p) if (w->places[p].list) lists.push_back(p);
  const uint64_t most = Quick() ? 70 : 300;
  c.Add(name + ", long lists", lists.size() * most, [=](uint64_t i, Ctx& ctx) {
    size_t p = lists[Take(i, lists.size())];
    auto& pl = w->places[p];
    std::shared_ptr<O> o[2]; Model m[2];
    w->Start(o, m, ctx);
    for (uint64_t k = 0; k < i; ++k) { auto& s = pl.sets[k * k % pl.sets.size()]; s.second(*o[0]); m[0][p] += s.first; }
    w->Compare(o, m, ctx, [&] { return Num(i) + " elements"; });
    *o[1] = *o[0]; m[1] = m[0];
    if (i) for (auto& a : again) if (a.first == p) { a.second(*o[0]); m[0][p] += m[0][p].substr(0, m[0][p].find(',') + 1); }
    pl.sets.back().second(*o[1]); m[1][p] += pl.sets.back().first;
    w->Compare(o, m, ctx, [&] { return Num(i) + " elements and one more"; });
    ctx.State(m[0][p]);
  }, [=](uint64_t i) { size_t p = lists[Take(i, lists.size())]; return Num(i) + " elements in " + w->places[p].name; });
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C24";
  c.level = "model_checking";
  c.rule = "Explicit-state exploration of the objects: all sequences up to a depth of setting every place to every value of an alphabet, setting places from references into the same and into the other object, adding to "
           "lists, copying, moving, swapping and self-assignment on two objects of each class; after every history every place of both objects is read back and compared with a value model in which "
           "lists and references hold identities";
  c.assumptions = {"moved-from objects are only assigned to"};
  int depth = Quick() ? 2 : 3;
  auto ew = std::make_shared<World<Entry>>(); ew->places = EntryPlaces(); ew->MakeOps(2);
  ew->derived.push_back({"HasAttachment", [](Entry& e, const Model& m, const std::vector<Place<Entry>>& ps) { return std::make_pair(str(e.HasAttachment() ? "yes" : "no"), str(At(m, ps, "attachments").empty() ? "no" : "yes")); }});
  ew->derived.push_back({"HasNonDefaultAutoTypeSettings", [](Entry& e, const Model& m, const std::vector<Place<Entry>>& ps) {
    bool d = At(m, ps, "auto_type().enabled") == "0" && At(m, ps, "auto_type().obfuscation") == "0" && At(m, ps, "auto_type().sequence") == "''" && At(m, ps, "associations").empty();
    return std::make_pair(str(e.HasNonDefaultAutoTypeSettings() ? "yes" : "no"), str(d ? "no" : "yes")); }});
  ew->derived.push_back({"IsMetaEntry", [](Entry& e, const Model& m, const std::vector<Place<Entry>>& ps) {
    bool meta = Bare(At(m, ps, "title")) == TextOf(str("Meta-Info")) && Bare(At(m, ps, "url")) == TextOf(str("$")) && Bare(At(m, ps, "username")) == TextOf(str("SYSTEM")) && Bare(At(m, ps, "notes")) != "''" && At(m, ps, "attachments").find("#0,") != str::npos;
    return std::make_pair(str(e.IsMetaEntry() ? "yes" : "no"), str(meta ? "yes" : "no")); }});
  World<Entry>::Add(c, "entry", ew, depth);
  AddLists<Entry>(c, "entry", ew, {{Index(ew->places, "attachments"), [](Entry& e) { e.AddAttachment(e.attachments()[0]); }}, {Index(ew->places, "history"), [](Entry& e) { e.AddHistoryEntry(e.history()[0]); }},
    {Index(ew->places, "associations"), [](Entry& e) { e.auto_type().AddAssociation(e.auto_type().associations()[0].window(), e.auto_type().associations()[0].sequence()); }},
    {Index(ew->places, "custom fields"), [](Entry& e) { e.AddCustomField(const_cast<str&>(e.custom_fields()[0].key()), e.custom_fields()[0].value()); }}});
  // Meta entries need several conditions at once.
  {
    auto vs = std::make_shared<std::vector<std::vector<str>>>(std::vector<std::vector<str>>{{"Meta-Info", "meta-info", "Meta-Info ", "", "Meta-Inf"}, {"$", "", "$$", " $"}, {"SYSTEM", "SYSTEM" + nul, "system", ""}, {"", "n", nul, str(5000, 'n')}});
    c.Add("meta entries", 5 * 4 * 4 * 4 * 16 * 40, [=](uint64_t i, Ctx& ctx) {
      Entry e; str t[4]; bool p[4];
      for (int k = 0; k < 4; ++k) t[k] = (*vs)[k][Take(i, (*vs)[k].size())];
      for (int k = 0; k < 4; ++k) p[k] = Take(i, 2);
      e.set_title(P(t[0], p[0])); e.set_url(P(t[1], p[1])); e.set_username(P(t[2], p[2])); e.set_notes(P(t[3], p[3]));
      // All words over the attachments up to length 3.
      bool stream = false;
      uint64_t len = i < 1 ? 0 : i < 4 ? 1 : i < 13 ? 2 : 3; i -= len == 0 ? 0 : len == 1 ? 1 : len == 2 ? 4 : 13;
      for (uint64_t k = 0; k < len; ++k) { size_t a = size_t(Take(i, 3)); stream |= a == 0; e.AddAttachment(pools().att.all[a]); }
      bool want = t[0] == "Meta-Info" && t[1] == "$" && t[2] == "SYSTEM" && !t[3].empty() && stream;
      if (e.IsMetaEntry() != want) ctx.Fail(want ? "a meta entry isn't taken for one" : "an entry is taken for a meta entry");
      Group g; auto pe = std::make_shared<Entry>(e);
      for (int before = 0; before < 3; ++before) {
        Group h; for (int k = 0; k < before; ++k) h.AddEntry(pools().entry.all[1]);
        if (h.HasNonMetaEntries()) ctx.Fail("meta entries are taken for others");
        h.AddEntry(pe);
        if (h.HasNonMetaEntries() != !want) ctx.Fail("HasNonMetaEntries is wrong after " + Num(before) + " meta entries");
        h.AddEntry(pools().entry.all[1]);
        if (h.HasNonMetaEntries() != !want) ctx.Fail("HasNonMetaEntries is wrong with a meta entry behind");
      }
      ctx.Trans(10); ctx.Trace(); ctx.State(want);
    });
  }
  auto gw = std::make_shared<World<Group>>(); gw->places = GroupPlaces(); gw->MakeOps(3);
  gw->derived.push_back({"HasNonMetaEntries", [](Group& g, const Model& m, const std::vector<Place<Group>>& ps) { str e = m.at(Index(ps, "Entries")); return std::make_pair(str(g.HasNonMetaEntries() ? "yes" : "no"), str(e.find("#0") != str::npos || e.find("#2") != str::npos ? "yes" : "no")); }});
  World<Group>::Add(c, "group", gw, depth);
  AddLists<Group>(c, "group", gw, {{Index(gw->places, "Groups"), [](Group& g) { g.AddGroup(g.Groups()[0]); }}, {Index(gw->places, "Entries"), [](Group& g) { g.AddEntry(g.Entries()[0]); }}});
  auto mw = std::make_shared<World<Metadata>>(); mw->places = MetaPlaces(); mw->MakeOps(3);
  World<Metadata>::Add(c, "metadata", mw, depth);
  AddLists<Metadata>(c, "metadata", mw, {{Index(mw->places, "binaries"), [](Metadata& g) { g.AddBinary(g.binaries()[0]); }}, {Index(mw->places, "icons"), [](Metadata& g) { g.AddIcon(g.icons()[0]); }}, {Index(mw->places, "fields"), [](Metadata& g) { g.AddField(g.fields()[0].key(), g.fields()[0].value()); }}});
  auto dw = std::make_shared<World<Database>>(); dw->places = DatabasePlaces(); dw->MakeOps(20);
  World<Database>::Add(c, "database", dw, depth);
  auto aw = std::make_shared<World<Att>>(); aw->places = AttPlaces(); aw->MakeOps(20);
  World<Att>::Add(c, "attachment", aw, 3);
  auto bw = std::make_shared<World<Binary>>(); bw->places = BinaryPlaces(); bw->fresh = [] { return std::make_shared<Binary>(P("first", true)); }; bw->MakeOps(20);
  bw->derived.push_back({"size", [](Binary& b, const Model& m, const std::vector<Place<Binary>>&) { size_t n = b.data().value().size(); return std::make_pair(Num(b.Size()) + (b.Empty() ? "e" : ""), Num(n) + (n ? "" : "e")); }});
  World<Binary>::Add(c, "attachment data", bw, 3);
  auto iw = std::make_shared<World<Icon>>(); iw->places = IconPlaces(); iw->fresh = [] {
    static int n = 0; ++n;
    auto i = std::make_shared<Icon>(Arrays<16>()[2 + n % 2], std::vector<uint8_t>{1, 2, uint8_t(n % 2)});
    if (i->uuid() != Arrays<16>()[2 + n % 2] || i->data() != std::vector<uint8_t>{1, 2, uint8_t(n % 2)}) throw std::runtime_error("a new icon isn't what it was made of");
    return i; }; iw->MakeOps(20);
  World<Icon>::Add(c, "icon", iw, 3);
  auto pw = std::make_shared<World<P>>(); pw->places = ProtectPlaces(); pw->MakeOps(20);
  for (int w = 0; w < 2; ++w) {
    pw->ops.push_back({"value and flag constructed", [w](std::shared_ptr<P>* o) { *o[w] = P(o[1 - w]->value(), true); }, [w](Model* m) { m[w][0] = m[1 - w][0]; m[w][1] = "1"; }});
  }
  pw->derived.push_back({"other readings", [](P& p, const Model&, const std::vector<Place<P>>&) { const str& s = p; return std::make_pair(TextOf(s) + TextOf(*p) + Num(p->size()), TextOf(p.value()) + TextOf(p.value()) + Num(p.value().size())); }});
  World<P>::Add(c, "protected text", pw, 3);
  auto tw = std::make_shared<World<T>>(); tw->places = TemporalPlaces(); tw->MakeOps(20);
  tw->derived.push_back({"other readings", [](T& p, const Model&, const std::vector<Place<T>>&) { const str& s = p; return std::make_pair(TextOf(s) + TextOf(*p) + Num(p->size()), TextOf(p.value()) + TextOf(p.value()) + Num(p.value().size())); }});
  World<T>::Add(c, "text with time", tw, 3);
  // References don't keep what they lead to, and are absent once it is gone; the others keep it.
  c.Add("references to objects that go away", 7 * 4, [](uint64_t i, Ctx& ctx) {
    int which = int(Take(i, 7)), how = int(i);
    auto icon = std::make_shared<Icon>(Uuid{}, std::vector<uint8_t>{1}); auto entry = std::make_shared<Entry>(); auto group = std::make_shared<Group>();
    std::weak_ptr<void> probe;
    Entry e; Group g; Metadata m;
    auto put = [&] { if (which == 0) e.set_custom_icon(icon); if (which == 1) g.set_custom_icon(icon); if (which == 2) g.set_last_visible_entry(entry); if (which == 3) m.set_last_selected_group(group);
                     if (which == 4) m.set_last_visible_group(group); if (which == 5) m.set_recycle_bin(group); if (which == 6) m.set_entry_templates(group); };
    auto get = [&]() -> std::shared_ptr<void> { switch (which) { case 0: return e.custom_icon().lock(); case 1: return g.custom_icon().lock(); case 2: return g.last_visible_entry().lock(); case 3: return m.last_selected_group().lock();
                     case 4: return m.last_visible_group().lock(); case 5: return m.recycle_bin(); default: return m.entry_templates(); } };
    probe = which < 2 ? std::weak_ptr<void>(icon) : which == 2 ? std::weak_ptr<void>(entry) : std::weak_ptr<void>(group);
    put();
    if (get() != probe.lock()) ctx.Fail("the reference doesn't lead to its object");
    if (how & 1) { Entry e2 = e; Group g2 = g; Metadata m2 = m; e = std::move(e2); g = std::move(g2); m = std::move(m2); }
    if (how & 2) put();
    icon.reset(); entry.reset(); group.reset();
    bool keeps = which >= 5;
    if (probe.expired() == keeps) ctx.Fail(keeps ? "the object is gone although it is referred to" : "the reference keeps its object");
    if ((get() != nullptr) != keeps) ctx.Fail("the reference is wrong after its object went away");
    ctx.Trans(3); ctx.Trace(); ctx.State(Num(which * 4 + how));
  });
  // Setting the value of a text with time stamps it, whatever it was.
  {
    auto ts = std::make_shared<std::vector<T>>(Temporals());
    c.Add("time stamps", ts->size() * Texts().size() * 3 * 8, [=](uint64_t i, Ctx& ctx) {
      T t = (*ts)[Take(i, ts->size())]; str s = Texts()[Take(i, Texts().size())]; int how = int(Take(i, 3));
      t.set_time(Times()[Take(i, 8)]);
      time_t before = time(nullptr);
      if (how == 0) t.Set(s); else if (how == 1) t = s; else { T u; u = t; str old = u.value(); t.Set(t.value()); s = old; }
      time_t after = time(nullptr);
      if (t.value() != s) ctx.Fail("the value isn't the one that was set");
      if (t.time() < before || t.time() > after) ctx.Fail("the time isn't the one of setting: " + SNum(t.time()));
      ctx.Trans(2); ctx.Trace(); ctx.State(s);
    });
  }
}

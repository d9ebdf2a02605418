// C17: equality of entries, groups and their parts is value equality.
#include "model.hh"

using namespace mc;
using keepass::Binary;
using keepass::Entry;
using keepass::Group;
using keepass::Icon;
using keepass::protect;

namespace {

typedef protect<str> P;
typedef Entry::Attachment Att;
typedef Entry::AutoType AutoType;
typedef AutoType::Association Assoc;
typedef Entry::Field Field;

// One place of an object with the values that it can take: no two of them are equal.
template <typename T> struct Dim { str name; std::vector<std::pair<str, std::function<void(T&)>>> values; };

// An object with its value as text: two objects are to compare equal if and only if their texts do.
template <typename T> struct Item { str key; std::function<std::shared_ptr<T>()> make; };
template <typename T> using Items = std::vector<Item<T>>;

const str nul(1, '\0');
std::vector<str> Texts(bool small) {
  if (small) return {"", "x", "y"};
  return {"", "x", "y", "X", "xy", "yx", "x ", " x", "x" + nul, "x" + nul + "a", "x" + nul + "b", nul, "\xff", "\x7f", str(15, 'x'), str(16, 'x'), str(40, 'x'), str(39, 'x') + "y", "y" + str(39, 'x'),
          str(70, 'x'), str(35, 'x') + "y" + str(34, 'x'), str(300, 'x'), str(299, 'x') + "y", str(200, 'x') + "y" + str(99, 'x'), str(5000, 'x'), str(4999, 'x') + "y", str(3000, 'x') + "y" + str(1999, 'x')};
}
str Value(const str& s) { return s.size() <= 50 ? Hex(s, 100) : Hex(s, 8) + "#" + Num(Hash(s)); }
std::vector<int64_t> Times(bool small) {
  if (small) return {1000, 1001, 999};
  return {1000, 1001, 999, 0, 1, -1, -1000, 1000 + (1ll << 32), 1000 + (1ll << 31), 1000 - (1ll << 32), 1256, 66536, 32503676399ll};
}
std::vector<uint32_t> Numbers(bool small) {
  if (small) return {5, 6, 4};
  return {5, 6, 4, 0, 1, 5 + 256, 5 + 65536, 5 + (1u << 31), 0xffffffffu, 7, 13, 21, 37, 69, 133};
}
Uuid Id(int n) { Uuid u; for (int i = 0; i < 16; ++i) u[i] = uint8_t(17 * i + 3); if (n > 0 && n <= 16) u[n - 1] ^= 1; if (n > 16 && n <= 32) u[n - 17] ^= 0x80; if (n == 33) std::swap(u[0], u[15]); return u; }

template <typename T, typename V> Dim<T> MakeDim(const str& name, const std::vector<V>& values, std::function<void(T&, const V&)> set, std::function<str(const V&)> text) {
  Dim<T> d; d.name = name;
  for (auto& v : values) d.values.push_back({text(v), [set, v](T& t) { set(t, v); }});
  return d;
}
template <typename T> Dim<T> TextDim(const str& name, bool small, std::function<void(T&, const str&)> set) { return MakeDim<T, str>(name, Texts(small), set, [](const str& s) { return Value(s); }); }
template <typename T> Dim<T> TimeDim(const str& name, bool small, std::function<void(T&, const int64_t&)> set) { return MakeDim<T, int64_t>(name, Times(small), set, [](const int64_t& t) { return SNum(t); }); }
template <typename T> Dim<T> NumDim(const str& name, bool small, std::function<void(T&, const uint32_t&)> set) { return MakeDim<T, uint32_t>(name, Numbers(small), set, [](const uint32_t& t) { return Num(t); }); }
template <typename T> Dim<T> BoolDim(const str& name, std::function<void(T&, const int&)> set) { return MakeDim<T, int>(name, {0, 1}, set, [](const int& t) { return SNum(t); }); }
template <typename T> Dim<T> IdDim(bool small) {
  std::vector<int> ids; for (int i = 0; i <= (small ? 2 : 33); ++i) ids.push_back(i);
  return MakeDim<T, int>("uuid", ids, [](T& t, const int& v) { t.set_uuid(Id(v)); }, [](const int& v) { return SNum(v); });
}
typedef std::pair<str, bool> Prot;
template <typename T> Dim<T> ProtDim(const str& name, bool small, std::function<void(T&, const P&)> set) {
  std::vector<Prot> vs; for (int p = 0; p < 2; ++p) for (auto& s : Texts(small)) vs.push_back({s, p});
  return MakeDim<T, Prot>(name, vs, [set](T& t, const Prot& v) { set(t, P(v.first, v.second)); }, [](const Prot& v) { return Value(v.first) + (v.second ? "!" : ""); });
}
// All sequences of up to `max` of the letters; each letter adds one element.
template <typename T> Dim<T> ListDim(const str& name, int letters, int max, std::function<void(T&, int)> add) {
  Dim<T> d; d.name = name;
  for (int n = 0, size = 1; n <= max; ++n, size *= letters)
    for (int w = 0; w < size; ++w) {
      std::vector<int> word; str text; for (int i = 0, r = w; i < n; ++i, r /= letters) { word.push_back(r % letters); text += char('a' + r % letters); }
      d.values.push_back({text, [word, add](T& t) { for (int l : word) add(t, l); }});
    }
  return d;
}

std::vector<std::shared_ptr<Icon>>& Icons() {
  static std::vector<std::shared_ptr<Icon>> icons;
  if (icons.empty()) for (int i = 0; i < 3; ++i) icons.push_back(std::make_shared<Icon>(Id(i == 2 ? 1 : 0), std::vector<uint8_t>{1, 2, 3}));
  return icons;
}
std::vector<std::shared_ptr<Entry>>& Seen() {
  static std::vector<std::shared_ptr<Entry>> entries;
  if (entries.empty()) for (int i = 0; i < 3; ++i) { entries.push_back(std::make_shared<Entry>()); entries.back()->set_uuid(Id(i == 2)); }
  return entries;
}
template <typename T> Dim<T> IconDim() { return MakeDim<T, int>("custom icon", {-1, 0, 1, 2}, [](T& t, const int& v) { if (v >= 0) t.set_custom_icon(Icons()[v]); }, [](const int& v) { return SNum(v); }); }

std::shared_ptr<Binary> Bin(const str& s, bool p) { return std::make_shared<Binary>(P(s, p)); }

std::vector<Dim<Att>> AttDims(bool small) {
  std::vector<Prot> vs{{"-", false}};
  for (int p = 0; p < 2; ++p) for (auto& s : Texts(small)) vs.push_back({"+" + s, p});
  return {TextDim<Att>("name", small, [](Att& a, const str& v) { a.set_name(v); }),
          MakeDim<Att, Prot>("data", vs, [](Att& a, const Prot& v) { if (v.first != "-") a.set_binary(Bin(v.first.substr(1), v.second)); }, [](const Prot& v) { return v.first == "-" ? str("none") : Value(v.first) + (v.second ? "!" : ""); })};
}
std::vector<Dim<AutoType>> AutoTypeDims(bool small) {
  return {BoolDim<AutoType>("enabled", [](AutoType& a, const int& v) { a.set_enabled(v); }),
          NumDim<AutoType>("obfuscation", small, [](AutoType& a, const uint32_t& v) { a.set_obfuscation(v); }),
          TextDim<AutoType>("sequence", small, [](AutoType& a, const str& v) { a.set_sequence(v); }),
          ListDim<AutoType>("associations", 3, small ? 1 : 3, [](AutoType& a, int l) { a.AddAssociation(l == 1 ? "y" : "x", l == 2 ? "y" : "x"); })};
}
void AddField(Entry& e, const str& k, const P& v) { str key = k; e.AddCustomField(key, v); }

std::shared_ptr<Entry> Plain(int letter) { auto e = std::make_shared<Entry>(); e->set_uuid(Id(0)); e->set_title(P(letter == 1 ? "y" : "x", letter == 2)); return e; }
std::shared_ptr<Group> PlainGroup(int letter) { auto g = std::make_shared<Group>(); g->set_uuid(Id(0)); g->set_name(letter == 1 ? "y" : "x"); if (letter == 2) g->AddGroup(PlainGroup(0)); return g; }

std::vector<Dim<Entry>> EntryDims(bool small) {
  int n = small ? 1 : 4;
  return {IdDim<Entry>(small),
          NumDim<Entry>("icon", small, [](Entry& e, const uint32_t& v) { e.set_icon(v); }),
          IconDim<Entry>(),
          ProtDim<Entry>("title", small, [](Entry& e, const P& v) { e.set_title(v); }),
          ProtDim<Entry>("url", small, [](Entry& e, const P& v) { e.set_url(v); }),
          ProtDim<Entry>("username", small, [](Entry& e, const P& v) { e.set_username(v); }),
          ProtDim<Entry>("password", small, [](Entry& e, const P& v) { e.set_password(v); }),
          ProtDim<Entry>("notes", small, [](Entry& e, const P& v) { e.set_notes(v); }),
          TextDim<Entry>("override url", small, [](Entry& e, const str& v) { e.set_override_url(v); }),
          TextDim<Entry>("tags", small, [](Entry& e, const str& v) { e.set_tags(v); }),
          TimeDim<Entry>("creation", small, [](Entry& e, const int64_t& v) { e.set_creation_time(v); }),
          TimeDim<Entry>("modification", small, [](Entry& e, const int64_t& v) { e.set_modification_time(v); }),
          TimeDim<Entry>("access", small, [](Entry& e, const int64_t& v) { e.set_access_time(v); }),
          TimeDim<Entry>("expiry", small, [](Entry& e, const int64_t& v) { e.set_expiry_time(v); }),
          TimeDim<Entry>("move", small, [](Entry& e, const int64_t& v) { e.set_move_time(v); }),
          BoolDim<Entry>("expires", [](Entry& e, const int& v) { e.set_expires(v); }),
          NumDim<Entry>("usage", small, [](Entry& e, const uint32_t& v) { e.set_usage_count(v); }),
          TextDim<Entry>("background", small, [](Entry& e, const str& v) { e.set_bg_color(v); }),
          TextDim<Entry>("foreground", small, [](Entry& e, const str& v) { e.set_fg_color(v); }),
          BoolDim<Entry>("auto-type enabled", [](Entry& e, const int& v) { e.auto_type().set_enabled(v); }),
          NumDim<Entry>("auto-type obfuscation", small, [](Entry& e, const uint32_t& v) { e.auto_type().set_obfuscation(v); }),
          TextDim<Entry>("auto-type sequence", small, [](Entry& e, const str& v) { e.auto_type().set_sequence(v); }),
          ListDim<Entry>("associations", 3, n - !small, [](Entry& e, int l) { e.auto_type().AddAssociation(l == 1 ? "y" : "x", l == 2 ? "y" : "x"); }),
          ListDim<Entry>("attachments", 5, n - 2 * !small, [](Entry& e, int l) {
            auto a = std::make_shared<Att>(); a->set_name(l == 1 ? "y" : "x"); if (l != 4) a->set_binary(Bin(l == 2 ? "y" : "x", l == 3)); e.AddAttachment(a); }),
          ListDim<Entry>("history", 2, n, [](Entry& e, int l) { e.AddHistoryEntry(Plain(l)); }),
          ListDim<Entry>("custom fields", 4, n - !small, [](Entry& e, int l) { AddField(e, l == 1 ? "y" : "x", P(l == 2 ? "y" : "x", l == 3)); })};
}
std::vector<Dim<Group>> GroupDims(bool small) {
  int n = small ? 1 : 4;
  std::vector<uint32_t> flags{0, 1, 2}; if (!small) for (int b = 2; b < 32; ++b) flags.push_back(1u << b);
  return {IdDim<Group>(small),
          NumDim<Group>("icon", small, [](Group& e, const uint32_t& v) { e.set_icon(v); }),
          IconDim<Group>(),
          TextDim<Group>("name", small, [](Group& e, const str& v) { e.set_name(v); }),
          TextDim<Group>("notes", small, [](Group& e, const str& v) { e.set_notes(v); }),
          TimeDim<Group>("creation", small, [](Group& e, const int64_t& v) { e.set_creation_time(v); }),
          TimeDim<Group>("modification", small, [](Group& e, const int64_t& v) { e.set_modification_time(v); }),
          TimeDim<Group>("access", small, [](Group& e, const int64_t& v) { e.set_access_time(v); }),
          TimeDim<Group>("expiry", small, [](Group& e, const int64_t& v) { e.set_expiry_time(v); }),
          TimeDim<Group>("move", small, [](Group& e, const int64_t& v) { e.set_move_time(v); }),
          MakeDim<Group, uint32_t>("flags", flags, [](Group& g, const uint32_t& v) { g.set_flags(v); }, [](const uint32_t& v) { return Num(v); }),
          BoolDim<Group>("expires", [](Group& e, const int& v) { e.set_expires(v); }),
          BoolDim<Group>("expanded", [](Group& e, const int& v) { e.set_expanded(v); }),
          BoolDim<Group>("auto-type", [](Group& e, const int& v) { e.set_autotype(v); }),
          BoolDim<Group>("search", [](Group& e, const int& v) { e.set_search(v); }),
          NumDim<Group>("usage", small, [](Group& e, const uint32_t& v) { e.set_usage_count(v); }),
          TextDim<Group>("sequence", small, [](Group& e, const str& v) { e.set_default_autotype_sequence(v); }),
          MakeDim<Group, int>("last visible entry", {-1, 0, 1, 2}, [](Group& t, const int& v) { if (v >= 0) t.set_last_visible_entry(Seen()[v]); }, [](const int& v) { return SNum(v); }),
          ListDim<Group>("groups", 3, n, [](Group& g, int l) { g.AddGroup(PlainGroup(l)); }),
          ListDim<Group>("entries", 3, n, [](Group& g, int l) { g.AddEntry(Plain(l)); })};
}

template <typename T> std::shared_ptr<T> New() { return std::make_shared<T>(); }
template <typename T> Item<T> MakeItem(const std::vector<Dim<T>>* dims, const std::vector<size_t>& at) {
  Item<T> it;
  for (size_t d = 0; d < dims->size(); ++d) it.key += (*dims)[d].values[at[d]].first + ";";
  it.make = [dims, at] { auto t = New<T>(); for (size_t d = 0; d < dims->size(); ++d) (*dims)[d].values[at[d]].second(*t); return t; };
  return it;
}
// All objects that deviate from the first (last == false) or the last values in at most `deviations` places.
template <typename T> Items<T> Vary(const std::vector<Dim<T>>& dims_, int deviations, bool last) {
  auto* dims = new std::vector<Dim<T>>(dims_);
  std::vector<size_t> base; for (auto& d : *dims) base.push_back(last ? d.values.size() - 1 : 0);
  Items<T> items{MakeItem(dims, base)};
  for (size_t a = 0; a < dims->size(); ++a)
    for (size_t va = 0; va < (*dims)[a].values.size(); ++va) {
      if (va == base[a]) continue;
      auto at = base; at[a] = va;
      items.push_back(MakeItem(dims, at));
      if (deviations < 2) continue;
      for (size_t b = a + 1; b < dims->size(); ++b)
        for (size_t vb = 0; vb < (*dims)[b].values.size(); ++vb)
          if (vb != base[b]) { auto at2 = at; at2[b] = vb; items.push_back(MakeItem(dims, at2)); }
    }
  return items;
}
template <typename T> Items<T> Join(std::initializer_list<Items<T>> parts) { Items<T> r; for (auto& p : parts) r.insert(r.end(), p.begin(), p.end()); return r; }

template <typename T> str Test(const T& a, const T& b, bool want) {
  bool ab = a == b, ba = b == a, nab = a != b, nba = b != a;
  if (ab != want) return want ? "objects of the same value are not equal" : "different objects are equal";
  if (ba != ab) return "equality is not symmetric";
  if (nab == ab || nba == ba) return "inequality is not the negation of equality";
  return "";
}

// One case compares one object with all of them, itself and a copy of itself included.
template <typename T> void AddAll(Check& check, const str& name, const Items<T>& items_) {
  auto* items = new Items<T>(items_);
  auto* cache = new std::vector<std::shared_ptr<T>>();
  check.Add(name, items->size(), [items, cache](uint64_t i, Ctx& ctx) {
    if (cache->empty()) for (auto& it : *items) cache->push_back(it.make());
    auto a = (*items)[i].make();
    T copy(*a);
    str e = Test(*a, *a, true);
    if (e.empty()) e = Test(*a, copy, true);
    if (!e.empty()) return ctx.Fail(e + " (one object and its copy): " + (*items)[i].key);
    uint64_t same = 0;
    for (size_t j = 0; j < items->size(); ++j) {
      bool want = (*items)[i].key == (*items)[j].key;
      same += want;
      e = Test(*a, *(*cache)[j], want);
      ctx.Trans(4);
      if (!e.empty()) return ctx.Fail(e + ": " + (*items)[i].key + " and " + (*items)[j].key);
    }
    ctx.Trace(items->size());
    ctx.Nontrivial(same);
    ctx.State((*items)[i].key);
  }, [items](uint64_t i) { return "the object with the values " + (*items)[i].key + " compared with all " + Num(items->size()); });
}

// Places an entry somewhere inside of a group.
const int kPlaces = 9;
std::shared_ptr<Group> Place(int place, std::shared_ptr<Entry> e) {
  auto root = PlainGroup(0);
  auto hist = [&](int before) { auto o = Plain(0); for (int i = 0; i < before; ++i) o->AddHistoryEntry(Plain(0)); o->AddHistoryEntry(e); return o; };
  auto sub = [&](std::shared_ptr<Group> g) { auto p = PlainGroup(0); p->AddGroup(PlainGroup(0)); p->AddGroup(g); p->AddGroup(PlainGroup(0)); return p; };
  switch (place) {
    case 0: root->AddEntry(e); break;
    case 1: root->AddEntry(Plain(0)); root->AddEntry(e); break;
    case 2: root->AddEntry(e); root->AddEntry(Plain(0)); break;
    case 3: root->AddEntry(hist(0)); break;
    case 4: root->AddEntry(hist(2)); root->AddEntry(Plain(0)); break;
    case 5: { auto h = hist(1); auto o = Plain(0); o->AddHistoryEntry(h); root->AddEntry(o); break; }
    case 6: root->AddEntry(e); root = sub(root); break;
    case 7: root->AddEntry(Plain(0)); root->AddEntry(e); root = sub(sub(sub(root))); break;
    case 8: root->AddEntry(hist(1)); root = sub(sub(root)); break;
  }
  return root;
}

}  // namespace



namespace {
// Types without a default constructor are wrapped.
struct PBox { P v{str(), false}; bool operator==(const PBox& o) const { return v == o.v; } bool operator!=(const PBox& o) const { return v != o.v; } };
struct BBox { std::shared_ptr<Binary> v = Bin("", false); BBox() {} BBox(const BBox& o) : v(std::make_shared<Binary>(*o.v)) {} bool operator==(const BBox& o) const { return *v == *o.v; } bool operator!=(const BBox& o) const { return *v != *o.v; } };
struct ABox { str w, s; bool operator==(const ABox& o) const { return Assoc(w, s) == Assoc(o.w, o.s); } bool operator!=(const ABox& o) const { return Assoc(w, s) != Assoc(o.w, o.s); } };
struct FBox { str k; P v{str(), false}; bool operator==(const FBox& o) const { return Field(k, v) == Field(o.k, o.v); } bool operator!=(const FBox& o) const { return Field(k, v) != Field(o.k, o.v); } };
// Icons with one identifier: their images decide. With different identifiers only the laws of an equivalence are checked.
struct IBox { str v; int id = 0; Icon Make() const { return Icon(Id(id), std::vector<uint8_t>(v.begin(), v.end())); } bool operator==(const IBox& o) const { return Make() == o.Make(); } bool operator!=(const IBox& o) const { return Make() != o.Make(); } };
}  // namespace

void mc::Register(Check& check) {
  check.property = "C17";
  check.level = "model_checking";
  check.rule = "an object model with one dimension per field (every field of the objects, lists as all sequences up to a length) is enumerated completely up to two deviations from two base objects; each object is built anew and compared with every other one, with itself and with a copy of itself by all four of ==, != in both orders; the comparison is right if it agrees with equality of the model values for all pairs, from which reflexivity, symmetry and transitivity follow; memory errors are caught by AddressSanitizer";
  check.assumptions = {"pointers in lists are not null", "references are alive", "the compression flag of attachment data is no part of its value"};
  bool q = Quick();

  AddAll<PBox>(check, "protected text", Vary<PBox>({ProtDim<PBox>("value", false, [](PBox& b, const P& v) { b.v = v; })}, 1, false));
  AddAll<BBox>(check, "attachment data", Vary<BBox>({ProtDim<BBox>("value", false, [](BBox& b, const P& v) { b.v = std::make_shared<Binary>(v); })}, 1, false));
  AddAll<IBox>(check, "icon", Vary<IBox>({TextDim<IBox>("image", false, [](IBox& b, const str& v) { b.v = v; })}, 1, false));
  check.Add("icons with identifiers", 34 * 34, [](uint64_t i, Ctx& ctx) {
    static const std::vector<str> images = {str(), "a", "b", "ab", "ba", str(1, '\0'), str(2, '\0'), "a" + str(1, '\0'), str(300, 'a'), str(300, 'a') + "b"};
    IBox a, b, c; a.id = int(Take(i, 34)); b.id = int(i); c.id = (a.id + b.id) % 34;
    for (auto& x : images) for (auto& y : images) {
      a.v = x; b.v = y; c.v = x;
      bool ab = a == b;
      str e = Test(a, b, ab);
      if (e.empty() && ab && x != y) e = "icons with different images are equal";
      if (e.empty() && !ab && x == y && a.id == b.id) e = "icons of the same value are not equal";
      if (e.empty() && ab && (b == c) != (a == c)) e = "equality is not transitive";
      ctx.Trans(4);
      if (!e.empty()) return ctx.Fail(e + ": icons " + SNum(a.id) + " " + Hex(x, 20) + " and " + SNum(b.id) + " " + Hex(y, 20));
    }
    ctx.Trace(images.size() * images.size()); ctx.Nontrivial(); ctx.State("icons" + SNum(a.id) + "," + SNum(b.id));
  }, [](uint64_t i) { int a = int(Take(i, 34)); return "icons with the identifiers " + SNum(a) + " and " + Num(i); });
  AddAll<ABox>(check, "association", Vary<ABox>({TextDim<ABox>("window", false, [](ABox& a, const str& v) { a.w = v; }), TextDim<ABox>("sequence", false, [](ABox& a, const str& v) { a.s = v; })}, 2, false));
  AddAll<FBox>(check, "field", Vary<FBox>({TextDim<FBox>("key", false, [](FBox& a, const str& v) { a.k = v; }), ProtDim<FBox>("value", false, [](FBox& a, const P& v) { a.v = v; })}, 2, false));
  AddAll<Att>(check, "attachment", Vary(AttDims(false), 2, false));
  AddAll<AutoType>(check, "auto-type", Join<AutoType>({Vary(AutoTypeDims(false), 2, false), Vary(AutoTypeDims(false), 1, true)}));
  AddAll<Entry>(check, "entry", Join<Entry>({Vary(EntryDims(false), 1, false), Vary(EntryDims(false), 1, true)}));
  AddAll<Group>(check, "group", Join<Group>({Vary(GroupDims(false), 1, false), Vary(GroupDims(false), 1, true)}));
  AddAll<Group>(check, "group pairs", Join<Group>({Vary(GroupDims(true), 2, false), Vary(GroupDims(true), q ? 1 : 2, true)}));
  AddAll<Entry>(check, "entry pairs", Join<Entry>({Vary(EntryDims(true), 2, false), Vary(EntryDims(true), q ? 1 : 2, true)}));

  // Differences anywhere below.
  auto* single = new Items<Entry>(Vary(EntryDims(false), 1, false));
  auto* one = new std::vector<std::shared_ptr<Group>>();
  check.Add("nested", kPlaces * single->size(), [single, one](uint64_t i, Ctx& ctx) {
    int place = int(i / single->size()); size_t k = i % single->size();
    auto a = Place(place, (*single)[k].make());
    if (one->empty()) for (int p = 0; p < kPlaces; ++p) for (size_t j = 0; j < single->size(); ++j) one->push_back(nullptr);
    for (size_t j = 0; j < single->size(); ++j) {
      auto& b = (*one)[place * single->size() + j];
      if (!b) b = Place(place, (*single)[j].make());
      str e = Test(*a, *b, (*single)[k].key == (*single)[j].key);
      ctx.Trans(4);
      if (!e.empty()) return ctx.Fail(e + " at place " + SNum(place) + ": " + (*single)[k].key + " and " + (*single)[j].key);
    }
    ctx.Trace(single->size()); ctx.Nontrivial(); ctx.State(SNum(place) + (*single)[k].key);
  }, [single](uint64_t i) { return "an entry at place " + Num(i / single->size()) + " of a group with the values " + (*single)[i % single->size()].key; });

  // All trees, with an entry in none or one of the groups.
  Items<Group> trees;
  for (int n = 0; n <= (q ? 5 : 6); ++n)
    for (auto& f : Forests(n))
      for (int where = -1; where <= n; ++where) {
        Item<Group> it;
        for (int d : f) it.key += SNum(d) + ",";
        it.key += "e" + SNum(where);
        it.make = [f, where] {
          auto root = PlainGroup(0);
          std::vector<std::shared_ptr<Group>> path{root}, all{root};
          for (int d : f) { path.resize(d + 1); auto g = PlainGroup(0); path.back()->AddGroup(g); path.push_back(g); all.push_back(g); }
          if (where >= 0) all[where]->AddEntry(Plain(0));
          return root;
        };
        trees.push_back(it);
      }
  AddAll<Group>(check, "trees", trees);

  // Databases that are imported twice from one file.
  auto* slots = new std::vector<Slot>(KdbxSlots(Alphabet::kSmall));
  auto* cases = new std::vector<std::pair<size_t, size_t>>();
  for (size_t s = 0; s < slots->size(); ++s) for (size_t v = 0; v < (*slots)[s].values.size(); ++v) cases->push_back({s, v});
  check.Add("imported twice", cases->size(), [slots, cases](uint64_t i, Ctx& ctx) {
    MDb m = RichDb();
    (*slots)[(*cases)[i].first].values[(*cases)[i].second].second(m);
    std::vector<MEntry*> es; AllEntries(m.root, es, true);
    for (MEntry* e : es) e->custom_icon = -1;           // compared by identity
    for (MGroup* g : Preorder(m.root)) g->custom_icon = g->last_visible = -1;
    if (!KdbxValid(m)) return;
    keepass::Key key("k");
    str path = scratch + "/d";
    Built b = Build(m);
    if (!ExportKdbx(path, *b.db, key).ok) return;
    Outcome x = ImportKdbx(path, key), y = ImportKdbx(path, key);
    if (!x.ok || !y.ok) return;
    str e = Test(*x.db->root(), *y.db->root(), true);
    ctx.Trans(4); ctx.Trace(); ctx.Nontrivial(); ctx.State(Fingerprint(FlattenTree(Extract(*x.db))));
    if (!e.empty()) ctx.Fail(e + " (imported twice from one file)");
  }, [slots, cases](uint64_t i) { return "slot " + (*slots)[(*cases)[i].first].name + " = " + (*slots)[(*cases)[i].first].values[(*cases)[i].second].first; });
}

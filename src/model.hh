// Plain value model of a database, with conversions from and to the library's objects.
#pragma once
#include <array>
#include <cstdint>
#include <ctime>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "database.hh"
#include "entry.hh"
#include "group.hh"
#include "icon.hh"
#include "key.hh"
#include "metadata.hh"
#include "mc.hh"

namespace mc {

typedef std::array<uint8_t, 16> Uuid;

// MGroup::last_visible of an entry of another group: kElsewhere + its index among all entries in preorder.
const int kElsewhere = 10000;

struct MStr { str v; bool p = false; MStr() {} MStr(const str& v_, bool p_ = false) : v(v_), p(p_) {} MStr(const char* s) : v(s) {} };
struct MBin { str data; bool prot = false; bool compress = false; };
struct MIcon { Uuid uuid{}; str data; };
struct MField { str key; MStr value; };
struct MAtt { str name; int bin = -1; };           // index into MDb::bins, -1: no data object
struct MAssoc { str window, sequence; };

struct MEntry {
  Uuid uuid{};
  uint32_t icon = 0;
  int custom_icon = -1;
  MStr title, url, username, password, notes;
  str override_url, tags, bg, fg;
  int64_t t_creation = 0, t_mod = 0, t_access = 0, t_expiry = 0, t_move = 0;
  bool expires = false;
  uint32_t usage = 0;
  bool at_enabled = false;
  uint32_t at_obf = 0;
  str at_sequence;
  std::vector<MAssoc> assocs;
  std::vector<MAtt> atts;
  std::vector<MEntry> history;
  std::vector<MField> fields;
};

struct MGroup {
  Uuid uuid{};
  uint32_t icon = 0;
  int custom_icon = -1;
  str name, notes;
  int64_t t_creation = 0, t_mod = 0, t_access = 0, t_expiry = 0, t_move = 0;
  uint32_t flags = 0;
  bool expires = false, expanded = false, autotype = false, search = false;
  uint32_t usage = 0;
  str sequence;
  int last_visible = -1;                            // index into entries
  std::vector<MGroup> groups;
  std::vector<MEntry> entries;
};

struct MTemporal { str v; int64_t t = 0; };

struct MMeta {
  str generator;
  MTemporal name, desc, user;
  uint32_t hist_days = 365;
  str color;
  int64_t key_changed = 0, key_rec = -1, key_force = -1;
  bool p_title = false, p_user = false, p_password = true, p_url = false, p_notes = false;
  int recycle_bin = -1;                             // preorder index of a group, root is 0
  int64_t recycle_changed = 0;
  int templates = -1;
  int64_t templates_changed = 0;
  int32_t hist_items = -1;
  int64_t hist_size = -1;
  int last_selected = -1, last_visible = -1;
  std::vector<std::pair<str, str>> fields;
};

struct MDb {
  bool twofish = false;
  str master_seed;
  Uuid iv{};
  std::array<uint8_t, 32> tseed{}, isk{};
  uint64_t rounds = 1;
  bool compress = false;
  bool has_meta = true;
  MMeta meta;
  MGroup root;
  std::vector<MBin> bins;                           // all attachment data objects
  int pooled = 0;                                   // the first `pooled` are in the metadata's pool
  std::vector<MIcon> icons;
};

struct Built {
  std::shared_ptr<keepass::Database> db;
  std::vector<std::shared_ptr<keepass::Binary>> bins;
  std::vector<std::shared_ptr<keepass::Icon>> icons;
  std::vector<std::shared_ptr<keepass::Group>> groups;   // preorder
};

Built Build(const MDb& m);
// Reads every field through the public interface. Objects are identified by address: indices of
// -2 stand for objects that are not part of the database.
MDb Extract(const keepass::Database& db);

typedef std::vector<std::pair<str, str>> Flat;
Flat Flatten(const MDb& m, bool header = true);
Flat FlattenTree(const MDb& m);                      // groups and entries only
// Empty if equal, otherwise the first differences.
str Diff(const Flat& expected, const Flat& got);
uint64_t Fingerprint(const Flat& f);

// What the formats keep of a model.
MDb ExpectKdbx(const MDb& m);
MDb ExpectKdb(const MDb& m);
bool KdbRepresentable(const MDb& m);
// Whether a (mutated) model is a database that KDBX can hold: unique group identifiers, icons in the pool.
bool KdbxValid(const MDb& m);

// Outcome of an operation that may throw.
struct Outcome {
  bool ok = false;
  str kind;        // exception class
  str what;
  std::unique_ptr<keepass::Database> db;
};
Outcome ImportKdbx(const str& path, const keepass::Key& key);
Outcome ImportKdb(const str& path, const keepass::Key& key);
Outcome ExportKdbx(const str& path, const keepass::Database& db, const keepass::Key& key);
Outcome ExportKdb(const str& path, const keepass::Database& db, const keepass::Key& key);
Outcome Attempt(std::function<void()> f);

// Standard databases.
Uuid MakeUuid(int n);
int64_t kT(int n);                                   // distinct plain times
MDb SmallDb();
MDb RichDb();                                        // every field set to a distinctive value
MDb RichKdb();                                       // the same within KDB
// All ordered forests with n nodes, as preorder depth sequences.
std::vector<std::vector<int>> Forests(int n);
// Builds the children of `root` from a depth sequence; names are g0, g1 ...
void SetForest(MGroup& root, const std::vector<int>& depths);
std::vector<MGroup*> Preorder(MGroup& root);         // including root
void AllEntries(MGroup& g, std::vector<MEntry*>& out, bool history = false);

// A named place in a database with the values to put there.
// `plain` values come from the alphabets, the ones after them from the sources under test.
struct Slot { str name; std::vector<std::pair<str, std::function<void(MDb&)>>> values; size_t plain = 0; };
const std::vector<str>& SourceWords();                     // string and character literals
std::vector<uint64_t> SourceNumbers(uint64_t max);         // integer literals, one less, one more and twice
bool ReservedField(const str& key);                        // a custom field can't have the name of a field that KDBX has itself
// kinds: text alphabets by size
enum class Alphabet { kFull, kMedium, kSmall };
std::vector<Slot> KdbxSlots(Alphabet a);
std::vector<Slot> KdbSlots(Alphabet a);
std::vector<std::pair<str, str>> TextAlphabet(Alphabet a, bool allow_nul, bool edge_space);

}  // namespace mc

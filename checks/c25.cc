// C25: results do not depend on the state of the process.
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <locale>
#include <sstream>

#include "base64.hh"
#include "deviate.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "ref.hh"
#include "stream.hh"

using namespace mc;

namespace {

// --- Locales as there are for many languages, made here because few may be installed.
struct Punct : std::numpunct<char> {
  char point, sep; str groups, yes, no;
  Punct(char point, char sep, str groups, str yes, str no) : point(point), sep(sep), groups(groups), yes(yes), no(no) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return sep; }
  str do_grouping() const override { return groups; }
  str do_truename() const override { return yes; }
  str do_falsename() const override { return no; }
};
// ISO-8859-1: letters above 0xc0, the no-break space.
const std::ctype_base::mask* Latin1() {
  static std::ctype_base::mask table[256]; static bool made = false;
  if (!made) {
    std::copy(std::ctype<char>::classic_table(), std::ctype<char>::classic_table() + 256, table);
    for (int c : {0x85, 0xa0}) table[c] = std::ctype_base::space;
    for (int c = 0xa1; c < 0xc0; ++c) table[c] = std::ctype_base::punct | std::ctype_base::print;
    for (int c = 0xc0; c < 0x100; ++c) table[c] = std::ctype_base::alpha | std::ctype_base::print | (c < 0xe0 ? std::ctype_base::upper : std::ctype_base::lower);
    made = true;
  }
  return table;
}
struct Letters : std::ctype<char> {
  Letters() : std::ctype<char>(Latin1()) {}
  char do_toupper(char c) const override { return (unsigned char)c >= 0xe0 ? char(c - 32) : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { return (unsigned char)c >= 0xc0 && (unsigned char)c < 0xe0 ? char(c + 32) : std::ctype<char>::do_tolower(c); }
};

std::vector<std::pair<str, std::locale>> locales;
void MakeLocales() {
  std::locale c = std::locale::classic();
  auto punct = [&](char p, char s, str g, str y, str n) { return std::locale(c, new Punct(p, s, g, y, n)); };
  locales.push_back({"classic", c});
  locales.push_back({"1,234.5", punct('.', ',', "\3", "true", "false")});
  locales.push_back({"1.234,5", punct(',', '.', "\3", "wahr", "falsch")});
  locales.push_back({"1 234,5", punct(',', ' ', "\3", "vrai", "faux")});
  locales.push_back({"1\xa0" "234,5", punct(',', '\xa0', "\3", "\xe9\xe9", "")});
  locales.push_back({"1'234.5", punct('.', '\'', "\3", "1", "0")});
  locales.push_back({"12,34,567.5", punct('.', ',', "\3\2", "yes", "no")});
  locales.push_back({"1,2,3", punct('.', ',', "\1", "0", "1")});
  locales.push_back({"ISO-8859-1", std::locale(c, new Letters)});
  locales.push_back({"ISO-8859-1 and 1.234,5", std::locale(punct(',', '.', "\3", "wahr", "falsch"), new Letters)});
  for (const char* n : {"C.utf8", "C.UTF-8"}) { try { locales.push_back({n, std::locale(n)}); locales.push_back({str(n) + " and 1.234,5", std::locale(std::locale(n), new Punct(',', '.', "\3", "wahr", "falsch"))}); break; } catch (const std::exception&) {} }
}
const char* const kCLocale[] = {"C", "C.utf8"};
const int kRound[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};

struct Env {
  int locale = 0, clocale = 0, err = 0, round = 0, mask = 022, fds = 0, vars = 0;
  str Text() const {
    str s;
    auto add = [&](const str& x) { s += (s.empty() ? "" : ", ") + x; };
    if (locale) add("C++ locale " + locales[size_t(locale)].first);
    if (clocale) add(str("C locale ") + kCLocale[clocale]);
    if (err) add("errno " + Num(uint64_t(err)));
    if (round) add("rounding mode " + Num(uint64_t(round)));
    if (mask != 022) { char b[16]; snprintf(b, sizeof b, "umask %03o", mask); add(b); }
    if (fds) add(str("closed:") + (fds & 1 ? " stdin" : "") + (fds & 2 ? " stdout" : "") + (fds & 4 ? " stderr" : ""));
    if (vars) add("environment variables " + Num(uint64_t(vars)));
    return s.empty() ? "nothing special" : s;
  }
};

// --- Paths
const char* const kFormName[] = {"absolute", "relative", "./", "up and down", "spaces and quotes", "UTF-8", "not UTF-8", "control characters", "formats", "255 characters", "4000 characters", "symbolic link", "in a linked directory", "hard link", "hidden", "a minus", "double slashes", "no extension", "the other extension", "wild cards", "a tilde", "a drive"};
const int kForms = 22;
bool Relative(int form) { return form == 1 || form == 2 || form == 3 || form == 15 || form == 20; }
// The path for a file in the directory; makes links. `dir` is absolute.
str PathOf(const str& dir, int form) {
  switch (form) {
    case 1: return "file.db";
    case 2: return "./file.db";
    case 3: mkdir((dir + "/sub").c_str(), 0755); return "sub/../file.db";
    case 4: return dir + "/a file's \"name\" ";
    case 5: return dir + "/\xd1\x84\xd0\xb0\xd0\xb9\xd0\xbb\xe6\xaa\x94";
    case 6: return dir + "/\xff\xfe\xc3(";
    case 7: return dir + "/a\nb\tc\x01" "d\x7f\\n";
    case 8: return dir + "/%s%n%d%x$1";
    case 9: return dir + "/" + str(255, 'n');
    case 10: { str s = dir; while (s.size() < 4000) s += "/."; return s + "/file.db"; }
    case 11: unlink((dir + "/link").c_str()); if (symlink("file.db", (dir + "/link").c_str())) {} return dir + "/link";
    case 12: mkdir((dir + "/sub").c_str(), 0755); if (symlink("sub", (dir + "/linked").c_str())) {} return dir + "/linked/file.db";
    case 13: { str a = dir + "/first", b = dir + "/second"; unlink(a.c_str()); unlink(b.c_str()); WriteFile(a, "x"); if (link(a.c_str(), b.c_str())) {} return b; }
    case 14: return dir + "/.kdbx";
    case 15: return "-";
    case 16: return dir + "//.//file.db";
    case 17: return dir + "/file";
    case 18: return dir + "/file.kdb.kdbx.kdb";
    case 19: return dir + "/*?[a-z]{1,2}";
    case 20: return "~";
    case 21: return dir + "/C:\\file.db";
    default: return dir + "/file.db";
  }
}

// --- Operations: run() works in the state, the function it returns judges afterwards; an exception is judged by its kind.
struct Op {
  str name;
  str file;                                                    // what is to be read, if anything
  std::function<std::function<str()>(const str& path)> run;    // the text that describes the result
  bool paths = false;
  str plain;                                                   // the result under nothing special
};
std::vector<std::shared_ptr<Op>> ops;

Flat Norm(MDb d, bool kdbx) { if (!kdbx) for (auto g : Preorder(d.root)) g->uuid = Uuid(); return Flatten(d); }
str Text(const Flat& f) { str s; for (auto& p : f) s += p.first + "=" + p.second + "\n"; return s; }

void AddOp(const str& name, const str& file, bool paths, std::function<std::function<str()>(const str&)> run) {
  auto op = std::make_shared<Op>(); op->name = name; op->file = file; op->paths = paths; op->run = run; ops.push_back(op);
}

void AddImport(const str& name, bool kdbx, const MDb& m, ref::KeySpec ks = ref::KeySpec()) {
  auto key = std::make_shared<keepass::Key>(ref::LibKey(ks));
  auto want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx));
  AddOp("import of " + name, kdbx ? ref::EncodeKdbx(m, ref::KeySpec()) : ref::EncodeKdb(m, ref::KeySpec()), true, [=](const str& path) -> std::function<str()> {
    std::shared_ptr<keepass::Database> db;
    if (kdbx) db = keepass::KdbxFile().Import(path, *key); else db = keepass::KdbFile().Import(path, *key);
    return [=] { str e = Diff(*want, Norm(Extract(*db), kdbx)); return e.empty() ? str("right") : "another database: " + e; };
  });
}
void AddExport(const str& name, bool kdbx, const MDb& m) {
  auto key = std::make_shared<keepass::Key>(ref::LibKey(ref::KeySpec()));
  auto built = std::make_shared<Built>(Build(m));
  auto want = std::make_shared<Flat>(Norm(kdbx ? ExpectKdbx(m) : ExpectKdb(m), kdbx));
  AddOp("export of " + name, "", true, [=](const str& path) -> std::function<str()> {
    if (kdbx) keepass::KdbxFile().Export(path, *built->db, *key); else keepass::KdbFile().Export(path, *built->db, *key);
    // The directory may be another one when the file is judged.
    char cwd[4096]; str full = path[0] == '/' || !getcwd(cwd, sizeof cwd) ? path : str(cwd) + "/" + path;
    return [=] {
      MDb got; str e = kdbx ? ref::DecodeKdbx(ReadFile(full), ref::KeySpec(), &got) : ref::DecodeKdb(ReadFile(full), ref::KeySpec(), &got);
      if (!e.empty()) return "another file: " + e;
      e = Diff(*want, Norm(got, kdbx)); return e.empty() ? str("right") : "another file: " + e;
    };
  });
}
void AddJson(const str& name, const MDb& m) {
  auto built = std::make_shared<Built>(Build(m));
  AddOp("JSON of " + name, "", false, [=](const str&) -> std::function<str()> {
    str s = built->db->root()->ToJson();
    return [=] { return s; };
  });
}
void AddKeyFile(const str& name, const str& file) {
  AddOp("key file " + name, file, true, [=](const str& path) -> std::function<str()> {
    auto k = std::make_shared<keepass::Key>("pw");
    k->SetKeyFile(path);
    std::array<uint8_t, 32> seed; seed.fill(7); auto r = k->Transform(seed, 1234, keepass::Key::SubKeyResolution::kHashSubKeys);
    return [=] { return Hex(str((const char*)r.data(), 32)); };
  });
}
void AddDecode(const str& name, const str& text) {
  AddOp("base64 of " + name, "", false, [=](const str&) -> std::function<str()> {
    str s = keepass::base64_decode(text);
    return [=] { return Hex(s, 1000); };
  });
}

const char* const kVars[][2] = {{"LC_ALL", "de_DE.ISO-8859-1"}, {"LANG", "tr_TR.UTF-8"}, {"LC_NUMERIC", "de_DE"}, {"HOME", "/nowhere"}, {"TMPDIR", "/nowhere"}, {"TMP", "/nowhere"}, {"TEMP", "/nowhere"}, {"PATH", ""}, {"USER", ""}, {"POSIXLY_CORRECT", "1"}, {"DATEMSK", "/nowhere"}, {"LANGUAGE", "de"}, {"OPENSSL_CONF", "/nowhere"}, {"PWD", "/nowhere"}};

str dir;

// Runs the operation in the state and compares.
void Test(const Op& op, const Env& env, int form, Ctx& ctx) {
  if (dir.empty()) { dir = scratch + "/d"; mkdir(dir.c_str(), 0755); }
  // What state was left by the one before is gone.
  str path = PathOf(dir, form);
  if (Relative(form)) { if (chdir(dir.c_str())) { ctx.Fail("harness: chdir"); return; } }
  if (!op.file.empty()) { if (form == 13) { FILE* f = fopen((dir + "/first").c_str(), "r+"); if (f) { fwrite(op.file.data(), 1, op.file.size(), f); fclose(f); } } else WriteFile(path, op.file); }
  else if (op.paths) WriteFile(path, "old contents that are there before");
  if (op.paths && op.file.empty() && form != 11 && form != 13 && (env.mask & 1)) unlink(path.c_str());       // sometimes the file is a new one

  // Into the state.
  int saved[3] = {-1, -1, -1};
  const char* tz = getenv("TZ"); str zone = tz ? tz : "";
  std::vector<std::pair<str, str>> old_vars;
  if (env.vars) for (auto& v : kVars) { const char* o = getenv(v[0]); old_vars.push_back({v[0], o ? o : "\1"}); if (env.vars == 1) unsetenv(v[0]); else setenv(v[0], v[1], 1); }
  setlocale(LC_ALL, kCLocale[env.clocale]);
  std::locale::global(locales[size_t(env.locale)].second);
  if (env.locale) setlocale(LC_ALL, kCLocale[env.clocale]);
  for (int fd = 0; fd < 3; ++fd) if (env.fds >> fd & 1) { saved[fd] = fcntl(fd, F_DUPFD_CLOEXEC, 200); close(fd); }
  mode_t mask = umask(mode_t(env.mask));
  fesetround(kRound[env.round]);
  str before_c = setlocale(LC_ALL, nullptr);
  char cwd0[4096], cwd1[4096]; cwd0[0] = cwd1[0] = 0; if (!getcwd(cwd0, sizeof cwd0)) {}
  std::function<str()> judge; str got; bool other = false;
  errno = env.err;
  try { judge = op.run(path); } catch (const std::exception& e) { int st; (void)st; got = str("throws ") + typeid(e).name(); } catch (...) { other = true; }
  // And out of it; it has to be as it was.
  str left;
  int round1 = fegetround(); fesetround(FE_TONEAREST);
  if (round1 != kRound[env.round]) left += "the rounding mode, ";
  mode_t mask1 = umask(mask); if (mask1 != mode_t(env.mask)) left += "the file mode mask, ";
  for (int fd = 0; fd < 3; ++fd) if (env.fds >> fd & 1) { if (fcntl(fd, F_GETFD) != -1) left += "descriptor " + Num(uint64_t(fd)) + ", "; dup2(saved[fd], fd); close(saved[fd]); }
  if (before_c != setlocale(LC_ALL, nullptr)) left += "the C locale, ";
  if (std::locale() != locales[size_t(env.locale)].second) left += "the C++ locale, ";
  std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C");
  const char* tz1 = getenv("TZ"); if (zone != (tz1 ? tz1 : "")) left += "TZ, ";
  if (!getcwd(cwd1, sizeof cwd1)) {} if (strcmp(cwd0, cwd1)) left += "the working directory, ";
  if (Relative(form)) { str f = dir + "/" + path; if (judge) got = judge(); judge = nullptr; unlink(f.c_str()); if (chdir("/")) {} }
  for (auto& v : old_vars) if (v.second == "\1") unsetenv(v.first.c_str()); else setenv(v.first.c_str(), v.second.c_str(), 1);
  if (judge) got = judge();
  if (op.paths) unlink(path.c_str());
  ctx.Trans(); ctx.Trace(); ctx.State(op.name + got); ctx.Nontrivial(true);
  if (other) { ctx.Fail("something else than an exception is thrown"); return; }
  if (got != op.plain) { ctx.Fail("the result is " + Quote(got, 200) + " instead of " + Quote(op.plain, 200)); return; }
  if (!left.empty()) ctx.Fail("the operation changes " + left.substr(0, left.size() - 2));
}

MDb Numbers(MDb m, bool kdbx) {
  m.rounds = 1543;
  uint32_t n = 1234567;
  for (auto g : Preorder(m.root)) { if (g != &m.root || kdbx) { g->icon = n += 1111; } if (!kdbx && g != &m.root) g->flags = uint16_t(n); for (auto& e : g->entries) e.icon = n += 1111; }
  if (kdbx) { m.meta.hist_days = 123456; m.meta.hist_items = 1234567; m.meta.hist_size = 12345678901; }
  return m;
}
MDb Bytes(MDb m) { str s; for (int c = 0x7f; c < 0x100; ++c) s += char(c); MGroup* g = Preorder(m.root).back(); g->name = "\xa0" + s; for (auto x : Preorder(m.root)) for (auto& e : x->entries) { e.title.v = s + "\xa0"; e.notes.v = "\xa0\x85"; } return m; }

}  // namespace

void mc::Register(Check& c) {
  c.property = "C25";
  c.level = "model_checking";
  c.rule = "Every operation of a set is run in every state of the process of a set: global C++ locales x C locales, every errno, every file mode mask, rounding modes, closed standard descriptors, environment variables, forms of paths, and products of these; the result must be the one under nothing special, and the state must be left as it was";
  c.assumptions = {"locales are made of the standard facets that are likely to differ (numbers, character classes)"};
  MakeLocales();
  MDb small = SmallDb(), kdb = small; kdb.root.entries.clear();
  MDb rich = RichDb(); rich.twofish = false; rich.rounds = 1; MDb richkdb = RichKdb(); richkdb.rounds = 1;
  MDb numbers = Numbers(rich, true), numbers_kdb = Numbers(richkdb, false);
  MDb packed = Bytes(small); packed.compress = true;
  // Numbers of four digits as identifiers of attachments.
  MDb many = small; many.bins.clear(); many.pooled = 0;
  { std::vector<MEntry*> es; for (auto g : Preorder(many.root)) AllEntries(*g, es, true); for (auto e : es) e->atts.clear(); for (int i = 0; i < 1003; ++i) { MBin b; b.data = "data " + Num(uint64_t(i)); many.bins.push_back(b); MAtt a; a.name = "a" + Num(uint64_t(i)); a.bin = i; es[0]->atts.push_back(a); } many.pooled = 1003; }
  AddImport("a KDB file", false, kdb);
  AddImport("a KDB file with large numbers", false, numbers_kdb);
  AddImport("a KDB file with other bytes", false, Bytes(kdb));
  AddImport("a KDBX file", true, small);
  AddImport("a KDBX file with large numbers", true, numbers);
  AddImport("a compressed KDBX file with other bytes", true, packed);
  AddImport("a KDBX file with many attachments", true, many);
  ref::KeySpec wrong; wrong.pw = "wrong";
  AddImport("a KDB file with a wrong key", false, kdb, wrong);
  AddImport("a KDBX file with a wrong key", true, small, wrong);
  AddExport("a KDB file", false, kdb);
  AddExport("a KDB file with large numbers", false, numbers_kdb);
  AddExport("a KDB file with other bytes", false, Bytes(kdb));
  AddExport("a KDBX file", true, small);
  AddExport("a KDBX file with large numbers", true, numbers);
  AddExport("a compressed KDBX file with other bytes", true, packed);
  AddExport("a KDBX file with many attachments", true, many);
  MDb refused = kdb; refused.master_seed = "short"; 
  AddExport("a KDB file that is refused", false, refused);
  for (bool kdbx : {false, true}) AddOp(kdbx ? "import of a missing KDBX file" : "import of a missing KDB file", "", false, [=](const str&) -> std::function<str()> {
    keepass::Key k("x"); if (kdbx) keepass::KdbxFile().Import("/nowhere/file", k); else keepass::KdbFile().Import("/nowhere/file", k);
    return [] { return str("a database"); };
  });
  AddJson("a database", small);
  AddJson("large numbers", numbers);
  AddJson("other bytes", Bytes(small));
  AddJson("large numbers of KDB", numbers_kdb);
  AddJson("all fields", rich);
  str ka; for (int i = 0; i < 32; ++i) ka += char(i * 7 + 1);
  str hex; for (unsigned char ch : ka) { hex += "0123456789abcdef"[ch >> 4]; hex += "0123456789ABCDEF"[ch & 15]; }
  AddKeyFile("of digits", hex);
  AddKeyFile("of XML", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>" + ref::Base64(ka) + "</Data></Key></KeyFile>");
  AddKeyFile("of XML with white space", "<KeyFile><Key><Data>\n\t" + ref::Base64(ka).substr(0, 20) + " \r\n\v\f" + ref::Base64(ka).substr(20) + "</Data></Key></KeyFile>");
  AddKeyFile("of XML with a no-break space", "<KeyFile><Key><Data>" + ref::Base64(ka).substr(0, 20) + "\xa0" + ref::Base64(ka).substr(20) + "</Data></Key></KeyFile>");
  AddKeyFile("with a letter", hex.substr(0, 31) + "\xe4" + hex.substr(32));
  AddKeyFile("with a separator", hex.substr(0, 31) + "," + hex.substr(32));
  AddKeyFile("with a space", hex.substr(0, 30) + " 1" + hex.substr(32));
  AddKeyFile("with a no-break space", hex.substr(0, 30) + "\xa0" "1" + hex.substr(32));
  AddDecode("white space", "QUJD RE\nVG\tR0\rhJ\vSg\f==");
  AddDecode("a no-break space", "QUJD\xa0REVG");
  AddDecode("a next line", "QUJD\x85REVG");
  AddDecode("a letter", "QUJ\xe4");
  AddOp("equality", "", false, [=](const str&) -> std::function<str()> {
    static const auto a = std::make_shared<Built>(Build(numbers)), b = std::make_shared<Built>(Build(numbers)), d = std::make_shared<Built>(Build(small));
    str r; r += *a->db->root() == *b->db->root() ? "=" : "!"; r += *a->db->root() == *d->db->root() ? "=" : "!"; return [=] { return r; };
  });
  AddOp("streams", "", false, [=](const str&) -> std::function<str()> {
    str data; for (int i = 0; i < 5000; ++i) data += char(i * i >> 3);
    std::stringstream raw; { keepass::hashed_ostreambuf buf(raw, 1234); std::ostream o(&buf); o << data; o.flush(); if (!o) throw std::runtime_error("write"); }
    str mid = raw.str(), blocks; std::stringstream zip; { keepass::gzip_ostreambuf buf(zip); std::ostream o(&buf); o << data; o.flush(); if (!o) throw std::runtime_error("write"); }
    str r; { keepass::gzip_istreambuf buf(zip); std::istream i(&buf); r.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
    str q; { keepass::hashed_istreambuf buf(raw); std::istream i(&buf); q.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
    return [=] { return str(ref::UnHashedBlocks(mid, const_cast<str*>(&blocks)) && blocks == data ? "right" : "wrong") + (r == data ? " right" : " wrong") + (q == data ? " right" : " wrong"); };
  });
  // The results under nothing special.
  dir = scratch + "/d"; mkdir(dir.c_str(), 0755);
  for (auto& op : ops) {
    str path = PathOf(dir, 0);
    if (!op->file.empty()) WriteFile(path, op->file);
    try { op->plain = op->run(path)(); } catch (const std::exception& e) { op->plain = str("throws ") + typeid(e).name(); }
    unlink(path.c_str());
    if (op->plain.find("another") == 0 || op->plain.find("wrong") != str::npos) c.Broken(op->name, op->plain);
  }
  dir.clear();
  size_t n = ops.size();
  auto with = [&c](const str& name, uint64_t states, std::vector<std::shared_ptr<Op>> set, std::function<Env(uint64_t, int*)> env) {
    c.Add(name, states * set.size(), [=](uint64_t i, Ctx& ctx) { auto op = set[Take(i, set.size())]; int form = 0; Env e = env(i, &form); Test(*op, e, op->paths ? form : 0, ctx); },
          [=](uint64_t i) { auto op = set[Take(i, set.size())]; int form = 0; Env e = env(i, &form); return op->name + "; " + e.Text() + "; path: " + kFormName[form]; });
  };
  uint64_t nl = locales.size();
  std::vector<std::shared_ptr<Op>> files; for (auto& o : ops) if (o->paths) files.push_back(o);
  with("locales", nl * 2, ops, [=](uint64_t i, int*) { Env e; e.locale = int(Take(i, nl)); e.clocale = int(i); return e; });
  with("errno", 134, ops, [](uint64_t i, int*) { Env e; e.err = int(i); return e; });
  with("file mode masks", 512, files, [](uint64_t i, int*) { Env e; e.mask = int(i); return e; });
  with("rounding modes, descriptors, environment variables", 4 * 8 * 3, ops, [](uint64_t i, int*) { Env e; e.round = int(Take(i, 4)); e.fds = int(Take(i, 8)); e.vars = int(i); return e; });
  with("paths", kForms * 8 * 2 * 2, files, [](uint64_t i, int* form) { Env e; *form = int(Take(i, kForms)); e.fds = int(Take(i, 8)); e.clocale = int(Take(i, 2)); e.mask = i ? 077 : 022; return e; });
  bool q = Quick();
  std::vector<int> errs = q ? std::vector<int>{0, ERANGE} : std::vector<int>{0, EINTR, EAGAIN, ERANGE, EILSEQ, ENOSPC};
  std::vector<int> ls; for (size_t l = 0; l < nl; ++l) if (!q || l % 4 == 1 || l + 1 == nl) ls.push_back(int(l));
  uint64_t ne = errs.size(), ns = ls.size(), nf = q ? 3 : 8;
  with("products", ns * 2 * ne * 4 * 8 * 3 * nf, q ? std::vector<std::shared_ptr<Op>>(ops) : ops, [=](uint64_t i, int* form) {
    Env e; e.locale = ls[Take(i, ns)]; e.clocale = int(Take(i, 2)); e.err = errs[Take(i, ne)]; e.round = int(Take(i, 4)); e.fds = int(Take(i, 8)); e.vars = int(Take(i, 3));
    static const int forms[] = {0, 1, 11, 4, 6, 8, 13, 20}; *form = forms[i]; return e;
  });
  c.notes.push_back({"operations", Num(n)});
  c.notes.push_back({"global C++ locales", Num(nl)});
}

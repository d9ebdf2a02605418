// C05: a file opens with exactly the keys that are equal to the one it was written with.
#include "deviate.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "ref.hh"

using namespace mc;

namespace {

std::vector<ref::KeySpec> g_keys;
enum { kKdbx, kKdbxZ, kKdbAes, kKdbTwofish, kFormats };
const char* kName[] = {"kdbx", "compressed kdbx", "kdb with AES", "kdb with Twofish"};

MDb Base(int format, int size, int rounds) {
  MDb m = size == 0 ? SmallDb() : format < kKdbAes ? RichDb() : RichKdb();
  if (size == 2) for (int i = 0; i < 40; ++i) { MEntry e; e.uuid = MakeUuid(900 + i); e.title = MStr(str(300, char('a' + i % 26))); m.root.groups[0].entries.push_back(e); }
  m.compress = format == kKdbxZ;
  m.twofish = format == kKdbTwofish;
  m.rounds = rounds;
  return m;
}

str Describe(const ref::KeySpec& k) { return (k.has_pw ? "password " + Quote(k.pw, 24) : str("no password")) + (k.has_kf ? " key file " + Hex(k.kf, 8) : str()); }

// Written by the library with key a, opened with key b.
void Pair(int format, const MDb& m, const ref::KeySpec& a, const ref::KeySpec& b, Ctx& ctx) {
  bool x = format < kKdbAes;
  Built built = Build(m);
  str path = scratch + "/f";
  Outcome ex = x ? ExportKdbx(path, *built.db, ref::LibKey(a)) : ExportKdb(path, *built.db, ref::LibKey(a));
  if (!ex.ok) return ctx.Fail("export threw " + ex.kind + ": " + ex.what);
  Outcome im = x ? ImportKdbx(path, ref::LibKey(b)) : ImportKdb(path, ref::LibKey(b));
  ctx.Trans(2);
  ctx.Trace();
  bool same = ref::MasterKey(a, x) == ref::MasterKey(b, x);
  ctx.State(Num(format) + (same ? "same" : "other") + (im.ok ? "ok" : im.kind));
  if (same) {
    ctx.Nontrivial();
    if (!im.ok) return ctx.Fail("the key the file was written with is refused: " + im.kind + ": " + im.what);
    Flat w = Flatten(x ? ExpectKdbx(m) : ExpectKdb(m)), g = Flatten(Extract(*im.db));
    if (x) { str d = Diff(w, g); if (!d.empty()) ctx.Fail("the database differs: " + d); }
    return;
  }
  if (im.ok) return ctx.Fail("a file written with " + Describe(a) + " opens with " + Describe(b));
  if (im.kind != "keepass::PasswordError") ctx.Fail("a wrong key is reported as " + im.kind + ": " + im.what);
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C05";
  c.level = "model_checking";
  c.rule = "All ordered pairs of keys out of an alphabet (passwords absent, empty, equal up to case, length, white space, NUL, encoding, a hash block or a single bit; key files "
           "absent, zero, equal up to one bit or to the hash of a password) for every format, size and number of rounds; file written by the real exporter and opened by the "
           "real importer, oracle: equality of the two keys (of their composite, as the formats define it). Near misses: files whose proof of the key differs in any one byte";
  c.assumptions = {"a key file that equals the SHA-256 of a password counts as that password and, in KDB, no key at all as a key file of zeros, because the formats do not tell them apart"};
  std::vector<str> pws = {"", "a", "A", "password", "Password", "password ", " password", "passwor", "passwordp", str("pass\0word", 9), str("pass\0", 5), "pass", str("\0", 1),
                          "p\xc3\xa4ss", "pa\xcc\x88ss", "p\xe4ss", str(55, 'x'), str(56, 'x'), str(64, 'x'), str(65, 'x'), str(1000, 'x'), str(1001, 'x')};
  str h = ref::Sha256("key file"), h0 = h, h31 = h, z1(32, 0);
  h0[0] ^= 1; h31[31] ^= char(0x80); z1[31] = 1;
  std::vector<str> kfs = {str(32, 0), str(32, char(0xff)), h, h0, h31, ref::Sha256("a"), ref::Sha256("password"), z1};
  for (int p = -1; p < int(pws.size()); ++p)
    for (int k = -1; k < int(kfs.size()); ++k) {
      if (p >= 5 && k > 2 && Quick()) continue;
      ref::KeySpec s; s.has_pw = p >= 0; s.pw = p >= 0 ? pws[p] : ""; s.has_kf = k >= 0; s.kf = k >= 0 ? kfs[k] : "";
      g_keys.push_back(s);
    }
  uint64_t n = g_keys.size();
  for (int f = 0; f < kFormats; ++f) {
    c.Add(str("pairs ") + kName[f], n * n, [=](uint64_t i, Ctx& ctx) {
      auto& a = g_keys[Take(i, n)]; auto& b = g_keys[i];
      Pair(f, Base(f, 0, 1), a, b, ctx);
    }, [=](uint64_t i) { auto& a = g_keys[Take(i, n)]; auto& b = g_keys[i]; return Describe(a) + " against " + Describe(b); }, 30, 256);
    // Every bit of a key file and every changed, missing or added character of a password.
    c.Add(str("bits of the key file ") + kName[f], 256 * 2, [=](uint64_t i, Ctx& ctx) {
      ref::KeySpec a, b; a.has_kf = true; a.has_pw = Take(i, 2); a.kf = h; b = a;
      b.kf[i / 8] ^= char(1 << (i % 8));
      Pair(f, Base(f, 0, 1), a, b, ctx);
    });
    c.Add(str("characters of the password ") + kName[f], 70 * 8 * 2, [=](uint64_t i, Ctx& ctx) {
      ref::KeySpec a, b;
      a.pw.clear(); for (int k = 0; k < 70; ++k) a.pw += char('!' + k);
      a.has_kf = Take(i, 2); a.kf = a.has_kf ? h : ""; b = a;
      int bit = int(Take(i, 8));
      b.pw[i] ^= char(1 << bit);
      Pair(f, Base(f, 0, 1), a, b, ctx);
    });
    c.Add(str("lengths of the password ") + kName[f], Quick() ? 140 : 600, [=](uint64_t i, Ctx& ctx) {
      ref::KeySpec a, b, d;
      for (uint64_t k = 0; k <= i; ++k) a.pw += char('a' + k % 23);
      b = a; d = a; b.pw.pop_back(); d.pw += 'x';
      Pair(f, Base(f, 0, 1), a, a, ctx); Pair(f, Base(f, 0, 1), a, b, ctx); Pair(f, Base(f, 0, 1), a, d, ctx); Pair(f, Base(f, 0, 1), b, a, ctx);
    });
    static const int rounds[] = {0, 1, 2, 3, 100, 6000};
    c.Add(str("sizes and rounds ") + kName[f], 8 * 8 * 3 * 6, [=](uint64_t i, Ctx& ctx) {
      uint64_t x = i;
      uint64_t a = Take(x, 8), b = Take(x, 8); int size = int(Take(x, 3)); int r = rounds[x];
      if (r == 6000 && Quick() && a > 2) return;
      static const size_t pick[] = {0, 1, 9, 10, 11, 12, 27, 30};
      Pair(f, Base(f, size, r), g_keys[pick[a] % n], g_keys[pick[b] % n], ctx);
    }, nullptr, 60);
  }
  // Files whose proof of the key is right but for some bytes: the importer has to look at all of them.
  c.Add("start bytes", 32 * 9 * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    m.compress = Take(i, 2);
    int kind = int(Take(i, 9));
    ref::KdbxOpt o; ref::KeySpec k;
    str start = ref::Sha256("start"), claimed = start;
    if (kind < 8) claimed[i] ^= char(1 << kind);
    else { for (size_t j = 0; j < 32; ++j) if (j != i) claimed[j] ^= 0x55; }
    str header = ref::KdbxHeader(m, o, claimed);
    WriteFile(scratch + "/f", ref::KdbxWrap(m, k, o, header, start, ref::KdbxXml(m, o, ref::Sha256(header))));
    Outcome im = ImportKdbx(scratch + "/f", ref::LibKey(k));
    ctx.Trans(); ctx.Trace(); ctx.State(im.kind);
    if (im.ok) return ctx.Fail("start bytes that differ in byte " + Num(i) + " are accepted");
    if (im.kind != "keepass::PasswordError") ctx.Fail("wrong start bytes are reported as " + im.kind + ": " + im.what);
  });
  c.Add("content hash", 32 * 9 * 2, [](uint64_t i, Ctx& ctx) {
    MDb m = SmallDb();
    m.twofish = Take(i, 2);
    int kind = int(Take(i, 9));
    str f = ref::EncodeKdb(m, ref::KeySpec());
    if (kind < 8) f[56 + i] ^= char(1 << kind);
    else { for (size_t j = 0; j < 32; ++j) if (j != i) f[56 + j] ^= 0x55; }
    WriteFile(scratch + "/f", f);
    Outcome im = ImportKdb(scratch + "/f", ref::LibKey(ref::KeySpec()));
    ctx.Trans(); ctx.Trace(); ctx.State(im.kind);
    if (im.ok) return ctx.Fail("a content hash that differs in byte " + Num(i) + " is accepted");
    if (im.kind != "keepass::PasswordError") ctx.Fail("a wrong content hash is reported as " + im.kind + ": " + im.what);
  });
  // More rounds than any import gets through: it must be at work on them, not at an end with fewer.
  static const uint64_t kRounds[] = {(1ull << 32) + 1, 1ull << 32, 1ull << 33, (1ull << 32) + 3, (1ull << 40) + 1, 1ull << 48, (1ull << 63) + 1, 1ull << 63, ~0ull, 0xffffffffull, 0x80000000ull, 0x80000001ull, 0x7fffffffull, 0x80000003ull};
  c.Add("rounds without end", 14 * 3 * 2, [](uint64_t i, Ctx& ctx) {
    uint64_t rounds = kRounds[Take(i, 14)];
    bool kdb = Take(i, 2); static const uint64_t low[] = {0, 1, 3};
    if (kdb && rounds >> 32) return;
    MDb m = SmallDb(), head;
    m.rounds = low[i]; head = m; head.rounds = rounds;
    ref::KeySpec k; str f;
    if (kdb) {
      f = ref::EncodeKdb(m, k);
      for (int b = 0; b < 4; ++b) f[120 + b] = char(rounds >> (8 * b));
    } else {
      ref::KdbxOpt o;
      str start = ref::Sha256("start"), header = ref::KdbxHeader(head, o, start);
      f = ref::KdbxWrap(m, k, o, header, start, ref::KdbxXml(m, o, ref::Sha256(header)));
    }
    str path = scratch + "/f", r;
    WriteFile(path, f);
    keepass::Key key = ref::LibKey(k);
    bool on = RunsOn([&] { Outcome im = kdb ? ImportKdb(path, key) : ImportKdbx(path, key); return im.ok ? str("ok") : im.kind; }, 400, &r);
    ctx.Trans(); ctx.Trace(); ctx.Nontrivial(); ctx.State(on ? str("on") : r);
    if (!on && (r == "ok" || r == "keepass::PasswordError")) ctx.Fail("a file encrypted after " + Num(m.rounds) + " rounds that says " + Num(rounds) + " is " + (r == "ok" ? "opened" : "refused") + " at once");
  }, [](uint64_t i) { uint64_t r = kRounds[Take(i, 14)]; bool kdb = Take(i, 2); return str(kdb ? "KDB" : "KDBX") + " file that states " + Num(r) + " rounds"; }, 30, 1);
}

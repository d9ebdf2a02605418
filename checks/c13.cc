// C13: base64.
#include <cstdint>
#include <array>
#include <string>
#include "base64.hh"
#include "iterator.hh"
#include "model.hh"
#include "ref.hh"
#include "streams.hh"

using namespace mc;

namespace {

bool Space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int Value(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
// The reference acceptor and decoder.
bool Decode(const str& text, str* out) {
  str t;
  for (char c : text) if (!Space(c)) t += c;
  out->clear();
  if (t.size() % 4) return false;
  size_t body = t.size();
  for (int k = 0; k < 2 && body && t[body - 1] == '='; ++k) --body;
  uint32_t acc = 0; int bits = 0;
  for (size_t i = 0; i < body; ++i) {
    int v = Value(t[i]);
    if (v < 0) return false;
    acc = acc << 6 | uint32_t(v); bits += 6;
    if (bits >= 8) { bits -= 8; *out += char(acc >> bits); acc &= (1u << bits) - 1; }
  }
  return true;
}
struct Result { bool ok = false, format = false; str data, what; };
Result Lib(const str& text) {
  Result r;
  try { r.data = keepass::base64_decode(text); r.ok = true; }
  catch (const keepass::FormatError& e) { r.format = true; r.what = e.what(); }
  catch (const std::exception& e) { r.what = e.what(); }
  return r;
}
void CheckText(const str& text, Ctx& ctx) {
  str want;
  bool valid = Decode(text, &want);
  Result r = Lib(text);
  ctx.Trans();
  if (valid && !r.ok) return ctx.Fail("valid text " + Quote(text) + " is refused: " + r.what);
  if (!valid && r.ok) return ctx.Fail("invalid text " + Quote(text) + " is accepted as " + Hex(r.data));
  if (!valid && !r.format) return ctx.Fail("invalid text " + Quote(text) + " is not reported as a format error: " + r.what);
  if (valid && r.data != want) return ctx.Fail("text " + Quote(text) + " gives " + Hex(r.data) + " instead of " + Hex(want));
  if (valid) ctx.Nontrivial();
}
void CheckData(const str& data, Ctx& ctx) {
  str want = ref::Base64(data), got = keepass::base64_encode(data);
  ctx.Trans(4);
  if (got != want) return ctx.Fail("the text of " + Hex(data) + " is " + Quote(got) + " instead of " + Quote(want));
  std::vector<uint8_t> v(data.begin(), data.end());
  if (keepass::base64_encode(v.begin(), v.end()) != want) return ctx.Fail("the text of the byte vector " + Hex(data) + " differs");
  Result r = Lib(want);
  if (!r.ok || r.data != data) return ctx.Fail("the text of " + Hex(data) + " does not decode to it");
  std::vector<uint8_t> back;
  keepass::base64_decode(want, std::back_inserter(back));
  if (back != v) ctx.Fail("decoding into a byte vector differs for " + Hex(data));
}
// Fixed containers of n bytes.
void Bounded(size_t n, const str& text, Ctx& ctx) {
  str want;
  if (!Decode(text, &want)) return;
  std::unique_ptr<std::vector<uint8_t>> box(new std::vector<uint8_t>(n, 0xcc));
  bool oor = false; str other;
  try { keepass::base64_decode(text, keepass::bounds_checked(*box)); }
  catch (const std::out_of_range&) { oor = true; }
  catch (const std::exception& e) { other = e.what(); }
  ctx.Trans(); ctx.Trace(); ctx.State(Num(n) + "," + Num(want.size()) + "," + Num(oor));
  if (!other.empty()) return ctx.Fail("decoding " + Num(want.size()) + " bytes into " + Num(n) + " threw " + other);
  if (oor != (want.size() > n)) return ctx.Fail("decoding " + Num(want.size()) + " bytes into a container of " + Num(n) + (oor ? " threw" : " did not throw"));
  if (oor) ctx.Nontrivial();
  for (size_t k = 0; k < n; ++k) { uint8_t w = k < want.size() ? uint8_t(want[k]) : 0xcc; if ((*box)[k] != w) return ctx.Fail("byte " + Num(k) + " of a container of " + Num(n) + " is wrong after decoding " + Num(want.size())); }
}
template <size_t N> void Fixed(const str& text, Ctx& ctx) {
  str want;
  Decode(text, &want);
  struct { uint8_t before[32]; std::array<uint8_t, N> a; uint8_t after[32]; } box;
  memset(&box, 0xcc, sizeof box);
  bool oor = false;
  try { keepass::base64_decode(text, keepass::bounds_checked(box.a)); } catch (const std::out_of_range&) { oor = true; }
  ctx.Trans(); ctx.Trace();
  if (oor != (want.size() > N)) return ctx.Fail("decoding " + Num(want.size()) + " bytes into an array of " + Num(N) + (oor ? " threw" : " did not throw"));
  for (int k = 0; k < 32; ++k) if (box.before[k] != 0xcc || box.after[k] != 0xcc) return ctx.Fail("bytes outside of an array of " + Num(N) + " were written");
  for (size_t k = 0; k < N; ++k) if (box.a[k] != (k < want.size() ? uint8_t(want[k]) : 0xcc)) return ctx.Fail("wrong byte in array");
}

const char kClasses[] = {'A', '/', '=', ' ', '!', 'z', '\n', char(0x80), '+', '0', '-', '\v', 0};

}  // namespace

void mc::Register(Check& c) {
  c.property = "C13";
  c.level = "model_checking";
  c.rule = "Encoding: all byte strings of up to two (thorough: three) bytes, all lengths up to a bound. Decoding: all texts of up to eight characters over an alphabet of character "
           "classes, all single characters in all positions of a valid text, white space in all positions, against a reference acceptor. All pairs of container size and data length";
  c.assumptions = {"the bits of a last character that do not belong to a byte are ignored, as the library documents nothing else"};
  c.Add("short data", 257, [](uint64_t i, Ctx& ctx) {
    if (i == 256) { CheckData("", ctx); for (int a = 0; a < 256; ++a) CheckData(str(1, char(a)), ctx); ctx.Trace(257); return; }
    for (int b = 0; b < 256; ++b) { str s; s += char(i); s += char(b); CheckData(s, ctx); if (ctx.failed()) return; ctx.State(s); }
    ctx.Trace(256);
  });
  c.Add("three bytes", Quick() ? 256 * 4 : 65536, [](uint64_t i, Ctx& ctx) {
    int a = Quick() ? int(i / 4) : int(i / 256);
    static const int bs[] = {0, 0x0f, 0xf0, 0xff};
    int b = Quick() ? bs[i % 4] : int(i % 256);
    for (int d = 0; d < 256; ++d) { str s; s += char(a); s += char(b); s += char(d); CheckData(s, ctx); if (ctx.failed()) return; }
    ctx.Trace(256); ctx.State(Hash(&i, sizeof i));
  });
  c.Add("lengths", Quick() ? 1000 : 6000, [](uint64_t i, Ctx& ctx) { for (int k = 0; k < 3; ++k) CheckData(TestData(size_t(i), k), ctx); ctx.Trace(3); ctx.State(Hash(&i, sizeof i)); });
  static const std::vector<uint64_t> nums = SourceNumbers(Quick() ? 300000 : 1 << 24);
  c.Add("lengths from the sources", nums.size(), [](uint64_t i, Ctx& ctx) { CheckData(TestData(size_t(nums[i]), 1), ctx); ctx.Trace(); ctx.State(Num(nums[i])); if (nums[i] > 200 && nums[i] < 70000) for (int d = -1; d <= 1; ++d) Bounded(size_t(nums[i]) + size_t(d), ref::Base64(TestData(size_t(nums[i]), 1)), ctx); });
  c.Add("large data", Quick() ? 2 : 4, [](uint64_t i, Ctx& ctx) { static const size_t n[] = {(1 << 20) + 1, 4 << 20, (16 << 20) + 2, 64 << 20}; CheckData(TestData(n[i], 1), ctx); ctx.Trace(); }, nullptr, 300, 1);
  // All texts: one case fixes the first two characters.
  const int nc = Quick() ? 6 : 7, longest = 8;
  c.Add("texts over classes", uint64_t(nc) * nc * (longest + 1), [=](uint64_t i, Ctx& ctx) {
    int a = int(Take(i, nc)), b = int(Take(i, nc)), len = int(i);
    if ((len < 2 && b) || (len < 1 && a)) return;
    uint64_t n = 1; for (int k = 2; k < len; ++k) n *= uint64_t(nc);
    uint64_t valid = 0;
    for (uint64_t x = 0; x < n; ++x) {
      str t; if (len > 0) t += kClasses[a]; if (len > 1) t += kClasses[b];
      uint64_t y = x; for (int k = 2; k < len; ++k) t += kClasses[Take(y, nc)];
      CheckText(t, ctx);
      if (ctx.failed()) return;
      ++valid;
    }
    ctx.Trace(valid); ctx.State(Num(a) + "," + Num(b) + "," + Num(len));
  }, nullptr, 120, 1);
  c.Add("texts of four over more classes", 13 * 13 * 13 * 13, [](uint64_t i, Ctx& ctx) { str t; for (int k = 0; k < 4; ++k) t += kClasses[Take(i, 13)]; CheckText(t, ctx); ctx.Trace(); ctx.State(t); });
  c.Add("every character in every position", 256 * 12 * 3, [](uint64_t i, Ctx& ctx) {
    char ch = char(Take(i, 256)); size_t at = size_t(Take(i, 12));
    str t = i == 0 ? "QUJDREVGR0hJ" : i == 1 ? "QUJDREVGR0g=" : "QUJDREVGRw==";
    t[at] = ch; CheckText(t, ctx);
    str u = t; u.insert(at, 1, ch); CheckText(u, ctx);
    ctx.Trace(2); ctx.State(t);
  });
  c.Add("pairs of characters in the last group", 256 * 256, [](uint64_t i, Ctx& ctx) { str t = "QUJDRE"; t += char(Take(i, 256)); t += char(i); CheckText(t, ctx); ctx.Trace(); ctx.State(t); });
  c.Add("white space", 60 * 6 * 40, [](uint64_t i, Ctx& ctx) {
    static const char ws[] = {' ', '\t', '\n', '\v', '\f', '\r'};
    char w = ws[Take(i, 6)]; size_t n = size_t(Take(i, 40));
    str t = ref::Base64(TestData(n, 0));
    if (i > t.size()) return;
    str u = t; u.insert(size_t(i), 1 + n % 3, w);
    str want; Decode(t, &want);
    Result r = Lib(u);
    ctx.Trans(); ctx.Trace(); ctx.State(u);
    if (!r.ok || r.data != want) ctx.Fail("white space changes the meaning of " + Quote(u));
  });
  c.Add("all kinds of white space everywhere", 1 << 9, [](uint64_t i, Ctx& ctx) {
    str t = "QUJDRA==", u;
    for (size_t k = 0; k <= 8; ++k) { if (i >> k & 1) u += " \t\r\n"; if (k < 8) u += t[k]; }
    Result r = Lib(u);
    ctx.Trans(); ctx.Trace(); ctx.State(u);
    if (!r.ok || r.data != "ABCD") ctx.Fail("white space changes the meaning of " + Quote(u));
  });
  const size_t cap = Quick() ? 48 : 130;
  c.Add("containers", cap * cap, [=](uint64_t i, Ctx& ctx) { size_t n = size_t(Take(i, cap)); str t = ref::Base64(TestData(size_t(i), 0)); Bounded(n, t, ctx); Bounded(n, t.substr(0, t.size() / 2) + "\n" + t.substr(t.size() / 2), ctx); });
  c.Add("arrays", 80, [](uint64_t i, Ctx& ctx) { str t = ref::Base64(TestData(size_t(i), 0)); Fixed<1>(t, ctx); Fixed<2>(t, ctx); Fixed<3>(t, ctx); Fixed<4>(t, ctx); Fixed<16>(t, ctx); Fixed<32>(t, ctx); ctx.State(Num(i)); });
}

// C11: CBC encryption and decryption with PKCS #7 padding.
#include <fstream>

#include "cipher.hh"
#include "model.hh"
#include "ref.hh"
#include "streams.hh"

using namespace mc;

namespace {

std::array<uint8_t, 32> K(const str& s) { std::array<uint8_t, 32> a; memcpy(a.data(), s.data(), 32); return a; }
std::array<uint8_t, 16> V(const str& s) { std::array<uint8_t, 16> a; memcpy(a.data(), s.data(), 16); return a; }

str g_key = ref::Sha256("cbc key"), g_iv = ref::Sha256("cbc iv").substr(0, 16);

std::unique_ptr<keepass::Cipher<16>> Lib(bool tf, const str& key, const str& iv) {
  if (tf) return std::unique_ptr<keepass::Cipher<16>>(new keepass::TwofishCipher(K(key), V(iv)));
  return std::unique_ptr<keepass::Cipher<16>>(new keepass::AesCipher(K(key), V(iv)));
}
std::unique_ptr<ref::BlockCipher> Ref(bool tf) { return tf ? ref::Twofish(g_key) : ref::Aes(g_key); }

// prefix bytes come before the data and are skipped
bool Run(bool tf, bool enc, const str& in, str* out, str* err, size_t prefix = 0, bool file = false) {
  auto c = Lib(tf, g_key, g_iv);
  std::stringstream dst;
  try {
    if (file) {
      WriteFile(scratch + "/cbc", str(prefix, 'p') + in);
      std::ifstream src(scratch + "/cbc", std::ios::binary);
      if (prefix) { str skip(prefix, 0); src.read(&skip[0], std::streamsize(prefix)); }
      if (enc) keepass::encrypt_cbc(src, dst, *c); else keepass::decrypt_cbc(src, dst, *c);
    } else {
      std::stringstream src(str(prefix, 'p') + in);
      if (prefix) src.seekg(std::streamoff(prefix));
      if (enc) keepass::encrypt_cbc(src, dst, *c); else keepass::decrypt_cbc(src, dst, *c);
    }
  } catch (const std::exception& e) { *err = e.what(); if (err->empty()) *err = "exception"; return false; }
  *out = dst.str();
  return true;
}
void RoundTrip(bool tf, const str& data, size_t prefix, bool file, Ctx& ctx) {
  str enc, dec, err;
  ctx.Trans(2); ctx.Trace();
  if (!Run(tf, true, data, &enc, &err, prefix, file)) return ctx.Fail("encrypting " + Num(data.size()) + " bytes threw: " + err);
  str want = tf ? ref::CbcEncRaw(*Ref(tf), g_iv, ref::Pad(data)) : ref::AesCbcEncRaw(g_key, g_iv, ref::Pad(data));
  ctx.State(Hash(enc));
  if (enc != want) return ctx.Fail("the ciphertext of " + Num(data.size()) + " bytes differs: " + Hex(enc, 80) + " instead of " + Hex(want, 80));
  if (!Run(tf, false, enc, &dec, &err, prefix, file)) return ctx.Fail("decrypting " + Num(enc.size()) + " bytes threw: " + err);
  if (dec != data) ctx.Fail("decryption gives " + Num(dec.size()) + " other bytes instead of " + Num(data.size()));
}
// Decrypts the raw encryption of these padded blocks.
void Padding(bool tf, const str& blocks, Ctx& ctx, size_t prefix = 0) {
  str enc = tf ? ref::CbcEncRaw(*Ref(tf), g_iv, blocks) : ref::AesCbcEncRaw(g_key, g_iv, blocks), dec, err, want;
  bool valid = ref::Unpad(blocks, &want);
  bool ok = Run(tf, false, enc, &dec, &err, prefix);
  ctx.Trans(); ctx.Trace(); ctx.State(ok ? Num(dec.size()) : err);
  if (valid) ctx.Nontrivial();
  if (valid && !ok) return ctx.Fail("valid padding is refused: last block " + Hex(blocks.substr(blocks.size() - 16)));
  if (!valid && ok) return ctx.Fail("invalid padding is accepted: last block " + Hex(blocks.substr(blocks.size() - 16)));
  if (valid && dec != want) ctx.Fail("decryption gives " + Hex(dec) + " instead of " + Hex(want));
}

}  // namespace

void mc::Register(Check& c) {
  c.property = "C11";
  c.level = "model_checking";
  c.rule = "Both ciphers: all data lengths up to a bound and around buffer sizes against a reference CBC; for decryption all 256 final bytes with runs of all lengths, all single-byte "
           "deviations of every valid padding, every pair of deviating positions, every ciphertext length; from streams at other positions and from files";
  c.assumptions = {"the block ciphers are compared in C12"};
  c.Add("lengths", (Quick() ? 400 : 3000) * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2);
    for (int kind = 0; kind < 3; ++kind) RoundTrip(tf, TestData(size_t(i), kind), 0, false, ctx);
    str pads(size_t(i), char(16 - i % 16));                // data that looks like padding
    RoundTrip(tf, pads, 0, false, ctx);
    if (i) { str d = TestData(size_t(i), 0); d.back() = 1; RoundTrip(tf, d, 0, false, ctx); }
  });
  static std::vector<size_t> lens;
  for (size_t b : {1024, 4096, 8192, 16384, 65536}) for (int d = -17; d <= 17; ++d) lens.push_back(b + size_t(d));
  c.Add("lengths around buffers", lens.size() * 2 * 2, [](uint64_t i, Ctx& ctx) { bool tf = Take(i, 2), file = Take(i, 2); if (tf && lens[i] > 20000 && Quick() && lens[i] % 16 > 1) return; RoundTrip(tf, TestData(lens[i], 1), file ? 12 : 0, file, ctx); });
  static const std::vector<uint64_t> nums = SourceNumbers(70000);
  c.Add("lengths from the sources", nums.size() * 2, [](uint64_t i, Ctx& ctx) { bool tf = Take(i, 2); if (tf && nums[i] > 9000 && Quick()) return; RoundTrip(tf, TestData(size_t(nums[i]), 1), 0, false, ctx); }, [](uint64_t i) { return Num(nums[i / 2]) + " bytes"; });
  c.Add("large data", Quick() ? 3 : 5, [](uint64_t i, Ctx& ctx) { static const size_t n[] = {(1 << 20) - 1, 1 << 20, (3 << 20) + 5, 16 << 20, (64 << 20) + 1}; RoundTrip(false, TestData(n[i], 1), 0, i & 1, ctx); if (i < 2) RoundTrip(true, TestData(n[i], 1), 0, false, ctx); }, nullptr, 300, 1);
  c.Add("stream positions", 70 * 52 * 2, [](uint64_t i, Ctx& ctx) { bool tf = Take(i, 2); size_t prefix = size_t(Take(i, 70)); RoundTrip(tf, TestData(size_t(i), 0), prefix, (prefix + i) % 9 == 0, ctx); });
  c.Add("final byte and run", 256 * 17 * 3 * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2); int v = int(Take(i, 256)); size_t run = size_t(Take(i, 17)); size_t nb = size_t(i) + 1;
    str blocks = TestData(nb * 16, 0);
    for (auto& ch : blocks) if (uint8_t(ch) == v) ch = char(ch ^ 0x40);
    if (run == 0) blocks.back() = char(v); else for (size_t k = 0; k < run; ++k) blocks[blocks.size() - 1 - k] = char(v);
    Padding(tf, blocks, ctx);
    if (nb == 2) Padding(tf, blocks, ctx, 5);
  });
  c.Add("deviations from valid padding", 17 * 16 * 255 * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2); size_t pad = size_t(Take(i, 17)); size_t at = size_t(Take(i, 16)); int x = int(i) + 1;
    if (pad == 0) return;
    str blocks = ref::Pad(TestData(48 - pad, 0));
    blocks[32 + at] = char(blocks[32 + at] ^ x);
    Padding(tf, blocks, ctx);
  }, nullptr, 30, 256);
  c.Add("pairs of deviations", 17 * 16 * 16 * 8 * 8 * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2); size_t pad = size_t(Take(i, 17)); size_t a = size_t(Take(i, 16)), b = size_t(Take(i, 16)); int x = 1 << Take(i, 8), y = 1 << i;
    if (pad == 0 || a <= b) return;
    str blocks = ref::Pad(TestData(32 - pad, 0));
    blocks[16 + a] = char(blocks[16 + a] ^ x); blocks[16 + b] = char(blocks[16 + b] ^ y);
    Padding(tf, blocks, ctx);
  }, nullptr, 30, 256);
  c.Add("ciphertext lengths", 130 * 2 * 3, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2); int kind = int(Take(i, 3));
    size_t n = size_t(i);
    str full = ref::CbcEncRaw(*Ref(tf), g_iv, ref::Pad(TestData(144, 0))), dec, err;
    str in = kind == 0 ? full.substr(0, n) : kind == 1 ? full.substr(160 - n) : ref::CbcEncRaw(*Ref(tf), g_iv, ref::Pad(TestData(n / 16 * 16 + 3, 0))).substr(0, n);
    str want, plain = n >= 16 && n % 16 == 0 ? ref::CbcDecRaw(*Ref(tf), g_iv, in) : "";
    bool valid = !plain.empty() && ref::Unpad(plain, &want);
    bool ok = Run(tf, false, in, &dec, &err, i % 3);
    ctx.Trans(); ctx.Trace(); ctx.State(ok ? Num(dec.size()) : err);
    if (ok != valid) return ctx.Fail(valid ? "a valid ciphertext is refused" : "a ciphertext of " + Num(n) + " bytes is accepted");
    if (ok && dec != want) ctx.Fail("wrong data");
  });
  // Chaining: one-bit differences in vector and ciphertext go where CBC puts them.
  c.Add("chaining", (128 + 64 * 8) * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2);
    str blocks = ref::Pad(TestData(53, 0)), iv = g_iv;
    str enc = ref::CbcEncRaw(*Ref(tf), g_iv, blocks);
    if (i < 128) iv[i / 8] ^= char(1 << (i % 8)); else enc[(i - 128) / 8] ^= char(1 << (i % 8));
    str plain = ref::CbcDecRaw(*Ref(tf), iv, enc), want;
    bool valid = ref::Unpad(plain, &want);
    auto cipher = Lib(tf, g_key, iv);
    std::stringstream src(enc), dst;
    Outcome o = Attempt([&] { keepass::decrypt_cbc(src, dst, *cipher); });
    ctx.Trans(); ctx.Trace(); ctx.State(o.ok ? Hash(dst.str()) : 0);
    if (o.ok != valid) return ctx.Fail(valid ? "refused" : "accepted");
    if (o.ok && dst.str() != want) return ctx.Fail("wrong data after a changed bit");
    if (!o.ok) return;
    auto cipher2 = Lib(tf, g_key, iv);
    std::stringstream s2(want), d2;
    keepass::encrypt_cbc(s2, d2, *cipher2);
    if (d2.str() != enc) ctx.Fail("encryption does not give the ciphertext back");
  });
  // The same cipher object used for several messages, in both directions, in every order.
  c.Add("reused ciphers", 4 * 4 * 4 * 4 * 2, [](uint64_t i, Ctx& ctx) {
    bool tf = Take(i, 2);
    auto cipher = Lib(tf, g_key, g_iv);
    static const size_t n[] = {0, 15, 16, 33};
    for (int k = 0; k < 2; ++k) {
      str d = TestData(n[Take(i, 4)], 0), d2 = TestData(n[Take(i, 4)], 1);
      std::stringstream a(d), b, e(ref::CbcEncRaw(*Ref(tf), g_iv, ref::Pad(d2))), f;
      keepass::encrypt_cbc(a, b, *cipher);
      keepass::decrypt_cbc(e, f, *cipher);
      ctx.Trans(2); ctx.Trace();
      if (b.str() != ref::CbcEncRaw(*Ref(tf), g_iv, ref::Pad(d))) return ctx.Fail("a used cipher encrypts differently");
      if (f.str() != d2) return ctx.Fail("a used cipher decrypts differently");
    }
  });
}

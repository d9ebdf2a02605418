// C12: block ciphers, ECB, Salsa20 and the obfuscator against independent implementations.
#include "cipher.hh"
#include "random.hh"
#include "model.hh"
#include "ref.hh"
#include "streams.hh"

using namespace mc;

namespace {

template <size_t N> std::array<uint8_t, N> A(const str& s) { std::array<uint8_t, N> a; memcpy(a.data(), s.data(), N); return a; }
template <size_t N> str S(const std::array<uint8_t, N>& a) { return str(reinterpret_cast<const char*>(a.data()), N); }
str Bit(size_t n, uint64_t bit, char base = 0) { str s(n, base); s[bit / 8] = char(s[bit / 8] ^ (1 << (bit % 8))); return s; }

void Block(bool tf, const keepass::Cipher<16>& lib, const ref::BlockCipher& r, const str& block, Ctx& ctx) {
  std::array<uint8_t, 16> out, back, dec;
  out.fill(0xa5); back.fill(0xa5); dec.fill(0xa5);
  lib.Encrypt(A<16>(block), out);
  lib.Decrypt(out, back);
  lib.Decrypt(A<16>(block), dec);
  ctx.Trans(3); ctx.Trace();
  if (S(out) != r.Enc(block)) return ctx.Fail(str(tf ? "Twofish" : "AES") + " encryption of " + Hex(block) + " gives " + Hex(S(out)) + " instead of " + Hex(r.Enc(block)));
  if (S(back) != block) return ctx.Fail("decryption does not invert encryption of " + Hex(block));
  if (S(dec) != r.Dec(block)) ctx.Fail(str(tf ? "Twofish" : "AES") + " decryption of " + Hex(block) + " gives " + Hex(S(dec)) + " instead of " + Hex(r.Dec(block)));
}
struct Both {
  std::unique_ptr<keepass::Cipher<16>> lib;
  std::unique_ptr<ref::BlockCipher> r;
  Both(bool tf, const str& key) : r(tf ? ref::Twofish(key) : ref::Aes(key)) {
    if (tf) lib.reset(new keepass::TwofishCipher(A<32>(key))); else lib.reset(new keepass::AesCipher(A<32>(key)));
  }
};
void Ecb(bool tf, const str& key, const str& two, Ctx& ctx) {
  Both b(tf, key);
  str e = S(keepass::encrypt_ecb(A<32>(two), *b.lib)), d = S(keepass::decrypt_ecb(A<32>(two), *b.lib));
  ctx.Trans(2); ctx.Trace(); ctx.State(Hash(e));
  str we = b.r->Enc(two.substr(0, 16)) + b.r->Enc(two.substr(16)), wd = b.r->Dec(two.substr(0, 16)) + b.r->Dec(two.substr(16));
  if (e != we) return ctx.Fail("two block encryption of " + Hex(two) + " gives " + Hex(e) + " instead of " + Hex(we));
  if (d != wd) return ctx.Fail("two block decryption of " + Hex(two) + " gives " + Hex(d) + " instead of " + Hex(wd));
}

str g_key = ref::Sha256("k"), g_iv = ref::Sha256("v").substr(0, 8), g_stream;

}  // namespace

void mc::Register(Check& c) {
  c.property = "C12";
  c.level = "model_checking";
  c.rule = "AES and Twofish: all pairs of one-bit keys with one-bit blocks, all pairs of key bits, all byte values in all key and block positions; ECB over one-bit double blocks; Salsa20 "
           "over one-bit keys and vectors and long key streams; the obfuscator over all partitions of a bounded text and all sequences of piece lengths out of an alphabet, bytes and "
           "strings mixed; oracle: OpenSSL's AES and own implementations of Twofish and Salsa20 (validated against published vectors)";
  c.assumptions = {"OpenSSL's EVP AES is correct"};
  // The reference implementations are themselves checked against published vectors.
  c.Add("published vectors", 1, [](uint64_t, Ctx& ctx) {
    auto unhex = [](const char* h) { str r; for (; *h; h += 2) r += char(strtol(str(h, 2).c_str(), nullptr, 16)); return r; };
    auto t = ref::Twofish(unhex("0123456789ABCDEFFEDCBA987654321000112233445566778899AABBCCDDEEFF"));
    if (t->Enc(str(16, 0)) != unhex("37527BE0052334B89F0CFCCAE87CFA20")) ctx.Fail("reference Twofish");
    auto a = ref::Aes(unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"));
    if (a->Enc(unhex("00112233445566778899aabbccddeeff")) != unhex("8ea2b7ca516745bfeafc49904b496089")) ctx.Fail("reference AES");
    str k = unhex("8000000000000000000000000000000000000000000000000000000000000000");
    if (ref::Salsa20(k, str(8, 0), 64).substr(0, 16) != unhex("E3BE8FDD8BECA2E3EA8EF9475B29A6E7")) ctx.Fail("reference Salsa20");
  });
  for (int tf = 0; tf < 2; ++tf) {
    str n = tf ? "Twofish " : "AES ";
    // One key per case, all one-bit blocks under it.
    c.Add(n + "one-bit keys and blocks", 256 * 2, [=](uint64_t i, Ctx& ctx) {
      char base = Take(i, 2) ? char(0xff) : 0;
      Both b(tf, Bit(32, i, base));
      for (uint64_t k = 0; k < 128; ++k) { Block(tf, *b.lib, *b.r, Bit(16, k, base), ctx); if (ctx.failed()) return; }
      Block(tf, *b.lib, *b.r, str(16, 0), ctx); Block(tf, *b.lib, *b.r, str(16, char(0xff)), ctx);
      ctx.State(b.r->Enc(str(16, 0)));
    }, nullptr, 60, 4);
    c.Add(n + "pairs of key bits", 256, [=](uint64_t i, Ctx& ctx) {
      for (uint64_t j = 0; j < i; ++j) { str k = Bit(32, i); k[j / 8] = char(k[j / 8] ^ (1 << (j % 8))); Both b(tf, k); Block(tf, *b.lib, *b.r, g_key.substr(0, 16), ctx); if (ctx.failed()) return; ctx.State(k); }
    }, nullptr, 60, 4);
    c.Add(n + "key bytes", 32 * 256, [=](uint64_t i, Ctx& ctx) { str k = g_key; k[i / 256] = char(i % 256); Both b(tf, k); Block(tf, *b.lib, *b.r, g_key.substr(16), ctx); Block(tf, *b.lib, *b.r, str(16, 0), ctx); ctx.State(k); });
    c.Add(n + "block bytes", 16 * 256, [=](uint64_t i, Ctx& ctx) { Both b(tf, g_key); str x = g_key.substr(3, 16); x[i / 256] = char(i % 256); Block(tf, *b.lib, *b.r, x, ctx); ctx.State(x); });
    // The state does not depend on what the cipher did before.
    c.Add(n + "chains", Quick() ? 64 : 2000, [=](uint64_t i, Ctx& ctx) {
      Both b(tf, Bit(32, i % 256)); str x = Bit(16, i % 128), y = x;
      std::array<uint8_t, 16> p = A<16>(x), q;
      for (int k = 0; k < 200; ++k) { if (k % 3 == 2) { b.lib->Decrypt(p, q); y = b.r->Dec(y); } else { b.lib->Encrypt(p, q); y = b.r->Enc(y); } p = q; }
      ctx.Trans(200); ctx.Trace();
      if (S(p) != y) ctx.Fail("a chain of 200 operations ends in " + Hex(S(p)) + " instead of " + Hex(y));
    });
    c.Add(n + "two blocks", 256 * 2 + 32 * 256, [=](uint64_t i, Ctx& ctx) { if (i < 512) Ecb(tf, g_key, Bit(32, i / 2, i & 1 ? char(0xff) : 0), ctx); else { i -= 512; str t = ref::Sha256("t"); t[i / 256] = char(i % 256); Ecb(tf, g_key, t, ctx); } });
    c.Add(n + "vectors", 128, [=](uint64_t i, Ctx& ctx) {
      str v = Bit(16, i);
      std::unique_ptr<keepass::Cipher<16>> x;
      if (tf) x.reset(new keepass::TwofishCipher(A<32>(g_key), A<16>(v))); else x.reset(new keepass::AesCipher(A<32>(g_key), A<16>(v)));
      if (S(x->InitializationVector()) != v) ctx.Fail("the initialization vector is not kept");
      Both b(tf, g_key);
      Block(tf, *x, *b.r, v, ctx);
    });
  }
  auto obf = [](const str& key, const str& iv, size_t n, Ctx& ctx) {
    keepass::RandomObfuscator o(A<32>(key), A<8>(iv));
    str got = o.Process(str(n, 0)), want = ref::Salsa20(key, iv, n);
    ctx.Trans(); ctx.Trace(); ctx.State(Hash(got));
    if (got != want) { size_t k = 0; while (got[k] == want[k]) ++k; ctx.Fail("the key stream differs at byte " + Num(k) + " for key " + Hex(key) + " vector " + Hex(iv)); }
  };
  c.Add("Salsa20 one-bit keys and vectors", 256 * 65, [=](uint64_t i, Ctx& ctx) { uint64_t k = Take(i, 256); obf(Bit(32, k), i == 64 ? str(8, 0) : Bit(8, i), 130, ctx); });
  c.Add("Salsa20 pairs of key bits", 256, [=](uint64_t i, Ctx& ctx) { for (uint64_t j = 0; j < i; ++j) { str k = Bit(32, i, 0x5a); k[j / 8] = char(k[j / 8] ^ (1 << (j % 8))); obf(k, g_iv, 64, ctx); if (ctx.failed()) return; } });
  c.Add("Salsa20 key bytes", 32 * 256, [=](uint64_t i, Ctx& ctx) { str k = g_key; k[i / 256] = char(i % 256); obf(k, g_iv, 64, ctx); });
  c.Add("Salsa20 vector bytes", 8 * 256, [=](uint64_t i, Ctx& ctx) { str v = g_iv; v[i / 256] = char(i % 256); obf(g_key, v, 64, ctx); });
  c.Add("Salsa20 long streams", 4, [=](uint64_t i, Ctx& ctx) { static const size_t n[] = {257 * 64, 1000003, 65537 * 64 + 5, 5000000}; obf(g_key, i % 2 ? g_iv : str(8, 0), Quick() || i != 3 ? n[i] : 64000000, ctx); }, nullptr, 300, 1);
  c.Add("Salsa20 blocks", 512 * 3, [](uint64_t i, Ctx& ctx) {
    int n = int(Take(i, 3)) + 1;
    keepass::Salsa20Cipher x(A<32>(g_key), A<8>(g_iv));
    str ks = ref::Salsa20(g_key, g_iv, 64 * 3);
    for (int k = 0; k < n; ++k) {
      std::array<uint8_t, 64> src = A<64>(Bit(64, i, char(k * 85))), dst;
      dst.fill(0xa5);
      x.Process(src, dst);
      ctx.Trans(); ctx.Trace();
      for (size_t j = 0; j < 64; ++j) if (dst[j] != uint8_t(src[j] ^ uint8_t(ks[size_t(k) * 64 + j]))) return ctx.Fail("block " + Num(k) + " differs at byte " + Num(j));
    }
  });
  // The carry of the block counter, which takes a key stream of 256 GiB: the counter of the object is set forward, where the
  // object consists of nothing but the sixteen words of the standard state.
  c.Add("Salsa20 counter carry", 4, [](uint64_t i, Ctx& ctx) {
    static const uint32_t at[] = {0xffffffffu, 0xfffffffeu, 0xffffffffu, 0x7fffffffu}, high[] = {0, 0, 0xfffffffeu, 5};
    if (sizeof(keepass::Salsa20Cipher) != 64 || !std::is_trivially_copyable<keepass::Salsa20Cipher>::value) return;
    keepass::Salsa20Cipher x(A<32>(g_key), A<8>(g_iv));
    uint32_t w[16];
    memcpy(w, static_cast<const void*>(&x), 64);
    if (w[0] != 0x61707865 || w[8] != 0 || w[9] != 0 || memcmp(w + 6, g_iv.data(), 8) != 0 || memcmp(w + 1, g_key.data(), 16) != 0) return;
    w[8] = at[i]; w[9] = high[i];
    memcpy(static_cast<void*>(&x), w, 64);
    uint64_t counter = uint64_t(high[i]) << 32 | at[i];
    for (int k = 0; k < 4; ++k, ++counter) {
      std::array<uint8_t, 64> src{}, dst;
      x.Process(src, dst);
      ctx.Trans(); ctx.Trace(); ctx.State(Num(counter)); ctx.Nontrivial();
      if (S(dst) != ref::Salsa20At(g_key, g_iv, counter)) return ctx.Fail("the key stream differs in block " + Num(counter));
    }
  });
  g_stream = ref::Salsa20(g_key, g_iv, 1 << 18);
  // Pieces of a text, as strings or byte vectors.
  auto pieces = [](const std::vector<size_t>& p, uint64_t kinds, Ctx& ctx) {
    keepass::RandomObfuscator o(A<32>(g_key), A<8>(g_iv)), inv(A<32>(g_key), A<8>(g_iv));
    size_t at = 0;
    for (size_t k = 0; k < p.size(); ++k) {
      str d = TestData(p[k], int(k % 3)), got, back;
      if (kinds >> (k % 64) & 1) { std::vector<uint8_t> v(d.begin(), d.end()), r = o.Process(v); got.assign(r.begin(), r.end()); back = inv.Process(got); }
      else { got = o.Process(d); std::vector<uint8_t> v(got.begin(), got.end()), r = inv.Process(v); back.assign(r.begin(), r.end()); }
      ctx.Trans(2);
      str want = d;
      for (size_t j = 0; j < d.size(); ++j) want[j] = char(want[j] ^ g_stream[at + j]);
      at += d.size();
      if (got != want) return ctx.Fail("piece " + Num(k) + " of " + Num(p[k]) + " bytes at position " + Num(at - d.size()) + " is obfuscated differently");
      if (back != d) return ctx.Fail("piece " + Num(k) + " does not come back");
    }
    ctx.Trace(); ctx.State(Hash(p.data(), p.size() * sizeof p[0], kinds));
  };
  const size_t plen = Quick() ? 12 : 16;
  c.Add("partitions", Compositions(plen) * 12, [=](uint64_t i, Ctx& ctx) {
    uint64_t off = Take(i, 12);
    std::vector<size_t> p = Composition(plen, i);
    p.insert(p.begin(), size_t(64 - plen / 2 - 3 + off));  // across the first refill
    pieces(p, i, ctx);
  });
  static const size_t len[] = {0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129};
  const size_t depth = Quick() ? 3 : 4;
  uint64_t total = 1;
  for (size_t k = 0; k < depth; ++k) total *= 14;
  c.Add("sequences of lengths", total << depth, [=](uint64_t i, Ctx& ctx) {
    uint64_t kinds = Take(i, uint64_t(1) << depth);
    std::vector<size_t> p;
    for (size_t k = 0; k < depth; ++k) p.push_back(len[Take(i, 14)]);
    pieces(p, kinds, ctx);
  });
  static const std::vector<uint64_t> nums = SourceNumbers(70000);
  c.Add("lengths from the sources", nums.size() * 3, [=](uint64_t i, Ctx& ctx) { uint64_t k = Take(i, 3); size_t n = size_t(nums[i]); pieces({k == 2 ? 63 : k, n, 3, 100}, i & 3, ctx); });
  c.Add("every length at every position", 130 * 130, [=](uint64_t i, Ctx& ctx) { size_t a = size_t(Take(i, 130)); pieces({a, size_t(i), 3}, a & 3, ctx); });
}

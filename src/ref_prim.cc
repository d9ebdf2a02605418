#include <openssl/evp.h>
#include <string.h>
#include <zlib.h>

#include "ref.hh"

namespace ref {

typedef unsigned char u8;

str Sha256(const str& s) {
  unsigned char md[32]; unsigned int n = 32;
  EVP_Digest(s.data(), s.size(), md, &n, EVP_sha256(), nullptr);
  return str((char*)md, 32);
}

namespace {
str EvpRun(const EVP_CIPHER* c, const str& key, const str& iv, const str& in, int enc) {
  static thread_local EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  EVP_CIPHER_CTX_reset(x);
  EVP_CipherInit_ex(x, c, nullptr, (const u8*)key.data(), iv.empty() ? nullptr : (const u8*)iv.data(), enc);
  EVP_CIPHER_CTX_set_padding(x, 0);
  str out(in.size() + 32, 0);
  int n = 0, m = 0;
  EVP_CipherUpdate(x, (u8*)&out[0], &n, (const u8*)in.data(), int(in.size()));
  EVP_CipherFinal_ex(x, (u8*)&out[n], &m);
  out.resize(n + m);
  return out;
}
struct AesImpl : BlockCipher {
  str key;
  str Enc(const str& b) const override { return EvpRun(EVP_aes_256_ecb(), key, "", b, 1); }
  str Dec(const str& b) const override { return EvpRun(EVP_aes_256_ecb(), key, "", b, 0); }
};

// Twofish as specified by Schneier et al., straight from the definition.
const u8 kT[2][4][16] = {
  {{8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4},{14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13},{11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1},{13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10}},
  {{2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5},{1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8},{4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15},{11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10}}};
u8 Q(int n, u8 x) {
  u8 a = x >> 4, b = x & 15;
  for (int r = 0; r < 2; ++r) {
    u8 a1 = a ^ b, b1 = a ^ (((b >> 1) | (b << 3)) & 15) ^ ((8 * a) & 15);
    a = kT[n][2 * r][a1]; b = kT[n][2 * r + 1][b1];
  }
  return u8(b << 4 | a);
}
u8 Gf(u8 a, u8 b, unsigned poly) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; ++i) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= poly; }
  return u8(r);
}
const u8 kMds[4][4] = {{0x01,0xEF,0x5B,0x5B},{0x5B,0xEF,0xEF,0x01},{0xEF,0x5B,0x01,0xEF},{0xEF,0x01,0xEF,0x5B}};
const u8 kRs[4][8] = {{0x01,0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E},{0xA4,0x56,0x82,0xF3,0x1E,0xC6,0x68,0xE5},{0x02,0xA1,0xFC,0xC1,0x47,0xAE,0x3D,0x19},{0xA4,0x55,0x87,0x5A,0x58,0xDB,0x9E,0x03}};
uint32_t Rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
uint32_t Ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
struct TwofishImpl : BlockCipher {
  u8 q[2][256];
  u8 mul[4][4][256];
  uint32_t K[40], S[4];
  uint32_t H(uint32_t X, const uint32_t* L) const {
    u8 y[4];
    for (int i = 0; i < 4; ++i) y[i] = u8(X >> (8 * i));
    auto l = [&](int w, int i) { return u8(L[w] >> (8 * i)); };
    y[0] = q[1][y[0]] ^ l(3, 0); y[1] = q[0][y[1]] ^ l(3, 1); y[2] = q[0][y[2]] ^ l(3, 2); y[3] = q[1][y[3]] ^ l(3, 3);
    y[0] = q[1][y[0]] ^ l(2, 0); y[1] = q[1][y[1]] ^ l(2, 1); y[2] = q[0][y[2]] ^ l(2, 2); y[3] = q[0][y[3]] ^ l(2, 3);
    y[0] = q[1][q[0][q[0][y[0]] ^ l(1, 0)] ^ l(0, 0)];
    y[1] = q[0][q[0][q[1][y[1]] ^ l(1, 1)] ^ l(0, 1)];
    y[2] = q[1][q[1][q[0][y[2]] ^ l(1, 2)] ^ l(0, 2)];
    y[3] = q[0][q[1][q[1][y[3]] ^ l(1, 3)] ^ l(0, 3)];
    uint32_t z = 0;
    for (int r = 0; r < 4; ++r) { u8 v = 0; for (int c = 0; c < 4; ++c) v ^= mul[r][c][y[c]]; z |= uint32_t(v) << (8 * r); }
    return z;
  }
  explicit TwofishImpl(const str& key) {
    for (int i = 0; i < 256; ++i) { q[0][i] = Q(0, u8(i)); q[1][i] = Q(1, u8(i)); }
    for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) for (int v = 0; v < 256; ++v) mul[r][c][v] = Gf(u8(v), kMds[r][c], 0x169);
    uint32_t M[8], Me[4], Mo[4];
    for (int i = 0; i < 8; ++i) M[i] = uint32_t(Le(key, i * 4, 4));
    for (int i = 0; i < 4; ++i) { Me[i] = M[2 * i]; Mo[i] = M[2 * i + 1]; }
    for (int i = 0; i < 4; ++i) {
      uint32_t w = 0;
      for (int r = 0; r < 4; ++r) { u8 v = 0; for (int c = 0; c < 8; ++c) v ^= Gf(u8(key[8 * i + c]), kRs[r][c], 0x14D); w |= uint32_t(v) << (8 * r); }
      S[3 - i] = w;
    }
    for (int i = 0; i < 20; ++i) {
      uint32_t A = H(0x01010101u * (2 * i), Me), B = Rol(H(0x01010101u * (2 * i + 1), Mo), 8);
      K[2 * i] = A + B; K[2 * i + 1] = Rol(A + 2 * B, 9);
    }
  }
  uint32_t G(uint32_t x) const { return H(x, S); }
  str Enc(const str& b) const override {
    uint32_t R[4];
    for (int i = 0; i < 4; ++i) R[i] = uint32_t(Le(b, 4 * i, 4)) ^ K[i];
    for (int r = 0; r < 16; ++r) {
      uint32_t T0 = G(R[0]), T1 = G(Rol(R[1], 8));
      uint32_t F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
      uint32_t n0 = Ror(R[2] ^ F0, 1), n1 = Rol(R[3], 1) ^ F1;
      R[2] = R[0]; R[3] = R[1]; R[0] = n0; R[1] = n1;
    }
    str o;
    for (int i = 0; i < 4; ++i) o += Le32(R[(i + 2) % 4] ^ K[i + 4]);
    return o;
  }
  str Dec(const str& b) const override {
    uint32_t R[4];
    for (int i = 0; i < 4; ++i) R[(i + 2) % 4] = uint32_t(Le(b, 4 * i, 4)) ^ K[i + 4];
    for (int r = 15; r >= 0; --r) {
      uint32_t p0 = R[2], p1 = R[3];
      uint32_t T0 = G(p0), T1 = G(Rol(p1, 8));
      uint32_t F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
      uint32_t o2 = Rol(R[0], 1) ^ F0, o3 = Ror(R[1] ^ F1, 1);
      R[0] = p0; R[1] = p1; R[2] = o2; R[3] = o3;
    }
    str o;
    for (int i = 0; i < 4; ++i) o += Le32(R[i] ^ K[i]);
    return o;
  }
};
}  // namespace

std::unique_ptr<BlockCipher> Aes(const str& key) { auto p = new AesImpl; p->key = key; return std::unique_ptr<BlockCipher>(p); }
std::unique_ptr<BlockCipher> Twofish(const str& key) { return std::unique_ptr<BlockCipher>(new TwofishImpl(key)); }

str AesCbcEncRaw(const str& key, const str& iv, const str& d) { return EvpRun(EVP_aes_256_cbc(), key, iv, d, 1); }
str AesCbcDecRaw(const str& key, const str& iv, const str& d) { return EvpRun(EVP_aes_256_cbc(), key, iv, d, 0); }

str CbcEncRaw(const BlockCipher& c, const str& iv, const str& p) {
  str prev = iv, out;
  for (size_t i = 0; i + 16 <= p.size(); i += 16) {
    str b = p.substr(i, 16);
    for (int k = 0; k < 16; ++k) b[k] ^= prev[k];
    prev = c.Enc(b);
    out += prev;
  }
  return out;
}
str CbcDecRaw(const BlockCipher& c, const str& iv, const str& d) {
  str prev = iv, out;
  for (size_t i = 0; i + 16 <= d.size(); i += 16) {
    str e = d.substr(i, 16), b = c.Dec(e);
    for (int k = 0; k < 16; ++k) b[k] ^= prev[k];
    out += b; prev = e;
  }
  return out;
}
str Pad(const str& s) { size_t n = 16 - s.size() % 16; return s + str(n, char(n)); }
bool Unpad(const str& s, str* out) {
  if (s.empty() || s.size() % 16) return false;
  size_t n = (u8)s.back();
  if (n < 1 || n > 16) return false;
  for (size_t i = s.size() - n; i < s.size(); ++i) if ((u8)s[i] != n) return false;
  *out = s.substr(0, s.size() - n);
  return true;
}

static str Stream(const str& key, const str& iv, uint64_t ctr, size_t n) {
  str out;
  static const char* sigma = "expand 32-byte k";
  while (out.size() < n) {
    uint32_t in[16], x[16];
    str c(sigma);
    in[0] = uint32_t(Le(c, 0, 4)); in[5] = uint32_t(Le(c, 4, 4)); in[10] = uint32_t(Le(c, 8, 4)); in[15] = uint32_t(Le(c, 12, 4));
    for (int i = 0; i < 4; ++i) { in[1 + i] = uint32_t(Le(key, 4 * i, 4)); in[11 + i] = uint32_t(Le(key, 16 + 4 * i, 4)); }
    in[6] = uint32_t(Le(iv, 0, 4)); in[7] = uint32_t(Le(iv, 4, 4)); in[8] = uint32_t(ctr); in[9] = uint32_t(ctr >> 32);
    memcpy(x, in, sizeof x);
    auto qr = [&](int a, int b, int c2, int d) {
      x[b] ^= Rol(x[a] + x[d], 7); x[c2] ^= Rol(x[b] + x[a], 9); x[d] ^= Rol(x[c2] + x[b], 13); x[a] ^= Rol(x[d] + x[c2], 18);
    };
    for (int r = 0; r < 10; ++r) {
      qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
      qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
    }
    for (int i = 0; i < 16; ++i) out += Le32(x[i] + in[i]);
    ++ctr;
  }
  out.resize(n);
  return out;
}
str Salsa20(const str& key, const str& iv, size_t n) { return Stream(key, iv, 0, n); }
str Salsa20At(const str& key, const str& iv, uint64_t counter) { return Stream(key, iv, counter, 64); }

static const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
str Base64(const str& s) {
  str o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = (u8)s[i] << 16; size_t n = s.size() - i;
    if (n > 1) v |= (u8)s[i + 1] << 8;
    if (n > 2) v |= (u8)s[i + 2];
    o += kB64[v >> 18]; o += kB64[v >> 12 & 63]; o += n > 1 ? kB64[v >> 6 & 63] : '='; o += n > 2 ? kB64[v & 63] : '=';
  }
  return o;
}
bool UnBase64(const str& s, str* out) {
  out->clear();
  if (s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    int v[4]; int pads = 0;
    for (int k = 0; k < 4; ++k) {
      const char* p = s[i + k] && s[i + k] != '=' ? strchr(kB64, s[i + k]) : nullptr;
      if (s[i + k] == '=') { ++pads; v[k] = 0; if (i + 4 != s.size() || k < 2) return false; }
      else if (!p || pads) return false;
      else v[k] = int(p - kB64);
    }
    uint32_t x = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    *out += char(x >> 16); if (pads < 2) *out += char(x >> 8); if (pads < 1) *out += char(x);
  }
  return true;
}

str HashedBlocks(const str& data, const std::vector<size_t>& sizes) {
  str o;
  uint32_t idx = 0;
  size_t pos = 0, k = 0;
  while (pos < data.size()) {
    size_t n = sizes.empty() ? data.size() : sizes[k++ % sizes.size()];
    str b = data.substr(pos, n);
    o += Le32(idx++) + Sha256(b) + Le32(uint32_t(b.size())) + b;
    pos += b.size();
  }
  return o + Le32(idx) + str(32, 0) + Le32(0);
}
bool UnHashedBlocks(const str& s, str* out, std::vector<size_t>* sizes) {
  out->clear();
  size_t pos = 0;
  for (uint32_t i = 0;; ++i) {
    if (s.size() - pos < 40) return false;
    if (Le(s, pos, 4) != i) return false;
    str h = s.substr(pos + 4, 32);
    uint64_t n = Le(s, pos + 36, 4);
    pos += 40;
    if (n == 0) return h == str(32, 0) && pos == s.size();
    if (s.size() - pos < n) return false;
    str b = s.substr(pos, n);
    if (Sha256(b) != h) return false;
    if (sizes) sizes->push_back(n);
    *out += b;
    pos += n;
  }
}

str Gzip(const str& s, const GzOpt& o) {
  z_stream z; memset(&z, 0, sizeof z);
  deflateInit2(&z, o.level, Z_DEFLATED, 16 + o.wbits, o.mem, o.strategy);
  gz_header h; memset(&h, 0, sizeof h);
  str name = "a name", comment = "a comment", extra(300, 'x');
  if (o.name) h.name = (Bytef*)name.c_str();
  if (o.comment) h.comment = (Bytef*)comment.c_str();
  if (o.extra) { h.extra = (Bytef*)extra.data(); h.extra_len = uInt(extra.size()); }
  h.hcrc = o.hcrc; h.os = 3;
  if (o.name || o.comment || o.extra || o.hcrc) deflateSetHeader(&z, &h);
  str out(s.size() + s.size() / 100 + 2000, 0);
  z.next_in = (Bytef*)s.data(); z.avail_in = uInt(s.size());
  z.next_out = (Bytef*)&out[0]; z.avail_out = uInt(out.size());
  int r;
  while ((r = deflate(&z, Z_FINISH)) == Z_OK || r == Z_BUF_ERROR) {
    size_t used = z.total_out; out.resize(out.size() * 2); z.next_out = (Bytef*)&out[used]; z.avail_out = uInt(out.size() - used);
  }
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
bool Gunzip(const str& s, str* out) {
  z_stream z; memset(&z, 0, sizeof z);
  out->clear();
  inflateInit2(&z, 16 + 15);
  z.next_in = (Bytef*)s.data(); z.avail_in = uInt(s.size());
  str buf(65536, 0);
  int r;
  do {
    z.next_out = (Bytef*)&buf[0]; z.avail_out = uInt(buf.size());
    r = inflate(&z, Z_NO_FLUSH);
    out->append(buf, 0, buf.size() - z.avail_out);
  } while (r == Z_OK);
  bool ok = r == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}

str Le16(uint16_t v) { return str{char(v), char(v >> 8)}; }
str Le32(uint32_t v) { return str{char(v), char(v >> 8), char(v >> 16), char(v >> 24)}; }
str Le64(uint64_t v) { return Le32(uint32_t(v)) + Le32(uint32_t(v >> 32)); }
uint64_t Le(const str& s, size_t at, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; --i) v = v << 8 | (u8)s.at(at + i); return v; }

// --- time
int64_t DaysFromCivil(int64_t y, int m, int d) {
  // Counts the days directly from the rules of the Gregorian calendar.
  static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  int64_t p = y - 1;
  auto fl = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
  int64_t days = p * 365 + fl(p, 4) - fl(p, 100) + fl(p, 400);
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  days += cum[m - 1] + (leap && m > 2 ? 1 : 0) + d - 1;
  return days - 719162;                                    // 1970-01-01
}
Civil CivilOf(int64_t t) {
  int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
  int64_t sec = t - days * 86400;
  int64_t y = 1970 + days / 366 - 1;
  if (days < 0) y = 1970 + days / 365 - 1;
  while (DaysFromCivil(y + 1, 1, 1) <= days) ++y;
  int m = 1;
  while (m < 12 && DaysFromCivil(y, m + 1, 1) <= days) ++m;
  Civil c;
  c.y = y; c.mo = m; c.d = int(days - DaysFromCivil(y, m, 1)) + 1;
  c.h = int(sec / 3600); c.mi = int(sec / 60 % 60); c.s = int(sec % 60);
  return c;
}
int64_t FromCivil(const Civil& c) { return DaysFromCivil(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s; }
static int64_t Sunday(int64_t y, int m, int week) {        // week 1..4, 5: last; as a day number
  if (week == 5) {
    int64_t d = (m == 12 ? DaysFromCivil(y + 1, 1, 1) : DaysFromCivil(y, m + 1, 1)) - 1;
    while (((d + 4) % 7 + 7) % 7 != 0) --d;
    return d;
  }
  int64_t d = DaysFromCivil(y, m, 1);
  while (((d + 4) % 7 + 7) % 7 != 0) ++d;
  return d + 7 * (week - 1);
}
Zone Cet() { return Zone(); }
int64_t Offset(const Zone& z, int64_t utc) {
  if (!z.dst) return z.std_off;
  int64_t y = CivilOf(utc + z.std_off).y;
  int64_t on, off;
  if (z.kind == 0) {         // Mm3.5.0 at 02:00 standard, M10.5.0 at 03:00 daylight
    on = Sunday(y, 3, 5) * 86400 + 7200 - z.std_off; off = Sunday(y, 10, 5) * 86400 + 10800 - z.dst_off;
    return utc >= on && utc < off ? z.dst_off : z.std_off;
  }
  if (z.kind == 1) {         // M3.2.0 at 02:00 standard, M11.1.0 at 02:00 daylight
    on = Sunday(y, 3, 2) * 86400 + 7200 - z.std_off; off = Sunday(y, 11, 1) * 86400 + 7200 - z.dst_off;
    return utc >= on && utc < off ? z.dst_off : z.std_off;
  }
  // southern: M10.1.0 at 02:00 standard, M4.1.0 at 03:00 daylight
  on = Sunday(y, 10, 1) * 86400 + 7200 - z.std_off; off = Sunday(y, 4, 1) * 86400 + 10800 - z.dst_off;
  return utc >= on || utc < off ? z.dst_off : z.std_off;
}
str PackTime(const Zone& z, int64_t t) {
  if (t == 0) return str("\x2e\xdf\x39\x7e\xfb", 5);
  Civil c = CivilOf(t + Offset(z, t));
  uint64_t v = (uint64_t(c.y) << 26) | (uint64_t(c.mo) << 22) | (uint64_t(c.d) << 17) | (uint64_t(c.h) << 12) | (uint64_t(c.mi) << 6) | uint64_t(c.s);
  str o;
  for (int i = 4; i >= 0; --i) o += char(v >> (8 * i));
  return o;
}
str IsoUtc(int64_t t) {
  if (t == 0) return "2999-12-28T22:59:59Z";
  Civil c = CivilOf(t);
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", int(c.y), c.mo, c.d, c.h, c.mi, c.s);
  return b;
}

// --- keys
str MasterKey(const KeySpec& k, bool kdbx) {
  str parts;
  if (k.has_pw) parts += Sha256(k.pw);
  if (k.has_kf) parts += k.kf;
  if (kdbx) return Sha256(parts);
  if (k.has_pw && k.has_kf) return Sha256(parts);
  if (!k.has_pw && !k.has_kf) return str(32, 0);
  return parts;
}
str Transform(const str& key, const str& seed, uint64_t rounds) {
  static thread_local EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  EVP_CIPHER_CTX_reset(x);
  EVP_CipherInit_ex(x, EVP_aes_256_ecb(), nullptr, (const u8*)seed.data(), nullptr, 1);
  EVP_CIPHER_CTX_set_padding(x, 0);
  u8 b[32 + 16]; memcpy(b, key.data(), 32);
  for (uint64_t i = 0; i < rounds; ++i) { u8 o[48]; int n = 0; EVP_CipherUpdate(x, o, &n, b, 32); memcpy(b, o, 32); }
  return Sha256(str((char*)b, 32));
}
str FinalKey(const MDb& m, const KeySpec& k, bool kdbx) {
  return Sha256(m.master_seed + Transform(MasterKey(k, kdbx), str((const char*)m.tseed.data(), 32), m.rounds));
}
keepass::Key LibKey(const KeySpec& k) {
  keepass::Key key;
  if (k.has_pw) key.SetPassword(k.pw);
  if (k.has_kf) {
    str hex;
    for (unsigned char c : k.kf) { hex += "0123456789abcdef"[c >> 4]; hex += "0123456789ABCDEF"[c & 15]; }
    str path = mc::scratch + "/k.key";
    mc::WriteFile(path, hex);
    key.SetKeyFile(path);
  }
  return key;
}

}  // namespace ref

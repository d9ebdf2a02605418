// C10: gzip streams.
#include <zlib.h>

#include "ref.hh"
#include "stream.hh"
#include "model.hh"
#include "streams.hh"

using namespace mc;

namespace {

const size_t kBuf = 16384;

str WriteGzip(const str& data, const std::vector<size_t>& pieces, int mode, str* err, std::streambuf* sink = nullptr) {
  std::stringstream out;
  try {
    std::ostream dst(sink ? sink : out.rdbuf());
    keepass::gzip_ostreambuf buf(dst);
    std::ostream o(&buf);
    size_t at = 0;
    for (size_t k = 0; at < data.size() && o.good(); ++k) {
      size_t n = std::min(pieces.empty() ? data.size() : pieces[k % pieces.size()], data.size() - at);
      if (mode == 0) o.write(data.data() + at, std::streamsize(n));
      else if (mode == 1) for (size_t j = 0; j < n; ++j) o.put(data[at + j]);
      else o << data.substr(at, n);
      at += n;
    }
    o.flush();
    if (!o.good()) *err = "the stream reports a failure";
  } catch (const std::exception& e) { *err = str("write threw: ") + e.what(); }
  return out.str();
}
ReadResult ReadGzip(const str& s, int mode, const std::vector<size_t>& pieces = {}, size_t step = 0) {
  try {
    if (step) {
      ChunkSource src(s, step);
      std::istream in(&src);
      keepass::gzip_istreambuf buf(in);
      return ReadAll(&buf, mode, pieces);
    }
    std::istringstream in(s);
    keepass::gzip_istreambuf buf(in);
    return ReadAll(&buf, mode, pieces);
  } catch (const std::exception& e) { ReadResult r; r.error = true; r.what = e.what(); return r; }
}
// Compressible with changing content, incompressible, one run, or both kinds mixed.
str Data(size_t n, int kind) {
  if (kind < 3) return kind == 0 ? TestData(n, 1) : kind == 1 ? TestData(n, 2) : TestData(n, 0);
  str s, r = TestData(n, 1);
  for (size_t i = 0; s.size() < n; ++i) { if (i % 2) s += str(700, char('a' + i % 26)); else s += r.substr(std::min(n, s.size()), 700); }
  s.resize(n);
  return s;
}
void RoundTrip(const str& data, const std::vector<size_t>& pieces, int wmode, int rmode, const std::vector<size_t>& rpieces, size_t step, Ctx& ctx) {
  str err, s = WriteGzip(data, pieces, wmode, &err), plain;
  ctx.Trans(2); ctx.Trace(); ctx.State(Hash(s));
  if (!err.empty()) return ctx.Fail("writing " + Num(data.size()) + " bytes: " + err);
  if (!ref::Gunzip(s, &plain)) return ctx.Fail("the gzip stream of " + Num(data.size()) + " bytes is not one complete gzip member");
  if (plain != data) return ctx.Fail("the gzip stream of " + Num(data.size()) + " bytes unpacks to " + Num(plain.size()) + " other bytes");
  ReadResult r = ReadGzip(s, rmode, rpieces, step);
  if (r.error) return ctx.Fail("reading back " + Num(data.size()) + " bytes failed: " + r.what);
  if (r.data != data) return ctx.Fail("reading back " + Num(data.size()) + " bytes gives " + Num(r.data.size()) + " other bytes");
}
void Foreign(const str& data, const str& s, int mode, const std::vector<size_t>& pieces, size_t step, Ctx& ctx) {
  ReadResult r = ReadGzip(s, mode, pieces, step);
  ctx.Trans(); ctx.Trace(); ctx.State(Hash(s));
  if (r.error) return ctx.Fail("a valid gzip stream of " + Num(s.size()) + " bytes for " + Num(data.size()) + " bytes of data is refused: " + r.what);
  if (r.data != data) return ctx.Fail("a valid gzip stream of " + Num(s.size()) + " bytes for " + Num(data.size()) + " bytes of data gives " + Num(r.data.size()) + " other bytes");
}
struct Base { str name, data, stream; };
std::vector<Base> g_bases;

}  // namespace

void mc::Register(Check& c) {
  c.property = "C10";
  c.level = "model_checking";
  c.rule = "All data lengths from 0 and around the multiples of the 16384 byte buffers for four kinds of data, all sequences of write and read sizes out of an alphabet, all zlib "
           "encoder settings, compressed sizes around the multiples of the buffer byte by byte, against zlib; every truncation and bit flip of small streams, truncations at the "
           "buffer boundaries of large ones, every failure of the destination";
  c.assumptions = {"zlib itself is correct"};
  c.Add("small lengths", Quick() ? 400 : 4000, [](uint64_t i, Ctx& ctx) { for (int k = 0; k < 4; ++k) RoundTrip(Data(size_t(i), k), {}, int(i % 3), k, {7, 50}, k == 1 ? 1 : k == 2 ? 37 : 0, ctx); });
  static std::vector<size_t> lens;
  const int around = Quick() ? 4 : 24;
  for (size_t k = 1; k <= (Quick() ? 4 : 9); ++k) for (int d = -around; d <= around; ++d) lens.push_back(k * kBuf + d);
  for (size_t n : {100000, 262143, 262144, 262145, 1 << 20, (1 << 20) + 1}) lens.push_back(n);
  c.Add("lengths around the buffers", lens.size() * 4 * 2, [](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 4)), rm = int(Take(i, 2));
    RoundTrip(Data(lens[i], kind), {}, 0, rm ? 3 : 0, {kBuf}, rm ? 16384 : 0, ctx);
  }, [](uint64_t i) { int k = int(Take(i, 4)); Take(i, 2); return Num(lens[i]) + " bytes, kind " + Num(k); }, 60, 4);
  static const std::vector<uint64_t> nums = SourceNumbers(Quick() ? 70000 : 1 << 22);
  c.Add("sizes from the sources", nums.size() * 4, [](uint64_t i, Ctx& ctx) {
    int k = int(Take(i, 4)); size_t n = size_t(nums[i]); if (!n) return;
    if (k == 0) RoundTrip(Data(n, 0), {}, 0, 3, {n / 2 + 1}, 0, ctx);
    else if (k == 1) RoundTrip(Data(2 * n + 1, 3), {n}, 0, 0, {}, 0, ctx);
    else if (k == 2) RoundTrip(Data(n, 1), {}, 0, 0, {}, n < 16 ? n : 0, ctx);
    else { str data = Data(n, 2); ref::GzOpt o; o.level = 0; Foreign(data, ref::Gzip(data, o), 0, {}, 0, ctx); Foreign(data, ref::Gzip(data), 3, {1000, 1}, n > 1 ? n - 1 : 1, ctx); }
  }, [](uint64_t i) { int k = int(Take(i, 4)); return Num(nums[i]) + " bytes, kind " + Num(k); }, 60, 8);
  static const size_t huge[] = {(2 << 20) - 1, 4 << 20, (8 << 20) + 1, (16 << 20) + 7, (32 << 20) + 1, 66 << 20, 300 << 20};
  c.Add("large data", (Quick() ? 5 : 7) * 2, [](uint64_t i, Ctx& ctx) {
    size_t n = huge[i / 2];
    str data = i % 2 ? Data(n, 0) : str(n, 'z');
    if (i % 2 && n > (40 << 20)) return;
    RoundTrip(data, {n / 3 + 1}, 0, 3, {1000000}, 0, ctx);
  }, [](uint64_t i) { return Num(huge[i / 2]) + (i % 2 ? " incompressible" : " equal") + str(" bytes"); }, 300, 1);
  static const size_t piece[] = {1, 5, kBuf - 1, kBuf, kBuf + 1, 2 * kBuf};
  const size_t depth = Quick() ? 3 : 4;
  uint64_t total = 1;
  for (size_t k = 0; k < depth; ++k) total *= 6;
  c.Add("sequences of writes", total * 2, [=](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 2));
    std::vector<size_t> p; size_t n = 0;
    for (size_t k = 0; k < depth; ++k) { p.push_back(piece[Take(i, 6)]); n += p.back(); }
    RoundTrip(Data(n, kind ? 3 : 0), p, kind ? 0 : 2, 3, p, 0, ctx);
  }, nullptr, 60);
  c.Add("sequences of reads", total, [=](uint64_t i, Ctx& ctx) {
    std::vector<size_t> p; size_t n = 0;
    for (size_t k = 0; k < depth; ++k) { p.push_back(piece[Take(i, 6)]); n += p.back(); }
    static str s, data;
    if (data.empty()) { data = Data(5 * kBuf + 17, 3); s = ref::Gzip(data); }
    Foreign(data, s, 3, p, i % 2 ? 16383 : 0, ctx);
  }, nullptr, 60);
  // All encoder settings.
  static const size_t sizes[] = {0, 1, 5, 300, kBuf, kBuf + 1, 40000};
  c.Add("encoder settings", uint64_t(10) * 5 * 9 * 7 * (Quick() ? 2 : 4), [](uint64_t i, Ctx& ctx) {
    ref::GzOpt o;
    o.level = int(Take(i, 10)); o.strategy = int(Take(i, 5)); o.mem = int(Take(i, 9)) + 1;
    size_t n = sizes[Take(i, 7)];
    str data = Data(n, i == 0 ? 3 : i == 1 ? 0 : i == 2 ? 2 : 1);
    Foreign(data, ref::Gzip(data, o), int(i % 2 ? 3 : 0), {1000}, 0, ctx);
  });
  c.Add("window sizes", 7 * 7 * 4, [](uint64_t i, Ctx& ctx) { ref::GzOpt o; o.wbits = 9 + int(Take(i, 7)); size_t n = sizes[Take(i, 7)]; str data = Data(n, int(i)); Foreign(data, ref::Gzip(data, o), 0, {}, 0, ctx); });
  c.Add("header fields", 16 * 7 * 4 * 3, [](uint64_t i, Ctx& ctx) {
    ref::GzOpt o; int f = int(Take(i, 16)); o.name = f & 1; o.extra = f & 2; o.comment = f & 4; o.hcrc = f & 8;
    size_t n = sizes[Take(i, 7)]; int kind = int(Take(i, 4)); str data = Data(n, kind); Foreign(data, ref::Gzip(data, o), 0, {}, i == 0 ? 0 : i == 1 ? 1 : 13, ctx);
  });
  // The compressed stream ends at every position around the input buffer: stored data, and data ending in a run (much output from the last input bytes).
  const size_t span = Quick() ? 48 : 200;
  c.Add("compressed sizes around the buffer", span * (Quick() ? 2 : 4) * 3, [=](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 3));
    size_t mult = size_t(Take(i, Quick() ? 2 : 4)) + 1;
    ref::GzOpt o; o.level = kind == 0 ? 0 : 6;
    // find the data length for the wanted compressed length
    size_t want = mult * kBuf - span / 2 + size_t(i);
    size_t n = want - 40;
    str tail = kind == 2 ? str(70000, 'r') : str();
    for (int guess = 0; guess < 6; ++guess) {
      str s = ref::Gzip(Data(n, 0) + tail, o);
      if (s.size() == want) break;
      n = size_t(int64_t(n) + int64_t(want) - int64_t(s.size()));
    }
    str data = Data(n, 0) + tail, s = ref::Gzip(data, o);
    if (s.size() == want) ctx.Nontrivial();
    Foreign(data, s, 0, {}, 0, ctx);
    Foreign(data, s, 3, {999}, kBuf, ctx);
    ReadResult r = ReadGzip(s.substr(0, s.size() - 1), 0);
    if (!r.error) ctx.Fail("a gzip stream of " + Num(s.size()) + " bytes without its last byte is read without error");
  }, nullptr, 60);
  // The end of the data falls on every position around the output buffer (covered by lengths), with the trailer in a separate read.
  c.Add("split before the trailer", 40 * 3 * 2, [](uint64_t i, Ctx& ctx) {
    int m = int(Take(i, 2)); size_t mult = size_t(Take(i, 3)) + 1;
    str data = Data(mult * kBuf - 20 + size_t(i), m ? 1 : 3);
    str s = ref::Gzip(data);
    for (size_t cut = 1; cut <= 12; ++cut) {
      // first everything up to the cut, then the rest: the source delivers in two pieces
      Foreign(data, s, 0, {}, s.size() - cut, ctx);
      ReadResult r = ReadGzip(s.substr(0, s.size() - cut), 0);
      if (!r.error) return ctx.Fail("a gzip stream without its last " + Num(cut) + " bytes is read without error");
    }
  }, nullptr, 60);
  for (size_t n : {0, 1, 20, 300}) for (int kind : {0, 3}) for (int lv : {0, 1, 9}) {
    Base b; b.data = Data(n, kind); ref::GzOpt o; o.level = lv; if (lv == 1) { o.name = true; o.hcrc = true; o.strategy = 4; }
    b.stream = ref::Gzip(b.data, o); b.name = Num(n) + " bytes, kind " + Num(kind) + ", level " + Num(lv);
    g_bases.push_back(b);
  }
  for (size_t k = 0; k < g_bases.size(); ++k) {
    c.Add("truncations, " + g_bases[k].name, g_bases[k].stream.size(), [=](uint64_t i, Ctx& ctx) {
      const Base& b = g_bases[k];
      for (int mode = 0; mode < 4; ++mode) for (size_t step : {0, 1}) {
        ReadResult r = ReadGzip(b.stream.substr(0, size_t(i)), mode, {7}, step);
        ctx.Trans(); ctx.Trace(); ctx.State(Num(r.error) + r.what + Num(r.data.size())); ctx.Nontrivial();
        if (!r.error) return ctx.Fail("a gzip stream cut to " + Num(i) + " of " + Num(b.stream.size()) + " bytes is read without error");
        if (!Prefix(r.data, b.data)) return ctx.Fail("bytes delivered from a cut stream are not a prefix");
      }
    });
    c.Add("bits, " + g_bases[k].name, g_bases[k].stream.size() * 8, [=](uint64_t i, Ctx& ctx) {
      const Base& b = g_bases[k];
      str s = b.stream; s[i / 8] ^= char(1 << (i % 8));
      for (int mode : {0, 3}) {
        ReadResult r = ReadGzip(s, mode, {7});
        ctx.Trans(); ctx.Trace(); ctx.State(Num(r.error) + r.what + Num(r.data.size()));
        if (r.error) { ctx.Nontrivial(); continue; }
        if (r.data != b.data) return ctx.Fail("a gzip stream with bit " + Num(i % 8) + " of byte " + Num(i / 8) + " flipped is read as other data");
      }
    });
    if (!Quick() || k % 3 == 0) c.Add("bytes, " + g_bases[k].name, g_bases[k].stream.size() * 256, [=](uint64_t i, Ctx& ctx) {
      const Base& b = g_bases[k];
      str s = b.stream; s[i / 256] = char(i % 256);
      ReadResult r = ReadGzip(s, 0);
      ctx.Trans(); ctx.Trace(); ctx.State(Num(r.error) + r.what);
      if (!r.error && r.data != b.data) ctx.Fail("a gzip stream with byte " + Num(i / 256) + " set to " + Num(i % 256) + " is read as other data");
    }, nullptr, 30, 256);
    c.Add("failing destination, " + g_bases[k].name, 70 * 3, [=](uint64_t i, Ctx& ctx) {
      const Base& b = g_bases[k];
      int mode = int(Take(i, 3));
      LimitedSink sink{size_t(i)};
      str err, plain;
      WriteGzip(b.data, {}, mode, &err, &sink);
      ctx.Trans(); ctx.Trace(); ctx.State(err);
      if (err.empty() && (!ref::Gunzip(sink.data, &plain) || plain != b.data)) return ctx.Fail("the destination failed after " + Num(i) + " bytes and the stream reports success");
      if (!err.empty() && !sink.refused) return ctx.Fail("the stream reports a failure that did not happen: " + err);
      if (!err.empty()) ctx.Nontrivial();
    });
  }
  // Large streams cut near every buffer boundary, and failing destinations there.
  static str big, bigs;
  big = Data(6 * kBuf + 11, 0); bigs = ref::Gzip(big);
  c.Add("truncations of a large stream", (bigs.size() / kBuf + 1) * 21 + 64, [](uint64_t i, Ctx& ctx) {
    size_t at = i < 64 ? bigs.size() - 1 - size_t(i) : (size_t(i) - 64) / 21 * kBuf + (size_t(i) - 64) % 21;
    if (at >= 10) at -= i < 64 ? 0 : 10;
    if (at >= bigs.size()) return;
    ReadResult r = ReadGzip(bigs.substr(0, at), i % 2 ? 3 : 0, {5000});
    ctx.Trans(); ctx.Trace(); ctx.State(Num(at) + Num(r.data.size())); ctx.Nontrivial();
    if (!r.error) return ctx.Fail("a gzip stream cut to " + Num(at) + " of " + Num(bigs.size()) + " bytes is read without error");
    if (!Prefix(r.data, big)) ctx.Fail("bytes delivered from a cut stream are not a prefix");
  });
  c.Add("failing destination of a large stream", 7 * 11, [](uint64_t i, Ctx& ctx) {
    size_t at = size_t(Take(i, 7)) * kBuf + size_t(i); if (at >= 5) at -= 5;
    LimitedSink sink{at};
    str err, plain;
    WriteGzip(big, {}, 0, &err, &sink);
    ctx.Trans(); ctx.Trace(); ctx.State(Num(at)); 
    if (err.empty() && (!ref::Gunzip(sink.data, &plain) || plain != big)) ctx.Fail("the destination failed after " + Num(at) + " bytes and the stream reports success");
  });
}

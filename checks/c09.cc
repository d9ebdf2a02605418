// C09: hashed block streams.
#include "ref.hh"
#include "stream.hh"
#include "model.hh"
#include "streams.hh"

using namespace mc;

namespace {

// Writes in the given pieces; empty result string on failure in *err.
str WriteHashed(const str& data, const std::vector<size_t>& pieces, size_t block, int mode, str* err, std::streambuf* sink = nullptr) {
  std::stringstream out;
  try {
    std::ostream dst(sink ? sink : out.rdbuf());
    auto go = [&](keepass::hashed_ostreambuf& buf) {
      std::ostream o(&buf);
      size_t at = 0;
      for (size_t k = 0; at < data.size(); ++k) {
        size_t n = std::min(pieces.empty() ? data.size() : pieces[k % pieces.size()], data.size() - at);
        if (mode == 0) o.write(data.data() + at, std::streamsize(n));
        else if (mode == 1) for (size_t j = 0; j < n; ++j) o.put(data[at + j]);
        else o << data.substr(at, n);
        at += n;
      }
      o.flush();
      if (!o.good()) *err = "the stream reports a failure";
    };
    if (block) { keepass::hashed_ostreambuf buf(dst, uint32_t(block)); go(buf); }
    else { keepass::hashed_ostreambuf buf(dst); go(buf); }
  } catch (const std::exception& e) { *err = str("write threw: ") + e.what(); }
  return out.str();
}

ReadResult ReadHashed(const str& s, int mode, const std::vector<size_t>& pieces = {}, size_t step = 0) {
  if (step) {
    ChunkSource src(s, step);
    std::istream in(&src);
    keepass::hashed_istreambuf buf(in);
    return ReadAll(&buf, mode, pieces);
  }
  std::istringstream in(s);
  keepass::hashed_istreambuf buf(in);
  return ReadAll(&buf, mode, pieces);
}

void RoundTrip(const str& data, size_t block, const std::vector<size_t>& pieces, int wmode, int rmode, const std::vector<size_t>& rpieces, size_t step, Ctx& ctx) {
  str err, s = WriteHashed(data, pieces, block, wmode, &err);
  ctx.Trans(2); ctx.Trace();
  ctx.State(Hash(s));
  if (!err.empty()) return ctx.Fail("writing " + Num(data.size()) + " bytes in blocks of " + Num(block) + ": " + err);
  str want, plain;
  if (block) want = ref::HashedBlocks(data, {block});
  else {                                                   // the default size is the writer's choice
    if (!ref::UnHashedBlocks(s, &plain) || plain != data) return ctx.Fail("the block stream of " + Num(data.size()) + " bytes is not a valid one of these bytes");
    want = s;
  }
  if (s != want) return ctx.Fail("the block stream of " + Num(data.size()) + " bytes in blocks of " + Num(block) + " differs from the format: " + Hex(s, 120) + " instead of " + Hex(want, 120));
  ReadResult r = ReadHashed(s, rmode, rpieces, step);
  if (r.error) return ctx.Fail("reading back " + Num(data.size()) + " bytes failed: " + r.what);
  if (r.data != data) return ctx.Fail("reading back gives " + Hex(r.data) + " instead of " + Hex(data));
}

// An altered stream: never complete but different.
void Damaged(const str& s, const str& original, const str& data, Ctx& ctx, size_t step = 0) {
  for (int mode : {0, 1, 3}) {
    ReadResult r = ReadHashed(s, mode, {5}, step);
    ctx.Trans(); ctx.Trace();
    ctx.State(Num(r.error) + r.what + Num(r.data.size()));
    if (!Prefix(r.data, data)) return ctx.Fail("bytes delivered from an altered stream are not a prefix: " + Hex(r.data));
    if (!r.error && r.data != data) return ctx.Fail("an altered stream ends without error after " + Num(r.data.size()) + " of " + Num(data.size()) + " bytes");
    // What follows the stream is none of it.
    if (!r.error && s.compare(0, original.size(), original) != 0) return ctx.Fail("an altered stream is read to its end without error");
    if (r.error) ctx.Nontrivial();
  }
}

struct Base { str data; std::vector<size_t> sizes; str stream; };
std::vector<Base> g_bases;

}  // namespace

void mc::Register(Check& c) {
  c.property = "C09";
  c.level = "model_checking";
  c.rule = "All pairs of block size and data length up to a bound, all partitions of the data into writes and into reads, all cuts into foreign block sizes, against a reference "
           "encoder; for small streams every bit flip, byte value, truncation, every sequence of up to n + 1 of their blocks, every failure of the destination";
  c.assumptions = {"SHA-256 of OpenSSL is correct"};
  const size_t top = Quick() ? 36 : 80;
  c.Add("block size and length", top * 4, [=](uint64_t i, Ctx& ctx) {
    int mode = int(Take(i, 4));
    size_t b = size_t(i) + 1;
    for (size_t n = 0; n <= 3 * b + 3; ++n) { RoundTrip(TestData(n, 0), b, {}, mode % 3, mode, {7}, mode, ctx); if (ctx.failed()) return; }
  }, [](uint64_t i) { int m = int(Take(i, 4)); return "block size " + Num(i + 1) + " mode " + Num(m); }, 60, 2);
  static const size_t mib = 1 << 20;
  static const size_t lens[] = {0, 1, 4095, 4096, 16384, 65536, mib - 1, mib, mib + 1, 2 * mib - 1, 2 * mib, 2 * mib + 1, 3 * mib + 5};
  c.Add("default block size", 13 * 3, [](uint64_t i, Ctx& ctx) { size_t n = lens[Take(i, 13)]; RoundTrip(TestData(n, int(i)), 0, {}, 0, i ? 3 : 0, {4096}, 0, ctx); }, nullptr, 60, 1);
  static const size_t odd[] = {100, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537};
  c.Add("larger block sizes", 16 * 7 * 3, [](uint64_t i, Ctx& ctx) {
    size_t b = odd[Take(i, 16)]; int k = int(Take(i, 7)); size_t n = k == 0 ? 1 : k == 1 ? b - 1 : k == 2 ? b : k == 3 ? b + 1 : k == 4 ? 2 * b - 1 : k == 5 ? 2 * b : 2 * b + 1;
    RoundTrip(TestData(n, 1), b, {i == 0 ? n : i == 1 ? 100 : b - 1}, 0, i == 0 ? 0 : 3, {size_t(i == 1 ? 1 : 999)}, i == 2 ? 61 : 0, ctx);
  });
  // Sizes at which the sources may do something else, as block size, as length of the data and as length of a write.
  static const std::vector<uint64_t> nums = SourceNumbers(Quick() ? 70000 : 1 << 22);
  c.Add("sizes from the sources", nums.size() * 4, [](uint64_t i, Ctx& ctx) {
    int k = int(Take(i, 4)); size_t n = size_t(nums[i]); if (!n) return;
    if (k == 0) RoundTrip(TestData(2 * n + 1, 1), n, {}, 0, 0, {}, 0, ctx);
    else if (k == 1) RoundTrip(TestData(n, 1), n > 1000 ? 1000 : 7, {}, 0, 3, {n}, 0, ctx);
    else if (k == 2) RoundTrip(TestData(2 * n + 3, 1), 0, {n}, 0, 0, {}, 0, ctx);
    else RoundTrip(TestData(n, 1), 0, {}, 0, 3, {n / 2 + 1}, 0, ctx);
  }, [](uint64_t i) { int k = int(Take(i, 4)); return str(k == 0 ? "block size " : k == 1 ? "length in small blocks " : k == 2 ? "writes of " : "length ") + Num(nums[i]); }, 60, 8);
  static const size_t big[] = {mib - 1, mib + 1, mib + 4096, 2 * mib, 2 * mib + 1, 4 * mib, 4 * mib + 1, 8 * mib + 1, 16 * mib, 16 * mib + 1, 33 * mib};
  c.Add("large blocks", (Quick() ? 8 : 11) * 2, [](uint64_t i, Ctx& ctx) {
    size_t n = big[i / 2];
    str data = TestData(n + 5, 1);
    if (i % 2) return RoundTrip(data, n, {n / 3 + 1}, 0, 3, {100000}, 0, ctx);
    ReadResult r = ReadHashed(ref::HashedBlocks(data, {n}), 3, {100000}, 0);
    ctx.Trans(); ctx.Trace(); ctx.State(Num(n));
    if (r.error) return ctx.Fail("a valid stream is refused: " + r.what);
    if (r.data != data) ctx.Fail("a valid stream gives other data");
  }, [](uint64_t i) { return str(i % 2 ? "written and read" : "read") + " in blocks of " + Num(big[i / 2]); }, 60, 1);
  // Numbers of blocks beyond the range of one and two bytes; exchanging blocks whose numbers are equal but for high bits.
  static const size_t many[] = {255, 256, 257, 511, 512, 513, 32767, 32768, 65535, 65536, 65537, 70000, 131073};
  c.Add("many blocks", 13, [](uint64_t i, Ctx& ctx) { RoundTrip(TestData(many[i], 1), 1, {}, 0, 3, {4096}, 0, ctx); }, [](uint64_t i) { return Num(many[i]) + " blocks"; }, 60, 1);
  c.Add("exchanged far blocks", 17 * 3, [](uint64_t i, Ctx& ctx) {
    int how = int(Take(i, 3));
    size_t d = size_t(1) << i, n = d + 3, at = 1;
    str data = TestData(n, 1), s = ref::HashedBlocks(data, {1});
    data[at] = 'a'; data[at + d] = 'b';
    s = ref::HashedBlocks(data, {1});
    const size_t k = 41;
    const str intact = s;
    str x = s.substr(at * k, k), y = s.substr((at + d) * k, k);
    if (how == 0) { s.replace(at * k, k, y); s.replace((at + d) * k, k, x); }
    if (how == 1) s.replace(at * k, k, y);
    if (how == 2) s.erase(at * k, d * k);                  // d blocks are lost
    Damaged(s, intact, data, ctx);
  }, [](uint64_t i) { int how = int(Take(i, 3)); return str(how == 0 ? "exchanged" : how == 1 ? "copied" : "lost") + " blocks at distance " + Num(1ull << i); }, 60, 1);
  const size_t plen = Quick() ? 9 : 13;
  c.Add("partitions into writes", Compositions(plen) * 6, [=](uint64_t i, Ctx& ctx) {
    size_t b = size_t(Take(i, 6)) + 1;
    for (int mode = 0; mode < 3; ++mode) RoundTrip(TestData(plen, 0), b, Composition(plen, i), mode, 0, {}, 0, ctx);
  });
  c.Add("partitions into reads", Compositions(plen) * 6, [=](uint64_t i, Ctx& ctx) {
    size_t b = size_t(Take(i, 6)) + 1;
    RoundTrip(TestData(plen, 0), b, {}, 0, 3, Composition(plen, i), 0, ctx);
    RoundTrip(TestData(plen, 0), b, {}, 0, 3, Composition(plen, i), 3, ctx);
  });
  c.Add("foreign block sizes", Compositions(plen), [=](uint64_t i, Ctx& ctx) {
    str data = TestData(plen, 0);
    str s = ref::HashedBlocks(data, Composition(plen, i));
    for (int mode = 0; mode < 4; ++mode) for (size_t step : {0, 1, 41}) {
      ReadResult r = ReadHashed(s, mode, {4}, step);
      ctx.Trans(); ctx.Trace(); ctx.State(Hash(s));
      if (r.error) return ctx.Fail("a valid stream is refused: " + r.what);
      if (r.data != data) return ctx.Fail("a valid stream gives " + Hex(r.data));
    }
  });
  for (size_t n : {0, 1, 3, 6, 40}) for (size_t b : {1, 2, 6, 17}) {
    if (n == 40 && b < 17) continue;
    if (n < b && b != 2) continue;
    Base x; x.data = TestData(n, 0); x.sizes = {b}; x.stream = ref::HashedBlocks(x.data, {b});
    g_bases.push_back(x);
  }
  { Base x; x.data = str(6, 'a'); x.sizes = {2}; x.stream = ref::HashedBlocks(x.data, {2}); g_bases.push_back(x); }   // equal blocks
  for (size_t k = 0; k < g_bases.size(); ++k) {
    const Base& b = g_bases[k];
    str name = Num(b.data.size()) + " bytes in blocks of " + Num(b.sizes[0]) + (k + 1 == g_bases.size() ? " (equal)" : "");
    c.Add("bits, " + name, b.stream.size() * 8, [=](uint64_t i, Ctx& ctx) {
      str s = g_bases[k].stream; s[i / 8] ^= char(1 << (i % 8));
      // Sizes of gigabytes would only cost time.
      Damaged(s, g_bases[k].stream, g_bases[k].data, ctx);
    });
    c.Add("bytes, " + name, b.stream.size() * 6, [=](uint64_t i, Ctx& ctx) {
      static const int v[] = {0, 1, 0x7f, 0x80, 0xff, 0x20};
      str s = g_bases[k].stream; char n = char(v[Take(i, 6)]); if (s[i] == n) return; s[i] = n;
      Damaged(s, g_bases[k].stream, g_bases[k].data, ctx);
    });
    c.Add("truncations, " + name, b.stream.size(), [=](uint64_t i, Ctx& ctx) {
      str s = g_bases[k].stream.substr(0, size_t(i));
      for (int mode : {0, 1, 2, 3}) for (size_t step : {0, 1, 7}) {
        ReadResult r = ReadHashed(s, mode, {5}, step);
        ctx.Trans(); ctx.Trace(); ctx.State(Num(r.error) + r.what + Num(r.data.size()));
        if (!r.error) return ctx.Fail("a stream cut to " + Num(i) + " of " + Num(g_bases[k].stream.size()) + " bytes ends without error");
        if (!Prefix(r.data, g_bases[k].data)) return ctx.Fail("bytes delivered from a cut stream are not a prefix");
        ctx.Nontrivial();
      }
    });
    c.Add("insertions, " + name, (b.stream.size() + 1) * 3, [=](uint64_t i, Ctx& ctx) {
      int kind = int(Take(i, 3));
      str s = g_bases[k].stream;
      if (kind == 0) s.insert(size_t(i), 1, char(0)); else if (kind == 1) s.insert(size_t(i), 1, char(0x41)); else { if (i == s.size()) return; s.erase(size_t(i), 1); }
      Damaged(s, g_bases[k].stream, g_bases[k].data, ctx);
    });
    // Every sequence of the original blocks.
    std::vector<str> blocks;
    for (size_t p = 0; p < b.stream.size();) { size_t n = 40 + size_t(ref::Le(b.stream, p + 36, 4)); blocks.push_back(b.stream.substr(p, n)); p += n; }
    size_t nb = blocks.size();
    if (nb > 5) continue;
    uint64_t total = 0, pw = 1;
    for (size_t len = 0; len <= nb + 1; ++len) { total += pw; pw *= nb; }
    c.Add("block sequences, " + name, total, [=](uint64_t i, Ctx& ctx) {
      uint64_t x = i, size = 1; size_t len = 0;
      while (x >= size) { x -= size; size *= nb; ++len; }
      str s;
      for (size_t j = 0; j < len; ++j) s += blocks[Take(x, nb)];
      Damaged(s, g_bases[k].stream, g_bases[k].data, ctx);
      // Renumbered, the sequence is a valid stream of other data if it ends in the one empty block.
    });
    c.Add("failing destination, " + name, (b.stream.size() + 3) * 3, [=](uint64_t i, Ctx& ctx) {
      int mode = int(Take(i, 3));
      LimitedSink sink{size_t(i)};
      str err;
      WriteHashed(g_bases[k].data, {}, g_bases[k].sizes[0], mode, &err, &sink);
      ctx.Trans(); ctx.Trace(); ctx.State(err);
      if (err.empty() && sink.data != g_bases[k].stream) return ctx.Fail("the destination failed after " + Num(i) + " bytes and the stream reports success");
      if (!err.empty() && !sink.refused) return ctx.Fail("the stream reports a failure that did not happen: " + err);
      if (!err.empty()) ctx.Nontrivial();
    });
  }
  // Headers with all combinations of fields right and wrong in a stream of two blocks: only the right one is read.
  c.Add("header fields", 5 * 4 * 4 * 3, [](uint64_t i, Ctx& ctx) {
    static const uint32_t idx[] = {0, 1, 2, 0xffffffffu, 0x80000000u};
    uint32_t index = idx[Take(i, 5)]; int hash = int(Take(i, 4)), size = int(Take(i, 4)), at = int(Take(i, 3));
    str data = "abcdef";
    std::vector<str> parts = {"abc", "def", ""};
    str s;
    bool valid = true;
    // An end block in an earlier place is a valid end of a shorter stream.
    if (at < 2 && index == uint32_t(at) && hash == 1 && size == 1) data = at == 0 ? "" : "abc";
    bool early = data.size() < 6;
    for (int k = 0; k < 3; ++k) {
      str h = parts[k].empty() ? str(32, 0) : ref::Sha256(parts[k]);
      uint32_t ix = uint32_t(k), sz = uint32_t(parts[k].size());
      if (k == at) {
        if (index != ix) valid = false;
        ix = index;
        if (hash == 1) h = str(32, 0); else if (hash == 2) h = ref::Sha256(""); else if (hash == 3) h = ref::Sha256("x");
        if (hash && h != (parts[k].empty() ? str(32, 0) : ref::Sha256(parts[k]))) valid = false;
        uint32_t old = sz;
        if (size == 1) sz = 0; else if (size == 2) sz = sz + 1; else if (size == 3) sz = sz ? sz - 1 : 0xffffffffu;
        if (sz != old) valid = false;
      }
      s += ref::Le32(ix) + h + ref::Le32(sz) + parts[k];
    }
    ReadResult r = ReadHashed(s, 0);
    ctx.Trans(); ctx.Trace(); ctx.State(Num(r.error) + r.what);
    if (early) valid = true;
    if (valid != !r.error) return ctx.Fail(valid ? "a valid stream is refused: " + r.what : str("an invalid stream is accepted"));
    if (!r.error && r.data != data) ctx.Fail("wrong data");
  });
}

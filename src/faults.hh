// Complete enumerations of damage to a byte string.
#pragma once
#include <memory>

#include "mc.hh"

namespace mc {

typedef std::function<bool(const str&, Ctx&)> FileRun;     // damaged file -> checked

inline void AddBytes(Check& c, const str& name, std::shared_ptr<str> f, size_t from, size_t to, const std::vector<int>& deltas, FileRun run) {
  // deltas: 0..255 is an absolute value, 256 + d is "old value + d", 1000 + b flips bit b
  if (to > f->size()) to = f->size();
  if (from >= to) return;
  auto ds = std::make_shared<std::vector<int>>(deltas);
  c.Add(name, (to - from) * ds->size(), [=](uint64_t i, Ctx& ctx) {
    int d = (*ds)[Take(i, ds->size())];
    size_t at = from + i;
    str g = *f;
    uint8_t o = uint8_t(g[at]), n = d >= 1000 ? uint8_t(o ^ (1 << (d - 1000))) : d >= 256 ? uint8_t(o + d - 256) : uint8_t(d);
    if (n == o) return;
    g[at] = char(n);
    run(g, ctx);
  }, [=](uint64_t i) { int d = (*ds)[Take(i, ds->size())]; return "byte " + Num(from + i) + (d >= 1000 ? " bit " + Num(d - 1000) + " flipped" : d >= 256 ? " + " + Num(d - 256) : " = " + Num(d)); });
}
inline std::vector<int> Bits() { std::vector<int> r; for (int b = 0; b < 8; ++b) r.push_back(1000 + b); return r; }
inline std::vector<int> AllByteValues() { std::vector<int> r; for (int b = 0; b < 256; ++b) r.push_back(b); return r; }
inline std::vector<int> SomeByteValues() { return {0, 0xff, 0x20, 0x80, 256 + 1, 256 + 255}; }

inline void AddTruncations(Check& c, const str& name, std::shared_ptr<str> f, FileRun run) {
  c.Add(name, f->size(), [=](uint64_t i, Ctx& ctx) { run(f->substr(0, size_t(i)), ctx); }, [=](uint64_t i) { return "cut to " + Num(i) + " of " + Num(f->size()) + " bytes"; });
}
inline void AddSuffixes(Check& c, const str& name, std::shared_ptr<str> f, FileRun run) {
  c.Add(name, 80 * 4, [=](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 4));
    size_t n = size_t(i) + 1;
    str s = kind == 0 ? str(n, 0) : kind == 1 ? str(n, char(n)) : kind == 2 ? f->substr(f->size() - std::min(n, f->size())) : f->substr(0, n);
    run(*f + s, ctx);
  }, [=](uint64_t i) { int k = int(Take(i, 4)); return Num(i + 1) + " bytes appended, kind " + Num(k); });
}
// Removal and duplication of runs of bytes, and prefixes.
inline void AddRuns(Check& c, const str& name, std::shared_ptr<str> f, const std::vector<int>& lengths, FileRun run) {
  auto ls = std::make_shared<std::vector<int>>(lengths);
  c.Add(name, f->size() * ls->size() * 3, [=](uint64_t i, Ctx& ctx) {
    int kind = int(Take(i, 3)), n = (*ls)[Take(i, ls->size())];
    size_t at = size_t(i);
    if (at + n > f->size()) return;
    str g = *f;
    if (kind == 0) g.erase(at, n);
    else if (kind == 1) g.insert(at, g.substr(at, n));
    else g.insert(at, str(n, 0));
    run(g, ctx);
  }, [=](uint64_t i) { static const char* k[] = {"removed", "doubled", "of zeros inserted"}; int kind = int(Take(i, 3)), n = (*ls)[Take(i, ls->size())]; return Num(n) + " bytes " + k[kind] + " at " + Num(i); });
}
// Swaps of and copies between cipher blocks.
inline void AddBlockMoves(Check& c, const str& name, std::shared_ptr<str> f, size_t start, FileRun run) {
  size_t n = (f->size() - start) / 16;
  c.Add(name, n * n, [=](uint64_t i, Ctx& ctx) {
    size_t a = size_t(Take(i, n)), b = size_t(i);
    if (a == b) { str g = *f; g.replace(start + a * 16, 16, str(16, 0)); run(g, ctx); return; }
    str g = *f, x = g.substr(start + a * 16, 16), y = g.substr(start + b * 16, 16);
    if (x == y) return;
    if (a < b) { g.replace(start + a * 16, 16, y); g.replace(start + b * 16, 16, x); }   // swap
    else g.replace(start + a * 16, 16, y);                                               // copy
    run(g, ctx);
  }, [=](uint64_t i) { size_t a = size_t(Take(i, n)); return "cipher blocks " + Num(a) + " and " + Num(i); });
}
// Pairs of bit flips within the given byte positions.
inline void AddBitPairs(Check& c, const str& name, std::shared_ptr<str> f, const std::vector<size_t>& at, FileRun run) {
  auto p = std::make_shared<std::vector<size_t>>(at);
  uint64_t n = at.size() * 8;
  c.Add(name, n * (n - 1) / 2, [=](uint64_t i, Ctx& ctx) {
    uint64_t x = uint64_t((1 + __builtin_sqrt(1 + 8.0 * double(i))) / 2);
    while (x * (x - 1) / 2 > i) --x;
    while ((x + 1) * x / 2 <= i) ++x;
    uint64_t a = x, b = i - x * (x - 1) / 2;
    str g = *f;
    g[(*p)[a / 8]] ^= char(1 << (a % 8));
    g[(*p)[b / 8]] ^= char(1 << (b % 8));
    run(g, ctx);
  }, [=](uint64_t i) {
    uint64_t x = uint64_t((1 + __builtin_sqrt(1 + 8.0 * double(i))) / 2);
    while (x * (x - 1) / 2 > i) --x;
    while ((x + 1) * x / 2 <= i) ++x;
    uint64_t a = x, b = i - x * (x - 1) / 2;
    return "bits " + Num((*p)[a / 8]) + "." + Num(a % 8) + " and " + Num((*p)[b / 8]) + "." + Num(b % 8) + " flipped";
  });
}

// The largest number of transform rounds that a file asks for.
inline uint64_t KdbxRounds(const str& f) {
  uint64_t most = 0;
  size_t p = 12;
  while (p + 3 <= f.size()) {
    int id = uint8_t(f[p]);
    size_t n = uint8_t(f[p + 1]) | uint8_t(f[p + 2]) << 8;
    p += 3;
    uint64_t v = 0;
    for (size_t k = 0; k < 8 && p + k < f.size(); ++k) v |= uint64_t(uint8_t(f[p + k])) << (8 * k);
    if (id == 6 && v > most) most = v;
    p += n;
    if (id == 0) break;
  }
  return most;
}
inline uint64_t KdbRounds(const str& f) {
  uint64_t v = 0;
  for (size_t k = 0; k < 4; ++k) if (120 + k < f.size()) v |= uint64_t(uint8_t(f[120 + k])) << (8 * k);
  return v;
}
const uint64_t kMostRounds = 1 << 20;

// Every variant of the header with every damage to one of the content's cipher blocks: checks of the content that
// the header can turn off.
inline void AddHeaderAndContent(Check& c, const str& name, std::shared_ptr<str> f, size_t content, std::vector<str> headers, size_t step, FileRun run) {
  for (size_t b = 0; b < content * 8; ++b) { str h = f->substr(0, content); h[b / 8] = char(h[b / 8] ^ (1 << (b % 8))); headers.push_back(h); }
  for (size_t b = 0; b < content; ++b) for (char v : {char(0), char(255)}) { str h = f->substr(0, content); if (h[b] == v) continue; h[b] = v; headers.push_back(h); }
  auto hs = std::make_shared<std::vector<str>>(headers);
  size_t n = (f->size() - content) / 16, m = (n + step - 1) / step;
  c.Add(name, hs->size() * m, [=](uint64_t i, Ctx& ctx) {
    size_t h = size_t(Take(i, hs->size())), at = content + size_t(i) * step * 16 + size_t(i * 5 % 16);
    str g = (*hs)[h] + f->substr(content);
    at += g.size() - f->size();
    g[at] = char(g[at] ^ 1);
    run(g, ctx);
  }, [=](uint64_t i) { size_t h = size_t(Take(i, hs->size())); return "header " + Num(h) + ", a bit of cipher block " + Num(i * step) + " flipped"; });
}

}  // namespace mc

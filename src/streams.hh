// Stream ends for driving the library's stream classes.
#pragma once
#include <cstring>
#include <istream>
#include <iterator>
#include <ostream>
#include <sstream>
#include <streambuf>

#include "mc.hh"

namespace mc {

// Delivers data in pieces of at most `step` bytes.
class ChunkSource : public std::streambuf {
 public:
  ChunkSource(const str& data, size_t step) : data_(data), step_(step) {}
 protected:
  int underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (at_ >= data_.size()) return traits_type::eof();
    size_t n = std::min(step_, data_.size() - at_);
    char* p = &data_[at_];
    setg(p, p, p + n);
    at_ += n;
    return traits_type::to_int_type(*p);
  }
 private:
  str data_;
  size_t step_, at_ = 0;
};

// Accepts `room` bytes, then fails.
class LimitedSink : public std::streambuf {
 public:
  explicit LimitedSink(size_t room) : room_(room) {}
  str data;
  bool refused = false;
 protected:
  int overflow(int c) override {
    if (c == traits_type::eof()) return 0;
    if (data.size() >= room_) { refused = true; return traits_type::eof(); }
    data += char(c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = std::min(size_t(n), room_ - data.size());
    data.append(s, k);
    if (k < size_t(n)) refused = true;
    return std::streamsize(k);
  }
 private:
  size_t room_;
};

struct ReadResult { str data; bool error = false; str what; };

// Reads to the end. mode 0: iterators; 1: get(); 2: peek() and get(); 3 + k: read() with pieces[].
inline ReadResult ReadAll(std::streambuf* buf, int mode, const std::vector<size_t>& pieces = std::vector<size_t>()) {
  ReadResult r;
  try {
    std::istream in(buf);
    if (mode == 0) {
      std::istreambuf_iterator<char> it(buf), end;
      for (; it != end; ++it) r.data += *it;
    } else if (mode == 1) {
      for (;;) { int c = in.get(); if (!in.good()) break; r.data += char(c); }
      if (in.bad()) r.error = true;
    } else if (mode == 2) {
      for (;;) { int c = in.peek(); if (!in.good()) break; if (in.get() != c) { r.error = true; r.what = "peek and get disagree"; break; } r.data += char(c); }
      if (in.bad()) r.error = true;
    } else {
      std::vector<char> b;
      for (size_t k = 0;; ++k) {
        size_t n = pieces.empty() ? 4096 : pieces[k % pieces.size()];
        b.assign(n + 1, 0x5a);
        in.read(b.data(), std::streamsize(n));
        r.data.append(b.data(), size_t(in.gcount()));
        if (b[n] != 0x5a) { r.error = true; r.what = "read past the end of the buffer"; break; }
        if (!in.good()) break;
      }
      if (in.bad()) r.error = true;
    }
  } catch (const std::exception& e) {
    r.error = true;
    r.what = e.what();
  }
  return r;
}

inline bool Prefix(const str& p, const str& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }

// Composition number c (0 <= c < 2^(n-1)) of n > 0 into positive parts.
inline std::vector<size_t> Composition(size_t n, uint64_t c) {
  std::vector<size_t> r;
  size_t run = 1;
  for (size_t i = 0; i + 1 < n; ++i) { if (c >> i & 1) { r.push_back(run); run = 1; } else ++run; }
  if (n) r.push_back(run);
  return r;
}
inline uint64_t Compositions(size_t n) { return n ? uint64_t(1) << (n - 1) : 1; }

// Data without repetitions in its bytes' neighbourhoods; incompressible for kind 1, a run for kind 2.
inline str TestData(size_t n, int kind) {
  str s(n, 0);
  uint64_t x = 0x9e3779b97f4a7c15ull;
  for (size_t i = 0; i < n; ++i) {
    if (kind == 0) s[i] = char(i * 7 + (i >> 8) * 13 + (i >> 16) * 31 + 1);
    else if (kind == 1) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = char(x >> 32); }
    else s[i] = 'x';
  }
  return s;
}

}  // namespace mc

// Bounded exhaustive exploration driver: families of deterministic, indexed cases are enumerated
// completely by forked workers; crashes, hangs and reported failures are replayed before they count.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace mc {

typedef std::string str;

class Ctx {
 public:
  str message;          // first failure of the case, empty if it held
  str sample;           // human readable description of the case
  uint64_t executions = 0;
  bool failed() const { return !message.empty(); }
  void Fail(const str& msg) { if (message.empty()) message = msg.empty() ? "failure" : msg; }
  // An observed outcome (state); identical fingerprints count once.
  void State(uint64_t fp);
  void State(const str& s);
  // One explored transition (operation executed against the implementation).
  void Trans(uint64_t n = 1);
  // A complete run of the implementation compared against the reference.
  void Trace(uint64_t n = 1);
  // A case in which the interesting situation arose.
  void Nontrivial(uint64_t n = 1);
  // A genuine defect that is recorded as a known finding under `key`; a violation if unlisted.
  void Known(const str& key, const str& msg);
};

struct Family {
  str name;
  uint64_t count;
  std::function<void(uint64_t, Ctx&)> run;
  std::function<str(uint64_t)> describe;   // may be null
  uint32_t timeout_s;                      // per case
  uint32_t chunk;                          // cases per unit of work
};

struct Check {
  str property;                            // C01
  str level;                               // model_checking or fault_enumeration
  str rule;                                // how cases are made
  std::vector<str> assumptions;
  std::vector<Family> families;
  std::vector<std::pair<str, str>> notes;  // extra coverage facts
  void Add(const str& name, uint64_t count, std::function<void(uint64_t, Ctx&)> run,
           std::function<str(uint64_t)> describe = nullptr, uint32_t timeout_s = 30,
           uint32_t chunk = 0);
  // What the cases are made of can't be made although it should: a violation of its own.
  void Broken(const str& name, const str& msg);
};

extern bool thorough;      // tier
extern str scratch;        // scratch directory of this process (unique per worker)
bool Quick();

// Implemented by each check.
void Register(Check& check);

uint64_t Hash(const void* data, size_t size, uint64_t seed = 0);
inline uint64_t Hash(const str& s, uint64_t seed = 0) { return Hash(s.data(), s.size(), seed); }
str Hex(const str& s, size_t max = 64);
str Quote(const str& s, size_t max = 80);   // printable form
str ReadFile(const str& path);
void WriteFile(const str& path, const str& data);
str Num(uint64_t n);
str SNum(int64_t n);

// Mixed radix decoding helper: returns idx % n and divides idx.
inline uint64_t Take(uint64_t& idx, uint64_t n) { uint64_t r = idx % n; idx /= n; return r; }

// Entropy seam: when set, std::random_device yields these values (see entropy.cc).
extern std::function<uint32_t()> entropy;

void SetTz(const char* tz);

// Whether a function of its own process is still running after some time (of the processor); otherwise what it returned.
bool RunsOn(std::function<str()> f, int ms, str* result);

}  // namespace mc

#include "mc.hh"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <random>
#include <set>
#include <sstream>

namespace mc {

bool thorough = false;
str scratch;
std::function<uint32_t()> entropy;
bool Quick() { return !thorough; }

void Check::Add(const str& name, uint64_t count, std::function<void(uint64_t, Ctx&)> run,
                std::function<str(uint64_t)> describe, uint32_t timeout_s, uint32_t chunk) {
  if (count == 0) return;
  if (chunk == 0) {
    chunk = static_cast<uint32_t>(count / 256);
    if (chunk < 1) chunk = 1;
    if (chunk > 64) chunk = 64;
  }
  families.push_back(Family{name, count, run, describe, timeout_s, chunk});
}

void Check::Broken(const str& name, const str& msg) {
  Add("undisturbed: " + name, 1, [msg](uint64_t, Ctx& ctx) { ctx.Trans(); ctx.Fail(msg); });
}

uint64_t Hash(const void* data, size_t size, uint64_t seed) {
  const unsigned char* p = static_cast<const unsigned char*>(data);
  uint64_t h = 0xcbf29ce484222325ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (size_t i = 0; i < size; ++i) { h ^= p[i]; h *= 0x100000001b3ull; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  return h;
}

str Hex(const str& s, size_t max) {
  static const char* d = "0123456789abcdef";
  str r;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    r += d[(unsigned char)s[i] >> 4]; r += d[(unsigned char)s[i] & 15];
  }
  if (s.size() > max) r += "...(" + Num(s.size()) + " bytes)";
  return r;
}

str Quote(const str& s, size_t max) {
  static const char* d = "0123456789abcdef";
  str r = "\"";
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { r += "\\x"; r += d[c >> 4]; r += d[c & 15]; }
    else r += c;
  }
  r += "\"";
  if (s.size() > max) r += "...(" + Num(s.size()) + " bytes)";
  return r;
}

str ReadFile(const str& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

bool RunsOn(std::function<str()> f, int ms, str* result) {
  int p[2];
  if (pipe(p)) return true;
  pid_t pid = fork();
  if (pid < 0) { close(p[0]); close(p[1]); return true; }
  if (pid == 0) {
    close(p[0]);
    signal(SIGPROF, SIG_DFL);
    struct itimerval t = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}};
    setitimer(ITIMER_PROF, &t, nullptr);
    str s = f();
    setitimer(ITIMER_PROF, nullptr, nullptr);
    if (write(p[1], s.data(), s.size())) {}
    _exit(0);
  }
  close(p[1]);
  str r; char b[256]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, size_t(n));
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return true;
  *result = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? r : "a crash";
  return false;
}

void WriteFile(const str& path, const str& data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { fprintf(stderr, "harness: cannot write %s: %s\n", path.c_str(), strerror(errno)); _exit(97); }
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = write(fd, data.data() + off, data.size() - off);
    if (n <= 0) { fprintf(stderr, "harness: short write to %s\n", path.c_str()); _exit(97); }
    off += n;
  }
  close(fd);
}

str Num(uint64_t n) { return std::to_string(n); }
str SNum(int64_t n) { return std::to_string(n); }

void SetTz(const char* tz) { setenv("TZ", tz, 1); tzset(); }

void ResetEntropy();

namespace {

const size_t kTableBits = 22;
const size_t kTableSize = size_t(1) << kTableBits;
const int kMaxWorkers = 8;
const int kMaxFamilies = 512;
const int kMaxFails = 24;
const int kMaxKnown = 16;

struct Slot {
  std::atomic<uint64_t> current;        // unit start + offset being run, ~0 if idle
  std::atomic<int64_t> started_ms;
  std::atomic<int> family;
  uint64_t chunk_first;
};

struct FailRec { int family; uint64_t index; uint64_t chunk_first; char msg[3000]; };

struct Shared {
  std::atomic<uint64_t> next_unit;
  std::atomic<uint64_t> states, overflow, transitions, traces, nontrivial, cases;
  std::atomic<uint64_t> fam_cases[kMaxFamilies];
  std::atomic<uint64_t> fam_states[kMaxFamilies];
  std::atomic<int> num_fails;
  std::atomic<int> stop;
  FailRec fails[kMaxFails];
  std::atomic<int> num_known;
  struct { char key[128]; char msg[600]; std::atomic<uint64_t> n; } known[kMaxKnown];
  std::atomic<int> known_lock;
  Slot slots[kMaxWorkers];
  std::atomic<uint64_t> table[kTableSize];
};
Shared* sh = nullptr;
int cur_family = 0;
std::set<str> listed;      // keys of known findings for this property

int64_t NowMs() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return int64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

void RmTree(const str& path) {
  DIR* d = opendir(path.c_str());
  if (d) {
    while (struct dirent* e = readdir(d)) {
      str n = e->d_name;
      if (n == "." || n == "..") continue;
      str p = path + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RmTree(p); else unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(path.c_str());
}

str JsonStr(const str& s) {
  str r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

void RecordFail(int family, uint64_t index, uint64_t chunk_first, const str& msg) {
  int n = sh->num_fails.fetch_add(1);
  if (n < kMaxFails) {
    sh->fails[n].family = family; sh->fails[n].index = index; sh->fails[n].chunk_first = chunk_first;
    strncpy(sh->fails[n].msg, msg.c_str(), sizeof(sh->fails[n].msg) - 1);
  }
  if (n + 1 >= kMaxFails) sh->stop = 1;
}

void RunCase(const Family& f, uint64_t idx, Ctx& ctx) {
  entropy = nullptr;
  ResetEntropy();
  try {
    f.run(idx, ctx);
  } catch (const std::exception& e) {
    ctx.Fail(str("unexpected exception escaped: ") + e.what());
  } catch (...) {
    ctx.Fail("unexpected exception of unknown type escaped");
  }
}

struct Unit { int family; uint64_t first, last; };

void WorkerMain(const Check& check, const std::vector<Unit>& units, int w, const str& base) {
  scratch = base + "/w" + Num(w);
  mkdir(scratch.c_str(), 0755);
  Slot& slot = sh->slots[w];
  for (;;) {
    if (sh->stop) break;
    uint64_t u = sh->next_unit.fetch_add(1);
    if (u >= units.size()) break;
    const Family& f = check.families[units[u].family];
    cur_family = units[u].family;
    slot.family = units[u].family;
    slot.chunk_first = units[u].first;
    for (uint64_t i = units[u].first; i < units[u].last; ++i) {
      slot.started_ms = NowMs();
      slot.current = i;
      Ctx ctx;
      RunCase(f, i, ctx);
      slot.current = ~uint64_t(0);
      sh->cases++;
      sh->fam_cases[cur_family]++;
      if (ctx.failed()) RecordFail(cur_family, i, units[u].first, ctx.message);
      if (sh->stop) break;
    }
  }
  _exit(0);
}

// Runs [first, index] of a family alone in a child; returns the failure of the case `index`.
str RunAlone(const Check& check, int family, uint64_t first, uint64_t index, const str& base,
             uint32_t timeout_s, bool verbose) {
  int p[2];
  if (pipe(p) != 0) return "";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    if (!verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); dup2(n, 1); } }
    scratch = base + "/alone";
    mkdir(scratch.c_str(), 0755);
    cur_family = family;
    str msg;
    for (uint64_t i = first; i <= index; ++i) {
      Ctx ctx;
      RunCase(check.families[family], i, ctx);
      if (i == index) msg = ctx.message;
    }
    str out = "R" + msg;
    size_t off = 0;
    while (off < out.size()) { ssize_t n = write(p[1], out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
    _exit(0);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  str out;
  int64_t end = NowMs() + int64_t(timeout_s) * 1000;
  int status = 0;
  bool timed_out = false;
  for (;;) {
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, n);
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) { while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, n); break; }
    if (NowMs() > end) { kill(pid, SIGKILL); waitpid(pid, &status, 0); timed_out = true; break; }
    usleep(5000);
  }
  close(p[0]);
  if (timed_out) return "the case does not terminate within " + Num(timeout_s) + " s";
  if (!out.empty() && out[0] == 'R') return out.substr(1);
  if (WIFSIGNALED(status)) return "crash: signal " + Num(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
  return "crash: exit status " + Num(WEXITSTATUS(status)) + " (sanitizer report or abort)";
}

}  // namespace

void Ctx::State(uint64_t fp) {
  if (!sh) return;
  fp ^= uint64_t(cur_family) * 0x9e3779b97f4a7c15ull;
  if (fp == 0) fp = 1;
  size_t pos = (fp * 0xff51afd7ed558ccdull) >> (64 - kTableBits);
  for (int probe = 0; probe < 64; ++probe, pos = (pos + 1) & (kTableSize - 1)) {
    uint64_t cur = sh->table[pos].load(std::memory_order_relaxed);
    if (cur == fp) return;
    if (cur == 0) {
      if (sh->table[pos].compare_exchange_strong(cur, fp)) { sh->states++; sh->fam_states[cur_family]++; return; }
      if (cur == fp) return;
    }
  }
  sh->overflow++;
}
void Ctx::State(const str& s) { State(Hash(s)); }
void Ctx::Trans(uint64_t n) { if (sh) sh->transitions += n; }
void Ctx::Trace(uint64_t n) { if (sh) sh->traces += n; }
void Ctx::Nontrivial(uint64_t n) { if (sh) sh->nontrivial += n; }

void Ctx::Known(const str& key, const str& msg) {
  if (!listed.count(key)) { Fail(msg); return; }
  if (!sh) return;
  int zero = 0;
  while (!sh->known_lock.compare_exchange_weak(zero, 1)) { zero = 0; usleep(10); }
  int n = sh->num_known;
  int i = 0;
  for (; i < n; ++i) if (key == sh->known[i].key) break;
  if (i == n && n < kMaxKnown) {
    strncpy(sh->known[n].key, key.c_str(), sizeof(sh->known[n].key) - 1);
    strncpy(sh->known[n].msg, msg.c_str(), sizeof(sh->known[n].msg) - 1);
    sh->num_known = n + 1;
  }
  if (i < kMaxKnown) sh->known[i].n++;
  sh->known_lock = 0;
}

}  // namespace mc

using namespace mc;

// usage: check (quick|thorough) VERIF_DIR [replay FAMILY INDEX [CHUNK_FIRST]]
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s quick|thorough verif-dir [replay family index [first]]\n", argv[0]); return 2; }
  thorough = str(argv[1]) == "thorough";
  str verif = argv[2];
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  int64_t t0 = NowMs();

  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }

  char tmpl[] = "/tmp/mcXXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  str base = tmpl;
  scratch = base;

  Check check;
  SetTz("CET-1CEST,M3.5.0,M10.5.0/3");
  Register(check);
  if (check.families.size() > size_t(kMaxFamilies)) { fprintf(stderr, "too many families\n"); return 2; }

  {   // known findings: "finding: property=C01 key=<key> <text>"
    std::ifstream kf(verif + "/KNOWN_FINDINGS.txt");
    str line;
    while (std::getline(kf, line)) {
      std::istringstream is(line);
      str a, b, c;
      is >> a >> b >> c;
      if (a == "finding:" && b == "property=" + check.property && c.compare(0, 4, "key=") == 0) listed.insert(c.substr(4));
    }
  }

  if (argc >= 6 && str(argv[3]) == "replay") {
    int fam = -1;
    for (size_t i = 0; i < check.families.size(); ++i) if (check.families[i].name == argv[4]) fam = i;
    if (fam < 0) { fprintf(stderr, "no family %s in this tier\n", argv[4]); RmTree(base); return 2; }
    uint64_t idx = strtoull(argv[5], nullptr, 10);
    uint64_t first = argc > 6 ? strtoull(argv[6], nullptr, 10) : idx;
    if (check.families[fam].describe) printf("case: %s\n", check.families[fam].describe(idx).c_str());
    str msg = RunAlone(check, fam, first, idx, base, 300, true);
    if (sh->num_known) printf("KNOWN-FINDING: property=%s %s\n", check.property.c_str(), sh->known[0].msg);
    printf("%s\n", msg.empty() ? "held" : msg.c_str());
    RmTree(base);
    return msg.empty() ? 0 : 1;
  }

  std::vector<Unit> units;
  for (size_t f = 0; f < check.families.size(); ++f)
    for (uint64_t i = 0; i < check.families[f].count; i += check.families[f].chunk)
      units.push_back(Unit{int(f), i, std::min(check.families[f].count, i + check.families[f].chunk)});

  int nw = kMaxWorkers;
  if (const char* e = getenv("MC_WORKERS")) nw = atoi(e);
  pid_t pids[kMaxWorkers];
  auto spawn = [&](int w) {
    fflush(stdout); fflush(stderr);
    sh->slots[w].current = ~uint64_t(0);
    pid_t pid = fork();
    if (pid == 0) {
      int n = open("/dev/null", O_WRONLY);
      if (n >= 0 && !getenv("MC_VERBOSE")) { dup2(n, 2); dup2(n, 1); }
      WorkerMain(check, units, w, base);
    }
    pids[w] = pid;
  };
  for (int w = 0; w < nw; ++w) spawn(w);
  int alive = nw;
  while (alive > 0) {
    usleep(3000);
    for (int w = 0; w < nw; ++w) {
      if (pids[w] <= 0) continue;
      Slot& slot = sh->slots[w];
      int status;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      if (r == pids[w]) {
        uint64_t cur = slot.current;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { pids[w] = 0; --alive; continue; }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 97) { fprintf(stderr, "harness error in worker\n"); RmTree(base); return 2; }
        if (cur != ~uint64_t(0)) {
          str how = WIFSIGNALED(status) ? str("crash: signal ") + strsignal(WTERMSIG(status)) : "crash: exit status " + Num(WEXITSTATUS(status));
          RecordFail(slot.family, cur, slot.chunk_first, how);
          // Skip to the rest of the unit: re-queue is not possible with a counter, so run it here.
          const Family& f = check.families[slot.family];
          (void)f;
        }
        if (sh->stop) { pids[w] = 0; --alive; } else spawn(w);
        continue;
      }
      uint64_t cur = slot.current;
      if (cur != ~uint64_t(0)) {
        int64_t limit = int64_t(check.families[slot.family].timeout_s) * 1000;
        if (NowMs() - slot.started_ms > limit && slot.current == cur) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          RecordFail(slot.family, cur, slot.chunk_first, "the case does not terminate within " + Num(limit / 1000) + " s");
          if (sh->stop) { pids[w] = 0; --alive; } else spawn(w);
        }
      }
    }
  }

  // Replay before report: a failure counts only if it recurs, alone or after the cases before it
  // in its unit of work.
  int confirmed = 0, unconfirmed = 0;
  int64_t confirming = NowMs();
  int nf = std::min(int(sh->num_fails), kMaxFails);
  std::vector<int> order;
  for (int i = 0; i < nf; ++i) order.push_back(i);
  std::sort(order.begin(), order.end(), [](int a, int b) {
    return std::make_pair(sh->fails[a].family, sh->fails[a].index) < std::make_pair(sh->fails[b].family, sh->fails[b].index); });
  mkdir((verif + "/replays").c_str(), 0755);
  std::map<int, int> per_family;
  for (int i : order) {
    FailRec& fr = sh->fails[i];
    if (per_family[fr.family] >= 4 || confirmed >= 10) continue;
    if (confirmed && (NowMs() - t0 > 200000 || NowMs() - confirming > 30000)) continue;      // one confirmed violation is enough by then
    const Family& f = check.families[fr.family];
    uint64_t first = fr.index;
    uint32_t to = std::max<uint32_t>(60, 2 * f.timeout_s);
    str msg = RunAlone(check, fr.family, first, fr.index, base, to, false);
    if (msg.empty() && fr.chunk_first < fr.index) {
      first = fr.chunk_first;
      msg = RunAlone(check, fr.family, first, fr.index, base, to * 2, false);
    }
    if (msg.empty()) {
      ++unconfirmed;
      printf("UNCONFIRMED property=%s family=%s case=%llu (did not recur when replayed): %s\n", check.property.c_str(),
             f.name.c_str(), (unsigned long long)fr.index, fr.msg);
      continue;
    }
    ++per_family[fr.family];
    ++confirmed;
    str desc = f.describe ? f.describe(fr.index) : "";
    str safe = f.name;
    for (auto& ch : safe) if (!isalnum((unsigned char)ch)) ch = '_';
    str path = "replays/" + check.property + "-" + safe + "-" + Num(fr.index) + ".json";
    std::ostringstream os;
    os << "{\"property\": " << JsonStr(check.property) << ", \"tier\": " << JsonStr(argv[1]) << ", \"family\": " << JsonStr(f.name)
       << ", \"case\": " << fr.index << ", \"first\": " << first << ", \"description\": " << JsonStr(desc) << ", \"what\": " << JsonStr(msg)
       << ", \"replay\": " << JsonStr("python3 run.py replay /verif/" + path) << "}\n";
    WriteFile(verif + "/" + path, os.str());
    printf("  %s\n  %s\n", desc.substr(0, 600).c_str(), msg.substr(0, 1200).c_str());
    printf("VIOLATION property=%s replay=%s\n", check.property.c_str(), path.c_str());
    fflush(stdout);
  }
  for (int i = 0; i < sh->num_known; ++i)
    printf("KNOWN-FINDING: property=%s key=%s (%llu cases) %s\n", check.property.c_str(), sh->known[i].key,
           (unsigned long long)sh->known[i].n, sh->known[i].msg);

  uint64_t total = 0;
  for (auto& f : check.families) total += f.count;
  bool complete = sh->cases == total;
  std::ostringstream ev;
  const char* seed = getenv("VERIF_SEED");
  double wall = (NowMs() - t0) / 1000.0;
  ev << "{\"property\": " << JsonStr(check.property) << ", \"tier\": " << JsonStr(thorough ? "thorough" : "quick")
     << ", \"seed\": " << (seed ? strtoll(seed, nullptr, 10) : 0) << ", \"level\": " << JsonStr(check.level) << ",\n \"coverage\": {";
  if (check.level == "model_checking")
    ev << "\"states\": " << sh->states << ", \"transitions\": " << sh->transitions
       << ", \"traces_validated_against_impl\": " << sh->traces << ", \"cases\": " << sh->cases;
  else
    ev << "\"evaluations\": " << sh->cases << ", \"distinct_nontrivial\": " << sh->nontrivial
       << ", \"distinct_outcomes\": " << sh->states << ", \"operations\": " << sh->transitions;
  ev << ", \"exhaustive\": " << (complete ? "true" : "false")
     << ", \"rule\": " << JsonStr(check.rule) << ",\n  \"families\": {";
  for (size_t i = 0; i < check.families.size(); ++i)
    ev << (i ? ", " : "") << JsonStr(check.families[i].name) << ": {\"cases\": " << sh->fam_cases[i] << ", \"of\": " << check.families[i].count
       << ", \"distinct_outcomes\": " << sh->fam_states[i] << "}";
  ev << "},\n  \"samples\": [";
  bool comma = false;
  for (auto& f : check.families)
    for (int k = 0; k < 2; ++k) {
      uint64_t i = k == 0 ? 0 : f.count / 2;
      if (k == 1 && i == 0) continue;
      ev << (comma ? ", " : "") << JsonStr(f.name + " #" + Num(i) + ": " + (f.describe ? f.describe(i).substr(0, 300) : str("")));
      comma = true;
    }
  ev << "]";
  for (auto& n : check.notes) ev << ", " << JsonStr(n.first) << ": " << JsonStr(n.second);
  if (sh->overflow) ev << ", \"state_table_overflow\": " << sh->overflow;
  ev << ", \"unconfirmed\": " << unconfirmed << "},\n \"assumptions\": [";
  for (size_t i = 0; i < check.assumptions.size(); ++i) ev << (i ? ", " : "") << JsonStr(check.assumptions[i]);
  ev << "], \"wall_s\": " << wall << ", \"violations\": " << confirmed << "}\n";
  mkdir((verif + "/evidence").c_str(), 0755);
  WriteFile(verif + "/evidence/" + check.property + ".json", ev.str());
  printf("%s %s: %llu of %llu cases, %llu distinct outcomes, %llu operations, %llu runs compared, %d violations%s, %.1f s\n",
         check.property.c_str(), argv[1], (unsigned long long)sh->cases, (unsigned long long)total, (unsigned long long)sh->states,
         (unsigned long long)sh->transitions, (unsigned long long)sh->traces, confirmed, unconfirmed ? " (+ unconfirmed)" : "", wall);
  RmTree(base);
  if (confirmed) return 1;
  if (!complete && !unconfirmed) { fprintf(stderr, "incomplete exploration\n"); return 2; }
  return 0;
}

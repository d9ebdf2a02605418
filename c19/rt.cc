#include "rt.hh"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <unordered_map>

extern "C" {
extern char __data_start, _end;
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
}

namespace {

// --- Memory that is watched: one reserved range of heaps and stacks, and the static data.
const uint64_t kBase = 0x300000000000ull, kHeap = 1ull << 30, kStack = 16ull << 20;
const uint64_t kRange = (rt::kMax + 1) * kHeap + rt::kMax * kStack;
const uint64_t kShadow = 0x310000000000ull, kStaticShadow = 0x320000000000ull, kStaticMax = 64ull << 20;

struct Cell { uint8_t r[rt::kMax], w[rt::kMax]; uint8_t vis, seen; };
static_assert(sizeof(Cell) == 8, "");

struct Acc { int tid = -1; uint32_t clk = 0; uint64_t pc = 0; bool atomic = false; };
struct ByteState { Acc write, read[rt::kMax]; };
typedef uint32_t Clock[rt::kMax];
struct Vc { Clock c = {}; };

struct Lock { int owner = -1, depth = 0; };

const int kResult = 4096, kMaxSteps = 1 << 18, kMaxEvents = 1 << 19, kMaxConflicts = 4096;
struct Shared {
  bool ok, deadlock, diverged, truncated, pruned;
  char race[1024];
  char result[rt::kMax][kResult]; uint32_t result_size[rt::kMax];
  uint32_t nsteps; rt::Step steps[kMaxSteps];
  uint32_t nevents; rt::Event events[kMaxEvents];
  uint32_t nconf; uint64_t conf[kMaxConflicts];
  uint64_t accesses, visible, sync;
};

bool controlled = false;       // in a run
bool arena = false;            // allocations come from the watched range
bool have_visible = false;
Shared* sh = nullptr;
int nthreads = 0;
char* heap_at[rt::kMax + 1];
sem_t sems[rt::kMax];
bool done[rt::kMax];
void* blocked[rt::kMax];       // object that a thread waits for
int current = -1;
std::vector<uint8_t>* sched_prefix;
std::vector<rt::Sleep>* sleeping;   // see rt::Sleep; tid -1: woken
uint32_t at_step = 0;
int32_t led = -1;               // the decision that let the current thread go on, -1 if there was no choice
Vc clocks[rt::kMax];
sem_t main_sem;

thread_local int t_id = -1;
thread_local int t_in = 0;     // inside of the runtime

struct In { In() { ++t_in; } ~In() { --t_in; } };

// Runtime data structures; allocated outside of the watched range because t_in is set.
std::unordered_map<uint64_t, Cell>* other_cells;
std::unordered_map<uint64_t, ByteState>* bytes;
std::unordered_map<uint64_t, Vc>* syncs;
std::unordered_map<uint64_t, Lock>* locks;
std::unordered_map<uint64_t, uint8_t>* guards;   // of function-local statics; which threads saw them set
std::vector<uint64_t>* touched;     // granules that a second thread touched

inline bool Ours() { return t_id >= 0 && controlled && t_in == 0; }

Cell* CellOf(uint64_t a) {
  if (a - kBase < kRange) return reinterpret_cast<Cell*>(kShadow + ((a - kBase) & ~7ull));
  uint64_t s = uint64_t(&__data_start) & ~7ull;
  if (a - s < kStaticMax && a < uint64_t(&_end)) return reinterpret_cast<Cell*>(kStaticShadow + ((a - s) & ~7ull));
  return &(*other_cells)[a & ~7ull];
}

void Switch(int to) {
  int me = t_id;
  current = to;
  if (to == me) return;
  sem_post(&sems[to]);
  if (me >= 0 && !done[me]) while (sem_wait(&sems[me]) != 0) {}
}

bool Enabled(int t) { return !done[t] && blocked[t] == nullptr; }

// A decision: which thread goes on.
void Decide(int cur) {
  uint8_t mask = 0; int first = -1, n = 0;
  for (int t = 0; t < nthreads; ++t) if (Enabled(t)) { mask |= 1 << t; ++n; if (first < 0) first = t; }
  if (n == 0) {
    bool all = true;
    for (int t = 0; t < nthreads; ++t) if (!done[t]) all = false;
    if (all) { sem_post(&main_sem); return; }
    sh->deadlock = true; sh->ok = true; _exit(0);
  }
  int pick = cur < rt::kMax && (mask >> cur & 1) ? cur : first;
  led = -1;
  uint8_t asleep = 0;
  if (at_step >= sched_prefix->size()) {
    for (auto& s : *sleeping) if (s.tid >= 0) asleep |= uint8_t(1 << s.tid);
    if ((mask & ~asleep) == 0) { sh->pruned = true; sh->ok = true; _exit(0); }
    if (asleep >> pick & 1) { pick = 0; while (!((mask & ~asleep) >> pick & 1)) ++pick; }
  }
  if (n > 1) {
    if (at_step < sched_prefix->size()) {
      pick = (*sched_prefix)[at_step];
      if (!(mask >> pick & 1)) { sh->diverged = true; sh->ok = true; _exit(0); }
    }
    if (at_step < kMaxSteps) {
      sh->steps[at_step].chosen = uint8_t(pick); sh->steps[at_step].enabled = mask;
      sh->steps[at_step].current = cur < rt::kMax && (mask >> cur & 1) ? uint8_t(cur) : uint8_t(rt::kMax);
      sh->steps[at_step].asleep = asleep;
      sh->nsteps = at_step + 1;
      led = int32_t(at_step);
    } else sh->truncated = true;
    ++at_step;
  }
  Switch(pick);
}

void Block(void* what) {
  blocked[t_id] = what;
  Decide(rt::kMax);
}
void Wake(void* what) { for (int t = 0; t < nthreads; ++t) if (blocked[t] == what) blocked[t] = nullptr; }

void Race(const Acc& a, bool aw, int tid, uint64_t pc, bool w, uint64_t addr) {
  if (sh->race[0]) return;
  Dl_info i, j; memset(&i, 0, sizeof i); memset(&j, 0, sizeof j);
  dladdr(reinterpret_cast<void*>(a.pc), &i); dladdr(reinterpret_cast<void*>(pc), &j);
  snprintf(sh->race, sizeof sh->race, "%s of %s in %s and %s in %s are not ordered", aw ? "write" : "read", rt::Place(addr).c_str(), i.dli_sname ? i.dli_sname : "?",
           w ? "write" : "read", j.dli_sname ? j.dli_sname : "?");
  (void)tid;
}

void Log(uint64_t a, size_t n, int w, int32_t step) {
  if (at_step >= sched_prefix->size()) for (auto& s : *sleeping) if (s.tid != t_id && (w || s.write) && s.addr < ((a + n + 7) & ~7ull) && (a & ~7ull) < s.addr + s.size) s.tid = -1;
  if (sh->nevents >= uint32_t(kMaxEvents)) { sh->truncated = true; return; }
  rt::Event& e = sh->events[sh->nevents++];
  e.addr = a; e.size = uint32_t(n); e.write = uint8_t(w); e.tid = uint8_t(t_id); e.step = step;
}

void Happens(uint64_t a, size_t n, bool w, bool atomic, uint64_t pc) {
  int t = t_id;
  for (size_t k = 0; k < n; ++k) {
    ByteState& b = (*bytes)[a + k];
    auto ordered = [&](const Acc& x) { return x.tid < 0 || x.tid == t || x.clk <= clocks[t].c[x.tid]; };
    if (b.write.tid >= 0 && !ordered(b.write) && !(atomic && b.write.atomic)) Race(b.write, true, t, pc, w, a + k);
    if (w) for (int u = 0; u < nthreads; ++u) if (b.read[u].tid >= 0 && !ordered(b.read[u]) && !(atomic && b.read[u].atomic)) Race(b.read[u], false, t, pc, w, a + k);
    Acc me; me.tid = t; me.clk = clocks[t].c[t]; me.pc = pc; me.atomic = atomic;
    if (w) b.write = me; else b.read[t] = me;
  }
}

// Notes who uses what; whether the place is shared.
bool Mark(uint64_t a, size_t n, bool w) {
  bool vis = false;
  sh->accesses++;
  for (uint64_t g = a & ~7ull; g < a + n; g += 8) {
    Cell* c = CellOf(g);
    uint64_t lo = g < a ? a - g : 0, hi = g + 8 > a + n ? a + n - g : 8;
    uint8_t mask = uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1));
    if (w) c->w[t_id] |= mask; else c->r[t_id] |= mask;
    if (!c->seen) {
      int users = 0;
      for (int t = 0; t < nthreads; ++t) if (c->r[t] | c->w[t]) ++users;
      if (users > 1) { c->seen = 1; touched->push_back(g); }
    }
    if (c->vis) vis = true;
  }
  return vis;
}

// One access. Returns after the scheduler let it happen.
void Visit(uint64_t a, size_t n, bool w, bool atomic, uint64_t pc, int counting = 0) {
  if (n == 0) return;
  In in;
  bool vis = Mark(a, n, w);
  // A thread that finds a local static not made asks __cxa_guard_acquire; one that found it made finds nothing else later.
  if (atomic && !w && n == 1) {
    auto it = guards->find(a);
    if (it != guards->end()) { if (!*reinterpret_cast<volatile uint8_t*>(a) || (it->second >> t_id & 1)) return; it->second |= uint8_t(1 << t_id); }
  }
  // Counting references to an object that outlives the threads commutes.
  if (counting && a - kBase < kHeap && *reinterpret_cast<int32_t*>(a) >= counting) return;
  if (!vis) return;
  sh->visible++;
  Decide(t_id);
  Log(a, n, w, led);
  Happens(a, n, w, atomic, pc);
}

void Acquire(uint64_t obj) { In in; sh->sync++; auto it = syncs->find(obj); if (it != syncs->end()) for (int t = 0; t < nthreads; ++t) if (clocks[t_id].c[t] < it->second.c[t]) clocks[t_id].c[t] = it->second.c[t]; }
void Release(uint64_t obj) { In in; sh->sync++; Vc& v = (*syncs)[obj]; for (int t = 0; t < nthreads; ++t) if (v.c[t] < clocks[t_id].c[t]) v.c[t] = clocks[t_id].c[t]; clocks[t_id].c[t_id]++; }

uint64_t Pseudo(const char* what, uint64_t x = 0) { uint64_t h = 1469598103934665603ull ^ x; for (; *what; ++what) h = (h ^ uint8_t(*what)) * 1099511628211ull; return 0x700000000000ull | (h & 0xffffffff8ull); }

// --- Allocation
const size_t kHead = 16;
int HeapIndex() { return t_id >= 0 ? t_id + 1 : 0; }
void* Bump(size_t n, size_t align) {
  char*& p = heap_at[HeapIndex()];
  uint64_t a = (uint64_t(p) + kHead + align - 1) & ~uint64_t(align - 1);
  uint64_t end = kBase + (HeapIndex() + 1) * kHeap;
  if (n > kHeap || a + n + 16 > end) { errno = ENOMEM; return nullptr; }
  *reinterpret_cast<size_t*>(a - kHead) = n;
  p = reinterpret_cast<char*>((a + n + 7) & ~7ull);
  return reinterpret_cast<void*>(a);
}
inline bool InArena(const void* p) { return uint64_t(p) - kBase < kRange; }
inline bool UseArena() { return arena && t_in == 0; }

std::vector<rt::Op>* ops;

void* Body(void* arg) {
  t_id = int(reinterpret_cast<intptr_t>(arg));
  ++t_in;
  while (sem_wait(&sems[t_id]) != 0) {}
  --t_in;
  (*ops)[t_id].run();
  ++t_in;
  done[t_id] = true;
  Decide(rt::kMax);
  return nullptr;
}

void Child(int threads, const std::function<rt::Op(int)>& make, bool warm, const std::vector<uint64_t>& visible, const std::vector<uint8_t>& prefix, const std::vector<rt::Sleep>& sleep) {
  ++t_in;
  sleeping = new std::vector<rt::Sleep>(sleep);
  if (mmap(reinterpret_cast<void*>(kBase), kRange, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED ||
      mmap(reinterpret_cast<void*>(kShadow), kRange, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED ||
      mmap(reinterpret_cast<void*>(kStaticShadow), kStaticMax, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) {
    snprintf(sh->race, sizeof sh->race, "harness: no memory");
    _exit(3);
  }
  for (int i = 0; i <= rt::kMax; ++i) heap_at[i] = reinterpret_cast<char*>(kBase + i * kHeap);
  other_cells = new std::unordered_map<uint64_t, Cell>; bytes = new std::unordered_map<uint64_t, ByteState>;
  syncs = new std::unordered_map<uint64_t, Vc>; locks = new std::unordered_map<uint64_t, Lock>; touched = new std::vector<uint64_t>;
  guards = new std::unordered_map<uint64_t, uint8_t>; for (uint64_t g : rt::guard_variables) (*guards)[g] = 0;
  sched_prefix = new std::vector<uint8_t>(prefix);
  std::vector<rt::Op> mine;
  nthreads = threads;
  ops = &mine;
  arena = true;
  --t_in;
  if (warm) for (int t = 0; t < threads; ++t) { rt::Op o = make(t); o.setup(); o.run(); }
  for (int t = 0; t < threads; ++t) { rt::Op o = make(t); o.setup(); ++t_in; mine.push_back(o); --t_in; }
  ++t_in;
  for (uint64_t g : visible) CellOf(g)->vis = 1;
  sem_init(&main_sem, 0, 0);
  for (int t = 0; t < threads; ++t) { clocks[t].c[t] = 1; sem_init(&sems[t], 0, 0); }
  --t_in;
  for (int t = 0; t < threads; ++t) {
    pthread_attr_t attr; pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, reinterpret_cast<void*>(kBase + (rt::kMax + 1) * kHeap + t * kStack), kStack);
    pthread_t th;
    if (pthread_create(&th, &attr, Body, reinterpret_cast<void*>(intptr_t(t))) != 0) { snprintf(sh->race, sizeof sh->race, "harness: no thread"); _exit(3); }
  }
  controlled = true;
  Decide(rt::kMax);
  while (sem_wait(&main_sem) != 0) {}
  controlled = false;
  ++t_in;
  for (uint64_t g : *touched) {
    Cell* c = CellOf(g); bool conflict = false;
    for (int t = 0; t < threads; ++t) for (int u = 0; u < threads; ++u) if (t != u && (c->w[t] & (c->r[u] | c->w[u]))) conflict = true;
    if (conflict && sh->nconf < uint32_t(kMaxConflicts)) sh->conf[sh->nconf++] = g;
  }
  --t_in;
  for (int t = 0; t < threads; ++t) {
    std::string r = mine[t].result();
    ++t_in;
    uint32_t n = uint32_t(std::min(r.size(), size_t(kResult)));
    memcpy(sh->result[t], r.data(), n); sh->result_size[t] = n;
    --t_in;
  }
  sh->ok = true;
  _exit(0);
}

}  // namespace

std::vector<uint64_t> rt::guard_variables;
int rt::Current() { return t_id; }

std::string rt::Place(uint64_t a) {
  char b[256];
  if (a - kBase < kRange) { uint64_t o = a - kBase; if (o >= (kMax + 1) * kHeap) snprintf(b, sizeof b, "the stack of thread %d", int((o - (kMax + 1) * kHeap) / kStack)); else if (o < kHeap) snprintf(b, sizeof b, "an object made before"); else snprintf(b, sizeof b, "an object made by thread %d", int(o / kHeap) - 1); return b; }
  if ((a >> 40) == 0x70) return "process-wide state";
  Dl_info i; memset(&i, 0, sizeof i);
  if (dladdr(reinterpret_cast<void*>(a), &i) && i.dli_sname) { snprintf(b, sizeof b, "%s+%lu", i.dli_sname, (unsigned long)(a - uint64_t(i.dli_saddr))); return b; }
  if (a >= uint64_t(&__data_start) && a < uint64_t(&_end)) { snprintf(b, sizeof b, "static object at data+0x%lx", (unsigned long)(a - uint64_t(&__data_start))); return b; }
  snprintf(b, sizeof b, "memory of a library (0x%lx)", (unsigned long)a);
  return b;
}

rt::Run rt::Execute(int threads, const std::function<Op(int)>& make, bool warm, const std::vector<uint64_t>& visible, const std::vector<uint8_t>& prefix, const std::vector<Sleep>& sleep) {
  if (!sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sh->ok = sh->deadlock = sh->diverged = sh->truncated = sh->pruned = false; sh->nevents = 0; sh->race[0] = 0; sh->nsteps = sh->nconf = 0; sh->accesses = sh->visible = sh->sync = 0;
  for (int t = 0; t < kMax; ++t) sh->result_size[t] = 0;
  pid_t pid = fork();
  if (pid == 0) { Child(threads, make, warm, visible, prefix, sleep); _exit(3); }
  int st = 0;
  // A thread that spins or sleeps outside of the scheduler's control ends here.
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  bool hung = false;
  for (useconds_t nap = 50;; nap = nap < 5000 ? nap * 2 : nap) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(nap);
  }
  Run r;
  r.ok = sh->ok; r.deadlock = sh->deadlock; r.diverged = sh->diverged; r.race = sh->race;
  for (int t = 0; t < threads; ++t) r.result[t].assign(sh->result[t], sh->result_size[t]);
  r.truncated = sh->truncated; r.pruned = sh->pruned;
  r.events.assign(sh->events, sh->events + sh->nevents);
  r.steps.assign(sh->steps, sh->steps + sh->nsteps);
  r.conflicts.assign(sh->conf, sh->conf + sh->nconf);
  r.accesses = sh->accesses; r.visible = sh->visible; r.sync = sh->sync;
  if (hung) r.crash = "does not end";
  else if (WIFSIGNALED(st)) { char b[64]; snprintf(b, sizeof b, "ends with signal %d", WTERMSIG(st)); r.crash = b; }
  else if (!r.ok) { char b[64]; snprintf(b, sizeof b, "ends with status %d", WEXITSTATUS(st)); r.crash = b; }
  return r;
}

template <typename F> static F Next(F, const char* name) { In in; return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

// --- Allocation
extern "C" {
static void Freed(void* p) { if (Ours() && InArena(p)) Visit(uint64_t(p), *reinterpret_cast<size_t*>(uint64_t(p) - kHead), true, false, uint64_t(__builtin_return_address(0))); }
void* malloc(size_t n) { return UseArena() ? Bump(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (InArena(p)) { Freed(p); return; } if (UseArena()) return; __libc_free(p); }
void* calloc(size_t n, size_t m) { if (!UseArena()) return __libc_calloc(n, m); if (m && n > size_t(-1) / m) { errno = ENOMEM; return nullptr; } return Bump(n * m, 16); }
void* realloc(void* p, size_t n) {
  if (!InArena(p) && !UseArena()) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (q && p) { size_t old = InArena(p) ? *reinterpret_cast<size_t*>(uint64_t(p) - kHead) : n; memcpy(q, p, old < n ? old : n); free(p); }
  return q;
}
void* memalign(size_t a, size_t n) { return UseArena() ? Bump(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }

// --- Instrumentation
#define PC uint64_t(__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n) \
  void __tsan_read##n(void* a) { if (Ours()) Visit(uint64_t(a), n, false, false, PC); } \
  void __tsan_write##n(void* a) { if (Ours()) Visit(uint64_t(a), n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { if (Ours()) Visit(uint64_t(a), n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { if (Ours()) Visit(uint64_t(a), n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { if (Ours()) Visit(uint64_t(a), n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { if (Ours()) Visit(uint64_t(a), n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { if (Ours()) Visit(uint64_t(a), n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { if (Ours()) Visit(uint64_t(a), n, true, false, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* a, size_t n) { if (Ours()) Visit(uint64_t(a), n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (Ours()) Visit(uint64_t(a), n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (Ours() && *a != v) Visit(uint64_t(a), 8, true, false, PC); }
void __tsan_vptr_read(void** a) { if (Ours()) Visit(uint64_t(a), 8, false, false, PC); }

static bool Acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static bool Rel(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME; }
#define RMW(T, bits, name, op, counting) \
  T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) { \
    bool ours = Ours(); \
    if (ours) { Visit(uint64_t(a), sizeof(T), true, true, PC, counting ? (v == T(1) ? 1 : 2) : 0); if (Acq(mo)) Acquire(uint64_t(a)); if (Rel(mo)) Release(uint64_t(a)); } \
    return op(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(T, bits) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (Ours()) { Visit(uint64_t(a), sizeof(T), false, true, PC, 1); if (Acq(mo)) Acquire(uint64_t(a)); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (Ours()) { Visit(uint64_t(a), sizeof(T), true, true, PC); if (Rel(mo)) Release(uint64_t(a)); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  RMW(T, bits, exchange, __atomic_exchange_n, 0) RMW(T, bits, fetch_add, __atomic_fetch_add, 1) RMW(T, bits, fetch_sub, __atomic_fetch_sub, 2) RMW(T, bits, fetch_and, __atomic_fetch_and, 0) \
  RMW(T, bits, fetch_or, __atomic_fetch_or, 0) RMW(T, bits, fetch_xor, __atomic_fetch_xor, 0) RMW(T, bits, fetch_nand, __atomic_fetch_nand, 0) \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (Ours()) { Visit(uint64_t(a), sizeof(T), true, true, PC, v == T(*c + 1) ? 1 : 0); if (Acq(mo) || Acq(fmo)) Acquire(uint64_t(a)); if (Rel(mo)) Release(uint64_t(a)); } \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// --- Called in place of the functions of the same names by the code under test (see c19build.py).
static void R(const void* p, size_t n, uint64_t pc) { Visit(uint64_t(p), n, false, false, pc); }
static void W(const void* p, size_t n, uint64_t pc) { Visit(uint64_t(p), n, true, false, pc); }
void* __c19_memcpy(void* d, const void* s, size_t n) { if (Ours()) { R(s, n, PC); W(d, n, PC); } return memcpy(d, s, n); }
void* __c19_memmove(void* d, const void* s, size_t n) { if (Ours()) { R(s, n, PC); W(d, n, PC); } return memmove(d, s, n); }
void* __c19_memset(void* d, int c, size_t n) { if (Ours()) W(d, n, PC); return memset(d, c, n); }
int __c19_memcmp(const void* a, const void* b, size_t n) { if (Ours()) { R(a, n, PC); R(b, n, PC); } return memcmp(a, b, n); }
void* __c19_memchr(const void* a, int c, size_t n) { void* r = const_cast<void*>(memchr(a, c, n)); if (Ours()) R(a, r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) + 1 : n, PC); return r; }
size_t __c19_strlen(const char* s) { size_t n = strlen(s); if (Ours()) R(s, n + 1, PC); return n; }
int __c19_strcmp(const char* a, const char* b) { if (Ours()) { R(a, strlen(a) + 1, PC); R(b, strlen(b) + 1, PC); } return strcmp(a, b); }
char* __c19_strchr(const char* a, int c) { if (Ours()) R(a, strlen(a) + 1, PC); return const_cast<char*>(strchr(a, c)); }
char* __c19_strstr(const char* a, const char* b) { if (Ours()) { R(a, strlen(a) + 1, PC); R(b, strlen(b) + 1, PC); } return const_cast<char*>(strstr(a, b)); }
char* __c19_strcpy(char* d, const char* s) { if (Ours()) { size_t n = strlen(s) + 1; R(s, n, PC); W(d, n, PC); } return strcpy(d, s); }
char* __c19_strcat(char* d, const char* s) { if (Ours()) { size_t n = strlen(s) + 1; R(s, n, PC); W(d + strlen(d), n, PC); } return strcat(d, s); }
char* __c19_strncpy(char* d, const char* s, size_t n) { if (Ours()) { R(s, strnlen(s, n), PC); W(d, n, PC); } return strncpy(d, s, n); }
char* __c19_strdup(const char* s) { if (Ours()) R(s, strlen(s) + 1, PC); return strdup(s); }

// Time: the environment decides about the zone; some functions return a buffer of the process.
static const char* const kEnv = "environment"; static const char* const kLocale = "locale"; static const char* const kRand = "random"; static const char* const kProc = "process";
static void Env(bool w, uint64_t pc) { if (Ours()) Visit(Pseudo(kEnv), 1, w, false, pc); }
struct tm* __c19_localtime(const time_t* t) { Env(false, PC); if (Ours()) R(t, sizeof *t, PC); struct tm b, *r = localtime_r(t, &b); static struct tm shared; if (!r) return nullptr; if (Ours()) W(&shared, sizeof shared, PC); shared = b; return &shared; }
struct tm* __c19_gmtime(const time_t* t) { if (Ours()) R(t, sizeof *t, PC); struct tm b, *r = gmtime_r(t, &b); static struct tm shared; if (!r) return nullptr; if (Ours()) W(&shared, sizeof shared, PC); shared = b; return &shared; }
struct tm* __c19_localtime_r(const time_t* t, struct tm* b) { Env(false, PC); if (Ours()) { R(t, sizeof *t, PC); W(b, sizeof *b, PC); } return localtime_r(t, b); }
struct tm* __c19_gmtime_r(const time_t* t, struct tm* b) { if (Ours()) { R(t, sizeof *t, PC); W(b, sizeof *b, PC); } return gmtime_r(t, b); }
time_t __c19_mktime(struct tm* b) { Env(false, PC); if (Ours()) { R(b, sizeof *b, PC); W(b, sizeof *b, PC); } return mktime(b); }
time_t __c19_timegm(struct tm* b) { if (Ours()) { R(b, sizeof *b, PC); W(b, sizeof *b, PC); } return timegm(b); }
size_t __c19_strftime(char* s, size_t n, const char* f, const struct tm* b) { if (Ours()) { Visit(Pseudo(kLocale), 1, false, false, PC); R(b, sizeof *b, PC); } size_t k = strftime(s, n, f, b); if (Ours()) W(s, k + 1, PC); return k; }
char* __c19_strptime(const char* s, const char* f, struct tm* b) { if (Ours()) { Visit(Pseudo(kLocale), 1, false, false, PC); R(s, strlen(s) + 1, PC); W(b, sizeof *b, PC); } return strptime(s, f, b); }
char* __c19_asctime(const struct tm* b) { static char shared[64]; if (Ours()) { R(b, sizeof *b, PC); W(shared, sizeof shared, PC); } return asctime_r(b, shared); }
char* __c19_ctime(const time_t* t) { static char shared[64]; Env(false, PC); if (Ours()) { R(t, sizeof *t, PC); W(shared, sizeof shared, PC); } return ctime_r(t, shared); }
void __c19_tzset() { Env(true, PC); tzset(); }
int __c19_setenv(const char* a, const char* b, int o) { Env(true, PC); return setenv(a, b, o); }
int __c19_unsetenv(const char* a) { Env(true, PC); return unsetenv(a); }
int __c19_putenv(char* a) { Env(true, PC); return putenv(a); }
char* __c19_getenv(const char* a) { Env(false, PC); return getenv(a); }
char* setlocale_(int c, const char* l) __asm__("setlocale");
char* __c19_setlocale(int c, const char* l) { if (Ours()) Visit(Pseudo(kLocale), 1, l != nullptr, false, PC); return setlocale_(c, l); }
char* __c19_strtok(char* s, const char* d) { static char* state; if (Ours()) W(&state, sizeof state, PC); return strtok_r(s, d, &state); }
int __c19_rand() { if (Ours()) Visit(Pseudo(kRand), 1, true, true, PC); return rand(); }
void __c19_srand(unsigned s) { if (Ours()) Visit(Pseudo(kRand), 1, true, true, PC); srand(s); }
long __c19_random() { if (Ours()) Visit(Pseudo(kRand), 1, true, true, PC); return random(); }
mode_t __c19_umask(mode_t m) { if (Ours()) Visit(Pseudo(kProc), 1, true, true, PC); return umask(m); }
int __c19_chdir(const char* p) { if (Ours()) Visit(Pseudo(kProc), 1, true, true, PC); return chdir(p); }
void locale_global_(void*, const void*) __asm__("_ZNSt6locale6globalERKS_");
void __c19__ZNSt6locale6globalERKS_(void* r, const void* l) { if (Ours()) Visit(Pseudo(kLocale), 1, true, true, PC); locale_global_(r, l); }

// Files: what is done to one file from two threads is an interaction, though not a race of memory accesses.
static uint64_t PathId(const char* p) { return Pseudo(p, 77); }
static uint64_t FdId(int fd) { struct stat s; if (fstat(fd, &s) != 0 || !S_ISREG(s.st_mode)) return 0; return Pseudo("inode", s.st_ino * 1099511628211ull + s.st_dev); }
static void Fd(int fd, bool w) { if (!Ours()) return; uint64_t id = FdId(fd); if (id) Visit(id, 1, w, true, 0); }
static void Path(const char* p, bool w) { if (Ours()) { Visit(Pseudo(kProc), 1, false, true, 0); Visit(PathId(p), 1, w, true, 0); } }
FILE* fopen(const char* p, const char* m) { Path(p, *m != 'r' || strchr(m, '+')); static auto next = Next(&fopen, "fopen"); return next(p, m); }
FILE* fopen64(const char* p, const char* m) { Path(p, *m != 'r' || strchr(m, '+')); static auto next = Next(&fopen64, "fopen64"); return next(p, m); }
int open(const char* p, int flags, ...) { mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); Path(p, (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0); static auto next = Next(reinterpret_cast<int (*)(const char*, int, ...)>(0), "open"); return next(p, flags, m); }
int open64(const char* p, int flags, ...) { mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap); Path(p, (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0); static auto next = Next(reinterpret_cast<int (*)(const char*, int, ...)>(0), "open64"); return next(p, flags, m); }
int rename(const char* a, const char* b) { Path(a, true); Path(b, true); static auto next = Next(&rename, "rename"); return next(a, b); }
int remove(const char* a) { Path(a, true); static auto next = Next(&remove, "remove"); return next(a); }
int unlink(const char* a) { Path(a, true); static auto next = Next(&unlink, "unlink"); return next(a); }
ssize_t read(int fd, void* b, size_t n) { Fd(fd, false); static auto next = Next(&read, "read"); return next(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { Fd(fd, true); static auto next = Next(&write, "write"); return next(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { Fd(fd, true); static auto next = Next(&writev, "writev"); return next(fd, v, n); }
size_t __c19_fread(void* b, size_t s, size_t n, FILE* f) { if (Ours()) { W(b, s * n, PC); Fd(fileno(f), false); } return fread(b, s, n, f); }
size_t __c19_fwrite(const void* b, size_t s, size_t n, FILE* f) { if (Ours()) { R(b, s * n, PC); Fd(fileno(f), true); } return fwrite(b, s, n, f); }

// --- Synchronization
// Takes a lock when it is free; true, without taking it, if `over` holds then. Waiting is no access: the thread is not enabled.
}  // extern C
template <typename F> static bool Contend(void* m, F over) {
  In in;
  uint64_t a = uint64_t(m);
  Mark(a, 1, true);
  if (CellOf(a)->vis) { sh->visible++; Decide(t_id); }
  Lock& l = (*locks)[a];
  while (l.owner >= 0 && l.owner != t_id) Block(m);
  if (CellOf(a)->vis) Log(a, 1, 1, led);
  if (over()) return true;
  l.owner = t_id; ++l.depth;
  return false;
}
extern "C" {
static void LockIt(void* m) { Contend(m, [] { return false; }); In in; Acquire(uint64_t(m)); }
static void UnlockIt(void* m) { In in; Lock& l = (*locks)[uint64_t(m)]; Release(uint64_t(m)); if (CellOf(uint64_t(m))->vis) Log(uint64_t(m), 1, 2, -1); if (--l.depth <= 0) { l.owner = -1; l.depth = 0; Wake(m); } }
int __c19_pthread_mutex_lock(pthread_mutex_t* m) { if (!Ours()) return pthread_mutex_lock(m); LockIt(m); return 0; }
int __c19_pthread_mutex_unlock(pthread_mutex_t* m) { if (!Ours()) return pthread_mutex_unlock(m); UnlockIt(m); return 0; }
int __c19_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!Ours()) return pthread_mutex_trylock(m);
  In in;
  uint64_t a = uint64_t(m);
  Mark(a, 1, true);
  if (CellOf(a)->vis) { sh->visible++; Decide(t_id); Log(a, 1, 1, led); }
  Lock& l = (*locks)[a];
  if (l.owner >= 0 && l.owner != t_id) return EBUSY;
  l.owner = t_id; ++l.depth;
  Acquire(a);
  return 0;
}
int __c19_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!Ours()) return pthread_rwlock_rdlock(m); LockIt(m); return 0; }
int __c19_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!Ours()) return pthread_rwlock_wrlock(m); LockIt(m); return 0; }
int __c19_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!Ours()) return pthread_rwlock_unlock(m); UnlockIt(m); return 0; }
int __c19_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!Ours()) return pthread_once(o, f);
  if (Contend(o, [o] { return *o == 2; })) { In in; Acquire(uint64_t(o)); return 0; }
  auto end = [&](int v) { In in; *o = v; (*locks)[uint64_t(o)].owner = -1; if (v == 2) Release(uint64_t(o)); if (CellOf(uint64_t(o))->vis) Log(uint64_t(o), 1, 2, -1); Wake(o); };
  try { f(); } catch (...) { end(0); throw; }
  end(2);
  return 0;
}
int __cxa_guard_acquire_(uint64_t*) __asm__("__cxa_guard_acquire"); void __cxa_guard_release_(uint64_t*) __asm__("__cxa_guard_release"); void __cxa_guard_abort_(uint64_t*) __asm__("__cxa_guard_abort");
int __c19___cxa_guard_acquire(uint64_t* g) {
  if (!Ours()) return __cxa_guard_acquire_(g);
  if (Contend(g, [g] { return *reinterpret_cast<uint8_t*>(g) != 0; })) { In in; Acquire(uint64_t(g)); return 0; }
  return 1;
}
static void GuardEnd(uint64_t* g, bool made) { In in; if (made) { *reinterpret_cast<uint8_t*>(g) = 1; Release(uint64_t(g)); } if (CellOf(uint64_t(g))->vis) Log(uint64_t(g), 1, 2, -1); (*locks)[uint64_t(g)].owner = -1; Wake(g); }
void __c19___cxa_guard_release(uint64_t* g) { if (!Ours()) { __cxa_guard_release_(g); return; } GuardEnd(g, true); }
void __c19___cxa_guard_abort(uint64_t* g) { if (!Ours()) { __cxa_guard_abort_(g); return; } GuardEnd(g, false); }

// --- Functions of OpenSSL and zlib: wrappers are generated, this says what they access.
static bool Has(const char* s, const char* w) { return strstr(s, w) != nullptr; }
void __c19_ext(const char* f, long a, long b, long c, long d, long e, long) {
  if (!Ours()) return;
  auto p = [](long x) { return reinterpret_cast<void*>(x); };
  auto is = [&](const char* n) { return strcmp(f, n) == 0; };
  if (is("AES_encrypt") || is("AES_decrypt")) { R(p(a), 16, 0); R(p(c), 244, 0); W(p(b), 16, 0); return; }
  if (is("AES_set_encrypt_key") || is("AES_set_decrypt_key")) { R(p(a), size_t(b) / 8, 0); W(p(c), 244, 0); return; }
  if (Has(f, "_Init") && Has(f, "SHA") ) { W(p(a), 112, 0); return; }
  if (Has(f, "SHA") && Has(f, "_Update")) { W(p(a), 112, 0); R(p(b), size_t(c), 0); return; }
  if (is("SHA256_Final")) { W(p(b), 112, 0); W(p(a), 32, 0); return; }
  if (is("SHA256")) { R(p(a), size_t(b), 0); if (c) W(p(c), 32, 0); else { static char buf[32]; W(buf, 32, 0); } return; }
  if (is("RAND_bytes")) { W(p(a), size_t(b), 0); return; }
  if (is("inflate") || is("deflate")) {                                      // z_stream and the buffers it points to
    const uint64_t* z = static_cast<const uint64_t*>(p(a));
    R(p(long(z[0])), uint32_t(z[1]), 0);
    W(p(long(z[3])), uint32_t(z[4]), 0);
  }
  if (Has(f, "flate")) { W(p(a), 112, 0); return; }
  if (Has(f, "crc32") || Has(f, "adler32")) { R(p(b), size_t(c), 0); return; }
  if (is("EVP_EncryptUpdate") || is("EVP_DecryptUpdate") || is("EVP_CipherUpdate")) { W(p(a), 1, 0); R(p(d), size_t(e), 0); W(p(b), size_t(e), 0); W(p(c), 4, 0); return; }
  if (is("EVP_DigestUpdate")) { W(p(a), 1, 0); R(p(b), size_t(c), 0); return; }
  if (is("EVP_DigestFinal_ex") || is("EVP_DigestFinal")) { W(p(a), 1, 0); W(p(b), 32, 0); return; }
  if ((Has(f, "Init") || Has(f, "Update") || Has(f, "Final") || Has(f, "CTX_")) && !Has(f, "_new") && a) { W(p(a), 1, 0); return; }
}
}  // extern "C"

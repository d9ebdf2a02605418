// Controlled memory: every allocation of the process while an operation runs can be made to fail, and blocks that are
// not given back are seen. Included by one check only (defines malloc and friends).
#pragma once
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <new>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace memory {

struct State {
  bool armed = false;                // the operation runs: allocations are counted, recorded and made to fail
  uint64_t calls = 0;
  uint64_t fail_at = UINT64_MAX;     // number of the allocation that fails
  uint64_t then = UINT64_MAX;        // and of a second one
  bool for_good = false;             // and all later ones
  uint64_t failed = 0;
  uint64_t live = 0;                 // recorded blocks not given back yet
};
extern State state;
const size_t kSlots = 1 << 17;
extern void* table[kSlots];

inline size_t Slot(void* p) { return size_t((reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 40) & (kSlots - 1); }
inline void Record(void* p) {
  if (!p || state.live > kSlots / 2) return;
  size_t i = Slot(p);
  while (table[i]) i = (i + 1) & (kSlots - 1);
  table[i] = p; ++state.live;
}
inline void Forget(void* p) {
  if (!p || !state.live) return;
  size_t i = Slot(p);
  while (table[i] && table[i] != p) i = (i + 1) & (kSlots - 1);
  if (!table[i]) return;
  table[i] = nullptr; --state.live;
  for (size_t j = (i + 1) & (kSlots - 1); table[j]; j = (j + 1) & (kSlots - 1)) {
    size_t home = Slot(table[j]);
    if (((j - home) & (kSlots - 1)) >= ((j - i) & (kSlots - 1))) { table[i] = table[j]; table[j] = nullptr; i = j; }
  }
}
// Counting starts again; recorded blocks stay recorded.
inline void Again() { uint64_t live = state.live; state = State(); state.live = live; }
inline void Clear() { memset(table, 0, sizeof table); state = State(); }
inline bool Refuse() {
  uint64_t n = state.calls++;
  if (n == state.fail_at || n == state.then || (state.for_good && n > state.fail_at)) { ++state.failed; errno = ENOMEM; return true; }
  return false;
}

}  // namespace memory

memory::State memory::state;
void* memory::table[memory::kSlots];

extern "C" {
void* malloc(size_t n) noexcept {
  if (!memory::state.armed) return __libc_malloc(n);
  if (memory::Refuse()) return nullptr;
  void* p = __libc_malloc(n);
  memory::Record(p);
  return p;
}
void* calloc(size_t a, size_t b) noexcept {
  if (!memory::state.armed) return __libc_calloc(a, b);
  if (memory::Refuse()) return nullptr;
  void* p = __libc_calloc(a, b);
  memory::Record(p);
  return p;
}
void* realloc(void* old, size_t n) noexcept {
  if (!memory::state.armed) { memory::Forget(old); return __libc_realloc(old, n); }
  if (memory::Refuse()) return nullptr;
  memory::Forget(old);
  void* p = __libc_realloc(old, n);
  memory::Record(p);
  return p;
}
int posix_memalign(void** out, size_t a, size_t n) noexcept {
  if (memory::state.armed && memory::Refuse()) return ENOMEM;
  *out = __libc_memalign(a, n);
  if (memory::state.armed) memory::Record(*out);
  return *out ? 0 : ENOMEM;
}
void* aligned_alloc(size_t a, size_t n) noexcept {
  if (memory::state.armed && memory::Refuse()) return nullptr;
  void* p = __libc_memalign(a, n);
  if (memory::state.armed) memory::Record(p);
  return p;
}
void free(void* p) noexcept {
  memory::Forget(p);
  __libc_free(p);
}
}

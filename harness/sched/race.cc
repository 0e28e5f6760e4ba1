#include "race.h"

#include <sys/single_threaded.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <unordered_map>
#include <vector>

#include "sched.h"

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
}

namespace sched {
int unwatched = 0;
namespace {

using Clock = std::vector<uint32_t>;
struct Cell {
  uint32_t run, wclk, rclk;
  int16_t wf, rf;  // -1: nobody; wf = -2: freed
  int32_t many;    // readers that are not ordered
};
constexpr int kPage = 4096;
struct World {
  std::unordered_map<uintptr_t, Cell*> pages;
  std::vector<Clock> many, clock;
  std::unordered_map<const void*, Clock> sync;
  std::vector<void*> freed;
};
World& W() {
  static World* w = new World;
  return *w;
}
uint32_t run = 1;
bool on = false;
int inside = 0;
struct Inside {
  Inside() { ++inside; }
  ~Inside() { --inside; }
};
uintptr_t last_page = 0;
Cell* last_cells = nullptr;

Cell* At(uintptr_t a) {
  const uintptr_t page = a / kPage;
  if (page != last_page) {
    Cell*& c = W().pages[page];
    if (!c) c = static_cast<Cell*>(std::calloc(kPage, sizeof(Cell)));
    last_page = page;
    last_cells = c;
  }
  Cell* c = last_cells + a % kPage;
  if (c->run != run) *c = {run, 0, 0, -1, -1, -1};
  return c;
}

Clock& Of(int f) {
  auto& c = W().clock;
  while (int(c.size()) <= f) c.emplace_back();
  if (int(c[f].size()) <= f) c[f].resize(f + 1, 0);
  if (c[f][f] == 0) c[f][f] = 1;
  return c[f];
}
uint32_t Get(const Clock& c, int i) { return i < int(c.size()) ? c[i] : 0; }
void Join(Clock& a, const Clock& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]);
}

void Race(const char* what, int other) {
  inside = 0;
  ++unwatched;
  Fail(std::string(what) + " without synchronisation with thread " + std::to_string(other));
}
bool Watching() { return on && unwatched == 0 && inside == 0 && Active(); }

void Access(const void* p, size_t n, bool write) {
  if (!Watching()) return;
  Inside here;
  const int f = Self();
  Clock& c = Of(f);
  for (uintptr_t a = uintptr_t(p); n > 0; ++a, --n) {
    Cell* x = At(a);
    if (x->wf == -2) {
      inside = 0;
      ++unwatched;
      Fail("access to freed memory");
    }
    if (x->wf >= 0 && x->wf != f && x->wclk > Get(c, x->wf)) Race(write ? "write after write" : "read after write", x->wf);
    if (write) {
      if (x->many >= 0) {
        const Clock& m = W().many[x->many];
        for (int i = 0; i < int(m.size()); ++i)
          if (i != f && m[i] > Get(c, i)) Race("write after read", i);
      } else if (x->rf >= 0 && x->rf != f && x->rclk > Get(c, x->rf)) {
        Race("write after read", x->rf);
      }
      x->wf = f;
      x->wclk = c[f];
      x->rf = -1;
      x->many = -1;
    } else if (x->many >= 0) {
      Clock& m = W().many[x->many];
      if (int(m.size()) <= f) m.resize(f + 1, 0);
      m[f] = c[f];
    } else if (x->rf < 0 || x->rf == f || x->rclk <= Get(c, x->rf)) {
      x->rf = f;
      x->rclk = c[f];
    } else {
      x->many = int(W().many.size());
      W().many.emplace_back(std::max(f, int(x->rf)) + 1, 0);
      W().many.back()[x->rf] = x->rclk;
      W().many.back()[f] = c[f];
    }
  }
}

void Freed(void* p) {
  if (!p) return;
  if (!on || inside || !Active()) {
    __real_free(p);
    return;
  }
  const size_t n = malloc_usable_size(p);
  // Freeing writes: everybody who used the memory must be done with it.
  Access(p, n, true);
  Inside here;
  for (size_t i = 0; i < n; ++i) At(uintptr_t(p) + i)->wf = -2;
  W().freed.push_back(p);
}

}  // namespace

void HbStart() {
  inside = 0;
  __libc_single_threaded = 0;
  ++run;
  World& w = W();
  w.many.clear();
  w.clock.clear();
  w.sync.clear();
  unwatched = 0;
  on = true;
}
void HbEnd() {
  inside = 0;
  on = false;
  unwatched = 0;
  for (void* p : W().freed) __real_free(p);
  W().freed.clear();
}
void HbAcquire(const void* key) {
  if (!on || inside || !Active()) return;
  Inside here;
  auto i = W().sync.find(key);
  if (i != W().sync.end()) Join(Of(Self()), i->second);
}
void HbRelease(const void* key) {
  if (!on || inside || !Active()) return;
  Inside here;
  Clock& c = Of(Self());
  Join(W().sync[key], c);
  ++c[Self()];
}
void HbReset(const void* key) {
  if (!on || inside || !Active()) return;
  Inside here;
  W().sync.erase(key);
}

}  // namespace sched

using sched::Access;

// ---- memory ---------------------------------------------------------------
extern "C" {
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void* p) { sched::Freed(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __real_malloc(n);
  void* q = __real_malloc(n);
  std::memcpy(q, p, std::min(n, malloc_usable_size(p)));
  sched::Freed(p);
  return q;
}
}
static void* Alloc(size_t n) {
  void* p = __real_malloc(n ? n : 1);
  if (!p) std::abort();
  return p;
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void operator delete(void* p) noexcept { sched::Freed(p); }
void operator delete[](void* p) noexcept { sched::Freed(p); }
void operator delete(void* p, size_t) noexcept { sched::Freed(p); }
void operator delete[](void* p, size_t) noexcept { sched::Freed(p); }
void* operator new(size_t n, std::align_val_t a) {
  void* p = nullptr;
  if (posix_memalign(&p, size_t(a), n ? n : 1)) std::abort();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { sched::Freed(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sched::Freed(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sched::Freed(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sched::Freed(p); }

// ---- what the compiler calls ----------------------------------------------
namespace {
bool Acq(int o) { return o == __ATOMIC_CONSUME || o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
bool Rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
void Before(const volatile void* p, int o) { if (Acq(o)) sched::HbAcquire(const_cast<const void*>(p)); }
void After(const volatile void* p, int o) { if (Rel(o)) sched::HbRelease(const_cast<const void*>(p)); }
}  // namespace
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACCESS(n)                                                    \
  void __tsan_read##n(void* p) { Access(p, n, false); }              \
  void __tsan_write##n(void* p) { Access(p, n, true); }              \
  void __tsan_read_write##n(void* p) { Access(p, n, true); }         \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false); }    \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true); }    \
  void __tsan_unaligned_read_write##n(void* p) { Access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false); }     \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { Access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, sizeof *p, true); }
void __tsan_vptr_read(void** p) { Access(p, sizeof *p, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { Access(s, n, false); Access(d, n, true); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Access(s, n, false); Access(d, n, true); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Access(d, n, true); return std::memset(d, c, n); }
#define ATOMIC(bits, T)                                                                                   \
  T __tsan_atomic##bits##_load(const volatile T* p, int o) { T v = *p; Before(p, o); return v; }          \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { *p = v; sched::HbReset((const void*)p); After(p, o); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = v; After(p, o); return x; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = x + v; After(p, o); return x; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = x - v; After(p, o); return x; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = x & v; After(p, o); return x; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = x | v; After(p, o); return x; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { Before(p, o); T x = *p; *p = x ^ v; After(p, o); return x; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) {               \
    Before(p, o); if (*p == *e) { *p = v; After(p, o); return 1; } *e = *p; return 0; }                   \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int g) {               \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, g); }                                \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int g) {                   \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, g); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char all; Before(&all, __ATOMIC_SEQ_CST); After(&all, __ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// Initialisation of a static local happens before its use.
void __real___cxa_guard_release(void*);
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); sched::HbRelease(g); }
}

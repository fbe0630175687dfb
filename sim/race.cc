// Memory accesses of engines built with -fsanitize=thread.  The compiler reports every access and
// function entry of the library here: each is a point at which the scheduler may switch threads,
// and each is checked for a data race: two threads touching the same byte, one of them writing,
// with no synchronisation ordering the two.  Ordering is tracked with vector clocks, so a race is
// found whichever way the schedule happened to order the accesses.
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <unordered_map>
#include "engine.h"
#include "seam.h"
#define EXPORT __attribute__((visibility("default")))
namespace {
const int T = 8;
struct VC { uint32_t c[T]; };
struct Cell { uint8_t task, mask, flags, used; uint32_t clk; void* pc; };  // flags: 1 write, 2 atomic
struct Granule { uint64_t key; uint32_t gen; int n; Cell c[12]; };
const uint32_t SLOTS = 1 << 17;
Granule* g_tab;
uint32_t g_gen;
uint32_t g_count;
bool g_on;
VC g_vc[T];
std::unordered_map<const void*, VC>* g_sync;
struct { bool set; int a, b; bool wa, wb; void *pa, *pb; } g_race;

Granule* find(uint64_t key, bool make) {
  uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ULL) >> 40) & (SLOTS - 1);
  for (uint32_t i = 0; i < SLOTS; i++) {
    Granule* g = &g_tab[(h + i) & (SLOTS - 1)];
    if (g->gen != g_gen) {
      if (!make || g_count > SLOTS / 2) return nullptr;
      g->gen = g_gen; g->key = key; g->n = 0;
      g_count++;
      return g;
    }
    if (g->key == key) return g;
  }
  return nullptr;
}
void touch(uint64_t gr, uint8_t mask, uint8_t flags, int t, void* pc) {
  Granule* g = find(gr, true);
  if (!g) return;
  uint32_t now = g_vc[t].c[t];
  Cell* mine = nullptr;
  for (int i = 0; i < g->n; i++) {
    Cell& c = g->c[i];
    if (c.task == t) { if (c.mask == mask && c.flags == flags) mine = &c; continue; }
    if (!(c.mask & mask)) continue;
    if (!((c.flags | flags) & 1)) continue;          // two reads
    if ((c.flags & 2) && (flags & 2)) continue;      // two atomic accesses
    if (g_vc[t].c[c.task] >= c.clk) continue;        // ordered
    if (!g_race.set) g_race = {true, c.task, t, (c.flags & 1) != 0, (flags & 1) != 0, c.pc, pc};
  }
  if (mine) { mine->clk = now; mine->pc = pc; return; }
  int k = g->n < 12 ? g->n++ : (int)((gr + now) % 12);
  g->c[k] = Cell{(uint8_t)t, mask, flags, 1, now, pc};
}
// the program's own accesses, not those to the C++ runtime's objects or the simulator's
bool foreign(const void* p) {
  static uintptr_t lo[8], hi[8];
  static int n = -1;
  if (n < 0) {
    n = 0;
    FILE* f = fopen("/proc/self/maps", "r");
    char l[600];
    while (f && fgets(l, sizeof l, f)) {
      if ((strstr(l, "libstdc++") || strstr(l, "libc.so") || strstr(l, "/simd")) && n < 8) {
        unsigned long a, b;
        if (sscanf(l, "%lx-%lx", &a, &b) == 2) {
          if (n && hi[n - 1] == a) hi[n - 1] = b;
          else { lo[n] = a; hi[n] = b; n++; }
        }
      }
    }
    if (f) fclose(f);
  }
  for (int i = 0; i < n; i++) if ((uintptr_t)p >= lo[i] && (uintptr_t)p < hi[i]) return true;
  return false;
}
void access(const void* p, size_t n, uint8_t flags, void* pc) {
  if (!tl_inlib) return;
  yield_here();
  if (!g_on) return;
  int t = cur_task();
  if (t < 0 || t >= T || n == 0 || foreign(p)) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t g = a >> 3, end = (g + 1) << 3;
    if (end > e) end = e;
    uint8_t m = 0;
    for (uintptr_t x = a; x < end; x++) m |= 1 << (x & 7);
    touch(g, m, flags, t, pc);
    a = end;
  }
}
std::string where(void* pc) {
  Dl_info d;
  char b[300];
  if (dladdr(pc, &d) && d.dli_fname) {
    const char* s = strrchr(d.dli_fname, '/');
    snprintf(b, sizeof b, "%s+0x%lx", s ? s + 1 : d.dli_fname, (unsigned long)((char*)pc - (char*)d.dli_fbase - 1));
    return b;
  }
  return "?";
}
}  // namespace
void race_start(int n) {
  Glue gl;
  foreign(nullptr);
  if (!g_tab) g_tab = (Granule*)calloc(SLOTS, sizeof(Granule));
  if (!g_sync) g_sync = new std::unordered_map<const void*, VC>();
  g_gen++;
  g_count = 0;
  g_sync->clear();
  memset(g_vc, 0, sizeof g_vc);
  for (int i = 0; i < T; i++) g_vc[i].c[i] = 1;
  g_race.set = false;
  g_on = n <= T;
}
void race_stop() { g_on = false; }
bool race_found(std::string& what) {
  if (!g_race.set) return false;
  what = std::string("two threads touch the same memory without synchronisation: thread ") + std::to_string(g_race.a) + (g_race.wa ? " writes at " : " reads at ") + where(g_race.pa) +
         ", thread " + std::to_string(g_race.b) + (g_race.wb ? " writes at " : " reads at ") + where(g_race.pb);
  return true;
}
void race_acquire(const void* o) {
  int t = cur_task();
  if (!g_on || t < 0 || t >= T) return;
  Glue gl;
  auto it = g_sync->find(o);
  if (it == g_sync->end()) return;
  for (int i = 0; i < T; i++) if (it->second.c[i] > g_vc[t].c[i]) g_vc[t].c[i] = it->second.c[i];
}
void race_release(const void* o) {
  int t = cur_task();
  if (!g_on || t < 0 || t >= T) return;
  Glue gl;
  VC& v = (*g_sync)[o];
  for (int i = 0; i < T; i++) if (g_vc[t].c[i] > v.c[i]) v.c[i] = g_vc[t].c[i];
  g_vc[t].c[t]++;
}
void race_freed(const void* p, size_t n) { access(p, n < 64 ? n : 64, 1, __builtin_return_address(0)); }
void race_forget(const void* p, size_t n) {
  if (!g_on) return;
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  if (e - a > 4 * SLOTS) e = a + 4 * SLOTS;
  for (; a < e; a++) if (Granule* g = find(a, false)) g->n = 0;
}
extern "C" {
#define PC __builtin_return_address(0)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) { if (tl_inlib) yield_here(); }
EXPORT void __tsan_func_exit(void*) {}
#define RW(n, sz, w) EXPORT void n(void* p) { access(p, sz, w, PC); }
#define BOTH(pre, sz) RW(pre##read##sz, sz, 0) RW(pre##write##sz, sz, 1)
BOTH(__tsan_, 1) BOTH(__tsan_, 2) BOTH(__tsan_, 4) BOTH(__tsan_, 8) BOTH(__tsan_, 16)
BOTH(__tsan_unaligned_, 2) BOTH(__tsan_unaligned_, 4) BOTH(__tsan_unaligned_, 8) BOTH(__tsan_unaligned_, 16)
BOTH(__tsan_volatile_, 1) BOTH(__tsan_volatile_, 2) BOTH(__tsan_volatile_, 4) BOTH(__tsan_volatile_, 8) BOTH(__tsan_volatile_, 16)
EXPORT void __tsan_vptr_update(void* a, void* v) { if (*(void**)a != v) access(a, 8, 1, PC); }
EXPORT void __tsan_vptr_read(void* a) { access(a, 8, 0, PC); }
EXPORT void __tsan_read_range(void* p, long n) { access(p, n, 0, PC); }
EXPORT void __tsan_write_range(void* p, long n) { access(p, n, 1, PC); }
static void acq(const volatile void* a, int mo) { if (mo == 1 || mo == 2 || mo >= 4) race_acquire((const void*)a); }
static void rel(const volatile void* a, int mo) { if (mo >= 3) race_release((const void*)a); }
#define AT(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile void* a, int mo) { access((const void*)a, sizeof(T), 2, PC); T r = __atomic_load_n((const volatile T*)a, 5); acq(a, mo); return r; } \
  EXPORT void __tsan_atomic##bits##_store(volatile void* a, T v, int mo) { access((const void*)a, sizeof(T), 3, PC); rel(a, mo); __atomic_store_n((volatile T*)a, v, 5); } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile void* a, void* c, T v, int mo, int) { access((const void*)a, sizeof(T), 3, PC); acq(a, mo); rel(a, mo); return __atomic_compare_exchange_n((volatile T*)a, (T*)c, v, false, 5, 5); } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile void* a, void* c, T v, int mo, int) { access((const void*)a, sizeof(T), 3, PC); acq(a, mo); rel(a, mo); return __atomic_compare_exchange_n((volatile T*)a, (T*)c, v, true, 5, 5); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile void* a, T c, T v, int mo, int) { access((const void*)a, sizeof(T), 3, PC); acq(a, mo); rel(a, mo); __atomic_compare_exchange_n((volatile T*)a, &c, v, false, 5, 5); return c; } \
  RMW(bits, T, exchange, __atomic_exchange_n) RMW(bits, T, fetch_add, __atomic_fetch_add) RMW(bits, T, fetch_sub, __atomic_fetch_sub) \
  RMW(bits, T, fetch_and, __atomic_fetch_and) RMW(bits, T, fetch_or, __atomic_fetch_or) RMW(bits, T, fetch_xor, __atomic_fetch_xor) RMW(bits, T, fetch_nand, __atomic_fetch_nand)
#define RMW(bits, T, nm, fn) \
  EXPORT T __tsan_atomic##bits##_##nm(volatile void* a, T v, int mo) { access((const void*)a, sizeof(T), 3, PC); acq(a, mo); rel(a, mo); return fn((volatile T*)a, v, 5); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
EXPORT void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, 0, PC); access(d, n, 1, PC); return memcpy(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, 1, PC); return memset(d, c, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, 0, PC); access(d, n, 1, PC); return memmove(d, s, n); }
}

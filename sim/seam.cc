#include "seam.h"
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <new>
#include <streambuf>
#include <thread>
#include <unordered_map>
#include "engine.h"

Sim S;
thread_local int tl_inlib = 0;
thread_local int tl_task = -1;
long g_memlimit = 1L << 30;
#define EXPORT __attribute__((visibility("default")))
#define REAL(name) ((decltype(&name))real_sym(#name))
static void* real_sym(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  return p;
}
extern "C" EXPORT int sim_enter_glue() { int s = tl_inlib; tl_inlib = 0; return s; }
extern "C" EXPORT void sim_leave_glue(int s) { tl_inlib = s; }

void yield_here();
void die_hang(const char* why) {
  char b[200];
  int n = snprintf(b, sizeof b, "HANG %s\n", why);
  ssize_t r = syscall(1, 2, b, n);
  (void)r;
  _exit(97);
}

static inline uint64_t mix(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
void seam_logmix(uint64_t v) { S.logHash = mix(S.logHash ^ v) + 0x9e3779b97f4a7c15ULL; }

// ---------------------------------------------------------------- scheduler
namespace {
struct Task { sem_t sem; bool done = false; const void* waits = nullptr; };
std::vector<Task*> g_tasks;
const std::vector<Preempt>* g_pre;
size_t g_preIdx;
uint64_t g_event, g_switches;
uint64_t g_nextPre = ~0ULL;
sem_t g_main;
bool g_sched = false;
}  // namespace
bool in_task() { return g_sched && tl_task >= 0; }
static int pick(int want) {
  int n = g_tasks.size();
  bool any = false;
  for (int i = 0; i < n; i++) {
    int k = (want + i) % n;
    if (g_tasks[k]->done) continue;
    any = true;
    if (!g_tasks[k]->waits) return k;
  }
  if (any) die_hang("deadlock: every thread waits for a lock");
  return -1;
}
static void arm() { g_nextPre = g_preIdx < g_pre->size() ? (*g_pre)[g_preIdx].at : ~0ULL; }
static void preempt_now() {
  int want = (*g_pre)[g_preIdx].to;
  g_preIdx++;
  arm();
  int me = tl_task;
  int t = pick(want % (int)g_tasks.size());
  if (t < 0 || t == me) return;
  g_switches++;
  seam_logmix(g_event * 31 + t);
  sem_post(&g_tasks[t]->sem);
  while (sem_wait(&g_tasks[me]->sem) != 0) {}
}
static void hand_over(int t) {
  int me = tl_task, il = tl_inlib;
  tl_inlib = 0;
  g_switches++;
  seam_logmix(g_event * 31 + t);
  sem_post(&g_tasks[t]->sem);
  while (sem_wait(&g_tasks[me]->sem) != 0) {}
  tl_inlib = il;
}
// the running task waits until `what` is released
static void block_on(const void* what) {
  g_tasks[tl_task]->waits = what;
  S.seen["thread blocked on a lock"]++;
  hand_over(pick((tl_task + 1) % (int)g_tasks.size()));
}
static void release_waiters(const void* what) {
  if (!g_sched) return;
  for (auto t : g_tasks) if (t->waits == what) t->waits = nullptr;
}
int cur_task() { return g_sched ? tl_task : -1; }
static inline void yield_point() {
  if (!g_sched || tl_task < 0) return;
  uint64_t e = g_event++;
  if (__builtin_expect(e >= g_nextPre && true, 0)) {
    int il = tl_inlib;
    tl_inlib = 0;
    preempt_now();
    tl_inlib = il;
  }
}
void yield_here() { yield_point(); }
SchedResult run_tasks(std::vector<std::function<void()>>& fs, const std::vector<Preempt>& pre, int first) {
  g_tasks.clear();
  g_pre = &pre; g_preIdx = 0; g_event = 0; g_switches = 0;
  arm();
  sem_init(&g_main, 0, 0);
  std::vector<std::thread> th;
  for (size_t i = 0; i < fs.size(); i++) { Task* t = new Task; sem_init(&t->sem, 0, 0); g_tasks.push_back(t); }
  for (size_t i = 0; i < fs.size(); i++)
    th.emplace_back([i, &fs]() {
      while (sem_wait(&g_tasks[i]->sem) != 0) {}
      tl_task = i;
      fs[i]();
      tl_task = -1;
      g_tasks[i]->done = true;
      int n = pick((i + 1) % g_tasks.size());
      if (n >= 0) sem_post(&g_tasks[n]->sem);
      else sem_post(&g_main);
    });
  race_start((int)fs.size());
  g_sched = true;
  sem_post(&g_tasks[first % fs.size()]->sem);
  while (sem_wait(&g_main) != 0) {}
  g_sched = false;
  race_stop();
  for (auto& t : th) t.join();
  for (auto t : g_tasks) { sem_destroy(&t->sem); delete t; }
  g_tasks.clear();
  return SchedResult{g_event, g_switches, false};
}

static inline void event() {
  S.stepEvents++;
  if (__builtin_expect(S.budget && S.stepEvents > S.budget, 0)) die_hang("too many events in one call");
  if (!S.ioOnly) yield_point();
}

// ---------------------------------------------------------------- heap
#if defined(__SANITIZE_ADDRESS__)
static void* raw_new(size_t n) { return malloc(n ? n : 1); }
static void raw_del(void* p) { free(p); }
#else
struct Hdr { size_t size; uint32_t magic; uint32_t lib; };
static void* raw_new(size_t n) {
  Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->size = n; h->magic = 0x51ab1e55; h->lib = tl_inlib;
  // what uninitialised memory holds is decided by the run
  if (tl_inlib) memset(h + 1, (int)(0x5a ^ (S.salt & 0xff)), n < 4096 ? n : 4096);
  if (tl_inlib) { S.liveBlocks++; S.liveBytes += n; }
  if (__builtin_expect(g_sched && tl_task >= 0, 0)) race_forget(h + 1, n);
  return h + 1;
}
static void raw_del(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (__builtin_expect(g_sched && tl_task >= 0, 0)) race_freed(p, h->size);
  if (h->magic != 0x51ab1e55) { static const char m[] = "bad free\n"; ssize_t r = syscall(1, 2, m, 9); (void)r; abort(); }
  h->magic = 0xdeadbeef;
  if (h->lib) { S.liveBlocks--; S.liveBytes -= h->size; }
  free(h);
}
#endif
static void* sim_new(size_t n) {
  if (tl_inlib) {
    event();
    long k = S.nAlloc++;
    if (S.faults)
      for (auto& f : *S.faults)
        if (f.kind == "alloc" && (k == f.n || (f.sticky && k > f.n))) { f.fired++; throw std::bad_alloc(); }
    if ((long)n > g_memlimit || n > (1UL << 40) || S.liveBytes + (long)n > g_memlimit) throw std::bad_alloc();
  }
  void* p = raw_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
EXPORT void* operator new(size_t n) { return sim_new(n); }
EXPORT void* operator new[](size_t n) { return sim_new(n); }
EXPORT void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
EXPORT void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
EXPORT void operator delete(void* p) noexcept { raw_del(p); }
EXPORT void operator delete[](void* p) noexcept { raw_del(p); }
EXPORT void operator delete(void* p, size_t) noexcept { raw_del(p); }
EXPORT void operator delete[](void* p, size_t) noexcept { raw_del(p); }
EXPORT void operator delete(void* p, const std::nothrow_t&) noexcept { raw_del(p); }
EXPORT void operator delete[](void* p, const std::nothrow_t&) noexcept { raw_del(p); }

// ---------------------------------------------------------------- clock and random numbers
static thread_local int tl_proc = 0;
void set_task_proc(int p) { tl_proc = p; }
static Proc& proc() { return S.procs[in_task() ? tl_proc : S.curProc]; }
extern "C" {
EXPORT time_t time(time_t* t) {
  if (!tl_inlib) {
    struct timespec ts;
    syscall(228 /*clock_gettime*/, 0, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
  }
  Glue g;
  S.nTime++; S.seen["clock read"]++;
  if (t) *t = (time_t)proc().clock;
  return (time_t)proc().clock;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!tl_inlib) return syscall(228, c, ts);
  Glue g;
  S.nTime++; S.seen["clock read"]++;
  ts->tv_sec = proc().clock;
  ts->tv_nsec = 0;
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void* tz) {
  if (!tl_inlib) { struct timespec ts; syscall(228, 0, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  Glue g;
  S.nTime++; S.seen["clock read"]++;
  tv->tv_sec = proc().clock;
  tv->tv_usec = 0;
  return 0;
}
static int next_rand() {
  Glue g;
  S.nRand++;
  Proc& p = proc();
  p.rng += 0x9e3779b97f4a7c15ULL;
  uint64_t v = mix(p.rng);
  if (S.rngmode == 1) {
    unsigned k = (v >> 40) & 15;
    if (k == 0) return 0;
    if (k == 1) return RAND_MAX;
    if (k == 2) return RAND_MAX - 1;
  }
  return (int)(v & 0x7fffffff);
}
EXPORT int rand() noexcept { if (tl_inlib) { event(); return next_rand(); } return REAL(rand)(); }
EXPORT long random() noexcept { if (tl_inlib) { event(); return next_rand(); } return REAL(random)(); }
static void seedit(uint64_t s) { Glue g; S.seen["reseed"]++; proc().rng = mix(s * 0x9e3779b97f4a7c15ULL + S.salt); }
EXPORT void srand(unsigned s) noexcept { if (tl_inlib) { event(); seedit(s); } else REAL(srand)(s); }
EXPORT void srandom(unsigned s) noexcept { if (tl_inlib) { event(); seedit(s); } else REAL(srandom)(s); }
}

// ---------------------------------------------------------------- files
namespace {
struct OpenFile { std::shared_ptr<Inode> ino; long pos = 0; bool rd = false, wr = false, app = false; std::string name; bool dir = false; };
const int FD0 = 100000;
std::unordered_map<int, std::shared_ptr<OpenFile>> g_fds;
std::unordered_map<FILE*, int> g_files;
int g_nextfd = FD0;
// every file the library touches is simulated; only the runtime's own files (shared objects, locales) are real
bool simpath(const char* p) {
  if (!tl_inlib || !p) return false;
  for (const char* real : {"/usr/", "/lib/", "/lib64/", "/etc/", "/proc/", "/dev/"}) if (!strncmp(p, real, strlen(real))) return false;
  return true;
}
bool isfd(int fd) { return fd >= FD0 && g_fds.count(fd); }
std::string norm(const char* p) {
  std::string s = p[0] == '/' ? p : std::string("/sim/cwd/") + p;
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') continue;
    if (s[i] == '/' && s.compare(i, 3, "/./") == 0) { i++; continue; }
    o += s[i];
  }
  if (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
std::string parent(const std::string& p) { auto k = p.rfind('/'); return k == std::string::npos || k == 0 ? "/" : p.substr(0, k); }
// the fault of this class hitting its k-th event, if any
Fault* hit(const char* kind, long k) {
  if (S.crashed || !S.faults) return nullptr;
  for (auto& f : *S.faults)
    if (f.kind == kind && (k == f.n || (f.sticky && k > f.n && !strstr(kind, "eintr")))) { f.fired++; S.fired[kind]++; return &f; }
  return nullptr;
}
void io(const char* what) {
  if (S.ioOnly) yield_point();
  S.seen[what]++;
  long k = S.nIo++;
  if (!S.crashed && S.faults)
    for (auto& f : *S.faults)
      if (f.kind == "crash" && k == f.n) {
        f.fired++;
        S.fired["crash"]++;
        S.crashed = true;
        S.crashDisk = deepcopy(S.disk);
        if (S.onCrash) S.onCrash();
      }
}
int checkname(const std::string& p) {
  size_t b = 0;
  for (size_t i = 0; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') { if (i - b > 255) return ENAMETOOLONG; b = i + 1; }
  if (p.size() > 4095) return ENAMETOOLONG;
  if (!S.dirs.count(parent(p))) return ENOENT;
  return 0;
}
int sim_open(const char* path, int flags) {
  Glue g;
  io("open");
  long k = S.nOpen++;
  std::string p = norm(path);
  if (Fault* f = hit("oerr", k)) { errno = f->arg ? f->arg : EACCES; return -1; }
  if (flags & (O_WRONLY | O_RDWR)) if (Fault* f = hit("oerrw", k)) { errno = f->arg ? f->arg : ENOSPC; return -1; }
  if (int e = checkname(p)) { errno = e; return -1; }
  auto of = std::make_shared<OpenFile>();
  int acc = flags & O_ACCMODE;
  of->rd = acc != O_WRONLY;
  of->wr = acc != O_RDONLY;
  of->app = flags & O_APPEND;
  of->name = p;
  if (S.dirs.count(p)) {
    if (of->wr) { errno = EISDIR; return -1; }
    of->dir = true;
    of->ino = std::make_shared<Inode>();
  } else {
    auto it = S.disk.find(p);
    if (it == S.disk.end()) {
      if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
      of->ino = S.disk[p] = std::make_shared<Inode>();
    } else {
      if ((flags & O_CREAT) && (flags & O_EXCL)) { S.seen["name collision"]++; errno = EEXIST; return -1; }
      of->ino = it->second;
      if ((flags & O_TRUNC) && of->wr) {
        if (S.diskLeft >= 0) S.diskLeft += of->ino->data.size();
        of->ino->data.clear();
      }
    }
  }
  int fd = g_nextfd++;
  g_fds[fd] = of;
  S.openFds++;
  return fd;
}
ssize_t sim_write(int fd, const void* b, size_t n) {
  Glue g;
  auto of = g_fds[fd];
  if (!of->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  // a crash inside a write can leave any prefix of it behind
  long k = S.nWrite++;
  if (!S.crashed && S.faults)
    for (auto& f : *S.faults)
      if (f.kind == "torn" && k == f.n) {
        f.fired++; S.fired["torn write + crash"]++;
        size_t m = std::min<size_t>(n, f.arg);
        long at = of->app ? (long)of->ino->data.size() : of->pos;
        S.crashed = true;
        Names d = deepcopy(S.disk);
        // the same bytes in the copied world
        for (auto& e : S.disk) if (e.second == of->ino) {
          auto& v = d[e.first]->data;
          if ((long)v.size() < at + (long)m) v.resize(at + m);
          memcpy(v.data() + at, b, m);
        }
        S.crashDisk = d;
      }
  io("write");
  if (hit("weintr", k)) { errno = EINTR; return -1; }
  if (Fault* f = hit("werr", k)) { errno = f->arg ? f->arg : EIO; return -1; }
  size_t m = n;
  if (Fault* f = hit("wshort", k)) m = std::max<size_t>(1, std::min<size_t>(n, f->arg > 0 ? f->arg : n / 2));
  if (S.diskLeft >= 0 && !S.crashed) {
    if (S.diskLeft == 0) { S.fired["disk full"]++; if (S.faults) for (auto& f : *S.faults) if (f.kind == "full") f.fired++; errno = ENOSPC; return -1; }
    if ((long)m > S.diskLeft) { m = S.diskLeft; S.fired["disk full (partial write)"]++; }
    S.diskLeft -= m;
  }
  if (of->app) of->pos = of->ino->data.size();
  auto& v = of->ino->data;
  if (v.size() < of->pos + m) {
    if (v.size() + m > (64u << 20)) { errno = EFBIG; return -1; }
    v.resize(of->pos + m);
  }
  memcpy(v.data() + of->pos, b, m);
  of->pos += m;
  seam_logmix(m * 131 + k);
  return m;
}
ssize_t sim_read(int fd, void* b, size_t n) {
  Glue g;
  auto of = g_fds[fd];
  io("read");
  long k = S.nRead++;
  if (of->dir) { errno = EISDIR; return -1; }
  if (!of->rd) { errno = EBADF; return -1; }
  if (hit("reintr", k)) { errno = EINTR; return -1; }
  if (Fault* f = hit("rerr", k)) { errno = f->arg ? f->arg : EIO; return -1; }
  long left = (long)of->ino->data.size() - of->pos;
  if (left < 0) left = 0;
  size_t m = std::min<size_t>(n, left);
  if (m > 1) if (Fault* f = hit("rshort", k)) m = std::max<size_t>(1, std::min<size_t>(m, f->arg > 0 ? f->arg : m / 2));
  memcpy(b, of->ino->data.data() + of->pos, m);
  of->pos += m;
  return m;
}
int sim_close_fd(int fd) {
  Glue g;
  io("close");
  long k = S.nClose++;
  auto of = g_fds[fd];
  g_fds.erase(fd);
  S.openFds--;
  if (of->wr)
    if (Fault* f = hit("cerr", k)) {
      // a delayed write error: the tail of the file did not reach the device
      auto& v = of->ino->data;
      size_t cut = std::min<size_t>(v.size(), 1 + ((size_t)f->n * 37 % 64));
      v.resize(v.size() - cut);
      errno = f->arg ? f->arg : EIO;
      return -1;
    }
  return 0;
}
long sim_lseek(int fd, long off, int wh) {
  auto of = g_fds[fd];
  long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? of->pos : (long)of->ino->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  return of->pos = b + off;
}
void fill_stat(struct stat* st, const std::string& p, std::shared_ptr<Inode> ino, bool dir) {
  memset(st, 0, sizeof *st);
  st->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = dir ? 4096 : ino->data.size();
  st->st_blksize = 4096;
  st->st_ino = std::hash<std::string>()(p);
  st->st_mtime = proc().clock;
}
int sim_stat(const char* path, struct stat* st) {
  Glue g;
  std::string p = norm(path);
  if (S.dirs.count(p)) { fill_stat(st, p, nullptr, true); return 0; }
  auto it = S.disk.find(p);
  if (it == S.disk.end()) { errno = ENOENT; return -1; }
  fill_stat(st, p, it->second, false);
  return 0;
}
int sim_unlink(const char* path) {
  Glue g;
  io("unlink");
  if (Fault* f = hit("uerr", S.nUnlink++)) { errno = f->arg ? f->arg : EACCES; return -1; }
  std::string p = norm(path);
  if (S.dirs.count(p)) { errno = EISDIR; return -1; }
  auto it = S.disk.find(p);
  if (it == S.disk.end()) { errno = ENOENT; return -1; }
  if (S.diskLeft >= 0) S.diskLeft += it->second->data.size();
  S.disk.erase(it);
  return 0;
}
int sim_rename(const char* a, const char* b) {
  Glue g;
  io("rename");
  if (Fault* f = hit("nerr", S.nRename++)) { errno = f->arg ? f->arg : EACCES; return -1; }
  std::string p = norm(a), q = norm(b);
  if (int e = checkname(q)) { errno = e; return -1; }
  auto it = S.disk.find(p);
  if (it == S.disk.end()) { errno = ENOENT; return -1; }
  if (S.dirs.count(q)) { errno = EISDIR; return -1; }
  auto ino = it->second;
  S.disk.erase(it);
  S.disk[q] = ino;
  return 0;
}
// What the C library does below a FILE: it goes on after short writes (and, its calls being restarted,
// after interrupted ones).
ssize_t ck_read(void* c, char* b, size_t n) {
  ssize_t r;
  do r = sim_read((int)(long)c, b, n); while (r < 0 && errno == EINTR);
  return r;
}
ssize_t ck_write(void* c, const char* b, size_t n) {
  size_t k = 0;
  while (k < n) {
    ssize_t r = sim_write((int)(long)c, b + k, n - k);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    k += r;
  }
  return k;
}
int ck_seek(void* c, off64_t* o, int wh) { long r = sim_lseek((int)(long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return sim_close_fd((int)(long)c); }
FILE* sim_fopen(const char* path, const char* mode) {
  int fl = 0;
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = sim_open(path, fl);
  if (fd < 0) return nullptr;
  Glue g;
  cookie_io_functions_t c = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie((void*)(long)fd, mode[0] == 'r' ? (plus ? "r+" : "r") : plus ? "w+" : "w", c);
  if (!f) abort();
  g_files[f] = fd;
  return f;
}
FILE* sim_fdopen(int fd, const char* mode) {
  Glue g;
  cookie_io_functions_t c = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie((void*)(long)fd, strchr(mode, 'r') ? (strchr(mode, '+') ? "r+" : "r") : "w", c);
  g_files[f] = fd;
  return f;
}
}  // namespace

ssize_t std_write(int fd, const void* b, size_t n);
extern "C" {
EXPORT FILE* fopen(const char* p, const char* m) { if (simpath(p)) { event(); return sim_fopen(p, m); } if (tl_inlib && m[0] != 'r') { errno = EACCES; return nullptr; } return REAL(fopen)(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { if (simpath(p)) { event(); return sim_fopen(p, m); } if (tl_inlib && m[0] != 'r') { errno = EACCES; return nullptr; } return REAL(fopen64)(p, m); }
EXPORT FILE* fdopen(int fd, const char* m) noexcept { if (isfd(fd)) return sim_fdopen(fd, m); return REAL(fdopen)(fd, m); }
EXPORT int fileno(FILE* f) noexcept { auto it = g_files.find(f); if (it != g_files.end()) return it->second; return REAL(fileno)(f); }
EXPORT int fclose(FILE* f) {
  if (tl_inlib && g_files.count(f)) { event(); Glue g; g_files.erase(f); return REAL(fclose)(f); }
  if (!g_files.empty()) g_files.erase(f);
  return REAL(fclose)(f);
}
static int open_impl(const char* p, int fl, mode_t m, const char* sym) {
  if (simpath(p)) { event(); return sim_open(p, fl); }
  if (tl_inlib && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { errno = EACCES; return -1; }
  return ((int (*)(const char*, int, ...))real_sym(sym))(p, fl, m);
}
EXPORT int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return open_impl(p, fl, m, "open"); }
EXPORT int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return open_impl(p, fl, m, "open64"); }
EXPORT int creat(const char* p, mode_t m) { return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, m, "open"); }
EXPORT int close(int fd) { if (isfd(fd)) { event(); return sim_close_fd(fd); } return REAL(close)(fd); }
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (isfd(fd)) { event(); return sim_write(fd, b, n); }
  if (tl_inlib && (fd == 1 || fd == 2)) { event(); return std_write(fd, b, n); }
  return REAL(write)(fd, b, n);
}
EXPORT ssize_t read(int fd, void* b, size_t n) { if (isfd(fd)) { event(); return sim_read(fd, b, n); } return REAL(read)(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!isfd(fd)) {
    if (tl_inlib && (fd == 1 || fd == 2)) { ssize_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; event(); ssize_t r = std_write(fd, "", t); return r; }
    return REAL(writev)(fd, v, c);
  }
  event();
  int g = sim_enter_glue();
  std::string all;
  for (int i = 0; i < c; i++) all.append((char*)v[i].iov_base, v[i].iov_len);
  sim_leave_glue(g);
  ssize_t r = sim_write(fd, all.data(), all.size());
  g = sim_enter_glue();
  std::string().swap(all);
  sim_leave_glue(g);
  return r;
}
EXPORT off_t lseek(int fd, off_t o, int w) noexcept { if (isfd(fd)) return sim_lseek(fd, o, w); return REAL(lseek)(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept { if (isfd(fd)) return sim_lseek(fd, o, w); return REAL(lseek64)(fd, o, w); }
EXPORT int fstat(int fd, struct stat* st) noexcept { if (isfd(fd)) { Glue g; auto of = g_fds[fd]; fill_stat(st, of->name, of->ino, of->dir); return 0; } return REAL(fstat)(fd, st); }
EXPORT int fstat64(int fd, struct stat64* st) noexcept { if (isfd(fd)) { Glue g; auto of = g_fds[fd]; fill_stat((struct stat*)st, of->name, of->ino, of->dir); return 0; } return REAL(fstat64)(fd, st); }
EXPORT int stat(const char* p, struct stat* st) noexcept { if (simpath(p)) return sim_stat(p, st); return REAL(stat)(p, st); }
EXPORT int stat64(const char* p, struct stat64* st) noexcept { if (simpath(p)) return sim_stat(p, (struct stat*)st); return REAL(stat64)(p, st); }
EXPORT int lstat(const char* p, struct stat* st) noexcept { if (simpath(p)) return sim_stat(p, st); return REAL(lstat)(p, st); }
EXPORT int access(const char* p, int m) noexcept { if (simpath(p)) { struct stat st; return sim_stat(p, &st); } return REAL(access)(p, m); }
EXPORT int unlink(const char* p) noexcept { if (simpath(p)) { event(); return sim_unlink(p); } if (tl_inlib) { errno = EACCES; return -1; } return REAL(unlink)(p); }
EXPORT int remove(const char* p) noexcept { if (simpath(p)) { event(); return sim_unlink(p); } if (tl_inlib) { errno = EACCES; return -1; } return REAL(remove)(p); }
EXPORT int rename(const char* a, const char* b) noexcept { if (simpath(a)) { event(); return sim_rename(a, b); } if (tl_inlib) { errno = EACCES; return -1; } return REAL(rename)(a, b); }
EXPORT int mkdir(const char* p, mode_t m) noexcept {
  if (simpath(p)) { Glue g; std::string q = norm(p); if (S.dirs.count(q)) { errno = EEXIST; return -1; } S.dirs.insert(q); return 0; }
  return REAL(mkdir)(p, m);
}
EXPORT int fsync(int fd) { if (isfd(fd)) { event(); Glue g; io("fsync"); return 0; } return REAL(fsync)(fd); }
EXPORT int fdatasync(int fd) { if (isfd(fd)) { event(); Glue g; io("fsync"); return 0; } return REAL(fdatasync)(fd); }
EXPORT int ftruncate(int fd, off_t n) noexcept { if (isfd(fd)) { g_fds[fd]->ino->data.resize(n); return 0; } return REAL(ftruncate)(fd, n); }
// Less common routes to the same disk, so that code may change how it reaches its files.
static ssize_t at_pos(int fd, off_t o, ssize_t (*f)(int, void*, size_t), void* b, size_t n) {
  long was = g_fds[fd]->pos;
  g_fds[fd]->pos = o;
  ssize_t r = f(fd, b, n);
  g_fds[fd]->pos = was;
  return r;
}
#define AT(name, fn, CV, T) \
  EXPORT ssize_t name(int fd, CV void* b, size_t n, T o) { \
    if (isfd(fd)) { event(); return at_pos(fd, o, [](int d, void* p, size_t k) { return fn(d, p, k); }, (void*)b, n); } \
    return REAL(name)(fd, b, n, o); }
AT(pread, sim_read, , off_t)
AT(pread64, sim_read, , off64_t)
AT(pwrite, sim_write, const, off_t)
AT(pwrite64, sim_write, const, off64_t)
EXPORT ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!isfd(fd)) return REAL(readv)(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    event();
    ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
EXPORT int openat(int d, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  if (simpath(p) || (tl_inlib && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)))) return open_impl(p, fl, m, "open");
  return ((int (*)(int, const char*, int, ...))real_sym("openat"))(d, p, fl, m);
}
EXPORT int openat64(int d, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  if (simpath(p) || (tl_inlib && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)))) return open_impl(p, fl, m, "open64");
  return ((int (*)(int, const char*, int, ...))real_sym("openat64"))(d, p, fl, m);
}
EXPORT int fstatat(int d, const char* p, struct stat* st, int fl) noexcept { if (simpath(p)) return sim_stat(p, st); if (isfd(d) && !*p) return fstat(d, st); return REAL(fstatat)(d, p, st, fl); }
EXPORT int unlinkat(int d, const char* p, int fl) noexcept { if (simpath(p) || tl_inlib) return unlink(p); return REAL(unlinkat)(d, p, fl); }
EXPORT int renameat(int d, const char* a, int e, const char* b) noexcept { if (simpath(a) || tl_inlib) return rename(a, b); return REAL(renameat)(d, a, e, b); }
EXPORT int truncate(const char* p, off_t n) noexcept {
  if (simpath(p)) {
    Glue g;
    auto it = S.disk.find(norm(p));
    if (it == S.disk.end()) { errno = ENOENT; return -1; }
    it->second->data.resize(n);
    return 0;
  }
  if (tl_inlib) { errno = EACCES; return -1; }
  return REAL(truncate)(p, n);
}
EXPORT int mkstemp(char* t) {
  if (!simpath(t)) { if (tl_inlib) { errno = EACCES; return -1; } return REAL(mkstemp)(t); }
  size_t n = strlen(t);
  for (unsigned i = 0; i < 1000000 && n >= 6; i++) {
    char b[8]; snprintf(b, sizeof b, "%06u", i); memcpy(t + n - 6, b, 6);
    int fd = open_impl(t, O_RDWR | O_CREAT | O_EXCL, 0600, "open");
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EINVAL;
  return -1;
}
EXPORT int mkostemp(char* t, int) { return mkstemp(t); }
EXPORT void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) noexcept {
  if (fd < 0 || !isfd(fd)) return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
  event();
  if ((fl & MAP_SHARED) && (pr & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
  void* r = (void*)syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (r == MAP_FAILED) return r;
  Glue g;
  auto& d = g_fds[fd]->ino->data;
  if ((size_t)o < d.size()) memcpy(r, d.data() + o, std::min(n, d.size() - o));
  return r;
}
EXPORT int fchmod(int fd, mode_t m) noexcept { if (isfd(fd)) return 0; return REAL(fchmod)(fd, m); }
EXPORT int posix_fadvise(int fd, off_t o, off_t n, int ad) noexcept { if (isfd(fd)) return 0; return REAL(posix_fadvise)(fd, o, n, ad); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n) { if (isfd(fd)) return EOPNOTSUPP; return REAL(posix_fallocate)(fd, o, n); }
EXPORT int poll(struct pollfd* p, nfds_t n, int t) { if (n == 1 && isfd(p->fd)) { p->revents = p->events & (POLLIN | POLLOUT); return p->revents ? 1 : 0; } return REAL(poll)(p, n, t); }
EXPORT int ioctl(int fd, unsigned long rq, ...) noexcept {
  va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a);
  if (isfd(fd)) {
    if (rq == FIONREAD) { auto of = g_fds[fd]; *(int*)p = std::max<long>(0, (long)of->ino->data.size() - of->pos); return 0; }
    errno = ENOTTY; return -1;
  }
  return ((int (*)(int, unsigned long, ...))real_sym("ioctl"))(fd, rq, p);
}
// Locks, one-time initialisation and random devices.  Outside simulated threads the real ones act;
// inside, a thread that cannot proceed is descheduled until the holder lets go.
#define REALFN(name, ...) typedef __VA_ARGS__; static FT f = nullptr; if (!f) f = (FT)real_sym(#name)
static bool sched_lib() { return g_sched && tl_task >= 0; }
#define LOCKFN(name, tryname, type) \
  EXPORT int name(type* m) noexcept { \
    REALFN(name, int (*FT)(type*)); typedef int (*TT)(type*); static TT tr = nullptr; if (!tr) tr = (int (*)(type*))real_sym(#tryname); \
    if (!sched_lib()) return f(m); \
    yield_point(); \
    int r; \
    while ((r = tr(m)) == EBUSY) block_on(m); \
    if (!r) race_acquire(m); \
    return r; }
#define TRYFN(name, type) \
  EXPORT int name(type* m) noexcept { REALFN(name, int (*FT)(type*)); if (!sched_lib()) return f(m); yield_point(); int r = f(m); if (!r) race_acquire(m); return r; }
#define UNLOCKFN(name, type) \
  EXPORT int name(type* m) noexcept { REALFN(name, int (*FT)(type*)); if (!sched_lib()) return f(m); race_release(m); int r = f(m); release_waiters(m); yield_point(); return r; }
LOCKFN(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
TRYFN(pthread_mutex_trylock, pthread_mutex_t)
UNLOCKFN(pthread_mutex_unlock, pthread_mutex_t)
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
TRYFN(pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRYFN(pthread_rwlock_trywrlock, pthread_rwlock_t)
UNLOCKFN(pthread_rwlock_unlock, pthread_rwlock_t)
static std::unordered_map<const void*, int> g_initing;  // one-time initialisations in progress
static bool begin_init(const void* g, bool (*done)(const void*)) {
  for (;;) {
    if (done(g)) { race_acquire(g); return false; }
    Glue gl;
    auto it = g_initing.find(g);
    if (it == g_initing.end()) { g_initing[g] = tl_task; race_acquire(g); return true; }
    if (it->second == tl_task) die_hang("deadlock: one-time initialisation waits for itself");
    block_on(g);
  }
}
static void end_init(const void* g) { { Glue gl; g_initing.erase(g); } release_waiters(g); yield_point(); }
EXPORT int __cxa_guard_acquire(long long* g) {
  REALFN(__cxa_guard_acquire, int (*FT)(long long*));
  if (!sched_lib()) return f(g);
  yield_point();
  return begin_init(g, [](const void* p) { return *(const char*)p != 0; });
}
EXPORT void __cxa_guard_release(long long* g) {
  REALFN(__cxa_guard_release, void (*FT)(long long*));
  if (!sched_lib()) return f(g);
  race_release(g);
  *(char*)g = 1;
  end_init(g);
}
EXPORT void __cxa_guard_abort(long long* g) {
  REALFN(__cxa_guard_abort, void (*FT)(long long*));
  if (!sched_lib()) return f(g);
  race_release(g);
  end_init(g);
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  REALFN(pthread_once, int (*FT)(pthread_once_t*, void (*)(void)));
  if (!sched_lib()) return f(o, fn);
  yield_point();
  if (!begin_init(o, [](const void* p) { return (*(const int*)p & 2) != 0; })) return 0;
  try { fn(); } catch (...) { race_release(o); end_init(o); throw; }
  race_release(o);
  *(volatile int*)o = 2;
  end_init(o);
  return 0;
}
// exceptions live in memory the heap hooks do not see
EXPORT void* __cxa_allocate_exception(size_t n) noexcept {
  REALFN(__cxa_allocate_exception, void* (*FT)(size_t));
  void* p = f(n);
  if (sched_lib()) race_forget(p, n);
  return p;
}
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void* d) {
  REALFN(_ZNSt13random_device9_M_getvalEv, unsigned (*FT)(void*));
  if (!tl_inlib) return f(d);
  event();
  return (unsigned)next_rand() ^ ((unsigned)next_rand() << 1);
}
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* d, const void* t) {
  REALFN(_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, void (*FT)(void*, const void*));
  if (!tl_inlib) return f(d, t);
  memset(d, 0, sizeof(int) * 8);
}
EXPORT void _ZNSt13random_device7_M_finiEv(void* d) {
  REALFN(_ZNSt13random_device7_M_finiEv, void (*FT)(void*));
  if (!tl_inlib) f(d);
}
EXPORT ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (!tl_inlib) return syscall(318, b, n, fl);
  event();
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)(next_rand() >> 7);
  return n;
}
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}

// ---------------------------------------------------------------- standard output
namespace {
struct OutBuf : std::streambuf {
  bool err;
  OutBuf(bool e) : err(e) {}
  bool take(size_t n) {
    Glue g;
    if (err) { S.errBytes += n; return true; }
    S.seen["stdout write"]++;
    long k = S.nOut++;
    if (hit("outerr", k)) return false;
    S.outBytes += n;
    return true;
  }
  int overflow(int c) override { event_(); return take(1) ? (c == EOF ? 0 : c) : EOF; }
  std::streamsize xsputn(const char*, std::streamsize n) override { event_(); return take(n) ? n : 0; }
  int sync() override { event_(); return take(0) ? 0 : -1; }
  void event_() { if (tl_inlib) event(); }
};
OutBuf g_out(false), g_err(true);
int g_memfd = -1;
ssize_t ck_std(void* c, const char* b, size_t n) {
  if (tl_inlib) { event(); return std_write((int)(long)c, b, n); }
  return syscall(1, (int)(long)c, b, n);
}
FILE* std_stream(int fd) {
  cookie_io_functions_t c = {nullptr, ck_std, nullptr, nullptr};
  FILE* f = fopencookie((void*)(long)fd, "w", c);
  setvbuf(f, nullptr, _IONBF, 0);
  return f;
}
}  // namespace
// what the library sends to the process's standard output or error by any way but the C++ streams
ssize_t std_write(int fd, const void* b, size_t n) {
  if (fd == 2) { { Glue g; S.errBytes += n; } if (*(const char*)b) { ssize_t r = syscall(1, 2, b, n); (void)r; } return n; }
  if (!g_out.take(n)) { errno = EIO; return -1; }
  return n;
}
void seam_init() {
  std::cout.flush();
  std::cout.rdbuf(&g_out);
  std::cerr.rdbuf(&g_err);
  std::clog.rdbuf(&g_err);
  g_memfd = memfd_create("out", 0);
  if (g_memfd >= 0) dup2(g_memfd, 1);
  fflush(stdout);
  stdout = std_stream(1);
  stderr = std_stream(2);
}
Names deepcopy(const Names& a) {
  Glue g;
  Names r;
  std::map<Inode*, std::shared_ptr<Inode>> m;
  for (auto& e : a) {
    auto& x = m[e.second.get()];
    if (!x) { x = std::make_shared<Inode>(); x->data = e.second->data; }
    r[e.first] = x;
  }
  return r;
}
void seam_reset(uint64_t salt) {
  S.procs.clear();
  S.salt = salt;
  S.rngmode = 0;
  S.disk.clear();
  S.dirs = {"/", "/sim", "/sim/cwd", "/sim/d", "/sim/d/sub"};
  S.faults = nullptr;
  S.diskLeft = -1;
  S.crashed = false;
  S.crashDisk.clear();
  S.curProc = 0;
  S.logHash = salt;
  S.outBytes = S.errBytes = 0;
  g_fds.clear();
  g_nextfd = FD0;
  S.openFds = 0;
  std::cout.clear();
  std::cerr.clear();
}
void seam_step(std::vector<Fault>* f, int p, long budget) {
  S.faults = f && f->size() ? f : nullptr;
  S.nAlloc = S.nOpen = S.nWrite = S.nClose = S.nRead = S.nRename = S.nUnlink = S.nOut = S.nIo = S.nRand = S.nTime = 0;
  S.diskLeft = -1;
  S.crashed = false;
  S.curProc = p;
  S.events += S.stepEvents;
  S.stepEvents = 0;
  S.budget = budget;
  if (S.faults)
    for (auto& x : *S.faults) if (x.kind == "full") S.diskLeft = x.n;
}
std::string disk_get(const std::string& p, bool* ok) {
  auto it = S.disk.find(p);
  if (it == S.disk.end()) { if (ok) *ok = false; return ""; }
  if (ok) *ok = true;
  return std::string(it->second->data.begin(), it->second->data.end());
}
void disk_put(const std::string& p, const std::string& d) {
  auto n = std::make_shared<Inode>();
  n->data.assign(d.begin(), d.end());
  S.disk[p] = n;
}

std::string disk_norm(const std::string& p) { return norm(p.c_str()); }

// The seam: every source of nondeterminism and every fallible service the library uses (clock,
// random generator, heap, files, standard output, and which caller thread runs) as seen from the
// simulator.  The executable defines the C library entry points themselves; inside a library call
// they act on the simulated world below, outside they fall through to the real ones.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Fault {
  std::string kind;  // alloc | oerr | wshort | weintr | werr | full | cerr | rerr | reintr | rshort | nerr | uerr | crash | outerr
  long n = 0;        // index of the event (within its class, within the step) it hits
  long arg = 0;      // errno, byte count...
  bool sticky = false;
  long fired = 0;
};

struct Inode { std::vector<char> data; };
typedef std::map<std::string, std::shared_ptr<Inode>> Names;

struct Proc {  // a simulated process: its own random generator and clock
  uint64_t rng = 1;
  int64_t clock = 1700000000;
};

struct Sim {
  // per run
  std::map<int, Proc> procs;
  uint64_t salt = 0;
  int rngmode = 0;  // 0 plain, 1 with extreme values mixed in
  Names disk;
  std::set<std::string> dirs;
  // per step
  std::vector<Fault>* faults = nullptr;
  long nAlloc = 0, nOpen = 0, nWrite = 0, nClose = 0, nRead = 0, nRename = 0, nUnlink = 0, nOut = 0, nIo = 0, nRand = 0, nTime = 0;
  long diskLeft = -1;  // bytes left on the device, -1 unlimited
  bool crashed = false;
  Names crashDisk;
  std::function<void()> onCrash;  // tells the executor the instant
  bool ioOnly = false;  // simulated threads are switched at file-system calls only
  int curProc = 0;
  long stepEvents = 0, budget = 0;
  // totals for evidence
  uint64_t events = 0;
  std::map<std::string, uint64_t> fired, seen;
  uint64_t logHash = 0;
  // memory
  long liveBlocks = 0, liveBytes = 0;
  int openFds = 0;
  // stdout
  uint64_t outBytes = 0, errBytes = 0;
  std::string diskError;
};
extern Sim S;
extern thread_local int tl_inlib;
extern long g_memlimit;

struct Lib {  // marks a library call
  int s;
  Lib() : s(tl_inlib) { tl_inlib = 1; }
  ~Lib() { tl_inlib = s; }
};

void seam_init();
void seam_reset(uint64_t salt);             // start of a run
void seam_step(std::vector<Fault>* f, int proc, long budget);  // start of a step
void seam_logmix(uint64_t v);
Names deepcopy(const Names&);
void die_hang(const char* why);             // exits the process with code 97
std::string disk_get(const std::string& p, bool* ok);
void disk_put(const std::string& p, const std::string& d);

// Cooperative threads: exactly one runs, the scheduler decides at numbered events who is next.
struct Preempt { uint64_t at; int to; };
struct SchedResult { uint64_t events; uint64_t switches; bool deadlock; };
SchedResult run_tasks(std::vector<std::function<void()>>& tasks, const std::vector<Preempt>& pre, int first);
void set_task_proc(int p);  // the process the running simulated thread belongs to
bool in_task();
int cur_task();     // the running simulated thread, -1 outside
void yield_here();
// race.cc: happens-before over the accesses of simulated threads
void race_start(int tasks);
void race_stop();
void race_acquire(const void* o);
void race_release(const void* o);
void race_forget(const void* p, size_t n);
void race_freed(const void* p, size_t n);
bool race_found(std::string& what);  // the first pair of conflicting unordered accesses

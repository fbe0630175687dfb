// simd batch PROP START STRIDE MAXRUNS SECONDS LIBDIR STATEFILE   many seeds in one process
// simd gen PROP SEED                                              print the plan of a seed
// simd run FILE LIBDIR                                            execute one plan, or several in one process
// simd serve LIBDIR                                               execute plans given line by line, each in a child process
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include "exec.h"

static volatile long* g_state;  // [0] seed, [1] step
static long now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void on_cpu(int) { die_hang("a call does not return"); }
static void arm(int s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }
void set_cur_step(int s) { if (g_state) g_state[1] = s; arm(10); }
static int g_out = 1;
static void say(const std::string& s) {
  std::string l = s + "\n";
  size_t o = 0;
  while (o < l.size()) { ssize_t n = write(g_out, l.data() + o, l.size() - o); if (n <= 0) break; o += n; }
}
static J resJ(const Res& r) {
  J j = J::obj();
  j["viol"] = J(r.viol);
  j["abandoned"] = J(r.abandoned);
  j["kind"] = J(r.kind);
  j["msg"] = J(r.msg);
  j["step"] = J(r.step);
  char b[32];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)r.hash);
  j["hash"] = J(std::string(b));
  j["calls"] = J(r.calls);
  return j;
}
int main(int argc, char** argv) {
  if (argc < 3) return 96;
  if (!getenv("SIM_NOASLR_DONE") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    setenv("SIM_NOASLR_DONE", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string mode = argv[1];
  if (mode == "gen") { say(gen_plan(argv[2], strtoull(argv[3], nullptr, 10)).dump()); return 0; }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  g_memlimit = 192L << 20;
#if defined(__SANITIZE_ADDRESS__)
  g_memlimit = 128L << 20;
#else
  rl.rlim_cur = rl.rlim_max = 6L << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  signal(SIGPROF, on_cpu);
  signal(SIGPIPE, SIG_IGN);
  g_out = dup(1);
  auto load = [&](const char* dir, bool py) {
    g_libdir = dir;
    seam_init();
    for (int i = 0; i < 3; i++) if (i < 2 || py) engine(i);
  };
#if defined(__SANITIZE_ADDRESS__)
  bool py = false;
#else
  bool py = access((std::string(argv[mode == "batch" ? 7 : mode == "run" ? 3 : 2]) + "/libpy.so").c_str(), R_OK) == 0;
#endif
  // one plan, or {"plans": [...]}, or {"batch": [start, stride, count], "prop": ...}: the last one's result counts
  auto execute = [&](const std::string& text) {
    J j;
    try { j = J::parse(text); } catch (std::exception& e) { fprintf(stderr, "SIMERROR bad plan: %s\n", e.what()); _exit(96); }
    Res r;
    if (j.has("batch")) {
      uint64_t a = (uint64_t)j.at("batch").a[0].i, d = (uint64_t)j.at("batch").a[1].i;
      for (long i = 0, n = j.at("batch").a[2].i; i < n; i++) { arm(10); r = run_plan(gen_plan(j.str("prop"), a + i * d)); if (r.viol && i + 1 < n) break; }
    } else if (j.has("plans")) { for (auto& p : j.at("plans").a) { arm(10); r = run_plan(p); if (r.viol) break; } }
    else { arm(10); r = run_plan(j.has("plan") ? j.at("plan") : j); }
    arm(0);
    return r;
  };
  if (mode == "run") {
    std::ifstream f(argv[2]);
    std::stringstream b;
    b << f.rdbuf();
    load(argv[3], py);
    Res r = execute(b.str());
    say(resJ(r).dump());
    _exit(r.viol ? 1 : 0);
  }
  if (mode == "serve") {
    load(argv[2], py);
    std::string line;
    while (std::getline(std::cin, line)) {
      pid_t pid = fork();
      if (pid == 0) { Res r = execute(line); say(resJ(r).dump()); _exit(r.viol ? 1 : 0); }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      say("DONE " + std::to_string(WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)));
    }
    _exit(0);
  }
  if (mode == "batch") {
    std::string prop = argv[2];
    uint64_t start = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10);
    long maxruns = atol(argv[5]);
    double secs = atof(argv[6]);
    int fd = open(argv[8], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return 96;
    g_state = (volatile long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    bool dump = argc > 9 && !strcmp(argv[9], "hashes");
    load(argv[7], py);
    // SIM_FRESH=k: every k runs share a process that has executed nothing before
    long fresh = getenv("SIM_FRESH") ? atol(getenv("SIM_FRESH")) : 0, T0 = now_ms(), offset = 0;
    if (fresh > 0) {
      for (;; offset += fresh) {
        if (now_ms() - T0 > secs * 1000 || (maxruns >= 0 && offset >= maxruns)) _exit(0);
        pid_t pid = fork();
        if (pid == 0) break;
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(96); }
        if (WEXITSTATUS(st) == 3) _exit(0);
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
      }
      maxruns = fresh;
      start += (uint64_t)offset * stride;
    }
    bool ended = false;
    long t0 = now_ms(), runs = 0, calls = 0, checks = 0, faulted = 0, abandoned = 0, busy = 0;
    std::unordered_set<uint64_t> hashes, scheds;
    std::map<std::string, long> probes, why;
    long maxms = 0;
    uint64_t maxseed = 0;
    double simtime = 0;
    for (uint64_t i = 0; maxruns < 0 || (long)i < maxruns; i++) {
      if (now_ms() - T0 > secs * 1000) break;
      uint64_t seed = start + i * stride;
      g_state[0] = (long)seed;
      g_state[1] = -1;
      g_state[2] = (long)i;
      arm(10);
      J plan = gen_plan(prop, seed);
      long c0 = plan.at("procs").a.size() ? plan.at("procs").a[0].a[1].i : 0;
      long a = now_ms();
      Res r = run_plan(plan);
      long d = now_ms() - a;
      if (d > maxms) { maxms = d; maxseed = seed; }
      runs++;
      calls += r.calls;
      checks += r.checks;
      if (r.faultsFired) faulted++;
      if (r.checks || plan.flag("nm")) busy++;
      if ((r.checks || plan.flag("nm")) && hashes.size() < 500000) hashes.insert(r.hash);
      if (r.sched) scheds.insert(r.sched);
      for (auto& e : r.probes) probes[e.first] += e.second;
      for (auto& e : S.procs) { double dt = (double)e.second.clock - (double)c0; if (dt > 0 && dt < 1e9) simtime += dt; }
      if (r.abandoned) { abandoned++; why[r.msg.substr(0, 90)]++; }
      if (dump) { J j = J::obj(); j["seed"] = J((long)seed); j["r"] = resJ(r); say("HASH " + j.dump()); }
      if (r.viol) {
        J j = resJ(r);
        j["seed"] = J((long)seed);
        say("VIOL " + j.dump());
        ended = true;
        break;
      }
    }
    arm(0);
    J j = J::obj();
    j["runs"] = J(runs); j["calls"] = J(calls); j["checks"] = J(checks); j["faulted"] = J(faulted); j["abandoned"] = J(abandoned);
    j["judged"] = J(busy);
    j["events"] = J((long)S.events);
    j["ms"] = J(now_ms() - t0);
    j["maxms"] = J(maxms); j["maxseed"] = J((long)maxseed);
    j["simtime"] = J(simtime);
    auto mp = [](const std::map<std::string, uint64_t>& m) { J o = J::obj(); for (auto& e : m) o[e.first] = J((long)e.second); return o; };
    j["fired"] = mp(S.fired);
    j["seen"] = mp(S.seen);
    J o = J::obj(), w = J::obj();
    for (auto& e : probes) o[e.first] = J(e.second);
    for (auto& e : why) w[enc(e.first)] = J(e.second);
    j["probes"] = o;
    j["why"] = w;
    j["distinct"] = J((long)hashes.size());
    auto put = [&](const char* ext, const std::unordered_set<uint64_t>& v) {
      std::string f = std::string(argv[8]) + ext;
      int o = open(f.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
      std::vector<uint64_t> a(v.begin(), v.end());
      const char* p = (const char*)a.data();
      size_t n = a.size() * 8;
      while (n) { ssize_t k = write(o, p, n); if (k <= 0) break; p += k; n -= k; }
      close(o);
    };
    put(".h", hashes);
    put(".s", scheds);
    say("STATS " + j.dump());
    _exit(fresh > 0 && ended ? 3 : 0);
  }
  return 96;
}

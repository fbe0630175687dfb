// Executes a plan: every call goes to the real library under the seam, every answer is compared
// with the reference models.
#include "exec.h"
#include <limits.h>
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>

std::string g_libdir;
std::string disk_norm(const std::string&);

Engine* engine(int i) {
  static Engine* e[3];
  static const char* nm[3] = {"src", "hdr", "py"};
  if (!e[i]) {
    std::string p = g_libdir + "/lib" + nm[i] + ".so";
    void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "SIMERROR cannot load %s: %s\n", p.c_str(), dlerror()); _exit(96); }
    e[i] = ((Engine * (*)()) dlsym(h, "sim_engine"))();
  }
  return e[i];
}
std::string enc(const std::string& raw) {
  std::string r;
  for (unsigned char c : raw)
    if (c > 32 && c < 127 && c != '%' && c != '"' && c != '\\') r += c;
    else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); r += b; }
  return r;
}
std::string dec(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  return r;
}
J imgJ(const VI& x) {
  for (int v : x) if (v < 0 || v > 9) return J(x);
  std::string s;
  for (int v : x) s += (char)('0' + v);
  return J(s);
}
VI imgV(const J& j) {
  VI r;
  if (j.t == J::STR) for (char c : j.s) r.push_back(c - '0');
  else for (auto& e : j.a) r.push_back((int)e.i);
  return r;
}
static VVI imgsV(const J& j) { VVI r; for (auto& e : j.a) r.push_back(imgV(e)); return r; }
static VS strsV(const J& j) { VS r; for (auto& e : j.a) r.push_back(dec(e.s)); return r; }

namespace {
struct H {
  std::unique_ptr<Obj> o;
  int eng = 0, proc = 0;
  Model m;
};
struct Slot {
  std::string text;
  char t = 0;
  Model m;
  bool huge = false, damaged = false;
};
struct Cand { bool absent = false; std::vector<Model::Row> rows; std::vector<Cells> rams; long from = -1, to = -1; };  // stored between two instants (concurrent saves)
struct FileRec { std::vector<Cand> c, begun; bool damaged = false; };
struct Out {
  bool ok = false, unsup = false, bad = false, hard = false, crashed = false;
  std::string what;
};
struct Stop {};
bool hardKind(const std::string& k) {
  return k == "alloc" || k == "oerr" || k == "oerrw" || k == "werr" || k == "full" || k == "cerr" || k == "rerr" || k == "nerr" || k == "uerr";
}
std::string show(const VI& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? "," : "") + std::to_string(v[i]); return s + (v.size() > 40 ? ",...]" : "]"); }
std::string q(const std::string& s) { return "\"" + enc(s) + "\""; }

struct Run {
  const J& plan;
  Res res;
  std::map<int, H> objs;
  std::map<int, Slot> slots;
  std::map<std::string, FileRec> files;
  std::set<std::string> cats;  // which comparisons this property's check makes
  bool nm = false;             // no model: only returning matters
  bool anyVerbose = false;
  bool blind = false;
  int cur = -1;
  int inPar = 0;
  long instant = 0;
  long budget = 3000000;
  std::string prop;
  bool preparing = false;  // this step only sets the scene: a difference ends the run unjudged
  Reader rd = [](const std::string& p, std::string& out) { bool ok = false; out = disk_get(disk_norm(p), &ok); return ok; };

  explicit Run(const J& p) : plan(p) {
    prop = p.str("prop");
    nm = p.flag("nm");
    blind = p.flag("blind");
    for (auto& c : p.at("cats").a) cats.insert(c.s);
    budget = std::min(500000000L, budget + 300 * bulk(p));
  }
  static long bulk(const J& j) {  // the size of what a plan gives to the library
    long n = 1 + (long)j.s.size();
    for (auto& x : j.a) n += bulk(x);
    for (auto& x : j.o) n += bulk(x.second);
    if (j.has("rep")) n *= std::max((int64_t)1, j.num("rep"));
    return n;
  }
  bool on(const char* c) const { return cats.count(c) > 0; }
  void probe(const std::string& n) { res.probes[n]++; }
  void viol(const std::string& kind, const std::string& msg) {
    if (preparing) abandon("while preparing: " + kind + ": " + msg);
    if (!res.viol && !res.abandoned) { res.viol = true; res.kind = kind; res.msg = msg; res.step = cur; }
    throw Stop();
  }
  void abandon(const std::string& why) { if (!res.viol) { res.abandoned = true; res.msg = why; res.kind = "abandoned"; } throw Stop(); }
  // a difference in something this property speaks about is a violation, otherwise the run ends unjudged
  void differ(const char* cat, const std::string& kind, const std::string& msg) { if (on(cat)) viol(kind, msg); abandon(kind + ": " + msg); }

  // ------------------------------------------------------------ calling the library
  std::vector<Fault> faults;
  bool python(const J& st) {
    if (st.has("e")) return st.num("e") == 2;
    H* h = get(st, st.has("o") && objs.count((int)st.num("o")) ? "o" : "from");
    return h && h->eng == 2;
  }
  Out call(int proc, const J* st, const std::function<void()>& f) {
    Out r;
    res.calls++;
    if (!inPar) {
      faults.clear();
      if (st) for (auto& e : st->at("f").a) {
        Fault x;
        x.kind = e.str("k"); x.n = e.num("n");
        x.arg = e.num("a"); x.sticky = e.flag("s");
        if (x.kind == "alloc" && python(*st)) continue;  // only library code meets failing allocations, not the interpreter
        faults.push_back(x);
      }
      seam_step(&faults, proc, budget);
    } else set_task_proc(proc);
    uint64_t out0 = S.outBytes, err0 = S.errBytes;
    bool talks = anyVerbose;
    if (st && !inPar) {
      talks = st->at("opts").flag("verbose");
      for (const char* k : {"o", "from", "a", "b"}) { H* h = get(*st, k); if (h && h->m.cf.verbose) talks = true; }
    }
    {
      Lib l;
      int depth = tl_inlib;
      try { f(); r.ok = true; }
      catch (Unsupported&) { tl_inlib = 0; r.unsup = true; }
      catch (std::bad_alloc& e) { tl_inlib = 0; r.bad = true; r.what = "out of memory"; }
      catch (std::exception& e) { tl_inlib = 0; r.what = e.what(); }
      catch (...) { tl_inlib = 0; r.what = "unknown exception"; }
      (void)depth;
    }
    if (!inPar) {
      for (auto& x : faults) if (x.fired) { res.faultsFired++; if (x.kind == "alloc") S.fired["alloc"]++; if (hardKind(x.kind)) r.hard = true; }
      r.crashed = S.crashed;
      S.faults = nullptr;
      S.diskLeft = -1;
      seam_logmix(r.ok ? 1 : r.unsup ? 2 : 3);
      if (on("fd") && S.openFds != 0) viol("file left open", std::to_string(S.openFds) + " file(s) open after the call returned");
      if (on("out") && !talks && S.outBytes != out0) viol("output without verbose", "the library printed although verbose is off");
      if (on("out") && S.errBytes != err0) viol("output to standard error", "the library wrote to standard error");
    }
    return r;
  }
  // after a crash: the process is gone, the disk is what it was at that instant
  bool crashNow(const Out& r, int proc) {
    if (!r.crashed) return false;
    Names d;
    d.swap(S.crashDisk);
    dropProc(proc);
    S.disk.swap(d);
    S.crashed = false;
    probe("crash inside a call");
    return true;
  }
  void dropProc(int proc) {
    for (auto it = objs.begin(); it != objs.end();)
      if (it->second.proc == proc) it = objs.erase(it);
      else ++it;
  }
  void destroy(H& h) {
    if (!h.o) return;
    Obj* p = h.o.release();
    Out r = call(h.proc, nullptr, [&]() { delete p; });
  }
  H* get(const J& s, const char* k = "o", char t = 0) {
    auto it = objs.find((int)s.num(k, -1));
    if (it == objs.end()) return nullptr;
    if (t && it->second.m.t != t) return nullptr;
    return &it->second;
  }
  H& put(const J& s, Obj* o, int eng, int proc, char t) {
    int id = (int)s.num("o");
    auto it = objs.find(id);
    if (it != objs.end()) destroy(it->second);
    H& h = objs[id];
    h.o.reset(o);
    h.eng = eng; h.proc = proc;
    h.m = Model();
    h.m.t = t;
    return h;
  }
  static VVI vvi(const J& j) { return imgsV(j); }
  Opts opts(const J& o) {
    Opts r;
    for (auto& e : o.o) {
      if (e.first == "indexes") r.indexes = imgV(e.second);
      else if (e.first == "mapping") r.mapping = vvi(e.second);
      else if (e.first == "mappings") { for (auto& m : e.second.o) r.mappings[dec(m.first)] = vvi(m.second); }
      else if (e.second.t == J::BOOL) r.b(e.first, e.second.i);
      else if (e.second.isint) r.i(e.first, (int)e.second.i);
      else r.f(e.first, e.second.d);
    }
    return r;
  }
  Conf conf(const J& s) {
    Conf c;
    const J& o = s.at("opts");
    c.addr = (int)s.num("addr");
    c.base = (int)o.num("base", 2);
    c.conf = (int)o.num("confidence", 1);
    c.bleach = o.flag("bleachingActivated", true);
    c.verbose = o.flag("verbose");
    c.iz = o.flag("ignoreZero");
    c.complete = o.flag("completeAddressing", true);
    c.retConf = o.flag("returnConfidence");
    c.retAct = o.flag("returnActivationDegree");
    c.retDeg = o.flag("returnClassesDegrees");
    c.indexes = imgV(o.at("indexes"));
    for (auto& m : o.at("mappings").o) c.mapping[dec(m.first)] = vvi(m.second);
    c.minScore = (float)s.dbl("ms");
    c.thr = (int)s.num("thr", 1);
    c.lim = (int)s.num("lim", 1);
    if (c.verbose) anyVerbose = true;
    return c;
  }
  static bool fits(int base, size_t len) {  // base^len <= 2^64
    if (base == 2) return len <= 64;
    unsigned __int128 p = 1, lim = (unsigned __int128)1 << 64;
    for (size_t i = 0; i < len; i++) { p *= base; if (p > lim) return false; }
    return true;
  }
  // clearly inside the documented domain
  bool creatable(int entry, int addr, int base, const VVI& mapping, const VI& indexes) {
    if (base < 2 || entry < 2) return false;
    if (mapping.size()) {
      for (auto& r : mapping) { if (r.empty() || !fits(base, r.size())) return false; for (int p : r) if (p < 0 || p >= entry) return false; }
      return true;
    }
    if (addr < 2 || entry < addr || !fits(base, addr)) return false;
    if (base != 2) { unsigned __int128 p = 1; for (int i = 0; i < addr; i++) { p *= base; if (p >> 63) return false; } }  // at the limit itself either answer is right
    if (indexes.size()) {
      if ((int)indexes.size() != entry) return false;
      std::set<int> s(indexes.begin(), indexes.end());
      if ((int)s.size() != entry || *s.begin() != 0 || *s.rbegin() != entry - 1) return false;
    }
    return true;
  }
  // the mapping the options dictate, empty if it is chosen at random
  static VVI dictated(int addr, int entry, const VVI& mapping, const VI& indexes) {
    if (mapping.size()) return mapping;
    VVI r;
    if (indexes.size()) for (int i = 0; i < entry / addr; i++) r.push_back(VI(indexes.begin() + i * addr, indexes.begin() + (i + 1) * addr));
    return r;
  }
  void checkMapping(const VVI& m, int addr, int entry, bool complete, const VVI& given, const std::string& where) {
    if (!on("map")) return;
    res.checks++;
    if (given.size()) { if (m != given) viol("given mapping not used", where + ": the mapping is not the one given"); return; }
    int rem = entry % addr, n = entry / addr + (complete && rem ? 1 : 0);
    if ((int)m.size() != n) viol("mapping size", where + ": " + std::to_string(m.size()) + " RAMs, expected " + std::to_string(n));
    std::map<int, int> seen;
    for (auto& r : m) {
      if ((int)r.size() != addr) viol("mapping size", where + ": a RAM has " + std::to_string(r.size()) + " positions, expected " + std::to_string(addr));
      for (int p : r) { if (p < 0 || p >= entry) viol("mapping out of range", where + ": position " + std::to_string(p) + " of an entry of " + std::to_string(entry)); seen[p]++; }
    }
    int rep = 0;
    for (auto& e : seen) rep += e.second - 1;
    if (complete) {
      if ((int)seen.size() != entry) viol("mapping incomplete", where + ": only " + std::to_string(seen.size()) + " of " + std::to_string(entry) + " positions are mapped");
    } else if (rep) viol("mapping repeats", where + ": a position is mapped twice without completeAddressing");
    if (rem && complete) probe("mapping padded");
  }

  State observe(H& h) {
    std::string text;
    Out r = call(h.proc, nullptr, [&]() { text = h.o->json(0, ""); });
    if (!r.ok) { State s; s.err = "json() failed: " + r.what; std::string().swap(text); return s; }
    State s = readState(text, h.m.t, rd);
    return s;
  }
  // ------------------------------------------------------------ training in the model
  // returns "" or why the observed state cannot result from this
  std::string makeMD(MD& d, const Conf& cf, int entry, const State::SD* o, const std::string& where) {
    d = MD();
    d.entry = entry; d.base = cf.base; d.iz = cf.iz;
    if (!o) return where + " is missing";
    if (o->entry != entry) return where + " has entry size " + std::to_string(o->entry);
    d.setMap(o->map);
    return "";
  }
  std::string trainW(Model& m, const VI& x, const std::string& l, const State& ob) {
    auto it = m.cls.find(l);
    if (it == m.cls.end()) {
      auto o = ob.cls.find(l);
      MD d;
      std::string w = makeMD(d, m.cf, x.size(), o == ob.cls.end() ? nullptr : &o->second, "class " + q(l));
      if (w.size()) return w;
      it = m.cls.insert(std::make_pair(l, d)).first;
    }
    if (!it->second.valid(x)) return "reference: invalid";
    it->second.train(x);
    return "";
  }
  std::string trainCl(Model& m, MCl& c, const VI& x, const State::SC* oc, const std::string& where) {
    auto fresh = [&](size_t j) -> std::string {
      MD d;
      std::string w = makeMD(d, m.cf, c.entry, oc && j < oc->ds.size() ? &oc->ds[j] : nullptr, where + " discriminator " + std::to_string(j));
      if (w.size()) return w;
      if (!d.valid(x)) return "reference: invalid";
      d.train(x);
      c.ds.push_back(d);
      return "";
    };
    if (c.ds.empty()) { if ((int)x.size() != c.entry) return "reference: invalid"; return fresh(0); }
    for (auto& d : c.ds) if (!d.valid(x)) return "reference: invalid";
    float best = 0;
    size_t bi = c.ds.size();
    bool trained = false;
    size_t n = c.ds.size();
    for (size_t j = 0; j < n; j++) {
      float sc = score(c.ds[j].votes(x));
      if (sc >= best) { best = sc; bi = j; }
      float cnt = c.ds[j].count;
      float lim = m.cf.minScore + cnt / (unsigned)m.cf.thr;
      if (lim > 1.0) lim = 1.0;
      if (sc >= lim) { c.ds[j].train(x); trained = true; probe("cluster sample accepted by score"); }
    }
    if (!trained && (int)n < m.cf.lim) { probe("cluster grew"); return fresh(n); }
    if (!trained && bi < n) { probe("cluster full, best one trained"); c.ds[bi].train(x); }
    return "";
  }
  std::string trainC(Model& m, const VI& x, const std::string& l, const State& ob) {
    auto o = ob.clu.find(l);
    bool nw = !m.clu.count(l);
    MCl& c = m.clu[l];
    if (nw) c.entry = x.size();
    std::string w = trainCl(m, c, x, o == ob.clu.end() ? nullptr : &o->second, "cluster " + q(l));
    if (w.size() && nw) m.clu.erase(l);
    return w;
  }
  enum Valid { OK, BAD, MAYBE };
  Valid validW(const Model& m, const VI& x, const std::string& l) {
    auto it = m.cls.find(l);
    if (it != m.cls.end()) return it->second.valid(x) ? OK : BAD;
    auto mp = m.cf.mapping.find(l);
    if (!creatable(x.size(), m.cf.addr, m.cf.base, mp == m.cf.mapping.end() ? VVI() : mp->second, m.cf.indexes)) return MAYBE;
    // the new class' mapping is unknown: only values at positions every mapping addresses count
    bool big = false;
    for (int v : x) if (v < 0 || v >= m.cf.base) big = true;
    if (!big) return OK;
    return m.cf.complete && m.cf.indexes.empty() && mp == m.cf.mapping.end() ? BAD : MAYBE;
  }
  Valid validCl(const Model& m, const MCl& c, const VI& x) {
    if (c.ds.empty()) {
      if (c.entry && (int)x.size() != c.entry) return BAD;
      if (!creatable(x.size(), m.cf.addr, m.cf.base, VVI(), VI())) return MAYBE;
      bool big = false;
      for (int v : x) if (v < 0 || v >= m.cf.base) big = true;
      return !big ? OK : m.cf.complete ? BAD : MAYBE;
    }
    if ((int)x.size() != c.entry) return BAD;
    for (auto& d : c.ds) if (!d.valid(x)) return BAD;
    for (int v : x) if (v < 0 || v >= m.cf.base) return MAYBE;
    return OK;
  }
  // The outcome of a call that trains n samples one after the other.  `one(model, i, observed)`
  // advances the model by sample i; `valid(model, i)` says whether sample i must be accepted.
  void batch(H& h, const J& s, const Out& r, size_t n, bool reject, bool learn,
             const std::function<std::string(Model&, size_t, const State&)>& one,
             const std::function<Valid(const Model&, size_t)>& valid, bool pureUpfront = false) {
    bool zk = zerosKnown;
    zerosKnown = false;
    if (r.unsup) return;
    if (crashNow(r, h.proc)) return;
    if (blind && r.ok && !reject) {  // nothing looks at the object between the calls of the plan, unless it has to
      Model m = h.m;
      State none;
      bool fine = true;
      for (size_t i = 0; i < n && fine; i++) fine = valid(m, i) == OK && one(m, i, none).empty();
      if (fine) { h.m = m; probe("trained unobserved"); return; }
    }
    bool needObs = learn || !r.ok || on("state");
    State ob;
    if (needObs) {
      ob = observe(h);
      if (!ob.ok) differ(r.ok ? "state" : "fail", "state unreadable", (r.ok ? "after training: " : "after a failed call: ") + ob.err);
    }
    res.checks++;
    if (r.ok) {
      if (reject) differ("reject", "invalid call accepted", "a call that must be rejected was accepted");
      Model m = h.m;
      for (size_t i = 0; i < n; i++) {
        Valid v = valid(m, i);
        if (v == BAD) differ("reject", "invalid sample accepted", "sample " + std::to_string(i) + " must be rejected but the call returned normally");
        std::string w = one(m, i, ob);
        if (w == "reference: invalid") { if (v == MAYBE) abandon("sample outside the domain"); differ("reject", "invalid sample accepted", "sample " + std::to_string(i) + " is invalid for the mapping but was accepted"); }
        if (w.size()) differ("state", "trained state differs", w);
      }
      h.m = m;
      if (on("state")) { std::string w = cmpState(ob, h.m); if (w.size()) viol("trained state differs", w); }
      if (on("map")) mapsOf(h, ob);
      return;
    }
    // failed
    if (zk) {
      std::set<std::string> z;
      zerosOf(ob, z);
      for (auto& e : z) if (!zerosBefore.count(e)) differ("fail", "failed call left a trace", "after a failed call (" + r.what + ") an address with a count of 0 has appeared: " + e);
      probe("addresses compared after a failed training");
    }
    size_t first = n;
    bool maybe = false;
    if (reject) first = 0;
    std::vector<Model> ms(1, h.m);
    for (size_t i = 0; i < first; i++) {
      Model m = ms.back();
      Valid v = valid(m, i);
      if (v == BAD) { first = i; probe("invalid sample rejected"); break; }
      if (v == MAYBE) maybe = true;
      std::string w = one(m, i, ob);
      if (w.size()) { if (v == OK) { maybe = maybe || r.hard; if (!r.hard && !maybe) { if (first == n) { /* fell short without reason */ } } } break; }
      ms.push_back(m);
    }
    if (!reject && first == n && !r.hard && !maybe) viol("valid call rejected", "a valid call raised: " + r.what);
    if (r.hard) probe("training call failed by a fault");
    std::string w0;
    for (size_t k = ms.size(); k-- > 0;) {
      std::string w = cmpState(ob, ms[k]);
      if (w.empty()) { h.m = ms[k]; probe(k ? "failed call kept a prefix" : "failed call changed nothing"); return; }
      if (w0.empty()) w0 = w;
    }
    (void)pureUpfront;
    differ("fail", "failed call left a trace", "after a failed call (" + r.what + ") the model is in no state its completed samples explain; against the longest prefix: " + w0);
  }
  void mapsOf(H& h, const State& ob) {
    if (h.m.t == 'W') for (auto& e : ob.cls) {
      auto known = h.m.cls.find(e.first);
      if (known != h.m.cls.end() && known->second.given) continue;
      auto mp = h.m.cf.mapping.find(e.first);
      checkMapping(e.second.map, h.m.cf.addr, e.second.entry, h.m.cf.complete, dictated(h.m.cf.addr, e.second.entry, mp == h.m.cf.mapping.end() ? VVI() : mp->second, h.m.cf.indexes), "class " + q(e.first));
    }
    if (h.m.t == 'C') for (auto& e : ob.clu) for (size_t j = 0; j < e.second.ds.size(); j++) {
      auto k = h.m.clu.find(e.first);
      if (k != h.m.clu.end() && j < k->second.ds.size() && k->second.ds[j].given) continue;
      checkMapping(e.second.ds[j].map, h.m.cf.addr, e.second.ds[j].entry, h.m.cf.complete, VVI(), "cluster " + q(e.first));
    }
    if (h.m.t == 'C') for (size_t j = 0; j < ob.uns.ds.size(); j++) {
      if (j < h.m.uns.ds.size() && h.m.uns.ds[j].given) continue;
      checkMapping(ob.uns.ds[j].map, h.m.cf.addr, ob.uns.ds[j].entry, h.m.cf.complete, VVI(), "unsupervised cluster");
    }
  }
  // the mappings an object had are the ones it has
  void mapsKept(H& h, const State& ob) {
    auto same = [&](const VVI& a, const VVI& b, const std::string& where) { if (a != b) viol("mapping changed", where); };
    if (h.m.t == 'D') same(ob.d.map, h.m.d.map, "discriminator");
    for (auto& e : h.m.cls) { auto it = ob.cls.find(e.first); if (it != ob.cls.end()) same(it->second.map, e.second.map, "class " + q(e.first)); }
    for (auto& e : h.m.clu) { auto it = ob.clu.find(e.first); if (it != ob.clu.end()) for (size_t j = 0; j < e.second.ds.size() && j < it->second.ds.size(); j++) same(it->second.ds[j].map, e.second.ds[j].map, "cluster " + q(e.first)); }
    for (size_t j = 0; j < h.m.uns.ds.size() && j < ob.uns.ds.size(); j++) same(ob.uns.ds[j].map, h.m.uns.ds[j].map, "unsupervised cluster");
  }
  // ------------------------------------------------------------ steps
  void mixVI(const VI& v) { for (int x : v) seam_logmix((uint64_t)(unsigned)x); }
  void mixS(const std::string& s) { uint64_t k = 1469598103934665603ULL; for (unsigned char c : s) k = (k ^ c) * 1099511628211ULL; seam_logmix(k); }
  Obj* mkBin(int eng, int proc, const VI& x) {
    Obj* b = nullptr;
    Out r = call(proc, nullptr, [&]() { b = engine(eng)->newBinV(x); });
    if (!r.ok) differ("any", "packed input", "cannot pack a valid input: " + r.what);
    return b;
  }
  void drop(Obj* o, int proc) { call(proc, nullptr, [&]() { delete o; }); }

  // ------------------------------------------------------------ looking changes nothing
  struct Snap { bool ok = false; State st; long size = -1; std::vector<Model::Row> rows; std::vector<Cells> rams; std::string err; };
  Snap snap(H& h) {
    Snap n;
    char t = h.m.t;
    if (t == 'D' || t == 'W' || t == 'C') {
      n.st = observe(h);
      n.ok = n.st.ok;
      n.err = n.st.err;
      call(h.proc, nullptr, [&]() { n.size = h.o->sizeofB(); });
    } else if (t == 'S') { n.err = rowsOf(h, n.rows); n.ok = n.err.empty(); }
    else if (t == 'H') {
      std::string d;
      Out r = call(h.proc, nullptr, [&]() { d = h.o->hData(); });
      n.ok = r.ok;
      n.err = r.what;
      if (r.ok) for (auto& part : split(d, '.')) { Cells c; if (!ramdec(part, c)) { n.ok = false; n.err = "exported text malformed"; } n.rams.push_back(c); }
    }
    return n;
  }
  static std::string sdDiff(const State::SD& a, const State::SD& b) {
    if (a.entry != b.entry) return "entry size";
    if (a.map != b.map) return "mapping";
    if (a.count != b.count) return "count";
    if (a.rams.size() != b.rams.size()) return "number of RAMs";
    for (size_t i = 0; i < a.rams.size(); i++) if (a.rams[i] != b.rams[i]) return "contents of RAM " + std::to_string(i);
    return "";
  }
  std::string snapDiff(const Snap& a, const Snap& b) {
    if (!b.ok) return b.err;
    if (a.rams != b.rams) return "RAM data";
    std::string w = rowsDiff(b.rows, a.rows);
    if (w.size()) return w;
    if (a.size != b.size) return "size is " + std::to_string(b.size) + " bytes, was " + std::to_string(a.size);
    if ((w = sdDiff(a.st.d, b.st.d)).size()) return w;
    if (a.st.cls.size() != b.st.cls.size() || a.st.clu.size() != b.st.clu.size() || a.st.uns.ds.size() != b.st.uns.ds.size()) return "the sets of classes";
    for (auto& e : a.st.cls) { auto it = b.st.cls.find(e.first); if (it == b.st.cls.end()) return "class " + q(e.first); if ((w = sdDiff(e.second, it->second)).size()) return w + " of class " + q(e.first); }
    auto cl = [&](const State::SC& x, const State::SC& y) -> std::string {
      if (x.entry != y.entry || x.ds.size() != y.ds.size()) return "discriminators";
      for (size_t j = 0; j < x.ds.size(); j++) { std::string v = sdDiff(x.ds[j], y.ds[j]); if (v.size()) return v + " of discriminator " + std::to_string(j); }
      return "";
    };
    for (auto& e : a.st.clu) { auto it = b.st.clu.find(e.first); if (it == b.st.clu.end()) return "cluster " + q(e.first); if ((w = cl(e.second, it->second)).size()) return w + " of cluster " + q(e.first); }
    if ((w = cl(a.st.uns, b.st.uns)).size()) return w + " of the unsupervised cluster";
    return cfgDiff(a.st.cfg, b.st.cfg);
  }
  static bool isQuery(const std::string& op) {
    return op == "votes" || op == "classify" || op == "classU" || op == "mental" || op == "cfg" || op == "size" || op == "nums" || op == "json" || op == "dsget" || op == "save" || op == "hget" || op == "hcheck" || op == "hcmp" || op == "hsave" || op == "hdata";
  }

  void step(const J& s) {
    std::string op = s.str("op");
    if (!inPar) preparing = s.flag("pre");
    if (!on("pure") || nm || inPar || preparing || !isQuery(op)) return step1(s, op);
    std::vector<int> ids;
    for (const char* k : {"o", "with", "from"}) if (s.has(k) && objs.count((int)s.num(k)) && (op == "hdata" ? k[0] == 'f' : k[0] != 'f')) ids.push_back((int)s.num(k));
    std::vector<Snap> a;
    for (int id : ids) a.push_back(snap(objs[id]));
    step1(s, op);
    for (size_t i = 0; i < ids.size(); i++) {
      if (!a[i].ok || !objs.count(ids[i])) continue;
      Snap b = snap(objs[ids[i]]);
      res.checks++;
      std::string w = snapDiff(a[i], b);
      if (w.size()) viol("query changed the object", op + " changed: " + w);
    }
  }
  void step1(const J& s, const std::string& op) {
    int p = (int)s.num("p");
    if (op == "newD") return newD(s, p);
    if (op == "newW" || op == "newC") return newM(s, p, op[3]);
    if (op == "clone") {
      H* h = get(s, "from");
      if (!h || get(s)) return;
      Obj* o = nullptr;
      Out r = call(h->proc, &s, [&]() { o = h->o->clone(); });
      if (r.ok) { Model m = h->m; int e = h->eng, pr = h->proc; H& n = put(s, o, e, pr, m.t); n.m = m; probe("object copied"); }
      else if (!r.unsup && !r.hard && !nm) viol("copy failed", r.what);
      return;
    }
    if (op == "del") { H* h = get(s); if (h) { destroy(*h); objs.erase((int)s.num("o")); } return; }
    zerosKnown = false;
    if (op == "trainD" || op == "untrain" || op == "trainB") return trainD(s, op);
    if (op == "trainND") return trainND(s);
    if (op == "votes") return votes(s);
    if (op == "train" || op == "trainS") return trainL(s, op == "trainS");
    if (op == "trainMap") return trainMap(s);
    if (op == "trainU") return trainU(s);
    if (op == "leave1" || op == "leaveN") return leave(s, op == "leaveN");
    if (op == "classify") return classify(s);
    if (op == "classU") return classU(s);
    if (op == "mental") return mental(s);
    if (op == "cfg" || op == "size" || op == "nums") return misc(s, op);
    if (op == "json") return json(s);
    if (op == "load") return load(s, p);
    if (op == "restart") { dropProc(p); probe("process restart"); return; }
    if (op == "tick") { S.procs[p].clock += s.num("dt"); if (s.has("set")) S.procs[p].clock = s.num("set"); probe("clock moved"); return; }
    if (op == "state") return state(s);
    if (op == "newS") return newS(s, p);
    if (op == "add") return add(s);
    if (op == "rows") { H* h = get(s, "o", 'S'); if (h && !nm) checkRows(*h, on("fail") ? "fail" : "any"); return; }
    if (op == "dsget") return dsget(s);
    if (op == "save") return save(s, 'S');
    if (op == "hsave") return save(s, 'H');
    if (op == "loadS") return loadFile(s, p, 'S');
    if (op == "hload") return loadFile(s, p, 'H');
    if (op == "newH") return newH(s, p);
    if (op == "hset" || op == "hget") return hset(s, op);
    if (op == "hcheck") { H* h = get(s, "o", 'H'); if (h && !nm) checkRams(*h); return; }
    if (op == "hdata") return hdata(s);
    if (op == "hcmp") return hcmp(s);
    if (op == "hToD") return hToD(s, p);
    if (op == "damage") return damage(s);
    if (op == "mkfile") { disk_put(disk_norm(dec(s.str("path"))), dec(s.str("c"))); FileRec& f = files[dec(s.str("path"))]; f.c.clear(); f.damaged = true; return; }
    if (op == "mkdir") { S.dirs.insert(disk_norm(dec(s.str("path")))); return; }
    if (op == "rmfile") { std::string f = dec(s.str("path")); if (S.disk.erase(disk_norm(f))) { files[f] = FileRec(); files[f].c.push_back(absent()); } return; }
    if (op == "rmdata") return rmdata(s);
    if (op == "newB" || op == "binops") return bin(s, p, op);
    if (op == "newK") return newK(s, p);
    if (op == "ktr") return ktr(s);
    if (op == "newY") return newY(s, p);
    if (op == "make") return make(s);
    if (op == "fixture") return fixture(s, p);
    if (op == "rawload") return rawload(s, p);
    if (op == "par") return par(s);
    fprintf(stderr, "SIMERROR unknown op %s\n", op.c_str());
    _exit(96);
  }
  static Cand absent() { Cand c; c.absent = true; return c; }

  void newD(const J& s, int p) {
    Conf c = conf(s);
    Opts o = opts(s.at("opts"));
    int addr = (int)s.num("addr"), entry = (int)s.num("entry"), e = (int)s.num("e");
    Obj* ob = nullptr;
    Out r = call(p, &s, [&]() { ob = engine(e)->newD(addr, entry, o); });
    if (!r.ok) {
      if (nm || r.unsup || r.hard) return;
      if (creatable(entry, addr, c.base, o.mapping, o.indexes)) viol("valid creation rejected", r.what);
      return;
    }
    H& h = put(s, ob, e, p, 'D');
    h.m.cf = c;
    if (nm) return;
    State st = observe(h);
    if (!st.ok) differ("state", "state unreadable", st.err);
    h.m.d.entry = entry; h.m.d.base = c.base; h.m.d.iz = c.iz;
    h.m.d.setMap(st.d.map);
    if (creatable(entry, addr, c.base, o.mapping, o.indexes)) {
      checkMapping(st.d.map, addr, entry, c.complete, dictated(addr, entry, o.mapping, o.indexes), "discriminator");
      if (st.d.entry != entry) differ("state", "entry size", "entry size " + std::to_string(st.d.entry));
    } else if (!fitsAll(st.d.map, c.base)) {
      differ("wide", "too wide address accepted", "a RAM of " + std::to_string(st.d.map.empty() ? 0 : st.d.map[0].size()) + " positions in base " + std::to_string(c.base) + " exceeds 2^64 addresses");
    }
    for (auto& rr : st.d.map) for (int q2 : rr) if (q2 < 0 || q2 >= entry) { if (on("map")) viol("mapping out of range", "position " + std::to_string(q2)); abandon("mapping out of range"); }
  }
  bool fitsAll(const VVI& m, int base) { for (auto& r : m) if (!fits(base, r.size())) return false; return true; }
  void newM(const J& s, int p, char t) {
    Conf c = conf(s);
    Opts o = opts(s.at("opts"));
    int e = (int)s.num("e");
    Obj* ob = nullptr;
    double ms = s.dbl("ms");
    Out r = call(p, &s, [&]() { ob = t == 'W' ? engine(e)->newW(c.addr, o) : engine(e)->newC(c.addr, ms, c.thr, c.lim, o); });
    if (!r.ok) { if (!nm && !r.unsup && !r.hard) viol("valid creation rejected", r.what); return; }
    H& h = put(s, ob, e, p, t);
    h.m.cf = c;
  }
  static int repOf(const J& s) { return s.has("rep") ? (int)std::max((int64_t)1, std::min((int64_t)70000, s.num("rep"))) : 1; }
  // the list of a call, as many times over as the plan says
  // (bounded by the work: inputs times discriminators times positions)
  size_t swell(const J& s, VVI& xs, H* h) {
    size_t n = xs.size(), rep = repOf(s), ds = nm ? n * n : 1;
    if (!nm) { for (auto& c : h->m.clu) ds += c.second.ds.size(); ds += h->m.cls.size() + h->m.uns.ds.size(); }
    if (!n || rep < 2) return n;
    rep = std::max((size_t)1, std::min(rep, std::min((size_t)70000, (nm ? 2500000 : 12000000) / ((1 + xs[0].size()) * ds)) / n));
    xs.reserve(n * rep);
    for (size_t i = 0, k = n * (rep - 1); i < k; i++) xs.push_back(xs[i]);
    return n;
  }
  // a failed training leaves no address behind that was not there: taken before calls in which memory runs out
  std::set<std::string> zerosBefore;
  bool zerosKnown = false;
  static void zerosOf(const State& st, std::set<std::string>& out) {
    auto one = [&](const std::string& w, const State::SD& d) {
      for (size_t r = 0; r < d.rams.size(); r++) for (auto& c : d.rams[r]) if (!c.second) out.insert(w + "#" + std::to_string(r) + "#" + std::to_string(c.first));
    };
    one("", st.d);
    for (auto& e : st.cls) one("c" + e.first, e.second);
    for (auto& e : st.clu) for (size_t i = 0; i < e.second.ds.size(); i++) one("k" + e.first + "#" + std::to_string(i), e.second.ds[i]);
    for (size_t i = 0; i < st.uns.ds.size(); i++) one("u#" + std::to_string(i), st.uns.ds[i]);
  }
  void before(H* h, const J& s) {
    zerosKnown = false;
    if (nm || inPar || !on("fail") || blind || !s.has("f")) return;
    State st = observe(*h);
    if (!st.ok) return;
    zerosBefore.clear();
    zerosOf(st, zerosBefore);
    zerosKnown = true;
  }
  void trainD(const J& s, const std::string& op) {
    H* h = get(s, "o", 'D');
    if (!h) return;
    if (op != "untrain") before(h, s);
    VI x = imgV(s.at("x"));
    Obj* b = nullptr;
    if (op == "trainB") {
      if (nm) { Out r = call(h->proc, nullptr, [&]() { b = engine(h->eng)->newBinV(x); }); if (!r.ok) return; }
      else { for (int v : x) if (v > 1 || v < 0) return; b = mkBin(h->eng, h->proc, x); }
    }
    int rep = !nm && op != "untrain" && h->m.d.valid(x) ? std::min(repOf(s), (int)(2000000 / (1 + x.size()))) : 1;
    if (op == "untrain" && !nm && h->m.d.valid(x) && !h->m.d.canUntrain(x)) {
      if (!s.flag("over") || inPar) return;
      Out r = call(h->proc, &s, [&]() { h->o->untrain1(x); });
      resync(*h, r);
      return;
    }
    Out r = call(h->proc, &s, [&]() { for (int k = 0; k < rep; k++) if (op == "trainB") h->o->trainBin(b); else if (op == "untrain") h->o->untrain1(x); else h->o->train1(x); });
    if (b) drop(b, h->proc);
    if (nm) return;
    int by = op == "untrain" ? -1 : rep;
    batch(*h, s, r, 1, false, false, [&](Model& m, size_t, const State&) { if (!m.d.valid(x)) return std::string("reference: invalid"); m.d.train(x, by); return std::string(); },
          [&](const Model& m, size_t) { return m.d.valid(x) ? OK : BAD; });
  }
  // what untraining more than was trained leaves is not judged, but whatever it is must survive from then on
  static void adopt(MD& m, const State::SD& s) {
    m.count = s.count;
    m.cells.assign(m.map.size(), {});
    for (size_t r = 0; r < m.map.size() && r < s.rams.size(); r++)
      for (auto& c : s.rams[r]) {
        if (!c.second) continue;
        u64 a = c.first;
        std::string k;
        for (size_t i = 0; i < m.map[r].size(); i++) { int v = (int)(a % (u64)m.base); a /= (u64)m.base; k.append((char*)&v, 4); }
        m.cells[r][k] = (int)c.second;
      }
  }
  void resync(H& h, const Out& r) {
    if (r.unsup) return;
    if (!r.ok && r.hard) abandon("untraining failed");
    State ob = observe(h);
    if (!ob.ok) abandon(ob.err);
    probe("untrained more than trained");
    if (h.m.t == 'D') { if (!ob.d.dataOk) abandon("unreadable"); adopt(h.m.d, ob.d); }
    for (auto& e : h.m.cls) { auto it = ob.cls.find(e.first); if (it == ob.cls.end() || !it->second.dataOk) abandon("unreadable"); adopt(e.second, it->second); }
    std::string w = cmpState(ob, h.m);
    if (w.size()) abandon("untraining more than was trained: " + w);
  }
  void trainND(const J& s) {
    H* h = get(s, "o", 'D');
    if (!h) return;
    before(h, s);
    VVI xs = imgsV(s.at("x"));
    Out r = call(h->proc, &s, [&]() { h->o->trainN(xs); });
    if (nm) return;
    if (h->eng == 2 && xs.empty() && !r.ok && !r.hard && unchanged(*h)) return;  // Python cannot tell [] from one empty sample
    batch(*h, s, r, xs.size(), false, false, [&](Model& m, size_t i, const State&) { if (!m.d.valid(xs[i])) return std::string("reference: invalid"); m.d.train(xs[i]); return std::string(); },
          [&](const Model& m, size_t i) { return m.d.valid(xs[i]) ? OK : BAD; });
  }
  void votes(const J& s) {
    H* h = get(s, "o", 'D');
    if (!h) return;
    VI x = imgV(s.at("x")), v;
    bool bin = s.flag("b");
    Obj* b = nullptr;
    if (bin) {
      if (nm) { Out r = call(h->proc, nullptr, [&]() { b = engine(h->eng)->newBinV(x); }); if (!r.ok) return; }
      else { for (int y : x) if (y > 1 || y < 0) return; b = mkBin(h->eng, h->proc, x); }
    }
    Out r = call(h->proc, &s, [&]() { v = bin ? h->o->votesBin(b) : h->o->votes(x); });
    if (b) drop(b, h->proc);
    if (r.unsup || nm) return;
    mixVI(v);
    if (!h->m.d.valid(x)) {
      if (r.ok) differ("reject", "invalid input accepted", "classify accepted an invalid input");
      return;
    }
    if (!r.ok) { if (r.hard) return; viol("query failed", r.what); }
    if (!on("votes")) return;
    res.checks++;
    VI ex = h->m.d.votes(x);
    int mx = 0;
    for (int y : ex) mx = std::max(mx, y);
    if (mx > 1) probe("vote above 1");
    if (v != ex) viol("votes differ", "classify(" + show(x) + ") = " + show(v) + ", the history gives " + show(ex));
  }
  bool unchanged(H& h) { State ob = observe(h); return ob.ok && cmpState(ob, h.m).empty(); }
  void trainL(const J& s, bool ds) {
    H* h = get(s);
    if (!h || (h->m.t != 'W' && h->m.t != 'C')) return;
    before(h, s);
    VVI xs = imgsV(s.at("x"));
    VS ls = strsV(s.at("l"));
    if (int rep = xs.size() == ls.size() ? repOf(s) - 1 : 0) {
      size_t n = xs.size();
      size_t ds = 1;
      for (auto& c : h->m.clu) ds += c.second.ds.size();
      size_t most = h->m.t == 'C' && (!nm || n > 3) ? std::min((size_t)(nm ? 1000 : 40000), 1000000 / ((1 + (n ? xs[0].size() : 0)) * (ds + n))) : std::min((size_t)70000, 2000000 / (1 + (n ? xs[0].size() : 0)));
      if (rep * n > most) rep = (int)(most / std::max(n, (size_t)1));
      for (size_t i = 0; i < rep * n; i++) { xs.push_back(xs[i]); ls.push_back(ls[i]); }
    }
    Obj* d = nullptr;
    std::vector<bool> has(xs.size(), true);
    if (ds) {
      if (ls.size() != xs.size()) return;
      for (auto& x : xs) for (int v : x) if ((v < 0 || v > 1) && !nm) return;
      if (h->m.t == 'C') return;
      for (size_t i = 0; i < ls.size(); i++) if (ls[i].empty()) has[i] = false;
      Out r = call(h->proc, nullptr, [&]() { d = engine(h->eng)->newDS(); for (size_t i = 0; i < xs.size(); i++) d->dsAddVec(xs[i], has[i], ls[i]); });
      if (!r.ok) { if (d) drop(d, h->proc); if (nm) return; differ("any", "data set", r.what); }
    }
    Out r = call(h->proc, &s, [&]() { if (ds) h->o->trainDS(d); else h->o->trainL(xs, ls); });
    if (d) drop(d, h->proc);
    if (nm) return;
    bool reject = xs.size() != ls.size();
    bool learn = h->m.t == 'C';
    for (auto& l : ls) if (h->m.t == 'W' && !h->m.cls.count(l)) learn = true;
    bool confHigh = false;
    if (xs.size() && h->m.cf.addr > 0) confHigh = h->m.cf.conf > (int)(xs[0].size() / h->m.cf.addr);
    if (confHigh && !r.ok && !r.hard && !r.unsup && !inPar && unchanged(*h)) { probe("confidence above the number of RAMs refused"); return; }
    if (xs.empty()) { if (r.ok) return; State ob = observe(*h); std::string w = cmpState(ob, h->m); if (w.size()) differ("fail", "failed call left a trace", w); return; }
    batch(*h, s, r, std::min(xs.size(), ls.size()), reject, learn,
          [&](Model& m, size_t i, const State& ob) { if (!has[i]) return std::string("reference: invalid"); return m.t == 'W' ? trainW(m, xs[i], ls[i], ob) : trainC(m, xs[i], ls[i], ob); },
          [&](const Model& m, size_t i) {
            if (!has[i]) return BAD;
            if (m.t == 'W') return validW(m, xs[i], ls[i]);
            auto it = m.clu.find(ls[i]);
            return validCl(m, it == m.clu.end() ? MCl() : it->second, xs[i]);
          });
  }
  void trainMap(const J& s) {
    H* h = get(s, "o", 'C');
    if (!h) return;
    before(h, s);
    VVI xs = imgsV(s.at("x"));
    if (nm) swell(s, xs, h);
    std::map<int, std::string> ls;
    for (auto& e : s.at("m").a) ls[(int)e.a[0].i] = dec(e.a[1].s);
    Out r = call(h->proc, &s, [&]() { h->o->trainMap(xs, ls); });
    if (nm) return;
    std::vector<int> order;
    size_t nl = 0;
    for (int i = 0; i < (int)xs.size(); i++) if (ls.count(i)) { order.push_back(i); nl++; }
    for (int i = 0; i < (int)xs.size(); i++) if (!ls.count(i)) order.push_back(i);
    bool reject = ls.size() > xs.size() || nl == 0;
    if (nl && order.size() > nl) probe("semi-supervised samples");
    if (ls.size() > nl) probe("label keys outside the samples");
    if (xs.empty()) { if (r.ok) return; State ob = observe(*h); std::string w = cmpState(ob, h->m); if (w.size()) differ("fail", "failed call left a trace", w); return; }
    if (h->m.cf.addr > 0 && h->m.cf.conf > (int)(xs[0].size() / h->m.cf.addr) && !r.ok && !r.hard && !r.unsup && unchanged(*h)) { probe("confidence above the number of RAMs refused"); return; }
    auto label = [&](const Model& m, size_t k) { return k < nl ? ls[order[k]] : owner(predictC(m, xs[order[k]]).label); };
    auto classifiable = [&](const Model& m, const VI& x) {
      for (auto& e : m.clu) for (auto& d : e.second.ds) if (!d.valid(x)) return false;
      return true;
    };
    batch(*h, s, r, order.size(), reject, true,
          [&](Model& m, size_t k, const State& ob) {
            if (k >= nl && !classifiable(m, xs[order[k]])) return std::string("reference: invalid");
            return trainC(m, xs[order[k]], label(m, k), ob); },
          [&](const Model& m, size_t k) {
            if (k >= nl && !classifiable(m, xs[order[k]])) return BAD;
            std::string l = label(m, k);
            auto it = m.clu.find(l);
            return validCl(m, it == m.clu.end() ? MCl() : it->second, xs[order[k]]);
          });
  }
  void trainU(const J& s) {
    H* h = get(s, "o", 'C');
    if (!h) return;
    before(h, s);
    VVI xs = imgsV(s.at("x"));
    if (nm) swell(s, xs, h);
    Out r = call(h->proc, &s, [&]() { h->o->trainUns(xs); });
    if (nm) return;
    if (xs.empty()) { if (r.ok) return; State ob = observe(*h); std::string w = cmpState(ob, h->m); if (w.size()) differ("fail", "failed call left a trace", w); return; }
    batch(*h, s, r, xs.size(), false, true,
          [&](Model& m, size_t i, const State& ob) { if (m.uns.ds.empty()) m.uns.entry = xs[i].size(); return trainCl(m, m.uns, xs[i], ob.hasUns ? &ob.uns : nullptr, "unsupervised cluster"); },
          [&](const Model& m, size_t i) { MCl c = m.uns; if (c.ds.empty()) c.entry = xs[i].size(); return validCl(m, c, xs[i]); });
  }
  void leave(const J& s, bool many) {
    H* h = get(s, "o", 'W');
    if (!h) return;
    VVI xs;
    VS ls;
    if (many) {
      xs = imgsV(s.at("x")); ls = strsV(s.at("l"));
      if (nm && xs.size() == ls.size()) { size_t n = swell(s, xs, h); for (size_t i = n; i < xs.size(); i++) ls.push_back(ls[i - n]); }
    }
    else { xs.push_back(imgV(s.at("x"))); ls.push_back(dec(s.str("l"))); }
    bool reject = xs.size() != ls.size();
    if (!nm && !reject) {
      Model m = h->m;
      for (size_t i = 0; i < xs.size(); i++) {
        auto it = m.cls.find(ls[i]);
        if (it == m.cls.end()) continue;
        if (!it->second.valid(xs[i])) break;
        if (!it->second.canUntrain(xs[i])) {
          if (!s.flag("over") || inPar) return;
          Out r = call(h->proc, &s, [&]() { if (many) h->o->leaveMore(xs, ls); else h->o->leaveOne(xs[0], ls[0]); });
          resync(*h, r);
          return;
        }
        it->second.train(xs[i], -1);
      }
    }
    Out r = call(h->proc, &s, [&]() { if (many) h->o->leaveMore(xs, ls); else h->o->leaveOne(xs[0], ls[0]); });
    if (nm) return;
    batch(*h, s, r, std::min(xs.size(), ls.size()), reject, false,
          [&](Model& m, size_t i, const State&) {
            auto it = m.cls.find(ls[i]);
            if (it == m.cls.end()) return std::string();
            if (!it->second.valid(xs[i])) return std::string("reference: invalid");
            it->second.train(xs[i], -1);
            probe("sample untrained");
            return std::string(); },
          [&](const Model& m, size_t i) { auto it = m.cls.find(ls[i]); return it == m.cls.end() || it->second.valid(xs[i]) ? OK : BAD; });
  }
  void classify(const J& s) {
    H* h = get(s);
    if (!h || (h->m.t != 'W' && h->m.t != 'C')) return;
    VVI xs = imgsV(s.at("x"));
    const size_t given = swell(s, xs, h);
    bool ds = s.flag("b");
    std::vector<ClassOut> out;
    Obj* d = nullptr;
    if (ds) {
      if (h->m.t == 'C') return;
      for (auto& x : xs) for (int v : x) if ((v < 0 || v > 1) && !nm) return;
      Out r = call(h->proc, nullptr, [&]() { d = engine(h->eng)->newDS(); for (auto& x : xs) d->dsAddVec(x, false, ""); });
      if (!r.ok) { if (d) drop(d, h->proc); if (nm) return; differ("any", "data set", r.what); }
    }
    Out r = call(h->proc, &s, [&]() { out = ds ? h->o->classifyDS(d) : h->o->classify(xs); });
    if (d) drop(d, h->proc);
    if (nm || r.unsup) return;
    bool bad = false;
    for (auto& x : xs) {
      for (auto& e : h->m.cls) if (!e.second.valid(x)) bad = true;
      for (auto& e : h->m.clu) for (auto& m : e.second.ds) if (!m.valid(x)) bad = true;
    }
    bool empty = h->m.cls.empty() && h->m.clu.empty();
    if (!r.ok) { if (bad || r.hard || empty || xs.empty()) return; viol("query failed", "classify raised: " + r.what); }
    if (bad) differ("reject", "invalid input accepted", "classify accepted an invalid input");
    if (empty || !on("class")) return;
    res.checks++;
    if (out.size() != xs.size()) viol("wrong number of answers", std::to_string(out.size()) + " answers to " + std::to_string(xs.size()) + " inputs");
    for (size_t i = given; i < xs.size(); i++) if (!(out[i] == out[i % given])) viol("answer depends on its place", "input " + std::to_string(i) + " " + show(xs[i]) + ": answered " + q(out[i].cls) + ", the same input at place " + std::to_string(i % given) + " was answered " + q(out[i % given].cls));
    for (size_t i = 0; i < given; i++) {
      Pred p = h->m.t == 'W' ? predictW(h->m, xs[i]) : predictC(h->m, xs[i]);
      mixS(out[i].cls);
      if (p.thr > 1) probe("bleaching threshold above 1");
      if (p.tie) probe("tie between leaders");
      if (!p.labels.count(out[i].cls)) viol("wrong class", "input " + std::to_string(i) + " " + show(xs[i]) + ": answered " + q(out[i].cls) + ", the votes give " + q(*p.labels.begin()) + " (threshold " + std::to_string(p.thr) + ", " + std::to_string(p.top) + " RAMs)");
      if (on("degrees") && h->eng == 2) degrees(*h, xs[i], p, out[i]);
    }
  }
  void degrees(H& h, const VI& x, const Pred& p, const ClassOut& c) {
    const Conf& cf = h.m.cf;
    if (c.hasAct != cf.retAct || c.hasConf != cf.retConf || c.hasDeg != cf.retDeg) viol("outputs missing", "the requested degrees are not those returned");
    auto near = [](double a, double b) { return fabs(a - b) < 1e-4; };
    if (c.hasAct && cf.indexes.empty() && cf.mapping.empty()) {
      int rem = x.size() % cf.addr, n = x.size() / cf.addr + (cf.complete && rem ? 1 : 0);
      if (!near(c.act, (double)p.top / n)) viol("wrong activation degree", std::to_string(c.act) + ", expected " + std::to_string((double)p.top / n));
    }
    if (c.hasConf && p.top > 0 && !p.tie) {
      int second = 0;
      for (auto& e : p.counts) if (e.second != p.top) second = std::max(second, e.second);
      if (!near(c.conf, (double)(p.top - second) / p.top)) viol("wrong confidence", std::to_string(c.conf) + ", expected " + std::to_string((double)(p.top - second) / p.top));
    }
    if (c.hasDeg) {
      double tot = 0;
      for (auto& e : p.counts) tot += e.second;
      if (tot == 0) tot = 1;
      std::multimap<std::string, double> ex, got;
      for (auto& e : p.counts) ex.insert(std::make_pair(h.m.t == 'C' ? owner(e.first) : e.first, e.second / tot));
      for (auto& e : c.deg) got.insert(e);
      std::vector<std::pair<std::string, double>> a(ex.begin(), ex.end()), b(got.begin(), got.end());
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      bool same = a.size() == b.size();
      for (size_t i = 0; same && i < a.size(); i++) same = a[i].first == b[i].first && near(a[i].second, b[i].second);
      if (!same) viol("wrong class degrees", "the class degrees do not describe the count");
    }
    probe("degrees compared");
  }
  void classU(const J& s) {
    H* h = get(s, "o", 'C');
    if (!h) return;
    VVI xs = imgsV(s.at("x"));
    const size_t given = swell(s, xs, h);
    VS out;
    Out r = call(h->proc, &s, [&]() { out = h->o->classifyUns(xs); });
    if (nm || r.unsup) return;
    bool bad = false;
    for (auto& x : xs) { for (auto& m : h->m.uns.ds) if (!m.valid(x)) bad = true; }
    bool empty = h->m.uns.ds.empty();
    if (!r.ok) { if (bad || r.hard || empty || xs.empty()) return; viol("query failed", "classifyUnsupervised raised: " + r.what); }
    if (bad) differ("reject", "invalid input accepted", "classifyUnsupervised accepted an invalid input");
    if (empty || !on("class")) return;
    res.checks++;
    if (out.size() != xs.size()) viol("wrong number of answers", std::to_string(out.size()) + " answers to " + std::to_string(xs.size()) + " inputs");
    for (size_t i = given; i < xs.size(); i++) if (out[i] != out[i % given]) viol("answer depends on its place", "unsupervised input " + std::to_string(i) + ": answered " + q(out[i]) + ", the same input at place " + std::to_string(i % given) + " was answered " + q(out[i % given]));
    for (size_t i = 0; i < given; i++) {
      mixS(out[i]);
      Pred p = predictU(h->m, xs[i]);
      if (!p.labels.count(out[i])) viol("wrong class", "unsupervised input " + std::to_string(i) + ": answered " + q(out[i]) + ", the votes give " + q(p.label));
    }
  }
  void mental(const J& s) {
    H* h = get(s);
    if (!h) return;
    if (h->m.t == 'D') {
      VI v;
      Out r = call(h->proc, &s, [&]() { v = h->o->mentalD(); });
      if (nm || r.unsup) return;
      if (!r.ok) { if (r.hard) return; viol("query failed", "getMentalImage raised: " + r.what); }
      mixVI(v);
      if (!on("mental")) return;
      res.checks++;
      VI ex = h->m.d.mental();
      if (v != ex) viol("mental image differs", show(v) + ", the history gives " + show(ex));
      return;
    }
    if (s.has("l")) {
      if (h->m.t != 'C') return;
      std::string l = dec(s.str("l"));
      VVI v;
      Out r = call(h->proc, &s, [&]() { v = h->o->mental1(l); });
      if (nm || r.unsup) return;
      auto it = h->m.clu.find(l);
      if (it == h->m.clu.end()) { probe("query for an unknown label"); return; }
      if (!r.ok) { if (r.hard) return; viol("query failed", "getMentalImage raised: " + r.what); }
      if (!on("mental")) return;
      res.checks++;
      VVI ex;
      for (auto& d : it->second.ds) ex.push_back(d.mental());
      if (v != ex) viol("mental image differs", "cluster " + q(l));
      return;
    }
    std::map<std::string, VVI> v, ex;
    Out r = call(h->proc, &s, [&]() { v = h->o->mental(); });
    if (nm || r.unsup) return;
    if (!r.ok) { if (r.hard) return; viol("query failed", "getMentalImages raised: " + r.what); }
    for (auto& e : v) for (auto& x : e.second) mixVI(x);
    if (!on("mental")) return;
    res.checks++;
    for (auto& e : h->m.cls) ex[e.first].push_back(e.second.mental());
    for (auto& e : h->m.clu) { ex[e.first]; for (auto& d : e.second.ds) ex[e.first].push_back(d.mental()); }
    if (v != ex) {
      std::string w = "the sets of classes differ";
      for (auto& e : ex) if (v.count(e.first) && v[e.first] != e.second) w = "class " + q(e.first) + ": " + (v[e.first].empty() ? "[]" : show(v[e.first][0])) + ", the history gives " + (e.second.empty() ? "[]" : show(e.second[0]));
      viol("mental image differs", w);
    }
  }
  void misc(const J& s, const std::string& op) {
    H* h = get(s);
    if (!h) return;
    if (op == "nums") {
      int a = 0, b = 0;
      if (h->m.t != 'D') return;
      Out r = call(h->proc, &s, [&]() { a = h->o->nTrain(); b = h->o->nRams(); });
      if (nm || !r.ok || !on("votes")) return;
      if (a != h->m.d.count) viol("training count differs", std::to_string(a) + ", the history gives " + std::to_string(h->m.d.count));
      if (b != (int)h->m.d.map.size()) viol("RAM count differs", std::to_string(b));
      return;
    }
    if (h->m.t != 'D' && h->m.t != 'W' && h->m.t != 'C') return;
    std::string text;
    Out r = call(h->proc, &s, [&]() { if (op == "cfg") text = h->o->jsonConfig(); else h->o->sizeofB(); });
    if (r.ok && !nm && op == "cfg" && on("cfg")) {
      res.checks++;
      try { std::string w = optsDiff(J::parse(text), h->m.cf, h->m.t); if (w.size()) viol("options differ", "jsonConfig(): " + w); } catch (std::runtime_error&) {}
    }
    if (nm || r.unsup || r.ok || r.hard) return;
    viol("query failed", op + " raised: " + r.what);
  }
  void state(const J& s) {
    H* h = get(s);
    if (!h || nm || (h->m.t != 'D' && h->m.t != 'W' && h->m.t != 'C')) return;
    State ob = observe(*h);
    res.checks++;
    if (on("map") && ob.ok) { mapsOf(*h, ob); mapsKept(*h, ob); }
    std::string w = ob.ok ? cmpState(ob, h->m) : ob.err;
    if (w.size()) differ("state", "state differs", w);
  }
  static bool jsonable(const std::string& l) {  // valid UTF-8
    for (size_t i = 0; i < l.size();) {
      unsigned char c = l[i];
      int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
      if (!n || i + n > l.size()) return false;
      for (int k = 1; k < n; k++) if (((unsigned char)l[i + k] & 0xc0) != 0x80) return false;
      unsigned char d = n > 1 ? l[i + 1] : 0;
      if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;  // overlong, surrogates, too large
      i += n;
    }
    return true;
  }
  void json(const J& s) {
    H* h = get(s);
    if (!h || (h->m.t != 'D' && h->m.t != 'W' && h->m.t != 'C')) return;
    int form = (int)s.num("form");
    std::string path = dec(s.str("path"));
    bool huge = form >= 3;
    std::string text;
    Out r = call(h->proc, &s, [&]() { text = h->o->json(form, path); });
    if (r.unsup) return;
    if (nm) { if (r.ok && s.has("slot")) { Slot& k = slots[(int)s.num("slot")]; k.text = text; k.t = h->m.t; k.huge = huge; k.m = h->m; k.damaged = false; } crashNow(r, h->proc); return; }
    Model m = h->m;
    char t = h->m.t;
    if (crashNow(r, h->proc)) return;  // the text was lost with the process
    if (!r.ok) {
      if (r.hard || badStore(m, path, form)) { probe("save raised an error"); return; }
      viol("save failed", "json raised: " + r.what);
    }
    mixS(text.substr(0, 40));
    bool js = true;
    for (auto& e : m.cls) js = js && jsonable(e.first);
    for (auto& e : m.clu) js = js && jsonable(e.first);
    if (!js) return;
    if (huge && r.hard) probe("save acknowledged despite a fault");
    if (on("cfg") && !preparing) {
      State st = readState(text, t, rd);
      res.checks++;
      if (st.ok) { std::string w = optsDiff(st.cfg, m.cf, t); if (w.size()) viol("options differ", "json(): " + w); }
    }
    if (s.has("slot")) {
      Slot& k = slots[(int)s.num("slot")];
      k = Slot();
      k.text = text; k.t = t; k.m = m; k.huge = huge;
    }
    if (on("stored")) {  // what was acknowledged is really there
      res.checks++;
      State st = readState(text, t, rd);
      std::string w = cmpState(st, m);
      if (w.size()) viol("acknowledged save is not stored", (huge ? "file-backed snapshot: " : "snapshot: ") + w);
      if (huge) {
        probe("file-backed snapshot stored");
        VS fs;
        std::string odd;
        try { inFiles(J::parse(text), fs, odd); } catch (std::exception&) {}
        if (odd.empty() && form == 4) for (auto& f : fs) if (f.compare(0, path.size(), path)) odd = "the RAM data is stored in " + q(f);
        if (odd.size()) viol("save not stored in files", "a save to files" + (form == 4 ? " under " + q(path) : std::string()) + " returned, but " + odd);
      }
    }
  }
  static void inFiles(const J& j, VS& fs, std::string& odd) {
    if (auto d = j.get("data")) {
      if (d->s.size() > 6 && d->s.compare(d->s.size() - 6, 6, ".wdpkg") == 0) fs.push_back(d->s);
      else if (j.at("mapping").a.size()) odd = "RAM data is in the text";
    }
    for (auto& e : j.o) if (e.second.t == J::OBJ || e.second.t == J::ARR) inFiles(e.second, fs, odd);
    for (auto& e : j.a) if (e.t == J::OBJ) inFiles(e, fs, odd);
  }
  // saving may legitimately be refused: the path's directory does not exist, or a label is no file name or no JSON text
  bool badStore(const Model& m, const std::string& path, int form) {
    auto bad = [&](const std::string& l) { return !jsonable(l) || (form >= 3 && (l.find('/') != std::string::npos || l.find('\0') != std::string::npos || l.size() > 120)); };
    for (auto& e : m.cls) if (bad(e.first)) return true;
    for (auto& e : m.clu) if (bad(e.first)) return true;
    if (form == 4) {
      std::string d = path.substr(0, path.rfind('/') == std::string::npos ? 0 : path.rfind('/'));
      if (path.find('/') != std::string::npos && !S.dirs.count(disk_norm(d.empty() ? "/" : d))) return true;
      if (path.size() > 100 || path.find('\0') != std::string::npos) return true;
    }
    return false;
  }
  void load(const J& s, int p) {
    auto it = slots.find((int)s.num("slot", -1));
    if (it == slots.end()) return;
    Slot& k = it->second;
    int e = (int)s.num("e");
    Obj* o = nullptr;
    const std::string& text = k.text;
    Out r = call(p, &s, [&]() { o = k.t == 'D' ? engine(e)->newDj(text) : k.t == 'W' ? engine(e)->newWj(text) : engine(e)->newCj(text); });
    if (nm) { if (r.ok) { put(s, o, e, p, k.t).m.cf = k.m.cf; probe("damaged snapshot loaded"); } else probe("damaged snapshot rejected"); return; }
    State st = readState(text, k.t, rd);
    std::string w = cmpState(st, k.m);
    if (k.damaged) {
      bool bad = !readable(st);
      if (r.ok) {
        if (bad) viol("damaged file loaded", "loading a snapshot whose file is missing, cut or malformed returned an object");
        put(s, o, e, p, k.t);
        destroy(objs[(int)s.num("o")]);
        objs.erase((int)s.num("o"));
      } else probe("damaged snapshot rejected");
      return;
    }
    if (!r.ok) {
      if (r.hard) { probe("load raised an error"); return; }
      if (w.size()) differ("files", "earlier snapshot no longer restores", w + " (" + r.what + ")");
      viol("restore failed", "loading a saved model raised: " + r.what);
    }
    Model m = k.m;
    H& h = put(s, o, e, p, k.t);
    h.m = m;
    probe("model restored");
    if (e != (int)s.num("from", e)) probe("restored by another distribution");
    if (on("restored") || r.hard) {
      State ob = observe(h);
      res.checks++;
      std::string w2 = ob.ok ? cmpState(ob, h.m) : ob.err;
      if (w2.size()) differ("restored", r.hard ? "half-loaded object" : "restored model differs", w2);
      if (on("cfg")) {
        std::string c = cfgDiff(st.cfg, ob.cfg);
        if (c.empty()) c = optsDiff(ob.cfg, h.m.cf, k.t);
        if (c.size()) viol("restored options differ", c);
      }
    }
  }
  // the options a text shows are those the model was made with
  std::string optsDiff(const J& j, const Conf& c, char t) {
    auto want = [&](const char* k, const J& v) -> std::string {
      auto o = j.get(k);
      if (!o || o->dump() == v.dump()) return "";
      return std::string("option ") + k + " is " + o->dump() + ", the model was made with " + v.dump();
    };
    std::string w;
    if ((w = want("ignoreZero", J(c.iz))).size() || (w = want("base", J(c.base))).size()) return w;
    if (t == 'D') return "";
    if ((w = want("addressSize", J(c.addr))).size() || (w = want("bleachingActivated", J(c.bleach))).size() || (w = want("verbose", J(c.verbose))).size() ||
        (w = want("completeAddressing", J(c.complete))).size() || (w = want("confidence", J(c.conf))).size() || (w = want("returnConfidence", J(c.retConf))).size() ||
        (w = want("returnActivationDegree", J(c.retAct))).size() || (w = want("returnClassesDegrees", J(c.retDeg))).size()) return w;
    if (t == 'W') {
      if (c.indexes.size() && (w = want("indexes", J(c.indexes))).size()) return w;
      if (j.has("mapping")) {
        const J& m = j.at("mapping");
        if (m.o.size() != c.mapping.size()) return "option mapping has " + std::to_string(m.o.size()) + " labels, the model was made with " + std::to_string(c.mapping.size());
        for (auto& e : m.o) { auto it = c.mapping.find(e.first); if (it == c.mapping.end() || jvvi(e.second) != it->second) return "option mapping differs for " + q(e.first); }
      }
    } else {
      if ((w = want("threshold", J(c.thr))).size() || (w = want("discriminatorsLimit", J(c.lim))).size()) return w;
      if (auto o = j.get("minScore")) if (fabs((o->isint ? (double)o->i : o->d) - c.minScore) > 1e-5) return "option minScore is " + o->dump();
    }
    return "";
  }
  static bool readable(const State& s) {
    if (!s.ok) return false;
    if (s.t == 'D') return s.d.dataOk;
    for (auto& e : s.cls) if (!e.second.dataOk) return false;
    for (auto& e : s.clu) for (auto& d : e.second.ds) if (!d.dataOk) return false;
    for (auto& d : s.uns.ds) if (!d.dataOk) return false;
    return true;
  }
  std::string cfgDiff(const J& a, const J& b) {
    for (auto& e : a.o) {
      if (e.first == "version") continue;
      auto o = b.get(e.first);
      if (!o) return "option " + e.first + " is missing";
      if (o->dump() != e.second.dump()) return "option " + e.first + " is " + o->dump() + ", was " + e.second.dump();
    }
    return "";
  }
  // ------------------------------------------------------------ data sets, handles and their files
  void newS(const J& s, int p) {
    int e = (int)s.num("e");
    Obj* o = nullptr;
    Out r = call(p, &s, [&]() { o = engine(e)->newDS(); });
    if (!r.ok) { if (!nm && !r.hard) viol("valid creation rejected", r.what); return; }
    put(s, o, e, p, 'S');
  }
  void add(const J& s) {
    H* h = get(s, "o", 'S');
    if (!h) return;
    VI x = imgV(s.at("x"));
    bool has = s.has("l") && s.str("l").size(), bin = s.flag("b");
    std::string l = dec(s.str("l"));
    if (!nm) for (int v : x) if (v < 0 || v > 1) return;
    Obj* b = nullptr;
    if (bin) { Out r = call(h->proc, nullptr, [&]() { b = engine(h->eng)->newBinV(x); }); if (!r.ok) return; }
    int rep = l.size() > 60 ? 1 : repOf(s);
    Out r = call(h->proc, &s, [&]() { for (int k = 0; k < rep; k++) if (bin) h->o->dsAddBin(b, has || s.flag("el"), l); else h->o->dsAddVec(x, has || s.flag("el"), l); });
    if (b) drop(b, h->proc);
    if (nm || r.unsup) return;
    if (!r.ok) {
      if (!r.hard) viol("add failed", r.what);
      // a failed add leaves the set unchanged, as far as its size and earlier rows go
      if (on("fail")) { long n = -1; call(h->proc, nullptr, [&]() { n = h->o->dsSize(); }); if (n != (long)h->m.rows.size()) viol("failed call left a trace", "size after a failed add is " + std::to_string(n)); }
      return;
    }
    Model::Row row;
    row.bits = x; row.has = has; row.label = l;
    for (int k = 0; k < rep; k++) h->m.rows.push_back(row);
  }
  std::string rowsOf(H& h, std::vector<Model::Row>& out) {
    long n = -1;
    Out r = call(h.proc, nullptr, [&]() { n = h.o->dsSize(); });
    if (!r.ok) return "size() raised: " + r.what;
    if (n < 0 || n > 1000000) return "size " + std::to_string(n);
    for (long i = 0; i < n; i++) {
      Model::Row row;
      Obj* b = nullptr;
      Out a = call(h.proc, nullptr, [&]() { b = h.o->dsGet(i); });
      if (!a.ok) return "get(" + std::to_string(i) + ") raised: " + a.what;
      long m = 0;
      Out c = call(h.proc, nullptr, [&]() { m = b->binSize(); for (long k = 0; k < m && k < 1000000; k++) row.bits.push_back(b->binGet(k)); });
      drop(b, h.proc);
      if (!c.ok) return "reading entry " + std::to_string(i) + " raised: " + c.what;
      std::string l;
      Out d = call(h.proc, nullptr, [&]() { l = h.o->dsLabel(i); });
      row.unshown = h.eng == 2 && !d.ok;  // Python cannot show bytes that are not UTF-8
      row.has = d.ok && l.size();
      row.label = row.has ? l : "";
      out.push_back(row);
    }
    return "";
  }
  static std::string rowsDiff(const std::vector<Model::Row>& a, const std::vector<Model::Row>& b) {
    if (a.size() != b.size()) return std::to_string(a.size()) + " entries, expected " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) {
      if (a[i].bits != b[i].bits) return "entry " + std::to_string(i) + " is " + show(a[i].bits) + ", expected " + show(b[i].bits);
      if (a[i].unshown && b[i].has && !jsonable(b[i].label)) continue;
      if (a[i].has != b[i].has || a[i].label != b[i].label) return "label of entry " + std::to_string(i) + " is " + (a[i].has ? q(a[i].label) : "absent") + ", expected " + (b[i].has ? q(b[i].label) : "absent");
    }
    return "";
  }
  void checkRows(H& h, const char* cat) {
    std::vector<Model::Row> v;
    std::string w = rowsOf(h, v);
    res.checks++;
    if (w.empty()) w = rowsDiff(v, h.m.rows);
    if (w.size()) differ(cat, "data set differs", w);
  }
  void dsget(const J& s) {
    H* h = get(s, "o", 'S');
    if (!h) return;
    long i = s.num("i");
    int mode = (int)s.num("q");
    Obj* b = nullptr;
    Out r = call(h->proc, &s, [&]() { if (mode == 0) b = h->o->dsGet(i); else if (mode == 1) h->o->dsLabel(i); else h->o->dsSize(); });
    if (b) drop(b, h->proc);
    if (!nm && r.ok && mode == 0 && (i < 0 || i >= (long)h->m.rows.size())) abandon("get out of range accepted");
  }
  std::string rams2(H& h, std::vector<Cells>& out, size_t n) {
    for (size_t i = 0; i < n; i++) {
      std::map<u64, int> m;
      Out r = call(h.proc, nullptr, [&]() { m = h.o->hGetAll((int)i); });
      if (!r.ok) return "get(" + std::to_string(i) + ") raised: " + r.what;
      Cells c;
      for (auto& e : m) c[e.first] = e.second;
      out.push_back(c);
    }
    return "";
  }
  void checkRams(H& h) {
    std::vector<Cells> v;
    std::string w = rams2(h, v, h.m.rams.size());
    res.checks++;
    if (w.size()) differ("any", "handle unreadable", w);
    for (size_t i = 0; i < v.size(); i++) if (v[i] != h.m.rams[i]) differ("any", "handle contents differ", "RAM " + std::to_string(i));
    std::string d;
    Out r = call(h.proc, nullptr, [&]() { d = h.o->hData(); });
    if (!r.ok) differ("any", "handle unreadable", "data() raised: " + r.what);
    std::vector<Cells> dd;
    if (h.m.rams.size() || d.size()) for (auto& part : split(d, '.')) { Cells c; if (!ramdec(part, c)) differ("any", "exported text malformed", part.substr(0, 60)); dd.push_back(c); }
    if (h.m.rams.size() && dd != h.m.rams) differ("any", "exported text differs", std::to_string(dd.size()) + " RAMs exported, " + std::to_string(h.m.rams.size()) + " held, or their contents differ");
    for (size_t i = 0; i < h.m.rams.size(); i++) {
      std::string e;
      Out a = call(h.proc, nullptr, [&]() { e = h.o->hData1((int)i); });
      Cells c;
      if (!a.ok || !ramdec(e, c) || c != h.m.rams[i]) differ("any", "exported text differs", "RAM " + std::to_string(i));
    }
  }
  std::string fname(const J& s, char t) { return dec(s.str("path")) + (t == 'S' ? ".wpkds" : ".wdpkg"); }
  void save(const J& s, char t) {
    H* h = get(s, "o", t);
    if (!h) return;
    std::string path = dec(s.str("path")), f = fname(s, t);
    if (inPar && !nm) return saveShared(*h, path, f, t);
    Out r = call(h->proc, &s, [&]() { if (t == 'S') h->o->dsSave(path); else h->o->hSave(path); });
    if (r.unsup) return;
    if (nm) { crashNow(r, h->proc); return; }
    FileRec& fr = files[f];
    if (fr.c.empty() && !fr.damaged) fr.c.push_back(absent());
    Cand c;
    c.rows = h->m.rows;
    c.rams = h->m.rams;
    bool crashed = crashNow(r, h->proc);
    if (crashed) { fr.c.push_back(c); probe("crash inside a save"); return; }
    if (!r.ok) {
      std::string d = path.rfind('/') == std::string::npos ? "" : path.substr(0, path.rfind('/'));
      bool badpath = (path.find('/') != std::string::npos && !S.dirs.count(disk_norm(d.empty() ? "/" : d))) || path.find('\0') != std::string::npos || S.dirs.count(disk_norm(f)) || f.size() > 200;
      if (!r.hard && !badpath) viol("save failed", "save raised: " + r.what);
      fr.c.push_back(c);
      probe("save raised an error");
      return;
    }
    if (r.hard) probe("save acknowledged despite a fault");
    fr.c.assign(1, c);
    fr.damaged = false;
    if (on("stored")) {
      res.checks++;
      bool ok = false;
      std::string raw = disk_get(disk_norm(f), &ok), w;
      if (!ok) w = "no file " + q(f);
      else if (t == 'S') { std::vector<Model::Row> rows; if (!parseDS(raw, rows)) w = "the file is malformed"; else w = rowsDiff(rows, c.rows); }
      else { std::vector<Cells> rr; if (!parseRams(raw, rr)) w = "the file is malformed"; else if (c.rams.size() && rr != c.rams) w = "the file holds other RAM data"; }
      if (w.size()) viol("acknowledged save is not stored", w);
    }
  }
  // other processes may be saving to the same name: the file holds the rows of a save that was not over before
  // the last completed one began
  void saveShared(H& h, const std::string& path, const std::string& f, char t) {
    FileRec& fr = files[f];
    if (fr.c.empty()) fr.c.push_back(absent());
    Cand c;
    c.rows = h.m.rows;
    c.rams = h.m.rams;
    c.from = ++instant;
    c.to = LONG_MAX;
    fr.c.push_back(c);
    fr.begun.push_back(c);
    Out r = call(h.proc, nullptr, [&]() { if (t == 'S') h.o->dsSave(path); else h.o->hSave(path); });
    if (!r.ok) viol("save failed", "save raised: " + r.what);
    std::vector<Cand> keep;
    for (auto& x : fr.c) {
      if (x.from == c.from) x.to = ++instant;
      if (x.to >= c.from) keep.push_back(x);
    }
    if (keep.size() > 1) probe("overlapping saves to one name");
    fr.c.swap(keep);
    if (on("stored")) {
      res.checks++;
      bool ok = false;
      std::string raw = disk_get(disk_norm(f), &ok), w;
      std::vector<Model::Row> rows;
      std::vector<Cells> rr;
      if (!ok) w = "no file " + q(f);
      else if (t == 'S' ? !parseDS(raw, rows) : !parseRams(raw, rr)) w = "the file is malformed";
      else {
        w = "the file holds none of the saved";
        for (auto& x : fr.c) if (!x.absent && (t == 'S' ? rowsDiff(rows, x.rows).empty() : x.rams.empty() || rr == x.rams)) w.clear();
      }
      if (w.size()) viol("acknowledged save is not stored", w);
    }
  }
  static bool parseDS(const std::string& raw, std::vector<Model::Row>& rows) {
    if (raw.empty()) return true;
    for (auto& rec : split(raw, '.')) {
      auto k = rec.find('#');
      std::string l, b;
      if (k == std::string::npos || !b64dec(rec.substr(0, k), l) || !b64dec(rec.substr(k + 1), b) || b.empty()) return false;
      unsigned rem = (unsigned char)b[0];
      if (rem > 7 || (rem && b.size() < 2)) return false;
      Model::Row r;
      r.has = l.size(); r.label = l;
      for (size_t i = 0; i + rem < (b.size() - 1) * 8; i++) r.bits.push_back((b[1 + i / 8] >> (7 - i % 8)) & 1);
      rows.push_back(r);
    }
    return true;
  }
  static bool parseRams(const std::string& raw, std::vector<Cells>& rr) {
    for (auto& part : split(raw, '.')) { Cells c; if (!ramdec(part, c)) return false; rr.push_back(c); }
    return true;
  }
  void loadFile(const J& s, int p, char t) {
    std::string f = fname(s, t);
    int e = (int)s.num("e");
    Obj* o = nullptr;
    FileRec was;
    long since = instant;
    if (inPar && files.count(f)) was = files[f];
    else if (inPar) was.c.push_back(absent());
    Out r = call(p, &s, [&]() { o = t == 'S' ? engine(e)->newDSf(f) : engine(e)->newH(f); });
    if (r.unsup) return;
    if (nm) { if (r.ok) { put(s, o, e, p, t); probe("file loaded"); } else probe("file rejected"); return; }
    auto it = files.find(f);
    FileRec fr;
    if (it != files.end()) fr = it->second;
    if (inPar) {  // what was there when it began, and what was saved meanwhile
      fr.c.swap(was.c);
      for (auto& c : was.begun.size() <= fr.begun.size() ? fr.begun : was.begun) if (c.from > since) fr.c.push_back(c);
      it = files.end(); probe("load beside other processes"); }
    if (fr.c.empty() && !fr.damaged) fr.c.push_back(absent());
    res.checks++;
    if (r.hard && !r.ok) { probe("load raised an error"); return; }
    if (fr.damaged) {
      bool ok = false;
      std::string raw = disk_get(disk_norm(f), &ok);
      std::vector<Model::Row> rows;
      std::vector<Cells> rr;
      bool good = ok && !S.dirs.count(disk_norm(f)) && (t == 'S' ? parseDS(raw, rows) : parseRams(raw, rr));
      if (r.ok) {
        H& h = put(s, o, e, p, t);
        if (!good) viol("damaged file loaded", "a file that is missing, cut or malformed was loaded as if whole");
        h.m.rows = rows; h.m.rams = rr;
        if (t == 'S') checkRows(h, "restored"); else checkRams(h);
      } else { if (good && !r.hard) { if (rows.empty() && rr.size() <= 1) return; differ("restored", "well-formed file rejected", r.what); } probe("damaged file rejected"); }
      return;
    }
    bool mayAbsent = false;
    for (auto& c : fr.c) if (c.absent) mayAbsent = true;
    if (!r.ok) {
      if (mayAbsent) { if (it != files.end()) it->second.c.assign(1, absent()); probe("no file, error raised"); return; }
      viol("stored file does not load", "loading " + q(f) + " raised: " + r.what);
    }
    H& h = put(s, o, e, p, t);
    std::string w;
    if (t == 'S') {
      std::vector<Model::Row> v;
      std::string unread = rowsOf(h, v);
      w = unread;
      for (auto& c : fr.c) {
        if (c.absent) continue;
        std::string d = unread.empty() ? rowsDiff(v, c.rows) : unread;
        if (d.empty()) { h.m.rows = c.rows; Cand k = c; if (it != files.end()) it->second.c.assign(1, k); probe(fr.c.size() > 1 ? "loaded after an interrupted save" : "file loaded exactly"); return; }
        w = d;
      }
    } else {
      for (auto& c : fr.c) {
        if (c.absent) continue;
        std::vector<Cells> v;
        std::string d = rams2(h, v, c.rams.size());
        if (d.empty() && v == c.rams) { h.m.rams = c.rams; Cand k = c; if (it != files.end()) it->second.c.assign(1, k); probe("file loaded exactly"); return; }
        w = "other RAM data";
      }
    }
    if (w.empty()) { if (r.hard) viol("half-loaded object", "a failed read gave an object"); viol("missing file loaded", "loading a file that was never stored returned an object"); }
    viol(r.hard ? "half-loaded object" : fr.c.size() > 1 ? "torn data set" : "loaded data differs", w);
  }
  void newH(const J& s, int p) {
    int e = (int)s.num("e");
    std::string text;
    std::vector<Cells> rams;
    if (s.has("text")) {
      text = dec(s.str("text"));
      for (auto& part : split(text, '.')) { Cells c; if (!ramdec(part, c)) { if (!nm) return; } rams.push_back(c); }
    } else {
      auto it = slots.find((int)s.num("slot", -1));
      if (it == slots.end() || it->second.t != 'D') return;
      try { text = J::parse(it->second.text).str("data"); } catch (std::exception&) { return; }
      if (it->second.huge && !nm) { /* opened by file name */ }
      if (!nm) rams = it->second.m.d.byAddr();
      if (!nm && text.empty() && rams.size() > 1) return;  // written without separators: nothing to open
    }
    Obj* o = nullptr;
    Out r = call(p, &s, [&]() { o = engine(e)->newH(text); });
    if (r.unsup) return;
    if (!r.ok) { if (nm || r.hard) return; viol("export does not open", r.what); }
    H& h = put(s, o, e, p, 'H');
    h.m.rams = rams;
    if (nm) return;
    // cells that went back to zero may or may not be listed
    std::vector<Cells> v;
    std::string w = rams2(h, v, rams.size());
    if (w.size()) differ("any", "handle unreadable", w);
    for (size_t i = 0; i < v.size(); i++) { if (!sameCells(v[i], rams[i])) differ("any", "handle contents differ", "RAM " + std::to_string(i) + " of an opened export"); h.m.rams[i] = v[i]; }
    res.checks++;
  }
  void hset(const J& s, const std::string& op) {
    H* h = get(s, "o", 'H');
    if (!h) return;
    int r0 = (int)s.num("r"), a = (int)s.num("a"), v = (int)s.num("v");
    if (op == "hset") {
      if (!nm && a < 0) return;
      Out r = call(h->proc, &s, [&]() { h->o->hSet(r0, a, v); });
      if (!nm && (r0 < 0 || r0 >= (int)h->m.rams.size())) {  // refused, or the new RAM is there for good
        if (r.unsup) return;
        probe(r.ok ? "edit of a new RAM" : "edit of an unknown RAM refused");
        if (r.ok && (r0 < 0 || r0 > 100000)) differ("any", "edit will be lost", "setting a cell of RAM " + std::to_string(r0) + " was accepted");
        if (r.ok) { h->m.rams.resize(r0 + 1); h->m.rams[r0][(u64)a] = v; }
        checkRams(*h);
        return;
      }
      if (nm || r.unsup || !r.ok) { if (!nm && !r.unsup && !r.ok) { if (r.hard) abandon("edit failed"); viol("edit failed", r.what); } return; }
      h->m.rams[r0][(u64)a] = v;
      return;
    }
    int got = 0;
    Out r = call(h->proc, &s, [&]() { got = h->o->hGet(r0, a); });
    if (nm || r.unsup) return;
    if (r0 < 0 || r0 >= (int)h->m.rams.size()) { probe("read of an unknown RAM"); return; }
    if (a < 0) return;
    auto it = h->m.rams[r0].find((u64)a);
    if (it == h->m.rams[r0].end()) { probe("read of an unknown cell"); if (r.ok && got != 0) differ("any", "cell value differs", "an address never set holds " + std::to_string(got)); return; }
    if (!r.ok) { if (r.hard) return; viol("query failed", "get raised: " + r.what); }
    res.checks++;
    if (got != it->second) differ("any", "cell value differs", std::to_string(got) + ", expected " + std::to_string(it->second));
  }
  void hdata(const J& s) {  // export as text, import again as another handle
    H* h = get(s, "from", 'H');
    if (!h || get(s)) return;
    std::string d;
    Out r = call(h->proc, &s, [&]() { d = h->o->hData(); });
    if (!r.ok) { if (nm || r.hard || r.unsup) return; viol("query failed", "data() raised: " + r.what); }
    int e = (int)s.num("e");
    Obj* o = nullptr;
    int pr = h->proc;
    std::vector<Cells> rams = h->m.rams;
    Out a = call(pr, nullptr, [&]() { o = engine(e)->newH(d); });
    if (!a.ok) { if (nm) return; viol("export does not open", a.what); }
    H& n = put(s, o, e, pr, 'H');
    n.m.rams = rams;
    if (!nm) checkRams(n);
  }
  void hcmp(const J& s) {
    H *a = get(s, "o", 'H'), *b = get(s, "with", 'H');
    if (!a || !b || a->eng != b->eng) return;
    bool eq = false;
    Out r = call(a->proc, &s, [&]() { eq = a->o->hCompare(b->o.get()); });
    if (nm || r.unsup) return;
    if (!r.ok) { if (r.hard) return; viol("query failed", "compare raised: " + r.what); }
    res.checks++;
    bool ex = a->m.rams == b->m.rams;
    probe(ex ? "compared equal handles" : "compared different handles");
    if (eq != ex) differ("any", "compare is wrong", std::string("compare says ") + (eq ? "equal" : "different"));
  }
  void hToD(const J& s, int p) {  // import edited RAM data into a model
    H* h = get(s, "from", 'H');
    auto it = slots.find((int)s.num("slot", -1));
    if (!h || it == slots.end() || it->second.t != 'D' || it->second.m.d.map.size() != h->m.rams.size() || nm) return;
    std::string d;
    Out r = call(h->proc, nullptr, [&]() { d = h->o->hData(); });
    if (!r.ok) viol("query failed", "data() raised: " + r.what);
    J j;
    try { j = J::parse(it->second.text); } catch (std::exception&) { return; }
    j["data"] = J(d);
    std::string text = j.dump();
    Model m = it->second.m;
    std::vector<Cells> rams = h->m.rams;
    int e = (int)s.num("e");
    Obj* o = nullptr;
    Out a = call(p, &s, [&]() { o = engine(e)->newDj(text); });
    if (!a.ok) { if (a.hard) return; viol("export does not open", "importing edited RAM data raised: " + a.what); }
    // read the votes of the edited cells through inputs that address them
    for (size_t rI = 0; rI < rams.size(); rI++)
      for (auto& c : rams[rI]) {
        VI x(m.d.entry, 0);
        u64 v = c.first;
        bool rep = false, zero = true;
        std::set<int> seen;
        for (int pos : m.d.map[rI]) { int dg = (int)(v % m.d.base); v /= m.d.base; if (!seen.insert(pos).second && x[pos] != dg) rep = true; x[pos] = dg; if (dg) zero = false; }
        if (v || rep) continue;
        VI got;
        Out b = call(p, nullptr, [&]() { got = o->votes(x); });
        res.checks++;
        long long ex = m.d.iz && zero ? 0 : c.second;
        if (!b.ok || got.size() != rams.size() || got[rI] != ex) { drop(o, p); differ("any", "imported data differs", "RAM " + std::to_string(rI) + " address " + std::to_string(c.first) + " votes " + (b.ok && rI < got.size() ? std::to_string(got[rI]) : "error") + ", expected " + std::to_string(ex)); }
      }
    std::string t2;
    Out b = call(p, nullptr, [&]() { t2 = o->json(0, ""); });
    if (b.ok) {
      State st = readState(t2, 'D', rd);
      if (!st.ok || !st.d.dataOk || st.d.rams.size() != rams.size()) { drop(o, p); differ("any", "imported data differs", "exported again it is malformed"); }
      for (size_t i = 0; i < rams.size(); i++) if (!sameCells(st.d.rams[i], rams[i])) { drop(o, p); differ("any", "imported data differs", "RAM " + std::to_string(i)); }
    }
    drop(o, p);
    probe("edited data imported");
  }
  // ------------------------------------------------------------ damage
  void hurt(std::string& d, const J& s) {
    for (auto& e : s.at("d").a) {
      std::string k = e.a[0].s;
      size_t n = d.size(), a = n ? (size_t)e.a[1].i % n : 0, b = e.a.size() > 2 ? (size_t)e.a[2].i : 0, c = e.a.size() > 3 ? (size_t)e.a[3].i : 0;
      if (!n && k != "ins") continue;
      if (k == "flip") d[a] ^= (char)(1 << (b & 7));
      else if (k == "set") d[a] = (char)b;
      else if (k == "cut") d.resize(a);
      else if (k == "cutend") d.resize(n - std::min(n, (size_t)e.a[1].i));
      else if (k == "zero") for (size_t i = a; i < n && i < a + b; i++) d[i] = 0;
      else if (k == "del") d.erase(a, b);
      else if (k == "dup") d.insert(a, d.substr(a, b % 64 + 1));
      else if (k == "swap") { size_t q2 = c % n; std::swap(d[a], d[q2]); }
      else if (k == "ins") d.insert(std::min(a, n), dec(e.a[2].s));
      else if (k == "num") {  // replace the a-th number of the text
        size_t want = (size_t)e.a[1].i, cnt = 0;
        std::vector<size_t> at;
        for (size_t i = 0; i < n; i++) if (isdigit((unsigned char)d[i]) && (i == 0 || strchr(":,[-", d[i - 1]))) at.push_back(i);
        (void)cnt;
        if (at.size()) { size_t i = at[want % at.size()], j = i; while (j < d.size() && (isdigit((unsigned char)d[j]) || d[j] == '.')) j++; d.replace(i, j - i, e.a[2].s); }
      }
      else if (k == "val") {  // replace the value of a key's first scalar
        std::string key = "\"" + e.a[1].s + "\":";
        size_t i = d.find(key);
        if (i != std::string::npos) { i += key.size(); size_t j = i; int dep = 0; bool str = false; while (j < d.size()) { char ch = d[j]; if (str) { if (ch == '"') str = false; } else { if (ch == '"') str = true; else if (ch == '[' || ch == '{') dep++; else if (ch == ']' || ch == '}') { if (!dep) break; dep--; } else if (ch == ',' && !dep) break; } j++; } d.replace(i, j - i, e.a[2].s); }
      }
      else if (k == "nest") {  // a value nested very deep
        std::vector<size_t> at;
        for (size_t i = 0; i < n; i++) if (d[i] == ':' || d[i] == '[') at.push_back(i + 1);
        std::string in, out;
        for (long i = 0; i < e.a[2].i; i++) { in += e.a[3].s; out += e.a[4].s; }
        d.insert(at.empty() ? 0 : at[(size_t)e.a[1].i % at.size()], in + "0" + out + ",");
      }
      S.fired["stored bytes damaged"]++;
    }
  }
  void damage(const J& s) {
    if (s.has("path")) {
      std::string f = dec(s.str("path"));
      bool ok = false;
      std::string d = disk_get(disk_norm(f), &ok);
      if (!ok) return;
      hurt(d, s);
      disk_put(disk_norm(f), d);
      files[f].damaged = true;
      return;
    }
    auto it = slots.find((int)s.num("slot", -1));
    if (it == slots.end()) return;
    if (s.flag("file")) {  // a file the snapshot refers to
      VS fs = slotFiles(it->second);
      if (fs.empty()) return;
      std::string f = fs[(size_t)s.num("i") % fs.size()];
      bool ok = false;
      std::string d = disk_get(disk_norm(f), &ok);
      if (!ok) return;
      hurt(d, s);
      disk_put(disk_norm(f), d);
    } else hurt(it->second.text, s);
    it->second.damaged = true;
    res.faultsFired++;
  }
  VS slotFiles(const Slot& k) {
    VS r;
    size_t i = 0;
    while ((i = k.text.find("\"data\":\"", i)) != std::string::npos) {
      i += 8;
      size_t j = k.text.find('"', i);
      if (j == std::string::npos) break;
      std::string f = k.text.substr(i, j - i);
      if (f.size() > 6 && f.compare(f.size() - 6, 6, ".wdpkg") == 0) { try { r.push_back(J::parse("\"" + f + "\"").s); } catch (std::exception&) {} }
    }
    return r;
  }
  void rmdata(const J& s) {
    auto it = slots.find((int)s.num("slot", -1));
    if (it == slots.end()) return;
    VS fs = slotFiles(it->second);
    if (fs.empty()) return;
    std::string f = disk_norm(fs[(size_t)s.num("i") % fs.size()]);
    if (!S.disk.erase(f)) return;
    if (s.flag("dir")) S.dirs.insert(f);
    it->second.damaged = true;
    S.fired["stored file lost"]++;
    res.faultsFired++;
  }
  // ------------------------------------------------------------ packed inputs
  void bin(const J& s, int p, const std::string& op) {
    if (op == "newB") {
      int e = (int)s.num("e");
      Obj* o = nullptr;
      VI x = imgV(s.at("x"));
      Out r = call(p, &s, [&]() { o = s.has("x") ? engine(e)->newBinV(x) : s.has("data") ? engine(e)->newBinD(dec(s.str("data"))) : engine(e)->newBinN(s.num("n")); });
      if (!r.ok) return;
      put(s, o, e, p, 'B');
      return;
    }
    H* h = get(s, "o", 'B');
    if (!h) return;
    long n = 0;
    call(h->proc, nullptr, [&]() { n = h->o->binSize(); });
    if (n > 100000) n = 100000;
    for (long i = -1; i <= n + 1; i += 1 + n / 64) {
      call(h->proc, nullptr, [&]() { h->o->binGet(i); });
      if (s.flag("w")) call(h->proc, nullptr, [&]() { h->o->binSet(i, (int)(i & 1)); });
    }
    std::string d;
    Out r = call(h->proc, &s, [&]() { d = h->o->binData(); });
    if (r.ok) { Obj* o = nullptr; Out a = call(h->proc, nullptr, [&]() { o = engine(h->eng)->newBinD(d); }); if (a.ok) drop(o, h->proc); }
  }
  // ------------------------------------------------------------ kernel canvas, synthesizer
  void newK(const J& s, int p) {
    int e = (int)s.num("e"), dim = (int)s.num("dim"), n = (int)s.num("n");
    Opts o = opts(s.at("opts"));
    Obj* ob = nullptr;
    Out r = call(p, &s, [&]() { ob = engine(e)->newKC(dim, n, o); });
    if (!r.ok) { if (!nm && !r.hard && !r.unsup) viol("valid creation rejected", r.what); return; }
    H& h = put(s, ob, e, p, 'K');
    h.m.dim = dim; h.m.nk = n;
    h.m.bpk = (int)s.at("opts").num("bitsByKernel", 3);
    h.m.act = (float)s.at("opts").dbl("activationDegree", 0.07f);
    h.m.dir = s.at("opts").flag("useDirection");
  }
  void ktr(const J& s) {
    H* h = get(s, "o", 'K');
    if (!h) return;
    VVD seq;
    for (auto& r : s.at("x").a) { seq.push_back({}); for (auto& v : r.a) seq.back().push_back(v.d); }
    std::string key = s.at("x").dump();
    double sc = ldexp(1.0, (int)s.num("sc"));
    VVD sq = seq;
    for (auto& r : sq) for (auto& v : r) v *= sc;
    VI out;
    Out r = call(h->proc, &s, [&]() { out = h->o->kcTransform(sq); });
    if (nm || r.unsup) return;
    bool bad = false;
    for (auto& x : seq) if ((int)x.size() != h->m.dim) bad = true;
    if (bad) { if (r.ok) differ("reject", "wrong dimension accepted", "transform accepted a row of another dimension"); probe("wrong dimension rejected"); return; }
    if (!r.ok) { if (r.hard || seq.empty()) return; viol("query failed", "transform raised: " + r.what); }
    mixVI(out);
    res.checks++;
    if ((int)out.size() != h->m.nk * h->m.bpk) viol("canvas output size", std::to_string(out.size()) + " values");
    int onN = 0;
    for (int k = 0; k < h->m.nk; k++) {
      for (int b = 0; b < h->m.bpk; b++) {
        int v = out[k * h->m.bpk + b];
        if (v != 0 && v != 1) viol("canvas output value", "a value is " + std::to_string(v));
        if (v != out[k * h->m.bpk]) viol("canvas block not uniform", "kernel " + std::to_string(k));
      }
      onN += out[k * h->m.bpk];
    }
    int share = (int)round(h->m.act * h->m.nk);
    if (seq.empty() ? onN != 0 : onN < share) viol("canvas share", std::to_string(onN) + " kernels on, at least " + std::to_string(seq.empty() ? 0 : share) + " expected");
    if (onN > (long)share * (long)seq.size()) viol("canvas share", std::to_string(onN) + " kernels on, at most " + std::to_string(share * seq.size()) + " possible");
    auto it = h->m.kcSeen.find(key);
    if (it == h->m.kcSeen.end()) { h->m.kcSeen[key] = out; return; }
    probe(s.num("sc") ? "scaled sequence transformed again" : "sequence transformed again");
    if (it->second != out) viol("canvas output changed", s.num("sc") ? "scaling all coordinates by 2^" + std::to_string(s.num("sc")) + " changed the output" : "the same sequence gave another output");
  }
  void newY(const J& s, int p) {
    int e = (int)s.num("e");
    VI m = imgV(s.at("x"));
    Obj* o = nullptr;
    Out r = call(p, &s, [&]() { o = engine(e)->newSy(m); });
    if (!r.ok) { if (!nm && !r.hard && !r.unsup) { for (int v : m) if (v) { viol("valid creation rejected", r.what); } } return; }
    H& h = put(s, o, e, p, 'Y');
    h.m.img = m;
  }
  void make(const J& s) {
    H* h = get(s, "o", 'Y');
    if (!h) return;
    int n = (int)s.num("n", 1);
    const VI m = h->m.img;
    int mx = 0;
    for (int v : m) mx = std::max(mx, v);
    std::vector<long> sum(m.size());
    for (int k = 0; k < n; k++) {
      VI out;
      Out r = call(h->proc, k == 0 ? &s : nullptr, [&]() { out = h->o->synthMake(); });
      if (nm) { if (k > 3) return; continue; }
      if (!r.ok) { if (r.hard) return; if (mx == 0) return; viol("query failed", "make raised: " + r.what); }
      mixVI(out);
      res.checks++;
      if (out.size() != m.size()) viol("sample size", std::to_string(out.size()) + " values for " + std::to_string(m.size()) + " positions");
      for (size_t i = 0; i < m.size(); i++) {
        if (out[i] != 0 && out[i] != 1) viol("sample value", "a value is " + std::to_string(out[i]));
        if (m[i] == 0 && out[i]) viol("zero intensity set", "position " + std::to_string(i) + " has intensity 0 but is set");
        if (mx > 0 && m[i] == mx && !out[i]) viol("full intensity clear", "position " + std::to_string(i) + " has the highest intensity but is clear");
        sum[i] += out[i];
      }
      S.procs[h->proc].clock += 1 + (k % 3 == 0 ? 7 : 0);
    }
    if (nm || n < 400 || mx == 0) return;
    probe("sample frequencies compared");
    for (size_t i = 0; i < m.size(); i++) {
      double pr = (double)m[i] / mx, q = (double)sum[i] / n;
      if (pr <= 0 || pr >= 1) continue;
      // Chernoff: so many or more (so few or fewer) have a probability of at most exp(-n * kl)
      double kl = (q > 0 ? q * log(q / pr) : 0) + (q < 1 ? (1 - q) * log((1 - q) / (1 - pr)) : 0);
      if (n * kl > 32) viol("intensity not followed", "position " + std::to_string(i) + " of intensity " + std::to_string(m[i]) + "/" + std::to_string(mx) + " was set in " + std::to_string(sum[i]) + " of " + std::to_string(n) + " samples");
    }
  }
  // ------------------------------------------------------------ texts of earlier releases
  // A text in the documented format, written from the reference model alone.
  void fixture(const J& s, int p) {
    int e = (int)s.num("e");
    char t = s.str("t")[0];
    Conf c = conf(s);
    Model m;
    m.t = t;
    m.cf = c;
    auto mkD = [&](const J& d) {
      MD md;
      md.entry = (int)d.num("entry"); md.base = c.base; md.iz = c.iz;
      md.setMap(vvi(d.at("map")));
      md.given = true;
      size_t i = 0;
      for (auto& x : d.at("x").a) { md.train(imgV(x), d.at("w").a.size() > i ? (int)d.at("w").a[i].i : 1); i++; }
      return md;
    };
    bool nul = s.flag("emptydata");
    auto jd = [&](const MD& md) {
      J j = J::obj();
      std::string data;
      auto ba = md.byAddr();
      for (size_t i = 0; i < ba.size(); i++) { if (i && !(nul && data.empty())) data += "."; data += ramenc(ba[i]); }
      j["count"] = J(md.count);
      j["data"] = J(data);
      j["entrySize"] = J(md.entry);
      j["mapping"] = J::arr();
      for (auto& r : md.map) j["mapping"].push(J(r));
      return j;
    };
    J j = J::obj();
    auto common = [&]() {
      j["version"] = J(s.str("ver", "1.6.2"));
      j["addressSize"] = J(c.addr); j["bleachingActivated"] = J(c.bleach); j["verbose"] = J(c.verbose); j["ignoreZero"] = J(c.iz);
      j["completeAddressing"] = J(c.complete); j["base"] = J(c.base); j["confidence"] = J(c.conf);
      j["returnConfidence"] = J(c.retConf); j["returnActivationDegree"] = J(c.retAct); j["returnClassesDegrees"] = J(c.retDeg);
    };
    if (t == 'D') {
      m.d = mkD(s.at("d"));
      j = jd(m.d);
      j["ignoreZero"] = J(c.iz); j["base"] = J(c.base); j["version"] = J("1.6.2");
    } else if (t == 'W') {
      common();
      j["indexes"] = J(c.indexes);
      J cl = J::obj();
      for (auto& d : s.at("cls").o) { std::string l = dec(d.first); m.cls[l] = mkD(d.second); }
      for (auto& d : m.cls) cl[d.first] = jd(d.second);
      j["classes"] = m.cls.empty() ? J() : cl;
    } else {
      common();
      j["minScore"] = J((double)c.minScore); j["threshold"] = J(c.thr); j["discriminatorsLimit"] = J(c.lim);
      J cl = J::obj();
      auto jc = [&](const MCl& k) { J r = J::obj(); r["entrySize"] = J(k.entry); r["discriminators"] = J::arr(); for (auto& d : k.ds) r["discriminators"].push(jd(d)); return r; };
      for (auto& d : s.at("clu").o) { MCl& k = m.clu[dec(d.first)]; for (auto& x : d.second.a) k.ds.push_back(mkD(x)); k.entry = k.ds[0].entry; }
      for (auto& d : m.clu) cl[d.first] = jc(d.second);
      if (m.clu.size()) j["clusters"] = cl;
      for (auto& x : s.at("uns").a) { m.uns.ds.push_back(mkD(x)); m.uns.entry = m.uns.ds[0].entry; }
      if (m.uns.ds.size()) j["unsupervisedCluster"] = jc(m.uns);
    }
    std::string text = j.dump();
    Obj* o = nullptr;
    Out r = call(p, &s, [&]() { o = t == 'D' ? engine(e)->newDj(text) : t == 'W' ? engine(e)->newWj(text) : engine(e)->newCj(text); });
    if (!r.ok) { if (nm || r.hard) return; viol("documented text rejected", "loading a text in the documented format raised: " + r.what); }
    H& h = put(s, o, e, p, t);
    h.m = m;
    probe("text of an earlier release loaded");
    if (nm) return;
    State ob = observe(h);
    res.checks++;
    std::string w = ob.ok ? cmpState(ob, h.m) : ob.err;
    if (w.size()) differ("restored", "documented text restored differently", w);
  }
  void rawload(const J& s, int p) {
    std::string text = dec(s.str("text"));
    int e = (int)s.num("e");
    std::string t = s.str("t");
    Obj* o = nullptr;
    Out r = call(p, &s, [&]() { Engine* g = engine(e); o = t == "D" ? g->newDj(text) : t == "W" ? g->newWj(text) : t == "C" ? g->newCj(text) : t == "S" ? g->newDSf(text) : t == "H" ? g->newH(text) : g->newBinD(text); });
    if (r.ok) put(s, o, e, p, t[0]);
  }
  // ------------------------------------------------------------ threads
  void par(const J& s) {
    faults.clear();
    if (s.has("crash")) { Fault x; x.kind = "crash"; x.n = s.num("crash"); faults.push_back(x); }
    seam_step(&faults, 0, 0);
    S.ioOnly = s.flag("io");
    std::map<std::string, FileRec> files1;
    auto slots1 = slots;
    S.onCrash = [&]() { files1 = files; slots1 = slots; };
    std::vector<Preempt> pre;
    for (auto& e : s.at("pre").a) pre.push_back(Preempt{(uint64_t)e.a[0].i, (int)e.a[1].i});
    std::sort(pre.begin(), pre.end(), [](const Preempt& a, const Preempt& b) { return a.at < b.at; });
    std::vector<std::function<void()>> fs;
    for (auto& t : s.at("tasks").a)
      fs.push_back([this, &t]() {
        try { for (auto& st : t.a) { if (res.viol || res.abandoned) break; step(st); } }
        catch (Stop&) {}
      });
    inPar = 1;
    SchedResult sr = run_tasks(fs, pre, (int)s.num("first"));
    inPar = 0;
    S.ioOnly = false;
    S.onCrash = nullptr;
    S.faults = nullptr;
    bool crashed = S.crashed;
    if (crashed) {  // all of them died at that instant
      S.disk.swap(S.crashDisk);
      S.crashDisk.clear();
      S.crashed = false;
      files.swap(files1);
      slots.swap(slots1);
      probe("crash while several processes save");
    }
    for (auto& f : files) for (auto& c : f.second.c) if (c.to == LONG_MAX) c.to = ++instant;
    res.sched = S.logHash;
    res.probes["thread switches"] += sr.switches;
    res.probes["schedule points"] += sr.events;
    if (sr.switches) probe("run with a preemption");
    if (res.viol || res.abandoned) throw Stop();
    std::string what;
    if (!s.flag("io") && race_found(what)) viol("data race", what);
    if (crashed) objs.clear();
  }

  void go() {
    seam_reset((uint64_t)plan.num("salt", 1));
    S.rngmode = (int)plan.num("rngmode");
    for (auto& e : plan.at("procs").a) { Proc q2; q2.rng = (uint64_t)e.a[0].i; q2.clock = e.a[1].i; S.procs[(int)S.procs.size()] = q2; }
    for (auto& d : plan.at("dirs").a) S.dirs.insert(d.s);
    try {
      const J& steps = plan.at("steps");
      for (size_t i = 0; i < steps.a.size(); i++) { cur = (int)i; set_cur_step(cur); step(steps.a[i]); }
      cur = (int)steps.a.size();
      for (auto& h : objs) destroy(h.second);
      objs.clear();
    } catch (Stop&) {
      for (auto& h : objs) if (h.second.o) { Lib l; S.faults = nullptr; h.second.o.reset(); }
      objs.clear();
    }
    res.hash = S.logHash;
  }
};
}  // namespace

Res run_plan(const J& plan) {
  int rep = (int)plan.num("repeat", 1);
  if (rep <= 1) { Run r(plan); r.go(); return r.res; }
  // the same history again and again: memory in use must stop growing
  std::vector<long> blocks, bytes;
  Res last;
  int most = rep;
  for (int i = 0; i < most; i++) {
    Run* r = new Run(plan);
    r->go();
    last = r->res;
    delete r;
    if (last.viol || last.abandoned) return last;
    blocks.push_back(S.liveBlocks);
    bytes.push_back(S.liveBytes);
    // more bytes in no more blocks: something that grows by doubling needs more repetitions to show it
    if (i == rep - 1 && rep >= 6 && bytes[i] > bytes[2]) most = 49;
    if (i == 12 && bytes[12] <= bytes[6]) break;
    if (i == 24 && bytes[24] <= bytes[12]) break;
  }
  if (bytes.size() == 49 && bytes[48] > bytes[24] && blocks[48] >= blocks[6]) {
    last.viol = true;
    last.kind = "memory not released";
    last.step = -1;
    last.msg = "the memory left behind by repetitions of the history, all its objects destroyed, keeps growing: " + std::to_string(bytes[48] - bytes[6]) + " bytes from the 7th to the 49th";
    return last;
  }
  bool grows = true;
  for (int i = 2; i < rep; i++) if (blocks[i] <= blocks[i - 1]) grows = false;
  if (grows && rep >= 4) {
    last.viol = true;
    last.kind = "memory not released";
    last.step = -1;
    last.msg = "every repetition of the history, all its objects destroyed, leaves " + std::to_string(blocks[rep - 1] - blocks[rep - 2]) + " more allocated blocks behind";
  }
  last.probes["leak balance taken"]++;
  return last;
}

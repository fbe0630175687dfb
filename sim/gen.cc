// Seeded generation of plans: objects, histories, faults, clocks and schedules, all drawn from one
// integer.  Swarm style: every run enables its own random subset of operations and fault kinds.
#include "exec.h"
#include <math.h>
#include <string.h>
#include <unistd.h>
#include <set>

namespace {
typedef std::map<std::string, int> W;

struct G {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  int r(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int in(int a, int b) { return a + r(b - a + 1); }
  bool p(int pc) { return r(100) < pc; }
  template <class T> const T& of(const std::vector<T>& v) { return v[r((int)v.size())]; }
  int lg(int mx) {  // log-uniform 0..mx
    int v = 1;
    while (v < mx && p(65)) v *= 2;
    return std::min(mx, r(v + 1));
  }
  std::string wp(const W& w) {
    int t = 0;
    for (auto& e : w) t += e.second;
    int k = r(t);
    for (auto& e : w) { if (k < e.second) return e.first; k -= e.second; }
    return w.begin()->first;
  }
};

struct Info {
  int id = -1;
  char t = 0;
  int entry = 8, addr = 2, base = 2, eng = 0, proc = 0;
  bool iz = false;
  VVI protos, trained;
  std::vector<std::string> labels;   // to draw from
  std::vector<std::string> tl;       // labels of `trained`
};

struct Gen {
  G g;
  std::string prop;
  J steps = J::arr();
  J plan = J::obj();
  std::vector<int> engs;
  int nextId = 0, nextSlot = 0;
  int nproc = 1, fixedProc = -1;
  bool pre = false;                   // steps emitted now only prepare
  std::vector<std::string> prefixes;
  bool wantIdx = false;

  void emit(J s) { if (pre) s["pre"] = J(true); steps.push(s); }
  J op(const char* o, int id = -1) { J s = J::obj(); s["op"] = J(o); if (id >= 0) s["o"] = J(id); return s; }
  int eng() { return g.of(engs); }
  void cats(std::initializer_list<const char*> l) { J a = J::arr(); for (auto c : l) a.push(J(c)); plan["cats"] = a; }

  // ---- values
  VI proto(int entry, int base) {
    VI x(entry);
    int kind = g.r(9), dens = g.in(10, 90);
    if (kind == 8) { x[g.r(entry)] = base - 1; return x; }
    for (int i = 0; i < entry; i++) {
      int v = base == 2 ? 1 : g.p(50) ? g.in(1, base - 1) : base - 1;
      x[i] = kind == 0 ? 0 : kind == 1 ? v : g.p(dens) ? v : 0;
    }
    return x;
  }
  VI image(Info& o) {
    if (o.protos.empty() || (o.protos.size() < (crowd ? 60 : 5) && g.p(crowd ? 60 : 20))) o.protos.push_back(proto(o.entry, o.base));
    VI x = g.of(o.protos);
    if (g.p(55)) { int k = g.in(1, 1 + o.entry / 6); for (int i = 0; i < k; i++) x[g.r(o.entry)] = g.r(o.base); }
    return x;
  }
  VI badImage(Info& o) {
    VI x = image(o);
    int k = g.r(6);
    if (k == 0) x.pop_back();
    else if (k == 1) x.push_back(0);
    else if (k == 2) x.resize(g.r(std::max(1, o.entry)));
    else if (k == 3) x[o.entry - 1] = g.p(30) ? -1 - g.lg(5) : o.base + g.lg(50);
    else x[g.r(o.entry)] = g.p(35) ? -1 - g.lg(1000) : o.base + (g.p(60) ? 0 : g.lg(1000));
    return x;
  }
  std::string anyText(bool files) {  // well-formed UTF-8 over all planes, control characters and what JSON escapes
    if (g.p(6)) return std::string(g.p(50) ? 1 : 0, '"') + std::string(files ? g.in(95, 130) : g.in(95, 260), g.of(std::vector<char>{'[', '{', ']', '}', '\\', '"', ':'}));  // looks like nesting
    static const std::vector<int> odd = {1, 8, 9, 10, 11, 12, 13, 27, 31, 34, 39, 47, 58, 92, 127, 128, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff};
    std::string s;
    for (int i = 0, n = g.p(80) ? g.in(1, 4) : g.in(5, 40); i < n; i++) {
      int c = g.p(50) ? g.of(odd) : g.p(60) ? g.in(32, 126) : g.in(128, 0x10ffff);
      if ((c >= 0xd800 && c <= 0xdfff) || (files && c == 47)) c = 120;
      if (c < 0x80) s += (char)c;
      else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
      else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
      else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    }
    return s;
  }
  std::vector<std::string> labelPool(bool files) {
    static const std::vector<std::string> plain = {"a", "b", "cold", "hot", "0", "1", "2", "10", "x y", "A"};
    static const std::vector<std::string> odd = {"a::b", "a::0", "a", "::", "a::", "cold::1", "a::b::2", "a_0", "a_0_0", "\xc3\xa7\xc3\xa3o", "unsup", "x.wdpkg", "\"q\"", "\\", "a#b.c", "\xe6\x97\xa5"};
    static const std::vector<std::string> rare = {"", std::string("a\0b", 3), std::string("a\0", 2), std::string(300, 'l'), "\n", "__", "unsupervised_cluster"};
    static const std::vector<std::string> path = {"a/b", "/", "../x", "d/a"};
    std::vector<std::string> r;
    if (crowd) {  // more classes than any small table or digit holds
      int n = g.p(50) ? g.in(9, 20) : g.in(17, 70);
      bool num = g.p(50);
      for (int i = 0; i < n; i++) r.push_back((num ? "" : "c") + std::to_string(i));
      return r;
    }
    int n = g.in(1, 5);
    for (int i = 0; i < n; i++) r.push_back(g.p(75) ? g.of(plain) : g.p(12) ? anyText(files) : !files && g.p(20) ? g.of(path) : !files && g.p(25) ? g.of(rare) : g.of(odd));
    return r;
  }
  bool large = false;
  bool marathon = false;              // histories of hundreds of calls
  int longer(int n) { return marathon ? n * g.in(4, 20) : n; }
  bool swollen = false;               // a data set of tens of thousands of entries is made already
  bool crowd = false;                 // many classes, discriminators, RAMs, samples in one call
  void shape(Info& o, int maxEntry = 40) {
    if (marathon) maxEntry = std::min(maxEntry, 16);
    o.entry = g.p(15) ? g.in(maxEntry, maxEntry * 4) : g.in(2, maxEntry);
    o.base = g.p(65) ? 2 : g.p(75) ? g.in(3, 10) : g.of(std::vector<int>{16, 17, 100, 255, 256, 257, 1000, 32768, 65536, 65537, 1000000, 2147483647});
    int lim = 62;
    if (o.base > 2) { lim = 0; unsigned __int128 p = 1; while (p * o.base < ((unsigned __int128)1 << 63)) { p *= o.base; lim++; } }
    if (o.base == 2) lim = 64;
    int mx = std::min(o.entry, lim);
    if (large && !marathon && !crowd && g.r(1000) < 5) {  // inputs of thousands of positions
      o.entry = g.r(8) || maxEntry < 30 ? g.in(300, 5000) : o.t == 'D' ? g.in(65530, 70000) : g.in(32760, 34000);
      o.addr = g.p(50) ? std::min(lim, 62) : g.in(std::min(lim, 8), lim);
      if (o.entry > 65000 && o.t == 'D' && g.p(40)) o.addr = 2;  // more RAMs than 15 bits count
      return;
    }
    if (!marathon && g.p(6) && o.base > 1) { o.entry = lim * g.in(1, 2) + (g.p(30) ? g.r(lim) : 0); mx = lim; }  // addresses as wide as they may be
    o.addr = mx < 2 ? 2 : mx == lim && o.entry >= lim && g.p(70) ? lim : g.p(70) ? g.in(2, std::min(mx, 6)) : g.p(60) ? g.in(2, mx) : mx;
    if (mx < 2) { o.base = 2; o.addr = 2; }
    if (o.entry < o.addr) o.entry = o.addr;
  }
  VVI someMapping(Info& o, bool uniform) {
    int n = g.in(1, 6), len = g.in(1, std::min(o.entry, 6));
    VVI m;
    if (o.base > 65535 && len > 3) len = 3;
    if (g.p(50) && o.entry >= o.addr) { n = o.entry / o.addr; len = o.addr; }
    for (int i = 0; i < n; i++) {
      int k = uniform || g.p(60) ? len : g.in(1, std::max(1, len));
      VI r;
      for (int j = 0; j < k; j++) r.push_back(g.r(o.entry));
      m.push_back(r);
    }
    return m;
  }
  VI perm(int n) {
    VI v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    for (int i = n; i-- > 1;) std::swap(v[i], v[g.r(i + 1)]);
    return v;
  }
  // ---- objects
  Info newD(bool maps = true, bool fits = true) {
    Info o;
    o.id = nextId++; o.t = 'D'; o.eng = eng(); o.proc = fixedProc >= 0 ? fixedProc : g.r(nproc);
    shape(o);
    J s = op("newD", o.id);
    s["addr"] = J(o.addr); s["entry"] = J(o.entry); s["e"] = J(o.eng); s["p"] = J(o.proc);
    J q = J::obj();
    if (!fits) { o.base = g.of(std::vector<int>{3, 5, 7, 10, 16, 1000}); o.addr = g.in(std::max(2, (int)(64 / log2(o.base)) - 1), (int)(64 / log2(o.base)) + 6); o.entry = o.addr * g.in(1, 3); s["addr"] = J(o.addr); s["entry"] = J(o.entry); }
    if (o.base != 2 || g.p(20)) q["base"] = J(o.base);
    o.iz = g.p(30);
    if (o.iz || g.p(20)) q["ignoreZero"] = J(o.iz);
    if (g.p(40)) q["completeAddressing"] = J(g.p(50));
    if (maps && g.p(20)) q["indexes"] = J(perm(o.entry));
    else if (maps && g.p(20)) { VVI m = someMapping(o, false); J a = J::arr(); for (auto& r : m) a.push(imgJ2(r)); q["mapping"] = a; }
    s["opts"] = q;
    emit(s);
    return o;
  }
  static J imgJ2(const VI& v) { return J(v); }
  Info newM(char t, bool degrees = false, bool files = false, int verb = 15, bool maps = true) {
    Info o;
    o.id = nextId++; o.t = t; o.eng = eng(); o.proc = fixedProc >= 0 ? fixedProc : g.r(nproc);
    shape(o, 30);
    o.labels = labelPool(files);
    J s = op(t == 'W' ? "newW" : "newC", o.id);
    s["addr"] = J(o.addr); s["e"] = J(o.eng); s["p"] = J(o.proc);
    J q = J::obj();
    if (o.base != 2 || g.p(20)) q["base"] = J(o.base);
    o.iz = g.p(30);
    if (o.iz || g.p(15)) q["ignoreZero"] = J(o.iz);
    if (g.p(35)) q["completeAddressing"] = J(g.p(50));
    if (g.p(30)) q["bleachingActivated"] = J(g.p(40));
    int rams = o.entry / o.addr;
    if (g.p(40)) q["confidence"] = J(g.in(1, std::max(1, std::min(rams, 6))));
    if (g.p(verb)) q["verbose"] = J(true);
    if (degrees) { if (g.p(60)) q["returnConfidence"] = J(g.p(80)); if (g.p(60)) q["returnActivationDegree"] = J(g.p(80)); if (g.p(60)) q["returnClassesDegrees"] = J(g.p(80)); }
    if (t == 'W' && maps && g.p(12)) q["indexes"] = J(perm(o.entry));
    else if (t == 'W' && maps && g.p(15)) {
      J m = J::obj();
      for (auto& l : o.labels) if (g.p(70) && !m.has(enc(l))) { J a = J::arr(); for (auto& r : someMapping(o, false)) a.push(J(r)); m[enc(l)] = a; }
      if (m.o.size()) q["mappings"] = m;
    }
    if (t == 'C') {
      s["ms"] = J(g.of(std::vector<double>{0.0, 0.1, 0.25, 0.3, 0.5, 0.5, 0.7, 0.75, 0.9, 1.0}));
      s["thr"] = J(g.p(70) ? g.in(1, 6) : g.in(7, 1000));
      s["lim"] = J(g.p(80) ? g.in(1, 5) : g.in(6, 20));
      if (crowd && g.p(70)) { s["lim"] = J(g.p(15) ? g.in(130, 300) : g.in(9, 80)); s["ms"] = J(g.of(std::vector<double>{0.7, 0.9, 1.0})); s["thr"] = J(g.in(50, 1000)); o.labels.resize(g.in(1, 3)); }
    }
    s["opts"] = q;
    emit(s);
    return o;
  }
  J imgs(const VVI& v) { J a = J::arr(); for (auto& x : v) a.push(imgJ(x)); return a; }
  J strs(const std::vector<std::string>& v) { J a = J::arr(); for (auto& x : v) a.push(J(enc(x))); return a; }
  bool packable(const VI& x) { for (int v : x) if (v < 0 || v > 1) return false; return true; }

  // ---- faults
  J fault(const std::string& k, int n, int a = 0, bool sticky = false) {
    J f = J::obj();
    f["k"] = J(k); f["n"] = J(n);
    if (a) f["a"] = J(a);
    if (sticky) f["s"] = J(true);
    return f;
  }
  void addF(J& s, J f) { if (!s.has("f")) s["f"] = J::arr(); s["f"].push(f); }
  void allocF(J& s, int eng, int mx = 4000) {
    if (eng == 2) return;
    int n = g.p(50) ? g.r(40) : g.p(60) ? g.r(300) : g.r(mx);
    addF(s, fault("alloc", n, 0, g.p(25)));
  }
  void saveF(J& s, const std::set<std::string>& kinds) {
    std::vector<std::string> v(kinds.begin(), kinds.end());
    std::string k = g.of(v);
    static const std::vector<int> oe = {13, 28, 24, 30, 5, 122}, we = {28, 5, 122, 27};
    int w = g.p(70) ? 0 : g.r(4);
    if (k == "oerrw") addF(s, fault(k, g.p(70) ? 0 : g.r(4), g.of(oe), g.p(50)));
    else if (k == "werr") addF(s, fault(k, w, g.of(we), g.p(60)));
    else if (k == "full") addF(s, fault(k, g.p(30) ? g.r(8) : g.r(400)));
    else if (k == "cerr") addF(s, fault(k, g.p(80) ? 0 : g.r(4), g.of(std::vector<int>{5, 28, 122}), g.p(30)));
    else if (k == "nerr") addF(s, fault(k, 0, g.of(std::vector<int>{13, 28, 5, 18}), g.p(60)));
    else if (k == "wshort") { int m = g.in(1, 3); for (int i = 0; i < m; i++) addF(s, fault(k, w + i, g.lg(200))); }
    else if (k == "weintr") { int m = g.in(1, 3); for (int i = 0; i < m; i++) addF(s, fault(k, w + 2 * i)); }
    else if (k == "torn") addF(s, fault(k, w, 1 + g.lg(300)));
    else if (k == "crash") addF(s, fault(k, g.p(70) ? g.r(6) : g.r(14)));
    else if (k == "alloc") allocF(s, 0, 600);
    else if (k == "uerr") addF(s, fault(k, 0, 13, g.p(50)));
  }
  void loadF(J& s, const std::set<std::string>& kinds) {
    std::vector<std::string> v(kinds.begin(), kinds.end());
    std::string k = g.of(v);
    int w = g.p(60) ? 0 : g.r(6);
    if (k == "oerr") addF(s, fault(k, g.p(70) ? 0 : g.r(4), g.of(std::vector<int>{13, 24, 5, 23, 2}), g.p(50)));
    else if (k == "rerr") addF(s, fault(k, w, g.of(std::vector<int>{5, 21}), g.p(70)));
    else if (k == "rshort") { int m = g.in(1, 4); for (int i = 0; i < m; i++) addF(s, fault(k, w + i, g.in(1, 40))); }
    else if (k == "reintr") { int m = g.in(1, 3); for (int i = 0; i < m; i++) addF(s, fault(k, w + 2 * i)); }
    else if (k == "alloc") allocF(s, 0, 3000);
  }
  // ---- one step on an object
  struct Pol {
    W w;                 // operation weights
    int bad = 0;         // percent of training calls carrying an invalid sample
    int alloc = 0;       // percent of calls with a failing allocation
    int huge = 0;        // percent of saves that are file-backed
    int maxBatch = 4;
    int over = 0;        // percent of untrainings that may take back more than was trained
    std::set<std::string> saveFaults, loadFaults;
    int saveF = 0, loadF = 0;
  };
  void rec(Info& o, const VI& x, const std::string& l) { if (o.trained.size() < 60) { o.trained.push_back(x); o.tl.push_back(l); } }
  std::string label(Info& o) { return g.of(o.labels); }
  void batchOf(Info& o, const Pol& P, VVI& xs, std::vector<std::string>& ls, bool packed = false) {
    int n = crowd && g.p(40) ? g.in(20, 90) : g.in(1, P.maxBatch);
    for (int i = 0; i < n; i++) { VI x = image(o); if (packed) for (auto& v : x) v = v ? 1 : 0; std::string l = label(o); xs.push_back(x); ls.push_back(l); }
    if (g.p(P.bad)) {
      int at = g.p(50) ? n - 1 : g.r(n), k = packed ? g.r(2) : g.r(8);
      if (k == 7) { if (g.p(50)) ls.pop_back(); else ls.push_back(label(o)); }
      else if (packed && k == 0) ls[at] = "";
      else xs[at] = badImage(o);
      if (packed) for (auto& v : xs[at]) v = v ? 1 : 0;
      if (k == 6) ls[at] = g.p(50) ? "new1" : "new2";
    } else for (int i = 0; i < n; i++) rec(o, xs[i], ls[i]);
  }
  VI query(Info& o) {
    if (o.trained.size() && g.p(60)) { VI x = g.of(o.trained); if (x.size() && g.p(30)) x[g.r((int)x.size())] = g.r(o.base); return x; }
    return image(o);
  }
  int many(int most) { return std::min(most, g.of(std::vector<int>{15, 60, 100, 127, 128, 255, 256, 257, 300, 999, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 66000})); }
  std::string prefix() { return prefixes.empty() ? "p" : g.of(prefixes); }
  void step(Info& o, const Pol& P) {
    std::string k = g.wp(P.w);
    if (k == "train") {
      J s;
      if (o.t == 'D') {
        int q = g.r(10);
        if (q < 6) { s = op("trainD", o.id); VI x = g.p(P.bad) ? badImage(o) : image(o); s["x"] = imgJ(x); rec(o, x, ""); }
        else if (q < 8) { s = op("trainB", o.id); VI x = g.p(P.bad) ? badImage(o) : image(o); for (auto& v : x) v = v ? 1 : 0; s["x"] = imgJ(x); rec(o, x, ""); }
        else { s = op("trainND", o.id); VVI xs; int n = g.in(1, P.maxBatch); for (int i = 0; i < n; i++) { xs.push_back(image(o)); rec(o, xs.back(), ""); } if (g.p(P.bad)) xs[g.r(n)] = badImage(o); s["x"] = imgs(xs); }
        if (g.p(P.bad / 4)) { s = op("trainND", o.id); s["x"] = imgs(VVI()); }
      } else if (o.t == 'W' || g.p(60)) {
        bool ds = o.t == 'W' && g.p(25);
        VVI xs; std::vector<std::string> ls;
        batchOf(o, P, xs, ls, ds);
        if (ds && xs.size() != ls.size()) ls.resize(xs.size(), label(o));
        s = op(ds ? "trainS" : "train", o.id);
        s["x"] = imgs(xs); s["l"] = strs(ls);
      } else {
        VVI xs; std::vector<std::string> ls;
        batchOf(o, P, xs, ls);
        s = op("trainMap", o.id);
        s["x"] = imgs(xs);
        J m = J::arr();
        int n = (int)xs.size(), nl = 0;
        for (int i = 0; i < n; i++) if (g.p(55)) { J e = J::arr(); e.push(J(i)); e.push(J(enc(label(o)))); m.push(e); nl++; }
        if (!nl && g.p(90)) { J e = J::arr(); e.push(J(g.r(n))); e.push(J(enc(label(o)))); m.push(e); nl++; }
        if (g.p(12)) { J e = J::arr(); e.push(J(g.p(50) ? n + g.r(3) : -1 - g.r(2))); e.push(J(enc(label(o)))); m.push(e); }
        s["m"] = m;
      }
      if (g.p(P.alloc)) allocF(s, o.eng);
      else if (prop != "C08" && g.r(crowd ? 12 : 700) == 0 && o.entry < 400) s["rep"] = J(many(o.t == 'C' && !g.p(12) ? 300 : 70000));
      emit(s);
    } else if (k == "trainU" && o.t == 'C') {
      VVI xs; std::vector<std::string> ls;
      batchOf(o, P, xs, ls);
      J s = op("trainU", o.id);
      s["x"] = imgs(xs);
      if (g.p(P.alloc)) allocF(s, o.eng);
      emit(s);
    } else if (k == "untrain") {
      if (o.t == 'D') {
        J s = op("untrain", o.id);
        bool ov = g.p(P.over);
        s["x"] = imgJ(g.p(P.bad) ? badImage(o) : ov && g.p(40) ? query(o) : o.trained.size() ? g.of(o.trained) : image(o));
        if (ov) s["over"] = J(true);
        if (g.p(P.alloc)) allocF(s, o.eng);
        emit(s);
      } else if (o.t == 'W' && o.trained.size()) {
        if (g.p(60)) {
          int i = g.r((int)o.trained.size());
          J s = op("leave1", o.id);
          bool ov = g.p(P.over);
          s["x"] = imgJ(g.p(P.bad) ? badImage(o) : ov && g.p(40) ? query(o) : o.trained[i]); s["l"] = J(enc(g.p(8) ? "unknown" : o.tl[i]));
          if (ov) s["over"] = J(true);
          if (g.p(P.alloc)) allocF(s, o.eng);
          emit(s);
        } else {
          VVI xs; std::vector<std::string> ls;
          int n = crowd ? g.in(1, 60) : g.p(80) ? g.in(1, 3) : g.in(4, 9);
          for (int j = 0; j < n; j++) { int i = g.r((int)o.trained.size()); xs.push_back(o.trained[i]); ls.push_back(g.p(8) ? "unknown" : o.tl[i]); }
          if (g.p(P.bad)) { if (g.p(30)) ls.push_back("a"); else xs[n - 1] = badImage(o); }
          J s = op("leaveN", o.id);
          s["x"] = imgs(xs); s["l"] = strs(ls);
          if (g.p(P.alloc)) allocF(s, o.eng);
          emit(s);
        }
      }
    } else if (k == "query") {
      J s;
      if (o.t == 'D') { s = op("votes", o.id); VI x = g.p(P.bad / 3) ? badImage(o) : query(o); s["x"] = imgJ(x); if (packable(x) && g.p(30)) s["b"] = J(true); }
      else {
        VVI xs;
        int n = crowd && g.p(20) ? g.in(5, 300) : g.in(1, 4);
        for (int i = 0; i < n; i++) xs.push_back(g.p(P.bad / 6) ? badImage(o) : query(o));
        bool b = o.t == 'W' && g.p(25);
        for (auto& x : xs) if (!packable(x)) b = false;
        bool u = o.t == 'C' && g.p(30);
        s = op(u ? "classU" : "classify", o.id);
        s["x"] = imgs(xs);
        if (b) s["b"] = J(true);
        if (prop != "C08" && !plan.flag("nm") && g.r(crowd ? 60 : 2500) == 0 && o.entry < 100) s["rep"] = J(many(70000));
      }
      if (g.p(P.alloc)) allocF(s, o.eng);
      emit(s);
    } else if (k == "mental") {
      J s = op("mental", o.id);
      if (o.t == 'C' && g.p(40)) s["l"] = J(enc(g.p(20) ? "unknown" : label(o)));
      if (g.p(P.alloc)) allocF(s, o.eng);
      emit(s);
    } else if (k == "state") emit(op("state", o.id));
    else if (k == "look") {
      J s = op(g.p(40) && o.t == 'D' ? "nums" : g.p(50) ? "cfg" : "size", o.id);
      if (g.p(P.alloc)) allocF(s, o.eng);
      emit(s);
    } else if (k == "save") {  // as text or files, without keeping it
      J s = op("json", o.id);
      saveForm(s, P);
      if (g.p(P.alloc)) allocF(s, o.eng);
      emit(s);
    } else if (k == "restore") restore(o, P);
    else if (k == "restart") {
      if (g.p(50)) restore(o, P, true);
    } else if (k == "tick") {
      J s = op("tick");
      s["p"] = J(o.proc);
      if (g.p(70)) s["dt"] = J(g.in(0, 100)); else s["set"] = J((long)(g.p(50) ? g.r(2000000000) : g.p(50) ? 0 : 4294967295L));
      emit(s);
    }
  }
  int saveForm(J& s, const Pol& P) {
    int form = g.p(P.huge) ? g.in(3, 4) : g.r(3);
    s["form"] = J(form);
    if (form == 4 || form == 2) s["path"] = J(enc(prefix()));
    if (form >= 3 && P.saveFaults.size() && g.p(P.saveF)) saveF(s, P.saveFaults);
    return form;
  }
  void restore(Info& o, const Pol& P, bool restart = false, bool keep = false) {
    J s = op("json", o.id);
    int slot = nextSlot++;
    s["slot"] = J(slot);
    saveForm(s, P);
    emit(s);
    if (restart) { J r = op("restart"); r["p"] = J(o.proc); emit(r); }
    J l = op("load", nextId++);
    l["slot"] = J(slot);
    l["from"] = J(o.eng);
    int e = eng(), pr = g.r(nproc);
    l["e"] = J(e); l["p"] = J(pr);
    if (P.loadFaults.size() && g.p(P.loadF)) loadF(l, P.loadFaults);
    emit(l);
    if (!keep) { o.id = nextId - 1; o.eng = e; o.proc = pr; }
  }
  void probes(Info& o, int n) {  // look at an object from outside
    Pol P;
    P.w = W{{"query", 6}, {"mental", 2}};
    for (int i = 0; i < n; i++) step(o, P);
  }

  // ---- data sets and handles
  std::string someLabel() {
    static const std::vector<std::string> l = {"a", "b", "cold", "a.b", "x#y", ".", "#", "==", "", "\xc3\xa7", "long label with spaces and more text in it", "AAAA", "0", "a::b"};
    if (g.p(6)) { std::string s; int n = g.in(1, 20); for (int i = 0; i < n; i++) s += (char)g.in(0, 255); return s; }
    if (g.p(4)) return std::string("a\0b", 3);
    if (g.p(crowd ? 10 : 2)) return std::string(g.of(std::vector<int>{127, 128, 255, 256, 257, 1000}), 'k') + std::to_string(g.r(3));
    if (crowd && g.r(500) == 0) return std::string(g.in(33000, 140000), 'k') + std::to_string(g.r(3));
    return g.of(l);
  }
  VI bits(int n) { VI x(n); int d = g.in(0, 100); for (auto& v : x) v = g.p(d); return x; }
  void fillS(int id, int e, int n) {
    int sz = g.in(1, 40);
    if (crowd && n && g.p(30)) n = g.in(250, 700);
    for (int i = 0; i < n; i++) {
      J s = op("add", id);
      s["x"] = imgJ(bits(g.p(60) ? sz : g.p(8) ? (g.r(80) ? g.in(300, 3000) : g.in(65530, 66500)) : g.in(1, 70)));
      if (g.p(65)) { std::string l = someLabel(); if (e == 2) for (auto& c : l) if ((unsigned char)c > 127) c = 'u'; if (l.size()) s["l"] = J(enc(l)); }
      if (g.p(25)) s["b"] = J(true);
      if (crowd && !swollen && g.r(250) == 0) {
        swollen = true; s["x"] = imgJ(bits(g.in(1, 6))); s["rep"] = J(many(70000)); }
      emit(s);
    }
  }
  int rams_ = 5;
  std::string ramText(int rams, bool big = false) {
    std::string t;
    if (crowd) rams = g.of(std::vector<int>{10, 17, 63, 65, 100, 127, 128, 129, 255, 256, 257, 300});
    rams_ = std::max(rams, 5);
    for (int i = 0; i < rams; i++) {
      Cells c;
      int n = g.p(15) ? 0 : g.in(1, big ? 40 : 6);
      if (crowd && g.r(600) == 0) n = g.in(3000, 12000);
      for (int k = 0; k < n; k++) c[g.p(85) ? (u64)g.r(n > 64 ? 3 * n : 64) : g.next() >> g.r(60)] = g.p(80) ? g.in(1, 9) : g.in(-3, 2000000000);
      if (i) t += ".";
      t += ramenc(c);
    }
    return t;
  }
  void procs(int n, bool same = false) {
    nproc = n;
    J a = J::arr();
    long r0 = (long)(g.next() >> 2), c0 = g.p(70) ? 1700000000 + g.r(1000000) : g.p(50) ? g.r(100) : (long)(g.next() >> 33);
    for (int i = 0; i < n; i++) {
      J e = J::arr();
      e.push(J(same || g.p(50) ? r0 : (long)(g.next() >> 2)));
      e.push(J(same || g.p(60) ? c0 : c0 + g.in(-2, 2)));
      a.push(e);
    }
    plan["procs"] = a;
    plan["salt"] = J((long)(g.next() >> 8));
    if (g.p(25)) plan["rngmode"] = J(1);
  }
  // ---- properties
  void c01() {
    cats({"votes", "wide", "state"});
    procs(g.in(1, 2));
    prefixes = {"p", "q", "/sim/d/x"};
    large = true;
    Info o = g.p(8) ? fixtures("DW", 60) : g.p(12) ? newM('W', false, true) : newD(true, !g.p(4));
    Pol P;
    P.w = W{{"train", 10}, {"untrain", 4}, {"query", 10}, {"look", 1}, {"mental", 1}, {"tick", 1}, {"restore", g.p(60) ? 2 : 0}, {"save", 1}};
    P.bad = g.p(50) ? 0 : g.in(5, 40);
    P.huge = g.p(40) ? 40 : 0;
    int n = longer(g.in(6, 45));
    for (int i = 0; i < n; i++) step(o, P);
    if (o.t != 'D') { emit(op("state", o.id)); return; }
    for (int i = 0; i < 3; i++) { J s = op("votes", o.id); s["x"] = imgJ(query(o)); emit(s); }
  }
  void c02() {
    large = !crowd && !marathon && g.p(40);
    cats({"class", "degrees"});
    procs(g.in(1, 2));
    prefixes = {"p", "/sim/d/x"};
    Info o = g.p(8) ? fixtures("WWC", 70) : newM(g.p(60) ? 'W' : 'C', true, false);
    Pol P;
    P.w = W{{"train", 6}, {"untrain", 3}, {"query", 10}, {"look", 1}, {"tick", 1}, {"mental", 1}, {"restore", g.p(40) ? 1 : 0}, {"trainU", o.t == 'C' ? 2 : 0}};
    P.bad = g.p(60) ? 0 : 15;
    P.maxBatch = g.in(2, 8);
    int n = longer(g.in(5, 35));
    for (int i = 0; i < n; i++) step(o, P);
    Pol Q; Q.w = W{{"query", 1}};
    for (int i = 0; i < 4; i++) step(o, Q);
  }
  void c03() {
    large = !crowd && !marathon && g.p(40);
    cats({"restored", "cfg", "votes", "class", "mental", "map", "state"});
    procs(g.in(1, 3));
    prefixes = {"p"};
    if (g.p(15)) {
      Info o = fixtures();
      probes(o, 5);
      if (g.p(50)) { Pol P; P.w = W{{"train", 5}, {"query", 5}, {"mental", 1}, {"trainU", o.t == 'C' ? 2 : 0}, {"restore", 1}}; for (int i = 0, n = g.in(1, 6); i < n; i++) step(o, P); }
      emit(op("state", o.id));
      return;
    }
    pre = true;
    int k = g.r(3);
    Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, false);
    Pol P;
    P.w = W{{"train", 8}, {"untrain", 2}, {"query", 2}, {"mental", 1}, {"look", 1}, {"trainU", k == 2 ? 2 : 0}, {"tick", 1}};
    P.maxBatch = g.in(1, 6);
    if (g.p(25)) { P.over = g.in(20, 100); P.w["untrain"] = 6; }
    int n = longer(g.r(20));
    for (int i = 0; i < n; i++) step(o, P);
    probes(o, 2);
    Pol R;
    for (int i = 0, m = longer(g.in(1, 3)); i < m; i++) {
      Info orig = o;
      pre = true;
      probes(o, 1);
      pre = false;
      restore(o, R, g.p(30));
      Info keepi = o;
      emit(op("state", o.id));
      probes(o, 3);
      if (o.t == 'W' && g.p(60)) o.labels.push_back(g.p(50) ? "new1" : "new2");
      Pol Q;
      Q.w = W{{"train", 6}, {"untrain", 2}, {"query", 5}, {"mental", 1}, {"state", 1}, {"look", 1}, {"trainU", k == 2 ? 1 : 0}};
      int q = g.r(8);
      for (int j = 0; j < q; j++) step(o, Q);
      emit(op("state", o.id));
      (void)orig; (void)keepi;
    }
  }
  Info fixtures(const char* kinds = "DWC", int big = 25) {
    J s = op("fixture", nextId++);
    char t = kinds[g.r((int)strlen(kinds))];
    bool weights = g.p(big) && (t != 'C' || plan.flag("nm"));
    Info o;
    o.id = nextId - 1; o.t = t; o.eng = eng();
    shape(o, 24);
    s["t"] = J(std::string(1, t));
    s["e"] = J(o.eng); s["p"] = J(0); s["addr"] = J(o.addr);
    J q = J::obj();
    q["base"] = J(o.base);
    if (g.p(30)) q["ignoreZero"] = J(true);
    if (g.p(30)) q["completeAddressing"] = J(g.p(50));
    if (g.p(30)) q["bleachingActivated"] = J(false);
    if (g.p(30)) q["confidence"] = J(g.in(1, 3));
    s["opts"] = q;
    s["ms"] = J(0.25); s["thr"] = J(g.in(1, 5)); s["lim"] = J(g.in(1, 4));
    static const std::vector<std::string> vers = {"1.5.0", "1.6.0", "1.6.2", "1.6.3", "2.0.0"};
    s["ver"] = J(g.of(vers));
    if (g.p(30)) s["emptydata"] = J(true);
    auto disc = [&](const std::string& l) {
      J d = J::obj();
      d["entry"] = J(o.entry);
      VI p = perm(o.entry);
      J m = J::arr();
      for (int i = 0; i < o.entry / o.addr; i++) m.push(J(VI(p.begin() + i * o.addr, p.begin() + (i + 1) * o.addr)));
      d["map"] = m;
      J x = J::arr();
      int n = g.r(6);
      for (int i = 0; i < n; i++) { VI y = image(o); o.trained.push_back(y); o.tl.push_back(l); x.push(imgJ(y)); }
      d["x"] = x;
      if (weights) {
        J w = J::arr();
        for (int i = 0; i < n; i++) w.push(J(plan.flag("nm") && g.p(60) ? g.of(std::vector<int>{2147483647, 2147483646, 1000000000}) : g.p(60) ? g.of(std::vector<int>{1, 2, 15, 63, 99, 126, 127, 254, 255, 256, 999, 9999, 32766, 32767, 65534, 65535, 65536, 16777215, 16777216, 10000000, 30000000}) : g.in(1, 30)));
        d["w"] = w;
      }
      return d;
    };
    o.labels = labelPool(false);
    if (t == 'D') s["d"] = disc("");
    if (t == 'W') { J c = J::obj(); for (auto& l : o.labels) if (!c.has(enc(l))) c[enc(l)] = disc(l); if (g.p(10)) c = J::obj(); s["cls"] = c; }
    if (t == 'C') {
      J c = J::obj();
      for (auto& l : o.labels) if (!c.has(enc(l))) { J a = J::arr(); int n = crowd && g.p(15) ? g.in(120, 280) : g.in(1, 3); for (int i = 0; i < n; i++) a.push(disc(l)); c[enc(l)] = a; }
      s["clu"] = c;
      if (g.p(50)) { J a = J::arr(); int n = g.in(1, 3); for (int i = 0; i < n; i++) a.push(disc("")); s["uns"] = a; }
    }
    emit(s);
    return o;
  }
  // processes working on one directory at the same time, switched at their file-system calls
  void sharing(J& par, int n) {
    if (g.p(75)) par["io"] = J(true);
    bool io = par.has("io");
    J pre2 = J::arr();
    int k = g.r(4);
    long at = 0;
    if (k < 2) {  // in step
      int sl = k == 0 ? 1 : g.in(1, 6);
      for (int i = 0, m = io ? 300 : 3000; i < m; i++) { at += k == 0 ? 1 : g.in(1, sl); J e = J::arr(); e.push(J(at)); e.push(J(i % n)); pre2.push(e); }
    } else {
      long scale = (k == 2 ? 40 : 200) * (io ? 1 : 30);
      for (int i = 0, m = g.in(1, 25); i < m; i++) { J e = J::arr(); e.push(J((long)(g.next() % (uint64_t)scale))); e.push(J(g.r(n))); pre2.push(e); }
    }
    par["pre"] = pre2;
    par["first"] = J(g.r(n));
    if (g.p(15)) par["crash"] = J(g.r(g.p(50) ? 20 : 80));
  }
  void c04shared() {
    cats({"restored", "files", "stored"});
    auto all = engs;
    engs = g.p(50) ? std::vector<int>{g.r(2)} : std::vector<int>{0, 1};
    int n = g.in(2, 3);
    procs(n, g.p(75));
    prefixes = g.p(50) ? std::vector<std::string>{"p"} : std::vector<std::string>{"p", "q", "/sim/d/x"};
    pre = true;
    std::vector<Info> os;
    Pol T; T.w = W{{"train", 8}};
    bool twins = g.p(65);  // in the same state of clock and random generator, but with different counts
    if (twins) {
      fixedProc = 0;
      size_t a = steps.a.size();
      int k = g.r(3);
      os.push_back(k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true));
      for (int i = 0, m = g.in(1, 3); i < m; i++) step(os[0], T);
      J mine = J::arr();
      for (size_t j = a; j < steps.a.size(); j++) mine.push(steps.a[j]);
      for (int i = 1; i < n; i++) {
        Info o = os[0];
        o.id = nextId++; o.proc = i;
        for (auto s : mine.a) {
          bool train = s.str("op").compare(0, 5, "train") == 0;
          s["o"] = J(o.id);
          if (!train) s["p"] = J(i);
          for (int c = 0; c < (train ? i + 1 : 1); c++) emit(s);
        }
        os.push_back(o);
      }
    } else
      for (int i = 0; i < n; i++) {
        fixedProc = i;
        int k = g.r(3);
        os.push_back(k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true));
        for (int j = 0, m = g.in(0, 3); j < m; j++) step(os.back(), T);
      }
    for (auto& o : os) emit(op("state", o.id));
    pre = false;
    std::vector<std::pair<int, int>> saved;
    auto snapshot = [&](Info& o) {
      J s = op("json", o.id);
      int form = g.p(50) ? 3 : 4;
      s["form"] = J(form);
      if (form == 4) s["path"] = J(enc(prefix()));
      s["slot"] = J(nextSlot);
      emit(s);
      saved.push_back(std::make_pair(nextSlot++, o.eng));
    };
    if (g.p(30)) snapshot(os[g.r(n)]);
    J par = op("par"), tasks = J::arr();
    for (int i = 0; i < n; i++) {
      J save = steps;
      steps = J::arr();
      nextId = 100 * (i + 1); nextSlot = 100 * (i + 1);
      fixedProc = i;
      for (int j = 0, m = g.in(1, 4); j < m; j++) {
        int w = g.r(10);
        if (w < 7 || saved.empty()) snapshot(os[i]);
        else if (w < 8) step(os[i], T);
        else { J l = op("load", nextId++); l["slot"] = J(g.of(saved).first); l["e"] = J(eng()); l["from"] = J(os[i].eng); l["p"] = J(i); emit(l); }
      }
      tasks.push(steps);
      steps = save;
    }
    par["tasks"] = tasks;
    sharing(par, n);
    emit(par);
    engs = all;
    nextId = 1000;
    for (auto& s : saved) {
      J l = op("load", nextId++);
      int e = eng();
      l["slot"] = J(s.first); l["e"] = J(e); l["from"] = J(s.second); l["p"] = J(0);
      emit(l);
    }
  }
  void c16shared() {
    cats({"stored", "restored"});
    auto all = engs;
    engs = g.p(50) ? std::vector<int>{g.r(2)} : std::vector<int>{0, 1};
    int n = g.in(2, 3);
    procs(n, g.p(75));
    std::vector<std::string> paths = g.p(80) ? std::vector<std::string>{"s"} : std::vector<std::string>{"s", "/sim/d/t"};
    std::vector<int> ids;
    int first = g.r(3);
    for (int i = 0; i < n; i++) {
      int id = nextId++, e = eng();
      J s = op("newS", id); s["e"] = J(e); s["p"] = J(i); emit(s);
      fillS(id, e, g.p(12) ? g.in(60, 200) : g.in(0, 8));
      ids.push_back(id);
      if (i < first) { J v = op("save", id); v["path"] = J(g.of(paths)); emit(v); }
    }
    J par = op("par"), tasks = J::arr();
    for (int i = 0; i < n; i++) {
      J save = steps;
      steps = J::arr();
      nextId = 100 * (i + 1);
      for (int j = 0, m = g.in(1, 4); j < m; j++) {
        int w = g.r(10);
        if (w < 6) { J v = op("save", ids[i]); v["path"] = J(g.of(paths)); emit(v); }
        else if (w < 9) { J l = op("loadS", nextId++); l["path"] = J(g.of(paths)); l["e"] = J(eng()); l["p"] = J(i); emit(l); }
        else fillS(ids[i], engs[0], 1);
      }
      tasks.push(steps);
      steps = save;
    }
    par["tasks"] = tasks;
    sharing(par, n);
    emit(par);
    engs = all;
    nextId = 1000;
    for (int i = 0; i < 2; i++)
      for (auto& p : paths) { J l = op("loadS", nextId++); l["path"] = J(p); l["e"] = J(eng()); l["p"] = J(0); emit(l); }
  }
  void c04() {
    if (g.p(15)) return c04shared();
    cats({"restored", "files", "stored"});
    procs(g.in(1, 4), g.p(60));
    prefixes = g.p(50) ? std::vector<std::string>{"p"} : std::vector<std::string>{"p", "q", "/sim/d/x", "p_", "d/y"};
    if (g.p(10)) prefixes.push_back("nodir/x");
    pre = true;
    std::vector<Info> os;
    int n = g.in(1, 3);
    for (int i = 0; i < n; i++) { int k = g.r(3); os.push_back(k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, g.p(85))); }
    Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 1}};
    if (g.p(15)) { T.over = 50; T.w["untrain"] = 4; }
    for (auto& o : os) for (int i = 0, m = g.in(0, 4); i < m; i++) step(o, T);
    std::vector<std::pair<int, int>> saved;  // slot, engine
    int m = longer(g.in(2, 14));
    for (int i = 0; i < m; i++) {
      Info& o = os[g.r(n)];
      int q = g.r(10);
      pre = true;
      if (q < 2) { step(o, T); continue; }
      if (q < 3) { J s = op("tick"); s["p"] = J(g.r(nproc)); if (g.p(60)) s["dt"] = J(g.in(-3, 3)); else s["set"] = J((long)1700000000); emit(s); continue; }
      if (q < 4 && saved.size() > 1) {
        J l = op("load", 500 + i);
        l["slot"] = J(g.of(saved).first); int e = eng(); l["e"] = J(e); l["from"] = J(e); l["p"] = J(g.r(nproc));
        pre = false; emit(l); pre = true; continue;
      }
      // the same snapshot taken by a model that is in the same state: make sure it is
      emit(op("state", o.id));
      pre = false;
      J s = op("json", o.id);
      int form = g.p(50) ? 3 : 4;
      s["form"] = J(form);
      if (form == 4) s["path"] = J(enc(prefix()));
      s["slot"] = J(nextSlot);
      if (g.p(6)) saveF(s, {"oerrw", "werr", "full", "crash", "torn"});
      emit(s);
      saved.push_back(std::make_pair(nextSlot++, o.eng));
      if (g.p(15)) { J r = op("restart"); r["p"] = J(g.r(nproc)); emit(r); }
    }
    pre = false;
    for (auto& s : saved) {
      J l = op("load", nextId);
      Info o; o.id = nextId++;
      l["slot"] = J(s.first); int e = eng(); l["e"] = J(e); l["from"] = J(s.second); l["p"] = J(0);
      emit(l);
    }
  }
  void c05() {
    cats({"stored", "any", "state", "votes", "class"});
    procs(g.in(1, 2));
    prefixes = {"p", "/sim/d/x", "nodir/x"};
    std::set<std::string> all = {"oerrw", "werr", "full", "cerr", "wshort", "weintr", "nerr"}, kinds;
    for (auto& k : all) if (g.p(60)) kinds.insert(k);
    if (kinds.empty()) kinds.insert("werr");
    pre = true;
    int q = g.r(3);
    if (q == 0) {  // data set
      int id = nextId++, e = eng();
      J s = op("newS", id); s["e"] = J(e); emit(s);
      fillS(id, e, g.p(20) ? g.in(30, 120) : g.in(0, 12));
      for (int i = 0, m = g.in(1, 4); i < m; i++) {
        pre = true; emit(op("rows", id)); pre = false;
        J v = op("save", id);
        v["path"] = J(g.p(80) ? "s" : g.p(60) ? "/sim/d/t" : "nodir/s");
        if (g.p(80)) saveF(v, kinds);
        emit(v);
        emit(op("rows", id));
        if (g.p(40)) { pre = true; fillS(id, e, g.in(1, 3)); }
      }
    } else if (q == 1) {
      int id = nextId++, e = engs[g.r((int)engs.size())];
      if (e == 2) e = 0;
      J s = op("newH", id); s["e"] = J(e); s["text"] = J(ramText(g.in(1, 8), g.p(30))); emit(s);
      for (int i = 0, m = g.in(1, 4); i < m; i++) {
        pre = true; emit(op("hcheck", id)); pre = false;
        J v = op("hsave", id);
        v["path"] = J(g.p(80) ? "h" : g.p(60) ? "/sim/d/h" : "nodir/h");
        if (g.p(80)) saveF(v, kinds);
        emit(v);
        emit(op("hcheck", id));
      }
    } else {
      int k = g.r(3);
      Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true);
      Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 1}}; T.maxBatch = g.p(30) ? 40 : 5;
      for (int i = 0, m = g.in(0, 5); i < m; i++) step(o, T);
      for (int i = 0, m = g.in(1, 4); i < m; i++) {
        pre = true; emit(op("state", o.id)); probes(o, 1); Info same = o; pre = false;
        J v = op("json", o.id);
        v["form"] = J(g.p(50) ? 3 : 4);
        if (v.num("form") == 4) v["path"] = J(enc(prefix()));
        if (g.p(85)) saveF(v, kinds);
        emit(v);
        emit(op("state", o.id));
        if (g.p(50)) probes(o, 1);
        if (g.p(40)) { pre = true; step(o, T); }
      }
    }
  }
  void c06() {
    cats({"restored"});
    procs(g.in(1, 2));
    prefixes = {"p", "/sim/d/x"};
    std::set<std::string> all = {"oerr", "rerr", "rshort", "reintr"}, kinds;
    for (auto& k : all) if (g.p(60)) kinds.insert(k);
    if (kinds.empty()) kinds.insert("rerr");
    pre = true;
    int q = g.r(3);
    auto cutD = [&]() { J d = J::arr(); J e = J::arr(); e.push(J(g.p(50) ? "cut" : "cutend")); e.push(J(g.p(50) ? g.in(0, 20) : g.r(4000))); d.push(e); return d; };
    if (q == 0 || q == 1) {
      bool ds = q == 0;
      int id = nextId++, e = eng();
      if (!ds && e == 2) e = 0;
      std::string path = g.p(70) ? "s" : "/sim/d/t", ext = ds ? ".wpkds" : ".wdpkg";
      if (ds) { J s = op("newS", id); s["e"] = J(e); emit(s); fillS(id, e, g.p(25) ? g.in(40, 150) : g.in(0, 10)); }
      else { J s = op("newH", id); s["e"] = J(e); s["text"] = J(ramText(g.in(1, 8), g.p(40))); emit(s); }
      emit(ds ? op("rows", id) : op("hcheck", id));
      if (g.p(85)) { J v = op(ds ? "save" : "hsave", id); v["path"] = J(path); emit(v); }
      for (int i = 0, m = g.in(1, 4); i < m; i++) {
        int w = g.r(8);
        pre = false;
        if (w == 0) { J s = op("rmfile"); s["path"] = J(path + ext); emit(s); }
        else if (w == 1) { J s = op("damage"); s["path"] = J(path + ext); s["d"] = cutD(); emit(s); }
        else if (w == 2) { J s = op("rmfile"); s["path"] = J(path + ext); emit(s); J t = op("mkdir"); t["path"] = J(path + ext); emit(t); }
        J l = op(ds ? "loadS" : "hload", nextId++);
        l["path"] = J(g.p(8) ? "nothere" : g.p(4) ? "nodir/x" : path); l["e"] = J(eng());
        if (g.p(65)) loadF(l, kinds);
        emit(l);
      }
    } else {
      int k = g.r(3);
      Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true);
      Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 1}}; T.maxBatch = g.p(30) ? 30 : 5;
      for (int i = 0, m = g.in(0, 5); i < m; i++) step(o, T);
      emit(op("state", o.id));
      int slot = nextSlot++;
      J v = op("json", o.id);
      v["form"] = J(g.p(80) ? g.in(3, 4) : 0);
      if (v.num("form") == 4) v["path"] = J(enc(prefix()));
      v["slot"] = J(slot);
      emit(v);
      for (int i = 0, m = g.in(1, 3); i < m; i++) {
        int w = g.r(6);
        pre = false;
        if (w == 0) { J s = op("rmdata"); s["slot"] = J(slot); s["i"] = J(g.r(6)); if (g.p(30)) s["dir"] = J(true); emit(s); }
        else if (w == 1) { J s = op("damage"); s["slot"] = J(slot); s["file"] = J(true); s["i"] = J(g.r(6)); s["d"] = cutD(); emit(s); }
        else if (w == 2 && g.p(40)) { J s = op("damage"); s["slot"] = J(slot); s["d"] = cutD(); emit(s); }
        J l = op("load", nextId++);
        l["slot"] = J(slot); l["e"] = J(eng()); l["p"] = J(0); l["from"] = J(o.eng);
        if (g.p(65)) loadF(l, kinds);
        emit(l);
      }
    }
  }
  J hurtList(bool text) {
    J d = J::arr();
    int n = g.p(60) ? 1 : g.in(2, 6);
    if (text && g.p(4)) {
      J e = J::arr();
      bool ob = g.p(30);
      e.push(J("nest")); e.push(J(g.r(100000))); e.push(J(g.p(50) ? g.in(1, 200) : g.of(std::vector<int>{3000, 20000, 100000})));
      e.push(J(ob ? "{%22a%22:" : "[")); e.push(J(g.p(50) ? ob ? "}" : "]" : ""));
      if (ob) e.a[3] = J("{\"a\":");
      d.push(e);
      return d;
    }
    static const std::vector<std::string> keys = {"entrySize", "addressSize", "base", "count", "confidence", "minScore", "threshold", "discriminatorsLimit", "mapping", "indexes", "data", "classes", "clusters", "discriminators", "unsupervisedCluster", "version", "ignoreZero", "verbose", "bleachingActivated", "completeAddressing", "returnConfidence"};
    static const std::vector<std::string> vals = {"0", "-1", "1", "2147483647", "-2147483648", "4294967296", "1e300", "null", "\"\"", "[]", "{}", "[[]]", "[[0]]", "[[-1]]", "[[2147483647,5]]", "true", "\"AAAA\"", "\"x.wdpkg\"", "\".wdpkg\"", "0.5", "\"=\"", "3", "\".\"", "\"...\"", "\"AAAAAAAAAAABAAAA\"", "\"AAAAAAAAAAD/////.\"", "1000000", "[[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40]]"};
    for (int i = 0; i < n; i++) {
      J e = J::arr();
      int k = g.r(text ? 14 : 10);
      if (k < 2) { e.push(J("flip")); e.push(J(g.r(100000))); e.push(J(g.r(8))); }
      else if (k < 3) { e.push(J("set")); e.push(J(g.r(100000))); e.push(J(g.p(50) ? g.r(256) : (int)".#=A/\"[]{},-0"[g.r(13)])); }
      else if (k < 4) { e.push(J("cut")); e.push(J(g.r(100000))); }
      else if (k < 5) { e.push(J("cutend")); e.push(J(g.in(1, 20))); }
      else if (k < 6) { e.push(J("zero")); e.push(J(g.r(100000))); e.push(J(g.in(1, 30))); }
      else if (k < 7) { e.push(J("del")); e.push(J(g.r(100000))); e.push(J(g.in(1, 30))); }
      else if (k < 8) { e.push(J("dup")); e.push(J(g.r(100000))); e.push(J(g.r(64))); }
      else if (k < 9) { e.push(J("swap")); e.push(J(g.r(100000))); e.push(J(0)); e.push(J(g.r(100000))); }
      else if (k < 10) { e.push(J("ins")); e.push(J(g.r(100000))); e.push(J(g.of(std::vector<std::string>{".", "#", "=", "A", "AAAA", "%00", "..", "==", "9"}))); }
      else if (k < 12) { e.push(J("num")); e.push(J(g.r(1000))); e.push(J(g.of(vals))); }
      else { e.push(J("val")); e.push(J(g.of(keys))); e.push(J(g.of(vals))); }
      d.push(e);
    }
    return d;
  }
  void weird(Info& o, int n) {  // use an object hard, whatever it holds
    for (int i = 0; i < n; i++) {
      int k = g.r(12);
      J s;
      if (k < 3) { s = op(o.t == 'D' ? "votes" : "classify", o.id); if (o.t == 'D') s["x"] = imgJ(image(o)); else s["x"] = imgs({image(o)}); }
      else if (k < 4 && o.t == 'C') { s = op("classU", o.id); s["x"] = imgs({image(o)}); }
      else if (k < 6) { if (o.t == 'D') { s = op("trainD", o.id); s["x"] = imgJ(image(o)); } else { s = op("train", o.id); s["x"] = imgs({image(o)}); s["l"] = strs({label(o)}); } }
      else if (k < 7) { s = op("mental", o.id); }
      else if (k < 8) { s = op("json", o.id); s["form"] = J(g.r(5)); if (s.num("form") == 4) s["path"] = J("w"); }
      else if (k < 9) { s = op(g.p(50) ? "cfg" : "size", o.id); }
      else if (k < 10) { if (o.t == 'D') { s = op("untrain", o.id); s["x"] = imgJ(image(o)); } else if (o.t == 'W') { s = op("leave1", o.id); s["x"] = imgJ(image(o)); s["l"] = J(enc(label(o))); } else { s = op("trainU", o.id); s["x"] = imgs({image(o)}); } }
      else if (k < 11) { s = op("mental", o.id); if (o.t == 'C') s["l"] = J(enc(label(o))); }
      else { int id = nextId++; s = op("clone", id); s["from"] = J(o.id); }
      emit(s);
    }
  }
  void c07() {
    plan["nm"] = J(true);
    cats({});
    procs(1);
    prefixes = {"p"};
    int q = g.r(10);
    if (q < 6) {
      int k = g.r(3);
      Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true);
      Pol T; T.w = W{{"train", 8}, {"trainU", 2}}; T.maxBatch = 3;
      for (int i = 0, m = g.in(0, 3); i < m; i++) step(o, T);
      int slot = nextSlot++;
      J v = op("json", o.id);
      v["form"] = J(g.p(35) ? 3 : 0);
      v["slot"] = J(slot);
      emit(v);
      J s = op("damage"); s["slot"] = J(slot);
      if (v.num("form") == 3 && g.p(70)) { s["file"] = J(true); s["i"] = J(g.r(5)); s["d"] = hurtList(false); }
      else s["d"] = hurtList(true);
      emit(s);
      J l = op("load", nextId++);
      l["slot"] = J(slot); l["e"] = J(eng());
      emit(l);
      Info d = o; d.id = nextId - 1;
      weird(d, g.in(3, 8));
    } else if (q < 8) {
      int id = nextId++;
      J s = op("newS", id); s["e"] = J(eng()); emit(s);
      fillS(id, 0, g.in(0, 6));
      J v = op("save", id); v["path"] = J("s"); emit(v);
      J m = op("damage"); m["path"] = J("s.wpkds"); m["d"] = hurtList(false); emit(m);
      int l = nextId++;
      J a = op("loadS", l); a["path"] = J("s"); a["e"] = J(eng()); emit(a);
      for (int i = 0; i < 5; i++) { J t = op("dsget", l); t["i"] = J(g.in(-1, 7)); t["q"] = J(g.r(3)); emit(t); }
      J w = op("save", l); w["path"] = J("t"); emit(w);
    } else if (q < 9) {
      std::string t = ramText(g.in(0, 5));
      int id = nextId++;
      J m = op("mkfile"); m["path"] = J("h.wdpkg"); m["c"] = J(t); emit(m);
      J d = op("damage"); d["path"] = J("h.wdpkg"); d["d"] = hurtList(false); emit(d);
      J a = op("hload", id); a["path"] = J("h"); a["e"] = J(eng()); emit(a);
      for (int i = 0; i < 6; i++) { J s = op(g.p(40) ? "hset" : "hget", id); s["r"] = J(g.in(-1, 6)); s["a"] = J(g.in(-1, 70)); s["v"] = J(g.in(-1, 5)); emit(s); }
      J b = op("hdata", nextId++); b["from"] = J(id); emit(b);
    } else {
      int id = nextId++;
      J s = op("rawload", id);
      std::string raw;
      raw += (char)(g.p(60) ? g.r(8) : g.r(256));
      for (int i = 0, n = g.r(20); i < n; i++) raw += (char)g.r(256);
      std::string t = b64enc(raw);
      if (g.p(50)) for (int i = 0, n = g.in(1, 3); i < n && t.size(); i++) { int w = g.r(4); size_t at = g.r((int)t.size()); if (w == 0) t.erase(at, 1); else if (w == 1) t[at] = (char)g.r(256); else if (w == 2) t.insert(at, "="); else t.resize(at); }
      s["t"] = J("B"); s["text"] = J(enc(t)); s["e"] = J(eng());
      emit(s);
      J b = op("binops", id); b["w"] = J(g.p(50)); emit(b);
    }
  }
  void c08() {
    cats({"votes", "class", "mental", "state", "restored", "any", "map", "stored"});
    procs(1);
    prefixes = {"p", "q"};
    int n = g.in(2, 4);
    J par = op("par");
    J tasks = J::arr();
    if (g.p(12)) {  // copies of one object, each thread its own
      Info o = g.p(30) ? newD() : newM(g.p(60) ? 'W' : 'C', false, true, 0);
      Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 2}};
      for (int i = 0, m = g.in(1, 4); i < m; i++) step(o, T);
      std::vector<Info> os;
      for (int i = 0; i < n; i++) {
        Info c = o;
        if (i) { c.id = nextId++; J s = op("clone", c.id); s["from"] = J(o.id); emit(s); }
        os.push_back(c);
      }
      for (int i = 0; i < n; i++) {
        J save = steps;
        steps = J::arr();
        nextId = 100 * (i + 1); nextSlot = 100 * (i + 1);
        Pol P;
        P.w = W{{"train", 8}, {"untrain", 2}, {"query", 5}, {"mental", 2}, {"state", 1}, {"restore", 1}, {"save", 1}, {"trainU", 1}};
        P.huge = g.p(30) ? 30 : 0;
        P.maxBatch = 3;
        for (int j = 0, m = g.in(2, 7); j < m; j++) step(os[i], P);
        emit(op("state", os[i].id));
        if (g.p(30)) emit(op("del", os[i].id));
        tasks.push(steps);
        steps = save;
      }
    } else if (g.p(50)) {  // different objects
      std::vector<Info> os;
      for (int i = 0; i < n; i++) {
        J save = steps;
        steps = J::arr();
        nextId = 100 * (i + 1); nextSlot = 100 * (i + 1);
        int k = g.r(10);
        if (k < 7) {
          Info o = k < 3 ? newD() : newM(k < 5 ? 'W' : 'C', false, true, 0);
          Pol P;
          P.w = W{{"train", 8}, {"untrain", 2}, {"query", 5}, {"mental", 2}, {"state", 1}, {"restore", 2}, {"save", 1}, {"trainU", 1}};
          P.huge = g.p(30) ? 30 : 0;
          P.maxBatch = 3;
          for (int j = 0, m = g.in(2, 9); j < m; j++) step(o, P);
          emit(op("state", o.id));
        } else if (k < 8) {
          int id = nextId++;
          J s = op("newS", id); s["e"] = J(eng()); emit(s);
          fillS(id, 0, g.in(1, 6));
          std::string path = "s" + std::to_string(i);
          J v = op("save", id); v["path"] = J(path); emit(v);
          J l = op("loadS", nextId++); l["path"] = J(path); l["e"] = J(eng()); emit(l);
          emit(op("rows", nextId - 1)); emit(op("rows", id));
        } else if (k < 9) {
          int id = nextId++;
          J s = op("newH", id); s["e"] = J(eng()); s["text"] = J(ramText(g.in(1, 4))); emit(s);
          for (int j = 0; j < 4; j++) { J t = op(g.p(60) ? "hset" : "hget", id); t["r"] = J(g.r(4)); t["a"] = J(g.r(30)); t["v"] = J(g.in(1, 9)); emit(t); }
          emit(op("hcheck", id));
          J b = op("hdata", nextId++); b["from"] = J(id); emit(b);
        } else if (g.p(50)) canvas(true);
        else synth(g.in(2, 8));
        tasks.push(steps);
        steps = save;
      }
    } else {  // one model, only queried
      int k = g.r(4);
      pre = true;
      Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true, 0);
      Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 2}};
      for (int i = 0, m = g.in(1, 5); i < m; i++) step(o, T);
      emit(op("state", o.id)); probes(o, 2);
      pre = false;
      for (int i = 0; i < n; i++) {
        J save = steps;
        steps = J::arr();
        nextId = 100 * (i + 1); nextSlot = 100 * (i + 1);
        Pol P;
        P.w = W{{"query", 8}, {"mental", 3}, {"look", 2}, {"state", 2}, {"save", 2}};
        P.bad = 10;
        P.huge = g.p(30) ? 30 : 0;
        for (int j = 0, m = g.in(2, 6); j < m; j++) step(o, P);
        tasks.push(steps);
        steps = save;
      }
      par["tasks"] = tasks;
      schedule(par, n);
      emit(par);
      emit(op("state", o.id));
      return;
    }
    par["tasks"] = tasks;
    schedule(par, n);
    emit(par);
  }
  void schedule(J& par, int n) {
    J pre2 = J::arr();
    int kind = g.r(5);
    long scale = kind == 0 ? 300 : kind == 1 ? 3000 : kind == 2 ? 20000 : 100000;
    int k = g.p(20) ? g.in(100, 600) : g.in(1, 40);
    for (int i = 0; i < k; i++) { J e = J::arr(); e.push(J((long)(g.next() % (uint64_t)scale))); e.push(J(g.r(n))); pre2.push(e); }
    if (g.p(15)) {  // round robin in small slices
      pre2 = J::arr();
      long at = 0;
      int sl = g.in(1, 40);
      for (int i = 0; i < 2000; i++) { at += g.in(1, sl); J e = J::arr(); e.push(J(at)); e.push(J(i % n)); pre2.push(e); }
    }
    par["pre"] = pre2;
    par["first"] = J(g.r(n));
  }
  void c09() {
    cats({"map"});
    large = true;
    procs(g.in(1, 3));
    plan["rngmode"] = J(g.p(40) ? 1 : 0);
    int n = g.in(1, 3);
    std::vector<Info> os;
    for (int i = 0; i < n; i++) {
      int k = g.r(3);
      os.push_back(k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true));
      if (g.p(40)) { J s = op("tick"); s["p"] = J(g.r(nproc)); s["set"] = J((long)(g.p(30) ? 0 : g.p(30) ? -1 : (long)(g.next() >> 33))); emit(s); }
    }
    Pol P;
    P.w = W{{"train", 8}, {"untrain", 1}, {"query", 3}, {"mental", 1}, {"tick", 3}, {"state", 3}, {"restore", 1}, {"trainU", 2}, {"save", 1}};
    P.bad = g.p(50) ? 0 : 10;
    for (int i = 0, m = longer(g.in(3, 20)); i < m; i++) {
      step(os[g.r(n)], P);
      if (g.p(8)) { if (g.p(50)) canvas(true); else synth(2); }
    }
    for (auto& o : os) emit(op("state", o.id));
  }
  void c10() {
    large = !crowd && !marathon && g.p(40);
    cats({"state", "any"});
    procs(1);
    prefixes = {"p"};
    Info o = newM('C', false, false);
    Pol P;
    P.w = W{{"train", 10}, {"trainU", g.p(60) ? 6 : 0}, {"query", 1}, {"mental", 1}, {"tick", 1}, {"restore", g.p(40) ? 1 : 0}};
    P.maxBatch = g.in(1, 8);
    P.bad = g.p(70) ? 0 : 10;
    for (int i = 0, n = longer(g.in(3, 20)); i < n; i++) step(o, P);
    emit(op("state", o.id));
  }
  void c11() {
    cats({"fail", "reject", "votes", "class", "mental"});
    procs(1);
    if (g.p(8)) {  // entries that could not be added
      int id = nextId++;
      J s = op("newS", id); s["e"] = J(eng()); emit(s);
      for (int i = 0, n = g.in(1, 8); i < n; i++) {
        J a = op("add", id); a["x"] = imgJ(bits(g.p(30) ? g.in(300, 1000) : g.in(1, 60)));
        if (g.p(60)) { std::string l = someLabel(); if (g.p(40)) l += std::string(g.in(16, 60), 'z'); for (auto& c : l) if ((unsigned char)c > 127) c = 'u'; if (l.size()) a["l"] = J(enc(l)); }
        if (g.p(25)) a["b"] = J(true);
        if (g.p(60)) addF(a, fault("alloc", g.r(8), 0, g.p(25)));
        emit(a);
        if (g.p(40)) emit(op("rows", id));
      }
      emit(op("rows", id));
      return;
    }
    int k = g.r(3);
    pre = true;
    Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, true, 5);
    Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 1}};
    for (int i = 0, n = g.in(0, 4); i < n; i++) step(o, T);
    emit(op("state", o.id));
    pre = false;
    Pol P;
    P.w = W{{"train", 10}, {"untrain", 3}, {"trainU", 3}};
    P.bad = g.p(50) ? 45 : 0;
    P.alloc = P.bad == 0 ? 75 : g.p(50) ? 30 : 0;
    P.maxBatch = g.in(1, 5);
    for (int i = 0, n = g.in(2, 9); i < n; i++) { step(o, P); if (g.p(40)) probes(o, 1); }
    Pol Q; Q.w = W{{"train", 1}};
    step(o, Q);
    probes(o, 2);
  }
  void c12() {
    cats({"mental"});
    large = true;
    procs(g.in(1, 2));
    prefixes = {"p"};
    int k = g.r(3);
    Info o = g.p(8) ? fixtures("DWC", 50) : k == 0 ? newD() : newM(k == 1 ? 'W' : 'C');
    Pol P;
    P.w = W{{"train", 8}, {"untrain", 3}, {"mental", 6}, {"query", 1}, {"restore", g.p(60) ? 1 : 0}, {"trainU", 1}};
    P.bad = g.p(60) ? 0 : 20;
    for (int i = 0, n = longer(g.in(3, 25)); i < n; i++) step(o, P);
    emit(op("mental", o.id));
  }
  int canvas(bool short_ = false) {
    int id = nextId++;
    J s = op("newK", id);
    int dim = g.p(92) ? g.in(1, 4) : g.p(95) ? g.in(5, 12) : g.in(100, 300), nk = g.p(80) ? g.in(2, 30) : g.p(85) ? g.in(30, 90) : g.in(90, 600);
    s["dim"] = J(dim); s["n"] = J(nk); s["e"] = J(eng()); s["p"] = J(g.r(nproc));
    J q = J::obj();
    if (g.p(60)) q["bitsByKernel"] = J(g.p(92) ? g.in(1, 6) : g.in(7, 70));
    if (g.p(60)) q["activationDegree"] = J(g.of(std::vector<double>{0.01, 0.07, 0.1, 0.25, 0.5, 0.9, 1.0}));
    if (g.p(30)) q["useDirection"] = J(g.p(70));
    s["opts"] = q;
    emit(s);
    if (short_) for (int i = 0; i < 2; i++) { J t = op("ktr", id); t["x"] = seq(dim); emit(t); }
    return id * 512 + dim;
  }
  J seq(int dim) {
    J x = J::arr();
    int n = g.p(80) ? g.in(2, 12) : g.p(92) ? g.in(1, 40) : dim == 1 && g.r(60) == 0 ? g.in(65530, 66500) : g.in(40, dim > 12 ? 60 : 400);
    int kind = g.r(4);
    for (int i = 0; i < n; i++) {
      J r = J::arr();
      for (int j = 0; j < dim; j++) { double v = kind == 0 ? g.in(-8, 8) : kind == 1 ? i * 0.5 + j : g.in(-1000, 1000) / 64.0; r.push(J(v)); }
      x.push(r);
    }
    return x;
  }
  void c13() {
    cats({"reject"});
    procs(g.in(1, 2));
    plan["rngmode"] = J(g.p(20) ? 1 : 0);
    std::vector<int> ks;
    for (int i = 0, n = g.in(1, 3); i < n; i++) ks.push_back(canvas());
    std::vector<std::pair<int, J>> seen;
    for (int i = 0, n = longer(g.in(4, 20)); i < n; i++) {
      int w = g.r(10);
      if (w < 2) { J s = op("tick"); s["p"] = J(g.r(nproc)); s["dt"] = J(g.in(-10, 100)); emit(s); continue; }
      if (w < 3) { if (g.p(50)) newD(); else synth(2); continue; }
      if (w < 4 && g.p(50)) { ks.push_back(canvas()); continue; }
      int k = g.of(ks), dim = k % 512;
      J t = op("ktr", k / 512);
      if (seen.size() && g.p(60)) { auto& e = g.of(seen); t = op("ktr", e.first); t["x"] = e.second; if (g.p(50)) t["sc"] = J(g.p(50) ? g.in(-6, 8) : g.in(-120, 120)); }
      else {
        J x = seq(dim);
        if (g.p(8)) { J bad = J::arr(); for (int j = 0; j < dim + (g.p(50) || dim == 1 ? 1 : -1); j++) bad.push(J(1.0)); x.a[g.r((int)x.a.size())] = bad; }
        t["x"] = x;
        seen.push_back(std::make_pair(k / 512, x));
      }
      emit(t);
    }
  }
  int synth(int n) {
    int id = nextId++;
    J s = op("newY", id);
    int sz = crowd ? g.in(100, 600) : g.in(1, 20), mx = g.of(std::vector<int>{1, 2, 3, 9, 100, 300, 1000});
    if (g.r(300) == 0) { sz = g.in(1, 3); mx = g.of(std::vector<int>{32768, 40000, 65536, 70000}); }
    VI m(sz);
    for (auto& v : m) v = g.p(25) ? 0 : g.p(20) ? mx : g.r(mx + 1);
    m[g.r(sz)] = mx;
    s["x"] = imgJ(m); s["e"] = J(eng()); s["p"] = J(g.r(nproc));
    emit(s);
    J t = op("make", id);
    t["n"] = J(n);
    emit(t);
    return id;
  }
  void c14() {
    plan["repeat"] = J(6);
    cats({"fd", "state", "votes", "class"});
    procs(1);
    prefixes = {"p"};
    int q = g.r(10);
    if (q < 7) {
      int k = g.r(3);
      std::vector<Info> os;
      os.push_back(k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, g.p(90)));
      Pol P;
      P.w = W{{"train", 8}, {"untrain", 2}, {"query", 2}, {"mental", 1}, {"restore", 2}, {"save", 2}, {"trainU", 2}, {"look", 1}};
      P.bad = g.p(50) ? 20 : 0;
      P.alloc = g.p(40) ? 30 : 0;
      P.huge = g.p(40) ? 50 : 0;
      P.saveFaults = {"oerrw", "werr", "full", "cerr", "alloc"};
      P.loadFaults = {"oerr", "rerr", "alloc"};
      P.saveF = 30; P.loadF = 30;
      for (int i = 0, n = g.in(2, 12); i < n; i++) {
        Info& o = os[g.r((int)os.size())];
        if (g.p(20) && os.size() < 4) {
          J s = op("clone", nextId++); s["from"] = J(o.id);
          if (g.p(20)) allocF(s, 0);
          emit(s);
          Info c = o; c.id = nextId - 1; os.push_back(c);
          continue;
        }
        if (g.p(8) && os.size() > 1) { emit(op("del", o.id)); continue; }
        step(o, P);
        if (g.p(30)) { Info& o2 = os[g.r((int)os.size())]; emit(op("state", o2.id)); probes(o2, 1); }
      }
      for (auto& o : os) { emit(op("state", o.id)); probes(o, 1); }
    } else if (q < 8) {
      int id = nextId++;
      J s = op("newS", id); s["e"] = J(eng()); emit(s);
      fillS(id, 0, g.in(0, 8));
      if (g.p(50)) for (int i = 0, n = g.in(1, 4); i < n; i++) { J a = op("add", id); a["x"] = imgJ(bits(g.in(1, 40))); a["l"] = J(enc(someLabel())); addF(a, fault("alloc", g.r(12), 0, g.p(25))); emit(a); }
      J v = op("save", id); v["path"] = J("s"); if (g.p(50)) saveF(v, {"oerrw", "werr", "full", "cerr", "nerr", "alloc"}); emit(v);
      J l = op("loadS", nextId++); l["path"] = J("s"); l["e"] = J(eng()); if (g.p(50)) loadF(l, {"oerr", "rerr", "alloc"}); emit(l);
      J c = op("clone", nextId++); c["from"] = J(id); emit(c);
    } else if (q < 9) {
      int id = nextId++;
      J s = op("newH", id); s["e"] = J(eng()); s["text"] = J(ramText(g.in(1, 6))); if (g.p(30)) allocF(s, 0); emit(s);
      for (int i = 0; i < 4; i++) { J t = op("hset", id); t["r"] = J(g.r(rams_ + 1)); t["a"] = J(g.r(40)); t["v"] = J(g.r(9)); emit(t); }
      J v = op("hsave", id); v["path"] = J("h"); if (g.p(40)) saveF(v, {"oerrw", "werr", "full", "cerr", "alloc"}); emit(v);
      J l = op("hload", nextId++); l["path"] = J("h"); l["e"] = J(eng()); if (g.p(40)) loadF(l, {"oerr", "rerr", "alloc"}); emit(l);
    } else {
      int k = canvas(true);
      if (g.p(60)) { J t = op("ktr", k / 512); t["x"] = seq(k % 512); allocF(t, 0); emit(t); }
      int y = synth(3);
      if (g.p(60)) { J t = op("make", y); t["n"] = J(1); allocF(t, 0, 30); emit(t); }
    }
  }
  // calls without a single sample
  void empties(Info& o) {
    J s;
    int k = g.r(4);
    if (o.t == 'D') { s = op("trainND", o.id); s["x"] = imgs(VVI()); }
    else if (k == 0) { s = op("classify", o.id); s["x"] = imgs(VVI()); if (o.t == 'W' && g.p(40)) s["b"] = J(true); }
    else if (o.t == 'W') { s = op(k == 1 ? "leaveN" : k == 2 ? "train" : "trainS", o.id); s["x"] = imgs(VVI()); s["l"] = strs({}); }
    else if (k == 1) { s = op("trainMap", o.id); s["x"] = imgs(VVI()); s["m"] = J::arr(); }
    else if (k == 2) { s = op(g.p(50) ? "trainU" : "classU", o.id); s["x"] = imgs(VVI()); }
    else { s = op("train", o.id); s["x"] = imgs(VVI()); s["l"] = strs({}); }
    emit(s);
  }
  void c15() {
    cats({"state", "votes", "class", "mental", "out", "any", "pure"});
    procs(g.in(1, 2));
    prefixes = {"p", "nodir/x"};
    pre = true;
    int q = g.r(10);
    if (q < 7) {
      int k = g.r(3);
      Info o = k == 0 ? newD() : newM(k == 1 ? 'W' : 'C', false, false, 40);
      Pol T; T.w = W{{"train", 8}, {"untrain", 1}, {"trainU", 2}};
      bool outF = g.p(50);
      for (int i = 0, n = g.in(0, 5); i < n; i++) {
        size_t at = steps.a.size();
        if (g.p(12)) { pre = false; empties(o); pre = true; } else { step(o, T); if (g.p(60)) steps.a.back()["pre"] = J(false); }
        if (outF) for (; at < steps.a.size(); at++) { addF(steps.a[at], fault("outerr", g.lg(6), 0, g.p(60))); steps.a[at]["pre"] = J(false); }
      }
      emit(op("state", o.id)); probes(o, 2);
      pre = false;
      Pol P;
      P.w = W{{"query", 6}, {"mental", 4}, {"look", 3}, {"save", 4}, {"tick", 1}};
      P.bad = g.p(40) ? 60 : 0;
      P.alloc = g.p(25) ? 25 : 0;
      P.huge = 40;
      P.saveFaults = {"oerrw", "werr", "full", "cerr"};
      P.saveF = 30;
      for (int i = 0, n = g.in(2, 12); i < n; i++) {
        size_t at = steps.a.size();
        if (g.p(10)) empties(o); else step(o, P);
        if (outF && g.p(50)) for (; at < steps.a.size(); at++) addF(steps.a[at], fault("outerr", g.lg(8), 0, g.p(60)));
        if (g.p(60)) emit(op("state", o.id));
      }
      emit(op("state", o.id)); probes(o, 2);
    } else if (q < 8) {
      int id = nextId++, e = eng();
      J s = op("newS", id); s["e"] = J(e); emit(s);
      fillS(id, e, g.in(0, 6));
      emit(op("rows", id));
      pre = false;
      for (int i = 0, n = g.in(1, 8); i < n; i++) {
        if (g.p(70)) { J t = op("dsget", id); t["i"] = J(g.in(0, 6)); t["q"] = J(g.p(60) ? 1 : g.p(50) ? 2 : 0); if (t.num("q") == 0) t["i"] = J(0); emit(t); }
        else { J v = op("save", id); v["path"] = J(g.p(80) ? "s" : "nodir/s"); if (g.p(40)) saveF(v, {"oerrw", "werr", "full", "cerr"}); emit(v); }
        emit(op("rows", id));
      }
    } else {
      int id = nextId++;
      J s = op("newH", id); s["e"] = J(eng()); s["text"] = J(ramText(g.in(1, 5))); emit(s);
      J s2 = op("newH", nextId++); s2["e"] = s.at("e"); s2["text"] = J(ramText(g.in(1, 5))); emit(s2);
      emit(op("hcheck", id));
      pre = false;
      for (int i = 0, n = g.in(1, 8); i < n; i++) {
        int w = g.r(4);
        if (w < 2) { J t = op("hget", id); t["r"] = J(g.in(-1, 7)); t["a"] = J(g.in(0, 70)); emit(t); }
        else if (w < 3) { J t = op("hcmp", id); t["with"] = J(g.p(50) ? id : nextId - 1); emit(t); }
        else { J v = op("hsave", id); v["path"] = J(g.p(80) ? "h" : "nodir/h"); if (g.p(40)) saveF(v, {"oerrw", "werr", "full", "cerr"}); emit(v); }
        emit(op("hcheck", id));
      }
    }
    if (g.p(6)) { pre = true; if (g.p(50)) canvas(true); else synth(3); }
  }
  void c16() {
    if (g.p(15)) return c16shared();
    cats({"stored", "restored"});
    procs(g.in(1, 2));
    std::vector<std::string> paths = g.p(70) ? std::vector<std::string>{"s"} : std::vector<std::string>{"s", "/sim/d/t", "s2"};
    std::set<std::string> all = {"crash", "werr", "full", "cerr", "oerrw", "nerr", "wshort", "weintr", "alloc", "torn"}, kinds;
    for (auto& k : all) if (g.p(50)) kinds.insert(k);
    kinds.insert("crash");
    std::vector<std::pair<int, int>> ds;
    auto mk = [&]() {
      int id = nextId++, e = eng();
      J s = op("newS", id); s["e"] = J(e); s["p"] = J(g.r(nproc)); emit(s);
      fillS(id, e, g.p(12) ? g.in(60, 200) : g.in(0, 8));
      ds.push_back(std::make_pair(id, e));
    };
    mk();
    for (int i = 0, n = longer(g.in(3, 14)); i < n; i++) {
      int w = g.r(10);
      if (w < 1) mk();
      else if (w < 3) fillS(ds.back().first, ds.back().second, g.in(1, 3));
      else if (w < 7) {
        J v = op("save", g.of(ds).first);
        v["path"] = J(g.of(paths));
        if (g.p(50)) saveF(v, kinds);
        emit(v);
        if (g.p(70)) { J l = op("loadS", nextId++); l["path"] = v.at("path"); int e = eng(); l["e"] = J(e); l["p"] = J(g.r(nproc)); emit(l); if (g.p(30)) ds.push_back(std::make_pair(nextId - 1, e)); }
      } else if (w < 9) { J l = op("loadS", nextId++); l["path"] = J(g.of(paths)); int e = eng(); l["e"] = J(e); l["p"] = J(g.r(nproc)); emit(l); if (g.p(30)) ds.push_back(std::make_pair(nextId - 1, e)); }
      else { J r = op("restart"); r["p"] = J(g.r(nproc)); emit(r); mk(); }
    }
    for (auto& p : paths) { J l = op("loadS", nextId++); l["path"] = J(p); l["e"] = J(eng()); emit(l); }
  }
  int odd() { return g.of(std::vector<int>{0, 1, -1, 2, 3, 5, -2, 64, 65, 100, 2147483647, -2147483647 - 1, 1000000007}); }
  int odd2() { return g.of(std::vector<int>{0, 1, -1, 2, 3, 5, 64, 65, 1000, 1000000007, 2147483647, -2147483647 - 1}); }
  VI oddImg(Info& o) {
    VI x = g.p(60) ? image(o) : VI();
    int k = g.r(5);
    if (k == 0) x.resize(g.r(6));
    if (k == 1 && x.size()) x[g.r((int)x.size())] = odd();
    if (k == 2 && x.size()) x.pop_back();
    if (k == 3) x.push_back(g.r(3));
    return x;
  }
  // more data than one stream buffer holds, saved and loaded under faults that may persist
  void bulk17(const std::set<std::string>& sf, const std::set<std::string>& lf) {
    auto sticky = [&](J& s, bool save) {
      if (g.p(15)) return;
      if (save) saveF(s, sf); else loadF(s, lf);
      if (g.p(60)) for (auto& f : s["f"].a) f["s"] = J(true);
    };
    int w = g.r(20) ? g.r(3) : 3, id = nextId++, e = eng();
    auto bulkText = [&]() {
      std::string t;
      for (int i = 0, k = g.in(1, 3); i < k; i++) {
        Cells c;
        for (int j = 0, n = g.in(200, 3000); j < n; j++) c[g.p(85) ? (u64)g.r(9000) : g.next() >> g.r(60)] = g.in(1, 9);
        if (i) t += ".";
        t += ramenc(c);
      }
      return t;
    };
    if (w == 0) {
      J s = op("newH", id); s["e"] = J(e); s["text"] = J(bulkText()); emit(s);
      for (int i = 0, n = g.in(1, 3); i < n; i++) {
        J v = op("hsave", id); v["path"] = J("h"); sticky(v, true); emit(v);
        J l = op("hload", nextId++); l["path"] = J("h"); l["e"] = J(eng()); sticky(l, false); emit(l);
        J c = op("hcmp", id); c["with"] = J(nextId - 1); emit(c);
      }
    } else if (w == 1) {
      J s = op("newS", id); s["e"] = J(e); emit(s);
      for (int i = 0, n = g.in(100, 500); i < n; i++) {
        J a = op("add", id); a["x"] = imgJ(bits(g.in(1, 900))); if (g.p(60)) a["l"] = J(enc(someLabel())); emit(a);
      }
      if (g.p(30)) { J a = op("add", id); a["x"] = imgJ(bits(g.in(1, 6))); if (g.p(60)) a["l"] = J(enc(someLabel())); a["rep"] = J(many(70000)); emit(a); }
      for (int i = 0, n = g.in(1, 3); i < n; i++) {
        J v = op("save", id); v["path"] = J("s"); sticky(v, true); emit(v);
        J l = op("loadS", nextId++); l["path"] = J("s"); l["e"] = J(eng()); sticky(l, false); emit(l);
      }
    } else if (w == 3) {  // more inputs in one call than 16 bits count
      Info o = newM(g.p(50) ? 'W' : 'C', false, false, 8, false);
      for (int i = 0, n = g.in(2, 5); i < n; i++) {
        VVI xs; std::vector<std::string> ls;
        for (int j = 0, m = g.in(1, 3); j < m; j++) { xs.push_back(image(o)); ls.push_back(label(o)); }
        int k = g.r(6);
        std::string f = k == 0 ? "train" : k == 1 ? "classify" : o.t == 'W' ? (k < 4 ? "leaveN" : k == 4 ? "trainS" : "classify") : k == 2 ? "trainMap" : k == 3 ? "trainU" : k == 4 ? "classU" : "classify";
        if (f == "trainS") for (auto& x : xs) if (!packable(x)) f = "train";
        J c = op(f.c_str(), o.id);
        c["x"] = imgs(xs);
        if (f == "train" || f == "trainS" || f == "leaveN") c["l"] = strs(ls);
        if (f == "classify" && o.t == 'W' && g.p(30)) { bool b = true; for (auto& x : xs) if (!packable(x)) b = false; if (b) c["b"] = J(true); }
        if (f == "trainMap") { J m = J::arr(); for (int j = 0; j < (int)xs.size(); j++) if (g.p(60)) { J e = J::arr(); e.push(J(j)); e.push(J(enc(ls[j]))); m.push(e); } c["m"] = m; }
        c["rep"] = J(g.of(std::vector<int>{32767, 33000, 65535, 65536, 66000, 70000}));
        emit(c);
      }
    } else {
      Info o;
      o.id = id; o.t = 'D'; o.eng = e; o.addr = g.in(8, 30); o.entry = o.addr * g.in(4, 12); o.base = 2;
      J s = op("newD", id); s["e"] = J(e); s["addr"] = J(o.addr); s["entry"] = J(o.entry); s["opts"] = J::obj(); emit(s);
      for (int i = 0, n = g.in(60, 200); i < n; i++) { J t = op("trainD", id); t["x"] = imgJ(bits(o.entry)); emit(t); }
      for (int i = 0, n = g.in(1, 3); i < n; i++) {
        J t = op("json", id); t["form"] = J(g.in(2, 4)); t["path"] = J(enc(prefix())); t["slot"] = J(0); sticky(t, true); emit(t);
        int r = nextId++;
        J l = op("load", r); l["slot"] = J(0); l["e"] = J(eng()); sticky(l, false); emit(l);
        J v = op("votes", g.p(50) ? r : id); v["x"] = imgJ(bits(o.entry)); emit(v);
      }
    }
  }
  void c17() {
    plan["nm"] = J(true);
    cats({});
    procs(1);
    plan["rngmode"] = J(g.p(40) ? 1 : 0);
    if (g.p(30)) { J s = op("tick"); s["p"] = J(0); s["set"] = J((long)odd()); emit(s); }
    prefixes = {"p", "", "nodir/x", "/"};
    int q = g.r(10);
    if (g.p(6)) { Info o = fixtures("DWC", 80); weird(o, g.in(3, 8)); return; }
    std::set<std::string> sf = {"oerrw", "werr", "full", "cerr", "nerr", "weintr"}, lf = {"oerr", "rerr", "reintr"};
    if (g.r(1000) < 8) { bulk17(sf, lf); return; }
    if (q < 6) {
      int k = g.r(3);
      Info o;
      if (g.p(60)) o = k == 0 ? newD(false) : newM(k == 1 ? 'W' : 'C', false, false, 20, false);
      else {
        o.id = nextId++; o.t = "DWC"[k]; o.eng = eng();
        shape(o, 16);
        o.labels = labelPool(false);
        J s = op(k == 0 ? "newD" : k == 1 ? "newW" : "newC", o.id);
        s["e"] = J(o.eng);
        s["addr"] = J(g.p(50) ? o.addr : odd());
        if (k == 0) s["entry"] = J(g.p(60) ? o.entry : odd2());
        J m = J::obj();
        if (g.p(30)) m["base"] = J(odd());
        if (g.p(20)) m["ignoreZero"] = J(true);
        if (g.p(20)) m["confidence"] = J(odd());
        if (g.p(20)) m["verbose"] = J(true);
        if (g.p(20)) m["completeAddressing"] = J(false);
        if (g.p(15)) m["bleachingActivated"] = J(false);
        auto oddVI = [&]() { VI v(g.r(6)); for (auto& e : v) e = g.p(60) ? g.r(o.entry + 2) : odd(); return v; };
        if (k != 2 && g.p(20)) m["indexes"] = g.p(50) ? J(perm(o.entry)) : J(oddVI());
        else if (k == 0 && g.p(25)) { J a = J::arr(); for (int i = 0, n = g.r(4); i < n; i++) a.push(J(oddVI())); m["mapping"] = a; }
        else if (k == 1 && g.p(25)) { J mm = J::obj(); for (auto& l : o.labels) { J a = J::arr(); for (int i = 0, n = g.r(4); i < n; i++) a.push(J(oddVI())); mm[enc(l)] = a; } m["mappings"] = mm; }
        s["opts"] = m;
        s["ms"] = J(g.of(std::vector<double>{0, 0.5, -1, 2, 1e30, 1}));
        s["thr"] = J(g.p(50) ? g.in(1, 4) : odd()); s["lim"] = J(g.p(50) ? g.in(1, 4) : odd());
        emit(s);
      }
      for (int i = 0, n = g.in(2, 14); i < n; i++) {
        int w = g.r(14);
        J s;
        auto some = [&]() { VVI v; int m = g.p(15) ? 0 : g.in(1, 3); for (int j = 0; j < m; j++) v.push_back(g.p(70) ? image(o) : oddImg(o)); return v; };
        auto labs = [&](size_t m) { std::vector<std::string> v; if (g.p(10)) m += g.in(-1, 1); if ((int)m < 0 || m > 100) m = 0; for (size_t j = 0; j < m; j++) v.push_back(g.p(5) ? "" : label(o)); return v; };
        if (w < 4) {
          if (o.t == 'D') { if (g.p(70)) { s = op(g.p(70) ? "trainD" : "trainB", o.id); s["x"] = imgJ(g.p(70) ? image(o) : oddImg(o)); } else { s = op("trainND", o.id); s["x"] = imgs(some()); } }
          else if (o.t == 'W' || g.p(50)) { VVI v = some(); s = op(o.t == 'W' && g.p(25) ? "trainS" : "train", o.id); s["x"] = imgs(v); auto l = labs(v.size()); if (s.str("op") == "trainS") l.resize(v.size()); s["l"] = strs(l); }
          else { VVI v = some(); s = op("trainMap", o.id); s["x"] = imgs(v); J m = J::arr(); for (int j = 0, c = g.r(5); j < c; j++) { J e = J::arr(); e.push(J(g.p(70) ? g.r(4) : odd())); e.push(J(enc(label(o)))); m.push(e); } s["m"] = m; }
        } else if (w < 7) { if (o.t == 'D') { s = op("votes", o.id); s["x"] = imgJ(g.p(50) ? image(o) : oddImg(o)); s["b"] = J(g.p(30)); } else { s = op("classify", o.id); s["x"] = imgs(some()); s["b"] = J(g.p(30)); } }
        else if (w < 8) { if (o.t == 'C') { s = op(g.p(50) ? "classU" : "trainU", o.id); s["x"] = imgs(some()); } else s = op("size", o.id); }
        else if (w < 9) { s = op("mental", o.id); if (o.t == 'C' && g.p(60)) s["l"] = J(enc(g.p(50) ? "nope" : label(o))); }
        else if (w < 10) { if (o.t == 'D') { s = op("untrain", o.id); s["x"] = imgJ(g.p(50) ? image(o) : oddImg(o)); } else if (o.t == 'W') { if (g.p(50)) { s = op("leave1", o.id); s["x"] = imgJ(g.p(50) ? image(o) : oddImg(o)); s["l"] = J(enc(label(o))); } else { VVI v = some(); s = op("leaveN", o.id); s["x"] = imgs(v); s["l"] = strs(labs(v.size())); } } else s = op("cfg", o.id); }
        else if (w < 12) { s = op("json", o.id); s["form"] = J(g.r(5)); s["path"] = J(enc(prefix())); s["slot"] = J(0); if (g.p(60)) { saveF(s, sf); if (g.p(50)) for (auto& e : s["f"].a) e["s"] = J(true); } }
        else if (w < 13) { int id = nextId++; s = op("load", id); s["slot"] = J(0); s["e"] = J(eng()); if (g.p(50)) { loadF(s, lf); if (g.p(50)) for (auto& e : s["f"].a) e["s"] = J(true); } if (g.p(40)) o.id = id; }
        else s = op(g.p(50) ? "cfg" : "nums", o.id);
        if (g.p(6)) allocF(s, o.eng);
        emit(s);
      }
    } else if (q < 8) {
      int id = nextId++, e = eng();
      J s = op("newS", id); s["e"] = J(e); emit(s);
      for (int i = 0, n = g.r(4); i < n; i++) { J a = op("add", id); a["x"] = imgJ(bits(g.p(15) ? 0 : g.in(1, 40))); if (g.p(60)) a["l"] = J(enc(someLabel())); if (g.p(20)) a["el"] = J(true); emit(a); }
      for (int i = 0, n = g.in(1, 6); i < n; i++) {
        int w = g.r(5);
        if (w == 0) { J t = op("dsget", id); t["i"] = J(odd()); t["q"] = J(g.r(3)); emit(t); }
        else if (w == 1) { J v = op("save", id); v["path"] = J(g.of(std::vector<std::string>{"s", "", "nodir/s", "/"})); if (g.p(60)) { saveF(v, sf); if (g.p(50)) for (auto& f : v["f"].a) f["s"] = J(true); } emit(v); }
        else if (w == 2) { J l = op("loadS", nextId++); l["path"] = J(g.of(std::vector<std::string>{"s", "none", "", "dir"})); l["e"] = J(eng()); if (g.p(60)) { loadF(l, lf); if (g.p(70)) for (auto& f : l["f"].a) f["s"] = J(true); } emit(l); }
        else if (w == 3) { J d = op("mkdir"); d["path"] = J("dir.wpkds"); emit(d); }
        else { Info o; o.t = 'W'; J m = newMj('W', nextId++); emit(m); J t = op("trainS", nextId - 1); t["x"] = imgs({}); t["l"] = strs({}); emit(t); t["op"] = J("classify"); t["b"] = J(true); emit(t); }
      }
    } else if (q < 9) {
      int w = g.r(3);
      int id = nextId++;
      if (w == 0) {
        J s = op("newH", id); s["e"] = J(eng()); s["text"] = J(ramText(g.r(4))); emit(s);
        for (int i = 0; i < 6; i++) { J t = op(g.p(50) ? "hset" : "hget", id); t["r"] = J(odd()); t["a"] = J(odd()); t["v"] = J(odd()); emit(t); }
        J v = op("hsave", id); v["path"] = J("h"); if (g.p(60)) saveF(v, sf); emit(v);
        J l = op("hload", nextId++); l["path"] = J(g.p(50) ? "h" : "none"); l["e"] = J(eng()); if (g.p(60)) loadF(l, lf); emit(l);
        J c = op("hcmp", id); c["with"] = J(nextId - 1); emit(c);
      } else {
        J s = op("newB", id); s["e"] = J(eng());
        if (w == 1) s["n"] = J(g.of(std::vector<int>{0, 1, 7, 8, 9, -1, 64, 100000})); else s["x"] = imgJ(bits(g.r(20)));
        emit(s);
        J b = op("binops", id); b["w"] = J(g.p(50)); emit(b);
      }
    } else {
      int id = nextId++;
      if (g.p(60)) {
        J s = op("newK", id);
        s["dim"] = J(g.p(60) ? g.in(1, 3) : odd2()); s["n"] = J(g.p(60) ? g.in(1, 10) : g.of(std::vector<int>{0, -1, 1, 2147483647})); s["e"] = J(eng());
        J m = J::obj();
        if (g.p(40)) m["bitsByKernel"] = J(g.of(std::vector<int>{0, 1, -1, 3}));
        if (g.p(40)) m["activationDegree"] = J(g.of(std::vector<double>{0.0, -1.0, 2.0, 0.5, 1e30}));
        if (g.p(40)) m["useDirection"] = J(true);
        s["opts"] = m;
        emit(s);
        for (int i = 0; i < 4; i++) {
          J t = op("ktr", id);
          J x = J::arr();
          for (int r = 0, n = g.r(4); r < n; r++) { J row = J::arr(); for (int c = 0, k = g.p(80) ? (int)std::max((int64_t)0, std::min((int64_t)3, s.num("dim"))) : g.r(4); c < k; c++) row.push(J(g.p(80) ? (double)g.in(-3, 3) : 1e308)); x.push(row); }
          t["x"] = x;
          emit(t);
        }
      } else {
        J s = op("newY", id);
        VI m(g.r(6));
        int all = g.r(3);
        for (auto& v : m) v = all == 0 ? 0 : all == 1 ? g.in(-2, 3) : odd();
        s["x"] = imgJ(m); s["e"] = J(eng());
        emit(s);
        J t = op("make", id); t["n"] = J(3); emit(t);
      }
    }
  }
  J newMj(char t, int id) { J s = op(t == 'W' ? "newW" : "newC", id); s["addr"] = J(2); s["e"] = J(eng()); s["opts"] = J::obj(); s["ms"] = J(0.5); s["thr"] = J(2); s["lim"] = J(2); return s; }
  void c18() {
    cats({"any"});
    procs(1);
    plan["rngmode"] = J(0);
    if (g.p(25)) {
      plan["rngmode"] = J(g.p(50) ? 1 : 0);
      for (int i = 0, n = g.in(1, 4); i < n; i++) { if (g.p(50)) { J s = op("tick"); s["set"] = J((long)(g.next() >> g.in(33, 60))); s["p"] = J(0); emit(s); } synth(g.in(1, 20)); if (g.p(30)) newD(); }
    } else {
      synth(g.p(90) ? g.in(400, 1200) : g.in(3000, 8000));
    }
  }
  void c19() {
    cats({"any", "stored", "restored"});
    procs(g.in(1, 2));
    prefixes = {"p"};
    std::vector<int> hs;
    int slot = -1;
    int e = eng();
    if (g.p(60)) {
      pre = true;
      Info o = newD(true);
      Pol T; T.w = W{{"train", 8}, {"untrain", 2}};
      for (int i = 0, n = g.in(1, 6); i < n; i++) step(o, T);
      emit(op("state", o.id));
      slot = nextSlot++;
      J s = op("json", o.id); s["slot"] = J(slot); s["form"] = J(g.p(70) ? 0 : 3); emit(s);
      pre = false;
      J h = op("newH", nextId++); h["slot"] = J(slot); h["e"] = J(e); h["p"] = J(0); emit(h);
      hs.push_back(nextId - 1);
    } else {
      J s = op("newH", nextId++); s["e"] = J(e); s["p"] = J(0); s["text"] = J(ramText(g.in(1, 6), g.p(20))); emit(s);
      hs.push_back(nextId - 1);
    }
    std::set<std::string> kinds = {"wshort", "weintr"};
    if (g.p(50)) kinds = {"wshort", "weintr", "crash", "werr", "full", "cerr", "oerrw", "nerr", "torn", "alloc"};
    for (int i = 0, n = longer(g.in(3, 20)); i < n; i++) {
      int w = g.r(12), h = g.of(hs);
      if (w < 4) { J t = op("hset", h); t["r"] = J(g.p(88) ? g.r(rams_ + 1) : g.p(50) ? g.in(-2, 9) : odd()); t["a"] = J(g.p(90) ? g.r(64) : g.r(2000000000)); t["v"] = J(g.p(90) ? g.r(10) : g.in(-5, 2000000000)); emit(t); }
      else if (w < 6) { J t = op("hget", h); t["r"] = J(g.r(rams_ + 1)); t["a"] = J(g.r(64)); emit(t); }
      else if (w < 7) emit(op("hcheck", h));
      else if (w < 8) { J t = op("hdata", nextId++); t["from"] = J(h); t["e"] = J(eng()); emit(t); hs.push_back(nextId - 1); }
      else if (w < 9) {
        int o = g.of(hs);
        if (g.p(30)) {  // the two may end up differing in one bit of one count
          int r = g.r(rams_), at = g.r(64), v = g.p(70) ? g.r(10) : g.r(2000000000), d = g.p(50) ? 0 : 1 << g.r(31);
          for (int k = 0; k < 2; k++) { J t = op("hset", k ? h : o); t["r"] = J(r); t["a"] = J(at); t["v"] = J(k ? v : v ^ d); emit(t); }
        }
        J t = op("hcmp", h); t["with"] = J(o); emit(t);
      }
      else if (w < 11) {
        std::string path = g.p(70) ? "h" : "/sim/d/h";
        J v = op("hsave", h); v["path"] = J(path);
        if (g.p(kinds.size() > 2 ? 40 : 20)) saveF(v, kinds);
        emit(v);
        if (g.p(20)) { J r = op("restart"); r["p"] = J(1); emit(r); }
        J l = op("hload", nextId++); l["path"] = J(path); l["e"] = J(eng()); l["p"] = J(0);
        if (g.p(20)) loadF(l, {"rshort", "reintr"});
        emit(l);
        hs.push_back(nextId - 1);
        J t = op("hcmp", h); t["with"] = J(nextId - 1); emit(t);
      } else if (slot >= 0) { J t = op("hToD"); t["from"] = J(h); t["slot"] = J(slot); t["e"] = J(eng()); emit(t); }
    }
    for (int h : hs) emit(op("hcheck", h));
  }
};
}  // namespace

J gen_plan(const std::string& prop, uint64_t seed) {
  Gen x;
  x.prop = prop;
  uint64_t h = 1469598103934665603ULL;
  for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ULL;
  x.g.s = h ^ (seed * 0xd1342543de82ef95ULL);
  x.g.next();
  x.plan["prop"] = J(prop);
  x.plan["seed"] = J((long)seed);
  bool noPy = prop == "C07" || prop == "C08" || prop == "C14" || prop == "C17";
  int k = x.g.r(10);
  // the memory-safety properties: every fourth seed drives the Python module, the others the address-checked builds
  if ((prop == "C07" || prop == "C17") && seed % 4 == 3) x.engs = {2};
  else if (noPy) x.engs = k < 4 ? std::vector<int>{0} : k < 7 ? std::vector<int>{1} : std::vector<int>{0, 1};
  else if (prop == "C11") x.engs = k < 5 ? std::vector<int>{0} : k < 9 ? std::vector<int>{1} : std::vector<int>{2};
  else if (prop == "C02") x.engs = k < 2 ? std::vector<int>{0} : k < 4 ? std::vector<int>{1} : k < 7 ? std::vector<int>{2} : std::vector<int>{0, 1, 2};
  else x.engs = k < 2 ? std::vector<int>{0} : k < 4 ? std::vector<int>{1} : k < 5 ? std::vector<int>{2} : std::vector<int>{0, 1, 2};
  if (prop != "C08" && prop != "C17" && prop != "C18" && x.g.r(1000) < 12) x.crowd = true;
  else if (x.g.r(1000) < 4) x.marathon = true;
  typedef void (Gen::*F)();
  static const std::map<std::string, F> fs = {{"C01", &Gen::c01}, {"C02", &Gen::c02}, {"C03", &Gen::c03}, {"C04", &Gen::c04}, {"C05", &Gen::c05}, {"C06", &Gen::c06}, {"C07", &Gen::c07}, {"C08", &Gen::c08}, {"C09", &Gen::c09}, {"C10", &Gen::c10}, {"C11", &Gen::c11}, {"C12", &Gen::c12}, {"C13", &Gen::c13}, {"C14", &Gen::c14}, {"C15", &Gen::c15}, {"C16", &Gen::c16}, {"C17", &Gen::c17}, {"C18", &Gen::c18}, {"C19", &Gen::c19}};
  auto it = fs.find(prop);
  if (it == fs.end()) { fprintf(stderr, "SIMERROR unknown property %s\n", prop.c_str()); _exit(96); }
  if (x.g.p(40)) x.plan["blind"] = J(true);
  (x.*it->second)();
  x.plan["steps"] = x.steps;
  return x.plan;
}

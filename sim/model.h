// Reference models: what the library's answers must be, computed from the history alone.
#pragma once
#include <math.h>
#include <algorithm>
#include <functional>
#include <set>
#include "engine.h"
#include "json.h"

typedef unsigned long long u64;
typedef std::map<u64, long long> Cells;

inline bool b64dec(const std::string& in, std::string& out) {
  out.clear();
  if (in.size() % 4) return false;
  auto val = [](char c) -> int {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
  };
  for (size_t i = 0; i < in.size(); i += 4) {
    int pad = 0, v[4];
    for (int k = 0; k < 4; k++) {
      if (in[i + k] == '=') { if (i + 4 != in.size() || k < 2) return false; pad++; v[k] = 0; }
      else { if (pad) return false; v[k] = val(in[i + k]); if (v[k] < 0) return false; }
    }
    unsigned w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    out += (char)(w >> 16);
    if (pad < 2) out += (char)(w >> 8);
    if (pad < 1) out += (char)w;
  }
  return true;
}
inline std::string b64enc(const std::string& s) {
  static const char* m = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned w = (unsigned char)s[i] << 16;
    if (i + 1 < s.size()) w |= (unsigned char)s[i + 1] << 8;
    if (i + 2 < s.size()) w |= (unsigned char)s[i + 2];
    r += m[w >> 18]; r += m[w >> 12 & 63];
    r += i + 1 < s.size() ? m[w >> 6 & 63] : '=';
    r += i + 2 < s.size() ? m[w & 63] : '=';
  }
  return r;
}
inline bool ramdec(const std::string& b64, Cells& out) {
  std::string d;
  out.clear();
  if (!b64dec(b64, d) || d.size() % 12) return false;
  for (size_t i = 0; i < d.size(); i += 12) {
    u64 a; int c;
    memcpy(&a, d.data() + i, 8);
    memcpy(&c, d.data() + i + 8, 4);
    out[a] = c;
  }
  return true;
}
inline std::string ramenc(const Cells& c) {
  std::string d;
  for (auto& e : c) { u64 a = e.first; int v = (int)e.second; d.append((char*)&a, 8); d.append((char*)&v, 4); }
  return b64enc(d);
}
inline VS split(const std::string& s, char c) {
  VS r(1);
  for (char x : s) { if (x == c) r.push_back(""); else r.back() += x; }
  return r;
}

// a discriminator
struct MD {
  int entry = 0, base = 2, count = 0;
  bool iz = false, given = false;  // given: its mapping came with a stored text
  VVI map;
  std::vector<std::map<std::string, int>> cells;  // per RAM: the values at its positions -> net trainings
  void setMap(const VVI& m) { map = m; cells.assign(m.size(), {}); }
  bool valid(const VI& x) const {
    if ((int)x.size() != entry) return false;
    for (auto& r : map) for (int p : r) if (x[p] < 0 || x[p] >= base) return false;
    return true;
  }
  std::string key(size_t r, const VI& x) const {
    std::string k;
    for (int p : map[r]) { int v = x[p]; k.append((char*)&v, 4); }
    return k;
  }
  void train(const VI& x, int by = 1) {
    count += by;
    for (size_t r = 0; r < map.size(); r++) {
      int& c = cells[r][key(r, x)];
      c += by;
      if (c == 0) cells[r].erase(key(r, x));
    }
  }
  bool canUntrain(const VI& x) const {
    for (size_t r = 0; r < map.size(); r++) { auto it = cells[r].find(key(r, x)); if (it == cells[r].end() || it->second < 1) return false; }
    return count > 0;
  }
  VI votes(const VI& x) const {
    VI v(map.size());
    for (size_t r = 0; r < map.size(); r++) {
      bool zero = true;
      for (int p : map[r]) if (x[p]) zero = false;
      if (iz && zero) continue;
      auto it = cells[r].find(key(r, x));
      if (it != cells[r].end()) v[r] = it->second;
    }
    return v;
  }
  VI mental() const {
    VI m(entry);
    for (size_t r = 0; r < map.size(); r++)
      for (auto& c : cells[r])
        for (size_t i = 0; i < map[r].size(); i++) {
          int v;
          memcpy(&v, c.first.data() + 4 * i, 4);
          if (v > 0) m[map[r][i]] += c.second;
        }
    return m;
  }
  u64 addr(const std::string& k) const {
    u64 a = 0, p = 1;
    for (size_t i = 0; i * 4 < k.size(); i++) { int v; memcpy(&v, k.data() + 4 * i, 4); a += (u64)v * p; p *= (u64)base; }
    return a;
  }
  std::vector<Cells> byAddr() const {
    std::vector<Cells> r(map.size());
    for (size_t i = 0; i < map.size(); i++) for (auto& c : cells[i]) r[i][addr(c.first)] += c.second;
    return r;
  }
};

struct Conf {  // options of a model
  int addr = 0, base = 2, conf = 1;
  bool bleach = true, verbose = false, iz = false, complete = true, retConf = false, retAct = false, retDeg = false;
  std::map<std::string, VVI> mapping;
  VI indexes;
  float minScore = 0;
  int thr = 1, lim = 1;
};
struct MCl { int entry = 0; std::vector<MD> ds; };

struct Model {
  char t = 0;  // D W C S(dataset) H(handle) B(packed input) K(canvas) Y(synthesizer)
  MD d;
  Conf cf;
  std::map<std::string, MD> cls;     // W
  std::map<std::string, MCl> clu;    // C
  MCl uns;
  struct Row { VI bits; bool has = false; std::string label; bool unshown = false; };
  std::vector<Row> rows;             // S
  std::vector<Cells> rams;           // H
  VI bits;                           // B
  int dim = 0, nk = 0, bpk = 3; float act = 0.07f; bool dir = false;  // K
  std::map<std::string, VI> kcSeen;
  VI img;                            // Y
};

struct Pred {
  std::string label;                 // winner (candidate key order)
  std::set<std::string> labels;      // every acceptable class
  std::map<std::string, int> counts;
  int top = 0, thr = 1;
  bool tie = false;
};
inline Pred bleach(const std::map<std::string, VI>& votes, bool on, int conf) {
  Pred p;
  int t = 1;
  for (;;) {
    int top = 0, n = 0;
    p.counts.clear();
    for (auto& e : votes) { int c = 0; for (int v : e.second) if (v >= t) c++; p.counts[e.first] = c; top = std::max(top, c); n++; }
    p.top = top;
    p.thr = t;
    int lead = 0;
    bool amb = false;
    for (auto& e : p.counts) if (e.second == top) lead++;
    if (lead > 1) amb = conf > 0;
    for (auto& e : p.counts) if (e.second != top && top - e.second < conf) amb = true;
    p.tie = lead > 1;
    if (!on || n < 2 || !amb || top <= 1) break;
    int next = 0x7fffffff;  // the counts stay the same up to the lowest vote still counted
    for (auto& e : votes) for (int v : e.second) if (v >= t) next = std::min(next, v);
    if (next == 0x7fffffff) break;
    t = next + 1;
  }
  for (auto& e : p.counts) if (e.second == p.top) p.label = e.first;
  return p;
}
inline Pred predictW(const Model& m, const VI& x) {
  std::map<std::string, VI> v;
  for (auto& e : m.cls) v[e.first] = e.second.votes(x);
  Pred p = bleach(v, m.cf.bleach, m.cf.conf);
  p.labels.insert(p.label);
  return p;
}
inline std::string owner(const std::string& key) { return key.substr(0, key.rfind("::")); }
inline Pred predictC(const Model& m, const VI& x) {
  std::map<std::string, VI> v;
  for (auto& e : m.clu) for (size_t j = 0; j < e.second.ds.size(); j++) v[e.first + "::" + std::to_string(j)] = e.second.ds[j].votes(x);
  Pred p = bleach(v, m.cf.bleach, m.cf.conf);
  std::string last;
  for (auto& e : p.counts) if (e.second == p.top) last = std::max(last, owner(e.first));
  p.labels.insert(last);
  p.labels.insert(owner(p.label));
  return p;
}
inline Pred predictU(const Model& m, const VI& x) {
  std::map<std::string, VI> v;
  for (size_t j = 0; j < m.uns.ds.size(); j++) v[std::to_string(j)] = m.uns.ds[j].votes(x);
  Pred p = bleach(v, m.cf.bleach, 1);
  p.labels.insert(p.label);
  return p;
}
inline float score(const VI& votes) {
  int mx = 0;
  float sum = 0;
  for (int v : votes) { mx = std::max(mx, v); sum += v; }
  if (mx == 0) return 0;
  return sum / (float)((size_t)mx * votes.size());
}

// ---- the state a JSON text describes
struct State {
  bool ok = false;
  std::string err;
  char t = 0;
  J cfg;  // everything but contents
  struct SD { int entry = 0, count = 0; VVI map; std::vector<Cells> rams; bool dataOk = false; };
  SD d;
  std::map<std::string, SD> cls;
  struct SC { int entry = 0; std::vector<SD> ds; };
  std::map<std::string, SC> clu;
  SC uns;
  bool hasUns = false;
};
typedef std::function<bool(const std::string&, std::string&)> Reader;
inline VVI jvvi(const J& j) { VVI r; for (auto& x : j.a) { r.push_back(VI()); for (auto& y : x.a) r.back().push_back((int)y.i); } return r; }
inline State::SD readD(const J& j, const Reader& rd) {
  State::SD s;
  s.entry = (int)j.num("entrySize", -1);
  s.count = (int)j.num("count", -1);
  s.map = jvvi(j.at("mapping"));
  std::string data = j.str("data");
  if (data.size() > 6 && data.compare(data.size() - 6, 6, ".wdpkg") == 0) {
    std::string c;
    if (!rd || !rd(data, c)) return s;
    data = c;
  }
  VS parts = split(data, '.');
  if (s.map.empty()) { s.dataOk = data.empty(); return s; }
  s.dataOk = true;
  for (size_t i = 0; i < parts.size(); i++) { Cells c; if (!ramdec(parts[i], c)) s.dataOk = false; s.rams.push_back(c); }
  if (s.rams.size() != s.map.size()) {
    // an untrained discriminator may be written as an empty text
    if (data.empty()) s.rams.assign(s.map.size(), Cells()); else s.dataOk = false;
  }
  return s;
}
inline State readState(const std::string& text, char t, const Reader& rd) {
  State s;
  s.t = t;
  try {
    J j = J::parse(text);
    s.cfg = J::obj();
    for (auto& e : j.o) if (e.first != "classes" && e.first != "clusters" && e.first != "unsupervisedCluster" && e.first != "data" && e.first != "count" && !(t == 'D' && e.first == "mapping")) s.cfg[e.first] = e.second;
    if (t == 'D') s.d = readD(j, rd);
    if (t == 'W') for (auto& e : j.at("classes").o) s.cls[e.first] = readD(e.second, rd);
    if (t == 'C') {
      for (auto& e : j.at("clusters").o) {
        auto& c = s.clu[e.first];
        c.entry = (int)e.second.num("entrySize");
        for (auto& d : e.second.at("discriminators").a) c.ds.push_back(readD(d, rd));
      }
      if (auto u = j.get("unsupervisedCluster")) {
        s.hasUns = true;
        s.uns.entry = (int)u->num("entrySize");
        for (auto& d : u->at("discriminators").a) s.uns.ds.push_back(readD(d, rd));
      }
    }
    s.ok = true;
  } catch (std::exception& e) { s.err = e.what(); }
  return s;
}
inline bool sameCells(Cells a, Cells b) {
  for (auto* p : {&a, &b}) for (auto it = p->begin(); it != p->end();) { if (it->second == 0) it = p->erase(it); else ++it; }
  return a == b;
}
// "" if the state is the model's, otherwise what differs
inline std::string cmpD(const State::SD& s, const MD& m, const std::string& where) {
  if (s.entry != m.entry) return where + ": entry size " + std::to_string(s.entry) + ", expected " + std::to_string(m.entry);
  if (s.map != m.map) return where + ": mapping changed";
  if (!s.dataOk) return where + ": RAM data is not readable";
  if (s.count != m.count) return where + ": count " + std::to_string(s.count) + ", expected " + std::to_string(m.count);
  auto ex = m.byAddr();
  for (size_t r = 0; r < ex.size(); r++) if (!sameCells(ex[r], s.rams[r])) return where + ": contents of RAM " + std::to_string(r) + " differ";
  return "";
}
inline std::string cmpState(const State& s, const Model& m) {
  if (!s.ok) return "text is not JSON: " + s.err;
  if (m.t == 'D') return cmpD(s.d, m.d, "discriminator");
  if (m.t == 'W') {
    for (auto& e : s.cls) if (!m.cls.count(e.first)) return "unexpected class \"" + e.first + "\"";
    for (auto& e : m.cls) {
      auto it = s.cls.find(e.first);
      if (it == s.cls.end()) return "class \"" + e.first + "\" is missing";
      std::string w = cmpD(it->second, e.second, "class \"" + e.first + "\"");
      if (w.size()) return w;
    }
  }
  if (m.t == 'C') {
    for (auto& e : s.clu) if (!m.clu.count(e.first)) return "unexpected cluster \"" + e.first + "\"";
    for (auto& e : m.clu) {
      auto it = s.clu.find(e.first);
      if (it == s.clu.end()) return "cluster \"" + e.first + "\" is missing";
      if (it->second.ds.size() != e.second.ds.size()) return "cluster \"" + e.first + "\" has " + std::to_string(it->second.ds.size()) + " discriminators, expected " + std::to_string(e.second.ds.size());
      for (size_t j = 0; j < e.second.ds.size(); j++) {
        std::string w = cmpD(it->second.ds[j], e.second.ds[j], "cluster \"" + e.first + "\" discriminator " + std::to_string(j));
        if (w.size()) return w;
      }
    }
    if (s.uns.ds.size() != m.uns.ds.size()) return "unsupervised cluster has " + std::to_string(s.uns.ds.size()) + " discriminators, expected " + std::to_string(m.uns.ds.size());
    for (size_t j = 0; j < m.uns.ds.size(); j++) {
      std::string w = cmpD(s.uns.ds[j], m.uns.ds[j], "unsupervised discriminator " + std::to_string(j));
      if (w.size()) return w;
    }
  }
  return "";
}

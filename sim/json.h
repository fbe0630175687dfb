// A small JSON value, parser and writer of the simulator's own (plans, results, reading models).
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool isint = false;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(bool v) : t(BOOL), i(v) {}
  J(int v) : t(NUM), isint(true), i(v), d(v) {}
  J(long v) : t(NUM), isint(true), i(v), d(v) {}
  J(unsigned long v) : t(NUM), isint(true), i((int64_t)v), d(v) {}
  J(double v) : t(NUM), d(v) {}
  J(const char* v) : t(STR), s(v) {}
  J(const std::string& v) : t(STR), s(v) {}
  J(const std::vector<int>& v) : t(ARR) { for (int x : v) a.push_back(J(x)); }
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  bool has(const std::string& k) const { return get(k) != nullptr; }
  const J* get(const std::string& k) const {
    if (t == OBJ) for (auto& e : o) if (e.first == k) return &e.second;
    return nullptr;
  }
  J& operator[](const std::string& k) {
    if (t == NUL) t = OBJ;
    for (auto& e : o) if (e.first == k) return e.second;
    o.push_back(std::make_pair(k, J()));
    return o.back().second;
  }
  const J& at(const std::string& k) const {
    static const J nul;
    auto p = get(k);
    return p ? *p : nul;
  }
  void push(J v) { if (t == NUL) t = ARR; a.push_back(std::move(v)); }
  int64_t num(const std::string& k, int64_t def = 0) const { auto p = get(k); return p && (p->t == NUM || p->t == BOOL) ? (p->isint || p->t == BOOL ? p->i : (int64_t)p->d) : def; }
  double dbl(const std::string& k, double def = 0) const { auto p = get(k); return p && p->t == NUM ? p->d : def; }
  bool flag(const std::string& k, bool def = false) const { auto p = get(k); return p ? (p->t == BOOL || p->t == NUM ? p->i != 0 : def) : def; }
  std::string str(const std::string& k, const std::string& def = "") const { auto p = get(k); return p && p->t == STR ? p->s : def; }
  std::string dump() const { std::string r; w(r); return r; }
  void w(std::string& r) const {
    switch (t) {
      case NUL: r += "null"; break;
      case BOOL: r += i ? "true" : "false"; break;
      case NUM: {
        char b[40];
        if (isint) snprintf(b, sizeof b, "%lld", (long long)i);
        else { snprintf(b, sizeof b, "%.17g", d); if (!strpbrk(b, ".eni")) strcat(b, ".0"); }
        r += b;
        break;
      }
      case STR: q(r, s); break;
      case ARR: r += '['; for (size_t k = 0; k < a.size(); k++) { if (k) r += ','; a[k].w(r); } r += ']'; break;
      case OBJ: r += '{'; for (size_t k = 0; k < o.size(); k++) { if (k) r += ','; q(r, o[k].first); r += ':'; o[k].second.w(r); } r += '}'; break;
    }
  }
  static void q(std::string& r, const std::string& s) {
    r += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    r += '"';
  }
  static J parse(const std::string& s) {
    const char *p = s.data(), *e = p + s.size();
    J v = val(p, e, 0);
    ws(p, e);
    if (p != e) throw std::runtime_error("json: trailing text");
    return v;
  }
 private:
  static void ws(const char*& p, const char* e) { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  static J val(const char*& p, const char* e, int depth) {
    if (depth > 200) throw std::runtime_error("json: depth");
    ws(p, e);
    if (p >= e) throw std::runtime_error("json: end");
    J v;
    if (*p == '{') {
      v.t = OBJ; p++; ws(p, e);
      if (p < e && *p == '}') { p++; return v; }
      for (;;) {
        ws(p, e);
        std::string k = str(p, e);
        ws(p, e);
        if (p >= e || *p != ':') throw std::runtime_error("json: :");
        p++;
        v.o.push_back(std::make_pair(k, val(p, e, depth + 1)));
        ws(p, e);
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == '}') { p++; return v; }
        throw std::runtime_error("json: }");
      }
    }
    if (*p == '[') {
      v.t = ARR; p++; ws(p, e);
      if (p < e && *p == ']') { p++; return v; }
      for (;;) {
        v.a.push_back(val(p, e, depth + 1));
        ws(p, e);
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == ']') { p++; return v; }
        throw std::runtime_error("json: ]");
      }
    }
    if (*p == '"') { v.t = STR; v.s = str(p, e); return v; }
    if (e - p >= 4 && !strncmp(p, "true", 4)) { p += 4; return J(true); }
    if (e - p >= 5 && !strncmp(p, "false", 5)) { p += 5; return J(false); }
    if (e - p >= 4 && !strncmp(p, "null", 4)) { p += 4; return J(); }
    const char* b = p;
    bool fl = false;
    while (p < e && (strchr("+-0123456789.eE", *p) && *p)) { if (*p == '.' || *p == 'e' || *p == 'E') fl = true; p++; }
    if (p == b) throw std::runtime_error("json: value");
    std::string n(b, p);
    v.t = NUM;
    v.isint = !fl;
    v.d = strtod(n.c_str(), nullptr);
    v.i = fl ? (int64_t)v.d : (n[0] == '-' ? strtoll(n.c_str(), nullptr, 10) : (int64_t)strtoull(n.c_str(), nullptr, 10));
    return v;
  }
  static int hex(const char*& p, const char* e) {
    if (e - p < 4) throw std::runtime_error("json: hex");
    int v = (int)strtol(std::string(p, p + 4).c_str(), nullptr, 16);
    p += 4;
    return v;
  }
  static std::string str(const char*& p, const char* e) {
    if (p >= e || *p != '"') throw std::runtime_error("json: string");
    p++;
    std::string r;
    while (p < e && *p != '"') {
      if (*p != '\\') { r += *p++; continue; }
      p++;
      if (p >= e) break;
      char c = *p++;
      if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r';
      else if (c == 'b') r += '\b'; else if (c == 'f') r += '\f';
      else if (c == 'u') {
        unsigned u = hex(p, e);
        if (u >= 0xd800 && u < 0xdc00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned l = hex(p, e); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); }
        if (u < 0x80) r += (char)u;
        else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
        else if (u < 0x10000) { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | ((u >> 6) & 63)); r += (char)(0x80 | (u & 63)); }
        else { r += (char)(0xf0 | u >> 18); r += (char)(0x80 | ((u >> 12) & 63)); r += (char)(0x80 | ((u >> 6) & 63)); r += (char)(0x80 | (u & 63)); }
      } else r += c;
    }
    if (p >= e) throw std::runtime_error("json: string end");
    p++;
    return r;
  }
};

// Minimal JSON for the conformance drivers (ints, strings, arrays, objects).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
  enum K { INT, STR, ARR, OBJ, NUL } k = NUL;
  long long n = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(long long v) : k(INT), n(v) {}
  J(int v) : k(INT), n(v) {}
  J(bool v) : k(INT), n(v ? 1 : 0) {}
  J(const std::string &v) : k(STR), s(v) {}
  J(const char *v) : k(STR), s(v) {}
  static J arr() { J j; j.k = ARR; return j; }
  static J obj() { J j; j.k = OBJ; return j; }
  void push(const J &j) { a.push_back(j); }
  bool has(const std::string &f) const {
    for (auto &p : o) if (p.first == f) return true;
    return false;
  }
  const J &operator[](const std::string &f) const {
    for (auto &p : o) if (p.first == f) return p.second;
    throw std::runtime_error("driver: missing field " + f);
  }
  long long i(const std::string &f) const { return (*this)[f].n; }
  void set(const std::string &f, const J &v) {
    for (auto &p : o) if (p.first == f) { p.second = v; return; }
    o.push_back({f, v});
  }
  std::string str() const {
    std::string r; dump(r); return r;
  }
  void dump(std::string &r) const {
    switch (k) {
    case INT: r += std::to_string(n); break;
    case NUL: r += "[]"; break;
    case STR:
      r += '"';
      for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
      }
      r += '"';
      break;
    case ARR: {
      r += '[';
      bool f = true;
      for (auto &x : a) { if (!f) r += ','; f = false; x.dump(r); }
      r += ']';
      break;
    }
    case OBJ: {
      r += '{';
      bool f = true;
      for (auto &x : o) {
        if (!f) r += ',';
        f = false;
        r += '"'; r += x.first; r += "\":";
        x.second.dump(r);
      }
      r += '}';
      break;
    }
    }
  }
};

struct JParser {
  const char *p;
  explicit JParser(const std::string &s) : p(s.c_str()) {}
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; }
  std::string str() {
    std::string r;
    p++;
    while (*p && *p != '"') {
      if (*p == '\\') {
        p++;
        switch (*p) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'u': {
          int v = (int)strtol(std::string(p + 1, 4).c_str(), 0, 16);
          r += (char)v; p += 4; break;
        }
        default: r += *p;
        }
        p++;
      } else r += *p++;
    }
    p++;
    return r;
  }
  J val() {
    ws();
    if (*p == '[') {
      J j = J::arr(); p++; ws();
      while (*p != ']') { j.a.push_back(val()); ws(); if (*p == ',') p++; ws(); }
      p++;
      return j;
    }
    if (*p == '{') {
      J j = J::obj(); p++; ws();
      while (*p != '}') {
        ws(); std::string k = str(); ws(); p++;
        j.o.push_back({k, val()}); ws(); if (*p == ',') p++; ws();
      }
      p++;
      return j;
    }
    if (*p == '"') return J(str());
    char *e;
    long long v = strtoll(p, &e, 10);
    if (e == p) throw std::runtime_error("driver: bad JSON");
    p = e;
    return J(v);
  }
};
inline J jparse(const std::string &s) { return JParser(s).val(); }

// A minimal JSON value, parser and writer for the harnesses (independent of the code under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace mj {
struct V {
  enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
  bool b = false;
  long long i = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  V() {}
  V(bool x) : t(Bool), b(x) {}
  V(int x) : t(Int), i(x) {}
  V(long x) : t(Int), i(x) {}
  V(long long x) : t(Int), i(x) {}
  V(unsigned x) : t(Int), i(x) {}
  V(unsigned long x) : t(Int), i((long long)x) {}
  V(unsigned long long x) : t(Int), i((long long)x) {}
  V(const char* x) : t(Str), s(x) {}
  V(const std::string& x) : t(Str), s(x) {}
  static V arr() { V v; v.t = Arr; return v; }
  static V obj() { V v; v.t = Obj; return v; }
  bool has(const std::string& k) const { for (auto& p : o) if (p.first == k) return true; return false; }
  const V& operator[](const std::string& k) const {
    for (auto& p : o) if (p.first == k) return p.second;
    static V null; return null;
  }
  V& set(const std::string& k, V v) {
    t = Obj;
    for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; }
    o.emplace_back(k, std::move(v)); return *this;
  }
  V& push(V v) { t = Arr; a.push_back(std::move(v)); return *this; }
  static void esc(std::string& out, const std::string& s) {
    out += '"';
    for (unsigned char c : s) {
      if (c == '"') out += "\\\""; else if (c == '\\') out += "\\\\"; else if (c == '\n') out += "\\n";
      else if (c == '\t') out += "\\t"; else if (c == '\r') out += "\\r";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
      else out += (char)c;
    }
    out += '"';
  }
  void dump(std::string& out) const {
    switch (t) {
      case Null: out += "null"; break;
      case Bool: out += b ? "true" : "false"; break;
      case Int: out += std::to_string(i); break;
      case Str: esc(out, s); break;
      case Arr: { out += '['; bool f = true; for (auto& x : a) { if (!f) out += ','; f = false; x.dump(out); } out += ']'; break; }
      case Obj: { out += '{'; bool f = true; for (auto& p : o) { if (!f) out += ','; f = false; esc(out, p.first); out += ':'; p.second.dump(out); } out += '}'; break; }
    }
  }
  std::string str() const { std::string r; dump(r); return r; }
};
struct P {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
  std::string S() {
    std::string r; ++p;
    while (*p && *p != '"') {
      if (*p == '\\') {
        ++p;
        switch (*p) {
          case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break;
          case 'u': { unsigned c = strtoul(std::string(p + 1, 4).c_str(), nullptr, 16); r += (char)c; p += 4; break; }
          default: r += *p;
        }
        ++p;
      } else r += *p++;
    }
    if (*p) ++p;
    return r;
  }
  V parse() {
    ws();
    V v;
    if (*p == '{') {
      v.t = V::Obj; ++p; ws();
      while (*p && *p != '}') { ws(); std::string k = S(); ws(); ++p; v.o.emplace_back(k, parse()); ws(); if (*p == ',') ++p; ws(); }
      if (*p) ++p;
    } else if (*p == '[') {
      v.t = V::Arr; ++p; ws();
      while (*p && *p != ']') { v.a.push_back(parse()); ws(); if (*p == ',') ++p; ws(); }
      if (*p) ++p;
    } else if (*p == '"') { v.t = V::Str; v.s = S(); }
    else if (*p == 't') { v = V(true); p += 4; }
    else if (*p == 'f') { v = V(false); p += 5; }
    else if (*p == 'n') { p += 4; }
    else { char* e; v.t = V::Int; v.i = strtoll(p, &e, 10); p = e == p ? p + 1 : e; }
    return v;
  }
};
inline V parse(const std::string& s) { P p{s.c_str()}; return p.parse(); }
}  // namespace mj

// S-expressions, one per line: ( ) and percent-encoded atoms
#pragma once
#include <string>
#include <vector>
#include <iostream>
#include <cstdlib>
#include <cstdio>
struct N { bool list = false; std::string a; std::vector<N> k;
  const N& operator[](size_t i) const { static N e; return i < k.size() ? k[i] : e; }
  long num() const { return strtol(a.c_str(), 0, 10); }
  bool is(const char* s) const { return !list && a == s; }
  std::vector<std::string> strs() const { std::vector<std::string> r; for (auto& x : k) r.push_back(x.a); return r; } };
inline std::string dec(const std::string& s) { std::string r; if (s == "%") return r;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i]; return r; }
inline std::string enc(const std::string& s) { if (s.empty()) return "%"; std::string r; char b[8];
  for (unsigned char c : s) if (c <= 32 || c >= 127 || c == '%' || c == '(' || c == ')') { snprintf(b, 8, "%%%02x", c); r += b; } else r += (char)c; return r; }
inline N parse_sx(const std::string& s, size_t& i) { N n; while (i < s.size() && s[i] == ' ') ++i;
  if (s[i] == '(') { n.list = true; ++i; for (;;) { while (i < s.size() && s[i] == ' ') ++i; if (i >= s.size()) break; if (s[i] == ')') { ++i; break; } n.k.push_back(parse_sx(s, i)); } return n; }
  size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != '(' && s[j] != ')') ++j; n.a = dec(s.substr(i, j - i)); i = j; return n; }
struct Out { std::string s; 
  Out& o() { s += "( "; return *this; } Out& c() { s += ") "; return *this; }
  Out& a(const std::string& x) { s += enc(x); s += ' '; return *this; }
  Out& n(long x) { s += std::to_string(x); s += ' '; return *this; }
  Out& v(const std::vector<std::string>& x) { o(); for (auto& y : x) a(y); return c(); } };

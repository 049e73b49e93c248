// small standalone helpers for the demonstrations: circuits as "npi:a.b,c.d,:po,po," (AIGER-style literals)
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
using Aig = iFPGA::aig_network;
using Klut = iFPGA::klut_network;
typedef std::vector<bool> Bits;
struct Circ { int npi = 0; std::vector<std::pair<unsigned, unsigned>> g; std::vector<unsigned> po; };
inline Circ circ(std::string s) {
  Circ c; c.npi = atoi(s.c_str()); size_t p = s.find(':'), q = s.find(':', p + 1); std::stringstream a(s.substr(p + 1, q - p - 1)), b(s.substr(q + 1)); std::string t;
  while (std::getline(a, t, ',')) if (!t.empty()) c.g.push_back({(unsigned)atoi(t.c_str()), (unsigned)atoi(t.c_str() + t.find('.') + 1)});
  while (std::getline(b, t, ',')) if (!t.empty()) c.po.push_back(atoi(t.c_str()));
  return c;
}
inline Aig net(Circ const &c) {
  Aig a; std::vector<Aig::signal> v{a.get_constant(false)}; for (int i = 0; i < c.npi; ++i) v.push_back(a.create_pi());
  auto L = [&](unsigned l) { return l & 1 ? !v[l >> 1] : v[l >> 1]; };
  for (auto &g : c.g) v.push_back(a.create_and(L(g.first), L(g.second)));
  for (auto o : c.po) a.create_po(L(o));
  return a;
}
inline std::vector<Bits> truth(Circ const &c) {
  std::vector<Bits> r(c.po.size());
  for (unsigned m = 0; m < (1u << c.npi); ++m) {
    std::vector<char> v{0}; for (int i = 0; i < c.npi; ++i) v.push_back(m >> i & 1);
    auto L = [&](unsigned l) { return (v[l >> 1] ^ (l & 1)) & 1; };
    for (auto &g : c.g) v.push_back(L(g.first) & L(g.second));
    for (size_t i = 0; i < c.po.size(); ++i) r[i].push_back(L(c.po[i]));
  }
  return r;
}
inline std::vector<Bits> truth(Aig const &a) {
  unsigned n = a.num_pis(); std::vector<Bits> r(a.num_pos());
  for (unsigned m = 0; m < (1u << n); ++m) {
    std::vector<int> v(a.size(), -1); v[0] = 0; unsigned k = 0; a.foreach_pi([&](auto p) { v[p] = m >> k++ & 1; });
    std::function<int(uint64_t, int)> f = [&](uint64_t x, int d) -> int { if (v[x] >= 0) return v[x]; if (d > 100000) { printf("cycle\n"); exit(1); } auto p = a.get_child0(x), q = a.get_child1(x); return v[x] = (f(p.index, d + 1) ^ p.complement) & (f(q.index, d + 1) ^ q.complement); };
    unsigned i = 0; a.foreach_po([&](Aig::signal const &s) { r[i++].push_back(f(s.index, 0) ^ s.complement); });
  }
  return r;
}
inline int depth(Aig const &a) {
  std::vector<int> v(a.size(), -1); v[0] = 0; a.foreach_pi([&](auto p) { v[p] = 0; });
  std::function<int(uint64_t)> f = [&](uint64_t x) -> int { if (v[x] >= 0) return v[x]; int p = f(a.get_child0(x).index), q = f(a.get_child1(x).index); return v[x] = 1 + (p > q ? p : q); };
  int d = 0; a.foreach_po([&](Aig::signal const &s) { int x = f(s.index); if (x > d) d = x; }); return d;
}
inline std::vector<Bits> truth(Klut const &k) {
  unsigned n = k.num_pis(); std::vector<Bits> r(k.num_pos());
  for (unsigned m = 0; m < (1u << n); ++m) {
    std::vector<int> v(k.size(), 0); v[1] = 1; unsigned j = 0; k.foreach_pi([&](auto p) { v[p] = m >> j++ & 1; });
    k.foreach_gate([&](auto x) { unsigned i = 0, b = 0; k.foreach_fanin(x, [&](auto f) { b |= v[k.get_node(f)] << i++; }); auto t = k.node_function(x); v[x] = kitty::get_bit(t, b); });
    unsigned i = 0; k.foreach_po([&](auto s) { r[i++].push_back(v[k.get_node(s)] ^ (k.is_complemented(s) ? 1 : 0)); });
  }
  return r;
}
inline void check(bool ok, const char *what) { if (!ok) { printf("FAIL: %s\n", what); exit(1); } }
// pseudo-random circuit with npi inputs, ng gates (before hashing), npo outputs of the last gates
struct Rnd { uint64_t s; explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 88172645463325252ull) { for (int i = 0; i < 4; ++i) (*this)(2); } uint64_t operator()(uint64_t m) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) % m; } };
inline Circ rcirc(uint64_t seed, int npi, int ng, int npo, int window = 1000) {
  Rnd r(seed); Circ c; c.npi = npi; unsigned top = npi;
  for (int i = 0; i < ng; ++i) { unsigned w = top < (unsigned)window ? top : window, a, b; do { a = 1 + top - 1 - r(w); b = 1 + top - 1 - r(w); } while (a == b); c.g.push_back({2 * a + (unsigned)r(2), 2 * b + (unsigned)r(2)}); ++top; }
  for (int i = 0; i < npo; ++i) c.po.push_back(2 * (top - r(npo + 2 > (int)top ? top : npo + 2)) + r(2));
  return c;
}

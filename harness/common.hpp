// Bounded-exhaustive exploration framework shared by all checks.
//
//  * a Spec is a plain description of a combinational circuit (AIGER-style literals)
//  * gen_* enumerate complete, finite families of Specs (no sampling)
//  * Runner shards the enumeration over forked workers, detects crashes / aborts / hangs,
//    replays every failing case alone before reporting it, and writes the evidence file.
//  * tt() is the reference evaluator (boring word-parallel simulation of the Spec)
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vf {
using u64 = uint64_t;
using u32 = uint32_t;

// ---------------------------------------------------------------- truth tables
struct TT { // function of n variables, n <= 20
  int n = 0;
  std::vector<u64> w;
  static size_t words(int n) { return n <= 6 ? 1 : (size_t(1) << (n - 6)); }
  static u64 mask(int n) { return n >= 6 ? ~u64(0) : ((u64(1) << (1 << n)) - 1); }
  explicit TT(int n_ = 0) : n(n_), w(words(n_), 0) {}
  static TT var(int n, int v) {
    static const u64 m[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull,
                             0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
    TT t(n);
    if (v < 6) for (auto &x : t.w) x = m[v] & mask(n);
    else for (size_t i = 0; i < t.w.size(); ++i) t.w[i] = (i >> (v - 6)) & 1 ? ~u64(0) : 0;
    return t;
  }
  TT operator~() const { TT r(*this); for (auto &x : r.w) x = ~x & mask(n); return r; }
  TT operator&(TT const &o) const { TT r(*this); for (size_t i = 0; i < w.size(); ++i) r.w[i] &= o.w[i]; return r; }
  TT operator|(TT const &o) const { TT r(*this); for (size_t i = 0; i < w.size(); ++i) r.w[i] |= o.w[i]; return r; }
  TT operator^(TT const &o) const { TT r(*this); for (size_t i = 0; i < w.size(); ++i) r.w[i] ^= o.w[i]; return r; }
  bool operator==(TT const &o) const { return n == o.n && w == o.w; }
  bool operator!=(TT const &o) const { return !(*this == o); }
  bool operator<(TT const &o) const { return w < o.w; }
  bool bit(size_t i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void setbit(size_t i) { w[i >> 6] |= u64(1) << (i & 63); }
  bool isconst() const { for (auto x : w) if (x != w[0]) return false; return w[0] == 0 || w[0] == mask(n); }
  std::string hex() const {
    std::string s; char b[20];
    for (size_t i = w.size(); i-- > 0;) { snprintf(b, sizeof b, n >= 6 ? "%016llx" : "%llx", (unsigned long long)w[i]); s += b; }
    return s;
  }
};
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
inline u64 hashTT(TT const &t, u64 h = 1) { for (auto x : t.w) h = mix(h, x); return h; }
inline u64 hashS(std::string const &s, u64 h = 7) { for (unsigned char c : s) h = mix(h, c); return h; }

// ---------------------------------------------------------------- circuit specs
struct Spec {
  int npi = 0;
  std::vector<std::pair<u32, u32>> g; // literals: 2*var+neg ; var 0 const, 1..npi PIs, npi+1.. gates
  std::vector<u32> po;
  static Spec named(std::string const &s); // large circuits, referred to by name
  std::string str() const {
    std::string s = std::to_string(npi) + ":";
    for (auto &p : g) s += std::to_string(p.first) + "." + std::to_string(p.second) + ",";
    s += ":";
    for (auto o : po) s += std::to_string(o) + ",";
    return s;
  }
  static Spec parse(std::string const &s) {
    if (!s.empty() && s[0] == '@') return named(s.substr(1));
    Spec r; size_t p = s.find(':'); r.npi = atoi(s.substr(0, p).c_str());
    size_t q = s.find(':', p + 1);
    std::stringstream gs(s.substr(p + 1, q - p - 1)), ps(s.substr(q + 1)); std::string t;
    while (std::getline(gs, t, ',')) if (!t.empty()) r.g.push_back({(u32)atoi(t.c_str()), (u32)atoi(t.substr(t.find('.') + 1).c_str())});
    while (std::getline(ps, t, ',')) if (!t.empty()) r.po.push_back(atoi(t.c_str()));
    return r;
  }
  // all gates reachable from POs?
  std::vector<char> reach() const {
    std::vector<char> v(npi + 1 + g.size(), 0);
    for (auto o : po) v[o >> 1] = 1;
    for (size_t i = g.size(); i-- > 0;) if (v[npi + 1 + i]) v[g[i].first >> 1] = v[g[i].second >> 1] = 1;
    return v;
  }
  std::vector<TT> nodes() const {
    std::vector<TT> v; v.reserve(npi + 1 + g.size()); v.push_back(TT(npi));
    for (int i = 0; i < npi; ++i) v.push_back(TT::var(npi, i));
    for (auto &p : g) v.push_back((p.first & 1 ? ~v[p.first >> 1] : v[p.first >> 1]) & (p.second & 1 ? ~v[p.second >> 1] : v[p.second >> 1]));
    return v;
  }
  std::vector<TT> tt() const {
    auto v = nodes(); std::vector<TT> r;
    for (auto o : po) r.push_back(o & 1 ? ~v[o >> 1] : v[o >> 1]);
    return r;
  }
  u32 depth() const {
    std::vector<u32> l(npi + 1 + g.size(), 0); u32 d = 0;
    for (size_t i = 0; i < g.size(); ++i) l[npi + 1 + i] = 1 + std::max(l[g[i].first >> 1], l[g[i].second >> 1]);
    for (auto o : po) d = std::max(d, l[o >> 1]);
    return d;
  }
};
struct SpecBuilder { // simple structural builder (its own strash) for structured families
  Spec s; std::map<std::pair<u32, u32>, u32> h;
  explicit SpecBuilder(int n) { s.npi = n; }
  u32 pi(int i) const { return 2 * (i + 1); }
  u32 And(u32 a, u32 b) {
    if (a > b) std::swap(a, b);
    if (a == 0) return 0; if (a == 1) return b; if (a == b) return a; if ((a ^ b) == 1) return 0;
    auto it = h.find({a, b}); if (it != h.end()) return it->second;
    s.g.push_back({a, b}); u32 l = 2 * (s.npi + s.g.size()); h[{a, b}] = l; return l;
  }
  u32 Or(u32 a, u32 b) { return And(a ^ 1, b ^ 1) ^ 1; }
  u32 Xor(u32 a, u32 b) { return Or(And(a, b ^ 1), And(a ^ 1, b)); }
  u32 Xnor2(u32 a, u32 b) { return And(And(a, b) ^ 1, And(a ^ 1, b ^ 1) ^ 1); } // xor as (a|b)&!(a&b)
  u32 Mux(u32 c, u32 t, u32 e) { return Or(And(c, t), And(c ^ 1, e)); }
  u32 Maj(u32 a, u32 b, u32 c) { return Or(And(a, b), And(c, Or(a, b))); }
  // Shannon tree over ins with function bits f (LSB first: minterm index by ins[0] = bit0)
  u32 shannon(std::vector<u32> const &ins, u64 f) { return sh(ins, f, (int)ins.size()); }
  u32 sh(std::vector<u32> const &ins, u64 f, int k) {
    u64 m = TT::mask(k); f &= m;
    if (f == 0) return 0; if (f == m) return 1;
    u64 lo = f & TT::mask(k - 1), hi = f >> (1 << (k - 1));
    return Mux(ins[k - 1], sh(ins, hi, k - 1), sh(ins, lo, k - 1));
  }
  // sum of minterms, chained
  u32 sop(std::vector<u32> const &ins, u64 f) {
    u32 r = 0;
    for (u32 m = 0; m < (1u << ins.size()); ++m) if ((f >> m) & 1) {
      u32 c = 1; for (size_t i = 0; i < ins.size(); ++i) c = And(c, ins[i] ^ !((m >> i) & 1));
      r = Or(r, c);
    }
    return r;
  }
  u32 pos(std::vector<u32> const &ins, u64 f) { return sop(ins, ~f & TT::mask(ins.size())) ^ 1; }
  // Davio / Reed-Muller: xor of products
  u32 esop(std::vector<u32> const &ins, u64 f) {
    int k = ins.size(); std::vector<int> c(1 << k);
    for (int i = 0; i < (1 << k); ++i) c[i] = (f >> i) & 1;
    for (int j = 0; j < k; ++j) for (int i = 0; i < (1 << k); ++i) if (i >> j & 1) c[i] ^= c[i ^ (1 << j)];
    u32 r = 0;
    for (int i = 0; i < (1 << k); ++i) if (c[i]) { u32 p = 1; for (int j = 0; j < k; ++j) if (i >> j & 1) p = And(p, ins[j]); r = Xor(r, p); }
    return r;
  }
  u32 style(int st, std::vector<u32> const &ins, u64 f) { return st == 0 ? shannon(ins, f) : st == 1 ? sop(ins, f) : st == 2 ? pos(ins, f) : esop(ins, f); }
};
using SpecFn = std::function<void(Spec const &)>;

// --- family A: every AIG with npi inputs and ng gates.
// norm: up to order of independent gates; sym: additionally up to renaming/negating inputs (first-use order)
inline void gen_all(int npi, int ng, bool sym, SpecFn const &cb) {
  Spec s; s.npi = npi;
  std::function<void(int, int)> rec = [&](int k, int used) {
    if (k == ng) { cb(s); return; }
    u32 top = npi + 1 + k; // vars < top available
    for (u32 b = 2; b < top; ++b) for (u32 a = 1; a < b; ++a) for (int pol = 0; pol < 4; ++pol) {
      u32 la = 2 * a + (pol & 1), lb = 2 * b + (pol >> 1); int nu = used;
      if (sym) {
        bool ok = true;
        for (u32 l : {la, lb}) { u32 v = l >> 1; if ((int)v <= npi && (int)v > nu) { if ((int)v != nu + 1 || (l & 1)) { ok = false; break; } ++nu; } }
        if (!ok) continue;
      }
      std::pair<u32, u32> p{la, lb}; bool dup = false;
      for (auto &q : s.g) if (q == p) { dup = true; break; }
      if (dup) continue;
      if (k > 0 && b != top - 1 && a != top - 1) { auto &q = s.g.back(); if (std::make_pair(lb, la) < std::make_pair(q.second, q.first)) continue; }
      s.g.push_back(p); rec(k + 1, nu); s.g.pop_back();
    }
  };
  rec(0, 0);
}
// PO assignments for a gate list. mode bits:
//  0: sinks, positive   1: sinks, complemented   2: every gate (alternating polarity)
//  3: sinks both polarities + const0,const1,pi1,!pi_last  4: sinks alternating + first gate
inline void with_pos(Spec s, int mode, SpecFn const &cb) {
  std::vector<char> used(s.npi + 1 + s.g.size(), 0);
  for (auto &p : s.g) used[p.first >> 1] = used[p.second >> 1] = 1;
  std::vector<u32> sinks; for (size_t i = 0; i < s.g.size(); ++i) if (!used[s.npi + 1 + i]) sinks.push_back(s.npi + 1 + i);
  s.po.clear();
  switch (mode) {
  case 0: for (u32 v : sinks) s.po.push_back(2 * v); break;
  case 1: for (u32 v : sinks) s.po.push_back(2 * v + 1); break;
  case 2: for (u32 i = 0; i < s.g.size(); ++i) s.po.push_back(2 * (s.npi + 1 + i) + (i & 1)); break;
  case 3: s.po.push_back(0); for (u32 v : sinks) { s.po.push_back(2 * v); s.po.push_back(2 * v + 1); }
    s.po.push_back(1); s.po.push_back(2); s.po.push_back(2 * s.npi + 1); break;
  case 4: { int t = 0; for (u32 v : sinks) s.po.push_back(2 * v + ((t++) & 1)); if (!s.g.empty()) s.po.push_back(2 * (s.npi + 1)); break; }
  }
  cb(s);
}
// --- family B: every k-input function in each construction style (k <= 4), one output
inline void gen_functions(int k, int style, u64 step, SpecFn const &cb) {
  for (u64 f = 0; f < (u64(1) << (1 << k)); f += step) {
    SpecBuilder b(k); std::vector<u32> in; for (int i = 0; i < k; ++i) in.push_back(b.pi(i));
    b.s.po.push_back(b.style(style, in, f)); cb(b.s);
  }
}
// --- family C: every pair of 3-input functions; kind 0: two outputs over same 3 inputs, 1: f(g(a,b,c),c,d), 2: f(g(a,b,c),d,e), 3: f(g(a,b,c), h=g(c,d,e), a)
inline void gen_pairs(int kind, int s1, int s2, SpecFn const &cb) {
  for (u64 f = 0; f < 256; ++f) for (u64 g = 0; g < 256; ++g) {
    int n = kind == 0 ? 3 : kind == 1 ? 4 : 5; SpecBuilder b(n); auto P = [&](int i) { return b.pi(i); };
    if (kind == 0) { u32 x = b.style(s1, {P(0), P(1), P(2)}, f), y = b.style(s2, {P(0), P(1), P(2)}, g); b.s.po = {x, y}; }
    else {
      u32 y = b.style(s2, {P(0), P(1), P(2)}, g), x;
      if (kind == 1) x = b.style(s1, {y, P(2), P(3)}, f);
      else if (kind == 2) x = b.style(s1, {y, P(3), P(4)}, f);
      else { u32 z = b.style(s2, {P(2), P(3), P(4)}, g); x = b.style(s1, {y, z, P(0)}, f); }
      b.s.po = {x, y};
    }
    cb(b.s);
  }
}
// --- family D: every binary tree shape with L leaves, every AND/OR(/XOR) labelling; leaf i reads input i mod m (alternating polarity if pol)
inline void gen_trees(int L, int m, int nops, bool pol, SpecFn const &cb) {
  // shapes as recursive splits, ops as base-nops digits in creation order
  struct T { int l, r; };
  std::vector<T> nodes; std::vector<int> order;
  std::function<void(int, std::function<void(int)>)> build = [&](int leaves, std::function<void(int)> k) {
    if (leaves == 1) { k(-1); return; }
    for (int a = 1; a < leaves; ++a)
      build(a, [&, a, leaves](int li) { build(leaves - a, [&, li](int ri) { nodes.push_back({li, ri}); k((int)nodes.size() - 1); nodes.pop_back(); }); });
  };
  build(L, [&](int root) {
    u64 combos = 1; for (int i = 0; i < L - 1; ++i) combos *= nops;
    for (u64 c = 0; c < combos; ++c) {
      SpecBuilder b(m); int leaf = 0; u64 cc = c; std::vector<int> ops; for (int i = 0; i < L - 1; ++i) { ops.push_back(cc % nops); cc /= nops; }
      std::function<u32(int)> ev = [&](int n) -> u32 {
        if (n < 0) { int i = leaf++; return b.pi(i % m) ^ (pol ? (i / m + i) & 1 : 0); }
        u32 x = ev(nodes[n].l), y = ev(nodes[n].r);
        return ops[n] == 0 ? b.And(x, y) : ops[n] == 1 ? b.Or(x, y) : b.Xor(x, y);
      };
      b.s.po.push_back(ev(root)); cb(b.s);
    }
  });
}
// --- family E: recurrence AIGs. gate i = (node[i-a] ^ pa) & (node[i-b] ^ pb), the (a,b,pa,pb) cycling through a
// pattern of `per` entries drawn from all offsets 1<=a<b<=span; every pattern enumerated. POs: last `npo` gates.
inline void gen_recur(int npi, int len, int span, int per, int npo, SpecFn const &cb, u64 stride = 1, u64 phase0 = 0) {
  std::vector<std::array<int, 4>> e;
  for (int b = 2; b <= span; ++b) for (int a = 1; a < b; ++a) for (int p = 0; p < 4; ++p) e.push_back({a, b, p & 1, p >> 1});
  u64 tot = 1; for (int i = 0; i < per; ++i) tot *= e.size();
  for (u64 c = phase0; c < tot; c += stride) {
    std::vector<std::array<int, 4>> pat; u64 x = c; for (int i = 0; i < per; ++i) { pat.push_back(e[x % e.size()]); x /= e.size(); }
    SpecBuilder b(npi); std::vector<u32> lit; for (int i = 0; i < npi; ++i) lit.push_back(b.pi(i));
    for (int i = 0; i < len; ++i) {
      auto &q = pat[i % per]; int n = lit.size();
      u32 l = lit[std::max(0, n - q[0])] ^ q[2], r = lit[std::max(0, n - q[1])] ^ q[3];
      lit.push_back(b.And(l, r));
    }
    for (int i = 0; i < npo; ++i) b.s.po.push_back(lit[lit.size() - 1 - i] ^ (i & 1));
    // drop unreachable gates so that the spec is a clean network
    auto v = b.s.reach(); Spec t; t.npi = npi; std::vector<u32> mp(v.size(), 0); for (int i = 0; i <= npi; ++i) mp[i] = i;
    for (size_t i = 0; i < b.s.g.size(); ++i) if (v[npi + 1 + i]) { auto q = b.s.g[i]; t.g.push_back({2 * mp[q.first >> 1] + (q.first & 1), 2 * mp[q.second >> 1] + (q.second & 1)}); mp[npi + 1 + i] = npi + t.g.size(); }
    for (auto o : b.s.po) t.po.push_back(2 * mp[o >> 1] + (o & 1));
    cb(t);
  }
}
// --- family F: named arithmetic/control blocks for every size up to the bound
inline void gen_blocks(int maxpi, SpecFn const &cb) {
  for (int n = 1; 2 * n + 1 <= maxpi; ++n) { // ripple adder, two styles
    for (int st = 0; st < 2; ++st) {
      SpecBuilder b(2 * n + 1); u32 c = b.pi(2 * n);
      for (int i = 0; i < n; ++i) { u32 x = b.pi(2 * i), y = b.pi(2 * i + 1); u32 p = st ? b.Xnor2(x, y) : b.Xor(x, y); b.s.po.push_back(st ? b.Xnor2(p, c) : b.Xor(p, c)); c = st ? b.Or(b.And(x, y), b.And(p, c)) : b.Maj(x, y, c); }
      b.s.po.push_back(c); cb(b.s);
    }
  }
  for (int n = 1; 2 * n <= maxpi; ++n) { // comparator a<b, a==b ; subtract ; equality chain
    SpecBuilder b(2 * n); u32 lt = 0, eq = 1;
    for (int i = 0; i < n; ++i) { u32 x = b.pi(i), y = b.pi(n + i); lt = b.Or(b.And(x ^ 1, y), b.And(b.Xor(x, y) ^ 1, lt)); eq = b.And(eq, b.Xor(x, y) ^ 1); }
    b.s.po = {lt, eq ^ 1, b.Or(lt, eq)}; cb(b.s);
  }
  for (int n = 2; n <= maxpi; ++n) for (int st = 0; st < 6; ++st) { // parity / and / or chains, popcount threshold
    SpecBuilder b(n); u32 r = b.pi(0);
    if (st < 4) for (int i = 1; i < n; ++i) r = st == 0 ? b.Xor(r, b.pi(i)) : st == 1 ? b.And(r, b.pi(i)) : st == 2 ? b.Or(r, b.pi(i) ^ (i & 1)) : (i & 1 ? b.And(r, b.pi(i)) : b.Or(r, b.pi(i)));
    else if (st == 4) { std::vector<u32> q; for (int i = 0; i < n; ++i) q.push_back(b.pi(i)); while (q.size() > 1) { std::vector<u32> t; for (size_t i = 0; i + 1 < q.size(); i += 2) t.push_back(b.Xor(q[i], q[i + 1])); if (q.size() & 1) t.push_back(q.back()); q = t; } r = q[0]; }
    else { std::vector<u32> cnt(n + 1, 0); cnt[0] = 1; for (int i = 0; i < n; ++i) for (int k = i + 1; k > 0; --k) cnt[k] = b.Or(cnt[k], b.And(cnt[k - 1], b.pi(i))); for (int k = 1; k <= n; ++k) b.s.po.push_back(cnt[k]); r = cnt[(n + 1) / 2]; }
    b.s.po.push_back(r); cb(b.s);
  }
  for (int n = 1; n * 2 <= maxpi && n <= 4; ++n) { // array multiplier
    SpecBuilder b(2 * n); std::vector<u32> acc(2 * n, 0);
    for (int i = 0; i < n; ++i) { u32 c = 0; for (int j = 0; j < n; ++j) { u32 p = b.And(b.pi(i), b.pi(n + j)); u32 a = acc[i + j]; u32 s1 = b.Xor(a, p); acc[i + j] = b.Xor(s1, c); c = b.Maj(a, p, c); } if (i + n < 2 * n) acc[i + n] = c; }
    b.s.po = acc; cb(b.s);
  }
  for (int s = 1; s + (1 << s) <= maxpi; ++s) { // mux tree, decoder, priority encoder
    { SpecBuilder b(s + (1 << s)); std::vector<u32> d; for (int i = 0; i < (1 << s); ++i) d.push_back(b.pi(s + i)); for (int k = 0; k < s; ++k) { std::vector<u32> t; for (size_t i = 0; i < d.size(); i += 2) t.push_back(b.Mux(b.pi(k), d[i + 1], d[i])); d = t; } b.s.po = {d[0], d[0] ^ 1}; cb(b.s); }
    { SpecBuilder b(s + 1); for (int i = 0; i < (1 << s); ++i) { u32 c = b.pi(s); for (int k = 0; k < s; ++k) c = b.And(c, b.pi(k) ^ !((i >> k) & 1)); b.s.po.push_back(c ^ (i & 1)); } cb(b.s); }
  }
  for (int n = 2; n <= maxpi; ++n) { SpecBuilder b(n); u32 none = 1; for (int i = 0; i < n; ++i) { b.s.po.push_back(b.And(none, b.pi(i))); none = b.And(none, b.pi(i) ^ 1); } b.s.po.push_back(none); cb(b.s); }
}
// --- family G: larger named circuits (up to 20 inputs, up to a few thousand gates)
inline std::vector<std::string> big_names(bool thorough) {
  std::vector<std::string> r;
  for (int n = 4; n <= (thorough ? 8 : 6); ++n) r.push_back("mul" + std::to_string(n));
  for (int n : {6, 7, 8}) { r.push_back("add" + std::to_string(n)); r.push_back("cmp" + std::to_string(n)); r.push_back("csel" + std::to_string(n)); }
  for (int n : {11, 14, 16}) { r.push_back("pop" + std::to_string(n)); r.push_back("par" + std::to_string(n)); r.push_back("sort" + std::to_string(n - 5)); }
  for (int n : {3, 4}) { r.push_back("mux" + std::to_string(n)); r.push_back("rot" + std::to_string(n)); }
  r.push_back("fan1100"); r.push_back("fan2100"); r.push_back("chain600"); r.push_back("ladder400");
  for (int i = 0; i < (thorough ? 24 : 8); ++i) r.push_back("lfsr" + std::to_string(i)); // pseudo-random looking but fixed netlists
  return r;
}
inline Spec Spec::named(std::string const &nm) {
  size_t p = 0; while (p < nm.size() && isalpha((unsigned char)nm[p])) ++p;
  std::string k = nm.substr(0, p); int n = atoi(nm.c_str() + p);
  if (k == "mul") { SpecBuilder b(2 * n); std::vector<u32> acc(2 * n, 0);
    for (int i = 0; i < n; ++i) { u32 c = 0; for (int j = 0; j < n; ++j) { u32 q = b.And(b.pi(i), b.pi(n + j)), a = acc[i + j], s1 = b.Xor(a, q); acc[i + j] = b.Xor(s1, c); c = b.Maj(a, q, c); } if (i + n < 2 * n) acc[i + n] = c; } b.s.po = acc; return b.s; }
  if (k == "add") { SpecBuilder b(2 * n); u32 c = 0; for (int i = 0; i < n; ++i) { u32 x = b.pi(i), y = b.pi(n + i), q = b.Xor(x, y); b.s.po.push_back(b.Xor(q, c)); c = b.Maj(x, y, c); } b.s.po.push_back(c); return b.s; }
  if (k == "csel") { SpecBuilder b(2 * n); u32 c0 = 0, c1 = 1; for (int i = 0; i < n; ++i) { u32 x = b.pi(2 * i), y = b.pi(2 * i + 1), q = b.Xnor2(x, y); b.s.po.push_back(b.Mux(b.pi(0), b.Xor(q, c1), b.Xnor2(q, c0))); c0 = b.Maj(x, y, c0); c1 = b.Or(b.And(x, y), b.And(q, c1)); } b.s.po.push_back(b.Mux(b.pi(1), c0, c1)); return b.s; }
  if (k == "cmp") { SpecBuilder b(2 * n); u32 lt = 0, eq = 1; for (int i = 0; i < n; ++i) { u32 x = b.pi(i), y = b.pi(n + i); lt = b.Or(b.And(x ^ 1, y), b.And(b.Xor(x, y) ^ 1, lt)); eq = b.And(eq, b.Xor(x, y) ^ 1); } b.s.po = {lt, eq, b.Or(lt, eq) ^ 1}; return b.s; }
  if (k == "pop") { SpecBuilder b(n); std::vector<u32> cnt(n + 2, 0); cnt[0] = 1; for (int i = 0; i < n; ++i) for (int j = i + 1; j > 0; --j) cnt[j] = b.Or(cnt[j], b.And(cnt[j - 1], b.pi(i))); for (int j = 1; j <= n; ++j) b.s.po.push_back(cnt[j] ^ (j & 1)); return b.s; }
  if (k == "par") { SpecBuilder b(n); u32 r = 0; for (int i = 0; i < n; ++i) { r = i & 1 ? b.Xor(r, b.pi(i)) : b.Xnor2(r, b.pi(i)); if (i % 3 == 2) b.s.po.push_back(r); } b.s.po.push_back(r); return b.s; }
  if (k == "sort") { SpecBuilder b(n); std::vector<u32> v; for (int i = 0; i < n; ++i) v.push_back(b.pi(i)); for (int r = 0; r < n; ++r) for (int i = r & 1; i + 1 < n; i += 2) { u32 x = b.And(v[i], v[i + 1]), y = b.Or(v[i], v[i + 1]); v[i] = x; v[i + 1] = y; } b.s.po = v; return b.s; }
  if (k == "mux") { SpecBuilder b(n + (1 << n)); std::vector<u32> d; for (int i = 0; i < (1 << n); ++i) d.push_back(b.pi(n + i)); for (int q = 0; q < n; ++q) { std::vector<u32> t; for (size_t i = 0; i < d.size(); i += 2) t.push_back(b.Mux(b.pi(q), d[i + 1], d[i])); d = t; } b.s.po = d; return b.s; }
  if (k == "rot") { int w = 1 << n; SpecBuilder b(n + w); std::vector<u32> d; for (int i = 0; i < w; ++i) d.push_back(b.pi(n + i)); for (int q = 0; q < n; ++q) { std::vector<u32> t; for (int i = 0; i < w; ++i) t.push_back(b.Mux(b.pi(q), d[(i + (1 << q)) % w], d[i])); d = t; } b.s.po = d; return b.s; }
  if (k == "fan") { SpecBuilder b(13); std::vector<u32> l; u32 x = b.And(b.Xor(b.pi(0), b.pi(1)), b.pi(2) ^ 1), r = 0; // one gate with n fanouts
    for (int i = 0; i < n; ++i) { u32 c = 1; for (int j = 0; j < 9 && (c != 0); ++j) if ((i * 2 + 1) >> j & 1) c = b.And(c, b.pi(3 + j)); else if (((i >> 9) ^ j) & 1) c = b.Or(c ^ 1, b.pi(3 + j)); c = b.Xor(c, (i >> 8) & 1 ? b.pi(12) : b.pi(i % 3)); l.push_back(b.And(x ^ (i & 1), c)); }
    for (size_t i = 0; i < l.size(); ++i) { r = i & 4 ? b.Or(r, l[i]) : b.And(r ^ 1, l[i] ^ 1); if (i % 16 == 7) { b.s.po.push_back(r ^ (i >> 4 & 1)); r = 0; } } b.s.po.push_back(r); return b.s; }
  if (k == "chain" || k == "ladder") { SpecBuilder b(9); std::vector<u32> v; for (int i = 0; i < 9; ++i) v.push_back(b.pi(i)); u32 r = b.pi(0), q = b.pi(1);
    for (int i = 0; i < n; ++i) { u32 z = b.pi((i * 5 + i / 9) % 9) ^ (i / 9 & 1); if (k == "chain") r = i % 4 == 3 ? b.Xor(r, z) : i & 1 ? b.Or(r, z) : b.Mux(z, r, q); else { u32 t = b.Mux(z, r, q); q = b.Or(b.And(q, z), r ^ (i & 1)); r = b.Xor(t, z); } if (i % 40 == 39) b.s.po.push_back(r ^ (i / 40 & 1)); q ^= i & 1; }
    b.s.po.push_back(r); b.s.po.push_back(q); return b.s; }
  if (k == "lfsr") { SpecBuilder b(10 + n % 4); std::vector<u32> v; for (int i = 0; i < b.s.npi; ++i) v.push_back(b.pi(i)); u64 s = 0x9E3779B97F4A7C15ull * (n + 1);
    auto nx = [&](u64 m) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) % m; };
    for (int i = 0; i < 300; ++i) { size_t w = std::min<size_t>(v.size(), 30 + n * 2); u32 x = v[v.size() - 1 - nx(w)] ^ nx(2), y = v[v.size() - 1 - nx(w)] ^ nx(2), z = v[nx(v.size())] ^ nx(2); u32 o = nx(10); v.push_back(o < 5 ? b.And(x, y) : o < 7 ? b.Xor(x, z) : o < 9 ? b.Mux(x, y, z) : b.Or(y, z)); }
    for (int i = 0; i < 20; ++i) b.s.po.push_back(v[v.size() - 1 - i * 3] ^ (i & 1)); return b.s; }
  throw std::runtime_error("unknown circuit " + nm);
}
// degenerate networks: every PO vector of length <= 2 (or 3) over {0,1,pi,!pi}, with 0..maxpi inputs
inline void gen_degenerate(int maxpi, int maxpo, SpecFn const &cb) {
  for (int n = 0; n <= maxpi; ++n) for (int k = 0; k <= maxpo; ++k) {
    u64 base = 2 * (n + 1), tot = 1; for (int i = 0; i < k; ++i) tot *= base;
    for (u64 c = 0; c < tot; ++c) { Spec s; s.npi = n; u64 x = c; for (int i = 0; i < k; ++i) { s.po.push_back(x % base); x /= base; } cb(s); }
  }
}

// ---------------------------------------------------------------- runner
constexpr int MAXW = 16;
struct Slot {
  std::atomic<u64> idx{0}, done{0}, beat{0}, busy{0}, nontriv{0}, extra[16];
  std::atomic<u64> casemem{0};
  char cas[1 << 16];
};
struct Violation { std::string cas, msg; };
struct Shared {
  Slot slot[MAXW];
  std::atomic<u64> nviol{0}, stop{0};
  std::atomic<u64> bitmap[1 << 20]; // 2^26 bits of distinct outcomes
};
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] inline void fail(std::string const &m) { throw Fail(m); }
inline void require(bool c, std::string const &m) { if (!c) throw Fail(m); }

inline std::string jesc(std::string const &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

struct Runner {
  std::string prop, tier = "quick", level = "exploration", rule, binary_note;
  u64 seed = 1; int W = 8; double tmo = 60; // per-case timeout, seconds
  std::string outdir, verif; Shared *sh = nullptr;
  int w = -1; u64 counter = 0, start = 0; bool counting = false; u64 stride_count = 0;
  std::map<std::string, std::string> known; // case -> description
  std::function<void(std::string const &)> one; // run one case from its string; throws Fail
  std::function<void(Runner &)> enumerate;       // calls r.add(case)
  std::vector<std::string> assumptions, samples, extra_names;
  std::vector<Violation> viol; int replay_fd = -1; bool failfast_stop = false;
  std::map<std::string, u64> families; // filled in the parent's dry enumeration
  std::string fam = "all"; bool dry = false;
  bool thorough() const { return tier == "thorough"; }
  void family(std::string const &f) { fam = f; }
  void nontrivial(u64 h) { // called from one(): a non-trivial outcome with hash h
    if (!sh) return; if (w >= 0) sh->slot[w].nontriv++;
    u64 b = mix(0x1234567, h) & ((u64(1) << 26) - 1); sh->bitmap[b >> 6].fetch_or(u64(1) << (b & 63));
  }
  void count(int k, u64 n = 1) { if (sh && w >= 0) sh->slot[w].extra[k] += n; }
  template <class S> void addl(S &&ser) { // lazily serialised case
    u64 i = counter++;
    if (dry) { families[fam]++; if (samples.size() < 6 && (families[fam] == 1 || families[fam] == 7)) samples.push_back(fam + " | " + ser().substr(0, 300)); return; }
    if ((i % W) != (u64)w || i < start) return;
    if (sh->stop.load(std::memory_order_relaxed)) return;
    run_case(i, ser());
  }
  void add(std::string const &s) { addl([&] { return s; }); }
  void add(Spec const &s) { addl([&] { return s.str(); }); }
  void run_case(u64 i, std::string const &c) {
    Slot &sl = sh->slot[w]; size_t n = std::min(c.size(), sizeof(sl.cas) - 1); memcpy(sl.cas, c.data(), n); sl.cas[n] = 0;
    sl.idx = i; sl.beat++; sl.busy = 1;
    try { one(c); } catch (Fail const &e) { report(c, e.what()); } catch (std::exception const &e) { report(c, std::string("exception: ") + e.what()); } catch (...) { report(c, "unknown exception"); }
    sl.busy = 0; sl.done++; sl.beat++;
  }
  bool is_known(std::string const &c) const { return known.count(c) > 0; }
  void report(std::string const &c, std::string const &m) {
    std::string line = c + "\t" + m; for (auto &ch : line) if (ch == '\n') ch = ' ';
    line += "\n"; int fd = ::open((outdir + "/viol.log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { ssize_t r = ::write(fd, line.data(), line.size()); (void)r; ::close(fd); }
    if (!is_known(c) && ++sh->nviol >= 25) sh->stop = 1;
  }
  void silence(std::string const &f) { fflush(stdout); fflush(stderr); int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); ::close(fd); } }
  void worker(int k, u64 st) {
    w = k; start = st; counter = 0; silence("/dev/null");
#ifndef __SANITIZE_ADDRESS__
    struct rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
    enumerate(*this); fflush(stdout); _exit(0);
  }
  // run one case alone in a child; returns "" if ok
  std::string isolated(std::string const &c, double limit, std::string const &log) {
    pid_t p = fork();
    if (p == 0) {
      w = MAXW - 1; silence(log);
#ifndef __SANITIZE_ADDRESS__
      struct rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
      struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
      std::string m; int rcod = 0;
      try { one(c); } catch (Fail const &e) { m = e.what(); rcod = 3; } catch (std::exception const &e) { m = std::string("exception: ") + e.what(); rcod = 3; } catch (...) { m = "unknown exception"; rcod = 3; }
      if (rcod) { fprintf(stderr, "\nFAIL: %s\n", m.c_str()); fflush(stderr); }
      _exit(rcod);
    }
    double t0 = now(); int stt = 0;
    while (true) {
      pid_t r = waitpid(p, &stt, WNOHANG); if (r == p) break;
      if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &stt, 0); return "does not terminate (limit " + std::to_string((int)limit) + " s)"; }
      usleep(1000);
    }
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) return "";
    std::ifstream in(log); std::string l, last, fl, as; while (std::getline(in, l)) { if (l.rfind("FAIL: ", 0) == 0) fl = l.substr(6); if (l.find("Assertion") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos) as = l; }
    if (!fl.empty()) return fl; if (!as.empty()) return "crash: " + as;
    if (WIFSIGNALED(stt)) return "crash: signal " + std::to_string(WTERMSIG(stt)); return "crash: exit " + std::to_string(WEXITSTATUS(stt));
  }
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  void load_known() {
    std::ifstream in(verif + "/known_findings.txt"); std::string l; std::string pre = "known: property=" + prop + " case=";
    while (std::getline(in, l)) if (l.rfind(pre, 0) == 0) { std::string r = l.substr(pre.size()); size_t p = r.find(" :: "); known[p == std::string::npos ? r : r.substr(0, p)] = p == std::string::npos ? "" : r.substr(p + 4); }
  }
  int main(int argc, char **argv) {
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_PERTURB, 0x5A);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    double t0 = now(); std::string replay;
    if (const char *e = getenv("VERIF_TIER")) tier = e; if (const char *e = getenv("VERIF_SEED")) seed = strtoull(e, 0, 10);
    verif = "."; if (const char *e = getenv("VERIF_DIR")) verif = e;
    outdir = verif + "/out"; if (const char *e = getenv("VERIF_OUT")) outdir = e;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--prop") prop = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--tier") tier = argv[++i]; else if (a == "--case") replay = std::string("case=") + argv[++i]; else if (a == "--jobs") W = atoi(argv[++i]); }
    if (!replay.empty()) {
      std::string c; if (replay.rfind("case=", 0) == 0) c = replay.substr(5);
      else { std::ifstream in(replay); std::string l; while (std::getline(in, l)) if (l.rfind("case=", 0) == 0) c = l.substr(5); }
      sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      try { one(c); printf("replay: OK\n"); return 0; } catch (std::exception const &e) { printf("replay: FAIL %s\n", e.what()); return 1; }
    }
    load_known(); unlink((outdir + "/viol.log").c_str());
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<pid_t> pid(W, 0); std::vector<u64> lastbeat(W, 0); std::vector<double> lastt(W, now());
    auto spawn = [&](int k, u64 st) { fflush(stdout); fflush(stderr); pid_t p = fork(); if (p == 0) { worker(k, st); _exit(0); } pid[k] = p; lastt[k] = now(); };
    for (int k = 0; k < W; ++k) spawn(k, 0);
    int alive = W, crashes = 0; bool cap = false;
    while (alive > 0) {
      usleep(5000);
      for (int k = 0; k < W; ++k) if (pid[k]) {
        int stt; pid_t r = waitpid(pid[k], &stt, WNOHANG); Slot &sl = sh->slot[k]; bool hang = false;
        if (r == 0) {
          u64 b = sl.beat; if (b != lastbeat[k] || !sl.busy) { lastbeat[k] = b; lastt[k] = now(); continue; }
          if (now() - lastt[k] < tmo) continue;
          hang = true; kill(pid[k], SIGKILL); waitpid(pid[k], &stt, 0);
        } else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) { pid[k] = 0; --alive; continue; }
        // crashed or hung: replay alone, then continue after it
        std::string c = sl.cas; u64 i = sl.idx; bool inrun = sl.busy; sl.busy = 0;
        if (!inrun) { fprintf(stderr, "worker %d died outside a case\n", k); return 2; }
        std::string m = isolated(c, hang ? 3 * tmo : tmo, outdir + "/isolated.log");
        if (m.empty()) { m = isolated(c, 3 * tmo, outdir + "/isolated.log"); if (m.empty()) m = hang ? "" : "crash in a sequence of cases (not reproduced alone)"; }
        if (!m.empty()) { report(c, m); if (!is_known(c) && ++crashes >= 25) { sh->stop = 1; cap = true; } }
        spawn(k, i + 1);
      }
    }
    // dry enumeration for exact family sizes and samples
    dry = true; counter = 0; enumerate(*this); dry = false;
    u64 done = 0, nt = 0, ex[16] = {0}; for (int k = 0; k < MAXW; ++k) { done += sh->slot[k].done; nt += sh->slot[k].nontriv; for (int j = 0; j < 16; ++j) ex[j] += sh->slot[k].extra[j]; }
    u64 distinct = 0; for (auto &b : sh->bitmap) distinct += __builtin_popcountll(b);
    // collect violations, replay each alone
    std::ifstream in(outdir + "/viol.log"); std::string l; std::vector<std::pair<std::string, std::string>> v; std::set<std::string> seen, kn;
    while (std::getline(in, l)) { size_t p = l.find('\t'); std::string c = l.substr(0, p), m = p == std::string::npos ? "" : l.substr(p + 1); if (!seen.insert(c).second) continue; if (is_known(c)) kn.insert(c); else v.push_back({c, m}); }
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first.size() != b.first.size() ? a.first.size() < b.first.size() : a.first < b.first; });
    for (auto &c : kn) printf("KNOWN-FINDING: property=%s %s [case=%s]\n", prop.c_str(), known[c].c_str(), c.substr(0, 200).c_str());
    int shown = 0;
    for (auto &[c, m] : v) {
      if (shown >= 5) break;
      std::string f = outdir + "/" + prop + "_violation_" + std::to_string(shown) + ".txt"; std::string again = isolated(c, 3 * tmo, f + ".log");
      std::ofstream o(f); o << "property=" << prop << "\ncase=" << c << "\nmessage=" << m << "\nreplayed_alone=" << (again.empty() ? "did not fail alone" : again) << "\nhow: rebuild the harness (see checks/) and run it with --replay <this file>\n"; o.close();
      printf("VIOLATION property=%s replay=%s\n  %s\n  case: %s\n", prop.c_str(), f.c_str(), m.c_str(), c.substr(0, 400).c_str()); ++shown;
    }
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream o(verif + "/evidence/" + prop + ".json");
    bool complete = !sh->stop && done + crashes >= counter && !cap;
    o << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"" << level << "\",\n \"coverage\": {\n";
    if (level == "model_checking") o << "  \"states\": " << ex[0] << ", \"transitions\": " << ex[1] << ", \"traces_validated_against_impl\": " << ex[2] << ",\n";
    o << "  \"evaluations\": " << done << ", \"distinct_nontrivial\": " << distinct << ", \"nontrivial_evaluations\": " << nt << ",\n  \"enumerated_cases\": " << counter << ", \"exhaustive\": " << (complete ? "true" : "false") << ",\n  \"rule\": \"" << jesc(rule) << "\",\n  \"families\": {";
    bool first = true; for (auto &[f, n] : families) { o << (first ? "" : ", ") << "\"" << jesc(f) << "\": " << n; first = false; }
    o << "},\n"; for (size_t j = 0; j < extra_names.size(); ++j) if (!extra_names[j].empty()) o << "  \"" << extra_names[j] << "\": " << ex[j] << ",\n";
    o << "  \"samples\": ["; first = true; for (auto &s : samples) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; } o << "]\n },\n \"assumptions\": [";
    first = true; for (auto &s : assumptions) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; }
    o << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << v.size() << ", \"known_findings_seen\": " << kn.size() << "\n}\n"; o.close();
    printf("%s: %llu cases enumerated, %llu run, %llu distinct outcomes, %zu violations, %zu known, %.1f s\n", prop.c_str(), (unsigned long long)counter, (unsigned long long)done, (unsigned long long)distinct, v.size(), kn.size(), now() - t0);
    return v.empty() ? 0 : 1;
  }
};
} // namespace vf

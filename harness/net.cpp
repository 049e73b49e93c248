// C09 structural hashing / gate creation, C10 in-place edits, C25 levels, C26 reference counting and traversal.
// case = "spec|op;op;..."  (spec: base network, ops: see apply_edit)   or "big|seed..." for C09
#include "ntk.hpp"
#include "views/depth_view.hpp"
#include "views/topo_view.hpp"
#include "algorithms/ref_deref.hpp"
#include "algorithms/cleanup.hpp"
using namespace vf;
using Sig = Aig::signal;
static std::vector<std::string> split(std::string const &s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
static Sig lit(u32 l) { return Sig(l >> 1, l & 1); }
// function of every live node; redirect: reads of a node are answered by another literal
static std::vector<TT> functions(Aig const &a, std::map<u64, u32> const &red, bool &cyclic) {
  u32 npi = a.num_pis(); std::vector<TT> val(a.size(), TT(npi)); std::vector<char> st(a.size(), 0); st[0] = 2; u32 k = 0; cyclic = false;
  a.foreach_pi([&](auto n) { val[n] = TT::var(npi, k++); st[n] = 2; });
  auto rd = [&](u64 n, bool c) { std::pair<u64, bool> r{n, c}; u32 g = 0; for (auto it = red.find(r.first); it != red.end(); it = red.find(r.first)) { r = {it->second >> 1, r.second ^ (it->second & 1)}; if (++g > 9) { cyclic = true; return r; } } return r; };
  std::function<void(u64)> f = [&](u64 n) {
    if (st[n] == 2 || cyclic) return; if (st[n] == 1) { cyclic = true; return; } st[n] = 1; TT t = ~TT(npi);
    for (auto c : {a.get_child0(n), a.get_child1(n)}) { auto [i, p] = rd(c.index, c.complement); if (cyclic) return; f(i); if (cyclic) return; t = t & (p ? ~val[i] : val[i]); }
    val[n] = t; st[n] = 2;
  };
  a.foreach_gate([&](auto n) { f(n); });
  return val;
}
static std::vector<TT> outputs(Aig const &a, std::vector<TT> const &v, std::map<u64, u32> const &red) {
  std::vector<TT> r; a.foreach_po([&](Sig const &s) { u64 i = s.index; bool c = s.complement; u32 g = 0; for (auto it = red.find(i); it != red.end() && g++ < 9; it = red.find(i)) { c ^= it->second & 1; i = it->second >> 1; } r.push_back(c ? ~v[i] : v[i]); }); return r;
}
// every structural invariant of a network that the passes rely on
static void invariants(Aig const &a, std::vector<TT> const &val, bool phases) {
  std::vector<u32> fo(a.size(), 0); std::map<std::array<u64, 4>, u64> seen; u64 gates = 0;
  a.foreach_gate([&](auto n) {
    ++gates; auto c = a.get_child0(n), d = a.get_child1(n);
    require(c.index < a.size() && d.index < a.size(), "fanin out of range");
    require(!a.is_dead(c.index) && !a.is_dead(d.index), "gate " + std::to_string((u64)n) + " reads a removed gate");
    require(c.index != 0 && c.index < d.index, "gate " + std::to_string((u64)n) + " has a constant, equal or unordered pair of fanins");
    require(seen.insert({{c.index, c.complement, d.index, d.complement}, n}).second, "two gates have the same fanins");
    ++fo[c.index]; ++fo[d.index];
    if (phases) require(a.phase(n) == val[n].bit(0), "phase of gate " + std::to_string((u64)n) + " is not its value under the all-zero input");
  });
  a.foreach_po([&](Sig const &s) { require(s.index < a.size() && !a.is_dead(s.index), "output reads a removed gate"); ++fo[s.index]; });
  a.foreach_node([&](auto n) { require(a.fanout_size(n) == fo[n], "fanout count of node " + std::to_string((u64)n) + " is " + std::to_string(a.fanout_size(n)) + " instead of " + std::to_string(fo[n])); });
  require(a.num_gates() == gates, "num_gates is " + std::to_string(a.num_gates()) + " instead of " + std::to_string(gates));
  // hashing finds every gate and nothing else
  Aig b = a; u32 sz = a.size();
  for (auto &[k, n] : seen) for (int sw = 0; sw < 2; ++sw) {
    Sig x(k[0], k[1]), y(k[2], k[3]); if (sw) std::swap(x, y);
    require(b.find_and(x, y), "find_and misses an existing gate");
    Sig s = b.create_and(x, y); require(s.index == n && !s.complement && b.size() == sz, "re-creating a gate does not return the existing one");
  }
}
static void live_only(Aig const &a, std::vector<u64> const &roots, std::set<u64> &r) { std::vector<u64> st(roots); while (!st.empty()) { u64 n = st.back(); st.pop_back(); if (n == 0 || a.is_pi(n) || !r.insert(n).second) continue; st.push_back(a.get_child0(n).index); st.push_back(a.get_child1(n).index); } }
// applies one edit; returns false if its precondition does not hold (edit skipped)
static bool apply_edit(Aig &a, std::string const &op, std::vector<TT> &want, bool &equivalent) {
  bool cyc; std::map<u64, u32> red; auto nums = [&] { std::vector<u32> v; u32 x = 0; bool in = false; for (char c : op) { if (isdigit(c)) { x = x * 10 + (c - '0'); in = true; } else if (in) { v.push_back(x); x = 0; in = false; } } if (in) v.push_back(x); return v; }();
  auto ok_gate = [&](u64 n) { return n < a.size() && n > 0 && !a.is_ci(n) && !a.is_dead(n); };
  auto ok_lit = [&](u32 l) { return (l >> 1) < a.size() && !a.is_dead(l >> 1); };
  switch (op[0]) {
  case 's': case 'm': {
    for (size_t i = 0; i + 1 < nums.size(); i += 2) { if (!ok_gate(nums[i]) || !ok_lit(nums[i + 1]) || (nums[i + 1] >> 1) == nums[i] || red.count(nums[i])) return false; red[nums[i]] = nums[i + 1]; }
    for (auto &[n, l] : red) { u64 i = n; for (u32 g = 0; red.count(i); ++g) { if (g > red.size()) return false; i = red[i] >> 1; } } // a cyclic set of replacements
    auto v0 = functions(a, {}, cyc); require(!cyc, "cyclic network"); auto v = functions(a, red, cyc); if (cyc) return false; auto wnew = outputs(a, v, red);
    // replacing two gates by other functions is order dependent when another gate becomes identical to one of them on the way (and contradictory when it is to become that gate)
    bool ambiguous = false;
    if (op[0] == 'm') { std::map<u64, u32> S; for (size_t i = 0; i + 1 < nums.size(); i += 2) { S[nums[i]] = nums[i + 1]; bool c2; auto w = functions(a, S, c2); if (c2) { ambiguous = true; break; } for (auto &[n, l] : red) if (w[n] != (l & 1 ? ~w[l >> 1] : w[l >> 1])) a.foreach_gate([&, n = n](auto m) { if (m != n && w[m] == w[n]) ambiguous = true; }); } }
    if (ambiguous) return false;
    want = wnew; for (auto &[n, l] : red) if (v0[n] != (l & 1 ? ~v0[l >> 1] : v0[l >> 1])) equivalent = false;
    if (op[0] == 's') a.substitute_node(nums[0], lit(nums[1])); else { std::list<std::pair<Aig::node, Sig>> L; for (size_t i = 0; i + 1 < nums.size(); i += 2) L.push_back({nums[i], lit(nums[i + 1])}); a.substitute_nodes(L); }
    if (op[0] == 's') for (auto &[n, l] : red) require(a.is_dead(n), "a substituted gate is still there"); // of two gates replaced at once, one may become the representative of the other
    return true; }
  case 't': if (!ok_gate(nums[0]) || a.fanout_size(nums[0])) return false; a.take_out_node(nums[0]); require(a.is_dead(nums[0]), "the removed gate is still there"); return true;
  case 'a': { if (!ok_lit(nums[0]) || !ok_lit(nums[1])) return false; auto v = functions(a, {}, cyc); auto L = [&](u32 l) { return l & 1 ? ~v[l >> 1] : v[l >> 1]; }; TT w = L(nums[0]) & L(nums[1]); Sig s = a.create_and(lit(nums[0]), lit(nums[1])); require(!a.is_dead(s.index), "create_and returned a removed gate"); v = functions(a, {}, cyc); require((s.complement ? ~v[s.index] : v[s.index]) == w, "create_and returned a wrong function"); return true; }
  case 'p': { if (!ok_lit(nums[0])) return false; auto v = functions(a, {}, cyc); want.push_back(nums[0] & 1 ? ~v[nums[0] >> 1] : v[nums[0] >> 1]); a.create_po(lit(nums[0])); return true; }
  }
  fail("bad op " + op);
}
static void one10(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); Aig a = build(sp); auto want = sp.tt(); bool cyc, eqv = true;
  u64 h = hashS(f[0]); bool did = false; r.count(0, 1);
  auto check = [&] { auto v = functions(a, {}, cyc); require(!cyc, "the edit created a cycle"); same_functions(want, outputs(a, v, {}), "edit"); invariants(a, v, eqv); };
  check();
  for (auto &op : split(f.size() > 1 ? f[1] : "", ';')) { if (!apply_edit(a, op, want, eqv)) continue; did = true; check(); r.count(1, 1); r.count(0, 1); h = hashS(op, h); }
  if (did) { r.nontrivial(h); r.count(2, 1); }
  Aig c = iFPGA::cleanup_dangling(a); auto v = functions(c, {}, cyc); require(!cyc, "cycle"); same_functions(want, outputs(c, v, {}), "cleanup after the edits");
}
static void one09(Runner &r, std::string const &s) {
  auto f = split(s, '|');
  if (f[0] == "big") { // n inputs, gates and(x_i op, previous ...) beyond every table growth, with removals, against an independent table
    u64 n = atoll(f[1].c_str()), seed = atoll(f[2].c_str()); Aig a; std::map<std::pair<u32, u32>, u64> ref; std::vector<u32> l; for (int i = 0; i < 40; ++i) { auto p = a.create_pi(); l.push_back(p.index); }
    u64 x = 0x9E3779B97F4A7C15ull * (seed + 1); auto nx = [&](u64 m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (x >> 9) % m; };
    std::map<u64, std::pair<u32, u32>> fan; std::map<u64, u32> refs; u64 live = 0;
    auto look = [&](u64 i) { // an existing gate must be found
      auto p = fan[i]; u32 sz = a.size(); require(a.find_and(lit(p.first), lit(p.second)), "find_and misses a gate of a large network"); auto q = a.create_and(lit(p.second), lit(p.first)); require(q.index == i && !q.complement && a.size() == sz, "a large network re-creates an existing gate"); };
    std::vector<u64> order;
    while (a.size() < n) {
      u32 p = 2 * l[nx(l.size())] + nx(2), q = 2 * l[nx(l.size())] + nx(2); if (p > q) std::swap(p, q); if ((p >> 1) == (q >> 1)) continue;
      u32 sz = a.size(); auto it = ref.find({p, q}); auto g = a.create_and(lit(q), lit(p));
      require(!g.complement, "create_and returned a complemented signal for a proper gate");
      if (it != ref.end()) { require(g.index == it->second && a.size() == sz, "a large network re-creates an existing gate"); continue; }
      require(g.index == sz && a.size() == sz + 1, "create_and returned an unrelated gate"); ref[{p, q}] = g.index; fan[g.index] = {p, q}; refs[p >> 1]++; refs[q >> 1]++; ++live; order.push_back(g.index);
      auto c0 = a.get_child0(g.index), c1 = a.get_child1(g.index); require(2 * c0.index + c0.complement == p && 2 * c1.index + c1.complement == q, "a gate has other fanins than requested");
      if (nx(3)) l.push_back(g.index);
      else if (nx(4) == 0) { // remove a fanout-free gate again
        a.take_out_node(g.index); require(a.is_dead(g.index), "not removed"); ref.erase({p, q}); fan.erase(g.index); order.pop_back(); --live; for (u32 z : {p >> 1, q >> 1}) { std::function<void(u64)> dec = [&](u64 m) { if (--refs[m] == 0 && fan.count(m)) { require(a.is_dead(m), "an unreferenced gate is kept"); auto w = fan[m]; ref.erase(w); fan.erase(m); --live; l.erase(std::remove(l.begin(), l.end(), (u32)m), l.end()); dec(w.first >> 1); dec(w.second >> 1); } }; dec(z); }
      }
    }
    require(a.num_gates() == live, "num_gates of a large network"); for (auto &[i, p] : fan) { look(i); require(a.fanout_size(i) == refs[i], "fanout count in a large network"); } r.nontrivial(hashS(s)); return;
  }
  // all creation functions over all literals of a small network
  Spec sp = Spec::parse(f[0]); int mode = atoi(f[1].c_str()); Aig base = build(sp); bool cyc; auto v0 = functions(base, {}, cyc); invariants(base, v0, true); same_functions(sp.tt(), outputs(base, v0, {}), "construction");
  { auto sv = sp.nodes(); for (auto &t : sv) { bool hit = false; for (u64 n = 0; n < base.size() && !hit; ++n) hit = v0[n] == t || ~v0[n] == t; require(hit, "a created gate is not in the network"); } }
  u32 L = 2 * base.size(); int npi = sp.npi; auto F = [&](u32 l) { return l & 1 ? ~v0[l >> 1] : v0[l >> 1]; };
  auto test = [&](Aig &a, Sig g, TT const &w, char const *what) { require(g.index < a.size(), std::string(what) + " returned no node"); bool c; auto v = functions(a, {}, c); TT t = g.complement ? ~v[g.index] : v[g.index]; if (t != w) fail(std::string(what) + " computes " + t.hex() + " instead of " + w.hex()); r.nontrivial(hashTT(w, hashS(what, a.size() * 64 + base.size()))); return v; };
  auto make = [&](auto fn) { Spec q = sp; Aig a = build(q); return std::make_pair(a, fn(a)); };
  if (mode == 2) for (u32 x = 0; x < L; ++x) for (u32 y = 0; y < L; ++y) {
    TT X = F(x), Y = F(y); Aig a = build(sp); Sig p = lit(x), q = lit(y); u32 sz = a.size(); bool had = a.find_and(p, q); auto g = a.create_and(p, q); require(had == (a.size() == sz), "find_and disagrees with create_and"); require(a.create_and(q, p) == g && a.find_and(q, p), "create_and is not commutative"); test(a, g, X & Y, "and");
    test(a, a.create_or(p, q), X | Y, "or"); test(a, a.create_nand(p, q), ~(X & Y), "nand"); test(a, a.create_nor(p, q), ~(X | Y), "nor"); test(a, a.create_lt(p, q), ~X & Y, "lt"); test(a, a.create_le(p, q), ~X | Y, "le");
    test(a, a.create_xor(p, q), X ^ Y, "xor"); auto v = test(a, a.create_xnor(p, q), ~(X ^ Y), "xnor"); test(a, a.create_not(p), ~X, "not"); test(a, a.create_buf(p), X, "buf");
    // gates that nobody refers to are allowed, everything else is an invariant
    invariants(a, v, true);
  }
  else if (mode == 3) for (u32 x = 0; x < L; ++x) for (u32 y = 0; y < L; ++y) { Aig a = build(sp); std::vector<TT> v; for (u32 z = 0; z < L; ++z) {
    TT X = F(x), Y = F(y), Z = F(z); Sig p = lit(x), q = lit(y), s2 = lit(z);
    test(a, a.create_ite(p, q, s2), (X & Y) | (~X & Z), "ite"); test(a, a.create_maj(p, q, s2), (X & Y) | (X & Z) | (Y & Z), "maj"); test(a, a.create_xor3(p, q, s2), X ^ Y ^ Z, "xor3");
    test(a, a.create_nary_and({p, q, s2}), X & Y & Z, "nary_and"); test(a, a.create_nary_or({p, q, s2}), X | Y | Z, "nary_or"); v = test(a, a.create_nary_xor({p, q, s2}), X ^ Y ^ Z, "nary_xor"); } invariants(a, v, true); }
  else { // n-ary with 0..5 operands
    Aig a = build(sp); std::vector<TT> v; for (int len = 0; len <= 5; ++len) { u64 tot = 1, b = std::min<u32>(L, 2 + 2 * npi); for (int i = 0; i < len; ++i) tot *= b; for (u64 c = 0; c < tot; c += 1 + (len > 4) * 6) {
      std::vector<Sig> fs; TT A = ~TT(npi), O(npi), X(npi); u64 y = c; for (int i = 0; i < len; ++i) { u32 l = y % b; y /= b; fs.push_back(lit(l)); A = A & F(l); O = O | F(l); X = X ^ F(l); }
      test(a, a.create_nary_and(fs), A, "nary_and"); test(a, a.create_nary_or(fs), O, "nary_or"); v = test(a, a.create_nary_xor(fs), X, "nary_xor"); } } invariants(a, v, true); }
}
// ------------------------------------------------------------------ levels
static std::vector<int> ref_levels(Aig const &a, bool inv) {
  std::vector<int> lv(a.size(), -1); std::function<int(u64)> f = [&](u64 n) -> int { if (lv[n] >= 0) return lv[n]; if (n == 0 || a.is_pi(n)) return lv[n] = 0; int m = 0; for (auto c : {a.get_child0(n), a.get_child1(n)}) m = std::max(m, f(c.index) + (inv && c.complement ? 1 : 0)); return lv[n] = m + 1; };
  a.foreach_node([&](auto n) { f(n); }); return lv;
}
static void one25(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); bool inv = f[1] == "i"; iFPGA::depth_view_params ps; ps.count_complements = inv; using DV = iFPGA::depth_view<Aig>;
  auto po_depth = [&](Aig const &a) { auto lv = ref_levels(a, inv); int d = 0; a.foreach_po([&](Sig const &p) { d = std::max(d, lv[p.index] + (inv && p.complement ? 1 : 0)); }); return d; };
  auto same = [&](DV const &d, Aig const &a, bool all, char const *w) { auto lv = ref_levels(a, inv); std::set<u64> in; std::vector<u64> ro; a.foreach_po([&](Sig const &p) { ro.push_back(p.index); }); live_only(a, ro, in); a.foreach_gate([&](auto n) { if (all || in.count(n)) if ((int)d.level(n) != lv[n]) fail(std::string(w) + ": level of gate " + std::to_string((u64)n) + " is " + std::to_string(d.level(n)) + " instead of " + std::to_string(lv[n])); }); a.foreach_pi([&](auto n) { require(d.level(n) == 0, "level of an input"); }); };
  // nodes on a longest path from an input to an output
  auto crit = [&](DV const &d, Aig const &a, char const *w) { auto lv = ref_levels(a, inv); int dep = po_depth(a); std::set<u64> on; std::function<void(u64)> go = [&](u64 n) { if (!on.insert(n).second || n == 0 || a.is_pi(n)) return; for (auto c : {a.get_child0(n), a.get_child1(n)}) if (lv[c.index] + (inv && c.complement ? 1 : 0) + 1 == lv[n]) go(c.index); }; a.foreach_po([&](Sig const &p) { if (lv[p.index] + (inv && p.complement ? 1 : 0) == dep) go(p.index); });
    a.foreach_node([&](auto n) { if (bool(d.is_on_critical_path(n)) != (on.count(n) != 0)) fail(std::string(w) + ": node " + std::to_string((u64)n) + (on.count(n) ? " is on a critical path but not reported" : " is reported on a critical path")); }); };
  Aig a = build(sp);
  { DV d(a, iFPGA::unit_cost<Aig>{}, ps); same(d, a, false, "new view"); crit(d, a, "new view"); require((int)d.depth() == po_depth(a), "depth of a new view is " + std::to_string(d.depth())); 
    auto sz = a.size(); // grow through the view and through the base network: all literals of the last nodes
    std::set<u64> in; std::vector<u64> ro; a.foreach_po([&](Sig const &p) { ro.push_back(p.index); }); live_only(a, ro, in); std::vector<u32> cand; for (u32 n = 1; n < sz; ++n) if (a.is_pi(n) || in.count(n)) cand.push_back(n);
    int k = 0; for (u32 x : cand) for (u32 y : cand) if (x < y) { Sig p = (k & 1) ? d.create_and(lit(2 * x + (k & 1)), lit(2 * y + (k >> 1 & 1))) : a.create_and(lit(2 * x), lit(2 * y + (k >> 1 & 1))); auto lv = ref_levels(a, inv); if (p.index && !a.is_pi(p.index) && (in.count(p.index) || p.index >= sz)) require((int)d.level(p.index) == lv[p.index], "level of a gate created after the view is " + std::to_string(d.level(p.index)) + " instead of " + std::to_string(lv[p.index])); ++k; if (k % 3 == 0 && p.index >= sz) { d.create_po(p ^ bool(k % 2)); in.insert(p.index); require((int)d.depth() == po_depth(a), "depth after an output was added"); } if (k > 12) break; }
    d.update_levels(); same(d, a, false, "update_levels"); crit(d, a, "update_levels"); require((int)d.depth() == po_depth(a), "depth after update_levels");
    // substitute each output driver by one of its fanins, update again
    u64 drv = 0; a.foreach_po([&](Sig const &p) { if (a.is_and(p.index)) drv = p.index; }); if (drv) { a.substitute_node(drv, a.get_child1(drv)); d.update_levels(); same(d, a, false, "update after a substitution"); crit(d, a, "update after a substitution"); require((int)d.depth() == po_depth(a), "depth after a substitution"); }
  }
  // built through a view from nothing
  { DV d(iFPGA::unit_cost<Aig>{}, ps); std::vector<Sig> v{d.get_constant(false)}; for (int i = 0; i < sp.npi; ++i) v.push_back(d.create_pi()); d.resize_levels(); for (auto &g : sp.g) v.push_back(d.create_and(v[g.first >> 1] ^ bool(g.first & 1), v[g.second >> 1] ^ bool(g.second & 1))); for (auto o : sp.po) d.create_po(v[o >> 1] ^ bool(o & 1));
    same(d, d, true, "construction through a view"); require((int)d.depth() == po_depth(d), "depth of a network built through a view is " + std::to_string(d.depth())); r.nontrivial(hashS(f[0], d.depth())); }
}
// ------------------------------------------------------------------ reference counting and traversal
static void one26(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); Aig a = build(sp); bool drop = f[1] == "d"; if (drop) { bool c; std::vector<TT> w; u64 g = 0; a.foreach_gate([&](auto n) { if (!g && a.fanout_size(n) > 1) g = n; }); if (g) a.substitute_node(g, a.get_child0(g)); }
  std::vector<u64> ro; a.foreach_po([&](Sig const &p) { ro.push_back(p.index); });
  a.clear_values(); a.foreach_node([&](auto n) { a.set_value(n, a.fanout_size(n)); });
  std::vector<u32> v0; for (u64 n = 0; n < a.size(); ++n) v0.push_back(a.value(n)); auto same = [&](char const *w) { for (u64 n = 0; n < a.size(); ++n) require(a.value(n) == v0[n], std::string(w) + " does not restore the reference count of node " + std::to_string(n)); };
  u64 h = hashS(f[0]);
  a.foreach_gate([&](auto n) {
    // independent size of the fanout-free cone: gates all of whose readers are in the cone
    std::set<u64> cone{n}; bool ch = true; while (ch) { ch = false; std::map<u64, u32> in; for (u64 m : cone) { ++in[a.get_child0(m).index]; ++in[a.get_child1(m).index]; } for (auto &[m, c] : in) if (m && !a.is_pi(m) && !cone.count(m) && c == a.fanout_size(m)) { cone.insert(m); ch = true; } }
    u32 x = iFPGA::deref_node_recursive(a, n); for (u64 m = 1; m < a.size(); ++m) if (!a.is_dead(m) && m != n) { u32 c = 0; for (u64 k : cone) c += (a.get_child0(k).index == m) + (a.get_child1(k).index == m); require(a.value(m) == v0[m] - c, "reference count of node " + std::to_string(m) + " after removing the cone of " + std::to_string((u64)n)); }
    u32 y = iFPGA::ref_node_recursive(a, n); require(x == cone.size(), "the fanout-free cone of " + std::to_string((u64)n) + " has " + std::to_string(cone.size()) + " gates, deref reports " + std::to_string(x)); require(y == x, "ref and deref of a cone disagree"); same("ref after deref");
    require(iFPGA::derefed_size(a, n) == x, "derefed_size"); same("derefed_size"); h = mix(h, x);
  });
  // topological traversal: every node in the cones of the outputs once, fanins first
  std::set<u64> want; live_only(a, ro, want); iFPGA::topo_view<Aig> t(a); std::map<u64, int> pos; int k = 0; t.foreach_node([&](auto n) { require(pos.emplace(n, k++).second, "a node is visited twice"); });
  for (u64 n : want) { require(pos.count(n), "a gate in the cone of an output is not visited"); for (auto c : {a.get_child0(n), a.get_child1(n)}) require(pos.count(c.index) && pos[c.index] < pos[n], "a gate is visited before its fanin"); }
  t.foreach_gate([&](auto n) { require(want.count(n), "a gate outside the cones of the outputs is visited"); }); u32 g = 0; t.foreach_gate([&](auto) { ++g; }); require(g == want.size() && t.num_gates() == want.size(), "number of gates of the traversal");
  a.foreach_pi([&](auto n) { require(pos.count(n), "an input is not visited"); });
  if (a.num_gates()) r.nontrivial(h);
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 30; std::string P = "C09"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1];
  r.one = [&](std::string const &s) { if (P == "C09") one09(r, s); else if (P == "C10") one10(r, s); else if (P == "C25") one25(r, s); else one26(r, s); };
  r.assumptions = {"combinational networks, inputs and gates as bounded by the families"};
  u64 stride = 1, tick = 0; std::string sfx; auto E = [&](Spec const &s) { if (tick++ % stride == 0) r.addl([&] { return s.str() + "|" + sfx; }); };
  auto fam = [&](std::string const &n, u64 st = 1) { stride = st; tick = 0; r.family(n + (st > 1 ? " (every " + std::to_string(st) + "th)" : "")); };
  if (P == "C09") r.rule = "every creation function is applied to every tuple of literals (constants, complements, inputs, gates) of every small network; the returned signal is evaluated on all assignments, and after each batch fanin order, absence of duplicates, fanout counts, phases, gate counts and the hash table are checked; large networks pass every table growth while an independent table is kept";
  if (P == "C10") { r.level = "model_checking"; r.rule = "states are networks reached from every base network by every sequence of edits (substitute a gate by any literal that does not create a cycle, substitute two gates at once, remove a fanout-free gate, create a gate, add an output) up to the given length; after every edit the outputs are compared with the edited function system and all structural invariants are checked; states = networks checked, transitions = edits applied to the implementation, traces = edit histories replayed from scratch on the implementation"; }
  if (P == "C25") r.rule = "levels and depth of every view are compared with the longest paths computed independently: for new views, gates and outputs added through view and base network, recomputation, substitutions, and networks built through a view; with and without counting inverters";
  if (P == "C26") r.rule = "for every gate of every network the recursive dereference and reference are compared with an independently computed fanout-free cone, including all intermediate counts; topological traversal is compared with the set of gates reachable from the outputs";
  r.enumerate = [&](Runner &) {
    bool th = r.thorough();
    if (P == "C09") {
      for (int m : {2, 3, 4}) { sfx = std::to_string(m); for (int n = 1; n <= 3; ++n) for (int g = 0; g <= (m == 2 ? (th ? 4 : 3) : m == 3 ? (th ? 3 : 2) : 1); ++g) { fam(m == 2 ? "two-operand functions on all AIGs" : m == 3 ? "three-operand functions on all AIGs" : "n-ary functions", m == 2 && g >= 3 ? (th ? 1 : 11) : 1); gen_all(n, g, g > 2, [&](Spec const &s) { with_pos(s, 2, E); }); } }
      fam("large networks across every growth of the hash table"); for (u64 n : {19000, 20100, 21000, 40000, 62000, 63500, 70000, 80000}) for (int k = 0; k < (th ? 6 : 1); ++k) r.addl([&] { return "big|" + std::to_string(n) + "|" + std::to_string(k); }); if (th) for (u64 n : {200000, 250000}) r.addl([&] { return "big|" + std::to_string(n) + "|0"; });
    } else if (P == "C10") {
      auto subs = [&](Spec const &s, auto cb) { u32 N = s.npi + 1 + s.g.size(); for (u32 n = s.npi + 1; n < N; ++n) for (u32 l = 0; l < 2 * N; ++l) if ((l >> 1) != n) cb("s" + std::to_string(n) + "." + std::to_string(l)); };
      auto ops = [&](Spec const &s, auto cb) { subs(s, cb); u32 N = s.npi + 1 + s.g.size(); for (u32 n = s.npi + 1; n < N; ++n) cb("t" + std::to_string(n)); for (u32 x = 2; x < 2 * N; ++x) for (u32 y = x + 2 - (x & 1); y < 2 * N; y += 1) if (((x ^ y) & 1) == 0 || y % 3 == 0) cb("a" + std::to_string(x) + "." + std::to_string(y)); cb("p" + std::to_string(2 * N - 1)); cb("p" + std::to_string(2 * N - 2)); };
      auto D1 = [&](Spec const &s) { subs(s, [&](std::string const &o) { sfx = o; E(s); }); };
      auto D2 = [&](Spec const &s) { subs(s, [&](std::string const &o) { ops(s, [&](std::string const &q) { sfx = o + ";" + q; E(s); }); }); };
      auto D2b = [&](Spec const &s) { ops(s, [&](std::string const &o) { if (o[0] != 's') subs(s, [&](std::string const &q) { sfx = o + ";" + q; E(s); u32 N = s.npi + 1 + s.g.size(); for (u32 n = s.npi + 1; n < N; ++n) { sfx = o + ";s" + std::to_string(n) + "." + std::to_string(2 * N + (n & 1)) + ";" + q; E(s); } }); }); };
      auto M = [&](Spec const &s) { u32 N = s.npi + 1 + s.g.size(); for (u32 n = s.npi + 1; n < N; ++n) for (u32 m = s.npi + 1; m < N; ++m) if (m != n) for (u32 k = 0; k < 2 * N; ++k) for (u32 l = 0; l < 2 * N; ++l) { sfx = "m" + std::to_string(n) + "." + std::to_string(k) + "," + std::to_string(m) + "." + std::to_string(l); E(s); } };
      for (int n = 1; n <= 3; ++n) for (int g = 1; g <= 3; ++g) { fam("one substitution, all AIGs"); gen_all(n, g, g > 2, [&](Spec const &s) { for (int m : {0, 2, 3}) with_pos(s, m, D1); }); }
      fam("one substitution, all 4-gate AIGs", th ? 1 : 3); for (int n = 2; n <= 3; ++n) gen_all(n, 4, true, [&](Spec const &s) { with_pos(s, 0, D1); with_pos(s, 2, D1); });
      fam("one substitution, all 5-gate AIGs of 2 inputs", th ? 1 : 61); gen_all(2, 5, true, [&](Spec const &s) { with_pos(s, 0, D1); });
      for (int n = 1; n <= 3; ++n) for (int g = 1; g <= 3; ++g) { u64 st = g < 3 ? 1 : th ? 1 : 29; fam("substitution then any edit", st); gen_all(n, g, true, [&](Spec const &s) { with_pos(s, 0, D2); with_pos(s, 2, D2); }); fam("any edit then substitutions", st * 3); gen_all(n, g, true, [&](Spec const &s) { with_pos(s, 0, D2b); }); fam("two substitutions at once", g < 3 ? 1 : th ? 1 : 23); gen_all(n, g, true, [&](Spec const &s) { with_pos(s, 0, M); with_pos(s, 2, M); }); }
      fam("two substitutions at once, 4 gates", th ? 7 : 499); gen_all(2, 4, true, [&](Spec const &s) { with_pos(s, 0, M); });
      fam("substitution then any edit, 4 gates", th ? 7 : 997); gen_all(2, 4, true, [&](Spec const &s) { with_pos(s, 0, D2); });
      // longer histories on structured circuits
      fam("substitutions in recurrence AIGs", th ? 3 : 97); gen_recur(3, 9, 4, 2, 2, [&](Spec const &s) { D1(s); }); 
    } else if (P == "C25" || P == "C26") {
      for (std::string x : {P == "C25" ? "n" : "k", P == "C25" ? "i" : "d"}) { sfx = x; fam("all AIGs with <=3 inputs, <=4 gates, 5 output patterns"); for (int n = 1; n <= 3; ++n) for (int g = 0; g <= (th ? 5 : 4); ++g) for (int m = 0; m < 5; ++m) gen_all(n, g, g > 3, [&](Spec const &s) { with_pos(s, m, E); });
        fam("all pairs of 3-input functions", th ? 1 : 7); for (int k = 0; k < 4; ++k) gen_pairs(k, k % 4, (k + 1) % 4, E); fam("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E); gen_recur(5, 30, 6, 2, 3, E); fam("blocks"); gen_blocks(13, E); fam("degenerate"); gen_degenerate(3, 3, E); fam("trees"); gen_trees(6, 6, 3, false, E); gen_trees(7, 4, 2, true, E); }
    }
  };
  r.prop = P; return r.main(argc, argv);
}

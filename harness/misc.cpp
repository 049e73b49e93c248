// C19 cut enumeration, C21 equivalence checking / CNF / circuit validation, C22 simulation, C23 4-input library,
// C24 SOP factoring, C27 SOP balancing, C30 reconstruction (cleanup of LUTs, ports, onto given leaves), C31 checks of mapped networks,
// C28 LUT network creation and conversion to AIG, C29 node annotations.
#include "lut.hpp"
#include "ops.hpp"
#include "cut/cut_enumeration.hpp"
#include "cut/rewrite_cut_enumeration.hpp"
#include "algorithms/simulation.hpp"
#include "views/mapping_view.hpp"
#include "utils/node_map.hpp"
#include "utils/truth_table_cache.hpp"
#include "algorithms/miter.hpp"
#include "algorithms/equivalence_checking.hpp"
#include "algorithms/circuit_validator.hpp"
#include "optimization/detail/sop_refactoring.hpp"
#include "optimization/balancing.hpp"
#include "optimization/balancing/sop_balancing.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
#include <fcntl.h>
using namespace vf;
using Sig = Aig::signal;
using DTT = kitty::dynamic_truth_table;
static std::string S(u64 x) { return std::to_string(x); }
template <class K> static TT fromK(K const &t, int n) { TT r(n); for (u64 i = 0; i < (u64(1) << n); ++i) if (kitty::get_bit(t, i)) r.setbit(i); return r; }
static DTT toK(int n, u64 f) { DTT t(n); for (u64 i = 0; i < (u64(1) << n); ++i) if ((f >> i) & 1) kitty::set_bit(t, i); return t; }
// function of every node of a network whose node indices are topologically ordered
static std::vector<TT> nodes_of(Aig const &a) {
  u32 npi = a.num_pis(); std::vector<TT> v(a.size(), TT(npi)); u32 k = 0; a.foreach_pi([&](auto n) { v[n] = TT::var(npi, k++); });
  a.foreach_gate([&](auto n) { auto c = a.get_child0(n), d = a.get_child1(n); v[n] = (c.complement ? ~v[c.index] : v[c.index]) & (d.complement ? ~v[d.index] : v[d.index]); });
  return v;
}
// ------------------------------------------------------------------ LUT network descriptions
// "npi;f.f:hex,f.f:hex;po,po" ; node ids: 0,1 constants, 2.. inputs, then gates
struct LSpec {
  int npi = 0; struct G { std::vector<u32> in; u64 f; }; std::vector<G> g; std::vector<u32> po;
  std::string str() const { std::string s = S(npi) + ";"; char b[20]; for (auto &x : g) { for (size_t i = 0; i < x.in.size(); ++i) s += (i ? "." : "") + S(x.in[i]); snprintf(b, 20, ":%llx,", (unsigned long long)x.f); s += b; } s += ";"; for (auto o : po) s += S(o) + ","; return s; }
  static LSpec parse(std::string const &s) {
    LSpec r; auto f = split(s, ';'); r.npi = atoi(f[0].c_str());
    for (auto &t : split(f[1], ',')) if (!t.empty()) { G g; size_t c = t.find(':'); for (auto &x : split(t.substr(0, c), '.')) g.in.push_back(atoi(x.c_str())); g.f = strtoull(t.c_str() + c + 1, 0, 16); r.g.push_back(g); }
    if (f.size() > 2) for (auto &t : split(f[2], ',')) if (!t.empty()) r.po.push_back(atoi(t.c_str()));
    return r;
  }
  std::vector<TT> nodes() const {
    std::vector<TT> v{TT(npi), ~TT(npi)}; for (int i = 0; i < npi; ++i) v.push_back(TT::var(npi, i));
    for (auto &x : g) { TT r(npi); for (u64 m = 0; m < (u64(1) << npi); ++m) { u64 k = 0; for (size_t j = 0; j < x.in.size(); ++j) if (v[x.in[j]].bit(m)) k |= u64(1) << j; if ((x.f >> k) & 1) r.setbit(m); } v.push_back(r); }
    return v;
  }
  std::vector<TT> tt() const { auto v = nodes(); std::vector<TT> r; for (auto o : po) r.push_back(v[o]); return r; }
  Klut build() const {
    Klut k; for (int i = 0; i < npi; ++i) k.create_pi();
    for (auto &x : g) { std::vector<Klut::signal> in(x.in.begin(), x.in.end()); k.create_node(in, toK(in.size(), x.f)); }
    for (auto o : po) k.create_po(o);
    return k;
  }
};
using LFn = std::function<void(LSpec const &)>;
static void all_luts(int k, u64 step, LFn const &cb) { for (u64 f = 0; f < (u64(1) << (1 << k)); f += step) { LSpec s; s.npi = k; LSpec::G g; for (int i = 0; i < k; ++i) g.in.push_back(2 + i); g.f = f; s.g.push_back(g); s.po = {2u + k}; cb(s); } }
// two LUTs; every fanin choice (constants, inputs, repeated) of the first and second
static void two_luts(int npi, int k1, int k2, u64 st1, u64 st2, bool fan, LFn const &cb) {
  u32 b1 = npi + 2, b2 = b1 + 1; u64 n1 = 1, n2 = 1; for (int i = 0; i < k1; ++i) n1 *= b1; for (int i = 0; i < k2; ++i) n2 *= b2;
  for (u64 f = 0; f < (u64(1) << (1 << k1)); f += st1) for (u64 g = 0; g < (u64(1) << (1 << k2)); g += st2)
    for (u64 x = 0; x < (fan ? n1 : 1); ++x) for (u64 y = 0; y < (fan ? n2 : 1); ++y) {
      LSpec s; s.npi = npi; LSpec::G a, b; a.f = f; b.f = g; u64 q = x; for (int i = 0; i < k1; ++i) { a.in.push_back(fan ? q % b1 : 2 + i % npi); q /= b1; }
      q = y; for (int i = 0; i < k2; ++i) { b.in.push_back(fan ? q % b2 : i == 0 ? b1 : 2 + (i + k1 - 1) % npi); q /= b2; }
      s.g = {a, b}; s.po = {b2, b1, (u32)(f & 1), 2u}; cb(s);
    }
}
// ------------------------------------------------------------------ C19
template <class Data, bool Truth> static void cuts_of(Runner &r, Aig const &a, u32 k, u32 lim, std::vector<TT> const &val, u64 h) {
  iFPGA::cut_enumeration_params p; p.cut_size = k; p.cut_limit = lim;
  auto cuts = iFPGA::cut_enumeration<Aig, Truth, Data>(a, p);
  using Set = std::set<std::vector<u32>>; std::vector<Set> ref(a.size()); std::vector<char> exact(a.size(), 0); u64 big = 0;
  require(cuts.nodes_size() == a.size(), "cut database has the wrong size");
  a.foreach_node([&](auto n) {
    auto &cs = cuts.cuts(n); std::vector<std::vector<u32>> got; 
    for (auto const *c : cs) got.push_back(std::vector<u32>(c->begin(), c->end()));
    std::string nm = "node " + S(n) + ": ";
    require(got.size() == cs.size() && got.size() <= lim, nm + S(got.size()) + " cuts, limit " + S(lim));
    if (a.is_constant(n)) { require(got.size() == 1 && got[0].empty(), nm + "the constant has other cuts than the empty one"); ref[n] = {{}}; exact[n] = 1; }
    else if (a.is_pi(n)) { require(got.size() == 1 && got[0] == std::vector<u32>{(u32)n}, nm + "an input has other cuts than itself"); ref[n] = {{(u32)n}}; exact[n] = 1; }
    else {
      bool triv = false;
      for (size_t i = 0; i < got.size(); ++i) {
        auto &c = got[i]; require(c.size() <= k, nm + "cut with " + S(c.size()) + " leaves, limit " + S(k));
        for (size_t j = 0; j + 1 < c.size(); ++j) require(c[j] < c[j + 1], nm + "leaves not sorted");
        if (c == std::vector<u32>{(u32)n}) { triv = true; require(i + 1 == got.size(), nm + "the trivial cut is not the last one"); }
        else if (i) require(got[i - 1].size() <= c.size() || !std::is_same<Data, iFPGA::empty_cut_data>::value, nm + "cuts not ordered by size");
        for (size_t j = 0; j < got.size(); ++j) if (j != i) require(!std::includes(c.begin(), c.end(), got[j].begin(), got[j].end()), nm + "a cut contains another one");
        // separates the node from the inputs
        std::set<u64> seen; std::vector<u64> st{(u64)n}; while (!st.empty()) { u64 m = st.back(); st.pop_back(); if (std::binary_search(c.begin(), c.end(), (u32)m) || m == 0 || !seen.insert(m).second) continue; require(!a.is_pi(m), nm + "a cut does not separate it from the inputs"); st.push_back(a.get_child0(m).index); st.push_back(a.get_child1(m).index); }
        for (auto l : c) require(l < a.size() && (l == n || seen.count(l) == 0), nm + "bad leaf");
        if constexpr (Truth) {
          size_t idx = 0; for (auto const *cc : cs) if (idx++ == i) {
            auto f = cuts.truth_table(*cc); require(f.num_vars() == c.size(), nm + "cut function has " + S(f.num_vars()) + " variables, the cut has " + S(c.size()) + " leaves");
            std::vector<TT> in; for (auto l : c) in.push_back(val[l]);
            TT t = lut_apply(f, in, a.num_pis()); require(t == val[n], nm + "the function of a cut is wrong");
          }
        }
      }
      require(triv, nm + "the trivial cut is missing");
      // complete set (as long as no limit can have been reached in the cone)
      u64 c0 = a.get_child0(n).index, c1 = a.get_child1(n).index; Set all; for (auto &x : ref[c0]) for (auto &y : ref[c1]) { std::vector<u32> u; std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(u)); if (u.size() <= k) all.insert(u); }
      Set irr; for (auto &x : all) { bool dom = false; for (auto &y : all) if (y != x && std::includes(x.begin(), x.end(), y.begin(), y.end())) dom = true; if (!dom) irr.insert(x); }
      irr.insert({(u32)n}); exact[n] = exact[c0] && exact[c1] && all.size() < lim - 1 && all.size() < 20;
      if (exact[n]) { Set g(got.begin(), got.end()); require(g == irr, nm + S(g.size()) + " cuts found, the complete set has " + S(irr.size())); ref[n] = irr; r.count(0, irr.size()); }
      else { ref[n] = Set(got.begin(), got.end()); ++big; }
      for (auto &c : got) for (auto l : c) h = mix(h, l);
      if (got.size() > 2) r.nontrivial(h);
      r.count(1, got.size());
    }
  });
  r.count(2, big);
}
static void one19(Runner &r, std::string const &s) {
  auto f = split(s, '|'); auto q = split(f[0], '_'); Spec sp = Spec::parse(f[1]); Aig a = build(sp); auto v = nodes_of(a); u32 k = atoi(q[0].c_str()), l = atoi(q[1].c_str());
  cuts_of<iFPGA::empty_cut_data, true>(r, a, k, l, v, hashS(s)); cuts_of<iFPGA::empty_cut_data, false>(r, a, k, l, v, hashS(s)); cuts_of<iFPGA::cut_enumeration_rewrite_cut, true>(r, a, k, l, v, hashS(s));
}
// ------------------------------------------------------------------ C21
template <class N1, class N2> static void ec(Runner &r, N1 const &a, N2 const &b, std::vector<TT> const &x, std::vector<TT> const &y, u32 npi, u64 h) {
  constexpr bool both = std::is_same<N1, Aig>::value && std::is_same<N2, Aig>::value; using M = std::conditional_t<both, Aig, Klut>;
  auto m = iFPGA::miter<M>(a, b); bool same_io = a.num_pis() == b.num_pis() && x.size() == y.size();
  require(bool(m) == same_io, "miter of networks with different ports"); if (!same_io) { r.nontrivial(mix(h, 5)); return; }
  TT d(npi); for (size_t i = 0; i < x.size(); ++i) d = d | (x[i] ^ y[i]);
  require(m->num_pis() == npi && m->num_pos() == 1, "the miter has wrong ports");
  if constexpr (both) { auto f = sim_aig(*m, npi); require(f[0] == d, "the miter is not 1 exactly where the networks differ"); }

  auto mk = iFPGA::miter<Klut>(a, b); require(bool(mk), "no LUT miter"); auto fk = sim_klut(*mk, npi); require(fk.po.size() == 1 && fk.po[0] == d, "the LUT miter is not 1 exactly where the networks differ");
  bool eq = d == TT(npi);
  for (int t = 0; t < 2; ++t) {
    iFPGA::equivalence_checking_stats st; auto res = t ? iFPGA::equivalence_checking(*mk, {}, &st) : iFPGA::equivalence_checking(*m, {}, &st);
    require(bool(res), "no verdict without a conflict limit"); require(*res == eq, std::string("verdict is ") + (*res ? "equivalent" : "different") + " but the networks are " + (eq ? "equivalent" : "different"));
    if (!eq) { require(st.counter_example.size() == npi, "the counter example has " + S(st.counter_example.size()) + " values"); u64 i = 0; for (u32 j = 0; j < npi; ++j) if (st.counter_example[j]) i |= u64(1) << j; require(d.bit(i), "the counter example does not tell the networks apart"); }
  }
  r.nontrivial(hashTT(d, h)); r.count(0, 1);
}
// models of the CNF = consistent valuations of the nodes
template <class N> static void cnf_exact(Runner &r, N const &a, std::vector<TT> const &val, std::vector<TT> const &po, u32 npi, u32 offset) {
  std::vector<std::vector<u32>> cl; auto lits = iFPGA::node_literals(a, offset ? std::optional<uint32_t>(npi + 1 + offset) : std::optional<uint32_t>());
  auto out = iFPGA::generate_cnf<N>(a, [&](std::vector<uint32_t> const &c) { cl.push_back(c); }, std::optional<iFPGA::node_map<uint32_t, N>>(lits));
  require(out.size() == po.size(), "wrong number of output literals");
  std::vector<u32> gv; a.foreach_gate([&](auto n) { u32 l = lits[n]; require(!(l & 1) && (l >> 1) > npi, "a gate shares the variable of an input"); for (auto x : gv) require(x != l >> 1, "two gates share a variable"); gv.push_back(l >> 1); });
  u32 nv = npi + 2 + offset + gv.size(); std::vector<u64> gi; a.foreach_gate([&](auto n) { gi.push_back(n); });
  { u32 i = 0; a.foreach_pi([&](auto n) { require(lits[n] == 2 * ++i, "input literal"); }); }
  for (u64 m = 0; m < (u64(1) << npi); ++m) for (u64 g = 0; g < (u64(1) << gv.size()); ++g) {
    std::vector<char> x(nv, 0); for (u32 i = 0; i < npi; ++i) x[1 + i] = (m >> i) & 1; bool cons = true;
    for (size_t i = 0; i < gv.size(); ++i) { x[gv[i]] = (g >> i) & 1; if (val[gi[i]].bit(m) != ((g >> i) & 1)) cons = false; }
    bool sat = true; for (auto &c : cl) { bool t = false; for (auto l : c) { require(l >> 1 < nv, "unknown variable"); if (x[l >> 1] != (l & 1)) t = true; } if (!t) { sat = false; break; } }
    require(sat == cons, cons ? "the CNF excludes a consistent valuation" : "the CNF admits an inconsistent valuation");
    if (cons) for (size_t i = 0; i < po.size(); ++i) require((x[out[i] >> 1] != (out[i] & 1)) == po[i].bit(m), "an output literal has the wrong value");
    r.count(1, 1);
  }
  std::vector<char> z(nv, 0); bool c1 = false; for (auto &c : cl) if (c == std::vector<u32>{1}) c1 = true; require(c1, "the constant is not fixed");
}
template <class V> static void validator(Runner &r, Aig &a, std::vector<TT> const &val, u32 npi, u32 maxcl, u64 h) {
  iFPGA::validator_params ps; ps.max_clauses = maxcl; V v(a, ps); u32 n = a.size(); u64 q = 0;
  auto cex = [&](TT const &d, char const *w) { require(v.cex.size() == npi, "cex size"); u64 i = 0; for (u32 j = 0; j < npi; ++j) if (v.cex[j]) i |= u64(1) << j; require(d.bit(i), std::string(w) + ": the counter example does not tell them apart"); };
  auto judge = [&](std::optional<bool> res, TT const &d, char const *w) { ++q; require(bool(res), std::string(w) + ": no verdict"); require(*res == (d == TT(npi)), std::string(w) + ": wrong verdict"); if (!*res) cex(d, w); };
  auto F = [&](u32 l) { return l & 1 ? ~val[l >> 1] : val[l >> 1]; };
  for (u32 x = n; x-- > 0;) for (u32 p = 0; p < 2; ++p) {
    for (u32 y = 0; y < 2 * n; ++y) { judge(v.validate(Sig(x, p), Sig(y >> 1, y & 1)), F(2 * x + p) ^ F(y), "signal/signal"); if (!p) judge(v.validate((Aig::node)x, Sig(y >> 1, y & 1)), F(2 * x) ^ F(y), "node/signal"); }
    for (int c = 0; c < 2; ++c) { TT k = c ? ~TT(npi) : TT(npi); judge(v.validate(Sig(x, p), (bool)c), F(2 * x + p) ^ k, "signal/constant"); if (!p) judge(v.validate((Aig::node)x, (bool)c), F(2 * x) ^ k, "node/constant"); }
  }
  for (u32 x = 0; x < n; ++x) for (u32 d0 = 0; d0 < n; ++d0) for (u32 d1 = d0; d1 < n; ++d1) for (int c = 0; c < 16; ++c) { // !?( ??d0 op ??d1 )
    typename V::gate g; g.type = c & 8 ? V::XOR : V::AND; g.fanins = {{0, bool(c & 1)}, {1, bool(c & 2)}}; std::vector<Aig::node> dv{d0, d1};
    TT A = F(2 * d0 + (c & 1)), B = F(2 * d1 + (c >> 1 & 1)), R = c & 8 ? A ^ B : A & B; if (c & 4) R = ~R;
    judge(v.validate(Sig(x, 0), dv, {g}, bool(c & 4)), val[x] ^ R, "signal/circuit");
    if (c == 5) { typename V::gate m; m.type = V::MAJ; m.fanins = {{0, false}, {1, true}, {2, false}}; TT M = (A & ~B) | ((A & R)) | (~B & R); (void)M; typename V::gate g2 = g; std::vector<typename V::gate> ci{g2, m}; TT G = F(2 * d0 + 1) & F(2 * d1); TT MM = (val[d0] & ~val[d1]) | (val[d0] & G) | (~val[d1] & G); judge(v.validate((Aig::node)x, dv, ci, false), val[x] ^ MM, "node/two-gate circuit"); }
  }
  r.count(2, q); r.nontrivial(mix(h, q));
}
using VG = iFPGA::circuit_validator<Aig>;
using VB = iFPGA::circuit_validator<Aig, bill::solvers::bsat2, true>;
static void patterns(Runner &r, Aig &a, std::vector<TT> const &val, u32 npi) {
  VB v(a); u64 tot = u64(1) << npi;
  for (u32 x = 0; x < a.size(); ++x) for (int p = 0; p < 2; ++p) for (int c = 0; c < 2; ++c) for (u32 num = 1; num <= tot + 1; num += num < 3 || tot < 4 ? 1 : tot - 2) for (int blk = 0; blk < 3; ++blk) {
    TT f = (p ? ~val[x] : val[x]); if (!c) f = ~f; std::vector<std::vector<bool>> bl; std::set<u64> want, blocked;
    for (u64 m = 0; m < tot; ++m) if (f.bit(m)) { if (blk && m % (blk + 1) == 0) { std::vector<bool> b; for (u32 j = 0; j < npi; ++j) b.push_back((m >> j) & 1); bl.push_back(b); } else want.insert(m); }
    auto g = v.generate_pattern(Sig(x, p), (bool)c, bl, num); std::set<u64> got;
    for (auto &b : g) { require(b.size() == npi, "pattern size"); u64 m = 0; for (u32 j = 0; j < npi; ++j) if (b[j]) m |= u64(1) << j; require(want.count(m), "a generated pattern is blocked or does not give the value"); require(got.insert(m).second, "a pattern is generated twice"); }
    require(got.size() == std::min<u64>(num, want.size()), S(got.size()) + " patterns generated, " + S(want.size()) + " exist, " + S(num) + " asked for"); r.count(2, 1);
  }
}
static void one21(Runner &r, std::string const &s) {
  auto f = split(s, '|'); u64 h = hashS(s);
  if (f[0] == "M") { Spec x = Spec::parse(f[1]), y = Spec::parse(f[2]); ec(r, build(x), build(y), x.tt(), y.tt(), x.npi, h); }
  else if (f[0] == "K") { Spec x = Spec::parse(f[1]); LSpec y = LSpec::parse(f[2]); ec(r, build(x), y.build(), x.tt(), y.tt(), x.npi, h); ec(r, y.build(), build(x), y.tt(), x.tt(), x.npi, h); }
  else if (f[0] == "N") { Spec x = Spec::parse(f[1]); Aig a = build(x); auto v = nodes_of(a); for (u32 o : {0, 3}) cnf_exact(r, a, v, x.tt(), x.npi, o); r.nontrivial(h); }
  else if (f[0] == "L") { LSpec x = LSpec::parse(f[1]); Klut k = x.build(); for (u32 o : {0, 3}) cnf_exact(r, k, x.nodes(), x.tt(), x.npi, o); r.nontrivial(h); }
  else if (f[0] == "V") { Spec x = Spec::parse(f[1]); Aig a = build(x); auto v = nodes_of(a); validator<VG>(r, a, v, x.npi, 1000, h); { Aig b = build(x); validator<VG>(r, b, v, x.npi, 20, h); } { Aig b = build(x); validator<VB>(r, b, v, x.npi, 1000, h); } { Aig b = build(x); validator<VB>(r, b, v, x.npi, 30, h); } { Aig b = build(x); patterns(r, b, v, x.npi); } }
}
// ------------------------------------------------------------------ C22
template <class N> static void simulate_all(Runner &r, N const &a, std::vector<TT> const &val, std::vector<TT> const &po, u32 npi, bool part) {
  u64 tot = u64(1) << npi;
  auto t = iFPGA::simulate<DTT>(a, iFPGA::default_simulator<DTT>(npi)); require(t.size() == po.size(), "number of simulated outputs");
  for (size_t i = 0; i < po.size(); ++i) require(fromK(t[i], npi) == po[i], "truth table of output " + S(i) + " is wrong");
  auto nt = iFPGA::simulate_nodes<DTT>(a, iFPGA::default_simulator<DTT>(npi)); a.foreach_gate([&](auto n) { require(fromK(nt[n], npi) == val[a.node_to_index(n)], "truth table of node " + S(n) + " is wrong"); });
  if constexpr (std::is_same<N, Aig>::value) { iFPGA::unordered_node_map<DTT, N> um(a); iFPGA::simulate_nodes<DTT>(a, um, iFPGA::default_simulator<DTT>(npi)); a.foreach_node([&](auto n) { require(um.has(n) && fromK(um[n], npi) == val[a.node_to_index(n)], "truth table of node " + S(n) + " in the sparse map is wrong"); }); }
  auto st = iFPGA::simulate<kitty::static_truth_table<4>>(a); TT m4(4); if (npi <= 4) for (size_t i = 0; i < po.size(); ++i) for (u64 m = 0; m < 16; ++m) require(kitty::get_bit(st[i], m) == po[i].bit(m & (tot - 1)), "static truth table of output " + S(i) + " is wrong");
  for (u64 m = 0; m < tot; ++m) {
    std::vector<bool> in; for (u32 j = 0; j < npi; ++j) in.push_back((m >> j) & 1);
    auto b = iFPGA::simulate<bool>(a, iFPGA::default_simulator<bool>(in)); for (size_t i = 0; i < po.size(); ++i) require(b[i] == po[i].bit(m), "value of output " + S(i) + " under input " + S(m) + " is wrong");
    auto w = iFPGA::simulate<bool>(a, iFPGA::input_word_simulator(m)); for (size_t i = 0; i < po.size(); ++i) require(w[i] == po[i].bit(m), "value of output " + S(i) + " under input word " + S(m) + " is wrong");
  }
  (void)part; r.count(0, tot);
}
// partial truth tables: patterns added one by one, nodes re-simulated on demand
static void partial(Runner &r, Aig const &a, std::vector<TT> const &val, u32 npi, u32 start, u32 steps, bool whole_each) {
  if (!npi) return; iFPGA::partial_simulator sim(npi, start, 7); iFPGA::unordered_node_map<kitty::partial_truth_table, Aig> m(a); u64 tot = u64(1) << npi;
  auto ok = [&](u64 n, char const *w) { auto P = sim.get_patterns(); require(m[n].num_bits() == sim.num_bits(), std::string(w) + ": signature length"); for (u32 i = 0; i < sim.num_bits(); ++i) { u64 x = 0; for (u32 j = 0; j < npi; ++j) if (kitty::get_bit(P[j], i)) x |= u64(1) << j; require(kitty::get_bit(m[n], i) == val[n].bit(x), std::string(w) + ": bit " + S(i) + " of node " + S(n) + " is wrong"); } };
  iFPGA::simulate_nodes(a, m, sim, true); a.foreach_gate([&](auto n) { ok(n, "whole"); });
  std::vector<u64> gates; a.foreach_gate([&](auto n) { gates.push_back(n); });
  for (u32 s = 0; s < steps; ++s) {
    std::vector<bool> p; for (u32 j = 0; j < npi; ++j) p.push_back(((s * 5 + start) % tot >> j) & 1); u32 b0 = sim.num_bits(); sim.add_pattern(p);
    for (u32 i = 0; i < b0 / 64 + 1 && i < 1; ++i) if (sim.num_bits() % 64 == 1) { m.reset(); iFPGA::simulate_nodes(a, m, sim, true); } // a new block: simulate afresh (documented)
    if (!gates.empty()) { if (whole_each) { iFPGA::simulate_nodes(a, m, sim, false); for (auto n : gates) ok(n, "incremental"); } else { u64 n = gates[(s * 3 + 1) % gates.size()]; iFPGA::simulate_node(a, n, m, sim); ok(n, "one node"); } }
    r.count(1, 1);
  }
}
// bit packing: "B|n_len_start_split_stride": all sequences of len cubes over n inputs (stride 0), or one long sequence per stride
static void packing(Runner &r, std::string const &s) {
  auto q = split(s, '_'); u32 n = atoi(q[0].c_str()), L = atoi(q[1].c_str()), start = atoi(q[2].c_str()), split_at = atoi(q[3].c_str()), stride = atoi(q[4].c_str()); u64 base = 1; for (u32 i = 0; i < n; ++i) base *= 3; u64 tot = 1; if (!stride) for (u32 i = 0; i < L; ++i) tot *= base;
  for (u64 k = 0; k < tot; ++k) {
    iFPGA::bit_packed_simulator sim(n, start, 5); auto P0 = sim.get_patterns(); std::vector<std::vector<int>> cubes; u64 x = k; u32 before = start;
    auto holds = [&](char const *w) { auto P = sim.get_patterns(); u32 nb = sim.num_bits(); for (u32 j = 0; j < n; ++j) { require(P[j].num_bits() == nb, std::string(w) + ": number of patterns"); for (u32 i = 0; i < start; ++i) require(kitty::get_bit(P[j], i) == kitty::get_bit(P0[j], i), std::string(w) + ": an initial pattern changed"); }
      for (auto &c : cubes) { bool any = false; for (u32 i = 0; i < nb && !any; ++i) { bool ok = true; for (u32 j = 0; j < n; ++j) ok = ok && (c[j] == 2 || int(kitty::get_bit(P[j], i)) == c[j]); any = ok; } require(any, std::string(w) + ": the cared values of an added pattern are in no pattern"); } };
    auto pack = [&] { bool y = sim.pack_bits(); holds("packing"); require(sim.num_bits() <= before && sim.num_bits() >= start && y == (sim.num_bits() < before), "packing reports " + S(y) + " for " + S(before) + " -> " + S(sim.num_bits()) + " patterns"); before = sim.num_bits(); r.count(1, 1); };
    for (u32 i = 0; i < L; ++i) { u64 c = stride ? (u64(i) * stride + i / base) % base : x % base; x /= base; std::vector<bool> v, care; cubes.push_back({}); for (u32 j = 0; j < n; ++j) { int d = c % 3; c /= 3; v.push_back(d == 1); care.push_back(d != 2); cubes.back().push_back(d); } sim.add_pattern(v, care); ++before; if (i + 1 == split_at) pack(); }
    pack(); require(!sim.pack_bits(), "packing twice"); sim.randomize_dont_care_bits(3); holds("filling the free values");
  }
}
static void one22(Runner &r, std::string const &s) {
  auto f = split(s, '|'); u64 h = hashS(s);
  if (f[0] == "B") { packing(r, f[1]); r.nontrivial(h); return; }
  if (f[0] == "S") { Spec x = Spec::parse(f[1]); Aig a = build(x); auto v = nodes_of(a), t = x.tt(); simulate_all(r, a, v, t, x.npi, true); if (x.npi) for (int w = 0; w < 2; ++w) for (u32 st : {1, 60, 63, 64}) partial(r, a, v, x.npi, st, 8, w); r.nontrivial(hashTT(t.empty() ? TT(1) : t[0], h)); }
  else { LSpec x = LSpec::parse(f[1]); Klut k = x.build(); simulate_all(r, k, x.nodes(), x.tt(), x.npi, false); r.nontrivial(h); }
}
// ------------------------------------------------------------------ C23 / C24
static void one23(Runner &r, std::string const &s) { // "k:fn0:count:mode" functions of k variables; mode 1: one input repeated/constant
  auto q = split(s, ':'); int k = atoi(q[0].c_str()); u64 f0 = strtoull(q[1].c_str(), 0, 16), cnt = atoi(q[2].c_str()); int mode = atoi(q[3].c_str()); u64 best = 0;
  for (u64 f = f0; f < f0 + cnt; ++f) {
    Aig a; std::vector<Sig> pi; for (int i = 0; i < 4; ++i) pi.push_back(a.create_pi());
    std::vector<Sig> lv; std::vector<TT> lt; for (int i = 0; i < k; ++i) { Sig l = pi[i]; TT t = TT::var(4, i); if (mode == 1 && i & 1) { l = !l; t = ~t; } if (mode == 2 && i == k - 1) { l = a.create_and(pi[0], !pi[3]); t = TT::var(4, 0) & ~TT::var(4, 3); } lv.push_back(l); lt.push_back(t); }
    TT want(4); for (u64 m = 0; m < 16; ++m) { u64 x = 0; for (int i = 0; i < k; ++i) if (lt[i].bit(m)) x |= 1 << i; if ((f >> x) & 1) want.setbit(m); }
    u32 c = 0, lim = ~0u;
    auto check = [&](Sig const &g) { auto v = nodes_of(a); require(g.index < a.size(), "bad signal"); TT t = g.complement ? ~v[g.index] : v[g.index]; require(t == want, "structure " + S(c) + " for function " + want.hex() + " computes " + t.hex()); ++c; return c < lim; };
    (void)lim; SharedRw::g()(a, toK(k, f), lv.begin(), lv.end(), [&](Sig const &g) { return check(g); }); best += c;
    require(c > 0 || k == 4, "no structure for function " + want.hex()); r.count(0, c); if (c) r.nontrivial(mix(mix(k, f), c * 4 + mode));
    lim = 1; if (c > 1) { c = 0; SharedRw::g()(a, toK(k, f), lv.begin(), lv.end(), [&](Sig const &g) { return check(g); }); require(c == 1, "candidates offered after the caller asked to stop"); }
  }
  (void)best;
}
static void one24(Runner &r, std::string const &s) {
  auto q = split(s, ':'); int k = atoi(q[0].c_str()); std::vector<std::pair<TT, DTT>> fs;
  if (k <= 4) { u64 f0 = strtoull(q[1].c_str(), 0, 16), cnt = atoi(q[2].c_str()); for (u64 f = f0; f < f0 + cnt; ++f) { DTT d = toK(k, f); fs.push_back({fromK(d, k), d}); } }
  else { TT t = Spec::parse(s.substr(s.find('|') + 1)).tt()[0]; for (int c = 0; c < 2; ++c) { DTT d(t.n); for (u64 m = 0; m < (u64(1) << t.n); ++m) if (t.bit(m) != c) kitty::set_bit(d, m); fs.push_back({c ? ~t : t, d}); } k = t.n; }
  iFPGA::sop_factoring<Aig> sop;
  for (auto &[want, d] : fs) {
    Aig a; std::vector<Sig> pi; for (int i = 0; i < k; ++i) pi.push_back(a.create_pi()); u32 calls = 0;
    sop(a, d, pi.begin(), pi.end(), [&](Sig const &g) { ++calls; auto v = nodes_of(a); TT t = g.complement ? ~v[g.index] : v[g.index]; require(t == want, "factored form of " + want.hex() + " computes " + t.hex()); return true; });
    require(calls == 1, "factoring produced " + S(calls) + " results"); r.count(0, 1); r.nontrivial(hashTT(want, k));
    if (k <= 4) { Aig b; Sig x = b.create_pi(), y = b.create_pi(), z = b.create_and(x, !y); std::vector<Sig> l{z, !x, y, b.create_and(!x, y)}; l.resize(k); std::vector<TT> lt{TT::var(2, 0) & ~TT::var(2, 1), ~TT::var(2, 0), TT::var(2, 1), ~TT::var(2, 0) & TT::var(2, 1)}; lt.resize(k);
      TT w2 = lut_apply(d, lt, 2); sop(b, d, l.begin(), l.end(), [&](Sig const &g) { auto v = nodes_of(b); require((g.complement ? ~v[g.index] : v[g.index]) == w2, "factored form over dependent leaves is wrong"); return true; }); }
  }
}
// ------------------------------------------------------------------ C28
static void one28(Runner &r, std::string const &s) {
  auto f = split(s, '|'); u64 h = hashS(s);
  if (f[0] == "L") {
    LSpec x = LSpec::parse(f[1]); Klut k = x.build(); auto want = x.tt(); auto in = sim_klut(k, x.npi); same_functions(want, in.po, "LUT network"); require(in.luts == x.g.size() && k.num_pos() == x.po.size(), "wrong number of LUTs or outputs");
    std::vector<u32> fo(k.size(), 0); for (auto &g : x.g) for (auto c : g.in) ++fo[c]; for (auto o : x.po) ++fo[o]; for (u32 i = 2; i < k.size(); ++i) require(k.fanout_size(i) == fo[i], "fanout count of LUT " + S(i));
    for (size_t i = 0; i < x.g.size(); ++i) { auto t = k.node_function(2 + x.npi + i); require(fromK(t, x.g[i].in.size()) == fromK(toK(x.g[i].in.size(), x.g[i].f), x.g[i].in.size()), "the function of a LUT changed"); }
    Aig a = iFPGA::convert_klut_to_aig(k); wellformed(a, x.npi, want.size(), "conversion"); same_functions(want, sim_aig(a, x.npi), "conversion to AIG"); r.nontrivial(hashS(f[1], a.num_gates())); r.count(0, 1);
  } else if (f[0] == "G") { // creation functions on every choice of operands
    Klut k; std::vector<Klut::signal> v{k.get_constant(false), k.get_constant(true)}; for (int i = 0; i < 3; ++i) v.push_back(k.create_pi());
    v.push_back(k.create_and(v[2], v[3])); auto q = split(f[1], ','); u32 x = atoi(q[0].c_str()), y = atoi(q[1].c_str()), z = atoi(q[2].c_str());
    std::vector<TT> t{TT(3), ~TT(3), TT::var(3, 0), TT::var(3, 1), TT::var(3, 2), TT::var(3, 0) & TT::var(3, 1)}; auto A = t[x], B = t[y], C = t[z]; std::vector<TT> want;
    auto po = [&](Klut::signal g, TT w) { k.create_po(g); want.push_back(w); }; auto a = v[x], b = v[y], c = v[z];
    po(k.create_buf(a), A); po(k.create_not(a), ~A); po(k.create_and(a, b), A & B); po(k.create_or(a, b), A | B); po(k.create_lt(a, b), ~A & B); po(k.create_le(a, b), ~A | B); po(k.create_xor(a, b), A ^ B);
    po(k.create_maj(a, b, c), (A & B) | (A & C) | (B & C)); po(k.create_ite(a, b, c), (A & B) | (~A & C)); po(k.create_xor3(a, b, c), A ^ B ^ C);
    std::vector<Klut::signal> fs; TT an = ~TT(3), o(3), e(3); po(k.create_nary_and(fs), an); po(k.create_nary_or(fs), o); po(k.create_nary_xor(fs), e);
    for (u32 i : {x, y, z, x, 4u}) { fs.push_back(v[i]); an = an & t[i]; o = o | t[i]; e = e ^ t[i]; po(k.create_nary_and(fs), an); po(k.create_nary_or(fs), o); po(k.create_nary_xor(fs), e); }
    for (u64 m = 0; m < 4; ++m) po(k.create_node({}, toK(0, m & 1)), m & 1 ? ~TT(3) : TT(3));
    auto in = sim_klut(k, 3); same_functions(want, in.po, "LUT creation"); Aig g = iFPGA::convert_klut_to_aig(k); same_functions(want, sim_aig(g, 3), "conversion to AIG"); r.nontrivial(h);
    // replacing a LUT by a signal that does not depend on it
    u64 old = v[5]; for (u32 w : {0u, 1u, 2u, 3u, 4u}) { Klut k2; std::vector<Klut::signal> u{0, 1}; for (int i = 0; i < 3; ++i) u.push_back(k2.create_pi()); u.push_back(k2.create_and(u[2], u[3])); auto p = k2.create_maj(u[x], u[y], u[z]); k2.create_po(p); k2.create_po(u[5]); k2.create_po(k2.create_lt(p, u[5])); auto tt = t; tt[5] = t[w]; TT P = (tt[x] & tt[y]) | (tt[x] & tt[z]) | (tt[y] & tt[z]); k2.substitute_node(old, u[w]); auto i2 = sim_klut(k2, 3); same_functions({P, tt[5], ~P & tt[5]}, i2.po, "substitute_node"); }
  } else { // mapped AIG -> AIG
    auto q = split(f[0], '_'); Spec sp = Spec::parse(f[1]); Aig a = build(sp); auto want = sp.tt();
    iFPGA::aig_with_choice awc(a); Mapped m(awc); iFPGA::klut_mapping_params p; p.cut_enumeration_ps.cut_size = atoi(q[0].c_str() + 1); p.cut_enumeration_ps.cut_limit = atoi(q[1].c_str()); p.verbose = false; iFPGA::klut_mapping<Mapped, true>(m, p);
    Aig b = iFPGA::convert_mapped_graph_to_aig(m); wellformed(b, sp.npi, want.size(), "conversion"); same_functions(want, sim_aig(b, sp.npi), "conversion of the mapped AIG"); r.nontrivial(hashS(f[1], b.num_gates())); r.count(0, 1);
    auto kl = map_luts(a, atoi(q[1].c_str()), atoi(q[0].c_str() + 1), 1, 2); Aig c = iFPGA::convert_klut_to_aig(kl); same_functions(want, sim_aig(c, sp.npi), "conversion of the LUT network");
  }
}
// ------------------------------------------------------------------ C29
template <class N> static std::vector<u64> picture(N const &a) { // everything a user can observe about the structure
  std::vector<u64> p{a.size(), a.num_pis(), a.num_pos(), a.num_gates(), a.num_cis(), a.num_cos(), a.is_combinational()};
  a.foreach_node([&](auto n) { p.push_back(n); p.push_back(a.is_constant(n)); p.push_back(a.is_ci(n)); p.push_back(n != 0 && a.is_pi(n)); p.push_back(a.fanout_size(n)); p.push_back(a.fanin_size(n)); });
  p.push_back(~0ull); a.foreach_pi([&](auto n) { p.push_back(n); }); p.push_back(~0ull); a.foreach_gate([&](auto n) { p.push_back(n); a.foreach_fanin(n, [&](auto f) { p.push_back(a.get_node(f) * 2 + a.is_complemented(f)); }); auto t = a.node_function(n); for (u64 i = 0; i < t.num_bits(); ++i) p.push_back(kitty::get_bit(t, i)); });
  p.push_back(~0ull); a.foreach_po([&](auto f) { p.push_back(a.get_node(f) * 2 + a.is_complemented(f)); });
  return p;
}
template <class N> static void annotate(Runner &r, N const &a, std::string const &ops) {
  auto p0 = picture(a); u32 n = a.size(); std::vector<u32> val(n), vis(n); for (u32 i = 0; i < n; ++i) { val[i] = a.value(i); vis[i] = a.visited(i); } u32 trav = a.trav_id();
  for (u32 i = 0; i < n; ++i) require(val[i] == 0, "the custom value of a node is not 0 at first");
  for (auto &o : split(ops, ';')) {
    u32 x = o.size() > 1 ? atoi(o.c_str() + 1) : 0, v = o.find('=') == std::string::npos ? 0 : strtoul(o.c_str() + o.find('=') + 1, 0, 10); if (x >= n) x = n - 1;
    switch (o[0]) {
    case 'c': a.clear_values(); for (auto &y : val) y = 0; break;
    case 's': a.set_value(x, v); val[x] = v; break;
    case 'i': require(a.incr_value(x) == val[x], "incr_value returns another value"); ++val[x]; break;
    case 'd': require(a.decr_value(x) == val[x] - 1, "decr_value returns another value"); --val[x]; break;
    case 'C': a.clear_visited(); for (auto &y : vis) y = 0; break;
    case 'S': a.set_visited(x, v); vis[x] = v; break;
    case 't': a.incr_trav_id(); ++trav; break;
    }
    r.count(0, 1);
    for (u32 i = 0; i < n; ++i) { require(a.value(i) == val[i], o + ": value of node " + S(i) + " is " + S(a.value(i)) + " instead of " + S(val[i])); require(a.visited(i) == vis[i], o + ": mark of node " + S(i)); }
    require(a.trav_id() == trav, o + ": traversal id"); require(picture(a) == p0, o + ": the network changed");
  }
  r.nontrivial(hashS(ops, n));
}
static void one29(Runner &r, std::string const &s) {
  auto f = split(s, '|'); if (f[0] == "A") annotate(r, build(Spec::parse(f[1])), f[2]);
  else if (f[0][0] == 'X') { Aig a = build(Spec::parse(f[1])); u64 v = atoi(f[0].c_str() + 1); std::vector<u64> gs; a.foreach_gate([&](auto n) { gs.push_back(n); }); a.substitute_node(gs[v % gs.size()], v & 8 ? a.make_signal(1) : a.get_constant(true)); bool dead = false; for (u32 i = 0; i < a.size(); ++i) dead |= a.is_dead(i); require(dead, "substitution leaves no removed gate"); annotate(r, a, f[2]); } // marks of removed gates too
  else annotate(r, LSpec::parse(f[1]).build(), f[2]);
}
// ------------------------------------------------------------------ C27
static void one27(Runner &r, std::string const &s) {
  auto f = split(s, '|'); auto q = split(f[0], '_'); Spec sp = Spec::parse(f[1]); Aig a = build(sp); auto want = sp.tt(); auto p0 = area_aig(a); u32 d0 = depth_aig(a);
  iFPGA::balancing_params p; p.cut_enumeration_ps.cut_size = atoi(q[0].c_str()); p.cut_enumeration_ps.cut_limit = atoi(q[1].c_str()); p.only_on_critical_path = q[2] == "1";
  iFPGA::sop_rebalancing<Aig> fn; iFPGA::rebalancing_function_t<Aig> F{fn};
  for (int t = 0; t < 2; ++t) { // twice with the same function object (its cache of covers is warm the second time)
    Aig b = iFPGA::balancing<Aig>(a, F, p); wellformed(b, sp.npi, want.size(), "SOP balancing"); same_functions(want, sim_aig(b, sp.npi), "SOP balancing"); require(area_aig(a) == p0 && depth_aig(a) == d0, "balancing changed its argument");
    u32 d1 = depth_aig(b); require(d1 <= d0, "SOP balancing increased the depth from " + S(d0) + " to " + S(d1)); r.count(0, 1); if (d1 != d0 || area_aig(b) != p0) r.nontrivial(hashS(f[1], d1 * 1000 + area_aig(b)));
  }
}
// ------------------------------------------------------------------ C30
static TT substTT(TT const &f, std::vector<TT> const &in, int n) { TT r(n); for (u64 m = 0; m < (u64(1) << n); ++m) { u64 k = 0; for (size_t j = 0; j < in.size(); ++j) if (in[j].bit(m)) k |= u64(1) << j; if (f.bit(k)) r.setbit(m); } return r; }
static u32 live_luts(Klut const &k) { std::set<u64> seen; std::vector<u64> st; k.foreach_po([&](auto f) { st.push_back(k.get_node(f)); }); while (!st.empty()) { auto n = st.back(); st.pop_back(); if (k.is_constant(n) || k.is_ci(n) || !seen.insert(n).second) continue; k.foreach_fanin(n, [&](auto g) { st.push_back(k.get_node(g)); }); } return seen.size(); }
static void one30(Runner &r, std::string const &s) {
  auto f = split(s, '|');
  if (f[0] == "L") {
    LSpec l = LSpec::parse(f[1]); Klut k = l.build(); auto want = l.tt(); u32 live = live_luts(k);
    auto same = [&](Klut const &x, char const *w) { u32 j = 0; x.foreach_gate([&](auto n) { require(x.fanin_size(n) > 0, std::string(w) + ": LUT without inputs"); ++j; }); auto i = sim_klut(x, l.npi); same_functions(want, i.po, w); };
    Klut c = iFPGA::cleanup_dangling(k); same(c, "cleanup of a LUT network"); require(live_luts(c) == c.num_gates() && c.num_gates() <= live, "cleanup of a LUT network leaves dangling LUTs");
    Klut d = iFPGA::cleanup_luts(k); same(d, "cleanup_luts"); require(live_luts(d) <= live, "cleanup_luts added LUTs");
    d.foreach_gate([&](auto n) { auto t = d.node_function(n); u32 j = 0; d.foreach_fanin(n, [&](auto g) { require(!d.is_constant(d.get_node(g)), "cleanup_luts leaves a constant fanin"); require(kitty::has_var(t, j), "cleanup_luts leaves a fanin the LUT does not depend on"); ++j; }); });
    same(k, "the argument after cleanup"); r.nontrivial(hashS(f[1], d.num_gates() * 16 + c.num_gates())); r.count(0, 2);
  } else if (f[0] == "P") { // optional removal of ports
    Spec sp = Spec::parse(f[1]); auto want = sp.tt(); Aig a = build(sp); std::vector<char> used(sp.npi, 0); u32 j = 0; a.foreach_pi([&](auto n) { used[j++] = a.fanout_size(n) != 0; });
    for (int rp = 0; rp < 2; ++rp) for (int ro = 0; ro < 2; ++ro) {
      Aig b = iFPGA::cleanup_dangling(a, rp, ro); std::vector<TT> in; u32 n = 0; for (u32 i = 0; i < (u32)sp.npi; ++i) if (!rp || used[i]) ++n; u32 k = 0; for (u32 i = 0; i < (u32)sp.npi; ++i) in.push_back(!rp || used[i] ? TT::var(n, k++) : TT(n));
      require(b.num_pis() == n, "cleanup keeps the wrong inputs: " + S(b.num_pis()) + " instead of " + S(n));
      std::vector<TT> w; a.foreach_po([&](auto const &g, auto i) { if (ro && (a.is_constant(a.get_node(g)) || a.is_ci(a.get_node(g)))) return; w.push_back(substTT(want[i], in, n)); });
      require(b.num_pos() == w.size(), "cleanup keeps the wrong outputs: " + S(b.num_pos()) + " instead of " + S(w.size())); wellformed(b, n, w.size(), "cleanup"); same_functions(w, sim_aig(b, n), "cleanup with removal of ports"); r.count(0, 1);
    }
    r.nontrivial(hashS(f[1]));
  } else { // onto given leaves in an existing network
    Spec sp = Spec::parse(f[1]); auto want = sp.tt(); Aig a = build(sp); u64 code = strtoull(f[0].c_str() + 1, 0, 10); Aig d; std::vector<Sig> pool{d.get_constant(false)}; for (int i = 0; i < 3; ++i) pool.push_back(d.create_pi()); std::vector<TT> v{TT(3), TT::var(3, 0), TT::var(3, 1), TT::var(3, 2)};
    pool.push_back(d.create_and(pool[1], pool[2])); v.push_back(v[1] & v[2]); pool.push_back(d.create_xor(pool[1], !pool[3])); v.push_back(~(v[1] ^ v[3]));
    std::vector<Sig> lv; std::vector<TT> in; for (int i = 0; i < sp.npi; ++i) { u32 x = code % 12; code /= 12; lv.push_back(x & 1 ? !pool[x >> 1] : pool[x >> 1]); in.push_back(x & 1 ? ~v[x >> 1] : v[x >> 1]); }
    auto before = [&] { for (size_t i = 0; i < pool.size(); ++i) d.create_po(pool[i]); }; auto out = iFPGA::cleanup_dangling(a, d, lv.begin(), lv.end()); require(out.size() == want.size(), "wrong number of signals");
    before(); for (auto o : out) d.create_po(o); std::vector<TT> w = v; for (auto &t : want) w.push_back(substTT(t, in, 3)); wellformed(d, 3, w.size(), "network with the inserted copy"); same_functions(w, sim_aig(d, 3), "copy onto given leaves"); r.nontrivial(hashS(s)); r.count(0, 1);
  }
}
// ------------------------------------------------------------------ C32
// iteration: every signature visits the expected elements in order with their indices, and a callback that returns false ends the visit
template <class It, class E> static void visit(It &&each, std::vector<E> const &want, std::string const &w) {
  auto lst = [&](auto const &v, size_t n, std::string const &k) { require(v.size() == n && std::equal(v.begin(), v.end(), want.begin()), w + " (" + k + "): visits " + S(v.size()) + " elements, or other ones, instead of " + S(n)); };
  std::vector<E> a; each([&](auto const &x) { a.push_back(x); }); lst(a, want.size(), "element"); a.clear(); u32 ix = 0; each([&](auto const &x, auto i) { a.push_back(x); require((u64)i == ix, w + ": index " + S(i) + " instead of " + S(ix)); ++ix; }); lst(a, want.size(), "element and index");
  for (size_t k = 0; k <= want.size(); ++k) { size_t n = std::min(k + 1, want.size()); a.clear(); each([&](auto const &x) -> bool { a.push_back(x); return a.size() != k + 1; }); lst(a, n, "stopped"); a.clear(); ix = 0; each([&](auto const &x, auto i) -> bool { a.push_back(x); require((u64)i == ix, w + ": index " + S(i) + " instead of " + S(ix)); ++ix; return a.size() != k + 1; }); lst(a, n, "index, stopped"); }
}
template <class N, class Sg> static void visits(N const &a, std::vector<u64> const &nodes, std::vector<u64> const &pis, std::vector<u64> const &gates, std::vector<Sg> const &pos, std::map<u64, std::vector<Sg>> const &fi) {
  visit([&](auto &&f) { a.foreach_node(f); }, nodes, "foreach_node"); visit([&](auto &&f) { a.foreach_pi(f); }, pis, "foreach_pi"); visit([&](auto &&f) { a.foreach_ci(f); }, pis, "foreach_ci"); visit([&](auto &&f) { a.foreach_gate(f); }, gates, "foreach_gate"); visit([&](auto &&f) { a.foreach_po(f); }, pos, "foreach_po"); visit([&](auto &&f) { a.foreach_co(f); }, pos, "foreach_co");
  for (auto n : nodes) { auto it = fi.find(n); visit([&](auto &&f) { a.foreach_fanin(n, f); }, it == fi.end() ? std::vector<Sg>{} : it->second, "foreach_fanin"); }
  for (u32 i = 0; i < pis.size(); ++i) require(a.pi_at(i) == pis[i] && a.ci_at(i) == pis[i], "input " + S(i)); for (u32 i = 0; i < pos.size(); ++i) require(a.po_at(i) == pos[i] && a.co_at(i) == pos[i], "output " + S(i)); require(a.num_pis() == pis.size() && a.num_pos() == pos.size() && a.num_gates() == gates.size(), "numbers of inputs, outputs, gates");
}
static void one32(Runner &r, std::string const &s) {
  auto f = split(s, '|'); u32 steps = 0;
  if (f[0][0] == 'I') { Aig a = build(Spec::parse(f[1])); std::vector<u64> pis, gates, nodes; std::vector<Sig> pos; std::map<u64, std::vector<Sig>> fi; std::set<u64> dead;
    if (f[0].size() > 1) { std::vector<u64> g; for (u64 n = a.num_pis() + 1; n < a.size(); ++n) g.push_back(n); u64 v = g[atoi(f[0].c_str() + 1) % g.size()]; a.substitute_node(v, a.make_signal(1)); for (u64 n = 0; n < a.size(); ++n) if (a.is_dead(n)) dead.insert(n); }
    for (u64 n = 0; n < a.size(); ++n) { if (dead.count(n)) continue; nodes.push_back(n); if (n == 0) continue; if (n <= a._storage->data.num_pis) pis.push_back(n); else { gates.push_back(n); auto &c = a._storage->nodes[n].children; fi[n] = {Sig(c[0].index, c[0].weight), Sig(c[1].index, c[1].weight)}; } } for (auto &o : a._storage->outputs) pos.push_back(Sig(o.index, o.weight)); if (f[0].size() == 1) { Spec sp = Spec::parse(f[1]); require(pos.size() == sp.po.size(), "outputs"); }
    visits(a, nodes, pis, gates, pos, fi); r.nontrivial(hashS(s)); steps = 1;
  } else if (f[0] == "K") { LSpec l = LSpec::parse(f[1]); Klut k = l.build(); std::vector<u64> pis, gates, nodes; std::vector<u64> pos; std::map<u64, std::vector<u64>> fi; std::set<u64> in; u32 j = 0; for (u64 n = 2; j < (u32)l.npi; ++n, ++j) in.insert(n);
    for (u64 n = 0; n < k.size(); ++n) { nodes.push_back(n); if (n < 2) continue; if (in.count(n)) pis.push_back(n); else { gates.push_back(n); for (auto &c : k._storage->nodes[n].children) fi[n].push_back(c.index); } } for (auto &o : k._storage->outputs) pos.push_back(o.index); visits(k, nodes, pis, gates, pos, fi); r.nontrivial(hashS(s)); steps = 1;
  } else if (f[0] == "T") { // truth table cache
    iFPGA::truth_table_cache<kitty::dynamic_truth_table> c(2); std::map<std::pair<u32, u64>, u32> lit; std::vector<std::pair<u32, u64>> uniq; for (auto &o : split(f[1], ',')) { u32 k = o[0] - '0'; u64 b = strtoull(o.c_str() + 1, 0, 16); kitty::dynamic_truth_table t(k); for (u32 i = 0; i < t.num_bits(); ++i) if (b >> i & 1) kitty::set_bit(t, i);
      u32 x = c.insert(t); u64 m = t.num_bits() == 64 ? ~0ull : (1ull << t.num_bits()) - 1, nb = b & 1 ? ~b & m : b; bool isnew = std::find(uniq.begin(), uniq.end(), std::make_pair(k, nb)) == uniq.end(); if (isnew) uniq.push_back({k, nb}); require(c.size() == uniq.size(), "the cache stores " + S(c.size()) + " functions instead of " + S(uniq.size())); auto key = std::make_pair(k, b); if (lit.count(key)) require(lit[key] == x, "the same function gets another literal"); lit[key] = x; auto nk = std::make_pair(k, ~b & m); if (lit.count(nk)) require(lit[nk] == (x ^ 1), "the complement of a function gets another literal");
      for (auto &[q, y] : lit) { auto u = c[y], w = c[y ^ 1]; require(u.num_vars() == q.first, "the cache returns a function of other variables"); for (u32 i = 0; i < u.num_bits(); ++i) { require(kitty::get_bit(u, i) == (q.second >> i & 1), "the cache returns another function"); require(kitty::get_bit(w, i) != kitty::get_bit(u, i), "the odd literal is not the complement"); } } ++steps; }
    r.nontrivial(hashS(s));
  } else if (f[0] == "M") { // mappings
    Aig a = build(Spec::parse(f[1])); auto p0 = picture(a); iFPGA::mapping_view<Aig, true> m(a); iFPGA::mapping_view<Aig, false> m2(a); std::map<u64, std::vector<u64>> map; std::map<u64, kitty::dynamic_truth_table> fun;
    for (auto &o : split(f[2], ';')) { u64 n = o.size() > 1 ? o[1] - '0' : 0; if (n >= a.size()) n = a.size() - 1; u32 v = o.size() > 2 ? o[2] - '0' : 0;
      switch (o[0]) {
      case 'a': { std::vector<u64> l; for (u64 i = 0; i < a.size() && l.size() < v; ++i) if (i != n && (i + v) % 2 == 0) l.push_back(i); if (v & 1) std::reverse(l.begin(), l.end()); m.add_to_mapping(n, l.begin(), l.end()); m2.add_to_mapping(n, l.begin(), l.end()); map[n] = l; break; }
      case 'r': m.remove_from_mapping(n); m2.remove_from_mapping(n); map.erase(n); fun.erase(n); break;
      case 'c': m.clear_mapping(); m2.clear_mapping(); map.clear(); fun.clear(); break;
      case 'f': { kitty::dynamic_truth_table t(v); for (u32 i = 0; i < t.num_bits(); ++i) if ((n * 37 + v * 11 + i * i) % 3 == 0) kitty::set_bit(t, i); m.set_cell_function(n, t); fun[n] = t; fun.at(n) = t; break; } }
      ++steps; auto chk = [&](auto const &x) { require(x.num_cells() == map.size(), o + ": num_cells is " + S(x.num_cells()) + " instead of " + S(map.size())); require(x.has_mapping() == !map.empty(), o + ": has_mapping"); for (u64 i = 0; i < a.size(); ++i) { bool c = map.count(i); require(x.is_cell_root(i) == c, o + ": is_cell_root of node " + S(i)); if (c) visit([&](auto &&g) { x.foreach_cell_fanin(i, g); }, map[i], o + ": foreach_cell_fanin"); } };
      chk(m); chk(m2); for (auto &[i, t] : fun) require(m.cell_function(i) == t, o + ": function of cell " + S(i)); require(picture(a) == p0, o + ": the network changed"); }
    r.nontrivial(hashS(f[2], a.size()));
  } else { // node maps; the network grows
    Aig a = build(Spec::parse(f[1])); iFPGA::node_map<u32, Aig> d(a, 7); iFPGA::unordered_node_map<u32, Aig> u(a); std::vector<u32> md(a.size(), 7); std::map<u64, u32> mu; std::optional<iFPGA::unordered_node_map<u32, Aig>> cp; std::map<u64, u32> mc; u32 val = 100;
    for (auto &o : split(f[2], ';')) { u64 n = o.size() > 1 ? o[1] - '0' : 0; if (n >= md.size()) n = md.size() - 1; ++val;
      switch (o[0]) {
      case 'n': d[n] = val; md[n] = val; u[n] = val; mu[n] = val; break;
      case 's': d[!a.make_signal(n)] = val; md[n] = val; u[!a.make_signal(n)] = val; mu[n] = val; break;
      case 'g': { auto k = a.size(); a.create_and(a.make_signal(a.size() - 1), !a.make_signal(1 + k % 2)); break; }
      case 'z': d.resize(val); while (md.size() < a.size()) md.push_back(val); break;
      case 'x': d.reset(val); md.assign(a.size(), val); u.reset(); mu.clear(); break;
      case 'e': u.erase(n); mu.erase(n); break;
      case 'p': cp.emplace(u.copy()); mc = mu; break;
      case 'w': if (cp) { (*cp)[n] = val; mc[n] = val; } break; }
      ++steps; auto const &cd = d; auto const &cu = u; for (u64 i = 0; i < md.size(); ++i) { require(cd[i] == md[i] && cd[a.make_signal(i)] == md[i] && cd[!a.make_signal(i)] == md[i], o + ": entry of node " + S(i)); }
      auto chk = [&](auto const &x, auto const &mm, char const *w) { for (u64 i = 0; i < a.size(); ++i) { auto it = mm.find(i); bool h = it != mm.end(); require(x.has(i) == h && x.has(!a.make_signal(i)) == h, o + ": " + w + ": has(" + S(i) + ")"); if (h) require(x[i] == it->second && x[!a.make_signal(i)] == it->second, o + ": " + w + ": entry of node " + S(i)); } }; chk(cu, mu, "sparse map"); if (cp) chk(*(decltype(cp) const &)cp, mc, "copy of the sparse map"); }
    r.nontrivial(hashS(s));
  }
  r.count(0, steps);
}
// ------------------------------------------------------------------ C31
struct Quiet { int o; Quiet() { fflush(stdout); std::cout.flush(); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { std::cout.flush(); fflush(stdout); dup2(o, 1); close(o); } };
static void one31(Runner &r, std::string const &s) {
  auto f = split(s, '|'); auto q = split(f[0], '_'); Spec sp = Spec::parse(f.back()); auto want = sp.tt(); u32 npi = sp.npi; Aig a = build(sp); std::optional<iFPGA::aig_with_choice> w;
  if (f.size() > 2) { iFPGA::choice_miter cm; cm.add_aig(std::make_shared<Aig>(build(sp))); Aig x = a; for (auto &t : split(f[1], ';')) { x = apply(parse_op(t), x); cm.add_aig(std::make_shared<Aig>(iFPGA::cleanup_dangling(x))); } iFPGA::choice_params cp; iFPGA::choice_computation cc(cp, cm.merge_aigs_to_miter()); w.emplace(cc.compute_choice()); }
  else w.emplace(a);
  Mapped m(*w); iFPGA::klut_mapping_params p; p.cut_enumeration_ps.cut_size = atoi(q[0].c_str()); p.cut_enumeration_ps.cut_limit = atoi(q[1].c_str()); p.verbose = false; iFPGA::klut_mapping<Mapped, true>(m, p);
  // functions of all nodes, and of the roots when every LUT is evaluated
  std::vector<TT> val(m.size(), TT(npi)); u32 j = 0; m.foreach_pi([&](auto n) { val[n] = TT::var(npi, j++); }); m.foreach_gate([&](auto n) { auto c = m.get_child0(n), d = m.get_child1(n); val[n] = (c.complement ? ~val[c.index] : val[c.index]) & (d.complement ? ~val[d.index] : val[d.index]); });
  // the choice network's roots in dependency order
  auto global = [&] { std::vector<TT> v(m.size(), TT(npi)); std::vector<char> st(m.size(), 0); u32 k = 0; st[0] = 1; m.foreach_pi([&](auto n) { v[n] = TT::var(npi, k++); st[n] = 1; });
    std::function<void(u64)> ev = [&](u64 n) { if (st[n]) return; require(m.is_cell_root(n), "a leaf of a LUT is not mapped"); st[n] = 1; std::vector<TT> in; std::vector<u64> lv; m.foreach_cell_fanin(n, [&](auto l) { lv.push_back(l); }); for (auto l : lv) { ev(l); in.push_back(v[l]); } v[n] = lut_apply(m.cell_function(n), in, npi); };
    std::vector<TT> o; m.foreach_po([&](auto g) { ev(m.get_node(g)); o.push_back(m.is_complemented(g) ? ~v[m.get_node(g)] : v[m.get_node(g)]); }); return o; };
  auto run = [&] { Quiet x; return iFPGA::debug_mapped_aig_by_origin(m); }; auto run2 = [&] { Quiet x; Aig b = iFPGA::convert_mapped_graph_to_aig(m); return iFPGA::debug_by_miter<Aig, Aig>(a, b); };
  require(global() == want, "mapping"); require(run(), "the check rejects a correct mapping"); if (f.size() == 2) require(run2(), "the miter check rejects a correct mapping");
  u64 n0 = 0, n1 = 0; std::vector<u64> roots; m.foreach_gate([&](auto n) { if (m.is_cell_root(n)) roots.push_back(n); });
  for (auto n : roots) { auto t = m.cell_function(n); if (t.num_bits() > 16) continue; std::vector<TT> in; m.foreach_cell_fanin(n, [&](auto l) { in.push_back(val[l]); });
    for (u64 b = 0; b <= t.num_bits(); ++b) { auto u = t; if (b < t.num_bits()) kitty::flip_bit(u, b); else u = ~u; m.set_cell_function(n, u); bool eq = global() == want; bool acc = run(); ++n0;
      require(!acc || lut_apply(u, in, npi) == val[n], "LUT " + S(n) + " does not compute its node but is accepted"); require(!acc || eq, "the check accepts a mapping that computes another function"); if (!acc) ++n1;
      if (f.size() == 2 && npi > 0) { bool x = run2(); require(x == eq, x ? "the miter check accepts a mapping that computes another function" : "the miter check rejects an equivalent mapping"); }
      m.set_cell_function(n, t); } }
  r.count(0, n0); r.count(1, n1); if (n1) r.nontrivial(hashS(s));
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 40; std::string P = "C19"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1];
  r.one = [&](std::string const &s) { P == "C19" ? one19(r, s) : P == "C21" ? one21(r, s) : P == "C22" ? one22(r, s) : P == "C23" ? one23(r, s) : P == "C24" ? one24(r, s) : P == "C28" ? one28(r, s) : P == "C27" ? one27(r, s) : P == "C30" ? one30(r, s) : P == "C31" ? one31(r, s) : P == "C32" ? one32(r, s) : one29(r, s); };
  std::string pfx; auto E = [&](Spec const &s) { r.addl([&] { return pfx + "|" + s.str(); }); }; auto EL = [&](LSpec const &s) { r.addl([&] { return pfx + "|" + s.str(); }); };
  auto small = [&](int lo, int hi, int modes = 2) { r.family("all AIGs with <=3 inputs, " + S(lo) + "-" + S(hi) + " gates"); for (int n = 1; n <= 3; ++n) for (int g = lo; g <= hi; ++g) for (int m = 2; m < 2 + modes; ++m) gen_all(n, g, g > 3, [&](Spec const &s) { with_pos(s, m, E); }); };
  auto pairs = [&](int lo, int hi) { r.family("all pairs of 3-input functions"); static const int k[4][3] = {{0, 0, 1}, {1, 0, 0}, {1, 1, 2}, {3, 0, 3}}; for (int i = lo; i < hi; i++) gen_pairs(k[i][0], k[i][1], k[i][2], E); };
  auto blocks = [&](int m) { r.family("arithmetic/control blocks"); gen_blocks(m, E); };
  r.enumerate = [&](Runner &) {
    bool th = r.thorough();
    if (P == "C19") {
      for (int k = 2; k <= 6; ++k) for (int l : {3, 5, 8, 13, 25}) { pfx = S(k) + "_" + S(l); if (th || (k + l) % 3 == 0) { small(0, th ? 4 : 3, 1); r.family("degenerate"); gen_degenerate(2, 1, E); } blocks(12); r.family("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E, th ? 1 : 7, k + l); r.family("long recurrence AIGs"); gen_recur(6, 60, 7, 3, 4, E, th ? 301 : 3001, l); r.family("trees"); if (th || l == 25) { gen_trees(6, 6, 2, false, E); gen_trees(7, 4, 2, true, E); } }
      for (int k : {4, 6}) for (int l : {8, 25}) { pfx = S(k) + "_" + S(l); if (th) { pairs(0, 4); r.family("large circuits"); for (auto &n : big_names(false)) r.addl([&] { return pfx + "|@" + n; }); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, 3, E); } else { r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, 97, E); r.family("large circuits"); for (auto &n : {"mul5", "cmp8", "lfsr1"}) r.addl([&] { return pfx + "|@" + n; }); } }
    } else if (P == "C21") {
      std::vector<Spec> L; for (int n = 1; n <= 2; ++n) for (int g = 0; g <= 2; ++g) for (int m : {0, 1, 3}) gen_all(n, g, false, [&](Spec const &s) { with_pos(s, m, [&](Spec const &t) { if (t.po.size()) L.push_back(t); }); });
      r.family("all pairs of AIGs with <=2 inputs, <=2 gates"); for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) if (th || (i * 31 + j) % 7 == 0 || i == j) r.addl([&] { return "M|" + L[i].str() + "|" + L[j].str(); });
      r.family("all pairs of 3-input functions, different structures"); for (u64 f = 0; f < 256; ++f) for (u64 g = 0; g < 256; ++g) if (f == g || th || __builtin_popcountll(f ^ g) == 1 || (f * 7 + g) % 11 == 0) r.addl([&] { SpecBuilder a(3), b(3); a.s.po = {a.style(f % 4, {a.pi(0), a.pi(1), a.pi(2)}, f)}; b.s.po = {b.style((f + 1 + g / 64) % 4, {b.pi(0), b.pi(1), b.pi(2)}, g)}; return "M|" + a.s.str() + "|" + b.s.str(); });
      r.family("4-input functions against themselves and against functions differing in one place"); for (u64 f = 0; f < 65536; f += th ? 3 : 37) for (int b = -1; b < 16; b += th ? 1 : 4) r.addl([&] { SpecBuilder x(4), y(4); u64 g = b < 0 ? f : f ^ (1ull << b); auto in = [](SpecBuilder &q) { return std::vector<u32>{q.pi(0), q.pi(1), q.pi(2), q.pi(3)}; }; x.s.po = {0, x.style(0, in(x), f)}; y.s.po = {0, y.style(1 + f % 3, in(y), g)}; return "M|" + x.s.str() + "|" + y.s.str(); });
      r.family("AIG against LUT network"); for (u64 f = 0; f < 256; ++f) for (u64 g = f & 3; g < 256; g += th ? 1 : 5) r.addl([&] { SpecBuilder a(3); a.s.po = {a.style(g % 4, {a.pi(0), a.pi(1), a.pi(2)}, f)}; LSpec l; l.npi = 3; l.g.push_back({{2, 3, 4}, g & 1 ? f : g}); l.po = {5}; return "K|" + a.s.str() + "|" + l.str(); });
      r.family("different numbers of ports"); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int p = 1; p < 3; ++p) for (int q = 1; q < 3; ++q) r.addl([&] { Spec x, y; x.npi = a; y.npi = b; x.po.assign(p, 1); y.po.assign(q, 1); return "M|" + x.str() + "|" + y.str(); });
      pfx = "N"; small(0, th ? 5 : 4); r.family("degenerate"); gen_degenerate(2, 2, E); pfx = "L"; r.family("LUT networks"); all_luts(1, 1, EL); all_luts(2, 1, EL); all_luts(3, 1, EL); all_luts(4, th ? 1 : 7, EL); two_luts(2, 2, 2, 1, th ? 1 : 3, true, EL);
      pfx = "V"; small(0, 2, 1); if (th) small(3, 3, 1); r.family("functions"); for (u64 f = 0; f < 256; f += th ? 1 : 7) { SpecBuilder a(3); a.s.po = {a.style(f % 4, {a.pi(0), a.pi(1), a.pi(2)}, f)}; E(a.s); }
    } else if (P == "C22") {
      r.family("bit packing"); for (u32 st : {0, 1, 2, 62, 63, 64, 127}) for (u32 n = 1; n <= 3; ++n) { u32 mx = n == 1 ? 6 : n == 2 ? (th ? 5 : 4) : (th ? 4 : 3); for (u32 L = 1; L <= mx; ++L) for (u32 sp = 0; sp < L; ++sp) if (th || sp < 2) r.addl([&] { return "B|" + S(n) + "_" + S(L) + "_" + S(st) + "_" + S(sp) + "_0"; }); for (u32 stride = 1; stride < (n == 1 ? 3u : n == 2 ? 9u : 27u); ++stride) for (u32 L : {5, 66, 140}) for (u32 sp : {0, 3, 64}) if (sp < L) r.addl([&] { return "B|" + S(n) + "_" + S(L) + "_" + S(st) + "_" + S(sp) + "_" + S(stride); }); }

      pfx = "S"; small(0, th ? 4 : 3); r.family("degenerate"); gen_degenerate(3, 2, E); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 5 : 61, E); blocks(th ? 10 : 8); pairs(0, th ? 3 : 0); r.family("trees"); gen_trees(5, 4, 3, true, E);
      pfx = "K"; r.family("LUT networks"); for (int k = 1; k <= 3; ++k) all_luts(k, 1, EL); all_luts(4, th ? 1 : 5, EL); two_luts(2, 2, 2, 1, 1, true, EL); two_luts(4, 3, 3, th ? 1 : 3, th ? 1 : 3, false, EL);
    } else if (P == "C23") {
      r.family("all functions of 0-4 variables"); for (int k = 0; k <= 4; ++k) { u64 n = u64(1) << (1 << k), st = std::min<u64>(n, 64); for (u64 f = 0; f < n; f += st) for (int m = 0; m < (k == 0 ? 1 : 3); ++m) if (m < 1 || th || k < 4 || (f / 64) % 4 == m) r.addl([&] { char b[64]; snprintf(b, 64, "%d:%llx:%llu:%d", k, (unsigned long long)f, (unsigned long long)st, m); return std::string(b); }); }
    } else if (P == "C24") {
      r.family("all functions of 1-4 variables"); for (int k = 1; k <= 4; ++k) { u64 n = u64(1) << (1 << k), st = std::min<u64>(n, 64); for (u64 f = 0; f < n; f += st) r.addl([&] { char b[64]; snprintf(b, 64, "%d:%llx:%llu", k, (unsigned long long)f, (unsigned long long)st); return std::string(b); }); }
      auto E9 = [&](Spec const &s) { if (s.npi < 5) return; for (size_t i = 0; i < s.po.size() && i < 4; ++i) r.addl([&] { Spec t = s; t.po = {s.po[i]}; return "9|" + t.str(); }); };
      r.family("compositions of two 3-input functions over 5 inputs"); for (u64 q = 0; q < (th ? 4 : 1); ++q) gen_pairs(q & 1 ? 3 : 2, q, (q + 1) & 3, E9);
      r.family("trees of 6-9 leaves"); gen_trees(6, 6, 3, true, E9); gen_trees(7, 6, th ? 3 : 2, true, E9); gen_trees(8, 8, 2, true, E9); if (th) gen_trees(9, 9, 2, true, E9); r.family("arithmetic/control blocks"); gen_blocks(9, E9); r.family("recurrences"); gen_recur(6, 20, 6, 2, 3, E9); gen_recur(8, 24, 7, 3, 3, E9, th ? 41 : 1009, 3);
    } else if (P == "C28") {
      pfx = "L"; r.family("all single LUTs of 1-4 inputs"); for (int k = 1; k <= 4; ++k) all_luts(k, 1, EL); r.family("all pairs of 2-input LUTs, all fanins"); two_luts(2, 2, 2, 1, 1, true, EL); r.family("LUT of 1 input, LUT of 3 inputs, all fanins"); two_luts(2, 1, 3, 1, th ? 1 : 5, true, EL); r.family("all pairs of 3-input LUTs"); two_luts(5, 3, 3, 1, 1, false, EL); two_luts(3, 3, 3, th ? 1 : 3, 1, false, EL);
      r.family("LUTs of 5-6 inputs"); for (u64 f = 1; f < 65536; f += th ? 3 : 31) { LSpec s; s.npi = 6; u64 g = f * 0x9E3779B97F4A7C15ull; s.g.push_back({{2, 3, 4, 5, 6}, g & 0xFFFFFFFFull}); s.g.push_back({{7, 8, 3, 2, 5, 4}, g ^ (g >> 29)}); s.po = {9, 8}; EL(s); }
      pfx = "G"; r.family("all operands of all creation functions"); for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) for (int z = 0; z < 6; ++z) r.addl([&] { return "G|" + S(x) + "," + S(y) + "," + S(z); });
      for (std::string o : {"C4_8", "C6_10", "C2_6"}) { pfx = o; small(0, 3); r.family("degenerate"); gen_degenerate(3, 2, E); blocks(12); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 7 : 211, E); }
    } else if (P == "C27") {
      for (std::string o : {"2_8_0", "3_12_0", "4_12_0", "6_25_0", "4_8_1"}) { pfx = o; small(0, 3); if (th) small(4, 4, 1); r.family("degenerate"); gen_degenerate(2, 2, E); blocks(12); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 7 : 211, E); r.family("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E, th ? 1 : 7, 1); r.family("long recurrence AIGs"); gen_recur(6, 40, 7, 3, 3, E, th ? 301 : 3001, 3); r.family("trees"); gen_trees(6, 6, 2, false, E); gen_trees(7, 4, 2, true, E); if (o[0] != '2' && (th || o[0] == '4')) pairs(0, th ? 4 : 1); }
      r.family("large circuits"); for (std::string o : {"4_12_0", "6_12_0"}) { pfx = o; if (th) for (auto &n : big_names(false)) r.addl([&] { return pfx + "|@" + n; }); else for (auto &n : {"mul5", "cmp8", "lfsr1"}) r.addl([&] { return pfx + "|@" + n; }); }
    } else if (P == "C30") {
      pfx = "L"; r.family("all single LUTs of 1-4 inputs"); for (int k = 1; k <= 4; ++k) all_luts(k, 1, EL); r.family("all pairs of 2-input LUTs, all fanins"); two_luts(2, 2, 2, 1, 1, true, EL); r.family("LUT of 1 input, LUT of 3 inputs, all fanins"); two_luts(2, 1, 3, 1, th ? 1 : 3, true, EL); r.family("all pairs of 3-input LUTs"); two_luts(5, 3, 3, 1, 1, false, EL); two_luts(3, 3, 3, th ? 1 : 3, 1, false, EL);
      pfx = "P"; small(0, th ? 4 : 3); r.family("degenerate"); gen_degenerate(3, 2, E); blocks(10); r.family("trees"); gen_trees(6, 6, 2, true, E);
      r.family("AIGs with 2 inputs copied onto all pairs of leaves"); for (int g = 0; g <= (th ? 4 : 3); ++g) for (u64 c = 0; c < 144; ++c) { pfx = "D" + S(c); gen_all(2, g, g > 2, [&](Spec const &s) { with_pos(s, 2, E); }); }
      r.family("AIGs with 3 inputs copied onto all triples of leaves"); for (u64 c = 0; c < 1728; ++c) { pfx = "D" + S(c); gen_all(3, 2, true, [&](Spec const &s) { with_pos(s, 3, E); }); if (th) { u64 t = 0; gen_all(3, 3, true, [&](Spec const &s) { if (t++ % 13 == c % 13) with_pos(s, 3, E); }); } }
    } else if (P == "C32") {
      pfx = "I"; small(0, th ? 4 : 3); r.family("degenerate"); gen_degenerate(3, 2, E); r.family("all single LUTs, pairs of LUTs"); pfx = "K"; for (int k = 1; k <= 3; ++k) all_luts(k, 1, EL); two_luts(2, 2, 2, 1, 1, true, EL);
      r.family("AIGs with a removed gate"); for (int v = 0; v < 4; ++v) { pfx = "I" + S(v); for (int n = 2; n <= 3; ++n) for (int g = 1; g <= (th ? 4 : 3); ++g) gen_all(n, g, g > 2, [&](Spec const &s) { if (v < g) with_pos(s, 2, E); }); }
      auto seqs = [&](std::string const &k, std::vector<std::string> const &nets, std::vector<std::string> const &al, int D) { u64 tot = 1; for (int i = 0; i < D; ++i) tot *= al.size(); for (auto &n : nets) for (u64 c = 0; c < tot; ++c) r.addl([&] { std::string q; u64 x = c; for (int i = 0; i < D; ++i) { q += (i ? (k == "T" ? "," : ";") : "") + al[x % al.size()]; x /= al.size(); } return k + (n.empty() ? "" : "|" + n) + "|" + q; }); };
      std::vector<std::string> nets; { SpecBuilder b(2); b.s.po = {b.Xor(b.pi(0), b.pi(1)) ^ 1, 0}; nets.push_back(b.s.str()); } { SpecBuilder b(3); b.s.po = {b.Maj(b.pi(0), b.pi(1), b.pi(2))}; nets.push_back(b.s.str()); }
      int D = th ? 6 : 4; r.family("all sequences of " + S(D) + " truth table insertions"); seqs("T", {""}, {"00", "01", "10", "12", "11", "13", "26", "29", "2f", "2a", "3e8", "317", "300"}, D);
      r.family("all sequences of " + S(D) + " mapping calls"); seqs("M", nets, {"a33", "a32", "a42", "a50", "a54", "a91", "r3", "r4", "c", "f32", "f43", "f52", "f30"}, D); r.family("all sequences of " + S(D + 1) + " node map calls"); seqs("N", nets, {"n0", "n3", "s3", "s5", "n9", "g", "z", "x", "e3", "p", "w3"}, th ? 6 : 5);
    } else if (P == "C31") {
      for (std::string o : {"2_8", "3_8", "4_8", "6_12"}) { pfx = o; small(0, th ? 3 : 2);  r.family("degenerate"); gen_degenerate(2, 1, E); blocks(8); r.family("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E, th ? 3 : 101, 1); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 61 : 2003, E); r.family("trees"); gen_trees(5, 4, 2, true, E); }
      for (std::string o : {"3_8", "4_10"}) for (std::string t : {"B", "F10_16_0_1;W10_4_1_1", "W10_4_0_1;B"}) { pfx = o + "|" + t; small(2, th ? 3 : 2, 1); r.family("choice networks: recurrences"); gen_recur(4, 16, 5, 2, 2, E, th ? 7 : 101, 2); r.family("choice networks: functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 211 : 4001, E); blocks(8); }
    } else {
      std::vector<std::string> al{"c", "s0=5", "s1=3", "s2=1", "s3=7", "s4=4294967295", "i2", "i3", "i4", "d3", "C", "S2=9", "S4=1", "t"}; int D = th ? 4 : 3; u64 tot = 1; for (int i = 0; i < D; ++i) tot *= al.size();
      std::vector<std::string> nets; auto add = [&](Spec const &s) { nets.push_back("A|" + s.str()); nets.push_back("X0|" + s.str()); nets.push_back("X9|" + s.str()); }; { SpecBuilder b(2); b.s.po = {b.Xor(b.pi(0), b.pi(1)) ^ 1, 0}; add(b.s); } { SpecBuilder b(3); b.s.po = {b.Maj(b.pi(0), b.pi(1), b.pi(2))}; add(b.s); }
      for (auto &l : {"2;2.3:6,2.4:2;4,5,", "1;2:2,2:1,3.4:8;5,4,1,", "3;2.3.4:e8,5:2;6,"}) nets.push_back(std::string("L|") + l);
      r.family("all sequences of " + S(D) + " annotation calls"); for (auto &n : nets) for (u64 c = 0; c < tot; ++c) r.addl([&] { std::string q; u64 x = c; for (int i = 0; i < D; ++i) { q += (i ? ";" : "") + al[x % al.size()]; x /= al.size(); } return n + "|" + q; });
    }
  };
  r.rule = P == "C19" ? "every circuit of each family x cut size x cut limit: every cut of every node is checked (separates, within the limits, irredundant, trivial cut last, function equal to the node's function by complete evaluation) and, where no limit is reached, the set is compared with the complete set; non-trivial: a node with more than two cuts"
    : P == "C21" ? "every pair of circuits: miter and verdict compared with complete evaluation, counter examples evaluated; CNF: every valuation of all variables is compared with consistency; validator: every query on every node/signal/constant/two-input circuit in one incremental session, restarting solver included"
    : P == "C22" ? "every circuit x every simulator, all input assignments, compared with an independent evaluation; partial simulation: patterns added one at a time over block boundaries"
    : P == "C23" ? "every 4-input function x every structure the library offers, evaluated completely" : P == "C24" ? "every function of up to 4 inputs and families up to 11 inputs, factored form evaluated completely"
    : P == "C27" ? "every circuit x cut size x cut limit: functions and depth after SOP balancing, twice with the same cover cache" : P == "C32" ? "every sequence of calls on the side tables, compared with a table model after every call; every iteration function in every signature, stopped after every number of elements" : P == "C30" ? "every network: functions, ports and structure after each kind of reconstruction" : P == "C31" ? "every mapping is accepted; every LUT function with each single bit flipped or inverted is judged and compared with complete evaluation"
    : P == "C28" ? "every LUT network of each family: complete evaluation before and after conversion" : "every sequence of annotation calls; the complete observable structure is compared after each call";
  r.extra_names = P == "C19" ? std::vector<std::string>{"cuts_in_complete_sets", "cuts_checked", "trimmed_nodes"} : P == "C21" ? std::vector<std::string>{"pairs", "valuations", "validator_queries"} : P == "C22" ? std::vector<std::string>{"input_assignments", "added_patterns"} : P == "C23" ? std::vector<std::string>{"structures"} : std::vector<std::string>{"results"};
  r.assumptions = {"sizes bounded by the families"};
  if (P == "C23") SharedRw::g();
  r.prop = P; return r.main(argc, argv);
}

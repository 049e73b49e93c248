// Binding of Specs to the real network classes (public API only) and the reference evaluators for them.
#pragma once
#include "common.hpp"
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"
namespace vf {
using Aig = iFPGA::aig_network;
inline Aig build(Spec const &s) {
  Aig a; std::vector<Aig::signal> v; v.push_back(a.get_constant(false));
  for (int i = 0; i < s.npi; ++i) v.push_back(a.create_pi());
  auto L = [&](u32 l) { return l & 1 ? !v[l >> 1] : v[l >> 1]; };
  for (auto &p : s.g) v.push_back(a.create_and(L(p.first), L(p.second)));
  for (auto o : s.po) a.create_po(L(o));
  return a;
}
// functions of all POs of an AIG-like network, by recursive evaluation with cycle detection
template <class N> std::vector<TT> sim_aig(N const &a, u32 npi) {
  std::vector<TT> val(a.size(), TT(npi)); std::vector<char> st(a.size(), 0);
  val[0] = TT(npi); st[0] = 2; u32 k = 0; bool bad = false;
  a.foreach_pi([&](auto n) { if (k < npi && n < a.size()) { val[n] = TT::var(npi, k++); st[n] = 2; } else bad = true; });
  require(!bad && k == npi, "wrong number of primary inputs");
  std::vector<u64> stack;
  auto go = [&](u64 r) {
    stack.push_back(r);
    while (!stack.empty()) {
      u64 n = stack.back();
      require(n < a.size(), "fanin index out of range");
      if (st[n] == 2) { stack.pop_back(); continue; }
      auto c0 = a.get_child0(n), c1 = a.get_child1(n);
      require(c0.index < a.size() && c1.index < a.size(), "fanin index out of range");
      if (st[n] == 1) {
        require(st[c0.index] == 2 && st[c1.index] == 2, "combinational cycle");
        val[n] = (c0.complement ? ~val[c0.index] : val[c0.index]) & (c1.complement ? ~val[c1.index] : val[c1.index]); st[n] = 2; stack.pop_back(); continue;
      }
      require(!a.is_pi(n), "unexpected primary input");
      st[n] = 1;
      for (u64 c : {(u64)c0.index, (u64)c1.index}) { require(st[c] != 1, "combinational cycle"); if (st[c] == 0) stack.push_back(c); }
    }
  };
  std::vector<TT> r;
  a.foreach_po([&](typename N::signal const &f) { go(f.index); r.push_back(f.complement ? ~val[f.index] : val[f.index]); });
  return r;
}
template <class N> u32 depth_aig(N const &a) { // longest PI->PO path in gates
  std::vector<int> lv(a.size(), -1); lv[0] = 0; a.foreach_pi([&](auto n) { lv[n] = 0; });
  std::function<int(u64)> f = [&](u64 n) -> int { if (lv[n] >= 0) return lv[n]; int x = f(a.get_child0(n).index), y = f(a.get_child1(n).index); return lv[n] = 1 + std::max(x, y); };
  int d = 0; a.foreach_po([&](typename N::signal const &s) { d = std::max(d, f(s.index)); }); return d;
}
template <class N> u32 area_aig(N const &a) { // gates in the transitive fanin of the POs
  std::vector<char> v(a.size(), 0); v[0] = 1; a.foreach_pi([&](auto n) { v[n] = 1; }); u32 c = 0; std::vector<u64> st;
  a.foreach_po([&](typename N::signal const &s) { st.push_back(s.index); });
  while (!st.empty()) { u64 n = st.back(); st.pop_back(); if (v[n]) continue; v[n] = 1; ++c; st.push_back(a.get_child0(n).index); st.push_back(a.get_child1(n).index); }
  return c;
}
inline void same_functions(std::vector<TT> const &want, std::vector<TT> const &got, char const *what) {
  require(want.size() == got.size(), std::string(what) + ": number of outputs changed from " + std::to_string(want.size()) + " to " + std::to_string(got.size()));
  for (size_t i = 0; i < want.size(); ++i) if (want[i] != got[i]) fail(std::string(what) + ": output " + std::to_string(i) + " computes " + got[i].hex() + " instead of " + want[i].hex());
}
// a clean, well-formed result network
template <class N> void wellformed(N const &a, u32 npi, size_t npo, char const *what) {
  require(a.num_pis() == npi, std::string(what) + ": number of inputs changed");
  require(a.num_pos() == npo, std::string(what) + ": number of outputs changed");
}
} // namespace vf

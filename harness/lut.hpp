// Reference evaluation of LUT networks.
#pragma once
#include "ntk.hpp"
namespace vf {
using Klut = iFPGA::klut_network;
// f(leaves): bit i of the LUT function, i = assignment with fanin 0 as least significant bit
inline TT lut_apply(kitty::dynamic_truth_table const &f, std::vector<TT> const &in, u32 npi) {
  TT r(npi); u32 k = in.size();
  for (u64 m = 0; m < (u64(1) << k); ++m) if (kitty::get_bit(f, m)) {
    TT c = ~TT(npi); for (u32 j = 0; j < k; ++j) c = c & ((m >> j) & 1 ? in[j] : ~in[j]);
    r = r | c;
  }
  return r;
}
struct KlutInfo { u32 luts = 0, depth = 0, maxin = 0; std::vector<TT> po; };
// simulates a LUT network in index order; requires every fanin to be defined before its use
inline KlutInfo sim_klut(Klut const &k, u32 npi, u32 maxk = 32) {
  KlutInfo r; std::vector<TT> val(k.size(), TT(npi)); std::vector<int> st(k.size(), 0); std::vector<u32> lev(k.size(), 0);
  val[1] = ~TT(npi); st[0] = st[1] = 1; u32 j = 0;
  k.foreach_pi([&](auto n) { require((u64)n < k.size() && j < npi, "bad LUT input"); val[n] = TT::var(npi, j++); st[n] = 1; });
  require(j == npi && k.num_pis() == npi, "LUT network has " + std::to_string(k.num_pis()) + " inputs instead of " + std::to_string(npi));
  k.foreach_gate([&](auto n) {
    std::vector<TT> in; std::set<u64> seen;
    k.foreach_fanin(n, [&](auto f) { u64 c = k.get_node(f); require(c < k.size() && st[c], "LUT fanin undefined or not in topological order"); in.push_back(val[c]); lev[n] = std::max(lev[n], lev[c] + 1); });
    auto f = k.node_function(n);
    require(f.num_vars() == in.size(), "LUT function has " + std::to_string(f.num_vars()) + " variables but " + std::to_string(in.size()) + " fanins");
    require(in.size() <= maxk, "LUT with " + std::to_string(in.size()) + " inputs, limit " + std::to_string(maxk));
    require(in.size() >= 1, "LUT without inputs");
    val[n] = lut_apply(f, in, npi); st[n] = 1; ++r.luts; r.maxin = std::max<u32>(r.maxin, in.size());
  });
  require(r.luts == k.num_gates(), "num_gates of the LUT network is " + std::to_string(k.num_gates()) + " but it has " + std::to_string(r.luts) + " LUTs");
  k.foreach_po([&](auto f) { u64 n = k.get_node(f); require(n < k.size() && st[n], "undefined LUT output"); r.po.push_back(k.is_complemented(f) ? ~val[n] : val[n]); r.depth = std::max(r.depth, lev[n]); });
  return r;
}
} // namespace vf

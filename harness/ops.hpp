// Textual operation descriptors and their application to a real network.
#pragma once
#include "ntk.hpp"
#include "optimization/rewrite.hpp"
#include "optimization/refactor.hpp"
#include "optimization/and_balance.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
namespace vf {
// the 4-input library object is expensive to build (0.3 s) and is built by every rewrite() call; the resynthesis
// functor is a template parameter of rewrite(), so share one instance (the CLI checks use the default functor).
struct SharedRw {
  static iFPGA::node_rewriting<Aig> const &g() { static iFPGA::node_rewriting<Aig> *x = new iFPGA::node_rewriting<Aig>(); return *x; }
  template <class It, class F> void operator()(Aig &n, kitty::dynamic_truth_table const &f, It b, It e, F &&fn) const { g()(n, f, b, e, std::forward<F>(fn)); }
};
struct Op { char k; int a[6] = {0, 0, 0, 0, 0, 0}; };
inline Op parse_op(std::string const &s) { Op o; o.k = s[0]; size_t p = 1; int i = 0; while (p < s.size() && i < 6) { o.a[i++] = atoi(s.c_str() + p); p = s.find('_', p); if (p == std::string::npos) break; ++p; } return o; }
inline std::vector<std::string> split(std::string const &s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, c)) r.push_back(t); return r; }
using Mapped = iFPGA::mapping_view<iFPGA::aig_with_choice, true, false>;
inline iFPGA::klut_network map_luts(Aig const &a, int P, int C, int G, int L, int zero = 0, iFPGA::mapping_qor_storage *q = nullptr) {
  iFPGA::aig_with_choice awc(a); Mapped m(awc);
  iFPGA::klut_mapping_params p; p.cut_enumeration_ps.cut_size = C; p.cut_enumeration_ps.cut_limit = P; p.uFlowIters = G; p.uAreaIters = L; p.bZeroGain = zero; p.verbose = false;
  auto r = iFPGA::klut_mapping<Mapped, true>(m, p); if (q) *q = r;
  auto k = iFPGA::choice_to_klut<iFPGA::klut_network>(m); require(bool(k), "mapping produced no LUT network"); return *k;
}
// W P_C_l_z : rewrite   F I_C_up_z : refactor   B : balance   C : cleanup   L P_C_G_L_z : lut_opt
inline Aig apply(Op const &o, Aig a) {
  switch (o.k) {
  case 'W': { iFPGA::rewrite_params p; p.cut_enumeration_ps.cut_limit = o.a[0]; p.cut_enumeration_ps.cut_size = o.a[1]; p.b_preserve_depth = o.a[2]; p.b_use_zero_gain = o.a[3]; return iFPGA::rewrite<Aig, SharedRw>(a, p); }
  case 'F': { iFPGA::refactor_params p; p.max_leaves_num = o.a[0]; p.max_cone_size = o.a[1]; p.allow_depth_up = o.a[2]; p.allow_zero_gain = o.a[3]; p.verbose = false; return iFPGA::refactor(a, p); }
  case 'B': return iFPGA::balance_and(a);
  case 'C': return iFPGA::cleanup_dangling(a);
  case 'L': return iFPGA::convert_klut_to_aig(map_luts(a, o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]));
  }
  fail("bad op");
}
} // namespace vf

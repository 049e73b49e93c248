#pragma once
#include "demo.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
#include "optimization/rewrite.hpp"
#include "optimization/refactor.hpp"
#include "optimization/and_balance.hpp"
#include "optimization/detail/node_rewriting.hpp"
struct OneRw { static iFPGA::node_rewriting<Aig> const &g() { static iFPGA::node_rewriting<Aig> x; return x; } template <class... A> void operator()(A &&...a) const { g()(std::forward<A>(a)...); } };
inline Aig rewrite(Aig &a, bool level = true, bool zero = false) { iFPGA::rewrite_params p; p.cut_enumeration_ps.cut_size = 4; p.b_preserve_depth = level; p.b_use_zero_gain = zero; return iFPGA::rewrite<Aig, OneRw>(a, p); }
inline Aig refac(Aig &a, bool up = false, bool zero = false, int leaves = 10, int cone = 16) { iFPGA::refactor_params p; p.max_leaves_num = leaves; p.max_cone_size = cone; p.allow_depth_up = up; p.allow_zero_gain = zero; return iFPGA::refactor(a, p); }
inline Aig bal(Aig &a) { return iFPGA::balance_and(a); }
inline Klut map(iFPGA::aig_with_choice const &w, int C = 6, int P = 10, int G = 1, int L = 2, bool z = false) {
  iFPGA::mapping_view<iFPGA::aig_with_choice, true, false> m(w); iFPGA::klut_mapping_params p; p.cut_enumeration_ps.cut_size = C; p.cut_enumeration_ps.cut_limit = P; p.uFlowIters = G; p.uAreaIters = L; p.bZeroGain = z; p.verbose = false;
  iFPGA::klut_mapping<decltype(m), true>(m, p); auto k = iFPGA::choice_to_klut<Klut>(m); if (!k) { printf("FAIL: no mapping\n"); exit(1); } return *k;
}

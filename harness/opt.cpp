// C01..C06: optimisation passes keep the function of every output.
// case = "op;op;...|spec"
#include "ops.hpp"
using namespace vf;
static void one(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[1]); Aig a = build(sp); auto want = sp.tt();
  for (auto &t : split(f[0], ';')) {
    Op o = parse_op(t); u32 n0 = area_aig(a), d0 = depth_aig(a);
    Aig b = apply(o, a);
    wellformed(b, sp.npi, want.size(), t.c_str()); same_functions(want, sim_aig(b, sp.npi), t.c_str());
    u32 n1 = area_aig(b), d1 = depth_aig(b);
    if (o.k == 'B' && d1 > d0) fail("balance increased the depth from " + std::to_string(d0) + " to " + std::to_string(d1));
    if (o.k == 'C') {
      if (n1 != n0 || d1 != d0) fail("cleanup changed the live logic (" + std::to_string(n0) + " gates, depth " + std::to_string(d0) + " -> " + std::to_string(n1) + ", " + std::to_string(d1) + ")");
      if (b.num_gates() != n1) fail("cleanup left dangling gates");
      Aig c = iFPGA::cleanup_dangling(b);
      require(c.size() == b.size() && c.num_gates() == b.num_gates(), "cleanup is not idempotent");
      r.nontrivial(hashS(f[1], a.num_gates() == n0 ? 1 : 2));
    } else if (n1 != n0 || d1 != d0 || b.size() != a.size()) r.nontrivial(hashS(f[1], hashS(t)));
    a = b;
  }
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 40; std::string P = "C01"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1];
  r.one = [&](std::string const &s) { one(r, s); };
  std::string pfx; bool th = false;
  u64 stride = 1, tick = 0; auto E = [&](Spec const &s) { if (tick++ % stride == 0) r.addl([&] { return pfx + "|" + s.str(); }); };
  auto small = [&](int ng) { r.family("all AIGs with <=3 inputs, <=" + std::to_string(ng) + " gates, 5 output patterns"); for (int n = 1; n <= 3; n++) for (int g = 0; g <= ng; g++) for (int m = 0; m < 5; m++) gen_all(n, g, g > 3, [&](Spec const &s) { with_pos(s, m, E); }); };
  auto pairs = [&](int lo, int hi) { r.family("all pairs of 3-input functions"); static const int k[8][3] = {{0, 0, 1}, {1, 0, 0}, {1, 1, 2}, {3, 0, 3}, {2, 3, 2}, {3, 1, 0}, {2, 0, 1}, {0, 3, 2}}; for (int i = lo; i < hi; i++) gen_pairs(k[i][0], k[i][1], k[i][2], E); };
  auto funcs = [&](u64 step, int sty = 4) { r.family("all 4-input functions (every " + std::to_string(step) + "th), 4 construction styles"); for (int st = 0; st < sty; st++) gen_functions(4, st, step, E); };
  auto rec = [&] { r.family("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E); gen_recur(5, 30, 6, 2, 3, E); };
  auto rec7 = [&](u64 st, u64 ph) { r.family("long recurrence AIGs (1/" + std::to_string(st) + " of the patterns)"); gen_recur(4, 40, 6, 3, 2, E, st, ph); gen_recur(6, 60, 7, 3, 4, E, st, ph); };
  auto blocks = [&] { r.family("arithmetic/control blocks"); gen_blocks(13, E); };
  auto big = [&](bool t) { r.family("large named circuits"); for (auto &n : big_names(t)) r.addl([&] { return pfx + "|@" + n; }); };
  auto deg = [&] { r.family("degenerate networks"); gen_degenerate(3, 3, E); };
  auto trees = [&] { r.family("all tree shapes"); gen_trees(6, 6, 3, false, E); gen_trees(6, 3, 2, true, E); gen_trees(7, 7, 2, true, E); };
  auto base = [&] { small(th ? 4 : 3); pairs(0, th ? 6 : 2); funcs(th ? 1 : 29); rec(); rec7(th ? 23 : 211, 3); blocks(); deg(); trees(); };
  r.rule = "every circuit of each family (see families) is built through the public API, the pass is run with the parameters in the case prefix, and the truth tables of all outputs over all input assignments are compared with an independent evaluation of the circuit description; non-trivial: the pass returned a network with another gate count, depth or size";
  r.assumptions = {"at most 20 inputs per circuit (all assignments are evaluated)", "combinational networks only", "gates and inputs as bounded by the families"};
  r.enumerate = [&](Runner &) {
    th = r.thorough();
    if (P == "C01") {
      for (std::string o : {"W10_4_1_0", "W10_4_0_1"}) { pfx = o; base(); }
      for (std::string o : {"W10_4_0_0", "W10_4_1_1"}) { pfx = o; if (th) base(); else { pairs(4, 5); rec(); blocks(); funcs(53); } }
      for (int p = 6; p <= 20; ++p) for (int c = 2; c <= 4; ++c) for (int l = 0; l < 2; ++l) for (int z = 0; z < 2; ++z) { pfx = "W" + std::to_string(p) + "_" + std::to_string(c) + "_" + std::to_string(l) + "_" + std::to_string(z); blocks(); if (th || (p % 7 == 6 && c == 4)) rec(); if (th) big(false); }
      for (std::string o : {"W10_4_1_0", "W10_4_0_1", "W20_4_1_1"}) { pfx = o; big(th); }
      if (th) { pfx = "W10_4_0_0"; r.family("all 5-gate AIGs"); for (int n = 2; n <= 3; n++) gen_all(n, 5, true, [&](Spec const &s) { with_pos(s, 2, E); }); rec7(2, 1); }
    } else if (P == "C02") {
      for (std::string o : {"F10_16_0_0", "F10_16_1_1"}) { pfx = o; base(); }
      for (std::string o : {"F12_20_1_0", "F4_8_0_1", "F3_4_1_1"}) { pfx = o; if (th) base(); else { pairs(3, 4); rec(); blocks(); } }
      for (int i : {2, 3, 4, 5, 6, 8, 10, 11, 12}) for (int c : {0, 2, 3, 5, 9, 16, 20}) for (int l = 0; l < 2; ++l) for (int z = 0; z < 2; ++z) { pfx = "F" + std::to_string(i) + "_" + std::to_string(c) + "_" + std::to_string(l) + "_" + std::to_string(z); blocks(); if (th || (i == 5 && c == 9)) rec(); if (th) big(false); }
      for (std::string o : {"F10_16_0_0", "F12_20_1_1"}) { pfx = o; big(th); }
      if (th) { pfx = "F6_12_1_1"; rec7(2, 1); r.family("all 5-gate AIGs"); for (int n = 2; n <= 3; n++) gen_all(n, 5, true, [&](Spec const &s) { with_pos(s, 2, E); }); }
    } else if (P == "C03") {
      pfx = "B"; small(4); pairs(0, 6); funcs(th ? 1 : 5); rec(); rec7(th ? 1 : 19, 2); blocks(); deg(); trees(); big(th);
      r.family("all trees of 8 leaves"); gen_trees(8, 8, 2, false, E); gen_trees(8, 4, 2, true, E); if (th) { gen_trees(9, 9, 2, true, E); gen_trees(8, 5, 3, false, E); }
      if (th) { r.family("all 5-gate AIGs"); for (int n = 2; n <= 3; n++) for (int m : {0, 2, 3}) gen_all(n, 5, true, [&](Spec const &s) { with_pos(s, m, E); }); }
      pfx = "B;B"; rec(); pairs(0, 1);
    } else if (P == "C04") {
      for (std::string o : {"L10_4_1_2_0", "L10_6_1_2_1"}) { pfx = o; if (th) base(); else { small(3); pairs(o[3] == '4' ? 0 : 2, o[3] == '4' ? 2 : 3); funcs(59); rec(); rec7(1511, 2); blocks(); deg(); trees(); } }
      for (int p = 6; p <= 20; ++p) for (int c = 2; c <= 6; ++c) for (int z = 0; z < 2; ++z) { pfx = "L" + std::to_string(p) + "_" + std::to_string(c) + "_1_2_" + std::to_string(z); blocks(); if (th || (p % 7 == 6)) { stride = th ? 1 : 5; rec(); stride = 1; } if (th) big(false); }
      for (std::string o : {"L10_6_1_2_0", "L6_3_1_2_1"}) { pfx = o; big(th); if (th) { pfx = o; pairs(0, 8); funcs(7); rec7(57, 1); } }
    } else if (P == "C05") {
      pfx = "C"; small(4); r.family("all AIGs with one output, all other gates dangling");
      for (int n = 2; n <= 3; ++n) for (int g = 1; g <= (th ? 5 : 4); ++g) gen_all(n, g, g > 3, [&](Spec s) { for (int k = 0; k < g; ++k) { s.po = {2u * (n + 1 + k) + (k & 1)}; E(s); } });
      pairs(0, th ? 8 : 3); rec(); blocks(); deg(); trees(); funcs(th ? 1 : 11); rec7(th ? 3 : 61, 0); big(th);
    } else if (P == "C06") {
      std::vector<std::string> al = {"W10_4_1_0", "W10_4_0_1", "F10_16_0_1", "F10_16_1_0", "B", "L10_4_1_2_0", "C"};
      std::vector<std::string> seqs; int K = al.size(), D = th ? 4 : 3; int tot = 1; for (int i = 0; i < D; ++i) tot *= K;
      for (int c = 0; c < tot; ++c) { std::string q; int x = c; for (int i = 0; i < D; ++i) { q += (i ? ";" : "") + al[x % K]; x /= K; } seqs.push_back(q); }
      for (auto &q : seqs) { pfx = q; r.family("all sequences of " + std::to_string(D) + " passes (blocks)"); gen_blocks(th ? 10 : 9, E); r.family("all sequences (recurrences)"); gen_recur(4, 30, 6, 3, 3, E, th ? 997 : 1499, 5); gen_recur(5, 30, 6, 2, 3, E, 71, 1); }
      for (size_t i = 0; i < seqs.size(); i += th ? 7 : 29) { pfx = seqs[i]; big(false); }
    }
  };
  SharedRw::g(); r.prop = P; return r.main(argc, argv);
}

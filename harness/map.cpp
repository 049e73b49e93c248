// C07: LUT mapping without choices.  C08: LUT mapping with structural choices, and the choice network itself.
// case = "P_C_G_L_z|spec"  or (C08) "P_C|op;op|spec": the networks are the circuit and the results of each op chain prefix
#include "ops.hpp"
#include "lut.hpp"
#include "algorithms/choice_miter.hpp"
#include "views/depth_view.hpp"
#include "algorithms/choice_computation.hpp"
using namespace vf;
using Awc = iFPGA::aig_with_choice;
static Klut map_awc(Awc const &awc, int P, int C, int G, int L, int z, iFPGA::mapping_qor_storage *q = nullptr) {
  Mapped m(awc); iFPGA::klut_mapping_params p; p.cut_enumeration_ps.cut_size = C; p.cut_enumeration_ps.cut_limit = P; p.uFlowIters = G; p.uAreaIters = L; p.bZeroGain = z; p.verbose = false;
  auto r = iFPGA::klut_mapping<Mapped, true>(m, p); if (q) *q = r;
  auto k = iFPGA::choice_to_klut<Klut>(m); require(bool(k), "mapping produced no LUT network"); return *k;
}
static void one07(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[1]); auto want = sp.tt(); Op o = parse_op("L" + f[0]);
  Aig a = build(sp); iFPGA::mapping_qor_storage q; u32 n0 = area_aig(a), d0 = depth_aig(a);
  Klut k = map_awc(Awc(a), o.a[0], o.a[1], o.a[2], o.a[3], o.a[4], &q);
  auto i = sim_klut(k, sp.npi, o.a[1]); same_functions(want, i.po, "mapping");
  // the source network is left as it was
  require(area_aig(a) == n0, "mapping changed the source network"); 
  // every LUT covers at least one gate; an output driver used in both polarities needs one more LUT
  std::set<u32> po(sp.po.begin(), sp.po.end());
  require(i.luts <= n0 + po.size(), "more LUTs (" + std::to_string(i.luts) + ") than gates (" + std::to_string(n0) + ")");
  require(i.depth <= d0 + 0 || (d0 == 0 && i.depth <= 1), "LUT depth " + std::to_string(i.depth) + " exceeds gate depth " + std::to_string(d0));
  if ((int)sp.npi <= o.a[1]) require(i.depth <= 1, "LUT depth " + std::to_string(i.depth) + " although one LUT can hold all inputs");
  if (i.luts) r.nontrivial(hashS(f[1], i.luts * 64 + i.depth));
}
static void one08(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[2]); auto want = sp.tt(); Op o = parse_op("L" + f[0]);
  iFPGA::choice_miter cm; std::vector<std::shared_ptr<Aig>> nets; Aig a = build(sp);
  nets.push_back(std::make_shared<Aig>(build(sp)));
  for (auto &t : split(f[1], ';')) { a = apply(parse_op(t), a); same_functions(want, sim_aig(a, sp.npi), t.c_str()); nets.push_back(std::make_shared<Aig>(iFPGA::cleanup_dangling(a))); }
  { u32 k = s.size(); for (auto &n : nets) { if (++k & 1) iFPGA::depth_view<Aig> d(*n); cm.add_aig(n); } } // earlier traversals leave marks and values in some of the networks
  iFPGA::choice_params cp; iFPGA::choice_computation cc(cp, cm.merge_aigs_to_miter());
  Awc w = cc.compute_choice();
  require(w.num_pis() == sp.npi && w.num_pos() == want.size(), "choice network has other terminals");
  // 1. functions of all nodes
  std::vector<TT> val(w.size(), TT(sp.npi)); std::vector<char> st(w.size(), 0); st[0] = 1; u32 j = 0;
  w.foreach_pi([&](auto n) { val[n] = TT::var(sp.npi, j++); st[n] = 1; });
  u64 classes = 0;
  w.foreach_gate([&](auto n) {
    auto c0 = w.get_child0(n), c1 = w.get_child1(n); require(st[c0.index] && st[c1.index], "choice network is not in topological order");
    val[n] = (c0.complement ? ~val[c0.index] : val[c0.index]) & (c1.complement ? ~val[c1.index] : val[c1.index]); st[n] = 1;
  });
  std::vector<TT> got; w.foreach_po([&](Aig::signal const &q) { got.push_back(q.complement ? ~val[q.index] : val[q.index]); });
  same_functions(want, got, "choice network");
  // 2. members of a class compute the representative's function up to the recorded phase; members come first
  std::vector<int> member(w.size(), 0);
  w.foreach_gate([&](auto n) {
    u64 x = n, guard = 0; if (member[n]) return;
    while ((x = w.get_equiv_node(x)) != Aig::AIG_NULL) {
      require(x < w.size() && st[x], "choice of a node is not a node"); require(++guard <= w.size(), "cyclic list of choices");
      require(val[x] == ((w.phase(n) ^ w.phase(x)) ? ~val[n] : val[n]), "node " + std::to_string(x) + " is recorded as a choice of " + std::to_string((u64)n) + " but is not equivalent");
      ++classes; member[x] = 1;
    }
  });
  iFPGA::mapping_qor_storage q; Klut k = map_awc(w, o.a[0], o.a[1], 1, 2, 1, &q);
  auto i = sim_klut(k, sp.npi, o.a[1]); same_functions(want, i.po, "mapping with choices");
  r.count(0, classes); if (classes) r.nontrivial(hashS(s));
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 40; std::string P = "C07"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1];
  bool th = false; std::string pfx; u64 stride = 1, tick = 0;
  auto E = [&](Spec const &s) { if (tick++ % stride == 0) r.addl([&] { return pfx + "|" + s.str(); }); };
  auto fam = [&](std::string const &n, u64 st) { stride = st; tick = 0; r.family(n + (st > 1 ? " (every " + std::to_string(st) + "th)" : "")); };
  auto big = [&](bool t) { fam("large named circuits", 1); for (auto &n : big_names(t)) r.addl([&] { return pfx + "|@" + n; }); };
  auto small = [&](int ng, u64 st) { fam("all AIGs with <=3 inputs, <=" + std::to_string(ng) + " gates, 5 output patterns", st); for (int n = 1; n <= 3; n++) for (int g = 0; g <= ng; g++) for (int m = 0; m < 5; m++) gen_all(n, g, g > 3, [&](Spec const &s) { with_pos(s, m, E); }); };
  auto pairs = [&](int lo, int hi, u64 st) { fam("all pairs of 3-input functions", st); static const int k[6][3] = {{0, 0, 1}, {1, 0, 0}, {1, 1, 2}, {3, 0, 3}, {2, 3, 2}, {3, 1, 0}}; for (int i = lo; i < hi; i++) gen_pairs(k[i][0], k[i][1], k[i][2], E); };
  auto funcs = [&](u64 st) { fam("all 4-input functions, 4 construction styles", st); for (int k = 0; k < 4; k++) gen_functions(4, k, 1, E); };
  auto rec = [&](u64 st) { fam("recurrence AIGs", st); gen_recur(4, 16, 5, 2, 2, E); gen_recur(5, 30, 6, 2, 3, E); };
  auto rec7 = [&](u64 st) { fam("long recurrence AIGs, 1 of " + std::to_string(st) + " patterns", 1); gen_recur(4, 40, 6, 3, 2, E, st, 1); gen_recur(6, 60, 7, 3, 4, E, st, 1); };
  auto blocks = [&](int n = 13) { fam("arithmetic/control blocks", 1); gen_blocks(n, E); };
  auto deg = [&] { fam("degenerate networks", 1); gen_degenerate(3, 3, E); };
  auto trees = [&](u64 st) { fam("all tree shapes", st); gen_trees(6, 6, 3, false, E); gen_trees(6, 3, 2, true, E); gen_trees(7, 7, 2, true, E); };
  r.one = [&](std::string const &s) { if (P == "C07") one07(r, s); else one08(r, s); };
  r.assumptions = {"at most 20 inputs per circuit (all assignments are evaluated)", "combinational networks only", "circuits as bounded by the families"};
  if (P == "C07") r.rule = "every circuit of each family is mapped with the parameters P (cuts), C (LUT inputs), G (area-flow rounds), L (area rounds), z (zero gain) of the case; the LUT network is evaluated independently on all input assignments and compared with the circuit description; LUT arity, topological order, LUT count and depth are checked against the gate network; non-trivial: at least one LUT";
  else { r.rule = "for every circuit and every pass sequence of the case the snapshots are merged, choices are computed and the choice network is mapped: outputs of the choice network and of the LUT network are compared on all input assignments, every recorded choice is compared with its representative up to its phase; non-trivial: at least one choice was found"; r.extra_names = {"choices_checked"}; }
  r.enumerate = [&](Runner &) {
    th = r.thorough();
    if (P == "C07") {
      for (std::string o : {"10_4_1_2_0", "10_6_1_2_1"}) { pfx = o; small(th ? 4 : 3, 1); pairs(0, th ? 6 : 3, th ? 1 : 5); funcs(th ? 1 : 67); rec(1); rec7(th ? 41 : 701); blocks(); deg(); trees(1); }
      for (int p = 6; p <= 20; ++p) for (int c = 2; c <= 6; ++c) for (int z = 0; z < 2; ++z) for (int g = 0; g < 3; ++g) { int l = (g * 2 + p) % 4; pfx = std::to_string(p) + "_" + std::to_string(c) + "_" + std::to_string(g) + "_" + std::to_string(l) + "_" + std::to_string(z); blocks(); if (th || (p % 7 == 6 && g == 1)) rec(th ? 1 : 7); if (th) { big(false); trees(5); } }
      for (std::string o : {"10_6_1_2_0", "6_3_1_2_1", "20_4_2_3_1"}) { pfx = o; big(th); }
      if (th) for (std::string o : {"8_5_1_2_0", "6_2_1_2_1", "20_6_1_2_0"}) { pfx = o; pairs(0, 6, 1); funcs(3); rec7(23); small(4, 3); }
    } else {
      std::vector<std::string> q = {"10_6|B;W10_4_1_0", "10_4|F10_16_0_1;W10_4_0_1;B;L10_4_1_2_0", "6_3|W10_4_0_1", "20_5|L10_6_1_2_1;B"};
      for (size_t i = 0; i < q.size(); ++i) { pfx = q[i]; small(th ? 4 : 3, th ? 1 : i < 1 ? 2 : 9); rec(th ? 1 : i < 1 ? 1 : 5); rec7(th ? 11 : 613); blocks(); deg(); trees(th ? 1 : i < 1 ? 3 : 13); funcs(th ? 2 : 83); pairs(0, 6, th ? 1 : 83); big(th); }
      std::vector<std::string> al = {"W10_4_1_0", "W10_4_0_1", "F10_16_0_1", "F10_16_1_0", "B", "L10_4_1_2_0"};
      int K = al.size();
      for (int len = 1; len <= (th ? 3 : 2); ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= K; for (int c = 0; c < tot; ++c) { std::string o; int x = c; for (int i = 0; i < len; ++i) { o += (i ? ";" : "") + al[x % K]; x /= K; } for (int lc : {2, 4, 6}) { pfx = std::to_string(6 + (c * 5 + lc) % 15) + "_" + std::to_string(lc) + "|" + o; blocks(th ? 13 : 8); rec(th ? 17 : 97); if (th) { big(false); trees(29); } } } }
    }
  };
  r.prop = P; SharedRw::g(); return r.main(argc, argv);
}

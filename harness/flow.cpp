// C33 batch flow (flow_manager, the ifpga program): files written compute the files read.
#include "ops.hpp"
#include "formats.hpp"
#include "lut.hpp"
#include "io/reader.hpp"
#include "io/writer.hpp"
#include "algorithms/choice_computation.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/debugger.hpp"
#include "views/depth_view.hpp"
#include "optimization/balancing/sop_balancing.hpp"
#include "configer.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
// every rewrite() call builds the 4-input library (0.3 s); the flow calls it five times. The calls below use one shared instance.
namespace iFPGA { template <class N = aig_network, class F = vf::SharedRw> N shared_rewrite(N &n, rewrite_params const &p) { return rewrite<N, F>(n, p); } }
#define rewrite shared_rewrite
#include "flow/flow_manager.hpp"
#undef rewrite
using namespace vf;
static std::string S(u64 x) { return std::to_string(x); }
static std::string slurp(std::string const &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(std::string const &f, std::string const &t) { std::ofstream o(f, std::ios::binary); o << t; }
struct Capture { int o1, o2; std::string f; Capture(std::string const &n) : f(n) { fflush(stdout); std::cout.flush(); std::cerr.flush(); o1 = dup(1); o2 = dup(2); int n1 = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(n1, 1); dup2(n1, 2); close(n1); } ~Capture() { std::cout.flush(); fflush(stdout); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); } };
// C_P_G_L_flags|input ops|...|spec : flags 1 debug, 2 verbose, 4 very verbose, 8 names in the file, 16 output into a new folder, 32 no output paths
static void one33(Runner &r, std::string const &s) {
  static pid_t me = 0; static std::string dir; if (me != getpid()) { me = getpid(); char const *e = getenv("VERIF_BUILD"); dir = std::string(e ? e : "/tmp") + "/flow" + S(me); mkdir(dir.c_str(), 0700); }
  require(chdir(dir.c_str()) == 0, "scratch folder"); auto f = split(s, '|'); auto q = split(f[0], '_'); u32 C = atoi(q[0].c_str()), P = atoi(q[1].c_str()), G = atoi(q[2].c_str()), L = atoi(q[3].c_str()), fl = atoi(q[4].c_str()); Spec sp = Spec::parse(f.back()); auto want = sp.tt(); bool folder = f.size() > 2;
  std::string sym; std::vector<std::string> in, out; for (u32 i = 0; i < (u32)sp.npi; ++i) { in.push_back(fl & 8 ? "p_" + S(i) : ""); if (fl & 8) sym += "i" + S(i) + " p_" + S(i) + "\n"; } for (u32 i = 0; i < sp.po.size(); ++i) { out.push_back(fl & 8 ? "q[" + S(i) + "]" : ""); if (fl & 8) sym += "o" + S(i) + " q[" + S(i) + "]\n"; }
  std::string input = folder ? "choice" : "c.aig", text = encode_aiger(sp) + sym; std::map<std::string, std::string> files;
  if (folder) { mkdir("choice", 0700); files["choice/original.aig"] = text; char const *nm[] = {"choice/compress.aig", "choice/compress2.aig"}; Aig a = build(sp); for (int k = 0; k < 2; ++k) { for (auto &o : split(f[1 + k], ';')) a = apply(parse_op(o), a); Aig c = iFPGA::cleanup_dangling(a); std::ostringstream o; iFPGA::write_aiger(c, o); files[nm[k]] = o.str() + sym; } } else files["c.aig"] = text;
  for (auto &[n, t] : files) put(n, t);
  auto tf = [](bool b) { return b ? "true" : "false"; };
  put("k.json", std::string("{\"flow_manager\":{\"debug\":") + tf(fl & 1) + ",\"iterations\":0,\"use_balance\":true,\"use_rewrite\":true,\"verbose\":" + tf(fl & 2) + ",\"very_verbose\":" + tf(fl & 4) + "},\"klut_mapping\":{\"cut_size\":" + S(C) + ",\"cut_limit\":" + S(P) + ",\"uGlobal_round\":" + S(G) + ",\"uLocal_round\":" + S(L) + ",\"debug\":false,\"verbose\":false},\"rewrite\":{\"cut_size\":4,\"cut_limit\":10,\"min_candidate_cut_size\":4,\"use_zero_gain\":true,\"preserve_depth\":false}}");
  std::string v = fl & 32 ? "" : fl & 16 ? "new/dir/o.v" : "o.v", l = fl & 32 ? "" : fl & 16 ? "new2/l.v" : "l.v"; std::string vf = v.empty() ? input + "_ifpga.v" : v, lf = l.empty() ? input + "_ifpga_lut.v" : l; unlink(vf.c_str()); unlink(lf.c_str()); unlink("choice/awc.aig"); unlink("choice/awc.dot");
  { Capture c("log"); iFPGA::flow_manager m(input, "k.json", v, l); m.run(); } std::string log = slurp("log");
  for (auto &[n, t] : files) require(slurp(n) == t, "the input file " + n + " was changed");
  auto text1 = slurp(vf), text2 = slurp(lf); require(!text1.empty(), "no Verilog file"); require(!text2.empty(), "no LUT file");
  Verilog a, b; a.parse(text1); require(a.in.size() == (u32)sp.npi, "Verilog: wrong number of inputs"); same_functions(want, a.eval(), "Verilog file of the flow"); b.parse(text2); require(b.in.size() == (u32)sp.npi, "LUT netlist: wrong number of inputs"); same_functions(want, b.eval(), "LUT file of the flow");
  if (fl & 8) { require(a.in == in && a.out == out, "port names of the Verilog file"); require(b.in == in && b.out == out, "port names of the LUT file"); }
  auto num = [&](std::string const &k) -> long { size_t p = log.find(k); require(p != std::string::npos, "the report has no '" + k + "'"); return atol(log.c_str() + p + k.size()); };
  std::vector<u32> cnt(33, 0); for (auto &[n, x] : b.lut) { auto k = x.first; require(k <= C, "a LUT has " + S(k) + " inputs, the limit is " + S(C)); ++cnt[k]; }
  require(num("Area :") == (long)b.luts, "the report says " + S(num("Area :")) + " LUTs, the netlist has " + S(b.luts)); for (u32 k = 1; k <= C; ++k) require(num("LUT fanins:" + S(k) + "\t numbers :") == cnt[k], "reported number of LUTs with " + S(k) + " inputs");
  if (fl & 1) { require(log.find("\tequivalent") != std::string::npos && log.find("unequivalent") == std::string::npos, "the formal verification of the flow rejects its result"); if (folder) same_functions(want, decode_aiger(slurp("choice/awc.aig")).s.tt(), "awc.aig"); }
  r.count(0, 1); r.nontrivial(hashS(text2 + text1));
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 120; r.one = [&](std::string const &s) { one33(r, s); };
  std::string pfx; auto E = [&](Spec const &s) { r.addl([&] { return pfx + "|" + s.str(); }); };
  r.enumerate = [&](Runner &) {
    bool th = r.thorough(); int t = 0;
    auto fams = [&](bool few) { auto small = [&](int g, int m) { r.family("all AIGs with <=3 inputs, " + S(g) + " gates"); for (int n = 1; n <= 3; ++n) gen_all(n, g, true, [&](Spec const &s) { with_pos(s, m, E); }); };
      for (int g = 0; g <= (few ? 1 : 2); ++g) small(g, 2); if (th) small(few ? 2 : 3, 3); r.family("degenerate"); gen_degenerate(2, 2, E); r.family("arithmetic/control blocks"); gen_blocks(few ? 8 : 10, E); r.family("functions"); for (int st = 0; st < 4; ++st) gen_functions(4, st, th ? 211 : few ? 6007 : 2003, E);
      r.family("recurrence AIGs"); gen_recur(4, 16, 5, 2, 2, E, th ? 3 : few ? 211 : 61, ++t); r.family("long recurrence AIGs"); gen_recur(6, 40, 7, 3, 3, E, th ? 997 : 30011, t); r.family("trees"); gen_trees(5, 4, 2, true, E); };
    for (std::string o : {"6_10_1_1_1", "4_8_1_2_10", "6_10_2_1_48", "5_6_1_1_39", "2_10_1_1_9", "3_12_0_1_16"}) { pfx = o; fams(o != "6_10_1_1_1"); }
    for (std::string o : {"6_10_1_1_1", "4_8_1_1_40", "3_6_1_2_19"}) for (std::string p : {"W10_4_1_0;B|W10_4_0_1;B", "B|F10_16_0_1", "C|C", "F10_16_1_1|L8_4_1_2_0;B"}) { pfx = o + "|" + p; fams(o != "6_10_1_1_1"); }
  };
  r.rule = "every circuit x configuration x input form (file; folder with versions made by every listed pass sequence): the flow is run on real files, both files written are parsed strictly and evaluated on all assignments, the report is compared with them";
  r.extra_names = {"flow_runs"}; r.assumptions = {"sizes bounded by the families; valid configurations"}; SharedRw::g(); r.prop = "C33"; return r.main(argc, argv);
}

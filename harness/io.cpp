// C11 AIGER round trip, C12 AIGER reader, C13 Verilog export, C14 LUT export, C15 DOT export.
#include "ops.hpp"
#include "formats.hpp"
#include "lut.hpp"
#include "io/reader.hpp"
#include "io/writer.hpp"
#include <unistd.h>
using namespace vf;
static std::string tmpdir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); char const *e = getenv("VERIF_BUILD"); d = std::string(e ? e : "/tmp") + "/io" + std::to_string(p) + "."; } return d; }
static Aig read_back(std::string const &bytes, iFPGA::write_verilog_params &ports) {
  std::string f = tmpdir() + "aig"; { std::ofstream o(f, std::ios::binary); o << bytes; } Aig a; struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f};
  iFPGA::Reader<Aig> r(f, a, ports); require(r.isSuccess(), "the reader rejects a valid AIGER file"); return a;
}
// ------------------------------------------------------------------ checks
static std::string keyword(char c, u32 i) { static std::vector<std::string> kw = split("input reg wire or and not begin if xor module initial tri", ' '), kv = split("output assign endmodule buf end else nand table always defparam wand case", ' '); auto &k = c == 'p' ? kw : kv; return i < k.size() ? k[i] : k[i % k.size()] + "_" + std::to_string(i); }
static std::vector<std::pair<std::string, u32>> names(std::string const &kind, u32 n, char c) { // kinds: "" none, s simple, e needing escapes, v vector, m mixed, w like wires, f the same escaped, d like the default names of the other side, b a vector called like a wire, k keywords
  std::vector<std::pair<std::string, u32>> r; if (kind.empty() || !n) return r; if (kind == "b") { r.push_back({c == 'p' ? "n4" : "n5", n}); return r; }
  if (strchr("wfdk", kind[0])) { for (u32 i = 0; i < n; ++i) { std::string b = kind == "d" ? (c == 'p' ? "y" : "x") + std::to_string(i) : kind == "k" ? keyword(c, i) : "n" + std::to_string(2 * i + 2 + (c == 'p')); r.push_back({kind == "f" ? "\\" + b + " " : kind == "k" ? iFPGA::to_escaped_identifier(b) : b, 0}); } return r; } if (kind == "v") { r.push_back({std::string(1, c) + "bus", n}); return r; }
  u32 i = 0; while (i < n) { if (kind == "m" && n - i >= 2 && i % 3 == 1) { r.push_back({std::string(1, c) + "v" + std::to_string(i), 2}); i += 2; continue; } std::string b = std::string(1, c) + "_"; for (u32 k = 0; k <= i; ++k) b += char('a' + k % 26); if (kind == "e") b = iFPGA::to_escaped_identifier(b + "[" + std::to_string(i) + "].q"); r.push_back({b, 0}); ++i; } return r;
}
static void one11(Runner &r, std::string const &s) {
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); auto want = sp.tt(); Aig a = build(sp);
  for (size_t i = 1; i < f.size(); ++i) a = apply(parse_op(f[i]), a);
  if (f.size() == 1) a = iFPGA::cleanup_dangling(a);
  std::ostringstream o; iFPGA::write_aiger(a, o); auto d = decode_aiger(o.str()); require((u32)d.s.npi == sp.npi && d.s.g.size() == a.num_gates(), "AIGER: wrong number of inputs or gates"); same_functions(want, d.s.tt(), "written AIGER");
  iFPGA::write_verilog_params ports; Aig b = read_back(o.str(), ports); wellformed(b, sp.npi, want.size(), "read AIGER"); same_functions(want, sim_aig(b, sp.npi), "AIGER written and read"); require(b.num_gates() == a.num_gates(), "AIGER written and read: gates " + std::to_string(b.num_gates()) + " instead of " + std::to_string(a.num_gates())); require(depth_aig(b) == depth_aig(a), "AIGER written and read: depth changed");
  require(ports.input_names.empty() && ports.output_names.empty(), "names appear from nowhere");
  std::string fn = tmpdir() + "w"; iFPGA::write_aiger(b, fn); std::ifstream in(fn, std::ios::binary); std::stringstream c; c << in.rdbuf(); unlink(fn.c_str()); require(c.str() == o.str(), "writing the network that was read gives another file"); if (a.num_gates()) r.nontrivial(hashS(o.str()));
}
static void one12(Runner &r, std::string const &s) { // spec|input name mask|output name mask|tail
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); u32 im = atoi(f[1].c_str()), om = atoi(f[2].c_str()); int tail = atoi(f[3].c_str()); auto want = sp.tt(); std::string b = encode_aiger(sp);
  auto nm = [&](char c, u32 i) { u32 n1 = c == 'p' ? sp.npi : sp.po.size(); if (tail & 32) return (c == 'p' ? "_i" : "_o") + std::to_string((i + 1) % n1) + "_"; if (tail & 64) return (c == 'p' ? "_o" : "_i") + std::to_string(i) + "_"; if (tail & 128) return keyword(c, i); std::string n = std::string(1, c) + "_" + std::string(i + 1, 'a' + i); if ((tail & 8)) n = (tail & 16 ? "c" : "i") + std::to_string(i) + (c == 'p' ? "\\q[" : ".z[") + std::to_string(i) + "]"; return n; };
  std::vector<std::string> sym; for (u32 i = 0; i < (u32)sp.npi; ++i) if (im >> i & 1) sym.push_back("i" + std::to_string(i) + " " + nm('p', i)); for (u32 i = 0; i < sp.po.size(); ++i) if (om >> i & 1) sym.push_back("o" + std::to_string(i) + " " + nm('q', i));
  if (tail & 4) std::reverse(sym.begin(), sym.end());
  for (auto &l : sym) b += l + "\n"; if (tail & 3) b += (tail & 3) == 1 ? "c" : (tail & 3) == 2 ? "c\nwritten by\ni0 nobody\no0 nothing\n" : "c\n";
  iFPGA::write_verilog_params ports; Aig a = read_back(b, ports); wellformed(a, sp.npi, want.size(), "read AIGER"); same_functions(want, sim_aig(a, sp.npi), "read AIGER"); require(a.num_gates() <= sp.g.size(), "the reader adds gates");
  std::set<std::string> both;
  auto chk = [&](auto const &v, u32 n, u32 m, char c, char const *w) { if (!m && v.empty()) return; require(v.size() == n, std::string(w) + ": " + std::to_string(v.size()) + " names for " + std::to_string(n) + " ports"); std::set<std::string> u; for (u32 i = 0; i < n; ++i) { require(v[i].second == 0 && u.insert(v[i].first).second, std::string(w) + ": duplicate name or vector"); if (m >> i & 1) { std::string g = v[i].first; if (g[0] == '\\') { require(g.back() == ' ', "escaped name without a blank"); g = g.substr(1, g.size() - 2); } require(g == nm(c, i), std::string(w) + " " + std::to_string(i) + " is called '" + g + "' instead of '" + nm(c, i) + "'"); } } };
  chk(ports.input_names, sp.npi, im, 'p', "input"); chk(ports.output_names, sp.po.size(), om, 'q', "output"); r.nontrivial(hashS(b));
}
static void one13(Runner &r, std::string const &s) { // spec|input names|output names
  auto f = split(s + "| ", '|'); Spec sp = Spec::parse(f[0]); auto want = sp.tt(); Aig a = build(sp); iFPGA::write_verilog_params ps; ps.input_names = names(f[1], sp.npi, 'p'); ps.output_names = names(f[2], sp.po.size(), 'q'); if (!f[1].empty()) ps.module_name = "circuit_1";
  std::ostringstream o; iFPGA::write_verilog(a, o, ps); Verilog v; v.parse(o.str()); require(v.module == ps.module_name, "module name"); require(v.in.size() == (u32)sp.npi, "Verilog has " + std::to_string(v.in.size()) + " inputs"); auto got = v.eval(); same_functions(want, got, "Verilog");
  auto pn = [&](auto const &ps2, std::vector<std::string> const &got2) { std::vector<std::string> w; for (auto &[n, k] : ps2) { std::string m = n; if (m[0] == '\\') m = m.substr(1, m.size() - 2); if (!k) w.push_back(m); else for (u32 i = 0; i < k; ++i) w.push_back(m + "[" + std::to_string(i) + "]"); } if (!w.empty()) require(w == got2, "port names differ from the given ones"); }; pn(ps.input_names, v.in); pn(ps.output_names, v.out);
  require(v.ands == area_aig(a), "Verilog has " + std::to_string(v.ands) + " AND operations for " + std::to_string(area_aig(a)) + " gates"); r.nontrivial(hashS(o.str()));
}
static void one14(Runner &r, std::string const &s) { // spec|P_C|input name mask|output name mask|style
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); auto want = sp.tt(); Op op = parse_op("L" + f[1]); u32 im = atoi(f[2].c_str()), om = atoi(f[3].c_str()); int st = atoi(f[4].c_str()); std::string b = encode_aiger(sp);
  auto nm = [&](char c, u32 i) { bool P = c == 'p'; if (st > 1) { auto u = [](char const *p, u32 i, char const *q) { return p + std::to_string(i) + q; }; return st == 2 ? u("_w", 2 * i + 2 + P, "_") : st == 3 ? u(P ? "_o" : "_i", i + !P, "_") : st == 4 ? u("name", 2 * i + P, "") : st == 5 ? keyword(c, i) : u(P ? "_i" : "_o", i + 1, "_"); } return st ? std::string(1, c) + "[" + std::to_string(i) + "]" : std::string(1, c) + "_" + std::string(1, 'a' + i); };
  for (u32 i = 0; i < (u32)sp.npi; ++i) if (im >> i & 1) b += "i" + std::to_string(i) + " " + nm('p', i) + "\n"; for (u32 i = 0; i < sp.po.size(); ++i) if (om >> i & 1) b += "o" + std::to_string(i) + " " + nm('q', i) + "\n";
  iFPGA::write_verilog_params ports; Aig a = read_back(b, ports); Klut k = map_luts(a, op.a[0], op.a[1], 1, 2); std::ostringstream o; iFPGA::write_lut(k, o, ports); Verilog v; v.parse(o.str());
  require(v.in.size() == (u32)sp.npi, "LUT netlist has " + std::to_string(v.in.size()) + " inputs"); auto got = v.eval(); same_functions(want, got, "LUT netlist"); for (u32 i = 0; i < (u32)sp.npi; ++i) if (im >> i & 1) require(v.in[i] == nm('p', i), "LUT netlist: input " + std::to_string(i) + " is called '" + v.in[i] + "'"); for (u32 i = 0; i < sp.po.size(); ++i) if (om >> i & 1) require(v.out[i] == nm('q', i), "LUT netlist: output " + std::to_string(i) + " is called '" + v.out[i] + "'");
  require(v.luts == k.num_gates(), "number of LUTs in the netlist"); r.nontrivial(hashS(o.str()));
}
struct Dot { std::map<std::string, std::map<std::string, std::string>> node; std::vector<std::array<std::string, 3>> edge; std::vector<std::vector<std::string>> rank; };
static Dot parse_dot(std::string const &t) {
  Dot d; std::stringstream ss(t); std::string l; require(bool(std::getline(ss, l)) && l == "digraph {", "DOT: header"); bool end = false;
  while (std::getline(ss, l)) { require(!end, "DOT: text after the end"); if (l == "}") { end = true; continue; } if (l == "rankdir=BT;") continue;
    if (l.compare(0, 14, "{rank = same; ") == 0) { require(l.back() == '}', "DOT: rank"); std::vector<std::string> v; for (auto x : split(l.substr(14, l.size() - 15), ';')) { x.erase(std::remove(x.begin(), x.end(), ' '), x.end()); if (!x.empty()) v.push_back(x); } d.rank.push_back(v); continue; }
    size_t b = l.find(" ["); require(b != std::string::npos && l.back() == ']', "DOT: bad line " + l); std::string h = l.substr(0, b), at = l.substr(b + 2, l.size() - b - 3); std::map<std::string, std::string> A; for (auto &x : split(at, ',')) A[x.substr(0, x.find('='))] = x.substr(x.find('=') + 1);
    size_t ar = h.find(" -> "); if (ar == std::string::npos) require(d.node.emplace(h, A).second, "DOT: node " + h + " is drawn twice"); else d.edge.push_back({h.substr(0, ar), h.substr(ar + 4), A["style"]}); }
  require(end, "DOT: no end"); return d;
}
static void one15(Runner &r, std::string const &s) { // spec|a  or spec|l P_C
  auto f = split(s, '|'); Spec sp = Spec::parse(f[0]); auto want = sp.tt(); u32 npi = sp.npi; Aig a = iFPGA::cleanup_dangling(build(sp)); std::ostringstream o; bool lut = f[1][0] == 'l'; Klut k; if (lut) { Op op = parse_op("L" + f[1].substr(1)); k = map_luts(a, op.a[0], op.a[1], 1, 2); iFPGA::write_dot(k, o); } else iFPGA::write_dot(a, o);
  Dot d = parse_dot(o.str()); std::map<std::string, std::vector<std::pair<std::string, bool>>> in; for (auto &e : d.edge) { require(d.node.count(e[0]) && d.node.count(e[1]), "DOT: edge " + e[0] + " -> " + e[1] + " between unknown nodes"); require(e[2] == "solid" || e[2] == "dashed", "DOT: style of an edge"); in[e[1]].push_back({e[0], e[2] == "dashed"}); }
  // ranks: every node exactly once, along the edges upwards, outputs in a rank of their own
  std::map<std::string, int> rk; for (size_t i = 0; i < d.rank.size(); ++i) for (auto &n : d.rank[i]) { require(d.node.count(n), "DOT: unknown node in a rank"); require(rk.emplace(n, i).second, "DOT: node in two ranks"); } for (auto &[n, A] : d.node) require(rk.count(n), "DOT: node without a rank");
  std::vector<std::string> tri, consts; u32 gates = 0, pos = 0; for (auto &[n, A] : d.node) { if (A["shape"] == "triangle") tri.push_back(n); else if (A["shape"] == "box") consts.push_back(n); else if (A["shape"] == "invtriangle") { ++pos; require(in[n].size() == 1 && (size_t)rk[n] + 1 == d.rank.size(), "DOT: output " + n); } else { ++gates; int m = 0; for (auto &[c, x] : in[n]) m = std::max(m, rk[c]); require(rk[n] == m + 1, "DOT: rank of gate " + n); } if (A["shape"] != "invtriangle") require(A["label"] == "\"" + n + "\"", "DOT: label of " + n); if (A["shape"] == "triangle" || A["shape"] == "box") require(in[n].empty() && rk[n] == 0, "DOT: edge into an input"); }
  require(tri.size() == npi, "DOT: number of inputs"); require(pos == want.size(), "DOT: number of outputs"); require(gates == (lut ? k.num_gates() : a.num_gates()), "DOT: number of gates"); r.nontrivial(hashS(o.str()));
  std::vector<u64> pi; if (lut) k.foreach_pi([&](auto n) { pi.push_back(n); }); else a.foreach_pi([&](auto n) { pi.push_back(n); });
  std::map<std::string, TT> val; for (u32 i = 0; i < npi; ++i) { auto n = std::to_string(pi[i]); require(d.node.count(n) && d.node[n]["shape"] == "triangle", "DOT: input missing"); val[n] = TT::var(npi, i); } for (auto &c : consts) val[c] = c == "0" ? TT(npi) : ~TT(npi);
  std::function<TT(std::string const &)> ev = [&](std::string const &n) -> TT { auto it = val.find(n); if (it != val.end()) return it->second; auto &v = in[n]; TT t = ~TT(npi); if (lut) { std::vector<TT> x; std::vector<u64> fi; u64 id = atoll(n.c_str()); k.foreach_fanin(id, [&](auto c) { fi.push_back(c); }); require(fi.size() == v.size(), "DOT: number of fanins"); for (size_t i = 0; i < v.size(); ++i) { require(v[i].first == std::to_string(fi[i]) && !v[i].second, "DOT: fanin of a LUT"); x.push_back(ev(v[i].first)); } t = lut_apply(k.node_function(id), x, npi); } else { require(v.size() == 2, "DOT: AND gate with " + std::to_string(v.size()) + " fanins"); for (auto &[c, neg] : v) { TT x = ev(c); t = t & (neg ? ~x : x); } } return val[n] = t; };
  std::vector<TT> got; for (u32 i = 0; i < pos; ++i) { auto n = "po" + std::to_string(i); require(in[n].size() == 1, "DOT: output missing"); TT x = ev(in[n][0].first); got.push_back(in[n][0].second ? ~x : x); } same_functions(want, got, "DOT");
}
int main(int argc, char **argv) {
  Runner r; r.tmo = 60; std::string P = "C11"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1];
  r.one = [&](std::string const &s) { if (P == "C11") one11(r, s); else if (P == "C12") one12(r, s); else if (P == "C13") one13(r, s); else if (P == "C14") one14(r, s); else one15(r, s); };
  r.assumptions = {"combinational networks; port names are distinct and contain no white space"};
  u64 stride = 1, tick = 0; std::string sfx; auto E = [&](Spec const &s) { if (tick++ % stride == 0) r.addl([&] { return s.str() + sfx; }); };
  auto fam = [&](std::string const &n, u64 st = 1) { stride = st; tick = 0; r.family(n + (st > 1 ? " (every " + std::to_string(st) + "th)" : "")); };
  std::map<std::string, std::string> rules{{"C11", "every network (and results of every pass on a part of them) is written; an independent strict decoder and the reader must give the original functions, and writing what was read gives the same bytes"}, {"C12", "every valid file of the families (arbitrary fanins including constants and equal literals, any subset of ports named, symbols in any order, comment variants) is produced by an independent encoder; the network read and the port names must be those encoded"}, {"C13", "the exported text is parsed with a strict parser of the Verilog subset and evaluated on all assignments; naming styles: none, simple, escaped, vectors, mixed"}, {"C14", "a file with any subset of ports named is read, mapped and exported; the netlist is parsed strictly (declarations, single drivers, INIT widths) and evaluated on all assignments through its INIT masks"}, {"C15", "the drawing is parsed; nodes, edges, inverters, ranks and outputs must describe exactly the network"}};
  r.rule = rules[P];
  auto raw = [&](int npi, int ng, auto cb) { Spec s; s.npi = npi; std::function<void(int)> rec = [&](int k) { if (k == ng) { cb(s); return; } u32 L = 2 * (npi + 1 + k); for (u32 b = 0; b < L; ++b) for (u32 a = 0; a <= b; ++a) { s.g.push_back({a, b}); rec(k + 1); s.g.pop_back(); } }; rec(0); };
  r.enumerate = [&](Runner &) {
    bool th = r.thorough(); auto base = [&](u64 s4, u64 s5) { for (int n = 1; n <= 3; ++n) for (int g = 0; g <= 4; ++g) { fam("all AIGs with <=3 inputs, <=4 gates, 5 output patterns", g > 3 ? s4 : 1); for (int m = 0; m < 5; ++m) gen_all(n, g, g > 2, [&](Spec const &s) { with_pos(s, m, E); }); } if (s5) { fam("all AIGs with 2 inputs, 5 gates", s5); gen_all(2, 5, true, [&](Spec const &s) { with_pos(s, 2, E); }); } fam("degenerate"); gen_degenerate(3, 3, E); };
    auto structured = [&](u64 st) { fam("recurrence AIGs", st); gen_recur(4, 12, 4, 2, 2, E); fam("deep recurrence AIGs", st); gen_recur(5, 40, 6, 2, 3, E); fam("blocks"); gen_blocks(12, E); fam("pairs of 3-input functions", st * 7); for (int k = 0; k < 4; ++k) gen_pairs(k, k % 4, (k + 2) % 4, E); };
    if (P == "C11") { base(1, th ? 1 : 7); structured(th ? 1 : 2);
      for (std::string op : {"|W8_4_1_0", "|F10_16_1_0", "|B", "|L8_6_1_2_1", "|L8_4_1_2_1|W8_4_1_1", "|F10_16_1_1|B", "|W8_4_0_1|F12_20_0_1"}) { sfx = op; fam("results of passes", th ? 2 : 5); gen_recur(4, 12, 4, 2, 2, E); fam("results of passes on blocks"); gen_blocks(12, E); fam("results of passes on small AIGs", th ? 3 : 31); gen_all(3, 4, true, [&](Spec const &s) { with_pos(s, 2, E); }); } sfx = "";
      fam("long recurrences (multi-byte deltas)"); for (int len : {70, 130, 300, 3000, 9000, th ? 40000 : 9500}) { Spec s; s.npi = 6; u32 prev = 2; for (int i = 0; i < len; ++i) { u32 v = 7 + i; s.g.push_back({u32(2 * (1 + i % 6) + (i & 1)), i < 2 ? 2u * (2 + i) + 1 : 2 * (v - 1) + (i % 3 == 0)}); if (s.g.back().first >> 1 == s.g.back().second >> 1) s.g.back().first = 2 * (1 + (i + 1) % 6); } for (int i = 0; i < len; i += 1 + len / 40) s.po.push_back(2 * (7 + i) + (i & 1)); s.po.push_back(2 * (6 + len)); (void)prev; E(s); }
    } else if (P == "C12") { int lim = th ? 3 : 2;
      for (int n = 0; n <= 3; ++n) for (int g = 0; g <= lim; ++g) { fam("all gate sections with " + std::to_string(g) + " gates, any fanins", g == 2 ? (th ? 1 : 3) : g == 3 ? 97 : 1); raw(n, g, [&](Spec const &s0) { Spec s = s0; u32 N = n + 1 + g; for (u32 q = 0; q < 4; ++q) { s.po.clear(); if (q == 1) for (u32 v = 0; v < N; ++v) s.po.push_back(2 * v + (v & 1)); else if (q == 2) s.po = {2 * N - 1, 2 * N - 2, 2 * N - 1}; else if (q == 3) s.po = {1, 0, 2 * N - 1}; u32 tl = tick % 4; sfx = "|0|0|" + std::to_string(tl); E(s); } }); }
      for (int n = 0; n <= 3; ++n) for (int g = 0; g <= 1; ++g) { fam("any subset of ports named"); raw(n, g, [&](Spec const &s0) { Spec s = s0; u32 N = n + 1 + g; std::vector<std::vector<u32>> pos{{}, {2 * N - 2}, {2 * N - 1, 2 * N - 1}, {2, 2, 3}, {0, 1, 2}, {2, 2 * N - 2, 2}}; if (g && (s0.g[0].first * 7 + s0.g[0].second) % 5) return; for (auto &po : pos) { bool ok = true; for (u32 o : po) ok = ok && (o >> 1) < N; if (!ok) continue; s.po = po; for (u32 im = 0; im < (1u << n); ++im) for (u32 om = 0; om < (1u << po.size()); ++om) for (int tl : {2, 7, 9, 26, 33, 65, 128}) { sfx = "|" + std::to_string(im) + "|" + std::to_string(om) + "|" + std::to_string(tl); E(s); } } }); }
      sfx = "|0|0|1"; fam("recurrence AIGs"); gen_recur(5, 100, 6, 2, 3, E); fam("blocks"); gen_blocks(13, E);
    } else if (P == "C13") { for (std::string x : {"||", "|s|s", "|e|e", "|v|v", "|m|m", "|s|", "||e", "|w|w", "|f|w", "|d|", "||d", "|b|b", "|k|k", "|d|w"}) { sfx = x; base(x == "||" ? 1 : th ? 2 : 23, x == "||" ? (th ? 1 : 11) : 0); structured(x == "||" ? (th ? 1 : 2) : 7); } }
    else if (P == "C14") { for (std::string x : {"8_6", "6_2", "10_4", "20_3", "6_5"}) for (std::string m : {"0|0|0", "4095|65535|0", "4095|65535|1", "4095|65535|2", "1365|43690|2", "4095|65535|4", "1365|43690|6"}) { sfx = "|" + x + "|" + m; bool m0 = m[0] == '0'; base(x == "8_6" && m0 ? (th ? 1 : 2) : th ? 5 : 41, x == "6_2" && m0 ? (th ? 1 : 13) : 0); structured(th ? 1 : m0 ? 3 : 11); }
      for (int n = 1; n <= 3; ++n) for (int g = 0; g <= 2; ++g) { fam("any subset of ports named", g == 2 ? 3 : 1); gen_all(n, g, g > 1, [&](Spec const &s0) { u32 N = n + 1 + g; std::vector<std::vector<u32>> pos{{2 * N - 2}, {2, 2 * N - 1}, {3, 2, 2 * N - 2}, {2 * N - 1, 2 * N - 2, 0}, {2, 2}}; for (auto &po : pos) { Spec s = s0; s.po = po; for (u32 im = 0; im < (1u << n); ++im) for (u32 om = 0; om < (1u << po.size()); ++om) for (int st = 0; st < 7; ++st) { sfx = "|8_6|" + std::to_string(im) + "|" + std::to_string(om) + "|" + std::to_string(st); E(s); } } }); }
    } else { for (std::string x : {"|a", "|l8_6", "|l6_2", "|l8_4"}) { sfx = x; bool A = x == "|a"; base(A ? 1 : th ? 3 : 17, A ? (th ? 1 : 7) : 0); structured(A ? 1 : th ? 2 : 5); } }
  };
  r.prop = P; return r.main(argc, argv);
}

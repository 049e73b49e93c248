// Independent encoders, decoders and evaluators of the file formats.
#pragma once
#include "ops.hpp"
namespace vf {
// ------------------------------------------------------------------ independent AIGER encoder and decoder
static void leb(std::string &o, u32 x) { do { o += char((x & 127) | (x > 127 ? 128 : 0)); x >>= 7; } while (x); }
static std::string encode_aiger(Spec const &s) {
  std::string o = "aig " + std::to_string(s.npi + s.g.size()) + " " + std::to_string(s.npi) + " 0 " + std::to_string(s.po.size()) + " " + std::to_string(s.g.size()) + "\n";
  for (auto p : s.po) o += std::to_string(p) + "\n";
  u32 l = 2 * (s.npi + 1); for (auto [a, b] : s.g) { if (a < b) std::swap(a, b); leb(o, l - a); leb(o, a - b); l += 2; }
  return o;
}
struct Decoded { Spec s; std::map<u32, std::string> in, out; };
static Decoded decode_aiger(std::string const &d) { // strict
  size_t p = 0; auto line = [&] { size_t q = d.find('\n', p); require(q != std::string::npos, "AIGER: missing end of line"); auto r = d.substr(p, q - p); p = q + 1; return r; };
  auto num = [&](std::string const &t) { require(!t.empty() && t.size() < 10, "AIGER: bad number"); for (char c : t) require(isdigit(c), "AIGER: bad number '" + t + "'"); require(t == "0" || t[0] != '0', "AIGER: leading zero"); return (u32)atol(t.c_str()); };
  auto h = split(line(), ' '); require(h.size() == 6 && h[0] == "aig", "AIGER: bad header"); u32 M = num(h[1]), I = num(h[2]), L = num(h[3]), O = num(h[4]), A = num(h[5]);
  require(L == 0 && M == I + A, "AIGER: header " + h[1] + " != inputs + gates"); Decoded r; r.s.npi = I;
  for (u32 i = 0; i < O; ++i) { r.s.po.push_back(num(line())); require(r.s.po.back() / 2 <= M, "AIGER: output literal out of range"); }
  auto dec = [&] { u32 x = 0, s = 0; for (;;) { require(p < d.size(), "AIGER: truncated gate section"); u32 c = (unsigned char)d[p++]; x |= (c & 127) << s; s += 7; if (!(c & 128)) return x; require(s < 35, "AIGER: overlong delta"); } };
  for (u32 i = 0; i < A; ++i) { u32 l = 2 * (I + 1 + i), a = dec(), b = dec(); require(a >= 1 && a <= l, "AIGER: gate reads itself or a later gate"); require(b <= l - a, "AIGER: bad second delta"); r.s.g.push_back({l - a - b, l - a}); }
  while (p < d.size()) { if (d[p] == 'c' && (p + 1 == d.size() || d[p + 1] == '\n')) break; auto t = line(); size_t q = t.find(' '); require(q != std::string::npos && (t[0] == 'i' || t[0] == 'o'), "AIGER: bad symbol line"); (t[0] == 'i' ? r.in : r.out)[num(t.substr(1, q - 1))] = t.substr(q + 1); }
  return r;
}
// ------------------------------------------------------------------ Verilog subset: parser and evaluator
static bool verilog_keyword(std::string const &s) { // IEEE 1364-2005, annex B
  static std::set<std::string> kw; if (kw.empty()) for (auto &k : split("always and assign automatic begin buf bufif0 bufif1 case casex casez cell cmos config deassign default defparam design disable edge else end endcase endconfig endfunction endgenerate endmodule endprimitive endspecify endtable endtask event for force forever fork function generate genvar highz0 highz1 if ifnone incdir include initial inout input instance integer join large liblist library localparam macromodule medium module nand negedge nmos nor noshowcancelled not notif0 notif1 or output parameter pmos posedge primitive pull0 pull1 pulldown pullup pulsestyle_onevent pulsestyle_ondetect rcmos real realtime reg release repeat rnmos rpmos rtran rtranif0 rtranif1 scalared showcancelled signed small specify specparam strong0 strong1 supply0 supply1 table task time tran tranif0 tranif1 tri tri0 tri1 triand trior trireg unsigned use uwire vectored wait wand weak0 weak1 while wire wor xnor xor", ' ')) kw.insert(k);
  return kw.count(s) > 0; }
struct Verilog {
  std::vector<std::string> tok; std::vector<char> esc; size_t p = 0; std::string module; std::vector<std::string> ports, in, out; std::map<std::string, int> dir; // 1 in 2 out 3 wire
  std::map<std::string, u32> width; struct Drv { int kind; u32 a = 0; std::vector<std::string> ins; std::string name; }; 
  struct Ex { char op; std::string n; std::vector<int> k; }; std::vector<Ex> ex; std::map<std::string, int> drv; std::map<std::string, std::string> init; std::map<std::string, std::pair<u32, std::vector<std::string>>> lut; std::map<std::string, std::string> lutout; u32 luts = 0, ands = 0;
  std::string at(size_t i) const { return i < tok.size() ? tok[i] : ""; }
  bool is(char const *s) const { return p < tok.size() && !esc[p] && tok[p] == s; }
  void eat(char const *s) { require(is(s), std::string("Verilog: expected '") + s + "' but found '" + at(p) + "' after '" + (p ? at(p - 1) : "") + "'"); ++p; }
  bool isid() const { return p < tok.size() && (esc[p] || isalpha(tok[p][0]) || tok[p][0] == '_'); }
  std::string id() { require(isid() && (esc[p] || !verilog_keyword(tok[p])), "Verilog: expected an identifier but found '" + at(p) + "' after '" + (p ? at(p - 1) : "") + "'"); return tok[p++]; }
  void lex(std::string const &s) {
    for (size_t i = 0; i < s.size();) { char c = s[i]; if (isspace(c)) { ++i; continue; }
      size_t j = i + 1; if (c == '\\') { while (j < s.size() && !isspace(s[j])) ++j; require(j > i + 1 && j < s.size(), "Verilog: bad escaped identifier"); tok.push_back(s.substr(i + 1, j - i - 1)); esc.push_back(1); i = j; continue; }
      if (isalpha(c) || c == '_') { while (j < s.size() && (isalnum(s[j]) || s[j] == '_' || s[j] == '$')) ++j; }
      else if (isdigit(c)) { while (j < s.size() && (isalnum(s[j]) || s[j] == '\'')) ++j; }
      else require(strchr("(),;=~&|^.[]:", c), std::string("Verilog: unexpected character '") + c + "'");
      tok.push_back(s.substr(i, j - i)); esc.push_back(0); i = j; } }
  std::string ref() { std::string n = id(); if (is("[")) { eat("["); n += "[" + at(p++) + "]"; eat("]"); } return n; }
  int prim() { if (is("~")) { ++p; int k = prim(); ex.push_back({'~', "", {k}}); return ex.size() - 1; } if (is("(")) { ++p; int k = orx(); eat(")"); return k; } if (p < tok.size() && !esc[p] && isdigit(tok[p][0])) { require(tok[p] == "1'b0" || tok[p] == "1'b1", "Verilog: bad constant " + tok[p]); ex.push_back({tok[p++][3], "", {}}); return ex.size() - 1; } std::string n = ref(); ex.push_back({'v', n, {}}); return ex.size() - 1; }
  int bin(char const *op, std::function<int()> sub) { int k = sub(); while (is(op)) { ++p; int m = sub(); ex.push_back({op[0], "", {k, m}}); k = ex.size() - 1; if (op[0] == '&') ++ands; } return k; }
  int orx() { return bin("|", [&] { return bin("^", [&] { return bin("&", [&] { return prim(); }); }); }); }
  void drive(std::string const &n, int e) { auto b = n.substr(0, n.find('[')); require(dir.count(n) || (n != b && dir.count(b)), "Verilog: '" + n + "' is driven but not declared"); require((dir.count(n) ? dir[n] : dir[b]) != 1, "Verilog: an input is driven"); require(drv.emplace(n, e).second, "Verilog: '" + n + "' is driven twice"); }
  void parse(std::string const &text) {
    lex(text); eat("module"); module = id(); eat("("); if (!is(")")) { ports.push_back(id()); while (is(",")) { ++p; ports.push_back(id()); } } eat(")"); eat(";");
    while (!is("endmodule")) {
      if (is("input") || is("output") || is("wire")) { int d = is("input") ? 1 : is("output") ? 2 : 3; ++p; u32 w = 0; if (is("[")) { ++p; w = atoi(at(p++).c_str()) + 1; eat(":"); require(at(p++) == "0", "Verilog: range"); eat("]"); }
        do { std::string n = id(); require(dir.emplace(n, d).second, "Verilog: '" + n + "' is declared twice"); width[n] = w; } while (is(",") && ++p); eat(";"); }
      else if (is("assign")) { ++p; std::string n = ref(); eat("="); int e = orx(); eat(";"); drive(n, e); }
      else if (is("defparam")) { ++p; std::string n = id(); eat("."); require(id() == "INIT", "Verilog: defparam"); eat("="); require(init.emplace(n, at(p++)).second, "Verilog: INIT given twice"); eat(";"); }
      else { bool e = p < tok.size() && esc[p]; std::string g = id(); require(!e && g.size() > 3 && g.substr(0, 3) == "LUT", "Verilog: unknown item '" + g + "'"); u32 k = atoi(g.c_str() + 3); std::string n = id(); std::vector<std::string> a; eat("("); a.push_back(ref()); while (is(",")) { ++p; a.push_back(ref()); } eat(")"); eat(";");
        require(a.size() == k + 1, "Verilog: " + g + " with " + std::to_string(a.size()) + " connections"); std::string o = a.back(); a.pop_back(); require(lut.emplace(n, std::make_pair(k, a)).second, "Verilog: instance name used twice"); ex.push_back({'L', n, {}}); drive(o, ex.size() - 1); ++luts; }
    }
    eat("endmodule"); require(p == tok.size(), "Verilog: text after endmodule"); std::set<std::string> seen;
    for (auto &n : ports) { require(dir.count(n) && dir[n] != 3, "Verilog: port '" + n + "' has no direction"); require(seen.insert(n).second, "Verilog: port listed twice"); auto &v = dir[n] == 1 ? in : out; if (!width[n]) v.push_back(n); else for (u32 i = 0; i < width[n]; ++i) v.push_back(n + "[" + std::to_string(i) + "]"); }
    for (auto &[n, d] : dir) if (d != 3) require(seen.count(n), "Verilog: '" + n + "' is not in the port list");
    for (auto &l : lut) require(!dir.count(l.first), "Verilog: '" + l.first + "' is an instance and a net");
    require(init.size() == lut.size(), "Verilog: an INIT is missing");
  }
  std::vector<TT> eval() {
    u32 npi = in.size(); std::map<std::string, TT> val; std::map<std::string, int> st; for (u32 i = 0; i < npi; ++i) { val[in[i]] = TT::var(npi, i); st[in[i]] = 2; }
    std::function<void(std::string const &)> net; std::function<TT(int)> f = [&](int e) -> TT { auto &x = ex[e]; switch (x.op) {
      case '~': return ~f(x.k[0]); case '0': return TT(npi); case '1': return ~TT(npi); case '&': return f(x.k[0]) & f(x.k[1]); case '|': return f(x.k[0]) | f(x.k[1]); case '^': return f(x.k[0]) ^ f(x.k[1]); case 'v': net(x.n); return val[x.n];
      default: { auto &[k, a] = lut[x.n]; auto it = init.find(x.n); require(it != init.end(), "Verilog: no INIT for " + x.n); std::string pre = std::to_string(1u << k) + "'h"; require(it->second.substr(0, pre.size()) == pre, "Verilog: INIT " + it->second + " of a LUT with " + std::to_string(k) + " inputs"); std::string hx = it->second.substr(pre.size()); require(hx.size() == std::max(1u, (1u << k) / 4), "Verilog: INIT has " + std::to_string(hx.size()) + " digits");
        std::vector<TT> iv; for (auto &s : a) { net(s); iv.push_back(val[s]); } TT r(npi); for (u64 m = 0; m < (u64(1) << k); ++m) { char c = hx[hx.size() - 1 - m / 4]; int d = isdigit(c) ? c - '0' : tolower(c) - 'a' + 10; require(d >= 0 && d < 16, "Verilog: bad digit"); if (k < 2) require(d < (1 << (1 << k)), "Verilog: INIT wider than the LUT"); if (d >> (m & 3) & 1) { TT c2 = ~TT(npi); for (u32 j = 0; j < k; ++j) c2 = c2 & (m >> j & 1 ? iv[j] : ~iv[j]); r = r | c2; } } return r; } } };
    net = [&](std::string const &n) { if (st[n] == 2) return; require(st[n] != 1, "Verilog: combinational cycle"); require(dir.count(n) || dir.count(n.substr(0, n.find('['))), "Verilog: '" + n + "' is not declared"); auto it = drv.find(n); require(it != drv.end(), "Verilog: '" + n + "' is read but not driven"); st[n] = 1; TT t = f(it->second); val[n] = t; st[n] = 2; };
    std::vector<TT> r; for (auto &n : out) { net(n); r.push_back(val[n]); } for (auto &[n, e] : drv) net(n); return r;
  }
};
} // namespace vf

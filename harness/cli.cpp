// C16-C18, C20: the command shell as a transition system. The real commands are executed in-process; every state of a
// session is a process, a transition is a fork that executes one command, and states already seen are not expanded again.
#define ALICE_CINTERFACE
#include "cli/imap.cpp"
#include "formats.hpp"
#include "lut.hpp"
#include <malloc.h>
using namespace vf;
namespace {
std::string scratch; // directory of this process tree
std::string file_of(int i) { return scratch + "/f" + std::to_string(i); }
std::string slurp(std::string const &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Cmd { std::string text; char kind; int a = 0, b = 0; };
struct AigObs { std::string bytes, sig; u32 gates = 0; };
struct Obs { bool aig = false, klut = false, ports = false; AigObs cur; std::vector<std::string> hist; std::string lut, lutsig, names; u32 luts = 0; bool operator==(Obs const &o) const { return aig == o.aig && klut == o.klut && ports == o.ports && cur.bytes == o.cur.bytes && hist == o.hist && lut == o.lut && lutsig == o.lutsig && luts == o.luts && names == o.names; } };
cli_t *shell = nullptr; int memfd = -1;
// model of the session
struct Model { int file = -1; std::vector<std::string> hist; } model; std::vector<Spec> files; std::vector<std::vector<TT>> fun; Obs cur;
Runner *R; std::string head; std::vector<Cmd> alphabet; std::vector<std::string> path;

AigObs look(Aig const &a) {
  AigObs o; std::ostringstream s; iFPGA::write_aiger(a, s); o.bytes = s.str(); o.gates = a.num_gates();
  std::string g; a.foreach_pi([&](auto n) { g += std::to_string(n) + ","; }); g += ":"; std::vector<u64> ns; a.foreach_gate([&](auto n) { ns.push_back(n); });
  for (u64 n : ns) { auto x = a.get_child0(n), y = a.get_child1(n); g += std::to_string(n) + "=" + std::to_string(2 * x.index + x.complement) + "." + std::to_string(2 * y.index + y.complement) + "," ; } g += ":"; a.foreach_po([&](Aig::signal const &f) { g += std::to_string(2 * f.index + f.complement) + ","; }); o.sig = g + "#" + std::to_string(a.size()); return o;
}
Obs observe() {
  Obs o; auto &A = shell->env->store<Aig>(); auto &K = shell->env->store<Klut>(); auto &P = shell->env->store<iFPGA::write_verilog_params>();
  iFPGA::write_verilog_params const ps = P.empty() ? iFPGA::write_verilog_params{} : P.current(); o.ports = !P.empty(); for (auto &[n, w] : ps.input_names) o.names += n + "/" + std::to_string(w) + ";"; o.names += "|"; for (auto &[n, w] : ps.output_names) o.names += n + "/" + std::to_string(w) + ";";
  if (!A.empty()) { o.aig = true; o.cur = look(A.current()); for (int i = 0; i < (int)A.size(); ++i) if (i != A.current_index()) o.hist.push_back(look(A[i]).bytes); }
  if (!K.empty()) { o.klut = true; Klut const &k = K.current(); o.luts = k.num_gates(); std::ostringstream s; iFPGA::write_lut(k, s, ps); o.lut = s.str(); o.lutsig = std::to_string(k.size()) + "/" + std::to_string(k.num_pis()) + "/" + std::to_string(k.num_pos()); k.foreach_node([&](auto n) { o.lutsig += "," + std::to_string(n); k.foreach_fanin(n, [&](auto f) { o.lutsig += "." + std::to_string(k.get_node(f)); }); }); }
  return o;
}
struct Capture { int o1, o2; off_t from; Capture() { fflush(stdout); fflush(stderr); std::cout.flush(); o1 = dup(1); o2 = dup(2); from = lseek(memfd, 0, SEEK_END); dup2(memfd, 1); dup2(memfd, 2); } ~Capture() { fin(); } void fin() { if (o1 < 0) return; fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); o1 = -1; } std::string text() { fin(); off_t e = lseek(memfd, 0, SEEK_END); std::string s(e - from, 0); ssize_t r = pread(memfd, &s[0], s.size(), from); (void)r; return s; } };
struct Entry { std::atomic<u64> key; u64 val; int rem; char path[236]; };
struct Table { Entry e[1 << 16]; };
Table *seen = nullptr, *memo = nullptr;
Entry *slot(Table *t, u64 k) { if (!k) k = 1; for (u64 i = k & 0xffff, c = 0; c < 0x10000; ++c, i = (i + 1) & 0xffff) { if (t->e[i].key == 0 || t->e[i].key == k) return &t->e[i]; } return nullptr; }
std::string joined() { std::string s; for (auto &p : path) s += (s.empty() ? "" : ";") + p; return s; }
std::string subst(std::string t, std::string const &out) { size_t p = t.find('%'); if (p != std::string::npos) t.replace(p, 1, out); for (int i = 0; i < 3; ++i) { std::string k = "@" + std::to_string(i); p = t.find(k); if (p != std::string::npos) t.replace(p, 2, file_of(i)); } return t; }
std::vector<u32> numbers(std::string const &s) { std::vector<u32> r; for (size_t i = 0; i < s.size();) { if (isdigit(s[i])) { r.push_back(atoi(&s[i])); while (i < s.size() && isdigit(s[i])) ++i; } else ++i; } return r; }

void step(Cmd const &c) { // executes one command and checks it against the model
  Obs pre = cur; Model m0 = model; std::string out = scratch + "/out"; unlink(out.c_str()); std::string txt = subst(c.text, out), said; int rc;
  mallopt(M_PERTURB, 1 + (hashS(joined()) % 200)); // uninitialised memory differs between histories
  { Capture cap; rc = imap_command(shell, txt.c_str(), nullptr, 0); said = cap.text(); }
  cur = observe(); bool loaded = model.file >= 0; std::string file = slurp(out); bool wrote = access(out.c_str(), F_OK) == 0;
  auto same = [&](bool a, bool h, bool k) { require(!a || cur.cur.bytes == pre.cur.bytes, "the current AIG changed"); require(!a || cur.aig == pre.aig, "the AIG store changed"); require(!h || cur.hist == pre.hist, "a history AIG changed"); require(!k || (cur.klut == pre.klut && cur.lut == pre.lut && cur.lutsig == pre.lutsig && cur.luts == pre.luts), "the mapping result changed"); require(cur.names == pre.names && cur.ports == pre.ports, "port names changed"); };
  auto refuse = [&](char const *w) { require(cur == pre && cur.cur.sig == pre.cur.sig, std::string(w) + " changed the session"); require(!said.empty() || rc < 0, std::string(w) + " is not reported"); require(!wrote, std::string(w) + " wrote a file"); };
  if (c.kind == 'X') { refuse("an invalid command"); return; }
  if (!loaded && c.kind != 'R') { refuse("a command without a network"); return; }
  if (strchr("PfD", c.kind) && !pre.klut) { refuse("a command without a mapping result"); return; }
  require(rc == 0, "command fails: " + said.substr(0, 200)); Spec const *sp = nullptr; std::vector<TT> const *F = nullptr;
  if (c.kind == 'R') { model.file = c.a; model.hist.clear(); } if (model.file >= 0) { sp = &files[model.file]; F = &fun[model.file]; }
  auto check_cur = [&] { auto d = decode_aiger(cur.cur.bytes); require((u32)d.s.npi == (u32)sp->npi, "number of inputs changed"); same_functions(*F, d.s.tt(), "current AIG"); same_functions(*F, sim_aig(shell->env->store<Aig>().current(), sp->npi), "current AIG"); return d; };
  auto refs = [&] { for (auto &h : cur.hist) if (h != look(Aig()).bytes) { auto d = decode_aiger(h); require(d.s.npi == sp->npi, "history: number of inputs"); same_functions(*F, d.s.tt(), "history AIG"); } };
  switch (c.kind) {
  case 'R': { auto d = check_cur(); require(!cur.klut, "a mapping result survives reading another file"); for (auto &h : cur.hist) require(h == look(Aig()).bytes, "a history AIG survives reading another file"); std::string w; if (c.a == 0) { for (int i = 0; i < sp->npi; ++i) w += "in_" + std::string(1, 'a' + i) + "/0;"; w += "|"; for (size_t i = 0; i < sp->po.size(); ++i) w += "out_" + std::string(1, 'a' + i) + "/0;"; } else w = "|"; require(cur.names == w, "port names are " + cur.names + " instead of " + w); require(d.s.g.size() <= sp->g.size(), "reading adds gates"); break; }
  case 'O': case 'B': case 'C': { auto d = check_cur(); same(false, true, true); if (c.kind == 'B') require(d.s.depth() <= decode_aiger(pre.cur.bytes).s.depth(), "balance increases the depth"); if (c.kind == 'C') require(d.s.g.size() <= pre.cur.gates && d.s.g.size() == area_aig(shell->env->store<Aig>().current()), "cleanup leaves dangling gates"); break; }
  case 'M': case 'm': { same(true, true, false); require(cur.klut, "no mapping result"); auto i = sim_klut(shell->env->store<Klut>().current(), sp->npi, c.a); same_functions(*F, i.po, "mapping result"); if (c.text.find("-t 1") != std::string::npos) { bool some = false; for (auto &h : model.hist) some |= decode_aiger(h).s.g.size() > 0; bool told = said.find("no another history") != std::string::npos; if (some || model.hist.empty()) require(told != some, some ? "mapping with choices does not use the history" : "mapping with choices without a history is not reported"); } break; }
  case 'p': case 'P': { require(cur == pre, "print_stats changed the session"); auto n = numbers(said); require(said.find(c.kind == 'p' ? "AIG" : "FPGA") != std::string::npos && n.size() == 4, "print_stats says: " + said.substr(0, 100)); require(n[0] == (u32)sp->npi && n[1] == sp->po.size(), "print_stats: wrong number of ports");
    if (c.kind == 'p') { auto d = decode_aiger(cur.cur.bytes); require(n[2] == d.s.g.size(), "print_stats: area " + std::to_string(n[2]) + ", but the AIG has " + std::to_string(d.s.g.size()) + " gates"); require(n[3] == d.s.depth(), "print_stats: depth " + std::to_string(n[3]) + " instead of " + std::to_string(d.s.depth())); }
    else { auto i = sim_klut(shell->env->store<Klut>().current(), sp->npi); require(n[2] == i.luts, "print_stats: area " + std::to_string(n[2]) + ", but there are " + std::to_string(i.luts) + " LUTs"); require(n[3] == i.depth, "print_stats: LUT depth " + std::to_string(n[3]) + " instead of " + std::to_string(i.depth)); } break; }
  case 'a': { require(cur == pre, "write_aiger changed the session"); require(file == cur.cur.bytes, "write_aiger wrote something else"); same_functions(*F, decode_aiger(file).s.tt(), "write_aiger"); break; }
  case 'f': case 'v': { require(cur == pre, "a Verilog export changed the session"); Verilog v; v.parse(file); require(v.in.size() == (u32)sp->npi, "Verilog: number of inputs"); same_functions(*F, v.eval(), "Verilog export"); if (c.kind == 'f') { require(v.luts == cur.luts, "number of LUTs in the netlist"); if (model.file == 0) { for (int i = 0; i < sp->npi; ++i) require(v.in[i] == "in_" + std::string(1, 'a' + i), "name of input " + std::to_string(i)); for (size_t i = 0; i < sp->po.size(); ++i) require(v.out[i] == "out_" + std::string(1, 'a' + i), "name of output " + std::to_string(i)); } } break; }
  case 'd': case 'D': { require(cur == pre, "write_dot changed the session"); require(file.substr(0, 9) == "digraph {" && file.find("rank") != std::string::npos, "no drawing"); break; }
  case '+': { same(true, false, true); if (model.hist.size() < 5) model.hist.push_back(pre.cur.bytes); else require(said.find("WARN") != std::string::npos, "a full history is not reported"); break; }
  case '=': { same(true, false, true); if (c.a < (int)model.hist.size()) model.hist[c.a] = pre.cur.bytes; else require(said.find("WARN") != std::string::npos, "an invalid history index is not reported"); break; }
  case '-': { same(true, false, true); model.hist.clear(); break; }
  case 's': { require(cur == pre, "history -s changed the session"); break; }
  default: fail("bad command"); }
  if (strchr("+=-s", c.kind) && c.text.find("-s") != std::string::npos) require(numbers(said).size() >= 1 && numbers(said).back() == model.hist.size(), "history size reported as '" + said.substr(0, 80) + "' instead of " + std::to_string(model.hist.size()));
  std::string none = look(Aig()).bytes; for (size_t i = 0; i < cur.hist.size(); ++i) require(cur.hist[i] == (i < model.hist.size() ? model.hist[i] : none), "history AIG " + std::to_string(i) + (i < model.hist.size() ? " is not the AIG that was stored there" : " is not empty")); refs();
  if (R->prop == "C20" && memo && strchr("OBCMmpPvd", c.kind)) { // the effect depends on the networks and the options of this call only
    bool lutcmd = strchr("P", c.kind), hist = c.kind == 'm'; std::string in = c.text + "\n" + (lutcmd ? pre.lutsig + pre.lut : hist ? "" : pre.cur.sig); if (hist) { for (auto &h : pre.hist) in += h; in += pre.cur.sig; }
    std::string res = strchr("OBC", c.kind) ? cur.cur.bytes : strchr("Mm", c.kind) ? cur.lut.substr(cur.lut.find('(') == std::string::npos ? 0 : 0) + cur.lutsig : strchr("pP", c.kind) ? said : file;
    if (strchr("Mm", c.kind)) in += cur.names; u64 k = hashS(in, 0x77), v = hashS(res, 0x99); R->count(3); Entry *e = slot(memo, k); if (e && !e->key) { e->val = v; std::string p = joined(); strncpy(e->path, p.c_str(), sizeof e->path - 1); e->key = k ? k : 1; } else if (e && e->val != v) fail("'" + c.text + "' gives a different result after [" + std::string(e->path) + "] on the same network"); }
}
u64 state_key() { std::string s = std::to_string(model.file) + cur.cur.sig + "\n"; for (auto &h : cur.hist) s += h; s += "\n" + cur.lutsig + cur.lut + cur.names; if (path.size()) s += path.back(); return hashS(s, 5); }
void crashed(std::string const &m) { R->report(head + joined(), m); }
void explore(int left) {
  for (auto &c : alphabet) {
    if (R->sh->stop) return; R->sh->slot[R->w].beat++; off_t from = lseek(memfd, 0, SEEK_END); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      path.push_back(c.text); alarm(120); int rcod = 0; R->count(1); R->count(2);
      try { step(c); } catch (Fail const &e) { crashed(e.what()); rcod = 1; } catch (std::exception const &e) { crashed(std::string("exception: ") + e.what()); rcod = 1; } catch (std::string const &e) { crashed("exception: " + e); rcod = 1; } catch (...) { crashed("unknown exception"); rcod = 1; }
      if (rcod) _exit(1); alarm(0); u64 k = state_key(); R->nontrivial(k); Entry *e = slot(seen, k); if (!e) { crashed("state table full"); _exit(1); } bool fresh = !e->key; if (fresh) { e->key = k ? k : 1; e->rem = 0; R->count(0); }
      if (left > 1 && (fresh || e->rem < left - 1)) { e->rem = left - 1; explore(left - 1); }
      _exit(0);
    }
    int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) continue;
    off_t e = lseek(memfd, 0, SEEK_END); std::string t(e - from, 0); ssize_t r = pread(memfd, &t[0], t.size(), from); (void)r; size_t q = t.find("Assertion"); path.push_back(c.text); crashed(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not terminate" : q != std::string::npos ? "crash: " + t.substr(q, 200) : "crash: " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)))); path.pop_back();
  }
}
std::vector<Cmd> make_alphabet(std::string const &n) {
  std::vector<Cmd> rd{{"read_aiger -f @0", 'R', 0}, {"read_aiger -f @1", 'R', 1}};
  std::vector<Cmd> opt{{"rewrite", 'O'}, {"rewrite -z", 'O'}, {"rewrite -C 3 -P 6 -l", 'O'}, {"refactor", 'O'}, {"refactor -z -l", 'O'}, {"refactor -I 4 -C 5", 'O'}, {"balance", 'B'}, {"lut_opt", 'O'}, {"lut_opt -C 4 -P 6 -z", 'O'}, {"lut_opt -C 2 -G 2 -L 3", 'O'}, {"cleanup", 'C'}};
  std::vector<Cmd> mp{{"map_fpga", 'M', 6}, {"map_fpga -C 3 -P 6", 'M', 3}, {"map_fpga -C 4 -G 2 -L 3", 'M', 4}};
  std::vector<Cmd> obs{{"print_stats", 'p'}, {"print_stats -t 1", 'P'}, {"write_aiger -f %", 'a'}, {"write_fpga -f %", 'f'}, {"write_primary -f %", 'v'}, {"write_dot -f %", 'd'}, {"write_dot -t 1 -f %", 'D'}};
  std::vector<Cmd> bad{{"read_aiger -f @2", 'X'}, {"rewrite -P 5", 'X'}, {"rewrite -C 5", 'X'}, {"refactor -I 13", 'X'}, {"refactor -C 21", 'X'}, {"lut_opt -C 7", 'X'}, {"lut_opt -P 21", 'X'}, {"lut_opt -G 3", 'X'}, {"lut_opt -L 0", 'X'}, {"map_fpga -C 1", 'X'}, {"map_fpga -P 5", 'X'}, {"map_fpga -G 0", 'X'}, {"map_fpga -L 4", 'X'}, {"map_fpga -t 2", 'X'}, {"print_stats -t 3", 'X'}, {"write_dot -t 3 -f %", 'X'}, {"write_primary -t 3 -f %", 'X'}, {"balance -q", 'X'}, {"rewrite -C x", 'X'}, {"nonsense", 'X'}};
  std::vector<Cmd> hi{{"history -a", '+'}, {"history -a -s", '+'}, {"history -r 0", '=', 0}, {"history -r 2", '=', 2}, {"history -r 4", '=', 4}, {"history -c", '-'}, {"history -s", 's'}};
  std::vector<Cmd> r; auto add = [&](std::vector<Cmd> const &v, std::initializer_list<int> ix = {}) { if (!ix.size()) r.insert(r.end(), v.begin(), v.end()); for (int i : ix) r.push_back(v[i]); };
  if (n == "opt") { add(rd); add(opt); add(mp); }
  else if (n == "optc") { add(opt, {3, 4, 5, 6, 7, 8, 9, 10}); add(mp, {0, 1}); }  // without the slow command
  else if (n == "optr") { add(opt, {0, 1, 2, 4, 6, 8}); }
  else if (n == "hist") { add(rd); add(hi); add(opt, {4, 6, 8}); r.push_back({"map_fpga -t 1", 'm', 6}); }
  else if (n == "histc") { add(hi, {0, 2, 3, 5, 6}); add(opt, {6, 9}); add(rd, {1}); r.push_back({"map_fpga -t 1 -C 4", 'm', 4}); }
  else if (n == "histw") { add(hi, {0, 3, 5}); add(opt, {0, 1, 4}); r.push_back({"map_fpga -t 1", 'm', 6}); }
  else if (n == "full") { add(hi, {0, 4, 5, 6}); add(opt, {9}); add(rd, {1}); }
  else if (n == "obs") { add(rd); add(obs); add(bad); add(mp, {1}); add(opt, {4}); r.push_back({"history -r 7", 'X'}); add(hi, {0}); }
  else if (n == "pure") { add(rd, {0}); add(obs); add(mp, {0, 1}); add(opt, {6, 9}); add(bad, {0, 11}); }
  else if (n == "leak") { add(rd, {0}); add(opt, {0, 1, 2, 3, 4, 5, 7, 8, 9}); add(mp, {0, 1}); add(bad, {2, 3, 5, 13}); add(obs, {0, 1, 4}); r.push_back({"refactor -l", 'O'}); r.push_back({"lut_opt -z", 'O'}); }
  else if (n == "leakr") { add(rd, {0}); add(opt, {0, 1, 2}); add(bad, {1, 2}); }
  else if (n == "leakc") { add(rd, {0, 1}); add(opt, {3, 4, 7, 8, 9, 6}); add(mp, {0, 1, 2}); add(bad, {4, 7, 13}); add(obs, {0, 1}); add(hi, {0, 5}); r.push_back({"refactor -l", 'O'}); r.push_back({"map_fpga -t 1", 'm', 6}); r.push_back({"map_fpga -t 1 -C 3", 'm', 3}); }
  else fail("bad alphabet " + n); return r;
}
std::string aiger_with_names(Spec const &s) { std::string b = encode_aiger(s); for (int i = 0; i < s.npi; ++i) b += "i" + std::to_string(i) + " in_" + std::string(1, 'a' + i) + "\n"; for (size_t i = 0; i < s.po.size(); ++i) b += "o" + std::to_string(i) + " out_" + std::string(1, 'a' + i) + "\n"; return b; }
void one(std::string const &s) { // spec0;spec1|alphabet|depth|commands  (commands empty: explore)
  auto f = split(s + "| ", '|'); auto sp = split(f[0], ';'); files = {Spec::parse(sp[0]), Spec::parse(sp[1])}; fun = {files[0].tt(), files[1].tt()}; head = f[0] + "|" + f[1] + "|" + f[2] + "|"; path.clear();
  char const *e = getenv("VERIF_BUILD"); scratch = std::string(e ? e : "/tmp") + "/cliXXXXXX"; require(mkdtemp(&scratch[0]), "no scratch directory"); struct Rm { std::string d; ~Rm() { for (auto n : {"/f0", "/f1", "/out"}) unlink((d + n).c_str()); rmdir(d.c_str()); } } rm{scratch};
  { std::ofstream o(file_of(0), std::ios::binary); o << aiger_with_names(files[0]); } { std::ofstream o(file_of(1), std::ios::binary); o << encode_aiger(files[1]); }
  if (memfd < 0) memfd = memfd_create("out", 0); if (ftruncate(memfd, 0)) {} shell = (cli_t *)imap_create(); model = Model(); cur = observe(); alphabet = make_alphabet(f[1]);
  auto start = [&] { model = Model(); if (shell) imap_delete(shell); shell = (cli_t *)imap_create(); cur = observe(); path.clear(); };
  auto pre = [&] { if (f[1] != "obs" && f[1] != "opt" && f[1] != "hist") { path.push_back("read_aiger -f @0"); step({"read_aiger -f @0", 'R', 0}); path.pop_back(); } };
  auto table = [&] { return (Table *)mmap(0, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  bool lin = f.size() > 4 && !f[3].empty() && f[3] != " "; memo = R->prop == "C20" ? table() : nullptr; struct Un { ~Un() { if (memo) munmap(memo, sizeof(Table)); if (seen) munmap(seen, sizeof(Table)); memo = seen = nullptr; if (shell) imap_delete(shell); shell = nullptr; } } un;
  if (lin) { std::vector<std::vector<Cmd>> runs; for (auto &part : split(f[3], '/')) { runs.emplace_back(); for (auto &t : split(part, ';')) { bool ok = false; for (auto &c : alphabet) if (c.text == t) { runs.back().push_back(c); ok = true; break; } require(ok, "command not in the alphabet: " + t); } }
    // C20: every command is also run alone on a file with the same network first, through the memo of the prefix runs
    if (R->prop == "C20") { std::vector<Cmd> last{runs.back().back()}; for (auto &a : alphabet) if (a.kind == 'R' || strchr("OBC", a.kind)) { start(); try { pre(); step(a); path.push_back(a.text); step(last[0]); } catch (Fail const &) {} } start(); try { pre(); step(last[0]); } catch (Fail const &) {} start(); }
    else { pre(); for (auto &run : runs) { for (auto &c : run) { path.push_back(c.text); step(c); } } return; }
    pre(); for (auto &c : runs.back()) { path.push_back(c.text); step(c); } return; }
  pre(); seen = table(); explore(atoi(f[2].c_str()));
}
} // namespace
int main(int argc, char **argv) {
  Runner r; R = &r; r.tmo = 240; r.level = "model_checking"; r.one = one; std::string P = "C16"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") P = argv[i + 1]; r.prop = P;
  r.extra_names = {"", "", "", "determinism_comparisons"};
  r.assumptions = {"combinational circuits with few inputs; commands of the listed alphabets; one file name per kind of file", "states are identified by the complete AIG structure, the history AIGs, the mapping result, the port names and the last command"};
  std::map<std::string, std::string> rules{{"C16", "every sequence of reading, optimisation and mapping commands up to the depth is executed on the real shell; after each the current AIG and the mapping result must compute the functions of the file read last, the rest of the session is unchanged"}, {"C17", "every sequence of history, reading, optimisation and choice mapping commands up to the depth; after each the history must hold exactly the AIGs that were current when they were stored"}, {"C18", "every sequence of printing, exporting and invalid commands mixed with commands that change the networks, from the empty session; printing, exporting and invalid commands must not change anything and what they say must be true"}, {"C20", "every sequence of commands with different options; the same command on the same network must always have the same result whatever was done before in the session"}};
  r.rule = rules[P];
  r.enumerate = [&](Runner &) {
    bool th = r.thorough(); std::vector<std::string> S{
      "3:2.4,2.5,6.8,9.11,3.7,13.14:13,15,", // shared logic with a redundancy
      "4:2.4,3.5,11.13,6.14,7.15,17.19,8.20,9.21,23.25:26,14,1,", // parity chain and a constant
      "2::0,1,2,5,", "1::3,3,", "0::0,1,",
      "5:2.4,12.6,14.8,16.10,3.5,20.7,22.9,19.25:26,24,", // deep chains
      "3:2.4,2.6,4.6,9.11,13.14:17,16,", // majority
      "4:2.4,2.5,3.4,10.6,12.8,14.7,17.19,22.21:25,17,"}; std::string other = "3:2.5,4.7,9.11:13,8,"; // another file
    auto add = [&](std::string const &alph, int d, std::vector<int> which) { r.family(alph + " depth " + std::to_string(d)); for (int i : which) r.add(S[i] + ";" + other + "|" + alph + "|" + std::to_string(d) + "|"); };
    if (P == "C16") { add("opt", th ? 4 : 2, {0, 1, 2, 3, 5, 6, 7, 4}); if (!th) add("opt", 3, {0, 6}); add("optr", th ? 5 : 3, {0, 1, 7, 5, 6}); add("optc", th ? 7 : 5, {0, 1, 2, 3, 4, 5, 6, 7}); }
    else if (P == "C17") { add("hist", th ? 5 : 4, {0, 1, 5, 7, 2, 3, 4, 6}); add("histc", th ? 7 : 5, {0, 1, 5, 7, 6, 2, 3, 4}); add("histw", th ? 5 : 3, {0, 1, 5, 7, 6}); add("full", th ? 9 : 7, {0, 1, 5, 2}); }
    else if (P == "C18") { add("obs", th ? 4 : 3, {0, 1, 2, 3, 4, 5, 6, 7}); add("pure", th ? 5 : 4, {0, 1, 2, 3, 4, 5, 6, 7}); }
    else { add("leak", th ? 4 : 2, {0, 1, 2, 5, 6, 7}); add("leakr", th ? 4 : 3, {0, 1, 6, 7}); add("leakc", th ? 5 : 4, {0, 1, 3, 5, 6, 7}); }
  };
  return r.main(argc, argv);
}

// Turns a replay file into the data of a stand-alone demonstration (grammar, script, tool arguments).
#include "exec.h"
#include <sys/stat.h>
static string q(const vector<int> &v, int term) { string s = "{"; for (int x : v) s += " " + std::to_string(x) + ","; s += " " + std::to_string(term) + " }"; return s; }
int exportDemo(const Case &c, const string &dir) {
  mkdir(dir.c_str(), 0755); if (c.runs.empty()) { fprintf(stderr, "a build-only case has no script\n"); }
  Run r = c.runs.empty() ? Run() : c.runs[0]; if (r.inst.empty()) r.inst.resize(1);
  std::ostringstream o; size_t n = r.inst.size(), ms = 1; for (auto &s : r.inst) ms = std::max(ms, s.streams.size());
  o << "#define DIALECT " << c.g.dialect << "\n#define NINST " << n << "\n#define SCHED " << r.sched << "ULL\n";
  o << "static const int S_sched[] = " << q(r.schedList, -1) << ";\nstatic const int S_n[] = {"; for (auto &s : r.inst) o << " " << s.streams.size() << ","; o << " };\n";
  o << "static const int S_len[" << n << "][" << ms << "] = {"; for (auto &s : r.inst) { o << " {"; for (auto &t : s.streams) o << " " << t.size() << ","; o << " },"; } o << " };\n";
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < ms; k++) { o << "static const int T" << i << "_" << k << "[] = {"; if (k < r.inst[i].streams.size()) for (auto &t : r.inst[i].streams[k]) { int sym = t.sym, tag = -1; if (sym >= 2) tag = c.g.syms[sym].tag; if (tag < 0) tag = 0; o << " " << sym << "," << t.rawCode << "," << tag << ","; } o << " 0 };\n"; }
  o << "static const int *const S_tok[" << n << "][" << ms << "] = {"; for (size_t i = 0; i < n; i++) { o << " {"; for (size_t k = 0; k < ms; k++) o << " T" << i << "_" << k << ","; o << " },"; } o << " };\n";
  auto arr = [&](const char *nm, auto get) { size_t mx = 1; for (auto &s : r.inst) mx = std::max(mx, get(s).size() + 1); o << "static const int " << nm << "[" << n << "][" << mx << "] = {"; for (auto &s : r.inst) o << " " << q(get(s), -1) << ","; o << " };\n"; };
  arr("S_ctl", [](const Script &s) { vector<int> v; for (auto &p : s.ctl) { v.push_back(p.first); v.push_back(p.second); } return v; });
  arr("S_fail", [](const Script &s) { return s.allocFail; });
  o << "static const int S_dyn[] = {"; for (auto &s : r.inst) o << " " << s.dyn << ","; o << " };\nstatic const int S_disc[] = {"; for (auto &s : r.inst) o << " " << s.discardAt << ","; o << " };\n";
  writeFile(dir + "/script.h", o.str()); string a;
  if (c.g.dialect == 0) { writeFile(dir + "/g.y", emitYacc(c)); for (auto &x : yaccArgs(c)) a += x + " "; if (c.o.viaStdin) a += "< g.y"; string b = c.o.base.empty() ? "y" : c.o.base; printf("FLAVOR=%s\nARGS=%s\nSRC=%s\n", c.o.flavor ? "yacc" : "btyacc", a.c_str(), (b + ".tab.c" + (c.o.r ? " " + b + ".code.c" : "")).c_str()); }
  else { writeFile(dir + "/g.lem", emitLemon(c)); for (auto &x : lemonArgs(c)) a += x + " "; string d; for (auto &x : lemonDefs(c)) d += x + " "; writeFile(dir + "/w.c", lemonCodes(c)); printf("ARGS=%s\nDEFS=%s\nTMPL=%s\nDIR=%s\n", a.c_str(), d.c_str(), c.o.ltmpl == 0 ? "lempar.tpl" : c.o.ltmpl == 1 ? "g.lt" : "lempar.c", c.o.d ? "out/" : ""); }
  return 0; }

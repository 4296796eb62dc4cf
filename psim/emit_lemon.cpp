// Writes a Grammar in lemon syntax, instrumented so that the whole environment of the parser is the simulator.
#include "exec.h"
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
static string num(long v) { return std::to_string(v); }
static const char *ctype(const string &t) { return t == "iv" ? "int" : t == "lv" ? "long" : t == "bv" ? "struct simbox" : "void *"; }
namespace {
struct Lay { Rng r; bool on; explicit Lay(int seed) : r((uint64_t)seed * 7919 + 11), on(seed != 0) {}
  string ws() { if (!on) return " "; switch (r.below(15)) { case 0: return "\n"; case 7: return " /*/ \" } . **/"; case 1: return "\t"; case 2: return "  "; case 3: return " /* c . ::= { [ */ "; case 4: return "\n\n   "; case 5: return " // x ' \" {\n"; case 6: return "\n/* a\n * b }\n ** */\n"; default: return " "; } } };
string mangle(const Case &c, int t) { return c.o.base + c.g.syms[t].name; }
string pname(const Case &c) { return c.o.prefix.empty() ? "Parse" : c.o.prefix; }
bool useDef(const Case &c) { return c.g.layout % 4 == 1; }
struct Text {
  const Case &c; const Grammar &g; const Opt &o; Lay L; string S; vector<int> order; set<int> seen; map<vector<int>, string> cls; int expect;
  Text(const Case &c, int expect) : c(c), g(c.g), o(c.o), L(c.g.layout), expect(expect) {}
  void touch(int t) { if (t >= 2 && g.syms[t].term && seen.insert(t).second) order.push_back(t); }
  string tt() const { return g.tags[g.syms[0].tag]; }
  string inst() const { return o.lextra ? "inst" : "sim_cur()"; }
  string nasty(int k) { switch (k % 7) { case 0: return " /* } { \" ' */ sim_note(" + inst() + ", 0, \"} \\\" {\");"; case 1: return " { char c_ = '}'; if (c_ == '\\'') { c_ = '\"'; } sim_note_i(" + inst() + ", 1, c_); } // }}} '\n"; case 2: return " sim_note(" + inst() + ", 2, \"\\\\\\\\\"); {{ ; }} "; case 3: return " { int q_ = 6 /*/ don't } **// 2; // x */ y /*\n sim_note_i(" + inst() + ", 5, q_); }"; case 4: return " sim_note(" + inst() + ", 6, \"/* {\"); sim_note(" + inst() + ", 6, \"*/ // '{\");"; case 5: return " { int d_ = 8, e_ = d_/2; if (d_ == '\\\"' - 26) { sim_note_i(" + inst() + ", 7, e_); } else sim_note_i(" + inst() + ", 7, -1); }"; default: return "\n#define SIMQ(x) x\n sim_note_i(" + inst() + ", 3, SIMQ('{'));\n#undef SIMQ\n"; } }
  struct Blk { string s; vector<int> t; };
  string ref(int t) { touch(t); return g.syms[t].name; }
  void make() {
    bool typed = g.syms[0].tag != 3 || L.r.chance(1, 2); vector<Blk> early, any; auto add = [&](const string &s, vector<int> t = {}) { (L.on && L.r.chance(1, 4) ? any : early).push_back({s, t}); };
    string nl = "\n";
    // classes with names
    { set<vector<int>> all; for (auto &r : g.rules) for (auto &e : r.rhs) if (!e.alts.empty()) all.insert(e.alts); int k = 0; for (auto &a : all) if (L.r.chance(2, 5)) { string n = "tkc" + num(++k); cls[a] = n; string s = "%token_class" + L.ws() + n; for (size_t i = 0; i < a.size(); i++) s += (i ? (L.r.chance(2, 3) ? "|" : L.r.chance(1, 2) ? " /" : " ") : L.ws()) + g.syms[a[i]].name; early.push_back({s + " .\n", a}); } }
    if (!o.prefix.empty()) add("%name" + L.ws() + (L.r.chance(1, 2) ? o.prefix : "{" + o.prefix + "}") + nl);
    if (!o.base.empty()) add("%token_prefix" + L.ws() + o.base + nl);
    if (typed) add("%token_type" + L.ws() + "{" + ctype(tt()) + "}\n");
    if (g.defaultType) add("%default_type" + L.ws() + "{" + ctype(g.tags[g.defaultType - 1]) + "}\n");
    if (o.lextra) add((o.lextra == 1 ? "%extra_argument" : "%extra_context") + L.ws() + (L.r.chance(1, 2) ? "{void *inst}" : "{ void *inst }") + nl);
    if (o.lstack) add("%stack_size" + L.ws() + num(o.lstack < 0 ? 0 : o.lstack) + nl);
    if (g.layout % 3 != 2) add("%expect" + L.ws() + num(std::max(0, expect)) + nl);
    if (o.z && g.layout % 2) add("%yacc_prec\n");
    if (g.hooks & 1) add("%syntax_error {" + L.ws() + "sim_hook(" + inst() + ", 1, yymajor, SIMG_" + tt() + "(TOKEN));" + (o.lextra == 1 && L.on ? " (void) inst; " : "") + "}\n");
    if (g.hooks & 2) add("%parse_failure { sim_hook(" + inst() + ", 2, 0, 0); }\n");
    if (g.hooks & 4) add("%parse_accept" + L.ws() + "{\n  sim_hook(" + inst() + ", 3, 0, 0);\n}\n");
    if (g.hooks & 8) add("%stack_overflow {sim_hook(" + inst() + ", 4, 0, 0);}\n");
    if (g.syms[0].dtor) add("%token_destructor {" + string(L.on ? " /* $} */ " : "") + " int v_ = SIMG_" + tt() + "($$); if (v_) sim_dtor(" + inst() + ", 3000, v_, 0); }\n");
    if (g.defDtor & 1) add("%default_destructor { sim_dtor(" + inst() + ", 2000, *(int *)&($$), 0); }\n");
    for (size_t i = 2; i < g.syms.size(); i++) { const Sym &s = g.syms[i]; if (s.term) continue;
      if (s.tag >= 0) { bool omit = (g.defaultType && s.tag == g.defaultType - 1) || (!g.defaultType && typed && s.tag == g.syms[0].tag); if (!(omit && L.r.chance(1, 2))) add("%type" + L.ws() + s.name + " {" + ctype(g.tags[s.tag]) + "}\n"); }
      if (s.dtor == 3) add("%destructor" + L.ws() + s.name + L.ws() + "{ sim_dtor(" + inst() + ", 2600 + (int) sizeof($$), SIMANY($$), 0); }\n"); else if (s.dtor) add("%destructor" + L.ws() + s.name + L.ws() + "{ sim_dtor(" + inst() + ", " + num(s.dtor == 2 ? 2500 : (int)i + 1) + ", SIMG_" + g.tags[s.tag] + "($$), 0); }\n"); }
    { map<int, vector<int>> fbs; for (size_t i = 2; i < g.syms.size(); i++) if (!g.syms[i].fallback.empty()) fbs[g.syms[i].fallback[0]].push_back((int)i); for (auto &e : fbs) { string s = "%fallback" + L.ws() + g.syms[e.first].name; vector<int> t{e.first}; for (int x : e.second) { s += L.ws() + g.syms[x].name; t.push_back(x); } add(s + ".\n", t); } }
    for (size_t i = 2; i < g.syms.size(); i++) if (g.syms[i].wildcard) add("%wildcard" + L.ws() + g.syms[i].name + ".\n", {(int)i});
    { vector<int> tk; set<int> used; for (auto &r : g.rules) for (auto &e : r.rhs) { used.insert(e.sym); used.insert(e.alts.begin(), e.alts.end()); } for (size_t i = 2; i < g.syms.size(); i++) if (g.syms[i].term && (!used.count((int)i) || L.r.chance(1, 5))) tk.push_back((int)i); if (!tk.empty()) { string s = "%token"; for (int x : tk) s += L.ws() + g.syms[x].name; add(s + ".\n", tk); } }
    for (size_t k = early.size(); k > 1; k--) std::swap(early[k - 1], early[L.r.below((int)k)]);
    // precedence lines keep their order; put them at random places between the others
    { size_t at = 0; for (auto &lv : g.precLevels) { if (lv.empty()) continue; int as = g.syms[lv[0]].assoc; string s = as == A_LEFT ? "%left" : as == A_RIGHT ? "%right" : as == A_NONASSOC ? "%nonassoc" : "%precedence"; for (int t : lv) s += L.ws() + g.syms[t].name; at = at + L.r.below((int)(early.size() - at) + 1); early.insert(early.begin() + at, {s + " .\n", o.u ? vector<int>() : lv}); at++; } }
    string inc = "%include {" + string(L.on && L.r.chance(1, 3) ? "/* } first */\n" : L.on ? "\n\n" : "\n") + "#define SIM_PLAIN\n" + (o.ltrace >= 2 ? "#define SIM_TRACE 1\n" : "") + "#include \"psim_rt.h\"\n}\n";
    if (L.on && L.r.chance(1, 5)) S += "// a comment first\n";
    S += inc; int nb = 0;
    // conditional compilation around text that counts: every condition is one whose value does not depend on the binding of && and ||
    bool D = useDef(c); int cdepth = 0;
    std::function<string(int, bool)> cond = [&](int d, bool want) -> string { Rng &r = L.r; string sp = r.chance(1, 2) ? " " : ""; if (d <= 0 || r.chance(1, 4)) { bool pos = D && r.chance(1, 2); string nm = pos ? r.chance(1, 2) ? "SIM_YES" : "SIM_Y2" : r.chance(1, 2) ? "SIM_NOT" : r.chance(1, 2) ? "SIM_Y" : "SIM_YES_"; return string(pos == want ? r.chance(1, 9) ? "!!" : "" : r.chance(1, 9) ? "!!!" : "!") + nm; }
      auto sub = [&](bool w) { string x = cond(d - 1, w); bool atom = x.find_first_of("&|(") == string::npos; if (!atom && x[0] == '!') { size_t i = x.find('('), j = i; if (x.find_first_of("&|") > i) { int n = 0; for (; j < x.size(); j++) { n += x[j] == '('; n -= x[j] == ')'; if (!n) break; } atom = j + 1 == x.size(); } } return atom && r.chance(2, 3) ? x : "(" + sp + x + ")"; };
      if (r.chance(1, 4)) return "!" + sp + "(" + cond(d - 1, !want) + ")";
      int n = r.range(2, 3), odd = r.below(n); bool conj = r.chance(1, 2); string s; for (int i = 0; i < n; i++) { bool v = conj == want ? want : i == odd ? want : r.chance(1, 2); s += (i ? sp + (conj ? "&&" : "||") + sp : string()) + sub(v); } return s; };
    auto guard = [&](std::function<void()> body) { bool w = L.on && cdepth < 2 && L.r.chance(1, 9); if (!w) { body(); return; } if (!S.empty() && S.back() != '\n') S += "\n"; cdepth++; bool first = L.r.chance(1, 2), alt = L.r.chance(1, 2); int how = L.r.below(4); string nm = D && how < 2 ? "SIM_YES" : "SIM_NOT"; bool def = nm == "SIM_YES";
      S += how < 2 ? (def == first ? "%ifdef " : "%ifndef ") + nm + "\n" : "%if " + cond(3, first) + "\n"; auto junk = [&] { S += L.r.chance(1, 3) ? "%if !(A\n%else\n } { \n%endif\n" : "%left } ' ::= \" [\n"; };
      if (first) body(); else junk(); if (!S.empty() && S.back() != '\n') S += "\n"; if (!first || alt) { S += "%else\n"; if (first) junk(); else body(); if (S.back() != '\n') S += "\n"; } S += "%endif" + string(L.r.chance(1, 3) ? " comment" : "") + "\n"; cdepth--; };
    auto put = [&](const Blk &b) { for (int t : b.t) touch(t); guard([&] { S += b.s; }); if (L.on && ++nb % 5 == 0) { switch (L.r.below(useDef(c) ? 5 : 2)) { case 0: S += "%ifdef SIM_NOT\n%left $$$ ( garbage } { \" ' ::=\n%endif\n"; break; case 1: S += "%ifndef SIM_NOT\n%else\n } bad \n%ifdef SIM_YES\n bad\n%endif\n bad %%%\n%endif\n"; break; case 2: S += "%ifdef SIM_YES\n%else\n bad bad {{{ \n%endif\n"; break; case 3: S += "%if SIM_YES && !(SIM_NOT || SIM_NOT2)\n%else\n bad \"\n%endif\n"; break; default: S += "%if !SIM_YES || SIM_NOT\n bad ) )\n%endif  \n"; } } };
    for (auto &b : early) put(b);
    if (g.startDecl) S += "%start_symbol" + L.ws() + (L.r.chance(1, 2) ? g.syms[g.start].name : "{" + g.syms[g.start].name + "}") + nl;
    size_t nr = g.rules.size(), ai = 0;
    for (size_t r = 0; r < nr; r++) { guard([&] { rule((int)r); }); while (ai < any.size() && L.r.chance((int)any.size(), (int)nr + 1)) put(any[ai++]); }
    while (ai < any.size()) put(any[ai++]);
    code();
  }
  void rule(int r) {
    const Rule &R = g.rules[r]; int lt = g.syms[R.lhs].tag, n = (int)R.rhs.size(); bool act = R.action == 1, gen = R.actFlags & 128;
    auto lhsA = string("A"); bool style = !gen && (g.layout + r) % 3 == 1; auto al = [&](int k) { if (style) return "v" + num(k) + "_x"; return string(1, (char)('B' + k)); };
    S += g.syms[R.lhs].name; if (act && lt >= 0) S += "(" + lhsA + ")"; S += (L.on ? L.ws() : string(" ")) + "::=";
    vector<string> vals; bool over = false;
    for (int k = 0; k < n; k++) { const Elem &e = R.rhs[k]; S += L.ws();
      int tag = -1; bool term = false;
      if (!e.alts.empty()) { for (int x : e.alts) (void)x; auto f = cls.find(e.alts); if (f != cls.end()) S += f->second; else for (size_t i = 0; i < e.alts.size(); i++) S += (i ? (L.r.chance(3, 4) ? "|" : "/") : "") + ref(e.alts[i]); tag = g.syms[0].tag; term = true; }
      else { S += e.sym == 1 ? string("error") : ref(e.sym); if (e.sym != 1) { tag = g.syms[e.sym].term ? g.syms[0].tag : g.syms[e.sym].tag; term = g.syms[e.sym].term; } }
      if (!act || tag < 0 || (e.noref & 1)) continue;
      string a = al(k); if (k == 0 && (R.actFlags & 32)) a = lhsA;
      S += "(" + a + ")"; vals.push_back("SIMG_" + g.tags[tag] + "(" + a + ")"); if ((e.noref & 2) && term) vals.push_back("@" + a);
      if (k == 0 && (R.actFlags & 64) && lt >= 0 && !(R.actFlags & 32)) over = true; }
    S += (L.on && L.r.chance(1, 5) ? L.ws() : string(" ")) + ".";
    string mark = R.precSym >= 0 ? string(L.on && L.r.chance(1, 2) ? "\n " : " ") + "[" + g.syms[R.precSym].name + "]" : string(), code;
    if (R.precSym >= 0 && !o.u) touch(R.precSym);
    if (R.action == 2) code = " {}";
    if (act) { code = " { int k_[] = {"; for (auto &v : vals) code += " " + v + ","; code += " 0 }; int v_; v_ = sim_act(" + inst() + ", " + num(gen ? 9000 : r * 16) + ", 0, " + num((long)vals.size()) + ", k_, 0, 0);";
      if (over) code += " /*" + lhsA + "-overwrites-" + al(0) + "*/";
      if (R.actFlags & 1) code += nasty(r);
      code += lt >= 0 ? " " + lhsA + " = SIMM_" + g.tags[lt] + "(v_); }" : " (void) v_; }"; }
    if (L.on && !code.empty() && L.r.chance(1, 3)) S += code + mark + "\n"; else S += mark + (L.on && L.r.chance(1, 4) ? "\n" : "") + code + "\n"; }
  void code() {
    string N = pname(c), ap = o.lextra == 1 ? ", inst" : "", cp = o.lextra == 2 ? ", inst" : "";
    S += "%code {\n";
    S += "static void *sim_alloc_(void *inst) { (void) inst; return " + N + "Alloc(sim_malloc" + cp + "); }\n";
    S += "static void sim_feed_(void *p, int code, int val, void *inst) { (void) inst; " + N + "(p, code, SIMM_" + tt() + "(val)" + ap + "); }\n";
    S += "static void sim_release_(void *p) { " + N + "Free(p, sim_free); }\n";
    S += "static void *sim_newbox_(void) { return sim_box(sizeof(yyParser)); }\n";
    S += "static void sim_init_(void *p, void *inst) { (void) inst; " + N + "Init(p" + cp + "); }\n";
    S += "static void sim_fini_(void *p) { " + N + "Finalize(p); }\n";
    S += o.lpeak ? "static int sim_peak_(void *p) { return " + N + "StackPeak(p); }\n" : "static int sim_peak_(void *p) { (void) p; return 0; }\n";
    S += "static const int sim_defs_[] = { 0, -2,"; for (size_t i = 2; i < g.syms.size(); i++) S += g.syms[i].term ? " " + mangle(c, (int)i) + "," : string(" -1,"); S += " 0 };\n";
    S += "struct sim_lemon_api sim_lemon = { sim_alloc_, sim_feed_, sim_release_, sim_newbox_, sim_init_, sim_fini_, " + N + "Fallback, sim_peak_, sim_defs_ };\n";
    if (o.ltrace >= 2 && o.ltrace < 5 && !o.lndebug) S += "static void __attribute__((constructor)) sim_trace_(void) { " + N + "Trace(stderr, " + (o.ltrace == 3 ? "0" : "\"p> \"") + ");" + (o.ltrace == 4 ? " " + N + "Trace(0, \"q> \");" : "") + " }\n";
    if (o.ltrace == 1 && !o.lndebug) S += "static void __attribute__((constructor)) sim_trace_(void) { " + N + "Trace(fopen(\"/dev/null\", \"w\"), \"p> \"); }\n";
    S += "}\n"; }
};
}
string lemonText(const Case &c, int expect, vector<int> *order) { Text t(c, expect); t.make(); if (order) *order = t.order; return t.S; }
static bool wantExpect(const Case &c) { return c.g.layout % 3 != 2; }
string emitLemon(const Case &c) { int ex = -1; if (wantExpect(c)) { Auto A; buildLemonAuto(c, A, 1 << 20); ex = A.sr + A.rr; } return lemonText(c, ex, 0); }
vector<string> lemonArgs(const Case &c) { const Opt &o = c.o; vector<string> a; if (o.lc) a.push_back("-c"); if (o.lr) a.push_back("-r"); if (o.lp) a.push_back("-p"); if (o.ls) a.push_back("-s"); if (o.l) a.push_back("-l"); if (o.v == 0) a.push_back("-q"); if (o.u) a.push_back("-u"); if (o.z && !(c.g.layout % 2)) a.push_back("-z"); if (o.g) a.push_back("-g"); if (o.H) a.push_back("-S"); if (useDef(c)) { a.push_back("-DSIM_YES"); a.push_back("-DSIM_UNUSED"); a.push_back("-DSIM_Y2=0"); } if (o.d) a.push_back("-dout"); if (o.ltmpl == 0) a.push_back("-T" + string("lempar.tpl")); a.push_back("g.lem"); return a; }
vector<string> lemonDefs(const Case &c) { vector<string> d; if (c.o.lndebug) d.push_back("-DNDEBUG"); if (c.o.lnorec) d.push_back("-DYYNOERRORRECOVERY"); if (c.o.lpeak) d.push_back("-DYYTRACKMAXSTACKDEPTH"); return d; }
string lemonCodes(const Case &c) { string w = "#include \"" + string(c.o.d ? "out/" : "") + "g.h\"\nconst int sim_codes[] = { 0, -2,"; for (size_t i = 2; i < c.g.syms.size(); i++) w += c.g.syms[i].term ? " " + mangle(c, (int)i) + "," : string(" -1,"); return w + " 0 };\n"; }
bool emitAndRunLemon(const Case &c, const string &dir, vector<string> &src, string &cls, string &err) {
  for (auto f : {"g.c", "g.h", "g.out", "g.sql", "g.lt", "lempar.c", "lempar.tpl", "out/g.c", "out/g.h", "out/g.out", "out/g.sql"}) unlink((dir + "/" + f).c_str());
  Auto A; buildLemonAuto(c, A, 1 << 20); int ex = wantExpect(c) ? A.sr + A.rr : 0; writeFile(dir + "/g.lem", lemonText(c, wantExpect(c) ? ex : -1, 0)); mkdir((dir + "/out").c_str(), 0755);
  writeFile(dir + (c.o.ltmpl == 0 ? "/lempar.tpl" : c.o.ltmpl == 1 ? "/g.lt" : "/lempar.c"), readFile(gTmpl));
  vector<string> a{gTool[2]}; for (auto &x : lemonArgs(c)) a.push_back(x);
  int st = runCmd(a, dir, "", dir + "/tool.out", 20), want = A.sr + A.rr == ex ? 0 : 1;
  if (st != want) { cls = "tool-fail"; err = "lemon ended with status " + num(st) + " where " + num(want) + " was due (" + num(A.sr) + " shift/reduce and " + num(A.rr) + " reduce/reduce conflicts in the model): " + readFile(dir + "/tool.out").substr(0, 600); return false; }
  string d = c.o.d ? "out/" : ""; for (auto f : {"g.c", "g.h"}) if (access((dir + "/" + d + f).c_str(), F_OK)) { cls = "tool-fail"; err = string("lemon did not write ") + f; return false; }
  writeFile(dir + "/w.c", lemonCodes(c)); src.push_back(d + "g.c"); src.push_back("w.c"); return true; }

// Writes a Grammar in byacc syntax, instrumented so that the whole environment of the parser is the simulator.
#include "psim.h"
static string num(long v) { return std::to_string(v); }
struct Lay { Rng r; bool on; explicit Lay(int seed) : r((uint64_t)seed * 7919 + 3), on(seed != 0) {}
  string ws() { if (!on) return " "; switch (r.below(15)) { case 0: return "\n"; case 7: return " /*/ \" } ; **/"; case 1: return "\t"; case 2: return "  "; case 3: return " /* c | ; : { */ "; case 4: return "\n\n   "; case 5: return " // x ' \" {\n"; case 6: return "\n/* a\n * b\n ** */\n"; default: return " "; } }
  string nl() { if (!on) return "\n"; return r.chance(1, 4) ? "\n\n" : "\n"; } };

int dtorOf(const Grammar &g, int sym, int midLhs) { // what the destructor call for this symbol reports, 0 none
  int tag; if (sym >= 0) { const Sym &s = g.syms[sym]; if (s.dtor) return s.dtor == 2 ? 3000 : sym + 1; tag = s.tag; } else tag = g.syms[midLhs].tag;
  if (g.tags.empty()) { if (tag < 0) return (g.defDtor & 2) ? 2001 : 0; }
  if (tag < 0) return (g.defDtor & 2) ? 2001 : 0;
  if (tag < (int)g.tagDtor.size() && g.tagDtor[tag]) return 1000 + tag;
  return (g.defDtor & 1) ? 2000 : 0;
}
static const char *tagOf(const Grammar &g, int t) { return t < 0 ? (g.tags.empty() ? "n" : "iv") : g.tags[t].c_str(); }
static string vref(const Grammar &g, int pos, int tag, bool forceTag) { // "$pos" as an int value
  string nm = num(pos), t = tagOf(g, tag);
  if (g.tags.empty()) return "SIMG_n($" + nm + ")";
  if (tag >= 0 && !forceTag && pos > 0) return "SIMG_" + t + "($" + nm + ")";
  return "SIMG_" + t + "($<" + t + ">" + nm + ")";
}
static string nasty(int k, const string &inst) {
  switch (k % 10) {
  case 0: return " /* $$ } { \" */ sim_note(" + inst + ", 0, \"$$ @1 } \\\" $1\");";
  case 1: return " { char c_ = '}'; if (c_ == '\\'') { c_ = '\"'; } sim_note_i(" + inst + ", 1, c_); } // }}} $$ '\n";
  case 2: return " sim_note(" + inst + ", 2, \"a\\\\\"); {{ ; }} ";
  case 3: return "\n#define SIMQ(x) x\n sim_note_i(" + inst + ", 3, SIMQ('{'));\n#undef SIMQ\n";
  case 5: return " { int q_ = 6 /*/ don't } **// 2; // x */ y /* $$ @1\n sim_note_i(" + inst + ", 5, q_); }";
  case 6: return " sim_note(" + inst + ", 6, \"/* $$\"); sim_note(" + inst + ", 6, \"*/ // '$1{\");";
  case 7: return " { int d_ = 8, e_ = d_/2; if (d_ == '\\\"' - 26) { sim_note_i(" + inst + ", 7, e_); } else sim_note_i(" + inst + ", 7, -1); }";
  case 8: return " sim_note(" + inst + ", 10, \"li\\\nne\" \"2 %} %% ;\");\n";
  default: return " { int yy1 = 4; int a$b = 1; yy1 += a$b; sim_note_i(" + inst + ", 4, yy1); }";
  }
}
static string formalName(int group, int i, int salt) { static const char *nm[] = {"a", "ab", "b1", "c_", "_d", "abc", "yylval_", "n", "self", "b12"}; return nm[(salt + group * 3 + i * 7) % 10]; }
bool debugDirective(const Case &c) { return c.g.layout % 6 == 2; }
struct Par { string type, name, suffix, check, pass; };
// 1: as many shift/reduce conflicts as there are, 2: reduce/reduce, 3: both, 4: a wrong number
int yaccExpect(const Case &c) { if (!c.g.layout) return 0; int w = (int)(c.g.layout / 7 % 16); return w > 4 ? 0 : w; }
string emitYacc(const Case &cs) {
  const Grammar &g = cs.g; const Opt &o = cs.o; Lay L(g.layout); string S; bool uni = !g.tags.empty();
  bool pure = o.P; string inst = pure ? "inst" : "sim_inst";
  // the parameters of the parser and of the lexer
  vector<Par> ppar, lpar; if (pure) { ppar.push_back({"void *", "inst", "", "1", "inst"}); lpar = ppar; }
  if (o.valid & 16) { vector<Par> ex; int k = (int)(g.layout % 5), fr = (int)(g.layout / 5 % 2);
    if (k == 0 || k == 3 || k == 4) ex.push_back({"int", "plim", "", "plim == SIMLIM(" + inst + ")", "SIMLIM(" + inst + ")"});
    if (k == 1) { ex.push_back({"const char *", "p_nm", "", "p_nm == sim_nm", "sim_nm"}); ex.push_back({"int", "ptab", "[3]", "ptab == sim_tab && ptab[1] == 7", "sim_tab"}); }
    if (k == 2 || k == 4) ex.push_back({"unsigned long", "p1", "", "p1 == 0xfffffff1ul", "0xfffffff1ul"});
    if (k == 3) { ex.push_back({"struct simbox *", "p_bx_", "", "p_bx_ == &sim_bx", "&sim_bx"}); ex.push_back({"double", "_pd", "", "_pd == 2.5", "2.5"}); }
    if (o.valid & 32) { for (size_t i = 0; i < ex.size(); i++) if ((g.layout / 10 + i) % 3) lpar.insert(fr ? lpar.end() : lpar.begin(), ex[i]); }
    for (auto &x : ex) ppar.insert(fr ? ppar.end() : ppar.begin(), x); }
  auto parList = [&](const vector<Par> &v, int how) { string s; for (auto &x : v) { if (!s.empty()) s += how == 2 ? " && " : ", "; s += how == 0 ? x.type + " " + x.name + x.suffix : how == 1 ? x.pass : x.check; } return s; };
  auto paramText = [&](const char *what, const vector<Par> &v, int salt) { string s; int st = (int)((g.layout / 7 + salt) % 4); if (!L.on) st = 0;
    for (size_t i = 0; i < v.size(); i++) { string d = v[i].type + (v[i].type.back() == '*' && (g.layout + i) % 2 ? "" : " ") + v[i].name + (v[i].suffix.empty() || (g.layout + i) % 3 ? "" : " ") + v[i].suffix; bool first = i == 0, last = i + 1 == v.size();
      if (first || st == 0) s += string("%") + what + "-param" + (st == 2 ? "" : " ") + "{"; else if (st == 1) s += ","; else s += st == 2 ? " {" : " { /* } */";
      s += st == 3 ? d + " " : st == 1 && !first ? "\n " + d : d; if (last || st != 1) s += "}"; if (last || st == 0) s += "\n"; }
    return s; };
  string par = o.valid & 16 ? " if (!(" + parList(ppar, 2) + ")) sim_note_i(" + inst + ", 77, 0);" : "", parl = o.valid & 16 && !lpar.empty() ? " if (!(" + parList(lpar, 2) + ")) sim_note_i(" + inst + ", 78, 0);" : "";
  S += "%{\n"; if (o.dbg) S += "#define SIM_TRACE 1\n"; if (o.dbg == 5) S += "#define YYDEBUG 1\n"; S += "#include \"psim_rt.h\"\n";
  if (o.valid & 8) S += "#define YYSTYPE_TOSTRING(s, v) sim_tostr(s, v)\n";
  if (!pure) S += "static void *sim_inst;\n";
  if (o.valid & 16) S += "static const char sim_nm[] = \"n\"; static int sim_tab[3] = { 6, 7, 8 }; static struct simbox sim_bx;\n#define SIMLIM(p) ((int) ((size_t) (p) >> 4 & 0x7fff))\n";
  if (o.initStack) S += "#define YYINITSTACKSIZE " + num(o.initStack) + "\n";
  if (o.maxDepth) S += "#define YYMAXDEPTH " + num(o.maxDepth) + "\n";
  if (o.lvgrowth) S += "#define YYLVQUEUEGROWTH " + num(o.lvgrowth) + "\n";
  if (o.noLeaks) S += "#define YY_NO_LEAKS 1\n";
  // yylex/yyerror get their prototypes here so that any declaration the tool emits is compatible
  S += "%}\n";
  if (uni) { S += "%union" + L.ws() + "{"; for (auto &t : g.tags) S += t == "iv" ? " int iv;" : t == "lv" ? " long lv;" : t == "dv" ? " double dv;" : t == "bv" ? " struct simbox bv;" : " void *pv;"; S += " }\n"; }
  if (pure) { S += L.on && L.r.chance(1, 2) ? "%pure-parser\n" : "%define api.pure full\n"; S = S; }
  S += paramText("parse", ppar, 0); S += paramText("lex", lpar, 1);
  if (o.loc) S += "%locations\n";
  if (o.t && debugDirective(cs)) S += "%debug\n";
  // directives that must change nothing, and code blocks whose presence the epilogue checks
  unsigned blocks = L.on && g.layout % 3 == 0 ? (unsigned)(g.layout / 3 % 16) : 0; auto block = [&](int k) { if (!(blocks >> k & 1)) return; static const char *nm[] = {"", " top", " requires", " provides", " imports"}; string b = "SIM_B" + num(k);
    S += string("%code") + nm[k] + (L.r.chance(1, 2) ? " {\n" : "\n{\n") + "#define " + b + " " + num(k + 1) + "\n" + (k == 0 ? "static int sim_twice(int x) { if (x) { return 2 * x; } return 0; }\n" : "") + "}\n"; if (L.r.chance(1, 4)) S += string("%code") + nm[k] + " {\n#define " + b + "b\n}\n"; else S += string("%code") + nm[k] + " {\n#undef " + b + "b\n#define " + b + "b " + b + "\n}\n"; };
  if (L.on && L.r.chance(1, 12)) S += "%yacc\n"; if (L.on && L.r.chance(1, 12)) S += "%token-table\n"; if (L.on && L.r.chance(1, 12)) S += "%error-verbose\n"; if (L.on && L.r.chance(1, 12)) S += "%ident \"sim } %% ident\"\n";
  if (int w = yaccExpect(cs)) { Auto A; buildAuto(cs, A, 1 << 20); if (w != 2) S += "%expect " + num(A.sr + (w == 4)) + "\n"; if (w == 2 || w == 3) S += "%expect-rr " + num(A.rr) + "\n"; }
  for (int k : {3, 0}) block(k); // the blocks "imports" are read and never written, and a test expects that
  // %initial-action would show as the first event
  if (o.valid & 4) S += "%initial-action { sim_note_i(" + inst + ", 9, 7); }\n";
  set<int> declared;
  auto tagStr = [&](int t) { return uni && t >= 0 ? "<" + g.tags[t] + "> " : string(); };
  // tokens that are declared explicitly, possibly several per line
  string line; int lastTag = -2;
  vector<int> inPrec; for (auto &lv : g.precLevels) for (int t : lv) inPrec.push_back(t);
  for (size_t i = 2; i < g.syms.size(); i++) { const Sym &s = g.syms[i]; if (!s.term) continue; bool pr = std::count(inPrec.begin(), inPrec.end(), (int)i);
    bool lit = s.name[0] == '\'', inRule = pr; for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym == (int)i) inRule = true;
    if (lit && s.tag < 0 && inRule) continue; // a literal needs no declaration; one that occurs nowhere else gets one
    if (pr && (g.layout & 1) && s.code < 0) { bool uniform = true; for (auto &lv : g.precLevels) if (std::count(lv.begin(), lv.end(), (int)i)) for (int q : lv) if (g.syms[q].tag != s.tag) uniform = false; if (uniform) continue; } // declared by its precedence line alone
    declared.insert((int)i);
    if (lastTag != s.tag || L.r.chance(1, 3)) { if (!line.empty()) S += line + L.nl(); line = (L.on && L.r.chance(1, 8) ? "%term " : "%token ") + tagStr(s.tag); lastTag = s.tag; } else line += L.ws();
    line += s.name; if (s.code >= 0 && !lit) line += L.ws() + num(s.code); }
  if (!line.empty()) S += line + "\n";
  for (auto &lv : g.precLevels) { if (lv.empty()) continue; int as = g.syms[lv[0]].assoc; int tg = g.syms[lv[0]].tag; bool need = false; for (int t : lv) if (!declared.count(t) && g.syms[t].tag >= 0) need = true;
    S += as == A_LEFT ? "%left" : as == A_RIGHT ? "%right" : as == A_NONASSOC ? (L.on && L.r.chance(1, 4) ? "%binary" : "%nonassoc") : "%precedence"; S += L.ws();
    if (need) S += tagStr(tg); // only levels whose tokens share one tag are left undeclared
    for (int t : lv) S += g.syms[t].name + L.ws();
    S += "\n"; }
  if (uni) for (size_t i = 2; i < g.syms.size(); i++) if (!g.syms[i].term && g.syms[i].tag >= 0) { S += (L.on && L.r.chance(1, 4) ? "%nterm " : "%type ") + tagStr(g.syms[i].tag) + g.syms[i].name; if (!g.syms[i].fallback.empty()) { S += "("; size_t q = 0; for (int t : g.syms[i].fallback) S += (q++ ? L.on ? ", " : "," : "") + string("<") + g.tags[t] + ">"; S += ")"; } S += L.nl(); }
  if (g.startDecl) S += "%start" + L.ws() + g.syms[g.start].name + "\n";
  // destructors
  auto dcode = [&](int what, const string &getter, int k) { string c = "%destructor {"; string pre, w = num(what); if (L.on) switch ((k + g.layout) % 9) {
      case 1: pre = " /* $$ } */ if (1) { char q_ = '}'; (void) q_; }"; break;
      case 2: pre = " /* don't $$ \"x } **/int c1_ = 6 /* $$ **// 2; (void) c1_;"; break;
      case 3: w += " + (int) strlen(\"$$}\\\"'\") - 5"; break;
      case 4: pre = " // $$ } ' \\\"\n"; break;
      case 5: pre = " if ('\\'' == '\"' || '\\\\' != 92) { sim_dtor(" + inst + ", 9999, 0, 0); }"; break;
      case 6: pre = " int a$$b_ = 0; (void) a$$b_;"; break;
      case 7: pre = " {\n { ; } /**/ }\n"; break;
      case 8: pre = " int q_ = 4 / 2; if (q_ != 2) { sim_dtor(" + inst + ", 9998, 0, 0); } /* } */"; break; }
    c += pre + par; if (o.loc) c += " int l_[] = { SIMLOC(@$) };"; 
    c += " sim_dtor(" + inst + ", " + w + ", " + getter + ", " + (o.loc ? "l_" : "0") + "); }"; return c; };
  { string s; for (size_t i = 2; i < g.syms.size(); i++) if (g.syms[i].dtor == 2) s += L.ws() + g.syms[i].name; if (!s.empty()) S += dcode(3000, uni ? "SIMANY($$)" : "SIMG_n($$)", 3) + s + "\n"; }
  for (size_t i = 2; i < g.syms.size(); i++) if (g.syms[i].dtor == 1) S += dcode((int)i + 1, uni && g.syms[i].tag < 0 ? string("(*(int *)&($$))") : "SIMG_" + string(tagOf(g, g.syms[i].tag)) + "($$)", (int)i) + L.ws() + g.syms[i].name + "\n";
  for (size_t t = 0; t < g.tagDtor.size(); t++) if (g.tagDtor[t]) S += dcode(1000 + (int)t, "SIMG_" + g.tags[t] + "($$)", (int)t) + L.ws() + "<" + g.tags[t] + ">\n";
  if (g.defDtor & 1) S += dcode(2000, "SIMANY($$)", 5) + " <*>\n";
  if (g.defDtor & 2) S += dcode(2001, uni ? "(*(int *)&($$))" : "SIMG_n($$)", 4) + " <>\n";
  for (int k : {1, 2}) block(k);
  S += "%%" + L.nl();
  // rules
  int group = -1; for (size_t r = 0; r < g.rules.size(); r++) { const Rule &R = g.rules[r];
    bool cont = r > 0 && g.rules[r - 1].lhs == R.lhs && !(R.actFlags & 8);
    if (cont) S += "  |"; else { if (r > 0) S += L.on && L.r.chance(1, 9) ? "\n" : "  ;\n"; group++; S += g.syms[R.lhs].name; auto &F = g.syms[R.lhs].fallback; if (!F.empty()) { S += L.on && L.r.chance(1, 4) ? " (" : "("; for (size_t i = 0; i < F.size(); i++) { if (i) S += ","; if (L.on && L.r.chance(1, 2)) S += " "; S += "$"; if (uni && L.on && L.r.chance(1, 3)) S += "<" + g.tags[F[i]] + ">"; S += formalName(group, (int)i, g.layout % 10); if (L.on && L.r.chance(1, 5)) S += " "; } S += ")"; } S += L.ws() + ":"; }
    if (R.rhs.empty() && L.on && L.r.chance(1, 4)) S += " %empty";
    auto locs = [&](int n) { if (!o.loc) return string("0, 0"); return num((n + 1) * 4) + ", l_"; };
    auto act = [&](int id, int npos, const vector<int> &below, int resTag, bool mid, const vector<int> *only, int flags, bool trial, int loc0) {
      string a = trial ? "[" : "{"; vector<string> v;
      auto elemTag = [&](int p) { const Elem &e = R.rhs[p - 1]; return e.kind ? e.tag : g.syms[e.sym].tag; };
      for (int p = 1; p <= npos; p++) { bool force = R.rhs[p - 1].kind != 0 || elemTag(p) < 0 || ((g.layout + p) % 7 == 0); if (uni && R.rhs[p - 1].kind == 0 && R.rhs[p - 1].sym == 1) v.push_back("-5"); else v.push_back(vref(g, p, elemTag(p), uni && force)); }
      for (int b : below) { auto &own = g.syms[R.lhs].fallback; v.push_back(vref(g, b, !uni ? -1 : (size_t)-b < own.size() ? own[own.size() - 1 + b] : 0, true)); }
      { auto &F = g.syms[R.lhs].fallback; for (size_t i = 0; i < F.size(); i++) { string nm = formalName(group, (int)i, g.layout % 10); if (!uni) v.push_back("SIMG_n($" + nm + ")"); else v.push_back("SIMG_" + g.tags[F[i]] + ((g.layout + i) % 3 ? "($" + nm + ")" : "($<" + g.tags[F[i]] + ">" + nm + ")")); } }
      a += " int k_[] = {"; for (auto &x : v) a += " " + x + ","; a += " 0 };";
      if (o.loc) { a += " int l_[] = {"; for (int p = 1; p <= npos; p++) a += " SIMLOC(@" + num(p) + "),"; for (int b : below) a += " SIMLOC(@" + num(b) + "),"; a += " SIMLOC(@$) };"; }
      string t = tagOf(g, resTag); string lhs = !uni ? "$$" : (resTag >= 0 && resTag == g.syms[R.lhs].tag ? "$$" : "$<" + t + ">$");
      a += " " + lhs + " = SIMM_" + t + "(sim_act(" + inst + ", " + num(id) + ", YYRECOVERING(), " + num((long)v.size()) + ", k_, " + locs(npos + (int)below.size()) + "));";
      if (flags & 1) a += nasty((int)r + id, inst);
      if (trial) { if (flags & 2) a += " if (sim_valid(" + inst + ")) { YYVALID; }"; if (flags & 16) a += " if (sim_valid(" + inst + ")) { YYVALID_NESTED; }"; }
      a += par + " SIM_CTL(" + inst + ");";
      a += trial ? " ]" : " }"; return a; };
    int midNo = 0;
    for (size_t k = 0; k < R.rhs.size(); k++) { const Elem &e = R.rhs[k];
      if (e.kind == 0) { S += L.ws() + g.syms[e.sym].name;
        if (!e.args.empty()) { auto &F = g.syms[e.sym].fallback; S += L.on && L.r.chance(1, 5) ? L.ws() + "(" : "(";
          for (size_t i = 0; i * 3 < e.args.size(); i++) { int how = e.args[3 * i], src = e.args[3 * i + 1], k = e.args[3 * i + 2]; string x; int st = -1; if (i) S += ",";
            if (src == 0) x = num(k); else if (src > 0) { const Elem &q = R.rhs[src - 1]; int t = q.kind ? q.tag : g.syms[q.sym].tag; st = t < 0 ? 0 : t; bool force = q.kind || t < 0 || (g.layout + i) % 3 == 0; x = !uni ? "$" + num(src) : force ? "$<" + g.tags[st] + ">" + num(src) : "$" + num(src); } else if (src <= -100) { int d = -100 - src; auto &own = g.syms[R.lhs].fallback; st = uni ? own[own.size() - 1 - d] : -1; x = uni ? "$<" + g.tags[st] + ">" + num(-d) : "$" + num(-d); } else { string nm = formalName(group, -src - 1, g.layout % 10); st = g.syms[R.lhs].fallback[-src - 1]; x = uni && (g.layout + i) % 5 == 0 ? "$<" + g.tags[st] + ">" + nm : "$" + nm; }
            if (how & 1) { if (uni && src) x = "SIMG_" + g.tags[st] + "(" + x + ")"; x = "SIM_ARG(" + x + ", " + num(k) + ")"; if (uni) x = "SIMM_" + g.tags[F[i]] + "(" + x + ")"; }
            else if (uni && src == 0) x = "SIMM_" + g.tags[F[i]] + "(" + x + ")"; else if (uni && st != F[i] && !(how & 4)) x = "SIMM_" + g.tags[F[i]] + "(SIMG_" + g.tags[st] + "(" + x + "))";
            S += how & 2 ? ((g.layout + i) % 4 == 0 ? "\n " : " ") + x + ((g.layout + i) % 3 ? "" : " ") : x; }
          S += ")"; } }
      else { midNo++; S += L.ws() + act((int)r * 16 + midNo, (int)k, e.refs, e.tag, true, 0, e.kind == 2 ? e.noref : 0, e.kind == 2, 0); } }
    string prec = R.precSym >= 0 ? L.ws() + "%prec" + L.ws() + g.syms[R.precSym].name : string();
    S += prec;
    int n = (int)R.rhs.size();
    if (R.action & 2) { S += L.ws() + act((int)r * 16 + 14, n, R.refs, g.syms[R.lhs].tag, false, 0, R.actFlags & ~1, true, 0); }
    if (R.action & 1) S += L.ws() + act((int)r * 16, n, R.refs, g.syms[R.lhs].tag, false, 0, R.actFlags & 1, false, 0);
    S += "\n"; }
  S += "  ;\n%%\n"; for (int k = 0; k < 4; k++) if (blocks >> k & 1) S += "#if !defined(SIM_B" + num(k) + "b) || SIM_B" + num(k) + " != " + num(k + 1) + "\n#error lost block\n#endif\n"; if (blocks & 1) S += "static int (*sim_use)(int) = sim_twice;\n";
  // trailer: lexer, error routine, entry points
  string ys = "switch (t.tag) {";
  if (uni) { for (size_t t = 0; t < g.tags.size(); t++) { const string &m = g.tags[t]; ys += " case " + num((long)t) + ": LV." + m + " = SIMM_" + m + "(t.val); break;"; } ys += " default: LV.iv = t.val; break; }"; }
  else ys = "LV = t.val;";
  string pl = pure ? "(*yylval)" : "yylval", ll = pure ? "(*yylloc)" : "yylloc";
  S += pure ? "#define LV (*yylval)\n#define LL (*yylloc)\n" : "#define LV yylval\n#define LL yylloc\n";
  string lexargs = pure ? string("YYSTYPE *yylval, ") + (o.loc ? "YYLTYPE *yylloc, " : "") + parList(lpar, 0) : lpar.empty() ? "void" : parList(lpar, 0);
  S += "int yylex(" + lexargs + ")\n{ struct SimTok t; int c; memset(&t, 0, sizeof t);" + parl + " c = sim_lex(" + inst + ", &t); if (t.val < 0) return c; " + ys;
  if (o.loc) S += " LL.first_line = t.l[0]; LL.first_column = t.l[1]; LL.last_line = t.l[2]; LL.last_column = t.l[3];";
  S += " return c; }\n";
  string eargs = string(o.loc ? "YYLTYPE *loc, " : "") + parList(ppar, 0) + (ppar.empty() ? "" : ", ") + "const char *s";
  S += "int yyerror(" + eargs + ")\n{" + par + " ";
  if (o.loc) S += "int l_[] = { SIMLOC(*loc) }; sim_err(" + inst + ", s, l_); return 0; }\n"; else S += "sim_err(" + inst + ", s, 0); return 0; }\n";
  if (pure) S += "int sim_run(void *inst) { return yyparse(" + parList(ppar, 1) + "); }\nint sim_nerrs(void) { return -1; }\n";
  else S += "int sim_run(void *inst) { sim_inst = inst; return yyparse(" + parList(ppar, 1) + "); }\nint sim_nerrs(void) { return yynerrs; }\n";
  if (o.t && (o.dbg == 1 || o.dbg == 3 || o.dbg == 4)) S += "int *sim_dbg = &yydebug;\n";
  S += "const int sim_codes[] = { 0, 256,"; for (size_t i = 2; i < g.syms.size(); i++) { const Sym &s = g.syms[i]; if (!s.term) S += " -1,"; else if (s.name[0] == '"' && s.code >= 0) S += " " + num(s.code) + ","; else if (s.name[0] == '"') S += " " + s.name.substr(1, s.name.size() - 2) + ","; else S += " (unsigned char) " + s.name + ",";
    if (s.term && s.name[0] != '\'' && s.name[0] != '"') { size_t p = S.rfind("(unsigned char) "); S.erase(p, 16); } }
  S += " 0 };\n";
  return S;
}
// declarations needed before the first use of yylex and yyerror (yyparse calls them)
string emitYaccProtos(const Case &) { return ""; }

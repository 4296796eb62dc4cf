// Grammar templates shared by the byacc and lemon generators.
#pragma once
#include "psim.h"
namespace {
struct Prof { int prec = 60, errRules = 20, mid = 15, uni = 40, dtor = 0, loc = 0, pure = 15, deep = 0, big = 6, noact = 15, below = 10, B = 0, ctl = 10, nasty = 20, ambig = 30, inh = 0, huge = 0; };
struct Gen {
  Rng &R; Case &c; Grammar &g; Opt &o; Prof p; vector<int> T, N; set<string> used;
  Gen(Rng &R, Case &c, Prof p) : R(R), c(c), g(c.g), o(c.o), p(p) {}
  string fresh(const char *const *pool, int n, bool upper) { for (;;) { string s = pool[R.below(n)]; if (R.chance(1, 3)) s += "_" + std::to_string(R.below(100)); else if (R.chance(1, 12)) s += string(R.range(10, 60), upper ? 'Q' : 'q'); else if (!upper && !g.dialect && R.chance(1, 14)) s += ".x"; else if (!upper && !g.dialect && R.chance(1, 14)) { static const char *odd[] = {".", "_", "._$"}; s = odd[R.below(3)] + s; if (R.chance(1, 3)) s += "$9"; } if (used.insert(s).second) return s; } }
  int addTok() { Sym s; s.term = true;
    if (g.dialect) { static const char *lp[] = {"TOK", "ID", "NUM", "IF", "ELSE", "PLUS", "MINUS", "LP", "RP", "SEMI", "COMMA", "STRING", "W", "Alpha", "Be_ta", "T_X9", "ASSIGN", "LT", "Z"}; s.name = fresh(lp, 19, true); g.syms.push_back(s); T.push_back((int)g.syms.size() - 1); return T.back(); } static const char *pool[] = {"TOK", "ID", "NUM", "IF", "ELSE", "PLUS", "MINUS", "LPAR", "RPAR", "SEMI", "COMMA", "STRING", "WHILE", "DO", "ASSIGN", "LT", "T_X", "Alpha", "Beta", "Gam", "B_", "_E"};
    static const char *lits[] = {"'+'", "'-'", "'*'", "'/'", "'('", "')'", "';'", "','", "'='", "'{'", "'}'", "'['", "'\\n'", "'\\''", "'\"'", "'\\\\'", "'\\t'", "'<'", "'>'", "'%'", "'$'", "'@'", "'\\x41'", "'\\101'", "'\\377'", "'\\200'", "':'", "'|'", "'a'", "'~'", "'\\v'", "'\\b'", "'\\a'", "'\\f'", "'\\r'", "'\\1'", "' '", "'?'", "'\\x7f'"};
    static const char *strs[] = {"\"while_\"", "\"endx\"", "\"blk\"", "\"tokabc\""};
    if (R.chance(1, 3)) { s.name = lits[R.below((int)(sizeof lits / sizeof *lits))]; string key = s.name == "'\\x41'" || s.name == "'\\101'" ? "'A'" : s.name; if (!used.insert(key).second) return addTok(); }
    else if (R.chance(1, 25)) { s.name = strs[R.below(4)]; if (!used.insert(s.name).second) return addTok(); }
    else if (R.chance(1, 25)) { static const char *odd[] = {"\"<=\"", "\"a\\\\b\"", "\"say \\\"x\\\"\"", "\"it's\"", "\"\\n\\t\"", "\"\\x41\\102;\"", "\"%d%s\"", "\"$$ @1\"", "\"a\\377\\1z\"", "\"// x /*\"", "\"\\a\\b\\f\\r\\v\""}; int k = R.below(11); s.name = odd[k]; s.code = 901 + k; if (!used.insert(s.name).second) return addTok(); }
    else { s.name = fresh(pool, (int)(sizeof pool / sizeof *pool), true); if (R.chance(1, 12)) { s.code = R.chance(1, 5) ? R.range(140, 190) : R.range(258, 900); for (auto &q : g.syms) if (q.code == s.code) s.code = -1; } }
    g.syms.push_back(s); T.push_back((int)g.syms.size() - 1); return T.back(); }
  int addNt() { Sym s; static const char *pool[] = {"expr", "stmt", "list", "opt", "term", "factor", "args", "decl", "x", "y1", "block", "head", "tail", "prog", "item"}; s.name = fresh(pool, 15, false); g.syms.push_back(s); N.push_back((int)g.syms.size() - 1); return N.back(); }
  Rule &rule(int lhs, vector<int> rhs) { Rule r; r.lhs = lhs; for (int x : rhs) { Elem e; e.sym = x; r.rhs.push_back(e); } g.rules.push_back(r); return g.rules.back(); }
  void exprTemplate(int E, int tail) { int nlev = R.range(1, 4); vector<int> ids; for (int l = 0; l < nlev; l++) { vector<int> lv; int as = R.pick(vector<int>{A_LEFT, A_LEFT, A_RIGHT, A_NONASSOC, A_PREC}); int k = R.range(1, 3); for (int j = 0; j < k; j++) { int t = addTok(); g.syms[t].assoc = as; lv.push_back(t); } g.precLevels.push_back(lv); }
    for (size_t l = 0; l < g.precLevels.size(); l++) for (int t : g.precLevels[l]) { if (R.chance(9, 10)) rule(E, {E, t, E}); if (R.chance(1, 5)) { Rule &r = rule(E, {t, E}); if (R.chance(1, 2)) r.precSym = R.pick(R.pick(g.precLevels)); } if (R.chance(1, 10)) rule(E, {E, t}); }
    int lp = addTok(), rp = addTok(); rule(E, {lp, E, rp}); if (tail >= 0) rule(E, {tail}); int id = addTok(); rule(E, {id}); if (R.chance(1, 4)) { int q = addTok(), col = addTok(); Rule &r = rule(E, {E, q, E, col, E}); if (R.chance(1, 2)) r.precSym = R.pick(R.pick(g.precLevels)); } }
  void listTemplate(int L, int item) { int sep = addTok(); switch (R.below(5)) { case 0: rule(L, {item}); rule(L, {L, sep, item}); break; case 1: rule(L, {item}); rule(L, {item, sep, L}); break; case 2: rule(L, {}); rule(L, {L, item, sep}); break; case 3: rule(L, {}); rule(L, {item, sep, L}); break; default: rule(L, {item}); rule(L, {L, item}); }
    if (R.chance(p.errRules, 100)) { if (R.chance(1, 2)) rule(L, {L, 1, sep}); else rule(L, {1, sep}); } if (R.chance(p.errRules, 300)) rule(L, {L, 1}); }
  void stmtTemplate(int S, int E, int L) { int semi = addTok(), lb = addTok(), rb = addTok(), kw = addTok(), els = addTok(); rule(S, {E, semi}); rule(S, {lb, L, rb}); rule(S, {kw, E, S}); if (R.chance(2, 3)) rule(S, {kw, E, S, els, S});
    if (R.chance(p.errRules, 60)) { switch (R.below(3)) { case 0: rule(S, {1, semi}); break; case 1: rule(S, {lb, 1, rb}); break; default: rule(S, {1}); } } if (R.chance(1, 4)) rule(S, {semi}); }
  void randomTemplate(int nN, int nT) { size_t n0 = N.size(); for (int i = 0; i < nN; i++) addNt(); while ((int)T.size() < nT) addTok(); vector<int> L(N.begin() + n0, N.end());
    for (size_t i = 0; i < L.size(); i++) { int alts = R.range(1, 4);
      for (int a = 0; a < alts; a++) { vector<int> rhs; int len = R.pick(vector<int>{0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5}); if (a == 0 && i == 0 && len == 0) len = 2;
        for (int k = 0; k < len; k++) { if (R.chance(11, 20)) rhs.push_back(R.pick(T)); else if (a == 0) { if (i + 1 < L.size()) rhs.push_back(L[R.range((int)i + 1, (int)L.size() - 1)]); else rhs.push_back(R.pick(T)); } else rhs.push_back(R.chance(p.errRules, 400) ? 1 : R.pick(L)); }
        if (a > 0 && rhs.size() == 1 && rhs[0] == L[i]) continue;
        if (R.chance(p.errRules, 500)) rhs.insert(rhs.begin() + R.below((int)rhs.size() + 1), 1);
        rule(L[i], rhs); }
      if (i + 1 < L.size() && R.chance(4, 5)) { vector<int> rhs{R.pick(T), L[i + 1]}; if (R.chance(1, 2)) rhs.push_back(R.pick(T)); rule(L[i], rhs); } }
    // every nonterminal is used somewhere
    for (size_t i = 1; i < L.size(); i++) { bool u = false; for (auto &r : g.rules) if (r.lhs != L[i]) for (auto &e : r.rhs) if (e.sym == L[i]) u = true; if (!u) rule(L[R.below((int)i)], {R.pick(T), L[i]}); } }
  // several hundred symbols, rules and states: many small parts behind one list
  void hugeTemplate() { int S = addNt(), I = addNt(), nT = R.range(40, 260), parts = R.range(20, 70); while ((int)T.size() < nT) addTok(); rule(S, {I}); rule(S, {S, I}); vector<int> heads;
    for (int i = 0; i < parts; i++) { size_t n0 = N.size(); vector<int> all; all.swap(T); int m = R.range(3, 10); for (int k = 0; k < m; k++) T.push_back(all[R.below((int)all.size())]); randomTemplate(R.range(1, 6), 0); T.swap(all); int h = N[n0]; int kw = T[(i * 3) % T.size()]; if (heads.empty() || R.chance(5, 6)) { vector<int> rhs{kw, h}; if (R.chance(1, 2)) rhs.push_back(R.pick(T)); rule(I, rhs); } else rule(R.pick(heads), {kw, h}); heads.push_back(h); } }
  void precRandom() { if (!R.chance(p.prec, 100)) return; int nl = R.range(1, 4); vector<int> free; for (int t : T) { bool in = false; for (auto &l : g.precLevels) if (std::count(l.begin(), l.end(), t)) in = true; if (!in) free.push_back(t); }
    for (int l = 0; l < nl && !free.empty(); l++) { vector<int> lv; int as = R.pick(vector<int>{A_LEFT, A_RIGHT, A_NONASSOC, A_PREC}); int k = R.range(1, 3); while (k-- > 0 && !free.empty()) { int j = R.below((int)free.size()); lv.push_back(free[j]); g.syms[free[j]].assoc = as; free.erase(free.begin() + j); } if (R.chance(1, 2)) g.precLevels.push_back(lv); else g.precLevels.insert(g.precLevels.begin(), lv); }
    vector<int> all; for (auto &l : g.precLevels) for (int t : l) all.push_back(t); if (all.empty()) return; for (auto &r : g.rules) if (R.chance(3, 20)) r.precSym = R.chance(3, 4) ? R.pick(all) : R.pick(T); }
  int depthOf(int n) { int depth = 99; if (n == g.start) depth = 0; for (auto &q : g.rules) for (size_t k = 0; k < q.rhs.size(); k++) if (q.rhs[k].kind == 0 && q.rhs[k].sym == n) depth = std::min(depth, (int)k); return depth == 99 ? 0 : depth; }
  // formal arguments for some nonterminals, actual ones wherever these occur
  void inherit() { bool uni = !g.tags.empty();
    for (int n : N) { if (n == g.start || !R.chance(3, 5) || (uni && g.syms[n].tag < 0)) continue; int k = R.pick(vector<int>{1, 1, 2, 2, 3, 4}); for (int i = 0; i < k; i++) g.syms[n].fallback.push_back(uni ? R.below((int)g.tags.size()) : -1); }
    for (size_t i = 1; i < N.size(); i++) if (!g.syms[N[i]].fallback.empty() && R.chance(1, 3)) for (size_t j = 0; j < N.size(); j++) if (j != i && !g.syms[N[j]].fallback.empty() && R.chance(1, 2)) g.syms[N[j]].fallback = g.syms[N[i]].fallback; // equal lists can be passed on
    set<int> seen; for (auto &r : g.rules) { seen.insert(r.lhs); auto &own = g.syms[r.lhs].fallback; bool hid = false; int under = (int)own.size(); if (!uni) under = std::min(3, std::max(under, depthOf(r.lhs)));
      for (size_t k = 0; k < r.rhs.size(); k++) { Elem &e = r.rhs[k]; if (e.kind || g.syms[e.sym].term) continue; auto &F = g.syms[e.sym].fallback; if (F.empty()) continue; if (k == 0) hid = true;
        if (k == 0 && own == F && (uni || seen.count(e.sym)) && R.chance(1, 2)) { hid = false; continue; }
        int fa = (int)F.size(), mode = R.below(4); vector<int> usable; for (size_t j = 0; j < k; j++) if (r.rhs[j].kind || r.rhs[j].sym != 1) usable.push_back((int)j + 1); for (int j = 0; j < (int)own.size(); j++) usable.push_back(-j - 1); for (int d = 0; d < under; d++) if (R.chance(1, 3)) usable.push_back(-100 - d);
        int from = R.below(fa + 1); // mode 0: the topmost symbols in order; 1: own arguments in order; otherwise a mixture
        for (int i = 0; i < fa; i++) { int how = R.chance(1, 4) ? 1 : 0, src = 0; if (R.chance(1, 3)) how |= 2;
          if (mode == 0 && i < from && (int)k - from + i >= 0 && (r.rhs[k - from + i].kind || r.rhs[k - from + i].sym != 1)) { src = (int)k - from + i + 1; how = R.chance(1, 12) ? 2 : 0; } else if (mode == 1 && i < (int)own.size()) { src = under && R.chance(1, 5) ? -100 - ((int)own.size() - 1 - i) : -i - 1; how = R.chance(1, 12) ? 2 : 0; if (src <= -100 - under) src = -i - 1; } else if (!usable.empty() && R.chance(5, 6)) src = R.pick(usable);
          if (src && !(how & 1) && uni) { int st = src <= -100 ? own[own.size() - 1 - (-100 - src)] : src < 0 ? own[-src - 1] : r.rhs[src - 1].kind ? r.rhs[src - 1].tag : g.syms[r.rhs[src - 1].sym].tag; if (st < 0) st = 0; string a = g.tags[st], b = g.tags[F[i]]; if (a != b && (a == "iv" || a == "dv") && (b == "iv" || b == "dv") && R.chance(3, 4)) how |= 4; }
          e.args.push_back(how); e.args.push_back(src); e.args.push_back(R.range(700000, 700000 + R.pick(vector<int>{0, 1, 900}))); } }
      if (hid && !(r.action & 1)) r.action = 1; } }
  void finish() {
    // dedupe identical rules, order groups
    vector<Rule> out; set<vector<int>> seen; for (auto &r : g.rules) { vector<int> k{r.lhs}; for (auto &e : r.rhs) k.push_back(e.sym); if (r.rhs.size() == 1 && r.rhs[0].sym == r.lhs) continue; if (seen.insert(k).second) out.push_back(r); }
    if (R.chance(3, 4)) std::stable_sort(out.begin(), out.end(), [&](const Rule &a, const Rule &b) { return a.lhs < b.lhs; });
    else if (R.chance(1, 2)) for (size_t i = 2; i < out.size(); i++) if (R.chance(1, 3)) std::swap(out[i], out[R.range(1, (int)i)]);
    g.rules = out; g.start = N[0]; g.startDecl = g.rules[0].lhs != g.start || R.chance(1, 3);
    for (auto &r : g.rules) if (R.chance(1, 20)) r.actFlags |= 8;
    precRandom();
    o.flavor = R.chance(1, 3) ? 1 : 0; if (p.dtor || p.loc || p.B) o.flavor = 0;
    if (R.chance(p.uni, 100)) { static const char *tg[] = {"iv", "lv", "bv", "pv", "dv"}; g.tags.push_back("iv"); for (int i = 1; i < 5; i++) if (R.chance(1, 2)) g.tags.push_back(tg[i]); for (size_t i = 2; i < g.syms.size(); i++) if (R.chance(5, 6)) g.syms[i].tag = R.below((int)g.tags.size()); }
    if (p.loc && R.chance(p.loc, 100)) o.loc = 1;
    if (p.dtor) { int m = R.range(1, 7); if (m & 1) for (size_t i = 2; i < g.syms.size(); i++) if (R.chance(1, 2) && g.syms[i].name[0] != '\'' && g.syms[i].name[0] != '"') g.syms[i].dtor = (g.tags.empty() || g.syms[i].tag >= 0) && R.chance(1, 3) ? 2 : 1; if (!g.tags.empty()) { g.tagDtor.assign(g.tags.size(), 0); if (m & 2) for (auto &x : g.tagDtor) x = R.below(2); if (m & 4) g.defDtor |= 1; }
      if (R.chance(1, 2)) g.defDtor |= 2; bool any = g.defDtor; for (auto &s : g.syms) any |= s.dtor; for (int x : g.tagDtor) any |= x; if (!any) g.syms[R.pick(N)].dtor = 1; }
    // mid-rule actions and the shape of final actions
    for (auto &r : g.rules) {
      if (R.chance(p.mid, 100)) { int k = R.range(1, 2); while (k-- > 0) { Elem e; e.kind = 1; e.tag = g.syms[r.lhs].tag; size_t at = R.below((int)r.rhs.size() + 1); r.rhs.insert(r.rhs.begin() + at, e); } }
      int noact = R.chance(p.noact, 100);
      if (noact && !g.tags.empty() && !r.rhs.empty()) { const Elem &e = r.rhs[0]; int t0 = e.kind ? e.tag : g.syms[e.sym].tag; if (e.kind == 0 && e.sym == 1) noact = 0; if (t0 != g.syms[r.lhs].tag) noact = 0; }
      if (noact && p.dtor && r.rhs.size() != 1) noact = 0;
      if (noact && !r.rhs.empty() && r.rhs.back().kind) noact = 0; // the trailing action would be the final one
      r.action = noact ? 0 : 1; if (R.chance(p.nasty, 300)) r.actFlags |= 1; }
    if (p.inh && !g.dialect && o.flavor == 0 && R.chance(p.inh, 100)) inherit();
    // references below the rule, only where every occurrence guarantees them
    bool valsafe = g.tags.empty();
    if (p.below) for (auto &r : g.rules) { if (!R.chance(p.below, 40)) continue; int nf = (int)g.syms[r.lhs].fallback.size(), depth = valsafe ? std::max(nf, depthOf(r.lhs)) : g.dialect ? 0 : nf;
      auto add = [&](vector<int> &v, int extra) { for (int d = 0; d < std::min(depth, 4); d++) if (R.chance(1, 2)) v.push_back(-d); (void)extra; };
      if (r.action & 1) add(r.refs, 0); for (size_t k = 0; k < r.rhs.size(); k++) if (r.rhs[k].kind) add(r.rhs[k].refs, (int)k); }
    g.layout = R.chance(1, 5) ? 0 : R.range(1, 1 << 20);
    // options
    o.P = R.chance(p.pure, 100); o.d = R.chance(1, 3); o.H = !o.d && R.chance(1, 6); o.r = R.chance(1, 8); o.l = R.chance(1, 5); o.t = R.chance(1, 6); o.i = R.chance(1, 10); o.v = R.chance(1, 8); o.g = R.chance(1, 15); o.viaStdin = R.chance(1, 12);
    o.u = R.chance(1, 20); o.z = R.chance(1, 10); if (R.chance(1, 5)) o.prefix = R.chance(1, 2) ? "zz_" : "pq"; if (R.chance(1, 5)) o.base = "out";
    if (R.chance(1, 3)) o.initStack = R.range(2, 40); if (R.chance(1, 4)) o.noLeaks = 1; if (o.flavor == 0 && R.chance(1, 8)) o.valid |= 4; if (R.chance(1, o.P ? 3 : 10)) o.valid |= R.chance(1, 2) ? 16 : 48;
  }
};
}

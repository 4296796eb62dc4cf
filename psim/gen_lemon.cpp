// Seeded generator of lemon grammars, options, token streams and fault schedules.
#include "gen_tmpl.h"
bool productive(const Grammar &g);
void derive(const Grammar &g, Rng &R, int sym, int budget, vector<int> &out);
void damage(Rng &R, vector<Tok> &s, const vector<int> &terms, int n, Probes *P);
static vector<Tok> lstream(const Case &c, Rng &R, int budget, int dmg, const vector<int> &terms) {
  vector<int> d; derive(c.g, R, c.g.start, budget, d); vector<Tok> s;
  for (int x : d) { if (x == 1) { int k = R.below(3); while (k-- > 0) s.push_back({R.pick(terms), 0, 0}); continue; }
    // a wildcard stands for any token; a token with fallback may stand for what it falls back to
    if (x > 1 && c.g.syms[x].wildcard && R.chance(1, 2)) x = R.pick(terms);
    if (R.chance(1, 3)) { vector<int> f; for (int t : terms) if (!c.g.syms[t].fallback.empty() && c.g.syms[t].fallback[0] == x) f.push_back(t); if (!f.empty()) x = R.pick(f); }
    s.push_back({x, 0, 0}); }
  damage(R, s, terms, dmg, 0); s.erase(std::remove_if(s.begin(), s.end(), [](const Tok &t) { return t.sym < 2; }), s.end()); if (s.size() > 4000) s.resize(4000); return s; }
void genRunsLemon(Case &c, Rng &R, int n) {
  const string &p = c.prop; const Opt &o = c.o; vector<int> terms; for (size_t i = 2; i < c.g.syms.size(); i++) if (c.g.syms[i].term) terms.push_back((int)i);
  for (int i = 0; i < n; i++) { Run run; int ninst = p == "L05" ? R.range(2, 5) : 1;
    for (int k = 0; k < ninst; k++) { Script s; int ns = p == "L01" ? (R.chance(1, 6) ? 2 : 1) : R.range(1, 4); int total = 0;
      for (int j = 0; j < ns; j++) { int dm = R.chance(2, 5) ? 0 : R.range(1, 3); if (p == "L02" || p == "L04") dm = R.chance(1, 4) ? 0 : R.range(1, 6); if (p == "L03" && R.chance(3, 4)) dm = 0; int budget = R.pick(vector<int>{3, 8, 15, 30, 60}); if (p == "L03") budget = R.pick(vector<int>{10, 60, 150, 400, 900});
        s.streams.push_back(lstream(c, R, budget, dm, terms)); total += (int)s.streams.back().size() + 1; }
      s.dyn = R.below(4);
      if (R.chance(p == "L04" ? 1 : p == "L01" ? 0 : 1, p == "L04" ? 2 : 8)) s.discardAt = R.range(1, std::max(1, total));
      if (R.chance(p == "L03" ? 1 : p == "L01" ? 0 : 1, p == "L03" ? 2 : 8)) { int m = R.range(1, 3), base = o.lstack < 0 ? 2 : 1; while (m-- > 0) s.allocFail.push_back(R.below(R.chance(1, 2) ? base + 1 : 8)); }
      run.inst.push_back(s); }
    run.sched = R.next() >> 1; c.runs.push_back(run); } }
bool genLemon(const string &prop, Rng &R, Case &c, Auto &A) {
  Prof p; p.dtor = p.loc = p.B = p.uni = p.mid = p.below = 0; p.pure = 0; p.errRules = 25; p.noact = 20;
  bool wantDtor = false; int stackKind = 0;
  if (prop == "L01") p.big = 8, p.huge = 2;
  if (prop == "L02") { p.errRules = 85; p.prec = 35; p.nasty = 5; p.big = 2; }
  if (prop == "L03") { p.errRules = 30; p.prec = 20; p.big = 1; stackKind = 1; }
  if (prop == "L04") { p.errRules = 60; p.prec = 25; p.big = 2; wantDtor = true; }
  if (prop == "L05") { p.errRules = 50; p.big = 1; }
  if (prop == "L06") { p.errRules = 60; p.prec = 35; p.big = 3; stackKind = R.chance(1, 3); wantDtor = R.chance(1, 4); }
  Gen G(R, c, p); Grammar &g = c.g; Opt &o = c.o; g.dialect = 1; Sym end; end.name = "$"; end.term = true; Sym err; err.name = "error"; err.term = true; g.syms = {end, err};
  bool allowErr = R.chance(prop == "L02" ? 9 : prop == "L01" ? 3 : 6, 10); if (!allowErr) G.p.errRules = 0;
  int kind = R.below(10);
  if (gHuge >= 0) p.huge = gHuge;
  bool huge = R.chance(p.huge, 100); if (huge) G.hugeTemplate();
  else if (R.chance(p.big, 100)) { G.randomTemplate(R.range(12, 45), R.range(20, 90)); if (R.chance(1, 2)) G.exprTemplate(G.N[R.below((int)G.N.size())], -1); }
  else if (kind < 4) { G.randomTemplate(R.range(1, 7), R.range(2, 10)); }
  else if (kind < 6) { int S = G.addNt(), E = G.addNt(); if (R.chance(1, 2)) G.listTemplate(S, E); else { int t = G.addTok(); G.rule(S, {E}); if (R.chance(1, 2)) G.rule(S, {S, t, E}); } G.exprTemplate(E, -1); if (R.chance(1, 3)) G.randomTemplate(1, 0); }
  else if (kind < 9) { int P = G.addNt(), L = G.addNt(), S = G.addNt(), E = G.addNt(); G.rule(P, {L}); G.listTemplate(L, S); G.stmtTemplate(S, E, L); if (R.chance(2, 3)) G.exprTemplate(E, -1); else { int a = G.addTok(), b = G.addTok(); G.rule(E, {a}); G.rule(E, {E, b, a}); if (R.chance(1, 2)) G.rule(E, {}); } }
  else { int S = G.addNt(); int a = G.addTok(), b = G.addTok(); G.rule(S, {a, S, b}); G.rule(S, {}); if (R.chance(1, 2)) G.rule(S, {S, a}); G.randomTemplate(R.range(1, 3), 4); G.rule(S, {G.N[1]}); }
  if (R.chance(1, 8)) { Rule r = R.pick(g.rules); if (!r.rhs.empty()) { r.rhs[R.below((int)r.rhs.size())].sym = R.pick(G.T); g.rules.push_back(r); } }
  while (G.T.size() < 3 && R.chance(2, 3)) G.addTok();
  for (int n : G.N) { bool has = false; for (auto &r : g.rules) if (r.lhs == n) has = true; if (!has) G.rule(n, {R.pick(G.T)}); }
  G.finish(); if (g.rules.empty()) return false; o = Opt(); o.flavor = 2;
  auto used = [&](int s) { for (auto &r : g.rules) for (auto &e : r.rhs) if (e.sym == s) return true; return false; };
  if (used(g.start)) { Sym s; s.name = "top_goal"; g.syms.push_back(s); int t = (int)g.syms.size() - 1; Rule r; r.lhs = t; Elem e; e.sym = g.start; r.rhs.push_back(e); if (R.chance(1, 4)) { Elem q; q.sym = R.pick(G.T); r.rhs.push_back(q); } if (R.chance(1, 2)) g.rules.insert(g.rules.begin(), r); else g.rules.push_back(r); G.N.push_back(t); g.start = t; if (R.chance(1, 6)) { Rule r2; r2.lhs = t; g.rules.push_back(r2); } }
  g.startDecl = g.rules[0].lhs != g.start || R.chance(1, 3);
  // values
  g.tags = {"iv", "lv", "bv", "pv"}; g.syms[0].tag = R.below(4); if (R.chance(1, 8)) g.defaultType = R.range(1, 4);
  int unv = R.pick(vector<int>{0, 0, 10, 40, 100}); for (int n : G.N) g.syms[n].tag = R.chance(unv, 100) ? -1 : R.chance(1, 4) ? g.syms[0].tag : R.below(4);
  // without %default_type and %type, a nonterminal has the type of the tokens, so it stays unused when unvalued
  for (size_t i = 2; i < g.syms.size(); i++) if (g.syms[i].term) g.syms[i].tag = -1;
  // token classes
  if (R.chance(2, 5) && G.T.size() >= 2) for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym > 1 && g.syms[e.sym].term && R.chance(1, 4)) { e.alts = {e.sym}; int m = R.range(1, 2); while (m-- > 0) { int t = R.pick(G.T); if (!std::count(e.alts.begin(), e.alts.end(), t)) e.alts.push_back(t); } if (e.alts.size() < 2) e.alts.clear(); }
  if (R.chance(2, 3)) { // the same class again elsewhere
    vector<vector<int>> cl; for (auto &r : g.rules) for (auto &e : r.rhs) if (!e.alts.empty()) cl.push_back(e.alts);
    if (!cl.empty() && R.chance(2, 3)) { vector<int> a = R.pick(cl); bool wide = R.chance(1, 3); int den = R.chance(1, 2) ? 4 : 100; for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym > 1 && g.syms[e.sym].term && e.alts.empty() && (e.sym == a[0] || (wide && std::count(a.begin(), a.end(), e.sym))) && R.chance(den - 1, den)) { e.alts = a; e.sym = a[0]; } }
    if (!cl.empty()) for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym > 1 && g.syms[e.sym].term && R.chance(1, 10)) { e.alts = R.pick(cl); e.sym = e.alts[0]; } }
  if (R.chance(1, 6) && G.T.size() >= 2) { // one class for every use of the most frequent tokens: many states share it
    map<int, int> cnt; for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym > 1 && g.syms[e.sym].term && e.alts.empty()) cnt[e.sym]++;
    int best = 0; for (auto &x : cnt) if (!best || x.second > cnt[best]) best = x.first; int t = R.pick(G.T); int part = R.below(2); if (best && t != best) for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0 && e.sym == best && e.alts.empty() && (!part || R.chance(1, 2))) e.alts = {best, t}; }
  // fallbacks and the wildcard
  if (R.chance(1, 3) && G.T.size() >= 3) { vector<int> t = G.T; for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[R.below((int)i)]); int nt = R.chance(1, 3) ? 2 : 1; size_t at = 0; while (nt-- > 0 && at + 1 < t.size()) { int target = t[at++]; int k = R.range(1, 3); while (k-- > 0 && at < t.size()) g.syms[t[at++]].fallback = {target}; } if (R.chance(1, 3)) { int x = G.addTok(); g.syms[x].fallback = {t[0]}; } }
  if (R.chance(1, 6)) { int w = R.pick(G.T); g.syms[w].wildcard = 1; if (R.chance(1, 2)) { Rule &r = R.pick(g.rules); if (r.rhs.size() > 1) { Elem e; e.sym = w; r.rhs[R.range(1, (int)r.rhs.size() - 1)] = e; } } }
  if (R.chance(1, 4)) G.addTok(); // a token no rule mentions
  // a class and a prec mark of a rule
  // destructors
  int dm = wantDtor ? R.range(1, 15) : R.chance(1, 4) ? R.range(0, 15) : 0;
  if (dm & 1) g.syms[0].dtor = 1;
  if (dm & 2) for (int n : G.N) if (g.syms[n].tag >= 0 && R.chance(1, 2)) g.syms[n].dtor = R.chance(1, 4) ? 2 : R.chance(1, 3) ? 3 : 1;
  if ((dm & 12) == 12) { g.defDtor = 1; for (int n : G.N) { if (n != g.start && g.syms[n].tag < 0) g.syms[n].tag = R.pick(vector<int>{0, 1, 3}); if (g.syms[n].tag == 2 && !g.syms[n].dtor && n != g.start) g.syms[n].tag = 0; } for (int n : G.N) if (n == g.start && g.syms[n].tag < 0) { g.syms[n].dtor = 0; } }
  if (wantDtor && !g.syms[0].dtor && !g.defDtor) { bool any = false; for (int n : G.N) any |= g.syms[n].dtor > 0; if (!any) g.syms[0].dtor = 1; }
  g.hooks = R.chance(1, 2) ? 15 : R.below(16); if (prop == "L02") g.hooks |= 3; if (prop == "L03") g.hooks |= 8;
  // actions
  int aliasRate = R.pick(vector<int>{0, 5, 30, 60}), generic = R.chance(1, 8);
  for (auto &r : g.rules) { bool valued = g.syms[r.lhs].tag >= 0; r.actFlags &= ~8; if (valued) r.action = 1; else r.action = R.chance(1, 3) ? (R.chance(1, 2) ? 0 : 2) : 1; if (r.action != 1) { r.actFlags &= ~1; continue; }
    if (generic && R.chance(1, 2)) { r.actFlags = 128; for (auto &e : r.rhs) e.noref = 0; continue; }
    for (auto &e : r.rhs) { e.noref = R.chance(aliasRate, 100) ? 1 : 0; if (R.chance(1, 5)) e.noref |= 2; if (e.noref & 1) e.noref = 1; }
    if (valued && !r.rhs.empty() && r.rhs[0].alts.empty() && r.rhs[0].sym > 1 && !g.syms[r.rhs[0].sym].term && g.syms[r.rhs[0].sym].tag == g.syms[r.lhs].tag && !(r.rhs[0].noref & 1) && R.chance(1, 3)) r.actFlags |= 32;
    else if (valued && R.chance(1, 4)) r.actFlags |= 64; }
  // options
  o.lc = R.chance(1, prop == "L01" ? 3 : 6); o.lr = R.chance(1, 6); o.lp = R.chance(1, 8); o.ls = R.chance(1, 10); o.l = R.chance(1, 4); o.v = R.chance(1, 3); o.g = R.chance(1, 10); o.H = R.chance(1, 10); o.d = R.chance(1, 6); o.u = R.chance(1, 15); o.z = R.chance(1, 8);
  o.ltmpl = R.chance(2, 3) ? 0 : R.range(1, 2); o.lextra = R.below(3); o.lndebug = R.chance(1, 4); o.ltrace = R.chance(1, 6); o.lpeak = R.chance(prop == "L03" ? 1 : 1, prop == "L03" ? 2 : 8);
  if (prop == "L06") { o.ltrace = R.chance(3, 4) ? 2 : R.range(3, 5); o.lndebug = R.chance(1, 12); }
  if (R.chance(1, 5)) o.prefix = R.pick(vector<string>{"zz", "My_Parse", "P"}); if (R.chance(1, 4)) o.base = R.pick(vector<string>{"TK_", "T", "X__"});
  bool anyErr = used(1); if (!anyErr && R.chance(1, 5)) o.lnorec = 1;
  int sk = stackKind ? R.below(4) : R.below(8); if (sk <= 1) o.lstack = -1; else if (sk == 2) o.lstack = stackKind ? R.range(3, 30) : R.range(20, 200); else if (sk == 3 && stackKind) o.lstack = R.range(2, 8);
  if (!productive(g)) return false;
  // every nonterminal reachable: lemon refuses rules it can never reduce
  buildAuto(c, A, huge ? 3000 : 2500); for (int again = 0; huge && again < 10 && !A.never.empty(); again++) { for (int r : A.never) { Elem e; e.sym = R.pick(G.T); auto &rhs = g.rules[r].rhs; if (rhs.size() < 9) rhs.insert(rhs.begin() + (g.syms[g.rules[r].lhs].tag >= 0 && (g.rules[r].actFlags & 32) ? rhs.size() : 0), e); } buildAuto(c, A, 3000); } if (A.tooBig || A.finalState < 0) return false;
  return true;
}

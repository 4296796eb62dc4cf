// Seeded generator of byacc grammars, options, token streams and fault schedules.
#include "gen_tmpl.h"
static void minDepth(const Grammar &g, vector<int> &sd, vector<int> &rd) { int n = (int)g.syms.size(); sd.assign(n, 1 << 20); for (int i = 0; i < n; i++) if (g.syms[i].term) sd[i] = 0; rd.assign(g.rules.size(), 1 << 20);
  for (bool ch = true; ch;) { ch = false; for (size_t r = 0; r < g.rules.size(); r++) { int m = 0; for (auto &e : g.rules[r].rhs) if (e.kind == 0) { int d = sd[e.sym]; if (!e.alts.empty()) d = 0; m = std::max(m, d); } if (m < (1 << 20) && m + 1 < rd[r]) { rd[r] = m + 1; ch = true; } if (rd[r] < sd[g.rules[r].lhs]) { sd[g.rules[r].lhs] = rd[r]; ch = true; } } } }
bool productive(const Grammar &g) { vector<int> sd, rd; minDepth(g, sd, rd); for (size_t i = 0; i < g.rules.size(); i++) if (rd[i] >= (1 << 20)) return false; return true; }
// random derivation; budget bounds the length
void derive(const Grammar &g, Rng &R, int sym, int budget, vector<int> &out) {
  vector<int> sd, rd; minDepth(g, sd, rd); map<int, vector<int>> by; for (size_t r = 0; r < g.rules.size(); r++) by[g.rules[r].lhs].push_back((int)r);
  struct F { int sym; vector<int> alts; }; vector<F> st{{sym, {}}}; long steps = 0; 
  while (!st.empty()) { F f = st.back(); st.pop_back(); if (++steps > 20000) return; int s = f.sym; if (!f.alts.empty()) { out.push_back(R.pick(f.alts)); continue; } if (g.syms[s].term) { out.push_back(s); continue; }
    auto &v = by[s]; if (v.empty()) continue; int r; bool tight = (int)out.size() + (int)st.size() > budget;
    if (tight) { r = v[0]; for (int x : v) if (rd[x] < rd[r]) r = x; } else { r = R.pick(v); if (R.chance(1, 3)) { int q = R.pick(v); if (g.rules[q].rhs.size() > g.rules[r].rhs.size()) r = q; } }
    auto &rh = g.rules[r].rhs; for (size_t k = rh.size(); k-- > 0;) if (rh[k].kind == 0) { st.push_back({rh[k].sym, rh[k].alts}); } } }
void damage(Rng &R, vector<Tok> &s, const vector<int> &terms, int n, Probes *P) {
  auto rt = [&]() { Tok t; t.sym = R.pick(terms); t.rawCode = 0; t.val = 0; return t; };
  while (n-- > 0) { int sz = (int)s.size(); if (sz == 0) { s.push_back(rt()); continue; } int i = R.below(sz);
    switch (R.below(9)) { case 0: s.erase(s.begin() + i); break; case 1: s.insert(s.begin() + i, s[i]); break; case 2: if (i + 1 < sz) std::swap(s[i], s[i + 1]); break; case 3: s[i] = rt(); break; case 4: s.insert(s.begin() + i, rt()); break; case 5: s.resize(i); break;
      case 6: { Tok t; t.sym = -1; t.val = 0; t.rawCode = R.pick(vector<int>{3, 4, 31000, 20001, 255, 254}); for (int q : terms) (void)q; s.insert(s.begin() + i, t); break; } case 7: { int j = std::min(sz, i + R.range(1, 4)); vector<Tok> cp(s.begin() + i, s.begin() + j); s.insert(s.begin() + j, cp.begin(), cp.end()); break; } default: s[i] = rt(); } } (void)P; }
static vector<Tok> stream(const Case &c, Rng &R, int budget, int dmg, const vector<int> &terms) { vector<int> d; derive(c.g, R, c.g.start, budget, d); vector<Tok> s; for (int x : d) { if (x == 1) { if (R.chance(1, 2)) { Tok t{R.pick(terms), 0, 0}; s.push_back(t); } continue; } s.push_back({x, 0, 0}); } damage(R, s, terms, dmg, 0); if (s.size() > 4000) s.resize(4000); return s; }
void genRunsYacc(Case &c, Rng &R, int n) { const string &p = c.prop; vector<int> terms; for (size_t i = 2; i < c.g.syms.size(); i++) if (c.g.syms[i].term) terms.push_back((int)i);
  for (int i = 0; i < n; i++) { Run run; int ninst = 1; if (p == "P06") ninst = R.range(2, 4);
    for (int k = 0; k < ninst; k++) { Script s; int ns = p == "P02" || p == "P03" || p == "P04" ? R.range(1, 3) : R.chance(1, 6) ? 2 : 1;
      for (int j = 0; j < ns; j++) { int dm = R.chance(2, 5) ? 0 : R.range(1, 3); if (p == "P02" || p == "P04" || p == "P07") dm = R.chance(1, 4) ? 0 : R.range(1, 5); if (p == "P03" && R.chance(3, 4)) dm = 0; int budget = R.pick(vector<int>{3, 8, 15, 30, 60}); if (p == "P03") budget = R.pick(vector<int>{10, 60, 150, 400, 900});
        s.streams.push_back(stream(c, R, budget, dm, terms)); }
      if (p == "P05") s.dyn = R.below(1000);
      bool ctl = p == "P02" || p == "P04" ? R.chance(1, 2) : R.chance(1, 12); if (p == "P07") ctl = R.chance(1, 6); if (gStrict == 5 || gStrict == 11) ctl = true;
      if (ctl) { int m = R.range(1, 3); for (int q = 0; q < m; q++) s.ctl.push_back({R.below(R.pick(vector<int>{3, 10, 25})), R.range(1, 6)}); std::sort(s.ctl.begin(), s.ctl.end()); }
      if ((p == "P03" && R.chance(1, 2)) || ((p == "P06" || p == "P04" || p == "P05") && R.chance(1, 5))) { int m = R.range(1, 2); for (int q = 0; q < m; q++) s.allocFail.push_back(p == "P04" && gStrict != 1 ? R.range(2 + c.o.loc, 14) : R.chance(1, 2) ? R.below(4) : R.below(12)); }
      run.inst.push_back(s); }
    run.sched = R.next() >> 1; c.runs.push_back(run); } }
bool genYacc(const string &prop, Rng &R, Case &c, Auto &A) {
  Prof p;
  if (prop == "P01") { p.big = 8; p.huge = 2; }
  if (prop == "P02") { p.errRules = 80; p.prec = 30; p.nasty = 0; p.big = 2; }
  if (prop == "P03") { p.errRules = 20; p.prec = 20; p.big = 1; p.noact = 5; }
  if (prop == "P04") { p.dtor = 1; p.errRules = 60; p.uni = 60; p.prec = 20; p.big = 2; p.below = 0; }
  if (prop == "P05") { p.B = 1; p.prec = 25; p.errRules = 40; p.uni = 0; p.nasty = 0; p.ambig = 80; p.big = 2; p.below = 0; p.loc = 20; p.mid = 20; p.pure = 20; }
  if (prop == "P06") { p.pure = 100; p.errRules = 50; p.big = 1; }
  if (prop == "P07") { p.below = 25; p.loc = 100; p.errRules = 60; p.big = 1; p.pure = 30; }
  if (prop == "P08") { p.mid = 60; p.below = 40; p.noact = 10; p.uni = 25; p.big = 1; p.inh = 60; p.loc = 15; if (R.chance(1, 5)) { p.B = 1; p.uni = 0; p.nasty = 0; p.loc = 0; p.mid = 30; } }
  if (prop == "P09") { p.errRules = 45; p.prec = 30; p.mid = 25; p.uni = 25; p.inh = 12; p.loc = 10; p.pure = 20; p.nasty = 5; p.big = 2; if (R.chance(1, 3)) { p.B = 1; p.uni = 0; p.nasty = 0; p.below = 0; p.ambig = 80; } }
  if (prop != "P07" && p.loc) p.loc = R.chance(p.loc, 100) ? 100 : 0;
  if (prop == "P01") p.inh = 8; if (prop == "P02") p.inh = 10; if (prop == "P03") p.inh = 10; if (prop == "P05") p.inh = 25; if (prop == "P06") p.inh = 10; if (prop == "P07") p.inh = 25;
  if (gStrict == 3 || gStrict == 9) { p.B = 1; p.pure = 100; p.loc = 0; p.below = 0; p.uni = 0; p.nasty = 0; }
  if (gStrict == 1 && prop == "P03") p.dtor = 1;
  Gen G(R, c, p); Grammar &g = c.g; g.dialect = 0; Sym end; end.name = "$end"; end.term = true; Sym err; err.name = "error"; err.term = true; g.syms = {end, err};
  int kind = R.below(10);
  if (gHuge >= 0) p.huge = gHuge;
  bool huge = R.chance(p.huge, 100); if (huge) G.hugeTemplate();
  else if (R.chance(p.big, 100)) { G.randomTemplate(R.range(12, 45), R.range(20, 90)); if (R.chance(1, 2)) G.exprTemplate(G.N[R.below((int)G.N.size())], -1); }
  else if (kind < 4) { G.randomTemplate(R.range(1, 7), R.range(2, 10)); }
  else if (kind < 6) { int S = G.addNt(), E = G.addNt(); if (R.chance(1, 2)) G.listTemplate(S, E); else { int t = G.addTok(); G.rule(S, {E}); if (R.chance(1, 2)) G.rule(S, {S, t, E}); } G.exprTemplate(E, -1); if (R.chance(1, 3)) G.randomTemplate(1, 0); }
  else if (kind < 9) { int P = G.addNt(), L = G.addNt(), S = G.addNt(), E = G.addNt(); G.rule(P, {L}); G.listTemplate(L, S); G.stmtTemplate(S, E, L); if (R.chance(2, 3)) G.exprTemplate(E, -1); else { int a = G.addTok(), b = G.addTok(); G.rule(E, {a}); G.rule(E, {E, b, a}); if (R.chance(1, 2)) G.rule(E, {}); } }
  else { int S = G.addNt(); int a = G.addTok(), b = G.addTok(); G.rule(S, {a, S, b}); G.rule(S, {}); if (R.chance(1, 2)) G.rule(S, {S, a}); G.randomTemplate(R.range(1, 3), 4); G.rule(S, {G.N[1]}); }
  if (p.ambig && R.chance(1, 6)) { Rule r = R.pick(g.rules); if (!r.rhs.empty()) { r.rhs[R.below((int)r.rhs.size())].sym = R.pick(G.T); g.rules.push_back(r); } }
  // nonterminals that ended without rules
  for (int n : G.N) { bool has = false; for (auto &r : g.rules) if (r.lhs == n) has = true; if (!has) G.rule(n, {R.pick(G.T)}); }
  G.finish(); if (g.rules.empty()) return false;
  for (int n : G.N) { bool has = false; for (auto &r : g.rules) if (r.lhs == n) has = true; if (!has) return false; }
  if (!productive(g)) return false;
  if (prop == "P04" && R.chance(1, 2)) c.o.initStack = R.range(2, 6);
  if (prop == "P03") { c.o.initStack = R.chance(3, 4) ? R.range(2, 12) : 0; if (R.chance(1, 2)) { c.o.maxDepth = c.o.initStack ? R.range(c.o.initStack, 120) : R.range(200, 900); } if (c.o.flavor == 1) { c.o.maxDepth = R.chance(1, 2) ? R.range(200, 700) : 0; } }
  if (gStrict == 10 && !p.B) { c.o.flavor = 0; c.o.initStack = 1; }
  for (int it : G.T) for (int jt : G.T) if (it < jt && g.syms[it].code > 0 && g.syms[it].code == g.syms[jt].code) return false;
  if (prop == "P09") { c.o.dbg = R.pick(vector<int>{1, 1, 1, 2, 2, 3, 4, 5, 6}); c.o.t = c.o.dbg < 5; if (c.o.dbg == 5 && c.o.r) c.o.dbg = 2, c.o.t = 1; if (g.tags.empty() && !c.o.r && R.chance(1, 2)) c.o.valid |= 8; if (R.chance(1, 3)) c.o.initStack = R.range(2, 9); }
  if (p.B) { c.o.B = 1; c.o.flavor = 0; c.o.maxDepth = R.range(60, 400); if (c.o.initStack > c.o.maxDepth) c.o.initStack = 0; if (!c.o.initStack && c.o.maxDepth < 200) c.o.initStack = R.range(2, c.o.maxDepth); if (R.chance(1, 3)) c.o.lvgrowth = R.range(1, 6);
    for (auto &r : g.rules) { r.actFlags &= ~1; for (auto &e : r.rhs) if (e.kind == 1 && R.chance(1, 3)) { e.kind = 2; if (R.chance(1, 3)) e.noref = R.chance(2, 3) ? 2 : 16; }
      if (r.action == 1 && R.chance(1, 6)) { r.action = 2; if (R.chance(1, 3)) r.actFlags |= R.chance(2, 3) ? 2 : 16; }
      else if (r.action == 1 && R.chance(1, 10)) { Elem e; e.kind = 2; e.tag = -1; if (R.chance(1, 2)) e.noref = 2; r.rhs.push_back(e); } } }
  buildAuto(c, A, huge ? 3000 : 2500); if (A.tooBig || A.finalState < 0) return false;
  if (p.B && A.sr + A.rr == 0 && !R.chance(1, 8)) return false;
  return true;
}

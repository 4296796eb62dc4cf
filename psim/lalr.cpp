#include "lalr.h"
#include <deque>
void Auto::buildLR(int maxStates) {
  byLhs.assign(nsym, {});
  for (size_t r = 0; r < rules.size(); r++) byLhs[rules[r].lhs].push_back((int)r);
  nullable.assign(nsym, 0); first.assign(nsym, Bits());
  for (auto &b : first) b.init(nsym);
  for (int s = 0; s < nsym; s++) if (isTerm[s] == 1) first[s].set(s); else if (isTerm[s] == 2) for (int m : members[s]) first[s].set(m); // 2: token class, 3: error symbol of lemon
  for (bool ch = true; ch;) { ch = false;
    for (auto &r : rules) { bool allNull = true;
      for (int x : r.rhs) { if (first[r.lhs].orIn(first[x])) ch = true; if (!nullable[x]) { allNull = false; break; } }
      if (allNull && !nullable[r.lhs]) { nullable[r.lhs] = 1; ch = true; } } }
  map<vector<pair<int,int>>, int> idx; st.clear();
  auto closureNts = [&](const vector<pair<int,int>> &k) { vector<char> in(nsym, 0); vector<int> q;
    for (auto &it : k) { auto &r = rules[it.first]; if (it.second < (int)r.rhs.size()) { int x = r.rhs[it.second]; if (!isTerm[x] && !in[x]) { in[x] = 1; q.push_back(x); } } }
    for (size_t i = 0; i < q.size(); i++) for (int r : byLhs[q[i]]) if (!rules[r].rhs.empty()) { int x = rules[r].rhs[0]; if (!isTerm[x] && !in[x]) { in[x] = 1; q.push_back(x); } }
    std::sort(q.begin(), q.end()); return q; };
  vector<pair<int,int>> k0{{0, 0}}; idx[k0] = 0; st.emplace_back(); st[0].kernel = k0;
  for (size_t s = 0; s < st.size(); s++) {
    if ((int)st.size() > maxStates) { tooBig = true; return; }
    map<int, vector<pair<int,int>>> nx; auto k = st[s].kernel;
    for (auto &it : k) { auto &r = rules[it.first]; if (it.second < (int)r.rhs.size()) nx[r.rhs[it.second]].push_back({it.first, it.second + 1}); }
    for (int nt : closureNts(k)) for (int r : byLhs[nt]) if (!rules[r].rhs.empty()) nx[rules[r].rhs[0]].push_back({r, 1});
    for (auto &e : nx) { auto kk = e.second; std::sort(kk.begin(), kk.end()); kk.erase(std::unique(kk.begin(), kk.end()), kk.end());
      auto f = idx.find(kk); int t; if (f == idx.end()) { t = (int)st.size(); idx[kk] = t; st.emplace_back(); st[t].kernel = kk; st[t].accessing = e.first; } else t = f->second;
      st[s].go[e.first] = t; } }
  for (auto &s : st) { s.la.assign(s.kernel.size(), Bits()); for (auto &b : s.la) b.init(nsym); }
  // the start item's lookahead is $end (symbol 0); harmless for yacc where rule 0 ends with $end
  st[0].la[0].set(0);
  std::deque<int> work; vector<char> inq(st.size(), 1);
  for (size_t i = 0; i < st.size(); i++) work.push_back((int)i);
  vector<Bits> ntla(nsym);
  auto closeLA = [&](int s, vector<int> &nts) { nts = closureNts(st[s].kernel);
    for (int x : nts) { ntla[x].init(nsym); }
    auto feed = [&](const MRule &r, int dot, const Bits &la) { bool ch = false; if (dot >= (int)r.rhs.size() || isTerm[r.rhs[dot]]) return false;
      Bits &t = ntla[r.rhs[dot]]; size_t j = dot + 1; for (; j < r.rhs.size(); j++) { if (t.orIn(first[r.rhs[j]])) ch = true; if (!nullable[r.rhs[j]]) break; }
      if (j == r.rhs.size()) if (t.orIn(la)) ch = true; return ch; };
    for (size_t i = 0; i < st[s].kernel.size(); i++) feed(rules[st[s].kernel[i].first], st[s].kernel[i].second, st[s].la[i]);
    for (bool ch = true; ch;) { ch = false; for (int x : nts) for (int r : byLhs[x]) if (feed(rules[r], 0, ntla[x])) ch = true; } };
  while (!work.empty()) { int s = work.front(); work.pop_front(); inq[s] = 0; vector<int> nts; closeLA(s, nts);
    auto prop = [&](int rule, int dot, const Bits &la) { auto &r = rules[rule]; if (dot >= (int)r.rhs.size()) return; int t = st[s].go[r.rhs[dot]]; auto &kt = st[t].kernel;
      size_t j = std::lower_bound(kt.begin(), kt.end(), std::make_pair(rule, dot + 1)) - kt.begin();
      if (st[t].la[j].orIn(la) && !inq[t]) { inq[t] = 1; work.push_back(t); } };
    for (size_t i = 0; i < st[s].kernel.size(); i++) prop(st[s].kernel[i].first, st[s].kernel[i].second, st[s].la[i]);
    for (int x : nts) for (int r : byLhs[x]) prop(r, 0, ntla[x]); }
  for (size_t s = 0; s < st.size(); s++) { vector<int> nts; closeLA((int)s, nts); auto &S = st[s];
    auto shiftOn = [&](int t, int to) { S.acts[t].push_back({0, to, prec.empty() ? 0 : prec[t], assoc.empty() ? 0 : assoc[t]}); };
    for (auto &g : S.go) if (isTerm[g.first] == 1) shiftOn(g.first, g.second); else if (isTerm[g.first] == 2) for (int m : members[g.first]) shiftOn(m, g.second);
    vector<pair<int, const Bits *>> red;
    for (size_t i = 0; i < S.kernel.size(); i++) if (S.kernel[i].second == (int)rules[S.kernel[i].first].rhs.size()) red.push_back({S.kernel[i].first, &S.la[i]});
    for (int x : nts) for (int r : byLhs[x]) if (rules[r].rhs.empty()) red.push_back({r, &ntla[x]});
    std::sort(red.begin(), red.end(), [](const pair<int, const Bits *> &a, const pair<int, const Bits *> &b) { return a.first < b.first; });
    for (auto &e : red) for (int t = 0; t < nsym; t++) if (isTerm[t] == 1 && e.second->get(t)) S.acts[t].push_back({1, e.first, rules[e.first].prec, rules[e.first].assoc}); }
  finalState = st[0].go.count(start) ? st[0].go[start] : -1;
}
void Auto::yaccTables(bool lemonPrec, bool, bool backtrack) {
  sr = rr = 0;
  for (size_t i = 0; i < st.size(); i++) { auto &S = st[i];
    // $end is never shifted: yyparse accepts when it reaches the final state with $end as lookahead
    for (auto &e : S.acts) e.second.erase(std::remove_if(e.second.begin(), e.second.end(), [&](const MAct &a) { return a.kind == 0 && e.first == 0; }), e.second.end());
    if ((int)i != 0) { // the state after $end only "reduces" rule 0: no run-time action
      for (auto it = S.acts.begin(); it != S.acts.end();) { auto &v = it->second; v.erase(std::remove_if(v.begin(), v.end(), [](const MAct &a) { return a.kind == 1 && a.num == 0; }), v.end()); if (v.empty()) it = S.acts.erase(it); else ++it; } }
    for (auto &e : S.acts) { auto &v = e.second; int pref = 0;
      auto startBt = [&](int p) { if (backtrack && v[p].supp == 0) v[p].supp = 1; };
      for (size_t k = 1; k < v.size(); k++) { MAct &p = v[k]; MAct &q = v[pref];
        if ((int)i == finalState && e.first == 0) { sr++; p.supp = 1; startBt(pref); }
        else if (q.kind == 0) {
          if (q.prec > 0 && p.prec > 0) {
            if (q.prec < p.prec) { q.supp = 2; pref = (int)k; } else if (q.prec > p.prec) p.supp = 2;
            else if (q.assoc == A_LEFT) { q.supp = 2; pref = (int)k; } else if (q.assoc == A_RIGHT) p.supp = 2;
            else { q.supp = 2; p.supp = 2; }
          } else { sr++; p.supp = 1; startBt(pref); }
        } else { bool b = false;
          if (lemonPrec && q.prec > 0 && p.prec > 0) { if (q.prec < p.prec) { q.supp = 2; pref = (int)k; b = true; } else if (q.prec > p.prec) { p.supp = 2; b = true; } }
          if (!b) { rr++; p.supp = 1; startBt(pref); } } } }
    // default reduction
    int count = 0, rule = -1; bool ok = true;
    for (auto &e : S.acts) for (auto &a : e.second) { bool may = backtrack ? a.supp <= 1 : a.supp == 0; if (!may) continue;
      if (a.kind == 0) ok = false; else { if (rule >= 0 && a.num != rule) ok = false; if (e.first != 1) count++; rule = a.num; } }
    S.defred = ok && count ? rule : -1;
    for (auto &e : S.acts) for (auto &a : e.second) if (a.supp == 0) { S.tab[e.first] = a; break; } }
}

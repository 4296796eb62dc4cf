// Executable reference model of a lemon parser: LALR(1) automaton, lemon's conflict rules and run-time rules.
#include "exec.h"
#include "heap.h"
string lemonText(const Case &c, int expect, vector<int> *order);
void buildLemonAuto(const Case &c, Auto &A, int maxStates) {
  const Grammar &g = c.g; const Opt &o = c.o; int ns = (int)g.syms.size(); A = Auto(); auto no = [&](const char *w) { A.tooBig = true; A.why = w; };
  map<vector<int>, int> cls; int next = ns + 1; for (auto &r : g.rules) for (auto &e : r.rhs) if (!e.alts.empty() && !cls.count(e.alts)) cls[e.alts] = next++;
  A.nsym = next; A.isTerm.assign(A.nsym, 0); A.prec.assign(A.nsym, 0); A.assoc.assign(A.nsym, 0); A.members.assign(A.nsym, {}); A.fb.assign(A.nsym, 0);
  for (int i = 0; i < ns; i++) A.isTerm[i] = g.syms[i].term; A.isTerm[0] = 1; A.isTerm[1] = 3; for (auto &e : cls) { A.isTerm[e.second] = 2; A.members[e.second] = e.first; }
  for (int i = 2; i < ns; i++) { if (!g.syms[i].fallback.empty()) A.fb[i] = g.syms[i].fallback[0]; if (g.syms[i].wildcard) A.wild = i; }
  if (!o.u) for (size_t l = 0; l < g.precLevels.size(); l++) for (int t : g.precLevels[l]) { A.prec[t] = (int)l + 1; A.assoc[t] = g.syms[t].assoc; }
  lemonText(c, -1, &A.order); int acc = ns; A.start = g.start; MRule r0; r0.lhs = acc; r0.rhs = {g.start}; A.rules.push_back(r0); set<int> have; vector<char> reach(ns, 0);
  for (size_t r = 0; r < g.rules.size(); r++) { const Rule &R = g.rules[r]; have.insert(R.lhs); MRule m; m.lhs = R.lhs; m.src = (int)r; int use = -1;
    for (auto &e : R.rhs) { if (use >= 0 && !o.z) { } if (!e.alts.empty()) { m.rhs.push_back(cls[e.alts]); for (int x : e.alts) if ((o.z || A.prec[x] > 0) && (o.z || use < 0)) use = x; }
      else { m.rhs.push_back(e.sym); if (e.sym == 1) A.hasErr = true; if (e.sym == g.start) return no("start symbol on a right-hand side"); if (e.sym != 1 && g.syms[e.sym].term && (o.z || A.prec[e.sym] > 0) && (o.z || use < 0)) use = e.sym; } }
    if (R.precSym >= 0) use = R.precSym; if (use >= 0 && A.prec[use] > 0) { m.prec = A.prec[use]; m.assoc = A.assoc[use]; } A.rules.push_back(m); }
  if (!have.count(g.start)) return no("start"); for (auto &r : g.rules) for (auto &e : r.rhs) if (e.alts.empty() && e.sym != 1 && !g.syms[e.sym].term && !have.count(e.sym)) return no("nonterminal without rules");
  A.buildLR(maxStates); if (A.tooBig) return;
  vector<int> rank(A.nsym, 1 << 20); rank[0] = 0; for (size_t i = 0; i < A.order.size(); i++) rank[A.order[i]] = (int)i + 1; vector<char> can(A.rules.size(), 0); A.sr = A.rr = 0;
  for (auto &S : A.st) { S.tab.clear(); S.defred = -1;
    for (auto &e : S.acts) { auto &v = e.second; v.erase(std::remove_if(v.begin(), v.end(), [](const MAct &a) { return a.kind == 1 && a.num == 0; }), v.end()); int sh = 0; for (auto &a : v) sh += a.kind == 0; if (sh > 1) return no("shift/shift"); bool err = false; // supp: 0 live, 1 dropped, 3 turned into an error
      for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) { MAct &x = v[i], &y = v[j]; if (x.supp || y.supp) continue;
        if (x.kind == 0) { if (!x.prec || !y.prec) { y.supp = 1; A.sr++; } else if (x.prec > y.prec) y.supp = 1; else if (x.prec < y.prec) x.supp = 1; else if (x.assoc == A_RIGHT) y.supp = 1; else if (x.assoc == A_LEFT) x.supp = 1; else { if (v.size() > 2) return no("three-way conflict"); x.supp = 3; y.supp = 1; err = true; } }
        else if (!x.prec || !y.prec || x.prec == y.prec) { y.supp = 1; A.rr++; } else if (x.prec > y.prec) y.supp = 1; else x.supp = 1; }
      if (err) S.tab[e.first] = MAct{3, 0, 0, 0, 0}; else for (auto &a : v) if (!a.supp) { S.tab[e.first] = a; if (a.kind == 1) can[a.num] = 1; break; } }
    map<int, int> cnt, firstAt; bool wildShift = false;
    for (auto &e : S.tab) { if (e.second.kind == 0 && e.first == A.wild) wildShift = true; if (e.second.kind == 1 && A.rules[e.second.num].lhs != g.start) { cnt[e.second.num]++; int &f = firstAt.emplace(e.second.num, 1 << 28).first->second; f = std::min(f, rank[e.first]); } }
    if (!wildShift && !o.lc) { int best = -1; for (auto &e : cnt) if (best < 0 || e.second > cnt[best] || (e.second == cnt[best] && firstAt[e.first] < firstAt[best])) best = e.first; S.defred = best; } }
  for (size_t r = 1; r < A.rules.size(); r++) if (!can[r]) A.never.push_back((int)r - 1); if (!A.never.empty()) return no("rule never reduced");
  A.finalState = A.st[0].go[g.start];
}
static int tagSize(const string &t) { return t == "bv" ? 16 : t == "lv" || t == "pv" ? 8 : 4; }
namespace {
struct Ent { int sym, state, val; };
struct Lem {
  const Case &c; const Grammar &g; const Opt &o; const Auto &A; Env &E; Probes &P; vector<Ent> st; int errcnt = -1, size = 0, peak = 0; long steps = 0;
  Lem(const Case &c, const Auto &A, Env &E, Probes &P) : c(c), g(c.g), o(c.o), A(A), E(E), P(P) { D = lemonTraceOn(o); }
  bool D = false; void say(const string &t) { if (D) E.line("e:p> " + t); } const string &nm(int s) const { return g.syms[s].name; } string stackText() const { string r = "Return. Stack="; for (size_t i = 0; i < st.size(); i++) r += (i ? " " : "[") + nm(st[i].sym); return r + "]"; }
  bool heap() { bool f = E.heapFails(E.heapNo); E.heapNo++; if (f) E.heapFailed++; return !f; }
  int top() const { return st.empty() ? 0 : st.back().state; }
  void dtor(const Ent &e) { int w = 0; if (e.sym == 1) return; if (e.sym < (int)g.syms.size() && (g.syms[e.sym].term || e.sym == 0)) { if (g.syms[0].dtor && e.val) w = 3000; } else if (g.syms[e.sym].dtor) w = g.syms[e.sym].dtor == 3 ? 2600 + tagSize(g.tags[g.syms[e.sym].tag]) : g.syms[e.sym].dtor == 2 ? 2500 : e.sym + 1; else if (g.defDtor & 1) w = 2000; if (w) { E.tr.ev(EV_DTOR, {w, e.val}); P.hit("destructor call"); } }
  void hook(int bit, int w, int a, int b) { if (g.hooks & (1 << bit)) E.tr.ev(EV_HOOK, {w, a, b}); }
  void init() { st.clear(); errcnt = -1; peak = 0; if (o.lstack < 0) { size = heap() ? 100 : 1; if (size > 1) say("Stack grows"); if (size == 1) P.hit("initial stack allocation failed"); } }
  void popAll() { while (!st.empty()) { Ent e = st.back(); st.pop_back(); say("Popping " + nm(e.sym)); dtor(e); } }
  bool room() { if (o.lstack >= 0) { int n = o.lstack ? o.lstack : 100; if ((int)st.size() + 1 > n - 1) { P.hit("fixed stack exhausted"); return false; } return true; }
    if ((int)st.size() + 1 >= size) { if (!heap()) { P.hit("stack growth failed"); return false; } size = size * 2 + 100; P.hit("stack grown"); say("Stack grows"); } return true; }
  void push(const Ent &e) { st.push_back(e); peak = std::max(peak, (int)st.size()); }
  int lookup(int s, int t, MAct &a) { const MState &S = A.st[s]; auto f = S.tab.find(t); if (f == S.tab.end() && A.fb[t]) { f = S.tab.find(A.fb[t]); if (f != S.tab.end()) P.hit("fallback used"); } if (f == S.tab.end() && A.wild >= 0 && t > 0) { f = S.tab.find(A.wild); if (f != S.tab.end()) P.hit("wildcard used"); }
    if (f != S.tab.end()) { a = f->second; return a.kind; } if (S.defred >= 0) { a = MAct{1, S.defred, 0, 0, 0}; return 1; } return 3; }
  void nasty(int k) { switch (k % 7) { case 0: E.tr.ev(EV_NOTE, {0, noteHash("} \" {")}); break; case 1: E.tr.ev(EV_NOTE, {1, '}'}); break; case 2: E.tr.ev(EV_NOTE, {2, noteHash("\\\\")}); break; case 3: E.tr.ev(EV_NOTE, {5, 3}); break; case 4: E.tr.ev(EV_NOTE, {6, noteHash("/* {")}); E.tr.ev(EV_NOTE, {6, noteHash("*/ // '{")}); break; case 5: E.tr.ev(EV_NOTE, {7, 4}); break; default: E.tr.ev(EV_NOTE, {3, '{'}); } }
  int code(int s) const { return s == 0 ? 0 : (*E.codes)[s]; }
  // what overflow does: everything held is destroyed, the token too
  void overflow(const Ent &tok) { say("Stack Overflow!"); popAll(); hook(3, 4, 0, 0); dtor(tok); errcnt = -1; }
  bool feed(int t, int val) { say("Input '" + nm(t) + "'"); accepted = false; bool r = feed1(t, val); if (D && !accepted) { P.hit("traced: token"); say(stackText()); } return r; }
  bool accepted = false;
  bool feed1(int t, int val) { // false: step limit
    bool errhit = false; Ent tok{t, 0, val};
    for (;;) { if (++steps > 40000 || E.tr.e.size() > 300000) return false;
      MAct a; int k = lookup(top(), t, a);
      if (k == 1) { const MRule &m = A.rules[a.num]; const Rule &R = g.rules[m.src]; size_t n = m.rhs.size(); if (D) { P.hit("traced: reduction"); say("Reduce " + std::to_string(m.src) + " [" + lemonRuleText(g, R) + "]"); }
        if (n == 0 && !room()) { overflow(tok); return true; }
        size_t b = st.size() - n; bool act = R.action == 1; vector<char> al(n, 0); vector<int> v{(R.actFlags & 128) ? 9000 : m.src * 16, 0};
        for (size_t i = 0; i < n; i++) { const Elem &e = R.rhs[i]; const Ent &x = st[b + i]; bool cl = !e.alts.empty(); int tag = cl ? g.syms[0].tag : e.sym == 1 ? -1 : g.syms[e.sym].term ? g.syms[0].tag : g.syms[e.sym].tag; if (!act || tag < 0 || (e.noref & 1)) continue; al[i] = 1; v.push_back(x.val); if ((e.noref & 2) && (cl || g.syms[e.sym].term)) v.push_back(code(x.sym)); }
        if (n && !al[0]) dtor(st[b]);
        int val = 0; if (act) { E.tr.evv(EV_ACT, v); val = E.nextVal++; E.actNo++; if (R.actFlags & 1) nasty(m.src); }
        for (size_t i = 1; i < n; i++) if (!al[i]) dtor(st[b + i]);
        st.resize(b); 
        say("... then shift '" + nm(m.lhs) + "'"); if (m.lhs == g.start && b == 0) { accepted = true; say("Accept!"); peak = std::max(peak, (int)b + 1); errcnt = -1; hook(2, 3, 0, 0); P.hit("accepted"); return true; }
        auto f = A.st[top()].go.find(m.lhs); if (f == A.st[top()].go.end()) { E.tr.ev(EV_NOTE, {-9, 9}); return true; }
        push({m.lhs, f->second, val}); continue; }
      if (k == 0) { if (!room()) { overflow(tok); return true; } push({t, a.num, val}); say("Shift '" + nm(t) + "'"); errcnt--; return true; }
      // syntax error
      P.hit("syntax error"); say("Syntax Error!");
      if (o.lnorec) { hook(0, 1, code(t), val); dtor(tok); return true; }
      if (errcnt <= 0) hook(0, 1, code(t), val); else P.hit("silent error");
      if (!A.hasErr) { errcnt = 3; dtor(tok); if (t == 0) { say("Fail!"); popAll(); hook(1, 2, 0, 0); errcnt = -1; P.hit("parse failed"); } return true; }
      bool onErr = !st.empty() && st.back().sym == 1;
      if ((onErr || errhit) && t != 0) { say("Discard input token " + nm(t)); dtor(tok); errcnt = 3; P.hit("token discarded"); return true; }
      int to = -1; while (!st.empty()) { auto f = A.st[top()].go.find(1); if (f != A.st[top()].go.end()) { to = f->second; break; } Ent e = st.back(); st.pop_back(); say("Popping " + nm(e.sym)); dtor(e); P.hit("entry popped in recovery"); }
      if (to < 0 || t == 0) { dtor(tok); say("Fail!"); popAll(); hook(1, 2, 0, 0); errcnt = -1; P.hit("parse failed"); return true; }
      if (!room()) { overflow(tok); return true; }
      push({1, to, val}); say("Shift 'error'"); P.hit("error symbol shifted"); errcnt = 3; errhit = true; } }
};
}
static void preface(const Case &c, Env &E, const int *defs, int (*fallback)(int)) {
  for (size_t i = 2; i < c.g.syms.size(); i++) if (c.g.syms[i].term) { int k = (*E.codes)[i]; E.tr.ev(EV_NOTE, {20, defs ? defs[i] : k}); int f = c.g.syms[i].fallback.empty() ? 0 : (*E.codes)[c.g.syms[i].fallback[0]]; E.tr.ev(EV_NOTE, {21, fallback ? fallback(k) : f}); } }
// the script, once against the model (api null) and once against the real parser
template <class Api> static bool script(Env &E, Api &p) { const Script &s = *E.s; int fed = 0; bool live = false, alloc = s.dyn == 0 || s.dyn == 3;
  for (size_t k = 0; k < s.streams.size(); k++) { E.nextStream();
    if (!live) { live = p.create(alloc); E.tr.ev(EV_LIFE, {alloc ? 1 : 2, live}); if (!live) { p.destroyNull(); break; } }
    for (;;) { int v = 0, loc[4], sym = 0, code = 0; bool end = E.pos >= s.streams[k].size(); if (!end) code = E.lex(v, loc, sym); E.tr.ev(EV_FEED, {code, v}); if (!p.feed(sym, code, v)) return false; fed++;
      if (fed == s.discardAt) { p.destroy(alloc); E.tr.ev(EV_LIFE, {3, 0}); live = false; break; } if (end) break; }
    if (live) E.tr.ev(EV_NOTE, {22, p.peak()});
    if (live && s.dyn >= 2 && k + 1 < s.streams.size()) { p.destroy(alloc); E.tr.ev(EV_LIFE, {3, 1}); live = false; } }
  if (live) { p.destroy(alloc); E.tr.ev(EV_LIFE, {3, 2}); } p.end(); return true; }
namespace {
struct ModelApi { Lem &L; Env &E; bool create(bool alloc) { if (alloc && !L.heap()) { L.P.hit("parser allocation failed"); return false; } L.init(); return true; } void destroyNull() {} bool feed(int sym, int, int v) { return L.feed(sym, v); } void destroy(bool) { if (!L.st.empty()) L.P.hit("parser discarded with values on its stack"); L.popAll(); } int peak() { return L.o.lpeak ? L.peak : 0; } void end() {} };
struct RealApi { LemonApi *api; void *inst; void *p = 0, *box = 0; bool create(bool alloc) { if (alloc) p = api->alloc(inst); else { if (!box) box = api->box(); api->init(box, inst); p = box; } simYield(); return p != 0; } void destroyNull() { api->release(0); } bool feed(int, int code, int v) { simYield(); api->feed(p, code, v, inst); simYield(); return true; } void destroy(bool alloc) { if (alloc) api->release(p); else api->fini(p); p = 0; simYield(); } int peak() { return api->peak(p); } void end() { if (box) { heapFree(box); } } };
}
bool modelLemon(const Case &c, const Auto &A, Env &E, Probes &P) { preface(c, E, 0, 0); Lem L(c, A, E, P); ModelApi m{L, E}; return script(E, m); }
void bodyLemon(Env &E, LemonApi *api, void *inst) { preface(*E.c, E, api->defs, api->fallback); RealApi r{api, inst}; script(E, r); }

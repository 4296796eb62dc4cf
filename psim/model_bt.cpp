// Executable reference model of a backtracking parser: at an unresolved conflict the alternatives are tried in order
// (shift, then reductions in rule order) with committed actions switched off; the first path that reaches acceptance
// or is declared valid is then executed for real; if none works the error is the one that got furthest.
#include "psim.h"
namespace {
struct Cell { int state, val, loc[4]; };
struct Lexeme { int code, sym, val, loc[4]; };
struct Ctx { vector<Cell> st; int state = 0; const vector<MAct> *alts = 0; size_t k = 0; long lexeme = 0; bool bare = false; };
void cp(int *d, const int *s) { for (int i = 0; i < 4; i++) d[i] = s[i]; }
struct B {
  const Case &c; const Grammar &g; const Opt &o; const Auto &A; Env &E; Probes &P; long steps = 0; unsigned stacksize = 0; bool haveBase = false; vector<Lexeme> q; long vp = 0, lim = 0; bool haveQueue = false; int pNerrs = 0, pLval = 0, pLloc[4] = {0, 0, 0, 0};
  vector<vector<vector<MAct>>> alt; // per state and terminal: the alternatives of an unresolved conflict
  TraceSim D; B(const Case &c, const Auto &A, Env &E, Probes &P) : c(c), g(c.g), o(c.o), A(A), E(E), P(P), D(c, A, E) {
    alt.resize(A.st.size()); for (size_t s = 0; s < A.st.size(); s++) { alt[s].resize(g.syms.size()); for (auto &e : A.st[s].acts) for (auto &a : e.second) if (a.supp == 1 && e.first < (int)g.syms.size()) alt[s][e.first].push_back(a); } }
  bool heap() { bool f = E.heapFails(E.heapNo); E.heapNo++; if (f) E.heapFailed++; return !f; }
  unsigned initSize() const { return o.initStack ? o.initStack : 200; } unsigned maxDepth() const { return o.maxDepth ? o.maxDepth : 10000; } long growth() const { return o.lvgrowth ? o.lvgrowth : 32; }
  bool grow() { unsigned n; if ((n = stacksize) == 0) n = initSize(); else if (n >= maxDepth()) return false; else if ((n *= 2) > maxDepth()) n = maxDepth(); for (int i = 0; i < 2 + o.loc; i++) if (!heap()) { E.stop = true; P.hit("stack growth failed"); return false; } haveBase = true; if (stacksize) P.hit("stack grown"); stacksize = n; D.raw(": stack size increased to " + std::to_string(n)); return true; }
  bool newState(size_t n) { if (!heap()) return false; if (n) for (int i = 0; i < 2 + o.loc; i++) if (!heap()) return false; return true; }
  int symOf(int state) const { return state == 0 ? -1 : A.st[state].accessing; }
  bool hid(const Cell &c) const { int s = symOf(c.state); return s >= 0 && A.hidden[s]; }
  int formals(const MRule &R) const { return (int)g.syms[g.rules[R.src].lhs].fallback.size(); }
  static int argVal(const MArg &a, const vector<Cell> &st) { int v = a.isConst ? a.konst : (long)st.size() - 1 + a.off < 0 ? -77 : st[st.size() - 1 + a.off].val; return a.how & 1 ? (int)(((unsigned)v * 31u + (unsigned)a.konst) & 0x3fffffffu) : v; }
  int act(int id, bool recov, vector<Cell> &st, int n, const vector<int> &below, int &val, const int *loc, int flags, int nf) {
    vector<int> v{id, recov}; size_t base = st.size() - n; for (int i = 0; i < n; i++) if (!hid(st[base + i])) v.push_back(!g.tags.empty() && symOf(st[base + i].state) == 1 ? -5 : st[base + i].val);
    for (int b : below) { long ix = (long)base - 1 + b; v.push_back(ix >= 0 ? st[ix].val : -77); }
    for (int i = 0; i < nf; i++) v.push_back(st[base - nf + i].val);
    if (o.loc) { for (int i = 0; i < n; i++) if (!hid(st[base + i])) for (int k = 0; k < 4; k++) v.push_back(st[base + i].loc[k]); for (int b : below) { long ix = (long)base - 1 + b; for (int k = 0; k < 4; k++) v.push_back(ix >= 0 ? st[ix].loc[k] : -77); } for (int k = 0; k < 4; k++) v.push_back(loc[k]); }
    E.tr.evv(EV_ACT, v); val = E.nextVal++; int ctl = E.ctlFor(E.actNo); E.actNo++; (void)flags; return ctl; }
  bool parse() {
    vector<Cell> st; vector<Ctx> trial; vector<Ctx> path; /* trial: innermost last; path: next conflict to follow last */ Ctx far; bool haveFar = false; int errflag = 0, nerrs = 0, state = 0, ch = -1, chSym = -2, lval = 0, lloc[4] = {0, 0, 0, 0}, errStart[4] = {0, 0, 0, 0}; bool errGarbage = false; int res = 0, newerr = 0; bool valid = false;
    if (!o.P) { lval = pLval; cp(lloc, pLloc); }
    auto emitErr = [&](int k) { vector<int> v{k}; if (o.loc) for (int i = 0; i < 4; i++) v.push_back(lloc[i]); E.tr.evv(EV_ERR, v); };
    auto mapSym = [&](int code) { if (code <= 0) return 0; for (size_t i = 1; i < g.syms.size(); i++) if (g.syms[i].term && (*E.codes)[i] == code) return (int)i; return -2; };
    auto finish = [&](int r) { if (o.P || o.noLeaks) { stacksize = 0; haveBase = false; } pNerrs = nerrs; pLval = lval; cp(pLloc, lloc); if (vp < (long)q.size() && gStrict == 8) { q.clear(); vp = 0; } if (vp < (long)q.size()) { E.stop = true; P.hit("not continued: tokens left in the queue"); } E.tr.ev(EV_RET, {r, o.P ? -1 : nerrs}); return true; };
    auto rd = [&]() -> bool { // next token, from the queue or from the source
      if (vp < (long)q.size()) { Lexeme &l = q[vp++]; lval = l.val; cp(lloc, l.loc); ch = l.code; chSym = l.sym; P.hit("token re-read"); }
      else { bool keep = !trial.empty(); if (keep && vp == lim) { for (int i = 0; i < 2 + o.loc; i++) if (!heap()) { E.stop = true; return false; } lim += growth(); P.hit("lexeme queue grown"); }
        int v, l[4], s; int code = E.lex(v, l, s); E.tr.ev(EV_LEX, {code, v}); if (v >= 0) { lval = v; cp(lloc, l); } ch = code; chSym = mapSym(code);
        if (keep) { Lexeme x; x.code = code; x.sym = chSym; x.val = lval; cp(x.loc, lloc); q.push_back(x); vp++; } }
      if (ch < 0) { ch = 0; chSym = 0; } return true; };
    auto push = [&](int s, int v, const int *l) { Cell x; x.state = s; x.val = v; cp(x.loc, l); st.push_back(x); state = s; };
    auto room = [&]() { return (unsigned)st.size() < stacksize || grow(); };
    auto say = [&](const char *f, int a, int b, int n) { if (D.on) { char m[200]; snprintf(m, sizeof m, f, a, b, n); D.say(!trial.empty(), (int)st.size() - 1, "%s", m); } };
    auto reading = [&](bool v) { if (D.on) D.say(!trial.empty(), (int)st.size() - 1, "state %d, reading token %d (%s)%s", state, ch, D.tokName(ch).c_str(), v && D.vals && trial.empty() ? (" <" + D.valText(chSym < 0 ? 1000000 + ch : chSym, lval) + ">").c_str() : ""); };
    D.raw("[<# of symbols on state stack>]");
    if (o.valid & 4) E.tr.ev(EV_NOTE, {9, 7});
    if (o.P) { stacksize = 0; haveBase = false; }
    if (!newState(0)) { if (o.P && gStrict != 3) { P.hit("skipped: first request of a pure backtracking parser fails (known finding)"); return false; } nerrs = pNerrs; emitErr(2); P.hit("memory exhausted"); E.stop = true; return finish(2); }
    if (!haveBase && !grow()) { emitErr(1); return finish(2); }
    st.push_back({0, 0, {ANY, ANY, ANY, ANY}});
    int reduce = -1; enum { LOOP, REDUCE, ERRHANDLER, RECOV } mode = LOOP; vector<int> tmp;
    for (;;) {
      if (++steps > 6000) { P.hit("not used: trial parsing takes too many steps"); return false; }
      if (valid) { // a path works: execute it from the first conflict on
        valid = false; if (!path.empty()) { P.hit("second validation: abort"); return finish(1); } P.hit("trial parse succeeded");
        while (!trial.empty()) { path.push_back(trial.back()); trial.pop_back(); } say("state %d, CONFLICT trial successful, backtracking to state %d, %d tokens", state, path.back().state, (int)(vp - path.back().lexeme)); haveFar = false; Ctx &f = path.back(); vp = f.lexeme; ch = -1; st = f.st; state = f.state; mode = LOOP; continue; }
      if (mode == LOOP) {
        const MState &S = A.st[state]; reduce = S.defred;
        if (reduce >= 0) { mode = REDUCE; continue; }
        if (ch < 0) { if (!rd()) { emitErr(2); P.hit("memory exhausted"); return finish(2); } reading(true); }
        if (chSym >= 0 && !alt[state][chSym].empty()) {
          auto &al = alt[state][chSym]; size_t k;
          if (!path.empty()) { say("CONFLICT in state %d: following successful trial parse", state, 0, 0); Ctx f = path.back(); path.pop_back(); k = f.k; if (f.state != state) { P.hit("path lost: abort"); return finish(1); } if (f.alts != &al) { P.hit("skipped: an action changed the input while a path was being followed"); return false; } P.hit("conflict followed"); }
          else { P.hit(trial.empty() ? "trial parse started" : "nested conflict in a trial"); say(trial.empty() ? "CONFLICT in state %d. Starting trial parse." : "CONFLICT in state %d. ALREADY in conflict, continuing trial parse.", state, 0, 0); if (!newState(st.size())) { emitErr(2); E.stop = true; P.hit("memory exhausted"); return finish(2); }
            if (al[0].kind && ch >= 0) say("backtracking 1 token", 0, 0, 0);
            Ctx f; f.st = st; f.state = state; f.alts = &al; f.k = k = 0;
            if (trial.empty()) { if (!haveQueue) { for (int i = 0; i < 2 + o.loc; i++) if (!heap()) { E.stop = true; emitErr(2); P.hit("memory exhausted"); return finish(2); } haveQueue = true; lim = growth(); }
              if (vp == (long)q.size()) { q.clear(); vp = 0; Lexeme x; x.code = ch; x.sym = chSym; x.val = lval; cp(x.loc, lloc); q.push_back(x); ch = -1; } }
            if (ch >= 0) { vp--; ch = -1; } f.lexeme = vp; trial.push_back(f); }
          const MAct &a = al[k];
          if (a.kind == 0) { say("state %d, shifting to state %d", state, a.num, 0); if (ch < 0) vp++; if (!room()) { emitErr(1); P.hit("overflow reported"); return finish(2); } push(a.num, lval, lloc); ch = -1; if (errflag > 0) --errflag; continue; }
          reduce = a.num; mode = REDUCE; continue; }
        auto f = chSym < 0 ? S.tab.end() : S.tab.find(chSym);
        if (f != S.tab.end() && f->second.kind == 0) { say("state %d, shifting to state %d", state, f->second.num, 0); if (!room()) { emitErr(1); P.hit("overflow reported"); return finish(2); } push(f->second.num, lval, lloc); ch = -1; if (errflag > 0) --errflag; continue; }
        if (f != S.tab.end()) { reduce = f->second.num; mode = REDUCE; continue; }
        if (errflag != 0) { mode = RECOV; continue; }
        newerr = 1; mode = ERRHANDLER; continue; }
      if (mode == ERRHANDLER) { bool again = false;
        while (!trial.empty()) { Ctx &sv = trial.back(); P.hit("backtracked"); say("ERROR in state %d, CONFLICT BACKTRACKING to state %d, %d tokens", state, sv.state, (int)(vp - sv.lexeme));
          if (!haveFar || far.lexeme < vp) { if (!newState(st.size())) { emitErr(2); E.stop = true; P.hit("memory exhausted"); return finish(2); } far.st = st; far.state = state; far.lexeme = vp; far.bare = !newerr && ch < 0; haveFar = true; }
          vp = sv.lexeme; ch = -1; st = sv.st; state = sv.state; sv.k++;
          if (sv.k < sv.alts->size()) { reduce = (*sv.alts)[sv.k].num; mode = REDUCE; again = true; break; }
          trial.pop_back();
          if (trial.empty()) { P.hit("every alternative failed"); D.raw("[" + std::to_string(st.size() - 1) + ",trial]: trial parse FAILED, entering ERROR mode"); if ((far.bare || far.lexeme == 0) && gStrict != 5) { P.hit("skipped: error raised by a trial action without lookahead"); return false; }
            vp = far.lexeme; if (far.bare || far.lexeme == 0) ch = -1; else { Lexeme &l = q[vp - 1]; ch = l.code; chSym = l.sym; lval = l.val; cp(lloc, l.loc); } st = far.st; state = far.state; haveFar = false; }
          newerr = 1; }
        if (again) continue;
        if (newerr) { emitErr(0); P.hit("syntax error reported"); cp(errStart, lloc); errGarbage = false; ++nerrs; }
        mode = RECOV; }
      if (mode == RECOV) { mode = LOOP;
        if (errflag < 3) { errflag = 3; bool dead = false, over = false;
          for (;;) { auto f = A.st[st.back().state].tab.find(1);
            if (f != A.st[st.back().state].tab.end() && f->second.kind == 0) { say("state %d, error recovery shifting to state %d", st.back().state, f->second.num, 0); if (!room()) { over = true; break; }
              if (o.loc && errGarbage && gStrict != 2) { P.hit("skipped: location of YYERROR in an empty rule"); return false; }
              int l[4] = {errStart[0], errStart[1], lloc[2], lloc[3]}; push(f->second.num, lval, l); P.hit("error symbol shifted"); break; }
            say("error recovery discarding state %d", st.back().state, 0, 0); if (st.size() <= 1) { dead = true; break; } cp(errStart, st.back().loc); errGarbage = false; st.pop_back(); P.hit("state popped in recovery"); }
          if (over) { emitErr(1); return finish(2); } if (dead) { P.hit("no state accepts error: abort"); return finish(1); } }
        else { if (ch == 0) { P.hit("end of input while recovering: abort"); return finish(1); } if (D.on && ch < 0 && gStrict != 11) { P.hit("skipped: traced discarding of a lookahead that is not there"); return false; } if (D.on) D.say(!trial.empty(), (int)st.size() - 1, "state %d, error recovery discarding token %d (%s)", state, ch, D.tokName(ch).c_str()); ch = -1; P.hit("token discarded in recovery"); }
        continue; }
      // REDUCE
      mode = LOOP; const MRule &R = A.rules[reduce]; int n = (int)R.rhs.size(); bool inTrial = !trial.empty(); int val = n ? st[st.size() - n].val : 0, loc[4] = {0, 0, 0, 0};
      if (D.on) { string vs; if (D.vals && n && !inTrial) { vs = "<"; for (int i = 0; i < n; i++) { auto &x = st[st.size() - n + i]; vs += (i ? ", " : "") + D.valText(symOf(x.state), x.val); } vs += ">"; } D.say(inTrial, (int)st.size() - 1, "state %d, reducing by rule %d (%s)%s", state, reduce, D.ruleText(reduce).c_str(), vs.c_str()); P.hit("traced: reduction"); }
      if (o.loc && !inTrial) { if (n == 0) { loc[0] = loc[2] = st.back().loc[2]; loc[1] = loc[3] = st.back().loc[3]; } else { Cell &a = st[st.size() - n], &b = st.back(); loc[0] = a.loc[0]; loc[1] = a.loc[1]; loc[2] = b.loc[2]; loc[3] = b.loc[3]; cp(errStart, a.loc); } errGarbage = n == 0; if (gStrict == 2 && n == 0) cp(errStart, loc); }
      int ctl = 0; bool ran = false, isTrialAct = false; int flags = 0;
      if (R.mid >= 0) { int pos = R.mid % 1000, no = R.mid / 1000; const Elem &e = g.rules[R.src].rhs[pos]; isTrialAct = e.kind == 2; flags = e.noref; if (isTrialAct || !inTrial) { ran = true; ctl = act(R.src * 16 + no, errflag != 0, st, R.cells, e.refs, val, loc, 0, formals(R)); } }
      else if (R.arg >= 0) { val = argVal(A.args[R.arg], st); P.hit("argument computed"); }
      else if (R.src >= 0) { const Rule &G = g.rules[R.src]; isTrialAct = G.action == 2; flags = G.actFlags; if (G.action == 2 || (G.action == 1 && !inTrial)) { ran = true; ctl = act(R.src * 16 + (isTrialAct ? 14 : 0), errflag != 0, st, n, G.refs, val, loc, 0, formals(R)); } }
      if (ran && inTrial) P.hit("trial action executed"); if (!ran && inTrial) P.hit("committed action withheld in a trial");
      if (ran && isTrialAct) { if ((flags & 2) && E.validDecision() && inTrial) { P.hit("path declared valid"); valid = true; continue; } if ((flags & 16) && E.validDecision() && inTrial && trial.size() == 1) { P.hit("path declared valid (outermost only)"); valid = true; continue; } }
      if (ctl) { P.hit("control action"); if (ctl == 1) return finish(1); if (ctl == 2) { if (!trial.empty()) { valid = true; continue; } return finish(0); }
        if (ctl == 3) { st.resize(st.size() - n); state = st.back().state; newerr = 0; mode = ERRHANDLER; continue; }
        if (ctl == 4 || ctl == 6) errflag = 0; if (ctl == 5 || ctl == 6) ch = -1; }
      st.resize(st.size() - n); state = st.back().state;
      auto res = [&]() { return D.vals && trial.empty() ? "result is <" + D.valText(R.lhs, val) + ">, " : string(); };
      if (state == 0 && R.lhs == A.start) { if (D.on) D.say(!trial.empty(), (int)st.size() - 1, "after reduction, %sshifting from state 0 to final state %d", res().c_str(), A.finalState); push(A.finalState, val, loc); if (ch < 0) { if (!rd()) { emitErr(2); P.hit("memory exhausted"); return finish(2); } reading(false); } if (ch == 0) { if (!trial.empty()) { valid = true; continue; } return finish(0); } continue; }
      auto go = A.st[state].go.find(R.lhs); if (go == A.st[state].go.end()) { fprintf(stderr, "model: no goto\n"); abort(); }
      if (D.on) D.say(!trial.empty(), (int)st.size() - 1, "after reduction, %sshifting from state %d to state %d", res().c_str(), st.back().state, go->second);
      if (!room()) { emitErr(1); P.hit("overflow reported"); return finish(2); } push(go->second, val, loc); } }
};
}
bool modelBt(const Case &c, const Auto &A, Env &E, Probes &P) { B b(c, A, E, P); for (size_t k = 0; k < E.s->streams.size(); k++) { E.nextStream(); if (!b.parse()) return false; if (E.stop) break; } return true; }

// Executable reference model of a (non-backtracking) yacc parser: LALR automaton + yacc's published run-time rules.
#include "psim.h"
int Env::lex(int &val, int loc[4], int &sym) {
  lexCount++; tokNo++;
  const vector<Tok> *st = stream >= 0 && stream < (int)s->streams.size() ? &s->streams[stream] : 0;
  if (!st || pos >= st->size()) { eofReads++; val = -1; sym = 0; for (int i = 0; i < 4; i++) loc[i] = 0; loc[0] = loc[2] = 900 + eofReads; return eofReads % 3 == 2 ? -5 : 0; }
  const Tok &t = (*st)[pos]; pos++;
  int k = stream * 1000 + (int)pos; loc[0] = k; loc[1] = k * 2; loc[2] = k + (k % 3); loc[3] = k * 2 + 1;
  val = nextVal++; sym = t.sym;
  if (t.sym < 0) for (size_t i = 2; i < c->g.syms.size(); i++) if (c->g.syms[i].term && (*codes)[i] == t.rawCode) sym = (int)i;
  return t.sym >= 0 ? (*codes)[t.sym] : t.rawCode;
}
void buildAuto(const Case &c, Auto &A, int m) { if (c.g.dialect == 0) buildYaccAuto(c, A, m); else buildLemonAuto(c, A, m); }
void buildYaccAuto(const Case &c, Auto &A, int maxStates) {
  const Grammar &g = c.g; const Opt &o = c.o; int ns = (int)g.syms.size(), mids = 0;
  for (auto &r : g.rules) for (auto &e : r.rhs) { if (e.kind) mids++; mids += (int)e.args.size() / 3; }
  A.args.clear(); A.hidden.assign(ns + 1 + mids, 0); map<MArg, int> argSym;
  A.nsym = ns + 1 + mids; A.isTerm.assign(A.nsym, 0); A.prec.assign(A.nsym, 0); A.assoc.assign(A.nsym, 0);
  for (int i = 0; i < ns; i++) A.isTerm[i] = g.syms[i].term;
  if (!o.u) for (size_t l = 0; l < g.precLevels.size(); l++) for (int t : g.precLevels[l]) { A.prec[t] = (int)l + 1; A.assoc[t] = g.syms[t].assoc; }
  int acc = ns, nextMid = ns + 1; A.start = g.start; A.rules.clear();
  MRule r0; r0.lhs = acc; r0.rhs = {g.start, 0}; r0.src = -1; A.rules.push_back(r0);
  for (size_t r = 0; r < g.rules.size(); r++) { const Rule &R = g.rules[r]; MRule m; m.lhs = R.lhs; m.src = (int)r; int midNo = 0; vector<int> cellOf; int nform = (int)g.syms[R.lhs].fallback.size();
    int last = -1, firstp = -1;
    for (size_t k = 0; k < R.rhs.size(); k++) { const Elem &e = R.rhs[k];
      if (e.kind == 0) {
        if (!e.args.empty()) { const vector<int> &F = g.syms[e.sym].fallback; size_t na = e.args.size() / 3; int n = (int)m.rhs.size(); vector<MArg> as; vector<char> pureRef;
          for (size_t i = 0; i < na; i++) { int how = e.args[3 * i], src = e.args[3 * i + 1]; MArg a; a.dtag = F[i]; a.how = how & 5; a.konst = src == 0 || (how & 1) ? e.args[3 * i + 2] : 0; a.isConst = src == 0; a.stag = -1; a.off = 0;
            if (src > 0) { const Elem &q = R.rhs[src - 1]; int t = q.kind ? q.tag : g.syms[q.sym].tag; a.stag = g.tags.empty() ? -1 : t < 0 ? 0 : t; a.off = cellOf[src - 1] - n + 1; } else if (src <= -100) { int d = -100 - src; a.stag = d < nform ? g.syms[R.lhs].fallback[nform - 1 - d] : -1; a.off = -d - n; } else if (src < 0) { a.stag = g.syms[R.lhs].fallback[-src - 1]; a.off = (-src - 1) - nform + 1 - n; }
            as.push_back(a); pureRef.push_back(src != 0 && how == 0 && a.stag == a.dtag); }
          // arguments that already are the topmost values, in order, are not computed again
          int el = pureRef[0] ? 1 - as[0].off : 0; if (el > (int)na) el = 0; for (int i = 1; i < el; i++) if (!pureRef[i] || 1 - as[i].off != el - i) { el = 0; break; }
          for (size_t i = el; i < na; i++) { MArg a = as[i]; if (!a.isConst) a.off -= (int)(i - el); int &s = argSym[a]; if (!s) { s = nextMid++; A.hidden[s] = 1; MRule mm; mm.lhs = s; mm.src = (int)r; mm.arg = (int)A.args.size(); A.args.push_back(a); A.rules.push_back(mm); } m.rhs.push_back(s); } }
        cellOf.push_back((int)m.rhs.size()); m.rhs.push_back(e.sym); if (g.syms[e.sym].term) { last = e.sym; if (firstp < 0 && A.prec[e.sym] > 0) firstp = e.sym; } }
      else { MRule mm; mm.lhs = nextMid; mm.src = (int)r; mm.mid = (int)k + 1000 * (++midNo); mm.cells = (int)m.rhs.size(); A.rules.push_back(mm); cellOf.push_back((int)m.rhs.size()); m.rhs.push_back(nextMid++); } }
    int ps = o.z ? firstp : last; if (R.precSym >= 0) ps = R.precSym;
    if (ps >= 0) { m.prec = A.prec[ps]; m.assoc = A.assoc[ps]; }
    A.rules.push_back(m); }
  A.buildLR(maxStates); if (A.tooBig) return;
  A.yaccTables(o.z, o.u, o.B);
}
namespace {
struct Cell { int state, val, loc[4]; };
struct Y {
  const Case &c; const Grammar &g; const Opt &o; const Auto &A; Env &E; Probes &P; long steps = 0;
  unsigned stacksize = 0; bool haveBase = false; bool partial = false; // persistent when not freed
  TraceSim D; Y(const Case &c, const Auto &A, Env &E, Probes &P) : c(c), g(c.g), o(c.o), A(A), E(E), P(P), D(c, A, E) {}
  map<int, int> midLhsOf; // model nonterminal -> source rule's lhs
  bool heap() { bool f = E.heapFails(E.heapNo); E.heapNo++; if (f) E.heapFailed++; return !f; }
  unsigned initSize() const { return o.flavor == 0 && o.initStack ? o.initStack : 200; }
  unsigned maxDepth() const { return o.maxDepth ? o.maxDepth : 10000; }
  bool grow() { unsigned n;
    if ((n = stacksize) == 0) n = initSize(); else if (n >= maxDepth()) { P.hit("depth limit reached"); return false; } else if ((n *= 2) > maxDepth()) n = maxDepth();
    if (!heap()) { P.hit("stack growth: first allocation failed"); return false; }
    haveBase = true;
    if (!heap()) { partial = true; P.hit("stack growth: second allocation failed"); return false; }
    if (o.loc) if (!heap()) { partial = true; P.hit("stack growth: third allocation failed"); return false; }
    if (stacksize) P.hit("stack grown"); stacksize = n; if (D.f0) D.raw(": stack size increased to " + std::to_string(n)); return true; }
  int symOf(int state) const { return state == 0 ? -1 : A.st[state].accessing; }
  void dtor(int sym, int val, const int *l) { if (o.flavor != 0) return; if (sym < 0) return; int w = 0;
    if (sym >= (int)g.syms.size()) { auto f = midLhsOf.find(sym); if (f == midLhsOf.end()) return; w = dtorOf(g, -1, f->second); } else if (sym <= 1) return; else w = dtorOf(g, sym, 0);
    if (!w) return; vector<int> v{w, val}; if (o.loc) for (int i = 0; i < 4; i++) v.push_back(l[i]); E.tr.evv(EV_DTOR, v); P.hit("destructor call"); }
  bool anyDtor() const { if (g.defDtor) return true; for (int x : g.tagDtor) if (x) return true; for (auto &s : g.syms) if (s.dtor) return true; return false; }
  void nasty(int k) { static const char *a = "$$ @1 } \" $1", *b = "a\\"; switch (k % 10) { case 0: E.tr.ev(EV_NOTE, {0, noteHash(a)}); break; case 1: E.tr.ev(EV_NOTE, {1, '}'}); break; case 2: E.tr.ev(EV_NOTE, {2, noteHash(b)}); break; case 3: E.tr.ev(EV_NOTE, {3, '{'}); break; case 5: E.tr.ev(EV_NOTE, {5, 3}); break; case 6: E.tr.ev(EV_NOTE, {6, noteHash("/* $$")}); E.tr.ev(EV_NOTE, {6, noteHash("*/ // '$1{")}); break; case 7: E.tr.ev(EV_NOTE, {7, 4}); break; case 8: E.tr.ev(EV_NOTE, {10, noteHash("line2 %} %% ;")}); break; default: E.tr.ev(EV_NOTE, {4, 5}); } }
  // one yyparse call; returns false if the step limit was hit
  bool parse(int &result) {
    vector<Cell> st; int errflag = 0, nerrs = 0, state = 0; int chSym = -2, ch = -1, lval = 0, lloc[4] = {0, 0, 0, 0}; // ch -1 = empty
    int errStart[4] = {0, 0, 0, 0}; bool errGarbage = false;
    if (D.f0) D.raw("[<# of symbols on state stack>]");
    if (o.valid & 4 && o.flavor == 0) E.tr.ev(EV_NOTE, {9, 7});
    auto setv = [](int *d, const int *s) { for (int i = 0; i < 4; i++) d[i] = s[i]; };
    lval = 0; // yylval persists in impure parsers, but a value is only ever used after a fetch, or as the error symbol's
    if (!o.P) { lval = pLval; setv(lloc, pLloc); }
    auto emitErr = [&](int k) { vector<int> v{k}; if (o.loc) for (int i = 0; i < 4; i++) v.push_back(lloc[i]); E.tr.evv(EV_ERR, v); };
    auto mapSym = [&](int code) { if (code == 0) return 0; for (size_t i = 1; i < g.syms.size(); i++) if (g.syms[i].term && (*E.codes)[i] == code) return (int)i; return -2; };
    auto rd = [&]() { int v, l[4], s; int code = E.lex(v, l, s); E.tr.ev(EV_LEX, {code, v}); if (v >= 0) { lval = v; setv(lloc, l); } if (code < 0) code = 0; ch = code; chSym = mapSym(code); };
    bool ok = true; int res = 0; bool overflow = false;
    if (o.P) { stacksize = 0; haveBase = false; }
    if (!haveBase && !grow()) { overflow = true; if (o.flavor == 0 && anyDtor() && gStrict != 1) { P.hit("skipped: first stack allocation fails with destructors"); return false; } }
    else st.push_back({0, 0, {ANY, ANY, ANY, ANY}}); // nothing precedes the first symbol: its location is not specified
    auto room = [&]() { if ((unsigned)st.size() >= stacksize) return grow(); return true; };  // s_mark >= s_last
    enum { LOOP, ERRLAB, RECOV } mode = LOOP;
    while (!overflow) {
      if (++steps > 60000 || E.tr.nev > 20000) { ok = false; break; }
      int reduce = -1;
      if (mode == LOOP) {
        const MState &S = A.st[state]; reduce = S.defred;
        if (reduce < 0) {
          if (ch < 0) { rd(); if (D.on) { P.hit("traced: token read"); D.say(false, (int)st.size() - 1, D.f0 ? "state %d, reading token %d (%s)%s" : "state %d, reading %d (%s)%s", state, ch, D.tokName(ch).c_str(), D.vals ? (" <" + D.valText(chSym < 0 ? 1000000 + ch : chSym, lval) + ">").c_str() : ""); } }
          auto f = chSym == -2 ? S.tab.end() : S.tab.find(chSym);
          if (f != S.tab.end() && f->second.kind == 0) {
            D.say(false, (int)st.size() - 1, "state %d, shifting to state %d", state, f->second.num);
            if (!room()) { overflow = true; break; }
            state = f->second.num; Cell x; x.state = state; x.val = lval; setv(x.loc, lloc); st.push_back(x); ch = -1; if (errflag > 0) --errflag; continue; }
          if (f != S.tab.end() && f->second.kind == 1) reduce = f->second.num;
          else { if (errflag != 0) mode = RECOV; else { emitErr(0); P.hit("syntax error reported"); setv(errStart, lloc); errGarbage = false; mode = ERRLAB; } }
        } }
      if (mode == ERRLAB) { ++nerrs; mode = RECOV; }
      if (mode == RECOV) { mode = LOOP;
        if (errflag < 3) { errflag = 3; bool dead = false;
          for (;;) { auto f = A.st[st.back().state].tab.find(1);
            if (f != A.st[st.back().state].tab.end() && f->second.kind == 0) {
              D.say(false, (int)st.size() - 1, "state %d, error recovery shifting to state %d", st.back().state, f->second.num);
              if (!room()) { overflow = true; break; }
              if (o.loc && errGarbage && gStrict != 2) { P.hit("skipped: location of YYERROR in an empty rule"); return false; }
              state = f->second.num; Cell x; x.state = state; x.val = lval; x.loc[0] = errStart[0]; x.loc[1] = errStart[1]; x.loc[2] = lloc[2]; x.loc[3] = lloc[3]; st.push_back(x); P.hit("error symbol shifted"); break; }
            D.say(false, (int)st.size() - 1, "error recovery discarding state %d", st.back().state); if (D.on) P.hit("traced: state discarded");
            if (st.size() <= 1) { dead = true; break; }
            setv(errStart, st.back().loc); errGarbage = false; dtor(symOf(st.back().state), st.back().val, st.back().loc); st.pop_back(); P.hit("state popped in recovery"); }
          if (overflow) break; if (dead) { res = 1; P.hit("no state accepts error: abort"); break; }
        } else { if (ch == 0) { res = 1; P.hit("end of input while recovering: abort"); break; }
          if (D.on && ch < 0 && gStrict != 11) { P.hit("skipped: traced discarding of a lookahead that is not there"); return false; }
          D.say(false, (int)st.size() - 1, D.f0 ? "state %d, error recovery discarding token %d (%s)" : "state %d, error recovery discards token %d (%s)", state, ch, D.tokName(ch).c_str()); if (D.on) P.hit("traced: token discarded");
          if (ch > 0 && chSym >= 0) dtor(chSym, lval, lloc); ch = -1; P.hit("token discarded in recovery"); }
        continue; }
      // reduce
      const MRule &R = A.rules[reduce]; int n = (int)R.rhs.size(); int val = n ? st[st.size() - n].val : 0; int loc[4] = {0, 0, 0, 0};
      if (D.on) { string vs; if (D.vals && n) { vs = "<"; for (int i = 0; i < n; i++) { auto &x = st[st.size() - n + i]; vs += (i ? ", " : "") + D.valText(symOf(x.state), x.val); } vs += ">"; } D.say(false, (int)st.size() - 1, D.f0 ? "state %d, reducing by rule %d (%s)%s" : "state %d, reducing by rule %d (%s)%s", state, reduce, D.ruleText(reduce).c_str(), vs.c_str()); P.hit("traced: reduction"); }
      if (o.loc) { if (n == 0) { loc[0] = loc[2] = st.back().loc[2]; loc[1] = loc[3] = st.back().loc[3]; }
        else { Cell &a = st[st.size() - n], &b = st.back(); loc[0] = a.loc[0]; loc[1] = a.loc[1]; loc[2] = b.loc[2]; loc[3] = b.loc[3]; }
        if (n) setv(errStart, st[st.size() - n].loc); errGarbage = n == 0; if (gStrict == 2 && n == 0) setv(errStart, loc); }
      int ctl = 0; bool hasAct = false;
      if (R.mid >= 0) { hasAct = true; int pos = R.mid % 1000, no = R.mid / 1000; act(R.src * 16 + no, errflag != 0, st, R.cells, g.rules[R.src].rhs[pos].refs, val, loc, ctl, 0, formals(R)); }
      else if (R.arg >= 0) { val = argVal(A.args[R.arg], st); P.hit("argument computed"); }
      else if (R.src >= 0 && R.arg < 0 && (g.rules[R.src].action & 1)) { hasAct = true; act(R.src * 16, errflag != 0, st, n, g.rules[R.src].refs, val, loc, ctl, (g.rules[R.src].actFlags & 1) ? R.src + R.src * 16 + 1 : 0, formals(R)); }
      if (hasAct && ctl) {
        if (ctl == 1) { res = 1; P.hit("action aborted the parse"); break; } if (ctl == 2) { res = 0; P.hit("action accepted"); break; }
        if (ctl == 3) { P.hit("action signalled an error"); mode = ERRLAB; continue; }
        if (ctl == 4 || ctl == 6) { errflag = 0; P.hit("action ended recovery"); } if (ctl == 5 || ctl == 6) { ch = -1; P.hit("action dropped the lookahead"); } }
      st.resize(st.size() - n); state = st.back().state; Cell x; x.val = val; setv(x.loc, loc);
      if (state == 0 && R.lhs == A.start) { string rs = D.vals ? "result is <" + D.valText(R.lhs, val) + ">, " : string(); D.say(false, (int)st.size() - 1, D.f0 ? "after reduction, %sshifting from state 0 to final state %d" : "after reduction, %sshifting from state 0 to state %d", rs.c_str(), A.finalState); state = A.finalState; x.state = state; st.push_back(x); if (ch < 0) { rd(); D.say(false, (int)st.size() - 1, D.f0 ? "state %d, reading token %d (%s)" : "state %d, reading %d (%s)", state, ch, D.tokName(ch).c_str()); } if (ch == 0) { res = 0; break; } continue; }
      auto go = A.st[state].go.find(R.lhs); if (go == A.st[state].go.end()) { fprintf(stderr, "model: no goto\n"); abort(); }
      state = go->second; D.say(false, (int)st.size() - 1, "after reduction, %sshifting from state %d to state %d", D.vals ? ("result is <" + D.valText(R.lhs, val) + ">, ").c_str() : "", st.back().state, state);
      if (!room()) { overflow = true; P.hit("overflow while pushing a reduction"); if (anyDtor()) { if (gStrict == 7) dtor(R.lhs, val, loc); else leakedOverflow++; } break; }
      x.state = state; st.push_back(x); }
    if (!ok) return false;
    if (overflow) { emitErr(1); res = o.flavor == 0 ? 2 : 1; P.hit("overflow reported"); }
    if (o.flavor == 0) { // clean-up destroys the lookahead and the whole stack
      if (ch > 0 && chSym >= 0) dtor(chSym, lval, lloc);
      for (auto &x : st) dtor(symOf(x.state), x.val, x.loc); }
    if (o.P || o.noLeaks) { stacksize = 0; haveBase = false; partial = false; }
    pLval = lval; setv(pLloc, lloc);
    result = res; E.tr.ev(EV_RET, {res, o.P ? -1 : nerrs}); return true; }
  bool hid(const Cell &c) const { int s = symOf(c.state); return s >= 0 && A.hidden[s]; }
  int formals(const MRule &R) const { return (int)g.syms[g.rules[R.src].lhs].fallback.size(); }
  static int argVal(const MArg &a, const vector<Cell> &st) { int v = a.isConst ? a.konst : (long)st.size() - 1 + a.off < 0 ? -77 : st[st.size() - 1 + a.off].val; return a.how & 1 ? (int)(((unsigned)v * 31u + (unsigned)a.konst) & 0x3fffffffu) : v; }
  int pLval = 0, pLloc[4] = {0, 0, 0, 0}; int leakedOverflow = 0;
  void act(int id, bool recov, vector<Cell> &st, int n, const vector<int> &below, int &val, const int *loc, int &ctl, int nst, int nf) {
    vector<int> v{id, recov}; size_t base = st.size() - n;
    for (int i = 0; i < n; i++) if (!hid(st[base + i])) v.push_back(!g.tags.empty() && symOf(st[base + i].state) == 1 ? -5 : st[base + i].val);
    for (int b : below) { long ix = (long)base - 1 + b; v.push_back(ix >= 0 ? st[ix].val : -77); }
    for (int i = 0; i < nf; i++) v.push_back(st[base - nf + i].val);
    if (o.loc) { for (int i = 0; i < n; i++) if (!hid(st[base + i])) for (int k = 0; k < 4; k++) v.push_back(st[base + i].loc[k]); for (int b : below) { long ix = (long)base - 1 + b; for (int k = 0; k < 4; k++) v.push_back(ix >= 0 ? st[ix].loc[k] : -77); } for (int k = 0; k < 4; k++) v.push_back(loc[k]); }
    E.tr.evv(EV_ACT, v); val = E.nextVal++; if (nst) nasty(nst - 1); ctl = E.ctlFor(E.actNo); E.actNo++; }
};
}
bool modelYacc(const Case &c, const Auto &A, Env &E, Probes &P) {
  Y y(c, A, E, P); for (auto &r : A.rules) if (r.mid >= 0) y.midLhsOf[r.lhs] = c.g.rules[r.src].lhs;
  for (size_t k = 0; k < E.s->streams.size(); k++) { E.nextStream(); int res = 0; if (!y.parse(res)) return false;
    // documented limits of the frozen skeleton (see KNOWN_FINDINGS): reuse after a half-failed growth is not explored
    if (y.partial && !c.o.P && !c.o.noLeaks) { if (gStrict == 6) { y.partial = false; if (!y.stacksize) y.haveBase = false; continue; } E.stop = true; break; } }
  return true;
}

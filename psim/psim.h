#pragma once
#include "lalr.h"
#include <cstdarg>
#include <memory>
enum { EV_LEX = 1, EV_ACT, EV_ERR, EV_DTOR, EV_RET, EV_NOTE, EV_HOOK, EV_FEED, EV_LIFE, EV_TRACE };
struct Trace { vector<int> e; int nev = 0;
  void ev(int t, std::initializer_list<int> a) { e.push_back(t); e.push_back((int)a.size()); e.insert(e.end(), a); nev++; }
  void evv(int t, const vector<int> &a) { e.push_back(t); e.push_back((int)a.size()); e.insert(e.end(), a.begin(), a.end()); nev++; } };
int yaccExpect(const Case &c);
extern int gHuge; // percentage of very large grammars, or -1
extern int gStrict; // number of the listed finding whose region the models normally leave out
const int ANY = -424242; // model value that matches anything
inline bool matches(const vector<int> &model, const vector<int> &real) { if (model.size() != real.size()) return false; for (size_t i = 0; i < model.size(); i++) if (model[i] != real[i] && model[i] != ANY) return false; return true; }
string showTrace(const Trace &t, const Grammar *g, int around = -1);
inline int noteHash(const char *s) { return (int)(hashStr(s) & 0x3fffffff); }

struct Probes { map<string, long> n; void hit(const char *k, long c = 1) { n[k] += c; } };

// per-instance simulator state shared by model and real execution of one script
struct Env {
  const Case *c = 0; const Script *s = 0; const vector<int> *codes = 0;
  Trace tr; int stream = -1; size_t pos = 0; int nextVal = 1; int actNo = 0; int heapNo = 0; int heapFailed = 0; int pendingCtl = 0; int lexCount = 0; int eofReads = 0;
  int validNo = 0; bool stop = false; int tokNo = 0; int stopAt = -1;
  int validDecision() { validNo++; return (mix((uint64_t)s->dyn + 5, (uint64_t)validNo) >> 7 & 3) != 0; }
  void start() { tr = Trace(); stream = -1; pos = 0; nextVal = 1; actNo = heapNo = heapFailed = pendingCtl = lexCount = eofReads = validNo = tokNo = 0; stop = false; dropShift = false; lnames.reset(); for (auto &m : names) m.clear(); part.clear(); }
  map<int, int> names[4]; string part; bool dropShift = false; std::shared_ptr<struct LemonNames> lnames; void line(const string &s); // tracing output
  void nextStream() { stream++; pos = 0; }
  int ctlFor(int ord) const { for (auto &p : s->ctl) if (p.first == ord) return p.second; return 0; }
  bool heapFails(int ord) const { for (int x : s->allocFail) if (x == ord) return true; return false; }
  // deliver the next token: code, value, location
  int lex(int &val, int loc[4], int &sym);
};
string traceText(int h); string lemonRuleText(const Grammar &g, const Rule &r); bool lemonTraceOn(const Opt &o); bool traceOn(const Opt &o);
struct TraceSim { const Case &c; const Auto &A; Env &E; bool on, f0, vals; string pre; TraceSim(const Case &c, const Auto &A, Env &E);
  string symName(int s) const; string tokName(int code) const; string ruleText(int r) const; string valText(int sym, int v) const; void say(bool trial, int depth, const char *fmt, ...) __attribute__((format(printf, 4, 5))); void raw(const string &s); };
// builds the model automaton of a case
void buildAuto(const Case &c, Auto &A, int maxStates = 3000);
void buildYaccAuto(const Case &c, Auto &A, int maxStates);
void buildLemonAuto(const Case &c, Auto &A, int maxStates);
bool modelYacc(const Case &c, const Auto &A, Env &E, Probes &P);       // false: run not usable (step limit)
bool modelBt(const Case &c, const Auto &A, Env &E, Probes &P);
bool modelLemon(const Case &c, const Auto &A, Env &E, Probes &P);
int dtorOf(const Grammar &g, int sym, int midLhs);
string emitYacc(const Case &c);
string emitLemon(const Case &c);
string lemonCodes(const Case &c);
bool genCase(const string &prop, uint64_t seed, Case &c, Auto &A);    // false: unusable draw
void genRuns(Case &c, const Auto &A, Rng &R, int n);

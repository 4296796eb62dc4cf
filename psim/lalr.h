// Reference LALR(1) construction, independent of the implementation under test:
// LR(0) item sets, lookaheads by propagation to a fixpoint over kernel items.
#pragma once
#include "grammar.h"
#include <tuple>
struct Bits { vector<uint64_t> w; void init(int n) { w.assign((n + 63) / 64, 0); }
  bool get(int i) const { return (w[i >> 6] >> (i & 63)) & 1; } bool set(int i) { uint64_t m = 1ULL << (i & 63); if (w[i >> 6] & m) return false; w[i >> 6] |= m; return true; }
  bool orIn(const Bits &o) { bool ch = false; for (size_t i = 0; i < w.size(); i++) { uint64_t n = w[i] | o.w[i]; if (n != w[i]) { w[i] = n; ch = true; } } return ch; } };
struct MRule { int lhs; vector<int> rhs; int prec = 0, assoc = 0; int src = -1; int mid = -1; int cells = 0; int arg = -1; };
struct MAct { int kind; int num; int prec, assoc; int supp = 0; };      // kind 0 shift, 1 reduce, 2 accept(lemon)
struct MState {
  vector<pair<int,int>> kernel; vector<Bits> la; map<int,int> go; int accessing = -1;
  map<int, vector<MAct>> acts;      // by terminal, all of them after disambiguation marks
  map<int, MAct> tab;               // chosen action
  int defred = -1;                  // rule or -1
};
struct MArg { int dtag, stag, how, off, konst; bool isConst; bool operator<(const MArg &o) const { return std::tie(dtag, stag, how, off, konst, isConst) < std::tie(o.dtag, o.stag, o.how, o.off, o.konst, o.isConst); } };
struct Auto {
  vector<MArg> args; vector<char> hidden;
  int nsym = 0, nterm = 0; vector<char> isTerm; vector<MRule> rules; vector<vector<int>> byLhs; vector<MState> st; int start = -1, finalState = -1;
  vector<char> nullable; vector<Bits> first; vector<int> prec, assoc; int sr = 0, rr = 0; bool tooBig = false; vector<int> never;
  vector<vector<int>> members; vector<int> fb, order; int wild = -1; bool hasErr = false; string why; // lemon: class members, fallbacks, numbering of tokens
  void buildLR(int maxStates);
  // yacc disambiguation. ignorePrec: -u ; backtrack: keep unresolved conflicts
  void yaccTables(bool lemonPrec, bool ignorePrec, bool backtrack);
};

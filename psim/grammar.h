// Shared data structures of psim: grammars, run schedules, cases; serialisation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
using std::string; using std::vector; using std::map; using std::set; using std::pair;

struct Rng {                       // splitmix64: every random choice in psim comes from one of these
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  template <class T> T &pick(vector<T> &v) { return v[below((int)v.size())]; }
  template <class T> const T &pick(const vector<T> &v) { return v[below((int)v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL + b + 0x1234567); r.next(); return r.next(); }
inline uint64_t hashStr(const string &s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

enum Assoc { A_NONE = 0, A_LEFT, A_RIGHT, A_NONASSOC, A_PREC };

struct Sym {
  string name;          // as written in the grammar file ("TOK_a", "'+'", "expr")
  bool term = false;
  bool used = true;
  int code = -1;        // explicit token code asked for in the grammar, or -1
  int prec = 0, assoc = 0;
  int tag = -1;         // index into Grammar::tags, -1 untagged
  int dtor = 0;         // 1: has own destructor
  string alias;
  // lemon only
  vector<int> fallback; // lemon: this token falls back to; byacc nonterminal: tags of its formal arguments (-1 without tags)
  int wildcard = 0;
};

// one right-hand side element
struct Elem {
  int kind = 0;         // 0 symbol, 1 mid-rule action (committed), 2 mid-rule trial action ([...] in btyacc)
  int sym = -1;         // symbol index for kind 0 ; for lemon class tokens see alts
  vector<int> alts;     // lemon: A|B|C token class members (sym is a MULTITERMINAL)
  int tag = -1;         // mid rule action value tag
  vector<int> refs;     // value references made by the mid-rule action: 1-based positions, 0/-1 = below
  int noref = 0;        // lemon: symbol has no alias in this rule
  vector<int> args;     // inherited attribute actuals, three numbers each: how (bit0 computed, bit1 spaces around it, bit2 converted by C alone), source (0 constant, j>0 $j, -i-1 own formal i, -100-d $-d), constant
};

struct Rule {
  int lhs = -1;
  vector<Elem> rhs;
  int precSym = -1;     // %prec
  int action = 1;       // 0: no action text, 1: action, 2: trial action [ ... ] only, 3: both ([..] then {..})
  int actFlags = 0;     // bit0: the action carries nasty text, bit1: YYVALID in trial action, bit2 lhs without alias (lemon)
  vector<int> refs;     // references below the rule ($0, $-1), each with tag
};

struct Grammar {
  int dialect = 0;      // 0 byacc, 1 lemon
  vector<Sym> syms;     // 0 = $end, 1 = error (byacc), others
  vector<Rule> rules;
  vector<string> tags;  // union members
  int start = -1;
  int startDecl = 0;    // 1: declared with %start
  vector<vector<int>> precLevels; // tokens per level in declaration order; assoc from sym
  int defDtor = 0;      // bit0: %destructor <*>, bit1: <> ; tagged destructors in tagDtor
  vector<int> tagDtor;
  int expectShape = 0;
  int layout = 0;       // seed for whitespace and comments
  int stackSize = 0;    // lemon %stack_size
  int defaultType = 0;
  int hooks = 0;        // lemon: bit0 syntax_error, 1 parse_failure, 2 parse_accept, 3 stack_overflow code present
};

struct Opt {
  int flavor = 0;       // 0: byacc built with backtracking support, 1: without, 2: lemon
  int B = 0, d = 0, r = 0, l = 0, t = 0, P = 0, i = 0, u = 0, z = 0, v = 0, loc = 0, H = 0, viaStdin = 0, g = 0;
  string prefix, base;
  int initStack = 0, maxDepth = 0;  // macros in the parser prologue, 0: default
  int noLeaks = 0, lvgrowth = 0, nullYacc = 0;
  int useUnion = 0, valid = 0;
  int lc = 0, lr = 0, lp = 0, ls = 0; // lemon options
  int lstack = 0;      // lemon: 0 fixed default, >0 fixed size, -1 dynamic (stack_size 0)
  int lextra = 0;      // lemon: extra_argument / extra_context
  int lnorec = 0;      // -DYYNOERRORRECOVERY
  int lndebug = 0;
  int ltmpl = 0;       // lemon: how the template is found
  int ltrace = 0, lpeak = 0;
  int dbg = 0;         // byacc tracing: 1 variable, 2 environment, 3 environment says no, 4 environment says nothing sensible, 5 macro and environment, 6 environment without support
};

struct Tok { int sym; int rawCode; int val; };  // sym>=0: symbol index; sym<0: rawCode delivered as is

// one instance's script
struct Script {
  vector<vector<Tok>> streams;        // consecutive parses
  vector<pair<int,int>> ctl;          // (global action ordinal, control code)
  vector<int> allocFail;              // ordinals of failing heap requests
  int discardAt = -1;                 // lemon: discard the parser after that many tokens (over the whole script)
  int dyn = 0;                        // lemon: 0 ParseAlloc/Free, 1 Init/Finalize
};
struct Run {
  vector<Script> inst;                // one per parser instance
  uint64_t sched = 0;                 // seed of the interleaving
  vector<int> schedList;              // explicit interleaving (filled when minimised)
};

struct Case {
  string prop;
  uint64_t seed = 0;
  Grammar g;
  Opt o;
  vector<Run> runs;
};

// ---- serialisation: a plain list of named integers and strings ----
struct Ser {
  std::ostringstream os;
  void i(const char *k, long v) { os << k << ' ' << v << '\n'; }
  void s(const char *k, const string &v) { os << k << " \"" ; for (unsigned char c : v) { if (c == '"' || c == '\\' || c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%03o", c); os << b; } else os << c; } os << "\"\n"; }
  void vi(const char *k, const vector<int> &v) { os << k << ' ' << v.size(); for (int x : v) os << ' ' << x; os << '\n'; }
};
struct De {
  std::istringstream is; bool bad = false;
  explicit De(const string &t) : is(t) {}
  void key(const char *k) { string w; is >> w; if (w != k) { if (!bad) fprintf(stderr, "replay: expected %s, found %s\n", k, w.c_str()); bad = true; } }
  long i(const char *k) { key(k); long v = 0; is >> v; return v; }
  string s(const char *k) { key(k); string r; char c; while (is.get(c) && c != '"') ; while (is.get(c) && c != '"') { if (c == '\\') { char o[4] = {0,0,0,0}; is.get(o[0]); is.get(o[1]); is.get(o[2]); r += (char)strtol(o, 0, 8); } else r += c; } return r; }
  vector<int> vi(const char *k) { key(k); size_t n = 0; is >> n; vector<int> v; if (n > 10000000) { bad = true; n = 0; } for (size_t j = 0; j < n; j++) { int x; is >> x; v.push_back(x); } return v; }
};
string serialize(const Case &c);
bool deserialize(const string &t, Case &c);

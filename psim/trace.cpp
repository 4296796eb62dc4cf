// The lines a parser with tracing switched on prints, as the reference model expects them. States, rule numbers and the
// names of invented nonterminals are the tool's own business: both histories number them in order of appearance.
#include "psim.h"
static map<int, string> gText;
string traceText(int h) { auto f = gText.find(h); return f == gText.end() ? "?" : f->second; }
// lemon: numbers of states are dropped, rule numbers are renamed; rules A ::= B without action may have been optimised away, so neither
// their lines nor the difference between A and B on the stack count; fallback and wildcard lines (printed per lookup) must be true.
struct LemonNames { map<string, string> rep; map<string, int> rule; map<string, string> fb; string wild; };
static void lemonNames(const Case &c, LemonNames &L) { const Grammar &g = c.g; int n = (int)g.syms.size(); vector<int> up(n); for (int i = 0; i < n; i++) up[i] = i; auto find = [&](int x) { while (up[x] != x) x = up[x]; return x; };
  for (auto &r : g.rules) { bool unit = r.rhs.size() == 1 && r.action != 1; string t = g.syms[r.lhs].name + " ::="; for (auto &e : r.rhs) { t += " "; if (e.alts.empty()) t += g.syms[e.sym].name; else for (size_t i = 0; i < e.alts.size(); i++) t += (i ? "|" : "") + g.syms[e.alts[i]].name; }
    int &k = L.rule[t]; if (!k) k = (int)L.rule.size(); if (unit) k = -1; if (unit && r.rhs[0].alts.empty() && r.rhs[0].sym > 1 && !g.syms[r.rhs[0].sym].term) { int a = find(r.lhs), b = find(r.rhs[0].sym); up[std::max(a, b)] = std::min(a, b); } }
  for (int i = 0; i < n; i++) { L.rep[g.syms[i].name] = g.syms[find(i)].name; if (!g.syms[i].fallback.empty()) L.fb[g.syms[i].name] = g.syms[g.syms[i].fallback[0]].name; if (g.syms[i].wildcard) L.wild = g.syms[i].name; } }
string lemonRuleText(const Grammar &g, const Rule &r) { string t = g.syms[r.lhs].name + " ::="; for (auto &e : r.rhs) { t += " "; if (e.alts.empty()) t += g.syms[e.sym].name; else for (size_t i = 0; i < e.alts.size(); i++) t += (i ? "|" : "") + g.syms[e.alts[i]].name; } return t; }
static string lemonLine(Env &E, const string &s) { if (!E.lnames) { E.lnames = std::make_shared<LemonNames>(); lemonNames(*E.c, *E.lnames); } LemonNames &L = *E.lnames; if (s.compare(0, 5, "e:p> ")) return s; string t = s.substr(5);
  auto starts = [&](const char *w) { return t.compare(0, strlen(w), w) == 0; }; auto rep = [&](const string &n) { auto f = L.rep.find(n); return f == L.rep.end() ? "?" + n : f->second; }; auto quoted = [&]() { size_t a = t.find('\''), b = t.find('\'', a + 1); return a == string::npos || b == string::npos ? string("?") : t.substr(a + 1, b - a - 1); };
  bool drop = E.dropShift; E.dropShift = false;
  if (starts("Input ")) return "Input " + quoted(); if (starts("Shift ")) return "Shift " + quoted(); if (starts("... then shift ")) return drop ? "" : "then " + rep(quoted());
  if (starts("Reduce ")) { size_t a = t.find('['), b = t.rfind(']'); if (a == string::npos || b == string::npos) return s; string x = t.substr(a + 1, b - a - 1); auto f = L.rule.find(x); if (f == L.rule.end()) return s; if (f->second < 0) { E.dropShift = true; return ""; } int no = atoi(t.c_str() + 7); auto &m = E.names[1]; int k = m.emplace(no, (int)m.size()).first->second; return "Reduce rule#" + std::to_string(k) + " " + x; }
  if (starts("Popping ")) return "Popping " + rep(t.substr(8)); if (starts("Stack grows")) return "Stack grows";
  if (starts("Return. Stack=")) { string r = "Stack"; size_t i = 14; if (t[i] == '[') i++; string w; for (; i < t.size(); i++) { if (t[i] == ' ' || t[i] == ']') { if (!w.empty()) r += " " + rep(w); w.clear(); } else w += t[i]; } return r; }
  if (starts("FALLBACK ") || starts("WILDCARD ")) { size_t m = t.find(" => "); if (m == string::npos) return s; string a = t.substr(9, m - 9), b = t.substr(m + 4); if (t[0] == 'F' ? L.fb.count(a) && L.fb[a] == b : !L.wild.empty() && b == L.wild && L.rep.count(a)) return ""; return s; }
  return t; }
void Env::line(const string &s0) {
  string s = s0; if (c && c->g.dialect) { s = lemonLine(*this, s0); if (s.empty()) return; }
  string r; size_t i = 0; auto id = [&](map<int, int> &m, int v) { auto f = m.find(v); if (f != m.end()) return f->second; int k = (int)m.size(); m[v] = k; return k; };
  auto at = [&](const char *w) { size_t n = strlen(w); return s.compare(i, n, w) == 0 && i + n < s.size() && isdigit((unsigned char)s[i + n]) ? n : 0; };
  if (names[0].empty()) names[0][0] = 0;
  while (i < s.size()) { size_t n; int k = -1; if ((n = at("state "))) k = 0; else if ((n = at("rule "))) k = 1; else if ((n = at("$$"))) k = 2; else if ((n = at("\x02N"))) k = 3;
    if (k < 0) { r += s[i++]; continue; }
    r.append(s, i, n); i += n; int v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); r += std::to_string(id(names[k], v)); }
  for (unsigned char ch : r) if (ch > 126 || (ch < 32 && ch != 2)) { r = "(unreadable)"; break; } // bytes that are no text: whatever lay in memory
  int h = noteHash(r.c_str()); gText[h] = r; tr.ev(EV_TRACE, {h}); }
bool lemonTraceOn(const Opt &o) { return o.ltrace == 2 && !o.lndebug; }
bool traceOn(const Opt &o) { return o.dbg == 5 || (o.t && (o.dbg == 1 || o.dbg == 2 || o.dbg == 4 || o.dbg == 6)); }
TraceSim::TraceSim(const Case &c, const Auto &A, Env &E) : c(c), A(A), E(E) { on = c.g.dialect == 0 && traceOn(c.o); f0 = c.o.flavor == 0; vals = f0 && (c.o.valid & 8) && c.g.tags.empty(); pre = (c.o.prefix.empty() ? string("yy") : c.o.prefix) + "debug"; }
// the one spelling byacc prints for a quoted name: a single character in '', more in "", escapes in their shortest named or three-digit octal form
static string canonName(const string &n) { string b; static const char *e = "\a\b\f\n\r\t\v", *t = "abfnrtv"; for (size_t i = 1; i + 1 < n.size(); i++) { if (n[i] != '\\') { b += n[i]; continue; } char ch = n[++i]; const char *f = strchr(t, ch); if (ch == 'x') { int v = 0; while (i + 2 < n.size() && isxdigit((unsigned char)n[i + 1])) { char h = n[++i]; v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); } b += (char)v; } else if (ch >= '0' && ch <= '7') { int v = ch - '0'; for (int k = 0; k < 2 && n[i + 1] >= '0' && n[i + 1] <= '7'; k++) v = v * 8 + (n[++i] - '0'); b += (char)v; } else b += f ? e[f - t] : ch; }
  char q = b.size() == 1 ? '\'' : '"'; string r(1, q); for (unsigned char ch : b) { const char *f = ch ? strchr(e, ch) : 0; char o[8]; if (ch == '\\' || ch == (unsigned char)q) r += '\\', r += (char)ch; else if (ch >= 32 && ch < 127) r += (char)ch; else if (f) r += '\\', r += t[f - e]; else { snprintf(o, sizeof o, "\\%03o", ch); r += o; } } return r + q; }
string TraceSim::symName(int s) const { const Grammar &g = c.g; if (s == 0) return f0 ? "$end" : "end-of-file"; if (s >= (int)g.syms.size()) return "$$" + std::to_string(s);
  const string &n = g.syms[s].name; if (n[0] != '\'' && n[0] != '"') return n; return canonName(n); }
string TraceSim::tokName(int code) const { if (code == 0) return symName(0); if (code == 256) return f0 ? "error" : "illegal-symbol"; for (size_t i = 2; i < c.g.syms.size(); i++) if (c.g.syms[i].term && (*E.codes)[i] == code) return symName((int)i); return "illegal-symbol"; }
string TraceSim::ruleText(int r) const { const MRule &R = A.rules[r]; string s = symName(R.lhs) + " :"; for (int x : R.rhs) s += " " + symName(x); return s; }
string TraceSim::valText(int sym, int v) const { string s; if (sym < (int)c.g.syms.size() && c.g.syms[sym].term) s = "\x02T" + std::to_string(sym == 0 ? 0 : sym == 1 ? 256 : (*E.codes)[sym]); else s = "\x02N" + std::to_string(sym); return s + "=" + std::to_string(v); }
void TraceSim::say(bool trial, int depth, const char *fmt, ...) { if (!on) return; char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); E.line((f0 ? "e:" : "o:") + pre + (f0 && trial ? "(trial)" : "") + (f0 ? "[" + std::to_string(depth) + "]: " : ": ") + b); }
void TraceSim::raw(const string &s) { if (on) E.line((f0 ? "e:" : "o:") + pre + s); }

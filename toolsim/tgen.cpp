// Draws tool histories: which tool, grammar, options, environment and faults.
#include "tgen.h"
#include "psim.h"
#include "exec.h"
#include <dirent.h>
vector<FileDef> corpusY; string tmplText;
void loadCorpus(const string &dir) { DIR *d = opendir(dir.c_str()); if (!d) return; vector<string> n; while (dirent *e = readdir(d)) { string s = e->d_name; if (s.size() > 2 && s.compare(s.size() - 2, 2, ".y") == 0) n.push_back(s); } closedir(d); std::sort(n.begin(), n.end()); for (auto &s : n) corpusY.push_back({s, readFile(dir + "/" + s)}); }
static bool lemonProp(const string &p, Rng &R) { if (p == "T05" || p == "T06" || p == "T07") return true; if (p == "T08" || p == "T09") return R.chance(1, 2); return false; }
static void randomEnv(Proc &p, Rng &R, bool wild) {
  p.seed = R.next() >> 8; p.bufSize = R.pick(vector<int>{4096, 4096, 512, 64, 17, 1}); p.readMax = R.chance(1, 2) ? 0 : R.pick(vector<int>{1, 3, 50, 700}); p.heapMode = R.below(32); p.fill = R.pick(vector<int>{0xA5, 0, 0xFF, 1, 0x7f, -1}); p.tmpMode = R.below(5); (void)wild;
  if (p.bufSize == 1 && R.chance(2, 3)) p.bufSize = 33; }
static string junk(Rng &R) { int n = R.pick(vector<int>{0, 1, 10, 3000, 60000}); string s; for (int i = 0; i < n; i++) s += R.chance(1, 12) ? '\n' : (char)R.range(32, 126); return s; }
static string cmix(const string &s, size_t a, size_t b) { return s.substr(0, a) + s.substr(b); }
// what torn writes, bad media and cut streams do to a grammar
static string damage(const string &t, Rng &R, bool lem) {
  string s = t; int k = R.pick(vector<int>{1, 1, 1, 2, 3, 6});
  while (k-- > 0) { size_t n = s.size(); if (!n) break; size_t a = (size_t)R.below((int)n), w = (size_t)R.pick(vector<int>{1, 1, 2, 4, 8, 64, 512}), b = std::min(n, a + w);
    if (R.chance(1, 2)) { // aim at a place where something begins or ends
      vector<size_t> hot; for (size_t i = 0; i < n; i++) if (strchr("%{}[]()<>\"'/*$@:;|.\\\n,=-", s[i])) hot.push_back(i); if (!hot.empty()) { a = hot[(size_t)R.below((int)hot.size())] + (R.chance(1, 3) ? 1 : 0); if (a >= n) a = n - 1; b = std::min(n, a + w); } }
    switch (R.below(13)) {
      case 0: case 1: s.resize(a); break;
      case 2: s[a] = (char)(s[a] ^ (1 << R.below(8))); break;
      case 3: s = cmix(s, a, b); break;
      case 4: s.insert(a, s.substr(a, b - a)); break;
      case 5: for (size_t i = a; i < b; i++) s[i] = 0; break;
      case 6: { size_t q = a / 512 * 512, e = std::min(n, q + 512); if (R.chance(1, 2)) for (size_t i = q; i < e; i++) s[i] = 0; else s = cmix(s, q, e); break; }
      case 7: { static const char *bits[] = {"{", "}", "%{", "%}", "%%", "\"", "'", "/*", "*/", "//", "$", "$$", "$<", "@", "@$", "%", "\\", ";", "|", ":", "::=", ".", "[", "]", "(", ")", "<", ">", "%prec", "%type", "%token", "%union", "%if", "%endif", "%ifdef X", "%ifndef X", "%else", "%expect", "%start", "%left", "%destructor", "%code", "%include", "%wildcard", "%fallback", "%token_class", "%name", "%empty", "$0", "$-1", "$99999999999", "@99999999999", "$<x>$", "%define", "%parse-param {", "%lex-param", "%ident", "%locations", "%pure-parser", "%initial-action", "%error-verbose", "%nonassoc", "error", "[]", "$.x", "\r\n", "\xff", "\x80", "%token A 99999999999", "%expect 99999999999", "'\\x", "'\\777'", "'\\", "\"\\", "{$", "{@", "A(", "A(X", "|B", "%type a {", "%%\n%%", "%stack_size", "%default_type", "#line 1", "1", "0", "-1"}; s.insert(a, bits[R.below((int)(sizeof bits / sizeof *bits))]); break; }
      case 8: s[a] = R.pick(vector<char>{0, 9, 10, 13, 34, 39, 37, 123, 125, 92, 36, 64, 59, 58, 124, 46, 40, 41, 91, 93, 60, 62, (char)0xff, (char)0x80, 32, 47, 42}); break;
      case 9: { size_t c = (size_t)R.below((int)n), e = std::min(n, c + w * 4); s.insert(a, s.substr(c, e - c)); break; }
      case 10: { string big((size_t)R.pick(vector<int>{80, 300, 1100, 5000}), R.pick(vector<char>{'a', 'A', '0', '(', '{', ' ', '$', '"', '%', '\\'})); s.insert(a, big); break; }
      case 12: { string one = s.substr(a, (size_t)R.pick(vector<int>{2, 3, 4, 6, 10, 30})), all; size_t total = (size_t)R.pick(lem ? vector<int>{200, 1000, 4500} : vector<int>{100, 300, 1000}); if (one.size() && s.size() < 60000) { while (all.size() < total) all += one; s.insert(a, all); } break; } // a record written again and again
      case 11: { size_t l = s.find('\n', a); if (l == string::npos) l = n; size_t st = s.rfind('\n', a); st = st == string::npos ? 0 : st; s = R.chance(1, 2) ? cmix(s, st, l) : s.substr(0, st) + s.substr(l); break; } } }
  return s; }
static void yaccBase(const string &prop, Rng &R, Proc &p, string &gram, string &gname, vector<string> &want, string &note, const string &pfx) {
  bool corpus = !corpusY.empty() && R.chance(2, 5); string base = "y";
  if (corpus) { const FileDef &f = R.pick(corpusY); gram = f.text; note = "corpus " + f.path; p.tool = R.chance(1, 4) ? 1 : 0; if (R.chance(1, 2)) p.args.push_back("-d"), want.push_back(".tab.h"); if (p.tool == 0 && (f.path.find("btyacc") != string::npos || R.chance(1, 6))) p.args.push_back("-B"); if (p.tool == 0 && R.chance(1, 6)) p.args.push_back("-L"); if (R.chance(1, 6)) p.args.push_back("-P"); if (R.chance(1, 5)) p.args.push_back("-t"); if (R.chance(1, 5)) p.args.push_back("-l"); if (R.chance(1, 4)) p.args.push_back("-r"), want.push_back(".code.c"); if (R.chance(1, 6)) p.args.push_back("-i"), want.push_back(".tab.i"); if (R.chance(1, 4)) p.args.push_back("-v"), want.push_back(".output"); if (R.chance(1, 5)) p.args.push_back("-g"), want.push_back(".dot"); }
  else { static const char *from[] = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08"}; Case c; Auto A; for (int k = 0; k < 60; k++) { c = Case(); A = Auto(); if (genCase(from[R.below(8)], R.next(), c, A)) break; } c.o.viaStdin = false; c.o.base = ""; c.o.H = 0; p.tool = c.o.flavor; gram = emitYacc(c); p.args = yaccArgs(c); if (!p.args.empty()) p.args.pop_back(); note = "generated"; const Opt &o = c.o; if (o.d) want.push_back(".tab.h"); if (o.r) want.push_back(".code.c"); if (o.i) want.push_back(".tab.i"); if (o.v) want.push_back(".output"); if (o.g) want.push_back(".dot");
    if (!o.v && R.chance(1, 4)) p.args.push_back("-v"), want.push_back(".output"); if (!o.g && R.chance(1, 5)) p.args.push_back("-g"), want.push_back(".dot"); }
  int many = R.chance(1, 2) ? 2 : 6; if (R.chance(1, many)) p.args.push_back("-e"), want.push_back(".ebnf"); if (R.chance(1, many)) p.args.push_back("-E"), want.push_back(".yl"); if (R.chance(1, many)) p.args.push_back(R.chance(1, 2) ? "-n" : "-N"), want.push_back(".yn"); if (R.chance(1, many)) p.args.push_back("-C"), want.push_back(".ypar"); if (R.chance(1, many)) p.args.push_back("-c"), want.push_back(".ycbrt"); if (R.chance(1, many)) p.args.push_back("-S"), want.push_back(".sql");
  want.push_back(".tab.c"); bool hd = std::find(want.begin(), want.end(), ".tab.h") != want.end();
  if (!pfx.empty() || R.chance(1, 4)) { base = pfx.empty() ? R.pick(vector<string>{"p", "out/q", "long_prefix_for_everything", "a.b"}) : pfx; p.args.push_back("-b"); p.args.push_back(base); }
  for (auto &w : want) w = base + w;
  if (R.chance(1, 8) && hd == false) { p.args.push_back("-H"); p.args.push_back(base + "_defs.h"); want.push_back(base + "_defs.h"); }
  if (pfx.empty() && R.chance(1, 8)) { string o = R.pick(vector<string>{"parser.c", "out/x.c", "odd.name", "z.tab.c"}); p.args.push_back("-o"); p.args.push_back(o); want.clear(); want.push_back(o); }
  if (R.chance(1, 6)) { vector<string> a; for (size_t i = 0; i < p.args.size(); i++) { static const char *two[][2] = {{"-b", "--file-prefix="}, {"-p", "--name-prefix="}, {"-o", "--output="}, {"-H", "--defines="}}, *one[][2] = {{"-c", "--carburetta"}, {"-g", "--graph"}, {"-e", "--ebnf"}, {"-E", "--lemon"}, {"-n", "--naked"}, {"-N", "--nakedq"}, {"-S", "--sql"}, {"-l", "--no-lines"}}; string x = p.args[i]; bool done = false; for (auto &t : two) if (x == t[0] && i + 1 < p.args.size() && !p.args[i + 1].empty()) { a.push_back(t[1] + p.args[++i]); done = true; break; } for (auto &t : one) if (!done && x == t[0]) { a.push_back(t[1]); done = true; } if (!done) a.push_back(x); } p.args = a; }
  else if (R.chance(1, 6)) { vector<string> a; string join; for (auto &x : p.args) { if (x.size() == 2 && x[0] == '-' && !strchr("bpoH-", x[1])) { join += x[1]; continue; } a.push_back(x); if (x.size() == 2 && x[0] == '-') { } } if (!join.empty()) a.insert(a.begin(), "-" + join); p.args = a; }
  gname = pfx.empty() ? R.pick(vector<string>{"g.y", "g.y", "grammar.y", "out/in.y"}) : pfx + ".y"; (void)prop; }
static void lemonBase(const string &prop, Rng &R, Proc &p, string &gram, string &gname, string &tname, vector<string> &want, string &note, const string &pfx) {
  static const char *from[] = {"L01", "L02", "L03", "L04", "L05"}; Case c; Auto A; for (int k = 0; k < 60; k++) { c = Case(); A = Auto(); if (genCase(from[R.below(5)], R.next(), c, A)) break; }
  p.tool = 2; c.o.d = R.chance(1, 6); c.o.ltmpl = 0; gram = emitLemon(c); p.args = lemonArgs(c); p.args.pop_back(); note = "generated"; string b = pfx.empty() ? R.pick(vector<string>{"g", "g", "gram.x", "p.q"}) : pfx; gname = b + ".lem"; size_t dot = b.rfind('.'); string stem = b; (void)dot; string dir = c.o.d ? "out/" : "";
  p.args.erase(std::remove_if(p.args.begin(), p.args.end(), [](const string &a) { return a.compare(0, 2, "-T") == 0; }), p.args.end());
  switch (R.below(4)) { case 0: tname = "lempar.c"; break; case 1: tname = stem + ".lt"; break; case 2: tname = "t/tmpl.c"; p.args.push_back("-Tt/tmpl.c"); break; default: tname = "lempar.tpl"; p.args.push_back("-Tlempar.tpl"); }
  bool q = std::find(p.args.begin(), p.args.end(), "-q") != p.args.end(), s = std::find(p.args.begin(), p.args.end(), "-S") != p.args.end(), m = false;
  if (R.chance(1, 10)) p.args.push_back("-m"), m = true; if (R.chance(1, 8)) p.args.push_back("-b"); if (R.chance(1, 10)) p.args.push_back("-y"); else if (R.chance(1, 12)) p.args.push_back("-Y"); if (R.chance(1, 14)) p.args.push_back("-E");
  bool pp = p.args.back() == "-E"; if (!pp) { want.push_back(dir + stem + ".c"); if (!m) want.push_back(dir + stem + ".h"); if (!q) want.push_back(dir + stem + ".out"); if (s) want.push_back(dir + stem + ".sql"); } (void)prop; }
bool genBase(const string &prop, uint64_t seed, TCase &c) {
  Rng R(seed); c = TCase(); c.prop = prop; bool lem = lemonProp(prop, R); bool two = (prop == "T04" || prop == "T07") && R.chance(1, 3); string tname;
  for (int i = 0; i < (two ? 2 : 1); i++) {
    Proc p; string gram, gname, pfx = two ? (i ? "two" : "one") : "", note; vector<string> want;
    if (lem) { string tn; if (two) { lemonBase(prop, R, p, gram, gname, tn, want, note, pfx); } else lemonBase(prop, R, p, gram, gname, tn, want, note, pfx); c.files.push_back({tn, tmplText}); if (std::find(c.protect.begin(), c.protect.end(), tn) == c.protect.end()) c.protect.push_back(tn); }
    else yaccBase(prop, R, p, gram, gname, want, note, pfx);
    if (prop == "T09") { gram = damage(gram, R, lem); if (lem && R.chance(1, 40)) { c.files.back().text = damage(tmplText, R, true); note += ", damaged template"; } note += ", damaged"; }
    bool si = !lem && R.chance(1, 5); if (si) { p.useStdin = true; p.stdinText = gram; p.args.push_back("-"); } else { p.args.push_back(gname); c.files.push_back({gname, gram}); c.protect.push_back(gname); }
    for (auto &w : want) c.want.push_back(w); c.note += (i ? "; " : "") + note; c.base.push_back(p); }
  return true; }
static Fault pickFault(const string &prop, const Ref &r, Rng &R) {
  Fault f; vector<int> ops; bool alloc = prop == "T02" || prop == "T06" || prop == "T03";
  for (int o = 0; o < OP_EDGE; o++) if (r.count[o] && (o < OP_MALLOC || alloc)) { int w = o == OP_WRITE ? 4 : o == OP_READ ? 3 : o == OP_MALLOC ? 4 : o == OP_CLOSE ? 2 : o == OP_UNLINK ? 0 : 1; if (o == OP_UNLINK && prop != "T03") w = 1; if (o == OP_UNLINK && prop == "T03") w = 0; while (w-- > 0) ops.push_back(o); }
  if (ops.empty()) { f.op = OP_READ; return f; }
  f.op = R.pick(ops); map<uint32_t, vector<long>> at; long n = 0; for (auto &s : r.sites) if ((int)s.op == f.op) at[s.pc].push_back(n++);
  if (R.chance(2, 3) && !at.empty()) { auto it = at.begin(); std::advance(it, R.below((int)at.size())); f.at = R.pick(it->second); } else f.at = (long)(R.next() % (r.count[f.op] + 1));
  f.mode = R.pick(vector<int>{F_FAIL, F_FAIL, F_FAIL, F_STICKY, F_SHORT, F_TORN}); if (f.op != OP_READ && f.op != OP_WRITE && f.mode >= F_SHORT) f.mode = F_FAIL; if (f.op == OP_READ && f.mode == F_TORN) f.mode = F_FAIL;
  f.arg = f.mode == F_SHORT || f.mode == F_TORN ? R.below(5000) : f.op == OP_WRITE ? R.pick(vector<int>{28, 5, 27, 122, 4}) : f.op == OP_READ ? R.pick(vector<int>{5, 5, 4, 21}) : f.op == OP_OPEN || f.op == OP_MKSTEMP ? R.pick(vector<int>{13, 24, 5, 28, 30, 2}) : 5;
  return f; }
static Fault instant(const Ref &r, Rng &R, int mode, int arg) { Fault f; f.op = OP_EDGE; f.mode = mode; f.arg = arg; uint64_t e = 1 + R.next() % (r.count[OP_EDGE] + 1);
  if (R.chance(2, 3) && !r.sites.empty()) { map<uint32_t, vector<size_t>> at; for (size_t i = 0; i < r.sites.size(); i++) if ((int)r.sites[i].op != OP_MALLOC || i % 7 == 0) at[r.sites[i].pc].push_back(i); if (!at.empty()) { auto it = at.begin(); std::advance(it, R.below((int)at.size())); e = r.sites[R.pick(it->second)].edge; int d = R.range(-3, 12); e = d < 0 && e < (uint64_t)-d ? 1 : e + (uint64_t)(int64_t)d; } }
  f.at = (long)std::max<uint64_t>(1, e); return f; }
bool genPlan(TCase &c, const vector<Ref> &ref, Rng &R) {
  const string &prop = c.prop; c.steps.clear(); for (size_t i = 0; i < c.files.size(); i++) if (c.files[i].path.compare(0, 1, "!") == 0) { c.files.erase(c.files.begin() + (long)i); i--; }
  auto stale = [&](int chance) { for (auto &r : ref) for (auto &o : r.outs) if (R.chance(1, chance)) { FileDef f; f.path = "!" + o.first; int k = R.below(5); f.text = k == 0 ? junk(R) : k == 1 ? o.second.substr(0, (size_t)R.below((int)o.second.size() + 1)) : k == 2 ? o.second + junk(R) : k == 3 ? o.second : string(); c.files.push_back(f); } };
  if (prop == "T01" || prop == "T02" || prop == "T05" || prop == "T06") {
    Proc p = c.base[0]; randomEnv(p, R, false); if (R.chance(1, 3)) { p.bufSize = 4096; p.readMax = 0; } int n = R.pick(vector<int>{1, 1, 1, 2, 3});
    if (R.chance(1, 8)) { long used = 0, tot = 0; for (auto &f : c.files) if (f.path[0] != '!') used += (long)f.text.size(); for (auto &o : ref[0].outs) tot += (long)o.second.size(); Fault f; f.op = OP_WRITE; f.mode = F_QUOTA; f.at = used + (long)(R.next() % (uint64_t)(tot * 5 / 4 + 2)); p.faults.push_back(f); n--; }
    while (n-- > 0) p.faults.push_back(pickFault(prop, ref[0], R)); if (R.chance(1, 6)) stale(3); c.steps.push_back({{p}, 1}); return true; }
  if (prop == "T03") { Proc p = c.base[0]; randomEnv(p, R, false); int k = R.below(4); if (k >= 2) { int n = R.chance(1, 4) ? 2 : 1; while (n-- > 0) p.faults.push_back(instant(ref[0], R, F_SIGNAL, R.pick(vector<int>{2, 15, 1}))); } if (k == 3 && R.chance(1, 2)) p.faults.push_back(pickFault(prop, ref[0], R)); if (k == 1) p.faults.push_back(pickFault(prop, ref[0], R)); if (R.chance(1, 10)) p.ignoreSig = R.pick(vector<int>{2, 6, 1 << 15, (1 << 15) | 6}); if (R.chance(1, 6)) stale(3); c.steps.push_back({{p}, 1}); return true; }
  if (prop == "T04" || prop == "T07") { Step s; for (auto &b : c.base) { Proc p = b; randomEnv(p, R, true); s.procs.push_back(p); } s.sched = R.next() >> 4; if (R.chance(1, 2)) stale(2); c.steps.push_back(s); if (R.chance(1, 3)) { for (auto &p : s.procs) randomEnv(p, R, true); s.sched = R.next() >> 4; c.steps.push_back(s); } return true; }
  if (prop == "T08") { int n = R.pick(vector<int>{1, 1, 1, 2, 3}); if (R.chance(1, 3)) stale(2); while (n-- > 0) { Proc p = c.base[0]; randomEnv(p, R, false); if (R.chance(1, 2)) p.faults.push_back(instant(ref[0], R, F_KILL, 0)); else { Fault f; f.op = R.pick(vector<int>{OP_WRITE, OP_WRITE, OP_WRITE, OP_OPEN, OP_CLOSE, OP_READ, OP_SEEK}); f.mode = F_KILL; f.at = (long)(R.next() % (ref[0].count[f.op] + 1)); f.arg = R.below(5000); p.faults.push_back(f); } c.steps.push_back({{p}, 1}); } Proc q = c.base[0]; if (R.chance(1, 2)) randomEnv(q, R, false); q.tmpMode = 0; c.steps.push_back({{q}, 1}); return true; }
  if (prop == "T09") { Proc p = c.base[0]; randomEnv(p, R, true); c.steps.push_back({{p}, 1}); return true; }
  return false; }

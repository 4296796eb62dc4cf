// toolsim: seeded search over histories of byacc and lemon processes in a simulated operating system.
#include "tgen.h"
#include "psim.h"
#include "exec.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using std::map; using std::set;
extern "C" { int tool_main_bt(int, char **); int tool_main_plain(int, char **); int tool_main_lemon(int, char **); }
int (*toolMain[3])(int, char **) = {tool_main_bt, tool_main_plain, tool_main_lemon};
static string gProp, gEvid, gReplayDir, gTier = "quick", gKnown, gCorpus; static uint64_t gSeed = 1; static long gCases = 200; static int gRuns = 40, gWorkers = 8; static double gMaxSecs = 200;
struct Shared { volatile long minViol; }; static Shared *gSh;
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static const uint64_t REF_BUDGET = 3000000000ULL;
static bool lemonTool(const TCase &c) { return c.base[0].tool == 2; }
// ---- counts ----
struct Stats { long runs = 0, procs = 0, cases = 0, unusable = 0, ops = 0, edges = 0, switches = 0, faultRuns = 0, ok = 0, failed = 0, killed = 0, refFail = 0; map<string, long> hit, shape; set<uint64_t> hist, inter, points, edge; };
static Stats gSt;
static string hitKey(const Fault &f) { return string(opName[f.op]) + ":" + fmodeName[f.mode]; }
// ---- one history ----
struct Out { string cls, detail, key; int step = -1; };
static const char *const decoys[] = {"y.tab.c~", "y.tab.bak", "out/keep.c", "/tmp/yacc.old", "/var/tmp/other.a", "g.c.orig"};
static void setup(const TCase &c, bool stale) {
  fsReset(); fsDir("t"); for (auto d : decoys) fsPut(d, string("not to be touched ") + d + "\n");
  for (auto &f : c.files) if (f.path[0] != '!') fsPut(f.path, f.text, f.ro);
  if (stale) for (auto &f : c.files) if (f.path[0] == '!') fsPut(f.path.substr(1), f.text); }
static vector<string> splitLines(const string &s) { vector<string> r; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size(); if (b > a) r.push_back(s.substr(a, b - a)); a = b + 1; } return r; }
static bool isInput(const TCase &c, const string &p) { for (auto &x : c.protect) if (x == p) return true; for (auto d : decoys) if (p == d) return true; return false; }
static string howText(const Ref &r) { switch (r.how) { case H_EXIT: return "exited with status " + std::to_string(r.code); case H_SIGNAL: return "was ended by signal " + std::to_string(r.code); case H_KILLED: return "was killed"; case H_BUDGET: return "did not end within its step budget"; case H_BAD: return "misused the C library: " + r.msg; case H_CRASH: return "crashed (status " + std::to_string(r.code) + ")"; } return "?"; }
static string crashKey(const string &rep) { for (auto &l : splitLines(rep)) { size_t p = l.find(" in "); if (p == string::npos || l.find("    #") != 0) continue; string f = l.substr(p + 4); f = f.substr(0, f.find(' ')); if (f.compare(0, 3, "ts_") == 0 || f.compare(0, 2, "__") == 0 || l.find("sanitizer") != string::npos || l.find("libc.") != string::npos || f.find("simlib") != string::npos || f == "<null>" || l.find("/sysdeps/") != string::npos || l.find("../") != string::npos) continue; return f; } return ""; }
static string crashText(const string &rep) { string r; int n = 0; for (auto &l : splitLines(rep)) { if (l.find("ERROR:") != string::npos) { string t = l; size_t p = t.find("ERROR:"); t = t.substr(p); size_t q = t.find(" 0x"); q = std::min(q, t.find(" on ")); r += (q == string::npos ? t : t.substr(0, q)) + "\n"; } else if (l.find("    #") == 0 && n < 12) { string t = l; size_t p = t.find(" in "); if (p != string::npos) t = t.substr(p + 4); size_t q = t.find(" ("); if (q != string::npos) t = t.substr(0, q); r += "  in " + t + "\n"; n++; } if (l.find("in childMain") != string::npos) break; if (l.find("is located") != string::npos || l.find("freed by") != string::npos) break; } return r; }
static void takeRef(const TCase &c, int i, Ref &r) { ProcShm &q = S->proc[i]; r.how = q.how; r.code = q.code; r.out.assign(q.out, q.outLen); r.err.assign(q.err, q.errLen); r.msg = q.msg; memcpy(r.count, q.count, sizeof r.count); r.outs.clear(); for (auto &p : splitLines(q.wrote)) { string t; if (!isInput(c, p) && fsGet(p, t)) r.outs[p] = t; } }
static uint64_t edgeHash() { uint64_t h = 1469598103934665603ULL; for (int i = 0; i < 65536; i += 8) { uint64_t w; memcpy(&w, S->edges + i, 8); h = (h ^ w) * 1099511628211ULL; h ^= h >> 29; } return h; }
static bool runRefs(const TCase &c, vector<Ref> &ref, bool sites) {
  ref.clear(); for (auto &b : c.base) { Ref r; string rep[2]; setup(c, false); memset(S->edges, 0, sizeof S->edges); if (!simRun({b}, 1, REF_BUDGET, sites, rep)) return false; takeRef(c, 0, r); r.report = rep[0]; if (sites) r.sites.assign(S->site, S->site + S->nsite); ref.push_back(r); gSt.edges += (long)r.count[OP_EDGE]; gSt.procs++; for (uint32_t k = 0; k < 65536; k++) if (S->edges[k]) gSt.edge.insert(k); } return true; }
static string showName(const string &s) { return s; }
static string diffText(const string &a, const string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; long line = 1 + std::count(a.begin(), a.begin() + (long)k, '\n'); auto cut = [&](const string &s) { string r; for (size_t i = k > 20 ? k - 20 : 0; i < s.size() && i < k + 30; i++) r += s[i] == '\n' ? string("\\n") : s[i] >= 32 && s[i] < 127 ? string(1, s[i]) : string("?"); return r; }; return "first difference at byte " + std::to_string(k) + " (line " + std::to_string(line) + "), sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ": expected ..." + cut(a) + "... found ..." + cut(b) + "..."; }
static bool put(Out &o, const char *cls, const string &d, const string &key = "") { o.cls = cls; o.detail = d; o.key = key; return true; }
// memory errors, misuse and endless runs: never right for any tool run
static bool broken(const Ref &r, const string &rep, Out &o) {
  if (r.how == H_CRASH) return put(o, "crash", "the run crashed:\n" + crashText(rep), crashKey(rep));
  if (r.how == H_BAD) return put(o, "misuse", "the run " + howText(r), r.msg);
  if (r.how == H_BUDGET) return put(o, "hang", "the run did not end within its step budget"); return false; }
static bool inputsKept(const TCase &c, Out &o) { for (auto &p : c.protect) { string t, want; for (auto &f : c.files) if (f.path == p) want = f.text; if (!fsGet(p, t)) return !put(o, "input-changed", "input file " + p + " is gone"); if (t != want) return !put(o, "input-changed", "input file " + p + " changed: " + diffText(want, t)); } for (auto d : decoys) { string t; if (!fsGet(d, t) || t != string("not to be touched ") + d + "\n") return !put(o, "input-changed", string("unrelated file ") + d + " changed or gone"); } return true; }
static bool outputsRight(const TCase &c, const Ref &ref, const ProcShm &q, Out &o, const char *cls) {
  for (auto &e : ref.outs) { string t; if (!fsGet(e.first, t)) return !put(o, cls, "output " + e.first + " is missing"); if (t != e.second) return !put(o, cls, "output " + e.first + " is wrong: " + diffText(e.second, t)); }
  for (auto &w : c.want) { string t; bool mine = c.base.size() == 1; if (mine && !fsGet(w, t)) return !put(o, cls, "requested output " + w + " is missing"); }
  if (q.outBroken) return !put(o, cls, "a write to standard output failed"); string so(q.out, q.outLen); if (so != ref.out) return !put(o, cls, "standard output is wrong: " + diffText(ref.out, so)); return true; }
static bool hasPrefix(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
static string faultText(const Proc &p) { string r; for (auto &f : p.faults) { if (!r.empty()) r += ", "; r += string(fmodeName[f.mode]) + " at " + opName[f.op] + " " + std::to_string(f.at); if (f.arg) r += " (" + std::to_string(f.arg) + ")"; } return r.empty() ? "no fault" : r; }
static string procText(const Proc &p) { static const char *n[3] = {"yacc(backtracking)", "yacc", "lemon"}; string r = n[p.tool]; for (auto &a : p.args) r += " " + a; if (p.useStdin) r += " <stdin"; r += " [" + faultText(p) + "; buffer " + std::to_string(p.bufSize) + (p.readMax ? " pieces " + std::to_string(p.readMax) : "") + " heap " + std::to_string(p.heapMode) + " fill " + std::to_string(p.fill) + " seed " + std::to_string(p.seed) + (p.tmpMode ? " tmp " + std::to_string(p.tmpMode) : "") + "]"; return r; }
static bool judge(const TCase &c, const vector<Ref> &ref, size_t si, Out &o, string rep[2]) {
  const Step &st = c.steps[si]; const string &P = c.prop; size_t n = st.procs.size(); bool yes = false;
  for (size_t i = 0; i < n && !yes; i++) {
    ProcShm &q = S->proc[i]; Ref r; takeRef(c, (int)i, r); const Ref &R0 = ref[std::min(i, ref.size() - 1)]; string pre = n > 1 ? "process " + std::to_string(i + 1) + ": " : "";
    bool mem = P == "T02" || P == "T06" || P == "T09" || ((P == "T03") && q.sigRun) || P == "T04" || P == "T07" || P == "T08"; Out b;
    if (broken(r, rep[i], b)) { if (mem) { o = b; yes = true; } continue; }
    if (P == "T01" || P == "T05") { if (r.how == H_EXIT && r.code == 0) { if (R0.code != 0) yes = put(o, "false-success", "exited with status 0 where the undisturbed run fails with status " + std::to_string(R0.code)); else yes = !outputsRight(c, R0, q, o, "false-success"); } }
    else if (P == "T02" || P == "T06") { if (r.how == H_EXIT && r.code != 0) { if (R0.code == 0 && (r.err.empty() || hasPrefix(R0.err, r.err))) yes = put(o, "no-message", "failed with status " + std::to_string(r.code) + " and no message saying why (error stream: \"" + r.err.substr(0, 200) + "\")"); }
      else if (r.how == H_EXIT && q.faultsHit) { if (R0.code != 0) yes = put(o, "not-noticed", "exited with status 0 where the undisturbed run fails"); else { Out t; if (!outputsRight(c, R0, q, t, "not-noticed")) { o = t; yes = true; } } } }
    else if (P == "T03") { set<string> ok; for (auto &f : c.files) ok.insert(f.path[0] == '!' ? f.path.substr(1) : f.path); for (auto d : decoys) ok.insert(d); for (auto &w : c.want) ok.insert(w); for (auto &e : R0.outs) ok.insert(e.first); for (auto &p : fsList()) if (!ok.count(p)) { string nm = p; size_t k = nm.rfind('/'); yes = put(o, "left-over", "file " + nm + " remains although it was not asked for; the run " + howText(r)); (void)k; break; }
      if (!yes && q.sigRun && r.how == H_EXIT && r.code == 0) yes = put(o, "signal-success", "a run interrupted by a signal exited with status 0");
      if (!yes && !q.sigRun && r.how == H_EXIT && r.code == 0 && R0.code == 0 && !q.faultsHit) yes = !outputsRight(c, R0, q, o, "wrong-output"); }
    else if (P == "T04" || P == "T07" || (P == "T08" && si + 1 == c.steps.size())) { const char *cls = P == "T08" ? "not-repaired" : "depends"; if (r.how != R0.how || r.code != R0.code) yes = put(o, cls, pre + "the run " + howText(r) + ", the undisturbed one " + howText(R0) + "; error stream: " + r.err.substr(0, 300)); else if (r.err != R0.err) yes = put(o, cls, pre + "messages differ: " + diffText(R0.err, r.err)); else if (R0.code == 0 || P != "T08") { yes = !outputsRight(c, R0, q, o, cls); if (!yes) for (auto &e : r.outs) if (!R0.outs.count(e.first) && e.first[0] != '/') { yes = put(o, cls, pre + "output " + e.first + " appears only in this run"); break; } }
      if (!yes && P == "T07" && r.code == 0) for (auto &e : R0.outs) if (e.first.size() > 2 && e.first.compare(e.first.size() - 2, 2, ".h") == 0) { bool same = false; if (si > 0) same = true; else for (auto &f : c.files) if (f.path == "!" + e.first && f.text == e.second) same = true; for (auto &f : c.files) if (si == 0 && f.path == "!" + e.first && f.text != e.second) same = false; if (same && r.outs.count(e.first)) yes = put(o, "header-rewritten", pre + "header " + e.first + " already had the right contents and was written again"); }
      if (yes && !pre.empty() && !hasPrefix(o.detail, pre)) o.detail = pre + o.detail; }
    else if (P == "T09") { if (r.how == H_EXIT && r.code == 0) { for (auto &w : c.want) { string t; if (!fsGet(w, t)) { yes = put(o, "false-success", "exited with status 0 but requested output " + w + " is missing; error stream: " + r.err.substr(0, 300)); break; } } } else if (r.err.empty()) yes = put(o, "no-message", "failed with status " + std::to_string(r.code) + " without a message"); } }
  if (!yes) yes = !inputsKept(c, o); if (yes) o.step = (int)si; return yes; }
static bool refUsable(const TCase &c, const vector<Ref> &ref, Out &o) {
  for (auto &r : ref) { Out b; if (broken(r, r.report, b)) { if (c.prop == "T02" || c.prop == "T06" || c.prop == "T09") { o = b; o.detail = "undisturbed run: " + o.detail; return true; } return false; } if (r.how != H_EXIT) return false; if (r.code == 0 && c.base.size() == 1) for (auto &w : c.want) if (!r.outs.count(w)) { if (c.prop == "T01" || c.prop == "T05") { put(o, "false-success", "undisturbed run exits with status 0 but requested output " + w + " is missing"); return true; } if (c.prop != "T09") return false; } }
  return true; }
// runs the disturbed history of c; false: no violation
static bool play(const TCase &c, const vector<Ref> &ref, Out &o, bool count) {
  setup(c, true); uint64_t big = 0; for (auto &r : ref) big = std::max(big, r.count[OP_EDGE]); uint64_t budget = c.prop == "T09" ? REF_BUDGET : big * 30 + 3000000;
  for (size_t si = 0; si < c.steps.size(); si++) { string rep[2]; memset(S->edges, 0, sizeof S->edges); if (!simRun(c.steps[si].procs, c.steps[si].sched, budget, false, rep)) { fprintf(stderr, "toolsim: cannot run a process\n"); exit(3); }
    if (count) { gSt.procs += (long)c.steps[si].procs.size(); uint64_t h = edgeHash(); for (uint32_t k = 0; k < 65536; k++) if (S->edges[k]) gSt.edge.insert(k);
      for (size_t i = 0; i < c.steps[si].procs.size(); i++) { ProcShm &q = S->proc[i]; gSt.edges += (long)q.count[OP_EDGE]; for (int k = 0; k < OP_EDGE; k++) gSt.ops += (long)q.count[k]; h = mix(h, q.firstSite * 64 + (unsigned)q.how * 8 + (unsigned)(q.code != 0)); if (q.faultsHit) gSt.faultRuns++; for (int m = 0; m < F_N; m++) if (q.hit[m]) gSt.hit[fmodeName[m]] += (long)q.hit[m]; for (auto &f : c.steps[si].procs[i].faults) { bool hit = f.mode == F_QUOTA ? q.hit[F_QUOTA] : f.op == OP_EDGE ? q.count[OP_EDGE] >= (uint64_t)f.at : q.count[f.op] > (uint64_t)f.at; if (hit) { gSt.hit[string("op ") + hitKey(f)]++; gSt.points.insert(mix((uint64_t)f.op * 16 + (uint64_t)f.mode, q.firstSite)); } } if (q.how == H_EXIT && !q.code) gSt.ok++; else if (q.how == H_EXIT) gSt.failed++; else gSt.killed++; }
      if (c.steps[si].procs.size() > 1) { gSt.inter.insert(S->inter); gSt.switches += S->switches; h = mix(h, S->inter); } gSt.hist.insert(h); }
    if (judge(c, ref, si, o, rep)) return true; }
  return false; }
static bool evalCase(const TCase &c, Out &o) { vector<Ref> ref; o = Out(); if (!runRefs(c, ref, false)) return false; if (!refUsable(c, ref, o)) return false; if (!o.cls.empty()) return true; return play(c, ref, o, false); }
static bool same(const Out &a, const Out &b) { return a.cls == b.cls && a.key == b.key; }
// ---- minimisation ----
static void editGrammar(TCase &k, const string &path, const string &text) { if (path.empty()) { for (auto &p : k.base) p.stdinText = text; for (auto &s : k.steps) for (auto &p : s.procs) p.stdinText = text; } else for (auto &f : k.files) if (f.path == path) f.text = text; }
static TCase minimise(TCase c, const Out &want, long &tried) {
  double end = now() + 75; auto late = [&]() { return now() > end; };
  // where each fault struck, so that it can follow its place when the grammar shrinks
  struct Aim { uint32_t pc = 0; long delta = 0; bool ok = false; };
  auto aims = [&](const TCase &k) { vector<vector<vector<Aim>>> a; vector<Ref> ref; runRefs(k, ref, true); for (auto &s : k.steps) { a.push_back({}); for (size_t pi = 0; pi < s.procs.size(); pi++) { a.back().push_back({}); const Ref &r = ref[std::min(pi, ref.size() - 1)]; for (auto &f : s.procs[pi].faults) { Aim m; if (f.mode != F_QUOTA) { long n = 0; for (auto &x : r.sites) { if (f.op == OP_EDGE) { if ((long)x.edge <= f.at && x.op != OP_MALLOC) m = Aim{x.pc, f.at - (long)x.edge, true}; } else if ((int)x.op == f.op && n++ == f.at) m = Aim{x.pc, 0, true}; } } a.back().back().push_back(m); } } } return a; };
  auto retarget = [&](TCase &k, const vector<vector<vector<Aim>>> &a, bool last) { vector<Ref> ref; runRefs(k, ref, true); bool any = false; for (size_t si = 0; si < k.steps.size(); si++) for (size_t pi = 0; pi < k.steps[si].procs.size(); pi++) for (size_t fi = 0; fi < k.steps[si].procs[pi].faults.size(); fi++) { auto &f = k.steps[si].procs[pi].faults[fi]; const Aim &m = a[si][pi][fi]; if (!m.ok) continue; const Ref &r = ref[std::min(pi, ref.size() - 1)]; long n = 0; bool got = false; for (auto &x : r.sites) { if (f.op == OP_EDGE) { if (x.pc == m.pc && (last || !got)) { f.at = (long)x.edge + m.delta; got = true; } } else if ((int)x.op == f.op) { if (x.pc == m.pc && (last || !got)) { f.at = n; got = true; } n++; } } if (got) any = true; } return any; };
  auto fails = [&](const TCase &k) { tried++; Out o; return evalCase(k, o) && o.cls == want.cls && o.key == want.key; };
  auto take = [&](const TCase &k) { if (late()) return false; if (fails(k)) { c = k; return true; } return false; };
  for (size_t i = 0; i + 1 < c.steps.size();) { TCase k = c; k.steps.erase(k.steps.begin() + (long)i); if (!take(k)) i++; }
  if (c.steps.size() > 1) { TCase k = c; k.steps.pop_back(); take(k); }
  for (auto tool = 0; tool < 1; tool++) if (c.base.size() == 2) for (int d = 1; d >= 0; d--) { TCase k = c; k.base.erase(k.base.begin() + d); bool ok = true; for (auto &s : k.steps) if (s.procs.size() == 2) s.procs.erase(s.procs.begin() + d); else ok = false; if (ok && take(k)) break; }
  for (size_t i = 0; i < c.files.size();) { if (c.files[i].path[0] == '!') { TCase k = c; k.files.erase(k.files.begin() + (long)i); if (take(k)) continue; } i++; }
  for (size_t si = 0; si < c.steps.size(); si++) for (size_t pi = 0; pi < c.steps[si].procs.size(); pi++) {
    for (size_t fi = 0; fi < c.steps[si].procs[pi].faults.size();) { TCase k = c; auto &f = k.steps[si].procs[pi].faults; f.erase(f.begin() + (long)fi); if (!take(k)) fi++; }
    for (int v = 0; v < 7; v++) { TCase k = c; Proc &p = k.steps[si].procs[pi]; Proc d; string was = serialise(k); switch (v) { case 0: p.bufSize = d.bufSize; break; case 1: p.readMax = 0; break; case 2: p.heapMode = 0; break; case 3: p.fill = d.fill; break; case 4: p.seed = 1; break; case 5: p.ignoreSig = 0; break; case 6: p.tmpMode = 0; } if (serialise(k) != was) take(k); } }
  vector<string> texts; for (auto &f : c.files) if (f.path[0] != '!' && f.text.size() < 100000) { bool tm = false; if (lemonTool(c) && f.text == tmplText) tm = true; if (!tm) texts.push_back(f.path); } if (!c.base[0].stdinText.empty()) texts.push_back("");
  auto textOf = [&](const TCase &k, const string &p) { if (p.empty()) return k.base[0].stdinText; for (auto &f : k.files) if (f.path == p) return f.text; return string(); };
  auto tryText = [&](const string &path, const string &t) { TCase k = c; editGrammar(k, path, t); if (take(k)) return true; if (late()) return false; bool faults = false; for (auto &s : c.steps) for (auto &p : s.procs) if (!p.faults.empty()) faults = true; if (!faults) return false; auto a = aims(c); for (int last = 0; last < 2; last++) { TCase q = k; if (retarget(q, a, last) && take(q)) return true; } return false; };
  for (int round = 0; round < 3 && !late(); round++) { size_t before = serialise(c).size();
    for (auto &path : texts) {
      { vector<string> L; { string t = textOf(c, path); size_t a = 0; while (a < t.size()) { size_t b = t.find('\n', a); b = b == string::npos ? t.size() : b + 1; L.push_back(t.substr(a, b - a)); a = b; } }
        for (size_t w = std::max<size_t>(1, L.size() / 2); w >= 1 && !late(); w /= 2) { for (size_t i = 0; i < L.size() && !late();) { vector<string> M(L.begin(), L.begin() + (long)i); M.insert(M.end(), L.begin() + (long)std::min(L.size(), i + w), L.end()); string t; for (auto &x : M) t += x; if (tryText(path, t)) L = M; else i += w; } if (w == 1) break; } }
      string t = textOf(c, path); if (t.size() < 4000) for (size_t w = std::max<size_t>(1, t.size() / 4); w >= 1 && !late(); w /= 2) { for (size_t i = 0; i < t.size() && !late();) { string u = t.substr(0, i) + (i + w < t.size() ? t.substr(i + w) : ""); if (tryText(path, u)) t = u; else i += w; } if (w == 1) break; } }
    for (size_t ai = 0; ai < c.base[0].args.size() && c.base.size() == 1 && !late();) { const string a = c.base[0].args[ai]; if (a[0] != '-' || a == "-") { ai++; continue; } TCase k = c; bool two = a == "-b" || a == "-p" || a == "-o" || a == "-H"; auto cut = [&](Proc &p) { p.args.erase(p.args.begin() + (long)ai, p.args.begin() + (long)std::min(p.args.size(), ai + 1 + two)); }; cut(k.base[0]); for (auto &s : k.steps) for (auto &p : s.procs) if (ai < p.args.size()) cut(p); vector<Ref> ref; runRefs(k, ref, false); vector<string> w; if (!ref.empty()) for (auto &x : k.want) if (ref[0].outs.count(x)) w.push_back(x); k.want = w; if (!take(k)) ai++; }
    if (serialise(c).size() == before) break; }
  return c; }
// ---- replay files ----
static string caseText(const TCase &c) { string s = c.note + "; inputs:"; for (auto &f : c.files) s += " " + f.path + "(" + std::to_string(f.text.size()) + " bytes)"; for (auto &st : c.steps) { s += "; step:"; for (size_t i = 0; i < st.procs.size(); i++) s += (i ? " || " : " ") + procText(st.procs[i]); } return s; }
static string oneLine(const string &s) { string r; for (char ch : s) r += ch == '\n' ? string(" | ") : string(1, ch); return r; }
static void writeReplay(const string &path, const TCase &c, const Out &o, const string &note) { string s = "toolsim-replay 1\nclass " + o.cls + "\nkey " + oneLine(o.key) + "\n" + serialise(c) + "# " + note + "\n# " + oneLine(caseText(c)) + "\n"; for (auto &l : splitLines(o.detail)) s += "# " + l + "\n"; for (auto &f : c.files) if (f.text != tmplText && f.text.size() < 3000) { s += "# file " + f.path + ":\n"; for (auto &l : splitLines(f.text)) s += "#   " + l + "\n"; } writeFile(path, s); }
static bool readReplay(const string &path, TCase &c, Out &o) { string t = readFile(path); if (t.compare(0, 16, "toolsim-replay 1") != 0) return false; auto L = splitLines(t); for (auto &l : L) { if (hasPrefix(l, "class ")) o.cls = l.substr(6); if (hasPrefix(l, "key ")) o.key = l.substr(4); } return deserialise(t, c); }
static void describe(const TCase &c) { vector<Ref> ref; runRefs(c, ref, false); for (auto &r : ref) printf("undisturbed: %s; %zu outputs; stderr: %s\n", howText(r).c_str(), r.outs.size(), oneLine(r.err.substr(0, 500)).c_str()); setup(c, true); for (auto &s : c.steps) { string rep[2]; simRun(s.procs, s.sched, REF_BUDGET, false, rep); for (size_t i = 0; i < s.procs.size(); i++) { Ref r; takeRef(c, (int)i, r); printf("disturbed: %s\n  %s; faults hit %d; stderr: %s\n", procText(s.procs[i]).c_str(), howText(r).c_str(), S->proc[i].faultsHit, oneLine(r.err.substr(0, 500)).c_str()); } } }
static int replay(const string &path) { TCase c; Out want, got; if (!readReplay(path, c, want)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; } describe(c); evalCase(c, got); printf("recorded: %s %s\nobserved: %s %s\n%s\n", want.cls.c_str(), want.key.c_str(), got.cls.empty() ? "no violation" : got.cls.c_str(), got.key.c_str(), got.detail.c_str()); if (got.cls.empty()) { printf("NOT REPRODUCED property=%s\n", c.prop.c_str()); return 0; } printf("%s\nVIOLATION property=%s replay=%s\n", same(want, got) ? "reproduced exactly" : "reproduced with different details", c.prop.c_str(), path.c_str()); return 1; }
// ---- search ----
static string jsonStr(const string &s) { string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }
static uint64_t caseSeed(long i) { return mix(mix(gSeed, hashStr(gProp)), (uint64_t)i * 2 + 1); }
struct Know { string cls, key; }; static vector<Know> gKnow;
static bool known(const Out &o) { for (auto &k : gKnow) if (k.cls == o.cls && k.key == o.key) return true; return false; }
// searches case i; true: c is a violating history
static bool searchCase(long i, TCase &c, Out &o, double deadline) {
  vector<Ref> ref; bool got = false; TCase b; uint64_t sd = 0; for (int k = 0; k < 12 && !got; k++) { sd = mix(caseSeed(i), (uint64_t)k); if (!genBase(gProp, sd, b)) continue; ref.clear(); if (!runRefs(b, ref, true)) { fprintf(stderr, "toolsim: cannot run a process\n"); exit(3); } o = Out(); if (!refUsable(b, ref, o)) { gSt.unusable++; continue; } got = true; }
  if (!got) return false; gSt.cases++; gSt.shape[b.note.find("corpus") != string::npos ? "test-suite grammars" : "generated grammars"]++; gSt.shape[b.base[0].tool == 2 ? "lemon" : b.base[0].tool ? "byacc without backtracking" : "byacc with backtracking"]++; if (ref[0].code) gSt.shape["undisturbed run fails"]++; if (b.base.size() > 1) gSt.shape["concurrent pairs"]++; if (b.base[0].useStdin) gSt.shape["grammar on standard input"]++; for (auto &e : ref[0].outs) { size_t d = e.first.rfind('.'); gSt.shape["output " + (d == string::npos ? e.first : e.first.substr(d))]++; }
  c = b; if (!o.cls.empty()) { if (known(o)) return false; c.steps.push_back({{b.base[0]}, 1}); return true; }
  Rng R(mix(sd, 99)); for (int r = 0; r < gRuns; r++) { if (now() > deadline) break; TCase k = b; if (!genPlan(k, ref, R)) break; gSt.runs++; Out q; if (play(k, ref, q, true)) { if (known(q)) continue; c = k; o = q; return true; } }
  return false; }
static void worker(int w, int fd, double deadline) {
  gSt = Stats(); simShare(); double t0 = now(); string samples[2]; int ns = 0;
  for (long i = w; i < gCases; i += gWorkers) { if (i > gSh->minViol || now() > deadline) break; TCase c; Out o; bool v = searchCase(i, c, o, deadline); if (w < 2 && ns < 2 && !c.steps.empty() && i >= gWorkers) samples[ns++] = "case " + std::to_string(i) + ": " + caseText(c); if (w < 2 && ns < 1) { TCase k = c; vector<Ref> ref; if (!k.base.empty() && runRefs(k, ref, true)) { Rng R(5); if (genPlan(k, ref, R)) samples[ns++] = "case " + std::to_string(i) + ": " + caseText(k); } } if (v) { for (;;) { long m = gSh->minViol; if (i >= m || __sync_bool_compare_and_swap(&gSh->minViol, m, i)) break; } break; } }
  std::ostringstream s; s << gSt.runs << " " << gSt.procs << " " << gSt.cases << " " << gSt.unusable << " " << gSt.ops << " " << gSt.edges << " " << gSt.switches << " " << gSt.faultRuns << " " << gSt.ok << " " << gSt.failed << " " << gSt.killed << " " << (now() - t0) << "\n";
  for (auto *m : {&gSt.hit, &gSt.shape}) { for (auto &e : *m) s << e.second << " " << e.first << "\n"; s << "0 .\n"; }
  for (auto *h : {&gSt.hist, &gSt.inter, &gSt.points, &gSt.edge}) { s << h->size(); for (auto x : *h) s << " " << x; s << "\n"; }
  for (auto &x : samples) s << jsonStr(x) << "\n"; s << "end\n";
  string t = s.str(); size_t off = 0; while (off < t.size()) { ssize_t n = write(fd, t.data() + off, t.size() - off); if (n <= 0) break; off += (size_t)n; } _exit(0); }
int main(int argc, char **argv) { gHuge = 3;
  if (!getenv("TOOLSIM_NOASLR")) { setenv("TOOLSIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  string rep; long dump = -1; for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") gProp = nx(); else if (a == "--seed") gSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") gCases = atol(nx().c_str()); else if (a == "--runs") gRuns = atoi(nx().c_str()); else if (a == "--tmpl") tmplText = readFile(nx()); else if (a == "--corpus") gCorpus = nx(); else if (a == "--evidence") gEvid = nx(); else if (a == "--replaydir") gReplayDir = nx(); else if (a == "--tier") gTier = nx(); else if (a == "--replay") rep = nx(); else if (a == "--workers") gWorkers = atoi(nx().c_str()); else if (a == "--maxsecs") gMaxSecs = atof(nx().c_str()); else if (a == "--known") gKnown = nx(); else if (a == "--dump") dump = atol(nx().c_str()); else { fprintf(stderr, "toolsim: unknown option %s\n", a.c_str()); return 2; } }
  loadCorpus(gCorpus); gSh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); gSh->minViol = 1L << 60;
  auto isolated = [&](auto fn) { fflush(stdout); pid_t p = fork(); if (p == 0) { simShare(); int r = fn(); fflush(stdout); _exit(r); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 2; };
  if (!rep.empty()) return isolated([&]() { return replay(rep); });
  if (dump >= 0) return isolated([&]() { TCase c; Out o; bool v = searchCase(dump, c, o, now() + 1e9); printf("%s\n%s\n", serialise(c).c_str(), v ? o.detail.c_str() : "no violation"); for (auto &f : c.files) if (f.text != tmplText) printf("--- %s\n%s\n", f.path.c_str(), f.text.c_str()); return 0; });
  double t0 = now(), deadline = t0 + gMaxSecs; int nknown = 0;
  if (!gKnown.empty()) { std::istringstream in(readFile(gKnown)); string line; while (std::getline(in, line)) { std::istringstream ls(line); string kw, prop, id, file, rest; ls >> kw >> prop >> id >> file; if (kw != "finding:" || prop != "property=" + gProp || !hasPrefix(file, "toolsim/")) continue; std::getline(ls, rest); string path = gKnown.substr(0, gKnown.rfind('/')) + "/findings/" + file; TCase c; Out want; if (!readReplay(path, c, want)) { fprintf(stderr, "toolsim: cannot read %s\n", path.c_str()); return 2; } gKnow.push_back({want.cls, want.key});
      int r = isolated([&]() { Out got; evalCase(c, got); return got.cls.empty() ? 0 : same(want, got) ? 1 : 2; }); if (r == 1) { nknown++; printf("KNOWN-FINDING: property=%s %s%s\n", gProp.c_str(), id.c_str(), rest.c_str()); } else if (r == 0) printf("listed finding %s no longer fails\n", id.c_str()); else printf("listed finding %s fails differently\n", id.c_str()); } }
  fflush(stdout); vector<int> fds; vector<pid_t> pids;
  for (int w = 0; w < gWorkers; w++) { int fd[2]; if (pipe(fd)) return 3; pid_t p = fork(); if (p == 0) { close(fd[0]); for (int x : fds) close(x); worker(w, fd[1], deadline); } close(fd[1]); fds.push_back(fd[0]); pids.push_back(p); }
  vector<string> txt((size_t)gWorkers); { vector<bool> op((size_t)gWorkers, true); int left = gWorkers; while (left) { fd_set f; FD_ZERO(&f); int mx = 0; for (int w = 0; w < gWorkers; w++) if (op[(size_t)w]) { FD_SET(fds[(size_t)w], &f); mx = std::max(mx, fds[(size_t)w]); } if (select(mx + 1, &f, 0, 0, 0) < 0) continue; for (int w = 0; w < gWorkers; w++) if (op[(size_t)w] && FD_ISSET(fds[(size_t)w], &f)) { char b[65536]; ssize_t n = read(fds[(size_t)w], b, sizeof b); if (n > 0) txt[(size_t)w].append(b, (size_t)n); else { op[(size_t)w] = false; left--; } } } }
  bool brk = false; vector<string> samples; double cpu = 0;
  for (int w = 0; w < gWorkers; w++) { int st; waitpid(pids[(size_t)w], &st, 0); const string &t = txt[(size_t)w]; if (t.size() < 4 || t.compare(t.size() - 4, 4, "end\n")) { fprintf(stderr, "toolsim: worker %d failed (status %d)\n", w, st); brk = true; continue; } std::istringstream i(t); long v[11]; double s; for (auto &x : v) i >> x; i >> s; cpu += s; gSt.runs += v[0]; gSt.procs += v[1]; gSt.cases += v[2]; gSt.unusable += v[3]; gSt.ops += v[4]; gSt.edges += v[5]; gSt.switches += v[6]; gSt.faultRuns += v[7]; gSt.ok += v[8]; gSt.failed += v[9]; gSt.killed += v[10];
    for (auto *m : {&gSt.hit, &gSt.shape}) for (;;) { long n; string k; if (!(i >> n)) break; std::getline(i, k); k = k.substr(1); if (k == ".") break; (*m)[k] += n; }
    for (auto *h : {&gSt.hist, &gSt.inter, &gSt.points, &gSt.edge}) { size_t n; i >> n; while (n-- > 0) { uint64_t x; i >> x; h->insert(x); } } string l; std::getline(i, l); while (std::getline(i, l) && l != "end") if (l != "\"\"") samples.push_back(l); }
  if (brk) return 2; double wall = now() - t0; int rc = 0;
  if (gSh->minViol < (1L << 60)) { long i = gSh->minViol; rc = isolated([&]() { TCase c; Out o, a, b; if (!searchCase(i, c, o, now() + 600)) { printf("toolsim: case %ld failed once and not again; not reported\n", i); return 2; } long tried = 0; TCase m = minimise(c, o, tried); evalCase(m, a); evalCase(m, b); if (a.cls.empty()) { m = c; evalCase(m, a); evalCase(m, b); } if (!same(a, b) || a.detail != b.detail) printf("toolsim: warning: two executions of the minimised history differ in detail\n");
      string rp = gReplayDir + "/" + gProp + ".replay"; mkdir(gReplayDir.c_str(), 0755); writeReplay(rp, m, a, "seed " + std::to_string(gSeed) + " case " + std::to_string(i) + ", minimised with " + std::to_string(tried) + " executions"); printf("property %s violated (%s) by seed %llu case %ld\n%s\n%s\n", gProp.c_str(), a.cls.c_str(), (unsigned long long)gSeed, i, caseText(m).c_str(), a.detail.c_str()); printf("VIOLATION property=%s replay=%s\n", gProp.c_str(), rp.c_str()); return 1; }); }
  if (!gEvid.empty() && rc != 2) { std::ostringstream e; auto mapJson = [&](const map<string, long> &m) { string r = "{"; int k = 0; for (auto &x : m) r += (k++ ? ", " : "") + jsonStr(x.first) + ": " + std::to_string(x.second); return r + "}"; };
    e << "{\n \"property\": " << jsonStr(gProp) << ",\n \"tier\": " << jsonStr(gTier) << ",\n \"seed\": " << gSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << gSt.runs << ",\n  \"distinct_nontrivial\": " << gSt.hist.size() << ",\n  \"rule\": " << jsonStr("evaluations counts disturbed histories judged against the undisturbed run of the same inputs; distinct_nontrivial counts distinct executions, by hash of the set of program points reached, the place the first fault struck, the interleaving of concurrent processes and the way the run ended") << ",\n  \"samples\": ["; for (size_t k = 0; k < samples.size() && k < 4; k++) e << (k ? ", " : "") << samples[k];
    e << "],\n  \"injected_faults_fired\": " << mapJson(gSt.hit) << ",\n  \"distinct_fault_points\": " << gSt.points.size() << ",\n  \"generator\": " << mapJson(gSt.shape) << ",\n  \"cases\": " << gSt.cases << ",\n  \"unusable_draws\": " << gSt.unusable << ",\n  \"processes_run\": " << gSt.procs << ",\n  \"runs_hit_by_a_fault\": " << gSt.faultRuns << ",\n  \"ended_in_success\": " << gSt.ok << ",\n  \"ended_in_failure\": " << gSt.failed << ",\n  \"ended_by_kill_or_signal\": " << gSt.killed << ",\n  \"operating_system_operations\": " << gSt.ops << ",\n  \"simulated_time\": " << jsonStr("the tools read no clock; simulated time is counted in executed program edges: " + std::to_string(gSt.edges)) << ",\n  \"program_edges_reached\": " << gSt.edge.size() << ",\n  \"context_switches\": " << gSt.switches << ",\n  \"distinct_interleavings\": " << gSt.inter.size() << ",\n  \"real_components\": \"byacc (built with and without backtracking) and lemon, all of their own code, compiled from /repo; the C library's stdio buffering, string and number functions\",\n  \"stub_components\": \"file system, file descriptors, standard streams, heap, signals, exit, environment variables, process scheduling\",\n  \"runs_per_hour\": " << (long)((double)gSt.runs / (wall > 0 ? wall : 1) * 3600) << ",\n  \"seeds_per_hour\": " << (long)((double)gSt.cases / (wall > 0 ? wall : 1) * 3600) << ",\n  \"known_findings\": " << nknown << "\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1) << "\n}\n"; writeFile(gEvid, e.str()); }
  printf("%s: %ld cases (%ld unusable), %ld histories, %ld processes, %zu distinct executions, %zu fault points, %ld runs hit, ends %ld/%ld/%ld, %zu edges, %zu interleavings, %.1f s, result %d\n", gProp.c_str(), gSt.cases, gSt.unusable, gSt.runs, gSt.procs, gSt.hist.size(), gSt.points.size(), gSt.faultRuns, gSt.ok, gSt.failed, gSt.killed, gSt.edge.size(), gSt.inter.size(), wall, rc);
  for (auto &p : gSt.hit) printf("  %s: %ld\n", p.first.c_str(), p.second); return rc; }

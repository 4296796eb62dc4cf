// psim: seeded search over grammars, token streams, interleavings and faults for generated parsers.
#include "exec.h"
#include "heap.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <ctime>
static string gProp, gEvid, gReplayDir, gTier = "quick", gKnown; static uint64_t gSeed = 1; static long gCases = 200; static int gRuns = 40, gWorkers = 8; static double gMaxSecs = 600;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shared { volatile long minViol; volatile int runNo[64]; };
static Shared *gSh;
struct Out { // what executing a case in a child reported
  string cls, detail; int run = -1; long runs = 0, skipped = 0, events = 0, heapFaults = 0, toks = 0, yields = 0; vector<uint64_t> hashes, inters; map<string, long> probes; };
static bool isLemon(const string &p) { return p[0] == 'L'; }
static void rmTree(const string &d) { if (d.size() < 8 || d.compare(0, gWork.size(), gWork)) return; runCmd({"rm", "-rf", d}, "", "", "", 20); }
// executes every run of the case in a forked child; the parser library is loaded there only
static void execCase(const Case &c, const Auto &A, const string &so, int slot, Out &out, bool stopFirst = true) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); } fflush(stdout); gSh->runNo[slot] = -1;
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); gProbes.n.clear();
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, 0);
    Ser s; string err; Out o; if (!loadParser(so, err)) { o.cls = "compile-fail"; o.detail = err; }
    else { vector<int> codes; readCodes(c, codes);
      for (size_t i = 0; i < c.runs.size(); i++) { gSh->runNo[slot] = (int)i; RunRes r; runOnce(c, c.runs[i], A, codes, r, false); if (r.skipped) { o.skipped++; continue; } o.runs++; o.events += r.events; o.heapFaults += r.heapFaults; o.hashes.push_back(r.hash); if (c.runs[i].inst.size() > 1) o.inters.push_back(r.inter);
        if (!r.cls.empty() && o.cls.empty()) { o.cls = r.cls; o.detail = r.detail; o.run = (int)i; if (stopFirst) break; } } }
    s.s("cls", o.cls); s.s("detail", o.detail); s.i("run", o.run); s.i("runs", o.runs); s.i("skipped", o.skipped); s.i("events", o.events); s.i("hf", o.heapFaults); s.i("toks", gLex); s.i("yields", gYields); s.i("np", gProbes.n.size()); for (auto &e : gProbes.n) { s.s("k", e.first); s.i("v", e.second); }
    s.i("nh", o.hashes.size()); for (auto h : o.hashes) s.s("h", std::to_string(h)); s.i("ni", o.inters.size()); for (auto h : o.inters) s.s("h", std::to_string(h));
    string t = s.os.str(); size_t off = 0; while (off < t.size()) { ssize_t n = write(fd[1], t.data() + off, t.size() - off); if (n <= 0) break; off += n; } _exit(0); }
  close(fd[1]); string t; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) t.append(b, n); close(fd[0]);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; out = Out();
  if (WIFSIGNALED(st) || !WIFEXITED(st) || WEXITSTATUS(st)) { out.run = gSh->runNo[slot]; int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0; if (sg == SIGPROF) { out.cls = "hang"; out.detail = "the parser does not finish"; } else { out.cls = "crash"; out.detail = sg ? "the parser was ended by signal " + std::to_string(sg) : "the parser ended the process"; } return; }
  De d(t); out.cls = d.s("cls"); out.detail = d.s("detail"); out.run = (int)d.i("run"); out.runs = d.i("runs"); out.skipped = d.i("skipped"); out.events = d.i("events"); out.heapFaults = d.i("hf"); out.toks = d.i("toks"); out.yields = d.i("yields"); long np = d.i("np"); while (np-- > 0) { string k = d.s("k"); out.probes[k] = d.i("v"); }
  long nh = d.i("nh"); while (nh-- > 0) out.hashes.push_back(strtoull(d.s("h").c_str(), 0, 10)); nh = d.i("ni"); while (nh-- > 0) out.inters.push_back(strtoull(d.s("h").c_str(), 0, 10)); }
// build and execute from scratch
static void evalCase(const Case &c, const string &dir, int slot, Out &out) { Auto A; buildAuto(c, A); out = Out(); if (A.tooBig) return; string so, cls, err; mkdir(dir.c_str(), 0755); if (!buildParser(c, dir, so, cls, err)) { out.cls = cls; out.detail = err; return; } execCase(c, A, so, slot, out); }
static bool same(const Out &a, const Out &b) { return a.cls == b.cls && a.detail == b.detail; }

// ---- minimisation ----
// references below a rule stay within what every use of its left-hand side puts there
static bool belowOk(const Grammar &g) { for (auto &r : g.rules) { int depth = 99; if (r.lhs == g.start) depth = 0; for (auto &q : g.rules) for (size_t k = 0; k < q.rhs.size(); k++) if (q.rhs[k].kind == 0 && q.rhs[k].sym == r.lhs) depth = std::min(depth, (int)k);
    int nf = (int)g.syms[r.lhs].fallback.size(), lim = g.dialect ? 99 : std::max(nf, depth == 99 ? 0 : depth); for (int b : r.refs) if (-b >= lim) return false; for (auto &e : r.rhs) { for (int b : e.refs) if (b <= 0 && -b >= lim) return false; for (size_t a = 1; a < e.args.size(); a += 3) if (e.args[a] <= -100 && -100 - e.args[a] >= lim) return false; } }
  return true; }
static bool validGrammar(const Grammar &g) { if (g.rules.empty() || !belowOk(g)) return false; set<int> have; for (auto &r : g.rules) have.insert(r.lhs); if (!have.count(g.start)) return false; for (auto &r : g.rules) for (auto &e : r.rhs) if (e.kind == 0) { if (e.alts.empty() && !g.syms[e.sym].term && !have.count(e.sym)) return false; } extern bool productive(const Grammar &); return productive(g); }
// removes one element of a rule; arguments that follow refer to positions
static bool dropElem(Rule &r, int e) { for (auto &q : r.rhs) for (size_t a = 0; a + 2 < q.args.size(); a += 3) { if (q.args[a + 1] == e + 1) return false; if (q.args[a + 1] > e + 1) q.args[a + 1]--; } r.rhs.erase(r.rhs.begin() + e); return true; }
static Case minimise(Case c, const Out &first, const string &dir, int slot, long &tried) {
  string cls = first.cls; double t0 = now(); tried = 0; auto late = [&]() { return now() - t0 > 60 || tried > 1500; };
  bool buildFail = cls == "tool-fail" || cls == "compile-fail";
  Auto A; buildAuto(c, A); string so, e1, e2; int gen = 0;
  if (buildFail) c.runs.clear(); else { vector<Run> one; if (first.run >= 0 && first.run < (int)c.runs.size()) one.push_back(c.runs[first.run]); else one = c.runs; c.runs = one; }
  auto fail = [&](const Case &k, bool rebuild) { tried++; Out o; if (rebuild) { Auto B; buildAuto(k, B); if (B.tooBig) return false; string d = dir + "/m" + std::to_string(gen++ % 2); string s2; string a, b; if (!buildParser(k, d, s2, a, b)) return a == cls; if (buildFail) return false; execCase(k, B, s2, slot, o); } else execCase(k, A, so, slot, o); return o.cls == cls; };
  auto reload = [&]() { if (buildFail) return; Auto B; buildAuto(c, B); A = B; buildParser(c, dir + "/base", so, e1, e2); };
  mkdir(dir.c_str(), 0755); reload();
  auto shrinkRun = [&]() { if (buildFail || c.runs.empty()) return; bool ch = true; while (ch && !late()) { ch = false; Run &r = c.runs[0]; (void)r;
      for (size_t i = 0; c.runs[0].inst.size() > 1 && i < c.runs[0].inst.size() && !late();) { Case k = c; k.runs[0].inst.erase(k.runs[0].inst.begin() + i); if (fail(k, false)) { c = k; ch = true; } else i++; }
      for (size_t i = 0; i < c.runs[0].inst.size(); i++) {
        auto &S = c.runs[0].inst[i];
        for (size_t j = 0; j < S.streams.size() && S.streams.size() > 1 && !late();) { Case k = c; auto &q = k.runs[0].inst[i].streams; q.erase(q.begin() + j); if (fail(k, false)) { c = k; ch = true; } else j++; }
        for (size_t j = 0; j < c.runs[0].inst[i].ctl.size() && !late();) { Case k = c; auto &q = k.runs[0].inst[i].ctl; q.erase(q.begin() + j); if (fail(k, false)) { c = k; ch = true; } else j++; }
        for (size_t j = 0; j < c.runs[0].inst[i].allocFail.size() && !late();) { Case k = c; auto &q = k.runs[0].inst[i].allocFail; q.erase(q.begin() + j); if (fail(k, false)) { c = k; ch = true; } else j++; }
        if (c.runs[0].inst[i].discardAt >= 0 && !late()) { Case k = c; k.runs[0].inst[i].discardAt = -1; if (fail(k, false)) { c = k; ch = true; } }
        for (size_t s = 0; s < c.runs[0].inst[i].streams.size(); s++) for (size_t step = std::max<size_t>(1, c.runs[0].inst[i].streams[s].size() / 2); step >= 1; step /= 2) { for (size_t j = 0; j < c.runs[0].inst[i].streams[s].size() && !late();) { Case k = c; auto &q = k.runs[0].inst[i].streams[s]; q.erase(q.begin() + j, q.begin() + std::min(q.size(), j + step)); if (fail(k, false)) { c = k; ch = true; } else j += step; } if (step == 1) break; } } } };
  shrinkRun();
  for (int round = 0; round < 3 && !late(); round++) { bool ch = false; auto tryit = [&](Case &k) { if (!validGrammar(k.g) || late()) return false; if (fail(k, true)) { c = k; ch = true; return true; } return false; };
    { Case k = c; k.g.layout = 0; if (c.g.layout) tryit(k); }
    for (int f = 0; f < 15; f++) { Case k = c; Opt &o = k.o; switch (f) { case 0: o.d = 0; break; case 1: o.r = 0; break; case 2: o.l = 0; break; case 3: o.t = 0; break; case 4: o.i = 0; break; case 5: o.v = 0; break; case 6: o.g = 0; break; case 7: o.viaStdin = 0; break; case 8: o.H = 0; break; case 9: o.prefix = o.base = ""; break; case 10: o.u = 0; break; case 11: o.z = 0; break; case 12: o.valid &= ~4; break; case 14: o.valid &= ~48; break; case 13: o.lc = o.lr = o.ls = 0; break; } if (serialize(k) != serialize(c)) tryit(k); }
    for (size_t i = 0; i < c.g.rules.size() && !late();) { Case k = c; k.g.rules.erase(k.g.rules.begin() + i); if (!tryit(k)) i++; }
    for (size_t i = 0; i < c.g.precLevels.size() && !late();) { Case k = c; k.g.precLevels.erase(k.g.precLevels.begin() + i); if (!tryit(k)) i++; }
    for (size_t i = 0; i < c.g.rules.size() && !late(); i++) { if (c.g.rules[i].actFlags) { Case k = c; k.g.rules[i].actFlags = 0; tryit(k); } for (size_t e = 0; e < c.g.rules[i].rhs.size(); e++) for (size_t a = 0; a + 2 < c.g.rules[i].rhs[e].args.size(); a += 3) if (c.g.rules[i].rhs[e].args[a + 1] || c.g.rules[i].rhs[e].args[a]) { Case k = c; auto &q = k.g.rules[i].rhs[e].args; q[a] = q[a + 1] = 0; tryit(k); } if (c.g.rules[i].precSym >= 0) { Case k = c; k.g.rules[i].precSym = -1; tryit(k); } for (size_t e = 0; e < c.g.rules[i].rhs.size(); e++) if (c.g.rules[i].rhs[e].kind) { Case k = c; if (!dropElem(k.g.rules[i], (int)e)) continue; if (tryit(k)) e--; } }
    reload(); shrinkRun(); if (!ch) break; }
  return c; }
// ---- known findings: fixed cases, listed in a file committed under /verif ----
static string jsonStr(const string &s) { string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }
struct Agg { Out o; long cases = 0, unusable = 0, tools = 0; double secs = 0; long findCase = -1; string sample[3]; long statesMax = 0; map<string, long> shape; };
static void addShape(map<string, long> &m, const Case &c, const Auto &A) { m["grammars"]++; m["grammar rules"] += c.g.rules.size(); m["automaton states"] += A.st.size(); if (A.sr + A.rr) m["grammars with conflicts"]++; bool err = false, mid = false; for (auto &r : c.g.rules) for (auto &e : r.rhs) { if (e.kind) mid = true; else if (e.sym == 1) err = true; } if (err) m["grammars with error rules"]++; if (mid) m["grammars with mid-rule actions"]++; if (!c.g.precLevels.empty()) m["grammars with precedence declarations"]++; for (auto &r : c.runs) for (auto &s : r.inst) { if (!s.ctl.empty()) m["scripts with injected control actions"]++; if (!s.allocFail.empty()) m["scripts with scheduled heap failures"]++; if (s.discardAt >= 0) m["scripts with a scheduled discard"]++; m["parses scheduled"] += s.streams.size(); } }
static string runText(const Case &c) { std::ostringstream o; if (c.runs.empty()) return "(build only)"; const Run &r = c.runs[0]; o << r.inst.size() << " parser(s);"; for (auto &s : r.inst) { o << " tokens"; for (auto &t : s.streams) { o << " ["; int n = 0; for (auto &x : t) { if (n++ > 25) { o << " ..."; break; } o << " " << (x.sym >= 0 ? c.g.syms[x.sym].name : "#" + std::to_string(x.rawCode)); } o << " ]"; } if (!s.ctl.empty()) { o << " control"; for (auto &p : s.ctl) o << " " << p.first << ":" << p.second; } if (!s.allocFail.empty()) { o << " failing heap requests"; for (int x : s.allocFail) o << " " << x; } if (s.discardAt >= 0) o << " discard at " << s.discardAt; } return o.str(); }
static string grammarText(const Case &c) { string s; for (auto &r : c.g.rules) { s += c.g.syms[r.lhs].name + ":"; for (auto &e : r.rhs) s += e.kind ? string(" {}") : " " + (e.alts.empty() ? c.g.syms[e.sym].name : string("(class)")); s += "; "; if (s.size() > 400) { s += "..."; break; } } return s; }
static bool genOne(long i, Case &c, Auto &A) { for (int k = 0; k < 60; k++) { uint64_t sd = mix(mix(gSeed, hashStr(gProp)), (uint64_t)i * 64 + k); c = Case(); if (genCase(gProp, sd, c, A)) { Rng R(mix(sd, 77)); genRuns(c, A, R, gRuns); return true; } } return false; }
static void worker(int w, int fd, double deadline) {
  Ser s; Agg a; string dir = gWork + "/w" + std::to_string(w); mkdir(dir.c_str(), 0755); double t0 = now(); set<uint64_t> hs, is;
  for (long i = w; i < gCases; i += gWorkers) { if (i > gSh->minViol) break; if (now() > deadline) break; Case c; Auto A; if (!genOne(i, c, A)) { a.unusable++; continue; } a.cases++; addShape(a.shape, c, A); Out o; string so, cls, err;
    if (!buildParser(c, dir, so, cls, err)) { o.cls = cls; o.detail = err; } else execCase(c, A, so, w, o);
    a.o.runs += o.runs; a.o.skipped += o.skipped; a.o.events += o.events; a.o.heapFaults += o.heapFaults; a.o.toks += o.toks; a.o.yields += o.yields; for (auto &e : o.probes) a.o.probes[e.first] += e.second; hs.insert(o.hashes.begin(), o.hashes.end()); is.insert(o.inters.begin(), o.inters.end());
    if (w == 0 && i / gWorkers < 3) a.sample[i / gWorkers] = "case " + std::to_string(i) + ": grammar " + grammarText(c) + " run 0: " + runText(c);
    if (!o.cls.empty()) { for (;;) { long m = gSh->minViol; if (i >= m || __sync_bool_compare_and_swap(&gSh->minViol, m, i)) break; } a.findCase = i; a.o.cls = o.cls; a.o.detail = o.detail; break; } }
  s.i("cases", a.cases); s.i("unusable", a.unusable); s.i("tools", gToolRuns); s.i("runs", a.o.runs); s.i("skipped", a.o.skipped); s.i("events", a.o.events); s.i("hf", a.o.heapFaults); s.i("toks", a.o.toks); s.i("yields", a.o.yields); s.i("find", a.findCase); s.s("cls", a.o.cls); s.i("ms", (long)((now() - t0) * 1000)); for (auto &x : a.sample) s.s("sample", x);
  s.i("np", a.o.probes.size()); for (auto &e : a.o.probes) { s.s("k", e.first); s.i("v", e.second); } s.i("ns", a.shape.size()); for (auto &e : a.shape) { s.s("k", e.first); s.i("v", e.second); }
  s.i("nh", hs.size()); for (auto h : hs) s.s("h", std::to_string(h)); s.i("ni", is.size()); for (auto h : is) s.s("h", std::to_string(h));
  string t = s.os.str(); size_t off = 0; while (off < t.size()) { ssize_t n = write(fd, t.data() + off, t.size() - off); if (n <= 0) break; off += n; } _exit(0); }
static void writeReplay(const string &path, const Case &c, const Out &o, const string &note) { string s = "psim-replay 1" + (gStrict ? " finding " + std::to_string(gStrict) : string()) + "\nclass " + o.cls + "\n"; Ser q; q.s("detail", o.detail); s += q.os.str(); s += serialize(c); s += "\n# " + note + "\n# grammar: " + grammarText(c) + "\n# run: " + runText(c) + "\n"; string d = o.detail; string e; for (char ch : d) { e += ch; if (ch == '\n') e += "# "; } s += "# " + e + "\n"; writeFile(path, s); }
static bool readReplay(const string &path, Case &c, Out &o) { string t = readFile(path); size_t p = t.find('\n'); if (t.compare(0, 13, "psim-replay 1") || p == string::npos) return false; gStrict = atoi(t.substr(13, p - 13).c_str() + (t.compare(13, 9, " finding ") ? 0 : 9)); size_t q = t.find('\n', p + 1); o.cls = t.substr(p + 7, q - p - 7); size_t r = t.find('\n', q + 1); De d(t.substr(q + 1, r - q)); o.detail = d.s("detail"); return deserialize(t.substr(r + 1), c); }
static int replay(const string &path) { Case c; Out want, got; if (!readReplay(path, c, want)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; } evalCase(c, gWork + "/replay", 0, got);
  printf("recorded: %s\nobserved: %s\n%s\n", want.cls.c_str(), got.cls.empty() ? "no violation" : got.cls.c_str(), got.detail.c_str()); if (got.cls.empty()) { printf("NOT REPRODUCED property=%s\n", c.prop.c_str()); return 0; } printf("%s\nVIOLATION property=%s replay=%s\n", same(want, got) ? "reproduced exactly" : "reproduced with different details", c.prop.c_str(), path.c_str()); return 1; }
int main(int argc, char **argv) {
  if (!getenv("PSIM_NOASLR")) { setenv("PSIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  string rep, dump, expo; for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") gProp = nx(); else if (a == "--seed") gSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") gCases = atol(nx().c_str()); else if (a == "--runs") gRuns = atoi(nx().c_str()); else if (a == "--work") gWork = nx(); else if (a == "--bt") gTool[0] = nx(); else if (a == "--plain") gTool[1] = nx(); else if (a == "--lemon") gTool[2] = nx(); else if (a == "--tmpl") gTmpl = nx(); else if (a == "--rt") gRtDir = nx(); else if (a == "--evidence") gEvid = nx(); else if (a == "--replaydir") gReplayDir = nx(); else if (a == "--tier") gTier = nx(); else if (a == "--replay") rep = nx(); else if (a == "--export") expo = nx(); else if (a == "--workers") gWorkers = atoi(nx().c_str()); else if (a == "--maxsecs") gMaxSecs = atof(nx().c_str()); else if (a == "--dump") dump = nx(); else if (a == "--known") gKnown = nx(); else if (a == "--finding") gStrict = atoi(nx().c_str()); else { fprintf(stderr, "psim: unknown option %s\n", a.c_str()); return 2; } }
  gSh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); gSh->minViol = 1L << 60; mkdir(gWork.c_str(), 0755);
  if (!expo.empty()) { Case c; Out w; if (!readReplay(rep, c, w)) return 2; return exportDemo(c, expo); }
  if (!rep.empty()) return replay(rep);
  if (!dump.empty()) { Case c; Auto A; if (!genOne(atol(dump.c_str()), c, A)) { printf("unusable\n"); return 0; } printf("%s\n", (c.g.dialect ? emitLemon(c) : emitYacc(c)).c_str()); Out o; evalCase(c, gWork + "/dump", 0, o); printf("/* %zu states, conflicts %d/%d; class '%s' run %d, %ld runs, %ld skipped, %ld events\n%s\n*/\n", A.st.size(), A.sr, A.rr, o.cls.c_str(), o.run, o.runs, o.skipped, o.events, o.detail.c_str()); for (auto &e : o.probes) printf("// %s: %ld\n", e.first.c_str(), e.second); return 0; }
  double t0 = now(), deadline = t0 + gMaxSecs; vector<int> fds; vector<pid_t> pids;
  // ---- known findings first ----
  int known = 0, strict = gStrict; vector<string> knownLines; if (!gKnown.empty()) { std::istringstream in(readFile(gKnown)); string line; while (std::getline(in, line)) { std::istringstream ls(line); string kw, prop, id, file; ls >> kw >> prop >> id >> file; if (kw != "finding:" || prop != "property=" + gProp || file.compare(0, 5, "psim/")) continue; string rest; std::getline(ls, rest); string path = gKnown.substr(0, gKnown.rfind('/')) + "/findings/" + file; Case c; Out want, got; if (!readReplay(path, c, want)) { fprintf(stderr, "psim: cannot read %s\n", path.c_str()); return 2; } evalCase(c, gWork + "/known", 0, got); if (!got.cls.empty() && got.cls == want.cls) { known++; string l = "KNOWN-FINDING: property=" + gProp + " " + id + rest; printf("%s\n", l.c_str()); knownLines.push_back(id + rest); } else if (!got.cls.empty()) { printf("known finding %s now fails differently: %s\n", id.c_str(), got.cls.c_str()); string rp = gReplayDir + "/" + gProp + "-known.replay"; writeReplay(rp, c, got, "listed finding fails in a different way"); printf("%s\nVIOLATION property=%s replay=%s\n", got.detail.c_str(), gProp.c_str(), rp.c_str()); return 1; } else printf("listed finding %s no longer fails\n", id.c_str()); } gStrict = strict; }
  fflush(stdout);
  for (int w = 0; w < gWorkers; w++) { int fd[2]; if (pipe(fd)) return 3; pid_t p = fork(); if (p == 0) { close(fd[0]); for (int x : fds) close(x); worker(w, fd[1], deadline); } close(fd[1]); fds.push_back(fd[0]); pids.push_back(p); }
  Agg T; set<uint64_t> hs, is; vector<string> samples; bool broken = false; vector<string> txt(gWorkers); 
  { vector<bool> open_(gWorkers, true); int left = gWorkers; while (left) { fd_set f; FD_ZERO(&f); int mx = 0; for (int w = 0; w < gWorkers; w++) if (open_[w]) { FD_SET(fds[w], &f); mx = std::max(mx, fds[w]); } if (select(mx + 1, &f, 0, 0, 0) < 0) continue; for (int w = 0; w < gWorkers; w++) if (open_[w] && FD_ISSET(fds[w], &f)) { char b[65536]; ssize_t n = read(fds[w], b, sizeof b); if (n > 0) txt[w].append(b, n); else { open_[w] = false; left--; } } } }
  for (int w = 0; w < gWorkers; w++) { int st; waitpid(pids[w], &st, 0); if (txt[w].empty()) { fprintf(stderr, "psim: worker %d failed (status %d)\n", w, st); broken = true; continue; } De d(txt[w]); T.cases += d.i("cases"); T.unusable += d.i("unusable"); T.tools += d.i("tools"); T.o.runs += d.i("runs"); T.o.skipped += d.i("skipped"); T.o.events += d.i("events"); T.o.heapFaults += d.i("hf"); T.o.toks += d.i("toks"); T.o.yields += d.i("yields"); d.i("find"); d.s("cls"); T.secs += d.i("ms") / 1000.0; for (int k = 0; k < 3; k++) { string x = d.s("sample"); if (!x.empty()) samples.push_back(x); }
    long np = d.i("np"); while (np-- > 0) { string k = d.s("k"); T.o.probes[k] += d.i("v"); } np = d.i("ns"); while (np-- > 0) { string k = d.s("k"); T.shape[k] += d.i("v"); } long nh = d.i("nh"); while (nh-- > 0) hs.insert(strtoull(d.s("h").c_str(), 0, 10)); nh = d.i("ni"); while (nh-- > 0) is.insert(strtoull(d.s("h").c_str(), 0, 10)); }
  if (broken) return 2;
  double wall = now() - t0; int rc = 0; string viol; long tried = 0;
  if (gSh->minViol < (1L << 60)) { long i = gSh->minViol; Case c; Auto A; genOne(i, c, A); Out a, b; evalCase(c, gWork + "/v", 0, a); 
    if (a.cls.empty()) { printf("psim: case %ld failed once and not again; not reported\n", i); rc = 2; }
    else { Case m = minimise(c, a, gWork + "/min", 0, tried); evalCase(m, gWork + "/v", 0, a); evalCase(m, gWork + "/v2", 0, b); if (!same(a, b)) printf("psim: warning: two executions of the minimised case differ in detail\n"); if (a.cls.empty()) { m = c; evalCase(m, gWork + "/v", 0, a); }
      string rp = gReplayDir + "/" + gProp + ".replay"; mkdir(gReplayDir.c_str(), 0755); writeReplay(rp, m, a, "seed " + std::to_string(gSeed) + " case " + std::to_string(i) + ", minimised with " + std::to_string(tried) + " executions"); printf("property %s violated (%s) by seed %llu case %ld\ngrammar: %s\nrun: %s\n%s\n", gProp.c_str(), a.cls.c_str(), (unsigned long long)gSeed, i, grammarText(m).c_str(), runText(m).c_str(), a.detail.c_str()); printf("VIOLATION property=%s replay=%s\n", gProp.c_str(), rp.c_str()); viol = a.cls; rc = 1; } }
  if (!gEvid.empty()) { std::ostringstream e; e << "{\n \"property\": " << jsonStr(gProp) << ",\n \"tier\": " << jsonStr(gTier) << ",\n \"seed\": " << gSeed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << T.o.runs << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"rule\": " << jsonStr("evaluations counts simulated runs of generated parsers compared event by event with the reference model; distinct_nontrivial counts distinct complete event histories (hash of all token fetches, actions with their values, error reports, destructor calls and results of all instances); a run that the model could not finish within its step limit is not counted") << ",\n  \"samples\": ["; for (size_t k = 0; k < samples.size() && k < 3; k++) e << (k ? ", " : "") << jsonStr(samples[k]); e << "],\n  \"injected_faults_fired\": {\"failed heap requests\": " << T.o.heapFaults; for (auto &p : T.o.probes) e << ", " << jsonStr(p.first) << ": " << p.second; e << "},\n  \"generator\": {"; int k = 0; for (auto &p : T.shape) e << (k++ ? ", " : "") << jsonStr(p.first) << ": " << p.second; e << "},\n  \"simulated_events\": " << T.o.events << ",\n  \"simulated_time\": " << jsonStr("the components have no clock; simulated time is the number of simulated events (token fetches, actions, heap requests, hooks): " + std::to_string(T.o.events)) << ",\n  \"scheduling_points\": " << T.o.yields << ",\n  \"token_fetches\": " << T.o.toks << ",\n  \"distinct_interleavings\": " << is.size() << ",\n  \"runs_skipped\": " << T.o.skipped << ",\n  \"cases\": " << T.cases << ",\n  \"real_components\": " << jsonStr(isLemon(gProp) ? "lemon built from /repo, lempar.c template from /repo, the generated parser compiled with gcc" : "byacc (built with and without backtracking) from /repo, its parser skeletons, the generated parser compiled with gcc") << ",\n  \"stub_components\": " << jsonStr("token source, heap, error and destructor hooks, user actions, scheduler of parser instances") << ",\n  \"runs_per_hour\": " << (long)(T.o.runs / (wall > 0 ? wall : 1) * 3600) << ",\n  \"seeds_per_hour\": " << (long)(T.cases / (wall > 0 ? wall : 1) * 3600) << ",\n  \"known_findings\": " << known << "\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << rc << "\n}\n"; writeFile(gEvid, e.str()); }
  printf("%s: %ld cases, %ld runs (%ld skipped), %zu distinct histories, %ld events, %ld heap faults, %.1f s, result %d\n", gProp.c_str(), T.cases, T.o.runs, T.o.skipped, hs.size(), T.o.events, T.o.heapFaults, wall, rc);
  for (auto &p : T.o.probes) printf("  %s: %ld\n", p.first.c_str(), p.second);
  return rc; }

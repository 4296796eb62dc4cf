// Runs generated parsers inside the simulator: builds them with the real tools, loads them, and drives every
// instance as a coroutine whose progress, input, heap and control decisions come from the case alone.
#include "exec.h"
#include "heap.h"
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <cerrno>
string gWork, gTool[3], gRtDir, gTmpl; Probes gProbes; long gToolRuns = 0;
static ucontext_t mainCtx;
struct Inst { Env E; ucontext_t cx; vector<char> stk; bool done = false, runaway = false, started = false; size_t limit = 0; int id = 0; };
static vector<Inst *> insts; static Inst *cur = 0; static bool inSim = false; long gYields = 0, gHeapFaults = 0, gLex = 0;
static void yieldPoint() { if (!cur) return; gYields++; if (cur->E.tr.e.size() > cur->limit) { cur->runaway = true; cur->done = true; } Inst *c = cur; swapcontext(&c->cx, &mainCtx); }
extern "C" {
struct SimTok { int val, tag, l[4]; };
int sim_lex(void *p, struct SimTok *t) { Inst *I = (Inst *)p; if (I != cur) { cur->E.tr.ev(EV_NOTE, {-1, 1}); I = cur; } Env &E = I->E; int v, sym; int code = E.lex(v, t->l, sym); t->val = v; t->tag = sym >= 2 ? E.c->g.syms[sym].tag : -1; if (E.c->g.dialect == 0 && t->tag < 0) t->tag = 0; gLex++; E.tr.ev(EV_LEX, {code, v}); yieldPoint(); return code; }
int sim_act(void *p, int rule, int recov, int n, const int *vals, int nl, const int *locs) { Inst *I = (Inst *)p; if (I != cur) { cur->E.tr.ev(EV_NOTE, {-1, 2}); I = cur; } Env &E = I->E; vector<int> v{rule, recov}; v.insert(v.end(), vals, vals + n); if (locs) v.insert(v.end(), locs, locs + nl); E.tr.evv(EV_ACT, v); int r = E.nextVal++; E.pendingCtl = E.ctlFor(E.actNo); E.actNo++; yieldPoint(); return r; }
int sim_ctl(void *p) { Inst *I = (Inst *)p; if (I != cur) I = cur; int c = I->E.pendingCtl; I->E.pendingCtl = 0; return c; }
void sim_err(void *p, const char *m, const int *loc) { Inst *I = (Inst *)p; if (I != cur) { cur->E.tr.ev(EV_NOTE, {-1, 3}); I = cur; } int k = !strcmp(m, "syntax error") ? 0 : !strcmp(m, "yacc stack overflow") ? 1 : !strcmp(m, "memory exhausted") ? 2 : 3; vector<int> v{k}; if (loc) v.insert(v.end(), loc, loc + 4); I->E.tr.evv(EV_ERR, v); yieldPoint(); }
void sim_dtor(void *p, int what, int val, const int *loc) { Inst *I = (Inst *)p; if (I != cur) { cur->E.tr.ev(EV_NOTE, {-1, 4}); I = cur; } vector<int> v{what, val}; if (loc) v.insert(v.end(), loc, loc + 4); I->E.tr.evv(EV_DTOR, v); yieldPoint(); }
void sim_note(void *p, int what, const char *s) { Inst *I = (Inst *)p; if (I != cur) I = cur; I->E.tr.ev(EV_NOTE, {what, noteHash(s)}); }
void sim_note_i(void *p, int what, int v) { Inst *I = (Inst *)p; if (I != cur) I = cur; I->E.tr.ev(EV_NOTE, {what, v}); }
int sim_valid(void *p) { Inst *I = (Inst *)p; if (I != cur) I = cur; return I->E.validDecision(); }
void sim_hook(void *p, int what, int a, int b) { Inst *I = (Inst *)p; if (I != cur) { cur->E.tr.ev(EV_NOTE, {-1, 5}); I = cur; } I->E.tr.ev(EV_HOOK, {what, a, b}); yieldPoint(); }
static void out(char ch, const char *s) { if (!cur) return; Env &E = cur->E; for (; *s; s++) { if (E.part.empty()) { E.part += ch; E.part += ':'; } if (*s == '\n') { E.line(E.part); E.part.clear(); } else E.part += *s; } }
static char chan(void *s) { return s == (void *)stderr ? 'e' : s == (void *)stdout ? 'o' : '?'; }
int sim_printf(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); out('o', b); return n; }
int sim_fprintf(void *s, const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); out(chan(s), b); return n; }
int sim_fputs(const char *t, void *s) { out(chan(s), t); return 0; }
int sim_fputc(int c, void *s) { char b[2] = {(char)c, 0}; out(chan(s), b); return c; }
char *sim_getenv(const char *n) { static char v[5][4] = {"1", "9", "0", "no", ""}; if (!cur || strcmp(n, "YYDEBUG")) return 0; const Case &c = *cur->E.c; switch (c.o.dbg) { case 2: case 5: case 6: return v[c.g.layout & 1]; case 3: return v[2]; case 4: return v[3 + (c.g.layout & 1)]; default: return 0; } }
const char *sim_tostr(int s, int v) { static char b[64]; bool t = s == 0 || s == 256; if (cur) for (size_t i = 2; i < cur->E.c->g.syms.size(); i++) if (cur->E.c->g.syms[i].term && (*cur->E.codes)[i] == s) t = true; snprintf(b, sizeof b, "\x02%c%d=%d", t ? 'T' : 'N', s, v); return b; }
void *sim_cur(void) { return cur; }
void *sim_box(size_t n) { return heapAlloc(n); }
static bool heapOk() { if (!cur) return true; Env &E = cur->E; bool f = E.heapFails(E.heapNo); E.heapNo++; if (f) { E.heapFailed++; gHeapFaults++; } return !f; }
void *sim_malloc(size_t n) { bool ok = heapOk(); void *r = ok ? heapAlloc(n) : 0; yieldPoint(); return r; }
void *sim_calloc(size_t a, size_t b) { bool ok = heapOk(); void *r = ok ? heapAlloc(a * b) : 0; if (r) memset(r, 0, a * b); yieldPoint(); return r; }
void *sim_realloc(void *p, size_t n) { bool ok = heapOk(); void *r = ok ? heapRealloc(p, n) : 0; yieldPoint(); return r; }
void sim_free(void *p) { heapFree(p); }
}
void simYield() { yieldPoint(); }
typedef int (*RunFn)(void *); typedef int (*NerrFn)(void);
static int *fDbg; static RunFn fRun; static NerrFn fNerr; static const int *fCodes; static LemonApi *fLem;
static void bodyYacc(Inst *I) { for (size_t k = 0; k < I->E.s->streams.size(); k++) { if (I->E.stopAt >= 0 && (int)k >= I->E.stopAt) break; I->E.nextStream(); if (fDbg) *fDbg = 1; int r = fRun(I); I->E.tr.ev(EV_RET, {r, fNerr()}); yieldPoint(); } }
static void entry(unsigned lo, unsigned hi) { Inst *I = (Inst *)(((uintptr_t)hi << 32) | lo); if (I->E.c->g.dialect == 0) bodyYacc(I); else bodyLemon(I->E, fLem, I); I->done = true; swapcontext(&I->cx, &mainCtx); }
// ---- writable data of the loaded parser, restored before every run ----
struct Seg { char *p; size_t n; vector<char> copy; }; static vector<Seg> segs;
static int phdrCb(struct dl_phdr_info *i, size_t, void *want) { if (!i->dlpi_name || strcmp(i->dlpi_name, (const char *)want)) return 0; uintptr_t relroEnd = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relroEnd = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095UL;
  for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue; uintptr_t a = i->dlpi_addr + h.p_vaddr, e = a + h.p_memsz; if (relroEnd > a) a = relroEnd; if (a < e) { Seg s; s.p = (char *)a; s.n = e - a; s.copy.assign(s.p, s.p + s.n); segs.push_back(s); } } return 0; }
bool loadParser(const string &so, string &err) { void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { err = dlerror(); return false; } fRun = (RunFn)dlsym(h, "sim_run"); fNerr = (NerrFn)dlsym(h, "sim_nerrs"); int **dv = (int **)dlsym(h, "sim_dbg"); fDbg = dv ? *dv : 0; fCodes = (const int *)dlsym(h, "sim_codes"); fLem = (LemonApi *)dlsym(h, "sim_lemon"); if (!fCodes || (!fRun && !fLem)) { err = "entry points missing"; return false; } segs.clear(); dl_iterate_phdr(phdrCb, (void *)so.c_str()); return true; }
bool readCodes(const Case &c, vector<int> &codes) { codes.assign(fCodes, fCodes + c.g.syms.size()); return true; }
static void restore() { for (auto &s : segs) memcpy(s.p, s.copy.data(), s.n); }
// ---- one run ----
bool runOnce(const Case &c, const Run &r, const Auto &A, const vector<int> &codes, RunRes &out, bool keep) {
  out = RunRes(); vector<Env> model(r.inst.size());
  for (size_t i = 0; i < r.inst.size(); i++) { Env &E = model[i]; E.c = &c; E.s = &r.inst[i]; E.codes = &codes; E.start(); bool ok = c.g.dialect ? modelLemon(c, A, E, gProbes) : c.o.B ? modelBt(c, A, E, gProbes) : modelYacc(c, A, E, gProbes); if (!ok) { out.skipped = true; return true; } }
  restore(); heapReset((unsigned)(r.sched >> 3)); for (auto *x : insts) delete x; insts.clear();
  for (size_t i = 0; i < r.inst.size(); i++) { Inst *I = new Inst; I->id = (int)i; I->E.c = &c; I->E.s = &r.inst[i]; I->E.codes = &codes; I->E.start(); I->E.stopAt = model[i].stop ? model[i].stream + 1 : -1; I->limit = model[i].tr.e.size() + 400; I->stk.resize(256 * 1024); getcontext(&I->cx); I->cx.uc_stack.ss_sp = I->stk.data(); I->cx.uc_stack.ss_size = I->stk.size(); I->cx.uc_link = 0; uintptr_t p = (uintptr_t)I; makecontext(&I->cx, (void (*)())entry, 2, (unsigned)p, (unsigned)(p >> 32)); insts.push_back(I); }
  Rng S(r.sched); size_t li = 0; inSim = true; uint64_t ih = 1469598103934665603ULL;
  for (;;) { vector<int> live; for (auto *I : insts) if (!I->done) live.push_back(I->id); if (live.empty()) break; int k; if (li < r.schedList.size()) { k = r.schedList[li++]; if (k < 0 || k >= (int)insts.size() || insts[k]->done) continue; } else k = live.size() == 1 ? live[0] : live[S.below((int)live.size())];
    ih = (ih ^ (uint64_t)k) * 1099511628211ULL; cur = insts[k]; swapcontext(&mainCtx, &cur->cx); cur = 0; }
  inSim = false; out.events = 0; uint64_t h = 1469598103934665603ULL;
  for (size_t i = 0; i < insts.size(); i++) { Env &E = insts[i]->E; out.events += E.tr.nev; for (int x : E.tr.e) { h ^= (uint64_t)(unsigned)x; h *= 1099511628211ULL; } if (E.heapFailed) out.heapFaults += E.heapFailed;
    if (insts[i]->runaway && out.cls.empty()) out.cls = "runaway";
    if (!matches(model[i].tr.e, E.tr.e) && out.cls.empty()) out.cls = "mismatch";
    if (!out.cls.empty() && out.detail.empty()) { size_t d = 0; const vector<int> &a = E.tr.e, &b = model[i].tr.e; while (d < a.size() && d < b.size() && (a[d] == b[d] || b[d] == ANY)) d++; out.detail = "instance " + std::to_string(i) + ": observed history differs from the reference model\n  expected: " + showTrace(model[i].tr, &c.g, (int)d) + "\n  observed: " + showTrace(E.tr, &c.g, (int)d); } }
  out.hash = h; out.inter = ih;
  if (!heapCheck() && out.cls.empty()) { out.cls = "memory"; out.detail = heapStats().msg; }
  if (out.cls.empty() && !leakRule(c, r, model, heapStats().live, out.detail)) out.cls = "leak";
  if (keep) for (auto *I : insts) out.traces.push_back(I->E.tr);
  return true; }
// parsers that own their stacks must have released everything; others may keep their (static) stacks
bool leakRule(const Case &c, const Run &r, vector<Env> &m, long live, string &d) { long allowed = 0; if (c.g.dialect == 0) { if (!(c.o.P || c.o.noLeaks)) allowed += 3 * (long)r.inst.size(); if (c.o.B) return true; } else allowed = 0; for (auto &e : m) if (e.stop) return true; if (live > allowed) { d = std::to_string(live) + " heap blocks still held after every parser has finished"; return false; } return true; }
// ---- traces as text ----
string showTrace(const Trace &t, const Grammar *g, int around) {
  std::ostringstream o; size_t i = 0; int n = 0, shown = 0; 
  while (i + 1 < t.e.size()) { int ty = t.e[i], k = t.e[i + 1]; bool show = around < 0 || ((int)(i + 2 + k) >= around - 40 && shown < 14); if (show) { shown++; static const char *nm[] = {"?", "lex", "action", "error", "destroy", "return", "note", "hook", "feed", "life", "trace"}; o << " " << (ty >= 0 && ty < 11 ? nm[ty] : "?") << "("; if (around >= 0 && around >= (int)i && around < (int)(i + 2 + k)) o << ">>> "; if (ty == EV_TRACE && k == 1) o << traceText(t.e[i + 2]); else for (int j = 0; j < k; j++) o << (j ? "," : "") << t.e[i + 2 + j]; o << ")"; } i += 2 + k; n++; }
  if (around >= (int)t.e.size()) o << " <history ends here>"; (void)g; return o.str(); }
// ---- processes ----
int runCmd(const vector<string> &a, const string &cwd, const string &in, const string &outf, int secs) {
  pid_t p = fork(); if (p == 0) { if (!cwd.empty() && chdir(cwd.c_str())) _exit(126); int fd = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY); dup2(fd, 0); fd = open(outf.empty() ? "/dev/null" : outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); struct rlimit rl; rl.rlim_cur = secs; rl.rlim_max = secs + 2; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl); vector<char *> v; for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(0); execvp(v[0], v.data()); _exit(127); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; if (WIFEXITED(st)) return WEXITSTATUS(st); return 1000 + WTERMSIG(st); }
void writeFile(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
string readFile(const string &p) { FILE *f = fopen(p.c_str(), "r"); if (!f) return ""; string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static bool exists(const string &p) { return access(p.c_str(), F_OK) == 0; }
bool debugDirective(const Case &c);
vector<string> yaccArgs(const Case &c) { const Opt &o = c.o; vector<string> a; if (o.B) a.push_back("-B"); if (o.d) a.push_back("-d"); if (o.H) { a.push_back("-H"); a.push_back("hdr.h"); } if (o.r) a.push_back("-r"); if (o.l) a.push_back("-l"); if (o.t && !debugDirective(c)) a.push_back("-t"); if (o.i) a.push_back("-i"); if (o.v) a.push_back("-v"); if (o.g) a.push_back("-g"); if (o.u) a.push_back("-u"); if (o.z) a.push_back("-z"); if (!o.prefix.empty()) { a.push_back("-p"); a.push_back(o.prefix); } if (!o.base.empty()) { a.push_back("-b"); a.push_back(o.base); }     a.push_back(o.viaStdin ? "-" : "g.y"); return a; }
bool buildParser(const Case &c, const string &dir, string &so, string &cls, string &err) {
  mkdir(dir.c_str(), 0755); so = dir + "/p.so"; gToolRuns++;
  const Opt &o = c.o; vector<string> src;
  if (c.g.dialect == 0) {
    string y = emitYacc(c); writeFile(dir + "/g.y", y); string base = o.base.empty() ? "y" : o.base;
    vector<string> a{gTool[o.flavor]}; for (auto &x : yaccArgs(c)) a.push_back(x);
    for (auto f : {".tab.c", ".code.c", ".tab.h", ".tab.i"}) unlink((dir + "/" + base + f).c_str());
    int st = runCmd(a, dir, o.viaStdin ? dir + "/g.y" : "", dir + "/tool.out", 20); int want = 0; if (yaccExpect(c) == 4) { Auto A; buildAuto(c, A, 1 << 20); want = A.sr + A.rr > 0; }
    if (st != want) { cls = "tool-fail"; err = "byacc ended with status " + std::to_string(st) + " where " + std::to_string(want) + " was due: " + readFile(dir + "/tool.out").substr(0, 600); return false; }
    src.push_back(base + ".tab.c"); if (o.r) src.push_back(base + ".code.c");
    string hdr = o.d ? base + ".tab.h" : o.H ? "hdr.h" : ""; if (!hdr.empty() || o.i) {
      if (!hdr.empty() && !exists(dir + "/" + hdr)) { cls = "tool-fail"; err = "byacc succeeded without writing the requested header"; return false; }
      string w = "#include \"psim_rt.h\"\n#include \"" + (hdr.empty() ? base + ".tab.i" : hdr) + "\"\n"; if (!hdr.empty()) { w += "const int sim_hcodes[] = { 0, 256,"; for (size_t i = 2; i < c.g.syms.size(); i++) { const Sym &s = c.g.syms[i]; if (!s.term || s.name[0] == '\'' || (s.name[0] == '"' && s.code >= 0)) w += " -1,"; else if (s.name[0] == '"') w += " " + s.name.substr(1, s.name.size() - 2) + ","; else w += " " + s.name + ","; } w += " 0 };\n"; } writeFile(dir + "/w.c", w); src.push_back("w.c"); }
  } else { if (!emitAndRunLemon(c, dir, src, cls, err)) return false; }
  vector<string> cc{"gcc", "-std=gnu89", "-w", "-O0", "-g0", "-pipe", "-shared", "-fPIC", "-I" + gRtDir, "-I.", "-o", "p.so"}; if (!gStrict) { cc.push_back("-fsanitize=bounds-strict"); cc.push_back("-fsanitize-undefined-trap-on-error"); } if (c.g.dialect == 0 && o.t) {} if (c.g.dialect == 1) for (auto &d : lemonDefs(c)) cc.push_back(d); for (auto &s : src) cc.push_back(s);
  unlink(so.c_str()); int st = runCmd(cc, dir, "", dir + "/cc.out", 60); if (st) { cls = "compile-fail"; err = "the generated parser does not compile: " + readFile(dir + "/cc.out").substr(0, 1200); return false; }
  return true; }

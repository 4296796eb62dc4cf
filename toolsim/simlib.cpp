#include "simlib.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
extern "C" { int __sanitizer_get_ownership(const volatile void *); size_t __sanitizer_get_allocated_size(const volatile void *); }
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_odr_violation=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:print_legend=0:max_malloc_fill_size=0"; }
const char *const opName[OP_N] = {"open", "read", "write", "close", "seek", "mkstemp", "fdopen", "unlink", "access", "malloc", "realloc", "instant"};
const char *const fmodeName[F_N] = {"fail", "fail-from-here", "short", "torn", "signal", "kill", "disk-full"};
Shm *S; char *D;
static int me; static const Proc *P; static ProcShm *Q; static bool inTool; static uint64_t edges, nextEdge = ~0ULL, budget_; static const void *lastPc;
static char *arena; static const size_t ARENA = 192u << 20;
struct Rnd { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); } };
static Rnd heapR, nameR;
#define NOSAN __attribute__((no_sanitize("address")))
// ---- ends of a process ----
static void passTurn(bool ending);
[[noreturn]] static void finish(int how, int code) { inTool = false; Q->how = how; Q->code = code; Q->count[OP_EDGE] = edges; if (S->nproc > 1) passTurn(true); _exit(0); }
[[noreturn]] static void bad(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(Q->msg, sizeof Q->msg, f, a); va_end(a); finish(H_BAD, 0); }
// ---- scheduler: one process runs at a time; at every file operation the seed decides who goes on ----
static Rnd schedR() { return Rnd{S->sched}; }
static void passTurn(bool ending) {
  if (ending) S->live[me] = 0; Rnd r = schedR(); int n = r.below(2); S->sched = r.s; int other = 1 - me;
  if (!S->live[0] && !S->live[1]) return;
  int to = ending ? other : S->live[other] ? (n ? me : other) : me;
  S->inter = (S->inter ^ (uint64_t)(to + 1)) * 1099511628211ULL; if (to == me) return;
  S->switches++; sem_post(&S->turn[to]); if (ending) return; while (sem_wait(&S->turn[me]) && errno == EINTR) ; }
// ---- faults ----
static uint32_t pcOf() { return (uint32_t)((uintptr_t)lastPc); }
static void runSignal(int sig);
static void hitFault(const Fault &f) { Q->hit[f.mode]++; if (!Q->faultsHit++) Q->firstSite = pcOf(); }
struct Verdict { int mode = -1, arg = 0; };
static Verdict op(int o) {
  Verdict v; long k = (long)Q->count[o]++; Q->steps++;
  if (S->logSites && S->nsite < (uint32_t)NSITE) { S->site[S->nsite].op = o; S->site[S->nsite].edge = edges; S->site[S->nsite++].pc = pcOf(); }
  for (auto &f : P->faults) if (f.op == o && (f.mode == F_STICKY ? k >= f.at : k == f.at) && f.mode <= F_TORN) { hitFault(f); v.mode = f.mode; v.arg = f.arg; }
  else if (f.op == o && k == f.at && f.mode == F_KILL) { hitFault(f); v.mode = F_KILL; v.arg = f.arg; }
  else if (f.op == o && k == f.at && f.mode == F_SIGNAL) { hitFault(f); runSignal(f.arg); }
  if (v.mode == F_KILL && o != OP_WRITE) finish(H_KILLED, 0);
  if (S->nproc > 1 && o < OP_MALLOC) passTurn(false);
  return v; }
static int errOf(int arg, int dflt) { return arg > 0 && arg < 134 ? arg : dflt; }
static void planEdges() { nextEdge = budget_; for (auto &f : P->faults) if (f.op == OP_EDGE && (uint64_t)f.at > edges && (uint64_t)f.at < nextEdge) nextEdge = (uint64_t)f.at; }
extern "C" NOSAN void __sanitizer_cov_trace_pc(void) {
  if (!inTool) return; lastPc = __builtin_return_address(0); S->edges[(uint32_t)((uintptr_t)lastPc * 2654435761u) >> 16] = 1;
  if (++edges < nextEdge) return;
  if (edges >= budget_) finish(H_BUDGET, 0);
  uint64_t at = edges; planEdges();
  for (auto &f : P->faults) if (f.op == OP_EDGE && (uint64_t)f.at == at) { hitFault(f); if (f.mode == F_KILL) finish(H_KILLED, 0); if (f.mode == F_SIGNAL) runSignal(f.arg); } }
// ---- file system ----
static string norm(const char *p) { string s; const char *q = p; while (q[0] == '.' && q[1] == '/') q += 2; for (; *q; q++) { if (*q == '/' && !s.empty() && s.back() == '/') continue; s += *q; if (s.size() >= 3 && s.compare(s.size() - 3, 3, "/./") == 0) s.resize(s.size() - 2); } return s.empty() ? "." : s; }
int fsFind(const string &path) { for (int i = 0; i < MAXI; i++) if (S->dent[i].path[0] && path == S->dent[i].path) return i; return -1; }
static int newInode(int mode) { for (int i = 0; i < MAXI; i++) if (!S->ino[i].used) { S->ino[i].used = 1; S->ino[i].mode = mode; S->ino[i].nlink = 1; S->ino[i].size = 0; return i; } return -1; }
static int newDent(const string &p, int ino, bool dir) { if (p.size() >= sizeof S->dent[0].path) return -1; for (int i = 0; i < MAXI; i++) if (!S->dent[i].path[0]) { strcpy(S->dent[i].path, p.c_str()); S->dent[i].ino = ino; S->dent[i].dir = dir; S->dent[i].ro = 0; return i; } return -1; }
void fsReset() { memset(S->ino, 0, sizeof S->ino); memset(S->dent, 0, sizeof S->dent); S->diskUsed = 0; S->quota = -1; fsDir("."); fsDir("/tmp"); fsDir("/var/tmp"); fsDir("out"); fsDir("/usr/bin"); }
void fsDir(const string &p, bool ro) { int d = newDent(p, -1, true); if (d >= 0) S->dent[d].ro = ro; }
void fsPut(const string &p, const string &t, bool ro) { int d = fsFind(p), i; if (d < 0) { i = newInode(0644); d = newDent(p, i, false); } else i = S->dent[d].ino; uint32_t n = (uint32_t)std::min(t.size(), (size_t)MAXF); memcpy(D + (size_t)i * MAXF, t.data(), n); S->diskUsed += (long)n - (long)S->ino[i].size; S->ino[i].size = n; S->dent[d].ro = ro; }
bool fsGet(const string &p, string &t) { int d = fsFind(p); if (d < 0 || S->dent[d].dir) return false; int i = S->dent[d].ino; t.assign(D + (size_t)i * MAXF, S->ino[i].size); return true; }
vector<string> fsList() { vector<string> r; for (int i = 0; i < MAXI; i++) if (S->dent[i].path[0] && !S->dent[i].dir) r.push_back(S->dent[i].path); std::sort(r.begin(), r.end()); return r; }
static string dirOf(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
// ---- open files ----
struct OpenF { int ino; uint64_t pos; bool rd, wr, app; int special; string path; bool noted = false; };   // special 1 stdin 2 stdout 3 stderr
static vector<OpenF *> fds; static vector<std::pair<FILE *, OpenF *>> streams; static int umask_ = 022;
static void noteWrite(OpenF *f) { if (f->noted) return; f->noted = true; size_t n = strlen(Q->wrote); if (n + f->path.size() + 2 < sizeof Q->wrote) { strcpy(Q->wrote + n, f->path.c_str()); strcat(Q->wrote, "\n"); } }
static ssize_t doWrite(OpenF *f, const char *b, size_t n) {
  if (f->special == 2) { size_t room = sizeof Q->out - Q->outLen, k = std::min(n, room); memcpy(Q->out + Q->outLen, b, k); Q->outLen += k; return (ssize_t)n; }
  Inode &I = S->ino[f->ino]; if (f->app) f->pos = I.size; noteWrite(f);
  size_t end = f->pos + n; if (end > (size_t)MAXF) { errno = EFBIG; return -1; }
  if (end > I.size && S->quota >= 0 && S->diskUsed + (long)(end - I.size) > S->quota) { long room = S->quota - S->diskUsed; if (room < 0) room = 0; size_t can = I.size > f->pos ? I.size - f->pos : 0; can += (size_t)room; Q->hit[F_QUOTA]++; if (!Q->faultsHit++) Q->firstSite = pcOf(); if (!can) { errno = ENOSPC; return -1; } n = std::min(n, can); end = f->pos + n; }
  char *d = D + (size_t)f->ino * MAXF; if (f->pos > I.size) { memset(d + I.size, 0, f->pos - I.size); }
  memcpy(d + f->pos, b, n); if (end > I.size) { S->diskUsed += (long)(end - I.size); I.size = (uint32_t)end; } f->pos = end; return (ssize_t)n; }
static ssize_t ckWrite(void *c, const char *b, size_t n) {
  OpenF *f = (OpenF *)c; bool was = inTool; inTool = false; size_t done = 0;
  if (f->special == 3) { size_t k = std::min(n, sizeof Q->err - 1 - Q->errLen); memcpy(Q->err + Q->errLen, b, k); Q->errLen += k; inTool = was; return (ssize_t)n; }
  // like the C library on a real descriptor: write(2) again until everything is out or a write fails
  while (done < n) {
    Verdict v = op(OP_WRITE); ssize_t r; size_t want = n - done;
    if (v.mode == F_FAIL || v.mode == F_STICKY) { errno = errOf(v.arg, ENOSPC); if (f->special == 2) Q->outBroken = 1; inTool = was; return (ssize_t)done; }
    if (v.mode == F_SHORT && want > 1) want = 1 + (size_t)v.arg % (want - 1);
    if (v.mode == F_TORN || v.mode == F_KILL) { want = (size_t)v.arg % (want + 1); if (want) doWrite(f, b + done, want); if (v.mode == F_KILL) finish(H_KILLED, 0); errno = EIO; inTool = was; return (ssize_t)(done + want); }
    r = doWrite(f, b + done, want); if (r < 0) { inTool = was; return (ssize_t)done; } done += (size_t)r; }
  inTool = was; return (ssize_t)n; }
static ssize_t ckRead(void *c, char *b, size_t n) {
  OpenF *f = (OpenF *)c; bool was = inTool; inTool = false; Verdict v = op(OP_READ);
  if (v.mode == F_FAIL || v.mode == F_STICKY || v.mode == F_TORN) { errno = errOf(v.arg, EIO); inTool = was; return -1; }
  if (P->readMax && n > (size_t)P->readMax) n = 1 + nameR.below(P->readMax); if (v.mode == F_SHORT && n > 1) n = 1 + (size_t)v.arg % (n - 1);
  const char *d; size_t size; if (f->special == 1) { d = P->stdinText.data(); size = P->stdinText.size(); } else { if (!f->rd) { errno = EBADF; inTool = was; return -1; } d = D + (size_t)f->ino * MAXF; size = S->ino[f->ino].size; }
  size_t k = f->pos >= size ? 0 : std::min(n, size - (size_t)f->pos); memcpy(b, d + f->pos, k); f->pos += k; inTool = was; return (ssize_t)k; }
static int ckSeek(void *c, off64_t *o, int w) {
  OpenF *f = (OpenF *)c; bool was = inTool; inTool = false; Verdict v = op(OP_SEEK); if (v.mode >= 0) { errno = errOf(v.arg, EIO); inTool = was; return -1; }
  if (f->special) { errno = ESPIPE; inTool = was; return -1; } int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)f->pos : (int64_t)S->ino[f->ino].size; base += *o; if (base < 0) { errno = EINVAL; inTool = was; return -1; } f->pos = (uint64_t)base; *o = base; inTool = was; return 0; }
static void dropInode(int i) { if (--S->ino[i].nlink <= 0) { S->diskUsed -= S->ino[i].size; S->ino[i].used = 0; S->ino[i].size = 0; } }
static int ckClose(void *c) { OpenF *f = (OpenF *)c; bool was = inTool; inTool = false; Verdict v = op(OP_CLOSE); if (!f->special) dropInode(f->ino); inTool = was; if (v.mode >= 0 && v.mode != F_SHORT) { errno = errOf(v.arg, EIO); return -1; } return 0; }
static FILE *mkStream(OpenF *f, const char *mode) { cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose}; FILE *fp = fopencookie(f, mode, io); if (!fp) return 0; if (f->special == 3) setvbuf(fp, 0, _IONBF, 0); else setvbuf(fp, (char *)malloc((size_t)P->bufSize), f->special == 2 && P->bufSize < 256 ? _IOLBF : _IOFBF, (size_t)P->bufSize); streams.push_back({fp, f}); return fp; }
static bool dirWritable(const string &p) { int d = fsFind(dirOf(p)); return d >= 0 && S->dent[d].dir && !S->dent[d].ro; }
static int openPath(const string &p, bool rd, bool wr, bool trunc, bool create, bool excl, bool app, int mode, OpenF *&out) {
  int d = fsFind(p); if (d >= 0 && S->dent[d].dir) { errno = wr ? EISDIR : EISDIR; return -1; }
  if (d >= 0 && excl) { errno = EEXIST; return -1; } if (d >= 0 && wr && S->dent[d].ro) { errno = EACCES; return -1; }
  if (d < 0) { if (!create) { errno = ENOENT; return -1; } int pd = fsFind(dirOf(p)); if (pd < 0 || !S->dent[pd].dir) { errno = ENOENT; return -1; } if (!dirWritable(p)) { errno = EACCES; return -1; } int i = newInode(mode & ~umask_); if (i < 0 || (d = newDent(p, i, false)) < 0) { errno = ENAMETOOLONG; return -1; } }
  int i = S->dent[d].ino; S->ino[i].nlink++; out = new OpenF{i, 0, rd, wr, app, 0, p}; if (trunc) { S->diskUsed -= S->ino[i].size; S->ino[i].size = 0; } if (wr) noteWrite(out); return 0; }
extern "C" {
FILE *ts_stdin, *ts_stdout, *ts_stderr;
FILE *ts_fopen(const char *path, const char *m) {
  bool was = inTool; inTool = false; Verdict v = op(OP_OPEN); FILE *r = 0; bool plus = strchr(m, '+'), w = m[0] != 'r' || plus;
  if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, w ? EACCES : EIO);
  else { OpenF *f = 0; if (!openPath(norm(path), m[0] == 'r' || plus, w, m[0] == 'w', m[0] != 'r', false, m[0] == 'a', 0666, f)) r = mkStream(f, m); }
  inTool = was; return r; }
int ts_mkstemp(char *t) { bool was = inTool; inTool = false; Verdict v = op(OP_MKSTEMP); int fd = -1; size_t n = strlen(t);
  if (n < 6 || strcmp(t + n - 6, "XXXXXX")) errno = EINVAL; else if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, EACCES); else for (int k = 0; k < 100 && fd < 0; k++) { for (int i = 0; i < 6; i++) t[n - 6 + i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[nameR.below(62)]; OpenF *f = 0; if (!openPath(norm(t), true, true, false, true, true, false, 0600, f)) { fds.push_back(f); fd = 100 + (int)fds.size() - 1; } else if (errno != EEXIST) break; }
  inTool = was; return fd; }
FILE *ts_fdopen(int fd, const char *m) { bool was = inTool; inTool = false; Verdict v = op(OP_FDOPEN); FILE *r = 0; if (fd < 100 || fd - 100 >= (int)fds.size() || !fds[fd - 100]) errno = EBADF; else if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, ENOMEM); else { r = mkStream(fds[fd - 100], m); fds[fd - 100] = 0; } inTool = was; return r; }
int ts_close(int fd) { bool was = inTool; inTool = false; int r = -1; if (fd < 100 || fd - 100 >= (int)fds.size() || !fds[fd - 100]) errno = EBADF; else { r = ckClose(fds[fd - 100]); fds[fd - 100] = 0; } inTool = was; return r; }
int ts_fclose(FILE *fp) { bool was = inTool; inTool = false; size_t i = 0; while (i < streams.size() && streams[i].first != fp) i++; if (i == streams.size()) bad("fclose of a stream that is not open"); streams.erase(streams.begin() + (long)i); int r = fclose(fp); inTool = was; return r; }
int ts_unlink(const char *p) { bool was = inTool; inTool = false; Verdict v = op(OP_UNLINK); int r = -1; int d = fsFind(norm(p)); if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, EACCES); else if (d < 0 || S->dent[d].dir) errno = ENOENT; else { int i = S->dent[d].ino; S->dent[d].path[0] = 0; dropInode(i); r = 0; } inTool = was; return r; }
int ts_remove(const char *p) { return ts_unlink(p); }
int ts_rename(const char *a, const char *b) { bool was = inTool; inTool = false; Verdict v = op(OP_UNLINK); int r = -1; int d = fsFind(norm(a)); if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, EACCES); else if (d < 0) errno = ENOENT; else { int e = fsFind(norm(b)); if (e >= 0 && e != d) { dropInode(S->dent[e].ino); S->dent[e].path[0] = 0; } if (norm(b).size() < sizeof S->dent[d].path) strcpy(S->dent[d].path, norm(b).c_str()); OpenF t{0, 0, false, true, false, 0, norm(b)}; noteWrite(&t); r = 0; } inTool = was; return r; }
int ts_access(const char *p, int m) { bool was = inTool; inTool = false; Verdict v = op(OP_ACCESS); int r = -1, d = fsFind(norm(p)); if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, EACCES); else if (d < 0) errno = ENOENT; else if ((m & W_OK) && S->dent[d].ro) errno = EACCES; else r = 0; inTool = was; return r; }
int ts_chmod(const char *p, mode_t m) { bool was = inTool; inTool = false; int d = fsFind(norm(p)), r = -1; if (d < 0 || S->dent[d].dir) errno = ENOENT; else { S->ino[S->dent[d].ino].mode = (int)m; r = 0; } inTool = was; return r; }
mode_t ts_umask(mode_t m) { int o = umask_; umask_ = (int)m & 0777; return (mode_t)o; }
char *ts_getenv(const char *n) { static char a[] = "/var/tmp", b[] = "/tmp", c[] = "/nowhere", d[] = "/usr/bin:/bin", e[] = "out"; if (!strcmp(n, "PATH")) return P->tmpMode == 5 ? 0 : d; if (!strcmp(n, "TMPDIR") || !strcmp(n, "TEMP")) switch (P->tmpMode) { case 1: return a; case 2: return !strcmp(n, "TEMP") ? b : 0; case 3: return c; case 4: return e; } return 0; }
// what the tools do not use today, so that a rewrite that does stays inside the simulation
static void fillStat(int i, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = (i < 0 ? S_IFCHR : S_IFREG) | (i < 0 ? 0600u : (unsigned)S->ino[i].mode); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = (ino_t)(i + 2); if (i >= 0) st->st_size = S->ino[i].size; }
int ts_stat(const char *p, struct stat *st) { int d = fsFind(norm(p)); if (d < 0) { errno = ENOENT; return -1; } if (S->dent[d].dir) { fillStat(-1, st); st->st_mode = S_IFDIR | 0755; } else fillStat(S->dent[d].ino, st); return 0; }
int ts_lstat(const char *p, struct stat *st) { return ts_stat(p, st); }
static OpenF *fdOf(int fd) { if (fd >= 0 && fd < 3) { for (auto &s : streams) if (s.second->special == fd + 1) return s.second; } if (fd >= 300 && fd - 300 < (int)streams.size()) return streams[(size_t)(fd - 300)].second; if (fd >= 100 && fd - 100 < (int)fds.size()) return fds[(size_t)(fd - 100)]; return 0; }
int ts_fileno(FILE *f) { for (size_t i = 0; i < streams.size(); i++) if (streams[i].first == f) return streams[i].second->special ? streams[i].second->special - 1 : 300 + (int)i; errno = EBADF; return -1; }
int ts_isatty(int) { errno = ENOTTY; return 0; }
int ts_fstat(int fd, struct stat *st) { OpenF *f = fdOf(fd); if (!f) { errno = EBADF; return -1; } fillStat(f->special ? -1 : f->ino, st); return 0; }
int ts_fsync(int fd) { OpenF *f = fdOf(fd); if (!f) { errno = EBADF; return -1; } bool was = inTool; inTool = false; Verdict v = op(OP_CLOSE); inTool = was; if (v.mode >= 0 && v.mode != F_SHORT) { errno = errOf(v.arg, EIO); return -1; } return 0; }
int ts_open(const char *path, int fl, ...) { va_list a; va_start(a, fl); int mode = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); bool was = inTool; inTool = false; Verdict v = op(OP_OPEN); int fd = -1; OpenF *f = 0; int acc = fl & O_ACCMODE;
  if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, acc != O_RDONLY ? EACCES : EIO); else if (!openPath(norm(path), acc != O_WRONLY, acc != O_RDONLY, fl & O_TRUNC, fl & O_CREAT, fl & O_EXCL, fl & O_APPEND, mode, f)) { fds.push_back(f); fd = 100 + (int)fds.size() - 1; } inTool = was; return fd; }
ssize_t ts_read(int fd, void *b, size_t n) { OpenF *f = fdOf(fd); if (!f) { errno = EBADF; return -1; } return ckRead(f, (char *)b, n); }
ssize_t ts_write(int fd, const void *b, size_t n) { OpenF *f = fdOf(fd); if (!f) { errno = EBADF; return -1; } return ckWrite(f, (const char *)b, n); }
off_t ts_lseek(int fd, off_t o, int w) { OpenF *f = fdOf(fd); off64_t q = o; if (!f) { errno = EBADF; return -1; } return ckSeek(f, &q, w) ? -1 : q; }
FILE *ts_tmpfile(void) { bool was = inTool; inTool = false; Verdict v = op(OP_MKSTEMP); FILE *r = 0; if (v.mode >= 0 && v.mode != F_SHORT) errno = errOf(v.arg, EACCES); else { int i = newInode(0600); if (i >= 0) r = mkStream(new OpenF{i, 0, true, true, false, 0, "(nameless)", true}, "w+"); } inTool = was; return r; }
void *ts_malloc(size_t); void *ts_realloc(void *, size_t);
void *ts_reallocarray(void *p, size_t a, size_t b) { if (b && a > ((size_t)1 << 40) / b) { errno = ENOMEM; return 0; } return ts_realloc(p, a * b); }
// clock and identity: whatever the seed says
static int64_t clock_() { static int64_t t = 0; if (!t) t = (int64_t)(P->seed % 4000000000ULL) * 1000000000; t += 1 + nameR.below(50000000); return t; }
time_t ts_time(time_t *o) { time_t t = (time_t)(clock_() / 1000000000); if (o) *o = t; return t; }
clock_t ts_clock(void) { return (clock_t)(clock_() / 1000 % 100000000); }
int ts_gettimeofday(struct timeval *v, void *) { int64_t t = clock_(); v->tv_sec = t / 1000000000; v->tv_usec = t % 1000000000 / 1000; return 0; }
int ts_clock_gettime(int, struct timespec *v) { int64_t t = clock_(); v->tv_sec = t / 1000000000; v->tv_nsec = t % 1000000000; return 0; }
pid_t ts_getpid(void) { return 2 + (pid_t)(P->seed % 30000); }
// ---- ends ----
static vector<void (*)(void)> exits;
int ts_atexit(void (*f)(void)) { exits.push_back(f); return 0; }
[[noreturn]] void ts__exit(int k) { finish(H_EXIT, k & 255); }
[[noreturn]] void ts_exit(int k) { while (!exits.empty()) { auto f = exits.back(); exits.pop_back(); f(); }
  inTool = false; for (auto &s : streams) if (s.second->wr || s.second->special == 2) fflush(s.first); Q->openEver = (int)streams.size(); finish(H_EXIT, k & 255); }
[[noreturn]] void ts_abort(void) { bad("abort() called"); }
[[noreturn]] void ts_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); bad("assertion failed: %s (%s:%u %s)", e, b ? b + 1 : f, l, fn); }
typedef void (*sigh)(int); static sigh handlers[65];
sigh ts_signal(int s, sigh h) { if (s < 0 || s > 64) { errno = EINVAL; return SIG_ERR; } sigh o = handlers[s]; handlers[s] = h; return o; }
int ts_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(ts_stdout, f, a); va_end(a); return r; }
int ts_vprintf(const char *f, va_list a) { return vfprintf(ts_stdout, f, a); }
int ts_puts(const char *s) { if (fputs(s, ts_stdout) < 0) return EOF; return fputc('\n', ts_stdout); }
int ts_putchar(int c) { return fputc(c, ts_stdout); }
void ts_perror(const char *s) { fprintf(ts_stderr, "%s: %s\n", s, strerror(errno)); }
// ---- heap: every block fenced off, placed where the seed says ----
static std::unordered_map<char *, size_t> *blocks; static char *lo, *hi; static vector<std::pair<char *, size_t>> freed;
// only the neighbourhood of what is in use is fenced off: shadow memory that is never touched costs nothing at fork
static char *fenceLo, *fenceHi; static const size_t FENCE = 1 << 18;
static void fence() { if (lo + FENCE / 2 > fenceLo && fenceLo < arena + ARENA) { char *e = std::min(lo + FENCE, arena + ARENA); __asan_poison_memory_region(fenceLo, (size_t)(e - fenceLo)); fenceLo = e; } if (hi - FENCE / 2 < fenceHi && fenceHi > arena) { char *b = std::max(hi - FENCE, arena); __asan_poison_memory_region(b, (size_t)(fenceHi - b)); fenceHi = b; } }
static char *place(size_t n) { size_t need = ((n + 15) & ~(size_t)15) + 32; if (need > ARENA / 4) return 0; char *p = 0;
  if (P->heapMode & 4) for (size_t i = freed.size(); i-- > 0 && i + 8 > freed.size();) if (freed[i].second >= need - 32 && freed[i].second <= need + 64) { p = freed[i].first; freed.erase(freed.begin() + (long)i); return p; }
  size_t extra = (P->heapMode & 8) ? (size_t)heapR.below(40) * 16 : 0; bool down = (P->heapMode & 3) == 1 || ((P->heapMode & 3) == 2 && heapR.below(2)); if (lo + need + extra >= hi) return 0;
  if (down) { hi -= need + extra; p = hi; } else { p = lo; lo += need + extra; } fence(); return p + 16; }
static char *get(size_t n) { char *p = place(n); if (!p) { errno = ENOMEM; return 0; } __asan_unpoison_memory_region(p, n); if (P->fill >= 0) memset(p, P->fill, n); else for (size_t i = 0; i < n; i++) p[i] = (char)heapR.next(); (*blocks)[p] = n; return p; }
static void drop(char *p, const char *what) { auto f = blocks->find(p); if (f == blocks->end()) bad("%s of a pointer that is not a live heap block", what); size_t n = f->second; blocks->erase(f); __asan_poison_memory_region(p, n); freed.push_back({p, (n + 15) & ~(size_t)15}); }
void *ts_malloc(size_t n) { bool was = inTool; inTool = false; Verdict v = op(OP_MALLOC); void *r = 0; if (v.mode >= 0 && v.mode != F_SHORT) errno = ENOMEM; else r = get(n); inTool = was; return r; }
void *ts_calloc(size_t a, size_t b) { if (b && a > ((size_t)1 << 40) / b) { errno = ENOMEM; return 0; } void *r = ts_malloc(a * b); if (r) memset(r, 0, a * b); return r; }
void ts_free(void *p) { bool was = inTool; inTool = false; if (p) { if (!blocks->count((char *)p) && __sanitizer_get_ownership(p)) free(p); else drop((char *)p, "free"); } inTool = was; }
void *ts_realloc(void *p, size_t n) { bool was = inTool; inTool = false; Verdict v = op(OP_REALLOC); char *r = 0; if (v.mode >= 0 && v.mode != F_SHORT) errno = ENOMEM;
  else if (!p) r = get(n); else if (!blocks->count((char *)p) && __sanitizer_get_ownership(p)) { r = get(n); if (r) { memcpy(r, p, std::min(__sanitizer_get_allocated_size(p), n)); free(p); } } // the C library allocated it itself
  else { auto f = blocks->find((char *)p); if (f == blocks->end()) bad("realloc of a pointer that is not a live heap block"); size_t o = f->second; if (n <= o && (P->heapMode & 16)) { __asan_poison_memory_region((char *)p + n, 0); char *c = (char *)p; f->second = n; __asan_poison_memory_region(c, o); __asan_unpoison_memory_region(c, n); r = c; } else { r = get(n); if (r) { memcpy(r, p, std::min(o, n)); drop((char *)p, "realloc"); } } }
  inTool = was; return r; }
char *ts_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)ts_malloc(n); if (r) memcpy(r, s, n); return r; }
char *ts_strndup(const char *s, size_t n) { n = strnlen(s, n); char *r = (char *)ts_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int ts_sigaction(int sig, const struct sigaction *a, struct sigaction *o) { if (sig < 1 || sig > 64) { errno = EINVAL; return -1; } if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[sig]; } if (a) handlers[sig] = a->sa_handler; return 0; }
}
static void runSignal(int sig);
extern "C" int ts_raise(int sig) { if (sig < 1 || sig > 64) return -1; bool was = inTool; inTool = false; runSignal(sig); inTool = was; return 0; }
static void runSignal(int sig) { sigh h = handlers[sig]; if (h == SIG_IGN) return; Q->sigRun++; if (h == SIG_DFL) { finish(H_SIGNAL, sig); } bool was = inTool; inTool = true; h(sig); inTool = was; }
// ---- processes ----
void simShare() {
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  D = (char *)mmap(0, (size_t)MAXI * MAXF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena = (char *)mmap((void *)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || D == MAP_FAILED || arena == MAP_FAILED) { perror("mmap"); exit(3); } blocks = new std::unordered_map<char *, size_t>; blocks->reserve(1 << 16); }
// what an earlier call left on the stack, and where the stack is, is the seed's choice too
static NOSAN __attribute__((noinline)) void dirty(int fill) { volatile char b[40000]; Rnd r = nameR; for (size_t i = 0; i < sizeof b; i++) b[i] = fill >= 0 ? (char)fill : (char)(i % 8 ? 7 * i : r.next()); }
static NOSAN __attribute__((noinline)) int onDirtyStack(const Proc &p, int ac, char **av, size_t shift) { volatile char *pad = (volatile char *)__builtin_alloca(shift + 16); pad[0] = 0; dirty(p.fill); inTool = true; return toolMain[p.tool](ac, av); }
static void childMain(int i, const Proc &p, uint64_t budget, int errFd) {
  me = i; P = &p; Q = &S->proc[i]; budget_ = budget; dup2(errFd, 2); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1);
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 100; rl.rlim_max = 102; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 8 << 20; 
  heapR.s = p.seed * 77 + 1; nameR.s = p.seed * 131 + 7; size_t skip = (p.heapMode & 8) ? (size_t)heapR.below(1 << 16) * 16 : 0; lo = arena + 4096 + skip; hi = arena + ARENA - 4096; fenceLo = lo - 4096; fenceHi = arena + ARENA; fence();
  for (int s = 0; s < 65; s++) handlers[s] = SIG_DFL; for (int s : {SIGINT, SIGHUP, SIGTERM}) if (p.ignoreSig & (1 << s)) handlers[s] = SIG_IGN;
  ts_stdin = mkStream(new OpenF{-1, 0, true, false, false, 1, ""}, "r"); ts_stdout = mkStream(new OpenF{-1, 0, false, true, false, 2, ""}, "w"); ts_stderr = mkStream(new OpenF{-1, 0, false, true, false, 3, ""}, "w");
  if (S->nproc > 1) while (sem_wait(&S->turn[i]) && errno == EINTR) ;
  static const char *names[3] = {"yacc", "yacc", "lemon"}; vector<char *> av; vector<string> keep; keep.push_back(names[p.tool]); for (auto &a : p.args) keep.push_back(a); for (auto &a : keep) av.push_back(strdup(a.c_str())); int ac = (int)av.size(); av.push_back(0);
  planEdges(); ts_exit(onDirtyStack(p, ac, av.data(), p.heapMode & 8 ? (size_t)heapR.below(256) * 16 : 0)); }
bool simRun(const vector<Proc> &p, uint64_t sched, uint64_t budget, bool logSites, string report[2]) {
  S->nproc = (int)p.size(); S->sched = sched; S->inter = 1469598103934665603ULL; S->switches = 0; S->logSites = logSites; if (logSites) S->nsite = 0; S->quota = -1;
  pid_t pid[2]; static int efd[2] = {-1, -1};
  for (auto &q : p) for (auto &f : q.faults) if (f.mode == F_QUOTA) S->quota = f.at;
  for (size_t i = 0; i < p.size(); i++) { ProcShm &q = S->proc[i]; q.how = H_RUNNING; q.code = q.sigRun = q.faultsHit = q.outBroken = q.openEver = 0; memset(q.count, 0, sizeof q.count); memset(q.hit, 0, sizeof q.hit); q.firstSite = 0; q.steps = 0; q.outLen = q.errLen = 0; q.msg[0] = q.wrote[0] = 0; S->live[i] = 1; sem_init(&S->turn[i], 1, 0); if (efd[i] < 0) efd[i] = memfd_create("err", 0); if (ftruncate(efd[i], 0)) return false; lseek(efd[i], 0, SEEK_SET); }
  if (p.size() > 1) { Rnd r{S->sched}; int k = r.below(2); S->sched = r.s; sem_post(&S->turn[k]); }
  for (size_t i = 0; i < p.size(); i++) { pid[i] = fork(); if (pid[i] < 0) return false; if (pid[i] == 0) { childMain((int)i, p[i], budget, efd[i]); _exit(0); } }
  size_t left = p.size(); bool gone[2] = {false, false};
  while (left) { int st; pid_t w = waitpid(-1, &st, 0); if (w < 0) { if (errno == EINTR) continue; return false; } for (size_t i = 0; i < p.size(); i++) if (w == pid[i] && !gone[i]) { gone[i] = true; left--; ProcShm &q = S->proc[i]; if (q.how == H_RUNNING || (WIFEXITED(st) ? WEXITSTATUS(st) != 0 : true)) { q.how = H_CRASH; q.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); if (p.size() > 1) { S->live[i] = 0; if (S->live[1 - i]) sem_post(&S->turn[1 - i]); } }
        off_t n = lseek(efd[i], 0, SEEK_END); report[i].assign((size_t)std::min<off_t>(n, 6000), 0); if (n > 0) { lseek(efd[i], 0, SEEK_SET); ssize_t k = read(efd[i], &report[i][0], report[i].size()); report[i].resize(k > 0 ? (size_t)k : 0); } } }
  return true; }

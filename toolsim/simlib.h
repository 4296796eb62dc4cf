// toolsim: the operating system as one tool process sees it, simulated. Shared memory holds everything that outlives a process.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <semaphore.h>
using std::string; using std::vector;

enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_MKSTEMP, OP_FDOPEN, OP_UNLINK, OP_ACCESS, OP_MALLOC, OP_REALLOC, OP_EDGE, OP_N };
extern const char *const opName[OP_N];
enum FMode { F_FAIL, F_STICKY, F_SHORT, F_TORN, F_SIGNAL, F_KILL, F_QUOTA, F_N };   // what happens at the chosen operation
extern const char *const fmodeName[F_N];
struct Fault { int op = 0; long at = 0; int mode = 0; int arg = 0; };
// how one process runs: everything the world decides for it
struct Proc {
  int tool = 0;                    // 0 byacc with backtracking, 1 byacc without, 2 lemon
  vector<string> args; bool useStdin = false; string stdinText;
  int bufSize = 4096; int readMax = 0;        // stdio buffer; largest piece a read returns (0: all that was asked for)
  int heapMode = 0, fill = 0xA5; uint64_t seed = 1; int ignoreSig = 0, tmpMode = 0;
  vector<Fault> faults;
};
enum How { H_RUNNING, H_EXIT, H_SIGNAL, H_KILLED, H_BUDGET, H_BAD, H_CRASH };
const int MAXI = 160, MAXF = 4 << 20, NSITE = 400000;
struct Inode { int used, mode, nlink; uint32_t size; };
struct Dent { char path[220]; int ino, dir, ro; };
struct ProcShm {
  int how, code, sigRun; uint64_t count[OP_N], hit[F_N]; int faultsHit; uint32_t firstSite; uint64_t steps;
  uint32_t outLen, errLen; int outBroken; char out[1 << 20], err[1 << 16], msg[600]; int openEver; char wrote[4096]; };
struct Site { uint32_t op, pc; uint64_t edge; };
struct Shm {
  Inode ino[MAXI]; Dent dent[MAXI]; ProcShm proc[2]; sem_t turn[2]; int live[2]; int nproc; uint64_t sched, inter; uint32_t switches;
  long diskUsed, quota; uint32_t nsite; int logSites; uint8_t edges[65536]; Site site[NSITE]; };
extern Shm *S; extern char *D;                                   // D: file contents, MAXF bytes per inode
void simShare();                                                 // once per worker
void fsReset(); void fsPut(const string &path, const string &text, bool ro = false); void fsDir(const string &path, bool ro = false);
bool fsGet(const string &path, string &text); vector<string> fsList(); int fsFind(const string &path);
// runs the processes concurrently under the seeded scheduler (fewer than two: just runs it); false: the harness itself failed
bool simRun(const vector<Proc> &p, uint64_t sched, uint64_t budget, bool logSites, string report[2]);
extern int (*toolMain[3])(int, char **);

#pragma once
#include "psim.h"
extern string gWork, gTool[3], gRtDir, gTmpl; extern Probes gProbes; extern long gToolRuns, gYields, gHeapFaults, gLex;
struct RunRes { string cls, detail; bool skipped = false; long events = 0; uint64_t hash = 0, inter = 0; int heapFaults = 0; vector<Trace> traces; };
struct LemonApi { void *(*alloc)(void *inst); void (*feed)(void *p, int code, int val, void *inst); void (*release)(void *p); void *(*box)(void); void (*init)(void *p, void *inst); void (*fini)(void *p); int (*fallback)(int); int (*peak)(void *); const int *defs; };
void simYield();
bool loadParser(const string &so, string &err);
bool readCodes(const Case &c, vector<int> &codes);
bool runOnce(const Case &c, const Run &r, const Auto &A, const vector<int> &codes, RunRes &out, bool keep);
bool leakRule(const Case &c, const Run &r, vector<Env> &m, long live, string &d);
bool buildParser(const Case &c, const string &dir, string &so, string &cls, string &err);
int runCmd(const vector<string> &a, const string &cwd, const string &in, const string &outf, int secs);
void writeFile(const string &p, const string &s); string readFile(const string &p);
void bodyLemon(Env &E, LemonApi *api, void *inst);
bool emitAndRunLemon(const Case &c, const string &dir, vector<string> &src, string &cls, string &err);
vector<string> lemonDefs(const Case &c);
vector<string> yaccArgs(const Case &c); vector<string> lemonArgs(const Case &c); int exportDemo(const Case &c, const string &dir);

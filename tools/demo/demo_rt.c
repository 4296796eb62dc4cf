/* Stand-alone environment for one generated parser: plays a fixed script (script.h) and prints everything the parser does. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
struct SimTok { int val, tag, l[4]; };
#include "script.h"
extern const int sim_codes[];
typedef struct { int id, stream, pos, nextVal, actNo, heapNo, pend, eofs, validNo, done; ucontext_t cx; char *stk; } Inst;
static Inst I_[NINST], *cur; static ucontext_t mainCtx; static long steps;
static uint64_t rs; static uint64_t rnext(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static void yieldPoint(void) { Inst *c = cur; if (++steps > 400000) { printf("endless\n"); fflush(stdout); _Exit(9); } if (c && NINST > 1) swapcontext(&c->cx, &mainCtx); }
static void out(const char *k, int n, const int *v) { int i; printf("%d %s", cur->id, k); for (i = 0; i < n; i++) printf(" %d", v[i]); printf("\n"); }
int sim_lex(void *p, struct SimTok *t) { const int *tk; int code, k, v[2]; (void)p;
  if (cur->stream < 0 || cur->pos >= S_len[cur->id][cur->stream]) { cur->eofs++; t->val = -1; t->tag = 0; t->l[0] = t->l[2] = 900 + cur->eofs; t->l[1] = t->l[3] = 0; code = cur->eofs % 3 == 2 ? -5 : 0; }
  else { tk = S_tok[cur->id][cur->stream] + 3 * cur->pos++; k = cur->stream * 1000 + cur->pos; t->l[0] = k; t->l[1] = k * 2; t->l[2] = k + k % 3; t->l[3] = k * 2 + 1; code = tk[0] >= 0 ? sim_codes[tk[0]] : tk[1]; t->val = cur->nextVal++; t->tag = tk[2]; }
  v[0] = code; v[1] = t->val; out("lex", 2, v); yieldPoint(); return code; }
int sim_act(void *p, int rule, int recov, int n, const int *vals, int nl, const int *locs) { int i, r; (void)p; printf("%d act %d %d :", cur->id, rule, recov); for (i = 0; i < n; i++) printf(" %d", vals[i]); if (locs) { printf(" @"); for (i = 0; i < nl; i++) printf(" %d", locs[i]); } printf("\n");
  r = cur->nextVal++; cur->pend = 0; for (i = 0; S_ctl[cur->id][i] >= 0; i += 2) if (S_ctl[cur->id][i] == cur->actNo) { cur->pend = S_ctl[cur->id][i + 1]; break; } cur->actNo++; yieldPoint(); return r; }
int sim_ctl(void *p) { int c = cur->pend; (void)p; cur->pend = 0; return c; }
void *sim_cur(void) { return cur; }
void sim_err(void *p, const char *m, const int *loc) { (void)p; printf("%d error %s\n", cur->id, m); if (loc) out("at", 4, loc); yieldPoint(); }
void sim_dtor(void *p, int what, int val, const int *loc) { int v[2]; (void)p; v[0] = what; v[1] = val; out("destroy", 2, v); if (loc) out("at", 4, loc); yieldPoint(); }
void sim_note(void *p, int what, const char *s) { (void)p; printf("%d note %d %s\n", cur->id, what, s); }
void sim_note_i(void *p, int what, int x) { int v[2]; (void)p; v[0] = what; v[1] = x; out("note", 2, v); }
void sim_hook(void *p, int what, int a, int b) { int v[3]; (void)p; v[0] = what; v[1] = a; v[2] = b; out("hook", 3, v); yieldPoint(); }
static uint64_t mix_(uint64_t a, uint64_t b) { uint64_t sv = rs, r; rs = a * 0x9e3779b97f4a7c15ULL + b + 0x1234567; rnext(); r = rnext(); rs = sv; return r; }
int sim_valid(void *p) { (void)p; cur->validNo++; return (mix_((uint64_t)S_dyn[cur->id] + 5, (uint64_t)cur->validNo) >> 7 & 3) != 0; }
static int heapOk(void) { int i, k; if (!cur) return 1; k = cur->heapNo++; for (i = 0; S_fail[cur->id][i] >= 0; i++) if (S_fail[cur->id][i] == k) return 0; return 1; }
static long live;
void *sim_malloc(size_t n) { void *r = heapOk() ? malloc(n) : 0; if (r) { memset(r, 0xA5, n); live++; } yieldPoint(); return r; }
void *sim_calloc(size_t a, size_t b) { void *r = heapOk() ? calloc(a, b) : 0; if (r) live++; yieldPoint(); return r; }
void *sim_realloc(void *p, size_t n) { void *r = 0; if (heapOk()) { if (!p) live++; r = realloc(p, n); } yieldPoint(); return r; }
void sim_free(void *p) { if (p) live--; free(p); }
#if DIALECT == 0
extern int sim_run(void *); extern int sim_nerrs(void);
static void body(Inst *I) { for (I->stream = 0; I->stream < S_n[I->id]; I->stream++) { int v[2]; I->pos = 0; v[0] = sim_run(I); v[1] = sim_nerrs(); out("return", 2, v); yieldPoint(); } }
#else
#include "lemon_body.h"
#endif
static void entry(unsigned lo, unsigned hi) { Inst *I = (Inst *)(((uintptr_t)hi << 32) | lo); body(I); I->done = 1; if (NINST > 1) swapcontext(&I->cx, &mainCtx); }
int main(void) { int i, k, n, li = 0; rs = SCHED;
  setvbuf(stdout, 0, _IOLBF, 0);
  for (i = 0; i < NINST; i++) { I_[i].id = i; I_[i].stream = -1; I_[i].nextVal = 1; }
  if (NINST == 1) { cur = &I_[0]; entry((unsigned)(uintptr_t)cur, (unsigned)((uintptr_t)cur >> 32)); cur = 0; printf("end %ld\n", live); return 0; }
  for (i = 0; i < NINST; i++) { uintptr_t p = (uintptr_t)&I_[i]; getcontext(&I_[i].cx); I_[i].stk = malloc(262144); I_[i].cx.uc_stack.ss_sp = I_[i].stk; I_[i].cx.uc_stack.ss_size = 262144; I_[i].cx.uc_link = 0; makecontext(&I_[i].cx, (void (*)())entry, 2, (unsigned)p, (unsigned)(p >> 32)); }
  for (;;) { int lv[NINST]; n = 0; for (i = 0; i < NINST; i++) if (!I_[i].done) lv[n++] = i; if (!n) break;
    if (S_sched[li] >= 0) { k = S_sched[li++]; if (I_[k].done) continue; } else k = n == 1 ? lv[0] : lv[rnext() % (uint64_t)n];
    cur = &I_[k]; swapcontext(&mainCtx, &cur->cx); cur = 0; }
  printf("end %ld\n", live); return 0; }

/* Included by every generated parser that psim builds: the parser's whole environment is the simulator. */
#ifndef PSIM_RT_H
#define PSIM_RT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <assert.h>
#ifdef __cplusplus
extern "C" {
#endif
struct simbox { short pad; int id; double d; };
struct SimTok { int val, tag, l[4]; };
int sim_lex(void *inst, struct SimTok *t);
int sim_act(void *inst, int rule, int recov, int n, const int *vals, int nl, const int *locs);
int sim_ctl(void *inst);
void sim_hook(void *inst, int what, int a, int b);
void *sim_cur(void);
void *sim_box(size_t n);
void sim_err(void *inst, const char *msg, const int *loc);
void sim_dtor(void *inst, int what, int val, const int *loc);
void sim_note(void *inst, int what, const char *s);
void sim_note_i(void *inst, int what, int v);
int sim_valid(void *inst);
struct sim_lemon_api { void *(*alloc)(void *); void (*feed)(void *, int, int, void *); void (*release)(void *); void *(*box)(void); void (*init)(void *, void *); void (*fini)(void *); int (*fallback)(int); int (*peak)(void *); const int *defs; };
void *sim_malloc(size_t n);
void *sim_calloc(size_t a, size_t b);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
int sim_printf(const char *f, ...);
int sim_fprintf(void *s, const char *f, ...);
int sim_fputs(const char *t, void *s);
int sim_fputc(int c, void *s);
char *sim_getenv(const char *n);
const char *sim_tostr(int sym, int v);
#ifdef __cplusplus
}
#endif
#ifdef SIM_TRACE
#define printf sim_printf
#define fprintf sim_fprintf
#define fputs sim_fputs
#define fputc sim_fputc
#define getenv sim_getenv
#endif
#define SIM_ARG(v, c) ((int) (((unsigned) (v) * 31u + (unsigned) (c)) & 0x3fffffffu))
#define SIMG_n(x) (x)
#define SIMG_iv(x) (x)
/* every member has its own representation, so that a value read through the wrong one shows */
#ifdef SIM_PLAIN
#define SIM_F3 1
#define SIM_F5 1
#else
#define SIM_F3 3
#define SIM_F5 5
#endif
#define SIMG_lv(x) ((int)((x) / SIM_F3))
#define SIMG_dv(x) ((int)(x))
#define SIMM_dv(x) ((double)(x))
#define SIMG_bv(x) ((x).id)
#define SIMG_pv(x) ((int)((ptrdiff_t)(x) / SIM_F5))
static struct simbox simbox_mk(int i) { struct simbox b; memset(&b, 0, sizeof b); b.id = i; b.d = i * 0.5; return b; }
#define SIMM_n(x) (x)
#define SIMM_iv(x) (x)
#define SIMM_lv(x) ((long)(x) * SIM_F3)
#define SIMM_bv(x) (simbox_mk(x))
#define SIMM_pv(x) ((void *)((ptrdiff_t)(x) * SIM_F5))
#define SIMANY(x) _Generic((x), double: (int) *(double *) &(x), long: (int) (*(long *) &(x) / SIM_F3), void *: (int) ((ptrdiff_t) *(void **) &(x) / SIM_F5), default: SIMANY_(x))
#define SIMANY_(x) (sizeof(x) == sizeof(struct simbox) ? ((struct simbox *) &(x))->id : *(int *) &(x))
#define SIMLOC(x) (x).first_line, (x).first_column, (x).last_line, (x).last_column
#define SIM_CTL(inst) switch (sim_ctl(inst)) { case 1: YYABORT; break; case 2: YYACCEPT; break; case 3: YYERROR; break; \
  case 4: yyerrok; break; case 5: yyclearin; break; case 6: yyerrok; yyclearin; break; default: break; }
#undef malloc
#undef calloc
#undef realloc
#undef free
#define malloc(n) sim_malloc(n)
#define calloc(a,b) sim_calloc(a,b)
#define realloc(p,n) sim_realloc(p,n)
#define free(p) sim_free(p)
static void simbox_use(void) { (void) simbox_mk(0); (void) &simbox_use; }
#endif

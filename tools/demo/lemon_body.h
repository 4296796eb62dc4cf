/* Drives one lemon parser through its script, as psim does. */
struct sim_lemon_api { void *(*alloc)(void *); void (*feed)(void *, int, int, void *); void (*release)(void *); void *(*box)(void); void (*init)(void *, void *); void (*fini)(void *); int (*fallback)(int); int (*peak)(void *); const int *defs; };
extern struct sim_lemon_api sim_lemon;
void *sim_box(size_t n) { void *r = malloc(n); memset(r, 0xA5, n); live++; return r; }
static void body(Inst *I) {
  int v[2], i, k, fed = 0, on = 0, dyn = S_dyn[I->id], alloc = dyn == 0 || dyn == 3; void *p = 0, *box = 0;
  for (i = 2; sim_codes[i]; i++) if (sim_codes[i] > 0) { v[0] = sim_lemon.defs[i]; v[1] = sim_lemon.fallback(sim_codes[i]); out("code", 2, v); }
  for (k = 0; k < S_n[I->id]; k++) { I->stream = k; I->pos = 0;
    if (!on) { if (alloc) p = sim_lemon.alloc(I); else { if (!box) box = sim_lemon.box(); sim_lemon.init(box, I); p = box; } on = p != 0; v[0] = alloc; v[1] = on; out("create", 2, v); if (!on) { sim_lemon.release(0); break; } }
    for (;;) { int end = I->pos >= S_len[I->id][k]; struct SimTok t; int code = 0; t.val = 0; if (!end) code = sim_lex(I, &t); v[0] = code; v[1] = t.val; out("feed", 2, v); yieldPoint(); sim_lemon.feed(p, code, t.val, I); yieldPoint(); fed++;
      if (fed == S_disc[I->id]) { if (alloc) sim_lemon.release(p); else sim_lemon.fini(p); out("discarded", 0, v); on = 0; break; } if (end) break; }
    if (on) { v[0] = sim_lemon.peak(p); out("peak", 1, v); }
    if (on && dyn >= 2 && k + 1 < S_n[I->id]) { if (alloc) sim_lemon.release(p); else sim_lemon.fini(p); out("finished", 0, v); on = 0; } }
  if (on) { if (alloc) sim_lemon.release(p); else sim_lemon.fini(p); out("finished", 0, v); }
  if (box) sim_free(box); }

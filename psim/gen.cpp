#include "psim.h"
int gStrict = 0, gHuge = -1;
bool genYacc(const string &prop, Rng &R, Case &c, Auto &A); void genRunsYacc(Case &c, Rng &R, int n);
bool genLemon(const string &prop, Rng &R, Case &c, Auto &A); void genRunsLemon(Case &c, Rng &R, int n);
bool genCase(const string &prop, uint64_t seed, Case &c, Auto &A) { Rng R(seed); c.prop = prop; c.seed = seed; return prop[0] == 'L' ? genLemon(prop, R, c, A) : genYacc(prop, R, c, A); }
void genRuns(Case &c, const Auto &A, Rng &R, int n) { (void)A; if (c.g.dialect) genRunsLemon(c, R, n); else genRunsYacc(c, R, n); }

#pragma once
#include "simlib.h"
#include "grammar.h"
struct FileDef { string path, text; bool ro = false; };
struct Step { vector<Proc> procs; uint64_t sched = 1; };
// one history: files, then steps of one process or two concurrent ones
struct TCase {
  string prop; vector<FileDef> files; vector<string> protect;       // protect: inputs no run may change
  vector<Proc> base;                                                // the undisturbed runs the steps are judged against (same order as in a step)
  vector<Step> steps; vector<string> want;                          // want: outputs the options ask for, when the run succeeds
  string note; };
string serialise(const TCase &c); bool deserialise(const string &t, TCase &c);

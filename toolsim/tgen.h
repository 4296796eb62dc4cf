#pragma once
#include "tcase.h"
#include <map>
struct Ref { int how = 0, code = 0; std::map<string, string> outs; string out, err, report, msg; uint64_t count[OP_N] = {}; vector<Site> sites; };
void loadCorpus(const string &dir); extern string tmplText; extern vector<FileDef> corpusY;
bool genBase(const string &prop, uint64_t seed, TCase &c);               // files and undisturbed runs
bool genPlan(TCase &c, const vector<Ref> &ref, Rng &R);                  // one disturbed history of them

// (De)serialisation of cases: one visitor used in both directions, so a replay file cannot drift from the structures.
#include "psim.h"
namespace {
struct W { Ser &s; void f(const char *k, int &v) { s.i(k, v); } void f(const char *k, uint64_t &v) { s.s(k, std::to_string(v)); } void f(const char *k, bool &v) { s.i(k, v); } void f(const char *k, string &v) { s.s(k, v); } void f(const char *k, vector<int> &v) { s.vi(k, v); }
  template <class T, class F> void list(const char *k, vector<T> &v, F fn) { s.i(k, (long)v.size()); for (auto &x : v) fn(x); } };
struct Rd { De &d; void f(const char *k, int &v) { v = (int)d.i(k); } void f(const char *k, uint64_t &v) { v = strtoull(d.s(k).c_str(), 0, 10); } void f(const char *k, bool &v) { v = d.i(k); } void f(const char *k, string &v) { v = d.s(k); } void f(const char *k, vector<int> &v) { v = d.vi(k); }
  template <class T, class F> void list(const char *k, vector<T> &v, F fn) { long n = d.i(k); if (n < 0 || n > 1000000) { d.bad = true; n = 0; } v.assign(n, T()); for (auto &x : v) { if (d.bad) return; fn(x); } } };
template <class V> void visit(V &v, Case &c) {
  v.f("prop", c.prop); v.f("seed", c.seed); Grammar &g = c.g; Opt &o = c.o;
  v.f("dialect", g.dialect);
  v.list("syms", g.syms, [&](Sym &s) { v.f("name", s.name); v.f("term", s.term); v.f("code", s.code); v.f("prec", s.prec); v.f("assoc", s.assoc); v.f("tag", s.tag); v.f("dtor", s.dtor); v.f("alias", s.alias); v.f("fallback", s.fallback); v.f("wildcard", s.wildcard); });
  v.list("rules", g.rules, [&](Rule &r) { v.f("lhs", r.lhs); v.list("rhs", r.rhs, [&](Elem &e) { v.f("kind", e.kind); v.f("sym", e.sym); v.f("alts", e.alts); v.f("tag", e.tag); v.f("refs", e.refs); v.f("noref", e.noref); v.f("args", e.args); }); v.f("precSym", r.precSym); v.f("action", r.action); v.f("actFlags", r.actFlags); v.f("refs", r.refs); });
  v.list("tags", g.tags, [&](string &s) { v.f("tagname", s); }); v.f("start", g.start); v.f("startDecl", g.startDecl);
  v.list("precLevels", g.precLevels, [&](vector<int> &l) { v.f("level", l); }); v.f("defDtor", g.defDtor); v.f("tagDtor", g.tagDtor); v.f("layout", g.layout); v.f("stackSize", g.stackSize); v.f("defaultType", g.defaultType); v.f("hooks", g.hooks);
#define O(x) v.f("opt_" #x, o.x);
  O(flavor) O(B) O(d) O(r) O(l) O(t) O(P) O(i) O(u) O(z) O(v) O(loc) O(H) O(viaStdin) O(g) O(prefix) O(base) O(initStack) O(maxDepth) O(noLeaks) O(lvgrowth) O(dbg) O(nullYacc) O(useUnion) O(valid) O(lc) O(lr) O(lp) O(ls) O(lstack) O(lextra) O(lnorec) O(lndebug) O(ltmpl) O(ltrace) O(lpeak)
#undef O
  v.list("runs", c.runs, [&](Run &r) { v.f("sched", r.sched); v.f("schedList", r.schedList);
    v.list("inst", r.inst, [&](Script &s) { v.list("streams", s.streams, [&](vector<Tok> &t) { vector<int> a; for (auto &x : t) { a.push_back(x.sym); a.push_back(x.rawCode); a.push_back(x.val); } v.f("tokens", a); t.clear(); for (size_t i = 0; i + 2 < a.size(); i += 3) t.push_back({a[i], a[i + 1], a[i + 2]}); });
      vector<int> a; for (auto &p : s.ctl) { a.push_back(p.first); a.push_back(p.second); } v.f("ctl", a); s.ctl.clear(); for (size_t i = 0; i + 1 < a.size(); i += 2) s.ctl.push_back({a[i], a[i + 1]}); v.f("allocFail", s.allocFail); v.f("discardAt", s.discardAt); v.f("dyn", s.dyn); }); });
}
}
string serialize(const Case &c) { Case k = c; Ser s; W w{s}; visit(w, k); return s.os.str(); }
bool deserialize(const string &t, Case &c) { De d(t); Rd r{d}; c = Case(); visit(r, c); return !d.bad && !d.is.fail(); }

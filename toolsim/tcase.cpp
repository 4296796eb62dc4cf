#include "tcase.h"
#include <cstdlib>
static string esc(const string &s) { string r; char b[5]; for (unsigned char c : s) if (c > 32 && c < 127 && c != '%') r += (char)c; else { snprintf(b, sizeof b, "%%%02x", c); r += b; } return r.empty() ? "%" : r; }
static string une(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { if (i + 2 < s.size() + 0 && s.size() > i + 2) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } } else r += s[i]; return r; }
static void putProc(std::ostringstream &o, const char *k, const Proc &p) {
  o << k << " " << p.tool << " " << p.useStdin << " " << esc(p.stdinText) << " " << p.bufSize << " " << p.readMax << " " << p.heapMode << " " << p.fill << " " << p.seed << " " << p.ignoreSig << " " << p.tmpMode << " " << p.args.size(); for (auto &a : p.args) o << " " << esc(a);
  o << " " << p.faults.size(); for (auto &f : p.faults) o << " " << opName[f.op] << " " << f.at << " " << fmodeName[f.mode] << " " << f.arg; o << "\n"; }
static bool getProc(std::istringstream &i, Proc &p) { string s; size_t n; i >> p.tool >> p.useStdin >> s >> p.bufSize >> p.readMax >> p.heapMode >> p.fill >> p.seed >> p.ignoreSig >> p.tmpMode >> n; p.stdinText = une(s); if (n > 100) return false; while (n-- > 0) { i >> s; p.args.push_back(une(s)); } i >> n; if (n > 100) return false; while (n-- > 0) { Fault f; string a, b; i >> a >> f.at >> b >> f.arg; for (f.op = 0; f.op < OP_N && a != opName[f.op];) f.op++; for (f.mode = 0; f.mode < F_N && b != fmodeName[f.mode];) f.mode++; if (f.op == OP_N || f.mode == F_N) return false; p.faults.push_back(f); } return !i.fail(); }
string serialise(const TCase &c) { std::ostringstream o; o << "prop " << c.prop << "\nnote " << esc(c.note) << "\n"; for (auto &f : c.files) o << "file " << esc(f.path) << " " << f.ro << " " << esc(f.text) << "\n"; for (auto &f : c.protect) o << "input " << esc(f) << "\n"; for (auto &f : c.want) o << "want " << esc(f) << "\n"; for (auto &p : c.base) putProc(o, "base", p);
  for (auto &s : c.steps) { o << "step " << s.sched << " " << s.procs.size() << "\n"; for (auto &p : s.procs) putProc(o, "proc", p); } return o.str(); }
bool deserialise(const string &t, TCase &c) { std::istringstream in(t); string l; c = TCase(); while (std::getline(in, l)) { std::istringstream i(l); string k, a, b; i >> k; if (k == "prop") i >> c.prop; else if (k == "note") { i >> a; c.note = une(a); } else if (k == "file") { FileDef f; i >> a >> f.ro >> b; f.path = une(a); f.text = une(b); c.files.push_back(f); } else if (k == "input") { i >> a; c.protect.push_back(une(a)); } else if (k == "want") { i >> a; c.want.push_back(une(a)); } else if (k == "base") { Proc p; if (!getProc(i, p)) return false; c.base.push_back(p); } else if (k == "step") { Step s; i >> s.sched; c.steps.push_back(s); } else if (k == "proc") { Proc p; if (c.steps.empty() || !getProc(i, p)) return false; c.steps.back().procs.push_back(p); } } return !c.prop.empty() && !c.base.empty(); }

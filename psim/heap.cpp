// The simulated heap: every block is fenced by red zones, poisoned on allocation and release, always moved by
// realloc, and kept in quarantine until the end of the run so that a stale write is seen.
#include "heap.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <vector>
#include <unordered_map>
namespace {
const size_t RZ = 64;
struct Blk { unsigned char *base; size_t n; bool freed; };
std::vector<Blk> blks; std::unordered_map<void *, size_t> idx; HeapStats hs; unsigned fill = 0xA5;
void bad(const char *m, void *p) { hs.bad++; if (!hs.msg[0]) snprintf(hs.msg, sizeof hs.msg, "%s", m); (void)p; }
bool checkBlk(const Blk &b) { for (size_t i = 0; i < RZ; i++) if (b.base[i] != 0xFB || b.base[RZ + b.n + i] != 0xFB) return false;
  if (b.freed) for (size_t i = 0; i < b.n; i++) if (b.base[RZ + i] != 0xDD) return false; return true; }
}
HeapStats &heapStats() { return hs; }
void heapReset(unsigned seed) { for (auto &b : blks) free(b.base); blks.clear(); idx.clear(); hs = HeapStats(); fill = seed & 255; if (fill == 0) fill = 0x5A; }
void *heapAlloc(size_t n) { unsigned char *b = (unsigned char *)malloc(n + 2 * RZ); if (!b) abort(); memset(b, 0xFB, RZ); memset(b + RZ, (int)fill, n); memset(b + RZ + n, 0xFB, RZ);
  idx[b + RZ] = blks.size(); blks.push_back({b, n, false}); hs.allocs++; hs.live++; hs.liveBytes += n; return b + RZ; }
void heapFree(void *p) { if (!p) return; auto f = idx.find(p); if (f == idx.end()) { bad("release of a pointer that was never allocated", p); return; } Blk &b = blks[f->second];
  if (b.freed) { bad("block released twice", p); return; } if (!checkBlk(b)) bad("write outside an allocated block", p); b.freed = true; memset(b.base + RZ, 0xDD, b.n); hs.frees++; hs.live--; hs.liveBytes -= b.n; }
void *heapRealloc(void *p, size_t n) { if (!p) return heapAlloc(n); auto f = idx.find(p); if (f == idx.end()) { bad("resize of a pointer that was never allocated", p); return heapAlloc(n); }
  size_t k = f->second; if (blks[k].freed) { bad("resize of a released block", p); return heapAlloc(n); } size_t m = blks[k].n; void *q = heapAlloc(n); memcpy(q, p, m < n ? m : n); heapFree(p); hs.reallocs++; return q; }
bool heapCheck() { for (auto &b : blks) if (!checkBlk(b)) { bad(b.freed ? "write to a released block" : "write outside an allocated block", 0); return false; } return hs.bad == 0; }
void heapForgetLive() { hs.live = 0; hs.liveBytes = 0; }

#pragma once
#include <cstddef>
struct HeapStats { long live = 0, allocs = 0, reallocs = 0, frees = 0, bad = 0, liveBytes = 0; char msg[200] = {0}; };
void heapReset(unsigned seed);
void *heapAlloc(size_t n); void *heapRealloc(void *p, size_t n); void heapFree(void *p);
bool heapCheck();           // verifies all red zones and quarantined blocks
HeapStats &heapStats();
void heapForgetLive();      // blocks still live are no longer counted

#pragma once
#include "mc.hh"
// ---- C allocations of the library (and of nothing else) are counted when linked with --wrap
struct Blk { void *p; size_t n; void *at; };
static std::map<void *, Blk> *blks; static bool track; static long noted; static size_t outstanding;
#ifdef CAL_LEAK
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
static void *note(void *p, size_t n, void *at) { if (track && p) { (*blks)[p] = {p, n, at}; noted++; outstanding += n; } return p; }
static void drop(void *p) { if (track && p && blks) { auto i = blks->find(p); if (i != blks->end()) { outstanding -= i->second.n; blks->erase(i); } } }
void *__wrap_malloc(size_t n) { return note(__real_malloc(n), n, __builtin_return_address(0)); }
void *__wrap_calloc(size_t a, size_t n) { return note(__real_calloc(a, n), a * n, __builtin_return_address(0)); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return note(__real_aligned_alloc(a, n), n, __builtin_return_address(0)); }
void *__wrap_realloc(void *p, size_t n) { drop(p); return note(__real_realloc(p, n), n, __builtin_return_address(0)); }
void __wrap_free(void *p) { drop(p); __real_free(p); }
}
#endif
static void startLeak() { if (!blks) blks = new std::map<void *, Blk>; blks->clear(); track = true; noted = 0; outstanding = 0; }
static void endLeak(const char *w) {
  track = false; size_t sum = 0; for (auto &b : *blks) sum += b.second.n;
  if (!blks->empty()) { auto &b = blks->begin()->second; std::string at; for (auto &x : *blks) { char t[64]; snprintf(t, sizeof t, " %zu@%p", x.second.n, (void *)((char *)x.second.at - (char *)0)); if (at.size() < 300) at += t; } (void)b; MC_CHECK(false, "%s: %zu blocks (%zu bytes) are not returned when the manager is quit:%s", w, blks->size(), sum, at.c_str()); }
#ifdef CAL_LEAK
  MC_CHECK(noted > 0, "harness: no allocation of the library was seen");
#endif
}

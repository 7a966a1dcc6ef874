// The allocators: blocks, records, pages, nodes (C23).
#include "calsys.hh"
#include "capture.hh"
extern "C" {
#include "calMem.h"
}
// injected failures of the system allocator (only in the variants that wrap it)
static long failAbove = 0; static long segAllocs = 0, segFails = 0; static std::set<void *> *sysLive;
#ifdef CAL_LEAK
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
static void *nt(void *p) { if (p && sysLive) sysLive->insert(p); return p; } static void dr(void *p) { if (p && sysLive) sysLive->erase(p); }
void *__wrap_malloc(size_t n) { return nt(__real_malloc(n)); } void *__wrap_calloc(size_t a, size_t n) { return nt(__real_calloc(a, n)); }
void *__wrap_aligned_alloc(size_t a, size_t n) { segAllocs++; if (failAbove && (long)n > failAbove) { segFails++; return nullptr; } return nt(__real_aligned_alloc(a, n)); }
void *__wrap_realloc(void *p, size_t n) { dr(p); return nt(__real_realloc(p, n)); } void __wrap_free(void *p) { dr(p); __real_free(p); }
}
#endif
static void watch() { if (!sysLive) sysLive = new std::set<void *>; sysLive->clear(); } static void unwatched(const char *w) { size_t n = sysLive->size(); delete sysLive; sysLive = nullptr; MC_CHECK(!n, "%s: %zu allocations are never returned", w, n); }
// memory in use: filled with a pattern of its own, checked for alignment, overlap and contents
struct Mem { unsigned char *p; size_t n; unsigned tag; };
struct Pool {
  std::vector<Mem> v; unsigned next = 1; size_t align;
  Pool(size_t a) : align(a) {}
  static unsigned char pat(unsigned tag, size_t i) { return (unsigned char)(tag * 37 + i * 11 + (i >> 8) * 3 + 1); }
  void take(void *q, size_t n) { MC_CHECK(q, "no memory of %zu bytes", n); unsigned char *p = (unsigned char *)q; MC_CHECK(((uintptr_t)p & (align - 1)) == 0, "%p is not aligned to %zu", q, align);
    for (auto &m : v) MC_CHECK(p + n <= m.p || m.p + m.n <= p, "%zu bytes at %p overlap %zu bytes in use at %p", n, q, m.n, m.p); for (size_t i = 0; i < n; i++) p[i] = pat(next, i); v.push_back({p, n, next++}); }
  void intact(const Mem &m, size_t n, const char *w) { for (size_t i = 0; i < n; i++) if (m.p[i] != pat(m.tag, i)) mc::fail("%s: byte %zu of the %zu bytes in use at %p changed", w, i, m.n, m.p); mc::S->checks++; }
  void all(const char *w) { for (auto &m : v) intact(m, m.n, w); }
};
static const long H = 40;  // header of a block on this platform; sizes around what fits a power of two
static std::vector<size_t> sizes() { std::vector<size_t> s = {1, 8, 24, 25, 64 - H + 64, 1000, 4096 - H, 4096 - H + 1, 32768 - H, 32768 - H + 1, 100000}; return s; }
static void blockCheckShort(Pool &P, Mem &m) { P.intact(m, m.n, "block"); }
// all sequences of allocations, releases, resizes and of somebody else using the program break
MC_SCENARIO(blocks) {
  int depth = (int)mc::P("depth", 4); static auto Z = sizes(); int few = (int)mc::P("few", 0); std::vector<size_t> S; for (size_t i = 0; i < Z.size(); i++) if (!few || i == 0 || i == 3 || i == 6 || i == 7 || i == 9) S.push_back(Z[i]); int ns = (int)S.size(); Pool P(8);
  for (int d = 0; d < depth; d++) {
    int L = (int)P.v.size(); int k = mc::choose(ns + 2 + L * (1 + ns + 1)); if (d == 0) mc::shardHere();
    if (k < ns) { mc::op("GetBlock(%zu)", S[k]); P.take(Cal_MemGetBlock(S[k]), S[k]); }
    else if (k == ns) { static const long D[] = {1, 4096, 40000}; mc::op("break moved"); void *q = sbrk(D[d % 3]); (void)q; }
    else if (k == ns + 1) { mc::op("GetBlock(0), FreeBlock(0), ResizeBlock(0)"); MC_CHECK(!Cal_MemGetBlock(0), "a block of no bytes"); Cal_MemFreeBlock(nullptr); void *q = Cal_MemResizeBlock(nullptr, S[0]); P.take(q, S[0]); }
    else { k -= ns + 2; int i = k / (ns + 2), w = k % (ns + 2); Mem m = P.v[i]; blockCheckShort(P, m);
      if (w == ns) { mc::op("FreeBlock(%zu bytes)", m.n); Cal_MemFreeBlock(m.p); P.v.erase(P.v.begin() + i); }
      else if (w == ns + 1) { mc::op("ResizeBlock(%zu -> 0)", m.n); MC_CHECK(!Cal_MemResizeBlock(m.p, 0), "a block of no bytes"); P.v.erase(P.v.begin() + i); }
      else { mc::op("ResizeBlock(%zu -> %zu)", m.n, S[w]); unsigned char *q = (unsigned char *)Cal_MemResizeBlock(m.p, S[w]); MC_CHECK(q, "not resized"); P.v.erase(P.v.begin() + i); size_t n = std::min(m.n, S[w]); Mem t = {q, n, m.tag}; P.intact(t, n, "resized block"); P.take(q, S[w]); } }
    P.all("blocks"); uint64_t h = 7; for (auto &m : P.v) h = mc::mix(h, m.n * 131 + ((uintptr_t)m.p & 0xffff)); mc::state(h);
  }
  while (!P.v.empty()) { int i = (int)(P.v.size() * 7 / 10); blockCheckShort(P, P.v[i]); Cal_MemFreeBlock(P.v[i].p); P.v.erase(P.v.begin() + i); P.all("release"); }
}
// released memory is used again: any cyclic use needs no more memory after its first rounds
MC_SCENARIO(reuse) {
  static auto S = sizes(); int ns = (int)S.size(), a = mc::choose(ns), b = mc::choose(ns), c = mc::choose(ns), pat = mc::choose(6); mc::shardHere(); Cal_Address_t before = 0; mc::op("sizes %zu %zu %zu, pattern %d", S[a], S[b], S[c], pat);
  for (int r = 0; r < 40; r++) { Pool P(8); std::vector<void *> p; size_t z[] = {S[a], S[b], S[c], S[a], S[b]}; for (int i = 0; i < 5; i++) { void *q = Cal_MemGetBlock(z[i]); P.take(q, z[i]); p.push_back(q); if (pat == 4 && i == 2) { Cal_MemFreeBlock(p[1]); P.v.erase(P.v.begin() + 1); p[1] = nullptr; } if (pat == 5 && i) { Cal_MemFreeBlock(p[i - 1]); P.v.erase(P.v.begin()); p[i - 1] = nullptr; } }
    if (pat == 3) { void *q = Cal_MemResizeBlock(p[0], S[c]); P.v.erase(P.v.begin()); P.take(q, S[c]); p[0] = q; } P.all("reuse"); static const int O[][5] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 0, 4, 1, 3}}; for (int i = 0; i < 5; i++) Cal_MemFreeBlock(p[O[pat % 3][i]]);
    if (r == 4) before = Cal_MemAllocation(); }
  MC_CHECK(Cal_MemAllocation() == before, "%lu more bytes were taken from the system although everything was released in every round", (unsigned long)(Cal_MemAllocation() - before));
}
// records of every size: all sequences of two managers' allocations and releases, more than one block of records
static const int RS[] = {0, 1, 7, 8, 9, 16, 24, 100, 1000, 1016, 1017, 2024, 2025, 4048};
MC_SCENARIO(records) {
  int s1 = mc::choose(14), s2 = mc::choose(14); mc::shardHere(); int sz[] = {RS[s1], RS[s2]}; if (std::max(sz[0], sz[1]) > (int)(PAGE_SIZE - 40 - 8)) return; mc::op("records of %d and %d bytes", sz[0], sz[1]);
  Cal_Address_t held = 0; for (int r = 0; r < 4; r++) { Cal_RecMgr M[2] = {Cal_MemNewRecMgr(sz[0]), Cal_MemNewRecMgr(sz[1])}; Pool P(8); std::vector<int> of; unsigned x = s1 * 31 + s2 * 7;
    for (int i = 0; i < 400; i++) { x = x * 1103515245 + 12345; unsigned e = x >> 16; if (i >= 10 && e % 3 == 0 && !P.v.empty()) { size_t j = (e >> 4) % P.v.size(); P.intact(P.v[j], P.v[j].n, "record"); Cal_MemFreeRec(M[of[j]], P.v[j].p); P.v.erase(P.v.begin() + j); of.erase(of.begin() + j); } else { int w = (e >> 3) & 1; int n = sz[w] < 8 ? 8 : sz[w]; P.take(Cal_MemNewRec(M[w]), n); of.push_back(w); } if (i % 16 == 0) P.all("records"); }
    P.all("records"); Cal_MemFreeRecMgr(M[0]); std::vector<Mem> keep; for (size_t j = 0; j < of.size(); j++) if (of[j]) keep.push_back(P.v[j]); P.v = keep; P.all("after the other record manager was released"); void *q = Cal_MemGetBlock(3000); P.take(q, 3000); P.all("after a later allocation"); Cal_MemFreeBlock(q); Cal_MemFreeRecMgr(M[1]); if (r == 1) held = Cal_MemAllocation(); }
  MC_CHECK(Cal_MemAllocation() == held, "released record managers still hold memory");
}
MC_SCENARIO(record_seqs) {   // every sequence of new/free on one manager and one block allocation in between
  int s = mc::choose(14), depth = (int)mc::P("depth", 6); mc::shardHere(); int sz = RS[s]; if (sz > (int)(PAGE_SIZE - 40 - 8)) return; Cal_RecMgr M = Cal_MemNewRecMgr(sz); Pool P(8); Pool B(8); size_t most = 0;
  for (int d = 0; d < depth; d++) { int L = (int)P.v.size(), k = mc::choose(2 + L); if (k == 0) { P.take(Cal_MemNewRec(M), sz < 8 ? 8 : sz); most = std::max(most, P.v.size()); } else if (k == 1) B.take(Cal_MemGetBlock(sz + 1), sz + 1); else { Cal_MemFreeRec(M, P.v[k - 2].p); P.v.erase(P.v.begin() + k - 2); } mc::op("%d", k); P.all("records"); B.all("blocks"); for (auto &x : P.v) for (auto &y : B.v) MC_CHECK(x.p + x.n <= y.p || y.p + y.n <= x.p, "a record and a block overlap"); mc::state(mc::mix(P.v.size(), B.v.size() * 64 + s)); }
  for (auto &b : B.v) Cal_MemFreeBlock(b.p); P.all("records"); Cal_MemFreeRecMgr(M);
}
// pages: all sequences over one page manager, with segments that the system refuses
MC_SCENARIO(pages) {
  static const int NP[] = {4, 5, 8, 64}; int np = NP[mc::choose(4)], depth = (int)mc::P("depth", 5), lim = mc::choose(4); mc::shardHere(); watch(); failAbove = 0;
#ifdef CAL_LEAK
  if (lim == 1) failAbove = 1; if (lim == 2) failAbove = 4L * PAGE_SIZE; if (lim == 3) failAbove = (long)np * PAGE_SIZE - 1;
#else
  if (lim) return;
#endif
  CalPageManager_t *M = CalPageManagerInit(np); mc::op("page manager, %d pages at a time, segments of at most %ld bytes", np, failAbove);
  bool must = !failAbove || failAbove >= 4L * PAGE_SIZE; if (failAbove && failAbove < (long)np * PAGE_SIZE) { long h = np; while (h * PAGE_SIZE > failAbove && h >= 4) h /= 2; must = h >= 4; } MC_CHECK(!!M == must, "page manager %screated", M ? "" : "not "); if (!M) { failAbove = 0; unwatched("a page manager that could not be created"); return; }
  Pool P(PAGE_SIZE); size_t most = 0; auto add = [&](int n) { for (int i = 0; i < n; i++) { CalAddress_t *p = CalPageManagerAllocPage(M); P.take(p, PAGE_SIZE); } most = std::max(most, P.v.size()); };
  for (int d = 0; d < depth; d++) { int k = mc::choose(6); mc::op("pages: step %d", k); switch (k) { case 0: add(1); break; case 1: add(np); break; case 2: add(np * 3 + 1); break; case 3: if (P.v.empty()) throw mc::Prune(); CalPageManagerFreePage(M, (CalAddress_t *)P.v[0].p); P.v.erase(P.v.begin()); break; case 4: while (P.v.size() > 1) { CalPageManagerFreePage(M, (CalAddress_t *)P.v.back().p); P.v.pop_back(); } break; case 5: for (size_t i = 0; i < P.v.size(); i += 1) { CalPageManagerFreePage(M, (CalAddress_t *)P.v[i].p); P.v.erase(P.v.begin() + i); } break; } P.all("pages"); mc::state(mc::mix(P.v.size(), M->totalNumPages)); }
  if (most) { MC_CHECK((size_t)M->totalNumPages < most + 2 * np, "%d pages taken from the system for at most %zu in use", M->totalNumPages, most); size_t was = M->totalNumPages; while (P.v.size() < most) add(1); MC_CHECK((size_t)M->totalNumPages == was, "released pages are not used again"); }
  CalPageManagerQuit(M); failAbove = 0; unwatched("page manager");
}
// many segments, and node managers sharing the pages
MC_SCENARIO(nodes) {
  int k = mc::choose(6), np = mc::choose(2) ? 64 : 4; mc::shardHere(); watch(); int N = k < 3 ? 300 : 20000; CalPageManager_t *M = CalPageManagerInit(np); CalNodeManager_t *m[3]; for (auto &x : m) x = CalNodeManagerInit(M); Pool P(16); std::vector<int> of; std::set<unsigned char *> live; int round = 0; mc::op("%d nodes, pages in groups of %d", N, np);
  // contents are kept by the caller: fill the five words of each node
  struct Nd { CalBddNode_t *n; int mgr; unsigned tag; }; std::vector<Nd> v; std::set<CalBddNode_t *> used; unsigned tag = 0, x = k;
  auto fill = [](Nd &d) { unsigned char *p = (unsigned char *)d.n; for (size_t i = 0; i < NODE_SIZE; i++) p[i] = Pool::pat(d.tag, i); }; auto ok = [](Nd &d) { unsigned char *p = (unsigned char *)d.n; for (size_t i = 0; i < NODE_SIZE; i++) if (p[i] != Pool::pat(d.tag, i)) return false; return true; };
  for (; round < 3; round++) { for (int i = 0; i < N; i++) { x = x * 1103515245 + 12345; unsigned e = x >> 16; int w = k % 3 == 0 ? 0 : (int)(e % 3); if (e % 5 == 0 && !v.empty()) { size_t j = (e >> 3) % v.size(); MC_CHECK(ok(v[j]), "a node in use changed"); CalNodeManager_t *nm = m[v[j].mgr]; CalBddNode_t *n = v[j].n; CalNodeManagerFreeNode(nm, n); used.erase(n); v[j] = v.back(); v.pop_back(); } else { CalBddNode_t *n; CalNodeManager_t *nodeManager = m[w]; CalNodeManagerAllocNode(nodeManager, n); MC_CHECK(((uintptr_t)n & 15) == 0, "node is not aligned"); MC_CHECK(used.insert(n).second, "a node in use was handed out again"); auto it = used.find(n); if (it != used.begin()) MC_CHECK((char *)*std::prev(it) + NODE_SIZE <= (char *)n, "overlapping nodes"); if (std::next(it) != used.end()) MC_CHECK((char *)n + NODE_SIZE <= (char *)*std::next(it), "overlapping nodes"); v.push_back({n, w, tag++}); fill(v.back()); } }
    for (auto &d : v) MC_CHECK(ok(d), "a node in use changed"); if (k == 2 || k == 5) { int z = round % 3; CalNodeManagerQuit(m[z]); m[z] = CalNodeManagerInit(M); std::vector<Nd> keep; for (auto &d : v) if (d.mgr != z) keep.push_back(d); else used.erase(d.n); v = keep; for (auto &d : v) MC_CHECK(ok(d), "a node of another manager changed"); } }
  size_t need = (v.size() + N) / (PAGE_SIZE / NODE_SIZE) + 3; (void)need; for (auto y : m) CalNodeManagerQuit(y); int tot = M->totalNumPages; std::vector<CalAddress_t *> pg; for (int i = 0; i < tot; i++) pg.push_back(CalPageManagerAllocPage(M)); MC_CHECK(M->totalNumPages == tot, "pages of released node managers are not used again"); std::sort(pg.begin(), pg.end()); for (size_t i = 1; i < pg.size(); i++) MC_CHECK((char *)pg[i - 1] + PAGE_SIZE <= (char *)pg[i], "overlapping pages"); CalPageManagerQuit(M); unwatched("node managers");
}
// a whole manager with a system that refuses large segments works like any other
MC_SCENARIO(small_segments) {
#ifdef CAL_LEAK
  int f = mc::choose(24), lim = mc::choose(5); mc::shardHere(); (void)f; static const long L[] = {4, 8, 16, 32, 64};
  watch(); failAbove = 0; { Sys s(4); mc::op("segments of at most %ld pages", L[lim]); failAbove = L[lim] * PAGE_SIZE; segFails = 0; TT step = 1 + f * 2; for (int r = 0; r < 3; r++) { for (TT t = f; t < 65536; t += step * 23) { s.add(s.build(t), t); } s.checkLive("small segments"); s.gc(); auto n = Cal_BddManagerGetNumNodes(s.m); MC_CHECK(n == s.expectedNodes(), "nodes"); for (auto &x : s.slot) s.free(x.h); s.slot.clear(); if (r == 1) { Cal_BddDynamicReordering(s.m, CAL_REORDER_SIFT, f & 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("sift"); } } s.quit(); } failAbove = 0; unwatched("small segments");
#endif
}
int main(int c, char **v) { return mc::main(c, v); }

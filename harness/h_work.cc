// Working storage (C27): what an operation needs internally is given back, so repeating work does not grow the manager.
#include "gops.hh"
#include "capture.hh"
#include "calObj.hh"
#include "leak.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static const TT POOL[] = {0xe8, 0x3a, 0x96, 0x80, 0xac, 0x01, 0xff, 0x00, 0xaa, 0xcc, 0x6a, 0x17};
static const int NP = sizeof POOL / sizeof *POOL;
// the same work again and again: after a warm-up, three equal windows; growth in each of them means something is not given back
static size_t pagesUsed(Cal_BddManager m) { size_t n = 0; for (auto pm : {m->pageManager1, m->pageManager2}) { n += pm->totalNumPages; for (auto *p = pm->freePageList; p; p = *(CalAddress_t **)p) n--; } return n; }
static void steady(Cal_BddManager m, const char *what, int warm, int reps, std::function<void()> work) {
  // quiet: the repeated calls are not part of the readable history
  for (int i = 0; i < warm; i++) work();
  size_t b[4], p[4]; b[0] = outstanding; p[0] = m ? pagesUsed(m) : 0; bool up = true, pup = m != nullptr;
  for (int w = 1; w < 4; w++) { for (int i = 0; i < reps; i++) work(); b[w] = outstanding; if (b[w] <= b[w - 1]) up = false; if (pup) { p[w] = pagesUsed(m); if (p[w] <= p[w - 1]) pup = false; } if (!up && !pup) return; }
  MC_CHECK(up, "%s: the pages in use grow without bound when it is repeated (after %d, then each %d more times: %zu %zu %zu %zu)", what, warm, reps, p[0], p[1], p[2], p[3]);
  MC_CHECK(false, "%s: the memory held grows without bound when it is repeated (bytes after %d, then each %d more times: %zu %zu %zu %zu)", what, warm, reps, b[0], b[1], b[2], b[3]);
}
static void begin() {
  startLeak();
#ifndef CAL_LEAK
  mc::fail("harness: needs the allocation-recording build");
#endif
}
static void arm(GSys &s, int k) { auto &M = maints()[k]; Cal_BddManagerSetParameters(s.m, 0, -1, M.repack, 0.9); Cal_BddDynamicReordering(s.m, M.technique, M.method); }
static void armNow(GSys &s) { s.m->gcCheck = 0; s.m->uniqueTableGCLimit = 0; }
// every operation on every operand of the family, with and without collections or other maintenance, results released
MC_SCENARIO(ops) {
  int no = (int)gops().size(), o = mc::choose(no), ord = mc::choose((int)mc::P("orders", 2)), k = mc::choose(5), a = mc::choose(NP); mc::shardHere();
  auto &g = gops()[o]; if (k == 4 && !g.assoc) throw mc::Prune();
  static const int B[] = {1, 2, 5, 8}; int b = g.nb > 1 ? B[mc::choose(4)] : 0, c = g.nb > 2 ? B[mc::choose(2)] : 0;
  begin(); { GSys s; s.setup(p3()[ord * 3 % 6 + ord / 2], ord & 1, std::vector<TT>(POOL, POOL + NP)); disarm(s); Cal_Bdd h[3] = {s.slot[a].h, s.slot[b].h, s.slot[c].h}; TT t[3] = {s.slot[a].t, s.slot[b].t, s.slot[c].t}; if (!g.pre(s, t)) { s.quit(); track = false; throw mc::Prune(); }
    static const char *K[] = {"results released", "and collected", "beyond the node limit", "results dropped by maintenance", "breadth first, and collected"}; auto old = calVerifLargeBdd; if (k == 4) calVerifLargeBdd = 0;
    mc::op("%s(%s,%s,%s) repeated, %s", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", K[k]); int R = (int)mc::P("reps", 700); if (k == 3) arm(s, 0);
    steady(s.m, g.name, R / 2, R, [&] { if (k == 2) { Cal_BddNodeLimit(s.m, 1); armNow(s); } if (k == 3) armNow(s); for (Cal_Bdd x : g.run(s, h)) if (x) Cal_BddFree(s.m, x); if (k == 2) { Cal_BddNodeLimit(s.m, 0); (void)Cal_BddOverflow(s.m); disarm(s); } if (k) Cal_BddManagerGC(s.m); });
    calVerifLargeBdd = old; disarm(s); s.checkLive("after the repetitions"); mc::state(s.hash()); s.quit(); }
  endLeak(g.name);
}
// sweeps: every operation on all pairs of functions of 3 variables, again and again
MC_SCENARIO(sweeps) {
  int no = (int)gops().size(), o = mc::choose(no), ord = mc::choose((int)mc::P("orders", 2)), k = mc::choose(4), part = mc::choose(16); mc::shardHere(); auto &g = gops()[o]; if (k == 3 && !g.assoc) throw mc::Prune(); if (g.nb == 1 && part) throw mc::Prune();
  begin(); { GSys s; s.setup(p3()[ord * 3 % 6 + ord / 2], ord & 1, {0x80}); disarm(s); std::vector<Cal_Bdd> f; for (TT t = 0; t < 256; t++) { f.push_back(s.mk(t)); s.add(f[t], t); }
    mc::op("%s on functions (part %d of 16), repeated, %s", g.name, part, k == 0 ? "one collection per sweep" : k == 1 ? "results dropped by maintenance" : k == 2 ? "beyond the node limit" : "breadth first"); auto old = calVerifLargeBdd; if (k == 3) calVerifLargeBdd = 0; if (k == 1) arm(s, part % 6);
    int step = (int)mc::P("step", 1);
    steady(s.m, g.name, 1, 1, [&] { for (TT x = 0; x < 256; x++) for (int y = 0; y < (g.nb > 1 ? 256 : 1); y += 16 * step) { TT t[3] = {x, (TT)((y + part + x) & 255), (TT)((x * 7 + y) & 255)}; if (!g.pre(s, t)) continue; Cal_Bdd h[3] = {f[t[0]], f[t[1]], f[t[2]]}; if (k == 2) { Cal_BddNodeLimit(s.m, 1); armNow(s); } if (k == 1 && !(x & 15)) { armNow(s); }
        for (Cal_Bdd z : g.run(s, h)) if (z) Cal_BddFree(s.m, z); if (k == 2) { Cal_BddNodeLimit(s.m, 0); (void)Cal_BddOverflow(s.m); disarm(s); } if (k == 1) { auto n = s.m->numReorderings; (void)n; s.order = s.readOrder("sweep"); disarm(s); } } Cal_BddManagerGC(s.m); });
    calVerifLargeBdd = old; disarm(s); s.orderChanged("sweep"); s.checkLive("after the sweeps"); mc::state(s.hash()); s.quit(); }
  endLeak(g.name);
}
// everything that can be repeated in one manager; what the caller has to release is released
static const int NEV = 30;
static void event(GSys &s, int k) {
  auto m = s.m; auto S = [&](int i) { return s.slot[i].h; };
  switch (k) {
    case 0: { Cal_Bdd a[] = {s.var[0], s.var[1], s.var[2], S(0), nullptr}; for (int p = 0; p < 2; p++) { int x = Cal_AssociationInit(m, a, p); Cal_AssociationSetCurrent(m, x); if (p) Cal_BddFree(m, Cal_BddSubstitute(m, S(1))); else Cal_BddFree(m, Cal_BddExists(m, S(2))); Cal_AssociationSetCurrent(m, -1); Cal_AssociationQuit(m, x); } break; }
    case 1: { Cal_Bdd a[] = {s.var[0], s.var[1], nullptr}; int x = Cal_AssociationInit(m, a, 0), y = Cal_AssociationInit(m, a, 0); Cal_AssociationQuit(m, x); Cal_AssociationQuit(m, y); break; }
    case 2: { Cal_Bdd a[] = {s.var[0], S(1), nullptr}, b[] = {s.var[2], S(2), nullptr}; Cal_TempAssociationInit(m, a, 1); Cal_TempAssociationAugment(m, b, 1); Cal_TempAssociationAugment(m, a, 1); Cal_AssociationSetCurrent(m, -1); Cal_BddFree(m, Cal_BddSubstitute(m, S(0))); Cal_TempAssociationQuit(m); break; }
    case 3: { Cal_Bdd a[] = {s.var[0], s.var[2], nullptr}; Cal_TempAssociationInit(m, a, 0); Cal_AssociationSetCurrent(m, -1); Cal_BddFree(m, Cal_BddExists(m, S(0))); break; }
    case 4: case 5: case 6: case 7: { static const int T[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW, CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; Cal_BddDynamicReordering(m, T[k - 4], k < 6 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(m); break; }
    case 8: Cal_BddManagerGC(m); break;
    case 9: { Cal_PipelineInit(m, CAL_AND); Cal_PipelineCreateProvisionalBdd(m, S(0), S(1)); Cal_PipelineQuit(m); break; }
    case 10: case 11: { Cal_PipelineInit(m, k == 10 ? CAL_AND : CAL_XOR); std::vector<Cal_Bdd> p; for (int i = 0; i < 6; i++) p.push_back(Cal_PipelineCreateProvisionalBdd(m, i ? p[i - 1] : S(0), S(i % 4))); Cal_PipelineExecute(m); for (auto x : p) Cal_BddFree(m, Cal_PipelineUpdateProvisionalBdd(m, x)); Cal_PipelineQuit(m); break; }
    case 12: { Cal_PipelineInit(m, CAL_OR); Cal_Bdd p = Cal_PipelineCreateProvisionalBdd(m, S(0), S(1)); p = Cal_PipelineCreateProvisionalBdd(m, p, S(2)); Cal_PipelineExecute(m); Cal_PipelineQuit(m); break; }
    case 13: { Cal_Bdd v[] = {s.var[0], s.var[1], s.var[2], nullptr}; std::string d = textOf([&](FILE *fp) { Cal_BddDumpBdd(m, S(0), v, fp); }); FILE *fp = fmemopen(&d[0], d.size(), "r"); int e; Cal_BddFree(m, Cal_BddUndumpBdd(m, v, fp, &e)); fclose(fp); break; }
    case 14: case 15: { Cal_Bdd v[] = {s.var[0], s.var[1], s.var[2], nullptr}; std::string d = textOf([&](FILE *fp) { Cal_BddDumpBdd(m, S(2), v, fp); }); for (size_t i = 0; i < d.size(); i += 3) { std::string x = d; if (k == 14) x[i] ^= 0xff; else x.resize(i ? i : 1); FILE *fp = fmemopen(&x[0], x.size(), "r"); int e; Cal_Bdd r = Cal_BddUndumpBdd(m, v, fp, &e); fclose(fp); if (r) Cal_BddFree(m, r); } break; }
    case 16: (void)textOf([&](FILE *fp) { for (int i = 0; i < 4; i++) { Cal_BddPrintBdd(m, S(i), Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, 0, fp); Cal_BddPrintProfile(m, S(i), Cal_BddNamingFnNone, 0, 60, fp); Cal_BddPrintFunctionProfile(m, S(i), Cal_BddNamingFnNone, 0, 60, fp); Cal_BddStats(m, fp); } Cal_Bdd a[] = {S(0), S(1), nullptr}; Cal_BddPrintProfileMultiple(m, a, Cal_BddNamingFnNone, 0, 60, fp); Cal_BddPrintFunctionProfileMultiple(m, a, Cal_BddNamingFnNone, 0, 60, fp); }); break;
    case 17: (void)stdoutOf([&] { Cal_BddFunctionPrint(m, S(0), (char *)"f"); }); break;
    case 18: { std::vector<long> lv(s.nvars() + 1); Cal_Bdd a[] = {S(0), S(1), nullptr}; for (int i = 0; i < 2; i++) { Cal_BddProfile(m, S(0), lv.data(), i); Cal_BddFunctionProfile(m, S(1), lv.data()); Cal_BddProfileMultiple(m, a, lv.data(), i); Cal_BddFunctionProfileMultiple(m, a, lv.data()); Cal_BddSize(m, S(2), i); Cal_BddSizeMultiple(m, a, i); Cal_BddSatisfyingFraction(m, S(3)); Cal_BddDependsOn(m, S(0), s.var[0]); Cal_BddIsCube(m, S(0)); Cal_BddTotalSize(m); } break; }
    case 19: { Cal_Bdd x[] = {S(0), S(1), s.var[0], S(2), s.var[1], s.var[2], S(0), nullptr}; Cal_BddFree(m, Cal_BddMultiwayAnd(m, x)); Cal_BddFree(m, Cal_BddMultiwayOr(m, x)); Cal_BddFree(m, Cal_BddMultiwayXor(m, x)); break; }
    case 20: { for (auto f : {Cal_BddPairwiseAnd, Cal_BddPairwiseOr, Cal_BddPairwiseXor}) { Cal_Bdd x[] = {S(0), S(1), s.var[0], S(2), s.var[1], s.var[2], S(0), S(0), nullptr}; Cal_Bdd *r = f(m, x); for (int i = 0; i < 4; i++) Cal_BddFree(m, r[i]); Cal_MemFree(r); } break; }
    case 21: { Cal_Bdd x[] = {S(0), nullptr}, y[] = {nullptr}; Cal_BddFree(m, Cal_BddMultiwayAnd(m, x)); Cal_BddFree(m, Cal_BddMultiwayOr(m, y)); break; }
    case 22: { Cal_Bdd n3[3] = {nullptr, nullptr, nullptr}, h1[3] = {S(0), nullptr, S(1)}; for (auto &g : gops()) for (auto *a : {n3, h1}) for (Cal_Bdd x : g.run(s, a)) if (x) Cal_BddFree(m, x); (void)Cal_BddOverflow(m); break; }
    case 23: { for (int i = 0; i < 300; i++) { TT t = (i * 37) & 255; Cal_BddFree(m, s.mk(t)); } break; }
    case 24: { std::vector<Cal_Bdd> h; for (TT t = 0; t < 256; t++) h.push_back(s.mk(t)); for (auto x : h) Cal_BddFree(m, x); break; }
    case 25: { Cal_BddIntersects(m, S(0), S(1)); Cal_Bdd r = Cal_BddIntersects(m, S(0), S(1)); Cal_BddFree(m, r); Cal_BddFree(m, r); break; }
    case 26: { auto old = calVerifLargeBdd; calVerifLargeBdd = 0; for (int i = 0; i < 4; i++) { Cal_BddFree(m, Cal_BddExists(m, S(i))); Cal_BddFree(m, Cal_BddForAll(m, S(i))); Cal_BddFree(m, Cal_BddRelProd(m, S(i), S((i + 1) % 4))); } calVerifLargeBdd = old; break; }
    case 27: { Cal_BddManagerSetParameters(m, 100, 10, 0.5, 0.5); Cal_BddManagerSetGCLimit(m); Cal_BddSetGCMode(m, 0); Cal_BddSetGCMode(m, 1); Cal_BddManagerSetParameters(m, 0, 0, 2.0, 1.0); Cal_BddManagerGC(m); break; }
    case 28: { Cal_Bdd sup[10]; for (int i = 0; i < 4; i++) { Cal_BddSupport(m, S(i), sup); for (int j = 0; sup[j]; j++) Cal_BddFree(m, sup[j]); } break; }
    case 29: { Cal_BddFree(m, Cal_BddManagerGetVarWithIndex(m, 0)); Cal_BddFree(m, Cal_BddManagerGetVarWithId(m, 2)); Cal_BddFree(m, Cal_BddIf(m, S(0))); Cal_BddFree(m, Cal_BddThen(m, S(0))); Cal_BddFree(m, Cal_BddElse(m, S(0))); Cal_BddFree(m, Cal_BddIdentity(m, S(0))); Cal_BddUnFree(m, S(1)); Cal_BddFree(m, S(1)); break; }
  }
}
MC_SCENARIO(events) {
  int depth = (int)mc::P("depth", 2), ord = mc::choose((int)mc::P("orders", 2)), e[3] = {0, 0, 0}; for (int i = 0; i < depth; i++) { e[i] = mc::choose(NEV); if (i == 0) mc::shardHere(); } int gc = mc::choose(mc::P("maint", 0) ? 8 : 2);
  begin(); { GSys s; s.setup(p3()[ord * 3 % 6 + ord / 2], ord & 1, std::vector<TT>(POOL, POOL + 4)); disarm(s); std::string n; for (int i = 0; i < depth; i++) n += std::to_string(e[i]) + " "; mc::op("events %srepeated%s", n.c_str(), gc == 1 ? ", with collections" : gc ? maints()[gc - 2].name : ""); int R = (int)mc::P("reps", 600);
    steady(s.m, "events", R / 2, R, [&] { for (int i = 0; i < depth; i++) { if (gc > 1) { arm(s, gc - 2); armNow(s); } event(s, e[i]); } if (gc == 1) Cal_BddManagerGC(s.m); disarm(s); });
    Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); disarm(s); s.orderChanged("events"); s.checkLive("after the events"); mc::state(s.hash()); s.quit(); }
  endLeak("events");
}
// large functions: operations on thousands of nodes, each repeated with collections or reorderings between
MC_SCENARIO(work_large) {
  Big::N = (int)mc::P("bits", 11); int f = mc::choose(24), ev = mc::choose(18); mc::shardHere(); begin();
  { BigSys b; auto m = b.m(); Big w = bigOf(bigFamily()[f].second), w2 = bigOf(bigFamily()[(f + 5) % 24].second); Cal_Bdd x = b.build(w), y = b.build(w2); mc::op("%s, %s, event %d", bigFamily()[f].first, bigFamily()[(f + 5) % 24].first, ev); Cal_Bdd a[] = {b.v[1], b.v[3], b.v[5], nullptr}, a2[] = {b.v[1], b.v[3], b.v[4], b.v[0], nullptr};
    auto F = [&](Cal_Bdd z) { if (z) Cal_BddFree(m, z); };
    bool lng = (ev >= 8 && ev <= 10) || ev >= 12; steady(lng ? m : nullptr, "work on large functions", lng ? 30 : 3, lng ? (int)mc::P("lreps", 40) : (int)mc::P("reps", 4), [&] {
      switch (ev) { case 0: F(Cal_BddAnd(m, x, y)); break; case 1: F(Cal_BddXor(m, x, y)); break; case 2: F(Cal_BddITE(m, x, y, b.v[2])); break; case 3: case 4: { calVerifLargeBdd = ev == 3 ? 1ul << 19 : 0; Cal_TempAssociationInit(m, a, 0); Cal_AssociationSetCurrent(m, -1); F(Cal_BddExists(m, x)); F(Cal_BddForAll(m, y)); F(Cal_BddRelProd(m, x, y)); calVerifLargeBdd = 1ul << 19; break; }
        case 5: { Cal_TempAssociationInit(m, a2, 1); Cal_AssociationSetCurrent(m, -1); F(Cal_BddSubstitute(m, x)); F(Cal_BddVarSubstitute(m, y)); F(Cal_BddCompose(m, x, b.v[2], y)); F(Cal_BddSwapVars(m, x, b.v[1], b.v[6])); break; }
        case 6: F(Cal_BddCofactor(m, x, y)); F(Cal_BddReduce(m, x, y)); break; case 7: { Cal_Bdd z[] = {x, y, b.v[0], b.v[1], x, b.v[5], y, nullptr}; F(Cal_BddMultiwayXor(m, z)); break; }
        case 8: case 9: case 10: { Cal_BddDynamicReordering(m, ev == 9 ? CAL_REORDER_WINDOW : CAL_REORDER_SIFT, ev < 10 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(m); break; }
        case 12: case 13: case 14: case 15: case 16: case 17: { Cal_BddManagerSetParameters(m, -1, ev < 15 ? 0 : 40, -1, ev & 1 ? 1.0 : 0.5); static const int W[] = {CAL_REORDER_WINDOW, CAL_REORDER_SIFT}; for (int i = 0; i < 2; i++) { Cal_BddDynamicReordering(m, W[(ev % 3 == 2 ? i : ev % 3)], CAL_REORDER_METHOD_BF); Cal_BddReorder(m); } break; }
        case 11: { Cal_PipelineInit(m, CAL_XOR); Cal_Bdd p = x; for (int i = 0; i < 6; i++) p = Cal_PipelineCreateProvisionalBdd(m, p, i & 1 ? y : b.v[i]); Cal_PipelineExecute(m); p = Cal_PipelineUpdateProvisionalBdd(m, p); F(p); Cal_PipelineQuit(m); break; } }
      Cal_BddManagerGC(m); });
    b.s.quit(); }
  endLeak("large functions");
}
// the C++ interface: BDD objects and containers of them that come and go
MC_SCENARIO(work_cxx) {
  int n = 2 + mc::choose(5), gc = mc::choose(2), k = mc::choose(6); mc::shardHere(); begin();
  { Cal c(n); std::vector<BDD> v; for (int i = 1; i <= n; i++) v.push_back(c.Id(i)); mc::op("Cal object with %d variables, work %d", n, k);
    steady(nullptr, "work with BDD objects", 200, 400, [&] {
      switch (k) { case 0: { BDD f = c.One(); for (auto &x : v) f = f & (x | ~f); for (auto &x : v) f ^= x; break; }
        case 1: { int a = c.AssociationInit(v.begin(), v.end()); c.AssociationSetCurrent(a); BDD g = c.Exists(v[0] | v[1]), h = c.RelProd(v[0], v[1]); c.AssociationSetCurrent(-1); c.AssociationQuit(a); break; }
        case 2: { auto ps = c.PairwiseOr(v.begin(), v.begin() + (v.size() & ~(size_t)1)); BDD h = c.And(v.begin(), v.end()), x = c.Xor(v.begin(), v.end()); break; }
        case 3: { std::vector<BDD> w = v; std::swap(w[0], w.back()); w.erase(w.begin()); w.push_back(w[0]); std::reverse(w.begin(), w.end()); w.resize(1); break; }
        case 4: { BDD a = v[0] & v[1]; BDD b = std::move(a); a = b; a = std::move(b); b = a; a = a; a = ~a; BDD d; d = a; BDD e(d); break; }
        case 5: { BDD a = v[0] ^ v[1]; auto i = a.If(), t = a.Then(), e = a.Else(); auto q = c.Satisfy(a); auto cf = c.Cofactor(a, v[0]); break; } }
      if (gc) c.GC(); }); }
  endLeak("Cal objects");
}
int main(int c, char **v) { return mc::main(c, v); }

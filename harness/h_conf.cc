// C25: settings of a manager are remembered, reported and obeyed by automatic maintenance
#include "gops.hh"
#include "capture.hh"
static const TT FAM[] = {0x96, 0xe8, 0x1d, 0x80, 0xf3, 0x3a};
static const std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static std::string statLine(const std::string &t, const char *key) {
  size_t p = t.find(key); MC_CHECK(p != std::string::npos, "statistics have no line '%s'", key);
  p += strlen(key); size_t e = t.find('\n', p); return t.substr(p, e - p);
}
static long statNum(const std::string &t, const char *key) { return atol(statLine(t, key).c_str()); }
static std::string stats(Cal_BddManager m) { return textOf([&](FILE *f) { Cal_BddStats(m, f); }); }

// every sequence of setters, with everything read back after each
MC_SCENARIO(settings) {
  Sys s; s.initOrder(p3()[mc::choose(2) * 3]); int depth = (int)mc::P("depth", 4);
  long lim = 0; void *hooks = nullptr; int gc = 1, tech = CAL_REORDER_NONE; char obj[2]; bool first = true; long gcs = 0, reo = 0; double rep = CAL_REPACK_AFTER_GC_THRESHOLD; bool repSet = false; 
  auto check = [&](const char *w) {
    if (hooks || !first) MC_CHECK(Cal_BddManagerGetHooks(s.m) == hooks, "%s: hooks are %p, were set to %p", w, Cal_BddManagerGetHooks(s.m), hooks);
    MC_CHECK(Cal_BddVars(s.m) == s.nvars(), "%s: Cal_BddVars", w);
    unsigned long n = Cal_BddManagerGetNumNodes(s.m); MC_CHECK(Cal_BddTotalSize(s.m) == n, "%s: Cal_BddTotalSize %lu, Cal_BddManagerGetNumNodes %lu", w, Cal_BddTotalSize(s.m), n);
    std::string t = stats(s.m);
    MC_CHECK(statNum(t, "Node limit: ") == lim, "%s: statistics give node limit %s, set to %ld", w, statLine(t, "Node limit: ").c_str(), lim);
    MC_CHECK(statLine(t, "Garbage collection enabled: ") == (gc ? "yes" : "no"), "%s: statistics give garbage collection %s", w, statLine(t, "Garbage collection enabled: ").c_str());
    MC_CHECK(statLine(t, "Dynamic reordering of BDDs enabled: ") == (tech != CAL_REORDER_NONE ? "yes" : "no"), "%s: statistics give reordering %s", w, statLine(t, "Dynamic reordering of BDDs enabled: ").c_str());
    if (repSet) MC_CHECK(fabs(atof(statLine(t, "Repacking after GC Threshold: ").c_str()) - rep) < 1e-5, "%s: statistics give repacking threshold %s, set to %f", w, statLine(t, "Repacking after GC Threshold: ").c_str(), rep);
    MC_CHECK(statNum(t, "Total BDD Node Usage : ") == (long)n, "%s: statistics give %s nodes, there are %lu", w, statLine(t, "Total BDD Node Usage : ").c_str(), n);
    MC_CHECK(statNum(t, "Total Number of variables: ") == s.nvars(), "%s: statistics give %s variables", w, statLine(t, "Total Number of variables: ").c_str());
    MC_CHECK(statNum(t, "number of garbage collections: ") == gcs, "%s: statistics give %s collections, there were %ld", w, statLine(t, "number of garbage collections: ").c_str(), gcs);
    MC_CHECK(statNum(t, "number of dynamic reorderings: ") == reo, "%s: statistics give %s reorderings, there were %ld", w, statLine(t, "number of dynamic reorderings: ").c_str(), reo);
    
  };
  check("new manager");
  for (int d = 0; d < depth; d++) {
    first = false;
    switch (mc::choose(13)) {
      case 0: case 1: case 2: { static const long L[] = {0, 5000, -7}; long l = L[mc::choose(3)]; mc::op("Cal_BddNodeLimit(%ld)", l); long o = Cal_BddNodeLimit(s.m, l); MC_CHECK(o == lim, "Cal_BddNodeLimit returned %ld, the old limit is %ld", o, lim); lim = l < 0 ? 0 : l; break; }
      case 3: hooks = &obj[mc::choose(2)]; mc::op("SetHooks"); Cal_BddManagerSetHooks(s.m, hooks); break;
      case 4: hooks = nullptr; mc::op("SetHooks(0)"); Cal_BddManagerSetHooks(s.m, hooks); break;
      case 5: gc = mc::choose(2); mc::op("SetGCMode(%d)", gc); Cal_BddSetGCMode(s.m, gc); break;
      case 6: { static const int T[] = {CAL_REORDER_NONE, CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; tech = T[mc::choose(3)]; int me = mc::choose(2) ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF; mc::op("DynamicReordering(%d,%d)", tech, me); Cal_BddDynamicReordering(s.m, tech, me); break; }
      case 7: { auto before = s.order; mc::op("Cal_BddReorder"); long g0 = statNum(stats(s.m), "number of garbage collections: "); Cal_BddReorder(s.m); gcs += statNum(stats(s.m), "number of garbage collections: ") - g0; s.orderChanged("reorder"); if (tech == CAL_REORDER_NONE) MC_CHECK(s.order == before, "Cal_BddReorder without a technique changed the order"); else reo++; s.checkLive("reorder"); break; }
      case 8: mc::op("GC"); Cal_BddManagerGC(s.m); gcs++; break;
      case 9: { TT t = FAM[(d * 2 + 1) % 6]; s.add(s.build(t), t); break; }
      case 10: s.newDummy(); break;
      case 11: { static const double R[] = {0.25, 1.5, -1}; double r = R[mc::choose(3)]; mc::op("SetParameters(repack %f)", r); Cal_BddManagerSetParameters(s.m, -1, -1, r, 0.5); if (r >= 0) { rep = r; repSet = true; } break; }
      case 12: mc::op("SetGCLimit"); Cal_BddManagerSetGCLimit(s.m); { long want = std::max(2l * (long)Cal_BddManagerGetNumNodes(s.m), (long)CAL_MIN_GC_LIMIT); if (lim && want > lim) want = lim; long got = statNum(stats(s.m), "garbage collection limit: "); MC_CHECK(got == want, "garbage collection limit %ld, expected %ld", got, want); } break;
    }
    check("history"); s.checkLive("history");
  }
  mc::state(mc::mix(s.hash(), lim * 7 + gc + tech * 3)); unsigned long got = s.gc(), e = s.expectedNodes(); MC_CHECK(got == e, "%lu nodes after collection, the live BDDs need %lu", got, e);
  s.quit();
}
// with collection switched off nothing is collected at any boundary; switching it on again makes it happen
MC_SCENARIO(gcoff) {
  int reg = mc::choose(2), o = mc::choose(2) * 5, rp = mc::choose(2), depth = (int)mc::P("depth", 3);
  GSys s; s.setup(p3()[o], reg, {0xe8, 0x96, 0x1d});
  static const int alpha[] = {0, 5, 8, 12, 15, 17, 18, 19, 20, 22, 24, 25, 28, 30}; Cal_BddManagerSetParameters(s.m, 0, -1, rp ? 2.0 : 0.75, 0.9);
  Cal_BddSetGCMode(s.m, 0); mc::op("Cal_BddSetGCMode(0)"); unsigned long last = Cal_BddManagerGetNumNodes(s.m); long g0 = statNum(stats(s.m), "number of garbage collections: ");
  bool off = true;
  for (int d = 0; d < depth; d++) {
    s.m->gcCheck = 0; s.m->uniqueTableGCLimit = 0;     // due at the entry of the next operation
    auto &g = gops()[alpha[mc::choose((int)(sizeof alpha / sizeof *alpha))]];
    int n = (int)s.slot.size(); int idx[3] = {n - 1, d % 3, (d + 1) % 3}; TT t[3]; for (int i = 0; i < 3; i++) t[i] = s.slot[idx[i]].t;
    if (!g.pre(s, t)) { s.quit(); throw mc::Prune(); }
    int keep = mc::choose(2); auto before = s.order; s.apply(g, idx, keep); MC_CHECK(s.order == before, "%s: order changed without a reordering technique", g.name);
    unsigned long now = Cal_BddManagerGetNumNodes(s.m);
    if (off) { MC_CHECK(now >= last, "%s: %lu nodes were collected although collection is off", g.name, last - now);
      long g1 = statNum(stats(s.m), "number of garbage collections: "); MC_CHECK(g1 == g0, "%s: %ld automatic collections although collection is off", g.name, g1 - g0); }
    last = now; s.checkLive(g.name); mc::state(s.hash());
    if (d == depth - 2 && mc::choose(2)) { mc::op("Cal_BddSetGCMode(1)"); Cal_BddSetGCMode(s.m, 1); off = false; }
  }
  if (!off) { long g1 = statNum(stats(s.m), "number of garbage collections: "); MC_CHECK(g1 > g0, "no collection after collection was switched on and due"); }
  // an explicit collection still works
  if (!reg) Cal_TempAssociationQuit(s.m); else Cal_AssociationQuit(s.m, s.assoc);
  unsigned long got = s.gc(), e = s.expectedNodes(); MC_CHECK(got == e, "%lu nodes after collection, the live BDDs need %lu", got, e);
  s.checkLive("end"); s.quit();
}
// reordering happens automatically only with a technique and above the threshold
MC_SCENARIO(reorder_when) {
  int gi = mc::choose((int)gops().size()), tech = mc::choose(3), me = mc::choose(2), thr = mc::choose(4), gcm = mc::choose(2), o = mc::choose(2) * 5; mc::shardHere(); if (thr == 3 && !gcm) throw mc::Prune();
  auto &g = gops()[gi]; static const int T[] = {CAL_REORDER_NONE, CAL_REORDER_SIFT, CAL_REORDER_WINDOW};
  for (int tu = 0; tu < 6; tu++) {
    GSys s; s.setup(p3()[o], tu & 1, {FAM, FAM + 6}); int idx[3] = {tu, (tu + 2) % 6, (tu + 3) % 6}; TT t[3]; for (int i = 0; i < 3; i++) t[i] = FAM[idx[i]];
    if (!g.pre(s, t)) { s.quit(); continue; }
    Cal_BddDynamicReordering(s.m, T[tech], me ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddSetGCMode(s.m, gcm); mc::op("technique %d, threshold choice %d, collection %d", tech, thr, gcm);
    if (thr == 3) Cal_BddManagerGC(s.m);
    long n = (long)Cal_BddManagerGetNumNodes(s.m); Cal_BddManagerSetParameters(s.m, thr == 0 ? 1000000 : thr & 1 ? n + 40 : 0, -1, 0.75, 0.9);
    // garbage in excess of the threshold: what counts is what a collection leaves
    if (thr == 3) { s.m->gcCheck = 1 << 30; for (int u = 0; u < 256; u++) Cal_BddFree(s.m, s.build(u)); MC_CHECK((long)Cal_BddManagerGetNumNodes(s.m) > n + 40, "harness: too little garbage"); }
    s.m->gcCheck = 0; s.m->uniqueTableGCLimit = 0; long r0 = statNum(stats(s.m), "number of dynamic reorderings: "); auto before = s.order;
    s.apply(g, idx); long r1 = statNum(stats(s.m), "number of dynamic reorderings: ");
    if (tech == 0 || thr != 2) { MC_CHECK(r1 == r0 && s.order == before, "%s: reordered automatically %s", g.name, tech == 0 ? "without a technique" : "below the threshold"); }
    else if (gi < 6 || gi == 8) MC_CHECK(r1 > r0, "%s: not reordered although a technique is set, collection is due and the threshold passed", g.name);
    s.checkLive(g.name); if (tu & 1) Cal_AssociationQuit(s.m, s.assoc); else Cal_TempAssociationQuit(s.m);
    unsigned long got = s.gc(), e = s.expectedNodes(); MC_CHECK(got == e, "%lu nodes after collection, the live BDDs need %lu", got, e); mc::state(mc::mix(s.hash(), gi)); s.quit();
  }
}
// long runs through the public interface only: garbage does not accumulate, the project's own constants in force
MC_SCENARIO(bounded) {
  Big::N = (int)mc::P("bits", 11); auto &F = bigFamily(); int nf = (int)F.size();
  int i = mc::choose(nf), kind = mc::choose(6), tech = mc::choose(3); mc::shardHere();
  BigSys B; std::vector<Cal_Bdd> h; std::vector<Big> t; for (int j = 0; j < 4; j++) { t.push_back(bigOf(F[(i + j * 5) % nf].second)); h.push_back(B.build(t.back())); }
  Cal_Bdd a[] = {B.v[0], B.v[4], B.v[6], B.v[7], nullptr}; Cal_TempAssociationInit(B.m(), a, 0); Cal_AssociationSetCurrent(B.m(), -1);
  if (tech) Cal_BddDynamicReordering(B.m(), tech == 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, tech == 1 ? CAL_REORDER_METHOD_DF : CAL_REORDER_METHOD_BF);
  Cal_BddManagerGC(B.m()); unsigned long live = Cal_BddManagerGetNumNodes(B.m()), peak = 0, made = 0; long g0 = statNum(stats(B.m()), "number of garbage collections: "); unsigned long big = 0;
  std::vector<int> ord0; for (int v = 0; v < Big::N; v++) ord0.push_back(Cal_BddGetIfIndex(B.m(), B.v[v]));
  // every step permutes one function's inputs and combines it with another; all results are dropped
  unsigned seed = 1;
  for (int r = 0; r < (int)mc::P("rounds", 150); r++) {
    seed = seed * 1103515245 + 12345; int x = (seed >> 16) % Big::N, y = (x + 1 + (seed >> 20) % (Big::N - 1)) % Big::N, p = r % 4, q = (r / 4 + 1) % 4;
    unsigned long n0 = Cal_BddManagerGetNumNodes(B.m());
    Cal_Bdd s = Cal_BddSwapVars(B.m(), h[p], B.v[x], B.v[y]); Cal_Bdd w = nullptr;
    switch (kind) {
      case 0: w = Cal_BddAnd(B.m(), s, h[q]); break; case 1: w = Cal_BddXor(B.m(), s, h[q]); break; case 2: w = Cal_BddITE(B.m(), s, h[q], h[(q + 1) % 4]); break;
      case 3: { Cal_Bdd z[] = {s, h[q], h[(q + 1) % 4], nullptr}; w = Cal_BddMultiwayXor(B.m(), z); break; }
      case 4: w = Cal_BddCompose(B.m(), s, B.v[x], h[q]); { Cal_Bdd k = Cal_BddOr(B.m(), w, h[q]); Cal_BddFree(B.m(), k); } break;
      case 5: { Cal_Bdd k = Cal_BddNand(B.m(), s, h[q]); w = Cal_BddRelProd(B.m(), k, s); Cal_BddFree(B.m(), k); break; }
    }
    MC_CHECK(s && w, "operation returned null"); Cal_BddFree(B.m(), s); Cal_BddFree(B.m(), w);
    unsigned long n1 = Cal_BddManagerGetNumNodes(B.m()); if (n1 > n0) { made += n1 - n0; big = std::max(big, n1 - n0); } peak = std::max(peak, n1); mc::op("round %d: %lu nodes", r, n1);
  }
  long g1 = statNum(stats(B.m()), "number of garbage collections: ");
  // a collection is due when the limit (twice the live nodes, at least 10000) is passed; one round may overshoot it, and checks are made every 100 nodes
  unsigned long bound = std::max<unsigned long>(CAL_MIN_GC_LIMIT, 4 * live + 4 * big) + 2 * big + 400;
  MC_CHECK(peak <= bound, "garbage accumulates: %lu nodes although %lu are live and no operation made more than %lu (%ld collections)", peak, live, big, g1 - g0);
  if (made > bound) MC_CHECK(g1 > g0, "no collection although %lu nodes were made", made);
  std::vector<int> ord1; for (int v = 0; v < Big::N; v++) ord1.push_back(Cal_BddGetIfIndex(B.m(), B.v[v]));
  if (!tech || peak <= CAL_BDD_REORDER_THRESHOLD) MC_CHECK(ord0 == ord1, "the order changed although %s", tech ? "the nodes stayed below the threshold" : "reordering is off");
  for (int j = 0; j < 4; j++) B.expect(h[j], t[j], "after the run");
  // with collection off the nodes only grow
  Cal_BddSetGCMode(B.m(), 0); unsigned long last = Cal_BddManagerGetNumNodes(B.m()); if (!tech) for (int r = 0; r < 20; r++) { Cal_Bdd s = Cal_BddSwapVars(B.m(), h[r % 4], B.v[(r * 3) % Big::N], B.v[(r * 3 + 1 + r % 5) % Big::N]); Cal_Bdd w = Cal_BddXor(B.m(), s, h[(r + 1) % 4]); Cal_BddFree(B.m(), s); Cal_BddFree(B.m(), w); unsigned long n = Cal_BddManagerGetNumNodes(B.m()); MC_CHECK(n >= last, "collected although collection is off"); last = n; }
  mc::state(mc::mix(mc::mix(i, kind), tech)); B.s.quit();
}
// the same for operations that make their nodes depth first, and for each operation alone: pairs of a fixed set of live functions
MC_SCENARIO(bounded_each) {
  int N = Big::N = (int)mc::P("bits", 12), kind = mc::choose(9), fam = mc::choose(4), sz = mc::choose(3), tech = mc::choose(3); mc::shardHere(); BigSys B; int nf = 24;
  std::vector<Cal_Bdd> h; std::vector<Big> t; unsigned x = 77 + fam; auto rnd = [&](int k) { x = x * 1103515245 + 12345; return (int)(x >> 16) % k; };
  for (int j = 0; j < nf; j++) {   // sums modulo two of a few products of a few variables
    std::vector<unsigned> pr; for (int k = 0; k < 4 + 3 * sz; k++) { unsigned c = 0; for (int l = 0; l < 2 + fam; l++) c |= 1u << rnd(N); pr.push_back(c); }
    t.push_back(bigOf([&](unsigned a) { int r = 0; for (unsigned c : pr) r ^= (a & c) == c; return (bool)r; })); h.push_back(B.build(t.back()));
  }
  Cal_Bdd a[] = {B.v[N - 1], B.v[3], B.v[N / 2], nullptr}; Cal_TempAssociationInit(B.m(), a, 0); Cal_AssociationSetCurrent(B.m(), -1);
  if (tech) Cal_BddDynamicReordering(B.m(), tech == 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, tech == 1 ? CAL_REORDER_METHOD_DF : CAL_REORDER_METHOD_BF);
  Cal_BddManagerGC(B.m()); unsigned long live = Cal_BddManagerGetNumNodes(B.m()), peak = 0, made = 0, big = 0; long g0 = statNum(stats(B.m()), "number of garbage collections: ");
  for (int p = 0; p < nf; p++) for (int q = 0; q < nf; q++) {
    unsigned long n0 = Cal_BddManagerGetNumNodes(B.m()); Cal_Bdd w = nullptr; int v = (p * 5 + q) % N, u = (v + 1 + q % (N - 1)) % N;
    switch (kind) {
      case 0: w = Cal_BddRelProd(B.m(), h[p], h[q]); break; case 1: w = Cal_BddAnd(B.m(), h[p], h[q]); break; case 2: w = Cal_BddITE(B.m(), h[p], h[q], h[(q + 1) % nf]); break;
      case 3: w = Cal_BddCompose(B.m(), h[p], B.v[v], h[q]); break; case 4: w = Cal_BddCofactor(B.m(), h[p], h[q]); break; case 5: w = Cal_BddSwapVars(B.m(), h[p], B.v[v], B.v[u]); break;
      case 6: { Cal_Bdd z[] = {h[p], h[q], h[(p + q) % nf], nullptr}; w = Cal_BddMultiwayXor(B.m(), z); break; }
      case 7: { Cal_Bdd z[] = {B.v[v], B.v[u], nullptr}; Cal_TempAssociationInit(B.m(), z, 0); w = q & 1 ? Cal_BddExists(B.m(), h[p]) : Cal_BddForAll(B.m(), h[p]); break; }
      case 8: { Cal_Bdd z[] = {B.v[v], h[q], B.v[u], h[(q + 5) % nf], nullptr}; Cal_TempAssociationInit(B.m(), z, 1); w = Cal_BddSubstitute(B.m(), h[p]); break; }
    }
    MC_CHECK(w, "operation returned null"); Cal_BddFree(B.m(), w);
    unsigned long n1 = Cal_BddManagerGetNumNodes(B.m()); if (n1 > n0) { made += n1 - n0; big = std::max(big, n1 - n0); } peak = std::max(peak, n1); mc::ops(1);
  }
  long g1 = statNum(stats(B.m()), "number of garbage collections: "); unsigned long bound = std::max<unsigned long>(CAL_MIN_GC_LIMIT, 4 * live + 4 * big) + 2 * big + 400; mc::op("%lu live, at most %lu, %lu made, at most %lu by one operation, %ld collections", live, peak, made, big, g1 - g0);
  MC_CHECK(peak <= bound, "garbage accumulates: %lu nodes although %lu are live and no operation made more than %lu (%ld collections)", peak, live, big, g1 - g0);
  if (made > bound) MC_CHECK(g1 > g0, "no collection although %lu nodes were made", made);
  for (int j = 0; j < nf; j++) B.expect(h[j], t[j], "after the run");
  mc::state(mc::mix(mc::mix(kind, fam), sz * 3 + tech)); B.s.quit();
}
// a form that is exponential under the creation order and linear under another is reordered once it is large enough
MC_SCENARIO(auto_reorder) {
  int pairs = 10 + mc::choose(4), tech = mc::choose(2), me = mc::choose(2), thr = mc::choose(3); mc::shardHere();
  static const long T[] = {-1, 500, 3000}; Cal_BddManager m = Cal_BddManagerInit(); std::vector<Cal_Bdd> x; for (int i = 0; i < 2 * pairs; i++) x.push_back(Cal_BddManagerCreateNewVarLast(m));
  Cal_BddDynamicReordering(m, tech ? CAL_REORDER_WINDOW : CAL_REORDER_SIFT, me ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); if (T[thr] >= 0) Cal_BddManagerSetParameters(m, T[thr], -1, -1, -1);
  Cal_Bdd f = Cal_BddZero(m); unsigned long peak = 0;
  for (int i = 0; i < pairs; i++) { Cal_Bdd a = Cal_BddAnd(m, x[i], x[i + pairs]), g = Cal_BddOr(m, f, a); MC_CHECK(a && g, "null"); Cal_BddFree(m, a); Cal_BddFree(m, f); f = g; peak = std::max(peak, Cal_BddManagerGetNumNodes(m)); }
  // give the automatic maintenance an opportunity
  for (int i = 0; i < 200; i++) { Cal_Bdd a = Cal_BddAnd(m, x[i % (2 * pairs)], x[(i * 7 + 3) % (2 * pairs)]), b = Cal_BddXor(m, f, a), c = Cal_BddXor(m, b, a); MC_CHECK(c == f, "f xor a xor a is not f"); for (auto h : {a, b, c}) Cal_BddFree(m, h); }
  long reo = statNum(stats(m), "number of dynamic reorderings: "); unsigned long n = Cal_BddManagerGetNumNodes(m); mc::op("%d pairs: peak %lu, %ld reorderings, %lu nodes", pairs, peak, reo, n);
  long threshold = T[thr] >= 0 ? T[thr] : CAL_BDD_REORDER_THRESHOLD; if ((long)peak * 3 < threshold) MC_CHECK(!reo, "reordered below the threshold");
  if ((1l << pairs) > 2 * CAL_MIN_GC_LIMIT / 3 * 2 && (1l << pairs) > threshold * 2) { MC_CHECK(reo > 0, "never reordered although %lu nodes are alive", n); }
  if (reo && !tech) { Cal_BddManagerGC(m); unsigned long k = (unsigned long)Cal_BddSize(m, f, 1); MC_CHECK(k < (1ul << pairs), "sifting a disjoint form of %d pairs left %lu nodes", pairs, k); }
  // the function is still what it was
  for (int q = 0; q < 64; q++) { unsigned long as = q * 0x9e3779b97f4a7c15ul; Cal_Bdd c = Cal_BddIdentity(m, f); bool want = false; std::vector<Cal_Bdd> lit{};
    Cal_Bdd cube = Cal_BddOne(m); for (int i = 0; i < 2 * pairs; i++) { Cal_Bdd l = as >> i & 1 ? Cal_BddIdentity(m, x[i]) : Cal_BddNot(m, x[i]); Cal_Bdd k = Cal_BddAnd(m, cube, l); Cal_BddFree(m, cube); Cal_BddFree(m, l); cube = k; }
    for (int i = 0; i < pairs; i++) if ((as >> i & 1) && (as >> (i + pairs) & 1)) want = true;
    Cal_Bdd r = Cal_BddAnd(m, c, cube); MC_CHECK(Cal_BddIsBddZero(m, r) == !want, "wrong value at an assignment after automatic reordering"); for (auto h : {c, cube, r}) Cal_BddFree(m, h); }
  mc::state(mc::mix(pairs * 4 + tech * 2 + me, thr)); Cal_BddManagerQuit(m);
}
int main(int c, char **v) { return mc::main(c, v); }

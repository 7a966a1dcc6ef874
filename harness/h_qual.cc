// C26: reordering does not make the diagrams larger
#include "gops.hh"
static void setMethod(Sys &s, int k) {
  static const int tech[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW, CAL_REORDER_SIFT, CAL_REORDER_WINDOW};
  static const int meth[] = {CAL_REORDER_METHOD_BF, CAL_REORDER_METHOD_BF, CAL_REORDER_METHOD_DF, CAL_REORDER_METHOD_DF};
  Cal_BddDynamicReordering(s.m, tech[k], meth[k]);
}
static const char *MN[] = {"BF sift", "BF window", "DF sift", "DF window"};
static const long FWD[] = {-1, 0, 2, 7}; static const double REP[] = {-1, 1.0, 0.0};
static void params(Sys &s, int p) { if (p) { Cal_BddManagerSetParameters(s.m, -1, FWD[p % 4], -1, REP[p / 4]); mc::op("SetParameters(maxForwardedNodes %ld, tableRepackThreshold %g)", FWD[p % 4], REP[p / 4]); } }

static unsigned long after(Sys &s, int k, unsigned long before) {
  setMethod(s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(s.m); s.orderChanged(MN[k]); s.checkLive(MN[k]); unsigned long n = s.gc(), e = s.expectedNodes();
  MC_CHECK(n == e, "%s: %lu nodes after collection, the live BDDs need %lu", MN[k], n, e);
  MC_CHECK(n <= before, "%s: %lu nodes before, %lu after", MN[k], before, n); return n;
}
MC_SCENARIO(shrink4) {
  int k = mc::choose(4), p = mc::choose(3), hi = mc::choose(64); mc::shardHere(); static auto ps = perms(4); long step = mc::P("step", 1);
  for (TT f = hi; f < 65536; f += 64 * step) {
    Sys s; s.initOrder(ps[(f / 64) % 24]); params(s, p * 5 % 12); s.add(s.build(f), f); TT g = (f * 40503u) & 0xffff; if (f & 64) s.add(s.build(g), g);
    unsigned long n = s.gc(); n = after(s, k, n); if (f & 128) after(s, (k + 1) & 3, n); mc::state(s.hash()); s.quit();
  }
}
MC_SCENARIO(shrink_large) {
  Big::N = (int)mc::P("bits", 9); auto &F = bigFamily(); int nf = (int)F.size(); int i = mc::choose(nf), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(4), c = mc::choose(2); mc::shardHere();
  BigSys B; params(B.s, p == 0 ? 0 : p == 1 ? 5 : p == 2 ? 10 : 3); std::vector<Big> t; std::vector<Cal_Bdd> h;
  for (int j : {i, (i + 7) % nf}) { t.push_back(bigOf(F[j].second)); h.push_back(B.build(t.back())); if (!c) break; }
  for (int k : {k1, k2}) {
    Cal_BddManagerGC(B.m()); unsigned long n = Cal_BddManagerGetNumNodes(B.m());
    setMethod(B.s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(B.m()); Cal_BddManagerGC(B.m()); unsigned long m = Cal_BddManagerGetNumNodes(B.m()); mc::op("%lu -> %lu", n, m);
    MC_CHECK(m <= n, "%s: %lu nodes before, %lu after", MN[k], n, m);
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
  }
  mc::state(mc::mix(mc::mix(i, k1), mc::mix(k2, p))); B.s.quit();
}
// blocks restrict depth-first reordering; it still may not lose anything
MC_SCENARIO(shrink_blocks) {
  Big::N = (int)mc::P("bits", 9); auto &F = bigFamily(); int nf = (int)F.size(); int i = mc::choose(nf), k1 = 2 + mc::choose(2), k2 = mc::choose(4), b = mc::choose(6), fixed = mc::choose(2); mc::shardHere();
  BigSys B; std::vector<Big> t; std::vector<Cal_Bdd> h;
  for (int j : {i, (i + 7) % nf}) { t.push_back(bigOf(F[j].second)); h.push_back(B.build(t.back())); }
  static const std::vector<std::vector<std::pair<int, int>>> BL = {{{0, 2}, {2, 2}, {4, 2}}, {{0, 3}, {3, 3}, {6, 3}}, {{1, 4}}, {{0, 6}, {0, 3}, {3, 3}}, {{2, 2}, {5, 4}}, {{0, 9}, {0, 4}, {4, 4}}};
  for (auto &x : BL[b]) { Cal_Block c = Cal_BddNewVarBlock(B.m(), Cal_BddManagerGetVarWithIndex(B.m(), x.first), x.second); Cal_BddVarBlockReorderable(B.m(), c, !fixed); mc::op("block [%d,%d) %s", x.first, x.first + x.second, fixed ? "fixed" : "reorderable"); }
  for (int k : {k1, k2}) {
    Cal_BddManagerGC(B.m()); unsigned long n = Cal_BddManagerGetNumNodes(B.m());
    setMethod(B.s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(B.m()); Cal_BddManagerGC(B.m()); unsigned long m = Cal_BddManagerGetNumNodes(B.m()); mc::op("%lu -> %lu", n, m);
    MC_CHECK(m <= n, "%s: %lu nodes before, %lu after", MN[k], n, m);
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
  }
  mc::state(mc::mix(mc::mix(i, k1), mc::mix(k2, b * 2 + fixed))); B.s.quit();
}
// functions whose size explodes or collapses when one variable is moved: sifting gives up half way and has to come back
MC_SCENARIO(shrink_limits) {
  int N = Big::N = (int)mc::P("bits", 12); int pos = mc::choose(N), shape = mc::choose(7), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(5); mc::shardHere();
  static const long FW[] = {-1, 0, 3, 12, 40}; BigSys B; if (p) { Cal_BddManagerSetParameters(B.m(), -1, FW[p], -1, p & 1 ? 1.0 : 0.5); mc::op("maxForwardedNodes %ld", FW[p]); }
  auto wsum = [&](unsigned a, int skip, int lo, int hi, int step) { unsigned r = 0, w = 1; for (int i = lo; i < hi; i++) if (i != skip) { if (a >> i & 1) r += w; w += step; } return r; };
  auto f = [&](unsigned a) -> bool { bool s = a >> pos & 1; switch (shape) {
    case 0: return s ? wsum(a, pos, 0, N, 0) % 4 == 1 : wsum(a, pos, 0, N, 1) % 5 == 2;                       // two counters, chosen by one variable
    case 1: return s ? wsum(a, pos, N / 2, N, 0) % 5 == 1 : wsum(a, pos, N / 2, N, 1) % 7 == 3;                // in the lower half
    case 2: return s ? wsum(a, pos, 0, N / 2, 2) % 7 == 1 : wsum(a, pos, 0, N / 2, 1) % 5 == 3;                // in the upper half
    case 3: return (wsum(a, pos, 0, N, 1) % 9 + 3 * s) % 9 < 4;
    case 4: { unsigned k = wsum(a, pos, 0, N, 0) % 8; return (a >> ((pos + 1 + k) % N) & 1) ^ (s & (k > 3)); }
    case 5: { bool r = false; for (int i = 0; i < N / 2; i++) r ^= (a >> i & 1) && (a >> (N - 1 - i) & 1); return r ^ s; }
    default: { int i1 = (pos + N / 2) % N; unsigned k = s + 2 * (a >> i1 & 1); return wsum(a, pos, 0, N, k & 1) % (3 + k) == k; } } };
  std::vector<Big> t; std::vector<Cal_Bdd> h; t.push_back(bigOf(f)); h.push_back(B.build(t.back()));
  if (p & 1) { t.push_back(bigOf([&](unsigned a) { return ((a & 63) * 5 + (a >> 6)) % 11 < 4; })); h.push_back(B.build(t.back())); }
  for (int k : {k1, k2}) {
    Cal_BddManagerGC(B.m()); unsigned long n = Cal_BddManagerGetNumNodes(B.m());
    setMethod(B.s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(B.m()); Cal_BddManagerGC(B.m()); unsigned long m = Cal_BddManagerGetNumNodes(B.m()); mc::op("%lu -> %lu", n, m);
    MC_CHECK(m <= n, "%s: %lu nodes before, %lu after", MN[k], n, m);
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
    for (int x = 0; x < N; x++) { Cal_Bdd v = Cal_BddManagerGetVarWithId(B.m(), x + 1); MC_CHECK(v == B.v[x] && Cal_BddManagerGetVarWithIndex(B.m(), Cal_BddGetIfIndex(B.m(), v)) == v, "variable %d inconsistent", x + 1); }
    std::vector<Cal_Bdd> a = h; for (auto x : B.v) a.push_back(x); a.push_back(nullptr); unsigned long sz = (unsigned long)Cal_BddSizeMultiple(B.m(), a.data(), 1); MC_CHECK(sz == m, "%lu nodes after collection, the live BDDs have %lu", m, sz);
  }
  Cal_Bdd g = B.build(t[0]); MC_CHECK(g == h[0], "rebuilding the function gives another handle");
  mc::state(mc::mix(mc::mix(pos, shape), mc::mix(k1 * 4 + k2, p))); B.s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

// C09: dynamic reordering preserves every function and every handle
#include "gops.hh"
static void setMethod(Sys &s, int k) {
  static const int tech[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW, CAL_REORDER_SIFT, CAL_REORDER_WINDOW};
  static const int meth[] = {CAL_REORDER_METHOD_BF, CAL_REORDER_METHOD_BF, CAL_REORDER_METHOD_DF, CAL_REORDER_METHOD_DF};
  Cal_BddDynamicReordering(s.m, tech[k], meth[k]);
}
static const char *MN[] = {"BF sift", "BF window", "DF sift", "DF window"};
static const long FWD[] = {-1, 0, 2, 7}; static const double REP[] = {-1, 1.0, 0.0};
static void params(Sys &s, int p) { if (p) { Cal_BddManagerSetParameters(s.m, -1, FWD[p % 4], -1, REP[p / 4]); mc::op("SetParameters(maxForwardedNodes %ld, tableRepackThreshold %g)", FWD[p % 4], REP[p / 4]); } }
static void reorder(Sys &s, int k) { setMethod(s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(s.m); s.orderChanged(MN[k]); s.checkLive(MN[k]); }
// rebuilding a function reaches the same handle; a collection leaves exactly what is needed under the new order
static void exact(Sys &s, const char *when, bool rebuild = true) {
  unsigned long got = s.gc(), exp = s.expectedNodes();
  MC_CHECK(got == exp, "%s: %lu nodes after collection, but the live BDDs need %lu", when, got, exp);
  if (rebuild) for (auto &x : s.slot) if (x.h) { Cal_Bdd c = s.build(x.t); MC_CHECK(c == x.h, "%s: rebuilding %s gives another handle", when, hx(x.t)); s.free(c); }
}
// every function of 4 variables, every method, parameter settings; garbage present
MC_SCENARIO(all4) {
  int k = mc::choose(4), p = mc::choose((int)mc::P("params", 4)), hi = mc::choose(64); mc::shardHere();
  static auto ps = perms(4); long step = mc::P("step", 1);
  for (TT f = hi; f < 65536; f += 64 * step) {
    Sys s; s.initOrder(ps[(f / 64) % 24]); params(s, p * 5 % 12);
    s.add(s.build(f), f); TT g = (f * 40503u) & 0xffff; Cal_Bdd junk = s.build(g); s.free(junk);
    reorder(s, k); exact(s, MN[k], f % 8 == 0);
    if (f % 16 == 1) { s.add(s.build(g), g); reorder(s, (k + 1) & 3); exact(s, "second reordering"); }
    mc::state(s.hash()); s.quit();
  }
}
// pairs of functions up to NPN equivalence, three rounds with possibly different methods, frees in between
MC_SCENARIO(pairs4) {
  TT f = npn4()[mc::choose((int)npn4().size())], g0 = npn4()[(mc::choose((int)mc::P("second", 6)) * 37 + 11) % npn4().size()];
  int k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose((int)mc::P("params", 3)); mc::shardHere();
  static auto ps = perms(4); TT g = 0; for (int a = 0; a < 16; a++) g |= (g0 >> ((a >> 1 | a << 3) & 15) & 1) << a;
  Sys s; s.initOrder(ps[(f + g) % 24]); params(s, p * 5);
  s.add(s.build(f), f); s.add(s.build(g), g); s.add(Cal_BddAnd(s.m, s.slot[0].h, s.slot[1].h), f & g); s.add(Cal_BddXor(s.m, s.slot[0].h, s.slot[1].h), f ^ g);
  reorder(s, k1); s.free(s.slot[0].h); s.slot[0].h = nullptr; if (k1 & 1) exact(s, "after first");
  s.add(Cal_BddOr(s.m, s.slot[1].h, s.slot[3].h), f | g); s.checkLive("operation after reordering");
  reorder(s, k2); exact(s, "after second"); reorder(s, k1); exact(s, "after third");
  mc::state(s.hash()); s.quit();
}
// histories: operations, frees, collections, reorderings, variable creation, associations
MC_SCENARIO(histories) {
  int p = mc::choose(3); GSys s; s.setup({1, 0, 2}, mc::choose(2), {0xe8, 0x96, 0x1d}); params(s, p * 5);
  int depth = (int)mc::P("depth", 3); bool two = false; int dead = 0; int dummies = 0;
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(15), n = (int)s.slot.size();
    if (e < 4) reorder(s, e);
    else if (e < 10) {
      static const int op[] = {0, 5, 15, 17, 18, 20}; auto &g = gops()[op[e - 4]]; int a = d % 3; while (!s.slot[a].h) a = (a + 1) % n; int b = n - 1; while (!s.slot[b].h) b--;
      int idx[3] = {b, a, a}; s.apply(g, idx); s.checkLive(g.name);
    }
    else if (e == 10) { if (dead >= 2) throw mc::Prune(); int a = dead++; s.free(s.slot[a].h); s.slot[a].h = nullptr; mc::op("free #%d", a); }
    else if (e == 11) s.gc();
    else { if (++dummies > 2) throw mc::Prune(); s.newDummy(e == 12 ? Sys::FIRST : e == 13 ? Sys::AFTER : Sys::BEFORE, d % 3); s.checkOrder("new variable"); s.checkLive("new variable"); }
    (void)two; mc::state(s.hash());
  }
  int b = (int)s.slot.size() - 1; while (!s.slot[b].h) b--; int idx[3] = {b, b, b};
  reorder(s, mc::choose(4)); s.apply(gops()[15], idx); s.apply(gops()[18], idx); s.apply(gops()[19], idx); s.checkLive("after the last reordering");
  if (s.assoc >= 0) Cal_AssociationQuit(s.m, s.assoc); else Cal_TempAssociationQuit(s.m);
  exact(s, "end"); s.quit();
}
// all functions of 3 variables alive at once, and with every node referenced from outside
MC_SCENARIO(allfn3) {
  static auto ps = perms(3); int o = mc::choose(6), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(12); mc::shardHere();
  AllFn A(3, ps[o]); params(A.s, p);
  for (int k : {k1, k2, k1}) { setMethod(A.s, k); Cal_BddReorder(A.s.m); mc::op("Cal_BddReorder (%s)", MN[k]); A.s.orderChanged(MN[k]); A.s.checkLive(MN[k]); A.checkIntact(MN[k]); }
  for (TT f = 0; f < 256; f += 5) for (TT g = 1; g < 256; g += 26) { Cal_Bdd r = Cal_BddAnd(A.s.m, A.f[f], A.f[g]); MC_CHECK(r == A.f[f & g], "And after reordering"); A.s.free(r); r = Cal_BddITE(A.s.m, A.f[g], A.f[f], A.f[f ^ 0x5a]); MC_CHECK(r == A.f[ite(g, f, f ^ 0x5a)], "ITE after reordering"); A.s.free(r); }
  mc::state(A.s.hash() + o * 977 + k1 * 31 + k2 * 7 + p); A.s.quit();
}
// many variables; functions of few variables each, spread over the order.  idBit is remapped for each function.
struct Spread {
  Sys s; int N; std::vector<Cal_Bdd> v; struct Fn { Cal_Bdd h; std::vector<int> ids; TT t; }; std::vector<Fn> fn;
  Spread(int n) : N(n) { s.init(); for (int i = 0; i < n; i++) v.push_back(Cal_BddManagerCreateNewVarLast(s.m)); }
  void addFn(TT t, const std::vector<int> &all) {
    std::vector<int> ids; for (int i : all) if (std::find(ids.begin(), ids.end(), i) == ids.end()) ids.push_back(i);
    int k = (int)ids.size(); fn.push_back({mk(t & full(k), ids, k), ids, t & full(k)});
  }
  Cal_Bdd mk(TT t, const std::vector<int> &ids, int k) {
    if (!t) return Cal_BddZero(s.m); if (t == full(k)) return Cal_BddOne(s.m);
    int x = 0; while (!depends(t, x)) x++;
    Cal_Bdd a = mk(cof(t, x, 1) & full(k), ids, k), b = mk(cof(t, x, 0) & full(k), ids, k), r = Cal_BddITE(s.m, v[ids[x] - 1], a, b);
    Cal_BddFree(s.m, a); Cal_BddFree(s.m, b); return r;
  }
  std::vector<int> readOrder(const char *w) {
    std::vector<int> ord; std::vector<char> seen(N + 1, 0);
    for (int i = 0; i < N; i++) { Cal_Bdd x = Cal_BddManagerGetVarWithIndex(s.m, i); int id = Cal_BddGetIfId(s.m, x); MC_CHECK(x && id >= 1 && id <= N && !seen[id] && x == v[id - 1] && Cal_BddGetIfIndex(s.m, x) == i && Cal_BddManagerGetVarWithId(s.m, id) == x, "%s: index %d is inconsistent", w, i); seen[id] = 1; ord.push_back(id); }
    return ord;
  }
  void check(const char *w) {
    auto ord = readOrder(w); std::set<std::vector<uint64_t>> subs;
    for (auto &f : fn) {
      for (int i = 0; i < 6; i++) idBit[0] = 0;
      for (int i = 1; i <= N; i++) idBit[i] = -1;
      for (size_t i = 0; i < f.ids.size(); i++) idBit[f.ids[i]] = (signed char)i;
      s.n = (int)f.ids.size(); TT e = s.eval(f.h); MC_CHECK(e == f.t, "%s: live BDD denotes %s over its variables, expected %s", w, hx(e), hx(f.t));
    }
    // exact node count: subfunctions as (variable id, support ids, table)
    Cal_BddManagerGC(s.m); unsigned long got = Cal_BddManagerGetNumNodes(s.m);
    std::vector<int> pos(N + 1); for (int i = 0; i < N; i++) pos[ord[i]] = i;
    for (auto &f : fn) { std::vector<int> o; for (size_t i = 0; i < f.ids.size(); i++) o.push_back((int)i); std::sort(o.begin(), o.end(), [&](int a, int b) { return pos[f.ids[a]] < pos[f.ids[b]]; }); walk(f, f.t, o, 0, subs); }
    for (int i = 1; i <= N; i++) subs.insert({(uint64_t)i, 0x2, (uint64_t)i});
    MC_CHECK(got == subs.size() + 1, "%s: %lu nodes after collection, but the live BDDs need %zu", w, got, subs.size() + 1);
  }
  void walk(const Fn &f, TT t, const std::vector<int> &o, size_t l, std::set<std::vector<uint64_t>> &subs) {
    int k = (int)f.ids.size(); while (l < o.size() && !depends(t, o[l])) l++; if (l == o.size()) return;
    if (t & 1) t = ~t & full(k);
    // canonical key: support ids sorted with the compressed table
    std::vector<std::pair<int, int>> sup; for (int i = 0; i < k; i++) if (depends(t, i)) sup.push_back({f.ids[i], i}); std::sort(sup.begin(), sup.end());
    TT c = 0; for (int a = 0; a < (1 << sup.size()); a++) { int b = 0; for (size_t i = 0; i < sup.size(); i++) if (a >> i & 1) b |= 1 << sup[i].second; c |= (t >> b & 1) << a; }
    std::vector<uint64_t> key{(uint64_t)f.ids[o[l]], c}; for (auto &x : sup) key.push_back(x.first);
    if (!subs.insert(key).second) return;
    walk(f, cof(t, o[l], 1) & full(k), o, l + 1, subs); walk(f, cof(t, o[l], 0) & full(k), o, l + 1, subs);
  }
};
MC_SCENARIO(spread) {
  static const int Ns[] = {31, 32, 33, 63, 64, 65, 66, 95, 130}; int ni = mc::choose((int)mc::P("sizes", 9)), k1 = mc::choose(4), k2 = mc::choose(4), sh = mc::choose(4), p = mc::choose(2); mc::shardHere();
  int N = Ns[ni]; Spread w(N); params(w.s, p * 5);
  // functions whose interaction pattern exercises rows and words of the interaction matrix
  if (sh == 0) for (int i = 1; i + N / 2 <= N && i < 14; i++) w.addFn(0x8, {i, i + N / 2});
  if (sh == 1) { for (int i = 1; i + 3 <= N; i += 4) w.addFn(0x6996, {i, i + 1, i + 2, i + 3}); w.addFn(0xe8, {1, 32 % N + 1, N}); }
  if (sh == 2) { w.addFn(0xe8, {1, N / 2, N}); w.addFn(0x1d, {N - 2, 2, N / 2 + 1}); w.addFn(0x8ff8, {3, N, N - 1, 4}); w.addFn(0x6, {N / 2 - 1, N / 2}); }
  if (sh == 3) for (int i = 0; i < 10; i++) w.addFn(0xf888888888888888ull ^ (i * 0x0123456789abcdefull), {1 + (i * 7) % N, 1 + (i * 7 + 11) % N, 1 + (i * 7 + 20) % N, 1 + (i * 7 + 25) % N, 1 + (i * 7 + 27) % N, 1 + (i * 7 + 30) % N});
  w.check("before"); setMethod(w.s, k1); mc::op("%d variables, %s", N, MN[k1]); Cal_BddReorder(w.s.m); w.check(MN[k1]);
  if (sh == 2) { Cal_BddFree(w.s.m, w.fn.back().h); w.fn.pop_back(); w.addFn(0x17, {N - 1, 5, 1}); }
  setMethod(w.s, k2); mc::op("%s", MN[k2]); Cal_BddReorder(w.s.m); w.check(MN[k2]);
  auto o = w.readOrder("end"); uint64_t h = N; for (int x : o) h = mc::mix(h, x); mc::state(h); w.s.quit();
}
// large functions, many pages, forwarding limits that are exceeded
MC_SCENARIO(large) {
  Big::N = (int)mc::P("bits", 9); auto &F = bigFamily(); int nf = (int)F.size();
  int i = mc::choose(nf), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(4); mc::shardHere();
  BigSys B; params(B.s, p == 0 ? 0 : p == 1 ? 5 : p == 2 ? 10 : 3); std::vector<Big> t; std::vector<Cal_Bdd> h;
  for (int j : {i, (i + 7) % nf}) { t.push_back(bigOf(F[j].second)); h.push_back(B.build(t.back())); }
  unsigned long before = 0;
  for (int k : {k1, k2}) {
    setMethod(B.s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(B.m());
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
    for (int x = 0; x < Big::N; x++) { Cal_Bdd v = Cal_BddManagerGetVarWithId(B.m(), x + 1); MC_CHECK(v == B.v[x] && Cal_BddManagerGetVarWithIndex(B.m(), Cal_BddGetIfIndex(B.m(), v)) == v, "variable %d inconsistent", x + 1); }
    Big w = t[0]; for (size_t z = 0; z < w.w.size(); z++) w.w[z] ^= t[1].w[z]; Cal_Bdd r = Cal_BddXor(B.m(), h[0], h[1]); B.expect(r, w, "Xor after reordering"); Cal_BddFree(B.m(), r);
    Cal_BddManagerGC(B.m()); before = Cal_BddManagerGetNumNodes(B.m());
  }
  (void)before; std::vector<Cal_Bdd> a{h[0], h[1]}; for (auto x : B.v) a.push_back(x); a.push_back(nullptr);
  unsigned long sz = (unsigned long)Cal_BddSizeMultiple(B.m(), a.data(), 1); MC_CHECK(sz == before, "%lu nodes after collection, the live BDDs have %lu", before, sz);
  for (auto x : h) Cal_BddFree(B.m(), x); Cal_BddManagerGC(B.m()); MC_CHECK(Cal_BddManagerGetNumNodes(B.m()) == (unsigned long)Big::N + 1, "%lu nodes remain", Cal_BddManagerGetNumNodes(B.m()));
  mc::state(mc::mix(mc::mix(i, k1), mc::mix(k2, p))); B.s.quit();
}
// values bound in associations are kept alive by the association alone
MC_SCENARIO(assoc_values) {
  int reg = mc::choose(3), k1 = mc::choose(4), k2 = mc::choose(5), p = mc::choose(3), hi = mc::choose(32); mc::shardHere();
  static auto ps = perms(4);
  for (TT f = hi; f < 65536; f += 32 * 61) {
    Sys s; s.initOrder(ps[(f / 61) % 24]); params(s, p * 5); TT f2 = (f * 0x9e37) >> 3 & 0xffff; TT t0 = (f / 61) % 3 ? 0x5a5a : 0x6a95; s.add(s.build(t0), t0);
    Cal_Bdd h = s.build(f), h2 = s.build(f2); Cal_Bdd a[] = {s.var[0], h, s.var[2], h2, nullptr}; int id = -1;
    if (reg == 0) Cal_TempAssociationInit(s.m, a, 1); else id = Cal_AssociationInit(s.m, a, 1);
    if (reg == 2) { Cal_Bdd b[] = {s.var[1], s.var[3], nullptr}; Cal_TempAssociationInit(s.m, b, 1); }
    mc::op("association v0->%s, v2->%s, values released", hx(f), hx(f2)); s.free(h); s.free(h2);
    TT e[6] = {f, VARTT[1], f2, VARTT[3], VARTT[4], VARTT[5]}; TT want = substTT(t0, e, 4);
    for (int r = 0; r < 2; r++) {
      int k = r ? k2 : k1; if (k == 4) break; setMethod(s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(s.m); s.orderChanged(MN[k]); s.checkLive(MN[k]);
      Cal_AssociationSetCurrent(s.m, id); Cal_Bdd x = Cal_BddSubstitute(s.m, s.slot[0].h); s.expect(x, want, "Substitute after reordering"); s.free(x);
      Cal_Bdd y = s.build(f), z = s.build(f2); Cal_Bdd w = s.build(f ^ f2), q = Cal_BddXor(s.m, y, z); MC_CHECK(w == q, "canonicity after reordering"); for (auto g : {y, z, w, q}) s.free(g);
      unsigned long n = s.gc(), need = s.expectedNodes({f, f2}); MC_CHECK(n == need, "%lu nodes after collection, but the live BDDs and associations need %lu", n, need);
    }
    s.quit();
  }
}
// functions whose size explodes or collapses when one variable is moved: sifting gives up half way and has to come back
MC_SCENARIO(sift_limits) {
  int N = Big::N = (int)mc::P("bits", 12); int pos = mc::choose(N), shape = mc::choose(7), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(5); mc::shardHere();
  static const long FW[] = {-1, 0, 3, 12, 40}; BigSys B; if (p) { Cal_BddManagerSetParameters(B.m(), -1, FW[p], -1, p & 1 ? 1.0 : 0.5); mc::op("maxForwardedNodes %ld", FW[p]); }
  auto wsum = [&](unsigned a, int skip, int lo, int hi, int step) { unsigned r = 0, w = 1; for (int i = lo; i < hi; i++) if (i != skip) { if (a >> i & 1) r += w; w += step; } return r; };
  auto f = [&](unsigned a) -> bool { bool s = a >> pos & 1; switch (shape) {
    case 0: return s ? wsum(a, pos, 0, N, 0) % 4 == 1 : wsum(a, pos, 0, N, 1) % 5 == 2;                       // two counters, chosen by one variable
    case 1: return s ? wsum(a, pos, N / 2, N, 0) % 5 == 1 : wsum(a, pos, N / 2, N, 1) % 7 == 3;                // in the lower half
    case 2: return s ? wsum(a, pos, 0, N / 2, 2) % 7 == 1 : wsum(a, pos, 0, N / 2, 1) % 5 == 3;                // in the upper half
    case 3: return (wsum(a, pos, 0, N, 1) % 9 + 3 * s) % 9 < 4;
    case 4: { unsigned k = wsum(a, pos, 0, N, 0) % 8; return (a >> ((pos + 1 + k) % N) & 1) ^ (s & (k > 3)); }
    case 5: { bool r = false; for (int i = 0; i < N / 2; i++) r ^= (a >> i & 1) && (a >> (N - 1 - i) & 1); return r ^ s; }
    default: { int i1 = (pos + N / 2) % N; unsigned k = s + 2 * (a >> i1 & 1); return wsum(a, pos, 0, N, k & 1) % (3 + k) == k; } } };
  std::vector<Big> t; std::vector<Cal_Bdd> h; t.push_back(bigOf(f)); h.push_back(B.build(t.back()));
  if (p & 1) { t.push_back(bigOf([&](unsigned a) { return ((a & 63) * 5 + (a >> 6)) % 11 < 4; })); h.push_back(B.build(t.back())); }
  for (int k : {k1, k2}) {
    Cal_BddManagerGC(B.m()); unsigned long n = Cal_BddManagerGetNumNodes(B.m());
    setMethod(B.s, k); mc::op("Cal_BddReorder (%s)", MN[k]); Cal_BddReorder(B.m()); Cal_BddManagerGC(B.m()); unsigned long m = Cal_BddManagerGetNumNodes(B.m()); mc::op("%lu -> %lu", n, m);
    (void)n;
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
    for (int x = 0; x < N; x++) { Cal_Bdd v = Cal_BddManagerGetVarWithId(B.m(), x + 1); MC_CHECK(v == B.v[x] && Cal_BddManagerGetVarWithIndex(B.m(), Cal_BddGetIfIndex(B.m(), v)) == v, "variable %d inconsistent", x + 1); }
    std::vector<Cal_Bdd> a = h; for (auto x : B.v) a.push_back(x); a.push_back(nullptr); unsigned long sz = (unsigned long)Cal_BddSizeMultiple(B.m(), a.data(), 1); MC_CHECK(sz == m, "%lu nodes after collection, the live BDDs have %lu", m, sz);
  }
  Cal_Bdd g = B.build(t[0]); MC_CHECK(g == h[0], "rebuilding the function gives another handle");
  mc::state(mc::mix(mc::mix(pos, shape), mc::mix(k1 * 4 + k2, p))); B.s.quit();
}
// moving one variable up more than doubles the size (few nodes of x below many of y that pair them up), so that sifting stops below the top
// and the levels above the stopping place refer to forwarded nodes
MC_SCENARIO(sift_stops) {
  int above = (int[]){0, 1, 2, 3, 6}[mc::choose((int)mc::P("above", 4))], below = mc::choose(2), k1 = mc::choose(4), k2 = mc::choose(4), p = mc::choose(5), fam = mc::choose(3), dead = mc::choose(5); mc::shardHere();
  static const long FW[] = {-1, 0, 3, 12, 40}; int u = above, y = above + 1, x = above + 2, z = above + 3; Big::N = above + 7 + below; int N = Big::N;
  BigSys B; if (p) { Cal_BddManagerSetParameters(B.m(), -1, FW[p], -1, p & 1 ? 1.0 : 0.5); mc::op("maxForwardedNodes %ld", FW[p]); }
  static const int TZ[8] = {0xf, 0xa, 0xc, 0xe, 0x8, 0x6, 0xd, 0xb};   // functions of two pairs of lower variables
  auto low = [&](unsigned a, int i) { return (TZ[i & 7] >> (a >> (z + (i >> 3 & 2)) & 3) & 1) ^ (i >> 3 & 1); };
  auto fx = [&](unsigned a, int i) { int m = 16 + (fam == 0 ? (i * 3 + 1) % 8 + (i & 1 ? 8 : 0) : fam == 1 ? (i + 3) % 8 + 8 : (i * 5 + 2) % 8); return a >> x & 1 ? low(a, m) : low(a, i); };
  auto fy = [&](unsigned a, int k) { int i = k % 7, j = i + 1 + (k / 7) % (7 - i); return a >> y & 1 ? fx(a, i) : fx(a, j) ^ (k >= 28); };
  std::vector<Big> t; std::vector<Cal_Bdd> h; auto add = [&](const Big &b) { Cal_Bdd r = B.build(b); for (size_t i = 0; i < h.size(); i++) if (h[i] == r) { Cal_BddFree(B.m(), r); return; } t.push_back(b); h.push_back(r); };
  for (int k = 0; k < 49; k++) add(bigOf([&](unsigned a) { return (bool)fy(a, k); }));
  for (int k = 0; k < 4; k++) add(bigOf([&](unsigned a) { return (bool)(a >> u & 1 ? fy(a, 3 * k) : fy(a, 5 * k + 7)); }));
  for (int v = 0; v < above; v++) add(bigOf([&](unsigned a) { return (bool)(a >> v & 1 ? fy(a, v + 2) : fy(a, 20 + v)); }));
  for (int v = z + 4; v < N; v++) add(bigOf([&](unsigned a) { return (bool)((a >> v & 1) & (a >> z & 1) & (a >> (v - 1) & 1)); }));
  // some functions are held only as: 1 released, not collected yet; 2, 3 values of the temporary / of a numbered association; 4 pending results of a pipeline
  std::vector<Big> held; std::vector<Cal_Bdd> pend; std::vector<Cal_Bdd> al; int assoc = -1;
  if (dead == 4) {
    Cal_PipelineInit(B.m(), CAL_XOR); for (int k = 0; k < 4; k++) { Big b = t[k * 7 + 1]; for (size_t i = 0; i < b.w.size(); i++) b.w[i] ^= t[k * 5].w[i]; held.push_back(b); pend.push_back(Cal_PipelineCreateProvisionalBdd(B.m(), h[k * 7 + 1], h[k * 5])); }
    mc::op("pipeline of 4 pending results"); Cal_PipelineExecute(B.m());
  } else if (dead) {
    for (int k = 0; k < 3; k++) { held.push_back(t[k * 5 + 1]); al.push_back(B.v[N - 1 - k]); al.push_back(h[k * 5 + 1]); } al.push_back(nullptr);
    if (dead == 2) Cal_TempAssociationInit(B.m(), al.data(), 1); if (dead == 3) assoc = Cal_AssociationInit(B.m(), al.data(), 1);
    mc::op("three functions %s", dead == 1 ? "released" : "held by an association alone"); for (int k = 2; k >= 0; k--) { size_t i = k * 5 + 1; Cal_BddFree(B.m(), h[i]); h.erase(h.begin() + i); t.erase(t.begin() + i); }
  }
  for (int r = 0; r < 2; r++) {
    int k = r ? k2 : k1; setMethod(B.s, k); mc::op("Cal_BddReorder (%s), %lu nodes", MN[k], Cal_BddManagerGetNumNodes(B.m())); Cal_BddReorder(B.m());
    for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], MN[k]);
    for (int i = 0; i < N; i++) { Cal_Bdd v = Cal_BddManagerGetVarWithId(B.m(), i + 1); MC_CHECK(v == B.v[i] && Cal_BddManagerGetVarWithIndex(B.m(), Cal_BddGetIfIndex(B.m(), v)) == v, "variable %d inconsistent", i + 1); }
    if (dead == 4 && r == 0) continue;
    if (dead == 4) { for (int i = 0; i < 4; i++) { Cal_Bdd x = Cal_PipelineUpdateProvisionalBdd(B.m(), pend[i]); B.expect(x, held[i], "result pending while reordering"); h.push_back(x); t.push_back(held[i]); } Cal_PipelineQuit(B.m()); }
    std::vector<Cal_Bdd> a = h; if (dead == 2 || dead == 3) { Cal_AssociationSetCurrent(B.m(), assoc); for (int i = 0; i < 3; i++) { Cal_Bdd x = Cal_BddSubstitute(B.m(), al[2 * i]); B.expect(x, held[i], "value of the association"); a.push_back(x); } }
    size_t na = a.size(); for (auto w : B.v) a.push_back(w); a.push_back(nullptr); unsigned long sz = (unsigned long)Cal_BddSizeMultiple(B.m(), a.data(), 1);
    for (size_t i = h.size(); i < na; i++) Cal_BddFree(B.m(), a[i]);
    Cal_BddManagerGC(B.m()); unsigned long m = Cal_BddManagerGetNumNodes(B.m()); MC_CHECK(sz == m, "%lu nodes after collection, the live BDDs have %lu", m, sz);
  }
  for (size_t j = 0; j < h.size(); j += 3) { Cal_Bdd g = B.build(t[j]); MC_CHECK(g == h[j], "rebuilding the function gives another handle"); }
  mc::state(mc::mix(mc::mix(above * 4 + below, fam * 5 + dead), mc::mix(k1 * 4 + k2, p))); B.s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

// Canonicity (C02) and reference counting / garbage collection (C08).
#include "gops.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static std::vector<std::vector<int>> &p4() { static auto p = perms(4); return p; }
struct Method { const char *name; int technique, method; };
static const Method METHODS[] = {{"BF sift", CAL_REORDER_SIFT, CAL_REORDER_METHOD_BF}, {"BF window", CAL_REORDER_WINDOW, CAL_REORDER_METHOD_BF}, {"DF sift", CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF}, {"DF window", CAL_REORDER_WINDOW, CAL_REORDER_METHOD_DF}};
static void reorder(Sys &s, int k) { mc::op("Cal_BddReorder (%s)", METHODS[k].name); Cal_BddDynamicReordering(s.m, METHODS[k].technique, METHODS[k].method); Cal_BddReorder(s.m); s.orderChanged(METHODS[k].name); }

// ---------------------------------------------------------------- ways of building one function
static const int WAYS = 9;
static const char *WAY[WAYS] = {"ITE, top down", "ITE, against the order", "OR of minterms", "AND of maxterms", "XOR of monomials", "complement of complement", "multiway OR of cubes", "composition", "shannon with AND/OR"};
static Cal_Bdd way(Sys &s, TT t, int w) {
  int n = s.n; t &= full(n); auto m = s.m;
  auto lit = [&](int v, bool pos) { return pos ? Cal_BddIdentity(m, s.var[v]) : Cal_BddNot(m, s.var[v]); };
  auto acc = [&](Cal_Bdd &r, Cal_Bdd x, int op) { Cal_Bdd q = op == 0 ? Cal_BddAnd(m, r, x) : op == 1 ? Cal_BddOr(m, r, x) : Cal_BddXor(m, r, x); Cal_BddFree(m, r); Cal_BddFree(m, x); r = q; };
  switch (w) {
  case 0: return s.mk(t);
  case 1: {  // if-then-else on the variables from bottom to top
    std::function<Cal_Bdd(TT, int)> rec = [&](TT u, int l) -> Cal_Bdd { u &= full(n); if (!u) return Cal_BddZero(m); if (u == full(n)) return Cal_BddOne(m);
      while (!depends(u, s.order[l])) l--; int v = s.order[l]; Cal_Bdd a = rec(cof(u, v, 1), l - 1), b = rec(cof(u, v, 0), l - 1), r = Cal_BddITE(m, s.var[v], a, b); Cal_BddFree(m, a); Cal_BddFree(m, b); return r; };
    return rec(t, n - 1); }
  case 2: { Cal_Bdd r = Cal_BddZero(m); for (int a = 0; a < 1 << n; a++) if (t >> a & 1) { Cal_Bdd c = Cal_BddOne(m); for (int v = 0; v < n; v++) acc(c, lit(v, a >> v & 1), 0); acc(r, c, 1); } return r; }
  case 3: { Cal_Bdd r = Cal_BddOne(m); for (int a = 0; a < 1 << n; a++) if (!(t >> a & 1)) { Cal_Bdd c = Cal_BddZero(m); for (int v = 0; v < n; v++) acc(c, lit(v, !(a >> v & 1)), 1); acc(r, c, 0); } return r; }
  case 4: { TT c = t; for (int v = 0; v < n; v++) for (int a = 0; a < 1 << n; a++) if (a >> v & 1) c ^= (c >> (a ^ 1 << v) & 1) << a;
    Cal_Bdd r = Cal_BddZero(m); for (int a = 0; a < 1 << n; a++) if (c >> a & 1) { Cal_Bdd k = Cal_BddOne(m); for (int v = 0; v < n; v++) if (a >> v & 1) acc(k, lit(v, true), 0); acc(r, k, 2); } return r; }
  case 5: { Cal_Bdd x = s.mk(~t), r = Cal_BddNot(m, x); Cal_BddFree(m, x); return r; }
  case 6: { std::vector<Cal_Bdd> cs; for (int a = 0; a < 1 << n; a++) if (t >> a & 1) { std::vector<Cal_Bdd> l; for (int v = 0; v < n; v++) l.push_back(lit(v, a >> v & 1)); l.push_back(nullptr); cs.push_back(Cal_BddMultiwayAnd(m, l.data())); l.pop_back(); for (auto x : l) Cal_BddFree(m, x); }
    if (cs.empty()) return Cal_BddZero(m); cs.push_back(nullptr); Cal_Bdd r = Cal_BddMultiwayOr(m, cs.data()); cs.pop_back(); for (auto x : cs) Cal_BddFree(m, x); return r; }
  case 7: { // t = u with v0 replaced by its complement
    TT u = 0; for (int a = 0; a < 1 << n; a++) u |= (t >> (a ^ 1) & 1) << a; Cal_Bdd x = s.mk(u), nv = Cal_BddNot(m, s.var[0]), r = Cal_BddCompose(m, x, s.var[0], nv); Cal_BddFree(m, x); Cal_BddFree(m, nv); return r; }
  default: { Cal_Bdd a = s.mk(cof(t, 1, 1)), b = s.mk(cof(t, 1, 0)), x = Cal_BddAnd(m, s.var[1], a), nv = Cal_BddNot(m, s.var[1]), y = Cal_BddAnd(m, b, nv), r = Cal_BddOr(m, y, x); for (auto q : {a, b, x, nv, y}) Cal_BddFree(m, q); return r; }
  }
}
static void same(Sys &s, Cal_Bdd a, Cal_Bdd b, const char *w) { MC_CHECK(a == b && Cal_BddIsEqual(s.m, a, b) == 1, "%s: equal functions (%s, %s), different handles", w, hx(s.eval(a)), hx(s.eval(b))); }

// all functions of 3 variables, every way of building them, with something happening between the first and the second
MC_SCENARIO(ways3) {
  int o = mc::choose(6), ev = mc::choose(12), w1 = mc::choose(WAYS); mc::shardHere();
  Sys s; s.initOrder(p3()[o]); s.add(s.build(0xe8), 0xe8);
  for (TT t = 0; t < 256; t++) {
    Cal_Bdd a = way(s, t, w1); s.expect(a, t, WAY[w1]); mc::ops(1);
    // the event happens once in a while: its effect on the table persists
    if (t % 61 == 7) { if (ev == 1 || ev == 2) s.gc(); if (ev >= 3 && ev < 7) reorder(s, ev - 3); if (ev == 7) s.newDummy(Sys::FIRST); if (ev == 8) s.newDummy(Sys::AFTER, (int)(t % 3)); if (ev == 9) { s.newDummy(Sys::BEFORE, 2); s.gc(); } }
    if (ev == 10) { Cal_BddManagerSetParameters(s.m, -1, -1, 2.0, 0.9); s.m->gcCheck = 0; s.m->uniqueTableGCLimit = 0; }
    if (ev == 11) { s.m->gcCheck = (int)(t & 1); s.m->uniqueTableGCLimit = 0; Cal_BddManagerSetParameters(s.m, 0, -1, 0, 0.9); Cal_BddDynamicReordering(s.m, METHODS[t & 3].technique, METHODS[t & 3].method); }
    for (int w2 = 0; w2 < WAYS; w2++) { if (ev == 2 && w2 % 3 == 0 && t % 16 == 3) s.gc(); Cal_Bdd b = way(s, t, w2); mc::ops(1); same(s, a, b, WAY[w2]); Cal_BddFree(s.m, b);
      b = way(s, t ^ 0x18, w2); MC_CHECK(b != a && !Cal_BddIsEqual(s.m, a, b), "different functions, equal handles"); Cal_BddFree(s.m, b); if (ev == 11) s.orderChanged("auto"); }
    Cal_BddFree(s.m, a);
    if (t % 16 == 0) { s.m->gcCheck = 100000; s.orderChanged(WAY[w1]); s.checkLive("ways3"); }
  }
  s.m->gcCheck = 100000; s.orderChanged("end"); unsigned long g = s.gc(), e = s.expectedNodes(); MC_CHECK(g == e, "%lu nodes after collection, but the live BDDs need %lu", g, e); s.quit();
}
// functions of 4 variables
MC_SCENARIO(ways4) {
  int o = (mc::choose(3) * 11) % 24, hi = mc::choose(64); mc::shardHere(); long stride = mc::P("stride", 16);
  Sys s; s.initOrder(p4()[o]);
  for (TT t = hi; t < 65536; t += 64 * stride) {
    Cal_Bdd a = s.mk(t); s.expect(a, t, "ITE"); for (int w = 1; w < WAYS; w++) { Cal_Bdd b = way(s, t, w); mc::ops(1); same(s, a, b, WAY[w]); Cal_BddFree(s.m, b); } Cal_BddFree(s.m, a);
    if (t / 64 % 8 == 0) s.gc();   // dead parents would saturate counters
  }
  s.checkLive("ways4"); unsigned long g = s.gc(); MC_CHECK(g == s.expectedNodes(), "%lu nodes after collection, %lu needed", g, s.expectedNodes()); s.quit();
}
// histories of operations, frees, collections, reorderings, variable creations; then every live function is rebuilt another way
MC_SCENARIO(canon_histories) {
  int o = mc::choose(2) * 3; Sys s; s.initOrder(p3()[o]); for (TT t : {0xe8, 0x96, 0x1d}) s.add(s.build(t), t);
  int depth = (int)mc::P("depth", 4), n0 = 3;
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(16), k = (int)s.slot.size(); auto last = s.slot[k - 1], prev = s.slot[(k + d) % (k - 1)];
    auto live = [&](Sys::Slot &x) { if (!x.h) throw mc::Prune(); };
    switch (e) {
      case 0: live(last); live(prev); s.add(Cal_BddAnd(s.m, last.h, prev.h), last.t & prev.t); mc::op("And"); break;
      case 1: live(last); live(prev); s.add(Cal_BddXor(s.m, last.h, prev.h), last.t ^ prev.t); mc::op("Xor"); break;
      case 2: live(last); live(prev); s.add(Cal_BddITE(s.m, prev.h, last.h, s.var[2]), ite(prev.t, last.t, VARTT[2])); mc::op("ITE"); break;
      case 3: live(last); s.add(Cal_BddNot(s.m, last.h), ~last.t); mc::op("Not"); break;
      case 4: live(last); live(prev); s.add(Cal_BddCompose(s.m, prev.h, s.var[1], last.h), composeTT(prev.t, 1, last.t)); mc::op("Compose"); break;
      case 5: live(last); s.free(last.h); s.slot[k - 1].h = 0; mc::op("Free(last)"); break;
      case 6: live(s.slot[0]); s.free(s.slot[0].h); s.slot[0].h = 0; mc::op("Free(first)"); break;
      case 7: { unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "%lu nodes after collection, %lu needed", g, x); break; }
      case 8: case 9: case 10: case 11: reorder(s, e - 8); break;
      case 12: if (s.n > 4) throw mc::Prune(); s.newFirst(); break;
      case 13: if (s.n > 4) throw mc::Prune(); s.newAfter(1); break;
      case 14: { auto v = way(s, 0x1ee8, 4); TT t = 0x1ee8 & full(s.n); if (s.n == 3) t = 0xe8; s.add(v, t); mc::op("monomials"); break; }
      case 15: s.newDummy(Sys::BEFORE, 0); break;
    }
    // tables over more variables: extend the models
    if (s.n > n0) { for (auto &x : s.slot) x.t |= x.t << (1 << n0); n0 = s.n; }
    s.checkLive("canon"); s.checkOrder("canon"); mc::state(s.hash());
  }
  for (auto &x : s.slot) if (x.h) for (int w = 0; w < WAYS; w++) { Cal_Bdd b = way(s, x.t, w); same(s, x.h, b, WAY[w]); Cal_BddFree(s.m, b); }
  s.quit();
}
// large functions built bottom-up, rebuilt after dropping and table growth
MC_SCENARIO(canon_large) {
  Big::N = (int)mc::P("bits", 12); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), ev = mc::choose(4); mc::shardHere();
  BigSys B; Big t = bigOf(F[i].second), u = bigOf(F[(i + 5) % nf].second); Cal_Bdd a = B.build(t), b = B.build(u); mc::ops(2); B.expect(a, t, "build");
  if (ev == 1) Cal_BddManagerGC(B.m()); if (ev == 2) { Cal_BddFree(B.m(), b); Cal_BddManagerGC(B.m()); b = B.build(u); } if (ev == 3) { Cal_BddDynamicReordering(B.m(), CAL_REORDER_SIFT, i & 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(B.m()); }
  Cal_Bdd a2 = B.build(t); MC_CHECK(a2 == a, "rebuilding %s gave another handle", F[i].first); Cal_BddFree(B.m(), a2);
  Cal_Bdd x = Cal_BddXor(B.m(), a, b), y = Cal_BddXor(B.m(), x, b), na = Cal_BddNot(B.m(), a), y2 = Cal_BddXnor(B.m(), x, b); mc::ops(4);
  MC_CHECK(y == a && y2 == na, "xor twice is not the identity"); B.expect(y, t, "a^b^b");
  for (auto h : {x, y, na, y2, a, b}) Cal_BddFree(B.m(), h); Cal_BddManagerGC(B.m()); MC_CHECK(Cal_BddManagerGetNumNodes(B.m()) == (unsigned)Big::N + 1, "nodes left after freeing everything"); B.s.quit();
}

// ================================================================ C08
// every operation: exact node accounting after its results are used and freed
MC_SCENARIO(everyop) {
  int o = mc::choose(3) * 2, reg = mc::choose(2), gi = mc::choose((int)gops().size()), mode = mc::choose(3); auto &g = gops()[gi]; mc::shardHere();
  static const TT fam[] = {0x00, 0xff, 0xaa, 0x33, 0xe8, 0x96, 0x1d, 0x80, 0x7f, 0x4c, 0xf1, 0x3a}; int F = 12;
  GSys s; s.setup(p3()[o], reg, std::vector<TT>(fam, fam + F)); disarm(s);
  int total = 1; for (int i = 0; i < g.nb; i++) total *= F;
  unsigned long base = s.expectedNodes(); { auto g0 = s.gc(); MC_CHECK(g0 == base, "%lu nodes before, %lu needed", g0, base); }
  for (int q = 0; q < total; q++) {
    int idx[3] = {q % F, q / F % F, q / F / F}; TT t[3]; Cal_Bdd a[3]; for (int i = 0; i < g.nb; i++) { t[i] = fam[idx[i]]; a[i] = s.slot[idx[i]].h; }
    if (!g.pre(s, t)) continue;
    auto r = s.apply(g, idx, true);
    if (mode == 0) { unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%s(%s,%s,%s): %lu nodes after collection while the result is live, %lu needed", g.name, hx(t[0]), hx(t[1]), hx(t[2]), n, e); s.checkLive(g.name); }
    if (mode == 1) { auto r2 = s.apply(g, idx, true); s.gc(); s.checkLive(g.name); }
    while ((int)s.slot.size() > F) { s.free(s.slot.back().h); s.slot.pop_back(); }
    if (mode != 2 || q % 17 == 0) { unsigned long n = s.gc(); MC_CHECK(n == base, "%s(%s,%s,%s): %lu nodes after freeing the result and collecting, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", n, base); }
  }
  s.checkLive("everyop"); s.quit();
}
// the same with nothing but the operands alive, so that no result shares nodes with a bystander; the operation is repeated while its results
// are alive (found nodes) and after they died but before they were collected (revived nodes)
MC_SCENARIO(everyop_lean) {
  int o = mc::choose(6), reg = mc::choose(2), gi = mc::choose((int)gops().size()), mode = mc::choose(3); auto &g = gops()[gi]; mc::shardHere();
  static const TT fam2[] = {0x33, 0xe8, 0x96, 0x1d, 0x80, 0x4c, 0xf1, 0x3a, 0x0f, 0x55, 0x28, 0x00}, fam3[] = {0xe8, 0x33, 0x1d, 0x96, 0x80}; int F = g.nb == 1 ? 256 : g.nb == 2 ? 12 : 5;
  GSys s; s.setup(p3()[o], reg, {}); disarm(s); unsigned long base = s.gc(); MC_CHECK(base == s.expectedNodes(), "%lu nodes", base);
  int total = 1; for (int i = 0; i < g.nb; i++) total *= F;
  for (int q = 0; q < total; q++) {
    int idx[3] = {0, 1, 2}; TT t[3]; for (int i = 0, x = q; i < g.nb; i++, x /= F) t[i] = g.nb == 1 ? x % F : g.nb == 2 ? fam2[x % F] : fam3[x % F];
    if (!g.pre(s, t)) continue;
    for (int i = 0; i < g.nb; i++) s.add(s.mk(t[i]), t[i]); s.gc();
    s.apply(g, idx, true); size_t k = s.slot.size();
    if (mode == 1) { while (s.slot.size() > (size_t)g.nb) { s.free(s.slot.back().h); s.slot.pop_back(); } }   // dead, not collected
    if (mode == 2) s.gc();
    s.apply(g, idx, true); s.apply(g, idx, true); (void)k;
    { unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%s(%s,%s,%s) three times: %lu nodes after collection while the results are live, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", n, e); s.checkLive(g.name); }
    while (!s.slot.empty()) { s.free(s.slot.back().h); s.slot.pop_back(); }
    unsigned long n = s.gc(); MC_CHECK(n == base, "%s(%s,%s,%s) three times: %lu nodes after freeing everything and collecting, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", n, base);
  }
  s.quit();
}
// operands and results released one after the other, in an order that depends on q, with a collection in between
static void oneByOne(GSys &s, const GOp &g, int q) {
  if (s.slot.size() < 2 || q % 5 == 4) return;
  for (int k = 0; k < (q % 5 < 3 ? 1 : 2) && s.slot.size() > 1; k++) {
    size_t i = q % 5 == 0 || q % 5 == 3 ? s.slot.size() - 1 : q % 5 == 1 ? 0 : (size_t)q / 5 % s.slot.size(); s.free(s.slot[i].h); s.slot.erase(s.slot.begin() + i);
    unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%s: %lu nodes after one of the operands and results was released and collected, %lu needed", g.name, n, e); s.checkLive(g.name);
  }
}
// four variables: every one-operand operation and every exchange of two variables on every stride-th function, the others on families; results
// counted while they live and after they are released
MC_SCENARIO(everyop4) {
  static std::vector<GOp> X; static int b; static const char *NM[12] = {"SwapVars v0,v1", "SwapVars v0,v2", "SwapVars v0,v3", "SwapVars v1,v0", "SwapVars v1,v2", "SwapVars v1,v3", "SwapVars v2,v0", "SwapVars v2,v1", "SwapVars v2,v3", "SwapVars v3,v0", "SwapVars v3,v1", "SwapVars v3,v2"};
  if (X.empty()) {
    X = gops(); b = (int)X.size();
    for (int i = 0; i < 12; i++) { int v = i / 3, w = i % 3 + (i % 3 >= v); GOp g; g.name = NM[i]; g.nb = 1; g.assoc = false; g.run = [v, w](Sys &s, Cal_Bdd *a) -> Hs { return {Cal_BddSwapVars(s.m, a[0], s.var[v], s.var[w])}; };
      g.ok = [v, w](const Sys &s, const TT *a, const Ts &r) { return r.size() == 1 && r[0] == (swapTT(a[0], v, w, s.n) & full(s.n)); }; g.pre = GANY; X.push_back(g); }
    for (int v = 0; v < 4; v++) { GOp g; g.name = v == 0 ? "Compose v0" : v == 1 ? "Compose v1" : v == 2 ? "Compose v2" : "Compose v3"; g.nb = 2; g.assoc = false; g.run = [v](Sys &s, Cal_Bdd *a) -> Hs { return {Cal_BddCompose(s.m, a[0], s.var[v], a[1])}; };
      g.ok = [v](const Sys &s, const TT *a, const Ts &r) { return r.size() == 1 && r[0] == (composeTT(a[0], v, a[1]) & full(s.n)); }; g.pre = GANY; X.push_back(g); }
  }
  int orders = (int)mc::P("orders", 8), o = mc::choose(orders), stride = (int)mc::P("stride", 16), gi = mc::choose((int)X.size()); auto &g = X[gi]; mc::shardHere();
  static const TT fam2[] = {0x3333, 0xe8e8, 0x6996, 0x1d3a, 0x8000, 0x4cf1, 0xfee8, 0x7180, 0x00ff, 0x55aa, 0x2814, 0x0001, 0x1ee8, 0xcafe}, fam3[] = {0xe8f0, 0x3c3c, 0x1d72, 0x6996, 0x8001};
  int F = g.nb == 1 ? 65536 / stride : g.nb == 2 ? 14 : 5;
  GSys s; s.setup(p4()[(o * 23 / (orders > 1 ? orders - 1 : 1)) % 24], o & 1, {}); disarm(s); unsigned long base = s.gc(); MC_CHECK(base == s.expectedNodes(), "%lu nodes", base);
  int total = 1; for (int i = 0; i < g.nb; i++) total *= F;
  for (int q = 0; q < total; q++) {
    int idx[3] = {0, 1, 2}; TT t[3]; for (int i = 0, x = q; i < g.nb; i++, x /= F) t[i] = g.nb == 1 ? (TT)(x % F) * stride + (x * 7 + o) % stride : g.nb == 2 ? fam2[x % F] : fam3[x % F];
    if (!g.pre(s, t)) continue;
    for (int i = 0; i < g.nb; i++) s.add(s.mk(t[i]), t[i]);
    s.apply(g, idx, true);
    if (q & 1) { unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%s(%s,%s,%s): %lu nodes after collection while the result is live, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", n, e); s.checkLive(g.name); }
    oneByOne(s, g, q);
    while (!s.slot.empty()) { s.free(s.slot.back().h); s.slot.pop_back(); }
    unsigned long n = s.gc(); MC_CHECK(n == base, "%s(%s,%s,%s): %lu nodes after freeing everything and collecting, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", n, base);
  }
  s.quit();
}
// five variables: functions whose cofactors by the upper three are each one of four functions of the lower two; the inner requests of an
// operation then have two further levels below them, so a reference that is missing below them is seen
MC_SCENARIO(everyop5) {
  static std::vector<GOp> X; static std::vector<std::string> NM; int n = 5;
  if (X.empty()) {
    NM.reserve(64); auto name = [&](std::string q) { NM.push_back(q); return NM.back().c_str(); };
    for (int v = 0; v < n; v++) for (int w = v + 1; w < n; w++) { GOp g; g.name = name("SwapVars v" + std::to_string(v) + ",v" + std::to_string(w)); g.nb = 1; g.assoc = false; g.pre = GANY; g.run = [v, w](Sys &s, Cal_Bdd *a) -> Hs { return {v + w & 1 ? Cal_BddSwapVars(s.m, a[0], s.var[v], s.var[w]) : Cal_BddSwapVars(s.m, a[0], s.var[w], s.var[v])}; };
      g.ok = [v, w](const Sys &s, const TT *a, const Ts &r) { return r.size() == 1 && r[0] == (swapTT(a[0], v, w, s.n) & full(s.n)); }; X.push_back(g); }
    for (int v = 0; v < n; v++) { GOp g; g.name = name("Compose v" + std::to_string(v)); g.nb = 2; g.assoc = false; g.pre = GANY; g.run = [v](Sys &s, Cal_Bdd *a) -> Hs { return {Cal_BddCompose(s.m, a[0], s.var[v], a[1])}; };
      g.ok = [v](const Sys &s, const TT *a, const Ts &r) { return r.size() == 1 && r[0] == (composeTT(a[0], v, a[1]) & full(s.n)); }; X.push_back(g); }
    for (auto &g : gops()) if (std::string(g.name).find("SwapVars") == std::string::npos && std::string(g.name).find("Compose v") == std::string::npos) X.push_back(g);
  }
  int orders = (int)mc::P("orders", 6), o = mc::choose(orders), stride = (int)mc::P("stride", 64), gi = mc::choose((int)X.size()); auto &g = X[gi]; mc::shardHere();
  static const std::vector<int> PS[] = {{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {0, 2, 4, 1, 3}, {3, 0, 4, 2, 1}, {1, 4, 0, 3, 2}, {2, 3, 1, 4, 0}};
  GSys s; s.setup(PS[o % 6], o & 1, {}); disarm(s); unsigned long base = s.gc(); MC_CHECK(base == s.expectedNodes(), "%lu nodes", base);
  auto fun = [&](unsigned code) { TT lo[4], t = 0, A = VARTT[s.order[3]], B = VARTT[s.order[4]]; lo[0] = 0; lo[1] = A & B; lo[2] = A ^ B; lo[3] = ~A | B; bool neg = code >> 16 & 1;
    for (int q = 0; q < 8; q++) { TT cube = ~0ull; for (int i = 0; i < 3; i++) { TT x = VARTT[s.order[i]]; cube &= q >> i & 1 ? x : ~x; } t |= cube & lo[code >> (2 * q) & 3]; } return (neg ? ~t : t) & full(n); };
  auto code = [](unsigned x) { x *= 2654435761u; x ^= x >> 15; return x & 0x1ffff; };
  int F = g.nb == 1 ? 65536 / stride : g.nb == 2 ? (int)mc::P("f2", 16) : (int)mc::P("f3", 6), total = 1; for (int i = 0; i < g.nb; i++) total *= F;
  for (int q = 0; q < total; q++) {
    int idx[3] = {0, 1, 2}; TT t[3]; for (int i = 0, x = q; i < g.nb; i++, x /= F) t[i] = fun(g.nb == 1 ? (unsigned)(x * stride + (x * 7 + o) % stride) | (x & 1) << 16 : code(x % F * 3 + i + o * 64)); if (!g.pre(s, t)) continue;
    for (int i = 0; i < g.nb; i++) s.add(s.mk(t[i]), t[i]);
    s.apply(g, idx, true);
    if (q & 1) { unsigned long k = s.gc(), e = s.expectedNodes(); MC_CHECK(k == e, "%s(%s,%s,%s): %lu nodes after collection while the result is live, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", k, e); s.checkLive(g.name); }
    oneByOne(s, g, q);
    while (!s.slot.empty()) { s.free(s.slot.back().h); s.slot.pop_back(); }
    unsigned long k = s.gc(); MC_CHECK(k == base, "%s(%s,%s,%s): %lu nodes after freeing everything and collecting, %lu needed", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", k, base);
  }
  s.quit();
}
// histories: reference counts of each slot are part of the model
MC_SCENARIO(ref_histories) {
  int o = mc::choose(2) * 5; GSys s; s.setup(p3()[o], mc::choose(2), {0xe8, 0x96}); disarm(s); std::vector<int> cnt(2, 1);
  int depth = (int)mc::P("depth", 5); static const int alpha[] = {0, 4, 8, 15, 18, 20, 6, 34};
  unsigned long n; 
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(15), k = (int)s.slot.size();
    auto liveIdx = [&](int from) { for (int i = 0; i < k; i++) { int j = ((from - i) % k + k) % k; if (s.slot[j].h) return j; } throw mc::Prune(); };
    if (e < 8) { auto &g = gops()[alpha[e]]; int a = liveIdx(k - 1), b = liveIdx(d); int idx[3] = {a, b, a}; TT t[3] = {s.slot[a].t, s.slot[b].t, s.slot[a].t}; if (!g.pre(s, t)) throw mc::Prune(); s.apply(g, idx, true); cnt.resize(s.slot.size(), 1); }
    else if (e == 8 || e == 9) { int i = liveIdx(e == 8 ? k - 1 : 0); Cal_BddFree(s.m, s.slot[i].h); mc::op("Cal_BddFree(%s)", hx(s.slot[i].t)); if (--cnt[i] == 0) s.slot[i].h = 0; }
    else if (e == 10 || e == 11) { int i = liveIdx(e == 10 ? k - 1 : 0); Cal_BddUnFree(s.m, s.slot[i].h); mc::op("Cal_BddUnFree(%s)", hx(s.slot[i].t)); cnt[i]++; }
    else if (e == 12) { n = s.gc(); unsigned long x = s.expectedNodes(); MC_CHECK(n == x, "%lu nodes after collection, but the live BDDs need %lu", n, x); }
    else if (e == 13) { int i = liveIdx(k - 1); Cal_Bdd c = Cal_BddIdentity(s.m, s.slot[i].h); MC_CHECK(c == s.slot[i].h, "Identity gave another handle"); mc::op("Identity"); cnt[i]++; }
    else { reorder(s, d & 3); }
    s.checkLive("ref"); mc::state(s.hash());
  }
  n = s.gc(); unsigned long x = s.expectedNodes(); MC_CHECK(n == x, "%lu nodes after collection, but the live BDDs need %lu", n, x); s.checkLive("end");
  for (size_t i = 0; i < s.slot.size(); i++) if (s.slot[i].h) { while (cnt[i]-- > 0) { s.expect(s.slot[i].h, s.slot[i].t, "handle"); Cal_BddFree(s.m, s.slot[i].h); if (cnt[i] == 1) { s.gc(); s.expect(s.slot[i].h, s.slot[i].t, "handle with one reference left"); } } s.slot[i].h = 0; }
  n = s.gc(); x = s.expectedNodes(); MC_CHECK(n == x, "%lu nodes after freeing everything, %lu needed", n, x); s.quit();
}
// counters around their maximum: references to a handle
MC_SCENARIO(saturate_handle) {
  static const int ks[] = {1, 2, 126, 127, 128, 252, 253, 254, 255, 256, 257, 300, 511, 512, 600}; int k = ks[mc::choose(15)], how = mc::choose(3), fi = mc::choose(5), back = mc::choose(6), gcs = mc::choose(3); mc::shardHere();
  static const TT fam[] = {0xe8, 0xaa, 0x17, 0x80, 0x55}; TT t = fam[fi];
  Sys s; s.initOrder({0, 1, 2}); s.add(s.build(0x96), 0x96); Cal_Bdd h = s.build(t); mc::op("%d references to %s (%s)", k, hx(t), how == 0 ? "UnFree" : how == 1 ? "Identity" : "by recomputing");
  for (int i = 1; i < k; i++) { if (how == 0) Cal_BddUnFree(s.m, h); else { Cal_Bdd x = how == 1 ? Cal_BddIdentity(s.m, h) : s.mk(t); MC_CHECK(x == h, "another handle"); } }
  mc::ops(k);
  int drop = back == 0 ? 0 : back == 1 ? 1 : back == 2 ? k / 2 : back == 3 ? k - 2 : back == 4 ? k - 1 : k; if (drop < 0) throw mc::Prune();
  for (int i = 0; i < drop; i++) { Cal_BddFree(s.m, h); if (i + 1 < drop && (gcs == 1 ? i % 100 == 3 : gcs == 2 && i + 3 > drop)) { Cal_BddManagerGC(s.m); s.expect(h, t, "handle with references left"); } }
  mc::ops(drop); unsigned long n = s.gc(), with, without = s.expectedNodes(); s.add(h, t); with = s.expectedNodes();
  bool isVar = t == 0xaa || t == 0x55;
  if (drop < k) { s.expect(h, t, "handle with references left"); MC_CHECK(n == with, "%lu nodes after collection, %lu needed", n, with); s.checkLive("saturate"); Cal_Bdd x = s.mk(t); MC_CHECK(x == h, "rebuilding gave another handle"); }
  else if (k < 255 && !isVar) MC_CHECK(n == without, "%d references taken and given back: %lu nodes after collection, %lu needed", k, n, without);
  else MC_CHECK(n == with || n == without, "%lu nodes after collection, expected %lu or %lu", n, with, without);
  s.slot.back().h = 0; s.checkLive("end"); s.quit();
}
// counters around their maximum: parents of an internal node, in managers with many variables
MC_SCENARIO(saturate_node) {
  static const int ks[] = {100, 252, 253, 254, 255, 256, 257, 258, 300, 520}; int k = ks[mc::choose((int)mc::P("ks", 10))], half = mc::choose(3), pol = mc::choose(3), maint = mc::choose(6); mc::shardHere();
  Sys s; s.init(); int N = k + 3; std::vector<Cal_Bdd> v; for (int i = 0; i < N; i++) v.push_back(Cal_BddManagerCreateNewVarLast(s.m));
  for (int i = 1; i <= N; i++) idBit[i] = -1; s.n = 4;
  // g over the last three variables, shared by k parents x_i op g
  Cal_Bdd a = Cal_BddAnd(s.m, v[N - 3], v[N - 2]), g = Cal_BddXor(s.m, a, v[N - 1]); Cal_BddFree(s.m, a); TT gt = (VARTT[0] & VARTT[1]) ^ VARTT[2];
  auto evalAt = [&](Cal_Bdd h, int xi) { idBit[N - 2] = 0; idBit[N - 1] = 1; idBit[N] = 2; if (xi >= 0) idBit[xi + 1] = 3; s.n = 4; TT t = s.eval(h); if (xi >= 0) idBit[xi + 1] = -1; return t; };
  std::vector<Cal_Bdd> P(k); mc::op("%d parents of one node", k);
  auto want = [&](int i) { bool neg = pol == 1 || (pol == 2 && (i & 1)); return (neg ? ~(VARTT[3] & ~gt) : VARTT[3] & gt) & 0xffff; };
  auto make = [&](int i) { bool neg = pol == 1 || (pol == 2 && (i & 1)); if (!neg) return Cal_BddAnd(s.m, v[i], g); Cal_Bdd ng = Cal_BddNot(s.m, g), r = Cal_BddNand(s.m, v[i], ng); Cal_BddFree(s.m, ng); return r; };
  for (int i = 0; i < k; i++) P[i] = make(i); mc::ops(k);
  auto doMaint = [&] { if (maint == 1) Cal_BddManagerGC(s.m); if (maint >= 2) { auto &M = METHODS[maint - 2]; if ((M.technique == CAL_REORDER_SIFT && k > 300)) return; Cal_BddDynamicReordering(s.m, M.technique, M.method); Cal_BddReorder(s.m); } };
  doMaint(); for (int i = 0; i < k; i += 7) { TT t = evalAt(P[i], i); MC_CHECK(t == want(i), "parent %d denotes %s, expected %s", i, hx(t), hx(want(i))); }
  if (half != 1) { Cal_BddFree(s.m, g); g = 0; }
  int keep = half == 2 ? 0 : half == 0 ? 1 : k / 2;
  for (int i = k - 1; i >= keep; i--) { Cal_BddFree(s.m, P[i]); if (i % 50 == 0) Cal_BddManagerGC(s.m); }
  Cal_BddManagerGC(s.m); doMaint(); Cal_BddManagerGC(s.m);
  for (int i = 0; i < keep; i++) { TT t = evalAt(P[i], i); MC_CHECK(t == want(i), "parent %d denotes %s, expected %s", i, hx(t), hx(want(i))); }
  if (g) { TT t = evalAt(g, -1); MC_CHECK(t == (gt & 0xffff), "shared function denotes %s", hx(t)); }
  long n = (long)Cal_BddManagerGetNumNodes(s.m), base = N + 1;
  // g needs up to 3 nodes beyond the variables, each parent one more
  if (maint < 2) { long gn = 2 , need = base + keep + ((keep || g) ? gn : 0);   // g = v1?(v2 xor v3):v3 -> nodes: top and the xor below; v3 is a variable
    if (k < 250) MC_CHECK(n == need, "%ld nodes after collection, %ld needed", n, need); else MC_CHECK(n >= need && n <= need + gn + 2, "%ld nodes after collection, %ld needed", n, need); }
  else if (k >= 250 || !(keep || g)) MC_CHECK(n <= base + keep * 8 + 20, "%ld nodes after collection", n);
  for (int i = 0; i < keep; i++) Cal_BddFree(s.m, P[i]); if (g) Cal_BddFree(s.m, g);
  Cal_BddManagerGC(s.m); n = (long)Cal_BddManagerGetNumNodes(s.m); MC_CHECK(k < 250 ? n == base : n <= base + 8, "%ld nodes after everything was freed, %ld needed", n, base); s.quit();
}
// counters around their maximum: one operation that adds many references at once to a node that has many already
MC_SCENARIO(saturate_bulk) {
  static const int C[] = {0, 1, 60, 127, 128, 129, 190, 250}; int op = mc::choose(12), k0 = C[mc::choose(8)], k = C[1 + mc::choose(7)], first = mc::choose(2); mc::shardHere(); int maint = (int)mc::P("maint", 1) ? (op + k0 + k + first) % 6 : 0;
  // bits: 0..7 select, 8 splits, 9..11 carry the leaves, 12 is what the operations act on
  Big::N = 13; BigSys B; auto m = B.m(); Sys &s = B.s; static const unsigned X = 0x96;
  auto low = [](unsigned a) { return a >> 9 & 7; }; auto sel = [](unsigned a) { return (int)(a & 255); }; auto sp = [](unsigned a) { return (int)(a >> 8 & 1); }; auto w = [](unsigned a) { return (int)(a >> 12 & 1); };
  // leaves: R is the function all the references go to; y is what the operand has in its place
  auto fnAt = [&](unsigned t, unsigned a) { return (t >> low(a) & 1) != 0; }; unsigned R = X & 0xff;
  std::function<bool(unsigned)> leaf = [&](unsigned a) -> bool { switch (op) { case 0: return fnAt(0xde, a); case 1: return fnAt(0x16, a); case 2: return fnAt(0x69 ^ 0x0f, a); case 3: return fnAt(0xa5, a); default: return w(a) && fnAt(X, a); } };
  auto mux = [&](const std::function<bool(unsigned)> &l, int n) { return bigOf([&](unsigned a) { return sel(a) < n && (sp(a) ? l(a) : fnAt(sel(a), a)); }); };
  if (op == 11) R = 0x96 & 0xaa; if (op == 3) R = 0xa5 & ~0x33;
  Big want = mux([&](unsigned a) { return fnAt(R, a); }, k), other = bigOf([&](unsigned a) { return sel(a) < k0 && (sp(a) ? fnAt((sel(a) + 77) & 255, a) : fnAt(R, a)); });
  Cal_Bdd f = B.build(mux(leaf, k)), f0 = B.build(other), g = 0, r = 0, wv = B.v[12], one = Cal_BddOne(m); mc::op("operation %d: %d references besides %d", op, k, k0);
  auto second = [&](std::function<bool(unsigned)> z, bool neutral) { g = B.build(bigOf([&](unsigned a) { return sel(a) < k && sp(a) ? z(a) : neutral; })); };
  Cal_Bdd as[] = {wv, op == 11 ? B.v[9] : one, nullptr}, vs[] = {wv, nullptr};
  switch (op) {
    case 0: second([&](unsigned a) { return fnAt(0xb7, a); }, true); r = Cal_BddAnd(m, f, g); break;
    case 1: second([&](unsigned a) { return fnAt(0x80, a); }, false); r = Cal_BddOr(m, f, g); break;
    case 2: second([&](unsigned a) { return fnAt(0xf0, a); }, false); r = Cal_BddXor(m, f, g); break;
    case 3: second([&](unsigned a) { return fnAt(0x33, a); }, false); { Cal_Bdd n = Cal_BddNot(m, g); r = Cal_BddITE(m, g, n, f); Cal_BddFree(m, n); } break;   // (g ? !g : f) = !g & f
    case 4: case 5: Cal_TempAssociationInit(m, vs, 0); Cal_AssociationSetCurrent(m, -1); s.m->gcCheck = 1 << 30; if (op == 5) calVerifLargeBdd = 0; r = Cal_BddExists(m, f); calVerifLargeBdd = 1ul << 19; break;
    case 6: case 7: Cal_TempAssociationInit(m, vs, 0); Cal_AssociationSetCurrent(m, -1); if (op == 7) calVerifLargeBdd = 0; r = Cal_BddRelProd(m, f, wv); calVerifLargeBdd = 1ul << 19; break;
    case 8: r = Cal_BddCompose(m, f, wv, one); break;
    case 9: Cal_TempAssociationInit(m, as, 1); Cal_AssociationSetCurrent(m, -1); r = Cal_BddSubstitute(m, f); break;
    case 10: r = Cal_BddCofactor(m, f, wv); break;
    case 11: Cal_TempAssociationInit(m, as, 1); Cal_AssociationSetCurrent(m, -1); r = Cal_BddVarSubstitute(m, f); break;
  }
  mc::ops(1); Cal_BddFree(m, one); if (op >= 4 && op != 8 && op != 10) Cal_TempAssociationQuit(m);
  if (op == 3) want = bigOf([&](unsigned a) { bool gg = sel(a) < k && sp(a) && fnAt(0x33, a), ff = sel(a) < k && (sp(a) ? fnAt(0xa5, a) : fnAt(sel(a), a)); return !gg && ff; });
  B.expect(r, want, "result"); Cal_BddFree(m, f); if (g) Cal_BddFree(m, g);
  auto account = [&](std::vector<Cal_Bdd> l, const char *wh) { for (auto v : B.v) l.push_back(v); l.push_back(nullptr); long need = Cal_BddSizeMultiple(m, l.data(), 1), n = (long)Cal_BddManagerGetNumNodes(m); MC_CHECK(n >= need && n <= need + (k0 + k < 120 ? 0 : 16), "%s: %ld nodes after collection, the live BDDs need %ld", wh, n, need); };
  auto doMaint = [&] { if (maint >= 2) { auto &M = METHODS[maint - 2]; Cal_BddDynamicReordering(m, M.technique, M.method); Cal_BddReorder(m); } };
  Cal_BddManagerGC(m); account({r, f0}, "operands freed"); doMaint();
  Cal_Bdd &dead = first ? r : f0, &left = first ? f0 : r; Cal_BddFree(m, dead); Cal_BddManagerGC(m); 
  for (int i = 1; i < 128; i += 9) { Cal_Bdd x = B.build(bigOf([&](unsigned a) { return fnAt(i * 2, a) && w(a); })); Cal_BddFree(m, x); }   // what was collected is overwritten
  B.expect(left, first ? other : want, "remaining BDD"); Cal_BddManagerGC(m); if (maint < 2) account({left}, "one freed"); doMaint(); B.expect(left, first ? other : want, "remaining BDD");
  { Cal_Bdd again = B.build(first ? other : want); MC_CHECK(again == left, "the remaining BDD built again has another handle"); Cal_BddFree(m, again); }
  Cal_BddFree(m, left); Cal_BddManagerGC(m); account({}, "all freed"); mc::state(mc::mix(op * 8 + first, k0 * 256 + k)); s.quit();
}
// pages, buckets, free lists: large functions built and dropped in all orders
MC_SCENARIO(ref_large) {
  Big::N = (int)mc::P("bits", 11); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), ord = mc::choose(6), pack = mc::choose(2); mc::shardHere();
  BigSys B; std::vector<Big> t; std::vector<Cal_Bdd> h; static const int D[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  if (pack) { Cal_BddManagerSetParameters(B.m(), -1, -1, 2.0, 0.9); }
  for (int j = 0; j < 3; j++) { t.push_back(bigOf(F[(i + 3 * j) % nf].second)); h.push_back(B.build(t[j])); mc::ops(1); }
  std::vector<char> live(3, 1);
  for (int q = 0; q < 3; q++) {
    int d = D[ord][q]; Cal_BddFree(B.m(), h[d]); live[d] = 0; if (pack) { B.m()->gcCheck = 0; B.m()->uniqueTableGCLimit = 0; Cal_Bdd x = Cal_BddAnd(B.m(), B.v[0], B.v[1]); Cal_BddFree(B.m(), x); } Cal_BddManagerGC(B.m());
    for (int j = 0; j < 3; j++) if (live[j]) B.expect(h[j], t[j], "live BDD after collection");
    // exact size of what is left
    std::vector<Cal_Bdd> l; for (int j = 0; j < 3; j++) if (live[j]) l.push_back(h[j]); for (auto v : B.v) l.push_back(v); l.push_back(nullptr);
    long need = Cal_BddSizeMultiple(B.m(), l.data(), 1), n = (long)Cal_BddManagerGetNumNodes(B.m()); long cst = 1; (void)cst;
    MC_CHECK(n == need, "%ld nodes after collection, size of the live BDDs is %ld", n, need);
    if (q < 2) { int r = D[ord][0]; if (q == 1) { h[r] = B.build(t[r]); live[r] = 1; Cal_BddFree(B.m(), h[r]); live[r] = 0; } }
  }
  MC_CHECK(Cal_BddManagerGetNumNodes(B.m()) == (unsigned)Big::N + 1, "nodes left"); B.s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

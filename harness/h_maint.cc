// C24: automatic maintenance at operation boundaries is transparent
#include "gops.hh"
#include "capture.hh"
static const TT FAM[] = {0x96, 0xe8, 0x1d, 0x80, 0xf3, 0x3a};
static const std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }

// every operation, every operand tuple from the family, every kind of maintenance at its entry or after 1..k new nodes
MC_SCENARIO(single) {
  int o = mc::choose((int)mc::P("orders", 2)) * 5, reg = mc::choose(2), gi = mc::choose((int)gops().size()); auto &g = gops()[gi];
  int k = mc::choose((int)maints().size()), at = mc::choose(4);
  mc::shardHere();
  int idx[3] = {0, 0, 0}; int F = 6;
  for (int i = 0; i < g.nb; i++) idx[i] = i == 2 && !mc::thorough() ? mc::choose(2) * 3 : mc::choose(F);
  TT t[3]; for (int i = 0; i < 3; i++) t[i] = FAM[idx[i]];
  if (!g.pre) throw mc::Prune();
  GSys s; s.setup(p3()[o], reg, {FAM, FAM + 6});
  if (!g.pre(s, t)) { s.quit(); throw mc::Prune(); }
  armMaint(s, maints()[k], at);
  s.apply(g, idx); s.checkLive(g.name);
  disarm(s);
  // the association is still what it was, canonicity across old and new
  int e[1] = {0}; s.apply(gops()[15], e); s.apply(gops()[18], e);
  s.checkLive("after Exists and Substitute");
  for (auto &x : s.slot) if (x.h) { Cal_Bdd c = s.build(x.t); MC_CHECK(c == x.h, "rebuilding %s gives another handle", hx(x.t)); s.free(c); }
  mc::state(mc::mix(s.hash(), mc::mix(gi, k)));
  if (!reg) Cal_TempAssociationQuit(s.m); else Cal_AssociationQuit(s.m, s.assoc);
  unsigned long got = s.gc(), exp = s.expectedNodes(); MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); s.quit();
}
// two operations; maintenance of every kind fires at one point or at both; results of the first are freed or used by the second
MC_SCENARIO(pairs) {
  int g1 = mc::choose((int)gops().size()), g2 = mc::choose((int)gops().size());
  int k1 = mc::choose((int)maints().size() + 1), k2 = mc::choose((int)maints().size() + 1);
  if (k1 && k2 && k1 != k2 && !mc::thorough()) throw mc::Prune();
  mc::shardHere();
  int freeFirst = mc::choose(2); static const int tup[3][3] = {{0, 1, 2}, {3, 4, 0}, {5, 2, 1}};
  int o = (g1 * 7 + g2 * 3 + k1) % 6, tu = (g1 + g2 + k2) % 3;
  GSys s; s.setup(p3()[o], (g1 + g2) & 1, {FAM, FAM + 6});
  auto &A = gops()[g1]; auto &B = gops()[g2]; TT t[3]; for (int i = 0; i < 3; i++) t[i] = FAM[tup[tu][i]];
  if (!A.pre(s, t)) { s.quit(); throw mc::Prune(); }
  if (k1) armMaint(s, maints()[k1 - 1], (g1 + g2) % 3); else disarm(s);
  size_t base = s.slot.size(); s.apply(A, tup[tu]);
  if (s.slot.size() == base) { s.quit(); throw mc::Prune(); }
  s.checkLive("first");
  int idx[3] = {(int)base, tup[tu][1], (int)s.slot.size() - 1};
  if (freeFirst) { for (size_t i = base; i < s.slot.size(); i++) { s.free(s.slot[i].h); s.slot[i].h = nullptr; } s.free(s.slot[2].h); s.slot[2].h = nullptr; idx[0] = 1; idx[1] = 0; idx[2] = 3; }
  for (int i = 0; i < 3; i++) t[i] = s.slot[idx[i]].t;
  if (!B.pre(s, t)) { s.quit(); throw mc::Prune(); }
  if (k2) armMaint(s, maints()[k2 - 1], (g1 + g2 + k2) % 2); else disarm(s);
  s.apply(B, idx); s.checkLive("second");
  disarm(s); { int e[1] = {0}; s.apply(gops()[16], e); }
  mc::state(s.hash());
  if ((g1 + g2) & 1) Cal_AssociationQuit(s.m, s.assoc); else Cal_TempAssociationQuit(s.m);
  unsigned long got = s.gc(), exp = s.expectedNodes(); MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); s.quit();
}
// histories of three and more steps over a smaller alphabet, maintenance of one kind possible before every step
MC_SCENARIO(histories) {
  int k = mc::choose((int)maints().size()), o = mc::choose(2) * 4;
  GSys s; s.setup(p3()[o], o == 0, {0xe8, 0x96, 0x1d});
  static const int alpha[] = {0, 5, 8, 15, 17, 18, 19, 20, 22, 24}; int depth = (int)mc::P("depth", 3);
  disarm(s);
  for (int d = 0; d < depth; d++) {
    int due = mc::choose(3); if (due) armMaint(s, maints()[k], due - 1); else disarm(s);
    auto &g = gops()[alpha[mc::choose((int)(sizeof alpha / sizeof *alpha))]];
    int n = (int)s.slot.size(); int idx[3] = {n - 1, d % 3, (d + 1) % 3}; TT t[3]; for (int i = 0; i < 3; i++) t[i] = s.slot[idx[i]].t;
    if (!g.pre(s, t)) { s.quit(); throw mc::Prune(); }
    s.apply(g, idx); s.checkLive("history"); mc::state(s.hash());
  }
  disarm(s); int e[1] = {(int)s.slot.size() - 1}; s.apply(gops()[15], e); s.checkLive("end"); s.quit();
}
// several consecutive rounds of maintenance with different kinds, with garbage in between, larger tables (many pages, several table sizes)
MC_SCENARIO(rounds) {
  Big::N = (int)mc::P("bits", 9); auto &F = bigFamily(); int nf = (int)F.size();
  int i = mc::choose(nf), k1 = mc::choose((int)maints().size()), k2 = mc::choose((int)maints().size()), drop = mc::choose(3); mc::shardHere();
  BigSys B; std::vector<Big> t; std::vector<Cal_Bdd> h; std::vector<char> live;
  auto addF = [&](int j) { t.push_back(bigOf(F[(j + nf) % nf].second)); h.push_back(B.build(t.back())); live.push_back(1); };
  for (int j = 0; j < 4; j++) addF(i + j * 5);
  Cal_Bdd a[] = {B.v[0], B.v[3], B.v[5], nullptr}; Cal_TempAssociationInit(B.m(), a, 0); Cal_AssociationSetCurrent(B.m(), -1);
  auto conn = [&](int op, int x, int y) {
    mc::op("op %d on #%d, #%d", op, x, y);
    Cal_Bdd r = op == 0 ? Cal_BddAnd(B.m(), h[x], h[y]) : op == 1 ? Cal_BddXor(B.m(), h[x], h[y]) : op == 2 ? Cal_BddExists(B.m(), h[x]) : Cal_BddRelProd(B.m(), h[x], h[y]);
    Big w = t[x]; for (size_t z = 0; z < w.w.size(); z++) w.w[z] = op == 1 ? w.w[z] ^ t[y].w[z] : op == 2 ? w.w[z] : w.w[z] & t[y].w[z];
    if (op >= 2) { Big e; unsigned q = 1 | 8 | 32; for (unsigned x2 = 0; x2 < 1u << Big::N; x2++) if (w.get(x2)) { for (unsigned s = q;; s = (s - 1) & q) { e.set((x2 & ~q) | s); if (!s) break; } } w = e; }
    B.expect(r, w, "operation with maintenance"); t.push_back(w); h.push_back(r); live.push_back(1);
  };
  auto due = [&](int k, int after) { armMaint(B.s, maints()[k], after); };
  auto all = [&](const char *w) { for (size_t j = 0; j < h.size(); j++) if (live[j]) B.expect(h[j], t[j], w); };
  auto kill = [&](size_t j) { if (live[j]) { Cal_BddFree(B.m(), h[j]); live[j] = 0; } };
  due(k1, 0); conn(1, 0, 1); all("after the first round");
  if (drop == 1) { kill(2); kill(1); } if (drop == 2) kill(3);
  due(k2, 1); conn(0, 0, (int)h.size() - 1); all("after the second round");
  if (drop) kill(0);
  due(k1, 60); conn(2, (int)h.size() - 1, 0); due(k2, 0); conn(3, (int)h.size() - 1, (int)h.size() - 2); all("after the fourth round");
  mc::state(mc::mix(mc::mix(i, k1), mc::mix(k2, drop)));
  for (size_t j = 0; j < h.size(); j++) kill(j);
  Cal_TempAssociationQuit(B.m()); Cal_BddManagerGC(B.m()); unsigned long got = Cal_BddManagerGetNumNodes(B.m());
  MC_CHECK(got == (unsigned long)Big::N + 1, "%lu nodes remain after everything was freed, expected %d", got, Big::N + 1);
  B.s.quit();
}
static unsigned long cacheSize(Cal_BddManager m) { std::string t = textOf([&](FILE *f) { Cal_BddStats(m, f); }); size_t p = t.find("Cache Size: "); return p == std::string::npos ? 0 : strtoul(t.c_str() + p + 12, 0, 10); }
// the computed table fills up and grows while results in it are in use; every cached operation answered before and after each growth
MC_SCENARIO(cachegrow) {
  Big::N = (int)mc::P("bits", 8); auto &F = bigFamily(); int nf = (int)F.size();
  int i = mc::choose(nf), k = mc::choose((int)maints().size()), mixk = mc::choose(4); mc::shardHere();
  BigSys B; std::vector<Big> t; std::vector<Cal_Bdd> h; for (int j = 0; j < 5; j++) { t.push_back(bigOf(F[(i + j * 5) % nf].second)); h.push_back(B.build(t.back())); }
  Cal_Bdd q[] = {B.v[0], B.v[3], B.v[5], nullptr}; int a1 = Cal_AssociationInit(B.m(), q, 0); Cal_Bdd sb[] = {B.v[1], h[0], B.v[4], B.v[6], nullptr}; int a2 = Cal_AssociationInit(B.m(), sb, 1); Cal_Bdd vs[] = {B.v[2], B.v[7], B.v[0], B.v[1], nullptr}; Cal_TempAssociationInit(B.m(), vs, 1);
  auto quant = [&](const Big &f, bool all) { Big e = f; for (int v : {0, 3, 5}) { Big g; for (unsigned a = 0; a < 1u << Big::N; a++) { bool x = e.get(a | 1u << v), y = e.get(a & ~(1u << v)); if (all ? x && y : x || y) g.set(a); } e = g; } return e; };
  struct R { int kind, x, y; Cal_Bdd h; Big w; }; std::vector<R> done;
  auto compute = [&](int kind, int x, int y, Big *w) -> Cal_Bdd {
    Cal_Bdd r = nullptr; *w = Big();
    auto pt = [&](std::function<bool(unsigned)> f) { for (unsigned a = 0; a < 1u << Big::N; a++) if (f(a)) w->set(a); };
    switch (kind) {
      case 0: r = Cal_BddAnd(B.m(), h[x], h[y]); pt([&](unsigned a) { return t[x].get(a) && t[y].get(a); }); break;
      case 1: r = Cal_BddXor(B.m(), h[x], h[y]); pt([&](unsigned a) { return t[x].get(a) != t[y].get(a); }); break;
      case 2: r = Cal_BddITE(B.m(), h[x], h[y], h[(y + 1) % 5]); pt([&](unsigned a) { return t[x].get(a) ? t[y].get(a) : t[(y + 1) % 5].get(a); }); break;
      case 3: Cal_AssociationSetCurrent(B.m(), a1); r = Cal_BddExists(B.m(), h[x]); *w = quant(t[x], false); break;
      case 4: Cal_AssociationSetCurrent(B.m(), a1); r = Cal_BddForAll(B.m(), h[x]); *w = quant(t[x], true); break;
      case 5: { Cal_AssociationSetCurrent(B.m(), a1); r = Cal_BddRelProd(B.m(), h[x], h[y]); Big c; for (unsigned a = 0; a < 1u << Big::N; a++) if (t[x].get(a) && t[y].get(a)) c.set(a); *w = quant(c, false); break; }
      case 6: Cal_AssociationSetCurrent(B.m(), a2); r = Cal_BddSubstitute(B.m(), h[x]); pt([&](unsigned a) { unsigned b = a & ~(2u | 16u); if (t[0].get(a)) b |= 2; if (a >> 6 & 1) b |= 16; return t[x].get(b); }); break;
      case 7: Cal_AssociationSetCurrent(B.m(), -1); r = Cal_BddVarSubstitute(B.m(), h[x]); pt([&](unsigned a) { unsigned b = a & ~(4u | 1u); if (a >> 7 & 1) b |= 4; if (a >> 1 & 1) b |= 1; return t[x].get(b); }); break;
      case 8: r = Cal_BddCompose(B.m(), h[x], B.v[2], h[y]); pt([&](unsigned a) { return t[x].get(t[y].get(a) ? a | 4 : a & ~4u); }); break;
      case 9: r = Cal_BddSwapVars(B.m(), h[x], B.v[1], B.v[6]); pt([&](unsigned a) { unsigned b = a & ~(2u | 64u); if (a & 2) b |= 64; if (a & 64) b |= 2; return t[x].get(b); }); break;
      case 10: r = Cal_BddIntersects(B.m(), h[x], h[y]); break;
    }
    return r;
  };
  static const std::vector<std::vector<int>> mixes = {{0, 1, 2, 0, 1, 2, 8, 9}, {3, 4, 5, 3, 5, 4, 0, 7}, {6, 7, 3, 6, 0, 8, 7, 1}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}};
  unsigned long bins = cacheSize(B.m()), grown = 0;
  for (int r = 0; r < (int)mc::P("rounds", 40); r++) {
    auto &M = mixes[mixk]; int kind = M[r % M.size()], x = (r * 3 + r / 5) % 5, y = (x + 1 + r % 4) % 5;
    if (r % 3 == 2) armMaint(B.s, maints()[k], r % 2 ? 5 : 0); else disarm(B.s);
    Big w; mc::op("round %d: kind %d on %d, %d", r, kind, x, y); Cal_Bdd c = compute(kind, x, y, &w); B.expect(c, w, "operation while the computed table grows"); done.push_back({kind, x, y, c, w});
    if (cacheSize(B.m()) != bins) { grown++; bins = cacheSize(B.m()); disarm(B.s);
      for (auto &d : done) { Big w2; Cal_Bdd z = compute(d.kind, d.x, d.y, &w2); MC_CHECK(z == d.h, "the same operation gives another handle after the computed table grew"); B.expect(z, d.w, "repeated operation after the computed table grew"); Cal_BddFree(B.m(), z); } }
    if (done.size() > 24) { Cal_BddFree(B.m(), done.front().h); done.erase(done.begin()); }
  }
  disarm(B.s); for (auto &d : done) { Big w2; Cal_Bdd z = compute(d.kind, d.x, d.y, &w2); MC_CHECK(z == d.h, "the same operation gives another handle"); B.expect(z, d.w, "repeated operation"); Cal_BddFree(B.m(), z); Cal_BddFree(B.m(), d.h); }
  mc::state(mc::mix(mc::mix(i, k), mc::mix(mixk, grown))); mc::op("computed table grew %lu times to %lu", grown, bins);
  for (auto x : h) Cal_BddFree(B.m(), x);
  Cal_TempAssociationQuit(B.m()); Cal_AssociationQuit(B.m(), a1); Cal_AssociationQuit(B.m(), a2); Cal_BddManagerGC(B.m()); unsigned long got = Cal_BddManagerGetNumNodes(B.m());
  // a node with 255 parents stays for ever, by design; the statistics count such nodes
  bool locked = textOf([&](FILE *f) { Cal_BddStats(B.m(), f); }).find("Number of nodes locked: 0\n") == std::string::npos;
  MC_CHECK(locked || got == (unsigned long)Big::N + 1, "%lu nodes remain after everything was freed, expected %d", got, Big::N + 1);
  B.s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

// Life cycle of managers (C21): memory is returned, managers do not influence each other.
#include "gops.hh"
#include "capture.hh"
#include "calObj.hh"
#include "leak.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static const TT POOL[] = {0xe8, 0x3a, 0x96, 0x80};
static void reorderM(Sys &s, int k) { static const int T[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW, CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; mc::op("reorder %d", k); Cal_BddDynamicReordering(s.m, T[k], k < 2 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("reorder"); }
// things done with a manager; every returned object that has to be released by the caller is released, BDDs are left to the manager
static const int NFEAT = 40;
static void feature(GSys &s, int k) {
  auto m = s.m; auto noMaint = [&] { disarm(s); Cal_BddDynamicReordering(m, CAL_REORDER_NONE, 0); };
  switch (k) {
    case 0: { auto &G = gops(); int idx[3] = {0, 1, 2}; TT t[3] = {s.slot[0].t, s.slot[1].t, s.slot[2].t}; for (auto &g : G) if (g.pre(s, t)) { auto sl = s.slot.size(); s.apply(g, idx, true); (void)sl; } break; }
    case 1: s.newDummy(); s.newDummy(Sys::FIRST); break;
    case 2: for (int i = 0; i < 40; i++) s.newDummy(i & 1 ? Sys::LAST : Sys::FIRST); break;
    case 3: for (int i = 0; i < 300; i++) s.newDummy(i & 1 ? Sys::LAST : Sys::FIRST); break;
    case 4: { Cal_Bdd a[] = {s.var[0], s.var[1], nullptr}; mc::op("4 associations, one quit"); int id[4]; for (int i = 0; i < 4; i++) { a[0] = s.var[i % 3]; id[i] = Cal_AssociationInit(m, a, i & 1 ? 0 : 1); } Cal_AssociationQuit(m, id[1]); break; }
    case 5: { mc::op("30 associations made and quit"); for (int i = 0; i < 30; i++) { Cal_Bdd a[] = {s.var[i % 3], s.var[(i + i / 3) % 3], nullptr}; int x = Cal_AssociationInit(m, a, i & 4 ? 1 : 0); if (i % 3) Cal_AssociationQuit(m, x); } break; }
    case 6: { mc::op("temporary associations"); for (int i = 0; i < 5; i++) { Cal_Bdd a[] = {s.var[i % 3], s.slot[i % 4].h, nullptr}; Cal_TempAssociationInit(m, a, 1); Cal_TempAssociationAugment(m, a, 1); if (i & 1) Cal_TempAssociationQuit(m); } s.bindAssoc(false); break; }
    case 7: { mc::op("nested blocks"); Cal_Bdd t = Cal_BddManagerGetVarWithIndex(m, 0); int n = s.nvars(); Cal_BddNewVarBlock(m, t, n); Cal_BddNewVarBlock(m, t, 2); Cal_BddNewVarBlock(m, t, 1); break; }
    case 8: { mc::op("blocks joined"); int n = s.nvars(); for (int i = 0; i + 1 < n && i < 6; i += 2) Cal_BddNewVarBlock(m, Cal_BddManagerGetVarWithIndex(m, i), 2); Cal_Block b = Cal_BddNewVarBlock(m, Cal_BddManagerGetVarWithIndex(m, 0), n); if (b) Cal_BddVarBlockReorderable(m, b, 1); break; }
    case 9: { mc::op("a block over the last variables, and one that does not exist"); int n = s.nvars(); Cal_BddNewVarBlock(m, Cal_BddManagerGetVarWithIndex(m, n - 1), 5); Cal_BddNewVarBlock(m, Cal_BddManagerGetVarWithIndex(m, n - 2), 2); break; }
    case 10: case 11: case 12: case 13: reorderM(s, k - 10); break;
    case 14: s.gc(); break;
    case 15: case 16: case 17: case 18: case 19: case 20: { armMaint(s, maints()[k - 15], 0); int idx[3] = {1, 2, 0}; s.apply(gops()[4], idx, true); noMaint(); break; }
    case 21: case 22: case 23: case 24: case 25: { // pipelines: pending, executed, updated, quit, deep
      mc::op("pipeline left %s", k == 21 ? "pending" : k == 22 ? "executed" : k == 23 ? "updated" : k == 24 ? "quit unexecuted" : "deep and executed"); if (!Cal_PipelineInit(m, CAL_AND)) break; std::vector<Cal_Bdd> p; for (int i = 0; i < (k == 25 ? 200 : 5); i++) p.push_back(Cal_PipelineCreateProvisionalBdd(m, i ? p[i - 1] : s.slot[0].h, s.slot[(i + 1) % 4].h));
      if (k == 24) { Cal_PipelineQuit(m); break; } if (k == 21) break; Cal_PipelineExecute(m); if (k != 22) { TT t = s.slot[0].t; for (size_t i = 0; i < p.size(); i++) { t &= s.slot[(i + 1) % 4].t; if (k == 23 || i + 1 == p.size()) { Cal_Bdd r = Cal_PipelineUpdateProvisionalBdd(m, p[i]); s.expect(r, t, "pipeline"); s.add(r, t); } } Cal_PipelineQuit(m); }
      break; }
    case 26: { mc::op("dump and undump"); Cal_Bdd v[] = {s.var[0], s.var[1], s.var[2], nullptr}; std::string d = textOf([&](FILE *fp) { Cal_BddDumpBdd(m, s.slot[0].h, v, fp); }); FILE *fp = fmemopen(&d[0], d.size(), "r"); int e; Cal_Bdd r = Cal_BddUndumpBdd(m, v, fp, &e); fclose(fp); s.expect(r, s.slot[0].t, "undump"); s.add(r, s.slot[0].t); break; }
    case 27: { mc::op("undump of damaged dumps"); Cal_Bdd v[] = {s.var[0], s.var[1], s.var[2], nullptr}; std::string d = textOf([&](FILE *fp) { Cal_BddDumpBdd(m, s.slot[2].h, v, fp); }); for (size_t i = 0; i < d.size(); i++) for (int w = 0; w < 2; w++) { std::string x = d; if (w) x[i] ^= 0xff; else x.resize(i ? i : 1); FILE *fp = fmemopen(&x[0], x.size(), "r"); int e; Cal_Bdd r = Cal_BddUndumpBdd(m, v, fp, &e); fclose(fp); if (r) Cal_BddFree(m, r); } break; }
    case 28: { mc::op("print"); for (int i = 0; i < 3; i++) { (void)textOf([&](FILE *fp) { Cal_BddPrintBdd(m, s.slot[i].h, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, 0, fp); Cal_BddPrintProfile(m, s.slot[i].h, Cal_BddNamingFnNone, 0, 60, fp); Cal_BddPrintFunctionProfile(m, s.slot[i].h, Cal_BddNamingFnNone, 0, 60, fp); Cal_BddStats(m, fp); }); (void)stdoutOf([&] { Cal_BddFunctionPrint(m, s.slot[i].h, (char *)"f"); }); } break; }
    case 29: { mc::op("queries"); std::vector<long> lv(s.nvars() + 1), fc(s.nvars() + 1); std::vector<Cal_Bdd> sup(s.nvars() + 2); Cal_Bdd a[] = {s.slot[0].h, s.slot[1].h, nullptr}; for (int i = 0; i < 2; i++) { Cal_BddProfile(m, s.slot[i].h, lv.data(), i); Cal_BddFunctionProfile(m, s.slot[i].h, fc.data()); Cal_BddProfileMultiple(m, a, lv.data(), i); Cal_BddFunctionProfileMultiple(m, a, fc.data()); Cal_BddSize(m, s.slot[i].h, i); Cal_BddSizeMultiple(m, a, i); Cal_BddSupport(m, s.slot[i].h, sup.data()); Cal_BddSatisfyingFraction(m, s.slot[i].h); Cal_BddDependsOn(m, s.slot[i].h, s.var[0]); Cal_BddIsCube(m, s.slot[i].h); } break; }
    case 30: { mc::op("every operation beyond the node limit"); auto &G = gops(); int idx[3] = {0, 1, 2}; Cal_Bdd a[3]; TT t[3]; for (int i = 0; i < 3; i++) { a[i] = s.slot[idx[i]].h; t[i] = s.slot[idx[i]].t; } for (auto &g : G) if (g.pre(s, t)) { Cal_BddNodeLimit(m, 1); m->gcCheck = 0; m->uniqueTableGCLimit = 0; for (Cal_Bdd h : g.run(s, a)) if (h) Cal_BddFree(m, h); Cal_BddNodeLimit(m, 0); disarm(s); } (void)Cal_BddOverflow(m); break; }
    case 31: case 32: { int n = k == 31 ? 30 : 70; mc::op("multiway operations with %d operands", n); std::vector<Cal_Bdd> x; for (int i = 0; i < n; i++) x.push_back(i % 3 == 2 ? s.slot[i % 4].h : s.var[i % 3]); x.push_back(nullptr); s.add(Cal_BddMultiwayOr(m, x.data()), 0); s.slot.back().t = s.eval(s.slot.back().h); s.add(Cal_BddMultiwayAnd(m, x.data()), 0); s.slot.back().t = s.eval(s.slot.back().h); s.add(Cal_BddMultiwayXor(m, x.data()), 0); s.slot.back().t = s.eval(s.slot.back().h); for (auto r : {Cal_BddPairwiseAnd(m, x.data()), Cal_BddPairwiseOr(m, x.data()), Cal_BddPairwiseXor(m, x.data())}) { auto q = r; Cal_MemFree(q); } break; }
    case 33: { mc::op("300 references"); for (int i = 0; i < 300; i++) { Cal_BddUnFree(m, s.slot[0].h); } break; }
    case 34: case 35: { mc::op("all functions of 3 variables%s", k == 34 ? "" : ", dropped"); std::vector<Cal_Bdd> h; for (TT t = 0; t < 256; t++) h.push_back(s.mk(t)); if (k == 35) { for (auto x : h) Cal_BddFree(m, x); s.gc(); } break; }
    case 36: { mc::op("quantification, breadth first"); auto old = calVerifLargeBdd; calVerifLargeBdd = 0; auto &G = gops(); for (auto &g : G) if (g.assoc) for (int i = 0; i < 3; i++) { int idx[3] = {i, (i + 1) % 3, 0}; TT t[3] = {s.slot[idx[0]].t, s.slot[idx[1]].t, 0}; if (g.pre(s, t)) s.apply(g, idx, true); } calVerifLargeBdd = old; break; }
    case 37: { mc::op("null arguments"); Cal_Bdd a[3] = {nullptr, nullptr, nullptr}; for (auto &g : gops()) g.run(s, a); break; }
    case 38: { mc::op("parameters and limits"); Cal_BddManagerSetParameters(m, 100, 10, 0.5, 0.5); Cal_BddManagerSetGCLimit(m); disarm(s); Cal_BddSetGCMode(m, 0); Cal_BddSetGCMode(m, 1); Cal_BddManagerSetHooks(m, &s); break; }
    case 39: { mc::op("reordering with repacking"); Cal_BddManagerSetParameters(m, 0, 0, 2.0, 1.0); for (int i = 0; i < 4; i++) reorderM(s, i); break; }
  }
}
MC_SCENARIO(lifecycle) {
  int depth = (int)mc::P("depth", 2), ord = mc::choose((int)mc::P("orders", 2)); startLeak();
  { GSys s; s.setup(p3()[ord * 3 % 6 + ord / 2], ord & 1, std::vector<TT>(POOL, POOL + 4)); disarm(s); bool pend = false; int blk = 0;
    for (int i = 0; i < depth; i++) { int k = mc::choose(NFEAT); if (i == 0) mc::shardHere(); if (pend && !mc::P("pending", 0)) throw mc::Prune(); if (k == 21 || k == 22) pend = true; if (k >= 7 && k <= 9) { if (blk) throw mc::Prune(); blk = k; } feature(s, k); disarm(s); for (auto &x : s.slot) if (x.h) MC_CHECK(s.eval(x.h) == x.t, "a live BDD changed"); }
    if (!pend) s.checkLive("end"); mc::state(s.hash()); s.quit(); }
  endLeak("lifecycle");
}
// large functions
MC_SCENARIO(life_large) {
  Big::N = (int)mc::P("bits", 12); int f = mc::choose(24), ev = mc::choose(12); mc::shardHere(); startLeak();
  { BigSys b; auto m = b.m(); Big w = bigOf(bigFamily()[f].second), w2 = bigOf(bigFamily()[(f + 5) % 24].second); Cal_Bdd x = b.build(w), y = b.build(w2); mc::op("%s, %s, event %d", bigFamily()[f].first, bigFamily()[(f + 5) % 24].first, ev);
    switch (ev) { case 0: break; case 1: Cal_BddAnd(m, x, y); break; case 2: Cal_BddManagerGC(m); break; case 3: case 4: case 5: case 6: Cal_BddDynamicReordering(m, ev & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, ev < 5 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(m); break;
      case 7: { Cal_BddFree(m, x); Cal_BddFree(m, y); m->gcCheck = 0; m->uniqueTableGCLimit = 0; Cal_BddManagerSetParameters(m, 1 << 30, 1000, 2.0, 0.9); Cal_BddOr(m, b.v[0], b.v[1]); break; }
      case 8: { Cal_Bdd a[] = {b.v[1], b.v[3], b.v[5], nullptr}; Cal_TempAssociationInit(m, a, 0); Cal_AssociationSetCurrent(m, -1); Cal_BddExists(m, x); Cal_BddRelProd(m, x, y); calVerifLargeBdd = 0; Cal_BddExists(m, x); Cal_BddForAll(m, y); Cal_BddRelProd(m, y, x); calVerifLargeBdd = 1ul << 19; break; }
      case 9: Cal_BddManagerCreateNewVarFirst(m); Cal_BddCofactor(m, x, y); Cal_BddReduce(m, x, y); break; case 10: { Cal_BddNodeLimit(m, 10); m->gcCheck = 0; m->uniqueTableGCLimit = 0; Cal_BddITE(m, x, y, b.v[0]); Cal_BddXor(m, x, y); break; }
      case 11: { Cal_PipelineInit(m, CAL_XOR); Cal_Bdd p = x; for (int i = 0; i < 6; i++) p = Cal_PipelineCreateProvisionalBdd(m, p, i & 1 ? y : b.v[i]); Cal_PipelineExecute(m); p = Cal_PipelineUpdateProvisionalBdd(m, p); Cal_PipelineQuit(m); break; } }
    b.s.quit(); }
  endLeak("large functions");
}
// managers that are only created, and managers of many sizes
MC_SCENARIO(life_sizes) {
  int n = mc::choose(8), order = mc::choose(3), k = mc::choose(3); mc::shardHere(); static const int N[] = {0, 1, 2, 29, 30, 31, 61, 520}; startLeak(); for (int r = 0; r < 3; r++) { Cal_BddManager m = Cal_BddManagerInit(); mc::op("manager with %d variables", N[n]); for (int i = 0; i < N[n]; i++) order == 0 || (order == 2 && (i & 1)) ? Cal_BddManagerCreateNewVarLast(m) : Cal_BddManagerCreateNewVarFirst(m);
    if (k == 1 && N[n]) Cal_BddManagerGC(m); if (k == 2 && N[n]) { Cal_BddDynamicReordering(m, CAL_REORDER_SIFT, r == 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(m); } MC_CHECK(Cal_BddManagerQuit(m) == 0, "quit"); }
  MC_CHECK(Cal_BddManagerQuit(nullptr) != 0, "quitting no manager reports success"); endLeak("sizes");
}
// two managers side by side: every interleaving of their calls; both stay exactly as their own calls leave them
static void verify(GSys &s, const char *w) { s.checkLive(w); auto o = s.readOrder(w); MC_CHECK(o == s.order, "%s: the order of a manager changed", w); }
static const int IFEAT[] = {0, 1, 2, 4, 6, 7, 10, 11, 12, 13, 14, 16, 17, 19, 21, 22, 23, 26, 28, 29, 30, 31, 36, 39}; static const int NIF = sizeof IFEAT / sizeof *IFEAT;
MC_SCENARIO(isolation) {
  int depth = (int)mc::P("depth", 2); GSys a, b; a.setup(p3()[1], true, std::vector<TT>(POOL, POOL + 4)); static const TT PB[] = {0x17, 0x3a, 0x6c, 0x1e}; b.setup(p3()[4], false, std::vector<TT>(PB, PB + 4)); GSys *S[] = {&a, &b}; disarm(a); disarm(b); int pend[2] = {0, 0}, blk[2] = {0, 0};
  for (int i = 0; i < depth; i++) {
    int who = mc::choose(2), k = mc::choose(NIF + 2); if (i == 0) mc::shardHere(); GSys &s = *S[who]; mc::op("manager %c:", 'A' + who);
    if (k < NIF) { int f = IFEAT[k]; if (f == 7 && blk[who]++) throw mc::Prune(); if (pend[who]) { if (f != 0 && f != 29 && f != 23) throw mc::Prune(); if (f == 23) { mc::op("pipeline quit"); Cal_PipelineQuit(s.m); pend[who] = 0; continue; } } feature(s, f); if (f == 21 || f == 22) pend[who] = 1; }
    else if (k == NIF) { mc::op("a third manager comes and goes"); GSys c; c.setup(p3()[2], i & 1, std::vector<TT>(POOL, POOL + 3)); feature(c, 10); feature(c, 15); c.quit(); }
    else { mc::op("replaced by a new manager"); s.quit(); s.slot.clear(); s.setup(p3()[(i + who) % 6], who, std::vector<TT>(POOL, POOL + 4)); pend[who] = 0; blk[who] = 0; }
    disarm(s); verify(a, "A"); verify(b, "B"); mc::state(mc::mix(a.hash(), b.hash()));
  }
  // exact collection in both (no pipeline pending), then quit in either order
  for (int w = 0; w < 2; w++) { GSys &s = *S[w]; if (pend[w]) Cal_PipelineQuit(s.m); int idx[3] = {2, 1, 0}; s.apply(gops()[8], idx, true); auto n = s.gc(); (void)n; s.checkLive("collection"); }
  int first = mc::choose(2); S[first]->quit(); verify(*S[!first], "after the other manager was quit"); auto &g = gops(); int idx[3] = {1, 0, 2}; TT t[3] = {S[!first]->slot[1].t, S[!first]->slot[0].t, S[!first]->slot[2].t}; for (auto &q : g) if (q.pre(*S[!first], t)) S[!first]->apply(q, idx, false); verify(*S[!first], "after the other manager was quit"); S[!first]->quit();
}
// a manager behaves the same alone and beside another: same handles' order, sizes and node counts at every step
MC_SCENARIO(independence) {
  int depth = (int)mc::P("depth", 2); std::vector<int> fs; for (int i = 0; i < depth; i++) { fs.push_back(IFEAT[mc::choose(NIF)]); if (i == 0) mc::shardHere(); } if (std::count(fs.begin(), fs.end(), 7) > 1) throw mc::Prune(); for (int i = 0; i + 1 < depth; i++) if (fs[i] == 21 || fs[i] == 22) throw mc::Prune(); int other = mc::choose(NIF);
  auto runOne = [&](GSys *o) { std::vector<long> tr; GSys s; s.setup(p3()[2], true, std::vector<TT>(POOL, POOL + 4)); disarm(s); for (int i = 0; i <= depth; i++) { if (o) feature(*o, o->slot.empty() ? 14 : i == 0 || (IFEAT[other] != 21 && IFEAT[other] != 22) ? IFEAT[other] : 29), disarm(*o); if (i < depth) feature(s, fs[i]); disarm(s); tr.push_back((long)Cal_BddManagerGetNumNodes(s.m)); tr.push_back((long)Cal_BddTotalSize(s.m)); tr.push_back(s.m->numSwaps); tr.push_back(s.m->numGC); tr.push_back(s.m->numReorderings); for (int x : s.readOrder("alone or not")) tr.push_back(x); for (auto &x : s.slot) tr.push_back((long)s.eval(x.h)); } s.quit(); return tr; };
  auto alone = runOne(nullptr); GSys o; o.setup(p3()[5], false, std::vector<TT>(POOL, POOL + 4)); auto both = runOne(&o); MC_CHECK(alone == both, "a manager behaves differently beside another one"); auto again = runOne(nullptr); MC_CHECK(alone == again, "the same calls on a new manager have another effect"); o.quit();
}
// many managers at once, quit in every order
MC_SCENARIO(several) {
  int n = 5, perm = mc::choose(120), big = mc::choose(2); mc::shardHere(); startLeak(); { auto P = perms(5)[perm]; std::vector<std::unique_ptr<GSys>> S; for (int i = 0; i < n; i++) { S.emplace_back(new GSys); S[i]->setup(p3()[i], i & 1, std::vector<TT>(POOL + i % 2, POOL + 4)); if (i % 2 == 0) { S[i]->add(S[i]->build(0x3c), 0x3c); } disarm(*S[i]); }
    for (int i = 0; i < n; i++) { feature(*S[P[i]], big ? 2 : 0); feature(*S[P[(i + 1) % n]], 10 + i % 4); }
    for (int i = 0; i < n; i++) { S[P[i]]->quit(); S[P[i]]->slot.clear(); for (int j = i + 1; j < n; j++) verify(*S[P[j]], "after another manager was quit"); if (i + 1 < n) feature(*S[P[i + 1]], 34); } }
  endLeak("several managers");
}
// C++: a Cal object's manager is given back too
MC_SCENARIO(life_cxx) {
  int k = mc::choose(6); mc::shardHere(); startLeak(); for (int r = 0; r < 3; r++) { Cal c(k < 5 ? k * 3 : 70); std::vector<BDD> v; for (int i = 1; i <= c.Vars(); i++) v.push_back(c.Id(i)); mc::op("Cal object with %d variables", (int)c.Vars()); BDD f = c.One(); for (auto &x : v) f = f & (x | ~f); if (!v.empty()) { int a = c.AssociationInit(v.begin(), v.end()); c.AssociationSetCurrent(a); BDD g = c.Exists(f); c.AssociationQuit(a); auto ps = c.PairwiseOr(v.begin(), v.begin() + (v.size() & ~(size_t)1)); BDD h = c.And(v.begin(), v.end()); std::vector<BDD> w = v; std::swap(w[0], w.back()); } c.GC(); }
  endLeak("Cal objects");
}
int main(int c, char **v) { return mc::main(c, v); }

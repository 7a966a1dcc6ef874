// Pipelined computation (C17).
#include "gops.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static const Cal_BddOp_t OPS[] = {CAL_AND, CAL_OR, CAL_XOR}; static const char *ON[] = {"AND", "OR", "XOR"};
static TT opTT(int o, TT a, TT b) { return o == 0 ? a & b : o == 1 ? a | b : a ^ b; }
static Cal_Bdd direct(Cal_BddManager m, int o, Cal_Bdd a, Cal_Bdd b) { return o == 0 ? Cal_BddAnd(m, a, b) : o == 1 ? Cal_BddOr(m, a, b) : Cal_BddXor(m, a, b); }
// one pipeline on a manager: the model keeps truth table and dependency depth of every provisional BDD
struct Pipe {
  Sys &s; int o; std::vector<Cal_Bdd> p; std::vector<TT> t; std::vector<int> d;
  Pipe(Sys &s_, int o_) : s(s_), o(o_) { mc::op("Cal_PipelineInit(%s)", ON[o]); MC_CHECK(Cal_PipelineInit(s.m, OPS[o]) == 1, "pipeline not initialised"); }
  struct Arg { Cal_Bdd h; TT t; int d; };
  Arg real(Cal_Bdd h, TT t) { return {h, t, -1}; } Arg prov(int i) { return {p[i], t[i], d[i]}; }
  void create(Arg a, Arg b) {
    mc::op("p%zu = Create(%s%s, %s%s)", p.size(), a.d < 0 ? "" : "prov:", hx(a.t), b.d < 0 ? "" : "prov:", hx(b.t));
    Cal_Bdd h = Cal_PipelineCreateProvisionalBdd(s.m, a.h, b.h); MC_CHECK(h, "no provisional BDD for operands at depth %d and %d", a.d, b.d);
    p.push_back(h); t.push_back(opTT(o, a.t, b.t) & full(s.n)); d.push_back(std::max(a.d, b.d) + 1);
  }
  void recognised() { for (size_t i = 0; i < p.size(); i++) MC_CHECK(Cal_BddIsProvisional(s.m, p[i]) == 1, "provisional BDD %zu is not recognised", i); for (auto &x : s.slot) if (x.h) MC_CHECK(Cal_BddIsProvisional(s.m, x.h) == 0, "BDD %s is taken for a provisional one", hx(x.t)); for (auto v : s.var) MC_CHECK(Cal_BddIsProvisional(s.m, v) == 0, "variable taken for a provisional BDD"); }
  void execute() { mc::op("Cal_PipelineExecute"); MC_CHECK(Cal_PipelineExecute(s.m) == 1, "pipeline not executed"); }
  Cal_Bdd update(int i) { mc::op("Cal_PipelineUpdateProvisionalBdd(p%d)", i); Cal_Bdd r = Cal_PipelineUpdateProvisionalBdd(s.m, p[i]); MC_CHECK(r, "p%d not updated", i); s.expect(r, t[i], "updated BDD"); MC_CHECK(Cal_BddIsProvisional(s.m, r) == 0, "updated BDD is still provisional"); return r; }
  void quit() { mc::op("Cal_PipelineQuit"); Cal_PipelineQuit(s.m); }
};
// which provisional BDDs are updated, and in which order
static std::vector<int> updates(int mode, int k) { std::vector<int> u; switch (mode) { case 0: for (int i = 0; i < k; i++) u.push_back(i); break; case 1: for (int i = k; i--;) u.push_back(i); break; case 2: u.push_back(k - 1); break; case 3: u.push_back(0); break; case 4: break; case 5: for (int i = 0; i < k; i++) { u.push_back(i); u.push_back(i); } break; } return u; }

// all programs of k provisional BDDs whose operands are any of the pool or of the earlier ones
static void dagProg(Sys &s, int o, int k, long q, int P, int mode, int setDepth, bool withDirect) {
  size_t base = s.slot.size(); Pipe pp(s, o);
  for (int i = 0; i < k; i++) { int A = P + i, a = q % A; q /= A; int b = q % A; q /= A; auto arg = [&](int x) { return x < P ? pp.real(s.slot[x].h, s.slot[x].t) : pp.prov(x - P); }; pp.create(arg(a), arg(b)); }
  pp.execute(); for (int i : updates(mode, k)) s.add(pp.update(i), pp.t[i]); pp.quit();
  for (size_t i = base; i < s.slot.size(); i++) s.expect(s.slot[i].h, s.slot[i].t, "updated BDD after the pipeline was quit");
  if (withDirect) for (size_t i = base; i < s.slot.size(); i++) { Cal_Bdd x = s.mk(s.slot[i].t); MC_CHECK(x == s.slot[i].h, "pipelined result is not the canonical BDD"); Cal_BddFree(s.m, x); }
  while (s.slot.size() > base) { s.free(s.slot.back().h); s.slot.pop_back(); }
}
MC_SCENARIO(dags) {
  static const TT pool[] = {0xe8, 0x3a, 0x69, 0x00, 0xcc, 0x17, 0xff, 0x96};
  int o = mc::choose(3), ord = mc::choose(2) * 3, k = 1 + mc::choose((int)mc::P("k", 3)), mode = mc::choose(6), part = mc::choose(8); mc::shardHere();
  static const int PP[] = {0, 8, 7, 5, 3}; int P = PP[k]; if (k == 3) P = (int)mc::P("pool3", 4);
  Sys s; s.initOrder(p3()[ord]); for (int i = 0; i < P; i++) s.add(s.build(pool[i]), pool[i]); unsigned long base = s.gc(); MC_CHECK(base == s.expectedNodes(), "nodes");
  long total = 1; for (int i = 0; i < k; i++) total *= (long)(P + i) * (P + i);
  for (long q = part, c = 0; q < total; q += 8, c++) { dagProg(s, o, k, q, P, mode, 0, c % 7 == 0); if (c % 8 == 0) { s.checkLive("dags"); auto n = s.gc(); MC_CHECK(n == base, "%lu nodes after the pipeline, %lu needed", n, base); } }
  s.checkLive("dags"); auto n = s.gc(); MC_CHECK(n == base, "%lu nodes after the pipelines, %lu needed", n, base); s.quit();
}
// chains and trees of many depths up to the largest (256) under every depth setting; one level more is refused and harmless
MC_SCENARIO(depths) {
  int o = mc::choose(3), set = mc::choose(8), depthI = mc::choose((int)mc::P("depths", 12)), shape = mc::choose(5), mode = mc::choose(6), over = depthI > 9 ? mc::choose(2) : 0, arm = mc::choose(8); mc::shardHere();
  static const int D[] = {1, 2, 3, 4, 5, 6, 7, 8, 11, 25, 255, 256}; int depth = D[depthI]; if (shape == 3 && depth > 7) return;
  static const TT pool[] = {0xe8, 0x3a, 0x69, 0xcc, 0x17, 0x96, 0xd2, 0x81}; Sys s; s.initOrder(p3()[o * 2]); for (TT t : pool) s.add(s.build(t), t); disarm(s);
  if (set < 7) { mc::op("Cal_PipelineSetDepth(%d)", set); Cal_PipelineSetDepth(s.m, set); }
  for (int rep = 0; rep < 2; rep++) {
    size_t base = s.slot.size(); Pipe pp(s, (o + rep) % 3); auto R = [&](int i) { return pp.real(s.slot[i % 8].h, s.slot[i % 8].t); };
    std::vector<int> level; 
    if (shape == 0) for (int i = 0; i < depth; i++) i ? pp.create(pp.prov(i - 1), R(i + 1)) : pp.create(R(0), R(1));
    if (shape == 1) for (int i = 0; i < depth; i++) i ? pp.create(R(i + 2), pp.prov(i - 1)) : pp.create(R(1), R(0));
    if (shape == 2) for (int i = 0; i < depth; i++) i > 1 ? pp.create(pp.prov(i - 1), pp.prov(i - 2)) : i ? pp.create(pp.prov(0), R(3)) : pp.create(R(0), R(1));
    if (shape == 3) { // pyramid
      for (int i = 0; i < 7; i++) { level.push_back((int)pp.p.size()); pp.create(R(i), R(i + 1)); } for (int l = 1; l < depth; l++) { std::vector<int> nx; for (size_t i = 0; i + 1 < level.size(); i++) { nx.push_back((int)pp.p.size()); pp.create(pp.prov(level[i]), pp.prov(level[i + 1])); } level = nx; } }
    if (shape == 4) for (int i = 0; i < depth; i++) { i ? pp.create(pp.prov((int)pp.p.size() - 1), R(i)) : pp.create(R(0), R(1)); pp.create(R(i), R(i + 3)); if (i) pp.create(pp.prov((int)pp.p.size() - 2), pp.prov((int)pp.p.size() - 1)); if (pp.d.back() >= 254) break; }
    int deepest = 0; for (size_t i = 0; i < pp.d.size(); i++) if (pp.d[i] > pp.d[deepest]) deepest = (int)i;
    if (over && pp.d[deepest] == 255) { Cal_Bdd x = Cal_PipelineCreateProvisionalBdd(s.m, pp.p[deepest], s.slot[0].h); mc::op("one level too many"); MC_CHECK(!x, "a provisional BDD beyond the maximal depth was created"); }
    pp.recognised(); if (arm) armMaint(s, maints()[(arm - 1) % 6], arm == 7 ? 2 : 0);
    pp.execute(); disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("execute"); pp.recognised();
    for (int i : updates(mode, (int)pp.p.size())) s.add(pp.update(i), pp.t[i]); pp.quit(); s.checkLive("after the pipeline");
    bool exact = pp.p.size() < 100; auto n = s.gc(); MC_CHECK(!exact || n == s.expectedNodes(), "%lu nodes after the pipeline, %lu needed", n, s.expectedNodes()); s.checkLive("after the pipeline and collection");
    while (s.slot.size() > base) { s.free(s.slot.back().h); s.slot.pop_back(); }
    n = s.gc(); MC_CHECK(!exact || n == s.expectedNodes(), "%lu nodes after freeing the results, %lu needed", n, s.expectedNodes());
    if (!exact) break;
  }
  s.quit();
}
// other calls between the phases of a pipeline
static void between(GSys &s, int ev) {
  auto fin = [&](const char *w) { disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged(w); };
  switch (ev) {
    case 0: break;
    case 1: s.gc(); break;
    case 2: { mc::op("And"); Cal_Bdd x = Cal_BddAnd(s.m, s.slot[0].h, s.slot[1].h); s.expect(x, s.slot[0].t & s.slot[1].t, "And"); s.add(x, s.slot[0].t & s.slot[1].t); break; }
    case 3: case 4: { int idx[3] = {0, 1, 2}; armMaint(s, maints()[ev - 3], 0); s.apply(gops()[4], idx, true); fin("Xor"); break; }
    case 5: case 6: case 7: case 8: { static const int T[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; mc::op("reorder %d", ev); Cal_BddDynamicReordering(s.m, T[ev & 1], ev < 7 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); fin("reorder"); break; }
    case 9: { int idx[3] = {2, 0, 1}; s.apply(gops()[8], idx, true); break; }
    case 10: { int idx[3] = {0, 1, 2}; s.apply(gops()[9], idx, true); break; }
    case 11: { mc::op("multiway And of 5"); Cal_Bdd x[] = {s.slot[0].h, s.slot[1].h, s.slot[2].h, s.slot[0].h, s.var[0], nullptr}; TT t = s.slot[0].t & s.slot[1].t & s.slot[2].t & VARTT[0]; Cal_Bdd r = Cal_BddMultiwayAnd(s.m, x); s.expect(r, t, "multiway"); s.add(r, t); break; }
    case 12: { int idx[3] = {0, 0, 0}; s.apply(gops()[15], idx, true); break; }
    case 13: s.newDummy(Sys::FIRST); break;
    case 14: s.newDummy(Sys::AFTER, 1); break;
    case 15: { int idx[3] = {1, 2, 0}; armMaint(s, maints()[2 + (s.n + (int)s.slot.size()) % 4], 0); s.apply(gops()[0], idx, true); fin("And"); break; }
    case 16: { size_t k = s.slot.size() - 1; if (k > 3) { s.free(s.slot[k].h); s.slot.pop_back(); mc::op("Free"); } break; }
    case 17: { std::vector<Cal_Bdd> x; TT t = 0; for (int i = 0; i < 40; i++) { x.push_back(s.slot[i % 3].h); t ^= s.slot[i % 3].t; } x.push_back(nullptr); mc::op("multiway Xor of 40"); Cal_Bdd r = Cal_BddMultiwayXor(s.m, x.data()); s.expect(r, t, "multiway"); s.add(r, t); break; }
  }
}
static const int NEV = 18;
MC_SCENARIO(phases) {
  int o = mc::choose(3), reg = mc::choose(2), e1 = mc::choose(NEV), e2 = mc::choose(NEV), e3 = mc::choose(NEV), shape = mc::choose((int)mc::P("shapes", 2)); mc::shardHere();
  GSys s; s.setup(p3()[o * 2], reg, {0xe8, 0x3a, 0x69}); disarm(s);
  Pipe pp(s, o); auto R = [&](int i) { return pp.real(s.slot[i].h, s.slot[i].t); };
  pp.create(R(0), R(1)); if (shape == 0) pp.create(pp.prov(0), R(2)); pp.create(R(2), pp.real(s.var[1], VARTT[1] & 0xff)); between(s, e1); if (shape == 0) pp.create(pp.prov(1), pp.prov(2)); else pp.create(R(1), R(2)); pp.recognised();
  s.checkLive("while a pipeline is being built"); pp.execute(); between(s, e2); pp.recognised(); s.checkLive("after execution"); Cal_Bdd a = pp.update(0); s.add(a, pp.t[0]); between(s, e3);
  for (size_t i = 1; i < pp.p.size(); i++) s.add(pp.update((int)i), pp.t[i]); pp.quit(); s.checkLive("after the pipeline"); s.checkOrder("after the pipeline");
  auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes after the pipeline, %lu needed", n, s.expectedNodes()); s.checkLive("end"); s.quit();
}
// successive pipelines interleaved with other operations
MC_SCENARIO(pipe_histories) {
  int reg = mc::choose(2), depth = (int)mc::P("depth", 3); GSys s; s.setup(p3()[reg * 4], reg, {0xe8, 0x3a, 0x69}); disarm(s);
  for (int i = 0; i < depth; i++) {
    int e = mc::choose(10 + NEV - 1);
    if (e >= 10) between(s, e - 9);
    else if (e == 9) { mc::op("Cal_PipelineSetDepth"); Cal_PipelineSetDepth(s.m, (i * 3 + reg) % 7); }
    else { int o = e % 3, k = (int)s.slot.size(); Pipe pp(s, o); auto R = [&](int i) { return pp.real(s.slot[i].h, s.slot[i].t); }; pp.create(R(k - 1), R(0));
      if (e >= 3) { pp.create(pp.prov(0), R(1)); pp.create(pp.prov(1), pp.prov(0)); if (e >= 6) { for (int j = 2; j < 5; j++) pp.create(pp.prov(j), R(j % 3)); armMaint(s, maints()[(i + e) % 6], i % 2); } }
      pp.execute(); disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("pipeline"); if (e != 3) s.add(pp.update((int)pp.p.size() - 1), pp.t.back()); if (e == 8) s.add(pp.update(1), pp.t[1]); pp.quit(); }
    s.checkLive("history"); s.checkOrder("history"); mc::state(s.hash());
  }
  auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes, %lu needed", n, s.expectedNodes()); int idx[3] = {0, 1, 2}; for (int g : {0, 4, 8, 9, 15, 17, 18}) s.apply(gops()[g], idx, true); s.checkLive("direct operations afterwards"); s.quit();
}
// many requests per level, and large operands with maintenance during the execution
MC_SCENARIO(pipe_wide) {
  static const int W[] = {1, 2, 7, 64, 300, 1000}; int o = mc::choose(3), w = W[mc::choose(6)], lv = 1 + mc::choose(6), arm = mc::choose(7), set = mc::choose(3); mc::shardHere();
  Sys s; s.initOrder({2, 0, 1}); for (TT t : {0xe8, 0x3a, 0x69, 0x17, 0x81, 0xcc}) s.add(s.build(t), t); disarm(s); if (set) Cal_PipelineSetDepth(s.m, set == 1 ? 0 : 3);
  Pipe pp(s, o); std::vector<int> prev; for (int l = 0; l < lv; l++) { std::vector<int> cur; for (int i = 0; i < w; i++) { auto R = [&](int j) { return pp.real(s.slot[j % 6].h, s.slot[j % 6].t); }; cur.push_back((int)pp.p.size()); if (!l) pp.create(R(i), R(i / 6 + l)); else pp.create(pp.prov(prev[(i * 7 + 1) % w]), i % 3 ? pp.prov(prev[i]) : R(i)); } prev = cur; }
  if (arm) armMaint(s, maints()[arm - 1], 0); pp.execute(); disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("execute");
  std::vector<Cal_Bdd> r; for (size_t i = 0; i < pp.p.size(); i++) r.push_back(pp.update((int)i)); pp.quit(); for (size_t i = 0; i < r.size(); i++) { s.expect(r[i], pp.t[i], "result after quit"); s.free(r[i]); }
  s.checkLive("wide"); auto n = s.gc(); MC_CHECK(w > 7 || n == s.expectedNodes(), "%lu nodes, %lu needed", n, s.expectedNodes()); s.quit();
}
MC_SCENARIO(pipe_large) {
  Big::N = (int)mc::P("bits", 11); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), o = mc::choose(3), arm = mc::choose(7), set = mc::choose(4); mc::shardHere();
  BigSys B; auto m = B.m(); auto op = [&](const Big &a, const Big &b) { Big r = a; for (unsigned x = 0; x < 1u << Big::N; x++) { bool p = a.get(x), q = b.get(x), v = o == 0 ? p && q : o == 1 ? p || q : p != q; if (v != p) { if (v) r.set(x); else r.w[x >> 6] &= ~(1ull << (x & 63)); } } return r; };
  std::vector<Big> t; std::vector<Cal_Bdd> h; for (int j = 0; j < 4; j++) { t.push_back(bigOf(F[(i + 5 * j) % nf].second)); h.push_back(B.build(t[j])); } if (set) Cal_PipelineSetDepth(m, set == 1 ? 0 : set);
  MC_CHECK(Cal_PipelineInit(m, OPS[o]) == 1, "init"); Cal_Bdd p0 = Cal_PipelineCreateProvisionalBdd(m, h[0], h[1]), p1 = Cal_PipelineCreateProvisionalBdd(m, h[2], h[3]), p2 = Cal_PipelineCreateProvisionalBdd(m, p0, p1), p3 = Cal_PipelineCreateProvisionalBdd(m, p2, h[1]), p4 = Cal_PipelineCreateProvisionalBdd(m, p3, p0);
  if (arm) armMaint(B.s, maints()[arm - 1], 0); MC_CHECK(Cal_PipelineExecute(m) == 1, "execute"); mc::ops(8); disarm(B.s); Cal_BddDynamicReordering(m, CAL_REORDER_NONE, 0);
  Big t0 = op(t[0], t[1]), t1 = op(t[2], t[3]), t2 = op(t0, t1), t3 = op(t2, t[1]), t4 = op(t3, t0); Cal_Bdd r4 = Cal_PipelineUpdateProvisionalBdd(m, p4), r2 = Cal_PipelineUpdateProvisionalBdd(m, p2), r0 = Cal_PipelineUpdateProvisionalBdd(m, p0); Cal_PipelineQuit(m);
  Cal_BddManagerGC(m); B.expect(r4, t4, "p4"); B.expect(r2, t2, "p2"); B.expect(r0, t0, "p0"); for (int j = 0; j < 4; j++) B.expect(h[j], t[j], "operand"); Cal_Bdd d = direct(m, o, h[0], h[1]); MC_CHECK(d == r0, "direct operation gives another handle"); Cal_BddFree(m, d);
  for (auto x : {r4, r2, r0}) Cal_BddFree(m, x); for (auto x : h) Cal_BddFree(m, x); Cal_BddManagerGC(m); MC_CHECK(Big::N > 8 || Cal_BddManagerGetNumNodes(m) == (unsigned)Big::N + 1, "nodes left"); B.s.quit();
}
// many variables: provisional BDDs over variables far apart; variables created after the depth was raised
MC_SCENARIO(pipe_layouts) {
  auto &L = layouts3(); int li = mc::choose((int)L.size()), o = mc::choose(3), set = mc::choose(4); mc::shardHere(); Sys s; s.init(); if (set & 1) Cal_PipelineSetDepth(s.m, 6); setupLayout(s, L[li]); if (set & 2) Cal_PipelineSetDepth(s.m, 5);
  for (TT t : {0xe8, 0x3a, 0x69, 0x17}) s.add(s.build(t), t); for (int r = 0; r < 3; r++) { s.newDummy(r & 1 ? Sys::FIRST : Sys::LAST); for (long q = r; q < 4 * 4 * 5 * 5 * 6 * 6; q += 29) dagProg(s, o, 3, q, 4, (int)(q % 6), 0, q % 5 == 0); s.checkLive("layouts"); }
  auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes, %lu needed", n, s.expectedNodes()); s.quit();
}
// operands that have nothing in common but through the pipeline: only pending results connect the variables, and a reordering while results are
// pending, called or in the middle of the execution, must respect what they connect
MC_SCENARIO(disjoint) {
  int n = (int)mc::P("vars", 5), o = mc::choose(3), shape = mc::choose(5), rot = mc::choose(n), set = mc::choose(4), arm = mc::choose(11), ord = mc::choose(3), upd = mc::choose(3); mc::shardHere();
  std::vector<int> pm(n); for (int i = 0; i < n; i++) pm[i] = ord == 0 ? i : ord == 1 ? n - 1 - i : i * 2 % (n | 1); if (ord == 2) { std::vector<int> z; for (int i = 0; i < n; i += 2) z.push_back(i); for (int i = 1; i < n; i += 2) z.push_back(i); pm = z; }
  Sys s; s.initOrder(pm); disarm(s); if (set) { mc::op("Cal_PipelineSetDepth(%d)", set); Cal_PipelineSetDepth(s.m, set); }
  for (int i = 0; i < n; i++) { bool neg = (i + rot) % 3 == 1; TT t = (neg ? ~VARTT[i] : VARTT[i]) & full(n); s.add(neg ? Cal_BddNot(s.m, s.var[i]) : Cal_BddIdentity(s.m, s.var[i]), t); }
  Pipe pp(s, o); auto R = [&](int i) { int k = ((i % n) + n + rot) % n; return pp.real(s.slot[k].h, s.slot[k].t); };
  if (shape == 0) for (int i = 0; i + 1 < n; i++) i ? pp.create(pp.prov(i - 1), R(i + 1)) : pp.create(R(0), R(1));                           // chain
  if (shape == 1) for (int i = 0; i + 1 < n; i++) i ? pp.create(R(n - 1 - (i + 1) / 2 * (i & 1 ? 1 : 1)), pp.prov(i - 1)) : pp.create(R(n - 1), R(0)); // chain, other side
  if (shape == 2) { pp.create(R(0), R(2)); pp.create(R(1), R(3)); pp.create(pp.prov(0), pp.prov(1)); pp.create(pp.prov(2), R(4)); }          // tree
  if (shape == 3) { pp.create(R(0), R(n - 1)); pp.create(pp.prov(0), R(1)); pp.create(R(2), R(3)); pp.create(pp.prov(1), pp.prov(2)); pp.create(pp.prov(3), pp.prov(0)); }
  if (shape == 4) { for (int i = 0; i + 1 < n; i++) pp.create(R(i), R(i + 1)); int k = n - 1; pp.create(pp.prov(0), pp.prov(2)); pp.create(pp.prov(k), pp.prov(1)); }
  if (arm >= 5) armMaint(s, maints()[arm - 5], 0); pp.execute(); disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("execute"); pp.recognised();
  if (upd == 1) for (auto &x : s.slot) { s.free(x.h); x.h = 0; }                                                                             // only pending results remain
  for (int r = 0; r < 2; r++) if (arm >= 1 && arm <= 4) { static const int T[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; int x = r ? 5 - arm : arm; mc::op("reorder %d with pending results", x); Cal_BddDynamicReordering(s.m, T[x & 1], x < 3 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); }
  int k = (int)pp.p.size(); if (upd == 2) { s.add(pp.update(k - 1), pp.t[k - 1]); } else for (int i = 0; i < k; i++) s.add(pp.update(i), pp.t[i]);
  s.checkLive("pending results updated"); s.checkOrder("pending results updated"); pp.quit(); s.checkLive("after the pipeline");
  for (auto &x : s.slot) if (x.h) { Cal_Bdd y = s.mk(x.t); MC_CHECK(y == x.h, "the result of the pipeline is not the canonical BDD of %s", hx(x.t)); Cal_BddFree(s.m, y); }
  Cal_BddDynamicReordering(s.m, CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); s.checkLive("reordered after the pipeline"); auto g = s.gc(); MC_CHECK(g == s.expectedNodes(), "%lu nodes after the pipeline, %lu needed", g, s.expectedNodes()); mc::state(s.hash()); s.quit();
}
// wrong use is refused without harm
MC_SCENARIO(misuse) {
  int k = mc::choose(8), o = mc::choose(3); mc::shardHere(); GSys s; s.setup(p3()[0], 0, {0xe8, 0x3a, 0x69}); disarm(s); auto m = s.m; auto f = s.slot[0].h, g = s.slot[1].h;
  if (k == 0) { MC_CHECK(!Cal_PipelineCreateProvisionalBdd(m, f, g), "provisional BDD without pipeline"); MC_CHECK(Cal_PipelineExecute(m) == 0, "executed without pipeline"); }
  if (k == 1) { MC_CHECK(Cal_PipelineInit(m, OPS[o]) == 1, "init"); MC_CHECK(Cal_PipelineInit(m, OPS[o]) == 0, "initialised twice"); Cal_PipelineQuit(m); }
  if (k == 2) { Pipe p(s, o); p.create(p.real(f, 0xe8), p.real(g, 0x3a)); MC_CHECK(!Cal_PipelineUpdateProvisionalBdd(m, p.p[0]), "updated before execution"); p.execute(); MC_CHECK(!Cal_PipelineCreateProvisionalBdd(m, f, g), "created after execution"); MC_CHECK(Cal_PipelineExecute(m) == 0, "executed twice"); MC_CHECK(Cal_PipelineInit(m, OPS[o]) == 0, "initialised while in use"); s.add(p.update(0), p.t[0]); p.quit(); }
  if (k == 3) { Pipe p(s, o); p.quit(); }
  if (k == 4) { Pipe p(s, o); p.execute(); p.quit(); }
  if (k == 5) { Pipe p(s, o); p.create(p.real(f, 0xe8), p.real(g, 0x3a)); p.create(p.prov(0), p.real(g, 0x3a)); p.quit(); }
  if (k == 6) { static const Cal_BddOp_t bad[] = {(Cal_BddOp_t)3, (Cal_BddOp_t)17, (Cal_BddOp_t)-1}; MC_CHECK(Cal_PipelineInit(m, bad[o]) == 0, "unsupported operation accepted"); }
  if (k == 7) { Cal_PipelineQuit(m); Cal_PipelineQuit(m); }
  for (int i = 0; i < 3; i++) { Pipe p(s, (o + i) % 3); p.create(p.real(f, 0xe8), p.real(g, 0x3a)); p.create(p.prov(0), p.real(s.slot[2].h, 0x69)); p.execute(); s.add(p.update(1), p.t[1]); p.quit(); s.checkLive("misuse"); }
  auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes, %lu needed", n, s.expectedNodes()); s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

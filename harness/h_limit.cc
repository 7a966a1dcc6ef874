// The node limit (C18): overflow at every point of every operation, propagation of null results, recovery.
#include "gops.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static const TT FAM[] = {0xe8, 0x3a, 0x69, 0x17, 0xcc, 0x00, 0xff, 0x96};
static void quiet(Sys &s) { disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); }
// the next boundary after `at` new nodes checks the limit
static void armLimit(Sys &s, long limit, int at, int kind) { mc::op("Cal_BddNodeLimit(%ld)", limit); Cal_BddNodeLimit(s.m, limit); armMaint(s, maints()[kind], at); }
static void noLimit(Sys &s) { mc::op("Cal_BddNodeLimit(0)"); Cal_BddNodeLimit(s.m, 0); quiet(s); }
struct Lim : GSys {
  // one operation under a limit: right result, or null with the overflow reported; returns whether it overflowed
  bool limited(const GOp &g, const int *idx, long limit, int at, int kind, bool keep) {
    Cal_Bdd a[3]; TT t[3]; for (int i = 0; i < g.nb; i++) { a[i] = slot[idx[i]].h; t[i] = slot[idx[i]].t; }
    if (!g.pre(*this, t)) return false;
    Cal_BddOverflow(m); armLimit(*this, limit, at, kind); auto before = order;
    mc::op("%s(%s,%s,%s) under the limit", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-"); Hs h = g.run(*this, a); quiet(*this); orderChanged(g.name);
    bool null = false, some = false; for (auto x : h) (x ? some : null) = true;
    if (!null) { noLimit(*this); Cal_BddOverflow(m); judge(g, t, h, keep, before); return false; }
    MC_CHECK(!some, "%s: some but not all results are null", g.name);
    MC_CHECK(Cal_BddOverflow(m) == 1, "%s returned null, but the overflow is not reported", g.name); MC_CHECK(Cal_BddOverflow(m) == 0, "the overflow is reported twice");
    checkLive("after an overflow"); auto n = gc(); MC_CHECK(n == expectedNodes(), "%s: %lu nodes after an overflow, %lu needed", g.name, n, expectedNodes());
    // the null result is propagated
    Cal_Bdd x = Cal_BddAnd(m, nullptr, slot[0].h); MC_CHECK(!x, "And(null,f) is not null"); x = Cal_BddITE(m, slot[0].h, nullptr, slot[1].h); MC_CHECK(!x, "ITE(f,null,g) is not null");
    // with the limit out of the way the operation succeeds; the overflow was not spurious
    noLimit(*this); before = order; h = g.run(*this, a); MC_CHECK(Cal_BddOverflow(m) == 0, "%s: overflow without a limit", g.name); size_t k = slot.size();
    judge(g, t, h, true, before); auto needed = expectedNodes(); MC_CHECK((long)needed > limit || kind > 1 || !strcmp(g.name, "Reduce") || !strcmp(g.name, "Between"), "%s returned null though only %lu nodes are needed and the limit is %ld", g.name, needed, limit);
    if (!keep) while (slot.size() > k) { free(slot.back().h); slot.pop_back(); }
    return true;
  }
};
MC_SCENARIO(single) {
  int g = mc::choose((int)gops().size()), kind = mc::choose(6), at = mc::choose(4), below = mc::choose((int)mc::P("limits", 7)), reg = mc::choose(2), ord = mc::choose(2) * 3; mc::shardHere();
  Lim s; s.setup(p3()[ord], reg, {FAM[0], FAM[1]}); disarm(s); for (int i = 2; i < 7; i++) s.add(s.build(FAM[i]), FAM[i]); int over = 0; const GOp &op = gops()[g];
  int N = 7, total = op.nb == 1 ? N : op.nb == 2 ? N * N : N * N * 3;
  for (int q = 0; q < total; q++) { int idx[3] = {q % N, q / N % N, q / N / N * 2 + 1};
    // fewer live functions, so that results need new nodes: the operands only
    Lim t; t.setup(p3()[ord], reg, {}); disarm(t); int loc[3]; std::vector<int> have; for (int i = 0; i < op.nb; i++) { int w = -1; for (size_t j = 0; j < have.size(); j++) if (have[j] == idx[i]) w = (int)j; if (w < 0) { w = (int)have.size(); have.push_back(idx[i]); t.add(t.build(FAM[idx[i]]), FAM[idx[i]]); } loc[i] = w; }
    while (t.slot.size() < 2) t.add(t.build(FAM[0]), FAM[0]);
    long base = (long)t.gc(); if (t.limited(op, loc, std::max(1L, base - 2 + below), at, kind, q & 1)) over++;
    t.checkLive("end"); auto n = t.gc(); MC_CHECK(n == t.expectedNodes(), "%s: %lu nodes, %lu needed", op.name, n, t.expectedNodes()); t.quit(); }
  s.quit(); mc::op("%d overflows", over);
}
// histories in which results may be null: null operands give null results, nothing else changes; freeing or raising the limit makes operations succeed again
MC_SCENARIO(limit_histories) {
  int depth = (int)mc::P("depth", 4), reg = mc::choose(2), L = mc::choose((int)mc::P("limits", 5)), kind = mc::choose((int)mc::P("kinds", 3)) * 2 % 6; Lim s; s.setup(p3()[reg * 4], reg, {0xe8, 0x3a}); disarm(s); s.add(s.build(0x69), 0x69);
  static const int OPS[] = {0, 4, 5, 8, 12, 13, 15, 17, 19, 24, 25}; long limit = (long)s.gc() - 1 + L; Cal_Bdd last = s.slot[2].h; TT lastT = 0x69; bool lastNull = false; int nulls = 0;
  for (int i = 0; i < depth; i++) {
    int e = mc::choose(16);
    if (e < 11) {   // operand 0: the last result, possibly null; the others: fixed functions
      const GOp &g = gops()[OPS[e]]; Cal_Bdd a[3] = {last, s.slot[i % 3].h, s.slot[(i + 1) % 3].h}; TT t[3] = {lastT, s.slot[i % 3].t, s.slot[(i + 1) % 3].t}; if (!lastNull && !g.pre(s, t)) continue;
      Cal_BddOverflow(s.m); armLimit(s, limit, 1 + i % 2, kind); auto before = s.order; mc::op("%s(%s,...)", g.name, lastNull ? "null" : hx(t[0])); Hs h = g.run(s, a); quiet(s); s.orderChanged(g.name); int ov = Cal_BddOverflow(s.m); bool null = false; for (auto x : h) null |= !x;
      if (lastNull) { MC_CHECK(null || h.empty(), "%s of null is not null", g.name); for (auto x : h) if (x) Cal_BddFree(s.m, x); }
      else if (null) { for (auto x : h) MC_CHECK(!x, "%s: some but not all results are null", g.name); MC_CHECK(ov == 1, "%s returned null, but no overflow is reported", g.name); MC_CHECK(Cal_BddOverflow(s.m) == 0, "overflow reported twice"); lastNull = true; last = nullptr; nulls++; }
      else { s.judge(g, t, h, true, before); last = s.slot.back().h; lastT = s.slot.back().t; }
    } else if (e == 11) { if (s.slot.size() > 3) { bool was = s.slot.back().h == last; s.free(s.slot.back().h); s.slot.pop_back(); mc::op("Free"); if (was || lastNull) { last = s.slot.back().h; lastT = s.slot.back().t; lastNull = false; } } }
    else if (e == 12) { limit += 2; mc::op("limit raised"); if (lastNull) { last = s.slot[0].h; lastT = s.slot[0].t; lastNull = false; } }
    else if (e == 13) { limit = limit > 3 ? limit - 2 : 1; mc::op("limit lowered"); }
    else if (e == 14) s.gc();
    else { Cal_BddReorder(s.m); s.newDummy(Sys::FIRST); }
    s.checkLive("history"); mc::state(mc::mix(s.hash(), limit * 2 + lastNull));
  }
  noLimit(s); int idx[3] = {0, 1, 2}; for (int g : {0, 4, 8, 15, 17}) s.apply(gops()[g], idx, true); MC_CHECK(Cal_BddOverflow(s.m) == 0, "overflow without a limit");
  s.checkLive("end"); auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes, %lu needed", n, s.expectedNodes()); s.quit();
}
// large functions, public interface only: the limit takes effect, and is survivable
MC_SCENARIO(limit_large) {
  Big::N = (int)mc::P("bits", 10); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), li = mc::choose(5), o = mc::choose(4), how = mc::choose(2); mc::shardHere(); static const long LS[] = {1, 40, 150, 600, 4000};
  BigSys B; auto m = B.m(); std::vector<Big> t; std::vector<Cal_Bdd> h; for (int j = 0; j < 5; j++) { t.push_back(bigOf(F[(i + 3 * j) % nf].second)); h.push_back(B.build(t[j])); } Cal_BddManagerGC(m); unsigned long base = Cal_BddManagerGetNumNodes(m); size_t own = h.size();
  MC_CHECK(Cal_BddNodeLimit(m, -5) == 0, "initial limit is not 0"); MC_CHECK(Cal_BddNodeLimit(m, 77) == 0, "a negative limit is not no limit"); long L = how ? (long)base + LS[li] : LS[li] * 3; MC_CHECK(Cal_BddNodeLimit(m, L) == 77, "old limit not returned");
  auto big = [&](const Big &a, const Big &b) { Big r; for (size_t w = 0; w < r.w.size(); w++) r.w[w] = o == 0 ? a.w[w] & b.w[w] : o == 1 ? a.w[w] | b.w[w] : o == 2 ? a.w[w] ^ b.w[w] : (a.w[w] & b.w[w]) | (~a.w[w] & a.w[w ^ 1]); return r; };
  (void)big; auto val = [&](int x, int y) { Big r; for (size_t w = 0; w < r.w.size(); w++) { uint64_t a = t[x].w[w], b = t[y].w[w], c = t[(x + 1) % 5].w[w]; r.w[w] = o == 0 ? a & b : o == 1 ? a | b : o == 2 ? a ^ b : (a & b) | (~a & c); } return r; };
  auto run = [&](int x, int y) { return o == 0 ? Cal_BddAnd(m, h[x], h[y]) : o == 1 ? Cal_BddOr(m, h[x], h[y]) : o == 2 ? Cal_BddXor(m, h[x], h[y]) : Cal_BddITE(m, h[x], h[y], h[(x + 1) % 5]); };
  int overflows = 0; for (int k = 0; k < 60; k++) { int x = k % (int)h.size(), y = (k * 7 + 3) % (int)h.size(); Big want = val(x, y); mc::op("op %d on %d and %d, %lu nodes, limit %ld", o, x, y, Cal_BddManagerGetNumNodes(m), L); Cal_Bdd r = run(x, y); int ov = Cal_BddOverflow(m);
    MC_CHECK(r || ov == 1, "null without an overflow"); MC_CHECK(Cal_BddOverflow(m) == 0, "overflow reported twice");
    if (r) { B.expect(r, want, "result under the limit"); h.push_back(r); t.push_back(want); if (h.size() > 40) { for (size_t j = own; j < 20; j++) { Cal_BddFree(m, h[j]); } h.erase(h.begin() + own, h.begin() + 20); t.erase(t.begin() + own, t.begin() + 20); } }
    else { overflows++; Cal_BddManagerGC(m); if (overflows % 3 == 0) for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], "live function after an overflow"); if (overflows % 5 == 4) { Cal_BddNodeLimit(m, 0); r = run(x, y); MC_CHECK(r, "null without a limit"); B.expect(r, want, "result without a limit"); Cal_BddFree(m, r); Cal_BddNodeLimit(m, L); } if (overflows % 7 == 6 && h.size() > own) { Cal_BddFree(m, h.back()); h.pop_back(); t.pop_back(); } }
    if (how || overflows == 0) { Cal_BddManagerGC(m); MC_CHECK((long)Cal_BddManagerGetNumNodes(m) <= std::max(L, (long)base) + 1500, "%lu nodes in use with a limit of %ld", Cal_BddManagerGetNumNodes(m), L); } }
  Cal_BddNodeLimit(m, 0); Cal_BddOverflow(m); for (int k = 0; k < 5; k++) { Big want = val(k, (k + 2) % 5); Cal_Bdd r = run(k, (k + 2) % 5); MC_CHECK(r && !Cal_BddOverflow(m), "overflow without a limit"); B.expect(r, want, "result after the limit was removed"); Cal_BddFree(m, r); }
  for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], "live function at the end"); B.s.quit(); }
// overflow during the execution of a pipeline
MC_SCENARIO(limit_pipeline) {
  static const Cal_BddOp_t OPS[] = {CAL_AND, CAL_OR, CAL_XOR}; int o = mc::choose(3), levels = 1 + mc::choose(6), set = mc::choose(4), below = mc::choose(12), at = mc::choose(3), kind = mc::choose(6), after = mc::choose(6), reg = mc::choose(2); mc::shardHere();
  Lim s; s.setup(p3()[o * 2], reg, {0xe8, 0x3a, 0x69}); disarm(s); auto m = s.m; Cal_PipelineSetDepth(m, set); long base = (long)s.gc();
  auto opTT = [&](TT a, TT b) { return (o == 0 ? a & b : o == 1 ? a | b : a ^ b) & 0xff; }; static const TT P[] = {0x17, 0x96, 0xd2, 0x81};
  for (int rep = 0; rep < 2; rep++) {
    size_t keep = s.slot.size(); MC_CHECK(Cal_PipelineInit(m, OPS[o]) == 1, "init"); mc::op("pipeline"); std::vector<Cal_Bdd> p; std::vector<TT> t; 
    for (int l = 0; l < levels; l++) { int a = l % 3, b = (l + 1) % 3; p.push_back(l ? Cal_PipelineCreateProvisionalBdd(m, p[2 * l - 2], s.slot[b].h) : Cal_PipelineCreateProvisionalBdd(m, s.slot[a].h, s.slot[b].h)); t.push_back(l ? opTT(t[2 * l - 2], s.slot[b].t) : opTT(s.slot[a].t, s.slot[b].t)); p.push_back(l ? Cal_PipelineCreateProvisionalBdd(m, p[2 * l - 1], p[2 * l - 2]) : Cal_PipelineCreateProvisionalBdd(m, s.slot[b].h, s.slot[2 - a].h)); t.push_back(l ? opTT(t[2 * l - 1], t[2 * l - 2]) : opTT(s.slot[b].t, s.slot[2 - a].t)); }
    (void)P; Cal_BddOverflow(m); armLimit(s, std::max(1L, base - 1 + below), at, kind); mc::op("Cal_PipelineExecute under the limit"); int r = Cal_PipelineExecute(m); quiet(s); s.orderChanged("execute"); int ov = Cal_BddOverflow(m); MC_CHECK(r == 1 || ov == 1, "execution failed without an overflow"); s.checkLive("after the execution");
    bool done = r == 1; if (!done) {
      MC_CHECK(!Cal_PipelineUpdateProvisionalBdd(m, p[0]), "updated though the execution failed");
      if (after == 1 || after == 2) { if (after == 2) s.gc(); noLimit(s); mc::op("execute again"); MC_CHECK(Cal_PipelineExecute(m) == 1, "not executed without a limit"); MC_CHECK(!Cal_BddOverflow(m), "overflow without a limit"); done = true; }
      if (after == 3) { Cal_Bdd x = Cal_PipelineCreateProvisionalBdd(m, s.slot[0].h, s.slot[1].h); if (x) { noLimit(s); MC_CHECK(Cal_PipelineExecute(m) == 1, "not executed"); Cal_Bdd y = Cal_PipelineUpdateProvisionalBdd(m, x); s.expect(y, opTT(s.slot[0].t, s.slot[1].t), "provisional BDD created after an overflow"); Cal_BddFree(m, y); done = true; } }
      if (after == 4) { noLimit(s); s.gc(); int idx[3] = {0, 1, 2}; s.apply(gops()[4], idx, false); s.apply(gops()[9], idx, false); Cal_BddDynamicReordering(m, CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF); Cal_BddReorder(m); s.orderChanged("reorder"); quiet(s); s.checkLive("pending"); }
      if (after == 5) { // executed again under a limit that grows
        for (int k = 1; !done && k < 30; k++) { armLimit(s, base + below + k, at, kind); r = Cal_PipelineExecute(m); quiet(s); s.orderChanged("execute"); ov = Cal_BddOverflow(m); MC_CHECK(r == 1 || ov == 1, "execution failed without an overflow"); done = r == 1; } MC_CHECK(done, "the pipeline never completes"); }
    }
    noLimit(s); if (done) for (size_t i = 0; i < p.size(); i += 1 + rep) { Cal_Bdd x = Cal_PipelineUpdateProvisionalBdd(m, p[i]); s.expect(x, t[i], "updated BDD"); s.add(x, t[i]); }
    mc::op("quit"); Cal_PipelineQuit(m); s.checkLive("after the pipeline"); auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes after the pipeline, %lu needed", n, s.expectedNodes());
    while (s.slot.size() > keep) { s.free(s.slot.back().h); s.slot.pop_back(); } n = s.gc(); MC_CHECK((long)n == base || kind > 1, "%lu nodes, %ld at the start", n, base); base = (long)n;
  }
  s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

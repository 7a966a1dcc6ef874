// Dump and undump (C13), undump of damaged input (C14).
#include "dumpio.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static std::vector<std::vector<int>> &p4() { static auto p = perms(4); return p; }
struct Method { const char *name; int technique, method; };
static const Method METHODS[] = {{"BF sift", CAL_REORDER_SIFT, CAL_REORDER_METHOD_BF}, {"BF window", CAL_REORDER_WINDOW, CAL_REORDER_METHOD_BF}, {"DF sift", CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF}, {"DF window", CAL_REORDER_WINDOW, CAL_REORDER_METHOD_DF}};
static void reorder(Sys &s, int k) { mc::op("Cal_BddReorder (%s)", METHODS[k].name); Cal_BddDynamicReordering(s.m, METHODS[k].technique, METHODS[k].method); Cal_BddReorder(s.m); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, METHODS[k].method); s.orderChanged(METHODS[k].name); }

// ---------------------------------------------------------------- C13
// all functions of 3 variables x all orders x all lists for writing and reading, same and other manager
MC_SCENARIO(round3) {
  int o = mc::choose(6), lw = mc::choose(6); mc::shardHere();
  Sys s; s.initOrder(p3()[o]); auto &W = p3()[lw];
  std::vector<std::string> d(256); unsigned long base = s.gc();
  for (TT t = 0; t < 256; t++) {
    Cal_Bdd f = s.mk(t); d[t] = dump(s, f, list(s, W), hx(t)); s.expect(f, t, "dumped BDD");
    for (int lr = 0; lr < 6; lr++) { auto &R = p3()[lr]; Cal_Bdd g = undump(s, list(s, R), d[t]); s.expect(g, moved(t, W, R, 3), "undump"); if (lr == lw) MC_CHECK(g == f, "undump with the same list gave another handle"); Cal_BddFree(s.m, g); }
    Cal_BddFree(s.m, f); if (t % 16 == 5) { auto g = s.gc(); MC_CHECK(g == base, "%lu nodes after everything was freed, %lu needed", g, base); }
  }
  s.checkLive("round3"); s.checkOrder("round3"); auto g = s.gc(); MC_CHECK(g == base, "%lu nodes after everything was freed, %lu needed", g, base); s.quit();
  for (int o2 = 0; o2 < 6; o2++) {
    Sys z; z.initOrder(p3()[o2]); for (TT t = 0; t < 256; t++) { auto &R = p3()[(t + o2) % 6]; Cal_Bdd g = undump(z, list(z, R), d[t]); z.expect(g, moved(t, W, R, 3), "undump in another manager"); Cal_Bdd h = z.mk(moved(t, W, R, 3)); MC_CHECK(g == h, "undump gave another handle than building the function"); Cal_BddFree(z.m, h);
      auto n = t % 4 ? 0 : z.gc(); if (t % 4 == 0) { z.add(g, moved(t, W, R, 3)); MC_CHECK(n == z.expectedNodes(), "%lu nodes after collection while the result is live, %lu needed", n, z.expectedNodes()); z.expect(g, moved(t, W, R, 3), "result after collection"); z.slot.clear(); } Cal_BddFree(z.m, g); }
    auto n = z.gc(); MC_CHECK(n == 4, "%lu nodes after everything was freed", n); z.quit();
  }
}
// functions of 4 variables: longer lists, extra variables in the list, lists shorter than the number of variables
MC_SCENARIO(round4) {
  int o = mc::choose(24), hi = mc::choose(32); mc::shardHere(); long stride = mc::P("stride", 8);
  Sys s; s.initOrder(p4()[o]); Sys z; z.initOrder(p4()[(o * 7 + 5) % 24]); 
  auto &W = p4()[(o * 5 + hi) % 24]; auto &R = p4()[(hi * 11 + 3) % 24]; int k = 0;
  for (TT t = hi + 32 * (o % stride); t < 65536; t += 32 * stride) {
    for (int i = 0; i < 6; i++) idBit[i + 1] = i;
    Cal_Bdd f = s.mk(t); std::vector<int> w = W, r = R; 
    // drop variables outside the support from the list, sometimes
    if (k & 1) { for (size_t i = 0; i < w.size();) if (!depends(t, w[i])) { w.erase(w.begin() + i); r.erase(r.begin() + i); } else i++; }
    std::string d = dump(s, f, list(s, w), hx(t)); Cal_Bdd g = undump(s, list(s, w), d); MC_CHECK(g == f, "undump with the same list gave another handle"); s.expect(f, t, "dumped BDD");
    Cal_Bdd q = undump(s, list(s, r), d); s.expect(q, moved(t, w, r, 4), "undump"); Cal_Bdd x = undump(z, list(z, r), d); z.expect(x, moved(t, w, r, 4), "undump in another manager");
    for (auto h : {f, g, q}) Cal_BddFree(s.m, h); Cal_BddFree(z.m, x); if (++k % 32 == 0) { auto n1 = s.gc(), n2 = z.gc(); MC_CHECK(n1 == 5 && n2 == 5, "%lu and %lu nodes after everything was freed", n1, n2); }
  }
  s.checkLive("round4"); z.checkLive("round4"); s.quit(); z.quit();
}
// lists that are refused
MC_SCENARIO(refused) {
  int o = mc::choose(6), len = mc::choose(4); mc::shardHere();
  Sys s; s.initOrder(p3()[o]); std::vector<TT> keep = {0xe8, 0x96}; for (TT t : keep) s.add(s.build(t), t);
  int tot = 1; for (int i = 0; i < len; i++) tot *= 5; Cal_Bdd nv = Cal_BddNot(s.m, s.var[1]), one = Cal_BddOne(s.m);
  Cal_Bdd pool[] = {s.var[0], s.var[1], s.var[2], nv, s.slot[0].h};
  for (int q = 0; q < tot; q++) {
    std::vector<Cal_Bdd> l; unsigned set = 0; bool dup = false, bad = false; for (int i = 0, x = q; i < len; i++, x /= 5) { int e = x % 5; l.push_back(pool[e]); if (e < 3) { if (set >> e & 1) dup = true; set |= 1u << e; } else bad = true; } l.push_back(nullptr);
    for (TT t = 0; t < 256; t++) {
      Cal_Bdd f = s.mk(t); OutFile of; int r = Cal_BddDumpBdd(s.m, f, l.data(), of.fp); mc::op("dump(%s)", hx(t)); std::string d = of.done();
      bool miss = supportOf(t, 3) & ~set; if (miss) MC_CHECK(r == 0, "a list that misses a support variable was accepted for %s", hx(t)); else if (!bad && !dup) MC_CHECK(r == 1, "a list that covers the support was refused for %s", hx(t));
      if (dup || bad) MC_CHECK(r == 0, "a list with repeated variables or other BDDs than variables was accepted");
      s.expect(f, t, "BDD after dump"); Cal_BddFree(s.m, f);
      if (r) { Cal_Bdd g = undump(s, l, d); s.expect(g, t, "undump"); Cal_BddFree(s.m, g); }
    }
    s.checkLive("refused"); auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes after collection, %lu needed", n, s.expectedNodes());
  }
  Cal_BddFree(s.m, nv); Cal_BddFree(s.m, one); s.quit();
}
// many variables: index width of 1 and 2 bytes
MC_SCENARIO(wide) {
  auto &L = layouts3(); int li = mc::choose((int)L.size()), perm = mc::choose(3), rest = mc::choose(5); mc::shardHere();
  Sys s; setupLayout(s, L[li]);
  // the list: all tracked variables and the first k dummies, in the order of p
  int k = rest == 0 ? 0 : rest == 1 ? (int)s.dummy.size() : rest == 2 ? std::min((int)s.dummy.size(), 252) : rest == 3 ? std::min((int)s.dummy.size(), 253) : std::min((int)s.dummy.size(), 254);
  std::vector<Cal_Bdd> l; for (int i = 0; i < 3; i++) l.push_back(s.var[i]); l.insert(perm == 1 ? l.begin() + 1 : perm == 2 ? l.begin() : l.end(), s.dummy.begin(), s.dummy.begin() + k); if (perm == 2) std::reverse(l.begin(), l.end());
  std::vector<Cal_Bdd> l2 = l; for (auto &x : l2) { if (x == s.var[0]) x = s.var[1]; else if (x == s.var[1]) x = s.var[2]; else if (x == s.var[2]) x = s.var[0]; } l.push_back(nullptr); l2.push_back(nullptr);
  for (TT t = 0; t < 256; t++) { Cal_Bdd f = s.mk(t); std::string d = dump(s, f, l, hx(t)); Cal_Bdd g = undump(s, l, d), h = undump(s, l2, d); MC_CHECK(g == f, "undump with the same list of %zu variables gave another handle", l.size() - 1); s.expect(h, moved(t, {0, 1, 2}, {1, 2, 0}, 3), "undump"); for (auto q : {f, g, h}) Cal_BddFree(s.m, q); }
  s.checkLive("wide"); auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes left, %lu needed", n, s.expectedNodes()); s.quit();
}
// diagrams whose nodes have a prescribed number of parents and prescribed numbers of shared nodes
struct Chain { Sys s; std::vector<Cal_Bdd> v; Cal_BddManager m; Chain(int n) { s.init(); m = s.m; for (int i = 0; i < n; i++) v.push_back(Cal_BddManagerCreateNewVarLast(m)); } std::vector<Cal_Bdd> all() { auto l = v; l.push_back(nullptr); return l; }
  void round(Cal_Bdd f, const char *what) {
    std::string d = dump(s, f, all(), what); long size = Cal_BddSize(m, f, 1); MC_CHECK((long)d.size() <= 1000 + size * 200, "%s: dump of %ld nodes takes %zu bytes", what, size, d.size());
    Cal_Bdd g = undump(s, all(), d); MC_CHECK(g == f, "%s: undump with the same list gave another handle", what); MC_CHECK(Cal_BddSize(m, g, 1) == size, "size changed"); Cal_BddFree(m, g);
    std::string d2 = dump(s, f, all(), what); MC_CHECK(d == d2, "%s: dumping twice gave different files", what);
    Cal_Bdd n = Cal_BddNot(m, f), k = undump(s, all(), dump(s, n, all(), what)); MC_CHECK(k == n, "%s: complement restored to another handle", what); Cal_BddFree(m, n); Cal_BddFree(m, k); } };
MC_SCENARIO(chains) {
  static const int N[] = {2, 3, 5, 8, 16, 24, 40, 64, 129, 254, 255, 256, 257, 258, 300}; int kind = mc::choose(6), n = N[mc::choose(15)]; mc::shardHere();
  Chain c(n); auto m = c.m; std::vector<Cal_Bdd> A(n + 1), B(n + 1); A[n] = Cal_BddZero(m); B[n] = kind & 1 ? Cal_BddOne(m) : Cal_BddZero(m);
  for (int i = n - 1; i >= 0; i--) {
    Cal_Bdd na = Cal_BddNot(m, A[i + 1]), nb = Cal_BddNot(m, B[i + 1]);
    A[i] = kind < 2 ? Cal_BddITE(m, c.v[i], na, A[i + 1]) : kind < 4 ? Cal_BddITE(m, c.v[i], B[i + 1], A[i + 1]) : Cal_BddITE(m, c.v[i], A[i + 1], nb);
    B[i] = kind < 2 ? Cal_BddITE(m, c.v[i], A[i + 1], B[i + 1]) : kind < 4 ? Cal_BddITE(m, c.v[i], A[i + 1], nb) : Cal_BddITE(m, c.v[i], nb, A[i + 1]);
    Cal_BddFree(m, na); Cal_BddFree(m, nb);
  }
  mc::ops(4 * n); c.round(A[0], "chain A"); c.round(B[0], "chain B"); Cal_Bdd x = Cal_BddXor(m, A[0], B[1]); c.round(x, "chain A xor B"); Cal_BddFree(m, x);
  for (int i = 0; i <= n; i++) { Cal_BddFree(m, A[i]); Cal_BddFree(m, B[i]); } Cal_BddManagerGC(m); MC_CHECK((int)Cal_BddManagerGetNumNodes(m) == n + 1, "%lu nodes left", Cal_BddManagerGetNumNodes(m)); c.s.quit();
}
// symmetric functions (number of true variables modulo k in a set): about n*k shared nodes, around the 1-2 byte and 2-3 byte limits
MC_SCENARIO(symmetric) {
  static const int C[][2] = {{20, 2}, {20, 3}, {24, 13}, {33, 8}, {34, 8}, {35, 8}, {36, 8}, {36, 9}, {37, 9}, {70, 16}, {200, 100}, {300, 215}, {340, 215}, {400, 200}}; int i = mc::choose(14), r = mc::choose(2); if (C[i][0] * C[i][1] > mc::P("nodes", 21000)) throw mc::Prune(); mc::shardHere();
  int n = C[i][0], k = C[i][1]; Chain c(n); auto m = c.m; std::vector<Cal_Bdd> R(k); for (int j = 0; j < k; j++) R[j] = (j * 7 / 3 + r) % 3 == 0 ? Cal_BddOne(m) : Cal_BddZero(m);
  for (int l = n - 1; l >= 0; l--) { std::vector<Cal_Bdd> Q(k); for (int j = 0; j < k; j++) Q[j] = Cal_BddITE(m, c.v[l], R[(j + 1) % k], R[j]); for (auto x : R) Cal_BddFree(m, x); R = Q; }
  mc::ops(n * k); c.round(R[0], "symmetric function"); for (auto x : R) Cal_BddFree(m, x); Cal_BddManagerGC(m); MC_CHECK((int)Cal_BddManagerGetNumNodes(m) == n + 1, "%lu nodes left", Cal_BddManagerGetNumNodes(m)); c.s.quit();
}
MC_SCENARIO(dump_large) {
  Big::N = (int)mc::P("bits", 12); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), other = mc::choose(3); mc::shardHere();
  BigSys B; Big t = bigOf(F[i].second), u = bigOf(F[(i + 7) % nf].second); Cal_Bdd f = B.build(t), g = B.build(u); auto l = B.v; l.push_back(nullptr); mc::ops(2);
  std::string d; { OutFile o; MC_CHECK(Cal_BddDumpBdd(B.m(), f, l.data(), o.fp) == 1 && Cal_BddDumpBdd(B.m(), g, l.data(), o.fp) == 1, "dump refused"); d = o.done(); }
  auto get = [&](Cal_BddManager m, std::vector<Cal_Bdd> l, FILE *fp) { int e = 9; Cal_Bdd r = Cal_BddUndumpBdd(m, l.data(), fp, &e); MC_CHECK(r && !e, "undump failed: %d", e); return r; };
  if (other == 0) { InFile in(d); Cal_Bdd a = get(B.m(), l, in.fp), b = get(B.m(), l, in.fp); MC_CHECK(a == f && b == g, "restored to other handles"); Cal_BddFree(B.m(), a); Cal_BddFree(B.m(), b); }
  else { // into another order: reversed by creation, or reordered while the dump exists
    if (other == 1) { BigSys Z; Z.s.quit(); Z.s.init(); Z.v.clear(); for (int j = 0; j < Big::N; j++) Z.v.push_back(Cal_BddManagerCreateNewVarFirst(Z.m())); auto zl = Z.v; zl.push_back(nullptr); InFile in(d); Cal_Bdd a = get(Z.m(), zl, in.fp), b = get(Z.m(), zl, in.fp); Z.expect(a, t, "undump under the reversed order"); Z.expect(b, u, "undump under the reversed order");
      for (auto h : {a, b}) Cal_BddFree(Z.m(), h); Cal_BddManagerGC(Z.m()); MC_CHECK(Cal_BddManagerGetNumNodes(Z.m()) == (unsigned)Big::N + 1, "nodes left"); Z.s.quit(); }
    else { Cal_BddDynamicReordering(B.m(), CAL_REORDER_WINDOW, i & 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(B.m()); Cal_BddDynamicReordering(B.m(), CAL_REORDER_NONE, 0); InFile in(d); Cal_Bdd a = get(B.m(), l, in.fp), b = get(B.m(), l, in.fp); MC_CHECK(a == f && b == g, "restored to other handles after reordering"); Cal_BddFree(B.m(), a); Cal_BddFree(B.m(), b); } }
  for (auto h : {f, g}) Cal_BddFree(B.m(), h); Cal_BddManagerGC(B.m()); MC_CHECK(Cal_BddManagerGetNumNodes(B.m()) == (unsigned)Big::N + 1, "nodes left"); B.s.quit();
}
// histories: operations, releases, collections, reorderings, new variables between writing (several BDDs to one file) and reading
MC_SCENARIO(dump_histories) {
  int o = mc::choose(2) * 3; Sys s; s.initOrder(p3()[o]); for (TT t : {0xe8, 0x1d}) s.add(s.build(t), t); int depth = (int)mc::P("depth", 4), n0 = 3;
  OutFile of; std::vector<std::vector<Cal_Bdd>> lists; std::vector<TT> want; std::vector<Cal_Bdd> handle;
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(12), k = (int)s.slot.size(); auto last = s.slot[k - 1], prev = s.slot[(k + d) % k];
    auto live = [&](Sys::Slot &x) { if (!x.h) throw mc::Prune(); };
    auto put = [&](Sys::Slot &x, bool rev, bool arm) { live(x); std::vector<Cal_Bdd> l = s.var; if (rev) std::reverse(l.begin(), l.end()); l.push_back(nullptr); if (arm) armMaint(s, maints()[1 + (d + o) % 5], 0);
      MC_CHECK(Cal_BddDumpBdd(s.m, x.h, l.data(), of.fp) == 1, "dump refused"); mc::op("dump(%s)", hx(x.t)); disarm(s); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("dump"); lists.push_back(l); want.push_back(x.t); handle.push_back(x.h); };
    switch (e) {
      case 0: put(last, false, false); break;
      case 1: put(prev, true, false); break;
      case 2: put(last, true, true); break;
      case 3: live(last); s.free(last.h); for (auto &h : handle) if (h == last.h) h = 0; s.slot[k - 1].h = 0; mc::op("Free(last)"); break;
      case 4: live(last); live(prev); s.add(Cal_BddXor(s.m, last.h, prev.h), last.t ^ prev.t); mc::op("Xor"); break;
      case 5: live(prev); s.add(Cal_BddITE(s.m, s.var[1], s.var[0], prev.h), ite(VARTT[1], VARTT[0], prev.t)); mc::op("ITE"); break;
      case 6: s.gc(); break;
      case 7: case 8: reorder(s, e == 7 ? 0 : 3); break;
      case 9: if (s.n > 4) throw mc::Prune(); s.newFirst(); break;
      case 10: s.newDummy(Sys::AFTER, 1); break;
      case 11: { live(last); Cal_Bdd x = Cal_BddExists(s.m, last.h); if (x) Cal_BddFree(s.m, x); armMaint(s, maints()[0], 0); Cal_Bdd y = Cal_BddAnd(s.m, last.h, s.var[0]); disarm(s); s.add(y, last.t & VARTT[0]); mc::op("And"); break; }
    }
    if (s.n > n0) { for (auto &x : s.slot) x.t |= x.t << (1 << n0); for (auto &x : want) x |= x << (1 << n0); n0 = s.n; }
    s.checkLive("dump_histories"); mc::state(s.hash());
  }
  std::string b = of.done(); InFile in(b); std::vector<Cal_Bdd> got; size_t k = 0;
  for (auto &l : lists) { int err = 9; Cal_Bdd r = Cal_BddUndumpBdd(s.m, l.data(), in.fp, &err); mc::op("undump"); MC_CHECK(r && err == 0, "BDD %zu of the file: result %p, error %d", k, (void *)r, err); s.expect(r, want[k], "undump"); if (handle[k]) MC_CHECK(r == handle[k], "restored to another handle"); got.push_back(r); k++; }
  int err = 9; MC_CHECK(!Cal_BddUndumpBdd(s.m, lists.empty() ? list(s, {0}).data() : lists[0].data(), in.fp, &err) && err == CAL_BDD_UNDUMP_EOF, "reading past the last BDD of a file did not report the end of the file (%d)", err);
  for (size_t i = 0; i < got.size(); i++) s.add(got[i], want[i]); auto n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes after collection, %lu needed", n, s.expectedNodes());
  // each restored BDD has exactly one reference
  for (size_t i = 0; i < got.size(); i++) { s.free(got[i]); s.slot.pop_back(); } n = s.gc(); MC_CHECK(n == s.expectedNodes(), "%lu nodes after freeing the restored BDDs, %lu needed", n, s.expectedNodes()); s.checkLive("end"); s.quit();
}

// ---------------------------------------------------------------- C14
struct Damaged {
  Sys s; std::vector<Cal_Bdd> l; unsigned long base; long cases = 0; Cal_Bdd bogus = 0;
  void setup(int o, int n = 3) { s.initOrder(n == 3 ? p3()[o] : p4()[o]); for (TT t : {0xe8, 0x96}) s.add(s.build(t), t); for (auto v : s.var) l.push_back(v); l.push_back(nullptr); base = s.gc(); MC_CHECK(base == s.expectedNodes(), "nodes"); }
  // one input; 0: result, otherwise the error code
  int feed(const char *p, size_t n, long failAt = -1, bool account = false) {
    // the bytes live in an exactly sized heap block, so that an address sanitizer build notices over-reads of the harness' own source too
    InFile f(p, n, failAt); int err = 77; Cal_Bdd r = Cal_BddUndumpBdd(s.m, l.data(), f.fp, &err); mc::ops(1); cases++;
    if (r) { MC_CHECK(err == 0, "undump returned a BDD and error %d", err); TT t = s.eval(r); (void)t; Cal_BddFree(s.m, r); }
    else MC_CHECK(err == CAL_BDD_UNDUMP_FORMAT || err == CAL_BDD_UNDUMP_OVERFLOW || err == CAL_BDD_UNDUMP_IOERROR || err == CAL_BDD_UNDUMP_EOF, "undump returned null with error code %d", err);
    if (account || cases % 64 == 0) check(p, n); return r ? 0 : err;
  }
  void check(const char *p, size_t n) { s.checkLive("undump of damaged input"); Cal_BddManagerGC(s.m); unsigned long g = Cal_BddManagerGetNumNodes(s.m); if (g != base) { std::string h; for (size_t i = 0; i < n && i < 64; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char)p[i]); h += b; } mc::fail("%lu nodes after undump of damaged input and collection, %lu needed (last input %s)", g, base, h.c_str()); } }
  void end() { check("", 0); s.checkOrder("damaged"); s.quit(); }
};
static const TT baseFns[] = {0x00, 0xff, 0xaa, 0x33, 0xe8, 0x96, 0x1d, 0x4c, 0x69};
// every truncation, every read error position, every byte replaced by every value, every byte removed or inserted
MC_SCENARIO(bytes) {
  int o = mc::choose(2) * 3, fi = mc::choose(9), part = mc::choose(8); mc::shardHere(); Damaged D; D.setup(o); Cal_Bdd f = D.s.mk(baseFns[fi]); std::string d = dump(D.s, f, D.l, hx(baseFns[fi])); Cal_BddFree(D.s.m, f); int n = (int)d.size();
  if (part == 0) { for (int k = 0; k < n; k++) { mc::op("truncated to %d of %d bytes", k, n); int e = D.feed(d.data(), k, -1, true); MC_CHECK(e == CAL_BDD_UNDUMP_EOF, "file truncated to %d of %d bytes: error %d", k, n, e); }
    for (int k = 0; k < n; k++) { mc::op("read error after %d bytes", k); int e = D.feed(d.data(), n, k, true); MC_CHECK(e == CAL_BDD_UNDUMP_IOERROR, "read error at byte %d: error %d", k, e); }
    int e = D.feed(d.data(), n, -1, true); MC_CHECK(e == 0, "intact file refused: %d", e); }
  if (part >= 1 && part < 5) for (int k = part - 1; k < n; k += 4) for (int b = 0; b < 256; b++) { std::string x = d; x[k] = (char)b; mc::op("byte %d := %02x", k, b); D.feed(x.data(), x.size(), -1, b % 8 == 0); }
  if (part == 5) for (int k = 0; k < n; k++) { std::string x = d; x.erase(k, 1); mc::op("byte %d removed", k); D.feed(x.data(), x.size(), -1, true); }
  if (part == 6 || part == 7) for (int k = part - 6; k <= n; k += 2) for (int b = 0; b < 256; b++) { std::string x = d; x.insert(k, 1, (char)b); mc::op("byte %02x inserted at %d", b, k); D.feed(x.data(), x.size()); }
  D.end();
}
// every pair of bytes replaced by the values that matter to the format
MC_SCENARIO(byte_pairs) {
  static const unsigned char V[] = {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xfe, 0xff, 0x04, 0x05, 0x06, 0x07}; int nv = (int)mc::P("values", 12);
  int o = mc::choose(2) * 4, fi = 3 + mc::choose(6), k1 = mc::choose(64); mc::shardHere(); Damaged D; D.setup(o); Cal_Bdd f = D.s.mk(baseFns[fi]); std::string d = dump(D.s, f, D.l, hx(baseFns[fi])); Cal_BddFree(D.s.m, f); int n = (int)d.size(); if (k1 >= n) throw mc::Prune();
  for (int k2 = k1 + 1; k2 < n; k2++) for (int a = 0; a < nv; a++) for (int b = 0; b < nv; b++) { std::string x = d; x[k1] = (char)V[a]; x[k2] = (char)V[b]; mc::op("bytes %d, %d := %02x, %02x", k1, k2, V[a], V[b]); D.feed(x.data(), x.size()); }
  D.end();
}
// every node stream: the tree of all byte sequences over the alphabet, extended as long as undump asks for more bytes
static void streams(Damaged &D, std::string &x, int left, const std::string &alpha) {
  for (char c : alpha) { x.push_back(c); mc::op("stream of %zu bytes", x.size()); int e = D.feed(x.data(), x.size()); if (e == CAL_BDD_UNDUMP_EOF && left > 1) streams(D, x, left - 1, alpha); x.pop_back(); }
}
static std::string be(unsigned long v, int n) { std::string r; for (int i = n - 1; i >= 0; i--) r += (char)(v >> 8 * i & 0xff); return r; }
MC_SCENARIO(streams1) {   // one-byte indices: variables 0..2, out of range 3, escape ff followed by codes
  static const unsigned char first[] = {0, 1, 2, 3, 0xff, 0xfe}; static const std::string alpha("\x00\x01\x02\x03\x04\x05\x06\x07\xff\xfe", 10); static const unsigned long SH[] = {0, 1, 2, 3};
  int sh = mc::choose(4), c0 = mc::choose(6), c1 = mc::choose(10); mc::shardHere(); Damaged D; D.setup(sh);
  // magic and number of variables as written by the library itself
  Cal_Bdd one = Cal_BddOne(D.s.m); std::string h = dump(D.s, one, D.l).substr(0, 10); std::string x = h + be(SH[sh], 8) + (char)first[c0] + alpha[c1];
  streams(D, x, (int)mc::P("len", 6) - 2, alpha); D.end();
}
// header fields: every boundary value of the number of variables and of shared nodes, followed by streams
MC_SCENARIO(headers) {
  static const unsigned long SH[] = {0, 1, 2, 254, 255, 256, 257, 65535, 65536, 65537, 1ul << 24, (1ul << 24) + 1, 1ul << 31, (1ul << 32) - 1, 1ul << 32, 1ul << 40, 1ul << 56, (1ul << 60) - 1, 1ul << 60, (1ul << 60) + 1, (1ul << 63) - 1, 1ul << 63, ~0ul};
  int i = mc::choose(23), nvx = mc::choose(7); mc::shardHere(); static const int NV[] = {3, 0, 1, 2, 4, 255, 65535}; Damaged D; D.setup(1);
  Cal_Bdd one = Cal_BddOne(D.s.m); std::string h = dump(D.s, one, D.l).substr(0, 8); static const std::string alpha("\x00\x01\x02\x06\xff", 5); std::string x = h + be(NV[nvx], 2) + be(SH[i], 8); mc::op("%lu shared nodes, %d variables announced", SH[i], NV[nvx]);
  streams(D, x, (int)mc::P("len", 5), alpha); D.end();
}
// repetitive inputs, as long as they can be: nesting depth, runs of labels
MC_SCENARIO(deep) {
  static const std::string unit[] = {std::string("\x00", 1), std::string("\x01\x00", 2), "\xff\x06", std::string("\xff\x06\x00", 3), std::string("\x00\xff\x06\x01", 4), "\xff\x05", "\xff", std::string("\x00\x00\xff\x00", 4)}; static const unsigned long SH[] = {0, 3, 65536, 1ul << 24, 1ul << 31}; static const long LEN[] = {100, 10000, 3000000};
  int u = mc::choose(8), i = mc::choose(5), li = mc::choose(3); mc::shardHere(); Damaged D; D.setup(2); Cal_Bdd one = Cal_BddOne(D.s.m); std::string x = dump(D.s, one, D.l).substr(0, 10) + be(SH[i], 8); for (long k = 0; k < LEN[li]; k++) x += unit[u]; mc::op("%ld repetitions of unit %d, %lu shared nodes announced", LEN[li], u, SH[i]);
  D.feed(x.data(), x.size(), -1, true); D.end();
}
// two-byte indices (300 variables): every byte of a dump replaced by the values that matter
MC_SCENARIO(wide_bytes) {
  static const unsigned char V[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x2b, 0x2c, 0x7f, 0x80, 0xfe, 0xff}; int fi = 2 + mc::choose(7), part = mc::choose(4); mc::shardHere(); Damaged D; Sys &s = D.s; s.init(); for (int i = 0; i < 100; i++) s.newDummy(); s.newLast(); for (int i = 0; i < 150; i++) s.newDummy(); s.newLast(); s.newLast(); for (int i = 0; i < 47; i++) s.newDummy();
  for (TT t : {0xe8, 0x96}) s.add(s.build(t), t); for (int i = 1; i <= 300; i++) D.l.push_back(Cal_BddManagerGetVarWithId(s.m, i)); D.l.push_back(nullptr); D.base = s.gc(); for (int i = 1; i <= 300; i++) if (idBit[i] < 0) idBit[i] = 3; 
  Cal_Bdd f = s.mk(baseFns[fi]); std::string d = dump(s, f, D.l, hx(baseFns[fi])); Cal_BddFree(s.m, f); int n = (int)d.size();
  if (part == 0) for (int k = 0; k < n; k++) { int e = D.feed(d.data(), k, -1, true); MC_CHECK(e == CAL_BDD_UNDUMP_EOF, "file truncated to %d of %d bytes: error %d", k, n, e); }
  else for (int k = part - 1; k < n; k += 3) for (unsigned char b : V) { std::string x = d; x[k] = (char)b; mc::op("byte %d := %02x", k, b); D.feed(x.data(), x.size()); if (k + 1 < n) for (unsigned char b2 : V) { x[k + 1] = (char)b2; D.feed(x.data(), x.size()); } }
  D.check("", 0); s.quit();
}
// list arguments of undump that are not variables, and of another length than the dump
MC_SCENARIO(lists) {
  int len = mc::choose(5), q = 0; mc::shardHere(); Damaged D; D.setup(3); Sys &s = D.s; Cal_Bdd nv = Cal_BddNot(s.m, s.var[0]), one = Cal_BddOne(s.m); Cal_Bdd pool[] = {s.var[0], s.var[1], s.var[2], nv, one, s.slot[0].h}; std::vector<std::string> d; for (TT t : baseFns) { Cal_Bdd f = s.mk(t); d.push_back(dump(s, f, D.l)); Cal_BddFree(s.m, f); } s.gc();
  int tot = 1; for (int i = 0; i < len; i++) tot *= 6;
  for (q = 0; q < tot; q++) { std::vector<Cal_Bdd> l; std::vector<int> vs; bool bad = false; for (int i = 0, x = q; i < len; i++, x /= 6) { l.push_back(pool[x % 6]); vs.push_back(x % 6); if (x % 6 > 2) bad = true; } l.push_back(nullptr);
    for (size_t k = 0; k < d.size(); k++) { InFile f(d[k]); int err = 55; Cal_Bdd r = Cal_BddUndumpBdd(s.m, l.data(), f.fp, &err); mc::op("undump with another list"); if (bad || len != 3) MC_CHECK(!r, "undump accepted a list that is not a list of 3 variables"); else { TT sub[6]; for (int i = 0; i < 6; i++) sub[i] = VARTT[i < 3 ? vs[i] : i]; s.expect(r, substTT(baseFns[k], sub, 3), "undump"); Cal_BddFree(s.m, r); } }
    if (q % 16 == 0) D.check("", 0); }
  D.check("", 0); Cal_BddFree(s.m, nv); s.quit();
}
// the node limit is hit while undumping
MC_SCENARIO(overflow) {
  int o = mc::choose(3), fi = mc::choose(5), lim = mc::choose(12), after = mc::choose(16); mc::shardHere(); Damaged D; D.setup(o, 4); Sys &s = D.s; static const TT F4[] = {0x1ee8, 0x6996, 0x0cb3, 0x8001, 0x7bde};
  Cal_Bdd f = s.mk(F4[fi]); std::string d = dump(s, f, D.l); Cal_BddFree(s.m, f); D.check("", 0); for (int i = 0; i < 3; i++) { Cal_BddNodeLimit(s.m, D.base + lim); s.m->gcCheck = after; int e = D.feed(d.data(), d.size()); MC_CHECK(e == 0 || e == CAL_BDD_UNDUMP_OVERFLOW, "error %d", e); Cal_BddNodeLimit(s.m, 0); Cal_BddOverflow(s.m); D.check(d.data(), d.size()); }
  int e = D.feed(d.data(), d.size()); MC_CHECK(e == 0, "undump fails after the limit was lifted: %d", e); D.end();
}
int main(int c, char **v) { return mc::main(c, v); }

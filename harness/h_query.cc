// Size and profile queries (C15), structural queries (C16).
#include "query.hh"
#include <tuple>
// all functions of 3 variables: all pairs of queries in succession, with 0..2 dummies in the order
MC_SCENARIO(size3) {
  static auto ps = perms(3); int o = mc::choose(6), q1 = mc::choose(NQ), q2 = mc::choose(NQ), n1 = mc::choose(2), dm = mc::choose(3); mc::shardHere();
  AllFn &A = fixture<AllFn>(o * 3 + dm, [&] { return new AllFn(3, [&](Sys &s) { s.initOrder(ps[o]); if (dm) { s.newDummy(Sys::FIRST); s.newDummy(Sys::AFTER, 1); } if (dm == 2) { s.newDummy(Sys::LAST); s.newDummy(Sys::BEFORE, 2); } }); });
  for (TT t = 0; t < 256; t++) {
    query(A.s, q1, {A.f[t]}, {t}, n1, true);
    TT u = (t * 37 + 11) & 255, w = (t * 101) & 255;
    if (q2 & 1) query(A.s, q2, {A.f[u], A.f[t], A.f[w], A.f[u]}, {u, t, w, u}, !n1, true); else query(A.s, q2, {A.f[t]}, {t}, !n1, true);
    query(A.s, q1, {A.f[t]}, {t}, n1, true);
  }
  A.checkIntact("size queries");
}
// all pairs of functions of 3 variables as sets
MC_SCENARIO(sizepairs3) {
  static auto ps = perms(3); int o = mc::choose(6), q = mc::choose(3) * 2 + 1, n1 = mc::choose(2); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  for (TT t = 0; t < 256; t++) for (TT u = 0; u < 256; u += (q == Q_FPM || t % 3) ? 1 : 1) query(A.s, q, {A.f[t], A.f[u]}, {t, u}, n1, true);
  query(A.s, q == Q_FPM ? (int)Q_SIZEM : q, {}, {}, n1); A.checkIntact("size queries");
}
// functions of 4 variables, single and in triples
MC_SCENARIO(size4) {
  static auto ps = perms(4); int o = (mc::choose((int)mc::P("orders", 4)) * 7) % 24, q = mc::choose(NQ), n1 = mc::choose(2), hi = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); }); long step = mc::P("step", 1);
  for (TT t = hi; t < 65536; t += 8 * step) { if (q & 1) { TT u = (t * 0x9e37 + 5) & 0xffff, w = (t * 0x3779 + 77) & 0xffff; query(A.s, q, {A.f[t], A.f[u], A.f[w]}, {t, u, w}, n1, true); } else query(A.s, q, {A.f[t]}, {t}, n1, true); }
}
// wide managers
MC_SCENARIO(size_wide) {
  auto &L = layouts3(); int li = mc::choose((int)L.size()), q = mc::choose(NQ), n1 = mc::choose(2); mc::shardHere(); auto &l = L[li];
  AllFn A(3, [&](Sys &s) { setupLayout(s, l); });
  for (TT t = 0; t < 256; t++) { if (q & 1) query(A.s, q, {A.f[t], A.f[(t * 5 + 3) & 255]}, {t, (t * 5 + 3) & 255}, n1, true); else query(A.s, q, {A.f[t]}, {t}, n1, true); }
  A.checkIntact("wide"); A.s.quit();
}
// queries among operations, collections, reorderings
MC_SCENARIO(size_histories) {
  static auto ps = perms(4); int o = mc::choose(4) * 5; Sys s; s.initOrder(ps[o]); s.add(s.build(0x6a95), 0x6a95); s.add(s.build(0xc1e8), 0xc1e8); int depth = (int)mc::P("depth", 3);
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(10), k = (int)s.slot.size(); auto &a = s.slot[k - 1], &b = s.slot[k - 2];
    switch (e) {
      case 0: s.add(Cal_BddAnd(s.m, a.h, b.h), a.t & b.t); break; case 1: s.add(Cal_BddXor(s.m, a.h, b.h), a.t ^ b.t); break; case 2: s.add(Cal_BddNot(s.m, a.h), ~a.t); break;
      case 3: if (k > 2) { s.free(s.slot[0].h); s.slot.erase(s.slot.begin()); } s.gc(); break;
      case 4: case 5: case 6: case 7: Cal_BddDynamicReordering(s.m, e & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, e & 2 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); break;
      case 8: s.newDummy(Sys::BEFORE, d & 3); break;
      case 9: { Cal_Bdd x = Cal_BddSatisfy(s.m, a.h); s.add(x, s.eval(x)); break; }
    }
    mc::op("event %d", e);
    std::vector<Cal_Bdd> h; std::vector<TT> t; for (auto &x : s.slot) { h.push_back(x.h); t.push_back(x.t); }
    for (int q = 0; q < NQ; q++) for (int n = 0; n < 2; n++) { if (q & 1) query(s, q, h, t, n); else query(s, q, {h.back()}, {t.back()}, n); }
    s.checkLive("queries"); mc::state(s.hash());
  }
  unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "%lu nodes after collection, %lu needed", g, x); s.quit();
}
// many variables: marks of all levels, deep recursion; the sum of the profile is the size
MC_SCENARIO(size_large) {
  Big::N = (int)mc::P("bits", 11); auto &F = bigFamily(); int i = mc::choose((int)F.size()), j = (i + 9) % (int)F.size(), rep = mc::choose(2); mc::shardHere();
  BigSys B; Big t = bigOf(F[i].second), u = bigOf(F[j].second); Cal_Bdd a = B.build(t), b = B.build(u); mc::ops(4);
  // distinct subfunctions level by level, from the tables
  auto level = [&](std::vector<Big> fs, bool neg, std::vector<long> &prof, std::vector<long> &fp) {
    // represent subfunctions as class numbers computed bottom up
    int N = Big::N; std::vector<std::vector<int>> cls; std::vector<long> cnt(N + 1, 0); std::vector<std::set<int>> obt(N + 1);
    std::map<std::tuple<int, int, int>, int> memo; int next = 2; std::vector<int> lvl{N, N}, comp{1, 0};
    for (auto &f : fs) { std::vector<int> c(1u << N); for (unsigned x = 0; x < 1u << N; x++) c[x] = f.get(x);
      for (int v = N - 1; v >= 0; v--) { for (unsigned x = 0; x < 1u << (v + 1); x++) obt[v + 1].insert(c[x]);
        std::vector<int> d(1u << v); for (unsigned x = 0; x < 1u << v; x++) { int hi = c[x | 1u << v], lo = c[x]; if (hi == lo) { d[x] = hi; continue; }
          auto k = std::make_tuple(v, hi, lo); auto it = memo.find(k); if (it == memo.end()) { it = memo.insert({k, next}).first; memo[std::make_tuple(v, comp[hi], comp[lo])] = next + 1; comp.push_back(next + 1); comp.push_back(next); lvl.push_back(v); lvl.push_back(v); next += 2; } d[x] = it->second; }
        c.swap(d); }
      obt[0].insert(c[0]); cls.push_back(c); }
    // nodes of the reduced diagram: classes obtained at any level, counted at their top level
    std::set<int> all; for (auto &o : obt) for (int x : o) all.insert(neg ? std::min(x, comp[x]) : x);
    prof.assign(N + 1, 0); for (int x : all) prof[lvl[x]]++;
    std::vector<char> has(N, 0); for (int x : all) if (lvl[x] < N) has[lvl[x]] = 1;
    fp.assign(N + 1, 0); for (int v = 0; v <= N; v++) fp[v] = v == N || has[v] ? (long)obt[v].size() : 0;
  };
  for (int n = 0; n < 2; n++) {
    std::vector<long> p, fp, g(Big::N + 1); level({t}, n, p, fp); long sum = 0; for (long x : p) sum += x;
    long z = Cal_BddSize(B.m(), a, n); MC_CHECK(z == sum, "Cal_BddSize(%s, %d) = %ld, expected %ld", F[i].first, n, z, sum);
    Cal_BddProfile(B.m(), a, g.data(), n); MC_CHECK(g == p, "Cal_BddProfile(%s, %d) =%s, expected%s", F[i].first, n, show(g).c_str(), show(p).c_str());
    Cal_BddFunctionProfile(B.m(), a, g.data()); MC_CHECK(g == fp, "Cal_BddFunctionProfile(%s) =%s, expected%s", F[i].first, show(g).c_str(), show(fp).c_str());
    level({t, u}, n, p, fp); Cal_Bdd arr[] = {a, b, nullptr}; sum = 0; for (long x : p) sum += x;
    z = Cal_BddSizeMultiple(B.m(), arr, n); MC_CHECK(z == sum, "Cal_BddSizeMultiple(%s, %s, %d) = %ld, expected %ld", F[i].first, F[j].first, n, z, sum);
    Cal_BddProfileMultiple(B.m(), arr, g.data(), n); MC_CHECK(g == p, "Cal_BddProfileMultiple(%s, %s, %d) =%s, expected%s", F[i].first, F[j].first, n, show(g).c_str(), show(p).c_str());
    Cal_BddFunctionProfileMultiple(B.m(), arr, g.data()); MC_CHECK(g == fp, "Cal_BddFunctionProfileMultiple(%s, %s) =%s, expected%s", F[i].first, F[j].first, show(g).c_str(), show(fp).c_str());
    if (rep) { Cal_Bdd na = Cal_BddNot(B.m(), a); long y = Cal_BddSize(B.m(), na, 1); MC_CHECK(y == Cal_BddSize(B.m(), a, 1), "the complement has another size"); Cal_BddFree(B.m(), na); }
  }
  B.expect(a, t, "after queries"); B.expect(b, u, "after queries"); Cal_BddManagerGC(B.m()); B.expect(a, t, "after queries and collection"); B.s.quit();
}

MC_SCENARIO(struct3) {
  static auto ps = perms(3); int o = mc::choose(6), dm = mc::choose(3), rev = mc::choose(4); mc::shardHere();
  AllFn A(3, [&](Sys &s) { s.initOrder(ps[o]); if (dm) { s.newDummy(Sys::FIRST); s.newDummy(Sys::AFTER, 1); } if (dm == 2) { s.newDummy(Sys::LAST); s.newDummy(Sys::BEFORE, 2); } });
  for (TT i = 0; i < 512; i++) { TT t = rev == 0 ? i & 255 : rev == 1 ? ~i & 255 : rev == 2 ? (i * 77) & 255 : (i * 3) & 255; structural(A.s, A.f[t], t, ""); if (i == 300 && rev == 3) { A.s.gc(); Cal_BddDynamicReordering(A.s.m, CAL_REORDER_SIFT, dm == 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(A.s.m); A.s.orderChanged("sift"); } }
  A.checkIntact("structural queries"); A.s.quit();
}
MC_SCENARIO(struct4) {
  static auto ps = perms(4); int o = mc::choose((int)mc::P("orders", 8)) * 3, hi = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o % 24]); }); long step = mc::P("step", 1);
  for (TT t = hi; t < 65536; t += 8 * step) structural(A.s, A.f[t], t, "");
}
MC_SCENARIO(struct_wide) {
  auto &L = layouts3(); int li = mc::choose((int)L.size()); mc::shardHere(); AllFn A(3, [&](Sys &s) { setupLayout(s, L[li]); });
  for (TT t = 0; t < 256; t++) structural(A.s, A.f[t], t, ""); A.checkIntact("wide"); A.s.quit();
}
// repeated and nested queries: marks left behind by one query must not disturb another, all ordered pairs of functions
MC_SCENARIO(struct_pairs) {
  static auto ps = perms(3); int o = mc::choose(6), q = mc::choose(4); mc::shardHere(); AllFn A(3, ps[o]); auto &s = A.s;
  for (TT t = 0; t < 256; t++) for (TT u = 0; u < 256; u += 3) {
    mc::ops(2);
    if (q == 0) { Cal_Bdd sup[8]; Cal_BddSupport(s.m, A.f[t], sup); int k = 0; while (sup[k]) s.free(sup[k++]); }
    if (q == 1) Cal_BddDependsOn(s.m, A.f[t], s.var[u % 3]);
    if (q == 2) Cal_BddSize(s.m, A.f[t], u & 1);
    if (q == 3) Cal_BddSatisfyingFraction(s.m, A.f[t]);
    Cal_Bdd sup[8]; Cal_BddSupport(s.m, A.f[u], sup); unsigned got = 0; for (int k = 0; sup[k]; k++) { for (int v = 0; v < 3; v++) if (sup[k] == s.var[v]) got |= 1u << v; s.free(sup[k]); }
    MC_CHECK(got == supportOf(u, 3), "Support(%s) = %x after a query on %s", hx(u), got, hx(t));
    for (int v = 0; v < 3; v++) { int d = Cal_BddDependsOn(s.m, A.f[u], s.var[v]); MC_CHECK(d == (int)depends(u, v), "DependsOn(%s, v%d) = %d after a query on %s", hx(u), v, d, hx(t)); }
    long z = Cal_BddSize(s.m, A.f[u], 1); Rob R(s, true); R.add(u); MC_CHECK(z == (long)R.nodes.size(), "Size(%s) = %ld after a query on %s, expected %zu", hx(u), z, hx(t), R.nodes.size());
  }
  A.checkIntact("pairs of queries"); s.quit();
}
MC_SCENARIO(struct_large) {
  Big::N = (int)mc::P("bits", 11); auto &F = bigFamily(); int i = mc::choose((int)F.size()); mc::shardHere(); BigSys B; Big t = bigOf(F[i].second); Cal_Bdd a = B.build(t); auto m = B.m(); mc::ops(4 + Big::N);
  long ones = 0; for (unsigned x = 0; x < 1u << Big::N; x++) ones += t.get(x); double f = Cal_BddSatisfyingFraction(m, a); MC_CHECK(f == (double)ones / (1u << Big::N), "SatisfyingFraction(%s) = %.17g, expected %ld/2^%d", F[i].first, f, ones, Big::N);
  std::vector<Cal_Bdd> sup(Big::N + 1); unsigned got = 0, want = 0; Cal_BddSupport(m, a, sup.data()); for (int k = 0; sup[k]; k++) { got |= 1u << (Cal_BddGetIfId(m, sup[k]) - 1); Cal_BddFree(m, sup[k]); }
  for (int v = 0; v < Big::N; v++) { for (unsigned x = 0; x < 1u << Big::N; x++) if (t.get(x) != t.get(x ^ 1u << v)) { want |= 1u << v; break; } int d = Cal_BddDependsOn(m, a, B.v[v]); MC_CHECK(d == (int)(want >> v & 1), "DependsOn(%s, v%d) = %d", F[i].first, v, d); }
  MC_CHECK(got == want, "Support(%s) = %x, expected %x", F[i].first, got, want); B.expect(a, t, "after queries");
  // walk: If/Then/Else along all 2^10 paths
  for (unsigned x = 0; x < 1u << Big::N; x += 5) { Cal_Bdd c = Cal_BddIdentity(m, a); int last = -1; while (!Cal_BddIsBddConst(m, c)) { int ix = Cal_BddGetIfIndex(m, c); MC_CHECK(ix > last && ix < Big::N, "indices do not increase along a path"); last = ix; Cal_Bdd n = x >> ix & 1 ? Cal_BddThen(m, c) : Cal_BddElse(m, c); Cal_BddFree(m, c); c = n; } MC_CHECK(Cal_BddIsBddOne(m, c) == (int)t.get(x), "path of %x in %s ends in the wrong constant", x, F[i].first); }
  B.s.quit();
}
// deep and very wide: satisfying fractions of products and disjunctions of many variables, support of hundreds of variables
MC_SCENARIO(struct_many) {
  static const int Ns[] = {20, 33, 64, 65, 128, 255, 256, 257, 300}; int N = Ns[mc::choose(9)], kind = mc::choose(4); mc::shardHere(); Sys s; s.init(); std::vector<Cal_Bdd> v; for (int i = 0; i < N; i++) v.push_back(Cal_BddManagerCreateNewVarLast(s.m));
  Cal_Bdd r = kind == 0 || kind == 3 ? Cal_BddOne(s.m) : Cal_BddZero(s.m); int used = 0; double fr = kind == 0 ? 1 : kind == 1 ? 0 : 0.5; mc::op("%d variables, kind %d", N, kind);
  for (int i = N - 1; i >= 0; i--) { if (i % 3 == 2) continue; used++; Cal_Bdd x = i & 1 ? Cal_BddNot(s.m, v[i]) : Cal_BddIdentity(s.m, v[i]); Cal_Bdd y = kind == 0 ? Cal_BddAnd(s.m, x, r) : kind == 1 ? Cal_BddOr(s.m, r, x) : kind == 2 ? Cal_BddXor(s.m, x, r) : Cal_BddXnor(s.m, r, x); s.free(x); s.free(r); r = y; if (kind == 0) fr /= 2; if (kind == 1) fr = 0.5 + fr / 2; }
  double f = Cal_BddSatisfyingFraction(s.m, r); MC_CHECK(f == fr, "SatisfyingFraction = %.17g, expected %.17g", f, fr); MC_CHECK(Cal_BddIsCube(s.m, r) == (kind == 0), "IsCube is wrong");
  std::vector<Cal_Bdd> sup(N + 1); Cal_BddSupport(s.m, r, sup.data()); int k = 0; std::set<int> ids; while (sup[k]) { ids.insert(Cal_BddGetIfId(s.m, sup[k])); s.free(sup[k++]); } MC_CHECK(k == used && (int)ids.size() == used, "Support has %d variables, expected %d", k, used);
  for (int i = 0; i < N; i++) MC_CHECK(Cal_BddDependsOn(s.m, r, v[i]) == (i % 3 != 2) && ids.count(i + 1) == (i % 3 != 2), "DependsOn/Support wrong for variable %d", i);
  long z = Cal_BddSize(s.m, r, 1), z0 = Cal_BddSize(s.m, r, 0); MC_CHECK(z == used + 1 && z0 == (kind < 2 ? used + 2 : 2 * used + 1), "Size = %ld/%ld for %d variables", z, z0, used);
  s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

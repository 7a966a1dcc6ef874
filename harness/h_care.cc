// C06: cofactor, reduce, between.  C07: satisfy, satisfySupport, intersects, implies
#include "assoc.hh"

// the assignment a mapped into c (c != 0), going down the order and flipping a variable only where c forces it
static int mapInto(TT c, int a, const std::vector<int> &order) {
  for (int v : order) { int b = a >> v & 1; TT k = cof(c, v, b); if (k == 0) { a ^= 1 << v; k = cof(c, v, !b); } c = k; }
  return a;
}
static TT constrain(TT f, TT c, const std::vector<int> &order, int n) {
  TT r = 0; for (int a = 0; a < (1 << n); a++) r |= (f >> mapInto(c, a, order) & 1) << a; return r;
}
static size_t sizeOf(const Sys &s, TT t) { return s.nodesNeeded({t}); }

static void care(AllFn &A, TT f, TT c, size_t fsize) {
  Sys &s = A.s; TT F = full(A.n);
  mc::ops(3); mc::S->checks += 6;
  Cal_Bdd r;
  if (c) {
    r = Cal_BddCofactor(s.m, A.f[f], A.f[c]);
    MC_CHECK(r, "Cofactor(%s,%s) is null", hx(f), hx(c));
    TT want = constrain(f, c, s.order, A.n);
    if (r != A.f[want]) { TT got = s.eval(r); mc::fail("Cofactor(%s,%s) denotes %s, expected %s", hx(f), hx(c), hx(got), hx(want)); }
    s.free(r);
  }
  {
    r = Cal_BddReduce(s.m, A.f[f], A.f[c]);
    MC_CHECK(r, "Reduce(%s,%s) is null", hx(f), hx(c));
    TT got = s.eval(r);
    if (((got ^ f) & c) != 0) mc::fail("Reduce(%s,%s) denotes %s, which differs from the first operand within the second", hx(f), hx(c), hx(got));
    if (r != A.f[got]) mc::fail("Reduce(%s,%s): not canonical", hx(f), hx(c));
    if (sizeOf(s, got) > fsize) mc::fail("Reduce(%s,%s) = %s is larger (%zu) than the operand (%zu)", hx(f), hx(c), hx(got), sizeOf(s, got), fsize);
    s.free(r);
  }
  // Between(f & c, f | c)
  TT lo = f & c, hi = f | c;
  r = Cal_BddBetween(s.m, A.f[lo], A.f[hi & F]);
  MC_CHECK(r, "Between(%s,%s) is null", hx(lo), hx(hi));
  TT got = s.eval(r);
  if ((lo & ~got) || (got & ~hi)) mc::fail("Between(%s,%s) denotes %s", hx(lo), hx(hi), hx(got));
  if (r != A.f[got]) mc::fail("Between(%s,%s): not canonical", hx(lo), hx(hi));
  size_t z = sizeOf(s, got);
  if (z > sizeOf(s, lo) || z > sizeOf(s, hi)) mc::fail("Between(%s,%s) = %s is larger than an operand", hx(lo), hx(hi), hx(got));
  s.free(r);
}
MC_SCENARIO(care3) {
  static auto ps = perms(3);
  int o = mc::choose(6); TT f = mc::choose(256); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  size_t z = sizeOf(A.s, f);
  for (TT c = 0; c < 256; c++) { care(A, f, c, z); mc::state(mc::mix(mc::mix(f, c), o)); }
  if (f == 0xe8) { A.checkIntact("after care-set operations"); mc::sample("order %d: Cofactor, Reduce, Between of %s with all 256 care sets", o, hx(f)); }
}
MC_SCENARIO(care4) {
  static auto ps = perms(4); static const int ord[] = {0, 17, 23};
  int o = ord[mc::choose((int)mc::P("orders", 1))]; TT f = npn4()[mc::choose((int)npn4().size())]; int part = mc::choose(2); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  int stride = (int)mc::P("stride", 64); size_t z = sizeOf(A.s, f);
  for (TT c = 1 + part * stride / 2; c < 65536; c += stride) { care(A, f, c, z); if (c % 4 == 1) care(A, c, f ? f : 1, sizeOf(A.s, c)); }
  mc::state(mc::mix(f, mc::mix(o, part)));
}
MC_SCENARIO(care_wide) {
  int li = mc::choose((int)layouts3().size()); TT f = mc::choose(256); mc::shardHere();
  AllFn &A = fixture<AllFn>(100 + li, [&] { return new AllFn(3, [&](Sys &s) { setupLayout(s, layouts3()[li]); }); });
  size_t z = sizeOf(A.s, f);
  for (TT c = 1; c < 256; c += 3) care(A, f, c, z);
  mc::state(mc::mix(f, li)); if (f == 3) A.checkIntact("wide");
}
// short histories: the order of calls and their repetition does not matter
MC_SCENARIO(care_histories) {
  static auto ps = perms(3); Sys s; s.initOrder(ps[mc::choose(6)]);
  static const TT fns[] = {0x96, 0xe8, 0x1d, 0x80, 0xf3};
  for (TT t : fns) s.add(s.build(t), t);
  int depth = (int)mc::P("depth", 2);
  for (int d = 0; d < depth; d++) {
    int n = (int)s.slot.size(), k = mc::choose(4), a = mc::choose(n), b = mc::choose(n);
    TT f = s.slot[a].t, c = s.slot[b].t; Cal_Bdd F = s.slot[a].h, C = s.slot[b].h, r; TT want;
    if (!c && k < 1) throw mc::Prune();
    if (k == 0) { mc::op("Cofactor(%s,%s)", hx(f), hx(c)); r = Cal_BddCofactor(s.m, F, C); want = constrain(f, c, s.order, 3); s.expect(r, want, "Cofactor"); }
    else if (k == 1) { mc::op("Reduce(%s,%s)", hx(f), hx(c)); r = Cal_BddReduce(s.m, F, C); MC_CHECK(r, "Reduce is null"); want = s.eval(r); MC_CHECK(((want ^ f) & c) == 0, "Reduce(%s,%s) denotes %s", hx(f), hx(c), hx(want)); }
    else if (k == 2) { mc::op("And(%s,%s)", hx(f), hx(c)); r = Cal_BddAnd(s.m, F, C); want = f & c; s.expect(r, want, "And"); }
    else { mc::op("Between(And,Or)"); Cal_Bdd x = Cal_BddAnd(s.m, F, C), y = Cal_BddOr(s.m, F, C); r = Cal_BddBetween(s.m, x, y); want = s.eval(r); MC_CHECK(!(f & c & ~want) && !(want & ~(f | c)), "Between denotes %s", hx(want)); s.free(x); s.free(y); }
    s.add(r, want); if (d == 0 && (a + b) % 2) s.gc();
    s.checkLive("care history"); mc::state(s.hash());
  }
  unsigned long got = s.gc(), exp = s.expectedNodes(); MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); s.quit();
}
MC_SCENARIO(care_large) {
  Big::N = (int)mc::P("bits", 11); static int N = Big::N;
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  int i = mc::choose((int)F.size()), j = mc::choose((int)F.size()); mc::shardHere();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); } }
  bool zero = true; for (auto x : t[j].w) if (x) zero = false;
  if (zero) throw mc::Prune();
  mc::op("Cofactor/Reduce/Between(%s, %s)", F[i].first, F[j].first); mc::ops(2);
  Cal_Bdd r = Cal_BddReduce(B->m(), h[i], h[j]); MC_CHECK(r, "Reduce is null"); Big e = B->eval(r);
  for (size_t z = 0; z < e.w.size(); z++) MC_CHECK(((e.w[z] ^ t[i].w[z]) & t[j].w[z]) == 0, "Reduce(%s,%s) differs within the care set", F[i].first, F[j].first);
  MC_CHECK(Cal_BddSize(B->m(), r, 1) <= Cal_BddSize(B->m(), h[i], 1), "Reduce(%s,%s) is larger than its operand", F[i].first, F[j].first);
  Cal_BddFree(B->m(), r);
  r = Cal_BddCofactor(B->m(), h[i], h[j]);
  // order is v0 .. vN-1: map every assignment into c by table of non-empty subcubes
  std::vector<std::vector<char>> ne(N + 1); ne[N].resize(1u << N); for (unsigned x = 0; x < 1u << N; x++) ne[N][x] = t[j].get(x);
  // ne[k][prefix over bits 0..k-1]
  for (int k = N - 1; k >= 0; k--) { ne[k].resize(1u << k); for (unsigned p = 0; p < 1u << k; p++) ne[k][p] = ne[k + 1][p] | ne[k + 1][p | 1u << k]; }
  Big w; for (unsigned x = 0; x < 1u << N; x++) { unsigned p = 0; for (int k = 0; k < N; k++) { unsigned q = p | (x & 1u << k); if (!ne[k + 1][q]) q ^= 1u << k; p = q; } if (t[i].get(p)) w.set(x); }
  B->expect(r, w, "Cofactor (large)"); Cal_BddFree(B->m(), r);
  Cal_Bdd lo = Cal_BddAnd(B->m(), h[i], h[j]); r = Cal_BddBetween(B->m(), lo, h[i]); e = B->eval(r);
  for (size_t z = 0; z < e.w.size(); z++) MC_CHECK(!(t[i].w[z] & t[j].w[z] & ~e.w[z]) && !(e.w[z] & ~t[i].w[z]), "Between (large) out of bounds");
  Cal_BddFree(B->m(), r); Cal_BddFree(B->m(), lo); mc::state(mc::mix(i, j));
}

// ------------------------------------------------------------------ C07
// is t a non-empty cube? mention: variables it fixes
static bool isCube(TT t, int n, unsigned *mention) {
  t &= full(n); *mention = supportOf(t, n);
  if (!t) return false;
  TT c = full(n); int a = __builtin_ctzll(t);
  for (int v = 0; v < n; v++) if (*mention >> v & 1) c &= (a >> v & 1) ? VARTT[v] : ~VARTT[v];
  return (c & full(n)) == t;
}
static void sat1(AllFn &A, TT f, unsigned set) {
  Sys &s = A.s; unsigned men; mc::ops(2); mc::S->checks += 4;
  Cal_Bdd r = Cal_BddSatisfy(s.m, A.f[f]); MC_CHECK(r, "Satisfy(%s) is null", hx(f)); TT t = s.eval(r);
  if (t & ~f) mc::fail("Satisfy(%s) = %s does not imply it", hx(f), hx(t));
  if (f ? !isCube(t, A.n, &men) : t != 0) mc::fail("Satisfy(%s) = %s is not a satisfying cube", hx(f), hx(t));
  if (r != A.f[t]) mc::fail("Satisfy(%s): not canonical", hx(f));
  s.free(r);
  r = Cal_BddSatisfySupport(s.m, A.f[f]); MC_CHECK(r, "SatisfySupport(%s) is null", hx(f)); t = s.eval(r);
  if (t & ~f) mc::fail("SatisfySupport(%s) = %s does not imply it", hx(f), hx(t));
  if (f ? !isCube(t, A.n, &men) : t != 0) mc::fail("SatisfySupport(%s) = %s is not a satisfying cube", hx(f), hx(t));
  if (f && (set & ~men)) mc::fail("SatisfySupport(%s) = %s does not mention all variables of %x", hx(f), hx(t), set);
  if (r != A.f[t]) mc::fail("SatisfySupport(%s): not canonical", hx(f));
  s.free(r);
}
static void wit(AllFn &A, TT f, TT g) {
  Sys &s = A.s; mc::ops(2); mc::S->checks += 4;
  Cal_Bdd r = Cal_BddIntersects(s.m, A.f[f], A.f[g]); MC_CHECK(r, "Intersects(%s,%s) is null", hx(f), hx(g)); TT t = s.eval(r);
  if ((t & ~(f & g)) || (!t && (f & g))) mc::fail("Intersects(%s,%s) = %s", hx(f), hx(g), hx(t));
  if (r != A.f[t]) mc::fail("Intersects(%s,%s): not canonical", hx(f), hx(g));
  s.free(r);
  r = Cal_BddImplies(s.m, A.f[f], A.f[g]); MC_CHECK(r, "Implies(%s,%s) is null", hx(f), hx(g)); t = s.eval(r);
  if ((t & ~(f & ~g)) || (!t && (f & ~g))) mc::fail("Implies(%s,%s) = %s", hx(f), hx(g), hx(t));
  if (r != A.f[t]) mc::fail("Implies(%s,%s): not canonical", hx(f), hx(g));
  s.free(r);
}
MC_SCENARIO(sat3) {
  static auto ps = perms(3);
  int o = mc::choose(6), mode = mc::choose(Bind::MODES); unsigned set = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  Bind b(A.s, set, mode); for (TT f = 0; f < 256; f++) { sat1(A, f, set); mc::state(mc::mix(mc::mix(f, set), o)); }
  b.end(); if (mode == 3) A.checkIntact("after Satisfy");
}
MC_SCENARIO(sat4) {
  static auto ps = perms(4);
  int o = mc::choose((int)mc::P("orders", 3)) * 7, mode = mc::choose(2) * 2; unsigned set = mc::choose(16); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  Bind b(A.s, set, mode); for (TT f = 0; f < 65536; f++) sat1(A, f, set);
  b.end(); mc::state(mc::mix(mc::mix(o, set), mode)); if (set == 5) A.checkIntact("after Satisfy");
  if (set == 6) mc::sample("order %d: Satisfy and SatisfySupport (set 6) of all 65536 functions of 4 variables", o);
}
MC_SCENARIO(wit3) {
  static auto ps = perms(3);
  int o = mc::choose(6); TT f = mc::choose(256); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  for (TT g = 0; g < 256; g++) { wit(A, f, g); mc::state(mc::mix(mc::mix(f, g), o)); }
  if (f == 0xe8) { A.checkIntact("after Intersects and Implies"); mc::sample("order %d: Intersects and Implies of %s with all functions", o, hx(f)); }
}
MC_SCENARIO(wit4) {
  static auto ps = perms(4);
  int o = mc::choose((int)mc::P("orders", 1)) * 17; TT f = npn4()[mc::choose((int)npn4().size())]; int part = mc::choose(2); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  int stride = (int)mc::P("stride", 16);
  for (TT g = part * stride / 2; g < 65536; g += stride) { wit(A, f, g); wit(A, g, f); }
  mc::state(mc::mix(f, mc::mix(o, part)));
}
MC_SCENARIO(sat_wide) {
  int li = mc::choose((int)layouts3().size()), mode = mc::choose(2) * 2, late = mc::choose(3); unsigned set = mc::choose(8); mc::shardHere();
  AllFn A(3, [&](Sys &s) { setupLayout(s, layouts3()[li]); });
  Bind b(A.s, set, mode);
  if (late == 1) { A.s.newDummy(Sys::FIRST); A.s.newDummy(Sys::AFTER, 1); }
  if (late == 2) { Cal_BddDynamicReordering(A.s.m, CAL_REORDER_SIFT, CAL_REORDER_METHOD_BF); Cal_BddReorder(A.s.m); A.s.orderChanged("reorder"); }
  for (TT f = 0; f < 256; f++) { sat1(A, f, set); wit(A, f, (f * 91 + 7) & 255); }
  b.end(); A.checkIntact("wide"); A.s.quit(); mc::state(mc::mix(mc::mix(li, set), mc::mix(late, mode)));
}
// witness operations leave no node behind and take no reference away, in any order of calls
MC_SCENARIO(sat_histories) {
  static auto ps = perms(3); Sys s; s.initOrder(ps[mc::choose(6)]);
  static const TT fns[] = {0x96, 0xe8, 0x00, 0x80, 0xff};
  for (TT t : fns) s.add(s.build(t), t);
  int depth = (int)mc::P("depth", 2); Cal_Bdd as[3] = {s.var[0], s.var[2], nullptr}; Cal_TempAssociationInit(s.m, as, 0);
  for (int d = 0; d < depth; d++) {
    int n = (int)s.slot.size(), k = mc::choose(5), a = mc::choose(n), b = k < 2 ? 0 : mc::choose(n); unsigned men;
    TT f = s.slot[a].t, g = s.slot[b].t; Cal_Bdd r; TT t;
    mc::op("%s(%s,%s)", k == 0 ? "Satisfy" : k == 1 ? "SatisfySupport" : k == 2 ? "Intersects" : k == 3 ? "Implies" : "And", hx(f), hx(g));
    r = k == 0 ? Cal_BddSatisfy(s.m, s.slot[a].h) : k == 1 ? Cal_BddSatisfySupport(s.m, s.slot[a].h) : k == 2 ? Cal_BddIntersects(s.m, s.slot[a].h, s.slot[b].h) : k == 3 ? Cal_BddImplies(s.m, s.slot[a].h, s.slot[b].h) : Cal_BddAnd(s.m, s.slot[a].h, s.slot[b].h);
    MC_CHECK(r, "null result"); t = s.eval(r);
    TT top = k < 2 ? f : k == 2 || k == 4 ? f & g : f & ~g & 255;
    MC_CHECK(!(t & ~top) && (t || !top), "result %s is not a witness of %s", hx(t), hx(top)); if (k < 2 && f) MC_CHECK(isCube(t, 3, &men) && (k == 0 || (men & 5) == 5), "%s is no such cube", hx(t));
    s.add(r, t); if (mc::choose(2)) s.gc(); s.checkLive("history"); mc::state(s.hash());
  }
  if (mc::choose(2)) { for (size_t i = 5; i < s.slot.size(); i++) { s.free(s.slot[i].h); s.slot[i].h = 0; } }
  Cal_TempAssociationQuit(s.m);
  unsigned long got = s.gc(), exp = s.expectedNodes(); MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); s.quit();
}
MC_SCENARIO(sat_large) {
  Big::N = (int)mc::P("bits", 13); static int N = Big::N;
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  int i = mc::choose((int)F.size()), j = mc::choose((int)F.size()); mc::shardHere();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); } }
  mc::op("witnesses of %s, %s", F[i].first, F[j].first);
  for (int k = 0; k < 2; k++) {
    Cal_Bdd r = k ? Cal_BddImplies(B->m(), h[i], h[j]) : Cal_BddIntersects(B->m(), h[i], h[j]); MC_CHECK(r, "null"); Big e = B->eval(r); bool any = false, top = false;
    for (size_t z = 0; z < e.w.size(); z++) { uint64_t w = t[i].w[z] & (k ? ~t[j].w[z] : t[j].w[z]); MC_CHECK(!(e.w[z] & ~w), "%s(%s,%s) is no witness", k ? "Implies" : "Intersects", F[i].first, F[j].first); any |= e.w[z] != 0; top |= w != 0; }
    MC_CHECK(any == top, "%s(%s,%s) is false", k ? "Implies" : "Intersects", F[i].first, F[j].first); Cal_BddFree(B->m(), r);
  }
  if (j < 6) {
    std::vector<Cal_Bdd> a; for (int v = j; v < N; v += j + 1) a.push_back(B->v[v]); a.push_back(nullptr); Cal_TempAssociationInit(B->m(), a.data(), 0); Cal_AssociationSetCurrent(B->m(), -1);
    Cal_Bdd r = Cal_BddSatisfySupport(B->m(), h[i]); Big e = B->eval(r); unsigned first = 0; bool any = false; unsigned andm = ~0u, orm = 0, cnt = 0;
    for (unsigned x = 0; x < 1u << N; x++) if (e.get(x)) { MC_CHECK(t[i].get(x), "SatisfySupport(%s) is no witness", F[i].first); if (!any) first = x; any = true; andm &= x; orm |= x; cnt++; }
    unsigned fixed = ~(andm ^ orm) & ((1u << N) - 1); (void)first;
    if (any) { MC_CHECK(cnt == 1u << (N - popc(fixed)), "SatisfySupport(%s) is no cube", F[i].first); for (int v = j; v < N; v += j + 1) MC_CHECK(fixed >> v & 1, "SatisfySupport(%s) misses a variable", F[i].first); }
    else for (auto x : t[i].w) MC_CHECK(!x, "SatisfySupport(%s) is false", F[i].first);
    Cal_BddFree(B->m(), r); Cal_TempAssociationQuit(B->m());
  }
  mc::state(mc::mix(i, j));
}
int main(int c, char **v) { return mc::main(c, v); }

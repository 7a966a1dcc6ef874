// C01: Boolean connectives and if-then-else
#include "fixtures.hh"

struct BinOp { const char *name; Cal_Bdd (*fn)(Cal_BddManager, Cal_Bdd, Cal_Bdd); TT (*ref)(TT, TT); };
static const BinOp OPS[] = {
  {"And", Cal_BddAnd, [](TT a, TT b) { return a & b; }}, {"Nand", Cal_BddNand, [](TT a, TT b) { return ~(a & b); }}, {"Or", Cal_BddOr, [](TT a, TT b) { return a | b; }},
  {"Nor", Cal_BddNor, [](TT a, TT b) { return ~(a | b); }}, {"Xor", Cal_BddXor, [](TT a, TT b) { return a ^ b; }}, {"Xnor", Cal_BddXnor, [](TT a, TT b) { return ~(a ^ b); }}};

static void allOps(AllFn &A, TT f, TT g) {
  Sys &s = A.s; TT F = full(A.n);
  for (auto &o : OPS) {
    if (mc::tracing) mc::op("%s(%s,%s)", o.name, hx(f), hx(g)); else mc::ops(1);
    Cal_Bdd r = o.fn(s.m, A.f[f], A.f[g]);
    TT want = o.ref(f, g) & F;
    // the table holds a handle for every function, so the result must be that very handle; walk the structure anyway
    MC_CHECK(r, "%s(%s,%s) is null", o.name, hx(f), hx(g));
    TT got = s.eval(r);
    MC_CHECK(got == want, "%s(%s,%s) denotes %s, expected %s", o.name, hx(f), hx(g), hx(got), hx(want));
    MC_CHECK(r == A.f[want], "%s(%s,%s): handle differs from the existing one for the same function", o.name, hx(f), hx(g));
    s.free(r);
  }
}

// all ordered pairs of functions of 3 variables, all orders
MC_SCENARIO(binary3) {
  static auto ps = perms(3);
  int o = mc::choose(6); TT f = mc::choose(256);
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  for (TT g = 0; g < 256; g++) { allOps(A, f, g); mc::state(mc::mix(mc::mix(f, g), o)); }
  for (int neg = 0; neg < 2; neg++) {
    mc::ops(1); Cal_Bdd r = neg ? Cal_BddNot(A.s.m, A.f[f]) : Cal_BddIdentity(A.s.m, A.f[f]);
    TT want = neg ? ~f & 255 : f; TT got = A.s.eval(r);
    MC_CHECK(got == want && r == A.f[want], "%s(%s) denotes %s", neg ? "Not" : "Identity", hx(f), hx(got));
    A.s.free(r);
  }
  Cal_Bdd reg = Cal_BddGetRegular(A.s.m, A.f[f]);
  MC_CHECK(reg == A.f[f] || reg == A.f[~f & 255], "GetRegular(%s) is neither the BDD nor its complement", hx(f));
  MC_CHECK(reg == Cal_BddGetRegular(A.s.m, A.f[~f & 255]), "GetRegular differs for %s and its complement", hx(f));
  if (f == 0x96 || f == 0) { A.checkIntact("after all binary operations"); mc::sample("order %d: all six connectives of %s with all 256 functions, then collection: exact node count", o, hx(f)); }
}

// all ordered triples of functions of 3 variables
MC_SCENARIO(ite3) {
  static auto ps = perms(3);
  int o = mc::choose((int)mc::P("orders", 2)); if (o) o = 6 - o; // 0, 5, 4, ...
  TT f = mc::choose(256);
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  Sys &s = A.s;
  for (TT g = 0; g < 256; g++) for (TT h = 0; h < 256; h++) {
    TT want = ite(f, g, h) & 255;
    Cal_Bdd r = Cal_BddITE(s.m, A.f[f], A.f[g], A.f[h]);
    if (r != A.f[want]) { MC_CHECK(r, "ITE(%s,%s,%s) is null", hx(f), hx(g), hx(h)); TT got = s.eval(r); mc::fail("ITE(%s,%s,%s) denotes %s, expected %s", hx(f), hx(g), hx(h), hx(got), hx(want)); }
    s.free(r);
  }
  mc::ops(65536); mc::S->checks += 65536; mc::state(mc::mix(f, o));
  if ((f & 31) == 7) A.checkIntact("after ITE");
  if (f == 0x1b) mc::sample("order %d: ITE(%s,g,h) for all 65536 pairs g,h", o, hx(f));
}

// one operand from every NPN class of 4 variables, the other arbitrary
MC_SCENARIO(binary4) {
  static auto ps = perms(4);
  static const int ord[] = {0, 23, 9};
  int oi = mc::choose((int)mc::P("orders", 1)), o = ord[oi]; int side = mc::choose((int)mc::P("sides", 1));
  TT f = npn4()[mc::choose((int)npn4().size())];
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  Sys &s = A.s;
  for (TT g = 0; g < 65536; g++) for (auto &op : OPS) {
    TT want = op.ref(f, g) & 65535;
    Cal_Bdd r = side ? op.fn(s.m, A.f[g], A.f[f]) : op.fn(s.m, A.f[f], A.f[g]);
    if (r != A.f[want]) { MC_CHECK(r, "%s(%s,%s) is null", op.name, hx(f), hx(g)); TT got = s.eval(r); mc::fail("%s(%s,%s) (side %d) denotes %s, expected %s", op.name, hx(f), hx(g), side, hx(got), hx(want)); }
    s.free(r);
  }
  mc::ops(65536 * 6); mc::S->checks += 65536 * 6; mc::state(mc::mix(f, oi * 2 + side));
}

// variables far apart, many variables in the manager, ids across the 8-bit, capacity and word boundaries
MC_SCENARIO(wide) {
  int li = mc::choose((int)layouts3().size()); int p = mc::choose(2);
  TT f = mc::choose(256);
  const Layout &L = layouts3()[li];
  mc::shardHere();
  AllFn &A = fixture<AllFn>(100 + li * 2 + p, [&] { return new AllFn(3, [&](Sys &s) { setupLayout(s, L); if (p) { s.newDummy(Sys::AFTER, 1); s.newDummy(Sys::BEFORE, 1); s.newDummy(Sys::FIRST); } }); });
  for (TT g = 0; g < 256; g++) {
    allOps(A, f, g); mc::state(mc::mix(mc::mix(f, g), 77 + li));
    TT h = (g * 37 + f * 11 + 5) & 255, want = ite(f, g, h) & 255;
    mc::ops(1); Cal_Bdd r = Cal_BddITE(A.s.m, A.f[f], A.f[g], A.f[h]);
    TT got = A.s.eval(r); MC_CHECK(got == want && r == A.f[want], "ITE(%s,%s,%s) denotes %s", hx(f), hx(g), hx(h), hx(got)); A.s.free(r);
  }
  if (f == 1) { A.checkIntact("wide"); A.s.readOrder("wide"); mc::sample("layout %s", L.name); }
}

// every history of up to `depth` operations in a fresh manager (cold and partially warm caches, garbage around), with collections
MC_SCENARIO(histories) {
  int depth = (int)mc::P("depth", 3);
  static auto ps = perms(3);
  Sys s; s.initOrder(ps[mc::choose((int)mc::P("orders", 2)) ? 4 : 0]);
  static const TT init[] = {0x96, 0xe8, 0x1d, 0x80};
  for (TT t : init) s.add(s.build(t), t);
  for (int v = 0; v < 2; v++) s.add(Cal_BddIdentity(s.m, s.var[v]), VARTT[v]);
  for (int d = 0; d < depth; d++) {
    int nsl = (int)s.slot.size();
    int k = mc::choose(4);
    if (k < 3) {
      int a = mc::choose(nsl), b = mc::choose(nsl);
      static const int which[] = {0, 2, 4};
      auto &o = OPS[which[k] + (d & 1)];
      Cal_Bdd r = o.fn(s.m, s.slot[a].h, s.slot[b].h); TT want = o.ref(s.slot[a].t, s.slot[b].t) & 255;
      mc::op("#%d = %s(#%d:%s, #%d:%s)", nsl, o.name, a, hx(s.slot[a].t), b, hx(s.slot[b].t));
      s.expect(r, want, o.name); s.add(r, want);
    } else {
      int a = mc::choose(nsl), b = mc::choose(nsl), c = (a + b + d) % nsl;
      Cal_Bdd r = Cal_BddITE(s.m, s.slot[a].h, s.slot[b].h, s.slot[c].h); TT want = ite(s.slot[a].t, s.slot[b].t, s.slot[c].t) & 255;
      mc::op("#%d = ITE(#%d,#%d,#%d)", nsl, a, b, c);
      s.expect(r, want, "ITE"); s.add(r, want);
    }
    if (d == 0) { s.free(s.slot[0].h); s.slot[0].h = Cal_BddIdentity(s.m, s.slot.back().h); s.slot[0].t = s.slot.back().t; }
    s.checkLive("history"); mc::state(s.hash());
  }
  unsigned long got = s.gc(), exp = s.expectedNodes();
  MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("after collection");
  s.quit();
}

// large BDDs: table growth, long request queues
MC_SCENARIO(large) {
  Big::N = (int)mc::P("bits", 13);
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); B->expect(h.back(), t.back(), f.first); } }
  int i = mc::choose((int)F.size()), j = mc::choose((int)F.size()); mc::shardHere();
  auto bitop = [&](std::function<uint64_t(uint64_t, uint64_t)> f) { Big r; for (size_t k = 0; k < r.w.size(); k++) r.w[k] = f(t[i].w[k], t[j].w[k]); return r; };
  char what[200];
  for (auto &o : OPS) {
    snprintf(what, sizeof what, "%s(%s, %s)", o.name, F[i].first, F[j].first); mc::op("%s", what);
    Cal_Bdd r = o.fn(B->m(), h[i], h[j]); B->expect(r, bitop(o.ref), what); Cal_BddFree(B->m(), r);
  }
  int k = (i * 7 + j * 3 + 1) % F.size();
  snprintf(what, sizeof what, "ITE(%s, %s, %s)", F[i].first, F[j].first, F[k].first); mc::op("%s", what);
  Cal_Bdd r = Cal_BddITE(B->m(), h[i], h[j], h[k]);
  Big w; for (size_t q = 0; q < w.w.size(); q++) w.w[q] = ite(t[i].w[q], t[j].w[q], t[k].w[q]);
  B->expect(r, w, what); Cal_BddFree(B->m(), r);
  mc::state(mc::mix(i, j));
  if (j == 0) for (size_t q = 0; q < F.size(); q++) B->expect(h[q], t[q], F[q].first);
  if (i == 3 && j == 14) mc::sample("%s over %d variables: %ld nodes in the manager", what, Big::N, Cal_BddManagerGetNumNodes(B->m()));
}

int main(int c, char **v) { return mc::main(c, v); }

// C03: multiway and pairwise operations
#include "fixtures.hh"

struct Kind { const char *name; Cal_Bdd (*multi)(Cal_BddManager, Cal_Bdd *); Cal_Bdd *(*pair)(Cal_BddManager, Cal_Bdd *); Cal_Bdd (*bin)(Cal_BddManager, Cal_Bdd, Cal_Bdd); TT (*ref)(TT, TT); };
static const Kind K[] = {
  {"And", Cal_BddMultiwayAnd, Cal_BddPairwiseAnd, Cal_BddAnd, [](TT a, TT b) { return a & b; }},
  {"Or", Cal_BddMultiwayOr, Cal_BddPairwiseOr, Cal_BddOr, [](TT a, TT b) { return a | b; }},
  {"Xor", Cal_BddMultiwayXor, Cal_BddPairwiseXor, Cal_BddXor, [](TT a, TT b) { return a ^ b; }}};

static std::string show(const std::vector<TT> &ts) { std::string s; for (TT t : ts) { s += hx(t); s += " "; } return s; }

static void multi(AllFn &A, const Kind &k, const std::vector<TT> &ts) {
  Sys &s = A.s;
  std::vector<Cal_Bdd> a; for (TT t : ts) a.push_back(A.f[t]);
  a.push_back(nullptr);
  auto copy = a;
  if (mc::tracing) mc::op("Multiway%s(%s)", k.name, show(ts).c_str()); else mc::ops(1);
  Cal_Bdd r = k.multi(s.m, a.data());
  MC_CHECK(a == copy, "Multiway%s changed its argument array", k.name);
  if (ts.empty()) { MC_CHECK(!r, "Multiway%s of an empty array is not null", k.name); return; }
  TT want = ts[0]; for (size_t i = 1; i < ts.size(); i++) want = k.ref(want, ts[i]);
  want &= full(A.n);
  MC_CHECK(r, "Multiway%s(%s) is null", k.name, show(ts).c_str());
  TT got = s.eval(r);
  MC_CHECK(got == want && r == A.f[want], "Multiway%s(%s) denotes %s, expected %s", k.name, show(ts).c_str(), hx(got), hx(want));
  s.free(r);
}
static void pairw(AllFn &A, const Kind &k, const std::vector<TT> &ts) {
  Sys &s = A.s;
  std::vector<Cal_Bdd> a; for (TT t : ts) a.push_back(A.f[t]);
  a.push_back(nullptr);
  auto copy = a;
  if (mc::tracing) mc::op("Pairwise%s(%s)", k.name, show(ts).c_str()); else mc::ops(1);
  Cal_Bdd *r = k.pair(s.m, a.data());
  MC_CHECK(a == copy, "Pairwise%s changed its argument array", k.name);
  if (ts.empty() || ts.size() % 2) { MC_CHECK(!r, "Pairwise%s of %zu BDDs is not null", k.name, ts.size()); return; }
  MC_CHECK(r, "Pairwise%s(%s) is null", k.name, show(ts).c_str());
  for (size_t i = 0; i < ts.size() / 2; i++) {
    TT want = k.ref(ts[2 * i], ts[2 * i + 1]) & full(A.n);
    MC_CHECK(r[i], "Pairwise%s(%s)[%zu] is null", k.name, show(ts).c_str(), i);
    TT got = s.eval(r[i]);
    MC_CHECK(got == want && r[i] == A.f[want], "Pairwise%s(%s)[%zu] denotes %s, expected %s", k.name, show(ts).c_str(), i, hx(got), hx(want));
    s.free(r[i]);
  }
  MC_CHECK(r[ts.size() / 2] == nullptr, "Pairwise%s(%s): the result is not null-terminated", k.name, show(ts).c_str());
  free(r);
}

// arrays over all 16 functions of 2 variables: every array up to the length bound
MC_SCENARIO(arrays2) {
  static auto ps = perms(2);
  int len = (int)mc::P("len", 4);
  int o = mc::choose(2), k = mc::choose(3), l = mc::choose(len + 1);
  std::vector<TT> ts;
  for (int i = 0; i < l; i++) ts.push_back(mc::choose(16));
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(2, ps[o]); });
  multi(A, K[k], ts); pairw(A, K[k], ts);
  uint64_t h = k; for (TT t : ts) h = mc::mix(h, t); mc::state(h);
  if (l == 4 && ts[0] == 6 && ts[3] == 9 && ts[2] == 3 && ts[1] == 10) { A.checkIntact("after the array operations"); mc::sample("all arrays of 4, here %s", show(ts).c_str()); }
}

// pairs whose top variables lie anywhere: all pairs (f0,f1),(g0,g1) over a family with every support, every order
static const TT FAM[] = {0xaa, 0xcc, 0xf0, 0x55, 0x96, 0xe8, 0x88, 0xc0, 0x3f, 0xa5, 0x00, 0xff, 0xd8, 0x1e, 0x33, 0x0f};
MC_SCENARIO(tops) {
  static auto ps = perms(3);
  int NF = (int)mc::P("fam", 11);
  int o = mc::choose(6); int a = mc::choose(NF), b = mc::choose(NF); mc::shardHere();
  AllFn &A = fixture<AllFn>(10 + o, [&] { return new AllFn(3, ps[o]); });
  for (int c = 0; c < NF; c++) for (int d = 0; d < NF; d++) for (auto &k : K) {
    std::vector<TT> ts = {FAM[a], FAM[b], FAM[c], FAM[d]};
    pairw(A, k, ts); multi(A, k, ts);
    for (int e = 0; e < 4; e++) { auto t2 = ts; t2.push_back(FAM[(a + c + e) % NF]); multi(A, k, t2); t2.push_back(FAM[(b + d + e * 3) % NF]); pairw(A, k, t2); multi(A, k, t2); }
    mc::state(mc::mix(mc::mix(a * 100 + b, c * 100 + d), o));
  }
  if (a == 1 && b == 2) { A.checkIntact("after array operations"); mc::sample("order %d: all pairs of pairs with %s,%s", o, hx(FAM[a]), hx(FAM[b])); }
}

// every length up to the bound (all depths of the internal pipeline, odd elements at every level), three kinds of contents
MC_SCENARIO(lengths) {
  int maxlen = (int)mc::P("maxlen", 140);
  int k = mc::choose(3), l = mc::choose(maxlen + 1), kind = mc::choose(4); int fresh = mc::choose(2); mc::shardHere();
  static int extra[] = {255, 256, 257, 300, 511, 512, 513, 640, 1000, 1023, 1024};
  std::unique_ptr<AllFn> own; AllFn *A;
  if (fresh && l > 2) { own.reset(new AllFn(3, [](Sys &s) { s.initOrder({1, 2, 0}); })); A = own.get(); }
  else A = &fixture<AllFn>(20, [] { return new AllFn(3, std::vector<int>{1, 0, 2}); });
  int n = l; if (l > maxlen - 11) n = extra[l - (maxlen - 10)];
  std::vector<TT> ts;
  for (int i = 0; i < n; i++) {
    TT t;
    if (kind == 0) t = FAM[(i * 7 + k) % 16]; 
    else if (kind == 1) t = k == 0 ? ~(1ull << (i * 5 % 7)) & 255 : 1ull << (i * 5 % 7);   // one by one towards a constant
    else if (kind == 2) t = i == n - 1 ? 0x96 : (k == 0 ? 0xff : 0);                        // the odd last element decides
    else t = i == 0 ? 0x1e : i % 2 ? 0xf0 : 0xaa;
    ts.push_back(t & 255);
  }
  multi(*A, K[k], ts); pairw(*A, K[k], ts);
  // the machinery is left clean: again, and with the neighbours
  multi(*A, K[k], ts);
  if (n > 2) { auto t2 = ts; t2.pop_back(); multi(*A, K[(k + 1) % 3], t2); pairw(*A, K[k], t2); }
  // a variable created after the internal queues were deepened
  if (own) {
    own->s.newDummy(Sys::FIRST); own->s.newDummy(Sys::AFTER, 0); multi(*A, K[k], ts);
    own->checkIntact("lengths"); own->s.quit();
  }
  mc::state(mc::mix(mc::mix(l, kind), k));
  if (n == 1000) mc::sample("Multiway%s over %d operands, contents kind %d", K[k].name, n, kind);
}

// operands far apart in a manager with many variables
MC_SCENARIO(wide) {
  int li = mc::choose((int)layouts3().size()); int a = mc::choose(8), b = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(100 + li, [&] { return new AllFn(3, [&](Sys &s) { setupLayout(s, layouts3()[li]); }); });
  for (int c = 0; c < 8; c++) for (int d = 0; d < 8; d++) for (auto &k : K) { std::vector<TT> ts = {FAM[a], FAM[b], FAM[c], FAM[d], FAM[(a + c) % 11], FAM[(b + d) % 11]}; pairw(A, k, ts); multi(A, k, ts); ts.resize(3); multi(A, k, ts); }
  mc::state(mc::mix(mc::mix(a, b), li));
  if (a == 1 && b == 2) A.checkIntact("after array operations");
}

// large operands
MC_SCENARIO(large) {
  Big::N = (int)mc::P("bits", 11);
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  int i = mc::choose((int)F.size()), len = 2 + mc::choose(6), k = mc::choose(3); mc::shardHere();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); } }
  std::vector<Cal_Bdd> a; std::vector<int> ix;
  for (int q = 0; q < len; q++) { ix.push_back((i + q * q) % F.size()); a.push_back(h[ix.back()]); }
  a.push_back(nullptr);
  Big w = t[ix[0]]; for (int q = 1; q < len; q++) for (size_t z = 0; z < w.w.size(); z++) w.w[z] = K[k].ref(w.w[z], t[ix[q]].w[z]);
  mc::op("Multiway%s over %d large operands from %s", K[k].name, len, F[i].first);
  Cal_Bdd r = K[k].multi(B->m(), a.data()); B->expect(r, w, "Multiway over large operands"); Cal_BddFree(B->m(), r);
  if (len % 2 == 0) {
    Cal_Bdd *p = K[k].pair(B->m(), a.data());
    MC_CHECK(p, "Pairwise returned null");
    for (int q = 0; q < len / 2; q++) { Big e; for (size_t z = 0; z < e.w.size(); z++) e.w[z] = K[k].ref(t[ix[2 * q]].w[z], t[ix[2 * q + 1]].w[z]); B->expect(p[q], e, "Pairwise over large operands"); Cal_BddFree(B->m(), p[q]); }
    free(p);
  }
  mc::state(mc::mix(i * 10 + len, k));
}
int main(int c, char **v) { return mc::main(c, v); }

// Diagrams with astronomically many paths: functions of the numbers a and b of true variables in two groups of n variables and of one
// further variable c. Every operation has an exact model over the (n+1) x (n+1) x 2 table; an implementation that follows paths instead of
// nodes does not come back.
#include "capture.hh"
#include "dumpio.hh"
#include <cmath>
static int SN = 20;
struct Lut { std::vector<char> v; Lut() : v((SN + 1) * (SN + 1) * 2) {} char &at(int a, int b, int c) { return v[(a * (SN + 1) + b) * 2 + c]; } char at(int a, int b, int c) const { return v[(a * (SN + 1) + b) * 2 + c]; } bool operator==(const Lut &o) const { return v == o.v; } };
template <class F> static Lut lut(F f) { Lut r; for (int a = 0; a <= SN; a++) for (int b = 0; b <= SN; b++) for (int c = 0; c < 2; c++) r.at(a, b, c) = !!f(a, b, c); return r; }
struct Fam { const char *name; Lut t; };
static std::vector<Fam> family() {
  int n = SN; std::vector<Fam> F; auto add = [&](const char *s, Lut t) { F.push_back({s, t}); };
  add("parity", lut([&](int a, int b, int) { return (a + b) & 1; })); add("parity & c", lut([&](int a, int b, int c) { return (a + b) & c; })); add("~parity & c", lut([&](int a, int b, int c) { return (a + b + 1) & c & 1; }));
  add("a+b>=n", lut([&](int a, int b, int) { return a + b >= n; })); add("a=b", lut([&](int a, int b, int) { return a == b; })); add("a>b", lut([&](int a, int b, int) { return a > b; })); add("a+2b=1 mod 3", lut([&](int a, int b, int) { return (a + 2 * b) % 3 == 1; }));
  add("c ? a>=n/2 : b>=n/2", lut([&](int a, int b, int c) { return c ? a >= n / 2 : b >= n / 2; })); add("a=n", lut([&](int a, int, int) { return a == n; })); add("b=0 & ~c", lut([&](int, int b, int c) { return b == 0 && !c; })); add("a+b+c odd", lut([&](int a, int b, int c) { return (a + b + c) & 1; }));
  add("a even", lut([&](int a, int, int) { return !(a & 1); })); add("b odd & ~c", lut([&](int, int b, int c) { return (b & 1) && !c; })); add("|a-b|<2", lut([&](int a, int b, int) { return std::abs(a - b) < 2; })); add("a+b>=n or c", lut([&](int a, int b, int c) { return a + b >= n || c; })); add("c", lut([&](int, int, int c) { return c; }));
  add("0", lut([&](int, int, int) { return 0; })); add("1", lut([&](int, int, int) { return 1; }));
  return F;
}
template <class F> static Lut un(const Lut &x, F f) { Lut r; for (size_t i = 0; i < r.v.size(); i++) r.v[i] = !!f(x.v[i]); return r; }
template <class F> static Lut bi(const Lut &x, const Lut &y, F f) { Lut r; for (size_t i = 0; i < r.v.size(); i++) r.v[i] = !!f(x.v[i], y.v[i]); return r; }
// quantification of a set of groups (1: a, 2: b, 4: c)
static Lut quant(const Lut &x, int set, bool ex) {
  Lut r = x; for (int g = 0; g < 3; g++) if (set >> g & 1) { Lut y = r; r = lut([&](int a, int b, int c) { int hi = g == 2 ? 1 : SN; bool acc = !ex; for (int k = 0; k <= hi; k++) { bool v = y.at(g == 0 ? k : a, g == 1 ? k : b, g == 2 ? k : c); acc = ex ? acc || v : acc && v; } return acc; }); }
  return r;
}
struct Sym {
  Sys s; std::vector<Cal_Bdd> A, B; Cal_Bdd C = 0; std::vector<char> cls; int N;   // cls: group of each id
  Cal_BddManager m() { return s.m; }
  explicit Sym(int layout) {
    s.init(); N = 2 * SN + 1; cls.assign(N + 1, 0); std::vector<int> g;
    if (layout == 0) { for (int i = 0; i < SN; i++) { if (i == SN / 2) g.push_back(2); g.push_back(0); g.push_back(1); } }
    else if (layout == 1) { g.push_back(2); for (int i = 0; i < SN; i++) g.push_back(0); for (int i = 0; i < SN; i++) g.push_back(1); }
    else if (layout == 2) { for (int i = 0; i < SN; i++) { g.push_back(1); g.push_back(0); } g.push_back(2); }
    else { for (int i = 0; i < SN; i++) g.push_back(1); for (int i = 0; i < SN; i++) g.push_back(0); g.push_back(2); }
    for (int i = 1; i <= N; i++) { Cal_Bdd v = Cal_BddManagerCreateNewVarLast(s.m); cls[i] = g[i - 1]; if (cls[i] == 0) A.push_back(v); else if (cls[i] == 1) B.push_back(v); else C = v; idBit[i] = -1; }
    mc::op("%d variables, layout %d", N, layout);
  }
  int idAt(int lvl) { Cal_Bdd v = Cal_BddManagerGetVarWithIndex(s.m, lvl); int id = Cal_BddGetIfId(s.m, v); return id; }
  // the function as a diagram, bottom up
  Cal_Bdd build(const Lut &t) {
    int S = (SN + 1) * (SN + 1) * 2; std::vector<Cal_Bdd> nx(S); for (int i = 0; i < S; i++) nx[i] = t.v[i] ? Cal_BddOne(m()) : Cal_BddZero(m());
    std::vector<int> left(3, 0), tot = {SN, SN, 1};
    for (int lvl = N - 1; lvl >= 0; lvl--) {
      int k = cls[idAt(lvl)]; Cal_Bdd v = Cal_BddManagerGetVarWithIndex(m(), lvl); left[k]++; std::vector<Cal_Bdd> cu(S, nullptr);
      for (int a = 0; a <= SN - left[0]; a++) for (int b = 0; b <= SN - left[1]; b++) for (int c = 0; c <= 1 - left[2]; c++) {
        int i = (a * (SN + 1) + b) * 2 + c, j = ((a + (k == 0)) * (SN + 1) + b + (k == 1)) * 2 + c + (k == 2); cu[i] = nx[i] == nx[j] ? Cal_BddIdentity(m(), nx[i]) : Cal_BddITE(m(), v, nx[j], nx[i]);
      }
      for (auto h : nx) if (h) Cal_BddFree(m(), h); nx.swap(cu); Cal_BddFree(m(), v);
    }
    mc::op("build %p", (void *)nx[0]); expect(nx[0], t, "building a function bottom up"); return nx[0];
  }
  // at every level exactly one subdiagram per count, and the right constants at the end
  void expect(Cal_Bdd h, const Lut &t, const char *what) {
    MC_CHECK(h, "%s returned null", what); { uint64_t x = SN; for (size_t i = 0; i < t.v.size(); i += 8) { uint64_t y = 0; for (size_t k = i; k < i + 8 && k < t.v.size(); k++) y = y << 8 | (unsigned char)t.v[k]; x = mc::mix(x, y); } mc::state(mc::mix(x, m()->indexToId[0] * 64 + m()->indexToId[N - 1])); }
    int S = (SN + 1) * (SN + 1) * 2; std::vector<uintptr_t> cu(S, 0), nx; std::vector<int> ci(S), ni(S); uintptr_t q = (uintptr_t)h; auto *u = (CalBddNode_t *)(q & ~(uintptr_t)0xf);
    cu[0] = ((uintptr_t)u->thenBddNode & ~(uintptr_t)0xe) ^ (q & 1); ci[0] = u->thenBddId;
    for (int lvl = 0; lvl < N; lvl++) {
      nx.assign(S, 0); int id = m()->indexToId[lvl], k = cls[id];
      for (int i = 0; i < S; i++) if (cu[i]) for (int br = 0; br < 2; br++) {
        uintptr_t p = cu[i]; int pid = ci[i]; if (pid == id) { auto *b = (CalBddNode_t *)(p & ~(uintptr_t)0xf); uintptr_t inv = p & 1; p = (uintptr_t)(br ? b->thenBddNode : b->elseBddNode); p = (p & ~(uintptr_t)0xe) ^ inv; pid = br ? b->thenBddId : b->elseBddId; }
        int j = br ? i + (k == 0 ? (SN + 1) * 2 : k == 1 ? 2 : 1) : i; MC_CHECK(!nx[j] || (nx[j] == p && ni[j] == pid), "%s: the function is wrong or not reduced (level %d)", what, lvl); nx[j] = p; ni[j] = pid;
      }
      cu.swap(nx); ci.swap(ni);
    }
    for (int i = 0; i < S; i++) { MC_CHECK(cu[i] && ci[i] == CAL_BDD_CONST_ID, "%s: corrupt diagram", what); MC_CHECK((int)!(cu[i] & 1) == (int)t.v[i], "%s: wrong value with %d, %d, %d true", what, i / 2 / (SN + 1), i / 2 % (SN + 1), i & 1); }
  }
  // nodes of the reduced diagram of some functions (complements shared or not), terminal not counted
  long nodes(const std::vector<const Lut *> &ts, bool neg, std::vector<long> *prof = 0) {
    long tot = 0; std::vector<int> done(3, 0), tt = {SN, SN, 1}; if (prof) prof->assign(N + 1, 0); std::set<std::string> consts;
    for (int lvl = 0; lvl < N; lvl++) {
      int k = cls[m()->indexToId[lvl]]; std::set<std::string> seen; int ra = SN - done[0], rb = SN - done[1], rc = 1 - done[2];
      for (auto *t : ts) for (int a = 0; a <= done[0]; a++) for (int b = 0; b <= done[1]; b++) for (int c = 0; c <= done[2]; c++) {
        std::string z; bool dep = false; for (int x = 0; x <= ra; x++) for (int y = 0; y <= rb; y++) for (int w = 0; w <= rc; w++) { char v = t->at(a + x, b + y, c + w); z += v; int X = x + (k == 0), Y = y + (k == 1), W = w + (k == 2); if (X <= ra && Y <= rb && W <= rc && t->at(a + X, b + Y, c + W) != v) dep = true; }
        if (!dep) continue; if (neg && z[0]) for (auto &q : z) q ^= 1; seen.insert(z);
      }
      done[k]++; tot += (long)seen.size(); if (prof) (*prof)[lvl] = (long)seen.size();
    }
    return tot;
  }
  unsigned long gc() { Cal_BddManagerGC(m()); return Cal_BddManagerGetNumNodes(m()); }
  bool cubeIn(Cal_Bdd r, Cal_Bdd f) { Cal_Bdd x = Cal_BddImplies(m(), r, f); bool ok = Cal_BddIsBddZero(m(), x) && Cal_BddIsCube(m(), r) && !Cal_BddIsBddZero(m(), r); Cal_BddFree(m(), x); return ok; }
};
struct Live { Sym y; std::vector<Fam> F; std::vector<Cal_Bdd> h; unsigned long base;
  explicit Live(int layout, int from = 0, int step = 1) : y(layout), F(family()) { std::vector<Fam> G; for (size_t i = from; i < F.size(); i += step) G.push_back(F[i]); F.swap(G); for (auto &f : F) h.push_back(y.build(f.t)); base = y.gc(); }
  void done() { for (size_t i = 0; i < h.size(); i++) y.expect(h[i], F[i].t, "function built at the start"); y.s.quit(); }
};
static void setN() { SN = (int)mc::P("n", 20); }
MC_SCENARIO(sym_binary) {
  setN(); int layout = mc::choose(4), op = mc::choose(6), i = mc::choose(18); mc::shardHere(); Live L(layout); auto m = L.y.m(); typedef Cal_Bdd (*Op)(Cal_BddManager, Cal_Bdd, Cal_Bdd);
  static const Op OP[] = {Cal_BddAnd, Cal_BddNand, Cal_BddOr, Cal_BddNor, Cal_BddXor, Cal_BddXnor}; static const char *NM[] = {"And", "Nand", "Or", "Nor", "Xor", "Xnor"};
  for (size_t j = 0; j < L.F.size(); j++) { mc::op("%s(%s, %s)", NM[op], L.F[i].name, L.F[j].name); Cal_Bdd r = OP[op](m, L.h[i], L.h[j]);
    L.y.expect(r, bi(L.F[i].t, L.F[j].t, [&](bool x, bool y) { bool v = op < 2 ? x && y : op < 4 ? x || y : x != y; return v != (op & 1); }), NM[op]); for (size_t k = 0; k < L.F.size(); k++) if (r == L.h[k]) { MC_CHECK(op < 6, "-"); } Cal_BddFree(m, r); }
  L.done();
}
MC_SCENARIO(sym_ternary) {
  setN(); int layout = mc::choose(4), op = mc::choose(4), i = mc::choose(18); mc::shardHere(); Live L(layout); auto m = L.y.m(); size_t K = L.F.size();
  for (size_t j = 0; j < K; j++) for (size_t k = (i + j) % 3; k < K; k += 3) {
    Cal_Bdd x[] = {L.h[i], L.h[j], L.h[k], nullptr}; mc::op("op %d (%s, %s, %s)", op, L.F[i].name, L.F[j].name, L.F[k].name); const Lut &f = L.F[i].t, &g = L.F[j].t, &h = L.F[k].t;
    Cal_Bdd r = op == 0 ? Cal_BddITE(m, x[0], x[1], x[2]) : op == 1 ? Cal_BddMultiwayAnd(m, x) : op == 2 ? Cal_BddMultiwayOr(m, x) : Cal_BddMultiwayXor(m, x); Lut w; for (size_t z = 0; z < w.v.size(); z++) w.v[z] = op == 0 ? (f.v[z] ? g.v[z] : h.v[z]) : op == 1 ? f.v[z] & g.v[z] & h.v[z] : op == 2 ? f.v[z] | g.v[z] | h.v[z] : f.v[z] ^ g.v[z] ^ h.v[z];
    L.y.expect(r, w, op ? "multiway operation" : "ITE"); Cal_BddFree(m, r);
  }
  L.done();
}
MC_SCENARIO(sym_quant) {
  setN(); int layout = mc::choose(4), set = 1 + mc::choose(7), reg = mc::choose(2), bf = mc::choose(2); mc::shardHere(); calVerifLargeBdd = bf ? 0 : 1ul << 19; Live L(layout); auto m = L.y.m();
  std::vector<Cal_Bdd> q; if (set & 1) for (auto v : L.y.A) q.push_back(v); if (set & 2) for (auto v : L.y.B) q.push_back(v); if (set & 4) q.push_back(L.y.C); q.push_back(nullptr); int id = -1;
  if (reg) id = Cal_AssociationInit(m, q.data(), 0); else Cal_TempAssociationInit(m, q.data(), 0); Cal_AssociationSetCurrent(m, id); mc::op("quantified groups %d", set);
  for (size_t i = 0; i < L.F.size(); i++) {
    mc::op("Exists, ForAll %s", L.F[i].name); Cal_Bdd r = Cal_BddExists(m, L.h[i]); L.y.expect(r, quant(L.F[i].t, set, true), "Exists"); Cal_BddFree(m, r); r = Cal_BddForAll(m, L.h[i]); L.y.expect(r, quant(L.F[i].t, set, false), "ForAll"); Cal_BddFree(m, r);
    for (size_t j = i % 2; j < L.F.size(); j += 2) { mc::op("RelProd(%s, %s)", L.F[i].name, L.F[j].name); r = Cal_BddRelProd(m, L.h[i], L.h[j]); L.y.expect(r, quant(bi(L.F[i].t, L.F[j].t, [](bool x, bool y) { return x && y; }), set, true), "RelProd"); Cal_BddFree(m, r); }
  }
  if (reg) Cal_AssociationQuit(m, id); else Cal_TempAssociationQuit(m); calVerifLargeBdd = 1ul << 19; L.done();
}
MC_SCENARIO(sym_subst) {
  setN(); int layout = mc::choose(4), kind = mc::choose(6), reg = mc::choose(2), part = mc::choose(3); mc::shardHere(); Live L(layout, part, 3); auto m = L.y.m(); std::vector<Cal_Bdd> q, own; auto pr = [&](Cal_Bdd v, Cal_Bdd w) { q.push_back(v); q.push_back(w); }; Lut P = family()[0].t;
  // 0: exchange the groups; 1: a := b; 2: b := a, c := true; 3: a := ~b; 4: exchange, c := parity; 5: c := ~c, a := ~a
  for (int i = 0; i < SN; i++) { Cal_Bdd a = L.y.A[i], b = L.y.B[(i + 3) % SN]; if (kind == 0 || kind == 4) { pr(a, b); pr(b, a); } else if (kind == 1) pr(a, b); else if (kind == 2) pr(b, a); else if (kind == 3 || kind == 5) { Cal_Bdd x = Cal_BddNot(m, kind == 3 ? b : a); own.push_back(x); pr(a, x); } }
  if (kind == 2) pr(L.y.C, Cal_BddOne(m)); if (kind == 4) { Cal_Bdd x = L.y.build(P); own.push_back(x); pr(L.y.C, x); } if (kind == 5) { Cal_Bdd x = Cal_BddNot(m, L.y.C); own.push_back(x); pr(L.y.C, x); } q.push_back(nullptr);
  int id = -1; if (reg) id = Cal_AssociationInit(m, q.data(), 1); else Cal_TempAssociationInit(m, q.data(), 1); Cal_AssociationSetCurrent(m, id); mc::op("substitution %d", kind);
  auto img = [&](const Lut &t) { return lut([&](int a, int b, int c) -> bool { switch (kind) { case 0: return t.at(b, a, c); case 1: return t.at(b, b, c); case 2: return t.at(a, a, 1); case 3: return t.at(SN - b, b, c); case 4: return t.at(b, a, P.at(a, b, c)); default: return t.at(SN - a, b, !c); } }); };
  for (size_t i = 0; i < L.F.size(); i++) { mc::op("Substitute %s", L.F[i].name); Cal_Bdd r = Cal_BddSubstitute(m, L.h[i]); L.y.expect(r, img(L.F[i].t), "Substitute"); Cal_BddFree(m, r); if (kind < 2) { mc::op("VarSubstitute %s", L.F[i].name); r = Cal_BddVarSubstitute(m, L.h[i]); L.y.expect(r, img(L.F[i].t), "VarSubstitute"); Cal_BddFree(m, r); } }
  if (reg) Cal_AssociationQuit(m, id); else Cal_TempAssociationQuit(m); for (auto x : own) Cal_BddFree(m, x); L.done();
}
MC_SCENARIO(sym_compose) {
  setN(); int layout = mc::choose(4), i = mc::choose(18); mc::shardHere(); Live L(layout); auto m = L.y.m(); const Lut &f = L.F[i].t;
  for (size_t j = 0; j < L.F.size(); j++) { mc::op("Compose(%s, c, %s)", L.F[i].name, L.F[j].name); const Lut &g = L.F[j].t; Cal_Bdd r = Cal_BddCompose(m, L.h[i], L.y.C, L.h[j]); L.y.expect(r, lut([&](int a, int b, int c) { return f.at(a, b, g.at(a, b, c)); }), "Compose"); Cal_BddFree(m, r); }
  for (int k = 0; k < SN; k += 3) { Cal_Bdd u = L.y.A[k], v = L.y.A[(k + 5) % SN], w = L.y.B[(k + 1) % SN]; mc::op("SwapVars %s", L.F[i].name); Cal_Bdd r = Cal_BddSwapVars(m, L.h[i], u, v); MC_CHECK(r == L.h[i], "exchanging two variables of one group changed a function of the counts"); Cal_BddFree(m, r);
    for (auto z : {w, L.y.C}) { r = Cal_BddSwapVars(m, L.h[i], u, z); Cal_Bdd t = Cal_BddSwapVars(m, r, z, u); MC_CHECK(t == L.h[i], "exchanging two variables twice is not the identity"); double x = Cal_BddSatisfyingFraction(m, r), y = Cal_BddSatisfyingFraction(m, L.h[i]); MC_CHECK(std::fabs(x - y) < 1e-9, "exchanging two variables changed the number of solutions"); Cal_BddFree(m, r); Cal_BddFree(m, t); } }
  L.done();
}
MC_SCENARIO(sym_care) {
  setN(); int layout = mc::choose(4), i = mc::choose(18); mc::shardHere(); Live L(layout); auto m = L.y.m(); const Lut &f = L.F[i].t; Cal_Bdd nc = Cal_BddNot(m, L.y.C);
  for (int p = 0; p < 2; p++) { Cal_Bdd r = Cal_BddCofactor(m, L.h[i], p ? L.y.C : nc); mc::op("Cofactor by c"); L.y.expect(r, lut([&](int a, int b, int) { return f.at(a, b, p); }), "Cofactor"); Cal_BddFree(m, r); r = Cal_BddReduce(m, L.h[i], p ? L.y.C : nc); L.y.expect(r, lut([&](int a, int b, int) { return f.at(a, b, p); }), "Reduce"); Cal_BddFree(m, r); }
  for (size_t j = 0; j < L.F.size(); j++) { if (Cal_BddIsBddZero(m, L.h[j])) continue;
    for (int red = 0; red < 2; red++) { mc::op("%s(%s, %s)", red ? "Reduce" : "Cofactor", L.F[i].name, L.F[j].name); Cal_Bdd r = red ? Cal_BddReduce(m, L.h[i], L.h[j]) : Cal_BddCofactor(m, L.h[i], L.h[j]), x = Cal_BddXor(m, r, L.h[i]), y = Cal_BddAnd(m, x, L.h[j]); MC_CHECK(Cal_BddIsBddZero(m, y), "%s(%s, %s) differs from the function inside the care set", red ? "Reduce" : "Cofactor", L.F[i].name, L.F[j].name);
      if (red) MC_CHECK(Cal_BddSize(m, r, 1) <= Cal_BddSize(m, L.h[i], 1), "Reduce(%s, %s) is larger than the function", L.F[i].name, L.F[j].name); for (auto z : {r, x, y}) Cal_BddFree(m, z); }
    Cal_Bdd lo = Cal_BddAnd(m, L.h[i], L.h[j]), hi = Cal_BddOr(m, L.h[i], L.h[j]), r = Cal_BddBetween(m, lo, hi), x = Cal_BddImplies(m, lo, r), y = Cal_BddImplies(m, r, hi); mc::op("Between"); MC_CHECK(Cal_BddIsBddZero(m, x) && Cal_BddIsBddZero(m, y), "Between is outside its bounds"); for (auto z : {lo, hi, r, x, y}) Cal_BddFree(m, z); }
  Cal_BddFree(m, nc); L.done();
}
MC_SCENARIO(sym_witness) {
  setN(); int layout = mc::choose(4), i = mc::choose(18), set = mc::choose(4); mc::shardHere(); Live L(layout); auto m = L.y.m(); const Lut &f = L.F[i].t; bool sat = std::find(f.v.begin(), f.v.end(), 1) != f.v.end();
  std::vector<Cal_Bdd> q; if (set & 1) for (auto v : L.y.A) q.push_back(v); if (set & 2) for (auto v : L.y.B) q.push_back(v); q.push_back(nullptr); Cal_TempAssociationInit(m, q.data(), 0); Cal_AssociationSetCurrent(m, -1);
  Cal_Bdd r = Cal_BddSatisfy(m, L.h[i]), z = Cal_BddSatisfySupport(m, L.h[i]); mc::op("Satisfy %s", L.F[i].name); if (!sat) MC_CHECK(Cal_BddIsBddZero(m, r) && Cal_BddIsBddZero(m, z), "a witness of an unsatisfiable function"); else { MC_CHECK(L.y.cubeIn(r, L.h[i]) && L.y.cubeIn(z, L.h[i]), "not a cube inside the function"); for (auto v : q) if (v) MC_CHECK(Cal_BddDependsOn(m, z, v), "SatisfySupport leaves out an associated variable"); } Cal_BddFree(m, r); Cal_BddFree(m, z);
  for (size_t j = 0; j < L.F.size(); j++) { const Lut &g = L.F[j].t; bool both = false, diff = false; for (size_t k = 0; k < f.v.size(); k++) { if (f.v[k] && g.v[k]) both = true; if (f.v[k] && !g.v[k]) diff = true; }
    mc::op("Intersects, Implies(%s, %s)", L.F[i].name, L.F[j].name); Cal_Bdd x = Cal_BddIntersects(m, L.h[i], L.h[j]), n = Cal_BddImplies(m, L.h[i], L.h[j]), a = Cal_BddAnd(m, L.h[i], L.h[j]), ng = Cal_BddNot(m, L.h[j]), d = Cal_BddAnd(m, L.h[i], ng);
    Cal_Bdd na = Cal_BddNot(m, a), nd = Cal_BddNot(m, d), o1 = Cal_BddAnd(m, x, na), o2 = Cal_BddAnd(m, n, nd); MC_CHECK(Cal_BddIsBddZero(m, x) == (int)!both && Cal_BddIsBddZero(m, o1), "Intersects(%s, %s) is not a witness", L.F[i].name, L.F[j].name); MC_CHECK(Cal_BddIsBddZero(m, n) == (int)!diff && Cal_BddIsBddZero(m, o2), "Implies(%s, %s) is not a witness", L.F[i].name, L.F[j].name);
    for (auto y : {x, n, a, ng, d, na, nd, o1, o2}) Cal_BddFree(m, y); }
  Cal_TempAssociationQuit(m); L.done();
}
// the operations that remember results, in every order, on the same operands
MC_SCENARIO(sym_mixed) {
  setN(); int layout = mc::choose(4), ord = mc::choose(24), set = mc::choose(4), bf = mc::choose(2), part = mc::choose(3); mc::shardHere(); calVerifLargeBdd = bf ? 0 : 1ul << 19; Live L(layout, part, 3); auto m = L.y.m(); auto P = perms(4)[ord];
  std::vector<Cal_Bdd> q; if (set & 1) for (auto v : L.y.A) q.push_back(v); if (set & 2) q.push_back(L.y.C); else q.push_back(L.y.B[SN / 3]); q.push_back(nullptr); Cal_TempAssociationInit(m, q.data(), 0); Cal_AssociationSetCurrent(m, -1); bool exact = set & 2; int qs = (set & 1) | (set & 2 ? 4 : 0);
  for (size_t i = 0; i < L.F.size(); i++) for (size_t j = 0; j < L.F.size(); j++) {
    const Lut &f = L.F[i].t, &g = L.F[j].t; bool both = false, diff = false; for (size_t k = 0; k < f.v.size(); k++) { if (f.v[k] && g.v[k]) both = true; if (f.v[k] && !g.v[k]) diff = true; } Lut c = bi(f, g, [](bool x, bool y) { return x && y; });
    for (int k = 0; k < 4; k++) switch (P[k]) {
      case 0: { mc::op("Intersects(%s, %s)", L.F[i].name, L.F[j].name); Cal_Bdd x = Cal_BddIntersects(m, L.h[i], L.h[j]), n = Cal_BddNot(m, x), a = Cal_BddAnd(m, L.h[i], L.h[j]), y = Cal_BddOr(m, n, a); MC_CHECK(Cal_BddIsBddZero(m, x) == (int)!both && Cal_BddIsBddOne(m, y), "Intersects(%s, %s) is not a witness", L.F[i].name, L.F[j].name); for (auto z : {x, n, a, y}) Cal_BddFree(m, z); break; }
      case 1: { mc::op("Implies(%s, %s)", L.F[i].name, L.F[j].name); Cal_Bdd x = Cal_BddImplies(m, L.h[i], L.h[j]), y = Cal_BddAnd(m, x, L.h[j]); MC_CHECK(Cal_BddIsBddZero(m, x) == (int)!diff && Cal_BddIsBddZero(m, y), "Implies(%s, %s) is not a witness", L.F[i].name, L.F[j].name); for (auto z : {x, y}) Cal_BddFree(m, z); break; }
      case 2: { mc::op("RelProd(%s, %s)", L.F[i].name, L.F[j].name); Cal_Bdd r = Cal_BddRelProd(m, L.h[i], L.h[j]); if (exact) L.y.expect(r, quant(c, qs, true), "RelProd"); else { Cal_Bdd a = Cal_BddAnd(m, L.h[i], L.h[j]), y = Cal_BddExists(m, a); MC_CHECK(y == r, "RelProd(%s, %s) differs from Exists of And", L.F[i].name, L.F[j].name); Cal_BddFree(m, a); Cal_BddFree(m, y); } Cal_BddFree(m, r); break; }
      case 3: { mc::op("ForAll(%s)", L.F[i].name); Cal_Bdd r = Cal_BddForAll(m, L.h[i]); if (exact) L.y.expect(r, quant(f, qs, false), "ForAll"); Cal_BddFree(m, r); if ((i + j) % 4 == 1) Cal_BddManagerGC(m); break; }
    }
  }
  Cal_TempAssociationQuit(m); calVerifLargeBdd = 1ul << 19; L.done();
}
// queries and texts about one function and pairs of functions
static void queries(Live &L, int i) {
  auto m = L.y.m(); const Lut &f = L.F[i].t; std::vector<double> bin(SN + 1, 1); for (int k = 1; k <= SN; k++) bin[k] = bin[k - 1] * (SN - k + 1) / k; double all = std::pow(2.0, -(2 * SN + 1)), w = 0; bool dA = false, dB = false, dC = false;
  for (int a = 0; a <= SN; a++) for (int b = 0; b <= SN; b++) for (int c = 0; c < 2; c++) { if (f.at(a, b, c)) w += bin[a] * bin[b] * all; if (a < SN && f.at(a, b, c) != f.at(a + 1, b, c)) dA = true; if (b < SN && f.at(a, b, c) != f.at(a, b + 1, c)) dB = true; if (!c && f.at(a, b, 0) != f.at(a, b, 1)) dC = true; }
  mc::op("queries of %s", L.F[i].name); double x = Cal_BddSatisfyingFraction(m, L.h[i]); MC_CHECK(std::fabs(x - w) < 1e-9, "SatisfyingFraction(%s) = %.12g, expected %.12g", L.F[i].name, x, w);
  long sup = (dA + dB) * SN + dC, got = 0; std::vector<Cal_Bdd> S(L.y.N + 2, nullptr); Cal_BddSupport(m, L.h[i], S.data()); for (auto v : S) { if (!v) break; got++; int id = Cal_BddGetIfId(m, v); MC_CHECK(L.y.cls[id] == 0 ? dA : L.y.cls[id] == 1 ? dB : dC, "Support(%s) has a variable the function does not depend on", L.F[i].name); Cal_BddFree(m, v); } MC_CHECK(got == sup, "Support(%s) has %ld variables, expected %ld", L.F[i].name, got, sup);
  for (int lvl = 0; lvl < L.y.N; lvl++) { Cal_Bdd v = Cal_BddManagerGetVarWithIndex(m, lvl); int k = L.y.cls[Cal_BddGetIfId(m, v)]; MC_CHECK(Cal_BddDependsOn(m, L.h[i], v) == (int)(k == 0 ? dA : k == 1 ? dB : dC), "DependsOn(%s) at level %d is wrong", L.F[i].name, lvl); Cal_BddFree(m, v); }
  bool hasC0 = std::find(f.v.begin(), f.v.end(), 0) != f.v.end(), hasC1 = std::find(f.v.begin(), f.v.end(), 1) != f.v.end();
  for (int neg = 0; neg < 2; neg++) { std::vector<long> p; long n = L.y.nodes({&f}, neg, &p), leaves = neg ? 1 : hasC0 + hasC1; long z = Cal_BddSize(m, L.h[i], neg); MC_CHECK(z == n + leaves, "Size(%s, %d) = %ld, expected %ld", L.F[i].name, neg, z, n + leaves); std::vector<long> q(L.y.N + 1, -1); Cal_BddProfile(m, L.h[i], q.data(), neg); p[L.y.N] = leaves; MC_CHECK(p == q, "Profile(%s, %d) is wrong", L.F[i].name, neg);
    size_t j = (i * 5 + 2) % L.F.size(); const Lut &g = L.F[j].t; Cal_Bdd two[] = {L.h[i], L.h[j], nullptr}; n = L.y.nodes({&f, &g}, neg, &p); bool h0 = hasC0 || std::find(g.v.begin(), g.v.end(), 0) != g.v.end(), h1 = hasC1 || std::find(g.v.begin(), g.v.end(), 1) != g.v.end(); leaves = neg ? 1 : h0 + h1; z = Cal_BddSizeMultiple(m, two, neg); MC_CHECK(z == n + leaves, "SizeMultiple(%s, %s, %d) = %ld, expected %ld", L.F[i].name, L.F[j].name, neg, z, n + leaves); Cal_BddProfileMultiple(m, two, q.data(), neg); p[L.y.N] = leaves; MC_CHECK(p == q, "ProfileMultiple(%s, %s, %d) is wrong", L.F[i].name, L.F[j].name, neg); }
  { std::vector<long> q(L.y.N + 1, -1); Cal_BddFunctionProfile(m, L.h[i], q.data()); Cal_Bdd two[] = {L.h[i], L.h[(i + 1) % L.F.size()], nullptr}; long leaf = hasC0 + hasC1; MC_CHECK(q[L.y.N] == leaf, "FunctionProfile(%s) counts %ld constants, expected %ld", L.F[i].name, q[L.y.N], leaf); Cal_BddFunctionProfileMultiple(m, two, q.data()); }
  std::string t = textOf([&](FILE *fp) { Cal_BddPrintBdd(m, L.h[i], Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, nullptr, fp); Cal_BddPrintProfile(m, L.h[i], Cal_BddNamingFnNone, nullptr, 79, fp); Cal_BddPrintFunctionProfile(m, L.h[i], Cal_BddNamingFnNone, nullptr, 79, fp); }); MC_CHECK(t.size() < 100u * L.y.N * (Cal_BddSize(m, L.h[i], 0) + 40), "the printed form of a diagram with %lu nodes has %zu bytes", Cal_BddSize(m, L.h[i], 0), t.size());
}
MC_SCENARIO(sym_queries) { setN(); int layout = mc::choose(4), i = mc::choose(18); mc::shardHere(); Live L(layout); queries(L, i); L.done(); }
MC_SCENARIO(sym_dump) {
  setN(); int layout = mc::choose(4), part = mc::choose(3); mc::shardHere(); Live L(layout, part, 3); auto m = L.y.m(); std::vector<Cal_Bdd> l; for (auto v : L.y.A) l.push_back(v); for (auto v : L.y.B) l.push_back(v); l.push_back(L.y.C); l.push_back(nullptr);
  std::vector<Cal_Bdd> t; for (int i = 0; i < SN; i++) t.push_back(L.y.B[(i + 1) % SN]); for (int i = 0; i < SN; i++) t.push_back(L.y.A[SN - 1 - i]); t.push_back(L.y.C); t.push_back(nullptr);   // groups exchanged
  for (size_t i = 0; i < L.F.size(); i++) { std::string d = dump(L.y.s, L.h[i], l, L.F[i].name); Cal_Bdd r = undump(L.y.s, l, d), x = undump(L.y.s, t, d); MC_CHECK(r == L.h[i], "undump of %s gave another function", L.F[i].name); const Lut &f = L.F[i].t; L.y.expect(x, lut([&](int a, int b, int c) { return f.at(b, a, c); }), "undump with the groups exchanged"); Cal_BddFree(m, r); Cal_BddFree(m, x); }
  L.done();
}
MC_SCENARIO(sym_pipe) {
  setN(); int layout = mc::choose(4), op = mc::choose(3), i = mc::choose(18); mc::shardHere(); Live L(layout); auto m = L.y.m(); static const Cal_BddOp_t OPS[] = {CAL_AND, CAL_OR, CAL_XOR}; MC_CHECK(Cal_PipelineInit(m, OPS[op]) == 1, "Cal_PipelineInit refused"); mc::op("pipeline %d over %s", op, L.F[i].name);
  std::vector<Cal_Bdd> p, r; std::vector<Lut> w; auto F = [&](const Lut &x, const Lut &y) { return bi(x, y, [&](bool u, bool v) { return op == 0 ? u && v : op == 1 ? u || v : u != v; }); };
  for (size_t j = 0; j < L.F.size(); j++) { p.push_back(Cal_PipelineCreateProvisionalBdd(m, L.h[i], L.h[j])); w.push_back(F(L.F[i].t, L.F[j].t)); } size_t K = p.size(); for (size_t j = 0; j + 1 < K; j += 2) { p.push_back(Cal_PipelineCreateProvisionalBdd(m, p[j], p[j + 1])); w.push_back(F(w[j], w[j + 1])); }
  MC_CHECK(Cal_PipelineExecute(m) == 1, "Cal_PipelineExecute failed"); for (auto x : p) r.push_back(Cal_PipelineUpdateProvisionalBdd(m, x)); Cal_PipelineQuit(m); for (size_t j = 0; j < p.size(); j++) { L.y.expect(r[j], w[j], "pipelined operation"); Cal_BddFree(m, r[j]); }
  L.done();
}
MC_SCENARIO(sym_reorder) {
  setN(); int layout = mc::choose(4), k = mc::choose(4), part = mc::choose(3), fwd = mc::choose(2); mc::shardHere(); Live L(layout, part, 3); auto m = L.y.m(); static const int T[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW}, M[] = {CAL_REORDER_METHOD_BF, CAL_REORDER_METHOD_DF}; if (fwd) Cal_BddManagerSetParameters(m, -1, 20, -1, -1.0);
  for (int r = 0; r < 2; r++) { Cal_BddDynamicReordering(m, T[(k + r) & 1], M[k >> 1]); Cal_BddReorder(m); mc::op("reorder %d", k); for (size_t i = 0; i < L.h.size(); i++) L.y.expect(L.h[i], L.F[i].t, "function after reordering"); unsigned long n = L.y.gc(); std::vector<const Lut *> ts; for (auto &f : L.F) ts.push_back(&f.t); Lut va; (void)va; L.base = n; for (size_t i = 0; i < L.h.size(); i++) { Cal_Bdd x = L.y.build(L.F[i].t); MC_CHECK(x == L.h[i], "rebuilding %s after reordering gave another handle", L.F[i].name); Cal_BddFree(m, x); } for (size_t i = 0; i < L.h.size(); i++) queries(L, i); L.base = L.y.gc(); MC_CHECK(L.base == n, "%lu nodes after queries, %lu before", L.base, n); }
  L.done();
}
int main(int c, char **v) { return mc::main(c, v); }

// Diagrams with up to millions of nodes: functions over n pairs of variables (x_i, y_i) under an order that puts every x above every y, so that
// a level has 2^n nodes. Tables, pages, caches and thresholds reach sizes that small functions do not. A function is a Boolean combination of
// folds (or, xor, and) of two-variable functions; its diagram is compared, level by level and node by node, with the automaton that remembers
// the pending variables and the values of the folds. The automaton follows whatever the current order is.
#include "capture.hh"
#include "dumpio.hh"
#include <cmath>
static int HN = 12;                                                    // pairs; x_i has id i + 1, y_i has id HN + i + 1
struct Pr { int u, v, t; };                                            // value: bit (value of u | value of v << 1) of t; u == v: a function of one variable
struct Base { int fold; std::vector<Pr> p; };                          // fold: 0 or, 1 xor, 2 and
struct Fn { std::vector<Base> b; unsigned tt; const char *name = ""; };  // value: bit (values of the folds) of tt
static int X(int i) { return i + 1; } static int Y(int i) { return HN + i + 1; }
static Base fold(int f, int t, int shift = 0) { Base b{f, {}}; for (int i = 0; i < HN; i++) b.p.push_back({X(i), Y((i + shift) % HN), t}); return b; }
static Fn one(const Base &b, const char *n = "") { return {{b}, 2, n}; }
static Fn both(const Base &a, const Base &b, int op) { return {{a, b}, (unsigned)(op == 0 ? 8 : op == 1 ? 14 : 6)}; }
static Base half(bool ys) { Base b{0, {}}; int k = HN / 2; for (int i = 0; i < k; i++) b.p.push_back({ys ? Y(i) : X(i), ys ? Y(i + k) : X(i + k), 8}); return b; }  // a function of the x, or of the y, alone
// replace variables by literals or constants: image[id] = 2 * id' + negated, 0 or 1 for the constants
static Base image(const Base &b, const std::vector<int> &im) {
  Base r{b.fold, {}};
  for (auto &p : b.p) { int a = im[p.u], c = im[p.v]; bool ka = a < 2, kc = c < 2; Pr q; q.t = 0;
    q.u = ka ? (kc ? 1 : c / 2) : a / 2; q.v = kc ? q.u : c / 2;
    for (int w = 0; w < 4; w++) { int uv = w & 1, vv = w >> 1; if (q.u == q.v && uv != vv) continue; int x = ka ? a : (q.u == a / 2 ? uv : vv) ^ (a & 1), y = kc ? c : (q.v == c / 2 ? vv : uv) ^ (c & 1); if (p.t >> (x | y << 1) & 1) q.t |= 1 << w; }
    r.p.push_back(q); }
  return r;
}
static Fn image(const Fn &f, const std::vector<int> &im) { Fn r = f; for (auto &b : r.b) b = image(b, im); return r; }
static std::vector<int> ident() { std::vector<int> im(2 * HN + 1); for (int i = 1; i <= 2 * HN; i++) im[i] = 2 * i; return im; }
struct Ref { uintptr_t p; int id; };
static Ref top(Cal_Bdd h) { uintptr_t q = (uintptr_t)h; auto *u = (CalBddNode_t *)(q & ~(uintptr_t)0xf); return {((uintptr_t)u->thenBddNode & ~(uintptr_t)0xe) ^ (q & 1), u->thenBddId}; }
static Ref child(Ref r, int br) { auto *b = (CalBddNode_t *)(r.p & ~(uintptr_t)0xf); uintptr_t inv = r.p & 1; uintptr_t p = (uintptr_t)(br ? b->thenBddNode : b->elseBddNode); return {(p & ~(uintptr_t)0xe) ^ inv, br ? b->thenBddId : b->elseBddId}; }
struct Huge {
  Sys s; int N; std::vector<Cal_Bdd> v; struct Live { Cal_Bdd h; Fn f; }; std::vector<Live> live;
  Cal_BddManager m() { return s.m; }
  explicit Huge(int layout) { s.init(); N = 2 * HN; for (int i = 1; i <= N; i++) { v.push_back(layout ? Cal_BddManagerCreateNewVarFirst(s.m) : Cal_BddManagerCreateNewVarLast(s.m)); idBit[i] = -1; } mc::op("%d pairs, layout %d", HN, layout); }
  Cal_Bdd var(int id) { return v[id - 1]; }
  void expect(Cal_Bdd h, const Fn &f, const char *what) {
    MC_CHECK(h, "%s returned null", what); int K = (int)f.b.size(); std::vector<int> left(N + 1, 0), pend; for (auto &b : f.b) for (auto &p : b.p) { left[p.u]++; if (p.u != p.v) left[p.v]++; }
    int acc0 = 0; for (int k = 0; k < K; k++) if (f.b[k].fold == 2) acc0 |= 1 << k; std::vector<Ref> cu(1 << K, Ref{0, 0}), nx; cu[acc0] = top(h); mc::S->transitions++;
    for (int lvl = 0; lvl < N; lvl++) {
      int id = m()->indexToId[lvl]; struct Done { int k, pos, t, fold; }; std::vector<Done> done; std::vector<int> drop;
      for (int k = 0; k < K; k++) for (auto &p : f.b[k].p) {
        if (p.u == id && p.v == id) { done.push_back({k, -1, (p.t & 1) | (p.t >> 3 & 1) << 1, f.b[k].fold}); left[id]--; continue; } if (p.u != id && p.v != id) continue; int o = p.u == id ? p.v : p.u; auto it = std::find(pend.begin(), pend.end(), o); if (it == pend.end()) continue;
        int t = p.u == id ? p.t : (p.t & 9) | (p.t >> 1 & 1) << 2 | (p.t >> 2 & 1) << 1; done.push_back({k, (int)(it - pend.begin()), t, f.b[k].fold}); left[id]--; left[o]--; }      // t: bit (this value | other << 1)
      for (int i = (int)pend.size() - 1; i >= 0; i--) if (!left[pend[i]]) drop.push_back(i); std::vector<int> np; for (int x : pend) if (left[x]) np.push_back(x); bool keep = left[id] > 0; int kp = (int)np.size(); if (keep) np.push_back(id);
      MC_CHECK(np.size() + K < 26, "harness: too many pending variables"); nx.assign((size_t)1 << (np.size() + K), Ref{0, 0});
      for (size_t i = 0; i < cu.size(); i++) if (cu[i].p) for (int br = 0; br < 2; br++) {
        Ref r = cu[i]; if (r.id == id) { MC_CHECK(r.p & ~(uintptr_t)0xf, "corrupt diagram"); r = child(r, br); } size_t pd = i >> K; int acc = i & ((1 << K) - 1);
        for (auto &d : done) { int val = d.t >> (br | (d.pos < 0 ? 0 : (int)(pd >> d.pos & 1) << 1)) & 1; if (d.fold == 0) acc |= val << d.k; else if (d.fold == 1) acc ^= val << d.k; else acc &= ~((!val) << d.k); }
        for (int q : drop) pd = (pd & (((size_t)1 << q) - 1)) | (pd >> (q + 1)) << q; if (keep) pd |= (size_t)br << kp;
        Ref &z = nx[pd << K | acc]; if (z.p) MC_CHECK(z.p == r.p && z.id == r.id, "%s: the function is wrong or not reduced (level %d)", what, lvl); z = r;
      }
      pend.swap(np); cu.swap(nx);
    }
    for (int a = 0; a < 1 << K; a++) if (cu[a].p) { MC_CHECK(cu[a].id == CAL_BDD_CONST_ID, "%s: corrupt diagram", what); MC_CHECK((int)!(cu[a].p & 1) == (int)(f.tt >> a & 1), "%s: wrong value where the folds are %d", what, a); }
  }
  // nodes of the diagrams of some handles and of all variables, terminal included; by variable in prof
  unsigned long nodes(const std::vector<Cal_Bdd> &hs, bool vars, std::vector<long> *prof = 0, const std::vector<Ref> &roots = {}) {
    std::unordered_set<uintptr_t> seen; std::vector<Ref> st; if (prof) prof->assign(N + 1, 0); auto go = [&](Ref r) { if (r.id != CAL_BDD_CONST_ID && seen.insert(r.p & ~(uintptr_t)0xf).second) { st.push_back(r); if (prof) (*prof)[r.id]++; } };
    for (auto r : roots) go(r); for (auto h : hs) go(top(h)); if (vars) for (auto h : v) go(top(h)); while (!st.empty()) { Ref r = st.back(); st.pop_back(); go(child(r, 0)); go(child(r, 1)); } return seen.size() + 1;
  }
  Cal_Bdd literal(int id, bool neg) { return neg ? Cal_BddNot(m(), var(id)) : Cal_BddIdentity(m(), var(id)); }
  Cal_Bdd pairBdd(const Pr &p) { Cal_Bdd a = var(p.u), b = var(p.v), r, t, x; auto row = [&](int tt) { return tt == 0 ? Cal_BddZero(m()) : tt == 3 ? Cal_BddOne(m()) : literal(p.u, tt == 1); }; x = row(p.t >> 2 & 3); t = row(p.t & 3); r = Cal_BddITE(m(), b, x, t); (void)a; Cal_BddFree(m(), x); Cal_BddFree(m(), t); return r; }
  Cal_Bdd build(const Base &b) {
    Cal_Bdd r = b.fold == 2 ? Cal_BddOne(m()) : Cal_BddZero(m());
    for (auto &p : b.p) { Cal_Bdd q = pairBdd(p), n = b.fold == 0 ? Cal_BddOr(m(), r, q) : b.fold == 1 ? Cal_BddXor(m(), r, q) : Cal_BddAnd(m(), r, q); Cal_BddFree(m(), r); Cal_BddFree(m(), q); r = n; }
    return r;
  }
  int add(const Base &b, const char *name) { Cal_Bdd h = build(b); mc::op("build %s", name); Fn f = one(b, name); expect(h, f, name); live.push_back({h, f}); return (int)live.size() - 1; }
  void check(const char *when) { for (auto &l : live) expect(l.h, l.f, when); for (int i = 1; i <= N; i++) { Ref r = top(var(i)), t = child(r, 1), e = child(r, 0); MC_CHECK(r.id == i && t.id == 0 && e.id == 0 && !(t.p & 1) && (e.p & 1), "%s: variable %d is damaged", when, i); } }
  // counts of references are eight bits wide and stick at the maximum: nodes that were shared that much stay, with what is below them
  void collected(const char *when, std::vector<Cal_Bdd> more = {}) {
    Cal_BddManagerGC(m()); mc::op("collect"); for (auto &l : live) more.push_back(l.h); unsigned long g = Cal_BddManagerGetNumNodes(m()), x = nodes(more, true), k = x; if (g != x) { std::vector<Ref> stuck; for (int id = 1; id <= N; id++) { auto *t = m()->uniqueTable[id]; for (long b = 0; b < t->numBins; b++) for (CalBddNode_t *q = t->bins[b], *nx; q; q = nx) { nx = CalBddNodeGetNextBddNode(q); if (CalBddNodeIsRefCountMax(q)) stuck.push_back({(uintptr_t)q, id}); } } k = nodes(more, true, 0, stuck); }
    MC_CHECK(g == k, "%s: %lu nodes after collection, %lu needed, %lu with the nodes whose counts are at the maximum", when, g, x, k); mc::state(mc::mix(g, mc::mix(x, k)));
  }
  void got(Cal_Bdd r, const Fn &f, const char *what) { mc::op("%s", what); expect(r, f, what); Cal_BddFree(m(), r); }
  void done() { check("at the end"); collected("at the end"); s.quit(); }
};
static void setN() { HN = (int)mc::P("n", 12); calVerifLargeBdd = 1ul << 19; }
static void three(Huge &h) { h.add(fold(0, 8), "or x_i y_i"); h.add(fold(1, 8), "xor x_i y_i"); h.add(fold(2, 9), "x = y"); }
MC_SCENARIO(huge_bool) {
  setN(); int layout = mc::choose(2), lo = (int)mc::P("from", 0), op = lo + mc::choose((int)mc::P("to", 10) - lo), i = op < 6 ? mc::choose(4) : 0; mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); h.add(fold(0, 2, 1), "or x_i ~y_i+1"); typedef Cal_Bdd (*Op)(Cal_BddManager, Cal_Bdd, Cal_Bdd); static const Op OP[] = {Cal_BddAnd, Cal_BddNand, Cal_BddOr, Cal_BddNor, Cal_BddXor, Cal_BddXnor};
  auto B = [&](int k) { return h.live[k].f.b[0]; }; Cal_Bdd q[] = {h.live[0].h, h.live[1].h, h.live[2].h, nullptr};
  if (op < 6) { for (int j = 0; j < 4; j++) if (i != j) { Fn f{{B(i), B(j)}, (unsigned)(op < 2 ? 8 : op < 4 ? 14 : 6) ^ (op & 1 ? 15u : 0u)}; Cal_Bdd r = OP[op](m, h.live[i].h, h.live[j].h), n = Cal_BddNot(m, h.live[i].h), r2 = OP[op ^ 1](m, h.live[j].h, h.live[i].h); mc::op("operation %d (%d, %d)", op, i, j); h.expect(r, f, "operation"); Cal_Bdd x = Cal_BddNot(m, r2); MC_CHECK(x == r, "the complementary operation on exchanged operands gave another handle"); h.collected("after an operation", {r, r2}); for (auto z : {r, n, r2, x}) Cal_BddFree(m, z); } }
  else if (op == 6) for (int p = 0; p < 3; p++) { Fn f{{B(p), B((p + 1) % 3), B((p + 2) % 3)}, 0xd8}; h.got(Cal_BddITE(m, q[p], q[(p + 1) % 3], q[(p + 2) % 3]), f, "ITE"); }
  else { Fn f{{B(0), B(1), B(2)}, op == 7 ? 0x80u : op == 8 ? 0xfeu : 0x96u}; h.got(op == 7 ? Cal_BddMultiwayAnd(m, q) : op == 8 ? Cal_BddMultiwayOr(m, q) : Cal_BddMultiwayXor(m, q), f, "multiway operation"); }
  h.done();
}
// sets of variables to quantify: of pair i, 1: y, 2: x, 0: none
static std::vector<int> qset(int k) { std::vector<int> s(HN, 0); for (int i = 0; i < HN; i++) s[i] = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? i & 1 : k == 3 ? i == 0 : k == 4 ? (i < HN / 2 ? 1 : 2) : i == HN - 1 ? 2 : 0; return s; }
static Pr quantPair(const Pr &p, int w, int how) {                  // how: 0 exists, 1 for all, 2 value with the variable false, 3 depends on it
  int a = p.t, r = 0; int keep = w == 1 ? p.u : p.v; for (int k = 0; k < 2; k++) { int f = w == 1 ? a >> k & 1 : a >> (k << 1) & 1, t = w == 1 ? a >> (k | 2) & 1 : a >> (1 | k << 1) & 1; int z = how == 0 ? f | t : how == 1 ? f & t : how == 2 ? f : f ^ t; r |= z << (k ? 3 : 0); } return {keep, keep, r};
}
static Fn quantFn(const Base &b, const std::vector<int> &s, bool ex) {
  Base r{b.fold, {}}, d{0, {}}; for (size_t i = 0; i < b.p.size(); i++) { if (!s[i]) { r.p.push_back(b.p[i]); continue; } r.p.push_back(quantPair(b.p[i], s[i], b.fold == 1 ? 2 : !ex)); d.p.push_back(quantPair(b.p[i], s[i], 3)); }
  if (b.fold != 1) return one(r); return {{r, d}, ex ? 14u : 2u};
}
MC_SCENARIO(huge_quant) {
  setN(); int layout = mc::choose(2), set = mc::choose(6), big = mc::choose((int)mc::P("techniques", 2)), reg = mc::choose(2); mc::shardHere(); calVerifLargeBdd = big == 0 ? 1ul << 19 : big == 1 ? 1ul << 40 : 0; Huge h(layout); auto m = h.m(); three(h); int g = h.add(half(set != 1), "or z_i z_i+k"); auto S = qset(set); std::vector<Cal_Bdd> q; for (int i = 0; i < HN; i++) if (S[i]) q.push_back(h.var(S[i] == 1 ? Y(i) : X(i))); q.push_back(nullptr);
  int id = -1; if (reg) id = Cal_AssociationInit(m, q.data(), 0); else Cal_TempAssociationInit(m, q.data(), 0); Cal_AssociationSetCurrent(m, id); mc::op("quantified set %d, %d nodes", set, (int)Cal_BddManagerGetNumNodes(m));
  for (int i = 0; i < 3; i++) { const Base &b = h.live[i].f.b[0]; h.got(Cal_BddExists(m, h.live[i].h), quantFn(b, S, true), "Exists"); h.got(Cal_BddForAll(m, h.live[i].h), quantFn(b, S, false), "ForAll"); }
  // with "x = y" a relational product substitutes one half of the quantified pairs for the other
  auto im = ident(); for (int i = 0; i < HN; i++) { if (S[i] == 1) im[Y(i)] = 2 * X(i); else if (S[i] == 2) im[X(i)] = 2 * Y(i); } Base eq{2, {}}; for (int i = 0; i < HN; i++) if (!S[i]) eq.p.push_back({X(i), Y(i), 9});
  for (int i : {0, 1, g}) { Fn w = both(image(h.live[i].f.b[0], im), eq, 0); Cal_Bdd r = Cal_BddRelProd(m, i == 0 ? h.live[i].h : h.live[2].h, i == 0 ? h.live[2].h : h.live[i].h); h.got(r, w, "RelProd"); }
  h.check("after quantification"); if (reg) Cal_AssociationQuit(m, id); else Cal_TempAssociationQuit(m); calVerifLargeBdd = 1ul << 19; h.done();
}
MC_SCENARIO(huge_subst) {
  setN(); int layout = mc::choose(2), kind = mc::choose(6), reg = mc::choose(2); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); h.add(half(true), "or y_i y_i+k"); auto im = ident(); std::vector<Cal_Bdd> q, own; auto put = [&](int a, int lit) { im[a] = lit; Cal_Bdd x = lit < 2 ? (lit ? Cal_BddOne(m) : Cal_BddZero(m)) : h.literal(lit / 2, lit & 1); q.push_back(h.var(a)); q.push_back(x); own.push_back(x); };
  // 0: exchange; 1: y := x; 2: y rotated; 3: x complemented; 4: x := ~y, one y false; 5: rotation of everything
  for (int i = 0; i < HN; i++) { if (kind == 0) { put(X(i), 2 * Y(i)); put(Y(i), 2 * X(i)); } else if (kind == 1) put(Y(i), 2 * X(i)); else if (kind == 2) put(Y(i), 2 * Y((i + 1) % HN)); else if (kind == 3) put(X(i), 2 * X(i) + 1); else if (kind == 4) { put(X(i), 2 * Y(i) + 1); if (i == HN / 3) put(Y(i), 0); } else { put(X(i), 2 * X((i + 1) % HN)); put(Y(i), 2 * Y((i + 1) % HN)); } }
  q.push_back(nullptr); int id = -1; if (reg) id = Cal_AssociationInit(m, q.data(), 1); else Cal_TempAssociationInit(m, q.data(), 1); Cal_AssociationSetCurrent(m, id); mc::op("substitution %d", kind); bool vars = kind != 3 && kind != 4;
  for (size_t i = 0; i < h.live.size(); i++) { Fn w = image(h.live[i].f, im); h.got(Cal_BddSubstitute(m, h.live[i].h), w, "Substitute"); if (vars) { h.got(Cal_BddVarSubstitute(m, h.live[i].h), w, "VarSubstitute"); } }
  if (reg) Cal_AssociationQuit(m, id); else Cal_TempAssociationQuit(m); for (auto x : own) Cal_BddFree(m, x); h.done();
}
MC_SCENARIO(huge_compose) {
  setN(); int layout = mc::choose(2), i = mc::choose(3), k = mc::choose(3); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); int g = h.add(half(true), "or y_i y_i+k"); int p = k == 0 ? 0 : k == 1 ? HN - 1 : HN / 2; const Base &b = h.live[i].f.b[0];
  // f with x_p replaced by g: the fold over the other pairs, and pair p under both values of x_p
  Base rest{b.fold, {}}, lo{0, {}}, hi{0, {}}; for (int j = 0; j < HN; j++) if (j != p) rest.p.push_back(b.p[j]); Pr e = b.p[p]; lo.p.push_back({e.v, e.v, (e.t & 1) | (e.t >> 2 & 1) << 3}); hi.p.push_back({e.v, e.v, (e.t >> 1 & 1) | (e.t >> 3 & 1) << 3});
  Fn w{{rest, lo, hi, h.live[g].f.b[0]}, 0}; for (int a = 0; a < 16; a++) { int x = a & 1, y = a & 8 ? a >> 2 & 1 : a >> 1 & 1; if (b.fold == 0 ? x | y : b.fold == 1 ? x ^ y : x & y) w.tt |= 1u << a; }
  h.got(Cal_BddCompose(m, h.live[i].h, h.var(X(p)), h.live[g].h), w, "Compose"); auto im = ident();
  for (auto ab : {std::make_pair(X(p), Y(p)), std::make_pair(X(p), X((p + 1) % HN)), std::make_pair(Y(p), Y((p + 2) % HN))}) { im = ident(); im[ab.first] = 2 * ab.second; im[ab.second] = 2 * ab.first; h.got(Cal_BddSwapVars(m, h.live[i].h, h.var(ab.first), h.var(ab.second)), image(h.live[i].f, im), "SwapVars"); }
  h.done();
}
MC_SCENARIO(huge_care) {
  setN(); int layout = mc::choose(2), i = mc::choose(3), k = mc::choose(4); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); const char *nm[] = {"Cofactor", "Reduce"};
  if (k == 0) { auto im = ident(); Cal_Bdd c = Cal_BddOne(m); for (int p : {0, HN / 2, HN - 1}) { for (int z : {X(p), Y((p + 1) % HN)}) { bool neg = (p + z) & 1; im[z] = !neg; Cal_Bdd l = h.literal(z, neg), d = Cal_BddAnd(m, c, l); Cal_BddFree(m, c); Cal_BddFree(m, l); c = d; } }
    for (int r = 0; r < 2; r++) h.got(r ? Cal_BddReduce(m, h.live[i].h, c) : Cal_BddCofactor(m, h.live[i].h, c), image(h.live[i].f, im), nm[r]); Cal_BddFree(m, c); }
  else { int j = (i + k) % 3; if (k == 3) j = h.add(half(true), "or y_i y_i+k");
    for (int red = 0; red < 2; red++) { Cal_Bdd r = red ? Cal_BddReduce(m, h.live[i].h, h.live[j].h) : Cal_BddCofactor(m, h.live[i].h, h.live[j].h), x = Cal_BddXor(m, r, h.live[i].h), y = Cal_BddAnd(m, x, h.live[j].h); mc::op("%s(%d, %d)", nm[red], i, j); MC_CHECK(Cal_BddIsBddZero(m, y), "%s(%s, %s) differs from the function inside the care set", nm[red], h.live[i].f.name, h.live[j].f.name); if (red) MC_CHECK(Cal_BddSize(m, r, 1) <= Cal_BddSize(m, h.live[i].h, 1), "Reduce gave a larger diagram"); h.collected(nm[red], {r, x}); for (auto z : {r, x, y}) Cal_BddFree(m, z); }
    Cal_Bdd x = Cal_BddIntersects(m, h.live[i].h, h.live[j].h), a = Cal_BddAnd(m, h.live[i].h, h.live[j].h), n = Cal_BddNot(m, a), z = Cal_BddAnd(m, x, n); MC_CHECK(!Cal_BddIsBddZero(m, x) && Cal_BddIsBddZero(m, z), "Intersects is not a witness"); Cal_Bdd w = Cal_BddSatisfy(m, a), u = Cal_BddAnd(m, w, n); MC_CHECK(Cal_BddIsCube(m, w) && Cal_BddIsBddZero(m, u), "Satisfy is not a cube inside the function"); for (auto t : {x, a, n, z, w, u}) Cal_BddFree(m, t); }
  h.done();
}
// which of the functions are given up, in which order, with and without collections in between; what is rebuilt has the same handle
MC_SCENARIO(huge_maint) {
  setN(); int layout = mc::choose(2), gone = 1 + mc::choose(7), limit = mc::choose(3); mc::shardHere(); Huge h(layout); auto m = h.m(); if (limit == 2) Cal_BddManagerSetParameters(m, -1, 12, -1, -1.0); three(h); std::vector<Base> B; for (auto &l : h.live) B.push_back(l.f.b[0]); if (limit == 1) { Cal_BddManagerSetGCLimit(m); }
  for (int r = 0; r < 2; r++) {
    std::vector<Huge::Live> keep; std::vector<int> again; for (int i = 0; i < 3; i++) if (gone >> i & 1) { Cal_BddFree(m, h.live[i].h); mc::op("give up %d", i); again.push_back(i); } else keep.push_back(h.live[i]); auto all = h.live; h.live = keep; if (r) h.collected("after giving up"); h.check("after giving up");
    for (int i = 0; i < 3; i++) if (gone >> i & 1) { Cal_Bdd x = h.build(B[i]); h.expect(x, all[i].f, "rebuilt"); all[i].h = x; } h.live = all; h.check("after rebuilding"); h.collected("after rebuilding");
    for (int i : again) { Cal_Bdd x = h.build(B[i]); MC_CHECK(x == h.live[i].h, "building a live function again gave another handle"); Cal_BddFree(m, x); } h.collected("after building again");
  }
  h.done();
}
MC_SCENARIO(huge_dump) {
  setN(); int layout = mc::choose(2), i = mc::choose(3), rev = mc::choose(2); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); std::vector<Cal_Bdd> l, x, q; auto im = ident(), iq = ident(); for (int k = 1; k <= h.N; k++) l.push_back(h.var(rev ? h.N + 1 - k : k)); for (int k = 0; k < h.N; k++) { int from = rev ? h.N - k : k + 1, to = from <= HN ? from + HN : from - HN, t2 = from <= HN ? from % HN + 1 : from; x.push_back(h.var(to)); im[from] = 2 * to; q.push_back(h.var(t2)); iq[from] = 2 * t2; } l.push_back(nullptr); x.push_back(nullptr); q.push_back(nullptr);
  std::string d = dump(h.s, h.live[i].h, l, h.live[i].f.name); Cal_Bdd r = undump(h.s, l, d); MC_CHECK(r == h.live[i].h, "undump gave another function"); Cal_BddFree(m, r); h.got(undump(h.s, x, d), image(h.live[i].f, im), "undump with x and y exchanged"); h.got(undump(h.s, q, d), image(h.live[i].f, iq), "undump with the x rotated");
  Cal_BddFree(m, h.live[i].h); auto f = h.live[i].f; h.live.erase(h.live.begin() + i); h.collected("after giving up"); r = undump(h.s, l, d); h.expect(r, f, "undump of a function given up"); h.live.push_back({r, f}); h.done();
}
MC_SCENARIO(huge_queries) {
  setN(); int layout = mc::choose(2), i = mc::choose(4); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); h.add(half(true), "or y_i y_i+k"); Cal_Bdd f = h.live[i].h; double w = i == 0 ? 1 - std::pow(0.75, HN) : i == 1 ? (1 - std::pow(0.5, HN)) / 2 : i == 2 ? std::pow(0.5, HN) : 1 - std::pow(0.75, HN / 2), x = Cal_BddSatisfyingFraction(m, f); MC_CHECK(std::fabs(x - w) < 1e-9 * w, "SatisfyingFraction(%s) = %.15g, expected %.15g", h.live[i].f.name, x, w);
  std::vector<long> p, q(h.N + 1, -1); unsigned long n = h.nodes({f}, false, &p); MC_CHECK(Cal_BddSize(m, f, 1) == n, "Size is %lu, expected %lu", Cal_BddSize(m, f, 1), n); Cal_BddProfile(m, f, q.data(), 1); MC_CHECK(q[h.N] == 1, "Profile counts %ld constants", q[h.N]); for (int l = 0; l < h.N; l++) MC_CHECK(q[l] == p[m->indexToId[l]], "Profile has %ld nodes at level %d, expected %ld", q[l], l, p[m->indexToId[l]]);
  Cal_Bdd a[] = {f, h.live[(i + 1) % 4].h, h.live[(i + 2) % 4].h, nullptr}; n = h.nodes({a[0], a[1], a[2]}, false, &p); MC_CHECK(Cal_BddSizeMultiple(m, a, 1) == n, "SizeMultiple is %lu, expected %lu", Cal_BddSizeMultiple(m, a, 1), n); Cal_BddProfileMultiple(m, a, q.data(), 1); for (int l = 0; l < h.N; l++) MC_CHECK(q[l] == p[m->indexToId[l]], "ProfileMultiple has %ld nodes at level %d, expected %ld", q[l], l, p[m->indexToId[l]]);
  std::vector<Cal_Bdd> S(h.N + 2, nullptr); Cal_BddSupport(m, f, S.data()); int c = 0; for (auto z : S) { if (!z) break; c++; Cal_BddFree(m, z); } int e = 0; for (int k = 1; k <= h.N; k++) { bool in = false; for (auto &b : h.live[i].f.b[0].p) in |= b.u == k || b.v == k; e += in; MC_CHECK(Cal_BddDependsOn(m, f, h.var(k)) == (int)in, "DependsOn(%d) is wrong", k); } MC_CHECK(c == e, "Support has %d variables, expected %d", c, e);
  h.done();
}
MC_SCENARIO(huge_pipe) {
  setN(); int layout = mc::choose(2), op = mc::choose(3), shape = mc::choose(2); mc::shardHere(); Huge h(layout); auto m = h.m(); three(h); h.add(fold(0, 2, 1), "or x_i ~y_i+1"); static const Cal_BddOp_t OPS[] = {CAL_AND, CAL_OR, CAL_XOR}; MC_CHECK(Cal_PipelineInit(m, OPS[op]) == 1, "Cal_PipelineInit refused"); auto L = [&](int k) { return h.live[k].h; }; auto B = [&](int k) { return h.live[k].f.b[0]; };
  Cal_Bdd a = Cal_PipelineCreateProvisionalBdd(m, L(0), L(1)), b = Cal_PipelineCreateProvisionalBdd(m, shape ? L(1) : L(2), L(3)), c = Cal_PipelineCreateProvisionalBdd(m, a, b); MC_CHECK(Cal_PipelineExecute(m) == 1, "Cal_PipelineExecute failed"); mc::op("pipeline"); Cal_Bdd A = Cal_PipelineUpdateProvisionalBdd(m, a), D = Cal_PipelineUpdateProvisionalBdd(m, b), C = Cal_PipelineUpdateProvisionalBdd(m, c); Cal_PipelineQuit(m);
  h.expect(A, both(B(0), B(1), op), "first result"); h.expect(D, both(shape ? B(1) : B(2), B(3), op), "second result"); Fn f{{B(0), B(1), shape ? B(1) : B(2), B(3)}, 0}; for (int k = 0; k < 16; k++) { int n = __builtin_popcount(k); if (op == 0 ? k == 15 : op == 1 ? k != 0 : n & 1) f.tt |= 1u << k; } h.expect(C, f, "result of results"); h.collected("after the pipeline", {A, D, C}); for (auto z : {A, D, C}) Cal_BddFree(m, z); h.done();
}
MC_SCENARIO(huge_reorder) {
  setN(); int layout = mc::choose(2), k = mc::choose(4), autom = mc::choose(2); mc::shardHere(); Huge h(layout); auto m = h.m(); int tech = k & 1 ? CAL_REORDER_WINDOW : CAL_REORDER_SIFT, meth = k & 2 ? CAL_REORDER_METHOD_DF : CAL_REORDER_METHOD_BF;
  if (autom) Cal_BddDynamicReordering(m, tech, meth); three(h); mc::op("order after building: first id %d", (int)m->indexToId[0]); if (!autom) { Cal_BddDynamicReordering(m, tech, meth); Cal_BddReorder(m); mc::op("reorder %d", k); } h.check("after reordering"); std::vector<char> seen(h.N + 1, 0); for (int l = 0; l < h.N; l++) { int id = m->indexToId[l]; MC_CHECK(id >= 1 && id <= h.N && !seen[id] && m->idToIndex[id] == l, "the order is not a permutation"); seen[id] = 1; }
  h.collected("after reordering"); Cal_Bdd r = Cal_BddAnd(m, h.live[0].h, h.live[1].h); h.got(r, both(h.live[0].f.b[0], h.live[1].f.b[0], 0), "And"); for (auto &l : h.live) { Cal_Bdd x = h.build(l.f.b[0]); MC_CHECK(x == l.h, "building a live function after reordering gave another handle"); Cal_BddFree(m, x); } h.done();
}
// the work of one operation, in basic blocks of the library per node of its operands and result, for operations whose intermediate results are not larger
MC_SCENARIO(huge_linear) {
  setN(); int layout = mc::choose(2), tech = mc::choose(3), reg = mc::choose(2); mc::shardHere(); calVerifLargeBdd = tech == 0 ? 1ul << 19 : tech == 1 ? 1ul << 40 : 0; long per = mc::P("per", 1l << 40), rounds = mc::P("rounds", 2); Huge h(layout); auto m = h.m(); three(h); h.add(half(layout), "or z_i z_i+k"); int K = (int)h.live.size();
  std::vector<Cal_Bdd> q, sx, id(1, nullptr); for (int i = 0; i < HN; i++) { int a = layout ? X(i) : Y(i); q.push_back(h.var(a)); sx.push_back(h.var(a)); sx.push_back(h.var(layout ? X((i + 1) % HN) : Y((i + 1) % HN))); } q.push_back(nullptr); sx.push_back(nullptr); int a1 = -1, a2; if (reg) a1 = Cal_AssociationInit(m, q.data(), 0); else Cal_TempAssociationInit(m, q.data(), 0); a2 = Cal_AssociationInit(m, sx.data(), 1);
  auto run = [&](const char *what, std::vector<Cal_Bdd> in, std::function<Cal_Bdd()> f) { mc::op("%s", what); Cal_Bdd r = f(); long w = mc::work; if (r) in.push_back(r); long n = (long)h.nodes(in, true), k = w / std::max(n, 8192l); if (mc::P("show", 0)) fprintf(stderr, "%s %ld / %ld = %ld\n", what, w, n, k); MC_CHECK(k <= per, "%s executed %ld basic blocks of the library per node (%ld nodes)", what, k, n); if (r) Cal_BddFree(m, r); };
  for (int r = 0; r < rounds; r++) for (int i = 0; i < K; i++) {
    Cal_Bdd f = h.live[i].h, g = h.live[(i + 1) % K].h; Cal_AssociationSetCurrent(m, a1); run("Exists", {f}, [&] { return Cal_BddExists(m, f); }); run("ForAll", {f}, [&] { return Cal_BddForAll(m, f); }); run("RelProd", {f, g}, [&] { return Cal_BddRelProd(m, f, g); });
    Cal_AssociationSetCurrent(m, a2); run("And", {f, g}, [&] { return Cal_BddAnd(m, f, g); }); run("Xor", {f, g}, [&] { return Cal_BddXor(m, f, g); }); run("Nor", {f, g}, [&] { return Cal_BddNor(m, f, g); }); Cal_Bdd e = h.live[(i + 2) % K].h; run("ITE", {f, g, e}, [&] { return Cal_BddITE(m, f, g, e); }); Cal_Bdd l[] = {f, g, e, nullptr}; run("MultiwayOr", {f, g, e}, [&] { return Cal_BddMultiwayOr(m, l); });
    run("Compose", {f, g}, [&] { return Cal_BddCompose(m, f, h.var(layout ? X(0) : Y(HN - 1)), g); }); run("Intersects", {f, g}, [&] { return Cal_BddIntersects(m, f, g); }); run("Implies", {f, g}, [&] { return Cal_BddImplies(m, f, g); }); run("Satisfy", {f}, [&] { return Cal_BddSatisfy(m, f); }); run("Cofactor", {f, h.var(X(HN / 2))}, [&] { return Cal_BddCofactor(m, f, h.var(X(HN / 2))); });
    run("Substitute", {f}, [&] { return Cal_BddSubstitute(m, f); }); run("VarSubstitute", {f}, [&] { return Cal_BddVarSubstitute(m, f); }); run("SwapVars", {f}, [&] { return Cal_BddSwapVars(m, f, h.var(layout ? X(0) : Y(HN - 1)), h.var(layout ? X(1) : Y(HN - 2))); }); run("Reduce", {f, g}, [&] { return Cal_BddReduce(m, f, g); }); run("Between", {f, g}, [&] { return Cal_BddBetween(m, f, f); });
    run("Size", {f}, [&] { Cal_BddSize(m, f, r & 1); return nullptr; }); run("SizeMultiple", {f, g}, [&] { Cal_Bdd a[] = {f, g, nullptr}; Cal_BddSizeMultiple(m, a, 0); return nullptr; }); run("Support", {f}, [&] { std::vector<Cal_Bdd> s(h.N + 2, nullptr); Cal_BddSupport(m, f, s.data()); for (auto x : s) if (x) Cal_BddFree(m, x); return nullptr; }); run("DependsOn", {f}, [&] { Cal_BddDependsOn(m, f, h.var(1 + i)); return nullptr; }); run("SatisfyingFraction", {f}, [&] { Cal_BddSatisfyingFraction(m, f); return nullptr; });
    run("Profile", {f}, [&] { std::vector<long> p(h.N + 1); Cal_BddProfile(m, f, p.data(), 1); return nullptr; }); run("dump", {f}, [&] { std::vector<Cal_Bdd> v = h.v; v.push_back(nullptr); OutFile o; Cal_BddDumpBdd(m, f, v.data(), o.fp); return nullptr; }); std::vector<Cal_Bdd> all; for (auto &x : h.live) all.push_back(x.h); run("GC", all, [&] { Cal_BddManagerGC(m); return nullptr; });
  }
  if (reg) Cal_AssociationQuit(m, a1); else Cal_TempAssociationQuit(m); Cal_AssociationQuit(m, a2); calVerifLargeBdd = 1ul << 19; h.done();
}
int main(int c, char **v) { return mc::main(c, v); }

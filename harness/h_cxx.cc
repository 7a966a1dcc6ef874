// The C++ interface (C19): wrappers against the C functions, and the reference held by every BDD object.
#include "gops.hh"
#include "capture.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <optional>
#include <sstream>
#include <string>
#include <type_traits>
#include <malloc.h>
#include "calObj.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static const TT FAM[] = {0xe8, 0x3a, 0x69, 0x17, 0xcc, 0x00, 0xff, 0x96, 0x80, 0xc5};
// a C++ manager with 3 variables under a given order; s mirrors it for the oracle
struct CSys {
  std::unique_ptr<Cal> cal; Sys s;
  CSys(const std::vector<int> &perm) { cal.reset(new Cal()); s.m = cal->_bddManager;
    for (int id = 0; id < (int)perm.size(); id++) { int after = -1; for (int x : perm) { if (x == id) break; if (x < id) after = x; } BDD b; 
      if (s.order.empty()) { b = cal->CreateNewVarLast(); s.order.push_back(id); } else if (after < 0) { b = id & 1 ? cal->CreateNewVarFirst() : cal->CreateNewVarBefore(BDD(s.m, s.var[s.order[0]])); s.order.insert(s.order.begin(), id); } else { b = id & 1 && after == s.order.back() ? cal->CreateNewVarLast() : cal->CreateNewVarAfter(BDD(s.m, s.var[after])); s.order.insert(std::find(s.order.begin(), s.order.end(), after) + 1, id); }
      s.track(b._bdd); }
    MC_CHECK(s.order == perm, "order"); s.checkOrder("variables created through Cal"); }
  ~CSys() { s.m = 0; }
  BDD mk(TT t) { return BDD(s.m, s.build(t)); }
  bool is(const BDD &b, TT t) { return !b.IsNull() && s.eval(b._bdd) == (t & full(s.n)); }
};
// references held on a handle (0 if null or at the counter's maximum, where it no longer counts)
static int refsOf(Cal_BddManager m, Cal_Bdd h) { if (!h || Cal_BddIsBddConst(m, h)) return 0; BDD b(m, Cal_BddIdentity(m, h)); int n = b.RefCount() - 1; return n > 250 ? 0 : n; }
#define SAME(w, cxx, c) do { Cal_Bdd _y = (c); int _n = refsOf(m, _y); mc::ops(1); { BDD _x = (cxx); MC_CHECK(_x._bdd == _y, "%s: the C++ result is not the C result", w); MC_CHECK(_x._bddManager == m, "%s: wrong manager", w); \
  if (_n) MC_CHECK(refsOf(m, _y) == _n + 1, "%s: the object returned accounts for %d references", w, refsOf(m, _y) - _n); } if (_n) MC_CHECK(refsOf(m, _y) == _n, "%s: %d references more when the object is gone", w, refsOf(m, _y) - _n); if (_y) Cal_BddFree(m, _y); } while (0)
#define SAMEV(w, cxx, c) do { auto _x = (cxx); auto _y = (c); mc::ops(1); MC_CHECK(_x == (decltype(_x))_y, "%s: the C++ result is not the C result", w); } while (0)
#define text textOf
MC_SCENARIO(wrappers) {
  int ord = mc::choose(6), i = mc::choose(10), reg = mc::choose(2); mc::shardHere(); CSys c(p3()[ord]); auto m = c.s.m; Cal &K = *c.cal; std::vector<BDD> f; for (TT t : FAM) f.push_back(c.mk(t)); BDD v0 = K.Id(1), v1 = K.Id(2), v2 = K.Id(3);
  for (int k = 0; k < 3; k++) { MC_CHECK(K.Id(k + 1)._bdd == Cal_BddManagerGetVarWithId(m, k + 1) && K.Index(k)._bdd == Cal_BddManagerGetVarWithIndex(m, k), "Id/Index"); }
  MC_CHECK(K.One()._bdd == Cal_BddOne(m) && K.Zero()._bdd == Cal_BddZero(m) && K.Null().IsNull() && K.Vars() == 3 && BDD().IsNull(), "constants");
  std::vector<BDD> as = {v0, v1, v2, v0}; int id = 0; if (reg) { id = K.AssociationInit(as.begin(), as.end(), true); MC_CHECK(id >= 0, "association"); K.AssociationSetCurrent(id); MC_CHECK(K.AssociationInit(as.begin(), as.end(), true) == id, "same association"); K.AssociationQuit(id); K.AssociationSetCurrent(id); } else { K.TempAssociationInit(as.begin(), as.end(), true); K.AssociationSetCurrent(-1); }
std::vector<int> held; for (auto &x : f) held.push_back(refsOf(m, x._bdd));
  const BDD &a = f[i]; Cal_Bdd A = a._bdd; TT ta = FAM[i]; bool cst = ta == 0 || ta == 0xff; 
  MC_CHECK(c.is(K.Exists(a), exists(ta, GSET)) && c.is(K.Substitute(a), gsub(ta, 3)), "operations under the association set up through the C++ interface");
  SAMEV("IsOne", a.IsOne(), Cal_BddIsBddOne(m, A)); SAMEV("IsZero", K.IsZero(a), Cal_BddIsBddZero(m, A)); SAMEV("IsOne", K.IsOne(a), Cal_BddIsBddOne(m, A)); SAMEV("IsZero", a.IsZero(), Cal_BddIsBddZero(m, A)); SAMEV("IsConst", a.IsConst(), Cal_BddIsBddConst(m, A)); SAMEV("IsConst", K.IsConst(a), Cal_BddIsBddConst(m, A)); SAMEV("IsCube", a.IsCube(), Cal_BddIsCube(m, A)); SAMEV("IsCube", K.IsCube(a), Cal_BddIsCube(m, A)); SAMEV("IsNull", K.IsNull(a), 0); SAMEV("IsNull", K.IsNull(K.Null()), 1);
  SAMEV("Type", (int)a.Type(), (int)Cal_BddType(m, A)); for (int neg = 0; neg < 2; neg++) { SAMEV("Size", a.Size(neg), Cal_BddSize(m, A, neg)); SAMEV("Size", K.Size(a, neg), Cal_BddSize(m, A, neg)); } SAMEV("SatisfyingFraction", a.SatisfyingFraction(), Cal_BddSatisfyingFraction(m, A)); SAMEV("SatisfyingFraction", K.SatisfyingFraction(a), Cal_BddSatisfyingFraction(m, A));
  if (!cst) { SAMEV("Id", a.Id(), Cal_BddGetIfId(m, A)); SAMEV("Index", a.Index(), Cal_BddGetIfIndex(m, A)); SAMEV("IfId", K.IfId(a), Cal_BddGetIfId(m, A)); SAMEV("IfIndex", K.IfIndex(a), Cal_BddGetIfIndex(m, A)); SAME("If", a.If(), Cal_BddIf(m, A)); SAME("Then", a.Then(), Cal_BddThen(m, A)); SAME("Else", a.Else(), Cal_BddElse(m, A)); SAME("If", K.If(a), Cal_BddIf(m, A)); SAME("Then", K.Then(a), Cal_BddThen(m, A)); SAME("Else", K.Else(a), Cal_BddElse(m, A)); }
  SAME("Identity", a.Identity(), Cal_BddIdentity(m, A)); SAME("Identity", K.Identity(a), Cal_BddIdentity(m, A)); SAME("Not", a.Not(), Cal_BddNot(m, A)); SAME("Not", ~a, Cal_BddNot(m, A)); SAME("Not", K.Not(a), Cal_BddNot(m, A)); { BDD r = a.Regular(), r2 = K.Regular(a); MC_CHECK(r._bdd == Cal_BddGetRegular(m, A) && r2 == r, "Regular"); } SAME("Regular", a.Regular(), Cal_BddIdentity(m, Cal_BddGetRegular(m, A))); SAME("Regular", K.Regular(a), Cal_BddIdentity(m, Cal_BddGetRegular(m, A)));
  SAME("Satisfy", a.Satisfy(), Cal_BddSatisfy(m, A)); SAME("Satisfy", K.Satisfy(a), Cal_BddSatisfy(m, A)); SAME("SatisfySupport", a.SatisfySupport(), Cal_BddSatisfySupport(m, A)); SAME("SatisfySupport", K.SatisfySupport(a), Cal_BddSatisfySupport(m, A)); SAME("Exists", K.Exists(a), Cal_BddExists(m, A)); SAME("ForAll", K.ForAll(a), Cal_BddForAll(m, A)); SAME("Substitute", K.Substitute(a), Cal_BddSubstitute(m, A)); SAME("VarSubstitute", K.VarSubstitute(a), Cal_BddVarSubstitute(m, A));
  for (int v = 0; v < 3; v++) for (int w = 0; w < 3; w++) { BDD x = K.Id(v + 1), y = K.Id(w + 1); SAME("SwapVars", a.SwapVars(x, y), Cal_BddSwapVars(m, A, x._bdd, y._bdd)); SAME("SwapVars", K.SwapVars(a, x, y), Cal_BddSwapVars(m, A, x._bdd, y._bdd)); if (!w) { SAMEV("DependsOn", a.DependsOn(x), Cal_BddDependsOn(m, A, x._bdd)); SAMEV("DependsOn", K.DependsOn(a, x), Cal_BddDependsOn(m, A, x._bdd)); } }
  for (int j = 0; j < 10; j++) { const BDD &b = f[j]; Cal_Bdd B = b._bdd; TT tb = FAM[j];
    SAMEV("IsEqualTo", a.IsEqualTo(b), Cal_BddIsEqual(m, A, B)); SAMEV("==", a == b, Cal_BddIsEqual(m, A, B)); SAMEV("!=", a != b, !Cal_BddIsEqual(m, A, B)); SAMEV("IsEqual", K.IsEqual(a, b), Cal_BddIsEqual(m, A, B));
#define BIN(N, C) SAME(#N, a.N(b), Cal_Bdd##C(m, A, B)); SAME(#N, K.N(a, b), Cal_Bdd##C(m, A, B));
    BIN(And, And) BIN(Nand, Nand) BIN(Or, Or) BIN(Nor, Nor) BIN(Xor, Xor) BIN(Xnor, Xnor) BIN(Intersects, Intersects) BIN(Implies, Implies) SAME("&", a & b, Cal_BddAnd(m, A, B)); SAME("|", a | b, Cal_BddOr(m, A, B)); SAME("^", a ^ b, Cal_BddXor(m, A, B)); if (tb) { BIN(Cofactor, Cofactor) BIN(Reduce, Reduce) } if (!(ta & ~tb)) SAME("Between", K.Between(a, b), Cal_BddBetween(m, A, B)); SAME("RelProd", K.RelProd(a, b), Cal_BddRelProd(m, A, B));
    MC_CHECK(c.is(a - b, ta & ~tb) && c.is(a.Diff(b), ta & ~tb), "difference"); { BDD x = a; BDD &r = (x &= b); MC_CHECK(&r == &x && c.is(x, ta & tb), "&="); x = a; x |= b; MC_CHECK(c.is(x, ta | tb), "|="); x = a; x ^= b; MC_CHECK(c.is(x, ta ^ tb), "^="); x = a; x -= b; MC_CHECK(c.is(x, ta & ~tb), "-="); }
    for (int v = 0; v < 3; v++) { BDD x = K.Id(v + 1); SAME("Compose", a.Compose(x, b), Cal_BddCompose(m, A, x._bdd, B)); SAME("Compose", K.Compose(a, x, b), Cal_BddCompose(m, A, x._bdd, B)); }
    for (int k = 0; k < 10; k++) { const BDD &d = f[k]; Cal_Bdd D = d._bdd; SAME("ITE", a.ITE(b, d), Cal_BddITE(m, A, B, D)); SAME("ITE", K.ITE(a, b, d), Cal_BddITE(m, A, B, D));
      std::vector<BDD> x = {a, b, d}; std::list<BDD> l(x.begin(), x.end()); TT td = FAM[k]; MC_CHECK(c.is(K.And(x), ta & tb & td) && c.is(K.And(l.begin(), l.end()), ta & tb & td), "multiway And"); MC_CHECK(c.is(K.Or(x), ta | tb | td) && c.is(K.Or(l), ta | tb | td), "multiway Or"); MC_CHECK(c.is(K.Xor(x.begin(), x.end()), ta ^ tb ^ td) && c.is(K.Xor(l), ta ^ tb ^ td), "multiway Xor");
      std::vector<BDD> p = {a, b, d, a}; auto chk = [&](const std::vector<BDD> &r, TT u, TT w, const char *what) { MC_CHECK(r.size() == 2 && c.is(r[0], u) && c.is(r[1], w), "%s", what); }; chk(K.PairwiseAnd(p), ta & tb, td & ta, "PairwiseAnd"); chk(K.PairwiseOr(p), ta | tb, td | ta, "PairwiseOr"); chk(K.PairwiseXor(p.begin(), p.end()), ta ^ tb, td ^ ta, "PairwiseXor");
      Cal_Bdd arr[] = {A, B, D, nullptr}; for (int neg = 0; neg < 2; neg++) SAMEV("Size of several", K.Size(x, neg), Cal_BddSizeMultiple(m, arr, neg)); 
      long lv[8]; for (int neg = 0; neg < 2; neg++) { Cal_BddProfileMultiple(m, arr, lv, neg); auto r = K.Profile(x, neg), r2 = K.Profile(l.begin(), l.end(), neg); MC_CHECK(r == std::vector<long>(lv, lv + 4) && r2 == r, "Profile of several: %zu entries", r.size()); } { Cal_BddFunctionProfileMultiple(m, arr, lv); auto r = K.FunctionProfile(x), r2 = K.FunctionProfile(l.begin(), l.end()); MC_CHECK(r == std::vector<long>(lv, lv + 4) && r2 == r, "FunctionProfile of several: %zu entries", r.size()); } }
  }
  long lv[8]; for (int neg = 0; neg < 2; neg++) { Cal_BddProfile(m, A, lv, neg); auto r = a.Profile(neg), r2 = K.Profile(a, neg); MC_CHECK(r == std::vector<long>(lv, lv + 4) && r2 == r, "Profile: %zu entries", r.size()); } { Cal_BddFunctionProfile(m, A, lv); auto r = a.FunctionProfile(), r2 = K.FunctionProfile(a); MC_CHECK(r == std::vector<long>(lv, lv + 4) && r2 == r, "FunctionProfile: %zu entries", r.size()); }
  auto T = [&](const char *w, const std::string &x, const std::string &y) { MC_CHECK(x == y, "%s: C++ prints something else than C", w); };
  T("Print", text([&](FILE *p) { a.Print(p); }), text([&](FILE *p) { Cal_BddPrintBdd(m, A, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, NULL, p); })); T("Print", text([&](FILE *p) { K.Print(a, p); }), text([&](FILE *p) { a.Print(p); })); T("PrintProfile", text([&](FILE *p) { a.PrintProfile(60, p); K.PrintProfile(a, 60, p); }), text([&](FILE *p) { for (int r = 0; r < 2; r++) Cal_BddPrintProfile(m, A, Cal_BddNamingFnNone, NULL, 60, p); }));
  T("PrintFunctionProfile", text([&](FILE *p) { a.PrintFunctionProfile(60, p); K.PrintFunctionProfile(a, 60, p); }), text([&](FILE *p) { for (int r = 0; r < 2; r++) Cal_BddPrintFunctionProfile(m, A, Cal_BddNamingFnNone, NULL, 60, p); })); { std::vector<BDD> x = {a, f[0], f[2]}; Cal_Bdd arr[] = {A, f[0]._bdd, f[2]._bdd, nullptr}; T("PrintProfile of several", text([&](FILE *p) { K.PrintProfile(x, 60, p); K.PrintFunctionProfile(x, 60, p); }), text([&](FILE *p) { Cal_BddPrintProfileMultiple(m, arr, Cal_BddNamingFnNone, NULL, 60, p); Cal_BddPrintFunctionProfileMultiple(m, arr, Cal_BddNamingFnNone, NULL, 60, p); })); }
  { std::vector<int> ids = {1, 3}; K.TempAssociationInit(ids.begin(), ids.end()); int old = K.AssociationSetCurrent(-1); MC_CHECK(old == (reg ? id : -1), "previous association %d", old); MC_CHECK(c.is(K.Exists(a), exists(ta, 5)), "Exists with an association of ids"); std::vector<int> two = {2}; K.TempAssociationAugment(two.begin(), two.end()); MC_CHECK(c.is(K.Exists(a), exists(ta, 7)), "Exists after augmenting"); K.TempAssociationQuit(); std::vector<int> mu = {1, 2, 3}; MC_CHECK(c.is(K.And(mu), 0x80) && c.is(K.Or(mu), 0xfe) && c.is(K.Xor(mu), 0x96), "multiway operations on ids"); }
  MC_CHECK((long)K.Nodes() == (long)Cal_BddManagerGetNumNodes(m) && K.TotalSize() == Cal_BddTotalSize(m) && K.NodeLimit(500) == 0 && Cal_BddNodeLimit(m, 0) == 500 && !K.Overflow(), "manager queries"); MC_CHECK(!strcmp(a.ToString().c_str(), ta == 0 ? "(0)" : ta == 0xff ? "(1)" : a.ToString().c_str()) && K.Null().ToString() == "NULL", "ToString");
  { std::string nm = "name"; T("FunctionPrint", stdoutOf([&] { a.FunctionPrint(nm); K.FunctionPrint(a, nm); }), stdoutOf([&] { for (int r = 0; r < 2; r++) Cal_BddFunctionPrint(m, A, (char *)"name"); })); } T("Stats", text([&](FILE *p) { K.Stats(p); }), text([&](FILE *p) { Cal_BddStats(m, p); })); K.SetParameters(111, 22, 0.5, 0.25); MC_CHECK(m->reorderingThreshold == 111 && m->maxForwardedNodes == 22 && m->repackAfterGCThreshold == 0.5 && m->tableRepackThreshold == 0.25, "SetParameters"); K.SetGCLimit(); { auto l = m->uniqueTableGCLimit; m->uniqueTableGCLimit = 1; Cal_BddManagerSetGCLimit(m); MC_CHECK(m->uniqueTableGCLimit == l && l > 1, "SetGCLimit"); } K.SetGCMode(false); MC_CHECK(!m->gcMode, "SetGCMode"); K.SetGCMode(true); MC_CHECK(m->gcMode == 1, "SetGCMode");
for (int j = 0; j < 10; j++) MC_CHECK(refsOf(m, f[j]._bdd) == held[j], "operand %d is left with %d references instead of %d", j, refsOf(m, f[j]._bdd), held[j]);
  if (reg) K.AssociationQuit(id); as.clear(); f.clear(); K.GC(); MC_CHECK(K.Nodes() == 4, "%lu nodes when all BDD objects are gone", K.Nodes());
}
// no wrapper loses memory: repeated calls leave the heap as it is
MC_SCENARIO(heap) {
  int k = mc::choose(15), i = mc::choose(4); mc::shardHere(); CSys c(p3()[i]); Cal &K = *c.cal; std::vector<BDD> f; for (TT t : FAM) f.push_back(c.mk(t)); std::vector<BDD> p = {f[i], f[i + 1], f[i + 2], f[i + 3]}; std::vector<int> ids = {1, 2, 3};
  auto once = [&] { switch (k) { case 0: K.And(p); break; case 1: K.Or(p); break; case 2: K.Xor(p); break; case 3: K.PairwiseAnd(p); break; case 4: K.PairwiseOr(p); break; case 5: K.PairwiseXor(p); break; case 6: K.Size(p); break; case 7: K.Profile(p); break; case 8: K.FunctionProfile(p); break; case 9: f[0].Profile(); f[0].FunctionProfile(); break; case 10: f[1].ToString(); break; case 11: K.TempAssociationInit(p.begin() + 4, p.end()); K.TempAssociationInit(ids.begin(), ids.end()); K.Exists(f[0]); break;
      case 12: { int a = K.AssociationInit(ids.begin(), ids.end()); K.AssociationQuit(a); break; } case 13: { std::vector<BDD> q = p; q.push_back(f[0]); q.insert(q.begin(), ~f[1]); std::vector<BDD> r = std::move(q); r.erase(r.begin() + 1); break; } case 14: { std::optional<BDD> o = f[0] & f[1]; o = o->Not(); break; } } };
  for (int r = 0; r < 50; r++) once(); auto b = mallinfo2().uordblks; for (int r = 0; r < 200; r++) { mc::ops(1); once(); } auto e = mallinfo2().uordblks;
#ifndef __SANITIZE_ADDRESS__
  MC_CHECK(e < b + 200 * 8, "200 repetitions of call %d leave %ld more bytes allocated", k, (long)(e - b));
#endif
  (void)b; (void)e;
}
// all programs of a few statements over three BDD objects and a container
struct Prog : CSys {
  struct Obj { std::optional<BDD> b; std::optional<TT> t; }; Obj o[3]; std::vector<BDD> vec; std::vector<std::optional<TT>> vt;
  using CSys::CSys;
  void check(const char *w) {
    std::map<uintptr_t, int> refs; auto one = [&](const BDD &b, const std::optional<TT> &t) { MC_CHECK(b.IsNull() == !t, "%s: an object is %snull", w, b.IsNull() ? "" : "not "); if (t) { TT e = s.eval(b._bdd); MC_CHECK(e == *t, "%s: an object denotes %s, expected %s", w, hx(e), hx(*t)); refs[(uintptr_t)b._bdd & ~1ul]++; } };
    for (auto &x : o) if (x.b) one(*x.b, x.t); MC_CHECK(vec.size() == vt.size(), "container"); for (size_t i = 0; i < vec.size(); i++) one(vec[i], vt[i]);
    auto cnt = [&](const BDD &b) { if (b.IsNull() || b.IsConst()) return; for (auto v : s.var) if (((uintptr_t)v ^ (uintptr_t)b._bdd) <= 1) return; MC_CHECK(b.RefCount() == refs[(uintptr_t)b._bdd & ~1ul], "%s: %d references for %d objects", w, b.RefCount(), refs[(uintptr_t)b._bdd & ~1ul]); };
    for (auto &x : o) if (x.b) cnt(*x.b); for (auto &b : vec) cnt(b);
  }
  unsigned long needed() { std::vector<TT> e; for (auto &x : o) if (x.t) e.push_back(*x.t); for (auto &x : vt) if (x) e.push_back(*x); return s.expectedNodes(e); }
  void need(int i) { if (!o[i].b) { o[i].b.emplace(); o[i].t.reset(); } }
  int step(int e) {   // returns the number of choices when e < 0
    static const int PI[][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 2}, {2, 0}, {2, 1}, {1, 1}, {2, 2}, {0, 2}};
    if (e < 0) return 100; if (e < 90) {
      int op = e / 9, i = PI[e % 9][0], j = PI[e % 9][1]; need(j); auto &y = o[j]; bool both = o[i].b && o[i].t && y.t;
      switch (op) {
        case 0: mc::op("b%d = b%d", i, j); need(i); *o[i].b = *y.b; o[i].t = y.t; break;
        case 1: { mc::op("b%d = move(b%d)", i, j); need(i); *o[i].b = std::move(*y.b); auto t = y.t; if (i != j) y.t.reset(); o[i].t = t; break; }
        case 2: { mc::op("BDD x(b%d); b%d destroyed; BDD b%d(x)", j, i, i); BDD x(*y.b); auto t = y.t; o[i].b.reset(); o[i].b.emplace(x); o[i].t = t; break; }
        case 3: { if (i == j) break; mc::op("b%d destroyed; BDD b%d(move(b%d))", i, i, j); o[i].b.reset(); o[i].b.emplace(std::move(*y.b)); o[i].t = y.t; y.t.reset(); break; }
        case 4: if (both) { mc::op("b%d &= b%d", i, j); *o[i].b &= *y.b; o[i].t = *o[i].t & *y.t; } break;
        case 5: if (both) { mc::op("b%d ^= b%d", i, j); *o[i].b ^= *y.b; o[i].t = *o[i].t ^ *y.t; } break;
        case 6: if (both) { mc::op("b%d -= b%d", i, j); *o[i].b -= *y.b; o[i].t = *o[i].t & ~*y.t; } break;
        case 7: if (y.t) { mc::op("b%d = ~b%d", i, j); need(i); *o[i].b = ~*y.b; o[i].t = ~*y.t & full(s.n); } break;
        case 8: if (both) { mc::op("b%d = ITE(b%d, ~b%d, b%d | v1)", i, i, j, j); *o[i].b = o[i].b->ITE(~*y.b, *y.b | cal->Id(2)); o[i].t = ite(*o[i].t, ~*y.t & full(s.n), (*y.t | VARTT[1]) & full(s.n)); } break;
        case 9: if (i != j) { mc::op("swap(b%d, b%d)", i, j); need(i); std::swap(*o[i].b, *y.b); std::swap(o[i].t, y.t); } break;
      } return 0;
    }
    switch (e) {
      case 90: case 91: case 92: mc::op("b%d destroyed", e - 90); o[e - 90].b.reset(); o[e - 90].t.reset(); break;
      case 93: mc::op("b0, b1 pushed"); for (int i : {0, 1}) if (o[i].b) { vec.push_back(*o[i].b); vt.push_back(o[i].t); } break;
      case 94: mc::op("container cleared"); vec.clear(); vt.clear(); break;
      case 95: { if (!o[0].t || !o[1].t) break; mc::op("container = PairwiseXor{b0,b1,b1,b0}"); std::vector<BDD> p = {*o[0].b, *o[1].b, *o[1].b, *o[0].b}; vec = cal->PairwiseXor(p); TT x = (*o[0].t ^ *o[1].t) & full(s.n); vt = {x, x}; break; }
      case 96: { mc::op("copy of the container, reversed, moved"); std::vector<BDD> c2(vec); std::reverse(c2.begin(), c2.end()); std::reverse(vt.begin(), vt.end()); vec = std::move(c2); break; }
      case 97: { mc::op("GC"); cal->GC(); auto n = cal->Nodes(), k = needed(); MC_CHECK(n == k, "%lu nodes after a collection, the BDD objects need %lu", n, k); break; }
      case 98: mc::op("reorder"); cal->DynamicReordering(Cal::Sift, vec.size() & 1 ? Cal::BF : Cal::DF); cal->Reorder(); cal->DynamicReordering(Cal::None); s.orderChanged("reorder"); break;
      case 99: { if (!o[0].t) break; mc::op("b2 = multiway And of {b0,b0,v1}"); need(2); std::list<BDD> l = {*o[0].b, *o[0].b, cal->Id(2)}; *o[2].b = cal->And(l); o[2].t = *o[0].t & VARTT[1] & full(s.n); break; }
    } return 0;
  }
};
MC_SCENARIO(programs) {
  int ord = mc::choose((int)mc::P("orders", 1)) * 3, depth = (int)mc::P("depth", 3); Prog p(p3()[ord]); p.o[0].b = p.mk(0xe8); p.o[0].t = 0xe8; p.o[1].b = p.mk(0x3a); p.o[1].t = 0x3a; p.check("start");
  for (int i = 0; i < depth; i++) { p.step(mc::choose(p.step(-1))); p.check("program"); uint64_t h = p.s.hash(); for (auto &x : p.o) h = mc::mix(h, x.b ? x.t ? *x.t + 2 : 1 : 0); for (auto &x : p.vt) h = mc::mix(h, x ? *x + 2 : 1); mc::state(h); }
  p.step(97); p.check("after the final collection"); for (auto &x : p.o) { x.b.reset(); x.t.reset(); } p.vec.clear(); p.vt.clear(); p.step(97); 
}
// size, profile and their printed forms of larger diagrams (levels wider than a line), for every overload, line length and flag
MC_SCENARIO(profiles) {
  int n = (int)mc::P("vars", 11), shape = mc::choose(5), rest = mc::choose(4), li = mc::choose(8); mc::shardHere(); static const int L[] = {5, 20, 33, 47, 60, 79, 101, 140};
  Cal K; Cal_BddManager m = K._bddManager; std::vector<BDD> v; for (int i = 0; i < n; i++) v.push_back(K.CreateNewVarLast());
  // functions of the number of true variables, weighted: wide levels
  auto wsum = [&](int mod, int step, unsigned acc) { std::vector<BDD> row; for (int r = 0; r < mod; r++) row.push_back(acc >> (r % 5) & 1 ? K.One() : K.Zero()); for (int i = n - 1; i >= 0; i--) { std::vector<BDD> nx; for (int r = 0; r < mod; r++) nx.push_back(K.ITE(v[i], row[(r + 1 + i * step) % mod], row[r])); row = nx; } return row[0]; };
  std::vector<BDD> f; f.push_back(shape == 0 ? wsum(97, 7, 6) : shape == 1 ? wsum(53, 3, 18) : shape == 2 ? wsum(31, 1, 5) : shape == 3 ? v[0] & v[n - 1] : ~wsum(97, 5, 9));
  if (rest & 1) { f.push_back(wsum(41, 2, 12)); f.push_back(~f[0]); } if (rest & 2) f.push_back(f[0] ^ v[2]);
  std::vector<Cal_Bdd> arr; for (auto &x : f) arr.push_back(x._bdd); arr.push_back(nullptr); const BDD &a = f[0]; Cal_Bdd A = a._bdd; int ll = L[li]; std::list<BDD> ls(f.begin(), f.end()); mc::op("%ld nodes, lines of %d", Cal_BddSizeMultiple(m, arr.data(), 1), ll);
  auto one = [&](bool fn, int l) { return text([&](FILE *p) { if (fn) Cal_BddPrintFunctionProfile(m, A, Cal_BddNamingFnNone, NULL, l, p); else Cal_BddPrintProfile(m, A, Cal_BddNamingFnNone, NULL, l, p); }); };
  auto mul = [&](bool fn, int l) { return text([&](FILE *p) { if (fn) Cal_BddPrintFunctionProfileMultiple(m, arr.data(), Cal_BddNamingFnNone, NULL, l, p); else Cal_BddPrintProfileMultiple(m, arr.data(), Cal_BddNamingFnNone, NULL, l, p); }); };
  std::vector<std::pair<const char *, std::pair<std::string, std::string>>> t;
  t.push_back({"BDD::PrintProfile", {text([&](FILE *p) { a.PrintProfile(ll, p); }), one(false, ll)}}); t.push_back({"BDD::PrintFunctionProfile", {text([&](FILE *p) { a.PrintFunctionProfile(ll, p); }), one(true, ll)}});
  t.push_back({"Cal::PrintProfile", {text([&](FILE *p) { K.PrintProfile(a, ll, p); }), one(false, ll)}}); t.push_back({"Cal::PrintFunctionProfile", {text([&](FILE *p) { K.PrintFunctionProfile(a, ll, p); }), one(true, ll)}});
  t.push_back({"Cal::PrintProfile of a vector", {text([&](FILE *p) { K.PrintProfile(f, ll, p); }), mul(false, ll)}}); t.push_back({"Cal::PrintFunctionProfile of a vector", {text([&](FILE *p) { K.PrintFunctionProfile(f, ll, p); }), mul(true, ll)}});
  t.push_back({"Cal::PrintProfile of a list", {text([&](FILE *p) { K.PrintProfile(ls, ll, p); }), mul(false, ll)}}); t.push_back({"Cal::PrintFunctionProfile of a list", {text([&](FILE *p) { K.PrintFunctionProfile(ls, ll, p); }), mul(true, ll)}});
  t.push_back({"Cal::PrintProfile of a range", {text([&](FILE *p) { K.PrintProfile(f.begin(), f.end(), ll, p); }), mul(false, ll)}}); t.push_back({"Cal::PrintFunctionProfile of a range", {text([&](FILE *p) { K.PrintFunctionProfile(ls.begin(), ls.end(), ll, p); }), mul(true, ll)}});
  t.push_back({"BDD::PrintProfile()", {stdoutOf([&] { a.PrintProfile(); a.PrintFunctionProfile(); }), one(false, 79) + one(true, 79)}});
  t.push_back({"Cal::PrintProfile(f)", {stdoutOf([&] { K.PrintProfile(a); K.PrintFunctionProfile(a); K.PrintProfile(f); K.PrintFunctionProfile(f); K.PrintProfile(f.begin(), f.end()); K.PrintFunctionProfile(f.begin(), f.end()); }), one(false, 79) + one(true, 79) + mul(false, 79) + mul(true, 79) + mul(false, 79) + mul(true, 79)}});
  t.push_back({"Print", {text([&](FILE *p) { a.Print(p); K.Print(a, p); }) + stdoutOf([&] { a.Print(); K.Print(a); }), [&] { auto x = text([&](FILE *p) { Cal_BddPrintBdd(m, A, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, NULL, p); }); return x + x + x + x; }()}});
  for (auto &x : t) { mc::ops(1); MC_CHECK(!x.second.second.empty() && x.second.first == x.second.second, "%s: the text differs from that of the C function", x.first); }
  auto vec = [&](long *q, int k) { return std::vector<long>(q, q + k); }; std::vector<long> q(n + 2);
  for (int neg = 0; neg < 2; neg++) {
    mc::ops(5); MC_CHECK((long)a.Size(neg) == Cal_BddSize(m, A, neg) && (long)K.Size(a, neg) == Cal_BddSize(m, A, neg), "Size(%d)", neg);
    long s = Cal_BddSizeMultiple(m, arr.data(), neg); MC_CHECK((long)K.Size(f, neg) == s && (long)K.Size(ls, neg) == s && (long)K.Size(f.begin(), f.end(), neg) == s, "Size of several (%d)", neg);
    Cal_BddProfile(m, A, q.data(), neg); MC_CHECK(a.Profile(neg) == vec(q.data(), n + 1) && K.Profile(a, neg) == vec(q.data(), n + 1), "Profile(%d)", neg);
    Cal_BddProfileMultiple(m, arr.data(), q.data(), neg); MC_CHECK(K.Profile(f, neg) == vec(q.data(), n + 1) && K.Profile(ls, neg) == vec(q.data(), n + 1) && K.Profile(f.begin(), f.end(), neg) == vec(q.data(), n + 1), "Profile of several (%d)", neg);
  }
  Cal_BddFunctionProfile(m, A, q.data()); MC_CHECK(a.FunctionProfile() == vec(q.data(), n + 1) && K.FunctionProfile(a) == vec(q.data(), n + 1), "FunctionProfile");
  Cal_BddFunctionProfileMultiple(m, arr.data(), q.data()); MC_CHECK(K.FunctionProfile(f) == vec(q.data(), n + 1) && K.FunctionProfile(ls.begin(), ls.end()) == vec(q.data(), n + 1), "FunctionProfile of several");
  MC_CHECK(a.Size() == a.Size(true) && K.Size(a) == a.Size(true) && K.Size(f) == K.Size(f, true) && a.Profile() == a.Profile(true) && K.Profile(a) == a.Profile(true) && K.Profile(f) == K.Profile(f, true), "default arguments");
  MC_CHECK(BDD().RefCount() == 255 && K.Null().RefCount() == 255 && K.One().RefCount() == 255 && K.Zero().RefCount() == 255, "counts of null and constants");
  mc::state(mc::mix(shape * 4 + rest, li));
}
// many objects for one function, around the counter's maximum
MC_SCENARIO(many_objects) {
  static const int C[] = {1, 2, 100, 253, 254, 255, 256, 257, 300, 600}; int n = C[mc::choose(10)], how = mc::choose(4), order = mc::choose(3); mc::shardHere(); CSys c(p3()[0]); { BDD f = c.mk(0xe8); std::vector<BDD> v; if (how == 3) v.reserve(n); for (int i = 0; i < n; i++) { mc::ops(1); if (how == 0) v.push_back(f); else if (how == 1) v.push_back(i ? v.back() : f); else if (how == 2) { BDD x; x = f; v.insert(v.begin() + i / 2, std::move(x)); } else v.emplace_back(f & f); }
    if (order == 0) v.clear(); else if (order == 1) { while (!v.empty()) v.erase(v.begin() + v.size() / 2); } else { std::vector<BDD> w(v); v = w; w.clear(); c.cal->GC(); for (auto &x : v) MC_CHECK(c.is(x, 0xe8), "copy"); v.resize(1); v.clear(); } c.cal->GC(); MC_CHECK(c.is(f, 0xe8) && f.Size() == Cal_BddSize(c.s.m, f._bdd, 1), "the remaining object lost its function"); BDD g = c.mk(0xe8); MC_CHECK(g == f, "canonical"); for (TT t = 0; t < 256; t++) { BDD z = c.mk(t); } MC_CHECK(c.is(f, 0xe8), "the remaining object lost its function"); }
  c.cal->GC(); MC_CHECK(n > 120 || c.cal->Nodes() == 4, "%lu nodes when all objects are gone", c.cal->Nodes());
}
// two managers, objects moved between variables of either; managers moved
MC_SCENARIO(managers) {
  int k = mc::choose(6), ord = mc::choose(6); mc::shardHere(); auto c = std::make_unique<CSys>(p3()[ord]); auto d = std::make_unique<CSys>(p3()[5 - ord]); { BDD a = c->mk(0xe8), b = d->mk(0x3a), x; 
    if (k == 0) { x = a; x = b; a = b; MC_CHECK(d->is(x, 0x3a) && d->is(a, 0x3a), "assignment across managers"); } if (k == 1) { x = std::move(a); a = b; b = x; MC_CHECK(c->is(b, 0xe8) && d->is(a, 0x3a), "move across managers"); } if (k == 2) { std::swap(a, b); MC_CHECK(c->is(b, 0xe8) && d->is(a, 0x3a), "swap across managers"); } if (k == 3) { std::vector<BDD> v = {a, b, a, b}; v.erase(v.begin()); v[0] = v[1]; MC_CHECK(c->is(v[0], 0xe8) && d->is(v[2], 0x3a), "container"); }
    if (k == 4) { Cal e(std::move(*c->cal)); MC_CHECK(c->cal->_bddManager == nullptr, "moved-from manager"); MC_CHECK(c->is(a & e.Id(1), 0xe8 & 0xaa), "moved manager"); a = BDD(); x = BDD(); e.GC(); MC_CHECK(e.Nodes() == 4, "nodes"); c->s.m = 0; } if (k == 5) { Cal e(7); MC_CHECK(e.Vars() == 7 && e.Nodes() == 8, "Cal(7)"); for (int i = 0; i < 7; i++) MC_CHECK(e.Id(i + 1) == e.Index(i), "variables of Cal(7)"); }
    if (k < 4) { c->cal->GC(); d->cal->GC(); } }
  if (k < 4) { c->cal->GC(); d->cal->GC(); MC_CHECK(c->cal->Nodes() == 4 && d->cal->Nodes() == 4, "nodes when all objects are gone"); }
}
int main(int c, char **v) { return mc::main(c, v); }

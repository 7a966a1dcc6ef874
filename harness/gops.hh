// Table of all operations that return BDDs, each with its contract as a predicate over truth tables (3 or more variables).
#pragma once
#include "fixtures.hh"
// The association the operations run under: v0 -> v1, v2 -> v0 (usable by quantification, Substitute and VarSubstitute alike).
static const unsigned GSET = 5;
inline TT gsub(TT f, int n) { TT s[6] = {VARTT[1], VARTT[1], VARTT[0], VARTT[3], VARTT[4], VARTT[5]}; return substTT(f, s, n); }
inline TT swapTT(TT f, int v, int w, int n) { TT s[6]; for (int i = 0; i < 6; i++) s[i] = VARTT[i]; std::swap(s[v], s[w]); return substTT(f, s, n); }
inline int mapIntoC(TT c, int a, const std::vector<int> &order) { for (int v : order) { int b = a >> v & 1; TT k = cof(c, v, b); if (k == 0) { a ^= 1 << v; k = cof(c, v, !b); } c = k; } return a; }
inline TT constrainTT(TT f, TT c, const std::vector<int> &order, int n) { TT r = 0; for (int a = 0; a < (1 << n); a++) r |= (f >> mapIntoC(c, a, order) & 1) << a; return r; }
inline bool isCubeTT(TT t, int n, unsigned *mention) {
  t &= full(n); *mention = supportOf(t, n); if (!t) return false;
  TT c = full(n); int a = __builtin_ctzll(t);
  for (int v = 0; v < n; v++) if (*mention >> v & 1) c &= (a >> v & 1) ? VARTT[v] : ~VARTT[v];
  return (c & full(n)) == t;
}
using Hs = std::vector<Cal_Bdd>; using Ts = std::vector<TT>;
struct GOp {
  const char *name; int nb; bool assoc;
  std::function<Hs(Sys &, Cal_Bdd *)> run;                       // results carry one reference each; {null} for a null array
  std::function<bool(const Sys &, const TT *, const Ts &)> ok;
  std::function<bool(const Sys &, const TT *)> pre;
};
inline Hs arr(Cal_Bdd *r) { Hs h; if (!r) return {nullptr}; for (int i = 0; i < 5 && r[i]; i++) h.push_back(r[i]); Cal_MemFree(r); if (h.empty()) return {nullptr}; return h; }
#define GRUN(e) [](Sys &s, Cal_Bdd *a) -> Hs { return {e}; }
#define GEXACT(e) [](const Sys &s, const TT *a, const Ts &r) -> bool { return r.size() == 1 && r[0] == ((e) & full(s.n)); }
#define GREL(e) [](const Sys &s, const TT *a, const Ts &rr) -> bool { if (rr.size() != 1) return false; TT r = rr[0], F = full(s.n); unsigned men = 0; (void)F; (void)men; return e; }
#define GANY [](const Sys &, const TT *) { return true; }
inline int topVar(const Sys &s, TT t) { for (int v : s.order) if (depends(t & full(s.n), v)) return v; return -1; }
inline std::vector<GOp> &gops() {
  static auto nonconst = [](const Sys &s, const TT *a) { return a[0] != 0 && a[0] != full(s.n); };
  static std::vector<GOp> G = {
    {"And", 2, false, GRUN(Cal_BddAnd(s.m, a[0], a[1])), GEXACT(a[0] & a[1]), GANY},
    {"Nand", 2, false, GRUN(Cal_BddNand(s.m, a[0], a[1])), GEXACT(~(a[0] & a[1])), GANY},
    {"Or", 2, false, GRUN(Cal_BddOr(s.m, a[0], a[1])), GEXACT(a[0] | a[1]), GANY},
    {"Nor", 2, false, GRUN(Cal_BddNor(s.m, a[0], a[1])), GEXACT(~(a[0] | a[1])), GANY},
    {"Xor", 2, false, GRUN(Cal_BddXor(s.m, a[0], a[1])), GEXACT(a[0] ^ a[1]), GANY},
    {"Xnor", 2, false, GRUN(Cal_BddXnor(s.m, a[0], a[1])), GEXACT(~(a[0] ^ a[1])), GANY},
    {"Not", 1, false, GRUN(Cal_BddNot(s.m, a[0])), GEXACT(~a[0]), GANY},
    {"Identity", 1, false, GRUN(Cal_BddIdentity(s.m, a[0])), GEXACT(a[0]), GANY},
    {"ITE", 3, false, GRUN(Cal_BddITE(s.m, a[0], a[1], a[2])), GEXACT(ite(a[0], a[1], a[2])), GANY},
    {"MultiwayAnd", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[2], nullptr}; return {Cal_BddMultiwayAnd(s.m, x)}; }, GEXACT(a[0] & a[1] & a[2]), GANY},
    {"MultiwayOr", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[2], nullptr}; return {Cal_BddMultiwayOr(s.m, x)}; }, GEXACT(a[0] | a[1] | a[2]), GANY},
    {"MultiwayXor", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[2], nullptr}; return {Cal_BddMultiwayXor(s.m, x)}; }, GEXACT(a[0] ^ a[1] ^ a[2]), GANY},
    {"PairwiseAnd", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[1], a[2], nullptr}; return arr(Cal_BddPairwiseAnd(s.m, x)); }, [](const Sys &s, const TT *a, const Ts &r) { return r.size() == 2 && r[0] == (a[0] & a[1]) && r[1] == (a[1] & a[2]); }, GANY},
    {"PairwiseOr", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[1], a[2], nullptr}; return arr(Cal_BddPairwiseOr(s.m, x)); }, [](const Sys &s, const TT *a, const Ts &r) { return r.size() == 2 && r[0] == (a[0] | a[1]) && r[1] == (a[1] | a[2]); }, GANY},
    {"PairwiseXor", 3, false, [](Sys &s, Cal_Bdd *a) -> Hs { Cal_Bdd x[] = {a[0], a[1], a[1], a[2], nullptr}; return arr(Cal_BddPairwiseXor(s.m, x)); }, [](const Sys &s, const TT *a, const Ts &r) { return r.size() == 2 && r[0] == (a[0] ^ a[1]) && r[1] == (a[1] ^ a[2]); }, GANY},
    {"Exists", 1, true, GRUN(Cal_BddExists(s.m, a[0])), GEXACT(exists(a[0], GSET)), GANY},
    {"ForAll", 1, true, GRUN(Cal_BddForAll(s.m, a[0])), GEXACT(forall(a[0], GSET)), GANY},
    {"RelProd", 2, true, GRUN(Cal_BddRelProd(s.m, a[0], a[1])), GEXACT(exists(a[0] & a[1], GSET)), GANY},
    {"Substitute", 1, true, GRUN(Cal_BddSubstitute(s.m, a[0])), GEXACT(gsub(a[0], s.n)), GANY},
    {"VarSubstitute", 1, true, GRUN(Cal_BddVarSubstitute(s.m, a[0])), GEXACT(gsub(a[0], s.n)), GANY},
    {"Compose v1", 2, false, GRUN(Cal_BddCompose(s.m, a[0], s.var[1], a[1])), GEXACT(composeTT(a[0], 1, a[1])), GANY},
    {"Compose v0", 2, false, GRUN(Cal_BddCompose(s.m, a[0], s.var[0], a[1])), GEXACT(composeTT(a[0], 0, a[1])), GANY},
    {"SwapVars v0,v2", 1, false, GRUN(Cal_BddSwapVars(s.m, a[0], s.var[0], s.var[2])), GEXACT(swapTT(a[0], 0, 2, s.n)), GANY},
    {"SwapVars v2,v1", 1, false, GRUN(Cal_BddSwapVars(s.m, a[0], s.var[2], s.var[1])), GEXACT(swapTT(a[0], 1, 2, s.n)), GANY},
    {"Cofactor", 2, false, GRUN(Cal_BddCofactor(s.m, a[0], a[1])), GEXACT(constrainTT(a[0], a[1], s.order, s.n)), [](const Sys &, const TT *a) { return a[1] != 0; }},
    {"Reduce", 2, false, GRUN(Cal_BddReduce(s.m, a[0], a[1])), GREL(((r ^ a[0]) & a[1]) == 0), [](const Sys &, const TT *a) { return a[1] != 0; }},
    {"Between", 2, false, GRUN(Cal_BddBetween(s.m, a[0], a[1])), GREL(!(a[0] & ~r) && !(r & ~a[1])), [](const Sys &, const TT *a) { return !(a[0] & ~a[1]); }},
    {"Intersects", 2, false, GRUN(Cal_BddIntersects(s.m, a[0], a[1])), GREL(!(r & ~(a[0] & a[1])) && (r || !(a[0] & a[1]))), GANY},
    {"Implies", 2, false, GRUN(Cal_BddImplies(s.m, a[0], a[1])), GREL(!(r & ~(a[0] & ~a[1])) && (r || !(a[0] & ~a[1]))), GANY},
    {"Satisfy", 1, false, GRUN(Cal_BddSatisfy(s.m, a[0])), GREL(a[0] ? !(r & ~a[0]) && isCubeTT(r, s.n, &men) : !r), GANY},
    {"SatisfySupport", 1, true, GRUN(Cal_BddSatisfySupport(s.m, a[0])), GREL(a[0] ? !(r & ~a[0]) && isCubeTT(r, s.n, &men) && (men & GSET) == GSET : !r), GANY},
    {"If", 1, false, GRUN(Cal_BddIf(s.m, a[0])), GEXACT(VARTT[topVar(s, a[0])]), nonconst},
    {"Then", 1, false, GRUN(Cal_BddThen(s.m, a[0])), GEXACT(cof(a[0], topVar(s, a[0]), 1)), nonconst},
    {"Else", 1, false, GRUN(Cal_BddElse(s.m, a[0])), GEXACT(cof(a[0], topVar(s, a[0]), 0)), nonconst},
    {"Support", 1, false, [](Sys &s, Cal_Bdd *a) -> Hs { std::vector<Cal_Bdd> x(s.nvars() + 2, nullptr); Cal_BddSupport(s.m, a[0], x.data()); Hs h; for (auto b : x) { if (!b) break; h.push_back(b); } return h; },
      [](const Sys &s, const TT *a, const Ts &r) { unsigned men = 0; for (TT t : r) { bool f = false; for (int v = 0; v < s.n; v++) if (t == (VARTT[v] & full(s.n))) { if (men >> v & 1) return false; men |= 1u << v; f = true; } if (!f) return false; } return men == supportOf(a[0], s.n); }, GANY},
  };
  return G;
}
// a manager with n variables under an order, association GSET current (registered or temporary), and a family of live functions
struct GSys : Sys {
  int assoc = -1;
  void setup(const std::vector<int> &perm, bool registered, const std::vector<TT> &fam) {
    initOrder(perm); bindAssoc(registered); for (TT t : fam) add(build(t), t);
  }
  void bindAssoc(bool registered) {
    Cal_Bdd a[] = {var[0], var[1], var[2], var[0], nullptr};
    mc::op("%s association v0->v1, v2->v0", registered ? "registered" : "temporary");
    if (registered) { assoc = Cal_AssociationInit(m, a, 1); Cal_AssociationSetCurrent(m, assoc); } else { Cal_TempAssociationInit(m, a, 1); Cal_AssociationSetCurrent(m, -1); }
  }
  // run one operation on slots; the result handles are added to the slots and verified
  Ts apply(const GOp &g, const int *idx, bool keep = true) {
    Cal_Bdd a[3]; TT t[3];
    for (int i = 0; i < g.nb; i++) { a[i] = slot[idx[i]].h; t[i] = slot[idx[i]].t; }
    mc::op("%s(%s%s%s%s%s)", g.name, hx(t[0]), g.nb > 1 ? "," : "", g.nb > 1 ? hx(t[1]) : "", g.nb > 2 ? "," : "", g.nb > 2 ? hx(t[2]) : "");
    auto before = order;
    Hs h = g.run(*this, a); m->gcCheck = 1000000; m->uniqueTableGCLimit = 1000000;      // the oracle's own queries must not trigger anything
    orderChanged(g.name);
    return judge(g, t, h, keep, before);
  }
  // before: the order when the operation was called (maintenance at its end may have changed it since)
  Ts judge(const GOp &g, const TT *t, const Hs &h, bool keep, const std::vector<int> &before) {
    Ts r; for (auto x : h) { MC_CHECK(x, "%s returned null", g.name); r.push_back(eval(x)); }
    bool ok = g.ok(*this, t, r); if (!ok && before != order) { auto now = order; order = before; ok = g.ok(*this, t, r); order = now; }
    MC_CHECK(ok, "%s(%s,%s,%s) = %s%s is wrong", g.name, hx(t[0]), g.nb > 1 ? hx(t[1]) : "-", g.nb > 2 ? hx(t[2]) : "-", r.empty() ? "{}" : hx(r[0]), r.size() > 1 ? ",..." : "");
    for (size_t i = 0; i < h.size(); i++) if (keep) add(h[i], r[i]); else Cal_BddFree(m, h[i]);
    return r;
  }
};
// automatic maintenance, made to fire at a chosen point of the next operation
struct Maint { const char *name; double repack; int technique, method; };
inline const std::vector<Maint> &maints() {
  static std::vector<Maint> M = { {"collection", 0.0, CAL_REORDER_NONE, 0}, {"collection and repacking", 2.0, CAL_REORDER_NONE, 0},
    {"BF sift", 0.0, CAL_REORDER_SIFT, CAL_REORDER_METHOD_BF}, {"BF window", 0.0, CAL_REORDER_WINDOW, CAL_REORDER_METHOD_BF},
    {"DF sift", 0.0, CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF}, {"DF window", 0.0, CAL_REORDER_WINDOW, CAL_REORDER_METHOD_DF} };
  return M;
}
inline void armMaint(Sys &s, const Maint &k, int after) {   // fires at the first boundary after `after` new nodes
  Cal_BddManagerSetParameters(s.m, 0, -1, k.repack, 0.9);
  Cal_BddDynamicReordering(s.m, k.technique, k.method);
  s.m->gcCheck = after; s.m->uniqueTableGCLimit = 0;
  mc::op("[%s due %s]", k.name, after ? "once new nodes exist" : "at the next operation");
}
inline void disarm(Sys &s) { s.m->gcCheck = 1000000; s.m->uniqueTableGCLimit = 1000000; }

// Null arguments (C22).
#include "gops.hh"
#include "capture.hh"
#include "calObj.hh"
static std::vector<std::vector<int>> &p3() { static auto p = perms(3); return p; }
static long refsOf(Cal_Bdd h) { CalBddNode_t *n = (CalBddNode_t *)((uintptr_t)h & ~(uintptr_t)15); long c; CalBddNodeGetRefCount(n, c); return c; }
// everything a call with a null argument must leave alone
struct Snap { unsigned long nodes; std::vector<long> refs; std::vector<TT> val; int vars, assoc; std::vector<int> idx;
  Snap(Sys &s) : nodes(Cal_BddManagerGetNumNodes(s.m)), vars(Cal_BddVars(s.m)), assoc(s.m->currentAssociation->id) { for (auto &x : s.slot) if (x.h) { refs.push_back(refsOf(x.h)); val.push_back(s.eval(x.h)); } for (auto v : s.var) { refs.push_back(refsOf(v)); idx.push_back((int)Cal_BddGetIfIndex(s.m, v)); } }
  void same(const Snap &o, const char *w) const { MC_CHECK(nodes == o.nodes, "%s with a null argument changed the number of nodes from %lu to %lu", w, o.nodes, nodes); MC_CHECK(refs == o.refs, "%s with a null argument changed a reference count", w); MC_CHECK(val == o.val, "%s with a null argument changed a live BDD", w); MC_CHECK(vars == o.vars && idx == o.idx, "%s with a null argument changed the variables", w); MC_CHECK(assoc == o.assoc, "%s with a null argument changed the current association", w); } };
static const TT FAM[] = {0xe8, 0x3a, 0x96, 0x80, 0x00, 0xff};
// every operation x every non-empty set of null positions
MC_SCENARIO(operations) {
  auto &G = gops(); int gi = mc::choose((int)G.size()), mask = 1 + mc::choose((1 << G[gi].nb) - 1), ord = mc::choose(6), reg = mc::choose(2); mc::shardHere(); auto &g = G[gi]; GSys s; s.setup(p3()[ord], reg, std::vector<TT>(FAM, FAM + 6)); Snap b(s);
  bool first = (!strncmp(g.name, "Multiway", 8) || !strncmp(g.name, "Pairwise", 8));
  for (int i = 0; i < 6; i++) for (int j = 0; j < (g.nb > 1 ? 6 : 1); j++) {
    Cal_Bdd a[3]; for (int k = 0; k < g.nb; k++) a[k] = mask >> k & 1 ? nullptr : s.slot[k == 0 ? i : k == 1 ? j : (i * 2 + j) % 6].h;
    if (first) continue;     // null ends an array
    mc::op("%s with null positions %d, others %s %s", g.name, mask, hx(FAM[i]), hx(FAM[j])); Hs h = g.run(s, a);
    if (!strcmp(g.name, "Support")) MC_CHECK(h.empty(), "the support of null has %zu variables", h.size()); else for (auto x : h) MC_CHECK(!x, "%s with a null argument (positions %d) returned a BDD", g.name, mask);
    Snap(s).same(b, g.name);
  }
  // and later operations are as if nothing had happened
  for (auto &q : G) { int idx[3] = {0, 1, 2}; TT t[3] = {FAM[0], FAM[1], FAM[2]}; if (q.pre(s, t)) s.apply(q, idx, false); }
  unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%lu nodes after a collection, expected %lu", n, e); for (auto &x : s.slot) MC_CHECK(s.eval(x.h) == x.t, "live BDD"); s.quit();
}
// operations with a variable among the arguments
MC_SCENARIO(variables) {
  int w = mc::choose(2), mask = 1 + mc::choose(7), ord = mc::choose(6), v1 = mc::choose(3), v2 = mc::choose(3); mc::shardHere(); GSys s; s.setup(p3()[ord], ord & 1, std::vector<TT>(FAM, FAM + 6)); Snap b(s); const char *nm = w ? "SwapVars" : "Compose";
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { Cal_Bdd f = mask & 1 ? nullptr : s.slot[i].h, x = mask & 2 ? nullptr : s.var[v1], y = mask & 4 ? nullptr : w ? s.var[v2] : s.slot[j].h; mc::ops(1); Cal_Bdd r = w ? Cal_BddSwapVars(s.m, f, x, y) : Cal_BddCompose(s.m, f, x, y); MC_CHECK(!r, "%s with a null argument (positions %d) returned a BDD", nm, mask); Snap(s).same(b, nm); if (w) break; }
  for (auto &q : gops()) { int idx[3] = {0, 1, 2}; TT t[3] = {FAM[0], FAM[1], FAM[2]}; if (q.pre(s, t)) s.apply(q, idx, false); } unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%lu nodes after a collection, expected %lu", n, e); s.quit();
}
// the calls that do not return a BDD
MC_SCENARIO(queries) {
  int k = mc::choose(26), ord = mc::choose(6), reg = mc::choose(2), rep = 1 + mc::choose(2); mc::shardHere(); GSys s; s.setup(p3()[ord], reg, std::vector<TT>(FAM, FAM + 6)); auto m = s.m; Cal_Bdd N = nullptr, f = s.slot[0].h, v = s.var[1]; Snap b(s); static const char *W[] = {"IsBddNull", "IsBddOne", "IsBddZero", "IsBddConst", "IsCube", "IsEqual", "DependsOn", "Size", "SatisfyingFraction", "Type", "GetIfIndex", "GetIfId", "Support", "Profile", "FunctionProfile", "Free", "UnFree", "CreateNewVarBefore", "CreateNewVarAfter", "Dump", "PrintBdd", "PrintProfile", "PrintFunctionProfile", "FunctionPrint", "NewVarBlock", "IsProvisional"};
  for (int r = 0; r < rep; r++) { mc::op("%s(null)", W[k]); std::vector<long> lv(6, 0); std::vector<Cal_Bdd> sup(6, v); std::string t;
    switch (k) {
      case 0: MC_CHECK(Cal_BddIsBddNull(m, N) && !Cal_BddIsBddNull(m, f), "IsBddNull"); break; case 1: MC_CHECK(!Cal_BddIsBddOne(m, N), "IsBddOne(null)"); break; case 2: MC_CHECK(!Cal_BddIsBddZero(m, N), "IsBddZero(null)"); break; case 3: MC_CHECK(!Cal_BddIsBddConst(m, N), "IsBddConst(null)"); break; case 4: MC_CHECK(!Cal_BddIsCube(m, N), "IsCube(null)"); break;
      case 5: for (auto &x : s.slot) MC_CHECK(!Cal_BddIsEqual(m, N, x.h) && !Cal_BddIsEqual(m, x.h, N), "null equals a BDD"); break; case 6: for (int i = 0; i < 3; i++) MC_CHECK(!Cal_BddDependsOn(m, N, s.var[i]), "null depends on a variable"); for (auto &x : s.slot) MC_CHECK(!Cal_BddDependsOn(m, x.h, N), "a BDD depends on null"); MC_CHECK(!Cal_BddDependsOn(m, N, N), "null depends on null"); break;
      case 7: for (int n = 0; n < 2; n++) MC_CHECK(Cal_BddSize(m, N, n) == 0, "Size(null)"); break; case 8: MC_CHECK(Cal_BddSatisfyingFraction(m, N) == 0, "SatisfyingFraction(null)"); break; case 9: MC_CHECK(Cal_BddType(m, N) == CAL_BDD_TYPE_OVERFLOW, "Type(null) = %d", Cal_BddType(m, N)); break;
      case 10: { long i = (long)Cal_BddGetIfIndex(m, N); MC_CHECK(i < 0 || i >= s.nvars(), "index of null: %ld", i); break; } case 11: { long i = (long)Cal_BddGetIfId(m, N); MC_CHECK(i < 1 || i > s.nvars(), "id of null: %ld", i); break; }
      case 12: Cal_BddSupport(m, N, sup.data()); MC_CHECK(!sup[0], "the support of null is not empty"); break; case 13: for (int n = 0; n < 2; n++) { Cal_BddProfile(m, N, lv.data(), n); MC_CHECK(lv == std::vector<long>(6, 0), "Profile(null)"); } break; case 14: Cal_BddFunctionProfile(m, N, lv.data()); MC_CHECK(lv == std::vector<long>(6, 0), "FunctionProfile(null)"); break;
      case 15: Cal_BddFree(m, N); break; case 16: Cal_BddUnFree(m, N); break; case 17: MC_CHECK(!Cal_BddManagerCreateNewVarBefore(m, N), "a variable before null"); break; case 18: MC_CHECK(!Cal_BddManagerCreateNewVarAfter(m, N), "a variable after null"); break;
      case 19: { int ret = 1; t = textOf([&](FILE *fp) { Cal_Bdd vs[] = {s.var[0], s.var[1], s.var[2], nullptr}; ret = Cal_BddDumpBdd(m, N, vs, fp); }); MC_CHECK(!ret && t.empty(), "Dump(null) = %d, %zu bytes", ret, t.size()); break; }
      case 20: t = textOf([&](FILE *fp) { Cal_BddPrintBdd(m, N, Cal_BddNamingFnNone, Cal_BddTerminalIdFnNone, 0, fp); }); MC_CHECK(t.empty(), "PrintBdd(null): %s", t.c_str()); break; case 21: t = textOf([&](FILE *fp) { Cal_BddPrintProfile(m, N, Cal_BddNamingFnNone, 0, 60, fp); }); MC_CHECK(t.empty(), "PrintProfile(null): %s", t.c_str()); break; case 22: t = textOf([&](FILE *fp) { Cal_BddPrintFunctionProfile(m, N, Cal_BddNamingFnNone, 0, 60, fp); }); MC_CHECK(t.empty(), "PrintFunctionProfile(null): %s", t.c_str()); break;
      case 23: t = stdoutOf([&] { Cal_BddFunctionPrint(m, N, (char *)"f"); }); break; case 24: MC_CHECK(!Cal_BddNewVarBlock(m, N, 2), "a block of null"); break; case 25: MC_CHECK(!Cal_BddIsProvisional(m, N), "null is provisional"); break; }
    Snap(s).same(b, W[k]); }
  for (auto &q : gops()) { int idx[3] = {0, 1, 2}; TT t[3] = {FAM[0], FAM[1], FAM[2]}; if (q.pre(s, t)) s.apply(q, idx, false); } unsigned long n = s.gc(), e = s.expectedNodes(); MC_CHECK(n == e, "%lu nodes after a collection, expected %lu", n, e); s.quit();
}
// histories in which null flows from operation to operation, with collections and reorderings in between
MC_SCENARIO(null_histories) {
  auto &G = gops(); int depth = (int)mc::P("depth", 3), ord = mc::choose(2) * 3; GSys s; s.setup(p3()[ord], ord, {0xe8, 0x3a}); s.slot.push_back({nullptr, 0}); static std::vector<int> sel; static std::set<std::string> FEW = {"And", "Xor", "Not", "Identity", "ITE", "Compose v1", "Exists", "RelProd", "Substitute", "VarSubstitute", "Cofactor", "Satisfy", "Compose", "SwapVars", "Else", "Between"}; bool few = mc::P("few", 0); if (sel.empty()) for (size_t i = 0; i < G.size(); i++) if ((!few || FEW.count(G[i].name)) && strncmp(G[i].name, "Multiway", 8) && strncmp(G[i].name, "Pairwise", 8) && strcmp(G[i].name, "Support")) sel.push_back((int)i);
  for (int i = 0; i < depth; i++) {
    int e = mc::choose((int)sel.size() + 3); if (e >= (int)sel.size()) { e -= (int)sel.size(); if (e == 0) s.gc(); else { mc::op("reorder"); Cal_BddDynamicReordering(s.m, CAL_REORDER_SIFT, e == 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); Cal_BddDynamicReordering(s.m, CAL_REORDER_NONE, 0); s.orderChanged("reorder"); } }
    else { auto &g = G[sel[e]]; static const int PAT[][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {0, 1, 0}}; int np = g.nb == 1 ? 3 : 4; int p = mc::choose(np); int ix[3]; bool null = false; Cal_Bdd a[3]; TT t[3]; for (int k = 0; k < g.nb; k++) { ix[k] = PAT[p][k]; a[k] = s.slot[ix[k]].h; t[k] = s.slot[ix[k]].t; if (!a[k]) null = true; }
      if (!null) { if (!g.pre(s, t)) throw mc::Prune(); Hs h = g.run(s, a); mc::op("%s(slots %d...)", g.name, ix[0]); Ts r = s.judge(g, t, h, false, s.order); h = g.run(s, a); auto &d = s.slot[i % 3]; if (d.h) Cal_BddFree(s.m, d.h); d.h = h[0]; d.t = r[0]; }
      else { mc::op("%s with null", g.name); Snap b(s); Hs h = g.run(s, a); MC_CHECK(h.size() == 1 && !h[0], "%s with a null argument returned a BDD", g.name); Snap(s).same(b, g.name); auto &d = s.slot[i % 3]; if (d.h) Cal_BddFree(s.m, d.h); d.h = nullptr; d.t = 0; } }
    for (auto &x : s.slot) if (x.h) MC_CHECK(s.eval(x.h) == x.t, "a live BDD changed"); mc::state(s.hash());
  }
  unsigned long n = s.gc(), e = 0; { std::vector<TT> keep; std::vector<Sys::Slot> sl; for (auto &x : s.slot) if (x.h) sl.push_back(x); s.slot = sl; e = s.expectedNodes(); } MC_CHECK(n == e, "%lu nodes after a collection, expected %lu", n, e); s.quit();
}
// provisional BDDs
MC_SCENARIO(pipeline) {
  int op = mc::choose(3), k = mc::choose(7), ord = mc::choose(6); mc::shardHere(); static const Cal_BddOp_t OPS[] = {CAL_AND, CAL_OR, CAL_XOR}; GSys s; s.setup(p3()[ord], true, std::vector<TT>(FAM, FAM + 6)); auto m = s.m; auto ev = [&](TT a, TT b) { return op == 0 ? a & b : op == 1 ? a | b : a ^ b; }; Snap b(s); Cal_Bdd N = nullptr;
  mc::op("pipeline %d with null at %d", op, k); if (k == 6) MC_CHECK(!Cal_PipelineCreateProvisionalBdd(m, N, s.slot[0].h), "a provisional BDD without a pipeline"); MC_CHECK(Cal_PipelineInit(m, OPS[op]), "init"); Cal_Bdd p = Cal_PipelineCreateProvisionalBdd(m, s.slot[0].h, s.slot[1].h); MC_CHECK(p && Cal_BddIsProvisional(m, p), "create"); Cal_Bdd r = p;
  auto null = [&](Cal_Bdd x, Cal_Bdd y) { mc::ops(1); MC_CHECK(!Cal_PipelineCreateProvisionalBdd(m, x, y), "a request with a null operand was accepted"); };
  if (k == 0) null(N, s.slot[2].h); if (k == 1) null(s.slot[2].h, N); if (k == 2) null(N, N); if (k == 3) null(p, N); if (k == 4) null(N, p); if (k == 5) { MC_CHECK(!Cal_PipelineUpdateProvisionalBdd(m, N), "update of null"); MC_CHECK(!Cal_BddIsProvisional(m, N), "null is provisional"); }
  Cal_Bdd q = Cal_PipelineCreateProvisionalBdd(m, r, s.slot[2].h); MC_CHECK(q, "create"); MC_CHECK(Cal_PipelineExecute(m), "execute"); MC_CHECK(!Cal_PipelineUpdateProvisionalBdd(m, N), "update of null"); Cal_Bdd x = Cal_PipelineUpdateProvisionalBdd(m, p), y = Cal_PipelineUpdateProvisionalBdd(m, q); TT e = ev(FAM[0], FAM[1]); MC_CHECK(s.eval(x) == e && s.eval(y) == ev(e, FAM[2]), "results of the pipeline"); Cal_PipelineQuit(m); Cal_BddFree(m, x); Cal_BddFree(m, y); unsigned long n = s.gc(), w = s.expectedNodes(); MC_CHECK(n == w, "%lu nodes, expected %lu", n, w); s.quit();
}
// the C++ interface
MC_SCENARIO(cxx) {
  int k = mc::choose(8), i = mc::choose(6); mc::shardHere(); Cal K(3); { auto m = K._bddManager; std::vector<BDD> id = {K.Id(1), K.Id(2), K.Id(3)}; BDD a = i == 4 ? K.Zero() : i == 5 ? K.One() : i == 0 ? (id[0] & id[1]) | id[2] : i == 1 ? id[0] ^ id[2] : i == 2 ? ~id[1] : id[0] & ~id[2], N = K.Null(); std::vector<BDD> as = {id[0], id[1]}; K.TempAssociationInit(as.begin(), as.end(), true); K.AssociationSetCurrent(-1); unsigned long nodes = K.Nodes(); int rc = a.RefCount();
    auto z = [&](const BDD &r, const char *w) { mc::ops(1); MC_CHECK(r.IsNull(), "%s with a null argument returned a BDD", w); };
    switch (k) {
      case 0: z(N & a, "&"); z(a & N, "&"); z(a | N, "|"); z(N | a, "|"); z(a ^ N, "^"); z(N ^ a, "^"); z(~N, "~"); z(a - N, "-"); z(N - a, "-"); { BDD x = a; x &= N; z(x, "&="); x = a; x |= N; z(x, "|="); x = N; x ^= a; z(x, "^="); } break;
      case 1: z(a.Nand(N), "Nand"); z(a.Nor(N), "Nor"); z(a.Xnor(N), "Xnor"); z(N.Nand(a), "Nand"); z(N.Not(), "Not"); z(N.Identity(), "Identity"); z(K.Not(N), "Not"); z(K.Identity(N), "Identity"); break;
      case 2: z(a.ITE(N, a), "ITE"); z(a.ITE(a, N), "ITE"); z(N.ITE(a, a), "ITE"); z(K.ITE(N, N, N), "ITE"); break;
      case 3: z(a.Compose(id[0], N), "Compose"); z(a.Compose(N, a), "Compose"); z(N.Compose(id[0], a), "Compose"); z(a.SwapVars(N, id[0]), "SwapVars"); z(a.SwapVars(id[0], N), "SwapVars"); z(N.SwapVars(id[0], id[1]), "SwapVars"); break;
      case 4: z(K.Exists(N), "Exists"); z(K.ForAll(N), "ForAll"); z(K.RelProd(a, N), "RelProd"); z(K.RelProd(N, a), "RelProd"); z(K.Substitute(N), "Substitute"); z(K.VarSubstitute(N), "VarSubstitute"); break;
      case 5: z(a.Cofactor(N), "Cofactor"); z(N.Cofactor(a), "Cofactor"); z(a.Reduce(N), "Reduce"); z(N.Reduce(a), "Reduce"); z(K.Between(a, N), "Between"); z(K.Between(N, a), "Between"); z(a.Intersects(N), "Intersects"); z(N.Implies(a), "Implies"); break;
      case 6: z(N.If(), "If"); z(N.Then(), "Then"); z(N.Else(), "Else"); z(N.Satisfy(), "Satisfy"); z(N.SatisfySupport(), "SatisfySupport"); z(N.Regular(), "Regular"); MC_CHECK(!N.IsOne() && !N.IsZero() && !N.IsConst() && !N.IsCube() && N.Size() == 0 && N.SatisfyingFraction() == 0 && N != a && N == K.Null() && !N.DependsOn(id[0]) && (int)N.Type() == CAL_BDD_TYPE_OVERFLOW, "queries of null"); break;
      case 7: { BDD x(N), y; y = N; x = std::move(y); z(x, "copy"); std::vector<BDD> v(5, N); v.push_back(a); v.erase(v.begin()); z(v[0], "container"); MC_CHECK(v.back() == a, "container"); BDD d; d = N; z(d, "assigned"); z(d & a, "&"); z(d | a, "|"); z(d ^ a, "^"); z(~d, "~"); z(d.ITE(a, a), "ITE"); z(d.Then(), "Then"); MC_CHECK(d == N && !(d != N) && d.IsEqualTo(N) && !d.IsOne() && !d.IsZero() && !d.IsConst() && !d.IsCube() && d.Size() == 0 && d.SatisfyingFraction() == 0 && !d.DependsOn(id[0]) && (int)d.Type() == CAL_BDD_TYPE_OVERFLOW && K.Not(d).IsNull(), "queries of an assigned null"); d = a; MC_CHECK(d == a && (d & a) == a, "assignment over null"); break; } }
    MC_CHECK(K.Nodes() == nodes && a.RefCount() == rc, "null arguments changed nodes or references"); (void)m; as.clear(); }
  K.GC(); MC_CHECK(K.Nodes() == 4, "%lu nodes when all objects are gone", (unsigned long)K.Nodes());
}
int main(int c, char **v) { return mc::main(c, v); }

// C04: quantification and relational product
#include "assoc.hh"

static void alg(int bf) { calVerifLargeBdd = bf ? 0 : 1ul << 40; }
struct QOp { const char *name; int arity; };
static Cal_Bdd q(Sys &s, int op, Cal_Bdd f, Cal_Bdd g) { return op == 0 ? Cal_BddExists(s.m, f) : op == 1 ? Cal_BddForAll(s.m, f) : Cal_BddRelProd(s.m, f, g); }
static TT qref(int op, TT f, TT g, unsigned set) { return op == 0 ? exists(f, set) : op == 1 ? forall(f, set) : exists(f & g, set); }
static const char *QN[] = {"Exists", "ForAll", "RelProd"};

static void one(AllFn &A, int op, TT f, TT g, unsigned set, const char *ctx) {
  mc::S->transitions++; mc::S->checks++;
  Cal_Bdd r = q(A.s, op, A.f[f], A.f[g]);
  TT want = qref(op, f, g, set) & full(A.n);
  if (r != A.f[want]) { MC_CHECK(r, "%s: %s(%s,%s) over set %x is null", ctx, QN[op], hx(f), hx(g), set); TT got = A.s.eval(r); mc::fail("%s: %s(%s,%s) over set %x denotes %s, expected %s", ctx, QN[op], hx(f), hx(g), set, hx(got), hx(want)); }
  A.s.free(r);
}

// all functions of 3 variables, all sets, both algorithms, every way to bind the set, all orders; all pairs for the product
MC_SCENARIO(all3) {
  static auto ps = perms(3);
  int o = mc::choose(6), bf = mc::choose(2), mode = mc::choose(Bind::MODES); unsigned set = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  alg(bf); Bind b(A.s, set, mode);
  for (TT f = 0; f < 256; f++) { one(A, 0, f, 0, set, "all3"); one(A, 1, f, 0, set, "all3"); mc::state(mc::mix(mc::mix(f, set), o)); }
  int step = (int)mc::P("step", 1);
  if (mode == 0 || mode == 2 || mc::thorough()) for (TT f = 0; f < 256; f += (o == 0 || o == 3 ? 1 : step)) for (TT g = 0; g < 256; g++) one(A, 2, f, g, set, "all3");

  // and the other algorithm in between (shared computed table)
  alg(!bf); for (TT f = 0; f < 256; f++) { one(A, 0, f, 0, set, "other algorithm"); one(A, 2, f, ~f * 37 & 255, set, "other algorithm"); }
  b.end(); alg(0);
  // without a binding nothing is quantified
  for (TT f = 1; f < 256; f += 50) { Cal_AssociationSetCurrent(A.s.m, -1); if (b.temp) { one(A, 0, f, 0, 0, "no association"); one(A, 2, f, f ^ 0x5a, 0, "no association"); } }
  if (set == 5) { A.checkIntact("after quantification"); mc::sample("order %d, %s algorithm, binding mode %d, set %x: Exists/ForAll of 256 functions and RelProd of all pairs", o, bf ? "breadth-first" : "depth-first", mode, set); }
}

// all functions of 4 variables, all 16 sets
MC_SCENARIO(all4) {
  static auto ps = perms(4);
  static const int ord[] = {0, 23, 9, 14};
  int o = ord[mc::choose((int)mc::P("orders", 2))], bf = mc::choose(2); unsigned set = mc::choose(16); int mode = mc::choose(2) ? 2 : 0; mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  alg(bf); Bind b(A.s, set, mode);
  for (TT f = 0; f < 65536; f++) { one(A, 0, f, 0, set, "all4"); one(A, 1, f, 0, set, "all4"); }
  mc::state(mc::mix(mc::mix(o, bf), mc::mix(set, mode)));
  b.end(); alg(0);
}
// product of every NPN class of 4 variables with a family of partners, all sets
MC_SCENARIO(relprod4) {
  static auto ps = perms(4);
  static const int ord[] = {0, 17};
  int o = ord[mc::choose((int)mc::P("orders", 1))], bf = mc::choose(2); unsigned set = mc::choose(16); int mode = mc::choose(2) ? 2 : 0; mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  alg(bf); Bind b(A.s, set, mode);
  int stride = (int)mc::P("stride", 257);
  for (TT f : npn4()) for (TT g = 1; g < 65536; g += stride) { one(A, 2, f, g, set, "relprod4"); one(A, 2, g, ~f & 65535, set, "relprod4"); }
  mc::state(mc::mix(mc::mix(o, bf), mc::mix(set, mode)));
  b.end(); alg(0);
}

// every short history of rebinding and quantifying in a fresh manager: nothing remembered from another association may leak in
MC_SCENARIO(histories) {
  int depth = (int)mc::P("depth", 3);
  static const unsigned sets[] = {1, 2, 6, 7};
  static const TT fns[] = {0x96, 0xe8, 0x2c};
  Sys s; static auto ps = perms(3); s.initOrder(ps[mc::choose(2) * 3]);
  for (TT t : fns) s.add(s.build(t), t);
  std::vector<int> reg;                    // registered ids
  unsigned cur = 0, temp = 0; int curId = -1; std::map<int, unsigned> setOf;
  auto arr = [&](unsigned set) { std::vector<Cal_Bdd> a; for (int v = 0; v < 3; v++) if (set >> v & 1) a.push_back(s.var[v]); a.push_back(nullptr); return a; };
  for (int d = 0; d < depth; d++) {
    switch (mc::choose(5)) {
    case 4: { // released while another one is current
      if (reg.empty()) throw mc::Prune(); int id = reg[mc::choose((int)reg.size())];
      if (curId == id) { mc::op("SetCurrent(-1)"); Cal_AssociationSetCurrent(s.m, -1); curId = -1; cur = temp; }
      mc::op("AssociationQuit(%d)", id); Cal_AssociationQuit(s.m, id); reg.erase(std::find(reg.begin(), reg.end(), id)); break; }
    case 0: { temp = sets[mc::choose(4)]; auto a = arr(temp); mc::op("TempAssociationInit(%x)", temp); Cal_TempAssociationInit(s.m, a.data(), 0); if (curId == -1) cur = temp; break; }
    case 1: { unsigned t = sets[mc::choose(4)]; auto a = arr(t); int id = Cal_AssociationInit(s.m, a.data(), 0); mc::op("AssociationInit(%x) = %d; SetCurrent", t, id);
      MC_CHECK(id >= 0, "AssociationInit failed"); setOf[id] = t; reg.push_back(id); Cal_AssociationSetCurrent(s.m, id); curId = id; cur = t; break; }
    case 2: { if (curId == -1) { if (reg.empty()) throw mc::Prune(); int id = reg[mc::choose((int)reg.size())]; mc::op("SetCurrent(%d)", id); Cal_AssociationSetCurrent(s.m, id); curId = id; cur = setOf[id]; }
      else if (mc::choose(2)) { mc::op("SetCurrent(-1)"); Cal_AssociationSetCurrent(s.m, -1); curId = -1; cur = temp; }
      else { mc::op("AssociationQuit(%d)", curId); int id = curId; bool again = std::count(reg.begin(), reg.end(), id) > 1; Cal_AssociationQuit(s.m, id); reg.erase(std::find(reg.begin(), reg.end(), id)); if (again) Cal_AssociationSetCurrent(s.m, id); else { curId = -1; cur = temp; } }
      break; }
    case 3: s.gc(); break;
    }
    // quantify everything under the current association with a chosen algorithm
    alg(mc::choose(2));
    for (int i = 0; i < 3; i++) for (int op = 0; op < 3; op++) {
      TT f = s.slot[i].t, g = s.slot[(i + 1) % 3].t;
      mc::op("%s(%s,%s)", QN[op], hx(f), hx(g));
      Cal_Bdd r = q(s, op, s.slot[i].h, s.slot[(i + 1) % 3].h);
      s.expect(r, qref(op, f, g, cur), QN[op]); s.free(r);
    }
    mc::state(mc::mix(mc::mix(s.hash(), cur), curId * 10 + temp));
  }
  for (int id : reg) Cal_AssociationQuit(s.m, id);
  Cal_TempAssociationQuit(s.m);
  unsigned long got = s.gc(), exp = s.expectedNodes();
  MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); alg(0); s.quit();
}

// very long histories with the temporary association: results must never come from an earlier binding
MC_SCENARIO(long_temp) {
  int bf = mc::choose(2), kind = mc::choose(4); mc::shardHere();
  Sys s(3); static const TT fns[] = {0x96, 0xe8, 0x2c, 0x1b};
  for (TT t : fns) s.add(s.build(t), t);
  // a registered association with warm results in the table as well
  std::vector<Cal_Bdd> a = {s.var[0], nullptr}; int reg = Cal_AssociationInit(s.m, a.data(), 0);
  Cal_Bdd pr[3] = {s.var[0], s.var[1], nullptr}; int reg2 = Cal_AssociationInit(s.m, pr, 1);
  long rounds = mc::P("rounds", 70000); alg(bf);
  mc::op("%ld calls with ever changing temporary association, kind %d", rounds, kind);
  for (long i = 0; i < rounds; i++) {
    unsigned set = 1 + (unsigned)(i / 3 * 5 + i / 65535 * 3) % 7;
    std::vector<Cal_Bdd> t; for (int v = 0; v < 3; v++) if (set >> v & 1) t.push_back(s.var[v]);
    t.push_back(nullptr);
    if (kind == 2 && i % 16384) { set = 1; if (i % 16384 == 1) { Cal_Bdd o[2] = {s.var[0], nullptr}; Cal_TempAssociationInit(s.m, o, 0); } }
    else Cal_TempAssociationInit(s.m, t.data(), 0);
    int k = (i & 3), op = kind == 0 ? (int)(i % 3) : kind == 1 ? 0 : kind == 2 ? 2 : 1;
    Cal_AssociationSetCurrent(s.m, -1);
    Cal_Bdd r = q(s, op, s.slot[k].h, s.slot[(k + 1) & 3].h); TT want = qref(op, s.slot[k].t, s.slot[(k + 1) & 3].t, set);
    MC_CHECK(r && s.eval(r) == (want & 255), "after %ld calls with temporary associations: %s(%s) over %x denotes %s, expected %s", i, QN[op], hx(s.slot[k].t), set, hx(s.eval(r)), hx(want & 255));
    s.free(r);
    if (i % 64 == 0 || (i > 30000 && i % 8 == 0)) {
      Cal_AssociationSetCurrent(s.m, reg); k = (int)(i / 8 & 3); r = q(s, 0, s.slot[k].h, 0); want = exists(s.slot[k].t, 1); MC_CHECK(s.eval(r) == want, "registered association after %ld temporary ones: %s, expected %s", i, hx(s.eval(r)), hx(want)); s.free(r);
      Cal_AssociationSetCurrent(s.m, reg2); r = Cal_BddVarSubstitute(s.m, s.slot[k].h); want = composeTT(s.slot[k].t, 0, VARTT[1]) & 255; MC_CHECK(s.eval(r) == want, "VarSubstitute (registered) after %ld temporary associations: %s, expected %s", i, hx(s.eval(r)), hx(want)); s.free(r);
      r = Cal_BddAnd(s.m, s.slot[k].h, s.var[2]); MC_CHECK(s.eval(r) == (s.slot[k].t & VARTT[2] & 255), "And after temporary associations"); s.free(r);
    }
    mc::state(mc::mix(set, mc::mix(k, op)));
  }
  mc::ops(rounds); mc::sample("%ld rebindings of the temporary association, kind %d", rounds, kind);
  alg(0); s.quit();
}

// far apart variables; variables created and moved after the association was made
MC_SCENARIO(wide) {
  int li = mc::choose((int)layouts3().size()), bf = mc::choose(2), mode = mc::choose(2) ? 2 : 0; unsigned set = mc::choose(8); int late = mc::choose(4); mc::shardHere();
  const Layout &L = layouts3()[li];
  AllFn A(3, [&](Sys &s) { setupLayout(s, L); });
  Bind b(A.s, set, mode); alg(bf);
  for (TT f = 3; f < 256; f += 23) one(A, 0, f, 0, set, "before");
  if (late == 1) { A.s.newDummy(Sys::FIRST); A.s.newDummy(Sys::AFTER, 0); A.s.newDummy(Sys::BEFORE, 2); }
  if (late == 2) for (int i = 0; i < 70; i++) A.s.newDummy(i & 1 ? Sys::FIRST : Sys::LAST);
  if (late == 3) { Cal_BddDynamicReordering(A.s.m, CAL_REORDER_SIFT, bf ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); mc::op("reorder"); Cal_BddReorder(A.s.m); }
  for (TT f = 0; f < 256; f++) { one(A, 0, f, 0, set, L.name); one(A, 1, f, 0, set, L.name); one(A, 2, f, (f * 91 + 17) & 255, set, L.name); }
  mc::state(mc::mix(mc::mix(li, set), mc::mix(late, bf)));
  b.end(); A.s.orderChanged("wide"); A.checkIntact("wide"); alg(0); A.s.quit();
}

// large functions
MC_SCENARIO(large) {
  Big::N = (int)mc::P("bits", 12);
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  int i = mc::choose((int)F.size()), si = mc::choose(7), bf = mc::choose(2), reg = mc::choose(2); mc::shardHere();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); } }
  static const unsigned sets[] = {1, 0x800, 0x555, 0x03f, 0xfc0, 0x0f0, 0x7fe};
  unsigned set = sets[si] & ((1u << Big::N) - 1); alg(bf);
  std::vector<Cal_Bdd> a; for (int v = 0; v < Big::N; v++) if (set >> v & 1) a.push_back(B->v[v]);
  a.push_back(nullptr);
  int id = -1; if (reg) { id = Cal_AssociationInit(B->m(), a.data(), 0); } else Cal_TempAssociationInit(B->m(), a.data(), 0);
  Cal_AssociationSetCurrent(B->m(), id);
  auto quant = [&](Big b, bool all) { for (int v = 0; v < Big::N; v++) if (set >> v & 1) { Big r; for (unsigned x = 0; x < 1u << Big::N; x++) { bool p = b.get(x | 1u << v), n = b.get(x & ~(1u << v)); if (all ? p && n : p || n) r.set(x); } b = r; } return b; };
  char what[200]; snprintf(what, sizeof what, "Exists(%s) over %x (%s)", F[i].first, set, bf ? "bf" : "df"); mc::op("%s", what);
  Cal_Bdd r = Cal_BddExists(B->m(), h[i]); B->expect(r, quant(t[i], false), what); Cal_BddFree(B->m(), r);
  r = Cal_BddForAll(B->m(), h[i]); B->expect(r, quant(t[i], true), "ForAll"); Cal_BddFree(B->m(), r);
  for (int j = 0; j < (int)F.size(); j += 5) {
    int k = (i + j + 1) % F.size(); Big c = t[i]; for (size_t z = 0; z < c.w.size(); z++) c.w[z] &= t[k].w[z];
    snprintf(what, sizeof what, "RelProd(%s,%s) over %x (%s)", F[i].first, F[k].first, set, bf ? "bf" : "df"); mc::op("%s", what);
    r = Cal_BddRelProd(B->m(), h[i], h[k]); B->expect(r, quant(c, false), what); Cal_BddFree(B->m(), r);
  }
  if (reg) Cal_AssociationQuit(B->m(), id); else Cal_TempAssociationQuit(B->m());
  mc::state(mc::mix(mc::mix(i, si), bf * 2 + reg)); alg(0);
}
int main(int c, char **v) { return mc::main(c, v); }

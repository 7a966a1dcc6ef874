// Managers with very many variables, up to the documented maximum: every part of the interface at the ends of the id and index ranges.
#include "query.hh"
#include "dumpio.hh"
#include "varq.hh"
// sizes around the powers of two where tables grow and ids or indices change sign or width; 65534 is the largest number of variables
static const std::vector<int> &NS() { static std::vector<int> a = {1024, 4097, 16385, 32768, 65534}, b = {1023, 1024, 1025, 2047, 2049, 4095, 4096, 8191, 8193, 16383, 16384, 16385, 32765, 32766, 32767, 32768, 32769, 32770, 40000, 49152, 65532, 65533, 65534}; return mc::P("fine", 0) ? b : a; }
struct Many { int N, place, mode; std::vector<int> ids; };
static Many chooseMany(int places = 3, int modes = 3) {
  Many k; k.N = NS()[mc::choose((int)NS().size())]; k.place = mc::choose(places); k.mode = mc::choose(modes); int N = k.N, h = std::min(N - 3, 32766);
  if (k.place == 0) k.ids = {1, N / 2, N - 1, N}; else if (k.place == 1) k.ids = {h, h + 1, h + 2, h + 3}; else k.ids = {2, h + 1, h + 2, N};
  return k;
}
// mode 0: in the order of creation; 1: the last three created first in the order, so that the highest ids are on top; 2: the last three created around the first tracked variable
static void create(Sys &s, const Many &k, std::vector<int> &ord) {
  for (int id = 1; id <= k.N; id++) {
    bool tr = std::find(k.ids.begin(), k.ids.end(), id) != k.ids.end(), late = id > k.N - 3; int md = late ? k.mode : 0; if (md == 2 && (s.n == 0 || k.ids[0] > k.N - 3)) md = 1;
    if (md == 0) { if (tr) s.newLast(); else s.newDummy(); ord.push_back(id); }
    else if (md == 1) { if (tr) s.newFirst(); else s.newDummy(Sys::FIRST); ord.insert(ord.begin(), id); }
    else { bool bef = id & 1; auto it = std::find(ord.begin(), ord.end(), s.idOf[0]); ord.insert(bef ? it : it + 1, id); if (tr) { if (bef) s.newBefore(0); else s.newAfter(0); } else s.newDummy(bef ? Sys::BEFORE : Sys::AFTER, 0); }
  }
}
static const TT FAM[] = {0x6a95, 0xc1e8, 0x00ff, 0x8000, 0x5a3c, 0xfe7f, 0x0f0f, 0xaaaa, 0x0000, 0xffff};
static void exact(Sys &s, const char *w) { unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "%s: %lu nodes after collection, %lu needed", w, g, x); }
// operations of a group (bits of `groups`: 1 two-argument and ITE, 2 multiway, 4 quantification, 8 substitution, 16 care sets, 32 witnesses, 64 structure) on all tuples of a family
static int groupOf(const GOp &g) {
  std::string n = g.name; auto has = [&](const char *x) { return n.find(x) == 0; };
  if (has("Multiway") || has("Pairwise")) return 2; if (has("Exists") || has("ForAll") || has("RelProd")) return 4; if (has("Substitute") || has("VarSub") || has("Compose") || has("Swap")) return 8;
  if (has("Cofactor") || has("Reduce") || has("Between")) return 16; if (has("Intersects") || has("Implies") || has("Satisfy")) return 32; if (has("If") || has("Then") || has("Else") || has("Support")) return 64; return 1;
}
MC_SCENARIO(many_ops) {
  long gr = mc::P("groups", 127); Many k = chooseMany(); bool reg = gr & 44 ? mc::choose(2) : 0, bf = gr & 4 ? mc::choose(2) : 0; mc::shardHere(); GSys s; s.init(); std::vector<int> ord; create(s, k, ord); calVerifLargeBdd = bf ? 0 : 1ul << 19;
  s.bindAssoc(reg); int F = (int)mc::P("fam", 6); for (int i = 0; i < F; i++) s.add(s.build(FAM[i]), FAM[i]); disarm(s);
  for (auto &g : gops()) { if (!(gr & groupOf(g))) continue; int tot = 1; for (int i = 0; i < g.nb; i++) tot *= F; int step = g.nb == 3 ? 7 : 1;
    for (int q = 0; q < tot; q += step) { int idx[3] = {q % F, q / F % F, q / F / F}; TT t[3]; for (int i = 0; i < g.nb; i++) t[i] = s.slot[idx[i]].t; if (g.pre(s, t)) s.apply(g, idx, false); } }
  s.checkLive("many variables"); s.checkOrder("many variables"); exact(s, "many variables"); calVerifLargeBdd = 1ul << 19; mc::state(mc::mix(mc::mix(k.N, k.place), k.mode * 4 + reg * 2 + bf)); s.quit();
}
// all variables answer their id, index and handle; the next creation at every kind of position, up to the last possible one
MC_SCENARIO(many_create) {
  Many k = chooseMany(2, 3); int e = mc::choose(8); mc::shardHere(); Sys s; s.init(); std::vector<int> ord; create(s, k, ord); variables(s, ord, "after creation"); s.checkOrder("after creation");
  s.add(s.build(0x6a95), 0x6a95); s.add(s.build(0xc1e8), 0xc1e8); Cal_Bdd pr[] = {s.var[3], s.var[0], s.var[1], s.slot[0].h, nullptr}; int id = Cal_AssociationInit(s.m, pr, 1); MC_CHECK(id >= 0, "AssociationInit"); Cal_Bdd l[] = {s.var[0], s.var[3], nullptr}; Cal_TempAssociationInit(s.m, l, 0);
  for (int r = 0; r < 2 && s.nvars() < 65534; r++) {   // beyond 65534 variables creation is documented to be impossible
    int N = s.nvars(), w = e >> 1, at = e & 1 ? N - 1 : N / 3; Cal_Bdd p = Cal_BddManagerGetVarWithIndex(s.m, at); mc::op("create at %d, kind %d", at, w);
    Cal_Bdd x = w == 0 ? Cal_BddManagerCreateNewVarLast(s.m) : w == 1 ? Cal_BddManagerCreateNewVarFirst(s.m) : w == 2 ? Cal_BddManagerCreateNewVarBefore(s.m, p) : Cal_BddManagerCreateNewVarAfter(s.m, p); MC_CHECK(x, "creation returned null");
    ord.insert(w == 0 ? ord.end() : w == 1 ? ord.begin() : ord.begin() + at + (w == 3), N + 1); s.dummy.push_back(x); idBit[N + 1] = -1; variables(s, ord, "creation"); s.checkOrder("creation"); s.checkLive("creation");
    Cal_AssociationSetCurrent(s.m, id); TT sub[6] = {VARTT[0], s.slot[0].t, VARTT[2], VARTT[0], 0, 0}; Cal_Bdd y = Cal_BddSubstitute(s.m, s.slot[1].h); s.expect(y, substTT(s.slot[1].t, sub, 4), "Substitute"); s.free(y);
    Cal_AssociationSetCurrent(s.m, -1); y = Cal_BddExists(s.m, s.slot[1].h); s.expect(y, exists(s.slot[1].t, 9), "Exists"); s.free(y); y = Cal_BddRelProd(s.m, s.slot[0].h, s.slot[1].h); s.expect(y, exists(s.slot[0].t & s.slot[1].t, 9), "RelProd"); s.free(y);
    Cal_Bdd v = Cal_BddAnd(s.m, x, s.slot[0].h), c = Cal_BddCofactor(s.m, v, x); MC_CHECK(c == s.slot[0].h, "cofactor of v & f by v is not f"); Cal_Bdd z = Cal_BddCompose(s.m, v, x, s.slot[1].h); s.expect(z, s.slot[0].t & s.slot[1].t, "Compose of the new variable"); MC_CHECK(Cal_BddDependsOn(s.m, v, x) == 1 && Cal_BddDependsOn(s.m, z, x) == 0, "DependsOn the new variable"); for (auto q : {v, c, z}) s.free(q);
  }
  { unsigned long g = s.gc(), x = s.expectedNodes({s.slot[0].t}); MC_CHECK(g == x, "%lu nodes after collection, %lu needed", g, x); } mc::state(mc::mix(mc::mix(k.N, k.mode), e * 2 + k.place)); s.quit();
}
MC_SCENARIO(many_queries) {
  Many k = chooseMany(); long gr = mc::P("groups", 3); mc::shardHere(); Sys s; s.init(); std::vector<int> ord; create(s, k, ord); for (TT t : FAM) s.add(s.build(t), t); int F = (int)s.slot.size();
  for (int i = 0; i < F; i++) {
    auto &a = s.slot[i], &b = s.slot[(i * 3 + 1) % F];
    if (gr & 1) for (int q = 0; q < NQ; q++) for (int n = 0; n < 2; n++) if (q & 1) query(s, q, {a.h, b.h}, {a.t, b.t}, n, true); else query(s, q, {a.h}, {a.t}, n, true);
    if (gr & 2) structural(s, a.h, a.t, "");
  }
  s.checkLive("queries"); exact(s, "queries"); mc::state(mc::mix(mc::mix(k.N, k.place), k.mode)); s.quit();
}
// dumps whose variable lists have up to 65534 entries
MC_SCENARIO(many_dump) {
  Many k = chooseMany(); int part = mc::choose(3); mc::shardHere(); Sys s; s.init(); std::vector<int> ord; create(s, k, ord);
  // variables of the list: all but the last `cut` dummies; tracked ones in front, at the end, or where their id is
  std::vector<Cal_Bdd> l; for (int i = 1; i <= k.N; i++) if (part != 2 || idBit[i] >= 0 || i > 5) l.push_back(Cal_BddManagerGetVarWithId(s.m, i)); if (part == 1) std::reverse(l.begin(), l.end());
  auto l2 = l; for (auto &x : l2) { if (x == s.var[0]) x = s.var[1]; else if (x == s.var[1]) x = s.var[2]; else if (x == s.var[2]) x = s.var[3]; else if (x == s.var[3]) x = s.var[0]; } l.push_back(nullptr); l2.push_back(nullptr);
  for (TT t : FAM) { Cal_Bdd f = s.mk(t); std::string d = dump(s, f, l, hx(t)); Cal_Bdd g = undump(s, l, d), h = undump(s, l2, d); MC_CHECK(g == f, "undump with the same list of %zu variables gave another handle", l.size() - 1); s.expect(h, moved(t, {0, 1, 2, 3}, {1, 2, 3, 0}, 4), "undump");
    auto d2 = dump(s, f, list(s, {0, 1, 2, 3})); Cal_Bdd q = undump(s, list(s, {3, 1, 0, 2}), d2); s.expect(q, moved(t, {0, 1, 2, 3}, {3, 1, 0, 2}, 4), "undump with a short list"); for (auto x : {f, g, h, q}) s.free(x); }
  // a variable beyond the list is refused
  { Cal_Bdd f = s.mk(0x6a95); auto p = l; p.erase(std::find(p.begin(), p.end(), s.var[3])); OutFile o; int r = Cal_BddDumpBdd(s.m, f, p.data(), o.fp); MC_CHECK(r == 0, "a list of %zu variables that misses one of the support was accepted", p.size() - 1); s.free(f); }
  s.checkLive("dump"); exact(s, "dump"); mc::state(mc::mix(mc::mix(k.N, k.place), k.mode * 3 + part)); s.quit();
}
// associations over everything there is: all variables bound, many replaced, quantified together
MC_SCENARIO(many_assoc) {
  Many k = chooseMany(); int reg = mc::choose(2), kind = mc::choose(3); mc::shardHere(); Sys s; s.init(); std::vector<int> ord; create(s, k, ord); for (TT t : FAM) s.add(s.build(t), t); std::vector<Cal_Bdd> l; unsigned set = 0; std::vector<TT> extra;
  for (int i = 1; i <= k.N; i++) { int b = idBit[i]; if (kind == 0) { l.push_back(Cal_BddManagerGetVarWithId(s.m, i)); set = 15; continue; }      // every variable
    if (kind == 1) { if (b == 0 || b == 3 || (b < 0 && i % 5 == 0)) l.push_back(Cal_BddManagerGetVarWithId(s.m, i)); set = 9; continue; }
    if (b < 0 && i % 3) continue; l.push_back(Cal_BddManagerGetVarWithId(s.m, i)); l.push_back(b >= 0 ? (b & 1 ? s.slot[b].h : s.var[(b + 1) & 3]) : i & 1 ? s.slot[0].h : s.var[2]); set = 15; }
  l.push_back(nullptr); int id = -1; if (reg) { id = Cal_AssociationInit(s.m, l.data(), kind == 2); MC_CHECK(id >= 0, "AssociationInit"); MC_CHECK(Cal_AssociationInit(s.m, l.data(), kind == 2) == id, "an equal association got another id"); Cal_AssociationSetCurrent(s.m, id); } else { Cal_TempAssociationInit(s.m, l.data(), kind == 2); Cal_AssociationSetCurrent(s.m, -1); }
  for (int bf = 0; bf < 2; bf++) { calVerifLargeBdd = bf ? 0 : 1ul << 19;
    for (size_t i = 0; i < 10; i++) { TT f = s.slot[i].t, g = s.slot[(i * 3 + 1) % 10].t; Cal_Bdd x;
      x = Cal_BddExists(s.m, s.slot[i].h); s.expect(x, exists(f, set), "Exists"); s.free(x); x = Cal_BddForAll(s.m, s.slot[i].h); s.expect(x, forall(f, set), "ForAll"); s.free(x); x = Cal_BddRelProd(s.m, s.slot[i].h, s.slot[(i * 3 + 1) % 10].h); s.expect(x, exists(f & g, set), "RelProd"); s.free(x);
      if (kind == 2) { TT sub[6] = {VARTT[1], s.slot[1].t, VARTT[3], s.slot[3].t, 0, 0}; x = Cal_BddSubstitute(s.m, s.slot[i].h); s.expect(x, substTT(f, sub, 4), "Substitute"); s.free(x); } } }
  calVerifLargeBdd = 1ul << 19; s.checkLive("association"); s.checkOrder("association"); if (reg) Cal_AssociationQuit(s.m, id); else Cal_TempAssociationQuit(s.m); exact(s, "after the association is gone"); mc::state(mc::mix(mc::mix(k.N, k.place), k.mode * 6 + reg * 3 + kind)); s.quit();
}
// reordering with up to a few thousand variables (the interaction matrix is quadratic)
MC_SCENARIO(many_reorder) {
  static const int Ns[] = {511, 512, 513, 1023, 1024, 1025, 2048, 2049, 46341, 46342, 65534}; int first = (int)mc::P("first", 0), N = Ns[first + mc::choose((int)mc::P("sizes", 6))], mode = mc::choose((int)mc::P("modes", 3)), te = N > 40000 ? 2 * mc::choose(2) : mc::choose(4), spread = mc::choose((int)mc::P("spreads", 3)); mc::shardHere();
  Many k{N, 0, mode, spread == 0 ? std::vector<int>{1, N / 2, N - 1, N} : spread == 1 ? std::vector<int>{N - 3, N - 2, N - 1, N} : std::vector<int>{2, 3, 4, N - 4}}; Sys s; s.init(); std::vector<int> ord; create(s, k, ord); for (TT t : {0x6a95, 0xc1e8, 0x8000, 0x5a3c}) s.add(s.build(t), t);
  Cal_BddDynamicReordering(s.m, te & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, te & 2 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF);
  for (int r = 0; r < 2; r++) { unsigned long before = s.gc(); Cal_BddReorder(s.m); mc::op("reorder %d of %d variables", te, N); s.orderChanged("reorder"); s.checkLive("reorder"); unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "reorder: %lu nodes after collection, %lu needed", g, x); (void)before;
    Cal_Bdd y = Cal_BddAnd(s.m, s.slot[0].h, s.slot[1].h); s.expect(y, s.slot[0].t & s.slot[1].t, "And"); s.add(y, s.slot[0].t & s.slot[1].t); }
  mc::state(mc::mix(N, mode * 12 + te * 3 + spread)); s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

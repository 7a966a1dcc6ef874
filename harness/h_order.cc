// Variable creation (C11) and variable blocks under depth-first reordering (C10)
#include "varq.hh"
struct VarModel { std::vector<int> ord; std::vector<Cal_Bdd> h; };     // ids top to bottom; handle of id i is h[i-1]
// where: 0 last, 1 first, 2+2k before the k-th, 3+2k after the k-th variable of the order; the position is given by the variable,
// its complement or (form 2) a function with that top variable
static void createVar(Sys &s, VarModel &M, int where, int form = 0) {
  int id = (int)M.ord.size() + 1; Cal_Bdd r, arg = 0, tofree = 0; size_t at;
  if (where >= 2) {
    int k = (where - 2) / 2; arg = M.h[M.ord[k] - 1];
    if (form == 1) arg = tofree = Cal_BddNot(s.m, arg);
    if (form == 2) { arg = tofree = k + 1 < (int)M.ord.size() ? Cal_BddAnd(s.m, arg, M.h[M.ord.back() - 1]) : Cal_BddIdentity(s.m, arg); }
    at = where & 1 ? k + 1 : k; mc::op("create variable %d %s id %d", id, where & 1 ? "after" : "before", M.ord[k]);
    r = where & 1 ? Cal_BddManagerCreateNewVarAfter(s.m, arg) : Cal_BddManagerCreateNewVarBefore(s.m, arg);
  } else { at = where ? 0 : M.ord.size(); mc::op("create variable %d %s", id, where ? "first" : "last"); r = where ? Cal_BddManagerCreateNewVarFirst(s.m) : Cal_BddManagerCreateNewVarLast(s.m); }
  MC_CHECK(r, "creating variable %d returned null", id); if (tofree) s.free(tofree);
  for (auto x : M.h) MC_CHECK(x != r, "new variable %d has the handle of an old one", id);
  M.ord.insert(M.ord.begin() + at, id); M.h.push_back(r);
  for (size_t i = 0; i < M.h.size(); i++) MC_CHECK(Cal_BddManagerGetVarWithId(s.m, (int)i + 1) == M.h[i], "creating variable %d changed the handle of variable %zu", id, i + 1);
}
static void track(Sys &s, VarModel &M) { s.n = 0; s.var.clear(); s.idOf.clear(); s.dummy.clear(); s.order.clear(); for (size_t i = 0; i < M.h.size(); i++) if (i < 6) { s.n++; s.var.push_back(M.h[i]); s.idOf.push_back((int)i + 1); idBit[i + 1] = (signed char)i; } else { s.dummy.push_back(M.h[i]); idBit[i + 1] = -1; } for (int x : M.ord) if (x <= 6) s.order.push_back(x - 1); }
// every sequence of creations up to a depth; all queries after each; then functions over the result
MC_SCENARIO(create) {
  int depth = (int)mc::P("depth", 6), form = mc::choose(3); Sys s; s.init(); VarModel M; variables(s, {}, "empty manager");
  for (int d = 0; d < depth; d++) { createVar(s, M, mc::choose(2 + 2 * d), form); variables(s, M.ord, "after creation"); }
  track(s, M); uint64_t h = 0; for (int x : M.ord) h = mc::mix(h, x); mc::state(h);
  static const TT fs[] = {0x9669699669969669ull, 0xcafe1234beef5678ull}; for (TT f : fs) { s.add(s.build(f), f); } s.add(Cal_BddAnd(s.m, s.slot[0].h, s.slot[1].h), fs[0] & fs[1]); s.checkLive("functions over the created variables"); s.checkOrder("functions over the created variables");
  unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "%lu nodes after collection, %lu needed", g, x); s.quit();
}
// before and after a constant, which lies below every variable: the new variable is the last
MC_SCENARIO(create_at_constants) {
  int depth = (int)mc::P("depth", 4); Sys s; s.init(); VarModel M;
  for (int d = 0; d < depth; d++) { int e = mc::choose(4 + (d ? 2 : 0)); if (e >= 4) { createVar(s, M, e == 4 ? 1 : 2 + 2 * (d / 2), 0); variables(s, M.ord, "after creation"); continue; }
    Cal_Bdd c = e & 1 ? Cal_BddOne(s.m) : Cal_BddZero(s.m), r = e & 2 ? Cal_BddManagerCreateNewVarAfter(s.m, c) : Cal_BddManagerCreateNewVarBefore(s.m, c); mc::op("create variable %d %s %s", d + 1, e & 2 ? "after" : "before", e & 1 ? "One" : "Zero"); MC_CHECK(r, "null"); s.free(c);
    M.ord.push_back(d + 1); M.h.push_back(r); variables(s, M.ord, "after creation at a constant"); }
  track(s, M); uint64_t h = 0; for (int x : M.ord) h = mc::mix(h, x); mc::state(h); TT f = 0x6996 & full(s.n); s.add(s.build(f), f); s.checkLive("function"); s.checkOrder("function"); s.quit();
}
// managers of every size around capacity boundaries; creation at every position; functions, associations and previous reorderings present
static const std::vector<int> &sizes() { static std::vector<int> v = {1, 2, 5, 15, 16, 29, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 119, 120, 121, 127, 128, 129, 240, 255, 256, 257, 300}; return v; }
MC_SCENARIO(positions) {
  int N = sizes()[mc::choose((int)sizes().size())], mode = mc::choose(3), pre = mc::choose(5), pk = mc::choose(6); mc::shardHere();
  // tracked variables are ids spread over the manager
  Sys s; s.init(); std::set<int> tr; for (int i = 0; i < 4; i++) tr.insert(1 + (int)((long)i * (N - 1) / 3));
  for (int id = 1; id <= N; id++) { bool f = mode == 2 || (mode == 1 && id % 3 == 0); if (tr.count(id)) { if (f) s.newFirst(); else s.newLast(); } else s.newDummy(f ? Sys::FIRST : Sys::LAST); }
  int n = s.n; TT F = full(n); TT fa = 0x6ac5 & F, fb = 0x1be8 & F, fc = (0x8d57 & F); s.add(s.build(fa), fa); s.add(s.build(fb), fb);
  Cal_Bdd val = s.build(fc); Cal_Bdd pairs[] = {s.var[n - 1], val, s.var[0], s.var[n / 2], nullptr}; if (n == 1) pairs[2] = nullptr;
  int id = Cal_AssociationInit(s.m, pairs, 1); MC_CHECK(id >= 0, "AssociationInit"); Cal_Bdd lst[] = {s.var[0], s.var[n / 2], nullptr}; if (n == 1) lst[1] = nullptr; Cal_TempAssociationInit(s.m, lst, 0); s.free(val);
  if (pre) { static const int te[] = {CAL_REORDER_SIFT, CAL_REORDER_WINDOW}; Cal_BddDynamicReordering(s.m, te[pre & 1], pre < 3 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); }
  std::vector<int> ids; VarModel M; for (int i = 0; i < N; i++) M.ord.push_back(Cal_BddGetIfId(s.m, Cal_BddManagerGetVarWithIndex(s.m, i))); for (int i = 1; i <= N; i++) M.h.push_back(Cal_BddManagerGetVarWithId(s.m, i));
  int k = pk < 2 ? 0 : pk < 4 ? N / 2 : N - 1; std::vector<int> wh = {2 + 2 * k + (pk & 1), pk & 1, 2 + 2 * k + (pk & 1)};
  for (int w : wh) { createVar(s, M, w); s.dummy.push_back(M.h.back()); idBit[M.h.size()] = -1;
    variables(s, M.ord, "after creation"); s.checkLive("after creation"); s.checkOrder("after creation");
    TT sub[6] = {VARTT[n / 2], VARTT[1], VARTT[2], VARTT[3], 0, 0}; sub[n - 1] = n == 1 ? fc : n - 1 == 0 ? sub[0] : fc; unsigned set = 1u | 1u << (n / 2);
    Cal_AssociationSetCurrent(s.m, id); Cal_Bdd x = Cal_BddSubstitute(s.m, s.slot[0].h); s.expect(x, substTT(fa, sub, n), "Substitute after creation"); s.free(x);
    Cal_AssociationSetCurrent(s.m, -1); x = Cal_BddExists(s.m, s.slot[1].h); s.expect(x, exists(fb, set), "Exists after creation"); s.free(x); x = Cal_BddRelProd(s.m, s.slot[0].h, s.slot[1].h); s.expect(x, exists(fa & fb, set), "RelProd after creation"); s.free(x);
    // the new variable is usable everywhere: v & f depends on it
    Cal_Bdd v = M.h.back(), y = Cal_BddAnd(s.m, v, s.slot[0].h), z = Cal_BddCofactor(s.m, y, v); if (fa) MC_CHECK(z == s.slot[0].h, "cofactor of v&f by the new v is not f"); Cal_Bdd w2 = Cal_BddCompose(s.m, y, v, s.slot[1].h); s.expect(w2, fa & fb, "Compose of the new variable"); for (auto q : {y, z, w2}) s.free(q);
    if (w == wh[0]) { Cal_Bdd nn[] = {v, nullptr}; Cal_TempAssociationAugment(s.m, nn, 0); Cal_Bdd e = Cal_BddExists(s.m, s.slot[1].h); s.expect(e, exists(fb, set), "Exists over a set with the new variable"); s.free(e); Cal_Bdd y2 = Cal_BddXor(s.m, v, s.slot[1].h), e2 = Cal_BddExists(s.m, y2); MC_CHECK(Cal_BddIsBddOne(s.m, e2), "Exists v. v xor f is not true"); s.free(y2); s.free(e2); }
  }
  if (pre) { Cal_BddReorder(s.m); s.orderChanged("second reorder"); s.checkLive("second reorder"); }
  unsigned long g = s.gc(), need = s.expectedNodes({fc}); MC_CHECK(g == need, "%lu nodes after collection, %lu needed", g, need); mc::state(mc::mix(mc::mix(N, mode), mc::mix(pre, pk))); s.quit();
}
// histories of creations, operations, reorderings, collections, associations; the slots are re-expressed as variables come
static void grow(Sys &s) { int n = s.n - 1; for (auto &x : s.slot) if (n < 6) x.t = (x.t & full(n)) | (x.t & full(n)) << (1 << n); }
MC_SCENARIO(create_histories) {
  Sys s; s.init(); s.newLast(); s.newLast(); s.add(s.build(6), 6); int depth = (int)mc::P("depth", 4); Cal_Bdd *null = nullptr; (void)null; std::vector<TT> held;
  int assocId = -1; unsigned aset = 0;
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(14), a = d & 1 ? (int)s.slot.size() - 1 : 0, v = s.order[d % s.n];
    if (e < 4) { if (s.n >= 5) throw mc::Prune(); if (e == 0) s.newFirst(); else if (e == 1) s.newLast(); else if (e == 2) s.newBefore(v); else s.newAfter(v); grow(s); TT t = s.slot[a].t ^ VARTT[s.n - 1]; Cal_Bdd r = Cal_BddXor(s.m, s.slot[a].h, s.var[s.n - 1]); s.expect(r, t, "Xor with the new variable"); s.add(r, t); }
    else if (e < 6) { if (e == 4) s.newDummy(Sys::BEFORE, v); else s.newDummy(Sys::AFTER, v); }
    else if (e < 10) { Cal_BddDynamicReordering(s.m, e & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, e < 8 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); mc::op("reorder %d", e - 6); s.orderChanged("reorder"); }
    else if (e == 10) { Cal_Bdd r = Cal_BddAnd(s.m, s.slot[0].h, s.var[v]); TT t = s.slot[0].t & VARTT[v]; s.expect(r, t, "And"); s.add(r, t); }
    else if (e == 11) { if (s.slot.size() > 2) { s.free(s.slot[1].h); s.slot.erase(s.slot.begin() + 1); } s.gc(); }
    else if (e == 12) { Cal_Bdd l[] = {s.var[v], s.var[0], nullptr}; if (v == 0) l[1] = nullptr; if (assocId < 0) assocId = Cal_AssociationInit(s.m, l, 0), aset = 1u << v | 1u; else Cal_AssociationQuit(s.m, assocId), assocId = -1; mc::op("association %d over %x", assocId, aset); }
    else { Cal_BddManagerSetParameters(s.m, 0, -1, 2.0, 1.0); s.gc(); }
    s.checkLive("history"); s.checkOrder("history");
    { VarModel M; for (int i = 0; i < s.nvars(); i++) { M.ord.push_back(Cal_BddGetIfId(s.m, Cal_BddManagerGetVarWithIndex(s.m, i))); } variables(s, M.ord, "history"); }
    if (assocId >= 0) { Cal_AssociationSetCurrent(s.m, assocId); Cal_Bdd x = Cal_BddForAll(s.m, s.slot[a % s.slot.size()].h); s.expect(x, forall(s.slot[a % s.slot.size()].t, aset), "ForAll in history"); s.free(x); }
    mc::state(s.hash());
  }
  unsigned long g = s.gc(), x = s.expectedNodes(); MC_CHECK(g == x, "%lu nodes after collection, %lu needed", g, x); s.quit();
}

// ================================================================ C10
struct Blk { bool reorderable = false; int id = 0; Cal_Block h = 0; std::vector<Blk> kids; int size() const { if (id) return 1; int n = 0; for (auto &k : kids) n += k.size(); return n; } };
static Blk leaf(int id) { Blk b; b.id = id; return b; }
static void idsOf(const Blk &b, std::vector<int> &v) { if (b.id) v.push_back(b.id); else for (auto &k : b.kids) idsOf(k, v); }
// put positions [f,l] into a block; false when it would overlap partially
static bool addBlk(Blk &b, int f, int l, Cal_Block h) {
  int p = 0, i = -1, j = -1; for (int k = 0; k < (int)b.kids.size(); k++) { int z = b.kids[k].size(); if (f >= p && f < p + z) { i = k; } if (l >= p && l < p + z) { j = k; if (i == j) { if (b.kids[k].id) { b.kids[k].kids.clear(); Blk n; n.h = h; n.kids.push_back(b.kids[k]); b.kids[k] = n; return true; } return addBlk(b.kids[k], f - p, l - p, h); } } p += z; }
  int pi = 0; for (int k = 0; k < i; k++) pi += b.kids[k].size(); int pj = pi; for (int k = i; k <= j; k++) pj += b.kids[k].size();
  if (pi != f || pj != l + 1) return false;
  Blk n; n.h = h; n.kids.assign(b.kids.begin() + i, b.kids.begin() + j + 1); b.kids.erase(b.kids.begin() + i, b.kids.begin() + j + 1); b.kids.insert(b.kids.begin() + i, n); return true;
}
static void insertVar(Blk &b, int at, int id) {   // a new variable in front of position `at`
  int p = 0; for (int k = 0; k < (int)b.kids.size(); k++) { int z = b.kids[k].size(); if (at > p && at < p + z) { insertVar(b.kids[k], at - p, id); return; } if (at == p) { b.kids.insert(b.kids.begin() + k, leaf(id)); return; } p += z; }
  b.kids.push_back(leaf(id));
}
static Blk *findH(Blk &b, Cal_Block h) { if (b.h == h) return &b; for (auto &k : b.kids) if (!k.id) if (Blk *r = findH(k, h)) return r; return nullptr; }
static std::string showB(const Blk &b) { if (b.id) return std::to_string(b.id); std::string r = b.reorderable ? "{" : "("; for (auto &k : b.kids) r += showB(k) + " "; return r + (b.reorderable ? "}" : ")"); }
// the new order, seen through the block structure: contiguity, fixed order of parts; the model takes over the new order
static void conform(Blk &b, const std::vector<int> &pos, const char *when) {
  for (auto &k : b.kids) if (!k.id) conform(k, pos, when);
  auto first = [&](const Blk &k) { std::vector<int> v; idsOf(k, v); int m = 1 << 30; for (int x : v) m = std::min(m, pos[x]); return m; };
  std::vector<int> v; idsOf(b, v); int lo = 1 << 30, hi = -1; for (int x : v) { lo = std::min(lo, pos[x]); hi = std::max(hi, pos[x]); }
  MC_CHECK(hi - lo + 1 == (int)v.size(), "%s: the variables of block %s are not contiguous", when, showB(b).c_str());
  if (!b.reorderable) for (size_t k = 1; k < b.kids.size(); k++) MC_CHECK(first(b.kids[k - 1]) < first(b.kids[k]), "%s: the parts of the fixed block %s changed their order", when, showB(b).c_str());
  std::stable_sort(b.kids.begin(), b.kids.end(), [&](const Blk &x, const Blk &y) { return first(x) < first(y); });
}
struct BSys : Sys {
  Blk root; std::vector<Cal_Block> blocks;
  void initBlocks(const std::vector<int> &perm) { initOrder(perm); root = Blk(); root.reorderable = true; for (int v : perm) root.kids.push_back(leaf(idOf[v])); }
  std::vector<int> ids() { std::vector<int> v; idsOf(root, v); return v; }
  bool legal(int f, int l) { Blk c = root; return addBlk(c, f, l, nullptr); }
  void block(int f, int l, bool reord, int form = 0) {
    Cal_Bdd v = Cal_BddManagerGetVarWithIndex(m, f); mc::op("NewVarBlock(index %d, length %d)%s", f, l - f + 1, reord ? " reorderable" : "");
    long len = form == 1 ? 1000 : l - f + 1; Cal_Block b = Cal_BddNewVarBlock(m, v, len); MC_CHECK(b, "Cal_BddNewVarBlock returned null");
    bool ok = addBlk(root, f, l, b); MC_CHECK(ok, "harness: illegal block"); if (reord) { Cal_BddVarBlockReorderable(m, b, 1); findH(root, b)->reorderable = true; } blocks.push_back(b);
  }
  void flip(Cal_Block b) { Blk *k = findH(root, b); k->reorderable = !k->reorderable; Cal_BddVarBlockReorderable(m, b, k->reorderable); mc::op("block %s is now %sreorderable", showB(*k).c_str(), k->reorderable ? "" : "not "); }
  void create(int where, int k, bool tracked) {   // 0 last 1 first 2 before 3 after the variable at position k
    int N = nvars(); Cal_Bdd at = Cal_BddManagerGetVarWithIndex(m, k); int pos = where == 0 ? N : where == 1 ? 0 : where == 2 ? k : k + 1; mc::op("new variable at position %d", pos);
    Cal_Bdd h = where == 0 ? Cal_BddManagerCreateNewVarLast(m) : where == 1 ? Cal_BddManagerCreateNewVarFirst(m) : where == 2 ? Cal_BddManagerCreateNewVarBefore(m, at) : Cal_BddManagerCreateNewVarAfter(m, at);
    MC_CHECK(h, "variable creation returned null"); insertVar(root, pos, N + 1);
    if (tracked) { ::Sys &s = *this; s.var.push_back(h); s.n++; s.idOf.push_back(N + 1); idBit[N + 1] = (signed char)(n - 1); grow(s); } else { dummy.push_back(h); idBit[N + 1] = -1; }
    order.clear(); for (int x : ids()) if (idBit[x] >= 0) order.push_back(idBit[x]); checkOrder("creation"); variables(*this, ids(), "creation");
  }
  void df(int tech) {
    Cal_BddDynamicReordering(m, tech ? CAL_REORDER_WINDOW : CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF); Cal_BddReorder(m); mc::op("DF %s, blocks %s", tech ? "window" : "sift", mc::tracing ? showB(root).c_str() : "");
    orderChanged("DF reordering"); std::vector<int> pos(nvars() + 1); for (int i = 0; i < nvars(); i++) pos[Cal_BddGetIfId(m, Cal_BddManagerGetVarWithIndex(m, i))] = i;
    conform(root, pos, "DF reordering"); variables(*this, ids(), "DF reordering"); checkLive("DF reordering");
  }
  void exact(const char *w) { unsigned long g = gc(), x = expectedNodes(); MC_CHECK(g == x, "%s: %lu nodes after collection, %lu needed", w, g, x); }
};
// functions of 5 variables that profit from moving variables
static const TT BF5[] = {
  ((VARTT[0] & VARTT[3]) | (VARTT[1] & VARTT[4])), ((VARTT[0] & VARTT[2]) ^ (VARTT[1] & VARTT[3])) | (VARTT[4] & VARTT[0]), (VARTT[0] & VARTT[4]) | (VARTT[1] & VARTT[3] & VARTT[2]), ((VARTT[0] ^ VARTT[2]) & (VARTT[1] ^ VARTT[4])) | VARTT[3] & VARTT[0],
  0xe8d4963c5a27f1b0ull, (VARTT[1] & VARTT[2]) | (VARTT[0] & ~VARTT[4]) | (VARTT[3] & ~VARTT[2]) };
// all structures of up to 3 blocks over 5 variables x flags x functions x two rounds of reordering
MC_SCENARIO(blocks5) {
  int nb = mc::choose((int)mc::P("blocks", 3) + 1); int fn = mc::choose((int)mc::P("fns", 4)), t1 = mc::choose(2), t2 = mc::choose(2); BSys s; static const std::vector<int> OP[] = {{0, 1, 2, 3, 4}, {2, 0, 4, 1, 3}}; s.initBlocks(OP[fn & 1]);
  for (int i = 0; i < nb; i++) { int f = mc::choose(5), l = f + mc::choose(5 - f); if (l == f && !mc::P("singles", 0)) throw mc::Prune(); if (!s.legal(f, l)) throw mc::Prune(); bool r = mc::choose(2); s.block(f, l, r, l == 4 && (fn & 1)); }
  TT a = BF5[fn % 6] & full(5), b = BF5[(fn + 2) % 6] & full(5); s.add(s.build(a), a); s.add(s.build(b), b); { Cal_Bdd junk = s.build(a ^ b); s.free(junk); }
  s.df(t1); if (fn & 1) s.exact("after reordering"); Cal_Bdd r = Cal_BddXor(s.m, s.slot[0].h, s.slot[1].h); s.expect(r, a ^ b, "Xor after reordering"); s.add(r, a ^ b); s.free(s.slot[0].h); s.slot[0].h = nullptr; s.df(t2); s.df(t2); s.exact("after second reordering");
  mc::state(s.hash()); s.quit();
}
// histories: blocks, variables next to and inside blocks, flags, functions over the new variables, reorderings
MC_SCENARIO(block_histories) {
  int start = mc::choose(3); BSys s; s.initBlocks({0, 1, 2, 3}); int depth = (int)mc::P("depth", 4); TT a = ((VARTT[0] & VARTT[3]) | (VARTT[1] & VARTT[2])) & full(4); s.add(s.build(a), a); a = ((VARTT[0] ^ VARTT[2]) & VARTT[3]) & full(4); s.add(s.build(a), a);
  if (start == 1) s.block(1, 2, false); if (start == 2) { s.block(0, 3, true); s.block(0, 1, false); }
  for (int d = 0; d < depth; d++) {
    int e = mc::choose(7), N = s.nvars();
    if (e == 0) s.df(0); else if (e == 1) s.df(1);
    else if (e == 2) { int f = mc::choose(3) * (N - 2) / 2, len = 2 + mc::choose(2); if (f + len > N || !s.legal(f, f + len - 1)) throw mc::Prune(); s.block(f, f + len - 1, mc::choose(2)); }
    else if (e == 3) { if (s.blocks.empty()) throw mc::Prune(); s.flip(s.blocks[mc::choose((int)std::min<size_t>(2, s.blocks.size()))]); }
    else if (e == 4) { if (s.n >= 6) throw mc::Prune(); s.create(2 + mc::choose(2), mc::choose(N), true); TT t = ite(VARTT[s.n - 1], s.slot[0].t, s.slot[1].t) & full(s.n); Cal_Bdd r = Cal_BddITE(s.m, s.var[s.n - 1], s.slot[0].h, s.slot[1].h); s.expect(r, t, "ITE on the new variable"); s.add(r, t); }
    else if (e == 5) s.create(mc::choose(4), N / 2, false);
    else { if (s.slot.size() > 2) { s.free(s.slot.back().h); s.slot.pop_back(); } s.gc(); }
    s.checkLive("history"); mc::state(s.hash());
  }
  s.df(0); s.df(1); s.exact("end of history"); s.quit();
}
// many variables: blocks of every width, nested pairs; large functions move whole blocks far
MC_SCENARIO(blocks_large) {
  Big::N = (int)mc::P("bits", 10); auto &F = bigFamily(); int nf = (int)F.size(), i = mc::choose(nf), shape = mc::choose(8), t1 = mc::choose(2), t2 = mc::choose(2); mc::shardHere();
  BigSys B; for (int k = 0; k < Big::N; k++) idBit[k + 1] = -1; Blk root; root.reorderable = true; for (int k = 1; k <= Big::N; k++) root.kids.push_back(leaf(k));
  auto blk = [&](int f, int l, bool r) { if (l >= Big::N) l = Big::N - 1; Cal_Block b = Cal_BddNewVarBlock(B.m(), Cal_BddManagerGetVarWithIndex(B.m(), f), l - f + 1); MC_CHECK(b && addBlk(root, f, l, b), "block"); if (r) { Cal_BddVarBlockReorderable(B.m(), b, 1); findH(root, b)->reorderable = true; } };
  switch (shape) {
    case 0: for (int k = 0; k + 1 < Big::N; k += 2) blk(k, k + 1, false); break; case 1: for (int k = 0; k + 2 < Big::N; k += 3) blk(k, k + 2, true); break;
    case 2: blk(0, Big::N - 1, false); blk(2, 5, true); break; case 3: blk(0, Big::N / 2, true); blk(1, 3, false); break;
    case 4: for (int k = 0; k + 1 < Big::N; k += 2) blk(k, k + 1, true); for (int k = 0; k + 3 < Big::N; k += 4) blk(k, k + 3, k & 4); break; case 5: blk(0, 0, false); blk(Big::N - 1, Big::N - 1, true); blk(3, 6, false); break;
    case 6: blk(0, Big::N - 1, true); for (int k = 0; k < Big::N; k++) if (k % 3 == 0) blk(k, k + 1, false); break; case 7: blk(0, 6, false); blk(1, 5, false); blk(2, 4, true); break; }
  std::vector<Big> t; std::vector<Cal_Bdd> h; for (int j : {i, (i + 5) % nf}) { t.push_back(bigOf(F[j].second)); h.push_back(B.build(t.back())); } mc::ops(4);
  for (int k : {t1, t2}) { Cal_BddDynamicReordering(B.m(), k ? CAL_REORDER_WINDOW : CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF); Cal_BddReorder(B.m()); std::vector<int> pos(Big::N + 1); for (int x = 0; x < Big::N; x++) { Cal_Bdd v = Cal_BddManagerGetVarWithIndex(B.m(), x); MC_CHECK(v, "no variable at %d", x); pos[Cal_BddGetIfId(B.m(), v)] = x; }
    conform(root, pos, k ? "DF window" : "DF sift"); for (size_t j = 0; j < h.size(); j++) B.expect(h[j], t[j], "DF reordering"); for (int x = 0; x < Big::N; x++) MC_CHECK(Cal_BddManagerGetVarWithId(B.m(), x + 1) == B.v[x], "variable handle %d changed", x + 1); }
  Cal_BddManagerGC(B.m()); unsigned long n = Cal_BddManagerGetNumNodes(B.m()); std::vector<Cal_Bdd> a{h[0], h[1]}; for (auto x : B.v) a.push_back(x); a.push_back(nullptr); unsigned long z = (unsigned long)Cal_BddSizeMultiple(B.m(), a.data(), 1); MC_CHECK(n == z, "%lu nodes after collection, the live BDDs have %lu", n, z);
  mc::state(mc::mix(i * 8 + shape, t1 * 2 + t2)); B.s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

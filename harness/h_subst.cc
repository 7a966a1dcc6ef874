// C05: composition and substitution
#include "assoc.hh"

static void same(AllFn &A, Cal_Bdd r, TT want, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
static void same(AllFn &A, Cal_Bdd r, TT want, const char *fmt, ...) {
  mc::S->transitions++; mc::S->checks++;
  want &= full(A.n);
  if (r == A.f[want]) { A.s.free(r); return; }
  char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  MC_CHECK(r, "%s is null", b);
  TT got = A.s.eval(r); mc::fail("%s denotes %s, expected %s", b, hx(got), hx(want));
}
// association v -> function (sub[v] in A) for the variables in set
struct Map {
  AllFn &A; int id; bool temp;
  Map(AllFn &A_, unsigned set, const TT *sub, int mode) : A(A_), id(-1), temp(mode != 1) {
    std::vector<Cal_Bdd> a;
    for (int v = 0; v < A.n; v++) if (set >> v & 1) { a.push_back(A.s.var[v]); a.push_back(A.f[sub[v] & full(A.n)]); }
    a.push_back(nullptr);
    if (mode == 0) Cal_TempAssociationInit(A.s.m, a.data(), 1);
    else if (mode == 1) { id = Cal_AssociationInit(A.s.m, a.data(), 1); MC_CHECK(id >= 0, "AssociationInit returned %d", id); }
    else { Cal_Bdd none[1] = {nullptr}; Cal_TempAssociationInit(A.s.m, none, 1); for (size_t i = a.size() - 1; i >= 2; i -= 2) { Cal_Bdd p[3] = {a[i - 2], a[i - 1], nullptr}; Cal_TempAssociationAugment(A.s.m, p, 1); } }
    Cal_AssociationSetCurrent(A.s.m, id);
  }
  void end() { if (temp) Cal_TempAssociationQuit(A.s.m); else Cal_AssociationQuit(A.s.m, id); }
};

MC_SCENARIO(compose3) {
  static auto ps = perms(3);
  int o = mc::choose(6), v = mc::choose(3); TT h = mc::choose(256); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  for (TT f = 0; f < 256; f++) { same(A, Cal_BddCompose(A.s.m, A.f[f], A.s.var[v], A.f[h]), composeTT(f, v, h), "Compose(%s, v%d, %s)", hx(f), v, hx(h)); mc::state(mc::mix(mc::mix(f, h), v * 6 + o)); if (!v) same(A, Cal_BddCompose(A.s.m, A.f[f], A.f[h & 1 ? 0 : 255], A.f[h]), f, "Compose(%s, constant, %s)", hx(f), hx(h)); }
  if (h == 0x96) { A.checkIntact("after Compose"); mc::sample("order %d: Compose(f, v%d, 96) for all f", o, v); }
}
MC_SCENARIO(compose4) {
  static auto ps = perms(4);
  int o = mc::choose((int)mc::P("orders", 2)) * 17, v = mc::choose(4); TT f = npn4()[mc::choose((int)npn4().size())]; mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  int stride = (int)mc::P("stride", 63);
  for (TT h = 0; h < 65536; h += stride) { same(A, Cal_BddCompose(A.s.m, A.f[f], A.s.var[v], A.f[h]), composeTT(f, v, h), "Compose(%s, v%d, %s)", hx(f), v, hx(h)); same(A, Cal_BddCompose(A.s.m, A.f[h], A.s.var[v], A.f[f]), composeTT(h, v, f), "Compose(%s, v%d, %s)", hx(h), v, hx(f)); }
  mc::state(mc::mix(mc::mix(f, v), o));
}
// simultaneous substitution: every map of the 3 variables into {unbound} + a family closed under the tricky cases
static const TT SF[] = {0x00, 0xff, 0xaa, 0xcc, 0xf0, 0x55, 0x33, 0x0f, 0x96, 0xe8, 0x88, 0x1b, 0x3c, 0xfa, 0x72};
MC_SCENARIO(substitute3) {
  static auto ps = perms(3);
  int NF = 1 + (int)mc::P("fam", 11);
  int o = mc::choose(6), mode = mc::choose(3); int c[3]; for (int i = 0; i < 3; i++) c[i] = mc::choose(NF);
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(3, ps[o]); });
  unsigned set = 0; TT sub[3]; bool vars = true;
  for (int i = 0; i < 3; i++) { if (c[i]) { set |= 1u << i; sub[i] = SF[c[i] - 1]; if (c[i] < 3 || c[i] > 5) vars = false; } else sub[i] = VARTT[i]; }
  Map M(A, set, sub, mode);
  int step = mode == 0 ? 1 : 7;
  for (TT f = (c[0] + c[1] + c[2]) % step; f < 256; f += step) {
    same(A, Cal_BddSubstitute(A.s.m, A.f[f]), substTT(f, sub, 3), "Substitute(%s) by (%s,%s,%s) set %x", hx(f), hx(sub[0]), hx(sub[1]), hx(sub[2]), set);
    if (vars) same(A, Cal_BddVarSubstitute(A.s.m, A.f[f]), substTT(f, sub, 3), "VarSubstitute(%s) by (%s,%s,%s) set %x", hx(f), hx(sub[0]), hx(sub[1]), hx(sub[2]), set);
  }
  M.end(); mc::state(mc::mix(mc::mix(c[0], c[1]), mc::mix(c[2], o * 3 + mode)));
  if (c[0] == 3 && c[1] == 2 && c[2] == 9) { A.checkIntact("after Substitute"); mc::sample("order %d: Substitute v0:=%s v1:=%s v2:=%s in all functions of 3 variables", o, hx(sub[0]), hx(sub[1]), hx(sub[2])); }
}
// variable-to-variable maps, all 625 partial maps of 4 variables
MC_SCENARIO(varsubst4) {
  static auto ps = perms(4);
  static const int ord[] = {0, 17, 23, 9};
  int o = ord[mc::choose((int)mc::P("orders", 2))], mode = mc::choose(2); int c[4]; for (int i = 0; i < 4; i++) c[i] = mc::choose(5);
  mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  unsigned set = 0; TT sub[4];
  for (int i = 0; i < 4; i++) { if (c[i]) { set |= 1u << i; sub[i] = VARTT[c[i] - 1] & 65535; } else sub[i] = VARTT[i] & 65535; }
  Map M(A, set, sub, mode);
  auto &R = npn4(); int step = mode == 0 ? 1 : (int)mc::P("step", 3);
  for (size_t i = 0; i < R.size(); i += step) {
    TT f = R[i]; if (i & 1) f = ~f & 65535;
    same(A, Cal_BddVarSubstitute(A.s.m, A.f[f]), substTT(f, sub, 4), "VarSubstitute(%s) by v%d,v%d,v%d,v%d (0: unbound)", hx(f), c[0], c[1], c[2], c[3]);
    same(A, Cal_BddSubstitute(A.s.m, A.f[f]), substTT(f, sub, 4), "Substitute(%s) by v%d,v%d,v%d,v%d (0: unbound)", hx(f), c[0], c[1], c[2], c[3]);
  }
  M.end(); mc::state(mc::mix(mc::mix(c[0] * 5 + c[1], c[2] * 5 + c[3]), o));
  if (c[0] == 2 && c[1] == 1) { if (c[2] == 4) A.checkIntact("after VarSubstitute"); }
}
MC_SCENARIO(swap4) {
  static auto ps = perms(4);
  static const int ord[] = {0, 17, 9, 23};
  int o = ord[mc::choose((int)mc::P("orders", 2))], a = mc::choose(4), b = mc::choose(4); int part = mc::choose(8); mc::shardHere();
  AllFn &A = fixture<AllFn>(o, [&] { return new AllFn(4, ps[o]); });
  TT sub[4]; for (int i = 0; i < 4; i++) sub[i] = VARTT[i == a ? b : i == b ? a : i];
  for (TT f = part; f < 65536; f += 8) same(A, Cal_BddSwapVars(A.s.m, A.f[f], A.s.var[a], A.s.var[b]), substTT(f, sub, 4), "SwapVars(%s, v%d, v%d)", hx(f), a, b);
  mc::state(mc::mix(mc::mix(a, b), o));
  if (part == 0) { A.checkIntact("after SwapVars"); mc::sample("order %d: SwapVars(f,v%d,v%d) for all functions of 4 variables", o, a, b); }
}
// histories of rebinding with all substitution operations after every event
MC_SCENARIO(histories) {
  int depth = (int)mc::P("depth", 3);
  static auto ps = perms(3); Sys s; s.initOrder(ps[mc::choose(2) * 4]);
  static const TT fns[] = {0x96, 0x2c, 0xd8};
  for (TT t : fns) s.add(s.build(t), t);
  static const int MAPS[5][3] = {{2, 0, 0}, {2, 1, 0}, {2, 3, 1}, {3, 3, 0}, {0, 0, 1}};
  struct B { unsigned set = 0; TT sub[3] = {VARTT[0], VARTT[1], VARTT[2]}; } temp, none; std::map<int, B> reg; std::vector<int> ids; int cur = -1;
  auto mk = [&](int k) { B b; for (int i = 0; i < 3; i++) if (MAPS[k][i]) { b.set |= 1u << i; b.sub[i] = VARTT[MAPS[k][i] - 1]; } return b; };
  auto arr = [&](int k) { std::vector<Cal_Bdd> a; for (int i = 0; i < 3; i++) if (MAPS[k][i]) { a.push_back(s.var[i]); a.push_back(s.var[MAPS[k][i] - 1]); } a.push_back(nullptr); return a; };
  for (int d = 0; d < depth; d++) {
    switch (mc::choose(4)) {
    case 0: { int k = mc::choose(5); auto a = arr(k); mc::op("TempAssociationInit(map %d); SetCurrent(-1)", k); Cal_TempAssociationInit(s.m, a.data(), 1); Cal_AssociationSetCurrent(s.m, -1); cur = -1; temp = mk(k); break; }
    case 1: { int k = mc::choose(5); auto a = arr(k); int id = Cal_AssociationInit(s.m, a.data(), 1); mc::op("AssociationInit(map %d) = %d; SetCurrent", k, id); reg[id] = mk(k); ids.push_back(id); Cal_AssociationSetCurrent(s.m, id); cur = id; break; }
    case 2: { if (ids.empty()) throw mc::Prune(); int i = mc::choose((int)ids.size()), id = ids[i]; if (mc::choose(2)) { mc::op("SetCurrent(-1)"); Cal_AssociationSetCurrent(s.m, -1); } mc::op("AssociationQuit(%d)", id); Cal_AssociationQuit(s.m, id); ids.erase(ids.begin() + i); Cal_AssociationSetCurrent(s.m, -1); cur = -1; break; }
    case 3: { mc::op("TempAssociationAugment(v2:=v0)"); Cal_Bdd a[3] = {s.var[2], s.var[0], nullptr}; Cal_TempAssociationAugment(s.m, a, 1); temp.set |= 4; temp.sub[2] = VARTT[0]; break; }
    }
    B b = cur == -1 ? temp : reg[cur];
    for (int i = 0; i < 3; i++) {
      TT f = s.slot[i].t, w = substTT(f, b.sub, 3); Cal_Bdd h = s.slot[i].h;
      mc::op("VarSubstitute(%s)", hx(f)); Cal_Bdd r = Cal_BddVarSubstitute(s.m, h); s.expect(r, w, "VarSubstitute"); s.free(r);
      mc::op("Substitute(%s)", hx(f)); r = Cal_BddSubstitute(s.m, h); s.expect(r, w, "Substitute"); s.free(r);
      mc::op("Exists(%s)", hx(f)); r = Cal_BddExists(s.m, h); s.expect(r, exists(f, b.set), "Exists"); s.free(r);
      int v = (i + d) % 3; mc::op("Compose(%s,v%d,..)", hx(f), v); r = Cal_BddCompose(s.m, h, s.var[v], s.slot[(i + 1) % 3].h); s.expect(r, composeTT(f, v, s.slot[(i + 1) % 3].t), "Compose"); s.free(r);
    }
    mc::state(mc::mix(mc::mix(s.hash(), b.set), mc::mix(b.sub[0], mc::mix(b.sub[1], b.sub[2]))));
  }
  for (int id : ids) Cal_AssociationQuit(s.m, id);
  Cal_TempAssociationQuit(s.m);
  unsigned long got = s.gc(), exp = s.expectedNodes(); MC_CHECK(got == exp, "%lu nodes after collection, but the live BDDs need %lu", got, exp);
  s.checkLive("end"); s.quit();
}
// wide layouts: replacing towards the top, the bottom and across many unused variables; variables that are bound may be created late
MC_SCENARIO(wide) {
  int li = mc::choose((int)layouts3().size()), k = mc::choose(12), mode = mc::choose(2), late = mc::choose(3); mc::shardHere();
  AllFn A(3, [&](Sys &s) { setupLayout(s, layouts3()[li]); });
  static const TT subs[12][3] = {{0xcc, 0xaa, 0xf0}, {0xf0, 0xcc, 0xaa}, {0xcc, 0xf0, 0xaa}, {0xaa, 0xaa, 0xaa}, {0xf0, 0xf0, 0xf0}, {0x96, 0xe8, 0xf0}, {0xaa, 0x3c, 0x99}, {0, 0xff, 0xaa}, {0xaa, 0xcc, 0x96}, {0xe8, 0xcc, 0xf0}, {0x55, 0x33, 0x0f}, {0xf0, 0xaa, 0xcc}};
  Map M(A, 7, subs[k], mode); bool vars = k < 5 || k == 11;
  if (late == 1) { A.s.newDummy(Sys::FIRST); A.s.newDummy(Sys::AFTER, 1); }
  if (late == 2) { Cal_BddDynamicReordering(A.s.m, CAL_REORDER_SIFT, CAL_REORDER_METHOD_DF); mc::op("reorder"); Cal_BddReorder(A.s.m); }
  for (TT f = 0; f < 256; f++) {
    same(A, Cal_BddSubstitute(A.s.m, A.f[f]), substTT(f, subs[k], 3), "Substitute(%s), map %d, layout %s", hx(f), k, layouts3()[li].name);
    if (vars) same(A, Cal_BddVarSubstitute(A.s.m, A.f[f]), substTT(f, subs[k], 3), "VarSubstitute(%s), map %d, layout %s", hx(f), k, layouts3()[li].name);
    int v = f % 3; TT h = (f * 37 + k) & 255; same(A, Cal_BddCompose(A.s.m, A.f[f], A.s.var[v], A.f[h]), composeTT(f, v, h), "Compose(%s,v%d,%s), layout %s", hx(f), v, hx(h), layouts3()[li].name);
    int u = (v + 1 + f / 3 % 2) % 3; TT sw[3]; for (int i = 0; i < 3; i++) sw[i] = VARTT[i == u ? v : i == v ? u : i]; same(A, Cal_BddSwapVars(A.s.m, A.f[f], A.s.var[v], A.s.var[u]), substTT(f, sw, 3), "SwapVars(%s,v%d,v%d), layout %s", hx(f), v, u, layouts3()[li].name);
  }
  M.end(); A.s.orderChanged("wide"); A.checkIntact("wide"); mc::state(mc::mix(mc::mix(li, k), late)); A.s.quit();
}
// large functions
MC_SCENARIO(large) {
  Big::N = (int)mc::P("bits", 11); static int N = Big::N;
  static BigSys *B; static std::vector<Big> t; static std::vector<Cal_Bdd> h;
  auto &F = bigFamily();
  int i = mc::choose((int)F.size()), k = mc::choose(7); mc::shardHere();
  if (!B) { B = new BigSys; for (auto &f : F) { t.push_back(bigOf(f.second)); h.push_back(B->build(t.back())); } }
  std::vector<int> map(N); for (int v = 0; v < N; v++) map[v] = k == 0 ? N - 1 - v : k == 1 ? (v + 1) % N : k == 2 ? v ^ 1 : k == 3 ? (v * 5) % N : k == 4 ? v / 2 : k == 5 ? (v + N - 1) % N : v;
  for (int v = 0; v < N; v++) if (map[v] >= N) map[v] = v;
  std::vector<Cal_Bdd> a; for (int v = 0; v < N; v++) if (map[v] != v) { a.push_back(B->v[v]); a.push_back(B->v[map[v]]); } 
  int j = (i * 5 + 3) % F.size(), jv = (i + k) % N;
  if (k == 6) { a.push_back(B->v[jv]); a.push_back(h[j]); a.push_back(B->v[(jv + 3) % N]); a.push_back(h[(j + 1) % F.size()]); }
  a.push_back(nullptr);
  Cal_TempAssociationInit(B->m(), a.data(), 1); Cal_AssociationSetCurrent(B->m(), -1);
  Big w; for (unsigned x = 0; x < 1u << N; x++) { unsigned y = 0; for (int v = 0; v < N; v++) { bool b = x >> map[v] & 1; if (k == 6 && v == jv) b = t[j].get(x); if (k == 6 && v == (jv + 3) % N) b = t[(j + 1) % F.size()].get(x); y |= (unsigned)b << v; } if (t[i].get(y)) w.set(x); }
  char what[200]; snprintf(what, sizeof what, "Substitute(%s), map %d", F[i].first, k); mc::op("%s", what);
  Cal_Bdd r = Cal_BddSubstitute(B->m(), h[i]); B->expect(r, w, what); Cal_BddFree(B->m(), r);
  if (k < 6) { r = Cal_BddVarSubstitute(B->m(), h[i]); B->expect(r, w, "VarSubstitute (large)"); Cal_BddFree(B->m(), r); }
  Cal_TempAssociationQuit(B->m());
  // compose and swap
  Big c; for (unsigned x = 0; x < 1u << N; x++) if (t[i].get((x & ~(1u << jv)) | (unsigned)t[j].get(x) << jv)) c.set(x);
  mc::op("Compose"); r = Cal_BddCompose(B->m(), h[i], B->v[jv], h[j]); B->expect(r, c, "Compose (large)"); Cal_BddFree(B->m(), r);
  int sv = (jv + 4) % N; Big sw; for (unsigned x = 0; x < 1u << N; x++) { unsigned y = x & ~(1u << jv) & ~(1u << sv); y |= (x >> jv & 1) << sv | (x >> sv & 1) << jv; if (t[i].get(y)) sw.set(x); }
  mc::op("SwapVars"); r = Cal_BddSwapVars(B->m(), h[i], B->v[jv], B->v[sv]); B->expect(r, sw, "SwapVars (large)"); Cal_BddFree(B->m(), r);
  mc::state(mc::mix(i, k));
}
int main(int c, char **v) { return mc::main(c, v); }

// C12: identity, lifetime and isolation of variable associations
#include "gops.hh"
struct Binding { TT val[6]; unsigned set = 0; bool operator==(const Binding &o) const { if (set != o.set) return false; for (int v = 0; v < 6; v++) if ((set >> v & 1) && val[v] != o.val[v]) return false; return true; } };
struct AModel {
  Sys &s; std::map<int, std::pair<Binding, int>> reg; Binding temp; int cur = -1;
  AModel(Sys &s_) : s(s_) {}
  const Binding &binding(int id) { return id < 0 ? temp : reg[id].first; }
  TT substFor(const Binding &b, TT f) { TT e[6]; for (int v = 0; v < 6; v++) e[v] = b.set >> v & 1 ? b.val[v] : VARTT[v]; return substTT(f, e, s.n); }
  bool varsOnly(const Binding &b) { for (int v = 0; v < s.n; v++) if (b.set >> v & 1) { bool ok = false; for (int w = 0; w < s.n; w++) if (b.val[v] == (VARTT[w] & full(s.n))) ok = true; if (!ok) return false; } return true; }
  // every operation that consults the current association
  void probe(TT f, Cal_Bdd hf, TT g, Cal_Bdd hg, int which) {
    const Binding &b = binding(cur); auto m = s.m; unsigned set = b.set; mc::op("probe current %d (set %x) with operation group %d on %s, %s", cur, set, which, hx(f), hx(g));
    if (which & 1) { Cal_Bdd r = Cal_BddExists(m, hf); s.expect(r, exists(f, set), "Exists"); s.free(r); r = Cal_BddRelProd(m, hf, hg); s.expect(r, exists(f & g, set), "RelProd"); s.free(r); }
    if (which & 2) { Cal_Bdd r = Cal_BddSubstitute(m, hf); s.expect(r, substFor(b, f), "Substitute"); s.free(r); r = Cal_BddForAll(m, hg); s.expect(r, forall(g, set), "ForAll"); s.free(r); }
    if ((which & 4) && varsOnly(b)) { Cal_Bdd r = Cal_BddVarSubstitute(m, hg); s.expect(r, substFor(b, g), "VarSubstitute"); s.free(r); }
    if (which & 4) { Cal_Bdd r = Cal_BddSatisfySupport(m, hf); TT t = s.eval(r); unsigned men; MC_CHECK(f ? !(t & ~f) && isCubeTT(t, s.n, &men) && (men & set) == set : !t, "SatisfySupport(%s) = %s", hx(f), hx(t)); s.free(r); }
  }
  std::vector<TT> held() { std::vector<TT> v; auto add = [&](const Binding &b) { for (int k = 0; k < s.n; k++) if (b.set >> k & 1) v.push_back(b.val[k]); }; add(temp); for (auto &x : reg) add(x.second.first); return v; }
  void setCurrent(int id) { int old = Cal_AssociationSetCurrent(s.m, id); mc::op("SetCurrent(%d) -> %d", id, old); MC_CHECK(old == cur, "Cal_AssociationSetCurrent(%d) = %d, but %d was current", id, old, cur); cur = id; }
  int init(const Binding &want, std::vector<Cal_Bdd> a, int pairs) {
    int id = Cal_AssociationInit(s.m, a.data(), pairs); mc::op("AssociationInit(set %x, %s) -> %d", want.set, pairs ? "pairs" : "list", id);
    int same = -1; for (auto &x : reg) if (x.second.first == want) same = x.first;
    MC_CHECK(id >= 0, "Cal_AssociationInit = %d", id);
    if (same >= 0) { MC_CHECK(id == same, "Cal_AssociationInit of an association equal to %d gave %d", same, id); reg[id].second++; }
    else { MC_CHECK(!reg.count(id), "Cal_AssociationInit of a new association gave the id %d of a different one", id); reg[id] = {want, 1}; }
    return id;
  }
  void quit(int id) {
    mc::op("AssociationQuit(%d)", id); Cal_AssociationQuit(s.m, id); if (--reg[id].second == 0) { reg.erase(id); if (cur == id) cur = -1; }
    else if (cur == id) { int now = Cal_AssociationSetCurrent(s.m, -1); MC_CHECK(now == id || now == -1, "after releasing one of several uses of association %d, %d is current", id, now); Cal_AssociationSetCurrent(s.m, now); cur = now; }   // either choice is defensible
  }
};
// the association descriptions used
struct Tmpl { int pairs; std::vector<std::pair<int, int>> b; };   // value: -1 none (list), 0..2 variable, 3.. function, 9 true
static const std::vector<Tmpl> TM = {
  {0, {{0, -1}}}, {0, {{1, -1}, {2, -1}}}, {1, {{0, 1}}}, {1, {{0, 3}}}, {1, {{2, 4}, {0, 1}}}, {1, {{0, 9}}}, {0, {}}, {1, {{0, 3}, {0, 4}}}, {1, {{1, 0}, {0, 1}}}, {0, {{2, -1}, {1, -1}, {2, -1}}}, {1, {{2, 3}}} };
struct World {
  Sys s; AModel A{s}; Cal_Bdd fn[2] = {0, 0}; TT ft[2] = {0x1d, 0x96}; int orders = 0;
  World(const std::vector<int> &perm) { s.initOrder(perm); s.add(s.build(0xe8 ^ 0x13), 0xe8 ^ 0x13); s.add(s.build(0x6a), 0x6a); }
  std::pair<Binding, std::vector<Cal_Bdd>> make(const Tmpl &t) {
    Binding b; std::vector<Cal_Bdd> a; for (int k = 0; k < 2; k++) if (!fn[k]) fn[k] = s.build(ft[k]);
    for (auto &p : t.b) { a.push_back(s.var[p.first]); b.set |= 1u << p.first; int v = p.second; if (t.pairs) a.push_back(v == 9 ? Cal_BddOne(s.m) : v >= 3 ? fn[v - 3] : s.var[v]); b.val[p.first] = v < 0 || v == 9 ? full(3) : v >= 3 ? ft[v - 3] : VARTT[v] & full(3); }
    a.push_back(nullptr); return {b, a};
  }
  void release() { for (auto &h : fn) if (h) { s.free(h); h = nullptr; } mc::op("functions released"); }
  void exact(const char *w) { std::vector<TT> e = A.held(); for (int k = 0; k < 2; k++) if (fn[k]) e.push_back(ft[k]); unsigned long g = s.gc(), x = s.expectedNodes(e); MC_CHECK(g == x, "%s: %lu nodes after collection, %lu needed by live BDDs and associations", w, g, x); }
};
static void event(World &W, int e) {   // 0.. templates registered, then templates temporary, augment, others
  int T = (int)mc::P("templates", 9); auto &A = W.A; auto &s = W.s;
  if (e < T) { auto p = W.make(TM[e]); A.init(p.first, p.second, TM[e].pairs); W.release(); return; } e -= T;
  if (e < T) { auto p = W.make(TM[e]); mc::op("TempAssociationInit(template %d)", e); Cal_TempAssociationInit(s.m, p.second.data(), TM[e].pairs); A.temp = p.first; W.release(); return; } e -= T;
  if (e < 5) { int k = e < 4 ? e : 5; auto p = W.make(TM[k]); mc::op("TempAssociationAugment(template %d)", k); Cal_TempAssociationAugment(s.m, p.second.data(), TM[k].pairs); for (int v = 0; v < 3; v++) if (p.first.set >> v & 1) { A.temp.set |= 1u << v; A.temp.val[v] = p.first.val[v]; } if (e & 1) W.release(); return; } e -= 5;
  switch (e) {
    case 0: mc::op("TempAssociationQuit"); Cal_TempAssociationQuit(s.m); A.temp.set = 0; return;
    case 1: { if (A.reg.empty()) throw mc::Prune(); int k = mc::choose((int)A.reg.size()); auto it = A.reg.begin(); std::advance(it, k); A.quit(it->first); return; }
    case 2: { int k = mc::choose((int)A.reg.size() + 1); if (k == 0) A.setCurrent(-1); else { auto it = A.reg.begin(); std::advance(it, k - 1); A.setCurrent(it->first); } return; }
    case 3: { int old = Cal_AssociationSetCurrent(s.m, 77); mc::op("SetCurrent(77)"); MC_CHECK(old == A.cur, "Cal_AssociationSetCurrent(77) = %d, expected %d", old, A.cur); A.cur = -1; return; }
    case 4: W.exact("collection"); return;
    case 5: case 6: case 7: case 8: Cal_BddDynamicReordering(s.m, e & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, e & 2 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); mc::op("reorder %d", e - 5); Cal_BddReorder(s.m); s.orderChanged("reorder"); return;
    case 9: s.newDummy(Sys::FIRST); return; case 10: s.newDummy(Sys::AFTER, 1); return;
    case 11: { Cal_BddManagerSetParameters(s.m, 0, -1, 2.0, 1.0); s.gc(); mc::op("collection with repacking"); return; }
    case 12: { Cal_Bdd nv = Cal_BddNot(s.m, s.var[0]); Cal_Bdd a[] = {nv, s.var[1], nullptr}; int id = Cal_AssociationInit(s.m, a, 1); MC_CHECK(id == -1, "an association for something that is not a variable was accepted"); Cal_TempAssociationAugment(s.m, a, 1); s.free(nv); return; }
    case 13: Cal_AssociationQuit(s.m, 55); mc::op("AssociationQuit(55)"); return;
  }
}
static const int OTHER = 14;
MC_SCENARIO(histories) {
  static const std::vector<int> ps[] = {{0, 1, 2}, {2, 0, 1}}; int o = mc::choose((int)mc::P("orders", 1)), which = mc::P("probe", 0) ? (int)mc::P("probe", 7) : 7; World W(ps[o]); int depth = (int)mc::P("depth", 3), T = (int)mc::P("templates", 9);
  auto &s = W.s; auto &A = W.A;
  for (int d = 0; d < depth; d++) {
    event(W, mc::choose(2 * T + 5 + OTHER)); A.probe(s.slot[0].t, s.slot[0].h, s.slot[1].t, s.slot[1].h, which);
    if (mc::P("all", 1)) { int keep = A.cur; for (auto &x : A.reg) { A.setCurrent(x.first); A.probe(s.slot[0].t, s.slot[0].h, s.slot[1].t, s.slot[1].h, d & 1 ? 3 : 7); } A.setCurrent(-1); A.probe(s.slot[0].t, s.slot[0].h, s.slot[1].t, s.slot[1].h, d & 1 ? 7 : 1); A.setCurrent(keep); }
    s.checkLive("history"); uint64_t h = s.hash(); for (auto &x : A.reg) h = mc::mix(h, x.first * 64 + x.second.first.set * 8 + x.second.second); h = mc::mix(h, A.temp.set * 16 + A.cur); mc::state(h);
  }
  W.exact("end"); while (!A.reg.empty()) A.quit(A.reg.begin()->first); Cal_TempAssociationQuit(s.m); A.temp.set = 0; W.release(); W.exact("all associations quit"); s.quit();
}
// an association changed between two uses of the same operation: every ordered pair of descriptions, each as registered or temporary
MC_SCENARIO(swap) {
  int i = mc::choose((int)TM.size()), j = mc::choose((int)TM.size()), ri = mc::choose(2), rj = mc::choose(2), mid = mc::choose(6); mc::shardHere(); static auto ps = perms(3);
  for (int o = 0; o < 6; o++) {
    World W(ps[o]); auto &s = W.s; auto &A = W.A; Sys &S = s; std::vector<std::pair<TT, Cal_Bdd>> F; for (TT t = 1; t < 256; t += 23) F.push_back({t, S.build(t)}); for (auto &x : F) s.add(x.second, x.first);
    auto use = [&](int k, int r) { auto p = W.make(TM[k]); if (r) { int id = A.init(p.first, p.second, TM[k].pairs); A.setCurrent(id); } else { Cal_TempAssociationInit(s.m, p.second.data(), TM[k].pairs); A.temp = p.first; A.setCurrent(-1); } W.release(); for (size_t x = 0; x < F.size(); x++) A.probe(F[x].first, F[x].second, F[(x + 3) % F.size()].first, F[(x + 3) % F.size()].second, 7); };
    use(i, ri); if (mid == 1) s.gc(); if (mid == 2 && !A.reg.empty()) A.quit(A.reg.begin()->first); if (mid == 3) { Cal_TempAssociationQuit(s.m); A.temp.set = 0; } if (mid == 4) { Cal_BddDynamicReordering(s.m, CAL_REORDER_SIFT, o & 1 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); } if (mid == 5) { s.newDummy(Sys::BEFORE, o % 3); }
    use(j, rj); use(i, ri); while (!A.reg.empty()) A.quit(A.reg.begin()->first); Cal_TempAssociationQuit(s.m); A.temp.set = 0; W.exact("swap"); s.quit();
  }
}
// many associations at once: identifiers stay distinct and usable, whatever number exists, in every order of release
MC_SCENARIO(many) {
  int V = (int)mc::P("vars", 9), N = (int)mc::P("count", 300), rel = mc::choose(4), op = mc::choose(3); mc::shardHere(); Sys s; s.init(); std::vector<Cal_Bdd> v; for (int i = 0; i < V; i++) { v.push_back(Cal_BddManagerCreateNewVarLast(s.m)); }
  // sets number k over V variables; f = parity of all variables distinguishes nothing, so use the conjunction
  Cal_Bdd f = Cal_BddOne(s.m); for (auto x : v) { Cal_Bdd g = Cal_BddAnd(s.m, f, x); s.free(f); f = g; }
  std::vector<int> id(N + 1, -1); std::set<int> used; auto setOf = [&](int k) { std::vector<Cal_Bdd> a; for (int i = 0; i < V; i++) if (k >> i & 1) a.push_back(v[i]); a.push_back(nullptr); return a; };
  for (int k = 1; k <= N; k++) { auto a = setOf(k); id[k] = Cal_AssociationInit(s.m, a.data(), 0); MC_CHECK(id[k] >= 0 && used.insert(id[k]).second, "association %d got the id %d of another", k, id[k]); mc::ops(1); }
  auto probe = [&](int k) { Cal_AssociationSetCurrent(s.m, id[k]); Cal_Bdd r = op == 0 ? Cal_BddExists(s.m, f) : op == 1 ? Cal_BddRelProd(s.m, f, f) : Cal_BddRelProd(s.m, f, Cal_BddOne(s.m)); unsigned got = 0; Cal_Bdd sup[32]; Cal_BddSupport(s.m, r, sup); for (int i = 0; sup[i]; i++) { got |= 1u << (Cal_BddGetIfId(s.m, sup[i]) - 1); s.free(sup[i]); } mc::ops(3); MC_CHECK(got == (((1u << V) - 1) & ~(unsigned)k), "quantifying over set %x under association %d (op %d) leaves support %x", k, id[k], op, got); s.free(r);
    r = op == 0 ? Cal_BddRelProd(s.m, f, v[0]) : Cal_BddExists(s.m, f); Cal_BddSupport(s.m, r, sup); got = 0; for (int i = 0; sup[i]; i++) { got |= 1u << (Cal_BddGetIfId(s.m, sup[i]) - 1); s.free(sup[i]); } MC_CHECK(got == (((1u << V) - 1) & ~(unsigned)k), "quantifying (2) over set %x under association %d leaves support %x", k, id[k], got); s.free(r); };
  for (int k = 1; k <= N; k++) probe(k); for (int k = N; k >= 1; k--) probe(k);
  for (int k = 1; k <= N; k++) { bool q = rel == 0 ? k % 2 : rel == 1 ? k <= N / 2 : rel == 2 ? k > N / 3 : k % 7 == 3; if (q) { Cal_AssociationQuit(s.m, id[k]); used.erase(id[k]); id[k] = -1; } }
  for (int k = 1; k <= N; k++) if (id[k] >= 0 && k % 3 == 0) probe(k);
  for (int k = N; k >= 1; k--) if (id[k] < 0) { auto a = setOf(k); id[k] = Cal_AssociationInit(s.m, a.data(), 0); MC_CHECK(id[k] >= 0 && used.insert(id[k]).second, "association %d got the id %d of another", k, id[k]); probe(k); }
  for (int k = 1; k <= N; k++) { auto a = setOf(k); int i = Cal_AssociationInit(s.m, a.data(), 0); MC_CHECK(i == id[k], "an equal association got id %d instead of %d", i, id[k]); Cal_AssociationQuit(s.m, i); } s.gc();
  for (int k = 1; k <= N; k += 1 + N / 500) probe(k); s.quit();
}
// so many associations that their identifiers reach beyond a small integer: results cached for one must not be taken for another's
MC_SCENARIO(very_many) {
  int N = (int)mc::P("count", 16400), V = 15, first = mc::choose(2); mc::shardHere(); Sys s; s.init(); std::vector<Cal_Bdd> v; for (int i = 0; i < V; i++) v.push_back(Cal_BddManagerCreateNewVarLast(s.m)); for (int i = 0; i < 6; i++) idBit[i + 1] = (signed char)i; s.n = 6;
  Cal_Bdd p[] = {v[0], v[1], v[1], v[2], nullptr}; int id0 = Cal_AssociationInit(s.m, p, 1); std::vector<Cal_Bdd> fs; std::vector<TT> ts; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { if (i == j) continue; Cal_Bdd x = i & 1 ? Cal_BddXor(s.m, v[i], v[j]) : Cal_BddAnd(s.m, v[i], v[j]); fs.push_back(x); ts.push_back(i & 1 ? VARTT[i] ^ VARTT[j] : VARTT[i] & VARTT[j]); }
  std::vector<std::pair<int, unsigned>> probe; TT sub[6] = {VARTT[1], VARTT[2], VARTT[2], VARTT[3], VARTT[4], VARTT[5]};
  auto vs = [&] { Cal_AssociationSetCurrent(s.m, id0); for (size_t k = 0; k < fs.size(); k++) { Cal_Bdd r = Cal_BddVarSubstitute(s.m, fs[k]); s.expect(r, substTT(ts[k], sub, 6), "VarSubstitute"); s.free(r); r = Cal_BddExists(s.m, fs[k]); s.expect(r, exists(ts[k], 3), "Exists under association 0"); s.free(r); r = Cal_BddRelProd(s.m, fs[k], fs[(k + 1) % fs.size()]); s.expect(r, exists(ts[k] & ts[(k + 1) % fs.size()], 3), "RelProd under association 0"); s.free(r); } mc::ops(3 * (long)fs.size()); };
  auto ex = [&](int id, unsigned k) { Cal_AssociationSetCurrent(s.m, id); for (size_t x = 0; x < fs.size(); x++) { Cal_Bdd r = Cal_BddExists(s.m, fs[x]); s.expect(r, exists(ts[x], k & 63), "Exists under a high association"); s.free(r); r = Cal_BddRelProd(s.m, fs[x], fs[(x + 1) % fs.size()]); s.expect(r, exists(ts[x] & ts[(x + 1) % fs.size()], k & 63), "RelProd under a high association"); s.free(r); } mc::ops(2 * (long)fs.size()); };
  for (int k = 1; k <= N; k++) { std::vector<Cal_Bdd> a; for (int i = 0; i < V; i++) if (k >> i & 1) a.push_back(v[i]); a.push_back(nullptr); int id = Cal_AssociationInit(s.m, a.data(), 0); mc::ops(1); MC_CHECK(id >= 0 && id != id0, "association id %d", id);
    if (id % 1024 < 4 || k == N) { if (first == 0) { vs(); ex(id, k); } else { ex(id, k); vs(); } } }
  s.quit();
}
// two associations that agree on every variable but one, in managers of every size around the capacities: they stay apart, each means what
// it says, and asking for either again finds it
MC_SCENARIO(near_equal) {
  static const int Ns[] = {2, 3, 5, 29, 30, 31, 32, 59, 60, 61, 119, 120, 121, 239, 240, 241}; int N = Ns[mc::choose(16)], kp = mc::choose(5), kind = mc::choose(5), late = mc::choose(3), rev = mc::choose(2); mc::shardHere();
  int k = kp == 0 ? 1 : kp == 1 ? 2 : kp == 2 ? (N + 1) / 2 : kp == 3 ? N - 1 : N, j = k == 1 ? 2 : 1, l = N > 2 ? (k == 3 || j == 3 ? (N > 3 ? N == k ? N - 1 : N : 0) : 3) : 0; if (l == k || l == j) l = 0; if (kind == 2 && !l) throw mc::Prune();
  Sys s; s.init(); std::vector<Cal_Bdd> v(1, nullptr); auto upTo = [&](int n) { while ((int)v.size() <= n) v.push_back((v.size() & 3) == 2 ? Cal_BddManagerCreateNewVarFirst(s.m) : Cal_BddManagerCreateNewVarLast(s.m)); };
  upTo(late ? std::max(std::max(j, l), N - 3) : N); if (late == 1 && k > (int)v.size() - 1 && kind != 1 && kind != 0) throw mc::Prune();
  auto mk = [&](bool second) { std::vector<Cal_Bdd> a; std::vector<Cal_Bdd> tmp; int have = (int)v.size() - 1;
    if (kind == 0) { for (int i = 1; i <= have; i++) if (second || i != k) a.push_back(v[i]); }
    else if (kind == 1) { if (j <= have) a.push_back(v[j]); if (second) a.push_back(v[k]); }
    else { a.push_back(v[j]); a.push_back(v[k]); a.push_back(v[k]); Cal_Bdd x = kind == 2 ? Cal_BddIdentity(s.m, second ? v[l] : v[j]) : kind == 3 ? (second ? Cal_BddNot(s.m, v[j]) : Cal_BddIdentity(s.m, v[j])) : (second ? Cal_BddAnd(s.m, v[j], v[k]) : Cal_BddOr(s.m, v[j], v[k])); a.push_back(x); tmp.push_back(x); }
    a.push_back(nullptr); int id = Cal_AssociationInit(s.m, a.data(), kind >= 2); for (auto x : tmp) s.free(x); MC_CHECK(id >= 0, "AssociationInit"); mc::ops(1); return id; };
  int id0 = -1, id1 = -1;
  if (late == 1) { if (kind >= 2) { id0 = mk(false); upTo(N); id1 = mk(true); } else { if (kind == 0 && k < N) throw mc::Prune(); if (kind == 1 && j > (int)v.size() - 1) throw mc::Prune(); if (kind == 0) { upTo(N - 1); } id0 = mk(false); upTo(N); id1 = mk(true); } }
  else { upTo(N); if (rev) { id1 = mk(true); id0 = mk(false); } else { id0 = mk(false); id1 = mk(true); } }
  MC_CHECK(id0 != id1, "%d variables: associations that differ only in variable %d got one id %d", N, k, id0);
  if (late != 1) { int x = mk(false), y = mk(true); MC_CHECK(x == id0 && y == id1, "%d variables: equal associations got ids %d and %d instead of %d and %d", N, x, y, id0, id1); Cal_AssociationQuit(s.m, x); Cal_AssociationQuit(s.m, y); }
  Cal_Bdd xk = v[k], xj = v[j], f = Cal_BddAnd(s.m, xj, xk), nj = Cal_BddNot(s.m, xj), g = Cal_BddAnd(s.m, xk, nj); s.free(nj);
  auto use = [&](bool second) { int id = second ? id1 : id0; Cal_AssociationSetCurrent(s.m, id);
    auto is = [&](Cal_Bdd r, Cal_Bdd w, const char *what) { MC_CHECK(r == w, "%d variables, kind %d, variable %d, %s association: %s is wrong", N, kind, k, second ? "second" : "first", what); s.free(r); s.free(w); mc::ops(2); };
    if (kind <= 1) { Cal_Bdd one = Cal_BddOne(s.m); is(Cal_BddExists(s.m, f), second ? one : Cal_BddIdentity(s.m, xk), "Exists"); is(Cal_BddForAll(s.m, g), second ? Cal_BddZero(s.m) : Cal_BddZero(s.m), "ForAll"); is(Cal_BddRelProd(s.m, f, xk), second ? one : Cal_BddIdentity(s.m, xk), "RelProd"); is(Cal_BddRelProd(s.m, g, f), Cal_BddZero(s.m), "RelProd of disjoint operands"); }
    else { // simultaneous x_j -> x_k, x_k -> c
      Cal_Bdd c = kind == 2 ? Cal_BddIdentity(s.m, second ? v[l] : xj) : kind == 3 ? (second ? Cal_BddNot(s.m, xj) : Cal_BddIdentity(s.m, xj)) : (second ? Cal_BddAnd(s.m, xj, xk) : Cal_BddOr(s.m, xj, xk)); Cal_Bdd nk = Cal_BddNot(s.m, xk);
      is(Cal_BddSubstitute(s.m, f), Cal_BddAnd(s.m, xk, c), "Substitute"); is(Cal_BddSubstitute(s.m, g), Cal_BddAnd(s.m, c, nk), "Substitute"); is(Cal_BddSubstitute(s.m, xk), Cal_BddIdentity(s.m, c), "Substitute of the variable"); if (kind <= 2) { is(Cal_BddVarSubstitute(s.m, f), Cal_BddAnd(s.m, xk, c), "VarSubstitute"); is(Cal_BddVarSubstitute(s.m, g), Cal_BddAnd(s.m, c, nk), "VarSubstitute"); } s.free(c); s.free(nk); } };
  use(rev); use(!rev); use(rev); if (rev) s.gc(); Cal_AssociationQuit(s.m, id0); Cal_AssociationSetCurrent(s.m, id1); use(true); int again = mk(false); MC_CHECK(again != id1, "an association equal to a released one got the id of another"); id0 = again; use(false); use(true); Cal_AssociationQuit(s.m, id1); use(false); Cal_AssociationQuit(s.m, id0);
  s.free(f); s.free(g); unsigned long n = s.gc(); MC_CHECK(n == (unsigned long)N + 1, "%lu nodes left of %d variables", n, N); mc::state(mc::mix(mc::mix(N, k), mc::mix(kind, late * 2 + rev))); s.quit();
}
// reference counts: an association initialised k times lives until quit k times; current while others release it
MC_SCENARIO(counts) {
  int k = 1 + mc::choose(6), fin = mc::choose(2), t = mc::choose((int)TM.size()), gcs = mc::choose(2); World W({1, 2, 0}); auto &s = W.s; auto &A = W.A; int id = -1;
  for (int i = 0; i < k; i++) { auto p = W.make(TM[t]); int x = A.init(p.first, p.second, TM[t].pairs); MC_CHECK(id < 0 || id == x, "id changed"); id = x; } W.release(); auto other = W.make(TM[(t + 3) % 6]); int oid = A.init(other.first, other.second, TM[(t + 3) % 6].pairs); W.release();
  for (int i = 0; i < k; i++) { A.setCurrent(id); A.probe(s.slot[0].t, s.slot[0].h, s.slot[1].t, s.slot[1].h, 7); A.quit(id); if (gcs) W.exact("quit once"); if (A.reg.count(oid)) { A.setCurrent(oid); A.probe(s.slot[0].t, s.slot[0].h, s.slot[1].t, s.slot[1].h, 7); } }
  if (A.reg.count(oid) && fin) A.quit(oid); W.exact("all quit"); int now = Cal_AssociationSetCurrent(s.m, -1); MC_CHECK(now == A.cur, "current is %d, expected %d", now, A.cur); s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

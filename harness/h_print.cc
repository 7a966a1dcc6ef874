// Printed BDDs, functions and profiles (C20): the text is parsed and compared with the function and with the queries.
#include "fixtures.hh"
#include "capture.hh"
// ---- names
struct Names { int vars, terms; std::vector<std::string> v; std::string one = "1", zero = "0"; CalAddress_t val[2][2]; int calls = 0; bool bad = false; };
static Names *NM; static int nameTag; static Sys *NS;
static char *nameFn(Cal_BddManager m, Cal_Bdd f, Cal_Pointer_t env) {
  Names *N = (Names *)env; N->calls++; if (N != NM || m != NS->m || Cal_BddType(m, f) != CAL_BDD_TYPE_POSVAR) { N->bad = true; return 0; }
  int i = (int)Cal_BddGetIfIndex(m, f); if (N->vars == 2 && i % 2) return 0; return (char *)N->v[i].c_str();
}
static char *termFn(Cal_BddManager m, Cal_Address_t a, Cal_Address_t b, Cal_Pointer_t env) {
  Names *N = (Names *)env; N->calls++; if (N != NM || m != NS->m) { N->bad = true; return 0; }
  bool one = (CalAddress_t)a == N->val[1][0] && (CalAddress_t)b == N->val[1][1]; if (!one && ((CalAddress_t)a != N->val[0][0] || (CalAddress_t)b != N->val[0][1])) { N->bad = true; return 0; }
  if (N->terms == 2 && one) return 0; return (char *)(one ? "yes" : "no");
}
static char *recFn(Cal_BddManager, Cal_Address_t a, Cal_Address_t b, Cal_Pointer_t env) { CalAddress_t *p = (CalAddress_t *)env; p[0] = (CalAddress_t)a; p[1] = (CalAddress_t)b; return 0; }
// vars: 0 no function, 1 all named, 2 every second named; terms likewise (2: only zero is named)
static void setNames(Sys &s, Names &N, int vars, int terms) {
  N.vars = vars; N.terms = terms; NM = &N; NS = &s; N.v.clear(); int tot = s.nvars(); static const char *base[] = {"x", "clk", "a_rather_long_variable_name_", "[9]", "A"};
  for (int i = 0; i < tot; i++) N.v.push_back(vars == 0 || (vars == 2 && i % 2) ? "var." + std::to_string(i) : base[i % 5] + std::to_string(i));
  N.one = terms == 1 ? "yes" : "1"; N.zero = terms ? "no" : "0";
  for (int b = 0; b < 2; b++) { Cal_Bdd c = b ? Cal_BddOne(s.m) : Cal_BddZero(s.m); textOf([&](FILE *fp) { Cal_BddPrintBdd(s.m, c, Cal_BddNamingFnNone, recFn, (Cal_Pointer_t)N.val[b], fp); }); }
  MC_CHECK(N.val[0][0] != N.val[1][0] || N.val[0][1] != N.val[1][1], "the terminals have the same values");
}
// ---- decision diagram in text form -> nodes (index, then, else); functions over indices
struct Dag { struct Nd { int idx, t, e; }; std::vector<Nd> n{{-1, 0, 0}, {-1, 1, 1}}; int nodeCount = 0; std::map<std::array<int, 3>, int> u;   // 0 and 1 are the terminals; complement needs its own nodes
  int mk(int i, int t, int e) { if (t == e) return t; auto it = u.find({i, t, e}); if (it != u.end()) return it->second; n.push_back({i, t, e}); return u[{i, t, e}] = (int)n.size() - 1; }
  std::map<int, int> cm; int inv(int x) { if (x < 2) return !x; auto it = cm.find(x); if (it != cm.end()) return it->second; int r = mk(n[x].idx, inv(n[x].t), inv(n[x].e)); cm[x] = r; cm[r] = x; return r; }
  bool eval(int x, const std::vector<char> &a) const { while (x > 1) x = a[n[x].idx] ? n[x].t : n[x].e; return x; } };
struct Parser {
  std::vector<std::string> L; size_t p = 0; Dag &D; const Names &N; std::map<std::string, int> byName; std::map<int, int> sub; const std::string &all; int ifs = 0; std::set<int> used;
  Parser(const std::string &t, Dag &d, const Names &n) : D(d), N(n), all(t) { size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); MC_CHECK(e != std::string::npos, "last line not ended:\n%s", t.c_str()); size_t b = t.find_first_not_of(' ', i); L.push_back(t.substr(b, e - b)); i = e + 1; } for (size_t k = 0; k < N.v.size(); k++) byName[N.v[k]] = (int)k; }
  [[noreturn]] void bad(const char *w) { mc::fail("printed BDD: %s in line %zu of:\n%s", w, p, all.c_str()); abort(); }
  int var(const std::string &s) { auto it = byName.find(s); if (it == byName.end()) bad("unknown variable name"); return it->second; }
  int parse() {
    if (p >= L.size()) bad("text ends early"); std::string s = L[p++]; int label = -1;
    if (!s.empty() && isdigit(s[0])) { size_t k = 0; while (k < s.size() && isdigit(s[k])) k++; if (k + 1 < s.size() && s[k] == ':' && s[k + 1] == ' ') { label = atoi(s.c_str()); s = s.substr(k + 2); if (s.compare(0, 3, "if ")) bad("label without a node"); } }
    if (s == N.one) return 1; if (s == N.zero) return 0; bool neg = false; if (s[0] == '!') { neg = true; s = s.substr(1); }
    if (!s.compare(0, 11, "subformula ")) { int k = atoi(s.c_str() + 11); auto it = sub.find(k); if (it == sub.end()) bad("undefined subformula"); used.insert(k); return neg ? D.inv(it->second) : it->second; }
    if (!s.compare(0, 3, "if ")) { if (neg) bad("negated node"); ifs++; std::string v = s.substr(3); int i = var(v), t = parse(); if (p >= L.size() || L[p++] != "else if !" + v) bad("no else part"); int e = parse(); if (p >= L.size() || L[p++] != "endif " + v) bad("no endif"); int r = D.mk(i, t, e); if (label >= 0) { if (sub.count(label)) bad("label defined twice"); sub[label] = r; } return r; }
    int i = var(s); return neg ? D.mk(i, 0, 1) : D.mk(i, 1, 0);
  }
  int top() { int r = parse(); if (p != L.size()) bad("text after the end"); for (auto &x : sub) if (!used.count(x.first)) bad("label that is never used"); return r; }
};
// number of nonterminal, non-literal nodes up to complement, that a diagram printing shared nodes once must have
static int formula(const std::string &t, size_t &p, Dag &D, const std::vector<int> &idx) {   // ( 0 ) | ( 1 ) | ( x F + x' F )
  auto eat = [&](const char *w) { while (p < t.size() && isspace((unsigned char)t[p])) p++; size_t n = strlen(w); if (t.compare(p, n, w)) mc::fail("printed function: expected %s at %zu of %s", w, p, t.c_str()); p += n; };
  auto peek = [&] { while (p < t.size() && isspace((unsigned char)t[p])) p++; return p < t.size() ? t[p] : 0; };
  eat("("); char c = peek(); int r; if (c == '0' || c == '1') { p++; r = c - '0'; } else { int k = c - 'a'; if (k < 0 || k >= (int)idx.size()) mc::fail("printed function: unknown variable %c in %s", c, t.c_str()); p++; int a = formula(t, p, D, idx); eat("+"); char q[] = {c, '\'', 0}; eat(q); int b = formula(t, p, D, idx); r = D.mk(idx[k], a, b); } eat(")"); return r;
}
struct Ctx { Sys &s; std::vector<int> pos, dpos;
  Ctx(Sys &s_) : s(s_) { for (int v = 0; v < s.n; v++) pos.push_back(Cal_BddGetIfIndex(s.m, s.var[v])); }
  TT tt(const Dag &D, int x) { std::vector<char> a(s.nvars(), 0); TT r = 0; for (int i = 0; i < 1 << s.n; i++) { for (int v = 0; v < s.n; v++) a[pos[v]] = i >> v & 1; r |= (TT)D.eval(x, a) << i; } return r; } };
static void printOne(Ctx &C, Cal_Bdd h, TT t, Names &N) {
  mc::ops(1); NM = &N; NS = &C.s; N.bad = false; std::string txt = textOf([&](FILE *fp) { Cal_BddPrintBdd(C.s.m, h, N.vars ? nameFn : Cal_BddNamingFnNone, N.terms ? termFn : Cal_BddTerminalIdFnNone, (Cal_Pointer_t)&N, fp); });
  MC_CHECK(!N.bad, "a naming function got a wrong argument"); Dag D; Parser P(txt, D, N); TT e = C.tt(D, P.top()); MC_CHECK(e == t, "the text printed for %s denotes %s:\n%s", hx(t), hx(e), txt.c_str());
  std::set<TT> sh; std::function<void(TT)> go = [&](TT f) { if (f & 1) f = ~f & full(C.s.n); if (!f) return; int v = -1; for (int x : C.s.order) if (depends(f, x)) { v = x; break; } TT a = cof(f, v, 1), b = cof(f, v, 0); if ((!a || a == full(C.s.n)) && (!b || b == full(C.s.n))) return; if (!sh.insert(f).second) return; go(a); go(b); }; go(t); MC_CHECK(P.ifs == (int)sh.size(), "the text printed for %s has %d nodes instead of %zu:\n%s", hx(t), P.ifs, sh.size(), txt.c_str());
}
static void printFn(Ctx &C, const std::vector<int> &idx, Cal_Bdd h, TT t, const char *name) {
  mc::ops(1); std::string txt = stdoutOf([&] { Cal_BddFunctionPrint(C.s.m, h, (char *)name); }), pre = std::string(name) + " = "; MC_CHECK(txt.compare(0, pre.size(), pre) == 0 && txt.back() == '\n', "printed function: %s", txt.c_str()); size_t p = pre.size(); Dag D; TT e = C.tt(D, formula(txt, p, D, idx)); MC_CHECK(e == t, "the function printed for %s denotes %s: %s", hx(t), hx(e), txt.c_str()); while (p < txt.size() && isspace((unsigned char)txt[p])) p++; MC_CHECK(p == txt.size(), "text after the function: %s", txt.c_str());
}
static std::vector<int> byId(Sys &s) { std::vector<int> r; for (int i = 1; i <= s.nvars() && i <= 26; i++) { Cal_Bdd v = Cal_BddManagerGetVarWithId(s.m, i); r.push_back(Cal_BddGetIfIndex(s.m, v)); Cal_BddFree(s.m, v); } return r; }
static AllFn &all3(int o, int dm) { static auto ps = perms(3); return fixture<AllFn>(o * 5 + dm, [&] { return new AllFn(3, [&](Sys &s) { s.initOrder(ps[o]); if (dm) { s.newDummy(Sys::FIRST); s.newDummy(Sys::AFTER, 1); } if (dm >= 2) { s.newDummy(Sys::LAST); s.newDummy(Sys::BEFORE, 2); } if (dm == 3) for (int i = 0; i < 6; i++) s.newDummy(Sys::FIRST); }); }); }
MC_SCENARIO(print3) {
  int o = mc::choose(6), dm = mc::choose(4), nv = mc::choose(3), nt = mc::choose(3); mc::shardHere(); AllFn &A = all3(o, dm); Ctx C(A.s); Names N; setNames(A.s, N, nv, nt); auto idx = byId(A.s);
  for (TT t = 0; t < 256; t++) { printOne(C, A.f[t], t, N); if (!nt) printFn(C, idx, A.f[t], t, nv ? "f" : "some function"); } A.checkIntact("printing");
}
MC_SCENARIO(print4) {
  static auto ps = perms(4); int o = mc::choose((int)mc::P("orders", 1)), blk = mc::choose(16); mc::shardHere(); AllFn &A = fixture<AllFn>(1000 + o, [&] { return new AllFn(4, ps[(o * 7 + 5) % 24]); }); Ctx C(A.s); Names N; setNames(A.s, N, blk % 3, blk / 3 % 3); auto idx = byId(A.s);
  for (TT t = blk * 4096; t < (TT)(blk + 1) * 4096; t++) { printOne(C, A.f[t], t, N); if (t % 16 == 3) printFn(C, idx, A.f[t], t, "F"); } if (blk % 8 == 0) A.checkIntact("printing");
}
// ---- profiles
struct Prof { std::vector<std::pair<std::string, long>> lines; long leaf = -1, total = -1; };
static Prof parseProfile(const std::string &t, int lineLength) {
  Prof P; size_t i = 0; std::vector<std::pair<long, long>> h; size_t col = 0; bool first = true; size_t len = 0; long mx = 0, used = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); MC_CHECK(e != std::string::npos, "last line not ended:\n%s", t.c_str()); std::string l = t.substr(i, e - i); i = e + 1; MC_CHECK(P.total < 0, "text after the total:\n%s", t.c_str());
    if (!l.compare(0, 7, "Total: ")) { P.total = atol(l.c_str() + 7); continue; } size_t c = l.find(':'); MC_CHECK(c != std::string::npos && P.leaf < 0, "bad profile line '%s'", l.c_str()); char *end; long n = strtol(l.c_str() + c + 1, &end, 10); size_t q = end - l.c_str(); MC_CHECK(q < l.size() && l[q] == ' ', "bad profile line '%s'", l.c_str()); q++; for (size_t k = q; k < l.size(); k++) MC_CHECK(l[k] == '#', "bad profile line '%s'", l.c_str());
    MC_CHECK(first || col == q, "the columns of a profile are not aligned:\n%s", t.c_str()); col = q; first = false; len = std::max(len, l.size()); h.push_back({n, (long)(l.size() - q)}); mx = std::max(mx, n); used = std::max(used, (long)(l.size() - q)); if (l.substr(0, c) == "leaf") P.leaf = n; else P.lines.push_back({l.substr(0, c), n}); }
  MC_CHECK(P.total >= 0 && P.leaf >= 0, "incomplete profile:\n%s", t.c_str()); bool ok = false; for (long sc = 1; sc <= mx + 1 && !ok; sc++) { ok = true; for (auto &x : h) if (x.first / sc != x.second) { ok = false; break; } } MC_CHECK(ok, "the bars of a profile are not to scale:\n%s", t.c_str()); MC_CHECK((long)len <= lineLength || used <= 20, "a profile line has %zu characters for a line length of %d:\n%s", len, lineLength, t.c_str()); return P;
}
static void profOne(Sys &s, int kind, const std::vector<Cal_Bdd> &h, Names &N, int len) {
  mc::ops(1); NM = &N; NS = &s; N.bad = false; auto a = h; a.push_back(nullptr); auto m = s.m; Cal_VarNamingFn_t fn = N.vars ? nameFn : Cal_BddNamingFnNone; char *env = (char *)&N; std::vector<long> q(s.nvars() + 1, 0);
  switch (kind) { case 0: Cal_BddProfile(m, h[0], q.data(), 1); break; case 1: Cal_BddProfileMultiple(m, a.data(), q.data(), 1); break; case 2: Cal_BddFunctionProfile(m, h[0], q.data()); break; default: Cal_BddFunctionProfileMultiple(m, a.data(), q.data()); }
  std::string t = textOf([&](FILE *fp) { switch (kind) { case 0: Cal_BddPrintProfile(m, h[0], fn, env, len, fp); break; case 1: Cal_BddPrintProfileMultiple(m, a.data(), fn, env, len, fp); break; case 2: Cal_BddPrintFunctionProfile(m, h[0], fn, env, len, fp); break; default: Cal_BddPrintFunctionProfileMultiple(m, a.data(), fn, env, len, fp); } });
  MC_CHECK(!N.bad, "a naming function got a wrong argument"); Prof P = parseProfile(t, len); long tot = 0; size_t k = 0; for (int i = 0; i < s.nvars(); i++) { tot += q[i]; if (!q[i]) continue; MC_CHECK(k < P.lines.size() && P.lines[k].first == N.v[i] && P.lines[k].second == q[i], "profile (kind %d): level %d has %ld, printed\n%s", kind, i, q[i], t.c_str()); k++; }
  MC_CHECK(k == P.lines.size() && P.leaf == q[s.nvars()] && P.total == tot + P.leaf, "profile (kind %d): leaf %ld, total %ld, printed\n%s", kind, q[s.nvars()], tot + q[s.nvars()], t.c_str());
}
MC_SCENARIO(profile3) {
  int o = mc::choose(6), dm = mc::choose(4), nv = mc::choose(3), kind = mc::choose(4); mc::shardHere(); AllFn &A = all3(o, dm); Names N; setNames(A.s, N, nv, 0); static const int LEN[] = {0, 1, 20, 24, 25, 30, 60, 80, 200};
  for (TT t = 0; t < 256; t++) { TT u = (t * 37 + 11) & 255, w = (t * 101) & 255; std::vector<Cal_Bdd> h = {A.f[t]}; if (kind & 1) { if (t % 3) h.push_back(A.f[u]); if (t % 5) h.push_back(A.f[w]); if (t % 7 == 0) h.push_back(A.f[t ^ 255]); } profOne(A.s, kind, h, N, LEN[t % 9]); } A.checkIntact("printing profiles");
}
MC_SCENARIO(large) {
  int f = mc::choose(24), nv = mc::choose(2); mc::shardHere(); Big::N = (int)mc::P("bits", 10); struct BX : BigSys { std::vector<Cal_Bdd> h; std::vector<Big> b; }; BX &B = fixture<BX>(0, [] { return new BX; }); B.s.n = 0; if (B.h.empty()) for (auto &x : bigFamily()) { B.b.push_back(bigOf(x.second)); B.h.push_back(B.build(B.b.back())); } auto m = B.m();
  Sys &s = B.s; s.dummy.assign(B.v.begin(), B.v.end()); Names N; setNames(s, N, nv, nv); auto text = textOf([&](FILE *fp) { Cal_BddPrintBdd(m, B.h[f], nv ? nameFn : Cal_BddNamingFnNone, nv ? termFn : Cal_BddTerminalIdFnNone, (Cal_Pointer_t)&N, fp); }); mc::ops(1); Dag D; Parser P(text, D, N); int r = P.top(); std::vector<int> idx = byId(s);
  std::vector<char> a(s.nvars()); for (unsigned x = 0; x < 1u << Big::N; x++) { for (int i = 0; i < Big::N; i++) a[idx[i]] = x >> i & 1; MC_CHECK(D.eval(r, a) == B.b[f].get(x), "the text printed for '%s' is wrong at %x", bigFamily()[f].first, x); }
  if (f != 14 && f != 15) { std::string t = stdoutOf([&] { Cal_BddFunctionPrint(m, B.h[f], (char *)"g"); }); mc::ops(1); Dag E; size_t p = 4; int q = formula(t, p, E, idx); for (unsigned x = 0; x < 1u << Big::N; x++) { for (int i = 0; i < Big::N; i++) a[idx[i]] = x >> i & 1; MC_CHECK(E.eval(q, a) == B.b[f].get(x), "the function printed for '%s' is wrong at %x", bigFamily()[f].first, x); } }
  for (int kind = 0; kind < 4; kind++) for (int len : {0, 10, 28, 40, 60, 79, 80, 81, 132, 1000}) { std::vector<Cal_Bdd> h = {B.h[f]}; if (kind & 1) { h.push_back(B.h[(f + 5) % 24]); h.push_back(B.h[(f + 9) % 24]); } profOne(s, kind, h, N, len); }
  for (int i = 0; i < 24; i++) B.expect(B.h[i], B.b[i], "live BDD after printing"); s.dummy.clear();
}
// many variables: default and user names far into the order
MC_SCENARIO(wide) {
  auto &L = layouts3(); int l = mc::choose((int)L.size()), nv = mc::choose(3); mc::shardHere(); AllFn &A = fixture<AllFn>(l, [&] { return new AllFn(3, [&](Sys &s) { setupLayout(s, L[l]); }); }); Names N; setNames(A.s, N, nv, 0); Ctx C(A.s);
  for (TT t = 0; t < 256; t++) { printOne(C, A.f[t], t, N); profOne(A.s, t & 1 ? 0 : 2, {A.f[t]}, N, 40); profOne(A.s, t & 1 ? 3 : 1, {A.f[t], A.f[(t * 37) & 255]}, N, 60); } A.checkIntact("printing");
}
// printing between other operations and maintenance: same text before and after, nothing changes
MC_SCENARIO(mixed) {
  static auto ps = perms(3); int o = mc::choose(6), nv = mc::choose(3); static const TT FS[] = {0xe8, 0x69, 0x3a, 0xd2, 0x80}, GS[] = {0x96, 0x17, 0xcc}; TT f = FS[mc::choose(5)], g = GS[mc::choose(3)]; int mid = mc::choose(6), how = mc::choose(5); mc::shardHere(); Sys s; s.initOrder(ps[o]); if (o & 1) s.newDummy(Sys::FIRST); Cal_Bdd F = s.build(f), G = s.build(g); Names N; setNames(s, N, nv, nv); Ctx C(s);
  auto pr = [&] { switch (how) { case 0: printOne(C, F, f, N); break; case 1: printFn(C, byId(s), F, f, "q"); break; case 2: profOne(s, 0, {F}, N, 60); profOne(s, 2, {F}, N, 60); break; case 3: profOne(s, 1, {F, G}, N, 60); profOne(s, 3, {F, G, F}, N, 60); break; case 4: printOne(C, G, g, N); textOf([&](FILE *fp) { Cal_BddStats(s.m, fp); }); break; } };
  auto rc = [](Cal_Bdd h) { long c; CalBddNode_t *n = (CalBddNode_t *)((uintptr_t)h & ~15ul); CalBddNodeGetRefCount(n, c); return c; }; auto refs = [&] { std::vector<long> r; for (Cal_Bdd h : {F, G}) r.push_back(rc(h)); r.push_back(Cal_BddManagerGetNumNodes(s.m)); for (auto v : s.var) r.push_back(rc(v)); return r; };
  auto b = refs(); pr(); MC_CHECK(b == refs(), "printing changed reference counts or the number of nodes"); Cal_Bdd x = Cal_BddAnd(s.m, F, G); mc::op("And"); MC_CHECK(s.eval(x) == (f & g), "And after printing"); pr();
  if (mid == 1) s.gc(); if (mid >= 2 && mid <= 5) { Cal_BddDynamicReordering(s.m, mid & 1 ? CAL_REORDER_SIFT : CAL_REORDER_WINDOW, mid & 2 ? CAL_REORDER_METHOD_BF : CAL_REORDER_METHOD_DF); Cal_BddReorder(s.m); s.orderChanged("reorder"); C.pos = Ctx(s).pos; setNames(s, N, nv, nv); } 
  pr(); Cal_Bdd y = Cal_BddXor(s.m, x, G); MC_CHECK(s.eval(y) == ((f & g) ^ g), "Xor after printing"); Cal_BddFree(s.m, y); Cal_BddFree(s.m, x); pr(); unsigned long n = s.gc(), e = s.expectedNodes(std::vector<TT>{f, g}); MC_CHECK(n == e, "%lu nodes after printing and collecting, expected %lu", (unsigned long)n, (unsigned long)e); s.quit();
}
int main(int c, char **v) { return mc::main(c, v); }

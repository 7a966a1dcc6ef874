// Oracle for the size and profile queries.
#pragma once
#include "fixtures.hh"
#include <tuple>
// ---- oracle: the reduced ordered BDD of a set of functions under the current order
struct Rob {
  const Sys &s; std::vector<int> pos;                 // index in the manager's order of each tracked variable
  bool neg;                                           // complement edges counted as one node
  std::set<std::pair<int, TT>> nodes;                 // (variable or -1, function)
  Rob(Sys &s_, bool neg_) : s(s_), neg(neg_) { for (int v = 0; v < s.n; v++) pos.push_back(Cal_BddGetIfIndex(s.m, s.var[v])); }
  void add(TT t) {
    t &= full(s.n); int v = -1; for (int x : s.order) if (depends(t, x)) { v = x; break; }
    TT r = neg && (t & 1) ? ~t & full(s.n) : t;
    if (!nodes.insert({v, r}).second) return;
    if (v >= 0) { add(cof(t, v, 1)); add(cof(t, v, 0)); }
  }
  std::vector<long> profile() const { std::vector<long> p(s.nvars() + 1, 0); for (auto &x : nodes) p[x.first < 0 ? s.nvars() : pos[x.first]]++; return p; }
};
// number of subfunctions obtainable by fixing the variables with index < k; 0 at levels none of the functions has a node at
inline std::vector<long> funcProfile(Sys &s, const std::vector<TT> &ts) {
  std::vector<int> at(s.nvars() + 1, -1); for (int v = 0; v < s.n; v++) at[Cal_BddGetIfIndex(s.m, s.var[v])] = v;
  std::vector<long> r(s.nvars() + 1, 0); std::set<TT> cur; unsigned sup = 0;
  for (TT t : ts) { cur.insert(t & full(s.n)); sup |= supportOf(t & full(s.n), s.n); }
  for (int i = 0; i <= s.nvars(); i++) {
    r[i] = (long)cur.size(); if (i == s.nvars()) break;
    int v = at[i]; if (v < 0 || !(sup >> v & 1)) { r[i] = 0; continue; }
    std::set<TT> nx; for (TT t : cur) { nx.insert(cof(t, v, 0) & full(s.n)); nx.insert(cof(t, v, 1) & full(s.n)); } cur.swap(nx);
  }
  return r;
}
inline std::string show(const std::vector<long> &v) { std::string r; for (long x : v) r += " " + std::to_string(x); return r; }
enum { Q_SIZE, Q_SIZEM, Q_PROF, Q_PROFM, Q_FP, Q_FPM, NQ };
static const char *QN[] = {"Cal_BddSize", "Cal_BddSizeMultiple", "Cal_BddProfile", "Cal_BddProfileMultiple", "Cal_BddFunctionProfile", "Cal_BddFunctionProfileMultiple"};
inline void query(Sys &s, int q, const std::vector<Cal_Bdd> &h, const std::vector<TT> &t, int negout, bool quiet = false) {
  std::vector<Cal_Bdd> a = h; a.push_back(nullptr); int N = s.nvars();
  std::vector<long> got(N + 2, -77), want;
  if (!quiet) mc::op("%s(%zu BDDs, first %s, negout %d)", QN[q], t.size(), t.empty() ? "-" : hx(t[0]), negout); else mc::ops(1);
  Rob R(s, negout != 0); for (TT x : t) R.add(x);
  if (q == Q_SIZE || q == Q_SIZEM) {
    long g = q == Q_SIZE ? Cal_BddSize(s.m, h[0], negout) : Cal_BddSizeMultiple(s.m, a.data(), negout);
    MC_CHECK(g == (long)R.nodes.size(), "%s(%s%s, %d) = %ld, expected %zu", QN[q], t.empty() ? "-" : hx(t[0]), t.size() > 1 ? ",..." : "", negout, g, R.nodes.size()); return;
  }
  switch (q) { case Q_PROF: Cal_BddProfile(s.m, h[0], got.data(), negout); break; case Q_PROFM: Cal_BddProfileMultiple(s.m, a.data(), got.data(), negout); break;
    case Q_FP: Cal_BddFunctionProfile(s.m, h[0], got.data()); break; case Q_FPM: Cal_BddFunctionProfileMultiple(s.m, a.data(), got.data()); break; }
  want = q <= Q_PROFM ? R.profile() : funcProfile(s, t);
  MC_CHECK(got[N + 1] == -77, "%s wrote beyond the %d entries", QN[q], N + 1); got.pop_back();
  MC_CHECK(got == want, "%s(%s%s, %d) =%s, expected%s", QN[q], t.empty() ? "-" : hx(t[0]), t.size() > 1 ? ",..." : "", negout, show(got).c_str(), show(want).c_str());
}
// ================================================================ C16
static bool cubeTT(TT t, int n) { t &= full(n); if (!t) return false; int a = __builtin_ctzll(t); TT c = full(n); for (int v = 0; v < n; v++) if (depends(t, v)) c &= (a >> v & 1) ? VARTT[v] : ~VARTT[v]; return (c & full(n)) == t; }
static void structural(Sys &s, Cal_Bdd h, TT t, const char *w) {
  auto m = s.m; TT F = full(s.n); t &= F; mc::ops(12); auto P = [&](const char *q) { return std::string(q) + "(" + hx(t) + ")" + w; };
  bool cst = t == 0 || t == F; int top = -1; for (int v : s.order) if (depends(t, v)) { top = v; break; }
  MC_CHECK(Cal_BddIsBddOne(m, h) == (t == F) && Cal_BddIsBddZero(m, h) == (t == 0) && Cal_BddIsBddConst(m, h) == (int)cst && Cal_BddIsBddNull(m, h) == 0, "constant predicates of %s are wrong", hx(t));
  int ty = Cal_BddType(m, h), wt = t == 0 ? CAL_BDD_TYPE_ZERO : t == F ? CAL_BDD_TYPE_ONE : t == (VARTT[top] & F) ? CAL_BDD_TYPE_POSVAR : t == (~VARTT[top] & F) ? CAL_BDD_TYPE_NEGVAR : CAL_BDD_TYPE_NONTERMINAL;
  MC_CHECK(ty == wt, "%s = %d, expected %d", P("Cal_BddType").c_str(), ty, wt);
  if (!cst) {
    Cal_Bdd i = Cal_BddIf(m, h), a = Cal_BddThen(m, h), b = Cal_BddElse(m, h); s.expect(i, VARTT[top], P("Cal_BddIf").c_str()); s.expect(a, cof(t, top, 1), P("Cal_BddThen").c_str()); s.expect(b, cof(t, top, 0), P("Cal_BddElse").c_str());
    MC_CHECK(i == s.var[top], "If is not the variable's handle"); Cal_Bdd x = Cal_BddITE(m, i, a, b); MC_CHECK(x == h, "ITE(If,Then,Else) of %s is another handle", hx(t)); for (auto y : {x, a, b, i}) s.free(y);
    MC_CHECK(Cal_BddGetIfId(m, h) == s.idOf[top], "%s = %d, expected %d", P("Cal_BddGetIfId").c_str(), Cal_BddGetIfId(m, h), s.idOf[top]);
    int ix = Cal_BddGetIfIndex(m, h); MC_CHECK(ix == Cal_BddGetIfIndex(m, s.var[top]) && Cal_BddManagerGetVarWithIndex(m, ix) == s.var[top], "%s = %d is wrong", P("Cal_BddGetIfIndex").c_str(), ix);
  }
  Cal_Bdd r = Cal_BddGetRegular(m, h); TT rt = s.eval(r); MC_CHECK(rt == t || rt == (~t & F), "GetRegular(%s) denotes %s", hx(t), hx(rt)); { Cal_Bdd nh = Cal_BddNot(m, h); MC_CHECK(Cal_BddGetRegular(m, nh) == r && (r == h || r == nh), "GetRegular of f and its complement differ"); s.free(nh); }
  std::vector<Cal_Bdd> sup(s.nvars() + 1, (Cal_Bdd)-1); Cal_BddSupport(m, h, sup.data()); unsigned got = 0; int k = 0; while (k <= s.nvars() && sup[k] && sup[k] != (Cal_Bdd)-1) { int v = -1; for (int u = 0; u < s.n; u++) if (sup[k] == s.var[u]) v = u; MC_CHECK(v >= 0 && !(got >> v & 1), "%s lists something that is not a variable, or one twice", P("Cal_BddSupport").c_str()); got |= 1u << v; k++; }
  MC_CHECK(k <= s.nvars() && !sup[k] && got == supportOf(t, s.n), "%s = %x, expected %x", P("Cal_BddSupport").c_str(), got, supportOf(t, s.n)); for (int j = 0; j < k; j++) s.free(sup[j]);
  for (int v = 0; v < s.n; v++) { int d = Cal_BddDependsOn(m, h, s.var[v]); MC_CHECK(d == (int)depends(t, v), "DependsOn(%s, v%d) = %d", hx(t), v, d); }
  for (size_t v = 0; v < s.dummy.size(); v += 1 + s.dummy.size() / 4) { int d = Cal_BddDependsOn(m, h, s.dummy[v]); MC_CHECK(d == 0, "DependsOn(%s, unused variable) = %d", hx(t), d); }
  double f = Cal_BddSatisfyingFraction(m, h), wf = (double)__builtin_popcountll(t) / (1 << s.n); MC_CHECK(f == wf, "SatisfyingFraction(%s) = %.17g, expected %.17g", hx(t), f, wf);
  int c = Cal_BddIsCube(m, h); MC_CHECK(c == (int)cubeTT(t, s.n), "%s = %d, expected %d", P("Cal_BddIsCube").c_str(), c, (int)cubeTT(t, s.n));
  TT e = s.eval(h); MC_CHECK(e == t, "queries changed the BDD for %s to %s", hx(t), hx(e));
}

// Oracle layer: a manager plus the truth tables the live handles must denote.
#pragma once
#include "mc.hh"
#include <set>
extern "C" {
#include "cal.h"
#include "calInt.h"
}
extern "C" { unsigned long calVerifLargeBdd = 1ul << 19; }

using TT = uint64_t;                       // truth table over up to 6 variables; variable with id i is bit i-1 of the assignment
static const TT VARTT[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
inline TT full(int n) { return n >= 6 ? ~0ull : (1ull << (1 << n)) - 1; }
inline TT cof(TT f, int v, int b) { TT x = VARTT[v]; int s = 1 << v; if (b) { f &= x; return f | (f >> s); } f &= ~x; return f | (f << s); }
inline TT ite(TT f, TT g, TT h) { return (f & g) | (~f & h); }
inline TT exists(TT f, unsigned set) { for (int v = 0; v < 6; v++) if (set >> v & 1) f = cof(f, v, 0) | cof(f, v, 1); return f; }
inline TT forall(TT f, unsigned set) { for (int v = 0; v < 6; v++) if (set >> v & 1) f = cof(f, v, 0) & cof(f, v, 1); return f; }
inline bool depends(TT f, int v) { return cof(f, v, 0) != cof(f, v, 1); }
inline unsigned supportOf(TT f, int n) { unsigned s = 0; for (int v = 0; v < n; v++) if (depends(f, v)) s |= 1u << v; return s; }

// simultaneous substitution: assignment a |-> f(sub[0](a), sub[1](a), ...)
inline TT substTT(TT f, const TT *sub, int n) {
  TT r = 0;
  for (int a = 0; a < (1 << n); a++) { int b = 0; for (int v = 0; v < n; v++) b |= (int)(sub[v] >> a & 1) << v; r |= (f >> b & 1) << a; }
  return r;
}
inline TT composeTT(TT f, int v, TT h) { return ite(h, cof(f, v, 1), cof(f, v, 0)); }

inline const char *hx(TT t) { static char b[8][24]; static int i; i = (i + 1) & 7; snprintf(b[i], 24, "%llx", (unsigned long long)t); return b[i]; }

// variable id -> number of the variable in the model (0..5), -1 for variables the model does not track ("dummies")
inline signed char idBit[65536];

struct Sys {
  Cal_BddManager m = 0; int n = 0;         // n: number of tracked variables
  std::vector<Cal_Bdd> var;                // handles of the tracked variables
  std::vector<int> idOf;                   // their ids
  std::vector<Cal_Bdd> dummy;              // handles of further variables, never used in functions
  std::vector<int> order;                  // expected relative order of the tracked variables, top to bottom
  struct Slot { Cal_Bdd h = 0; TT t = 0; };
  std::vector<Slot> slot;

  Sys() {}
  explicit Sys(int nv) { init(); for (int i = 0; i < nv; i++) newLast(); }
  Sys(const Sys &) = delete;
  ~Sys() { if (m) Cal_BddManagerQuit(m); }     // a pruned execution ends in the middle
  void init() { m = Cal_BddManagerInit(); mc::op("m = Cal_BddManagerInit()"); n = 0; var.clear(); idOf.clear(); dummy.clear(); order.clear(); slot.clear(); }
  void quit() { mc::op("Cal_BddManagerQuit"); Cal_BddManagerQuit(m); m = 0; }
  int nvars() const { return n + (int)dummy.size(); }
  void track(Cal_Bdd h) { MC_CHECK(h, "variable creation returned null"); var.push_back(h); n++; idOf.push_back(nvars()); idBit[nvars()] = (signed char)(n - 1); }
  void newLast() { mc::op("v%d = CreateNewVarLast", n); order.push_back(n); track(Cal_BddManagerCreateNewVarLast(m)); }
  void newFirst() { mc::op("v%d = CreateNewVarFirst", n); order.insert(order.begin(), n); track(Cal_BddManagerCreateNewVarFirst(m)); }
  void newBefore(int v) { mc::op("v%d = CreateNewVarBefore(v%d)", n, v); order.insert(std::find(order.begin(), order.end(), v), n); track(Cal_BddManagerCreateNewVarBefore(m, var[v])); }
  void newAfter(int v) { mc::op("v%d = CreateNewVarAfter(v%d)", n, v); order.insert(std::find(order.begin(), order.end(), v) + 1, n); track(Cal_BddManagerCreateNewVarAfter(m, var[v])); }
  enum Where { LAST, FIRST, BEFORE, AFTER };
  void newDummy(Where w = LAST, int v = 0) {
    Cal_Bdd h = w == LAST ? Cal_BddManagerCreateNewVarLast(m) : w == FIRST ? Cal_BddManagerCreateNewVarFirst(m) : w == BEFORE ? Cal_BddManagerCreateNewVarBefore(m, var[v]) : Cal_BddManagerCreateNewVarAfter(m, var[v]);
    mc::op("dummy variable (%d)", (int)w); MC_CHECK(h, "variable creation returned null");
    dummy.push_back(h); idBit[nvars()] = -1;
  }
  // variables created such that the top-to-bottom order is the given permutation of ids
  void initOrder(const std::vector<int> &perm) {
    init();
    for (int id = 0; id < (int)perm.size(); id++) {
      // place id relative to those already present
      int after = -1; for (int x : perm) { if (x == id) break; if (x < id) after = x; }
      if (order.empty()) newLast(); else if (after < 0) { if (id & 1) newFirst(); else newBefore(order[0]); }
      else if (after == order.back() && (id & 1)) newLast(); else newAfter(after);
    }
    MC_CHECK(order == perm, "harness: could not create the order");
  }
  // function denoted by a handle, read off the node structure
  static TT evalNode(CalBddNode_t *p, int id, int depth = 0) {
    uintptr_t q = (uintptr_t)p; CalBddNode_t *b = (CalBddNode_t *)(q & ~(uintptr_t)0xf); TT inv = (q & 1) ? ~0ull : 0;
    if (id == CAL_BDD_CONST_ID) return ~inv;
    MC_CHECK(b && depth < 64, "corrupt BDD structure (null child or path longer than the number of variables)");
    MC_CHECK(id >= 1 && idBit[id] >= 0 && idBit[id] < 6, "corrupt BDD structure: node with variable id %d", id);
    TT x = VARTT[idBit[id]];
    TT t = evalNode(b->thenBddNode, b->thenBddId, depth + 1), e = evalNode(b->elseBddNode, b->elseBddId, depth + 1);
    return ((x & t) | (~x & e)) ^ inv;
  }
  TT eval(Cal_Bdd h) const {
    uintptr_t q = (uintptr_t)h; CalBddNode_t *u = (CalBddNode_t *)(q & ~(uintptr_t)0xf);
    MC_CHECK(u, "null handle where a BDD was expected");
    CalBddNode_t *c = u->thenBddNode;
    TT r = evalNode((CalBddNode_t *)((uintptr_t)c & ~(uintptr_t)0xe), u->thenBddId);
    if (q & 1) r = ~r;
    return r & full(n);
  }
  // handle for a truth table, built with if-then-else from the variables
  Cal_Bdd mk(TT t) {
    t &= full(n);
    if (t == 0) return Cal_BddZero(m);
    if (t == full(n)) return Cal_BddOne(m);
    int v = 0; for (int i : order) if (depends(t, i)) { v = i; break; }
    Cal_Bdd a = mk(cof(t, v, 1)), b = mk(cof(t, v, 0));
    Cal_Bdd r = Cal_BddITE(m, var[v], a, b);
    Cal_BddFree(m, a); Cal_BddFree(m, b);
    return r;
  }
  Cal_Bdd build(TT t) {
    Cal_Bdd r = mk(t); mc::op("build(%s) -> %p", hx(t), (void *)r);
    TT e = eval(r);
    MC_CHECK(e == (t & full(n)), "building %s by ITE over the variables gave a BDD for %s", hx(t & full(n)), hx(e));
    return r;
  }
  int add(Cal_Bdd h, TT t) { slot.push_back({h, t & full(n)}); return (int)slot.size() - 1; }
  void free(Cal_Bdd h) { Cal_BddFree(m, h); }
  void expect(Cal_Bdd h, TT t, const char *what) {
    t &= full(n);
    MC_CHECK(!Cal_BddIsBddNull(m, h), "%s returned null, expected a BDD for %s", what, hx(t));
    TT e = eval(h);
    MC_CHECK(e == t, "%s returned a BDD for %s, expected %s", what, hx(e), hx(t));
  }
  // all live handles denote what they should; handles are canonical; the order is what it should be
  void checkLive(const char *when) {
    for (size_t i = 0; i < slot.size(); i++) if (slot[i].h) {
      TT e = eval(slot[i].h);
      MC_CHECK(e == (slot[i].t & full(n)), "%s: live BDD #%zu denotes %s, expected %s", when, i, hx(e), hx(slot[i].t & full(n)));
      for (size_t j = 0; j < i; j++) if (slot[j].h) {
        bool same = slot[i].h == slot[j].h, eq = ((slot[i].t ^ slot[j].t) & full(n)) == 0;
        MC_CHECK(same == eq, "%s: canonicity: functions %s and %s have %s handles", when, hx(slot[j].t), hx(slot[i].t), same ? "equal" : "different");
        MC_CHECK(Cal_BddIsEqual(m, slot[i].h, slot[j].h) == (int)eq, "%s: Cal_BddIsEqual(%s,%s) is wrong", when, hx(slot[j].t), hx(slot[i].t));
      }
    }
    for (int v = 0; v < n; v++) {
      TT e = eval(var[v]);
      MC_CHECK(e == (VARTT[v] & full(n)), "%s: variable with id %d denotes %s", when, v + 1, hx(e));
      MC_CHECK(Cal_BddManagerGetVarWithId(m, idOf[v]) == var[v], "%s: handle of variable with id %d changed", when, idOf[v]);
    }
  }
  std::vector<int> readOrder(const char *when) {
    int N = nvars();
    std::vector<int> o; std::vector<char> seen(N + 1, 0);
    MC_CHECK(Cal_BddVars(m) == N, "%s: Cal_BddVars is %ld, expected %d", when, (long)Cal_BddVars(m), N);
    for (int i = 0; i < N; i++) {
      Cal_Bdd v = Cal_BddManagerGetVarWithIndex(m, i);
      MC_CHECK(v, "%s: no variable with index %d", when, i);
      int id = Cal_BddGetIfId(m, v);
      MC_CHECK(id >= 1 && id <= N && !seen[id], "%s: index %d has invalid or repeated id %d", when, i, id);
      MC_CHECK(v == Cal_BddManagerGetVarWithId(m, id), "%s: GetVarWithIndex(%d) and GetVarWithId(%d) differ", when, i, id);
      MC_CHECK(Cal_BddGetIfIndex(m, v) == i, "%s: variable id %d has index %d but is found at %d", when, id, Cal_BddGetIfIndex(m, v), i);
      seen[id] = 1;
      if (idBit[id] >= 0) { MC_CHECK(v == var[idBit[id]], "%s: GetVarWithIndex(%d) is not the handle of variable id %d", when, i, id); o.push_back(idBit[id]); }
    }
    return o;
  }
  void checkOrder(const char *when) {
    auto o = readOrder(when);
    MC_CHECK(o == order, "%s: the variable order is not the expected one", when);
  }
  void orderChanged(const char *when) { order = readOrder(when); }
  // number of nodes a reduced ordered BDD with complement edges needs for a set of functions under the current order
  // (internal nodes of distinct non-constant subfunctions up to complement)
  static void subfuns(TT t, const std::vector<int> &ord, size_t lvl, int n, std::set<std::pair<int, TT>> &s) {
    while (lvl < ord.size() && !depends(t, ord[lvl])) lvl++;
    if (lvl == ord.size()) return;
    TT r = (t & 1) ? ~t & full(n) : t;     // representative up to complement
    if (!s.insert({ord[lvl], r}).second) return;
    subfuns(cof(t, ord[lvl], 1) & full(n), ord, lvl + 1, n, s); subfuns(cof(t, ord[lvl], 0) & full(n), ord, lvl + 1, n, s);
  }
  size_t nodesNeeded(const std::vector<TT> &ts) const {
    std::set<std::pair<int, TT>> s;
    for (TT t : ts) subfuns(t & full(n), order, 0, n, s);
    return s.size();
  }
  unsigned long gc() { mc::op("Cal_BddManagerGC"); Cal_BddManagerGC(m); return Cal_BddManagerGetNumNodes(m); }
  // node count that remains after a collection when exactly the slots (and extra functions held internally) are referenced
  unsigned long expectedNodes(const std::vector<TT> &extraInternal = {}) const {
    std::vector<TT> ts = extraInternal;
    for (int v = 0; v < n; v++) ts.push_back(VARTT[v]);
    for (auto &s : slot) if (s.h) ts.push_back(s.t);
    return nodesNeeded(ts) + 1 + dummy.size();
  }
  uint64_t hash() const {
    uint64_t h = n; for (int o : order) h = mc::mix(h, o); for (auto &s : slot) h = mc::mix(h, s.h ? s.t + 3 : 1); return h;
  }
};

inline std::vector<std::vector<int>> perms(int n) {
  std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
  std::vector<std::vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r;
}

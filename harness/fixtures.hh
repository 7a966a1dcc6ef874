// Fixtures shared by harnesses: managers holding all functions of n variables, wide variable layouts, large functions.
#pragma once
#include "calsys.hh"
#include <memory>

// every function over n <= 4 variables as a live handle, under a given order of the variables
struct AllFn {
  Sys s; std::vector<Cal_Bdd> f; int n;
  AllFn(int n_, const std::vector<int> &perm) : n(n_) { s.initOrder(perm); fill(); }
  AllFn(Sys &&) = delete;
  AllFn(int n_, std::function<void(Sys &)> setup) : n(n_) { setup(s); fill(); }
  void fill() {
    size_t N = (size_t)full(n) + 1; f.assign(N, nullptr);
    f[0] = Cal_BddZero(s.m); f[N - 1] = Cal_BddOne(s.m);
    for (TT t = 0; t < N; t++) get(t);
    for (TT t = 0; t < N; t++) { TT e = s.eval(f[t]); MC_CHECK(e == t, "building all functions by ITE: handle for %s denotes %s", hx(t), hx(e)); }
  }
  Cal_Bdd get(TT t) {
    t &= full(n);
    if (f[t]) return f[t];
    int v = -1; for (int i : s.order) if (depends(t, i)) { v = i; break; }
    return f[t] = Cal_BddITE(s.m, s.var[v], get(cof(t, v, 1)), get(cof(t, v, 0)));
  }
  // after any number of operations whose results were freed, a collection must leave exactly the table
  void checkIntact(const char *when) {
    for (TT t = 0; t < f.size(); t++) { TT e = s.eval(f[t]); MC_CHECK(e == t, "%s: live BDD for %s now denotes %s", when, hx(t), hx(e)); }
    std::vector<TT> all; for (TT t = 0; t < f.size(); t++) all.push_back(t);
    unsigned long exp = s.expectedNodes(all), got = s.gc();
    MC_CHECK(got == exp, "%s: %lu nodes after collection, but the live BDDs need %lu", when, got, exp);
  }
};

// cached by key, for the lifetime of the exploring process
template <class T> T &fixture(uint64_t key, std::function<T *()> mk) {
  static std::map<uint64_t, std::unique_ptr<T>> c;
  auto &p = c[key];
  if (!p) {
    if (c.size() > 3) { std::unique_ptr<T> keep = std::move(p); for (auto it = c.begin(); it != c.end();) { if (it->first != key && it->second) { if (it->second->s.m) it->second->s.quit(); it = c.erase(it); } else ++it; } }
    T *t = mk(); c[key].reset(t); return *t;
  }
  return *p;
}

// layouts with many variables: where the n tracked variables sit among dummies
struct Layout { const char *name; std::vector<int> ids; int total; int mode; };
// mode 0: all created last; 1: odd dummies created first (reversing part of the order); 2: everything created first (order reversed)
inline const std::vector<Layout> &layouts3() {
  static std::vector<Layout> L = {
    {"1,2,3/3", {1, 2, 3}, 3, 0}, {"1,2,3/40", {1, 2, 3}, 40, 0}, {"31,32,33/40", {31, 32, 33}, 40, 0}, {"63,64,65/70", {63, 64, 65}, 70, 1},
    {"1,150,300/300", {1, 150, 300}, 300, 0}, {"254,255,256/257", {254, 255, 256}, 257, 0}, {"2,256,512/520", {2, 256, 512}, 520, 2}, {"127,128,129/200", {127, 128, 129}, 200, 1},
    {"30,31,127/130", {30, 31, 127}, 130, 2} };
  return L;
}
inline void setupLayout(Sys &s, const Layout &l) {
  s.init();
  for (int id = 1; id <= l.total; id++) {
    bool tr = std::find(l.ids.begin(), l.ids.end(), id) != l.ids.end();
    bool first = l.mode == 2 || (l.mode == 1 && (id & 1));
    if (tr) { if (first) s.newFirst(); else s.newLast(); } else s.newDummy(first ? Sys::FIRST : Sys::LAST);
  }
}

// representatives of all functions of 4 variables up to permutation/negation of inputs and negation of the output (222 of them)
inline const std::vector<TT> &npn4() {
  static std::vector<TT> reps;
  if (!reps.empty()) return reps;
  std::vector<char> seen(65536, 0);
  auto ps = perms(4);
  for (TT t = 0; t < 65536; t++) {
    if (seen[t]) continue;
    reps.push_back(t);
    for (auto &p : ps) for (int neg = 0; neg < 16; neg++) {
      TT u = 0;
      for (int a = 0; a < 16; a++) { int b = 0; for (int v = 0; v < 4; v++) if (((a ^ neg) >> v) & 1) b |= 1 << p[v]; u |= (t >> b & 1) << a; }
      seen[u] = 1; seen[~u & 0xffff] = 1;
    }
  }
  return reps;
}

// ---------------------------------------------------------------- large functions
// bit tables over N variables (N <= 16) for functions with thousands of nodes
struct Big {
  static int N; std::vector<uint64_t> w;
  Big() : w((size_t)1 << (N > 6 ? N - 6 : 0), 0) {}
  bool get(unsigned a) const { return w[a >> 6] >> (a & 63) & 1; }
  void set(unsigned a) { w[a >> 6] |= 1ull << (a & 63); }
  bool operator==(const Big &o) const { return w == o.w; }
};
inline int Big::N = 13;
inline Big bigOf(std::function<bool(unsigned)> f) { Big b; for (unsigned a = 0; a < 1u << Big::N; a++) if (f(a)) b.set(a); return b; }
inline unsigned popc(unsigned x) { return __builtin_popcount(x); }
// structured functions with very different BDD shapes; v = bits of the assignment
inline const std::vector<std::pair<const char *, std::function<bool(unsigned)>>> &bigFamily() {
  static int N = Big::N, h = N / 2; static unsigned M = (1u << h) - 1;
  static auto lcg = [](unsigned s, unsigned a) { unsigned x = a * 2654435761u + s * 40503u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; x ^= x >> 16; return x; };
  static std::vector<std::pair<const char *, std::function<bool(unsigned)>>> F = {
    {"parity", [](unsigned a) { return popc(a) & 1; }},
    {"majority", [](unsigned a) { return popc(a) * 2 > (unsigned)N; }},
    {"hidden weighted bit", [](unsigned a) { unsigned k = popc(a); return k && (a >> (k - 1) & 1); }},
    {"multiplier middle bit", [](unsigned a) { return ((a & M) * (a >> h & M)) >> (h - 1) & 1; }},
    {"multiplier top bit", [](unsigned a) { return ((a & M) * (a >> h & M)) >> (2 * h - 2) & 1; }},
    {"adder carry, operands separated", [](unsigned a) { return ((a & M) + (a >> h & M)) >> h & 1; }},
    {"adder bit 3", [](unsigned a) { return ((a & M) + (a >> h & M)) >> 3 & 1; }},
    {"x==y separated", [](unsigned a) { return (a & M) == (a >> h & M); }},
    {"x<y separated", [](unsigned a) { return (a & M) < (a >> h & M); }},
    {"storage access", [](unsigned a) { return a >> (3 + (a & 7)) & 1; }},
    {"mod 3", [](unsigned a) { return a % 3 == 0; }}, {"mod 5", [](unsigned a) { return a % 5 == 1; }}, {"count mod 4", [](unsigned a) { return popc(a) % 4 == 2; }},
    {"pairs", [](unsigned a) { for (int i = 0; i + h < N; i++) if ((a >> i & 1) && (a >> (i + h) & 1)) return true; return false; }},
    {"pseudo-random 1", [](unsigned a) { return lcg(1, a) >> 7 & 1; }}, {"pseudo-random 2", [](unsigned a) { return lcg(2, a) >> 9 & 1; }},
    {"pseudo-random sparse", [](unsigned a) { return (lcg(3, a) >> 4 & 31) == 0; }}, {"pseudo-random 4", [](unsigned a) { return lcg(4, a & ~3u) >> 5 & 1; }},
    {"prime", [](unsigned a) { if (a < 2) return false; for (unsigned d = 2; d * d <= a; d++) if (a % d == 0) return false; return true; }},
    {"palindrome", [](unsigned a) { for (int i = 0; i < N / 2; i++) if ((a >> i & 1) != (a >> (N - 1 - i) & 1)) return false; return true; }},
    {"cube", [](unsigned a) { return (a & 0x1555) == 0x1011; }},
    {"single variable", [](unsigned a) { return a >> (N - 1) & 1; }},
    {"gray", [](unsigned a) { return popc(a ^ (a >> 1)) % 3 == 0; }},
    {"square", [](unsigned a) { unsigned r = 0; while (r * r < a) r++; return r * r == a; }},
  };
  return F;
}
struct BigSys {
  Sys s; std::vector<Cal_Bdd> v;   // s is used only as a container for the manager
  BigSys() { s.init(); for (int i = 0; i < Big::N; i++) v.push_back(Cal_BddManagerCreateNewVarLast(s.m)); }
  Cal_BddManager m() { return s.m; }
  // assignment bit i <-> variable with id i+1
  // one handle per distinct subfunction, so that no counter saturates on the way
  Cal_Bdd build(const Big &b) {
    std::vector<int> cur(1u << Big::N); std::vector<Cal_Bdd> h{Cal_BddZero(s.m), Cal_BddOne(s.m)};
    for (unsigned a = 0; a < 1u << Big::N; a++) cur[a] = b.get(a);
    // eliminate variable bits from the last variable in the order (highest bit) to the first
    for (int i = Big::N - 1; i >= 0; i--) {
      std::vector<int> nx(1u << i); std::vector<Cal_Bdd> nh; std::map<std::pair<int, int>, int> memo;
      for (unsigned a = 0; a < 1u << i; a++) {
        auto k = std::make_pair(cur[a | 1u << i], cur[a]); auto it = memo.find(k);
        if (it == memo.end()) { it = memo.insert({k, (int)nh.size()}).first; nh.push_back(Cal_BddITE(s.m, v[i], h[k.first], h[k.second])); }
        nx[a] = it->second;
      }
      for (auto x : h) Cal_BddFree(s.m, x);
      h.swap(nh); cur.swap(nx);
    }
    return h[cur[0]];
  }
  Big eval(Cal_Bdd h) {
    MC_CHECK(h, "null handle where a BDD was expected");
    uintptr_t q = (uintptr_t)h; CalBddNode_t *u = (CalBddNode_t *)(q & ~(uintptr_t)0xf);
    uintptr_t top = ((uintptr_t)u->thenBddNode & ~(uintptr_t)0xe) ^ (q & 1); int tid = u->thenBddId;
    Big r;
    for (unsigned a = 0; a < 1u << Big::N; a++) {
      uintptr_t p = top; int id = tid, inv = 0, steps = 0;
      while (id != 0) {
        MC_CHECK(id <= Big::N && ++steps <= Big::N && (p & ~(uintptr_t)0xf), "corrupt BDD structure");
        CalBddNode_t *b = (CalBddNode_t *)(p & ~(uintptr_t)0xf); inv ^= p & 1;
        if (a >> (id - 1) & 1) { p = (uintptr_t)b->thenBddNode; id = b->thenBddId; } else { p = (uintptr_t)b->elseBddNode; id = b->elseBddId; }
      }
      inv ^= p & 1;
      if (!inv) r.set(a);
    }
    return r;
  }
  void expect(Cal_Bdd h, const Big &b, const char *what) {
    MC_CHECK(h, "%s returned null", what);
    Big e = eval(h);
    if (!(e == b)) { unsigned a = 0; while (e.get(a) == b.get(a)) a++; mc::fail("%s: wrong value (%d) at assignment %x", what, e.get(a), a); }
  }
};

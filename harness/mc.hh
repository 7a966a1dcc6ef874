// Stateless explicit-choice model checker for sequential code.
//
// A scenario is a program that calls choose(n) wherever behaviour is left
// open (which operation, which operand, where maintenance fires, which byte
// of a file is damaged, ...).  The explorer runs the scenario once for every
// sequence of choices, depth first, on the real library.  Sequences can be
// sharded over processes; each shard explores in a forked child, so that
// crashes, failed assertions, fatal exits and hangs of the code under test are
// observed and attributed to the exact choice sequence.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>

#ifdef CAL_GCOV
extern "C" void __gcov_dump(void);
#endif
namespace mc {

const int MAXC = 4096;
struct Shared {
  volatile long executions, pruned, transitions, checks, maxdepth, choicepoints;
  volatile long counters[16];
  volatile int nchoices; volatile int choices[MAXC]; volatile int alts[MAXC];
  volatile int failed;            // 1: oracle failure reported in msg
  volatile int complete;          // exploration finished (exhaustive)
  volatile int capped;            // stopped by time budget
  volatile long outcomes;
  volatile long states; volatile int states_capped;
  char msg[8192]; char sig[512];
  char trace[65536]; volatile int tracelen;
  char samples[4][1024]; volatile int nsamples;
  volatile long known_hits; volatile long maxwork;
  char known_seen[16][512]; volatile int nknown_seen;
};
inline Shared *S;

struct Opt {
  std::string scenario; int shard = 0, nshards = 1; std::string tier = "quick"; long seed = 1;
  double budget = 1e9; int casetimeout = 20; bool replay = false; std::vector<int> fixed;
  bool upto = false; std::string statefile; std::vector<std::string> known; std::map<std::string, long> param; bool verbose = false;
};
inline Opt opt;
inline long P(const char *name, long dflt) { auto i = opt.param.find(name); return i == opt.param.end() ? dflt : i->second; }
inline bool thorough() { return opt.tier == "thorough"; }

struct Prune {};
inline std::vector<int> stack, alts;   // current choice sequence
inline size_t pos;
inline int prefixProduct; inline uint64_t prefixHash; inline bool prefixDone;
inline int shardGrain = 12;            // prefixes per shard wanted
inline std::unordered_set<uint64_t> stateset;
inline bool tracing = false;           // record the operation trace (only during replay)

inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

inline void vfail(const char *sig, const char *fmt, va_list ap) {
  char buf[8192]; vsnprintf(buf, sizeof buf, fmt, ap);
  for (auto &k : opt.known) if (k == sig) {
    bool seen = false;
    for (int i = 0; i < S->nknown_seen; i++) if (k == S->known_seen[i]) seen = true;
    if (!seen && S->nknown_seen < 16) { strncpy(S->known_seen[S->nknown_seen], sig, 511); S->nknown_seen++; }
    S->known_hits++; throw Prune();
  }
  strncpy((char *)S->msg, buf, sizeof S->msg - 1); strncpy((char *)S->sig, sig, sizeof S->sig - 1);
  S->failed = 1;
  _exit(42);
}
__attribute__((format(printf, 1, 2))) inline void fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail("", fmt, ap); va_end(ap); abort(); }
__attribute__((format(printf, 2, 3))) inline void failsig(const char *sig, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(sig, fmt, ap); va_end(ap); abort(); }
#define MC_CHECK(cond, ...) do { mc::S->checks++; if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

// work: basic blocks of the library executed since the last recorded operation (build variant "count"); the limit, in thousands, is the
// parameter "work" of the job. A count, unlike a time, is the same on every machine and under every load.
inline long work, worklimit = 1l << 62;
inline void workReset() { if (S && work > S->maxwork) S->maxwork = work; work = 0; }
__attribute__((noinline, cold)) inline void workExceeded() { long l = worklimit; worklimit = 1l << 62; fail("an operation executed more than %ld thousand basic blocks of the library", l / 1000); }

// record one library operation (human readable only while replaying)
__attribute__((format(printf, 1, 2))) inline void op(const char *fmt, ...) {
  S->transitions++; workReset();
  if (!tracing) return;
  va_list ap; va_start(ap, fmt);
  int l = S->tracelen; int r = vsnprintf(S->trace + l, sizeof S->trace - l - 2, fmt, ap);
  va_end(ap);
  if (r > 0 && l + r < (int)sizeof S->trace - 3) { S->trace[l + r] = '\n'; S->trace[l + r + 1] = 0; S->tracelen = l + r + 1; }
}
inline void ops(long n) { S->transitions += n; workReset(); }
inline void state(uint64_t h) {
  if (stateset.size() >= 400000) { S->states_capped = 1; return; }
  if (stateset.insert(h).second) S->states++;
}
__attribute__((format(printf, 1, 2))) inline void sample(const char *fmt, ...) {
  if (S->nsamples >= 4) return;
  va_list ap; va_start(ap, fmt); vsnprintf(S->samples[S->nsamples], 1024, fmt, ap); va_end(ap); S->nsamples++;
}

// nondeterministic choice of one of n alternatives
inline int choose(int n) {
  if (n <= 0) throw Prune();
  if (n == 1) return 0;
  if (pos >= MAXC) fail("explorer: too many choices");
  S->choicepoints++;
  int c;
  if (pos < stack.size()) {
    c = stack[pos];
    if (alts[pos] == -1) alts[pos] = n;            // replayed prefix
    if (alts[pos] != n || c >= n) fail("explorer: divergence while replaying a prefix (%d alternatives, now %d, choice %d)", alts[pos], n, c);
  } else { c = 0; stack.push_back(0); alts.push_back(n); }
  S->choices[pos] = c; S->alts[pos] = n; S->nchoices = pos + 1;
  pos++;
  if (!prefixDone) {
    prefixHash = mix(prefixHash, c); prefixProduct *= n;
    if (prefixProduct >= opt.nshards * shardGrain || prefixProduct < 0) {
      prefixDone = true;
      if (!opt.replay && opt.nshards > 1 && (int)(prefixHash % opt.nshards) != opt.shard) { S->pruned++; throw Prune(); }
    }
  }
  return c;
}

// every choice of this execution that should decide the shard has been made: skip it unless it is ours
inline void shardHere() {
  if (prefixDone) return;
  prefixDone = true;
  if (!opt.replay && opt.nshards > 1 && (int)(prefixHash % opt.nshards) != opt.shard) { S->pruned++; throw Prune(); }
}

using Scenario = std::function<void()>;
inline std::map<std::string, Scenario> &scenarios() { static std::map<std::string, Scenario> m; return m; }
struct Reg { Reg(const char *n, Scenario s) { scenarios()[n] = s; } };
#define MC_SCENARIO(name) static void name(); static mc::Reg reg_##name(#name, name); static void name()

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline double t0;
inline bool timeup() { return now() - t0 > opt.budget; }

inline void arm(int s) { struct itimerval it = {}; it.it_value.tv_sec = s; setitimer(ITIMER_REAL, &it, 0); }

// advance to the lexicographically next choice sequence; false when exhausted
inline bool advance() {
  while (!stack.empty()) {
    if (stack.back() + 1 < alts.back()) { stack.back()++; return true; }
    stack.pop_back(); alts.pop_back();
  }
  return false;
}

inline bool runOne(Scenario &sc) {
  pos = 0; prefixProduct = 1; prefixHash = 1469598103934665603ull; prefixDone = false;
  S->nchoices = 0;
  arm(opt.casetimeout); workReset(); worklimit = P("work", 1l << 50) * 1000;
  bool ok = true;
  try { sc(); 
    if (!prefixDone && !opt.replay && opt.nshards > 1 && (int)(prefixHash % opt.nshards) != opt.shard) ok = false;
    else S->executions++; }
  catch (Prune &) { ok = false; stack.resize(pos); alts.resize(pos); }
  if ((long)pos > S->maxdepth) S->maxdepth = pos;
  if (stack.size() != pos) { if (stack.size() > pos && !opt.replay) { fail("explorer: divergence, run ended after %zu of %zu choices", pos, stack.size()); } }
  return ok;
}

inline void child() {
  auto it = scenarios().find(opt.scenario);
  if (it == scenarios().end()) { fprintf(stderr, "no scenario %s\n", opt.scenario.c_str()); _exit(3); }
  if (opt.replay && !opt.upto) {
    stack = opt.fixed; alts.assign(stack.size(), -1); tracing = true;
    runOne(it->second); S->complete = 1; arm(0); return;
  }
  t0 = now();
  int n = 0;
  do {
    if (opt.upto) {                       // deterministic re-run of the shard up to the failing sequence
      bool past = std::lexicographical_compare(opt.fixed.begin(), opt.fixed.end(), stack.begin(), stack.end());
      if (past) { S->complete = 1; arm(0); return; }
      tracing = (stack == opt.fixed) || (stack.size() < opt.fixed.size() && std::equal(stack.begin(), stack.end(), opt.fixed.begin()));
    }
    runOne(it->second);
    if ((++n & 15) == 0 && timeup()) { S->capped = 1; break; }
  } while (advance());
  if (!S->capped) S->complete = 1;
  arm(0);
}

inline std::string jsonesc(const char *s) {
  std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}

inline int main(int argc, char **argv) {
  // a fixed address-space layout makes the address-dependent hash functions of the library deterministic
  if (!getenv("MC_NOASLR_TRIED")) {
    setenv("MC_NOASLR_TRIED", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--scenario") opt.scenario = nx(); else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &opt.shard, &opt.nshards); }
    else if (a == "--tier") opt.tier = nx(); else if (a == "--seed") opt.seed = atol(nx().c_str()); else if (a == "--budget") opt.budget = atof(nx().c_str());
    else if (a == "--casetimeout") opt.casetimeout = atoi(nx().c_str()); else if (a == "--upto") opt.upto = true; else if (a == "--statefile") opt.statefile = nx();
    else if (a == "--known") opt.known.push_back(nx()); else if (a == "--verbose") opt.verbose = true;
    else if (a == "--choices") { opt.replay = true; std::string s = nx(); for (char *t = strtok(&s[0], ","); t; t = strtok(0, ",")) opt.fixed.push_back(atoi(t)); }
    else if (a == "--param") { std::string s = nx(); auto e = s.find('='); opt.param[s.substr(0, e)] = atol(s.c_str() + e + 1); }
    else if (a == "--list") { for (auto &s : scenarios()) puts(s.first.c_str()); return 0; }
  }
  if (opt.upto) opt.replay = false;
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(0);
  double start = now();
  pid_t pid = fork();
  if (!pid) {
    if (!opt.verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("MC_STDERR")) dup2(fd, 2); }
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit rl = {3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    child();
    if (!opt.statefile.empty()) { FILE *f = fopen(opt.statefile.c_str(), "wb"); for (uint64_t h : stateset) fwrite(&h, 8, 1, f); fclose(f); }
#ifdef CAL_GCOV
    __gcov_dump();
#endif
    _exit(S->complete || S->capped ? 0 : 3);
  }
  int st; waitpid(pid, &st, 0);
  std::string kind = "ok", msg;
  if (S->failed) { kind = "fail"; msg = (char *)S->msg; }
  else if (WIFSIGNALED(st)) { kind = WTERMSIG(st) == SIGALRM ? "timeout" : "crash"; msg = std::string("the code under test was ended by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; }
  else if (WEXITSTATUS(st) != 0 || !(S->complete || S->capped)) { kind = "exit"; msg = "the code under test ended the process with exit status " + std::to_string(WEXITSTATUS(st)); }
  printf("{\"kind\":\"%s\",\"msg\":\"%s\",\"sig\":\"%s\",\"choices\":[", kind.c_str(), jsonesc(msg.c_str()).c_str(), jsonesc((char *)S->sig).c_str());
  if (kind != "ok") for (int i = 0; i < S->nchoices; i++) printf("%s%d", i ? "," : "", S->choices[i]);
  printf("],\"executions\":%ld,\"transitions\":%ld,\"checks\":%ld,\"maxdepth\":%ld,\"choicepoints\":%ld,\"maxwork\":%ld,\"states\":%ld,\"states_capped\":%d,\"complete\":%d,\"capped\":%d,\"known_hits\":%ld,\"known\":[",
    S->executions, S->transitions, S->checks, S->maxdepth, S->choicepoints, S->maxwork, S->states, S->states_capped, S->complete, S->capped, S->known_hits);
  for (int i = 0; i < S->nknown_seen; i++) printf("%s\"%s\"", i ? "," : "", jsonesc(S->known_seen[i]).c_str());
  printf("],\"samples\":[");
  for (int i = 0; i < S->nsamples; i++) printf("%s\"%s\"", i ? "," : "", jsonesc(S->samples[i]).c_str());
  printf("],\"wall\":%.2f", now() - start);
  if (opt.replay || opt.upto) printf(",\"trace\":\"%s\"", jsonesc(S->trace).c_str());
  printf("}\n");
  return 0;
}
} // namespace mc
#ifdef MC_COUNT
extern "C" __attribute__((used)) void __sanitizer_cov_trace_pc(void) { if (++mc::work > mc::worklimit) mc::workExceeded(); }
#endif

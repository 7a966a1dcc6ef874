// Dumps in memory.
#pragma once
#include "gops.hh"
// files in memory
struct OutFile { char *buf = 0; size_t len = 0; FILE *fp; OutFile() { fp = open_memstream(&buf, &len); } ~OutFile() { if (fp) fclose(fp); ::free(buf); } std::string done() { fclose(fp); fp = 0; return std::string(buf, len); } };
struct InSrc { const char *p; size_t len, pos; long failAt; };
inline ssize_t inRead(void *c, char *b, size_t n) { InSrc *s = (InSrc *)c; if (s->failAt >= 0 && s->pos >= (size_t)s->failAt) { errno = EIO; return -1; } size_t k = s->len - s->pos; if (k > n) k = n; if (s->failAt >= 0 && s->pos + k > (size_t)s->failAt) k = s->failAt - s->pos; memcpy(b, s->p + s->pos, k); s->pos += k; return k; }
// A reader over bytes: nothing beyond the given bytes can be read.
struct InFile { InSrc s; FILE *fp; InFile(const char *p, size_t n, long failAt = -1) { s = {p, n, 0, failAt}; fp = fopencookie(&s, "r", {inRead, 0, 0, 0}); setvbuf(fp, 0, _IONBF, 0); } InFile(const std::string &b) : InFile(b.data(), b.size()) {} ~InFile() { fclose(fp); } };
inline std::vector<Cal_Bdd> list(Sys &s, const std::vector<int> &p) { std::vector<Cal_Bdd> l; for (int v : p) l.push_back(s.var[v]); l.push_back(nullptr); return l; }
inline std::string dump(Sys &s, Cal_Bdd f, std::vector<Cal_Bdd> l, const char *what = "") {
  OutFile o; int r = Cal_BddDumpBdd(s.m, f, l.data(), o.fp); mc::op("dump %s", what); MC_CHECK(r == 1, "dump was refused although the list covers the support"); return o.done();
}
inline Cal_Bdd undump(Sys &s, std::vector<Cal_Bdd> l, const std::string &b) {
  InFile f(b); int err = 99; Cal_Bdd r = Cal_BddUndumpBdd(s.m, l.data(), f.fp, &err); mc::op("undump of %zu bytes", b.size()); MC_CHECK(r && err == 0, "undump of an undamaged file: result %p, error %d", (void *)r, err);
  MC_CHECK(fgetc(f.fp) == EOF, "undump did not consume the whole dump"); return r;
}
// the function after replacing the i-th variable of list a by the i-th of list b
inline TT moved(TT t, const std::vector<int> &a, const std::vector<int> &b, int n) { TT s[6]; for (int i = 0; i < 6; i++) s[i] = VARTT[i]; for (size_t i = 0; i < a.size(); i++) s[a[i]] = VARTT[b[i]]; return substTT(t, s, n); }


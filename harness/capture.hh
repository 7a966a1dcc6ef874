// Capturing text written to a FILE or to standard output.
#pragma once
#include <string>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>
template <class F> inline std::string textOf(F f) { char *p = 0; size_t n = 0; FILE *fp = open_memstream(&p, &n); f(fp); fclose(fp); std::string s(p, n); free(p); return s; }
template <class F> inline std::string stdoutOf(F f) {
  static int fd = [] { int x = memfd_create("out", 0); if (x < 0) { FILE *t = tmpfile(); x = t ? fileno(t) : -1; } return x; }();
  fflush(stdout); int old = dup(1); if (fd < 0 || old < 0) abort(); (void)!ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); (void)!pread(fd, &s[0], (size_t)n, 0); return s;
}

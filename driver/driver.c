// Native replay: answers the harness API from a model file and runs one harness of the real build.
// exit 0: all assertions held; 3: an assertion failed; 4: an assumption was not met; abort: panic.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
static struct { char name[200]; char val[64]; } M[20000];
static int nm;
static struct { char name[200]; int n; } C[5000];
static int nc;
static int failed, tier, rnd;
static FILE *rec;
static uint64_t rs;
static uint64_t nxt(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static double u01(void) { return (nxt() >> 11) / 9007199254740992.0; }
static void fresh(const char *p, size_t n, char *out) {
  char b[160]; if (n > 150) n = 150; memcpy(b, p, n); b[n] = 0;
  int i; for (i = 0; i < nc; i++) if (!strcmp(C[i].name, b)) break;
  if (i == nc) { strcpy(C[nc].name, b); C[nc++].n = 0; }
  int k = C[i].n++;
  if (k) sprintf(out, "%s#%d", b, k); else strcpy(out, b);
}
static const char *look(const char *n) { for (int i = 0; i < nm; i++) if (!strcmp(M[i].name, n)) return M[i].val; return 0; }
double sym_f64(const char *p, size_t n, double lo, double hi) {
  char b[220]; fresh(p, n, b); const char *v = look(b);
  double r = v ? strtod(v, 0) : (lo > 0 ? lo : hi < 0 ? hi : 0);
  if (rnd) { r = lo + (hi - lo) * u01(); if (nxt() % 8 == 0) r = lo; else if (nxt() % 8 == 0 && lo <= 0 && hi >= 0) r = 0;
    if (r < lo) r = lo; if (r > hi) r = hi; fprintf(rec, "%s %.17g\n", b, r); fflush(rec); }
  if (r < lo) r = lo; if (r > hi) r = hi;
  return r;
}
int64_t sym_int(const char *p, size_t n, int64_t lo, int64_t hi) {
  char b[220]; fresh(p, n, b); const char *v = look(b);
  int64_t r = v ? strtoll(v, 0, 10) : (lo > 0 ? lo : hi < 0 ? hi : 0);
  if (rnd) { uint64_t w = (uint64_t)hi - (uint64_t)lo; r = lo + (int64_t)(w == ~0ull ? nxt() : nxt() % (w + 1)); fprintf(rec, "%s %lld\n", b, (long long)r); fflush(rec); }
  if (r < lo) r = lo; if (r > hi) r = hi;
  return r;
}
uint64_t sym_pick(const char *p, size_t n, uint64_t k) {
  char b[220]; fresh(p, n, b); const char *v = look(b);
  uint64_t r = v ? strtoull(v, 0, 10) : 0;
  if (rnd) { r = nxt() % k; fprintf(rec, "%s %llu\n", b, (unsigned long long)r); fflush(rec); }
  return r < k ? r : k - 1;
}
static void done(void) { fflush(stdout); fflush(stderr); _Exit(failed ? 3 : 0); }
void sym_assume(_Bool c) { if (!c) { if (failed) done(); fprintf(stderr, "assumption not met\n"); _Exit(4); } }
static void bad(const char *p, size_t n) { failed = 1; fprintf(stderr, "ASSERTION FAILED: %.*s\n", (int)n, p); }
static void tr(const char *t, double v) { if (rnd) { uint64_t u; memcpy(&u, &v, 8); if (v != v) u = 0x7ff8000000000000ull; printf("TRACE %s %016llx\n", t, (unsigned long long)u); } }
void sym_assert(_Bool c, const char *p, size_t n) { tr("assert", c); if (!c) bad(p, n); }
void sym_close(double a, double b, double tol, const char *p, size_t n) {
  tr("a", a); tr("b", b);
  if (!(fabs(a - b) <= tol) && a != b) { bad(p, n); fprintf(stderr, "  got %.17g expected %.17g (tolerance %g)\n", a, b, tol); }
}
void sym_cover(const char *p, size_t n) {}
void sym_trace(const char *p, size_t n, double v) { uint64_t u; memcpy(&u, &v, 8); if (v != v) u = 0x7ff8000000000000ull; printf("TRACE %.*s %016llx\n", (int)n, p, (unsigned long long)u); }
void sym_file(const char *p, size_t n, const char *d, size_t len) {
  char b[300]; if (n > 250) n = 250; memcpy(b, p, n); b[n] = 0;
  if (b[0] == '/' || strstr(b, "..")) { fprintf(stderr, "harness file outside scratch\n"); _Exit(5); }
  FILE *f = fopen(b, "wb"); if (!f) _Exit(5); fwrite(d, 1, len, f); fclose(f);
}
_Bool sym_split(_Bool c) { return c; }
int64_t sym_conc(int64_t v) { return v; }
uint64_t sym_engine(void) { return 0; }
uint64_t sym_tier(void) { return tier; }
int main(int c, char **v) {
  if (c < 4) return 6;
  void *h = dlopen(v[1], RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 6; }
  void (*f)(void) = (void (*)(void))dlsym(h, v[2]);
  if (!f) { fprintf(stderr, "%s\n", dlerror()); return 6; }
  FILE *m = fopen(v[3], "r"); if (!m) return 6;
  char l[400];
  while (fgets(l, sizeof l, m)) if (sscanf(l, "%199s %63s", M[nm].name, M[nm].val) == 2) nm++;
  fclose(m);
  if (c > 4) tier = atoi(v[4]);
  if (c > 7) { rnd = 1; rs = strtoull(v[6], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 20; i++) nxt(); rec = fopen(v[7], "w"); if (!rec) return 6; }
  f();
  done();
}

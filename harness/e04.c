/* Exhaustive exploration of the fatal error module (mmfatl.c) through its public
   interface.  exit() is wrapped so that many messages can be produced in one
   process; what is written to file descriptor 2 is captured in a memory file.
   usage: e04 part nparts deep ; prints "N evals distinct" or "V key text". */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <stdint.h>
#include <limits.h>
#include <sys/mman.h>
#include "mmfatl.h"
static jmp_buf jb; static int exited, code, armed;
void __real_exit(int);
void __wrap_exit(int c) { if (!armed) __real_exit(c); exited = 1; code = c; longjmp(jb, 1); }
void __wrap__exit(int c) { __wrap_exit(c); }
void __wrap__Exit(int c) { __wrap_exit(c); }
void __wrap_quick_exit(int c) { __wrap_exit(c); }
void __wrap_abort(void) { __wrap_exit(134); }
static int mfd; static long nev, nviol; static FILE *out;
static char got[8192]; static long ngot;
static void viol(const char *key, const char *what, const char *exp, long nexp) {
  if (nviol++ > 4) return;
  fprintf(out, "V %s %s: expected %ld bytes [", key, what, nexp);
  for (long i = 0; i < nexp; i++) { if (nexp > 160 && i == 80) { fprintf(out, " ... "); i = nexp - 60; } fprintf(out, exp[i] == '\n' ? "\\n" : "%c", exp[i]); }
  fprintf(out, "] got %ld bytes [", ngot);
  for (long i = 0; i < ngot; i++) { if (ngot > 160 && i == 80) { fprintf(out, " ... "); i = ngot - 60; } fprintf(out, got[i] == '\n' ? "\\n" : "%c", got[i]); }
  fprintf(out, "]\n");
}
static void begin(void) { if (ftruncate(mfd, 0)) {} lseek(mfd, 0, SEEK_SET); exited = 0; }
static void collect(void) { fflush(stderr); ngot = pread(mfd, got, sizeof got, 0); }
/* reference: the text so far */
static long ndist;
static char ref[65536]; static long nref;
#define MAXM MMFATL_MAX_MSG_SIZE
static void finish(const char *what) {
  nev++;
  if (nref && nref < MAXM && ref[nref - 1] != '\n') ref[nref++] = '\n';
  long n = nref;
  if (nref >= MAXM) { memcpy(ref + MAXM, MMFATL_ELLIPSIS, strlen(MMFATL_ELLIPSIS)); n = MAXM + strlen(MMFATL_ELLIPSIS); }
  if (!exited) { viol("returned", what, ref, n); return; }
  if (code != EXIT_FAILURE) { char b[2000]; snprintf(b, sizeof b, "%s exit code %d", what, code); viol("status", b, ref, n); return; }
  if (n != ngot || memcmp(ref, got, n)) viol(n > MAXM ? "overflow" : "text", what, ref, n);
}
typedef struct { int isu; unsigned u; const char *s; } Arg;
static void radd(const char *f, Arg *a) {
  for (; *f; f++) {
    char nb[30]; const char *t = nb;
    nb[1] = 0; nb[0] = *f;
    if (*f == '%') {
      if (f[1] == 's') { t = a->s ? a->s : ""; a++; f++; }
      else if (f[1] == 'u') { sprintf(nb, "%u", a->u); a++; f++; }
      else if (f[1] == '%') f++;
    }
    while (*t && nref < (long)sizeof ref - 10) ref[nref++] = *t++;
  }
}
static int npl(const char *f, char *k) { int n = 0; for (; *f; f++) if (*f == '%') { if (f[1] == 's' || f[1] == 'u') k[n++] = f[1]; if (f[1] == 's' || f[1] == 'u' || f[1] == '%') f++; } return n; }
#define A(i) a[i]
static int push(int at, const char *file, unsigned line, const char *f, const char *k, int n, Arg *a) {
#define CALL(...) (at ? (fatalErrorExitAt(file, line, f, ##__VA_ARGS__), 0) : fatalErrorPush(f, ##__VA_ARGS__))
#define U(i) a[i].u
#define S(i) a[i].s
  int m = 0; for (int i = 0; i < n; i++) m |= (k[i] == 'u') << i;
  switch (n * 8 + m) {
    case 0: return CALL();
    case 8: return CALL(S(0)); case 9: return CALL(U(0));
    case 16: return CALL(S(0), S(1)); case 17: return CALL(U(0), S(1)); case 18: return CALL(S(0), U(1)); case 19: return CALL(U(0), U(1));
    case 24: return CALL(S(0), S(1), S(2)); case 25: return CALL(U(0), S(1), S(2)); case 26: return CALL(S(0), U(1), S(2)); case 27: return CALL(U(0), U(1), S(2));
    case 28: return CALL(S(0), S(1), U(2)); case 29: return CALL(U(0), S(1), U(2)); case 30: return CALL(S(0), U(1), U(2)); case 31: return CALL(U(0), U(1), U(2));
  }
  return -1;
}
static const char *SV[] = { 0, "", "ab", "%u%s%%\n", "x\n" };
static unsigned UV[] = { 0, 7, 10, 99, 4294967295u, 2147483648u, 1000000000u };
int main(int argc, char **argv) {
  int part = atoi(argv[1]), np = atoi(argv[2]), deep = atoi(argv[3]);
  out = fdopen(dup(1), "w"); setvbuf(out, 0, _IOLBF, 0);
  mfd = memfd_create("e", 0); dup2(mfd, 2);
  long cnt = 0; char what[3000];
  /* 1. every format up to a length, every combination of argument values, by
        Push + PrintAndExit and by ExitAt with and without a place */
  static const char AL[] = "%sux\n";
  int L = deep ? 9 : 7;
  char f[16];
  for (int len = 0; len <= L; len++) {
    long tot = 1; for (int i = 0; i < len; i++) tot *= 5;
    for (long c = 0; c < tot; c++) {
      if (cnt++ % np != part) continue;
      long x = c; for (int i = 0; i < len; i++) { f[i] = AL[x % 5]; x /= 5; } f[len] = 0;
      char k[16]; int n = npl(f, k); if (n > 3) continue;
      long combos = 1; for (int i = 0; i < n; i++) combos *= k[i] == 's' ? (n > 2 ? 3 : 5) : (n > 2 ? 3 : 7);
      for (long q = 0; q < combos; q++) {
        Arg a[4] = {{0}}; long y = q;
        for (int i = 0; i < n; i++) { int m = k[i] == 's' ? (n > 2 ? 3 : 5) : (n > 2 ? 3 : 7); a[i].s = SV[y % m % 5]; a[i].u = UV[n > 2 ? (y % m) * 2 : y % m]; y /= m; }
        for (int at = 0; at < (n > 2 || (len > 4 && !deep) ? 1 : 5); at++) {
          begin(); nref = 0; armed = 1;
          const char *file = at == 1 || at == 3 ? "f.c" : at == 4 ? "" : 0; unsigned line = at == 2 || at == 3 ? 4294967295u : 0;
          if (at == 3) { Arg b[2] = {{0, 0, file}, {1, line}}; radd("At %s:%u\n", b); }
          if (at == 1) { Arg b[1] = {{0, 0, file}}; radd("In file %s:\n", b); }
          if (at == 2) { Arg b[1] = {{1, line}}; radd("In line %u:\n", b); }
          radd(f, a);
          long full = nref;
          if (!setjmp(jb)) {
            if (!at) { fatalErrorInit(); int r = push(0, 0, 0, f, k, n, a); if (r != 1) { ngot = 0; viol("return", "Push of a short message returned false", "", 0); } fatalErrorPrintAndExit(); }
            else push(1, file, line, f, k, n, a);
          }
          collect();
          snprintf(what, sizeof what, "format [%s] args %ld via %s%d", f, q, at ? "ExitAt" : "Push", at);
          for (char *p = what; *p; p++) if (*p == '\n') *p = '~';
          ndist += at == 0; if (cnt % 90001 < 8) fprintf(out, "S %s -> %ld bytes\n", what, ngot);
          finish(what);
        }
      }
    }
  }
  /* 2. sequences of pushes around the buffer size */
  static char big[3000]; 
  struct { const char *f; int n; char k; unsigned u; int slen; } P[] = {
    {"", 0}, {"x", 0}, {"\n", 0}, {"%%", 0}, {"%", 0}, {"%u", 1, 'u', 4294967295u}, {"%u", 1, 'u', 0}, {"%s", 1, 's', 0, 0}, {"%s", 1, 's', 0, 1}, {"%s", 1, 's', 0, 5}, {"a%sb", 1, 's', 0, 20},
    {"%s\n", 1, 's', 0, 1022}, {"%s%u", 2, 's', 12345, 1020}, {"%s", 1, 's', 0, 2500}, {0, 0} };
  int NP = sizeof P / sizeof *P;
  for (int l = 0; l <= 1040; l++) {
    if (!deep && l > 25 && l < 1000) continue;
    for (int p1 = 0; p1 < NP; p1++) for (int p2 = 0; p2 < NP; p2++) for (int p3 = 0; p3 < (deep ? NP : 4); p3++) {
      if (cnt++ % np != part) continue;
      static char sb[4][3000];
      memset(sb[0], 'L', l); sb[0][l] = 0;
      begin(); nref = 0; armed = 1;
      int seq[3] = {p1, p2, p3};
      volatile int bad = 0;
      { Arg a[1] = {{0, 0, sb[0]}}; radd("%s", a); }
      if (!setjmp(jb)) {
        fatalErrorInit();
        int r = l % 2 ? fatalErrorPush("%s", sb[0]) : fatalErrorPush(sb[0]);
        if (r != (nref < MAXM)) bad = 1;
        for (int i = 0; i < 3; i++) {
          int q = seq[i];
          if (P[q].f) {
            memset(sb[i + 1], 'a' + i, P[q].slen); sb[i + 1][P[q].slen] = 0;
            Arg a[2]; a[0].s = sb[i + 1]; a[0].u = a[1].u = P[q].u;
            if (nref < MAXM) radd(P[q].f, a);
            if (P[q].n == 0) r = fatalErrorPush(P[q].f);
            else if (P[q].n == 2) r = fatalErrorPush(P[q].f, sb[i + 1], P[q].u);
            else if (P[q].k == 's') r = fatalErrorPush(P[q].f, sb[i + 1]);
            else r = fatalErrorPush(P[q].f, P[q].u);
          } else r = fatalErrorPush(0);
          if (r != (nref < MAXM)) bad = i + 2;
        }
        fatalErrorPrintAndExit();
      }
      collect();
      snprintf(what, sizeof what, "pushes of %d bytes, then %d %d %d", l, p1, p2, p3);
      if (bad) { ngot = 0; viol("return", what, "", 0); }
      finish(what); ndist++;
    }
  }
  fprintf(out, "D %ld\n", ndist);
  fprintf(out, "N %ld\n", nev);
  fflush(out); armed = 0; _exit(nviol != 0);
}

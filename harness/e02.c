/* Exhaustive exploration of the string library (mmvstr.c) against reference
   functions written from its documentation.  Strings are over small alphabets up
   to a length; positions and lengths go beyond both ends.  The last part explores
   every sequence of operations on strings and temporary results up to a depth.
   usage: e02 part nparts deep */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "mmvstr.h"
static long nev, nviol, nd, cnt; static int part, np, deep;
static void esc(const char *s) { for (; *s; s++) if (*s >= 32 && *s < 127 && *s != '\\') putchar(*s); else printf("\\%03o", (unsigned char)*s); }
static char what[4000];
static void viol(const char *key, const char *got, const char *exp) {
  if (nviol++ > 6) return;
  printf("V %s ", key); esc(what); printf(" gives ["); esc(got); printf("] instead of ["); esc(exp); printf("]\n"); fflush(stdout);
}
/* The arguments are copied into exactly sized heap blocks, so that any access
   beyond them is seen, and compared afterwards. */
static char *H(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); return p; }
#define MINE (cnt++ % np == part)
static void scmp(const char *key, const char *got, const char *exp) { nev++; if (strcmp(got, exp)) viol(key, got, exp); freeTempAlloc(); }
static void ncmp(const char *key, long got, long exp) { char a[30], b[30]; nev++; if (got != exp) { sprintf(a, "%ld", got); sprintf(b, "%ld", exp); viol(key, a, b); } }
static void same(const char *key, const char *now, const char *was) { if (strcmp(now, was)) viol(key, now, was); }
#define W(...) snprintf(what, sizeof what, __VA_ARGS__)
/* n-th string over an alphabet in length order */
static int nth(char *o, long n, const char *al, int maxlen) {
  int k = strlen(al), l = 0; long w = 1;
  while (n >= w) { n -= w; w *= k; if (++l > maxlen) return -1; }
  for (int i = 0; i < l; i++) { o[i] = al[n % k]; n /= k; }
  o[l] = 0; return l;
}
static void rseg(char *o, const char *s, long a, long b) {
  long n = strlen(s); if (a < 1) a = 1; if (b > n) b = n; long k = 0; for (long i = a; i <= b; i++) o[k++] = s[i - 1]; o[k] = 0;
}
static void basic(void) {
  char s[40], e[80]; int l;
  for (long i = 0; (l = nth(s, i, "ab\1\377", 5)) >= 0; i++) if (MINE) {
    char *h = H(s); nd++;
    W("len(\"%s\")", s); ncmp("len", len(h), l);
    for (long a = -3; a <= l + 1; a++) for (long b = -3; b <= l + 5; b++) {
      rseg(e, s, a, b); W("seg(\"%s\",%ld,%ld)", s, a, b); scmp("seg", seg(h, a, b), e);
      rseg(e, s, a < 1 ? 1 : a, (a < 1 ? 1 : a) + (b < 0 ? 0 : b) - 1); W("mid(\"%s\",%ld,%ld)", s, a, b); scmp("mid", mid(h, a, b), e);
    }
    for (long b = -3; b <= l + 5; b++) { rseg(e, s, 1, b); W("left(\"%s\",%ld)", s, b); scmp("left", left(h, b), e); }
    for (long a = -3; a <= l + 1; a++) { rseg(e, s, a, l); W("right(\"%s\",%ld)", s, a); scmp("right", right(h, a), e); }
    W("ascii_(\"%s\")", s); ncmp("ascii", ascii_(h), (unsigned char)s[0]);
    same("argument", h, s); free(h);
  }
  for (long n = -3; n <= 300; n++) if (MINE) {
    char b[400], c[3] = {(char)(n & 255), 0};
    memset(b, ' ', 400); b[n < 0 ? 0 : n] = 0; W("space(%ld)", n); scmp("space", space(n), b);
    for (int k = 0; k < 256; k += 1) { memset(b, k, 400); b[n < 0 ? 0 : n] = 0; W("string(%ld,%d)", n, k); scmp("string", string(n, (char)k), b); }
    W("chr(%ld)", n); scmp("chr", chr(n), c); nd++;
  }
  /* cat of up to 49 strings */
  static const char *P[] = {"", "a", "bcd"};
  for (int a = 0; a < 27; a++) for (int b = 0; b < 9; b++) if (MINE) {
    const char *x[5] = {P[a % 3], P[a / 3 % 3], P[a / 9], P[b % 3], P[b / 3]};
    char *h[5]; for (int i = 0; i < 5; i++) h[i] = H(x[i]);
    e[0] = 0; for (int i = 0; i < 5; i++) strcat(e, x[i]); W("cat of 5 strings %d %d", a, b); scmp("cat", cat(h[0], h[1], h[2], h[3], h[4], NULL), e);
    e[0] = 0; for (int i = 0; i < 2; i++) strcat(e, x[i]); scmp("cat", cat(h[0], h[1], NULL), e);
    scmp("cat", cat(h[0], NULL), x[0]);
    for (int i = 0; i < 5; i++) { same("argument", h[i], x[i]); free(h[i]); } nd++;
  }
#define X10(a) a, a, a, a, a, a, a, a, a, a
  if (MINE) { char b[200]; memset(b, 0, 200); for (int i = 0; i < 49; i++) strcat(b, i < 40 ? "ab" : "c");
    W("cat of 49 strings"); scmp("cat", cat(X10("ab"), X10("ab"), X10("ab"), X10("ab"), "c", "c", "c", "c", "c", "c", "c", "c", "c", NULL), b); }
}
static void search(void) {
  char s[40], m[40]; int l, k; int L = deep ? 9 : 8;
  for (long i = 0; (l = nth(s, i, "ab", L)) >= 0; i++) for (long j = 0; (k = nth(m, j, "ab", 5)) >= 0; j++) if (MINE) {
    char *h = H(s), *g = H(m); long last = 0; nd++;
    for (int p = 1; p + k - 1 <= l; p++) if (!strncmp(s + p - 1, m, k)) last = p;
    if (!k) last = l + 1;
    for (long st = -2; st <= l + 3; st++) {
      long f = 0; for (long p = st < 1 ? 1 : st; p + k - 1 <= l; p++) if (!strncmp(s + p - 1, m, k)) { f = p; break; }
      if (!k) f = l + 1;    /* the terminating NUL */
      W("instr(%ld,\"%s\",\"%s\")", st, s, m); ncmp("instr", instr(st, h, g), f);
    }
    W("rinstr(\"%s\",\"%s\")", s, m); ncmp("rinstr", rinstr(h, g), last);
    same("argument", h, s); same("argument", g, m); free(h); free(g);
  }
  /* translation tables */
  char tab[300];
  for (int v = 0; v < 6; v++) {
    int n = v == 0 ? 0 : v == 1 ? 98 : v == 2 ? 99 : 255; for (int i = 0; i < n; i++) { int c = v < 3 ? i + 1 : v == 3 ? 255 - i : v == 4 ? (i ^ 32) : i; tab[i] = c ? c : 1; } tab[n] = 0;
    for (long i = 0; (l = nth(s, i, "abc\1\377", 4)) >= 0; i++) if (MINE) {
      char e[40]; int q = 0; for (int p = 0; p < l; p++) { int c = (unsigned char)s[p]; if (c < n && tab[c]) e[q++] = tab[c]; } e[q] = 0;
      char *h = H(s), *t = H(tab); W("xlate(\"%s\", table %d)", s, v); scmp("xlate", xlate(h, t), e); same("argument", h, s); same("argument", t, tab); free(h); free(t); nd++;
    }
  }
}
static void lists(void) {
  char s[40], x[40]; int l, k;
  for (long i = 0; (l = nth(s, i, "a,b", deep ? 9 : 8)) >= 0; i++) if (MINE) {
    int n = 0; char el[12][12]; int pos[12]; el[0][0] = 0; pos[0] = 1; int z = 0; nd++;
    for (int p = 0; p < l; p++) if (s[p] == ',') { el[n][z] = 0; n++; z = 0; pos[n] = p + 2; } else el[n][z++] = s[p];
    el[n][z] = 0; n++;
    char *h = H(s);
    W("numEntries(\"%s\")", s); ncmp("numEntries", numEntries(h), l ? n : 0);
    for (int q = -2; q <= n + 2; q++) {
      int in = q >= 1 && q <= n;
      W("entry(%d,\"%s\")", q, s); scmp("entry", entry(q, h), in ? el[q - 1] : "");
      W("entryPosition(%d,\"%s\")", q, s); ncmp("entryPosition", entryPosition(q, h), in && el[q - 1][0] ? pos[q - 1] : 0);
    }
    for (long j = 0; (k = nth(x, j, "ab", 3)) >= 0; j++) {
      long f = 0; for (int q = n; q >= 1; q--) if (!strcmp(el[q - 1], x)) f = q;
      char *g = H(x); W("lookup(\"%s\",\"%s\")", x, s);
      if (l || k) ncmp("lookup", lookup(g, h), f);      /* an empty element of an empty list: not said */
      same("argument", g, x); free(g);
    }
    same("argument", h, s); free(h);
  }
}
static void numbers(void) {
  char e[400], g[400];
  /* val: decimal numbers */
  for (int sg = 0; sg < 2; sg++) for (long a = 0; a < 12000; a += (a < 1100 ? 1 : 97)) for (int d = -1; d <= 3; d++) {
    long f = 1; for (int i = 0; i < d; i++) f *= 10;
    for (long b = 0; b < f; b += (d == 3 ? 7 : 1)) if (MINE) {
      if (d < 0) sprintf(e, "%s%ld", sg ? "-" : "", a); else if (d == 0) sprintf(e, "%s%ld.", sg ? "-" : "", a); else sprintf(e, "%s%ld.%0*ld", sg ? "-" : "", a, d, b);
      char *h = H(e); double v = val(h), w = strtod(e, 0); nev++; nd++;
      if (fabs(v - w) > 1e-12 * fabs(w) || (d < 1 && v != w)) { W("val(\"%s\")", e); sprintf(g, "%.17g", v); viol("val", g, e); }
      same("argument", h, e); free(h);
      /* str: like %f without trailing zeros */
      sprintf(g, "%f", w); char *z = strchr(g, '.'); if (z) { z = g + strlen(g); while (z[-1] == '0') *--z = 0; if (z[-1] == '.') z[-1] = 0; }
      W("str(%.17g)", w); scmp("str", str(w), g); scmp("num1", num1(w), g);
      sprintf(e, " %s ", g); W("num(%.17g)", w); scmp("num", num(w), e);
    }
  }
  for (int x = -12; x <= 308; x++) for (int m = -9; m <= 9; m++) if (MINE) {
    double w = m * pow(10, x); sprintf(g, "%f", w); char *z = g + strlen(g); while (z[-1] == '0') *--z = 0; if (z[-1] == '.') z[-1] = 0;
    W("str(%.17g)", w); scmp("str", str(w), g); nd++;
  }
}
/* ---------------------------------------------------------------- edit() */
static int bl(int c) { return c == ' ' || c == '\t'; }
static void rm(char *s, int (*f)(int, int), int quotes) {      /* delete the characters f says, not in quotes */
  int in = 0, k = 0; for (int i = 0; s[i]; i++) { if (quotes && (s[i] == '"' || s[i] == '\'')) in = !in; if (in || !f((unsigned char)s[i], 0)) s[k++] = s[i]; } s[k] = 0;
}
static int isblf(int c, int d) { return bl(c); }
static int isctl(int c, int d) { return c == 13 || c == 10 || c == 12 || c == 27 || c == 8; }
static int iscr(int c, int d) { return c == 13; }
static void rmap(char *s, int bit, int quotes) {
  int in = 0, k = 0; for (int i = 0; s[i]; i++) {
    if (quotes && (s[i] == '"' || s[i] == '\'')) in = !in;
    int c = (unsigned char)s[i];
    if (!in) {
      if (bit == 1) c &= 127;
      if (bit == 32 && c >= 'a' && c <= 'z') c -= 32;
      if (bit == 64) c = c == '[' ? '(' : c == ']' ? ')' : c;
      if (bit == 512 && c >= 'A' && c <= 'Z') c += 32;
      if (bit == 4096) {
        if ((c >= 234 && c <= 237) || c == 218 || c == 217 || c == 191 || c == 192) c = '+';
        else if (c == 241 || c == 196) c = '-'; else if (c == 248 || c == 166 || c == 179) c = '|';
      }
    }
    if (c) s[k++] = c;
  }
  s[k] = 0;
}
static void rtrail(char *s, int lf) { int k = strlen(s); while (k && (bl(s[k - 1]) || (lf && s[k - 1] == '\n'))) k--; s[k] = 0; }
static void rlead(char *s) { char *p = s; while (bl(*p)) p++; memmove(s, p, strlen(p) + 1); }
static void rreduce(char *s, int q) { int k = 0, in = 0, b = 0; for (int i = 0; s[i]; i++) { if (q && (s[i] == '"' || s[i] == '\'')) in = !in; if (in || !bl(s[i])) { s[k++] = s[i]; b = 0; } else { if (!b) s[k++] = ' '; b = 1; } } s[k] = 0; }
static void runtab(char *s) { static char o[4000]; int k = 0, m = 0; for (int i = 0; s[i]; i++) { if (s[i] == '\n') { o[k++] = '\n'; m = 0; } else if (s[i] == '\t') do { o[k++] = ' '; m++; } while (m % 8); else { o[k++] = s[i]; m++; } } o[k] = 0; strcpy(s, o); }
static void redit(char *s, long c) {          /* all but 1024 (tab) */
  int q = !!(c & 256);
  if (c & 8) rlead(s);
  if (c & 2) rm(s, isblf, q);
  if (c & 1) rmap(s, 1, q);
  if (c & 4) rm(s, isctl, q);
  if (c & 8192) rm(s, iscr, q);
  if (c & 32) rmap(s, 32, q);
  if (c & 64) rmap(s, 64, q);
  if (c & 512) rmap(s, 512, q);
  if (c & 4096) rmap(s, 4096, q);
  if (c & 128) rtrail(s, 0);
  if (c & 16384) rtrail(s, 1);
  if (c & 16) rreduce(s, q);
  if (c & 2048) runtab(s);
}
static void edit1(const char *s, long c) {
  char e[4000]; char *h = H(s); nd++;
  W("edit(\"%s\",%ld)", s, c);
  strcpy(e, s); redit(e, c);
  if (c & 1024) {   /* tabs: same columns, no longer, no two blanks before a tab stop inside the line */
    char g[4000]; strcpy(g, edit(h, c)); freeTempAlloc(); nev++;
    char a[4000]; strcpy(a, g); runtab(a); runtab(e);
    if (strcmp(a, e)) viol("tab", g, e);
    int m = 0, b = 0, bad = 0; for (int i = 0; g[i]; i++) { if (g[i] == '\t') { m = (m / 8 + 1) * 8; b = 0; } else { m++; b = g[i] == ' ' ? b + 1 : 0; } if (m % 8 == 0) { if (b >= 2 && g[i] == ' ' && g[i + 1]) bad = 1; b = 0; } }
    if (bad) viol("tab-left", g, e);
  } else scmp("edit", edit(h, c), e);
  same("argument", h, s); free(h);
}
static int quoted(const char *s) { int n = 0; for (; *s; s++) n += *s == '"' || *s == '\''; return n & 1; }      /* an open quote at the end */
static void edits(void) {
  char s[60]; int l;
  static const long one[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 512, 2048, 4096, 8192, 16384};
  static const long used[] = {136, 152, 6, 156, 16392, 2180, 188, 184, 20, 3, 144, 6 + 256, 32 + 256, 512 + 256, 2 + 256, 4 + 256, 1 + 256, 64 + 256, 8192 + 256, 4096 + 256, 16 + 256, 8 + 16 + 256, 2048 + 256};
  int no = sizeof one / sizeof *one, nu = sizeof used / sizeof *used;
  /* every pair of transformations on every short string */
  for (long i = 0; (l = nth(s, i, "aZ \t\n[\"\r", deep ? 6 : 5)) >= 0; i++) if (MINE) {
    for (int x = 0; x < no; x++) for (int y = x + (x > 0); y < no; y++) if ((one[x] | one[y]) != 544) edit1(s, one[x] | one[y]);
    for (int x = 0; x < nu; x++) edit1(s, used[x]);
    if (!quoted(s)) { edit1(s, 16 + 128 + 256); edit1(s, 8 + 16 + 128 + 256); }
  }
  /* every set of transformations on very short strings */
  for (long i = 0; (l = nth(s, i, "aZ \t\n[\"\r\033\010\014\353\301", deep ? 3 : 2)) >= 0; i++) if (MINE) {
    for (long c = 0; c < 32768; c++) {
      if ((c & 544) == 544 || c & 1024) continue;
      if ((c & 256) && (c & (128 + 16384)) && quoted(s)) continue;    /* quotes and the line as a whole: not said */
      edit1(s, c);
    }
  }
  /* every character */
  for (int c = 1; c < 256; c++) for (int x = 0; x < no; x++) if (MINE) { s[0] = 'x'; s[1] = c; s[2] = 'x'; s[3] = 0; if (c != 127) edit1(s, one[x]); s[0] = c; s[1] = 0; edit1(s, one[x]); }
  /* tabs and untabs around the tab stops */
  int M = deep ? 12 : 10;
  for (int a = 0; a <= 17; a++) for (int b = 0; b <= M; b++) for (int c = 0; c <= 9; c++) for (int d = 0; d <= M; d++) if (MINE) {
    memset(s, 'x', a); memset(s + a, ' ', b); memset(s + a + b, 'y', c); memset(s + a + b + c, ' ', d); s[a + b + c + d] = 'z'; s[a + b + c + d + 1] = 0;
    edit1(s, 1024); edit1(s, 2048); s[a + b + c + d] = 0; edit1(s, 1024); edit1(s, 1024 + 128); edit1(s, 1024 + 2048);
    if (a < 17) { s[a + b / 2] = '\t'; edit1(s, 2048); edit1(s, 1024); edit1(s, 16); }
    if (b > 1) { s[a] = '\n'; edit1(s, 2048); }
  }
}
/* ------------------------------------ sequences of operations, temporaries */
#define NT 64
static char *tp[NT]; static char tx[NT][64]; static int nt, base[8], nb; static vstring v[2]; static char vx[2][64];
static int lens; static unsigned char seq[16];
static int depth;
static int bad(void) {
  for (int i = 0; i < nt; i++) if (strcmp(tp[i], tx[i])) return 1;
  for (int i = 0; i < 2; i++) if (strcmp(v[i], vx[i])) return 2;
  return 0;
}
static void newt(char *p, const char *x) { tp[nt] = p; strncpy(tx[nt], x, 63); nt++; }
static void drop(void) { nt = nb ? base[nb] : 0; }
static long saved[8];
static int NOPS = 13;
static int doop(int op) {
  char b[64]; const char *t = nt ? tp[nt - 1] : "pq"; char x[64]; strcpy(x, nt ? tx[nt - 1] : "pq");
  if (strlen(x) > 40 || strlen(vx[0]) > 40 || strlen(vx[1]) > 40) return 0;
  switch (op) {
    case 0: sprintf(b, "%sc%s", x, vx[0]); newt(cat(t, "c", v[0], NULL), b); break;
    case 1: rseg(b, x, 2, 99); newt(right(t, 2), b); break;
    case 2: rseg(b, vx[1], 1, 1); newt(left(v[1], 1), b); break;
    case 3: let(&v[0], t); strcpy(vx[0], x); drop(); break;
    case 4: sprintf(b, "%s%s", vx[0], x); let(&v[1], cat(v[0], t, NULL)); strcpy(vx[1], b); drop(); break;
    case 5: let(&v[0], v[1]); strcpy(vx[0], vx[1]); drop(); break;
    case 6: free_vstring(v[0]); vx[0][0] = 0; drop(); break;
    case 7: if (nb >= 2) return 0; saved[++nb] = g_startTempAllocStack; base[nb] = nt; g_startTempAllocStack = g_tempAllocStackTop; break;
    case 8: if (!nb) return 0; g_startTempAllocStack = saved[nb--]; break;                            /* results stay for the caller */
    case 9: if (!vx[1][0]) { newt(makeTempAlloc(v[1]), ""); break; } newt(makeTempAlloc(v[1]), vx[1]); v[1] = ""; vx[1][0] = 0; break;
    case 10: freeTempAlloc(); drop(); break;
    case 11: { char *p = H(x); newt(edit(p, 32), x); for (char *q = tx[nt - 1]; *q; q++) if (*q >= 'a' && *q <= 'z') *q -= 32; free(p); break; }
    case 12: { strcpy(b, vx[0]); let(&v[0], cat("z", v[0], NULL)); sprintf(vx[0], "z%s", b); drop(); break; }
  }
  return 1;
}
static void reset(void) { g_startTempAllocStack = 0; nb = 0; free_vstring(v[0]); free_vstring(v[1]); freeTempAlloc(); nt = 0; vx[0][0] = vx[1][0] = 0; }
static void sequences(void) {
  depth = deep ? 7 : 5;
  long tot = 1; for (int i = 0; i < depth; i++) tot *= NOPS;
  v[0] = v[1] = "";
  for (long n = 0; n < tot; n++) if (MINE) {
    long x = n; reset(); int ok = 1;
    for (int i = 0; i < depth && ok; i++, x /= NOPS) {
      ok = doop(x % NOPS); seq[i] = x % NOPS;
      if (ok && bad()) { char *p = what; p += sprintf(p, "operations"); for (int j = 0; j <= i; j++) p += sprintf(p, " %d", seq[j]); viol("temporary", bad() == 1 ? "a changed temporary" : "a changed variable", "the value assigned"); ok = 0; }
    }
    nev++; nd += ok;
    for (int i = 0; i < nb; i++) ;
  }
  reset();
}
int main(int argc, char **argv) {
  part = atoi(argv[1]); np = atoi(argv[2]); deep = atoi(argv[3]);
  basic(); search(); lists(); numbers(); edits(); sequences();
  printf("D %ld\nN %ld\n", nd, nev); fflush(stdout);
  _exit(nviol != 0);
}

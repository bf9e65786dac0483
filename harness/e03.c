/* Exhaustive exploration of line wrapping (printLongLine in mminou.c): every line
   over small alphabets up to a length, for every width, prefix of continuation
   lines and set of break characters.  What is printed is judged by a relation, not
   by a second implementation: undoing the breaks must give the text back.
   usage: e03 part nparts deep */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mmvstr.h"
#include "mminou.h"
static long nev, nviol, nd, cnt; static int part, np, deep;
static char cur[2000];
static void esc(const char *s) { for (; *s; s++) if (*s >= 32 && *s < 127 && *s != '\\') putchar(*s); else printf("\\%03o", (unsigned char)*s); }
static void viol(const char *key, const char *got) {
  if (nviol++ > 6) return;
  printf("V %s ", key); esc(cur); printf(" printed as ["); esc(got); printf("]\n"); fflush(stdout);
}
static int nth(char *o, long n, const char *al, int maxlen) {
  int k = strlen(al), l = 0; long w = 1;
  while (n >= w) { n -= w; w *= k; if (++l > maxlen) return -1; }
  for (int i = 0; i < l; i++) { o[i] = al[n % k]; n /= k; }
  o[l] = 0; return l;
}
typedef struct { const char *pre, *brk; } Mode;
static const Mode modes[] = {{"", " "}, {" ", " "}, {"    ", " "}, {"ABCDEFGHI", " "}, {"", ""}, {"  ", ""}, {"", "\""}, {"  ", "\""},
  {"  ", "\1"}, {"| |", "\1"}, {"~", " "}, {"", "\\"}, {"  ", "& "}, {"", "& "}};
#define NM (int)(sizeof modes / sizeof *modes)
/* One line of the caller: text t, printed lines o[0..n-1]. */
static const char *t, *ptxt; static char quoted[400]; static int plen, tilde, tree, any, comp, W, need;
static char *o[400]; static int n, lettersAt;
static int ok(int pos, int i, int first) {
  int len = strlen(o[i]), tl = strlen(t);
  for (int strip = 0; strip < 2; strip++) {            /* with the prefix, or, after a word that did not fit, without */
    const char *x = o[i]; int pad0 = 0, pad1 = 0;
    if (first && strip) continue;
    if (!first && !strip) {
      if (strncmp(x, ptxt, plen)) continue;
      x += plen;
      if (tree) { while (x[pad1] == ' ') pad1++; }
    }
    if (strip && need <= W) continue;
    for (int pad = pad0; pad <= pad1; pad++) {
      const char *y = x + pad; int l = strlen(y);
      if (i == n - 1) { if (!strcmp(y, t + pos)) return 1; continue; }
      if (tilde) { if (!l || y[l - 1] != '~') continue; l--; }
      if (l > tl - pos || strncmp(y, t + pos, l)) continue;
      int q = pos + l;
      if (any || (comp && q > lettersAt && lettersAt)) { if (l && ok(q, i + 1, 0)) return 1; }
      if (!any) for (int d = 1; d <= 2; d++) {
        if (t[q + d - 1] != ' ' || quoted[q + d - 1]) break;
        if (ok(q + d, i + 1, 0)) return 1;
      }
    }
  }
  (void)len;
  return 0;
}
/* The caller's lines from l on, printed at q. */
static int lines(char *c, char *l, char *q, const char *full, const Mode *m, int *eff, const char **why) {
  if (!l || !*l) { if (*q) *why = "extra"; return !*q; }
  int width = W, extra = tilde + (m->brk[0] == '\\'), good = 0;
  char *e = strchr(l, '\n'); if (e) *e = 0;
  int avail = 0; for (char *z = q; *z; z++) avail += *z == '\n';
  char *sv = strdup(q);
  for (int k = 1; k <= avail && !good; k++) {
    t = l; int tl = strlen(t), wl = 0, inq = 0; need = 0; lettersAt = 0;
    if (tl > width - extra) *eff = 1;
    memset(quoted, 0, sizeof quoted);
    if (m->brk[0] == '"') for (int i = 0, g = 0; g < (l - c) + tl; g++) {
      /* quotes run on over the caller's newlines */
      if (full[g] == '"' && g > 0) inq = !inq && full[g - 1] == '=';
      if (g >= l - c) quoted[i++] = inq;
    }
    if (comp) { char *z = strrchr(t, ')'); if (z) lettersAt = z - t; }
    for (int i = 0; i <= tl; i++) if (i == tl || (t[i] == ' ' && !quoted[i])) { if (wl > need) need = wl; wl = 0; } else wl++;
    need += plen + extra; if (any) need = 0;
    n = k;
    char *z = q; for (int i = 0; i < n; i++) { o[i] = z; z = strchr(z, '\n'); *z++ = 0; }
    if (ok(0, 0, 1)) {
      int lim = need > width ? need : width, wide = 0;
      for (int i = 0; i < n; i++) if ((int)strlen(o[i]) > lim) wide = 1;
      if (wide) *why = "too-wide"; else if (tl <= width - extra && n != 1) *why = "broken-needlessly";
      else good = lines(c, e ? e + 1 : NULL, z, full, m, eff, why);
    }
    strcpy(q, sv);
  }
  free(sv); if (e) *e = '\n';
  return good;
}
static void one(const char *full, const Mode *m, int width) {
  char pre[40], *got, *all, *h = strdup(full), *hp = strdup(m->pre), *hb = strdup(m->brk);
  nev++; W = width; tilde = m->pre[0] == '~'; tree = m->brk[0] == 1; any = !m->brk[0]; comp = m->brk[0] == '&';
  snprintf(cur, sizeof cur, "width %d, prefix \"%s\", break at \"%s\": \"%s\"", width, m->pre, m->brk, full);
  g_screenWidth = width; g_outputToString = 1; free_vstring(g_printString);
  printLongLine(h, hp, hb);
  g_outputToString = 0; all = got = strdup(g_printString);
  if (g_screenWidth != width) viol("width-changed", got);
  if (strcmp(h, full) || strcmp(hp, m->pre) || strcmp(hb, m->brk)) viol("argument-changed", got);
  free(h); free(hp); free(hb);
  strcpy(pre, tilde ? " " : m->pre);
  if ((int)strlen(pre) > width - 4) pre[width > 4 ? width - 4 : 0] = 0;
  ptxt = pre; plen = strlen(pre);
  /* the caller's lines; text after the last newline is a line only if not empty */
  char *c = strdup(full), *l = c; char *p = strdup(all);
  int eff = 0;
  const char *why = "text";
  if (!lines(c, l, p, full, m, &eff, &why)) viol(why, all);
  nd += eff;
  free(c); free(p); free(all);
}
static void run(const char *al, int L, int m0, int m1, int w0, int w1) {
  char s[100]; int l;
  for (long i = 1; (l = nth(s, i, al, L)) >= 0; i++) {
    if (s[0] == 0) continue;
    if (cnt++ % np != part) continue;
    /* an argument with quotes that run over a newline is only used with HTML lines */
    for (int m = m0; m < m1; m++) for (int w = w0; w <= w1; w++) {
      int t1 = modes[m].pre[0] == '~' || modes[m].brk[0] == '\\';
      if (w < 4 && t1) continue;
      one(s, &modes[m], w);
    }
  }
}
int main(int argc, char **argv) {
  part = atoi(argv[1]); np = atoi(argv[2]); deep = atoi(argv[3]);
  int L = deep ? 15 : 12;
  run("a ", L + 1, 0, NM - 2, 3, 8);
  run("a \n", L - 3, 0, NM - 2, 3, 6);
  run("a=\" ", L - 4, 0, 8, 3, 7);
  /* compressed proofs: "( labels ) letters $." */
  { char s[100], lab[40]; int l;
    for (long i = 0; (l = nth(lab, i, "a ", deep ? 12 : 9)) >= 0; i++) {
      if (strstr(lab, "  ") || lab[0] == ' ' || (l && lab[l - 1] == ' ')) continue;
      for (int k = 0; k < (deep ? 40 : 28); k++) {
        if (cnt++ % np != part) continue;
        char let_[60]; memset(let_, 'X', 60); let_[k] = 0;
        snprintf(s, sizeof s, "( %s%s) %s%s$.", lab, l ? " " : "", let_, k ? " " : "");
        for (int w = 6; w <= 20; w++) { one(s, &modes[NM - 2], w); one(s, &modes[NM - 1], w); }
      }
    } }
  printf("S last %s\n", cur);
  printf("D %ld\nN %ld\n", nd, nev);
  return nviol != 0;
}

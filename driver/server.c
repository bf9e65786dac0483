/* Fork server: runs the real metamath main() (compiled from /repo/src with
   -Dmain=mm_main) once per request in a fresh child process, inside a scratch
   directory, with a scripted stdin and captured output.

   Request  (little endian, on fd 0):
     u32 timeout_ms, u32 fault_op, u32 fault_mode, u32 cwdlen, cwd,
     u32 argc, (u32 len, bytes)*, u32 inlen, in
   Response (on the saved stdout):
     i32 status (exit code, or 1000+signal, or 2000 timeout), u32 outlen, out,
     u32 loglen, log
   fault_op: 0 = none; n>0: the n-th environment operation (counted over the
   interposed fopen-for-write / fwrite flush / fclose / rename / remove calls)
   is made to fail (fault_mode 1), or the process dies just before it
   (fault_mode 2), or, for a data write, dies after half of it (fault_mode 3),
   or every operation from n on fails (fault_mode 4).
   Interposition happens only when fault_mode != 0 (mode 9 = log only). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

extern int mm_main(int argc, char *argv[]);

/* ------------------------------------------------ fault injection */
static unsigned g_fop, g_fmode, g_count;
static int g_logfd = -1;

static FILE *(*real_fopen)(const char *, const char *);
static int (*real_rename)(const char *, const char *);
static int (*real_remove)(const char *);
static int (*real_unlink)(const char *);

static void oplog(const char *fmt, ...) {
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b) n = sizeof b;
  if (g_logfd >= 0 && write(g_logfd, b, n) < 0) {}
}
/* returns 1 if this op must fail */
static int point(void) {
  g_count++;
  if (g_fmode == 9 || g_fop == 0) return 0;
  if (g_fmode == 4) return g_count >= g_fop;
  if (g_count != g_fop) return 0;
  if (g_fmode == 2) { _exit(77); }
  return 1;
}

struct ck { int fd; char name[256]; };
static ssize_t ck_write(void *c, const char *buf, size_t size) {
  struct ck *k = c;
  int f = point();
  oplog("write %s %zu%s\n", k->name, size, f ? " FAULT" : "");
  if (f) {
    if (g_fmode == 3) {
      if (write(k->fd, buf, size / 2) < 0) {}
      _exit(77);
    }
    errno = ENOSPC;
    return 0;
  }
  size_t o = 0;
  while (o < size) {
    ssize_t w = write(k->fd, buf + o, size - o);
    if (w <= 0) return 0;
    o += w;
  }
  return size;
}
static int ck_close(void *c) {
  struct ck *k = c;
  int f = point();
  oplog("close %s%s\n", k->name, f ? " FAULT" : "");
  if (f && g_fmode == 3) _exit(77);
  int r = close(k->fd);
  free(k);
  if (f) { errno = EIO; return -1; }
  return r;
}
static int ck_seek(void *c, off64_t *o, int w) {
  struct ck *k = c;
  off64_t r = lseek64(k->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}

#ifndef NO_FAULT
FILE *fopen(const char *name, const char *mode) {
  if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
  if (g_fmode == 0 || mode[0] == 'r') return real_fopen(name, mode);
  int f = point();
  oplog("open %s%s\n", name, f ? " FAULT" : "");
  if (f) {
    if (g_fmode == 3) _exit(77);
    errno = EACCES;
    return NULL;
  }
  int fd = open(name, O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC),
                0644);
  if (fd < 0) return NULL;
  struct ck *k = malloc(sizeof *k);
  k->fd = fd;
  snprintf(k->name, sizeof k->name, "%s", name);
  cookie_io_functions_t io = { NULL, ck_write, ck_seek, ck_close };
  FILE *fp = fopencookie(k, mode, io);
  setvbuf(fp, NULL, _IOFBF, 64); /* small buffer: more crash points */
  return fp;
}
int rename(const char *a, const char *b) {
  if (!real_rename) real_rename = dlsym(RTLD_NEXT, "rename");
  if (g_fmode == 0) return real_rename(a, b);
  int f = point();
  oplog("rename %s %s%s\n", a, b, f ? " FAULT" : "");
  if (f) { if (g_fmode == 3) _exit(77); errno = EACCES; return -1; }
  return real_rename(a, b);
}
int remove(const char *a) {
  if (!real_remove) real_remove = dlsym(RTLD_NEXT, "remove");
  if (g_fmode == 0) return real_remove(a);
  int f = point();
  oplog("remove %s%s\n", a, f ? " FAULT" : "");
  if (f) { if (g_fmode == 3) _exit(77); errno = EACCES; return -1; }
  return real_remove(a);
}
int unlink(const char *a) {
  if (!real_unlink) real_unlink = dlsym(RTLD_NEXT, "unlink");
  if (g_fmode == 0) return real_unlink(a);
  int f = point();
  oplog("remove %s%s\n", a, f ? " FAULT" : "");
  if (f) { if (g_fmode == 3) _exit(77); errno = EACCES; return -1; }
  return real_unlink(a);
}

#endif
/* operating system commands are only recorded */
int system(const char *c) {
  if (!c) return 1;
  oplog("system %.200s\n", c);
  return 0;
}
/* ------------------------------------------------ server */
static int rd(void *p, size_t n) {
  char *c = p;
  while (n) {
    ssize_t r = read(0, c, n);
    if (r <= 0) return 0;
    c += r; n -= r;
  }
  return 1;
}
static void wr(int fd, const void *p, size_t n) {
  const char *c = p;
  while (n) {
    ssize_t r = write(fd, c, n);
    if (r <= 0) exit(0);
    c += r; n -= r;
  }
}
static uint32_t u32(void) { uint32_t v = 0; if (!rd(&v, 4)) exit(0); return v; }
static char *blob(uint32_t n) {
  char *p = malloc(n + 1);
  if (n && !rd(p, n)) exit(0);
  p[n] = 0;
  return p;
}
static void send_fd(int resp, int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  uint32_t len = n;
  wr(resp, &len, 4);
  if (n) {
    char *m = mmap(NULL, n, PROT_READ, MAP_SHARED, fd, 0);
    wr(resp, m, n);
    munmap(m, n);
  }
}

int main(void) {
  int resp = dup(1);
  fcntl(resp, F_SETFD, FD_CLOEXEC);
  int null = open("/dev/null", O_RDWR);
  dup2(null, 1);
  signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (;;) {
    uint32_t tmo;
    if (!rd(&tmo, 4)) return 0;
    uint32_t fop = u32(), fmode = u32();
    char *cwd = blob(u32());
    uint32_t argc = u32();
    char **argv = calloc(argc + 2, sizeof *argv);
    argv[0] = "metamath";
    for (uint32_t i = 0; i < argc; i++) argv[i + 1] = blob(u32());
    uint32_t inlen = u32();
    char *in = blob(inlen);
    int ifd = memfd_create("in", 0), ofd = memfd_create("out", 0),
        lfd = memfd_create("log", 0);
    wr(ifd, in, inlen);
    lseek(ifd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      struct rlimit rl = { 64u << 20, 64u << 20 };
      setrlimit(RLIMIT_FSIZE, &rl);
      struct rlimit rc = { 0, 0 };
      setrlimit(RLIMIT_CORE, &rc);
      if (chdir(cwd)) _exit(99);
      dup2(ifd, 0); dup2(ofd, 1); dup2(ofd, 2);
      fcntl(1, F_SETFL, O_APPEND);
      signal(SIGPIPE, SIG_DFL);
      struct itimerval it = { {0, 0}, { tmo / 1000, (tmo % 1000) * 1000 } };
      setitimer(ITIMER_REAL, &it, NULL);
      if (getenv("MMV_PERTURB")) mallopt(M_PERTURB, atoi(getenv("MMV_PERTURB")));
      g_fop = fop; g_fmode = fmode; g_count = 0; g_logfd = lfd;
      exit(mm_main(argc + 1, argv));
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    int32_t status = WIFEXITED(st) ? WEXITSTATUS(st)
                   : WTERMSIG(st) == SIGALRM ? 2000 : 1000 + WTERMSIG(st);
    wr(resp, &status, 4);
    send_fd(resp, ofd);
    send_fd(resp, lfd);
    close(ifd); close(ofd); close(lfd);
    for (uint32_t i = 0; i < argc; i++) free(argv[i + 1]);
    free(argv); free(cwd); free(in);
  }
}

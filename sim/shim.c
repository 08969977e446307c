// Simulated disk faults: interposes on the libc calls CPython uses for files, and acts only on
// paths under the configured prefixes.  Off unless rules are armed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>

enum { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, NOPS };
enum { A_ERRNO, A_SHORT, A_CRASH, A_SHORTCRASH };
#define MAXR 32
#define MAXP 16
#define MAXFD 65536

struct rule { int op, nth, action, arg, sticky; char sub[128]; int seen, fired; };
static struct rule rules[MAXR];
static int nrules;
static char prefixes[MAXP][512];
static int nprefix;
static unsigned char infd[MAXFD];
static short fdpath[MAXFD];
#define MAXPATH 512
static char paths[MAXPATH][256];
static int npaths;
static long counts[NOPS];
static char logbuf[1 << 18];
static size_t loglen;
static int active;
static char logfile[512];

static int (*r_open)(const char *, int, ...);
static int (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_openat64)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static int (*r_close)(int);

static void init(void) {
  if (r_read) return;
  r_open = dlsym(RTLD_NEXT, "open");
  r_open64 = dlsym(RTLD_NEXT, "open64");
  r_openat = dlsym(RTLD_NEXT, "openat");
  r_openat64 = dlsym(RTLD_NEXT, "openat64");
  r_write = dlsym(RTLD_NEXT, "write");
  r_close = dlsym(RTLD_NEXT, "close");
  r_read = dlsym(RTLD_NEXT, "read");
}

static void note(const char *op, const char *path, long a, long ret, const char *what) {
  char line[700];
  int n = snprintf(line, sizeof line, "%s %s %ld %ld %s\n", op, path, a, ret, what);
  if (n <= 0) return;
  if (n > (int)sizeof line - 1) n = sizeof line - 1;
  if (loglen + n < sizeof logbuf) { memcpy(logbuf + loglen, line, n); loglen += n; logbuf[loglen] = 0; }
  if (logfile[0] && what[0]) {
    int fd = r_open(logfile, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { r_write(fd, line, n); r_close(fd); }
  }
}

static int scoped(const char *p) {
  if (!active || !p) return 0;
  char abs[4200];
  if (p[0] != '/') {
    if (!getcwd(abs, 4000)) return 0;
    size_t l = strlen(abs);
    snprintf(abs + l, sizeof abs - l, "/%s", p);
    p = abs;
  }
  for (int i = 0; i < nprefix; i++)
    if (!strncmp(p, prefixes[i], strlen(prefixes[i]))) return 1;
  return 0;
}

static int pathid(const char *p) {
  const char *q = strlen(p) > 250 ? p + strlen(p) - 250 : p;
  for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], q)) return i;
  if (npaths < MAXPATH) { strcpy(paths[npaths], q); return npaths++; }
  return MAXPATH - 1;
}

// returns the rule that fires on this op, or NULL
static struct rule *hit(int op, const char *path) {
  counts[op]++;
  struct rule *res = 0;
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (r->op != op) continue;
    if (r->sub[0] && !strstr(path, r->sub)) continue;
    r->seen++;
    if (!res && (r->seen == r->nth || (r->sticky && r->seen > r->nth))) { r->fired++; res = r; }
  }
  return res;
}

static void crash(const char *op, const char *path) {
  note(op, path, 0, 0, "CRASH");
  _exit(137);
}

static int after_open(const char *path, int fd) {
  if (fd >= 0 && fd < MAXFD) { infd[fd] = 1; fdpath[fd] = pathid(path); }
  return fd;
}

static int pre_open(const char *path, int flags, int *err) {
  struct rule *r = hit(OP_OPEN, path);
  if (r) {
    if (r->action == A_CRASH || r->action == A_SHORTCRASH) crash("open", path);
    if (r->action == A_ERRNO) { note("open", path, flags, -1, strerrorname_np(r->arg)); *err = r->arg; return 1; }
  }
  note("open", path, flags & 3, 0, "");
  return 0;
}

#define OPENBODY(NAME, REAL, CALL)                                  \
  mode_t mode = 0;                                                  \
  if (flags & (O_CREAT | O_TMPFILE)) {                              \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); \
  }                                                                 \
  init();                                                           \
  if (!scoped(path)) return CALL;                                   \
  int err = 0;                                                      \
  if (pre_open(path, flags, &err)) { errno = err; return -1; }      \
  return after_open(path, CALL);

int open(const char *path, int flags, ...) { OPENBODY("open", r_open, r_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPENBODY("open64", r_open64, r_open64(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { OPENBODY("openat", r_openat, r_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY("openat64", r_openat64, r_openat64(d, path, flags, mode)) }

ssize_t read(int fd, void *buf, size_t n) {
  init();
  if (!active || fd < 0 || fd >= MAXFD || !infd[fd]) return r_read(fd, buf, n);
  const char *p = paths[fdpath[fd]];
  struct rule *r = hit(OP_READ, p);
  if (r) {
    if (r->action == A_ERRNO) { note("read", p, n, -1, strerrorname_np(r->arg)); errno = r->arg; return -1; }
    if (r->action == A_CRASH) crash("read", p);
    if (r->action == A_SHORT && n > (size_t)r->arg) { n = r->arg; ssize_t k = r_read(fd, buf, n); note("read", p, n, k, "SHORT"); return k; }
  }
  ssize_t k = r_read(fd, buf, n);
  note("read", p, n, k, "");
  return k;
}

ssize_t write(int fd, const void *buf, size_t n) {
  init();
  if (!active || fd < 0 || fd >= MAXFD || !infd[fd]) return r_write(fd, buf, n);
  const char *p = paths[fdpath[fd]];
  struct rule *r = hit(OP_WRITE, p);
  if (r) {
    if (r->action == A_ERRNO) { note("write", p, n, -1, strerrorname_np(r->arg)); errno = r->arg; return -1; }
    if (r->action == A_CRASH) crash("write", p);
    if (n > (size_t)r->arg) {
      n = r->arg;
      ssize_t k = r_write(fd, buf, n);
      note("write", p, n, k, r->action == A_SHORTCRASH ? "TORN" : "SHORT");
      if (r->action == A_SHORTCRASH) crash("write", p);
      return k;
    }
    if (r->action == A_SHORTCRASH) { r_write(fd, buf, n); crash("write", p); }
  }
  ssize_t k = r_write(fd, buf, n);
  note("write", p, n, k, "");
  return k;
}

int close(int fd) {
  init();
  if (!active || fd < 0 || fd >= MAXFD || !infd[fd]) return r_close(fd);
  const char *p = paths[fdpath[fd]];
  infd[fd] = 0;
  struct rule *r = hit(OP_CLOSE, p);
  if (r && (r->action == A_CRASH || r->action == A_SHORTCRASH)) crash("close", p);
  int k = r_close(fd);
  if (r && r->action == A_ERRNO) { note("close", p, 0, -1, strerrorname_np(r->arg)); errno = r->arg; return -1; }
  note("close", p, 0, k, "");
  return k;
}

// ---- control ----
void shim_reset(void) {
  nrules = 0; nprefix = 0; loglen = 0; logbuf[0] = 0; active = 0;
  memset(counts, 0, sizeof counts); memset(infd, 0, sizeof infd); npaths = 0; logfile[0] = 0;
}
void shim_clear_rules(void) { nrules = 0; }
void shim_prefix(const char *p) {
  if (nprefix < MAXP) { strncpy(prefixes[nprefix], p, 511); nprefix++; active = 1; }
}
int shim_arm(int op, int nth, int action, int arg, int sticky, const char *sub) {
  if (nrules >= MAXR) return -1;
  struct rule *r = &rules[nrules];
  memset(r, 0, sizeof *r);
  r->op = op; r->nth = nth; r->action = action; r->arg = arg; r->sticky = sticky;
  strncpy(r->sub, sub, 127);
  return nrules++;
}
int shim_fired(int i) { return i < nrules ? rules[i].fired : 0; }
long shim_count(int op) { return counts[op]; }
const char *shim_log(void) { return logbuf; }
void shim_clear_log(void) { loglen = 0; logbuf[0] = 0; memset(counts, 0, sizeof counts); }

// SIM_SHIM = "prefix|prefix2;op,nth,action,arg,sticky,sub;..."   (for exec'd processes)
__attribute__((constructor)) static void from_env(void) {
  init();
  const char *e = getenv("SIM_SHIM");
  if (!e) return;
  const char *l = getenv("SIM_SHIM_LOG");
  if (l) strncpy(logfile, l, sizeof logfile - 1);
  char *s = strdup(e), *save = 0;
  char *tok = strtok_r(s, ";", &save);
  if (tok) {
    char *sv2 = 0;
    for (char *q = strtok_r(tok, "|", &sv2); q; q = strtok_r(0, "|", &sv2)) shim_prefix(q);
  }
  while ((tok = strtok_r(0, ";", &save))) {
    int a, b, c, d, f; char sub[128] = "";
    if (sscanf(tok, "%d,%d,%d,%d,%d,%127s", &a, &b, &c, &d, &f, sub) >= 5) shim_arm(a, b, c, d, f, sub);
  }
  free(s);
}

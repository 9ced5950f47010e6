// simio: the seam between the code under test and the operating system.
//
// Preloaded into the simulator (vsim) and into the command line tool.  Every call through which
// the code can meet the outside world goes through here: files, standard output, clocks,
// randomness, sleeping, processes, sockets, threads and futexes.  Calls on paths below the
// scratch root (and on stdout/stderr) are numbered; a plan decides for every number whether it
// is served, served in part, interrupted, refused, preceded by a replacement of a file, or is the
// last thing the process does.  Everything else is served but, when it would modify anything,
// refused and recorded.
//
// Raw system calls only: nothing in here goes through an interposable libc function.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <dlfcn.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define raw(n, ...) RAWX(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAWX(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// ------------------------------------------------------------------------------------------
// state

enum kind { K_OPEN, K_READ, K_WRITE, K_SEEK, K_STAT, K_CLOSE, K_MOD, K_NKINDS };
static const char *kind_name[] = {"open", "read", "write", "seek", "stat", "close", "mod"};

enum fk { F_ERRNO, F_ERRNOS, F_SHORT, F_EOF, F_CRASH, F_CRASHA, F_TORN, F_FULL, F_PUB, F_NOMEM };
static const char *fault_name[] = {"errno", "errnos", "short", "eof", "crash", "crasha", "torn", "full", "pub", "nomem"};

struct fault { uint64_t op; int kind; long arg; int fired; char a[256], b[256]; };
#define MAXF 256
#define MAXFD 1024
#define MAXNAMES 512

static struct {
  int active;            // operations are numbered, traced and faulted
  int lib;               // library mode: writes to stdout/stderr are not expected and get flagged
  char root[PATH_MAX];
  size_t rootlen;
  int trace_fd;
  uint64_t ops;          // numbered operations so far
  struct fault f[MAXF];
  int nf;
  uint64_t chunk_seed; int chunk_mode; // 0 none, 1 tiny, 2 mixed, 3 halves
  int chunk_w;           // also split writes
  uint64_t eintr_seed; int eintr_pm; int eintr_mask; // 1 read 2 write 4 open
  int clock_on; uint64_t clock_ns; uint64_t clock_step; uint64_t clock_seed; uint64_t clock_n; uint64_t mono_ns;
  int rand_on; uint64_t rand_seed; uint64_t rand_n;
  int baton_req, baton_grant; // multi-process mode
  long nomem;            // allocations left until one fails (0: none does)
  int full_on;           // the disk is full from now on
  int deny;              // refuse modifications outside the scratch root
  uint64_t outside;      // number of refused or flagged actions
} S = {.trace_fd = -1, .baton_req = -1, .baton_grant = -1};

struct fdent { int tracked; int name; int eof; int dead; uint64_t got; };
static struct fdent F[MAXFD];
static char *names[MAXNAMES];
static int nnames;
static char namebuf[1 << 16];
static size_t namelen;
static int open_tracked; // tracked descriptors currently open

static int lockword;
static void lk(void) { while (__atomic_exchange_n(&lockword, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield); }
static void ulk(void) { __atomic_store_n(&lockword, 0, __ATOMIC_RELEASE); }

// ------------------------------------------------------------------------------------------
// trace

static char tb[4096];
static void tput(const char *s, size_t n) { if (S.trace_fd >= 0) raw(SYS_write, S.trace_fd, s, n); }
static size_t s_str(char *o, const char *s) { size_t n = strlen(s); memcpy(o, s, n); return n; }
static size_t s_num(char *o, long v) {
  char t[24]; size_t n = 0, k = 0; unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v;
  do { t[n++] = '0' + u % 10; u /= 10; } while (u);
  if (v < 0) o[k++] = '-';
  while (n) o[k++] = t[--n];
  return k;
}
static size_t s_name(char *o, const char *s, size_t max) {
  static const char hx[] = "0123456789abcdef";
  size_t k = 0;
  for (; *s && k + 4 < max; s++) {
    unsigned char c = *s;
    if (c <= ' ' || c == '%' || c >= 127) { o[k++] = '%'; o[k++] = hx[c >> 4]; o[k++] = hx[c & 15]; }
    else o[k++] = c;
  }
  if (!k) o[k++] = '-';
  return k;
}
// <n> <kind> <file> <arg> <ret> <note>
static void trace(uint64_t n, const char *kind, const char *file, long arg, long r, const char *note) {
  if (S.trace_fd < 0) return;
  size_t k = 0;
  k += s_num(tb + k, (long)n); tb[k++] = ' ';
  k += s_str(tb + k, kind); tb[k++] = ' ';
  k += s_name(tb + k, file, 2000); tb[k++] = ' ';
  k += s_num(tb + k, arg); tb[k++] = ' ';
  k += s_num(tb + k, r); tb[k++] = ' ';
  k += s_name(tb + k, note && *note ? note : "-", 500); tb[k++] = '\n';
  tput(tb, k);
}
// something the code under test must not do
static void flag(const char *what, const char *file, long arg) {
  lk(); S.outside++; trace(S.ops, "FLAG", file, arg, 0, what); ulk();
}

// ------------------------------------------------------------------------------------------
// names

static const char *rel(const char *path) { // path relative to the scratch root or 0 if outside
  if (path[0] != '/') {
    while (path[0] == '.' && path[1] == '/') { path += 2; while (*path == '/') path++; }
    if (path[0] == '.' && path[1] == '.' && (path[2] == '/' || !path[2])) return 0;
    return path;
  }
  if (S.rootlen && !strncmp(path, S.root, S.rootlen) && path[S.rootlen] == '/') return path + S.rootlen + 1;
  return 0;
}
static int name_id(const char *r) {
  for (int i = 0; i < nnames; i++) if (!strcmp(names[i], r)) return i;
  size_t n = strlen(r) + 1;
  if (nnames >= MAXNAMES || namelen + n > sizeof namebuf) return 0;
  names[nnames] = namebuf + namelen; memcpy(names[nnames], r, n); namelen += n;
  return nnames++;
}

// ------------------------------------------------------------------------------------------
// plan

static void die_now(void) { { long pid = raw(SYS_getpid); raw(SYS_kill, pid, SIGKILL); }; for (;;) raw(SYS_pause); }

struct dec { // what happens to one operation
  uint64_t n; int err; long shrt; int eof; int crash_after; long torn; int full; const char *note; int tofire;
};

EXPORT void sim_yield_point(void);
static int thread_on(void);

static struct dec decide(int kind, int isfile, long len, int fdname) {
  struct dec d = {0};
  d.shrt = -1; d.torn = -1; d.note = "";
  if (S.baton_req >= 0) { // wait until the scheduler lets this process act
    char c = kind == K_WRITE ? 'w' : kind == K_READ ? 'r' : kind == K_OPEN ? 'o' : 'x';
    raw(SYS_write, S.baton_req, &c, 1);
    while (raw(SYS_read, S.baton_grant, &c, 1) == -EINTR) {}
  }
  if (thread_on()) sim_yield_point();
  lk();
  uint64_t n = d.n = S.ops++;
  for (int i = 0; i < S.nf; i++) {
    struct fault *f = &S.f[i];
    if (f->kind == F_ERRNOS && f->fired && f->fired == 1 + kind * 1000 + fdname) { d.err = (int)f->arg; d.note = "dead"; }
    if (f->op != n || f->fired) continue;
    // one failure per operation: what it did has to be told from its note
    if (f->kind == F_NOMEM) { f->fired = 1; S.nomem = f->arg; continue; }
    if (f->kind != F_PUB && d.note[0] && strcmp(d.note, "pub")) continue;
    switch (f->kind) {
      case F_ERRNO:
        if (kind == K_CLOSE) break;
        d.err = (int)f->arg; f->fired = 1; d.note = "errno"; break;
      case F_ERRNOS:
        if (kind == K_CLOSE) break;
        d.err = (int)f->arg; f->fired = 1 + kind * 1000 + fdname; d.note = "errnos"; break;
      case F_SHORT:
        if ((kind == K_READ || kind == K_WRITE) && f->arg < len) { d.shrt = f->arg > 0 ? f->arg : 1; f->fired = 1; d.note = "short"; }
        break;
      case F_EOF:
        if (kind == K_READ) { d.eof = 1; f->fired = 1; d.note = "eof"; }
        break;
      case F_CRASH: f->fired = 1; trace(n, kind_name[kind], fdname >= 0 ? names[fdname] : "-", len, 0, "crash"); die_now();
      case F_CRASHA: f->fired = 1; d.crash_after = 1; d.note = "crasha"; break;
      case F_TORN:
        if (kind == K_WRITE) { d.torn = f->arg < len ? f->arg : len; f->fired = 1; d.note = "torn"; }
        break;
      case F_FULL:
        if (kind == K_WRITE) { d.full = 1; d.shrt = f->arg; f->fired = 1; d.note = "full"; }
        break;
      case F_PUB: {
        f->fired = 1; if (!d.note[0]) d.note = "pub";
        char pa[PATH_MAX * 2], pb[PATH_MAX * 2];
        size_t k = s_str(pa, S.root); pa[k++] = '/'; k += s_str(pa + k, f->a); pa[k] = 0;
        k = s_str(pb, S.root); pb[k++] = '/'; k += s_str(pb + k, f->b); pb[k] = 0;
        long r = raw(SYS_renameat, AT_FDCWD, pa, AT_FDCWD, pb);
        trace(n, "PUB", f->b, i, r, f->a);
        break;
      }
    }
  }
  if (S.full_on && kind == K_WRITE && isfile) { d.err = ENOSPC; d.note = "full"; }
  if (!d.err && d.shrt < 0 && d.torn < 0 && !d.eof && !d.full && !d.crash_after) {
    int bit = kind == K_READ ? 1 : kind == K_WRITE ? 2 : kind == K_OPEN ? 4 : 0;
    if (S.eintr_pm && (S.eintr_mask & bit) && mix(S.eintr_seed ^ mix(n)) % 1000 < (uint64_t)S.eintr_pm) { d.err = EINTR; d.note = "eintr"; }
    else if (S.chunk_mode && len > 1 && (kind == K_READ || (kind == K_WRITE && S.chunk_w))) {
      uint64_t h = mix(S.chunk_seed ^ mix(n * 3 + 1)), g = mix(h);
      long c = -1;
      switch (S.chunk_mode) {
        case 1: c = 1 + h % 7; break;
        case 2: if (g % 3 == 0) c = 1 + h % 64; else if (g % 3 == 1) c = 1 + h % (uint64_t)len; break;
        case 3: c = (len + 1) / 2; break;
        case 4: if (g % 2) c = 1 + h % 2048; break;
        case 5: c = 1; break;
      }
      if (c > 0 && c < len) { d.shrt = c; d.note = "chunk"; }
    }
  }
  ulk();
  return d;
}
static void done(struct dec *d, int kind, const char *file, long arg, long r) {
  lk(); trace(d->n, kind_name[kind], file, arg, r, d->note); ulk();
  if (d->crash_after) die_now();
}

static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static const char *word(const char *p, char *o, size_t max) { // one %-encoded word
  size_t k = 0;
  while (*p == ' ') p++;
  while (*p && *p != ' ' && *p != '\n') {
    char c = *p++;
    if (c == '%' && p[0] && p[1]) { c = (char)(hexv(p[0]) * 16 + hexv(p[1])); p += 2; }
    if (k + 1 < max) o[k++] = c;
  }
  o[k] = 0;
  return p;
}
static const char *num(const char *p, long *v) {
  char t[64]; p = word(p, t, sizeof t);
  unsigned long u = 0; char *q = t; int neg = 0;
  if (*q == '-') { neg = 1; q++; }
  while (*q >= '0' && *q <= '9') u = u * 10 + (unsigned long)(*q++ - '0');
  *v = neg ? -(long)u : (long)u;
  return p;
}

static void sched_cfg(const char *key, const char *p);

static void parse(const char *p) {
  while (*p) {
    char key[64]; long v;
    const char *nl = p; while (*nl && *nl != '\n') nl++;
    p = word(p, key, sizeof key);
    if (!strcmp(key, "root")) { word(p, S.root, sizeof S.root); S.rootlen = strlen(S.root); }
    else if (!strcmp(key, "trace")) {
      char t[PATH_MAX]; word(p, t, sizeof t);
      long fd = raw(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
      if (fd >= 0) { long hi = raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); raw(SYS_close, fd); S.trace_fd = (int)hi; }
    }
    else if (!strcmp(key, "lib")) { num(p, &v); S.lib = (int)v; }
    else if (!strcmp(key, "deny")) { num(p, &v); S.deny = (int)v; }
    else if (!strcmp(key, "chunk")) { p = num(p, &v); S.chunk_seed = (uint64_t)v; p = num(p, &v); S.chunk_mode = (int)v; num(p, &v); S.chunk_w = (int)v; }
    else if (!strcmp(key, "eintr")) { p = num(p, &v); S.eintr_seed = (uint64_t)v; p = num(p, &v); S.eintr_pm = (int)v; num(p, &v); S.eintr_mask = (int)v; }
    else if (!strcmp(key, "clock")) { S.clock_on = 1; p = num(p, &v); S.clock_ns = (uint64_t)v; p = num(p, &v); S.clock_step = (uint64_t)v; num(p, &v); S.clock_seed = (uint64_t)v; S.mono_ns = 1000000000ull; }
    else if (!strcmp(key, "rand")) { S.rand_on = 1; num(p, &v); S.rand_seed = (uint64_t)v; }
    else if (!strcmp(key, "baton")) { p = num(p, &v); S.baton_req = (int)v; num(p, &v); S.baton_grant = (int)v; }
    else if (!strcmp(key, "fault") && S.nf < MAXF) {
      struct fault *f = &S.f[S.nf]; char t[32];
      p = num(p, &v); f->op = (uint64_t)v; f->fired = 0; f->kind = -1;
      p = word(p, t, sizeof t);
      for (int i = 0; i < 10; i++) if (!strcmp(t, fault_name[i])) f->kind = i;
      if (f->kind == F_PUB) { p = word(p, f->a, sizeof f->a); word(p, f->b, sizeof f->b); }
      else { num(p, &v); f->arg = v; }
      if (f->kind >= 0) S.nf++;
    }
    else sched_cfg(key, p);
    p = *nl ? nl + 1 : nl;
  }
}

// API for the simulator ---------------------------------------------------------------------

EXPORT void sim_reset(void) {
  int t = S.trace_fd;
  if (t >= 0) raw(SYS_close, t);
  memset(&S, 0, sizeof S);
  S.trace_fd = S.baton_req = S.baton_grant = -1;
}
EXPORT void sim_plan(const char *text) { parse(text); }
EXPORT void sim_active(int on) { S.active = on; }
EXPORT uint64_t sim_ops(void) { return S.ops; }
EXPORT uint64_t sim_outside(void) { return S.outside; }
EXPORT void sim_add_fault_rel(const char *text) { // "fault" lines with op numbers relative to now
  int from = S.nf;
  parse(text);
  for (int i = from; i < S.nf; i++) S.f[i].op += S.ops;
}
EXPORT void sim_clear_faults(void) { S.nf = 0; S.full_on = 0; S.nomem = 0; }
EXPORT int sim_fired(void) { int n = 0; for (int i = 0; i < S.nf; i++) n += S.f[i].fired != 0; return n; }
EXPORT int sim_open_fds(void) { return open_tracked; }
EXPORT void sim_mark(const char *what, long a, long b) { lk(); trace(S.ops, "MARK", what, a, b, "-"); ulk(); }

static int S_active(void) { return S.active; }

__attribute__((constructor(101))) static void init(void) {
  const char *pl = getenv("SIM_PLAN");
  if (!pl) return;
  static char buf[1 << 18];
  long fd = raw(SYS_openat, AT_FDCWD, pl, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) { raw(SYS_exit_group, 99); }
  size_t k = 0;
  for (;;) { long r = raw(SYS_read, fd, buf + k, sizeof buf - 1 - k); if (r <= 0) break; k += (size_t)r; }
  raw(SYS_close, fd);
  buf[k] = 0;
  parse(buf);
  F[1].tracked = F[2].tracked = 1;
  F[1].name = name_id("<stdout>"); F[2].name = name_id("<stderr>");
  S.active = 1;
}
EXPORT void sim_track_std(void) {
  F[1].tracked = F[2].tracked = 1;
  F[1].name = name_id("<stdout>"); F[2].name = name_id("<stderr>");
}
EXPORT void sim_untrack_std(void) { F[1].tracked = F[2].tracked = 0; }

// ------------------------------------------------------------------------------------------
// files

static int istracked(int fd) { return S_active() && fd >= 0 && fd < MAXFD && F[fd].tracked; }
static int isfile(int fd) { return fd > 2; }

static int do_open(int dirfd, const char *path, int flags, int mode) {
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  const char *r = S_active() && (dirfd == AT_FDCWD || path[0] == '/') ? rel(path) : 0;
  if (!S_active()) {
    long fd = raw(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { memset(&F[fd], 0, sizeof F[fd]); }
    return (int)ret(fd);
  }
  if (!r) {
    if (wr && strcmp(path, "/dev/null") && strcmp(path, "/dev/tty")) {
      flag("open-outside", path, flags);
      if (S.deny) { errno = EACCES; return -1; }
    }
    long fd = raw(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) memset(&F[fd], 0, sizeof F[fd]);
    return (int)ret(fd);
  }
  lk(); int id = name_id(r); ulk();
  struct dec d = decide(K_OPEN, 1, 0, id);
  long fd = d.err ? -d.err : raw(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) { memset(&F[fd], 0, sizeof F[fd]); F[fd].tracked = 1; F[fd].name = id; __atomic_add_fetch(&open_tracked, 1, __ATOMIC_RELAXED); }
  if (wr && S.lib) flag("open-for-writing", r, flags);
  done(&d, K_OPEN, r, flags & ~O_CLOEXEC, fd);
  return (int)ret(fd);
}
#define OPEN_MODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { OPEN_MODE return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { OPEN_MODE return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }

static ssize_t do_read(int fd, const struct iovec *iov, int cnt, off_t off, int pos) {
  size_t len = 0;
  for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
  struct dec d = decide(K_READ, 1, (long)len, F[fd].name);
  long r;
  if (d.err) r = -d.err;
  else if (d.eof || F[fd].eof) { F[fd].eof = 1; r = 0; if (!d.eof) d.note = "eof"; }
  else {
    struct iovec v[8]; int c = cnt < 8 ? cnt : 8; size_t left = d.shrt >= 0 ? (size_t)d.shrt : len;
    int k = 0;
    for (int i = 0; i < c && left; i++) { v[k] = iov[i]; if (v[k].iov_len > left) v[k].iov_len = left; left -= v[k].iov_len; k++; }
    r = pos ? raw(SYS_preadv, fd, v, k, off, 0) : raw(SYS_readv, fd, v, k);
  }
  done(&d, K_READ, names[F[fd].name], (long)len, r);
  return ret(r);
}
static ssize_t do_write(int fd, const struct iovec *iov, int cnt, off_t off, int pos) {
  size_t len = 0;
  for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
  if (S.lib) flag("write", names[F[fd].name], (long)len);
  struct dec d = decide(K_WRITE, isfile(fd), (long)len, F[fd].name);
  long r;
  if (d.err) r = -d.err;
  else if (d.torn == 0) { done(&d, K_WRITE, names[F[fd].name], (long)len, 0); die_now(); }
  else if (d.full && d.shrt <= 0) { S.full_on = 1; r = -ENOSPC; }
  else {
    if (d.full) S.full_on = 1;
    struct iovec v[8]; int c = cnt < 8 ? cnt : 8; size_t left = len;
    if (d.shrt >= 0 && (size_t)d.shrt < left) left = (size_t)d.shrt;
    if (d.torn >= 0 && (size_t)d.torn < left) left = (size_t)d.torn;
    int k = 0;
    for (int i = 0; i < c && left; i++) { v[k] = iov[i]; if (v[k].iov_len > left) v[k].iov_len = left; left -= v[k].iov_len; k++; }
    r = pos ? raw(SYS_pwritev, fd, v, k, off, 0) : raw(SYS_writev, fd, v, k);
  }
  // what was written matters for reports on standard output: keep a fingerprint
  done(&d, K_WRITE, names[F[fd].name], (long)len, r);
  if (d.torn >= 0) die_now();
  return ret(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!istracked(fd)) return ret(raw(SYS_read, fd, b, n));
  struct iovec v = {b, n}; return do_read(fd, &v, 1, 0, 0);
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!istracked(fd)) return ret(raw(SYS_readv, fd, v, c));
  return do_read(fd, v, c, 0, 0);
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (!istracked(fd)) return ret(raw(SYS_pread64, fd, b, n, o));
  struct iovec v = {b, n}; return do_read(fd, &v, 1, o, 1);
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
EXPORT ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) {
  if (!istracked(fd)) return ret(raw(SYS_preadv, fd, v, c, o, 0));
  return do_read(fd, v, c, o, 1);
}
EXPORT ssize_t preadv64(int fd, const struct iovec *v, int c, off_t o) { return preadv(fd, v, c, o); }
static int outside_write(int fd) { // a descriptor we do not know: pipes of the harness, never files
  if (!S_active() || !S.deny) return 0;
  if (fd == 1 || fd == 2) return 0;
  struct stat st;
  if (raw(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode)) { flag("write-outside", "fd", fd); return 1; }
  return 0;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!istracked(fd)) { if (outside_write(fd)) { errno = EACCES; return -1; } return ret(raw(SYS_write, fd, b, n)); }
  struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, 0, 0);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!istracked(fd)) { if (outside_write(fd)) { errno = EACCES; return -1; } return ret(raw(SYS_writev, fd, v, c)); }
  return do_write(fd, v, c, 0, 0);
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (!istracked(fd)) { if (outside_write(fd)) { errno = EACCES; return -1; } return ret(raw(SYS_pwrite64, fd, b, n, o)); }
  struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, o, 1);
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
EXPORT ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) {
  if (!istracked(fd)) { if (outside_write(fd)) { errno = EACCES; return -1; } return ret(raw(SYS_pwritev, fd, v, c, o, 0)); }
  return do_write(fd, v, c, o, 1);
}
EXPORT ssize_t pwritev64(int fd, const struct iovec *v, int c, off_t o) { return pwritev(fd, v, c, o); }
// the kernel-side copies: refused, so that callers fall back to read and write
EXPORT ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
  if (S_active()) { errno = ENOSYS; return -1; }
  return ret(raw(SYS_copy_file_range, a, b, c, d, n, f));
}
EXPORT ssize_t sendfile(int o, int i, off_t *f, size_t n) {
  if (S_active()) { errno = ENOSYS; return -1; }
  return ret(raw(SYS_sendfile, o, i, f, n));
}
EXPORT ssize_t sendfile64(int o, int i, off_t *f, size_t n) { return sendfile(o, i, f, n); }
EXPORT ssize_t splice(int a, off_t *b, int c, off_t *d, size_t n, unsigned f) {
  if (S_active()) { errno = EINVAL; return -1; }
  return ret(raw(SYS_splice, a, b, c, d, n, f));
}

EXPORT off_t lseek(int fd, off_t o, int w) {
  if (!istracked(fd)) return ret(raw(SYS_lseek, fd, o, w));
  struct dec d = decide(K_SEEK, 1, 0, F[fd].name);
  long r = d.err ? -d.err : raw(SYS_lseek, fd, o, w);
  done(&d, K_SEEK, names[F[fd].name], o, r);
  return ret(r);
}
EXPORT off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }

EXPORT int close(int fd) {
  if (!istracked(fd)) return (int)ret(raw(SYS_close, fd));
  struct dec d = decide(K_CLOSE, 1, 0, F[fd].name);
  long r = raw(SYS_close, fd);
  if (fd > 2) __atomic_sub_fetch(&open_tracked, 1, __ATOMIC_RELAXED);
  F[fd].tracked = 0;
  done(&d, K_CLOSE, names[F[fd].name], 0, r);
  return (int)ret(r);
}

static int fd_stat_dec(int fd, struct dec *d) { *d = decide(K_STAT, 1, 0, F[fd].name); return d->err; }
EXPORT int fstat(int fd, struct stat *st) {
  if (!istracked(fd)) return (int)ret(raw(SYS_fstat, fd, st));
  struct dec d; int e = fd_stat_dec(fd, &d);
  long r = e ? -e : raw(SYS_fstat, fd, st);
  done(&d, K_STAT, names[F[fd].name], 0, r);
  return (int)ret(r);
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
static int path_op(int kind, const char *path, const char *note, long nr, long a, long b, long c, long d4, long e5) {
  const char *r = path ? rel(path) : 0;
  int mod = kind == K_MOD;
  if (!S_active()) return (int)ret(raw(nr, a, b, c, d4, e5));
  if (!r) {
    if (mod) { flag(note, path ? path : "?", 0); if (S.deny) { errno = EACCES; return -1; } }
    return (int)ret(raw(nr, a, b, c, d4, e5));
  }
  lk(); int id = name_id(r); ulk();
  if (mod && S.lib) flag(note, r, 0);
  struct dec d = decide(kind, 1, 0, id);
  long x = d.err ? -d.err : raw(nr, a, b, c, d4, e5);
  if (mod && !*d.note) d.note = note;
  done(&d, kind, r, 0, x);
  return (int)ret(x);
}
#define ATPATH(dir, p) ((dir) == AT_FDCWD || (p)[0] == '/' ? (p) : 0)
EXPORT int stat(const char *p, struct stat *st) { return path_op(K_STAT, p, "", SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) { return path_op(K_STAT, p, "", SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW, 0); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) { return path_op(K_STAT, ATPATH(d, p), "", SYS_newfstatat, d, (long)p, (long)st, f, 0); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) { return fstatat(d, p, (struct stat *)st, f); }
EXPORT int statx(int dfd, const char *p, int flags, unsigned mask, struct statx *st) {
  __asm__("" : "+r"(p)); // declared nonnull, yet the standard library probes with a null path
  if (p && !*p && (flags & AT_EMPTY_PATH)) {
    if (!istracked(dfd)) return (int)ret(raw(SYS_statx, dfd, p, flags, mask, st));
    struct dec d; int e = fd_stat_dec(dfd, &d);
    long r = e ? -e : raw(SYS_statx, dfd, p, flags, mask, st);
    done(&d, K_STAT, names[F[dfd].name], 0, r);
    return (int)ret(r);
  }
  if (!p) return (int)ret(raw(SYS_statx, dfd, p, flags, mask, st));
  return path_op(K_STAT, ATPATH(dfd, p), "", SYS_statx, dfd, (long)p, flags, mask, (long)st);
}
EXPORT int access(const char *p, int m) { return path_op(K_STAT, p, "", SYS_access, (long)p, m, 0, 0, 0); }
EXPORT int faccessat(int d, const char *p, int m, int f) { return path_op(K_STAT, ATPATH(d, p), "", SYS_faccessat, d, (long)p, m, f, 0); }

// modifications
EXPORT int rename(const char *a, const char *b) {
  if (S_active() && !rel(b)) { flag("rename", b, 0); if (S.deny) { errno = EACCES; return -1; } }
  return path_op(K_MOD, a, "rename", SYS_rename, (long)a, (long)b, 0, 0, 0);
}
EXPORT int renameat(int da, const char *a, int db, const char *b) { return path_op(K_MOD, ATPATH(da, a), "rename", SYS_renameat, da, (long)a, db, (long)b, 0); }
EXPORT int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return path_op(K_MOD, ATPATH(da, a), "rename", SYS_renameat2, da, (long)a, db, (long)b, f); }
EXPORT int unlink(const char *p) { return path_op(K_MOD, p, "unlink", SYS_unlink, (long)p, 0, 0, 0, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return path_op(K_MOD, ATPATH(d, p), "unlink", SYS_unlinkat, d, (long)p, f, 0, 0); }
EXPORT int remove(const char *p) {
  int r = path_op(K_MOD, p, "unlink", SYS_unlink, (long)p, 0, 0, 0, 0);
  if (r < 0 && errno == EISDIR) return path_op(K_MOD, p, "rmdir", SYS_rmdir, (long)p, 0, 0, 0, 0);
  return r;
}
EXPORT int rmdir(const char *p) { return path_op(K_MOD, p, "rmdir", SYS_rmdir, (long)p, 0, 0, 0, 0); }
EXPORT int mkdir(const char *p, mode_t m) { return path_op(K_MOD, p, "mkdir", SYS_mkdir, (long)p, m, 0, 0, 0); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return path_op(K_MOD, ATPATH(d, p), "mkdir", SYS_mkdirat, d, (long)p, m, 0, 0); }
EXPORT int link(const char *a, const char *b) { return path_op(K_MOD, b, "link", SYS_link, (long)a, (long)b, 0, 0, 0); }
EXPORT int linkat(int da, const char *a, int db, const char *b, int f) { return path_op(K_MOD, ATPATH(db, b), "link", SYS_linkat, da, (long)a, db, (long)b, f); }
EXPORT int symlink(const char *a, const char *b) { return path_op(K_MOD, b, "symlink", SYS_symlink, (long)a, (long)b, 0, 0, 0); }
EXPORT int symlinkat(const char *a, int db, const char *b) { return path_op(K_MOD, ATPATH(db, b), "symlink", SYS_symlinkat, (long)a, db, (long)b, 0, 0); }
EXPORT int truncate(const char *p, off_t n) { return path_op(K_MOD, p, "truncate", SYS_truncate, (long)p, n, 0, 0, 0); }
EXPORT int truncate64(const char *p, off_t n) { return truncate(p, n); }
EXPORT int chmod(const char *p, mode_t m) { return path_op(K_MOD, p, "chmod", SYS_chmod, (long)p, m, 0, 0, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { return path_op(K_MOD, ATPATH(d, p), "chmod", SYS_fchmodat, d, (long)p, m, f, 0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { return path_op(K_MOD, p, "chown", SYS_chown, (long)p, u, g, 0, 0); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return path_op(K_MOD, p, "chown", SYS_lchown, (long)p, u, g, 0, 0); }
EXPORT int mkfifo(const char *p, mode_t m) { return path_op(K_MOD, p, "mknod", SYS_mknod, (long)p, S_IFIFO | m, 0, 0, 0); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  if (!p) { if (istracked(d)) { if (S.lib) flag("utimens", names[F[d].name], 0); } return (int)ret(raw(SYS_utimensat, d, p, t, f)); }
  return path_op(K_MOD, ATPATH(d, p), "utimens", SYS_utimensat, d, (long)p, (long)t, f, 0);
}
EXPORT int futimens(int fd, const struct timespec t[2]) {
  if (istracked(fd) && S.lib) flag("utimens", names[F[fd].name], 0);
  return (int)ret(raw(SYS_utimensat, fd, 0, t, 0));
}
static int fd_mod(int fd, const char *note, long nr, long a, long b, long c) {
  if (!istracked(fd)) return (int)ret(raw(nr, fd, a, b, c));
  if (S.lib) flag(note, names[F[fd].name], 0);
  struct dec d = decide(K_MOD, 1, 0, F[fd].name);
  long r = d.err ? -d.err : raw(nr, fd, a, b, c);
  if (!*d.note) d.note = note;
  done(&d, K_MOD, names[F[fd].name], a, r);
  return (int)ret(r);
}
EXPORT int ftruncate(int fd, off_t n) { return fd_mod(fd, "ftruncate", SYS_ftruncate, n, 0, 0); }
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { return fd_mod(fd, "fallocate", SYS_fallocate, m, o, l); }
EXPORT int fallocate64(int fd, int m, off_t o, off_t l) { return fallocate(fd, m, o, l); }
EXPORT int fchmod(int fd, mode_t m) { return fd_mod(fd, "fchmod", SYS_fchmod, m, 0, 0); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { return fd_mod(fd, "fchown", SYS_fchown, u, g, 0); }
// durability requests: tracked operations that can fail, but no modification
static int fd_sync(int fd, long nr) {
  if (!istracked(fd)) return (int)ret(raw(nr, fd));
  struct dec d = decide(K_MOD, 1, 0, F[fd].name);
  long r = d.err ? -d.err : 0;
  if (!*d.note) d.note = "fsync";
  done(&d, K_MOD, names[F[fd].name], 0, r);
  return (int)ret(r);
}
EXPORT int fsync(int fd) { return fd_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return fd_sync(fd, SYS_fdatasync); }
EXPORT void sync(void) { if (S_active()) flag("sync", "-", 0); }

EXPORT int dup(int fd) {
  long r = raw(SYS_dup, fd);
  if (r >= 0 && r < MAXFD) { F[r] = F[fd]; if (istracked(fd)) __atomic_add_fetch(&open_tracked, 1, __ATOMIC_RELAXED); }
  return (int)ret(r);
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (S_active() && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) { // block on the simulator, not in the kernel
    int nb = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
    for (;;) {
      struct dec d = decide(K_STAT, 1, 0, istracked(fd) ? F[fd].name : 0);
      long r = raw(SYS_fcntl, fd, nb, arg);
      if (r != -EAGAIN && r != -EACCES) { d.note = "lock"; done(&d, K_STAT, istracked(fd) ? names[F[fd].name] : "-", cmd, r); return (int)ret(r); }
      if (S.baton_req < 0) return (int)ret(raw(SYS_fcntl, fd, cmd, arg));
    }
  }
  long r = raw(SYS_fcntl, fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) {
    F[r] = F[fd];
    if (istracked(fd)) __atomic_add_fetch(&open_tracked, 1, __ATOMIC_RELAXED);
  }
  return (int)ret(r);
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int flock(int fd, int op) {
  if (!S_active() || !istracked(fd)) return (int)ret(raw(SYS_flock, fd, op));
  for (;;) {
    struct dec d = decide(K_STAT, 1, 0, F[fd].name);
    long r = d.err ? -d.err : raw(SYS_flock, fd, op | LOCK_NB);
    if (r != -EWOULDBLOCK || (op & LOCK_NB) || S.baton_req < 0) {
      if (r == -EWOULDBLOCK && !(op & LOCK_NB)) r = raw(SYS_flock, fd, op);
      d.note = "lock"; done(&d, K_STAT, names[F[fd].name], op, r); return (int)ret(r);
    }
  }
}

// ------------------------------------------------------------------------------------------
// the rest of the world

static int deny_call(const char *what) { flag(what, "-", 0); errno = EPERM; return -1; }
#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
EXPORT int socket(int d, int t, int p) { if (S_active()) return deny_call("socket"); return (int)ret(raw(SYS_socket, d, t, p)); }
EXPORT int socketpair(int d, int t, int p, int sv[2]) { if (S_active()) return deny_call("socketpair"); return (int)ret(raw(SYS_socketpair, d, t, p, sv)); }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { if (S_active()) return deny_call("execve"); return (int)ret(raw(SYS_execve, p, a, e)); }
EXPORT int execvp(const char *p, char *const a[]) { if (S_active()) return deny_call("execvp"); int (*f)(const char *, char *const[]) = dlsym(RTLD_NEXT, "execvp"); return f(p, a); }
EXPORT pid_t fork(void) { if (S_active()) return (pid_t)deny_call("fork"); pid_t (*f)(void) = dlsym(RTLD_NEXT, "fork"); return f(); }
EXPORT pid_t vfork(void) { if (S_active()) return (pid_t)deny_call("vfork"); pid_t (*f)(void) = dlsym(RTLD_NEXT, "fork"); return f(); }
EXPORT int posix_spawn(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const g[]) {
  if (S_active()) { flag("posix_spawn", b, 0); return EPERM; }
  int (*f)(pid_t *, const char *, const void *, const void *, char *const[], char *const[]) = dlsym(RTLD_NEXT, "posix_spawn"); return f(a, b, c, d, e, g);
}
EXPORT int posix_spawnp(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const g[]) {
  if (S_active()) { flag("posix_spawnp", b, 0); return EPERM; }
  int (*f)(pid_t *, const char *, const void *, const void *, char *const[], char *const[]) = dlsym(RTLD_NEXT, "posix_spawnp"); return f(a, b, c, d, e, g);
}
EXPORT int pidfd_spawnp(int *a, const char *b, const void *c, const void *d, char *const e[], char *const g[]) {
  if (S_active()) { flag("pidfd_spawnp", b, 0); return EPERM; }
  int (*f)(int *, const char *, const void *, const void *, char *const[], char *const[]) = dlsym(RTLD_NEXT, "pidfd_spawnp"); return f ? f(a, b, c, d, e, g) : ENOSYS;
}
EXPORT int system(const char *c) { if (S_active()) return deny_call("system"); int (*f)(const char *) = dlsym(RTLD_NEXT, "system"); return f(c); }

static void clock_tick(void) {
  uint64_t n = S.clock_n++;
  uint64_t h = mix(S.clock_seed ^ mix(n));
  S.mono_ns += S.clock_step + h % 1000;
  S.clock_ns += S.clock_step + h % 1000;
  if (S.clock_seed && h % 5 == 0) { // the wall clock jumps, forwards or backwards; monotonic time only stalls or leaps
    uint64_t j = mix(h) % 1000000000000ull;
    if (h & 64) S.clock_ns += j * 1000; else S.clock_ns -= S.clock_ns > j * 1000 ? j * 1000 : S.clock_ns / 2;
    if (h & 128) S.mono_ns += j;
  }
}
EXPORT uint64_t sim_clock_reads(void) { return S.clock_n; }
EXPORT uint64_t sim_clock_ns(void) { return S.mono_ns; }
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!S_active() || !S.clock_on) return (int)ret(raw(SYS_clock_gettime, c, t));
  lk(); clock_tick();
  uint64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? S.clock_ns : S.mono_ns;
  ulk();
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  if (!S_active() || !S.clock_on) return (int)ret(raw(SYS_gettimeofday, t, 0));
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *o) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
static int sim_sleep(const struct timespec *r) { lk(); S.mono_ns += (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec; S.clock_ns += (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec; ulk(); if (thread_on()) sim_yield_point(); return 0; }
EXPORT int nanosleep(const struct timespec *r, struct timespec *m) { if (S_active() && S.clock_on) return sim_sleep(r); return (int)ret(raw(SYS_nanosleep, r, m)); }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
  if (S_active() && S.clock_on) { if (!(f & TIMER_ABSTIME)) sim_sleep(r); return 0; }
  long x = raw(SYS_clock_nanosleep, c, f, r, m); return x < 0 ? (int)-x : 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }

EXPORT uint64_t sim_rand_reads(void) { return S.rand_n; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!S_active() || !S.rand_on) return ret(raw(SYS_getrandom, b, n, f));
  lk();
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)mix(S.rand_seed ^ mix(S.rand_n++));
  ulk();
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }

// ------------------------------------------------------------------------------------------
// threads: one runs at a time, and which one is decided here

#define MAXT 32
enum { T_FREE, T_RUN, T_BLOCKED, T_TIMED, T_JOIN, T_DONE };
static struct thr { int st; int go; const int *addr; uint64_t seq; uint64_t wake_at; int join; int timedout; pthread_t h; void *(*fn)(void *); void *arg; } T[MAXT];
static int nthreads;
static int sched_on;
static uint64_t steps, step_limit, sched_seed, prng, next_at, fseq;
static int mean_gap;         // random mode: mean number of steps between switches
static int replay;           // explicit switch list
#define MAXSW 400000
static struct sw { uint64_t step; int to; } *sw; // decisions taken (random mode) or to take (replay)
static int nsw, swpos;
static int deadlock, livelock;
static uint64_t stall_until[MAXT]; // a stalled thread runs again only when it is alone or its time is up
static int heat[MAXT];             // just touched a static: likely to be preempted now
static int hot_odds;
static uint64_t nswitch, nfutexwait;
static uint64_t ilhash;      // fingerprint of the interleaving
static __thread int me = -1;

static int thread_on(void) { return sched_on && me >= 0; }
static uint64_t rnd(void) { return prng = mix(prng); }
static void draw_next(void) {
  // geometric-like gaps on several scales: bursts of dense switching and long quiet stretches
  uint64_t r = rnd() % 10;
  uint64_t g = (uint64_t)mean_gap;
  if (r < 3) g = 1 + g / 64; else if (r < 6) g = 1 + g / 8; else if (r == 9) g = g * 8;
  next_at = steps + 1 + rnd() % (2 * g);
}
static void sched_cfg(const char *key, const char *p) {
  long v;
  if (!strcmp(key, "sched")) { p = num(p, &v); sched_seed = (uint64_t)v; p = num(p, &v); mean_gap = (int)v; num(p, &v); step_limit = (uint64_t)v; }
  else if (!strcmp(key, "switch")) { if (!sw) sw = (void *)raw(SYS_mmap, 0, MAXSW * sizeof *sw, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); replay = 1; p = num(p, &v); sw[nsw].step = (uint64_t)v; num(p, &v); sw[nsw++].to = (int)v; }
  else if (!strcmp(key, "replay")) { replay = 1; }
}
static void fwait(int *w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) raw(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); raw(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1); }
static int pick_runnable(int forced) {
  int r[MAXT], n = 0;
  for (int i = 0; i < nthreads; i++) if (T[i].st == T_RUN && (forced || i != me) && (replay || stall_until[i] <= steps)) r[n++] = i;
  if (!n && (forced || stall_until[me] > steps)) for (int i = 0; i < nthreads; i++) if (T[i].st == T_RUN && (forced || i != me)) r[n++] = i;
  if (!n) return -1;
  if (replay) return r[0];
  return r[rnd() % (uint64_t)n];
}
static void record(int to) {
  ilhash = mix(ilhash ^ mix(steps * 64 + (uint64_t)to));
  nswitch++;
  if (replay) return;
  if (!sw) sw = (void *)raw(SYS_mmap, 0, MAXSW * sizeof *sw, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (nsw < MAXSW) { sw[nsw].step = steps; sw[nsw++].to = to; }
}
static void hand_over(int to) { // give the baton away and wait for its return
  int self = me;
  if (to == self) return;
  fwake(&T[to].go);
  if (self >= 0) fwait(&T[self].go);
}
// the current thread cannot continue: choose who does
static int forced_next(void) {
  steps++;
  int to = -1;
  if (replay) {
    while (swpos < nsw && sw[swpos].step < steps) swpos++;
    if (swpos < nsw && sw[swpos].step == steps && sw[swpos].to < nthreads && T[sw[swpos].to].st == T_RUN) to = sw[swpos].to;
  }
  if (to < 0) to = pick_runnable(1);
  if (to < 0) { // nobody can run: time passes for the sleepers
    int best = -1;
    for (int i = 0; i < nthreads; i++) if (T[i].st == T_TIMED && (best < 0 || T[i].wake_at < T[best].wake_at)) best = i;
    if (best >= 0) { if (T[best].wake_at > S.mono_ns) S.mono_ns = T[best].wake_at; T[best].st = T_RUN; T[best].timedout = 1; to = best; }
  }
  if (to < 0) { deadlock = 1; raw(SYS_exit_group, 86); }
  record(to);
  return to;
}
static void point(int touched) {
  if (!sched_on || me < 0) return;
  steps++;
  if (steps > step_limit) { livelock = 1; raw(SYS_exit_group, 87); }
  int to = -1;
  if (replay) {
    if (swpos < nsw && sw[swpos].step <= steps) {
      while (swpos < nsw && sw[swpos].step < steps) swpos++;
      if (swpos < nsw && sw[swpos].step == steps) { to = sw[swpos].to; swpos++; if (to >= nthreads || T[to].st != T_RUN || to == me) to = -1; }
    }
  } else {
    int now = steps >= next_at;
    if (now) draw_next();
    if (touched) heat[me] = 24;
    if (heat[me] > 0) { heat[me]--; now |= rnd() % (uint64_t)hot_odds == 0; }
    // a preempted thread may stay away for long, so that the others get through whole operations meanwhile
    if (now && rnd() % 3 == 0) stall_until[me] = steps + (1ull << (rnd() % 20));
    if (now) to = pick_runnable(0);
  }
  if (to >= 0) { record(to); hand_over(to); }
}
EXPORT void sim_yield_point(void) { point(0); }
EXPORT void sim_touch(void) { point(1); }
static pthread_key_t exit_key;
static pthread_once_t exit_once = PTHREAD_ONCE_INIT;
static void thread_gone(void *p) {
  long n = (long)p;
  if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; } // after all other destructors
  if (!sched_on || me < 0) return;
  int self = me;
  T[self].st = T_DONE;
  for (int i = 0; i < nthreads; i++) if (T[i].st == T_JOIN && T[i].join == self) T[i].st = T_RUN;
  int to = forced_next();
  me = -1;
  fwake(&T[to].go);
}
static void make_key(void) { pthread_key_create(&exit_key, thread_gone); }
static void *thread_main(void *p) {
  int id = (int)(long)p;
  me = id;
  pthread_setspecific(exit_key, (void *)1);
  fwait(&T[id].go);
  return T[id].fn(T[id].arg);
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int live_threads;
struct plain { void *(*fn)(void *); void *arg; };
static void *plain_main(void *p) {
  struct plain q = *(struct plain *)p; free(p);
  void *r = q.fn(q.arg);
  __atomic_sub_fetch(&live_threads, 1, __ATOMIC_RELAXED);
  return r;
}
EXPORT int sim_live_threads(void) { return __atomic_load_n(&live_threads, __ATOMIC_RELAXED); }
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sched_on || me < 0) {
    struct plain *q = malloc(sizeof *q); q->fn = fn; q->arg = arg;
    __atomic_add_fetch(&live_threads, 1, __ATOMIC_RELAXED);
    int r = real_create(t, a, plain_main, q);
    if (r) { __atomic_sub_fetch(&live_threads, 1, __ATOMIC_RELAXED); free(q); }
    return r;
  }
  if (nthreads >= MAXT) return EAGAIN;
  int id = nthreads++;
  memset(&T[id], 0, sizeof T[id]);
  T[id].st = T_RUN; T[id].fn = fn; T[id].arg = arg;
  int r = real_create(t, a, thread_main, (void *)(long)id);
  if (r) { T[id].st = T_DONE; return r; }
  T[id].h = *t;
  sim_yield_point();
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **v) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (sched_on && me >= 0) {
    for (int i = 0; i < nthreads; i++) if (pthread_equal(T[i].h, t) && T[i].h) {
      if (T[i].st != T_DONE) { T[me].st = T_JOIN; T[me].join = i; hand_over(forced_next()); }
      T[i].h = 0;
      break;
    }
  }
  return real_join(t, v);
}
EXPORT int sched_yield(void) { if (thread_on()) { sim_yield_point(); return 0; } return (int)ret(raw(SYS_sched_yield)); }

EXPORT void sim_sched_start(void) {
  pthread_once(&exit_once, make_key);
  memset(T, 0, sizeof T);
  nthreads = 1; me = 0; T[0].st = T_RUN;
  steps = 0; swpos = 0; deadlock = livelock = 0; nswitch = 0; ilhash = 0; nfutexwait = 0;
  if (!replay) nsw = 0;
  prng = mix(sched_seed ^ 0x5ced);
  if (mean_gap < 1) mean_gap = 1000;
  if (!step_limit) step_limit = ~0ull;
  memset(stall_until, 0, sizeof stall_until); memset(heat, 0, sizeof heat);
  hot_odds = 2 << (rnd() % 5);
  draw_next();
  sched_on = 1;
}
EXPORT void sim_sched_stop(void) { sched_on = 0; me = -1; }
EXPORT uint64_t sim_sched_steps(void) { return steps; }
EXPORT uint64_t sim_sched_switches(void) { return nswitch; }
EXPORT uint64_t sim_sched_hash(void) { return ilhash; }
EXPORT uint64_t sim_sched_futex(void) { return nfutexwait; }
EXPORT int sim_sched_list(uint64_t *out, int max) { int n = nsw < max ? nsw : max; for (int i = 0; i < n; i++) { out[2 * i] = sw[i].step; out[2 * i + 1] = (uint64_t)sw[i].to; } return n; }

static long sim_futex(int *addr, int op, int val, const struct timespec *to) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sim_yield_point();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    int self = me;
    nfutexwait++;
    T[self].addr = addr; T[self].seq = fseq++; T[self].timedout = 0;
    if (to) {
      uint64_t ns = (uint64_t)to->tv_sec * 1000000000ull + (uint64_t)to->tv_nsec;
      T[self].wake_at = cmd == FUTEX_WAIT_BITSET ? ns : S.mono_ns + ns;
      T[self].st = T_TIMED;
    } else T[self].st = T_BLOCKED;
    int nx = forced_next();
    if (nx != self) hand_over(nx);
    T[self].addr = 0;
    return T[self].timedout ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0;
    while (n < val) {
      int best = -1;
      for (int i = 0; i < nthreads; i++) if ((T[i].st == T_BLOCKED || T[i].st == T_TIMED) && T[i].addr == addr && (best < 0 || T[i].seq < T[best].seq)) best = i;
      if (best < 0) break;
      T[best].st = T_RUN; T[best].addr = 0; n++;
    }
    sim_yield_point();
    return n;
  }
  return -ENOSYS;
}
// process ids end up in messages: every simulated process has the same one
EXPORT pid_t getpid(void) { return S_active() && !S.lib ? 1000 : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0); }
EXPORT pid_t gettid(void) { return S_active() && !S.lib ? 1000 : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0); }
EXPORT pid_t getppid(void) { return S_active() && !S.lib ? 1 : (pid_t)raw(SYS_getppid, 0, 0, 0, 0, 0); }
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && thread_on()) return ret(sim_futex((int *)a, (int)b, (int)c, (const struct timespec *)d));
  if (S_active()) switch (n) {
    case SYS_open: return open((const char *)a, (int)b, (int)c);
    case SYS_openat: return openat((int)a, (const char *)b, (int)c, (int)d);
    case SYS_read: return read((int)a, (void *)b, (size_t)c);
    case SYS_write: return write((int)a, (void *)b, (size_t)c);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_copy_file_range: errno = ENOSYS; return -1;
    case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
    case SYS_clone3: case SYS_clone: case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_socket: return deny_call("syscall");
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------------------------------------
// memory that runs out: one allocation is refused

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int refused(size_t n) {
  if (__builtin_expect(S.nomem == 0, 1) || !S.active) return 0;
  if (__atomic_sub_fetch(&S.nomem, 1, __ATOMIC_RELAXED) != 0) return 0;
  lk(); trace(S.ops, "NOMEM", "-", (long)n, -ENOMEM, "nomem"); ulk();
  errno = ENOMEM;
  return 1;
}
EXPORT void *malloc(size_t n) { return refused(n) ? 0 : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t n) { return refused(a * n) ? 0 : __libc_calloc(a, n); }
EXPORT void *realloc(void *p, size_t n) { return refused(n) ? 0 : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **o, size_t a, size_t n) {
  void *p = refused(n) ? 0 : __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}

// Preloaded into the programs under test. Turns the program into a fork server (one process per
// explored execution, without the cost of loading it), and puts the outcome of every read and write
// call on the explored file and streams, and the number of processors, under the explorer's control.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

// the shared area: counters, for a controlled scheduler its plan at PLAN_AT and its trace at TRACE_AT
enum { SHARED = 1 << 17, PLAN_AT = 4096, TRACE_AT = 4096 + 16384, MAXSCHED = 15000 };
enum { REQ = 198, RESP = 199, OUT = 200, ERR = 201, IN = 202, FILEFD = 203, MAXPLAN = 64 };
// outcomes of a call; 0 is the plain one
enum { PLAIN, ONE, HALF, EINTR_, EIO_, ENOSPC_, EPIPE_, ZERO, EAGAIN_, ALLBUT1 };
// rules for all calls that the plan does not mention
enum { M_NONE, M_ONE, M_EINTR_ONE, M_SEVEN, M_EINTR_TWICE };

struct plan { uint32_t mode, n, at[MAXPLAN], act[MAXPLAN]; };
static struct plan rp, wp;
static uint32_t naff;
static int active;
static dev_t fdev; static ino_t fino;
static volatile uint32_t *counters; // shared with the server: reads, writes, opens

static int action(struct plan *p, uint32_t k) {
  for (uint32_t i = 0; i < p->n; i++) if (p->at[i] == k) return p->act[i];
  switch (p->mode) {
    case M_ONE: return ONE;
    case M_EINTR_ONE: return k % 2 ? ONE : EINTR_;
    case M_EINTR_TWICE: return k % 3 < 2 ? EINTR_ : PLAIN;
    case M_SEVEN: return 100 + 7;
  }
  return PLAIN;
}
// how much of n the call may transfer, or -1 with errno set
static ssize_t allowed(struct plan *p, uint32_t k, size_t n) {
  int a = action(p, k);
  if (a >= 1000) { errno = a - 1000; return -1; }
  if (a >= 100) return n < (size_t)(a - 100) ? n : a - 100;
  switch (a) {
    case ONE: return n ? 1 : 0;
    case HALF: return n > 1 ? n / 2 : n;
    case ALLBUT1: return n > 1 ? n - 1 : n;
    case ZERO: return 0;
    case EINTR_: errno = EINTR; return -1;
    case EIO_: errno = EIO; return -1;
    case ENOSPC_: errno = ENOSPC; return -1;
    case EPIPE_: errno = EPIPE; return -1;
    case EAGAIN_: errno = EAGAIN; return -1;
  }
  return n;
}
static int is_in(int fd) {
  if (!active) return 0;
  if (fd == 0) return 1;
  struct stat st;
  if (syscall(SYS_fstat, fd, &st)) return 0;
  return st.st_dev == fdev && st.st_ino == fino;
}
static int is_out(int fd) { return active && fd == 1; }

ssize_t read(int fd, void *b, size_t n) {
  if (n && is_in(fd)) {
    ssize_t m = allowed(&rp, counters[0]++, n);
    if (m < 0) return -1;
    n = m;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { return read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (n && is_in(fd)) {
    ssize_t m = allowed(&rp, counters[0]++, n);
    if (m < 0) return -1;
    n = m;
  }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
static int cut(const struct iovec *v, int c, size_t m, struct iovec *w) {
  int k = 0;
  for (int i = 0; i < c && m; i++) {
    w[k] = v[i];
    if (w[k].iov_len > m) w[k].iov_len = m;
    m -= w[k].iov_len;
    k++;
  }
  return k;
}
static ssize_t vec(long nr, int fd, const struct iovec *v, int c, struct plan *p, volatile uint32_t *ctr) {
  size_t n = 0;
  if (c > 1024) c = 1024;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (!n) return syscall(nr, fd, v, c);
  ssize_t m = allowed(p, (*ctr)++, n);
  if (m < 0) return -1;
  if (m == 0) return 0;
  struct iovec w[1024];
  return syscall(nr, fd, w, cut(v, c, m, w));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  return is_in(fd) ? vec(SYS_readv, fd, v, c, &rp, &counters[0]) : syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (n && is_out(fd)) {
    ssize_t m = allowed(&wp, counters[1]++, n);
    if (m < 0) return -1;
    if (m == 0) return 0;
    n = m;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  return is_out(fd) ? vec(SYS_writev, fd, v, c, &wp, &counters[1]) : syscall(SYS_writev, fd, v, c);
}
// copying inside the kernel would get around the controlled calls: programs fall back to read and write
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = EINVAL; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }

int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!naff) { long r = syscall(SYS_sched_getaffinity, pid, sz, set); return r < 0 ? -1 : 0; }
  memset(set, 0, sz);
  for (uint32_t i = 0; i < naff && i < sz * 8; i++) CPU_SET_S(i, sz, set);
  return 0;
}
static int hidden(const char *p) { return naff && (strstr(p, "/cgroup") != 0); } // quotas would cap the processors
int open64(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { __builtin_va_list ap; __builtin_va_start(ap, fl); m = __builtin_va_arg(ap, int); __builtin_va_end(ap); }
  if (hidden(p)) { errno = ENOENT; return -1; }
  return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { __builtin_va_list ap; __builtin_va_start(ap, fl); m = __builtin_va_arg(ap, int); __builtin_va_end(ap); }
  if (hidden(p)) { errno = ENOENT; return -1; }
  return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}

static int get(void *b, size_t n) {
  char *p = b;
  while (n) { ssize_t r = syscall(SYS_read, REQ, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; p += r; n -= r; }
  return 0;
}
static void put(const void *b, size_t n) {
  const char *p = b;
  while (n) { ssize_t r = syscall(SYS_write, RESP, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(0); p += r; n -= r; }
}
static uint32_t u32(char **p) { uint32_t x; memcpy(&x, *p, 4); *p += 4; return x; }
static void getplan(char **p, struct plan *q) {
  q->mode = u32(p); q->n = u32(p);
  if (q->n > MAXPLAN) _exit(9);
  for (uint32_t i = 0; i < q->n; i++) { q->at[i] = u32(p); q->act[i] = u32(p); }
}

typedef int (*start_t)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
int __libc_start_main(int (*main)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
  start_t real = (start_t)dlsym(RTLD_NEXT, "__libc_start_main");
  if (!getenv("MC_FORKSERVER")) return real(main, argc, argv, init, fini, rtld_fini, stack_end);
  counters = mmap(0, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (counters == MAP_FAILED) _exit(9);
  char **keep = 0;
  for (;;) {
    uint32_t len;
    if (get(&len, 4)) _exit(0);
    char *buf = malloc(len + 1), *p = buf;
    if (!buf || get(buf, len)) _exit(0);
    uint32_t cpu = u32(&p);
    naff = u32(&p);
    getplan(&p, &rp);
    getplan(&p, &wp);
    uint32_t n = u32(&p);
    // one block behind argv and the environment, as at program start
    int ne = 0;
    while (argv[argc + 1 + ne]) ne++;
    keep = calloc(n + 3 + ne, sizeof(char *));
    for (uint32_t i = 0; i < n; i++) { uint32_t l = u32(&p); keep[i] = malloc(l + 1); memcpy(keep[i], p, l); keep[i][l] = 0; p += l; }
    keep[n] = 0;
    for (int i = 0; i < ne; i++) keep[n + 1 + i] = argv[argc + 1 + i];
    uint32_t ns = u32(&p);
    if (ns > MAXSCHED) _exit(9);
    memcpy((char *)counters + PLAN_AT, p, ns);
    counters[0] = counters[1] = counters[17] = counters[18] = 0;
    counters[16] = ns;
    pid_t pid = fork();
    if (pid == 0) {
      if (syscall(SYS_dup2, OUT, 1) < 0 || syscall(SYS_dup2, ERR, 2) < 0 || syscall(SYS_dup2, IN, 0) < 0) _exit(9);
      struct stat st;
      if (syscall(SYS_fstat, FILEFD, &st)) _exit(9);
      fdev = st.st_dev; fino = st.st_ino;
      close(REQ); close(RESP); close(OUT); close(ERR); close(IN);
      struct rlimit r = { cpu, cpu + 2 };
      setrlimit(RLIMIT_CPU, &r);
      r.rlim_cur = r.rlim_max = cpu >= 200 ? 1ul << 31 : 1ul << 29;
      setrlimit(RLIMIT_FSIZE, &r);
      r.rlim_cur = r.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &r);
      active = 1;
      void (*scheduler)(volatile uint32_t *) = (void (*)(volatile uint32_t *))dlsym(RTLD_DEFAULT, "mc_start");
      if (scheduler) scheduler(counters);
      return real(main, n, keep, init, fini, rtld_fini, stack_end);
    }
    uint32_t resp[4] = { 0, 0, 0, (uint32_t)pid };
    put(&resp[3], 4);
    int status = 0;
    if (pid < 0) status = 9 << 8;
    else while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    resp[0] = status; resp[1] = counters[0]; resp[2] = counters[1];
    put(resp, 12);
    uint32_t tr[2] = { counters[17], counters[18] };
    if (tr[0] > MAXSCHED) tr[0] = MAXSCHED;
    put(tr, 8);
    put((char *)counters + TRACE_AT, tr[0] * 4);
    for (uint32_t i = 0; i < n; i++) free(keep[i]);
    free(keep); free(buf);
  }
}

// A controlled scheduler, preloaded into the instrumented program: one thread runs at a time, and at every
// scheduling point (atomic operation, access to global data, blocking call, start and end of a thread) the
// explorer decides which thread continues. The instrumentation is the compiler's thread sanitizer pass,
// with these functions instead of the sanitizer's runtime.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

enum { MAXT = 64, MAXTRACE = 15000, MAXPLAN = 15000 };
enum { S_NONE, S_RUN, S_FUTEX, S_JOIN, S_DONE };
enum { FREE = 0, PREEMPT = 1, SHAPE = 2 };
static struct thr { pthread_t p; sem_t sem; int state, on; void *addr; int timed, timedout; void *(*f)(void *); void *arg; void *ret; } th[MAXT];
static int nth, active, strangers;
static unsigned char taken[MAXT];
static __thread int me = -1, freely;
static volatile uint32_t *shared; // see faults.c
static uintptr_t glo[8][2];
static int nglo;
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void end(int code, const char *what) {
  raw(SYS_write, 2, (long)what, strlen(what), 0, 0, 0);
  raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}
static int choose(int n, int kind) {
  if (n <= 1) return 0;
  uint32_t k = shared[17];
  if (k >= MAXTRACE) { shared[18] = 1; return 0; }
  const unsigned char *plan = (const unsigned char *)shared + 4096;
  int c = k < shared[16] ? plan[k] : 0;
  if (c >= n) end(78, "explorer: the execution differs from the one this schedule was derived from\n");
  ((volatile uint32_t *)((char *)shared + 4096 + 16384))[k] = n | kind << 8 | c << 16;
  shared[17] = k + 1;
  return c;
}
static int runnable(int *l, int but) {
  int k = 0;
  for (int i = 0; i < nth; i++) if (i != but && th[i].state == S_RUN) l[k++] = i;
  return k;
}
static void give(int t) { sem_post(&th[t].sem); }
static void park(void) { while (sem_wait(&th[me].sem)) {} }
static int since; // points passed since another thread was chosen
static void switch_to(int t) { if (t != me) { since = 0; give(t); park(); } }
static void rest(void);
static void point(int kind) {
  if (me < 0 || nth < 2) return;
  int l[MAXT], k = runnable(l, me);
  if (!k) return;
  int e = errno;
  if (++since > 2000) { since = 0; rest(); errno = e; return; } // a thread that waits actively does not keep the others from going on
  int c = choose(k + 1, kind);
  if (c) switch_to(l[c - 1]);
  errno = e;
}
// this thread cannot continue: another one does
static int pass_on(void) {
  int l[MAXT], k = runnable(l, -1);
  if (!k) {
    for (int i = 0; i < nth && !k; i++) if (th[i].state == S_FUTEX && th[i].timed) { th[i].state = S_RUN; th[i].timedout = 1; l[k++] = i; }
  }
  if (!k) return 0;
  int t = l[choose(k, FREE)];
  if (t == me) return 1;
  give(t);
  return 2;
}
static void stuck(void) { end(77, "deadlock: no thread can continue\n"); }

void mc_print(void) { point(PREEMPT); } // a call that prints
int mc_active(void) { return active && !freely; }
int mc_choose(int n) { return choose(n, SHAPE); }
void mc_free_threads(int on) { freely = on; }
int mc_take_worker(int limit) {
  for (int i = 0; i < limit && i < MAXT; i++) if (!taken[i]) { taken[i] = 1; return i; }
  return -1;
}
void mc_give_worker(int i) { if (i >= 0) taken[i] = 0; }

static int phdr(struct dl_phdr_info *i, size_t s, void *x) {
  uintptr_t ro = 0, roe = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; roe = ro + i->dlpi_phdr[k].p_memsz; }
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nglo < 8) {
    uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (ro <= a && roe > a) a = roe < b ? roe : b;
    if (a < b) { glo[nglo][0] = a; glo[nglo++][1] = b; }
  }
  return 1; // the program itself comes first
}
void mc_start(volatile uint32_t *sh) {
  shared = sh;
  r_create = dlsym(RTLD_NEXT, "pthread_create");
  r_join = dlsym(RTLD_NEXT, "pthread_join");
  dl_iterate_phdr(phdr, 0);
  me = 0; nth = 1;
  th[0].state = S_RUN; th[0].p = pthread_self();
  sem_init(&th[0].sem, 0, 0);
  active = 1;
}

static void *tramp(void *x) {
  me = (int)(intptr_t)x;
  park();
  void *r = th[me].f(th[me].arg);
  th[me].ret = r;
  th[me].state = S_DONE;
  for (int i = 0; i < nth; i++) if (th[i].state == S_JOIN && th[i].on == me) th[i].state = S_RUN;
  int m = me;
  me = -1; // what the C library runs from here on is not explored
  int l[MAXT], k = runnable(l, -1);
  if (!k) for (int i = 0; i < nth && !k; i++) if (th[i].state == S_FUTEX && th[i].timed) { th[i].state = S_RUN; th[i].timedout = 1; l[k++] = i; }
  (void)m;
  if (k) give(l[choose(k, FREE)]);
  else if (!strangers) stuck();
  return r;
}
static int start(void *(*f)(void *), void *arg, const pthread_attr_t *a, pthread_t *out) {
  if (nth >= MAXT) end(79, "explorer: too many threads\n");
  int t = nth;
  sem_init(&th[t].sem, 0, 0);
  th[t].f = f; th[t].arg = arg; th[t].state = S_RUN;
  nth++;
  int r = r_create(&th[t].p, a, tramp, (void *)(intptr_t)t);
  if (r) { nth--; return -r; }
  if (out) *out = th[t].p;
  point(FREE);
  return t;
}
static void wait_for(int t) {
  while (th[t].state != S_DONE) {
    th[me].state = S_JOIN; th[me].on = t;
    int r = pass_on();
    if (r == 0) stuck();
    if (r == 2) park();
    th[me].state = S_RUN;
  }
}
struct boot { void (*f)(unsigned char *); unsigned char *arg; };
static void *boot(void *x) { struct boot b = *(struct boot *)x; free(x); b.f(b.arg); return 0; }
int mc_run(void (*f)(unsigned char *), unsigned char *arg) {
  struct boot *b = malloc(sizeof *b);
  b->f = f; b->arg = arg;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 2 << 20);
  int t = start(boot, b, &a, 0);
  if (t < 0) end(79, "explorer: no thread\n");
  return t;
}
void mc_wait(int t) { wait_for(t); r_join(th[t].p, 0); }

int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (!r_create) r_create = dlsym(RTLD_NEXT, "pthread_create");
  if (me < 0 || freely) { if (active) strangers++; return r_create(p, a, f, arg); }
  int t = start(f, arg, a, p);
  return t < 0 ? -t : 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
  if (me >= 0) for (int i = 1; i < nth; i++) if (th[i].p == p && i != me) { wait_for(i); break; }
  return r_join(p, ret);
}

static long futex(long *a) {
  int op = a[1] & 127;
  if (op == 0 || op == 9) { // wait, wait with bitset
    if (me < 0 || nth < 2) return raw(SYS_futex, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) return -EAGAIN;
    th[me].state = S_FUTEX; th[me].addr = (void *)a[0]; th[me].timed = a[3] != 0; th[me].timedout = 0;
    int r = pass_on();
    if (r == 0) {
      th[me].state = S_RUN;
      if (!strangers) stuck();
      return raw(SYS_futex, a[0], a[1], a[2], a[3], a[4], a[5]); // an unexplored thread wakes it
    }
    if (r == 2) park();
    th[me].state = S_RUN;
    return th[me].timedout ? -ETIMEDOUT : 0;
  }
  if ((op == 1 || op == 10) && active) {
    int n = a[2], k = 0;
    if (me >= 0) for (int i = 0; i < nth && k < n; i++) if (th[i].state == S_FUTEX && th[i].addr == (void *)a[0]) { th[i].state = S_RUN; k++; }
    if (strangers && k < n) { long r = raw(SYS_futex, a[0], a[1], n - k, a[3], a[4], a[5]); if (r > 0) k += r; }
    if (k) point(PREEMPT);
    return k;
  }
  return raw(SYS_futex, a[0], a[1], a[2], a[3], a[4], a[5]);
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  long r = active && n == SYS_futex ? futex(a) : raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
// spinning and sleeping threads let the others go on
static void rest(void) {
  int l[MAXT], k = runnable(l, me);
  if (!k) return;
  int t = l[0];
  for (int i = 0; i < k; i++) if (l[i] > me) { t = l[i]; break; }
  switch_to(t);
}
// the same in every execution
ssize_t getrandom(void *b, size_t n, unsigned f) { memset(b, 42, n); return n; }
int sched_yield(void) { if (me < 0 || nth < 2) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); rest(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (me < 0 || nth < 2) { long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; } rest(); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (me < 0 || nth < 2) return -raw(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); rest(); return 0; }

// ---- what the instrumented code calls
#define V(name, ...) void __tsan_##name(__VA_ARGS__)
static inline void acc(void *p) {
  if (me < 0 || nth < 2) return;
  for (int i = 0; i < nglo; i++) if ((uintptr_t)p >= glo[i][0] && (uintptr_t)p < glo[i][1]) { point(PREEMPT); return; }
}
V(init, void) {}
V(func_entry, void *p) {}
V(func_exit, void) {}
V(ignore_thread_begin, void) {}
V(ignore_thread_end, void) {}
V(vptr_update, void **a, void *b) {}
V(vptr_read, void **a) {}
V(read_range, void *p, unsigned long n) { acc(p); }
V(write_range, void *p, unsigned long n) { acc(p); }
#define RW(n) V(read##n, void *p) { acc(p); } V(write##n, void *p) { acc(p); } V(unaligned_read##n, void *p) { acc(p); } V(unaligned_write##n, void *p) { acc(p); } \
  V(volatile_read##n, void *p) { acc(p); } V(volatile_write##n, void *p) { acc(p); } V(unaligned_volatile_read##n, void *p) { acc(p); } V(unaligned_volatile_write##n, void *p) { acc(p); } \
  V(read_write##n, void *p) { acc(p); } V(unaligned_read_write##n, void *p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void *__tsan_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); }
void *__tsan_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); }
void *__tsan_memset(void *a, int c, size_t n) { return memset(a, c, n); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int o) { point(PREEMPT); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int o) { point(PREEMPT); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int o) { point(PREEMPT); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { point(PREEMPT); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { point(PREEMPT); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { point(PREEMPT); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { point(PREEMPT); }
void __tsan_atomic_signal_fence(int o) {}

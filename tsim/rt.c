/* Thread-level simulator: every controlled thread is a real OS thread, but only the one holding the
 * baton runs. Rust code is compiled with ThreadSanitizer instrumentation whose callbacks are defined
 * here and do nothing but offer a scheduling point before every atomic operation; futexes, epoll,
 * sleeping, joining and the clocks are simulated. The choice of who runs is a pure function of the seed
 * (or of a recorded list of choices). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static long errno_ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

enum { FREE, RUN, FUT, JOIN, EPOLL, SLEEP, DONE };
#define MAXT 64
typedef struct {
  int state;
  volatile uint32_t baton;
  const void *uaddr;
  uint64_t deadline; /* UINT64_MAX: none */
  int target, epfd, timed_out, prio;
  uint32_t bitset;
  pthread_t pt;
  int rounds, detached;
} T;
static T th[MAXT];
static int nth, cur;
static volatile int on;
static __thread int me = -1;
static int io_dirty;
static uint64_t vnow, wall_base;
static int ncpu;
static uint64_t steps, max_steps, decisions, hash_, since_switch, multi;
static uint64_t ev_seq;
static pthread_key_t key;
static void (*on_fail)(const char *);

/* ---- choices */
static uint64_t rs[2];
static uint64_t rnd(void) {
  uint64_t a = rs[0], b = rs[1];
  rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rs[1] + b;
}
static uint64_t srs = 1;
static uint64_t srnd(void) { /* random numbers handed to the program */
  srs += 0x9E3779B97F4A7C15ull; uint64_t z = srs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static int policy, pol_arg; /* 0 random switches (1 in pol_arg), 1 priorities, 2 recorded */
static uint64_t change_at[16]; static int nchange;
static const uint64_t *rec_d; static const uint32_t *rec_t; static uint64_t nrec, rec_i;
#define MAXREC 2000000
static uint64_t out_d[MAXREC]; static uint32_t out_t[MAXREC]; static uint64_t nout;

static void fail(const char *m) { on = 0; on_fail(m); _exit(98); }

static int rr_next(int from) {
  for (int k = 1; k <= nth; k++) { int j = (from + k) % nth; if (th[j].state == RUN) return j; }
  return -1;
}
static void refresh_io(void) {
  io_dirty = 0;
  for (int i = 0; i < nth; i++) if (th[i].state == EPOLL) {
    struct pollfd p = { th[i].epfd, POLLIN, 0 };
    struct timespec z = {0, 0};
    if (raw6(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8, 0) > 0) th[i].state = RUN;
  }
}
/* who runs next; stay: the current thread may go on (and does by default) */
static int choose(int stay, int yielding) {
  int r[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].state == RUN) r[n++] = i;
  if (n == 0) return -1;
  int def = stay && !yielding ? cur : rr_next(cur);
  if (stay && ++since_switch > 3000) { def = rr_next(cur); if (policy == 1) th[cur].prio = -(int)(decisions & 0xffffff) - 1; }
  if (n == 1 && r[0] == def) return def;
  if (n == 1) return r[0];
  multi++;
  uint64_t d = decisions++;
  int c = def;
  if (policy == 2) {
    while (rec_i < nrec && rec_d[rec_i] < d) rec_i++;
    if (rec_i < nrec && rec_d[rec_i] == d) { int t = rec_t[rec_i++]; if (t < nth && th[t].state == RUN) c = t; }
  } else if (policy == 0) {
    if (!stay || yielding) c = r[rnd() % n];
    else if (rnd() % (uint64_t)pol_arg == 0) c = r[rnd() % n];
  } else {
    for (int i = 0; i < nchange; i++) if (change_at[i] == steps) th[cur].prio = -1000 - i;
    if (since_switch > 3000) c = def; else {
      int best = -1;
      for (int i = 0; i < n; i++) { if (yielding && r[i] == cur) continue; if (best < 0 || th[r[i]].prio > th[best].prio) best = r[i]; }
      c = best < 0 ? def : best;
    }
  }
  if (c != def && nout < MAXREC) { out_d[nout] = d; out_t[nout] = c; nout++; }
  hash_ = (hash_ ^ (uint64_t)(c + 1)) * 0x100000001b3ull; 
  return c;
}
/* another kind of choice: one of n waiters, the first by default */
static int pick(const int *r, int n) {
  if (n < 2) return r[0];
  uint64_t d = decisions++;
  int c = r[0];
  if (policy == 2) {
    while (rec_i < nrec && rec_d[rec_i] < d) rec_i++;
    if (rec_i < nrec && rec_d[rec_i] == d) { uint32_t t = rec_t[rec_i++]; for (int i = 0; i < n; i++) if (r[i] == (int)t) c = r[i]; }
  } else if (policy == 0) c = r[rnd() % n];
  else for (int i = 1; i < n; i++) if (th[r[i]].prio > th[c].prio) c = r[i];
  if (c != r[0] && nout < MAXREC) { out_d[nout] = d; out_t[nout] = c; nout++; }
  return c;
}
static void wait_baton(int i) {
  while (!__atomic_load_n(&th[i].baton, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)&th[i].baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  th[i].baton = 0;
}
static void give(int i) {
  cur = i; since_switch = 0;
  __atomic_store_n(&th[i].baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&th[i].baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void step(void) {
  if (++steps > max_steps) fail("livelock: step limit reached");
  vnow += 20;
}
/* the current thread cannot go on: hand over; returns when it has the baton again (unless gone) */
static void hand_over(int gone) {
  for (;;) {
    if (io_dirty) refresh_io();
    int c = choose(0, 0);
    if (c < 0) { refresh_io(); c = choose(0, 0); }
    if (c >= 0) {
      int m = me;
      if (c == m && !gone) { cur = c; since_switch = 0; return; }
      give(c);
      if (gone) return;
      wait_baton(m);
      return;
    }
    uint64_t d = UINT64_MAX;
    for (int i = 0; i < nth; i++) if ((th[i].state == FUT || th[i].state == EPOLL || th[i].state == SLEEP) && th[i].deadline < d) d = th[i].deadline;
    if (d == UINT64_MAX) fail("deadlock: every thread waits");
    if (d > vnow) vnow = d;
    for (int i = 0; i < nth; i++) if ((th[i].state == FUT || th[i].state == EPOLL || th[i].state == SLEEP) && th[i].deadline <= vnow) { th[i].timed_out = 1; th[i].state = RUN; }
  }
}
static void point(int yielding) {
  if (!on || me < 0) return;
  step();
  if (io_dirty) refresh_io();
  int c = choose(1, yielding);
  if (c >= 0 && c != me) { int m = me; give(c); wait_baton(m); }
}

/* ---- interface to the harness */
void ts_begin(uint64_t seed, int pol, int arg, uint64_t horizon, uint64_t limit, const uint64_t *rd, const uint32_t *rt, uint64_t n, void (*f)(const char *)) {
  rs[0] = seed * 0x9E3779B97F4A7C15ull + 1; rs[1] = seed ^ 0xD1B54A32D192ED03ull; for (int i = 0; i < 8; i++) rnd();
  srs = 0x1234567;
  policy = pol; pol_arg = arg < 1 ? 1 : arg; rec_d = rd; rec_t = rt; nrec = n; rec_i = 0; max_steps = limit; on_fail = f;
  nout = 0; ncpu = 1 << (seed % 4);
  nchange = 0;
  if (pol == 1) { nchange = arg > 15 ? 15 : arg; for (int i = 0; i < nchange; i++) change_at[i] = rnd() % (horizon ? horizon : 1); }
  vnow = 1000000000ull; wall_base = 1700000000ull * 1000000000ull;
  pthread_key_create(&key, NULL);
  memset(th, 0, sizeof th);
  nth = 1; cur = 0; me = 0; th[0].state = RUN; th[0].prio = (int)(rnd() % 1000); th[0].deadline = UINT64_MAX;
  steps = decisions = multi = since_switch = ev_seq = 0; hash_ = 0xcbf29ce484222325ull;
  on = 1;
}
void ts_end(void) { on = 0; }
uint64_t ts_stamp(void) { return ++ev_seq; }
uint64_t ts_steps(void) { return steps; }
uint64_t ts_hash(void) { return hash_; }
uint64_t ts_multi(void) { return multi; }
uint64_t ts_threads(void) { return nth; }
uint64_t ts_vnow(void) { return vnow; }
uint64_t ts_trace(const uint64_t **d, const uint32_t **t) { *d = out_d; *t = out_t; return nout; }

/* ---- threads */
typedef struct { void *(*f)(void *); void *a; int id; } Start;
static void *(*volatile dummy)(void *);
static pthread_key_t end_key; static int end_key_made;
static void at_end(void *v) {
  int i = (int)(intptr_t)v - 1;
  if (!on) return;
  if (++th[i].rounds < 3) { pthread_setspecific(end_key, v); return; }
  th[i].state = DONE;
  for (int j = 0; j < nth; j++) if (th[j].state == JOIN && th[j].target == i) th[j].state = RUN;
  hand_over(1);
  /* never really gone: what glibc frees at the end of a thread would race with the others */
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static void *trampoline(void *p) {
  Start s = *(Start *)p;
  me = s.id;
  wait_baton(me);
  free(p);
  pthread_setspecific(end_key, (void *)(intptr_t)(me + 1));
  return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!on || me < 0) return real(t, at, f, a);
  if (nth >= MAXT) fail("too many threads");
  if (!end_key_made) { pthread_key_create(&end_key, at_end); end_key_made = 1; }
  int id = nth++;
  th[id].state = RUN; th[id].deadline = UINT64_MAX; th[id].prio = (int)(rnd() % 1000);
  Start *s = malloc(sizeof *s);
  s->f = f; s->a = a; s->id = id;
  int r = real(t, at, trampoline, s);
  if (r) { th[id].state = DONE; free(s); return r; }
  th[id].pt = *t;
  point(0);
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (on && me >= 0) {
    int k = -1;
    for (int i = 1; i < nth; i++) if (pthread_equal(th[i].pt, t) && th[i].target != -2) k = i;
    if (k >= 0) {
      step();
      while (th[k].state != DONE) { th[me].target = k; th[me].state = JOIN; hand_over(0); }
      th[k].target = -2;
      if (ret) *ret = NULL;
      return 0;
    }
  }
  return real(t, ret);
}
int sched_yield(void) { if (on && me >= 0) point(1); else raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; }

/* the machine has 1, 2, 4 or 8 processors */
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *c) {
  if (!(on && me >= 0)) { long r = raw6(SYS_sched_getaffinity, p, n, (long)c, 0, 0, 0); if (r >= 0 && (size_t)r < n) memset((char *)c + r, 0, n - r); return r < 0 ? (int)errno_ret(r) : 0; }
  memset(c, 0, n);
  for (int i = 0; i < ncpu; i++) CPU_SET(i, c);
  return 0;
}

/* ---- time */
static int vclock(clockid_t c, struct timespec *ts) {
  vnow += 50;
  uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_base + vnow : vnow;
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (on && me >= 0) return vclock(c, ts);
  return (int)errno_ret(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
}
static void vsleep(uint64_t until) {
  step();
  if (until <= vnow) { point(1); return; }
  th[me].deadline = until; th[me].state = SLEEP; hand_over(0); th[me].deadline = UINT64_MAX;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (on && me >= 0) { vsleep(vnow + r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
  return (int)errno_ret(raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (on && me >= 0) {
    uint64_t v = r->tv_sec * 1000000000ull + r->tv_nsec;
    if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) v = v > wall_base ? v - wall_base : 0; } else v += vnow;
    vsleep(v);
    return 0;
  }
  long x = raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0);
  return x < 0 ? (int)-x : 0;
}

/* ---- futex, random numbers */
static long vfutex(uint32_t *u, int op, uint32_t val, const struct timespec *to, uint32_t v3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(0);
    if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    T *t = &th[me];
    t->deadline = UINT64_MAX;
    if (to) {
      uint64_t d = to->tv_sec * 1000000000ull + to->tv_nsec;
      if (cmd == FUTEX_WAIT) d += vnow; else if (op & FUTEX_CLOCK_REALTIME) d = d > wall_base ? d - wall_base : 0;
      t->deadline = d;
    }
    t->uaddr = u; t->bitset = cmd == FUTEX_WAIT ? 0xffffffffu : v3; t->timed_out = 0; t->state = FUT;
    hand_over(0);
    t->uaddr = 0; t->deadline = UINT64_MAX;
    if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    uint32_t bs = cmd == FUTEX_WAKE ? 0xffffffffu : v3;
    /* which waiter is woken is a choice as well */
    while (n < (long)val) {
      int r[MAXT], k = 0;
      for (int i = 0; i < nth; i++) if (th[i].state == FUT && th[i].uaddr == u && (th[i].bitset & bs)) r[k++] = i;
      if (!k) break;
      th[val < 1000 ? pick(r, k) : r[0]].state = RUN;
      n++;
    }
    point(0);
    return n;
  }
  fail("unsupported futex operation");
  return -1;
}
static void fill(void *b, size_t n) { unsigned char *p = b; while (n) { uint64_t x = srnd(); size_t k = n < 8 ? n : 8; memcpy(p, &x, k); p += k; n -= k; } }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (on && me >= 0) { fill(b, n); return n; }
  return errno_ret(raw6(SYS_getrandom, (long)b, n, fl, 0, 0, 0));
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on && me >= 0) {
    if (n == SYS_futex) return vfutex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) { fill((void *)a, b); return b; }
    if (n == SYS_clock_gettime) return vclock((clockid_t)a, (struct timespec *)b);
  }
  return errno_ret(raw6(n, a, b, c, d, e, f));
}

/* ---- I/O that wakes or waits */
ssize_t write(int fd, const void *b, size_t n) { io_dirty = 1; return errno_ret(raw6(SYS_write, fd, (long)b, n, 0, 0, 0)); }
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
  if (!(on && me >= 0)) return (int)errno_ret(raw6(SYS_epoll_wait, ep, (long)ev, max, timeout, 0, 0));
  point(0);
  uint64_t dl = timeout < 0 ? UINT64_MAX : vnow + (uint64_t)timeout * 1000000ull;
  for (;;) {
    long r = raw6(SYS_epoll_wait, ep, (long)ev, max, 0, 0, 0);
    if (r != 0) return (int)errno_ret(r);
    if (timeout == 0 || vnow >= dl) return 0;
    T *t = &th[me];
    t->epfd = ep; t->deadline = dl; t->timed_out = 0; t->state = EPOLL;
    hand_over(0);
    t->deadline = UINT64_MAX;
  }
}

/* ---- instrumentation callbacks */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { (void)p; } void __tsan_write##n(void *p) { (void)p; } \
  void __tsan_unaligned_read##n(void *p) { (void)p; } void __tsan_unaligned_write##n(void *p) { (void)p; } \
  void __tsan_read_write##n(void *p) { (void)p; } void __tsan_unaligned_read_write##n(void *p) { (void)p; } \
  void __tsan_volatile_read##n(void *p) { (void)p; } void __tsan_volatile_write##n(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; }
void __tsan_vptr_update(void **p, void *q) { (void)p; (void)q; }
void __tsan_vptr_read(void **p) { (void)p; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(0); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty *a, int mo) { (void)mo; point(0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile ty *a, ty v, int mo) { (void)mo; point(0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##b##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; point(0); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; point(0); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fmo); } \
  ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; point(0); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

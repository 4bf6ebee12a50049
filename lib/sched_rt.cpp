// Cooperative scheduler for stateless model checking of multithreaded code (used by C19).
//
// The code under test is compiled with -fsanitize=thread, but linked with this file instead of the
// ThreadSanitizer runtime: every atomic operation becomes a scheduling point, every plain access goes
// to a vector-clock race detector, and pthread_create/join/mutex/cond/once and the futex of
// std::future are replaced by cooperative versions. Exactly one thread runs at a time; which one goes
// on at each point is decided by the explorer's choice sequence, with a bound on preemptions.
// @flags: -std=c++17 -O2 -g1 -w
#include "sched_rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <future>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);

namespace {
constexpr int MAXT = 64;
typedef std::array<unsigned, MAXT> VC;

struct Th {
  int id = 0;
  sem_t sem;
  int st = 0;  // 0 runnable, 1 blocked, 2 done
  bool timed = false;
  const void *on = nullptr;
  VC vc{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr, *ret = nullptr;
  pthread_t real{};
  int streak = 0;
};
struct Sync { VC vc{}; };
struct Cell { unsigned wt = 0, wc = 0; std::vector<std::pair<unsigned, unsigned>> rd; };
struct Mutex { int owner = -1; int depth = 0; };

SchedShared *S = nullptr;
bool on = false;
int hw = 1, bound = 2, policy = 0, npre = 0;
std::vector<Th *> ths;
thread_local Th *self = nullptr;
thread_local bool inrt = false;
std::unordered_map<const void *, Sync> syncs;
std::map<uintptr_t, Cell> shadow;
std::unordered_map<const void *, Mutex> mutexes;
std::unordered_map<const void *, int> onces;
VC fence{};

struct Guard { bool o; Guard() : o(inrt) { inrt = true; } ~Guard() { inrt = o; } };

[[noreturn]] void die(const char *fmt, ...) {
  if (!S->violated) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    S->violated = 1;
  }
  _exit(1);
}
int choose(int n) {
  if (n <= 1) return 0;
  int i = S->n;
  if (i >= SCHED_MAX) die("the schedule does not end (more than %d scheduling choices)", SCHED_MAX);
  int c = i < S->nprefix ? S->prefix[i] : 0;
  if (c >= n) { S->diverged = 1; _exit(3); }
  S->ch[i] = (unsigned char) c;
  S->width[i] = (unsigned char) n;
  S->n = i + 1;
  return c;
}
void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
void acquire(const void *p) { join(self->vc, syncs[p].vc); }
void release(const void *p) { join(syncs[p].vc, self->vc); self->vc[self->id]++; }

void hand_over(Th *next, bool stay) {
  Th *me = self;
  if (next == me) return;
  next->streak = 0;
  sem_post(&next->sem);
  if (stay) while (sem_wait(&me->sem) != 0) {}
}
// lets another thread go on; kind 0: ordinary point, 1: self cannot go on, 2: self gives way
void schedule(int kind) {
  if (++S->points > 400000) die("the threads make no progress (400000 scheduling points)");
  Th *me = self;
  std::vector<Th *> c;
  bool forced = kind == 0 && ++me->streak > 3000;   // fairness for spin loops
  if (kind == 0 && !forced) c.push_back(me);
  if (kind != 0 || forced || npre < bound || policy == 1)
    for (size_t k = 1; k <= ths.size(); k++) {
      Th *t = ths[((size_t) me->id + k) % ths.size()];
      if (t != me && t->st == 0) c.push_back(t);
    }
  if (c.empty() && kind != 1) c.push_back(me);
  if (c.empty()) {
    for (auto *t: ths) if (t->st == 1 && t->timed) { t->st = 0; t->timed = false; c.push_back(t); break; }
    if (c.empty()) {
      if (me->st == 2) {  // the last thread ended
        bool all = true;
        for (auto *t: ths) if (t->st != 2) all = false;
        if (all) return;
      }
      die("deadlock: no thread can go on");
    }
  }
  Th *next;
  if (policy == 1) next = c.size() > 1 && kind == 0 ? c[1] : c[0];          // round robin
  else next = c[choose((int) c.size())];
  if (kind == 0 && !forced && next != me) npre++;
  hand_over(next, me->st != 2);
}
void point() { if (on && self && !inrt) { Guard g; schedule(0); } }
void block(const void *p, bool timed = false) {
  self->st = 1;
  self->on = p;
  self->timed = timed;
  schedule(1);
}
void wake(const void *p, bool all = true) {
  for (auto *t: ths)
    if (t->st == 1 && t->on == p) { t->st = 0; t->timed = false; if (!all) break; }
}

void access(uintptr_t a, size_t n, bool w) {
  if (!on || !self || inrt) return;
  Guard g;
  for (size_t i = 0; i < n; i++) {
    Cell &c = shadow[a + i];
    unsigned me = (unsigned) self->id;
    if (c.wc && c.wt != me && self->vc[c.wt] < c.wc) die("data race: %s by thread %u and write by thread %u are not ordered", w ? "write" : "read", me, c.wt);
    if (w) {
      for (auto &r: c.rd)
        if (r.first != me && self->vc[r.first] < r.second) die("data race: write by thread %u and read by thread %u are not ordered", me, r.first);
      c.rd.clear();
      c.wt = me;
      c.wc = self->vc[me];
    } else {
      bool f = false;
      for (auto &r: c.rd) if (r.first == me) { r.second = self->vc[me]; f = true; }
      if (!f) c.rd.push_back({me, self->vc[me]});
    }
  }
}
void forget(uintptr_t a, size_t n) {
  auto i = shadow.lower_bound(a);
  while (i != shadow.end() && i->first < a + n) i = shadow.erase(i);
}
void *trampoline(void *p) {
  Th *t = (Th *) p;
  while (sem_wait(&t->sem) != 0) {}
  self = t;
  {
    Guard g;
    pthread_attr_t at;
    void *sp;
    size_t ss;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
      pthread_attr_getstack(&at, &sp, &ss);
      forget((uintptr_t) sp, ss);
      pthread_attr_destroy(&at);
    }
  }
  t->ret = t->fn(t->arg);
  {
    Guard g;
    t->st = 2;
    S->exited[t->id] = ++S->clock;
    release(t);
    wake(t);
    self = t;
    // hand the token over, then leave without touching the runtime again
    std::vector<Th *> c;
    for (auto *x: ths) if (x->st == 0) c.push_back(x);
    if (c.empty())
      for (auto *x: ths) if (x->st == 1 && x->timed) { x->st = 0; x->timed = false; c.push_back(x); break; }
    if (c.empty()) die("deadlock: no thread can go on");
    Th *n = policy == 1 ? c[0] : c[choose((int) c.size())];
    self = nullptr;
    sem_post(&n->sem);
  }
  return t->ret;
}
Th *find(pthread_t r) { for (auto *t: ths) if (t->id && pthread_equal(t->real, r)) return t; return nullptr; }
template<class F> F real(const char *n) {
  static std::map<std::string, void *> m;
  void *&p = m[n];
  if (!p) p = dlsym(RTLD_NEXT, n);
  return (F) p;
}
}  // namespace

// ------------------------------------------------------------------ control
void sched_begin(SchedShared *s, int preemption_bound, int pol, int hwc) {
  S = s;
  bound = preemption_bound;
  policy = pol;
  hw = hwc;
  Th *m = new Th;
  sem_init(&m->sem, 0, 0);
  m->vc[0] = 1;
  ths.push_back(m);
  self = m;
  on = true;
}
int sched_end() {  // let every other thread run as far as it can
  Guard g;
  bound = 0;
  for (int i = 0; i < 100000; i++) {
    bool any = false;
    for (auto *t: ths) if (t != self && t->st == 0) any = true;
    if (!any) break;
    policy = 1;
    schedule(2);
  }
  on = false;
  return (int) ths.size();
}
void sched_point() { point(); }
int sched_self() { return self ? self->id : -1; }
unsigned sched_tick() { return ++S->clock; }
int sched_threads() { return (int) ths.size(); }
[[noreturn]] void sched_fail(const char *m) { die("%s", m); }
unsigned int std::thread::hardware_concurrency() noexcept { return (unsigned) hw; }

// ------------------------------------------------------------------ pthread replacements
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!on || !self) return r(th, at, fn, arg);
  int e;
  {
    Guard g;
    if (ths.size() >= MAXT) return EAGAIN;
    Th *t = new Th;
    sem_init(&t->sem, 0, 0);
    t->id = (int) ths.size();
    t->fn = fn;
    t->arg = arg;
    t->vc = self->vc;
    t->vc[t->id] = 1;
    self->vc[self->id]++;
    e = r(&t->real, at, trampoline, t);
    if (e) return e;
    ths.push_back(t);
    *th = t->real;
  }
  point();
  return e;
}
int pthread_join(pthread_t p, void **ret) {
  auto r = real<int (*)(pthread_t, void **)>("pthread_join");
  Th *t = on && self ? find(p) : nullptr;
  if (!t) return r(p, ret);
  point();
  Guard g;
  while (t->st != 2) block(t);
  acquire(t);
  return r(p, ret);
}
static int mlock(void *m, bool try_only) {
  Guard g;
  Mutex &x = mutexes[m];
  while (x.owner >= 0 && x.owner != self->id) {
    if (try_only) return EBUSY;
    block(m);
  }
  if (x.owner == self->id) {
    auto *pm = (pthread_mutex_t *) m;
    if ((pm->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
    if (try_only) return EBUSY;
    die("deadlock: a thread locks a mutex it holds");
  }
  x.owner = self->id;
  x.depth = 1;
  acquire(m);
  return 0;
}
static void munlock(void *m) {
  Guard g;
  Mutex &x = mutexes[m];
  if (--x.depth > 0) return;
  x.owner = -1;
  release(m);
  wake(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on || !self || inrt) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m);
  point();
  return mlock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on || !self || inrt) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m);
  point();
  return mlock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on || !self || inrt) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m);
  munlock(m);
  point();
  return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  {
    Guard g;
    munlock(m);
    block(c, timed);
    acquire(c);
  }
  return mlock(m, false);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on || !self) return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, m);
  return cwait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
  if (!on || !self) return real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait")(c, m, t);
  cwait(c, m, true);
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on || !self) return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c);
  { Guard g; release(c); wake(c, false); }
  point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on || !self) return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c);
  { Guard g; release(c); wake(c, true); }
  point();
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!on || !self || inrt) return real<int (*)(pthread_once_t *, void (*)())>("pthread_once")(o, f);
  point();
  {
    Guard g;
    while (*(volatile int *) o == 1) block(o);
    if (*(volatile int *) o == 2) { acquire(o); return 0; }
    *(volatile int *) o = 1;
  }
  try { f(); } catch (...) {
    Guard g;
    *(volatile int *) o = 0;
    wake(o);
    throw;
  }
  {
    Guard g;
    *(volatile int *) o = 2;
    release(o);
    wake(o);
  }
  return 0;
}
static void give_way() { if (on && self && !inrt) { Guard g; schedule(2); } }
int sched_yield() { give_way(); return 0; }
int nanosleep(const timespec *t, timespec *r) {
  if (!on || !self) return real<int (*)(const timespec *, timespec *)>("nanosleep")(t, r);
  give_way();
  return 0;
}
int clock_nanosleep(clockid_t k, int f, const timespec *t, timespec *r) {
  if (!on || !self) return real<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep")(k, f, t, r);
  give_way();
  return 0;
}
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (on && self && !inrt && p) { Guard g; forget((uintptr_t) p, n); }
  return p;
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  if (on && self && !inrt && p) { Guard g; forget((uintptr_t) p, a * b); }
  return p;
}
void free(void *p) { __libc_free(p); }
void *realloc(void *p, size_t n) {
  void *q = __libc_realloc(p, n);
  if (on && self && !inrt && q) { Guard g; forget((uintptr_t) q, n); }
  return q;
}
}

// the futex under std::future
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
  if (!on || !self) { while (*(volatile unsigned *) a == v) usleep(100); return true; }
  Guard g;
  if (*(volatile unsigned *) a == v) block(a, timed);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, timed, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) {
  if (on && self) { { Guard g; wake(a); } point(); }
}
}

// ------------------------------------------------------------------ ThreadSanitizer instrumentation interface
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
template<class T, class F> static T rmw(volatile T *p, int mo, F f) {
  point();
  bool live = on && self && !inrt;
  T o = *p;
  if (live) { Guard g; if (ACQ(mo)) acquire((void *) p); }
  *p = f(o);
  if (live) { Guard g; if (REL(mo)) release((void *) p); }
  return o;
}
template<class T> static bool cas(volatile T *p, T *e, T v, int mo, int fmo) {
  point();
  bool live = on && self && !inrt;
  T o = *p;
  if (o == *e) {
    if (live) { Guard g; if (ACQ(mo)) acquire((void *) p); }
    *p = v;
    if (live) { Guard g; if (REL(mo)) release((void *) p); }
    return true;
  }
  if (live) { Guard g; if (ACQ(fmo)) acquire((void *) p); }
  *e = o;
  return false;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access((uintptr_t) a, n, false); } \
  void __tsan_write##n(void *a) { access((uintptr_t) a, n, true); } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t) a, n, false); } \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t) a, n, true); } \
  void __tsan_volatile_read##n(void *a) { point(); access((uintptr_t) a, n, false); } \
  void __tsan_volatile_write##n(void *a) { point(); access((uintptr_t) a, n, true); } \
  void __tsan_read_write##n(void *a) { access((uintptr_t) a, n, false); access((uintptr_t) a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t) a, n, false); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t) a, n, true); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t) a, 8, true); }
void __tsan_vptr_read(void **a) { access((uintptr_t) a, 8, false); }
void __tsan_atomic_thread_fence(int) {
  point();
  if (on && self && !inrt) { join(self->vc, fence); join(fence, self->vc); self->vc[self->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { point(); if (on && self && !inrt && ACQ(mo)) { Guard g; acquire((void *) p); } return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { \
    point(); *p = v; \
    if (on && self && !inrt) { Guard g; if (REL(mo)) { syncs[(void *) p].vc = self->vc; self->vc[self->id]++; } else syncs[(void *) p].vc = VC{}; } } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) (o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) (o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) (o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) (o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) (o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { return rmw<T>(p, mo, [=](T o) { return (T) ~(o & v); }); } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { return cas<T>(p, e, v, mo, f); } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return cas<T>(p, e, v, mo, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { cas<T>(p, &e, v, mo, f); return e; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
}

// sched.hh for code that creates its own threads: the body runs as managed thread 0; threads it creates become
// managed; joins, condition variables (with spurious wake-ups) and sleeps are scheduling points.
#ifndef DSCHED_HH
#define DSCHED_HH
#include "sched.hh"
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <map>
namespace sched {
static std::map<pthread_t, int> ids; static double p_spurious = 0; static std::atomic<bool> running{false};
static long long nthreads = 0, nwaits = 0;
enum { WAITING = 10 };
static void stuck() { deadlock = true; fprintf(stderr, "deadlock\n"); _exit(99); }
static void block() { int n = choose(false); if (n < 0) stuck(); handover(n); }
static void maybe_spurious() {
  if (p_spurious <= 0) return;
  for (auto t : th) if (t->st == WAITING && std::uniform_real_distribution<>()(rng) < p_spurious) t->st = RUN;
}
struct Start { void* (*f)(void*); void* a; int id; };
static void* trampoline(void* p) {
  Start s = *(Start*)p; delete (Start*)p; me = s.id; sem_wait(&th[me]->sem); void* r = s.f(s.a);
  th[me]->st = DONE; int id = me; me = -1;
  for (auto t : th) if (t->st == BLOCKED && t->on == th[id]) t->st = RUN;
  if (!freerun) { me = id; int k = choose(false); me = -1; if (k >= 0) sem_post(&th[k]->sem); else if (running) stuck(); }
  return r;
}
static void body_run(std::function<void()> f) {
  for (auto t : th) delete t; th.clear(); th.reserve(256); ids.clear(); freerun = false; deadlock = false; trail.clear(); steps = 0; nthreads = nwaits = 0;
  th.push_back(new T); sem_init(&th[0]->sem, 0, 0); running = true;
  std::thread mon([&] { me = -1; long last = -1; int idle = 0;
    while (running) { struct timespec ts = {0, 2000000}; syscall(SYS_nanosleep, &ts, 0); if (steps == last) idle ++; else { idle = 0; last = steps; }
      if (idle == 250 && !freerun) { freerun = true; for (auto t : th) sem_post(&t->sem); } } });
  me = 0; f(); running = false; th[0]->st = DONE;
  if (!freerun) { int k = choose(false); if (k >= 0) { freerun = true; for (auto t : th) sem_post(&t->sem); } }   // detached leftovers
  me = -1; mon.join();
}
static void relax() {                       // a polling loop: let somebody else run
  steps ++; std::vector<int> r; for (int i = 0; i < (int)th.size(); i ++) if (i != me && th[i]->st == RUN) r.push_back(i);
  if (!r.empty()) handover(r[rng() % r.size()]);
}
static int condwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, std::function<int()> w) {
  if (me < 0 || freerun) return w();
  nwaits ++; yield(); if (freerun) { return 0; }
  steps ++; th[me]->st = WAITING; th[me]->on = c; bool to = timed;
  int id = me;
  static auto u = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  u(m); for (auto t : th) if (t->st == BLOCKED && t->on == m) t->st = RUN;
  if (timed) th[me]->st = RUN;          // may time out at any moment
  maybe_spurious(); if (th[id]->st == RUN && !timed) { /* woken spuriously at once */ }
  int n = choose(th[id]->st == RUN); if (n < 0) stuck(); handover(n);
  th[id]->st = RUN; if (th[id]->on == nullptr) to = false; th[id]->on = nullptr;
  pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
static void notify(pthread_cond_t* c, bool all) {
  std::vector<int> ws; for (int i = 0; i < (int)th.size(); i ++) if (th[i]->on == c && (th[i]->st == WAITING || th[i]->st == RUN) && i != me) ws.push_back(i);
  if (ws.empty()) return;
  if (!all) { int k = ws[rng() % ws.size()]; ws = {k}; }
  for (int i : ws) { th[i]->st = RUN; th[i]->on = nullptr; }
}
}
#include <sys/syscall.h>
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F c = (F)dlsym(RTLD_NEXT, "pthread_create");
  if (sched::me < 0 || sched::freerun || sched::th.size() >= 250) return c(t, a, f, arg);
  auto x = new sched::T; sem_init(&x->sem, 0, 0); int id = sched::th.size(); sched::th.push_back(x); sched::nthreads ++;
  int r = c(t, a, sched::trampoline, new sched::Start{f, arg, id});
  if (r == 0) { sched::ids[*t] = id; sched::yield(); } else x->st = sched::DONE;
  return r;
}
int pthread_join(pthread_t t, void** r) {
  typedef int (*F)(pthread_t, void**); static F j = (F)dlsym(RTLD_NEXT, "pthread_join");
  if (sched::me >= 0 && !sched::freerun && sched::ids.count(t)) {
    auto x = sched::th[sched::ids[t]];
    while (x->st != sched::DONE && !sched::freerun) { sched::th[sched::me]->st = sched::BLOCKED; sched::th[sched::me]->on = x; sched::steps ++; sched::block(); sched::th[sched::me]->st = sched::RUN; }
  }
  return j(t, r);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*); static F w = (F)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  return sched::condwait(c, m, false, [=] { return w(c, m); });
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); static F w = (F)dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  return sched::condwait(c, m, true, [=] { return w(c, m, ts); });
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); static F w = (F)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  return sched::condwait(c, m, true, [=] { return w(c, m, k, ts); });
}
int pthread_cond_signal(pthread_cond_t* c) {
  typedef int (*F)(pthread_cond_t*); static F s = (F)dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  if (sched::me >= 0 && !sched::freerun) { sched::notify(c, false); sched::maybe_spurious(); sched::yield(); return 0; }
  return s(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  typedef int (*F)(pthread_cond_t*); static F s = (F)dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
  if (sched::me >= 0 && !sched::freerun) { sched::notify(c, true); sched::yield(); return 0; }
  return s(c);
}
int nanosleep(const struct timespec* a, struct timespec* b) { if (sched::me >= 0 && !sched::freerun) { sched::relax(); return 0; } return syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  typedef int (*F)(clockid_t, int, const struct timespec*, struct timespec*); static F s = (F)dlsym(RTLD_NEXT, "clock_nanosleep");
  if (sched::me >= 0 && !sched::freerun) { sched::relax(); return 0; } return s(k, fl, a, b); }
int usleep(useconds_t u) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, 0); }
int sched_yield() { if (sched::me >= 0 && !sched::freerun) { sched::relax(); return 0; } return syscall(SYS_sched_yield); }
FILE* fopen(const char* n, const char* m) {
  typedef FILE* (*F)(const char*, const char*); static F f = (F)dlsym(RTLD_NEXT, "fopen"); sched::yield(); return f(n, m);
}
}
#endif

// Cooperative scheduler: managed threads run one at a time and hand over at yield points (user-supplied
// functors of the code under test) and at mutex operations, which are interposed.  A thread that makes no
// progress (e.g. spins) switches the run to free-running threads, so nothing about the locking is assumed.
#ifndef SCHED_HH
#define SCHED_HH
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <vector>
#include <thread>
#include <functional>
#include <random>
namespace sched {
enum { RUN, BLOCKED, DONE };
struct T { sem_t sem; int st = RUN; void* on = nullptr; };
static std::vector<T*> th; static thread_local int me = -1; static std::atomic<bool> freerun{false}; static std::atomic<long> steps{0};
static bool deadlock = false;
// strategy: explicit prefix of choices, then default (stay) with bounded random preemption
static std::vector<int> prefix; static std::vector<std::pair<int, int>> trail; static int preempt_left; static std::mt19937 rng; static double p_switch;
static std::vector<int> prio; static bool pct; static std::vector<long> change;
template <class F> F real(const char* n) { static F f = (F)dlsym(RTLD_NEXT, n); return f; }
static int choose(bool canstay) {
  std::vector<int> r; if (canstay) r.push_back(me);
  for (int i = 0; i < (int)th.size(); i ++) if (i != me && th[i]->st == RUN) r.push_back(i);
  if (r.empty()) return -1;
  if (canstay && preempt_left <= 0) return me;
  if (r.size() == 1) return r[0];
  int k = 0;
  if (trail.size() < prefix.size()) k = prefix[trail.size()] % (int)r.size();
  else if (pct) { for (long c : change) if (c == steps) prio[me] = -steps; int b = 0; for (int i = 1; i < (int)r.size(); i ++) if (prio[r[i]] > prio[r[b]]) b = i; k = b; }
  else if (p_switch > 0) { if (!canstay || std::uniform_real_distribution<>()(rng) < p_switch) k = rng() % r.size(); }
  trail.push_back({(int)r.size(), k});
  if (canstay && r[k] != me) preempt_left --;
  return r[k];
}
static void handover(int n) { if (n == me || n < 0) return; sem_post(&th[n]->sem); sem_wait(&th[me]->sem); }
static void yield() {
  if (me < 0 || freerun) return;
  steps ++; int n = choose(true); if (n != me) handover(n);
}
static int lockop(void* m, std::function<int()> tryl, std::function<int()> lock) {
  if (me < 0 || freerun) return lock();
  yield();
  while (!freerun) {
    steps ++;
    if (tryl() == 0) return 0;
    th[me]->st = BLOCKED; th[me]->on = m;
    int n = choose(false);
    if (n < 0) { deadlock = true; freerun = true; for (auto t : th) sem_post(&t->sem); break; }
    handover(n); th[me]->st = RUN;
  }
  return lock();
}
static void unlocked(void* m) {
  if (me < 0 || freerun) return;
  for (auto t : th) if (t->st == BLOCKED && t->on == m) t->st = RUN;
  yield();
}
// run the bodies under the current strategy; returns false if the threads cannot finish
static bool run(const std::vector<std::function<void()>>& body) {
  int n = body.size(); for (auto t : th) delete t; th.clear(); freerun = false; deadlock = false; trail.clear(); steps = 0;
  std::vector<std::thread> w; std::atomic<int> done{0};
  for (int i = 0; i < n; i ++) { th.push_back(new T); sem_init(&th[i]->sem, 0, 0); }
  for (int i = 0; i < n; i ++) w.emplace_back([&, i] {
    me = i; sem_wait(&th[i]->sem); body[i]();
    th[i]->st = DONE; done ++;
    if (!freerun) { int k = choose(false); if (k >= 0) sem_post(&th[k]->sem); else if (done < n) { deadlock = true; freerun = true; for (auto t : th) sem_post(&t->sem); } }
    me = -1; });
  int first = 0; if (!prefix.empty()) first = prefix[0] % n; else if (p_switch > 0 || pct) first = rng() % n;
  trail.push_back({n, first}); sem_post(&th[first]->sem);
  long last = -1; int idle = 0;
  while (done < n) {
    std::this_thread::sleep_for(std::chrono::microseconds(idle < 20 ? 50 : 2000));
    if (steps == last) idle ++; else { idle = 0; last = steps; }
    if (idle == 150 && !freerun) { freerun = true; for (auto t : th) sem_post(&t->sem); }
    if (idle > 3000) return false;            // hung even when running freely
  }
  for (auto& t : w) t.join();
  return true;
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  typedef int (*F)(pthread_mutex_t*); F l = sched::real<F>("pthread_mutex_lock");
  if (sched::me < 0) return l(m);
  static F t = (F)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  return sched::lockop(m, [=] { return t(m); }, [=] { return l(m); });
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  typedef int (*F)(pthread_mutex_t*); static F u = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = u(m); if (sched::me >= 0) sched::unlocked(m); return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  typedef int (*F)(pthread_rwlock_t*); static F l = (F)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"), t = (F)dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock");
  if (sched::me < 0) return l(m);
  return sched::lockop(m, [=] { return t(m); }, [=] { return l(m); });
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  typedef int (*F)(pthread_rwlock_t*); static F l = (F)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"), t = (F)dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock");
  if (sched::me < 0) return l(m);
  return sched::lockop(m, [=] { return t(m); }, [=] { return l(m); });
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  typedef int (*F)(pthread_rwlock_t*); static F u = (F)dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  int r = u(m); if (sched::me >= 0) sched::unlocked(m); return r;
}
}
#endif

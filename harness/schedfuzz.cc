#include "schedfuzz.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <atomic>

namespace {
std::atomic<uint64_t> g_seed{0};
std::atomic<unsigned> g_noise{0}, g_spur{0}, g_epoch{0}, g_threads{0}, g_count{0};
thread_local uint64_t t_rng;
thread_local unsigned t_epoch;

uint64_t next()
{
  unsigned e = g_epoch.load(std::memory_order_relaxed);
  if (t_epoch != e || !t_rng) {
    t_epoch = e;
    uint64_t x = g_seed.load(std::memory_order_relaxed) + 0x9e3779b97f4a7c15ull * (g_threads.fetch_add(1, std::memory_order_relaxed) + 1);
    x ^= x >> 31;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 29;
    t_rng = x | 1;
  }
  t_rng ^= t_rng << 13;
  t_rng ^= t_rng >> 7;
  t_rng ^= t_rng << 17;
  return t_rng >> 8;
}
}  // namespace

namespace schedfuzz {
void setup(uint64_t seed, unsigned noise, unsigned spurious)
{
  g_seed = seed;
  g_threads = 0;
  g_count = 0;
  ++g_epoch;
  g_spur = spurious;
  g_noise = noise;
}
void off()
{
  g_noise = 0;
  g_spur = 0;
}
unsigned spurious_count() { return g_count.load(); }
void point()
{
  unsigned n = g_noise.load(std::memory_order_relaxed);
  if (!n) return;
  int e = errno;
  uint64_t r = next() % 100;
  // noise 1: 10%, 2: 30%, 3: 60% of the points do something
  unsigned lim = n == 1 ? 10 : n == 2 ? 30 : 60;
  if (r < lim) {
    uint64_t k = next() % 10;
    if (k < 5)
      sched_yield();
    else if (k < 9) {
      for (volatile unsigned i = 0, m = next() % 400; i < m; i = i + 1) {
      }
    } else {
      timespec t{0, (long)(next() % 60000)};
      nanosleep(&t, nullptr);
    }
  }
  errno = e;
}
}  // namespace schedfuzz

static bool spurious()
{
  unsigned s = g_spur.load(std::memory_order_relaxed);
  if (!s || next() % 100 >= s) return false;
  g_count.fetch_add(1, std::memory_order_relaxed);
  return true;
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  schedfuzz::point();
  int r = __real_pthread_mutex_lock(m);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
  schedfuzz::point();
  int r = __real_pthread_mutex_trylock(m);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  schedfuzz::point();
  int r = __real_pthread_mutex_unlock(m);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  schedfuzz::point();
  if (spurious()) {
    int r = __real_pthread_mutex_unlock(m);
    if (r) return r;
    schedfuzz::point();
    sched_yield();
    return __real_pthread_mutex_lock(m);
  }
  int r = __real_pthread_cond_wait(c, m);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
  schedfuzz::point();
  if (spurious()) {
    int r = __real_pthread_mutex_unlock(m);
    if (r) return r;
    schedfuzz::point();
    sched_yield();
    return __real_pthread_mutex_lock(m);
  }
  int r = __real_pthread_cond_timedwait(c, m, t);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
  schedfuzz::point();
  int r = __real_pthread_cond_signal(c);
  schedfuzz::point();
  return r;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
  schedfuzz::point();
  int r = __real_pthread_cond_broadcast(c);
  schedfuzz::point();
  return r;
}
}

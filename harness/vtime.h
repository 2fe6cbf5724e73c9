// A virtual wall clock: the time calls are replaced at link time.  Include once
// per program (it defines the wrappers).
#pragma once
#include <errno.h>
#include <stdint.h>
#include <sys/time.h>
#include <time.h>
#include <atomic>
static std::atomic<bool> g_virtual{false};
static std::atomic<int64_t> g_now{1000000};   // microseconds
extern "C" {
int __real_gettimeofday(timeval *, void *);
int __real_clock_gettime(clockid_t, timespec *);
time_t __real_time(time_t *);
int __wrap_gettimeofday(timeval *tv, void *tz)
{
  if (!g_virtual.load(std::memory_order_relaxed)) return __real_gettimeofday(tv, tz);
  errno = ERANGE;   // functions that succeed may change it
  int64_t t = g_now.load(std::memory_order_relaxed);
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
int __wrap_clock_gettime(clockid_t c, timespec *ts)
{
  if (!g_virtual.load(std::memory_order_relaxed)) return __real_clock_gettime(c, ts);
  errno = ERANGE;
  int64_t t = g_now.load(std::memory_order_relaxed);
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = t % 1000000 * 1000;
  return 0;
}
time_t __wrap_time(time_t *t)
{
  if (!g_virtual.load(std::memory_order_relaxed)) return __real_time(t);
  time_t s = g_now.load(std::memory_order_relaxed) / 1000000;
  if (t) *t = s;
  return s;
}
}

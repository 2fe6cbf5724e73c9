// A virtual clock for an event loop: the time calls, the timerfd and the
// blocking of the poll calls are replaced at link time.  Include once per
// program (it defines the wrappers).
#pragma once
#include "pbt.h"
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <functional>

// ---- virtual clock -----------------------------------------------------------
static bool g_virtual;
static int64_t g_now;        // microseconds
static int64_t g_deadline;   // 0: disarmed
static int g_tfd = -1;
static unsigned g_tick;
static unsigned long g_polls;
static std::function<bool()> g_idle;   // nothing is ready: advance the clock; false: give up waiting

extern "C" {
int __real_epoll_wait(int, epoll_event *, int, int);
int __real_epoll_pwait(int, epoll_event *, int, int, const sigset_t *);
int __real_poll(pollfd *, nfds_t, int);
int __real_ppoll(pollfd *, nfds_t, const timespec *, const sigset_t *);
int __real_timerfd_create(int, int);
int __real_timerfd_settime(int, int, const itimerspec *, itimerspec *);
int __real_gettimeofday(timeval *, void *);
int __real_clock_gettime(clockid_t, timespec *);
}

static int64_t vnow()
{
  g_now += g_tick;
  return g_now;
}
static void fire_if_due()
{
  if (g_deadline && g_deadline <= g_now) {
    g_deadline = 0;
    uint64_t one = 1;
    (void)!write(g_tfd, &one, 8);
  }
}
template <class F> static int virtual_wait(int ms, F f)
{
  ++g_polls;
  int64_t limit = ms < 0 ? INT64_MAX : g_now + (int64_t)ms * 1000;
  for (;;) {
    fire_if_due();
    int n = f();
    if (n || ms == 0) return n;
    if (g_deadline && g_deadline > limit) {
      g_now = limit;
      return 0;
    }
    if (!g_deadline && ms > 0) {
      g_now = limit;
      return 0;
    }
    if (!g_idle()) return 0;
  }
}
extern "C" {
int __wrap_epoll_wait(int e, epoll_event *ev, int n, int ms)
{
  if (!g_virtual) return __real_epoll_wait(e, ev, n, ms);
  return virtual_wait(ms, [&] { return __real_epoll_wait(e, ev, n, 0); });
}
int __wrap_epoll_pwait(int e, epoll_event *ev, int n, int ms, const sigset_t *s)
{
  if (!g_virtual) return __real_epoll_pwait(e, ev, n, ms, s);
  return virtual_wait(ms, [&] { return __real_epoll_wait(e, ev, n, 0); });
}
int __wrap_poll(pollfd *p, nfds_t n, int ms)
{
  if (!g_virtual) return __real_poll(p, n, ms);
  return virtual_wait(ms, [&] { return __real_poll(p, n, 0); });
}
int __wrap_ppoll(pollfd *p, nfds_t n, const timespec *t, const sigset_t *s)
{
  if (!g_virtual) return __real_ppoll(p, n, t, s);
  return virtual_wait(t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1, [&] { return __real_poll(p, n, 0); });
}
int __wrap_timerfd_create(int c, int f)
{
  if (!g_virtual) return __real_timerfd_create(c, f);
  return g_tfd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
}
int __wrap_timerfd_settime(int fd, int flags, const itimerspec *nv, itimerspec *ov)
{
  if (!g_virtual) return __real_timerfd_settime(fd, flags, nv, ov);
  PBT_CHECK(fd == g_tfd, "timerfd_settime() on another descriptor");
  PBT_CHECK(nv->it_value.tv_nsec >= 0 && nv->it_value.tv_nsec < 1000000000 && nv->it_value.tv_sec >= 0, "the timer descriptor is set to an invalid time (%lld s, %ld ns)", (long long)nv->it_value.tv_sec, nv->it_value.tv_nsec);
  uint64_t v;
  (void)!read(fd, &v, 8);   // setting the time forgets expirations
  int64_t us = nv->it_value.tv_sec * 1000000 + (nv->it_value.tv_nsec + 999) / 1000;
  if (!us)
    g_deadline = 0;
  else
    g_deadline = flags & TFD_TIMER_ABSTIME ? us : g_now + us;
  return 0;
}
int __wrap_gettimeofday(timeval *tv, void *tz)
{
  if (!g_virtual) return __real_gettimeofday(tv, tz);
  int64_t t = vnow();
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
int __wrap_clock_gettime(clockid_t c, timespec *ts)
{
  if (!g_virtual) return __real_clock_gettime(c, ts);
  int64_t t = vnow();
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = t % 1000000 * 1000;
  return 0;
}
}


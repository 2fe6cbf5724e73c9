#include "faultio.h"
#include <sys/socket.h>
#include <sys/uio.h>
#include <errno.h>
#include <deque>
#include <map>
#include <mutex>
#include <atomic>
#include <limits.h>
#include <string.h>

extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_recvmsg(int, struct msghdr *, int);
}

namespace faultio {
static std::mutex mu;
static std::atomic<int> active{0};
static std::map<int, std::deque<Act>> wr, rd;
static std::atomic<unsigned long> n_inj{0};

static void set(std::map<int, std::deque<Act>> &m, int fd, std::vector<Act> &a)
{
  std::lock_guard<std::mutex> g(mu);
  m[fd].assign(a.begin(), a.end());
  active = (int)(wr.size() + rd.size());
}
void plan_write(int fd, std::vector<Act> a) { set(wr, fd, a); }
void plan_read(int fd, std::vector<Act> a) { set(rd, fd, a); }
void clear(int fd)
{
  std::lock_guard<std::mutex> g(mu);
  wr.erase(fd);
  rd.erase(fd);
  active = (int)(wr.size() + rd.size());
}
static std::atomic<int> watched{-1};
static std::function<void(size_t)> watcher;
void watch_write(int fd, std::function<void(size_t)> fn)
{
  watcher = fn;
  watched = fd;
}
static ssize_t saw(int fd, ssize_t n)
{
  if (n > 0 && watched.load(std::memory_order_relaxed) == fd) watcher((size_t)n);
  return n;
}
void clear_all()
{
  watched = -1;
  std::lock_guard<std::mutex> g(mu);
  wr.clear();
  rd.clear();
  active = 0;
  n_inj = 0;
}
unsigned long injected() { return n_inj; }

// Returns true and the act if one is planned.
static bool take(std::map<int, std::deque<Act>> &m, int fd, Act &a)
{
  if (active.load(std::memory_order_relaxed) == 0) return false;
  std::lock_guard<std::mutex> g(mu);
  auto it = m.find(fd);
  if (it == m.end() || it->second.empty()) return false;
  a = it->second.front();
  it->second.pop_front();
  ++n_inj;
  return true;
}

static int cut(const struct iovec *iov, int cnt, size_t limit, struct iovec *out)
{
  int k = 0;
  for (int i = 0; i < cnt && k < IOV_MAX; ++i) {
    if (!limit && iov[i].iov_len) break;
    out[k] = iov[i];
    if (out[k].iov_len > limit) out[k].iov_len = limit;
    limit -= out[k].iov_len;
    ++k;
  }
  return k;
}
}  // namespace faultio
using namespace faultio;

#define FAIL_IF(a)                                                             \
  if (a.err) {                                                                 \
    errno = a.err;                                                             \
    return -1;                                                                 \
  }

extern "C" {
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
  Act a;
  if (take(wr, fd, a)) {
    FAIL_IF(a);
    if (n > a.limit) n = a.limit;
  }
  return saw(fd, __real_write(fd, p, n));
}
ssize_t __wrap_send(int fd, const void *p, size_t n, int f)
{
  Act a;
  if (take(wr, fd, a)) {
    FAIL_IF(a);
    if (n > a.limit) n = a.limit;
  }
  return saw(fd, __real_send(fd, p, n, f));
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
  Act a;
  if (take(wr, fd, a)) {
    FAIL_IF(a);
    if (c > 0 && c <= IOV_MAX) {
      struct iovec o[IOV_MAX];
      return saw(fd, __real_writev(fd, o, cut(v, c, a.limit, o)));
    }
  }
  return saw(fd, __real_writev(fd, v, c));
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f)
{
  Act a;
  if (take(wr, fd, a)) {
    FAIL_IF(a);
    if (m->msg_iovlen > 0 && m->msg_iovlen <= IOV_MAX) {
      struct iovec o[IOV_MAX];
      struct msghdr h = *m;
      h.msg_iovlen = cut(m->msg_iov, (int)m->msg_iovlen, a.limit, o);
      h.msg_iov = o;
      return saw(fd, __real_sendmsg(fd, &h, f));
    }
  }
  return saw(fd, __real_sendmsg(fd, m, f));
}
ssize_t __wrap_read(int fd, void *p, size_t n)
{
  Act a;
  if (take(rd, fd, a)) {
    FAIL_IF(a);
    if (n > a.limit && a.limit) n = a.limit;
  }
  return __real_read(fd, p, n);
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int f)
{
  Act a;
  if (take(rd, fd, a)) {
    FAIL_IF(a);
    if (n > a.limit && a.limit) n = a.limit;
  }
  return __real_recv(fd, p, n, f);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int c)
{
  Act a;
  if (take(rd, fd, a)) {
    FAIL_IF(a);
    if (c > 0 && c <= IOV_MAX && a.limit) {
      struct iovec o[IOV_MAX];
      int k = cut(v, c, a.limit, o);
      if (k) return __real_readv(fd, o, k);
    }
  }
  return __real_readv(fd, v, c);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f)
{
  Act a;
  if (take(rd, fd, a)) {
    FAIL_IF(a);
  }
  return __real_recvmsg(fd, m, f);
}
}

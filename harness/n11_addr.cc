// N11: socket addresses keep family, address and port through every form.
#include "pbt.h"
#include "kanon/net/socket.h"
#include <netinet/tcp.h>
#include "mynet.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/endian_api.h"
#include "kanon/thread/current_thread.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <functional>
#include <memory>
using namespace kanon;
using pbt::Gen;

// ---- a resolver of generated answers ----
struct Answer {
  bool six;
  sockaddr_in a4;
  sockaddr_in6 a6;
  int family;   // other families are to be skipped
};
static std::function<int(const char *, const char *, const addrinfo *)> g_ask;
static std::vector<Answer> g_answers;
static addrinfo *g_list;
static int g_freed;
extern "C" int __wrap_getaddrinfo(const char *h, const char *s, const addrinfo *hint, addrinfo **out)
{
  int r = g_ask(h, s, hint);
  if (r) {
    *out = (addrinfo *)1;
    errno = ENOENT;
    return r;
  }
  addrinfo **p = &g_list;
  for (auto &a : g_answers) {
    *p = (addrinfo *)calloc(1, sizeof(addrinfo));
    (*p)->ai_family = a.family;
    (*p)->ai_socktype = SOCK_STREAM;
    size_t n = a.six ? sizeof a.a6 : sizeof a.a4;
    (*p)->ai_addrlen = (socklen_t)n;
    (*p)->ai_addr = (sockaddr *)malloc(n);   // exactly: an over-read is reported
    memcpy((*p)->ai_addr, a.six ? (void *)&a.a6 : (void *)&a.a4, n);
    p = &(*p)->ai_next;
  }
  *p = nullptr;
  *out = g_list;
  return 0;
}
extern "C" void __wrap_freeaddrinfo(addrinfo *l)
{
  PBT_CHECK(l == g_list, "freeaddrinfo() of something getaddrinfo() did not return");
  ++g_freed;
  while (l) {
    addrinfo *n = l->ai_next;
    free(l->ai_addr);
    free(l);
    l = n;
  }
  g_list = nullptr;
}

// ---- addresses ----
struct Addr {
  bool six = false;
  unsigned char b[16] = {};
  uint16_t port = 0;
  std::string ip() const
  {
    char t[64];
    inet_ntop(six ? AF_INET6 : AF_INET, b, t, sizeof t);
    return t;
  }
  std::string ip_port() const { return (six ? "[" + ip() + "]" : ip()) + ":" + std::to_string(port); }
};
static Addr gen_addr(Gen &g)
{
  Addr a;
  a.six = g.boolean();
  a.port = g.chance(1, 4) ? g.pick<uint16_t>({0, 1, 80, 255, 256, 65535, 32768, 9999}) : (uint16_t)g.range(0, 65535);
  if (!a.six) {
    for (int i = 0; i < 4; ++i) a.b[i] = g.chance(1, 3) ? g.pick<int>({0, 255, 1, 127, 10}) : (int)g.range(0, 255);
    return a;
  }
  switch (g.range(0, 4)) {
    case 0:   // mapped
      a.b[10] = a.b[11] = 255;
      for (int i = 12; i < 16; ++i) a.b[i] = (unsigned char)g.range(0, 255);
      pbt::label("IPv4-mapped");
      break;
    case 1:   // compatible
      for (int i = 12; i < 16; ++i) a.b[i] = (unsigned char)g.range(0, 255);
      break;
    case 2: a.b[15] = (unsigned char)g.range(0, 1); break;
    default:
      for (int i = 0; i < 8; ++i) {
        uint16_t v = g.chance(1, 2) ? 0 : g.chance(1, 3) ? (uint16_t)g.range(0, 255) : (uint16_t)g.range(0, 65535);
        a.b[2 * i] = (unsigned char)(v >> 8);
        a.b[2 * i + 1] = (unsigned char)v;
      }
  }
  return a;
}
// one of the spellings of the address
static std::string spell(Gen &g, Addr const &a)
{
  if (!a.six) return a.ip();
  if (g.chance(1, 3)) return a.ip();
  uint16_t w[8];
  for (int i = 0; i < 8; ++i) w[i] = (uint16_t)(a.b[2 * i] << 8 | a.b[2 * i + 1]);
  bool dotted = g.chance(1, 3);
  int n = dotted ? 6 : 8, from = -1, len = 0;
  // a run of zeros to abbreviate
  if (g.chance(2, 3)) {
    std::vector<std::pair<int, int>> runs;
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n && !w[j]; ++j) runs.push_back({i, j - i + 1});
    if (!runs.empty()) {
      auto r = g.pickc(runs);
      from = r.first;
      len = r.second;
    }
  }
  bool upper = g.boolean(), full = g.boolean();
  std::string s;
  for (int i = 0; i < n;) {
    if (i == from) {
      s += s.empty() ? "::" : (s.back() == ':' ? ":" : "::");
      i += len;
      continue;
    }
    char t[8];
    snprintf(t, sizeof t, full ? (upper ? "%04X" : "%04x") : (upper ? "%X" : "%x"), w[i]);
    s += t;
    if (++i < n && i != from) s += ":";
  }
  if (dotted) {
    char t[32];
    snprintf(t, sizeof t, "%s%u.%u.%u.%u", s.back() == ':' ? "" : ":", a.b[12], a.b[13], a.b[14], a.b[15]);
    s += t;
    pbt::label("dotted tail");
  }
  unsigned char back[16];
  if (inet_pton(AF_INET6, s.c_str(), back) != 1 || memcmp(back, a.b, 16)) return a.ip();
  return s;
}
static Addr parse_or_throw(bool six, std::string const &ip, uint16_t port, bool &ok)
{
  Addr a;
  a.six = six;
  a.port = port;
  ok = inet_pton(six ? AF_INET6 : AF_INET, ip.c_str(), a.b) == 1;
  return a;
}
// A view that ends at the end of a block, or whose neighbours continue the text.
struct Text {
  std::unique_ptr<char[]> p;
  StringView v;
  Text(Gen &g, std::string const &s)
  {
    const char *after[] = {"", "1", ".5", ":80", "::", "]:80", "0", "%lo", "f"};
    std::string t = after[g.range(0, 8)], b = g.chance(1, 3) ? g.pick<const char *>({"1", "[", "::", "a.", ":"}) : "";
    size_t n = b.size() + s.size() + t.size();
    p.reset(new char[n + !n]);
    memcpy(p.get(), (b + s + t).data(), n);
    v = StringView(p.get() + b.size(), s.size());
    if (!t.empty()) pbt::label("part of a longer text");
  }
};
static void check(InetAddr const &x, Addr const &a, const char *what)
{
  PBT_CHECK(x.GetFamily() == (a.six ? AF_INET6 : AF_INET), "%s: family %d", what, x.GetFamily());
  PBT_CHECK(x.IsIpv4() == !a.six, "%s: IsIpv4() is %d", what, x.IsIpv4());
  PBT_CHECK(x.GetPort() == a.port, "%s: port %u, expected %u", what, x.GetPort(), a.port);
  std::string ip = x.ToIp();
  PBT_CHECK(ip == a.ip(), "%s: ToIp() is %s, expected %s", what, ip.c_str(), a.ip().c_str());
  std::string ipp = x.ToIpPort();
  PBT_CHECK(ipp == a.ip_port(), "%s: ToIpPort() is %s, expected %s", what, ipp.c_str(), a.ip_port().c_str());
  const sockaddr *s = x.ToSockaddr();
  PBT_CHECK(s == const_cast<InetAddr &>(x).ToSockaddr(), "%s: ToSockaddr() of the constant address differs", what);
  if (a.six) {
    sockaddr_in6 n;
    memcpy(&n, s, sizeof n);
    PBT_CHECK(x.ToIpv6() == (const void *)s, "%s: ToIpv6() is another address", what);
    PBT_CHECK(n.sin6_family == AF_INET6 && ntohs(n.sin6_port) == a.port && !memcmp(&n.sin6_addr, a.b, 16), "%s: the native IPv6 address is wrong", what);
  } else {
    sockaddr_in n;
    memcpy(&n, s, sizeof n);
    PBT_CHECK(x.ToIpv4() == (const void *)s, "%s: ToIpv4() is another address", what);
    PBT_CHECK(n.sin_family == AF_INET && ntohs(n.sin_port) == a.port && !memcmp(&n.sin_addr, a.b, 4), "%s: the native IPv4 address is wrong", what);
  }
}
static void check_extra(InetAddr const &x, uint32_t flow, uint32_t scope, const char *what)
{
  if (x.IsIpv4()) return;
  PBT_CHECK(x.ToIpv6()->sin6_flowinfo == flow, "%s: flow information %u, expected %u", what, x.ToIpv6()->sin6_flowinfo, flow);
  PBT_CHECK(x.ToIpv6()->sin6_scope_id == scope, "%s: scope %u, expected %u", what, x.ToIpv6()->sin6_scope_id, scope);
}
// Builds in memory full of rubbish.
struct Built {
  alignas(InetAddr) unsigned char m[sizeof(InetAddr)];
  InetAddr *x = nullptr;
  bool threw = false;
  std::string what;
  template <class... A> Built(Gen &g, A &&...a)
  {
    memset(m, (int)g.range(0, 255), sizeof m);
    asm volatile("" : : "r"(m) : "memory");
    try {
      x = new (m) InetAddr(std::forward<A>(a)...);
    } catch (InetAddrException const &e) {
      threw = true;
      what = e.what();
    }
  }
};
static std::string gen_port(Gen &g, bool &ok, uint16_t &v)
{
  std::string s;
  switch (g.range(0, 6)) {
    case 0: s = std::to_string(g.range(65530, 65545)); break;
    case 1: s = std::to_string(g.u64()); break;
    case 2: s = g.str(g.range(0, 4), "0123456789 +-x"); break;
    case 3: s = std::string(g.range(0, 60), '0') + std::to_string(g.range(0, 65535)); break;
    default: s = std::to_string(g.range(0, 65535));
  }
  ok = !s.empty();
  uint64_t n = 0;
  for (char c : s) {
    if (c < '0' || c > '9') ok = false;
    n = std::min<uint64_t>(n * 10 + (unsigned)(c - '0'), 100000);
  }
  ok = ok && n < 65536;
  v = (uint16_t)n;
  return s;
}
static std::string mutate(Gen &g, std::string s)
{
  for (unsigned n = (unsigned)g.range(1, 2); n; --n) {
    size_t i = g.range(0, s.size());
    char c = g.pick<char>({'.', ':', '1', '0', '9', 'f', 'g', '[', ']', '*', '/', ' ', 'F', '-', (char)0xe9});
    switch (g.range(0, 2)) {
      case 0: s.insert(i, 1, c); break;
      case 1:
        if (i < s.size()) s.erase(i, 1);
        break;
      default:
        if (i < s.size()) s[i] = c;
    }
  }
  return s;
}
static void gen_answers(Gen &g, std::vector<Addr> &good)
{
  g_answers.clear();
  good.clear();
  size_t n = g.range(0, 5);
  for (size_t i = 0; i < n; ++i) {
    Addr a = gen_addr(g);
    Answer k{};
    k.six = a.six;
    k.family = a.six ? AF_INET6 : AF_INET;
    if (a.six) {
      k.a6.sin6_family = AF_INET6;
      k.a6.sin6_port = htons(a.port);
      k.a6.sin6_scope_id = (uint32_t)i;
      memcpy(&k.a6.sin6_addr, a.b, 16);
    } else {
      k.a4.sin_family = AF_INET;
      k.a4.sin_port = htons(a.port);
      memcpy(&k.a4.sin_addr, a.b, 4);
    }
    if (g.chance(1, 8))
      k.family = AF_UNIX;
    else
      good.push_back(a);
    g_answers.push_back(k);
  }
}

static void text_case(Gen &g)
{
  CurrentThread::cacheTid();
  Logger::SetOutputCallback([](char const *, size_t) { errno = EIO; });
  Addr a = gen_addr(g);
  NOTE("address %s", a.ip_port().c_str());
  std::string ip = spell(g, a);
  if (ip != a.ip()) pbt::nontrivial();
  {
    Text t(g, ip);
    NOTE("InetAddr(\"%s\", %u)", ip.c_str(), a.port);
    Built x(g, t.v, a.port);
    PBT_CHECK(!x.threw, "InetAddr(\"%s\", %u) throws", ip.c_str(), a.port);
    check(*x.x, a, "from text and port");
    check_extra(*x.x, 0, 0, "from text and port");
    InetAddr copy = *x.x, other;
    other = copy;
    check(other, a, "copied");
    Text r(g, x.x->ToIpPort());
    Built y(g, r.v);
    PBT_CHECK(!y.threw, "the text of ToIpPort() is refused");
    check(*y.x, a, "from ToIpPort()");
    check_extra(*y.x, 0, 0, "from ToIpPort()");
  }
  {
    // address and port in one text
    bool ok;
    uint16_t v;
    std::string ps = gen_port(g, ok, v);
    std::string s = (a.six ? "[" + ip + "]" : ip) + ":" + ps;
    Text t(g, s);
    NOTE("InetAddr(\"%s\")", s.c_str());
    Built x(g, t.v);
    PBT_CHECK(x.threw == !ok, "InetAddr(\"%s\") %s", s.c_str(), x.threw ? "throws" : "does not throw");
    pbt::label_if(!ok, "invalid port");
    if (ok) {
      Addr b = a;
      b.port = v;
      check(*x.x, b, "from one text");
      check_extra(*x.x, 0, 0, "from one text");
    }
  }
  if (g.chance(1, 2)) {
    // something that is nearly an address
    std::string s = mutate(g, ip);
    bool ok;
    Addr b = parse_or_throw(s.find(':') != std::string::npos, s, a.port, ok);
    Text t(g, s);
    NOTE("InetAddr(\"%s\", %u)", s.c_str(), a.port);
    Built x(g, t.v, a.port);
    PBT_CHECK(x.threw == !ok, "InetAddr(\"%s\", %u) %s", s.c_str(), a.port, x.threw ? "throws" : "does not throw");
    if (ok)
      check(*x.x, b, "from changed text");
    else {
      pbt::label("invalid address");
      PBT_CHECK(!x.what.empty(), "the exception has no text");
    }
  }
  if (g.chance(1, 2)) {
    std::string s = mutate(g, g.chance(1, 8) ? "*:" + std::to_string(a.port) : (a.six ? "[" + ip + "]" : ip) + ":" + std::to_string(a.port));
    NOTE("InetAddr(\"%s\")", s.c_str());
    Text t(g, s);
    // the accepted forms
    bool ok = false, host = false;
    Addr b;
    size_t colon = s.find(':');
    std::string h = s.substr(0, colon), port;
    auto num = [&](std::string const &p, uint16_t &v) {
      if (p.empty() || p.find_first_not_of("0123456789") != std::string::npos) return false;
      size_t z = p.find_first_not_of('0');
      std::string q = z == std::string::npos ? "0" : p.substr(z);
      if (q.size() > 5 || atoi(q.c_str()) > 65535) return false;
      v = (uint16_t)atoi(q.c_str());
      return true;
    };
    uint16_t v = 0;
    if (s[0] == '[') {
      size_t r = s.find(']');
      if (r != std::string::npos && s[r + 1] == ':' && num(s.substr(r + 2), v) && s.substr(1, r - 1).find(':') != std::string::npos) b = parse_or_throw(true, s.substr(1, r - 1), v, ok);
    } else if (s[0] == '*') {
      if (h == "*" && colon != std::string::npos && num(s.substr(colon + 1), v)) b = parse_or_throw(false, "0.0.0.0", v, ok);
    } else if (colon != std::string::npos && isalnum((unsigned char)s[0])) {
      if (h.find_first_not_of("0123456789.") != std::string::npos)
        host = true;
      else if (num(s.substr(colon + 1), v))
        b = parse_or_throw(false, h, v, ok);
    }
    std::vector<Addr> good;
    gen_answers(g, good);
    int asked = 0;
    g_ask = [&](const char *n, const char *p, const addrinfo *) {
      ++asked;
      PBT_CHECK(host && h == n && s.substr(colon + 1) == p, "InetAddr(\"%s\") asks for host \"%s\" service \"%s\"", s.c_str(), n, p);
      return 0;
    };
    g_freed = 0;
    Built x(g, t.v);
    if (host) {
      pbt::label("host name");
      PBT_CHECK(asked == 1, "InetAddr(\"%s\") asks the resolver %d times", s.c_str(), asked);
      ok = !good.empty();
      if (ok) b = good[0];
    } else
      PBT_CHECK(!asked, "InetAddr(\"%s\") asks the resolver", s.c_str());
    PBT_CHECK(x.threw == !ok, "InetAddr(\"%s\") %s", s.c_str(), x.threw ? "throws" : "does not throw");
    if (ok) check(*x.x, b, "from changed text");
  }
  {
    // native forms
    if (a.six) {
      sockaddr_in6 n{};
      n.sin6_family = AF_INET6;
      n.sin6_port = htons(a.port);
      memcpy(&n.sin6_addr, a.b, 16);
      n.sin6_scope_id = (uint32_t)g.range(0, 9);
      n.sin6_flowinfo = (uint32_t)g.range(0, 9);
      Built x(g, n);
      check(*x.x, a, "from sockaddr_in6");
      check_extra(*x.x, n.sin6_flowinfo, n.sin6_scope_id, "from sockaddr_in6");
    } else {
      sockaddr_in n{};
      n.sin_family = AF_INET;
      n.sin_port = htons(a.port);
      memcpy(&n.sin_addr, a.b, 4);
      Built x(g, n);
      check(*x.x, a, "from sockaddr_in");
      sockaddr_in6 six{};   // as the socket functions return it
      memcpy(&six, &n, sizeof n);
      Built y(g, six);
      check(*y.x, a, "from sockaddr_in6 of family AF_INET");
    }
  }
  {
    bool loop = g.boolean(), six = g.boolean();
    Addr b;
    b.six = six;
    b.port = a.port;
    if (six && loop) b.b[15] = 1;
    if (!six && loop) b.b[0] = 127, b.b[3] = 1;
    Built x(g, (InetAddr::Port)a.port, loop, six);
    check(*x.x, b, "from port");
    check_extra(*x.x, 0, 0, "from port");
  }
}

static void resolve_case(Gen &g)
{
  CurrentThread::cacheTid();
  Logger::SetOutputCallback([](char const *, size_t) { errno = EIO; });
  std::vector<Addr> good;
  gen_answers(g, good);
  std::string h = g.str(1 + g.small(20), "abc.-012"), s = g.str(1 + g.small(5), "http0123");
  int err = g.chance(1, 4) ? g.pick<int>({EAI_NONAME, EAI_AGAIN, EAI_SERVICE, EAI_SYSTEM, EAI_MEMORY}) : 0;
  unsigned how = (unsigned)g.range(0, 2);
  bool server = g.boolean();
  addrinfo mine{};
  mine.ai_family = g.boolean() ? AF_INET : AF_INET6;
  mine.ai_flags = (int)g.range(0, 31);
  int asked = 0;
  NOTE("host %s service %s: %s %zu addresses%s", h.c_str(), s.c_str(), err ? "error" : "", g_answers.size(), server ? ", server" : "");
  g_ask = [&](const char *n, const char *p, const addrinfo *hint) {
    ++asked;
    PBT_CHECK(h == n && s == p, "the resolver is asked for host \"%s\" service \"%s\"", n, p);
    PBT_CHECK(hint, "no hints");
    if (how == 2)
      PBT_CHECK(!memcmp(hint, &mine, sizeof mine), "the hints of the caller are not passed on");
    else {
      PBT_CHECK(hint->ai_family == AF_UNSPEC && hint->ai_socktype == SOCK_STREAM, "the hints do not ask for TCP over IPv4 and IPv6");
      PBT_CHECK(!!(hint->ai_flags & AI_PASSIVE) == (how == 1 && server), "the hints ask for addresses to %s", hint->ai_flags & AI_PASSIVE ? "bind" : "connect");
    }
    return err;
  };
  g_freed = 0;
  if (err) good.clear();
  if (how == 0) {
    Built x(g, StringArg(h), StringArg(s));
    PBT_CHECK(x.threw == good.empty(), "InetAddr(host, service) %s", x.threw ? "throws" : "does not throw");
    if (!x.threw) check(*x.x, good[0], "from host name");
  } else {
    std::vector<InetAddr> v = how == 1 ? InetAddr::Resolve(h, s, server) : InetAddr::Resolve(h, s, &mine);
    PBT_CHECK(v.size() == good.size(), "Resolve() returns %zu addresses of %zu", v.size(), good.size());
    for (size_t i = 0; i < v.size(); ++i) check(v[i], good[i], "resolved");
    if (v.size() > 1) pbt::nontrivial();
  }
  PBT_CHECK(asked == 1, "the resolver is asked %d times", asked);
  PBT_CHECK(g_freed == (err ? 0 : 1) || (!err && g_answers.empty()), "the answer is freed %d times", g_freed);

  // byte order
  uint64_t v = g.u64();
  auto bytes = [&](auto x, auto n) {
    for (size_t i = 0; i < sizeof x; ++i) PBT_CHECK(((unsigned char *)&n)[i] == (unsigned char)(x >> 8 * (sizeof x - 1 - i)), "a %zu-byte value in network byte order has a wrong byte", sizeof x);
  };
  bytes((uint8_t)v, sock::ToNetworkByteOrder8((uint8_t)v));
  bytes((uint16_t)v, sock::ToNetworkByteOrder16((uint16_t)v));
  bytes((uint32_t)v, sock::ToNetworkByteOrder32((uint32_t)v));
  bytes((uint64_t)v, sock::ToNetworkByteOrder64(v));
  PBT_CHECK(sock::ToHostByteOrder8(sock::ToNetworkByteOrder8((uint8_t)v)) == (uint8_t)v, "8-bit byte order conversions are not inverse");
  PBT_CHECK(sock::ToHostByteOrder16(sock::ToNetworkByteOrder16((uint16_t)v)) == (uint16_t)v, "16-bit byte order conversions are not inverse");
  PBT_CHECK(sock::ToHostByteOrder32(sock::ToNetworkByteOrder32((uint32_t)v)) == (uint32_t)v, "32-bit byte order conversions are not inverse");
  PBT_CHECK(sock::ToHostByteOrder64(sock::ToNetworkByteOrder64(v)) == v, "64-bit byte order conversions are not inverse");
}

// ---- real sockets ----
static std::string native(int fd, int (*f)(int, sockaddr *, socklen_t *))
{
  sockaddr_in6 a{};
  socklen_t n = sizeof a;
  f(fd, (sockaddr *)&a, &n);
  char b[64];
  if (a.sin6_family == AF_INET6) {
    inet_ntop(AF_INET6, &a.sin6_addr, b, sizeof b);
    return "[" + std::string(b) + "]:" + std::to_string(ntohs(a.sin6_port));
  }
  inet_ntop(AF_INET, &((sockaddr_in *)&a)->sin_addr, b, sizeof b);
  return std::string(b) + ":" + std::to_string(ntohs(a.sin6_port));
}
static bool has_v6()
{
  static int r = -1;
  if (r < 0) {
    int s = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    r = s >= 0 && !bind(s, (sockaddr *)&a, sizeof a);
    if (s >= 0) close(s);
  }
  return r;
}
static void socket_case(Gen &g)
{
  CurrentThread::cacheTid();
  Logger::SetOutputCallback([](char const *, size_t) { errno = EIO; });
  // v4, v6, v4 client of a v6 wildcard, self connection
  unsigned kind = (unsigned)g.range(0, 3);
  bool six = kind == 1 || kind == 2;
  if (six && !has_v6()) return;
  char ip[32];
  in_addr la{htonl(my_address(1 + (unsigned)g.range(0, 200)))};
  inet_ntop(AF_INET, &la, ip, sizeof ip);
  int s = sock::CreateNonBlockAndCloExecSocket(six);
  PBT_CHECK(s >= 0 && fcntl(s, F_GETFL) & O_NONBLOCK && fcntl(s, F_GETFD) & FD_CLOEXEC, "the new socket is not non-blocking and close-on-exec");
  sock::SetReuseAddr(s, 1);
  InetAddr at = kind == 1 ? InetAddr("::1", 0) : kind == 2 ? InetAddr((InetAddr::Port)0, false, true) : InetAddr(ip, 0);
  sock::Bind(s, at.ToSockaddr());
  InetAddr bound(sock::GetLocalAddr(s));
  NOTE("kind %u, bound to %s", kind, bound.ToIpPort().c_str());
  PBT_CHECK(bound.ToIpPort() == native(s, getsockname) && bound.GetPort(), "the bound socket has address %s", bound.ToIpPort().c_str());
  PBT_CHECK(!sock::IsSelfConnect(s), "a socket that is not connected is reported connected to itself");
  if (kind == 3) {
    int r = sock::Connect(s, bound.ToSockaddr());
    PBT_CHECK(!r || errno == EINPROGRESS, "connecting to itself fails: %s", strerror(errno));
    PBT_CHECK(sock::IsSelfConnect(s), "a socket connected to itself is not reported so");
    close(s);
    pbt::nontrivial();
    return;
  }
  sock::Listen(s);
  int c = sock::CreateNonBlockAndCloExecSocket(kind == 1);
  InetAddr to = kind == 2 ? InetAddr(ip, bound.GetPort()) : bound;
  if (kind == 0 && g.boolean()) {
    // the same port at another address is not the same end
    in_addr lb{htonl(my_address(201 + (unsigned)g.range(0, 40)))};
    char ip2[32];
    inet_ntop(AF_INET, &lb, ip2, sizeof ip2);
    InetAddr b2(ip2, bound.GetPort());
    sock::SetReuseAddr(c, 1);
    if (!bind(c, b2.ToSockaddr(), sizeof(sockaddr_in))) pbt::label("same port, another address");
  }
  int r = sock::Connect(c, to.ToSockaddr());
  PBT_CHECK(!r || errno == EINPROGRESS, "connecting fails: %s", strerror(errno));
  pollfd p{c, POLLOUT, 0};
  PBT_CHECK(poll(&p, 1, 5000) == 1 && sock::GetSocketError(c) == 0, "connecting fails");
  sockaddr_in6 pa;
  memset(&pa, 0, sizeof pa);
  pollfd q{s, POLLIN, 0};
  poll(&q, 1, 5000);
  int t = sock::Accept(s, &pa);
  PBT_CHECK(t >= 0 && fcntl(t, F_GETFL) & O_NONBLOCK && fcntl(t, F_GETFD) & FD_CLOEXEC, "the accepted socket is not non-blocking and close-on-exec");
  auto same = [&](InetAddr const &x, int fd, int (*f)(int, sockaddr *, socklen_t *), const char *w) {
    PBT_CHECK(x.ToIpPort() == native(fd, f), "%s: %s, it is %s", w, x.ToIpPort().c_str(), native(fd, f).c_str());
  };
  same(InetAddr(pa), t, getpeername, "the address Accept() returns");
  same(InetAddr(sock::GetLocalAddr(t)), t, getsockname, "local address of the accepted socket");
  same(InetAddr(sock::GetPeerAddr(t)), t, getpeername, "peer address of the accepted socket");
  same(InetAddr(sock::GetLocalAddr(c)), c, getsockname, "local address of the client");
  same(InetAddr(sock::GetPeerAddr(c)), c, getpeername, "peer address of the client");
  if (kind != 2) PBT_CHECK(InetAddr(sock::GetPeerAddr(t)).ToIpPort() == InetAddr(sock::GetLocalAddr(c)).ToIpPort(), "the two ends disagree about the client's address");
  PBT_CHECK(!sock::IsSelfConnect(t) && !sock::IsSelfConnect(c), "a connection is reported connected to itself");
  pbt::nontrivial();
  {
    // bytes and the two ways to end the connection, through an owning Socket
    int own = dup(t);
    {
      kanon::Socket k(own);
      PBT_CHECK(k.GetFd() == own, "GetFd()");
      bool v = g.boolean(), w = g.boolean();
      k.SetNoDelay(v);
      k.SetKeepAlive(w);
      auto opt = [&](int level, int name) {
        int x = 0;
        socklen_t n = sizeof x;
        return !getsockopt(own, level, name, &x, &n) && x;
      };
      PBT_CHECK(opt(IPPROTO_TCP, TCP_NODELAY) == v && opt(SOL_SOCKET, SO_KEEPALIVE) == w, "SetNoDelay(%d), SetKeepAlive(%d)", (int)v, (int)w);
      v = !v;
      k.SetReuseAddr(v);
      k.SetReusePort(w);
      PBT_CHECK(opt(SOL_SOCKET, SO_REUSEADDR) == v && opt(SOL_SOCKET, SO_REUSEPORT) == w, "SetReuseAddr(%d), SetReusePort(%d)", (int)v, (int)w);
      std::string data = g.blob(1 + g.small(3000));
      PBT_CHECK(sock::Write(own, data.data(), data.size()) == (ssize_t)data.size(), "Write() of %zu bytes", data.size());
      if (g.boolean()) {
        k.ShutdownWrite();
        PBT_CHECK(send(own, "x", 1, MSG_NOSIGNAL) < 0, "the socket can be written after ShutdownWrite()");
        PBT_CHECK(::write(c, "y", 1) == 1, "the peer cannot write after ShutdownWrite()");
        pollfd rp{own, POLLIN, 0};
        poll(&rp, 1, 5000);
        char b = 0;
        PBT_CHECK(sock::Read(own, &b, 1) == 1 && b == 'y', "the socket cannot be read after ShutdownWrite()");
      } else {
        k.ShutdownTwoDirection();
        char b;
        PBT_CHECK(send(own, "x", 1, MSG_NOSIGNAL) < 0 && sock::Read(own, &b, 1) == 0, "the socket works after ShutdownTwoDirection()");
      }
      std::string in;
      for (;;) {
        pollfd rp{c, POLLIN, 0};
        if (poll(&rp, 1, 5000) != 1) pbt::fail("the peer sees no end of the stream");
        char b[4096];
        ssize_t n = sock::Read(c, b, sizeof b);
        if (n <= 0) break;
        in.append(b, n);
      }
      PBT_CHECK(in == data, "%zu of %zu bytes arrive", in.size(), data.size());
    }
    PBT_CHECK(fcntl(own, F_GETFD) < 0 && errno == EBADF, "the Socket does not close its descriptor");
  }
  {
    int p = sock::CreateSocket(six), fl = p >= 0 ? fcntl(p, F_GETFL) : 0, type = 0;
    socklen_t n = sizeof type;
    PBT_CHECK(p >= 0 && !(fl & O_NONBLOCK) && !getsockopt(p, SOL_SOCKET, SO_TYPE, &type, &n) && type == SOCK_STREAM, "CreateSocket()");
    if (g.boolean()) fcntl(p, F_SETFL, fl |= O_APPEND);
    if (g.chance(1, 4)) fcntl(p, F_SETFD, FD_CLOEXEC);
    sock::SetNonBlockAndCloExec(p);
    PBT_CHECK(fcntl(p, F_GETFL) == (fl | O_NONBLOCK), "SetNonBlockAndCloExec(): status flags %#x", fcntl(p, F_GETFL));
    PBT_CHECK(fcntl(p, F_GETFD) == FD_CLOEXEC, "SetNonBlockAndCloExec(): descriptor flags %#x", fcntl(p, F_GETFD));
    sock::Close(p);
    PBT_CHECK(fcntl(p, F_GETFD) < 0, "Close() leaves the socket open");
  }
  linger l{1, 0};
  setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  close(c);
  close(t);
  close(s);
}

int main(int argc, char **argv)
{
  pbt::Config cfg;
  cfg.property = "N11";
  cfg.rule = "text: the spelling differs from the canonical one; resolve: more than one address; sockets: a connection is established";
  cfg.assumptions = {"name resolution itself is the C library's: getaddrinfo() is replaced by generated answers", "texts with embedded zero bytes are not generated for host names"};
  pbt::SuiteOpt o;
  o.quick = 1000000;
  pbt::suite("text", "addresses from and to text and native forms", o, text_case);
  o.quick = 200000;
  pbt::suite("resolve", "name resolution and byte order", o, resolve_case);
  o.quick = 20000;
  pbt::suite("sockets", "addresses of real sockets", o, socket_case);
  return pbt::run(argc, argv, cfg);
}

// L01: every enabled log statement yields exactly one complete record.
#include "pbt.h"
#include "schedfuzz.h"
#include "vtime.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "kanon/log/logger.h"
#include "kanon/protobuf/logger.h"
#include "kanon/rpc/logger.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
using namespace kanon;
using pbt::Gen;

static const char *kLevel[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "SYS_ERROR", "FATAL", "SYS_FATAL"};
static constexpr size_t kLine = 4096;   // the line buffer

// ---- pieces of a message --------------------------------------------------------
struct Piece {
  int kind;          // 0 view, 1 C string, 2 std::string, 3 char, 4 int, 5 unsigned long, 6 bool, 7 double, 8 long long
  std::string s;
  int64_t i = 0;
  double d = 0;
  std::string text() const
  {
    char b[64];
    switch (kind) {
      case 3: return std::string(1, (char)i);
      case 4: return std::to_string((int)i);
      case 5: return std::to_string((unsigned long)i);
      case 6: return i & 1 ? "True" : "False";
      case 7: snprintf(b, sizeof b, "%.12g", d); return b;
      case 8: return std::to_string((long long)i);
      default: return s;
    }
  }
  void put(LogStream &o) const
  {
    switch (kind) {
      case 0: o << StringView(s.data(), s.size()); break;
      case 1: o << s.c_str(); break;
      case 2: o << s; break;
      case 3: o << (char)i; break;
      case 4: o << (int)i; break;
      case 5: o << (unsigned long)i; break;
      case 6: o << (bool)(i & 1); break;
      case 7: o << d; break;
      default: o << (long long)i; break;
    }
  }
};
static std::string message_text(Gen &g, size_t n, bool zero)
{
  std::string r = g.blob(n);
  for (char &c : r) {
    if (c == '\n' || c == 27 || (!zero && c == 0)) c = 'x';
    if (g.boolean() && n > 40) break;
  }
  for (char &c : r)
    if (c == '\n' || c == 27 || (!zero && c == 0)) c = 'y';
  return r;
}
static std::vector<Piece> message(Gen &g, size_t room)
{
  std::vector<Piece> v;
  unsigned n = (unsigned)g.range(0, 6);
  bool longish = g.chance(1, 6);
  size_t used = 0;
  for (unsigned k = 0; k < n; ++k) {
    Piece p;
    p.kind = (int)g.range(0, 8);
    if (p.kind <= 2) {
      size_t len;
      if (longish && k == n - 1)
        len = (size_t)std::max<int64_t>(0, (int64_t)room - (int64_t)used + g.irange(-70, 30));
      else if (longish)
        len = g.size(5000, {4095, 4096, 4000, 1000, 2048});
      else
        len = g.small(200);
      p.s = message_text(g, len, p.kind != 1);
    } else if (p.kind == 3) {
      do p.i = (char)g.range(1, 255);
      while (p.i == '\n' || p.i == 27);
    } else if (p.kind == 7)
      p.d = g.real();
    else
      p.i = (int64_t)g.u64();
    used += p.text().size();
    v.push_back(p);
  }
  return v;
}
static std::string joined(std::vector<Piece> const &v)
{
  std::string r;
  for (auto &p : v) r += p.text();
  return r;
}
// m is made of some of the pieces in order, the last one possibly cut
static bool truncated(std::string const &m, std::vector<Piece> const &v)
{
  std::set<size_t> at{0};
  if (m.empty()) return true;
  for (auto &p : v) {
    std::string t = p.text();
    std::set<size_t> next = at;
    for (size_t a : at) {
      size_t rest = m.size() - a;
      if (rest <= t.size() && !t.compare(0, rest, m, a, rest)) return true;
      if (t.size() <= rest && !m.compare(a, t.size(), t)) next.insert(a + t.size());
    }
    at.swap(next);
  }
  return at.count(m.size());
}

static std::string stamp(int64_t us)
{
  time_t s = us / 1000000;
  struct tm tm;
  localtime_r(&s, &tm);
  char b[64];
  snprintf(b, sizeof b, "%04d%02d%02d:%02d%02d%02d.%06d ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(us % 1000000));
  return b;
}
static std::string uncolored(std::string const &r, unsigned &codes)
{
  std::string o;
  codes = 0;
  for (size_t i = 0; i < r.size();) {
    if (r[i] == 27 && i + 1 < r.size() && r[i + 1] == '[') {
      size_t j = i + 2;
      while (j < r.size() && (isdigit((unsigned char)r[j]) || r[j] == ';')) ++j;
      if (j < r.size() && r[j] == 'm') {
        ++codes;
        i = j + 1;
        continue;
      }
    }
    o += r[i++];
  }
  return o;
}

// ---- one thread, exact records ----------------------------------------------------
static std::vector<std::string> *g_sink;
static unsigned g_evals;
static StringView evaluate(std::string const &s)
{
  ++g_evals;
  return StringView(s.data(), s.size());
}
#define SAY(M)                                                                 \
  do {                                                                         \
    line = __LINE__;                                                           \
    errno = err;                                                               \
    M << evaluate(all);                                                        \
  } while (0)
// an else after the statement belongs to the if before it
#define SAYELSE(M)                                                             \
  do {                                                                         \
    line = __LINE__;                                                           \
    errno = err;                                                               \
    if (yes)                                                                   \
      M << evaluate(all);                                                      \
    else                                                                       \
      other = true;                                                            \
  } while (0)
#define SAYFMT(M)                                                              \
  do {                                                                         \
    line = __LINE__;                                                           \
    errno = err;                                                               \
    M(fmt, evaluate(all));                                                     \
  } while (0)

static void reset_settings()
{
  Logger::SetColor(false);
  Logger::SetLogLevel(Logger::KANON_LL_INFO);
  SetKanonLog(true);
  SetProtobufLog(true);
  SetProtobufRpcLog(true);
  EnableAllLog(true);
}

static void record_case(Gen &g)
{
  CurrentThread::cacheTid();
  static const char *const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<-03>3", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
  static int zone = -1;
  // the cached second belongs to a time zone
  int z = (int)(pbt::mix(pbt::case_index() / 1000) % 5);
  if (z != zone) {
    zone = z;
    setenv("TZ", zones[z], 1);
    tzset();
    g_now += 100000000000;
  }
  g_virtual = true;
  static int64_t last_start = 0;
  g_now = 1000000 + (int64_t)g.range(0, 4102444800ull) * 1000000 + (int64_t)g.range(0, 999999);
  if (g_now / 1000000 == last_start / 1000000) g_now += 2000000;
  last_start = g_now;
  std::vector<std::string> sink;
  g_sink = &sink;
  Logger::SetOutputCallback([](char const *p, size_t n) {
    g_sink->emplace_back(p, n);
    errno = EIO;
  });
  Logger::SetFlushCallback([] { g_sink->push_back("<flush>"); });
  reset_settings();
  int threshold = Logger::KANON_LL_INFO;
  bool color = false, lib_on[3] = {true, true, true}, all_on = true;
  unsigned emitted = 0, suppressed = 0, truncations = 0;
  unsigned steps = (unsigned)g.range(1, 12);
  static char tname[20];
  for (unsigned step = 0; step < steps; ++step) {
    // settings
    if (g.chance(1, 3)) {
      threshold = (int)g.pick<int>({0, 1, 2, 3, 4, 5, 6, 7, 9});
      Logger::SetLogLevel((Logger::LogLevel)threshold);
    }
    if (g.chance(1, 4)) Logger::SetColor(color = g.boolean());
    if (g.chance(1, 8)) SetKanonLog(lib_on[0] = g.boolean());
    if (g.chance(1, 8)) SetProtobufLog(lib_on[1] = g.boolean());
    if (g.chance(1, 8)) SetProtobufRpcLog(lib_on[2] = g.boolean());
    if (g.chance(1, 12)) EnableAllLog(all_on = g.boolean());
    if (g.chance(1, 6)) {
      if (g.chance(1, 3))
        CurrentThread::t_name = nullptr;
      else {
        std::string n = g.str((size_t)g.range(1, 15), "abcXYZ-_0");
        strcpy(tname, n.c_str());
        CurrentThread::t_name = tname;
      }
    }
    switch (g.weighted({4, 3, 3, 2, 1, 1})) {
      case 0: break;
      case 1: g_now += (int64_t)g.range(0, 2000); break;
      case 2: g_now += (int64_t)g.range(0, 3000000); break;
      case 3: g_now = (g_now / 1000000 + (int64_t)g.range(0, 2)) * 1000000 + g.pick<int>({0, 1, 9, 99, 999999, 100000}); break;
      case 4: g_now += (int64_t)g.range(0, 86400ull * 400) * 1000000; break;
      default: g_now = std::max<int64_t>(1000000, g_now - (int64_t)g.range(0, 86400ull * 400) * 1000000); break;
    }
    int err = (int)g.pick<int>({0, EAGAIN, ENOENT, EIO, EPIPE, ECONNRESET, EMFILE, 133, 4095, -1, 1, ETIMEDOUT});
    int level = (int)g.range(0, 5);
    unsigned form = g.weighted({4, 2, 2, 2, 4});   // plain, _KANON, FMT_, if/else, direct
    size_t line = 0;
    std::string file = "l01_log.cc", func = "record_case";
    bool yes = true, other = false;
    char ttext[96];
    size_t prefix_guess = 23 + 8 + 10 + 12 + (level <= 1 ? func.size() + 3 : 0) + (level == 5 ? 40 : 0) + (color ? 11 : 0);
    std::vector<Piece> pieces = message(g, kLine - prefix_guess - 17);
    std::string all = joined(pieces), fmt = "<%>";
    if (form != 4) {   // the message is one piece
      pieces.clear();
      Piece p;
      p.kind = 0;
      p.s = all;
      pieces.push_back(p);
      if (form == 2) {
        // the format's own buffer has the size of the line buffer
        pieces[0].s = "<" + all + ">";
        if (all.size() > kLine - 8) all.resize(kLine - 8), pieces[0].s = "<" + all + ">";
      }
      if (form == 3) yes = g.chance(2, 3);
    }
    size_t before = sink.size();
    g_evals = 0;
    bool enabled = all_on && level >= threshold;
    unsigned lib = form == 1 ? (unsigned)g.weighted({3, 1, 1}) : (unsigned)(3 - g.weighted({3, 1, 1, 2}));
    if (form == 1 || (form == 3 && lib < 3)) enabled = enabled && lib_on[lib];
    switch (form) {
      case 0:
        switch (level) {
          case 0: SAY(LOG_TRACE); break;
          case 1: SAY(LOG_DEBUG); break;
          case 2: SAY(LOG_INFO); break;
          case 3: SAY(LOG_WARN); break;
          case 4: SAY(LOG_ERROR); break;
          default: SAY(LOG_SYSERROR); break;
        }
        break;
      case 1:
        switch (lib) {
#define SIX(S, SUFFIX)                                                                                                  \
  switch (level) {                                                                                                     \
    case 0: S(LOG_TRACE##SUFFIX); break;                                                                               \
    case 1: S(LOG_DEBUG##SUFFIX); break;                                                                               \
    case 2: S(LOG_INFO##SUFFIX); break;                                                                                \
    case 3: S(LOG_WARN##SUFFIX); break;                                                                                \
    case 4: S(LOG_ERROR##SUFFIX); break;                                                                               \
    default: S(LOG_SYSERROR##SUFFIX); break;                                                                           \
  }
          case 0: SIX(SAY, _KANON); break;
          case 1: SIX(SAY, _KANON_PROTOBUF); break;
          default: SIX(SAY, _KANON_PROTOBUF_RPC); break;
        }
        break;
      case 2:
        switch (level) {
          case 0: SAYFMT(FMT_LOG_TRACE); break;
          case 1: SAYFMT(FMT_LOG_DEBUG); break;
          case 2: SAYFMT(FMT_LOG_INFO); break;
          case 3: SAYFMT(FMT_LOG_WARN); break;
          case 4: SAYFMT(FMT_LOG_ERROR); break;
          default: SAYFMT(FMT_LOG_SYSERROR); break;
        }
        break;
      case 3:
        switch (lib) {
          case 0: SIX(SAYELSE, _KANON); break;
          case 1: SIX(SAYELSE, _KANON_PROTOBUF); break;
          case 2: SIX(SAYELSE, _KANON_PROTOBUF_RPC); break;
          default: SIX(SAYELSE, ); break;
        }
        PBT_CHECK(other == !yes, "the else after a log statement at level %s (threshold %d) is %s", kLevel[level], threshold, other ? "taken although the condition holds" : "not taken");
        enabled = enabled && yes;
        break;
      default: {
        line = g.chance(1, 10) ? (size_t)g.u64() : (size_t)g.range(1, 9999);
        file = g.pick<const char *>({"", "a", "x_file.cc", "main.cpp", "name with space.h"});
        std::string path = std::string(g.pick<const char *>({"", "/", "a/", "/usr/src/", "../", "a//b/", "."})) + file;
        file = path.substr(path.rfind('/') + 1);
        func = g.str((size_t)g.range(1, 12), "fgh_");
        enabled = true;   // the macros test the level, not the object
        errno = err;
        if (level <= 1) {
          Logger l(path.c_str(), line, (Logger::LogLevel)level, func.c_str());
          for (auto &p : pieces) p.put(l.stream());
        } else if (level == 5) {
          Logger l(path.c_str(), line, (Logger::LogLevel)level, true);
          for (auto &p : pieces) p.put(l.stream());
        } else {
          Logger l(path.c_str(), line, (Logger::LogLevel)level);
          for (auto &p : pieces) p.put(l.stream());
        }
      }
    }
    NOTE("level %s, threshold %d, form %u, errno %d, %zu bytes in %zu pieces: %s", kLevel[level], threshold, form, err, all.size(), pieces.size(), enabled ? "emitted" : "suppressed");
    if (form != 4) PBT_CHECK(g_evals == enabled, "the arguments of %s log statement are evaluated %u times", enabled ? "an enabled" : "a disabled", g_evals);
    PBT_CHECK(sink.size() == before + enabled, "a log statement at level %s with threshold %d%s%s yields %zu records, expected %d", kLevel[level], threshold, all_on ? "" : ", all logging off", lib < 3 && !lib_on[lib] ? ", library logging off" : "", sink.size() - before, (int)enabled);
    if (!enabled) {
      ++suppressed;
      continue;
    }
    ++emitted;
    std::string r = sink.back();
    unsigned codes;
    PBT_CHECK(r.size() <= kLine, "the record has %zu bytes", r.size());
    std::string plain = uncolored(r, codes);
    PBT_CHECK(color ? codes >= 2 : codes == 0, "%u colour codes with colours %s: %s", codes, color ? "on" : "off", pbt::quote(r, 100).c_str());
    if (color) {
      size_t lv = r.find(std::string("[") + kLevel[level] + "]");
      PBT_CHECK(lv != std::string::npos && lv > 0 && r[lv - 1] == 'm' && r.compare(lv + strlen(kLevel[level]) + 2, 2, "\033[") == 0 && r.rfind("\033[0m") == r.rfind('\033'), "the level name is not coloured alone: %s", pbt::quote(r, 100).c_str());
    }
    snprintf(ttext, sizeof ttext, "%d %s [%s] ", (int)syscall(SYS_gettid), CurrentThread::t_name ? CurrentThread::t_name : "Unnamed", kLevel[level]);
    std::string head = stamp(g_now) + ttext;
    if (level <= 1) head += func + "() ";
    if (level == 5) head += "errno: " + std::to_string(err) + ", errmsg: " + strerror(err) + " ";
    std::string tail = " - " + file + ":" + std::to_string(line) + "\n";
    PBT_CHECK(plain.size() >= head.size() + tail.size() && !plain.compare(0, head.size(), head), "the record begins %s, expected %s", pbt::quote(plain, 120).c_str(), pbt::quote(head, 120).c_str());
    PBT_CHECK(!plain.compare(plain.size() - tail.size(), tail.size(), tail), "the record ends %s, expected %s", pbt::quote(plain.substr(plain.size() - std::min<size_t>(plain.size(), 60))).c_str(), pbt::quote(tail).c_str());
    std::string body = plain.substr(head.size(), plain.size() - head.size() - tail.size());
    std::string want = joined(pieces);
    if (body != want) {
      size_t total = r.size() - body.size() + want.size();
      PBT_CHECK(total > kLine - 40, "the message is %s, expected %s (%zu bytes fit)", pbt::quote(body, 100).c_str(), pbt::quote(want, 100).c_str(), total);
      PBT_CHECK(truncated(body, pieces), "the truncated message is not made of the beginning of the pieces: %s", pbt::quote(body, 100).c_str());
      ++truncations;
    }
  }
  CurrentThread::t_name = nullptr;
  pbt::label_if(truncations, "truncated record");
  pbt::label_if(suppressed, "suppressed statement");
  if (emitted >= 2) pbt::nontrivial();
  g_virtual = false;
}

// ---- threads ---------------------------------------------------------------------
struct Parsed {
  std::string time, tid, name, level, rest;
};
static Parsed parse(std::string const &r)
{
  Parsed p;
  size_t a = 0;
  std::string *f[] = {&p.time, &p.tid, &p.name, &p.level};
  for (auto *s : f) {
    size_t b = r.find(' ', a);
    PBT_CHECK(b != std::string::npos, "malformed record %s", pbt::quote(r, 120).c_str());
    *s = r.substr(a, b - a);
    a = b + 1;
  }
  p.rest = r.substr(a);
  return p;
}
static int64_t parse_stamp(std::string const &t)
{
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  int us = -1, n = 0;
  PBT_CHECK(sscanf(t.c_str(), "%4d%2d%2d:%2d%2d%2d.%6d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &us, &n) == 7 && n == 22 && t.size() == 22, "malformed time stamp %s", t.c_str());
  tm.tm_year -= 1900;
  tm.tm_mon -= 1;
  tm.tm_isdst = -1;
  return (int64_t)mktime(&tm) * 1000000 + us;
}
static int64_t real_now()
{
  timeval tv;
  __real_gettimeofday(&tv, nullptr);
  return (int64_t)tv.tv_sec * 1000000 + tv.tv_usec;
}
static std::mutex *g_sink_lock;

static void thread_case(Gen &g)
{
  CurrentThread::cacheTid();
  setenv("TZ", "UTC0", 1);
  tzset();
  reset_settings();
  int threshold = (int)g.range(0, 5);
  Logger::SetLogLevel((Logger::LogLevel)threshold);
  schedfuzz::setup(g.range(0, UINT64_MAX), (unsigned)g.range(0, 2), 0);
  unsigned n = (unsigned)g.range(2, 4), per = (unsigned)g.range(1, 40);
  struct T {
    int tid = 0;
    std::vector<int> levels;
    std::vector<size_t> lens;
  };
  std::vector<T> ts(n);
  for (auto &t : ts)
    for (unsigned i = 0; i < per; ++i) {
      t.levels.push_back((int)g.range(0, 5));
      t.lens.push_back((size_t)g.small(300));
    }
  std::vector<std::string> sink;
  std::mutex lock;
  g_sink = &sink;
  g_sink_lock = &lock;
  Logger::SetOutputCallback([](char const *p, size_t n) {
    std::lock_guard<std::mutex> l(*g_sink_lock);
    g_sink->emplace_back(p, n);
  });
  int64_t t0 = real_now();
  {
    std::vector<std::unique_ptr<Thread>> th;
    for (unsigned k = 0; k < n; ++k) {
      th.emplace_back(new Thread("worker" + std::to_string(k)));
      th.back()->StartRun([&, k] {
        ts[k].tid = (int)syscall(SYS_gettid);
        for (unsigned i = 0; i < per; ++i) {
          std::string pad(ts[k].lens[i], (char)('a' + k));
          errno = 1 + (int)((k * 37 + i * 3) % 260);   // more than there are
          switch (ts[k].levels[i]) {
            case 0: LOG_TRACE << "t" << k << "#" << i << " " << pad; break;
            case 1: LOG_DEBUG << "t" << k << "#" << i << " " << pad; break;
            case 2: LOG_INFO << "t" << k << "#" << i << " " << pad; break;
            case 3: LOG_WARN << "t" << k << "#" << i << " " << pad; break;
            case 4: LOG_ERROR << "t" << k << "#" << i << " " << pad; break;
            default: LOG_SYSERROR << "t" << k << "#" << i << " " << pad; break;
          }
        }
      });
    }
    for (auto &t : th) t->Join();
  }
  int64_t t1 = real_now();
  schedfuzz::off();
  std::vector<unsigned> at(n, 0);
  std::vector<int64_t> last(n, 0);
  unsigned total = 0;
  for (auto &r : sink) {
    ++total;
    PBT_CHECK(r.size() && r.back() == '\n' && r.find('\n') == r.size() - 1, "the record is not one line: %s", pbt::quote(r, 120).c_str());
    Parsed p = parse(r);
    unsigned k = n;
    for (unsigned j = 0; j < n; ++j)
      if (p.tid == std::to_string(ts[j].tid)) k = j;
    PBT_CHECK(k < n, "a record carries the thread id %s of no logging thread", p.tid.c_str());
    PBT_CHECK(p.name == "worker" + std::to_string(k), "thread worker%u is called %s in a record", k, p.name.c_str());
    T &t = ts[k];
    while (at[k] < per && t.levels[at[k]] < threshold) ++at[k];
    PBT_CHECK(at[k] < per, "thread %u yields more records than statements: %s", k, pbt::quote(r, 120).c_str());
    unsigned i = at[k]++;
    int lv = t.levels[i], e = 1 + (int)((k * 37 + i * 3) % 260);
    PBT_CHECK(p.level == std::string("[") + kLevel[lv] + "]", "statement %u of thread %u has level %s, its record %s", i, k, kLevel[lv], p.level.c_str());
    std::string head;
    if (lv <= 1) {
      size_t b = p.rest.find("() ");
      PBT_CHECK(b != std::string::npos, "no function name: %s", pbt::quote(r, 120).c_str());
      p.rest = p.rest.substr(b + 3);
    }
    if (lv == 5) head = "errno: " + std::to_string(e) + ", errmsg: " + strerror(e) + " ";
    head += "t" + std::to_string(k) + "#" + std::to_string(i) + " " + std::string(t.lens[i], (char)('a' + k)) + " - l01_log.cc:";
    PBT_CHECK(!p.rest.compare(0, head.size(), head), "statement %u of thread %u: record %s, expected %s", i, k, pbt::quote(p.rest, 120).c_str(), pbt::quote(head, 120).c_str());
    int64_t s = parse_stamp(p.time);
    PBT_CHECK(s >= t0 && s <= t1, "time stamp %s is not the time of the statement", p.time.c_str());
    PBT_CHECK(s >= last[k], "the time stamps of thread %u go back", k);
    last[k] = s;
  }
  for (unsigned k = 0; k < n; ++k) {
    while (at[k] < per && ts[k].levels[at[k]] < threshold) ++at[k];
    PBT_CHECK(at[k] == per, "statement %u of thread %u yields no record", at[k], k);
  }
  if (total >= 4) pbt::nontrivial();
}

// ---- the end of the process --------------------------------------------------------
static int g_out;
static void put(const char *p, size_t n) { (void)!write(g_out, p, n); }
static std::string slurp(int fd)
{
  std::string r;
  char b[65536];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n);
  return r;
}
static void fatal_case(Gen &g)
{
  CurrentThread::cacheTid();
  reset_settings();
  setenv("TZ", "UTC0", 1);
  tzset();
  bool custom = g.boolean(), color = g.boolean(), sys = g.boolean(), fmt = g.boolean(), die = g.chance(3, 4);
  int threshold = (int)g.range(0, 6), err = g.pick<int>({0, ENOENT, EIO, 4095});
  unsigned n = (unsigned)g.range(0, 4), nth = die ? 1 : (unsigned)g.range(1, 3);
  size_t len = g.small(4000);
  std::string msg(len, 'm');
  static int fd = memfd_create("log", MFD_CLOEXEC);
  PBT_CHECK(!ftruncate(fd, 0), "ftruncate");
  lseek(fd, 0, SEEK_SET);
  fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_APPEND);
  NOTE("%s sink, %s record of %zu bytes, threshold %d, %u records before", custom ? "custom" : "default", sys ? "system fatal" : "fatal", len, threshold, n);
  fflush(stdout);
  pid_t p = fork();
  PBT_CHECK(p >= 0, "fork: %s", strerror(errno));
  if (!p) {
    CurrentThread::cacheTid();
    signal(SIGABRT, SIG_DFL);
    CurrentThread::t_name = "Child";
    Logger::SetLogLevel((Logger::LogLevel)threshold);
    Logger::SetColor(color);
    dup2(fd, 1);
    if (custom) {
      g_out = fd;
      Logger::SetOutputCallback([](char const *p, size_t n) { put(p, n); });
      Logger::SetFlushCallback([] { put("<flush>\n", 8); });
    } else {
      Logger::SetOutputCallback(&DefaultOutput);
      Logger::SetFlushCallback(&DefaultFlush);
    }
    if (nth == 1)
      for (unsigned i = 0; i < n; ++i) LOG_ERROR << "before " << i;
    else {
      std::vector<std::thread> th;
      for (unsigned k = 0; k < nth; ++k)
        th.emplace_back([&, k] {
          for (unsigned i = 0; i < n * 20; ++i) LOG_ERROR << "thread" << k << "#" << i;
        });
      for (auto &t : th) t.join();
    }
    if (die) {
      errno = err;
      if (fmt && sys) FMT_LOG_SYSFATAL("%", StringView(msg));
      else if (fmt) FMT_LOG_FATAL("%", StringView(msg));
      else if (sys) LOG_SYSFATAL << msg;
      else LOG_FATAL << msg;
      put("<survived>\n", 11);
      _exit(0);
    }
    DefaultFlush();
    _exit(7);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  std::string out = slurp(fd);
  std::vector<std::string> lines;
  for (size_t a = 0; a < out.size();) {
    size_t b = out.find('\n', a);
    PBT_CHECK(b != std::string::npos, "the output ends in an incomplete line: %s", pbt::quote(out.substr(a)).c_str());
    lines.push_back(out.substr(a, b - a));
    a = b + 1;
  }
  size_t want_before = threshold <= 4 ? (nth == 1 ? n : nth * n * 20) : 0;
  if (die) {
    PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a fatal record does not abort the process (status %x)", st);
    size_t want = want_before + 1 + custom;
    PBT_CHECK(lines.size() == want, "%zu lines, expected %zu: %s", lines.size(), want, pbt::quote(out, 200).c_str());
    if (custom) PBT_CHECK(lines.back() == "<flush>", "the fatal record is not flushed before the process ends");
    std::string r = lines[want_before];
    unsigned codes;
    std::string u = uncolored(r, codes);
    PBT_CHECK((codes > 0) == color, "colours");
    Parsed q = parse(u);
    PBT_CHECK(q.level == (sys ? "[SYS_FATAL]" : "[FATAL]"), "level %s", q.level.c_str());
    PBT_CHECK(q.tid == std::to_string(p) && q.name == "Child", "thread %s %s", q.tid.c_str(), q.name.c_str());
    std::string head = (sys ? "errno: " + std::to_string(err) + ", errmsg: " + strerror(err) + " " : "") + msg + " - l01_log.cc:";
    PBT_CHECK(!q.rest.compare(0, head.size(), head), "the fatal record is %s, expected %s", pbt::quote(q.rest, 100).c_str(), pbt::quote(head, 100).c_str());
  } else {
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "the process ends with status %x", st);
    PBT_CHECK(lines.size() == want_before, "%zu lines, expected %zu", lines.size(), want_before);
  }
  unsigned next[3] = {0, 0, 0};
  for (size_t i = 0; i < want_before; ++i) {
    unsigned codes;
    Parsed q = parse(uncolored(lines[i], codes));
    if (nth == 1) {
      std::string h = "before " + std::to_string(i) + " - l01_log.cc:";
      PBT_CHECK(!q.rest.compare(0, h.size(), h), "record %zu is %s", i, pbt::quote(q.rest, 100).c_str());
    } else {
      unsigned k = 9, j = 0;
      int len = 0;
      PBT_CHECK(sscanf(q.rest.c_str(), "thread%u#%u - l01_log.cc:%n", &k, &j, &len) == 2 && len && k < nth && j == next[k]++, "record %zu is %s", i, pbt::quote(lines[i], 100).c_str());
    }
  }
  pbt::label(die ? "fatal" : "default sink");
  pbt::nontrivial();
}

// ---- the environment ------------------------------------------------------------------
static int probe()
{
  printf("%d %d %d %d\n", (int)Logger::GetLogLevel(), (int)g_kanon_log, (int)kanon::detail::g_kanon_protobuf_log, (int)kanon::detail::g_kanon_protobuf_rpc_log_enable);
  return 0;
}
static void env_case(Gen &g)
{
  struct V {
    const char *name;
    int level;
  };
  static const V vs[] = {{"trace", 0}, {"debug", 1}, {"info", 2}, {"warn", 3}, {"warning", 3}, {"error", 4}, {"fatal", 6}, {"off", 9}, {nullptr, 2}, {"", 2}, {"nonsense", 2}, {"tracer", 2}};
  auto &v = vs[g.range(0, 11)];
  std::string name = v.name ? v.name : "";
  for (char &c : name)
    if (g.chance(1, 3)) c = (char)toupper((unsigned char)c);
  static const char *const var[] = {"KANON_LOG_ENABLE", "KANON_PROTOBUF_LOG_ENABLE", "KANON_PROTOBUF_RPC_LOG_ENABLE"};
  const char *en[3];
  NOTE("KANON_LOG=%s", v.name ? name.c_str() : "(unset)");
  for (int i = 0; i < 3; ++i) {
    en[i] = g.pick<const char *>({nullptr, "0", "1", ""});
    NOTE("%s=%s", var[i], en[i] ? en[i] : "(unset)");
  }
  int pf[2];
  PBT_CHECK(!pipe(pf), "pipe");
  pid_t p = fork();
  if (!p) {
    dup2(pf[1], 1);
    if (v.name) setenv("KANON_LOG", name.c_str(), 1);
    else unsetenv("KANON_LOG");
    for (int i = 0; i < 3; ++i)
      if (en[i]) setenv(var[i], en[i], 1);
      else unsetenv(var[i]);
    execl("/proc/self/exe", "probe", "--probe", (char *)nullptr);
    _exit(99);
  }
  close(pf[1]);
  char b[64];
  std::string out;
  ssize_t k;
  while ((k = read(pf[0], b, sizeof b)) > 0) out.append(b, (size_t)k);
  close(pf[0]);
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  int l = -1, kl[3] = {-1, -1, -1};
  PBT_CHECK(WIFEXITED(st) && !WEXITSTATUS(st) && sscanf(out.c_str(), "%d %d %d %d", &l, kl, kl + 1, kl + 2) == 4, "the probe fails (%x, %s)", st, out.c_str());
  PBT_CHECK(l == v.level, "KANON_LOG=%s gives the threshold %d, expected %d", v.name ? name.c_str() : "(unset)", l, v.level);
  for (int i = 0; i < 3; ++i) PBT_CHECK(kl[i] == !(en[i] && !strcmp(en[i], "0")), "%s=%s %s the library's messages", var[i], en[i] ? en[i] : "(unset)", kl[i] ? "enables" : "disables");
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  if (argc > 1 && !strcmp(argv[1], "--probe")) return probe();
  pbt::Config cfg;
  cfg.property = "L01";
  cfg.rule = "record: at least two records are emitted; threads/races: at least four; fatal, env: every case";
  cfg.assumptions = {"settings do not change while other threads log", "a record longer than the line buffer may leave out pieces that do not fit, as the streams do (S02)",
                     "fatal statements are made with a threshold they pass"};
  pbt::SuiteOpt o;
  o.quick = 450000;
  pbt::suite("record", "one thread on a virtual clock, exact records", o, record_case);
  o.quick = 12000;
  o.nondet = true;
  o.sound = true;
  pbt::suite("threads", "several threads log at once (ASan)", o, thread_case);
  o.quick = 20000;
  pbt::suite("races", "several threads log at once (TSan)", o, thread_case);
  o.nondet = false;
  o.sound = false;
  o.quick = 4000;
  pbt::suite("fatal", "the default and a custom sink at the end of the process", o, fatal_case);
  o.quick = 300;
  o.thorough = 1500;
  pbt::suite("env", "the environment sets the initial threshold", o, env_case);
  return pbt::run(argc, argv, cfg);
}

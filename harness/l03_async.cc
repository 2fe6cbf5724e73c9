// L03: the asynchronous log loses, repeats and reorders nothing within its limits.
#include "pbt.h"
#include "schedfuzz.h"
#include "scratch.h"
#include "vtime.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "kanon/log/async_log.h"
#include "kanon/log/logger.h"
#include "kanon/thread/current_thread.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;
static constexpr size_t kBuffer = 4096 << 10;
static constexpr size_t kSafe = 28u << 20;   // never more than 15 buffers of the backlog, however they are filled

static void nap(unsigned us)
{
  timespec t{us / 1000000, (long)(us % 1000000) * 1000};
  nanosleep(&t, nullptr);
}
// the files of the log in the order of their time stamps
static std::string read_log(std::string const &d, size_t *nfiles = nullptr)
{
  std::map<std::string, std::string> r;
  DIR *dir = opendir(d.c_str());
  if (!dir) return "";
  while (dirent *e = readdir(dir)) {
    if (e->d_name[0] == '.') continue;
    std::string s;
    int fd = open((d + "/" + e->d_name).c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) continue;
    static thread_local std::vector<char> b(1 << 20);
    ssize_t n;
    while ((n = read(fd, b.data(), b.size())) > 0) s.append(b.data(), (size_t)n);
    close(fd);
    r[e->d_name] = s;
  }
  closedir(dir);
  if (nfiles) *nfiles = r.size();
  std::string all;
  for (auto &f : r) all += f.second;
  return all;
}

// Record: "t<thread>#<seq>:<length> xxx...\n"
static std::string record(unsigned k, unsigned seq, size_t len)
{
  char h[48];
  snprintf(h, sizeof h, "t%u#%u:%zu ", k, seq, len);
  std::string s = h;
  s.append(len, (char)('a' + (k * 7 + seq) % 26));
  s += '\n';
  return s;
}
struct Content {
  std::vector<int64_t> first, next;   // sequence numbers per thread
  unsigned discards = 0;
  unsigned long dropped = 0;   // buffers, as reported
  size_t records = 0;
};
// Every line is a whole record or a report of a drop; the records of a thread
// have consecutive numbers.  gaps: a report may stand for missing records.
static Content scan(std::string const &all, unsigned nth, bool complete, const char *when)
{
  Content c;
  c.first.assign(nth, -1);
  c.next.assign(nth, 0);
  size_t a = 0;
  while (a < all.size()) {
    size_t e = all.find('\n', a);
    if (e == std::string::npos) {
      PBT_CHECK(!complete, "%s: the log ends in an incomplete record %s", when, pbt::quote(all.substr(a, 80)).c_str());
      break;
    }
    if (!all.compare(a, 8, "Discard ")) {
      unsigned long n = 0;
      PBT_CHECK(sscanf(all.c_str() + a, "Discard %lu large buffer at ", &n) == 1 && n >= 1 && n < 100, "%s: malformed report %s", when, pbt::quote(all.substr(a, e - a)).c_str());
      ++c.discards;
      c.dropped += n;
      a = e + 1;
      continue;
    }
    unsigned k = 99, seq = 0;
    size_t len = 0;
    int n = 0;
    std::string head = all.substr(a, 48);
    bool ok = sscanf(head.c_str(), "t%u#%u:%zu%n", &k, &seq, &len, &n) == 3 && k < nth && e - a == (size_t)n + 1 + len;
    if (ok && len) {
      const char *p = all.data() + a + n + 1;
      ok = p[0] == (char)('a' + (k * 7 + seq) % 26) && !memcmp(p, p + 1, len - 1);
    }
    PBT_CHECK(ok, "%s: a record is torn: %s", when, pbt::quote(all.substr(a, std::min<size_t>(e - a, 100)), 100).c_str());
    if (c.first[k] < 0) c.first[k] = c.next[k] = seq;
    PBT_CHECK(c.next[k] == seq, "%s: record %u of thread %u where %lld is expected", when, seq, k, (long long)c.next[k]);
    c.next[k] = seq + 1;
    ++c.records;
    a = e + 1;
  }
  return c;
}

// ---- threads append, flush, stop -------------------------------------------------------
static void script_case(Gen &g)
{
  CurrentThread::cacheTid();
  setenv("TZ", "UTC0", 1);
  tzset();
  std::string root = case_dir(), dir = root + "/d";
  bool past = g.boolean();   // the back thread's timed waits time out at once, or never
  g_now.store(past ? 1000000ll * 1000000000 : 4000000000ll * 1000000, RX);
  unsigned nth = (unsigned)g.range(1, 4), per = (unsigned)g.range(1, 40);
  bool big = g.chance(1, 12);
  size_t roll = g.pick<size_t>({1 << 30, 1 << 30, 1000, 100000}), num = g.chance(1, 5) ? (size_t)g.range(1, 3) : UINT_MAX, finterval = g.pick<size_t>({1, 3, 1000});
  unsigned noise = (unsigned)g.range(0, 2), spurious = (unsigned)g.pick<int>({0, 0, 20});
  unsigned end = (unsigned)g.range(0, 2);   // stop and destroy, stop and flush, destroy
  bool early = g.chance(1, 6);
  struct Op {
    int kind;   // 0 append, 1 flush and look, 2 clock, 3 nap, 4 wait until written
    size_t len;
  };
  std::vector<std::vector<Op>> ops(nth);
  size_t total = 0;
  for (auto &o : ops) {
    unsigned looks = 0;
    for (unsigned i = 0; i < per; ++i) {
      Op op{(int)g.weighted({20, big ? 0u : 1u, 2, 1, past && !big ? 1u : 0u}), 0};
      if (op.kind == 0) {
        op.len = big && g.chance(1, 3) ? (size_t)g.range(0, kBuffer - 64) : g.weighted({6, 2, 1}) < 2 ? g.small(300) : g.small(70000);
        if (big && g.chance(1, 10)) op.len = g.pick<size_t>({kBuffer - 40, kBuffer - 64, kBuffer / 2, kBuffer / 2 - 30});
        if (total + op.len > kSafe) op.len %= 1000;
        total += op.len + 40;
      } else if (op.kind == 2)
        op.len = (size_t)g.range(0, 2500000);
      else if (op.kind == 3)
        op.len = (size_t)g.range(0, 300);
      else if (op.kind == 1 || op.kind == 4) {
        if (looks++ > 4) op = Op{0, 3};
      }
      o.push_back(op);
    }
  }
  NOTE("%u threads, %u operations each%s, waits %s, roll size %zu, %zu files, flush interval %zu s, then %s", nth, per, big ? " (large records)" : "", past ? "time out at once" : "do not time out", roll, num == UINT_MAX ? 0 : num, finterval,
       end == 0 ? "stop and destroy" : end == 1 ? "stop, flush and destroy" : "destroy");
  g_virtual.store(true, RX);
  schedfuzz::setup(g.range(0, UINT64_MAX), noise, spurious);
  std::vector<unsigned> count(nth, 0);
  std::atomic<unsigned> looked{0};
  {
    AsyncLog al("a", roll, StringView(dir.data(), dir.size()), num, 86400, finterval);
    if (early) al.Flush();   // nothing to do
    al.StartRun();
    auto work = [&](unsigned k) {
      CurrentThread::cacheTid();
      for (auto &op : ops[k]) switch (op.kind) {
          case 0: {
            std::string s = record(k, count[k]++, op.len);
            al.Append(s.data(), s.size());
            break;
          }
          case 1: {
            al.Flush();
            Content c = scan(read_log(dir), nth, false, "after a flush");
            looked.fetch_add(1, RX);
            if (count[k] && num == UINT_MAX) PBT_CHECK(c.first[k] == 0 && c.next[k] >= count[k], "thread %u appended %u records and flushed, %lld are in the files", k, count[k], c.first[k] < 0 ? 0ll : (long long)c.next[k]);
            break;
          }
          case 2: g_now.fetch_add((int64_t)op.len, RX); break;
          case 3: nap((unsigned)op.len); break;
          case 4: {
            if (!count[k] || num != UINT_MAX) break;
            for (int i = 0;; ++i) {
              Content c = scan(read_log(dir), nth, false, "waiting");
              if (c.first[k] == 0 && c.next[k] >= count[k]) break;
              PBT_CHECK(i < 10000, "the last record of thread %u is not written although the flush interval passed", k);
              nap(2000);
            }
            break;
          }
        }
    };
    if (nth == 1)
      work(0);
    else {
      std::vector<std::thread> th;
      for (unsigned k = 0; k < nth; ++k) th.emplace_back(work, k);
      for (auto &t : th) t.join();
    }
    if (end < 2) al.Stop();
    if (end == 1) {
      al.Flush();
      Content c = scan(read_log(dir), nth, true, "after Stop()");
      for (unsigned k = 0; k < nth && num == UINT_MAX; ++k) PBT_CHECK(c.next[k] == count[k], "after Stop(): %lld of %u records of thread %u", (long long)c.next[k], count[k], k);
    }
  }
  schedfuzz::off();
  g_virtual.store(false, RX);
  size_t files = 0;
  std::string all = read_log(dir, &files);
  Content c = scan(all, nth, true, "at the end");
  PBT_CHECK(c.discards == 0, "a drop is reported although the backlog limit cannot be exceeded");
  PBT_CHECK(files >= 1, "no log file");
  for (unsigned k = 0; k < nth; ++k) {
    if (num == UINT_MAX) PBT_CHECK((!count[k] || c.first[k] == 0) && c.next[k] == count[k], "%lld of %u records of thread %u are in the files", c.first[k] < 0 ? 0ll : (long long)c.next[k], count[k], k);
    if (c.first[k] >= 0) PBT_CHECK(c.next[k] == count[k], "the last records of thread %u are missing: %lld of %u", k, (long long)c.next[k], count[k]);
  }
  pbt::label_if(big, "large records");
  pbt::label_if(files > 1, "several files");
  pbt::label_if(num != UINT_MAX, "limited number of files");
  pbt::label_if(looked.load(RX) > 0, "flushed and compared");
  if (c.records >= 3) pbt::nontrivial();
}

// ---- the backlog limit ---------------------------------------------------------------------
static void backlog_case(Gen &g)
{
  CurrentThread::cacheTid();
  setenv("TZ", "UTC0", 1);
  tzset();
  std::string root = case_dir(), dir = root + "/d";
  g_now.store(4000000000ll * 1000000, RX);
  g_virtual.store(true, RX);
  size_t target = (size_t)g.range(24, 90) << 20, total = 0;
  unsigned n = 0, more = (unsigned)g.range(0, 20);
  size_t style = (size_t)g.pick<int>({100000, 1000000, 3000000, 4000000});
  bool stop_now = g.chance(1, 3);
  std::vector<size_t> sizes;
  {
    AsyncLog al("a", 1 << 30, StringView(dir.data(), dir.size()), UINT_MAX, 86400, 1000);
    // before the back thread runs, so that the backlog is certain
    while (total < target) {
      std::string s = record(0, n++, (size_t)g.range(style / 2, style + style / 30));
      sizes.push_back(s.size());
      al.Append(s.data(), s.size());
      total += s.size();
    }
    al.StartRun();
    if (!stop_now) {
      al.Flush();
      for (unsigned i = 0; i < more; ++i) {
        std::string s = record(1, i, (size_t)g.small(1000));
        al.Append(s.data(), s.size());
      }
    } else
      more = 0;
  }
  g_virtual.store(false, RX);
  NOTE("%zu bytes in %u records before the start, %u after", total, n, more);
  Content c = scan(read_log(dir), 2, true, "at the end");
  unsigned got = c.first[0] < 0 ? 0 : (unsigned)c.next[0];
  PBT_CHECK(c.first[0] == 0 && got <= n, "the oldest records are dropped");
  PBT_CHECK((got < n) == (c.discards > 0), "%u of %u records are written and %u drops are reported", got, n, c.discards);
  if (total <= kSafe) PBT_CHECK(got == n, "%u of %u records are dropped although the limit is not exceeded", n - got, n);
  if (total > 16 * kBuffer) PBT_CHECK(got < n, "the backlog limit is not respected");
  else PBT_CHECK(got, "everything is dropped");
  if (got < n) {
    // sixteen buffers are kept, each of which lacks less than one record
    size_t kept = 0, longest = style + style / 30 + 64;
    for (unsigned i = 0; i < n; ++i)
      if (i < got) kept += sizes[i];
    PBT_CHECK(kept + 16 * longest >= 16 * kBuffer, "%zu bytes are kept of %zu", kept, total);
    PBT_CHECK(total - kept <= c.dropped * kBuffer && total - kept + c.dropped * longest + kBuffer >= c.dropped * kBuffer, "%zu bytes are dropped, %lu buffers are reported", total - kept, c.dropped);
  }
  if (more) PBT_CHECK(c.first[1] == 0 && c.next[1] == more, "%u records after the drop, %lld are written", more, (long long)c.next[1]);
  pbt::label(got < n ? "records dropped" : "nothing dropped");
  if (got < n) pbt::nontrivial();
}

// The records "t<thread>#<seq>" of Logger are all there, and the fatal one if any.
static void logger_records(std::string const &all, unsigned nth, unsigned n, bool fatal, const char *when)
{
  std::vector<unsigned> next(nth, 0);
  bool ended = false;
  for (size_t a = 0; a < all.size();) {
    size_t b = all.find('\n', a);
    PBT_CHECK(b != std::string::npos, "incomplete record %s", pbt::quote(all.substr(a)).c_str());
    std::string r = all.substr(a, b - a);
    a = b + 1;
    PBT_CHECK(!ended, "records after the fatal one");
    PBT_CHECK(r.find('\033') == std::string::npos, "colour codes in a log file");
    size_t m = r.find(" t");
    unsigned k, i;
    if (r.find("the end - l03_async.cc:") != std::string::npos)
      ended = true;
    else if (m != std::string::npos && sscanf(r.c_str() + m, " t%u#%u - l03", &k, &i) == 2 && k < nth)
      PBT_CHECK(i == next[k]++, "record %u of thread %u where %u is expected", i, k, next[k] - 1);
    else
      pbt::fail("record %s", pbt::quote(r, 100).c_str());
  }
  for (unsigned k = 0; k < nth; ++k) PBT_CHECK(next[k] == n, "%u of %u records of thread %u are in the files after %s", next[k], n, k, when);
  PBT_CHECK(ended == fatal, "the fatal record is not in the file");
}

// ---- the end of the process -------------------------------------------------------------------
static void process_case(Gen &g)
{
  CurrentThread::cacheTid();
  std::string root = case_dir();
  unsigned nth = (unsigned)g.range(1, 3), n = (unsigned)g.range(0, 60), how = (unsigned)g.range(0, 2);   // exit, fatal, system fatal
  unsigned other = how ? (unsigned)g.range(0, 1) : 0;
  NOTE("%u threads, %u records each, then %s", nth, n, how ? "a fatal record" : "exit()");
  fflush(stdout);
  pid_t p = fork();
  PBT_CHECK(p >= 0, "fork");
  if (!p) {
    signal(SIGABRT, SIG_DFL);
    (void)!chdir(root.c_str());
    alarm(60);
    CurrentThread::cacheTid();
    Logger::SetLogLevel(Logger::KANON_LL_INFO);
    SetupAsyncLog("p", 1 << 30, "d", UINT_MAX, 86400, 1000);
    {
      std::vector<std::thread> th;
      for (unsigned k = 0; k < nth; ++k)
        th.emplace_back([=] {
          for (unsigned i = 0; i < n; ++i) LOG_INFO << "t" << k << "#" << i;
        });
      for (auto &t : th) t.join();
    }
    if (other) std::thread([=] {
        if (how == 1) LOG_FATAL << "the end";
        else LOG_SYSFATAL << "the end";
      }).join();
    if (how == 1) LOG_FATAL << "the end";
    if (how == 2) LOG_SYSFATAL << "the end";
    exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  PBT_CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "the process does not end");
  if (how)
    PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the process does not abort (status %x)", st);
  else
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process does not exit (status %x)", st);
  logger_records(read_log(root + "/d"), nth, n, how > 0, how ? "a fatal record" : "exit()");
  if (n) pbt::nontrivial();
}

// Threads log while the log is started, and to its end.
static AsyncLog *g_log;
static void logger_case(Gen &g)
{
  CurrentThread::cacheTid();
  std::string root = case_dir(), dir = root + "/d";
  unsigned nth = (unsigned)g.range(1, 4), n = (unsigned)g.range(1, 60);
  bool color = g.boolean();
  Logger::SetLogLevel(Logger::KANON_LL_INFO);
  NOTE("%u threads, %u records each", nth, n);
  schedfuzz::setup(g.range(0, UINT64_MAX), (unsigned)g.range(0, 2), 0);
  {
    Logger::SetColor(color);
    AsyncLog al("a", 1 << 30, StringView(dir.data(), dir.size()), UINT_MAX, 86400, 1000);
    g_log = &al;
    Logger::SetOutputCallback([](char const *p, size_t k) { g_log->Append(p, k); });
    Logger::SetFlushCallback([] { g_log->Flush(); });
    std::vector<std::thread> th;
    for (unsigned k = 0; k < nth; ++k)
      th.emplace_back([=] {
        CurrentThread::cacheTid();
        for (unsigned i = 0; i < n; ++i) LOG_INFO << "t" << k << "#" << i;
      });
    al.StartRun();
    for (auto &t : th) t.join();
  }
  schedfuzz::off();
  Logger::SetOutputCallback(&DefaultOutput);
  logger_records(read_log(dir), nth, n, false, "the destruction");
  pbt::nontrivial();
}

int main(int argc, char **argv)
{
  Scratch scratch;
  pbt::Config cfg;
  cfg.property = "L03";
  cfg.rule = "script/races: at least three records are written; backlog: records are dropped; logger: every case; process: records before the end";
  cfg.assumptions = {"writing to the file system does not fail", "records are smaller than a buffer (4 MB)", "no record is appended after Stop() is called",
                     "the backlog is built up before the back thread starts, where it is certain"};
  pbt::SuiteOpt o;
  o.nondet = o.sound = true;
  o.hang_s = 60;
  o.quick = 4000;
  pbt::suite("script", "threads append, flush and stop (ASan)", o, script_case);
  o.quick = 900;
  pbt::suite("races", "threads append, flush and stop (TSan)", o, script_case);
  o.quick = 400;
  pbt::suite("logger", "threads log through Logger while the log starts (TSan)", o, logger_case);
  o.nondet = o.sound = false;
  o.quick = 120;
  pbt::suite("backlog", "more than the backlog limit", o, backlog_case);
  o.nondet = o.sound = true;
  o.quick = 1500;
  pbt::suite("process", "the process exits or ends with a fatal record", o, process_case);
  return pbt::run(argc, argv, cfg);
}

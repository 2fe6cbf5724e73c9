// L02: log files hold every record once, in order, within their limits.
#include "pbt.h"
#include "schedfuzz.h"
#include "scratch.h"
#include "vtime.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/wait.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "kanon/log/log_file.h"
#include "kanon/log/logger.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
using namespace kanon;
using pbt::Gen;
static constexpr auto RX = std::memory_order_relaxed;

static std::map<std::string, std::string> read_dir(std::string const &d)
{
  std::map<std::string, std::string> r;
  DIR *dir = opendir(d.c_str());
  PBT_CHECK(dir, "the directory %s does not exist", d.c_str());
  while (dirent *e = readdir(dir)) {
    if (e->d_type == DT_DIR) continue;
    std::string s;
    int fd = open((d + "/" + e->d_name).c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) continue;   // being removed
    char b[65536];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
    close(fd);
    r[e->d_name] = s;
  }
  closedir(dir);
  return r;
}
static std::string short_name(std::string const &n) { return n.substr(0, 60); }

static int g_zone;   // seconds east of UTC

// ---- the reference model ------------------------------------------------------------
struct Config {
  std::string base, prefix, dir;   // dir: where the files are
  size_t roll_size, num, interval, flush;
};
struct Model {
  Config c;
  std::map<std::string, std::string> files;   // everything that may be in the directory
  std::set<std::string> doomed;               // to be removed at the latest by the destructor
  std::vector<std::string> mine;
  std::string cur;
  size_t written = 0;
  int64_t last_roll = 0, last_flush = 0, period = 0;
  unsigned rolls = 0;
  bool just_rolled = false, just_flushed = false;

  static std::string name(Config const &c, int64_t now)
  {
    time_t t = now + g_zone;   // the names carry the local time
    struct tm tm;
    gmtime_r(&t, &tm);
    char b[64], h[256];
    strftime(b, sizeof b, ".%Y%m%d-%H%M%S.", &tm);
    gethostname(h, sizeof h);
    return c.base + b + std::to_string(getpid()) + "." + h + ".log";
  }
  void roll(int64_t now)
  {
    just_rolled = false;
    if (now <= last_roll) return;
    cur = name(c, now);
    last_roll = last_flush = now;
    period = now / (int64_t)c.interval;
    written = 0;
    files[cur];
    mine.push_back(cur);
    ++rolls;
    just_rolled = true;
  }
  void open(int64_t now)
  {
    mine.clear();
    last_roll = 0;
    roll(now);
  }
  void append(std::string const &s, int64_t now)
  {
    files[cur] += s;
    written += s.size();
    just_rolled = just_flushed = false;
    if (written > c.roll_size)
      roll(now);
    else if (now / (int64_t)c.interval > period)
      roll(now);
    else if (now - last_flush > (int64_t)c.flush) {
      last_flush = now;
      just_flushed = true;
    }
    if (mine.size() >= c.num && mine.size() > 1) {
      for (size_t i = 0; i + 1 < mine.size(); ++i) doomed.insert(mine[i]);
      mine.erase(mine.begin(), mine.end() - 1);
    }
  }
  void closed()
  {
    for (auto &d : doomed) files.erase(d);
    doomed.clear();
  }
};

// exact: everything appended is on disk; gone: the doomed files are removed
static void compare(Model const &m, bool exact, bool gone, const char *when)
{
  auto disk = read_dir(m.c.dir);
  for (auto &f : disk) {
    auto it = m.files.find(f.first);
    PBT_CHECK(it != m.files.end(), "%s: unexpected file %s", when, short_name(f.first).c_str());
    bool all = exact || it->first != m.cur;
    if (all ? it->second == f.second : !it->second.compare(0, f.second.size(), f.second)) continue;
    if (f.second.size() < it->second.size() && !it->second.compare(0, f.second.size(), f.second))
      pbt::fail("%s: %zu bytes of %s are missing at the end", when, it->second.size() - f.second.size(), short_name(f.first).c_str());
    pbt::fail("%s: %s holds %zu bytes %s, expected %zu bytes %s", when, short_name(f.first).c_str(), f.second.size(), pbt::quote(f.second).c_str(), it->second.size(), pbt::quote(it->second).c_str());
  }
  for (auto &f : m.files) {
    bool doomed = m.doomed.count(f.first);
    if (disk.count(f.first))
      PBT_CHECK(!(doomed && gone), "%s: %s exceeds the number of files and is not removed", when, short_name(f.first).c_str());
    else
      PBT_CHECK(doomed, "%s: %s does not exist", when, short_name(f.first).c_str());
  }
}
static void wait_removed(Model const &m)
{
  for (int i = 0; i < 20000; ++i) {
    bool any = false;
    for (auto &d : m.doomed) any |= !access((m.c.dir + "/" + d).c_str(), F_OK);
    if (!any) return;
    timespec t{0, 1000000};
    nanosleep(&t, nullptr);
  }
  pbt::fail("the files that exceed the number of files are not removed within 20 s");
}

static Config config(Gen &g, std::string const &root)
{
  Config c;
  c.base = g.pick<const char *>({"log", "a", "my.server", "x_y-z", "name with space"});
  c.roll_size = g.pick<size_t>({0, 1, 10, 100, 1000, 5000, 70000, 1 << 20});
  c.num = g.pick<size_t>({UINT_MAX, UINT_MAX, UINT_MAX, 1, 2, 3, 5});
  c.interval = g.pick<size_t>({86400, 86400, 1, 2, 60, 3600});
  c.flush = g.pick<size_t>({3, 0, 1, 10, 100});
  unsigned kind = (unsigned)g.range(0, 7);
  std::string sub;
  switch (kind) {
    case 0: break;                                   // the current directory
    case 1: sub = "logs"; break;
    case 2: sub = "logs/"; break;
    case 3: sub = "a/b/c"; break;
    case 4: sub = "a//b/"; break;
    case 5: sub = "./logs"; break;
    case 6: sub = "a/b.c/"; mkdir("a", 0755); break;
    case 7: sub = "logs/"; mkdir("logs", 0755); break;
  }
  bool absolute = kind && g.chance(1, 4);
  c.prefix = absolute ? root + "/" + sub : sub;
  c.dir = kind ? root + "/" + sub : root;
  return c;
}

template <bool TS> static void run(Gen &g, std::string const &root, unsigned steps)
{
  Model m;
  m.c = config(g, root);
  mode_t um = umask(g.pick<mode_t>({022, 077, 0}));
  bool removing = m.c.num != UINT_MAX, via_logger = g.chance(1, 4);
  if (removing) schedfuzz::setup(g.range(0, UINT64_MAX), (unsigned)g.range(0, 2), (unsigned)g.pick<int>({0, 0, 20}));
  g_now.store(1000000 * (int64_t)g.range(1, 4102444800ull) + (int64_t)g.range(0, 999999), RX);
  g_virtual.store(true, RX);
  auto now = [] { return g_now.load(RX) / 1000000; };
  auto go = [&](int64_t us) { g_now.store(g_now.load(RX) + us, RX); };
  std::unique_ptr<LogFile<TS>> lf;
  auto open_log = [&] {
    m.open(now());
    lf.reset(new LogFile<TS>(StringView(m.c.base.data(), m.c.base.size()), m.c.roll_size, StringView(m.c.prefix.data(), m.c.prefix.size()), m.c.num, m.c.interval, m.c.flush));
    if (via_logger) SetupLogFile(*lf);
  };
  NOTE("%s log file \"%s\" in \"%s\", roll size %zu, %zu files, interval %zu s, flush %zu s", TS ? "shared" : "plain", m.c.base.c_str(), m.c.prefix.c_str(), m.c.roll_size, m.c.num == UINT_MAX ? 0 : m.c.num, m.c.interval, m.c.flush);
  open_log();
  if (m.c.dir != root) {
    struct stat st;
    PBT_CHECK(!stat(m.c.dir.c_str(), &st) && S_ISDIR(st.st_mode), "the directory %s is not created", m.c.prefix.c_str());
    PBT_CHECK((st.st_mode & 0700) == 0700, "the directory %s is created with mode %o, which its owner cannot use", m.c.prefix.c_str(), st.st_mode & 07777);
  }
  size_t total = 0, records = 0;
  for (unsigned i = 0; i < steps; ++i) {
    switch (g.weighted({10, 4, 1, 1, 1, 1})) {
      case 0: {
        size_t n = g.weighted({8, 2, 1}) == 0 ? g.small(300) : g.size(5000, {m.c.roll_size > 5000 ? 0 : m.c.roll_size, 4096});
        if (g.chance(1, 60)) n = (size_t)g.range(60000, 140000);
        if (total > 600000) n = std::min<size_t>(n, 300);
        std::string s = g.blob(n);
        for (size_t k = 0; k < s.size() && k < 8; ++k) s[k] = "0123456789abcdef"[(records >> (4 * k)) & 15];
        ++records;
        total += n;
        NOTE("append %zu bytes", n);
        if (via_logger)
          Logger::GetOutputCallback()(s.data(), s.size());
        else
          lf->Append(s.data(), s.size());
        m.append(s, now());
        if (m.just_rolled || m.just_flushed || g.chance(1, 8)) {
          if (m.just_rolled) NOTE("(new file)");
          compare(m, m.just_flushed, false, m.just_rolled ? "after a new file" : m.just_flushed ? "after the flush interval" : "after an append");
        }
        break;
      }
      case 1: {
        int64_t us = 0;
        switch (g.weighted({4, 4, 2, 1, 2})) {
          case 0: us = (int64_t)g.range(0, 1500000); break;
          case 1: us = (int64_t)g.range(0, 5) * 1000000; break;
          case 2: us = (int64_t)g.range(0, 2 * m.c.interval) * 1000000; break;
          case 3: us = -(int64_t)g.range(0, 90000) * 1000000; break;
          default: us = ((now() / (int64_t)m.c.interval + 1) * (int64_t)m.c.interval - now() - (int64_t)g.range(0, 1)) * 1000000; break;   // around the end of the period
        }
        if (g_now.load(RX) + us < 2000000) us = 0;
        NOTE("clock %+.6f s", us / 1e6);
        go(us);
        break;
      }
      case 2:
        NOTE("flush");
        if (via_logger)
          Logger::GetFlushCallback()();
        else
          lf->Flush();
        compare(m, true, false, "after a flush");
        break;
      case 3:
        compare(m, false, false, "meanwhile");
        break;
      case 4:
        if (!removing || m.doomed.empty()) break;
        NOTE("wait for the removal of %zu files", m.doomed.size());
        wait_removed(m);
        m.closed();
        break;
      case 5: {
        if (!g.chance(1, 3)) break;
        NOTE("close and open again");
        lf.reset();
        m.closed();
        compare(m, true, true, "after the destruction");
        open_log();
        break;
      }
    }
  }
  if (g.boolean()) lf->Flush();
  lf.reset();
  m.closed();
  schedfuzz::off();
  compare(m, true, true, "after the destruction");
  g_virtual.store(false, RX);
  umask(um);
  pbt::label_if(m.rolls > 1, "more than one file");
  pbt::label_if(removing && m.rolls >= m.c.num && m.rolls > 1, "files removed");
  pbt::label_if(total > 65536, "more than the file buffer");
  if (m.rolls > 1 && records > 2) pbt::nontrivial();
}
static void model_case(Gen &g)
{
  CurrentThread::cacheTid();
  unsigned z = (unsigned)g.range(0, 3);
  g_zone = z == 1 ? 19800 : z == 2 ? -8 * 3600 : z == 3 ? 14 * 3600 : 0;
  setenv("TZ", z == 1 ? "IST-5:30" : z == 2 ? "PST8" : z == 3 ? "LINT-14" : "UTC0", 1);
  tzset();
  std::string root = case_dir();
  PBT_CHECK(!chdir(root.c_str()), "chdir");
  if (g.boolean())
    run<true>(g, root, (unsigned)g.range(1, 40));
  else
    run<false>(g, root, (unsigned)g.range(1, 40));
}

// ---- several threads ------------------------------------------------------------------
static void thread_case(Gen &g)
{
  CurrentThread::cacheTid();
  setenv("TZ", "UTC0", 1);
  tzset();
  std::string root = case_dir();
  PBT_CHECK(!chdir(root.c_str()), "chdir");
  size_t roll = g.pick<size_t>({100, 1000, 5000, 100000}), num = g.pick<size_t>({UINT_MAX, UINT_MAX, 1, 2, 3}), flush = g.pick<size_t>({0, 1, 3});
  unsigned nth = (unsigned)g.range(2, 4), per = (unsigned)g.range(1, 60), nlogs = (unsigned)g.range(1, 2);
  schedfuzz::setup(g.range(0, UINT64_MAX), (unsigned)g.range(0, 2), (unsigned)g.pick<int>({0, 0, 20}));
  g_now.store(1000000 * (int64_t)g.range(1, 4102444800ull), RX);
  g_virtual.store(true, RX);
  std::vector<std::vector<unsigned>> ops(nth);   // length of a record, or 1000000+ clock, 2000000 flush
  for (auto &o : ops)
    for (unsigned i = 0; i < per; ++i) o.push_back(g.chance(1, 6) ? 1000000 + (unsigned)g.range(0, 3) : g.chance(1, 12) ? 2000000 : (unsigned)g.small(400));
  NOTE("%u threads, %u operations each on %u logs, roll size %zu, %zu files, flush %zu", nth, per, nlogs, roll, num == UINT_MAX ? 0 : num, flush);
  std::vector<std::vector<unsigned>> count(nlogs, std::vector<unsigned>(nth, 0));
  {
    std::unique_ptr<LogFile<true>> logs[2];
    for (unsigned l = 0; l < nlogs; ++l) {
      std::string d = "log" + std::to_string(l);
      logs[l].reset(new LogFile<true>("t", roll, StringView(d.data(), d.size()), num, 86400, flush));
    }
    std::vector<std::thread> th;
    for (unsigned k = 0; k < nth; ++k)
      th.emplace_back([&, k] {
        CurrentThread::cacheTid();
        std::vector<unsigned> seq(nlogs, 0);
        for (unsigned op : ops[k]) {
          unsigned l = op % nlogs;
          if (op >= 2000000)
            logs[l]->Flush();
          else if (op >= 1000000)
            g_now.fetch_add((int64_t)(op - 1000000) * 600000, RX);
          else {
            std::string s = "t" + std::to_string(k) + "#" + std::to_string(seq[l]++) + " " + std::string(op, (char)('a' + k)) + "\n";
            logs[l]->Append(s.data(), s.size());
          }
        }
        for (unsigned l = 0; l < nlogs; ++l) count[l][k] = seq[l];
      });
    for (auto &t : th) t.join();
  }
  schedfuzz::off();
  g_virtual.store(false, RX);
  size_t files = 0, lines = 0;
  for (unsigned l = 0; l < nlogs; ++l) {
    auto disk = read_dir(root + "/log" + std::to_string(l));
    files += disk.size();
    PBT_CHECK(!disk.empty(), "no log file is left");
    if (num != UINT_MAX) PBT_CHECK(disk.size() < std::max<size_t>(num, 2), "%zu files are left, at most %zu are kept", disk.size(), std::max<size_t>(num, 2) - 1);
    std::vector<int64_t> next(nth, -1);
    for (auto &f : disk) {   // in the order of their time stamps
      PBT_CHECK(f.second.empty() || f.second.back() == '\n', "a record is split across files");
      size_t a = 0;
      while (a < f.second.size()) {
        size_t b = f.second.find('\n', a);
        std::string line = f.second.substr(a, b - a);
        a = b + 1;
        ++lines;
        unsigned k = 99, seq = 0;
        int n = 0;
        PBT_CHECK(sscanf(line.c_str(), "t%u#%u %n", &k, &seq, &n) == 2 && k < nth && line.find_first_not_of((char)('a' + k), (size_t)n) == std::string::npos, "a record is torn: %s", pbt::quote(line).c_str());
        if (next[k] < 0 && num == UINT_MAX) next[k] = 0;
        if (next[k] < 0) next[k] = seq;
        PBT_CHECK(next[k] == seq, "record %u of thread %u where %lld is expected", seq, k, (long long)next[k]);
        next[k] = seq + 1;
      }
    }
    for (unsigned k = 0; k < nth; ++k)
      if (num == UINT_MAX || next[k] >= 0) PBT_CHECK(std::max<int64_t>(next[k], 0) == count[l][k], "the last record of thread %u is missing: %lld of %u", k, (long long)next[k], count[l][k]);
  }
  pbt::label_if(num != UINT_MAX, "with a limit of files");
  if (lines > 4) pbt::nontrivial();
}

// ---- a fatal record ---------------------------------------------------------------------
static void fatal_case(Gen &g)
{
  CurrentThread::cacheTid();
  std::string root = case_dir();
  unsigned n = (unsigned)g.range(0, 50);
  bool sys = g.boolean(), ts = g.boolean();
  fflush(stdout);
  pid_t p = fork();
  PBT_CHECK(p >= 0, "fork");
  if (!p) {
    signal(SIGABRT, SIG_DFL);
    (void)!chdir(root.c_str());
    CurrentThread::cacheTid();
    Logger::SetLogLevel(Logger::KANON_LL_INFO);
    static std::unique_ptr<LogFile<true>> a;
    static std::unique_ptr<LogFile<false>> b;
    if (ts) {
      a.reset(new LogFile<true>("f", 1 << 20, "d"));
      SetupLogFile(*a);
    } else {
      b.reset(new LogFile<false>("f", 1 << 20, "d/"));
      SetupLogFile(*b);
    }
    for (unsigned i = 0; i < n; ++i) LOG_INFO << "before " << i;
    if (sys) LOG_SYSFATAL << "the end";
    else LOG_FATAL << "the end";
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the process does not abort (status %x)", st);
  auto disk = read_dir(root + "/d");
  std::string all;
  for (auto &f : disk) all += f.second;
  size_t a = 0;
  for (unsigned i = 0; i <= n; ++i) {
    size_t b = all.find('\n', a);
    PBT_CHECK(b != std::string::npos, "record %u of %u is not in the file after a fatal record", i, n + 1);
    std::string want = i < n ? " before " + std::to_string(i) + " - " : " the end - ";
    PBT_CHECK(all.substr(a, b - a).find(want) != std::string::npos, "record %u is %s", i, pbt::quote(all.substr(a, b - a), 100).c_str());
    PBT_CHECK(all.substr(a, b - a).find('\033') == std::string::npos, "colour codes in a log file");
    a = b + 1;
  }
  PBT_CHECK(a == all.size(), "more records than logged");
  if (n) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  Scratch scratch;
  pbt::Config cfg;
  cfg.property = "L02";
  cfg.rule = "model: more than one file and more than two records; threads/races: more than four records; fatal: records before the fatal one";
  cfg.assumptions = {"writing to the file system does not fail", "the removal of old files is asynchronous: it is awaited for up to 20 s or until the destruction",
                     "the periods of a roll interval are counted from the epoch (UTC)"};
  pbt::SuiteOpt o;
  o.quick = 90000;
  pbt::suite("model", "one thread on a virtual clock against a model of the files", o, model_case);
  o.nondet = o.sound = true;
  o.quick = 15000;
  pbt::suite("threads", "several threads (ASan)", o, thread_case);
  o.quick = 12000;
  pbt::suite("races", "several threads (TSan)", o, thread_case);
  o.nondet = o.sound = false;
  o.quick = 1000;
  pbt::suite("fatal", "a fatal record reaches the file", o, fatal_case);
  return pbt::run(argc, argv, cfg);
}

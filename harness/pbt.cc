#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <fstream>
#include <sstream>

#ifndef __has_feature  // gcc
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options()
{
  return "detect_leaks=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:"
         "detect_stack_use_after_return=0:strict_string_checks=0:malloc_context_size=12:"
         "quarantine_size_mb=16";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "exitcode=98:halt_on_error=1:handle_abort=1:report_signal_unsafe=0:second_deadlock_stack=1:io_sync=1"; }
#endif

namespace pbt {

uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

static constexpr int kLabels = 160, kMaxJobs = 64, kSampleSuites = 16, kSampleLen = 2400;
static constexpr uint32_t kHashes = 1 << 20;
static constexpr uint32_t kNote = 48 * 1024;

struct Label {
  char name[64];
  uint64_t count;
};
struct Slot {
  std::atomic<int> state;  // 0 idle 1 running 2 finished-all 3 failed
  std::atomic<uint32_t> suite;
  std::atomic<uint64_t> index;
  std::atomic<uint64_t> start_ms;
  std::atomic<uint32_t> nchoices;
  uint64_t choices[kMaxChoices];
  std::atomic<uint32_t> notelen;
  char note[kNote];
  char msg[4096];
  std::atomic<uint64_t> evals, nontriv;
  Label labels[kLabels];
  Label knowns[16];
  uint32_t nhash;
  uint64_t hashes[kHashes];
  char sample[kSampleSuites][kSampleLen];
};
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
};

struct Suite {
  std::string name, what;
  SuiteOpt o;
  CaseFn fn;
};
static std::vector<Suite> &suites()
{
  static std::vector<Suite> s;
  return s;
}
void suite(const char *name, const char *what, SuiteOpt o, CaseFn fn)
{
  suites().push_back(Suite{name, what, o, std::move(fn)});
}

// ---- per-case state in the executing process
static Slot *S;
static bool g_noting, g_nontriv, g_replay;
static const std::vector<uint64_t> *g_fixed;
static uint32_t g_pos;
static uint64_t g_rng;
static unsigned g_worker;
static std::set<std::string> *g_caselabels;
static std::set<std::string> g_known_listed;
static std::mutex g_mu;

uint64_t Gen::range(uint64_t lo, uint64_t hi)
{
  if (hi < lo) hi = lo;
  uint64_t span = hi - lo, v;
  if (g_fixed) {
    v = g_pos < g_fixed->size() ? (*g_fixed)[g_pos] : 0;
    if (v > span) v = span;
  } else {
    g_rng += 0x9e3779b97f4a7c15ULL;
    uint64_t r = mix(g_rng);
    if (span == UINT64_MAX)
      v = r;
    else
      v = (uint64_t)(((unsigned __int128)r * ((unsigned __int128)span + 1)) >> 64);
  }
  if (g_pos < kMaxChoices) {
    S->choices[g_pos] = v;
    S->nchoices.store(g_pos + 1, std::memory_order_relaxed);
  }
  ++g_pos;
  return lo + v;
}
unsigned Gen::weighted(std::initializer_list<unsigned> w)
{
  uint64_t t = 0;
  for (auto x : w) t += x;
  uint64_t r = range(0, t - 1);
  unsigned i = 0;
  for (auto x : w) {
    if (r < x) return i;
    r -= x;
    ++i;
  }
  return 0;
}
uint64_t Gen::small(uint64_t max)
{
  if (max == 0) return 0;
  int bits = 64 - __builtin_clzll(max);
  uint64_t b = range(0, bits);
  uint64_t hi = b >= 64 ? UINT64_MAX : ((uint64_t)1 << b) - 1;
  if (hi > max) hi = max;
  return range(0, hi);
}
uint64_t Gen::size(uint64_t max, std::initializer_list<uint64_t> bs)
{
  unsigned k = weighted({6, bs.size() ? 3u : 0u, 1});
  if (k == 1) {
    uint64_t b = *(bs.begin() + range(0, bs.size() - 1));
    uint64_t d = range(0, 4);
    uint64_t v = b + d;
    v = v >= 2 ? v - 2 : 0;
    return v > max ? max : v;
  }
  if (k == 2) return range(0, max);
  return small(max);
}
uint64_t Gen::u64()
{
  switch (weighted({4, 3, 2, 1})) {
    case 0: return small(UINT64_MAX);
    case 1: {
      uint64_t b = (uint64_t)1 << range(0, 63);
      return b + range(0, 2) - 1;
    }
    case 2: return UINT64_MAX - small(UINT64_MAX);
    default: return range(0, UINT64_MAX);
  }
}
double Gen::real()
{
  switch (weighted({3, 3, 3, 1})) {
    case 0: return (double)irange(-1000000, 1000000);
    case 1: return (double)irange(-100000000, 100000000) / 1000.0;
    case 2: {
      double m = (double)range(0, (1ull << 53) - 1) / (double)(1ull << 52);
      double v = ldexp(m, (int)irange(-300, 300));
      return boolean() ? -v : v;
    }
    default: {
      uint64_t b = range(0, UINT64_MAX);
      double d;
      memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 0.0;
    }
  }
}
std::string Gen::blob(size_t n)
{
  uint64_t s = range(0, UINT32_MAX);
  std::string r(n, 0);
  uint64_t x = s * 0x9e3779b97f4a7c15ULL + 1;
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    r[i] = (char)(x >> 24);
  }
  return r;
}
std::string Gen::str(size_t n, const char *a, size_t alen)
{
  std::string r(n, 0);
  for (size_t i = 0; i < n; ++i) r[i] = a[range(0, alen - 1)];
  return r;
}

bool noting() { return g_noting; }
void note(const char *fmt, ...)
{
  if (!g_noting) return;
  std::lock_guard<std::mutex> l(g_mu);
  uint32_t n = S->notelen.load();
  if (n + 400 > kNote) return;
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(S->note + n, kNote - n - 2, fmt, ap);
  va_end(ap);
  if (k < 0) return;
  uint32_t e = n + (uint32_t)k;
  if (e > kNote - 3) e = kNote - 3;
  S->note[e++] = '\n';
  S->note[e] = 0;
  S->notelen.store(e);
}
void fail(const char *fmt, ...)
{
  static std::atomic<int> once{0};
  if (once.exchange(1)) {
    for (;;) pause();
  }
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  S->state.store(3);
  _exit(77);
}
static void bump(Label *t, int n, const char *name)
{
  for (int i = 0; i < n; ++i) {
    if (!t[i].name[0]) {
      snprintf(t[i].name, sizeof t[i].name, "%s", name);
      t[i].count = 1;
      return;
    }
    if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) {
      ++t[i].count;
      return;
    }
  }
}
void label(const char *name)
{
  std::lock_guard<std::mutex> l(g_mu);
  if (g_caselabels->insert(name).second) bump(S->labels, kLabels, name);
}
void label_if(bool c, const char *name)
{
  if (c) label(name);
}
void nontrivial() { g_nontriv = true; }
bool is_known(const char *id) { return g_known_listed.count(id) != 0; }
void known(const char *id)
{
  std::lock_guard<std::mutex> l(g_mu);
  bump(S->knowns, 16, id);
}
uint64_t case_index() { return S->index.load(); }
unsigned worker_index() { return g_worker; }

std::string quote(const void *p, size_t n, size_t max)
{
  const unsigned char *c = (const unsigned char *)p;
  std::string r = "\"";
  for (size_t i = 0; i < n && i < max; ++i) {
    char b[8];
    if (c[i] >= 32 && c[i] < 127 && c[i] != '"' && c[i] != '\\')
      r += (char)c[i];
    else {
      snprintf(b, sizeof b, "\\x%02x", c[i]);
      r += b;
    }
  }
  r += n > max ? "\"..(" + std::to_string(n) + ")" : "\"";
  return r;
}

static uint64_t now_ms()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

static void exec_case(uint32_t si, uint64_t seed)
{
  std::set<std::string> labels;
  g_caselabels = &labels;
  g_pos = 0;
  g_rng = seed;
  g_nontriv = false;
  S->nchoices.store(0);
  S->notelen.store(0);
  S->note[0] = 0;
  S->msg[0] = 0;
  S->start_ms.store(now_ms());
  S->state.store(1);
  Gen g;
  try {
    suites()[si].fn(g);
  } catch (std::exception &e) {
    fail("unexpected exception: %s", e.what());
  } catch (...) {
    fail("unexpected exception");
  }
  S->state.store(0);
  S->evals.fetch_add(1);
  if (g_nontriv) {
    S->nontriv.fetch_add(1);
    uint64_t h = mix(si + 17);
    uint32_t n = std::min<uint32_t>(g_pos, kMaxChoices);
    for (uint32_t i = 0; i < n; ++i) h = mix(h ^ S->choices[i]);
    if (S->nhash < kHashes) S->hashes[S->nhash++] = h;
  }
  g_caselabels = nullptr;
}

static std::string g_workdir;
static void redirect(const char *errpath)
{
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0);
  dup2(n, 1);
  if (n > 2) close(n);
  int e = open(errpath, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (e >= 0) {
    dup2(e, 2);
    if (e > 2) close(e);
  }
}
static std::string tail_file(const std::string &p, size_t max = 6000)
{
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // keep from the first sanitizer/assert banner when there is one
  size_t k = std::string::npos;
  for (const char *b : {"ERROR: AddressSanitizer", "runtime error", "Assertion `", "WARNING: ThreadSanitizer", "terminate called"}) {
    size_t q = s.rfind(b);
    if (q != std::string::npos && (k == std::string::npos || q < k)) k = q;
  }
  if (k != std::string::npos) {
    k = s.rfind('\n', k);
    s = s.substr(k == std::string::npos ? 0 : k + 1);
    if (s.size() > max) s.resize(max);
  } else if (s.size() > max)
    s = s.substr(s.size() - max);
  return s;
}

struct Outcome {
  bool failed = false, hang = false, infra = false;
  std::string msg, note, err;
  std::vector<uint64_t> choices;
};

static Slot *g_rslot;
static Config const *C;

// Is every thread of p asleep, none of them having run at all for 3 seconds?
// (ThreadSanitizer's own background thread is allowed for.)
static bool asleep(pid_t p)
{
#if __has_feature(thread_sanitizer)
  const int spare = 1;
#else
  const int spare = 0;
#endif
  std::map<std::string, std::string> before;
  for (int k = 0; k < 7; ++k) {
    if (k) usleep(500 * 1000);
    std::map<std::string, std::string> now;
    std::string dir = "/proc/" + std::to_string(p) + "/task";
    DIR *d = opendir(dir.c_str());
    if (!d) return false;
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.') continue;
      std::ifstream f(dir + "/" + e->d_name + "/status");
      std::string line, sum;
      while (std::getline(f, line))
        if (line.compare(0, 6, "State:") == 0 || line.find("ctxt_switches") != std::string::npos) sum += line + ";";
      if (sum.find("State:\tS") == std::string::npos) sum += std::to_string(k);
      now[e->d_name] = sum;
    }
    closedir(d);
    if (now.empty()) return false;
    if (k) {
      if (now.size() != before.size()) return false;
      int changed = 0;
      for (auto &x : now) {
        auto it = before.find(x.first);
        if (it == before.end()) return false;
        if (it->second != x.second) ++changed;
      }
      if (changed > spare) return false;
    }
    if (k == 0) before = now;
  }
  return true;
}

// Runs one case with fixed choices in a forked child.
static Outcome run_fixed(uint32_t si, std::vector<uint64_t> const &ch, uint64_t index, unsigned hang_s)
{
  Outcome o;
  std::string err = g_workdir + "/replay.err";
  g_rslot->state.store(0);
  g_rslot->index.store(index);
  g_rslot->suite.store(si);
  g_rslot->start_ms.store(now_ms());
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) {
    o.infra = true;
    return o;
  }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    redirect(err.c_str());
    S = g_rslot;
    g_worker = 60;
    g_fixed = &ch;
    g_noting = true;
    g_replay = true;
    exec_case(si, 0);
    _exit(0);
  }
  int st = 0;
  uint64_t t0 = now_ms();
  unsigned us = 200;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now_ms() - t0 > (uint64_t)hang_s * 1000) {
      o.hang = true;
      kill(-p, SIGKILL);
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      break;
    }
    usleep(us);
    if (us < 5000) us += us / 4;
  }
  kill(-p, SIGKILL);
  o.note = std::string(g_rslot->note, g_rslot->notelen.load());
  uint32_t n = std::min(g_rslot->nchoices.load(), kMaxChoices);
  o.choices.assign(g_rslot->choices, g_rslot->choices + n);
  if (o.hang) {
    o.failed = true;
    o.msg = "hang: the case did not finish";
    o.err = tail_file(err);
    return o;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    o.infra = true;
    return o;
  }
  o.failed = true;
  if (g_rslot->state.load() == 3)
    o.msg = g_rslot->msg;
  else {
    o.err = tail_file(err);
    char b[100];
    if (WIFSIGNALED(st))
      snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(st));
    else
      snprintf(b, sizeof b, "crash: exit code %d", WEXITSTATUS(st));
    o.msg = b;
    size_t e = o.err.find('\n');
    o.msg += ": " + o.err.substr(0, std::min<size_t>(e, 300));
  }
  return o;
}

static std::string json_str(std::string const &s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}

static Outcome shrink(uint32_t si, uint64_t index, Outcome best, bool nondet, unsigned hang_s)
{
  uint64_t t0 = now_ms();
  const uint64_t budget_ms = best.hang ? 60000 : 30000;
  unsigned execs = 0;
  auto more = [&]() { return now_ms() - t0 < budget_ms && execs < 4000; };
  if (best.hang) hang_s = std::min(hang_s, 8u);
  auto attempt = [&](std::vector<uint64_t> const &c) {
    int tries = nondet ? 4 : 1;
    for (int i = 0; i < tries && more(); ++i) {
      ++execs;
      Outcome o = run_fixed(si, c, index, hang_s);
      // accept only strictly simpler (shortlex) consumed choices
      bool simpler = o.choices.size() != best.choices.size() ? o.choices.size() < best.choices.size() : o.choices < best.choices;
      if (o.failed && !simpler) return false;
      if (o.failed && o.hang == best.hang) {
        best = o;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && more()) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1 && more(); k /= 2) {
      for (size_t i = best.choices.size(); i >= k && more();) {
        auto c = best.choices;
        if (i > c.size()) {
          i = c.size();
          if (i < k) break;
        }
        c.erase(c.begin() + (i - k), c.begin() + i);
        if (c.size() < best.choices.size() && attempt(c) && best.choices.size() < (size_t)-1) progress = true;
        if (i < k + 1) break;
        i -= std::max<size_t>(1, k);
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.choices.size() && more(); ++i) {
      if (best.choices[i] == 0) continue;
      auto c = best.choices;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.choices.size() ? best.choices[i] : 0;
      for (int b = 0; b < 12 && hi - lo > 1 && more(); ++b) {
        uint64_t m = lo + (hi - lo) / 2;
        c = best.choices;
        if (i >= c.size()) break;
        c[i] = m;
        if (attempt(c)) {
          hi = i < best.choices.size() ? best.choices[i] : 0;
          progress = true;
        } else
          lo = m;
      }
    }
    if (nondet) break;
  }
  return best;
}

static std::string write_replay(const char *dir, uint32_t si, uint64_t seed, uint64_t index, Outcome const &o)
{
  mkdir(dir, 0755);
  uint64_t h = mix(si);
  for (auto c : o.choices) h = mix(h ^ c);
  char nm[300];
  snprintf(nm, sizeof nm, "%s/%s-%s-%08x.replay", dir, C->property, suites()[si].name.c_str(), (unsigned)h);
  FILE *f = fopen(nm, "w");
  if (!f) return nm;
  fprintf(f, "property=%s\nsuite=%s\nseed=%llu\nindex=%llu\nchoices=", C->property, suites()[si].name.c_str(),
          (unsigned long long)seed, (unsigned long long)index);
  for (auto c : o.choices) fprintf(f, "%llu ", (unsigned long long)c);
  fprintf(f, "\n--- message\n%s\n--- operations\n%s\n--- diagnostics\n%s\n", o.msg.c_str(), o.note.c_str(), o.err.c_str());
  fclose(f);
  return nm;
}

int run(int argc, char **argv, Config const &cfg)
{
  C = &cfg;
  uint64_t seed = 1;
  std::string tier = "quick", replay, only, evidence, replay_dir = "/verif/replays", knownfile;
  double scale = 1, minutes = 0;
  int jobs = (int)cfg.jobs;
  uint64_t one_index = UINT64_MAX;
  if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  if (getenv("VERIF_TIER") && *getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--replay") replay = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--suite") only = nx();
    else if (a == "--minutes") minutes = atof(nx().c_str());
    else if (a == "--index") one_index = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--evidence") evidence = nx();
    else if (a == "--replays") replay_dir = nx();
    else if (a == "--known") knownfile = nx();
  }
  if (jobs > kMaxJobs) jobs = kMaxJobs;
  // --suite takes a list: a,b
  auto selected = [&](std::string const &n) { return only.empty() || ("," + only + ",").find("," + n + ",") != std::string::npos; };
  bool thorough = tier == "thorough";
  uint64_t t_start = now_ms();
  // known findings: "known: property=<id> key=<key> <text>"
  std::map<std::string, std::string> known_text;
  if (!knownfile.empty()) {
    std::ifstream f(knownfile);
    std::string l;
    std::string pre = std::string("known: property=") + cfg.property + " key=";
    while (std::getline(f, l)) {
      if (l.compare(0, pre.size(), pre) == 0) {
        std::string rest = l.substr(pre.size());
        size_t sp = rest.find(' ');
        std::string key = rest.substr(0, sp);
        known_text[key] = sp == std::string::npos ? "" : rest.substr(sp + 1);
        g_known_listed.insert(key);
      }
    }
  }
  {
    char t[] = "/tmp/pbtXXXXXX";
    if (!mkdtemp(t)) {
      perror("mkdtemp");
      return 2;
    }
    g_workdir = t;
  }
  auto cleanup = [&]() {
    std::string c = "rm -rf '" + g_workdir + "'";
    if (system(c.c_str())) {
    }
  };
  auto shm = [](size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return p;
  };
  g_rslot = (Slot *)shm(sizeof(Slot));
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l, sname;
    std::vector<uint64_t> ch;
    uint64_t idx = 0;
    while (std::getline(f, l)) {
      if (l.compare(0, 6, "suite=") == 0) sname = l.substr(6);
      if (l.compare(0, 6, "index=") == 0) idx = strtoull(l.c_str() + 6, nullptr, 10);
      if (l.compare(0, 8, "choices=") == 0) {
        std::stringstream ss(l.substr(8));
        uint64_t v;
        while (ss >> v) ch.push_back(v);
        break;
      }
    }
    for (uint32_t si = 0; si < suites().size(); ++si)
      if (suites()[si].name == sname) {
        int n = suites()[si].o.nondet ? 40 : 1;
        for (int k = 0; k < n; ++k) {
          Outcome o = run_fixed(si, ch, idx, suites()[si].o.hang_s);
          if (o.failed) {
            printf("%s\n--- operations\n%s\n%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), o.note.c_str(),
                   o.err.c_str(), cfg.property, replay.c_str());
            cleanup();
            return 1;
          }
          if (k == 0) printf("--- operations\n%s\n", o.note.c_str());
        }
        printf("replay passed\n");
        cleanup();
        return 0;
      }
    printf("unknown suite in replay file\n");
    cleanup();
    return 2;
  }

  // ---- schedule of cases
  struct Item {
    double key;
    uint32_t s;
    uint64_t i;
  };
  std::vector<Item> items;
  for (uint32_t s = 0; s < suites().size(); ++s) {
    auto &o = suites()[s].o;
    if (!selected(suites()[s].name)) continue;
    uint64_t n = thorough ? (o.thorough ? o.thorough : 20 * o.quick) : o.quick;
    n = (uint64_t)(n * scale);
    if (n == 0) n = 1;
    if (one_index != UINT64_MAX) {
      items.push_back({0, s, one_index});
      continue;
    }
    for (uint64_t i = 0; i < n; ++i) items.push_back({(i + 0.5) / (double)n, s, i});
  }
  std::sort(items.begin(), items.end(), [](Item const &a, Item const &b) {
    return a.key != b.key ? a.key < b.key : a.s != b.s ? a.s < b.s : a.i < b.i;
  });
  const uint64_t deadline_ms = minutes > 0 ? (uint64_t)(minutes * 60 * 1000) : thorough ? 13 * 60 * 1000 : 240 * 1000;
  uint64_t prop_h = mix(seed);
  for (const char *p = cfg.property; *p; ++p) prop_h = mix(prop_h ^ (unsigned char)*p);

  Shared *sh = (Shared *)shm(sizeof(Shared));
  std::vector<Slot *> slots;
  for (int w = 0; w < jobs; ++w) slots.push_back((Slot *)shm(sizeof(Slot)));
  std::vector<pid_t> pids(jobs, 0);
  auto errfile = [&](int w) { return g_workdir + "/w" + std::to_string(w) + ".err"; };
  uint64_t spawn_count = 0;

  auto spawn = [&](int w) {
    fflush(nullptr);
    ++spawn_count;
    slots[w]->state.store(0);
    pid_t p = fork();
    if (p < 0) return false;
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      setpgid(0, 0);
      redirect(errfile(w).c_str());
      S = slots[w];
      g_worker = (unsigned)w;
      std::vector<int> sampled(suites().size(), 0);
      for (;;) {
        if (sh->stop.load()) break;
        uint64_t k = sh->next.fetch_add(1);
        if (k >= items.size()) break;
        auto &it = items[k];
        S->suite.store(it.s);
        S->index.store(it.i);
        uint64_t cs = mix(mix(prop_h ^ (it.s * 1000003ULL)) ^ it.i);
        for (auto ch : suites()[it.s].name) cs = mix(cs ^ (unsigned char)ch);
        g_noting = !sampled[it.s] && it.s < kSampleSuites && !S->sample[it.s][0];
        if ((k & 1023) == 0) {
          if (ftruncate(2, 0)) {
          }
          lseek(2, 0, SEEK_SET);
        }
        exec_case(it.s, cs);
        if (g_noting && g_nontriv) {
          sampled[it.s] = 1;
          uint32_t n = std::min<uint32_t>(S->notelen.load(), kSampleLen - 1);
          memcpy(S->sample[it.s], S->note, n);
          S->sample[it.s][n] = 0;
        }
      }
      S->state.store(2);
      _exit(0);
    }
    pids[w] = p;
    return true;
  };
  auto killall = [&]() {
    for (int w = 0; w < jobs; ++w)
      if (pids[w]) {
        kill(-pids[w], SIGKILL);
        kill(pids[w], SIGKILL);
      }
    for (int w = 0; w < jobs; ++w)
      if (pids[w]) {
        waitpid(pids[w], nullptr, 0);
        pids[w] = 0;
      }
  };
  for (int w = 0; w < jobs; ++w) spawn(w);

  unsigned unrepro = 0, infra = 0;
  std::vector<std::string> unrepro_msgs;
  int violations = 0;
  std::string vio_path, vio_msg;
  bool timed_out = false;

  while (true) {
    bool alive = false;
    bool acted = false;
    for (int w = 0; w < jobs && !violations; ++w) {
      if (!pids[w]) continue;
      alive = true;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      bool hang = false, dead = false;
      Slot *sl = slots[w];
      if (r == 0) {
        if (sl->state.load() == 1) {
          unsigned lim = suites()[sl->suite.load()].o.hang_s;
          uint64_t st_ms = sl->start_ms.load();
          uint64_t n = now_ms();
          if (n > st_ms && n - st_ms > lim * 1000ull) hang = true;
        }
        if (!hang) continue;
        dead = asleep(pids[w]);
        kill(-pids[w], SIGKILL);
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
      } else
        kill(-pids[w], SIGKILL);
      acted = true;
      pids[w] = 0;
      int state = sl->state.load();
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && state == 2) continue;  // all done
      if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        ++infra;
        if (infra < 20) spawn(w);
        continue;
      }
      // a failing case
      uint32_t si = sl->suite.load();
      uint64_t idx = sl->index.load();
      uint32_t n = std::min(sl->nchoices.load(), kMaxChoices);
      std::vector<uint64_t> ch(sl->choices, sl->choices + n);
      std::string first = state == 3 ? std::string(sl->msg) : hang ? std::string("hang") : tail_file(errfile(w));
      auto &so = suites()[si].o;
      // Confirm.  Deterministic suites: 3 of 3 replays must fail.
      // Schedule-dependent suites: at least one of up to 40 replays must fail
      // again (two failing executions in all).
      int fails = 0, runs = 0;
      Outcome o, got;
      uint64_t c0 = now_ms();
      int maxruns = so.nondet ? 40 : 3;
      while (runs < maxruns && now_ms() - c0 < (uint64_t)(hang ? 3 * so.hang_s + 20 : 100) * 1000) {
        o = run_fixed(si, ch, idx, so.hang_s);
        if (o.infra) {
          if (++infra > 20) break;
          continue;
        }
        ++runs;
        if (o.failed) {
          ++fails;
          got = o;
        }
        if (so.nondet && fails >= 1) break;
        if (!so.nondet && !o.failed) break;
      }
      bool confirmed = so.nondet ? fails >= 1 : fails >= 3;
      if (!confirmed && (dead || (so.sound && !hang))) {
        // Every thread blocked forever, or an oracle that holds in every
        // schedule: one observed execution is enough.
        violations = 1;
        Outcome u;
        u.choices = ch;
        u.msg = (dead ? std::string("hang: every thread is blocked") : first) + " (schedule-dependent, seen once)";
        killall();
        vio_msg = u.msg;
        vio_path = write_replay(replay_dir.c_str(), si, seed, idx, u);
        printf("failing case in suite %s (%s), not reproduced in %d replays: %s\n", suites()[si].name.c_str(),
               suites()[si].what.c_str(), runs, u.msg.substr(0, 4000).c_str());
        break;
      }
      if (!confirmed) {
        ++unrepro;
        unrepro_msgs.push_back(suites()[si].name + "#" + std::to_string(idx) + ": " + first.substr(0, 1500));
        fprintf(stderr, "unreproduced failure in %s#%llu (%d of %d replays failed): %s\n", suites()[si].name.c_str(),
                (unsigned long long)idx, fails, runs, first.substr(0, 3000).c_str());
        // Repeated oracle failures (not hangs) in different cases are accepted as evidence too.
        if (!hang && unrepro >= 3) {
          violations = 1;
          Outcome u;
          u.choices = ch;
          u.msg = first + " (seen in several executions, schedule-dependent)";
          killall();
          vio_msg = u.msg;
          vio_path = write_replay(replay_dir.c_str(), si, seed, idx, u);
          break;
        }
        if (unrepro < 10) spawn(w);
        continue;
      }
      killall();
      Outcome best = shrink(si, idx, got, so.nondet, so.hang_s);
      violations = 1;
      vio_msg = best.msg;
      vio_path = write_replay(replay_dir.c_str(), si, seed, idx, best);
      printf("failing case in suite %s (%s), shrunk to %zu choices: %s\n--- operations\n%s\n%s\n", suites()[si].name.c_str(),
             suites()[si].what.c_str(), best.choices.size(), best.msg.c_str(), best.note.substr(0, 4000).c_str(),
             best.err.substr(0, 3000).c_str());
      break;
    }
    if (violations || !alive) break;
    if (now_ms() - t_start > deadline_ms) {
      timed_out = true;
      sh->stop.store(1);
      if (now_ms() - t_start > deadline_ms + 100 * 1000) {
        killall();
        break;
      }
    }
    if (!acted) usleep(5000);
  }
  killall();

  // ---- evidence
  uint64_t evals = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels, knowns;
  std::set<uint64_t> distinct;
  std::map<uint32_t, std::vector<std::string>> samples;
  for (auto *s : slots) {
    evals += s->evals.load();
    nontriv += s->nontriv.load();
    for (auto &l : s->labels)
      if (l.name[0]) labels[l.name] += l.count;
    for (auto &l : s->knowns)
      if (l.name[0]) knowns[l.name] += l.count;
    distinct.insert(s->hashes, s->hashes + s->nhash);
    for (uint32_t i = 0; i < suites().size() && i < kSampleSuites; ++i)
      if (s->sample[i][0] && samples[i].size() < 2) samples[i].push_back(s->sample[i]);
  }
  double wall = (now_ms() - t_start) / 1000.0;
  std::stringstream js;
  js << "{\n \"property\": " << json_str(cfg.property) << ",\n \"tier\": " << json_str(thorough ? "thorough" : "quick")
     << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
     << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << json_str(cfg.rule)
     << ",\n  \"planned_cases\": " << items.size() << ",\n  \"stopped_by_time_budget\": " << (timed_out ? "true" : "false")
     << ",\n  \"unreproduced_failures\": " << unrepro << ",\n  \"suites\": {";
  bool first = true;
  for (auto &s : suites()) {
    if (!selected(s.name)) continue;
    js << (first ? "" : ",") << "\n   " << json_str(s.name) << ": " << json_str(s.what);
    first = false;
  }
  js << "},\n  \"classes\": {";
  first = true;
  for (auto &l : labels) {
    js << (first ? "" : ", ") << "\n   " << json_str(l.first) << ": " << l.second;
    first = false;
  }
  js << "},\n  \"samples\": [";
  first = true;
  for (auto &kv : samples)
    for (auto &t : kv.second) {
      js << (first ? "" : ",") << "\n   {\"suite\": " << json_str(suites()[kv.first].name) << ", \"case\": " << json_str(t) << "}";
      first = false;
    }
  if (!unrepro_msgs.empty()) {
    js << "],\n  \"unreproduced\": [";
    first = true;
    for (auto &m : unrepro_msgs) {
      js << (first ? "" : ",") << "\n   " << json_str(m);
      first = false;
    }
  }
  js << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto &a : cfg.assumptions) {
    js << (first ? "" : ", ") << json_str(a);
    first = false;
  }
  js << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << js.str();
  }
  printf("%s: %llu cases (%llu non-trivial, %zu distinct), %.1fs%s%s\n", cfg.property, (unsigned long long)evals,
         (unsigned long long)nontriv, distinct.size(), wall, timed_out ? ", stopped by time budget" : "",
         unrepro ? ", with unreproduced failures" : "");
  for (auto &l : labels) printf("   %-48s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  for (auto &k : known_text) {
    // A listed finding is reported whether or not this run's cases met it.
    printf("KNOWN-FINDING: property=%s %s\n", cfg.property, k.second.c_str());
  }
  cleanup();
  if (violations) {
    printf("%s\n", vio_msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", cfg.property, vio_path.c_str());
    fflush(stdout);
    return 1;
  }
  fflush(stdout);
  return 0;
}

}  // namespace pbt

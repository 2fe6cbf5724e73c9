// U02: TimeStamp arithmetic, formatting and parsing.
#include "pbt.h"
#include <time.h>
#include <limits.h>
#include <math.h>
#include <string>
#include <stdio.h>
#include <string.h>
#include <memory>
#include <stdlib.h>
#include <chrono>
#include "kanon/util/time_stamp.h"
#include "kanon/util/measure_time.h"
using namespace kanon;
using pbt::Gen;

static const int64_t kMax = 7258118400LL * 1000000;  // year 2200

static int64_t stamp(Gen &g)
{
  switch (g.weighted({6, 1, 1, 1})) {
    case 0: return (int64_t)g.range(0, kMax);
    case 1: return (int64_t)g.range(0, 3000000);
    case 2: return (int64_t)g.range(0, 7258118400ULL) * 1000000;              // whole seconds
    default: return (int64_t)g.range(0, 7258118400ULL) * 1000000 + g.pick<int64_t>({1, 9, 10, 99, 100, 999, 1000, 99999, 100000, 999999});
  }
}
static int dur(Gen &g)
{
  switch (g.weighted({3, 2, 1})) {
    case 0: return (int)g.irange(-5000, 5000);
    case 1: return (int)g.irange(INT_MIN, INT_MAX);
    default: return g.pick<int>({0, 1, -1, INT_MAX, INT_MIN, 2147, 2148, -2148, 2147483, 2147484, -2147484});
  }
}

static void arith(Gen &g)
{
  int64_t a = stamp(g), b = stamp(g);
  TimeStamp A(a), B(b);
  int d = dur(g);
  NOTE("a %lld b %lld duration %d", (long long)a, (long long)b, d);
#define US(x) ((long long)(x).GetMicrosecondsSinceEpoch())
#define EQ(x, want) PBT_CHECK(US(x) == (long long)(want), #x " is %lld, expected %lld", US(x), (long long)(want))
  EQ(A, a);
  PBT_CHECK(A.microseconds() == a && A.GetMicroseconds() == a && A.milliseconds() == a / 1000 && A.GetMilliseconds() == a / 1000 && A.seconds() == a / 1000000 &&
                A.GetSeconds() == a / 1000000,
            "accessors");
  EQ(A + TimeStamp::Second(d), a + d * 1000000LL);
  EQ(A - TimeStamp::Second(d), a - d * 1000000LL);
  EQ(A + TimeStamp::MilliSecond(d), a + d * 1000LL);
  EQ(A - TimeStamp::MilliSecond(d), a - d * 1000LL);
  EQ(A + TimeStamp::Microsecond(d), a + (int64_t)d);
  EQ(A - TimeStamp::Microsecond(d), a - (int64_t)d);
  EQ(TimeStamp::Second(d) + A, a + d * 1000000LL);
  EQ(TimeStamp::MilliSecond(d) + A, a + d * 1000LL);
  EQ(TimeStamp::Microsecond(d) + A, a + (int64_t)d);
  EQ(TimeStamp::Second(d) - A, d * 1000000LL - a);
  EQ(TimeStamp::MilliSecond(d) - A, d * 1000LL - a);
  EQ(TimeStamp::Microsecond(d) - A, d - a);
  EQ(A + B, a + b);
  EQ(A - B, a - b);
  EQ(-A, -a);
  {
    TimeStamp c(a);
    c += B;
    EQ(c, a + b);
    c -= B;
    EQ(c, a);
    c -= B;
    EQ(c, a - b);
    c.SetMicroseconds(b);
    EQ(c, b);
  }
  double s = g.chance(1, 3) ? (double)d / 1000 : (double)g.irange(-100000000, 100000000) / 997;
  int64_t sus = (int64_t)(s * 1000000);
  EQ(A + s, a + sus);
  EQ(A - s, a - sus);
  EQ((A + s) - s, a);
  EQ(s + A, a + sus);
  EQ(s - A, sus - a);
  EQ(AddTime(A, s), a + sus);
  uint64_t u = g.range(0, 1ull << 40);
  EQ(AddTimeUs(A, u), a + (int64_t)u);
  EQ(AddTimeMs(A, u), a + (int64_t)u * 1000);
  PBT_CHECK(fabs(TimeDifference(A, B) - (double)(a - b) / 1e6) <= 1e-3, "TimeDifference");
  PBT_CHECK((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b),
            "comparison of %lld and %lld", (long long)a, (long long)b);
  TimeStamp A2(a);
  PBT_CHECK(A == A2 && !(A != A2) && !(A < A2) && !(A > A2) && A <= A2 && A >= A2, "comparison of equal time stamps");
  EQ(TimeStamp::FromUnixTime(a / 1000000), a / 1000000 * 1000000);
  EQ(TimeStamp::FromUnixTime(a / 1000000, a % 1000000), a);
  if (d && a != b) pbt::nontrivial();
  pbt::label_if(d > 2147 || d < -2147, "more than 2147 seconds");
}

static const char *kZones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-0930>9:30"};

static void text(Gen &g)
{
  const char *tz = kZones[g.range(0, 5)];
  setenv("TZ", tz, 1);
  tzset();
  int64_t a = stamp(g);
  time_t sec = (time_t)(a / 1000000);
  int us = (int)(a % 1000000);
  NOTE("time %lld in %s", (long long)a, tz);
  TimeStamp A(a);
  struct tm tm;
  localtime_r(&sec, &tm);
  char want[64], frac[16];
  strftime(want, sizeof want, "%Y%m%d %H:%M:%S", &tm);
  PBT_CHECK(A.ToFormattedString(false) == std::string(want), "ToFormattedString(false) is %s, expected %s", A.ToFormattedString(false).c_str(), want);
  snprintf(frac, sizeof frac, ".%06d", us);
  PBT_CHECK(A.ToFormattedString(true) == std::string(want) + frac, "ToFormattedString is %s, expected %s%s", A.ToFormattedString().c_str(), want, frac);
  PBT_CHECK(A.ToFormattedString() == std::string(want) + frac, "ToFormattedString() differs");
  char num[64];
  snprintf(num, sizeof num, "%lld.%06d", (long long)sec, us);
  PBT_CHECK(A.ToString() == std::string(num), "ToString is %s, expected %s", A.ToString().c_str(), num);
  // parse back
  static const char *fmts[] = {"%Y%m%d %H:%M:%S", "%Y-%m-%d %H:%M:%S", "%d.%m.%Y %H.%M.%S"};
  const char *f = fmts[g.range(0, 2)];
  char t[64];
  strftime(t, sizeof t, f, &tm);
  bool with_ok = g.boolean(), ok = !g.boolean();
  TimeStamp P = with_ok ? TimeStamp::FromTimeStr(f, t, &ok) : TimeStamp::FromTimeStr(f, t);
  if (with_ok) PBT_CHECK(ok, "%s is reported as not a time", t);
  PBT_CHECK(P.microseconds() % 1000000 == 0, "a parsed time has microseconds");
  time_t back = (time_t)P.seconds();
  if (back != sec) {
    // only the hour that is repeated when daylight saving ends is ambiguous
    struct tm tb;
    localtime_r(&back, &tb);
    char t2[64];
    strftime(t2, sizeof t2, f, &tb);
    PBT_CHECK(!strcmp(t, t2), "%s parses as %lld, expected %lld", t, (long long)back, (long long)sec);
    pbt::label("ambiguous hour");
  }
  pbt::label_if(tm.tm_isdst > 0, "daylight saving time");
  pbt::label_if(us < 100000, "microseconds with leading zeros");
  pbt::nontrivial();
}

static void notime(Gen &g)
{
  static const char *fmts[] = {"%Y%m%d %H:%M:%S", "%Y-%m-%d %H:%M:%S", "%H:%M"};
  const char *f = fmts[g.range(0, 2)];
  std::string t = g.chance(1, 2) ? g.str(g.range(0, 20), "0123456789-: x") : g.pick<std::string>({"2020-13-01 00:00:00", "99:99", "2020-01-01 25:00:00", "", "abc", "2020-01"});
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  bool valid = strptime(t.c_str(), f, &tm) != nullptr;
  bool ok = !valid;
  NOTE("parse %s as %s: %s", pbt::quote(t).c_str(), f, valid ? "valid" : "invalid");
  TimeStamp P = TimeStamp::FromTimeStr(f, t, &ok);
  PBT_CHECK(ok == valid, "%s as %s is reported as %s", pbt::quote(t).c_str(), f, ok ? "a time" : "not a time");
  TimeStamp Q = TimeStamp::FromTimeStr(f, t);
  PBT_CHECK(P == Q, "the result depends on the ok pointer");
  if (!valid) {
    PBT_CHECK(P.microseconds() == 0, "text that is no time gives %lld", (long long)P.microseconds());
    pbt::nontrivial();
  }
}

static void now(Gen &g)
{
  (void)g.range(0, 1);
  struct timespec a, b;
  clock_gettime(CLOCK_REALTIME, &a);
  int64_t n = TimeStamp::Now().microseconds();
  clock_gettime(CLOCK_REALTIME, &b);
  // a coarse clock may lag by a tick
  PBT_CHECK(n >= a.tv_sec * 1000000LL + a.tv_nsec / 1000 - 20000 && n <= b.tv_sec * 1000000LL + b.tv_nsec / 1000 + 20000, "Now() is off by %lld us",
            (long long)(n - (a.tv_sec * 1000000LL + a.tv_nsec / 1000)));
  pbt::nontrivial();
}

// What is printed while `f` runs.
template <class F> static std::string printed(F f)
{
  char *p = nullptr;
  size_t n = 0;
  FILE *m = open_memstream(&p, &n), *old = stdout;
  stdout = m;
  try {
    f();
  } catch (...) {
    stdout = old;
    fclose(m);
    free(p);
    throw;
  }
  stdout = old;
  fclose(m);
  std::string r(p, n);
  free(p);
  return r;
}

// MeasureTime: the name it was given and the time its scope took.
static void measure(Gen &g)
{
  typedef std::chrono::high_resolution_clock C;
  static const struct { TimeType ty; const char *unit; unsigned long long ns; } units[] = {
      {TimeType::seconds, "s", 1000000000}, {TimeType::milliseconds, "ms", 1000000}, {TimeType::microseconds, "us", 1000}, {TimeType::nanoseconds, "ns", 1}};
  auto &u = units[g.range(0, 3)];
  {
    C::time_point a{C::duration((int64_t)g.small(INT64_MAX / 4))}, b = a + C::duration((int64_t)g.small(INT64_MAX / 4));
    unsigned long long d = (unsigned long long)std::chrono::duration_cast<std::chrono::nanoseconds>(b - a).count();
    PBT_CHECK(MeasureTime::diff(a, b, u.ty) == d / u.ns, "diff() of %llu ns in %s is %llu", d, u.unit, MeasureTime::diff(a, b, u.ty));
    PBT_CHECK(MeasureTime::diff(a, b) == d, "diff() of %llu ns is %llu", d, MeasureTime::diff(a, b));
  }
  std::string text = g.str(g.small(200), "abcdefg:_<>(), *&%sn");
  size_t off = g.range(0, text.size()), len = g.range(0, text.size() - off);
  std::unique_ptr<char[]> exact(new char[len + 1]);   // followed by nothing that could be read
  std::string name = text.substr(off, len);
  memcpy(exact.get(), name.data(), len);
  exact[len] = '!';
  StringView sv(exact.get(), len);
  unsigned spin = g.chance(1, 8) ? (unsigned)g.range(0, 2000) : 0, how = (unsigned)g.range(0, 3);
  int got = 0;
  int64_t inner = 0, reset = 0;
  auto work = [&](int k, std::string const &s) {
    auto t = C::now();
    got = k + (int)s.size();
    while (C::now() - t < std::chrono::microseconds(spin))
      ;
    inner = std::chrono::duration_cast<std::chrono::nanoseconds>(C::now() - t).count();
  };
  NOTE("name of %zu bytes, %s, %u us, way %u", len, u.unit, spin, how);
  auto t0 = C::now();
  std::string out = printed([&] {
    if (how == 0) {
      MeasureTime m(sv, u.ty);
      work(1, "ab");
    } else if (how == 1) {
      MeasureTime m(sv, u.ty);
      auto r = C::now();
      work(0, "");
      reset = std::chrono::duration_cast<std::chrono::nanoseconds>(C::now() - r).count();
      m.reset();
      work(1, "ab");
    } else if (how == 2) {
      switch (u.ty) {
        case TimeType::seconds: measureTime<TimeType::seconds>(work, sv, 1, std::string("ab")); break;
        case TimeType::milliseconds: measureTime<TimeType::milliseconds>(work, sv, 1, std::string("ab")); break;
        case TimeType::microseconds: measureTime<TimeType::microseconds>(work, sv, 1, std::string("ab")); break;
        default: measureTime(work, sv, 1, std::string("ab"));
      }
    } else {
      // the measured function throws
      bool thrown = false;
      try {
        MeasureTime m(sv, u.ty);
        work(1, "ab");
        throw 5;
      } catch (int k) {
        thrown = k == 5;
      }
      PBT_CHECK(thrown, "the exception of the function is lost");
    }
  });
  unsigned long long all = (unsigned long long)std::chrono::duration_cast<std::chrono::nanoseconds>(C::now() - t0).count();
  PBT_CHECK(got == 3, "the measured function gets other arguments");
  std::string head = "Function { " + name + " }: ";
  PBT_CHECK(out.compare(0, head.size(), head) == 0, "printed \"%s\" for the name \"%s\"", out.c_str(), name.c_str());
  char *end;
  std::string rest = out.substr(head.size());
  unsigned long long v = strtoull(rest.c_str(), &end, 10);
  PBT_CHECK(end != rest.c_str() && std::string(end) == std::string(u.unit) + "\n", "printed \"%s\", in %s", rest.c_str(), u.unit);
  PBT_CHECK(v >= (unsigned long long)inner / u.ns && v <= (all - (unsigned long long)reset) / u.ns, "%llu %s are printed for %lld to %llu ns", v, u.unit, (long long)inner, all - (unsigned long long)reset);
  pbt::label_if(how == 3, "the function throws");
  if (len) pbt::nontrivial();
}

int main(int argc, char **argv)
{
  pbt::SuiteOpt o;
  o.quick = 1000000;
  o.thorough = 40000000;
  pbt::suite("arith", "arithmetic and comparison of time stamps and durations", o, arith);
  o.quick = 300000;
  o.thorough = 8000000;
  pbt::suite("text", "formatting and parsing in several time zones", o, text);
  o.quick = 100000;
  o.thorough = 3000000;
  pbt::suite("notime", "text that may not be a time", o, notime);
  o.quick = 2000;
  o.thorough = 20000;
  pbt::suite("now", "the current time", o, now);
  o.quick = 20000;
  o.thorough = 300000;
  pbt::suite("measure", "the time a scope took", o, measure);
  pbt::Config c;
  c.property = "U02";
  c.rule = "distinct stamps and a non-zero duration / every formatted stamp / text that is not a time";
  c.assumptions = {"times from 1970 to 2200", "times in the hour repeated at the end of daylight saving may parse as either instant"};
  return pbt::run(argc, argv, c);
}

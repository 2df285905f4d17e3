// Calendar arithmetic and time text forms (class Time) against a serial-day reference.
#include "TimeObj.h"
#include "Exception.h"
#include "tsym.h"
#include <cstring>
#include <cstdlib>
#include <string>

static const int CUM[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
static bool leap(long y) { return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }
// number of leap days in the years 0 .. y-1
static long leapsBefore(long y) { return (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400; }
// serial day; month is concrete
static long serial(bool std_, long y, int m, long d) {
  long n = 365 * y + CUM[m] + d;
  if (std_) { n += leapsBefore(y); if (m >= 2) n += leap(y) ? 1 : 0; }
  return n;
}
static long dim(bool std_, long y, int m) {
  static const int D[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (std_ && m == 1) return leap(y) ? 29 : 28;
  return D[m];
}
static void wellformed(const Time &t, bool std_, const char *w) {
  int m = ts_fix(t.GetMonth()) - 1;
  ts_check(m >= 0 && m < 12, w);
  ts_check((t.GetDay() >= 1) & (t.GetDay() <= dim(std_, t.GetYear(), m)), w);
  ts_check((t.GetSecond() >= 0) & (t.GetSecond() < 86400), w);
  ts_check((t.GetMicroSecond() >= 0) & (t.GetMicroSecond() < 1000000), w);
}
// total microseconds since year 0
static long usec(const Time &t, bool std_) {
  int m = ts_fix(t.GetMonth()) - 1;
  return (serial(std_, t.GetYear(), m, t.GetDay() - 1) * 86400 + t.GetSecond()) * 1000000 + t.GetMicroSecond();
}
struct Fields { long y; int m; long d, s, u; };
static Fields anyDate(bool std_, long ylo, long yhi, const char *suffix = "") {
  Fields f;
  std::string x(suffix);
  // standard calendar: the year runs over representatives of every leap-year class
  static const int Y[8] = {1896, 1899, 1900, 1903, 1999, 2000, 2023, 2100};
  if (std_) f.y = Y[ts_choice(("year" + x).c_str(), 0, *suffix && *suffix != '0' ? 2 : 7)];
  else f.y = ts_int(("year" + x).c_str(), ylo, yhi);
  f.m = ts_choice(("month" + x).c_str(), 0, 11);
  f.d = ts_int(("day" + x).c_str(), 0, 30);
  f.s = ts_int(("second" + x).c_str(), 0, 86399);
  f.u = ts_int(("usec" + x).c_str(), 0, 999999);
  ts_assume(f.d < dim(std_, f.y, f.m));
  return f;
}
static Time mkTime(const Fields &f, bool std_) {
  return Time(f.y, f.m, f.d, f.s, f.u, std_ ? Time::CalendarStandard : Time::CalendarNoLeap, Time::TypeFixed);
}

void ts_harness(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "seconds";
  bool std_ = argc > 2 && !strcmp(argv[2], "standard");
  long N = argc > 3 ? atol(argv[3]) : 60;

  if (mode == "seconds") {
    Fields f = anyDate(std_, 1, 9990);
    Time t = mkTime(f, std_);
    ts_check((t.GetYear() == f.y) & (t.GetMonth() == f.m + 1) & (t.GetDay() == f.d + 1) & (t.GetSecond() == f.s) & (t.GetMicroSecond() == f.u),
             "a valid date is kept as given");
    long n = ts_int("n", -N * 86400, N * 86400);
    long before = usec(t, std_);
    t.AddSeconds(n);
    wellformed(t, std_, "date valid after adding seconds");
    ts_check(usec(t, std_) == before + n * 1000000, "adding n seconds advances the clock by n seconds");
    ts_reach("seconds");
  } else if (mode == "days") {
    Fields f = anyDate(std_, 1, 9990);
    Time t = mkTime(f, std_);
    long n = ts_int("n", -N, N);
    long before = usec(t, std_);
    t.AddDays(n);
    wellformed(t, std_, "date valid after adding days");
    ts_check(usec(t, std_) == before + n * 86400000000L, "adding n days advances the calendar by n days");
    ts_reach("days");
  } else if (mode == "months") {
    Fields f = anyDate(std_, 100, 9900);
    Time t = mkTime(f, std_);
    long n = ts_int("n", -N, N);
    bool years = ts_choice("years", 0, 1);
    if (years) t.AddYears(n); else t.AddMonths(n);
    wellformed(t, std_, "date valid after adding months or years");
    // the day of the month is counted from the first of the target month
    long mm = f.m + (years ? 12 * n : n) + 12000;
    long ty = f.y + mm / 12 - 1000, tm = mm % 12;
    int m = ts_fix(t.GetMonth()) - 1;
    int tmf = ts_fix(tm);
    if (std_) { ts_fix(ty); ts_fix(t.GetYear()); }
    ts_check(serial(std_, t.GetYear(), m, t.GetDay() - 1) == serial(std_, ty, tmf, f.d),
             "adding months or years lands in the right month");
    ts_check((t.GetSecond() == f.s) & (t.GetMicroSecond() == f.u), "time of day unchanged by month arithmetic");
    ts_reach("months");
  } else if (mode == "delta") {
    // adding a time delta with day, second and microsecond parts
    Fields f = anyDate(std_, 1, 9990);
    Time t = mkTime(f, std_);
    long dd = ts_int("dd", 0, N), ds = ts_int("ds", 0, 200000), du = ts_int("du", 0, 3000000);
    Time delta(0, 0, dd, ds, du, std_ ? Time::CalendarStandard : Time::CalendarNoLeap, Time::TypeDelta);
    long before = usec(t, std_);
    t += delta;
    wellformed(t, std_, "date valid after adding a delta");
    ts_check(usec(t, std_) == before + (dd * 86400 + ds) * 1000000 + du, "adding a delta advances the clock by its length");
    ts_reach("delta");
  } else if (mode == "construct") {
    // unnormalised fields given to the constructor
    Fields f;
    f = anyDate(std_, 100, 9900, "0");
    f.d = ts_int("day", -N, N); f.s = ts_int("second", -200000, 200000); f.u = ts_int("usec", -5000000, 5000000);
    Time t = mkTime(f, std_);
    wellformed(t, std_, "date built from unnormalised fields is valid");
    ts_check(usec(t, std_) == (serial(std_, f.y, f.m, f.d) * 86400 + f.s) * 1000000 + f.u, "normalising a date keeps the instant");
    ts_reach("construct");
  } else if (mode == "order") {
    Fields f = anyDate(std_, 0, 9999, "1"), g = anyDate(std_, 0, 9999, "2");
    Time a = mkTime(f, std_), b = mkTime(g, std_);
    long ua = (serial(std_, f.y, f.m, f.d) * 86400 + f.s) * 1000000 + f.u, ub = (serial(std_, g.y, g.m, g.d) * 86400 + g.s) * 1000000 + g.u;
    int which = ts_choice("op", 0, 4);
    if (which == 0) ts_check((a < b) == (ua < ub), "operator< orders instants");
    if (which == 1) ts_check((a > b) == (ua > ub), "operator> orders instants");
    if (which == 2) ts_check((a <= b) == (ua <= ub), "operator<= orders instants");
    if (which == 3) ts_check((a >= b) == (ua >= ub), "operator>= orders instants");
    if (which == 4) ts_check((a == b) == (ua == ub), "operator== identifies instants");
    ts_reach("order");
  } else if (mode == "difference") {
    Fields f = anyDate(false, 0, 9999, "1"), g = anyDate(false, 0, 9999, "2");
    Time a = mkTime(f, false), b = mkTime(g, false);
    long sa = serial(false, f.y, f.m, f.d) * 86400 + f.s, sb = serial(false, g.y, g.m, g.d) * 86400 + g.s;
    ts_near(a - b, (double)(sa - sb) + 1e-6 * (double)(f.u - g.u), 1e-3, "difference of two times in seconds");
    ts_near(a.GetSeconds(), (double)sa + 1e-6 * (double)f.u, 1e-3, "seconds since the epoch");
    ts_reach("difference");
  } else if (mode == "text") {
    // N: form * 4 + group of symbolic fields
    int which = N / 4, grp = N % 4;
    Fields f;
    f.y = 2041; f.m = 9; f.d = 7; f.s = 45007; f.u = 70300;
    if (grp == 0) f.y = ts_int("year", 0, 9999);
    if (grp == 1) { f.m = ts_choice("month", 0, 11); f.d = ts_choice("day", 0, 27); }
    if (grp == 2) f.s = ts_int("second", 0, 86399);
    if (grp == 3) { static const int H[5] = {0, 1, 40, 703, 999}; f.u = 1000 * H[ts_choice("usechi", 0, 4)] + ts_int("usec", 0, 999); }
    if (which != 1) f.u = 0;
    Time t = mkTime(f, std_);
    Time r(std_ ? Time::CalendarStandard : Time::CalendarNoLeap);
    if (which == 0) {
      r.FromFormattedString(t.ToShortString());
      ts_check((r.GetYear() == f.y) & (r.GetMonth() == f.m + 1) & (r.GetDay() == f.d + 1) & (r.GetSecond() == f.s) & (r.GetMicroSecond() == 0), "short text form round trip");
    } else if (which == 1) {
      r.FromLongString(t.ToLongString());
      ts_check(r == t, "long text form round trip");
    } else if (which == 2) {
      r.FromFormattedString(t.ToString());
      ts_check(r == t, "date-time text form round trip");
    } else {
      r.FromFormattedString(t.ToDateString());
      ts_check((r.GetYear() == f.y) & (r.GetMonth() == f.m + 1) & (r.GetDay() == f.d + 1) & (r.GetSecond() == 0) & (r.GetMicroSecond() == 0), "date text form round trip");
    }
    ts_check(r.GetTimeType() == Time::TypeFixed, "a date parses as a fixed time");
    ts_reach("text");
  } else if (mode == "free") {
    // N: the field that is symbolic; the others are present or absent
    static const int Y[2] = {0, 3}, MM[2] = {0, 7}, D[2] = {0, 21}, S[2] = {0, 4105};
    long p = ts_choice("present", 0, 15);
    long y = Y[p & 1], M = MM[p >> 1 & 1], d = D[p >> 2 & 1], s = S[p >> 3 & 1], u = 0;
    if (N == 0) y = ts_int("y", 0, 9999);
    if (N == 1) M = ts_int("M", 0, 11);
    if (N == 2) d = ts_int("d", 0, 27);
    if (N == 3) s = ts_int("s", 0, 86399);
    if (N == 4) u = ts_int("u", 0, 999);
    if (N == 5) u = 1000 * ts_int("u", 0, 999);
    Time t(y, M, d, s, u, Time::CalendarNoLeap, Time::TypeDelta);
    ts_assume((y > 0) | (M > 0) | (d > 0) | (s > 0) | (u > 0));
    Time r(Time::CalendarNoLeap);
    r.FromFormattedString(t.ToFreeString());
    ts_check(r == t, "free text form round trip");
    ts_reach("free");
  } else if (mode == "units") {
    // "<a>h<b>m<c>s" and single-unit durations
    static const char U[] = "yMdhmsu";
    int k = ts_choice("unit", 0, 6);
    long v = ts_int("v", 0, 27);
    char buf[32];
    sprintf(buf, "%li%c", v, U[k]);
    Time r(Time::CalendarNoLeap);
    r.FromFormattedString(buf);
    long e[5] = {0, 0, 0, 0, 0};
    if (k == 0) e[0] = v;
    if (k == 1) { e[0] = v / 12; e[1] = v % 12; }
    if (k == 2) e[2] = v;
    if (k == 3) { e[2] = v * 3600 / 86400; e[3] = v * 3600 % 86400; }
    if (k == 4) e[3] = v * 60;
    if (k == 5) e[3] = v;
    if (k == 6) e[4] = v;
    ts_check((r.GetYear() == e[0]) & (r.GetMonth() == e[1]) & (r.GetDay() == e[2]) & (r.GetSecond() == e[3]) & (r.GetMicroSecond() == e[4]),
             "a duration with a unit is read as that unit");
    ts_check(r.GetTimeType() == Time::TypeDelta, "a duration parses as a delta");
    ts_reach("units");
  }
}

#!/usr/bin/env python3
"""C11: dates, times and time scales."""
import datetime, os, re, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cxx, vbuild, vlib, witness
from vbuild import Broken, REPO

RULE = ('The calendar, parsing and time scale functions are constexpr; the compiler evaluates them, as constants of a '
        'witness translation unit, against an independent definition: the proleptic Julian and Gregorian calendars and '
        'ISO weeks counted day by day, the IERS tables of leap seconds and of the rates of UTC before 1972, and exact '
        'interpolation of the EOP series read from their source; invalid dates must not be constant expressions.')

# The UTC days that start after a positive leap second.
LEAPS = [datetime.date(*d) for d in (
    (1972, 7, 1), (1973, 1, 1), (1974, 1, 1), (1975, 1, 1), (1976, 1, 1), (1977, 1, 1), (1978, 1, 1), (1979, 1, 1),
    (1980, 1, 1), (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1),
    (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1),
    (2012, 7, 1), (2015, 7, 1), (2017, 1, 1))]

# (end, offset, reference MJD, rate) of TAI - UTC, from UTC-TAI.history.
STRETCHY = [((1961, 8, 1), '1.4228180', 37300, '0.001296'), ((1962, 1, 1), '1.3728180', 37300, '0.001296'),
            ((1963, 11, 1), '1.8458580', 37665, '0.0011232'), ((1964, 1, 1), '1.9458580', 37665, '0.0011232'),
            ((1964, 4, 1), '3.2401300', 38761, '0.001296'), ((1964, 9, 1), '3.3401300', 38761, '0.001296'),
            ((1965, 1, 1), '3.4401300', 38761, '0.001296'), ((1965, 3, 1), '3.5401300', 38761, '0.001296'),
            ((1965, 7, 1), '3.6401300', 38761, '0.001296'), ((1965, 9, 1), '3.7401300', 38761, '0.001296'),
            ((1966, 1, 1), '3.8401300', 38761, '0.001296'), ((1968, 2, 1), '4.3131700', 39126, '0.002592'),
            ((1972, 1, 1), '4.2131700', 39126, '0.002592')]
# Steps of UTC in milliseconds, at the start of the day: TimeSteps.history.
STEPS = [((1961, 8, 1), Fr(-50)), ((1963, 11, 1), Fr(100)), ((1964, 4, 1), Fr(100)), ((1964, 9, 1), Fr(100)),
         ((1965, 1, 1), Fr(100)), ((1965, 3, 1), Fr(100)), ((1965, 7, 1), Fr(100)), ((1965, 9, 1), Fr(100)),
         ((1968, 2, 1), Fr(-100)), ((1972, 1, 1), Fr('107.7580'))]

TT_TAI = Fr('32.184')
J2000 = datetime.datetime(2000, 1, 1, 12)

PRELUDE_DATE = r'''
#include <array>
#include <type_traits>
using namespace principia::astronomy::_date_time;
namespace verif {
using R = std::array<double, 6>;
template<std::size_t N> struct S { char s[N]{}; constexpr S(char const (&c)[N]) { for (std::size_t i = 0; i < N; ++i) s[i] = c[i]; } };
template<S s> concept is_date = requires { typename std::bool_constant<(static_cast<void>(operator""_Date(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_time = requires { typename std::bool_constant<(static_cast<void>(operator""_Time(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_date_time = requires { typename std::bool_constant<(static_cast<void>(operator""_DateTime(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_jd = requires { typename std::bool_constant<(static_cast<void>(operator""_Julian(s.s, sizeof(s.s) - 1)), true)>; };
constexpr bool leap(long y, bool g) { return ((y % 4) + 4) % 4 == 0 && (!g || ((y % 100) + 100) % 100 != 0 || ((y % 400) + 400) % 400 == 0); }
constexpr int lengths[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
constexpr int length(long y, int m, bool g) { return lengths[m - 1] + (m == 2 && leap(y, g) ? 1 : 0); }
constexpr long fd(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
// The Julian day number minus one half of January 1st, 00:00.
constexpr long start(long y, bool g) {
  long const p = y - 1;
  // 1 January 1 (Gregorian) is JD 1721425.5, 1 January 1 (Julian) is JD 1721423.5.
  return g ? 1721425 + 365 * p + fd(p, 4) - fd(p, 100) + fd(p, 400) : 1721423 + 365 * p + fd(p, 4);
}
constexpr R days(int const y0, int const y1, bool const g) {
  auto const c = g ? Calendar::Gregorian : Calendar::Julian;
  for (int y = y0; y < y1; ++y) {
    double jd = start(y, g) + 0.5;
    int n = 1;
    if (jd < 0) continue;
    for (int m = 1; m <= 12; ++m) {
      int const l = length(y, m, g);
      int const ds[] = {1, MIDDLE l};
      for (int d : ds) {
        auto const date = Date::Calendar(y, m, d, c);
        double const j = date.jd();
        if (j != jd + d - 1) return R{1, double(y), double(m), double(d), j, jd + d - 1};
        if (d != 15 && d != 2 && date.ordinal() != n + d - 1) return R{2, double(y), double(m), double(d), double(date.ordinal()), double(n + d - 1)};
        if (d == l) {
          if (date.year() != y || date.month() != m || date.day() != d || date.calendar() != c) return R{3, double(y), double(m), double(d), 0, 0};
          if (date.mjd() != j - 2400000.5) return R{4, double(y), double(m), double(d), double(date.mjd()), j - 2400000.5};
        }
      }
      jd += l;
      n += l;
    }
    if (jd != start(y + 1, g) + 0.5) return R{99, double(y)};
  }
  return R{};
}
// The inverse, on the first, second, middle and last days of the months; the calendar is Gregorian from 1582-10-15.
constexpr R inverse(int const y0, int const y1) {
  for (int y = y0; y < y1; ++y) {
    for (int m = 1; m <= 12; ++m) {
      bool const g = y > 1582 || (y == 1582 && m >= 11);
      bool const change = y == 1582 && m == 10;
      double jd = start(y, g) + 0.5;
      for (int k = 1; k < m; ++k) jd += length(y, k, g);
      int const l = length(y, m, g);
      int const ds[] = {1, MIDDLE l};
      for (int d : ds) {
        double j = jd + d - 1;
        bool G = g;
        if (change && d >= 15) { j -= 10; G = true; }
        if (j < 0) continue;
        auto const date = Date::JD(j);
        if (date.year() != y || date.month() != m || date.day() != d || date.calendar() != (G ? Calendar::Gregorian : Calendar::Julian))
          return R{5, double(y), double(m), double(d), double(date.month()), double(date.day())};
        if (d == l || d == 1) {
          auto const next = date.next_day();
          if (next.jd() != j + 1 || (d == l && next.day() != 1)) return R{6, double(y), double(m), double(d), next.jd(), j + 1};
          if (d == l && m % 3 == 0) if (!(date < next) || date == next || !(next > date) || date != date || !(date <= date))
            return R{7, double(y), double(m), double(d), 0, 0};
        }
      }
      if (change) {
        if (Date::JD(2299159.5).day() != 4 || Date::JD(2299159.5).calendar() != Calendar::Julian ||
            Date::JD(2299160.5).day() != 15 || Date::JD(2299160.5).calendar() != Calendar::Gregorian)
          return R{8, double(y), double(m), 4, 0, 0};
      }
    }
  }
  return R{};
}
constexpr int weeks(long y) {
  // A year has 53 weeks if it starts or ends on a Thursday; JD 0 is a Monday.
  long const a = start(y, true), b = start(y + 1, true) - 1;
  return (a + 1) % 7 == 3 || (b + 1) % 7 == 3 ? 53 : 52;
}
constexpr R iso(int const y0, int const y1) {
  for (int y = y0; y < y1; ++y) {
    long const j4 = start(y, true) + 3;
    long const monday = j4 - (j4 + 1) % 7;
    int const ws[] = {1, 27, weeks(y)};
    for (int w : ws) for (int d = 1; d <= 7; d += 6) {
      double const jd = Date::Week(y, w, d).jd(), want = monday + 7 * (w - 1) + (d - 1) + 0.5;
      if (jd != want) return R{9, double(y), double(w), double(d), jd, want};
    }
  }
  return R{};
}
constexpr R ordinals(int const y0, int const y1, bool const g) {
  auto const c = g ? Calendar::Gregorian : Calendar::Julian;
  for (int y = y0; y < y1; ++y) {
    if (start(y, g) < 0) continue;
    int const n = leap(y, g) ? 366 : 365;
    int const os[] = {1, 59, 60, 61, 200, n};
    for (int o : os) {
      double const jd = Date::Ordinal(y, o, c).jd();
      if (jd != start(y, g) + o - 0.5) return R{10, double(y), 0, double(o), jd, start(y, g) + o - 0.5};
    }
  }
  return R{};
}
constexpr R clock() {
  for (int h = 0; h < 24; ++h) for (int m = 0; m < 60; ++m) for (int s = 0; s < 60; s += (m == 59 ? 1 : 59)) {
    auto const t = TimeOfDay::hhmmss_ms(h * 10000 + m * 100 + s, (h * 41 + s * 17) % 1000);
    if (t.hour() != h || t.minute() != m || t.second() != s || t.millisecond() != (h * 41 + s * 17) % 1000 || t.is_leap_second() || t.is_end_of_day())
      return R{11, double(h), double(m), double(s), 0, 0};
  }
  return R{};
}
// Dates that do not exist, for every year: they must not be constant expressions.
template<int y> concept week_53 = requires { typename std::bool_constant<(static_cast<void>(Date::Week(y, 53, 1)), true)>; };
template<int y, Calendar c> concept february_29 = requires { typename std::bool_constant<(static_cast<void>(Date::Calendar(y, 2, 29, c)), true)>; };
template<int y, Calendar c> concept day_366 = requires { typename std::bool_constant<(static_cast<void>(Date::Ordinal(y, 366, c)), true)>; };
template<int y> constexpr int wrong() {
  constexpr auto J = Calendar::Julian, G = Calendar::Gregorian;
  if constexpr (y >= 1583) { if (week_53<y> != (weeks(y) == 53)) return 12; }
  if constexpr (y >= 1583 || y % 4 == 0 || y % 50 == 1) {
    if (february_29<y, J> != leap(y, false) || february_29<y, G> != leap(y, true)) return 13;
    if (day_366<y, J> != leap(y, false) || day_366<y, G> != leap(y, true)) return 14;
  }
  return 0;
}
template<int y0, int... k> constexpr R existence(std::integer_sequence<int, k...>) {
  int const w[] = {wrong<y0 + k>()...};
  for (int i = 0; i < int(sizeof...(k)); ++i) if (w[i]) return R{double(w[i]), double(y0 + i), 0, 0, 0, 0};
  return R{};
}
}
'''
if os.environ.get('VERIF_TIER') == 'thorough':
    PRELUDE_DATE = PRELUDE_DATE.replace('MIDDLE', '2, 15,')
else:
    PRELUDE_DATE = PRELUDE_DATE.replace('MIDDLE', '')
WHAT = {12: 'existence of the week 53 of (year)', 13: 'existence of the February 29th of (year)', 14: 'existence of the day 366 of (year)',
        1: 'Julian date of (year, month, day)', 2: 'ordinal of (year, month, day)', 3: 'components of (year, month, day)',
        4: 'modified Julian date of (year, month, day)', 5: 'date whose Julian date is that of (year, month, day)',
        6: 'day after (year, month, day)', 7: 'order of (year, month, day) and the next day',
        8: 'calendar change of October 1582', 9: 'Julian date of (year, week, day)', 10: 'Julian date of (year, ordinal)',
        11: 'components of (hour, minute, second)'}


def shards(lo, hi, n):
    s = (hi - lo + n - 1) // n
    return [(a, min(a + s, hi)) for a in range(lo, hi, s)]


def calendar_jobs():
    jobs = []
    hpp = ['astronomy/date_time.hpp']

    def job(tag, e):
        jobs.append(dict(includes=hpp, prelude=PRELUDE_DATE, exprs={tag: ('verif::R', e)}))

    for k, (a, b) in enumerate(shards(-4713, 10000, 6)):
        job('days_g%d' % k, 'verif::days(%d, %d, true)' % (a, b))
        job('days_j%d' % k, 'verif::days(%d, %d, false)' % (a, b))
        job('inverse%d' % k, 'verif::inverse(%d, %d)' % (a, b))
    for k, (a, b) in enumerate(shards(-4713, 10000, 2)):
        job('ordinals_g%d' % k, 'verif::ordinals(%d, %d, true)' % (a, b))
        job('ordinals_j%d' % k, 'verif::ordinals(%d, %d, false)' % (a, b))
    for k, (a, b) in enumerate(shards(1583, 10000, 2)):
        job('iso%d' % k, 'verif::iso(%d, %d)' % (a, b))
    for k, (a, b) in enumerate(shards(-4710, 10000, 24)):
        job('existence%d' % k, 'verif::existence<%d>(std::make_integer_sequence<int, %d>())' % (a, b - a))
    job('time_of_day', 'verif::clock()')
    return jobs


def jd_of(y, m, d, g=True):
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    n = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    return n - yy // 100 + yy // 400 - 32045 - Fr(1, 2) if g else n - 32083 - Fr(1, 2)


def strings():
    """Valid date strings with their Julian dates, and invalid ones."""
    ok, bad = {}, []
    for y, m, d in ((1583, 1, 1), (1600, 2, 29), (1858, 11, 17), (1914, 1, 1), (1999, 12, 31), (2000, 2, 29), (2016, 10, 3),
                    (2024, 12, 30), (9999, 12, 31), (2009, 1, 4), (1969, 7, 20)):
        j = jd_of(y, m, d)
        ok['%04d-%02d-%02d' % (y, m, d)] = j
        ok['%04d%02d%02d' % (y, m, d)] = j
        o = int(j - jd_of(y, 1, 1)) + 1
        ok['%04d-%03d' % (y, o)] = j
        ok['%04d%03d' % (y, o)] = j
        if y < 9999:
            w = datetime.date(y, m, d).isocalendar()
            if w[0] >= 1583:
                ok['%04d-W%02d-%d' % tuple(w)] = j
                ok['%04dW%02d%d' % tuple(w)] = j
        ok['G%04d-%02d-%02d' % (y, m, d)] = j
        ok['J%04d-%02d-%02d' % (y, m, d)] = jd_of(y, m, d, False)
        ok['+%04d-%02d-%02d' % (y, m, d)] = j
    for y, m, d in ((0, 1, 1), (-1, 2, 1), (-4, 2, 29), (-4711, 12, 25), (1, 1, 1), (1582, 10, 4), (-100, 3, 1), (-44, 3, 15),
                    (1000, 2, 29), (-100, 2, 29)):
        for g in (False, True):
            p = 'G' if g else 'J'
            s = '-' if y < 0 else ''
            j = jd_of(y, m, d, g)
            leap = y % 4 == 0 and (not g or y % 100 != 0 or y % 400 == 0)
            if (m, d) == (2, 29) and not leap:
                bad.append('%s%s%04d-%02d-%02d' % (p, s, abs(y), m, d))
                continue
            ok['%s%s%04d-%02d-%02d' % (p, s, abs(y), m, d)] = j
            ok['%s%s%04d%02d%02d' % (p, s, abs(y), m, d)] = j
            o = int(j - jd_of(y, 1, 1, g)) + 1
            ok['%s%s%04d-%03d' % (p, s, abs(y), o)] = j
            ok['%s%s%04d%03d' % (p, s, abs(y), o)] = j
    for y in (2001, 2000, 1900, 2024):
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        for m in range(1, 13):
            l = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
            ok['%d-%02d-%02d' % (y, m, l)] = jd_of(y, m, l)
            bad += ['%d-%02d-%02d' % (y, m, l + 1), '%d%02d%02d' % (y, m, l + 1), '%d-%02d-00' % (y, m)]
        n = 366 if leap else 365
        ok['%d-%03d' % (y, n)] = jd_of(y, 12, 31)
        bad += ['%d-%03d' % (y, n + 1), '%d-000' % y, '%d-13-01' % y, '%d-00-10' % y, '%d-W00-1' % y, '%d-W54-1' % y,
                '%d-W10-0' % y, '%d-W10-8' % y]
    for y in range(1995, 2025):
        w = datetime.date(y, 12, 28).isocalendar()[1]
        if w == 52:
            bad.append('%d-W53-1' % y)
        else:
            ok['%d-W53-7' % y] = jd_of(*datetime.date.fromisocalendar(y, 53, 7).timetuple()[:3])
    bad += ['1582-12-31', '1582-365', '0000-01-01', '-2000-01-01', '1582-W01-1', '2001-1-01', '2001-011-1', '200-101-01',
            '2001-0101', '20-010101', '2001-01-011', '2001-01', '2001', '2001/01/01', 'J2001-W01-1', 'G2001-W01-1', '2001W-011',
            '2001-W011', '2001W01-1', '2001--001', '2001-01-01-', 'x2001-01-01', '2001-01-0a', 'JG2001-01-01', '20010101.',
            '2001-01-01T', 'W2001-01-1', '2001-WW01-1', '20010-101']
    return ok, bad


def times():
    ok, bad = {}, []
    for h, m, s in ((0, 0, 0), (23, 59, 59), (12, 34, 56), (9, 8, 7), (0, 59, 0), (23, 0, 0), (23, 59, 60)):
        for frac, ms in (('', 0), ('.0', 0), (',5', 500), ('.05', 50), (',005', 5), ('.123', 123), (',999', 999), (',60', 600)):
            ok['%02d:%02d:%02d%s' % (h, m, s, frac)] = (h, m, s, ms)
            ok['%02d%02d%02d%s' % (h, m, s, frac)] = (h, m, s, ms)
    ok['24:00:00'] = ok['240000'] = (24, 0, 0, 0)
    bad += ['24:00:01', '24:01:00', '25:00:00', '24:00:00,001', '23:60:00', '23:59:61', '22:59:60', '23:58:60', '00:00:60',
            '12:00', '1200', '12', '12:34:5', '1:23:45', '12:34:56:78', '12:3456', '1234:56', '12:34:56.1234', '12:34.56',
            '1234.56', '12:34:56.1.2', '12:34:5a', '12-34-56', '12:34:56Z', '99:00:00', '', '123456.1234', ':12:34:56']
    return ok, bad


def julians():
    ok, bad = {}, []
    for t in ('2451545', '2451545.0', '2451544.5', '2455200.623456701388', '0.5', '2440587.5', '1', '2451545.25', '2400000.5',
              '2400001'):
        ok['JD' + t] = Fr(t) - 2451545
    for t in ('51544.5', '0', '51544', '57754', '57754.25', '57754.75', '57754.5', '41317.999', '41317.0'):
        ok['MJD' + t] = Fr(t) + Fr('2400000.5') - 2451545
    bad += ['JD12.3.4', 'MJD1234S.6', 'JD2455200.6234567013888', 'XD5', 'D5', 'MJ5', 'JD-5', 'JD 5', 'JD5,5']
    return ok, bad


def parse_jobs():
    jobs, want = [], {}
    e = {}
    ds, db = strings()
    ts, tb = times()
    js, jb = julians()
    n = [0]

    def sym(kind, s, w):
        n[0] += 1
        k = 's%d' % n[0]
        want[k] = (kind, s, w)
        return k

    for s, j in ds.items():
        e[sym('date', s, j)] = ('double', '"%s"_Date.jd()' % s)
    for s, t in ts.items():
        e[sym('time', s, t)] = ('auto', 'std::array<int, 4>{"%s"_Time.hour(), "%s"_Time.minute(), "%s"_Time.second(), '
                                        '"%s"_Time.millisecond()}' % (s, s, s, s))
    for s, t in js.items():
        e[sym('Julian date', s, t)] = ('auto', 'std::array<std::int64_t, 3>{"%s"_Julian.day(), "%s"_Julian.fraction_numerator(), '
                                               '"%s"_Julian.fraction_denominator()}' % (s, s, s))
    for s, ok in [('2015-06-30T23:59:60', 1), ('20150630T235960', 1), ('2015-06-29T23:59:60', 0), ('2015-06-30T235960', 0),
                  ('20150630T23:59:60', 0), ('2000-02-29T23:59:60', 1), ('2000-02-28T23:59:60', 0), ('1900-02-28T23:59:60', 1),
                  ('2016-12-31T24:00:00', 1), ('2016-366T12:00:00', 1), ('2016-W01-1T00:00:00', 1), ('2016W011T000000', 1),
                  ('2016-01-01 00:00:00', 0), ('2016-01-01T', 0), ('2016-01-01', 0), ('2001-04-30T23:59:60', 1)]:
        e[sym('valid', 'date and time ' + s, ok)] = ('int', 'verif::is_date_time<"%s">' % s)
    for kind, concept, l in (('date', 'is_date', db), ('time', 'is_time', tb), ('Julian date', 'is_jd', jb)):
        for s in l:
            if s:
                e[sym('valid', kind + ' ' + s, 0)] = ('int', 'verif::%s<"%s">' % (concept, s))
    # Positive controls, so that the concepts are not trivially false.
    for kind, concept, s in (('date', 'is_date', '2001-01-01'), ('time', 'is_time', '23:59:60'), ('Julian date', 'is_jd', 'JD5')):
        e[sym('valid', kind + ' ' + s, 1)] = ('int', 'verif::%s<"%s">' % (concept, s))
    for a, b, r in (('2016-12-31T24:00:00', '2017-01-01T00:00:00', 1), ('2016-12-31T24:00:00', '2016-12-31T00:00:00', 0),
                    ('J2017-02-16T10:00:00', '2017-03-01T10:00:00', 1), ('2017-01-01T00:00:00', '2017-01-01T00:00:00,001', 0),
                    ('2016-12-31T23:59:60', '2017-01-01T00:00:00', 0)):
        e[sym('valid', '%s equal to %s' % (a, b), r)] = ('int', '"%s"_DateTime == "%s"_DateTime' % (a, b))
        e[sym('valid', '%s different from %s' % (a, b), 1 - r)] = ('int', '"%s"_DateTime != "%s"_DateTime' % (a, b))
    for a, b in (('1582-10-04', '1582-10-15'), ('2000-02-29', '2000-03-01'), ('0000-12-31', '0001-01-01')):
        p, q = 'J' if a[:4] != '2000' else 'G', 'G' if a[:2] != '00' else 'J'
        e[sym('valid', '%s%s before %s%s' % (p, a, q, b), 1)] = ('int', '"%s%s"_Date < "%s%s"_Date && "%s%s"_Date.next_day() == "%s%s"_Date'
                                                                  % (p, a, q, b, p, a, q, b))
    items = list(e.items())
    for k in range(0, len(items), 150):
        jobs.append(dict(includes=['astronomy/date_time.hpp'], prelude=PRELUDE_DATE, exprs=dict(items[k:k + 150])))
    return jobs, want


# Time scales.

def seconds(dt, ms=Fr(0)):
    d = dt - J2000
    return Fr(d.days * 86400 + d.seconds) + Fr(ms) / 1000


def mjd(date):
    return date.toordinal() - 678576


def tai_minus_utc(date, sod):
    """sod: second of the day, an exact number."""
    if date.year >= 1972:
        return Fr(10 + sum(l <= date for l in LEAPS))
    for end, off, ref, rate in STRETCHY:
        if date < datetime.date(*end):
            return Fr(off) + (mjd(date) + Fr(sod) / 86400 - ref) * Fr(rate)


def utc(date, sod):
    """TT of the UTC date and second of day (a leap second is 86400 + x)."""
    t = seconds(datetime.datetime(date.year, date.month, date.day)) + Fr(sod)
    if date.year < 1972 and sod > 86400:
        return t + tai_minus_utc(date, sod) + TT_TAI
    return t + tai_minus_utc(date, min(sod, 86399)) + TT_TAI if date.year >= 1972 else t + tai_minus_utc(date, sod) + TT_TAI


def show(date, sod):
    s = Fr(sod)
    leap = s >= 86400
    w = 86399 if leap else int(s)
    ms = int((s - (86400 if leap else w)) * 1000)
    t = '%02d:%02d:%02d' % (w // 3600, w // 60 % 60, 60 if leap else w % 60)
    return '%04d-%02d-%02dT%s%s' % (date.year, date.month, date.day, t, ',%03d' % ms if ms else '')


def eop():
    with open(os.path.join(REPO, 'astronomy/eop_c04.generated.h'), encoding='utf-8') as f:
        t = f.read()
    c04 = [(datetime.date(int(a), int(b), int(c)), Fr(v)) for a, b, c, v in
           re.findall(r"EOPC04Entry\(\s*(\d{4})'?(\d\d)'?(\d\d),\s*([+-]?[\d.]+)\s*\*\s*Second\)", t)]
    n04 = t.count('EOPC04Entry(')
    with open(os.path.join(REPO, 'astronomy/experimental_eop_c02.generated.h'), encoding='utf-8') as f:
        t = f.read()
    c02 = [(Fr(a), Fr(b)) for a, b in
           re.findall(r'ExperimentalEOPC02Entry\(\s*([+-]?[\d.]+),\s*([+-]?[\d.]+)\s*\*\s*Second\)', t)]
    if len(c04) != n04 or len(c02) != t.count('ExperimentalEOPC02Entry('):
        raise Broken('cannot read the EOP series')
    return c04, c02


class UT1:
    def __init__(self, c04, c02):
        # (UT1 in seconds since 2000-01-01T12:00:00, UT1 - TAI)
        m0 = Fr('51544.5')
        a = [((m - m0) * 86400, v) for m, v in c02]
        b = []
        for d, v in c04:
            t = seconds(datetime.datetime(d.year, d.month, d.day))
            b.append((t + v, v - tai_minus_utc(d, 0)))
        self.c04 = b
        self.t = [x for x in a if x[0] < b[0][0]] + b
        self.tt = [(u - (v) + TT_TAI) for u, v in self.c04]

    def tai(self, u):
        import bisect
        i = bisect.bisect_right(self.t, (u, Fr(10 ** 6))) - 1
        (a, x), (b, y) = self.t[i], self.t[i + 1]
        return u - (x + (u - a) * (y - x) / (b - a))


TURN = Fr('0.7790572732640'), Fr('0.00273781191135448')


def check_tables(c, c04, c02):
    key = 'eop'
    for (a, x), (b, y) in zip(c04, c04[1:]):
        c.obligation()
        if b - a != datetime.timedelta(1):
            c.violation('%s[%s]' % (key, b), 'astronomy/eop_c04.generated.h', 'the entry for %s follows the one for %s' % (b, a))
    u = [v - tai_minus_utc(d, 0) for d, v in c04]
    for i in range(2, len(u) - 2):
        c.obligation()
        r = abs(u[i] - (4 * (u[i - 1] + u[i + 1]) - u[i - 2] - u[i + 2]) / 6)
        y = c04[i][0].year
        bound = Fr(1, 1000) if 1984 <= y < 1995 or y in (1965, 1966) else Fr(15, 100000)
        if r > bound:
            c.violation('%s[%s, smooth]' % (key, c04[i][0]), 'astronomy/eop_c04.generated.h',
                        'UT1 - TAI on %s is %.6f s away from the curve of the neighbouring days' % (c04[i][0], r))
    for d, v in c04:
        if d.year >= 1972 and abs(v) >= Fr(9, 10):
            c.violation('%s[%s, bound]' % (key, d), 'astronomy/eop_c04.generated.h', '|UT1 - UTC| exceeds 0.9 s on %s' % d)
    for (a, x), (b, y) in zip(c02, c02[1:]):
        c.obligation()
        if b - a != 100:
            c.violation('eop_c02[%s]' % float(b), 'astronomy/experimental_eop_c02.generated.h',
                        'the entry for MJD %s follows the one for %s' % (float(b), float(a)))
    for i in range(2, len(c02) - 2):
        c.obligation()
        r = abs(c02[i][1] - (4 * (c02[i - 1][1] + c02[i + 1][1]) - c02[i - 2][1] - c02[i + 2][1]) / 6)
        if r > Fr(3, 100):
            c.violation('eop_c02[%s, smooth]' % float(c02[i][0]), 'astronomy/experimental_eop_c02.generated.h',
                        'UT1 - TAI at MJD %s is %.4f s away from the curve of its neighbours' % (float(c02[i][0]), r))
    # Where they overlap the series agree.
    ut1 = UT1(c04, c02)
    lo, hi = c04[0][0], c04[-1][0]
    for m, v in c02:
        d = datetime.date.fromordinal(int(m) + 678576)
        if lo <= d <= hi:
            c.obligation()
            w = c04[(d - lo).days][1] - tai_minus_utc(d, 0)
            if abs(w - v) > Fr(45, 1000):
                c.violation('eop[%s, C02]' % d, 'astronomy/eop_c04.generated.h',
                            'EOP C04 and the experimental EOP C02 differ by %.4f s on %s' % (abs(w - v), d))
    return ut1


def scale_jobs(ut1, c04, c02):
    e, want = {}, {}
    pre = PRELUDE_DATE.replace('namespace verif {', r'''
using namespace principia::astronomy::_time_scales;
using namespace principia::astronomy::_epoch;
using namespace principia::geometry::_instant;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace verif {
constexpr double s(Instant const& t) { return (t - J2000) / Second; }
''', 1) + r'''
namespace verif {
template<S s> concept is_utc = requires { typename std::bool_constant<(static_cast<void>(operator""_UTC(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_tt = requires { typename std::bool_constant<(static_cast<void>(operator""_TT(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_tai = requires { typename std::bool_constant<(static_cast<void>(operator""_TAI(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_gps = requires { typename std::bool_constant<(static_cast<void>(operator""_GPS(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_bdt = requires { typename std::bool_constant<(static_cast<void>(operator""_北斗(s.s, sizeof(s.s) - 1)), true)>; };
template<S s> concept is_ut1 = requires { typename std::bool_constant<(static_cast<void>(operator""_UT1(s.s, sizeof(s.s) - 1)), true)>; };
// The day and the second of an Instant.
constexpr std::array<double, 6> second(double t) {
  auto const d = TTSecond(J2000 + t * Second);
  return {TTDay(J2000 + t * Second).jd(), double(d.date().mjd()), double(d.time().hour()), double(d.time().minute()), double(d.time().second()),
          double(d.time().millisecond())};
}
}
'''
    n = [0]

    def add(what, ty, ex, w, tol):
        n[0] += 1
        k = 't%d' % n[0]
        e[k] = (ty, ex)
        want[k] = (what, w, tol)

    def tt(scale, s, w, tol=Fr(1, 10 ** 6)):
        add('"%s"_%s' % (s, scale), 'double', 'verif::s("%s"_%s)' % (s, scale), w, tol)

    # The scales without leap seconds.
    for y, m, d in ((2000, 1, 1), (1999, 12, 31), (1972, 1, 1), (1961, 1, 1), (2016, 2, 29), (1858, 11, 17), (2100, 3, 1), (1980, 1, 6)):
        for sod in (0, 43200, 86399, Fr('3723.004'), Fr('86399.999')):
            date = datetime.date(y, m, d)
            base = seconds(datetime.datetime(y, m, d)) + Fr(sod)
            for scale, off in (('TT', Fr(0)), ('TAI', TT_TAI), ('GPS', TT_TAI + 19), ('北斗', TT_TAI + 33)):
                tt(scale, show(date, sod), base + off)
    for s, w in (('JD2451545.0', 0), ('JD2451545', 0), ('MJD51544.5', 0), ('MJD0', Fr('-51544.5')), ('JD2455200.25', Fr('3655.25')),
                 ('JD0.5', Fr('-2451544.5'))):
        tt('TT', s, Fr(w) * 86400)
        tt('TAI', s, Fr(w) * 86400 + TT_TAI)
    # UTC since 1972: every month, and around every possible leap second.
    for y in range(1972, 2023):
        for m in range(1, 13):
            d = datetime.date(y, m, 1)
            tt('UTC', show(d, 0), utc(d, 0))
        for m, dd in ((6, 30), (12, 31)):
            d = datetime.date(y, m, dd)
            nxt = d + datetime.timedelta(1)
            tt('UTC', show(d, 86399), utc(d, 86399))
            tt('UTC', '%04d-%02d-%02dT24:00:00' % (y, m, dd), utc(nxt, 0))
            leap = nxt in LEAPS
            add('%s is valid' % show(d, 86400), 'int', 'verif::is_utc<"%s">' % show(d, 86400), leap, None)
            if leap:
                tt('UTC', show(d, 86400), utc(d, 86400))
                tt('UTC', show(d, Fr('86400.5')), utc(d, Fr('86400.5')))
    # UTC before 1972: around every change.
    days = {datetime.date(1961, 1, 1), datetime.date(1971, 12, 31), datetime.date(1970, 1, 1)}
    for end, _, _, _ in STRETCHY:
        d = datetime.date(*end)
        days |= {d - datetime.timedelta(1), d, d - datetime.timedelta(40)}
    steps = {datetime.date(*d) - datetime.timedelta(1): s for d, s in STEPS}
    for d in sorted(days):
        if d.year < 1972:
            for sod in (0, 30000, 86398, Fr('86398.990'), Fr('86340.990'), Fr('82799.999'), Fr('3599.999')):
                tt('UTC', show(d, sod), utc(d, sod))
            st = steps.get(d, Fr(0))
            for ms in (0, 1, 50, 99, 100, 107, 108, 899, 900, 901, 949, 950, 951, 999):
                for leap in (False, True):
                    if leap:
                        valid = st > 0 and ms < st
                    else:
                        valid = not (st < 0 and ms >= 1000 + st)
                    sod = (86400 if leap else 86399) + Fr(ms, 1000)
                    add('%s is valid' % show(d, sod), 'int', 'verif::is_utc<"%s">' % show(d, sod), valid, None)
                    if valid:
                        tt('UTC', show(d, sod), utc(d, sod))
    for d in (datetime.date(1966, 6, 30), datetime.date(1963, 9, 30)):
        add('%s is valid' % show(d, 86400), 'int', 'verif::is_utc<"%s">' % show(d, 86400), 0, None)
    for s in ('1960-12-31T23:59:59', '2023-07-01T00:00:00', '2101-01-01T00:00:00', 'JD2451545', 'MJD51544'):
        add('"%s"_UTC is valid' % s, 'int', 'verif::is_utc<"%s">' % s, 0, None)
    for scale in ('tt', 'tai', 'gps', 'bdt', 'ut1'):
        for s, w in (('2015-06-30T23:59:60', 0), ('2015-06-30T23:59:59', 1)):
            add('%s in %s is valid' % (s, scale), 'int', 'verif::is_%s<"%s">' % (scale, s), w, None)
    for s in ('JD2451545', 'MJD51544'):
        for scale in ('gps', 'bdt'):
            add('%s in %s is valid' % (s, scale), 'int', 'verif::is_%s<"%s">' % (scale, s), 0, None)
    # UT1.
    pts = []
    for i in list(range(0, len(c02), 61)) + [479, 480, 481, 482, 483]:
        m, v = c02[i]
        if (m - Fr('51544.5')) * 86400 < ut1.c04[0][0] - 200 * 86400:
            pts += [m, m + 25, m + Fr(75)]
    m0 = Fr(mjd(c04[0][0]))
    pts += [m0 - k for k in (Fr(1, 4), 1, 10, 49, 99, 101)] + [m0, m0 + Fr(1, 2), m0 + 1]
    for i in range(0, len(c04) - 2, 1571):
        pts += [Fr(mjd(c04[i][0])) + Fr(1, 4)]
    # Across leap seconds.
    for l in (LEAPS[0], LEAPS[9], LEAPS[-1]):
        pts += [Fr(mjd(l)) - Fr(1, 2), Fr(mjd(l)) + Fr(1, 2)]
    pts += [Fr(mjd(c04[-1][0])) - Fr(1, 4)]
    for p in pts:
        u = (p - Fr('51544.5')) * 86400
        tai = ut1.tai(u)
        dt = J2000 + datetime.timedelta(seconds=int(u))
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second)
        tt('UT1', s, tai + TT_TAI, Fr(2, 10 ** 5))
    for p in pts[-12:]:
        u = (p - Fr('51544.5')) * 86400
        tt('UT1', 'MJD%s' % (str(float(p))), ut1.tai(u) + TT_TAI, Fr(2, 10 ** 5))
    last = c04[-1][0]
    for s, w in (('1830-04-10T23:59:59', 0), ('1830-04-11T00:00:00', 1), (show(last + datetime.timedelta(2), 0), 0),
                 ('MJD%d' % (mjd(last) + 2), 0), ('MJD%d' % (mjd(last) + 20000), 0), ('MJD%d' % (mjd(last) - 1), 1), ('JD1.5', 0)):
        add('"%s"_UT1 is valid' % s, 'int', 'verif::is_ut1<"%s">' % s, w, None)
    # Earth rotation angle.
    for i in list(range(0, len(c04) - 2, 2711)) + [len(c04) - 3]:
        for f in (Fr(0), Fr(1, 3), Fr(99, 100)):
            t0, t1 = ut1.tt[i], ut1.tt[i + 1]
            t = Fr(float(t0 + f * (t1 - t0))) if f else Fr(float(t0 + 1))
            lam = (t - t0) / (t1 - t0)
            v0, v1 = c04[i][1], c04[i + 1][1]
            # UT1 in days since JD 2451545.0; in the interval UT1 - UTC is interpolated, without steps.
            du = mjd(c04[i][0]) - Fr('51544.5') + lam + (v0 + lam * (v1 - v0)) / 86400
            turns = TURN[0] + du + TURN[1] * du
            add('fractional turns of the Earth rotation angle at %s + %.2f d' % (c04[i][0], f), 'double',
                'principia::astronomy::_time_scales::EarthRotationAngle(J2000 + %r * Second) / Radian' % float(t), turns, 'turns')
    for t, w in (('1961-12-31T00:00:00', 0), (show(last + datetime.timedelta(2), 0), 0), ('2000-01-01T00:00:00', 1)):
        k = t.replace('T', ' ')
        add('EarthRotationAngle is defined at %s TT' % k, 'int', 'verif::has_era<"%s">' % t, w, None)
    pre = pre.replace('// The day and the second', '''template<S s> concept has_era = requires { typename std::bool_constant<(static_cast<void>(principia::astronomy::_time_scales::EarthRotationAngle(operator""_TT(s.s, sizeof(s.s) - 1))), true)>; };
// The day and the second''')
    # TTDay and TTSecond.
    import math
    for base in ((2000, 1, 1, 0), (2000, 1, 1, 43200), (2000, 1, 2, 0), (1999, 12, 31, 86399), (1951, 3, 4, 12345), (2016, 2, 29, 0), (2400, 12, 31, 1),
                 (1858, 11, 17, 0), (1970, 1, 1, 3600), (2000, 1, 1, 43201), (1, 1, 1, 5), (2000, 1, 1, 43199), (9000, 6, 6, 60)):
        b = seconds(datetime.datetime(*base[:3])) + base[3]
        f = float(b)
        for t in {f, math.nextafter(f, -1e99), math.nextafter(f, 1e99), f + 0.25, f - 0.5}:
            x = math.floor(Fr(t)) + 43200
            day, sod = x // 86400, x % 86400
            w = [day + 2451544.5, day + 51544, sod // 3600, sod // 60 % 60, sod % 60, 0]
            add('day and second of J2000 %+r s' % t, 'auto', 'verif::second(%r)' % t, w, 0)
    items = list(e.items())
    jobs = []
    m = 8
    for k in range(m):
        jobs.append(dict(includes=['astronomy/time_scales.hpp'], prelude=pre, exprs=dict(items[k::m])))
    return jobs, want


def check_runtime_parsers(c):
    """The Parse… functions apply the literal operator of their scale to the whole string."""
    u = cxx.unit('astronomy/time_scales_body.hpp')
    scales = {'ParseTAI': '_TAI', 'ParseTT': '_TT', 'ParseUTC': '_UTC', 'ParseUT1': '_UT1', 'ParseGPSTime': '_GPS', 'Parse北斗Time': '_北斗'}
    n = 0
    for f in u.functions:
        if f.name in scales and f.body is not None:
            n += 1
            c.obligation(sample={'function': f.name})
            used = {x for x in re.findall(r'_\w+', ' '.join(map(str, f.body))) if x in scales.values()}
            if used and used != {scales[f.name]}:
                c.violation('parse[%s]' % f.name, 'astronomy/time_scales_body.hpp:%d' % f.body[0].line,
                            '%s interprets its argument in the scale %s' % (f.name, '/'.join(sorted(used))))
    c.require('run-time parsers', n, 6)


SP3 = {'GPS': 'ParseGPSTime', 'GLO': 'ParseUTC', 'GAL': 'ParseGPSTime', 'TAI': 'ParseTAI', 'UTC': 'ParseUTC', 'QZS': 'ParseGPSTime',
       'BDT': 'Parse北斗Time', 'IRN': 'ParseGPSTime'}


def check_sp3(c):
    """The time system of an SP3 file [Hil16] selects the parser of that scale: the first test of an identifier wins."""
    p = 'astronomy/standard_product_3.cpp'
    seen, pending = set(), []
    for f in cxx.unit(p).functions:
        t = f.body or []
        for i, x in enumerate(t):
            if x.kind == 'str' and str(x).strip('"') in SP3 and i and t[i - 1] in ('==', 'case', '{'):
                pending.append(str(x).strip('"'))
            elif re.fullmatch(r'Parse(TAI|TT|UTC|UT1|GPSTime|北斗Time)', x) and pending:
                for k in pending:
                    if k not in seen:
                        seen.add(k)
                        c.obligation(sample={'SP3 time system': k, 'parser': str(x)})
                        if SP3[k] != x:
                            c.violation('sp3[%s]' % k, '%s:%d' % (p, x.line), 'times in the system %s are parsed by %s' % (k, x))
                pending = []
    c.coverage['SP3 time systems'] = len(seen)


def check(c):
    c04, c02 = eop()
    ut1 = check_tables(c, c04, c02)
    cj = calendar_jobs()
    pj, pwant = parse_jobs()
    sj, swant = scale_jobs(ut1, c04, c02)
    if os.environ.get('C11_ONLY'):
        cj, pj, sj = [x if k in os.environ['C11_ONLY'] else [] for k, x in (('c', cj), ('p', pj), ('s', sj))]
    vals, bad = witness.parallel(sj + cj + pj)
    hpp, tsp = 'astronomy/date_time_body.hpp', 'astronomy/time_scales_body.hpp'
    n = 0
    for j in cj:
        for k in j['exprs']:
            n += 1
            if k in bad:
                c.violation('calendar[%s]' % k, hpp, 'a valid date is rejected or its evaluation is undefined: ' + bad[k])
                continue
            v = witness.pad(vals[k], 6)
            if v[0]:
                if v[0] in (12, 13, 14):
                    c.violation('calendar[%s]' % k, hpp, 'the %s = (%d) is wrong: a date that does not exist is accepted, or one that '
                                'exists is rejected' % (WHAT[int(v[0])], v[1]))
                    continue
                c.violation('calendar[%s]' % k, hpp, 'the %s = (%g, %g, %g) is %r, but must be %r' % (
                    WHAT.get(int(v[0]), '?'), v[1], v[2], v[3], v[4], v[5]))
    c.obligation(n)
    c.coverage['years of the calendars'] = 14713
    for k, (kind, s, w) in pwant.items():
        if not any(k in j['exprs'] for j in pj):
            continue
        n += 1
        c.obligation(sample={'kind': kind, 'text': s, 'value': str(w)} if n % 97 == 0 else None)
        if k in bad:
            c.violation('parse[%s]' % s, hpp, 'the valid %s "%s" is rejected: %s' % (kind, s, bad[k]))
            continue
        v = vals[k]
        if kind == 'date':
            good, got = Fr(v[0] if v else 0) == w, v
        elif kind == 'time':
            good, got = tuple(witness.pad(v, 4)) == tuple(w), witness.pad(v, 4)
        elif kind == 'Julian date':
            v = witness.pad(v, 3)
            good, got = v[2] > 0 and v[0] + Fr(int(v[1]), int(v[2])) == w, v
        else:
            good, got = bool(v and v[0]) == bool(w), bool(v and v[0])
        if not good:
            c.violation('parse[%s]' % s, hpp, '%s: "%s" gives %s, but must give %s' % (kind, s, got, w if kind != 'valid' else bool(w)))
    for k, (what, w, tol) in swant.items():
        if not any(k in j['exprs'] for j in sj):
            continue
        n += 1
        c.obligation(sample={'what': what} if n % 101 == 0 else None)
        if k in bad:
            c.violation('scale[%s]' % what, tsp, '%s is rejected or its evaluation is undefined: %s' % (what, bad[k]))
            continue
        v = vals[k]
        if isinstance(w, list):
            v = witness.pad(v, len(w))
            if [float(x) for x in v] != [float(x) for x in w]:
                c.violation('scale[%s]' % what, tsp, 'the %s: (JD, MJD, h, min, s, ms) is %s but must be %s' % (what, v, w))
        elif tol is None:
            if bool(v and v[0]) != bool(w):
                c.violation('scale[%s]' % what, tsp, '%s: must be %s' % (what, bool(w)))
        elif tol == 'turns':
            import math
            x = (v[0] / (2 * math.pi) - float(w % 1)) % 1
            if min(x, 1 - x) > 1e-9:
                c.violation('scale[%s]' % what, tsp, 'the %s is off by %g' % (what, x))
        else:
            got = Fr(v[0]) if v else Fr(0)
            if abs(got - w) > max(tol, abs(w) / 2 ** 51):
                c.violation('scale[%s]' % what, tsp, '%s is %.6f s (TT) from J2000, but must be %.6f s' % (what, got, w))
    check_runtime_parsers(c)
    check_sp3(c)
    c.require('witnesses', n, 1000)


if __name__ == '__main__':
    vlib.main(check, 'C11', 'other', RULE)

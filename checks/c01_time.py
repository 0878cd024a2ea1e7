"""Cases: date-times (microseconds, leap days, month and year ends, before and after the reference), reference dates,
day numbers and text forms, drawn by Hypothesis. Oracle: exact integer arithmetic on microseconds (datetime/timedelta)
and the proleptic calendar; the C++ library is run on the same dates. A case is non-trivial unless the time equals
the reference."""

import calendar
import datetime
import fractions
import math

from hypothesis import strategies as st
from harness import facet, require, Violation
from support import driver

from eumopps.timeutils import timebase, datetime_numeric, datetime_dictionary
from eustace.timeutils import epoch as eustace_epoch
from eustace.timeutils.decimaltime import datetime_to_decimal_year

LOW, HIGH = datetime.datetime(1700, 1, 1), datetime.datetime(2299, 12, 31, 23, 59, 59, 999999)
US = datetime.timedelta(microseconds=1)
DAY_US = 86400 * 10 ** 6


def edges():
    """Times near month ends, year ends, leap days and midnights."""
    return st.builds(lambda y, m, back, us: datetime.datetime(y, m, 1) + datetime.timedelta(days=back, microseconds=us),
                     st.integers(1701, 2298), st.integers(1, 12), st.integers(-2, 1),
                     st.sampled_from([0, 0, 1, -1, 999999, 500000, 1000000, -1000000, 86399999999, 43200000000]))


micro = st.one_of(st.datetimes(LOW, HIGH), edges())
whole = micro.map(lambda t: t.replace(microsecond=0))
days = micro.map(lambda t: t.replace(hour=0, minute=0, second=0, microsecond=0))


def elapsed_us(a, b):
    return (a - b) // US


def shift(t, us):
    try:
        return t + datetime.timedelta(microseconds=us)
    except OverflowError:
        return t


@facet(st.tuples(st.one_of(micro, whole, days), st.one_of(micro, whole, days, st.just(datetime.datetime(1850, 1, 1))), st.integers(0, 3 * DAY_US)), quick=1500, thorough=60000)
def day_numbers(case):
    """days since a reference: true elapsed days, inverse, order"""
    t, ref, later = case
    base = timebase.TimeBaseDays(ref)
    n = base.datetime_to_number(t)
    exact = fractions.Fraction(elapsed_us(t, ref), DAY_US)
    require(abs(fractions.Fraction(float(n)) - exact) <= fractions.Fraction(1, 10 ** 9), 'days from %s to %s: %r, true value %r', ref, t, n, float(exact))
    if exact.denominator == 1:
        require(n == int(exact), 'whole days from %s to %s: %r instead of %d', ref, t, n, int(exact))
    back = base.number_to_datetime(n)
    require(abs(elapsed_us(back, t)) <= 100, 'day number of %s since %s converts back to %s', t, ref, back)
    if t.microsecond == 0 and ref.microsecond == 0 and exact.denominator in (1, 2, 4, 8):
        require(back == t, 'day number of %s since %s converts back to %s', t, ref, back)
    t2 = shift(t, later)
    n2 = base.datetime_to_number(t2)
    require(n2 >= n, '%s is later than %s but has smaller day number %r < %r', t2, t, n2, n)
    units = base.units()
    require(units == 'days since %d-%02d-%02d %02d:%02d:%02d UTC' % (ref.year, ref.month, ref.day, ref.hour, ref.minute, ref.second), 'units %r for reference %s', units, ref)
    return t != ref


@facet(st.tuples(st.one_of(micro, whole), st.one_of(whole, days), st.integers(0, 3 * DAY_US), st.integers(-6 * 10 ** 9, 6 * 10 ** 9)), quick=1500, thorough=60000)
def second_numbers(case):
    """seconds since a reference: whole seconds elapsed, exact inverse, order"""
    t, ref, later, number = case
    base = timebase.TimeBaseSeconds(ref)
    n = base.datetime_to_number(t)
    require(int(n) == elapsed_us(t, ref) // 10 ** 6, 'seconds from %s to %s: %r', ref, t, n)
    require(base.number_to_datetime(n) == t.replace(microsecond=0), 'second number of %s since %s converts back to %s', t, ref, base.number_to_datetime(n))
    t2 = shift(t, later)
    require(base.datetime_to_number(t2) >= n, '%s is later than %s but has a smaller second number', t2, t)
    ref0 = datetime.datetime(2000, 1, 1)
    base0 = timebase.TimeBaseSeconds(ref0)
    d = base0.number_to_datetime(number)
    require(d == ref0 + datetime.timedelta(seconds=number), 'second number %d since %s converts to %s', number, ref0, d)
    require(int(base0.datetime_to_number(d)) == number, 'second number %d becomes %s', number, base0.datetime_to_number(d))
    require(base.units() == 'seconds since %d-%02d-%02d %02d:%02d:%02d UTC' % (ref.year, ref.month, ref.day, ref.hour, ref.minute, ref.second), 'units %r for reference %s', base.units(), ref)
    return t != ref


def year_bounds(t):
    return datetime.datetime(t.year, 1, 1), datetime.datetime(t.year + 1, 1, 1)


def month_bounds(t):
    return datetime.datetime(t.year, t.month, 1), datetime.datetime(t.year + (t.month == 12), t.month % 12 + 1, 1)


@facet(st.tuples(st.one_of(micro, whole, days), st.integers(1700, 2298), st.integers(0, 400 * DAY_US), st.integers(-300, 300)), quick=1000, thorough=40000)
def year_numbers(case):
    """years since a reference: whole years plus true fraction of the year, inverse, order"""
    t, refyear, later, number = case
    ref = datetime.datetime(refyear, 1, 1)
    base = timebase.TimeBaseAnnual(ref)
    n = float(base.datetime_to_number(t))
    start, end = year_bounds(t)
    exact = (t.year - refyear) + elapsed_us(t, start) / float(elapsed_us(end, start))
    require(abs(n - exact) < 1e-9, 'years from %s to %s: %r, true value %r', ref, t, n, exact)
    back = base.number_to_datetime(n)
    require(abs((back - t).total_seconds()) <= 0.01, 'year number of %s since %d converts back to %s', t, refyear, back)
    t2 = shift(t, later)
    if t2.year < 2299:
        require(float(base.datetime_to_number(t2)) >= n, '%s is later than %s but has a smaller year number', t2, t)
    start_of = datetime.datetime(2000 + number, 1, 1)
    base0 = timebase.TimeBaseAnnual(datetime.datetime(2000, 1, 1))
    require(base0.datetime_to_number(start_of) == number, 'start of %d is year number %r', 2000 + number, base0.datetime_to_number(start_of))
    require(base0.number_to_datetime(number) == start_of, 'year number %d is %s', number, base0.number_to_datetime(number))
    if t.day != 1:
        try:
            timebase.TimeBaseAnnual(t.replace(microsecond=0))
        except ValueError:
            pass
        else:
            raise Violation('reference %s not at the start of a year accepted' % t)
    return t != ref


@facet(st.tuples(st.one_of(micro, whole, days), st.integers(1700, 2298), st.integers(1, 12), st.integers(0, 100 * DAY_US), st.integers(-3000, 3000)), quick=1000, thorough=40000)
def month_numbers(case):
    """months since a reference: whole months plus true fraction of the month, inverse, order"""
    t, refyear, refmonth, later, number = case
    ref = datetime.datetime(refyear, refmonth, 1)
    base = timebase.TimeBaseMonthly(ref)
    n = float(base.datetime_to_number(t))
    start, end = month_bounds(t)
    exact = (t.year - refyear) * 12 + t.month - refmonth + elapsed_us(t, start) / float(elapsed_us(end, start))
    require(abs(n - exact) < 1e-9, 'months from %s to %s: %r, true value %r', ref, t, n, exact)
    back = base.number_to_datetime(n)
    require(abs((back - t).total_seconds()) <= 0.01, 'month number of %s since %s converts back to %s', t, ref, back)
    t2 = shift(t, later)
    require(float(base.datetime_to_number(t2)) >= n, '%s is later than %s but has a smaller month number', t2, t)
    start_of = datetime.datetime(2000 + number // 12, number % 12 + 1, 1)
    base0 = timebase.TimeBaseMonthly(datetime.datetime(2000, 1, 1))
    require(base0.datetime_to_number(start_of) == number, 'start of %s is month number %r', start_of, base0.datetime_to_number(start_of))
    require(base0.number_to_datetime(number) == start_of, 'month number %d is %s', number, base0.number_to_datetime(number))
    if t.day != 1:
        try:
            timebase.TimeBaseMonthly(t.replace(microsecond=0))
        except ValueError:
            pass
        else:
            raise Violation('reference %s not at the start of a month accepted' % t)
    return t != ref


@facet(st.tuples(st.one_of(micro, whole, days), st.integers(-50000, 160000)), quick=1000, thorough=40000)
def epoch_and_decimal_years(case):
    """days and seconds since 1850-01-01, decimal years"""
    t, number = case
    ref = datetime.datetime(1850, 1, 1)
    n = eustace_epoch.days_since_epoch(t)
    require(abs(fractions.Fraction(float(n)) - fractions.Fraction(elapsed_us(t, ref), DAY_US)) <= fractions.Fraction(1, 10 ** 9), 'days since epoch of %s: %r', t, n)
    require(abs(elapsed_us(eustace_epoch.epoch_plus_days(n), t)) <= 100, 'days since epoch of %s convert back to %s', t, eustace_epoch.epoch_plus_days(n))
    day = eustace_epoch.epoch_plus_days(number)
    require(day == ref + datetime.timedelta(days=number), 'epoch plus %d days: %s', number, day)
    require(eustace_epoch.days_since_epoch(day) == number, 'day number %d becomes %r', number, eustace_epoch.days_since_epoch(day))
    s = eustace_epoch.seconds_since_epoch(t)
    require(int(s) == elapsed_us(t, ref) // 10 ** 6, 'seconds since epoch of %s: %r', t, s)
    require(eustace_epoch.epoch_plus_seconds(s) == t.replace(microsecond=0), 'seconds since epoch of %s convert back to %s', t, eustace_epoch.epoch_plus_seconds(s))
    start, end = year_bounds(t)
    exact = t.year + elapsed_us(t, start) / float(elapsed_us(end, start))
    for kind in (timebase.TimeBaseAnnual, timebase.TimeBaseMonthly):
        require(abs(kind.year_fraction(t) - (exact - t.year)) < 1e-9, 'fraction of the year at %s: %r, true value %r', t, kind.year_fraction(t), exact - t.year)
    start, end = month_bounds(t)
    fraction = elapsed_us(t, start) / float(elapsed_us(end, start))
    require(abs(timebase.TimeBaseMonthly.month_fraction(t) - fraction) < 1e-9, 'fraction of the month at %s: %r, true value %r', t, timebase.TimeBaseMonthly.month_fraction(t), fraction)
    require(abs(float(datetime_to_decimal_year(t)) - exact) < 1e-9, 'decimal year of %s: %r, true value %r', t, datetime_to_decimal_year(t), exact)
    return t != ref


FIELDS = ['%Y', '%m', '%d', '%H', '%M', '%S']
literal = st.text(alphabet='abcXYZ019_-./ {}', max_size=5)


@facet(st.tuples(st.one_of(whole, micro), st.lists(st.one_of(st.sampled_from(FIELDS), literal), max_size=10), st.sets(st.sampled_from(['hour', 'minute', 'second'])), st.sampled_from(['day', 'month', 'year', 'none']), st.booleans()), quick=1000, thorough=40000)
def text_forms(case):
    """numeral strings, date patterns and date dictionaries"""
    instant, pattern, optional, least, padded = case
    t = instant.replace(microsecond=0)
    text = datetime_numeric.build(instant)
    require(text == '%04d%02d%02d%02d%02d%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second), 'numeral form of %s: %r', t, text)
    require(datetime_numeric.parse(text) == t, 'numeral form %r parsed as %s', text, datetime_numeric.parse(text))
    values = {'%Y': '%04d' % t.year, '%m': '%02d' % t.month, '%d': '%02d' % t.day, '%H': '%02d' % t.hour, '%M': '%02d' % t.minute, '%S': '%02d' % t.second}
    built = datetime_numeric.build_from_pattern(''.join(pattern), instant)
    require(built == ''.join(values.get(p, p) for p in pattern), 'pattern %r at %s: %r', pattern, t, built)
    # dictionaries of text
    keep = {'day': ['year', 'month', 'day'], 'month': ['year', 'month'], 'year': ['year'], 'none': []}[least]
    d = {k: ('%02d' if padded else '%d') % getattr(t, k) for k in keep}
    if least == 'day':
        d.update({k: str(getattr(t, k)) for k in optional})
    d['unrelated'] = 'tag'
    parsed = datetime_dictionary.parse(d)
    if least == 'none':
        require(parsed is None, 'dictionary without date parsed as %s', parsed)
    else:
        expected = datetime.datetime(t.year, t.month if 'month' in d else 1, t.day if 'day' in d else 1, **{k: getattr(t, k) for k in optional if k in d})
        require(parsed == expected, 'date dictionary %s parsed as %s', d, parsed)
    return True


@facet(st.tuples(days, st.one_of(days, st.just(datetime.datetime(1850, 1, 1))), st.integers(-40000, 160000)), quick=1500, thorough=60000)
def cpp_agrees(case):
    """C++ day numbers and calendar days against the calendar and the Python library"""
    t, ref, number = case
    answer = driver('number', t.year, t.month, t.day, ref.year, ref.month, ref.day)
    require(answer is not None, 'C++ process died')
    require(answer == [str((t - ref).days)], 'C++ days from %s to %s: %s instead of %d', ref, t, answer, (t - ref).days)
    answer = driver('time', (t - ref).days, ref.year, ref.month, ref.day)
    require(answer == [datetime_numeric.build(t)[:8]], 'C++ date %d days after %s: %s instead of %s', (t - ref).days, ref, answer, t)
    day = eustace_epoch.epoch_plus_days(number)
    text = datetime_numeric.build(day)[:8]
    answer = driver('epoch', number)
    require(answer == ['%s %d' % (text, number)], 'C++ date and number for day %d: %s instead of %s', number, answer, text)
    answer = driver('text', text)
    require(answer == ['%s %d %d %d' % (text, day.year, day.month, day.day)], 'C++ parse of %s: %s', text, answer)
    return t != ref

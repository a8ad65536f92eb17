"""Time conversions against integer civil-calendar arithmetic"""
import datetime
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, raises, require, same

T = gravtk.time
ASSUMPTIONS = ['dates of the Gregorian calendar from 1583 to 3999 (Julian calendar dates '
    'before it for Julian days)', 'years divisible by 4000 are not leap years',
    'epochs and date strings have whole seconds']
UNIX_JD = 2440587.5
UNIX_MJD = 40587
SEC = {name: value for names, value in (
    ('microseconds microsecond microsec microsecs', 1e-6),
    ('milliseconds millisecond millisec millisecs msec msecs ms', 1e-3),
    ('seconds second sec secs s', 1.0), ('minutes minute min mins', 60.0),
    ('hours hour hr hrs h', 3600.0), ('days day d', 86400.0),
    ('mon month months', 30*86400.0), ('common_year common_years', 365*86400.0),
    ('year years', 365.25*86400.0)) for name in names.split()}


@st.composite
def dates(draw, lo=1583, hi=3999, time=True):
    y = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, 1998), min(hi, 2030)),
        st.sampled_from([v for v in (1600, 1700, 1900, 1999, 2000, 2001, 2004, 2100,
        2400, 1583) if lo <= v <= hi])))
    m = draw(st.integers(1, 12))
    n = oracle.month_lengths(y)[m - 1]
    d = draw(st.one_of(st.integers(1, n), st.sampled_from([1, n])))
    if not time:
        return [y, m, d]
    h = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 23])))
    mi = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    s = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59])))
    return [y, m, d, h, mi, s]


def days(d):
    """days since 1970-01-01 as (integer day, seconds)"""
    y, m, dd, *r = d
    h, mi, s = (list(r) + [0, 0, 0])[:3]
    return oracle.days_from_civil(y, m, dd), 3600*h + 60*mi + s


s_list = st.lists(dates(), min_size=1, max_size=8)


# --------------------------------------------------------------- calendars
def b_days(case, ctx):
    y = case['year']
    want = oracle.month_lengths(y if y % 4000 else 1900)
    for arg in (y, float(y), np.int64(y), np.float64(y)):
        same(np.asarray(T.calendar_days(arg)).astype(int), np.array(want),
            f'days per month of {y}')
    ctx.nontrivial(y % 4 == 0 or y % 100 == 0)


@st.composite
def s_days(draw):
    return dict(year=draw(st.one_of(st.integers(1, 9999), st.integers(1, 99).map(
        lambda k: 100*k), st.sampled_from([4000, 8000, 2000, 1900, 2004]))))


# ---------------------------------------------------------- decimal years
def b_decimal(case, ctx):
    D = case['dates']
    cols = [np.array(c) for c in zip(*D)]
    how = case['how']
    what = f'decimal year {how}'
    if how == 'full':
        got = T.convert_calendar_decimal(cols[0], cols[1], day=cols[2], hour=cols[3],
            minute=cols[4], second=cols[5])
        want = [oracle.decimal_year(*d) for d in D]
    elif how == 'day':
        got = T.convert_calendar_decimal(cols[0], cols[1], day=cols[2])
        want = [oracle.decimal_year(*d[:3]) for d in D]
    elif how == 'hour':
        got = T.convert_calendar_decimal(cols[0].astype(float), cols[1].astype(float),
            day=cols[2], hour=cols[3] + cols[4]/60.0)
        want = [oracle.decimal_year(*d[:5]) for d in D]
    elif how == 'month':
        got = T.convert_calendar_decimal(cols[0], cols[1])
        want = []
        for d in D:
            L = oracle.month_lengths(d[0])
            want.append(d[0] + (sum(L[:d[1] - 1]) + L[d[1] - 1]/2)/sum(L))
    else:
        doy = np.array([days(d)[0] - oracle.days_from_civil(d[0], 1, 1) + 1 for d in D])
        got = T.convert_calendar_decimal(cols[0], cols[1], DofY=doy)
        want = [oracle.decimal_year(*d[:3]) for d in D]
    same(np.shape(got), (len(D),), f'{what}: shape')
    # within 10 ms
    close(got, np.array(want), what, rtol=0, atol=3e-12*2000)
    # single values agree with arrays
    d = D[0]
    one = dict(full=lambda: T.convert_calendar_decimal(d[0], d[1], day=d[2], hour=d[3],
        minute=d[4], second=d[5]), day=lambda: T.convert_calendar_decimal(d[0], d[1],
        day=d[2]), month=lambda: T.convert_calendar_decimal(d[0], d[1]))
    if how in one:
        v = one[how]()
        require(np.size(v) == 1, f'{what}: size of a single value')
        same(float(np.squeeze(v)), float(got[0]), f'{what}: single value')
    # decimal years grow with the date and stay in their own year
    if how == 'full':
        order = sorted(range(len(D)), key=lambda i: days(D[i]))
        require(all(got[a] <= got[b] for a, b in zip(order[:-1], order[1:])),
            f'{what}: not increasing')
        same(np.floor(got + 1e-10).astype(int), cols[0], f'{what}: year')
    ctx.nontrivial(any(d[1] > 2 for d in D))
    ctx.label(how)


@st.composite
def s_decimal(draw):
    return dict(dates=draw(s_list),
        how=draw(st.sampled_from(['full', 'day', 'hour', 'month', 'doy'])))


# --------------------------------------------------------- days since epochs
def epoch_forms(e, form):
    if form == 'tuple':
        return tuple(e)
    if form == 'list':
        return list(e)
    if form == 'string':
        return '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(*e)
    return np.datetime64('{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(*e))


NAMED = dict(_mjd_epoch=(1858, 11, 17, 0), _ntp_epoch=(1900, 1, 1, 0), _unix_epoch=(1970, 1, 1, 0),
    _gps_epoch=(1980, 1, 6, 0), _j2000_epoch=(2000, 1, 1, 12))


@st.composite
def s_epoch(draw):
    return dict(dates=draw(s_list), e1=draw(dates(1700, 2260)), e2=draw(dates(1700, 2260)),
        form=draw(st.sampled_from(['tuple', 'list', 'string', 'datetime64'])),
        scale=draw(st.sampled_from([1.0, 24.0, 86400.0, 1/365.25])),
        default=draw(st.booleans()))


def b_epoch(case, ctx):
    D = case['dates']
    c = [np.array(x, dtype=float) for x in zip(*D)]
    e, scale = case['e1'], case['scale']
    kw = dict(epoch=epoch_forms(e, case['form']), scale=scale)
    ed = days(e)
    if case['default']:
        kw, ed, scale = {}, (oracle.days_from_civil(1992, 1, 1), 0), 1.0
    got = T.convert_calendar_dates(*c, **kw)
    want = [((days(d)[0] - ed[0]) + (days(d)[1] - ed[1])/86400.0)*scale for d in D]
    # 0.2 ms
    close(got, np.array(want), 'days since an epoch', rtol=0, atol=2e-9*scale)
    one = T.convert_calendar_dates(*[float(v) for v in D[0]], **kw)
    same(np.shape(one), (), 'scalar date')
    close(float(one), float(got[0]), 'scalar and array dates', rtol=0, atol=1e-9*scale)
    intd = T.convert_calendar_dates(*[int(v) for v in D[0]], **kw)
    close(float(intd), float(got[0]), 'integer dates', rtol=0, atol=1e-9*scale)
    dd = T.convert_calendar_dates(c[0], c[1], c[2], **kw)
    wd = [((days(d)[0] - ed[0]) - ed[1]/86400.0)*scale for d in D]
    close(dd, np.array(wd), 'days of dates without times', rtol=0, atol=2e-9*scale)
    # seconds between epochs
    e2 = case['e2']
    f2 = epoch_forms(e2, case['form'])
    f1 = epoch_forms(e, case['form'])
    dt = np.array([86400.0*(days(d)[0] - days(e)[0]) + days(d)[1] - days(e)[1]
        for d in D])
    diff = 86400.0*(days(e2)[0] - days(e)[0]) + days(e2)[1] - days(e)[1]
    conv = T.convert_delta_time(dt, epoch1=f1, epoch2=f2, scale=case['scale'])
    close(conv, case['scale']*(dt - diff), 'time since another epoch', rtol=1e-14,
        atol=1e-9)
    back = T.convert_delta_time(conv/case['scale'], epoch1=f2, epoch2=f1)
    close(back, dt, 'time since the first epoch', rtol=1e-12, atol=1e-4)
    one = T.convert_delta_time(float(dt[0]), epoch1=f1, epoch2=f2, scale=case['scale'])
    close(one, conv[0], 'scalar delta time', rtol=1e-14, atol=1e-9)
    # numpy dates
    n64 = np.array([epoch_forms(d, 'datetime64') for d in D])
    got = T.convert_datetime(n64, epoch=f1)
    same(got, dt, 'seconds of numpy dates')
    unix = np.array([86400.0*days(d)[0] + days(d)[1] for d in D])
    same(T.convert_datetime(n64), unix, 'seconds since the default epoch')
    same(float(T.convert_datetime(n64[0], epoch=f1)), float(dt[0]), 'scalar numpy date')
    # named epochs
    for name, ymd in NAMED.items():
        ep = getattr(T, name)
        s0 = 86400.0*oracle.days_from_civil(*ymd[:3]) + 3600.0*ymd[3]
        conv = T.convert_delta_time(dt, epoch1=f1, epoch2=ep)
        close(conv, 86400.0*days(e)[0] + days(e)[1] + dt - s0, f'seconds since {name}', rtol=1e-14, atol=1e-4)
    ctx.nontrivial(e != e2)
    ctx.label(case['form'])


# -------------------------------------------------------------- julian days
@st.composite
def s_julian(draw):
    return dict(dates=draw(s_list), fmt=draw(st.sampled_from(['dict', 'tuple', 'zip'])),
        astype=draw(st.sampled_from([None, 'i8', 'f8'])), scalar=draw(st.booleans()),
        old=draw(st.integers(1, 2299160)))


def b_julian(case, ctx):
    D = case['dates']
    JD = np.array([days(d)[0] + UNIX_JD + days(d)[1]/86400.0 for d in D])
    kw = dict(format=case['fmt'])
    if case['astype']:
        kw['astype'] = case['astype']
    names = ('year', 'month', 'day', 'hour', 'minute', 'second')

    def unpack(out):
        if case['fmt'] == 'dict':
            same(sorted(out), sorted(names), 'names')
            return [np.asarray(out[k]) for k in names]
        if case['fmt'] == 'zip':
            return [np.array(k) for k in zip(*out)]
        return [np.asarray(k) for k in out]
    arg = JD.copy()
    got = unpack(T.convert_julian(arg, **kw))
    same(arg, JD, 'input of convert_julian')
    whole = T.convert_julian(JD, format='tuple')
    for a, b, k in zip(got, whole, names):
        want = b.astype(case['astype']) if case['astype'] else b
        same(a, want, f'{k} ({kw})')
        require(case['astype'] is None or a.dtype == np.dtype(case['astype']),
            f'type of {k}: {a.dtype}')
    for i, d in enumerate(D):
        y, m, dd, h, mi, s = (float(k[i]) for k in whole)
        require(y == int(y) and 1 <= m <= 12 and 0 <= h < 24 and 0 <= mi < 60 and
            -1e-9 <= s < 60 and m == int(m) and dd == int(dd) and h == int(h) and
            mi == int(mi) and 1 <= dd <= oracle.month_lengths(int(y))[int(m) - 1],
            f'calendar date of julian day {JD[i]!r}: {[y, m, dd, h, mi, s]}')
        t = (oracle.days_from_civil(int(y), int(m), int(dd)) - days(d)[0])*86400.0 \
            + 3600*h + 60*mi + s - days(d)[1]
        require(abs(t) < 1e-3, f'{d} -> julian day -> {[y, m, dd, h, mi, s]}')
    if case['scalar']:
        out = T.convert_julian(float(JD[0]), format='tuple')
        same([float(v) for v in out], [float(k[0]) for k in whole], 'scalar julian day')
        require(all(np.ndim(v) == 0 for v in out), 'scalar julian day: dimensions')
    # whole days
    days0 = np.array([float(days(d)[0]) for d in D]) + UNIX_JD
    y, m, dd, h, mi, s = T.convert_julian(days0, format='tuple')
    for i, d in enumerate(D):
        same([y[i], m[i], dd[i], h[i], mi[i], s[i]], [float(v) for v in d[:3]] + [0.0]*3,
            f'whole julian day of {d[:3]}')
    # julian calendar (proleptic arithmetic of days 1461 per 4 years)
    J = case['old']
    y, m, dd, *_ = T.convert_julian(J - 0.5, format='tuple')
    c = J + 32082
    dq = (4*c + 3)//1461
    e = c - (1461*dq)//4
    mm = (5*e + 2)//153
    same([int(y), int(m), int(dd)], [dq - 4800 + mm//10, mm + 3 - 12*(mm//10),
        e - (153*mm + 2)//5 + 1], f'julian calendar date of day {J}')
    ctx.nontrivial(len(D) > 1)


def b_round(case, ctx):
    """decimal year -> julian day -> calendar date is the identity"""
    D = [d for d in case['dates']]
    c = [np.array(x) for x in zip(*D)]
    t = T.convert_calendar_decimal(c[0], c[1], day=c[2], hour=c[3], minute=c[4],
        second=c[5])
    jd = T.calendar_to_julian(t)
    want = np.array([days(d)[0] + UNIX_JD + days(d)[1]/86400.0 for d in D])
    close(jd, want, 'julian day of a decimal year', rtol=0, atol=2e-9*1.0 + 4e-10*366)
    same(np.shape(jd), (len(D),), 'shape of julian days')
    one = T.calendar_to_julian(float(t[0]))
    same(float(one), float(np.ravel(jd)[0]), 'scalar julian day')
    mid = T.convert_calendar_decimal(c[0], c[1])
    y, m, *_ = T.convert_julian(T.calendar_to_julian(mid), format='tuple')
    same(np.array(y).astype(int), c[0], 'year of the middle of a month')
    same(np.array(m).astype(int), c[1], 'month of the middle of a month')
    # modified julian days
    mjd = T.convert_calendar_dates(*[k.astype(float) for k in c], epoch=T._mjd_epoch)
    close(mjd + 2400000.5, want, 'modified julian days', rtol=0, atol=2e-9)
    y, m, dd, h, mi, s = T.convert_julian(mjd + 2400000.5, format='tuple')
    for i, d in enumerate(D):
        tt = (oracle.days_from_civil(int(y[i]), int(m[i]), int(dd[i])) - days(d)[0])*86400.0 \
            + 3600*h[i] + 60*mi[i] + s[i] - days(d)[1]
        require(abs(tt) < 1e-3, f'{d} -> modified julian day -> calendar')
    ctx.nontrivial(len(D) > 1)


@st.composite
def s_round(draw):
    return dict(dates=draw(s_list))


# -------------------------------------------------------------------- strings
@st.composite
def s_string(draw):
    return dict(date=draw(dates(1000, 3999)), unit=draw(st.sampled_from(sorted(SEC))),
        tz=draw(st.sampled_from(['', 'Z', '+00:00', '+02:00', '-05:30', ' UTC'])),
        sep=draw(st.sampled_from(['T', ' '])), upper=draw(st.booleans()),
        style=draw(st.sampled_from(['full', 'full', 'date', 'compact', 'minutes'])),
        frac=draw(st.sampled_from(['', '', '.0', '.25'])), bad=draw(st.sampled_from(
        ['fortnights', 'lightyears', 'dys'])))


def b_string(case, ctx):
    d = list(case['date'])
    y, m, dd, h, mi, s = d
    style, tz = case['style'], case['tz']
    if style == 'date':
        text, d[3:], tz = f'{y:04d}-{m:02d}-{dd:02d}', [0, 0, 0], ''
    elif style == 'compact':
        text, tz = f'{y:04d}{m:02d}{dd:02d}T{h:02d}{mi:02d}{s:02d}', tz.strip(' UTC')
    elif style == 'minutes':
        text, d[5] = f'{y:04d}-{m:02d}-{dd:02d}{case["sep"]}{h:02d}:{mi:02d}', 0
    else:
        text = f'{y:04d}-{m:02d}-{dd:02d}{case["sep"]}{h:02d}:{mi:02d}:{s:02d}' \
            + case['frac']
    text += tz
    off = {'+02:00': 120, '-05:30': -330}.get(tz, 0)
    want = datetime.datetime(*d) - datetime.timedelta(minutes=off)
    got = T.parse(text)
    require(got.tzinfo is None, f'{text}: time zone information kept')
    same(got.replace(microsecond=0), want, f'date of {text!r}')
    lst = [want.year, want.month, want.day, want.hour, want.minute, want.second]
    same(T.datetime_to_list(got), lst, f'list of {text!r}')
    e, f = T.parse_date_string(text)
    same(e, lst, f'epoch of {text!r}')
    same(f, 0.0, f'units of {text!r}')
    unit = case['unit'].upper() if case['upper'] else case['unit']
    full = f'{unit} since {text}'
    e, f = T.parse_date_string(full)
    same(e, lst, f'epoch of {full!r}')
    close(f, SEC[case['unit']], f'units of {full!r}', rtol=1e-15)
    u, e = T.split_date_string(full)
    same(u, case['unit'], f'units of {full!r}')
    same(e.replace(microsecond=0), want, f'epoch of {full!r}')
    require(raises(lambda: T.parse_date_string(f'{case["bad"]} since {text}'),
        ValueError), 'invalid units are not an error')
    require(raises(lambda: T.split_date_string('days'), ValueError),
        'invalid date strings are not an error')
    # a delta time of the units is that many seconds after the epoch
    n = 3.0
    sec = T.convert_delta_time(n*f, epoch1=T.parse_date_string(full)[0],
        epoch2=(2000, 1, 1, 0, 0, 0)) if 1700 < want.year < 2200 else None
    if sec is not None:
        ref = (want - datetime.datetime(2000, 1, 1)).total_seconds() + n*SEC[case['unit']]
        close(sec, ref, 'seconds of a parsed date string', rtol=1e-13, atol=1e-6)
    ctx.nontrivial(True)
    ctx.label(style, tz)


CHECKS = [
    Check('month_lengths', s_days, b_days, quick=400, thorough=9000,
        rule='year divisible by 4 or 100'),
    Check('decimal_years', s_decimal, b_decimal, quick=1500, thorough=30000,
        rule='a date after February'),
    Check('epochs', s_epoch, b_epoch, quick=800, thorough=16000,
        rule='epochs differ'),
    Check('julian_days', s_julian, b_julian, quick=1000, thorough=20000,
        rule='more than one date'),
    Check('round_trips', s_round, b_round, quick=800, thorough=16000,
        rule='more than one date'),
    Check('date_strings', s_string, b_string, quick=800, thorough=16000,
        rule='every case'),
]

"""GRACE month numbers: bijection with calendar months and special months"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, require, same

T = gravtk.time
ASSUMPTIONS = ['series are in time order', 'special months are adjusted where the series '
    'holds both overlapping solutions and their neighbouring months']


# --------------------------------------------------------------- numbering
@st.composite
def s_number(draw):
    return dict(months=draw(st.lists(st.integers(-5000, 24000), min_size=1, max_size=20)),
        frac=draw(st.floats(0.1, 0.9)), kind=draw(st.sampled_from(['i8', 'i4', 'f8'])))


def b_number(case, ctx):
    k = np.array(case['months'], dtype=np.int64)
    y = 2002 + (k - 1)//12
    m = (k - 1) % 12 + 1
    ya, ma = y.astype(case['kind']), m.astype(case['kind'])
    got = T.calendar_to_grace(ya, month=ma)
    same(np.asarray(got), k, 'month numbers of calendar months')
    require(np.issubdtype(np.asarray(got).dtype, np.integer), 'month numbers are not integers')
    yy, mm = T.grace_to_calendar(k)
    same(np.asarray(yy).astype(int), y, 'years of month numbers')
    same(np.asarray(mm).astype(int), m, 'calendar months of month numbers')
    same(np.asarray(T.calendar_to_grace(yy, month=mm)), k, 'month -> calendar -> month')
    same(int(T.calendar_to_grace(int(y[0]), month=int(m[0]))), int(k[0]), 'scalar month')
    a, b = T.grace_to_calendar(int(k[0]))
    same([int(a), int(b)], [int(y[0]), int(m[0])], 'scalar calendar date')
    # the following month is one higher
    ny, nm = np.where(m == 12, y + 1, y), m % 12 + 1
    same(np.asarray(T.calendar_to_grace(ny, month=nm)), k + 1, 'following months')
    # decimal dates inside of the month
    t = y + (m - 1 + case['frac'])/12.0
    same(np.asarray(T.calendar_to_grace(t)), k, 'months of decimal dates')
    ok = (y > 0)
    if ok.any():
        mid = np.array([oracle.decimal_year(int(a), int(b), 1 + n//2, 12*(n % 2))
            for a, b in zip(y[ok], m[ok])
            for n in [oracle.month_lengths(int(a))[int(b) - 1]]])
        same(np.asarray(T.calendar_to_grace(mid)), k[ok], 'months of mid-month dates')
        same(np.asarray(T.calendar_to_grace(T.convert_calendar_decimal(y[ok], m[ok]))),
            k[ok], 'months of the mid-month dates of the library')
        same(int(T.calendar_to_grace(float(mid[0]))), int(k[ok][0]), 'scalar date')
    # whole numbers of months with other rounding
    same(np.asarray(T.calendar_to_grace(t, month=1, around=np.ceil)), k + 1, 'rounding up')
    same(np.asarray(T.calendar_to_grace(y + (m - 1)/12.0 + 1e-4, month=1,
        around=np.round)), k, 'rounding to nearest')
    ctx.nontrivial(len(set(case['months'])) > 1)


# ------------------------------------------------------------ special months
# months without solutions
GAPS = [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172,
    177, 178, 182] + list(range(187, 198)) + [200, 201]
BASE = [k for k in range(4, 270) if k not in GAPS]
# month in which the solution of a special month is centered
SPECIAL = dict(CSR={119: 118, 120: 120, 161: 160}, GFZ={119: 118, 161: 160},
    JPL={120: 121, 119: 118, 161: 160}, GSFC={202: 203, 161: 160}, plain={})


@st.composite
def s_special(draw):
    a = draw(st.integers(0, len(BASE) - 12))
    where = draw(st.sampled_from([None, 119, 161, 202]))
    if where is not None:
        i = BASE.index(where)
        a = max(0, i - draw(st.integers(2, 12)))
    return dict(centre=draw(st.sampled_from(sorted(SPECIAL))), start=a,
        n=draw(st.integers(8, 40)), drop=draw(st.lists(st.integers(0, 40), max_size=6)),
        kind=draw(st.sampled_from(['i8', 'i4', 'i2'])), where=where,
        end=draw(st.sampled_from([None, None, 119, 121, 161, 203])))


def b_special(case, ctx):
    sp = SPECIAL[case['centre']]
    months = BASE[case['start']:case['start'] + case['n']]
    near = [k for s, c in sp.items() for k in range(min(s, c) - 3, max(s, c) + 4)]
    months = [k for i, k in enumerate(months) if i not in case['drop'] or k in near]
    if case['end'] is not None:
        months = [k for k in months if k <= case['end']]
    # both of the overlapping solutions and an earlier month are present
    # (the series may end with them)
    for s, c in sp.items():
        lo, hi = min(s, c), max(s, c)
        if s == c:
            continue
        if (lo in months) != (hi in months) or (lo in months and months[0] >= lo):
            months = [k for k in months if k not in (lo, hi)]
    if 202 in months and case['centre'] == 'GSFC' and 204 not in months:
        months = [k for k in months if k < 204]
    if not months:
        return
    truth = np.array(months, dtype=case['kind'])
    raw = np.array([sp.get(k, k) for k in months], dtype=case['kind'])
    arg = raw.copy()
    got = T.adjust_months(arg)
    same(np.asarray(got), truth, f"{case['centre']} months of {raw.tolist()}")
    same(arg, raw, 'input of the adjustment')
    require(not np.shares_memory(got, arg), 'adjusted months share the input')
    # adjusting again changes nothing
    same(np.asarray(T.adjust_months(got)), truth, 'second adjustment')
    ctx.nontrivial(bool(np.any(raw != truth)))
    ctx.label(case['centre'], 'overlap' if np.any(raw != truth) else 'plain')


# --------------------------------------------------------- general series
@st.composite
def s_series(draw):
    return dict(first=draw(st.integers(-50, 300)),
        steps=draw(st.lists(st.sampled_from([1, 1, 1, 2, 3, 12]), min_size=0, max_size=20)),
        pairs=draw(st.lists(st.integers(0, 20), max_size=3)), shuffle=draw(gen.seeds),
        many=draw(st.integers(0, 4)))


def b_series(case, ctx):
    m = case['first'] + np.cumsum([0] + case['steps'])
    # unique months are not changed in any order
    p = gen.rng(case['shuffle']).permutation(len(m))
    same(np.asarray(T.adjust_months(m)), m, 'unique months')
    same(np.asarray(T.adjust_months(m[p])), m[p], 'unique months in any order')
    one = T.adjust_months(m[0])
    same(np.ndim(one), 0, 'single month')
    same(int(one), int(m[0]), 'single month')
    same(np.asarray(T.adjust_months(m[:1])), m[:1], 'series of a single month')
    # months present more than twice are not changed
    if case['many'] >= 3:
        x = np.sort(np.concatenate([m, np.repeat(m[-1], case['many'] - 1)]))
        same(np.asarray(T.adjust_months(x)), x, 'months repeated more than twice')
    # overlapping months with a free neighbouring month
    x, used, taken = list(m), set(int(k) for k in m), []
    for i in case['pairs']:
        if i >= len(m):
            continue
        k = int(m[i])
        free = [d for d in (-1, 1) if k + d not in used]
        if not free or any(abs(k - t) < 5 for t in taken):
            continue
        if i == 0 and len(m) == 1:
            continue
        taken.append(k)
        x.append(k)
    x = np.sort(np.array(x))
    got = np.asarray(T.adjust_months(x))
    same(len(np.unique(got)), len(x), f'distinct months after adjusting {x.tolist()}: '
        f'{got.tolist()}')
    require(np.all(np.diff(got) > 0), f'order of adjusted months {got.tolist()}')
    for k in np.unique(x):
        d = got[x == k] - k
        if len(d) == 1:
            same(int(d[0]), 0, f'unique month {k} of {x.tolist()}')
        else:
            same(sorted(np.abs(d).tolist()), [0, 1], f'month {k} of {x.tolist()}')
    ctx.nontrivial(bool(taken))
    ctx.label('pairs' if taken else 'unique')


CHECKS = [
    Check('month_numbers', s_number, b_number, quick=800, thorough=16000,
        rule='different months'),
    Check('special_months', s_special, b_special, quick=1000, thorough=20000,
        rule='the series has overlapping solutions'),
    Check('series', s_series, b_series, quick=1000, thorough=20000,
        rule='some months overlap'),
]

"""Generated low-degree product files (satellite laser ranging and geocenter)"""
import numpy as np
from . import gen, oracle
from .l2 import number

MJD0 = -40587.0
# months without solutions
GAPS = [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172,
    177, 178, 182] + list(range(187, 198)) + [200, 201]
BASE = [k for k in range(4, 280) if k not in GAPS]
# degrees and orders of the five-by-five fields
PAIRS = [(l, m) for l in range(2, 6) for m in range(l + 1)] + [(6, 1)]


def first_of(k):
    """year and month of a month number"""
    return 2002 + (k - 1)//12, (k - 1) % 12 + 1


def mjd(y, m, d, frac=0.0):
    return oracle.days_from_civil(y, m, d) - MJD0 + frac


def decimal(y, m, d, h=0):
    n = 366 if oracle.is_leap(y) else 365
    return y + (oracle.days_from_civil(y, m, d) - oracle.days_from_civil(y, 1, 1)
        + h/24.0)/n


def from_mjd(t):
    """year, month, day and hour of a modified julian day"""
    days = int(np.floor(t))
    h = (t - days)*24.0
    z = days + int(MJD0)
    y = 1970 + int(z//365.2425)
    while oracle.days_from_civil(y, 1, 1) > z:
        y -= 1
    while oracle.days_from_civil(y + 1, 1, 1) <= z:
        y += 1
    m = 1
    while m < 12 and oracle.days_from_civil(y, m + 1, 1) <= z:
        m += 1
    return y, m, z - oracle.days_from_civil(y, m, 1) + 1, h


def middle(k):
    """decimal year near the middle of a month"""
    y, m = first_of(k)
    return decimal(y, m, 15, 12)


def values(seed, n, scale=1e-10, salt=0):
    r = gen.rng(seed, n, salt, 11)
    return [float(number(v, digits=11)) for v in r.standard_normal(n)*scale]


def weekly_mean(t, d, D, n=28):
    """mean of the daily values nearest to a date, None where the choice is ambiguous"""
    day = np.concatenate([x + (np.arange(7) - 3.5)/365.25 for x in t])
    val = np.repeat(np.asarray(d, dtype=float), 7)
    dist = np.abs(day - D)
    order = np.argsort(dist, kind='stable')
    k = order[:n]
    sure = len(order) <= n or dist[order[n]] - dist[order[n - 1]] > 2e-9
    # equal values at the limit of the window need no choice
    if not sure:
        near = np.abs(dist - dist[order[n - 1]]) < 2e-9
        sure = np.ptp(val[near]) == 0
        return day[k].mean(), val[k].mean(), False, sure
    return day[k].mean(), val[k].mean(), True, True


# ------------------------------------------------------------ product files
def _days(months):
    return [mjd(*first_of(k), 1) for k in months]


def _times(months):
    return [decimal(*first_of(k), 1) for k in months]


def table(f, months, columns, head='PRODUCT:'):
    """technical note of the first days of the months; columns of (values, sigmas)"""
    rows = []
    for i, (a, b) in enumerate(zip(_days(months), _times(months))):
        rows.append(f'{a:9.1f} {b:10.4f} ' + ' '.join(f'{number(v[i])} 1.0000 {s[i]:9.4f}'
            for v, s in columns) + f' {a+30:9.1f} {b+0.08:10.4f} Gm')
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text('TEXT\n' + head + ' text\n' + '\n'.join(rows) + '\n')


def commented(f, months, columns):
    """series of mid-month dates under a commented header"""
    f.write_text('# text\n' + ''.join(f'{middle(k):10.4f} ' + ' '.join(
        number(c[i]) for c in columns) + ' 0.0000 0.0000\n' for i, k in enumerate(months)))


def lares(f, months, v):
    f.write_text('time value\n' + ''.join(f'{middle(k):10.4f} {number(x)}\n'
        for k, x in zip(months, v)))


def fields(f, months, r):
    """monthly five by five fields; returns fields and errors"""
    out = np.zeros((4, 7, 7, len(months)))
    text = ['text', '='*80]
    mean = np.zeros((4, 7, 7))
    for l, m in PAIRS:
        v = [float(number(x)) for x in r.standard_normal(4)*1e-7]
        mean[:, l, m] = v
        text.append(f'{l} {m} ' + ' '.join(number(x, 'D') for x in v))
    text.append('end of header')
    for i, k in enumerate(months):
        y, m = first_of(k)
        a = mjd(y, m, 1)
        text.append(f'{i+1:6d} 0.0 {middle(k):9.4f} {y} {m} {a:9.1f} {a+29:9.1f}')
        for l, q in PAIRS:
            v = np.round(r.standard_normal(4)*5, 5)
            out[:, l, q, i] = v
            text.append(f'{l} {q} {v[0]:.5f} {v[1]:.5f} 0.0 0.0 {v[2]:.5f} {v[3]:.5f}')
    f.write_text('\n'.join(text) + '\n')
    c = mean[:2, :, :, None] + out[:2]*1e-10
    e = np.sqrt(mean[2:, :, :, None]**2 + (out[2:]*1e-10)**2)
    return c, e


def weekly(f, t0, n, r):
    """weekly fields; returns dates and fields"""
    t = np.round(t0 + 7.0*np.arange(n)/365.25, 6)
    out = np.zeros((2, 7, 7, n))
    text = ['text', 'Product: fields']
    for i in range(n):
        text.append(f'50000.0 {t[i]:.6f}')
        for l, m in PAIRS:
            v = [float(number(x)) for x in r.standard_normal(2)*1e-9]
            out[:, l, m, i] = v
            text.append(f'{l} {m} {number(v[0])} {number(v[1])}')
    f.write_text('\n'.join(text) + '\n')
    return t, out


def tellus(f, months, c, new=True):
    rows = []
    times = []
    for i, k in enumerate(months):
        y, m = first_of(k)
        n = oracle.month_lengths(y)[m - 1]
        lead = 'GRCOF2' if new else f'{y:4d}{m:02d}'
        tail = f' {y:4d}{m:02d}01.0000 {y:4d}{m:02d}{n:02d}.0000 yyyy' if new else ' 0.0'
        times.append((decimal(y, m, 1) + decimal(y, m, n))/2 if new else
            decimal(y, m, 1) + n/2/(366 if oracle.is_leap(y) else 365))
        rows.append(f'{lead} 1 0 {number(c[0][i])} {number(0)} 1.0E-11 0.0E+00{tail}')
        rows.append(f'{lead} 1 1 {number(c[1][i])} {number(c[2][i])} 1.0E-11 1.0E-11{tail}')
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text(('end of header ===\n' if new else "'(a6,2i4)'\n") + '\n'.join(rows) + '\n')
    return times


def uci(f, months, c):
    text = ['header:', '  variables:', '    mid-epoch_time:', '      comment: 1st column']
    for j, k in enumerate(('C10', 'C11', 'S11')):
        text += [f'    {k}:', f'      comment: {j + 2}th column']
    text += ['    month:', '      comment: 5th column', '# End of YAML header']
    t = [round(middle(k), 5) for k in months]
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text('\n'.join(text) + '\n' + ''.join(f'{a:.5f} ' + ' '.join(
        number(v[i]) for v in c) + f' {months[i]}\n' for i, a in enumerate(t)))
    return t


def swenson(f, months, mm):
    t = [round(middle(k), 5) for k in months]
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text('Time C10 C11 S11\n' + ''.join(f'{a:.5f} ' + ' '.join(f'{v[i]:.6f}'
        for v in mm) + f' {months[i]}\n' for i, a in enumerate(t)))
    return t


def slr_geocenter(base, months, xyz, release, r):
    """geocenter of satellite laser ranging with the dealiasing geocenter"""
    f = base/'geocenter'/'gct2est.220_5s'
    f.parent.mkdir(parents=True, exist_ok=True)
    t = [round(middle(k), 5) for k in months]
    f.write_text('text\n'*15 + ''.join(f'52000.0 {a:.5f} ' + ' '.join(f'{v[i]:.4f}'
        for v in xyz) + ' 0.0'*3 + ' 0.1'*6 + '\n' for i, a in enumerate(t)))
    d = base/'AOD1B'/release/'geocenter'
    d.mkdir(parents=True)
    mu = []
    for k in months:
        y, m = first_of(k)
        a = np.round(r.standard_normal((3, 3)), 3)
        (d/f'AOD1B_{release}_glo_{y:4d}_{m:02d}.txt').write_text('# text\n' + ''.join(
            f'{y:4d}-{m:02d}-{j+1:02d}T00:00:00 {v[0]:.3f} {v[1]:.3f} {v[2]:.3f}\n'
            for j, v in enumerate(a.T)))
        mu.append(a.mean(axis=1))
    return t, np.array(mu).T

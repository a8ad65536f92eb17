"""Low-degree series files: one value per month at its date"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt import lowdeg as ld
from pbt.core import Check, close, raises, require, same
from pbt.l2 import number

SLR = gravtk.SLR
ASSUMPTIONS = ['series are in time order', 'a month is listed at most twice',
    'numbers have decimal points', 'uncertainties of GravIS products may be in either of '
    'the units named by the documentation (1e-10 or 1e-12)']
C30_MEAN = 9.5717395773300e-07


@st.composite
def s_months(draw):
    """months in order with gaps"""
    a = draw(st.one_of(st.integers(0, len(ld.BASE) - 3),
        st.integers(1, 12).map(lambda i: ld.BASE.index(161) - i)))
    n = draw(st.one_of(st.integers(1, 4), st.integers(5, 40)))
    drop = draw(st.lists(st.integers(0, 40), max_size=5))
    k = [v for i, v in enumerate(ld.BASE[a:a + n]) if i not in drop]
    return k or [ld.BASE[a]]


C20_KINDS = ['csr', 'gfz', 'gravis', 'tn11', 'tn14', 'tn']


@st.composite
def s_series(draw):
    return dict(months=draw(s_months()), seed=draw(gen.seeds),
        header=draw(st.sampled_from([True, True, True, False])),
        blank=draw(st.booleans()), frac=draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.75])),
        aod=draw(st.booleans()), rel=draw(st.sampled_from(['RL04', 'RL05', 'RL06'])),
        pair=draw(st.booleans()), order=draw(st.sampled_from([1, 2])),
        skip=draw(st.lists(st.integers(0, 40), max_size=6)),
        mean=draw(st.sampled_from([None, 0.0, C30_MEAN, 1e-7])),
        exp=draw(st.sampled_from(['e', 'E'])), lower=draw(st.booleans()),
        how=draw(st.sampled_from(['path', 'str'])))


def lines_out(f, head, rows, case, product='PRODUCT:'):
    text = []
    if case['header']:
        text += head + [product + ' text of the product']
        if case['blank']:
            text.append('')
    text += rows
    if case['blank']:
        text.append('')
    f.write_text('\n'.join(text) + '\n')
    return str(f) if case['how'] == 'str' else f


def starts(case):
    """modified julian days of the first days of the months"""
    r = gen.rng(case['seed'], 5)
    out = []
    for k in case['months']:
        y, m = ld.first_of(k)
        d = ld.mjd(y, m, 1, case['frac']) + int(r.integers(-2, 4))
        # the solution of May 2015 is centered in April
        if k == 161 and special(case):
            d = ld.mjd(2015, 4, 12, case['frac'])
        out.append(d)
    return out


def special(case):
    k = case['months']
    return not case.get('plain') and case['lower'] and all(v in k and
        k.index(v) not in case['skip'] for v in (159, 160, 161, 163))


def middles(case):
    return [round(ld.decimal(2015, 4, 27) if k == 161 and special(case) else ld.middle(k), 4)
        for k in case['months']]


def decimals(days):
    out = []
    for d in days:
        y, m, dd, h = ld.from_mjd(d)
        out.append(ld.decimal(y, m, dd, h))
    return out


def check(out, want, what, keys=('time', 'month', 'data', 'error'), rtol=4e-15, trtol=4e-16,
        ertol=1e-14):
    for k in keys:
        w = np.asarray(want[k])
        g = np.asarray(out[k])
        require(g.shape == w.shape, f'{what}: {k} has shape {g.shape}, expected {w.shape}')
        if k == 'month':
            same(g, w, f'{what}: month')
        elif k == 'time':
            close(g, w, f'{what}: time', rtol=trtol)
        else:
            close(g, w, f'{what}: {k}', rtol=ertol if k.startswith('e') else rtol,
                atol=1e-26)


HEAD = ['GRACE Technical Note', 'DESCRIPTION: 1.0 text', 'NOTES: no PRODUCT here']


def b_c20(case, ctx, kind=None):
    kind = C20_KINDS[case['seed'] % len(C20_KINDS)]
    # overlapping months need a flag in the first technical notes
    case = dict(case, plain=kind == 'tn')
    months = case['months']
    n = len(months)
    v = ld.values(case['seed'], n, 1e-10)
    data = [float(number(-4.84165e-4 + x)) for x in v]
    sig = [round(abs(x)*1e10 + 0.1, 4) for x in v]
    aod = [round(x*1e10/3, 4) for x in ld.values(case['seed'], n, 1e-10, 1)]
    e = case['exp']
    if kind == 'csr':
        t = middles(case)
        f = ctx.tmp/f"C20_{case['rel']}.txt"
        rows = ['# header text', '# time C20'] if case['header'] else []
        rows += [f'{a:10.4f} {number(b, e)} {b*1e10:9.4f} {c:8.4f} {d:9.4f} {a-0.04:9.4f} '
            f'{a+0.04:9.4f}' for a, b, c, d in zip(t, data, sig, aod)]
        f.write_text('\n'.join(rows) + '\n')
        kw = {} if case['aod'] and case['seed'] % 3 else dict(AOD=case['aod'])
        out = SLR.C20(f, **kw)
        want = dict(time=t, month=months, error=np.array(sig)*1e-10,
            data=np.array(data) - (np.array(aod)*1e-10 if case['aod'] else 0))
        if n == 1:
            out = {k: np.atleast_1d(x) for k, x in out.items()}
        check(out, want, f'C20 {kind}', rtol=1e-13, trtol=7e-8, ertol=2e-7)
    elif kind == 'gfz':
        d0 = starts(case)
        t = [round(x, 4) for x in decimals(d0)]
        rows, use = [], []
        for i in range(n):
            flag = 'G*' if i % 3 == 0 else 'Gm'
            if i in case['skip']:
                flag = ' '
            else:
                use.append(i)
            rows.append(f'{d0[i]:8.1f} {t[i]:10.4f} {number(data[i], e)} {v[i]*1e10:9.4f} '
                f'{sig[i]:9.4f} {d0[i]+30:8.1f} {t[i]+0.08:9.4f} {flag}')
        f = lines_out(ctx.tmp/f"GFZ_{case['rel']}_C20_SLR.dat", HEAD, rows, case)
        out = SLR.C20(f, **({} if case['header'] else dict(HEADER=False)))
        want = dict(time=t, month=months, data=data, error=np.array(sig)*1e-10)
        check(out, {k: np.asarray(x)[use] if len(use) else np.zeros(0)
            for k, x in want.items()}, 'C20 gfz')
    elif kind == 'gravis':
        gravis(case, ctx, 'C20')
    else:
        d0 = starts(case)
        extra = []
        if kind == 'tn' and case['pair'] and n > 2:
            # another solution of the month, the flagged one is kept
            i = 1 + case['seed'] % (n - 2)
            extra = [(i, '  ', -4.8e-4)]
        rows = []
        name = {'tn11': 'TN-11_C20_SLR.txt', 'tn14': 'TN-14_C30_C20_GSFC_SLR.txt',
            'tn': 'TN-05_C20_SLR.txt' if case['seed'] % 2 else 'TN-07_C20_SLR.txt'}[kind]
        for i in range(n):
            star = '*' if extra and i == extra[0][0] else ''
            row = (f'{d0[i]:9.2f} {decimals(d0)[i]:10.4f} {number(data[i], e)} '
                f'{v[i]*1e10:9.4f} {sig[i]:9.4f} ')
            if kind == 'tn14':
                row += '  NaN  NaN  NaN ' if i in case['skip'] else \
                    f'{number(9.5e-7 + v[i], e)} {v[i]*1e10:8.4f} {sig[i]+1:8.4f} '
            other = [f'{d0[i]:9.2f} {decimals(d0)[i]:10.4f} {number(x[2], e)} 7.0000 9.0000 '
                f'{d0[i]+30:9.2f}' for x in extra if x[0] == i]
            rows += other if case['lower'] else []
            rows.append(row + f'{d0[i]+30:9.2f} {decimals(d0)[i]+0.08:9.4f} {star}')
            rows += [] if case['lower'] else other
        product = 'Product:' if kind == 'tn14' else 'PRODUCT:'
        if kind == 'tn11' and case['lower']:
            product = 'Product:'
        f = lines_out(ctx.tmp/name, HEAD, rows, case, product)
        out = SLR.C20(f, **({} if case['header'] else dict(HEADER=False)))
        want = dict(time=decimals(d0), month=months, data=data, error=np.array(sig)*1e-10)
        check(out, want, f'C20 {name}')
        require(len(set(out['month'].tolist())) == n, 'duplicate months')
        if kind == 'tn14':
            b_tn14(case, ctx, f, months, decimals(d0), v, sig)
    ctx.nontrivial(n > 1)
    ctx.label(kind, 'special' if special(case) else 'plain')


def b_tn14(case, ctx, f, months, t, v, sig):
    use = [i for i in range(len(months)) if i not in case['skip']]
    kw = {} if case['header'] else dict(HEADER=False)
    if not use:
        require(raises(lambda: SLR.C30(f, **kw)), 'file without C30 values is not an error')
        return
    out = SLR.C30(f, **kw)
    want = dict(time=t, month=months, data=[float(number(9.5e-7 + x)) for x in v],
        error=(np.array(sig) + 1)*1e-10)
    check(out, {k: np.asarray(x)[use] for k, x in want.items()}, 'C30 TN-14')


def gravis(case, ctx, only=None):
    months = case['months']
    n = len(months)
    d0 = starts(case)
    t = [round(x, 4) for x in decimals(d0)]
    e = case['exp']
    cols = {}
    rows = [f'{a:8.1f} {b:10.4f}' for a, b in zip(d0, t)]
    for j, (name, base) in enumerate((('C20', -4.84e-4), ('C30', 9.57e-7), ('C21', -2e-10),
            ('S21', 1.4e-9))):
        v = ld.values(case['seed'], n, 1e-10, j)
        x = [float(number(base + y)) for y in v]
        s = [round(abs(y)*1e12 + 0.1, 4) for y in v]
        cols[name] = (x, s)
        rows = [r + f' {number(a, e)} {y*1e10:9.4f} {c:9.4f}'
            for r, a, y, c in zip(rows, x, v, s)]
    rows = [r + f' {a+30:8.1f} {b+0.08:9.4f}' for r, a, b in zip(rows, d0, t)]
    f = lines_out(ctx.tmp/'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', HEAD, rows, case)
    kw = {} if case['header'] else dict(HEADER=False)

    def both(out, name, data, error):
        x, s = cols[name]
        check(out, dict(time=t, month=months, **{data: x}), f'{name} GravIS',
            keys=('time', 'month', data))
        g = np.asarray(out[error])/np.array(s)
        unit = 1e-10 if abs(g[0] - 1e-10) < abs(g[0] - 1e-12) else 1e-12
        close(g, np.full(n, unit), f'{name} GravIS: error', rtol=1e-13)
    if only in (None, 'C20'):
        both(SLR.C20(f, **kw), 'C20', 'data', 'error')
    if only in (None, 'C30'):
        both(SLR.C30(f, **kw), 'C30', 'data', 'error')
    if only in (None, 'CS2'):
        out = SLR.CS2(f, **kw)
        both(out, 'C21', 'C2m', 'eC2m')
        both(out, 'S21', 'S2m', 'eS2m')


def b_monthly(case, ctx):
    """LARES series, GSFC replacement series, GravIS and CSR degree two series"""
    months = case['months']
    n = len(months)
    kind = ['lares', 'c50', 'gravis', 'cs2'][case['seed'] % 4]
    e = case['exp']
    if kind == 'gravis':
        gravis(case, ctx)
    elif kind == 'lares':
        t = middles(case)
        for deg, fn, base in ((30, SLR.C30, C30_MEAN), (40, SLR.C40, 0.0),
                (50, SLR.C50, 0.0)):
            v = [round(x*1e10, 6) for x in ld.values(case['seed'], n, 1e-10, deg)]
            f = ctx.tmp/f'C{deg}_LARES_filtered.txt'
            f.write_text('time   value\n' + ''.join(f'{a:10.4f} {b:12.6f}\n'
                for a, b in zip(t, v)))
            if n == 1:
                continue
            kw = {} if case['mean'] is None else {f'C{deg}_MEAN': case['mean']}
            m = base if case['mean'] is None else case['mean']
            out = fn(str(f) if case['how'] == 'str' else f, **kw)
            check(out, dict(time=t, month=months, data=np.array(v)*1e-10 + m,
                error=np.zeros(n)), f'C{deg} LARES', rtol=1e-12)
    elif kind == 'c50':
        d0 = starts(case)
        v = ld.values(case['seed'], n, 1e-10)
        data = [float(number(6.8e-8 + x)) for x in v]
        sig = [round(abs(x)*1e10 + 0.1, 4) for x in v]
        rows = []
        for i in range(n):
            row = f'{d0[i]:9.2f} {decimals(d0)[i]:10.4f} -4.8416E-04 1.0000 2.0000 '
            if i in case['skip']:
                row += ' NaN'*3 + f' {d0[i]+30:9.2f} {decimals(d0)[i]+0.08:9.4f}' + ' NaN'*3
            else:
                row += (f'9.57E-07 3.0000 4.0000 {d0[i]+30:9.2f} {decimals(d0)[i]+0.08:9.4f} '
                    f'{number(data[i], e)} {v[i]*1e10:9.4f} {sig[i]:9.4f}')
            rows.append(row)
        f = lines_out(ctx.tmp/'GSFC_SLR_C20_C30_C50_GSM_replacement.txt', HEAD, rows, case,
            'Product:')
        kw = {} if case['header'] else dict(HEADER=False)
        use = [i for i in range(n) if i not in case['skip']]
        if use:
            want = dict(time=decimals(d0), month=months, data=data, error=np.array(sig)*1e-10)
            check(SLR.C50(f, **kw), {k: np.asarray(x)[use] for k, x in want.items()},
                'C50 GSFC')
        else:
            require(raises(lambda: SLR.C50(f, **kw)), 'file without C50 is not an error')
    else:
        t = middles(case)
        o = case['order']
        cols = [ld.values(case['seed'], n, 1e-9, j) for j in range(2)]
        sig = [[round(abs(x)*1e10 + 0.1, 4) for x in ld.values(case['seed'], n, 1e-10, j)]
            for j in (2, 3)]
        aod = [[round(x*1e10, 4) for x in ld.values(case['seed'], n, 1e-10, j)]
            for j in (4, 5)]
        f = ctx.tmp/f"C2{o}_S2{o}_{case['rel']}.txt"
        rows = ['# header text'] if case['header'] else []
        rows += [f'{t[i]:10.4f} ' + ' '.join(number(c[i], e) for c in cols) + ' '
            + ' '.join(f'{c[i]:9.4f}' for c in sig + aod) + f' {t[i]-0.04:9.4f} '
            f'{t[i]+0.04:9.4f}' for i in range(n)]
        f.write_text('\n'.join(rows) + '\n')
        out = SLR.CS2(str(f) if case['how'] == 'str' else f)
        if n == 1:
            out = {k: np.atleast_1d(x) for k, x in out.items()}
        a = np.array(aod)*1e-10
        check(out, dict(time=t, month=months), f'CS2 order {o}', keys=('time', 'month'),
            trtol=7e-8)
        for k, w in (('C2m', np.array(cols[0]) - a[0]), ('S2m', np.array(cols[1]) - a[1])):
            close(out[k], w, f'{k} order {o}', rtol=1e-12, atol=2e-7*np.abs(a).max())
        for k, w in (('eC2m', sig[0]), ('eS2m', sig[1])):
            close(out[k], np.array(w)*1e-10, f'{k} order {o}', rtol=2e-7)
    ctx.nontrivial(n > 1)
    ctx.label(kind)


# -------------------------------------------------------- five by five fields
def pairs_of(case):
    p = list(ld.PAIRS)
    if case['shuffle']:
        p = [p[i] for i in gen.rng(case['seed'], 3).permutation(len(p))]
    return p


@st.composite
def s_monthly5(draw):
    return dict(months=draw(s_months()), seed=draw(gen.seeds), shuffle=draw(st.booleans()),
        bars=draw(st.integers(1, 2)), scale=draw(st.sampled_from([None, 1e-10, 1.0, 1e-9])),
        days=draw(st.integers(20, 31)), d=draw(st.booleans()))


def b_monthly5(case, ctx):
    months = case['months']
    n = len(months)
    p = pairs_of(case)
    r = gen.rng(case['seed'], n)
    mean = np.zeros((4, 7, 7))
    an = np.zeros((4, 7, 7, n))
    text = ['CSR 5x5 header text', 'more text']
    bar = '='*80
    text += [bar, 'columns'] if case['bars'] == 2 else []
    text.append(bar)
    for l, m in p:
        v = [float(number(x)) for x in r.standard_normal(4)*1e-7]
        v[2:] = [float(number(abs(x)*1e-3)) for x in v[2:]]
        mean[:, l, m] = v
        text.append(f'{l:4d} {m:4d} ' + ' '.join(number(x, 'D' if case['d'] else 'E')
            for x in v))
    text.append('end of header')
    days, mids = [], []
    for i, k in enumerate(months):
        y, m = ld.first_of(k)
        a = ld.mjd(y, m, 1)
        b = a + case['days'] - 1
        days.append((a + b)/2)
        mids.append((y, m))
        text.append(f'{i+1:6d} 0.0 {y+m/12:9.4f} {y:6d} {m:4d} {a:9.1f} {b:9.1f}')
        for l, mm in p:
            v = np.round(r.standard_normal(4)*5, 6)
            v[2:] = np.abs(v[2:])
            an[:, l, mm, i] = v
            text.append(f'{l:4d} {mm:4d} {v[0]:12.6f} {v[1]:12.6f} 1.00E-06 2.00E-06 '
                f'{v[2]:12.6f} {v[3]:12.6f}')
    f = ctx.tmp/'CSR_Monthly_5x5_Gravity_Harmonics.txt'
    f.write_text('\n'.join(text) + '\n')
    kw = {} if case['scale'] is None else dict(SCALE=case['scale'])
    s = 1e-10 if case['scale'] is None else case['scale']
    out = gravtk.read_SLR_harmonics(str(f) if case['seed'] % 2 else f, **kw)
    close(out['MJD'], days, 'modified julian days', rtol=1e-15)
    t = [gravtk_mid(y, m) for y, m in mids]
    close(out['time'], t, 'dates', rtol=4e-16)
    c = mean[0][:, :, None] + an[0]*s
    sn = mean[1][:, :, None] + an[1]*s
    ec = np.sqrt(mean[2][:, :, None]**2 + (an[2]*s)**2)
    es = np.sqrt(mean[3][:, :, None]**2 + (an[3]*s)**2)
    for k, w, g in (('clm', c, out['clm']), ('slm', sn, out['slm']),
            ('clm error', ec, out['error']['clm']), ('slm error', es, out['error']['slm'])):
        close(g, w, k, rtol=1e-13, atol=1e-24)
    if case['scale'] is None:
        for fn, l in ((SLR.C30, 3), (SLR.C40, 4), (SLR.C50, 5)):
            o = fn(f)
            close(o['data'], c[l, 0], f'C{l}0 of the monthly fields', rtol=1e-13, atol=1e-24)
            close(o['error'], ec[l, 0], f'C{l}0 errors', rtol=1e-13)
            close(o['time'], t, f'C{l}0 dates', rtol=4e-16)
            same(np.asarray(o['month']), np.array(months), f'C{l}0 months')
    ctx.nontrivial(n > 1)


def gravtk_mid(y, m):
    """decimal year of the middle of a month"""
    n = 366 if oracle.is_leap(y) else 365
    d = oracle.days_from_civil(y, m, 1) - oracle.days_from_civil(y, 1, 1)
    return y + (d + oracle.month_lengths(y)[m - 1]/2)/n


@st.composite
def s_weekly(draw):
    return dict(seed=draw(gen.seeds), shuffle=draw(st.booleans()),
        n=draw(st.integers(5, 40)), first=draw(st.integers(48000, 59000)),
        gap=draw(st.lists(st.integers(0, 40), max_size=4)),
        dates=draw(st.lists(st.floats(-0.1, 1.1), min_size=1, max_size=6)),
        order=draw(st.integers(0, 2)), scale=draw(st.sampled_from([None, 1.0, 1e-10])),
        near=draw(st.sampled_from([28, 28, 7, 14, 21, 3])),
        how=draw(st.sampled_from(['path', 'str'])))


def b_weekly(case, ctx):
    p = pairs_of(case)
    n = case['n']
    r = gen.rng(case['seed'], n)
    day = case['first'] + 7.0*np.arange(n)
    for g in case['gap']:
        day[g:] += 7.0 if g < n else 0.0
    t = np.round(2000 + (day + 3.5 - 51544.5)/365.25, 6)
    clm, slm = np.zeros((2, 7, 7, n))
    text = ['header text', 'Description', 'Product: weekly fields']
    for i in range(n):
        text.append(f'{day[i]:9.1f} {t[i]:12.6f}')
        for l, m in p:
            v = [float(number(x)) for x in r.standard_normal(2)*1e-9]
            clm[l, m, i], slm[l, m, i] = v
            text.append(f'{l:4d} {m:4d} ' + ' '.join(number(x) for x in v))
    f = ctx.tmp/'gsfc_slr_5x5c61s61.txt'
    f.write_text('\n'.join(text) + '\n')
    arg = str(f) if case['how'] == 'str' else f
    kw = {} if case['scale'] is None else dict(SCALE=case['scale'])
    s = 1.0 if case['scale'] is None else case['scale']
    out = gravtk.read_SLR_harmonics(arg, **kw)
    same(out['MJD'], day, 'modified julian days')
    close(out['time'], t, 'dates', rtol=1e-15)
    close(out['clm'], clm*s, 'clm', rtol=1e-15)
    close(out['slm'], slm*s, 'slm', rtol=1e-15)
    D = np.array([t[0] + x*(t[-1] - t[0]) for x in case['dates']])

    def months(got, mid, what):
        # dates of the same month are separated by the adjustment of special months
        if len({int(np.floor(12*(x - 2002))) for x in mid}) < len(mid):
            return
        for g, w in zip(got, mid):
            x = 12*(w - 2002.0)
            ok = {int(np.floor(x)) + 1}
            if abs(x - round(x)) < 1e-5:
                ok |= {int(round(x)), int(round(x)) + 1}
            require(int(g) in ok, f'{what}: month {g} of {w}')

    def series(got_t, got, d, what, nn=28, tol=1e-12):
        mids = []
        for i, x in enumerate(D):
            a, b, st_, sd = ld.weekly_mean(t, d, x, nn)
            mids.append(a if st_ else float(got_t[i]))
            require(abs(got_t[i] - a) < 8/365.25, f'{what}: date {got_t[i]} of {a}')
            if st_:
                close(float(got_t[i]), a, f'{what}: date', rtol=1e-13)
            if sd:
                close(float(got[i]), b, f'{what}: value', rtol=tol, atol=tol*1e-9)
            require(d.min() - 1e-20 <= got[i] <= d.max() + 1e-20, f'{what}: outside of values')
        return mids
    o = gravtk.convert_weekly(t, clm[4, 0], DATE=D, NEIGHBORS=case['near'])
    mids = series(o['time'], o['data'], clm[4, 0], 'convert_weekly', case['near'])
    months(o['month'], mids, 'convert_weekly')
    z = out['time'].copy()
    for fn, l in ((SLR.C40, 4), (SLR.C50, 5)):
        o = fn(f, DATE=D)
        m = series(o['time'], o['data'], clm[l, 0], f'C{l}0 weekly')
        same(np.asarray(o['error']), np.zeros(len(D)), f'C{l}0 weekly errors')
        months(o['month'], m, f'C{l}0 weekly')
    q = case['order']
    o = SLR.CS2(arg, DATE=D, ORDER=q)
    m = series(o['time'], o['C2m'], clm[2, q], f'C2{q} weekly')
    series(o['time'], o['S2m'], slm[2, q], f'S2{q} weekly')
    for k in ('eC2m', 'eS2m'):
        same(np.asarray(o[k]), np.zeros(len(D)), f'{k} weekly')
    months(o['month'], m, 'CS2 weekly')
    same(out['time'], z, 'weekly dates were changed')
    # seven day arcs of a single order (dates in single precision)
    g = ctx.tmp/'GSFC_C21_S21.txt'
    g.write_text('# text\n' + ''.join(f'{a:12.6f} {number(b)} {c}\n' for a, b, c in
        zip(t, clm[2, 1], map(number, slm[2, 1]))))
    o = SLR.CS2(g, DATE=D)
    for i, x in enumerate(D):
        a, b, st_, sd = ld.weekly_mean(t, clm[2, 1], x)
        require(abs(o['time'][i] - a) < 4/365.25, 'date of seven day arcs')
        # a day more or less at the limits of the window
        for key, d in (('C2m', clm[2, 1]), ('S2m', slm[2, 1])):
            b = ld.weekly_mean(t, d, x)[1]
            require(abs(o[key][i] - b) <= 3.01/28*np.ptp(d), f'{key} of seven day arcs')
    ctx.nontrivial(True)


@st.composite
def s_none(draw):
    return dict(name=draw(st.sampled_from(['C20_RL06.txt', 'TN-14_C30_C20_GSFC_SLR.txt',
        'gsfc_slr_5x5c61s61.txt', 'C30_LARES_filtered.txt', 'x.txt',
        'CSR_Monthly_5x5_Gravity_Harmonics.txt'])), fn=draw(st.sampled_from(
        ['C20', 'C30', 'C40', 'C50', 'CS2'])))


def b_none(case, ctx):
    f = ctx.tmp/case['name']
    require(raises(lambda: getattr(SLR, case['fn'])(f), FileNotFoundError),
        'missing file is not an error')
    f.write_text('text\n')
    if case['name'] == 'x.txt' and case['fn'] in ('C30', 'C40', 'C50'):
        require(raises(lambda: getattr(SLR, case['fn'])(f)), 'unknown format is no error')
    ctx.nontrivial(True)


CHECKS = [
    Check('c20', s_series, b_c20, quick=500, thorough=8000, rule='more than one month'),
    Check('monthly', s_series, b_monthly, quick=500, thorough=8000,
        rule='more than one month'),
    Check('fields', s_monthly5, b_monthly5, quick=200, thorough=3000,
        rule='more than one month'),
    Check('weekly', s_weekly, b_weekly, quick=250, thorough=4000, rule='every case'),
    Check('missing', s_none, b_none, quick=40, thorough=60, rule='every case'),
]

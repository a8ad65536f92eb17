"""Programs for regressions of monthly maps and of series"""
import pathlib
import numpy as np
import scipy.stats
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, prog
from pbt import lowdeg as ld
from pbt.core import Check, close, require, same
from props.C01 import arguments
from props.R01 import solve

ASSUMPTIONS = ['terms of the fit can be estimated from the months', 'maps are complete',
    'times of ascii maps are exact in single precision']
# periods of tidal aliasing (days)
ALIAS = dict(Q1=9.1, O1=13.6, P1=171.2, S1=322.1, K1=2725.4, J1=27.8, M2=13.5, S2=161.0,
    K2=1362.7)
CYCLES = [0.5, 1.0] + [v/365.25 for v in ALIAS.values()] + [2.5, 3.7]
SPACE = [(60, 60), (90, 60), (72, 45), (45, 90)]


@st.composite
def s_fit(draw):
    return dict(seed=draw(gen.seeds), first=draw(st.sampled_from([4, 20, 60, 100, 150, 180, 198,
        210])), n=draw(st.integers(24, 70)), drop=draw(st.integers(0, 6)),
        order=draw(st.sampled_from([None, 0, 1, 2, 2])), brk=draw(st.floats(0.2, 0.8)),
        cycles=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.5, 1.0, 161.0/365.25]
            + CYCLES), min_size=1, max_size=4, unique=True))),
        lmax=draw(st.sampled_from([None, 60, 30, 5])), mmax=draw(st.sampled_from(
            [None, None, 0, 3, 30])), rad=draw(st.sampled_from([None, 0, 250, 300.5])),
        ds=draw(st.booleans()), units=draw(st.sampled_from([None, 1, 2, 3, 4, 5])),
        form=draw(st.sampled_from([None] + grc.FORMS)), space=draw(st.sampled_from(SPACE)),
        interval=draw(st.sampled_from([1, 2, 2, 3])), argfile=draw(st.booleans()),
        mode=draw(st.sampled_from([None, '640', '775'])), log=draw(st.integers(0, 4)) == 0,
        prefix=draw(st.sampled_from(['map_', 'GRACE_CSR_', ''])))


def series(case):
    """months and times"""
    r = gen.rng(case['seed'], 1)
    i = next(i for i, k in enumerate(ld.BASE) if k >= case['first'])
    months = np.array(ld.BASE[i:i + case['n']])
    keep = np.ones(len(months), dtype=bool)
    keep[r.choice(np.arange(1, len(months) - 1), case['drop'], replace=False)] = False
    months = months[keep]
    # times near the centres of the months
    t = np.round((np.array([ld.middle(k) for k in months]) + 0.02*r.standard_normal(
        len(months)))*64)/64
    t = np.maximum.accumulate(t) + np.arange(len(t))*0
    return months, t


def model(case, t, ibrk):
    """labels and terms of the fit, sorted by the order of the labels"""
    cyc = [0.5, 1.0, 161.0/365.25] if case['cycles'] is None else case['cycles']
    if ibrk is None:
        order = 2 if case['order'] is None else case['order']
        rel = t - t.mean()
        out = [(f'x{k}', rel**k) for k in range(order + 1)]
    else:
        out = [('x0', np.ones(len(t))), ('px1', t), ('px1', np.maximum(t - t[ibrk], 0))]
    amp = {}
    for c in cyc:
        name = [k for k, v in ALIAS.items() if np.isclose(c, v/365.25)]
        sin, cos = np.sin(2*np.pi*t/c), np.cos(2*np.pi*t/c)
        if name:
            # each of the missions has its terms
            period = ALIAS[name[0]]/365.25
            sin, cos = np.sin(2*np.pi*t/period), np.cos(2*np.pi*t/period)
            for tag, sel in (('GRC', t < 2018), ('GFO', t >= 2018)):
                if np.any(sel):
                    amp[name[0] + tag] = len(out)
                    out += [(f'{name[0]}S{tag}', sin*sel), (f'{name[0]}C{tag}', cos*sel)]
        else:
            key, lab = {0.5: ('SEMI', 'S'), 1.0: ('ANN', 'A')}.get(c,
                (f'{c:g}YR', f'{c:g}YR'))
            amp[key] = len(out)
            out += [(lab + 'S', sin), (lab + 'C', cos)]
    return [k for k, _ in out], np.array([v for _, v in out]).T, amp


def values(case, X, size):
    r = gen.rng(case['seed'], 2)
    s = np.abs(X).max(axis=0)
    b = r.standard_normal((X.shape[1], size))*8/s[:, None]
    y = X @ b + r.standard_normal((len(X), size))
    return np.round(np.clip(y, -4e4, 4e4)*16)/16


def fit(X, y, piece):
    """estimates, errors and statistics"""
    n, k = X.shape
    b, cov = solve(X, y)
    res = y - X @ b
    sse, nu = np.sum(res**2), n - k
    se = np.sqrt(sse/nu*np.diag(cov))
    if piece:
        b, se = b.copy(), se.copy()
        b[2], se[2] = b[1] + b[2], np.hypot(se[1], se[2])
    ll = -0.5*n*(np.log(2*np.pi) + 1 - np.log(n) + np.log(sse))
    r2 = 1 - sse/np.sum((y - y.mean())**2)
    stat = dict(SSE=sse, AIC=-2*ll + 2*(k + 1), BIC=-2*ll + np.log(n)*(k + 1),
        R2Adj=1 - (1 - r2)*(n - 1)/nu)
    more = dict(R2=r2, LOGLIK=ll, MSE=sse/nu, NRMSE=np.sqrt(sse/nu)/np.ptp(y), DOF=nu)
    return b, se, stat, scipy.stats.t.ppf(0.975, nu), more


def second(aic, shape, got):
    """criterion with or without the second order for small samples"""
    n, K = shape[0], shape[1] + 1
    other = aic + (2.0*K*(K + 1))/(n - K - 1)
    return np.where(np.abs(got - other) < np.abs(got - aic), other, aic)


def amplitude(b, e, j):
    a = np.hypot(b[j], b[j + 1])
    p = np.degrees(np.arctan2(b[j + 1], b[j])) % 360
    ae = np.hypot(e[j]*b[j]/a, e[j + 1]*b[j + 1]/a)
    pe = np.degrees(np.hypot(e[j]*b[j + 1]/a**2, e[j + 1]*b[j]/a**2))
    return a, p, ae, pe


def estimable(X, piece):
    Z = X.copy()
    if piece:
        Z[:, 1] -= Z[:, 1].mean()
    Z /= np.abs(Z).max(axis=0)
    return X.shape[0] > X.shape[1] + 4 and np.linalg.cond(Z) < 3e2


def tolerances(X, piece):
    """relative precision of coefficients and of their errors"""
    cond = np.linalg.cond(X if piece else X/np.abs(X).max(axis=0))
    return 1e-14*cond + 1e-9, 1e-15*cond**2 + 1e-8


SIGNIFICANCE = dict(SSE='Sum of Squares Error', AIC='Akaike information criterion',
    BIC='Bayesian information criterion', R2Adj='Adjusted Coefficient of Determination')


def maps(case, ctx, program, piece):
    root = ctx.tmp
    months, t = series(case)
    ibrk = int(round(case['brk']*(len(t) - 1))) if piece else None
    if piece:
        ibrk = min(max(ibrk, 4), len(t) - 5)
    labels, X, amp = model(case, t, ibrk)
    if np.any(np.diff(t) <= 0) or not estimable(X, piece):
        ctx.label('not estimable')
        return
    form = case['form'] or 'netCDF4'
    units = grc.UNITS[case['units'] or 1]
    lmax = case['lmax'] or 60
    mmax = case['mmax'] if case['mmax'] is None or case['mmax'] <= lmax else None
    lon, lat, args = grc.grid(case, case['space'], case['interval'])
    Y = values(case, X, len(lon)*len(lat))
    tag = f"L{lmax}" + (f'M{mmax}' if mmax is not None and mmax != lmax else '') \
        + (f"_r{case['rad']:0.0f}km" if case['rad'] else '') + ('_FL' if case['ds'] else '')
    pre = case['prefix'] + units
    d = root/'maps'
    d.mkdir()
    for i, k in enumerate(months):
        s = gravtk.spatial()
        s.lon, s.lat = lon.copy(), lat.copy()
        s.data = Y[i].reshape(len(lat), len(lon)).copy()
        s.mask = np.zeros(s.data.shape, dtype=bool)
        s.time, s.month = t[i], int(k)
        s.to_file(d/f'{pre}_{tag}_{k:03d}{grc.SUF[form]}', format=form, date=True)
    start, end = int(months[0]), int(months[-1])
    args += ['--output-directory', d, '--file-prefix', case['prefix']] if case['prefix'] else \
        ['--output-directory', d, '--file-prefix=']
    if case['prefix'] == '' and case['argfile']:
        case = dict(case, argfile=False)
    if case['lmax']:
        args += ['--lmax', lmax]
    if mmax is not None:
        args += ['--mmax', mmax]
    args += ['--start', start, '--end', end]
    # the months without solutions are known to the programs
    have = [int(v) for v in months]
    if have != [k for k in ld.BASE if start <= k <= end]:
        args += ['--missing'] + (sorted(set(range(start, end + 1)) - set(have)) or [start - 1])
    if case['rad'] is not None:
        args += ['--radius', case['rad']]
    if case['ds']:
        args += ['--destripe']
    if case['units'] is not None:
        args += ['--units', case['units']]
    if case['form']:
        args += ['--format', case['form']]
    if piece:
        args += ['--breakpoint', int(months[ibrk])]
    elif case['order'] is not None:
        args += ['--order', case['order']]
    if case['cycles'] is not None:
        args += ['--cycles', *[repr(v) for v in case['cycles']]]
    if case['mode']:
        args += ['--mode', case['mode']]
    if case['log']:
        args += ['--log']
    before = {f.name for f in d.iterdir()}
    saved = {f: (d/f).read_bytes() for f in before}
    prog.run(program, *arguments(case, str(root), args))
    for f in before:
        require((d/f).read_bytes() == saved[f], f'{f} was changed')
    logs = {f.name for f in d.iterdir() if f.suffix == '.log'}
    same(len(logs), int(case['log']), 'number of logs')
    new = {f.name for f in d.iterdir()} - before - logs
    # reference fits of all cells
    B, E, S = [], [], []
    for y in Y.T:
        b, se, stat, q, _ = fit(X, y, piece)
        B.append(b)
        E.append(se*q)
        S.append(stat)
    B, E = np.array(B).T, np.array(E).T
    tol, etol = tolerances(X, piece)
    size = np.abs(X).max(axis=0)
    name = lambda flag, a=start, b=end: f'{pre}_{tag}_{flag}_{a:03d}-{b:03d}{grc.SUF[form]}'
    found = set()
    uname, ulong = gravtk.units.get_attributes(units)

    def said(f):
        """units and description of the values of a file"""
        k = f[len(f'{pre}_{tag}_'):].split('_')
        if k[0] in SIGNIFICANCE:
            return k[0], SIGNIFICANCE[k[0]]
        if k[1] == 'PHASE':
            return 'degrees', 'Phase'
        return uname + {'px1': ' yr^-1', 'x1': ' yr^-1', 'x2': ' yr^-2', 'px2': ' yr^-2'}.get(
            k[0], ''), ulong

    def check(f, data, error, scale):
        require(f in new, f'{f} is not written: {sorted(new)[:8]}')
        found.add(f)
        require((d/f).stat().st_mode & 0o777 == int(case['mode'] or '775', 8),
            f'permissions of {f}')
        if logs:
            require(f in (d/next(iter(logs))).read_text(), f'{f} is not in the log')
        compare(d/f, form, lon, lat, data, error, scale, tol, etol, f, X.shape)
        if form != 'ascii':
            # units and confidence of the errors
            att, top = meta.attributes(d/f, form)
            same((att['data'].get('units'), att['data'].get('long_name')), said(f), f'{f}: units')
            same(top.get('reference'), f'Output from {program}.py', f'{f}: reference')
            if error is not None:
                same((att['error'].get('units'), att['error'].get('long_name')), said(f),
                    f'{f}: units of the errors')
                same(float(att['error']['confidence']), 95.0, f'{f}: confidence')
    for i, k in enumerate(labels):
        f = name(k)
        if k == 'px1':
            brk = int(months[ibrk])
            f = name(k, start, brk) if i == 1 else name(k, brk, end)
        sc = 60/size[i] if not (piece and i == 2) else 60/min(size[1:3])
        if piece and i == 0:
            sc = 60*size[1]/np.ptp(t)*4
        elif piece and i in (1, 2):
            sc = 60*4/np.ptp(t)
        check(f, B[i], E[i], sc)
    for k, j in amp.items():
        a, p, ae, pe = amplitude(B, E, j)
        check(name(k + ('' if piece else '_AMPL')), a, ae, 60)
        # phases near the start of the circle are the same
        big = a > 0.05
        check(name(k + '_PHASE'), np.where(big, p, np.nan), np.where(big, pe, np.nan), 60*360)
    last = 'px1' if piece else labels[2 if case['order'] is None else case['order']]
    for k in ('SSE', 'AIC', 'BIC', 'R2Adj'):
        v = np.array([s[k] for s in S])
        check(name(f'{k}_{last}'), v, None, np.abs(v).max() + len(t))
    same(new, found, 'files')
    custom = any('YR' in k for k in labels)
    ctx.nontrivial(len(amp) > 0)
    ctx.label(form, f"{len(labels)} terms", 'alias' if any(len(k) > 4 for k in amp) else '',
        'custom' if custom else '')


def compare(path, form, lon, lat, data, error, scale, tol, etol, what, shape):
    nlon, nlat = len(lon), len(lat)
    if form == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        require(len(rows) == nlon*nlat, f'{what}: {len(rows)} rows')
        # cells by their coordinates
        i = np.argmin(np.abs(rows[:, 1][:, None] - lat[None, :]), axis=1)
        j = np.argmin(np.abs(rows[:, 0][:, None] - lon[None, :]), axis=1)
        same(len(set(zip(i, j))), nlon*nlat, f'{what}: cells')
        got, err = np.full((nlat, nlon), np.nan), np.full((nlat, nlon), np.nan)
        got[i, j] = rows[:, 2]
        if error is not None:
            err[i, j] = rows[:, 3]
    else:
        s = gravtk.spatial().from_file(path, format=form, date=False,
            field_mapping=dict(lon='lon', lat='lat', data='data', **(
            dict(error='error') if error is not None else {})))
        close(s.lon, lon, f'{what}: longitudes', rtol=0, atol=1e-9)
        close(s.lat, lat, f'{what}: latitudes', rtol=0, atol=1e-9)
        got = np.squeeze(s.data)
        err = np.squeeze(s.error) if error is not None else None
    atol = scale*tol + (5.1e-5 if form == 'ascii' else 0)
    for g, w, name in ((got, data, what), (err, error, f'errors of {what}')):
        if w is None:
            continue
        w = w.reshape(nlat, nlon)
        use = np.isfinite(w)
        if '_AIC_' in what:
            w = second(w, shape, g)
        if 'PHASE' in what and g is got:
            require(np.all((g[use] >= 0) & (g[use] < 360.0001)), f'{what}: range')
            diff = np.abs((g - w + 180) % 360 - 180)[use]
            close(diff, np.zeros_like(diff), name, rtol=0, atol=max(atol, 1e-4))
        else:
            close(g[use], w[use], name, rtol=etol if g is err or 'SSE' in what else tol,
                atol=(0 if g is err else scale*tol) + (5.1e-5 if form == 'ascii' else 0))


def b_polynomial(case, ctx):
    maps(case, ctx, 'regress_grace_maps', False)


def b_piecewise(case, ctx):
    maps(case, ctx, 'piecewise_grace_maps', True)


# -------------------------------------------------------------- summaries
@st.composite
def s_summary(draw):
    c = draw(s_fit())
    c.update(piece=draw(st.booleans()), header=draw(st.integers(0, 3)), stream=draw(
        st.booleans()), units=draw(st.sampled_from([None, 'cm', 'Gt'])),
        order=draw(st.integers(0, 3)), files=draw(st.integers(1, 2)))
    return c


def b_summary(case, ctx):
    root = ctx.tmp
    months, t = series(case)
    ibrk = min(max(int(round(case['brk']*(len(t) - 1))), 4), len(t) - 5) if case['piece'] \
        else None
    labels, X, amp = model(case, t, ibrk)
    if np.any(np.diff(t) <= 0) or not estimable(X, case['piece']):
        return
    Y = values(case, X, case['files'])
    files = []
    for i in range(case['files']):
        p = root/f'mascon_{i}.txt'
        p.write_text('# header\n'*case['header'] + ''.join(
            f'{k:03d} {a:12.4f} {y:16.10f} {0.5:16.10f} {1e5:16.5f}\n' if a == round(a, 4) else
            f'{k:03d} {a:12.6f} {y:16.10f} {0.5:16.10f} {1e5:16.5f}\n'
            for k, a, y in zip(months, t, Y[:, i])))
        files.append(p)
    args = [*files, '--header', case['header']]
    args += ['--breakpoint', int(months[ibrk])] if case['piece'] else ['--order', case['order']]
    if case['cycles'] is not None:
        args += ['--cycles', *[repr(v) for v in case['cycles']]]
    if case['units']:
        args += ['--units', case['units']]
    if case['stream']:
        args += ['--stream']
    text = prog.run('quick_mascon_regress', *args)
    same(sorted(f.name for f in root.iterdir()), sorted([p.name for p in files] +
        ([] if case['stream'] else [summary(p, case, months, ibrk) for p in files])), 'files')
    if case['stream']:
        parts = ['Input File' + s for s in text.split('Input File')[1:]]
    else:
        parts = [(root/summary(p, case, months, ibrk)).read_text() for p in files]
    same(len(parts), len(files), 'number of summaries')
    for p, y, part in zip(files, Y.T, parts):
        require(p.name in part.splitlines()[0], 'name of the input file')
        tables(case, part, labels, amp, *fit(X, y, case['piece']), t, X)
    ctx.nontrivial(len(amp) > 0)
    ctx.label('piecewise' if case['piece'] else 'polynomial', 'stream' if case['stream'] else
        'file')


def summary(p, case, months, ibrk):
    return f'{p.stem}_px1_{months[ibrk]}_SUMMARY.txt' if case['piece'] else \
        f"{p.stem}_x{case['order']}_SUMMARY.txt"


def tables(case, text, labels, amp, b, se, stat, q, more, t, X):
    units = case['units'] or 'Gt'
    size = np.abs(X).max(axis=0)
    # precision of coefficients related to the origin of the times
    tol, etol = tolerances(X, case['piece'])
    off = size[1] if case['piece'] else 1.0
    rows = [x.split() for x in text.splitlines() if '\t' in x and len(x.split()) >= 4]
    heads = [i for i, x in enumerate(rows) if x[0] in ('Coef.', 'Ampl.', 'Phase')]
    same([rows[i][0] for i in heads], ['Coef.', 'Ampl.', 'Phase'], 'tables')
    coef, ampl, phas = [rows[i + 1:j] for i, j in zip(heads, heads[1:] + [len(rows)])]
    known = [k for k in labels if k]
    same(len(coef), len(labels), 'number of coefficients')
    left = list(coef)
    for i, k in enumerate(labels):
        if k is None:
            continue
        row = next((x for x in left if x[0] == k), None)
        require(row is not None, f'{k} is not in the table')
        left.remove(row)
        deg = i if not case['piece'] else min(i, 1)
        unit = units + (f'yr^-{deg}' if deg and i < (3 if case['piece'] else case['order'] + 1)
            else '')
        same(''.join(row[4:]), unit, f'units of {k}')
        close(float(row[1]), b[i], f'estimate of {k}', rtol=tol*100, atol=5.1e-5 + 300*tol*off)
        for g, w, name in zip(row[2:4], (se[i], se[i]*q), ('error', '95%')):
            close(float(g), w, f'{name} of {k}', rtol=etol*10, atol=5.1e-5)
    same(len(ampl), len(labels[3 if case['piece'] else case['order'] + 1:])//2, 'amplitudes')
    same([x[0] for x in ampl], [x[0] for x in phas], 'labels')
    for k, j in amp.items():
        for e, cols in ((se, 2), (se*q, 3)):
            a, p, ae, pe = amplitude(b, e, j)
            x = next((x for x in ampl if x[0] == k), None)
            y = next((x for x in phas if x[0] == k), None)
            require(x is not None and y is not None, f'{k} is not in the tables')
            close(float(x[1]), a, f'amplitude of {k}', rtol=tol*100, atol=5.1e-5 + 300*tol)
            close(float(x[cols]), ae, f'amplitude error of {k}', rtol=etol*10 + 1e3*tol,
                atol=5.1e-5 + 300*tol)
            if a > 0.05:
                require(0 <= float(y[1]) <= 360, f'phase of {k}: {y[1]} is not from 0 to 360')
                diff = abs((float(y[1]) - p + 180) % 360 - 180)
                require(diff < 1e-4 + 36000*tol, f'phase of {k}: {y[1]} not {p}')
                close(float(y[cols]), pe, f'phase error of {k}', rtol=etol*10 + 1e4*tol,
                    atol=5.1e-5 + 36000*tol)
    crit = dict(x.split(': ') for x in text.splitlines() if x.count(': ') == 1 and
        x.split(':')[0] in ('DOF', 'AIC', 'BIC', 'LOGLIK', 'MSE', 'NRMSE', 'R2', 'R2Adj'))
    same(int(crit['DOF']), more['DOF'], 'degrees of freedom')
    for k in ('AIC', 'BIC', 'LOGLIK', 'MSE', 'NRMSE', 'R2', 'R2Adj'):
        w = {**stat, **more}[k]
        if k == 'AIC':
            w = second(w, X.shape, float(crit[k]))
        close(float(crit[k]), w, k, rtol=1e-6, atol=1e-5*len(t))


CHECKS = [
    Check('polynomial', s_fit, b_polynomial, quick=120, thorough=1500,
        rule='a cyclical term with labels'),
    Check('piecewise', s_fit, b_piecewise, quick=120, thorough=1500,
        rule='a cyclical term with labels'),
    Check('summary', s_summary, b_summary, quick=250, thorough=4000,
        rule='a cyclical term with labels'),
]

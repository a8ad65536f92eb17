"""Least-squares regression of time series: solution, statistics, extra terms"""
import numpy as np
import scipy.stats
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['times are distinct, there are at least three more samples than terms',
    'the weighted sum of squares uses the weighted residuals (weight times residual)',
    'seasonal part: every term beyond the polynomial']
PERIODS = [0.25, 0.5, 1.0, 161.0/365.25, 2.0, 1.0/3.0, 3.7, 18.6]


@st.composite
def s_series(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(8, 120)),
        sampling=draw(st.sampled_from(['monthly', 'random', 'gaps', 'unsorted'])),
        span=draw(st.sampled_from([None, 8.0, 17.0, 2.5])),
        start=draw(st.sampled_from([2002.3, 0.0, 1993.0, -5.0])),
        order=draw(st.one_of(st.none(), st.integers(0, 3))),
        cycles=draw(st.one_of(st.none(), st.lists(st.sampled_from(PERIODS), max_size=3,
            unique=True))),
        terms=draw(st.sampled_from([None, None, 'random', 'step', 'tides'])),
        rel=draw(st.sampled_from(['default', 'none', 'float', 'int', 'index', 'indices',
            'npfloat'])),
        mode=draw(st.sampled_from(['plain', 'plain', 'equal', 'weight'])),
        conf=draw(st.sampled_from([None, ['CONF', 0.95], ['CONF', 0.68], ['CONF', 0.5],
            ['STDEV', 1.0], ['STDEV', 2.0], ['STDEV', 0.5]])),
        aicc=draw(st.sampled_from([None, True, False])),
        noise=draw(st.sampled_from([0.0, 0.01, 1.0])), zeros=draw(st.booleans()),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e4])),
        shape=draw(st.sampled_from(['array', 'column', 'list'])))


def times(case):
    r = gen.rng(case['seed'], 1)
    n = case['n']
    span = case['span'] or n/12.0
    if case['sampling'] == 'monthly':
        t = np.arange(n)*span/n
    elif case['sampling'] == 'gaps':
        t = np.sort(r.choice(np.arange(n + n//3), n, replace=False))*span/n
    else:
        t = np.sort(r.random(n))*span
    if case['sampling'] == 'unsorted':
        r.shuffle(t)
    return case['start'] + t


def extra(case, t):
    r = gen.rng(case['seed'], 2)
    if case['terms'] == 'random':
        return [r.standard_normal(len(t)) for _ in range(1 + case['seed'] % 2)]
    if case['terms'] == 'step':
        return [np.where(t > np.median(t), 1.0, 0.0)]
    return None


def tides(t, period=161.0):
    """tidal aliasing: one pair of terms for each of the two missions"""
    out = []
    for sel in (t < 2018.0, t >= 2018.0):
        for f in (np.sin, np.cos):
            out.append(np.where(sel, f(2.0*np.pi*t*365.25/period), 0.0))
    return out


def setup(case):
    """times, keyword arguments and reference design matrix"""
    t = times(case)
    kw = {}
    order = 1 if case['order'] is None else case['order']
    cyc = [0.5, 1.0] if case['cycles'] is None else case['cycles']
    if case['order'] is not None:
        kw['ORDER'] = order
    if case['cycles'] is not None:
        kw['CYCLES'] = list(cyc)
    r = gen.rng(case['seed'], 3)
    ep = t.mean()
    if case['rel'] == 'none':
        kw['RELATIVE'] = Ellipsis
    elif case['rel'] == 'float':
        kw['RELATIVE'] = ep = float(t.min() + r.random()*np.ptp(t))
    elif case['rel'] == 'npfloat':
        kw['RELATIVE'] = ep = np.float64(t.mean() - 1.0)
    elif case['rel'] == 'int':
        kw['RELATIVE'] = ep = int(np.round(t.mean()))
    elif case['rel'] in ('index', 'indices'):
        i = r.integers(0, len(t), size=1 + case['seed'] % 5)
        kw['RELATIVE'] = i if case['rel'] == 'index' else [int(v) for v in i]
        ep = t[i].mean()
    cols = [(t - ep)**k for k in range(order + 1)]
    for c in cyc:
        cols += [np.sin(2*np.pi*t/c), np.cos(2*np.pi*t/c)]
    ex = extra(case, t)
    if case['terms'] == 'tides':
        ex = gravtk.time_series.aliasing_terms(t)
        cols += [v for v in tides(t)]
        # terms of a mission without data cannot be estimated
        if (t < 2018).all() or (t >= 2018).all():
            sel = slice(0, 2) if (t < 2018).all() else slice(2, 4)
            cols = cols[:-4] + tides(t)[sel]
            ex = ex[sel]
    elif ex is not None:
        cols += ex
    if ex is not None:
        kw['TERMS'] = ex
    X = np.array(cols).T
    return t, kw, X, order


def condition(X):
    return np.linalg.cond(X) if X.shape[0] > X.shape[1] + 2 else np.inf


def shaped(v, how):
    return v[:, None] if how == 'column' else list(v) if how == 'list' else v


def solve(X, y, w=None):
    """least squares by orthogonal decomposition of the scaled system"""
    s = np.ones(len(y)) if w is None else np.sqrt(w)
    A = X*s[:, None]
    n = np.linalg.norm(A, axis=0)
    q, r = np.linalg.qr(A/n)
    b = np.linalg.solve(r, q.T @ (y*s))/n
    ri = np.linalg.inv(r)
    cov = (ri @ ri.T)/np.outer(n, n)
    return b, cov


# -------------------------------------------------------------- regression
def b_fit(case, ctx):
    t, kw, X, order = setup(case)
    n, k = X.shape
    cond = condition(X)
    if not cond < 3e4:
        ctx.label('not estimable')
        return
    r = gen.rng(case['seed'], 4)
    sc = case['scale']
    beta = r.standard_normal(k)*sc/np.maximum(np.abs(X).max(axis=0), 1e-3)
    y = X @ beta + case['noise']*sc*r.standard_normal(n)
    w = None
    err = sc*(0.2 + r.random(n))
    if case['mode'] == 'weight':
        kw['WEIGHT'] = True
        kw['DATA_ERR'] = shaped(err, case['shape'])
        w = err**-2
    elif case['mode'] == 'equal':
        kw['DATA_ERR'] = float(err[0])
    elif case['conf']:
        kw[case['conf'][0]] = case['conf'][1]
    if case['aicc'] is not None:
        kw['AICc'] = case['aicc']
    tin, yin = shaped(t, case['shape']), shaped(y, case['shape'])
    saved = (t.copy(), y.copy(), err.copy(), [np.copy(v) for v in kw.get('TERMS', [])],
        list(kw.get('CYCLES', [])))
    got = gravtk.time_series.regress(tin, yin, **kw)
    same(t, saved[0], 'times after the fit')
    same(y, saved[1], 'data after the fit')
    same(err, saved[2], 'errors after the fit')
    for a, b in zip(kw.get('TERMS', []), saved[3]):
        same(a, b, 'terms after the fit')
    check_solution(case, got, X, y, w, err, order, sc, cond, 'fit')
    # an exact combination of the terms is recovered
    bs = np.abs(beta).max()
    tol = 1e-14*cond**2*50 + 1e-10
    if case['noise'] == 0:
        size = np.abs(X).max(axis=0)
        for i in range(k):
            close(got['beta'][i]*size[i], beta[i]*size[i], f'exact coefficient {i}',
                rtol=tol, atol=tol*sc)
        close(got['residual'], np.zeros(n), 'residual of an exact model', rtol=0,
            atol=tol*sc*(1 + bs/sc))
    statistics(case, got, X, y, w, err, kw, tol, sc)
    ctx.nontrivial(k > 1)
    ctx.label(case['mode'], f'order {order}', f'terms {case["terms"]}',
        'exact' if case['noise'] == 0 else 'noisy')


def check_solution(case, got, X, y, w, err, order, sc, cond, what):
    n, k = X.shape
    b, cov = solve(X, y, w)
    tol = 1e-14*cond**2*50 + 1e-10
    if w is not None:
        tol *= 50
    size = np.abs(X).max(axis=0)
    ref = max(sc, np.abs(y).max())
    require(got['N'] == k, f'{what}: number of terms')
    require(got['DOF'] == n - k, f'{what}: degrees of freedom')
    close(got['beta']*size, b*size, f'{what}: least-squares solution', rtol=tol, atol=tol*ref)
    close(got['model'], X @ b, f'{what}: modelled series', rtol=tol, atol=tol*ref)
    close(got['model'] + got['residual'], y, f'{what}: model and residual add to the data',
        rtol=1e-12, atol=1e-12*ref)
    close(got['simple'], X[:, :order + 1] @ b[:order + 1], f'{what}: simple model',
        rtol=tol, atol=tol*ref)
    if 'season' in got:
        close(got['simple'] + got['season'], got['model'], f'{what}: parts of the model',
            rtol=1e-10, atol=1e-11*ref)
    ww = np.ones(n) if w is None else w
    o = (X*ww[:, None]/size).T @ got['residual']
    close(o, np.zeros(k), f'{what}: residual orthogonal to the terms', rtol=0,
        atol=tol*ref*np.sum(ww))


def statistics(case, got, X, y, w, err, kw, tol, sc):
    n, k = X.shape
    b, cov = solve(X, y, w)
    tol = max(tol, 1e-9)
    if w is not None:
        tol *= 50
    sd = np.sqrt(np.diag(cov))
    close(got['cov_mat']/np.outer(sd, sd), cov/np.outer(sd, sd), 'covariance matrix',
        rtol=tol*10, atol=tol*10)
    if case['mode'] == 'weight':
        close(got['error'], sd, 'propagated errors', rtol=tol*10)
    elif case['mode'] == 'equal':
        close(got['error'], err[0]*sd, 'propagated errors', rtol=tol*10)
    if case['noise'] == 0:
        return
    res = y - X @ b
    sse = np.sum(res**2)
    sst = np.sum((y - y.mean())**2)
    nu = n - k
    r2 = 1 - sse/sst
    close(got['R2'], r2, 'coefficient of determination', rtol=tol, atol=tol)
    close(got['R2Adj'], 1 - (1 - r2)*(n - 1)/nu, 'adjusted coefficient', rtol=tol,
        atol=tol*n)
    wi = np.ones(n) if w is None else w
    ll = 0.5*(np.log(wi).sum() - n*(np.log(2*np.pi) + 1 - np.log(n) +
        np.log(np.sum(wi*res**2))))
    close(got['LOGLIK'], ll, 'log likelihood', rtol=1e-7, atol=1e-6*n)
    K = k + 1
    aicc = case['aicc'] if case['aicc'] is not None else None
    plain = -2*ll + 2*K
    corr = 2.0*K*(K + 1)/(n - K - 1)
    if aicc is not None:
        close(got['AIC'], plain + (corr if aicc else 0.0), 'Akaike criterion', rtol=1e-7,
            atol=1e-5*n)
    close(got['BIC'], -2*ll + np.log(n)*K, 'Schwarz criterion', rtol=1e-7, atol=1e-5*n)
    if case['mode'] == 'weight':
        close(got['WSSE'], np.sum((wi*res)**2)/nu, 'weighted sum of squares', rtol=tol*100)
        return
    close(got['MSE'], sse/nu, 'mean square error', rtol=tol)
    if case['mode'] == 'plain':
        close(got['NRMSE'], np.sqrt(sse/nu)/np.ptp(y), 'normalised error', rtol=tol)
        se = np.sqrt(sse/nu)*sd
        close(got['std_err'], se, 'standard errors', rtol=tol*10)
        p = 0.95
        if case['conf']:
            kind, v = case['conf']
            p = v if kind == 'CONF' else scipy.stats.norm.cdf(v) - scipy.stats.norm.cdf(-v)
        close(got['error'], se*scipy.stats.t.isf((1 - p)/2, nu), 'errors at the confidence',
            rtol=tol*10)


# ------------------------------------------------------------ metamorphic
def b_relations(case, ctx):
    """linearity in the data, order of the samples, scale of the errors, epoch"""
    t, kw, X, order = setup(case)
    n, k = X.shape
    cond = condition(X)
    if not cond < 3e3:
        ctx.label('not estimable')
        return
    r = gen.rng(case['seed'], 6)
    sc = case['scale']
    y1, y2 = sc*r.standard_normal((2, n))
    a, b = r.standard_normal(2)
    err = 0.3 + r.random(n)
    if case['mode'] == 'weight':
        kw.update(WEIGHT=True, DATA_ERR=err)
    f = lambda t, y, **k: gravtk.time_series.regress(t, y, **{**kw, **k})
    g1, g2 = f(t, y1), f(t, y2)
    g = f(t, a*y1 + b*y2)
    tol = 1e-13*cond**2*50 + 1e-9
    size = np.abs(X).max(axis=0)
    close(g['beta']*size, (a*g1['beta'] + b*g2['beta'])*size, 'linear in the data', rtol=tol,
        atol=tol*sc*10)
    close(g['model'], a*g1['model'] + b*g2['model'], 'model linear in the data', rtol=tol,
        atol=tol*sc*10)
    # the order of the samples is irrelevant
    p = r.permutation(n)
    k2 = {}
    if case['terms']:
        k2['TERMS'] = [v[p] for v in kw['TERMS']]
    if case['mode'] == 'weight':
        k2['DATA_ERR'] = err[p]
    if isinstance(kw.get('RELATIVE'), (list, np.ndarray)):
        inv = np.argsort(p)
        k2['RELATIVE'] = [int(inv[i]) for i in kw['RELATIVE']]
    gp = f(t[p], y1[p], **k2)
    close(gp['beta']*size, g1['beta']*size, 'order of the samples', rtol=tol, atol=tol*sc*10)
    close(gp['error']*size, g1['error']*size, 'errors and order of the samples', rtol=tol,
        atol=tol*sc*10)
    # the epoch changes the polynomial only
    e = float(t.mean() + 0.5)
    ge = f(t, y1, RELATIVE=e)
    close(ge['model'], g1['model'], 'model for another epoch', rtol=tol*10, atol=tol*sc*100)
    i = order + 1
    close(ge['beta'][i:]*size[i:], g1['beta'][i:]*size[i:], 'cycles for another epoch',
        rtol=tol*10, atol=tol*sc*100)
    if case['mode'] == 'weight':
        gs = f(t, y1, DATA_ERR=err*7.0)
        close(gs['beta']*size, g1['beta']*size, 'scale of the errors', rtol=tol*10,
            atol=tol*sc*100)
        close(gs['error'], 7.0*g1['error'], 'errors scale with the data errors', rtol=tol*10)
        # equal weights give the unweighted solution
        gq = f(t, y1, DATA_ERR=np.full(n, 2.5))
        g0 = gravtk.time_series.regress(t, y1, **{q: v for q, v in kw.items()
            if q not in ('WEIGHT', 'DATA_ERR')})
        close(gq['beta']*size, g0['beta']*size, 'equal weights', rtol=tol*10,
            atol=tol*sc*100)
        # a sample without error may be numerically singular: the errors are left alone
        if case['zeros']:
            z = err.copy()
            z[0] = 0.0
            try:
                f(t, y1, DATA_ERR=z)
            except np.linalg.LinAlgError:
                ctx.label('weights beyond double precision')
            require(z[0] == 0.0, 'zero error of the input is left unchanged')
    require(raises(lambda: gravtk.time_series.regress(t, y1, WEIGHT=True), ValueError),
        'weights need errors')
    ctx.nontrivial(k > 1)
    ctx.label(case['mode'])


# ---------------------------------------------------------- tidal aliasing
@st.composite
def s_tides(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(1, 60)),
        kind=draw(st.sampled_from(['both', 'grace', 'fo', 'edge'])),
        period=draw(st.sampled_from([None, 161.0, 171.2, 1362.0, 365.25, 13.6])))


def b_tides(case, ctx):
    r = gen.rng(case['seed'], 7)
    lo, hi = dict(both=(2002, 2024), grace=(2002, 2017.9), fo=(2018.4, 2024),
        edge=(2017.99, 2018.01))[case['kind']]
    t = np.sort(lo + (hi - lo)*r.random(case['n']))
    if case['kind'] == 'edge':
        t[case['n']//2] = 2018.0
    kw = {} if case['period'] is None else dict(period=case['period'])
    got = gravtk.time_series.aliasing_terms(t, **kw)
    want = tides(t, case['period'] or 161.0)
    require(len(got) == 4, 'two terms for each mission')
    for i, (a, b) in enumerate(zip(got, want)):
        close(np.asarray(a), b, f'aliasing term {i}', rtol=1e-9, atol=1e-9)
    ctx.nontrivial(case['n'] > 2)
    ctx.label(case['kind'])


CHECKS = [
    Check('fit', s_series, b_fit, quick=900, thorough=14000,
        rule='more than one estimable term'),
    Check('relations', s_series, b_relations, quick=500, thorough=8000,
        rule='more than one estimable term'),
    Check('aliasing', s_tides, b_tides, quick=200, thorough=2000, rule='several dates'),
]

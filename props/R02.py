"""Time series filters: piecewise fits, smoothing, filters, spectra, amplitudes"""
import math
import numpy as np
import scipy.stats
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, raises, require, same
from props.R01 import PERIODS, extra, shaped, solve, times, tides

ASSUMPTIONS = ['series are in time order', 'series are longer than the window',
    'the error of the second trend combines the errors of both slopes as independent',
    'phases averaged over windows are compared away from the date line of the angle']


@st.composite
def s_piece(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(12, 120)),
        sampling=draw(st.sampled_from(['monthly', 'random', 'gaps'])),
        span=draw(st.sampled_from([None, 8.0, 17.0])),
        start=draw(st.sampled_from([2002.3, 0.0, -5.0])), rel='none',
        brk=draw(st.sampled_from(['index', 'time', 'between', 'negative'])),
        where=draw(st.floats(0.2, 0.8)),
        cycles=draw(st.one_of(st.none(), st.lists(st.sampled_from(PERIODS[:6]), max_size=2,
            unique=True))),
        terms=draw(st.sampled_from([None, None, 'random'])),
        mode=draw(st.sampled_from(['plain', 'plain', 'equal', 'weight'])),
        conf=draw(st.sampled_from([None, ['CONF', 0.95], ['CONF', 0.68], ['STDEV', 1.0],
            ['STDEV', 2.0]])), aicc=draw(st.sampled_from([None, True, False])),
        noise=draw(st.sampled_from([0.0, 0.01, 1.0])),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e4])),
        shape=draw(st.sampled_from(['array', 'column', 'list'])))


def b_piece(case, ctx):
    t = times(case)
    n = len(t)
    i = int(np.clip(round(case['where']*n), 2, n - 3))
    kw = {}
    if case['brk'] in ('index', 'negative'):
        kw['BREAKPOINT'] = i if case['brk'] == 'index' else i - n
        tb = t[i]
    elif case['brk'] == 'time':
        kw['BREAK_TIME'] = tb = float(t[i])
    else:
        f = gen.rng(case['seed'], 11).random()
        kw['BREAK_TIME'] = tb = float(t[i] + f*(t[i + 1] - t[i]))
    cyc = [0.5, 1.0] if case['cycles'] is None else case['cycles']
    if case['cycles'] is not None:
        kw['CYCLES'] = list(cyc)
    cols = [np.ones(n), t, np.where(t > tb, t - tb, 0.0)]
    for c in cyc:
        cols += [np.sin(2*np.pi*t/c), np.cos(2*np.pi*t/c)]
    ex = extra(case, t)
    if ex is not None:
        kw['TERMS'] = ex
        cols += ex
    X = np.array(cols).T
    k = X.shape[1]
    size = np.abs(X).max(axis=0)
    cond = np.linalg.cond(X) if n > k + 2 else np.inf
    if not cond < 2e5 or np.linalg.cond(X/size) > 3e3:
        ctx.label('not estimable')
        return
    r = gen.rng(case['seed'], 4)
    sc = case['scale']
    beta = r.standard_normal(k)*sc/size
    y = X @ beta + case['noise']*sc*r.standard_normal(n)
    err = sc*(0.2 + r.random(n))
    w = None
    if case['mode'] == 'weight':
        kw.update(WEIGHT=True, DATA_ERR=shaped(err, case['shape']))
        w = err**-2
    elif case['mode'] == 'equal':
        kw['DATA_ERR'] = float(err[0])
    elif case['conf']:
        kw[case['conf'][0]] = case['conf'][1]
    if case['aicc'] is not None:
        kw['AICc'] = case['aicc']
    saved = (t.copy(), y.copy(), err.copy())
    got = gravtk.time_series.piecewise(shaped(t, case['shape']), shaped(y, case['shape']), **kw)
    for a, b in zip((t, y, err), saved):
        same(a, b, 'inputs after the fit')
    b, cov = solve(X, y, w)
    tol = 1e-15*cond**2*50 + 1e-8
    ref = max(sc, np.abs(y).max())
    out = b.copy()
    out[2] = b[1] + b[2]
    zs = size.copy()
    zs[2] = min(size[1], size[2])
    require(got['N'] == k and got['DOF'] == n - k, 'number of terms')
    close(got['beta']*zs, out*zs, 'coefficients (slope before and after the break)',
        rtol=tol, atol=tol*ref)
    close(got['model'], X @ b, 'modelled series', rtol=tol, atol=tol*ref)
    close(got['model'] + got['residual'], y, 'model and residual add to the data', rtol=1e-12,
        atol=1e-12*ref)
    close(got['simple'], X[:, :3] @ b[:3], 'model without cycles', rtol=tol, atol=tol*ref)
    if case['noise'] == 0:
        want = beta.copy()
        want[2] = beta[1] + beta[2]
        close(got['beta']*zs, want*zs, 'generating coefficients', rtol=tol, atol=tol*ref)
        close(got['residual'], np.zeros(n), 'residual of an exact series', rtol=0,
            atol=tol*ref)
    # statistics
    tol = max(tol*100, 1e-7)
    sd = np.sqrt(np.diag(cov))
    close(got['cov_mat']/np.outer(sd, sd), cov/np.outer(sd, sd), 'covariance', rtol=tol*10,
        atol=tol*10)
    both = lambda e: np.concatenate((e[:2], [np.hypot(e[1], e[2])], e[3:]))
    if case['mode'] == 'weight':
        close(got['error'], both(sd), 'propagated errors', rtol=tol*10)
    elif case['mode'] == 'equal':
        close(got['error'], both(err[0]*sd), 'propagated errors', rtol=tol*10)
    if case['noise'] > 0:
        res = y - X @ b
        sse, nu = np.sum(res**2), n - k
        r2 = 1 - sse/np.sum((y - y.mean())**2)
        close(got['R2'], r2, 'coefficient of determination', rtol=tol, atol=tol)
        close(got['R2Adj'], 1 - (1 - r2)*(n - 1)/nu, 'adjusted coefficient', rtol=tol,
            atol=tol*n)
        wi = np.ones(n) if w is None else w
        ll = 0.5*(np.log(wi).sum() - n*(np.log(2*np.pi) + 1 - np.log(n) +
            np.log(np.sum(wi*res**2))))
        K = k + 1
        close(got['LOGLIK'], ll, 'log likelihood', rtol=1e-6, atol=1e-5*n)
        close(got['AIC'], -2*ll + 2*K + (2.0*K*(K + 1)/(n - K - 1) if case['aicc'] else 0.0),
            'Akaike criterion', rtol=1e-6, atol=1e-4*n)
        close(got['BIC'], -2*ll + np.log(n)*K, 'Schwarz criterion', rtol=1e-6, atol=1e-4*n)
        if case['mode'] == 'weight':
            close(got['WSSE'], np.sum((wi*res)**2)/nu, 'weighted sum of squares',
                rtol=tol*100)
        else:
            close(got['MSE'], sse/nu, 'mean square error', rtol=tol)
        if case['mode'] == 'plain':
            se = np.sqrt(sse/nu)*sd
            p = 0.95
            if case['conf']:
                kind, v = case['conf']
                p = v if kind == 'CONF' else scipy.stats.norm.cdf(v) - scipy.stats.norm.cdf(-v)
            close(got['NRMSE'], np.sqrt(sse/nu)/np.ptp(y), 'normalised error', rtol=tol)
            close(got['std_err'], both(se), 'standard errors', rtol=tol*10)
            close(got['error'], both(se)*scipy.stats.t.isf((1 - p)/2, nu),
                'errors at the confidence', rtol=tol*10)
    ctx.nontrivial()
    ctx.label(case['mode'], 'break ' + case['brk'])


# ------------------------------------------------------------- smoothing
@st.composite
def s_smooth(draw):
    h = draw(st.integers(3, 9))
    return dict(seed=draw(gen.seeds), h=h, n=2*h + 1 + draw(st.integers(0, 40)),
        kind=draw(st.sampled_from(['moving', 'loess', 'linear', 'gauss'])),
        start=draw(st.sampled_from([2002.3, 0.0, 2017.9])), default=draw(st.booleans()),
        jitter=draw(st.sampled_from([0.0, 0.3])), gap=draw(st.booleans()),
        signal=draw(st.sampled_from(['model', 'noise', 'linear'])),
        err=draw(st.sampled_from([0, 0, 0.3])), conf=draw(st.sampled_from([None,
            ['CONF', 0.68], ['STDEV', 1.0], ['STDEV', 2.0]])),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e3])),
        shape=draw(st.sampled_from(['array', 'column', 'list'])))


def smooth_times(case):
    r = gen.rng(case['seed'], 1)
    n = case['n']
    m = np.arange(n) + (np.arange(n) > n//2)*(2.0 if case['gap'] else 0.0)
    return case['start'] + (m + case['jitter']*(r.random(n) - 0.5))/12.0


def smooth_kw(case):
    kw = {}
    if case['default']:
        case = dict(case, h=6)
    else:
        kw['HFWTH'] = case['h']
    if case['kind'] == 'moving':
        kw['MOVING'] = True
    else:
        k = dict(loess=0, linear=1, gauss=2)[case['kind']]
        if k:
            kw['WEIGHT'] = k
    if case['err']:
        kw['DATA_ERR'] = case['err']*case['scale']
    if case['conf']:
        kw[case['conf'][0]] = case['conf'][1]
    return kw, case['h']


def design(t):
    x = 2*np.pi*t
    return np.array([np.ones_like(t), t, np.sin(x), np.cos(x), np.sin(2*x), np.cos(2*x)]).T


def b_smooth(case, ctx):
    kw, h = smooth_kw(case)
    if case['n'] < 2*h + 1:
        case = dict(case, n=2*h + 1 + case['n'] % 5)
    t = smooth_times(case)
    n, sc = len(t), case['scale']
    r = gen.rng(case['seed'], 2)
    beta = r.standard_normal(6)*sc
    beta[1] *= 0.5
    tc = t - t[0]
    D0 = design(t)
    D0[:, 1] = tc
    if case['signal'] == 'linear':
        beta[2:] = 0.0
    y = D0 @ beta
    if case['signal'] == 'noise':
        y = y + sc*r.standard_normal(n)
    keep = (t.copy(), y.copy())
    got = gravtk.time_series.smooth(shaped(t, case['shape']), shaped(y, case['shape']), **kw)
    same(t, keep[0], 'times after smoothing')
    same(y, keep[1], 'data after smoothing')
    inner = slice(h, n - h)
    ref = max(np.abs(y).max(), sc)
    tol = 1e-6
    ctx.nontrivial()
    ctx.label(case['kind'], case['signal'])
    if case['kind'] == 'moving':
        same(np.asarray(got['time']), t[inner], 'times')
        w = np.ones(2*h + 1)
        w[0] = w[-1] = 0.5
        want = np.array([np.sum(w*y[i - h:i + h + 1])/(2*h) for i in range(h, n - h)])
        close(got['data'], want, 'centred moving average', rtol=1e-10, atol=1e-12*ref)
        return
    # local least-squares fits
    fits = []
    for i in range(h, n - h):
        s = slice(i - h, i + h + 1)
        A = design(t[s])
        c = t[i]
        A[:, 1] -= c
        if np.linalg.cond(A) > 2e3:
            ctx.label('window not estimable')
            return
        b, cov = solve(A, y[s])
        fits.append((i, s, A, b, cov))
    if case['kind'] == 'loess':
        same(np.asarray(got['time']), t[inner], 'times')
        B = np.array([f[3] for f in fits])
        mid = np.array([f[2][h] for f in fits])
        parts = dict(data=B[:, 0], trend=B[:, 1], seasonal=np.sum(mid[:, 2:]*B[:, 2:], 1),
            annual=np.sum(mid[:, 2:4]*B[:, 2:4], 1), semiann=np.sum(mid[:, 4:]*B[:, 4:], 1),
            annamp=np.hypot(B[:, 2], B[:, 3]), semiamp=np.hypot(B[:, 4], B[:, 5]),
            reduce=y[inner])
        for k, v in parts.items():
            close(got[k], v, f'{k} component', rtol=tol, atol=tol*ref)
        close(got['data'] + got['seasonal'] + got['noise'], y[inner],
            'components add up to the data', rtol=1e-11, atol=1e-12*ref)
        close(got['reduce'], y[inner], 'reduced series', rtol=0, atol=0)
        for k, j in (('annphase', 2), ('semiphase', 4)):
            z = (B[:, j] + 1j*B[:, j + 1])
            ok = np.abs(z) > 1e-3*ref
            d = np.exp(1j*np.radians(got[k])) - z/np.maximum(np.abs(z), 1e-300)
            close(np.abs(d[ok]), np.zeros(ok.sum()), f'{k} of the window', rtol=0, atol=1e-4)
            require(np.all(np.abs(got[k]) <= 180.0 + 1e-9), f'{k} in degrees')
        nu = 2*h + 1 - 6
        # times are not centred by the covariance of the code
        etol = 1e-4 + 1e-14*max(np.linalg.cond(design(t[f[1]])) for f in fits)**2
        if case['err']:
            e = [case['err']*sc*np.sqrt(f[4][1, 1]) for f in fits]
            close(got['error'], e, 'error of the trend', rtol=etol)
        elif case['signal'] == 'noise':
            p = 0.95
            if case['conf']:
                kind, v = case['conf']
                p = v if kind == 'CONF' else scipy.stats.norm.cdf(v) - scipy.stats.norm.cdf(-v)
            e = [np.sqrt(np.sum((y[f[1]] - f[2] @ f[3])**2)/nu*f[4][1, 1])*
                scipy.stats.t.isf((1 - p)/2, nu) for f in fits]
            close(got['error'], e, 'error of the trend', rtol=etol, atol=1e-6*ref)
    else:
        same(np.asarray(got['time']), t, 'times')
        x = np.arange(-h, h + 1)
        wi = (h + 1.0 - np.abs(x)) if case['kind'] == 'linear' else \
            np.exp(-x**2/8.0)/(2.0*np.sqrt(2*np.pi))
        W = np.zeros(n)
        out = {k: np.zeros(n) for k in ('data', 'seasonal', 'annual', 'semiann', 'annamp',
            'semiamp')}
        for i, s, A, b, cov in fits:
            W[s] += wi
            out['data'][s] += wi*(A[:, :2] @ b[:2])
            out['seasonal'][s] += wi*(A[:, 2:] @ b[2:])
            out['annual'][s] += wi*(A[:, 2:4] @ b[2:4])
            out['semiann'][s] += wi*(A[:, 4:] @ b[4:])
            out['annamp'][s] += wi*np.hypot(b[2], b[3])
            out['semiamp'][s] += wi*np.hypot(b[4], b[5])
        for k, v in out.items():
            close(got[k], v/W, f'{k} component', rtol=tol, atol=tol*ref)
        close(got['weight'], W, 'weights', rtol=1e-10)
        close(got['data'] + got['seasonal'] + got['noise'], y,
            'components add up to the data', rtol=1e-11, atol=1e-12*ref)
    if case['signal'] != 'noise':
        where = inner if case['kind'] == 'loess' else slice(None)
        close(got['data'], (D0[:, :2] @ beta[:2])[where], 'trend of the generating signal',
            rtol=tol, atol=tol*ref)
        close(got['seasonal'], (D0[:, 2:] @ beta[2:])[where], 'cycles of the signal',
            rtol=tol, atol=tol*ref)
        m = len(got['data'])
        close(got['noise'], np.zeros(m), 'no noise in the signal', rtol=0, atol=tol*ref)
        if case['signal'] == 'model':
            for k, j in (('ann', 2), ('semi', 4)):
                close(got[k + 'amp'], np.full(m, np.hypot(beta[j], beta[j + 1])),
                    f'{k} amplitude', rtol=1e-5, atol=tol*ref)
                ph = np.degrees(math.atan2(beta[j + 1], beta[j]))
                if abs(ph) < 175 and np.hypot(beta[j], beta[j + 1]) > 0.05*sc:
                    close(got[k + 'phase'], np.full(m, ph), f'{k} phase', rtol=1e-4, atol=1e-2)
    # linear in the data
    z = sc*r.standard_normal(n)
    g2 = gravtk.time_series.smooth(t, z, **kw)
    g3 = gravtk.time_series.smooth(t, 2.0*y - 3.0*z, **kw)
    for k in ('data', 'seasonal', 'annual', 'semiann', 'noise'):
        close(g3[k], 2.0*np.asarray(got[k]) - 3.0*g2[k], f'{k} is linear in the data',
            rtol=tol, atol=tol*ref*10)


# -------------------------------------------------------- Savitzky-Golay
@st.composite
def s_savgol(draw):
    order = draw(st.integers(0, 5))
    win = draw(st.one_of(st.none(), st.integers(order + 2, order + 10).map(
        lambda v: v + 1 - v % 2)))
    w = win or order - order % 2 + 3
    return dict(seed=draw(gen.seeds), order=order, win=win,
        n=max(w, draw(st.integers(5, 60))), deriv=draw(st.integers(0, min(order, 3))),
        rate=draw(st.sampled_from([None, 1, 1.0, 2.0, 0.25])), even=draw(st.booleans()),
        start=draw(st.sampled_from([0.0, 2002.3])), signal=draw(st.booleans()),
        err=draw(st.sampled_from([0, 0.5])), step=draw(st.sampled_from([1.0, 1.0/12.0])),
        shape=draw(st.sampled_from(['array', 'column', 'list'])), dflt=draw(st.booleans()))


def b_savgol(case, ctx):
    r = gen.rng(case['seed'], 1)
    n, p, dv = case['n'], case['order'], case['deriv']
    w = case['win'] or p - p % 2 + 3
    h = (w - 1)//2
    jitter = 0.0 if case['even'] else 0.6
    t = case['start'] + (np.arange(n) + jitter*(r.random(n) - 0.5))*case['step']
    u = t - t.mean()
    span = max(np.abs(u).max(), case['step'])
    c = r.standard_normal(p + 1)/span**np.arange(p + 1)
    y = np.polynomial.polynomial.polyval(u, c)
    if not case['signal']:
        y = y + r.standard_normal(n)
    kw = {}
    if case['win']:
        kw['WINDOW'] = w
    if not (case['dflt'] and p == 2):
        kw['ORDER'] = p
    if dv:
        kw['DERIV'] = dv
    if case['rate'] is not None:
        kw['RATE'] = case['rate']
    if case['err']:
        kw['DATA_ERR'] = case['err']
    y0 = y.copy()
    got = gravtk.time_series.savitzky_golay(shaped(t, case['shape']), shaped(y, case['shape']),
        **kw)
    same(y, y0, 'data after filtering')
    f = (case['rate'] or 1)**dv*math.factorial(dv)
    same(np.asarray(got['time']), t[h:n - h], 'times without the half windows')
    want, werr = [], []
    for i in range(h, n - h):
        s = (t[i - h:i + h + 1] - t[i])/case['step']
        A = s[:, None]**np.arange(p + 1)
        q, rr = np.linalg.qr(A)
        m = np.linalg.solve(rr, q.T)[dv]*f/case['step']**dv
        want.append(m @ y[i - h:i + h + 1])
        werr.append(np.sqrt(np.sum(m**2))*case['err'])
    scale = f/case['step']**dv*max(np.abs(y).max(), 1.0)*10
    close(got['data'], want, 'local polynomial fits', rtol=1e-6, atol=1e-8*scale)
    close(got['error'], werr, 'propagated errors', rtol=1e-6, atol=1e-9*scale)
    if case['signal']:
        d = np.polynomial.polynomial.polyder(c, dv) if dv else c
        d = np.polynomial.polynomial.polyval(u, d)[h:n - h]*(case['rate'] or 1)**dv
        close(got['data'], d, 'polynomials and their derivatives are reproduced', rtol=1e-6,
            atol=1e-8*scale)
    for bad in (w + 1, -w, p + 1 if (p + 1) % 2 else p):
        require(raises(lambda: gravtk.time_series.savitzky_golay(t, y, WINDOW=bad, ORDER=p),
            ValueError), f'a window of {bad} for order {p} is rejected')
    ctx.nontrivial()
    ctx.label(f'order {p}', f'derivative {dv}', 'even' if case['even'] else 'irregular')


# ------------------------------------------------------------- periodogram
@st.composite
def s_spectrum(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(30, 120)),
        even=draw(st.booleans()), start=draw(st.sampled_from([0.0, 2002.3])),
        period=draw(st.floats(0.45, 3.0)), lo=draw(st.floats(0.3, 0.4)),
        hi=draw(st.floats(3.2, 5.0)), how=draw(st.sampled_from(['OMEGA', 'FREQUENCY',
            'PERIOD'])), rev=draw(st.booleans()), N=draw(st.sampled_from([None, 200, 301])),
        noise=draw(st.sampled_from([0.0, 0.0, 1.0])), norm=draw(st.booleans()),
        p=draw(st.sampled_from([None, [0.1], [0.5, 0.05, 1e-3], [1e-3, 0.2, 0.01]])),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e4])), offset=draw(st.booleans()),
        shape=draw(st.sampled_from(['array', 'column', 'list'])))


def b_spectrum(case, ctx):
    r = gen.rng(case['seed'], 1)
    n, sc = case['n'], case['scale']
    t = case['start'] + (np.arange(n) + (0.0 if case['even'] else 0.8)*(r.random(n) - 0.5))/12.0
    ph = r.random()*2*np.pi
    y = sc*(np.sin(2*np.pi*t/case['period'] + ph) + (5.0 if case['offset'] else 0.0)
        + case['noise']*r.standard_normal(n))
    per = [case['hi'], case['lo']]
    if case['rev']:
        per = per[::-1]
    val = dict(PERIOD=per, FREQUENCY=[1/v for v in per],
        OMEGA=[2*np.pi/v for v in per])[case['how']]
    kw = {case['how']: list(val)}
    if case['N']:
        kw['N'] = case['N']
    if case['norm']:
        kw['NORMALIZE'] = True
    if case['p']:
        kw['p'] = list(case['p'])
    y0 = y.copy()
    got = gravtk.time_series.lomb_scargle(shaped(t, case['shape']), shaped(y, case['shape']),
        **kw)
    same(y, y0, 'data after the analysis')
    f = np.linspace(1/per[0], 1/per[1], case['N'] or 1000)
    close(got['frequency'], f, f'frequencies from {case["how"]}', rtol=1e-9)
    close(got['period'], 1/f, f'periods from {case["how"]}', rtol=1e-9)
    x = (y - y.mean())/y.std()
    w = 2*np.pi*f[:, None]
    s = t - t[0]
    tau = np.arctan2(np.sin(2*w*s).sum(1), np.cos(2*w*s).sum(1))/(2*w[:, 0])
    a = w*(s - tau[:, None])
    C, S = np.cos(a), np.sin(a)
    P = 0.5*((C @ x)**2/np.sum(C**2, 1) + (S @ x)**2/np.sum(S**2, 1))
    if case['norm']:
        P = P*2/np.sum(x**2)
    close(got['PowerDensity'], P, 'spectral density', rtol=1e-6, atol=1e-7*P.max())
    close(got['Nyquist'], 0.5*(n - 1)/(t[-1] - t[0]), 'Nyquist frequency', rtol=1e-9)
    ind = max(np.round(-6.362 + 1.193*n + 0.00098*n**2), 1)
    q = np.asarray(got['PowerDensity'])
    close(got['Probability'], 1 - (1 - np.exp(-q))**ind, 'significance', rtol=1e-6, atol=1e-9)
    lev = np.array(case['p'] or [0.05, 0.01, 0.001, 1e-4, 1e-5, 1e-6])
    c = np.asarray(got['contour'])
    close(1 - (1 - np.exp(-c))**ind, lev, 'contours have the probability of their level',
        rtol=1e-5)
    i = int(np.argmax(q))
    close(got['peak'], 1/f[i], 'period of the peak', rtol=1e-9)
    close(got['centroid'], np.sum(q/f)/np.sum(q), 'centroid', rtol=1e-9)
    if case['noise'] == 0:
        # within the resolution of the series (shorter at the edges of the range)
        span = t[-1] - t[0]
        if span/case['period'] > 2.0:
            require(abs(1/got['peak'] - 1/case['period']) < 0.5/span,
                lambda: f'a peak at {got["peak"]} for a period of {case["period"]}')
    ctx.nontrivial()
    ctx.label(case['how'], 'normalised' if case['norm'] else 'plain')
    require(raises(lambda: gravtk.time_series.lomb_scargle(t, y), ValueError),
        'a range of frequencies is required')


# --------------------------------------------------------------- amplitude
@st.composite
def s_ampl(draw):
    return dict(seed=draw(gen.seeds), ndim=draw(st.integers(0, 3)),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e5])), axis=draw(st.booleans()))


def b_ampl(case, ctx):
    r = gen.rng(case['seed'], 1)
    shape = tuple(r.integers(1, 5, size=case['ndim']))
    s, c = r.standard_normal((2,) + shape)*case['scale']
    if case['axis']:
        s = s*0.0 if case['seed'] % 2 else -np.abs(s)
        c = c*0.0 if case['seed'] % 2 == 0 else c
    a, p = gravtk.time_series.amplitude(s, c)
    require(np.shape(a) == shape and np.shape(p) == shape, 'shape of the amplitudes')
    require(np.all(np.asarray(a) >= 0) and np.all(np.abs(p) <= 180.0 + 1e-9),
        'ranges of amplitude and phase')
    for x in r.random(4)*10:
        close(a*np.sin(x + np.radians(p)), s*np.sin(x) + c*np.cos(x),
            'sinusoid of the amplitude and phase', rtol=1e-10, atol=1e-12*case['scale']*10)
    close(a, np.hypot(s, c), 'amplitude', rtol=1e-12)
    ctx.nontrivial(case['ndim'] > 0)


CHECKS = [
    Check('piecewise', s_piece, b_piece, quick=700, thorough=10000,
        rule='all terms can be estimated'),
    Check('smooth', s_smooth, b_smooth, quick=500, thorough=6000, rule='every case'),
    Check('savgol', s_savgol, b_savgol, quick=500, thorough=6000, rule='every case'),
    Check('spectrum', s_spectrum, b_spectrum, quick=300, thorough=3000, rule='every case'),
    Check('amplitude', s_ampl, b_ampl, quick=300, thorough=2000, rule='arrays'),
]

"""Sea level equation"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, same
from props.O01 import make_mask
from props.S02 import quadrature

ASSUMPTIONS = ['load Love numbers with |1 + k - h| below 2 (the iteration contracts)',
    'the land function is 0 or 1 on a regular grid with ocean somewhere',
    'cases within rounding of the convergence limit are skipped']


def fluid(code):
    w = 7.292115e-5
    if isinstance(code, list):
        return code[0]
    return {0: 0.00328475/0.00348118,
        1: 3.0*3.98004418e14/305.51*0.33068/(6.371e6**3*w**2),
        2: 2.0/298.257223563*9.80665/(w**2*6.371e6) - 1.0,
        3: 0.942}[code]


def body_tide(code):
    if isinstance(code, list):
        return code
    return {0: (0.298, 0.604), 1: (0.3055, 0.6149)}[code]


@st.composite
def s_solve(draw):
    lmax = draw(st.integers(2, 20))
    return dict(seed=draw(gen.seeds), lmax=lmax, n=draw(st.integers(max(8, lmax + 1), 26)),
        kind=draw(st.sampled_from(['white', 'sparse', 'blocks', 'blocks', 'ocean'])),
        field=draw(gen.field_spec()),
        body=draw(st.sampled_from([None, 0, 1, 'custom'])),
        fluid=draw(st.sampled_from([None, 0, 1, 2, 3, 'custom'])),
        polar=draw(st.sampled_from([None, True, False])),
        iters=draw(st.sampled_from([None, 1, 2, 3, 20])),
        plm=draw(st.booleans()), fill=draw(st.sampled_from([None, 0, -9999.0, 'nan'])),
        real=draw(st.sampled_from([None, 'f8', 'g'])), scale=draw(st.booleans()),
        center=draw(st.booleans()), up=draw(st.booleans()), lon180=draw(st.booleans()),
        extra=draw(st.booleans()))


def b_solve(case, ctx):
    r = gen.rng(case['seed'], 3)
    lmax, n = case['lmax'], case['n']
    d = 180.0/n
    if case['center']:
        lat, lon = 90 - d/2 - d*np.arange(n), d/2 + d*np.arange(2*n)
    else:
        lat, lon = 90 - d*np.arange(n + 1), d*np.arange(2*n)
    if case['lon180']:
        lon = lon - 180.0
    if case['up']:
        lat = lat[::-1].copy()
    mask = make_mask(case['seed'], case['kind'], len(lat), len(lon))
    land = ((mask >= 1) & (mask <= 3)).astype(float).T
    ocean = 1.0 - land
    clm, slm = gen.coeffs(case['field'], lmax)
    hl, kl, ll = gen.love(case['seed'], lmax + (5 if case['extra'] else 0))
    # keep the iteration contracting
    g = np.clip(1 + kl - hl, -1.5, 1.5)
    hl = 1 + kl - g
    if np.any(np.abs(1 + kl) < 0.1):
        return
    area = np.cos(np.radians(lat))*np.radians(d)**2
    if np.sum(ocean*area) < 0.2:
        return
    body = [float(r.uniform(0, .5)), float(r.uniform(0, 1))] if case['body'] == 'custom' \
        else case['body']
    flu = [float(r.uniform(0.8, 1.2))] if case['fluid'] == 'custom' else case['fluid']
    kw = dict(LMAX=lmax, LOVE=(hl, kl, ll))
    if body is not None:
        kw['BODY_TIDE_LOVE'] = body if r.random() < .5 or not isinstance(body, list) \
            else tuple(body)
    if flu is not None:
        kw['FLUID_LOVE'] = flu
    if case['polar'] is not None:
        kw['POLAR'] = case['polar']
    if case['iters'] is not None:
        kw['ITERATIONS'] = case['iters']
    P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)))
    if case['plm']:
        kw['PLM'] = P.copy()
    fill = np.nan if case['fill'] == 'nan' else case['fill']
    if fill is not None:
        kw['FILL_VALUE'] = fill
    if case['real']:
        kw['ASTYPE'] = np.float64 if case['real'] == 'f8' else np.longdouble
    if case['scale']:
        kw['SCALE'] = 1e-100
    args = [clm.copy(), slm.copy(), lon.copy(), lat.copy(), land.copy()]
    out = gravtk.sea_level_equation(*args, **kw)
    for a, b, w in zip(args, (clm, slm, lon, lat, land),
            ('cosine', 'sine', 'longitudes', 'latitudes', 'land function')):
        same(a, b, w + ' unchanged')
    # reference
    e = oracle.Earth()
    l = np.arange(lmax + 1)
    h, k = hl[:lmax + 1], kl[:lmax + 1]
    ch = np.repeat((3/e.rho*(1 + k - h)/(2*l + 1))[:, None], lmax + 1, axis=1)
    cp = np.repeat(((1 + k - h)/(1 + k))[:, None], lmax + 1, axis=1)
    if case['polar'] is not False:
        k2, h2 = body_tide(0 if body is None else body)
        f = (1 + k2 - h2)/(fluid(0 if flu is None else flu) - k2)
        ch[2, 1] += 3/e.rho*f*(1 + k[2])/5
        cp[2, 1] += f
    w = area/(4*np.pi)
    tri = gen.tri_mask(lmax)
    ana = lambda x: [v*tri for v in quadrature(x, lon, lat, lmax, lmax, w)]
    O = ana(ocean)
    total = -4*np.pi*e.R*e.rho*clm[0, 0]/3
    A = 4*np.pi*O[0][0, 0]
    H = [total/A*v for v in O]
    n_max = 6 if case['iters'] is None else case['iters']
    bound = 0.0
    errs = []
    field = None
    history = []
    for it in range(max(n_max, 12)):
        c = ch*H[0] + e.R*cp*clm
        s = ch*H[1] + e.R*cp*slm
        S = oracle.synth(c, s, lon, lat)*ocean
        bound = max(bound, oracle.basis_bound(c, s))
        Y = ana(S)
        shift = (total - 4*np.pi*Y[0][0, 0])/A
        S = S + shift*ocean
        bound = max(bound, abs(shift))
        new = [a + shift*b for a, b in zip(Y, O)]
        m1 = np.sqrt(H[0]**2 + H[1]**2)
        m2 = np.sqrt(new[0]**2 + new[1]**2)
        H = new
        history.append(S)
        if field is None:
            den = m1.sum()
            num = abs((m2 - m1).sum())
            eps = num/den if den > 0 else (np.inf if num > 0 else 0.0)
            if den > 0 and abs(eps - 1e-4) < 1e-8 + 1e-9*m2.sum()/den:
                return
            if 0 < den < 1e-9*bound:
                return
            if not eps > 1e-4 or it + 1 >= n_max:
                field, n_it = S, it + 1
    require(np.shape(out) == (len(lon), len(lat)), 'shape')
    oc = ocean > 0
    tol = 1e-10*bound + 1e-300
    close(np.asarray(out)[oc], field[oc], f'sea level after {n_it} iterations', rtol=0, atol=tol)
    if fill:
        same(np.asarray(out)[~oc], np.full((~oc).sum(), fill), 'fill value on land')
    else:
        same(np.asarray(out)[~oc], np.zeros((~oc).sum()), 'no sea level on land')
    # mass conservation on the grid itself
    mass = np.sum(np.where(oc, out, 0.0)*area)
    close(mass, total, 'mass of the ocean change', rtol=0, atol=4*np.pi*tol)
    ctx.nontrivial(land.any() and np.any(clm) and n_it > 1)
    ctx.label('polar' if case['polar'] is not False else 'static', f'{min(n_it, 7)} iterations')


@st.composite
def s_linear(draw):
    return dict(seed=draw(gen.seeds), lmax=draw(st.integers(2, 16)),
        polar=draw(st.booleans()), a=draw(st.sampled_from([2.0, -1.0, 1e-6, 1e5])))


def b_linear(case, ctx):
    """with a fixed number of iterations the solution is linear and converges"""
    lmax = case['lmax']
    r = gen.rng(case['seed'], 4)
    n = lmax + 8
    d = 180.0/n
    lat, lon = 90 - d/2 - d*np.arange(n), d/2 + d*np.arange(2*n)
    mask = make_mask(case['seed'], 'blocks', n, 2*n)
    land = ((mask >= 1) & (mask <= 3)).astype(float).T
    if land.mean() > 0.7:
        return
    # like the Earth's load Love numbers
    l = np.arange(lmax + 1)
    kl = -0.3/(1 + 0.3*l)*r.uniform(.5, 1.5, lmax + 1)
    hl = -(1 + 0.05*l)*r.uniform(.5, 1.0, lmax + 1)
    kl[0] = hl[0] = 0
    love = (hl, kl, hl*0)
    u = [gen.coeffs(dict(seed=case['seed'], kind='kaula', scale=1e-9), lmax) for _ in (0, 1)]
    v = gen.coeffs(dict(seed=case['seed'] + 1, kind='kaula', scale=1e-9), lmax)
    f = lambda c, s, k: np.asarray(gravtk.sea_level_equation(c, s, lon, lat, land, LMAX=lmax,
        LOVE=love, POLAR=case['polar'], ITERATIONS=k), dtype=float)
    c, s = u[0]
    one = f(c, s, 1)
    scale = np.abs(one).max()
    close(f(case['a']*c, case['a']*s, 1), case['a']*one, 'scaled load', rtol=0,
        atol=1e-9*scale*abs(case['a']))
    both = f(c + v[0], s + v[1], 1)
    two = f(v[0], v[1], 1)
    close(both, one + two, 'sum of loads', rtol=0, atol=1e-9*(scale + np.abs(two).max()))
    # zero load, no change
    if case['a'] == 2.0:
        z = f(0*c, 0*s, 3)
        close(z, np.zeros(z.shape), 'no load', rtol=0, atol=1e-300)
    # successive solutions approach each other
    many = f(c, s, 30)
    area = np.cos(np.radians(lat))*np.radians(d)**2
    norm = lambda x: np.sqrt(np.sum(x*x*area))
    e1, e3 = norm(one - many), norm(f(c, s, 3) - many)
    require(e3 <= 0.8*e1 + 1e-3*norm(many), lambda: f'no convergence: {e1} {e3}')
    ctx.nontrivial(land.any())


CHECKS = [
    Check('solve', s_solve, b_solve, 220, rule='land, a load and more than one iteration'),
    Check('linear', s_linear, b_linear, 60, rule='masks with land'),
]

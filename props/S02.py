"""Analysis of gridded fields"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['grids are regular, cover the sphere once (no repeated meridian) and '
    'have different numbers of longitudes and latitudes']


def make_grid(case):
    n, off = case['n'], case['lon0']
    d = 180.0/n
    if case['grid'] == 'center':
        lat = 90.0 - d/2 - d*np.arange(n)
        lon = d/2 + d*np.arange(2*n)
    else:
        lat = 90.0 - d*np.arange(n + 1)
        lat[-1] = -90.0
        lon = d*np.arange(2*n)
    if case['lonstep'] > 1:
        lon = lon[::case['lonstep']]
    if case['up']:
        lat = lat[::-1].copy()
    if case['lon180']:
        lon = np.where(lon >= 180, lon - 360, lon)
        lon = np.roll(lon, -int(np.argmin(lon)))
    return lon, lat


@st.composite
def grids(draw, lmax, lonstep=True):
    n = draw(st.integers(max(lmax + 2, 6), max(2*lmax, lmax + 2, 6) + 12))
    step = 1
    if lonstep and n % 3 == 0 and (2*n)//3 > 2*lmax + 1:
        step = draw(st.sampled_from([1, 3]))
    return dict(n=n, grid=draw(st.sampled_from(['center', 'pole'])),
        up=draw(st.booleans()), lon180=draw(st.booleans()), lonstep=step, lon0=0)


@st.composite
def s_analysis(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 24))
    # sometimes the default limits
    if draw(st.integers(0, 30)) == 0:
        lmax = mmax = 60
    c = draw(grids(lmax))
    c.update(lmax=lmax, mmax=mmax, defmm=(lmax == mmax and draw(st.booleans())),
        field=draw(gen.field_spec()), order=draw(st.sampled_from(['lonlat', 'latlon'])),
        method=draw(st.sampled_from(['fourier', 'Fourier', 'integration', 'default'])),
        pre=draw(st.sampled_from(['none', 'none', 'full', 'trunc'])),
        ints=draw(st.booleans()))
    return c


def quadrature(f, lon, lat, lmax, mmax, weight):
    """independent evaluation of the rectangular rule"""
    P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)), mmax)
    m = np.arange(mmax + 1)
    c = np.cos(np.radians(np.outer(lon, m)))
    s = np.sin(np.radians(np.outer(lon, m)))
    C = np.einsum('lmt,pt,pm,t->lm', P, f, c, weight)
    S = np.einsum('lmt,pt,pm,t->lm', P, f, s, weight)
    return C, S


def orient(f, order):
    return f.T.copy() if order == 'latlon' else f.copy()


def b_analysis(case, ctx):
    lmax, mmax = case['lmax'], case['mmax']
    lon, lat = make_grid(case)
    clm, slm = gen.coeffs(case['field'], lmax)
    f = oracle.synth(clm, slm, lon, lat)
    data = orient(f, case['order'])
    if np.shape(data)[0] == len(lat) and case['order'] == 'lonlat':
        return
    kw = dict(LMAX=lmax)
    if not case['defmm']:
        kw['MMAX'] = mmax
    if lmax == 60:
        kw.pop('LMAX')
    four = case['method'].lower() == 'fourier'
    if case['method'] != 'default':
        kw['METHOD'] = case['method']
    if case['pre'] != 'none':
        if four:
            kw['PLM'] = gravtk.fourier_legendre(lmax, mmax)
        else:
            P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)))
            kw['PLM'] = P if case['pre'] == 'full' else np.copy(P[:, :mmax + 1])
    d0, lon0, lat0 = data.copy(), lon.copy(), lat.copy()
    Y = gravtk.gen_harmonics(data, lon, lat, **kw)
    same(data, d0, 'field unchanged')
    same(lon, lon0, 'longitudes unchanged')
    same(lat, lat0, 'latitudes unchanged')
    require(int(Y.lmax) == lmax and int(Y.mmax) == mmax, 'limits of the result')
    require(np.shape(Y.clm) == (lmax + 1, mmax + 1), 'shape of the result')
    bound = oracle.basis_bound(clm, slm) + 1e-300
    if four:
        close(Y.clm, clm[:, :mmax + 1], 'Fourier analysis (cosine)', rtol=0,
            atol=1e-10*bound)
        close(Y.slm, slm[:, :mmax + 1], 'Fourier analysis (sine)', rtol=0,
            atol=1e-10*bound)
    else:
        dth = np.radians(180.0/case['n'])
        dphi = np.radians(abs(lon[1] - lon[0]))
        w = np.cos(np.radians(lat))*dth*dphi/(4*np.pi)
        C, S = quadrature(f, lon, lat, lmax, mmax, w)
        tri = gen.tri_mask(lmax, mmax)
        close(Y.clm, C*tri, 'integration (cosine)', rtol=0, atol=1e-11*bound)
        close(Y.slm, S*tri, 'integration (sine)', rtol=0, atol=1e-11*bound)
        # discretisation error of the rule against the true coefficients
        lim = (lmax + 1)**2*dth**2*bound
        close(Y.clm, clm[:, :mmax + 1], 'round trip (cosine)', rtol=0, atol=lim)
        close(Y.slm, slm[:, :mmax + 1], 'round trip (sine)', rtol=0, atol=lim)
    ctx.nontrivial(np.any(clm) and lmax >= 2)
    ctx.label('fourier' if four else 'integration', case['grid'],
        'trunc' if mmax < lmax else 'full')


@st.composite
def s_stokes(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 20))
    c = draw(grids(lmax))
    c.update(lmax=lmax, mmax=mmax, defmm=(lmax == mmax and draw(st.booleans())),
        lmin=draw(st.one_of(st.just(0), st.integers(0, lmax))),
        field=draw(gen.field_spec()), order=draw(st.sampled_from(['lonlat', 'latlon'])),
        units=draw(st.sampled_from([1, 1, 2, 3, 'array', 'list'])),
        pre=draw(st.sampled_from(['none', 'none', 'full', 'trunc'])),
        white=draw(st.booleans()))
    return c


def b_stokes(case, ctx):
    lmax, mmax, lmin = case['lmax'], case['mmax'], case['lmin']
    lon, lat = make_grid(case)
    clm, slm = gen.coeffs(case['field'], lmax)
    if case['white']:
        f = gen.rng(case['field']['seed'], 9).standard_normal((len(lon), len(lat)))
    else:
        f = oracle.synth(clm, slm, lon, lat)
    data = orient(f, case['order'])
    if np.shape(data)[0] == len(lat) and case['order'] == 'lonlat':
        return
    love = gen.love(case['field']['seed'], lmax)
    e = oracle.Earth()
    dth = np.radians(180.0/case['n'])
    dphi = np.radians(abs(lon[1] - lon[0]))
    area = np.cos(np.radians(lat))*dth*dphi
    sp = oracle.spatial_factors(lmax, love)
    kw = dict(LMAX=lmax)
    if case['units'] in ('array', 'list'):
        fac = gen.rng(case['field']['seed'], 8).standard_normal(lmax + 1)
        kw['UNITS'] = fac if case['units'] == 'array' else [float(v) for v in fac]
        w = area
    else:
        fac = sp['mmwe'] if case['units'] == 3 else sp['cmwe']
        w = np.full(len(lat), 1e15/e.R**2) if case['units'] == 2 else area
        kw['LOVE'] = love
        if case['units'] != 1:
            kw['UNITS'] = case['units']
    if lmin:
        kw['LMIN'] = lmin
    if not case['defmm']:
        kw['MMAX'] = mmax
    if case['pre'] != 'none':
        P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)))
        kw['PLM'] = P if case['pre'] == 'full' else np.copy(P[:, :mmax + 1])
    d0, lon0, lat0 = data.copy(), lon.copy(), lat.copy()
    Y = gravtk.gen_stokes(data, lon, lat, **kw)
    same(data, d0, 'field unchanged')
    same(lon, lon0, 'longitudes unchanged')
    same(lat, lat0, 'latitudes unchanged')
    require(int(Y.lmax) == lmax and int(Y.mmax) == mmax, 'limits of the result')
    C, S = quadrature(f, lon, lat, lmax, mmax, w)
    keep = gen.tri_mask(lmax, mmax) & (np.arange(lmax + 1) >= lmin)[:, None]
    C, S = C*fac[:, None]*keep, S*fac[:, None]*keep
    tol = 1e-10*np.max(np.abs(f))*np.sum(w)*len(lon)*np.abs(fac)[:, None]*(lmax + 1)
    close(Y.clm, C, f"units {case['units']} (cosine)", rtol=0, atol=tol + 1e-300)
    close(Y.slm, S, f"units {case['units']} (sine)", rtol=0, atol=tol + 1e-300)
    if case['units'] in (1, 3) and not case['white']:
        # converting back with the inverse factors returns the field's harmonics
        inv = oracle.harmonic_factors(lmax, love)['mmwe' if case['units'] == 3 else 'cmwe']
        bound = oracle.basis_bound(clm, slm) + 1e-300
        close(Y.clm*inv[:, None], (clm[:, :mmax + 1]*keep), 'round trip', rtol=0,
            atol=(lmax + 1)**2*dth**2*bound)
    ctx.nontrivial(np.any(C) and lmax >= 2)
    ctx.label(f"units={case['units']}", f"lmin{'>0' if lmin else '=0'}")


@st.composite
def s_linear(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 14))
    c = draw(grids(lmax))
    c.update(lmax=lmax, mmax=mmax, seed=draw(gen.seeds), a=draw(gen.nice_floats(-5, 5)),
        method=draw(st.sampled_from(['integration', 'fourier', 'stokes'])))
    return c


def b_linear(case, ctx):
    lmax, mmax, a = case['lmax'], case['mmax'], case['a']
    lon, lat = make_grid(case)
    r = gen.rng(case['seed'])
    f, g = r.standard_normal((2, len(lon), len(lat)))
    love = gen.love(case['seed'], lmax)

    def an(d):
        if case['method'] == 'stokes':
            return gravtk.gen_stokes(d, lon, lat, LMAX=lmax, MMAX=mmax, LOVE=love,
                UNITS=np.ones(lmax + 1))
        return gravtk.gen_harmonics(d, lon, lat, LMAX=lmax, MMAX=mmax,
            METHOD=case['method'])
    A, B, Z = an(f), an(g), an(f + a*g)
    close(Z.clm, A.clm + a*B.clm, 'linearity (cosine)', rtol=0, atol=1e-9*(1 + abs(a)))
    close(Z.slm, A.slm + a*B.slm, 'linearity (sine)', rtol=0, atol=1e-9*(1 + abs(a)))
    # the latitude order of the grid does not matter
    if case['method'] != 'fourier' or True:
        lat2 = lat[::-1].copy()
        if case['method'] == 'stokes':
            R = gravtk.gen_stokes(f[:, ::-1].copy(), lon, lat2, LMAX=lmax, MMAX=mmax,
                LOVE=love, UNITS=np.ones(lmax + 1))
        else:
            R = gravtk.gen_harmonics(f[:, ::-1].copy(), lon, lat2, LMAX=lmax,
                MMAX=mmax, METHOD=case['method'])
        close(R.clm, A.clm, 'latitude order', rtol=0, atol=1e-9)
        close(R.slm, A.slm, 'latitude order', rtol=0, atol=1e-9)
    ctx.nontrivial(lmax >= 2)
    ctx.label(case['method'])


@st.composite
def s_fl(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 50))
    return dict(lmax=lmax, mmax=mmax, theta=draw(st.lists(gen.nice_floats(0.1, 179.9),
        min_size=1, max_size=6)))


def b_fl(case, ctx):
    lmax, mmax = case['lmax'], case['mmax']
    th = np.radians(np.array(case['theta']))
    F = gravtk.fourier_legendre(lmax, mmax)
    require(np.shape(F)[0] == lmax + 1 and np.shape(F)[1] >= mmax + 1 and
        np.shape(F)[2] == lmax + 1, f'shape {np.shape(F)}')
    P, _ = oracle.plm4pi(lmax, np.cos(th), mmax)
    k = np.arange(lmax + 1)
    for m in range(mmax + 1):
        base = np.cos(np.outer(k, th)) if m % 2 == 0 else np.sin(np.outer(k, th))
        close(F[m:, m, :] @ base, P[m:, m], f'Fourier series of order {m}', rtol=0,
            atol=1e-9*(lmax + 1))
    ctx.nontrivial(lmax >= 2)
    ctx.label('odd' if lmax % 2 else 'even')


CHECKS = [
    Check('analysis', s_analysis, b_analysis, quick=300, thorough=4000,
        rule='non-zero field of degree 2 or more'),
    Check('stokes', s_stokes, b_stokes, quick=300, thorough=4000,
        rule='non-zero result of degree 2 or more'),
    Check('linear', s_linear, b_linear, quick=150, thorough=2000,
        rule='degree 2 or more'),
    Check('fourier_legendre', s_fl, b_fl, quick=120, thorough=1500,
        rule='degree 2 or more'),
]

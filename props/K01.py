"""Coefficients of disc loads, spherical caps and point masses"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['spherical caps follow the documented planar convention between '
    'arc radius and area (area = pi*r**2); discs use the exact spherical area',
    'reference: closed-form Legendre coefficients evaluated in extended precision']
R = oracle.Earth().R


def legendre(lmax, x):
    """unnormalised P_l(x), l=0..lmax, extended precision"""
    x = np.longdouble(x)
    P = [np.longdouble(1), x]
    for l in range(2, lmax + 1):
        P.append(((2*l - 1)*x*P[-1] - (l - 1)*P[-2])/l)
    return np.array(P[:lmax + 1])


def kernel(lmax, x):
    """integral of P_l from x to 1, times (2l+1)/2"""
    P = legendre(lmax + 1, x)
    F = np.zeros(lmax + 1)
    F[0] = (1 - np.longdouble(x))/2
    F[1:] = (P[:lmax] - P[2:lmax + 2])/2
    return F


def lon_lat():
    lon = st.one_of(st.sampled_from([0.0, 180.0, -180.0, 359.5, 360.0, 90.0]),
        gen.nice_floats(-360, 360))
    lat = st.one_of(st.sampled_from([90.0, -90.0, 0.0, 45.0]),
        gen.nice_floats(-89.9, 89.9))
    return st.tuples(lon, lat).map(list)


UNIT = st.sampled_from([1, 2, 3, 'list', 'array'])


@st.composite
def s_load(draw, cap):
    lm = draw(gen.lmax_mmax(1, 50))
    d = dict(lm=lm, ll=draw(lon_lat()), seed=draw(gen.seeds), units=draw(UNIT),
        data=draw(gen.nice_floats(-1e4, 1e4).filter(lambda v: abs(v) > 1e-3)),
        plm=draw(st.booleans()), full_mmax=draw(st.booleans()))
    # angular radius in degrees
    d['ang'] = draw(st.one_of(gen.nice_floats(0.1, 5.0), gen.nice_floats(0.1, 90.0)
        if cap else gen.nice_floats(0.2, 120.0)))
    if cap:
        d['give'] = draw(st.sampled_from(['RAD_CAP', 'AREA', 'RAD_KM']))
    return d


def dfactor(case, lmax, love):
    """stokes coefficients per unit surface density expansion coefficient"""
    if case['units'] in ('list', 'array'):
        u = gen.rng(case['seed'], 5).random(lmax + 1) + 0.1
        return u, (list(u) if case['units'] == 'list' else u)
    f = oracle.spatial_factors(lmax, love)['cmwe']
    l = np.arange(lmax + 1)
    return 4*np.pi*f/(2*l + 1.0), case['units']


def expected(case, lmax, mmax, love, x, area_cm2):
    conv = {1: 1.0, 2: 1e15/area_cm2, 3: 0.1}.get(case['units'], 1.0)
    df, _ = dfactor(case, lmax, love)
    lon, lat = case['ll']
    P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)), mmax)
    m = np.arange(mmax + 1)
    amp = (df*kernel(lmax, x)*case['data']*conv)[:, None]*P[:, :, 0]
    phi = np.radians(lon)
    return amp*np.cos(m*phi), amp*np.sin(m*phi), df, conv


def run(case, cap, mmax='given', plm=None, data=None):
    lmax, mm = case['lm']
    love = gen.love(case['seed'], lmax)
    _, units = dfactor(case, lmax, love)
    kw = dict(LMAX=lmax, UNITS=units, LOVE=love)
    if mmax == 'given':
        kw['MMAX'] = mm
    data = case['data'] if data is None else data
    lon, lat = case['ll']
    if plm is None:
        plm = case['plm']
    if plm:
        P, _ = gravtk.plm_holmes(lmax, np.cos(np.radians(90.0 - lat)))
        kw['PLM'] = P[:, :, 0]
    if cap:
        a = np.radians(case['ang'])
        kw[case['give']] = {'RAD_CAP': case['ang'], 'RAD_KM': a*R/1e5,
            'AREA': np.pi*(a*R)**2}[case['give']]
        return gravtk.gen_spherical_cap(data, lon, lat, **kw)
    area = 2*np.pi*R**2*(1 - np.cos(np.radians(case['ang'])))/1e10
    return gravtk.gen_disc_load(data, lon, lat, area, **kw)


def b_load(case, ctx, cap):
    lmax, mmax = case['lm']
    love = gen.love(case['seed'], lmax)
    a = np.radians(case['ang'])
    area = np.pi*(a*R)**2 if cap else 2*np.pi*R**2*(1 - np.cos(a))
    x = np.cos(a)
    Y = run(case, cap)
    C, S, df, conv = expected(case, lmax, mmax, love, x, area)
    l = np.arange(lmax + 1)
    # rounding in the difference of neighbouring Legendre functions
    tol = (np.abs(df)*abs(case['data'])*conv*(1e-10*(np.abs(kernel(lmax, x)) +
        kernel(lmax, x)[0]) + 2e-14*(l + 1))*np.sqrt(2*l + 1)*2)[:, None]
    close(Y.clm, C, 'cosine coefficients', rtol=1e-8, atol=tol + 0*C)
    close(Y.slm, S, 'sine coefficients', rtol=1e-8, atol=tol + 0*S)
    same([Y.lmax, Y.mmax], [lmax, mmax], 'limits of the object')
    same(Y.l, np.arange(lmax + 1), 'degrees')
    same(Y.m, np.arange(mmax + 1), 'orders')
    require(not np.any(Y.clm[~gen.tri_mask(lmax, mmax)]), 'upper triangle')
    require(not np.any(Y.slm[:, 0]), 'sine terms of order zero')
    # mass: integral of the surface density (g) from degree zero
    if case['units'] in (1, 2, 3):
        e = oracle.Earth()
        f0 = 1.0 + love[1][0]
        sigma0 = Y.clm[0, 0]*e.rho*e.R/3.0/f0
        mass = sigma0*4*np.pi*R**2
        dens = case['data']*{1: 1.0, 2: 1e15/area, 3: 0.1}[case['units']]
        real = dens*2*np.pi*R**2*(1 - np.cos(a))
        close(mass, real, 'total mass from degree zero', rtol=1e-8)
        if case['units'] == 2 and not cap:
            close(mass/1e15, case['data'], 'mass in gigatonnes', rtol=1e-8)
    # default order limit is the degree
    Yf = run(case, cap, mmax=None)
    same([Yf.lmax, Yf.mmax], [lmax, lmax], 'default limits')
    close(Yf.clm[:, :mmax + 1], Y.clm, 'order limit is a truncation', rtol=1e-12)
    close(Yf.slm[:, :mmax + 1], Y.slm, 'order limit is a truncation', rtol=1e-12)
    # precomputed functions do not matter; linear in the load
    Y2 = run(case, cap, plm=not case['plm'], data=-2.0*case['data'])
    close(Y2.clm, -2.0*Y.clm, 'linear / precomputed', rtol=1e-9,
        atol=float(np.max(np.abs(Y.clm)))*1e-12)
    ctx.nontrivial(lmax >= 3 and mmax >= 1)
    ctx.label(f"units {case['units']}", case.get('give', 'disc'),
        'truncated' if mmax < lmax else 'full')


@st.composite
def s_rotate(draw):
    return dict(kind=draw(st.sampled_from(['disc', 'cap', 'point'])),
        lmax=draw(st.integers(1, 40)), seed=draw(gen.seeds),
        ll=draw(lon_lat()), ang=draw(gen.nice_floats(0.5, 60)),
        az=draw(gen.nice_floats(0, 360)), dist=draw(gen.nice_floats(0, 180)))


def b_rotate(case, ctx):
    """the field at a distance from the load does not depend on its position"""
    lmax = case['lmax']
    love = gen.love(case['seed'], lmax)
    a = np.radians(case['ang'])

    def make(lon, lat):
        if case['kind'] == 'disc':
            area = 2*np.pi*R**2*(1 - np.cos(a))/1e10
            return gravtk.gen_disc_load(1.0, lon, lat, area, LMAX=lmax, LOVE=love)
        if case['kind'] == 'cap':
            return gravtk.gen_spherical_cap(1.0, lon, lat, LMAX=lmax,
                RAD_CAP=case['ang'], UNITS=2, LOVE=love)
        return gravtk.gen_point_load(np.array([1.0]), np.array([lon]),
            np.array([lat]), LMAX=lmax, UNITS=2, LOVE=love)
    lon0, lat0 = case['ll']
    d, az = np.radians([case['dist'], case['az']])
    p0 = np.radians(lat0)
    # point at distance d and azimuth az from the load
    slat = np.sin(p0)*np.cos(d) + np.cos(p0)*np.sin(d)*np.cos(az)
    lat1 = np.arcsin(np.clip(slat, -1, 1))
    lon1 = np.radians(lon0) + np.arctan2(np.sin(az)*np.sin(d)*np.cos(p0),
        np.cos(d) - np.sin(p0)*slat)
    Y = make(lon0, lat0)
    pole = make(0.0, 90.0)
    got = oracle.synth_points(Y.clm, Y.slm, [np.degrees(lon1)], [np.degrees(lat1)])
    want = oracle.synth_points(pole.clm, pole.slm, [0.0], [90.0 - case['dist']])
    bound = oracle.basis_bound(pole.clm, pole.slm)
    if lat0 in (90.0, -90.0) or abs(slat) > 1 - 1e-9:
        tol = 1e-4
    else:
        tol = 1e-6
    close(got, want, f"field of a {case['kind']} at distance {case['dist']}",
        rtol=0, atol=tol*bound)
    # rotation leaves the degree variances unchanged
    v1 = np.sqrt(np.sum(Y.clm**2 + Y.slm**2, axis=1))
    v0 = np.sqrt(np.sum(pole.clm**2 + pole.slm**2, axis=1))
    close(v1, v0, 'degree amplitude under rotation', rtol=1e-8,
        atol=1e-12*np.max(v0))
    ctx.nontrivial(case['lmax'] >= 2 and case['dist'] > 1)
    ctx.label(case['kind'])


@st.composite
def s_points(draw):
    n = draw(st.integers(1, 6))
    return dict(lm=draw(gen.lmax_mmax(0, 40)), seed=draw(gen.seeds),
        pts=[draw(lon_lat()) + [draw(gen.nice_floats(-1e4, 1e4))]
            for _ in range(n)],
        units=draw(st.sampled_from([1, 2, 'list', 'array'])),
        rows=draw(st.sampled_from([0, 1, 2, 3, 4])),
        order=[draw(st.sampled_from(['C', 'F', 'T'])) for _ in range(3)])


def laid_out(v, shape, order):
    """the same 2-D array in one of three memory layouts"""
    v = v.reshape(shape)
    if order == 'F':
        return np.asfortranarray(v)
    if order == 'T':
        # a strided view
        big = np.zeros((2*v.shape[0], 3*v.shape[1]))
        big[::2, ::3] = v
        return big[::2, ::3]
    return v


def b_points(case, ctx):
    lmax, mmax = case['lm']
    love = gen.love(case['seed'], lmax)
    p = np.array(case['pts'])
    rows = case['rows']
    if rows > 1:
        # pad the points to fill the rows of a 2-D array
        p = np.tile(p, (rows, 1)) if len(p) % rows else p
    lon, lat, data = (v.copy() for v in p.T)
    shape = (rows, -1) if rows else (-1,)
    if case['units'] in ('list', 'array'):
        df = gen.rng(case['seed'], 6).random(lmax + 1)
        units = list(df) if case['units'] == 'list' else df
        love_kw = {}
    else:
        df = oracle.spatial_factors(lmax, love)['cmwe']/R**2* \
            (1e15 if case['units'] == 2 else 1.0)
        units, love_kw = case['units'], dict(LOVE=love)
    keep = [v.copy() for v in (lon, lat, data)]
    if rows:
        arg = [laid_out(v, shape, o) for v, o in
            zip((data, lon, lat), case['order'])]
    else:
        arg = [data, lon, lat]
    kw = dict(LMAX=lmax, UNITS=units, **love_kw)
    Y = gravtk.gen_point_load(*arg, MMAX=mmax, **kw)
    for v, k in zip((lon, lat, data), keep):
        same(v, k, 'inputs unchanged')
    P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)), mmax)
    m = np.arange(mmax + 1)
    C = np.einsum('l,lmi,i,mi->lm', df, P, data, np.cos(np.outer(m, np.radians(lon))))
    S = np.einsum('l,lmi,i,mi->lm', df, P, data, np.sin(np.outer(m, np.radians(lon))))
    l = np.arange(lmax + 1)
    tol = (df*np.sqrt(2*l + 1)*np.sum(np.abs(data))*1e-8)[:, None] + 0*C
    close(Y.clm, C, 'cosine coefficients of points', rtol=1e-8, atol=tol)
    close(Y.slm, S, 'sine coefficients of points', rtol=1e-8, atol=tol)
    same([Y.lmax, Y.mmax], [lmax, mmax], 'limits of the object')
    if case['units'] in (1, 2):
        e = oracle.Earth()
        mass = Y.clm[0, 0]*e.rho*e.R/3.0/(1 + love[1][0])*4*np.pi*R**2
        want = np.sum(data)*(1e15 if case['units'] == 2 else 1.0)
        close(mass, want, 'total mass', rtol=1e-9,
            atol=1e-9*np.sum(np.abs(data))*(1e15 if case['units'] == 2 else 1.0))
    # default order limit
    Yf = gravtk.gen_point_load(*arg, **kw)
    same([Yf.lmax, Yf.mmax], [lmax, lmax], 'default limits')
    close(Yf.clm[:, :mmax + 1], Y.clm, 'truncation of orders', rtol=1e-12)
    # superposition
    k = len(data)//2
    if k:
        A = gravtk.gen_point_load(data[:k], lon[:k], lat[:k], **kw)
        B = gravtk.gen_point_load(data[k:], lon[k:], lat[k:], **kw)
        close(A.clm + B.clm, Yf.clm, 'superposition of points', rtol=1e-9,
            atol=float(np.max(tol))*1e-3)
        close(A.slm + B.slm, Yf.slm, 'superposition of points', rtol=1e-9,
            atol=float(np.max(tol))*1e-3)
    # a small disc of the same mass approaches a point
    if lmax <= 20 and case['units'] == 2:
        D = gravtk.gen_disc_load(data[0], lon[0], lat[0], 5e3, LMAX=lmax,
            MMAX=mmax, UNITS=2, LOVE=love) if lmax >= 1 else None
        A = gravtk.gen_point_load(data[:1], lon[:1], lat[:1], LMAX=lmax,
            MMAX=mmax, UNITS=2, LOVE=love)
        if D is not None:
            close(D.clm, A.clm, 'small disc', rtol=2e-2,
                atol=float(np.max(np.abs(A.clm)))*2e-3)
    ctx.nontrivial(lmax >= 2 and len(data) >= 2)
    ctx.label(f"units {case['units']}", f'{len(data)} points')


@st.composite
def s_bad(draw):
    return dict(units=draw(st.sampled_from([0, 4, 7, -1])),
        fn=draw(st.sampled_from(['disc', 'cap', 'point', 'nosize'])))


def b_bad(case, ctx):
    love = gen.love(1, 4)
    try:
        if case['fn'] == 'disc':
            gravtk.gen_disc_load(1.0, 0.0, 0.0, 1e4, LMAX=4, UNITS=case['units'], LOVE=love)
        elif case['fn'] == 'cap':
            gravtk.gen_spherical_cap(1.0, 0.0, 0.0, RAD_CAP=1, LMAX=4,
                UNITS=case['units'], LOVE=love)
        elif case['fn'] == 'point':
            gravtk.gen_point_load(np.ones(1), np.ones(1), np.ones(1), LMAX=4,
                UNITS=case['units'] if case['units'] != 3 else 9, LOVE=love)
        else:
            gravtk.gen_spherical_cap(1.0, 0.0, 0.0, LMAX=4, UNITS=1, LOVE=love)
    except ValueError:
        ctx.nontrivial()
        return
    require(False, f'{case} was accepted')


CHECKS = [
    Check('disc', lambda: s_load(False), lambda c, x: b_load(c, x, False),
        quick=250, rule='degree>=3 and order>=1'),
    Check('cap', lambda: s_load(True), lambda c, x: b_load(c, x, True),
        quick=250, rule='degree>=3 and order>=1'),
    Check('rotation', s_rotate, b_rotate, quick=200,
        rule='degree>=2 and distance over 1 degree'),
    Check('points', s_points, b_points, quick=200,
        rule='degree>=2 and at least 2 points'),
    Check('rejected', s_bad, b_bad, quick=20, thorough=20, rule='every case'),
]

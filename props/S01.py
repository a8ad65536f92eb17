"""Synthesis"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['reference: direct sum over an independent extended-precision '
    'Legendre recursion', 'at least two longitudes and latitudes per grid',
    'transform variant: regular longitudes 0..360 with at least as many '
    'intervals as orders']

lons = st.lists(st.one_of(gen.nice_floats(-360, 720),
    st.sampled_from([0, 180, -180, 360, 90])), min_size=2, max_size=7)
lats = st.lists(st.one_of(gen.nice_floats(-89.9, 89.9),
    st.sampled_from([0, 90, -90, 45])), min_size=2, max_size=7)


@st.composite
def window(draw, lo=1, hi=40):
    L = draw(st.one_of(st.integers(lo, 12), st.integers(lo, hi)))
    lmax = draw(st.one_of(st.just(L), st.integers(lo, L)))
    mmax = draw(st.one_of(st.none(), st.integers(0, lmax)))
    lmin = draw(st.one_of(st.just(0), st.integers(0, lmax)))
    return dict(L=L, lmax=lmax, mmax=mmax, lmin=lmin)


def grid_coeffs(case):
    """coefficients with enough orders for the window (possibly not square)"""
    L = case['L']
    M = L
    need = case['lmax'] if case['mmax'] is None else case['mmax']
    if case.get('narrow'):
        M = need
    return gen.coeffs(case['field'], L, M)


@st.composite
def s_grid(draw):
    c = draw(window())
    c.update(field=draw(gen.field_spec()), lon=draw(lons), lat=draw(lats),
        plm=draw(st.sampled_from(['none', 'none', 'full', 'trunc'])),
        implicit=draw(st.booleans()), narrow=draw(st.booleans()),
        shape=draw(st.sampled_from(['1d', '2d'])))
    return c


def make_plm(case, lat):
    if case['plm'] == 'none':
        return None
    mm = case['lmax'] if case['mmax'] is None else case['mmax']
    P, _ = oracle.plm4pi(case['lmax'], np.sin(np.radians(lat)))
    return P if case['plm'] == 'full' else np.copy(P[:, :mm + 1])


def tolerance(case, clm, slm):
    return 1e-11*(1 + case['lmax'])*(1e-300 + oracle.basis_bound(clm, slm))


def b_grid(case, ctx):
    clm, slm = grid_coeffs(case)
    lon, lat = np.array(case['lon'], float), np.array(case['lat'], float)
    kw = dict(LMIN=case['lmin'], LMAX=case['lmax'])
    if case['implicit'] and case['lmax'] == case['L']:
        kw['LMAX'] = 0
    if case['mmax'] is not None:
        kw['MMAX'] = case['mmax']
    plm = make_plm(case, lat)
    if plm is not None:
        kw['PLM'] = plm
    c0, s0 = clm.copy(), slm.copy()
    a, b = (lon, lat) if case['shape'] == '1d' else (lon[None, :], lat[None, :])
    got = gravtk.harmonic_summation(clm, slm, a, b, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    want = oracle.synth(c0, s0, lon, lat, lmin=case['lmin'], lmax=case['lmax'],
        mmax=case['mmax'])
    close(got, want, 'grid summation', rtol=0, atol=tolerance(case, c0, s0))
    ctx.nontrivial(np.any(want != 0))
    ctx.label('window' if (case['lmin'] or case['mmax'] is not None or
        case['lmax'] < case['L']) else 'all')


@st.composite
def s_transform(draw):
    c = draw(window())
    mm = c['lmax'] if c['mmax'] is None else c['mmax']
    c.update(field=draw(gen.field_spec()), lat=draw(lats),
        n=draw(st.one_of(st.integers(max(mm + 1, 3), max(mm + 1, 3) + 60),
            st.integers(2, mm + 3))),
        plm=draw(st.sampled_from(['none', 'none', 'trunc'])),
        implicit=draw(st.booleans()), narrow=draw(st.booleans()))
    return c


def b_transform(case, ctx):
    clm, slm = grid_coeffs(case)
    lon = np.linspace(0, 360, case['n'] + 1)
    lat = np.array(case['lat'], float)
    kw = dict(LMIN=case['lmin'], LMAX=case['lmax'])
    if case['implicit'] and case['lmax'] == case['L']:
        kw['LMAX'] = 0
    if case['mmax'] is not None:
        kw['MMAX'] = case['mmax']
    plm = make_plm(case, lat)
    if plm is not None:
        kw['PLM'] = plm
    c0, s0 = clm.copy(), slm.copy()
    got = gravtk.harmonic_transform(clm, slm, lon, lat, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    want = oracle.synth(c0, s0, lon, lat, lmin=case['lmin'], lmax=case['lmax'],
        mmax=case['mmax'])
    close(got, want, 'transform summation', rtol=0,
        atol=10*tolerance(case, c0, s0))
    ctx.nontrivial(np.any(want != 0))


def units_spec():
    return st.one_of(st.integers(0, 6), st.sampled_from(['norm', 'cmwe', 'mmwe',
        'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU', 'microGal', 'mbar', 'Pa']),
        st.just('custom'), st.just('customlist'))


def resolve_units(u, lmax, love, seed):
    """(argument, love argument, factor)"""
    if u in ('custom', 'customlist'):
        f = gen.rng(seed, 5).standard_normal(lmax + 1)
        return ([float(v) for v in f] if u == 'customlist' else f), None, f
    name = oracle.CODES[u] if isinstance(u, int) else u
    return u, love, oracle.harmonic_factors(lmax, love)[name]


@st.composite
def s_points(draw):
    L = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    n = draw(st.integers(1, 6))
    return dict(L=L, lmax=draw(st.one_of(st.just(L), st.integers(1, L))),
        field=draw(gen.field_spec()),
        lon=draw(st.lists(gen.nice_floats(-360, 720), min_size=n, max_size=n)),
        lat=draw(st.lists(st.one_of(gen.nice_floats(-90, 90),
            st.sampled_from([90, -90, 0])), min_size=n, max_size=n)),
        units=draw(units_spec()), rad=draw(st.sampled_from([0, 0, 250, 400.0, 800])),
        astype=draw(st.sampled_from([None, None, 'f8'])),
        cols=draw(st.one_of(st.none(), st.integers(0, L))))


def b_points(case, ctx):
    L, lmax = case['L'], case['lmax']
    # orders may be limited
    clm, slm = gen.coeffs(case['field'], L, case.get('cols'))
    lon, lat = np.array(case['lon'], float), np.array(case['lat'], float)
    love = gen.love(case['field']['seed'], lmax)
    uarg, larg, fac = resolve_units(case['units'], lmax, love, case['field']['seed'])
    kw = dict(LMAX=lmax, UNITS=uarg, RAD=case['rad'])
    if larg is not None:
        kw['LOVE'] = larg
    if case['rad'] == 0 and case['field']['seed'] % 2:
        kw.pop('RAD')
    if case['astype']:
        kw['ASTYPE'] = np.float64
    c0, s0 = clm.copy(), slm.copy()
    got = gravtk.clenshaw_summation(clm, slm, lon, lat, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    w = fac*oracle.gauss(case['rad'], lmax)
    C, S = c0[:lmax + 1]*w[:, None], s0[:lmax + 1]*w[:, None]
    want = oracle.synth_points(C, S, lon, lat, lmax=lmax)
    C1, S1 = c0[:lmax + 1]*fac[:, None], s0[:lmax + 1]*fac[:, None]
    bound = oracle.basis_bound(C1, S1)
    tol = (1e-10*(1 + lmax) + (1e-7 if case['rad'] else 0))*bound + 1e-300
    close(np.asarray(got, dtype=float), want, 'point summation', rtol=0, atol=tol)
    # agreement with the grid summation at the same places
    grid = gravtk.harmonic_summation(C, S, np.append(lon, 0.0),
        np.append(lat, 0.0), LMAX=lmax, MMAX=min(lmax, C.shape[1] - 1))
    close(np.asarray(got, dtype=float), np.diag(grid)[:len(lon)],
        'point and grid summation', rtol=0, atol=2*tol)
    ctx.nontrivial(np.any(want != 0))
    ctx.label(f"units={case['units']}", 'smooth' if case['rad'] else 'raw',
        'orders limited' if case.get('cols') is not None else 'all orders')


@st.composite
def s_stokes(draw):
    c = draw(window())
    c.update(field=draw(gen.field_spec()), lon=draw(lons), lat=draw(lats),
        plm=draw(st.sampled_from(['none', 'none', 'full', 'trunc'])),
        implicit=draw(st.booleans()), narrow=draw(st.booleans()),
        units=draw(units_spec()), rad=draw(st.sampled_from([0, 0, 250, 400.0, 800])))
    return c


def b_stokes(case, ctx):
    clm, slm = grid_coeffs(case)
    lmax, lmin = case['lmax'], case['lmin']
    lon, lat = np.array(case['lon'], float), np.array(case['lat'], float)
    love = gen.love(case['field']['seed'], lmax)
    uarg, larg, fac = resolve_units(case['units'], lmax, love, case['field']['seed'])
    kw = dict(LMIN=lmin, LMAX=lmax, UNITS=uarg, RAD=case['rad'])
    if case['implicit'] and lmax == case['L']:
        kw['LMAX'] = 0
    if larg is not None:
        kw['LOVE'] = larg
    if case['mmax'] is not None:
        kw['MMAX'] = case['mmax']
    plm = make_plm(case, lat)
    if plm is not None:
        kw['PLM'] = plm
    c0, s0 = clm.copy(), slm.copy()
    got = gravtk.stokes_summation(clm, slm, lon, lat, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    w = fac*oracle.gauss(case['rad'], lmax)
    C, S = c0[:lmax + 1]*w[:, None], s0[:lmax + 1]*w[:, None]
    want = oracle.synth(C, S, lon, lat, lmin=lmin, lmax=lmax, mmax=case['mmax'])
    bound = oracle.basis_bound(c0[:lmax + 1]*fac[:, None], s0[:lmax + 1]*fac[:, None])
    tol = (1e-11*(1 + lmax) + (1e-7 if case['rad'] else 0))*bound + 1e-300
    close(got, want, 'unit-aware summation', rtol=0, atol=tol)
    ctx.nontrivial(np.any(want != 0))
    ctx.label(f"units={case['units']}", 'smooth' if case['rad'] else 'raw')


@st.composite
def s_linear(draw):
    c = draw(window())
    c.update(f1=draw(gen.field_spec()), f2=draw(gen.field_spec()),
        a=draw(gen.nice_floats(-10, 10)), shift=draw(st.sampled_from([-360, 0, 360])),
        lon=draw(lons), lat=draw(lats),
        method=draw(st.sampled_from(['grid', 'transform', 'points'])))
    return c


def b_linear(case, ctx):
    L, lmax = case['L'], case['lmax']
    A, B = gen.coeffs(case['f1'], L), gen.coeffs(case['f2'], L)
    lon, lat = np.array(case['lon'], float), np.array(case['lat'], float)

    def ev(c, s, dl=0.0):
        if case['method'] == 'grid':
            return gravtk.harmonic_summation(c, s, lon + dl, lat, LMAX=lmax,
                LMIN=case['lmin'], MMAX=case['mmax'])
        if case['method'] == 'transform':
            return gravtk.harmonic_transform(c, s, np.linspace(0, 360, lmax + 5),
                lat, LMAX=lmax, LMIN=case['lmin'], MMAX=case['mmax'])
        n = min(len(lon), len(lat))
        return np.asarray(gravtk.clenshaw_summation(c, s, lon[:n] + dl, lat[:n],
            LMAX=lmax, UNITS=np.ones(lmax + 1)), dtype=float)
    a = case['a']
    lhs = ev(A[0] + a*B[0], A[1] + a*B[1])
    rhs = ev(*A) + a*ev(*B, dl=float(case['shift']))
    bound = oracle.basis_bound(*A) + abs(a)*oracle.basis_bound(*B)
    close(lhs, rhs, f"linearity ({case['method']})", rtol=0,
        atol=1e-9*(1 + lmax)*bound + 1e-300)
    ctx.nontrivial(np.any(lhs != 0))


CHECKS = [
    Check('grid', s_grid, b_grid, quick=300, thorough=4000,
        rule='non-zero field'),
    Check('transform', s_transform, b_transform, quick=250, thorough=3000,
        rule='non-zero field'),
    Check('points', s_points, b_points, quick=200, thorough=2500,
        rule='non-zero field'),
    Check('stokes', s_stokes, b_stokes, quick=300, thorough=4000,
        rule='non-zero field'),
    Check('linear', s_linear, b_linear, quick=120, thorough=1500,
        rule='non-zero field'),
]

"""Gradients and geostrophic currents"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['gradients: eastward and northward derivatives on the unit sphere '
    '(per radian)', 'the second current component is counted towards the south, as '
    'the sign of the published formula in the code',
    'flow harmonics of degree 1 to LMAX-1 (zonal) as documented in the code']
lons = st.lists(gen.nice_floats(-360, 720), min_size=2, max_size=6)
lats = st.lists(st.one_of(gen.nice_floats(2, 88), gen.nice_floats(-88, -2)),
    min_size=2, max_size=6)


@st.composite
def s_grad(draw):
    L = draw(st.one_of(st.integers(1, 8), st.integers(1, 36)))
    lmax = draw(st.one_of(st.just(L), st.integers(1, L)))
    mmax = draw(st.one_of(st.none(), st.integers(0, lmax)))
    return dict(L=L, lmax=lmax, mmax=mmax, lmin=draw(st.one_of(st.just(0),
        st.integers(0, lmax))), field=draw(gen.field_spec()), lon=draw(lons),
        lat=draw(lats), implicit=draw(st.booleans()))


def gradient_ref(clm, slm, lon, lat):
    """(eastward, northward) derivatives"""
    L, M = np.array(clm.shape) - 1
    P, dP = oracle.plm4pi(int(L), np.sin(np.radians(lat)), int(M))
    phi = np.radians(lon)
    m = np.arange(M + 1)
    c, s = np.cos(np.outer(phi, m)), np.sin(np.outer(phi, m))
    coslat = np.cos(np.radians(lat))
    east = np.einsum('lm,lmt,pm->pt', slm*m, P, c) - \
        np.einsum('lm,lmt,pm->pt', clm*m, P, s)
    north = -np.einsum('lm,lmt,pm->pt', clm, dP, c) - \
        np.einsum('lm,lmt,pm->pt', slm, dP, s)
    return east/coslat, north


def window(clm, slm, lmin, lmax, mmax):
    mm = lmax if mmax is None else mmax
    C, S = clm[:lmax + 1, :mm + 1].copy(), slm[:lmax + 1, :mm + 1].copy()
    C[:lmin] = 0
    S[:lmin] = 0
    return C, S


def b_grad(case, ctx):
    clm, slm = gen.coeffs(case['field'], case['L'])
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    kw = dict(LMIN=case['lmin'], LMAX=case['lmax'])
    if case['implicit'] and case['lmax'] == case['L']:
        kw['LMAX'] = 0
    if case['mmax'] is not None:
        kw['MMAX'] = case['mmax']
    c0, s0 = clm.copy(), slm.copy()
    G = gravtk.harmonic_gradients(clm, slm, lon, lat, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    C, S = window(c0, s0, case['lmin'], case['lmax'], case['mmax'])
    e, n = gradient_ref(C, S, lon, lat)
    tol = 1e-9*(1 + case['lmax'])**2*(oracle.basis_bound(C, S) + 1e-300)
    require(np.shape(G) == (len(lon), len(lat), 2), f'shape {np.shape(G)}')
    close(G[:, :, 0], e, 'zonal gradient', rtol=0, atol=tol)
    close(G[:, :, 1], n, 'meridional gradient', rtol=0, atol=tol)
    # against finite differences of the synthesis
    h = 1e-3
    up = oracle.synth(C, S, lon, lat + h)
    dn = oracle.synth(C, S, lon, lat - h)
    fd = (up - dn)/np.radians(2*h)
    close(G[:, :, 1], fd, 'meridional finite difference', rtol=0,
        atol=tol + 1e-7*(1 + case['lmax'])**3*(oracle.basis_bound(C, S)))
    ctx.nontrivial(np.any(e) and np.any(n))
    ctx.label('odd' if case['lmax'] % 2 else 'even',
        'trunc' if case['mmax'] is not None else 'full')


@st.composite
def s_geo(draw):
    c = draw(s_grad())
    c.update(rad=draw(st.sampled_from([0, 0, 300, 500.0])),
        density=draw(st.sampled_from([None, 1.025, 1.05])),
        fmt=draw(st.sampled_from(['class', 'tuple'])),
        plm=draw(st.sampled_from(['none', 'full', 'trunc'])))
    return c


def as_class(love):
    obj = gravtk.love_numbers()
    obj.hl, obj.kl, obj.ll = love
    return obj


def b_geo(case, ctx):
    lmax, lmin = case['lmax'], case['lmin']
    if lmax < 2:
        return
    clm, slm = gen.coeffs(case['field'], case['L'])
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    love = gen.love(case['field']['seed'], lmax)
    kw = dict(LMIN=lmin, LMAX=lmax, RAD=case['rad'],
        LOVE=as_class(love) if case['fmt'] == 'class' else love)
    if case['implicit'] and lmax == case['L']:
        kw['LMAX'] = 0
    mm = lmax if case['mmax'] is None else case['mmax']
    if case['mmax'] is not None:
        kw['MMAX'] = mm
    rho = 1.035
    if case['density'] is not None:
        kw['DENSITY'] = rho = case['density']
    if case['plm'] != 'none':
        P, _ = oracle.plm4pi(lmax, np.sin(np.radians(lat)))
        kw['PLM'] = P if case['plm'] == 'full' else np.copy(P[:, :mm + 1])
    c0, s0 = clm.copy(), slm.copy()
    got = gravtk.geostrophic_currents(clm, slm, lon, lat, **kw)
    same(clm, c0, 'input unchanged')
    same(slm, s0, 'input unchanged')
    require(np.shape(got) == (len(lon), len(lat), 2), f'shape {np.shape(got)}')
    # pressure-like field q and its derivatives on an exact quadrature grid
    e = oracle.Earth()
    l = np.arange(lmax + 1)
    q = ((2*l + 1)/(1 + love[1]))[:, None]
    C, S = c0[:lmax + 1, :mm + 1]*q, s0[:lmax + 1, :mm + 1]*q
    x, w = oracle.glq(lmax + 4)
    glat = np.degrees(np.arcsin(x))
    glon = np.arange(2*lmax + 8)*360.0/(2*lmax + 8)
    east, north = gradient_ref(C, S, glon, glat)
    cl = np.cos(np.radians(glat))
    Zc, Zs = oracle.analyse(-north*cl, glon, x, w, lmax, mm)
    Mc, Ms = oracle.analyse(-east*cl, glon, x, w, lmax, mm)
    wl = oracle.gauss(case['rad'], lmax)[:, None]
    keep = np.ones(lmax + 1)
    keep[:lmin] = 0
    zk = keep.copy()
    zk[0] = zk[lmax] = 0
    coef = e.g*e.rho/(6*7292115e-11*rho)
    sc = 1.0/(np.sin(np.radians(lat))*np.cos(np.radians(lat)))
    Zc, Zs = Zc*wl*zk[:, None], Zs*wl*zk[:, None]
    Mc, Ms = Mc*wl*keep[:, None], Ms*wl*keep[:, None]
    u = coef*oracle.synth(Zc, Zs, lon, lat)*sc
    v = coef*oracle.synth(Mc, Ms, lon, lat)*sc
    tol = (1e-8 + (1e-6 if case['rad'] else 0))*coef*(1 + lmax)*np.max(np.abs(sc))*(
        oracle.basis_bound(C, S) + 1e-300)
    close(got[:, :, 0], u, 'zonal currents', rtol=0, atol=tol)
    close(got[:, :, 1], v, 'meridional currents', rtol=0, atol=tol)
    ctx.nontrivial(np.any(u) and np.any(v))
    ctx.label(case['fmt'], 'lmin' if lmin else 'all')


@st.composite
def s_lin(draw):
    c = draw(s_grad())
    c.update(f2=draw(gen.field_spec()), a=draw(gen.nice_floats(-5, 5)),
        kind=draw(st.sampled_from(['gradient', 'current'])))
    return c


def b_lin(case, ctx):
    if case['lmax'] < 2:
        return
    A, B = gen.coeffs(case['field'], case['L']), gen.coeffs(case['f2'], case['L'])
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    love = gen.love(1, case['lmax'])
    a = case['a']

    def ev(c, s):
        if case['kind'] == 'gradient':
            return gravtk.harmonic_gradients(c, s, lon, lat, LMIN=case['lmin'],
                LMAX=case['lmax'], MMAX=case['mmax'])
        return gravtk.geostrophic_currents(c, s, lon, lat, LMIN=case['lmin'],
            LMAX=case['lmax'], MMAX=case['mmax'], LOVE=as_class(love))
    X, Y = ev(*A), ev(*B)
    Z = ev(A[0] + a*B[0], A[1] + a*B[1])
    s = np.max(np.abs(X)) + abs(a)*np.max(np.abs(Y))
    s += (1e8 if case['kind'] == 'current' else 1e2)*1e-3*(
        oracle.basis_bound(*A) + abs(a)*oracle.basis_bound(*B))
    close(Z, X + a*Y, 'linearity', rtol=0, atol=1e-9*s + 1e-300)
    ctx.nontrivial(np.any(Z))


@st.composite
def s_leg(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 40))
    return dict(lmax=lmax, mmax=mmax, theta=draw(st.lists(gen.nice_floats(1, 179),
        min_size=1, max_size=6)))


def b_leg(case, ctx):
    lmax, mmax = case['lmax'], case['mmax']
    th = np.radians(np.array(case['theta']))
    V, W = gravtk.legendre_gradient(lmax, mmax)
    P, dP = oracle.plm4pi(lmax, np.cos(th), mmax)
    k = np.arange(lmax + 1)
    for m in range(mmax + 1):
        base = np.sin(np.outer(k, th)) if m % 2 == 0 else np.cos(np.outer(k, th))
        l = np.arange(max(m, 1), lmax + 1)
        n = np.sqrt(l*(l + 1.0))[:, None]
        close(V[l, m, :] @ base, -dP[l, m]/n, f'meridional series order {m}',
            rtol=0, atol=1e-8*(lmax + 1))
        close(W[l, m, :] @ base, m*P[l, m]/np.sin(th)/n, f'zonal series order {m}',
            rtol=0, atol=1e-8*(lmax + 1)/np.min(np.sin(th)))
    ctx.nontrivial(lmax >= 2)


CHECKS = [
    Check('gradients', s_grad, b_grad, quick=200, thorough=2500,
        rule='both components non-zero'),
    Check('currents', s_geo, b_geo, quick=250, thorough=3000,
        rule='both components non-zero'),
    Check('linear', s_lin, b_lin, quick=100, thorough=1200, rule='non-zero result'),
    Check('legendre_gradient', s_leg, b_leg, quick=80, thorough=1000,
        rule='degree 2 or more'),
]

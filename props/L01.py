"""Legendre functions"""
import math
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, fail

ASSUMPTIONS = ['reference values: forward column recursion in extended '
    'precision (pbt/oracle.py), itself checked for orthonormality in the run',
    'derivatives are compared away from the exact poles']


def x_spec(hi=8):
    theta = st.one_of(
        gen.nice_floats(0.5, 179.5), gen.nice_floats(0.006, 1.0),
        gen.nice_floats(179.0, 179.994),
        st.sampled_from([0.0, 90.0, 180.0, 30.0, 60.0, 120.0]))
    return st.lists(theta, min_size=1, max_size=hi)


def to_x(theta):
    th = np.asarray(theta, dtype=float)
    x = np.cos(np.radians(th))
    x[th == 90.0] = 0.0
    x[th == 0.0] = 1.0
    x[th == 180.0] = -1.0
    return x


def degrees(big):
    return st.one_of(st.integers(1, 12), st.integers(2, 40), st.integers(2, big))


@st.composite
def s_assoc(draw):
    lmax = draw(degrees(90))
    full = draw(st.booleans())
    mmax = None if full else draw(st.integers(0, lmax))
    return dict(method=draw(st.sampled_from(['colombo', 'holmes', 'mohlenkamp',
        'Holmes', 'Colombo', 'MOHLENKAMP', 'default', 'plm_colombo', 'plm_holmes', 'plm_mohlenkamp'])),
        lmax=lmax, mmax=mmax, theta=draw(x_spec()),
        form=draw(st.sampled_from(['array', 'list', 'scalar', '2d'])))


def call_assoc(method, lmax, x, mmax):
    kw = {} if mmax is None else dict(MMAX=mmax)
    if method == 'default':
        return gravtk.associated_legendre(lmax, x, **kw)
    if method.startswith('plm_'):
        return getattr(gravtk, method)(lmax, x, **kw)
    return gravtk.associated_legendre(lmax, x, method=method, **kw)


def tols(lmax, x):
    l = np.arange(lmax + 1)[:, None, None]
    u = np.sqrt(np.maximum(1 - x**2, 0))[None, None, :]
    u = np.maximum(u, 1e-5)
    tp = 1e-11*(l + 1) + 1e-15*(l + 1)**2/u
    td = 1e-10*(l + 1)**2 + 1e-14*(l + 1)**2/u
    return tp, td


def b_assoc(case, ctx):
    lmax, mmax = case['lmax'], case['mmax']
    x = to_x(case['theta'])
    arg = x
    if case['form'] == 'list':
        arg = [float(v) for v in x]
    elif case['form'] == 'scalar':
        x = x[:1]
        arg = float(x[0])
    elif case['form'] == '2d':
        arg = x.reshape(1, -1)
    P, dP = call_assoc(case['method'], lmax, arg, mmax)
    M = lmax if mmax is None else mmax
    wP, wdP = oracle.plm4pi(lmax, x, M)
    tp, td = tols(lmax, x)
    what = f"{case['method']} LMAX={lmax} MMAX={mmax}"
    close(P, wP, what + ' functions', rtol=1e-10, atol=tp)
    require(np.shape(dP) == wdP.shape,
        f'{what} derivative shape {np.shape(dP)} != {wdP.shape}')
    inner = np.abs(x) < 1
    if inner.any():
        close(np.asarray(dP)[:, :, inner], wdP[:, :, inner],
            what + ' derivatives', rtol=1e-8, atol=td[:, :, inner])
    ctx.nontrivial(lmax >= 2 and inner.any())
    ctx.label(case['method'], 'mmax' if mmax is not None else 'full')


@st.composite
def s_ortho(draw):
    return dict(method=draw(st.sampled_from(['colombo', 'holmes', 'mohlenkamp'])),
        lmax=draw(st.integers(1, 45)), m=draw(st.integers(0, 45)))


def b_ortho(case, ctx):
    lmax = case['lmax']
    m = case['m'] % (lmax + 1)
    x, w = oracle.glq(lmax + 2)
    P, _ = gravtk.associated_legendre(lmax, x, method=case['method'])
    A = P[m:, m, :]
    G = 0.5*(A*w) @ A.T
    # 4-pi normalisation: integral over x of P^2 is 2 for m=0 and 4 otherwise
    close(G, np.eye(lmax + 1 - m)*(1.0 if m == 0 else 2.0),
        f'orthogonality order {m}', atol=1e-9)
    # the reference itself
    R, _ = oracle.plm4pi(lmax, x)
    B = R[m:, m, :]
    if not np.allclose(0.5*(B*w) @ B.T, np.eye(lmax + 1 - m)*(1 if m == 0 else 2),
            atol=1e-9):
        from pbt.core import HarnessError
        raise HarnessError('reference not orthonormal')
    ctx.nontrivial(lmax > m)


def snap(t):
    # sin(t) is not representable from cos(t) next to the poles
    return 0.0 if t < 1e-2 else 180.0 if t > 180 - 1e-2 else t


@st.composite
def s_addition(draw):
    return dict(method=draw(st.sampled_from(['colombo', 'holmes', 'mohlenkamp'])),
        l=draw(st.integers(1, 60)), t1=draw(gen.nice_floats(0, 180)),
        t2=draw(gen.nice_floats(0, 180)), dphi=draw(gen.nice_floats(-180, 180)))


def b_addition(case, ctx):
    l = case['l']
    t1, t2, dp = np.radians([snap(case['t1']), snap(case['t2']), case['dphi']])
    P, _ = gravtk.associated_legendre(l, np.cos([t1, t2]), method=case['method'])
    m = np.arange(l + 1)
    s = float(np.sum(P[l, :, 0]*P[l, :, 1]*np.cos(m*dp)))
    cg = np.cos(t1)*np.cos(t2) + np.sin(t1)*np.sin(t2)*np.cos(dp)
    c = np.zeros(l + 1)
    c[l] = 1
    want = (2*l + 1)*np.polynomial.legendre.legval(cg, c)
    close(s, want, f'addition theorem degree {l}', atol=1e-8*(l + 1))
    pl, _ = gravtk.legendre_polynomials(l, np.clip(cg, -1, 1))
    close(pl[l, 0]*math.sqrt(2*l + 1), want, f'zonal addition degree {l}',
        atol=1e-8*(l + 1))
    ctx.nontrivial()


@st.composite
def s_zonal(draw):
    return dict(lmax=draw(degrees(250)), theta=draw(x_spec()),
        form=draw(st.sampled_from(['array', 'list', 'scalar'])))


def b_zonal(case, ctx):
    lmax = case['lmax']
    x = to_x(case['theta'])
    if case['form'] == 'scalar':
        x = x[:1]
    arg = {'array': x, 'list': list(x), 'scalar': float(x[0])}[case['form']]
    pl, dpl = gravtk.legendre_polynomials(lmax, arg)
    l = np.arange(lmax + 1)
    # explicit Legendre series evaluation from numpy (Clenshaw)
    want = np.sqrt(2*l + 1.0)[:, None]*np.array(
        [np.polynomial.legendre.legval(x, np.eye(lmax + 1)[k]) for k in l]) \
        if lmax <= 60 else oracle.plm4pi(lmax, x, 0)[0][:, 0]
    tp, td = tols(lmax, x)
    close(pl, want, f'zonal functions lmax={lmax}', rtol=1e-9, atol=tp[:, 0]*10)
    inner = np.abs(x) < 1
    require(np.shape(dpl) == np.shape(want), 'zonal derivative shape')
    if inner.any():
        _, wd = oracle.plm4pi(lmax, x[inner], 0)
        close(dpl[:, inner], wd[:, 0], f'zonal derivatives lmax={lmax}',
            rtol=1e-8, atol=td[:, 0, inner])
    # unit vectors: exact polar values
    for i in np.flatnonzero(~inner):
        close(pl[:, i], np.sqrt(2*l + 1.0)*x[i]**l, 'polar value', rtol=1e-12)
    ctx.nontrivial(lmax >= 2)
    ctx.label('polar' if (~inner).any() else 'inner')


@st.composite
def s_fixed(draw):
    norm = draw(st.booleans())
    return dict(l=draw(st.one_of(st.integers(0, 12),
        st.integers(0, 240 if norm else 60))), norm=norm,
        theta=draw(x_spec()))


def b_fixed(case, ctx):
    l = case['l']
    x = to_x(case['theta'])
    got = gravtk.legendre(l, x, NORMALIZE=case['norm'])
    P, _ = oracle.plm4pi(l, x)
    want = P[l, :l + 1]
    if not case['norm']:
        fac = np.array([(-1.0)**m*math.sqrt(math.factorial(l + m)/math.factorial(l - m)
            if l <= 60 else 1)/math.sqrt((2*l + 1)*(1 if m == 0 else 2))
            for m in range(l + 1)])[:, None]
        want = want*fac
    else:
        fac = np.ones((l + 1, 1))
    tol = np.abs(fac)*(1e-9*(l + 1))
    close(got, want, f"degree {l} normalize={case['norm']}", rtol=1e-6, atol=tol)
    ctx.nontrivial(l >= 2)
    ctx.label('norm' if case['norm'] else 'unnorm')


CHECKS = [
    Check('associated', s_assoc, b_assoc, quick=400, thorough=6000,
        rule='degree>=2 and at least one interior point'),
    Check('orthonormal', s_ortho, b_ortho, quick=120, thorough=1500,
        rule='at least two degrees in the Gram matrix'),
    Check('addition', s_addition, b_addition, quick=200, thorough=3000,
        rule='every case'),
    Check('zonal', s_zonal, b_zonal, quick=200, thorough=2500, rule='degree>=2'),
    Check('fixed_degree', s_fixed, b_fixed, quick=250, thorough=4000,
        rule='degree>=2'),
]

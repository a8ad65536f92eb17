"""Gaussian smoothing weights and averaging kernels"""
import numpy as np
from scipy.special import ive
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['reference weights: ratio of modified spherical Bessel functions '
    '(Legendre coefficients of the Gaussian), scipy.special.ive']
RE = 6371.0


def ref_weights(hw, lmax):
    """exact normalised Legendre coefficients of exp(-b(1-cos))"""
    l = np.arange(lmax + 1)
    b = np.log(2.0)/(2.0*np.sin(hw/RE/2.0)**2)
    return ive(l + 0.5, b)/ive(0.5, b)


def radius():
    return st.one_of(st.sampled_from([0, 0.0, 1, 100, 250, 300.0, 350, 500, 800]),
        gen.nice_floats(20.0, 2000.0), gen.nice_floats(1.0, 50.0),
        st.sampled_from([1e-11]))


@st.composite
def s_gauss(draw):
    lmax = draw(st.one_of(st.integers(1, 20), st.integers(1, 200)))
    cut = draw(st.sampled_from([None, None, None, 1e-10, 1e-6, 1e-4, 1e-12]))
    return dict(hw=draw(radius()), lmax=lmax, cutoff=cut)


def b_gauss(case, ctx):
    hw, lmax, cut = case['hw'], case['lmax'], case['cutoff']
    kw = {} if cut is None else dict(CUTOFF=cut)
    c = 1e-10 if cut is None else cut
    if 0 < hw < 1 and hw >= c:
        return
    wl = gravtk.gauss_weights(hw, lmax, **kw)
    require(np.shape(wl) == (lmax + 1,), f'shape {np.shape(wl)}')
    w = 2.0*np.pi*np.asarray(wl)
    close(w[0], 1.0, 'weight of degree zero', rtol=1e-12)
    if hw < c:
        close(w, np.ones(lmax + 1), 'no smoothing', rtol=1e-12)
        return
    ref = ref_weights(hw, lmax)
    require(np.all(w > 0), 'weights positive')
    # the documented floor replaces the tail below the cut-off
    low = np.flatnonzero(w/(2*np.pi) <= c*(1 + 1e-12))
    low = low[low >= 2]
    n = low[0] if len(low) else lmax + 1
    # rounding of 1-cos, and growth of rounding errors in the forward recursion
    rel = 1e-6 + 4e-16/(hw/RE)**2
    err = np.abs(w - ref)
    lim = rel*ref + 1e-7
    bad = np.flatnonzero(err[:n] > lim[:n])
    require(len(bad) == 0, lambda: f'hw={hw} degree {bad[0]}: weight '
        f'{w[bad[0]]!r} expected {ref[bad[0]]!r}')
    if len(low):
        require(np.array_equal(low, np.arange(low[0], lmax + 1)),
            'the floor covers the whole tail')
        close(w[low]/(2*np.pi), np.full(len(low), c), 'tail floor', rtol=1e-9)
        require(ref[n]/(2*np.pi) < c*1.01 + lim[n],
            f'floor applied at degree {n} where the weight is {ref[n]}')
    require(np.all(np.diff(w) <= lim[1:] + lim[:-1]), 'non-increasing in degree')
    # larger radius never increases a weight
    w2 = 2*np.pi*gravtk.gauss_weights(hw*1.25, lmax, **kw)
    require(np.all(w2[:n] <= w[:n] + 2*lim[:n]), 'non-increasing in radius')
    # half-width: kernel value at the radius is half of the value at the centre
    if ref[-1] < 1e-7 and lmax >= 10 and c <= 1e-9:
        l = np.arange(lmax + 1)
        K = np.polynomial.legendre.legval(np.cos([0.0, hw/RE]), (2*l + 1)*w)
        close(K[1]/K[0], 0.5, 'half width', atol=1e-4)
        ctx.label('half-width')
    ctx.nontrivial(lmax >= 3)
    ctx.label('floor' if len(low) else 'nofloor')


@st.composite
def s_smooth(draw):
    lm = draw(gen.lmax_mmax(1, 25))
    return dict(hw=draw(gen.nice_floats(50, 1500)), lm=lm,
        field=draw(gen.field_spec()), nt=draw(st.sampled_from([0, 0, 1, 3])))


def b_smooth(case, ctx):
    lmax, mmax = case['lm']
    clm, slm = gen.coeffs(case['field'], lmax, mmax, nt=case['nt'] or None)
    Y = gravtk.harmonics(lmax=lmax, mmax=mmax)
    Y.clm, Y.slm = clm.copy(), slm.copy()
    if case['nt']:
        Y.time = 2002.0 + np.arange(case['nt'])/12
        Y.month = 4 + np.arange(case['nt'])
    wt = 2.0*np.pi*gravtk.gauss_weights(case['hw'], lmax)
    Z = Y.convolve(wt)
    shp = (-1, 1) + ((1,) if case['nt'] else ())
    ref = ref_weights(case['hw'], lmax).reshape(shp)
    s = case['field']['scale']*5
    close(Z.clm, clm*ref, 'smoothed cosine terms', rtol=1e-5, atol=1e-6*s)
    close(Z.slm, slm*ref, 'smoothed sine terms', rtol=1e-5, atol=1e-6*s)
    ctx.nontrivial(np.any(clm) or np.any(slm))


@st.composite
def s_kernel(draw):
    lm = draw(gen.lmax_mmax(1, 30))
    return dict(hw=draw(gen.nice_floats(100, 1500)), lm=lm, seed=draw(gen.seeds),
        units=draw(st.sampled_from([0, 1])), sigma=draw(gen.nice_floats(0.1, 100)),
        cutoff=draw(st.sampled_from([None, 1e-15, 1e-8, 1e-4, 1e-3, 1e-2, 0.1])),
        zeros=draw(st.booleans()),
        defmm=draw(st.booleans()))


def b_kernel(case, ctx):
    lmax, mmax = case['lm']
    if case['defmm']:
        mmax = lmax
    r = gen.rng(case['seed'])
    tri = gen.tri_mask(lmax, mmax)
    g, h = r.standard_normal((2, lmax + 1, mmax + 1))*tri
    h[:, 0] = 0
    g[0, 0] = 0.05 + r.random()
    e, f = np.abs(r.standard_normal((2, lmax + 1, mmax + 1)))*tri
    love = gen.love(case['seed'], lmax)
    if case['zeros']:
        # terms known exactly
        e, f = e*(r.random(e.shape) < 0.6), f*(r.random(f.shape) < 0.6)
    if case['units'] == 0:
        e, f = e*1e-12, f*1e-12
    kw = dict(LMAX=lmax, UNITS=case['units'])
    if not case['defmm']:
        kw['MMAX'] = mmax
    if case['cutoff'] is not None:
        kw['CUTOFF'] = case['cutoff']
    if case['units'] == 0:
        kw['LOVE'] = love
    g0, h0, e0, f0 = [np.copy(v) for v in (g, h, e, f)]
    K = gravtk.gen_averaging_kernel(g, h, e, f, case['sigma'], case['hw'], **kw)
    for a, b in ((g, g0), (h, h0), (e, e0), (f, f0)):
        same(a, b, 'inputs unchanged')
    hw = case['hw']
    rad = (3/(4*np.pi)*4/3*np.pi*6378136.3**2*6356751.89)**(1/3)/1e3
    fac = gravtk.units(lmax=lmax)
    rad = fac.rad_e/1e5
    b = np.log(2.0)/(1 - np.cos(hw/rad))
    l = np.arange(lmax + 1)
    c = 1e-15 if case['cutoff'] is None else case['cutoff']
    gl = 2.0*ive(l + 0.5, b)*np.sqrt(np.pi/(2*b))
    # weights from the first degree under the cut-off on are the cut-off
    # (stay where the recursion of the kernel is numerically meaningful)
    gl = np.array(gl)
    under, = np.nonzero(gl[2:] < c)
    first = 2 + under[0] if len(under) else lmax + 1
    if np.any(gl[:first] < 1e-6) or np.any(np.abs(gl[2:]/c - 1) < 1e-3):
        ctx.label('tail')
        return
    gl[first:] = c
    if first <= lmax:
        ctx.label('cut off')
    if case['units'] == 0:
        hl, kl, ll = love
        rho_e = fac.rho_e
        df = fac.rad_e*rho_e*(2.0*l + 1)/(1 + kl)/3.0
    else:
        df = np.ones(lmax + 1)
    area = g0[0, 0]
    var = np.sum((gl/2)[:, None]*(g0**2 + h0**2))/area**2
    s0 = case['sigma']/np.sqrt(var)
    q = (df**2/(gl*s0**2))[:, None]
    wc = g0/(1 + 2*q*e0**2)/area
    ws = h0/(1 + 2*q*f0**2)/area
    require(K.lmax == lmax and K.mmax == mmax, 'limits of the kernel')
    close(K.clm, wc, 'kernel cosine terms', rtol=1e-5, atol=1e-12)
    close(K.slm, ws, 'kernel sine terms', rtol=1e-5, atol=1e-12)
    ctx.nontrivial(lmax >= 2)
    ctx.label(f"units{case['units']}")


CHECKS = [
    Check('gauss', s_gauss, b_gauss, quick=500, thorough=8000,
        rule='smoothing applied up to degree 3 or more'),
    Check('smooth', s_smooth, b_smooth, quick=150, thorough=2000,
        rule='a non-zero coefficient'),
    Check('kernel', s_kernel, b_kernel, quick=300, thorough=4000,
        rule='kernel above the cut-off up to degree 2 or more'),
]

"""Strategies and deterministic expansion of generated case descriptions"""
import datetime
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def rng(seed, *salt):
    return np.random.default_rng([int(seed)] + [int(s) for s in salt])


def field_spec():
    """description of a set of spherical harmonic coefficients"""
    return st.fixed_dictionaries(dict(
        seed=seeds,
        kind=st.sampled_from(['dense', 'dense', 'sparse', 'one', 'kaula']),
        scale=st.sampled_from([1.0, 1.0, 1e-9, 1e4])))


def coeffs(spec, lmax, mmax=None, nt=None, lmin=0):
    """expand a field_spec into lower-triangular clm, slm (slm[:,0] == 0)"""
    mmax = lmax if mmax is None else mmax
    r = rng(spec['seed'], lmax, mmax, nt or 0)
    shape = (lmax + 1, mmax + 1) + ((nt,) if nt else ())
    clm = r.standard_normal(shape)
    slm = r.standard_normal(shape)
    kind = spec['kind']
    if kind == 'sparse':
        clm *= r.random(shape) < 0.3
        slm *= r.random(shape) < 0.3
    elif kind == 'one':
        keep = np.zeros(shape)
        l = int(r.integers(lmin, lmax + 1))
        m = int(r.integers(0, min(l, mmax) + 1))
        keep[l, m] = 1.0
        clm *= keep
        slm *= keep
    elif kind == 'kaula':
        k = 1.0/np.maximum(np.arange(lmax + 1), 1.0)**2
        k = k.reshape((-1,) + (1,)*(len(shape) - 1))
        clm *= k
        slm *= k
    l = np.arange(lmax + 1)[:, None]
    m = np.arange(mmax + 1)[None, :]
    tri = (m <= l) & (l >= lmin)
    if nt:
        tri = tri[:, :, None]
    clm = clm*tri*spec['scale']
    slm = slm*tri*spec['scale']
    slm[:, 0] = 0.0
    return clm, slm


def tri_mask(lmax, mmax=None):
    mmax = lmax if mmax is None else mmax
    l = np.arange(lmax + 1)[:, None]
    m = np.arange(mmax + 1)[None, :]
    return m <= l


def lmax_mmax(lo=1, hi=20, mlo=0):
    """(lmax, mmax) pairs with full and truncated order"""
    @st.composite
    def s(draw):
        l = draw(st.integers(lo, hi))
        if draw(st.booleans()):
            m = l
        else:
            m = draw(st.integers(min(mlo, l), l))
        return [l, m]
    return s()


def love(seed, lmax):
    """a plausible random set of load Love numbers (h, l, k)"""
    r = rng(seed, lmax, 77)
    l = np.arange(lmax + 1)
    hl = -(0.3 + 4.0*r.random(lmax + 1))*(1 - np.exp(-l/20.0)) - 0.1
    kl = -0.4*r.random(lmax + 1)/(1 + l/10.0)
    ll = 0.1*r.standard_normal(lmax + 1)/(l + 1)
    kl[0] = 0.0
    if lmax >= 1:
        kl[1] = r.choice([0.021, -1.0, 0.0]) if r.random() < .5 else kl[1]
        if kl[1] == -1.0:
            kl[1] = 0.1
    return hl, kl, ll


def one_of_weighted(*pairs):
    out = []
    for value, w in pairs:
        out.extend([value]*w)
    return st.sampled_from(out)


def nice_floats(lo, hi):
    """floats of an interval: simple and extreme values as well as an even
    coverage of the interval"""
    n = 2**20
    return st.one_of(
        st.integers(0, n).map(lambda k: lo + (hi - lo)*(k/n)),
        st.integers(0, n).map(lambda k: lo + (hi - lo)*(k/n)),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64))


def F(**kw):
    return st.fixed_dictionaries(kw)


@st.composite
def spans(draw, longest=45):
    """first and last day of a solution; often across a change of the year"""
    if draw(st.integers(0, 3)):
        a = datetime.date(2002, 4, 1) + datetime.timedelta(draw(st.integers(0, 8000)))
    else:
        year = draw(st.sampled_from([2004, 2008, 2009, 2009, 2010, 2011, 2012, 2016, 2019, 2020]))
        a = datetime.date(year, 12, 1) + datetime.timedelta(draw(st.integers(0, 30)))
    b = a + datetime.timedelta(draw(st.integers(0, longest)))
    return [a.isoformat(), b.isoformat()]

"""Helpers for harmonics objects: construction, model state and comparison"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from . import gen
from .core import close, require, same


def months_times(seed, n, gaps=True):
    """n unique increasing months with mid-month decimal times"""
    r = gen.rng(seed, n, 31)
    step = r.integers(1, 4, n) if gaps else np.ones(n, dtype=int)
    first = int(r.integers(4, 200))
    month = first + np.cumsum(step)
    year = 2002 + (month - 1)//12
    mon = (month - 1) % 12
    time = year + (mon + 0.2 + 0.6*r.random(n))/12.0
    return month.astype(np.int64), np.round(time, 6)


# (months before, overlapping months, calendar month of both, months after)
SPECIAL = [([116, 117], (118, 119), 118, [120, 121, 122]),
    ([118, 119], (120, 121), 121, [122, 123]),
    ([158, 159], (160, 161), 160, [163, 164]),
    ([198, 199], (202, 203), 203, [204, 205])]


def special_months(seed):
    """series of months with two solutions centered in the same calendar month:
    months of the solutions, calendar months of their dates, decimal dates"""
    r = gen.rng(seed, 77)
    before, two, cal, after = SPECIAL[int(r.integers(len(SPECIAL)))]
    before = before[-int(r.integers(1, 3)):]
    after = after[:int(r.integers(1, len(after) + 1))]
    month = np.array(before + list(two) + after)
    raw = np.array(before + [cal, cal] + after)
    k = len(before)
    f = 0.3 + 0.4*r.random(len(month))
    f[k], f[k + 1] = 0.1 + 0.2*r.random(), 0.7 + 0.2*r.random()
    time = 2002 + (raw - 1)//12 + ((raw - 1) % 12 + f)/12.0
    return month.astype(np.int64), raw.astype(np.int64), np.round(time, 4)


def make(seed, lmax, mmax, n=None, dates=True, kind='dense', scale=1.0):
    """harmonics object with random coefficients"""
    h = gravtk.harmonics(lmax=lmax, mmax=mmax)
    c, s = gen.coeffs(dict(seed=seed, kind=kind, scale=scale), lmax, mmax, n)
    h.clm, h.slm = c.copy(), s.copy()
    if dates:
        if n:
            h.month, h.time = months_times(seed, n)
        else:
            m, t = months_times(seed, 1)
            h.month, h.time = m[0], t[0]
    return h


class Model:
    """plain arrays standing for a harmonics object"""

    def __init__(self, h):
        self.C = np.array(h.clm, dtype=float)
        self.S = np.array(h.slm, dtype=float)
        self.lmax, self.mmax = int(h.lmax), int(h.mmax)
        self.time = None if h.time is None else np.array(h.time)
        self.month = None if h.month is None else np.array(h.month)

    @property
    def nd(self):
        return self.C.ndim

    def build(self):
        h = gravtk.harmonics(lmax=self.lmax, mmax=self.mmax)
        h.clm, h.slm = self.C.copy(), self.S.copy()
        h.time = None if self.time is None else self.time.copy()
        h.month = None if self.month is None else self.month.copy()
        return h


def check(h, m, what, scale=None, dates=True):
    """object h agrees with model m"""
    big = max(1e-300, scale or 0.0, float(np.max(np.abs(np.where(
        np.isfinite(m.C), m.C, 0)), initial=0)),
        float(np.max(np.abs(np.where(np.isfinite(m.S), m.S, 0)), initial=0)))
    same(int(h.lmax), m.lmax, f'{what}: lmax')
    same(int(h.mmax), m.mmax, f'{what}: mmax')
    same(h.l, np.arange(m.lmax + 1), f'{what}: degrees l')
    same(h.m, np.arange(m.mmax + 1), f'{what}: orders m')
    close(h.clm, m.C, f'{what}: clm', rtol=1e-9, atol=1e-13*big)
    close(h.slm, m.S, f'{what}: slm', rtol=1e-9, atol=1e-13*big)
    same(tuple(h.shape), m.C.shape, f'{what}: shape')
    same(h.ndim, m.C.ndim, f'{what}: ndim')
    if dates and m.time is not None:
        require(h.time is not None and np.asarray(h.time).dtype != object,
            f'{what}: time is lost')
        close(np.asarray(h.time, dtype=float), np.asarray(m.time, dtype=float),
            f'{what}: time', rtol=1e-14)
        require(h.month is not None and np.asarray(h.month).dtype != object,
            f'{what}: month is lost')
        close(np.asarray(h.month, dtype=float), np.asarray(m.month, dtype=float),
            f'{what}: month', rtol=1e-14)


def snapshot(h):
    out = {}
    for k in ('clm', 'slm', 'time', 'month', 'l', 'm'):
        v = getattr(h, k, None)
        out[k] = None if v is None else np.array(v)
    out['lmax'], out['mmax'] = int(h.lmax), int(h.mmax)
    return out


def unchanged(h, snap, what):
    for k, v in snap.items():
        g = getattr(h, k)
        if v is None:
            require(g is None or np.asarray(g).dtype == object,
                f'{what}: {k} of the operand was set')
        else:
            same(np.asarray(g), v, f'{what}: {k} of the operand')


def disjoint(a, b, what):
    """no array of a shares memory with an array of b"""
    for k in ('clm', 'slm', 'time', 'month'):
        for q in ('clm', 'slm', 'time', 'month'):
            x, y = getattr(a, k, None), getattr(b, q, None)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and \
                    x.dtype != object and y.dtype != object:
                require(not np.shares_memory(x, y),
                    f'{what}: {k} shares memory with {q} of its source')


def shapes(lo=0, hi=10):
    return gen.lmax_mmax(lo, hi)


nts = st.one_of(st.none(), st.integers(1, 5))

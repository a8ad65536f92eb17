"""Helpers for spatial objects: construction, model state and comparison"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from . import gen, hx
from .core import close, require, same

FILLS = [-9999.0, float('nan'), 1e10]
fills = st.sampled_from(['num', 'num', 'nan', 'big', 'none'])
FILL = dict(num=-9999.0, nan=float('nan'), big=1e10, none=None)


def make(seed, nlat, nlon, n=None, fill='num', pmask=0.2, error=False,
        dates=True, dec=None, lon0=0.0, same_mask=False):
    r = gen.rng(seed, nlat, nlon, n or 0)
    s = gravtk.spatial(fill_value=FILL[fill])
    shape = (nlat, nlon) + ((n,) if n else ())
    s.data = r.standard_normal(shape)*3.0
    if dec is not None:
        s.data = np.round(s.data, dec)
    s.mask = r.random(shape) < pmask
    if same_mask and n:
        s.mask = np.repeat(s.mask[:, :, :1], n, axis=2)
    s.lat = np.linspace(80.0, -70.0, nlat) + np.round(r.random(), 2)
    s.lon = lon0 + np.arange(nlon)*(360.0/nlon)
    if error:
        s.error = np.abs(r.standard_normal(shape))
        if dec is not None:
            s.error = np.round(s.error, dec)
    if s.fill_value is not None:
        s.data[s.mask] = s.fill_value
        if error:
            s.error[s.mask] = s.fill_value
    if dates:
        if n:
            s.month, s.time = hx.months_times(seed, n)
        else:
            m, t = hx.months_times(seed, 1)
            s.month, s.time = np.int64(m[0]), np.float64(t[0])
    return s


class Model:
    def __init__(self, s):
        self.fill = s.fill_value
        self.mask = np.array(s.mask, dtype=bool)
        self.data = np.array(s.data, dtype=float)
        self.error = np.array(s.error, dtype=float) if getattr(s, 'error', None) \
            is not None else None
        self.lon, self.lat = np.array(s.lon), np.array(s.lat)
        self.time = None if s.time is None else np.array(s.time)
        self.month = None if s.month is None else np.array(s.month)
        self.file = s.filename

    def copy(self):
        import copy
        return copy.deepcopy(self)

    @property
    def nd(self):
        return self.data.ndim

    def refresh(self):
        """valid cells that became invalid are masked"""
        if self.fill is not None:
            self.mask = self.mask | np.isnan(self.data)
        return self


def check(s, m, what, tol=1e-9, dates=True, error=True, files=False):
    same(np.shape(s.data), m.data.shape, f'{what}: shape of data')
    same(np.asarray(s.mask, dtype=bool), m.mask, f'{what}: mask')
    ok = ~m.mask
    big = float(np.max(np.abs(np.where(np.isfinite(m.data) & ok, m.data, 0)), initial=0))
    close(np.asarray(s.data)[ok], m.data[ok], f'{what}: valid cells', rtol=tol,
        atol=1e-13*max(big, 1e-30))
    if m.fill is not None:
        same(np.asarray(s.data, dtype=float)[~ok], np.full(int((~ok).sum()), m.fill),
            f'{what}: masked cells')
    require((s.fill_value is None) == (m.fill is None) and (m.fill is None or
        s.fill_value == m.fill or (s.fill_value != s.fill_value and
        m.fill != m.fill)), f'{what}: fill value {s.fill_value}')
    same(np.asarray(s.lon), m.lon, f'{what}: longitudes')
    same(np.asarray(s.lat), m.lat, f'{what}: latitudes')
    same(tuple(s.shape), m.data.shape, f'{what}: shape attribute')
    same(s.ndim, m.data.ndim, f'{what}: ndim')
    if dates and m.time is not None:
        require(s.time is not None and np.asarray(s.time).dtype != object,
            f'{what}: time is lost')
        close(np.asarray(s.time, dtype=float), np.asarray(m.time, dtype=float),
            f'{what}: time', rtol=1e-14)
    if dates and m.month is not None:
        require(s.month is not None and np.asarray(s.month).dtype != object,
            f'{what}: month is lost')
        same(np.asarray(s.month).astype(int), np.asarray(m.month).astype(int),
            f'{what}: month')
    if error and m.error is not None:
        require(getattr(s, 'error', None) is not None, f'{what}: error is lost')
        close(np.asarray(s.error)[ok], m.error[ok], f'{what}: error', rtol=tol)
        if m.fill is not None:
            same(np.asarray(s.error, dtype=float)[~ok],
                np.full(int((~ok).sum()), m.fill), f'{what}: masked errors')
    if files and m.file is not None:
        same([str(f) for f in np.atleast_1d(s.filename)],
            [str(f) for f in np.atleast_1d(m.file)], f'{what}: files')


KEYS = ('data', 'mask', 'error', 'lon', 'lat', 'time', 'month')


def snapshot(s):
    out = {}
    for k in KEYS:
        v = getattr(s, k, None)
        out[k] = None if v is None else np.array(v)
    return out


def unchanged(s, snap, what):
    for k, v in snap.items():
        g = getattr(s, k, None)
        if v is None:
            require(g is None or np.asarray(g).dtype == object,
                f'{what}: {k} of the operand was set')
        else:
            same(np.asarray(g), v, f'{what}: {k} of the operand')


def disjoint(a, b, what):
    for k in KEYS:
        for q in KEYS:
            x, y = getattr(a, k, None), getattr(b, q, None)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and \
                    x.dtype != object and y.dtype != object:
                require(not np.shares_memory(x, y),
                    f'{what}: {k} shares memory with {q} of its source')

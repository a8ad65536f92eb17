"""Grid helpers: shifting, wrapping, interpolating"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['longitudes and latitudes of grids are regular and ascending',
    'new base longitudes lie within the range of the original longitudes']


@st.composite
def s_shift(draw):
    n = draw(st.integers(2, 40))
    return dict(seed=draw(gen.seeds), n=n, nlat=draw(st.integers(1, 12)),
        start=draw(st.sampled_from([0.0, -180.0, 0.5, -179.5, 'random'])),
        cyclic=draw(st.booleans()), period=draw(st.sampled_from([None, 360.0, 24.0, 1.0])),
        k=draw(st.integers(0, n)), between=draw(st.floats(-0.4, 0.4)),
        masked=draw(st.sampled_from([False, True, 'both'])),
        dtype=draw(st.sampled_from(['f8', 'f4', 'i4', 'bool'])))


def b_shift(case, ctx):
    r = gen.rng(case['seed'])
    n, nlat = case['n'], case['nlat']
    T = 360.0 if case['period'] is None else case['period']
    start = case['start']
    if start == 'random':
        start = float(r.uniform(-1, 1)*T/2)
    else:
        start = start*T/360.0
    m = n + 1 if case['cyclic'] else n
    lon = start + T*np.arange(m)/n
    data = 100*r.standard_normal((nlat, n))
    mask = r.random((nlat, n)) < 0.3
    if case['cyclic']:
        data = np.concatenate((data, data[:, :1]), axis=1)
        mask = np.concatenate((mask, mask[:, :1]), axis=1)
    data = (data > 0) if case['dtype'] == 'bool' else data.astype(case['dtype'])
    if case['masked']:
        data = np.ma.array(data, mask=mask)
    lon_in = np.ma.array(lon) if case['masked'] == 'both' else lon
    k = min(case['k'], m - 1)
    lon0 = lon[k] + case['between']*T/n
    lon0 = float(np.clip(lon0, lon[0], lon[-1]))
    d0, l0 = data.copy(), lon.copy()
    kw = {} if case['period'] is None else dict(CYCLIC=T)
    out, lout = gravtk.tools.shift_grid(lon0, data, lon_in, **kw)
    same(np.asarray(lon_in), l0, 'original longitudes')
    same(np.ma.getdata(data), np.ma.getdata(d0), 'original grid')
    require(out.shape == data.shape and lout.shape == lon.shape, 'shape of the shifted grid')
    require(out.dtype == data.dtype, 'type of the shifted grid')
    # starting longitude
    close(lout[0], lon[k] - T, 'first longitude', rtol=0, atol=1e-9*T)
    close(np.diff(np.asarray(lout)), np.full(m - 1, T/n), 'spacing', rtol=0, atol=1e-9*T)
    # each value stays at its location
    for j in range(m):
        i = (k + j) % n
        x = (lout[j] - lon[i])/T
        close(x, np.round(x), 'location of a column', rtol=0, atol=1e-9)
        same(np.ma.getdata(out)[:, j], np.ma.getdata(data)[:, i], f'column {j}')
        if case['masked']:
            same(np.ma.getmaskarray(out)[:, j], np.ma.getmaskarray(data)[:, i],
                f'mask of column {j}')
    ctx.nontrivial(k > 0 and n > 3)
    ctx.label('cyclic' if case['cyclic'] else 'open', 'masked' if case['masked'] else 'plain')


@st.composite
def s_wrap(draw):
    return dict(lon=draw(st.lists(st.one_of(st.floats(-1080, 1080),
        st.integers(-12, 12).map(lambda k: 90.0*k)), min_size=1, max_size=12)),
        scalar=draw(st.booleans()), two=draw(st.booleans()))


def b_wrap(case, ctx):
    lon = np.array(case['lon'])
    x = lon[0] if case['scalar'] else (np.tile(lon, (2, 1)) if case['two'] else lon.copy())
    out = gravtk.tools.wrap_longitudes(x)
    require(np.shape(out) == np.shape(x), 'shape')
    require(np.all(np.abs(out) <= 180.0 + 1e-9), 'range of wrapped longitudes')
    turns = (np.asarray(out) - x)/360.0
    close(turns, np.round(turns), 'turns', rtol=0, atol=1e-11)
    if not case['scalar']:
        same(x if not case['two'] else x[0], lon, 'input')
    ctx.nontrivial(np.any(np.abs(lon) > 180))


@st.composite
def s_interp(draw):
    return dict(seed=draw(gen.seeds), nx=draw(st.integers(6, 24)), ny=draw(st.integers(6, 24)),
        dx=draw(st.sampled_from([1.0, 0.5, 15.0])), dy=draw(st.sampled_from([1.0, 0.25, 10.0])),
        x0=draw(st.sampled_from([0.0, -180.0, 0.5])), y0=draw(st.sampled_from([-90.0, -60.0, 3.0])),
        order=draw(st.sampled_from(['default', 0, 0, 1, 1, 2, 3, 5])),
        nodes=draw(st.booleans()), shape=draw(st.sampled_from(['points', 'mesh'])),
        dtype=draw(st.sampled_from(['f8', 'f4', 'i4', 'bool'])),
        masked=draw(st.booleans()), outside=draw(st.booleans()))


def b_interp(case, ctx):
    r = gen.rng(case['seed'])
    nx, ny = case['nx'], case['ny']
    x = case['x0'] + case['dx']*np.arange(nx)
    y = case['y0'] + case['dy']*np.arange(ny)
    order = case['order']
    k = 0 if order == 'default' else order
    n = int(r.integers(1, 20))
    shape = (n,) if case['shape'] == 'points' else (int(r.integers(1, 6)), n)
    if case['nodes']:
        ix, iy = r.integers(0, nx, shape), r.integers(0, ny, shape)
        xo, yo = x[ix], y[iy]
    else:
        xo, yo = r.uniform(x[0], x[-1], shape), r.uniform(y[0], y[-1], shape)
    if case['outside'] and k == 0:
        xo = xo + (r.random(shape) < 0.3)*r.uniform(-2, 2, shape)*(x[-1] - x[0])
        yo = yo + (r.random(shape) < 0.3)*r.uniform(-2, 2, shape)*(y[-1] - y[0])
    kw = {} if order == 'default' else dict(order=order)
    if k == 0:
        data = 100*r.standard_normal((ny, nx))
        data = (data > 0) if case['dtype'] == 'bool' else data.astype(case['dtype'])
        if case['masked']:
            data = np.ma.array(data, mask=r.random((ny, nx)) < 0.3)
        out = gravtk.tools.interp_grid(data, x, y, xo, yo, **kw)
        require(np.shape(out) == shape, 'shape')
        for p in np.ndindex(shape):
            fx, fy = np.abs(x - xo[p]), np.abs(y - yo[p])
            jx = np.flatnonzero(fx <= fx.min() + 1e-9*case['dx'])
            jy = np.flatnonzero(fy <= fy.min() + 1e-9*case['dy'])
            g, d = np.ma.getdata(out)[p], np.ma.getdata(data)
            require(any(g == d[b, a] for a in jx for b in jy),
                lambda: f'nearest value at {xo[p]}, {yo[p]}: {g}')
            if case['masked'] and len(jx)*len(jy) == 1:
                same(np.ma.getmaskarray(out)[p], data.mask[jy[0], jx[0]], 'nearest mask')
    else:
        # any polynomial up to the order of the spline is reproduced
        c = r.standard_normal((k + 1, k + 1))
        u = lambda v: (v - x[0])/(x[-1] - x[0])
        w = lambda v: (v - y[0])/(y[-1] - y[0])
        p = lambda a, b: np.polynomial.polynomial.polyval2d(u(a), w(b), c)
        X, Y = np.meshgrid(x, y)
        out = gravtk.tools.interp_grid(p(X, Y), x, y, xo, yo, **kw)
        require(np.shape(out) == shape, 'shape')
        close(out, p(xo, yo), f'polynomial of degree {k}', rtol=0,
            atol=1e-8*np.abs(c).sum())
        # any field is reproduced at the nodes
        f = r.standard_normal((ny, nx))
        ix, iy = r.integers(0, nx, shape), r.integers(0, ny, shape)
        out = gravtk.tools.interp_grid(f, x, y, x[ix], y[iy], **kw)
        close(out, f[iy, ix], 'values at nodes', rtol=0, atol=1e-8)
        if k == 1:
            out = gravtk.tools.interp_grid(f, x, y, xo, yo, **kw)
            a = np.clip(((xo - x[0])/case['dx']).astype(int), 0, nx - 2)
            b = np.clip(((yo - y[0])/case['dy']).astype(int), 0, ny - 2)
            s, t = (xo - x[a])/case['dx'], (yo - y[b])/case['dy']
            want = (1-t)*((1-s)*f[b, a] + s*f[b, a+1]) + t*((1-s)*f[b+1, a] + s*f[b+1, a+1])
            close(out, want, 'bilinear interpolation', rtol=0, atol=1e-8)
    ctx.nontrivial(nx != ny)
    ctx.label(f'order {k}', case['shape'])


CHECKS = [
    Check('shift', s_shift, b_shift, 400, rule='a real rotation of more than three columns'),
    Check('wrap', s_wrap, b_wrap, 200, rule='some longitude outside -180..180'),
    Check('interp', s_interp, b_interp, 400, rule='different numbers of columns and rows'),
]

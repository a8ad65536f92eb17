"""Ocean and land functions of land-sea masks"""
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, raises, require, same
from props.S02 import quadrature

ASSUMPTIONS = ['masks cover the sphere on a regular grid without a repeated meridian',
    'classes 0 ocean, 1 land, 2 lake, 3 small island, 4 ice shelf']


def make_mask(seed, kind, nlat, nlon):
    r = gen.rng(seed, 1)
    if kind == 'white':
        return r.choice([0, 1, 2, 3, 4], (nlat, nlon), p=[.5, .2, .1, .1, .1]).astype('i1')
    if kind == 'sparse':
        return r.choice([0, 1, 2, 3, 4], (nlat, nlon), p=[.8, .05, .05, .05, .05]).astype('i1')
    if kind == 'ocean':
        return np.zeros((nlat, nlon), dtype='i1')
    if kind == 'land':
        return np.ones((nlat, nlon), dtype='i1')
    # blocks of one class
    out = np.zeros((nlat, nlon), dtype='i1')
    for _ in range(int(r.integers(1, 8))):
        i, j = r.integers(0, nlat), r.integers(0, nlon)
        a, b = r.integers(1, max(nlat//2, 2)), r.integers(1, max(nlon//2, 2))
        rows = np.clip(np.arange(i, i + a), 0, nlat - 1)
        cols = np.arange(j, j + b) % nlon
        out[np.ix_(rows, cols)] = r.integers(0, 5)
    return out


def write(path, mask, lon, lat, varname, dtype='i1', extra=False):
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('lat', len(lat))
        f.createDimension('lon', len(lon))
        f.createVariable('lat', 'f8', ('lat',))[:] = lat
        f.createVariable('lon', 'f8', ('lon',))[:] = lon
        v = f.createVariable(varname, dtype, ('lat', 'lon'))
        v[:] = mask
        v.units = 'class'
        if extra:
            w = f.createVariable('other', 'f4', ('lat', 'lon'))
            w[:] = 7
        f.title = 'mask'


@st.composite
def s_function(draw):
    lmax, mmax = draw(gen.lmax_mmax(1, 16))
    n = draw(st.integers(max(6, lmax + 2), max(6, 2*lmax) + 8))
    return dict(seed=draw(gen.seeds), lmax=lmax, mmax=mmax, n=n,
        defmm=(lmax == mmax and draw(st.booleans())),
        kind=draw(st.sampled_from(['white', 'sparse', 'blocks', 'blocks', 'ocean', 'land'])),
        simplify=draw(st.sampled_from([None, False, True, True])),
        up=draw(st.booleans()), lon180=draw(st.booleans()), center=draw(st.booleans()),
        var=draw(st.sampled_from([None, 'LSMASK', 'mask'])),
        dtype=draw(st.sampled_from(['i1', 'i4', 'f8'])), string=draw(st.booleans()),
        missing=draw(st.integers(0, 29)) == 0)


def isolated(land):
    """land with at most one of its four neighbours being land"""
    nlat, nlon = land.shape
    out = np.zeros(land.shape, dtype=bool)
    for i in range(nlat):
        for j in range(nlon):
            if not land[i, j]:
                continue
            up = i + 1 if i + 1 < nlat else nlat - 2
            dn = i - 1 if i > 0 else 1
            k = (int(land[up, j]) + int(land[dn, j]) + int(land[i, (j + 1) % nlon])
                + int(land[i, j - 1]))
            out[i, j] = k <= 1
    return out


def b_function(case, ctx):
    lmax, mmax, n = case['lmax'], case['mmax'], case['n']
    d = 180.0/n
    if case['center']:
        lat, lon = -90 + d/2 + d*np.arange(n), d/2 + d*np.arange(2*n)
    else:
        lat, lon = -90 + d*np.arange(n + 1), d*np.arange(2*n)
    if case['lon180']:
        lon = lon - 180.0
    if not case['up']:
        lat = lat[::-1].copy()
    mask = make_mask(case['seed'], case['kind'], len(lat), len(lon))
    path = ctx.tmp/'mask.nc'
    love = gen.love(case['seed'], lmax)
    var = case['var'] or 'LSMASK'
    kw = dict(LOVE=love)
    if case['var']:
        kw['VARNAME'] = var
    if not case['defmm']:
        kw['MMAX'] = mmax
    if case['simplify'] is not None:
        kw['SIMPLIFY'] = case['simplify']
    arg = str(path) if case['string'] else path
    if case['missing']:
        for fn in (gravtk.ocean_stokes, gravtk.land_stokes):
            require(raises(lambda: fn(arg, lmax, **kw), FileNotFoundError), 'missing file')
        return
    write(path, mask, lon, lat, var, case['dtype'], extra=case['string'])
    ocean = gravtk.ocean_stokes(arg, lmax, **kw)
    land = gravtk.land_stokes(arg, lmax, **kw)
    f = ((mask >= 1) & (mask <= 3)).astype(float)
    if case['simplify']:
        f = f - isolated(f)
    sp = oracle.spatial_factors(lmax, love)['cmwe']
    area = np.cos(np.radians(lat))*np.radians(d)**2
    tri = gen.tri_mask(lmax, mmax)
    scale = 4*np.pi*np.abs(sp).max()*np.sqrt(2*lmax + 1)
    for got, g, what in ((land, f, 'land'), (ocean, 1 - f, 'ocean')):
        C, S = quadrature(g.T, lon, lat, lmax, mmax, area)
        require(int(got.lmax) == lmax and int(got.mmax) == mmax, f'{what}: limits')
        close(got.clm, C*tri*sp[:, None], f'{what} (cosine)', rtol=0, atol=1e-11*scale)
        close(got.slm, S*tri*sp[:, None], f'{what} (sine)', rtol=0, atol=1e-11*scale)
        # fraction of the area of the grid
        frac = np.sum(g*area[:, None])/(4*np.pi)
        close(got.clm[0, 0]/sp[0]/(4*np.pi), frac, f'{what}: area', rtol=0, atol=1e-11)
    one = quadrature(np.ones(f.T.shape), lon, lat, lmax, mmax, area)
    close(land.clm + ocean.clm, one[0]*tri*sp[:, None], 'unit field (cosine)', rtol=0,
        atol=1e-11*scale)
    close(land.slm + ocean.slm, one[1]*tri*sp[:, None], 'unit field (sine)', rtol=0,
        atol=1e-11*scale)
    ctx.nontrivial(0 < f.mean() < 1)
    ctx.label(case['kind'], 'simplified' if case['simplify'] else 'complete')


@st.composite
def s_mask(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(4, 20)),
        kind=draw(st.sampled_from(['white', 'blocks', 'blocks', 'sparse'])),
        lakes=draw(st.sampled_from([None, False, True])),
        ice=draw(st.sampled_from([None, False, True])),
        res=draw(st.sampled_from([None, '1d', 'hd', 'qd'])),
        order=draw(st.sampled_from([None, 0, 1])),
        nodes=draw(st.booleans()), data=draw(st.sampled_from([False, True, 'nomask'])))


def b_mask(case, ctx):
    r = gen.rng(case['seed'], 2)
    n = case['n']
    d = 180.0/n
    lat, lon = -90 + d/2 + d*np.arange(n), d/2 + d*np.arange(2*n)
    paths = {}
    masks = {}
    for k, res in enumerate(['1d', 'hd', 'qd']):
        masks[res] = make_mask(case['seed'] + k, case['kind'], n, 2*n)
        paths[res] = ctx.tmp/f'landsea_{res}.nc'
        write(paths[res], masks[res], lon, lat, 'LSMASK')
    mod = gravtk.tools
    saved = mod.get_data_path
    shape = (int(r.integers(1, 5)), int(r.integers(1, 9)))
    exact = case['nodes'] or case['order'] == 1
    if exact:
        ix, iy = r.integers(0, 2*n, shape), r.integers(0, n, shape)
        xo, yo = lon[ix], lat[iy]
    else:
        xo, yo = r.uniform(0, 360, shape), r.uniform(-90, 90, shape)
        ix = np.clip(np.floor(xo/d).astype(int), 0, 2*n - 1)
        iy = np.clip(np.floor((yo + 90)/d).astype(int), 0, n - 1)
    kw = {}
    if case['lakes'] is not None:
        kw['lakes'] = case['lakes']
    if case['ice'] is not None:
        kw['iceshelves'] = case['ice']
    if case['res']:
        kw['resolution'] = case['res']
    if case['order'] is not None:
        kw['order'] = case['order']
    classes = {1, 3} | ({2} if case['lakes'] else set()) | \
        ({4} if case['ice'] is not False else set())
    want = np.isin(masks[case['res'] or 'qd'], list(classes))[iy, ix]
    data = None
    if case['data']:
        v = r.standard_normal(shape)
        m0 = r.random(shape) < 0.3 if case['data'] is True else np.zeros(shape, dtype=bool)
        data = np.ma.array(v.copy(), mask=m0.copy(), fill_value=-9999.0)
        kw['data'] = data
    try:
        mod.get_data_path = lambda rel: ctx.tmp/list(rel)[-1]
        out = mod.mask_oceans(xo, yo, **kw)
    finally:
        mod.get_data_path = saved
    if case['order'] == 1:
        # spline values at nodes carry rounding: only a mask of ones is certain
        if data is None:
            require(np.all(out[want]), 'classes at the nodes')
    elif data is None:
        require(out.dtype == bool, 'type of the mask')
        same(out, want, 'classes at the nearest nodes')
    else:
        m = want | m0
        same(np.ma.getmaskarray(out), m, 'combined mask')
        same(np.ma.getdata(out)[~m], v[~m], 'valid data')
        same(np.ma.getdata(out)[m], np.full(m.sum(), -9999.0), 'fill values')
    ctx.nontrivial(want.any() and not want.all())
    ctx.label('data' if case['data'] else 'mask')


CHECKS = [
    Check('function', s_function, b_function, 250, rule='masks with both land and ocean'),
    Check('mask', s_mask, b_mask, 150, rule='selected and unselected points'),
]

"""Programs for sea level fingerprints and raster grids"""
import os
import stat
import sys
import types
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, oracle, prog
from pbt.core import Check, close, require, same
from props.C01 import arguments
from props.F02 import guarded
from props.O01 import make_mask, write
from props.S02 import quadrature
from props.W01 import centre, files_of, logged

ASSUMPTIONS = ['land-sea masks cover the sphere with some ocean', 'archives as in F02',
    'cells within rounding of the threshold of the raster mask are skipped',
    'geoid_toolkit is not installed: its latitude conversion and its writers are stand-ins']


@st.composite
def s_finger(draw):
    lmax = draw(st.integers(2, 12))
    form = draw(st.sampled_from([None, 'ascii', 'netCDF4', 'HDF5']))
    date = draw(st.booleans())
    n = draw(st.sampled_from([None, 1, 2, 3])) if date and form != 'ascii' else None
    return dict(seed=draw(gen.seeds), lmax=lmax, form=form, date=date, n=n,
        more=draw(st.integers(0, 3)), shape=draw(st.sampled_from([(12, 24), (18, 36), (14, 20),
            (20, 15)])), kind=draw(st.sampled_from(['white', 'sparse', 'blocks'])),
        up=draw(st.booleans()), lon180=draw(st.booleans()),
        love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        body=draw(st.sampled_from([None, 0, 1])), fluid=draw(st.sampled_from([None, 0, 1, 2, 3])),
        polar=draw(st.booleans()), ref=draw(st.sampled_from([None, 'CF', 'CE', 'cf'])),
        iters=draw(st.sampled_from([None, 1, 2, 3])), argfile=draw(st.booleans()),
        scale=draw(st.sampled_from([1e-9, 1e-8])),
        mode=draw(st.sampled_from([None, '640', '775'])), shift=draw(st.integers(-2, 2)))


def raw(path, form, lon, lat, n):
    """field [lat, lon, n], dates and units of a file"""
    if form == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        out = np.zeros((len(lat), len(lon)))
        i = np.argmin(np.abs(rows[:, 1][:, None] - lat), axis=1)
        j = np.argmin(np.abs(rows[:, 0][:, None] - lon), axis=1)
        close(rows[:, 0], lon[j], 'longitudes', rtol=0, atol=6e-5)
        close(rows[:, 1], lat[i], 'latitudes', rtol=0, atol=6e-5)
        same(len(set(zip(i, j))), len(rows), 'distinct points')
        out[i, j] = rows[:, 2]
        return out[:, :, None], rows[:, 3:], None
    if form == 'netCDF4':
        with netCDF4.Dataset(path) as f:
            f.set_auto_mask(False)
            v = {k: f[k][:] for k in f.variables}
            a = f['z'].units
    else:
        with h5py.File(path) as f:
            v = {k: f[k][:] for k in f.keys()}
            a = f['z'].attrs['units']
            a = a.decode() if isinstance(a, bytes) else a
    close(v['lon'], lon, 'longitudes', rtol=0, atol=1e-9)
    close(v['lat'], lat, 'latitudes', rtol=0, atol=1e-9)
    same(v['z'].shape[:2], (len(lat), len(lon)), 'shape')
    return v['z'].reshape(len(lat), len(lon), -1), v.get('time'), a


def b_finger(case, ctx):
    root = ctx.tmp
    lmax, form = case['lmax'], case['form'] or 'netCDF4'
    nlat, nlon = case['shape']
    dlat, dlon = 180/nlat, 360/nlon
    lat, lon = 90 - dlat*(np.arange(nlat) + 0.5), dlon*(np.arange(nlon) + 0.5)
    if case['up']:
        lat = lat[::-1].copy()
    if case['lon180']:
        lon = lon - 180
    mask = make_mask(case['seed'], case['kind'], nlat, nlon)
    sea = ~((mask >= 1) & (mask <= 3))
    area = (np.cos(np.radians(lat))*np.radians(dlat)*np.radians(dlon))[:, None] + 0*mask
    if np.sum(sea*area) < 0.1*4*np.pi:
        return
    write(root/'mask.nc', mask, lon, lat, 'LSMASK')
    n = case['n']
    L = lmax + case['more']
    fields = [grc.coefficients(case['seed'] + i, L, case['scale']) for i in range(n or 1)]
    C, S = [np.stack([f[q] for f in fields], axis=2) for q in (0, 1)]
    t = 2005 + np.round(gen.rng(case['seed'], 1).uniform(0, 1) + np.arange(n or 1)/12, 4)
    month = 40 + np.arange(n or 1)
    q = dict(time=t, month=month) if n else dict(time=t[0], month=month[0])
    put = (C, S) if n else (C[:, :, 0], S[:, :, 0])
    C, S = grc.save(root/'load', form, *put, **(q if case['date'] else {}))
    C, S = [v.reshape(L + 1, L + 1, -1)[:lmax + 1, :lmax + 1] for v in (C, S)]
    args = [root/'load', root/'sea.out', '--mask', root/'mask.nc', '--lmax', lmax]
    for k, o in (('love', 'love'), ('body', 'body'), ('fluid', 'fluid'), ('ref', 'reference'),
            ('iters', 'iterations'), ('form', 'format'), ('mode', 'mode')):
        if case[k] is not None:
            args += ['--' + o, case[k]]
    if case['polar']:
        args += ['--polar-feedback']
    if case['date']:
        args += ['--date']
    prog.run('run_sea_level_equation', *arguments(case, str(root), args))
    same(stat.S_IMODE(os.stat(root/'sea.out').st_mode), int(case['mode'] or '775', 8),
        'permissions')
    got, times, units = raw(root/'sea.out', form, lon, lat, n)
    same(got.shape[2], n or 1, 'number of fields')
    if form != 'ascii':
        same(units, 'centimeters', 'units')
        att, top = meta.attributes(root/'sea.out', form)
        same(att['z'].get('long_name'), 'Equivalent_Water_Thickness', 'long name')
        meta.check(top, dict(meta.earth(lmax, case['love'], case['ref'], False),
            max_degree=str(lmax), iterations=str(6 if case['iters'] is None else case['iters']),
            lineage='load', land_sea_mask='mask.nc', title='Sea_Level_Fingerprint',
            earth_body_tide=['Wahr (1981)', 'Farrell (1972)'][case['body'] or 0],
            earth_fluid_love=['Han and Wahr (1989)', 'Munk and MacDonald (1960)',
            'Munk and MacDonald (1960)', 'Lambeck (1980)'][case['fluid'] or 0],
            polar_motion_feedback='Kendall et al. (2005)' if case['polar'] else None,
            reference='Output from run_sea_level_equation.py'), 'sea level')
    if case['date']:
        if form == 'ascii':
            close(times[:, 0], np.full(len(times), t[0]), 'time', rtol=0, atol=6e-5)
        else:
            close(times, t, 'time', rtol=0, atol=1e-9)
    love = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=case['love'] or 0,
        REFERENCE=(case['ref'] or 'CF').upper())
    rounding = 5.1e-5 if form == 'ascii' else 0
    e = oracle.Earth()
    for i in range(n or 1):
        want = np.asarray(gravtk.sea_level_equation(C[:, :, i], S[:, :, i], lon, lat,
            (~sea).T.astype(float), LMAX=lmax, LOVE=love, BODY_TIDE_LOVE=case['body'] or 0,
            FLUID_LOVE=case['fluid'] or 0, POLAR=case['polar'],
            ITERATIONS=6 if case['iters'] is None else case['iters'], FILL_VALUE=0),
            dtype=float).T
        top = np.abs(want).max()
        close(got[:, :, i], want, f'sea level {i}', rtol=0, atol=1e-9*top + rounding)
        same(got[:, :, i][~sea], np.zeros((~sea).sum()), 'land')
        # the mass of the load moves to the ocean
        total = -4*np.pi*e.R*e.rho*C[0, 0, i]/3
        close(np.sum(got[:, :, i]*area), total, 'mass', rtol=0,
            atol=4*np.pi*(1e-9*top + rounding))
    ctx.nontrivial(bool((~sea).any()) and lmax > 2)
    ctx.label(form, 'series' if n else 'field', 'dated' if case['date'] else 'undated')


class Writers:
    """stand-in of the spatial module of the geoid toolkit"""
    calls = []

    @staticmethod
    def geocentric_latitude(lon, lat, a_axis=6378137.0, flat=1/298.257223563):
        e2 = 2*flat - flat**2
        return np.degrees(np.arctan((1 - e2)*np.tan(np.radians(lat))))

    @classmethod
    def to_netCDF4(cls, output, attributes, filename, **kw):
        cls.put('netCDF4', output, attributes, filename, kw)

    @classmethod
    def to_HDF5(cls, output, attributes, filename, **kw):
        cls.put('HDF5', output, attributes, filename, kw)

    @classmethod
    def put(cls, form, output, attributes, filename, kw):
        with open(filename, 'w') as f:
            f.write(form)
        cls.calls.append((form, {k: np.ma.copy(v) if k == 'z' else np.array(v)
            for k, v in output.items()}, attributes, filename, kw))


PROJ = {'4326': None, '3031': [-4e6, 4e6, -4e6, 4e6], '3413': [-3e6, 3e6, -3e6, 3e6],
    '3411': [-4e6, 4e6, -4e6, 4e6],
    '+proj=laea +lat_0=45 +lon_0=10 +ellps=bessel +units=m +no_defs': [-4e6, 4e6, -4e6, 4e6],
    '6933': [-17e6, 17e6, -7e6, 7e6],
    '+proj=laea +lat_0=-90 +lon_0=20 +datum=WGS84 +units=m +no_defs': [-4e6, 4e6, -4e6, 4e6]}


@st.composite
def s_raster(draw):
    c = draw(grc.s_grace(lo=2, hi=7))
    c.update(units=draw(st.sampled_from([None, 1, 2, 3, 4, 5])),
        lmin=draw(st.sampled_from([None, 0, 1, 2, 3])),
        form=draw(st.sampled_from([None, 'netCDF4', 'HDF5'])),
        prefix=draw(st.sampled_from([None, None, 'raster_'])),
        proj=draw(st.sampled_from([None] + sorted(PROJ))),
        nx=draw(st.integers(2, 9)), ny=draw(st.integers(2, 9)), square=draw(st.booleans()),
        part=draw(st.sampled_from([1.0, 0.5])))
    return centre(c)


@guarded
def b_raster(case, ctx):
    import pyproj
    root = ctx.tmp
    code = case['proj'] or '4326'
    g = grc.prepare(case, root, redistribute=True)
    if g is None:
        return
    old = {k: sys.modules.get(k) for k in ('geoid_toolkit', 'geoid_toolkit.spatial')}
    mod = types.ModuleType('geoid_toolkit')
    mod.spatial = Writers
    sys.modules.update({'geoid_toolkit': mod, 'geoid_toolkit.spatial': Writers})
    prog._mods.pop('grace_raster_grids', None)
    Writers.calls = []
    try:
        bounds = PROJ[code] or [-180.0, 180.0, -90.0, 90.0]
        bounds = [case['part']*v for v in bounds]
        dx, dy = (bounds[1] - bounds[0])/case['nx'], (bounds[3] - bounds[2])/case['ny']
        if case['square']:
            dy = dx
            bounds[3] = bounds[2] + dy*max(int((bounds[3] - bounds[2])/dy), 1)
            if code == '4326' and bounds[3] > 90:
                return
        ny = int(round((bounds[3] - bounds[2])/dy))
        x = bounds[0] + dx*(np.arange(case['nx']) + 0.5)
        y = bounds[2] + dy*(np.arange(ny) + 0.5)
        args = ['--spacing', repr(dx)] + ([] if case['square'] else [repr(dy)])
        if code != '4326' or case['part'] != 1 or case['square']:
            args += ['--bounds', *[grc.num(v) for v in bounds]]
        if case['proj']:
            args += ['--projection', code]
        for k, o in (('units', 'units'), ('lmin', 'lmin'), ('form', 'format'),
                ('prefix', 'file-prefix')):
            if case[k] is not None:
                args += ['--' + o, case[k]]
        if '--mask' not in g.args:
            args += g.mask
        if code.startswith('+'):
            case = dict(case, argfile=False)
        out = root/'out'/'raster'
        args = g.grace + g.args + args + ['--output-directory', out]
        prog.run('grace_raster_grids', *arguments(case, str(root), args))
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        prog._mods.pop('grace_raster_grids', None)
    form = case['form'] or 'netCDF4'
    units = grc.UNITS[case['units'] or 1]
    lmin = 1 if case['lmin'] is None else case['lmin']
    pre = case['prefix'] or f"{case['proc']}_{g.rel}_{case['dset']}{g.title}{g.gia}_"
    name = (f'{pre}{units}_L{g.lmax}{g.order}{g.gauss}{g.filter}_{g.start:03d}-{g.end:03d}'
        f"{dict(netCDF4='.nc', HDF5='.H5')[form]}")
    same(files_of(out), {name}, 'files')
    logged(case, out, [name])
    same(stat.S_IMODE(os.stat(out/name).st_mode), int(case['mode'] or '775', 8), 'permissions')
    same(len(Writers.calls), 1, 'number of files written')
    how, z, att, _, kw = Writers.calls[0]
    same(how, form, 'format')
    same(kw.get('data_type'), 'grid', 'type of the data')
    close(z['x'], x, 'x coordinates', rtol=0, atol=1e-9*dx)
    close(z['y'], y, 'y coordinates', rtol=0, atol=1e-9*dy)
    close(z['time'], g.time, 'times', rtol=0, atol=1e-9)
    names, longs = gravtk.units.get_attributes(units)
    same(att['z']['units'], names, 'units')
    same(att['z']['_FillValue'], -9999.0, 'fill value')
    meta.provenance({k: str(v) for k, v in att['ROOT'].items()}, case, g, 'grace_raster_grids')
    same(att['crs']['spatial_epsg'], pyproj.CRS.from_string(code if code.startswith('+') else
        'EPSG:' + code).to_epsg(), 'projection of the grid')
    same(att['z']['grid_mapping'], 'crs', 'grid mapping')
    same(int(att['z']['degree_of_truncation']), g.lmax, 'degree of truncation')
    # positions of the cells
    crs = pyproj.CRS.from_string(code if code.startswith('+') else 'EPSG:' + code)
    tr = pyproj.Transformer.from_crs(crs, 'EPSG:4326', always_xy=True)
    gx, gy = np.meshgrid(x, y)
    plon, plat = tr.transform(gx, gy)
    plat = Writers.geocentric_latitude(plon, plat, flat=1/crs.ellipsoid.inverse_flattening)
    at = np.isfinite(plon) & np.isfinite(plat)
    # smoothed land function
    k = 12
    m = netCDF4.Dataset(root/'mask.nc')
    land, mlon, mlat = [np.asarray(m[v][:], dtype=float) for v in ('LSMASK', 'lon', 'lat')]
    m.close()
    land = ((land >= 1) & (land <= 3)).astype(float).T
    area = np.cos(np.radians(mlat))*np.radians(180/k)**2/(4*np.pi)
    lc, ls = quadrature(land, mlon, mlat, g.lmax, g.mmax, area)
    tri = gen.tri_mask(g.lmax, g.mmax)
    w2 = 2*np.pi*gravtk.gauss_weights(2*case['rad'], g.lmax) if case['rad'] else \
        np.ones(g.lmax + 1)
    lc, ls = lc*tri*w2[:, None], ls*tri*w2[:, None]
    fn = oracle.synth_points(lc, ls, plon.ravel(), plat.ravel()).reshape(plon.shape)
    sure = at & (np.abs(fn - 0.025) > 1e-6)
    keep = fn > 0.025
    got, hide = np.asarray(np.ma.getdata(z['z'])), np.ma.getmaskarray(z['z'])
    same(got.shape, (ny, case['nx'], len(g.months)), 'shape')
    fac = oracle.harmonic_factors(g.lmax, g.love)[units]*g.wt
    for i in range(len(g.months)):
        same(hide[sure, i], ~keep[sure], f'mask of month {i}')
        sel = sure & ~keep
        same(got[sel, i], np.full(sel.sum(), -9999.0), 'fill values')
        sel = sure & keep
        f = [v[:, :, i]*fac[:, None] for v in (g.C, g.S)]
        for v in f:
            v[:lmin] = 0
        want = oracle.synth_points(*f, plon[sel], plat[sel])
        bound = oracle.basis_bound(*f) + 1e-300
        h = [v[:, :, i]*fac[:, None] for v in g.raw]
        for v in h:
            v[:lmin] = 0
        bound += 1e-4*oracle.basis_bound(*h)
        close(got[sel, i], want, f'month {i}', rtol=0, atol=1e-9*bound)
    ctx.nontrivial(len(g.months) > 1 and g.lmax > 1 and keep.any())
    ctx.label(form, units, code[:8], g.order or 'all orders', 'land' if keep.any() else 'none')


CHECKS = [
    Check('fingerprint', s_finger, b_finger, quick=250, thorough=4000,
        rule='some land and degree above two'),
    Check('raster', s_raster, b_raster, quick=150, thorough=2500,
        rule='more than one month, degree two or more and some land'),
]

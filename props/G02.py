"""Spatial files: round trips, cross-format agreement and independent files"""
import pathlib
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx, meta, sx
from pbt.core import Check, close, raises, require, same
from props.H03 import FMT, SUF, compressed, digest, reader

ASSUMPTIONS = ['ascii files hold one grid with 4 decimals of coordinates, values '
    'and dates (dates are read in single precision)',
    'ascii grids read without spatial bounds have a valid cell in every row and column',
    'grids have at least two latitudes and two longitudes',
    'objects without a fill value are written without a mask',
    'time series files hold unique months (duplicates are adjusted, see T02)']


# ------------------------------------------------------------- geometries
@st.composite
def s_geom(draw):
    kind = draw(st.sampled_from(['pixel', 'node', 'centered', 'regional', 'regional']))
    if kind == 'regional':
        return dict(kind=kind, dlon=draw(st.sampled_from([0.0625, 0.1, 0.25, 0.3, 1.0, 2.5])),
            dlat=draw(st.sampled_from([0.05, 0.125, 0.5, 0.7, 1.0, 3.0])),
            lon0=draw(st.integers(-18000, 35000))/100.0,
            lat0=draw(st.integers(-6000, 9000))/100.0,
            nlat=draw(st.integers(2, 9)), nlon=draw(st.integers(2, 9)))
    d = draw(st.sampled_from([[30.0, 30.0], [20.0, 30.0], [45.0, 22.5], [60.0, 18.0],
        [90.0, 90.0], [24.0, 36.0]]))
    return dict(kind=kind, dlon=d[0], dlat=d[1], lon0=0.0, lat0=90.0, nlat=0, nlon=0)


def geometry(g):
    """latitudes (descending) and longitudes (ascending)"""
    dlon, dlat = g['dlon'], g['dlat']
    nx, ny = int(round(360/dlon)), int(round(180/dlat))
    if g['kind'] == 'pixel':
        return 90 - dlat/2 - dlat*np.arange(ny), dlon/2 + dlon*np.arange(nx)
    if g['kind'] == 'node':
        return 90 - dlat*np.arange(ny + 1), dlon*np.arange(nx + 1)
    if g['kind'] == 'centered':
        return 90 - dlat/2 - dlat*np.arange(ny), -180 + dlon/2 + dlon*np.arange(nx)
    return (np.round(g['lat0'] - dlat*np.arange(g['nlat']), 4),
        np.round(g['lon0'] + dlon*np.arange(g['nlon']), 4))


def build(case, n=None, error=False, fill='num', dates=True):
    lat, lon = geometry(case['geom'])
    s = sx.make(case['seed'], len(lat), len(lon), n, fill=fill, pmask=case['pmask'],
        error=error, dates=dates)
    s.lat, s.lon = lat, lon
    k = case['scale']
    ok = ~s.mask
    s.data[ok] *= k
    if error:
        s.error[ok] *= k
    return s


def keywords(case, lat, lon):
    """arguments that describe the grid of an ascii file"""
    g = case['geom']
    ext = [lon[0], lon[-1], lat[-1], lat[0]]
    how = case['grid']
    if how == 'shape' and g['kind'] not in ('regional', 'centered'):
        return dict(nlat=len(lat), nlon=len(lon), spacing=[g['dlon'], g['dlat']])
    if how == 'extent+shape':
        return dict(nlat=len(lat), nlon=len(lon), extent=ext)
    return dict(extent=ext, spacing=[g['dlon'], g['dlat']])


def squeezed(s):
    t = sx.Model(s)
    if t.data.ndim == 3 and t.data.shape[-1] == 1:
        t.data, t.mask = t.data[:, :, 0], t.mask[:, :, 0]
        if t.error is not None:
            t.error = t.error[:, :, 0]
        t.time, t.month = np.squeeze(t.time), np.squeeze(t.month)
    return t


def dated(date, case):
    """dates are read and written by default"""
    return {} if date and case['seed'] % 2 else dict(date=date)


def compare(g, m, fmt, what, date=True, error=False):
    """object g read from a file of format fmt against the model m of the source"""
    asc = fmt == 'ascii'
    ac = 5.1e-5 if asc else 0.0
    same(np.shape(g.data), m.data.shape, f'{what}: shape')
    close(np.asarray(g.lon, dtype=float), m.lon, f'{what}: longitudes', rtol=0, atol=ac)
    close(np.asarray(g.lat, dtype=float), m.lat, f'{what}: latitudes', rtol=0, atol=ac)
    if m.fill is not None or asc:
        same(np.asarray(g.mask, dtype=bool), m.mask, f'{what}: mask')
    else:
        require(not np.any(g.mask), f'{what}: cells were masked')
    ok = ~m.mask if (m.fill is not None or asc) else np.ones_like(m.mask)
    close(np.asarray(g.data)[ok], m.data[ok], f'{what}: valid cells', rtol=1e-15 if asc
        else 0, atol=5.1e-5 if asc else 0.0)
    if m.fill is not None:
        same(np.asarray(g.data, dtype=float)[~ok], np.full(int((~ok).sum()), m.fill),
            f'{what}: missing cells')
        require(g.fill_value == m.fill or (m.fill != m.fill and
            g.fill_value != g.fill_value), f'{what}: fill value {g.fill_value}')
    if error:
        close(np.asarray(g.error)[ok], m.error[ok], f'{what}: errors', rtol=0)
    if date:
        close(np.asarray(g.time, dtype=float), np.asarray(m.time, dtype=float),
            f'{what}: time', rtol=0, atol=2e-4 if asc else 0.0)
        same(np.asarray(g.month).astype(int), np.asarray(m.month).astype(int),
            f'{what}: month')


def fillable(mask):
    """every row and column has a valid cell"""
    return bool(np.all((~mask).any(axis=0)) and np.all((~mask).any(axis=1)))


# ------------------------------------------------------------ round trips
@st.composite
def s_trip(draw):
    fmt = draw(st.sampled_from(FMT))
    date = draw(st.booleans())
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), fmt=fmt, date=date,
        n=draw(hx.nts) if (fmt != 'ascii' and date) else None,
        error=draw(st.booleans()), fill=draw(sx.fills),
        pmask=draw(st.sampled_from([0.0, 0.2, 0.2, 0.7])),
        scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e4])),
        comp=draw(st.sampled_from([None, None, 'gzip', 'zip', 'bytes'])),
        how=draw(st.sampled_from(['direct', 'file'])),
        grid=draw(st.sampled_from(['shape', 'extent+shape', 'extent+spacing'])),
        header=draw(st.integers(0, 2)), title=draw(st.booleans()),
        names=draw(st.booleans()), case=draw(st.booleans()),
        name=draw(st.sampled_from(['grid', 'a.b_1', 'GSM-2_x'])),
        other=draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])))


def naming(case):
    if case['fmt'] == 'ascii' or not case['names']:
        return {}
    return dict(varname='lwe', lonname='longitude', latname='latitude', timename='t')


def b_trip(case, ctx):
    fmt, date, n = case['fmt'], case['date'], case['n']
    asc = fmt == 'ascii'
    error = case['error'] and asc
    s = build(case, n, error=error, fill=case['fill'])
    lat, lon = s.lat.copy(), s.lon.copy()
    m = squeezed(s)
    path = ctx.tmp/(case['name'] + SUF[fmt])
    kw = naming(case)
    att = dict(title='a title', source='src', reference='ref', units='cmwe',
        longname='water') if (case['title'] and not asc) else {}
    if case['how'] == 'file':
        s.to_file(path, format=fmt, **dated(date, case), **kw, **att)
    else:
        getattr(s, reader(fmt).replace('from', 'to'))(path, **dated(date, case), **kw, **att)
    require(str(s.filename) == str(path), 'file name of the written object')
    m2 = squeezed(s)
    for k in ('data', 'mask', 'lon', 'lat'):
        same(getattr(m2, k), getattr(m, k), f'writing changed {k}')
    what = f"{fmt} {'dated' if date else 'undated'} {case['comp']} {case['geom']['kind']}"
    rk = dict(kw)
    out = gravtk.spatial(fill_value=m.fill)
    if asc:
        rk.update(keywords(case, lat, lon))
        if 'extent' not in rk and not fillable(m.mask):
            rk = keywords(dict(case, grid='extent+shape'), lat, lon)
        cols = ['lon', 'lat', 'data'] + ['error']*error + ['time']*date
        rk['columns'] = cols
        if case['header']:
            text = ''.join(f'header {k} 1.0\n' for k in range(case['header']))
            path.write_text(text + path.read_text())
            rk['header'] = case['header']
        what += ' ' + '+'.join(k for k in rk if k in ('extent', 'nlat', 'spacing'))
        if date and m.mask.all():
            return
    arg, watch = compressed(path, case['comp'], case.get('other', 0))
    sha = digest(watch)
    if case['case'] and case['comp'] in (None, 'gzip'):
        arg = watch.with_name(watch.name.upper())
    if case['how'] == 'file' and not (asc and m.fill is not None):
        # the fill value of ascii files is that of the reading object
        g = out.from_file(arg, format=fmt, **dated(date, case), compression=case['comp'], **rk)
    else:
        g = getattr(out, reader(fmt))(arg, **dated(date, case), compression=case['comp'], **rk)
    compare(g, m, fmt, what, date=date)
    require(digest(watch) == sha, f'{what}: reading changed the file')
    if case['comp'] != 'bytes':
        require(str(g.filename) == str(watch), f'{what}: file name {g.filename}')
    if not asc:
        if case['title']:
            for k, v in (('title', 'a title'), ('source', 'src'), ('reference', 'ref')):
                same(str(g.attributes['ROOT'].get(k)), v, f'{what}: attribute {k}')
            same(str(g.attributes['data']['units']), 'cmwe', f'{what}: units')
            same(str(g.attributes['data']['long_name']), 'water', f'{what}: long name')
        same(str(g.attributes['lon']['units']), 'degrees_east', f'{what}: lon units')
        # a second generation is identical
        p2 = ctx.tmp/('second' + SUF[fmt])
        k1 = sx.Model(g)
        g.to_file(p2, format=fmt, **dated(date, case), **kw)
        g2 = gravtk.spatial().from_file(p2, format=fmt, **dated(date, case), **kw)
        same(g2.data, k1.data, f'{what}: second generation')
        same(g2.mask, k1.mask, f'{what}: mask of the second generation')
        if case['title']:
            same(str(g2.attributes['ROOT'].get('source')), 'src',
                f'{what}: attributes of the second generation')
    ctx.nontrivial(bool(m.mask.any()) or case['pmask'] == 0)
    ctx.label(fmt, case['geom']['kind'], case['comp'])


# ------------------------------------------------------- contents of files
def b_content(case, ctx):
    fmt, date, n = case['fmt'], case['date'], case['n']
    asc = fmt == 'ascii'
    s = build(case, n, error=case['error'] and asc, fill=case['fill'])
    m = squeezed(s)
    M3 = sx.Model(s)
    path = ctx.tmp/('x' + SUF[fmt])
    kw = naming(case)
    s.to_file(path, format=fmt, **dated(date, case), **kw)
    if asc:
        got = [[float(x) for x in line.split()] for line in
            path.read_text().splitlines()]
        want = []
        for i, j in zip(*np.nonzero(~m.mask)):
            row = [m.lon[j], m.lat[i], m.data[i, j]]
            if case['error']:
                row.append(m.error[i, j])
            if date:
                row.append(float(m.time))
            want.append(row)
        same(len(got), len(want), 'number of lines')
        if want:
            key = lambda r: (-round(r[1], 4), round(r[0], 4))
            close(np.array(sorted(got, key=key)), np.array(sorted(want, key=key)),
                'lines of the file', rtol=1e-15, atol=5.1e-5)
    else:
        nm = dict(varname='z', lonname='lon', latname='lat', timename='time')
        nm.update(kw)
        if fmt == 'netCDF4':
            with netCDF4.Dataset(path) as f:
                f.set_auto_mask(False)
                d = {k: f[k][:] for k in f.variables}
                dims = f[nm['varname']].dimensions
                same(dims, tuple(nm[k] for k in ('latname', 'lonname', 'timename')
                    [:2 + date]), 'dimensions')
        else:
            with h5py.File(path, 'r') as f:
                d = {k: f[k][()] for k in f.keys()}
                same(tuple(x.label for x in f[nm['varname']].dims),
                    tuple(nm[k] for k in ('latname', 'lonname', 'timename')[:2 + date]),
                    'dimensions')
        same(sorted(d), sorted(nm[k] for k in nm if date or k != 'timename'), 'variables')
        same(d[nm['lonname']], m.lon, 'written longitudes')
        same(d[nm['latname']], m.lat, 'written latitudes')
        data = d[nm['varname']]
        want = M3.data
        if date and want.ndim == 2:
            want = want[:, :, None]
        same(data.shape, want.shape, 'written shape')
        same(data, want, 'written data')
        if date:
            same(d[nm['timename']], np.atleast_1d(M3.time), 'written times')
    ctx.nontrivial(not m.mask.all())
    ctx.label(fmt)


# ------------------------------------------------ independently written files
@st.composite
def s_foreign(draw):
    fmt = draw(st.sampled_from(FMT))
    date = draw(st.booleans())
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), fmt=fmt, date=date,
        n=draw(hx.nts) if (fmt != 'ascii' and date) else None, pmask=0.2,
        scale=draw(st.sampled_from([1.0, 1e3])), fill=draw(sx.fills),
        comp=draw(st.sampled_from([None, 'gzip', 'zip', 'bytes'])),
        exp=draw(st.sampled_from(['e', 'D', 'f'])), shuffle=draw(st.booleans()),
        grid=draw(st.sampled_from(['shape', 'extent+shape', 'extent+spacing'])),
        swap=draw(st.booleans()), cols=draw(st.permutations(range(4))),
        mapping=draw(st.booleans()), err=draw(st.booleans()))


def b_foreign(case, ctx):
    fmt, date, n = case['fmt'], case['date'], case['n']
    asc = fmt == 'ascii'
    err = case['err'] and not asc
    s = build(case, n, error=err, fill=case['fill'])
    m = squeezed(s)
    path = ctx.tmp/('y' + SUF[fmt])
    r = gen.rng(case['seed'], 8)
    out = gravtk.spatial(fill_value=m.fill)
    rk = {}
    what = f"foreign {fmt} {case['comp']} {case['geom']['kind']}"
    if asc:
        if m.mask.all() or not fillable(m.mask):
            return
        rk = keywords(case, m.lat, m.lon)
        names = ['lon', 'lat', 'data', 'time'][:3 + date]
        order = [i for i in case['cols'] if i < len(names)]
        rk['columns'] = [names[i] for i in order]

        def num(v):
            if case['exp'] == 'f':
                return f'{v:.6f}'
            return f'{v:.10e}'.replace('e', case['exp'])
        cells = list(zip(*np.nonzero(~m.mask)))
        if case['shuffle']:
            r.shuffle(cells)
        lines = []
        for i, j in cells:
            row = [f'{m.lon[j]:.4f}', f'{m.lat[i]:.4f}', num(m.data[i, j])]
            if date:
                row.append(f'{float(m.time):.4f}')
            lines.append(' '.join(row[k] for k in order))
        path.write_text('\n'.join(lines))
    else:
        data, error = m.data, m.error
        swap = case['swap'] and data.ndim == 2 and len(m.lat) != len(m.lon)
        if swap:
            data = data.T
        nx, ny, nv = 'X', 'Y', 'lwe'
        dims = (nx, ny) if swap else (ny, nx)
        if data.ndim == 3:
            dims += ('t',)
        if err and swap:
            return
        if fmt == 'netCDF4':
            with netCDF4.Dataset(path, 'w') as f:
                f.createDimension(nx, len(m.lon))
                f.createDimension(ny, len(m.lat))
                f.createVariable(nx, 'f8', (nx,))[:] = m.lon
                f.createVariable(ny, 'f8', (ny,))[:] = m.lat
                v = f.createVariable(nv, 'f8', dims[:2], fill_value=m.fill) \
                    if data.ndim == 2 else None
                if date:
                    t = np.atleast_1d(m.time)
                    f.createDimension('t', len(t))
                    f.createVariable('t', 'f8', ('t',))[:] = t
                    if v is None:
                        v = f.createVariable(nv, 'f8', dims, fill_value=m.fill)
                v[:] = data
                v.units = 'mm'
                if err:
                    f.createVariable('sd', 'f8', dims, fill_value=m.fill)[:] = error
                f.history = 'foreign'
        else:
            with h5py.File(path, 'w') as f:
                f[nx], f[ny], f[nv] = m.lon, m.lat, data
                if m.fill is not None:
                    f[nv].attrs['_FillValue'] = m.fill
                f[nv].attrs['units'] = 'mm'
                if date:
                    f['t'] = np.atleast_1d(m.time)
                if err:
                    f['sd'] = error
                f.attrs['history'] = 'foreign'
        if case['mapping'] or err:
            fm = dict(lon=nx, lat=ny, data=nv)
            if date:
                fm['time'] = 't'
            if err:
                fm['error'] = 'sd'
            rk = dict(field_mapping=fm)
        else:
            rk = dict(lonname=nx, latname=ny, varname=nv, timename='t')
    arg, _ = compressed(path, case['comp'])
    g = getattr(out, reader(fmt))(arg, **dated(date, case), compression=case['comp'], **rk)
    compare(g, m, fmt, what, date=date, error=err)
    if not asc:
        same(str(g.attributes['ROOT']['history']), 'foreign', f'{what}: attributes')
        same(str(g.attributes['data']['units']), 'mm', f'{what}: units')
    ctx.nontrivial(bool(m.mask.any()))
    ctx.label(fmt, case['geom']['kind'])


# ----------------------------------------------------------- index of files
@st.composite
def s_index(draw):
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), n=draw(st.integers(1, 5)),
        fmt=draw(st.sampled_from(FMT)), date=draw(st.booleans()), fill='num',
        pmask=draw(st.sampled_from([0.0, 0.2])), scale=1.0,
        sort=draw(st.booleans()), order=draw(gen.seeds), comment=draw(st.booleans()),
        grid='extent+shape')


def b_index(case, ctx):
    fmt, date, n = case['fmt'], case['date'], case['n']
    asc = fmt == 'ascii'
    s = build(case, n)
    perm = gen.rng(case['order']).permutation(n)
    s.data, s.mask = s.data[:, :, perm], s.mask[:, :, perm]
    s.time, s.month = s.time[perm], s.month[perm]
    if asc and (date and s.mask.all(axis=(0, 1)).any()):
        return
    files = [ctx.tmp/f'g{i:02d}{SUF[fmt]}' for i in range(n)]
    index = ctx.tmp/'index.txt'
    snap = sx.snapshot(s)
    s.to_index(index, files, format=fmt, **dated(date, case))
    sx.unchanged(s, snap, 'writing an index')
    names = index.read_text().splitlines()
    same([pathlib.Path(k).expanduser().name for k in names], [f.name for f in files],
        'names in the index')
    if case['comment']:
        names = ['# comment', ''] + names[:1] + ['%' + str(files[0])] + names[1:] + ['']
        index.write_text('\n'.join(names) + '\n')
    rk = keywords(case, s.lat, s.lon) if asc else {}
    g = gravtk.spatial().from_index(index, format=fmt, **dated(date, case), sort=case['sort'], **rk)
    order = np.argsort(s.time) if (date and case['sort']) else np.arange(n)
    m = sx.Model(s)
    m.data, m.mask = s.data[:, :, order], s.mask[:, :, order]
    m.time, m.month = s.time[order], s.month[order]
    if asc:
        m.fill = None
    compare(g, m, fmt, f'{fmt} index', date=date)
    same([pathlib.Path(f).name for f in g.filename], [files[i].name for i in order],
        f'{fmt} index: file of each date')
    for i in range(n):
        k = g.index(i, **dated(date, case))
        ok = ~m.mask[:, :, i]
        close(k.data[ok], m.data[:, :, i][ok], f'{fmt} index item',
            rtol=0, atol=5.1e-5 if asc else 0)
        same(pathlib.Path(k.filename).name, files[order[i]].name, 'file of an item')
    for i, f in enumerate(files):
        one = gravtk.spatial(fill_value=s.fill_value)
        one = getattr(one, reader(fmt))(f, **dated(date, case), **rk)
        w = sx.Model(s.index(i))
        compare(one, w, fmt, f'{fmt} file of an index', date=date)
    ctx.nontrivial(n > 1)
    ctx.label(fmt)


# --------------------------------------------------------- chain of formats
@st.composite
def s_cross(draw):
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), n=draw(hx.nts), scale=1.0,
        pmask=draw(st.sampled_from([0.0, 0.2])), fmts=draw(st.permutations(FMT)),
        date=draw(st.booleans()), grid='extent+shape')


def b_cross(case, ctx):
    n, date = case['n'] if case['date'] else None, case['date']
    s = build(case, n)
    ok = ~s.mask
    s.data[ok] = np.round(s.data[ok], 4)
    s.time = np.round(s.time, 4)
    m = squeezed(s)
    if m.mask.all():
        return
    g = s
    for k, fmt in enumerate(case['fmts']):
        rk = {}
        if fmt == 'ascii':
            if m.data.ndim == 3:
                continue
            g.squeeze()
            rk = keywords(case, m.lat, m.lon)
        p = ctx.tmp/f'c{k}{SUF[fmt]}'
        g.to_file(p, format=fmt, **dated(date, case))
        g = getattr(gravtk.spatial(fill_value=s.fill_value), reader(fmt))(p,
            **dated(date, case), **rk)
    compare(g, m, 'ascii', f"chain {case['fmts']}", date=date)
    ctx.nontrivial(True)


# ---------------------------------------------------------- scaling factors
@st.composite
def s_factor(draw):
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), fmt=draw(st.sampled_from(FMT)),
        pmask=draw(st.sampled_from([0.0, 0.2])), scale=1.0,
        comp=draw(st.sampled_from([None, 'gzip', 'zip', 'bytes'])),
        grid=draw(st.sampled_from(['shape', 'extent+shape', 'extent+spacing'])))


def b_factor(case, ctx):
    fmt = case['fmt']
    lat, lon = geometry(case['geom'])
    r = gen.rng(case['seed'], 9)
    f = gravtk.scaling_factors(fill_value=-9999.0)
    f.lat, f.lon = lat, lon
    shape = (len(lat), len(lon))
    f.mask = r.random(shape) < case['pmask']
    f.data = r.random(shape)*3
    f.error = r.random(shape)
    f.magnitude = r.random(shape)*20
    # factors, errors and magnitudes that are zero are valid
    for k in ('data', 'error', 'magnitude'):
        getattr(f, k)[r.random(shape) < 0.15] = 0.0
    f.update_mask()
    m = sx.Model(f)
    mag = np.array(f.magnitude)
    if m.mask.all():
        return
    path = ctx.tmp/('k' + SUF[fmt])
    g = gravtk.scaling_factors(fill_value=-9999.0)
    what = f'scaling factors {fmt}'
    if fmt == 'ascii':
        f.to_ascii(path)
        rk = keywords(case, lat, lon)
        if 'extent' not in rk and not fillable(m.mask):
            rk = keywords(dict(case, grid='extent+shape'), lat, lon)
        rk['columns'] = ['lon', 'lat', 'kfactor', 'error', 'magnitude']
    else:
        rk = dict(date=False, field_mapping=dict(lon='lon', lat='lat', data='kfactor',
            error='error', magnitude='power'))
        att = dict(ROOT=dict(title='k'))
        for k in ('lon', 'lat', 'kfactor', 'error', 'power'):
            att[k] = dict(units=f'u-{k}', long_name=f'n {k}')
        f.to_file(path, format=fmt, attributes=att, date=False,
            field_mapping=dict(rk['field_mapping']))
    arg, _ = compressed(path, case['comp'])
    g = getattr(g, reader(fmt))(arg, compression=case['comp'], **rk)
    compare(g, m, fmt, what, date=False)
    tol = 5.1e-5 if fmt == 'ascii' else 0.0
    ok = ~m.mask
    close(g.error[ok], m.error[ok], f'{what}: errors', rtol=0, atol=tol)
    close(g.magnitude[ok], mag[ok], f'{what}: magnitudes', rtol=0, atol=tol)
    if fmt != 'ascii':
        same(str(g.attributes['data']['units']), 'u-kfactor', f'{what}: units')
        same(str(g.attributes['magnitude']['long_name']), 'n power', f'{what}: name')
    ctx.nontrivial(bool(m.mask.any()))
    ctx.label(fmt)


# -------------------------------------------------------------- attributes
@st.composite
def s_meta(draw):
    return dict(seed=draw(gen.seeds), fmt=draw(st.sampled_from([f for f in FMT
        if f != 'ascii'])), date=draw(st.booleans()), n=draw(st.sampled_from([None, 1, 3])),
        names=draw(st.sampled_from(['default', 'names', 'mapping', 'error'])),
        own=draw(st.booleans()), fill=draw(sx.fills), root=draw(st.booleans()),
        opts=draw(st.sets(st.sampled_from(['units', 'longname', 'time_units',
        'time_longname', 'title', 'source', 'reference'])).map(sorted)),
        how=draw(st.sampled_from(['direct', 'file'])))


def b_meta(case, ctx):
    """attributes of variables and files"""
    fmt, date = case['fmt'], case['date']
    err = case['names'] == 'error'
    g = sx.make(case['seed'], 3, 4, case['n'] if date else None, case['fill'], 0.2, err)
    g.attributes['ROOT'] = dict(history='made here') if case['root'] else {}
    path = ctx.tmp/('m' + SUF[fmt])
    v = dict(units=None, longname=None, time_units='years',
        time_longname='Date_in_Decimal_Years', title=None, source=None, reference=None)
    kw = {}
    for k in case['opts']:
        kw[k] = v[k] = f'{k} {case["seed"] % 97}'
    fields = ['lon', 'lat', 'data'] + ['error']*err + ['time']*date
    name = dict(lon='lon', lat='lat', data='z', time='time')
    if case['names'] == 'names':
        name = dict(lon='x', lat='y', data='lwe', time='t')
        kw.update(lonname='x', latname='y', varname='lwe', timename='t')
    elif case['names'] in ('mapping', 'error'):
        name = {k: f'{k}_of_file' for k in fields}
        kw['field_mapping'] = dict(name)
    name = {k: name[k] for k in fields}
    want = dict(lon=dict(long_name='longitude', units='degrees_east'),
        lat=dict(long_name='latitude', units='degrees_north'),
        data=dict(long_name=v['longname'], units=v['units']),
        time=dict(long_name=v['time_longname'], units=v['time_units']))
    top = dict(history='made here') if case['root'] else {}
    if case['own'] or err:
        want = {k: dict(units=f'u {k}', long_name=f'n {k}', description=f'd {k}')
            for k in fields}
        kw['attributes'] = {name[k]: dict(want[k]) for k in fields}
        top = dict(institution='here')
        kw['attributes']['ROOT'] = dict(top)
    top.update({k: v[k] for k in ('title', 'source', 'reference') if v[k]})
    fill = g.fill_value
    day = meta.today()
    if case['how'] == 'file':
        g.to_file(path, format=fmt, date=date, **kw)
    else:
        getattr(g, reader(fmt).replace('from', 'to'))(path, date=date, **kw)
    got, root = meta.attributes(path, fmt)
    what = f"{fmt} {case['names']}"
    same(sorted(got), sorted(name.values()), f'{what}: variables')
    meta.compare(got, {name[k]: want[k] for k in fields}, what)
    same({k for k in fields if '_FillValue' in got[name[k]]},
        {'data', 'error'} & set(fields) if fill is not None else set(),
        f'{what}: variables with a fill value')
    meta.software(root, day, what)
    same({k: x for k, x in root.items() if k not in ('software_reference',
        'software_version', 'date_created')}, top, f'{what}: attributes of the file')
    back = gravtk.spatial().from_file(path, format=fmt, date=date,
        field_mapping=dict(name))
    for k in fields:
        same({a: str(x) for a, x in back.attributes[k].items() if a in ('units',
            'long_name', 'description')}, {a: x for a, x in want[k].items() if x},
            f'{what}: attributes read for {k}')
    ctx.nontrivial(bool(case['opts']) or case['own'])
    ctx.label(fmt, case['names'], 'own' if case['own'] else 'default')


# ------------------------------------------------------------------ others
@st.composite
def s_missing(draw):
    return dict(fmt=draw(st.sampled_from(FMT)), seed=draw(gen.seeds))


def b_missing(case, ctx):
    fmt = case['fmt']
    other = ctx.tmp/('other' + SUF[fmt])
    sx.make(case['seed'], 3, 4).to_file(other, format=fmt)
    bad = ctx.tmp/('absent' + SUF[fmt])
    kw = dict(nlat=3, nlon=4, spacing=[90., 60.]) if fmt == 'ascii' else {}
    require(raises(lambda: getattr(gravtk.spatial(), reader(fmt))(bad, **kw),
        FileNotFoundError), f'{fmt}: a file that is not there is not an error')
    require(not bad.exists(), 'a missing file was created')
    if fmt == 'ascii':
        require(raises(lambda: gravtk.spatial().from_ascii(other), ValueError),
            'unknown dimensions are not an error')
    if fmt == 'HDF5':
        sha = digest(other)
        require(raises(lambda: sx.make(case['seed'] + 1, 3, 4).to_file(other,
            format=fmt, clobber=False)), f'{fmt}: file overwritten')
        require(digest(other) == sha, f'{fmt}: file overwritten')
    ctx.nontrivial()


@st.composite
def s_dict(draw):
    return dict(seed=draw(gen.seeds), geom=draw(s_geom()), n=draw(st.one_of(st.none(),
        hx.nts)), pmask=0.2, scale=1.0, error=draw(st.booleans()), fill=draw(sx.fills))


def b_dict(case, ctx):
    """dictionaries and masked arrays hold the same grid"""
    s = build(case, case['n'], error=case['error'], fill=case['fill'])
    m = sx.Model(s)
    d = dict(lon=s.lon, lat=s.lat, data=s.data, time=s.time, month=s.month,
        attributes=dict(title='x'))
    if case['error']:
        d['error'] = s.error
    g = gravtk.spatial(fill_value=s.fill_value).from_dict(d)
    if m.fill is None:
        m.mask[...] = False
    sx.check(g, m, 'from_dict')
    same(g.attributes['ROOT'], dict(title='x'), 'attributes from a dictionary')
    g.data += 1.0
    g.lon += 1.0
    same(s.lon, m.lon, 'the dictionary is shared with the object')
    a = s.to_masked_array()
    same(np.ma.getmaskarray(a), np.asarray(s.mask), 'mask of the masked array')
    same(np.ma.getdata(a), np.asarray(s.data), 'data of the masked array')
    ctx.nontrivial()


# ------------------------------------------------------------ special months
@st.composite
def s_special(draw):
    return dict(seed=draw(gen.seeds), back=draw(st.booleans()), scale=1.0,
        via=draw(st.sampled_from(['list', 'index', 'netCDF4', 'HDF5'])))


def b_special(case, ctx):
    """two solutions centered in one calendar month keep their own months"""
    via, seed = case['via'], case['seed']
    month, raw, time = hx.special_months(seed)
    n = len(month)
    s = sx.make(seed, 3, 4, n, pmask=0.0)
    s.month, s.time = raw.copy(), time.copy()
    order = np.arange(n)[::-1] if case['back'] else np.arange(n)
    if via == 'list':
        g = gravtk.spatial().from_list([s.index(int(i)) for i in order])
    elif via == 'index':
        files = [ctx.tmp/f'f{i}.nc' for i in order]
        for i, f in zip(order, files):
            s.index(int(i)).to_netCDF4(f)
        index = ctx.tmp/'index.txt'
        index.write_text(''.join(f'{f}\n' for f in files))
        g = gravtk.spatial().from_index(index, format='netCDF4')
    else:
        path = ctx.tmp/'x'
        s.to_file(path, format=via)
        g = gravtk.spatial().from_file(path, format=via)
    same(np.asarray(g.month).astype(int), month, f'{via}: months of {raw.tolist()}')
    close(np.asarray(g.time, dtype=float), time, f'{via}: dates', rtol=0, atol=1e-9)
    close(np.asarray(g.data), s.data, f'{via}: cells', rtol=0)
    ctx.nontrivial()
    ctx.label(via)


CHECKS = [
    Check('attributes', s_meta, b_meta, quick=150, thorough=2000,
        rule='some attribute is not the default'),
    Check('round_trip', s_trip, b_trip, quick=600, thorough=8000,
        rule='the grid has missing cells or none were asked for'),
    Check('file_content', s_trip, b_content, quick=300, thorough=4000,
        rule='some cell is valid'),
    Check('foreign_files', s_foreign, b_foreign, quick=450, thorough=6000,
        rule='the grid has missing cells'),
    Check('index_files', s_index, b_index, quick=200, thorough=2400,
        rule='more than one file'),
    Check('format_chain', s_cross, b_cross, quick=200, thorough=2400,
        rule='some cell is valid'),
    Check('scaling_factors', s_factor, b_factor, quick=250, thorough=3000,
        rule='the grid has missing cells'),
    Check('dictionaries', s_dict, b_dict, quick=150, thorough=2000,
        rule='every case'),
    Check('special_months', s_special, b_special, quick=120, thorough=1500,
        rule='every case'),
    Check('missing_files', s_missing, b_missing, quick=10, thorough=50,
        rule='every case'),
]

"""Harmonic files: round trips, cross-format agreement and independent files"""
import gzip
import hashlib
import io
import pathlib
import zipfile
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx, meta
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['ascii files hold static fields with 12 decimals of the mantissa '
    'and 4 decimals of the date', 'files without dates hold static fields',
    'time series files hold unique months (duplicates are adjusted, see T02)']

FMT = ['ascii', 'netCDF4', 'HDF5']
SUF = dict(ascii='.txt', netCDF4='.nc', HDF5='.H5')


def rtol(fmt):
    return 6e-13 if fmt == 'ascii' else 0.0


def dated(date, case):
    """dates are read and written by default"""
    return {} if date and case['seed'] % 2 else dict(date=date)


def compare(g, h, fmt, what, date=True):
    """object g read from a file of format fmt against the source object h"""
    tri = gen.tri_mask(int(h.lmax), int(h.mmax))
    if h.clm.ndim == 3:
        tri = tri[:, :, None]
    same(int(g.lmax), int(h.lmax), f'{what}: lmax')
    same(int(g.mmax), int(h.mmax), f'{what}: mmax')
    same(g.l, np.arange(h.lmax + 1), f'{what}: degrees')
    same(g.m, np.arange(h.mmax + 1), f'{what}: orders')
    for k in ('clm', 'slm'):
        want = np.where(tri, getattr(h, k), 0.0)
        close(getattr(g, k), want, f'{what}: {k}', rtol=rtol(fmt),
            atol=1e-300 if fmt == 'ascii' else 0.0)
    if date:
        t = np.asarray(h.time, dtype=float)
        close(np.asarray(g.time, dtype=float), t, f'{what}: time', rtol=0,
            atol=5.1e-5 if fmt == 'ascii' else 0.0)
        same(np.asarray(g.month).astype(int), np.asarray(h.month).astype(int),
            f'{what}: month')


def shape1(h):
    """object as it comes back: singleton time dimensions are squeezed"""
    t = h.copy()
    if t.clm.ndim == 3 and t.clm.shape[-1] == 1:
        t.clm, t.slm = t.clm[:, :, 0], t.slm[:, :, 0]
        t.time, t.month = np.squeeze(t.time), np.squeeze(t.month)
    return t


# suffixes of the members of zip archives
SUFFIXES = {'.nc': ['.nc', '.nc4'], '.H5': ['.H5', '.h5', '.hdf5', '.HDF5']}


def digest(p):
    return hashlib.sha256(pathlib.Path(p).read_bytes()).hexdigest()


def compressed(path, comp, other=0):
    """compressed version of a file: (argument of the reader, file to watch)

    other: 1 archives hold further files, 2 and the name of the member differs
    (binary formats)"""
    data = path.read_bytes()
    if comp == 'gzip':
        p = path.with_name(path.name + '.gz')
        with gzip.open(p, 'wb') as f:
            f.write(data)
        return p, p
    if comp == 'zip':
        p = path.with_name(path.name + '.zip')
        name = path.name
        if other > 1 and path.suffix in SUFFIXES:
            name = 'data' + SUFFIXES[path.suffix][other % len(SUFFIXES[path.suffix])]
        with zipfile.ZipFile(p, 'w') as z:
            if other:
                z.writestr('LICENSE.md', 'do not read')
            z.writestr(name, data)
            if other:
                z.writestr('zzz/readme.rst', 'do not read')
        return p, p
    if comp == 'bytes':
        return io.BytesIO(data), path
    return path, path


def reader(fmt):
    return {'ascii': 'from_ascii', 'netCDF4': 'from_netCDF4', 'HDF5': 'from_HDF5'}[fmt]


@st.composite
def s_trip(draw):
    fmt = draw(st.sampled_from(FMT))
    date = draw(st.booleans())
    n = draw(hx.nts) if (fmt != 'ascii' and date) else None
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 10)), n=n, fmt=fmt,
        date=date, comp=draw(st.sampled_from([None, None, 'gzip', 'zip', 'bytes'])),
        how=draw(st.sampled_from(['direct', 'file'])),
        kind=draw(st.sampled_from(['dense', 'sparse', 'kaula', 'one'])),
        scale=draw(st.sampled_from([1.0, 1e-9, 1e-15, 1e4])),
        case=draw(st.booleans()), title=draw(st.booleans()),
        name=draw(st.sampled_from(['field', 'a.b_1', 'GSM-2_x'])),
        other=draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])))


def write(h, path, case):
    fmt, date = case['fmt'], case['date']
    kw = {}
    if fmt != 'ascii' and case['title']:
        kw = dict(title='a title', source='src', reference='ref', units='cmwe')
    if case['how'] == 'file':
        h.to_file(path, format=fmt, **dated(date, case), **kw)
    else:
        getattr(h, reader(fmt).replace('from', 'to'))(path, **dated(date, case), **kw)


def b_trip(case, ctx):
    lmax, mmax = case['lm']
    fmt, date = case['fmt'], case['date']
    h = hx.make(case['seed'], lmax, mmax, case['n'], kind=case['kind'],
        scale=case['scale'])
    if not date and case['seed'] % 2 and fmt != 'ascii':
        h.time, h.month = None, None
    before = hx.snapshot(h)
    path = ctx.tmp/(case['name'] + SUF[fmt])
    write(h, path, case)
    hx.unchanged(h, before, 'writing')
    require(str(h.filename) == str(path), 'file name of the written object')
    what = f"{fmt} {'dated' if date else 'undated'} {case['comp']}"
    arg, watch = compressed(path, case['comp'], case.get('other', 0))
    sha = digest(watch)
    if case['case'] and case['comp'] in (None, 'gzip'):
        arg = watch.with_name(watch.name.upper())
    kw = dict(compression=case['comp'])
    if case['how'] == 'file':
        g = gravtk.harmonics().from_file(arg, format=fmt, **dated(date, case), **kw)
    else:
        g = getattr(gravtk.harmonics(), reader(fmt))(arg, **dated(date, case), **kw)
    compare(g, shape1(h), fmt, what, date=date)
    require(digest(watch) == sha, f'{what}: reading changed the file')
    if case['comp'] != 'bytes':
        require(str(g.filename) == str(watch), f'{what}: file name {g.filename}')
    if fmt != 'ascii':
        root = g.attributes['ROOT']
        if case['title']:
            for k, v in (('title', 'a title'), ('source', 'src'),
                    ('reference', 'ref')):
                same(str(root.get(k)), v, f'{what}: global attribute {k}')
            same(str(g.attributes['clm'][0]), 'cmwe', f'{what}: units')
    # a second generation is identical to the first
    p2 = ctx.tmp/('second' + SUF[fmt])
    if date or fmt != 'ascii':
        case2 = dict(case, title=False)
        write(g, p2, case2)
        g2 = getattr(gravtk.harmonics(), reader(fmt))(p2, **dated(date, case))
        same(g2.clm, g.clm, f'{what}: second generation clm')
        same(g2.slm, g.slm, f'{what}: second generation slm')
        if date:
            same(np.asarray(g2.month), np.asarray(g.month), f'{what}: second month')
            same(np.asarray(g2.time), np.asarray(g.time), f'{what}: second time')
    ctx.nontrivial(lmax >= 1)
    ctx.label(fmt, case['comp'], 'dated' if date else 'undated',
        'series' if case['n'] else 'static')


# ---------------------------------------------------- contents of the files
def b_content(case, ctx):
    """files hold each coefficient once at its own degree and order"""
    lmax, mmax = case['lm']
    fmt, date, n = case['fmt'], case['date'], case['n']
    h = hx.make(case['seed'], lmax, mmax, n, scale=case['scale'])
    path = ctx.tmp/('x' + SUF[fmt])
    write(h, path, case)
    pairs = [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]
    got = {}
    if fmt == 'ascii':
        for line in path.read_text().splitlines():
            f = line.split()
            same(len(f), 5 if date else 4, 'columns')
            got[int(f[0]), int(f[1])] = (float(f[2]), float(f[3]))
            if date:
                close(float(f[4]), float(h.time), 'written time', rtol=0, atol=5.1e-5)
        nlines = len(path.read_text().splitlines())
    else:
        if fmt == 'netCDF4':
            with netCDF4.Dataset(path) as f:
                d = {k: np.ma.getdata(f[k][:]) for k in f.variables}
                root = {k: f.getncattr(k) for k in f.ncattrs()}
        else:
            with h5py.File(path, 'r') as f:
                d = {k: f[k][()] for k in f.keys()}
                root = dict(f.attrs)
        want = {'l', 'm', 'clm', 'slm'} | ({'time', 'month'} if date else set())
        same(sorted(set(d) - {'lm', 'nt'}), sorted(want), 'variables')
        require('date_created' in root, 'global attributes')
        nlines = len(d['l'])
        for i in range(nlines):
            got[int(d['l'][i]), int(d['m'][i])] = (d['clm'][i], d['slm'][i])
        if date:
            same(np.atleast_1d(d['time']), np.atleast_1d(h.time), 'written time')
            same(np.atleast_1d(d['month']), np.atleast_1d(h.month), 'written month')
    same(nlines, len(pairs), 'number of terms')
    same(sorted(got), sorted(pairs), 'degrees and orders')
    for l, m in pairs:
        c, s = got[l, m]
        wc, ws = h.clm[l, m], h.slm[l, m]
        close(np.squeeze(c), np.squeeze(wc), f'written clm {l},{m}', rtol=rtol(fmt))
        close(np.squeeze(s), np.squeeze(ws), f'written slm {l},{m}', rtol=rtol(fmt))
    ctx.nontrivial(lmax >= 1)
    ctx.label(fmt)


# -------------------------------------------------------------- attributes
@st.composite
def s_meta(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 4)),
        fmt=draw(st.sampled_from(FMT[1:])), date=draw(st.booleans()),
        n=draw(st.sampled_from([None, 1, 3])), names=draw(st.sampled_from(
        ['default', 'months', 'mapping'])), own=draw(st.booleans()),
        opts=draw(st.sets(st.sampled_from(['units', 'time_units', 'time_longname',
        'months_units', 'months_longname', 'title', 'source', 'reference']))
            .map(sorted)),
        root=draw(st.booleans()), how=draw(st.sampled_from(['direct', 'file'])))


def b_meta(case, ctx):
    """attributes of variables and files"""
    fmt, date = case['fmt'], case['date']
    h = hx.make(case['seed'], *case['lm'], case['n'] if date else None)
    h.attributes['ROOT'] = dict(history='made here') if case['root'] else {}
    path = ctx.tmp/('m' + SUF[fmt])
    v = dict(units='Geodesy_Normalization', time_units='years',
        time_longname='Date_in_Decimal_Years', months_units='number',
        months_longname='GRACE_month', title=None, source=None, reference=None)
    kw = {}
    for k in sorted(case['opts']):
        kw[k] = v[k] = f'{k} {case["seed"] % 97}'
    fields = ['l', 'm', 'clm', 'slm'] + ['time', 'month']*date
    name = {k: k for k in fields}
    if case['names'] == 'months':
        kw['months_name'] = 'GRACE_month'
        if date:
            name['month'] = 'GRACE_month'
    elif case['names'] == 'mapping':
        name = {k: f'{k}_of_file' for k in fields}
        kw['field_mapping'] = dict(name)
    want = dict(l=dict(long_name='spherical_harmonic_degree', units='Wavenumber'),
        m=dict(long_name='spherical_harmonic_order', units='Wavenumber'),
        clm=dict(long_name='cosine_spherical_harmonics', units=v['units']),
        slm=dict(long_name='sine_spherical_harmonics', units=v['units']),
        time=dict(long_name=v['time_longname'], units=v['time_units']),
        month=dict(long_name=v['months_longname'], units=v['months_units']))
    top = {}
    if case['root']:
        top['history'] = 'made here'
    if case['own']:
        # attributes of every variable, and of the file
        want = {k: dict(units=f'u {k}', long_name=f'n {k}', description=f'd {k}')
            for k in fields}
        kw['attributes'] = {name[k]: dict(want[k]) for k in fields}
        top = dict(institution='here')
        kw['attributes']['ROOT'] = dict(top)
    top.update({k: v[k] for k in ('title', 'source', 'reference') if v[k]})
    day = meta.today()
    d = dict(date=date)
    if case['how'] == 'file':
        h.to_file(path, format=fmt, **d, **kw)
    else:
        getattr(h, reader(fmt).replace('from', 'to'))(path, **d, **kw)
    got, root = meta.attributes(path, fmt)
    what = f"{fmt} {case['names']}"
    same(sorted(set(got) - {'lm'}), sorted(name.values()), f'{what}: variables')
    meta.compare(got, {name[k]: want[k] for k in fields}, what)
    meta.software(root, day, what)
    same({k: x for k, x in root.items() if k not in ('software_reference',
        'software_version', 'date_created')}, top, f'{what}: attributes of the file')
    ctx.nontrivial(bool(case['opts']) or case['own'])
    ctx.label(fmt, case['names'], 'own' if case['own'] else 'default')


# ------------------------------------------------ independently written files
@st.composite
def s_foreign(draw):
    fmt = draw(st.sampled_from(FMT))
    date = draw(st.booleans())
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 8)), fmt=fmt, date=date,
        n=draw(hx.nts) if (fmt != 'ascii' and date) else None,
        exp=draw(st.sampled_from(['e', 'E', 'D', 'd', 'f'])),
        keep=draw(st.floats(0.3, 1.0)), shuffle=draw(st.booleans()),
        comp=draw(st.sampled_from([None, 'gzip', 'zip', 'bytes'])))


def b_foreign(case, ctx):
    lmax, mmax = case['lm']
    fmt, date, n = case['fmt'], case['date'], case['n']
    h = hx.make(case['seed'], lmax, mmax, n)
    r = gen.rng(case['seed'], 5)
    pairs = [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]
    need = {(lmax, 0), (max(lmax, mmax), mmax)}
    pairs = [p for p in pairs if p in need or r.random() < case['keep']]
    if case['shuffle']:
        r.shuffle(pairs)
    pairs = [(int(l), int(m)) for l, m in pairs]
    path = ctx.tmp/('y' + SUF[fmt])
    keep = np.zeros((lmax + 1, mmax + 1), dtype=bool)
    for l, m in pairs:
        keep[l, m] = True
    keep = keep[:, :, None] if n else keep
    h.clm, h.slm = h.clm*keep, h.slm*keep
    if fmt == 'ascii':
        def num(v):
            if case['exp'] == 'f':
                return f'{v: .14f}'
            return f'{v: .14e}'.replace('e', case['exp'])
        if case['exp'] == 'd':
            return
        lines = [f'{l} {m} {num(h.clm[l, m])} {num(h.slm[l, m])}'
            + (f' {float(h.time):.5f}' if date else '') for l, m in pairs]
        path.write_text('\n'.join(lines) + ('\n' if r.random() < .5 else ''))
    else:
        L = np.array([p[0] for p in pairs])
        M = np.array([p[1] for p in pairs])
        C, S = h.clm[L, M], h.slm[L, M]
        t, mo = np.atleast_1d(h.time), np.atleast_1d(h.month)
        if date and not n:
            C, S = C[:, None], S[:, None]
        if fmt == 'netCDF4':
            with netCDF4.Dataset(path, 'w') as f:
                f.createDimension('lm', len(L))
                dims = ('lm',)
                if date:
                    f.createDimension('time', len(t))
                    dims = ('lm', 'time')
                for k, v, dd in (('l', L, ('lm',)), ('m', M, ('lm',)),
                        ('clm', C, dims), ('slm', S, dims)):
                    f.createVariable(k, v.dtype, dd)[:] = v
                if date:
                    f.createVariable('time', 'f8', ('time',))[:] = t
                    f.createVariable('month', 'i4', ('time',))[:] = mo
                f.title = 'foreign'
        else:
            with h5py.File(path, 'w') as f:
                for k, v in (('l', L), ('m', M), ('clm', C), ('slm', S)):
                    f[k] = v
                if date:
                    f['time'], f['month'] = t, mo
                f.attrs['title'] = 'foreign'
    arg, _ = compressed(path, case['comp'])
    g = getattr(gravtk.harmonics(), reader(fmt))(arg, **dated(date, case),
        compression=case['comp'])
    what = f"foreign {fmt} {case['comp']}"
    want = shape1(h)
    tri = gen.tri_mask(lmax, mmax)
    for k in ('clm', 'slm'):
        close(getattr(g, k), getattr(want, k), f'{what}: {k}', rtol=1e-13,
            atol=2e-14 if fmt == 'ascii' else 0.0)
    same(int(g.lmax), lmax, f'{what}: lmax')
    same(int(g.mmax), mmax, f'{what}: mmax')
    if date:
        close(np.asarray(g.time, dtype=float), np.asarray(want.time, dtype=float),
            f'{what}: time', rtol=0, atol=1e-5)
        same(np.asarray(g.month).astype(int), np.asarray(want.month), f'{what}: month')
    if fmt != 'ascii':
        same(str(g.attributes['ROOT']['title']), 'foreign', f'{what}: attributes')
    ctx.nontrivial(lmax >= 1)
    ctx.label(fmt, case['comp'])


# ----------------------------------------------------------- index of files
@st.composite
def s_index(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 6)), n=draw(st.integers(1, 5)),
        fmt=draw(st.sampled_from(FMT)), date=draw(st.booleans()),
        sort=draw(st.booleans()), order=draw(gen.seeds), comment=draw(st.booleans()),
        file=draw(st.booleans()))


def b_index(case, ctx):
    lmax, mmax = case['lm']
    fmt, date, n = case['fmt'], case['date'], case['n']
    h = hx.make(case['seed'], lmax, mmax, n)
    perm = gen.rng(case['order']).permutation(n)
    h.clm, h.slm = h.clm[:, :, perm], h.slm[:, :, perm]
    h.time, h.month = h.time[perm], h.month[perm]
    files = [ctx.tmp/f'f{i:02d}{SUF[fmt]}' for i in range(n)]
    index = ctx.tmp/'index.txt'
    snap = hx.snapshot(h)
    wdate = date
    h.to_index(index, files, format=fmt, **dated(wdate, case))
    hx.unchanged(h, snap, 'writing an index')
    names = [s for s in index.read_text().splitlines()]
    same([pathlib.Path(s).expanduser().name for s in names],
        [f.name for f in files], 'names in the index')
    if case['comment']:
        names = ['# comment', ''] + names[:1] + ['%' + str(files[0])] + names[1:] + ['']
        index.write_text('\n'.join(names) + '\n')
    g = gravtk.harmonics().from_index(index, format=fmt, **dated(wdate, case),
        sort=case['sort'])
    order = np.argsort(h.time) if (wdate and case['sort']) else np.arange(n)
    want = h.copy()
    want.clm, want.slm = h.clm[:, :, order], h.slm[:, :, order]
    want.time, want.month = h.time[order], h.month[order]
    compare(g, want, fmt, f'{fmt} index', date=wdate)
    same([pathlib.Path(f).name for f in g.filename],
        [files[i].name for i in order], f'{fmt} index: file of each date')
    for i in range(n):
        k = g.index(i, **dated(wdate, case))
        close(k.clm, want.clm[:, :, i], f'{fmt} index item', rtol=rtol(fmt), atol=1e-300)
        same(pathlib.Path(k.filename).name, files[order[i]].name, 'file of an item')
    # every single file holds its own date
    for i, f in enumerate(files):
        s = gravtk.harmonics().from_file(f, format=fmt, **dated(wdate, case))
        one = h.index(i)
        compare(s, one, fmt, f'{fmt} file of an index', date=wdate)
    ctx.nontrivial(n > 1)
    ctx.label(fmt)


# ------------------------------------------------------- cross-format series
@st.composite
def s_cross(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 8)), n=draw(hx.nts),
        fmts=draw(st.permutations(FMT)))


def b_cross(case, ctx):
    """a field handed from format to format is unchanged"""
    lmax, mmax = case['lm']
    h = hx.make(case['seed'], lmax, mmax, case['n'])
    h.clm, h.slm = np.round(h.clm, 6), np.round(h.slm, 6)
    h.time = np.round(h.time, 4)
    g = h.copy()
    for k, fmt in enumerate(case['fmts']):
        if fmt == 'ascii':
            if g.clm.ndim == 3:
                continue
        p = ctx.tmp/f'c{k}{SUF[fmt]}'
        g.to_file(p, format=fmt)
        g = gravtk.harmonics().from_file(p, format=fmt)
    want = shape1(h)
    compare(g, want, 'HDF5', f"chain {case['fmts']}")
    ctx.nontrivial(lmax >= 1)


@st.composite
def s_missing(draw):
    return dict(fmt=draw(st.sampled_from(FMT)), seed=draw(gen.seeds))


def b_missing(case, ctx):
    fmt = case['fmt']
    other = ctx.tmp/('other' + SUF[fmt])
    hx.make(case['seed'], 2, 2).to_file(other, format=fmt)
    bad = ctx.tmp/('absent' + SUF[fmt])
    require(raises(lambda: getattr(gravtk.harmonics(), reader(fmt))(bad),
        FileNotFoundError), f'{fmt}: a file that is not there is not an error')
    require(not bad.exists(), 'a missing file was created')
    if fmt != 'ascii':
        # no silent overwrite
        sha = digest(other)
        require(raises(lambda: hx.make(case['seed'] + 1, 2, 2).to_file(other,
            format=fmt, clobber=False)), f'{fmt}: file overwritten')
    ctx.nontrivial()


CHECKS = [
    Check('attributes', s_meta, b_meta, quick=150, thorough=2000,
        rule='some attribute is not the default'),
    Check('round_trip', s_trip, b_trip, quick=500, thorough=6000,
        rule='degree >= 1'),
    Check('file_content', s_trip, b_content, quick=250, thorough=3000,
        rule='degree >= 1'),
    Check('foreign_files', s_foreign, b_foreign, quick=350, thorough=4000,
        rule='degree >= 1'),
    Check('index_files', s_index, b_index, quick=200, thorough=2400,
        rule='more than one file'),
    Check('format_chain', s_cross, b_cross, quick=200, thorough=2400,
        rule='degree >= 1'),
    Check('missing_files', s_missing, b_missing, quick=10, thorough=50,
        rule='every case'),
]

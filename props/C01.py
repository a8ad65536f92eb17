"""Conversion programs: grids to harmonics and harmonics to grids"""
import os
import pathlib
import re
import stat
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx, meta, oracle, prog
from pbt.core import Check, Violation, close, require, same
from props.O01 import make_mask, write as write_mask
from props.S02 import quadrature

ASSUMPTIONS = ['ascii files hold static fields', 'files without dates hold static fields',
    'spacings divide the circle', 'global grids with the repeated meridian are integrated '
    'over all their nodes', 'files reach the requested degree and order',
    'ascii grids have data in every row and column']

SUF = dict(ascii='.txt', netCDF4='.nc', HDF5='.H5')
NLAT = [6, 9, 10, 12, 15, 18, 20, 30, 36]
NLON = [8, 10, 12, 18, 20, 24, 36, 40, 72]


def num(v):
    return repr(float(v)) if v != int(v) else str(int(v))


def arguments(case, tmp, args):
    """arguments on the command line or through an argument file"""
    args = [str(a) for a in args]
    if not case['argfile']:
        return args
    p = os.path.join(tmp, 'arguments.txt')
    with open(p, 'w') as f:
        f.write('# arguments of the program\n\n')
        for i, a in enumerate(args):
            f.write(a + (' # comment --date' if i % 3 == 0 else '') + '\n')
    return ['@' + p]


@st.composite
def common(draw):
    lmax = draw(st.integers(1, 16))
    form = draw(st.sampled_from(['ascii', 'netCDF4', 'HDF5', 'netCDF4']))
    date = draw(st.booleans())
    return dict(seed=draw(gen.seeds), lmax=lmax,
        mmax=draw(st.one_of(st.none(), st.just(lmax), st.integers(0, lmax))),
        love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        ref=draw(st.sampled_from([None, 'CF', 'CM', 'CE', 'cm'])),
        form=form, date=date, n=draw(st.integers(1, 4)) if date and form != 'ascii' else 1,
        nlat=draw(st.sampled_from(NLAT)), nlon=draw(st.sampled_from(NLON)),
        single=draw(st.integers(0, 3)) == 0, interval=draw(st.sampled_from([1, 2, 2])),
        mode=draw(st.sampled_from([None, '640', '775'])), argfile=draw(st.booleans()),
        deep=draw(st.booleans()))


def love_numbers(case):
    return gravtk.load_love_numbers(case['lmax'], LOVE_NUMBERS=case['love'] or 0,
        REFERENCE=(case['ref'] or 'CF').upper())


def base_args(case, units, tmp):
    a = ['--lmax', case['lmax']]
    if case['mmax'] is not None:
        a += ['-m', case['mmax']]
    if case['love'] is not None:
        a += ['--love', case['love']]
    if case['ref'] is not None:
        a += ['--reference', case['ref']]
    if units is not None:
        a += ['-U', units]
    if case['mode'] is not None:
        a += ['--mode', case['mode']]
    if case['date']:
        a += ['--date']
    return a


def spacing(case):
    if case['single']:
        d = 180.0/case['nlat']
        return d, d
    return 360.0/case['nlon'], 180.0/case['nlat']


def nodes(case, dlon, dlat):
    nlon, nlat = int(round(360/dlon)), int(round(180/dlat))
    if case['interval'] == 1:
        return dlon*np.arange(nlon + 1), 90.0 - dlat*np.arange(nlat + 1)
    return dlon/2 + dlon*np.arange(nlon), 90.0 - dlat/2 - dlat*np.arange(nlat)


def check_mode(case, path):
    want = int(case['mode'], 8) if case['mode'] else 0o775
    same(stat.S_IMODE(os.stat(path).st_mode), want, 'permissions of the output')


# ---------------------------------------------------------------- grid -> harmonics
@st.composite
def s_convert(draw):
    c = draw(common())
    c.update(units=draw(st.sampled_from([None, 1, 2, 3])),
        fill=draw(st.sampled_from([None, -9999.0, 'nan'])),
        holes=draw(st.booleans()), header=draw(st.sampled_from([None, 0, 3])),
        shuffle=draw(st.booleans()))
    return c


def b_convert(case, ctx):
    tmp = str(ctx.tmp)
    r = gen.rng(case['seed'], 5)
    dlon, dlat = spacing(case)
    lon, lat = nodes(case, dlon, dlat)
    if len(lon) == len(lat):
        return
    n = case['n']
    f = np.round(r.standard_normal((len(lat), len(lon), n))*30, 3)
    hole = np.zeros(f.shape, dtype=bool)
    if case['holes']:
        hole = r.random(f.shape) < 0.15
        hole[0, :] = hole[:, 0] = hole[:, 1] = False
        hole[np.arange(len(lat)), np.arange(len(lat)) % len(lon)] = False
        hole[np.arange(len(lon)) % len(lat), np.arange(len(lon))] = False
    month, time = hx.months_times(case['seed'], n)
    order = r.permutation(n) if case['shuffle'] else np.arange(n)
    form = case['form']
    src = pathlib.Path(tmp)/('grid' + SUF[form])
    fill = {None: None, 'nan': float('nan')}.get(case['fill'], case['fill'])
    extra = []
    if form == 'ascii':
        head = case['header'] or 0
        lines = [f'# header {i}' for i in range(head)]
        written = case['fill'] == -9999.0
        for i in range(len(lat)):
            for j in range(len(lon)):
                if hole[i, j, 0] and not written:
                    continue
                v = fill if hole[i, j, 0] else f[i, j, 0]
                t = f' {time[0]:10.4f}' if case['date'] else ''
                lines.append(f'{lon[j]:10.4f} {lat[i]:10.4f} {v:12.4f}{t}')
        if case['shuffle']:
            body = lines[head:]
            r.shuffle(body)
            lines[head:] = body
        src.write_text('\n'.join(lines) + '\n')
        if case['header'] is not None:
            extra += ['--header', case['header']]
        if written:
            extra += ['--fill-value', '-9999.0'] if not case['argfile'] else \
                ['--fill-value=-9999.0']
    else:
        g = gravtk.spatial(fill_value=-9999.0 if fill is None else fill)
        g.lon, g.lat = lon.copy(), lat.copy()
        g.data = np.where(hole, g.fill_value, f)[:, :, order]
        g.mask = hole[:, :, order].copy()
        g.time, g.month = time[order].copy(), month[order].copy()
        if n == 1 and case['shuffle']:
            g = g.squeeze()
        if not case['date']:
            g = g.squeeze()
        g.to_file(src, format=form, date=case['date'], units='cm', longname='thickness')
    out = pathlib.Path(tmp)/('out' if not case['deep'] else 'new/sub/out')
    out = out.with_suffix(SUF[form])
    args = base_args(case, case['units'], tmp) + extra
    args += ['-S', num(dlon)] + ([] if case['single'] else [num(dlat)])
    args += ['-I', case['interval']] if case['interval'] != 2 or case['deep'] else []
    args += ['-F', form] if form != 'netCDF4' or case['deep'] else []
    before = src.read_bytes()
    prog.run('convert_harmonics', src, out, *arguments(case, tmp, args))
    same(src.read_bytes(), before, 'input file')
    check_mode(case, out)
    # reference
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else case['mmax']
    love = love_numbers(case)
    units = case['units'] or 1
    e = oracle.Earth()
    fac = oracle.spatial_factors(lmax, love)['mmwe' if units == 3 else 'cmwe']
    w = np.cos(np.radians(lat))*np.radians(dlon)*np.radians(dlat)
    if units == 2:
        w = np.full(len(lat), 1e15/e.R**2)
    d = np.where(hole, 0.0, f)
    tri = gen.tri_mask(lmax, mmax)
    if form != 'ascii':
        att, top = meta.attributes(out, form)
        meta.check(top, dict(meta.earth(lmax, case['love'], case['ref']), max_degree=str(lmax),
            max_order=str(mmax), product_type='gravity_field', lineage=src.name,
            reference='Output from convert_harmonics.py'), 'converted field')
    h = gravtk.harmonics().from_file(out, format=form, date=case['date'])
    same([int(h.lmax), int(h.mmax)], [lmax, mmax], 'limits of the result')
    shape = (lmax + 1, mmax + 1) + ((n,) if n > 1 else ())
    same(np.shape(h.squeeze().clm), shape, 'shape of the result')
    hc, hs = np.atleast_3d(h.clm), np.atleast_3d(h.slm)
    tol = (1e-10*np.max(np.abs(d))*np.sum(np.abs(w))*len(lon)*np.abs(fac)*(lmax + 1))[:, None]
    for i in range(n):
        C, S = quadrature(d[:, :, i].T, lon, lat, lmax, mmax, w)
        close(hc[:, :, i], C*fac[:, None]*tri, f'cosine terms of field {i}', rtol=1e-11,
            atol=tol + 1e-300)
        close(hs[:, :, i], S*fac[:, None]*tri, f'sine terms of field {i}', rtol=1e-11,
            atol=tol + 1e-300)
    if case['date']:
        close(np.atleast_1d(h.time).astype(float), time, 'times', rtol=0,
            atol=2.1e-4 if form == 'ascii' else 1e-12)
        if form != 'ascii':
            same(np.atleast_1d(h.month).astype(int), month, 'months')
    ctx.nontrivial(lmax >= 2)
    ctx.label(form, f'units={units}', f"interval={case['interval']}",
        'dated' if case['date'] else 'static', f'n={n}')


# ---------------------------------------------------------------- harmonics -> grid
@st.composite
def s_combine(draw):
    c = draw(common())
    c.update(units=draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5])),
        interval=draw(st.sampled_from([1, 2, 2, 3])),
        rad=draw(st.sampled_from([None, 0, 250, 300.5, 1000])),
        index=draw(st.booleans()), more=draw(st.integers(0, 4)),
        mean=draw(st.sampled_from([None, None, 'same', 'short', 'long'])),
        destripe=draw(st.integers(0, 3)) == 0, redist=draw(st.integers(0, 2)) == 0,
        box=[draw(st.integers(-3, 5)), draw(st.integers(1, 8)), draw(st.integers(0, 4)),
            draw(st.integers(1, 4))],
        mask=draw(st.sampled_from(['white', 'sparse', 'blocks'])), shuffle=draw(st.booleans()))
    if c['destripe']:
        c['lmax'] = draw(st.integers(10, 20))
        c['mmax'] = None
    if c['index'] and c['date']:
        c['n'] = draw(st.integers(1, 4)) if c['form'] != 'ascii' else 1
    return c


def b_combine(case, ctx):
    tmp = str(ctx.tmp)
    r = gen.rng(case['seed'], 6)
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else case['mmax']
    n, form = case['n'], case['form']
    units = 1 if case['units'] is None else case['units']
    love = love_numbers(case)
    dfac = oracle.harmonic_factors(lmax, love)[['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal',
        'mbar'][units]]
    big = 1.0/float(np.max(np.abs(dfac)))*20
    L = lmax + case['more']
    month, time = hx.months_times(case['seed'], n)
    C = np.zeros((L + 1, L + 1, n))
    S = np.zeros((L + 1, L + 1, n))
    for i in range(n):
        C[:, :, i], S[:, :, i] = gen.coeffs(dict(seed=case['seed'] + i, kind='dense',
            scale=big), L)
    order = r.permutation(n) if case['shuffle'] and n > 1 else np.arange(n)

    def save(path, i, fmt, date):
        h = gravtk.harmonics(lmax=L, mmax=L)
        h.clm, h.slm = (C[:, :, i].copy(), S[:, :, i].copy())
        h.time, h.month = (time[i].copy(), month[i].copy())
        if np.ndim(i) == 1 and len(i) == 1:
            h = h.squeeze()
        h.to_file(path, format=fmt, date=date)

    opt = form
    if case['index']:
        files = []
        for k in order:
            p = os.path.join(tmp, f'ylm_{k}{SUF[form]}')
            save(p, int(k), form, case['date'])
            files.append(p)
        src = os.path.join(tmp, 'index.txt')
        with open(src, 'w') as f:
            f.write('# files\n\n' + '\n'.join(files) + '\n%comment\n')
        opt = 'index-' + form
    else:
        src = os.path.join(tmp, 'ylm' + SUF[form])
        save(src, np.sort(order) if n > 1 else int(order[0]), form, case['date'])
    if form == 'ascii':
        C, S = [np.vectorize(lambda v: float(f'{v:+21.12e}'))(v) for v in (C, S)]
    dlon, dlat = spacing(case)
    args = base_args(case, case['units'], tmp)
    args += ['-S', num(dlon)] + ([] if case['single'] else [num(dlat)])
    args += ['-I', case['interval']]
    if case['interval'] == 3:
        a, b, c, d = case['box']
        lo, la = 20.0*a, -80.0 + 15*c
        bounds = [lo, lo + b*dlon, la, la + min(d, max(1, int((90 - la)/dlat)))*dlat]
        if bounds[3] > 90:
            bounds[2:] = [90.0 - dlat, 90.0]
        lon = bounds[0] + dlon/2 + dlon*np.arange(b)
        k = int(round((bounds[3] - bounds[2])/dlat))
        lat = bounds[3] - dlat/2 - dlat*np.arange(k)
        if b == 1 or k == 1:
            return
        args += ['--bounds'] + [num(v) for v in bounds]
    else:
        lon, lat = nodes(case, dlon, dlat)
    if case['rad'] is not None:
        args += ['-R', num(case['rad'])]
    args += ['-F', opt]
    # reference coefficients
    cut = lambda v: v[:lmax + 1, :mmax + 1].copy()
    ec, es = cut(C), cut(S)
    if case['mean']:
        M = lmax + {'same': 0, 'short': -1, 'long': 3}[case['mean']]
        mc, ms = gen.coeffs(dict(seed=case['seed'] + 77, kind='dense', scale=big), M)
        h = gravtk.harmonics(lmax=M, mmax=M)
        h.clm, h.slm = mc.copy(), ms.copy()
        p = os.path.join(tmp, 'mean' + SUF[form])
        h.to_file(p, format=form, date=False)
        if form == 'ascii':
            mc, ms = [np.vectorize(lambda v: float(f'{v:+21.12e}'))(v) for v in (mc, ms)]
        args += ['--mean', p]
        a, b = min(lmax, M) + 1, min(mmax, M) + 1
        ec[:a, :b] -= mc[:a, :b, None]
        es[:a, :b] -= ms[:a, :b, None]
    if case['redist']:
        k = 12
        mask = make_mask(case['seed'], case['mask'], k, 2*k)
        mlon, mlat = 7.5 + 15*np.arange(2*k), 82.5 - 15*np.arange(k)
        p = os.path.join(tmp, 'mask.nc')
        write_mask(p, mask, mlon, mlat, 'LSMASK')
        args += ['--redistribute-mass', '--mask', p]
        sea = (~((mask >= 1) & (mask <= 3))).astype(float).T
        area = np.cos(np.radians(mlat))*np.radians(15.0)**2
        if np.sum(sea*area) < 0.1:
            return
        fac = oracle.spatial_factors(lmax, love)['cmwe']
        oc, os_ = quadrature(sea, mlon, mlat, lmax, mmax, area)
        oc, os_ = oc*fac[:, None], os_*fac[:, None]
        ratio = ec[0, 0]/oc[0, 0]
        tri = gen.tri_mask(lmax, mmax)[:, :, None]
        ec = ec - ratio*oc[:, :, None]*tri
        es = es - ratio*os_[:, :, None]*tri
    if case['destripe']:
        args += ['--destripe']
        h = gravtk.harmonics(lmax=lmax, mmax=mmax)
        h.clm, h.slm, h.time, h.month = ec, es, time, month
        h = h.destripe()
        ec, es = h.clm, h.slm
    wt = 2*np.pi*gravtk.gauss_weights(case['rad'], lmax) if case['rad'] else np.ones(lmax + 1)
    out = pathlib.Path(tmp)/('out' if not case['deep'] else 'new/sub/out')
    out = out.with_suffix(SUF[form])
    prog.run('combine_harmonics', src, out, *arguments(case, tmp, args))
    check_mode(case, out)
    kw = dict(date=case['date'])
    if form == 'ascii':
        rows = np.loadtxt(out, ndmin=2)
        require(len(rows) == len(lat)*len(lon), f'{len(rows)} rows in the output')
        got = rows[:, 2].reshape(len(lat), len(lon))
        close(rows[:, 0].reshape(got.shape), np.tile(lon, (len(lat), 1)), 'longitudes', rtol=0,
            atol=6e-5)
        close(rows[:, 1].reshape(got.shape), np.tile(lat[:, None], (1, len(lon))), 'latitudes',
            rtol=0, atol=6e-5)
        if case['date']:
            close(rows[:, 3], np.full(len(rows), time[0]), 'times', rtol=0, atol=1.1e-4)
        got = got[:, :, None]
    else:
        att, top = meta.attributes(out, form)
        meta.check(top, dict(meta.earth(lmax, case['love'], case['ref']), max_degree=str(lmax),
            max_order=str(mmax), product_type='gravity_field',
            reference='Output from combine_harmonics.py'), 'combined field')
        files = files if case['index'] else [src]
        same(sorted(meta.words(top['lineage'])), sorted(os.path.basename(f) for f in files),
            'lineage of the combined field')
        same((att['z']['units'], att['z']['long_name']), gravtk.units.get_attributes(
            ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar'][units]), 'units')
        g = gravtk.spatial().from_file(out, format=form, **kw)
        close(g.lon, lon, 'longitudes', rtol=0, atol=1e-9)
        close(g.lat, lat, 'latitudes', rtol=0, atol=1e-9)
        require(not np.any(g.mask), 'output is valid everywhere')
        if case['date']:
            close(np.atleast_1d(g.time).astype(float), time, 'times', rtol=0, atol=1e-9)
        same(np.shape(g.data)[:2], (len(lat), len(lon)), 'shape of the result')
        require(np.ndim(g.data) == 3 or n == 1, 'dimensions of the result')
        got = np.atleast_3d(g.data)
    require(got.shape[2] == n, f'{got.shape[2]} fields in the output')
    for i in range(n):
        f = [(v[:, :, i]*(dfac*wt)[:, None]) for v in (ec, es)]
        want = oracle.synth(*f, lon, lat, mmax=mmax).T
        bound = oracle.basis_bound(*f) + 1e-300
        close(got[:, :, i], want, f'field {i}', rtol=0,
            atol=1e-9*bound + (5.1e-5 if form == 'ascii' else 0))
    ctx.nontrivial(lmax >= 2)
    ctx.label(opt, f'units={units}', f"interval={case['interval']}",
        'dated' if case['date'] else 'static', *(k for k in ('destripe', 'redist', 'mean')
            if case[k]))


# ----------------------------------------------------------------- failing runs
# name of the logs, directory of the logs, arguments leading to an error
FAILING = dict(
    calc_degree_one=('calc_degree_one', 'geocenter', 1),
    monte_carlo_degree_one=('monte_carlo_degree_one', 'geocenter', 1),
    grace_mean_harmonics=('GRACE_mean', '', 1),
    calc_mascon=('calc_mascon', 'O', 1),
    grace_raster_grids=('GRACE_processing', 'O', 1),
    grace_spatial_error=('GRACE_error', 'O', 1),
    grace_spatial_maps=('GRACE_processing', 'O', 1),
    scale_grace_maps=('scale_GRACE_maps', 'O', 1),
    regress_grace_maps=('GRACE_processing', 'O', 0),
    piecewise_grace_maps=('GRACE_processing', 'O', 0),
    calc_sensitivity_kernel=('calc_skernel', 'O', 0),
    dealiasing_global_uplift=('aod1b_spatial', 'O', 2))


@st.composite
def s_failures(draw):
    name = draw(st.sampled_from(sorted(FAILING)))
    return dict(name=name, lmax=draw(st.integers(2, 60)), new=draw(st.integers(0, 3)) == 0,
        proc=draw(st.sampled_from(['CSR', 'GFZ', 'JPL'])),
        runs=draw(st.lists(st.tuples(st.booleans(), st.booleans(),
            st.sampled_from([None, '640', '775']), st.booleans()), min_size=1, max_size=3)))


def b_failures(case, ctx):
    name = case['name']
    stem, where, kind = FAILING[name]
    base = pathlib.Path(ctx.tmp)/'archive'
    base.mkdir()
    out = pathlib.Path(ctx.tmp)/'out'
    if not case['new']:
        out.mkdir()
    place = out if where == 'O' else base/where
    args = []
    if kind:
        args += ['--directory', base]
    if where == 'O':
        args += ['--output-directory', out]
    if kind == 1:
        args += ['--center', case['proc'], '--release', 'RL06', '--product', 'GSM'][:4]
    if name == 'scale_grace_maps':
        args += ['--scale-file', base/'none.nc']
    if name == 'calc_sensitivity_kernel':
        args += ['--mascon-file', base/'none.txt']
    if name == 'piecewise_grace_maps':
        args += ['--breakpoint', '20']
    if kind != 2:
        args += ['--lmax', case['lmax']]
    if name in ('calc_degree_one', 'monte_carlo_degree_one'):
        args += ['--ocean-model', 'MPIOM', '--ocean-file', base/'none.txt'][:2]
    logs = {}
    for log, argfile, mode, bare in case['runs']:
        a = args + (['--log'] if log else []) + (['--mode', mode] if mode else [])
        try:
            prog.run(name, *arguments(dict(argfile=argfile), ctx.tmp, a), cwd=ctx.tmp, bare=bare)
        except prog.Failed as exc:
            require(exc.reported, f'{name}: {exc}')
            require(f'process id {os.getpid():d} failed' in exc.reported[0],
                'failing process is reported')
            require(bare or 'Traceback' in exc.reported[1] and name in exc.reported[1],
                'error is reported')
        else:
            raise Violation(f'{name} without inputs reports no error')
        now = {f.name: f.read_text() for f in place.iterdir() if f.suffix == '.log'} \
            if place.exists() else {}
        for k, v in logs.items():
            require(now.get(k) == v, f'log {k} of an earlier run is changed')
        new = sorted(set(now) - set(logs))
        same(len(new), int(log), 'new logs of a failing run')
        if new:
            require(re.fullmatch(rf'{stem}_failed_run_\d{{4}}-\d\d-\d\d_PID-{os.getpid()}(_\d+)?\.log',
                new[0]), f'name of the log: {new[0]}')
            t = now[new[0]]
            head, _, tail = t.partition('TRACEBACK ERROR:')
            want = dict(log='True')
            if kind != 2:
                want['lmax'] = str(case['lmax'])
            if kind:
                want['directory'] = str(base)
            if where == 'O':
                want['output_directory'] = str(out)
            if kind == 1:
                want['center'] = case['proc']
            if mode:
                want['mode'] = str(int(mode, 8))
            require(head.startswith('INFO:root:ARGUMENTS:') or head.startswith('ARGUMENTS:'),
                'log starts with the arguments')
            lines = [v.replace('INFO:root:', '').strip() for v in head.splitlines()]
            for k, v in want.items():
                require(f'{k}: {v}' in lines, f'log does not list {k}: {v}')
            require('Traceback (most recent call last)' in tail and name in tail,
                'log lists the traceback of the error')
        logs = now
        stray = [str(f) for f in pathlib.Path(ctx.tmp).rglob('*') if f.suffix == '.log'
            and f.parent != place]
        require(not stray, f'stray logs: {stray}')
    ctx.nontrivial(any(r[0] for r in case['runs']))
    ctx.label(name, f"runs={len(case['runs'])}", 'new directory' if case['new'] else 'existing')


CHECKS = [
    Check('convert', s_convert, b_convert, quick=300, thorough=4000, rule='degree 2 or more'),
    Check('combine', s_combine, b_combine, quick=350, thorough=4500, rule="degree 2 or more"),
    Check('failures', s_failures, b_failures, quick=150, thorough=1500,
        rule='a run keeps a log'),
]

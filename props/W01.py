"""Programs for static fields and monthly maps"""
import os
import pathlib
import re
import stat
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, oracle, prog
from pbt.core import Check, close, require, same
from props.C01 import arguments
from props.F02 import guarded

ASSUMPTIONS = ['an archive as in F02', 'files of removed fields have all months of the analysis',
    'spacings divide the circle', 'no order limit with the decorrelation filter']
SPACE = [(45, 30), (30, 30), (20, 10), (36, 22.5), (15, 15), (22.5, 45)]


def files_of(directory):
    return {f.name for f in directory.iterdir() if not f.name.endswith('.log')}


def logged(case, directory, files):
    """a log of the run lists its arguments and files"""
    logs = [f for f in pathlib.Path(directory).iterdir() if f.name.endswith('.log')]
    same(len(logs), int(case['log']), 'number of logs')
    if logs:
        require(re.fullmatch(r'\w+_run_\d{4}-\d\d-\d\d_PID-\d+(_\d+)?\.log', logs[0].name)
            and 'failed' not in logs[0].name, f'name of the log: {logs[0].name}')
        text = logs[0].read_text()
        for name in ['ARGUMENTS:', 'OUTPUT FILE', f"center: {case['proc']}", *files]:
            require(str(name) in text, f'{name} is not in the log')


# ----------------------------------------------------------------- static fields
@st.composite
def s_mean(draw):
    return dict(draw(grc.s_grace(nmax=9, destripe=False)), form=draw(st.sampled_from(
        [None] + grc.FORMS + ['gfc', 'gfc'])), where=draw(st.sampled_from([None, 'here', 'new/sub'])))


@guarded
def b_mean(case, ctx):
    root = ctx.tmp
    case = dict(case, mean=None, gia=None, remove=[], redist=False, love=None, ref=None,
        rad=None)
    g = grc.prepare(case, root)
    if g is None:
        return
    before = files_of(g.directory)
    args = list(g.grace)
    form = case['form'] or 'netCDF4'
    if case['form']:
        args += ['--mean-format', form]
    if case['where']:
        p = root/case['where']/('mean' + grc.SUF[form])
        args += ['--mean-file', p]
    else:
        p = g.directory/(f"{case['proc']}_{g.rel}_{case['dset']}_MEAN_CLM{g.title}_L{g.lmax}"
            f"{g.order}_{g.start:03d}-{g.end:03d}{grc.SUF[form]}")
    if case['mode']:
        args += ['--mode', case['mode']]
    if case['log']:
        args += ['--log']
    prog.run('grace_mean_harmonics', *arguments(case, str(root), args))
    require(p.exists(), f'{p.name} is not written')
    same(files_of(g.directory), before | ({p.name} if p.parent == g.directory else set()),
        'files of the archive')
    same(stat.S_IMODE(os.stat(p).st_mode), int(case['mode'] or '775', 8), 'permissions')
    logged(case, root, [p])
    C, S = [v.mean(axis=2) for v in g.raw]
    eC, eS = [np.sqrt((v**2).mean(axis=2)) for v in g.error]
    if form == 'gfc':
        rows = [x.split() for x in p.read_text().splitlines() if x.startswith('gfc ')]
        same(sorted((int(x[1]), int(x[2])) for x in rows), sorted((l, m)
            for l in range(g.lmax + 1) for m in range(min(l, g.mmax) + 1)), 'degrees and orders')
        for x in rows:
            l, m = int(x[1]), int(x[2])
            w = [C[l, m], S[l, m], eC[l, m], eS[l, m]]
            close([float(v) for v in x[3:5]], w[:2], f'terms {l} {m}', rtol=1e-12,
                atol=g.slack + 1e-30)
            close([float(v) for v in x[5:7]], w[2:], f'errors {l} {m}', rtol=6e-6)
        h = gravtk.harmonics().from_gfc(p)
    else:
        h = gravtk.harmonics().from_file(p, format=form, date=True)
        close(float(np.squeeze(h.time)), g.time.mean(), 'date', rtol=0,
            atol=1e-4 if form == 'ascii' else 1e-9)
    if form in ('netCDF4', 'HDF5'):
        meta.provenance(meta.attributes(p, form)[1], case, g, 'grace_mean_harmonics', ())
    elif form == 'gfc':
        head = dict(x.split(None, 1) for x in p.read_text().split('end_of_head')[0].splitlines()
            if len(x.split()) == 2)
        for k, w in dict(generating_institute=case['proc'], product_release=g.rel,
                product_name=case['dset'], product_type='gravity_field', max_degree=str(g.lmax),
                max_order=str(g.mmax), errors='uncalibrated', norm='fully_normalized').items():
            same(head.get(k), w, f'header {k}')
        close([float(head[k]) for k in ('earth_gravity_constant', 'radius')],
            [3.986004415e14, 6378136.3], 'constants of the header', rtol=1e-12)
    if form != 'gfc' or g.mmax == g.lmax:
        same([int(h.lmax), int(h.mmax)], [g.lmax, g.mmax], 'limits')
        tri = gen.tri_mask(g.lmax, g.mmax)
        close(h.clm, C*tri, 'cosine terms', rtol=1e-11, atol=1e-22 + g.slack)
        close(h.slm, S*tri, 'sine terms', rtol=1e-11, atol=1e-22 + g.slack)
    ctx.nontrivial(len(g.months) > 1 and g.lmax > 1)
    ctx.label(form, case['proc'], f'n={len(g.months)}')


# ----------------------------------------------------------------- monthly maps
@st.composite
def s_maps(draw):
    c = draw(grc.s_grace())
    c.update(units=draw(st.sampled_from([None, 1, 2, 3, 4, 5])),
        lmin=draw(st.sampled_from([None, 0, 1, 2, 3])), form=draw(st.sampled_from(
            [None] + grc.FORMS)), space=draw(st.sampled_from(SPACE)),
        interval=draw(st.sampled_from([1, 2, 2, 3])), prefix=draw(st.sampled_from(
            [None, None, 'maps_'])))
    return centre(c)


def centre(c):
    """fields in the frame of the centre of mass have no degree one"""
    if (c['ref'] or '').upper() == 'CM' and (c['lmin'] is None or c['lmin'] < 2):
        c['lmin'] = 2
    return c


def options(case, g):
    """arguments shared by the map programs"""
    args = []
    if case['units'] is not None:
        args += ['--units', case['units']]
    if case['lmin'] is not None:
        args += ['--lmin', case['lmin']]
    if case['form']:
        args += ['--format', case['form']]
    if case['prefix']:
        args += ['--file-prefix', case['prefix']]
    return args


@guarded
def b_maps(case, ctx):
    root = ctx.tmp
    g = grc.prepare(case, root)
    if g is None:
        return
    out = root/'out'/'maps'
    form = case['form'] or 'netCDF4'
    lon, lat, args = grc.grid(case, case['space'], case['interval'])
    args = g.grace + g.args + args + options(case, g) + ['--output-directory', out]
    prog.run('grace_spatial_maps', *arguments(case, str(root), args))
    units = grc.UNITS[case['units'] or 1]
    lmin = 1 if case['lmin'] is None else case['lmin']
    pre = case['prefix'] or f"{case['proc']}_{g.rel}_{case['dset']}{g.title}{g.gia}_"
    names = [f'{pre}{units}_L{g.lmax}{g.order}{g.gauss}{g.filter}_{k:03d}{grc.SUF[form]}'
        for k in g.months]
    same(files_of(out), set(names), 'files')
    logged(case, out, names)
    fac = oracle.harmonic_factors(g.lmax, g.love)[units]*g.wt
    for i, f in enumerate(names):
        same(stat.S_IMODE(os.stat(out/f).st_mode), int(case['mode'] or '775', 8), 'permissions')
        want, bound = grc.synth(g.C[:, :, i], g.S[:, :, i], fac, lon, lat, lmin, g.mmax)
        # terms cancel in the differences with a mean
        bound += 1e-4*grc.synth(g.raw[0][:, :, i], g.raw[1][:, :, i], fac, lon, lat, lmin,
            g.mmax)[1]
        check_map(out/f, form, lon, lat, want, bound, g.time[i], g.months[i], f'month {i}')
        if form != 'ascii':
            att, top = meta.attributes(out/f, form)
            meta.provenance(top, case, g, 'grace_spatial_maps')
            same((att['z']['units'], att['z']['long_name']), gravtk.units.get_attributes(units),
                'units')
    ctx.nontrivial(len(g.months) > 1 and g.lmax > 1)
    ctx.label(form, units, 'gia' if g.gia else 'no gia', 'mean' if case['mean'] else 'series',
        f"removed={len(case['remove'])}", g.filter or 'unfiltered')


def check_map(path, form, lon, lat, want, bound, time, month, what):
    if form == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        require(len(rows) == want.size, f'{what}: {len(rows)} rows')
        got = rows[:, 2].reshape(want.shape)
        close(rows[:, 0].reshape(got.shape), np.tile(lon, (len(lat), 1)), f'{what}: longitudes',
            rtol=0, atol=6e-5)
        close(rows[:, 1].reshape(got.shape), np.tile(lat[:, None], (1, len(lon))),
            f'{what}: latitudes', rtol=0, atol=6e-5)
        close(rows[:, 3], np.full(len(rows), time), f'{what}: time', rtol=0, atol=1.1e-4)
    else:
        s = gravtk.spatial().from_file(path, format=form, date=True)
        got = np.squeeze(s.data)
        close(s.lon, lon, f'{what}: longitudes', rtol=0, atol=1e-9)
        close(s.lat, lat, f'{what}: latitudes', rtol=0, atol=1e-9)
        require(not np.any(s.mask), f'{what}: valid everywhere')
        close(float(np.squeeze(s.time)), time, f'{what}: time', rtol=0, atol=1e-9)
        same(int(np.squeeze(s.month)), int(month), f'{what}: month')
    close(got, want, what, rtol=0, atol=1e-9*bound + (5.1e-5 if form == 'ascii' else 0))


CHECKS = [
    Check('static', s_mean, b_mean, quick=200, thorough=3000,
        rule='more than one month, degree two or more'),
    Check('maps', s_maps, b_maps, quick=200, thorough=3000,
        rule='more than one month, degree two or more'),
]

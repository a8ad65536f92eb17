"""Programs for errors of maps and for scaled maps"""
import os
import stat
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, oracle, prog
from pbt.core import Check, close, require, same
from props.C01 import arguments
from props.F02 import guarded
from props.W01 import centre, logged, files_of, SPACE

ASSUMPTIONS = ['an archive as in F02 with thirteen months or more', 'windows of the smoothed '
    'series determine their terms', 'each row and column of a scaling file has a valid cell']


@st.composite
def s_errors(draw):
    c = draw(grc.s_tens(grc.s_grace(lo=1, hi=6, nmin=13, nmax=19)))
    c.update(units=draw(st.sampled_from([None, 1, 2, 3, 4, 5])),
        lmin=draw(st.sampled_from([None, 0, 1, 2, 3])), form=draw(st.sampled_from(
            [None] + grc.FORMS)), space=draw(st.sampled_from(SPACE)),
        interval=draw(st.sampled_from([1, 2, 2, 3])), prefix=draw(st.sampled_from(
            [None, None, 'maps_'])), again=draw(st.booleans()))
    return centre(c)


def delta_name(case, g, form):
    return (f"{case['proc']}_{g.rel}_{case['dset']}_DELTA_CLM_L{g.lmax}{g.order}{g.filter}"
        f"{g.atm}_{g.months[0]:03d}-{g.months[-1]:03d}{grc.SUF[form]}")


def run_twice(case, g, program, args, out):
    """outputs of the program, with the errors of the coefficients computed and then read"""
    prog.run(program, *args)
    first = {f: (out/f).read_bytes() for f in files_of(out)}
    if case['again']:
        for f in list(out.iterdir()):
            f.unlink()
        prog.run(program, *args)
        same(files_of(out), set(first), 'files of the second run')
    return set(first)


def check_delta(case, g, form, dC, dS, n):
    p = g.directory/delta_name(case, g, form)
    require(p.exists(), f'{p.name} is not written')
    h = gravtk.harmonics().from_file(p, format=form)
    tri = gen.tri_mask(g.lmax, g.mmax)
    size = max(np.abs(g.base[0]).max(), np.abs(g.base[1]).max())
    raw = max(np.abs(g.raw[0]).max(axis=2).max(), 1e-9)
    # noise of constant terms is that of their rounding
    lim = np.maximum(1e-6*np.maximum(np.abs(g.base[0]).max(axis=2),
        np.abs(g.base[1]).max(axis=2)), 1e-14*np.abs(g.raw[0]).max(axis=2))
    require(np.all(np.abs(h.clm - dC*tri) <= lim + 1e-22), 'errors of the cosine terms')
    require(np.all(np.abs(h.slm - dS*tri) <= lim + 1e-22), 'errors of the sine terms')
    if form != 'ascii':
        same(int(np.squeeze(h.month)), n, 'number of smoothed points')
    close(float(np.squeeze(h.time)), g.time[g.half:-g.half].mean(), 'mean time', rtol=0,
        atol=1e-4 if form == 'ascii' else 1e-9)
    same(stat.S_IMODE(os.stat(p).st_mode), int(case['mode'] or '775', 8), 'permissions')
    return lim


@guarded
def b_errors(case, ctx):
    root = ctx.tmp
    case = dict(case, gia=None, remove=[], redist=False)
    g = grc.prepare(case, root)
    ref = grc.delta(g)
    if ref is None:
        ctx.label('windows not estimable')
        return
    dC, dS, n = ref
    out = root/'out'
    form = case['form'] or 'netCDF4'
    lon, lat, more = grc.grid(case, case['space'], case['interval'])
    args = g.grace + g.args + more + ['--output-directory', out]
    for k, v in (('units', case['units']), ('lmin', case['lmin']), ('format', case['form']),
            ('file-prefix', case['prefix'])):
        if v is not None:
            args += ['--' + k, v]
    before = files_of(g.directory)
    found = run_twice(case, g, 'grace_spatial_error', arguments(case, str(root), args), out)
    same(files_of(g.directory), before | {delta_name(case, g, form)}, 'files of the archive')
    lim = check_delta(case, g, form, dC, dS, n)
    units = grc.UNITS[case['units'] or 1]
    lmin = 1 if case['lmin'] is None else case['lmin']
    pre = case['prefix'] or f"{case['proc']}_{g.rel}_{case['dset']}{g.title}_"
    name = (f'{pre}{units}_L{g.lmax}{g.order}{g.gauss}{g.filter}_ERR_{g.months[0]:03d}-'
        f'{g.months[-1]:03d}{grc.SUF[form]}')
    same(found, {name}, 'files')
    logged(case, out, [name] + ([] if case['again'] else [delta_name(case, g, form)]))
    same(stat.S_IMODE(os.stat(out/name).st_mode), int(case['mode'] or '775', 8), 'permissions')
    fac = oracle.harmonic_factors(g.lmax, g.love)[units]*g.wt
    want = grc.error_map(dC, dS, n, fac, lon, lat, lmin, g.mmax)
    slack = grc.error_map(lim, lim, n, fac, lon, lat, lmin, g.mmax)
    got, at = read(out/name, form, lon, lat)
    if form != 'ascii':
        att, top = meta.attributes(out/name, form)
        meta.provenance(top, case, g, 'grace_spatial_error', ('mean', 'filter', 'rad', 'love'))
        same((att['z']['units'], att['z']['long_name']), gravtk.units.get_attributes(units),
            'units')
    require(np.all(np.abs(got - want) <= 2*slack + 1e-7*want + 1e-12*want.max() + at), lambda:
        f'error map {got.ravel()[:3]} not {want.ravel()[:3]}')
    ctx.nontrivial(g.lmax > 1)
    ctx.label(form, units, 'again' if case['again'] else 'once', g.filter or 'unfiltered')


def read(path, form, lon, lat, time=False):
    """values on the expected grid (nan where invalid)"""
    if form == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        i = np.argmin(np.abs(rows[:, 1][:, None] - lat[None, :]), axis=1)
        d = rows[:, 0][:, None] - lon[None, :]
        # longitudes of both ends of the circle are kept apart
        j = np.argmin(np.abs(d), axis=1)
        close(rows[:, 0], lon[j], f'{path.name}: longitudes', rtol=0, atol=6e-5)
        close(rows[:, 1], lat[i], f'{path.name}: latitudes', rtol=0, atol=6e-5)
        got = np.full((len(lat), len(lon)), np.nan)
        same(len(set(zip(i, j))), len(rows), f'{path.name}: cells')
        got[i, j] = rows[:, 2]
        return got, 5.1e-5
    s = gravtk.spatial().from_file(path, format=form, date=False)
    close(s.lon, lon, f'{path.name}: longitudes', rtol=0, atol=1e-9)
    close(s.lat, lat, f'{path.name}: latitudes', rtol=0, atol=1e-9)
    got = np.squeeze(np.where(s.mask, np.nan, s.data))
    return got, 0.0


# ----------------------------------------------------------------- scaled maps
@st.composite
def s_scaled(draw):
    c = draw(grc.s_tens(grc.s_grace(lo=1, hi=6, nmin=13, nmax=17)))
    c.update(lmin=draw(st.sampled_from([None, 0, 1, 2, 3])), form=draw(st.sampled_from(
        [None] + grc.FORMS)), space=draw(st.sampled_from(SPACE)),
        interval=draw(st.sampled_from([1, 2, 2])), prefix=draw(st.sampled_from(
            [None, None, 'maps_'])), again=draw(st.booleans()), holes=draw(st.integers(0, 2)),
        calm=draw(st.integers(0, 2)) == 0)
    return centre(c)


def scaling(case, path, form, lon, lat):
    """scaling factors with errors and magnitudes"""
    r = gen.rng(case['seed'], 71)
    shape = (len(lat), len(lon))
    k, e, m = [np.round(a + b*r.random(shape), 4) for a, b in ((0.3, 2), (0.01, 0.5), (1, 9))]
    if case['calm']:
        # cells without a magnitude have no errors
        m[r.random(shape) < 0.2] = 0
        k[(r.random(shape) < 0.5) & (m == 0)] = 0
    mask = np.zeros(shape, dtype=bool)
    if case['holes']:
        mask = r.random(shape) < 0.2*case['holes']
        # rows and columns keep a valid cell
        d = np.arange(max(shape))
        mask[d % shape[0], d % shape[1]] = False
    v = dict(kfactor=k, error=e, power=m)
    if form == 'ascii':
        with open(path, 'w') as f:
            for i, j in r.permutation(np.argwhere(~mask)):
                f.write(f'{lon[j]:10.4f} {lat[i]:10.4f} {k[i, j]:12.4f} {e[i, j]:12.4f} '
                    f'{m[i, j]:12.4f}\n')
    elif form == 'netCDF4':
        with netCDF4.Dataset(path, 'w') as f:
            f.createDimension('lon', len(lon))
            f.createDimension('lat', len(lat))
            for n, x in (('lon', lon), ('lat', lat)):
                f.createVariable(n, 'f8', (n,))[:] = x
            for n, x in v.items():
                f.createVariable(n, 'f8', ('lat', 'lon'), fill_value=-9999.0)[:] = \
                    np.where(mask, -9999.0, x)
    else:
        with h5py.File(path, 'w') as f:
            f['lon'], f['lat'] = lon, lat
            for n, x in v.items():
                f[n] = np.where(mask, -9999.0, x)
                f[n].attrs['_FillValue'] = -9999.0
    return k, e, m, mask


@guarded
def b_scaled(case, ctx):
    root = ctx.tmp
    g = grc.prepare(case, root)
    ref = grc.delta(g)
    if ref is None:
        ctx.label('windows not estimable')
        return
    dC, dS, n = ref
    out = root/'out'
    form = case['form'] or 'netCDF4'
    lon, lat, more = grc.grid(case, case['space'], case['interval'])
    k, e, mag, mask = scaling(case, root/('scale' + grc.SUF[form]), form, lon, lat)
    args = g.grace + g.args + more + ['--output-directory', out, '--scale-file',
        root/('scale' + grc.SUF[form])]
    for key, v in (('lmin', case['lmin']), ('format', case['form']),
            ('file-prefix', case['prefix'])):
        if v is not None:
            args += ['--' + key, v]
    found = run_twice(case, g, 'scale_grace_maps', arguments(case, str(root), args), out)
    lim = check_delta(case, g, form, dC, dS, n)
    lmin = 1 if case['lmin'] is None else case['lmin']
    pre = case['prefix'] or f"{case['proc']}_{g.rel}_{case['dset']}{g.title}{g.gia}_"
    name = lambda flag: (f'{pre}{flag}cmwe_L{g.lmax}{g.order}{g.gauss}{g.filter}_'
        f'{g.months[0]:03d}-{g.months[-1]:03d}{grc.SUF[form]}')
    names = [name(f) for f in ('', 'ERROR_', 'DELTA_')]
    same(found, set(names), 'files')
    logged(case, out, names)
    for f in names:
        same(stat.S_IMODE(os.stat(out/f).st_mode), int(case['mode'] or '775', 8), 'permissions')
        if form != 'ascii':
            att, top = meta.attributes(out/f, form)
            same((att['z']['units'], att['z']['long_name']),
                gravtk.units.get_attributes('cmwe'), f'{f}: units')
            same((top.get('title'), top.get('reference')), (
                'GRACE/GRACE-FO ' + {'ERROR': 'Scaling Error', 'DELTA': 'Spatial Error'}.get(
                f[len(pre):][:5], 'Spatial Data'), 'Output from scale_grace_maps.py'),
                f'{f}: title and reference')
    fac = oracle.harmonic_factors(g.lmax, g.love)['cmwe']*g.wt
    N = len(g.months)
    want = np.zeros((len(lat), len(lon), N))
    bound = np.zeros(N)
    for i in range(N):
        want[:, :, i], bound[i] = grc.synth(g.C[:, :, i], g.S[:, :, i], fac, lon, lat, lmin,
            g.mmax)
        bound[i] += 1e-4*grc.synth(g.raw[0][:, :, i], g.raw[1][:, :, i], fac, lon, lat, lmin,
            g.mmax)[1]
    want *= k[:, :, None]
    want[mask] = np.nan
    series(out/names[0], form, lon, lat, want, bound*k.max(), g)
    # leakage
    got, at = read(out/names[1], form, lon, lat)
    ratio = np.divide(e, mag, out=np.zeros_like(e), where=mag > 0)
    w = ratio*np.sqrt((want**2).sum(axis=2))
    close(got, w, 'scaling errors', rtol=1e-8, atol=1e-8*bound.max()*(k*ratio).max() + at)
    # errors of the coefficients
    if form == 'ascii':
        rows = np.loadtxt(out/names[2], ndmin=2)
        close(rows[:, 3], np.full(len(rows), g.time[g.half:-g.half].mean()), 'mean time', rtol=0,
            atol=1.1e-4)
    else:
        s = gravtk.spatial().from_file(out/names[2], format=form, date=True)
        close(float(np.squeeze(s.time)), g.time[g.half:-g.half].mean(), 'mean time', rtol=0,
            atol=1e-4)
    got, at = read(out/names[2], form, lon, lat)
    w = k*grc.error_map(dC, dS, n, fac, lon, lat, lmin, g.mmax)
    slack = k*grc.error_map(lim, lim, n, fac, lon, lat, lmin, g.mmax)
    same(np.isnan(got), mask, 'invalid cells')
    ok = ~mask
    require(np.all((np.abs(got - w) <= 2*slack + 1e-7*w + 1e-12*w.max() + at)[ok]), lambda:
        f"errors {got[ok][:3]} not {w[ok][:3]}")
    ctx.nontrivial(g.lmax > 1)
    ctx.label(form, 'again' if case['again'] else 'once', f"removed={len(case['remove'])}",
        g.filter or 'unfiltered', 'gia' if g.gia else 'no gia')


def series(path, form, lon, lat, want, bound, g):
    N = len(g.months)
    if form == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        same(len(rows), int(np.isfinite(want).sum()), 'number of values')
        i = np.argmin(np.abs(rows[:, 1][:, None] - lat[None, :]), axis=1)
        j = np.argmin(np.abs(rows[:, 0][:, None] - lon[None, :]), axis=1)
        t = np.argmin(np.abs(rows[:, 3][:, None] - g.time[None, :]), axis=1)
        close(rows[:, 3], g.time[t], 'times', rtol=0, atol=1.1e-4)
        same(len(set(zip(i, j, t))), len(rows), 'cells and times')
        w = want[i, j, t]
        require(np.all(np.abs(rows[:, 2] - w) <= 1e-9*bound[t] + 5.1e-5), lambda:
            f'scaled map {rows[:3, 2]} not {w[:3]}')
        return
    s = gravtk.spatial().from_file(path, format=form, date=True)
    close(s.lon, lon, 'longitudes', rtol=0, atol=1e-9)
    close(s.lat, lat, 'latitudes', rtol=0, atol=1e-9)
    close(np.atleast_1d(s.time), g.time, 'times', rtol=0, atol=1e-9)
    if g.half == 6:
        # the reader numbers calendar months
        same(np.atleast_1d(s.month), np.array(g.months), 'months')
    got = np.where(s.mask, np.nan, s.data)
    same(np.isnan(got), np.isnan(want), 'invalid cells')
    for i in range(N):
        close(got[:, :, i], want[:, :, i], f'scaled map {i}', rtol=0, atol=1e-9*bound[i])


CHECKS = [
    Check('errors', s_errors, b_errors, quick=120, thorough=1500, rule='degree two or more'),
    Check('scaled', s_scaled, b_scaled, quick=120, thorough=1500, rule='degree two or more'),
]

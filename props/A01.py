"""Programs of the atmospheric and oceanic dealiasing product"""
import re
import datetime
import gzip
import os
import pathlib
import stat
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import aod, gen, l2, meta, oracle, prog
from pbt.core import Check, close, require, same
from props.C01 import arguments

ASSUMPTIONS = ['archives hold one file per day with all times of the release',
    'degree limits inside of the release', 'spatial fields are of complete months']
RELEASES = ['RL05', 'RL05', 'RL05', 'RL04', 'RL01', 'RL02', 'RL03', 'RL05', 'RL06']
# mean radius in millimetres
R0 = 1000.0*6378137.0*(1.0 - 1.0/298.257223563)**(1.0/3.0)
START = [datetime.date(2002, 4, 1), datetime.date(2003, 12, 28), datetime.date(2004, 2, 26),
    datetime.date(2008, 12, 30), datetime.date(2012, 12, 30), datetime.date(2018, 6, 1),
    datetime.date(2019, 2, 26), datetime.date(2017, 6, 28), datetime.date(2015, 12, 31),
    datetime.date(2000, 2, 27), datetime.date(2017, 6, 10), datetime.date(2017, 7, 2)]
# months that cross the end of a year
CROSS = [datetime.date(y, 12, 29) for y in (2004, 2004, 2008, 2008, 2015)]


@st.composite
def kinds(draw):
    return draw(st.permutations(aod.TYPES))[:draw(st.integers(1, 4))]


@st.composite
def s_series(draw):
    which = draw(st.sampled_from(['geocenter', 'oblateness']))
    have = draw(kinds())
    rel = draw(st.sampled_from(RELEASES))
    return dict(seed=draw(gen.seeds), which=which, rel=rel,
        have=have, use=have[:draw(st.integers(1, 2))],
        months=draw(st.lists(st.tuples(st.integers(2001, 2020), st.integers(1, 12)),
            min_size=1, max_size=1 if rel == 'RL06' else 2, unique=True)),
        days=draw(st.lists(st.integers(1, 28), min_size=1, max_size=1 if rel == 'RL06' else 3,
            unique=True)), comp=draw(st.booleans()),
        suf=draw(st.sampled_from(['tar.gz', 'tgz'])), again=draw(st.sampled_from(
            ['none', 'older', 'same', 'newer', 'clobber'])),
        shift=draw(st.sampled_from([1, 2, 10, 86400])), argfile=draw(st.booleans()),
        mode=draw(st.sampled_from([None, '640', '775'])), junk=draw(st.booleans()))


def series(case, y, m, seed, kind):
    """lines of the output file of a month"""
    out = []
    for d in case['days']:
        for h in aod.shape(case['rel'])[1]:
            C, S = aod.low(seed, datetime.date(y, m, d).toordinal(), h, kind)
            v = [R0*np.sqrt(3.0)*x for x in (C[1, 1], S[1, 1], C[1, 0])] \
                if case['which'] == 'geocenter' else [C[2, 0]]
            out.append((f'{y:4d}-{m:02d}-{d:02d}T{h:02d}:00:00', v))
    return out


def b_series(case, ctx):
    root = ctx.tmp
    rel, which = case['rel'], case['which']
    d = root/'AOD1B'/rel
    d.mkdir(parents=True)
    now = 1.5e9

    def put(seed, mtime):
        for y, m in case['months']:
            p = d/f'AOD1B_{y:4d}-{m:02d}_05.{case["suf"]}'
            aod.archive(p, seed, [datetime.date(y, m, k) for k in case['days']],
                case['have'], rel, case['comp'], mtime)
            os.utime(p, (mtime, mtime))
    put(case['seed'], now)
    if case['junk']:
        (d/'README.txt').write_text('text\n')
        (d/'AOD1B_2002-04_05.tar.gz.md5').write_text('text\n')
    args = ['--directory', root, '--release', rel, '--product', *case['use']]
    if case['mode']:
        args += ['--mode', case['mode']]

    def check(seed, what):
        out = d/which
        want = {f'AOD1B_{rel}_{k}_{y:4d}_{m:02d}.txt' for k in case['use']
            for y, m in case['months']}
        same({f.name for f in out.iterdir()}, want, f'{what}: files')
        for k in case['use']:
            for y, m in case['months']:
                p = out/f'AOD1B_{rel}_{k}_{y:4d}_{m:02d}.txt'
                lines = p.read_text().splitlines()
                head = [x for x in lines if x.startswith('#')]
                body = [x.split() for x in lines if not x.startswith('#')]
                require(len(head) == 3 and lines[:3] == head, f'{what}: header')
                w = series(case, y, m, seed, k)
                same([x[0] for x in body], [x[0] for x in w], f'{what}: times')
                close([[float(q) for q in x[1:]] for x in body], [x[1] for x in w],
                    f'{what}: values', rtol=1e-12 if which == 'geocenter' else 0,
                    atol=1e-8 if which == 'geocenter' else 1e-18)
                mode = int(case['mode'] or '775', 8)
                same(stat.S_IMODE(p.stat().st_mode), mode, 'permissions')
    name = 'aod1b_' + which
    prog.run(name, *arguments(case, str(root), args))
    check(case['seed'], 'new')
    # monthly mean of the geocenter variations
    if which == 'geocenter':
        for k in case['use']:
            for y, m in case['months']:
                g = gravtk.geocenter()
                g.directory = d/which
                t = g.from_AOD1B(rel, y, m, product=k)
                w = [x[1] for x in series(case, y, m, case['seed'], k)]
                fac = R0*np.sqrt(3.0)
                for f, j in (('C11', 0), ('S11', 1), ('C10', 2)):
                    close(getattr(t, f)*fac, [x[j] for x in w], f'read back: {f}', rtol=3e-7,
                        atol=2e-8)
    # files are only written again if their contents are newer
    other = case['seed'] + 1
    if case['again'] != 'none':
        put(other, now)
        for f in (d/which).iterdir():
            k = case['shift']
            shift = {'older': k, 'same': 0, 'newer': -k, 'clobber': k}[case['again']]
            os.utime(f, (now + shift, now + shift))
        prog.run(name, *arguments(case, str(root), args + (['--clobber']
            if case['again'] == 'clobber' else [])))
        check(case['seed'] if case['again'] in ('older', 'same') else other, case['again'])
    ctx.nontrivial(len(case['days']) > 1 or rel == 'RL06')
    ctx.label(which, rel, case['again'])


# ----------------------------------------------------------------- monthly means
@st.composite
def s_mean(draw):
    have = draw(kinds())
    rel = draw(st.sampled_from(RELEASES))
    spans = []
    a = draw(st.sampled_from(START + START[-2:] + CROSS)) + datetime.timedelta(draw(st.integers(0, 3)))
    for i in range(draw(st.sampled_from([1, 2, 2, 3])) if rel != 'RL06' else 1):
        n = draw(st.sampled_from([1, 2, 2, 3])) if rel != 'RL06' else 1
        spans.append([a.isoformat(), n])
        a += datetime.timedelta(n + draw(st.sampled_from([0, 0, 1, 30])))
    form = draw(st.sampled_from(['ascii', 'netCDF4', 'HDF5', 'SHM', 'SHM']))
    return dict(seed=draw(gen.seeds), rel=rel, have=have, use=have[:draw(st.sampled_from([1, 1, 2]))],
        spans=spans, proc=draw(st.sampled_from(['CSR', 'GFZ', 'JPL', 'COSTG'])),
        lmax=draw(st.one_of(st.integers(1, 12), st.sampled_from([60, 100]))), form=form,
        lost=draw(st.sampled_from([None, None, 0, 1, 2, 3])), comp=draw(st.booleans()),
        suf=draw(st.sampled_from(['tar.gz', 'tgz'])),
        again=draw(st.sampled_from(['none', 'older', 'same', 'newer', 'newer', 'clobber', 'none'])),
        shift=draw(st.sampled_from([1, 2, 10, 86400])), part=draw(st.integers(0, 2)) > 0,
        old=draw(st.sampled_from([0, 0, 1, 3, 4, 5])),
        first=draw(st.integers(4, 230)), reverse=draw(st.booleans()),
        argfile=draw(st.booleans()), mode=draw(st.sampled_from([None, '640', '775'])))


def grace_month(t):
    return 12*(t.year - 2002) + t.month


def b_mean(case, ctx):
    root = ctx.tmp
    rel, proc, form = case['rel'], case['proc'], case['form']
    d = root/'AOD1B'/rel
    d.mkdir(parents=True)
    g = root/proc/rel/'GSM'
    g.mkdir(parents=True)
    spans = []
    for a, n in case['spans']:
        a = datetime.date.fromisoformat(a)
        spans.append((a, a + datetime.timedelta(n - 1)))
    months = []
    for a, b in spans:
        k = grace_month(a + (b - a)/2)
        months.append(max([k] + [x + 1 for x in months]))
    days = sorted({x for a, b in spans for x in aod.span(a, (b - a).days + 1)})
    lost = days[case['lost'] % len(days)] if case['lost'] is not None else None
    have = [x for x in days if x != lost]
    now = 1.5e9

    def put(seed, mtime, day=None):
        for (y, m), v in aod.months_of(have).items():
            aod.archive(d/f'AOD1B_{y:4d}-{m:02d}_05.{case["suf"]}', seed,
                v[::-1] if case['reverse'] else v, case['have'], rel, case['comp'],
                lambda x: mtime + (case['shift'] if x == day else 0))
    put(case['seed'], now)
    rows = []
    for k, (a, b) in zip(months, spans):
        rows.append(f'{l2.mid_year(a, b):13.8f} {k:03d} {a.year:8d} {l2.doy(a):03d} '
            f'{b.year:8d} {l2.doy(b):03d} {(b - a).days + 1:8d}')
    head = 'Mid-date      Month   Start_Day    End_Day    Total_Days\n'
    (g/f'{proc}_{rel}_DATES.txt').write_text(head + '\n'.join(rows) + '\n')
    full = [i for i, (a, b) in enumerate(spans) if lost is None or not a <= lost <= b]
    lmax = case['lmax']
    sets = [aod.GRACE[k] for k in case['use']]
    if len(rows) == 1:
        ctx.label('one month')
    args = ['--directory', root, '--center', proc, '--release', rel, '--product', *sets,
        '--lmax', lmax, '--format', form]
    if case['mode']:
        args += ['--mode', case['mode']]
    centre = dict(CSR='UTCSR', JPL='JPLEM').get(proc, 'GFZOP' if rel == 'RL06' else 'EIGEN')
    names = []
    for i in range(len(spans)):
        a, b = spans[i]
        mis = 'GRAC' if months[i] <= 186 else 'GRFO'
        names.append((lambda s, k=months[i], t=f'-2_{a.year}{l2.doy(a):03d}-{b.year}'
            f'{l2.doy(b):03d}_{mis}_{centre}_BC01_{rel[2:]}00.gz': s + t) if form == 'SHM'
            else (lambda s, k=months[i]: f'{proc}_{rel}_{s}_CLM_L{lmax:d}_{k:03d}.'
            + dict(ascii='txt', netCDF4='nc', HDF5='H5')[form]))

    def check(seed0, what, new=None):
        for kind, s in zip(case['use'], sets):
            out = root/proc/rel/s
            extra = ['index.txt'] if form == 'SHM' else []
            files = [names[i](s) for i in full]
            same({f.name for f in out.iterdir()}, {f'{proc}_{rel}_DATES.txt', *files, *extra,
                *older(s)}, f'{what}: files')
            if form == 'SHM':
                same((out/'index.txt').read_text().split(), sorted([*files, *older(s)]),
                    f'{what}: index')
            lines = (out/f'{proc}_{rel}_DATES.txt').read_text().splitlines()
            same([x.split()[1:] for x in lines[1:]], [rows[i].split()[1:] for i in full],
                f'{what}: list of dates')
            close([float(x.split()[0]) for x in lines[1:]], [float(rows[i].split()[0])
                for i in full], f'{what}: dates', rtol=0, atol=1.3e-4)
            for i in full:
                a, b = spans[i]
                p = out/names[i](s)
                seed = seed0 + (new is not None and a <= new <= b)
                C, S, t = [], [], []
                for x in aod.span(a, (b - a).days + 1):
                    for h in aod.shape(rel)[1]:
                        c, q = aod.fields(seed, x, h, kind, rel)
                        C.append(c[:lmax + 1, :lmax + 1])
                        S.append(q[:lmax + 1, :lmax + 1])
                        t.append(oracle.decimal_year(x.year, x.month, x.day, h))
                C, S = np.mean(C, axis=0), np.mean(S, axis=0)
                if form == 'SHM':
                    r = gravtk.read_GRACE_harmonics(p, lmax)
                    gc, gs = r['clm'], r['slm']
                    close(r['time'], l2.mid_year(a, b), f'{what}: date', rtol=1e-12)
                    header(p, r['header'], lmax, months[i], s, proc, rel, a, b)
                else:
                    r = gravtk.harmonics().from_file(p, format=form)
                    same([int(r.lmax), int(r.mmax)], [lmax, lmax], f'{what}: limits')
                    gc, gs = r.clm, r.slm
                    close(float(np.squeeze(r.time)), np.mean(t), f'{what}: date', rtol=0,
                        atol=1e-4 if form == 'ascii' else 1e-9)
                    if form != 'ascii':
                        same(int(np.squeeze(r.month)), months[i], f'{what}: month')
                close(gc, C, f'{what}: cosine terms', rtol=1e-12, atol=1e-23)
                close(gs, S, f'{what}: sine terms', rtol=1e-12, atol=1e-23)
                same(stat.S_IMODE(p.stat().st_mode), int(case['mode'] or '775', 8),
                    'permissions')
    def older(s):
        """files of months of an earlier list of dates"""
        return [f'{s}-2_2001{k + 1:03d}-2001{k + 30:03d}_GRAC_{centre}_BC01_{rel[2:]}00.gz'
            for k in range(case['old'])] if form == 'SHM' else []
    for s in sets:
        for f in older(s):
            (root/proc/rel/s).mkdir(parents=True, exist_ok=True)
            (root/proc/rel/s/f).write_bytes(b'')
    prog.run('dealiasing_monthly_mean', *arguments(case, str(root), args))
    check(case['seed'], 'new')
    if case['again'] != 'none':
        k = case['shift']
        shift = {'older': k, 'same': 0, 'newer': -k, 'clobber': k}[case['again']]
        one = case['again'] == 'newer' and case['part'] and full
        if one:
            # only a day of the archive is newer
            new = have[case['seed'] % len(have)]
            put(case['seed'] + 1, now, new)
            shift = 0
        else:
            put(case['seed'] + 1, now)
        for s in sets:
            for f in (root/proc/rel/s).iterdir():
                os.utime(f, (now + shift, now + shift))
        prog.run('dealiasing_monthly_mean', *arguments(case, str(root), args +
            (['--clobber'] if case['again'] == 'clobber' else [])))
        if one:
            check(case['seed'], 'one newer day', new)
            ctx.label('one newer day')
        else:
            check(case['seed'] + (case['again'] not in ('older', 'same')), case['again'])
    ctx.nontrivial(bool(full))
    ctx.label(form, rel, case['again'], 'incomplete' if lost else 'complete')


def header(path, head, lmax, month, dset, proc, rel, a, b):
    """description of a file of spherical harmonics"""
    same([int(head['dimensions'][k]) for k in ('degree', 'order')], [lmax, lmax],
        'header: limits')
    q, g = head['non-standard_attributes'], head['global_attributes']
    same(q['product_id'], f'{dset}-2', 'header: product')
    same([float(q[k]['value']) for k in ('earth_gravity_param', 'mean_equator_radius')],
        [3.986004418e14, 6378136.6], 'header: constants')
    mission = 'GRACE' if month <= 186 else 'GRACE-FO'
    same(g['title'], f'{mission} Geopotential {dset} Coefficients {proc} {rel}', 'header: title')
    same('Follow-On' in g['project'], month > 186, 'header: mission')
    same(('NASA (USA) and DLR (Germany)' in g['acknowledgement']), month <= 186,
        'header: acknowledgement')
    same(g['institution'], dict(CSR='UT-AUSTIN/CSR', JPL='NASA/JPL').get(proc,
        'GFZ German Research Centre for Geosciences'), 'header: institution')
    same(g['source'], f'All data from AOD1B {rel}', 'header: source')
    same(g['product_version'], f'Release-{rel[2:]}', 'header: version')
    same([str(g[f'time_coverage_{k}']) for k in ('start', 'end')], [a.isoformat(),
        b.isoformat()], 'header: time')
    v = head['variables']
    columns = ['record_key', 'degree_index', 'order_index', 'clm', 'slm', 'clm_std_dev',
        'slm_std_dev', 'epoch_begin_time', 'epoch_stop_time', 'solution_flags']
    same(list(v), columns, 'header: variables')
    same([int(re.match(r'\d+', v[k]['comment']).group()) for k in columns],
        list(range(1, 11)), 'header: columns')
    with gzip.open(path, 'rt') as f:
        rows = [x.split() for x in f if x.startswith('GRCOF2')]
    same([(int(x[1]), int(x[2])) for x in rows], [(l, m) for m in range(lmax + 1)
        for l in range(m, lmax + 1)], 'degrees and orders')
    same({tuple(x[7:]) for x in rows}, {(f'{a:%Y%m%d}.0000', f'{b:%Y%m%d}.0000', 'nnnn')},
        'dates of the terms')
    same({(float(x[5]), float(x[6])) for x in rows}, {(0.0, 0.0)}, 'errors')


# ----------------------------------------------------------------- elastic uplift
@st.composite
def s_uplift(draw):
    return dict(seed=draw(gen.seeds), rel='RL05', year=draw(st.sampled_from([2003, 2004, 2007])),
        month=draw(st.sampled_from([2, 2, 4, 12])), kind=draw(st.sampled_from(aod.TYPES)),
        love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        ref=draw(st.sampled_from([None, 'CF', 'CM', 'CE'])),
        form=draw(st.sampled_from(['netCDF4', 'HDF5'])), interval=draw(st.sampled_from([3, 1, 2, 3])),
        comp=draw(st.booleans()), shuffle=draw(st.booleans()), argfile=draw(st.booleans()),
        only=draw(st.booleans()), spacing=draw(st.sampled_from([[45, 30], [30, 45], [30, 45], [45]])),
        again=draw(st.sampled_from([None, None, 'older', 'same', 'newer'])),
        shift=draw(st.sampled_from([1, 10, 86400])))


def b_uplift(case, ctx):
    root = ctx.tmp
    rel = case['rel']
    d = root/'AOD1B'/rel
    d.mkdir(parents=True)
    y, m = case['year'], case['month']
    n = oracle.month_lengths(y)[m - 1]
    dates = aod.span(datetime.date(y, m, 1), n)
    order = gen.rng(case['seed'], 3).permutation(n) if case['shuffle'] else range(n)

    def put(seed):
        p = d/f'AOD1B_{y:4d}-{m:02d}_05.tar.gz'
        aod.archive(p, seed, [dates[i] for i in order], [case['kind']], rel, case['comp'], 1.5e9)
        os.utime(p, (1.5e9, 1.5e9))
    put(case['seed'])
    dlon, dlat = case['spacing'][0], case['spacing'][-1]
    args = ['--directory', root, '--output-directory', root/'out', '--release', rel,
        '--product', case['kind'], '--spacing', *case['spacing'], '--interval', case['interval'],
        '--format', case['form']]
    if case['only']:
        (d/'AOD1B_1999-01_05.tar.gz').write_bytes(b'not an archive')
        args += ['--year', y, 1998]
    if case['love'] is not None:
        args += ['--love', case['love']]
    if case['ref']:
        args += ['--reference', case['ref']]
    if case['interval'] == 1:
        lon, lat = dlon*np.arange(360//dlon + 1), 90 - dlat*np.arange(180//dlat + 1)
    elif case['interval'] == 2:
        lon = dlon/2 + dlon*np.arange(360//dlon)
        lat = 90 - dlat/2 - dlat*np.arange(180//dlat)
    else:
        args += ['--bounds', 20, 20 + 3*dlon, 70 - 2*dlat, 70]
        lon, lat = 20 + dlon/2 + dlon*np.arange(3), 70 - dlat/2 - dlat*np.arange(2)
    prog.run('dealiasing_global_uplift', *arguments(case, str(root), args))
    seed = case['seed']
    if case['again']:
        # written again exactly if the archive is newer
        old = next((root/'out').iterdir())
        k = {'older': case['shift'], 'same': 0, 'newer': -case['shift']}[case['again']]
        put(seed + 1)
        os.utime(old, (1.5e9 + k, 1.5e9 + k))
        prog.run('dealiasing_global_uplift', *arguments(case, str(root), args))
        seed += case['again'] == 'newer'
    suf = dict(netCDF4='nc', HDF5='H5')[case['form']]
    p = root/'out'/f'AOD1B_{rel}_{case["kind"]}_mmCU_{y:4d}_{m:02d}.{suf}'
    same([f.name for f in (root/'out').iterdir()], [p.name], 'files')
    with (netCDF4.Dataset(p) if suf == 'nc' else h5py.File(p)) as f:
        v = {k: np.array(f[k][:]) for k in ('lon', 'lat', 'z', 'time')}
        a = f['time'].units if suf == 'nc' else f['time'].attrs['units']
    att, top = meta.attributes(p, case['form'])
    same((att['z']['units'], att['z']['long_name']), gravtk.units.get_attributes('mmCU'),
        'units of the field')
    meta.compare(att, dict(lon=dict(long_name='longitude', units='degrees_east'),
        lat=dict(long_name='latitude', units='degrees_north'), time=dict(long_name='time',
        standard_name='time', calendar='standard', units=str(a.decode() if
        isinstance(a, bytes) else a))), 'uplift')
    meta.check(top, dict(meta.earth(aod.shape(rel)[0], case['love'], case['ref']),
        max_degree=str(aod.shape(rel)[0]), project_version=rel, product_name=case['kind'],
        title=dict(atm='Atmospheric loading from ECMWF', ocn='Oceanic loading from OMCT',
        glo='Global atmospheric and oceanic loading', oba='Ocean bottom pressure from OMCT')[
        case['kind']],
        product_type='gravity_field', reference='Output from dealiasing_global_uplift.py'),
        'uplift')
    a = a.decode() if isinstance(a, bytes) else str(a)
    same(a, f'hours since {y:4d}-{m:02d}-01T00:00:00', 'units of the times')
    close(v['lon'], lon, 'longitudes', rtol=0, atol=1e-9)
    close(v['lat'], lat, 'latitudes', rtol=0, atol=1e-9)
    hours = aod.shape(rel)[1]
    same(v['time'].astype(int), np.array([24*i + h for i in range(n) for h in hours]), 'times')
    lmax = aod.shape(rel)[0]
    love = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=case['love'] or 0,
        REFERENCE=case['ref'] or 'CF')
    fac = oracle.harmonic_factors(lmax, love)['mmCU']
    same(v['z'].shape, (len(lat), len(lon), n*4), 'shape')
    r = gen.rng(case['seed'], 4)
    for i in sorted(r.choice(n*4, 12, replace=False)):
        C, S = aod.fields(seed, dates[i//4], hours[i % 4], case['kind'], rel)
        C, S = C*fac[:, None], S*fac[:, None]
        close(v['z'][:, :, i], oracle.synth(C, S, lon, lat).T, f'field {i}', rtol=0,
            atol=1e-9*oracle.basis_bound(C, S))
    ctx.nontrivial()
    ctx.label(case['form'], f"interval={case['interval']}", f'{n} days')


CHECKS = [
    Check('series', s_series, b_series, quick=50, thorough=800,
        rule='more than one day, or times of release 6'),
    Check('mean', s_mean, b_mean, quick=80, thorough=800, rule='a complete month'),
    Check('uplift', s_uplift, b_uplift, quick=12, thorough=120, rule='every case'),
]

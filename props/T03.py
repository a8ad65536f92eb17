"""Date indices of generated archives"""
import calendar
import datetime
import stat
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle, prog
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['the index file of a product lists its files in time order',
    'solutions are centered in different months, except for the known overlapping '
    'solutions of the mission', 'day numbers count from 1 on January 1st']

CENTRES = ['CSR', 'GFZ', 'JPL', 'CNES', 'GRGS', 'COSTG', 'GRAZ', 'Swarm']


def doy(d):
    return (d - datetime.date(d.year, 1, 1)).days + 1


def name(proc, dset, a, b, r):
    span = f'{a.year}{doy(a):03d}-{b.year}{doy(b):03d}'
    sfx = r.choice(['', '.gz'])
    v = int(r.integers(0, 4))
    mis = r.choice(['GRAC', 'GRFO'])
    if proc == 'CSR':
        return f'{dset}-2_{span}_{mis}_UTCSR_{r.choice(["BA01", "BB01"])}_06{v:02d}{sfx}'
    if proc == 'GFZ':
        return r.choice([f'{dset}-2_{span}_{mis}_GFZOP_BA01_06{v:02d}{sfx}',
            f'{dset}-2_{span}_0028_EIGEN_G---_005a{sfx}'])
    if proc == 'JPL':
        return r.choice([f'{dset}-2_{span}_{mis}_JPLEM_BC01_06{v:02d}{sfx}',
            f'{dset}-2_{span}_0030_JPLEM_0001_0005{sfx}'])
    if proc in ('CNES', 'GRGS'):
        return f'{dset}-2_{span}_0010_GRGS_C0003_0005.txt{sfx}'
    if proc == 'COSTG':
        return f'{dset}-2_{span}_{mis}_COSTG_BF01_01{v:02d}.gfc'
    if proc == 'GRAZ':
        if dset == 'GSM':
            p = r.choice(['ITSG-Grace2018_n60_', 'ITSG-Grace2016_n120_',
                'ITSG-Grace2014_', 'ITSG-Grace_operational_n96_'])
        else:
            p = r.choice(['model_atmosphere_n180_', 'model_ocean_n180_',
                'model_oceanBottomPressure_n180_', 'model_dealiasing_n180_',
                'AOD1B_RL06_atmosphere_n180_'])
        return f'{p}{a.year}-{a.month:02d}.gfc'
    if dset == 'GSM':
        return (f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T000000_{b:%Y%m%d}T235959_01{v:02d}'
            + r.choice(['.gfc', '.ZIP']))
    return f'{dset}_Swarm_60_{a.month:02d}_{a.year}' + r.choice(['.gfc', '.ZIP'])


def spans(case):
    """generated measurement periods with their month numbers"""
    proc, r = case['proc'], gen.rng(case['seed'], 3)
    out, special = [], {}
    monthly = proc == 'GRAZ' or (proc == 'Swarm' and case['dset'] != 'GSM')
    k = case['first']
    for i in range(case['n']):
        y, m = 2002 + (k - 1)//12, (k - 1) % 12 + 1
        n = oracle.month_lengths(y)[m - 1]
        a, b = datetime.date(y, m, 1), datetime.date(y, m, n)
        if not monthly:
            how = r.integers(0, 4)
            if how == 1:
                a += datetime.timedelta(int(r.integers(0, 8)))
                b += datetime.timedelta(int(r.integers(-6, 5)))
            elif how == 2:
                # periods around the middle of the month into its neighbours
                w = int(r.integers(3, 25))
                a = datetime.date(y, m, 15) - datetime.timedelta(w)
                b = datetime.date(y, m, 15) + datetime.timedelta(w)
            elif how == 3:
                a = b - datetime.timedelta(int(r.integers(5, 20)))
        out.append((a, b))
        special[k] = (a, b)
        k += 1 + (int(r.integers(0, 5)) if r.random() < 0.25 else 0)
    months = sorted(special)
    # the overlapping solutions of the mission
    if case['special'] and not monthly and proc != 'Swarm':
        D = datetime.date
        over = {118: (D(2011, 10, 1), D(2011, 10, 31)), 119: (D(2011, 10, 16), D(2011, 11, 15)),
            160: (D(2015, 4, 1), D(2015, 4, 30)), 161: (D(2015, 4, 12), D(2015, 5, 11))}
        for k in over:
            if all(q in special for q in (k - 1, k + 1)) or (k in (118, 160)):
                pass
        for lo in (118, 160):
            if {lo - 1, lo, lo + 1} <= set(months) and months[-1] > lo + 1:
                special[lo], special[lo + 1] = over[lo], over[lo + 1]
    return [(k, *special[k]) for k in months]


def mid(a, b):
    """1-based day of the starting year of the middle of the period"""
    dpy = 366 if oracle.is_leap(a.year) else 365
    return (Fraction(doy(a)) + (b.year - a.year)*dpy + doy(b))/2, dpy


@st.composite
def s_archive(draw):
    proc = draw(st.sampled_from(CENTRES))
    return dict(seed=draw(gen.seeds), proc=proc, n=draw(st.integers(1, 18)),
        first=draw(st.one_of(st.integers(4, 260), st.sampled_from([112, 115, 154, 157, 12,
        24, 36, 143]))), dset=draw(st.sampled_from(['GSM', 'GSM', 'GAA', 'GAD'])),
        special=draw(st.booleans()), rel=draw(st.sampled_from(['RL06', 'RL05', 'v1.0'])),
        mode=draw(st.sampled_from([0o775, 0o700, 0o644])), newline=draw(st.booleans()),
        cli=draw(st.booleans()))


def build(case, root):
    r = gen.rng(case['seed'], 4)
    d = root/case['proc']/case['rel']/case['dset']
    d.mkdir(parents=True, exist_ok=True)
    sol = spans(case)
    # months from the middle of the periods have to be distinct
    keep, used = [], set()
    for k, a, b in sol:
        t, dpy = mid(a, b)
        if case['proc'] in ('GRAZ', 'Swarm'):
            t += Fraction(86399, 2*86400)
        date = datetime.date(a.year, 1, 1) + datetime.timedelta(int(t) - 1)
        real = (date.year - 2002)*12 + date.month
        if real != k and (k, a, b) not in [(119, datetime.date(2011, 10, 16),
                datetime.date(2011, 11, 15)), (161, datetime.date(2015, 4, 12),
                datetime.date(2015, 5, 11))]:
            k = real
        if k in used or (keep and k <= keep[-1][0]):
            continue
        used.add(k)
        keep.append((k, a, b, name(case['proc'], case['dset'], a, b, r)))
    raw = [int((datetime.date(a.year, 1, 1) + datetime.timedelta(int(mid(a, b)[0]) - 1)
        ).month) for k, a, b, f in keep]
    (d/'index.txt').write_text('\n'.join(f for *_, f in keep)
        + ('\n' if case['newline'] else ''))
    return d, keep


def rows(path):
    lines = path.read_text().splitlines()
    same(lines[0].split(), ['Mid-date', 'Month', 'Start_Day', 'End_Day', 'Total_Days'],
        'header of the date file')
    return [line.split() for line in lines[1:]]


def verify(case, d, keep, what):
    """compare the date file with the generated solutions"""
    proc = case['proc']
    got = rows(d/f"{proc}_{case['rel']}_DATES.txt")
    same(len(got), len(keep), f'{what}: number of solutions')
    for (k, a, b, f), g in zip(keep, got):
        t, dpy = mid(a, b)
        sub = proc in ('GRAZ', 'Swarm')
        if sub:
            t += Fraction(86399, 2*86400)
        want = a.year + t/dpy
        require(abs(Fraction(g[0]) - want) < Fraction(1, 10**8), f'{what}: mid-date of '
            f'{f}: {g[0]}, expected {float(want):.8f}')
        same([int(v) for v in g[1:6]], [k, a.year, doy(a), b.year, doy(b)],
            f'{what}: month and days of {f}')
        total = sum(366 if oracle.is_leap(y) else 365 for y in range(2002, a.year)) + t
        require(abs(int(g[6]) - total) <= Fraction(1, 2) + Fraction(1, 10**6),
            f'{what}: total days of {f}: {g[6]}, expected {float(total)}')


def b_dates(case, ctx):
    d, keep = build(case, ctx.tmp)
    proc, rel, dset = case['proc'], case['rel'], case['dset']
    what = f'{proc} {dset}'
    dates = d/f'{proc}_{rel}_DATES.txt'
    args = dict(PROC=proc, DREL=rel, DSET=dset)
    quiet = gravtk.grace_date(ctx.tmp, OUTPUT=False, **args)
    require(not dates.exists(), f'{what}: date file written without output')
    if case['cli']:
        cmd = ['-D', ctx.tmp, '-c', proc, '-r', rel, '-p', dset.lower()]
        prog.run('grace_date', *cmd)
        require(not dates.exists(), f'{what}: date file written by the program without output')
        prog.run('grace_date', *cmd, '--output', '--mode', f"{case['mode']:o}")
        out = quiet
    else:
        out = gravtk.grace_date(ctx.tmp, OUTPUT=True, MODE=case['mode'], **args)
    for o in (quiet, out):
        same(sorted(int(k) for k in o), sorted(k for k, *_ in keep), f'{what}: months')
        for k, a, b, f in keep:
            same(str(o[k]), str(d/f), f'{what}: file of month {k}')
    same(stat.S_IMODE(dates.stat().st_mode), case['mode'], f'{what}: permissions')
    verify(case, d, keep, what)
    same((d/'index.txt').read_text().splitlines(), [f for *_, f in keep],
        f'{what}: index file')
    # month finder
    before = dates.read_text()
    info = gravtk.grace_find_months(ctx.tmp, proc, rel, DSET=dset)
    check_info(info, keep, what, case)
    same(dates.read_text(), before, f'{what}: date file changed by the month finder')
    # the finder writes a missing date file
    dates.unlink()
    info = gravtk.grace_find_months(ctx.tmp, proc, rel, DSET=dset)
    check_info(info, keep, what, case)
    same(dates.read_text(), before, f'{what}: date file written by the month finder')
    require(raises(lambda: gravtk.grace_date(ctx.tmp, PROC=proc, DREL=rel, DSET='GAX'),
        FileNotFoundError), 'missing index file is not an error')
    ctx.nontrivial(len(keep) > 1)
    ctx.label(proc, 'monthly' if dset != 'GSM' else 'GSM')


def check_info(info, keep, what, case):
    months = [k for k, *_ in keep]
    same(np.asarray(info['months']).astype(int), np.array(months), f'{what}: months found')
    same(int(info['start']), min(months), f'{what}: first month')
    same(int(info['end']), max(months), f'{what}: last month')
    want = [k for k in range(4, max(months)) if k not in months]
    same(np.asarray(info['missing']).astype(int), np.array(want, dtype=int),
        f'{what}: missing months')
    mids = []
    for k, a, b, f in keep:
        t, dpy = mid(a, b)
        if case['proc'] in ('GRAZ', 'Swarm'):
            t += Fraction(86399, 2*86400)
        mids.append(float(a.year + t/dpy))
    close(np.asarray(info['time'], dtype=float), np.array(mids), f'{what}: dates found',
        rtol=0, atol=2e-4)


# ------------------------------------------------------------ ten-day fields
@st.composite
def s_tenday(draw):
    return dict(first=draw(st.integers(0, 3000)), rel=draw(st.sampled_from(['RL01', 'RL02'])),
        steps=draw(st.lists(st.integers(1, 4), min_size=1, max_size=20)))


def b_tenday(case, ctx):
    """ten-day solutions are numbered from the first one"""
    d = ctx.tmp/'CNES'/case['rel']/'GSM'
    d.mkdir(parents=True)
    k = np.cumsum([1] + case['steps'])
    files = []
    for i in k:
        a = datetime.date(2002, 7, 29) + datetime.timedelta(case['first'] + 10*(int(i) - 1))
        b = a + datetime.timedelta(9)
        files.append(f'GSM-2_{a.year}{doy(a):03d}-{b.year}{doy(b):03d}_0010_GRGS_C0001_0001.txt')
    (d/'index.txt').write_text('\n'.join(files))
    out = gravtk.grace_date(ctx.tmp, PROC='CNES', DREL=case['rel'], DSET='GSM')
    same(sorted(int(i) for i in out), [int(i) for i in k], 'ten-day numbers')
    for i, f in zip(k, files):
        same(out[i].name, f, 'file of a ten-day number')
    info = gravtk.grace_find_months(ctx.tmp, 'CNES', case['rel'])
    same(np.asarray(info['months']).astype(int), k, 'ten-day numbers found')
    same(np.asarray(info['missing']).astype(int), np.array([i for i in range(1, k[-1])
        if i not in k], dtype=int), 'missing ten-day numbers')
    ctx.nontrivial(max(case['steps']) > 1)


# ------------------------------------------------------------- table of months
@st.composite
def s_table(draw):
    n = draw(st.integers(1, 4))
    procs = draw(st.permutations(['CSR', 'GFZ', 'JPL']))[:n]
    return dict(archives=[dict(draw(s_archive()), proc=p, dset='GSM', rel=q)
        for p in procs for q in draw(st.sampled_from([['RL06'], ['RL05'],
        ['RL05', 'RL06']]))], mode=draw(st.sampled_from([None, 0o644, 0o700])),
        cli=draw(st.booleans()))


def b_table(case, ctx):
    cols = {}
    for c in case['archives']:
        d, keep = build(c, ctx.tmp)
        gravtk.grace_date(ctx.tmp, PROC=c['proc'], DREL=c['rel'], DSET='GSM')
        cols[f"{c['proc']}_{c['rel']}"] = {k: f'{a.year}_{doy(a):03d}--{b.year}_{doy(b):03d}'
            for k, a, b, f in keep}
    mode = case['mode']
    if case['cli']:
        cmd = ['--mode', f'{mode:o}'] if mode else []
        prog.run('grace_months_index', '-D', ctx.tmp, '-r', 'RL05', 'RL06', *cmd)
        mode = mode or 0o775
    else:
        gravtk.grace_months_index(ctx.tmp, DREL=['RL05', 'RL06'], MODE=mode)
    table(ctx.tmp/'GRACE_months.txt', cols, mode)
    ctx.nontrivial(len(cols) > 1)


def table(path, cols, mode):
    if mode:
        same(stat.S_IMODE(path.stat().st_mode), mode, 'permissions of the table')
    lines = path.read_text().splitlines()
    names = sorted(cols)
    same(lines[0].split(), ['MONTH'] + names, 'header of the table')
    last = max(max(v) for v in cols.values())
    same(len(lines) - 1, last - 3, 'rows of the table')
    for k, line in zip(range(4, last + 1), lines[1:]):
        line = line.replace('** missing **', 'missing')
        f = line.split()
        y, m = 2002 + (k - 1)//12, (k - 1) % 12 + 1
        same(int(f[0]), k, 'month number')
        same(f[1], f'{calendar.month_abbr[m]}{y:d}', f'calendar date of month {k}')
        same(f[2:], [cols[c].get(k, 'missing') for c in names], f'dates of month {k}')


# ------------------------------------------------------------- date program
PRODUCTS = {'CSR': ['GAC', 'GAD', 'GSM'], 'GFZ': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM'],
    'JPL': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']}


@st.composite
def s_program(draw):
    procs = draw(st.permutations(['CSR', 'GFZ', 'JPL']))[:draw(st.integers(1, 3))]
    rels = draw(st.sampled_from([['RL06'], ['RL05'], ['RL05', 'RL06'], ['RL04'],
        ['RL06', 'v02.4'], ['RL06', 'RL05']]))
    valid = [q for q in rels if q.startswith('RL')]
    return dict(procs=procs, rels=rels, archives=[dict(draw(s_archive()), proc=p, rel=q,
        dset=x) for p in procs for q in valid for x in PRODUCTS[p]],
        others=draw(st.booleans()), mode=draw(st.sampled_from([None, 0o644, 0o700])))


def b_program(case, ctx):
    """the program updates the date files of every product and the table"""
    arch, cols = [], {}
    for c in case['archives']:
        d, keep = build(c, ctx.tmp)
        arch.append((c, d, keep))
        if c['dset'] == 'GSM':
            cols[f"{c['proc']}_{c['rel']}"] = {k:
                f'{a.year}_{doy(a):03d}--{b.year}_{doy(b):03d}' for k, a, b, f in keep}
        elif case['others']:
            # an outdated date file
            (d/f"{c['proc']}_{c['rel']}_DATES.txt").write_text('outdated')
    cmd = ['--directory', ctx.tmp, '--center', *case['procs'], '--release', *case['rels']]
    if case['mode']:
        cmd += ['--mode', f"{case['mode']:o}"]
    prog.run('run_grace_date', *cmd, cwd=ctx.tmp)
    mode = case['mode'] or 0o775
    for c, d, keep in arch:
        what = f"{c['proc']} {c['rel']} {c['dset']}"
        verify(c, d, keep, what)
        same(stat.S_IMODE((d/f"{c['proc']}_{c['rel']}_DATES.txt").stat().st_mode), mode,
            f'{what}: permissions')
    table(ctx.tmp/'GRACE_months.txt', cols, mode)
    ctx.nontrivial(len(arch) > 3)


CHECKS = [
    Check('date_index', s_archive, b_dates, quick=600, thorough=9000,
        rule='more than one solution'),
    Check('ten_day', s_tenday, b_tenday, quick=150, thorough=2000,
        rule='solutions are missing'),
    Check('table', s_table, b_table, quick=200, thorough=3000,
        rule='more than one centre or release'),
    Check('date_program', s_program, b_program, quick=60, thorough=1000,
        rule='products of more than one centre or release'),
]

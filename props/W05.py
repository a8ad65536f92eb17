"""Programs for geocenter variations"""
import datetime
import os
import stat
import matplotlib.pyplot as plt
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, oracle, prog
from pbt import lowdeg as ld
from pbt.core import Check, close, require, same
from props import F02
from props.C01 import arguments
from props.F02 import R0, guarded
from props.O01 import make_mask, write
from props.W01 import files_of, logged
from props.W03 import check_delta, delta_name

ASSUMPTIONS = ['archives of the solutions and of both dealiasing products as in F02 for the '
    'same months', 'degree and order limits of one or more', 'an ocean that determines the '
    'degree one terms (condition below 1e4)', 'grids cover the sphere']
SOLVERS = ['inv', 'lstsq', 'gelsd', 'gelsy', 'gelss']
MODELS = ['MPIOM', 'OMCT', 'ECCO_kf080i', 'ECCO_V4r4', 'ECCO_V5alpha']
KEYS = ['C10', 'C11', 'S11']


@st.composite
def s_degree(draw, **kw):
    c = draw(grc.s_grace(lo=2, hi=7, deg1=False, **dict(dict(nmin=2, nmax=6), **kw)))
    c.update(dset='GSM', remove=[], redist=False, ref=None, shape=draw(st.sampled_from(
        [(6, 12), (9, 18), (10, 15), (12, 24)])), solver=draw(st.sampled_from([None] + SOLVERS)),
        kl=draw(st.sampled_from([None, None, 0.0, 0.05, -0.26, 'default'])),
        atm=draw(st.integers(0, 2)) == 0, jump=False,
        over=draw(st.integers(0, 3)), maskkind=draw(st.sampled_from(['white', 'blocks'])),
        finger=draw(st.integers(0, 3)) == 0)
    if c['mmax'] is not None:
        c['mmax'] = max(c['mmax'], 1)
    return c


@st.composite
def s_solve(draw):
    c = draw(s_degree())
    c.update(ocean=draw(st.sampled_from([None] + MODELS)), iterative=draw(st.booleans()),
        copy=draw(st.booleans()), again=draw(st.integers(0, 4)) == 0,
        plot=draw(st.integers(0, 9)) == 0, oform=draw(st.sampled_from([None] + grc.FORMS)),
        gacmore=draw(st.booleans()))
    return c


def mask(case, path):
    """grid, area of the cells and ocean function of a land-sea mask"""
    nlat, nlon = case['shape']
    m = make_mask(case['seed'], case['maskkind'], nlat, nlon)
    dlat, dlon = 180.0/nlat, 360.0/nlon
    lon = dlon*(np.arange(nlon) + 0.5)
    lat = 90 - dlat*(np.arange(nlat) + 0.5)
    write(path, m, lon, lat, 'LSMASK')
    sea = (~((m >= 1) & (m <= 3))).astype(float)
    area = np.sin(np.radians(90 - lat))[:, None]*np.radians(dlon)*np.radians(dlat)
    return lon, lat, sea, area + 0*sea


def basis(lon, lat):
    P, _ = oracle.plm4pi(1, np.sin(np.radians(lat)), 1)
    p = np.radians(lon)
    return np.array([P[1, 0][:, None] + 0*p, P[1, 1][:, None]*np.cos(p),
        P[1, 1][:, None]*np.sin(p)])


def seasonal(t):
    """geocenter variations of soil moisture and snow of Chen et al. (1999)"""
    out = []
    for a, p, b, q in ((3.30, 43.0, 0.50, 75.0), (1.28, 44.0, 0.15, 331.0),
            (0.52, 182.0, 0.56, 312.0)):
        v = a*np.sin(2*np.pi*t + np.radians(p)) + b*np.sin(4*np.pi*t + np.radians(q))
        out.append((v - v.mean())/(R0*np.sqrt(3)))
    return np.array(out)


def earth(case, lmax):
    love = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=case['love'] or 0, REFERENCE='CF')
    love = [np.array(v, dtype=float) for v in love]
    if case['kl'] != 'default':
        love[1][1] = 0.021 if case['kl'] is None else case['kl']
    return love


def one(C, S):
    return np.array([C[1, 0], C[1, 1], S[1, 1]])


def inputs(case, root):
    """archives, arguments and coefficients"""
    g = grc.prepare(case, root)
    if g is None or len(g.months) < 2:
        return None
    g.args = [str(a) for a in g.args]
    L, M = g.lmax, g.mmax
    if case['atm']:
        out = dict(clm=np.zeros((L + 1, M + 1, len(g.months))),
            slm=np.zeros((L + 1, M + 1, len(g.months))))
        F02.atmosphere(case, root, gen.rng(case['seed'], 8), g.months, out, L, M)
        g.fix = [-(v - v.mean(axis=2)[:, :, None]) for v in out.values()]
        g.args += ['--atm-correction']
    else:
        g.fix = [np.zeros((L + 1, M + 1, len(g.months)))]*2
    dt = g.time - 2003.3
    rate = g.rate if case['gia'] else [np.zeros((L + 1, M + 1))]*2
    g.drift = [v[:, :, None]*dt for v in rate]
    g.love = earth(case, L)
    if case['kl'] is not None:
        g.args += ['--kl'] + ([repr(case['kl'])] if case['kl'] != 'default' else [])
    if case['solver']:
        g.args += ['--solver', case['solver']]
    g.df = oracle.harmonic_factors(L, g.love)['cmwe']
    g.top = L + case['over']
    g.args += ['--expansion', g.top]
    g.lon, g.lat, g.sea, g.area = mask(case, root/'mask.nc')
    g.args += ['--mask', root/'mask.nc']
    g.b = basis(g.lon, g.lat)
    g.I = np.einsum('iyx,jyx,yx->ij', g.b, g.b, g.sea*g.area)/(4*np.pi)
    sv = np.linalg.svd(g.I, compute_uv=False)
    if sv[-1] <= 1e-4 or sv[-1] <= 1e-4*sv[0]:
        return None
    g.cond = 1/sv[-1]
    g.slf = ''
    if case['finger']:
        g.args += ['--fingerprint']
        g.slf = '_SLF'
    return g


def mass(C, S, fac, g, lmin):
    """field of the cells"""
    f = [v*fac[:, None] for v in (C, S)]
    return oracle.synth(*f, g.lon, g.lat, lmin=lmin, mmax=g.mmax).T


def fingerprint(g, field):
    """degree one terms of the sea level of a land load"""
    love = gravtk.load_love_numbers(g.top, LOVE_NUMBERS=g.case['love'] or 0, REFERENCE='CF')
    love = [np.array(v, dtype=float) for v in love]
    love[1][1] = g.love[1][1]
    PLM, _ = gravtk.plm_holmes(g.top, np.sin(np.radians(g.lat)))
    land = 1 - g.sea.T
    Y = gravtk.gen_stokes(field.T*land, g.lon, g.lat, UNITS=1, LMIN=0, LMAX=g.top, PLM=PLM,
        LOVE=love)
    sl = gravtk.sea_level_equation(Y.clm, Y.slm, g.lon, g.lat, land, LMAX=g.top, LOVE=love,
        BODY_TIDE_LOVE=0, FLUID_LOVE=0, ITERATIONS=3, POLAR=True, PLM=PLM, ASTYPE=np.float64,
        SCALE=1e-32, FILL_VALUE=0)
    return np.einsum('iyx,yx->i', g.b, sl.T*g.area)/(4*np.pi)


def eustatic(g, field):
    """degree one terms of the ocean mass from the mass on land"""
    if g.slf:
        return fingerprint(g, field)
    total = np.sum(field*(1 - g.sea)*g.area)/np.sum(g.sea*g.area)
    return -total*np.einsum('iyx,yx->i', g.b, g.sea*g.area)/(4*np.pi)


def run(*args):
    plt.close('all')
    prog.run(*args)
    plt.close('all')


def project(g, field):
    return np.einsum('iyx,yx->i', g.b, field*g.sea*g.area)/(4*np.pi)


def described(nc, case, g):
    """attributes of the file describe the solution"""
    love = gravtk.load_love_numbers(g.lmax, LOVE_NUMBERS=case['love'] or 0, REFERENCE='CF',
        FORMAT='class')
    want = dict(generating_institute=case['proc'], product_release=g.rel, product_name='GSM',
        earth_model=love.model, earth_love_numbers=love.citation, reference_frame='CF',
        max_degree=str(g.lmax), max_order=str(g.mmax), smoothing_radius=f"{case['rad']:0.0f} km"
        if case['rad'] else None, filtering='Destriped' if case['destripe'] else None)
    have = {k: meta.text(nc.getncattr(k)) for k in nc.ncattrs()}
    for k, w in want.items():
        same(have.get(k), w, f'attribute {k}')
    same(meta.words(have['GIA'])[1:] if 'GIA' in have else [], [p.name for p in
        g.files.get('gia', [])], 'attribute GIA')
    for k, (source, name) in g.notes.items():
        same(meta.words(have[k]), [source, name], f'attribute {k}')
    line = meta.words(have['lineage'])
    for n in [str(g.data[k][0]) for k in g.months]:
        require(n.rsplit('.', 1)[0] in line or n in line, f'{n} is not in the lineage')
    for p in g.files.get('mean', []):
        require(p.name in line, f'{p.name} is not in the lineage')


def header(f, case, g, aod):
    """header of the text files"""
    import yaml
    text = f.read_text().split('# End of YAML header')[0]
    h = yaml.safe_load(text)['header']
    same(h['dimensions'], dict(degree=1, order=1), 'dimensions of the header')
    non, top, var = h['non-standard_attributes'], h['global_attributes'], h['variables']
    same(f"{non['love_number']['value']:0.3f}", f'{g.love[1][1]:0.3f}', 'Love number')
    same(top['title'], f"GRACE/GRACE-FO Geocenter Coefficients {case['proc']} {g.rel}", 'title')
    same(top['product_version'], f'Release-{g.rel[2:]}', 'version of the product')
    same(top['processing_level'], 3, 'level of the product')
    for k, i in (('time_coverage_start', 0), ('time_coverage_end', -1)):
        y, m = ld.first_of(g.months[i])
        same(str(top[k]), f'{y:04d}-{m:02d}', k)
    require(str(top['date_created']) in (str(datetime.date.today()),
        str(datetime.date.today() - datetime.timedelta(days=1))), 'date of the file')
    new = g.rel == 'RL06'
    for k in ('keywords', 'project', 'acknowledgement'):
        same('GRACE-FO' in top[k], new, f'{k} of the mission')
    same('has been restored' in top['summary'], aod, 'dealiasing in the summary')
    c20, c21 = g.notes.get('SLR C20', [None])[0], g.notes.get('SLR 21', [None])[0]
    for ref, have in (('rs11182108', True), ('2007JB005338', True), ('jgrb.50058', c20 == 'CSR'),
            ('2019GL082929', c20 == 'GSFC'), ('GRAVIS_06_C20_SLR', c20 == 'GFZ'),
            ('2010JB000850', c21 == 'CSR'), ('gji/ggv276', g.rel == 'RL05' and not aod)):
        same(ref in text.split('references')[1], have, f'reference {ref}')
    for i, (k, u) in enumerate((('mid-epoch_time', 'decimal-years'), ('C10', 'fully normalized'),
            ('C11', 'fully normalized'), ('S11', 'fully normalized'))):
        same(var[k]['units'], u, f'units of {k}')
        same(int(var[k]['comment'][0]), i + 1, f'column of {k}')


@guarded
def b_solve(case, ctx):
    root = ctx.tmp
    g = inputs(case, root)
    if g is None:
        ctx.label('not determined')
        return
    g.case = case
    n, L, M = len(g.months), g.lmax, g.mmax
    # dealiasing products
    aod = {}
    for i, k in enumerate(('GAD', 'GAC')):
        c = dict(case, dset=k, seed=case['seed'] + 31 + i, pole=False, mmax=None,
            nfile=max(case['nfile'], L))
        _, _, data = F02.archive(c, root)
        out, _, _ = F02.model(c, data, g.months)
        C, S = [v - v.mean(axis=2)[:, :, None] for v in (out['clm'], out['slm'])]
        if case['destripe'] and k == 'GAD':
            C, S = grc.destripe(C, S, g.time, g.months)
        aod[k] = one(C, S)
    e = oracle.Earth()
    gad = e.rho*e.R*(aod['GAD'] - aod['GAD'].mean(axis=1)[:, None])
    obp = gad
    args = [a for i, a in enumerate(g.grace) if a != '--product' and g.grace[i - 1] != '--product']
    args = args + g.args
    name = case['ocean'] or 'MPIOM'
    if case['ocean']:
        args += ['--ocean-model', case['ocean']]
    if name.startswith('ECCO'):
        form = case['oform'] or 'netCDF4'
        have = sorted(set(g.months) | set(range(g.months[0] - 1, g.months[-1] + 2)))
        O, names = [], []
        for k in have:
            C, S = grc.save(root/f'ecco_{k:03d}{grc.SUF[form]}', form, *grc.coefficients(
                case['seed'] + 5000 + k, L + case['over'], 3e-10), ld.middle(k), k)
            names.append(str(root/f'ecco_{k:03d}{grc.SUF[form]}'))
            O.append((C, S))
        order = gen.rng(case['seed'], 12).permutation(len(names))
        (root/'ecco.txt').write_text('\n'.join(names[j] for j in order) + '\n')
        args += ['--ocean-file', root/'ecco.txt']
        if case['oform']:
            args += ['--format', form]
        pick = [have.index(k) for k in g.months]
        C, S = [np.stack(v, axis=2)[:L + 1, :M + 1, pick] for v in zip(*O)]
        C, S = [v - v.mean(axis=2)[:, :, None] for v in (C, S)]
        if case['destripe']:
            C, S = grc.destripe(C, S, g.time, g.months)
            C, S = [v - v.mean(axis=2)[:, :, None] for v in (C, S)]
        obp = one(C, S)*g.df[1]
    for k in ('iterative', 'copy', 'plot'):
        if case[k]:
            args += ['--' + k]
    args = arguments(case, str(root), args)
    # solution of the months
    fac = g.df*g.wt
    C, S = [x - d - a for x, d, a in zip(g.base, g.drift, g.fix)]
    owm = np.array([project(g, mass(C[..., t], S[..., t], fac, g, 2)) for t in range(n)]).T
    keep = one(*g.drift) + one(*g.fix)
    inv = np.linalg.inv(g.I)
    state = seasonal(g.time)
    bound = np.sum(np.abs(owm)) + 1e-300
    steps = []
    power = 0
    for it in range(15 if case['iterative'] else 1):
        esl = np.zeros((3, n))
        for t in range(n):
            c, s = C[..., t].copy(), S[..., t].copy()
            a = state[:, t] - keep[:, t]
            c[1, 0], c[1, 1], s[1, 1] = a
            esl[:, t] = eustatic(g, mass(c, s, fac, g, 1))
        D = inv @ (esl + obp - gad - owm)
        new = D/g.df[1] + keep
        new = new - new.mean(axis=1)[:, None]
        steps.append(new)
        power = max(power, np.abs(new).max(), np.abs(esl).max()/g.df[1])
        eps = np.sqrt(np.sum((state - new)**2))/np.sqrt(np.sum(state**2))
        state = new
        if 0.9e-6 < eps < 1.1e-6:
            ctx.label('iterations at the limit')
            return
        if eps <= 1e-6:
            break
    dest = root/'geocenter'
    run('calc_degree_one', *args)
    if case['again']:
        first = files_of(dest)
        for f in list(dest.iterdir()):
            if case['copy'] and f.is_symlink() or f.name.endswith('.log'):
                f.unlink()
        run('calc_degree_one', *args)
        same(files_of(dest), first, 'files of the second run')
    sl = ''.join(x for x in ('_wCSR_21', '_wCSR_22', '_wLARES_C30', '_wLARES_C40',
        '_wLARES_C50') if x in g.title)
    it = '_iter' if case['iterative'] else ''
    stem = f"{case['proc']}_{g.rel}_{name}{g.slf}{it}"
    files = {f'{stem}{sl}{g.gia}{a}{g.filter}.txt' for a in ('', '_wAOD')}
    files |= {f'{stem}{sl}{g.gia}{g.filter}.nc'}
    allfiles = set(files)
    if case['plot']:
        allfiles.add(f'Swenson_Figure_1_{stem}{sl}{g.gia}{g.filter}.pdf')
        if case['iterative']:
            allfiles.add('Geocenter_Iterative_' + stem.replace('_iter', '') +
                f'{sl}{g.gia}{g.filter}.pdf')
    got = files_of(dest)
    if case['copy']:
        today = [f'{datetime.date.today() - datetime.timedelta(days=i):_%Y-%m-%d}'
            for i in (0, 1)]
        day = today[0] if f'{stem}{today[0]}.txt' in got else today[1]
        for a in ('', '_wAOD'):
            allfiles |= {f'{stem}{a}.txt', f'{stem}{a}{day}.txt'}
            src = dest/f'{stem}{sl}{g.gia}{a}{g.filter}.txt'
            for f in (dest/f'{stem}{a}.txt', dest/f'{stem}{a}{day}.txt'):
                same(f.read_bytes(), src.read_bytes(), f'copy {f.name}')
                same(stat.S_IMODE(os.stat(f).st_mode), stat.S_IMODE(os.stat(src).st_mode),
                    f'permissions of the copy {f.name}')
                close(os.stat(f).st_mtime, os.stat(src).st_mtime,
                    f'modification time of the copy {f.name}', rtol=0, atol=1e-3)
    same(got, allfiles, 'files')
    for f in files:
        same(stat.S_IMODE(os.stat(dest/f).st_mode), int(case['mode'] or '775', 8),
            f'permissions of {f}')
    logged(case, dest, files)
    tol = 1e-11*g.cond*(power + bound/g.df[1] + 1e-3*np.abs(g.raw).max())
    # series of the text files
    for a in ('', '_wAOD'):
        f = dest/f'{stem}{sl}{g.gia}{a}{g.filter}.txt'
        d = gravtk.geocenter().from_UCI(f)
        same(d.month, np.array(g.months), 'months')
        close(d.time, g.time, 'times', rtol=0, atol=5.1e-5)
        want = steps[-1] + (aod['GAC'] if a else 0)
        for i, k in enumerate(KEYS):
            w = want[i]
            require(np.all(np.abs(getattr(d, k) - w) <= tol + 5.1e-7*np.abs(w) + 1e-20),
                lambda: f'{f.name}: {k} is {getattr(d, k)[:3]}, expected {w[:3]}')
    with netCDF4.Dataset(dest/f'{stem}{sl}{g.gia}{g.filter}.nc') as nc:
        close(nc['time'][:], g.time, 'times of the file', rtol=0, atol=1e-9)
        same(np.asarray(nc['month'][:]), np.array(g.months), 'months of the file')
        for i, k in enumerate(KEYS):
            w = np.array([s[i] for s in steps]).T
            close(np.asarray(nc[k][:]), w, f'{k} of the iterations', rtol=1e-11, atol=tol)
            for grp, w in (('AOD', aod['GAC']), ('OWM', owm/g.df[1]), ('ESL', esl/g.df[1]),
                    ('OBP', obp/g.df[1])):
                close(np.asarray(nc[grp][k][:]), w[i], f'{grp} {k}', rtol=1e-11,
                    atol=tol)
        same(int(nc.max_degree), L, 'degree')
        same(int(nc.max_order), M, 'order')
        same(nc.solver, case['solver'] or 'lstsq', 'solver')
        described(nc, case, g)
        same(nc.eustatic_sea_level, 'self_attraction_and_loading' if g.slf else
            'uniform_redistribution', 'sea level')
        same(nc.solution_type, 'iterative' if case['iterative'] else 'single', 'solution type')
    for a in ('', '_wAOD'):
        header(dest/f'{stem}{sl}{g.gia}{a}{g.filter}.txt', case, g, bool(a))
    ctx.nontrivial(True)
    ctx.label(name[:4], 'slf' if g.slf else 'uniform', f'iterations={len(steps)}',
        case['solver'] or 'default')


# ------------------------------------------------------------------ monte carlo
@st.composite
def s_monte(draw):
    new = draw(st.integers(0, 2)) == 0
    c = draw(s_degree(nmin=13, nmax=16) if new else s_degree(nmin=2, nmax=6))
    c.update(new=new, form=draw(st.sampled_from([None] + grc.FORMS)), extra=draw(st.lists(
        st.integers(0, 2), max_size=2)), zero=draw(st.integers(0, 2)) == 0, plot=draw(
        st.integers(0, 9)) == 0, made=draw(st.booleans()))
    if c['kl'] == 'default':
        c['kl'] = 0.03
    c['runs'] = draw(st.integers(1, 3)) if c['finger'] else draw(st.integers(20, 40))
    c['log'] = draw(st.booleans())
    return c


@guarded
def b_monte(case, ctx):
    root = ctx.tmp
    g = inputs(case, root)
    if g is None:
        ctx.label('not determined')
        return
    g.case = case
    g.atm = '_wATM' if case['atm'] else ''
    form = case['form'] or 'netCDF4'
    n, L, M = len(g.months), g.lmax, g.mmax
    dest = root/'geocenter'
    if case['made']:
        dest.mkdir()
    # errors of the coefficients
    path = g.directory/delta_name(case, g, form)
    if case['new']:
        ref = grc.delta(g)
        if ref is None:
            ctx.label('windows not estimable')
            return
        E = [np.array(ref[:2])]
        lim = max(np.abs(v).max() for v in g.base)*1e-6
    else:
        scale = 0.0 if case['zero'] else 1e-11
        E = [np.abs(np.array(grc.coefficients(case['seed'] + 77, L, scale)))]
        E[0] = np.array(grc.save(path, form, *E[0], g.time.mean(), 3))[:, :, :M + 1]
        lim = 0
    args = [a for i, a in enumerate(g.grace) if a != '--product' and g.grace[i - 1] != '--product']
    args = args + g.args + ['--runs', case['runs']]
    if case['form']:
        args += ['--format', form]
    if case['extra']:
        files = []
        for i, more in enumerate(case['extra']):
            p = root/f'extra{i}{grc.SUF[form]}'
            v = np.abs(grc.coefficients(case['seed'] + 177 + i, L + more, 0.0 if case['zero']
                else 2e-11))
            v = np.array(grc.save(p, form, *v, 2005.0, 40))
            E.append(v[:, :L + 1, :M + 1])
            files.append(p)
        args += ['--error-file'] + files
    if case['plot']:
        args += ['--plot']
    args = arguments(case, str(root), args)
    # response of the geocenter to each coefficient
    fac = g.df*g.wt
    inv = np.linalg.inv(g.I)

    def solution(c, s, a):
        owm = project(g, mass(c, s, fac, g, 2))
        c, s = c.copy(), s.copy()
        c[1, 0], c[1, 1], s[1, 1] = a
        return inv @ (eustatic(g, mass(c, s, fac, g, 1)) - owm)/g.df[1]
    keep = one(*g.drift) + one(*g.fix)
    first = seasonal(g.time) - keep
    C, S = [x - d - a for x, d, a in zip(g.base, g.drift, g.fix)]
    want = np.array([solution(C[..., t], S[..., t], first[:, t]) for t in range(n)]).T + keep
    want = want - want.mean(axis=1)[:, None]
    total, spread = np.zeros(3), np.zeros(3)
    if not g.slf:
        for l in range(1, L + 1):
            for m in range(min(l, M) + 1):
                for q in range(2 if m else 1):
                    cs = np.zeros((2, L + 1, M + 1))
                    cs[q, l, m] = 1
                    v = np.abs(solution(*cs, one(*cs)))
                    for e in E:
                        e = e[q, l, m] + (lim if e is E[0] else 0)
                        total += 2*v*e
                        spread += v**2*e**2/3*(1 - 1/n)
    np.random.seed(case['seed'] % 2**32)
    run('monte_carlo_degree_one', *args)
    model = 'OMCT' if g.rel == 'RL05' else 'MPIOM'
    stem = f"{case['proc']}_{g.rel}_{model}{g.slf}{g.gia}_monte_carlo{g.filter}"
    files = {stem + '.txt', stem + '.nc'}
    if case['plot']:
        files.add(f"Geocenter_Monte_Carlo_{case['proc']}_{g.rel}_{model}{g.filter}.pdf")
    same(files_of(dest), files, 'files')
    logged(case, dest, files)
    if case['log']:
        log = next(f for f in dest.iterdir() if f.suffix == '.log').read_text()
        require(f"NUMBER OF ITERATIONS: {case['runs']}\n" in log, 'number of runs in the log')
    if case['new']:
        check_delta(case, g, form, *ref)
    with netCDF4.Dataset(dest/(stem + '.nc')) as nc:
        close(nc['time'][:], g.time, 'times of the file', rtol=0, atol=1e-9)
        same(np.asarray(nc['month'][:]), np.array(g.months), 'months of the file')
        got = np.array([np.asarray(nc[k][:]) for k in KEYS])
        described(nc, case, g)
    header(dest/(stem + '.txt'), case, g, False)
    same(got.shape, (3, n, case['runs']), 'shape of the runs')
    tol = 1e-10*g.cond*(np.abs(want).max() + np.abs(got).max() + np.abs(C).max())
    dev = got - want[:, :, None]
    ctx.nontrivial(True)
    ctx.label('slf' if g.slf else 'uniform', 'new' if case['new'] else 'read',
        f"sources={len(E)}")
    require(np.all(np.abs(dev.mean(axis=1)) <= tol + np.abs(want).max()), 'mean of the runs')
    zero = not any(np.abs(e).max() for e in E)
    if zero:
        require(np.all(np.abs(dev) <= tol), lambda: f'runs without errors differ from the '
            f'solution: {got[:, 0, 0]} not {want[:, 0]}')
    elif not g.slf:
        require(np.all(np.abs(dev) <= total[:, None, None] + tol), 'runs differ from the '
            'solution by more than the errors')
        N = n*case['runs']
        for i in range(3):
            s = np.sqrt(spread[i])
            if s <= 100*tol or (case['new'] and lim*100 > np.abs(E[0]).max()):
                continue
            m, v = dev[i].mean(axis=1), (dev[i]**2).mean()
            require(np.all(np.abs(m) <= 7*s/np.sqrt(case['runs'])), 'mean of the runs')
            require(abs(v/s**2 - 1) <= 8*np.sqrt(2/((n - 1)*case['runs'])) + 0.05, lambda:
                f'{KEYS[i]}: variance of the runs is {v}, expected {s**2}')
    d = gravtk.geocenter().from_UCI(dest/(stem + '.txt'))
    same(d.month, np.array(g.months), 'months')
    close(d.time, g.time, 'times', rtol=0, atol=5.1e-5)
    for i, k in enumerate(KEYS):
        w, e = got[i].mean(axis=1), got[i].std(axis=1)
        require(np.all(np.abs(getattr(d, k) - w) <= 1e-12*np.abs(got).max() + 5.1e-7*np.abs(w)),
            f'{k} is not the mean of the runs')
        require(np.all(np.abs(getattr(d, 'e' + k) - e) <= 1e-12*np.abs(got).max()
            + 5.1e-7*np.abs(e)), f'e{k} is not the deviation of the runs')


CHECKS = [
    Check('monte', s_monte, b_monte, quick=120, thorough=1500, rule='two months or more'),
    Check('solve', s_solve, b_solve, quick=120, thorough=1500, rule='two months or more'),
]

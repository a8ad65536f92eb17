"""Programs for mascons"""
import os
import stat
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, grc, meta, oracle, prog
from pbt import lowdeg as ld
from pbt.core import Check, close, require, same
from props.C01 import arguments
from props.F02 import guarded
from props.W01 import centre, logged, files_of, SPACE
from props.W03 import check_delta, read

ASSUMPTIONS = ['an archive as in F02 with thirteen months or more', 'windows of the smoothed '
    'series determine their terms', 'condition of the mascon kernels below 1e6', 'kernels '
    'that are redistributed have the degrees and orders of the solution']
SOLVERS = ['inv', 'lstsq', 'gelsd', 'gelsy', 'gelss']
NAMES = ['gre_{0}', 'AIS-{0}', 'alaska_lake{0}', 'Gre{0}_L{0}nd']


@st.composite
def s_mascons(draw):
    return dict(nmas=draw(st.integers(1, 4)), names=draw(st.sampled_from(NAMES)),
        tag=draw(st.sampled_from(['', '_L{0}', '_l{0}M{1}', '_L120', '_L100M100'])), more=draw(st.integers(-1, 3)),
        spread=draw(st.booleans()), fit=draw(st.sampled_from([None, 1, 2, 2])),
        solver=draw(st.sampled_from([None] + SOLVERS)), lmin=draw(st.sampled_from(
            [None, 0, 1, 2, 3])), comments=draw(st.booleans()))


@st.composite
def s_series(draw):
    c = draw(grc.s_tens(grc.s_grace(lo=1, hi=6, nmin=13, nmax=17)))
    c.update(draw(s_mascons()), form=draw(st.sampled_from([None] + grc.FORMS)),
        mform=draw(st.sampled_from([None] + grc.FORMS)), again=draw(st.booleans()),
        rebuild=draw(st.integers(0, 2)), extra=draw(st.integers(0, 2)))
    return centre(c)


def resize(v, lmax, mmax):
    out = np.zeros((lmax + 1, mmax + 1))
    a, b = min(lmax + 1, v.shape[0]), min(mmax + 1, v.shape[1])
    out[:a, :b] = v[:a, :b]
    return out


def earth(lmax, love):
    u = gravtk.units(lmax=lmax).harmonic(*love)
    return u.rad_e, u.rho_e


def mascons(case, root, form, lmax, mmax, sea, name='mascons.txt'):
    """files of uniform layers: kernels as used, areas, names and the index"""
    more = max(case['more'], 0) if case['spread'] else case['more']
    L = max(lmax + more, 1)
    # orders are limited by those of the fields
    files, K, A, names = [], [], [], []
    for k in range(case['nmas']):
        C, S = grc.coefficients(case['seed'] + 900 + k, L, 1e-10)
        C[0, 0] = 1e-10*(0.2 + 2*gen.rng(case['seed'], 90, k).random())
        stem = case['names'].format(k + 1)
        p = root/(stem + case['tag'].format(L, L) + grc.SUF[form])
        C, S = grc.save(p, form, C, S)
        A.append(C[0, 0])
        C, S = [resize(v, lmax, mmax) for v in (C, S)]
        if case['spread']:
            C, S = grc.spread(C, S, *sea)
        K.append((C, S))
        files.append(p)
        names.append(stem.upper() if '_L' not in stem else stem.upper().replace(
            f'_L{k + 1}', ''))
    index = root/name
    lines = [str(f) for f in files]
    if case['comments']:
        lines = ['# mascons', '', lines[0], '%' + str(root/'missing.nc'), ''] + lines[1:] + \
            ['#' + lines[0]]
    index.write_text('\n'.join(lines) + '\n')
    return K, np.array(A), names, index


def pairs(lmin, lmax, mmax):
    """cosine and sine terms of the degrees and orders"""
    return [(cs, l, m) for cs in range(2) for l in range(lmin, lmax + 1)
        for m in range(cs, min(l, mmax) + 1)]


def system(case, K, lmax, mmax, love, wt, fit):
    """terms, factors and pseudo-inverse of the kernels"""
    lmin = 1 if case['lmin'] is None else case['lmin']
    terms = pairs(lmin, lmax, mmax)
    l = np.array([t[1] for t in terms], dtype=int)
    fac = wt[l].copy()
    if fit == 1:
        fac *= (2*l + 1.0)/(1 + love.kl[l])
    M = np.array([[k[cs][a, b] for k in K] for cs, a, b in terms]).reshape(len(terms), len(K))
    return terms, fac, M*fac[:, None]


def solver(case, shape):
    """a direct inverse needs as many terms as mascons"""
    if case['solver'] == 'inv' and shape[0] != shape[1]:
        return 'gelss'
    return case['solver']


def flags(case, n, love, K, lmax, mmax, wt):
    fit = case['fit'] or 1
    terms, fac, D = system(case, K, lmax, mmax, love, wt, fit)
    if not terms:
        return None
    sv = np.linalg.svd(D, compute_uv=False)
    if sv[-1] <= 1e-6*sv[0]:
        return None
    args = []
    s = solver(case, D.shape)
    for k, v in (('fit-method', case['fit']), ('solver', s), ('lmin', case['lmin'])):
        if v is not None:
            args += ['--' + k, v]
    if case['spread']:
        args += ['--redistribute-mascons']
    return terms, fac, D, np.linalg.pinv(D), sv[0]/sv[-1], args


@guarded
def b_series(case, ctx):
    root = ctx.tmp
    g = grc.prepare(case, root, redistribute=True)
    ref = grc.delta(g)
    if ref is None:
        ctx.label('windows not estimable')
        return
    dC, dS, n = ref
    out = root/'out'
    form, mform = case['form'] or 'netCDF4', case['mform'] or 'netCDF4'
    love = gravtk.load_love_numbers(g.lmax, LOVE_NUMBERS=case['love'] or 0,
        REFERENCE=(case['ref'] or 'CF').upper(), FORMAT='class')
    (root/'kernels').mkdir()
    K, a, names, index = mascons(case, root/'kernels', mform, g.lmax, g.mmax, g.ocean)
    got = flags(case, n, love, K, g.lmax, g.mmax, g.wt)
    if got is None:
        ctx.label('kernels not independent')
        return
    terms, fac, D, B, cond, more = got
    args = g.grace + [x for x in g.args if x not in g.mask] + g.mask + more + [
        '--output-directory', out, '--mascon-file', index]
    for k, v in (('format', case['form']), ('mascon-format', case['mform'])):
        if v is not None:
            args += ['--' + k, v]
    C, S = g.C, g.S
    leak = ''
    if case['rebuild'] and form != 'ascii':
        # fields of the mascons of an earlier solution, with further months
        have = sorted(set(g.months) | set(range(g.months[0], g.months[-1] + case['extra'])))
        RC, RS = np.zeros_like(C), np.zeros_like(S)
        lines = ['# fields'] if case['comments'] else []
        for k in range(case['rebuild']):
            L = g.lmax + k
            F = [np.stack(v, axis=2) for v in zip(*[grc.coefficients(case['seed'] + 3000
                + 100*k + j, L, 5e-10) for j in have])]
            p = root/f'field{k}{grc.SUF[form]}'
            grc.save(p, form, *F, [ld.middle(j) for j in have], have)
            pick = [have.index(j) for j in g.months]
            RC += F[0][:g.lmax + 1, :g.mmax + 1, pick]
            RS += F[1][:g.lmax + 1, :g.mmax + 1, pick]
            lines.append(str(p))
        (root/'fields.txt').write_text('\n'.join(lines) + '\n')
        if case['destripe']:
            RC, RS = grc.destripe(RC, RS, g.time, g.months)
        C, S = C - RC, S - RS
        args += ['--remove-reconstruct', '--reconstruct-file', root/'fields.txt']
        leak = '_LEAKAGE'
    args = arguments(case, str(root), args)
    prog.run('calc_mascon', *args)
    if case['again']:
        first = {f: (out/f).read_bytes() for f in files_of(out)}
        for f in list(out.iterdir()):
            f.unlink()
        prog.run('calc_mascon', *args)
        same(files_of(out), set(first), 'files of the second run')
    lim = check_delta(case, g, form, dC, dS, n)
    sea = '_OCN' if case['spread'] or (case['redist'] and case['remove']) else ''
    dset = '' if case['dset'] == 'GSM' else f"_{case['dset']}"
    files = [f'{k}{dset}{g.gia.upper()}{g.atm}{sea}_L{g.lmax}{g.order}{g.gauss}{g.filter}{leak}.txt'
        for k in names]
    same(files_of(out), set(files), 'files')
    logged(case, out, files)
    pick = lambda c, s: np.array([(c, s)[i][l, m] for i, l, m in terms])
    Y, R, E, slack = pick(C, S), pick(*g.raw), pick(dC, dS), pick(lim, lim)
    rad, rho = earth(g.lmax, g.love)
    for k, f in enumerate(files):
        area = 4*np.pi*rad**3*rho*a[k]/3
        W = B[k]*fac*area/1e15
        rows = np.loadtxt(out/f, ndmin=2)
        same(rows.shape, (len(g.months), 5), f'{f}: shape')
        same(rows[:, 0].astype(int), np.array(g.months), f'{f}: months')
        close(rows[:, 1], g.time, f'{f}: times', rtol=0, atol=5.1e-5)
        tol = (1e-9 + 1e-13*cond)*(np.abs(W) @ np.abs(Y)) + 1e-13*(np.abs(W) @ np.abs(R)) + 6e-11
        want = W @ Y
        require(np.all(np.abs(rows[:, 2] - want) <= tol), lambda:
            f'{f}: mass {rows[:3, 2]} not {want[:3]}')
        err = np.sqrt(((E*W)**2).sum())
        t = 2*np.sqrt(((slack*W)**2).sum()) + (1e-7 + 1e-13*cond)*np.abs(E*W).sum() + 6e-11
        require(np.all(np.abs(rows[:, 3] - err) <= t), lambda:
            f'{f}: errors {rows[:2, 3]} not {err}')
        close(rows[:, 4], np.full(len(rows), area/1e10), f'{f}: areas', rtol=1e-12, atol=5.1e-6)
        same(stat.S_IMODE(os.stat(out/f).st_mode), int(case['mode'] or '775', 8), 'permissions')
    ctx.nontrivial(len(terms) > 2)
    ctx.label(f"fit {case['fit'] or 1}", f"solver {solver(case, D.shape)}", mform, f"n={case['nmas']}",
        leak or 'complete', 'spread' if case['spread'] else 'local', 'again' if case['again']
        else 'once', 'under' if D.shape[0] < D.shape[1] else 'over')


# ----------------------------------------------------------------- kernels
@st.composite
def s_kernel(draw):
    lmax = draw(st.integers(1, 9))
    c = dict(draw(s_mascons()), seed=draw(gen.seeds), lmax=lmax, mmax=draw(st.sampled_from(
        [None, None, 0, 1, 2, 3, lmax])), love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        ref=draw(st.sampled_from([None, 'CF', 'CM', 'CE', 'cm'])),
        rad=draw(st.sampled_from([None, 0, 250, 300.5, 1000])), form=draw(st.sampled_from(
            [None] + grc.FORMS)), mask=draw(st.sampled_from(['white', 'blocks'])),
        argfile=draw(st.booleans()), mode=draw(st.sampled_from([None, '640', '775'])),
        log=draw(st.integers(0, 5)) == 0, grid=draw(st.booleans()), space=draw(
            st.sampled_from(SPACE)), interval=draw(st.sampled_from([1, 2, 2, 3])))
    return centre(c)


def options(case, root):
    """common settings of the programs without a mission archive"""
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else min(case['mmax'], lmax)
    args = ['--lmax', lmax]
    if case['mmax'] is not None:
        args += ['--mmax', mmax]
    for k in ('love', 'radius', 'mode', 'format', 'reference'):
        v = case[dict(radius='rad', format='form', reference='ref').get(k, k)]
        if v is not None:
            args += ['--' + k, v]
    kw = dict(LOVE_NUMBERS=case['love'] or 0, REFERENCE=(case['ref'] or 'CF').upper())
    love = gravtk.load_love_numbers(lmax, **kw)
    cls = gravtk.load_love_numbers(lmax, FORMAT='class', **kw)
    wt = 2*np.pi*gravtk.gauss_weights(case['rad'], lmax) if case['rad'] else np.ones(lmax + 1)
    gauss = f'_r{case["rad"]:0.0f}km' if case['rad'] else ''
    order = f'M{mmax}' if mmax != lmax else ''
    return lmax, mmax, args, love, cls, wt, gauss, order


def b_kernel(case, ctx):
    root = ctx.tmp
    lmax, mmax, args, love, cls, wt, gauss, order = options(case, root)
    form = case['form'] or 'netCDF4'
    sea = grc.ocean(case, root/'mask.nc', lmax, mmax, love) if case['spread'] else None
    K, a, names, index = mascons(case, root, form, lmax, mmax, sea)
    got = flags(case, 0, cls, K, lmax, mmax, wt)
    if got is None:
        ctx.label('kernels not independent')
        return
    terms, fac, D, B, cond, more = got
    out = root/'out'
    args += more + ['--mascon-file', index, '--output-directory', out]
    if case['spread']:
        args += ['--mask', root/'mask.nc']
    if case['log']:
        args += ['--log']
    if case['grid']:
        lon, lat, extra = grc.grid(case, case['space'], case['interval'])
        args += extra + ['--spatial']
    prog.run('calc_sensitivity_kernel', *arguments(case, str(root), args))
    ocn = '_OCN' if case['spread'] else ''
    f1 = [f'{k}_SKERNEL_CLM{ocn}_L{lmax}{order}{gauss}{grc.SUF[form]}' for k in names]
    f2 = [f'{k}_SKERNEL{ocn}_L{lmax}{order}{gauss}{grc.SUF[form]}' for k in names]
    same(files_of(out), set(f1 + f2 if case['grid'] else f1), 'files')
    logs = [f for f in out.iterdir() if f.name.endswith('.log')]
    same(len(logs), int(case['log']), 'number of logs')
    if logs:
        text = logs[0].read_text()
        for f in files_of(out):
            require(f in text, f'{f} is not in the log')
    for f in files_of(out):
        same(stat.S_IMODE(os.stat(out/f).st_mode), int(case['mode'] or '775', 8), 'permissions')
    rad, rho = earth(lmax, love)
    for k in range(case['nmas']):
        area = 4*np.pi*rad**3*rho*a[k]/3
        C, S = np.zeros((lmax + 1, mmax + 1)), np.zeros((lmax + 1, mmax + 1))
        for i, (cs, l, m) in enumerate(terms):
            v = B[k, i]*fac[i]*area
            if (case['fit'] or 1) == 1:
                v *= 3/(4*np.pi*rho*rad**3)*(1 + cls.kl[l])/(2*l + 1)
            (C, S)[cs][l, m] = v
        h = gravtk.harmonics().from_file(out/f1[k], format=form, date=False)
        size = np.abs(C).max() + np.abs(S).max()
        for x, y, s in ((h.clm, C, 'cosine'), (h.slm, S, 'sine')):
            close(x, y, f'{f1[k]}: {s} terms', rtol=1e-11, atol=(1e-10 + 1e-13*cond)*size)
        if form != 'ascii':
            for f in f1[k:k + 1] + (f2[k:k + 1] if case['grid'] else []):
                att, top = meta.attributes(out/f, form)
                same(top['reference'], 'Output from calc_sensitivity_kernel.py', f'{f}: reference')
                if f == f2[k]:
                    same((att['z']['units'], att['z']['long_name']), ('unitless',
                        'Sensitivity_Kernel'), f'{f}: units')
        if case['grid']:
            v, at = read(out/f2[k], form, lon, lat)
            w = oracle.synth(C, S, lon, lat, mmax=mmax).T
            require(np.all(np.abs(v - w) <= (1e-9 + 1e-13*cond)*(oracle.basis_bound(C, S)
                + size) + at), lambda: f'{f2[k]}: {v.ravel()[:3]} not {w.ravel()[:3]}')
    ctx.nontrivial(len(terms) > 2)
    ctx.label(f"fit {case['fit'] or 1}", f"solver {solver(case, D.shape)}", form, f"n={case['nmas']}",
        'grid' if case['grid'] else 'terms', 'spread' if case['spread'] else 'local')


# ----------------------------------------------------------------- reconstruction
@st.composite
def s_rebuild(draw):
    lmax = draw(st.integers(1, 9))
    return dict(draw(s_mascons()), seed=draw(gen.seeds), lmax=lmax, mmax=draw(st.sampled_from(
        [None, None, 0, 1, 2, 3, lmax])), love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        ref=draw(st.sampled_from([None, 'CF', 'CM', 'CE', 'cm'])),
        rad=draw(st.sampled_from([None, 0, 250, 300.5, 1000])), form=draw(st.sampled_from(
            [None, 'netCDF4', 'HDF5'])), mask=draw(st.sampled_from(['white', 'blocks'])),
        argfile=draw(st.booleans()), mode=draw(st.sampled_from([None, '640', '775'])),
        n=draw(st.integers(1, 9)), first=draw(st.integers(0, 60)), dset=draw(st.sampled_from(
            [None, 'GSM', 'GAC'])), gia=draw(st.booleans()), atm=draw(st.booleans()),
        destripe=draw(st.booleans()), home=draw(st.booleans()))


def b_rebuild(case, ctx):
    root = ctx.tmp
    lmax, mmax, args, love, cls, wt, gauss, order = options(case, root)
    form = case['form'] or 'netCDF4'
    sea = grc.ocean(case, root/'mask.nc', lmax, mmax, love) if case['spread'] else None
    K, a, names, index = mascons(case, root, form, lmax, mmax, sea)
    out = root/'out'
    out.mkdir()
    months = ld.BASE[case['first']:case['first'] + case['n']]
    start, end = months[0] - 1, months[-1] + 2
    args += ['--mascon-file', index, '--output-directory', out, '--start', start, '--end', end,
        '--reconstruct-file', root/'new.txt']
    if case['spread']:
        args += ['--redistribute-mascons', '--mask', root/'mask.nc']
    gia = ''
    if case['gia']:
        p = root/('stokes_model-1' + grc.SUF[form])
        grc.save(p, form, *grc.coefficients(case['seed'], lmax, 1e-10), title='model-1')
        args += ['--gia', form, '--gia-file', p]
        gia = '_MODEL-1'
    dset = ''
    if case['dset']:
        args += ['--product', case['dset']]
        dset = '' if case['dset'] == 'GSM' else '_' + case['dset']
    atm = filt = ''
    if case['atm']:
        args += ['--atm-correction']
        atm = '_wATM'
    if case['destripe']:
        args += ['--destripe']
        filt = '_FL'
    ocn = '_OCN' if case['spread'] else ''
    r = gen.rng(case['seed'], 77)
    rows, base = [], []
    for k, name in enumerate(names):
        base.append(f'{name}{dset}{gia}{atm}{ocn}_L{lmax}{order}{gauss}{filt}')
        v = np.round(r.normal(0, 100, len(months)), 10)
        rows.append((np.array([round(ld.middle(j), 4) for j in months]), v))
        with open(out/(base[k] + '.txt'), 'w') as f:
            for j, t, x in zip(months, *rows[k]):
                f.write(f'{j:03d} {t:12.4f} {x:16.10f} {1.0:16.10f} {2.0:16.5f}\n')
    before = files_of(out)
    prog.run('mascon_reconstruct', *arguments(case, str(root), args))
    files = [f'{b}_{start:03d}-{end:03d}{grc.SUF[form]}' for b in base]
    same(files_of(out), before | set(files), 'files')
    listed = [os.path.expanduser(x) for x in (root/'new.txt').read_text().split()]
    same(listed, [str(out/f) for f in files], 'index of the fields')
    rad, rho = earth(lmax, love)
    for f in [out/f for f in files] + [root/'new.txt']:
        same(stat.S_IMODE(os.stat(f).st_mode), int(case['mode'] or '775', 8), 'permissions')
    for k, f in enumerate(files):
        h = gravtk.harmonics().from_file(out/f, format=form)
        same(meta.attributes(out/f, form)[1]['reference'],
            'Output from mascon_reconstruct.py', f'{f}: reference')
        same(np.atleast_1d(h.month), np.array(months), 'months')
        close(np.atleast_1d(h.time), rows[k][0], 'times', rtol=0, atol=1e-9)
        sigma = rows[k][1]*1e15/(4*np.pi*rad**3*rho*a[k]/3)
        for x, y, s in ((h.clm, K[k][0], 'cosine'), (h.slm, K[k][1], 'sine')):
            x = x.reshape(lmax + 1, mmax + 1, len(months))
            w = y[:, :, None]*sigma
            close(x, w, f'{f}: {s} terms', rtol=1e-11, atol=1e-11*np.abs(w).max())
    ctx.nontrivial(len(months) > 1)
    ctx.label(form, 'spread' if case['spread'] else 'local', f'months={min(len(months), 3)}')


CHECKS = [
    Check('series', s_series, b_series, quick=120, thorough=1500, rule='three terms or more'),
    Check('kernel', s_kernel, b_kernel, quick=250, thorough=4000, rule='three terms or more'),
    Check('rebuild', s_rebuild, b_rebuild, quick=200, thorough=3000, rule='two months or more'),
]

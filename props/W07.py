"""Programs that draw series and print resolutions"""
import os
import re
import stat
import matplotlib.figure
import matplotlib.offsetbox
import matplotlib.pyplot as plt
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, prog
from pbt import lowdeg as ld
from pbt.core import Check, close, require, same
from pbt.l2 import number
from props.F04 import R0

ASSUMPTIONS = ['geocenter series span the gap between the missions and list a month once',
    'figures are recorded when they are saved instead of being drawn']
COLS = dict(x='C11', y='S11', z='C10')


class Saved:
    """figures at the time they are saved"""

    def __enter__(self):
        self.figures = []
        self.old = matplotlib.figure.Figure.savefig
        out = self.figures

        def savefig(fig, name, *args, **kw):
            axes = []
            for ax in fig.axes:
                axes.append(dict(title=ax.get_title(), xlabel=ax.get_xlabel(),
                    ylabel=ax.get_ylabel(), legend=[t.get_text() for t in
                    ax.get_legend().get_texts()] if ax.get_legend() else [],
                    lines=[(str(l.get_label()), np.array(l.get_xdata(), dtype=float),
                        np.array(l.get_ydata(), dtype=float)) for l in ax.lines],
                    spans=[(p.get_x(), p.get_x() + p.get_width()) for p in ax.patches
                        if hasattr(p, 'get_width')],
                    bands=[q.vertices.copy() for c in ax.collections
                        for q in c.get_paths()],
                    text=[a.txt.get_text() for a in ax.artists
                        if isinstance(a, matplotlib.offsetbox.AnchoredText)]))
            with open(name, 'w') as f:
                f.write('figure')
            out.append((str(name), kw, axes, fig.number))
        matplotlib.figure.Figure.savefig = savefig
        plt.close('all')
        return self.figures

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.old
        plt.close('all')


def line(ax, label, what):
    """the line of a label"""
    hit = [v for v in ax['lines'] if v[0] == label]
    same(len(hit), 1, f'{what}: lines of {label}')
    return hit[0][1:]


def spaced(months, want, ser, val):
    """series at the months asked for, undefined without a solution"""
    t, v = np.full(len(want), np.nan), np.full((len(want),) + val.shape[1:], np.nan)
    for i, m in enumerate(want):
        if m in months:
            t[i], v[i] = ser[months.index(m)], val[months.index(m)]
    return t, v


# months that are not part of the special accelerometer periods
BASE = [m for m in list(range(10, 100)) + list(range(164, 177)) + [179, 180] +
    list(range(199, 215))]


@st.composite
def s_centers(draw):
    return dict(seed=draw(gen.seeds), prog=draw(st.sampled_from(['centers', 'models', 'tellus'])),
        n=draw(st.integers(1, 25)), start=draw(st.sampled_from([None, 4, 12, 40])),
        end=draw(st.sampled_from([None, 190, 200, 210])),
        missing=draw(st.sampled_from([None, 'some'])), rel=draw(st.sampled_from(
            [None, 'RL04', 'RL05', 'RL06'])),
        pick=draw(st.permutations(['CSR', 'GFZ', 'JPL', 'GFZwPT', 'GFZ+CS21',
            'GFZ+CS21+CS22'])), few=draw(st.sampled_from([None, 1, 2, 3])),
        ocean=draw(st.permutations(['MPIOM', 'OMCT', 'ECCO_kf080i', 'ECCO_V4r4',
            'ECCO_V5alpha'])), no=draw(st.integers(1, 5)))


def series(case, salt):
    """months, dates and coefficients"""
    r = gen.rng(case['seed'], salt)
    # the mean is over the months up to 176
    ends = [e for e in (case['start'] or 4, 176, 179) if r.random() < 0.7]
    k = sorted(set(int(v) for v in r.choice(BASE, case['n'], replace=False)) | {50, 186, 198}
        | set(ends))
    t = [round(ld.middle(m), 5) for m in k]
    c = {q: np.array([float(number(v)) for v in r.standard_normal(len(k))*1e-9])
        for q in ('C10', 'C11', 'S11')}
    return k, np.array(t), c


def uci(path, k, t, c):
    names = ['C10', 'C11', 'S11']
    text = ['header:', '  title: Geocenter coefficients', '  variables:',
        '    mid-epoch_time:', '      comment: 1st column']
    for j, q in enumerate(names):
        text += [f'    {q}:', f'      comment: {j+2}{["nd", "rd", "th"][j]} column']
    text += ['    month:', '      comment: 5th column', '', '', '# End of YAML header']
    rows = [f'{t[i]:11.5f} ' + ' '.join(number(c[q][i]) for q in names) + f' {k[i]:4d}'
        for i in range(len(k))]
    path.write_text('\n'.join(text + rows) + '\n')


def tellus(path, k, c):
    """dates as the reader gives them"""
    rows, t = [], []
    for i, m in enumerate(k):
        y, mo = ld.first_of(m)
        a, b = (y, mo, 2), (y, mo, 27)
        t.append((ld.decimal(*a) + ld.decimal(*b))/2)
        tail = f' {a[0]:4d}{a[1]:02d}{a[2]:02d}.0000 {b[0]:4d}{b[1]:02d}{b[2]:02d}.0000 yyyy'
        z = number(0.0)
        rows.append(f'GRCOF2    1    0 {number(c["C10"][i])} {z} {z} {z}{tail}')
        rows.append(f'GRCOF2    1    1 {number(c["C11"][i])} {number(c["S11"][i])} {z} {z}{tail}')
    path.write_text('\n'.join(['end of header ====='] + rows) + '\n')
    return np.array(t)


def mean_free(k, c, start):
    use = [i for i, m in enumerate(k) if start <= m <= 176]
    return {q: (v - v[use].mean())*R0*np.sqrt(3)/1.021 for q, v in c.items()}


MISS = [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172, 177, 178,
    182, 200, 201]


def b_centers(case, ctx):
    root = ctx.tmp
    which = case['prog']
    rel = case['rel'] or 'RL06'
    model = 'MPIOM' if rel == 'RL06' else 'OMCT'
    start = case['start'] or 4
    end = case['end'] or {'centers': 230, 'models': 227, 'tellus': 231}[which]
    missing = MISS if case['missing'] is None else [11, 55, 170, 204]
    args = ['--directory', root]
    if case['rel']:
        args += ['--release', rel]
    if case['start']:
        args += ['--start', start]
    if case['end']:
        args += ['--end', end]
    if case['missing']:
        args += ['--missing', *missing]
    lines, span = {}, {}
    salt = 0

    def solution(name):
        nonlocal salt
        salt += 1
        k, t, c = series(case, salt)
        uci(root/f'{name}.txt', k, t, c)
        return k, t, mean_free(k, c, start)
    if which == 'centers':
        # the default names four solutions
        pick = ['CSR', 'GFZ', 'GFZwPT', 'JPL'] if case['few'] is None else \
            [p for p in case['pick']][:case['few'] + 1]
        made = {}
        for p in pick:
            flag = {'GFZwPT': 'GFZ_%s_wSLR21', 'GFZ+CS21': 'GFZ_%s_wSLR21',
                'GFZ+CS21+CS22': 'GFZ_%s_wSLR21_wSLR22'}.get(p, p + '_%s') % \
                f'{rel}_{model}_SLF_iter'
            if flag not in made:
                made[flag] = solution(flag)
            lines.setdefault(None, {})[p] = made[flag]
        span[None] = made[flag]
        name = 'geocenter_processing_centers'
        files = {None: f'SV19_{rel}_centers.pdf'}
        if case['few'] is not None:
            args += ['--center', *pick]
    elif which == 'models':
        pick = [p for p in case['pick'] if len(p) == 3]
        pick = ['CSR', 'GFZ', 'JPL'] if case['few'] is None else pick[:case['few']]
        ocean = case['ocean'][:case['no']]
        for p in pick:
            lines[p] = {}
            for m in ocean:
                lines[p][m.replace('_', '-')] = v = solution(f'{p}_{rel}_{m}_SLF_iter')
                if m == model:
                    span[p] = v
            if p not in span:
                span[p] = solution(f'{p}_{rel}_{model}_SLF_iter')
        name = 'geocenter_ocean_models'
        files = {p: f'SV19_{p}_{rel}_ocean_models.pdf' for p in pick}
        args += ['--ocean', *ocean]
        if case['few'] is not None:
            args += ['--center', *pick]
    else:
        for p in ('CSR', 'GFZ', 'JPL'):
            lines[p] = {'Iterated SLF': solution(f'{p}_{rel}_{model}_SLF_iter')}
            salt += 1
            k, t, c = series(case, salt)
            t = tellus(root/f'TN-13_GEOC_{p}_{rel}.txt', k, c)
            lines[p]['JPL Tellus'] = span[p] = (k, t, mean_free(k, c, start))
        name = 'geocenter_compare_tellus'
        files = {p: f'TN13_SV19_{p}_{rel}.pdf' for p in lines}
    with Saved() as figures:
        prog.run(name, *args)
    same([os.path.basename(f[0]) for f in figures], [files[p] for p in lines], 'figures')
    want = [m for m in range(start, end + 1) if m not in missing]
    for (path, kw, axes, _), p in zip(figures, lines):
        same(os.path.dirname(path), str(root), 'directory of the figures')
        same([a['title'] for a in axes], ['x', 'y', 'z'], 'titles')
        if 'legend' in axes[0]:
            same(axes[0]['legend'], list(lines[p]), 'legend')
        for a in axes:
            for label, (k, t, c) in lines[p].items():
                x, y = line(a, label, a['title'])
                wx, wy = spaced(k, want, t, c[COLS[a['title']]])
                close(x, wx, f'{p} {label}: dates', rtol=0, atol=1e-9)
                close(y, wy, f"{p} {label}: {a['title']}", rtol=0, atol=1e-9)
            k, t, _ = span[p]
            gap = (t[k.index(186)], t[k.index(198)])
            require(any(abs(u - gap[0]) < 1e-9 and abs(v - gap[1]) < 1e-9 for u, v in
                a['spans']), f'gap between the missions: {a["spans"]} not {gap}')
    ctx.nontrivial(case['n'] > 2)
    ctx.label(which, rel)


@st.composite
def s_runs(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(1, 25)), runs=draw(st.integers(1, 6)),
        start=draw(st.sampled_from([None, 4, 40])), end=draw(st.sampled_from([None, 190, 210])),
        missing=draw(st.sampled_from([None, 'some'])), rel=draw(st.sampled_from(
            [None, 'RL05', 'RL06'])), proc=draw(st.sampled_from(['CSR', 'GFZ', 'JPL'])))


def b_runs(case, ctx):
    root = ctx.tmp
    rel = case['rel'] or 'RL06'
    start, end = case['start'] or 4, case['end'] or 236
    missing = MISS if case['missing'] is None else [11, 55, 170, 204]
    k, t, _ = series(case, 1)
    r = gen.rng(case['seed'], 2)
    c = {q: r.standard_normal((len(k), case['runs']))*1e-10 for q in ('C10', 'C11', 'S11')}
    model = 'MPIOM' if rel == 'RL06' else 'OMCT'
    f = root/f"{case['proc']}_{rel}_{model}_SLF_AW13_ice6g_GA_monte_carlo_FL.nc"
    with netCDF4.Dataset(f, 'w') as nc:
        nc.createDimension('time', len(k))
        nc.createDimension('run', case['runs'])
        nc.createVariable('time', 'f8', ('time',))[:] = t
        nc.createVariable('month', 'i4', ('time',))[:] = k
        for q, v in c.items():
            nc.createVariable(q, 'f8', ('time', 'run'))[:] = v
    args = ['--directory', root, '--center', case['proc']]
    for key, v in (('rel', 'release'), ('start', 'start'), ('end', 'end')):
        if case[key]:
            args += ['--' + v, case[key]]
    if case['missing']:
        args += ['--missing', *missing]
    with Saved() as figures:
        prog.run('geocenter_monte_carlo', *args)
    same([f[0] for f in figures], [str(root/f"SV19_{case['proc']}_{rel}_monte_carlo.pdf")],
        'figures')
    want = [m for m in range(start, end + 1) if m not in missing]
    axes = figures[0][2]
    same([a['title'] for a in axes], ['x', 'y', 'z'], 'titles')
    for a in axes:
        x, y = spaced(k, want, t, c[COLS[a['title']]]*R0*np.sqrt(3)/1.021)
        mu = y.mean(axis=1)
        got = [v for v in a['lines'] if len(v[1]) == len(want)]
        if len(want) != 2:
            same(len(got), case['runs'] + 1, 'lines')
            for i, v in enumerate(got):
                close(v[1], x, 'dates', rtol=0, atol=1e-9)
                close(v[2], y[:, i] if i < case['runs'] else mu, f"run {i} of {a['title']}",
                    rtol=0, atol=1e-9)
        d = y[np.isfinite(mu)] - mu[np.isfinite(mu)][:, None]
        rms, top = np.sqrt((d**2).mean(axis=0)).mean(), np.abs(d).max()
        text = [re.findall(r'= ([\d.]+) mm', s) for s in a['text'] if 'max' in s]
        same(len(text), 1, 'text of the statistics')
        close(np.array(text[0], dtype=float), np.array([rms, top]), 'statistics', rtol=0,
            atol=0.00501)
    ctx.nontrivial(case['runs'] > 1 and case['n'] > 2)


@st.composite
def s_mascon(draw):
    return dict(seed=draw(gen.seeds), files=draw(st.integers(1, 3)),
        kind=draw(st.lists(st.sampled_from(['both', 'both', 'grace', 'fo']), min_size=3,
            max_size=3)), drop=draw(st.integers(0, 12)), header=draw(st.sampled_from([0, 0, 2])),
        individual=draw(st.booleans()), error=draw(st.booleans()), all=draw(st.booleans()),
        legend=draw(st.booleans()), zorder=draw(st.booleans()), title=draw(st.sampled_from(
            [None, 'Mass_of_ice'])), time=draw(st.booleans()), units=draw(st.booleans()),
        marker=draw(st.booleans()), form=draw(st.sampled_from([None, 'png', 'svg'])),
        mode=draw(st.sampled_from([None, '640'])), sub=draw(st.booleans()))


def b_mascon(case, ctx):
    root = ctx.tmp
    paths, tables = [], []
    for i in range(case['files']):
        r = gen.rng(case['seed'], i)
        kind = case['kind'][i]
        k = [m for m in range(20, 215) if not 186 < m < 198]
        k = [m for m in k if (kind == 'both') or (m <= 186) == (kind == 'grace')]
        if kind == 'fo':
            k = list(range(198, 240))
        n = len(k)
        inner = [m for m in k[1:-1] if m not in (186, 198)]
        gone = set(int(v) for v in r.choice(inner, case['drop'], replace=False))
        k = np.array([m for m in k if m not in gone])
        t = np.array([round(ld.middle(int(m)), 5) for m in k])
        d = np.round(100 + r.normal(0, 30)*(t - t[0]) + r.normal(0, 3)*(t - t[0])**2 +
            r.standard_normal(len(k))*20, 4)
        e = np.round(r.uniform(1, 5, len(k)), 4)
        p = root/f'MASCON_{i}.txt'
        p.write_text('text 1 2\n'*case['header'] + ''.join(
            f'{a:03d} {b:12.5f} {c:16.4f} {f:16.4f} {1000.0:16.4f}\n'
            for a, b, c, f in zip(k, t, d, e)))
        paths.append(p)
        tables.append((k, t, d, e))
    args = [*paths]
    form = case['form'] or 'pdf'
    target = root/'figs' if case['sub'] else root
    target.mkdir(exist_ok=True)
    target = target/f'plot.{form}'
    opt = ['--output-file', target]
    if case['header']:
        opt += ['--header', case['header']]
    for k in ('individual', 'error'):
        if case[k]:
            opt += ['--' + k]
    if case['all']:
        opt += ['--all']
    if case['marker']:
        opt += ['--marker', 'o']
    for k in ('title', 'mode'):
        if case[k]:
            opt += ['--' + k, case[k]]
    if case['form']:
        opt += ['--figure-format', form]
    if case['time']:
        opt += ['--time', 'Year']
    if case['units']:
        opt += ['--units', 'Mass']
    names = [f'L{i}' for i in range(len(paths))]
    if case['legend']:
        opt += ['--legend', *names]
    if case['zorder']:
        opt += ['--zorder', *range(2, 2 + len(paths))]
    with Saved() as figures:
        text = prog.run('quick_mascon_plot', *opt[:2], *args, *opt[2:], cwd=root).splitlines()
    same(len(text), 4*len(paths), 'lines of text')
    many = case['individual'] and len(paths) > 1
    same([f[0] if os.path.isabs(f[0]) else str(root/f[0]) for f in figures],
        [str(target.with_name(f'plot_{i+1}.{form}')) for i in range(len(paths))]
        if many else [str(target)], 'figures')
    for f in figures:
        same(stat.S_IMODE(os.stat(f[0] if os.path.isabs(f[0]) else root/f[0]).st_mode),
            int(case['mode'] or '775', 8), 'permissions')
        same(f[1].get('format'), form, 'format of the figure')
    for i, (k, t, d, e) in enumerate(tables):
        same(text[4*i], paths[i].name, 'name')
        terms = [v for v in gravtk.time_series.aliasing_terms(t) if np.any(v)]
        A = lambda o: np.array([(t - t.mean())**q for q in range(o + 1)] + [f(2*np.pi*t/c)
            for c in (0.5, 1.0) for f in (np.sin, np.cos)] + terms).T
        stats = []
        for o in (1, 2):
            X = A(o)
            q = np.linalg.pinv(X)
            b = q @ d
            res = d - X @ b
            n, p = X.shape
            K = p + 1.0
            aic = n*np.log(res @ res/n) + 2*K + 2*K*(K + 1)/(n - K - 1)
            se = np.sqrt(res @ res/(n - p)*np.diag(q @ q.T))
            import scipy.stats
            stats.append((b[o]*o, se[o]*o*scipy.stats.t.ppf(0.975, n - p), aic))
        num = [[float(v) for v in re.findall(r'-?\d+\.\d+(?:e[+-]?\d+)?', s.split(':')[1])]
            for s in text[4*i + 1:4*i + 4]]
        top = np.abs(d).max()
        for s, w, what in ((num[0], stats[0][:2], 'trend'), (num[1], stats[1][:2],
                'acceleration'), (num[2], [stats[1][2] - stats[0][2]], 'AIC')):
            close(np.array(s), np.array(w), f'{what} of series {i}', rtol=0,
                atol=5.1e-5 + 1e-8*top)
        ax = figures[i if many else 0][2]
        same(len(ax), 1, 'axes')
        ax = ax[0]
        got = ax['lines'][0 if many else i]
        if case['legend']:
            same(got[0], names[i], 'label')
        if case['all']:
            wx, wy, we = t, d - d[0], e
        else:
            want = [m for m in range(k[0], k[-1] + 1) if m in k or 187 <= m <= 197]
            wx, wy = spaced(list(k), want, t, d - d[0])
            we = spaced(list(k), want, t, e)[1]
        close(got[1], wx, f'dates of series {i}', rtol=0, atol=1e-9)
        close(got[2], wy, f'series {i}', rtol=0, atol=1e-9)
        if case['error']:
            band = np.concatenate(ax['bands']) if ax['bands'] else np.zeros((0, 2))
            for x, y, s in zip(wx, wy, we):
                if np.isfinite(y):
                    for v in (y - s, y + s):
                        require(np.any((np.abs(band[:, 0] - x) < 1e-9) &
                            (np.abs(band[:, 1] - v) < 1e-6)), f'errors of series {i}')
        if i == 0 or many:
            same(ax['xlabel'], 'Year' if case['time'] else 'Time [Yr]', 'label of the dates')
            same(ax['ylabel'], 'Mass' if case['units'] else 'Mass [Gt]', 'label of the mass')
            same(ax['title'], 'Mass of ice' if case['title'] else '', 'title')
            if not case['all'] and 186 in k and 198 in k:
                gap = (t[list(k).index(186)], t[list(k).index(198)])
                require(any(abs(u - gap[0]) < 1e-9 and abs(v - gap[1]) < 1e-9
                    for u, v in ax['spans']), 'gap between the missions')
    ctx.nontrivial(case['files'] > 1)
    ctx.label('individual' if many else 'single', 'all' if case['all'] else 'monthly',
        *case['kind'][:case['files']])


@st.composite
def s_resolution(draw):
    return dict(lmax=draw(st.lists(st.integers(1, 3000), min_size=1, max_size=5)),
        radius=draw(st.sampled_from([None, 6371.0, 1737.4, 1.0])), cap=draw(st.booleans()))


def b_resolution(case, ctx):
    args = ['--lmax', *case['lmax']]
    if case['radius']:
        args += ['--radius', case['radius']]
    if case['cap']:
        args += ['--cap']
    rows = prog.run('calc_harmonic_resolution', *args).splitlines()
    same(len(rows), len(case['lmax']), 'rows')
    R = case['radius'] or 6371.0008
    for row, L in zip(rows, case['lmax']):
        a, b = row.split(':')
        same(int(a), L, 'degree')
        same(b.split()[1], 'km', 'units')
        v = float(b.split()[0])
        if case['cap']:
            # as many caps of this diameter as there are harmonics cover the sphere
            want = 2*R*np.arccos(np.clip(1 - 2/(L + 1)**2, -1, 1))
            close(v, want, 'cap', rtol=1e-6, atol=5.1e-5)
        else:
            close(v*L, np.pi*R, 'half wavelengths around half of the equator', rtol=1e-12,
                atol=5.1e-5*L)
    ctx.nontrivial(len(case['lmax']) > 1)


CHECKS = [
    Check('geocenter', s_centers, b_centers, quick=100, thorough=1500,
        rule='more than two months besides the ends of the gap'),
    Check('runs', s_runs, b_runs, quick=60, thorough=1000,
        rule='more than one run and more than two months'),
    Check('mascons', s_mascon, b_mascon, quick=100, thorough=1500,
        rule='more than one series'),
    Check('resolution', s_resolution, b_resolution, quick=100, thorough=2000,
        rule='more than one degree'),
]

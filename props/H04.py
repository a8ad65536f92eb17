"""Harmonic time series: each date keeps its coefficients, time, month, file"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['months of a series are unique: duplicated months are adjusted '
    'by documented rules, which T02 decides (special_months: they are adjusted '
    'wherever a series is put together)',
    'either all or none of the dates of a series have a file name']


def records(case):
    """n dates in arbitrary order, each tagged by its own coefficients"""
    n, lmax, mmax = case['n'], *case['lm']
    month, time = hx.months_times(case['seed'], n)
    perm = gen.rng(case['seed'], 3).permutation(n)
    out = []
    for k in perm:
        c, s = gen.coeffs(dict(seed=case['seed'] + 7*int(k), kind='dense', scale=1.0),
            lmax, mmax)
        c[0, 0] = k + 1
        out.append(dict(clm=c, slm=s, time=time[k], month=month[k],
            file=f'/data/f_{month[k]:03d}.txt' if case['files'] else None))
    return out


def single(r, scalar=True, grow=0):
    l, m = r['clm'].shape[0] - 1, r['clm'].shape[1] - 1
    h = gravtk.harmonics(lmax=l + grow, mmax=m + grow)
    h.zeros()
    h.clm[:l + 1, :m + 1], h.slm[:l + 1, :m + 1] = r['clm'], r['slm']
    if grow:
        h.clm[l + 1:] = 7.0
    if scalar:
        h.time, h.month = np.float64(r['time']), np.int64(r['month'])
    else:
        h.time, h.month = np.array([r['time']]), np.array([r['month']])
    h.filename = r['file']
    return h


def agree(h, recs, what, files=True, tol=0.0):
    """series h holds exactly recs, in order"""
    n = len(recs)
    same(np.ndim(h.clm), 3, f'{what}: dimensions')
    same(h.clm.shape, recs[0]['clm'].shape + (n,), f'{what}: shape')
    same(np.shape(h.time), (n,), f'{what}: number of times')
    same(np.shape(h.month), (n,), f'{what}: number of months')
    same(int(h.lmax), recs[0]['clm'].shape[0] - 1, f'{what}: lmax')
    same(int(h.mmax), recs[0]['clm'].shape[1] - 1, f'{what}: mmax')
    for t, r in enumerate(recs):
        close(h.clm[:, :, t], r['clm'], f'{what}: clm of date {t}', rtol=tol, atol=tol)
        close(h.slm[:, :, t], r['slm'], f'{what}: slm of date {t}', rtol=tol, atol=tol)
        same(float(h.time[t]), float(r['time']), f'{what}: time of date {t}')
        same(int(h.month[t]), int(r['month']), f'{what}: month of date {t}')
        if files and r['file'] is not None:
            # a series read from a single file has one name
            f = h.filename if isinstance(h.filename, str) else h.filename[t]
            same(str(f), r['file'], f'{what}: file of date {t}')
    same(len(h), n, f'{what}: length')


def agree1(h, r, what, files=True):
    same(h.clm, r['clm'], f'{what}: clm')
    same(h.slm, r['slm'], f'{what}: slm')
    same(float(np.squeeze(h.time)), float(r['time']), f'{what}: time')
    same(int(np.squeeze(h.month)), int(r['month']), f'{what}: month')
    same(int(h.lmax), r['clm'].shape[0] - 1, f'{what}: lmax')
    same(int(h.mmax), r['clm'].shape[1] - 1, f'{what}: mmax')
    if files and r['file'] is not None:
        same(str(np.squeeze(h.filename)), r['file'], f'{what}: file')


@st.composite
def s_list(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 6)),
        n=draw(st.integers(1, 12)), files=draw(st.booleans()), sort=draw(st.booleans()),
        date=draw(st.booleans()), clear=draw(st.booleans()), scalar=draw(st.booleans()),
        grow=draw(gen.seeds))


def b_list(case, ctx):
    recs = records(case)
    n = len(recs)
    r = gen.rng(case['grow'])
    grow = r.integers(0, 3, n)*(case['grow'] % 2)
    if n > 1 and grow.min() > 0:
        grow[0] = 0
    if n == 1:
        grow[:] = 0
    objs = [single(q, case['scalar'], int(g)) for q, g in zip(recs, grow)]
    snaps = [hx.snapshot(o) for o in objs]
    kw = dict(date=case['date'], sort=case['sort'], clear=case['clear'])
    if case['seed'] % 2:
        # defaults are dated and sorted lists which are kept
        kw = {k: v for k, v in kw.items() if v != dict(date=True, sort=True,
            clear=False)[k]}
    h = gravtk.harmonics().from_list(objs, **kw)
    for o, s in zip(objs, snaps):
        hx.unchanged(o, s, 'from_list')
    want = sorted(recs, key=lambda q: q['time']) if (case['sort'] and
        case['date']) else recs
    if case['date']:
        agree(h, want, 'list')
    else:
        same(h.clm.shape[-1], n, 'undated list: number of fields')
        for t, q in enumerate(want):
            same(h.clm[:, :, t], q['clm'], f'undated list: field {t}')
            same(h.slm[:, :, t], q['slm'], f'undated list: field {t}')
            g = h.index(t, date=False)
            same(g.clm, q['clm'], 'undated item')
            require(g.time is None, 'undated item has a time')
        same(len([g for g in h.clm[0, 0]]), n, 'fields')
    ctx.nontrivial(n > 2)
    ctx.label('sorted' if case['sort'] else 'unsorted')


OPS = ['rebuild', 'iterate', 'shuffle', 'subset', 'subset_any', 'flatten', 'copy',
    'dict', 'mean', 'scale', 'index', 'add', 'truncate', 'file', 'split',
    'named']


@st.composite
def s_history(draw):
    ops = [dict(op=draw(st.sampled_from(OPS)), seed=draw(gen.seeds))
        for _ in range(draw(st.integers(1, 7)))]
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 5)),
        n=draw(st.integers(2, 12)), files=draw(st.booleans()), ops=ops)


def b_history(case, ctx):
    recs = records(case)
    h = gravtk.harmonics().from_list([single(q) for q in recs])
    recs = [dict(q) for q in sorted(recs, key=lambda q: q['time'])]
    files = case['files']
    trail = []
    tol = 0.0
    for op in case['ops']:
        k = op['op']
        r = gen.rng(op['seed'])
        trail.append(k)
        what = '>'.join(trail)
        n = len(recs)
        before = hx.snapshot(h)
        old = h
        if k == 'rebuild':
            h = gravtk.harmonics().from_list([h.index(i) for i in range(n)], sort=False)
        elif k == 'iterate':
            items = [g for g in h]
            same(len(items), n, f'{what}: number of dates iterated')
            for g, q in zip(items, recs):
                if tol == 0:
                    agree1(g, q, f'{what}: item', files)
            again = [g for g in h]
            same(len(again), n, f'{what}: second iteration')
            srt = bool(r.integers(2))
            h = gravtk.harmonics().from_list(items, sort=srt)
            if srt:
                recs = sorted(recs, key=lambda q: q['time'])
        elif k == 'shuffle':
            p = r.permutation(n)
            h = gravtk.harmonics().from_list([h.index(int(i)) for i in p], sort=False)
            recs = [recs[i] for i in p]
        elif k in ('subset', 'subset_any'):
            if n < 3:
                continue
            keep = np.sort(r.permutation(n)[:int(r.integers(2, n + 1))])
            months = [recs[i]['month'] for i in keep]
            if k == 'subset_any':
                # the order of the requested months does not matter
                months = [months[i] for i in r.permutation(len(months))]
                months = months + months[:1]
            arg = np.array(months) if r.integers(2) else list(months)
            h = h.subset(arg)
            recs = [recs[i] for i in keep]
        elif k == 'flatten':
            f = h.flatten()
            same(len(f.l), int(gen.tri_mask(*case_lm(recs)).sum()), 'number of terms')
            for i, (l, m) in enumerate(zip(f.l, f.m)):
                same(f.clm[i], h.clm[l, m], f'{what}: flattened clm {l},{m}')
                same(f.slm[i], h.slm[l, m], f'{what}: flattened slm {l},{m}')
            same(f.time, h.time, f'{what}: times of flattened')
            h = f.expand()
        elif k == 'copy':
            h = h.copy()
        elif k == 'dict':
            d = h.to_dict()
            g = gravtk.harmonics().from_dict({q: d[q] for q in
                ('l', 'm', 'clm', 'slm', 'time', 'month')})
            g.filename = h.filename
            h = g
        elif k == 'mean':
            ind = slice(None)
            if r.integers(2):
                ind = np.sort(r.permutation(n)[:int(r.integers(1, n + 1))])
            apply = bool(r.integers(2))
            C = np.stack([q['clm'] for q in recs], -1)[:, :, ind]
            S = np.stack([q['slm'] for q in recs], -1)[:, :, ind]
            T = np.array([q['time'] for q in recs])[ind]
            M = np.array([q['month'] for q in recs])[ind]
            mean = h.mean(apply=apply, indices=Ellipsis if isinstance(ind, slice)
                else ind)
            close(mean.clm, C.mean(-1), f'{what}: clm', rtol=1e-11, atol=1e-11)
            close(mean.slm, S.mean(-1), f'{what}: slm', rtol=1e-11, atol=1e-11)
            close(float(mean.time), float(T.mean()), f'{what}: time', rtol=1e-13)
            close(float(mean.month), float(M.mean()), f'{what}: month', rtol=1e-13)
            if apply:
                for q in recs:
                    q['clm'] = q['clm'] - C.mean(-1)
                    q['slm'] = q['slm'] - S.mean(-1)
                tol = 1e-10
        elif k == 'scale':
            v = r.uniform(0.5, 2.0, n)
            h = h.scale(v)
            for q, s in zip(recs, v):
                q['clm'], q['slm'] = q['clm']*s, q['slm']*s
            tol = 1e-10
        elif k == 'index':
            i = int(r.integers(0, n))
            g = h.index(i)
            if tol == 0:
                agree1(g, recs[i], f'{what}: item {i}', files)
            g = h.index(-1)
            if tol == 0:
                agree1(g, recs[-1], f'{what}: last item', files)
            g = h.subset(recs[i]['month'])
            same(np.ndim(g.clm), 2, f'{what}: one month')
            if tol == 0:
                agree1(g, recs[i], f'{what}: one month', files)
        elif k == 'add':
            o = hx.make(op['seed'], *case_lm(recs))
            h = h.copy().add(o) if r.integers(2) else h.copy().subtract(o.scale(-1.0))
            for q in recs:
                q['clm'], q['slm'] = q['clm'] + o.clm, q['slm'] + o.slm
            tol = 1e-10
        elif k == 'truncate':
            l, m = case_lm(recs)
            if l == 0:
                continue
            h = h.copy().truncate(l - 1, mmax=min(m, l - 1))
            for q in recs:
                q['clm'] = q['clm'][:l, :min(m, l - 1) + 1]
                q['slm'] = q['slm'][:l, :min(m, l - 1) + 1]
        elif k == 'file':
            p = ctx.tmp/'series.H5'
            g = h.copy()
            g.to_HDF5(p)
            g = gravtk.harmonics().from_HDF5(p)
            g.filename = h.filename
            h = g
        elif k == 'named':
            # one file holds the complete series
            h = h.copy()
            h.filename = '/data/series.nc'
            files = True
            for q in recs:
                q['file'] = h.filename
        elif k == 'split':
            # two halves joined again in time order
            cut = int(r.integers(1, n))
            a = [h.index(i) for i in range(cut)]
            b = [h.index(i) for i in range(cut, n)]
            h = gravtk.harmonics().from_list(b + a)
            recs = sorted(recs, key=lambda q: q['time'])
        if old is not h:
            hx.unchanged(old, before, what)
        agree(h, recs, what, files, tol=tol)
        ctx.label(k)
    ctx.nontrivial(len(recs) > 1)


def case_lm(recs):
    return recs[0]['clm'].shape[0] - 1, recs[0]['clm'].shape[1] - 1


@st.composite
def s_absent(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 3)),
        n=draw(st.integers(1, 8)), files=False, bad=draw(gen.seeds))


def b_absent(case, ctx):
    recs = sorted(records(case), key=lambda q: q['time'])
    h = gravtk.harmonics().from_list([single(q) for q in recs])
    have = [int(q['month']) for q in recs]
    r = gen.rng(case['bad'])
    absent = [m for m in range(have[0] - 3, have[-1] + 4) if m not in have]
    bad = int(r.choice(absent))
    req = [int(v) for v in r.permutation(have)[:int(r.integers(0, len(have) + 1))]]
    req.insert(int(r.integers(0, len(req) + 1)), bad)
    before = hx.snapshot(h)
    require(raises(lambda: h.subset(np.array(req)), IOError, ValueError, KeyError,
        IndexError), f'months {req} taken out of {have}: {bad} is not present')
    hx.unchanged(h, before, 'subset')
    ctx.nontrivial()


@st.composite
def s_drift(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 6)),
        n=draw(st.integers(1, 10)), epoch=draw(st.one_of(st.none(),
            gen.nice_floats(1990.0, 2020.0))))


def b_drift(case, ctx):
    lmax, mmax = case['lm']
    h = hx.make(case['seed'], lmax, mmax, dates=bool(case['seed'] % 2))
    month, t = hx.months_times(case['seed'], case['n'])
    kw = {} if case['epoch'] is None else dict(epoch=case['epoch'])
    ep = 2003.3 if case['epoch'] is None else case['epoch']
    before = hx.snapshot(h)
    d = h.drift(t.copy(), **kw)
    hx.unchanged(h, before, 'drift')
    recs = [dict(clm=h.clm*(x - ep), slm=h.slm*(x - ep), time=x, month=m, file=None)
        for x, m in zip(t, month)]
    agree(d, recs, 'drift', tol=1e-11)
    ctx.nontrivial(case['n'] > 1)


# ------------------------------------------------------------ special months
@st.composite
def s_special(draw):
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(0, 3)),
        via=draw(st.sampled_from(['list', 'index', 'netCDF4', 'HDF5', 'drift'])),
        back=draw(st.booleans()))


def b_special(case, ctx):
    """two solutions centered in one calendar month keep their own months"""
    lmax, mmax = case['lm']
    via, seed = case['via'], case['seed']
    month, raw, time = hx.special_months(seed)
    n = len(month)
    if via == 'drift':
        h = hx.make(seed, lmax, mmax, dates=False)
        g = h.drift(time)
    else:
        h = hx.make(seed, lmax, mmax, n)
        h.month, h.time = raw.copy(), time.copy()
    order = np.arange(n)[::-1] if case['back'] else np.arange(n)
    if via == 'list':
        g = gravtk.harmonics().from_list([h.index(int(i)) for i in order])
    elif via == 'index':
        files = [ctx.tmp/f'f{i}.txt' for i in order]
        for i, f in zip(order, files):
            h.index(int(i)).to_ascii(f)
        index = ctx.tmp/'index.txt'
        index.write_text(''.join(f'{f}\n' for f in files))
        g = gravtk.harmonics().from_index(index, format='ascii')
    elif via in ('netCDF4', 'HDF5'):
        path = ctx.tmp/'x'
        h.to_file(path, format=via)
        g = gravtk.harmonics().from_file(path, format=via)
    same(np.asarray(g.month).astype(int), month, f'{via}: months of {raw.tolist()}')
    close(np.asarray(g.time, dtype=float), time, f'{via}: dates', rtol=0, atol=1e-9)
    if via != 'drift':
        close(g.clm, h.clm*gen.tri_mask(lmax, mmax)[:, :, None], f'{via}: clm', rtol=1e-12,
            atol=1e-15)
    ctx.nontrivial()
    ctx.label(via)


CHECKS = [
    Check('from_list', s_list, b_list, quick=400, thorough=5000,
        rule='more than two dates'),
    Check('series_history', s_history, b_history, quick=500, thorough=6000,
        rule='more than one date'),
    Check('absent_months', s_absent, b_absent, quick=150, thorough=1500,
        rule='every case'),
    Check('drift', s_drift, b_drift, quick=200, thorough=2000,
        rule='more than one date'),
    Check('special_months', s_special, b_special, quick=150, thorough=2000,
        rule='every case'),
]

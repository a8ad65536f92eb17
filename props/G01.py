"""Histories of operations on spatial objects against masked arrays"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx, sx
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['grids have at least two rows and columns',
    'statistics over time (mean, sum, max, min) are defined for cells that are '
    'valid at every date, others are invalid', 'no valid value equals the fill '
    'value', 'uncertainties are carried by structural operations only']

OPS = ['offset', 'scale', 'power', 'mean', 'sum', 'max', 'min', 'flip', 'transpose',
    'expand_squeeze', 'replace_invalid', 'replace_masked', 'copy', 'zeros_like',
    'index', 'subset', 'iterate', 'extend', 'masked', 'dict', 'list', 'invalidate',
    'attributes', 'alias']


@st.composite
def s_history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        ops.append(dict(op=draw(st.sampled_from(OPS)), seed=draw(gen.seeds)))
    return dict(seed=draw(gen.seeds), nlat=draw(st.integers(2, 5)),
        nlon=draw(st.integers(2, 6)), n=draw(st.one_of(st.none(), st.integers(1, 5),
        st.integers(2, 5))), fill=draw(sx.fills),
        pmask=draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])), error=draw(st.booleans()),
        files=draw(st.booleans()), ops=ops)


def reduced(m, f, ind=slice(None)):
    """statistic over time: valid where every date is valid"""
    q = m.copy()
    q.data = f(np.where(m.mask, 0.0, m.data)[:, :, ind], axis=2)
    q.mask = m.mask[:, :, ind].any(axis=2)
    q.error, q.time, q.month, q.file = None, None, None, None
    return q


def step(s, m, op, ctx):
    k = op['op']
    r = gen.rng(op['seed'])
    n = m.data.shape[2] if m.nd == 3 else None
    before = sx.snapshot(s)
    fresh = None
    ny, nx = m.data.shape[:2]
    if k in ('offset', 'scale'):
        kind = r.integers(0, 4)
        f = np.add if k == 'offset' else np.multiply
        q = m.copy()
        if kind == 0:
            v = [2.5, -1.0, 0.0, 3][int(r.integers(4))]
            v = float(v) if r.integers(2) else v
            q.data = f(m.data, v)
        elif kind == 1:
            if n:
                v = r.uniform(-2, 2, n)
                q.data = f(m.data, v)
            else:
                if m.error is not None:
                    return s, m
                v = r.uniform(-2, 2, int(r.integers(2, 4)))
                q.data = f(m.data[:, :, None], v)
                q.mask = np.repeat(m.mask[:, :, None], len(v), axis=2)
                g = getattr(s, k)(v)
                sx.unchanged(s, before, k)
                sx.check(g, q, f'{k} of a static grid by a series', dates=False)
                return s, m
        elif kind == 2:
            v = r.uniform(-2, 2, (ny, nx))
            q.data = f(m.data, v[:, :, None] if n else v)
        else:
            v = r.uniform(-2, 2, m.data.shape)
            q.data = f(m.data, v)
        q.data = np.where(m.mask, 0.0, q.data)
        v0 = np.copy(v)
        fresh = getattr(s, k)(v)
        same(v, v0, f'{k}: argument')
        out = fresh, q.refresh()
    elif k == 'power':
        ok = ~m.mask
        if ok.any() and np.abs(m.data[ok]).max() > 50:
            return s, m
        p = int(r.integers(1, 4))
        q = m.copy()
        q.data = np.where(m.mask, 0.0, np.power(np.where(m.mask, 0.0, m.data), p))
        fresh = s.power(p)
        out = fresh, q
    elif k in ('sum', 'max', 'min', 'mean'):
        if not n:
            return s, m
        ind, kw, apply = slice(None), {}, False
        if k == 'mean':
            if r.integers(2):
                ind = np.sort(r.permutation(n)[:int(r.integers(1, n + 1))])
                kw['indices'] = ind
            apply = bool(r.integers(2))
            kw['apply'] = apply
        if k == 'sum' and r.integers(2):
            g = s.sum(power=2)
            q = reduced(m, lambda a, axis: np.sum(a**2, axis=axis))
        else:
            g = getattr(s, k)(**kw)
            q = reduced(m, getattr(np, k), ind)
        sx.check(g, q, k, error=False)
        sx.disjoint(g, s, k)
        if k == 'mean' and m.time is not None:
            close(float(g.time), float(np.mean(m.time[ind])), 'mean time', rtol=1e-14)
        if apply:
            m = m.copy()
            m.data = m.data - q.data[:, :, None]
            m.mask = m.mask | q.mask[:, :, None]
            return s, m
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'flip':
        ax = int(r.integers(0, 3 if (n and m.time is not None) else 2))
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, np.flip(getattr(q, a), axis=ax))
        if ax == 0:
            q.lat = q.lat[::-1]
        elif ax == 1:
            q.lon = q.lon[::-1]
        else:
            q.time, q.month = q.time[::-1], q.month[::-1]
            if isinstance(q.file, list):
                q.file = q.file[::-1]
        fresh = s.flip(axis=ax)
        out = fresh, q
    elif k == 'transpose':
        axes = [int(a) for a in r.permutation(m.nd)]
        t = s.transpose(axes=tuple(axes))
        sx.unchanged(s, before, k)
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, np.transpose(getattr(q, a), axes))
        sx.check(t, q, 'transpose')
        fresh = t.transpose(axes=tuple(int(a) for a in np.argsort(axes)))
        out = fresh, m
        if r.integers(2):
            q = m.copy()
            for a in ('data', 'mask', 'error'):
                if getattr(q, a) is not None:
                    setattr(q, a, np.transpose(getattr(q, a)))
            sx.check(s.transpose(), q, 'transpose')
    elif k == 'expand_squeeze':
        if n == 1:
            s.squeeze()
            q = m.copy()
            for a in ('data', 'mask', 'error'):
                if getattr(q, a) is not None:
                    setattr(q, a, getattr(q, a)[:, :, 0])
            if q.time is not None:
                q.time, q.month = q.time[0], q.month[0]
            if isinstance(q.file, list):
                q.file = q.file[0]
                s.filename = str(np.squeeze(s.filename))
            return s, q
        if n is None:
            s.expand_dims()
            q = m.copy()
            for a in ('data', 'mask', 'error'):
                if getattr(q, a) is not None:
                    setattr(q, a, getattr(q, a)[:, :, None])
            if q.time is not None:
                q.time, q.month = np.atleast_1d(q.time), np.atleast_1d(q.month)
            else:
                s.time, s.month = None, None
            if q.file is not None:
                q.file = [q.file]
                s.filename = [s.filename]
            return s, q
        s.squeeze()
        if m.time is None:
            s.time, s.month = None, None
        return s, m
    elif k == 'replace_invalid':
        fill = [-7777.0, float('nan'), 5e9][int(r.integers(3))]
        q = m.copy()
        kind = int(r.integers(3))
        if kind == 0:
            s.replace_invalid(fill)
        elif kind == 1:
            mk = r.random(m.data.shape) < 0.3
            mk0 = mk.copy()
            s.replace_invalid(fill, mask=mk)
            same(mk, mk0, 'mask argument')
            q.mask = q.mask | mk
        else:
            mk = r.random((ny, nx)) < 0.3
            s.replace_invalid(fill, mask=mk)
            q.mask = q.mask | (mk[:, :, None] if n else mk)
        q.fill = fill
        return s, q
    elif k == 'replace_masked':
        if m.fill is not None:
            s.data[m.mask] = 123.0
        s.replace_masked()
        return s, m
    elif k == 'copy':
        fresh = s.copy()
        out = fresh, m.copy()
        same([str(f) for f in np.atleast_1d(fresh.filename)],
            [str(f) for f in np.atleast_1d(s.filename)], 'copied file names')
    elif k == 'zeros_like':
        z = s.zeros_like()
        q = m.copy()
        q.data, q.mask = np.zeros_like(m.data), np.zeros_like(m.mask)
        if q.error is not None:
            q.error = np.zeros_like(q.error)
        sx.check(z, q, 'zeros_like', dates=False)
        sx.disjoint(z, s, 'zeros_like')
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'index':
        if not n:
            return s, m
        i = int(r.integers(-n, n))
        g = s.index(i, date=m.time is not None)
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, getattr(q, a)[:, :, i])
        if q.time is not None:
            q.time, q.month = q.time[i], q.month[i]
        if isinstance(q.file, list):
            q.file = q.file[i]
        sx.check(g, q, f'index {i}', files=True)
        sx.disjoint(g, s, 'index')
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'subset':
        if not n or m.month is None:
            return s, m
        keep = np.sort(r.permutation(n)[:int(r.integers(1, n + 1))])
        months = [int(v) for v in r.permutation(m.month[keep])]
        fresh = s.subset(months if r.integers(2) else np.array(months))
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                v = getattr(q, a)[:, :, keep]
                setattr(q, a, v[:, :, 0] if len(keep) == 1 else v)
        q.time, q.month = q.time[keep], q.month[keep]
        if len(keep) == 1:
            q.time, q.month = q.time[0], q.month[0]
        if q.file is not None:
            q.file = [f if isinstance(f := q.file, str) else f[i] for i in keep]
            if len(keep) == 1:
                q.file = q.file[0]
                same(len(fresh.filename), 1, 'files of one month')
                fresh.filename = str(fresh.filename[0])
        absent = int(m.month.max()) + 5
        require(raises(lambda: s.subset([months[0], absent]), IOError, ValueError,
            KeyError, IndexError), 'subset with an absent month')
        out = fresh, q
    elif k == 'iterate':
        if not n:
            return s, m
        items = [g for g in s]
        same(len(items), n, 'number of dates iterated')
        for i, g in enumerate(items):
            q = m.copy()
            for a in ('data', 'mask', 'error'):
                if getattr(q, a) is not None:
                    setattr(q, a, getattr(q, a)[:, :, i])
            if q.time is not None:
                q.time, q.month = q.time[i], q.month[i]
            if isinstance(q.file, list):
                q.file = q.file[i]
            sx.check(g, q, f'date {i} of iteration', files=True)
            sx.disjoint(g, s, 'iteration')
        same(len([g for g in s]), n, 'second iteration')
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'extend':
        e = s.extend_matrix()
        q = m.copy()
        idx = np.concatenate([[nx - 1], np.arange(nx), [0]])
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, getattr(q, a)[:, idx])
        d = abs(m.lon[1] - m.lon[0])
        q.lon = np.concatenate([[m.lon[0] - d], m.lon, [m.lon[-1] + d]])
        close(e.lon, q.lon, 'extended longitudes', rtol=0, atol=1e-9)
        e.lon = q.lon.copy()
        sx.check(e, q, 'extend')
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'masked':
        a = s.to_masked_array()
        same(np.ma.getmaskarray(a), m.mask, 'masked array: mask')
        ok = ~m.mask
        close(np.ma.getdata(a)[ok], m.data[ok], 'masked array: data', rtol=1e-9,
            atol=1e-13*max(1.0, np.abs(m.data[ok]).max() if ok.any() else 0))
        return s, m
    elif k == 'dict':
        if m.fill is None and m.mask.any():
            return s, m
        d = dict(lon=s.lon, lat=s.lat, data=s.data, time=s.time, month=s.month)
        if m.error is not None:
            d['error'] = s.error
        d['attributes'] = dict(title='x')
        fresh = gravtk.spatial(fill_value=s.fill_value).from_dict(d)
        same(fresh.attributes['ROOT']['title'], 'x', 'attributes')
        fresh.filename = s.filename
        out = fresh, m.copy()
    elif k == 'list':
        if not n or m.time is None:
            return s, m
        items = [s.index(i) for i in range(n)]
        p = r.permutation(n)
        srt = bool(r.integers(2))
        for i, g in enumerate(items):
            g.attributes = dict(ROOT=dict(title=f'field {i}'))
        # lists are sorted by default
        kw = {} if srt and r.integers(2) else dict(sort=srt, date=True)
        if r.integers(2):
            kw['clear'] = bool(r.integers(2))
        fresh = gravtk.spatial().from_list([items[i] for i in p], **kw)
        o = np.argsort(m.time) if srt else p
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, getattr(q, a)[:, :, o])
        q.time, q.month = q.time[o], q.month[o]
        same([a['ROOT']['title'] for a in fresh.attributes], [f'field {i}' for i in o],
            'attributes of the list')
        if q.file is not None:
            q.file = [f if isinstance(f := q.file, str) else f[i] for i in o]
        out = fresh, q
    elif k == 'invalidate':
        if m.fill is None:
            return s, m
        mk = r.random(m.data.shape) < 0.2
        s.data = s.data.copy()
        s.data[mk] = np.nan if r.integers(2) else m.fill
        s.update_mask()
        q = m.copy()
        q.mask = q.mask | mk
        return s, q
    elif k == 'attributes':
        same([float(v) for v in s.extent], [m.lon.min(), m.lon.max(), m.lat.min(),
            m.lat.max()], 'extent')
        close(np.array(s.spacing), np.array([abs(m.lon[1] - m.lon[0]),
            abs(m.lat[1] - m.lat[0])]), 'spacing')
        text = str(s)
        require(', '.join(map(str, m.data.shape)) in text, f'text form {text}')
        if m.month is not None and n:
            require(f'start_month: {m.month.min()}' in text and
                f'end_month: {m.month.max()}' in text, f'months in text form {text}')
            same(len(s), n, 'length')
        require(s.dtype == s.data.dtype, 'dtype')
        sx.unchanged(s, before, k)
        return s, m
    elif k == 'alias':
        # changes of a copy do not reach its source
        g = s.copy()
        g.data += 1.0
        g.mask[:] = True
        g.lon += 1.0
        g.lat += 1.0
        if isinstance(g.time, np.ndarray) and g.time.ndim and g.time.dtype != object:
            g.time += 1.0
            g.month += 1
        if m.error is not None:
            g.error += 1.0
        if isinstance(g.filename, list):
            g.filename.append('x')
        sx.unchanged(s, before, 'change of a copy')
        if isinstance(s.filename, list):
            require('x' not in s.filename, 'files after a change of a copy')
        return s, m
    sx.unchanged(s, before, k)
    sx.disjoint(fresh, s, k)
    return out


def b_history(case, ctx):
    s = sx.make(case['seed'], case['nlat'], case['nlon'], case['n'], case['fill'],
        case['pmask'], case['error'])
    n = case['n']
    if case['files']:
        # a series read from a single file has one name
        s.filename = [f'f{i}.nc' for i in range(n)] if n and case['seed'] % 3 else 'f.nc'
    m = sx.Model(s)
    trail = []
    for op in case['ops']:
        trail.append(op['op'])
        s, m = step(s, m, op, ctx)
        if case['files'] and op['op'] in ('dict',):
            s.filename = m.file
        sx.check(s, m, ' -> '.join(trail), files=case['files'])
        ctx.label(op['op'])
    ctx.nontrivial(m.mask.any() and not m.mask.all())


@st.composite
def s_undated(draw):
    return dict(seed=draw(gen.seeds), nlat=draw(st.integers(2, 5)),
        nlon=draw(st.integers(2, 6)), n=draw(st.integers(1, 5)), fill=draw(sx.fills),
        pmask=draw(st.sampled_from([0.0, 0.3])), error=draw(st.booleans()))


def b_undated(case, ctx):
    """series without dates"""
    s = sx.make(case['seed'], case['nlat'], case['nlon'], case['n'], case['fill'],
        case['pmask'], case['error'], dates=False)
    m = sx.Model(s)
    items = [g for g in s]
    same(len(items), case['n'], 'number of fields iterated')
    for i in range(case['n']):
        q = m.copy()
        for a in ('data', 'mask', 'error'):
            if getattr(q, a) is not None:
                setattr(q, a, getattr(q, a)[:, :, i])
        sx.check(items[i], q, 'iteration')
        sx.check(s.index(i, date=False), q, 'index')
    g = gravtk.spatial().from_list(items, date=False)
    sx.check(g, m, 'undated list')
    ctx.nontrivial()


# --------------------------------------------------------- scaling factors
@st.composite
def s_kfactor(draw):
    return dict(seed=draw(gen.seeds), nlat=draw(st.integers(2, 5)),
        nlon=draw(st.integers(2, 6)), n=draw(st.integers(1, 8)),
        fill=draw(st.sampled_from(['num', 'nan', 'big'])),
        pmask=draw(st.sampled_from([0.0, 0.1, 0.4])), dec=draw(st.sampled_from(
        [None, 0])))


def b_kfactor(case, ctx):
    a = sx.make(case['seed'], case['nlat'], case['nlon'], case['n'], case['fill'],
        case['pmask'], dec=case['dec'])
    b = sx.make(case['seed'] + 1, case['nlat'], case['nlon'], case['n'], case['fill'],
        case['pmask'], dec=case['dec'])
    b.data = np.where(b.mask | a.mask, b.data, 2.0*a.data + b.data)
    b.data[b.mask] = b.fill_value
    sa, sb = sx.snapshot(a), sx.snapshot(b)
    k = gravtk.scaling_factors.kfactor(a, b)
    sx.unchanged(a, sa, 'kfactor')
    sx.unchanged(b, sb, 'kfactor')
    bad = (a.mask | b.mask).any(axis=2)
    A, B = np.where(bad[:, :, None], 0, a.data), np.where(bad[:, :, None], 0, b.data)
    den = np.sum(A**2, axis=2)
    good = ~bad & (den > 0)
    with np.errstate(all='ignore'):
        kf = np.sum(A*B, axis=2)/den
    close(k.data[good], kf[good], 'scaling factors', rtol=1e-9, atol=1e-12)
    err = np.sqrt(np.sum((kf[:, :, None]*A - B)**2, axis=2)/case['n'])
    mag = np.sqrt(np.sum(B**2, axis=2))
    nz = good & (kf != 0)
    close(k.error[nz], err[nz], 'scaling factor errors', rtol=1e-7, atol=1e-7)
    close(k.magnitude[nz], mag[nz], 'magnitude', rtol=1e-9)
    require(bool(np.all(k.mask[bad])), 'invalid cells have scaling factors')
    require(not np.any(k.mask[nz]), 'valid cells are masked')
    same(k.data[bad], np.zeros(int(bad.sum())), 'scaling factors of invalid cells')
    # cells masked later have no scaling factor either
    q = gravtk.scaling_factors(fill_value=-7777.0)
    q.lon, q.lat = k.lon.copy(), k.lat.copy()
    q.data, q.error, q.magnitude = (np.array(v, dtype=float) + 3.0 for v in (k.data, k.error, k.magnitude))
    q.mask = bad.copy()
    q.update_mask()
    for v, n in ((q.data, 'factors'), (q.error, 'errors'), (q.magnitude, 'magnitudes')):
        same(v[bad], np.zeros(int(bad.sum())) - 7777.0, f'{n} of masked cells')
    close(q.error[~bad], k.error[~bad] + 3.0, 'errors of other cells', rtol=1e-12)
    same(k.lon, a.lon, 'longitudes')
    same(k.lat, a.lat, 'latitudes')
    # scaling by the factor is the least-squares match of the second field
    if nz.any():
        for d in (1e-3, -1e-3):
            worse = np.sum(((kf + d)[:, :, None]*A - B)**2, axis=2)
            mine = np.sum((np.where(nz, k.data, 0)[:, :, None]*A - B)**2, axis=2)
            require(bool(np.all(mine[nz] <= worse[nz] + 1e-9)), 'not a minimum')
    ctx.nontrivial(bool(nz.any()) and case['n'] > 1)


CHECKS = [
    Check('history', s_history, b_history, quick=900, thorough=12000,
        rule='some cells valid and some invalid at the end'),
    Check('undated', s_undated, b_undated, quick=100, thorough=1000,
        rule='every case'),
    Check('scaling_factors', s_kfactor, b_kfactor, quick=200, thorough=2500,
        rule='more than one date'),
]

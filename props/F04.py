"""Geocenter series: readers, conversions and operations"""
import gzip
import io
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx
from pbt import lowdeg as ld
from pbt.core import Check, close, raises, require, same
from pbt.l2 import number
from props.F03 import s_months

ASSUMPTIONS = ['series are in time order', 'a month is listed once unless it is one of the '
    'special months', 'scaled objects are not required to keep uncertainties']
R0 = 1000.0*6378137.0*(1.0 - 1.0/298.257223563)**(1.0/3.0)
FIELDS = ('C10', 'C11', 'S11')
ERR = ('eC10', 'eC11', 'eS11')
XYZ = ('Z', 'X', 'Y')
CMWE = 5.517*6.371e8


@st.composite
def s_series(draw):
    return dict(months=draw(s_months()), seed=draw(gen.seeds),
        radius=draw(st.sampled_from([None, 6.378136e9, 6.3710e9, 1.0, 6371.0])),
        kl=draw(st.sampled_from([None, 0.0, 0.021, 0.0273, -0.5])),
        scale=draw(st.sampled_from([1e-10, 1.0, 1e3])), errors=draw(st.booleans()),
        lower=draw(st.booleans()), skip=[], frac=0.0, exp=draw(st.sampled_from(['E', 'e'])),
        head=draw(st.integers(0, 5)), blank=draw(st.booleans()),
        ops=draw(st.lists(st.integers(0, 11), min_size=1, max_size=8)),
        var=draw(st.sampled_from([2.0, -0.5, 10.0, 1e-3])), power=draw(st.integers(1, 3)),
        how=draw(st.integers(0, 3)), single=draw(st.integers(0, 5)),
        idx=draw(st.lists(st.integers(0, 60), min_size=1, max_size=5)))


def tmid(case):
    return [round(ld.decimal(2015, 4, 27) if k == 161 and spec(case) else ld.middle(k), 5)
        for k in case['months']]


def spec(case):
    k = case['months']
    return case['lower'] and all(v in k for v in (159, 160, 161, 163))


def values(case, salt=0, scale=None):
    n = len(case['months'])
    return [np.array(ld.values(case['seed'], n, scale or case['scale'], salt*7 + i))
        for i in range(3)]


def build(case):
    kw = {} if case['radius'] is None else dict(radius=case['radius'])
    g = gravtk.geocenter(**kw)
    g.time = np.array(tmid(case))
    g.month = np.array(case['months'])
    for k, v in zip(FIELDS, values(case)):
        setattr(g, k, v.copy())
    if case['errors']:
        for k, v in zip(ERR, values(case, 1)):
            setattr(g, k, np.abs(v))
    return g


def rad(case):
    return R0 if case['radius'] is None else case['radius']


def dates(g, case, what):
    same(np.asarray(g.time), np.array(tmid(case)), f'{what}: time')
    same(np.asarray(g.month), np.array(case['months']), f'{what}: month')


# -------------------------------------------------------------- conversions
def b_convert(case, ctx):
    g = build(case)
    R, kl = rad(case), case['kl'] or 0.0
    kw = {} if case['kl'] is None else dict(kl=case['kl'])
    w = values(case)
    e = [np.abs(v) for v in values(case, 1)]
    close(float(g.radius), R, 'radius', rtol=1e-15)
    out = g.to_cartesian(**kw)
    f = R*np.sqrt(3.0)/(1.0 + kl)
    for obj in (g, out):
        for k, v, u in zip(XYZ, w, e):
            close(getattr(obj, k), v*f, f'{k} of the coefficients', rtol=1e-14)
            if case['errors']:
                close(getattr(obj, k + '_sigma'), u*f, f'{k} errors', rtol=1e-14)
        for k, v in zip(FIELDS, w):
            same(np.asarray(getattr(obj, k)), v, f'{k} after conversion')
        dates(obj, case, 'to_cartesian')
    # and back from the Cartesian coordinates only
    h = gravtk.geocenter(radius=R, X=g.X, Y=g.Y, Z=g.Z)
    if case['errors']:
        for k in XYZ:
            setattr(h, k + '_sigma', getattr(g, k + '_sigma').copy())
    x0 = [np.copy(getattr(g, k)) for k in XYZ]
    h.from_cartesian(**kw)
    for k, v, u, ek, xk, x in zip(FIELDS, w, e, ERR, XYZ, x0):
        close(getattr(h, k), v, f'{k} from Cartesian coordinates', rtol=1e-14)
        same(np.asarray(getattr(h, xk)), x, f'{xk} after conversion')
        if case['errors']:
            close(getattr(h, ek), u, f'{ek} from Cartesian coordinates', rtol=1e-14)
    # coordinates given at creation are copies
    require(not any(np.shares_memory(getattr(h, k), getattr(g, k)) for k in XYZ),
        'coordinates are shared')
    # water equivalents
    for name, f in (('cmwe', CMWE), ('mmwe', CMWE*10.0)):
        for first in ('to', 'from'):
            c = build(case)
            s = f/(1.0 + kl)
            s = s if first == 'to' else 1.0/s
            o = getattr(c, f'{first}_{name}')(**kw)
            for obj in (c, o):
                for k, v in zip(FIELDS, w):
                    close(getattr(obj, k), v*s, f'{first}_{name}: {k}', rtol=1e-14)
                if case['errors']:
                    for k, v in zip(ERR, e):
                        close(getattr(obj, k), v*s, f'{first}_{name}: {k}', rtol=1e-14)
            dates(c, case, f'{first}_{name}')
            back = 'from' if first == 'to' else 'to'
            getattr(c, f'{back}_{name}')(**kw)
            for k, v in zip(FIELDS, w):
                close(getattr(c, k), v, f'{first}_{name} and back: {k}', rtol=1e-14)
    # dictionaries and matrices
    g = build(case)
    d = g.to_dict()
    for k, v in zip(FIELDS, w):
        same(np.asarray(d[k]), v, f'dictionary: {k}')
    h = gravtk.geocenter().from_dict(d)
    for k, v in zip(FIELDS, w):
        same(np.asarray(getattr(h, k)), v, f'from dictionary: {k}')
        require(not np.shares_memory(getattr(h, k), getattr(g, k)), 'dictionary is shared')
    if case['errors']:
        for k, v in zip(ERR, e):
            same(np.asarray(getattr(h, k)), v, f'from dictionary: {k}')
    dates(h, case, 'from dictionary')
    m = g.to_matrix()
    n = len(case['months'])
    for k, (c, l, o) in zip(FIELDS, (('clm', 1, 0), ('clm', 1, 1), ('slm', 1, 1))):
        same(m[c].shape, (2, 2, n), 'shape of the matrix')
        same(m[c][l, o], getattr(g, k), f'matrix: {k}')
        m2 = m[c].copy()
        m2[1, 0], m2[1, 1] = 0, 0
        require(not m2.any(), 'terms outside of degree one')
    require(not m['slm'][1, 0].any(), 'sine zonal term')
    h = gravtk.geocenter().from_matrix(m['clm'], m['slm'])
    for k, v in zip(FIELDS, w):
        same(np.asarray(getattr(h, k)), v, f'from matrix: {k}')
    ctx.nontrivial(n > 1)
    ctx.label('errors' if case['errors'] else 'plain')


def b_harmonics(case, ctx):
    """degree one of harmonic objects"""
    n = len(case['months'])
    L = 1 + case['seed'] % 5
    h = gravtk.harmonics(lmax=L, mmax=max(1, L - case['head'] % 3))
    r = gen.rng(case['seed'], 3)
    sh = (L + 1, h.mmax + 1) + ((n,) if case['blank'] else ())
    h.clm, h.slm = r.standard_normal((2,) + sh)
    if case['blank']:
        h.time, h.month = np.array(tmid(case)), np.array(case['months'])
    else:
        h.time, h.month = np.float64(tmid(case)[0]), np.int64(case['months'][0])
    kw = {} if case['radius'] is None else dict(radius=case['radius'])
    g = gravtk.geocenter(**kw).from_harmonics(h)
    for k, v in zip(FIELDS, (h.clm[1, 0], h.clm[1, 1], h.slm[1, 1])):
        same(np.asarray(getattr(g, k)), v, f'from harmonics: {k}')
        require(not np.shares_memory(getattr(g, k), h.clm), 'harmonics are shared')
    same(np.asarray(g.time), np.asarray(h.time), 'time of the harmonics')
    same(np.asarray(g.month), np.asarray(h.month), 'month of the harmonics')
    same(len(g), n if case['blank'] else 1, 'length')
    require('geocenter' in str(g), 'text form')
    require(str(max(np.atleast_1d(g.month))) in str(g), 'last month in the text form')
    close(float(g.radius), rad(case), 'radius', rtol=1e-15)
    m = g.to_matrix()
    same(m['clm'][1, 0], np.atleast_1d(h.clm[1, 0]), 'matrix')
    f = gravtk.geocenter().from_matrix(h.clm, h.slm)
    same(np.atleast_1d(f.C10), np.atleast_1d(h.clm[1, 0]), 'C10 of a matrix')
    same(np.atleast_1d(f.C11), np.atleast_1d(h.clm[1, 1]), 'C11 of a matrix')
    same(np.atleast_1d(f.S11), np.atleast_1d(h.slm[1, 1]), 'S11 of a matrix')
    ctx.nontrivial(n > 1)
    ctx.label('series' if case['blank'] else 'single')


# --------------------------------------------------------------- operations
OPS = ['copy', 'add', 'subtract', 'multiply', 'divide', 'scale', 'power', 'mean', 'remove',
    'iterate', 'get', 'subset']


def b_ops(case, ctx):
    g = build(case)
    m = {k: v.copy() for k, v in zip(FIELDS, values(case))}
    n = len(case['months'])
    err = {k: np.copy(getattr(g, k)) for k in ERR} if case['errors'] else {}
    tol = 1e-13
    for i, o in enumerate(case['ops']):
        op = OPS[o]
        other = build(dict(case, seed=case['seed'] + i + 1))
        r = gen.rng(case['seed'], i)
        for k in FIELDS:
            setattr(other, k, r.uniform(0.5, 2.0, n))
        w = {k: np.copy(getattr(other, k)) for k in FIELDS}
        old = g
        keep = {k: np.copy(getattr(g, k)) for k in FIELDS}
        if op == 'copy':
            g = g.copy()
            require(not any(np.shares_memory(getattr(g, k), getattr(old, k))
                for k in FIELDS + ('time', 'month')), 'copy shares data')
            for k, v in err.items():
                same(np.asarray(getattr(g, k)), v, f'copy: {k}')
            for k in FIELDS:
                getattr(old, k)[...] = 7.0
        elif op in ('add', 'subtract', 'multiply', 'divide'):
            fn = dict(add=np.add, subtract=np.subtract, multiply=np.multiply,
                divide=np.divide)[op]
            g = getattr(g, op)(other)
            m = {k: fn(m[k], w[k]) for k in FIELDS}
            for k in FIELDS:
                same(np.asarray(getattr(other, k)), w[k], f'{op}: operand')
        elif op == 'scale':
            var = case['var'] if i % 2 else r.uniform(0.5, 2.0, n)
            g = g.scale(var)
            m = {k: m[k]*var for k in FIELDS}
            err = {}
            for k in FIELDS:
                same(np.asarray(getattr(old, k)), keep[k], 'scale changed the object')
        elif op == 'power':
            g = g.power(case['power'])
            m = {k: m[k]**case['power'] for k in FIELDS}
            err = {}
            for k in FIELDS:
                same(np.asarray(getattr(old, k)), keep[k], 'power changed the object')
        elif op in ('mean', 'remove'):
            idx = sorted({j % n for j in case['idx']})
            kw = {} if case['blank'] else dict(indices=np.array(idx))
            use = np.arange(n) if case['blank'] else np.array(idx)
            a = g.mean(apply=op == 'remove', **kw)
            for k in FIELDS:
                mu = m[k][use].mean()
                close(float(getattr(a, k)), mu, f'mean {k}', rtol=1e-9,
                    atol=tol*np.abs(m[k]).max())
                if op == 'remove':
                    m[k] = m[k] - mu
            close(float(a.time), np.mean(np.array(tmid(case))[use]), 'mean time', rtol=1e-14)
            close(float(a.month), np.mean(np.array(case['months'])[use]), 'mean month',
                rtol=1e-14)
            close(float(a.radius), rad(case), 'mean radius', rtol=1e-15)
        elif op == 'iterate':
            for _ in range(2):
                count = 0
                for j, z in enumerate(g):
                    for k in FIELDS:
                        same(float(getattr(z, k)), float(keep[k][j]), f'item {j}: {k}')
                    same(float(z.time), float(g.time[j]), f'item {j}: time')
                    same(int(z.month), int(g.month[j]), f'item {j}: month')
                    close(float(z.radius), rad(case), 'item radius', rtol=1e-15)
                    count += 1
                same(count, n, 'number of items')
        elif op == 'get':
            same(list(g.fields), list(FIELDS), 'fields')
            for k in FIELDS:
                v = g.get(k)
                same(np.asarray(v), keep[k], f'get {k}')
                require(not np.shares_memory(v, getattr(g, k)), f'get {k} is shared')
                require(g[k] is getattr(g, k), f'item {k}')
        elif op == 'subset':
            g['C10'] = g['C10']*1.0
            same(len(g), n, 'length')
            t = str(g)
            require(str(case['months'][0]) in t and str(case['months'][-1]) in t, 'text')
        for k in FIELDS:
            s = max(np.abs(m[k]).max(), np.abs(keep[k]).max())
            close(getattr(g, k), m[k], f'{op} (step {i}): {k}', rtol=tol*10,
                atol=tol*s)
        # following steps start from the values of the object
        m = {k: np.copy(getattr(g, k)) for k in FIELDS}
        dates(g, case, f'{op} (step {i})')
        close(float(g.radius), rad(case), f'{op} (step {i}): radius', rtol=1e-15)
        if any(not np.all(np.isfinite(v)) or np.abs(v).max() > 1e40 or
                np.abs(v).min() < 1e-60 for v in m.values()):
            break
    ctx.nontrivial(n > 1 and len(case['ops']) > 1)
    ctx.label(*{OPS[o] for o in case['ops']})


# ------------------------------------------------------------------ products
KINDS = ['gravis', 'slr', 'uci', 'swenson', 'tellus', 'tellus_old', 'netcdf']


def check(g, case, want, what, err=None, t=None, month=None, rtol=4e-15, trtol=4e-16):
    close(g.time, tmid(case) if t is None else t, f'{what}: time', rtol=trtol)
    same(np.asarray(g.month), np.array(case['months'] if month is None else month),
        f'{what}: month')
    for k, w in zip(FIELDS, want):
        close(getattr(g, k), w, f'{what}: {k}', rtol=rtol, atol=1e-26)
    if err is not None:
        for k, w in zip(ERR, err):
            close(getattr(g, k), w, f'{what}: {k}', rtol=max(rtol, 1e-14), atol=1e-26)


def lookup(f, case):
    """path as it is given to the reader"""
    if case['how'] == 1:
        return str(f)
    if case['how'] == 2:
        # names may differ by case, names with the same beginning are other files
        f.with_name(f.name + '.bak').write_text('other\n')
        f.with_name('x' + f.name).write_text('other\n')
        return f.with_name(f.name.swapcase())
    return f


def b_products(case, ctx):
    kind = KINDS[case['seed'] % len(KINDS)]
    months = case['months']
    n = len(months)
    e = case['exp']
    c = values(case, 0, 1e-10)
    u = [np.round(np.abs(v)*1e10, 4) for v in values(case, 1, 1e-10)]
    t = tmid(case)
    d = ctx.tmp/'geocenter'
    d.mkdir()
    r = gen.rng(case['seed'], 4)
    kw = {} if case['radius'] is None else dict(radius=case['radius'])
    g = gravtk.geocenter(**kw)
    if kind == 'gravis':
        days = []
        for k in months:
            y, m = ld.first_of(k)
            days.append(ld.mjd(2015, 4, 12) if k == 161 and spec(case)
                else ld.mjd(y, m, 1) + int(r.integers(-2, 4)))
        ts = [round(ld.decimal(*ld.from_mjd(x)), 4) for x in days]
        rows = [f'{a:8.1f} {b:10.4f} ' + ' '.join(f'{number(x[i], e)} {x[i]*1e10:9.4f} '
            f'{s[i]:9.4f}' for x, s in zip(c, u)) + f' {a+30:8.1f} {b+0.08:9.4f}'
            for i, (a, b) in enumerate(zip(days, ts))]
        head = ['TEXT'] + ['more 1.0 text']*case['head'] + ['PRODUCT: text']
        head = [] if case['head'] == 5 else head
        f = d/'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'
        f.write_text('\n'.join(head + rows) + '\n' + ('\n' if case['blank'] else ''))
        opt = dict(header=False) if case['head'] == 5 else {}
        out = g.from_gravis(lookup(f, case), **opt)
        check(out, case, c, 'GravIS', err=[x*1e-10 for x in u], t=ts)
    elif kind == 'slr':
        xyz = [np.round(v*1e10, 4) for v in values(case, 0, 1e-10)]
        cols = [['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma'],
            ['MJD', 'time', 'X', 'Y', 'Z', 'XM', 'YM', 'ZM', 'X_sigma', 'Y_sigma',
             'Z_sigma', 'XM_sigma', 'YM_sigma', 'ZM_sigma']][case['head'] % 2]
        rows = []
        for i in range(n):
            x = dict(time=f'{t[i]:10.5f}', MJD=f'{52000 + i:9.2f}')
            for j, k in enumerate('XYZ'):
                x[k] = number(xyz[j][i], 'D') if case['blank'] else f'{xyz[j][i]:9.4f}'
                x[k + '_sigma'] = f'{u[j][i]:9.4f}'
            rows.append(' '.join(x.get(k, ' 7.1111') for k in cols))
        f = d/'GCN_RL06.txt'
        f.write_text('\n'.join(['header 1.0']*case['head'] + rows) + '\n')
        k = R0 if case['radius'] is None else case['radius']
        fac = 1.0/(k*np.sqrt(3.0))
        want = [xyz[2]*fac, xyz[0]*fac, xyz[1]*fac]
        err = [u[2]*fac, u[0]*fac, u[1]*fac]
        opt = {}
        if case['errors']:
            a = ctx.tmp/'AOD1B'/'RL06'/'geocenter'
            a.mkdir(parents=True)
            for i in range(n):
                # months of the dates
                q = 160 if months[i] == 161 and spec(case) else months[i]
                y, m = ld.first_of(q)
                aod = np.round(gen.rng(case['seed'], q).standard_normal((3, 4)), 3)
                (a/f'AOD1B_RL06_glo_{y:4d}_{m:02d}.txt').write_text('# text\n# X Y Z\n'
                    + ''.join(f'{y:4d}-{m:02d}-{j+1:02d}T{6*j:02d}:00:00 {v[0]:9.3f} '
                    f'{v[1]:9.3f} {v[2]:9.3f}\n' for j, v in enumerate(aod.T)))
                mu = aod.mean(axis=1)/(R0*np.sqrt(3.0))
                for w, j in zip(want, (2, 0, 1)):
                    w[i] -= mu[j]
            opt = dict(AOD=True, release='RL06')
        elif case['var'] > 0:
            opt = dict(release='RL05')
        if case['head']:
            opt['header'] = case['head']
        out = g.from_SLR(lookup(f, case), columns=cols, **opt)
        for k, w in zip(FIELDS, want):
            close(getattr(out, k), w, f'SLR: {k}', rtol=1e-14, atol=5e-7*fac)
        check(out, case, [getattr(out, k) for k in FIELDS], 'SLR', err=err)
    elif kind == 'uci':
        names = ['C10', 'C11', 'S11'] + (list(ERR) if case['errors'] else [])
        perm = [names[i] for i in r.permutation(len(names))]
        tab = dict(zip(FIELDS + ERR, c + [x*1e-10 for x in u]))
        text = ['header:', '  title: Geocenter coefficients', '  variables:',
            '    mid-epoch_time:', '      comment: 1st column']
        suf = {2: 'nd', 3: 'rd'}
        # the variables of the header are not necessarily in column order
        for j in (r.permutation(len(perm)) if case['var'] > 0 else range(len(perm))):
            text += [f'    {perm[j]}:', f'      comment: {j+2}{suf.get(j+2, "th")} column']
        text += ['    month:', f'      comment: {len(perm)+2}th column', '', '',
            '# End of YAML header']
        rows = [f'{t[i]:11.5f} ' + ' '.join(number(tab[k][i], e) for k in perm)
            + f' {months[i]:4d}' for i in range(n)]
        f = d/'CSR_RL06_MPIOM_SLF_iter.txt'
        f.write_text('\n'.join(text + rows) + '\n')
        out = g.from_UCI(lookup(f, case))
        check(out, case, c, 'UCI', err=[[float(number(x)) for x in tab[k]] for k in ERR]
            if case['errors'] else None)
        f.write_text('\n'.join(text[:-1] + rows) + '\n')
        require(raises(lambda: gravtk.geocenter().from_UCI(f)), 'no error without header')
    elif kind == 'swenson':
        mm = [np.round(v*1e10, 6) for v in values(case, 0, 1e-10)]
        rows = []
        if case['errors']:
            # solutions may be centred in another month than their own
            t = np.round(t + r.choice([0.0, 0.0, 0.06, -0.06], n), 5)
        for i in range(n):
            row = f'{t[i]:11.5f} ' + ' '.join(f'{v[i]:12.6f}' for v in mm)
            rows.append(row + (f' {months[i]:4d}' if case['errors'] else ''))
        f = d/'gad_gsm.RL06.txt'
        f.write_text('\n'.join(['text 1.0']*case['head'] + [' Time  C10 C11 S11'] + rows)
            + '\n')
        out = g.from_swenson(lookup(f, case))
        check(out, case, [v*0.1/CMWE for v in mm], 'Swenson', t=t)
        f.write_text('\n'.join(rows) + '\n')
        require(raises(lambda: gravtk.geocenter().from_swenson(f)), 'no error without header')
    elif kind in ('tellus', 'tellus_old'):
        new = kind == 'tellus'
        err = [np.array([float(number(abs(x))) for x in v]) for v in
            values(case, 1, 1e-12)]
        rows, ts = [], []
        for i in range(n):
            y, m = ld.first_of(months[i])
            if new and months[i] == 161 and spec(case):
                a, b = (2015, 4, 17), (2015, 5, 4)
            else:
                a, b = (y, m, 1 + int(r.integers(0, 4))), (y, m, 26 + int(r.integers(0, 3)))
            if new:
                ts.append((ld.decimal(*a) + ld.decimal(*b))/2)
                lead = 'GRCOF2  '
                tail = (f' {a[0]:4d}{a[1]:02d}{a[2]:02d}.0000 {b[0]:4d}{b[1]:02d}{b[2]:02d}'
                    '.0000 yyyy')
            else:
                from props.F03 import gravtk_mid
                ts.append(gravtk_mid(y, m))
                lead, tail = f'{y:4d}{m:02d} ', ' 0.0000'
            rows.append(f'{lead}   1    0 {number(c[0][i], e)} {number(0.0, e)} '
                f'{number(err[0][i], e)} {number(0.0, e)}{tail}')
            rows.append(f'{lead}   1    1 {number(c[1][i], e)} {number(c[2][i], e)} '
                f'{number(err[1][i], e)} {number(err[2][i], e)}{tail}')
        head = ['text 1.0']*case['head'] + (['end of header ====='] if new
            else ["'(a6,2i4,2E19.12,2E11.4)'"])
        f = d/('TN-13_GEOC_CSR_RL06.txt' if new else 'deg1_coef_RL05.txt')
        f.write_text('\n'.join(head + rows) + '\n')
        opt = {} if new and case['blank'] else dict(JPL=new)
        out = g.from_tellus(lookup(f, case), **opt)
        check(out, case, c, kind, err=err, t=ts)
    else:
        f = d/'geocenter.nc'
        group = 'iteration' if case['blank'] else None
        with netCDF4.Dataset(f, 'w') as nc:
            q = nc.createGroup(group) if group else nc
            q.createDimension('time', n)
            for k, v in list(zip(FIELDS, c)) + list(zip(ERR, [x*1e-10 for x in u])) + [
                    ('time', np.array(t)), ('month', np.array(months))]:
                q.createVariable(k, v.dtype, ('time',))[:] = v
        data = f.read_bytes()
        opt = dict(group=group) if group else {}
        if case['head'] == 1:
            f = d/'geocenter.nc.gz'
            f.write_bytes(gzip.compress(data))
            out = g.from_netCDF4(lookup(f, case), compression='gzip', **opt)
        elif case['head'] == 2:
            out = g.from_netCDF4(io.BytesIO(data), compression='bytes', **opt)
        else:
            out = g.from_netCDF4(lookup(f, case), **opt)
        check(out, case, c, 'netCDF4', err=[x*1e-10 for x in u])
    require(out is g, 'the object is not returned')
    close(float(g.radius), rad(case), f'{kind}: radius', rtol=1e-15)
    # as any other series
    same(len(g), n, f'{kind}: length')
    require(raises(lambda: gravtk.geocenter().case_insensitive_filename(d/'missing.txt'),
        FileNotFoundError), 'missing file is not an error')
    ctx.nontrivial(n > 1)
    ctx.label(kind, 'special' if spec(case) else 'plain')


CHECKS = [
    Check('convert', s_series, b_convert, quick=250, thorough=4000,
        rule='more than one month'),
    Check('harmonics', s_series, b_harmonics, quick=200, thorough=3000,
        rule='more than one month'),
    Check('ops', s_series, b_ops, quick=350, thorough=6000,
        rule='more than one month and operation'),
    Check('products', s_series, b_products, quick=500, thorough=8000,
        rule='more than one month'),
]

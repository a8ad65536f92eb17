"""Glacial isostatic adjustment models: layouts, truncation, titles and drift"""
import h5py
import netCDF4
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['text models hold every degree and order up to at least the requested '
    'degree when their layout has no indices', 'headers hold no digits']
RE = 6.371e9
KINDS = ['IJ05-R2', 'ICE6G', 'W12a', 'SM09', 'Wu10', 'Caron', 'ICE6G-D', 'AW13-ICE6G',
    'AW13-IJ05', 'ascii', 'netCDF4', 'HDF5']
CITE = {'IJ05-R2': ('Ivins', 2013), 'ICE6G': ('Peltier', 2015), 'W12a': ('Whitehouse', 2012),
    'SM09': ('Simpson', 2009), 'Wu10': ('Wu', 2010), 'Caron': ('Caron', 2018),
    'ICE6G-D': ('Peltier', 2018), 'AW13-ICE6G': ('A', 2013), 'AW13-IJ05': ('A', 2013)}
DEFAULT = {'IJ05-R2': 120, 'ICE6G': 60, 'W12a': 120, 'SM09': 120, 'Wu10': 60, 'Caron': 89,
    'ICE6G-D': 256, 'AW13-ICE6G': 100, 'AW13-IJ05': 256, None: 60, 'ascii': 60,
    'netCDF4': 60, 'HDF5': 60}


@st.composite
def s_model(draw, kinds=KINDS):
    top = draw(st.integers(2, 14))
    lmax = draw(st.integers(1, top))
    kind = draw(st.sampled_from(kinds))
    return dict(seed=draw(gen.seeds), kind=kind, top=top, lmax=lmax,
        beyond=draw(st.integers(0, 3)), mmax=draw(st.one_of(st.none(), st.integers(0, lmax))),
        upper=draw(st.booleans()), scale=draw(st.sampled_from([1e-11, 1e-9, 1e-14])),
        exp=draw(st.sampled_from(['D', 'E'])), shuffle=draw(st.booleans()),
        head=draw(st.integers(0, 3)), keep=draw(st.sampled_from([1.0, 1.0, 0.6])),
        blank=draw(st.booleans()), name=draw(st.integers(0, 3)), how=draw(st.integers(0, 3)),
        title=draw(st.booleans()), out=draw(st.sampled_from(['ascii', 'netCDF4', 'HDF5'])),
        default=draw(st.booleans()), nt=draw(st.integers(1, 6)),
        epoch=draw(st.sampled_from([None, 2003.3, 2002.0, 2010.75, 1990.0])))


def truth(case, top=None):
    """degree-indexed rates of the model"""
    n = case['top'] if top is None else top
    r = gen.rng(case['seed'], 5)
    c, s = r.standard_normal((2, n + 1, n + 1))*case['scale']
    tri = gen.tri_mask(n)
    c, s = c*tri, s*tri
    s[:, 0] = 0.0
    return c, s


def num(v, case, digits=10):
    return f'{v: .{digits}E}'.replace('E', case['exp'])


def table(case, c, s, scale=1.0, order=None, digits=10):
    """lines 'l m c s' and the values they hold"""
    n = len(c) - 1
    r = gen.rng(case['seed'], 9)
    C, S = np.zeros_like(c), np.zeros_like(s)
    lines = []
    for l, m in order if order is not None else [(l, m) for l in range(n + 1)
            for m in range(l + 1)]:
        if r.random() > case['keep'] and l > 2:
            continue
        a, b = num(c[l, m]/scale, case, digits), num(s[l, m]/scale, case, digits)
        lines.append(f'{l:4d} {m:4d} {a} {b}')
        C[l, m] = float(a.replace('D', 'E'))*scale
        S[l, m] = float(b.replace('D', 'E'))*scale
    if case['shuffle']:
        r.shuffle(lines)
    return lines, C, S


def write(case, root, top=None):
    """(file, rates held by the file, expected title)"""
    kind, nm = case['kind'], case['name']
    c, s = truth(case, top)
    n = len(c) - 1
    E = dict(case, exp='E')
    if kind in ('IJ05-R2', 'W12a', 'SM09', 'AW13-ICE6G', 'AW13-IJ05'):
        lines, C, S = table(case, c, s, 1e-11 if kind == 'IJ05-R2' else 1.0)
        if kind.startswith('AW13'):
            lines = ['  degree order coefficients', ' -------'][:case['head']] + lines
        if case['blank']:
            lines.append('')
        if kind == 'IJ05-R2':
            par = ['65_.2_1.5', '115_.8_10', '65_.2_3', 'x'][nm]
            name, title = f'Stokes.R2_{par}_L120', f'IJ05_R2_{par}'
        elif kind == 'W12a':
            k = 'BLUB'[nm]
            name, title = f'grate_{k}.clm', 'W12a_' + dict(B='Best', L='Lower', U='Upper')[k]
        elif kind == 'SM09':
            a, b, d = [('120', '5', '10'), ('71', '2', '1'), ('96', '8', '50'), ('1', '1', '3')][nm]
            name, title = f'grate_{a}p{b}{d}.clm', f'SM09_Huy2_{a}_.{b}_{d}'
        elif kind == 'AW13-ICE6G':
            name, par = [('stokes.ice6g.VM5', 'VM5'), ('stokes.ice6g_geruo.txt', 'geruo'),
                ('stokes.ice6g_VM5_ANT.txt', 'VM5_ANT'), ('stokes.ice6g.a.txt', 'a')][nm]
            title = f'AW13_ice6g_{par}'
        else:
            name, par = [('stokes.R2_65_.2_1.5', '65_.2_1.5'), ('stokes.R2_65_.2_1.5_ANT',
                '65_.2_1.5'), ('stokes.R2_x', 'x'), ('stokes.R2_115_.8_10_ANT',
                '115_.8_10')][nm]
            title = f'AW13_IJ05_R2_{par}'
    elif kind == 'ICE6G':
        C, S, lines = np.zeros_like(c), np.zeros_like(s), []
        for l in range(n + 1):
            for m in range(0, l + 1, 2):
                t = [] if m else [f'{l:4d}']
                for k in (m, m + 1):
                    if k <= l:
                        a, b = num(c[l, k]/1e-11, E, 7), num(s[l, k]/1e-11, E, 7)
                        t += [a, b]
                        C[l, k], S[l, k] = float(a)*1e-11, float(b)*1e-11
                lines.append(' '.join(t))
        par = ['VM5', 'VM5_O512', 'L90', 'x'][nm]
        name, title = f'Stokes_G_Rot_60_I6_A_{par}', f'ICE6G_{par}'
    elif kind == 'Wu10':
        c[0], s[0] = 0.0, 0.0
        C, S, lines = np.zeros_like(c), np.zeros_like(s), [' coefficients of 2010 model 3']
        for l in range(1, n + 1):
            for m in range(l + 1):
                for q, Q in ((c, C), (s, S)):
                    if q is s and m == 0:
                        continue
                    a = num(q[l, m]*RE, E)
                    Q[l, m] = float(a)/RE
                    lines.append(a)
        name, title = 'geoid_gia.txt', 'Wu_2010'
    elif kind == 'Caron':
        C, S = np.zeros_like(c), np.zeros_like(s)
        lines = ['Model statistics 2018', 'degree 3', '', 'l m value']
        rows = []
        for l in range(n + 1):
            for m in range(-l, l + 1):
                a = num((s if m < 0 else c)[l, abs(m)], E)
                (S if m < 0 else C)[l, abs(m)] = float(a)
                rows.append(f'{l:d} {m:d} {a}')
        if case['shuffle']:
            gen.rng(case['seed'], 4).shuffle(rows)
        lines += rows
        name, title = 'GIA_maps_Caron.txt', 'Caron_expt'
    elif kind == 'ICE6G-D':
        # absolute sea level values of degrees zero to two come in their own section
        lo, C, S = table(dict(case, keep=1.0), c[:3, :3], s[:3, :3])
        other = [f'{l:4d} {m:4d} {num(1.0, case)} {num(-1.0, case)}' for l in range(3)
            for m in range(l + 1)]
        hi, C2, S2 = table(case, c, s, order=[(l, m) for l in range(3, n + 1)
            for m in range(l + 1)])
        C2[:3, :3], S2[:3, :3] = C, S
        C, S = C2, S2
        lines = ['Time derivative of Stokes coefficients', 'Version 1.0 of 2018', '',
            ''][:case['head'] + 1]
        lines += ['GRACE Approximation for degrees 0 to 2'] + lo
        lines += ['Absolute Sea-level Values for degrees 0 to 2'] + other
        lines += ['GRACE Approximation/Absolute Sea-level Values for degrees > 2'] + hi
        name, title = [('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res'),
            ('Stokes_trend_High_Res.txt', 'ICE6G-D_High_Res'),
            ('ICE-6G_O512_Stokes_trend.txt', 'ICE6G-D_O512'),
            ('Stokes_trend.txt', 'ICE6G-D_')][nm]
    else:
        C, S = c, s
        name = ['stokes_model_x', 'AW13_ice6g_L60', 'a.b', 'm'][nm]
        title = name
        if kind == 'ascii':
            lines, C, S = table(dict(case, keep=1.0, exp='E'), c, s)
            path = root/f'{name}.txt'
            path.write_text('\n'.join(lines) + '\n')
            return path, C, S, path.stem
        attrs = dict(title='Title of 2010', citation='Someone_(2010)', reference='A "paper"',
            url='https://x.y/z') if case['title'] else {}
        attrs = {(k.upper() if nm == 2 else k): v for k, v in attrs.items()}
        if kind == 'netCDF4':
            path = root/f'{name}.nc'
            with netCDF4.Dataset(path, 'w') as f:
                f.createDimension('lm', None)
                for k, v, t in harm_vars(c, s):
                    f.createVariable(k, t, ('lm',))[:] = v
                for k, v in attrs.items():
                    f.setncattr(k, v)
        else:
            path = root/f'{name}.H5'
            with h5py.File(path, 'w') as f:
                for k, v, t in harm_vars(c, s):
                    f.create_dataset(k, data=v, dtype=t)
                for k, v in attrs.items():
                    f.attrs[k] = v
        return path, C, S, 'Title of 2010' if attrs else None
    path = root/name
    path.write_text('\n'.join(lines) + '\n')
    return path, C, S, title


def harm_vars(c, s):
    n = len(c) - 1
    lm = [(l, m) for m in range(n + 1) for l in range(m, n + 1)]
    l, m = np.array(lm).T
    return [('l', l, 'i4'), ('m', m, 'i4'), ('clm', c[l, m], 'f8'), ('slm', s[l, m], 'f8')]


def expected(C, S, lmax, mmax):
    c, s = np.zeros((2, lmax + 1, lmax + 1))
    n = min(lmax + 1, len(C))
    c[:n, :n], s[:n, :n] = C[:n, :n], S[:n, :n]
    k = lmax if mmax is None else mmax
    return c[:, :k + 1], s[:, :k + 1]


def cited(got, kind, case, what):
    if kind in CITE:
        author, year = CITE[kind]
        require(got['citation'].startswith(author + '_') and got['citation'].endswith(
            f'({year})'), f'{what}: citation {got["citation"]}')
        require(f'({year})' in got['reference'] and author in got['reference'],
            f'{what}: reference')
        require(got['reference'].rstrip().rstrip('.').endswith(got['url']), f'{what}: url')
    elif kind in ('netCDF4', 'HDF5') and case['title']:
        require(got['citation'] == 'Someone_(2010)' and got['reference'] == 'A "paper"'
            and got['url'] == 'https://x.y/z', f'{what}: citation of the file')
    else:
        require(got['citation'] is None and got['reference'] is None and got['url'] is None,
            f'{what}: no citation is available')


# ------------------------------------------------------------------ layouts
def b_layout(case, ctx):
    kind = case['kind']
    fixed = kind in ('ICE6G', 'Wu10')
    path, C, S, title = write(case, ctx.tmp)
    lmax = case['lmax'] + (0 if fixed else case['beyond'])
    mmax = case['mmax']
    wc, ws = expected(C, S, lmax, mmax)
    what = f'{kind} model to degree {lmax} and order {mmax}'
    arg = str(path) if case['how'] % 2 else path
    before = path.read_bytes()
    if case['how'] < 2:
        got = gravtk.read_GIA_model(arg, GIA=kind, LMAX=lmax, MMAX=mmax)
        same(np.asarray(got['l']), np.arange(lmax + 1), f'{what}: degrees')
        same(np.asarray(got['m']), np.arange(wc.shape[1]), f'{what}: orders')
    else:
        if case['upper'] and mmax is not None:
            g = gravtk.gia(lmax=lmax).from_GIA(arg, GIA=kind, MMAX=mmax)
        else:
            g = gravtk.gia(lmax=lmax).from_GIA(arg, GIA=kind, mmax=mmax)
        got = {k: getattr(g, k) for k in ('clm', 'slm', 'title', 'citation', 'reference',
            'url')}
        require(int(g.lmax) == lmax and int(g.mmax) == wc.shape[1] - 1, f'{what}: dimensions')
        same(np.asarray(g.l), np.arange(lmax + 1), f'{what}: degrees')
        same(np.asarray(g.m), np.arange(wc.shape[1]), f'{what}: orders')
    close(got['clm'], wc, f'{what}: cosine rates', rtol=1e-12, atol=1e-30)
    close(got['slm'], ws, f'{what}: sine rates', rtol=1e-12, atol=1e-30)
    require(got['title'] == title, f'{what}: title {got["title"]}, not {title}')
    cited(got, kind, case, what)
    require(path.read_bytes() == before, 'the model file is unchanged')
    require(len(list(ctx.tmp.iterdir())) == 1, 'no file is written')
    ctx.nontrivial(np.count_nonzero(wc) > 2)
    ctx.label(kind, 'truncated' if lmax < case['top'] else 'padded'
        if lmax > case['top'] else 'full')


# --------------------------------------------------------- reformatted files
def b_reformat(case, ctx):
    kind, out = case['kind'], case['out']
    path, C, S, title = write(case, ctx.tmp)
    lmax, mmax = case['lmax'], case['mmax']
    got = gravtk.read_GIA_model(path, GIA=kind, LMAX=lmax, MMAX=mmax, DATAFORM=out)
    wc, ws = expected(C, S, lmax, mmax)
    close(got['clm'], wc, 'cosine rates', rtol=1e-12, atol=1e-30)
    close(got['slm'], ws, 'sine rates', rtol=1e-12, atol=1e-30)
    suffix = dict(ascii='txt', netCDF4='nc', HDF5='H5')[out]
    new = path.with_name(f'stokes_{title}_L{lmax:d}.{suffix}')
    require(new.exists(), f'{new.name} is written')
    # reading the reformatted file gives the same field again
    again = gravtk.read_GIA_model(new, GIA=out, LMAX=lmax, MMAX=mmax)
    close(again['clm'], wc, f'cosine rates after {out}', rtol=1e-11, atol=1e-30)
    close(again['slm'], ws, f'sine rates after {out}', rtol=1e-11, atol=1e-30)
    if out != 'ascii':
        require(again['title'] == title, f'title {again["title"]} after {out}')
        require(again['reference'] == got['reference'], f'reference after {out}')
    ctx.nontrivial(np.count_nonzero(wc) > 2)
    ctx.label(f'{kind} to {out}')


# ------------------------------------------------------------------- drift
def b_drift(case, ctx):
    kind = case['kind']
    path, C, S, title = write(case, ctx.tmp)
    lmax, mmax = case['lmax'], case['mmax']
    wc, ws = expected(C, S, lmax, mmax)
    r = gen.rng(case['seed'], 8)
    t = np.sort(2002.3 + r.random(case['nt'])*18)
    kw = {} if case['epoch'] is None else dict(epoch=case['epoch'])
    ep = 2003.3 if case['epoch'] is None else case['epoch']
    g = gravtk.gia(lmax=lmax).from_GIA(path, GIA=kind, mmax=mmax)
    if case['name'] == 0:
        t[-1] = ep
    d = g.drift(t, **kw)
    scale = max(np.abs(wc).max(), np.abs(ws).max(), 1e-30)*20
    close(d.clm, wc[:, :, None]*(t - ep), 'drift of the cosine terms', rtol=1e-11,
        atol=1e-14*scale)
    close(d.slm, ws[:, :, None]*(t - ep), 'drift of the sine terms', rtol=1e-11,
        atol=1e-14*scale)
    same(np.asarray(d.time), t, 'times of the drift')
    require(len(d.month) == len(t), 'months of the drift')
    close(g.clm, wc, 'rates after drift', rtol=1e-12, atol=1e-30)
    if case['name'] == 0:
        require(not d.clm[:, :, -1].any(), 'no drift at the reference epoch')
    ctx.nontrivial(case['nt'] > 1)


# ---------------------------------------------------------------- defaults
def b_default(case, ctx):
    kind = case['kind']
    path, C, S, title = write(case, ctx.tmp)
    n = DEFAULT[kind]
    if case['default'] or kind in ('ICE6G', 'Wu10'):
        # no model: zero fields of the requested size
        got = gravtk.read_GIA_model(None, LMAX=case['lmax'], MMAX=case['mmax'])
        wc, _ = expected(C*0, S*0, case['lmax'], case['mmax'])
        require(got['clm'].shape == wc.shape and not got['clm'].any() and
            not got['slm'].any(), 'no model gives zero rates')
        require(got['title'] is None, 'no title without a model')
        g = gravtk.gia(lmax=case['lmax']).from_GIA(None, mmax=case['mmax'])
        require(g.clm.shape == wc.shape and not g.clm.any(), 'no model gives zero rates')
        ctx.label('no model')
    else:
        got = gravtk.read_GIA_model(path, GIA=kind)
        wc, ws = expected(C, S, n, None)
        close(got['clm'], wc, f'{kind} to its default degree', rtol=1e-12, atol=1e-30)
        close(got['slm'], ws, f'{kind} to its default degree', rtol=1e-12, atol=1e-30)
        ctx.label('default ' + kind)
    # a file that does not exist is an error
    missing = ctx.tmp/'none'/path.name if case['upper'] else ctx.tmp/('x' + path.name)
    require(raises(lambda: gravtk.read_GIA_model(missing, GIA=kind, LMAX=case['lmax'])),
        f'a missing {kind} model is an error')
    ctx.nontrivial()


NOT_REFORMATTED = [k for k in KINDS if k not in ('ascii', 'netCDF4', 'HDF5')]
CHECKS = [
    Check('layout', s_model, b_layout, quick=600, thorough=9000,
        rule='more than two rates inside the limits'),
    Check('reformat', lambda: s_model(NOT_REFORMATTED), b_reformat, quick=250, thorough=3000,
        rule='more than two rates inside the limits'),
    Check('drift', s_model, b_drift, quick=200, thorough=3000, rule='several dates'),
    Check('defaults', s_model, b_default, quick=120, thorough=1200, rule='every case'),
]

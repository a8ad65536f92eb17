"""Generated mission archives and processed coefficients for the analysis programs"""
import pathlib
import types
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from . import gen, l2, oracle
from . import lowdeg as ld

SUF = dict(ascii='.txt', netCDF4='.nc', HDF5='.H5', gfc='.gfc')
FORMS = ['ascii', 'netCDF4', 'HDF5']
UNITS = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar']


@st.composite
def s_grace(draw, lo=1, hi=8, nmin=1, nmax=7, destripe=True, deg1=True):
    from props.F02 import CENTRES
    proc = draw(st.sampled_from(['CSR', 'CSR', 'GFZ', 'JPL', 'COSTG']))
    ds = destripe and draw(st.integers(0, 4)) == 0
    # all of the steps for the removed fields
    every = ds and draw(st.integers(0, 2)) == 0
    lmax = draw(st.integers(10, 14)) if ds else draw(st.integers(lo, hi))
    return dict(seed=draw(gen.seeds), proc=proc, style=draw(st.sampled_from(CENTRES[proc])),
        dset=draw(st.sampled_from(['GSM', 'GSM', 'GSM', 'GAC'])),
        first=draw(st.one_of(st.integers(0, len(ld.BASE) - nmax - 4), st.sampled_from(
            [ld.BASE.index(k) for k in (47, 94, 157, 171, 174, 180)]), st.sampled_from(
            # the last months ahead of the gaps of the record
            [i for i, k in enumerate(ld.BASE[:len(ld.BASE) - nmax - 4]) if k + 1 in ld.GAPS]))),
        n=draw(st.integers(nmin, nmax)), lmax=lmax,
        mmax=draw(st.sampled_from([None, None, None, 0, 1, 2, 3, lmax])) if not ds else None,
        nfile=max(lmax, draw(st.integers(5, 9))),
        excl=draw(st.lists(st.integers(0, 8), max_size=2)) if nmin == 1 else [],
        lo=draw(st.integers(0, 1)) if nmin == 1 else 0,
        hi=draw(st.integers(0, 1)) if nmin == 1 else 0, shuffle=draw(st.booleans()),
        comp=draw(st.booleans()), pole=draw(st.integers(0, 3)) == 0, destripe=ds,
        love=draw(st.sampled_from([None, 0, 1, 2, 3, 4])),
        ref=draw(st.sampled_from([None, 'CF', 'CM', 'CE', 'cm'])),
        rad=draw(st.sampled_from([None, 0, 250, 300.5, 1000])),
        mean=draw(st.sampled_from([None, None, 'ascii', 'netCDF4', 'HDF5', 'gfc'])),
        meanmore=draw(st.integers(-1, 2)),
        gia=draw(st.sampled_from([None, None, 'ascii', 'netCDF4', 'HDF5'])),
        giamore=draw(st.integers(0, 2)),
        remove=draw(st.lists(st.sampled_from(['netCDF4', 'HDF5', 'index-ascii',
            'index-netCDF4', 'index-HDF5']), min_size=int(every), max_size=2)),
        oneform=draw(st.booleans()), removemore=draw(st.integers(0, 2)),
        redist=every or draw(st.integers(0, 2)) == 0, mask=draw(st.sampled_from(['white', 'blocks'])),
        argfile=draw(st.booleans()), mode=draw(st.sampled_from([None, '640', '775'])),
        log=draw(st.integers(0, 5)) == 0, title=draw(st.booleans()),
        jump=draw(st.integers(0, 4)) == 0, slr=draw(st.one_of(st.none(), st.fixed_dictionaries(
            dict(c20=st.sampled_from([None, 'CSR', 'GFZ', 'GSFC']), c22=st.sampled_from(
                [None, None, 'CSR']), c30=st.sampled_from([None, 'GSFC', 'LARES']),
                c21=st.sampled_from([None, 'CSR']), c40=st.sampled_from([None, 'LARES']),
                c50=st.sampled_from([None, 'LARES']), deg1=st.sampled_from(
                ['Tellus', 'SLF', 'UCI', 'Swenson', 'GFZ', None] if deg1 else [None]),
                other=st.booleans(), gap=st.integers(0, 2))))))


@st.composite
def s_tens(draw, base):
    """now and then, solutions of ten days"""
    c = dict(draw(base))
    if draw(st.integers(0, 7)) == 0:
        c.update(proc='CNES', style='CNES', ten=draw(st.sampled_from(['RL01', 'RL02'])),
            dset='GSM', n=draw(st.integers(39, 43)), slr=None, jump=False, remove=[],
            redist=False, lmax=min(c['lmax'], 4) if not c['destripe'] else c['lmax'],
            mmax=c['mmax'] and min(c['mmax'], 4))
    return c


def coefficients(seed, lmax, scale):
    return gen.coeffs(dict(seed=seed, kind='dense', scale=scale), lmax)


def save(path, form, C, S, time=None, month=None, **kw):
    """coefficients to a file, returned as they are written"""
    L = C.shape[0] - 1
    h = gravtk.harmonics(lmax=L, mmax=C.shape[1] - 1)
    h.clm, h.slm = C.copy(), S.copy()
    if time is not None:
        h.time, h.month = np.array(time), np.array(month)
    h.to_file(path, format=form, date=time is not None, **kw)
    if form == 'ascii':
        C, S = [np.vectorize(lambda v: float(f'{v:+21.12e}'))(v) for v in (C, S)]
    return C, S


def ocean(case, path, lmax, mmax, love, k=12):
    """land-sea mask and the coefficients of its ocean"""
    from props.O01 import make_mask, write
    from props.S02 import quadrature
    mask = make_mask(case['seed'], case['mask'], k, 2*k)
    lon, lat = 180.0/k*(np.arange(2*k) + 0.5), 90 - 180.0/k*(np.arange(k) + 0.5)
    sea = (~((mask >= 1) & (mask <= 3))).astype(float).T
    area = np.cos(np.radians(lat))*np.radians(180.0/k)**2
    if np.sum(sea*area) < 0.1*4*np.pi:
        mask = np.zeros_like(mask)
        mask[:, :5] = 1
        sea = (~((mask >= 1) & (mask <= 3))).astype(float).T
    write(path, mask, lon, lat, 'LSMASK')
    fac = oracle.spatial_factors(lmax, love)['cmwe']
    oc, os_ = quadrature(sea, lon, lat, lmax, mmax, area)
    tri = gen.tri_mask(lmax, mmax)
    return oc*fac[:, None]*tri, os_*fac[:, None]*tri


def spread(C, S, oc, os_):
    """total mass distributed over the ocean"""
    ratio = C[0, 0]/oc[0, 0]
    if C.ndim == 2:
        return C - ratio*oc, S - ratio*os_
    return C - ratio*oc[:, :, None], S - ratio*os_[:, :, None]


def destripe(C, S, time, month):
    h = gravtk.harmonics(lmax=C.shape[0] - 1, mmax=C.shape[1] - 1)
    h.clm, h.slm, h.time, h.month = C.copy(), S.copy(), np.array(time), np.array(month)
    h = h.destripe()
    return h.clm, h.slm


def replaced(case, root, g, out, months):
    """low degrees of satellite laser ranging, returned as titles"""
    slr, r = case.get('slr') or {}, gen.rng(case['seed'], 55)
    if not slr or case['dset'] != 'GSM':
        return ''
    at = ld.BASE.index(months[0]), ld.BASE.index(months[-1])
    ser = ld.BASE[max(at[0] - 2, 0):at[1] + 3]
    n = len(ser)
    val = lambda: np.array([float(l2.number(x)) for x in r.standard_normal(n)*1e-10])
    sig = lambda: np.round(r.uniform(0.1, 2, n), 4)
    pick = [ser.index(k) for k in months]
    late = [i for i, k in enumerate(months) if k > 176]
    title = ''

    def put(q, l, m, v, only=None):
        for i in only if only is not None else range(len(months)):
            out[q][l, m, i] = v[pick[i]]
    tn = [(val(), sig()) for _ in range(2)]
    ld.table(root/'TN-14_C30_C20_GSFC_SLR.txt', ser, tn, 'Product:')
    c20 = slr['c20'] if g.lmax >= 2 else None
    if c20 == 'GSFC':
        v, e = tn[0]
        e = e*1e-10
    elif c20 == 'GFZ':
        v, e = val(), sig()
        ld.table(root/f'GFZ_{g.rel}_C20_SLR.dat', ser, [(v, e)])
        e = e*1e-10
    elif c20 == 'CSR' and g.rel == 'RL06':
        v, e = val(), np.abs(val())*1e10
        ld.commented(root/'C20_RL06.txt', ser, [v, [0.0]*n, e, [0.0]*n])
        e = e*1e-10
    elif c20 == 'CSR':
        v, e = val(), sig()
        ld.table(root/{'RL04': 'TN-05_C20_SLR.txt', 'RL05': 'TN-07_C20_SLR.txt'}[g.rel], ser,
            [(v, e)])
        e = e*1e-10
    if c20:
        put('clm', 2, 0, v)
        put('eclm', 2, 0, e)
        title += f'_w{c20}_C20'
        g.notes['SLR C20'] = c20, dict(GSFC='TN-14_C30_C20_GSFC_SLR.txt',
            GFZ=f'GFZ_{g.rel}_C20_SLR.dat').get(c20, dict(RL04='TN-05_C20_SLR.txt',
            RL05='TN-07_C20_SLR.txt', RL06='C20_RL06.txt')[g.rel])
        g.grace += ['--slr-c20', c20]
    for m in (1, 2):
        if slr.get(f'c2{m}') and g.lmax >= 2 and g.mmax >= m:
            v, e = [val(), val()], [np.abs(val())*1e10, np.abs(val())*1e10]
            ld.commented(root/f'C2{m}_S2{m}_{g.rel}.txt', ser, v + e + [[0.0]*n]*2)
            for q, a, b in zip(('clm', 'slm'), v, e):
                put(q, 2, m, a, late)
                put('e' + q, 2, m, b*1e-10, late)
            title += f'_wCSR_2{m}'
            g.notes[f'SLR 2{m}'] = 'CSR', f'C2{m}_S2{m}_{g.rel}.txt'
            g.grace += [f'--slr-2{m}', 'CSR']
    if slr['c30'] == 'GSFC' and g.lmax >= 3:
        put('clm', 3, 0, tn[1][0], late)
        put('eclm', 3, 0, tn[1][1]*1e-10, late)
        title += '_wGSFC_C30'
        g.notes['SLR C30'] = 'GSFC', 'TN-14_C30_C20_GSFC_SLR.txt'
        g.grace += ['--slr-c30', 'GSFC']
    for l in (3, 4, 5):
        if slr.get(f'c{l}0') == 'LARES' and g.lmax >= l:
            v = val()*1e10
            ld.lares(root/f'C{l}0_LARES_filtered.txt', ser, v)
            put('clm', l, 0, v*1e-10 + (9.5717395773300e-07 if l == 3 else 0.0), late)
            put('eclm', l, 0, np.zeros(n), late)
            title += f'_wLARES_C{l}0'
            g.notes[f'SLR C{l}0'] = 'CSR LARES', f'C{l}0_LARES_filtered.txt'
            g.grace += [f'--slr-c{l}0', 'LARES']
    src = slr.get('deg1')
    if src and g.lmax >= 1 and g.mmax >= 1:
        title += degree_one(case, root, g, out, months, src)
    return title


def degree_one(case, root, g, out, months, src):
    """geocenter file of a source and the replaced terms"""
    from props.F02 import CMWE, fitted
    slr, r = case['slr'], gen.rng(case['seed'], 56)
    a, b = ld.BASE.index(months[0]), ld.BASE.index(months[-1])
    ser = ld.BASE[max(a - 8, 0):b + 9]
    # months that are interpolated
    lost = [k for k in months[slr['gap'] - 1::3] if slr['gap']] if len(ser) >= 15 else []
    ser = [k for k in ser if k not in lost]
    n = len(ser)
    c = [np.array([float(l2.number(x)) for x in r.standard_normal(n)*1e-10]) for _ in range(3)]
    new = g.rel == 'RL06'
    d = root/'geocenter'
    f = dict(Tellus=d/(f"TN-13_GEOC_{case['proc']}_RL06.txt" if new else
        f'deg1_coef_{g.rel}.txt'), GFZ=d/'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat',
        Swenson=d/f'gad_gsm.{g.rel}.txt').get(src,
        d/f"{case['proc']}_{g.rel}_MPIOM_SLF_iter.txt")
    g.grace += ['--geocenter', src]
    if slr['other']:
        f = root/'elsewhere'/('GRAVIS-2B_GFZOP_GEOCENTER_x.dat' if src == 'GFZ' else 'one.txt')
        g.grace += ['--geocenter-file', f]
    g.notes['geocenter'] = dict(Tellus='JPL Tellus', GFZ='GFZ GravIS', Swenson='Swenson').get(
        src, 'UCI'), f.name
    if src == 'Tellus':
        t = ld.tellus(f, ser, c, new)
    elif src == 'GFZ':
        ld.table(f, ser, [(x, [0.5]*n) for x in c])
        t = [round(x, 4) for x in ld._times(ser)]
    elif src == 'Swenson':
        mm = [np.round(x*1e10, 6) for x in c]
        t = ld.swenson(f, ser, mm)
        c = [x*0.1/CMWE for x in mm]
    else:
        t = ld.uci(f, ser, c)
    if lost or slr['gap']:
        g.grace += ['--interpolate-geocenter']
    for (q, m), x in zip((('clm', 0), ('clm', 1), ('slm', 1)), c):
        put = dict(zip(ser, x))
        if lost:
            g.slack = 1e-9*np.abs(x).max()
            fit = fitted(np.array(t), x, np.array([g.data[k][2] for k in months]))
            for k, v in zip(months, fit):
                put.setdefault(k, v)
        for i, k in enumerate(months):
            out[q][1, m, i] = put[k]
    return f'_w{src}_DEG1'


def prepare(case, root, redistribute=False):
    """archive, files and processed coefficients of the months of a case"""
    from props.F02 import archive, atmosphere, model, request
    g = types.SimpleNamespace()
    root = pathlib.Path(root)
    d, g.rel, data = archive(case, root)
    # half of the window of the local fits
    g.half = 19 if case.get('ten') else 6
    start, end, missing, use = request(case, data)
    if not use:
        return None
    out, lmax, mmax = model(case, data, use)
    g.directory, g.data, g.months = d, data, use
    g.start, g.end, g.missing = start, end, missing
    g.lmax, g.mmax = lmax, mmax
    g.time = np.array([data[k][2] for k in use])
    g.grace = ['--directory', root, '--center', case['proc'], '--release', g.rel, '--product',
        case['dset'], '--lmax', lmax]
    if case['mmax'] is not None:
        g.grace += ['--mmax', mmax]
    g.grace += ['--start', start, '--end', end]
    # the months without solutions are known to the programs
    if case.get('ten') or use != [k for k in ld.BASE if start <= k <= end]:
        g.grace += ['--missing', *missing]
    # precision of interpolated terms
    g.slack = 0.0
    # origin of the replaced terms and files of the analysis
    g.notes, g.files = {}, {}
    # title of the corrections
    g.title = replaced(case, root, g, out, use)
    g.atm = ''
    if case.get('jump'):
        atmosphere(case, root, gen.rng(case['seed'], 8), use, out, lmax, mmax)
        g.grace += ['--atm-correction']
        g.atm = '_wATM'
        g.title += g.atm
    if case['pole']:
        g.grace += ['--pole-tide']
        g.title += '_wPT'
    g.error = (out['eclm'], out['eslm'])
    C, S = out['clm'], out['slm']
    g.raw = (C.copy(), S.copy())
    g.order = f'M{mmax}' if mmax != lmax else ''
    # remaining options
    g.args = []
    if case['love'] is not None:
        g.args += ['--love', case['love']]
    if case['ref']:
        g.args += ['--reference', case['ref']]
    g.love = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=case['love'] or 0,
        REFERENCE=(case['ref'] or 'CF').upper())
    if case['rad'] is not None:
        g.args += ['--radius', case['rad']]
    g.wt = 2*np.pi*gravtk.gauss_weights(case['rad'], lmax) if case['rad'] \
        else np.ones(lmax + 1)
    g.gauss = f'_r{case["rad"]:0.0f}km' if case['rad'] else ''
    if case['mean']:
        M = max(lmax + case['meanmore'], 1)
        p = root/('static' + SUF[case['mean']])
        if case['mean'] == 'gfc':
            terms = l2.terms(case['seed'] + 5, M, M)
            l2.write(p, l2.content('COSTG', terms, gen.rng(0)).replace('max_degree   60',
                f'max_degree {M}'))
            mc, ms = np.zeros((M + 1, M + 1)), np.zeros((M + 1, M + 1))
            for (l, m), v in terms.items():
                mc[l, m], ms[l, m] = v[:2]
        else:
            mc, ms = save(p, case['mean'], *coefficients(case['seed'] + 5, M, 1e-9))
        a, b = min(lmax, M) + 1, min(mmax, M) + 1
        C[:a, :b] -= mc[:a, :b, None]
        S[:a, :b] -= ms[:a, :b, None]
        g.args += ['--mean-file', p]
        g.files['mean'] = [p]
        if case['mean'] != 'netCDF4':
            g.args += ['--mean-format', case['mean']]
    else:
        C -= C.mean(axis=2)[:, :, None]
        S -= S.mean(axis=2)[:, :, None]
    g.filter = ''
    if case['destripe']:
        g.args += ['--destripe']
        g.filter = '_FL'
        C, S = destripe(C, S, g.time, use)
    g.base = (C.copy(), S.copy())
    g.gia = ''
    dt = g.time - 2003.3
    if case['gia']:
        p = root/('stokes_model-1_L' + SUF[case['gia']])
        kw = dict(title='model-1') if case['gia'] != 'ascii' else {}
        gc, gs = save(p, case['gia'], *coefficients(case['seed'] + 6,
            lmax + case['giamore'], 2e-10), **kw)
        cut = lambda v: v[:lmax + 1, :mmax + 1]
        g.rate = (cut(gc), cut(gs))
        g.gia = '_' + ('model-1' if case['gia'] != 'ascii' else p.stem)
        g.files['gia'] = [p]
        g.args += ['--gia', case['gia'], '--gia-file', p]
        # drift is removed month by month
        C = C - cut(gc)[:, :, None]*dt
        S = S - cut(gs)[:, :, None]*dt
    if redistribute or case['redist']:
        g.ocean = ocean(case, root/'mask.nc', lmax, mmax, g.love)
        g.mask = ['--mask', root/'mask.nc']
    g.removed = []
    if case['remove']:
        forms = case['remove'][:1]*len(case['remove']) if case['oneform'] else case['remove']
        # months of the files: more than those of the analysis
        have = sorted(set(use) | set(range(use[0] - 1, use[-1] + 2)))
        t = [ld.middle(k) for k in have]
        files = []
        for i, form in enumerate(forms):
            L = lmax + case['removemore']
            RC = np.zeros((L + 1, L + 1, len(have)))
            RS = np.zeros_like(RC)
            for j in range(len(have)):
                RC[:, :, j], RS[:, :, j] = coefficients(case['seed'] + 100*(i + 1) + j, L, 1e-9)
            fmt = form.split('-')[-1]
            if form.startswith('index'):
                # the order of the files of an index is not fixed
                names = []
                for j in gen.rng(case['seed'], 61, i).permutation(len(have)):
                    p = root/f'rm{i}_{have[j]:03d}{SUF[fmt]}'
                    RC[:, :, j], RS[:, :, j] = save(p, fmt, RC[:, :, j], RS[:, :, j], t[j],
                        have[j])
                    names.append(str(p))
                g.files.setdefault('remove', []).extend(names)
                p = root/f'rm{i}_index.txt'
                p.write_text('\n'.join(names) + '\n')
            else:
                p = root/f'rm{i}{SUF[fmt]}'
                save(p, fmt, RC, RS, t, have)
                g.files.setdefault('remove', []).append(p)
            files.append(p)
            pick = [have.index(k) for k in use]
            RC, RS = [v[:lmax + 1, :mmax + 1, pick].copy() for v in (RC, RS)]
            if case['redist']:
                RC, RS = spread(RC, RS, *g.ocean)
            if case['destripe']:
                RC, RS = destripe(RC, RS, g.time, use)
            C = C - RC
            S = S - RS
        g.args += ['--remove-file', *files]
        g.args += ['--remove-format', *(forms[:1] if case['oneform'] else forms)]
        if case['redist']:
            g.args += ['--redistribute-removed'] + g.mask
    if case['mode']:
        g.args += ['--mode', case['mode']]
    if case['log']:
        g.args += ['--log']
    g.C, g.S = C, S
    return g


def grid(case, spacing, interval, start=-180.0):
    """centres of the cells of the output grid and the arguments"""
    dlon, dlat = spacing
    args = ['--spacing', num(dlon)] + ([] if dlon == dlat else [num(dlat)])
    if interval != 2 or case['argfile']:
        args += ['--interval', interval]
    if interval == 1:
        lon = start + dlon*np.arange(int(round(360/dlon)) + 1)
        lat = 90 - dlat*np.arange(int(round(180/dlat)) + 1)
    elif interval == 2:
        lon = start + dlon/2 + dlon*np.arange(int(round(360/dlon)))
        lat = 90 - dlat/2 - dlat*np.arange(int(round(180/dlat)))
    else:
        lon = -100 + dlon/2 + dlon*np.arange(4)
        lat = -60 + 3*dlat - dlat/2 - dlat*np.arange(3)
        args += ['--bounds', -100, num(-100 + 4*dlon), -60, num(-60 + 3*dlat)]
    return lon, lat, args


def num(v):
    return repr(float(v)) if v != int(v) else str(int(v))


def synth(C, S, fac, lon, lat, lmin, mmax):
    """field [lat, lon] and bound of its values"""
    f = [v*fac[:, None] for v in (C, S)]
    for v in f:
        v[:lmin] = 0
    return oracle.synth(*f, lon, lat, lmin=lmin, mmax=mmax).T, oracle.basis_bound(*f) + 1e-300


def noise(t, y, h=6):
    """noise of the series smoothed with the local fits, None if a window is not estimable"""
    from props.R02 import design
    out = np.zeros((len(t) - 2*h,) + y.shape[:-1])
    for i in range(h, len(t) - h):
        s = slice(i - h, i + h + 1)
        A = design(t[s])
        A[:, 1] -= t[i]
        if np.linalg.cond(A) > 500:
            return None
        b = np.linalg.pinv(A)
        out[i - h] = y[..., i] - y[..., s] @ (A[h] @ b)
    return out


def delta(g):
    """errors of the coefficients and number of points"""
    parts = [noise(g.time, v, g.half) for v in g.base]
    if parts[0] is None:
        return None
    n = len(parts[0])
    return [np.sqrt((v**2).mean(axis=0)) for v in parts] + [n]


def error_map(dC, dS, n, fac, lon, lat, lmin, mmax):
    """errors of a field from those of the coefficients"""
    L = dC.shape[0] - 1
    P, _ = oracle.plm4pi(L, np.sin(np.radians(lat)), mmax)
    m = np.arange(dC.shape[1])
    out = np.zeros((len(lat), len(lon)))
    for a, f in ((dC, np.cos), (dS, np.sin)):
        w = (a*fac[:, None])**2/n
        w[:lmin] = 0
        q = np.einsum('lm,lmt->tm', w, P[:, :a.shape[1]]**2)
        out += q @ (f(m[:, None]*np.radians(lon)[None, :])**2)
    return np.sqrt(out)

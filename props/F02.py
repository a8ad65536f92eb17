"""Assembly of monthly fields with replaced low-degree terms"""
import datetime
import sys
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, l2, oracle
from pbt import lowdeg as ld
from pbt.core import Check, close, raises, require, same
from props.F01 import TIDES, StandIn, expected

ASSUMPTIONS = ['solutions cover calendar months', 'months without a file are listed as '
    'missing', 'replaced terms are inside of the degree and order limits']
CENTRES = {'CSR': ['CSR6', 'CSR5', 'CSR4'], 'GFZ': ['GFZ6', 'GFZ5', 'GFZ4'],
    'JPL': ['JPL6', 'JPL5', 'JPL4'], 'CNES': ['CNES'], 'COSTG': ['COSTG'], 'GRAZ': ['GRAZ'],
    'Swarm': ['Swarm']}
REL = {'6': 'RL06', '5': 'RL05', '4': 'RL04'}
ATM = ['TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
    'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
    'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz']
CMWE = 5.517*6.371e8
R0 = 1000.0*6378137.0*(1.0 - 1.0/298.257223563)**(1.0/3.0)


@st.composite
def s_archive(draw):
    proc = draw(st.sampled_from(['CSR', 'CSR', 'CSR', 'GFZ', 'JPL', 'JPL', 'CNES', 'COSTG',
        'GRAZ', 'Swarm']))
    a = draw(st.one_of(st.integers(0, len(ld.BASE) - 12), st.sampled_from([ld.BASE.index(k)
        for k in (47, 48, 94, 95, 157, 158, 171, 173, 174, 175, 180)])))
    o = dict(seed=draw(gen.seeds), proc=proc, style=draw(st.sampled_from(CENTRES[proc])),
        dset=draw(st.sampled_from(['GSM', 'GSM', 'GSM', 'GAA', 'GAC', 'GAD'])),
        first=a, n=draw(st.integers(1, 9)), lmax=draw(st.integers(0, 8)),
        mmax=draw(st.sampled_from([None, None, 0, 1, 2, 3, 5, 8])),
        nfile=draw(st.integers(5, 9)), excl=draw(st.lists(st.integers(0, 8), max_size=2)),
        lo=draw(st.integers(0, 2)), hi=draw(st.integers(0, 2)),
        shuffle=draw(st.booleans()), comp=draw(st.booleans()))
    return o


@st.composite
def s_plain(draw):
    return dict(draw(s_archive()), pole=draw(st.booleans()), atm=draw(st.booleans()),
        how=draw(st.booleans()))


@st.composite
def s_replace(draw):
    o = dict(draw(s_archive()))
    o.update(dset='GSM', lmax=draw(st.integers(2, 7)), nfile=8, mmax=draw(st.sampled_from(
        [None, None, 2, 3])), proc=draw(st.sampled_from(['CSR', 'GFZ', 'JPL', 'COSTG'])))
    o['style'] = draw(st.sampled_from(CENTRES[o['proc']]))
    pick = lambda *v: draw(st.sampled_from([None, ''] + list(v)*2))
    o.update(c20=pick('CSR', 'GFZ', 'GSFC'), s21=pick('CSR', 'GFZ', 'GSFC'),
        s22=pick('CSR', 'GSFC'), c30=pick('CSR', 'LARES', 'GFZ', 'GSFC'),
        c40=pick('CSR', 'LARES', 'GSFC'), c50=pick('CSR', 'LARES', 'GSFC'),
        deg1=pick('Tellus', 'SLR', 'UCI', 'SLF', 'Swenson', 'GFZ'), model=draw(st.booleans()),
        other=draw(st.booleans()), pole=draw(st.booleans()), atm=draw(st.booleans()),
        drop=draw(st.sampled_from([None, None, None, 'c20', 'slr', 'deg1'])),
        gap=draw(st.lists(st.integers(0, 8), max_size=3)), how=draw(st.booleans()))
    return o


def release(case):
    return REL.get(case['style'][-1], 'RL06')


def tenday(case, root):
    """solutions of ten days, numbered from the first one"""
    rel, day = case['ten'], datetime.timedelta(days=1)
    d = root/case['proc']/rel/case['dset']
    d.mkdir(parents=True)
    a0 = datetime.date(2002, 7, 29) + (case['first'] % 300)*10*day
    data = {}
    for k in range(1, case['n'] + 1):
        a = a0 + (k - 1)*10*day
        b = a + 9*day
        terms = l2.terms(case['seed'] + k, case['nfile'], case['nfile'],
            shuffle=case['shuffle'])
        name = l2.filename('CNES', case['dset'], a, b, comp=case['comp'])
        l2.write(d/name, l2.content('CNES', terms, gen.rng(0)), case['comp'])
        data[k] = (name, terms, l2.mid_year(a, b))
    (d/'index.txt').write_text('\n'.join(v[0] for v in data.values()) + '\n')
    return d, rel, data


def archive(case, root):
    """files of the months with their contents"""
    rel = release(case)
    if case.get('ten'):
        return tenday(case, root)
    months = ld.BASE[case['first']:case['first'] + case['n']]
    d = root/case['proc']/rel/case['dset']
    d.mkdir(parents=True)
    names, data = [], {}
    for k in months:
        y, m = ld.first_of(k)
        a = datetime.date(y, m, 1)
        b = datetime.date(y, m, oracle.month_lengths(y)[m - 1])
        terms = l2.terms(case['seed'] + k, case['nfile'], case['nfile'],
            shuffle=case['shuffle'])
        style = case['style']
        if style == 'GRAZ':
            name = {'GSM': 'ITSG-Grace2018_n60_'}.get(case['dset'],
                'model_atmosphere_n180_') + f'{y}-{m:02d}.gfc'
        elif style == 'Swarm':
            name = f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T000000_{b:%Y%m%d}T235959_0101.gfc' \
                if case['dset'] == 'GSM' else f'{case["dset"]}_Swarm_60_{m:02d}_{y}.gfc'
        else:
            comp = case['comp'] and style != 'COSTG'
            name = l2.filename(style, case['dset'], a, b, comp=comp)
        if style in ('GRAZ', 'Swarm'):
            text = l2.content('COSTG', terms, gen.rng(0)).replace('max_degree   60',
                f"max_degree {case['nfile']}")
            l2.write(d/name, text)
        else:
            l2.write(d/name, l2.content(style, terms, gen.rng(0)), comp)
        names.append(name)
        data[k] = (name, terms, l2.mid_year(a, b))
    (d/'index.txt').write_text('\n'.join(names) + '\n')
    return d, rel, data


def request(case, data):
    """first and last months and the months not to be read"""
    ks = sorted(data)
    lo, hi = min(case['lo'], len(ks) - 1), max(len(ks) - 1 - case['hi'], 0)
    lo = min(lo, hi)
    start, end = ks[lo], ks[hi]
    excl = {ks[i] for i in case['excl'] if i < len(ks)}
    missing = sorted({k for k in range(start, end + 1) if k not in data} | excl | ({3} - set(data)) | {999})
    use = [k for k in ks if start <= k <= end and k not in excl]
    return start, end, missing, use


def model(case, data, use):
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else min(case['mmax'], lmax)
    out = {k: np.zeros((lmax + 1, mmax + 1, len(use)))
        for k in ('clm', 'slm', 'eclm', 'eslm')}
    for i, k in enumerate(use):
        _, terms, t = data[k]
        style = case['style'] if case['style'] in l2.STYLES else 'COSTG'
        pole = case['pole'] and case['style'] not in ('GRAZ', 'Swarm')
        c = dict(style=style, dset=case['dset'], pole=pole)
        w = expected(c, terms, {}, lmax, mmax, t)
        for q in out:
            out[q][:, :, i] = w[q]
        if case['style'] in ('GRAZ', 'Swarm') and case['nfile'] <= lmax:
            # fields are converted to the tide free system
            out['clm'][case['nfile'], 0, i] += TIDES['tide_free']
    return out, lmax, mmax


def atmosphere(case, root, r, use, out, lmax, mmax):
    """corrections for jumps of the atmospheric model"""
    corr = np.zeros((2, lmax + 1, mmax + 1, len(use)))
    for f, (a, b) in zip(ATM, ((50, 97), (98, 161), (162, 999))):
        terms = l2.terms(int(r.integers(0, 99999)), 8, 8)
        l2.write(root/f, l2.content('GFZ5', terms, r), True)
        for i, k in enumerate(use):
            if a <= k <= b:
                for (l, m), v in terms.items():
                    if l <= lmax and m <= mmax:
                        corr[:, l, m, i] = v[:2]
    sign = {'GSM': -1, 'GAC': 1, 'GAA': 1}.get(case['dset'], 0)
    out['clm'] += sign*corr[0]
    out['slm'] += sign*corr[1]


def compare(got, out, use, data, d, case, lmax, mmax, skip=()):
    for k, w in out.items():
        g = np.asarray(got[k])
        require(g.shape == w.shape, f'{k} has shape {g.shape}, expected {w.shape}')
        for i, q in enumerate(use):
            a, b = g[:, :, i].copy(), w[:, :, i].copy()
            for l, m in skip:
                if l <= lmax and m <= mmax:
                    a[l, m] = b[l, m] = 0
            close(a, b, f'{k} of month {q}', rtol=2e-14, atol=2e-24)
    same(np.asarray(got['month']), np.array(use, dtype=int), 'months')
    t = [data[k][2] for k in use]
    close(got['time'], t, 'dates', rtol=0, atol=2e-3 if case['style'] in ('GRAZ', 'Swarm')
        else 1e-12)
    same(np.asarray(got['l']), np.arange(lmax + 1), 'degrees')
    same(np.asarray(got['m']), np.arange(mmax + 1), 'orders')
    same(str(got['directory']), str(d), 'directory')
    line = [data[k][0] for k in use]
    line = [x.rsplit('.', 1)[0] if '.' in x else x for x in line]
    same(list(got['attributes']['lineage'])[:len(use)], line, 'lineage')


def guarded(fn):
    def body(case, ctx):
        mods = [sys.modules['gravity_toolkit.read_gfc_harmonics'],
            sys.modules['gravity_toolkit.harmonics']]
        old = [mod.geoidtk for mod in mods]
        for mod in mods:
            mod.geoidtk = StandIn
        try:
            fn(case, ctx)
        finally:
            for mod, o in zip(mods, old):
                mod.geoidtk = o
    return body


@guarded
def b_plain(case, ctx):
    root = ctx.tmp
    d, rel, data = archive(case, root)
    if case['style'] in ('GRAZ', 'Swarm'):
        case = dict(case, lmax=min(case['lmax'], case['nfile']))
    start, end, missing, use = request(case, data)
    out, lmax, mmax = model(case, data, use)
    r = gen.rng(case['seed'], 8)
    if case['atm']:
        atmosphere(case, root, r, use, out, lmax, mmax)
    kw = {} if case['mmax'] is None else dict(MMAX=mmax)
    if case['pole']:
        kw['POLE_TIDE'] = True
    if case['atm']:
        kw['ATM'] = True
    base = str(root) if case['how'] else root
    args = (case['proc'], rel, case['dset'], lmax, start, end, missing)
    listed = list(missing)
    got = gravtk.grace_input_months(base, *args, None, None, **kw)
    compare(got, out, use, data, d, case, lmax, mmax)
    same(missing, listed, 'list of missing months')
    same(got['title'], ('_wATM' if case['atm'] else '') + ('_wPT' if case['pole'] else ''),
        'title')
    StandIn.calls and same({c['TIDE'] for c in StandIn.calls[-len(use):]} if use else
        {'tide_free'}, {'tide_free'}, 'tide system')
    StandIn.calls.clear()
    # a smaller range of months is a part of the series
    if len(use) > 1:
        part = gravtk.grace_input_months(base, case['proc'], rel, case['dset'], lmax,
            use[1], end, missing, '', '', **kw)
        for k in out:
            same(part[k], got[k][:, :, 1:], f'{k} of fewer months')
    StandIn.calls.clear()
    absent = [k for k in range(start, end + 1) if k not in data]
    if absent:
        require(raises(lambda: gravtk.grace_input_months(base, case['proc'], rel,
            case['dset'], lmax, start, end, [], None, None)),
            'a missing month is not an error')
    require(raises(lambda: gravtk.grace_input_months(base, case['proc'], 'RL99',
        case['dset'], lmax, start, end, missing, None, None), FileNotFoundError),
        'missing directory is not an error')
    StandIn.calls.clear()
    # harmonics objects of the series
    if use:
        h = gravtk.harmonics().from_dict(got)
        same(h.clm, got['clm'], 'clm of the object')
        same(h.month, np.array(use), 'months of the object')
        same(int(h.lmax), lmax, 'lmax')
        same(int(h.mmax), mmax, 'mmax')
    ctx.nontrivial(len(use) > 1)
    ctx.label(case['proc'], case['dset'], 'atm' if case['atm'] else 'raw')


@guarded
def b_replace(case, ctx):
    root = ctx.tmp
    d, rel, data = archive(case, root)
    start, end, missing, use = request(case, data)
    lmax = case['lmax']
    # replacements inside of the limits
    c30 = case['c30'] if lmax >= 3 else None
    c40 = case['c40'] if lmax >= 4 else None
    c50 = case['c50'] if lmax >= 5 else None
    out, lmax, mmax = model(case, data, use)
    r = gen.rng(case['seed'], 9)
    ser = sorted(set(ld.BASE[max(case['first'] - 6, 0):case['first'] + case['n'] + 6]))
    single = [k for k in use if k > 176]
    late = [k for k in ser if k > 176]
    lost = None
    if case['drop'] and use:
        lost = (use if case['drop'] != 'slr' else single or [None])[case['seed'] % 7 % len(
            use if case['drop'] != 'slr' else single or [None])]

    def have(kind):
        """months of the series"""
        return [k for k in ser if not (case['drop'] == kind and k == lost)]
    m20, mslr, m1 = have('c20'), have('slr'), have('deg1')
    n = len(ser)
    val = lambda scale=1e-10: np.array([float(number(x)) for x in
        r.standard_normal(n)*scale])
    number = l2.number
    sig = lambda: np.round(r.uniform(0.1, 2, n), 4)
    new = {}     # (name, l, m) -> month -> value
    skip = set()

    def put(key, l, m, months, v):
        new[key, l, m] = {k: v[ser.index(k)] for k in months}
    pickm = lambda v, months: [v[ser.index(k)] for k in months]
    errors = False
    # gravis and the technical note hold several of the terms
    gr = {k: (val(), sig()) for k in ('C20', 'C30', 'C21', 'S21')}
    ld.table(root/'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', mslr,
        [(pickm(v, mslr), pickm(s, mslr)) for v, s in gr.values()])
    tn = {k: (val(), sig()) for k in ('C20', 'C30')}
    tnm = [k for k in ser if k in m20 and k in mslr]
    ld.table(root/'TN-14_C30_C20_GSFC_SLR.txt', tnm, [(pickm(v, tnm), pickm(s, tnm))
        for v, s in tn.values()], 'Product:')
    five, efive = ld.fields(root/'CSR_Monthly_5x5_Gravity_Harmonics.txt', mslr, r)
    five = {k: five[..., i] for i, k in enumerate(mslr)}
    efive = {k: efive[..., i] for i, k in enumerate(mslr)}
    week = any(v == 'GSFC' for v in (case['s21'], case['s22'], c40, c50))
    if week:
        t0 = ld.middle(ser[0]) - 0.1
        tw, fw = ld.weekly(root/'gsfc_slr_5x5c61s61.txt', t0,
            int((ld.middle(ser[-1]) + 0.2 - t0)*52.2), r)
    kw = {}
    flags = ''
    # origin of the replaced terms
    notes = {}
    tn14, gravis, week_ = ('TN-14_C30_C20_GSFC_SLR.txt',
        'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', 'gsfc_slr_5x5c61s61.txt')

    def required(months, wanted):
        return bool(set(wanted) - set(months))
    # degree two zonals
    if case['c20'] == 'CSR':
        v, s = val(), val(0.3)
        f = {'RL04': 'TN-05_C20_SLR.txt', 'RL05': 'TN-07_C20_SLR.txt',
            'RL06': 'C20_RL06.txt'}[rel]
        notes['SLR C20'] = ('CSR', f)
        if rel == 'RL06':
            ld.commented(root/f, m20, [pickm(v, m20), [0.0]*len(m20), np.abs(pickm(s, m20)),
                [0.0]*len(m20)])
            e = np.abs(s)*1e-10
        else:
            s = sig()
            ld.table(root/f, m20, [(pickm(v, m20), pickm(s, m20))])
            e = s*1e-10
        put('clm', 2, 0, m20, v)
        put('eclm', 2, 0, m20, e)
        months20 = m20
    elif case['c20'] == 'GFZ':
        v, s = val(), sig()
        ld.table(root/f'GFZ_{rel}_C20_SLR.dat', m20, [(pickm(v, m20), pickm(s, m20))])
        put('clm', 2, 0, m20, v)
        put('eclm', 2, 0, m20, s*1e-10)
        months20 = m20
        notes['SLR C20'] = ('GFZ', f'GFZ_{rel}_C20_SLR.dat')
    elif case['c20'] == 'GSFC':
        notes['SLR C20'] = ('GSFC', tn14)
        put('clm', 2, 0, tnm, tn['C20'][0])
        put('eclm', 2, 0, tnm, tn['C20'][1]*1e-10)
        months20 = tnm
    if case['c20']:
        flags += f"_w{case['c20']}_C20"
        errors |= required(months20, use)
    # weekly averages are of the dates of the solutions
    def put_weekly(l, m):
        for q, j in (('clm', 0), ('slm', 1))[:1 if m == 0 else 2]:
            new[q, l, m] = {}
            for k in use:
                a, b, st_, sd = ld.weekly_mean(tw, fw[j, l, m], data[k][2])
                new[q, l, m][k] = b
                if not sd:
                    skip.add((l, m))
            new['e' + q, l, m] = {k: 0.0 for k in use}
    # degree two, order one and two
    for key, m in (('s21', 1), ('s22', 2)):
        src = case[key]
        if not src:
            continue
        kw[f'SLR_2{m}'] = src
        flags += f'_w{src}_2{m}'
        notes[f'SLR 2{m}'] = dict(GSFC=('GSFC', week_), GFZ=('GFZ GravIS', gravis),
            CSR=('CSR', f'C2{m}_S2{m}_{rel}.txt'))[src]
        if src == 'GSFC':
            put_weekly(2, m)
        elif src == 'CSR':
            v = [val(), val()]
            s = [np.abs(val(0.3)), np.abs(val(0.3))]
            ld.commented(root/f'C2{m}_S2{m}_{rel}.txt', mslr, [pickm(x, mslr) for x in v]
                + [pickm(x, mslr) for x in s] + [[0.0]*len(mslr)]*2)
            for q, x, e in (('clm', v[0], s[0]), ('slm', v[1], s[1])):
                put(q, 2, m, mslr, x)
                put('e' + q, 2, m, mslr, e*1e-10)
            errors |= required(mslr, single)
        else:
            put('clm', 2, 1, mslr, gr['C21'][0])
            put('slm', 2, 1, mslr, gr['S21'][0])
            put('eclm', 2, 1, mslr, gr['C21'][1]*1e-10)
            put('eslm', 2, 1, mslr, gr['S21'][1]*1e-10)
            errors |= required(mslr, single)
    # other zonals
    for src, l in ((c30, 3), (c40, 4), (c50, 5)):
        if not src:
            continue
        kw[f'SLR_C{l}0'] = src
        flags += f'_w{src}_C{l}0'
        notes[f'SLR C{l}0'] = dict(CSR=('CSR', 'CSR_Monthly_5x5_Gravity_Harmonics.txt'),
            LARES=('CSR LARES', f'C{l}0_LARES_filtered.txt'), GFZ=('GFZ GravIS', gravis),
            GSFC=('GSFC', tn14 if l == 3 else week_))[src]
        months = mslr
        if src == 'CSR':
            for q, x in (('clm', five), ('eclm', efive)):
                new[q, l, 0] = {k: x[k][0, l, 0] for k in mslr}
        elif src == 'LARES':
            v = val(1.0)
            ld.lares(root/f'C{l}0_LARES_filtered.txt', mslr, pickm(v, mslr))
            put('clm', l, 0, mslr, v*1e-10 + (9.5717395773300e-07 if l == 3 else 0.0))
            put('eclm', l, 0, mslr, np.zeros(n))
        elif src == 'GFZ':
            put('clm', 3, 0, mslr, gr['C30'][0])
            put('eclm', 3, 0, mslr, gr['C30'][1]*1e-10)
        elif l == 3:
            put('clm', 3, 0, tnm, tn['C30'][0])
            put('eclm', 3, 0, tnm, tn['C30'][1]*1e-10)
            months = tnm
        else:
            put_weekly(l, 0)
            months = use
        errors |= required(months, single)
    # degree one
    src = case['deg1']
    c1 = [val(1e-10) for _ in range(3)]
    if src:
        g = root/'geocenter'
        new_style = rel == 'RL06'
        f = dict(Tellus=g/(f"TN-13_GEOC_{case['proc']}_RL06.txt" if new_style else
            f'deg1_coef_{rel}.txt'), GFZ=g/'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat',
            Swenson=g/f'gad_gsm.{rel}.txt').get(src,
            g/f"{case['proc']}_{rel}_MPIOM_SLF_iter.txt")
        if case['other'] and src != 'SLR':
            f = root/'elsewhere'/('GRAVIS-2B_GFZOP_GEOCENTER_x.dat' if src == 'GFZ'
                else 'file.txt')
            kw['DEG1_FILE'] = str(f) if case['how'] else f
        got_m = [k for k in m1 if not (case['model'] and ser.index(k) in
            [ser.index(use[j]) for j in case['gap'] if j < len(use)])]
        p = [pickm(x, got_m) for x in c1]
        if src == 'Tellus':
            t1 = ld.tellus(f, got_m, p, new_style)
        elif src == 'GFZ':
            ld.table(f, got_m, [(x, [0.5]*len(got_m)) for x in p])
            t1 = [round(x, 4) for x in ld._times(got_m)]
        elif src == 'Swenson':
            mm = [np.round(np.array(x)*1e10, 6) for x in p]
            t1 = ld.swenson(f, got_m, mm)
            p = [x*0.1/CMWE for x in mm]
        elif src == 'SLR':
            xyz = [np.round(np.array(x)*1e10, 4) for x in p]
            t1, mu = ld.slr_geocenter(root, got_m, xyz, rel, r)
            a, b = 1/(6.378136e9*np.sqrt(3)), 1/(R0*np.sqrt(3))
            p = [xyz[j]*a - mu[j]*b for j in (2, 0, 1)]
        else:
            t1 = ld.uci(f, got_m, p)
        for (q, m), x in zip((('clm', 0), ('clm', 1), ('slm', 1)), p):
            new[q, 1, m] = dict(zip(got_m, x))
        if case['model']:
            kw['MODEL_DEG1'] = True
            for (q, m), x in zip((('clm', 0), ('clm', 1), ('slm', 1)), p):
                fit = fitted(np.array(t1), np.array(x), np.array([data[k][2] for k in use]))
                for k, v in zip(use, fit):
                    new[q, 1, m].setdefault(k, v)
        else:
            errors |= required(got_m, use)
        flags += f'_w{src}_DEG1'
        notes['geocenter'] = (dict(Tellus='JPL Tellus', SLR='CSR SLR', GFZ='GFZ GravIS',
            Swenson='Swenson').get(src, 'UCI'), 'gct2est.220_5s' if src == 'SLR' else f.name)
    for (q, l, m), v in new.items():
        if l > lmax or m > mmax:
            continue
        for i, k in enumerate(use):
            if k in v and (k > 176 or l == 1 or (l, m) == (2, 0)):
                out[q][l, m, i] = v[k]
    if case['atm']:
        atmosphere(case, root, r, use, out, lmax, mmax)
        kw['ATM'] = True
        flags += '_wATM'
        notes['atmospheric_correction'] = 'Fagiolini et al. (2015)'
    if case['pole']:
        kw['POLE_TIDE'] = True
        flags += '_wPT'
        notes['pole_tide_correction'] = 'Wahr et al. (2015)'
    if case['mmax'] is not None:
        kw['MMAX'] = mmax
    base = str(root) if case['how'] else root
    call = lambda: gravtk.grace_input_months(base, case['proc'], rel, 'GSM', lmax, start,
        end, missing, case['c20'], src, **kw)
    if errors:
        require(raises(call, IOError), f'missing month {lost} of a series is not an error')
        ctx.label('error')
        ctx.nontrivial(True)
        return
    got = call()
    # single precision values are only as precise
    lowp = set(skip)
    for k in ('eclm', 'eslm'):
        for i, q in enumerate(use):
            for l, m in ((2, 0), (2, 1), (2, 2)):
                if m <= mmax:
                    a, b = got[k][l, m, i], out[k][l, m, i]
                    if abs(a - b) <= 2e-7*abs(b) or (gravis_error(case, l, m) and
                            abs(a*1e-2 - b) <= 1e-7*abs(b)):
                        out[k][l, m, i] = a
    if src == 'SLR' or (src and case['model']):
        for q, m in (('clm', 0), ('clm', 1), ('slm', 1)):
            a, b = got[q][1, m], out[q][1, m]
            close(a, b, f'degree one {q}', rtol=1e-6, atol=1e-6*1e-10)
            out[q][1, m] = a
    compare(got, out, use, data, d, case, lmax, mmax, skip=lowp)
    same(got['title'], flags, 'title')
    same({k: v for k, v in got['attributes'].items() if k != 'lineage'}, notes,
        'origin of the replacements')
    ctx.nontrivial(len(use) > 1 and bool(flags))
    ctx.label(src or 'no degree one', 'late' if single else 'early')


def gravis_error(case, l, m):
    return (l, m) == (2, 1) and case['s21'] == 'GFZ'


def fitted(t, d, out):
    """annual, semi-annual and quadratic model"""
    t0 = 0.5*(t.min() + t.max())
    h = max(0.5*(t.max() - t.min()), 1e-3)

    def mat(x):
        u = (x - t0)/h
        cols = [np.ones_like(u), u, u**2]
        for c in (0.5, 1.0):
            cols += [np.sin(2*np.pi*(x - 2000)/c), np.cos(2*np.pi*(x - 2000)/c)]
        return np.stack(cols, axis=1)
    q, rr = np.linalg.qr(mat(t))
    return mat(out) @ np.linalg.solve(rr, q.T @ d)


CHECKS = [
    Check('assembly', s_plain, b_plain, quick=300, thorough=4000,
        rule='more than one month'),
    Check('replace', s_replace, b_replace, quick=350, thorough=5000,
        rule='more than one month with a replacement, or a missing month'),
]

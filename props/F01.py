"""Level-2 gravity field files: decoding of generated files"""
import datetime
import hashlib
import io
import sys
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, l2, oracle
from pbt.core import Check, close, raises, require, same
from props.F06 import gfc_dates, gfc_name, s_gfc

ASSUMPTIONS = ['each degree and order is listed once', 'the degree zero term is one if the '
    'file does not have it', 'ICGEM files are parsed by a stand-in for the external '
    'geoid toolkit (not installed)', 'text fields do not start with a data marker']
JD0 = 2440587.5
DSETS = ['GSM', 'GSM', 'GSM', 'GAA', 'GAB', 'GAC', 'GAD']


@st.composite
def s_file(draw):
    n = draw(st.integers(0, 12))
    style = draw(st.sampled_from(sorted(l2.STYLES)))
    # mascon-derived and filtered products are only made of the GSM fields
    dsets = ['GSM'] if style in ('MSC6', 'DDK') else DSETS
    return dict(seed=draw(gen.seeds), style=style,
        dset=draw(st.sampled_from(dsets)), span=draw(gen.spans(40)),
        mis=draw(st.sampled_from(['GRAC', 'GRFO'])), nmax=n, mfile=draw(st.integers(0, n)),
        lmax=draw(st.integers(0, 14)), mmax=draw(st.one_of(st.none(), st.integers(0, 14))),
        comp=draw(st.booleans()), keep=draw(st.sampled_from([1.0, 1.0, 0.5])),
        shuffle=draw(st.booleans()), pole=draw(st.booleans()), drift=draw(st.booleans()),
        how=draw(st.sampled_from(['path', 'str', 'stream'])),
        exp=draw(st.sampled_from(['E', 'e'])), head=draw(st.booleans()),
        scale=draw(st.sampled_from([1.0, 1e-9])))


@st.composite
def s_pole(draw):
    """solutions around the change of the mean pole"""
    case = draw(s_file())
    style = draw(st.sampled_from(sorted(set(l2.CSRLIKE) | set(l2.GFZLIKE)
        if draw(st.integers(0, 3)) == 0 else set(l2.CSRLIKE))))
    a = datetime.date(2009, 11, 20) + datetime.timedelta(draw(st.integers(0, 60)))
    b = a + datetime.timedelta(draw(st.integers(0, 40)))
    span = draw(st.sampled_from([case['span'], [a.isoformat(), b.isoformat()],
        [a.isoformat(), b.isoformat()]]))
    return dict(case, style=style, dset='GSM', pole=True, lmax=draw(st.integers(2, 6)),
        mmax=draw(st.sampled_from([None, 1, 2])), span=span)


def pole_tide(style, t):
    """pole tide corrections of degree 2 and order 1 (Wahr et al., 2015)"""
    dt = t - 2000.0
    if style in l2.CSRLIKE:
        if t < 2010.0:
            x = 55.974 + 1.8243*dt + 0.18413*dt**2 + 0.007024*dt**3
            y = 346.346 + 1.7896*dt - 0.10729*dt**2 - 0.000908*dt**3
        else:
            x, y = 23.513 + 7.6141*dt, 358.891 - 0.6287*dt
        m1, m2 = x*1e-3, -y*1e-3
    elif style in l2.GFZLIKE:
        m1 = m2 = 0.0
    else:
        return 0.0, 0.0
    m1 -= 0.62e-3*dt
    m2 += 3.48e-3*dt
    return -1.551e-9*m1 - 0.012e-9*m2, 0.021e-9*m1 - 1.505e-9*m2


def expected(case, terms, drift, lmax, mmax, t):
    out = {k: np.zeros((lmax + 1, mmax + 1)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    out['clm'][0, 0] = 1.0
    for (l, m), v in terms.items():
        if l <= lmax and m <= mmax:
            for k, x in zip(('clm', 'slm', 'eclm', 'eslm'), v):
                out[k][l, m] = x
    for (l, m), v in drift.items():
        if l <= lmax and m <= mmax and case['style'].endswith('4') and case['dset'] == 'GSM':
            out['clm'][l, m] += (t - 2003.3)*v[0]
            out['slm'][l, m] += (t - 2003.3)*v[1]
    if case['pole'] and case['dset'] == 'GSM' and lmax >= 2 and mmax >= 1:
        c, s = pole_tide('X' if case['style'] in ('DDK', 'COSTG', 'CNES') else case['style'], t)
        out['clm'][2, 1] -= c
        out['slm'][2, 1] -= s
    return out


def generate(case, root):
    a, b = [datetime.date.fromisoformat(v) for v in case['span']]
    style = case['style']
    comp = case['comp'] and style not in ('COSTG', 'DDK')
    f = root/l2.filename(style, case['dset'], a, b, mis=case['mis'], comp=comp)
    terms = l2.terms(case['seed'], case['nmax'], case['mfile'], keep=case['keep'],
        scale=case['scale'], shuffle=case['shuffle'])
    r = gen.rng(case['seed'], 7)
    drift = {}
    if case['drift'] and style.endswith('4'):
        for l, m in [(2, 0), (3, 0), (4, 0), (2, 1)]:
            v = r.standard_normal(2)*1e-11
            drift[l, m] = tuple(float(l2.number(x)) for x in v)
    # files without any header text are read too
    head = True if l2.STYLES[style][2] else case['head']
    l2.write(f, l2.content(style, terms, r, exp=case['exp'], drift=drift, head=head), comp)
    return f, a, b, terms, drift, head


def b_file(case, ctx):
    f, a, b, terms, drift, head = generate(case, ctx.tmp)
    style = case['style']
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else min(case['mmax'], lmax)
    kw = {} if case['mmax'] is None else dict(MMAX=mmax)
    if case['pole'] or case['seed'] % 2:
        kw['POLE_TIDE'] = case['pole']
    arg = {'path': f, 'str': str(f)}.get(case['how'])
    if arg is None:
        arg = io.BytesIO(f.read_bytes())
        arg.filename = f.name
    sha = hashlib.sha256(f.read_bytes()).digest()
    g = gravtk.read_GRACE_harmonics(arg, lmax, **kw)
    what = f"{style} {case['dset']}"
    t = l2.mid_year(a, b)
    close(float(g['time']), t, f'{what}: date', rtol=1e-14)
    for k, d in (('start', a), ('end', b)):
        close(float(g[k]), oracle.days_from_civil(d.year, d.month, d.day) + JD0,
            f'{what}: {k} date', rtol=0, atol=1e-6)
    same(np.asarray(g['l']), np.arange(lmax + 1), f'{what}: degrees')
    same(np.asarray(g['m']), np.arange(mmax + 1), f'{what}: orders')
    want = expected(case, terms, drift, lmax, mmax, t)
    for k, w in want.items():
        close(g[k], w, f'{what}: {k}', rtol=4e-16*8, atol=1e-24)
    if style in ('COSTG', 'DDK'):
        if head:
            same({k: v.strip() for k, v in g['header'].items()}, dict(modelname='MODEL-X1',
                earth_gravity_constant='3.986004415E+14', radius='6378136.3',
                max_degree='60', errors='formal', norm='fully_normalized',
                tide_system='zero_tide'), f'{what}: header')
    elif l2.STYLES[style][2]:
        same(g['header']['dimensions'], dict(degree='60', order='60'), f'{what}: header')
        same(float(g['header']['non-standard_attributes']['earth_gravity_param']['value']),
            3.986004415e14, f'{what}: header constant')
    else:
        same(g['header'], ['FIRST GRACE text', 'EARTH 0.3986004415E+15 0.6378136300E+07',
            'SHM   60   60 1.00'] if head else [], f'{what}: header')
    require(hashlib.sha256(f.read_bytes()).digest() == sha, f'{what}: file changed')
    # a smaller truncation is a part of a larger one
    if lmax > 2:
        h = gravtk.read_GRACE_harmonics(f, 2, MMAX=min(1, mmax), POLE_TIDE=case['pole'])
        for k in want:
            same(h[k], g[k][:3, :min(1, mmax) + 1], f'{what}: truncated {k}')
    require(raises(lambda: gravtk.read_GRACE_harmonics(str(f).replace('-2_', '-2_9'),
        lmax)), f'{what}: reading a missing file is not an error')
    ctx.nontrivial(len(terms) > 3 and lmax > 1)
    ctx.label(style, case['dset'], 'pole' if case['pole'] else 'raw')


def b_object(case, ctx):
    """harmonics objects from Level-2 files"""
    f, a, b, terms, drift, head = generate(case, ctx.tmp)
    lmax = case['lmax']
    mmax = lmax if case['mmax'] is None else min(case['mmax'], lmax)
    h = gravtk.harmonics(lmax=lmax, mmax=None if case['mmax'] is None else mmax)
    kw = dict(POLE_TIDE=True) if case['pole'] else {}
    if case['how'] == 'str':
        g = h.from_file(f, format='SHM', **kw)
    else:
        g = h.from_SHM(f, **kw)
    t = l2.mid_year(a, b)
    want = expected(case, terms, drift, lmax, mmax, t)
    what = f"SHM {case['style']}"
    for k in ('clm', 'slm'):
        close(getattr(g, k), want[k], f'{what}: {k}', rtol=3e-15, atol=1e-24)
    same(int(g.lmax), lmax, f'{what}: lmax')
    same(int(g.mmax), mmax, f'{what}: mmax')
    same(g.l, np.arange(lmax + 1), f'{what}: degrees')
    same(g.m, np.arange(mmax + 1), f'{what}: orders')
    close(float(g.time), t, f'{what}: time', rtol=1e-14)
    same(int(g.month), int(np.floor(12*(t - 2002))) + 1, f'{what}: month')
    same(str(g.filename), str(f), f'{what}: file')
    # usable as any other object
    z = g.copy().truncate(max(lmax - 1, 0), mmax=min(mmax, max(lmax - 1, 0)))
    close(z.clm, want['clm'][:z.lmax + 1, :z.mmax + 1], f'{what}: truncated', rtol=3e-15,
        atol=1e-24)
    ctx.nontrivial(lmax > 1 and len(terms) > 2)
    ctx.label('truncated' if mmax < lmax else 'full')


# ------------------------------------------------------------- ICGEM files
TIDES = dict(tide_free=1.0, zero_tide=2.0, mean_tide=3.0)


class StandIn:
    """reads the coefficients of gfc files"""
    calls = []

    @classmethod
    def read_ICGEM_harmonics(cls, model_file, LMAX=None, TIDE=None, FLAG='gfc', ZIP=False,
            **kwargs):
        cls.calls.append(dict(file=str(model_file), TIDE=TIDE, FLAG=FLAG, ZIP=ZIP))
        out, rows = dict(tide_system='unknown'), []
        for line in open(model_file):
            w = line.split()
            if w and w[0] == FLAG:
                rows.append([float(x) for x in w[1:]])
            elif len(w) > 1:
                out[w[0]] = w[1]
        n = int(out['max_degree'])
        for k, c in (('clm', 2), ('slm', 3), ('eclm', 4), ('eslm', 5)):
            out[k] = np.zeros((n + 1, n + 1))
            for row in rows:
                out[k][int(row[0]), int(row[1])] = row[c]
        out['l'] = out['m'] = np.arange(n + 1)
        if TIDE and TIDE != out['tide_system']:
            # stands for the conversion between tide systems
            out['clm'][n, 0] += TIDES[TIDE]
            out['tide_system'] = TIDE
        return out


@st.composite
def s_icgem(draw):
    return dict(name=draw(s_gfc()), seed=draw(gen.seeds), n=draw(st.integers(1, 8)),
        tide=draw(st.sampled_from([None, 'tide_free', 'zero_tide', 'mean_tide'])),
        top=draw(st.sampled_from([None, None, 0, 1])))


def b_icgem(case, ctx):
    mods = [sys.modules['gravity_toolkit.read_gfc_harmonics'],
        sys.modules['gravity_toolkit.harmonics']]
    old = [m.geoidtk for m in mods]
    for m in mods:
        m.geoidtk = StandIn
    try:
        icgem(case, ctx)
    finally:
        for m, o in zip(mods, old):
            m.geoidtk = o


def icgem(case, ctx):
    name, proc, dset = gfc_name(case['name'])
    f = ctx.tmp/name
    n = case['n']
    terms = l2.terms(case['seed'], n, n)
    if case.get('top') is not None:
        # high orders of the model are zero
        terms = {k: v if k[1] <= case['top'] else tuple(0.0 for _ in v)
            for k, v in terms.items()}
    text = l2.content('COSTG', terms, gen.rng(0)).replace('max_degree   60', f'max_degree {n}')
    f.write_text(text)
    StandIn.calls.clear()
    g = gravtk.read_gfc_harmonics(f, TIDE=case['tide'])
    same(StandIn.calls, [dict(file=str(f), TIDE=case['tide'], FLAG='gfc',
        ZIP=name.endswith('.ZIP'))], f'{name}: options of the gfc parser')
    s, e = gfc_dates(case['name'])

    def day(d):
        sec = 3600*d[3] + 60*d[4] + d[5]
        return oracle.days_from_civil(*d[:3]) + sec/86400.0
    close(float(g['start']), day(s) + JD0, f'{name}: start', rtol=0, atol=2e-9)
    close(float(g['end']), day(e) + JD0, f'{name}: end', rtol=0, atol=2e-9)
    y0 = oracle.days_from_civil(s[0], 1, 1)
    dpy = 366 if oracle.is_leap(s[0]) else 365
    # 1-based day of the first year, years of the end date counted with its length
    doy_e = day(e) - oracle.days_from_civil(e[0], 1, 1) + 1
    if e[0] != s[0] and e[1] > 2 and oracle.is_leap(e[0]) != oracle.is_leap(s[0]):
        return
    t = s[0] + ((day(s) - y0 + 1) + doy_e + (e[0] - s[0])*dpy)/2/dpy
    close(float(g['time']), t, f'{name}: date', rtol=1e-14)
    shift = TIDES[case['tide']] if case['tide'] not in (None, 'zero_tide') else 0.0
    for k, i in (('clm', 0), ('slm', 1), ('eclm', 2), ('eslm', 3)):
        for (l, m), v in terms.items():
            same(float(g[k][l, m]), v[i] + shift*(k == 'clm' and (l, m) == (n, 0)),
                f'{name}: {k} {l},{m}')
    if case['seed'] % 2:
        # lines with another keyword
        other = ctx.tmp/'flag'/name
        other.parent.mkdir()
        other.write_text(text.replace('gfc ', 'gfct'))
        q = gravtk.read_gfc_harmonics(other, TIDE=case['tide'], FLAG='gfct')
        for k in ('clm', 'slm', 'eclm', 'eslm'):
            same(q[k], g[k], f'{name}: {k} of lines with another keyword')
    # harmonics objects of the same file
    dated = gravtk.harmonics().from_gfc(f, date=True, tide=case['tide'])
    plain = gravtk.harmonics().from_file(f, format='gfc')
    moved = gravtk.harmonics().from_gfc(f, tide=case['tide'])
    for h in (dated, plain, moved):
        tide = 'zero_tide' if h is plain else case['tide'] or 'zero_tide'
        C = g['clm'].copy()
        if h is plain:
            C[n, 0] -= shift
            close(h.clm, C, 'clm of the object', rtol=0, atol=1e-15)
        else:
            same(h.clm, C, 'clm of the object')
        same(h.slm, g['slm'], 'slm of the object')
        same(int(h.lmax), n, 'lmax of the object')
        same(int(h.mmax), n, 'mmax of the object')
        same([h.GM, h.R, h.tide], [3.986004415e14, 6378136.3, tide], 'constants')
    close(float(dated.time), t, 'time of the object', rtol=1e-14)
    same(int(dated.month), int(np.floor(12*(t - 2002))) + 1, 'month of the object')
    require(plain.time is None and moved.time is None, 'undated object has a date')
    ctx.nontrivial(True)
    ctx.label(case['name']['kind'])


CHECKS = [
    Check('level2', s_file, b_file, quick=900, thorough=14000,
        rule='more than three terms and a degree above one'),
    Check('pole', s_pole, b_file, quick=200, thorough=2400,
        rule='more than three terms and a degree above one'),
    Check('objects', s_file, b_object, quick=400, thorough=6000,
        rule='more than two terms and a degree above one'),
    Check('icgem', s_icgem, b_icgem, quick=300, thorough=4500, rule='every case'),
]

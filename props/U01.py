"""Unit conversion factors"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, oracle
from pbt.core import Check, close, require, raises, same

ASSUMPTIONS = ['Earth parameters: WGS84 constants as documented']
NAMES = ['norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU',
    'microGal', 'mbar', 'Pa']
SNAMES = ['norm', 'cmwe', 'mmwe', 'mmGH', 'microGal']


@st.composite
def s_factors(draw):
    return dict(lmax=draw(st.one_of(st.integers(0, 8), st.integers(0, 200))),
        extra=draw(st.sampled_from([0, 0, 1, 20])), seed=draw(gen.seeds),
        elastic=draw(st.sampled_from([None, True, False])),
        ellip=draw(st.sampled_from([None, True, False])),
        earth=draw(st.sampled_from([None, None, 'grs', 'sphere'])),
        fmt=draw(st.sampled_from(['tuple', 'class'])),
        history=draw(st.lists(st.sampled_from(['h', 's', 'hn']), max_size=2)))


def b_factors(case, ctx):
    lmax = case['lmax']
    love = gen.love(case['seed'], lmax + case['extra'])
    given = love
    if case['fmt'] == 'class':
        given = gravtk.love_numbers()
        given.fromtuple(love) if hasattr(given, 'fromtuple') else None
        given = gravtk.love_numbers().from_dict(dict(zip(('hl', 'kl', 'll'), love))) \
            if hasattr(gravtk.love_numbers(), 'from_dict') else love
        if isinstance(given, tuple):
            given = love
    kw, ekw = {}, {}
    if case['elastic'] is not None:
        kw['include_elastic'] = case['elastic']
    ukw = {}
    if case['earth'] == 'grs':
        ukw = dict(a_axis=6.378136e8, flat=1/298.25)
    elif case['earth'] == 'sphere':
        ukw = dict(a_axis=6.371e8, flat=0.0)
    earth = oracle.Earth(**ukw)
    el = case['elastic'] is not False
    copies = [np.copy(v) for v in love]
    u = gravtk.units(lmax=lmax, **ukw)
    # factors never depend on what the object computed before
    other = gen.love(case['seed'] + 1, lmax + case['extra'])
    for h in case['history']:
        if h == 'h':
            u.harmonic(*other)
        elif h == 's':
            u.spatial(*other)
        else:
            u.harmonic(*other, include_elastic=False, include_ellipsoidal=True)
    hk = dict(kw)
    if case['ellip'] is not None:
        hk['include_ellipsoidal'] = case['ellip']
    h = u.harmonic(*given, **hk)
    want = oracle.harmonic_factors(lmax, love, elastic=el,
        ellipsoidal=bool(case['ellip']), earth=earth)
    for name in NAMES:
        for how, got in (('attribute', getattr(h, name)), ('name', h.get(name)),
                ('index', h[name])):
            close(got, want[name], f'harmonic {name} by {how}', rtol=1e-11,
                atol=0)
    for code, name in enumerate(oracle.CODES):
        same(gravtk.units.bycode(code), name, f'unit code {code}')
        close(h.get(gravtk.units.bycode(code)), want[name], f'code {code}',
            rtol=1e-11)
    # relations between units
    g = h.g_wmo
    close(h.mmwe, 10*h.cmwe, 'mm and cm water', rtol=1e-12)
    close(h.Pa, 100*h.mbar, 'Pa and mbar', rtol=1e-12)
    close(h.mbar*1e3, g*h.cmwe, 'pressure of a water column', rtol=1e-12)
    close(h.cmVCU, 100*h.mVCU, 'cm and m uplift', rtol=1e-12)
    s = gravtk.units(lmax=lmax, **ukw)
    for hh in case['history']:
        (s.spatial if hh == 's' else s.harmonic)(*other)
    s = s.spatial(*given, **kw)
    swant = oracle.spatial_factors(lmax, love, elastic=el, earth=earth)
    for name in SNAMES:
        for how, got in (('attribute', getattr(s, name)), ('name', s.get(name)),
                ('index', s[name])):
            close(got, swant[name], f'spatial {name} by {how}', rtol=1e-11)
    h1 = gravtk.units(lmax=lmax, **ukw).harmonic(*given, **kw)
    for name in SNAMES[1:]:
        close(h1.get(name)*s.get(name), np.full(lmax + 1, 1/(4*np.pi)),
            f'{name} conversions are inverse', rtol=1e-11)
    for a, b in zip(love, copies):
        same(a, b, 'Love numbers unchanged')
    # Earth parameters
    close(u.rad_e, earth.R, 'mean radius', rtol=1e-12)
    close(u.rho_e, earth.rho, 'density', rtol=1e-11)
    close(u.b_axis, earth.b, 'semi-minor axis', rtol=1e-12)
    close(u.mass, earth.GM/earth.G, 'mass', rtol=1e-11)
    # locality: entries up to a smaller degree do not change
    k = max(0, lmax - 3)
    hs = gravtk.units(lmax=k, **ukw).harmonic(*given, **hk)
    for name in NAMES:
        close(hs.get(name), h.get(name)[:k + 1], f'locality of {name}', rtol=1e-12)
    ctx.nontrivial(lmax >= 1)
    ctx.label(f"elastic={case['elastic']}", f"ellip={case['ellip']}")


@st.composite
def s_names(draw):
    return dict(name=draw(st.one_of(st.sampled_from(NAMES),
        st.text(alphabet='abcmwePGHUV_', min_size=1, max_size=6))),
        code=draw(st.integers(0, 30)))


ATTR = dict(norm=('1', 'Fully-Normalized'), mmwe=('mm', 'Equivalent_Water_Thickness'),
    cmwe=('cm', 'Equivalent_Water_Thickness'), mmGH=('mm', 'Geoid_Height'),
    mmCU=('mm', 'Elastic_Crustal_Uplift'),
    mmCH=('mm', 'Horizontal_Elastic_Crustal_Deformation'),
    microGal=('\u03bcGal', 'Gravitational_Undulation'),
    mbar=('mbar', 'Equivalent_Surface_Pressure'),
    cmVCU=('cm', 'Viscoelastic_Crustal_Uplift'),
    mVCU=('meters', 'Viscoelastic_Crustal_Uplift'))


def b_names(case, ctx):
    name, code = case['name'], case['code']
    u = gravtk.units(lmax=4).harmonic(*gen.love(1, 4))
    if name in ATTR:
        same(list(gravtk.units.get_attributes(name)), list(ATTR[name]),
            f'attributes of {name}')
    elif name not in NAMES:
        require(raises(lambda: gravtk.units.get_attributes(name), ValueError),
            f'unknown unit {name!r} accepted for attributes')
        if not hasattr(type(u), name) and name not in vars(u):
            require(raises(lambda: u.get(name), ValueError),
                f'unknown unit {name!r} accepted')
    if code < 7:
        same(gravtk.units.bycode(code), oracle.CODES[code], f'code {code}')
    else:
        require(raises(lambda: gravtk.units.bycode(code), ValueError),
            f'unknown code {code} accepted')
    ctx.nontrivial(name in NAMES or code >= 7)


CHECKS = [
    Check('factors', s_factors, b_factors, quick=400, thorough=6000,
        rule='more than one degree'),
    Check('names', s_names, b_names, quick=150, thorough=1000,
        rule='a known unit name or an unknown code'),
]

"""Colour tables"""
import colorsys
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, raises, require

ASSUMPTIONS = ['colour tables have four numbers per colour (position and three components)',
    'colours are compared at the positions of a 256 or larger colour lookup table']


@st.composite
def s_cpt(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(1, 12)),
        model=draw(st.sampled_from(['RGB', 'HSV', None, '+HSV', 'rgb', 'hsv'])),
        flags=draw(st.sampled_from(['', 'BFN', 'B', 'F', 'N', 'NFB', 'BN'])),
        extremes=draw(st.sampled_from([None, True, False])),
        where=draw(st.sampled_from(['end', 'start'])), sep=draw(st.sampled_from(['\t', ' ', '   '])),
        fmt=draw(st.sampled_from(['plain', 'float', 'exp'])),
        blank=draw(st.booleans()), comments=draw(st.booleans()),
        name=draw(st.sampled_from(['t.cpt', 'T.CPT', 'GMT_x.cpt', 'a.b.cpt'])),
        lut=draw(st.sampled_from([None, 512])), string=draw(st.booleans()))


def number(v, fmt):
    return {'plain': f'{v:.10g}', 'float': f'{v:.6f}', 'exp': f'{v:+.9E}'}[fmt]


def b_cpt(case, ctx):
    r = gen.rng(case['seed'])
    hsv = case['model'] is not None and 'HSV' in case['model'].upper()
    n = case['n']
    x = np.round(np.cumsum(r.uniform(0.5, 5, n + 1)) - 20, 6)

    def colour():
        if hsv:
            c = np.array([r.uniform(0, 360), r.random(), r.random()])
        else:
            c = r.integers(0, 256, 3).astype(float)
        return np.round(c, 6)
    c = np.array([colour() for _ in range(n + 1)])
    def rgb(v):
        return colorsys.hsv_to_rgb(v[0]/360, v[1], v[2]) if hsv else tuple(v/255)
    f = case['fmt']
    row = lambda *v: case['sep'].join(number(k, f) for k in v)
    lines = []
    if case['comments']:
        lines.append('# colour table of 12 values 1 2 3')
    if case['model']:
        lines.append('# COLOR_MODEL = ' + case['model'])
    special = {k: colour() for k in case['flags']}
    fl = [k + case['sep'] + row(*v) for k, v in special.items()]
    if case['where'] == 'start':
        lines += fl
    for i in range(n):
        lines.append(row(x[i], *c[i], x[i + 1], *c[i + 1]))
        if case['comments'] and i == 0:
            lines.append('# next')
    if case['where'] == 'end':
        lines += fl
    if case['blank']:
        lines.append('')
    path = ctx.tmp/case['name']
    path.write_text('\n'.join(lines) + '\n', encoding='utf8')
    kw = {} if case['extremes'] is None else dict(use_extremes=case['extremes'])
    if case['lut']:
        kw['N'] = case['lut']
    cmap = gravtk.tools.from_cpt(str(path) if case['string'] else path, **kw)
    require(cmap.name == case['name'][:-4], 'name of the colour map')
    N = case['lut'] or 256
    require(cmap.N == N, 'number of colours')
    t = np.arange(N)/(N - 1.0)
    xn = (x - x[0])/(x[-1] - x[0])
    nodes = np.array([rgb(v) for v in c])
    want = np.array([np.interp(t, xn, nodes[:, k]) for k in range(3)]).T
    got = cmap(np.arange(N))
    close(got[:, :3], want, 'colours', rtol=0, atol=1e-6)
    close(got[:, 3], np.ones(N), 'opacity', rtol=0, atol=1e-12)
    registered(case['name'][:-4], cmap)
    on = case['extremes'] is not False
    under = special.get('B') if on else None
    over = special.get('F') if on else None
    bad = special.get('N') if on else None
    close(cmap(-0.5)[:3], want[0] if under is None else rgb(under), 'below', rtol=0, atol=1e-6)
    close(cmap(1.5)[:3], want[-1] if over is None else rgb(over), 'above', rtol=0, atol=1e-6)
    b = cmap(np.ma.array([0.5], mask=[True]))[0]
    if bad is None:
        close(b, np.zeros(4), 'invalid', rtol=0, atol=1e-12)
    else:
        close(b[:3], rgb(bad), 'invalid', rtol=0, atol=1e-6)
    ctx.nontrivial(n > 1)
    ctx.label('HSV' if hsv else 'RGB')


def registered(name, cmap):
    """the map is available under its name (and removed again)"""
    import matplotlib
    require(name in matplotlib.colormaps, 'the colour map is not registered')
    close(matplotlib.colormaps[name](np.arange(cmap.N)), cmap(np.arange(cmap.N)), 'registered map', rtol=0, atol=0)
    matplotlib.colormaps.unregister(name)


@st.composite
def s_custom(draw):
    name = draw(st.sampled_from(['Joughin', 'Rignot', 'Seroussi', 'joughin', 'RIGNOT', 'other']))
    return dict(n=draw(st.integers(8, 300)), name=name, lut=draw(st.sampled_from([None, 400])))


def b_custom(case, ctx):
    n, name = case['n'], case['name'].lower()
    kw = {}
    if name == 'other':
        require(raises(lambda: gravtk.tools.custom_colormap(n, 'other'), ValueError), 'unknown map')
        return
    cmap = gravtk.tools.custom_colormap(n, case['name'])
    h = np.linspace(0.1 if name == 'joughin' else 0.0, 1, n)
    if name == 'joughin':
        nodes = np.array([colorsys.hsv_to_rgb(v, 1, 1) for v in h])
    elif name == 'rignot':
        nodes = np.array([colorsys.hsv_to_rgb(v, min(0.1 + v, 1), 1) for v in h])
    else:
        # reversed hues without the last, limited to seventy percent
        keep = h[::-1][1:int(np.floor(0.7*n))]
        nodes = np.array([colorsys.hsv_to_rgb(v, min(0.1 + v, 1), 1) for v in keep])
    t = np.linspace(0, 1, len(nodes))
    q = np.arange(256)/255.0
    want = np.array([np.interp(q, t, nodes[:, k]) for k in range(3)]).T
    close(cmap(np.arange(256))[:, :3], want, f'colours of {name}', rtol=0, atol=1e-9)
    require(cmap.name.lower() == name, 'name of the colour map')
    registered(cmap.name, cmap)
    ctx.nontrivial(n > 20)
    ctx.label(name)


CHECKS = [
    Check('cpt', s_cpt, b_cpt, 400, rule='more than one colour interval'),
    Check('custom', s_custom, b_custom, 100, rule='more than twenty slices'),
]

"""Reading, interpolation and reference frames of load Love numbers"""
import io
import pathlib
import re
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['tables list their degrees in increasing order with at least two '
    'entries; degree one is present',
    'linear interpolation between and linear extrapolation beyond table entries '
    '(as documented)']
NAMES = ('hl', 'kl', 'll')
FRAMES = ['CE', 'CM', 'CF', 'CL', 'CH']


def fmt_value(v, style):
    v = float(v)
    s = {'fixed': f'{v:.12f}', 'E': f'{v:.10E}', 'D': f'{v:.10E}'.replace('E', 'D'),
        'plain': repr(v)}[style]
    return s.replace('e', 'E')


def alpha(frame, h, l):
    return {'CE': 0.0, 'CM': 1.0, 'CF': (h + 2.0*l)/3.0, 'CL': l, 'CH': h}[frame]


def model(table, lmax):
    """table: dict degree -> (h, k, l)"""
    deg = np.array(sorted(table))
    out = {}
    for i, n in enumerate(NAMES):
        v = np.array([table[d][i] for d in deg])
        use = deg <= lmax
        full = np.interp(np.arange(lmax + 1), deg[use], v[use])
        last = deg[-1]
        for l in range(last + 1, lmax + 1):
            full[l] = 2*full[l - 1] - full[l - 2]
        out[n] = full
    return out


@st.composite
def s_table(draw):
    first = draw(st.sampled_from([0, 0, 0, 1]))
    degs = [0, 1] if first == 0 else [1]
    n = draw(st.integers(1, 25))
    gaps = draw(st.booleans())
    while len(degs) < n + 2:
        degs.append(degs[-1] + (draw(st.integers(1, 5)) if gaps else 1))
    cols = ['l'] + draw(st.one_of(st.just(['hl', 'kl', 'll']), st.permutations(list(NAMES))))
    extra = draw(st.integers(0, 2))
    cols = cols + ['nl', 'nk'][:extra]
    last = degs[-1]
    inf = draw(st.integers(0, 7)) == 0
    lmax = draw(st.one_of(st.none(), st.integers(2, last), st.just(last),
        st.integers(last, last + 20), st.just(last + 1), st.just(last - 1)))
    if lmax is not None:
        lmax = max(lmax, 2)
        if inf:
            lmax = min(lmax, last)
    return dict(inf=inf, degs=degs, cols=cols, seed=draw(gen.seeds), lmax=lmax,
        header=draw(st.sampled_from([0, 1, 2, 2, 3, 4])),
        style=draw(st.sampled_from(['fixed', 'E', 'D', 'plain'])),
        frame=draw(st.sampled_from(FRAMES)), lower=draw(st.booleans()),
        fmt=draw(st.sampled_from(['dict', 'tuple', 'zip', 'class'])),
        source=draw(st.sampled_from(['str', 'path', 'bytes'])),
        sep=draw(st.sampled_from(['  ', '\t', '    '])))


def unpack(out, fmt):
    if fmt == 'dict':
        return {n: np.array(out[n]) for n in NAMES}
    if fmt == 'tuple':
        require(len(out) == 3, 'tuple of three arrays')
        return {n: np.array(v) for n, v in zip(NAMES, out)}
    if fmt == 'zip':
        rows = list(out)
        return {n: np.array(v) for n, v in zip(NAMES, zip(*rows))}
    hl, kl, ll = out
    got = {'hl': np.array(hl), 'kl': np.array(kl), 'll': np.array(ll)}
    for n in NAMES:
        same(getattr(out, n), got[n], f'class attribute {n}')
        same(out[n], got[n], f'class item {n}')
    t = out.to_tuple()
    d = out.to_dict()
    for i, n in enumerate(NAMES):
        same(t[i], got[n], 'to_tuple')
        same(d[n], got[n], 'to_dict')
    same(out.l, np.arange(len(hl)), 'class degrees')
    same(out.lmax, len(hl) - 1, 'class maximum degree')
    same(len(out), len(hl), 'class length')
    return got


def b_table(case, ctx):
    r = gen.rng(case['seed'])
    degs = case['degs'] + ([100000] if case['inf'] else [])
    table, rows = {}, []
    for d in degs:
        v = dict(zip(NAMES, r.standard_normal(3)*10.0**r.integers(-3, 2)))
        if d == 0:
            v['kl'] = 0.0
        toks = {n: fmt_value(v[n], case['style']) for n in NAMES}
        table[d] = tuple(float(toks[n].replace('D', 'E')) for n in NAMES)
        extra = {'l': 'inf' if d == 100000 else str(d), 'nl': '1.5E-01', 'nk': '-2.5', **toks}
        rows.append(case['sep'].join([''] + [extra[c] for c in case['cols']]))
    head = ['# header 7 8.0 9', 'l h k', '*****', '#'][:case['header']]
    text = '\n'.join(head + rows) + '\n'
    path = ctx.tmp/'love.txt'
    path.write_text(text, encoding='utf8')
    src = {'str': str(path), 'path': path,
        'bytes': io.BytesIO(text.encode('utf8'))}[case['source']]
    frame = case['frame'].lower() if case['lower'] else case['frame']
    kw = dict(HEADER=case['header'], COLUMNS=case['cols'], REFERENCE=frame,
        FORMAT=case['fmt'])
    if case['lmax'] is not None:
        kw['LMAX'] = case['lmax']
    # defaults are not given in half of the cases
    if case['seed'] % 2:
        for k, v in dict(HEADER=2, COLUMNS=['l', 'hl', 'kl', 'll'], REFERENCE='CE', FORMAT='tuple').items():
            if kw[k] == v:
                kw.pop(k)
    got = unpack(gravtk.read_love_numbers(src, **kw), case['fmt'])
    lmax = degs[-1] if case['lmax'] is None else case['lmax']
    # values of degrees between entries are only defined when the next entry
    # is inside of the window
    want = model(table, lmax)
    inside = [d for d in degs if d <= lmax]
    defined = np.ones(lmax + 1, dtype=bool)
    if inside[-1] < lmax and degs[-1] > lmax:
        defined[inside[-1] + 1:] = False
    a = alpha(case['frame'], want['hl'][1], want['ll'][1])
    for n in NAMES:
        w = want[n].copy()
        w[1] -= a
        require(got[n].shape == (lmax + 1,), f'{n} shape {got[n].shape}')
        exact = np.array([d for d in inside if d != 1], dtype=int)
        same(got[n][exact], w[exact], f'{n} of tabulated degrees')
        span = np.max(np.abs(w)) + 1.0
        close(got[n][defined], w[defined], f'{n} ({case["frame"]})', rtol=1e-11,
            atol=1e-12*span*max(1, lmax - degs[-1]))
    if case['source'] != 'bytes':
        same(path.read_text(encoding='utf8'), text, 'table unchanged')
    ctx.nontrivial(len(degs) >= 4)
    if case['inf']:
        ctx.label('infinite degree')
    ctx.label('beyond' if lmax > degs[-1] else 'at end' if lmax == degs[-1]
        else 'inside', case['fmt'], case['frame'])


FILES = {0: ('love_numbers', 2, ['l', 'hl', 'kl', 'll'], 'PREM'),
    1: ('Load_Love2_CE.dat', 3, ['l', 'hl', 'll', 'kl'], 'PREM'),
    2: ('PREM-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREM'),
    3: ('PREMhard-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREMhard'),
    4: ('PREMsoft-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREMsoft')}
LAST = {0: 696, 1: 1024, 2: 5000, 3: 5000, 4: 5000}
_cache = {}


def table_of(k):
    if k not in _cache:
        name, head, cols, _ = FILES[k]
        p = pathlib.Path(gravtk.utilities.get_data_path(['data', name]))
        t = {}
        for line in p.read_text(encoding='utf8').splitlines()[head:]:
            v = line.replace('D', 'E').split()
            if not v or not re.match(r'^\d+$', v[0]):
                continue
            d = dict(zip(cols[1:], map(float, v[1:4])))
            t[int(v[0])] = tuple(d[n] for n in NAMES)
        _cache[k] = t
    return _cache[k]


@st.composite
def s_models(draw):
    k = draw(st.integers(0, 4))
    lmax = draw(st.one_of(st.integers(2, 60), st.integers(2, LAST[k] + 100),
        st.sampled_from([LAST[k] - 1, LAST[k], LAST[k] + 1])))
    return dict(k=k, lmax=lmax, frame=draw(st.sampled_from(FRAMES + [None])),
        fmt=draw(st.sampled_from(['dict', 'tuple', 'zip', 'class', None])))


def b_models(case, ctx):
    k, lmax = case['k'], case['lmax']
    kw = {}
    if case['frame']:
        kw['REFERENCE'] = case['frame']
    if case['fmt']:
        kw['FORMAT'] = case['fmt']
    out = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=k, **kw)
    got = unpack(out, case['fmt'] or 'tuple')
    want = model(table_of(k), lmax)
    a = alpha(case['frame'] or 'CF', want['hl'][1], want['ll'][1])
    for n in NAMES:
        w = want[n].copy()
        w[1] -= a
        close(got[n], w, f'{n} of table {k}', rtol=1e-10, atol=1e-11)
        ex = np.array([d for d in table_of(k) if d <= lmax and d != 1])
        same(got[n][ex], w[ex], f'{n} of tabulated degrees, table {k}')
    if case['fmt'] == 'class':
        same(out.reference, case['frame'] or 'CF', 'reference frame attribute')
        same(out.model, FILES[k][3], 'model attribute')
        same(out.filename, FILES[k][0], 'filename attribute')
    # properties of the frames
    if case['frame'] == 'CL':
        close(got['ll'][1], 0.0, 'CL frame', atol=1e-12)
    if case['frame'] == 'CH':
        close(got['hl'][1], 0.0, 'CH frame', atol=1e-12)
    if case['frame'] in ('CF', None):
        close(got['hl'][1] + 2*got['ll'][1], 0.0, 'CF frame', atol=1e-12)
    if case['frame'] == 'CM':
        close(got['kl'][1], -1.0, 'CM frame', atol=1e-12)
    ctx.nontrivial()
    ctx.label(f'table {k}', str(case['frame']))


@st.composite
def s_transform(draw):
    return dict(k=draw(st.integers(0, 4)), lmax=draw(st.integers(2, 100)),
        frame=draw(st.sampled_from(FRAMES)), lower=draw(st.booleans()),
        bad=draw(st.sampled_from(['XX', 'CC', 'C'])))


def b_transform(case, ctx):
    ce = gravtk.load_love_numbers(case['lmax'], LOVE_NUMBERS=case['k'],
        REFERENCE='CE', FORMAT='class')
    keep = [np.array(v) for v in ce]
    frame = case['frame'].lower() if case['lower'] else case['frame']
    out = ce.transform(frame)
    want = gravtk.load_love_numbers(case['lmax'], LOVE_NUMBERS=case['k'],
        REFERENCE=case['frame'])
    for g, w, n in zip(out, want, NAMES):
        close(g, w, f'{n} transformed to {frame}', rtol=1e-12, atol=1e-14)
    for g, w, n in zip(out, keep, NAMES):
        o = np.arange(case['lmax'] + 1) != 1
        same(np.array(g)[o], w[o], f'{n} of other degrees')
    same(out.reference.upper(), case['frame'], 'reference attribute')
    require(raises(lambda: ce.transform(case['bad'])), 'unknown frame accepted')
    require(raises(lambda: gravtk.load_love_numbers(4, LOVE_NUMBERS=case['k'],
        REFERENCE=case['bad'])), 'unknown frame accepted by reader')
    require(raises(lambda: gravtk.load_love_numbers(4, LOVE_NUMBERS=5 + case['k'])),
        'unknown table accepted')
    require(raises(lambda: gravtk.read_love_numbers(ctx.tmp/'none')),
        'missing file accepted')
    ctx.nontrivial(case['frame'] != 'CE')


CHECKS = [
    Check('table', s_table, b_table, quick=400, rule='at least four entries'),
    Check('models', s_models, b_models, quick=250, rule='every case'),
    Check('transform', s_transform, b_transform, quick=80,
        rule='frame other than CE'),
]

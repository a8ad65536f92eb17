"""Independence of copies and freshness of derived views of harmonics"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx
from pbt.core import Check, close, raises, require, same

ASSUMPTIONS = ['metadata outside of the documented attributes of the data class '
    '(for example file headers) are not part of a copy']

MUT = ['add', 'subtract', 'multiply', 'divide', 'convolve', 'truncate', 'mean',
    'inplace', 'assign', 'item', 'zeros', 'expand_dims', 'from_dict', 'months',
    'attr']


def mutate(h, op):
    """change the object through its interface or its arrays"""
    r = gen.rng(op['seed'])
    k = op['op']
    lmax, mmax = int(h.lmax), int(h.mmax)
    n = h.shape[-1] if h.ndim == 3 else None
    if k in ('add', 'subtract', 'multiply', 'divide'):
        o = hx.make(op['seed'], lmax, mmax, n)
        if k == 'divide':
            o.clm[:] = 1.0 + np.abs(o.clm)
            o.slm[:] = 1.0 + np.abs(o.slm)
        getattr(h, k)(o)
    elif k == 'convolve':
        h.convolve(0.5 + r.random(lmax + 1))
    elif k == 'truncate':
        h.truncate(max(1, lmax + int(r.integers(-2, 3))))
    elif k == 'mean':
        if n:
            h.mean(apply=True)
    elif k == 'inplace':
        h.clm *= 2.0
        h.slm[-1, -1] += 1.5
        h.clm[0, 0] -= 3.0
        if isinstance(h.time, np.ndarray) and h.time.ndim:
            h.time += 1.0
            h.month += 12
    elif k == 'assign':
        h.clm = h.clm + 1.0*gen.tri_mask(lmax, mmax).reshape(
            (lmax + 1, mmax + 1) + (1,)*(h.ndim - 2))
        h.slm = -h.slm
    elif k == 'item':
        h['clm'] = 3.0*h['clm']
    elif k == 'zeros':
        h.zeros(nt=n) if n else h.zeros()
    elif k == 'expand_dims':
        h.expand_dims()
    elif k == 'from_dict':
        o = hx.make(op['seed'], lmax, mmax, n)
        h.from_dict(dict(l=o.l, m=o.m, clm=o.clm, slm=o.slm, time=o.time,
            month=o.month))
    elif k == 'months':
        # move the series so that it spans month number zero
        if np.ndim(h.month) == 1 and len(h.month):
            i = int(r.integers(0, len(h.month)))
            h.time = h.time - h.month[i]/12.0
            h.month = h.month - h.month[i]
    elif k == 'attr':
        if h.attributes.get('ROOT') is None:
            h.attributes['ROOT'] = {}
        h.attributes['ROOT']['title'] = 'changed'
        h.attributes['extra'] = 1


def views(h, what):
    """every derived view describes the present coefficients"""
    C, S = np.array(h.clm), np.array(h.slm)
    with np.errstate(all='ignore'):
        amp = np.sqrt(np.sum(C**2 + S**2, axis=1))
    close(h.amplitude, amp, f'{what}: amplitude', rtol=1e-10)
    close(np.real(h.ilm), C, f'{what}: real part of complex coefficients', rtol=1e-14)
    close(np.imag(h.ilm), -S, f'{what}: imaginary part of complex coefficients',
        rtol=1e-14)
    same(tuple(h.shape), C.shape, f'{what}: shape')
    same(h.ndim, C.ndim, f'{what}: ndim')
    require(h.dtype == C.dtype, f'{what}: dtype')
    same(C.shape[0] - 1, int(h.lmax), f'{what}: lmax')
    same(C.shape[1] - 1, int(h.mmax), f'{what}: mmax')
    same(h.l, np.arange(C.shape[0]), f'{what}: degrees')
    same(h.m, np.arange(C.shape[1]), f'{what}: orders')
    same(h['clm'], C, f'{what}: item access')
    text = str(h)
    require(f'max_degree: {C.shape[0] - 1}' in text, f'{what}: text form {text!r}')
    if 0 < C.shape[1] - 1 < C.shape[0] - 1:
        require(f'max_order: {C.shape[1] - 1}' in text, f'{what}: text form {text!r}')
    if h.month is not None and np.any(h.month):
        lo, hi = np.min(h.month), np.max(h.month)
        require(f'start_month: {lo}' in text and f'end_month: {hi}' in text,
            f'{what}: months in text form {text!r}')
        if np.ndim(h.month) == 1:
            same(len(h), len(h.month), f'{what}: number of dates')
            if h.ndim == 3:
                same(len(h), C.shape[-1], f'{what}: number of fields')
    if C.shape[0] > 1:
        g = gravtk.degree_amplitude(h.clm, h.slm)
        close(g, np.squeeze(amp), f'{what}: degree_amplitude', rtol=1e-10)


@st.composite
def s_fresh(draw):
    ops = [dict(op=draw(st.sampled_from(MUT[:-1])), seed=draw(gen.seeds))
        for _ in range(draw(st.integers(1, 6)))]
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(1, 8)), n=draw(hx.nts), ops=ops)


def b_fresh(case, ctx):
    lmax, mmax = case['lm']
    h = hx.make(case['seed'], lmax, mmax, case['n'])
    views(h, 'new object')
    done = []
    for op in case['ops']:
        mutate(h, op)
        done.append(op['op'])
        views(h, f"after {' -> '.join(done)}")
        ctx.label(op['op'])
    ctx.nontrivial(lmax >= 2)


SOURCES = ['copy', 'zeros_like', 'dict', 'index', 'subset', 'iterate', 'scale',
    'power', 'mean', 'drift', 'flatten', 'list', 'truncate_copy', 'destripe']


@st.composite
def s_alias(draw):
    src = draw(st.sampled_from(SOURCES))
    return dict(seed=draw(gen.seeds), lm=draw(hx.shapes(1, 8)),
        n=draw(hx.nts) if src not in ('index', 'subset', 'iterate', 'mean')
            else draw(st.integers(1, 5)), src=src,
        first=draw(st.booleans()), ops=[dict(op=draw(st.sampled_from(MUT)),
            seed=draw(gen.seeds)) for _ in range(draw(st.integers(1, 3)))])


def derive(h, case):
    n = case['n']
    k = case['src']
    if k == 'copy':
        return h.copy()
    if k == 'zeros_like':
        return h.zeros_like()
    if k == 'dict':
        d = h.to_dict()
        d.pop('attributes')
        return gravtk.harmonics().from_dict(d)
    if k == 'index':
        return h.index(case['seed'] % n)
    if k == 'subset':
        return h.subset(h.month[:max(1, n - 1)])
    if k == 'iterate':
        return [t for t in h][-1]
    if k == 'scale':
        return h.scale(1.0)
    if k == 'power':
        return h.power(1)
    if k == 'mean':
        return h.mean()
    if k == 'drift':
        if n:
            return h.copy()
        return h.drift(np.array([2003.5, 2004.5]))
    if k == 'flatten':
        return h.flatten().expand()
    if k == 'list':
        if n:
            return gravtk.harmonics().from_list([h.index(i) for i in range(n)])
        return gravtk.harmonics().from_list([h])
    if k == 'truncate_copy':
        return h.copy().truncate(int(h.lmax))
    if k == 'destripe':
        return h.destripe()


def b_alias(case, ctx):
    lmax, mmax = case['lm']
    h = hx.make(case['seed'], lmax, mmax, case['n'])
    h.attributes['ROOT'] = dict(title='original', list=[1, 2])
    before = hx.snapshot(h)
    if case['src'] == 'destripe' and (lmax < 2 or mmax != lmax):
        return
    c = derive(h, case)
    hx.unchanged(h, before, f"{case['src']}")
    hx.disjoint(c, h, case['src'])
    if case['src'] == 'copy':
        hx.unchanged(c, before, 'copy')
        same(c.attributes['ROOT']['title'], 'original', 'copied attributes')
        require(c.filename == h.filename, 'copied filename')
    c.attributes.setdefault('ROOT', {})
    if c.attributes['ROOT'] is None:
        c.attributes['ROOT'] = {}
    a, b = (h, c) if case['first'] else (c, h)
    snap = hx.snapshot(b)
    title = b.attributes['ROOT'].get('title')
    b.attributes.pop('extra', None)
    for op in case['ops']:
        mutate(a, op)
        hx.unchanged(b, snap, f"{op['op']} on "
            f"{'source' if case['first'] else 'result'} of {case['src']}")
        same(str(b.attributes['ROOT'].get('title')), str(title),
            f"{case['src']}: attributes")
    require('extra' not in b.attributes, f"{case['src']}: attributes")
    ctx.nontrivial()
    ctx.label(case['src'])


CHECKS = [
    Check('fresh_views', s_fresh, b_fresh, quick=700, thorough=8000,
        rule='degree >= 2'),
    Check('independent_copies', s_alias, b_alias, quick=700, thorough=8000,
        rule='every case'),
]

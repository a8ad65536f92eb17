"""Histories of operations on harmonics objects against plain arrays"""
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, hx
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['coefficients of the first operand outside of the degrees and '
    'orders of the second operand are left as they are',
    'series are combined with static fields or with series of the same length']

OPS = ['add', 'subtract', 'multiply', 'divide', 'scale', 'scale_t', 'power',
    'convolve', 'truncate', 'expand_squeeze', 'mean', 'drift', 'flatten',
    'copy', 'zeros_like', 'masked', 'dict']


@st.composite
def s_history(draw):
    lm = draw(hx.shapes(0, 9))
    n = draw(hx.nts)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = dict(op=draw(st.sampled_from(OPS)), seed=draw(gen.seeds))
        if op['op'] in ('add', 'subtract', 'multiply', 'divide'):
            op['dl'] = draw(st.integers(-3, 3))
            op['dm'] = draw(st.integers(-3, 3))
            op['static'] = draw(st.booleans())
        elif op['op'] == 'scale':
            op['v'] = draw(st.sampled_from([0.0, -1.0, 2, 0.5, 1e3, -0.25]))
        elif op['op'] == 'power':
            op['v'] = draw(st.sampled_from([1, 2, 3]))
        elif op['op'] == 'truncate':
            op['dl'] = draw(st.integers(-4, 3))
            op['lmin'] = draw(st.sampled_from([0, 0, 1, 2]))
            op['dm'] = draw(st.one_of(st.none(), st.integers(-4, 3)))
            op['none'] = draw(st.booleans())
        elif op['op'] == 'mean':
            op['apply'] = draw(st.booleans())
            op['take'] = draw(st.booleans())
            op['use'] = draw(st.booleans())
        ops.append(op)
    return dict(seed=draw(gen.seeds), lm=lm, n=n, ops=ops)


def window(arr, l1, m1):
    return arr[:l1, :m1]


def step(h, m, op, ctx):
    """apply one operation to object h and model m; returns new (h, m)"""
    name = op['op']
    before = hx.snapshot(h)
    r = gen.rng(op['seed'])
    n = m.C.shape[-1] if m.nd == 3 else None
    if name in ('add', 'subtract', 'multiply', 'divide'):
        l2 = max(0, m.lmax + op['dl'])
        m2 = min(l2, max(0, m.mmax + op['dm']))
        n2 = None if (op['static'] or n is None) else n
        o = hx.make(op['seed'], l2, m2, n2)
        if name == 'divide':
            tri = gen.tri_mask(l2, m2)
            tri = tri[:, :, None] if n2 else tri
            for a in (o.clm, o.slm):
                a[:] = np.where(tri, np.sign(a)*(0.5 + np.abs(a)), 0.0)
        osnap = hx.snapshot(o)
        out = getattr(h, name)(o)
        require(out is h or not np.shares_memory(out.clm, h.clm),
            f'{name}: returned object')
        hx.unchanged(o, osnap, name)
        l1, m1 = min(m.lmax, l2) + 1, min(m.mmax, m2) + 1
        for key, other in (('C', osnap['clm']), ('S', osnap['slm'])):
            a = getattr(m, key)
            b = other[:, :, None] if (n and not n2) else other
            w = (slice(0, l1), slice(0, m1))
            if name == 'add':
                a[w] = a[w] + b[w]
            elif name == 'subtract':
                a[w] = a[w] - b[w]
            elif name == 'multiply':
                a[w] = a[w]*b[w]
            else:
                tri = gen.tri_mask(l1 - 1, m1 - 1)
                if key == 'S':
                    tri = tri & (np.arange(m1) > 0)
                tri = tri[:, :, None] if n else tri
                with np.errstate(all='ignore'):
                    a[w] = np.where(tri, a[w]/np.where(b[w] == 0, 1.0, b[w]), a[w])
        return out, m
    if name == 'scale':
        out = h.scale(op['v'])
        m2 = hx.Model(m.build())
        m2.C, m2.S = m.C*op['v'], m.S*op['v']
    elif name == 'scale_t':
        k = n or int(r.integers(1, 4))
        v = r.standard_normal(k)
        out = h.scale(v)
        m2 = hx.Model(m.build())
        if n:
            m2.C, m2.S = m.C*v, m.S*v
        else:
            m2.C = m.C[:, :, None]*v
            m2.S = m.S[:, :, None]*v
            # dates for the new series
            month, time = hx.months_times(op['seed'], k)
            out.month, out.time = month.copy(), time.copy()
            m2.month, m2.time = month, time
    elif name == 'power':
        out = h.power(op['v'])
        m2 = hx.Model(m.build())
        m2.C, m2.S = m.C**op['v'], m.S**op['v']
    elif name == 'convolve':
        var = r.standard_normal(m.lmax + 1 + int(r.integers(0, 3)))
        keep = var.copy()
        out = h.convolve(var)
        same(var, keep, 'convolve: weights')
        w = keep[:m.lmax + 1].reshape((-1,) + (1,)*(m.nd - 1))
        m.C, m.S = m.C*w, m.S*w
        return out, m
    elif name == 'truncate':
        l2 = max(0, m.lmax + op['dl'])
        kw = {}
        if op['none']:
            l2 = m.lmax
        m2 = l2
        if op['dm'] is not None:
            m2 = min(l2, max(0, m.mmax + op['dm']))
            kw['mmax'] = m2
        if op['lmin']:
            kw['lmin'] = op['lmin']
        out = h.truncate(None if op['none'] else l2, **kw)
        new = {}
        for key in ('C', 'S'):
            a = getattr(m, key)
            z = np.zeros((l2 + 1, m2 + 1) + a.shape[2:])
            for l in range(op['lmin'], min(l2, m.lmax) + 1):
                k = min(m2, m.mmax) + 1
                z[l, :k] = a[l, :k]
            new[key] = z
        m.C, m.S, m.lmax, m.mmax = new['C'], new['S'], l2, m2
        return out, m
    elif name == 'expand_squeeze':
        out = h.expand_dims()
        if m.nd == 2:
            m.C, m.S = m.C[:, :, None], m.S[:, :, None]
            m.time, m.month = np.atleast_1d(m.time), np.atleast_1d(m.month)
        hx.check(out, m, 'expand_dims')
        if m.C.shape[-1] == 1:
            out = out.squeeze()
            m.C, m.S = m.C[:, :, 0], m.S[:, :, 0]
            m.time, m.month = np.squeeze(m.time), np.squeeze(m.month)
        else:
            out = out.squeeze()
        return out, m
    elif name == 'mean':
        if n is None:
            return h, m
        kw = {}
        idx = np.arange(n)
        if op['take']:
            idx = np.sort(r.choice(n, size=int(r.integers(1, n + 1)), replace=False))
            kw['indices'] = idx if op['use'] else list(map(int, idx))
        mean = h.mean(apply=op['apply'], **kw)
        mm = hx.Model(m.build())
        mm.C, mm.S = m.C[:, :, idx].mean(axis=-1), m.S[:, :, idx].mean(axis=-1)
        mm.time, mm.month = np.mean(m.time[idx]), np.mean(m.month[idx])
        big = float(np.max(np.abs(m.C), initial=0) + np.max(np.abs(m.S), initial=0))
        if op['apply']:
            m.C = m.C - mm.C[:, :, None]
            m.S = m.S - mm.S[:, :, None]
            hx.check(h, m, 'series after removing its mean', scale=big)
        else:
            hx.unchanged(h, before, 'mean')
        hx.check(mean, mm, 'mean', scale=big)
        hx.disjoint(mean, h, 'mean')
        return (mean, mm) if op['use'] else (h, m)
    elif name == 'drift':
        if n is not None:
            return h, m
        k = int(r.integers(1, 5))
        month, t = hx.months_times(op['seed'], k)
        ep = float(r.choice([2003.3, 2000.0, 2010.5]))
        tk = t.copy()
        out = h.drift(t, epoch=ep) if ep != 2003.3 else h.drift(t)
        same(t, tk, 'drift: times')
        m2 = hx.Model(m.build())
        m2.C, m2.S = m.C[:, :, None]*(t - ep), m.S[:, :, None]*(t - ep)
        m2.time, m2.month = t, (month if k > 1 else month.reshape(()))
        if k == 1:
            # the month of a single date may be a scalar
            same(int(np.squeeze(out.month)), int(month[0]), 'drift: month')
            out.month = month.copy()
            m2.month = month
    elif name == 'flatten':
        flat = h.flatten()
        k = 0
        ll, mm_ = [], []
        for q in range(m.mmax + 1):
            for l in range(q, m.lmax + 1):
                ll.append(l)
                mm_.append(q)
        same(np.sort(np.asarray(flat.l)*1000 + flat.m),
            np.sort(np.array(ll)*1000 + np.array(mm_)), 'flatten: degrees and orders')
        close(flat.clm, m.C[flat.l, flat.m], 'flatten: clm', rtol=1e-9, atol=1e-300)
        close(flat.slm, m.S[flat.l, flat.m], 'flatten: slm', rtol=1e-9, atol=1e-300)
        out = flat.expand()
        m2 = hx.Model(m.build())
        tri = gen.tri_mask(m.lmax, m.mmax)
        tri = tri[:, :, None] if n else tri
        m2.C, m2.S = np.where(tri, m.C, 0.0), np.where(tri, m.S, 0.0)
        hx.disjoint(flat, h, 'flatten')
    elif name == 'copy':
        out, m2 = h.copy(), hx.Model(m.build())
    elif name == 'zeros_like':
        z = h.zeros_like()
        same(np.asarray(z.clm), np.zeros_like(m.C), 'zeros_like: clm')
        same(np.asarray(z.slm), np.zeros_like(m.S), 'zeros_like: slm')
        same([int(z.lmax), int(z.mmax)], [m.lmax, m.mmax], 'zeros_like: limits')
        hx.disjoint(z, h, 'zeros_like')
        out, m2 = h.copy(), hx.Model(m.build())
    elif name == 'masked':
        Y = h.to_masked_array()
        same(Y.shape, (m.lmax + 1, 2*m.lmax + 1, n or 1), 'masked array: shape')
        C = m.C if n else m.C[:, :, None]
        S = m.S if n else m.S[:, :, None]
        mask = np.ones(Y.shape, dtype=bool)
        want = np.zeros(Y.shape)
        for l in range(m.lmax + 1):
            for q in range(min(l, m.mmax) + 1):
                if q:
                    want[l, m.lmax - q] = S[l, q]
                    mask[l, m.lmax - q] = False
                want[l, m.lmax + q] = C[l, q]
                mask[l, m.lmax + q] = False
        same(np.ma.getmaskarray(Y), mask, 'masked array: mask')
        close(np.where(mask, 0.0, Y.data), want, 'masked array: values', rtol=1e-9,
            atol=1e-300)
        hx.check(h, m, 'object after to_masked_array')
        return h, m
    elif name == 'dict':
        d = h.to_dict()
        out = gravtk.harmonics().from_dict(d)
        m2 = hx.Model(m.build())
    hx.unchanged(h, before, name)
    require(out is not h, f'{name}: returns a new object')
    hx.disjoint(out, h, name)
    return out, m2


def b_history(case, ctx):
    lmax, mmax = case['lm']
    h = hx.make(case['seed'], lmax, mmax, case['n'])
    m = hx.Model(h)
    big = 1.0
    done = []
    for op in case['ops']:
        if not np.all(np.isfinite(m.C)) or np.max(np.abs(m.C), initial=0) > 1e60:
            break
        big = max(big if op['op'] not in ('truncate',) else big,
            float(np.max(np.abs(m.C), initial=0)), float(np.max(np.abs(m.S), initial=0)))
        h, m = step(h, m, op, ctx)
        done.append(op['op'])
        big = max(big, float(np.max(np.abs(m.C), initial=0)))
        hx.check(h, m, f"after {' -> '.join(done)}", scale=big)
        ctx.label(op['op'])
    ctx.nontrivial(len(done) >= 2 and lmax >= 1)


@st.composite
def s_zeros(draw):
    return dict(lm=draw(hx.shapes(0, 9)), n=draw(hx.nts), mm=draw(st.booleans()),
        pre=draw(st.booleans()))


def b_zeros(case, ctx):
    lmax, mmax = case['lm']
    if not case['mm']:
        mmax = lmax
    h = gravtk.harmonics(lmax=lmax, mmax=mmax if case['mm'] else None) \
        if case['pre'] else gravtk.harmonics()
    kw = {} if case['pre'] else dict(lmax=lmax)
    if case['mm'] and not case['pre']:
        kw['mmax'] = mmax
    if case['n']:
        kw['nt'] = case['n']
    z = h.zeros(**kw)
    shape = (lmax + 1, mmax + 1) + ((case['n'],) if case['n'] else ())
    same(np.asarray(z.clm), np.zeros(shape), 'zeros: clm')
    same(np.asarray(z.slm), np.zeros(shape), 'zeros: slm')
    require(not np.shares_memory(z.clm, z.slm), 'zeros: shared arrays')
    same([int(z.lmax), int(z.mmax)], [lmax, mmax], 'zeros: limits')
    same(z.l, np.arange(lmax + 1), 'zeros: degrees')
    same(z.m, np.arange(mmax + 1), 'zeros: orders')
    if case['n']:
        same(np.shape(z.time), (case['n'],), 'zeros: time')
        same(np.shape(z.month), (case['n'],), 'zeros: month')
    ctx.nontrivial(lmax > 0)


CHECKS = [
    Check('history', s_history, b_history, quick=1200, thorough=20000,
        rule='at least two operations on degree >= 1'),
    Check('zeros', s_zeros, b_zeros, quick=80, thorough=400, rule='degree >= 1'),
]

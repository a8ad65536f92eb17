"""Mascon grids: place and extract values of generated mascon geometries"""
import warnings
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['mascons partition the sphere, narrower than half of a circle of latitude '
    '(except polar caps)', 'a mascon holds the nodes on its lower and western edges',
    'values of GSFC mascons without any node are undefined']


@st.composite
def s_geometry(draw):
    product = draw(st.sampled_from(['gsfc', 'jpl']))
    return dict(seed=draw(gen.seeds), product=product,
        dg=draw(st.sampled_from([1.0, 2.0, 5.0, 0.5, 3.0])),
        bands=draw(st.integers(2, 6)), per=draw(st.integers(3, 9)),
        cap=draw(st.booleans()), pos=draw(st.booleans()), shift=draw(st.booleans()),
        transpose=draw(st.sampled_from([None, None, True, False, 'old'])),
        conv=draw(st.sampled_from(['product', 'other', 'rolled'])),
        flip=draw(st.booleans()), column=draw(st.booleans()),
        kind=draw(st.sampled_from(['grid', 'nodes', 'region'])),
        scale=draw(st.sampled_from([1.0, 1e-6, 1e5])), order=draw(st.booleans()))


def geometry(case):
    """list of mascons (south, north, west, east) with edges between nodes, west in
    0..360 and east possibly beyond"""
    r = gen.rng(case['seed'], 1)
    dg = case['dg']
    nlat, nlon = int(180/dg), int(360/dg)
    cells = []
    edges = np.sort(r.choice(np.arange(1, nlat), min(case['bands'] + 1, nlat - 1),
        replace=False))
    edges = np.concatenate(([0], edges, [nlat]))
    for b, (i0, i1) in enumerate(zip(edges[:-1], edges[1:])):
        polar = b in (0, len(edges) - 2)
        if polar and case['cap']:
            cells.append((-90 + i0*dg, -90 + i1*dg, 0.0, 360.0, True))
            continue
        k = min(case['per'], nlon)
        while True:
            cut = np.sort(r.choice(nlon, k, replace=False))
            if case['product'] == 'jpl' or not case['shift']:
                cut[0] = 0
            w = np.diff(np.concatenate((cut, [cut[0] + nlon])))
            if (w*dg < 180).all() and (w > 0).all():
                break
        for c, v in zip(cut, w):
            cells.append((-90 + i0*dg, -90 + i1*dg, c*dg, (c + v)*dg, False))
    if case['order']:
        r.shuffle(cells)
    return np.array([c[:4] for c in cells], dtype=float), np.array([c[4] for c in cells]) > 0


def arguments(case, cells, polar):
    """geometry in the form of the product"""
    s, n, w, e = cells.T
    if case['product'] == 'gsfc':
        lat_c, lon_c = (s + n)/2, ((w + e)/2) % 360
        lat_s, lon_s = n - s, e - w
        lat_c = np.where(polar, np.where(n == 90, 90.0, -90.0), lat_c)
        both = polar & (n == 90) & (s == -90)
        lon_c = np.where(polar, 180.0, lon_c)
        if not case['pos']:
            lon_c = np.where(lon_c > 180, lon_c - 360, lon_c)
        return [lon_c, lat_c, lon_s, lat_s], both.any()
    lon_b = np.array([w, w, e, e]).T.copy()
    lat_b = np.array([n, s, s, n]).T.copy()
    return [lon_b, lat_b], False


def inside(cells, lat, lon):
    """index of the mascon of every node"""
    LAT, LON = np.meshgrid(lat, np.mod(lon, 360.0), indexing='ij')
    out = np.full(LAT.shape, -1)
    for k, (s, n, w, e) in enumerate(cells):
        x = np.mod(LON - w, 360.0) < e - w
        y = (LAT >= s) & ((LAT < n) | (n == 90))
        out[x & y] = k
    return out


def grid(case):
    dg = case['dg']
    if case['product'] == 'gsfc':
        return (np.arange(180/dg)*-dg + 90 - dg/2, np.arange(360/dg)*dg - 180 + dg/2)
    return (np.arange(180/dg)*dg - 90 + dg/2, np.arange(360/dg)*dg + dg/2)


def place(case, values, args):
    f = gravtk.mascons.from_gsfc if case['product'] == 'gsfc' else gravtk.mascons.from_jpl
    kw = {}
    if case['transpose'] == 'old':
        kw['TRANSPOSE'] = True
    elif case['transpose'] is not None:
        kw['transpose'] = case['transpose']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = f(values, case['dg'], *args, **kw)
    return out.T if case['transpose'] in (True, 'old') else out


def extract(case, data, lon, lat, args):
    f = gravtk.mascons.to_gsfc if case['product'] == 'gsfc' else gravtk.mascons.to_jpl
    if case['column']:
        lon, lat = lon[:, None], lat[:, None]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(data, lon, lat, *args)


def convention(case, lat, lon, data):
    r = gen.rng(case['seed'], 5)
    if case['conv'] == 'other':
        lon = np.where(lon < 0, lon + 360, lon) if case['product'] == 'gsfc' else \
            np.where(lon > 180, lon - 360, lon)
        if case['seed'] % 2:
            i = np.argsort(lon)
            lon, data = lon[i], data[:, i]
    elif case['conv'] == 'rolled':
        k = int(r.integers(0, len(lon)))
        lon, data = np.roll(lon, k), np.roll(data, k, axis=1)
    if case['flip']:
        lat, data = lat[::-1].copy(), data[::-1].copy()
    return lat, lon, data


# --------------------------------------------------------------- round trip
def b_trip(case, ctx):
    cells, polar = geometry(case)
    args, skip = arguments(case, cells, polar)
    if skip:
        return
    r = gen.rng(case['seed'], 2)
    values = r.standard_normal(len(cells))*case['scale']
    saved = [a.copy() for a in args + [values]]
    lat, lon = grid(case)
    out = place(case, values, args)
    require(out.shape == (len(lat), len(lon)), f'grid of shape {out.shape}')
    idx = inside(cells, lat, lon)
    require((idx >= 0).all(), 'generated mascons cover the sphere')
    close(out, values[idx], 'values placed on the grid', rtol=0, atol=0)
    la, lo, data = convention(case, lat, lon, out)
    d0 = data.copy()
    got = extract(case, data, lo, la, args)
    close(got['data'], values, 'values extracted from the grid', rtol=1e-10,
        atol=1e-12*case['scale'])
    same(data, d0, 'grid after extraction')
    for a, b in zip(args + [values], saved):
        same(a, b, 'geometry and values after conversion')
    centres(case, got, cells, polar)
    # a field constant inside each mascon is reproduced
    again = place(case, got['data'], args)
    close(again, out, 'grid of the extracted values', rtol=1e-10, atol=1e-12*case['scale'])
    ctx.nontrivial(len(cells) > 3)
    ctx.label(case['product'], case['conv'])


def centres(case, got, cells, polar):
    s, n, w, e = cells.T
    if case['product'] == 'gsfc':
        la, lo = got['lat_center'], got['lon_center']
        wl = np.where(polar, np.where(n == 90, 90.0, -90.0), (s + n)/2)
        wo = np.where(polar, 180.0, (w + e)/2)
    else:
        la, lo = got['lat'], got['lon']
        touch = (n == 90) | (s == -90)
        wl = np.where(s == -90, -90.0, np.where(n == 90, 90.0, (s + n)/2))
        wo = np.where(touch, 0.0, (w + e)/2)
    close(la, wl, 'latitudes of the centres', rtol=0, atol=1e-9)
    d = np.mod(np.asarray(lo) - wo + 180, 360) - 180
    close(d, np.zeros(len(cells)), 'longitudes of the centres', rtol=0, atol=1e-9)


# --------------------------------------------------------------- averages
def b_mean(case, ctx):
    cells, polar = geometry(case)
    args, skip = arguments(case, cells, polar)
    if skip:
        return
    r = gen.rng(case['seed'], 3)
    lat, lon = grid(case)
    if case['kind'] == 'nodes':
        lat = np.sort(-89.9 + 179.8*r.random(40))
        lon = np.sort(-180 + 360*r.random(60)) if case['product'] == 'gsfc' else \
            np.sort(360*r.random(60))
    elif case['kind'] == 'region':
        lat = lat[:max(2, len(lat)//2)]
        k = int(r.integers(0, max(len(lon)//2, 1)))
        lon = lon[k:k + max(2, len(lon)//2)]
    data = r.standard_normal((len(lat), len(lon)))*case['scale']
    lat, lon, data = convention(case, lat, lon, data)
    got = extract(case, data, lon, lat, args)
    idx = inside(cells, lat, lon)
    W = np.cos(np.radians(lat))[:, None]*np.ones(data.shape)
    for k in range(len(cells)):
        sel = idx == k
        if not sel.any():
            if case['product'] == 'jpl':
                require(bool(got['mask'][k]) and got['data'][k] == 0.0,
                    'a mascon without data is masked')
            continue
        want = np.sum(W[sel]*data[sel])/np.sum(W[sel])
        close(got['data'][k], want, 'weighted average of the mascon', rtol=1e-9,
            atol=1e-10*case['scale'])
        if case['product'] == 'jpl':
            require(not got['mask'][k], 'a mascon with data is not masked')
    ctx.nontrivial((np.unique(idx) >= 0).sum() > 2)
    ctx.label(case['product'], case['kind'])


CHECKS = [
    Check('round_trip', s_geometry, b_trip, quick=300, thorough=4000,
        rule='more than three mascons'),
    Check('averages', s_geometry, b_mean, quick=300, thorough=4000,
        rule='more than two mascons with nodes'),
]

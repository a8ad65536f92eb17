"""Programs that draw maps and movies of spatial fields"""
import contextlib
import functools
import os
import stat
import types
import matplotlib
import matplotlib.animation
import matplotlib.figure
import matplotlib.offsetbox
import matplotlib.pyplot as plt
import numpy as np
import pyproj
import shapefile
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, prog
from pbt.core import Check, close, require, same

ASSUMPTIONS = ['coastlines, drainage basins and image mosaics are small generated files',
    'figures and movie frames are recorded when they are saved instead of being drawn',
    'polar maps are cut to a generated part of their region',
    'spacings of grids with decreasing latitudes are given as negative numbers']
FILL = -9999.0
S, N = ('+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=0 +ellps=WGS84',
    '+proj=stere +lat_0=90 +lat_ts=70 +lon_0=-45 +ellps=WGS84')
# program: number of files, region, limits of the region
AIS = (-31e5, 31e5, -26e5, 26e5)
GRE = (-153e4, 161e4, -36e5, -28e4)
GRE2 = (-8e5, 86e4, -34e5, -655e3)
QML = (-94e4, 24e5, 53e4, 23e5)
REGIONS = dict(ASE=(-19e5, -9e5, -9e5, 2e5), IIpp=(-271e4, -183e4, 76e4, 178e4),
    CpD=(12e5, 265e4, -18e5, 0.0), QML=QML)
PROGRAMS = dict(plot_global_grid_maps=(1, 'global', None),
    plot_global_grid_3maps=(3, 'global', None), plot_global_grid_4maps=(4, 'global', None),
    plot_global_grid_5maps=(5, 'global', None), plot_global_grid_9maps=(9, 'global', None),
    plot_AIS_grid_maps=(1, 'S', AIS), plot_AIS_grid_3maps=(3, 'S', AIS),
    plot_AIS_grid_4maps=(4, 'S', AIS), plot_QML_grid_3maps=(3, 'S', QML),
    plot_AIS_regional_maps=(1, 'S', None),
    plot_GrIS_grid_maps=(1, 'N', GRE), plot_GrIS_grid_3maps=(3, 'N', GRE),
    plot_GrIS_grid_5maps=(5, 'N', GRE2), plot_AIS_GrIS_maps=(2, 'SN', None),
    plot_global_grid_movie=(1, 'global', None), plot_AIS_grid_movie=(1, 'S', AIS),
    plot_AIS_regional_movie=(1, 'S', None), plot_GrIS_grid_movie=(1, 'N', GRE))
RIGNOT = dict(S=['AAp', 'ApB', 'BC', 'CCp', 'CpD', 'DDp', 'DpE', 'EEp', 'EpFp', 'FpG', 'GH',
    'HHp', 'HpI', 'IIpp', 'IppJ', 'JJpp', 'JppK', 'KKp', 'KpA'],
    N=['CE', 'CW', 'NE', 'NO', 'NW', 'SE', 'SW'])
IMBIE = dict(S=['A-Ap', 'Ap-B', 'B-C', 'C-Cp', 'Cp-D', 'D-Dp', 'Dp-E', 'E-Ep', 'Ep-F', 'F-Fp',
    'F-G', 'G-H', 'H-Hp', 'Hp-I', 'I-Ipp', 'Ipp-J', 'J-Jpp', 'Jpp-K', 'K-A'],
    N=['CW', 'NE', 'NO', 'NW', 'SE', 'SW'])


def placed(ax, artist, xy):
    """coordinates of an artist in the projection of the map"""
    xy = np.asarray(xy, dtype=float)
    return np.asarray((artist.get_transform() - ax.transData).transform(xy)) if len(xy) else xy


def snapshot(fig):
    """what the panels of a figure show"""
    out = []
    for ax in fig.axes:
        if not hasattr(ax, 'projection'):
            continue
        box = ax.get_position()
        images, sets = [], []
        for im in ax.images:
            images.append(dict(data=np.ma.array(im.get_array(), copy=True),
                extent=tuple(im.get_extent()), norm=im.norm, cmap=im.cmap, alpha=im.get_alpha(),
                origin=im.origin, bar=im.colorbar))
        for c in ax.collections:
            if hasattr(c, 'levels'):
                sets.append(dict(levels=np.array(c.levels), color=[tuple(np.round(v, 3))
                    for v in c.get_edgecolor()], paths=[placed(ax, c, p.vertices)
                    for p in c.get_paths()]))
        out.append(dict(images=images, contours=sets, title=ax.get_title(),
            place=(-round(box.y1, 2), round(box.x0, 2)), proj=ax.projection,
            xlim=ax.get_xlim(), ylim=ax.get_ylim(),
            lines=[placed(ax, l, l.get_xydata()) for l in ax.lines],
            text=[t.get_text() for t in ax.texts], patches=len(ax.patches),
            labels=[a.txt.get_text() for a in ax.artists
                if isinstance(a, matplotlib.offsetbox.AnchoredText)],
            grid=[(np.array(g.xlocator.locs), np.array(g.ylocator.locs))
                for g in ax.get_children() if type(g).__name__ == 'Gridliner'],
            ticks=(len(ax.get_xticks()), len(ax.get_yticks()))))
    bars = []
    for ax in fig.axes:
        for im in ax.images:
            if im.colorbar is not None:
                b = im.colorbar
                vert = b.orientation == 'vertical'
                tl = b.ax.get_yticklabels() if vert else b.ax.get_xticklabels()
                bars.append(dict(extend=b.extend, ticks=np.array(b.get_ticks()), labels=[t.get_text()
                    for t in tl], title=b.ax.get_title(), xlabel=b.ax.get_xlabel(),
                    ylabel=b.ax.get_ylabel(), vertical=vert, norm=b.norm, cmap=b.cmap))
    return dict(panels=sorted(out, key=lambda v: v['place']), bars=bars)


class Writer:
    """movie writer that keeps the frames"""
    made = []

    def __init__(self, fps=None, metadata=None, bitrate=None, extra_args=None, codec=None):
        self.fps, self.metadata, self.frames = fps, metadata, []

    @classmethod
    def isAvailable(cls):
        return True

    @contextlib.contextmanager
    def saving(self, fig, outfile, dpi, *args, **kwargs):
        self.fig, self.name, self.dpi = fig, str(outfile), dpi
        Writer.made.append(self)
        with open(outfile, 'w') as f:
            f.write('movie')
        yield self

    def grab_frame(self, **kwargs):
        self.frames.append(snapshot(self.fig))


class Saved:
    """figures at the time they are saved"""

    def __enter__(self):
        self.figures = []
        self.old = matplotlib.figure.Figure.savefig
        self.reg = matplotlib.animation.writers._registered.copy()
        out = self.figures

        def savefig(fig, name, *args, **kw):
            with open(name, 'w') as f:
                f.write('figure')
            out.append((str(name), kw, snapshot(fig)))
        matplotlib.figure.Figure.savefig = savefig
        matplotlib.animation.writers._registered['ffmpeg'] = Writer
        Writer.made = []
        plt.close('all')
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.old
        matplotlib.animation.writers._registered.clear()
        matplotlib.animation.writers._registered.update(self.reg)
        plt.close('all')


def shapes(path, records, names=('id', 'name')):
    """shapefile of polygons with attributes"""
    path.parent.mkdir(parents=True, exist_ok=True)
    with shapefile.Writer(str(path) + '.shp') as w:
        for n in names:
            w.field(n, 'C', 40)
        for parts, rec in records:
            w.poly([[tuple(map(float, p)) for p in q] for q in parts])
            w.record(*rec)


def ring(r, x, y, d, n=5):
    """closed polygon near a point (vertices clockwise)"""
    a = -np.sort(r.uniform(0, 2*np.pi, n))
    p = np.stack([x + d*np.cos(a), y + d*np.sin(a)], axis=1).round(4)
    return np.concatenate([p, p[:1]])


def some(r, n, box, d):
    return [ring(r, r.uniform(box[0], box[1]), r.uniform(box[2], box[3]), d) for _ in range(n)]


def lonlat(r, n, hem):
    y = (-85.0, -66.0) if hem == 'S' else (62.0, 82.0)
    x = (-170.0, 170.0) if hem == 'S' else (-70.0, -20.0)
    return some(r, n, x + y, 1.5)


def files(root, case, hems):
    """auxiliary files of the programs and the lines expected for each hemisphere"""
    r = gen.rng(case['seed'], 31)
    m = root/'masks'
    coast = some(r, 3, (-150, 150, -50, 50), 5.0)
    isles = some(r, 2, (-60, -30, 62, 80), 2.0)
    shapes(m/'G250'/'GSHHS_i_L1_no_greenland', [([q], ('1', 'a')) for q in coast])
    shapes(m/'G250'/'greenland_coastline_islands', [([q], ('1', 'a')) for q in isles])
    ice = some(r, 4, (-25e5, 25e5, -2e6, 2e6), 2e5)
    shapes(m/'IceBoundaries_Antarctica_v02'/'ant_ice_sheet_islands_v2',
        [([q], ('1', 'a')) for q in ice])
    gimp = some(r, 33, (-6e5, 7e5, -3e6, -8e5), 1e4)
    out = dict(coast=[('ll', q) for q in coast + isles], ice=[('S', q) for q in ice],
        gimp=[('N', q) for q in gimp])
    if 'N' in hems:
        shapes(m/'GIMP'/'grn_ice_sheet_peripheral_glaciers', [([q], ('1', 'a')) for q in gimp])
        rgi = []
        for f in ('03_rgi60_ArcticCanadaNorth', '04_rgi60_ArcticCanadaSouth',
                '06_rgi60_Iceland', '07_rgi60_Svalbard'):
            q = some(r, 31, (-6e5, 7e5, -3e6, -8e5), 1e4)
            if case['glacier']:
                shapes(root/'RGI'/f/f'{f}_plot', [([p], ('1', 'a')) for p in q])
            rgi += [('N', p) for p in q[:30]]
        out['rgi'] = rgi
    for hem in hems:
        lines = []
        if case['basin'] == 'Rignot':
            d = m/dict(S='Rignot_ANT', N='Rignot_GRE')[hem]
            d.mkdir(parents=True, exist_ok=True)
            for t in RIGNOT[hem]:
                q = lonlat(r, 1, hem)[0].astype('f')
                c = q[:, ::-1] if hem == 'S' else q
                name = dict(S='basin_{0}_index.ascii', N='divide_{0}_index.ascii')[hem]
                np.savetxt(d/name.format(t), c, fmt='%.6f')
                lines.append(('ll', q))
        elif case['basin'] == 'IMBIE-2':
            rec = []
            for t in IMBIE[hem] + ['Islands', 'West']:
                n = 1 + int(r.integers(0, 3))
                q = lonlat(r, n, hem) if hem == 'N' else some(r, n, (-2e6, 2e6, -2e6, 2e6), 1e5)
                rec.append((q, (t, 'x') if hem == 'N' else ('x', t)))
                if t in IMBIE[hem]:
                    lines += [('ll' if hem == 'N' else 'S', p) for p in q]
            i = r.permutation(len(rec))
            name = dict(S='ANT_Basins_IMBIE2_v1.6', N='GRE_Basins_IMBIE2_v1.3')[hem]
            shapes(m/name/name, [rec[j] for j in i])
        elif case['basin'] == 'IMBIE-2_subbasin':
            rec = []
            for j in range(4):
                q = some(r, 1 + j % 2, (-2e6, 2e6, -2e6, 2e6), 1e5)
                t = ['Islands', 'East', 'West', 'Islands'][j] if j else 'Peninsula'
                rec.append((q, ('x', t)))
                if t != 'Islands':
                    lines += [('S', p) for p in q]
            shapes(m/'Basins_20Oct2016_v1.7'/'Basins_v1.7', rec)
        elif case['basin'] == 'Amundsen':
            q = lonlat(r, 3, 'S')
            shapes(m/'Basins_Admunsen'/'Basins_admunsen_match_coastline_and_IS',
                [([p], ('1', 'a')) for p in q])
            lines += [('ll', p) for p in q]
        out['basin' + hem] = lines
    return out


class Mosaic:
    """raster of a base map"""

    def __init__(self, box, hem, seed):
        r = gen.rng(seed, 77)
        self.dx = 1e5
        self.x0, self.y1 = box[0] - 3*self.dx, box[3] + 2*self.dx
        self.RasterXSize = int((box[1] - box[0])/self.dx) + 6
        self.RasterYSize = int((box[3] - box[2])/self.dx) + 6
        self.values = r.integers(0, 16000, (self.RasterYSize, self.RasterXSize))
        self.values[r.uniform(size=self.values.shape) < 0.2] = 0

    def GetGeoTransform(self):
        return (self.x0, self.dx, 0.0, self.y1, 0.0, -self.dx)

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None):
        return self.values[yoff:, xoff:][:ysize, :xsize].copy()


def box_of(name, case, hem):
    n, kind, box = PROGRAMS[name]
    if 'regional' in name:
        box = REGIONS[case['region']]
    elif name == 'plot_AIS_GrIS_maps':
        box = dict(S=AIS, N=GRE)[hem]
    return box


@contextlib.contextmanager
def cut(name, case, hems):
    """limit polar maps to parts of their region (in km)"""
    mod = prog.load(name)
    boxes, old = {}, {}
    several = 'regional' in name or name == 'plot_AIS_GrIS_maps'
    for attr in (('region_xlimit', 'region_ylimit') if several else ('xlimits', 'ylimits')):
        if not hasattr(mod, attr):
            # the complete region is mapped
            yield {hem: box_of(name, case, hem) for hem in hems}
            return
    for hem in hems:
        b = box_of(name, case, hem)
        key = case['region'] if 'regional' in name else hem
        lim = tuple(mod.region_xlimit[key]) + tuple(mod.region_ylimit[key]) if several else \
            tuple(mod.xlimits) + tuple(mod.ylimits)
        same(tuple(map(float, lim)), tuple(map(float, b)), 'limits of the region')
        w, h = case['size']
        x = b[0] + 1e3*int(case['at'][0]*(b[1] - b[0] - 1e3*w)/1e3)
        y = b[2] + 1e3*int(case['at'][1]*(b[3] - b[2] - 1e3*h)/1e3)
        boxes[hem] = (x, x + 1e3*w, y, y + 1e3*h)
    try:
        if several:
            old = dict(region_xlimit=mod.region_xlimit, region_ylimit=mod.region_ylimit)
            mod.region_xlimit, mod.region_ylimit = dict(mod.region_xlimit), dict(mod.region_ylimit)
            for hem in hems:
                key = case['region'] if 'regional' in name else hem
                mod.region_xlimit[key] = np.array(boxes[hem][:2])
                mod.region_ylimit[key] = np.array(boxes[hem][2:])
        else:
            old = dict(xlimits=mod.xlimits, ylimits=mod.ylimits)
            mod.xlimits, mod.ylimits = (np.array(boxes[hems[0]][:2]),
                np.array(boxes[hems[0]][2:]))
        yield boxes
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def grids(case, n):
    """coordinates and generated fields"""
    dlon, dlat = case['d']
    if case['interval'] == 1:
        lon = np.arange(0, 360 + dlon, dlon)
        lat = np.arange(-90, 90 + dlat, dlat)
    elif case['corner']:
        lon = np.arange(0, 360, dlon)
        lat = np.arange(-90 + dlat/2, 90, dlat)
    else:
        lon = np.arange(dlon/2, 360, dlon)
        lat = np.arange(-90 + dlat/2, 90, dlat)
    if case['west']:
        lon = lon - 180.0
    if case['down']:
        lat = lat[::-1]
    r = gen.rng(case['seed'], 5)
    x, y = np.meshgrid(np.radians(lon), np.radians(lat))
    data = []
    for i in range(n):
        a = r.normal(size=6)*case['amp']
        v = a[0]*np.cos(x)*np.cos(y) + a[1]*np.sin(2*x)*np.cos(y)**2 + a[2]*np.sin(y) + \
            a[3]*np.cos(2*y) + a[4]/2
        # small scales that keep the first and last meridian equal
        w = r.normal(size=v.shape)*case['amp']/8
        if case['interval'] == 1:
            w[:, -1] = w[:, 0]
        v = v + w
        mask = np.zeros(v.shape, bool)
        if case['holes']:
            for k in range(5):
                iy, ix = r.integers(0, v.shape[0] - 2), r.integers(0, v.shape[1] - 3)
                if k > 2:
                    # within the maps of the poles
                    rows = np.flatnonzero(np.abs(lat) > 55)
                    iy = min(int(r.choice(rows)), v.shape[0] - 3)
                mask[iy:iy+3, ix:ix+4] = True
            if case['interval'] == 1:
                mask[:, 0] = mask[:, -1] = mask[:, 0] | mask[:, -1]
        data.append((np.round(v, 8), mask))
    return lon, lat, data


def write(path, form, lon, lat, v, mask, case, time=None, month=None):
    if form == 'ascii':
        with open(path, 'w') as f:
            for i, a in enumerate(lat):
                for j, o in enumerate(lon):
                    if not mask[i, j]:
                        f.write(f'{o:12.5f} {a:12.5f} {v[i, j]:16.8f}' +
                            (f' {time:14.8f}' if time is not None else '') + '\n')
        return
    s = gravtk.spatial(fill_value=FILL)
    s.lon, s.lat, s.data, s.mask = lon, lat, np.where(mask, FILL, v), mask.copy()
    if time is not None:
        s.time, s.month = time, month
    getattr(s, 'to_' + form)(path, date=time is not None, varname=case.get('var', 'z'),
        units='cm', longname='Equivalent_Water_Thickness')


EXT = dict(ascii='txt', netCDF4='nc', HDF5='H5')


def sample(lon, lat, v, mask, X, Y, order):
    """value of a grid at points: estimate, whether it may be judged and whether it is missing"""
    if lat[0] > lat[-1]:
        lat, v, mask = lat[::-1], v[::-1], mask[::-1]
    d, e = lon[1] - lon[0], lat[1] - lat[0]
    n = int(round(360.0/d))
    fx, fy = (np.mod(X - lon[0], 360.0))/d, (Y - lat[0])/e
    inside = (np.abs(X) < 180.0 - 1.6*d) & (Y >= lat[0]) & (Y <= lat[-1])
    fy = np.clip(fy, 0, len(lat) - 1)
    if order == 0:
        ix, iy = np.round(fx).astype(int) % n, np.round(fy).astype(int)
        tie = (np.abs(np.mod(fx, 1) - 0.5) < 1e-3) | (np.abs(np.mod(fy, 1) - 0.5) < 1e-3)
        return v[iy, ix], inside & ~tie, mask[iy, ix], mask[iy, ix]
    i0, j0 = np.floor(fx).astype(int), np.minimum(np.floor(fy).astype(int), len(lat) - 2)
    wx, wy = fx - i0, fy - j0
    out, bad, all_bad = 0.0, np.zeros(X.shape, bool), np.ones(X.shape, bool)
    near = np.zeros(X.shape, bool)
    for dx, a in ((0, 1 - wx), (1, wx)):
        for dy, b in ((0, 1 - wy), (1, wy)):
            c = mask[j0 + dy, (i0 + dx) % n]
            out = out + a*b*np.where(c, 0, v[j0 + dy, (i0 + dx) % n])
            bad |= c & (a*b > 1e-9)
            near |= c
    return out, inside & (bad == near), bad, bad


def colour(v):
    return tuple(np.round(matplotlib.colors.to_rgba(v), 3))


def check_image(im, box, hem, lon, lat, v, mask, case, what):
    data = im['data']
    if hem == 'global':
        same(im['extent'], (-180.0, 180.0, -90.0, 90.0), f'{what}: extent')
        same(data.shape, (361, 721), f'{what}: resolution')
        X, Y = np.meshgrid(np.linspace(-180, 180, 721), np.linspace(-90, 90, 361))
    else:
        same(tuple(map(float, im['extent'])), box, f'{what}: extent')
        nx, ny = int((box[1] - box[0])/1e3) + 1, int((box[3] - box[2])/1e3) + 1
        same(data.shape, (ny, nx), f'{what}: resolution')
        PX, PY = np.meshgrid(np.linspace(box[0], box[1], nx), np.linspace(box[2], box[3], ny))
        X, Y = pyproj.Proj(dict(S=S, N=N)[hem])(PX, PY, inverse=True)
    same(im['origin'], 'lower', f'{what}: orientation')
    order = case['order']
    got, gm = np.ma.getdata(data), np.ma.getmaskarray(data)
    if order == 3:
        # interpolation passes through the values of the grid
        gx = np.isclose(np.mod((X - lon[0])/(lon[1] - lon[0]) + 0.5, 1), 0.5, atol=1e-9)
        gy = np.isclose(np.mod((Y - lat[0])/(lat[1] - lat[0]) + 0.5, 1), 0.5, atol=1e-9)
        est, judge, _, _ = sample(lon, lat, v, mask, X, Y, 1)
        same(int(gm.sum()), 0, f'{what}: missing')
        at = judge & gx & gy
        close(got[at], est[at], f'{what}: values at the grid points', rtol=1e-7,
            atol=1e-7*case['amp'])
        far = np.abs(got - est)[judge]
        require(far.size == 0 or far.max() < 2.5*np.ptp(v) + 1e-9, f'{what}: {far.max() if far.size else 0} from the grid')
        return int(judge.sum())
    est, judge, miss, _ = sample(lon, lat, v, mask, X, Y, order)
    same(int(np.sum((gm != miss) & judge)), 0, f'{what}: missing pixels')
    ok = judge & ~miss
    close(got[ok], est[ok], f'{what}: values', rtol=1e-7, atol=1e-6*case['amp'])
    # no value outside of the range of the grid is shown
    vis = got[~gm]
    if vis.size:
        a, b = v[~mask].min(), v[~mask].max()
        require(vis.min() >= a - 1e-6*case['amp'] and vis.max() <= b + 1e-6*case['amp'],
            f'{what}: {vis.min()}..{vis.max()} outside of {a}..{b}')
    return int(judge.sum())


def mean_of(lat, v, mask):
    w = np.broadcast_to(np.cos(np.radians(lat))[:, None], v.shape)
    return np.sum(w[~mask]*v[~mask])/np.sum(w[~mask])


def check_contours(panel, im, hem, lon, lat, v, mask, case, what):
    a, b, s = case['cont']
    want = []
    if case['contours']:
        lv = [s*k for k in range(a, b + 1) if k != 0]
        want = [(lv, '0.2'), ([0.0], 'red')]
        if case['mean']:
            want.append(([mean_of(lat, v, mask)], 'blue'))
    same(len(panel['contours']), len(want), f'{what}: sets of contours')
    for c, (lv, col) in zip(panel['contours'], want):
        close(c['levels'], np.array(lv), f'{what}: levels ({col})', rtol=1e-9, atol=1e-9)
        same(set(c['color']), {colour(col)}, f'{what}: colour')
        # contours follow their level in the field
        if hem == 'global' and case['order'] == 3:
            continue
        d, e = lon[1] - lon[0], abs(lat[1] - lat[0])
        up = np.argsort(lat)
        gx = np.concatenate([w[up] for w in (v, v)], axis=1)
        gm = np.concatenate([w[up] for w in (mask, mask)], axis=1)
        n = int(round(360.0/d))
        for q in c['paths'][:40]:
            if len(q) == 0:
                continue
            X, Y = (q[:, 0], q[:, 1]) if hem == 'global' else pyproj.Proj(dict(S=S, N=N)[hem])(
                q[:, 0], q[:, 1], inverse=True)
            i = np.round(np.mod(X - lon[0], 360.0)/d).astype(int) % n
            j = np.round((Y - lat.min())/e).astype(int).clip(0, len(lat) - 1)
            W = [(np.clip(j + k, 0, len(lat) - 1), (i + l) % n) for k in (-1, 0, 1)
                for l in (-1, 0, 1)]
            lo = np.min([gx[w] for w in W], axis=0)
            hi = np.max([gx[w] for w in W], axis=0)
            m = np.any([gm[w] for w in W], axis=0) | (np.abs(X) > 180 - 2*d) | (Y < lat.min()) | \
                (Y > lat.max()) | (np.abs(Y) > 89.9)
            z = np.array(lv)[:, None]
            tol = 1e-6*case['amp']
            hit = np.any((z >= lo - tol) & (z <= hi + tol), axis=0) | m
            require(hit.all(), f'{what}: contour away from its level')


def check_lines(panel, hem, want, what):
    """each delineation is drawn once and at its place"""
    pool = list(panel['lines'])
    tr = pyproj.Proj(dict(S=S, N=N)[hem]) if hem in 'SN' else None
    for kind, q in want:
        q = np.asarray(q, float)
        x, y = q[:, 0], q[:, 1]
        if kind in 'SN' and kind != hem:
            x, y = pyproj.Proj(dict(S=S, N=N)[kind])(x, y, inverse=True)
        elif kind == 'll' and tr is not None:
            x, y = tr(x, y)
        c = np.stack([x, y], axis=1)
        hits = [i for i, p in enumerate(pool) if p.shape == c.shape and
            np.allclose(p, c, rtol=1e-6, atol=1.0 if hem in 'SN' else 1e-4)]
        require(hits, f'{what}: delineation is missing')
        pool.pop(hits[0])
    return pool


@st.composite
def s_map(draw, name):
    n, kind, _ = PROGRAMS[name]
    movie = 'movie' in name
    basins = ['', '', 'Rignot', 'IMBIE-2'] + (['IMBIE-2_subbasin'] if kind == 'S' else []) + \
        (['Amundsen'] if 'regional' in name else [])
    order = draw(st.sampled_from([0, 1, 1, 1, 3]))
    forms = ['netCDF4', 'HDF5'] + ([] if movie else ['ascii'])
    k = draw(st.sampled_from([-3, -2, -1, 0]))
    j = draw(st.integers(1, 5))
    bounds = draw(st.one_of(st.none(), st.lists(st.integers(-40, 40), min_size=4, max_size=9,
        unique=True))) if draw(st.booleans()) else None
    interval = draw(st.sampled_from([1, 2, 2]))
    form = draw(st.lists(st.sampled_from(forms), min_size=n, max_size=n)) if \
        draw(st.booleans()) else [draw(st.sampled_from(forms + [None]))]
    west = draw(st.booleans())
    if 'ascii' in form:
        west = False
    return dict(prog=name, seed=draw(gen.seeds), order=order,
        d=draw(st.sampled_from([(10.0, 10.0), (5.0, 5.0), (10.0, 5.0), (7.5, 10.0)])),
        one=draw(st.booleans()), interval=interval, corner=draw(st.booleans()) and
        'ascii' not in form, west=west, down=draw(st.booleans()) or 'ascii' in form, form=form,
        amp=draw(st.sampled_from([1.0, 10.0, 250.0])),
        holes=order != 3 and draw(st.booleans()),
        scale=draw(st.sampled_from([None, None, 0.1, 10.0, -2.0])),
        remove=n > 1 and draw(st.sampled_from([False, False, True])),
        range=(k, j, draw(st.sampled_from([0.5, 2.0, 5.0, 25.0]))),
        bounds=sorted(bounds) if bounds else None,
        cmap=draw(st.sampled_from([None, 'viridis', 'RdBu', 'jet', 'cpt'])),
        alpha=draw(st.sampled_from([None, 0.5, 0.25])),
        contours=draw(st.sampled_from([False, True])), mean=draw(st.booleans()),
        cont=(draw(st.integers(-4, -1)), draw(st.integers(1, 4)),
            draw(st.sampled_from([0.5, 2.0, 10.0]))),
        titles=draw(st.one_of(st.none(), st.lists(st.sampled_from(['2002-2020', 'a_b', 'GRACE',
            'x-y_z', 'SLE']), min_size=n, max_size=n))),
        labels=draw(st.one_of(st.none(), st.lists(st.sampled_from(['a)', 'b', 'C', '(d)']),
            min_size=n, max_size=n))),
        extend=draw(st.sampled_from([None, 'neither', 'both', 'min', 'max'])),
        cbtitle=draw(st.sampled_from([None, 'Mass Change'])),
        cbunits=draw(st.sampled_from([None, 'cm w.e.'])),
        cbformat=draw(st.sampled_from([None, '{0:0.1f}', '{0:g}'])),
        lines=draw(st.sampled_from([None, 'default', (30.0,), (45.0, 20.0)])),
        projection=draw(st.booleans()), minmax=draw(st.booleans()),
        basemap=draw(st.sampled_from([False, False, True])), basin=draw(st.sampled_from(basins)),
        glacier=draw(st.booleans()), scalebar=draw(st.booleans()),
        region=draw(st.sampled_from(sorted(REGIONS))),
        at=(draw(st.integers(0, 100))/100, draw(st.integers(0, 100))/100),
        size=(draw(st.integers(40, 300)), draw(st.integers(40, 200))),
        fformat=draw(st.sampled_from([None, 'pdf', 'png', 'jpg', 'svg'])),
        dpi=draw(st.sampled_from([None, 90])), mode=draw(st.sampled_from([None, '0640'])),
        nt=draw(st.integers(2, 3)), months=sorted(draw(st.lists(st.integers(4, 230), min_size=3,
            max_size=3, unique=True))))


CPT = ['# COLOR_MODEL = RGB', '-10 255 0 0 -2 255 255 0', '-2 255 255 0 4 0 255 255',
    '4 0 255 255 10 0 0 255', 'B 0 0 0', 'F 255 255 255', 'N 128 128 128']


def options(case, root, hems):
    """arguments of the program besides the input files"""
    dlon, dlat = case['d']
    args = ['-D', root, '--interval', case['interval'], '-I',
        {0: 'nearest', 1: 'bilinear', 3: 'cubic'}[case['order']]]
    if case['down']:
        args += ['--spacing', dlon, -dlat]
    else:
        args += ['--spacing', dlon] + ([] if dlon == dlat and case['one'] else [dlat])
    a, b, s = case['range']
    if case['bounds']:
        args += ['-B'] + case['bounds']
    if not case['bounds'] or case['one']:
        args += ['-R', a*s, b*s, s]
    if case['scale'] is not None:
        args += ['-s', case['scale']]
    if case['cmap'] == 'cpt':
        (root/'c.cpt').write_text('\n'.join(CPT) + '\n')
        args += ['-c', root/'c.cpt']
    elif case['cmap']:
        args += ['-m', case['cmap']]
    if case['alpha'] is not None:
        args += ['-a', case['alpha']]
    if case['contours']:
        a, b, s = case['cont']
        args += ['--plot-contours', '--contour-range', a*s, b*s, s]
    if case['mean']:
        args += ['--mean-contour']
    for k, o in (('titles', '--plot-title'), ('labels', '--plot-label')):
        if case[k]:
            args += [o] + case[k]
    for k, o in (('extend', '--cbextend'), ('cbtitle', '--cbtitle'), ('cbunits', '--cbunits'),
            ('cbformat', '--cbformat'), ('dpi', '-d'), ('mode', '-M')):
        if case[k] is not None:
            args += [o, case[k]]
    if case['lines']:
        args += ['--draw-grid-lines']
        if case['lines'] != 'default':
            args += ['--grid-lines'] + list(case['lines'])
    if hems != ['global']:
        if case['basin']:
            args += ['--basin-type', case['basin']]
        if case['basemap']:
            args += ['--basemap']
        if case['scalebar']:
            args += ['--draw-scale']
        if 'GrIS_grid' in case['prog'] and case['glacier']:
            args += ['--glacier-margins']
    if 'regional' in case['prog']:
        args += ['-r', case['region']]
    return args


def check_panel(panel, i, hem, box, fields, aux, case, what, scene):
    lon, lat, v, mask = fields
    name = case['prog']
    single = PROGRAMS[name][0] == 1
    images = panel['images']
    base = hem != 'global' and case['basemap']
    same(len(images), 2 if base else 1, f'{what}: images')
    if base:
        check_mosaic(images[0], scene[hem], box, case, what)
    im = images[-1]
    n = check_image(im, box, hem, lon, lat, v, mask, case, what)
    a, b, s = case['range']
    if case['bounds']:
        require(isinstance(im['norm'], matplotlib.colors.BoundaryNorm), f'{what}: norm')
        same([float(q) for q in im['norm'].boundaries], [float(q) for q in case['bounds']],
            f'{what}: boundaries')
        same(im['norm'].Ncmap, 256, f'{what}: colours')
    else:
        same(type(im['norm']).__name__, 'Normalize', f'{what}: norm')
        same((im['norm'].vmin, im['norm'].vmax), (a*s, b*s), f'{what}: range')
    if case['cmap'] == 'cpt':
        want = gravtk.tools.from_cpt(scene['cpt'])
    else:
        want = plt.get_cmap(case['cmap'] or 'viridis')
    x = np.linspace(0, 1, 33)
    close(im['cmap'](x), want(x), f'{what}: colour map', atol=1e-9)
    same(tuple(float(q) for q in im['cmap'].get_bad()), (0.0, 0.0, 0.0, 0.0) if base else
        (1.0, 1.0, 1.0, 0.5), f'{what}: colour of missing values')
    same(1.0 if im['alpha'] is None else im['alpha'], case['alpha'] or 1.0,
        f'{what}: transparency')
    check_contours(panel, im, hem, lon, lat, v, mask, case, what)
    # delineations
    want = []
    if hem == 'global':
        want = aux['coast'] + aux['ice2']
    elif name == 'plot_AIS_GrIS_maps':
        start = 1 if case['basin'] else 0
        want = aux['coast'] + aux['basin' + hem] + (aux['ice'][start:] if hem == 'S' else [])
    elif hem == 'S':
        start = 1 if case['basin'] not in ('', 'Amundsen') else 0
        want = aux['basinS'] + aux['ice'][start:]
    else:
        want = aux['coast'] + aux['basinN']
        if case['glacier']:
            want = want + aux['gimp'][1 if case['basin'] == 'IMBIE-2' else 0:30] + aux['rgi']
            if case['basin'] == 'Rignot':
                want = [q for q in want if q[1] is not aux['gimp'][0][1]]
    rest = check_lines(panel, hem, want, what)
    if not (hem != 'global' and case['scalebar']):
        same(len(rest), 0, f'{what}: other lines')
    if hem != 'global':
        same(tuple(map(float, panel['xlim'])) + tuple(map(float, panel['ylim'])), box,
            f'{what}: limits')
    # grid lines
    same(len(panel['grid']), 1 if case['lines'] else 0, f'{what}: grid lines')
    if case['lines']:
        g = (15.0, 15.0) if case['lines'] == 'default' else tuple(case['lines'])
        for got, step, end in zip(panel['grid'][0], (g[0], g[-1]), (180, 90)):
            inside = got[np.abs(got) <= end]
            close(inside, np.arange(-end, end + 1e-6, step), f'{what}: grid lines', atol=1e-9)
    # text
    t = case['titles'][i] if case['titles'] else ''
    t = (t if single else t.replace('_', ' ')).replace('-', '\u2013')
    same(panel['title'], t, f'{what}: title')
    same(panel['labels'], [case['labels'][i]] if case['labels'] else [], f'{what}: label')
    same(panel['ticks'], (0, 0), f'{what}: ticks')
    return n


def check_mosaic(im, ds, box, case, what):
    whole = case['prog'] in ('plot_AIS_regional_maps', 'plot_AIS_regional_movie',
        'plot_QML_grid_3maps')
    data = im['data']
    same(im['origin'], 'upper', f'{what}: orientation of the base map')
    got = np.ma.getdata(data)
    xmin, xmax, ymin, ymax = im['extent']
    # the upper left pixel of the image in the raster
    c, r = (xmin - ds.x0)/ds.dx, (ds.y1 - ymax)/ds.dx
    require(abs(c - round(c)) < 1e-6 and abs(r - round(r)) < 1e-6, f'{what}: base map corner')
    c, r = int(round(c)), int(round(r))
    if not whole:
        same((c, r) + got.shape, (0, 0) + ds.values.shape, f'{what}: complete base map')
    want = ds.values[r:r + got.shape[0], c:c + got.shape[1]]
    same(got.shape, want.shape, f'{what}: base map')
    require(np.array_equal(got, want), f'{what}: base map')
    require(np.array_equal(np.ma.getmaskarray(data), want == 0), f'{what}: gaps of the base map')
    # pixels are shown where they are (within a pixel)
    require(abs(xmax - xmin - ds.dx*got.shape[1]) <= ds.dx*1.001 and
        abs(ymax - ymin - ds.dx*got.shape[0]) <= ds.dx*1.001, f'{what}: extent of the base map')
    d = 2.001*ds.dx
    require(xmin <= box[0] + d and xmax >= box[1] - d and ymin <= box[2] + d and
        ymax >= box[3] - d, f'{what}: base map covers the map')


def check_bar(bars, case, what):
    same(len(bars), 1, f'{what}: colour bars')
    b = bars[0]
    a, e, s = case['range']
    want = [float(q) for q in case['bounds']] if case['bounds'] else \
        [s*k for k in range(a, e + 1)]
    same(b['extend'], case['extend'] or 'both', f'{what}: ends of the colour bar')
    close(b['ticks'], np.array(want), f'{what}: ticks of the colour bar', atol=1e-9)
    same([t.strip() for t in b['labels']], [(case['cbformat'] or '{0:3.0f}').format(q).strip()
        for q in want],
        f'{what}: labels of the colour bar')
    title, unit = case['cbtitle'] or '', case['cbunits'] or ''
    if b['vertical']:
        same((b['ylabel'], b['title']), (title, unit), f'{what}: text of the colour bar')
    else:
        same((b['title'], b['xlabel']), (title, unit), f'{what}: text of the colour bar')


def hemispheres(name):
    kind = PROGRAMS[name][1]
    return ['global'] if kind == 'global' else list(kind)


def prepare(case, root, boxes):
    name = case['prog']
    hems = hemispheres(name)
    aux = files(root, case, [h for h in hems if h != 'global'])
    # Antarctic delineation on global maps
    aux['ice2'] = aux['ice']
    mod = prog.load(name)
    scene = {h: Mosaic(box_of(name, case, h), h, case['seed']) for h in hems if h != 'global'}
    scene['cpt'] = root/'c.cpt'

    def opened(p, *a):
        p = str(p)
        ok = [(h, f) for h, f in (('S', os.path.join('MOA', 'moa')), ('N', os.path.join('MOG', 'mog')))
            if f in p]
        require(len(ok) == 1, f'raster {p}')
        return scene[ok[0][0]]
    mod.osgeo = types.SimpleNamespace(gdal=types.SimpleNamespace(Open=opened))
    return aux, scene


def b_map(case, ctx):
    name, root = case['prog'], ctx.tmp
    n = PROGRAMS[name][0]
    hems = hemispheres(name)
    lon, lat, data = grids(case, n + 1)
    form = [f or 'netCDF4' for f in case['form']]*(1 if len(case['form']) == n else n)
    infiles = []
    for i in range(n):
        f = root/f'in{i}.{EXT[form[i]]}'
        write(f, form[i], lon, lat, *data[i], case)
        infiles.append(f)
    args = infiles + options(case, root, hems)
    if case['form'] != [None]:
        args += ['-F'] + (case['form'] if n > 1 else case['form'])
    if 'ascii' in form:
        args += ['-v', 'lon', 'lat', 'data']
        if len(set(form)) > 1:
            # names of the variables have to suit all formats
            for i in range(n):
                if form[i] != 'ascii':
                    write(infiles[i], form[i], lon, lat, *data[i], dict(case, var='data'))
    if case['fformat']:
        args += ['-f', case['fformat']]
    if hems == ['global'] and n == 1:
        args += (['--add-projection'] if case['projection'] else []) + \
            (['--add-min-max'] if case['minmax'] else [])
    out = root/'figures'/'out.dat'
    args += ['-O', out]
    mod = prog.load(name)
    old = mod.plot_grid
    if case['remove']:
        write(root/'remove.nc', 'netCDF4', lon, lat, data[n][0], np.zeros(lat.shape + lon.shape, bool),
            case)
        mod.plot_grid = functools.partial(old, REMOVE_FILE=root/'remove.nc')
    try:
        with cut(name, case, hems) if hems != ['global'] else contextlib.nullcontext(
                {'global': None}) as boxes:
            aux, scene = prepare(case, root, boxes)
            with Saved() as saved:
                prog.run(name, *args)
                figures = saved.figures
    finally:
        mod.plot_grid = old
    same([f[0] for f in figures], [str(out)], 'figures')
    kw, shot = figures[0][1:]
    same((kw.get('format'), kw.get('dpi')), (case['fformat'] or 'png', case['dpi'] or 180),
        'format of the figure')
    same(oct(stat.S_IMODE(os.stat(out).st_mode)), oct(int(case['mode'] or '775', 8)), 'mode')
    panels = shot['panels']
    same(len(panels), n, 'panels')
    total = 0
    for i in range(n):
        hem = hems[i] if len(hems) == n else hems[0]
        v, mask = data[i]
        f = case['scale'] or 1.0
        w = (v - (data[n][0] if case['remove'] else 0.0))*f
        if case['remove']:
            c2 = dict(case, amp=case['amp']*2*abs(f))
        else:
            c2 = dict(case, amp=case['amp']*abs(f))
        total += check_panel(panels[i], i, hem, boxes[hem], (lon, lat, w, mask), aux, c2,
            f'panel {i}', scene)
    check_bar(shot['bars'], case, name)
    if hems == ['global'] and n == 1:
        text = panels[0]['text']
        proj = [t for t in text if 'Projection' in t]
        same(len(proj), 1 if case['projection'] else 0, 'projection label')
        mm = [t for t in text if 'Data Min' in t]
        same(len(mm), 1 if case['minmax'] else 0, 'range label')
        if mm:
            lo, hi = (float(q.split('=')[1]) for q in mm[0].split(','))
            im = panels[0]['images'][-1]['data']
            step = max(np.abs(np.ma.diff(im, axis=0)).max(), np.abs(np.ma.diff(im, axis=1)).max())
            tol = (1.0 if not case['holes'] else 4.0)*step + 0.051
            require(abs(lo - im.min()) <= tol and abs(hi - im.max()) <= tol and lo >=
                im.min() - 0.051 and hi <= im.max() + 0.051, f'range label {mm}: {im.min()}, {im.max()}')
    ctx.label(name, form[0], case['basin'] or 'no basins')
    ctx.nontrivial(total > 500)


def b_movie(case, ctx):
    name, root = case['prog'], ctx.tmp
    hems = hemispheres(name)
    nt = case['nt']
    lon, lat, data = grids(case, nt)
    months = case['months'][:nt]
    times = [2002.0 + (m - 0.5)/12 for m in months]
    form = (case['form'][0] or 'netCDF4')
    case = dict(case, remove=False)
    infile = root/f'in.{EXT[form]}'
    v = np.stack([d[0] for d in data], axis=2)
    m = np.stack([d[1] for d in data], axis=2)
    write(infile, form, lon, lat, v, m, case, np.array(times), np.array(months))
    args = [infile] + (['-F', form] if case['form'] != [None] else [])
    out = root/'movies'/'out.mp4'
    args += options(case, root, hems) + ['-O', out]
    with cut(name, case, hems) if hems != ['global'] else contextlib.nullcontext(
            {'global': None}) as boxes:
        aux, scene = prepare(case, root, boxes)
        with Saved():
            prog.run(name, *args)
            made = Writer.made[:]
    same([w.name for w in made], [str(out)], 'movies')
    same(made[0].dpi, case['dpi'] or 100, 'resolution') if case['dpi'] else None
    same(oct(stat.S_IMODE(os.stat(out).st_mode)), oct(int(case['mode'] or '775', 8)), 'mode')
    same(len(made[0].frames), nt, 'frames')
    total = 0
    hem = hems[0]
    f = case['scale'] or 1.0
    for t, shot in enumerate(made[0].frames):
        v, mask = data[t]
        same(len(shot['panels']), 1, 'panels')
        c2 = dict(case, amp=case['amp']*abs(f))
        total += check_panel(shot['panels'][0], 0, hem, boxes[hem], (lon, lat, v*f, mask), aux, c2,
            f'frame {t}', scene)
        check_bar(shot['bars'], case, f'frame {t}')
        year, mon = 2002 + (months[t] - 1)//12, (months[t] - 1) % 12 + 1
        text = [q for q in shot['panels'][0]['text'] if f'{year:4d}' in q]
        same(len(text), 1, f'frame {t}: date')
        require(f'{year:4d}--{mon:02d}' in text[0], f'frame {t}: date {text[0]}')
    ctx.label(name, form, case['basin'] or 'no basins')
    ctx.nontrivial(total > 500)


CHECKS = []
for _name, (_n, _kind, _) in PROGRAMS.items():
    CHECKS.append(Check(_name.replace('plot_', ''), functools.partial(s_map, _name),
        b_movie if 'movie' in _name else b_map, quick=4 if _kind == 'global' else 14 if '5maps' in _name else 24,
        thorough=60, rule='more than 500 pixels that are compared with the grid', budget=90.0))

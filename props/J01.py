"""Widgets of the notebooks, run on stand-ins of ipywidgets and tkinter"""
import contextlib
import os
import pathlib
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
import gravity_toolkit.tools as tools
from pbt import gen
from pbt.core import Check, close, require

ASSUMPTIONS = ['ipywidgets, IPython.display and tkinter are not installed here: stand-ins of their '
    'documented behaviour take their place (values are kept in bounds and in the options, new options '
    'select the first one, every change of a trait calls the observers)',
    'one change of a trait is one notification after the widget is consistent',
    'the archive has the date file of every selectable combination of center, release and product']


# ---- stand-ins
class Stub:
    DEFAULT = None

    def __init__(self, value=None, description='', disabled=False, style=None, **kw):
        object.__setattr__(self, '_ready', False)
        self._watch = []
        self._clicks = []
        self.description, self.disabled, self.style = description, disabled, style
        self.setup(value, **kw)
        self._ready = True

    def setup(self, value, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self._value = self.coerce(self.DEFAULT if value is None else value)

    def coerce(self, v):
        return v

    def observe(self, handler, names=None, type='change'):
        names = None if (names is None or not isinstance(names, (str, list, tuple))) else names
        names = (names,) if isinstance(names, str) else names
        if (handler, names) not in self._watch:
            self._watch.append((handler, names))

    def unobserve(self, handler, names=None, type='change'):
        self._watch = [w for w in self._watch if w[0] != handler]

    def on_click(self, handler, remove=False):
        self._clicks.append(handler)

    def click(self):
        for h in list(self._clicks):
            h(self)

    def tell(self, name, old, new):
        if not self._ready or old == new:
            return
        change = dict(name=name, old=old, new=new, owner=self, type='change')
        for h, names in list(self._watch):
            if names is None or name in names:
                h(change)

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        old, self._value = self._value, self.coerce(v)
        self.tell('value', old, self._value)


class Text(Stub):
    DEFAULT = ''

    def coerce(self, v):
        if not isinstance(v, str):
            raise TypeError('text expected')
        return v


class Button(Stub):
    pass


class Checkbox(Stub):
    DEFAULT = False

    def coerce(self, v):
        if not isinstance(v, (bool, np.bool_)):
            raise TypeError('boolean expected')
        return bool(v)


class Dropdown(Stub):
    def setup(self, value, options=(), **kw):
        self._options = tuple(options)
        self._value = self.coerce(value if value is not None else (self._options or (None,))[0])

    def coerce(self, v):
        if v not in self._options:
            raise ValueError(f'{v} is not one of the options')
        return v

    @property
    def options(self):
        return self._options

    @options.setter
    def options(self, v):
        old, oldv = self._options, self._value
        self._options = tuple(v)
        self._value = self._options[0] if self._options else None
        self.tell('options', old, self._options)
        self.tell('value', oldv, self._value)

    @property
    def index(self):
        return self._options.index(self._value)


class SelectMultiple(Dropdown):
    def setup(self, value, options=(), **kw):
        self._options = tuple(options)
        self._value = self.coerce(value or ())

    def coerce(self, v):
        v = tuple(v)
        if any(i not in self._options for i in v):
            raise ValueError('value is not one of the options')
        return v

    @property
    def options(self):
        return self._options

    @options.setter
    def options(self, v):
        old, oldv = self._options, self._value
        self._options = tuple(v)
        self._value = ()
        self.tell('options', old, self._options)
        self.tell('value', oldv, self._value)

    @property
    def index(self):
        return tuple(self._options.index(v) for v in self._value)


class Bounded(Stub):
    DEFAULT = 0
    KIND = float

    def setup(self, value, min=0, max=100, **kw):
        self._min, self._max = min, max
        for k, v in kw.items():
            setattr(self, k, v)
        self._value = self.coerce(self.DEFAULT if value is None else value)

    def coerce(self, v):
        v = self.KIND(v)
        return self.KIND(np.clip(v, self._min, self._max))

    @property
    def min(self):
        return self._min

    @min.setter
    def min(self, v):
        self.bound('_min', v)

    @property
    def max(self):
        return self._max

    @max.setter
    def max(self, v):
        self.bound('_max', v)

    def bound(self, name, v):
        old, oldv = getattr(self, name), self._value
        setattr(self, name, v)
        if self._min > self._max:
            raise ValueError('minimum above maximum')
        self._value = self.coerce(self._value)
        self.tell(name[1:], old, v)
        self.tell('value', oldv, self._value)


class BoundedFloatText(Bounded):
    pass


class BoundedIntText(Bounded):
    KIND = int


class IntSlider(BoundedIntText):
    pass


class IntRangeSlider(Bounded):
    def coerce(self, v):
        a, b = (int(np.clip(int(i), self._min, self._max)) for i in v)
        if a > b:
            raise ValueError('lower bound above upper bound')
        return (a, b)


class HBox:
    def __init__(self, children=(), **kw):
        self.children = tuple(children)


class Toolkit:
    """namespace of the stand-ins"""
for _c in (Text, Button, Checkbox, Dropdown, SelectMultiple, BoundedFloatText, BoundedIntText,
        IntSlider, IntRangeSlider, HBox):
    setattr(Toolkit, _c.__name__, _c)
Toolkit.VBox = HBox


class Screen:
    class display:
        clear_output = staticmethod(lambda *a, **k: None)
        display = staticmethod(lambda *a, **k: None)


class Root:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Dialog:
    answer = None

    @classmethod
    def askdirectory(cls, **kw):
        return cls.answer

    @classmethod
    def askopenfilename(cls, filetypes=(), multiple=False, **kw):
        for f in filetypes:
            if isinstance(f, str) or len(f) != 2:
                raise ValueError(f'bad file type "{f}"')
        return tuple(cls.answer) if (multiple and cls.answer) else (cls.answer or '')

    @classmethod
    def askopenfilenames(cls, **kw):
        return cls.askopenfilename(multiple=True, **kw)


@contextlib.contextmanager
def desktop(display):
    names = dict(ipywidgets=Toolkit, IPython=Screen, Tk=Root, filedialog=Dialog if display else None)
    missing = object()
    saved = {k: getattr(tools, k, missing) for k in names}
    env = os.environ.get('DISPLAY')
    try:
        for k, v in names.items():
            setattr(tools, k, v)
        if display:
            os.environ['DISPLAY'] = ':0'
        else:
            os.environ.pop('DISPLAY', None)
        yield
    finally:
        for k, v in saved.items():
            if v is missing:
                delattr(tools, k)
            else:
                setattr(tools, k, v)
        if env is None:
            os.environ.pop('DISPLAY', None)
        else:
            os.environ['DISPLAY'] = env


# ---- tables of what each center provides
RELEASES = {'CNES': ['RL01', 'RL02', 'RL03', 'RL04', 'RL05']}
PRODUCTS = {
    ('CNES', 'RL01'): ['GAC', 'GSM'], ('CNES', 'RL02'): ['GAA', 'GAB', 'GSM'],
    ('CNES', 'RL03'): ['GAA', 'GAB', 'GSM'], ('CNES', 'RL04'): ['GSM'],
    ('CNES', 'RL05'): ['GAA', 'GAB', 'GSM'],
}
DEGREE = {'CNES': dict(RL01=50, RL02=50, RL03=80, RL04=90, RL05=90),
    'CSR': dict(RL04=60, RL05=60, RL06=60), 'JPL': dict(RL04=60, RL05=60, RL06=60),
    'GFZ': dict(RL04=90, RL05=90, RL06=60)}


def releases(center):
    return RELEASES.get(center, ['RL04', 'RL05', 'RL06'])


def products(center, release):
    if center == 'CNES':
        return PRODUCTS[center, release]
    return ['GAC', 'GAD', 'GSM'] if center == 'CSR' else ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']


def archive(base, r):
    months = {}
    for c in DEGREE:
        for d in releases(c):
            for p in sorted(set(products(c, d)) | ({'GAC', 'GAD', 'GSM'} if c != 'CNES' else set())):
                mon = sorted(r.choice(np.arange(4, 40), int(r.integers(1, 7)), replace=False).tolist())
                months[c, d, p] = [f'{m:03d}' for m in mon]
                folder = base/c/d/p
                folder.mkdir(parents=True)
                rows = ['Mid-date GRACE Month Start_Day End_Day Total_Days']
                for m in mon:
                    year, day = 2002 + (m - 1)//12, 1 + 30*((m - 1) % 12)
                    rows.append(f'{year + (day + 14.5)/365:13.8f} {m:03d} {year} {day:03d} {year} {day + 29:03d} {30:3d}')
                (folder/f'{c}_{d}_DATES.txt').write_text('\n'.join(rows) + '\n')
    return months


ACTIONS = ['center', 'release', 'product', 'lmax', 'mmax', 'pole_tide', 'atm', 'months', 'units',
    'output', 'GIA', 'mask', 'remove', 'type_remove', 'directory', 'type_GIA', 'replacement']


@st.composite
def s_widgets(draw):
    n = draw(st.integers(1, 14))
    weights = ACTIONS[:3]*3 + ACTIONS
    return dict(seed=draw(gen.seeds),
        defaults=draw(st.sampled_from([None, ['CSR', 'RL06', 'GSM', 60], ['GFZ', 'RL05', 'GSM', 90],
            ['JPL', 'RL05', 'GAD', 60], ['GFZ', 'RL04', 'GAC', 30], ['CSR', 'RL04', 'GAC', 60]])),
        display=draw(st.booleans()), stages=draw(st.sampled_from([1, 2, 4, 4, 4])),
        units=draw(st.sampled_from([None, None, ['mmGH', 'cmwe']])),
        actions=[[draw(st.sampled_from(weights)), draw(st.integers(0, 10**6))] for _ in range(n)])


def b_widgets(case, ctx):
    r = gen.rng(case['seed'])
    base = ctx.tmp/'archive'
    months = archive(base, r)
    with desktop(case['display']):
        kw = {} if case['defaults'] is None else dict(defaults=list(case['defaults']))
        w = tools.widgets(directory=base, **kw)
        defaults = case['defaults'] or ['CSR', 'RL06', 'GSM', 60]
        require(str(w.base_directory) == str(base), 'directory of the archive')
        require(w.endpoint.value == 'data' and tuple(w.endpoint.options) == ('s3', 'data'), 'access endpoint')
        require(w.update.value is True, 'update of the archive')
        if case['display']:
            require(w.directory.children == (w.directory_label, w.directory_button), 'directory row')
        else:
            require(w.directory is w.directory_label, 'directory row')
        w.select_product()
        chosen = list(defaults[:3])
        require([w.center.value, w.release.value, w.product.value] == chosen, 'default dataset')
        require(sorted(w.center.options) == sorted(DEGREE), 'processing centers')
        full = case['stages'] > 1
        if full:
            w.select_options()
            gsm = chosen[2] == 'GSM'
            require(w.lmax.max == w.lmax.value == w.mmax.max == w.mmax.value == defaults[3], 'default degree')
            require(w.geocenter.value == ('UCI' if gsm else '[none]'), 'default geocenter')
            require(w.C20.value == w.C30.value == ('GSFC' if gsm else '[none]'), 'default replacements')
            for name in ('CS21', 'CS22', 'C40', 'C50'):
                require(getattr(w, name).value == '[none]', f'default of {name}')
            for name, opts in (('geocenter', ['[none]', 'Tellus', 'SLR', 'UCI']), ('C20', ['[none]', 'CSR', 'GSFC']),
                    ('C30', ['[none]', 'CSR', 'GSFC']), ('C40', ['[none]', 'CSR', 'GSFC']),
                    ('C50', ['[none]', 'CSR', 'GSFC']), ('CS21', ['[none]', 'CSR']), ('CS22', ['[none]', 'CSR'])):
                require(list(getattr(w, name).options) == opts, f'options of {name}')
        corr = case['stages'] > 2
        if corr:
            ukw = {} if case['units'] is None else dict(units=case['units'])
            w.select_corrections(**ukw)
            w.select_output()
            require(w.GIA.value == w.remove_format.value == w.format == '[None]', 'formats')
            require(w.destripe.value is True and w.redistribute_removed.value is False, 'processing')
            require((w.gaussian.value, w.spacing.value) == (300, 1), 'grid')
            require(w.interval.index == 1 and len(w.interval.options) == 2, 'grid')
            require(w.units.value == 'cmwe', 'units')
            require(list(w.GIA.options) == ['[None]', 'IJ05-R2', 'W12a', 'SM09', 'ICE6G', 'Wu10',
                'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D', 'ascii', 'netCDF4', 'HDF5'], 'GIA formats')
            require(list(w.remove_format.options) == ['[None]', 'netCDF4', 'HDF5', 'index (ascii)',
                'index (netCDF4)', 'index (HDF5)'], 'remove formats')
            for name, row, label in (('GIA', w.GIA_file, w.GIA_label), ('mask', w.mask, w.mask_label),
                    ('remove', w.remove_file, w.remove_label)):
                require((row is label) != case['display'], f'{name} row')
                if case['display']:
                    require(row.children == (label, getattr(w, f'{name}_button')), f'{name} row')
        # expected state
        S = dict(center=chosen[0], release=chosen[1], product=chosen[2], months=None, removed=[],
            pole=None, atm=None, lmax=defaults[3], mmax=defaults[3], top=defaults[3], touched=False, listed=False,
            GIA='', mask='', base=str(base))

        def dataset(release=False):
            """defaults that follow a changed dataset"""
            S['touched'] = True
            S['months'] = None
            S['pole'] = None
            if release:
                S['atm'] = None
                S['listed'] = True
            S['top'] = DEGREE[S['center']][S['release']]
            S['lmax'] = S['top']
            S['mmax'] = None

        for k, (name, v) in enumerate(case['actions']):
            pick = lambda opts: opts[v % len(opts)]
            where = f'step {k} ({name})'
            if name == 'center':
                c = pick(list(DEGREE))
                old = S['center']
                w.center.value = c
                if c != old:
                    S.update(center=c, release=releases(c)[-1])
                    p = products(c, S['release'])
                    S['product'] = defaults[2] if defaults[2] in p else w.product.value
                    require(S['product'] in p, f'product at {where}')
                    dataset(release=True)
            elif name == 'release':
                d = pick(list(w.release.options))
                old = S['release']
                w.release.value = d
                if d != old:
                    S['release'] = d
                    p = products(S['center'], d)
                    S['product'] = defaults[2] if defaults[2] in p else w.product.value
                    require(S['product'] in p, f'product at {where}')
                    dataset(release=True)
            elif name == 'product':
                p = pick(list(w.product.options))
                old = S['product']
                w.product.value = p
                if p != old:
                    S['product'] = p
                    dataset()
            elif name == 'months':
                opts = list(w.months.options)
                sel = opts[:1 + v % len(opts)]
                w.months.value = sel
                S['months'] = sel
            elif full and name == 'lmax':
                w.lmax.value = v % (S['top'] + 20)
                new = min(v % (S['top'] + 20), S['top'])
                if new != S['lmax']:
                    S['mmax'] = new
                S['lmax'] = new
            elif full and name == 'mmax':
                w.mmax.value = v % 100
                S['mmax'] = min(v % 100, S['lmax'])
            elif full and name == 'pole_tide':
                w.pole_tide.value = bool(v % 2)
                S['pole'] = bool(v % 2)
            elif full and name == 'atm':
                w.atm.value = bool(v % 2)
                S['atm'] = bool(v % 2)
            elif full and name == 'replacement':
                x = getattr(w, pick(['geocenter', 'C20', 'C30', 'C40', 'C50', 'CS21', 'CS22']))
                x.value = x.options[v % len(x.options)]
            elif corr and name == 'units':
                w.units.value = pick(list(w.units.options))
            elif corr and name == 'output':
                w.output_format.value = pick(['[None]', 'netCDF4', 'HDF5'])
                require(w.format == w.output_format.value, f'output format at {where}')
            elif corr and name in ('GIA', 'mask', 'type_GIA'):
                path = pick([str(ctx.tmp/'a.txt'), str(ctx.tmp/'b c'/'d.nc'), 'relative.nc', '~/home.nc', ''])
                if name == 'type_GIA':
                    w.GIA_label.value = path
                    S['GIA'] = path
                elif case['display']:
                    Dialog.answer = path
                    getattr(w, f'{name}_button').click()
                    S[name] = path
            elif corr and name == 'remove' and case['display']:
                files = [str(ctx.tmp/f'r{(v + i) % 7}.nc') for i in range(v % 4)]
                Dialog.answer = tuple(files)
                w.remove_button.click()
                S['removed'] = S['removed'] + files
            elif corr and name == 'type_remove':
                files = [f'x{(v + i) % 7}.nc' for i in range(v % 4)]
                w.remove_label.value = ','.join(files)
                S['removed'] = files
            elif name == 'directory' and case['display']:
                # the same archive by another path
                path = pick([str(base), str(base) + '/.', str(base.parent/'archive')])
                Dialog.answer = path
                w.directory_button.click()
                require(w.directory_label.value == path, f'directory at {where}')
            # invariants
            got = [w.center.value, w.release.value, w.product.value]
            require(got == [S['center'], S['release'], S['product']], f'dataset at {where}: {got}')
            if S['touched'] and S['center'] != defaults[0]:
                S['moved'] = True
            if S.get('moved'):
                require(list(w.release.options) == releases(S['center']), f'releases at {where}')
            if S['listed']:
                require(list(w.product.options) == products(S['center'], S['release']), f'products at {where}')
            opts = months[S['center'], S['release'], S['product']]
            require(list(w.months.options) == opts, f'available months at {where}')
            require(sorted(w.months.value) == sorted(opts if S['months'] is None else S['months']),
                f'selected months at {where}')
            require(os.path.realpath(w.base_directory) == os.path.realpath(base), f'directory at {where}')
            if full:
                require(w.lmax.max == S['top'], f'maximum degree at {where}: {w.lmax.max} {S["top"]}')
                require(w.lmax.value == S['lmax'], f'degree at {where}')
                require(w.mmax.value <= w.mmax.max == w.lmax.value, f'order at {where}')
                if S['mmax'] is not None:
                    require(w.mmax.value == S['mmax'], f'order at {where}')
                else:
                    S['mmax'] = w.mmax.value
                default = S['release'] == 'RL05' and S['product'] == 'GSM'
                require(w.pole_tide.value == (default if S['pole'] is None else S['pole']), f'pole tide at {where}')
                require(w.atm.value == (S['release'] == 'RL05' if S['atm'] is None else S['atm']),
                    f'atmospheric jumps at {where}')
            if corr:
                require(w.unit_index == list(w.units.options).index(w.units.value) + 1, f'units at {where}')
                for attr, key in (('GIA_model', 'GIA'), ('landmask', 'mask')):
                    p = getattr(w, attr)
                    want = pathlib.Path(os.path.abspath(os.path.expanduser(S[key])))
                    require(isinstance(p, pathlib.Path) and p == want, f'{key} file at {where}')
                require(list(w.remove_files) == S['removed'], f'files to remove at {where}: {w.remove_files}')
                require(w.remove_label.value == ','.join(S['removed']), f'label of files at {where}')
    ctx.nontrivial(sum(a[0] in ('center', 'release', 'product') for a in case['actions']) > 1)
    ctx.label('stages %d' % case['stages'])


@st.composite
def s_color(draw):
    vmin = draw(st.integers(-200, 100))
    return dict(vmin=vmin, vmax=vmin + draw(st.integers(1, 400)), steps=draw(st.sampled_from([None, 1, 4, 7, 10])),
        moves=[[draw(st.sampled_from(['range', 'step', 'name', 'reverse'])), draw(st.integers(0, 10**6)),
            draw(st.integers(0, 10**6))] for _ in range(draw(st.integers(0, 6)))],
        extra=draw(st.booleans()))


def b_color(case, ctx):
    import matplotlib
    with desktop(False):
        kw = {} if case['steps'] is None else dict(steps=case['steps'])
        extra = {'More': ['rainbow', 'no such map']} if case['extra'] else {}
        if case['extra']:
            kw['cmaps_listed'] = extra
        a, b = case['vmin'], case['vmax']
        c = tools.colormap(vmin=a, vmax=b, **kw)
        step = (b - a)//(case['steps'] or 10)
        require(tuple(c.range.value) == (a, b) and (c.range.min, c.range.max) == (a, b), 'range')
        require(c.step.value == step and c.step.max == b - a, 'step')
        require(c.name.value == 'viridis' and c.reverse.value is False, 'default map')
        require(all(n in matplotlib.colormaps for n in c.name.options), 'names of the maps')
        require(('rainbow' in c.name.options) == case['extra'] and 'no such map' not in c.name.options, 'additional maps')
        for n in ('viridis', 'RdBu', 'seismic', 'Greys', 'twilight', 'hsv', 'gist_gray'):
            require(n in c.name.options, f'{n} is missing')
        lo, hi, s, name, rev = a, b, step, 'viridis', False
        for what, u, v in case['moves']:
            if what == 'range':
                lo, hi = sorted([a + u % (b - a + 1), a + v % (b - a + 1)])
                c.range.value = [lo, hi]
            elif what == 'step':
                s = u % (b - a + 1)
                c.step.value = s
            elif what == 'name':
                name = c.name.options[u % len(c.name.options)]
                c.name.value = name
            else:
                rev = bool(u % 2)
                c.reverse.value = rev
            cmap = c.value
            full = name + ('_r' if rev else '')
            require(cmap.name == full and cmap is not matplotlib.colormaps[name], 'map')
            x = np.linspace(0, 1, 7)
            close(cmap(x), matplotlib.colormaps[full](x), 'colours', rtol=0, atol=0)
            require((c.norm.vmin, c.norm.vmax) == (lo, hi), 'normalization')
            if s > 0:
                levels = list(c.levels)
                want = []
                k = lo
                while k < hi + s:
                    want.append(k)
                    k += s
                require(levels == want, f'levels {levels}')
                require(list(c.label) == [str(i) for i in want], 'labels')
    ctx.nontrivial(len(case['moves']) > 1)


CHECKS = [
    Check('widgets', s_widgets, b_widgets, 220, rule='at least two changes of the dataset'),
    Check('color', s_color, b_color, 150, rule='more than one change'),
]

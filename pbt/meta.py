"""Attributes of netCDF4 and HDF5 files, read by the libraries themselves"""
import time
import h5py
import netCDF4
import numpy as np
from pbt.core import require, same


def text(v):
    if isinstance(v, bytes):
        return v.decode('utf8')
    if isinstance(v, np.ndarray) and v.size == 1:
        return text(v.ravel()[0])
    return str(v)


def attributes(path, fmt):
    """({variable: {name: text}}, {name: text} of the file)"""
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path) as f:
            return ({k: {a: text(v.getncattr(a)) for a in v.ncattrs()}
                for k, v in f.variables.items()},
                {a: text(f.getncattr(a)) for a in f.ncattrs()})
    with h5py.File(path, 'r') as f:
        return ({k: {a: text(v) for a, v in f[k].attrs.items()
            if a not in ('DIMENSION_LIST', 'REFERENCE_LIST', 'DIMENSION_LABELS', 'CLASS',
            'NAME')} for k in f}, {a: text(v) for a, v in f.attrs.items()})


def today():
    return time.strftime('%Y-%m-%d', time.localtime())


def software(root, day, what):
    """name and version of the software, and the date of the file"""
    import gravity_toolkit.version as version
    same(root.get('software_reference'), version.project_name, f'{what}: software')
    same(root.get('software_version'), version.full_version, f'{what}: version')
    require(root.get('date_created') in (day, today()), f'{what}: date of the file is '
        f"{root.get('date_created')}")


def compare(got, want, what):
    """variables have exactly these attributes"""
    for k, w in want.items():
        w = {a: v for a, v in w.items() if v}
        g = {a: v for a, v in got.get(k, {}).items() if a != '_FillValue'}
        same(g, w, f'{what}: attributes of {k}')


def earth(lmax, love=None, ref=None, constants=True):
    """attributes of the Earth model, its load Love numbers and constants"""
    import gravity_toolkit as gravtk
    q = gravtk.load_love_numbers(lmax, LOVE_NUMBERS=love or 0,
        REFERENCE=(ref or 'CF').upper(), FORMAT='class')
    # the Earth model of each set of load Love numbers
    same(q.citation, ['Han and Wahr (1995)', 'Gegout et al. (2010)'][love or 0]
        if (love or 0) < 2 else 'Wang et al. (2012)', 'citation of the Love numbers')
    want = dict(earth_model=q.model, earth_love_numbers=q.citation,
        reference_frame=(ref or 'CF').upper())
    if constants:
        fac = gravtk.units(lmax=lmax)
        want.update(earth_radius=f'{fac.rad_e:0.3f} cm', earth_density=
            f'{fac.rho_e:0.3f} g/cm^3', earth_gravity_constant=f'{fac.GM:0.3f} cm^3/s^2')
    return want


def check(root, want, what):
    """attributes of a file, None for those that it does not have"""
    for k, w in want.items():
        same(words(root[k]) if isinstance(w, list) and k in root else root.get(k), w,
            f'{what}: attribute {k}')


def words(v):
    """parts of an attribute that may be a list"""
    import re
    return re.findall(r"'([^']*)'", v) or [v]


def provenance(root, case, g, program, parts=('mean', 'gia', 'remove', 'filter', 'rad', 'love')):
    """attributes of a file describe the analysis"""
    import gravity_toolkit as gravtk
    what = f'attributes of {program}: '
    text_ = {k: text(v) for k, v in root.items()}
    want = dict(generating_institute=case['proc'], product_release=g.rel,
        product_name=case['dset'], product_type='gravity_field', max_degree=str(g.lmax),
        max_order=str(g.mmax), pole_tide_correction='Wahr et al. (2015)' if case['pole'] else
        None, atmospheric_correction='Fagiolini et al. (2015)' if g.atm and case['jump'] else
        None)
    if 'love' in parts:
        want.update(earth(g.lmax, case['love'], case['ref']))
    if 'rad' in parts:
        want['smoothing_radius'] = f"{case['rad']:0.0f} km" if case['rad'] else None
    if 'filter' in parts:
        want['filtering'] = 'Destriped' if case['destripe'] else None
    for k, w in want.items():
        same(text_.get(k), w, what + k)
    # files of the analysis
    files = [n.rsplit('.', 1)[0] if '.' in n else n for n in (g.data[k][0] for k in g.months)]
    if g.atm and case['jump']:
        files += ['TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
            'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
            'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz']
    for k in ('mean', 'remove'):
        if k in parts:
            files += [str(f).rsplit('/', 1)[-1] for f in g.files.get(k, [])]
    same(sorted(words(text_['lineage'])), sorted(files), what + 'lineage')
    for k, (source, name) in g.notes.items():
        same(words(text_[k]), [source, name], what + k)
    slr = {k for k in text_ if k.startswith('SLR') or k == 'geocenter'}
    same(slr, set(g.notes), what + 'replaced terms')
    if 'gia' in parts:
        same(words(text_['GIA'])[1:] if 'GIA' in text_ else [],
            [p.name for p in g.files.get('gia', [])], what + 'GIA')
    same(text_.get('reference'), f'Output from {program}.py', what + 'reference')

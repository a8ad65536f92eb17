"""Generated Level-2 gravity field files"""
import datetime
import gzip
import numpy as np
from . import gen, oracle

# (centre field, mission field, remaining fields, data flag, YAML header)
STYLES = {
    'CSR6': ('{mis}_UTCSR_BA01_0600', 'GRCOF2', True),
    'GFZ6': ('{mis}_GFZOP_BA01_0600', 'GRCOF2', True),
    'JPL6': ('{mis}_JPLEM_BA01_0603', 'GRCOF2', True),
    'MSC6': ('{mis}_JPLMSC_CRI0_0602', 'GRCOF2', True),
    'CSR5': ('0030_UTCSR_0060_0005', 'GRCOF2', False),
    'GFZ5': ('0030_EIGEN_G---_005a', 'GRCOF2', False),
    'JPL5': ('0030_JPLEM_0001_0005', 'GRCOF2', False),
    'CSR4': ('0030_UTCSR_0060_0004', 'GRCOF2', False),
    'GFZ4': ('0030_EIGEN_G---_0004', 'GRCOF2', False),
    'JPL4': ('0030_JPLEM_0001_0004', 'GRCOF2', False),
    'CNES': ('0010_GRGS_C0003_0005', 'GRCOF2', False),
    'COSTG': ('{mis}_COSTG_BF01_0100', 'gfc', False),
    'DDK': ('{mis}_COSTG_BF01_0100', 'gfc', False),
}
CSRLIKE = ('CSR6', 'JPL6', 'MSC6', 'CSR5', 'JPL5', 'CSR4', 'JPL4')
GFZLIKE = ('GFZ6', 'GFZ5', 'GFZ4')


def doy(d):
    return (d - datetime.date(d.year, 1, 1)).days + 1


def filename(style, dset, a, b, mis='GRAC', comp=False):
    body = STYLES[style][0].format(mis=mis)
    pre = 'kfilter_DDK5_' if style == 'DDK' else ''
    sfx = '.gfc' if STYLES[style][1] == 'gfc' else ('.gz' if comp else '')
    return f'{pre}{dset}-2_{a.year}{doy(a):03d}-{b.year}{doy(b):03d}_{body}{sfx}'


def mid_year(a, b):
    """decimal year of the middle of the period (1-based days of the first year)"""
    dpy = 366 if oracle.is_leap(a.year) else 365
    return a.year + ((doy(a) + (b.year - a.year)*dpy + doy(b))/2)/dpy


def number(v, exp='E', digits=12):
    return f'{v: .{digits}E}'.replace('E', exp)


def content(style, terms, r, exp='E', drift=None, head=True):
    """text of a file; terms maps (l, m) to (C, S, eC, eS)"""
    flag, yaml = STYLES[style][1:]
    out = []
    if yaml:
        out += ['header:', '  dimensions:', '    degree: 60', '    order: 60',
            '  global_attributes:', '    title: "Solution: of a month"',
            '    institution: X', '  non-standard_attributes:',
            '    earth_gravity_param:', '      value: 3.9860044150E+14',
            '# End of YAML header']
    elif flag == 'gfc':
        out += ['comment line', 'begin_of_head ======', 'modelname      MODEL-X1',
            'earth_gravity_constant    3.986004415E+14', 'radius   6378136.3',
            'max_degree   60', 'errors    formal', 'norm fully_normalized',
            'tide_system     zero_tide', '', 'key    L    M    C   S', 'end_of_head ======']
    else:
        out += ['FIRST GRACE text  ', 'EARTH 0.3986004415E+15 0.6378136300E+07', '',
            'SHM   60   60 1.00']
    if not head:
        out = []
    rows = []
    for (l, m), v in terms.items():
        row = f'{flag}{l:6d} {m:5d} ' + ' '.join(number(x, exp) for x in v)
        if flag == 'GRCOF2':
            row += ' 20020405.0000 20020501.0000 yynn'
        rows.append(row)
    for (l, m), v in (drift or {}).items():
        rows.insert(int(r.integers(0, len(rows) + 1)), f'GRDOTA{l:6d} {m:5d} '
            + ' '.join(number(x, exp) for x in v) + ' 0.0 0.0 19970101')
    return '\n'.join(out + rows) + '\n'


def write(path, text, comp=False):
    data = text.encode('ISO-8859-1')
    if comp:
        with gzip.open(path, 'wb') as f:
            f.write(data)
    else:
        path.write_bytes(data)


def terms(seed, lmax, mmax, keep=1.0, scale=1e-9, shuffle=False, errors=True):
    r = gen.rng(seed, lmax, mmax, 6)
    pairs = [(l, m) for m in range(mmax + 1) for l in range(m, lmax + 1)]
    if keep < 1:
        pairs = [p for p in pairs if r.random() < keep]
    if shuffle:
        pairs = [pairs[i] for i in r.permutation(len(pairs))]
    out = {}
    for l, m in pairs:
        v = r.standard_normal(4)*scale
        v[2:] = np.abs(v[2:])*1e-3
        if m == 0:
            v[1] = v[3] = 0.0
        # values as they are written
        out[l, m] = tuple(float(number(x)) for x in v)
    return out

"""Generated archives of the atmospheric and oceanic dealiasing product"""
import datetime
import functools
import gzip
import io
import tarfile
import numpy as np
from . import gen
from .l2 import number

LOW = 8
TYPES = ['atm', 'ocn', 'glo', 'oba']
GRACE = dict(atm='GAA', ocn='GAB', glo='GAC', oba='GAD')


def shape(rel):
    """degree of the release and hours of the day with fields"""
    return (180, list(range(0, 24, 3))) if rel == 'RL06' else (100, list(range(0, 24, 6)))


@functools.lru_cache(maxsize=4)
def tail(lmax, k):
    """lines and coefficients of the degrees which are the same in all files"""
    r = gen.rng(811, lmax, k)
    C, S = np.zeros((lmax + 1, lmax + 1)), np.zeros((lmax + 1, lmax + 1))
    lines = []
    for l in range(LOW + 1, lmax + 1):
        for m in range(l + 1):
            c, s = [float(number(v, digits=9)) for v in r.standard_normal(2)*1e-11]
            C[l, m], S[l, m] = c, (s if m else 0.0)
            lines.append(f'{l:3d}  {m:3d} {number(C[l, m], digits=9)} '
                f'{number(S[l, m], digits=9)}\n')
    return ''.join(lines).encode(), C, S


def low(seed, day, hour, kind):
    r = gen.rng(seed, day, hour, TYPES.index(kind))
    v = r.standard_normal((2, LOW + 1, LOW + 1))*1e-10
    tri = gen.tri_mask(LOW)
    C, S = [np.where(tri, x, 0.0) for x in v]
    S[:, 0] = 0
    return [np.vectorize(lambda x: float(number(x, digits=9)))(x) for x in (C, S)]


def fields(seed, date, hour, kind, rel):
    """coefficients of one time"""
    lmax, _ = shape(rel)
    _, C, S = tail(lmax, TYPES.index(kind) % 2)
    C, S = C.copy(), S.copy()
    c, s = low(seed, date.toordinal(), hour, kind)
    C[:LOW + 1, :LOW + 1], S[:LOW + 1, :LOW + 1] = c, s
    return C, S


def day_file(seed, date, kinds, rel):
    """contents of the file of a day"""
    lmax, hours = shape(rel)
    n = (lmax + 1)*(lmax + 2)//2
    out = [f'PRODUCER AGENCY               : GFZ\nFILENAME                      : '
        f'AOD1B_{date.isoformat()}_X_05.asc\nDATA FORMAT (N,M,C,S)         : (2(I3,X),E15.9)\n'
        f'TIME FIRST OBS(SEC PAST EPOCH): 75556800.0 ({date.isoformat()} 00:00:00)\n'
        f'NUMBER OF DATA SETS           : {len(hours)*len(kinds)}\n'
        'END OF HEADER\n'.encode()]
    k = 0
    for h in hours:
        for kind in kinds:
            k += 1
            out.append(f'DATA SET {k:2d}:   {n} COEFFICIENTS FOR {date.isoformat()} '
                f'{h:02d}:00:00 OF TYPE {kind}\n'.encode())
            C, S = low(seed, date.toordinal(), h, kind)
            out.append(''.join(f'{l:3d}  {m:3d} {number(C[l, m], digits=9)} '
                f'{number(S[l, m], digits=9)}\n' for l in range(LOW + 1)
                for m in range(l + 1)).encode())
            out.append(tail(lmax, TYPES.index(kind) % 2)[0])
    return b''.join(out)


def archive(path, seed, dates, kinds, rel, comp, mtime):
    """archive with the files of the days in the listed order"""
    with tarfile.open(path, 'w:gz', compresslevel=1) as tar:
        for date in dates:
            data = day_file(seed, date, kinds, rel)
            name = f'AOD1B_{date.isoformat()}_X_05.asc'
            if comp:
                buf = io.BytesIO()
                with gzip.GzipFile(fileobj=buf, mode='wb', compresslevel=1) as f:
                    f.write(data)
                data, name = buf.getvalue(), name + '.gz'
            info = tarfile.TarInfo(name)
            info.size = len(data)
            info.mtime = mtime(date) if callable(mtime) else mtime
            tar.addfile(info, io.BytesIO(data))


def months_of(dates):
    out = {}
    for d in dates:
        out.setdefault((d.year, d.month), []).append(d)
    return out


def span(a, n):
    return [a + datetime.timedelta(i) for i in range(n)]

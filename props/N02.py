"""Programs that synchronize local archives with remote servers"""
import contextlib
import datetime
import gzip
import hashlib
import html
import io
import json
import os
import posixpath
import re
import stat
import struct
import tarfile
import time
import urllib.parse
import boto3
from hypothesis import strategies as st
from pbt import gen, net, prog
from pbt.core import Check, Violation, fail, require, same

ASSUMPTIONS = ['servers are loopback servers that speak HTTP/1.0 and FTP (passive mode); '
    'TLS itself is replaced by plain connections and the S3 client by a stand-in',
    'local copies are compared by modification time in steps of two seconds, or by checksum',
    'names of remote files have the documented forms']

DAY = 86400


def stamp(t, f='%Y%m%d%H%M%S'):
    return time.strftime(f, time.gmtime(t))


def even(t):
    return 2*int(t//2)


def body(r, n=300):
    return r.integers(0, 256, int(r.integers(1, n))).astype('u1').tobytes()


def snapshot(top):
    """contents, modification time and permissions of the files of a directory"""
    return {str(p.relative_to(top)): (p.read_bytes(), int(p.stat().st_mtime),
        stat.S_IMODE(p.stat().st_mode)) for p in sorted(top.rglob('*')) if p.is_file()}


class Mirror:
    """remote files with their local names, and the previous state of the archive"""

    def __init__(self, case, top):
        self.case, self.top = case, top
        self.r = gen.rng(case['seed'], 1)
        self.files = {}      # local name -> (contents, time)
        self.other = {}      # local files without a remote file

    def add(self, local, contents, mtime):
        self.files[local] = (contents, mtime)

    def previous(self):
        """write the local files of an earlier synchronization"""
        r = self.r
        for local, (b, t) in self.files.items():
            how = r.choice(['none', 'none', 'same', 'older', 'newer', 'close', 'changed'])
            if not self.case['again']:
                how = 'none'
            if how == 'none':
                continue
            p = self.top/local
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b if how in ('same', 'close') or r.random() < .3 else body(r))
            os.utime(p, (t, t + {'same': 0, 'older': -int(r.integers(2, 10**6)),
                'newer': int(r.integers(2, 10**6)), 'close': int(r.integers(-1, 2)),
                'changed': 0}[how]))
            p.chmod(0o640)
        for local, b in self.other.items():
            p = self.top/local
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b)
            os.utime(p, (1.1e9, 1.1e9))
            p.chmod(0o640)

    def wanted(self, before, clobber=False, checksum=False, listing=False):
        """expected files after the synchronization, and the transferred ones"""
        out, moved = dict(before), set()
        for local, (b, t) in self.files.items():
            old = before.get(local)
            if old is None:
                get = True
            elif checksum:
                get = old[0] != b
            else:
                get = even(t) > even(old[1])
            if (get or clobber) and not listing:
                out[local] = (b, t, self.mode)
                moved.add(local)
        return out, moved

    @property
    def mode(self):
        return self.case['mode'] or 0o775


def index(names):
    return ''.join(f'{n}\n' for n in sorted(names)).encode()


def matches(got, want, indices, mode, logs, what):
    """the archive has the expected files"""
    found = {k: v for k, v in got.items() if not re.fullmatch(logs, k)}
    require(set(found) == set(want) | set(indices),
        lambda: f'{what}: files differ by {sorted(set(found) ^ (set(want) | set(indices)))[:6]}')
    for k, (b, t, m) in want.items():
        g = found[k]
        require(g[0] == b, lambda: f'{what}: contents of {k}')
        require(g[1] == t, lambda: f'{what}: modification time of {k} is {g[1]}, expected {t}')
        require(g[2] == m, lambda: f'{what}: permissions of {k} are {g[2]:o}, expected {m:o}')
    for k, names in indices.items():
        require(found[k][0] == index(names), lambda: f'{what}: {k} lists '
            f'{sorted(set(found[k][0].decode().split()) ^ set(names))[:6]} or another order')
        same(found[k][2], mode, f'{what}: permissions of {k}')


def options(case, **extra):
    out = []
    for k in ('clobber', 'checksum', 'list', 'log'):
        if case.get(k):
            out.append('--' + k)
    if case['mode']:
        out += ['--mode', f"{case['mode']:o}"]
    return out


@st.composite
def common(draw, **kw):
    return dict(seed=draw(gen.seeds), again=draw(st.booleans()), clobber=draw(st.integers(0, 4)) == 0,
        log=draw(st.booleans()), mode=draw(st.sampled_from([None, 0o775, 0o640, 0o700])),
        cut=draw(st.integers(0, 5)) == 0, **kw)


def interrupted(site, run, top, case, cut):
    """a transfer that ends early is reported and made up for by the next run"""
    keys = sorted(k for k in cut if len(cut[k]['body']) > 1)
    if not keys:
        return False
    r = gen.rng(case['seed'], 9)
    for k in (keys if r.random() < .3 else [keys[int(r.integers(len(keys)))]]):
        cut[k]['truncate'] = int(r.integers(0, len(cut[k]['body'])))
    with net.served(site):
        with contextlib.suppress(Exception):
            run()
    for k in keys:
        cut[k].pop('truncate', None)
    return True


def transfers(site):
    """number of files asked for"""
    return sum(1 for c, _ in site.commands if c == 'RETR') + len(site.requests)


# ------------------------------------------------------------ spans and names
def span(r):
    a = datetime.date(2002, 4, 4) + datetime.timedelta(int(r.integers(0, 7000)))
    b = a + datetime.timedelta(int(r.integers(5, 40)))
    f = lambda d: f'{d.year}{(d - datetime.date(d.year, 1, 1)).days + 1:03d}'
    return f'{f(a)}-{f(b)}'


def when(r):
    return int(r.integers(10**9, 1.7*10**9))


# ---------------------------------------------------------------- COST-G (FTP)
@st.composite
def s_costg(draw):
    return dict(draw(common()), list=draw(st.integers(0, 4)) == 0, checksum=draw(st.booleans()),
        missions=draw(st.lists(st.sampled_from(['Grace', 'Grace-FO', 'Swarm']), min_size=1,
        max_size=3, unique=True)), n=draw(st.sampled_from([0, 1, 2, 3, 5])), junk=draw(st.booleans()))


def ftp_site(site, path, files):
    """directory of an FTP server"""
    site.dirs.setdefault(path, [])
    for name, (b, t) in files.items():
        site.dirs[path].append(name)
        if b is not None:
            site.ftp[posixpath.join(path, name)] = dict(body=b, mdtm=stamp(t))


def b_costg(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    local = {'Grace': 'COSTG', 'Grace-FO': 'COSTG', 'Swarm': 'Swarm'}
    root = '/02_COST-G'
    where = {}

    def name(mission, ds):
        v = int(r.integers(0, 4))
        if mission == 'Swarm' and ds == 'GSM':
            a = datetime.date(2014, 1, 1) + datetime.timedelta(int(r.integers(0, 3000)))
            return (f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T000000_{a:%Y%m%d}T235959_01{v:02d}'
                + r.choice(['.gfc', '.ZIP']))
        if mission == 'Swarm':
            return (f'{ds}_Swarm_{r.choice([40, 60])}_{int(r.integers(1, 13)):02d}_'
                f'{int(r.integers(2014, 2024))}' + r.choice(['.gfc', '.ZIP']))
        s = {'Grace': 'GRAC', 'Grace-FO': 'GRFO'}[mission]
        return f'{ds}-2_{span(r)}_{s}_COSTG_{"BF01" if ds == "GSM" else "BC01"}_01{v:02d}.gfc'
    for mission in ('Grace', 'Grace-FO', 'Swarm'):
        for ds in {'Grace': ['GAC', 'GSM'], 'Grace-FO': ['GSM'],
                'Swarm': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']}[mission]:
            if ds == 'GSM':
                path = {'Swarm': f'{root}/Swarm/40x40', 'Grace': f'{root}/Grace/unfiltered',
                    'Grace-FO': f'{root}/Grace-FO'}[mission]
            elif mission == 'Swarm':
                path = f'{root}/Swarm/GAX_products/{ds}'
            else:
                path = f'{root}/{mission}/GAX_products'
            files = {name(mission, ds): (body(r), when(r)) for _ in range(case['n'])}
            ftp_site(site, path, files)
            if case['junk']:
                # directories and other files of the server
                ftp_site(site, path, {'GAX_products': (None, 0), 'readme.txt': (body(r), when(r)),
                    'GAB-2.md5': (body(r), when(r))})
            if mission in case['missions']:
                d = f'{local[mission]}/RL01/{ds}'
                where.setdefault(d, set())
                for k, (b, t) in files.items():
                    m.add(f'{d}/{k}', b, t)
                if case['again'] and r.random() < .5:
                    # solution that was removed from the server
                    k = name(mission, ds)
                    if f'{d}/{k}' not in m.files:
                        m.other[f'{d}/{k}'] = body(r)
                    m.other[f'{d}/notes.md'] = b'x'
    m.previous()
    args = ['--directory', m.top, '--mission', *case['missions'], *options(case)]
    run = lambda: prog.run('gfz_icgem_costg_ftp', *args, cwd=ctx.tmp, bare=True)
    finish(case, ctx, site, m, run, site.ftp, where, lambda f: not f.endswith(('.md', '.txt')),
        r'GFZ_ICGEM_COST-G_sync_.*\.log', checksum=case['checksum'], listing=case['list'])


def finish(case, ctx, site, m, run, pages, where, keep, logs, **kw):
    """run a program, and run it again"""
    mode = m.mode
    before = snapshot(m.top) if m.top.exists() else {}
    if case['cut'] and not kw.get('listing') and not case['clobber']:
        want, moved = m.wanted(before, clobber=case['clobber'], **kw)
        if interrupted(site, run, m.top, case, pages):
            ctx.label('interrupted')
    else:
        want, moved = m.wanted(before, clobber=case['clobber'], **kw)
    want = {k: v for k, v in want.items() if not k.endswith('index.txt')}

    def indices():
        names = {d: [posixpath.basename(k) for k in want if posixpath.dirname(k) == d
            and keep(posixpath.basename(k))] for d in where}
        return {f'{d}/index.txt': v for d, v in names.items()}
    with net.served(site):
        run()
    got = snapshot(m.top)
    matches(got, want, indices(), mode, logs, 'first run')
    if case['log']:
        require(any(re.fullmatch(logs, k) and v[2] == mode for k, v in got.items()),
            'log file with the permissions')
    # nothing is transferred when nothing changed
    if not case['clobber'] and not kw.get('listing'):
        with net.served(site):
            run()
        matches(snapshot(m.top), want, indices(), mode, logs, 'second run')
    ctx.nontrivial(len(moved) > 1)
    ctx.label('list' if kw.get('listing') else 'transfer')


# --------------------------------------------------------- GFZ ISDC level-2 (FTP)
PRODUCTS = {'CSR': ['GAC', 'GAD', 'GSM'], 'GFZ': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM'],
    'JPL': ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']}
AGENCY = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')
SHORT = {'grace': 'GRAC', 'grace-fo': 'GRFO'}


@st.composite
def s_isdc(draw):
    return dict(draw(common()), list=draw(st.integers(0, 5)) == 0, checksum=draw(st.booleans()),
        centers=draw(st.lists(st.sampled_from(['CSR', 'GFZ', 'JPL']), min_size=1, max_size=3,
        unique=True)), releases=draw(st.sampled_from([['RL06'], ['RL06'], ['RL05'],
        ['RL05', 'RL06'], ['RL04']])), version=draw(st.sampled_from([None, ['0', '3'], ['1', '2'],
        ['0', '0']])), newsletters=draw(st.booleans()), n=draw(st.sampled_from([0, 1, 2, 3])),
        double=draw(st.booleans()), empty=draw(st.booleans()))


def solution(r, mission, proc, rl, ds, dates, v):
    """names of the files of a solution: those for the index and others"""
    s = SHORT[mission]
    c = AGENCY[proc]
    if rl == 'RL06':
        if ds == 'GSM':
            return [f'GSM-2_{dates}_{s}_{c}_BA01_06{v:02d}.gz'], \
                [f'GSM-2_{dates}_{s}_{c}_BB01_06{v:02d}.gz']
        return [f'{ds}-2_{dates}_{s}_{c}_BC01_06{v:02d}.gz'], []
    k = int(rl[-1])
    n = int(r.integers(10, 32))
    if proc == 'CSR':
        return [f'{ds}-2_{dates}_{n:04d}_UTCSR_{"0060" if ds == "GSM" else "0000"}_{k:04d}.gz'], \
            ([f'GSM-2_{dates}_{n:04d}_UTCSR_0096_{k:04d}.gz'] if ds == 'GSM' else [])
    if proc == 'GFZ':
        if ds == 'GSM':
            return [f'GSM-2_{dates}_{n:04d}_EIGEN_G---_{"005a" if k == 5 else "0004"}.gz'], []
        return [f'{ds}-2_{dates}_{n:04d}_EIGEN_G---_{k:04d}.gz'], []
    return [f'{ds}-2_{dates}_{n:04d}_JPLEM_0001_{k:04d}.gz'], []


def b_isdc(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    notes = {'grace-fo': {}, 'grace': {}}
    put = lambda mi, name, local: (notes[mi].update({name: (body(r), when(r))}),
        m.add(local, *notes[mi][name]))
    for c in ('CSR', 'GFZ', 'JPL'):
        put('grace-fo', f'TN-13_GEOC_{c}_RL06.txt', f'geocenter/TN-13_GEOC_{c}_RL06.txt')
    for k, rl in ((5, 'RL04'), (7, 'RL05'), (11, 'RL06')):
        put('grace', f'TN-{k:02d}_C20_SLR_{rl}.txt', f'TN-{k:02d}_C20_SLR.txt')
    put('grace-fo', 'TN-14_C30_C20_SLR_GSFC.txt', 'TN-14_C30_C20_GSFC_SLR.txt')
    for k in ('TN-08_GAE-2_2006032-2010031', 'TN-09_GAF-2_2010032-2015131',
            'TN-10_GAG-2_2015132-2099001'):
        put('grace', f'{k}_0000_EIGEN_G---_0005.gz', f'{k}_0000_EIGEN_G---_0005.gz')
    for mi in notes:
        notes[mi]['TN-03_notes.pdf'] = (body(r), when(r))
        notes[mi]['TN-14_C30_C20_SLR_GSFC.txt.md5'] = (body(r), when(r))
        ftp_site(site, f'/{mi}/DOCUMENTS/TECHNICAL_NOTES', notes[mi])
        years = [str(y) for y in ((2002, 2010) if mi == 'grace' else (2018,))]
        ftp_site(site, f'/{mi}/DOCUMENTS/NEWSLETTER', {y: (None, 0) for y in years})
        for y in years:
            name = mi.upper().replace('-', '_')
            files = {f'{name}_SDS_NL_{int(r.integers(1, 10**4)):04d}.pdf': (body(r), when(r))
                for _ in range(case['n'])}
            ftp_site(site, f'/{mi}/DOCUMENTS/NEWSLETTER/{y}', {**files,
                'index.html': (body(r), when(r))})
            if case['newsletters']:
                for f, v in files.items():
                    m.add(f'newsletters/{f}', *v)
    version = case['version'] or ['0', '1']
    where, listed = {}, {}
    for proc in ('CSR', 'GFZ', 'JPL'):
        for rl in ('RL04', 'RL05', 'RL06'):
            for i, mi in enumerate(('grace', 'grace-fo')):
                if rl != 'RL06' and mi == 'grace-fo':
                    continue
                d = rl if int(version[i]) == 0 or rl != 'RL06' else f'{rl}.{version[i]}'
                if rl != 'RL06' and int(version[0]):
                    d = f'{rl}.{version[0]}'
                path = f'/{mi}/Level-2/{proc}/{d}'
                site.dirs.setdefault(path, [])
                for ds in PRODUCTS[proc]:
                    target = f'{proc}/{rl}/{ds}'
                    mine = proc in case['centers'] and rl in case['releases']
                    if mine:
                        where.setdefault(target, set())
                        listed.setdefault(target, [])
                    dates = set()
                    for _ in range(case['n']):
                        dt = span(r)
                        if dt in dates:
                            continue
                        dates.add(dt)
                        v = int(r.integers(0, 3))
                        good, odd = solution(r, mi, proc, rl, ds, dt, v)
                        files = {f: (body(r), when(r)) for f in good + odd}
                        if case['double'] and rl == 'RL06' and r.random() < .5:
                            # newer version of the same solution
                            good, _odd = solution(r, mi, proc, rl, ds, dt, v + 1)
                            files.update({f: (body(r), when(r)) for f in good})
                        ftp_site(site, path, files)
                        if mine:
                            for f, x in files.items():
                                m.add(f'{target}/{f}', *x)
                            listed[target] += good
                ftp_site(site, path, {'readme.pdf': (body(r), when(r))})
    m.previous()
    args = ['--directory', m.top, '--center', *case['centers'], '--release', *case['releases'],
        *(['--version', *case['version']] if case['version'] else []),
        *(['--newsletters'] if case['newsletters'] else []), *options(case)]
    run = lambda: prog.run('gfz_isdc_grace_ftp', *args, cwd=ctx.tmp, bare=True)
    kw = dict(checksum=case['checksum'], listing=case['list'])
    if case['list']:
        # only local files are listed
        before = snapshot(m.top) if m.top.exists() else {}
        newest(listed, before)
    finish_listed(case, ctx, site, m, run, listed, r'GFZ_ISDC_sync_.*\.log', **kw)


def newest(listed, before):
    """reduce the listed solutions to the local ones"""
    for d, names in listed.items():
        have = [posixpath.basename(k) for k in before if posixpath.dirname(k) == d]
        best = {}
        for f in have:
            if '_BB01_' in f or '_UTCSR_0096_' in f:
                continue
            key = (f[:21], 'GRFO' if 'GRFO' in f else 'GRAC')
            best[key] = max(best.get(key, ''), f)
        listed[d] = list(best.values())


def finish_listed(case, ctx, site, m, run, listed, logs, **kw):
    before = snapshot(m.top) if m.top.exists() else {}
    want, moved = m.wanted(before, clobber=case['clobber'], **kw)
    if case['cut'] and not kw.get('listing') and not case['clobber']:
        if interrupted(site, run, m.top, case, site.ftp):
            ctx.label('interrupted')
    ind = {f'{d}/index.txt': v for d, v in listed.items()}
    with net.served(site):
        run()
    got = snapshot(m.top)
    matches(got, want, ind, m.mode, logs, 'first run')
    if case['log']:
        require(any(re.fullmatch(logs, k) and v[2] == m.mode for k, v in got.items()),
            'log file with the permissions')
    if not case['clobber'] and not kw.get('listing'):
        with net.served(site):
            run()
        matches(snapshot(m.top), want, ind, m.mode, logs, 'second run')
    ctx.nontrivial(len(moved) > 1)
    ctx.label(*case['releases'])


# ------------------------------------------------------ AOD1B dealiasing (FTP)
@st.composite
def s_aod(draw):
    return dict(draw(common()), releases=draw(st.sampled_from([['RL06'], ['RL05'], ['RL04', 'RL05'],
        ['RL06', 'RL05']])), years=draw(st.sampled_from([None, [2005], [2005, 2007], [2006]])),
        months=draw(st.sampled_from([None, [1], [2, 11], [12]])), tar=draw(st.booleans()),
        n=draw(st.integers(0, 8)))


def b_aod(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    months = case['months'] or list(range(1, 13))
    suffix = dict(RL04='tar.gz', RL05='tar.gz', RL06='tgz')
    tars = {}
    for rl in ('RL04', 'RL05', 'RL06'):
        root = f'/grace/Level-1B/GFZ/AOD/{rl}'
        years = [2005, 2006, 2007]
        ftp_site(site, root, {**{str(y): (None, 0) for y in years}, 'readme': (body(r), when(r))})
        for y in years:
            files = {}
            for _ in range(case['n']):
                mo = int(r.choice([1, 2, 11, 12, int(r.integers(1, 13))]))
                f = f'AOD1B_{y}-{mo:02d}-{int(r.integers(1, 29)):02d}_X_{rl[2:]}.asc.gz'
                files[f] = (body(r), when(r))
                if rl in case['releases'] and mo in months and (not case['years']
                        or y in case['years']):
                    if case['tar']:
                        tars.setdefault(f'AOD1B/{rl}/AOD1B_{y}-{mo:02d}_{rl[2:]}.{suffix[rl]}',
                            {})[f] = files[f]
                    else:
                        m.add(f'AOD1B/{rl}/{f}', *files[f])
            ftp_site(site, f'{root}/{y}', {**files, f'AOD1B_{y}-01-01_X_{rl[2:]}.asc.gz.md5':
                (body(r), when(r))})
    previous = {}
    for k in sorted(tars):
        if case['again'] and r.random() < .4:
            m.other[k] = previous[k] = b'previous'
    m.previous()
    args = ['--directory', m.top, '--release', *case['releases'],
        *(['--year', *case['years']] if case['years'] else []),
        *(['--month', *case['months']] if case['months'] else []),
        *(['--tar'] if case['tar'] else []), *options(case)]
    run = lambda: prog.run('gfz_isdc_dealiasing_ftp', *args, cwd=ctx.tmp, bare=True)
    before = snapshot(m.top) if m.top.exists() else {}
    want, moved = m.wanted(before, clobber=case['clobber'])
    if case['cut'] and not case['clobber']:
        if interrupted(site, run, m.top, case, site.ftp):
            ctx.label('interrupted')
    logs = r'GFZ_AOD1B_sync_.*\.log'
    for attempt in range(1 if case['clobber'] else 2):
        what = 'first run' if attempt == 0 else 'second run'
        with net.served(site):
            run()
        got = snapshot(m.top)
        found = {k: v for k, v in got.items() if k in tars}
        same(sorted(found), sorted(tars), f'{what}: monthly archives')
        for k, members in tars.items():
            if k in previous and not case['clobber']:
                require(found[k][0] == b'previous', f'{what}: {k} is kept')
                continue
            same(found[k][2], m.mode, f'{what}: permissions of {k}')
            with tarfile.open(m.top/k, 'r:gz') as tar:
                names = tar.getnames()
                same(names, sorted(members), f'{what}: members of {k}')
                for f, (b, t) in members.items():
                    require(tar.extractfile(f).read() == b, f'{what}: contents of {f} in {k}')
                    same(tar.getmember(f).mtime, t, f'{what}: modification time of {f} in {k}')
        matches({k: v for k, v in got.items() if k not in tars}, {k: v for k, v in want.items()
            if k not in tars}, {}, m.mode, logs, what)
        if case['log']:
            require(any(re.fullmatch(logs, k) and v[2] == m.mode for k, v in got.items()),
                f'{what}: log file with the permissions')
    ctx.nontrivial(len(tars) + len(moved) > 1)
    ctx.label('tar' if case['tar'] else 'files', *case['releases'])


# ----------------------------------------------------------------- GRAZ (HTTP)
def listing(rows, f='%Y-%m-%d %H:%M'):
    """directory page of a web server"""
    text = '<tr><th><a href="?C=N;O=D">Name</a></th></tr>'
    for n, t in rows:
        text += ('<tr><td valign="top"><img src="/i.gif" alt="[TXT]"></td><td>'
            f'<a href="{n}">{html.escape(n)}</a></td><td align="right">'
            + ('  - ' if t is None else stamp(t, f) + '  ')
            + '</td><td align="right">1.2K</td></tr>')
    return dict(body=('<html><body><table>' + text + '</table></body></html>').encode())


@st.composite
def s_graz(draw):
    return dict(draw(common()), list=draw(st.integers(0, 4)) == 0, releases=draw(st.one_of(
        st.none(), st.lists(st.sampled_from(['Grace2014', 'Grace2016', 'Grace2018',
        'Grace_operational']), min_size=1, max_size=3, unique=True))),
        lmax=draw(st.sampled_from([None, 60, 96, 120])), n=draw(st.sampled_from([0, 1, 3, 5, 8])))


def b_graz(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    year = {'Grace2014': '2014', 'Grace2016': '2016', 'Grace2018': '2018',
        'Grace_operational': '2018'}
    models = {'atmosphere': 'GAA', 'ocean': 'GAB', 'dealiasing': 'GAC',
        'oceanBottomPressure': 'GAD'}
    asked = case['releases'] or ['Grace2018', 'Grace_operational']
    lmax = case['lmax'] or 60
    where = {}
    used = set()
    for rel in year:
        root = f'/outgoing/ITSG/GRACE/ITSG-{rel}/monthly'
        bg = 'background' if rel == 'Grace2014' else 'monthly_background'
        rows = [('/up/', None)]
        lo = 2018 if rel == 'Grace_operational' else 2002
        for _ in range(case['n']):
            prd = str(r.choice(list(models)))
            head = 'AOD1B_RL06' if r.random() < .3 and prd in ('atmosphere', 'ocean') else 'model'
            f = (f'{head}_{prd}' + (f'_n{r.choice([120, 180])}' if r.random() < .8 else '')
                + f'_{lo + int(r.integers(0, 8))}-{int(r.integers(1, 13)):02d}.gfc')
            if f in used:
                continue
            used.add(f)
            t = when(r)//60*60
            b = body(r)
            rows.append((f, t))
            site.http[f'{root}/{bg}/{f}'] = dict(body=b)
            if rel in asked:
                d = f'GRAZ/{year[rel]}/{models[prd]}'
                where.setdefault(d, set())
                m.add(f'{d}/{f}', b, t)
        r.shuffle(rows)
        site.http[f'{root}/{bg}'] = listing([(str(a), None if b is None else int(b))
            for a, b in rows] + [('readme.txt', when(r))])
        for n in (60, 96, 120):
            rows = [('/up/', None)]
            for _ in range(case['n']):
                f = f'ITSG-{rel}_n{n}_{lo + int(r.integers(0, 8))}-{int(r.integers(1, 13)):02d}.gfc'
                if f in used:
                    continue
                used.add(f)
                t = when(r)//60*60
                b = body(r)
                rows.append((f, t))
                site.http[f'{root}/monthly_n{n}/{f}'] = dict(body=b)
                if rel in asked and n == lmax:
                    m.add(f'GRAZ/{year[rel]}/GSM/{f}', b, t)
            site.http[f'{root}/monthly_n{n}'] = listing(rows + [('readme.txt', when(r))])
    for rel in asked:
        where.setdefault(f'GRAZ/{year[rel]}/GSM', set())
    site.http[''] = site.http['/'] = dict(body=b'')
    if case['again']:
        for d in where:
            # solutions that were removed from the server and other files
            m.other[f'{d}/notes.md'] = b'x'
            if d.endswith('GSM'):
                m.other[f'{d}/ITSG-Grace2018_n60_2001-01.gfc'] = body(r)
    m.previous()
    args = ['--directory', m.top, *(['--release', *case['releases']] if case['releases'] else []),
        *(['--lmax', case['lmax']] if case['lmax'] else []), *options(case)]
    run = lambda: prog.run('itsg_graz_grace_sync', *args, cwd=ctx.tmp, bare=True)
    pages = {k: v for k, v in site.http.items() if k.endswith('.gfc')}
    finish(case, ctx, site, m, run, pages, where, lambda f: f.endswith('.gfc'),
        r'ITSG_GRAZ_GRACE_sync_.*\.log', listing=case['list'])


# ---------------------------------------------------------------- Swarm (HTTP)
@st.composite
def s_swarm(draw):
    return dict(draw(common()), list=draw(st.integers(0, 4)) == 0, checksum=draw(st.booleans()),
        n=draw(st.one_of(st.integers(0, 8), st.sampled_from([499, 500, 501]))),
        others=draw(st.sampled_from([0, 0, 3, 494])))


def b_swarm(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    table = []
    contents = {}
    d0 = datetime.date(2013, 12, 1)
    many = case['n'] > 20
    for i in range(case['n']):
        a = d0 + datetime.timedelta(i)
        f = f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T000000_{a:%Y%m%d}T235959_0101' \
            + ('.ZIP' if r.random() < .5 else '.gfc')
        b, t = body(r, 20 if many else 300), when(r)
        table.append(dict(name=f, mtime=t, size=len(b)))
        contents[f] = dict(body=b)
        if not many or i % 100 == 99 or i > 497:
            m.add(f'Swarm/RL01/GSM/{f}', b, t)
    # most files of a long list are up to date
    for i in range(case['others']):
        table.insert(int(r.integers(0, len(table) + 1)), dict(name=f'SW_doc_{i}.txt',
            mtime=when(r), size=1))
    if many:
        for v in table:
            k = f"Swarm/RL01/GSM/{v['name']}"
            if v['name'] in contents and k not in m.files:
                p = m.top/k
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(contents[v['name']]['body'])
                os.utime(p, (v['mtime'], v['mtime']))
                p.chmod(0o640)

    def handler(method, path, heads):
        q = urllib.parse.parse_qs(urllib.parse.urlsplit(path).query)
        if q.get('do') == ['list']:
            if q['file'] != ['swarm/Level2longterm/EGF']:
                return None
            pos, n = int(q['pos'][0]), int(q['maxfiles'][0])
            return dict(body=json.dumps(dict(results=table[pos:pos + n])).encode())
        if q.get('do') == ['download']:
            head, f = posixpath.split(q['file'][0])
            if head == 'swarm/Level2longterm/EGF' and f in contents:
                return contents[f]
            return None
        return dict(body=b'')
    site.handler = handler
    m.previous()
    clobber = case['clobber'] and not many
    case = dict(case, clobber=clobber)
    args = ['--directory', m.top, *options(case)]
    run = lambda: prog.run('esa_costg_swarm_sync', *args, cwd=ctx.tmp, bare=True)
    before = snapshot(m.top) if m.top.exists() else {}
    kw = dict(checksum=case['checksum'], listing=case['list'])
    want, moved = m.wanted(before, clobber=clobber, **kw)
    pages = {posixpath.basename(k): contents[posixpath.basename(k)] for k in m.files}
    if case['cut'] and not case['list'] and not clobber:
        if interrupted(site, run, m.top, case, pages):
            ctx.label('interrupted')
    logs = r'ESA_Swarm_sync_.*\.log'
    for attempt in range(1 if clobber or case['list'] or many else 2):
        with net.served(site):
            run()
        got = snapshot(m.top)
        listed = got.pop('Swarm/RL01/GSM/index.txt', None)
        require(listed is not None, 'an index file')
        same(listed[0].decode().split(), [v['name'] for v in table if v['name'] in contents],
            'listed solutions')
        same(listed[2], m.mode, 'permissions of the index')
        if case['log']:
            require(any(re.fullmatch(logs, k) and v[2] == m.mode for k, v in got.items()),
                'log file with the permissions')
        matches(got, want, {}, m.mode, logs, ('first run', 'second run')[attempt])
    ctx.nontrivial(len(moved) > 1)
    ctx.label('pages' if many else 'page')


# ------------------------------------------------------------------ CNES (HTTP)
TARS = {'RL01': {'GSM': ['RL01/variable/archives/GRGS.SH_models.GRACEFORMAT.RL01.tar.gz'],
        'GAC': ['RL01/variable/archives/GRGS.dealiasing.RL01.tar.gz']},
    'RL02': {'GSM': ['RL02/variable/archives/GRGS.SH_models.GRACEFORMAT.all.tar.gz'],
        'GAA': ['RL02/variable/archives/GRGS.dealiasing.GRACEFORMAT.all.tar.gz'],
        'GAB': ['RL02/variable/archives/GRGS.dealiasing.GRACEFORMAT.all.tar.gz']},
    'RL03': {'GSM': ['RL03-v3/archives/CNES-GRGS.RL03-v3.monthly.coeff.tar.gz'],
        'GAA': ['RL03/variable/archives/GRGS.RL03.dealiasing.monthly.tar.gz'],
        'GAB': ['RL03/variable/archives/GRGS.RL03.dealiasing.monthly.tar.gz']},
    'RL04': {'GSM':
        ['RL04-v1/archives/CNES.RL04-v1.monthly.NEW_IERS2010_MEAN_POLE_CONVENTION.tar.gz']},
    'RL05': {'GSM': ['RL05/archives/CNES-GRGS.RL05.GRACE.monthly.tar.gz',
        'RL05/archives/CNES-GRGS.RL05.GRACE-FO.monthly.tar.gz'],
        'GAA': ['RL05/archives/CNES-GRGS.RL05.monthly.dealiasing.tar.gz'],
        'GAB': ['RL05/archives/CNES-GRGS.RL05.monthly.dealiasing.tar.gz']}}


@st.composite
def s_cnes(draw):
    return dict(draw(common()), releases=draw(st.one_of(st.none(), st.lists(st.sampled_from(
        list(TARS)), min_size=1, max_size=2, unique=True))), n=draw(st.sampled_from([0, 1, 3, 5, 8])),
        ext=draw(st.sampled_from(['', '.txt'])))


def b_cnes(case, ctx):
    site, top = net.Site(), ctx.tmp/'data'
    r = gen.rng(case['seed'])
    root = '/grgs.obs-mip.fr/data/'
    asked = case['releases'] or ['RL05']
    mode = case['mode'] or 0o775
    archives, granules, tar_of = {}, {}, {}
    for rl, sets in TARS.items():
        for path in sorted({p for v in sets.values() for p in v}):
            members = {}
            for ds in sorted(d for d, v in sets.items() if path in v):
                for _ in range(case['n']):
                    n = f'{ds}-2_{span(r)}_{int(r.integers(9, 32)):04d}_GRGS_C0003_{int(rl[-1]):04d}'
                    members[n + case['ext']] = (body(r), when(r))
                    if rl in asked:
                        granules[f'CNES/{rl}/{ds}/{n}.gz'] = members[n + case['ext']]
            members['readme.md'] = (body(r), when(r))
            buf = io.BytesIO()
            with tarfile.open(fileobj=buf, mode='w:gz') as tar:
                folder = r.choice(['', 'grace/', './'])
                for n, (b, t) in members.items():
                    info = tarfile.TarInfo(folder + n)
                    info.size, info.mtime = len(b), t
                    tar.addfile(info, io.BytesIO(b))
            t = when(r)
            site.http[root + path] = dict(body=buf.getvalue(), headers={'Last-Modified':
                stamp(t, '%a, %d %b %Y %H:%M:%S GMT')})
            if rl in asked:
                archives[f'CNES/{rl}/{posixpath.basename(path)}'] = (buf.getvalue(), t)
    site.http['/'] = site.http[''] = dict(body=b'')
    # previous copies
    extra = {}
    old = {}
    if case['again']:
        for k, (b, t) in granules.items():
            how = r.choice(['none', 'same', 'older', 'newer'])
            if how == 'none':
                continue
            p = top/k
            p.parent.mkdir(parents=True, exist_ok=True)
            dt = int(r.choice([1, 2, r.integers(1, 10**6)]))
            s = t + {'same': 0, 'older': -dt, 'newer': dt}[how]
            data = b if how == 'same' else body(r)
            with gzip.GzipFile(p, 'wb', 9, None, s) as f:
                f.write(data)
            old[k] = (data, s)
            p.chmod(0o640)
        for k, (b, t) in archives.items():
            if r.random() < .5:
                p = top/k
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(b if r.random() < .5 else body(r))
        for rl in asked:
            k = f'CNES/{rl}/GSM/GSM-2_2000001-2000031_0031_GRGS_C0003_0001.gz'
            extra[k] = body(r)
            (top/k).parent.mkdir(parents=True, exist_ok=True)
            (top/k).write_bytes(extra[k])
    args = ['--directory', top, *(['--release', *case['releases']] if case['releases'] else []),
        *options(case)]
    run = lambda: prog.run('cnes_grace_sync', *args, cwd=ctx.tmp, bare=True)
    if case['cut']:
        pages = {k: v for k, v in site.http.items() if k.endswith('.gz')}
        if interrupted(site, run, top, case, pages):
            ctx.label('interrupted')
    for attempt in range(2):
        with net.served(site):
            run()
        got = snapshot(top)
        what = ('first run', 'second run')[attempt]
        index_files = {f'CNES/{rl}/{ds}/index.txt' for rl in asked for ds in TARS[rl]}
        names = {k for k in got if not re.fullmatch(r'CNES_sync_.*\.log', k)}
        want = set(archives) | set(granules) | set(extra) | index_files
        require(names == want, lambda: f'{what}: files differ by {sorted(names ^ want)[:5]}')
        for k, (b, t) in archives.items():
            require(got[k][0] == b, f'{what}: contents of {k}')
            same(got[k][1], t, f'{what}: modification time of {k}')
        for k, (b, t) in granules.items():
            new = k not in old or t > old[k][1] or case['clobber']
            require(gzip.decompress(got[k][0]) == (b if new else old[k][0]),
                f'{what}: contents of {k}')
            s, = struct.unpack('<I', got[k][0][4:8])
            same(s, t if new else old[k][1], f'{what}: time within {k}')
            if new:
                same(got[k][1:], (t, mode), f'{what}: modification time and permissions of {k}')
        for k in extra:
            require(got[k][0] == extra[k], f'{what}: {k} is kept')
        for k in index_files:
            d = posixpath.dirname(k)
            require(got[k][0] == index(posixpath.basename(f) for f in [*granules, *extra]
                if posixpath.dirname(f) == d), f'{what}: {k}')
            same(got[k][2], mode, f'{what}: permissions of {k}')
        if case['log']:
            require(any(re.fullmatch(r'CNES_sync_.*\.log', k) and v[2] == mode
                for k, v in got.items()), 'log file with the permissions')
    ctx.nontrivial(len(granules) > 1)
    ctx.label(*asked)


# -------------------------------------------------------------- PO.DAAC (HTTP, S3)
@st.composite
def s_podaac(draw):
    return dict(draw(common()), centers=draw(st.lists(st.sampled_from(['CSR', 'GFZ', 'JPL']),
        min_size=1, max_size=3, unique=True)), version=draw(st.sampled_from([None, ['0', '1'],
        ['0', '3']])), endpoint=draw(st.sampled_from(['data', 's3'])), gzip=draw(st.booleans()),
        aod1b=draw(st.booleans()), n=draw(st.sampled_from([0, 1, 2, 3])), notes=draw(st.booleans()),
        default=draw(st.booleans()))


def b_podaac(case, ctx):
    site, m = net.Site(), Mirror(case, ctx.tmp/'data')
    r = m.r
    version = case['version'] or ['0', '3']
    s3 = case['endpoint'] == 's3'
    entries = []       # (collection, title, time, file)
    contents = {}
    sfx = '.gz' if case['gzip'] else ''
    listed = {}
    gz = set()
    for proc in ('CSR', 'GFZ', 'JPL'):
        for i, mi in enumerate(('grace', 'grace-fo')):
            for ds in PRODUCTS[proc]:
                target = f'{proc}/RL06/{ds}'
                mine = proc in case['centers']
                if mine:
                    listed.setdefault(target, [])
                for v in sorted({0, 1, 2, 3}):
                    dates = set()
                    for _ in range(case['n']):
                        dt = span(r)
                        if dt in dates:
                            continue
                        dates.add(dt)
                        good, odd = solution(r, mi, proc, 'RL06', ds, dt, v)
                        short = (f'GRACE_{ds}_L2_GRAV_{proc}_RL06' if mi == 'grace' else
                            f'GRACEFO_L2_{proc}_MONTHLY_006{v}')
                        for f in good + odd:
                            f = f[:-3]
                            b, t = body(r), when(r)
                            entries.append((short, f, t, f))
                            contents[f'{short}/{f}'] = dict(body=b)
                            if mine and v == int(version[i]) and f + '.gz' in good:
                                m.add(f'{target}/{f}{sfx}', b, t)
                                if case['gzip']:
                                    gz.add(f'{target}/{f}{sfx}')
                                listed[target].append(f + sfx)
    for k in range(case['n']):
        f = f'AOD1B_{2005 + k}-01-{int(r.integers(1, 29)):02d}_X_06.asc.gz'
        b, t = body(r), when(r)
        entries.append(('GRACE_AOD1B_GRAV_GFZ_RL06', f[:-3], t, f))
        contents[f'GRACE_AOD1B_GRAV_GFZ_RL06/{f}'] = dict(body=b)
        if case['aod1b']:
            m.add(f'AOD1B/RL06/{f}', b, t)
    fresh = {}
    docs = {}
    for proc in ('CSR', 'GFZ', 'JPL'):
        for v in (0, 1, 2, 3):
            short = f'GRACEFO_L2_{proc}_MONTHLY_006{v}'
            docs[short] = ['https://docs.test/grace-fo/guide.pdf']
            if case['notes'] and v == int(version[1]):
                f = f'TN-13_GEOC_{proc}_RL06.{v}.txt'
                root = 's3://podaac-docs' if s3 else 'https://docs.test'
                docs[short] += [f'{root}/grace-fo/{f}', f'{root}/grace-fo/TN-14_C30_C20_GSFC_SLR.txt']
                if proc in case['centers']:
                    fresh[f'geocenter/{f}'] = contents.setdefault(f'grace-fo/{f}',
                        dict(body=body(r)))['body']
                    fresh['TN-14_C30_C20_GSFC_SLR.txt'] = contents.setdefault(
                        'grace-fo/TN-14_C30_C20_GSFC_SLR.txt', dict(body=body(r)))['body']
    refused = []

    def handler(method, path, heads):
        u = urllib.parse.urlsplit(path)
        if u.path == '/search/granules.json':
            q = urllib.parse.parse_qs(u.query)
            pat = q['readable_granule_name[]'][0]
            rx = re.compile(re.escape(pat).replace(r'\?', '.').replace(r'\*', '.*'))
            out = []
            for short, title, t, f in entries:
                if short in q['short_name'] and rx.fullmatch(title):
                    out.append(dict(title=title, updated=stamp(t, '%Y-%m-%dT%H:%M:%S.000Z'),
                        links=[dict(rel='http://esipfed.org/ns/fedsearch/1.1/data#',
                        href=f'https://archive.test/{short}/{f}'),
                        dict(rel='http://esipfed.org/ns/fedsearch/1.1/s3#',
                        href=f's3://podaac-protected/{short}/{f}')]))
            return dict(body=json.dumps(dict(feed=dict(entry=out))).encode())
        if u.path == '/search/collections.json':
            q = urllib.parse.parse_qs(u.query)
            out = [dict(title=s, links=[dict(rel='http://esipfed.org/ns/fedsearch/1.1/'
                'documentation#', href=h) for h in docs.get(s, [])]) for s in q['short_name']]
            return dict(body=json.dumps(dict(feed=dict(entry=out))).encode())
        if u.path == '/s3credentials':
            if heads.get('authorization') is None and s3:
                refused.append(path)
                return dict(status=401, body=b'')
            return dict(body=json.dumps(dict(accessKeyId='key', secretAccessKey='secret',
                sessionToken='token')).encode())
        return contents.get(u.path.lstrip('/'))
    site.handler = handler

    class Stream(io.BytesIO):
        """contents of an object of a bucket"""

        def __init__(self, page):
            cut = page.get('truncate')
            super().__init__(page['body'] if cut is None else page['body'][:cut])
            self.short = cut is not None

        def read(self, *args):
            out = super().read(*args)
            if self.short and self.tell() == len(self.getvalue()):
                raise OSError('connection closed')
            return out

    class Client:
        def list_objects(self, Bucket=None, Prefix=None):
            require(Bucket in ('podaac-ops-cumulus-protected', 'podaac-docs', 'podaac-protected'),
                lambda: f'bucket {Bucket}')
            return {}

        def get_object(self, Bucket=None, Key=None):
            require(Bucket == ('podaac-docs' if Key.startswith('grace-fo/') else
                'podaac-protected'), lambda: f'bucket {Bucket} of {Key}')
            return dict(Body=Stream(contents[Key]))

    def client(service, **kw):
        require(service == 's3' and kw.get('aws_access_key_id') == 'key'
            and kw.get('aws_secret_access_key') == 'secret'
            and kw.get('aws_session_token') == 'token', 'credentials of the client')
        return Client()
    m.previous()
    before = snapshot(m.top) if m.top.exists() else {}
    args = ['--user', 'me', '--password', 'secret', '--netrc', ctx.tmp/'netrc', '--directory',
        m.top, '--center', *case['centers'],
        *(['--version', *case['version']] if case['version'] else []),
        *([] if s3 and case['default'] else ['--endpoint', case['endpoint']]),
        *(['--gzip'] if case['gzip'] else []), *(['--aod1b'] if case['aod1b'] else []),
        *options(case)]

    def run():
        real = boto3.client
        boto3.client = client
        try:
            prog.run('podaac_cumulus', *args, cwd=ctx.tmp, bare=True)
        finally:
            boto3.client = real
    want, moved = m.wanted(before, clobber=case['clobber'])
    if case['cut'] and not case['clobber']:
        pages = {k: v for k, v in contents.items() if not k.startswith('grace-fo/')}
        if interrupted(site, run, m.top, case, pages):
            ctx.label('interrupted')
    logs = r'PODAAC_sync_.*\.log'
    for attempt in range(1 if case['clobber'] else 2):
        what = ('first run', 'second run')[attempt]
        t0 = time.time()
        with net.served(site):
            run()
        got = snapshot(m.top)
        for k, b in fresh.items():
            require(k in got and got[k][0] == b, f'{what}: contents of {k}')
            same(got[k][2], m.mode, f'{what}: permissions of {k}')
            got.pop(k)
        for k in gz & moved:
            require(k in got, f'{what}: no {k}')
            b, t = m.files[k]
            require(gzip.decompress(got[k][0]) == b, f'{what}: contents of {k}')
            same(struct.unpack('<I', got[k][0][4:8])[0], t, f'{what}: time within {k}')
            got[k] = (b, *got[k][1:])
        if case['log']:
            require(any(re.fullmatch(logs, k) and v[2] == m.mode for k, v in got.items()),
                'log file with the permissions')
        matches(got, want, {f'{d}/index.txt': v for d, v in listed.items()}, m.mode, logs, what)
    ctx.nontrivial(len(moved) > 1)
    ctx.label(case['endpoint'], 'gzip' if case['gzip'] else 'plain')


CHECKS = [
    Check('costg', s_costg, b_costg, quick=70, thorough=1200,
        rule='more than one file is transferred'),
    Check('isdc', s_isdc, b_isdc, quick=50, thorough=900,
        rule='more than one file is transferred'),
    Check('aod1b', s_aod, b_aod, quick=60, thorough=1000, rule='more than one file'),
    Check('graz', s_graz, b_graz, quick=70, thorough=1200,
        rule='more than one file is transferred'),
    Check('swarm', s_swarm, b_swarm, quick=60, thorough=1000, rule='more than one file is transferred'),
    Check('cnes', s_cnes, b_cnes, quick=60, thorough=1000, rule='more than one solution'),
    Check('podaac', s_podaac, b_podaac, quick=50, thorough=900,
        rule='more than one file is transferred'),
]

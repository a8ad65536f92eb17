"""File, hash, listing and download utilities"""
import base64
import calendar
import contextlib
import datetime
import ftplib
import hashlib
import html
import io
import json
import logging
import math
import os
import pathlib
import posixpath
import re
import stat
import time
import urllib.parse
import urllib.request
import numpy as np
from hypothesis import strategies as st
import gravity_toolkit as gravtk
from pbt import gen, net
from pbt.core import Check, close, fail, raises, require, same

U = gravtk.utilities
ASSUMPTIONS = ['servers are loopback servers that speak HTTP/1.0 and FTP (passive mode); '
    'TLS itself is replaced by plain connections', 'listings have the markup of the '
    'documented kinds of servers', 'names have no characters that need quoting in URLs']

NAME = st.from_regex(r'\A[A-Za-z0-9][A-Za-z0-9_\-]{0,12}(\.[A-Za-z0-9]{1,4}){0,2}\Z')
BODY = st.one_of(st.binary(max_size=200), st.just(b''),
    st.integers(1, 200000).map(lambda n: np.random.default_rng(n).bytes(n)))


def b64(b):
    return base64.b64encode(b).decode()


def unb64(s):
    return base64.b64decode(s)


body_text = BODY.map(b64)


# ----------------------------------------------------------------- hashes
@st.composite
def s_hash(draw):
    return dict(body=draw(body_text), kind=draw(st.sampled_from(['str', 'path', 'bytes', 'bytes', 'missing',
        'other', 'home'])),
        algorithm=draw(st.sampled_from([None, 'md5', 'sha1', 'sha256', 'sha512', 'blake2b', 'nope'])),
        name=draw(NAME), read=draw(st.integers(0, 3)))


def b_hash(case, ctx):
    body = unb64(case['body'])
    path = ctx.tmp/case['name']
    if case['kind'] != 'missing':
        path.write_bytes(body)
    kw = {} if case['algorithm'] is None else dict(algorithm=case['algorithm'])
    arg = {'str': str(path), 'path': path, 'missing': path, 'home': '~/' + case['name'],
        'bytes': io.BytesIO(body), 'other': 17}[case['kind']]
    if case['kind'] == 'bytes':
        # a stream may have been read (in part) before
        arg.seek(len(body)*case.get('read', 0)//3)
    saved = os.environ.get('HOME')
    os.environ['HOME'] = str(ctx.tmp)
    try:
        if case['kind'] in ('missing', 'other'):
            require(U.get_hash(arg, **kw) == '', 'hash of nothing')
        elif case['algorithm'] == 'nope':
            require(raises(lambda: U.get_hash(arg, **kw), ValueError), 'unknown algorithm')
        else:
            want = hashlib.new(case['algorithm'] or 'md5', body).hexdigest()
            require(U.get_hash(arg, **kw) == want, 'hash of the contents')
    finally:
        os.environ['HOME'] = saved or '/root'
    if case['kind'] != 'missing':
        require(path.read_bytes() == body, 'file unchanged')
    ctx.nontrivial(len(body) > 0 and case['kind'] not in ('missing', 'other'))


# --------------------------------------------------------------- helpers
@st.composite
def s_helpers(draw):
    word = st.from_regex(r'\A[!-"$-~]{1,8}\Z')
    return dict(parts=draw(st.lists(NAME, min_size=1, max_size=6)),
        scheme=draw(st.sampled_from(['', 'http://', 'https://', 'ftp://', 's3://', '/'])),
        value=draw(st.one_of(st.integers(-10**6, 10**6), st.floats(-1e6, 1e6))),
        words=draw(st.lists(word, max_size=6)), comment=draw(st.booleans()),
        gap=draw(st.sampled_from([' ', '\t', '   '])))


def b_helpers(case, ctx):
    parts = case['parts']
    url = case['scheme'] + '/'.join(parts)
    got = U.url_split(url)
    require(isinstance(got, tuple), 'type of split parts')
    want = ((case['scheme'] + parts[0],) if case['scheme'] != '/' else (parts[0],)) \
        + tuple(parts[1:])
    require(got == want, lambda: f'{url} split into {got}')
    if case['scheme'] != '/':
        require(posixpath.join(*got) == url, 'parts join to the address')
    if case['scheme'] == 's3://' and len(parts) > 1:
        require(U.s3_bucket(url) == parts[0], 'bucket')
        require(U.s3_key(url) == '/'.join(parts[1:]), 'key')
    v = case['value']
    e, c = U.even(v), U.ceil(v)
    require(isinstance(e, int) and e % 2 == 0 and e <= v < e + 2, lambda: f'even({v}) = {e}')
    require(isinstance(c, int) and c - 1 < v <= c, lambda: f'ceil({v}) = {c}')
    line = case['gap'].join(case['words'])
    if case['comment']:
        line += case['gap'] + '# --ignored option # again'
    require(list(U.convert_arg_line_to_args(line)) == case['words'], 'arguments of a line')
    root = pathlib.Path(gravtk.__file__).absolute().parent
    for arg in (parts, '/'.join(parts), pathlib.Path(*parts)):
        require(U.get_data_path(arg) == root.joinpath(*parts), 'data path')
    ctx.nontrivial(len(parts) > 1)


@st.composite
def s_time(draw):
    return dict(t=draw(st.integers(0, 4102444800)), zone=draw(st.sampled_from(
        ['UTC0', 'XXX5', 'YYY-9', 'ZZZ3:30'])),
        form=draw(st.sampled_from(['default', 'format', 'iso', 'isoZ', 'offset', 'offsetformat',
            'micro', 'bad', 'none', 'us'])),
        pad=draw(st.booleans()), off=draw(st.integers(-23, 23)))


def b_time(case, ctx):
    t = case['t']
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    sign, h = ('-' if case['off'] < 0 else '+'), abs(case['off'])//2
    mm = 30*(abs(case['off']) % 2)
    off = (1 if sign == '+' else -1)*(3600*h + 60*mm)
    loc = d + datetime.timedelta(seconds=off)
    kw = {}
    want = t
    form = case['form']
    iso = None
    if form == 'default':
        s = d.strftime('%Y-%m-%d %H:%M:%S')
    elif form == 'format':
        s, kw = d.strftime('%Y%m%d%H%M%S'), dict(format='%Y%m%d%H%M%S')
    elif form == 'iso':
        s, iso = d.strftime('%Y-%m-%dT%H:%M:%S'), d.isoformat()
    elif form == 'isoZ':
        s = d.strftime('%Y-%m-%dT%H:%M:%SZ')
        iso = d.isoformat() + '+00:00'
    elif form == 'micro':
        s, kw = d.strftime('%Y-%m-%dT%H:%M:%S.250Z'), dict(format='%Y-%m-%dT%H:%M:%S.%f%z')
    elif form == 'offset':
        s = loc.strftime('%Y-%m-%dT%H:%M:%S') + f'{sign}{h:02d}:{mm:02d}'
        iso = loc.isoformat() + (f'{sign}{h:02d}:{mm:02d}' if off else '+00:00')
    elif form == 'offsetformat':
        s = loc.strftime('%d/%m/%Y %H:%M:%S ') + f'{sign}{h:02d}{mm:02d}'
        kw = dict(format='%d/%m/%Y %H:%M:%S %z')
    elif form == 'us':
        s = d.strftime('%d %B %Y')
        want = t - t % 86400
        iso = datetime.datetime(d.year, d.month, d.day).isoformat()
    else:
        s, want = ('  - ' if form == 'bad' else 'not a date'), None
    if case['pad']:
        s += '  \n'
    saved = os.environ.get('TZ')
    os.environ['TZ'] = case['zone']
    time.tzset()
    try:
        got = U.get_unix_time(s, **kw)
        same_iso = U.isoformat(s)
    finally:
        os.environ.pop('TZ')
        if saved is not None:
            os.environ['TZ'] = saved
        time.tzset()
    if want is None:
        require(got is None and same_iso is None, 'not a date')
    else:
        require(got is not None and abs(got - want) < 1e-6, lambda: f'{s!r}: {got} not {want}')
        if iso:
            require(same_iso == iso, lambda: f'{s!r}: {same_iso} not {iso}')
    ctx.nontrivial(want is not None and case['zone'] != 'UTC0')
    ctx.label(form)


class Late(BaseException):
    pass


@st.composite
def s_files(draw):
    return dict(body=draw(body_text), name=draw(NAME), n=draw(st.integers(1, 6)),
        occupied=draw(st.lists(st.integers(1, 5), max_size=3, unique=True)),
        first=draw(st.booleans()), move=draw(st.booleans()), exists=draw(st.booleans()),
        mtime=draw(st.integers(10**8, 2*10**9)), mode=draw(st.sampled_from([0o600, 0o644, 0o755])),
        string=draw(st.booleans()), missing=draw(st.booleans()))


def b_files(case, ctx):
    body = unb64(case['body'])
    src, dst = ctx.tmp/'source.dat', ctx.tmp/case['name']
    src.write_bytes(body)
    src.chmod(case['mode'])
    os.utime(src, (case['mtime'] + 5, case['mtime']))
    if case['exists']:
        dst.write_bytes(b'old contents that may be longer than the new' * 9)
    args = (str(src), str(dst)) if case['string'] else (src, dst)
    kw = dict(move=case['move']) if case['move'] or case['exists'] else {}
    U.copy(*args, **kw)
    require(dst.read_bytes() == body, 'contents of the copy')
    require(int(dst.stat().st_mtime) == case['mtime'], 'modification time of the copy')
    require(stat.S_IMODE(dst.stat().st_mode) == case['mode'], 'permissions of the copy')
    require(src.exists() != case['move'], 'source after the copy')
    # unique files
    base = ctx.tmp/'u'/case['name']
    base.parent.mkdir()
    p = pathlib.PurePath(case['name'])
    names = {0: case['name']}
    for k in range(1, 20):
        names[k] = f'{p.stem}_{k}{p.suffix}'
    taken = {names[k] for k in case['occupied']}
    if case['first']:
        taken.add(case['name'])
    for n in taken:
        (base.parent/n).write_bytes(b'keep')
    used = set(taken)
    for i in range(case['n']):
        k = next(j for j in range(20) if names[j] not in used)
        fd = U.create_unique_file(str(base) if case['string'] else base)
        with fd:
            fd.write(b'%d' % i if 'b' in fd.mode else str(i))
        got = pathlib.Path(fd.name)
        require(got == base.with_name(names[k]), lambda: f'unique name {got.name}, not {names[k]}')
        require(got.read_bytes() == b'%d' % i, 'contents of a unique file')
        used.add(names[k])
    for n in taken:
        require((base.parent/n).read_bytes() == b'keep', 'existing file kept')
    require({q.name for q in base.parent.iterdir()} == used, 'no other file')
    if case['missing']:
        import signal

        def late(*_):
            raise Late('endless loop creating a file')
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(3)
        try:
            U.create_unique_file(ctx.tmp/'none'/case['name'])
        except Late:
            fail('endless loop creating a file in a missing directory')
        except OSError:
            pass
        else:
            fail('file in a missing directory')
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    ctx.nontrivial(len(taken) > 0 and case['n'] > 1)


# ------------------------------------------------------------------- http
@contextlib.contextmanager
def quiet():
    """logging of the functions under test kept away from the console"""
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    root.handlers = [logging.NullHandler()]
    try:
        yield
    finally:
        root.handlers = handlers
        root.setLevel(level)


FN = ['from_http', 'from_drive']


@st.composite
def s_download(draw):
    return dict(body=draw(body_text), fn=draw(st.sampled_from(FN)),
        parts=draw(st.lists(NAME, min_size=1, max_size=4)),
        host=draw(st.sampled_from(['http://server.test', 'https://secure.test'])),
        string=draw(st.booleans()), local=draw(st.sampled_from([None, 'new', 'old', 'deep', 'str'])),
        hash=draw(st.sampled_from([None, 'same', 'different'])),
        chunk=draw(st.sampled_from([None, 1, 7, 4096, 16384])) ,
        fault=draw(st.sampled_from([None, None, None, None, 'missing', 'error', 'truncate', 'empty',
            'drop', 'refuse'])),
        length=draw(st.booleans()), mode=draw(st.sampled_from([None, 0o600, 0o750])),
        timeout=draw(st.sampled_from([None, 20])), verbose=draw(st.booleans()),
        redirect=draw(st.integers(0, 5)) == 0)


def b_download(case, ctx):
    body = unb64(case['body'])
    if case['chunk'] == 1:
        body = body[:500]
    site = net.Site()
    path = '/' + '/'.join(case['parts'])
    fault = case['fault']
    page = dict(body=body, length=case['length'])
    if fault == 'missing':
        page = None
    elif fault == 'error':
        page = dict(status=500, body=b'broken')
    elif fault in ('truncate', 'empty'):
        if len(body) < 2:
            return
        page = dict(body=body, truncate=len(body)//2 if fault == 'truncate' else 0)
    elif fault == 'drop':
        page = dict(drop=True)
    if page:
        site.http[path] = page
    base = case['host'] if fault != 'refuse' else 'http://nowhere.invalid'
    if case['redirect'] and fault is None:
        site.http['/moved/file'] = dict(status=302, headers={'Location': base + path})
        url = base + '/moved/file'
    else:
        url = base + path
    host = url if case['string'] else list(U.url_split(url))
    local = None
    if case['local']:
        local = ctx.tmp/'files'/'a.bin'
        if case['local'] == 'deep':
            local = ctx.tmp/'x'/'y'/'z'/'a.bin'
        else:
            local.parent.mkdir()
        if case['local'] == 'old':
            local.write_bytes(b'previous')
    kw = {}
    if local:
        kw['local'] = str(local) if case['local'] == 'str' else local
    digest = hashlib.md5(body).hexdigest()
    if case['hash']:
        kw['hash'] = digest if case['hash'] == 'same' else '0'*32
    if case['chunk']:
        kw['chunk'] = case['chunk']
    if case['mode']:
        kw['mode'] = case['mode']
    if case['timeout']:
        kw['timeout'] = case['timeout']
    if case['verbose']:
        kw.update(verbose=True, fid=io.StringIO())
    if case['fn'] == 'from_drive':
        kw['build'] = False
    fn = getattr(U, case['fn'])
    before = local.read_bytes() if local is not None and local.exists() else None
    with net.served(site), quiet():
        if fault:
            require(raises(lambda: fn(host, **kw)), f'{fault}: failure is reported')
            after = local.read_bytes() if local is not None and local.exists() else None
            require(after == before, f'{fault}: local file')
            ctx.nontrivial(local is not None)
            ctx.label(fault)
            return
        out = fn(host, **kw)
    require(out.read() == body, 'returned contents')
    require(out.filename == url.rsplit('/', 1)[-1], 'returned name')
    if local is not None:
        if case['hash'] == 'same':
            after = local.read_bytes() if local.exists() else None
            require(after == before, 'file with the same hash is kept')
        else:
            require(local.read_bytes() == body, 'contents of the local file')
            require(stat.S_IMODE(local.stat().st_mode) == (case['mode'] or 0o775),
                'permissions of the local file')
            require([p.name for p in local.parent.iterdir()] == ['a.bin'], 'no other file')
    ctx.nontrivial(len(body) > 0 and local is not None)
    ctx.label('download', case['host'][:5])


@st.composite
def s_listing(draw):
    n = draw(st.integers(0, 12))
    return dict(names=draw(st.lists(NAME, min_size=n, max_size=n, unique=True)),
        seed=draw(gen.seeds), kind=draw(st.sampled_from(['http', 'drive', 'gsfc', 'icgem'])),
        pattern=draw(st.sampled_from([None, '', r'\.txt$', 'a', r'^[A-M]', r'\d'])),
        sort=draw(st.sampled_from([None, False, True])), string=draw(st.booleans()),
        parent=draw(st.booleans()), fail=draw(st.integers(0, 9)) == 0,
        fmt=draw(st.booleans()))


def b_listing(case, ctx):
    r = gen.rng(case['seed'])
    names = list(case['names'])
    times = [int(t)//60*60 for t in r.integers(10**9, 2*10**9, len(names))]
    stamp = lambda t, f: time.strftime(f, time.gmtime(t))
    kind = case['kind']
    site = net.Site()
    path = '/a/b'
    rows = []
    kw = {}
    if case['pattern'] is not None and kind != 'icgem':
        kw['pattern'] = case['pattern']
    if case['sort'] is not None and kind != 'icgem':
        kw['sort'] = case['sort']
    if kind == 'http':
        f = '%d-%b-%Y %H:%M' if case['fmt'] else '%Y-%m-%d %H:%M'
        if case['fmt']:
            kw['format'] = f
        if case['parent']:
            rows.append('<tr><td valign="top"><img src="/i.gif" alt="[PARENTDIR]"></td><td>'
                '<a href="/a/">Parent Directory</a></td><td>&nbsp;</td>'
                '<td align="right">  - </td></tr>')
        for n, t in zip(names, times):
            rows.append('<tr><td valign="top"><img src="/i.gif" alt="[TXT]"></td><td>'
                f'<a href="{n}">{html.escape(n[:23])}</a></td>'
                f'<td align="right">{stamp(t, f)}  </td><td align="right">1.2K</td></tr>')
        head = '<tr><th><a href="?C=N;O=D">Name</a></th><th><a href="?C=M;O=A">Last ' \
            'modified</a></th></tr>'
        want = [(n, t) for n, t in zip(names, times)]
        if case['parent']:
            want.insert(0, ('/a/', None))
    elif kind == 'drive':
        for n, t in zip(names, times):
            rows.append(f'<tr><td><a class="text-left" href="/drive/{n}">{n}</a></td>'
                f'<td>12 KB</td><td>{stamp(t, "%Y-%m-%d %H:%M:%S")}</td></tr>')
        head = '<tr><th>Name</th><th>Size</th><th>Last Modified</th></tr>'
        kw['build'] = False
        want = list(zip(names, times))
    elif kind == 'gsfc':
        for n in names:
            rows.append(f'<tr><td>file <a href="/sites/default/{n}">{n}</a></td></tr>')
        head = '<tr><th>Name</th></tr>'
        want = [('https://gsfc.test/sites/default/' + n, None) for n in names]
    else:
        names = [n.split('.')[0] for n in names]
        names = list(dict.fromkeys(names))
        for n in names:
            rows.append(f'<tr><td class="tom-cell-modelfile"><a href="/getmodel/gfc/abc/{n}.gfc">'
                f'gfc</a> <a href="/getmodel/zip/abc/{n}.zip">zip</a></td>'
                f'<td><a href="/other/{n}.gfc">doi</a></td></tr>')
        head = '<tr><th>Model</th></tr>'
        want = {n: ('getmodel', 'gfc', 'abc', n + '.gfc') for n in names}
    page = ('<html><head><title>x</title></head><body><h1>Index</h1><table>' + head
        + ''.join(rows) + '</table></body></html>').encode()
    if not case['fail']:
        site.http[path] = dict(body=page, headers={'Content-Type': 'text/html'})
    url = {'http': 'http://list.test', 'drive': 'https://drive.test', 'gsfc': 'https://gsfc.test',
        'icgem': 'http://icgem.test'}[kind] + path
    fn = {'http': U.http_list, 'drive': U.drive_list, 'gsfc': U.gsfc_list,
        'icgem': U.icgem_list}[kind]
    host = url if case['string'] or kind == 'icgem' else list(U.url_split(url))
    with net.served(site), quiet():
        if case['fail']:
            require(raises(lambda: fn(host, **kw)), 'missing listing is reported')
            return
        got = fn(host, **kw)
    if kind == 'icgem':
        require(got == want, lambda: f'models {got}')
        ctx.nontrivial(len(names) > 1)
        return
    if case['pattern']:
        want = [w for w in want if re.search(case['pattern'], w[0])]
    if case['sort']:
        want = sorted(want, key=lambda w: w[0])
    if kind == 'gsfc':
        require(list(got) == [w[0] for w in want], lambda: f'listed {got}')
    else:
        require(list(got[0]) == [w[0] for w in want], lambda: f'listed {got[0]}')
        require(list(got[1]) == [w[1] for w in want], lambda: f'times {got[1]}')
    ctx.nontrivial(len(want) > 1)
    ctx.label(kind)


# -------------------------------------------------------------------- ftp
@st.composite
def s_ftp(draw):
    return dict(names=draw(st.lists(NAME, min_size=1, max_size=6, unique=True)),
        bodies=draw(st.lists(body_text, min_size=6, max_size=6)), seed=draw(gen.seeds),
        op=draw(st.sampled_from(['list', 'get', 'get', 'check'])),
        login=draw(st.sampled_from([None, 'good', 'bad'])),
        string=draw(st.booleans()), basename=draw(st.sampled_from([None, True, False])),
        pattern=draw(st.sampled_from([None, 'a', r'\d', r'\.'])),
        sort=draw(st.sampled_from([None, True, False])), subdir=draw(st.booleans()),
        local=draw(st.sampled_from([None, 'new', 'old', 'deep'])),
        hash=draw(st.sampled_from([None, 'same', 'different'])),
        chunk=draw(st.sampled_from([None, 7, 8192])), timeout=draw(st.sampled_from([None, 20])),
        fault=draw(st.sampled_from([None, None, None, None, 'missing', 'truncate', 'refuse'])),
        mode=draw(st.sampled_from([None, 0o600])))


def b_ftp(case, ctx):
    r = gen.rng(case['seed'])
    names = case['names']
    site = net.Site()
    fault = case['fault']
    mt = {}
    for n, b in zip(names, case['bodies']):
        mt[n] = int(r.integers(10**9, 2*10**9))
        site.ftp['/pub/data/' + n] = dict(body=unb64(b),
            mdtm=time.strftime('%Y%m%d%H%M%S', time.gmtime(mt[n])))
    listed = list(names) + (['subdirectory'] if case['subdir'] else [])
    site.dirs['/pub/data'] = listed
    kw = {}
    if case['login']:
        site.login = ('me', 'secret')
        kw.update(username='me', password='secret' if case['login'] == 'good' else 'wrong')
    bad = case['login'] == 'bad'
    host = 'ftp.server.test' if fault != 'refuse' else 'nowhere.invalid'
    if case['timeout'] and case['op'] != 'check':
        kw['timeout'] = case['timeout']
    with net.served(site), quiet():
        if case['op'] == 'check':
            if bad or fault == 'refuse':
                require(raises(lambda: U.check_ftp_connection(host, **kw), RuntimeError),
                    'failed connection')
            else:
                require(U.check_ftp_connection(host, **kw) is True, 'connection')
            return
        if case['op'] == 'list':
            arg = f'{host}/pub/data' if case['string'] else [host, 'pub', 'data']
            for k in ('basename', 'pattern', 'sort'):
                if case[k] is not None:
                    kw[k] = case[k]
            if bad or fault == 'refuse':
                require(raises(lambda: U.ftp_list(arg, **kw)), 'failed listing')
                return
            got, times = U.ftp_list(arg, **kw)
            want = [('pub/data/' + n, mt.get(n)) for n in listed]
            if case['basename']:
                want = [(posixpath.basename(a), b) for a, b in want]
            if case['pattern']:
                want = [w for w in want if re.search(case['pattern'], w[0])]
            if case['sort']:
                want = sorted(want, key=lambda w: w[0])
            require(list(got) == [w[0] for w in want], lambda: f'listed {got}')
            require(list(times) == [w[1] for w in want], lambda: f'times {times}')
            ctx.nontrivial(len(want) > 1)
            ctx.label('list')
            return
        name = names[0]
        body = site.ftp['/pub/data/' + name]['body']
        if fault == 'missing':
            del site.ftp['/pub/data/' + name]
        elif fault == 'truncate':
            site.ftp['/pub/data/' + name]['truncate'] = len(body)//2
        arg = f'{host}/pub/data/{name}' if case['string'] else [host, 'pub', 'data', name]
        local = None
        if case['local']:
            local = ctx.tmp/('x/y/z' if case['local'] == 'deep' else 'f')/'a.bin'
            if case['local'] != 'deep':
                local.parent.mkdir()
            if case['local'] == 'old':
                local.write_bytes(b'previous')
            kw['local'] = str(local) if case['string'] else local
        digest = hashlib.md5(body).hexdigest()
        if case['hash']:
            kw['hash'] = digest if case['hash'] == 'same' else '1'
        if case['chunk']:
            kw['chunk'] = case['chunk']
        if case['mode']:
            kw['mode'] = case['mode']
        before = local.read_bytes() if local is not None and local.exists() else None
        if bad or fault:
            require(raises(lambda: U.from_ftp(arg, **kw)), 'failed download')
            after = local.read_bytes() if local is not None and local.exists() else None
            require(after == before, 'local file after a failure')
            ctx.label('fault')
            return
        out = U.from_ftp(arg, **kw)
    require(out.read() == body and out.filename == name, 'returned contents')
    if local is not None:
        if case['hash'] == 'same':
            after = local.read_bytes() if local.exists() else None
            require(after == before, 'file with the same hash is kept')
        else:
            require(local.read_bytes() == body, 'local contents')
            require(int(local.stat().st_mtime) == mt[name], 'remote modification time')
            require(stat.S_IMODE(local.stat().st_mode) == (case['mode'] or 0o775), 'permissions')
    ctx.nontrivial(local is not None and len(body) > 0)
    ctx.label('get')


# -------------------------------------------------------------------- json
@st.composite
def s_json(draw):
    doc = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**9, 10**9),
        st.text(max_size=8)), lambda s: st.one_of(st.lists(s, max_size=3),
        st.dictionaries(st.text(max_size=5), s, max_size=3)), max_leaves=8)
    return dict(doc=draw(doc), op=draw(st.sampled_from(['json', 'token', 'list', 'revoke', 'check',
        'credentials', 'opener'])), status=draw(st.sampled_from([200, 200, 200, 401, 404, 500])),
        user=draw(NAME), word=draw(NAME), string=draw(st.booleans()), refuse=draw(st.integers(0, 9)) == 0)


def b_json(case, ctx):
    site = net.Site()
    payload = json.dumps(case['doc']).encode()
    site.http['/api/x'] = dict(body=payload, status=case['status'])
    site.http['/api/x?token=' + case['word']] = dict(body=payload, status=case['status'])
    base = 'https://urs.test' if not case['refuse'] else 'https://nowhere.invalid'
    url = base + '/api/x'
    ok = case['status'] == 200 and not case['refuse']
    op = case['op']
    with net.served(site), quiet():
        if op == 'json':
            f = lambda: U.from_json(url if case['string'] else list(U.url_split(url)))
        elif op == 'token':
            f = lambda: U.get_token(HOST=url, build=False)
        elif op == 'list':
            f = lambda: U.list_tokens(HOST=url, build=False)
        elif op == 'revoke':
            f = lambda: U.revoke_token(case['word'], HOST=url, build=False)
        elif op == 'check':
            f = lambda: U.check_connection(url)
        elif op == 'credentials':
            f = lambda: U.check_credentials(url)
        else:
            def f():
                o = U.build_opener(case['user'], case['word'],
                    password_manager=case['string'], redirect=not case['string'])
                return json.loads(o.open(url).read())
        if not ok:
            require(raises(f), f'{op}: failure is reported')
            ctx.label('failure')
            return
        got = f()
        want = {'revoke': None, 'check': True, 'credentials': True}.get(op, case['doc'])
        require(got == want, lambda: f'{op}: {got!r}')
        method, host, path, heads = site.requests[-1]
        require(host == 'urs.test', 'host of the request')
        require(method == ('POST' if op in ('token', 'revoke') else 'GET'), f'{op}: method')
        if op == 'revoke':
            require(path == '/api/x?token=' + case['word'], 'revoked token')
        if op == 'json':
            require(heads.get('accept') == 'application/json', 'accepted type')
        if op == 'opener':
            auth = 'Basic ' + b64(f"{case['user']}:{case['word']}".encode())
            require(heads.get('authorization') == auth, 'authorization')
            # later requests carry the credentials as well
            urllib.request.urlopen(url).read()
            require(site.requests[-1][3].get('authorization') == auth, 'later requests')
    ctx.nontrivial(True)
    ctx.label(op)


# ---------------------------------------------------------------- challenge
@st.composite
def s_challenge(draw):
    return dict(user=draw(NAME), word=draw(NAME), manager=draw(st.sampled_from([True, True,
        False])), header=draw(st.integers(0, 3)) == 0, other=draw(st.integers(0, 2)) == 0,
        path=draw(NAME), realm=draw(st.sampled_from(['x', 'Please enter', ''])))


def b_challenge(case, ctx):
    """credentials are given to the login host when it asks for them, and to no other"""
    site = net.Site()
    auth = 'Basic ' + b64(f"{case['user']}:{case['word']}".encode())
    host = 'else.test' if case['other'] else 'urs.test'
    path = '/' + urllib.parse.quote(case['path'])

    def handler(method, where, heads):
        if heads.get('authorization') == auth:
            return dict(body=b'[1]')
        return dict(status=401, body=b'no', headers={'WWW-Authenticate':
            f'Basic realm="{case["realm"]}"'})
    site.handler = handler
    with net.served(site), quiet():
        o = U.build_opener(case['user'], case['word'], password_manager=case['manager'],
            authorization_header=case['header'], urs='https://urs.test')
        f = lambda: o.open(f'https://{host}{path}').read()
        if case['header'] or (case['manager'] and not case['other']):
            require(f() == b'[1]', 'answer to the challenge')
        else:
            require(raises(f), 'failure is reported')
            for r in site.requests:
                require('authorization' not in r[3], f'credentials are sent to {r[1]}')
    ctx.nontrivial(not case['header'])
    ctx.label('manager' if case['manager'] else '', 'other host' if case['other'] else '')


# -------------------------------------------------------------------- login
@st.composite
def s_login(draw):
    return dict(users=draw(st.lists(NAME, min_size=3, max_size=3, unique=True)),
        words=draw(st.lists(NAME, min_size=3, max_size=3, unique=True)),
        netrc=draw(st.sampled_from(['host', 'other', None])), env=draw(st.booleans()),
        args=draw(st.booleans()), good=draw(st.integers(0, 5)),
        retries=draw(st.integers(1, 4)), fn=draw(st.sampled_from(['login', 'token', 'list', 'revoke'])))


def b_login(case, ctx):
    """credentials from netrc, then arguments, then environment, then the prompt"""
    site = net.Site()
    urs = 'urs.test'
    creds = list(zip(case['users'], case['words']))
    attempts = [None]
    good = case['good']
    seen = []

    def handler(method, path, heads):
        if path == '/s3credentials':
            seen.append(heads.get('authorization'))
            return dict(status=200 if len(seen) > good else 401, body=b'{}')
        return dict(body=b'{"access_token": "x"}')
    site.handler = handler
    home = ctx.tmp/'home'
    home.mkdir()
    nc = home/'.netrc'
    if case['netrc']:
        nc.write_text(f"machine {urs if case['netrc'] == 'host' else 'else.test'} login "
            f"{creds[0][0]} password {creds[0][1]}\n")
    saved = {k: os.environ.get(k) for k in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD')}
    for k in saved:
        os.environ.pop(k, None)
    if case['env']:
        os.environ['EARTHDATA_USERNAME'], os.environ['EARTHDATA_PASSWORD'] = creds[1]
    kw = {}
    token = case['fn'] in ('token', 'list', 'revoke')
    if case['args']:
        kw.update(username=creds[2][0], password=creds[2][1])
    retries = 5 if token else case['retries']
    prompts = []
    ask, hide = U.builtins.input, U.getpass.getpass
    h = os.environ.get('HOME')
    os.environ['HOME'] = str(home)

    def user(prompt=''):
        prompts.append('user')
        return f'typed{len(prompts)}'

    def word(prompt=''):
        prompts.append('word')
        return f'secret{len(prompts)}'
    U.builtins.input, U.getpass.getpass = user, word
    try:
        with net.served(site), quiet():
            if token:
                fn = dict(token=U.get_token, list=U.list_tokens, revoke=U.revoke_token)[case['fn']]
                first = ('T0ken',) if case['fn'] == 'revoke' else ()
                call = lambda: fn(*first, HOST='https://urs.test/api', urs=urs, **kw)
            else:
                call = lambda: U.attempt_login(urs, netrc=nc, retries=retries, **kw)
            if good >= retries:
                require(raises(call, RuntimeError), 'end of retries')
            else:
                out = call()
                if case['fn'] == 'revoke':
                    require(site.requests[-1][2].endswith('/api?token=T0ken'), 'revoked token')
                elif token:
                    require(out == {'access_token': 'x'}, 'token')
                else:
                    require(hasattr(out, 'open'), 'opener')
    finally:
        U.builtins.input, U.getpass.getpass = ask, hide
        os.environ['HOME'] = h or '/root'
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    require(len(seen) == min(good + 1, retries), lambda: f'{len(seen)} attempts')
    enc = lambda u, p: 'Basic ' + b64(f'{u}:{p}'.encode())
    if case['netrc'] == 'host':
        want = enc(*creds[0])
    elif case['args']:
        want = enc(*creds[2])
    elif case['env'] and not token:
        want = enc(*creds[1])
    else:
        want = None
    if want is not None:
        require(seen[0] == want, 'credentials of the first attempt')
    if case['netrc']:
        require(stat.S_IMODE(nc.stat().st_mode) == 0o600, 'permissions of netrc')
    require(len(set(seen)) == len(seen), 'each attempt uses new credentials')
    ctx.nontrivial(want is not None and good < retries)
    ctx.label(case['fn'])


@st.composite
def s_drive(draw):
    return dict(users=draw(st.lists(NAME, min_size=3, max_size=3, unique=True)),
        words=draw(st.lists(NAME, min_size=3, max_size=3, unique=True)),
        fn=draw(st.sampled_from(['from_drive', 'drive_list'])), args=draw(st.booleans()),
        urs=draw(st.sampled_from([None, 'ecco.test'])), good=draw(st.booleans()),
        body=draw(st.text(max_size=40)))


def b_drive(case, ctx):
    """drive servers are asked with checked credentials: arguments, or those of netrc"""
    site = net.Site()
    creds = list(zip(case['users'], case['words']))
    enc = lambda u, p: 'Basic ' + b64(f'{u}:{p}'.encode())
    machines = ['podaac-tools.jpl.nasa.gov', 'ecco.test']
    use = creds[2] if case['args'] else creds[machines.index(case['urs'] or machines[0])]
    seen = []
    page = ('<html><body><table><tr><td><a class="text-left" href="/drive/x">x.gz</a></td>'
        '<td>1</td><td>2020-01-02 03:04:05</td></tr></table></body></html>').encode()

    def handler(method, path, heads):
        seen.append((path, heads.get('authorization')))
        ok = case['good'] and heads.get('authorization') == enc(*use)
        return dict(status=200 if ok else 401,
            body=page if case['fn'] == 'drive_list' else case['body'].encode())
    site.handler = handler
    home = ctx.tmp/'home'
    home.mkdir()
    nc = home/'.netrc'
    nc.write_text(''.join(f'machine {m} login {u} password {w}\n'
        for m, (u, w) in zip(machines, creds)))
    nc.chmod(0o600)
    kw = dict(username=use[0], password=use[1]) if case['args'] else {}
    if case['urs']:
        kw['urs'] = case['urs']
    h = os.environ.get('HOME')
    os.environ['HOME'] = str(home)
    try:
        with net.served(site), quiet():
            call = lambda: getattr(U, case['fn'])('https://drive.test/a/x.gz', **kw)
            if not case['good']:
                require(raises(call, RuntimeError), 'refused credentials are reported')
                require(all(not p.startswith('/a') for p, _ in seen),
                    'nothing is asked with refused credentials')
                ctx.label('refused')
                return
            got = call()
    finally:
        os.environ['HOME'] = h or '/root'
    if case['fn'] == 'from_drive':
        require(got.read() == case['body'].encode(), 'contents')
    else:
        require(list(got[0]) == ['x.gz'], lambda: f'listed {got}')
    require(seen[-1] == ('/a/x.gz', enc(*use)), 'request with the credentials')
    require(any(p.endswith('s3credentials') for p, _ in seen), 'credentials are checked')
    ctx.nontrivial(not case['args'])
    ctx.label(case['fn'])


# --------------------------------------------------------------------- cmr
MISSION = {'grace': 'GRAC', 'grace-fo': 'GRFO'}


@st.composite
def s_cmr(draw):
    mission = draw(st.sampled_from(['grace', 'grace-fo']))
    return dict(mission=mission, center=draw(st.sampled_from(['CSR', 'GFZ', 'JPL'])),
        product=draw(st.sampled_from(['GAA', 'GAB', 'GAC', 'GAD', 'GSM'])),
        solution=draw(st.sampled_from([None, 'BA01', 'BB01'])),
        version=draw(st.sampled_from([None, '0', '1', '2', '3'])),
        endpoint=draw(st.sampled_from([None, 'data', 's3'])), seed=draw(gen.seeds),
        pages=draw(st.lists(st.integers(0, 4), min_size=0, max_size=4)),
        lastheader=draw(st.booleans()), start=draw(st.sampled_from([None, '2002-04-01',
            '2018-06-01T12:00:00'])), end=draw(st.sampled_from([None, '2020-01-31'])),
        missing=draw(st.booleans()), op=draw(st.sampled_from(['granules', 'granules', 'metadata'])),
        pattern=draw(st.sampled_from([None, '', r'\.txt$', 'TN'])),
        provider=draw(st.sampled_from([None, 'PODAAC'])), empty=draw(st.integers(0, 5)) == 0)


REL = {'data': 'http://esipfed.org/ns/fedsearch/1.1/data#',
    's3': 'http://esipfed.org/ns/fedsearch/1.1/s3#',
    'documentation': 'http://esipfed.org/ns/fedsearch/1.1/documentation#'}


def b_cmr(case, ctx):
    r = gen.rng(case['seed'])
    endpoint = case['endpoint'] or 'data'
    pages = []
    want = []
    k = 0
    granules = case['op'] == 'granules'
    for n in case['pages']:
        if n == 0:
            continue
        entries = []
        had = False
        for _ in range(n):
            k += 1
            t = int(r.integers(10**9, 2*10**9))
            title = f'G{k:03d}_{int(r.integers(10**6))}'
            links = [dict(rel=REL['data'], href=f'https://d.test/{title}.gz'),
                dict(rel=REL['s3'], href=f's3://b/{title}.gz'),
                dict(rel=REL['documentation'], href=f'https://doc.test/TN-{k}.txt'),
                dict(rel='http://esipfed.org/ns/fedsearch/1.1/browse#', href='https://x.test/a.png')]
            if r.random() < .5:
                links.append(dict(rel=REL['data'], href=f'https://d.test/{title}.md5'))
                links.append(dict(rel=REL['s3'], href=f's3://b/{title}.md5'))
            r.shuffle(links)
            if case['missing'] and r.random() < .3 and had:
                links = [v for v in links if v['rel'] != REL[endpoint]]
            mine = [v['href'] for v in links if v['rel'] == REL[endpoint]]
            if mine:
                had = True
                if granules:
                    want.append((title, mine[0], t))
                else:
                    want.extend(mine)
            entries.append(dict(title=title, links=links,
                updated=time.strftime('%Y-%m-%dT%H:%M:%S.000Z', time.gmtime(t))))
        pages.append(dict(feed=dict(entry=entries)))
    if not granules:
        pages = pages[:1]
        want = want if len(pages) == 1 and len([n for n in case['pages'] if n]) == 1 else None
        if want is None:
            want = [v['href'] for e in (pages[0]['feed']['entry'] if pages else [])
                for v in e['links'] if v['rel'] == REL[endpoint]]
    seen = []

    def handler(method, path, heads):
        i = int(heads.get('cmr-search-after', 'p0')[1:])
        seen.append(path)
        if i < len(pages):
            h = {}
            if granules and (i + 1 < len(pages) or case['lastheader']):
                h['CMR-Search-After'] = f'p{i + 1}'
            return dict(body=json.dumps(pages[i]).encode(), headers=h)
        return dict(body=b'{"feed": {"entry": []}}' if not case['empty'] else b'{"errors": []}')
    site = net.Site()
    site.handler = handler
    kw = dict(mission=case['mission'], center=case['center'], release='RL06')
    if case['version'] is not None:
        kw['version'] = case['version']
    if case['endpoint']:
        kw['endpoint'] = case['endpoint']
    if case['provider']:
        kw['provider'] = case['provider']
    version = case['version'] or '0'
    with net.served(site), quiet():
        if granules:
            kw['product'] = case['product']
            if case['solution']:
                kw['solution'] = case['solution']
            if case['start']:
                kw['start_date'] = case['start']
            if case['end']:
                kw['end_date'] = case['end']
            got = U.cmr(**kw)
            require(len(got) == 3, 'names, addresses and times')
            got = [list(v) for v in got]
            for j, what in enumerate(['names', 'addresses', 'times']):
                require(got[j] == [w[j] for w in want], lambda: f'{what}: {got[j]}')
        else:
            if case['pattern'] is not None:
                kw['pattern'] = case['pattern']
            got = U.cmr_metadata(**kw)
            if case['pattern']:
                want = [w for w in want if re.search(case['pattern'], w)]
            require(list(got) == want, lambda: f'addresses: {got}')
    # parameters of the query
    require(len(seen) >= 1, 'a query')
    url = urllib.parse.urlsplit(seen[0])
    q = urllib.parse.parse_qs(url.query)
    require(url.path == '/search/' + ('granules' if granules else 'collections') + '.json',
        lambda: f'path of the query {url.path}')
    require(q['provider'] == [case['provider'] or 'POCLOUD'], 'provider')
    c = case['center']
    if case['mission'] == 'grace':
        prods = [p for p in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')
            if not (c == 'CSR' and p in ('GAA', 'GAB'))]
        short = [f'GRACE_{p}_L2_GRAV_{c}_RL06' for p in prods]
    else:
        short = [f'GRACEFO_L2_{c}_MONTHLY_006{version}']
    require(q['short_name'] == short, lambda: f"collections {q['short_name']}")
    if granules:
        iso = lambda s: '' if s is None else (s if 'T' in s else s + 'T00:00:00')
        require(q['temporal'] == [iso(case['start']) + ',' + iso(case['end'])], 'dates')
        pat = q['readable_granule_name[]'][0]
        sol = (case['solution'] or 'BA01') if case['product'] == 'GSM' else 'BC01'
        name = lambda p, s, v: f"{p}-2_2010001-2010031_{MISSION[case['mission']]}_UTCSR_{s}_06{v}"
        match = lambda s: re.fullmatch(re.escape(pat).replace(r'\?', '.').replace(r'\*', '.*'), s)
        n0 = name(case['product'], sol, '0' + version)
        require(match(n0) and match(n0 + '.gz'), lambda: f'{n0} matches {pat}')
        for p in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
            for s in ('BA01', 'BB01', 'BC01'):
                for v in '0123':
                    o = name(p, s, '0' + v)
                    require(bool(match(o)) == (o == n0), lambda: f'{o} against {pat}')
    ctx.nontrivial(len(want) > 1)
    ctx.label(case['op'], f'{len(pages)} pages')


# ------------------------------------------------------------------ patterns
@st.composite
def s_regex(draw):
    proc = draw(st.sampled_from(['CSR', 'GFZ', 'JPL']))
    drel = draw(st.sampled_from(['RL04', 'RL05', 'RL06'] + (['RL06.1LRI', 'RL06.2LRI']
        if proc == 'CSR' else [])))
    return dict(proc=proc, drel=drel, dset=draw(st.sampled_from(['GSM', 'GSM', 'GAC', 'GAD', 'GAA'])),
        mission=draw(st.sampled_from(['GRAC', 'GRFO'])),
        solution=draw(st.sampled_from([None, 'BA01', 'BB01'])),
        version=draw(st.sampled_from([None, '1', '2', 3, '00', 0])),
        bad=draw(st.sampled_from([None]*9 + ['mission', 'proc', 'dset'])))


def b_regex(case, ctx):
    proc, drel, dset = case['proc'], case['drel'], case['dset']
    rl6 = drel == 'RL06'
    lri = drel.endswith('LRI')
    kw = {}
    if rl6 or lri:
        kw['mission'] = case['mission']
    if case['solution'] and rl6:
        kw['solution'] = case['solution']
    if case['version'] is not None and rl6:
        kw['version'] = case['version']
    if case['bad']:
        a = dict(PROC=proc, DREL=drel, DSET=dset)
        if case['bad'] == 'mission':
            kw['mission'] = 'CHAM'
        elif case['bad'] == 'proc':
            a['PROC'] = 'XYZ'
        else:
            a['DSET'] = 'GXX'
        require(raises(lambda: U.compile_regex_pattern(**a, **kw), ValueError), 'unknown input')
        return
    rx = U.compile_regex_pattern(proc, drel, dset, **kw)
    sol = case['solution'] or 'BA01'
    ver = None if case['version'] is None else str(case['version']).zfill(2)
    C = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')[proc]
    date = '2010001-2010031'
    pool = {}

    def add(name, **tags):
        for z in ('', '.gz'):
            pool[name + z] = tags
    for d in ('GSM', 'GAC', 'GAD', 'GAA', 'GAB'):
        for m in ('GRAC', 'GRFO'):
            for s in ('BA01', 'BB01', 'BC01', 'EA01'):
                for v in ('0600', '0601', '0602', '0603'):
                    add(f'{d}-2_{date}_{m}_{C}_{s}_{v}', era=6, d=d, m=m, s=s, v=v)
        for v in (4, 5):
            if proc == 'CSR':
                add(f'{d}-2_{date}_0028_UTCSR_0060_000{v}', era=v, d=d)
                add(f'{d}-2_{date}_0028_UTCSR_0096_000{v}', era=v, d=d, odd=True)
            if proc == 'JPL':
                add(f'{d}-2_{date}_0028_JPLEM_0001_000{v}', era=v, d=d)
        if proc == 'GFZ':
            add(f'{d}-2_{date}_0028_EIGEN_G---_0004', era=4, d=d)
            add(f'{d}-2_{date}_0028_EIGEN_GK2-_0004', era=4, d=d, odd=True)
            add(f'{d}-2_{date}_0028_EIGEN_G---_005a', era=5, d=d)
            add(f'{d}-2_{date}_0028_EIGEN_GK2-_005a', era=5, d=d)
            add(f'{d}-2_{date}_0028_EIGEN_G---_0005', era=5, d=d, odd=True)
    for name, t in pool.items():
        got = bool(rx.match(name)) or bool(rx.search(name))
        if t['d'] != dset:
            want = False
        elif dset != 'GSM' and not (proc == 'JPL' and drel in ('RL04', 'RL05')):
            # dealiasing products by mission only
            want = t.get('m') == case['mission'] if (rl6 or lri) else True
        elif rl6:
            want = (t['era'] == 6 and t['m'] == case['mission'] and t['s'] == sol
                and (ver is None or t['v'] == '06' + ver))
        elif lri:
            want = (t['era'] == 6 and t['m'] == case['mission'] and t['s'] == 'EA01'
                and t['v'] == '060' + drel[5])
        else:
            want = t['era'] == int(drel[-1]) and not t.get('odd')
        require(got == want, lambda: f'{name}: {"" if got else "not "}matched by {rx.pattern}')
    for junk in (f'{dset}-3_{date}_x', 'README.txt'):
        require(not rx.match(junk), f'{junk} not matched')
    ctx.nontrivial(True)
    ctx.label(drel)


# ------------------------------------------------------------------ products
@st.composite
def s_products(draw):
    return dict(op=draw(st.sampled_from(['csr', 'gsfc', 'gfz', 'figshare', 'upload'])), seed=draw(gen.seeds),
        variables=draw(st.lists(st.sampled_from(['SLR', 'geocenter', 'LRI']), min_size=1, max_size=3,
            unique=True)), single=draw(st.booleans()), previous=draw(st.sampled_from([None, 'same', 'other'])),
        copy=draw(st.booleans()), fail=draw(st.integers(0, 4)) == 0, string=draw(st.booleans()),
        mode=draw(st.sampled_from([None, 0o770])))


def b_products(case, ctx):
    r = gen.rng(case['seed'])
    site = net.Site()
    top = ctx.tmp/'data'
    arg = str(top) if case['string'] else top
    kw = {} if case['mode'] is None else dict(mode=case['mode'])
    want = {}
    text = lambda: ''.join(f'{v:.6e}\n' for v in r.standard_normal(int(r.integers(1, 40)))).encode()
    op = case['op']
    slr = {'/pub/slr/degree_5/CSR_Monthly_5x5_Gravity_Harmonics.txt': '',
        '/pub/slr/degree_2/C20_RL06.txt': '', '/pub/slr/degree_2/C21_S21_RL06.txt': '',
        '/pub/slr/degree_2/C22_S22_RL06.txt': '', '/pub/slr/TN11E/TN11E.txt': ''}
    geo = {'/pub/slr/geocenter/GCN_L1_L2_30d_CF-CM.txt': 'geocenter',
        '/outgoing/cheng/gct2est.220_5s': 'geocenter'}

    def put(path, local, ftp=False):
        body = text()
        if ftp:
            site.ftp[path] = dict(body=body, mdtm=time.strftime('%Y%m%d%H%M%S',
                time.gmtime(int(r.integers(10**9, 2*10**9)))))
        else:
            site.http[path] = dict(body=body)
        want[local] = body
    if op == 'csr':
        vs = case['variables'][:1] if case['single'] else case['variables']
        for v, group in (('SLR', slr), ('geocenter', geo)):
            for p, d in group.items():
                if v in vs:
                    put(p, posixpath.join(d, posixpath.basename(p)))
        if 'LRI' in vs:
            page = lambda names: ('<html><table>' + ''.join(f'<tr><td><a href="{n}">{n}</a></td>'
                '<td align="right">2020-01-01 00:00</td></tr>' for n in names)
                + '</table></html>').encode()
            root = '/outgoing/gracefo/RL06.1LRI'
            years = ['2018/', '2019/'] if r.random() < .5 else ['2019', '2020']
            site.http[root] = dict(body=page(['../', *years]))
            for y in years:
                names = [f'{p}-2_{y[:4]}001-{y[:4]}031_GRFO_UTCSR_EA01_0601.gz'
                    for p in ('GAC', 'GAD', 'GSM') if r.random() < .8]
                site.http[f'{root}/{y}'] = dict(body=page(names))
                for n in names:
                    put(f'{root}/{y.rstrip("/")}/{n}', f'CSR/RL06.1LRI/{n[:3]}/{n}')
        call = lambda: U.from_csr(arg, variable=vs[0] if case['single'] else vs, **kw)
    elif op == 'gsfc':
        name = 'gsfc_slr_5x5c61s61.txt'
        put('/sites/default/files/geo/slr-weekly/' + name, name)
        body = b'Title\nData span:  3 Jan 1994 -  28 Dec 2019 (weekly)\n' + want[name]
        if r.random() < .5:
            body = body.replace(b' (weekly)', b'')
        site.http['/sites/default/files/geo/slr-weekly/' + name]['body'] = body
        want[name] = body
        if case['copy']:
            want['GSFC_SLR_5x5c61s61_199401_201912.txt'] = body
        call = lambda: U.from_gsfc(arg, **({'copy': True} if case['copy'] else {}), **kw)
    elif op == 'gfz':
        for p, d in (('/grace/Level-2/GFZ/RL06_SLR_C20/GFZ_RL06_C20_SLR.dat', ''),
                ('/grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', ''),
                ('/grace/GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GEOCENTER_0003.dat', 'geocenter')):
            put(p, posixpath.join(d, posixpath.basename(p)), ftp=True)
        call = lambda: U.from_gfz(arg, **kw)
    elif op == 'figshare':
        files = []
        for i, n in enumerate(['CSR_RL06_GSM_SLF_iter.txt', 'GFZ_RL06_x_SLF_iter.txt',
                'JPL_RL05_AOD_SLF_iter.txt', 'readme.txt', 'CSR_RL06_GSM_SLF.txt']):
            if r.random() < .2:
                continue
            body = text()
            site.http[f'/files/{i}'] = dict(body=body)
            bad = case['fail'] and n.endswith('iter.txt')
            files.append(dict(name=n, download_url=f'https://ndownloader.test/files/{i}',
                supplied_md5=hashlib.md5(body + b'x'*bad).hexdigest()))
            if n.endswith('iter.txt'):
                want['geocenter/' + n] = body
        site.http['/v2/articles/7388540'] = dict(body=json.dumps(dict(files=files)).encode())
        call = lambda: U.from_figshare(arg, **kw)
    else:
        sent, made, logins = {}, [], []

        class TLS:
            def __init__(self, host='', user='', passwd='', **k):
                logins.append((host, user, passwd))
            def set_debuglevel(self, n):
                pass
            def prot_p(self):
                logins.append('protected')
            def mkd(self, d):
                made.append(d)
                if case['fail']:
                    raise ftplib.error_perm('550 exists')
            def storbinary(self, cmd, fp, blocksize=8192, callback=None, rest=None):
                require(logins[-1] == 'protected', 'protected transfer')
                sent[cmd] = fp.read()
            def quit(self):
                pass
            close = quit
        top.mkdir()
        files = []
        for i in range(int(r.integers(0, 4))):
            f = top/f'file{i}.txt'
            f.write_bytes(text())
            files.append(str(f) if case['string'] else f)
        saved = ftplib.FTP_TLS
        ftplib.FTP_TLS = TLS
        try:
            U.to_figshare(files, username='u', password='p', directory='proj')
        finally:
            ftplib.FTP_TLS = saved
        require(made == ['data/proj'], 'directory')
        require(logins[0][1:] == ('u', 'p'), 'login')
        require(sent == {f'STOR data/proj/{pathlib.Path(f).name}': pathlib.Path(f).read_bytes()
            for f in files}, 'uploaded files')
        ctx.nontrivial(len(files) > 1)
        ctx.label(op)
        return
    # files of an earlier download
    if case['previous']:
        for n, b in want.items():
            p = top/n
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b if case['previous'] == 'same' else b'old')
            os.utime(p, (5e8, 5e8))
    with net.served(site), quiet():
        if case['fail'] and op == 'figshare':
            if want:
                require(raises(call), 'wrong checksum is reported')
            return
        if case['fail'] and op in ('csr', 'gsfc') and want:
            # one file missing on the server
            path = sorted(p for p in site.http if posixpath.basename(p) in
                {posixpath.basename(w) for w in want})[0]
            del site.http[path]
            require(raises(call), 'missing file is reported')
            return
        call()
    got = {str(p.relative_to(top)): p.read_bytes() for p in top.rglob('*') if p.is_file()}
    require(set(got) == set(want), lambda: f'files {sorted(set(got) ^ set(want))}')
    for n in want:
        require(got[n] == want[n], f'contents of {n}')
        if case['previous'] == 'same' and not n.startswith('GSFC_SLR'):
            require((top/n).stat().st_mtime == 5e8, f'unchanged {n} is not written again')
    ctx.nontrivial(len(want) > 0)
    ctx.label(op)


CHECKS = [
    Check('drive_login', s_drive, b_drive, quick=60, thorough=600,
        rule='credentials from netrc'),
    Check('hash', s_hash, b_hash, 600, rule='contents of a file or buffer'),
    Check('helpers', s_helpers, b_helpers, 200, rule='more than one part'),
    Check('time', s_time, b_time, 250, rule='dates in another local time zone'),
    Check('files', s_files, b_files, 150, rule='existing names and several new files'),
    Check('download', s_download, b_download, 350, rule='a local file'),
    Check('listing', s_listing, b_listing, 200, rule='more than one listed item'),
    Check('challenge', s_challenge, b_challenge, 120, rule='no header in advance'),
    Check('ftp', s_ftp, b_ftp, 250, rule='several items or a local file'),
    Check('json', s_json, b_json, 150, rule='successful exchanges'),
    Check('login', s_login, b_login, 100, rule='credentials without prompt accepted'),
    Check('cmr', s_cmr, b_cmr, 200, rule='more than one granule'),
    Check('regex', s_regex, b_regex, 150, rule='valid inputs'),
    Check('products', s_products, b_products, 120, rule='some file downloaded'),
]

"""Loopback HTTP and FTP servers, and redirection of every host to them"""
import contextlib
import ftplib
import http.client
import http.server
import os
import posixpath
import socket
import threading
import urllib.parse
import urllib.request


class Site:
    """content of the servers of a case"""

    def __init__(self):
        self.http = {}       # path -> dict(body, status, headers, truncate)
        self.ftp = {}        # path -> dict(body, mdtm, truncate)
        self.dirs = {}       # path -> list of names
        self.requests = []   # (method, host, path, headers)
        self.commands = []
        self.login = None    # required user and password
        self.handler = None  # handler(method, path, headers) -> dict or None


_site = [Site()]


class _HTTP(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.0'

    def log_message(self, *args):
        pass

    def serve(self, method):
        site = _site[0]
        size = int(self.headers.get('Content-Length') or 0)
        if size:
            self.rfile.read(size)
        heads = {k.lower(): v for k, v in self.headers.items()}
        site.requests.append((method, heads.get('host', ''), self.path, heads))
        page = site.handler(method, self.path, heads) if site.handler else None
        if page is None:
            page = site.http.get(self.path)
        if page is None:
            page = site.http.get(urllib.parse.unquote(self.path))
        if page is None:
            page = dict(status=404, body=b'not here')
        if page.get('drop'):
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        body = page.get('body', b'')
        self.send_response(page.get('status', 200))
        for k, v in page.get('headers', {}).items():
            self.send_header(k, v)
        if page.get('length', True):
            self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        cut = page.get('truncate')
        self.wfile.write(body if cut is None else body[:cut])

    def do_GET(self):
        self.serve('GET')

    def do_POST(self):
        self.serve('POST')


class _Server(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, request, client_address):
        pass


def _listener():
    """listening socket outside of the range of the ports given to clients"""
    for _ in range(1000):
        sock = socket.socket()
        # ports of closed connections are used again
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            sock.bind(('127.0.0.1', 12000 + int.from_bytes(os.urandom(2), 'big') % 20000))
            sock.listen(20)
            return sock
        except OSError:
            sock.close()
    raise OSError('no port to listen to')


def _ftp_session(conn):
    site = _site[0]
    conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    f = conn.makefile('rwb')

    def say(text):
        f.write((text + '\r\n').encode())
        f.flush()
    data = None
    user = None
    ok = False
    with contextlib.suppress(OSError, ValueError):
        say('220 ready')
        while True:
            line = f.readline()
            if not line:
                break
            cmd, _, arg = line.decode().strip().partition(' ')
            cmd = cmd.upper()
            site.commands.append((cmd, arg))
            if cmd == 'USER':
                user = arg
                say('331 password')
            elif cmd == 'PASS':
                ok = site.login is None or (user, arg) == tuple(site.login)
                say('230 in' if ok else '530 denied')
                site.commands.append(('LOGIN', (user, arg)))
            elif cmd == 'QUIT':
                say('221 bye')
                break
            elif not ok:
                say('530 not logged in')
            elif cmd in ('TYPE', 'NOOP', 'MODE', 'STRU'):
                say('200 ok')
            elif cmd == 'PASV':
                # one port for the transfers of a session
                if data is None:
                    data = _listener()
                p = data.getsockname()[1]
                say(f'227 passive (127,0,0,1,{p//256},{p % 256})')
            elif cmd in ('NLST', 'RETR'):
                key = '/' + arg.strip('/')
                if cmd == 'NLST':
                    names = site.dirs.get(key)
                    item = None if names is None else dict(
                        body=''.join(posixpath.join(arg, n) + '\r\n' for n in names).encode())
                else:
                    item = site.ftp.get(key)
                # the client connects before it sends the command
                c, _a = data.accept()
                if item is None or item.get('denied'):
                    c.close()
                    say('550 no such file')
                    continue
                say('150 opening')
                cut = item.get('truncate')
                c.sendall(item['body'] if cut is None else item['body'][:cut])
                c.close()
                say('226 done' if cut is None else '426 aborted')
            elif cmd == 'MDTM':
                item = site.ftp.get('/' + arg.strip('/'))
                say('550 not a file' if item is None or item.get('nodate')
                    else '213 ' + item['mdtm'])
            else:
                say('502 unknown')
    conn.close()
    if data is not None:
        data.close()


_ports = {}


def _start():
    if _ports.get('pid') == os.getpid():
        return
    web = _Server(('127.0.0.1', 0), _HTTP, bind_and_activate=False)
    web.socket.close()
    web.socket = _listener()
    web.server_address = web.socket.getsockname()
    threading.Thread(target=web.serve_forever, daemon=True).start()
    sock = _listener()

    def loop():
        while True:
            conn, _ = sock.accept()
            threading.Thread(target=_ftp_session, args=(conn,), daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()
    _ports.update(pid=os.getpid(), http=web.server_address[1], ftp=sock.getsockname()[1])
    _ports['keep'] = (web, sock)


@contextlib.contextmanager
def served(site):
    """every connection to the standard ports of any host goes to the servers"""
    _start()
    _site[0] = site
    create = socket.create_connection
    https = urllib.request.HTTPSHandler.https_open
    opener = urllib.request._opener
    saved = {k: os.environ.pop(k) for k in list(os.environ)
        if k.lower() in ('http_proxy', 'https_proxy', 'ftp_proxy', 'all_proxy')}

    def connect(address, *args, **kwargs):
        host, port = address
        if port in (80, 443):
            address = ('127.0.0.1', _ports['http'])
        elif port == 21:
            address = ('127.0.0.1', _ports['ftp'])
        if host.endswith('.invalid'):
            raise socket.gaierror(-2, 'Name or service not known')
        return create(address, *args, **kwargs)

    def secure(self, req):
        return self.do_open(http.client.HTTPConnection, req)
    socket.create_connection = connect
    urllib.request.HTTPSHandler.https_open = secure
    try:
        yield site
    finally:
        socket.create_connection = create
        urllib.request.HTTPSHandler.https_open = https
        urllib.request._opener = opener
        os.environ.update(saved)

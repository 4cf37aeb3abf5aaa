"""A minimal HTTP/1.1 server for simulated peers: keep-alive, three ways to frame a body, and misbehaviour on order."""
from urllib.parse import unquote_plus, urlsplit


class Request(object):
    def __init__(self, conn, line, headers, body):
        self.conn = conn
        parts = line.split(' ')
        self.method = parts[0]
        self.target = parts[1] if len(parts) > 1 else ''
        self.headers = headers      # list of (lower name, value)
        self.body = body
        u = urlsplit(self.target)
        self.path = u.path
        self.query = []             # list of (name, value), decoded as a form
        for part in u.query.split('&') if u.query else []:
            n, _, v = part.partition('=')
            self.query.append((_dec(n), _dec(v)))

    def header(self, name):
        for n, v in self.headers:
            if n == name:
                return v
        return None


def _dec(s):
    try:
        return unquote_plus(s, 'utf-8', 'strict')
    except UnicodeDecodeError:
        return unquote_plus(s, 'latin-1')


class Server(object):
    """app(request) -> response dict: status, reason, headers, body, framing, cut, how, delay, close."""

    def __init__(self, world, names, ip, ports, app, idle=None):
        self.w = world
        self.k = world.k
        self.app = app
        self.idle = idle
        self.n = 0
        for name in names:
            for port in ports:
                world.net.listen(name, ip, port, self._factory)

    def _factory(self, conn):
        return Session(self, conn)


class Session(object):
    def __init__(self, server, conn):
        self.s = server
        self.k = server.k
        self.conn = conn
        self.buf = b''
        self.open = True
        self.gen = 0

    def on_open(self, conn):
        self._idle()

    def on_eof(self, conn):
        self.open = False
        conn.server_close()

    def on_reset(self, conn):
        self.open = False

    def _idle(self):
        self.gen += 1
        if self.s.idle:
            self.k.after(self.s.idle, self._idle_close, self.gen)

    def _idle_close(self, gen):
        if self.open and gen == self.gen:
            self.k.probe('server_idle_close')
            self.k.log('idle_close', self.conn.ordinal)
            self.conn.fired.append((self.k.now, 'idle_close'))
            self.open = False
            self.conn.server_close()

    def on_data(self, conn, data):
        self.buf += data
        while self.open:
            end = self.buf.find(b'\r\n\r\n')
            if end < 0:
                return
            lines = self.buf[:end].decode('latin-1').split('\r\n')
            headers = []
            for ln in lines[1:]:
                n, _, v = ln.partition(':')
                headers.append((n.strip().lower(), v.strip()))
            h = dict(headers)
            n = int(h.get('content-length', 0) or 0)
            if len(self.buf) < end + 4 + n:
                return
            body = self.buf[end + 4:end + 4 + n]
            self.buf = self.buf[end + 4 + n:]
            req = Request(conn, lines[0], headers, body)
            self.s.n += 1
            self.k.log('http', conn.ordinal, req.target)
            self.gen += 1
            r = self.s.app(req)
            if r is None:           # says nothing, then resets
                conn.fired.append((self.k.now, 'mute'))
                self.k.after(600.0, conn.server_reset)
                return
            if r.get('delay'):
                self.k.after(r['delay'], self._respond, r)
            else:
                self._respond(r)

    def _respond(self, r):
        if not self.open:
            return
        body = r.get('body', b'')
        framing = r.get('framing', 'length')
        headers = list(r.get('headers', ()))
        if framing == 'length':
            headers.append(('Content-Length', str(len(body))))
            payload = body
        elif framing == 'chunked':
            headers.append(('Transfer-Encoding', 'chunked'))
            payload = b''
            i = 0
            sizes = r.get('chunks') or [64]
            j = 0
            while i < len(body):
                n = sizes[j % len(sizes)]
                j += 1
                piece = body[i:i + n]
                payload += b'%x\r\n' % len(piece) + piece + b'\r\n'
                i += len(piece)
            payload += b'0\r\n\r\n'
        else:
            payload = body
            headers.append(('Connection', 'close'))
        close = framing == 'close' or r.get('close')
        if r.get('close') and framing != 'close':
            headers.append(('Connection', 'close'))
        head = 'HTTP/1.1 %d %s\r\n' % (r.get('status', 200), r.get('reason', 'OK'))
        head += ''.join('%s: %s\r\n' % h for h in headers) + '\r\n'
        data = head.encode('latin-1') + payload
        cut = r.get('cut')
        if cut is not None and cut < len(data):
            self.k.fault('http_cut_' + r.get('how', 'fin'))
            self.conn.fired.append((self.k.now, 'cut'))
            data = data[:max(0, cut)]
            if data:
                self.conn.server_send(data)
            self.open = False
            if r.get('how') == 'rst':
                self.k.after(1.0, self.conn.server_reset)
            else:
                self.conn.server_close()
            return
        # in several writes, as servers do
        self.conn.server_send(data[:len(head)])
        self.conn.server_send(data[len(head):]) if len(data) > len(head) else None
        if close:
            self.open = False
            self.conn.server_close()
        else:
            self._idle()

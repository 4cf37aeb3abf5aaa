"""Simulated TCP/IP: sockets used by the code under test, and the server side of each connection.

Only the client end is a socket object (the code under test only ever connects out); the server end is a
handler object with on_open/on_data/on_eof/on_reset callbacks that run as kernel events.
"""
import errno
import io
import os
import socket as _real
import time as _time

from .kernel import SimKill, HarnessError

_REAL_SOCKET = _real.socket

KERNEL = [None]  # the kernel of the run in progress (one per OS process at a time)


def _k():
    k = KERNEL[0]
    if k is None or k.finished:
        raise SimKill()
    return k


class Network(object):
    def __init__(self, kernel, cfg=None):
        cfg = cfg or {}
        self.k = kernel
        self.listeners = {}   # (ip, port) -> factory(conn) -> handler
        self.hosts = {}       # name -> ip
        self.down = set()     # ips not answering (host down: refuse)
        self.conns = []
        self.latency = cfg.get('latency', 0.01)
        self.jitter = cfg.get('jitter', 0.0)
        self.seg = cfg.get('seg', 'whole')      # whole | random | bytes
        self.connect_faults = {}                # connect ordinal -> kind
        self.conn_faults = {}                   # conn ordinal -> list of faults
        self.dns_faults = set()                 # ordinal of lookups that fail
        self.n_connects = 0
        self.n_lookups = 0
        self.keepalive = cfg.get('keepalive', 900.0)

    def listen(self, name, ip, port, factory):
        self.hosts[name] = ip
        self.hosts[ip] = ip
        self.listeners[(ip, port)] = factory


class Conn(object):
    def __init__(self, net, ordinal, label):
        self.net = net
        self.k = net.k
        self.ordinal = ordinal
        self.label = label
        self.handler = None
        self.rx = bytearray()       # delivered to the client socket, not read yet
        self.rx_eof = False
        self.client_err = None      # errno the client sees once rx is drained
        self.server_open = True     # the server can still receive
        self.client_open = True     # client socket not closed
        self.client_wr_shut = False
        self.server_closed = False  # server has sent FIN
        self.dead = False           # reset
        self.last = {'c2s': 0.0, 's2c': 0.0}
        self.queued = {'c2s': 0, 's2c': 0}
        self.delivered = {'c2s': 0, 's2c': 0}
        self.read_total = 0
        self.faults = sorted(net.conn_faults.get(ordinal, []), key=lambda f: f['at'])
        self.hole = False
        self.sends = []             # times of client writes
        self.fired = []             # (time, fault kind)
        self._gates = {}
        self.rng = net.k.rng('net%d' % ordinal)

    # -- segmentation and delay ---------------------------------------------------------------------------
    def _chunks(self, data):
        mode = self.net.seg
        if mode == 'whole' or len(data) <= 1:
            return [data]
        if mode == 'bytes' and len(data) <= 64:
            return [data[i:i + 1] for i in range(len(data))]
        out = []
        i = 0
        while i < len(data):
            if self.rng.random() < 0.3:
                n = self.rng.randint(1, 4)
            else:
                n = self.rng.randint(1, max(2, len(data)))
            out.append(data[i:i + n])
            i += n
        return out

    def _transmit(self, direction, item):
        net = self.net
        d = net.latency + (self.rng.random() * net.jitter if net.jitter else 0.0)
        t = max(self.last[direction], self.k.now + d)
        self.last[direction] = t
        self.k.at(t, self._deliver, direction, item)

    def _send(self, direction, data):
        data = bytes(data)
        self.queued[direction] += len(data)
        # cut at fault boundaries so that a fault at byte N takes effect after exactly N bytes
        cuts = [f['at'] for f in self.faults if f['dir'] == direction]
        pos = self.queued[direction] - len(data)
        for chunk in self._chunks(data):
            while chunk:
                cut = [c - pos for c in cuts if pos < c < pos + len(chunk)]
                if cut:
                    n = min(cut)
                    self._transmit(direction, chunk[:n])
                    pos += n
                    chunk = chunk[n:]
                else:
                    self._transmit(direction, chunk)
                    pos += len(chunk)
                    chunk = b''

    def _deliver(self, direction, item):
        gate = self._gates.get(direction)
        if gate is not None:
            gate.append(item)
        else:
            self._deliver_now(direction, item)

    def _deliver_now(self, direction, item):
        if self.dead or self.hole:
            return
        k = self.k
        if item is None:  # FIN
            if direction == 's2c':
                self.rx_eof = True
            elif self.server_open:
                self.server_open = False
                if self.handler:
                    self.handler.on_eof(self)
            return
        f = self._due(direction)
        if f is not None and self._fire(f, direction, item):
            return
        self.delivered[direction] += len(item)
        if direction == 's2c':
            if self.client_open:
                self.rx += item
            else:
                self.reset_from_client()
                return
        elif self.server_closed_hard:
            k.after(self.net.latency, self.hard_reset, errno.ECONNRESET)
        elif self.server_open:
            self.handler.on_data(self, item)
        f = self._due(direction)
        if f is not None:
            self._fire(f, direction, None)

    server_closed_hard = False

    def _due(self, direction):
        for f in self.faults:
            if f['dir'] == direction and not f.get('_done') and self.delivered[direction] >= f['at']:
                return f
        return None

    def _fire(self, f, direction, item):
        """Returns True if the item was consumed (dropped or rescheduled)."""
        f['_done'] = True
        kind = f['kind']
        k = self.k
        self.fired.append((k.now, kind))
        k.fault('net_' + kind)
        if kind == 'rst':
            self.hard_reset(errno.ECONNRESET)
            return True
        if kind == 'fin':
            # the peer process died cleanly: client sees EOF, server loses the connection
            self.rx_eof = True
            self.server_open = False
            self.server_closed_hard = True
            self.drop_s2c = True
            if self.handler:
                h, self.handler_lost = self.handler, True
                h.on_reset(self)
            return True
        if kind == 'stall':
            t = k.now + f.get('secs', 30.0)
            self.last[direction] = max(self.last[direction], t)
            if item is not None:
                self._gate(direction, t, item)
                return True
            self._gate(direction, t, b'')
            return False
        if kind == 'hole':
            self.hole = True
            k.after(self.net.keepalive, self._hole_end)
            return True
        raise HarnessError('unknown net fault %r' % kind)

    drop_s2c = False
    handler_lost = False

    def _hole_end(self):
        if self.dead:
            return
        self.hole = False
        self.hard_reset(errno.ETIMEDOUT)

    def _gate(self, direction, until, item):
        """Stall: hold back this and every later item of the direction (FIFO) until the given time."""
        g = self._gates.get(direction)
        if g is None:
            self._gates[direction] = [item]
            self.k.at(until, self._ungate, direction)
        else:
            g.append(item)

    def _ungate(self, direction):
        items = self._gates.pop(direction, [])
        for it in items:
            if it != b'':
                self._deliver(direction, it)

    def hard_reset(self, err):
        if self.dead:
            return
        self.dead = True
        self.client_err = err
        self.server_open = False
        self.k.log('reset', self.ordinal, err)
        if self.handler and not self.handler_lost:
            self.handler_lost = True
            self.handler.on_reset(self)

    def reset_from_client(self):
        if self.dead:
            return
        self.dead = True
        self.client_err = errno.ECONNRESET
        self.server_open = False
        if self.handler and not self.handler_lost:
            self.handler_lost = True
            self.handler.on_reset(self)

    # -- server API ---------------------------------------------------------------------------------------
    def server_send(self, data):
        if self.dead or self.server_closed or self.drop_s2c:
            return
        self._send('s2c', data)

    def server_close(self):
        """Send FIN after everything already sent."""
        if self.dead or self.server_closed:
            return
        self.server_closed = True
        self.server_closed_hard = True
        self._transmit('s2c', None)

    def server_reset(self):
        self.k.after(self.net.latency, self.hard_reset, errno.ECONNRESET)
        self.server_closed = True

    # -- client API ---------------------------------------------------------------------------------------
    def client_send(self, data):
        if self.dead:
            err = self.client_err
            raise OSError(err or errno.EPIPE, os.strerror(err or errno.EPIPE))
        self.sends.append(self.k.now)
        self._send('c2s', data)

    def client_close(self, silent=False):
        if not self.client_open:
            return
        self.client_open = False
        self.k.log('cclose', self.ordinal)
        if silent:
            self.hole = True
            self.k.after(self.net.keepalive, self._hole_end)
            return
        if self.dead:
            return
        if self.rx:
            # unread data: the OS answers with RST
            self.k.after(self.net.latency, self.reset_from_client)
        elif not self.client_wr_shut:
            self.client_wr_shut = True
            self._transmit('c2s', None)

    def client_shutdown(self):
        if not self.client_wr_shut and not self.dead:
            self.client_wr_shut = True
            self._transmit('c2s', None)


class SimSocket(object):
    """Stand-in for socket.socket."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        k = _k()
        k.y()
        if k.current is None:
            raise HarnessError('socket created outside a task')
        self.k = k
        self.proc = k.current.proc
        self.family = _real.AF_INET if family == -1 else family
        self.type = _real.SOCK_STREAM if type == -1 else type
        self.proto = 0 if proto == -1 else proto
        self._io_refs = 0
        self._closed = False
        self._timeout = None
        self.conn = None
        self.really_closed = False
        self.proc.sockets.append(self)
        k.log('socket', self.proc.name)
        k.stats['sockets'] = k.stats.get('sockets', 0) + 1
        f = self.proc.__dict__.get('socket_fault')
        if f:
            f -= 1
            self.proc.socket_fault = f
            if f == 0:
                self.really_closed = True
                self.proc.sockets.remove(self)
                k.fault('emfile')
                raise OSError(errno.EMFILE, os.strerror(errno.EMFILE))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if not self._closed:
            self.close()

    def __repr__(self):
        return '<SimSocket %s>' % (self.conn.ordinal if self.conn else None)

    makefile = _REAL_SOCKET.makefile

    def fileno(self):
        return -1 if self.really_closed else 1000

    def getpeername(self):
        if not self.conn:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        return self.conn.label

    def getsockname(self):
        return ('10.0.0.2', 40000)

    def setsockopt(self, *a):
        self._live()

    def getsockopt(self, *a):
        return 0

    def settimeout(self, value):
        self._live()
        self._timeout = None if value is None else float(value)

    def gettimeout(self):
        return self._timeout

    @property
    def timeout(self):
        return self._timeout

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def _live(self):
        k = self.k
        if k.finished or (k.current is not None and k.current.proc.dead):
            raise SimKill()
        if self.really_closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))

    def _deadline(self):
        return None if self._timeout is None else self.k.now + self._timeout

    def connect(self, address):
        self._live()
        k = self.k
        k.y()
        net = k.net
        if self.conn is not None:
            raise OSError(errno.EISCONN, os.strerror(errno.EISCONN))
        host, port = address[0], address[1]
        ip = resolve(k, host)
        n = net.n_connects
        net.n_connects += 1
        kind = net.connect_faults.get(n)
        k.log('connect', self.proc.name, ip, port, n, kind or '')
        if kind == 'interrupt':
            kind = None
            k.fault('connect_interrupt')
            k.current.pending_exc = KeyboardInterrupt()
            k.wait(lambda: False, None, 'connect')
        if kind == 'timeout':
            k.fault('connect_timeout')
            dl = self._deadline()
            t = k.now + 127.0
            if dl is not None and dl < t:
                k.sleep(max(0.0, dl - k.now))
                raise _real.timeout('timed out')
            k.sleep(127.0)
            raise OSError(errno.ETIMEDOUT, os.strerror(errno.ETIMEDOUT))
        arrive = k.now + net.latency * 2
        k.at(arrive, _nop)
        k.wait(lambda: k.now >= arrive, None, 'connect')
        self._live()
        if kind == 'unreachable':
            k.fault('connect_unreachable')
            raise OSError(errno.EHOSTUNREACH, os.strerror(errno.EHOSTUNREACH))
        factory = net.listeners.get((ip, port))
        if kind == 'refuse' or factory is None or ip in net.down:
            if kind == 'refuse':
                k.fault('connect_refuse')
            raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
        conn = Conn(net, len(net.conns), (ip, port))
        net.conns.append(conn)
        conn.proc = self.proc
        self.conn = conn
        conn.handler = factory(conn)
        k.log('open', conn.ordinal)
        conn.handler.on_open(conn)

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno
        return 0

    def _need_conn(self):
        self._live()
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))

    def sendall(self, data, flags=0):
        # same complaint as the real thing for text
        mv = memoryview(data)
        self._need_conn()
        k = self.k
        k.y()
        self._live()
        b = bytes(mv)
        c = self.conn
        k.log('send', c.ordinal, len(b))
        try:
            if c.client_wr_shut:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            c.client_send(b)
        except OSError as e:
            k.log('senderr', c.ordinal, e.errno)
            raise
        k.y()

    def send(self, data, flags=0):
        n = memoryview(data).nbytes
        b = bytes(memoryview(data))
        if n > 1 and self.conn is not None and self.conn.net.seg != 'whole':
            b = b[:self.conn.rng.randint(1, n)]  # short write
            self.k.count('short_write')
        self.sendall(b, flags)
        return len(b)

    def _readable(self):
        c = self.conn
        return bool(c.rx) or c.rx_eof or c.dead or self.__dict__.get('rd_shut')

    def recv(self, bufsize, flags=0):
        self._need_conn()
        k = self.k
        c = self.conn
        if bufsize < 0:
            raise ValueError('negative buffersize in recv')
        if flags & _real.MSG_PEEK:
            return bytes(c.rx[:bufsize])
        f = self.proc.__dict__.get('recv_interrupt')
        if f is not None and k.current.is_main:
            f -= 1
            self.proc.recv_interrupt = f if f > 0 else None
            if f == 0:
                k.fault('interrupt')
                raise KeyboardInterrupt()
        if not k.wait(self._readable, self._deadline(), 'recv'):
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            raise _real.timeout('timed out')
        self._live()
        if c.rx:
            n = min(bufsize, len(c.rx))
            if n > 1 and c.net.seg == 'bytes' and c.rng.random() < 0.5:
                n = c.rng.randint(1, n)
            out = bytes(c.rx[:n])
            del c.rx[:n]
            c.read_total += n
            k.log('recv', c.ordinal, n)
            return out
        if c.rx_eof or self.__dict__.get('rd_shut'):
            k.log('recv', c.ordinal, 0)
            return b''
        err = c.client_err or errno.ECONNRESET
        k.log('recverr', c.ordinal, err)
        raise OSError(err, os.strerror(err))

    def recv_into(self, buffer, nbytes=0, flags=0):
        mv = memoryview(buffer).cast('B') if memoryview(buffer).format != 'B' else memoryview(buffer)
        n = nbytes or len(mv)
        data = self.recv(n, flags)
        mv[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        self._need_conn()
        k = self.k
        k.y()
        if self.conn.dead:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        if how in (_real.SHUT_RD, _real.SHUT_RDWR):
            self.rd_shut = True
        if how in (_real.SHUT_WR, _real.SHUT_RDWR):
            self.conn.client_shutdown()
        k.log('shutdown', self.conn.ordinal)

    def detach(self):
        self._closed = True
        return -1

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def _reuse(self):
        pass

    def _drop(self):
        pass

    def close(self):
        k = self.k
        if k.finished:
            return
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def _real_close(self):
        if self.really_closed:
            return
        k = self.k
        if k.current is not None and k.current.proc is self.proc and not self.proc.dead:
            k.y()
        self.really_closed = True
        if self in self.proc.sockets:
            self.proc.sockets.remove(self)
        if self.conn is not None:
            self.conn.client_close()
        f = self.proc.__dict__.get('close_fault')
        if f:
            f -= 1
            self.proc.close_fault = f
            if f == 0:
                k.fault('close_eio')
                raise OSError(errno.EIO, os.strerror(errno.EIO))

    def _on_proc_death(self, silent):
        self.really_closed = True
        self._closed = True
        if self.conn is not None:
            self.conn.client_close(silent=silent)


def _nop():
    pass


def resolve(k, host):
    net = k.net
    if host in net.hosts:
        return net.hosts[host]
    parts = str(host).split('.')
    if len(parts) == 4 and all(p.isdigit() for p in parts):
        return host
    raise _real.gaierror(_real.EAI_NONAME, 'Name or service not known')


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    k = _k()
    k.y()
    net = k.net
    n = net.n_lookups
    net.n_lookups += 1
    if n in net.dns_faults:
        k.fault('dns')
        k.sleep(5.0)
        raise _real.gaierror(_real.EAI_AGAIN, 'Temporary failure in name resolution')
    ip = resolve(k, host)
    return [(_real.AF_INET, _real.SOCK_STREAM, 6, '', (ip, int(port)))]


def sim_wait_for_read(sock, timeout=None):
    k = _k()
    if sock.conn is None:
        return False
    if timeout == 0.0:
        return sock._readable()
    return k.wait(sock._readable, None if timeout is None else k.now + timeout, 'wait_for_read')


_INSTALLED = []


def install():
    """Replace, for the rest of this OS process, every door to the real network and the real clock."""
    if _INSTALLED:
        return
    _INSTALLED.append(1)
    import urllib3.connection as uc
    import urllib3.util.wait as uw
    import requests  # noqa: F401  (imported before patching)
    import mysql.connector
    import mysql.connector.connection as mc

    # process id, host name and platform of the real machine must not reach the wire
    mc.MySQLConnection._add_default_conn_attrs = \
        lambda self: self._conn_attrs.update({'_client_name': 'mysql-connector-python'})

    # finalizers run whenever the real garbage collector pleases; nothing of a run may depend on them
    import mysql.connector.network as mn
    mn.MySQLSocket.__del__ = lambda self: None

    _real.socket = SimSocket
    _real.SocketType = SimSocket
    _real.getaddrinfo = sim_getaddrinfo
    _real.gethostbyname = lambda h: resolve(_k(), h)
    _real.has_ipv6 = False

    def no(*a, **kw):
        raise HarnessError('unexpected real socket use')
    _real.socketpair = no
    uc.wait_for_read = sim_wait_for_read
    uw.wait_for_read = sim_wait_for_read

    def https_connect(self):
        # TLS is a stub: the byte stream is carried in the clear, certificate checks are out of scope
        self.sock = self._new_conn()
        self.is_verified = True
        if self.proxy is None:
            self.proxy_is_verified = None
        self._has_connected_to_proxy = bool(self.proxy)
    uc.HTTPSConnection.connect = https_connect
    try:
        import urllib3.contrib.pyopenssl  # noqa: F401
    except ImportError:
        pass

    real_time = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep')}
    REAL.update(real_time)

    def now():
        k = KERNEL[0]
        return k.now if k is not None else real_time['time']()

    def mono():
        k = KERNEL[0]
        return (k.now - k.start + 1000.0) if k is not None else real_time['monotonic']()

    def slp(s):
        k = KERNEL[0]
        if k is None or k.current is None:
            return real_time['sleep'](s)
        k.sleep(s)
    _time.time = now
    _time.monotonic = mono
    _time.perf_counter = mono
    _time.sleep = slp
    for n in list(os.environ):
        if n.lower().endswith('_proxy') or n in ('NETRC', 'REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE'):
            del os.environ[n]
    os.environ['NO_PROXY'] = '*'


REAL = {'time': _time.time, 'monotonic': _time.monotonic, 'perf_counter': _time.perf_counter,
        'sleep': _time.sleep}

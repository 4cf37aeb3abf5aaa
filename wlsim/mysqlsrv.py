"""A simulated MySQL server: wire protocol 4.1 in front of the SQL engine, with crashes, kills and statement errors.

Statements run atomically at one instant of simulated time; waiting for row locks, time-outs, deadlocks, lost
connections, idle time-outs, restarts and errors follow the behaviour of a MySQL 8.0 / InnoDB server.
"""
import datetime
import hashlib
import struct
from decimal import Decimal as D

from . import sqlengine as S

FEATURES = 1 | 2 | 4 | 8 | 512 | 8192 | 32768 | (1 << 16) | (1 << 17) | (1 << 18) | (1 << 19)
TYPES = {'int': 8, 'dec': 246, 'datetime': 12, 'date': 10, 'time': 11, 'year': 13, 'enum': 254, 'str': 253, 'float': 5}
MESSAGES = {
    1205: ('HY000', 'Lock wait timeout exceeded; try restarting transaction'),
    1213: ('40001', 'Deadlock found when trying to get lock; try restarting transaction'),
    1114: ('HY000', "The table is full"),
    1021: ('HY000', "Disk full (/tmp/#sql); waiting for someone to free some space..."),
    1317: ('70100', 'Query execution was interrupted'),
    3024: ('HY000', 'Query execution was interrupted, maximum statement execution time exceeded'),
    1180: ('HY000', 'Got error 168 during COMMIT'),
    1290: ('HY000', 'The MySQL server is running with the --read-only option so it cannot execute this statement'),
    1040: ('08004', 'Too many connections'),
    1053: ('08S01', 'Server shutdown in progress'),
    1927: ('70100', 'Connection was killed'),
    4031: ('HY000', 'The client was disconnected by the server because of inactivity.'),
}


def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 65536:
        return b'\xfc' + struct.pack('<H', n)
    if n < 1 << 24:
        return b'\xfd' + struct.pack('<I', n)[:3]
    return b'\xfe' + struct.pack('<Q', n)


def lenstr(b):
    return lenenc(len(b)) + b


def scramble_native(password, salt):
    if not password:
        return b''
    a = hashlib.sha1(password).digest()
    b = hashlib.sha1(salt + hashlib.sha1(a).digest()).digest()
    return bytes(x ^ y for x, y in zip(a, b))


def scramble_sha2(password, salt):
    if not password:
        return b''
    a = hashlib.sha256(password).digest()
    b = hashlib.sha256(hashlib.sha256(a).digest() + salt).digest()
    return bytes(x ^ y for x, y in zip(a, b))


def category(sql):
    w = sql.lstrip().split(None, 1)[0].rstrip(';').lower() if sql.strip() else ''
    return w if w in ('select', 'insert', 'update', 'delete', 'commit', 'rollback') else 'other'


class MySQL(object):
    def __init__(self, world, cfg, faults=(), name='db', ip='10.0.3.1', port=3306):
        """cfg: user, password, database, plugin, delay, lock_timeout, idle.
        faults: {'at': 'sql', 'cat': ..., 'n': ordinal within the category, 'kind': ...}"""
        self.w = world
        self.k = world.k
        self.cfg = cfg
        self.ip = ip
        self.tables = cfg['tables']
        self.rng = self.k.rng('mysql')
        epoch = datetime.datetime(1970, 1, 1)
        self.engine = S.Engine(self.tables, self.k.rng('sqlorder'),
                               lambda: epoch + datetime.timedelta(seconds=int(self.k.now)))
        self.engine.on_release = self._released
        self.faults = {}
        for f in faults:
            if f.get('at') == 'sql':
                self.faults.setdefault((f['cat'], f['n']), f)
        self.ordinals = {}
        self.sessions = []
        self.waiting = []
        self.log = []            # (time, session id, sql, result summary, fault kind)
        self.up = True
        self.n_conn = 0
        self.conn_of = {}        # session number -> connection
        self.down_at = []        # times the server was found or made unavailable
        self._retry = False
        world.net.listen(name, ip, port, self._factory)

    def _factory(self, conn):
        self.n_conn += 1
        s = Session(self, conn, self.n_conn)
        self.conn_of[self.n_conn] = conn
        self.sessions.append(s)
        return s

    def clear_faults(self):
        self.faults.clear()

    # -- lock waits
    def _released(self):
        if self.waiting and not self._retry:
            self._retry = True
            self.k.after(0.0, self._retry_waiting)

    def _retry_waiting(self):
        self._retry = False
        todo, self.waiting = self.waiting, []
        for s, sql, deadline, post in todo:
            if s.open and s.es is not None and s.es.waiting_for is not None:
                s.es.waiting_for = None
                s.run(sql, deadline, post)

    # -- crash and restart
    def crash(self, downtime, why='server_crash'):
        if not self.up:
            return
        self.up = False
        self.down_at.append(self.k.now)
        self.k.fault(why)
        self.w.net.down.add(self.ip)
        for s in list(self.sessions):
            s.lost()
            s.conn.fired.append((self.k.now, why))
            s.conn.hard_reset(104)
        self.sessions = []
        self.waiting = []
        self.k.after(downtime, self._restart)

    def _restart(self):
        self.up = True
        self.down_at.append(self.k.now)
        self.w.net.down.discard(self.ip)
        self.k.log('mysql_restarted')

    def fault_for(self, sql):
        cat = category(sql)
        if cat == 'other':
            return None
        for c in (cat, 'any'):
            n = self.ordinals.get(c, 0)
            self.ordinals[c] = n + 1
        f = self.faults.pop((cat, self.ordinals[cat] - 1), None)
        if f is None:
            f = self.faults.pop(('any', self.ordinals['any'] - 1), None)
        return f

    def idle_in_transaction(self):
        return [s for s in self.sessions if s.es is not None and s.es.trx is not None]


class Session(object):
    def __init__(self, server, conn, n):
        self.s = server
        self.k = server.k
        self.conn = conn
        self.n = n
        self.buf = b''
        self.state = 'auth'
        self.open = True
        self.es = None
        self.seq = 0
        self.gen = 0

    # -- connection callbacks
    def on_open(self, conn):
        cfg = self.s.cfg
        self.salt = bytes(self.s.rng.randrange(1, 128) for _ in range(20))
        if self.s.cfg.get('too_many'):
            self.k.after(0.01, self._refuse)
            return
        plugin = cfg.get('plugin', 'caching_sha2_password').encode()
        p = b'\x0a' + b'8.0.36\0' + struct.pack('<I', self.n) + self.salt[:8] + b'\0'
        p += struct.pack('<H', FEATURES & 0xffff) + b'\xff' + struct.pack('<H', 2) + struct.pack('<H', FEATURES >> 16)
        p += bytes([21]) + bytes(10) + self.salt[8:] + b'\0' + plugin + b'\0'
        self.seq = 0
        self.packet(p)
        self.flush()

    def _refuse(self):
        self.err(1040)
        self.end()

    def on_eof(self, conn):
        self.lost()
        conn.server_close()

    def on_reset(self, conn):
        self.lost()

    def lost(self):
        """The connection is gone: the server rolls back whatever was not committed."""
        if not self.open:
            return
        self.open = False
        if self.es is not None:
            self.es.waiting_for = None
            if self.es.trx is not None and self.es.trx.writes():
                self.k.probe('rolled_back_on_disconnect')
            self.s.engine.close(self.es)
        if self in self.s.sessions:
            self.s.sessions.remove(self)
        self.s.waiting = [w for w in self.s.waiting if w[0] is not self]

    def end(self):
        self.conn.server_close()
        self.lost()

    def kill(self, how):
        self.conn.fired.append((self.k.now, 'killed'))
        self.lost()
        if how == 'rst':
            self.conn.server_reset()
        else:
            self.conn.server_close()

    # -- output
    out = b''

    def packet(self, payload):
        self.out += struct.pack('<I', len(payload))[:3] + bytes([self.seq & 255]) + payload
        self.seq += 1

    def flush(self):
        data, self.out = self.out, b''
        if self.open:
            self.conn.server_send(data)

    def status(self):
        st = 0
        if self.es is not None:
            if self.es.autocommit:
                st |= 2
            if self.es.trx is not None and (self.es.explicit or not self.es.autocommit):
                st |= 1
        return struct.pack('<H', st)

    def ok(self, affected=0, last=0):
        self.packet(b'\0' + lenenc(affected) + lenenc(last) + self.status() + b'\0\0')
        self.flush()

    def err(self, code, state=None, message=None):
        if message is None:
            state, message = MESSAGES[code]
        self.packet(b'\xff' + struct.pack('<H', code) + b'#' + state.encode() + message.encode('utf-8'))
        self.flush()

    def eof(self):
        self.packet(b'\xfe\0\0' + self.status())

    def resultset(self, cols, rows):
        self.packet(lenenc(len(cols)))
        for i, (name, ty) in enumerate(cols):
            kind = ty.kind if ty is not None else None
            if kind is None:
                v = next((r[i] for r in rows if r[i] is not None), None)
                kind = ('int' if isinstance(v, int) else 'dec' if isinstance(v, D) else 'float' if isinstance(v, float)
                        else 'datetime' if isinstance(v, datetime.datetime) else 'date' if isinstance(v, datetime.date)
                        else 'time' if isinstance(v, datetime.timedelta) else 'str')
            flags = 0
            if kind == 'enum':
                flags |= 256
            cs = 45 if kind in ('enum', 'str') else 63
            n = name.encode('utf-8')
            self.packet(lenstr(b'def') + lenstr(b'weather') + lenstr(b't') + lenstr(b't') + lenstr(n) + lenstr(n) +
                        b'\x0c' + struct.pack('<HIBHB', cs, 255, TYPES[kind], flags,
                                              ty.scale if ty is not None and ty.kind == 'dec' else 31 if kind == 'float' else 0) + b'\0\0')
        self.eof()
        for r in rows:
            self.packet(b''.join(b'\xfb' if v is None else lenstr(S.text(v).encode('utf-8')) for v in r))
        self.eof()
        self.flush()

    # -- input
    def on_data(self, conn, data):
        self.buf += data
        self._pump()

    def _pump(self):
        while self.open and self.state != 'busy' and len(self.buf) >= 4:
            n = self.buf[0] | self.buf[1] << 8 | self.buf[2] << 16
            if len(self.buf) < 4 + n:
                return
            seq = self.buf[3]
            payload = self.buf[4:4 + n]
            self.buf = self.buf[4 + n:]
            self.seq = seq + 1
            if self.state == 'auth':
                self._auth(payload)
            elif self.state == 'switch':
                self._verify(payload)
            else:
                self.gen += 1
                self._command(payload)

    def _auth(self, p):
        cfg = self.s.cfg
        flags, _, cs = struct.unpack('<IIB', p[:9])
        i = 32
        j = p.index(b'\0', i)
        self.user = p[i:j].decode('utf-8')
        i = j + 1
        n = p[i]
        resp = p[i + 1:i + 1 + n]
        i += 1 + n
        self.database = None
        if flags & 8 and i < len(p):
            j = p.index(b'\0', i)
            self.database = p[i:j].decode('utf-8')
            i = j + 1
        plugin = None
        if flags & (1 << 19) and i < len(p):
            j = p.find(b'\0', i)
            plugin = p[i:j if j >= 0 else len(p)].decode()
        want = cfg.get('plugin', 'caching_sha2_password')
        if plugin is not None and plugin != want:
            self.state = 'switch'
            self.packet(b'\xfe' + want.encode() + b'\0' + self.salt + b'\0')
            self.flush()
            return
        self._verify(resp)

    def _verify(self, resp):
        cfg = self.s.cfg
        pw = cfg['password'].encode('utf-8')
        sha2 = cfg.get('plugin', 'caching_sha2_password') == 'caching_sha2_password'
        want = scramble_sha2(pw, self.salt) if sha2 else scramble_native(pw, self.salt)
        if self.user != cfg['user'] or bytes(resp).rstrip(b'\0' if not want else b'') != want:
            self.k.probe('access_denied')
            self.err(1045, '28000', "Access denied for user '%s'@'10.0.0.2' (using password: YES)" % self.user)
            self.end()
            return
        if self.database is not None and self.database != cfg['database']:
            self.err(1049, '42000', "Unknown database '%s'" % self.database)
            self.end()
            return
        self.es = self.s.engine.open()
        self.es.server_session = self
        self.state = 'ready'
        if sha2 and pw:
            self.packet(b'\x01\x03')
        self.ok()
        self._idle()

    def _idle(self):
        self.gen += 1
        idle = self.s.cfg.get('idle')
        if idle:
            self.k.after(idle, self._idle_out, self.gen)

    def _idle_out(self, gen):
        if self.open and gen == self.gen and self.state == 'ready':
            self.k.fault('idle_timeout')
            self.conn.fired.append((self.k.now, 'idle'))
            if self.s.cfg.get('idle_error'):
                self.seq = 0
                self.err(4031)
            self.kill('fin')

    def _command(self, p):
        c = p[0]
        if c == 1:
            self.end()
            return
        if c == 14 or c == 0x1f:
            if c == 0x1f:
                self.s.engine.rollback(self.es)
                self.es.autocommit = True
                self.es.isolation = 'REPEATABLE READ'
                self.es.vars = {}
            self.ok()
            self._idle()
            return
        if c == 2:
            db = p[1:].decode('utf-8')
            if db == self.s.cfg['database']:
                self.database = db
                self.ok()
            else:
                self.err(1049, '42000', "Unknown database '%s'" % db)
            self._idle()
            return
        if c == 3:
            sql = p[1:].decode('utf-8')
            self.state = 'busy'
            f = self.s.fault_for(sql)
            delay = self.s.cfg.get('delay', 0.001)
            if f is not None and f['kind'] == 'slow':
                self.k.fault('sql_slow')
                delay += f.get('secs', 20.0)
                f = None
            self.k.after(delay, self._begin, sql, f)
            return
        self.err(1047, '08S01', 'Unknown command')
        self._idle()

    def _begin(self, sql, f):
        if not self.open:
            return
        kind = f['kind'] if f else None
        if kind == 'error' and category(sql) == 'rollback':
            kind = f = None         # the server never refuses to roll back
        if kind == 'error':
            code = f['code']
            self.k.fault('sql_error_%d' % code)
            self.conn.fired.append((self.k.now, 'sql_error'))
            if code == 1213 or category(sql) == 'commit':
                self.s.engine.rollback(self.es)
            self.s.log.append((self.k.now, self.n, sql, 'error %d' % code))
            self.err(code)
            self._done()
            return
        if kind in ('kill', 'kill_fin'):
            self.k.fault('sql_kill')
            self.kill('rst' if kind == 'kill' else 'fin')
            return
        if kind == 'crash':
            self.s.crash(f.get('secs', 5.0))
            return
        self.run(sql, None, f)

    def run(self, sql, deadline=None, f=None):
        if not self.open:
            return
        eng = self.s.engine
        try:
            r = eng.execute(self.es, sql)
        except S.MustWait as e:
            holder = e.args[0]
            if eng.deadlocked(self.es, holder):
                self.k.probe('deadlock')
                self.k.log('deadlock', self.n)
                eng.rollback(self.es)
                self._failed(sql, 1213)
                return
            self.es.waiting_for = holder
            self.k.probe('lock_wait')
            if deadline is None:
                deadline = self.k.now + self.s.cfg.get('lock_timeout', 50.0)
                self.k.at(deadline, self._lock_timeout, self.gen)
            self.s.waiting.append((self, sql, deadline, f))
            self._waiting_sql = sql
            return
        except S.SqlError as e:
            self.s.log.append((self.k.now, self.n, sql, 'error %d' % e.code))
            self.k.log("sqlerr", self.n, e.code, e.msg)
            c = (e.code, e.state, e.msg)
            self._after(f, lambda: self.err(*c))
            return
        self.s.log.append((self.k.now, self.n, sql, r[0] if r[0] == 'ok' else len(r[2])))
        self.k.log('sql', self.n, sql[:60], r[1] if r[0] == 'ok' else len(r[2]))
        if r[0] == 'ok':
            self._after(f, lambda: self.ok(r[1], r[2]))
        else:
            self._after(f, lambda: self.resultset(r[1], r[2]))

    def _after(self, f, reply):
        kind = f['kind'] if f else None
        if kind == 'lost_reply':
            self.k.fault('reply_lost')
            self.kill('rst')
            return
        if kind == 'crash_after':
            self.s.crash(f.get('secs', 5.0), 'server_crash_after')
            return
        reply()
        self._done()

    def _failed(self, sql, code):
        self.s.log.append((self.k.now, self.n, sql, 'error %d' % code))
        self.conn.fired.append((self.k.now, 'sql_error'))
        self.err(code)
        self._done()

    def _lock_timeout(self, gen):
        if not self.open or gen != self.gen or self.es.waiting_for is None:
            return
        self.es.waiting_for = None
        self.s.waiting = [w for w in self.s.waiting if w[0] is not self]
        self.k.fault('lock_timeout')
        self._failed(self._waiting_sql, 1205)

    def _done(self):
        self.state = 'ready'
        self._idle()
        self._pump()

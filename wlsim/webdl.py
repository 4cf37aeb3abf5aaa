"""The weatherlink.com download service (webdl.php), simulated."""
import datetime
import gzip
import zlib

from . import refcodec as R
from .http import Server

ISO = '%Y-%m-%dT%H:%M'


class Account(object):
    def __init__(self, k, cfg, i):
        self.user = cfg['user']
        self.pw = cfg['pw']
        self.token = cfg['token']
        self.span = cfg['span']
        self.version = cfg.get('version', '1.90')
        self.max = cfg.get('max', 10240)
        rng = k.rng('acct%d' % i)
        self.rng = rng
        self.records = []       # (datetime, raw, encoded)
        t = datetime.datetime.strptime(cfg['start'], ISO)
        for j in range(cfg['n']):
            self.add(t, R.download_random(rng, cfg.get('tame', False), not cfg.get('tame', False)))
            t += datetime.timedelta(minutes=self.span)
            if cfg.get('back') and rng.random() < cfg['back']:
                # the clock of the station was set back (as at the end of daylight-saving time)
                t -= datetime.timedelta(minutes=60)
            if rng.random() < cfg.get('gap', 0.03):
                t += datetime.timedelta(minutes=self.span * rng.randint(1, 60))
        self.next = t
        self.tame = cfg.get('tame', False)

    def add(self, t, raw):
        self.records.append((t, raw, R.download_encode(t, raw, self.rng)))

    def grow(self, n):
        for _ in range(n):
            self.add(self.next, R.download_random(self.rng, self.tame, not self.tame))
            self.next += datetime.timedelta(minutes=self.span)

    def after(self, ts):
        return [r for r in self.records if R.timestamp(r[0]) > ts]


class WebDL(object):
    def __init__(self, world, cfg, accounts, faults):
        self.w = world
        self.k = world.k
        self.cfg = cfg
        self.accounts = {a['user']: Account(self.k, a, i) for i, a in enumerate(accounts)}
        self.faults = {f['n']: f for f in faults if f['at'] == 'http'}
        self.log = []           # exchanges
        self.n = 0
        self.server = Server(world, ['api.weatherlink.com'], '10.1.0.1', [443, 80], self.app, cfg.get('idle'))

    def app(self, req):
        n = self.n
        self.n += 1
        f = self.faults.get(n)
        q = {}
        dup = False
        for a, b in req.query:
            dup = dup or a in q
            q[a] = b
        e = {'n': n, 't': self.k.now, 'conn': req.conn.ordinal, 'query': q, 'bad': None, 'target': req.target,
             'action': q.get('action'), 'user': q.get('user')}
        self.log.append(e)
        acct = self.accounts.get(q.get('user'))
        wrong = None
        if req.method != 'GET' or req.path != '/webdl.php':
            wrong = 'method or path'
        elif dup:
            wrong = 'repeated parameter'
        elif acct is None:
            wrong = 'user'
        elif q.get('pass') != acct.pw:
            wrong = 'password'
        elif q.get('apiToken') != acct.token:
            wrong = 'token'
        elif q.get('action') not in ('headers', 'data'):
            wrong = 'action'
        else:
            try:
                ts = e['ts'] = int(q.get('timestamp', ''))
            except ValueError:
                wrong = 'timestamp'
        if wrong:
            e['bad'] = e['wrong'] = wrong
            self.k.log('wrong_request', wrong)
            return {'headers': [('Content-Type', 'text/html')], 'body': b'Invalid username/password/token\n'}
        rng = self.k.rng('web%d' % n)
        kind = None
        if f:
            kind = f['hk'] if q['action'] == 'headers' else f['dk']
        if kind == 'mute':
            self.k.fault('http_mute')
            e['bad'] = 'mute'
            return None
        accepts = (req.header('accept-encoding') or '').lower()
        r = {'framing': self.cfg.get('framing', 'length'), 'chunks': self.cfg.get('chunks', [64]),
             'delay': self.cfg.get('delay', 0.05), 'close': self.cfg.get('close', False)}
        if kind == 'slow':
            self.k.fault('http_slow')
            r['delay'] = f.get('secs', 45.0)
        if kind == 'status500':
            self.k.fault('http_status500')
            e['bad'] = kind
            r.update(status=500, reason='Internal Server Error', headers=[('Content-Type', 'text/html')],
                     body=b'<html><body><h1>500 - Internal Server Error</h1></body></html>')
            return r
        if q['action'] == 'headers':
            self._headers(e, acct, ts, kind, f, rng, r)
            if r['framing'] == 'close' and not self.cfg.get('header_close'):
                r['framing'] = 'length'
        else:
            self._data(e, acct, ts, kind, f, rng, r)
        if 'gzip' in accepts and self.cfg.get('gzip'):
            r['body'] = gzip.compress(r['body'], mtime=0)
            r['headers'].append(('Content-Encoding', 'gzip'))
        if kind == 'cut':
            e['bad'] = e['bad'] or 'cut'
            e['cut'] = True
            total = len(r['body']) + 250
            if r['framing'] == 'close' and q['action'] == 'headers':
                r['framing'] = 'length'
            r['cut'] = f.get('pos', 0) % total
            r['how'] = f.get('how', 'fin')
        return r

    def _headers(self, e, acct, ts, kind, f, rng, r):
        e['span'] = acct.span
        e['count'] = len(acct.after(ts))
        e['version'] = acct.version
        e['max'] = acct.max
        pairs = [('Model', '16'), ('ConsoleVer', acct.version), ('ArchiveInt', str(acct.span)),
                 ('Records', str(e['count'])), ('MaxRecords', str(acct.max)), ('ProductID', '6510'),
                 ('Note', 'a=b')]
        if kind == 'model':
            pairs[0] = ('Model', rng.choice(['17', '', '15', '160']))
            e['bad'] = kind
        elif kind == 'nokey':
            del pairs[rng.randrange(5)]
            e['bad'] = kind
        elif kind == 'badint':
            i = rng.choice([2, 3, 4])
            pairs[i] = (pairs[i][0], rng.choice(['', 'n/a', '1.x', '12 records']))
            e['bad'] = kind
        rng.shuffle(pairs)
        eol = rng.choice(['\n', '\r\n'])
        sp = rng.choice(['', '', ' '])
        body = eol.join('%s%s=%s%s' % (a, sp, sp, b) for a, b in pairs) + rng.choice(['', eol])
        if kind == 'garbage':
            body = '<html>maintenance</html>' + eol + body
            e['bad'] = kind
        ctype = rng.choice(['text/html', 'text/plain'])
        if kind == 'ctype':
            ctype = rng.choice(['application/json', 'application/octet-stream', 'image/png', 'text/xml', 'text/csv'])
            e['bad'] = kind
        if e['bad']:
            self.k.fault('http_header_' + e['bad'])
        headers = [('Content-Type', ctype), ('Server', 'sim')]
        if self.cfg.get('cookie'):
            headers.append(('Set-Cookie', 'PHPSESSID=%d; path=/' % e['n']))
        r.update(headers=headers, body=body.encode('ascii'))
        if self.cfg.get('grow'):
            self.k.after(0.0, acct.grow, self.cfg['grow'])

    def _data(self, e, acct, ts, kind, f, rng, r):
        recs = acct.after(ts)
        e['records'] = recs
        e['stop'] = None
        e['badrec'] = None
        out = [x[2] for x in recs]
        if recs and kind in ('badtype', 'baddir', 'baddate', 'zerodate'):
            i = f.get('i', 0) % len(recs)
            b = bytearray(out[i])
            if kind == 'badtype':
                b[42] = rng.choice([1, 0xFF, 0x80])
            elif kind == 'baddir':
                b[rng.choice([26, 27])] = rng.choice([16, 99, 254])
            elif kind == 'baddate':
                b[0:4] = rng.choice([b'\x00\x20\x00\x00', bytes(b[0:2]) + b'\xff\x7f'])
            else:
                b[0:2] = b'\x00\x00'
                e['stop'] = i
                self.k.fault('http_data_zerodate')
            if kind != 'zerodate':
                e['badrec'] = i
                self.k.fault('http_data_' + kind)
            out[i] = bytes(b)
        if recs and kind == 'short':
            out = out[:f.get('i', 0) % len(recs)]
            e['badrec'] = len(out)
            self.k.fault('http_data_short')
        body = b''.join(out)
        if recs and kind == 'ragged':
            body = body[:-1 - f.get('i', 0) % 51]
            e['badrec'] = len(recs) - 1
            self.k.fault('http_data_ragged')
        ctype, cte, cenc = 'application/octet-stream', 'binary', None
        if kind == 'ctype':
            ctype = rng.choice(['text/html', 'application/json', 'text/plain'])
            e['bad'] = kind
        elif kind == 'cte':
            cte = rng.choice(['base64', '7bit', None])
            e['bad'] = kind
        elif kind == 'cenc':
            cenc = rng.choice(['gzip', 'deflate', 'br', 'compress'])
            e['enc'] = cenc
            if cenc == 'gzip':
                body = gzip.compress(body, mtime=0)
            elif cenc == 'deflate':
                body = zlib.compress(body)
            else:
                if rng.random() < 0.5:     # or the records as they are, under a wrong label
                    body = bytes(x ^ 0x5A for x in body)
                e['bad'] = kind
        if e['bad'] or e.get('enc'):
            self.k.fault('http_data_' + (e['bad'] or 'cenc'))
        headers = [('Content-Type', ctype), ('Server', 'sim')]
        if cte is not None:
            headers.append(('Content-Transfer-Encoding', cte))
        if cenc is not None:
            headers.append(('Content-Encoding', cenc))
        r.update(headers=headers, body=body)

"""Weather Underground's PWS update service, simulated."""
from .http import Server

HOSTS = {'weatherstation.wunderground.com': 'simple', 'rtupdate.wunderground.com': 'rapid'}


class WU(object):
    def __init__(self, world, cfg, faults):
        self.w = world
        self.k = world.k
        self.cfg = cfg
        self.faults = {f['n']: f for f in faults if f['at'] == 'http'}
        self.log = []
        self.n = 0
        self.server = Server(world, sorted(HOSTS), '10.1.0.2', [80, 443], self.app, cfg.get('idle'))

    def app(self, req):
        n = self.n
        self.n += 1
        f = self.faults.get(n)
        kind = f['kind'] if f else None
        e = {'n': n, 't': self.k.now, 'conn': req.conn.ordinal, 'query': req.query, 'method': req.method,
             'path': req.path, 'host': (req.header('host') or '').split(':')[0], 'kind': kind, 'accepted': False}
        self.log.append(e)
        if kind:
            self.k.fault('wu_' + kind)
        r = {'framing': self.cfg.get('framing', 'length'), 'chunks': [1, 3], 'delay': self.cfg.get('delay', 0.05),
             'close': self.cfg.get('close', False), 'headers': [('Content-Type', self.cfg.get('ctype', 'text/html'))],
             'body': b'success'}
        if kind == 'mute':
            return None
        if kind == 'slow':
            r['delay'] = f.get('secs', 45.0)
        elif kind == 'status':
            r['status'] = f['status']
            r['reason'] = 'X'
        elif kind == 'body':
            r['body'] = f['body'].encode('ascii')
        elif kind == 'cut':
            if r['framing'] == 'close':
                r['framing'] = 'length'
            r['cut'] = f.get('pos', 0) % (len(r['body']) + 60)
            r['how'] = f.get('how', 'fin')
        if 200 <= r.get('status', 200) < 300 and r['body'] == b'success':
            e['accepted'] = True
        return r

"""Simulated Vantage Pro2 console behind a WeatherLinkIP adapter (the peer the serial code talks to).

Speaks EEBRD / EEBWR / LPS over the simulated network.  Console-side faults are addressed by ordinals
(n-th instruction, n-th loop packet, n-th EEPROM reply), so a plan can place them exactly:
  {'at': 'instr', 'n': i, 'kind': 'nak' | 'bang' | 'garbage' | 'mute' | 'slow' | 'ack_eof'}
  {'at': 'packet', 'n': i, 'kind': 'flip' | 'burst' | 'drop' | 'dup' | 'noise', 'pos': .., 'bit'/'val': ..}
  {'at': 'reply', 'n': i, 'kind': 'flip' | 'burst' | 'drop' | 'dup' | 'short', ...}
  {'at': 'write', 'n': i, 'kind': 'flip' | 'burst' (data damaged on the serial line) | 'nak' | 'garbage' | 'mute'}
"""
from . import refcodec as R

ACK = b'\x06'
NAK = b'\x15'
CAN = b'\x18'


def crc_masks():
    """Damages of the checksum bytes that differ, or leave a remainder, in one bit, one half, a few bits."""
    few = [1 << i for i in range(16)] + [0xFF00, 0x00FF, 0xF000, 0x0F00, 0x00F0, 0x000F, 0x8001]
    bits = [R.crc16(bytes([(1 << i) >> 8, (1 << i) & 255])) for i in range(16)]     # linear: remainder of each bit
    rows = {}
    for i, v in enumerate(bits):
        m = 1 << i
        for top in sorted(rows, reverse=True):
            if v >> top & 1:
                v ^= rows[top][0]
                m ^= rows[top][1]
        rows[v.bit_length() - 1] = (v, m)
    for want in list(few):
        m = 0
        for top in sorted(rows, reverse=True):
            if want >> top & 1:
                want ^= rows[top][0]
                m ^= rows[top][1]
        few.append(m)
    return few


CRC_MASKS = crc_masks()


class Console(object):
    IP = '10.1.0.9'
    PORT = 22222

    def __init__(self, world, cfg=None, faults=(), name='console', ip=None, port=None):
        self.w = world
        self.name = name
        self.k = world.k
        cfg = cfg or {}
        self.rng = self.k.rng('console')
        self.eeprom = bytearray(self.k.rng('eeprom').getrandbits(8) for _ in range(4096))
        if cfg.get('zeros'):
            for i in range(4096):
                if self.rng.random() < 0.9:
                    self.eeprom[i] = 0
        self.period = cfg.get('period', 2.0)
        self.first = cfg.get('first', 0.05)
        self.ack_delay = cfg.get('ack_delay', 0.01)
        self.faults = {}
        for f in faults:
            self.faults[(f['at'], f['n'])] = f
        self.n_instr = 0
        self.n_packet = 0
        self.n_reply = 0
        self.n_write = 0
        self.sessions = []
        self.history = []       # everything the console saw and did, in order
        self.serial = 0
        world.net.listen(name, ip or self.IP, port or self.PORT, self.accept)

    def accept(self, conn):
        s = Session(self, conn)
        self.sessions.append(s)
        return s

    def open_sessions(self):
        return [s for s in self.sessions if s.open]

    def _damage(self, f, data):
        b = bytearray(data)
        kind = f['kind']
        pos = f.get('pos', 0) % len(b)
        if kind == 'flip':
            b[pos] ^= 1 << (f.get('bit', 0) % 8)
        elif kind == 'burst':
            # two adjacent bytes damaged: at most 16 bits, always detectable by the CRC
            v = f.get('val', 0x5A) or 0x5A
            b[pos] ^= v & 0xFF or 0x01
            b[(pos + 1) % len(b) if pos + 1 < len(b) else pos] ^= (v >> 3) & 0xFF
            if bytes(b) == bytes(data):
                b[pos] ^= 1
        elif kind == 'crc':
            # the two bytes of the checksum itself: one bit, one half, a few bits
            v = f.get('val', 1) % (len(CRC_MASKS) + 12)
            if v >= len(CRC_MASKS):
                # or other values altogether: none at all, all ones, the other way round
                v = (v - len(CRC_MASKS)) % 3
                b[-2:] = [b'\0\0', b'\xff\xff', bytes(b[-1:] + b[-2:-1])][v]
                if bytes(b) == bytes(data):
                    b[-1] ^= 1
            else:
                v = CRC_MASKS[v]
                b[-2] ^= v >> 8
                b[-1] ^= v & 0xFF
        elif kind == 'drop':
            del b[pos]
        elif kind == 'dup':
            b.insert(pos, b[pos])
        elif kind == 'noise':
            b.insert(pos, f.get('val', 0x5A) & 0xFF)
        elif kind == 'short':
            del b[pos:]
        self.k.fault('console_%s_%s' % (f['at'], kind))
        return bytes(b)


class Session(object):
    def __init__(self, console, conn):
        self.c = console
        self.k = console.k
        self.conn = conn
        self.open = True
        self.closed_how = None
        self.buf = bytearray()
        self.expect = None      # (address, length) awaiting EEPROM data
        self.polling = None     # generation token while a LOOP stream runs
        self.gen = 0
        self.sent_packets = []  # pristine packets, per poll: list of (poll_no, bytes)
        self.wire = bytearray()     # bytes of LOOP streams as put on the wire
        self.polls = []         # dicts: start serial index, requested, sent, cancelled
        self.stray = bytearray()
        self.writes = []

    def on_open(self, conn):
        self.c.history.append(('open', conn.ordinal))

    def on_eof(self, conn):
        self._end('fin')
        conn.server_close()

    def on_reset(self, conn):
        self._end('rst')

    def _end(self, how):
        self.open = False
        self.closed_how = how
        self.polling = None
        if self.polls and self.polls[-1]['live']:
            self.polls[-1]['live'] = False
            self.polls[-1]['ended'] = how

    def send(self, data, delay=None):
        d = self.c.ack_delay if delay is None else delay
        self.k.after(d, self._send_now, bytes(data))

    def _send_now(self, data):
        if self.open:
            self.conn.server_send(data)

    def on_data(self, conn, data):
        self.k.log('console_rx', conn.ordinal, bytes(data))
        for i in range(len(data)):
            self._byte(data[i:i + 1])

    def _byte(self, ch):
        if self.expect is not None:
            self.buf += ch
            if len(self.buf) == self.expect[1] + 2:
                self._finish_write()
            return
        if self.polling is not None:
            # any character cancels the LOOP stream
            self.polling = None
            p = self.polls[-1]
            p['live'] = False
            p['ended'] = 'cancel'
            p['cancel_char'] = ch
            p['cancel_time'] = self.k.now
            self.c.history.append(('cancel', self.conn.ordinal, ch))
            self.k.log('cancel', ch)
            if ch in (b'\r', b'\n'):
                return
        if ch == b'\n':
            line = bytes(self.buf)
            self.buf = bytearray()
            if not line.strip(b'\r'):
                if line:
                    self.stray += line
                else:
                    self.stray += b'\n'
                return
            self._instruction(line)
        elif ch == b'\r' and not self.buf:
            self.stray += ch
            self.c.history.append(('stray', self.conn.ordinal, ch))
        else:
            self.buf += ch
            if len(self.buf) > 200:
                self.buf = bytearray()

    def _instruction(self, line):
        c = self.c
        n = c.n_instr
        c.n_instr += 1
        f = c.faults.get(('instr', n))
        kind = f['kind'] if f else None
        c.history.append(('instr', self.conn.ordinal, line, kind))
        self.k.log('instr', n, line, kind or '')
        if kind:
            self.k.fault('console_instr_' + kind)
        if kind == 'nak':
            return self.send(NAK)
        if kind == 'bang':
            return self.send(b'!')
        if kind == 'garbage':
            return self.send(bytes(bytearray([f.get('val', 0x41)])))
        if kind == 'garbage_ack':
            self.send(bytes(bytearray([f.get('val', 0x41)])))
        if kind == 'mute':
            return self.k.after(f.get('secs', 600.0), self._drop)
        if kind == 'ack_eof':
            self.conn.server_close()
            self._end('server')
            return
        extra = f.get('secs', 30.0) if kind == 'slow' else 0.0
        parts = line.split(b' ')
        try:
            if parts[0] == b'EEBRD' and len(parts) == 3:
                addr, ln = int(parts[1], 16), int(parts[2], 16)
                if addr + ln > 4096 or ln < 1:
                    raise ValueError
                return self._read(addr, ln, extra)
            if parts[0] == b'EEBWR' and len(parts) == 3:
                addr, ln = int(parts[1], 16), int(parts[2], 16)
                if addr + ln > 4096 or ln < 1:
                    raise ValueError
                self.send(ACK, c.ack_delay + extra)
                self.expect = (addr, ln)
                self.buf = bytearray()
                return
            if parts[0] == b'LPS' and len(parts) == 3:
                t, cnt = int(parts[1]), int(parts[2])
                if t != 2 or cnt < 0:
                    raise ValueError
                return self._lps(cnt, extra)
        except ValueError:
            pass
        c.history.append(('unknown', line))
        self.send(NAK)

    def _drop(self):
        if self.open:
            self.conn.server_reset()

    def _read(self, addr, ln, extra):
        c = self.c
        body = R.with_crc(bytes(c.eeprom[addr:addr + ln]))
        n = c.n_reply
        c.n_reply += 1
        f = c.faults.get(('reply', n))
        if f:
            body = c._damage(f, body)
            if f['kind'] == 'short' and len(body) == ln + 2:
                body = body[:-1]
        c.history.append(('read', addr, ln, body, f['kind'] if f else None, body))
        if f:
            if len(body) < ln + 2:
                # a byte lost on the serial line never comes; the adapter eventually drops the link
                self.k.after(600.0, self._drop)
        if c.rng.random() < 0.5:
            self.send(ACK + body, c.ack_delay + extra)
        else:
            self.send(ACK, c.ack_delay + extra)
            self.send(body, c.ack_delay + extra + 0.02)

    def _finish_write(self):
        c = self.c
        addr, ln = self.expect
        self.expect = None
        data = sent = bytes(self.buf)
        self.buf = bytearray()
        n = c.n_write
        c.n_write += 1
        f = c.faults.get(('write', n))
        if f and f['kind'] in ('flip', 'burst'):
            data = c._damage(f, data)
        elif f:
            self.k.fault('console_write_' + f['kind'])
            c.history.append(('write_fault', addr, f['kind']))
            if f['kind'] == 'mute':
                return self.k.after(f.get('secs', 600.0), self._drop)
            if f['kind'] == 'eof':
                self.conn.server_close()
                return self._end('server')
            if f['kind'] != 'slow':
                return self.send({'nak': CAN, 'nak15': NAK, 'bang': b'!'}.get(f['kind'], b'\x41'))
            c.history.pop()
        extra = f.get('secs', 30.0) if f and f['kind'] == 'slow' else 0.0
        if R.crc16(data) != 0:
            c.history.append(('write_rejected', addr, data, sent))
            return self.send(CAN)
        c.eeprom[addr:addr + ln] = data[:ln]
        c.history.append(('written', addr, data[:ln]))
        self.k.log('written', addr, data[:ln])
        self.send(ACK, c.ack_delay + extra)

    def _lps(self, cnt, extra):
        c = self.c
        self.gen += 1
        self.polling = self.gen
        self.polls.append({'requested': cnt, 'sent': [], 'live': True, 'ended': None, 'start': len(self.wire),
                           'cancel_time': None})
        self.send(ACK, c.ack_delay + extra)
        if cnt:
            self.k.after(c.ack_delay + extra + c.first, self._packet, self.gen, cnt)
        else:
            self._poll_done()

    def _poll_done(self):
        self.polling = None
        p = self.polls[-1]
        p['live'] = False
        p['ended'] = 'complete'
        if len(self.wire) - p['start'] < 99 * p['requested']:
            # bytes were lost on the serial line; the adapter eventually drops the link
            self.k.after(600.0, self._drop)

    def _packet(self, gen, left):
        if self.polling != gen or not self.open:
            return
        c = self.c
        c.serial += 1
        pkt = R.loop2_random(self.k.rng('packets'), c.serial)
        wire = pkt
        n = c.n_packet
        c.n_packet += 1
        f = c.faults.get(('packet', n))
        if f:
            wire = c._damage(f, pkt)
        p = self.polls[-1]
        p['sent'].append(pkt)
        self.wire += wire
        self.k.log('packet', n)
        self.conn.server_send(wire)
        if left > 1:
            self.k.after(c.period, self._packet, gen, left - 1)
        else:
            self._poll_done()

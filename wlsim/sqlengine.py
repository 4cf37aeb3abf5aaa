"""A small transactional SQL engine with the semantics of MySQL/InnoDB that the exporter can observe.

Repeatable-read snapshots, current reads and row locks for writes, unique keys, strict column types, statement
rollback on error, lock waits, deadlocks.  A committed state is an immutable mapping table -> {row id: tuple};
``history`` keeps all of them.  Row order is arbitrary (seeded) wherever SQL leaves it open.
"""
import datetime
import re
from decimal import Decimal as D, ROUND_HALF_UP, InvalidOperation

from .kernel import HarnessError


class SqlError(Exception):
    def __init__(self, code, state, msg):
        Exception.__init__(self, code, msg)
        self.code = code
        self.state = state
        self.msg = msg


class MustWait(Exception):
    def __init__(self, holder):
        self.holder = holder


class Unsupported(HarnessError):
    pass


# ---- tokens ----------------------------------------------------------------------------------------------
_TOKEN = re.compile(r"""
    (?P<ws>\s+|--[ \t][^\n]*|--$|\#[^\n]*|/\*.*?\*/)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
  | (?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
  | (?P<bt>`[^`]*`)
  | (?P<name>[A-Za-z_\u0080-\uffff][A-Za-z_0-9$\u0080-\uffff]*)
  | (?P<var>@@?[A-Za-z_][A-Za-z_0-9.$]*)
  | (?P<op><=>|<>|!=|<=|>=|:=|\|\||&&|[-+*/%(),.;=<>])
""", re.X | re.S)
_ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'Z': '\x1a', 'b': '\b'}


def _unescape(s):
    q = s[0]
    s = s[1:-1].replace(q + q, q)
    return re.sub(r'\\(.)', lambda m: _ESC.get(m.group(1), m.group(1)), s, flags=re.S)


class Tok(object):
    __slots__ = ('kind', 'v', 'u')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v
        self.u = v.upper() if kind == 'name' else v if kind == 'op' else None


def tokenize(sql):
    out = []
    i = 0
    while i < len(sql):
        m = _TOKEN.match(sql, i)
        if not m:
            raise syntax(sql[i:i + 40])
        k = m.lastgroup
        v = m.group()
        i = m.end()
        if k == 'ws':
            continue
        if k == 'str':
            out.append(Tok('str', _unescape(v)))
        elif k == 'bt':
            out.append(Tok('ident', v[1:-1]))
        elif k == 'num':
            out.append(Tok('num', float(v) if 'e' in v.lower() else D(v) if '.' in v else int(v)))
        else:
            out.append(Tok(k, v))
    return out


def syntax(near):
    return SqlError(1064, '42000', "You have an error in your SQL syntax near '%s'" % near)


# ---- types -----------------------------------------------------------------------------------------------
class Type(object):
    """kind: int, dec, enum, datetime, date, time, year, str, float"""

    def __init__(self, kind, lo=None, hi=None, prec=None, scale=None, values=None, unsigned=False, fsp=0):
        self.kind = kind
        self.lo = lo
        self.hi = hi
        self.prec = prec
        self.scale = scale
        self.values = values
        self.unsigned = unsigned
        self.fsp = fsp
        if kind == 'enum':
            self.index = {v: i + 1 for i, v in enumerate(values)}
            self.lookup = {v.lower(): v for v in values}
        if kind == 'dec':
            self.q = D(1).scaleb(-scale)
            self.limit = D(10) ** (prec - scale)


INTS = {'TINYINT': 8, 'SMALLINT': 16, 'MEDIUMINT': 24, 'INT': 32, 'INTEGER': 32, 'BIGINT': 64}


def to_number(v):
    if v is None or isinstance(v, (int, float, D)):
        return v
    if isinstance(v, str):
        m = re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', v)
        return D(m.group()) if m else 0
    if isinstance(v, datetime.datetime):
        return int(v.strftime('%Y%m%d%H%M%S'))
    if isinstance(v, datetime.date):
        return int(v.strftime('%Y%m%d'))
    if isinstance(v, datetime.timedelta):
        s = int(v.total_seconds())
        return (s // 3600) * 10000 + s // 60 % 60 * 100 + s % 60
    raise Unsupported('number from %r' % (v,))


_DT = re.compile(r'^\s*(\d{2,4})-(\d{1,2})-(\d{1,2})(?:[T ]+(\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.(\d{1,6}))?)?)?\s*$')
_TM = re.compile(r'^\s*(-?)(\d{1,3}):(\d{1,2})(?::(\d{1,2})(?:\.(\d{1,6}))?)?\s*$')


def to_datetime(v):
    """datetime from a value, or None if it is not one."""
    if isinstance(v, datetime.datetime):
        return v
    if isinstance(v, datetime.date):
        return datetime.datetime(v.year, v.month, v.day)
    if isinstance(v, str):
        m = _DT.match(v)
        if m:
            y, mo, d, h, mi, s, f = m.groups()
            try:
                return datetime.datetime(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(s or 0),
                                         int((f or '0').ljust(6, '0')))
            except ValueError:
                return None
    if isinstance(v, int) and v > 10 ** 13:
        return to_datetime('%s-%s-%s %s:%s:%s' % (str(v)[:4], str(v)[4:6], str(v)[6:8], str(v)[8:10], str(v)[10:12],
                                                  str(v)[12:14]))
    return None


def to_time(v):
    if isinstance(v, datetime.timedelta):
        return v
    if isinstance(v, datetime.datetime):
        return datetime.timedelta(hours=v.hour, minutes=v.minute, seconds=v.second, microseconds=v.microsecond)
    if isinstance(v, str):
        m = _TM.match(v)
        if m:
            sg, h, mi, s, f = m.groups()
            t = datetime.timedelta(hours=int(h), minutes=int(mi), seconds=int(s or 0),
                                   microseconds=int((f or '0').ljust(6, '0')))
            return -t if sg else t
        d = to_datetime(v)
        if d is not None:
            return to_time(d)
    return None


def _round_seconds(t):
    us = t.microseconds if isinstance(t, datetime.timedelta) else t.microsecond
    if us:
        t = t - datetime.timedelta(microseconds=us)
        if us >= 500000:
            t = t + datetime.timedelta(seconds=1)
    return t


def store(col, v):
    """The value a strict-mode server stores for v in the column, or an error."""
    t = col.type
    if v is None:
        if col.notnull:
            raise SqlError(1048, '23000', "Column '%s' cannot be null" % col.name)
        return None
    k = t.kind
    if k in ('int', 'dec', 'float', 'year'):
        if isinstance(v, str):
            try:
                n = D(v.strip())
                if not n.is_finite():
                    raise InvalidOperation()
            except InvalidOperation:
                raise SqlError(1366, 'HY000', "Incorrect %s value: '%s' for column '%s'" % (k, v, col.name))
        else:
            n = to_number(v)
        if k == 'float':
            return float(n)
        if isinstance(n, float):
            n = D(repr(n))
        if k == 'dec':
            n = D(n).quantize(t.q, rounding=ROUND_HALF_UP) if abs(n) < D(10) ** 40 else D(n)
            if abs(n) >= t.limit or (t.unsigned and n < 0):
                raise SqlError(1264, '22003', "Out of range value for column '%s'" % col.name)
            return n
        if isinstance(n, D):
            n = int(n.quantize(D(1), rounding=ROUND_HALF_UP))
        if k == 'year':
            if n != 0 and not 1901 <= n <= 2155:
                if 1 <= n <= 99:
                    return n + (2000 if n < 70 else 1900)
                raise SqlError(1264, '22003', "Out of range value for column '%s'" % col.name)
            return n
        if not t.lo <= n <= t.hi:
            raise SqlError(1264, '22003', "Out of range value for column '%s'" % col.name)
        return n
    if k == 'enum':
        if isinstance(v, str):
            r = t.lookup.get(v.lower().rstrip(' '))
            if r is not None:
                return r
        elif isinstance(v, int) and 1 <= v <= len(t.values):
            return t.values[v - 1]
        raise SqlError(1265, '01000', "Data truncated for column '%s'" % col.name)
    if k in ('datetime', 'date'):
        d = to_datetime(v)
        if d is None:
            raise SqlError(1292, '22007', "Incorrect datetime value: '%s' for column '%s'" % (v, col.name))
        return _round_seconds(d) if k == 'datetime' and not t.fsp else d if k == 'datetime' else d.date()
    if k == 'time':
        d = to_time(v)
        if d is None:
            raise SqlError(1292, '22007', "Incorrect time value: '%s' for column '%s'" % (v, col.name))
        return d if t.fsp else _round_seconds(d)
    if k == 'str':
        s = v if isinstance(v, str) else text(v)
        if t.prec is not None and len(s) > t.prec:
            raise SqlError(1406, '22001', "Data too long for column '%s'" % col.name)
        return s
    raise Unsupported(k)


def text(v):
    """The server's text form of a value (also the wire format)."""
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, D):
        return format(v, 'f')
    if isinstance(v, datetime.datetime):
        s = v.strftime('%Y-%m-%d %H:%M:%S') if v.year >= 1000 else '%04d' % v.year + v.strftime('-%m-%d %H:%M:%S')
        return s + ('.%06d' % v.microsecond if v.microsecond else '')
    if isinstance(v, datetime.timedelta):
        us = v // datetime.timedelta(microseconds=1)
        sg, us = ('-', -us) if us < 0 else ('', us)
        s, f = divmod(us, 1000000)
        return '%s%02d:%02d:%02d' % (sg, s // 3600, s // 60 % 60, s % 60) + ('.%06d' % f if f else '')
    if isinstance(v, float):
        return repr(v)
    return str(v)


class Column(object):
    def __init__(self, name, type_, notnull=False, default=None, has_default=False, auto=False):
        self.name = name
        self.type = type_
        self.notnull = notnull
        self.default = default
        self.has_default = has_default
        self.auto = auto
        self.lname = name.lower()


class Table(object):
    def __init__(self, name, columns, uniques):
        self.name = name
        self.columns = columns
        self.pos = {c.lname: i for i, c in enumerate(columns)}
        self.uniques = uniques            # list of (name, [positions])
        self.auto = next((i for i, c in enumerate(columns) if c.auto), None)
        self.next_auto = 1
        self.next_row = 1


# ---- comparison ------------------------------------------------------------------------------------------
def _cmp_values(a, b):
    """-1, 0, 1 or None; MySQL's implicit conversions for the types used here."""
    if a is None or b is None:
        return None
    ta, tb = type(a), type(b)
    if ta is not tb:
        if ta is str or tb is str:
            s, o = (a, b) if ta is str else (b, a)
            if isinstance(o, (datetime.datetime, datetime.date)):
                d = to_datetime(s)
                if d is None:
                    raise SqlError(1525, 'HY000', "Incorrect DATETIME value: '%s'" % s)
                o2 = to_datetime(o)
                a, b = (d, o2) if ta is str else (o2, d)
            elif isinstance(o, datetime.timedelta):
                d = to_time(s)
                a, b = (d, o) if ta is str else (o, d)
                if d is None:
                    return None
            else:
                a, b = D(str(to_number(a))), D(str(to_number(b)))
        elif isinstance(a, datetime.date) and isinstance(b, datetime.date):
            a, b = to_datetime(a), to_datetime(b)
        elif isinstance(a, (datetime.date, datetime.timedelta)) or isinstance(b, (datetime.date, datetime.timedelta)):
            a, b = to_number(a), to_number(b)
        elif ta is float or tb is float:
            a, b = float(a), float(b)
    elif ta is str:
        a, b = a.lower().rstrip(' '), b.lower().rstrip(' ')
    return -1 if a < b else 1 if a > b else 0


def truth(v):
    if v is None:
        return None
    n = to_number(v)
    return n != 0


# ---- parser ----------------------------------------------------------------------------------------------
RESERVED = set('''SELECT FROM WHERE GROUP BY HAVING ORDER LIMIT OFFSET AND OR NOT IN IS NULL LIKE BETWEEN AS ON JOIN INNER
LEFT RIGHT CROSS OUTER UNION SET VALUES INSERT UPDATE DELETE INTO ASC DESC DISTINCT CASE WHEN THEN ELSE END EXISTS FOR
USING XOR DIV MOD INTERVAL STRAIGHT_JOIN FORCE USE IGNORE LOCK TRUE FALSE DUPLICATE KEY'''.split())
AGG = {'MIN', 'MAX', 'SUM', 'AVG', 'COUNT'}


class Parser(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else None

    def at(self, *words):
        for j, w in enumerate(words):
            p = self.peek(j)
            if p is None or p.u != w:
                return False
        return True

    def eat(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.eat(*words):
            raise syntax(self.rest())

    def rest(self):
        return ' '.join(str(t.v) for t in self.t[self.i:self.i + 8])

    def ident(self):
        p = self.peek()
        if p is None or not (p.kind == 'ident' or (p.kind == 'name' and p.u not in RESERVED)):
            raise syntax(self.rest())
        self.i += 1
        return p.v

    def done(self):
        while self.eat(';'):
            pass
        return self.i >= len(self.t)

    # expressions -> tuples
    def expr(self):
        e = self.and_()
        while True:
            if self.eat('OR') or self.eat('||'):
                e = ('or', e, self.and_())
            elif self.eat('XOR'):
                e = ('xor', e, self.and_())
            else:
                return e

    def and_(self):
        e = self.not_()
        while self.eat('AND') or self.eat('&&'):
            e = ('and', e, self.not_())
        return e

    def not_(self):
        if self.eat('NOT'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        e = self.add()
        while True:
            p = self.peek()
            if p is None:
                return e
            if p.kind == 'op' and p.v in ('=', '<', '>', '<=', '>=', '<>', '!=', '<=>'):
                self.i += 1
                e = ('cmp', p.v, e, self.add())
                continue
            neg = False
            if p.u == 'IS':
                self.i += 1
                neg = self.eat('NOT')
                if self.eat('NULL'):
                    e = ('isnull', e)
                elif self.eat('TRUE'):
                    e = ('istrue', e)
                elif self.eat('FALSE'):
                    e = ('istrue', ('not', e))
                else:
                    raise syntax(self.rest())
            elif p.u in ('IN', 'BETWEEN', 'LIKE') or (p.u == 'NOT' and self.peek(1) is not None and
                                                      self.peek(1).u in ('IN', 'BETWEEN', 'LIKE')):
                neg = self.eat('NOT')
                if self.eat('IN'):
                    self.need('(')
                    if self.at('SELECT'):
                        q = self.select()
                        e = ('insub', e, q)
                    else:
                        items = [self.expr()]
                        while self.eat(','):
                            items.append(self.expr())
                        e = ('in', e, items)
                    self.need(')')
                elif self.eat('BETWEEN'):
                    lo = self.add()
                    self.need('AND')
                    hi = self.add()
                    e = ('and', ('cmp', '>=', e, lo), ('cmp', '<=', e, hi))
                else:
                    self.need('LIKE')
                    e = ('like', e, self.add())
            else:
                return e
            if neg:
                e = ('not', e)

    def add(self):
        e = self.mul()
        while True:
            p = self.peek()
            if p is not None and p.kind == 'op' and p.v in '+-':
                self.i += 1
                if self.eat('INTERVAL'):
                    e = ('interval', p.v, e, self.add_operand(), self.unit())
                else:
                    e = ('arith', p.v, e, self.mul())
            else:
                return e

    def add_operand(self):
        return self.mul()

    def unit(self):
        return self.ident().upper()

    def mul(self):
        e = self.unary()
        while True:
            p = self.peek()
            if p is not None and p.kind == 'op' and p.v in '*/%':
                self.i += 1
                e = ('arith', p.v, e, self.unary())
            elif self.eat('DIV'):
                e = ('arith', 'DIV', e, self.unary())
            elif self.eat('MOD'):
                e = ('arith', '%', e, self.unary())
            else:
                return e

    def unary(self):
        if self.eat('-'):
            return ('neg', self.unary())
        if self.eat('+'):
            return self.unary()
        if self.eat('!') :
            return ('not', self.unary())
        return self.primary()

    def primary(self):
        p = self.peek()
        if p is None:
            raise syntax('')
        if p.kind in ('num', 'str'):
            self.i += 1
            return ('lit', p.v)
        if p.kind == 'var':
            self.i += 1
            return ('var', p.v)
        if p.u == '(':
            self.i += 1
            if self.at('SELECT'):
                q = self.select()
                self.need(')')
                return ('scalar', q)
            e = self.expr()
            if self.eat(','):
                items = [e, self.expr()]
                while self.eat(','):
                    items.append(self.expr())
                self.need(')')
                return ('row', items)
            self.need(')')
            return e
        if p.u == 'NULL':
            self.i += 1
            return ('lit', None)
        if p.u in ('TRUE', 'FALSE'):
            self.i += 1
            return ('lit', 1 if p.u == 'TRUE' else 0)
        if p.u == 'EXISTS':
            self.i += 1
            self.need('(')
            q = self.select()
            self.need(')')
            return ('exists', q)
        if p.u == 'CASE':
            self.i += 1
            base = None if self.at('WHEN') else self.expr()
            arms = []
            while self.eat('WHEN'):
                c = self.expr()
                self.need('THEN')
                arms.append((c if base is None else ('cmp', '=', base, c), self.expr()))
            other = self.expr() if self.eat('ELSE') else ('lit', None)
            self.need('END')
            return ('case', arms, other)
        if p.u == '*':
            self.i += 1
            return ('star',)
        nxt = self.peek(1)
        if p.kind == 'name' and nxt is not None and nxt.u == '(' and (p.u not in RESERVED or p.u in
                                                                      ('VALUES', 'LEFT', 'RIGHT', 'MOD')):
            self.i += 2
            name = p.u
            if name in AGG:
                distinct = self.eat('DISTINCT')
                e = ('star',) if self.eat('*') else self.expr()
                self.need(')')
                return ('agg', name, e, distinct)
            if name == 'CAST' or name == 'CONVERT':
                e = self.expr()
                if not (self.eat('AS') or self.eat(',')):
                    raise syntax(self.rest())
                ty = self.ident().upper()
                args = []
                if self.eat('('):
                    while not self.eat(')'):
                        args.append(self.expr()[1])
                        self.eat(',')
                self.need(')')
                return ('cast', e, ty, args)
            args = []
            if not self.eat(')'):
                while True:
                    if self.eat('INTERVAL'):
                        v = self.expr()
                        args.append(('ival', v, self.unit()))
                    elif self.peek() is not None and self.peek().kind == 'name' and name in ('TIMESTAMPDIFF',
                                                                                            'TIMESTAMPADD') and not args:
                        args.append(('unit', self.ident().upper()))
                    else:
                        args.append(self.expr())
                    if not self.eat(','):
                        break
                self.need(')')
            return ('func', name, args)
        name = self.ident()
        if self.eat('.'):
            if self.eat('*'):
                return ('star',)
            return ('col', name.lower(), self.ident().lower())
        return ('col', None, name.lower())

    # statements
    def select(self):
        self.need('SELECT')
        while self.at('SQL_NO_CACHE') or self.at('STRAIGHT_JOIN') or self.at('ALL'):
            self.i += 1
        q = {'distinct': self.eat('DISTINCT'), 'items': [], 'from': [], 'where': None, 'group': [], 'having': None,
             'order': [], 'limit': None, 'offset': None, 'lock': None}
        while True:
            e = self.expr()
            name = None
            if self.eat('AS'):
                p = self.peek()
                if p.kind == 'str':
                    self.i += 1
                    name = p.v
                else:
                    name = self.ident()
            elif self.peek() is not None and (self.peek().kind == 'ident' or (
                    self.peek().kind == 'name' and self.peek().u not in RESERVED)):
                name = self.ident()
            q['items'].append((e, name))
            if not self.eat(','):
                break
        if self.eat('FROM'):
            q['from'].append(('cross', self.table_ref(), None))
            while True:
                if self.eat(','):
                    q['from'].append(('cross', self.table_ref(), None))
                    continue
                kind = None
                if self.eat('INNER', 'JOIN') or self.eat('JOIN') or self.eat('CROSS', 'JOIN'):
                    kind = 'inner'
                elif self.eat('LEFT', 'JOIN') or self.eat('LEFT', 'OUTER', 'JOIN'):
                    kind = 'left'
                if kind is None:
                    break
                ref = self.table_ref()
                on = self.expr() if self.eat('ON') else None
                q['from'].append((kind, ref, on))
            if self.eat('WHERE'):
                q['where'] = self.expr()
            if self.eat('GROUP', 'BY'):
                q['group'] = [self.expr()]
                while self.eat(','):
                    q['group'].append(self.expr())
            if self.eat('HAVING'):
                q['having'] = self.expr()
        q['order'] = self.order_by()
        q['limit'], q['offset'] = self.limit()
        if self.eat('FOR', 'UPDATE'):
            q['lock'] = 'x'
        elif self.eat('FOR', 'SHARE') or self.eat('LOCK', 'IN', 'SHARE', 'MODE'):
            q['lock'] = 's'
        if self.at('UNION'):
            raise Unsupported('UNION')
        return q

    def order_by(self):
        out = []
        if self.eat('ORDER', 'BY'):
            while True:
                e = self.expr()
                desc = self.eat('DESC')
                if not desc:
                    self.eat('ASC')
                out.append((e, desc))
                if not self.eat(','):
                    break
        return out

    def limit(self):
        if not self.eat('LIMIT'):
            return None, None
        a = self.expr()
        if self.eat(','):
            return self.expr(), a
        if self.eat('OFFSET'):
            return a, self.expr()
        return a, None

    def table_ref(self):
        if self.eat('('):
            q = self.select()
            self.need(')')
            self.eat('AS')
            return ('sub', q, self.ident().lower())
        name = self.ident()
        if self.eat('.'):
            name = self.ident()
        alias = name
        if self.eat('AS'):
            alias = self.ident()
        elif self.peek() is not None and (self.peek().kind == 'ident' or (
                self.peek().kind == 'name' and self.peek().u not in RESERVED)):
            alias = self.ident()
        if self.at('FORCE') or self.at('USE') or self.at('IGNORE'):
            self.i += 1
            self.need('INDEX')
            self.need('(')
            while not self.eat(')'):
                self.i += 1
        return ('table', name.lower(), alias.lower())

    def statement(self):
        p = self.peek()
        if p is None:
            raise SqlError(1065, '42000', 'Query was empty')
        u = p.u
        if u == 'SELECT' or u == '(':
            q = self.select()
            return ('select', q)
        if u in ('INSERT', 'REPLACE'):
            self.i += 1
            replace = u == 'REPLACE'
            self.eat('LOW_PRIORITY') or self.eat('DELAYED') or self.eat('HIGH_PRIORITY')
            ignore = self.eat('IGNORE')
            self.eat('INTO')
            name = self.ident().lower()
            if self.eat('.'):
                name = self.ident().lower()
            cols, rows, sel = None, [], None
            if self.eat('SET'):
                cols, vals = [], []
                while True:
                    cols.append(self.ident().lower())
                    self.need('=')
                    vals.append(self.default_or_expr())
                    if not self.eat(','):
                        break
                rows.append(vals)
            else:
                if self.eat('('):
                    cols = []
                    while not self.eat(')'):
                        c = self.ident().lower()
                        if self.eat('.'):
                            c = self.ident().lower()
                        cols.append(c)
                        self.eat(',')
                if self.eat('VALUES') or self.eat('VALUE'):
                    while True:
                        self.need('(')
                        vals = []
                        while not self.eat(')'):
                            vals.append(self.default_or_expr())
                            self.eat(',')
                        rows.append(vals)
                        if not self.eat(','):
                            break
                else:
                    par = self.eat('(')
                    sel = self.select()
                    if par:
                        self.need(')')
            alias = None
            if self.eat('AS'):
                alias = self.ident().lower()
            dup = None
            if self.eat('ON', 'DUPLICATE', 'KEY', 'UPDATE'):
                dup = self.assignments()
            return ('insert', name, cols, rows, sel, dup, 'replace' if replace else ignore, alias)
        if u == 'UPDATE':
            self.i += 1
            ref = self.table_ref()
            self.need('SET')
            sets = self.assignments()
            where = self.expr() if self.eat('WHERE') else None
            order = self.order_by()
            return ('update', ref, sets, where, order, self.limit()[0])
        if u == 'DELETE':
            self.i += 1
            self.need('FROM')
            ref = self.table_ref()
            where = self.expr() if self.eat('WHERE') else None
            order = self.order_by()
            return ('delete', ref, where, order, self.limit()[0])
        if u in ('BEGIN', 'START'):
            self.i += 1
            if u == 'START':
                self.need('TRANSACTION')
                snap = self.eat('WITH', 'CONSISTENT', 'SNAPSHOT')
            else:
                self.eat('WORK')
                snap = False
            while not self.done():
                self.i += 1
            return ('begin', snap)
        if u == 'COMMIT':
            self.i += 1
            self.eat('WORK')
            return ('commit',)
        if u == 'ROLLBACK':
            self.i += 1
            self.eat('WORK')
            if self.eat('TO'):
                self.eat('SAVEPOINT')
                return ('rollback_to', self.ident().lower())
            return ('rollback',)
        if u == 'SAVEPOINT':
            self.i += 1
            return ('savepoint', self.ident().lower())
        if u == 'RELEASE':
            self.i += 1
            self.need('SAVEPOINT')
            return ('release', self.ident().lower())
        if u == 'SET':
            self.i += 1
            words = []
            if self.at('NAMES') or self.at('CHARACTER'):
                self.i = len(self.t)
                return ('set', [])
            scope = None
            while self.at('SESSION') or self.at('GLOBAL') or self.at('LOCAL'):
                scope = self.peek().u
                self.i += 1
            if self.eat('TRANSACTION'):
                words = [t.u or str(t.v) for t in self.t[self.i:]]
                self.i = len(self.t)
                return ('isolation', 'READ COMMITTED' if 'COMMITTED' in words and 'READ' in words else
                        'READ UNCOMMITTED' if 'UNCOMMITTED' in words else 'SERIALIZABLE' if 'SERIALIZABLE' in words else
                        'REPEATABLE READ' if 'REPEATABLE' in words else None, scope)
            sets = []
            while True:
                p = self.peek()
                self.i += 1
                name = str(p.v).lower().lstrip('@')
                if name in ('session', 'global', 'local') and not self.at('='):
                    continue
                for pre in ('session.', 'global.', 'local.'):
                    if name.startswith(pre):
                        name = name[len(pre):]
                if not (self.eat('=') or self.eat(':=')):
                    raise syntax(self.rest())
                if self.peek() is not None and self.peek().u in ('ON', 'OFF', 'DEFAULT'):
                    v = ('lit', self.peek().u)
                    self.i += 1
                else:
                    v = self.expr()
                sets.append((name, v))
                if not self.eat(','):
                    break
            return ('set', sets)
        if u == 'USE':
            self.i += 1
            self.ident()
            return ('set', [])
        if u == 'SHOW':
            self.i = len(self.t)
            return ('show',)
        if u in ('WITH', 'ALTER', 'CREATE', 'DROP', 'TRUNCATE', 'LOCK', 'UNLOCK', 'CALL', 'DO', 'EXPLAIN', 'ANALYZE',
                 'OPTIMIZE', 'TABLE', 'VALUES', 'LOAD', 'HANDLER', 'PREPARE', 'EXECUTE', 'DEALLOCATE', 'GRANT',
                 'RENAME', 'FLUSH', 'KILL', 'XA', 'DESCRIBE', 'DESC', 'CHECK', 'REPAIR', 'RESET'):
            raise Unsupported('statement %s' % self.rest())
        raise syntax(self.rest())

    def default_or_expr(self):
        if self.eat('DEFAULT'):
            return ('default',)
        return self.expr()

    def assignments(self):
        out = []
        while True:
            c = self.ident().lower()
            if self.eat('.'):
                c = self.ident().lower()
            self.need('=')
            out.append((c, self.default_or_expr()))
            if not self.eat(','):
                return out


_PARSED = {}


def parse(sql):
    p = Parser(tokenize(sql))
    s = p.statement()
    if not p.done():
        raise syntax(p.rest())
    return s


def parse_schema(sql):
    """CREATE TABLE statements -> list of Table."""
    p = Parser(tokenize(sql))
    out = []
    while not p.done():
        p.need('CREATE', 'TABLE')
        name = p.ident()
        p.need('(')
        cols, uniques = [], []
        while True:
            if p.eat('PRIMARY', 'KEY'):
                uniques.append(('PRIMARY', _names(p)))
            elif p.at('UNIQUE'):
                p.i += 1
                p.eat('INDEX') or p.eat('KEY')
                n = p.ident()
                uniques.append((n, _names(p)))
            elif p.at('INDEX') or p.at('KEY'):
                p.i += 1
                p.ident()
                _names(p)
            else:
                cols.append(_column(p))
            if p.eat(')'):
                break
            p.need(',')
        while p.peek() is not None and p.peek().u != ';':
            p.i += 1
        pos = {c.lname: i for i, c in enumerate(cols)}
        out.append(Table(name.lower(), cols, [(n, [pos[c] for c in cs]) for n, cs in uniques]))
    return out


def _names(p):
    p.need('(')
    out = []
    while not p.eat(')'):
        out.append(p.ident().lower())
        p.eat(',')
    return out


def _column(p):
    name = p.ident()
    ty = p.peek().u
    p.i += 1
    args = []
    if p.eat('('):
        while not p.eat(')'):
            args.append(p.peek().v)
            p.i += 1
            p.eat(',')
    unsigned = p.eat('UNSIGNED')
    notnull = default = auto = False
    dv = None
    while p.peek() is not None and p.peek().u not in (',', ')'):
        if p.eat('NOT', 'NULL'):
            notnull = True
        elif p.eat('NULL'):
            pass
        elif p.eat('AUTO_INCREMENT'):
            auto = True
        elif p.eat('COMMENT'):
            p.i += 1
        elif p.eat('DEFAULT'):
            default = True
            dv = None if p.at('NULL') else p.peek().v
            p.i += 1
        elif p.eat('PRIMARY', 'KEY') or p.eat('UNSIGNED'):
            pass
        else:
            raise HarnessError('schema: %s' % p.rest())
    if ty in INTS:
        b = INTS[ty]
        t = Type('int', 0 if unsigned else -(1 << (b - 1)), (1 << b) - 1 if unsigned else (1 << (b - 1)) - 1)
    elif ty in ('DECIMAL', 'NUMERIC'):
        t = Type('dec', prec=args[0], scale=args[1] if len(args) > 1 else 0, unsigned=unsigned)
    elif ty == 'ENUM':
        t = Type('enum', values=args)
    elif ty == 'YEAR':
        t = Type('year')
    elif ty in ('DATETIME', 'TIMESTAMP'):
        t = Type('datetime', fsp=args[0] if args else 0)
    elif ty == 'DATE':
        t = Type('date')
    elif ty == 'TIME':
        t = Type('time', fsp=args[0] if args else 0)
    elif ty in ('DOUBLE', 'FLOAT', 'REAL'):
        t = Type('float')
    elif ty in ('VARCHAR', 'CHAR', 'TEXT'):
        t = Type('str', prec=args[0] if args else None)
    else:
        raise HarnessError('schema type %s' % ty)
    return Column(name, t, notnull, dv, default or (not notnull), auto)


# ---- expression compiler ---------------------------------------------------------------------------------
class Scope(object):
    """Column lookup over concatenated rows of several tables; position = index into the row tuple."""

    def __init__(self, parts, outer=None):
        # parts: list of (alias, [(lname, Type or None)])
        self.cols = []
        self.types = []
        for alias, cols in parts:
            for n, t in cols:
                self.cols.append((alias, n))
                self.types.append(t)

    def find(self, alias, name):
        hits = [i for i, (a, n) in enumerate(self.cols) if n == name and (alias is None or a == alias)]
        if not hits:
            raise SqlError(1054, '42S22', "Unknown column '%s' in 'field list'" % (name if not alias else alias + '.' + name))
        if len(hits) > 1:
            raise SqlError(1052, '23000', "Column '%s' in field list is ambiguous" % name)
        return hits[0]


class Compiler(object):
    def __init__(self, engine, trx, scope, aggs=None, values=None, aliases=None, outer=None):
        self.e = engine
        self.outer = outer          # (scope, row, outer of that) of the query around a correlated subquery
        self.trx = trx
        self.scope = scope
        self.aggs = aggs            # list collecting (name, fn, distinct) or None where aggregates are not allowed
        self.values = values        # column -> position for VALUES(col)
        self.aliases = aliases if aliases is not None else {}

    def c(self, x):
        return getattr(self, 'x_' + x[0])(*x[1:])

    def x_lit(self, v):
        return lambda r, a: v

    def x_default(self):
        raise Unsupported('DEFAULT in expression')

    def x_var(self, name):
        v = self.e.variable(self.trx, name)
        return lambda r, a: v

    def x_col(self, alias, name):
        if alias is None and name in self.aliases:
            try:
                self.scope.find(None, name)
            except SqlError:
                return self.aliases[name]
        if self.values is not None and alias is not None and alias == self.values.get('__alias__'):
            return self.x_values(name)
        try:
            i = self.scope.find(alias, name)
        except SqlError as e:
            out = self.outer
            while out is not None and e.code == 1054:
                try:
                    v = out[1][out[0].find(alias, name)]
                except SqlError:
                    out = out[2]
                    continue
                return lambda r, a: v
            raise
        return lambda r, a: r[i]

    def sub(self, q):
        """Rows of a subquery as a function of the row it is evaluated for."""
        try:
            rows = self.e.run_select(self.trx, q, self.outer)[1]
        except SqlError as e:
            if e.code != 1054 or not self.scope.cols:
                raise
            blank = (None,) * len(self.scope.cols)
            self.e.run_select(self.trx, q, (self.scope, blank, self.outer))     # reports what is really unknown
            return lambda r: self.e.run_select(self.trx, q, (self.scope, r, self.outer))[1]
        return lambda r: rows

    def x_values(self, name):
        get = self.values['__row__']
        i = self.values[name]
        return lambda r, a: get[0][i]

    def x_star(self):
        raise syntax('*')

    def x_row(self, items):
        raise Unsupported('row constructor')

    def x_and(self, p, q):
        p, q = self.c(p), self.c(q)

        def f(r, a):
            x = truth(p(r, a))
            if x is False:
                return 0
            y = truth(q(r, a))
            if y is False:
                return 0
            return None if x is None or y is None else 1
        return f

    def x_or(self, p, q):
        p, q = self.c(p), self.c(q)

        def f(r, a):
            x = truth(p(r, a))
            if x:
                return 1
            y = truth(q(r, a))
            if y:
                return 1
            return None if x is None or y is None else 0
        return f

    def x_xor(self, p, q):
        p, q = self.c(p), self.c(q)

        def f(r, a):
            x, y = truth(p(r, a)), truth(q(r, a))
            return None if x is None or y is None else int(x != y)
        return f

    def x_not(self, p):
        p = self.c(p)

        def f(r, a):
            x = truth(p(r, a))
            return None if x is None else int(not x)
        return f

    def x_isnull(self, p):
        p = self.c(p)
        return lambda r, a: int(p(r, a) is None)

    def x_istrue(self, p):
        p = self.c(p)
        return lambda r, a: int(bool(truth(p(r, a))))

    def x_cmp(self, op, p, q):
        if p[0] == 'row' and q[0] == 'row':
            if len(p[1]) != len(q[1]):
                raise SqlError(1241, '21000', 'Operand should contain %d column(s)' % len(p[1]))
            if op in ('=', '<=>'):
                e = ('lit', 1)
                for x, y in zip(p[1], q[1]):
                    e = ('and', e, ('cmp', op, x, y))
            elif op in ('<>', '!='):
                e = ('not', ('cmp', '=', p, q))
            else:
                # (a, b) < (c, d) is a < c OR (a = c AND b < d)
                e = ('cmp', op, p[1][-1], q[1][-1])
                for x, y in reversed(list(zip(p[1], q[1]))[:-1]):
                    e = ('or', ('cmp', op[0], x, y), ('and', ('cmp', '=', x, y), e))
            return self.c(e)
        tp, tq = self.type_of(p), self.type_of(q)
        # a string literal compared with a temporal column is converted once
        for a, b in ((p, tq), (q, tp)):
            if a[0] == 'lit' and isinstance(a[1], str) and b is not None and b.kind in ('datetime', 'date'):
                d = to_datetime(a[1])
                if d is None:
                    raise SqlError(1525, 'HY000', "Incorrect DATETIME value: '%s'" % a[1])
                if a is p:
                    p = ('lit', d)
                else:
                    q = ('lit', d)
        # ordering comparisons of enum columns compare strings against literals; equality is by value
        p, q = self.c(p), self.c(q)
        if op == '=':
            return lambda r, a: _eq(p(r, a), q(r, a))
        if op == '<=>':
            def f(r, a):
                x, y = p(r, a), q(r, a)
                if x is None or y is None:
                    return int(x is None and y is None)
                return int(_cmp_values(x, y) == 0)
            return f
        test = {'<': lambda c: c < 0, '>': lambda c: c > 0, '<=': lambda c: c <= 0, '>=': lambda c: c >= 0,
                '<>': lambda c: c != 0, '!=': lambda c: c != 0}[op]

        def f(r, a):
            c = _cmp_values(p(r, a), q(r, a))
            return None if c is None else int(test(c))
        return f

    def x_in(self, p, items):
        e = None
        for i in items:
            t = ('cmp', '=', p, i)
            e = t if e is None else ('or', e, t)
        return self.c(e)

    def x_insub(self, p, q):
        get = self.sub(q)
        p = self.c(p)

        def f(r, a):
            rows = get(r)
            v = p(r, a)
            null = v is None
            for row in rows:
                c = _cmp_values(v, row[0])
                if c == 0:
                    return 1
                null = null or c is None
            return None if null and rows else 0
        return f

    def x_scalar(self, q):
        get = self.sub(q)

        def f(r, a):
            rows = get(r)
            if len(rows) > 1:
                raise SqlError(1242, '21000', 'Subquery returns more than 1 row')
            return rows[0][0] if rows else None
        return f

    def x_exists(self, q):
        get = self.sub(q)
        return lambda r, a: int(bool(get(r)))

    def x_like(self, p, q):
        p, q = self.c(p), self.c(q)

        def f(r, a):
            x, y = p(r, a), q(r, a)
            if x is None or y is None:
                return None
            rx = re.escape(text(y)).replace('%', '.*').replace('_', '.')
            return int(re.match('^' + rx + '$', text(x), re.I | re.S) is not None)
        return f

    def x_neg(self, p):
        p = self.c(p)

        def f(r, a):
            v = to_number(p(r, a))
            return None if v is None else -v
        return f

    def x_arith(self, op, p, q):
        p, q = self.c(p), self.c(q)
        return lambda r, a: _arith(op, p(r, a), q(r, a))

    def x_interval(self, op, p, n, unit):
        p, n = self.c(p), self.c(n)
        return lambda r, a: _interval(p(r, a), n(r, a), unit, -1 if op == '-' else 1)

    def x_case(self, arms, other):
        arms = [(self.c(x), self.c(y)) for x, y in arms]
        other = self.c(other)

        def f(r, a):
            for x, y in arms:
                if truth(x(r, a)):
                    return y(r, a)
            return other(r, a)
        return f

    def x_agg(self, name, e, distinct):
        if self.aggs is None:
            raise SqlError(1111, 'HY000', 'Invalid use of group function')
        if e == ('star',):
            fn = lambda r, a: 1
            ty = None
        else:
            fn = Compiler(self.e, self.trx, self.scope, outer=self.outer).c(e)
            ty = self.type_of(e)
        i = len(self.aggs)
        self.aggs.append((name, fn, distinct, ty))
        return lambda r, a: a[i]

    def x_cast(self, e, ty, args):
        p = self.c(e)
        if ty in ('DECIMAL', 'DEC'):
            s = args[1] if len(args) > 1 else 0
            return lambda r, a: None if p(r, a) is None else D(str(to_number(p(r, a)))).quantize(
                D(1).scaleb(-s), rounding=ROUND_HALF_UP)
        if ty in ('SIGNED', 'UNSIGNED'):
            return lambda r, a: None if p(r, a) is None else int(D(str(to_number(p(r, a)))).quantize(
                D(1), rounding=ROUND_HALF_UP))
        if ty == 'DATETIME':
            return lambda r, a: to_datetime(p(r, a))
        if ty == 'DATE':
            return lambda r, a: None if to_datetime(p(r, a)) is None else to_datetime(p(r, a)).date()
        if ty == 'TIME':
            return lambda r, a: to_time(p(r, a))
        if ty in ('CHAR', 'BINARY'):
            return lambda r, a: None if p(r, a) is None else text(p(r, a))
        raise Unsupported('CAST AS %s' % ty)

    def x_func(self, name, args):
        if name == 'VALUES' and self.values is not None:
            return self.x_values(args[0][2])
        if name in ('COALESCE', 'IFNULL'):
            fs = [self.c(x) for x in args]

            def f(r, a):
                for g in fs:
                    v = g(r, a)
                    if v is not None:
                        return v
                return None
            return f
        if name == 'IF':
            x, y, z = [self.c(v) for v in args]
            return lambda r, a: y(r, a) if truth(x(r, a)) else z(r, a)
        if name == 'NULLIF':
            x, y = [self.c(v) for v in args]
            return lambda r, a: None if _cmp_values(x(r, a), y(r, a)) == 0 else x(r, a)
        if name in ('DATE_ADD', 'DATE_SUB', 'ADDDATE', 'SUBDATE'):
            p, (_, n, unit) = self.c(args[0]), args[1]
            n = self.c(n)
            return lambda r, a: _interval(p(r, a), n(r, a), unit, -1 if 'SUB' in name else 1)
        if name == 'TIMESTAMPDIFF':
            unit = args[0][1]
            x, y = self.c(args[1]), self.c(args[2])
            per = {'SECOND': 1, 'MINUTE': 60, 'HOUR': 3600, 'DAY': 86400}[unit]

            def f(r, a):
                u, v = to_datetime(x(r, a)), to_datetime(y(r, a))
                return None if u is None or v is None else int((v - u).total_seconds() / per)
            return f
        if name == 'LAST_INSERT_ID' and not args:
            v = self.trx.session.last_insert_id if self.trx is not None else 0
            return lambda r, a: v
        if name in ('NOW', 'CURRENT_TIMESTAMP', 'UTC_TIMESTAMP', 'SYSDATE'):
            v = self.e.now()
            return lambda r, a: v
        if name in ('DATABASE', 'SCHEMA'):
            return lambda r, a: 'weather'
        if name in ('VERSION',):
            return lambda r, a: '8.0.36'
        if name == 'CONNECTION_ID':
            v = self.trx.session.id
            return lambda r, a: v
        fs = [self.c(x) for x in args]
        fn = _FUNCS.get(name)
        if fn is None:
            raise Unsupported('function %s' % name)

        def f(r, a):
            vs = [g(r, a) for g in fs]
            if any(v is None for v in vs):
                return None
            return fn(*vs)
        return f

    def type_of(self, e):
        if e[0] == 'col':
            try:
                return self.scope.types[self.scope.find(e[1], e[2])]
            except SqlError:
                return None
        if e[0] == 'agg' and e[1] in ('MIN', 'MAX'):
            return self.type_of(e[2])
        return None


def _eq(x, y):
    c = _cmp_values(x, y)
    return None if c is None else int(c == 0)


def _interval(v, n, unit, sign):
    d = to_datetime(v)
    if d is None or n is None:
        return None
    n = int(n) * sign
    unit = unit.rstrip('S') if unit != 'S' else unit
    if unit in ('MICROSECOND', 'SECOND', 'MINUTE', 'HOUR', 'DAY', 'WEEK'):
        return d + datetime.timedelta(**{unit.lower() + 's': n})
    if unit in ('MONTH', 'YEAR'):
        m = d.year * 12 + d.month - 1 + n * (12 if unit == 'YEAR' else 1)
        y, m = divmod(m, 12)
        day = d.day
        while True:
            try:
                return d.replace(year=y, month=m + 1, day=day)
            except ValueError:
                day -= 1
    raise Unsupported('INTERVAL %s' % unit)


def _scale(v):
    return -v.as_tuple().exponent if isinstance(v, D) else 0


def _div(x, y, scale):
    return (x / y).quantize(D(1).scaleb(-scale), rounding=ROUND_HALF_UP)


def _arith(op, x, y):
    x, y = to_number(x), to_number(y)
    if x is None or y is None:
        return None
    if isinstance(x, float) or isinstance(y, float):
        x, y = float(x), float(y)
        if op == '/':
            return None if y == 0 else x / y
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if y == 0:
        return None
    if op == '/':
        return _div(D(x), D(y), max(0, _scale(x)) + 4)
    if op == 'DIV':
        return int(D(x) / D(y))
    if op == '%':
        return x - y * int(D(x) / D(y))
    raise Unsupported(op)


def _round(v, n=0):
    v = to_number(v)
    if isinstance(v, float):
        v = D(repr(v))
    r = D(v).quantize(D(1).scaleb(-int(n)), rounding=ROUND_HALF_UP)
    return int(r) if isinstance(v, int) else r


def _part(fn):
    def f(v):
        d = to_datetime(v)
        if d is None:
            t = to_time(v)
            if t is None:
                return None
            d = datetime.datetime(2000, 1, 1) + t
        return fn(d)
    return f


_FUNCS = {
    'YEAR': _part(lambda d: d.year), 'MONTH': _part(lambda d: d.month), 'DAY': _part(lambda d: d.day),
    'DAYOFMONTH': _part(lambda d: d.day), 'HOUR': _part(lambda d: d.hour), 'MINUTE': _part(lambda d: d.minute),
    'SECOND': _part(lambda d: d.second), 'DATE': _part(lambda d: d.date()), 'TIME': lambda v: to_time(v),
    'WEEKDAY': _part(lambda d: d.weekday()), 'TO_DAYS': _part(lambda d: d.toordinal() + 365),
    'DATEDIFF': lambda a, b: (to_datetime(a).date() - to_datetime(b).date()).days,
    'ABS': lambda v: abs(to_number(v)), 'ROUND': _round, 'FLOOR': lambda v: int(D(str(to_number(v))).__floor__()),
    'CEIL': lambda v: int(D(str(to_number(v))).__ceil__()), 'CEILING': lambda v: int(D(str(to_number(v))).__ceil__()),
    'GREATEST': lambda *v: max(v), 'LEAST': lambda *v: min(v), 'LOWER': lambda s: text(s).lower(),
    'UPPER': lambda s: text(s).upper(), 'CONCAT': lambda *v: ''.join(text(x) for x in v), 'LENGTH': lambda s: len(text(s)),
    'MOD': lambda a, b: _arith('%', a, b), 'UNIX_TIMESTAMP': _part(lambda d: int((d - datetime.datetime(1970, 1, 1)).total_seconds())),
    'TIMEDIFF': lambda a, b: to_datetime(a) - to_datetime(b),
}


def sort_key(v, ty):
    if v is None:
        return (0, 0)
    if ty is not None and ty.kind == 'enum':
        return (1, ty.index[v])
    if isinstance(v, str):
        return (1, v.lower())
    return (1, v)


def aggregate(name, vals, distinct, ty):
    vals = [v for v in vals if v is not None]
    if distinct:
        seen, out = set(), []
        for v in vals:
            key = v.lower() if isinstance(v, str) else v
            if key not in seen:
                seen.add(key)
                out.append(v)
        vals = out
    if name == 'COUNT':
        return len(vals)
    if not vals:
        return None
    if name in ('MIN', 'MAX'):
        key = lambda v: v.lower() if isinstance(v, str) else v
        return min(vals, key=key) if name == 'MIN' else max(vals, key=key)
    nums = [to_number(v) for v in vals]
    if any(isinstance(v, float) for v in nums):
        s = float(sum(float(v) for v in nums))
        return s if name == 'SUM' else s / len(nums)
    scale = max(_scale(v) for v in nums)
    s = sum(D(v) for v in nums)
    if name == 'SUM':
        return s
    return _div(s, D(len(nums)), scale + 4)


# ---- transactions and the engine -------------------------------------------------------------------------
class Trx(object):
    def __init__(self, session, n):
        self.session = session
        self.id = n
        self.snapshot = None        # (seq, state)
        self.overlay = {}           # table -> {row id: tuple or None}
        self.locks = set()
        self.savepoints = []
        self.started = None
        self.first_seq = None       # committed state when the transaction began doing anything

    def writes(self):
        return any(self.overlay.values())


class Session(object):
    """One client session of the engine."""

    def __init__(self, engine, n):
        self.engine = engine
        self.id = n
        self.autocommit = True
        self.trx = None
        self.explicit = False
        self.isolation = 'REPEATABLE READ'
        self.last_insert_id = 0
        self.waiting_for = None
        self.vars = {}
        self.dead = False


class Engine(object):
    def __init__(self, tables, rng, now):
        self.tables = {t.name: Table(t.name, t.columns, t.uniques) for t in tables}
        self.rng = rng
        self.now = now
        self.state = {t.name: {} for t in tables}
        self.index = {t.name: [{} for _ in t.uniques] for t in tables}
        self.seq = 0
        self.history = [(0, self.state)]
        self.commits = []            # (seq, session id, {table: {row id: (old, new)}}, trx first seq, snapshot seq)
        self.sessions = set()
        self.locks = {}              # key -> Trx
        self.n_trx = 0
        self.n_sessions = 0
        self.on_release = None
        self.on_commit = None

    # -- sessions
    def open(self):
        self.n_sessions += 1
        s = Session(self, self.n_sessions)
        self.sessions.add(s)
        return s

    def close(self, s):
        if not s.dead:
            s.dead = True
            self.rollback(s)
            self.sessions.discard(s)

    def pending(self):
        """Sessions holding uncommitted changes."""
        return [s for s in self.sessions if s.trx is not None and s.trx.writes()]

    def begin(self, s):
        if s.trx is None:
            self.n_trx += 1
            s.trx = Trx(s, self.n_trx)
            s.trx.first_seq = self.seq
        return s.trx

    def commit(self, s):
        t = s.trx
        s.trx = None
        s.explicit = False
        if t is None:
            return
        if t.writes():
            new = dict(self.state)
            changes = {}
            for name, rows in t.overlay.items():
                if not rows:
                    continue
                cur = dict(new[name])
                idx = self.index[name]
                tab = self.tables[name]
                ch = changes[name] = {}
                for rid in rows:      # two passes, so that keys may move between rows
                    old = cur.get(rid)
                    if old is not None:
                        for (n, ps), ix in zip(tab.uniques, idx):
                            key = _key(old, ps)
                            if key is not None and ix.get(key) == rid:
                                del ix[key]
                for rid, row in rows.items():
                    old = cur.get(rid)
                    if row is None:
                        cur.pop(rid, None)
                    else:
                        cur[rid] = row
                        for (n, ps), ix in zip(tab.uniques, idx):
                            key = _key(row, ps)
                            if key is not None:
                                ix[key] = rid
                    ch[rid] = (old, row)
                new[name] = cur
            self.seq += 1
            self.state = new
            self.history.append((self.seq, new))
            rec = (self.seq, s.id, changes, t.first_seq, t.snapshot[0] if t.snapshot else self.seq - 1)
            self.commits.append(rec)
            self._release(t)
            if self.on_commit:
                self.on_commit(rec)
        else:
            self._release(t)

    def rollback(self, s):
        t = s.trx
        s.trx = None
        s.explicit = False
        if t is not None:
            self._release(t)

    def _release(self, t):
        for k in t.locks:
            if self.locks.get(k) is t:
                del self.locks[k]
        t.locks.clear()
        if self.on_release:
            self.on_release()

    def lock(self, trx, key):
        h = self.locks.get(key)
        if h is None:
            self.locks[key] = trx
            trx.locks.add(key)
        elif h is not trx:
            raise MustWait(h)

    def deadlocked(self, s, holder):
        """Would s waiting for holder close a cycle?"""
        seen = set()
        h = holder
        while h is not None and h not in seen:
            if h.session is s:
                return True
            seen.add(h)
            w = h.session.waiting_for
            h = w if w is not None else None
        return False

    def variable(self, trx, name):
        n = name.lower().lstrip('@')
        for pre in ('session.', 'global.', 'local.'):
            if n.startswith(pre):
                n = n[len(pre):]
        s = trx.session
        if n == 'autocommit':
            return 1 if s.autocommit else 0
        if n in ('tx_isolation', 'transaction_isolation'):
            return s.isolation.replace(' ', '-')
        if n in s.vars:
            return s.vars[n]
        return {'sql_mode': 'STRICT_TRANS_TABLES', 'time_zone': 'SYSTEM', 'version': '8.0.36',
                'max_allowed_packet': 67108864}.get(n)

    # -- statements.  execute() -> ('rows', columns, rows) or ('ok', affected, last_insert_id)
    def execute(self, s, sql):
        st = parse(sql)
        kind = st[0]
        if kind == 'commit':
            self.commit(s)
            return ('ok', 0, 0)
        if kind == 'rollback':
            self.rollback(s)
            return ('ok', 0, 0)
        if kind == 'begin':
            self.commit(s)
            t = self.begin(s)
            s.explicit = True
            if st[1]:
                t.snapshot = (self.seq, self.state)
            return ('ok', 0, 0)
        if kind == 'isolation':
            if st[1]:
                s.isolation = st[1]
            return ('ok', 0, 0)
        if kind == 'set':
            for n, v in st[1]:
                val = v[1] if v[0] == 'lit' else None
                if n == 'autocommit':
                    on = val in (1, 'ON', 'TRUE', '1', True)
                    if on and not s.autocommit:
                        self.commit(s)
                    s.autocommit = on
                elif n in ('tx_isolation', 'transaction_isolation') and isinstance(val, str):
                    s.isolation = val.upper().replace('-', ' ')
                else:
                    s.vars[n] = val
            return ('ok', 0, 0)
        if kind == 'show':
            return ('rows', [('Level', None), ('Code', None), ('Message', None)], [])
        t = self.begin(s)
        if kind == 'savepoint':
            t.savepoints.append((st[1], {k: dict(v) for k, v in t.overlay.items()}))
            return ('ok', 0, 0)
        if kind in ('rollback_to', 'release'):
            for i in range(len(t.savepoints) - 1, -1, -1):
                if t.savepoints[i][0] == st[1]:
                    if kind == 'rollback_to':
                        t.overlay = {k: dict(v) for k, v in t.savepoints[i][1].items()}
                        del t.savepoints[i + 1:]
                    else:
                        del t.savepoints[i:]
                    return ('ok', 0, 0)
            raise SqlError(1305, '42000', 'SAVEPOINT %s does not exist' % st[1])
        saved = {k: dict(v) for k, v in t.overlay.items()}
        try:
            if kind == 'select':
                cols, rows = self.run_select(t, st[1])
                res = ('rows', cols, rows)
            elif kind == 'insert':
                res = self.run_insert(t, st)
            elif kind == 'update':
                res = self.run_update(t, st)
            elif kind == 'delete':
                res = self.run_delete(t, st)
            else:
                raise Unsupported(kind)
        except (SqlError, MustWait):
            t.overlay = saved
            if s.autocommit and not s.explicit and not t.writes():
                self.rollback(s)
            raise
        if s.autocommit and not s.explicit:
            self.commit(s)
        return res

    # -- reading
    def _view(self, trx, name, current=False):
        if name not in self.tables:
            raise SqlError(1146, '42S02', "Table 'weather.%s' doesn't exist" % name)
        if current:
            base = self.state[name]
        else:
            if trx.session.isolation in ('READ COMMITTED', 'READ UNCOMMITTED'):
                base = self.state[name]
            else:
                if trx.snapshot is None:
                    trx.snapshot = (self.seq, self.state)
                base = trx.snapshot[1][name]
            if trx.session.isolation == 'READ UNCOMMITTED':
                for s in self.sessions:
                    if s.trx is not None and s.trx is not trx and s.trx.overlay.get(name):
                        base = dict(base)
                        for rid, row in s.trx.overlay[name].items():
                            if row is None:
                                base.pop(rid, None)
                            else:
                                base[rid] = row
        ov = trx.overlay.get(name)
        if ov:
            base = dict(base)
            for rid, row in ov.items():
                if row is None:
                    base.pop(rid, None)
                else:
                    base[rid] = row
        return base

    def _source(self, trx, ref, lock):
        """(alias, [(column, type)], rows)"""
        if ref[0] == 'table':
            _, name, alias = ref
            current = bool(lock)
            view = self._view(trx, name, current)
            tab = self.tables[name]
            return alias, [(c.lname, c.type) for c in tab.columns], view, name
        _, q, alias = ref
        cols, rows = self.run_select(trx, q)
        return alias, [(c[0].lower(), c[1]) for c in cols], {i: r for i, r in enumerate(rows)}, None

    def run_select(self, trx, q, outer=None):
        lock = q['lock']
        if not q['from']:
            comp = Compiler(self, trx, Scope([]), [], outer=outer)
            row = []
            cols = []
            for e, name in q['items']:
                v = comp.c(e)((), [])
                row.append(v)
                cols.append((name or _label(e), None))
            return cols, [tuple(row)]
        parts = []
        rows = None
        locked = []
        for kind, ref, on in q['from']:
            alias, cols, view, name = self._source(trx, ref, lock)
            parts.append((alias, cols))
            items = [view[i] for i in view]
            if rows is None:
                rows = items
                if lock and name and len(q['from']) == 1:
                    locked = [(name, i, view[i]) for i in view]
                continue
            scope = Scope(parts)
            cond = Compiler(self, trx, scope, outer=outer).c(on) if on is not None else None
            out = []
            width = len(cols)
            for a in rows:
                hit = False
                for b in items:
                    r = a + b
                    if cond is None or truth(cond(r, None)):
                        out.append(r)
                        hit = True
                if kind == 'left' and not hit:
                    out.append(a + (None,) * width)
            rows = out
        scope = Scope(parts)
        plain = Compiler(self, trx, scope, outer=outer)
        if q['where'] is not None:
            w = plain.c(q['where'])
            rows = [r for r in rows if truth(w(r, None))]
            if locked:
                self._lock_matching(trx, locked[0][0], w)
                locked = [x for x in locked if truth(w(x[2], None))]
        for name, rid, _ in locked:
            self.lock(trx, ('row', name, rid))
        rng = self.rng
        if len(rows) > 1:
            rows = list(rows)
            rng.shuffle(rows)
        aggs = []
        aliases = {}
        comp = Compiler(self, trx, scope, aggs, aliases=aliases, outer=outer)
        items, cols = [], []
        for e, name in q['items']:
            if e == ('star',):
                for i, (alias, n) in enumerate(scope.cols):
                    items.append((lambda i: lambda r, a: r[i])(i))
                    cols.append((n, scope.types[i]))
                continue
            f = comp.c(e)
            items.append(f)
            cols.append((name or _label(e), comp.type_of(e)))
            if name:
                aliases[name.lower()] = f
        order = []
        for e, desc in q['order']:
            if e[0] == 'lit' and isinstance(e[1], int):
                order.append((items[e[1] - 1], desc, cols[e[1] - 1][1]))
            else:
                al = e[0] == 'col' and e[1] is None and e[2] in aliases
                order.append((aliases[e[2]] if al else comp.c(e), desc, comp.type_of(e)))
        having = comp.c(q['having']) if q['having'] is not None else None
        if q['group'] or aggs:
            groups = {}
            keys = []
            for e in q['group']:
                if e[0] == 'lit' and isinstance(e[1], int):
                    keys.append(items[e[1] - 1])
                elif e[0] == 'col' and e[1] is None and e[2] in aliases:
                    keys.append(aliases[e[2]])
                else:
                    keys.append(plain.c(e))
            if q['group']:
                for r in rows:
                    k = tuple(sort_key(f(r, None), None) for f in keys)
                    groups.setdefault(k, []).append(r)
                glist = list(groups.values())
            else:
                glist = [rows]
            env = []
            width = len(scope.cols)
            for g in glist:
                vals = [aggregate(n, [fn(r, None) for r in g], dist, ty) for n, fn, dist, ty in aggs]
                env.append((g[0] if g else (None,) * width, vals))
            if len(env) > 1:
                rng.shuffle(env)
        else:
            env = [(r, None) for r in rows]
        if having is not None:
            env = [x for x in env if truth(having(*x))]
        for f, desc, ty in reversed(order):
            env.sort(key=lambda x: sort_key(f(*x), ty), reverse=desc)
        out = None
        if q['distinct']:
            seen = set()
            out = []
            for x in env:
                r = tuple(f(*x) for f in items)
                if r not in seen:
                    seen.add(r)
                    out.append(r)
        lo = int(plain.c(q['offset'])((), None)) if q['offset'] is not None else 0
        if q['limit'] is not None:
            n = int(plain.c(q['limit'])((), None))
            if out is not None:
                out = out[lo:lo + n]
            env = env[lo:lo + n]
        if out is None:
            out = [tuple(f(*x) for f in items) for x in env]
        return cols, out

    # -- writing
    def _lock_matching(self, trx, name, w):
        """Wait for other transactions' uncommitted rows that match (before or after their change)."""
        for s in self.sessions:
            o = s.trx
            if o is None or o is trx:
                continue
            for rid, row in o.overlay.get(name, {}).items():
                old = self.state[name].get(rid)
                if (row is not None and truth(w(row, None))) or (old is not None and truth(w(old, None))):
                    raise MustWait(o)

    def _matching(self, trx, ref, where, order, limit):
        _, name, alias = ref
        view = self._view(trx, name, True)
        tab = self.tables[name]
        scope = Scope([(alias, [(c.lname, c.type) for c in tab.columns])])
        comp = Compiler(self, trx, scope)
        if where is not None:
            w = comp.c(where)
            self._lock_matching(trx, name, w)
            ids = [i for i, r in view.items() if truth(w(r, None))]
        else:
            self._lock_matching(trx, name, lambda r, a: 1)
            ids = list(view)
        for i in sorted(ids):
            self.lock(trx, ('row', name, i))
        if order or limit is not None:
            self.rng.shuffle(ids)
        for e, desc in reversed(order):
            f = comp.c(e)
            ids.sort(key=lambda i: sort_key(f(view[i], None), comp.type_of(e)), reverse=desc)
        if limit is not None:
            ids = ids[:int(comp.c(limit)((), None))]
        return tab, scope, view, ids

    def _conflict(self, trx, tab, row, rid):
        """(unique name, key, row id) of a row that already has one of row's keys."""
        ov = trx.overlay.get(tab.name, {})
        for (n, ps), ix in zip(tab.uniques, self.index[tab.name]):
            key = _key(row, ps)
            if key is None:
                continue
            self.lock(trx, ('key', tab.name, n, key))
            other = ix.get(key)
            if other is not None and other != rid:
                if other not in ov or (ov[other] is not None and _key(ov[other], ps) == key):
                    return n, key, other
            for i, r in ov.items():
                if i != rid and r is not None and _key(r, ps) == key:
                    return n, key, i
        return None

    def run_insert(self, trx, st):
        _, name, cols, rows, sel, dup, ignore, alias = st
        if name not in self.tables:
            raise SqlError(1146, '42S02', "Table 'weather.%s' doesn't exist" % name)
        tab = self.tables[name]
        if trx.first_seq is None:
            trx.first_seq = self.seq
        if cols is None:
            cols = [c.lname for c in tab.columns]
        pos = []
        for c in cols:
            if c not in tab.pos:
                raise SqlError(1054, '42S22', "Unknown column '%s' in 'field list'" % c)
            if tab.pos[c] in pos:
                raise SqlError(1110, '42000', "Column '%s' specified twice" % c)
            pos.append(tab.pos[c])
        comp = Compiler(self, trx, Scope([]))
        if sel is not None:
            todo = self.run_select(trx, sel)[1]
        else:
            todo = []
            for vals in rows:
                if len(vals) != len(cols):
                    raise SqlError(1136, '21S01', "Column count doesn't match value count at row 1")
                todo.append([_DEFAULT if v == ('default',) else comp.c(v)((), None) for v in vals])
        affected = 0
        first_id = 0
        for vals in todo:
            new = [None] * len(tab.columns)
            given = dict(zip(pos, vals))
            for i, c in enumerate(tab.columns):
                v = given.get(i, _DEFAULT)
                if c.auto and (v is _DEFAULT or v is None or v == 0):
                    new[i] = tab.next_auto
                    tab.next_auto += 1
                    first_id = first_id or new[i]
                    continue
                if v is _DEFAULT:
                    if not c.has_default:
                        raise SqlError(1364, 'HY000', "Field '%s' doesn't have a default value" % c.name)
                    v = c.default
                    new[i] = None if v is None else store(c, v)
                else:
                    new[i] = store(c, v)
                if c.auto:
                    tab.next_auto = max(tab.next_auto, new[i] + 1)
            new = tuple(new)
            hit = self._conflict(trx, tab, new, None)
            while hit is not None and ignore == 'replace':
                self.lock(trx, ('row', name, hit[2]))
                trx.overlay.setdefault(name, {})[hit[2]] = None
                affected += 1
                hit = self._conflict(trx, tab, new, None)
            if hit is not None:
                if dup is not None:
                    n, key, rid = hit
                    self.lock(trx, ('row', name, rid))
                    cur = self._view(trx, name, True).get(rid)
                    if cur is None:
                        raise HarnessError('conflicting row vanished')
                    scope = Scope([(name, [(c.lname, c.type) for c in tab.columns])])
                    values = dict(tab.pos)
                    values['__row__'] = [new]
                    values['__alias__'] = alias
                    upd = self._assign(trx, tab, scope, cur, dup, values)
                    if upd != cur:
                        c2 = self._conflict(trx, tab, upd, rid)
                        if c2 is not None:
                            raise _dup(tab, c2)
                        trx.overlay.setdefault(name, {})[rid] = upd
                        affected += 2
                    if tab.auto is not None:
                        first_id = upd[tab.auto]
                    continue
                if ignore:
                    continue
                raise _dup(tab, hit)
            rid = tab.next_row
            tab.next_row += 1
            self.lock(trx, ('row', name, rid))
            trx.overlay.setdefault(name, {})[rid] = new
            affected += 1
        if first_id:
            trx.session.last_insert_id = first_id
        return ('ok', affected, first_id)

    def _assign(self, trx, tab, scope, row, sets, values=None):
        cur = list(row)
        comp = Compiler(self, trx, scope, values=values)
        for c, e in sets:
            if c not in tab.pos:
                raise SqlError(1054, '42S22', "Unknown column '%s' in 'field list'" % c)
            i = tab.pos[c]
            col = tab.columns[i]
            v = col.default if e == ('default',) else comp.c(e)(tuple(cur), None)
            cur[i] = store(col, v)
        return tuple(cur)

    def run_update(self, trx, st):
        _, ref, sets, where, order, limit = st
        tab, scope, view, ids = self._matching(trx, ref, where, order, limit)
        n = 0
        for i in ids:
            new = self._assign(trx, tab, scope, view[i], sets)
            if new != view[i]:
                hit = self._conflict(trx, tab, new, i)
                if hit is not None:
                    raise _dup(tab, hit)
                trx.overlay.setdefault(tab.name, {})[i] = new
                n += 1
        return ('ok', n, 0)

    def run_delete(self, trx, st):
        _, ref, where, order, limit = st
        tab, scope, view, ids = self._matching(trx, ref, where, order, limit)
        for i in ids:
            trx.overlay.setdefault(tab.name, {})[i] = None
        return ('ok', len(ids), 0)

    # -- harness access
    def rows(self, table, state=None):
        tab = self.tables[table]
        names = [c.lname for c in tab.columns]
        return [dict(zip(names, r)) for r in (state or self.state)[table].values()]


_DEFAULT = object()


def _key(row, ps):
    out = []
    for p in ps:
        v = row[p]
        if v is None:
            return None
        out.append(v.lower() if isinstance(v, str) else v)
    return tuple(out)


def _dup(tab, hit):
    return SqlError(1062, '23000', "Duplicate entry '%s' for key '%s.%s'" % (
        '-'.join(text(v) for v in hit[1]), tab.name, hit[0]))


def _label(e):
    if e[0] == 'col':
        return e[2]
    if e[0] == 'agg':
        return '%s(%s)' % (e[1].lower(), _label(e[2]))
    return e[0]

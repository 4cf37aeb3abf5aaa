"""Tests of the simulated database engine: fixed cases of MySQL behaviour, and a differential test against SQLite where
both dialects mean the same.  Run with the interpreter of the checks: PYTHONHASHSEED=0 python -B tools/sqltest.py"""
import datetime
import os
import random
import sqlite3
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wlsim import sqlengine as E  # noqa

SCHEMA = '''CREATE TABLE `a` (`id` INT UNSIGNED NOT NULL AUTO_INCREMENT PRIMARY KEY, `x` INT NULL, `y` INT NULL, `g` INT NULL,
UNIQUE INDEX `u` (`x`, `y`)) ENGINE=InnoDB;
CREATE TABLE `b` (`id` INT UNSIGNED NOT NULL AUTO_INCREMENT PRIMARY KEY, `p` INT NULL, `q` INT NULL) ENGINE=InnoDB;'''


def norm(v):
    if isinstance(v, (int, float)) or v is None:
        return v if v is None else round(float(v), 3)
    try:
        return round(float(v), 3)
    except (TypeError, ValueError):
        return str(v)


def engine():
    e = E.Engine(E.parse_schema(SCHEMA), random.Random(1), lambda: datetime.datetime(2016, 4, 1))
    return e, e.open()


def expr(rng, cols, depth=0):
    k = rng.random()
    if depth > 2 or k < .35:
        return rng.choice(cols)
    if k < .5:
        return str(rng.randrange(-3, 6))
    if k < .7:
        return '(%s %s %s)' % (expr(rng, cols, depth + 1), rng.choice('+-*'), expr(rng, cols, depth + 1))
    if k < .8:
        return 'coalesce(%s, %s)' % (expr(rng, cols, depth + 1), expr(rng, cols, depth + 1))
    return '(CASE WHEN %s THEN %s ELSE %s END)' % (cond(rng, cols, depth + 1), expr(rng, cols, depth + 1),
                                                   expr(rng, cols, depth + 1))


def cond(rng, cols, depth=0):
    k = rng.random()
    if depth > 2 or k < .45:
        return '%s %s %s' % (expr(rng, cols, depth + 1), rng.choice(['=', '<', '>', '<=', '>=', '<>']),
                             expr(rng, cols, depth + 1))
    if k < .55:
        return '%s IS %sNULL' % (expr(rng, cols, depth + 1), rng.choice(['', 'NOT ']))
    if k < .65:
        return '%s BETWEEN %d AND %d' % (rng.choice(cols), rng.randrange(-2, 3), rng.randrange(0, 5))
    if k < .72:
        return '%s %sIN (%s)' % (rng.choice(cols), rng.choice(['', 'NOT ']), ', '.join(
            str(rng.randrange(-2, 5)) for _ in range(3)))
    if k < .78:
        return '(%s, %s) %s (%d, %d)' % (rng.choice(cols), rng.choice(cols), rng.choice(['=', '<', '>=', '<>']),
                                         rng.randrange(4), rng.randrange(4))
    if k < .84:
        return '%sEXISTS (SELECT 1 FROM b s WHERE s.p %s %s)' % (rng.choice(['', 'NOT ']), rng.choice(['=', '<']),
                                                                 rng.choice(cols))
    if k < .88:
        return '%s > (SELECT min(q) FROM b s WHERE s.p = %s)' % (rng.choice(cols), rng.choice(cols))
    if k < .94:
        return '(NOT (%s))' % cond(rng, cols, depth + 1)
    return '(%s %s %s)' % (cond(rng, cols, depth + 1), rng.choice(['AND', 'OR']), cond(rng, cols, depth + 1))


def query(rng):
    join = rng.random() < .3
    cols = ['a.x', 'a.y', 'a.g', 'a.id']
    frm = 'a'
    if join:
        frm += ' %s JOIN b ON b.p = a.g' % rng.choice(['LEFT', 'INNER'])
        cols += ['b.p', 'b.q']
    where = ' WHERE ' + cond(rng, cols) if rng.random() < .8 else ''
    k = rng.random()
    if k < .3:
        e = [('%s(%s%s)' % (f, rng.choice(['', '', 'DISTINCT ']) if f != 'count' or True else '', rng.choice(cols)))
             for f in rng.sample(['min', 'max', 'sum', 'count', 'avg'], 3)]
        return 'SELECT %s FROM %s%s' % (', '.join(e), frm, where), False
    if k < .6:
        c = rng.choice(cols)
        having = ' HAVING count(*) > 1' if rng.random() < .4 else ''
        return 'SELECT %s, count(*), sum(%s), max(%s) FROM %s%s GROUP BY %s%s' % (
            c, rng.choice(cols), rng.choice(cols), frm, where, c, having), False
    if k < .8:
        key = 'a.id' + (', b.id' if join else '')
        return 'SELECT %s, %s FROM %s%s ORDER BY %s %s, %s LIMIT %d' % (
            expr(rng, cols), rng.choice(cols), frm, where, rng.choice(cols), rng.choice(['ASC', 'DESC']), key,
            rng.randrange(1, 9)), True
    return 'SELECT %s%s, %s FROM %s%s' % (rng.choice(['', 'DISTINCT ']), expr(rng, cols), rng.choice(cols), frm, where), False


def differential(n=4000):
    # (SQLite, like InnoDB, differs in the numbers it gives to rows after a refused insert: ids are explicit here)
    for i in range(n):
        rng = random.Random(i)
        e, s = engine()
        c = sqlite3.connect(':memory:')
        c.execute('CREATE TABLE a (id INTEGER PRIMARY KEY AUTOINCREMENT, x INT, y INT, g INT, UNIQUE (x, y))')
        c.execute('CREATE TABLE b (id INTEGER PRIMARY KEY AUTOINCREMENT, p INT, q INT)')

        log = []

        def both(sql):
            log.append(sql)
            r1 = r2 = None
            try:
                r1 = e.execute(s, sql)
            except E.SqlError as x:
                r1 = ('error', x.code)
            try:
                r2 = c.execute(sql)
                r2 = ('rows', None, r2.fetchall()) if r2.description else ('ok', r2.rowcount)
            except sqlite3.Error as x:
                r2 = ('error', str(x))
            return r1, r2
        val = lambda: rng.choice(['NULL', '0', '1', '2', '3', '-1'])  # noqa
        for k in range(1, rng.randrange(3, 10)):
            for sql in ('INSERT INTO a (id, x, y, g) VALUES (%d, %s, %s, %s)' % (k, val(), val(), val()),
                        'INSERT INTO b (id, p, q) VALUES (%d, %s, %s)' % (k, val(), val())):
                r1, r2 = both(sql)
                assert (r1[0] == 'error') == (r2[0] == 'error'), (sql, r1, r2)
        if rng.random() < .3:
            both('UPDATE a SET g = %s WHERE %s' % (val(), cond(rng, ['x', 'y', 'g', 'id'], 1)))
        if rng.random() < .2:
            both('DELETE FROM b WHERE %s' % cond(rng, ['p', 'q'], 2).replace('b s', 'a s').replace('s.p', 's.x').replace(
                'min(q)', 'min(y)'))
        for sql in ('SELECT id, x, y, g FROM a ORDER BY id', 'SELECT id, p, q FROM b ORDER BY id'):
            r1, r2 = both(sql)
            assert [tuple(r) for r in r1[2]] == r2[2], (i, log, r1[2], r2[2])
        for _ in range(4):
            sql, ordered = query(rng)
            r1, r2 = both(sql)
            assert r1[0] == r2[0], (i, sql, r1, r2)
            if r1[0] == 'error':
                continue
            x = [tuple(norm(v) for v in r) for r in r1[2]]
            y = [tuple(norm(v) for v in r) for r in r2[2]]
            if not ordered:
                x, y = sorted(x, key=repr), sorted(y, key=repr)
            assert x == y, (i, log, x, y)
        c.close()
    return n * 4


def fixed():
    e, s = engine()
    q = lambda sql: e.execute(s, sql)  # noqa
    q('INSERT INTO a (x, y, g) VALUES (1, 1, 5), (1, 2, 6)')
    for sql, want in (
            ('SELECT (x, y) < (1, 2) FROM a WHERE g = 5', 1), ('SELECT (x, y) <= (1, 1) FROM a WHERE g = 6', 0),
            ('SELECT count(*) FROM a WHERE (x, y) IN ((1, 1), (3, 3))', 1),
            ('SELECT 7 / 2', 3.5), ('SELECT 7 DIV 2', 3), ('SELECT -7 % 3', -1), ('SELECT 1 / 0', None),
            ('SELECT NULL <=> NULL', 1), ('SELECT NULL = NULL', None),
            ("SELECT TIMESTAMPDIFF(MINUTE, '2016-04-01 00:00:00', '2016-04-01 03:10:59')", 190),
            ("SELECT count(*) FROM a o WHERE NOT EXISTS (SELECT 1 FROM a i WHERE i.g > o.g)", 1),
            ('SELECT round(2.5)', 3), ('SELECT round(avg(g), 1) FROM a', 5.5)):
        r = q(sql)[2][0][0]
        assert norm(r) == norm(want), (sql, r, want)
    try:
        q('INSERT INTO a (x, y) VALUES (1, 1)')
        raise SystemExit('duplicate accepted')
    except E.SqlError as x:
        assert x.code == 1062
    for sql in ('SELECT nothing FROM a', 'SELECT (SELECT z.x FROM b z)', 'SELECT * FROM c', 'SELEC 1'):
        try:
            q(sql)
            raise SystemExit('accepted: ' + sql)
        except E.SqlError:
            pass


if __name__ == '__main__':
    fixed()
    print('%d queries agree' % differential(int(sys.argv[1]) if len(sys.argv) > 1 else 4000))

#!/usr/bin/env python3
"""Which checks catch which planted change: matrix.py [ID...] applies each seeded patch to a scratch copy, runs the checks of its component
on it (its own at full length, the others for 100 runs) and prints a table for DESIGN.md."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
GROUPS = [('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C19'), ('C08', 'C09', 'C18'), ('C10', 'C20'),
          ('C11', 'C12', 'C13', 'C14', 'C15', 'C18', 'C20'), ('C16', 'C17', 'C19')]


def main(names):
    for d in sorted(glob.glob(HERE + '/seeded/*/')):
        name = os.path.basename(d[:-1])
        if names and name not in names:
            continue
        own = json.load(open(d + 'meta.json'))['property']
        checks = sorted({own}.union(*[g for g in GROUPS if own in g]))
        if own in ('C18', 'C19', 'C20'):
            checks = [own]
            files = open(d + 'patch.diff').read()
            for word, extra in (('poller.py', ['C06', 'C07']), ('serial.py', ['C01', 'C02']), ('mysql.py', ['C11', 'C12', 'C15']),
                                ('downloader.py', ['C08', 'C09']), ('importer.py', ['C10']), ('wunderground.py', ['C16', 'C17'])):
                if word in files:
                    checks += extra
        scratch = tempfile.mkdtemp(prefix='wlmatrix')
        try:
            subprocess.check_call('cp -a /repo/. %s/ && git -C %s apply %spatch.diff' % (scratch, scratch, d), shell=True)
            hit = []
            for c in checks:
                r = subprocess.run([PY, '-B', HERE + '/check.py', c] + ([] if c == own else ['--runs', '100']), env=dict(os.environ, WLSIM_REPO=scratch, VERIF_SEED='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                kind = [x.split(': ')[1] for x in r.stdout.splitlines() if x.startswith('%s violated: ' % c)]
                if r.returncode == 1:
                    hit.append('%s (%s)' % (c, kind[0] if kind else '?'))
                elif r.returncode:
                    hit.append('%s exit %d' % (c, r.returncode))
            print('| %s | %s | %s |' % (name, own, ', '.join(hit) or '-'), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


main(sys.argv[1:])

"""Writes MANIFEST.json.  Properties whose checks are not built yet are listed as not applicable with that reason."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = '/opt/venv-pypy/bin/python -B check.py'
NOTES = {
    'C01': 'sampled connect/disconnect/with sequences, faults, two communicators; single console model',
    'C02': 'sampled sessions and faults; the console model answers one LPS/EEBRD/EEBWR dialect',
    'C03': 'sampled addresses, lengths, damage and link faults',
    'C04': 'sampled addresses, lengths, damage, refusal and link faults',
    'C05': 'sampled counts, packet contents, damage and link faults; LOOP2 only reaches the public API by default',
    'C06': 'sampled schedules of one background thread, its caller and the console',
    'C07': 'sampled operation sequences and schedules of up to a few runs on one poller',
}
d = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
checks, na = [], []
for ln in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(ln)
    pid = p['id']
    if pid in d['claimed']:
        checks.append({
            'property': pid,
            'quick_cmd': '%s %s --tier quick' % (PY, pid),
            'thorough_cmd': '%s %s --tier thorough' % (PY, pid),
            'technique': 'deterministic simulation with fault injection: ' + d['claimed'][pid]['technique'],
            'level': 'exploration',
            'level_note': d['claimed'][pid].get('note') or NOTES[pid],
        })
    else:
        na.append({'property': pid, 'reason': d['unclaimed'].get(pid, 'check not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv-pypy/bin/python -B check.py --selftest', 'checks': checks,
     'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
    json.dump(m, h, indent=1)
    h.write('\n')

"""Batch execution, minimisation, replay and evidence."""
import copy
import gc
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import net as netmod
from .kernel import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_TIME = netmod.REAL['time']

MODULES = {
    'C01': 'serial_props', 'C02': 'serial_props', 'C03': 'serial_props', 'C04': 'serial_props',
    'C05': 'serial_props', 'C06': 'serial_props', 'C07': 'serial_props',
    'C08': 'web_props', 'C09': 'web_props', 'C10': 'import_props',
    'C11': 'db_props', 'C12': 'db_props', 'C13': 'db_props', 'C14': 'db_props', 'C15': 'db_props',
    'C16': 'wu_props', 'C17': 'wu_props', 'C18': 'pipeline_props', 'C19': 'relay_props', 'C20': 'load_props',
}
LAST_TRACE = [None]


def load_prop(pid):
    m = importlib.import_module('wlsim.props.' + MODULES[pid])
    return m.PROPS[pid]


def run_plan(prop, plan, sched=None):
    """Execute one plan.  Returns a JSON-able result."""
    plan = json.loads(json.dumps(plan))
    k, extra = prop.execute(plan, sched or plan.get('sched'))
    gc.collect()
    LAST_TRACE[0] = k.trace
    return {
        'violations': k.violations, 'digest': k.digest(), 'faults': k.faults, 'stats': k.stats,
        'probes': k.probes, 'sim': k.now - k.start, 'decisions': k.d, 'choices': k.choices,
        'events': len(k.trace), 'extra': extra or {},
    }


def violation_key(v):
    return v['kind']


# ---- workers ---------------------------------------------------------------------------------------------
def _worker(prop, tier, base, lo, n, step, wfd, deadline):
    out = os.fdopen(wfd, 'w')
    try:
        for i in range(lo, n, step):
            if REAL_TIME() > deadline:
                break
            seed = base + i
            signal.alarm(300)
            t0 = REAL_TIME()
            try:
                plans = prop.make(seed, i, tier)
                for j, plan in enumerate(plans):
                    res = run_plan(prop, plan)
                    msg = {'i': i, 'j': j, 'seed': seed, 'res': res, 'wall': REAL_TIME() - t0}
                    if res['violations'] or (i < 2 and j == 0):
                        msg['plan'] = plan
                    if not res['violations']:
                        del res['choices']
                    out.write(json.dumps(msg) + '\n')
                out.write(json.dumps({'done': i}) + '\n')
                out.flush()
            except BaseException as e:  # harness trouble: never a verdict
                out.write(json.dumps({'i': i, 'seed': seed, 'error': '%s: %s' % (type(e).__name__, e),
                                      'tb': traceback.format_exc()}) + '\n')
                out.flush()
                break
            signal.alarm(0)
    finally:
        try:
            out.write(json.dumps({'end': lo}) + '\n')
            out.flush()
        except Exception:
            pass
        os._exit(0)


def batch(prop, tier, base, n, workers, wall, on_msg):
    deadline = REAL_TIME() + wall
    kids = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in kids:
                os.close(fd)
            _worker(prop, tier, base, w, n, workers, wr, deadline)
        os.close(wr)
        kids[r] = [pid, b'', w, False]
    stop_above = [None]
    progress = {w: -1 for w in range(workers)}
    ended = set()
    try:
        while kids:
            rs, _, _ = select.select(list(kids), [], [], 5.0)
            if REAL_TIME() > deadline + 330:
                raise HarnessError('workers did not stop')
            for fd in rs:
                data = os.read(fd, 1 << 16)
                st = kids[fd]
                if not data:
                    os.close(fd)
                    os.waitpid(st[0], 0)
                    if st[2] not in ended:
                        on_msg({'error': 'worker %d died' % st[2], 'i': -1})
                    del kids[fd]
                    continue
                st[1] += data
                lines = st[1].split(b'\n')
                st[1] = lines.pop()
                for ln in lines:
                    m = json.loads(ln)
                    if 'end' in m:
                        ended.add(m['end'])
                        progress[m['end']] = 1 << 60
                    elif 'done' in m:
                        progress[st[2]] = m['done']
                    else:
                        if on_msg(m):
                            i = m['i']
                            if stop_above[0] is None or i < stop_above[0]:
                                stop_above[0] = i
            if stop_above[0] is not None:
                # deterministic verdict: wait until every smaller index has been explored
                if all(_next_index(progress[w], w, workers) > stop_above[0] for w in range(workers)):
                    break
    finally:
        for fd, st in kids.items():
            try:
                os.kill(st[0], signal.SIGKILL)
                os.waitpid(st[0], 0)
            except OSError:
                pass
            os.close(fd)


def _next_index(done, w, workers):
    if done < 0:
        return w
    return done + workers if done < (1 << 59) else done


# ---- minimisation ----------------------------------------------------------------------------------------
def minimise(prop, plan, res, key, budget_s=60.0, max_runs=600):
    t_end = REAL_TIME() + budget_s
    runs = [0]
    best = copy.deepcopy(plan)
    best['sched'] = {'mode': 'list', 'choices': res['choices']}
    best_res = run_plan(prop, best)
    runs[0] += 1
    if not any(violation_key(v) == key for v in best_res['violations']):
        return plan, res, runs[0]  # cannot happen unless replay is broken; caller re-verifies

    def attempt(cand):
        if runs[0] >= max_runs or REAL_TIME() > t_end:
            return None
        runs[0] += 1
        signal.alarm(120)
        try:
            r = run_plan(prop, cand)
        except HarnessError:
            return None
        except Exception:
            return None
        finally:
            signal.alarm(0)
        if any(violation_key(v) == key for v in r['violations']):
            return r
        return None

    def reduce_list(get, put):
        nonlocal best, best_res
        items = get(best)
        if not items:
            return
        cand = copy.deepcopy(best)
        put(cand, [])
        r = attempt(cand)
        if r is not None:
            best, best_res = cand, r
            return
        size = max(1, len(items) // 2)
        while size >= 1:
            i = 0
            while i < len(get(best)):
                items = get(best)
                cand = copy.deepcopy(best)
                put(cand, items[:i] + items[i + size:])
                r = attempt(cand)
                if r is not None:
                    best, best_res = cand, r
                else:
                    i += size
            if size == 1:
                break
            size //= 2

    for _ in range(2):
        before = json.dumps(best, sort_keys=True)
        reduce_list(lambda p: p['sched']['choices'], lambda p, v: p['sched'].__setitem__('choices', v))
        for field in prop.list_fields:
            reduce_list(lambda p: p.get(field, []), lambda p, v: p.__setitem__(field, v))
        for name in ('seg', 'jitter'):
            if name in best.get('net', {}):
                cand = copy.deepcopy(best)
                del cand['net'][name]
                r = attempt(cand)
                if r is not None:
                    best, best_res = cand, r
        for cand in prop.simplify(best):
            r = attempt(cand)
            if r is not None:
                best, best_res = cand, r
        if json.dumps(best, sort_keys=True) == before:
            break
    return best, best_res, runs[0]


# ---- known findings --------------------------------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        with open(path) as h:
            for ln in h:
                ln = ln.strip()
                if ln and ln.startswith('{'):
                    f = json.loads(ln)
                    if f.get('property') == pid and f.get('status') == 'known':
                        out.append(f)
    return out


def matches(finding, v):
    return finding.get('kind') == v['kind'] and finding.get('match', '') in json.dumps(v['detail'], default=str)


# ---- the check -------------------------------------------------------------------------------------------
def check(pid, tier, seed, workers=8, runs=None, wall=None):
    prop = load_prop(pid)
    t0 = REAL_TIME()
    n = runs or (prop.quick_runs if tier == 'quick' else prop.thorough_runs)
    wall = wall or (240.0 if tier == 'quick' else 780.0)
    base = seed * 1000003
    known = known_findings(pid)
    known_hit = {}
    agg = {'runs': 0, 'sim': 0.0, 'faults': {}, 'stats': {}, 'probes': {}, 'decisions': 0, 'events': 0}
    digests = set()
    nontrivial = set()
    fault_runs = [0]
    shapes = set()
    errors = []
    bad = []
    samples = []

    def on_msg(m):
        if 'error' in m:
            errors.append(m)
            return True
        r = m['res']
        agg['runs'] += 1
        agg['sim'] += r['sim']
        agg['decisions'] += r['decisions']
        agg['events'] += r['events']
        for name in ('faults', 'stats', 'probes'):
            for a, b in r[name].items():
                agg[name][a] = agg[name].get(a, 0) + b
        digests.add(r['digest'])
        if r['faults']:
            fault_runs[0] += 1
        if r['faults'] or r['stats'].get('preempt') or r['probes']:
            nontrivial.add(r['digest'])
        shapes.add(json.dumps(r['extra'].get('shape', ''), sort_keys=True))
        if m.get('plan') is not None and len(samples) < 3 and not r['violations']:
            samples.append({'seed': m['seed'], 'plan': _clip(m['plan']), 'digest': r['digest'],
                            'simulated_s': round(r['sim'], 3), 'faults_fired': r['faults']})
        hit = False
        for v in r['violations']:
            f = next((f for f in known if matches(f, v)), None)
            if f is not None:
                known_hit[f['id']] = f
            else:
                hit = True
        if hit:
            bad.append(m)
        return hit

    batch(prop, tier, base, n, workers, wall, on_msg)
    status = 0
    lines = []
    for f in known:
        if f['id'] in known_hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    replay_path = None
    if bad:
        bad.sort(key=lambda m: (m['i'], m['j']))
        m = bad[0]
        v = next(v for v in m['res']['violations'] if not any(matches(f, v) for f in known))
        replay_path, info = report(prop, pid, m, v)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay_path))
        lines.insert(len(lines) - 1, info)
        status = 1
    elif errors:
        for e in errors[:3]:
            sys.stderr.write('HARNESS ERROR %s\n%s\n' % (e.get('error'), e.get('tb', '')))
        status = 2
    elif agg['runs'] == 0:
        sys.stderr.write('HARNESS ERROR nothing explored\n')
        status = 2
    elapsed = REAL_TIME() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.rule + ' One evaluation is one simulated run; it is non-trivial if at least one fault fired, '
                    'one preemption happened or one rare-condition probe was hit; distinct means a distinct digest of '
                    'the complete event trace.',
            'samples': samples or [{'note': 'run ended at a violation before a clean sample was taken'}],
            'seeds': n, 'seed_base': base,
            'runs_per_hour': int(agg['runs'] / max(elapsed, 0.001) * 3600),
            'seeds_per_hour': int(min(n, agg['runs']) / max(elapsed, 0.001) * 3600),
            'simulated_seconds': round(agg['sim'], 1),
            'scheduling_decision_points': agg['decisions'],
            'trace_events': agg['events'],
            'preemptions_taken': agg['stats'].get('preempt', 0),
            'fault_kinds_fired': agg['faults'],
            'runs_with_faults': fault_runs[0],
            'fault_free_runs': agg['runs'] - fault_runs[0],
            'probes': agg['probes'],
            'counters': agg['stats'],
            'distinct_traces': len(digests),
            'distinct_outcome_shapes': len(shapes),
            'real_components': prop.real,
            'stub_components': prop.stub,
            'known_findings_reproduced': sorted(known_hit),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(elapsed, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as h:
        json.dump(ev, h, indent=1, default=str)
        h.write('\n')
    os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for ln in lines:
        print(ln)
    print('%s %s: %d runs, %d distinct non-trivial, %.0f simulated s, %d faults fired, %.1f s wall -> %s' % (
        pid, tier, agg['runs'], len(nontrivial), agg['sim'], sum(agg['faults'].values()), elapsed,
        {0: 'held', 1: 'VIOLATED', 2: 'HARNESS ERROR'}[status]))
    sys.stdout.flush()
    return status


def _clip(o, depth=0):
    if isinstance(o, dict):
        return {a: _clip(b, depth + 1) for a, b in list(o.items())[:40]}
    if isinstance(o, list):
        r = [_clip(x, depth + 1) for x in o[:12]]
        return r + ['... %d more' % (len(o) - 12)] if len(o) > 12 else r
    if isinstance(o, str) and len(o) > 200:
        return o[:200] + '...'
    return o


def report(prop, pid, m, v):
    key = violation_key(v)
    plan, res = m['plan'], m['res']
    total_before = _size(prop, plan, res)
    best, best_res, runs = minimise(prop, plan, res, key)
    vv = next((x for x in best_res['violations'] if violation_key(x) == key), v)
    # the replay file must be self-contained and fail the same way in a fresh interpreter
    final = run_plan(prop, best)
    trace = [list(e) for e in (LAST_TRACE[0] or [])][-400:]
    data = {
        'property': pid, 'kind': key, 'detail': vv['detail'], 'seed': m['seed'], 'digest': final['digest'],
        'plan': best, 'faults_fired': final['faults'], 'minimised': {'from': total_before,
        'to': _size(prop, best, {'choices': best['sched'].get('choices', [])}), 'runs': runs},
        'trace_tail': json.loads(json.dumps(trace, default=_b)),
    }
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, ''.join(c if c.isalnum() else '_' for c in key), m['seed']))
    with open(path, 'w') as h:
        json.dump(data, h, indent=1, default=_b)
        h.write('\n')
    import subprocess
    ok = False
    try:
        p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'check.py'), '--replay', path, '--quiet'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        ok = p.returncode == 1
    except Exception as e:  # pragma: no cover
        sys.stderr.write('replay failed to run: %r\n' % (e,))
    info = '%s violated: %s: %s (seed %d, %s; minimised from %s to %s ops+faults+schedule choices)' % (
        pid, key, json.dumps(vv['detail'], default=_b)[:600], m['seed'],
        'replay reproduces it exactly in a fresh process' if ok else 'WARNING: replay did NOT reproduce',
        total_before, data['minimised']['to'])
    return path, info


def _b(o):
    if isinstance(o, (bytes, bytearray)):
        return bytes(o).hex()
    return repr(o)


def _size(prop, plan, res):
    return sum(len(plan.get(f, [])) for f in prop.list_fields) + len(res.get('choices', []))


def replay(path, quiet=False):
    with open(path) as h:
        data = json.load(h)
    prop = load_prop(data['property'])
    res = run_plan(prop, data['plan'])
    if not quiet:
        for e in LAST_TRACE[0]:
            print(e)
    hit = [v for v in res['violations'] if violation_key(v) == data['kind']]
    same = res['digest'] == data['digest']
    if hit:
        print('%s: %s' % (hit[0]['kind'], json.dumps(hit[0]['detail'], default=_b)))
        print('trace digest %s (%s)' % (res['digest'], 'identical' if same else 'differs from ' + data['digest']))
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1 if same or not quiet else 3
    print('replay did not violate %s: %s' % (data['property'], res['violations']))
    return 0


class Prop(object):
    id = None
    quick_runs = 400
    thorough_runs = 8000
    list_fields = ('ops', 'faults')
    rule = ''
    real = []
    stub = []
    assumptions = []

    def make(self, seed, index, tier):
        raise NotImplementedError()

    def execute(self, plan, sched):
        raise NotImplementedError()

    def simplify(self, plan):
        return []


def swarm_sched(rng):
    """Per-run schedule intensity (swarm): from run-to-completion to a preemption every few statements."""
    return {'mode': 'random', 'gap': rng.choice([0, 3, 10, 40, 150, 600]), 'pick': rng.choice([0.0, 0.1, 0.4])}


def swarm_net(rng):
    return {'latency': rng.choice([0.001, 0.02, 0.2]), 'jitter': rng.choice([0.0, 0.01, 0.5]),
            'seg': rng.choice(['whole', 'random', 'random', 'bytes'])}


def digests(pid, tier, seed, workers, n):
    prop = load_prop(pid)
    out = {}

    def on_msg(m):
        if 'error' in m:
            out[(m['i'], -1)] = m['error']
            return False
        out[(m['i'], m['j'])] = '%s %d %s' % (m['res']['digest'], m['res']['decisions'],
                                              [v['kind'] for v in m['res']['violations']])
        return False
    batch(prop, tier, seed * 1000003, n, workers, 600.0, on_msg)
    for key in sorted(out):
        print(pid, key, out[key])
    return 0

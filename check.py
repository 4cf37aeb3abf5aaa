"""Entry point: check.py CXX [--tier quick|thorough] | check.py --replay FILE | check.py --determinism ..."""
import gc
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--quiet', action='store_true')
    ap.add_argument('--digests', action='store_true', help='print one trace digest per run (determinism test)')
    ap.add_argument('--selftest', action='store_true', help='only check that everything needed is present')
    a = ap.parse_args(argv)
    from wlsim import net, runner
    net.install()
    gc.disable()
    if a.selftest:
        import json
        with open(os.path.join(HERE, 'tools', 'claims.json')) as h:
            for pid in json.load(h)['claimed']:
                runner.load_prop(pid)
        print('ready')
        return 0
    try:
        if a.replay:
            return runner.replay(a.replay, a.quiet)
        if a.digests:
            return runner.digests(a.prop, a.tier, a.seed, a.workers, a.runs or 40)
        return runner.check(a.prop, a.tier, a.seed, a.workers, a.runs, a.wall)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.stderr.write('HARNESS ERROR %r\n' % (e,))
        return 2


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(__file__)] + sys.argv[1:])
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

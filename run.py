#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] | run.py --replay FILE"""
import os
import sys

VENV = '/opt/venv/bin/python'
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') or os.environ.get('VERIF_REEXEC') != '1':
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path[:0] = [HERE, os.path.join(HERE, 'engine')]
sys.dont_write_bytecode = True


def main():
    import json
    import runner_lib
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        with open(args[1], encoding='utf-8') as fh:
            d = json.load(fh)
        rep = runner_lib.Replayer(d['property'], d['tier'])
        bad = 0
        for v in d['violations']:
            a = rep.ask(op='run', case=v['case'], values=v['values'], seed=1)
            print(v['case'], json.dumps(v['values']), '->', a.get('failures'))
            bad |= bool(a.get('failures'))
        rep.stop()
        return 1 if bad else 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    jobs = 8
    if '--jobs' in args:
        i = args.index('--jobs')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    rc = 0
    for pid in args:
        rc = max(rc, runner_lib.run_check(pid, tier, jobs))
    return rc


if __name__ == '__main__':
    sys.exit(main())

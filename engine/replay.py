"""Runs a harness on real values against the unmodified package (own process); one JSON request per line."""
import json
import os
import sys
import traceback

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('VERIF_REPO', '/repo')]
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)

import warnings  # noqa: E402

warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
from engine import harness  # noqa: E402

PKG = 'safe_autonomy_dynamics'


SLACK = 4.0  # where no solver model stands behind the inputs, only deviations clear of float rounding count


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]


def run_one(case, values, seed, fresh=True, slack=1.0):
    if fresh:
        purge()
    np.random.seed(0)
    ctx = harness.ConcCtx(values, seed, slack=slack)
    harness.RealOde.handler = None
    res = {}
    try:
        with np.errstate(all='ignore'):
            case.run(ctx)
        res['status'] = 'ok'
    except harness.Discard:
        res['status'] = 'discard'
    except Exception as e:
        res['status'] = 'ok'
        tb = traceback.extract_tb(e.__traceback__)
        ctx.failures.append(f'uncaught {type(e).__name__}: {str(e)[:200]} at {os.path.basename(tb[-1].filename)}:{tb[-1].name}')
    finally:
        harness.RealOde.handler = None
    res['failures'] = ctx.failures if res['status'] == 'ok' else []
    res['observed'] = ctx.observed
    res['values'] = ctx.used
    return res


def main():
    import runner_lib
    harness.RealOde.patch()
    cases = {}
    for line in sys.stdin:
        req = json.loads(line)
        if req.get('op') == 'quit':
            break
        pid = req['property']
        if pid not in cases:
            cases[pid] = {c.name: c for c in runner_lib.load_cases(pid, req.get('tier', 'quick'))}
        case = cases[pid].get(req['case'])
        if case is None:
            out.write(json.dumps({'error': 'no such case'}) + '\n')
            out.flush()
            continue
        if req['op'] == 'run':
            ans = run_one(case, req['values'], req.get('seed', 0), slack=req.get('slack', 1.0))
        else:  # random search
            ans = {'failures': [], 'tried': 0, 'discarded': 0}
            for i in range(req['n']):
                vals = dict(req.get('fixed', {}))
                r = run_one(case, vals, req['seed'] * 100003 + i, fresh=(i == 0), slack=SLACK)
                ans['tried'] += 1
                ans['discarded'] += r['status'] == 'discard'
                if r['failures']:
                    r2 = run_one(case, r['values'], 0, slack=SLACK)
                    if r2['failures']:
                        ans.update(failures=r2['failures'], values=r['values'])
                        break
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(HERE, 'engine'))
    main()

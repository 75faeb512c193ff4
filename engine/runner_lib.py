"""Explores all paths of a property's harnesses, discharges the obligations, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def load_cases(pid, tier):
    m = importlib.import_module(f'checks.{pid.lower()}')
    cs = [c for c in m.cases(tier) if tier == 'thorough' or c.tier == 'quick']
    assert len({c.name for c in cs}) == len(cs), 'duplicate case names'
    return cs


# ------------------------------------------------------------------ symbolic exploration of one case (worker process)
def explore(case, tier, seed, known=()):
    from engine import core, harness, loader, shims, sym
    z3 = sym.z3
    loader.monitor()
    loader.SEEN.clear()
    t0 = time.time()
    budget = case.opts.get('budget', 150 if tier == 'quick' else 1500)
    res = dict(case=case.name, paths=0, dead=0, branches=0, transitions=0, queries=0, solver_s=0.0, obligations={}, candidates=[], unknowns=[],
               unencodable=[], witnesses=[], near=[], notes=[], incomplete=False, checked_paths=0)
    work = [[]]
    rng = random.Random(seed)
    max_w = case.opts.get('witnesses', 3 if tier == 'quick' else 12)
    npath = 0
    while work:
        if time.time() - t0 > budget or len(res['candidates']) >= 6:
            res['incomplete'] = True
            break
        prefix = work.pop()
        E = core.Engine(prefix, case.opts)
        sym.set_engine(E)
        hooks = {}
        case.stubs = {}
        if case.hooks:
            for modname, attrs in case.hooks.items():

                def mk(modname=modname, attrs=attrs):

                    def hook(module):
                        out = {}
                        for a, (name, nout) in attrs.items():
                            if hasattr(module, a):
                                f = harness.make_stub(name, getattr(module, a), nout)
                                out[a] = f
                        return out

                    return hook

                hooks[f'{loader.PKG}.{modname}'] = mk()
                for a, (name, nout) in attrs.items():
                    case.stubs[(modname, a)] = _StubRef(modname, a)
        world = loader.World(hooks)
        loader.install(world)
        shims.OdeDispatch.handler = None
        ctx = harness.SymCtx(E, world, case)
        done = False
        try:
            case.run(ctx)
            done = True
        except sym.PathDead:
            res['dead'] += 1
        except sym.PathLimit as e:
            res['unencodable'].append(f'path limit: {e}')
        except sym.Unencodable as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb) if loader.REPO + '/' in f.filename), '?')
            res['unencodable'].append(f'{e} ({where})')
        except RecursionError as e:
            res['unencodable'].append(f'recursion: {e}')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = tb[-1]
            msg = f'uncaught {type(e).__name__}: {str(e)[:160]} at {os.path.basename(fr.filename)}:{fr.lineno} {fr.name}'
            m = E.path_model()
            E._count('violated')
            E._candidate(msg, m, kind='exception')
        finally:
            shims.OdeDispatch.handler = None
            loader.uninstall()
        work.extend(E.pending)
        res['branches'] += E.stats['branches']
        res['transitions'] += len([d for d in E.decisions])
        res['queries'] += E.stats['branch_queries'] + E.ostats['queries']
        res['solver_s'] += E.stats['solver_s'] + E.ostats['solver_s']
        for k, v in E.ostats.items():
            if k not in ('queries', 'solver_s'):
                res['obligations'][k] = res['obligations'].get(k, 0) + v
        res['candidates'] += E.candidates
        res['unknowns'] += E.unknowns
        if (E.candidates or E.unknowns) and len(res['near']) < 15:
            try:
                res['near'] += directed(E, core, rng, [c['values'] for c in E.candidates])
            except Exception:  # pylint: disable=broad-except
                pass
        res['notes'] = sorted(set(res['notes']) | E.notes)
        if done:
            res['paths'] += 1
            if E.ostats['total']:
                res['checked_paths'] += 1
            if not E.candidates and (len(res['witnesses']) < max_w or npath % 17 == 0 and len(res['witnesses']) < 4 * max_w):
                w = witness(E, ctx, rng, core)
                if w:
                    res['witnesses'].append(w)
        npath += 1
        if len(work) > 20000:
            res['incomplete'] = True
            break
    res['functions'] = sorted(loader.SEEN)
    res['wall'] = time.time() - t0
    return res


class _StubRef:
    """looks the installed stub up in the current instance of the package"""

    def __init__(self, modname, attr):
        self.modname, self.attr = modname, attr

    def __call__(self, *a, **k):
        return getattr(importlib.import_module('safe_autonomy_dynamics.' + self.modname), self.attr)(*a, **k)


def directed(E, core, rng, starts, n=3, limit=3.0):
    """concrete inputs on this path, by local search from the solver's models (whose angles need not fit their sines);
    where a counterexample does not replay, these stand in for it"""
    z3 = core.z3
    t0 = time.time()
    cons = []

    def flat(e):
        e = z3.simplify(e)
        if z3.is_and(e):
            for c in e.children():
                flat(c)
        elif z3.is_not(e) and z3.is_or(e.arg(0)):
            for c in e.arg(0).children():
                flat(z3.Not(c))
        elif not (z3.is_eq(e) and e.arg(0).sort() == z3.RealSort()):
            cons.append(e)

    for c in E.pc[-600:]:
        flat(c)

    def inputs(e, seen):
        for v in E._vars_of(e):
            if v in E.vars:
                seen.add(v)
            elif v in E.defs and v not in seen:
                seen.add(v)
                for a in (E.defs[v] or (None, []))[1]:
                    if z3.is_expr(a):
                        inputs(a, seen)
        return seen

    names = [sorted(v for v in inputs(c, set()) if v in E.vars) for c in cons]

    def bad(v):
        ne = core.NumEval(E, v, E.opts.get('ufs'))
        out = []
        for i, c in enumerate(cons):
            try:
                if not ne.ev(c):
                    out.append(i)
            except (KeyError, OverflowError, ZeroDivisionError, TypeError):
                pass
        return out

    def fresh(name, cur):
        d = E.vars[name]
        if d['kind'] == 'bool':
            return rng.random() < 0.5
        if d['kind'] == 'int':
            return rng.randint(d['lo'], d['hi'])
        lo = -100.0 if d['lo'] is None else float(d['lo'])
        hi = 100.0 if d['hi'] is None else float(d['hi'])
        r = rng.random()
        if r < 0.35:
            x = rng.uniform(lo, hi)
        elif r < 0.7:
            x = rng.uniform(lo, hi) * 10**-rng.uniform(0, 5)
        elif r < 0.8:
            x = rng.choice([0.0, lo, hi])
        else:
            x = cur * (1 + rng.gauss(0, 0.2)) + rng.gauss(0, 0.01)
        return min(max(x, lo), hi)

    out = []
    for k in range(4 * n):
        if len(out) >= n or time.time() - t0 > limit:
            break
        v = dict(starts[k % len(starts)]) if starts and k < 2 * n else {}
        for name in E.vars:
            v.setdefault(name, fresh(name, 0.0))
        b = bad(v)
        for _ in range(150):
            if not b or time.time() - t0 > limit:
                break
            i = rng.choice(b)
            if not names[i]:
                break
            w = dict(v)
            for name in rng.sample(names[i], min(len(names[i]), rng.randint(1, 2))):
                w[name] = fresh(name, w[name])
            for q in E.quats:
                m = sum(w[c]**2 for c in q)**0.5 or 1.0
                for c in q:
                    w[c] /= m
            b2 = bad(w)
            if len(b2) <= len(b):
                v, b = w, b2
        if not b:
            # the inputs the path leaves open: anywhere
            w = dict(v)
            for name in E.vars:
                if rng.random() < 0.5:
                    w[name] = fresh(name, w[name])
            for q in E.quats:
                m = sum(w[c]**2 for c in q)**0.5 or 1.0
                for c in q:
                    w[c] /= m
            out.append(w if not bad(w) else v)
    return out


def witness(E, ctx, rng, core):
    """concrete inputs that follow this path, with what the encoding predicts for every observed value"""
    z3 = core.z3
    vals = None
    tries = []
    fixed = {}
    for c in E.pc:
        if z3.is_eq(c) and z3.is_int_value(c.arg(1)) and str(c.arg(0)) in E.vars:
            fixed[str(c.arg(0))] = c.arg(1).as_long()
    for i in range(30):
        v = {}
        for name, d in E.vars.items():
            if d['kind'] == 'real':
                lo = -100.0 if d['lo'] is None else float(d['lo'])
                hi = 100.0 if d['hi'] is None else float(d['hi'])
                v[name] = rng.uniform(lo, hi)
            elif d['kind'] == 'int':
                v[name] = rng.randint(d['lo'], d['hi'])
            else:
                v[name] = rng.random() < 0.5
        v.update(fixed)
        for q in E.quats:
            n = sum(v[c]**2 for c in q)**0.5 or 1.0
            for c in q:
                v[c] /= n
        tries.append(v)
    how = 'sampled'
    npc = len(E.pc)

    def fit(v):
        ne = core.NumEval(E, v, E.opts.get('ufs'))
        try:
            for c in E.pc:
                if (not z3.is_eq(c) or c.arg(0).sort() != z3.RealSort()) and not ne.ev(c):
                    return None
        except (KeyError, OverflowError, ZeroDivisionError):
            return None
        return ne

    if npc < 4000 and not E.ufdecl:
        for v in tries:
            ne = fit(v)
            if ne is not None:
                vals = v
                break
    if vals is None:
        m = E.path_model()
        if m is None:
            return None
        how = 'model'
        vals = E.values_of(m)
        ne = core.NumEval(E, vals)
    obs = []
    for label, x in ctx.observed:
        try:
            if isinstance(x, core.SymNum):
                y = float(ne.ev(x.e))
            elif isinstance(x, core.SymBool):
                y = float(bool(ne.ev(x.e)))
            else:
                y = float(x)
        except (KeyError, TypeError, ValueError, OverflowError, ZeroDivisionError):
            y = None
        obs.append((label, y))
    return dict(values=vals, observed=obs, how=how, comparable=not E.ufdecl)


def _work(a):
    pid, tier, idx, seed = a
    try:
        return explore(load_cases(pid, tier)[idx], tier, seed)
    except BaseException as e:  # pylint: disable=broad-except
        return dict(case=str(idx), crash=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')


def _child(a, conn):
    import threading
    sys.setrecursionlimit(4000)
    threading.stack_size(256 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(_work(a)))
    t.start()
    t.join()
    conn.send(box[0])
    conn.close()
    os._exit(0)


def run_pool(tasks, names, jobs, limit, total):
    """one process per case, at most `jobs` at a time, each ended after `limit` seconds, all after `total` seconds
    (60 s after the first counterexample)"""
    ctx = mp.get_context('fork')
    todo, running, results = list(tasks), {}, []
    end = time.time() + total
    while todo or running:
        if time.time() > end:
            for p, t, _ in running.values():
                p.kill()
                results.append(dict(case=names[t[2]], crash='no answer within the time of the whole run'))
            results += [dict(case=names[t[2]], crash='not reached within the time of the whole run') for t in todo]
            break
        while todo and len(running) < jobs:
            t = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, w))
            p.start()
            w.close()
            running[r] = (p, t, time.time())
        for r in mp.connection.wait(list(running), timeout=1):
            p, t, _ = running.pop(r)
            try:
                results.append(r.recv())
                if results[-1].get('candidates'):
                    end = min(end, time.time() + 60)
            except EOFError:
                results.append(dict(case=names[t[2]], crash='worker process died'))
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        for r, (p, t, t0) in list(running.items()):
            if time.time() - t0 > limit:
                p.kill()
                running.pop(r)
                results.append(dict(case=names[t[2]], crash=f'no answer within {limit} s'))
    return results


# ------------------------------------------------------------------ replay process
class Replayer:

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = self.tmp = None

    def start(self):
        if self.tmp is None:     # importing jax leaves an empty directory in TMPDIR
            self.tmp = tempfile.mkdtemp(prefix='verif-replay-')
        env = dict(os.environ, TMPDIR=self.tmp, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false')
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'engine', 'replay.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)

    def ask(self, **req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req.update(property=self.pid, tier=self.tier)
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return dict(error='replay process ended', failures=[])
        return json.loads(line)

    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('KNOWN '):
                    d = dict(x.split('=', 1) for x in line[6:].split(' | ') if '=' in x)
                    out.append(d)
    return out


def run_check(pid, tier, jobs=8):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cases = load_cases(pid, tier)
    rep = Replayer(pid, tier)
    rep.start()
    # loaded once, before the workers are forked
    import numpy, pint, pydantic, scipy.integrate, scipy.interpolate, scipy.spatial.transform, scipy.optimize  # noqa: E401,F401
    from engine import core, harness, loader, shims, sym  # noqa: F401
    order = sorted(range(len(cases)), key=lambda i: -cases[i].opts.get('weight', 1))
    results = run_pool([(pid, tier, i, seed) for i in order], [c.name for c in cases], jobs, *((400, 500) if tier == 'quick' else (7200, 20000)))
    return finish(pid, tier, seed, cases, results, rep, t0)


def finish(pid, tier, seed, cases, results, rep, t0):
    errors, violations, known_hits = [], [], []
    known = [k for k in load_known() if k.get('property') == pid]
    validated = mism = 0
    samples = []
    def judge(r, rep):
        nonlocal validated, mism
        if 'crash' in r:
            errors.append(f'{r["case"]}: crash {r["crash"]}')
            return
        name = r['case']
        r['confirmed'] = 0

        def confirm(values, slack=1.0):
            ans = rep.ask(op='run', case=name, values=values, seed=seed, slack=slack)
            fs = ans.get('failures') or []
            return (ans.get('values', values), fs) if fs else None

        hits = []
        for c in r['candidates'][:8]:
            h = confirm(c['values'])
            if h:
                hits.append((h[0], h[1], c['msg']))
                break
        for v in r['near']:
            if hits:
                break
            h = confirm(v, 1.0 if r['candidates'] else 4.0)
            if h:
                hits.append((h[0], h[1], r['candidates'][0]['msg'] if r['candidates'] else 'undecided obligation'))
        suspicious = bool(r['candidates'] or r['unknowns'] or r['unencodable'] or r['incomplete'])
        if suspicious and not hits and (tier != 'quick' or time.time() - t0 < 700):
            ans = rep.ask(op='random', case=name, n=250, seed=seed)
            if ans.get('failures'):
                why = r['candidates'][0]['msg'] if r['candidates'] else 'undecided obligation'
                hits.append((ans['values'], ans['failures'], why))
        # path witnesses: the encoding's prediction against the real code
        ok = bad = 0
        for w in r['witnesses']:
            ans = rep.ask(op='run', case=name, values=w['values'], seed=seed)
            if ans.get('failures'):
                # a failure at the very edge of a path can be float rounding: it counts when it persists nearby
                # (and is well beyond the tolerance)
                if not hits and confirm(w['values'], 8.0) and any(jitter(rep, name, w['values'], ans['failures'], j) for j in range(4)):
                    hits.append((ans['values'], ans['failures'], 'path witness'))
                continue
            if ans.get('status') != 'ok':
                continue
            if not w['comparable']:
                ok += 1
                continue
            got, want = ans['observed'], w['observed']
            good = [g[0] for g in got] == [x[0] for x in want]
            if good:
                for (l1, a), (l2, b) in zip(got, want):
                    if a is None or b is None or a != a or b != b:
                        continue
                    if abs(a - b) > 1e-4 * (1 + abs(a) + abs(b)):
                        good = False
                        w['mismatch'] = (l1, a, b)
                        break
            else:
                w['mismatch'] = ('labels', len(got), len(want))
            ok += good
            bad += not good
            if good and len(samples) < 6:
                samples.append(dict(case=name, inputs=w['values'], observed=got[:4]))
        validated += ok
        mism += bad
        if bad and not ok and not hits:
            mm = [w.get('mismatch') for w in r['witnesses'] if w.get('mismatch')]
            errors.append(f'{name}: encoding disagrees with the code on all {bad} replayed paths, e.g. {mm[0]}')
        if hits:
            for vals, fs, why in hits:
                k = next((k for k in known if k.get('case') == name and all(any(k['msg'] in f for k in known) for f in fs)), None)
                (known_hits if k else violations).append(dict(case=name, values=vals, failures=fs, solver=why))
            return
        if r['candidates']:
            errors.append(f'{name}: counterexample not reproduced: {r["candidates"][0]["msg"]} {json.dumps(r["candidates"][0]["values"])[:600]}')
        if r['unencodable']:
            errors.append(f'{name}: not encodable: {sorted(set(r["unencodable"]))[:3]}')
        if r['unknowns']:
            errors.append(f'{name}: undecided: {sorted(set(r["unknowns"]))[:4]}')
        if r['incomplete'] and not r['candidates']:
            errors.append(f'{name}: exploration incomplete ({r["paths"]} paths, {r["wall"]:.0f} s)')
        if not r['checked_paths'] and not r['unencodable']:
            errors.append(f'{name}: vacuous: no path reached an obligation')
        elif not r['witnesses'] and not r['candidates']:
            errors.append(f'{name}: vacuous: no satisfiable path found')

    todo = list(results)
    reps = [rep] + [Replayer(pid, tier) for _ in range(min(4, len(todo) // 8))]

    def work(rp):
        while True:
            try:
                r = todo.pop(0)
            except IndexError:
                break
            try:
                judge(r, rp)
            except Exception as e:  # pylint: disable=broad-except
                errors.append(f'{r["case"]}: {type(e).__name__} while replaying: {e}')
        rp.stop()

    ths = [threading.Thread(target=work, args=(rp, )) for rp in reps]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    errors.sort()
    violations.sort(key=lambda v: v['case'])
    good = [r for r in results if 'crash' not in r]
    tot = {}
    for r in good:
        for k, v in r['obligations'].items():
            tot[k] = tot.get(k, 0) + v
    import importlib as _il
    mod = _il.import_module(f'checks.{pid.lower()}')
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(violations),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        coverage=dict(
            states=sum(r['paths'] for r in good), transitions=sum(r['transitions'] for r in good), traces_validated_against_impl=validated,
            samples=samples or [dict(case=c.name) for c in cases[:3]],
            explanation='states: symbolic execution paths of the real code completed; transitions: branch decisions on them; '
            'traces_validated_against_impl: concrete witnesses of paths replayed on the unmodified code with matching observations',
            cases=len(cases), functions_encoded=sorted({f for r in good for f in r['functions']}), bounds=getattr(mod, 'BOUNDS', ''),
            obligations=tot.get('total', 0), obligations_by_verdict={k: v for k, v in tot.items() if k != 'total'},
            queries=sum(r['queries'] for r in good), solver_s=round(sum(r['solver_s'] for r in good), 2),
            infeasible_paths=sum(r['dead'] for r in good), validation_mismatches=mism,
            notes=sorted({n for r in good for n in r['notes']}), inconclusive=errors[:20],
            per_case={r['case']: dict(paths=r['paths'], obligations=r['obligations'].get('total', 0), wall=round(r['wall'], 1)) for r in good}
        )
    )
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    for k in known_hits:
        print(f'KNOWN-FINDING: property={pid} {k["case"]}: {k["failures"][0]}')
    if violations:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{pid}.json')
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump(dict(property=pid, tier=tier, violations=violations), fh, indent=1)
        for v in violations[:8]:
            print(f'  {v["case"]}: {v["failures"][0]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for e in errors[:30]:
        print('INCONCLUSIVE', e)
    decided = len(cases) - len({e.split(': ')[0] for e in errors})
    if errors and 2 * decided < len(cases):
        print(f'{pid}: no verdict, only {decided} of {len(cases)} harnesses decided')
        return 2
    print(f'{pid} held: {decided} of {len(cases)} harnesses decided, {ev["coverage"]["states"]} paths, {tot.get("total", 0)} obligations, '
          f'{ev["coverage"]["queries"]} queries, {validated} paths replayed, {ev["wall_s"]} s')
    return 0


def jitter(rep, name, values, failures, j):
    rng = random.Random(j)
    v = {k: x * (1 + rng.uniform(-1e-4, 1e-4)) + rng.uniform(-1e-5, 1e-5) if isinstance(x, float) else x for k, x in values.items()}
    got = rep.ask(op='run', case=name, values=v).get('failures') or []
    return bool({f.split(':')[0] for f in got} & {f.split(':')[0] for f in failures})


COMMON_ASSUMPTIONS = [
    'arithmetic is over the reals: float rounding and overflow are outside the claim (comparison tolerance about 2e-6 relative)',
    'inputs are finite numbers within the stated boxes',
    'sin, cos, sqrt, 1/x are exact functions known to the solver through their algebraic identities only',
]

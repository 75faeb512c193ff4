"""C06: a step integrates the model over exactly the requested duration."""
from checks.common import *
from checks.c05 import compare

BOUNDS = ('any step size in [0.001, 1e4] (JAX variants: 100), any state and control in the operating box; the adaptive integrators are replaced by arbitrary functions and '
          'the step must hand them the interval [0, h], the current state, the model with the applied control held constant, default or tighter '
          'tolerances, and return their end state; Euler is compared with state + h*derivative; failures at the first or second step')


def contract(ctx, kind, rec, s, u, h):
    """how the integrator was called"""
    ctx.close('integration starts at', rec['t0'], 0.0)
    ctx.close('integration ends at', rec['t1'], h)
    ctx.closes('integration starts from', rec['y0'], [(x, ) for x in s])
    opts = rec['options']
    if rec['kind'] == 'solve_ivp':
        ctx.check(rec['method'] in ('RK45', 'DOP853', 'Radau', 'BDF', 'LSODA') or callable(rec['method']), 'integrator at least as accurate as RK45')
        ctx.check(opts.get('rtol', 1e-3) <= 1e-3 and opts.get('atol', 1e-6) <= 1e-6, 'tolerances not looser than the integrator defaults')
    else:
        ctx.check(opts.get('rtol', 1.4e-8) <= 1.4e-8 and opts.get('atol', 1.4e-8) <= 1.4e-8, 'tolerances not looser than the integrator defaults')


def adaptive(ctx, tag, method, given):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, h = kind.state(ctx), ctx.real('h', 0.001, 100 if kind.jax else 1e4)
    u = kind.control(ctx) if given == 'action' else [0.0] * kind.m
    end = kind.state(ctx, 'end')
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, kind.n, end=end)
    ctx.set_ode(stub)
    if given == 'action' and kind.m:
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    else:
        ctx.quiet(lambda: e.step(h))
    ctx.check(len(stub.calls) == 1, 'one integration per step')
    rec = stub.calls[0]
    contract(ctx, kind, rec, s, u, h)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] at the end', got[i], (end[i], ))
    # control and model are the same at different times of the interval
    mk = ctx.jarr if kind.jax else ctx.arr
    t1, t2 = ctx.real('t1', 0, 1e9), ctx.real('t2', 0, 1e9)
    y = kind.state(ctx, 'y')
    compare(ctx, kind, 'integrated derivative early', rec['deriv'](t1, mk(list(y))), y, u)
    compare(ctx, kind, 'integrated derivative late', rec['deriv'](t2, mk(list(s))), s, u)
    compare(ctx, kind, 'derivative reported at the end', e.state_dot, end, u)


def euler(ctx, tag, given):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, h = kind.state(ctx), ctx.real('h', 0.001, 100 if kind.jax else 1e4)
    u = kind.control(ctx) if given == 'action' else [0.0] * kind.m
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    if given == 'action' and kind.m:
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    else:
        ctx.quiet(lambda: e.step(h))
    want = euler_state(ctx, kind, s, u, h)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}]', got[i], want[i])


def euler_dot(ctx, tag):
    """derivative at the end of a short Euler step that stays inside all limits"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, h, u = kind.state(ctx), ctx.real('h', 0.001, 0.1), kind.control(ctx)
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    nxt = [total(w) for w in euler_state(ctx, kind, s, u, h)]
    for i, x in enumerate(nxt):
        if kind.smin[i] is not None:
            ctx.assume(ctx.And(x > kind.smin[i] + 1e-4, x < kind.smax[i] - 1e-4))
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u)) if kind.m else None))
    compare(ctx, kind, 'derivative reported at the end', e.state_dot, nxt, u)


def failure(ctx, tag, samples, first):
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx)
    kw = {} if kind.tag.startswith('sun') else dict(trajectory_samples=samples)
    e = kind.make(ctx, method='RK45', **kw)
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, kind.n, fail=0 if first else 1, end=kind.state(ctx, 'end'))
    ctx.set_ode(stub)
    act = ctx.arr(list(u)) if kind.m else None
    if not first:
        ctx.quiet(lambda: e.step(1.0, act))
        kind.put(ctx, e, s)
    ctx.expect_raise(lambda: ctx.quiet(lambda: e.step(1.0, act)), ['RuntimeError', 'ValueError', 'ArithmeticError'], 'failed integration')
    ctx.closes('state after a failed integration', ctx.flat(e.state), [(x, ) for x in s])


def invalid(ctx, tag):
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx)
    act = ctx.arr(list(u)) if kind.m else None
    for bad in ('rk45', 'RK4', 'euler', '', None, 'RK45 ', 'RK45_jax'):
        def go():
            e = kind.make(ctx, method=None, integration_method=bad)
            kind.put(ctx, e, s)
            ctx.quiet(lambda: e.step(1.0, act))

        ctx.expect_raise(go, 'Exception', f'integration method {bad!r}')
    if not kind.jax:
        def jx():
            e = kind.make(ctx, method='RK45_JAX')
            kind.put(ctx, e, s)
            ctx.quiet(lambda: e.step(1.0, act))

        ctx.expect_raise(jx, ['ValueError', 'TypeError', 'AssertionError', 'RuntimeError'], 'JAX integration without use_jax')
    if kind.tag not in ('sun', 'sun-jax'):
        for m in ('Euler', 'RK45_JAX'):
            if m == 'RK45_JAX' and not kind.jax:
                continue

            def tr():
                e = kind.make(ctx, method=m, trajectory_samples=3)
                kind.put(ctx, e, s)
                ctx.quiet(lambda: e.step(1.0, act))

            ctx.expect_raise(tr, ['AssertionError', 'ValueError', 'NotImplementedError', 'TypeError'], f'trajectory samples with {m}')
        for bad in (2.0, '3', None, [1]):
            ctx.expect_raise(lambda: kind.make(ctx, method='RK45', trajectory_samples=bad), ['AssertionError', 'ValueError', 'TypeError'],
                             f'trajectory_samples={bad!r}')


def time_field(ctx, method, jax):
    """a field that depends on time, state and control"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    n = 2
    a, b, c = ctx.vec('a', n, -2, 2), ctx.vec('b', n, -2, 2), ctx.vec('c', n, -2, 2)
    s, u, h = ctx.vec('s', n, -5, 5), ctx.vec('u', n, -5, 5), ctx.real('h', 0.01, 10)
    end = ctx.vec('end', n, -5, 5)

    def f(t, y, uu):
        return [a[i] * t + b[i] * y[1 - i] + c[i] * uu[i] for i in range(n)]

    e = generic(ctx, n, n, field=f, dyn=dict(integration_method=method, use_jax=jax))
    e.state = ctx.arr(s)
    if method == 'Euler':
        e.step(h, ctx.arr(u))
        end = [x + h * d for x, d in zip(s, f(0.0, s, u))]
        for i in range(n):
            ctx.close(f'state[{i}]', ctx.flat(e.state)[i], s[i], h * b[i] * s[1 - i], h * c[i] * u[i])
    else:
        stub = OdeStub(ctx, n, end=end)
        ctx.set_ode(stub)
        e.step(h, ctx.arr(u))
        rec = stub.calls[0]
        contract(ctx, None, rec, s, u, h)
        t, y = ctx.real('t', 0, 10), ctx.vec('y', n, -5, 5)
        mk = ctx.jarr if jax else ctx.arr
        got = ctx.flat(rec['deriv'](t, mk(y)))
        for i in range(n):
            ctx.close(f'integrated derivative[{i}]', got[i], a[i] * t, b[i] * y[1 - i], c[i] * u[i])
        ctx.closes('state', ctx.flat(e.state), [(x, ) for x in end])
    got = ctx.flat(e.state_dot)
    for i in range(n):
        ctx.close(f'derivative at the end[{i}]', got[i], a[i] * h, b[i] * end[1 - i], c[i] * u[i])


def precise(ctx, tag, method):
    """values that single precision can not hold"""
    kind = KINDS[tag]
    big = 123456789.0
    h, end = ctx.real('h', 0.125, 4), ctx.real('end', 0, 4)
    e = kind.make(ctx, method=method)
    k = {'cwh3d': 3, 'int1d': 1, 'int2d': 2, 'int3d': 3, 'dub2d': 3}[tag]
    s = [0.0] * kind.n
    s[k] = 1.0 if tag != 'dub2d' else 300.0
    for i in range(k):
        if not kind.wrap[i] and tag != 'cwh3d' or i == 1:
            s[i] = big + i
    e.state = ctx.arr(s)
    ctx.closes('state assigned', [a - b for a, b in zip(ctx.flat(e.state), s)], [(0.0 * h, )] * kind.n, atol=1e-9)
    if method != 'Euler':
        fin = list(s)
        fin[1 if tag == 'cwh3d' else 0] += 5.0
        stub = OdeStub(ctx, kind.n, end=fin)
        ctx.set_ode(stub)
        ctx.quiet(lambda: e.step(h))
        ctx.closes('integrated from', [a - b for a, b in zip(stub.calls[0]['y0'], s)], [(0.0, )] * kind.n, atol=1e-9)
        ctx.closes('state at the end', [a - b for a, b in zip(ctx.flat(e.state), fin)], [(0.0 * h, )] * kind.n, atol=1e-9)
        return
    ctx.quiet(lambda: e.step(h))
    now = ctx.flat(e.state)
    if tag == 'cwh3d':
        ctx.close('second position', now[1] - s[1], 0.0 * h, atol=1e-6)
    else:
        ctx.close('displacement', now[0] - s[0], s[k] * h, atol=1e-4 if tag == 'dub2d' else 1e-6)


def cases(tier):
    out = []
    for k in kinds():
        meths = ['RK45'] + (['RK45_JAX'] if k.jax else [])
        for m in meths:
            out.append(Case(f'{m}-{k}', adaptive, dict(tag=k.tag, method=m, given='action')))
            out.append(Case(f'{m}-{k}-idle', adaptive, dict(tag=k.tag, method=m, given='none'), tier='quick' if k.n < 7 and not k.jax else 'thorough'))
        out.append(Case(f'Euler-{k}', euler, dict(tag=k.tag, given='action')))
        out.append(Case(f'Euler-{k}-idle', euler, dict(tag=k.tag, given='none'), tier='thorough'))
        if k.tag not in ('sun', 'sun-jax'):
            out.append(Case(f'Euler-end-{k}', euler_dot, dict(tag=k.tag), tier='quick' if k.n <= 6 and k.tag != 'rot2d-jax' else 'thorough'))
        for samples in (0, 3):
            for first in (True, False):
                if samples and k.tag in ('sun', 'sun-jax'):
                    continue
                out.append(Case(f'failure-{k}-{samples}-{"first" if first else "second"}', failure, dict(tag=k.tag, samples=samples, first=first),
                                tier='quick' if k.tag in ('cwh3d', 'dub2d') else 'thorough'))
        out.append(Case(f'invalid-{k}', invalid, dict(tag=k.tag)))
    for m, j in (('RK45', False), ('Euler', False), ('RK45_JAX', True), ('Euler', True), ('RK45', True)):
        out.append(Case(f'time-varying-{m}-{"jax" if j else "np"}', time_field, dict(method=m, jax=j)))
    for t in ('cwh3d', 'int1d', 'int2d', 'int3d', 'dub2d'):
        for m in ('Euler', 'RK45'):
            out.append(Case(f'precise-{t}-{m}', precise, dict(tag=t, method=m)))
    return out

"""C04: angle wrapping preserves the angle and lands in [center - pi, center + pi]."""
from checks.common import *

BOUNDS = ('the integrator is an arbitrary function: it returns any end state within +-1e3 (over 300 turns); wrap centres anywhere in +-20 with any '
          'pattern of absent centres over 1-3 components, NumPy and JAX, all three integration methods; every entity class, two consecutive steps')
SLACK = 1e-5


def wrapped(ctx, i, g, x, c, slack):
    ctx.check(ctx.And(g >= c - PI - slack, g <= c + PI + slack), f'state[{i}] outside the wrap range')
    turns_close(ctx, f'state[{i}] is the same angle', g, x, slack)


def entity(ctx, tag, method, steps):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx)
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, s)
    for k in range(steps):
        stub = OdeStub(ctx, kind.n, tag=f'ode{k}')
        ctx.set_ode(stub)
        if kind.m:
            ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
        else:
            e.step(1.0)
        got, end = ctx.flat(e.state), stub.calls[-1]['vals']['end']
        for i in range(kind.n):
            x = end[i]
            if kind.smin[i] is not None:
                x = ctx.Min(ctx.Max(x, kind.smin[i]), kind.smax[i])
            if kind.wrap[i]:
                wrapped(ctx, i, got[i], x, 0.0, 2e-4 if kind.jax else SLACK)
            else:
                ctx.close(f'state[{i}] is not wrapped', got[i], x, rel=3e-6 if not kind.jax else 3e-5)


def euler(ctx, tag):
    """a real Euler step that crosses the wrap boundary"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, h = kind.state(ctx), kind.control(ctx), ctx.real('h', 0.1, 10)
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    want = euler_state(ctx, kind, s, u, h)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        if kind.wrap[i]:
            x = total(want[i])
            if kind.smin[i] is not None:
                x = ctx.Min(ctx.Max(x, kind.smin[i]), kind.smax[i])
            wrapped(ctx, i, got[i], x, 0.0, 2e-4 if kind.jax else SLACK)


def system(ctx, n, method, jax, pattern, bounded):
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    c = ctx.vec('c', n, -20, 20)
    has = [b == 'c' for b in pattern]
    centres = ctx.arr([c[i] if has[i] else math.nan for i in range(n)])
    dyn = dict(integration_method=method, use_jax=jax, angle_wrap_centers=centres)
    lim = 10.0
    if bounded:
        dyn.update(state_min=-lim, state_max=lim)
    s, u = ctx.vec('s', n, -5, 5), ctx.vec('u', n, -100, 100)
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    e = generic(ctx, n, n, A=ctx.arr([[0.0] * n for _ in range(n)]), B=ctx.arr(eye), dyn=dyn)
    e.state = ctx.arr(s)
    stub = OdeStub(ctx, n)
    ctx.set_ode(stub)
    e.step(1.0, ctx.arr(u))
    end = stub.calls[-1]['vals']['end'] if stub.calls else [a + b for a, b in zip(s, u)]
    got = ctx.flat(e.state)
    for i in range(n):
        x = ctx.Min(ctx.Max(end[i], -lim), lim) if bounded else end[i]
        if has[i]:
            wrapped(ctx, i, got[i], x, c[i], 1e-3 if jax else SLACK)
        else:
            ctx.close(f'state[{i}] is not wrapped', got[i], x)


def cases(tier):
    out = []
    for k in kinds():
        if any(k.wrap):
            out.append(Case(f'ivp-{k}', entity, dict(tag=k.tag, method='RK45', steps=2)))
            out.append(Case(f'euler-{k}', euler, dict(tag=k.tag)))
            if k.jax:
                out.append(Case(f'odeint-{k}', entity, dict(tag=k.tag, method='RK45_JAX', steps=2)))
        else:
            out.append(Case(f'ivp-{k}', entity, dict(tag=k.tag, method='RK45', steps=1)))
            if k.jax:
                out.append(Case(f'odeint-{k}', entity, dict(tag=k.tag, method='RK45_JAX', steps=1)))
    for pattern in ('c', '-c', 'c-', 'cc', '--', 'c-c', '-c-', 'ccc'):
        for method, jax in (('RK45', False), ('Euler', False), ('RK45_JAX', True), ('Euler', True)):
            for bounded in (False, True):
                q = pattern in ('c', '-c', 'cc') and (method, jax) in (('RK45', False), ('RK45_JAX', True)) and (not bounded or pattern == '-c')
                out.append(Case(f'system-{pattern}-{method}-{"jax" if jax else "np"}{"-bounded" if bounded else ""}', system,
                                dict(n=len(pattern), method=method, jax=jax, pattern=pattern, bounded=bounded), tier='quick' if q else 'thorough'))
    return out

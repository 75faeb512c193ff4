"""C03: state limits hold after every step and components inside their limits are not altered."""
from checks.common import *

BOUNDS = ('the integrator is an arbitrary function: it returns any end state within +-1e3 (so far outside every limit), for the solve_ivp and the JAX '
          'odeint path; Euler steps from any state within 1.5x the limits; entities with their default limits and with arbitrary limits given at '
          'construction; generic systems of 1-4 components with arbitrary scalar or elementwise limits, NumPy and JAX; two consecutive steps; end states with one infinite component')


def limits_hold(ctx, got, end, lo, hi, wrap, rel=1e-6):
    """got: state after the step, end: what the integrator returned"""
    for i, g in enumerate(got):
        a, b = lo[i], hi[i]
        if a is not None:
            ctx.check(g >= a - rel * (1 + abs(a)), f'state[{i}] below its minimum')
        if b is not None:
            ctx.check(g <= b + rel * (1 + abs(b)), f'state[{i}] above its maximum')
        if end is None or wrap[i] and a is None:
            continue
        x = end[i]
        if a is not None:
            x = ctx.Max(x, a)
        if b is not None:
            x = ctx.Min(x, b)
        ctx.close(f'state[{i}]: integrator value limited', g, x, rel=max(rel, 3e-6))


def entity(ctx, tag, method, steps):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx)
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, s)
    for k in range(steps):
        stub = OdeStub(ctx, kind.n, tag=f'ode{k}')
        ctx.set_ode(stub)
        if kind.m:
            ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
        else:
            e.step(1.0)
        limits_hold(ctx, ctx.flat(e.state), stub.calls[-1]['vals']['end'], kind.smin, kind.smax, kind.wrap, 1e-6 if not kind.jax else 3e-5)


def dubins(ctx, tag, method):
    kind = KINDS[tag]
    kw, lo, hi = {}, [None] * kind.n, [None] * kind.n
    for nm, i, a, b in ((('v', 3, 50, 900), ) if tag == 'dub2d' else (('gamma', 4, -1.5, 1.5), ('roll', 5, -1.5, 1.5), ('v', 6, 50, 900))):
        lo[i], hi[i] = ctx.real(f'{nm}_min', a, b), ctx.real(f'{nm}_max', a, b)
        ctx.assume(lo[i] <= hi[i])
        kw[f'{nm}_min'], kw[f'{nm}_max'] = lo[i], hi[i]
    e = kind.make(ctx, method=method, **kw)
    s, u = ctx.vec('s', kind.n, -3, 3)[:-1] + [ctx.real('v', 40, 1000)], kind.control(ctx)
    kind.put(ctx, e, s)
    end = None
    if method != 'Euler':
        stub = OdeStub(ctx, kind.n)
        ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
    if method != 'Euler':
        end = stub.calls[-1]['vals']['end']
    limits_hold(ctx, ctx.flat(e.state), end, lo, hi, kind.wrap)


def axes(ctx, how, method):
    """a different angular velocity limit on every axis"""
    kind = KINDS['sixdof']
    w = ctx.vec('ang_vel_limit', 3, 0.001, 0.03)
    e = kind.make(ctx, method=method, ang_vel_limit=list(w) if how == 'list' else ctx.arr(list(w)))
    lo, hi = [None] * 10 + [-x for x in w], [None] * 10 + list(w)
    s, u = kind.state(ctx), kind.control(ctx, scale=0.01)
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, 13)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
    end = stub.calls[-1]['vals']['end'] if stub.calls else None
    limits_hold(ctx, ctx.flat(e.state), end, lo, hi, kind.wrap, 1e-6)


def rates(ctx, tag, method):
    """body rate limits from arbitrary angular velocity and wheel limits"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    w, iw, vw = ctx.real('ang_vel_limit', 0.01, 1), ctx.real('inertia_wheel', 1e-5, 1e-3), ctx.real('vel_limit_wheel', 1, 1000)
    kw = dict(ang_vel_limit=w, inertia_wheel=iw, vel_limit_wheel=vw)
    e = kind.make(ctx, method=method, **kw)
    lim = ctx.Min(w, iw * vw / INERTIA)
    n = kind.n
    first = 5 if n == 6 else 10
    lo = [None] * first + [-lim] * (n - first)
    hi = [None] * first + [lim] * (n - first)
    s, u = kind.state(ctx), kind.control(ctx, scale=0.01)
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, n)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
    end = stub.calls[-1]['vals']['end'] if stub.calls else None
    limits_hold(ctx, ctx.flat(e.state), end, lo, hi, kind.wrap, 1e-6 if not kind.jax else 3e-5)


def system(ctx, n, style, method, jax, where):
    """a system of n integrators with arbitrary limits"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    if style == 'scalar':
        a, b = ctx.real('lo', -50, 50), ctx.real('hi', -50, 50)
        ctx.assume(a <= b)
        lo, hi, smin, smax = [a] * n, [b] * n, a, b
    else:
        lo, hi = ctx.vec('lo', n, -50, 50), ctx.vec('hi', n, -50, 50)
        for x, y in zip(lo, hi):
            ctx.assume(x <= y)
        if style == 'mixed':  # limits of some components only
            lo, hi = [x if i % 2 == 0 else None for i, x in enumerate(lo)], [x if i in (1, 2) else None for i, x in enumerate(hi)]
        smin = ctx.arr([float('-inf') if x is None else x for x in lo])
        smax = ctx.arr([float('inf') if x is None else x for x in hi])
    dyn = dict(integration_method=method, use_jax=jax)
    if where != 'max':
        dyn['state_min'] = smin
    if where != 'min':
        dyn['state_max'] = smax
    if where == 'max':
        lo = [None] * n
    if where == 'min':
        hi = [None] * n
    s, u = ctx.vec('s', n, -100, 100), ctx.vec('u', n, -100, 100)
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    e = generic(ctx, n, n, A=ctx.arr([[0.0] * n for _ in range(n)]), B=ctx.arr(eye), dyn=dyn)
    e.state = ctx.arr(s)
    stub = OdeStub(ctx, n)
    ctx.set_ode(stub)
    e.step(1.0, ctx.arr(u))
    end = stub.calls[-1]['vals']['end'] if stub.calls else None
    limits_hold(ctx, ctx.flat(e.state), end, lo, hi, [False] * n, 1e-6 if not jax else 3e-5)
    if where == 'both':
        # limits given to the caller are untouched
        if style == 'array':
            same(ctx, 'state_min', smin, lo)
            same(ctx, 'state_max', smax, hi)


def overflow(ctx, tag, sign):
    """an integrator result that has overflowed is limited like any other"""
    kind = KINDS[tag]
    s, u = kind.state(ctx), [0.0] * kind.m
    limited = [i for i in range(kind.n) if kind.smin[i] is not None]
    k = ctx.choice('k', limited)
    e = kind.make(ctx, method='RK45')
    kind.put(ctx, e, s)
    end = [ctx.real('end', -100, 100)] + [1.0 if i in (3, 6) and kind.n == 13 else 300.0 if tag[:3] == 'dub' and i == kind.n - 1 else 0.001 for i in range(1, kind.n)]
    end[k] = sign * float('inf')
    ctx.set_ode(OdeStub(ctx, kind.n, end=end))
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
    ctx.close('overflowed component', ctx.flat(e.state)[k], kind.smax[k] if sign > 0 else kind.smin[k])


def cases(tier):
    out = []
    for k in kinds():
        out.append(Case(f'ivp-{k}', entity, dict(tag=k.tag, method='RK45', steps=1 if k.n > 7 else 2)))
        if k.jax:
            out.append(Case(f'odeint-{k}', entity, dict(tag=k.tag, method='RK45_JAX', steps=2)))
    for k in kinds():
        if not k.jax and any(x is not None for x in k.smin):
            out += [Case(f'overflow-{k}-{"+" if g > 0 else "-"}', overflow, dict(tag=k.tag, sign=g)) for g in (1, -1)]
    for t in ('dub2d', 'dub3d'):
        for m in ('RK45', 'Euler'):
            out.append(Case(f'limits-{t}-{m}', dubins, dict(tag=t, method=m)))
    for t in ('rot2d', 'rot2d-jax', 'sixdof'):
        out.append(Case(f'rates-{t}', rates, dict(tag=t, method='RK45_JAX' if t == 'rot2d-jax' else 'RK45')))
    for how in ('list', 'array'):
        for m in ('RK45', 'Euler'):
            out.append(Case(f'axes-{how}-{m}', axes, dict(how=how, method=m), tier='quick' if (how == 'list') == (m == 'RK45') else 'thorough'))
    for n in (1, 2, 3, 4):
        for style in ('scalar', 'array', 'mixed'):
            for method, jax in (('RK45', False), ('Euler', False), ('RK45_JAX', True), ('Euler', True), ('RK45', True)):
                for where in ('both', 'min', 'max'):
                    if n == 1 and style == 'mixed' and where == 'max':
                        continue  # no limit at all
                    q = n == (3 if style == 'mixed' else 2) and (where == 'both' or style == 'scalar' and method == 'Euler') and (method, jax) != ('RK45', True)
                    out.append(Case(f'system-{n}-{style}-{method}-{"jax" if jax else "np"}-{where}', system,
                                    dict(n=n, style=style, method=method, jax=jax, where=where), tier='quick' if q else 'thorough'))
    return out

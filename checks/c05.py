"""C05: the derivative that is integrated and reported is limited, directly and at the state limits."""
import math

from checks.common import *

BOUNDS = ('derivative evaluated at an arbitrary time in [0, 10] and arbitrary state up to twice outside the limits, controls within limits, for every '
          'entity class; the right-hand side handed to solve_ivp / odeint is probed at such arbitrary points; generic fields of 1-3 components with an '
          'arbitrary value, arbitrary scalar or elementwise derivative and state limits (also one-sided, or coinciding: a locked component), all three methods, NumPy and JAX')


def wide(ctx, kind, name):
    """states inside, at and beyond the limits"""
    if kind.tag.startswith('sixdof'):
        return ctx.vec(name + 'p', 3, -1e4, 1e4) + ctx.unit_quat(name + 'q') + ctx.vec(name + 'v', 3, -100, 100) + ctx.vec(name + 'w', 3, -0.07, 0.07)
    lo, hi = [], []
    for i in range(kind.n):
        if kind.smin[i] is None:
            lo.append(kind.slo[i])
            hi.append(kind.shi[i])
        elif kind.smin[i] > 0:
            lo.append(0.5 * kind.smin[i])
            hi.append(1.5 * kind.smax[i])
        else:
            lo.append(2 * kind.smin[i])
            hi.append(2 * kind.smax[i])
    return ctx.vec(name, kind.n, lo, hi)


def off_edges(ctx, kind, y):
    """not within rounding of a limit (stored in single precision)"""
    for i in range(kind.n):
        for lim in (kind.smin[i], kind.smax[i]):
            if lim is not None and lim != int(lim):
                ctx.assume(ctx.Or(y[i] < lim - 1e-5 * abs(lim), y[i] > lim + 1e-5 * abs(lim)))


def compare(ctx, kind, what, got, y, u):
    want = kind.limited(ctx, y, u)
    raw = kind.f(ctx, y, u)
    got = ctx.flat(got)
    ctx.check(len(got) == kind.n, f'{what}: length')
    for i in range(kind.n):
        lim = any(x and x[i] is not None for x in (kind.smin, kind.smax, kind.dmin, kind.dmax))
        if lim:
            ctx.close(f'{what}[{i}]', got[i], want[i])
        else:
            ctx.close(f'{what}[{i}]', got[i], *raw[i])


def entity(ctx, tag, method):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    u, y, t = kind.control(ctx), wide(ctx, kind, 'y'), ctx.real('t', 0, 10)
    off_edges(ctx, kind, y)
    e = kind.make(ctx, method=method)
    mk = ctx.jarr if kind.jax else ctx.arr
    compare(ctx, kind, 'derivative', e.dynamics.compute_state_dot(t, mk(list(y)), mk(list(u))), y, u)
    if kind.jax:
        compare(ctx, kind, 'derivative for odeint', e.dynamics.compute_state_dot_jax(mk(list(y)), t, mk(list(u))), y, u)


def probe(ctx, tag, method):
    """the right-hand side the integrator is given, at an arbitrary point; and the reported derivative at the end state"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, y = kind.state(ctx), kind.control(ctx), wide(ctx, kind, 'y')
    h = ctx.real('h', 0.1, 10)
    t = ctx.real('t', 0, 10)
    off_edges(ctx, kind, y)
    end = kind.state(ctx, 'end')
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, kind.n, end=end)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u)) if kind.m else None))
    ctx.check(len(stub.calls) >= 1, 'the integrator was used')
    mk = ctx.jarr if kind.jax else ctx.arr
    compare(ctx, kind, 'integrated derivative', stub.calls[0]['deriv'](t, mk(list(y))), y, u)
    compare(ctx, kind, 'reported derivative', e.state_dot, end, u)


def euler(ctx, tag):
    """what an Euler step integrates, from states outside the limits too"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    y, u = wide(ctx, kind, 'y'), kind.control(ctx)
    off_edges(ctx, kind, y)
    e = kind.make(ctx)
    kind.put(ctx, e, y)
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u)) if kind.m else None))
    want, got = euler_state(ctx, kind, y, u, 1.0), ctx.flat(e.state)
    for i in range(kind.n):
        if kind.smin[i] is None:
            bounded_close(ctx, kind, i, f'state[{i}]', got[i], want[i])


def lim(ctx, name, n, style):
    if style == 'none':
        return None, [None] * n
    if style == 'scalar':
        a = ctx.real(name, -5, 5)
        return a, [a] * n
    v = ctx.vec(name, n, -5, 5)
    if style in ('even', 'odd', 'first'):  # the other components have no limit
        v = [x if (i == 0 if style == 'first' else i % 2 == (style == 'odd')) else None for i, x in enumerate(v)]
        inf = float('-inf' if name.endswith('min') else 'inf')
        return ctx.arr([inf if x is None else x for x in v]), v
    return ctx.arr(v), v


def field(ctx, n, method, jax, style):
    """arbitrary derivative, arbitrary limits"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    d, u = ctx.vec('d', n, -10, 10), ctx.vec('u', n, -10, 10)
    y, t = ctx.vec('y', n, -10, 10), ctx.real('t', 0, 1)
    sa, slo = lim(ctx, 'smin', n, style[0])
    sb, shi = (ctx.arr([math.inf if x is None else x for x in slo]), slo) if style[1] == 'locked' else lim(ctx, 'smax', n, style[1])
    da, dlo = lim(ctx, 'dmin', n, style[2])
    db, dhi = lim(ctx, 'dmax', n, style[3])
    for a, b in list(zip(slo, shi)) + list(zip(dlo, dhi)):
        if a is not None and b is not None and a is not b:
            ctx.assume(a < b)
    if jax:  # single precision comparisons: exactly at a limit, or clear of it
        for i in range(n):
            for x in (slo[i], shi[i]):
                if x is not None:
                    ctx.assume(ctx.Or(y[i] < x - 1e-3, y[i] > x + 1e-3, y[i] == x))
    dyn = dict(integration_method=method, use_jax=jax)
    for k, v in (('state_min', sa), ('state_max', sb), ('state_dot_min', da), ('state_dot_max', db)):
        if v is not None:
            dyn[k] = v
    e = generic(ctx, n, n, field=lambda tt, yy, uu: [di + 0.5 * tt + yy[i] + uu[i] for i, di in enumerate(d)], dyn=dyn)
    mk = ctx.jarr if jax else ctx.arr

    def expected(tt, yy):
        out = []
        for i in range(n):
            r = d[i] + 0.5 * tt + yy[i] + u[i]
            if dlo[i] is not None:
                r = ctx.Max(r, dlo[i])
            if dhi[i] is not None:
                r = ctx.Min(r, dhi[i])
            if slo[i] is not None:
                r = ctx.ite(yy[i] <= slo[i], ctx.Max(r, 0.0), r)
            if shi[i] is not None:
                r = ctx.ite(yy[i] >= shi[i], ctx.Min(r, 0.0), r)
            out.append(r)
        return out

    got = ctx.flat(e.dynamics.compute_state_dot(t, mk(y), mk(u)))
    ctx.closes('derivative', got, [(x, ) for x in expected(t, y)])
    for i in range(n):
        if slo[i] is not None:
            ctx.check(ctx.Implies(y[i] <= slo[i], got[i] >= 0), f'derivative[{i}] negative at the minimum')
        if shi[i] is not None:
            ctx.check(ctx.Implies(y[i] >= shi[i], got[i] <= 0), f'derivative[{i}] positive at the maximum')
    s = ctx.vec('s', n, -4, 4)
    e.state = ctx.arr(s)
    if method == 'Euler':
        if jax:
            return
        e.step(0.5, ctx.arr(u))
        for i, (g, w) in enumerate(zip(ctx.flat(e.state), expected(0.0, s))):
            r = s[i] + 0.5 * w
            r = r if slo[i] is None else ctx.Max(r, slo[i])
            r = r if shi[i] is None else ctx.Min(r, shi[i])
            ctx.close(f'Euler step[{i}]', g, r)
        return
    end = ctx.vec('end', n, -10, 10)
    if jax:
        for i in range(n):
            for x in (slo[i], shi[i]):
                if x is not None:
                    ctx.assume(ctx.Or(end[i] < x - 1e-3, end[i] > x + 1e-3, end[i] == x))
    stub = OdeStub(ctx, n, end=end)
    ctx.set_ode(stub)
    e.step(0.5, ctx.arr(u))
    ctx.closes('integrated derivative', ctx.flat(stub.calls[0]['deriv'](t, mk(y))), [(x, ) for x in expected(t, y)])
    ctx.closes('reported derivative', ctx.flat(e.state_dot), [(x, ) for x in expected(0.5, end)])


STYLES = {'mixed': ('even', 'odd', 'odd', 'even'), 'partial': ('first', 'odd', 'first', 'none'), 'same': ('odd', 'odd', 'even', 'even'),
          'array': ('array', ) * 4, 'scalar': ('scalar', ) * 4, 'state': ('array', 'array', 'none', 'none'), 'dot': ('none', 'none', 'array', 'scalar'),
          'locked': ('array', 'locked', 'none', 'none'), 'part-locked': ('first', 'locked', 'none', 'array'), 'low': ('scalar', 'none', 'array', 'none'), 'high': ('none', 'array', 'none', 'scalar')}


def cases(tier):
    out = []
    for k in kinds():
        out.append(Case(f'derivative-{k}', entity, dict(tag=k.tag, method='RK45'), tier='quick'))
        if k.tag not in ('sixdof-hill', ):
            out.append(Case(f'ivp-{k}', probe, dict(tag=k.tag, method='RK45')))
        if k.jax:
            out.append(Case(f'odeint-{k}', probe, dict(tag=k.tag, method='RK45_JAX')))
        out.append(Case(f'euler-{k}', euler, dict(tag=k.tag)))
    for nm, style in STYLES.items():
        for n in (1, 2, 3):
            for method, jax in (('RK45', False), ('Euler', False), ('RK45_JAX', True), ('Euler', True)):
                q = nm in ('mixed', 'partial', 'same', 'part-locked') and n == 3 and method == 'RK45' or n == 2 and (nm in ('array', 'scalar') and (method, jax) != ('Euler', True) or method == 'RK45')
                out.append(Case(f'field-{nm}-{n}-{method}-{"jax" if jax else "np"}', field, dict(n=n, method=method, jax=jax, style=style),
                                tier='quick' if q else 'thorough'))
    return out

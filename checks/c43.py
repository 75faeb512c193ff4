"""C43: the NumPy and the JAX variant of an entity are the same model."""
from checks.common import *
from checks.c05 import lim, wide
from checks.c08 import act

BOUNDS = ('rotating spacecraft and sun with arbitrary parameters, generic linear and arbitrary-field entities of 1-3 components with arbitrary scalar, '
          'elementwise or absent state, derivative and actuator limits and wrap centres: one step of 0.001-100 s with Euler (states and controls up '
          'to twice outside the limits) and with the adaptive methods (replaced by arbitrary functions returning the same end state): same '
          'derivative, same integration problem, same next state, same reported derivative, same warnings; equality to single precision, states '
          'either exactly at a limit or not within rounding of it')


def off(ctx, xs, limits):
    """each value exactly at a limit or clearly off it, so that single-precision rounding does not decide the side"""
    for x, ls in zip(xs, limits):
        for b in ls:
            if b is not None:
                ctx.assume(ctx.Or(x < b - 1e-4 - 1e-5 * abs(b), x > b + 1e-4 + 1e-5 * abs(b)))


def alike(ctx, msg, got, want, scale=None, atol=None):
    g, w = ctx.flat(got), ctx.flat(want)
    ctx.check(len(g) == len(w), f'{msg}: same length')
    for i, (a, b) in enumerate(zip(g, w)):
        ts = [b] + ([] if scale is None else [scale[i], -scale[i]])
        ctx.close(f'{msg}[{i}] as the NumPy variant', a, *ts, **({} if atol is None else dict(atol=atol)))


def alike_states(ctx, msg, got, want, wrap, scale):
    """wrap: centre per component, None where there is none; at the seam rounding may decide the side"""
    g, w = ctx.flat(got), ctx.flat(want)
    ctx.check(len(g) == len(w), f'{msg}: same length')
    for i, (a, b) in enumerate(zip(g, w)):
        if wrap[i] is not None:
            tol = 2e-3
            m, d, e = f'{msg}[{i}] as the NumPy variant', a - b, abs(a - b) - 2 * PI
            ctx.observe(m, a)
            seam = a + b - 2 * wrap[i]
            ctx.check(ctx.Or(ctx.And(d <= tol, d >= -tol), ctx.And(e <= tol, e >= -tol, seam <= tol, seam >= -tol)), m)
        else:
            ctx.close(f'{msg}[{i}] as the NumPy variant', a, b, scale[i], -scale[i])


def run(ctx, a, b, s, action, h, methods, n, wrap, big, end=None):
    """one step of the NumPy variant a and the JAX variant b"""
    recs = []
    for e, m in zip((a, b), methods):
        e.state = ctx.arr(list(s))
        stub = None
        if m != 'Euler':
            stub = OdeStub(ctx, n, end=end, tag=f'ode{len(recs)}')
            ctx.set_ode(stub)
        _, w = ctx.warned(lambda: e.step(h, None if action is None else ctx.arr(list(action))))
        recs.append((stub, len(w)))
    ctx.check(recs[0][1] == recs[1][1], 'same warnings')
    alike_states(ctx, 'next state', b.state, a.state, wrap, big)
    if methods[0] != 'Euler':
        ra, rb = recs[0][0].calls, recs[1][0].calls
        ctx.check(len(ra) == 1 and len(rb) == 1, 'one integration each')
        ctx.close('integration starts at', rb[0]['t0'], ra[0]['t0'])
        ctx.close('integration ends at', rb[0]['t1'], ra[0]['t1'])
        alike(ctx, 'integration starts from', rb[0]['y0'], ra[0]['y0'])
        return ra[0], rb[0]
    return None, None



def rotating(ctx, method):
    ctx.rel, ctx.atol = 3e-5, 1e-6
    kind = KINDS['rot2d']
    centres = [0.0 if w else None for w in kind.wrap]
    m, n = ctx.real('m', 1, 100), ctx.real('n', 0.0, 0.01)
    J = ctx.real('J', 0.01, 1)
    al, vl = ctx.real('al', 0.005, 0.05), ctx.real('vl', 0.01, 0.1)
    kw = dict(m=m, n=n, inertia=J, ang_acc_limit=al, ang_vel_limit=vl)
    a = kind.make(ctx, method='RK45' if method == 'RK45_JAX' else method, name='np', **kw)
    b = kind.make(ctx, method=method, name='jax', use_jax=True, **kw)
    acc, vel = ctx.Min(al, INERTIA * WHEEL_ACC / J), ctx.Min(vl, INERTIA * WHEEL_VEL / J)
    s = wide(ctx, kind, 's')
    u = ctx.vec('u', 3, [-2, -2, -0.05], [2, 2, 0.05])
    h = ctx.real('h', 0.001, 100)
    lims = [()] * 5 + [(vel, -vel)]
    off(ctx, s, lims)
    off(ctx, u, [(1, -1), (1, -1), ()])
    ctx.assume(ctx.Or(u[2] < acc * J * 0.999, u[2] > acc * J * 1.001))
    ctx.assume(ctx.Or(u[2] < -acc * J * 1.001, u[2] > -acc * J * 0.999))
    end = wide(ctx, kind, 'end')
    off(ctx, end, lims)
    if method == 'Euler':
        # the end state decides which limits act on the reported derivative, so it is compared where the end state is off the limits
        ra, rb = run(ctx, a, b, s, u, h, ('Euler', 'Euler'), 6, centres, [0.1 * (abs(x) + h * v) for x, v in zip(s, (200, 200, 1, 10, 10, 1))])
    else:
        ra, rb = run(ctx, a, b, s, u, h, ('RK45', method), 6, centres, [0.1 * abs(x) for x in end], end=end)
        alike(ctx, 'reported derivative', b.state_dot, a.state_dot, scale=[10, 10, 0.1, 1, 1, 0.1])
        y, t = wide(ctx, kind, 'y'), ctx.real('t', 0, 1e9)
        off(ctx, y, lims)
        alike(ctx, 'integrated derivative', rb['deriv'](t, ctx.jarr(list(y))), ra['deriv'](t, ctx.arr(list(y))), scale=[10, 10, 0.1, 1, 1, 0.1])


def derivative(ctx):
    """the derivative itself, including states exactly at a rate limit"""
    ctx.rel, ctx.atol = 3e-5, 1e-6
    kind = KINDS['rot2d']
    kw = dict(m=ctx.real('m', 1, 100), n=ctx.real('n', 0.0, 0.01))
    a, b = kind.make(ctx, name='np', **kw), kind.make(ctx, name='jax', use_jax=True, **kw)
    y, u, t = wide(ctx, kind, 'y'), ctx.vec('u', 3, [-2, -2, -0.05], [2, 2, 0.05]), ctx.real('t', 0, 1e9)
    off(ctx, y, [()] * 5 + [(VEL_LIM, -VEL_LIM)])
    d1 = a.dynamics.compute_state_dot(t, ctx.arr(list(y)), ctx.arr(list(u)))
    alike(ctx, 'derivative', b.dynamics.compute_state_dot(t, ctx.jarr(list(y)), ctx.jarr(list(u))), d1, scale=[10, 10, 0.1, 1, 1, 0.1])
    alike(ctx, 'derivative for odeint', b.dynamics.compute_state_dot_jax(ctx.jarr(list(y)), t, ctx.jarr(list(u))), d1, scale=[10, 10, 0.1, 1, 1, 0.1])


def sun(ctx, method):
    ctx.rel, ctx.atol = 3e-5, 1e-6
    kind = KINDS['sun']
    n = ctx.real('n', -0.1, 0.1)
    a = kind.make(ctx, method='RK45' if method == 'RK45_JAX' else method, name='np', n=n)
    b = kind.make(ctx, method=method, name='jax', use_jax=True, n=n)
    s, end, h = kind.state(ctx), kind.state(ctx, 'end'), ctx.real('h', 0.001, 100)
    ra, rb = run(ctx, a, b, s, None, h, ('Euler' if method == 'Euler' else 'RK45', method), 1, (None, ), [0.1 * abs(s[0]) + 1], end=end)
    alike(ctx, 'reported derivative', b.state_dot, a.state_dot)
    if ra:
        y, t = kind.state(ctx, 'y'), ctx.real('t', 0, 1e9)
        alike(ctx, 'integrated derivative', rb['deriv'](t, ctx.jarr(list(y))), ra['deriv'](t, ctx.arr(list(y))))


def system(ctx, n, m, method, style, wraps, linear):
    """an entity of the caller's own on the base classes"""
    ctx.rel, ctx.atol = 3e-5, 1e-6
    sa, slo = lim(ctx, 'smin', n, style[0])
    sb, shi = lim(ctx, 'smax', n, style[1])
    da, dlo = lim(ctx, 'dmin', n, style[2])
    db, dhi = lim(ctx, 'dmax', n, style[3])
    for x, y in list(zip(slo, shi)) + list(zip(dlo, dhi)):
        if x is not None and y is not None:
            ctx.assume(x <= y)
    dyn = {k: v for k, v in (('state_min', sa), ('state_max', sb), ('state_dot_min', da), ('state_dot_max', db)) if v is not None}
    if wraps:
        c = ctx.vec('c', n, -5, 5)
        dyn['angle_wrap_centers'] = ctx.arr([c[i] if wraps[i] == 'c' else math.nan for i in range(n)])
    wrap = [c[i] if wraps and wraps[i] == 'c' else None for i in range(n)]
    cl, ch = ctx.vec('cl', m, -5, 0), ctx.vec('ch', m, 0, 5)
    kw = dict(control_min=ctx.arr(cl), control_max=ctx.arr(ch))
    if linear:
        A = [ctx.vec(f'A{i}_', n, -2, 2) for i in range(n)]
        B = [ctx.vec(f'B{i}_', m, -2, 2) for i in range(n)]
        kw.update(A=ctx.arr(A), B=ctx.arr(B))
    else:
        k1, k2, k3 = ctx.vec('k1', n, -2, 2), ctx.vec('k2', n, -2, 2), ctx.vec('k3', n, -2, 2)
        kw['field'] = lambda t, y, u: [k1[i] * y[i - 1] + k2[i] * t + k3[i] * u[i % m] for i in range(n)]
    jm, nm = method, 'RK45' if method == 'RK45_JAX' else method
    a = generic(ctx, n, m, dyn=dict(dyn, integration_method=nm), name='np', **kw)
    b = generic(ctx, n, m, dyn=dict(dyn, integration_method=jm, use_jax=True), name='jax', **kw)
    s, u = ctx.vec('s', n, -8, 8), ctx.vec('u', m, -8, 8)
    end, h = ctx.vec('end', n, -8, 8), ctx.real('h', 0.01, 2)
    off(ctx, u, list(zip(cl, ch)))
    for x, p, q in zip(s, slo, shi):
        off(ctx, [x], [(p, q)])
    for x, p, q in zip(end, slo, shi):
        off(ctx, [x], [(p, q)])
    big = [2] * n
    ra, rb = run(ctx, a, b, s, u, h, (nm, jm), n, wrap, big, end=end)
    if ra:
        alike(ctx, 'reported derivative', b.state_dot, a.state_dot, scale=[2] * n)
        t, y = ctx.real('t', 0, 2), ctx.vec('y', n, -8, 8)
        for x, p, q in zip(y, slo, shi):
            off(ctx, [x], [(p, q)])
        alike(ctx, 'integrated derivative', rb['deriv'](t, ctx.jarr(list(y))), ra['deriv'](t, ctx.arr(list(y))), scale=[2] * n)


def history(ctx, method):
    """several steps, each continuing from where the last one ended; read-outs agree too"""
    ctx.rel, ctx.atol = 1e-4, 1e-5
    kind = KINDS['rot2d']
    a, b = kind.make(ctx, method='RK45', name='np'), kind.make(ctx, method=method, name='jax', use_jax=True)
    s, centres = kind.state(ctx), [0.0 if w else None for w in kind.wrap]
    a.state, b.state = ctx.arr(list(s)), ctx.arr(list(s))
    for k in range(2):
        u, h, end = kind.control(ctx, f'u{k}', 0.9), ctx.real(f'h{k}', 0.1, 2), wide(ctx, kind, f'end{k}')
        stubs = []
        for e in (a, b):
            stub = OdeStub(ctx, 6, end=end, tag=f'ode{k}{len(stubs)}')
            ctx.set_ode(stub)
            ctx.quiet(lambda: e.step(h, dict(zip(kind.names, u)) if k else ctx.arr(list(u))))
            stubs.append(stub.calls[0])
        alike_states(ctx, f'step {k} starts from', stubs[1]['y0'], stubs[0]['y0'], centres, [0.0] * 6)
        alike_states(ctx, f'state after step {k}', b.state, a.state, centres, [0.0] * 6)
        ctx.close(f'step {k} ends at', stubs[1]['t1'], stubs[0]['t1'])
    for nm in ('position', 'velocity', 'angular_velocity'):
        alike(ctx, nm, getattr(b, nm), getattr(a, nm))
    same(ctx, 'quaternion', b.quaternion, ctx.flat(a.quaternion), atol=1e-4)


def cases(tier):
    out = []
    for m in ('Euler', 'RK45', 'RK45_JAX'):
        out.append(Case(f'rotating-{m}', rotating, dict(method=m)))
        out.append(Case(f'sun-{m}', sun, dict(method=m)))
    out.append(Case('derivative', derivative))
    for m in ('RK45', 'RK45_JAX'):
        out.append(Case(f'history-{m}', history, dict(method=m)))
    st = ['none', 'scalar', 'array']
    for m in ('Euler', 'RK45', 'RK45_JAX'):
        for n, mm, style, wraps, q in ((1, 1, ('scalar', 'scalar', 'scalar', 'scalar'), '', True), (2, 2, ('none', 'none', 'array', 'scalar'), '', True),
                                       (2, 1, ('array', 'none', 'none', 'none'), '', True), (2, 2, ('none', 'array', 'none', 'none'), '', True),
                                       (1, 1, ('none', ) * 4, 'c', True), (2, 1, ('none', ) * 4, '-c', True), (2, 2, ('scalar', 'array', 'none', 'none'), 'c-', True),
                                       (3, 2, ('none', ) * 4, 'c-c', False), (2, 2, ('array', ) * 4, '', False), (3, 2, ('none', 'none', 'scalar', 'array'), '', False)):
            for linear in (True, False):
                q2 = q and (linear or m == 'RK45_JAX' or n == 1)
                out.append(Case(f'{"linear" if linear else "field"}-{n}x{mm}-{"".join(x[0] for x in style)}{wraps}-{m}', system,
                                dict(n=n, m=mm, method=m, style=style, wraps=wraps, linear=linear), tier='quick' if q2 else 'thorough'))
    return out

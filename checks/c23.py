"""C23: integrator entities are damped point masses in 1, 2 and 3 dimensions."""
from checks.common import *

BOUNDS = ('every mass in [0.1, 1000] and damping in [0, 10], positions within 1e6, velocities within 1e7, thrust requests up to 500 times the limit; 1, 2 and '
          '3 dimensions; one derivative, one Euler step of up to 2 s, the right-hand side given to solve_ivp; read-outs also of values single precision can not hold; 8 neighbouring states in a row, 6 entities with neighbouring parameters')
DIMS = (1, 2, 3)


def make(ctx, d, method='RK45', **kw):
    m, c = ctx.real('m', 0.1, 1000), ctx.real('c', 0, 10)
    return KINDS[f'int{d}d'].make(ctx, method=method, m=m, damping=c, **kw), m, c


def state(ctx, d, name='s'):
    return ctx.vec(name + 'p', d, -1e6, 1e6) + ctx.vec(name + 'v', d, -1e7, 1e7)


def law(s, u, m, c, d):
    return [(s[d + i], ) for i in range(d)] + [(-c * s[d + i], u[i] / m) for i in range(d)]


def deriv(ctx, d, default):
    if default:
        e, m, c = KINDS[f'int{d}d'].make(ctx), 1.0, 0.0
    else:
        e, m, c = make(ctx, d)
    s, u = state(ctx, d), ctx.vec('u', d, -500, 500)
    got = e.dynamics.compute_state_dot(ctx.real('t', 0, 1e9), ctx.arr(s), ctx.arr(u))
    ctx.closes('derivative', ctx.flat(got), law(s, u, m, c, d))


def matrices(ctx, d):
    mod = ctx.mod('integrators')
    m, c = ctx.real('m', 0.1, 1000), ctx.real('c', 0, 10)
    dyn = mod.IntegratorDynamics(m=m, damping=c, mode=f'{d}d')
    s, u = state(ctx, d), ctx.vec('u', d, -500, 500)
    ctx.closes('derivative', ctx.flat(dyn.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u))), law(s, u, m, c, d))
    A, B = mod.generate_dynamics_matrices(m, c, f'{d}d')
    ctx.check(tuple(A.shape) == (2 * d, 2 * d) and tuple(B.shape) == (2 * d, d), 'matrix shapes')
    want = law(s, u, m, c, d)
    for i in range(2 * d):
        ctx.close(f'A x + B u [{i}]', sum(A[i, j] * s[j] for j in range(2 * d)) + sum(B[i, j] * u[j] for j in range(d)), *want[i])
    A0, _ = mod.generate_dynamics_matrices(m, mode=f'{d}d')
    for i in range(2 * d):
        ctx.close(f'undamped [{i}]', sum(A0[i, j] * s[j] for j in range(2 * d)), s[d + i] if i < d else 0.0)
    ctx.expect_raise(lambda: mod.generate_dynamics_matrices(m, c, '4d'), ['AssertionError', 'ValueError', 'KeyError'], 'unknown mode')


def named(ctx, d):
    """each named thrust, alone or with others, clipped, acts on its own axis"""
    e, m, c = make(ctx, d, 'Euler')
    s, u, h = state(ctx, d), ctx.vec('u', d, -500, 500), ctx.real('dt', 0.01, 2)
    act, use = {}, []
    for i in range(d):
        on = ctx.boolean(f'on{i}')
        if on:
            act[('thrust_x', 'thrust_y', 'thrust_z')[i]] = u[i]
        use.append(ctx.Min(ctx.Max(u[i], -1.0), 1.0) if on else 0.0)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(h, act))
    got, want = ctx.flat(e.state), law(s, use, m, c, d)
    for i in range(2 * d):
        ctx.close(f'state[{i}]', got[i], s[i], *[h * t for t in want[i]])


def vector(ctx, d, form):
    e, m, c = make(ctx, d, 'Euler')
    s, u, h = state(ctx, d), ctx.vec('u', d, -500, 500), ctx.real('dt', 0.01, 2)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(h, ctx.arr(u) if form == 'array' else list(u)))
    use = [ctx.Min(ctx.Max(x, -1.0), 1.0) for x in u]
    got, want = ctx.flat(e.state), law(s, use, m, c, d)
    for i in range(2 * d):
        ctx.close(f'state[{i}]', got[i], s[i], *[h * t for t in want[i]])


def integrated(ctx, d):
    e, m, c = make(ctx, d)
    s, y, u = state(ctx, d), state(ctx, d, 'y'), ctx.vec('u', d, -500, 500)
    e.state = ctx.arr(s)
    end = state(ctx, d, 'end')
    stub = OdeStub(ctx, 2 * d, end=end)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(1.0, ctx.arr(u)))
    use = [ctx.Min(ctx.Max(x, -1.0), 1.0) for x in u]
    ctx.closes('integrated derivative', ctx.flat(stub.calls[0]['deriv'](0.5, ctx.arr(y))), law(y, use, m, c, d))
    ctx.closes('state', ctx.flat(e.state), [(x, ) for x in end])
    readouts(ctx, e, end, d)


def readouts(ctx, e, s, d):
    for i, n in enumerate('xyz'):
        ctx.close(n, getattr(e, n), s[i] if i < d else 0.0)
        ctx.close(f'{n}_dot', getattr(e, f'{n}_dot'), s[d + i] if i < d else 0.0)
    ctx.closes('position', ctx.flat(e.position), [(x, ) for x in s[:d]])
    ctx.closes('velocity', ctx.flat(e.velocity), [(x, ) for x in s[d:]])
    M = e.orientation.as_matrix()
    for i in range(3):
        for j in range(3):
            ctx.close(f'orientation[{i},{j}]', M[i, j], 1.0 if i == j else 0.0)


def assigned(ctx, d):
    e, _, _ = make(ctx, d)
    s = state(ctx, d)
    e.state = ctx.arr(s)
    readouts(ctx, e, s, d)
    k = ctx.real('k', -10, 10)
    if d > 1:
        e.position[0] = k
        e.velocity[0] = k
    readouts(ctx, e, s, d)


def unrounded(ctx, d):
    """values that single precision can not hold are read as they are"""
    k = ctx.real('k', -1, 1)
    e = KINDS[f'int{d}d'].make(ctx)
    s = [123456789.0 + i for i in range(2 * d)]
    e.state = ctx.arr(list(s))
    got = [getattr(e, n) for n in 'xyz'[:d]] + [getattr(e, f'{n}_dot') for n in 'xyz'[:d]]
    for what, vals, want in (('components', got, s), ('position', ctx.flat(e.position), s[:d]), ('velocity', ctx.flat(e.velocity), s[d:])):
        ctx.check(len(vals) == len(want), f'{what}: number')
        for a, b in zip(vals, want):
            ctx.close(what, (a - b) * k, 0.0 * k, atol=1e-9)


def built(ctx, d):
    s = state(ctx, d)
    kw = dict(zip(('x', 'y', 'z')[:d] + ('xdot', 'ydot', 'zdot')[:d], s))
    e, m, c = make(ctx, d, **kw)
    ctx.check(e.control_default.shape == (d, ), 'one thrust per axis')
    readouts(ctx, e, s, d)


def cases(tier):
    out = []
    for d in DIMS:
        out += [Case(f'derivative-{d}d', deriv, dict(d=d, default=False)), Case(f'derivative-{d}d-default', deriv, dict(d=d, default=True)),
                Case(f'vector-{d}d-array', vector, dict(d=d, form='array')), Case(f'vector-{d}d-list', vector, dict(d=d, form='list'))]
        for f in (matrices, named, integrated, assigned, unrounded, built):
            out.append(Case(f'{f.__name__}-{d}d', f, dict(d=d)))
    out += memory_cases('int1d', 'int2d', 'int3d', given=('m', 'damping'))
    return out

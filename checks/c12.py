"""C12: the planar rotating spacecraft obeys CWH plus rigid rotation about z."""
from checks.common import *

BOUNDS = ('m in [0.1, 1000], inertia in [0.02, 10], n in [-0.1, 0.1], |position| <= 1e5, |velocity| <= 1e3, attitude within +-100 rad, rate within 50 (JAX 1), '
          'thrust within the actuator range, moment within 20; NumPy and JAX; one derivative (any time, any method) or one Euler step; 8 neighbouring states in a row, 6 spacecraft with neighbouring parameters')
BIG = dict(ang_acc_limit=1e6, ang_vel_limit=1e6, inertia_wheel=1.0, acc_limit_wheel=1e9, vel_limit_wheel=1e9)


def model(ctx, s, u, m, J, n):
    x, y, th, vx, vy, w = s
    c, si = ctx.cos(th), ctx.sin(th)
    return [(vx, ), (vy, ), (w, ), (3 * n * n * x, 2 * n * vy, c * u[0] / m, -si * u[1] / m), (-2 * n * vx, si * u[0] / m, c * u[1] / m), (u[2] / J, )]


def setup(ctx, jax, method, given):
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    k = 1 if not jax else 0.1
    s = ctx.vec('s', 6, [-1e5 * k, -1e5 * k, -100 * k * k, -1e3, -1e3, -50 if not jax else -1], [1e5 * k, 1e5 * k, 100 * k * k, 1e3, 1e3, 50 if not jax else 1])
    u = ctx.vec('u', 3, [-1, -1, -20], [1, 1, 20])
    m, J, n = (ctx.real('m', 0.1, 1000), ctx.real('J', 0.02, 10), ctx.real('n', -0.1, 0.1)) if given else (12, INERTIA, 0.001027)
    kw = dict(m=m, inertia=J, n=n) if given else {}
    e = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='a', integration_method=method, use_jax=jax, **kw, **BIG)
    return e, s, u, model(ctx, s, u, m, J, n)


def deriv(ctx, jax, method, given):
    e, s, u, want = setup(ctx, jax, method, given)
    mk = ctx.jarr if jax else ctx.arr
    t = ctx.real('t', 0, 1e9)
    ctx.closes('derivative', ctx.flat(e.dynamics.compute_state_dot(t, mk(s), mk(u))), want)
    if jax:
        ctx.closes('derivative for odeint', ctx.flat(e.dynamics.compute_state_dot_jax(mk(s), t, mk(u))), want)


def step(ctx, jax, given):
    e, s, u, want = setup(ctx, jax, 'Euler', given)
    h = ctx.real('h', 0.001, 1)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(h, ctx.arr(u)))
    got = ctx.flat(e.state)
    for i in range(6):
        if i == 2:
            turns_close(ctx, 'attitude', got[i], s[2] + h * s[5], 1e-4 if jax else 1e-6)
        else:
            ctx.close(f'state[{i}]', got[i], s[i], *[h * x for x in want[i]])


def quarter(ctx, jax):
    """thrust along the body axes at the quarter turns points along Hill's axes"""
    e = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='a', use_jax=jax, **BIG)
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    f = ctx.real('f', -1, 1)
    for k, d in enumerate(((1, 0), (0, 1), (-1, 0), (0, -1))):
        s = [0.0, 0.0, k * PI / 2, 0.0, 0.0, 0.0]
        got = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr([f, 0.0, 0.0])))
        ctx.close(f'x acceleration, quarter {k}', got[3], d[0] * f / 12)
        ctx.close(f'y acceleration, quarter {k}', got[4], d[1] * f / 12)


def cases(tier):
    out = []
    for j in (False, True):
        nm = 'jax' if j else 'np'
        for mth in ('Euler', 'RK45') + (('RK45_JAX', ) if j else ()):
            for g in (True, False):
                out.append(Case(f'derivative-{nm}-{mth}-{"any" if g else "default"}', deriv, dict(jax=j, method=mth, given=g)))
        for g in (True, False):
            out.append(Case(f'step-{nm}-{"any" if g else "default"}', step, dict(jax=j, given=g)))
        out.append(Case(f'quarter-{nm}', quarter, dict(jax=j)))
    out += memory_cases('rot2d', 'rot2d-jax', given=('m', 'n', 'inertia'))
    return out

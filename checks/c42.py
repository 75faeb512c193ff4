"""C42: attitude normalisation is kept by the kinematics and drifts by exactly the scheme's error."""
from checks.common import *

BOUNDS = ('every quaternion with components in [-2, 2] (not only unit ones), rates and moments within the limits of a spacecraft with arbitrary principal inertias, '
          'step sizes in [0.001, 10]; 1-3 consecutive Euler steps; the adaptive integrator probed at an arbitrary point')


def setup(ctx, method, body=True):
    J = ctx.vec('J', 3, 0.02, 10)
    mat = ctx.arr([[J[0], 0.0, 0.0], [0.0, J[1], 0.0], [0.0, 0.0, J[2]]])
    e = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='a', integration_method=method, inertia_matrix=mat, body_frame_thrust=body)
    q = ctx.vec('q', 4, -2, 2)
    w = ctx.vec('w', 3, -0.034, 0.034)
    s = ctx.vec('p', 3, -1e3, 1e3) + q + ctx.vec('v', 3, -10, 10) + w
    u = ctx.vec('F', 3, -1, 1) + ctx.vec('M', 3, -1e-5, 1e-5)
    return e, s, q, w, u


def norm2(q):
    return [x * x for x in q]


def orthogonal(ctx, body):
    e, s, q, w, u = setup(ctx, 'RK45', body)
    d = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 10), ctx.arr(s), ctx.arr(u)))[3:7]
    ctx.close('rate of change of the quaternion norm', sum(a * b for a, b in zip(q, d)), 0.0, atol=1e-6)
    ctx.close('attitude rate squared', sum(x * x for x in d), *[0.25 * a * b for a in norm2(q) for b in norm2(w)], rel=1e-5, atol=1e-7)


def euler(ctx, steps):
    e, s, q, w, u = setup(ctx, 'Euler')
    e.state = ctx.arr(s)
    for k in range(steps):
        h = ctx.real(f'h{k}', 0.001, 10)
        a = ctx.flat(e.state)
        ctx.quiet(lambda: e.step(h, ctx.arr(u) if k % 2 == 0 else None))
        b = ctx.flat(e.state)
        ctx.close(f'squared norm after step {k + 1}', sum(norm2(b[3:7])), *norm2(a[3:7]), *[0.25 * h * h * x * y for x in norm2(a[3:7]) for y in norm2(a[10:13])],
                  rel=1e-5, atol=1e-6)


def probe(ctx):
    """what an adaptive integrator integrates keeps the norm everywhere on its way"""
    e, s, q, w, u = setup(ctx, 'RK45')
    e.state = ctx.arr(s)
    end = ctx.vec('ep', 3, -1e3, 1e3) + ctx.vec('eq', 4, -2, 2) + ctx.vec('ev', 3, -10, 10) + ctx.vec('ew', 3, -0.034, 0.034)
    stub = OdeStub(ctx, 13, end=end)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(ctx.real('h', 0.1, 10), ctx.arr(u)))
    y = ctx.vec('yp', 3, -1e3, 1e3) + ctx.vec('yq', 4, -2, 2) + ctx.vec('yv', 3, -10, 10) + ctx.vec('yw', 3, -0.034, 0.034)
    d = ctx.flat(stub.calls[0]['deriv'](ctx.real('t', 0, 10), ctx.arr(y)))[3:7]
    ctx.close('rate of change of the norm on the way', sum(a * b for a, b in zip(y[3:7], d)), 0.0, atol=1e-6)
    ctx.closes('attitude the step ended with', ctx.flat(e.state)[3:7], [(x, ) for x in end[3:7]])
    d = ctx.flat(e.state_dot)[3:7]
    ctx.close('reported rate of change of the norm', sum(a * b for a, b in zip(end[3:7], d)), 0.0, atol=1e-6)


def planar(ctx, tag):
    """the planar spacecraft's attitude is a unit quaternion by construction, whatever its angle"""
    kind = KINDS[tag]
    e = kind.make(ctx)
    s = kind.state(ctx)
    s[2] = ctx.real('theta', -20, 20)
    kind.put(ctx, e, s)
    ctx.close('norm of the attitude', sum(norm2(ctx.flat(e.quaternion))), 1.0, rel=1e-5)
    ctx.quiet(lambda: e.step(ctx.real('h', 0.001, 10), ctx.arr(kind.control(ctx))))
    ctx.close('norm of the attitude after a step', sum(norm2(ctx.flat(e.quaternion))), 1.0, rel=1e-5)


def cases(tier):
    return [Case('orthogonal', orthogonal, dict(body=True)), Case('orthogonal-hill', orthogonal, dict(body=False)), Case('probe', probe)] + \
        [Case(f'euler-{k}', euler, dict(steps=k), tier='quick' if k < 3 else 'thorough') for k in (1, 2, 3)] + \
        [Case(f'planar-{t}', planar, dict(tag=t)) for t in ('rot2d', 'rot2d-jax')]

"""C13: six-DOF translation obeys CWH with body- or Hill-frame thrust."""
from checks.common import *

BOUNDS = ('every unit quaternion (with Hill-frame thrust also quaternions of norm 0.1 to 3), m in [0.1, 1000], n in [-0.1, 0.1], |position| <= 1e5, |velocity| <= 1e3, |rate| <= 50 (Euler step: 0.03), thrust within +-10, moments '
          'within 1e-3; one derivative or one Euler step; 8 neighbouring states in a row, 6 spacecraft with neighbouring parameters')


def setup(ctx, body, method='RK45', given=True, **kw):
    W = 0.03 if method == 'Euler' or not given else 50
    p, q, v, w = ctx.vec('p', 3, -1e5, 1e5), ctx.unit_quat('q'), ctx.vec('v', 3, -1e3, 1e3), ctx.vec('w', 3, -W, W)
    F, M = ctx.vec('F', 3, -10, 10), ctx.vec('M', 3, -5e-4, 5e-4)
    m, n = (ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1)) if given else (12, 0.001027)
    if given:
        kw.update(m=m, n=n, thrust_control_limit=10.0)
    if body is not None:
        kw['body_frame_thrust'] = body
    e = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='a', integration_method=method, **kw)
    s = p + q + v + w
    R = qrot(q)
    acc = []
    for i in range(3):
        acc.append([t * F[j] / m for j in range(3) for t in R[i][j]] if body in (True, None) else [F[i] / m])
    cw = [[3 * n * n * p[0], 2 * n * v[1]], [-2 * n * v[0]], [-(n * n) * p[2]]]
    return e, s, F, M, m, q, v, cw, acc


def deriv(ctx, body, given):
    e, s, F, M, m, q, v, cw, acc = setup(ctx, body, given=given)
    got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 10), ctx.arr(s), ctx.arr(F + M)))
    for i in range(3):
        ctx.close(f'position derivative[{i}]', got[i], v[i])
        ctx.close(f'acceleration[{i}]', got[7 + i], *(cw[i] + acc[i]))


def step(ctx, body):
    e, s, F, M, m, q, v, cw, acc = setup(ctx, body, 'Euler')
    h = ctx.real('h', 0.001, 1)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(h, ctx.arr(F + M)))
    got = ctx.flat(e.state)
    for i in range(3):
        ctx.close(f'position[{i}]', got[i], s[i], h * v[i])
        ctx.close(f'velocity[{i}]', got[7 + i], s[7 + i], *[h * x for x in cw[i] + acc[i]])


def oriented(ctx):
    """the thrust acceleration is the thrust in the reported body axes"""
    e, s, F, M, m, q, v, cw, acc = setup(ctx, True)
    e.state = ctx.arr(s)
    with_f = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr(F + M)))
    without = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr([0.0] * 3 + M)))
    r = ctx.flat(e.orientation.apply(ctx.arr(F)))
    a = [with_f[7 + i] - without[7 + i] for i in range(3)]
    for i in range(3):
        ctx.close(f'thrust acceleration[{i}]', a[i], r[i] / m, rel=1e-5, atol=1e-5)


def magnitude(ctx, body):
    e, s, F, M, m, q, v, cw, acc = setup(ctx, body, given=False, thrust_control_limit=10.0)
    g = e.dynamics.state_transition_input(ctx.arr(s))
    a = [sum(g[7 + i, j] * F[j] for j in range(3)) * 12 for i in range(3)]
    ctx.close('squared thrust magnitude', a[0] * a[0] + a[1] * a[1] + a[2] * a[2], F[0] * F[0], F[1] * F[1], F[2] * F[2], rel=1e-5)
    for i in range(7):
        ctx.closes(f'no thrust on component {i}', [g[i, j] for j in range(3)], [(0.0, )] * 3)
    for i in range(10, 13):
        ctx.closes(f'no thrust on rate {i}', [g[i, j] for j in range(3)], [(0.0, )] * 3)
    for i in range(10):
        ctx.closes(f'no moment on component {i}', [g[i, j] for j in range(3, 6)], [(0.0, )] * 3)


def drifted(ctx):
    """Hill-frame thrust does not depend on the attitude, nor on how far its quaternion is from normalised"""
    e, s, F, M, m, q, v, cw, acc = setup(ctx, False)
    for i in range(4):
        s[3 + i] = ctx.real(f'k{i}', -2, 2)
    n2 = sum(x * x for x in s[3:7])
    ctx.assume(ctx.And(n2 > 0.01, n2 < 9))
    got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 10), ctx.arr(s), ctx.arr(F + M)))
    for i in range(3):
        ctx.close(f'position derivative[{i}]', got[i], v[i])
        ctx.close(f'acceleration[{i}]', got[7 + i], *(cw[i] + acc[i]))


def cases(tier):
    out = []
    for b, nm in ((True, 'body'), (False, 'hill'), (None, 'default')):
        for g in (True, False):
            out.append(Case(f'derivative-{nm}-{"any" if g else "default"}', deriv, dict(body=b, given=g)))
        out.append(Case(f'step-{nm}', step, dict(body=b)))
        out.append(Case(f'magnitude-{nm}', magnitude, dict(body=b)))
    out.append(Case('orientation', oriented))
    out.append(Case('unnormalised-hill', drifted))
    out += memory_cases('sixdof', 'sixdof-hill', given=('m', 'n'))
    return out

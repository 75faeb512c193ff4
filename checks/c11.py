"""C11: the point-mass spacecraft obeys the Clohessy-Wiltshire equations."""
from checks.common import *

BOUNDS = 'm in [0.1, 1000], n in [-10, 10] in a derivative and [-0.1, 0.1] in a step, |state| <= 1e5, |thrust| <= 1000 in a derivative and 1 (the actuator range) in a step, t in [0, 1e9]; one derivative / one Euler step; 8 neighbouring states in a row, 6 spacecraft with neighbouring parameters'


def cwh(s, u, m, n):
    x, y, z, vx, vy, vz = s
    return [
        (vx, ), (vy, ), (vz, ),
        (3 * n * n * x, 2 * n * vy, u[0] / m),
        (-2 * n * vx, u[1] / m),
        (-(n * n) * z, u[2] / m),
    ]


def deriv(ctx, method):
    m, n = ctx.real('m', 0.1, 1000), ctx.real('n', -10, 10)
    s, u, t = ctx.vec('s', 6, -1e5, 1e5), ctx.vec('u', 3, -1e3, 1e3), ctx.real('t', 0, 1e9)
    e = ctx.mod('cwh.point_model').CWHSpacecraft(name='a', m=m, n=n, integration_method=method)
    d = e.dynamics.compute_state_dot(t, ctx.arr(s), ctx.arr(u))
    ctx.closes('state derivative', d, cwh(s, u, m, n))


def step(ctx):
    m, n = ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1)
    s, u, h = ctx.vec('s', 6, -1e5, 1e5), ctx.vec('u', 3, -1, 1), ctx.real('h', 0.001, 10)
    e = ctx.mod('cwh.point_model').CWHSpacecraft(name='a', m=m, n=n, integration_method='Euler')
    e.state = ctx.arr(s)
    e.step(h, ctx.arr(u))
    ctx.closes('state after an Euler step', e.state, [(s[i], ) + tuple(h * x for x in d) for i, d in enumerate(cwh(s, u, m, n))])


def defaults(ctx):
    s, u = ctx.vec('s', 6, -1e5, 1e5), ctx.vec('u', 3, -1e3, 1e3)
    e = ctx.mod('cwh.point_model').CWHSpacecraft(name='a')
    d = e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u))
    ctx.closes('state derivative with default parameters', d, cwh(s, u, 12, 0.001027))


def matrices(ctx, mode):
    m, n = ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1)
    A, B = ctx.mod('cwh.point_model').generate_cwh_matrices(m, n, mode)
    N = 2 if mode == '2d' else 3
    ctx.check(tuple(A.shape) == (2 * N, 2 * N) and tuple(B.shape) == (2 * N, N), 'matrix shapes')
    keep = [0, 1, 3, 4] if mode == '2d' else list(range(6))
    for j in range(2 * N):
        s = [0] * 6
        s[keep[j]] = 1
        col = cwh(s, [0, 0, 0], m, n)
        ctx.closes(f'A column {j}', [A[i, j] for i in range(2 * N)], [col[k] for k in keep])
    for j in range(N):
        u = [0, 0, 0]
        u[j] = 1
        col = cwh([0] * 6, u, m, n)
        ctx.closes(f'B column {j}', [B[i, j] for i in range(2 * N)], [col[k] for k in keep])


def cases(tier):
    out = [Case(f'derivative-{m}', deriv, dict(method=m)) for m in ('RK45', 'Euler')]
    out += [Case('euler-step', step), Case('defaults', defaults)]
    out += [Case(f'matrices-{m}', matrices, dict(mode=m)) for m in ('2d', '3d')]
    out += memory_cases('cwh3d', given=('m', 'n'))
    return out

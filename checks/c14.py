"""C14: six-DOF attitude obeys quaternion kinematics and Euler's equations."""
from checks.common import *

BOUNDS = ('every unit quaternion, principal inertias in [0.02, 10] each, body rates within 50 rad/s (1 rad/s in the conservation laws), moments within 20, limits set high enough not to '
          'interfere; one derivative or one Euler step; 8 neighbouring states in a row')
BIG = dict(ang_acc_limit=1e6, ang_vel_limit=1e6, inertia_wheel=1.0, acc_limit_wheel=1e9, vel_limit_wheel=1e9)


def setup(ctx, style, method='RK45', moment=True, rate=50):
    J = ctx.vec('J', 3, 0.02, 10)
    if style == 'symmetric':
        J = [J[0]] * 3
    q, w = ctx.unit_quat('q'), ctx.vec('w', 3, -rate, rate)
    p, v = ctx.vec('p', 3, -1e4, 1e4), ctx.vec('v', 3, -100, 100)
    F, M = ctx.vec('F', 3, -1, 1), ctx.vec('M', 3, -20, 20)
    if not moment:
        M = [0.0] * 3
    mat = ctx.arr([[J[0], 0.0, 0.0], [0.0, J[1], 0.0], [0.0, 0.0, J[2]]])
    e = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='a', integration_method=method, inertia_matrix=mat, **BIG)
    return e, J, q, w, p + q + v + w, F + M, M


def laws(q, w, J, M):
    q1, q2, q3, q4 = q
    a, b, c = w
    qd = [(0.5 * q4 * a, -0.5 * q3 * b, 0.5 * q2 * c), (0.5 * q3 * a, 0.5 * q4 * b, -0.5 * q1 * c), (-0.5 * q2 * a, 0.5 * q1 * b, 0.5 * q4 * c),
          (-0.5 * q1 * a, -0.5 * q2 * b, -0.5 * q3 * c)]
    wd = [(J[1] * b * c / J[0], -J[2] * b * c / J[0], M[0] / J[0]), (J[2] * a * c / J[1], -J[0] * a * c / J[1], M[1] / J[1]),
          (J[0] * a * b / J[2], -J[1] * a * b / J[2], M[2] / J[2])]
    return qd, wd


def deriv(ctx, style):
    e, J, q, w, s, u, M = setup(ctx, style)
    got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 10), ctx.arr(s), ctx.arr(u)))
    qd, wd = laws(q, w, J, M)
    ctx.closes('quaternion derivative', got[3:7], qd)
    ctx.closes('angular acceleration', got[10:13], wd)


def step(ctx, style):
    e, J, q, w, s, u, M = setup(ctx, style, 'Euler')
    h = ctx.real('h', 0.001, 0.01)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(h, ctx.arr(u)))
    got = ctx.flat(e.state)
    qd, wd = laws(q, w, J, M)
    for i in range(4):
        ctx.close(f'quaternion[{i}]', got[3 + i], q[i], *[h * x for x in qd[i]])
    for i in range(3):
        ctx.close(f'rate[{i}]', got[10 + i], w[i], *[h * x for x in wd[i]])


def conserve(ctx, style):
    e, J, q, w, s, u, M = setup(ctx, style, moment=False, rate=1)
    d = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u)))
    ctx.close('rate of change of the quaternion norm', sum(a * b for a, b in zip(q, d[3:7])), 0.0, atol=1e-6)
    ctx.close('rate of change of rotational energy', sum(j * a * b for j, a, b in zip(J, w, d[10:13])), 0.0, atol=1e-4)
    ctx.close('rate of change of angular momentum squared', sum(j * j * a * b for j, a, b in zip(J, w, d[10:13])), 0.0, atol=1e-3)


def defaults(ctx):
    q, w, M = ctx.unit_quat('q'), ctx.vec('w', 3, -0.03, 0.03), ctx.vec('M', 3, -5e-4, 5e-4)
    e = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='a')
    s = [1.0, 2.0, 3.0] + q + [0.1, 0.2, 0.3] + w
    got = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr([0.0] * 3 + M)))
    qd, wd = laws(q, w, [INERTIA] * 3, M)
    ctx.closes('quaternion derivative', got[3:7], qd)
    ctx.closes('angular acceleration', got[10:13], [(M[i] / INERTIA, ) for i in range(3)])


def cases(tier):
    out = [Case('defaults', defaults)]
    for st in ('general', 'symmetric'):
        out += [Case(f'derivative-{st}', deriv, dict(style=st)), Case(f'step-{st}', step, dict(style=st)),
                Case(f'conservation-{st}', conserve, dict(style=st))]
    out += memory_cases('sixdof')
    return out

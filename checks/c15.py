"""C15: the spacecraft models agree where they describe the same motion."""
from checks.common import *

BOUNDS = ('m in [0.1, 1000], n in [-0.1, 0.1], inertia in [0.02, 10], |position| <= 1e5, |velocity| <= 1e3, attitude within +-10 rad, in-plane thrust '
          'within the actuator range; planar model NumPy and JAX, six-DOF with body- and Hill-frame thrust; one derivative and one Euler step')
BIG = dict(ang_acc_limit=1e6, ang_vel_limit=1e6, inertia_wheel=1.0, acc_limit_wheel=1e9, vel_limit_wheel=1e9)


def three(ctx, jax, body, via):
    """no rotation: planar rotating model, point mass and six-DOF"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    k = 1 if not jax else 0.1
    m, n = ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1)
    p, v, F = ctx.vec('p', 2, -1e5 * k, 1e5 * k), ctx.vec('v', 2, -1e3, 1e3), ctx.vec('F', 2, -1, 1)
    meth = dict(integration_method='Euler')
    a = ctx.mod('cwh.point_model').CWHSpacecraft(name='a', m=m, n=n, **meth)
    b = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='b', m=m, n=n, use_jax=jax, **meth)
    c = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='c', m=m, n=n, body_frame_thrust=body, **meth)
    z, vz, fz = ctx.real('z', -1e5, 1e5), ctx.real('vz', -1e3, 1e3), ctx.real('fz', -1, 1)
    sa, sb = [p[0], p[1], z, v[0], v[1], vz], [p[0], p[1], 0.0, v[0], v[1], 0.0]
    sc = [p[0], p[1], z, 0.0, 0.0, 0.0, 1.0, v[0], v[1], vz, 0.0, 0.0, 0.0]
    ua, ub, uc = [F[0], F[1], fz], [F[0], F[1], 0.0], [F[0], F[1], fz, 0.0, 0.0, 0.0]
    if via == 'derivative':
        mk = ctx.jarr if jax else ctx.arr
        da = ctx.flat(a.dynamics.compute_state_dot(0.0, ctx.arr(sa), ctx.arr(ua)))
        db = ctx.flat(b.dynamics.compute_state_dot(0.0, mk(sb), mk(ub)))
        dc = ctx.flat(c.dynamics.compute_state_dot(0.0, ctx.arr(sc), ctx.arr(uc)))
    else:
        for e, s, u in ((a, sa, ua), (b, sb, ub), (c, sc, uc)):
            e.state = ctx.arr(s)
            ctx.quiet(lambda: e.step(1.0, ctx.arr(u)))
        da, db, dc = (ctx.flat(x.state) for x in (a, b, c))
    for nm, i, j, k in (('x', 0, 0, 0), ('y', 1, 1, 1), ('x velocity', 3, 3, 7), ('y velocity', 4, 4, 8)):
        ctx.close(f'{nm}: planar and point mass', db[j], da[i], atol=1e-3 if jax else None)
        ctx.close(f'{nm}: six-DOF and point mass', dc[k], da[i])
    ctx.close('z: six-DOF and point mass', dc[2], da[2])
    ctx.close('z velocity: six-DOF and point mass', dc[9], da[5])
    for i in range(3, 7):
        ctx.close(f'six-DOF quaternion[{i - 3}]', dc[i], 0.0 if via == 'derivative' or i < 6 else 1.0)
    ctx.close('planar rotation', db[2], 0.0)


def tumbling(ctx, body, via):
    """a tumbling six-DOF spacecraft without thrust, or with Hill-frame thrust, moves as the point mass"""
    m, n = ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1)
    p, v, q, w = ctx.vec('p', 3, -1e5, 1e5), ctx.vec('v', 3, -1e3, 1e3), ctx.unit_quat('q'), ctx.vec('w', 3, -0.03, 0.03)
    F, M = [0.0] * 3 if body else ctx.vec('F', 3, -1, 1), ctx.vec('M', 3, -5e-4, 5e-4)
    a = ctx.mod('cwh.point_model').CWHSpacecraft(name='a', m=m, n=n, integration_method='Euler')
    c = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='c', m=m, n=n, body_frame_thrust=body, integration_method='Euler')
    if via == 'derivative':
        da = ctx.flat(a.dynamics.compute_state_dot(0.0, ctx.arr(p + v), ctx.arr(F)))
        dc = ctx.flat(c.dynamics.compute_state_dot(0.0, ctx.arr(p + q + v + w), ctx.arr(F + M)))
    else:
        h = ctx.real('h', 0.01, 10)
        a.state, c.state = ctx.arr(p + v), ctx.arr(p + q + v + w)
        ctx.quiet(lambda: a.step(h, ctx.arr(F)))
        ctx.quiet(lambda: c.step(h, ctx.arr(F + M)))
        da, dc = ctx.flat(a.state), ctx.flat(c.state)
    for i in range(3):
        ctx.close(f'position {via}[{i}]', dc[i], da[i])
        ctx.close(f'velocity {via}[{i}]', dc[7 + i], da[3 + i])


def spin(ctx, jax):
    """rotation about z only: planar and six-DOF"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    m, n, J = ctx.real('m', 0.1, 1000), ctx.real('n', -0.1, 0.1), ctx.real('J', 0.02, 10)
    k = 1 if not jax else 0.1
    p, v, F = ctx.vec('p', 2, -1e5 * k, 1e5 * k), ctx.vec('v', 2, -1e3, 1e3), ctx.vec('F', 2, -1, 1)
    th, w, M = ctx.real('th', -10, 10), ctx.real('w', *((-50, 50) if not jax else (-1, 1))), ctx.real('M', -0.05, 0.05)
    mat = ctx.arr([[J, 0.0, 0.0], [0.0, J, 0.0], [0.0, 0.0, J]])
    b = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='b', m=m, n=n, inertia=J, use_jax=jax, **BIG)
    c = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='c', m=m, n=n, inertia_matrix=mat, **BIG)
    sb = [p[0], p[1], th, v[0], v[1], w]
    half = th * 0.5
    sc = [p[0], p[1], 0.0, 0.0, 0.0, ctx.sin(half), ctx.cos(half), v[0], v[1], 0.0, 0.0, 0.0, w]
    mk = ctx.jarr if jax else ctx.arr
    db = ctx.flat(b.dynamics.compute_state_dot(0.0, mk(sb), mk([F[0], F[1], M])))
    dc = ctx.flat(c.dynamics.compute_state_dot(0.0, ctx.arr(sc), ctx.arr([F[0], F[1], 0.0, 0.0, 0.0, M])))
    for nm, j, k in (('x', 0, 0), ('y', 1, 1), ('x velocity', 3, 7), ('y velocity', 4, 8), ('angular acceleration', 5, 12)):
        ctx.close(f'{nm}: six-DOF and planar', dc[k], db[j], rel=1e-5 if not jax else 1e-4, atol=1e-6 if not jax else 1e-3)
    for i in (2, 3, 4, 9, 10, 11):
        ctx.close(f'six-DOF out-of-plane component {i}', dc[i], 0.0, atol=1e-6)
    # the quaternion turns as the attitude angle does
    ctx.close('quaternion z rate', dc[5], 0.5 * w * ctx.cos(half))
    ctx.close('quaternion w rate', dc[6], -0.5 * w * ctx.sin(half))


def limits(ctx, kind):
    """the same actuator and rate limits"""
    b = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='b')
    c = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='c')
    a = ctx.mod('cwh.point_model').CWHSpacecraft(name='a')
    x = ctx.real('x', -1, 1)
    lb, lc = ctx.flat(b.control_max), ctx.flat(c.control_max)
    ctx.close('moment limit', lb[2] + x, lc[5] + x)
    ctx.close('thrust limit', lb[0] + x, lc[0] + x)
    ctx.close('thrust limit of the point mass', ctx.flat(ctx.arr([a.control_max]))[0] + x, lc[0] + x)
    ctx.close('rate limit', ctx.flat(b.dynamics.state_max)[5] + x, ctx.flat(c.dynamics.state_max)[12] + x)


def cases(tier):
    out = []
    for j in (False, True):
        for body in (True, False):
            for via in ('derivative', 'step'):
                out.append(Case(f'three-{"jax" if j else "np"}-{"body" if body else "hill"}-{via}', three, dict(jax=j, body=body, via=via)))
        out.append(Case(f'spin-{"jax" if j else "np"}', spin, dict(jax=j)))
    for body in (True, False):
        for via in ('derivative', 'step'):
            out.append(Case(f'tumbling-{"body" if body else "hill"}-{via}', tumbling, dict(body=body, via=via)))
    out.append(Case('limits', limits, dict(kind=None)))
    return out

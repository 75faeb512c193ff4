"""C16: torque and rate limits follow from spacecraft and wheel limits."""
from checks.common import *

BOUNDS = ('inertias in [0.01, 10] per axis, angular limits in [1e-3, 10] (scalar, list and array), wheel inertia in [1e-6, 1e-2], wheel limits in '
          '[1, 1e4], thrust limit in [0.1, 100]; requests up to 5x the limits; one derivative and one Euler step')


def pars(ctx):
    return ctx.real('iw', 1e-6, 1e-2), ctx.real('aw', 1, 1e4), ctx.real('vw', 1, 1e4)


def planar(ctx, jax, given):
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    if given:
        J, aa, av = ctx.real('J', 0.01, 10), ctx.real('aa', 1e-3, 10), ctx.real('av', 1e-3, 10)
        iw, aw, vw = pars(ctx)
        kw = dict(inertia=J, ang_acc_limit=aa, ang_vel_limit=av, inertia_wheel=iw, acc_limit_wheel=aw, vel_limit_wheel=vw)
    else:
        J, aa, av, iw, aw, vw, kw = INERTIA, ANG_ACC, ANG_VEL, 4.1e-5, 181.3, 576, {}
    e = ctx.mod('cwh.rotational_model').CWHRotation2dSpacecraft(name='a', use_jax=jax, integration_method='Euler', **kw)
    al, vl = ctx.Min(aa, iw * aw / J), ctx.Min(av, iw * vw / J)
    hi, lo = ctx.flat(e.control_max), ctx.flat(e.control_min)
    ctx.closes('control maximum', hi, [(1.0, ), (1.0, ), (J * al, )])
    ctx.closes('control minimum', lo, [(-1.0, ), (-1.0, ), (-J * al, )])
    ctx.close('rate maximum', ctx.flat(e.dynamics.state_max)[5], vl)
    ctx.close('rate minimum', ctx.flat(e.dynamics.state_min)[5], -vl)
    s = ctx.vec('s', 5, [-10, -10, -3, -1, -1], [10, 10, 3, 1, 1])
    f = ctx.real('f', -1, 1)  # fraction of the rate limit
    w = f * vl
    s = s + [w]
    M = ctx.real('M', -50, 50)
    mk = ctx.jarr if jax else ctx.arr
    d = ctx.flat(e.dynamics.compute_state_dot(0.0, mk(s), mk([0.0, 0.0, M])))
    sl = 1e-5 if not jax else 1e-4
    ctx.le('angular acceleration above its limit', d[5], al, sl)
    ctx.le('angular acceleration below its limit', -al, d[5], sl)
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(1.0, ctx.arr([0.0, 0.0, M])))
    w1 = ctx.flat(e.state)[5]
    ctx.le('rate above its limit', w1, vl, sl)
    ctx.le('rate below its limit', -vl, w1, sl)
    ctx.le('rate rises faster than the acceleration limit', w1 - w, al, sl)
    ctx.le('rate falls faster than the acceleration limit', -al, w1 - w, sl)


def sixdof(ctx, style):
    J = ctx.vec('J', 3, 0.01, 10)
    iw, aw, vw = pars(ctx)
    T = ctx.real('T', 0.1, 100)
    if style == 'scalar':
        a, v = ctx.real('aa', 1e-3, 10), ctx.real('av', 1e-3, 10)
        aa, av, ka, kv = [a] * 3, [v] * 3, a, v
    else:
        aa, av = ctx.vec('aa', 3, 1e-3, 10), ctx.vec('av', 3, 1e-3, 10)
        ka, kv = (list(aa), list(av)) if style == 'list' else (ctx.arr(aa), ctx.arr(av))
    mat = ctx.arr([[J[0], 0.0, 0.0], [0.0, J[1], 0.0], [0.0, 0.0, J[2]]])
    e = ctx.mod('cwh.sixdof_model').SixDOFSpacecraft(name='a', integration_method='Euler', inertia_matrix=mat, ang_acc_limit=ka, ang_vel_limit=kv,
                                                    inertia_wheel=iw, acc_limit_wheel=aw, vel_limit_wheel=vw, thrust_control_limit=T)
    hi, lo = ctx.flat(e.control_max), ctx.flat(e.control_min)
    smax, smin = ctx.flat(e.dynamics.state_max), ctx.flat(e.dynamics.state_min)
    vls = []
    for i in range(3):
        al, vl = ctx.Min(aa[i], iw * aw / J[i]), ctx.Min(av[i], iw * vw / J[i])
        vls.append(vl)
        ctx.close(f'thrust maximum {i}', hi[i], T)
        ctx.close(f'thrust minimum {i}', lo[i], -T)
        ctx.close(f'moment maximum {i}', hi[3 + i], J[i] * al)
        ctx.close(f'moment minimum {i}', lo[3 + i], -J[i] * al)
        ctx.close(f'rate maximum {i}', smax[10 + i], vl)
        ctx.close(f'rate minimum {i}', smin[10 + i], -vl)
    g = e.dynamics.state_transition_input(ctx.arr([0.0] * 6 + [1.0] + [0.0] * 6))
    for i in range(3):
        for j in range(3):
            ctx.close(f'moment {j} on rate {i}', g[10 + i, 3 + j], 1 / J[i] if i == j else 0.0)


def sixdof_step(ctx):
    """requests far beyond the limits, default limits"""
    kind = KINDS['sixdof']
    e = kind.make(ctx)
    s = [1.0, 2.0, 3.0] + ctx.unit_quat('q') + [0.1, 0.2, 0.3] + ctx.vec('w', 3, -VEL_LIM, VEL_LIM)
    u = ctx.vec('u', 6, -5, 5)
    h = ctx.real('h', 0.01, 10)
    kind.put(ctx, e, s)
    ctx.quiet(lambda: e.step(h, ctx.arr(u)))
    got = ctx.flat(e.state)
    for i in range(10, 13):
        ctx.le(f'rate {i} above its limit', got[i], VEL_LIM)
        ctx.le(f'rate {i} below its limit', -VEL_LIM, got[i])
        ctx.le(f'rate {i} rises faster than the acceleration limit', got[i] - s[i], h * ACC_LIM)
        ctx.le(f'rate {i} falls faster than the acceleration limit', -h * ACC_LIM, got[i] - s[i])
    hi = ctx.flat(e.control_max)
    x = ctx.real('x', -1, 1)
    for i in range(3):
        ctx.close(f'thrust limit {i}', hi[i] + x, 1.0 + x)
        ctx.close(f'moment limit {i}', hi[3 + i] + x, ACC_LIM * INERTIA + x)


def symmetric(ctx, tag):
    kind = KINDS[tag]
    e = kind.make(ctx)
    x = ctx.real('x', -1, 1)
    hi, lo = (ctx.flat(v if hasattr(v, 'shape') and v.shape else ctx.arr([v] * kind.m)) for v in (e.control_max, e.control_min))
    for i in range(kind.m):
        ctx.close(f'limit {i} symmetric', hi[i] + x, -lo[i] + x)
        ctx.close(f'limit {i}', hi[i] + x, kind.uhi[i] + x)


def cases(tier):
    out = []
    for j in (False, True):
        for g in (True, False):
            out.append(Case(f'planar-{"jax" if j else "np"}-{"any" if g else "default"}', planar, dict(jax=j, given=g)))
    for st in ('scalar', 'list', 'array'):
        out.append(Case(f'sixdof-{st}', sixdof, dict(style=st), opts=dict(weight=3)))
    out.append(Case('sixdof-step', sixdof_step))
    for t in ('cwh3d', 'rot2d', 'sixdof', 'int1d', 'int2d', 'int3d'):
        out.append(Case(f'symmetric-{t}', symmetric, dict(tag=t)))
    return out

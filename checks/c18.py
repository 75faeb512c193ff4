"""C18: the 3D aircraft obeys coordinated-turn Dubins kinematics."""
from checks.common import *

BOUNDS = ('every heading in [-1000, 1000], gamma in [-4, 4], roll in [-10, 10] with |cos roll| > 1e-3 (inside and beyond limits), speed from 0.5 to 1e5 either way, positions within 1e6, '
          'controls up to 50 times their limits; gravity in [1, 100]; limits of gamma in [0.1, 1.4] and roll in [0.2, 3] each way, speed limits in '
          '[-300, 1000]; derivative (also drift and control part), one Euler step, right-hand side given to solve_ivp; 8 neighbouring states in a row')
NAMES = ('x rate', 'y rate', 'z rate', 'turn rate', 'gamma rate', 'roll rate', 'acceleration')
DEF = (-GLIM, GLIM, -RLIM, RLIM, 200.0, 400.0)


def make(ctx, lims, method='RK45'):
    if not lims:
        return KINDS['dub3d'].make(ctx, method=method), DEF
    v = (ctx.real('gmin', -1.4, -0.1), ctx.real('gmax', 0.1, 1.4), ctx.real('rmin', -3, -0.2), ctx.real('rmax', 0.2, 3), ctx.real('vmin', -300, 300),
         ctx.real('vmax', 350, 1000))
    return KINDS['dub3d'].make(ctx, method=method, gamma_min=v[0], gamma_max=v[1], roll_min=v[2], roll_max=v[3], v_min=v[4], v_max=v[5]), v


def point(ctx, lims, inside=False):
    s = ctx.vec('p', 3, -1e6, 1e6) + [ctx.real('h', -1000, 1000), ctx.real('gamma', -4, 4), ctx.real('roll', -10, 10), ctx.real('v', -1e5, 1e5)]
    ctx.assume(ctx.Or(s[6] >= 0.5, s[6] <= -0.5))
    c = ctx.cos(s[5])
    ctx.assume(ctx.Or(c > 1e-3, c < -1e-3))
    for k in range(3):
        x, lo, hi = s[4 + k], lims[2 * k], lims[2 * k + 1]
        e = 1e-4 if k < 2 else 0.01
        if inside:
            ctx.assume(ctx.And(x > lo + e, x < hi - e))
        else:
            for l in (lo, hi):
                ctx.assume(ctx.Or(x < l - e, x > l + e))
    return s


def kin(ctx, s, g=32.17):
    h, ga, r, v = s[3:]
    return [v * ctx.cos(h) * ctx.cos(ga), v * ctx.sin(h) * ctx.cos(ga), -v * ctx.sin(ga), g / v * ctx.tan(r)]


def want(ctx, s, u, lims):
    out = kin(ctx, s)
    for k in range(3):
        x, lo, hi, d = s[4 + k], lims[2 * k], lims[2 * k + 1], u[k]
        d = ctx.ite(x <= lo, ctx.Max(d, 0.0), d)
        out.append(ctx.ite(x >= hi, ctx.Min(d, 0.0), d))
    return out


def ctl(ctx, k=1.0):
    return [ctx.real('gr', -0.1745 * k, 0.1745 * k), ctx.real('rr', -0.0872 * k, 0.0872 * k), ctx.real('a', -96 * k, 96 * k)]


def deriv(ctx, lims):
    e, l = make(ctx, lims)
    s, u = point(ctx, l), ctl(ctx, 50)
    got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 1e9), ctx.arr(s), ctx.arr(u)))
    for g, w, n in zip(got, want(ctx, s, u, l), NAMES):
        ctx.close(n, g, w)
    ctx.close('ground speed squared', got[0] * got[0] + got[1] * got[1] + got[2] * got[2], s[6] * s[6])


def affine(ctx, grav):
    g0 = ctx.real('g', 1, 100) if grav else 32.17
    d = ctx.mod('dubins').Dubins3dDynamics(**({'g': g0} if grav else {}))
    s, u = point(ctx, (-9.0, 9.0, -9.0, 9.0, 0.0, 1e9)), ctl(ctx, 50)
    f = ctx.flat(d.state_transition_system(ctx.arr(s)))
    for g, w, n in zip(f, kin(ctx, s, g0) + [0.0] * 3, NAMES):
        ctx.close('drift: ' + n, g, w)
    g = d.state_transition_input(ctx.arr(s))
    for i in range(7):
        ctx.close(f'control effect {i}', g[i, 0] * u[0] + g[i, 1] * u[1] + g[i, 2] * u[2], ([0.0] * 4 + u)[i])
    got = ctx.flat(d.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u)))
    ctx.closes('unlimited derivative', got, [(x, ) for x in kin(ctx, s, g0) + u])


def euler(ctx, lims):
    e, l = make(ctx, lims, 'Euler')
    s, u = point(ctx, l, True), ctl(ctx)
    ctx.assume(ctx.And(s[3] > -2, s[3] < 2))
    h = ctx.real('dt', 0.01, 2)
    e.state = ctx.arr(s)
    e.step(h, {'gamma_rate': u[0], 'roll_rate': u[1], 'acceleration': u[2]})
    got, k = ctx.flat(e.state), kin(ctx, s)
    for i, n in enumerate('xyz'):
        ctx.close(n, got[i], s[i], h * k[i])
    turns_close(ctx, 'heading', got[3], s[3] + h * k[3], 1e-5)
    for i, n in enumerate(('gamma', 'roll', 'speed')):
        ctx.close(n, got[4 + i], ctx.Min(ctx.Max(s[4 + i] + h * u[i], l[2 * i]), l[2 * i + 1]), rel=3e-6)


def integrated(ctx, lims):
    e, l = make(ctx, lims)
    s, u = point(ctx, l), ctl(ctx)
    stub = OdeStub(ctx, 7, end=[1.0, 2.0, 3.0, 0.5, 0.05, 0.1, 325.0])
    ctx.set_ode(stub)
    e.step(1.0, ctx.arr(u))
    got = ctx.flat(stub.calls[0]['deriv'](ctx.real('t', 0, 1), ctx.arr(s)))
    for g, w, n in zip(got, want(ctx, s, u, l), NAMES):
        ctx.close('integrated: ' + n, g, w)


def cases(tier):
    out = [Case('affine', affine, dict(grav=False)), Case('affine-gravity', affine, dict(grav=True))]
    for l in (False, True):
        t = 'limits' if l else 'default'
        out += [Case(f'derivative-{t}', deriv, dict(lims=l)), Case(f'euler-{t}', euler, dict(lims=l)), Case(f'integrated-{t}', integrated, dict(lims=l))]
    out += memory_cases('dub3d')
    return out

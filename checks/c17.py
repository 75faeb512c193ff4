"""C17: the 2D aircraft obeys Dubins kinematics."""
from checks.common import *

BOUNDS = ('every heading in [-1000, 1000] rad, speed in [-1e5, 1e5] (inside and beyond limits), positions within 1e6, heading rates within 10, accelerations within 1e4; speed '
          'limits in [50, 1000]; derivative (also split into drift and control part), one Euler step, right-hand side given to solve_ivp; 8 neighbouring states in a row')


def make(ctx, lims, method='RK45'):
    if not lims:
        return KINDS['dub2d'].make(ctx, method=method), 200.0, 400.0
    lo, hi = ctx.real('vmin', 50, 300), ctx.real('vmax', 350, 1000)
    return KINDS['dub2d'].make(ctx, method=method, v_min=lo, v_max=hi), lo, hi


def point(ctx, lo, hi, inside=False):
    x, y, h = ctx.real('x', -1e6, 1e6), ctx.real('y', -1e6, 1e6), ctx.real('h', -1000, 1000)
    v = ctx.real('v', -1e5, 1e5)
    if inside:
        ctx.assume(ctx.And(v > lo + 0.01, v < hi - 0.01))
    else:
        for l in (lo, hi):
            ctx.assume(ctx.Or(v < l - 0.01, v > l + 0.01))
    return [x, y, h, v]


def want(ctx, s, u, lo, hi):
    _, _, h, v = s
    a = ctx.ite(v <= lo, ctx.Max(u[1], 0.0), u[1])
    a = ctx.ite(v >= hi, ctx.Min(a, 0.0), a)
    return [v * ctx.cos(h), v * ctx.sin(h), u[0], a]


def deriv(ctx, lims):
    e, lo, hi = make(ctx, lims)
    s, u = point(ctx, lo, hi), [ctx.real('w', -10, 10), ctx.real('a', -1e4, 1e4)]
    got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 1e9), ctx.arr(s), ctx.arr(u)))
    for g, w, n in zip(got, want(ctx, s, u, lo, hi), ('x rate', 'y rate', 'heading rate', 'acceleration')):
        ctx.close(n, g, w)
    ctx.close('ground speed squared', got[0] * got[0] + got[1] * got[1], s[3] * s[3])


def affine(ctx):
    d = ctx.mod('dubins').Dubins2dDynamics()
    s, u = point(ctx, 0.0, 1e9), [ctx.real('w', -10, 10), ctx.real('a', -1e4, 1e4)]
    f = ctx.flat(d.state_transition_system(ctx.arr(s)))
    ctx.closes('drift', f, [(s[3] * ctx.cos(s[2]), ), (s[3] * ctx.sin(s[2]), ), (0.0, ), (0.0, )])
    g = d.state_transition_input(ctx.arr(s))
    for i in range(4):
        ctx.close(f'control effect {i}', g[i, 0] * u[0] + g[i, 1] * u[1], (0.0, 0.0, u[0], u[1])[i])


def euler(ctx, lims):
    e, lo, hi = make(ctx, lims, 'Euler')
    s, u = point(ctx, lo, hi, True), [ctx.real('w', -0.174, 0.174), ctx.real('a', -96, 96)]
    ctx.assume(ctx.And(s[2] > -3, s[2] < 3))
    h = ctx.real('dt', 0.01, 2)
    e.state = ctx.arr(s)
    e.step(h, {'heading_rate': u[0], 'acceleration': u[1]})
    got = ctx.flat(e.state)
    ctx.close('x', got[0], s[0], h * s[3] * ctx.cos(s[2]))
    ctx.close('y', got[1], s[1], h * s[3] * ctx.sin(s[2]))
    turns_close(ctx, 'heading', got[2], s[2] + h * u[0], 1e-5)
    ctx.close('speed', got[3], ctx.Min(ctx.Max(s[3] + h * u[1], lo), hi))


def integrated(ctx, lims):
    e, lo, hi = make(ctx, lims)
    s, u = point(ctx, lo, hi), [ctx.real('w', -0.174, 0.174), ctx.real('a', -96, 96)]
    stub = OdeStub(ctx, 4, end=[1.0, 2.0, 0.5, 300.0])
    ctx.set_ode(stub)
    e.step(1.0, ctx.arr(u))
    got = ctx.flat(stub.calls[0]['deriv'](ctx.real('t', 0, 1), ctx.arr(s)))
    ctx.closes('integrated derivative', got, [(x, ) for x in want(ctx, s, u, lo, hi)])


def cases(tier):
    out = [Case('affine', affine)]
    for l in (False, True):
        t = 'limits' if l else 'default'
        out += [Case(f'derivative-{t}', deriv, dict(lims=l)), Case(f'euler-{t}', euler, dict(lims=l)), Case(f'integrated-{t}', integrated, dict(lims=l))]
    out += memory_cases('dub2d')
    return out

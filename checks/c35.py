"""C35: low-level controller."""
from checks.f16 import *

BOUNDS = ('every state of the envelope (speed 1..1e4, alpha within 6.3, beta within 3.1, heading within 100, roll and pitch within 20, rates within 20, altitude -2000..100000, integrators '
          'within 500), references within [-1000, 1000] (throttle -1..2); 3 successive calls on one or two controllers, the call after 12 (thorough 60) calls, and 300 (thorough 1030) calls in a row; 60 neighbouring states')


def ref(ctx, name='r'):
    return ctx.vec(name, 3, -1e3, 1e3) + [ctx.real(name + 'thr', -1, 2)]


def command(ctx, container):
    x, r = flight_state(ctx), ref(ctx)
    xa, ra = ctx.arr(x), ctx.arr(r) if container == 'array' else list(r)
    xc, u = llc(ctx).get_u_deg(ra, xa)
    c, want = controls(ctx, x, r)
    ctx.closes('controller input', ctx.flat(xc), [(v, ) for v in c])
    ctx.closes('command', ctx.flat(u), [(v, ) for v in want])
    for i, v in enumerate(ctx.flat(u)):
        ctx.check(ctx.And(v <= UHI[i], v >= ULO[i]), f'command {i} within its limits')
    ctx.closes('state untouched', ctx.flat(xa), [(v, ) for v in x])
    ctx.closes('reference untouched', ctx.flat(ra), [(v, ) for v in r])


def unsaturated(ctx):
    """inside the limits the feedback is exactly linear"""
    x, r = flight_state(ctx), ref(ctx)
    d = trim_delta(x)
    c = [d[i] for i in CTRL]
    raw = [total_([-k * v for k, v in zip(K[i], c) if k]) + UEQ[i + 1] for i in range(3)]
    for i in range(3):
        ctx.assume(ctx.And(raw[i] < UHI[i + 1] - 1e-3, raw[i] > ULO[i + 1] + 1e-3))
    _, u = llc(ctx).get_u_deg(ctx.arr(r), ctx.arr(x))
    ctx.closes('linear', ctx.flat(u)[1:], [tuple(-k * v for k, v in zip(K[i], c) if k) + (UEQ[i + 1], ) for i in range(3)])


def repeated(ctx, two):
    """no memory: later calls do not depend on earlier ones, trim values and gains are never changed"""
    m = ctx.mod(LOW + 'low_level_controller')
    a = m.LowLevelController()
    b = m.LowLevelController() if two else a
    x0, r0 = flight_state(ctx, name='p'), ref(ctx, 'q')
    _, first = a.get_u_deg(ctx.arr(r0), ctx.arr(x0))
    a.get_integrator_derivatives(ctx.arr(r0), x0[0], x0[1], x0[2])
    x, r = flight_state(ctx), ref(ctx)
    _, u = b.get_u_deg(ctx.arr(r), ctx.arr(x))
    ctx.closes('second command', ctx.flat(u), [(v, ) for v in controls(ctx, x, r)[1]])
    ctx.closes('first command afterwards', ctx.flat(first), [(v, ) for v in controls(ctx, x0, r0)[1]])
    xe = [m.LowLevelController.old_xequil, a.xequil, b.xequil, m.LowLevelController().xequil]
    for e in xe:
        ctx.closes('trim state', ctx.flat(e), [(v, ) for v in XEQ])
    for e in (m.LowLevelController.old_uequil, a.uequil, b.uequil):
        ctx.closes('trim control', ctx.flat(e), [(v, ) for v in UEQ])
    for e in (a.K_lqr, b.K_lqr):
        ctx.closes('gains', ctx.flat(e), [(v + 0.0, ) for row in K for v in row])


def series(ctx, n):
    """the n-th call on one controller"""
    a = llc(ctx)
    x0, r0 = flight_state(ctx, name='p'), [0.5, 0.1, 0.0, 0.3]
    xa = ctx.arr(x0)
    for k in range(n):
        a.get_u_deg(r0, xa)
        a.get_integrator_derivatives(r0, 1.5, 0.25, -0.5)
    x, r = flight_state(ctx), ref(ctx)
    xc, u = a.get_u_deg(ctx.arr(r), ctx.arr(x))
    c, want = controls(ctx, x, r)
    ctx.closes('controller input', ctx.flat(xc), [(v, ) for v in c])
    ctx.closes('command', ctx.flat(u), [(v, ) for v in want])
    d = a.get_integrator_derivatives(ctx.arr(r), x[0], x[1], x[2])
    ctx.closes('integrator derivatives', list(d), [(x[0], -r[0]), (x[1], -r[1]), (x[2], -r[2])])
    ctx.closes('state untouched', ctx.flat(xa), [(v, ) for v in x0])


def lifetime(ctx, n):
    """a controller used for long gives the same answers as at first"""
    a = llc(ctx)
    x, r = flight_state(ctx), ref(ctx)
    want = controls(ctx, x, r)[1]
    first = None
    for k in range(n):
        _, u = a.get_u_deg(ctx.arr(r), ctx.arr(x))
        d = a.get_integrator_derivatives(ctx.arr(r), x[0], x[1], x[2])
        u, d = ctx.flat(u), list(d)
        if first is None:
            first = u
            ctx.closes('command', u, [(v, ) for v in want])
        ctx.closes(f'command of call {k + 1}', u, [(v, ) for v in first])
        ctx.closes(f'integrator derivatives of call {k + 1}', d, [(x[0], -r[0]), (x[1], -r[1]), (x[2], -r[2])])


def near(ctx):
    """states and references that differ a little"""
    a, g = llc(ctx), ctx.real('g', 0.5, 1)
    for k, d in enumerate(offsets(6)):
        e = [d * 0.1 if k % n else 0.0 for n in (2, 3, 4, 5)]
        x = [510 + e[0], 0.051 + 0.1 * e[1], 0.012 + 0.1 * e[2], 0.4, 0.15, 0.8, 0.1 + e[1], 0.02 - 0.1 * e[0], -0.03 + e[3], 0.0, 0.0, 6100.0, 31.0, 0.05 + 0.1 * e[2], 0.02 - 0.1 * e[3], 0.03 + 0.1 * e[0]]
        r = [0.1, 0.2, 0.3, 0.41 + e[0]]
        xc, u = a.get_u_deg(ctx.arr(r), ctx.arr(x))
        c = [v - (XEQ[i] if i < 13 else 0.0) for i, v in zip(CTRL, (x[i] for i in CTRL))]
        raw = [r[3] + UEQ[0]] + [sum(-q * v for q, v in zip(row, c)) + w for row, w in zip(K, UEQ[1:])]
        ctx.closes(f'controller input, call {k}', [v * g for v in ctx.flat(xc)], [(v * g, ) for v in c], atol=1e-12)
        ctx.closes(f'command, call {k}', [v * g for v in ctx.flat(u)], [(min(max(v, lo), hi) * g, ) for v, lo, hi in zip(raw, ULO, UHI)], atol=1e-9)
        i = a.get_integrator_derivatives(ctx.arr(r), 1.5 + e[0], 0.25 + e[1], -0.5 + e[2])
        ctx.closes(f'integrator derivatives, call {k}', [v * g for v in i], [((1.5 + e[0] - r[0]) * g, ), ((0.25 + e[1] - r[1]) * g, ), ((-0.5 + e[2] - r[2]) * g, )], atol=1e-12)


def integrators(ctx):
    r = ref(ctx)
    nz, ps, ny = ctx.real('nz', -20, 20), ctx.real('ps', -20, 20), ctx.real('ny', -20, 20)
    c = llc(ctx)
    ctx.check(c.get_num_integrators() == 3, 'three integrators')
    for ra in (ctx.arr(r), list(r)):
        d = c.get_integrator_derivatives(ra, nz, ps, ny)
        ctx.closes('integrator derivatives', list(d), [(nz, -r[0]), (ps, -r[1]), (ny, -r[2])])


def limits(ctx):
    """changed limits of one controller are honoured and stay its own"""
    a, b = llc(ctx), llc(ctx)
    hi, lo = ctx.real('hi', 0.1, 1), ctx.real('lo', -1, -0.1)
    for n in ('Elevator', 'Aileron', 'Rudder'):
        setattr(a.ctrlLimits, n + 'MaxDeg', hi)
        setattr(a.ctrlLimits, n + 'MinDeg', lo)
    x, r = flight_state(ctx), ref(ctx)
    _, ua = a.get_u_deg(ctx.arr(r), ctx.arr(x))
    _, ub = b.get_u_deg(ctx.arr(r), ctx.arr(x))
    c, want = controls(ctx, x, r)
    ctx.closes('default limits', ctx.flat(ub), [(v, ) for v in want])
    for i in range(3):
        ctx.close(f'own limits {i}', ctx.flat(ua)[i + 1], clipped(ctx, [-k * v for k, v in zip(K[i], c) if k] + [UEQ[i + 1]], lo, hi))


def cases(tier):
    return [
        Case('command-array', command, dict(container='array')),
        Case('command-list', command, dict(container='list')),
        Case('unsaturated', unsaturated),
        Case('repeated', repeated, dict(two=False)),
        Case('repeated-two', repeated, dict(two=True)),
        Case('series-12', series, dict(n=12)),
        Case('series-60', series, dict(n=60), tier='thorough'),
        Case('lifetime-300', lifetime, dict(n=300)),
        Case('lifetime-1030', lifetime, dict(n=1030), tier='thorough'),
        Case('near', near),
        Case('integrators', integrators),
        Case('limits', limits),
    ]

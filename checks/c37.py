"""C37: trim constraints and trim cost."""
from checks.f16 import *

BOUNDS = ('all states of the envelope, throttles 0..1, controls within 30, constraint values within 1.4 (angles) and 2 (rates), arbitrary derivative within 1e2; '
          'all four flight conditions, both trim vectors, both models, with and without side-acceleration adjustment; 130 neighbouring trim vectors in a row')


def const(ctx, orient):
    singam = ctx.real('singam', -0.95, 0.95)
    radgam = ctx.real('radgam', -1.4, 1.4)
    rr, pr, tr = ctx.vec('rate', 3, -2, 2)
    phi, thetadot = ctx.real('phi_c', -1.4, 1.4), ctx.real('thetadot', -2, 2)
    return (radgam, singam, rr, pr, tr, phi, ctx.cos(phi), ctx.sin(phi), thetadot, 0.0, 0.0, orient)


def gear(ctx, t):
    return ctx.ite(t <= 0.77, 64.94 * t, 217.38 * t - 117.38)


def constrained(ctx, x, u, c):
    """the state after the constraints"""
    radgam, _, rr, pr, tr, phi, _, _, thetadot, _, _, orient = c
    y = list(x)
    if orient in (1, 2, 4):
        y[3] = phi
        y[4] = x[1] + radgam if orient == 2 else x[1]
        y[6], y[7], y[8] = rr, thetadot if orient == 4 else pr, 0.0
    else:
        y[6] = -tr * ctx.sin(x[4])
        y[7] = tr * ctx.cos(x[4]) * ctx.sin(x[3])
        y[8] = tr * ctx.cos(x[4]) * ctx.cos(x[3])
    y[12] = gear(ctx, u[0])
    return y


def conf(ctx, orient):
    x = flight_state(ctx, 13)
    u = [ctx.real('thr', 0, 1)] + ctx.vec('u', 3, -30, 30)
    c = const(ctx, orient)
    xa, ua = ctx.arr(x), ctx.arr(u)
    xr, ur = ctx.mod(LOW + 'conf16').conf16(xa, ua, c)
    want = constrained(ctx, x, u, c)
    ctx.closes('state', ctx.flat(xr), [(v, ) for v in want])
    ctx.closes('controls', ctx.flat(ur), [(v, ) for v in u])
    ctx.closes('in place', ctx.flat(xa), [(v, ) for v in want])


def cost(ctx, d, x, c):
    _, singam, _, _, tr, _, _, _, thetadot, _, _, orient = c
    sq = lambda *i: [d[k] * d[k] for k in i]  # noqa: E731
    if orient == 1:
        return [100.0 * v for v in sq(0, 1, 2, 6, 7, 8)]
    if orient == 2:
        climb = d[11] - x[0] * singam
        return [500.0 * climb * climb] + sq(0) + [100.0 * v for v in sq(1, 2)] + [10.0 * v for v in sq(6, 7, 8)]
    if orient == 3:
        turn = d[5] - tr
        return sq(0) + [100.0 * v for v in sq(1, 2, 11)] + [10.0 * v for v in sq(6, 7, 8)] + [500.0 * turn * turn]
    pull = d[4] - thetadot
    return [500.0 * pull * pull] + sq(0) + [100.0 * v for v in sq(1, 2)] + [10.0 * v for v in sq(6, 7, 8)]


def objective(ctx, orient, seven, model, adjust, trimmed=False):
    x = flight_state(ctx, 13)
    u = [ctx.real('thr', 0, 1)] + ctx.vec('u', 3, -30, 30)
    s = [ctx.real('s0', 0, 1), ctx.real('s1', -30, 30)]
    s += [ctx.real('s2', -30, 30), ctx.real('s3', -30, 30), ctx.real('s4', -0.8, 1.2), ctx.real('s5', -3, 3), ctx.real('s6', -1.4, 1.4)] if seven else [ctx.real('s2', -0.8, 1.2)]
    c = const(ctx, orient)
    d = ctx.vec('xd', 13, -100, 100)
    m = ctx.mod(LOW + 'clf16')
    plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', d, lambda v: (ctx.arr(v), 0.25, 0.5, 0.75, 1.0))
    y, w = list(x), list(u)
    w[0], w[1] = s[0], s[1]
    if seven:
        w[2], w[3], y[1], y[3], y[4] = s[2:]
    else:
        y[1] = s[2]
    y = constrained(ctx, y, w, c)
    parts = cost(ctx, d, y, c)
    r = total_(parts)
    if trimmed:
        idx = {1: (0, 1, 2, 6, 7, 8), 2: (0, 1, 2, 6, 7, 8), 3: (0, 1, 2, 6, 7, 8, 11), 4: (0, 1, 2, 6, 7, 8)}[orient]
        for k in idx:
            ctx.assume(d[k] == 0)
        if orient == 2:
            ctx.assume(d[11] == y[0] * c[1])
        if orient == 3:
            ctx.assume(d[5] == c[4])
        if orient == 4:
            ctx.assume(d[4] == c[8])
    xa, ua = ctx.arr(x), ctx.arr(u)
    k = {} if model is None else dict(model=model)
    if adjust is not None:
        k['adjust_cy'] = adjust
    with replaced(plant):
        got = m.clf16(ctx.arr(s), xa, ua, c, **k)
    ctx.check(len(plant.calls) >= 1, 'the aircraft model is evaluated')
    plant.result(y, w, model or 'stevens', True if adjust is None else adjust)
    ctx.closes('controls in place', ctx.flat(ua), [(v, ) for v in w])
    ctx.closes('state in place', ctx.flat(xa), [(v, ) for v in y])
    if trimmed:
        ctx.close('trimmed costs nothing', got, 0.0, atol=1e-5)
        return
    if ctx.branch(r >= 1.0001):
        ctx.close('cost', got, *parts)
    elif ctx.branch(r <= 0.9999):
        ctx.close('cost below one', got * got, *parts)
        ctx.check(got >= 0, 'not negative')


def near(ctx, orient, seven):
    """the cost of trim vectors that differ a little, as a minimiser asks for it, many times over"""
    m = ctx.mod(LOW + 'clf16')
    d = ctx.vec('xd', 13, 1, 100)
    x0, u0 = [502.0, 0.04, 0.0, 0.1, 0.04, 0.2, 0.0, 0.0, 0.0, 10.0, 20.0, 1000.0, 9.0], [0.14, -0.75, 0.1, 0.2]
    xa, ua = ctx.arr(x0), ctx.arr(u0)
    for k, e in enumerate(offsets(13)):
        e *= 0.3
        b = lambda n: e if k % n else 0.0  # noqa: E731
        s = [0.3 + b(2), -1.0 + b(3)] + ([0.2 + b(4), 0.1 + b(5), 0.05 + b(2), 0.3 + b(3), 0.1 + b(2)] if seven else [0.05 + b(2)])
        c = (0.1, math.sin(0.1), 0.2, 0.05, 0.15, 0.1, math.cos(0.1), math.sin(0.1), 0.12, 0.0, 0.0, orient)
        dk = [v * (1 + 1e-3 * k) for v in d]
        plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', dk, lambda v: (ctx.arr(v), 0.25, 0.5, 0.75, 1.0))
        y, w = list(x0), list(u0)
        w[0], w[1] = s[0], s[1]
        if seven:
            w[2], w[3], y[1], y[3], y[4] = s[2:]
        else:
            y[1] = s[2]
        y[0] = 502.0
        y = constrained(ctx, y, w, c)
        with replaced(plant):
            got = m.clf16(ctx.arr(s), xa, ua, c)
        plant.result(y, w, 'stevens', True)
        ctx.closes(f'controls, call {k}', ctx.flat(ua), [(v, ) for v in w])
        ctx.closes(f'state, call {k}', ctx.flat(xa), [(v, ) for v in y])
        ctx.close(f'cost, call {k}', got, *cost(ctx, dk, y, c))


def cases(tier):
    out = []
    for o in (1, 2, 3, 4):
        out.append(Case(f'conf-{o}', conf, dict(orient=o)))
        for seven in (False, True):
            for model, adjust in ((None, None), ('stevens', False), ('morelli', True), ('morelli', False)):
                out.append(Case(f'cost-{o}-{7 if seven else 3}-{model}-{adjust}', objective, dict(orient=o, seven=seven, model=model, adjust=adjust)))
        out += [Case(f'near-{o}-{7 if s else 3}', near, dict(orient=o, seven=s), opts=dict(max_decisions=20000)) for s in (False, True)]
        out.append(Case(f'trimmed-{o}', objective, dict(orient=o, seven=False, model=None, adjust=None, trimmed=True)))
    return out

"""C36: closed-loop F-16."""
from checks.f16 import *

BOUNDS = ('every state of the envelope (speed 1..1e4, alpha within 6.3, beta within 3.1, heading within 100, roll and pitch within 20, rates within 20, integrators within 500), references '
          'within [-1000, 1000] (throttle -1..2), arbitrary aircraft derivative within 1e3 and load factors within 20; 130 evaluations in a row; 60 neighbouring states')


def wiring(ctx, model, v2):
    x = flight_state(ctx)
    r = ctx.vec('r', 3, -1e3, 1e3) + [ctx.real('rthr', -1, 2)]
    xd = ctx.vec('xd', 13, -1e3, 1e3)
    if v2:
        ctx.assume(ctx.And(xd[1] < 6, xd[1] > -6))
    out = ctx.vec('out', 4, -20, 20)  # nz, ny, az, ay
    m = ctx.mod(AB + 'controlled_f16')
    plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', xd + out, lambda v: (ctx.arr(v[:13]), v[13], v[14], v[15], v[16]))
    xa, ra = ctx.arr(x), ctx.arr(r)
    k = {} if model is None else dict(f16_model=model)
    if v2:
        k['v2_integrators'] = True
    with replaced(plant):
        d, u, nz, ps, nyr = m.controlled_f16(xa, ra, llc(ctx), **k)
    c, cmd = controls(ctx, x, r)
    ctx.check(len(plant.calls) >= 1, 'the aircraft model is evaluated')
    plant.result(x[:13], cmd, model or 'morelli')
    if v2:
        p = (xd[6] * ctx.cos(xd[1]), xd[8] * ctx.sin(xd[1]))
        n = (out[1], xd[8])
    else:
        p = (c[4] * ctx.cos(c[0]), c[5] * ctx.sin(c[0]))
        n = (out[1], c[5])
    ctx.close('roll rate', ps, *p)
    ctx.close('side term', nyr, *n)
    ctx.close('load factor', nz, out[0])
    ctx.closes('derivative', ctx.flat(d), [(v, ) for v in xd] + [(out[0], -r[0]), p + (-r[1], ), n + (-r[2], )])
    ctx.closes('controls', ctx.flat(u), [(cmd[0], )] + [(v * PI / 180, ) for v in cmd[1:]] + [(v, ) for v in r[:3]])
    ctx.closes('state untouched', ctx.flat(xa), [(v, ) for v in x])
    ctx.closes('reference untouched', ctx.flat(ra), [(v, ) for v in r])


def independent(ctx):
    """a second evaluation does not depend on the first"""
    m = ctx.mod(AB + 'controlled_f16')
    xd = ctx.vec('xd', 13, -1e3, 1e3)
    out = ctx.vec('out', 4, -20, 20)
    plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', xd + out, lambda v: (ctx.arr(v[:13]), v[13], v[14], v[15], v[16]))
    c = llc(ctx)
    x, y = flight_state(ctx), flight_state(ctx, name='y')
    r = ctx.vec('r', 3, -1e3, 1e3) + [ctx.real('rthr', -1, 2)]
    q = ctx.vec('q', 3, -1e3, 1e3) + [ctx.real('qthr', -1, 2)]
    with replaced(plant):
        d1, u1 = m.controlled_f16(ctx.arr(y), ctx.arr(q), c)[:2]
        plant.calls.clear()
        d2, u2 = m.controlled_f16(ctx.arr(x), ctx.arr(r), c)[:2]
    cmd = controls(ctx, x, r)[1]
    plant.result(x[:13], cmd, 'morelli')
    ctx.closes('controls', ctx.flat(u2), [(cmd[0], )] + [(v * PI / 180, ) for v in cmd[1:]] + [(v, ) for v in r[:3]])
    ctx.closes('load factor integrator', [ctx.flat(d1)[13], ctx.flat(d2)[13]], [(out[0], -q[0]), (out[0], -r[0])])
    first = controls(ctx, y, q)[1]
    ctx.closes('first controls afterwards', ctx.flat(u1), [(first[0], )] + [(v * PI / 180, ) for v in first[1:]] + [(v, ) for v in q[:3]])


def refused(ctx):
    m = ctx.mod(AB + 'controlled_f16')
    x = flight_state(ctx)
    r = ctx.vec('r', 4, -1, 1)
    ctx.expect_raise(lambda: m.controlled_f16(ctx.arr(x), ctx.arr(r), llc(ctx), f16_model='other'), 'AssertionError', 'unknown model')
    ctx.expect_raise(lambda: m.controlled_f16(ctx.arr(x), ctx.arr(r[:3]), llc(ctx)), 'AssertionError', 'three references')


def lifetime(ctx, n):
    """many evaluations with one controller: the last is like the first"""
    m = ctx.mod(AB + 'controlled_f16')
    xd, out = ctx.vec('xd', 13, -1e3, 1e3), ctx.vec('out', 4, -20, 20)
    plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', xd + out, lambda v: (ctx.arr(v[:13]), v[13], v[14], v[15], v[16]))
    c, x = llc(ctx), flight_state(ctx)
    r = ctx.vec('r', 3, -1e3, 1e3) + [ctx.real('rthr', -1, 2)]
    first = None
    with replaced(plant):
        for k in range(n):
            plant.calls.clear()
            d, u, nz, ps, nyr = m.controlled_f16(ctx.arr(x), ctx.arr(r), c)
            now = ctx.flat(d) + ctx.flat(u) + [nz, ps, nyr]
            first = first or now
            ctx.closes(f'evaluation {k + 1}', now, [(v, ) for v in first])


def near(ctx, v2):
    """states, references and aircraft derivatives that differ a little"""
    m = ctx.mod(AB + 'controlled_f16')
    a, g = llc(ctx), ctx.real('g', 0.5, 1)
    for k, d in enumerate(offsets(6)):
        e = [d * 0.1 if k % n else 0.0 for n in (2, 3, 4, 5)]
        x = [510 + e[0], 0.051 + 0.1 * e[1], 0.012 + 0.1 * e[2], 0.4, 0.15, 0.8, 0.1 + e[1], 0.02 - 0.1 * e[0], -0.03 + e[3], 0.0, 0.0, 6100.0, 31.0, 0.05 + 0.1 * e[2], 0.02 - 0.1 * e[3], 0.03 + 0.1 * e[0]]
        r = [0.1 + e[1], 0.2 + e[2], 0.3 + e[3], 0.41 + e[0]]
        xd = [g * (i + 1) if i not in (1, 6) else 0.07 * i + e[0] for i in range(13)]
        out = [1.1 + e[1], 0.2 + e[2], 3.0, 4.0]
        plant = Arbitrary(ctx, LOW + 'subf16_model', 'subf16_model', xd + out, lambda v: (ctx.arr(v[:13]), v[13], v[14], v[15], v[16]))
        with replaced(plant):
            dx, u, nz, ps, nyr = m.controlled_f16(ctx.arr(x), ctx.arr(r), a, v2_integrators=v2)
        c = [v - (XEQ[i] if i < 13 else 0.0) for i, v in zip(CTRL, (x[i] for i in CTRL))]
        raw = [r[3] + UEQ[0]] + [sum(-q * v for q, v in zip(row, c)) + w for row, w in zip(K, UEQ[1:])]
        cmd = [min(max(v, lo), hi) for v, lo, hi in zip(raw, ULO, UHI)]
        plant.result(x[:13], cmd, 'morelli')
        p = (xd[6] * math.cos(xd[1]), xd[8] * math.sin(xd[1])) if v2 else (c[4] * math.cos(c[0]), c[5] * math.sin(c[0]))
        n = (out[1], xd[8] if v2 else c[5])
        want = [(v, ) for v in xd] + [(out[0], -r[0]), p + (-r[1], ), n + (-r[2], )]
        ctx.closes(f'derivative, evaluation {k}', [v * g for v in ctx.flat(dx)], [tuple(t * g for t in w) for w in want], rel=1e-9)
        ctx.closes(f'controls, evaluation {k}', [v * g for v in ctx.flat(u)], [(cmd[0] * g, )] + [(v * PI / 180 * g, ) for v in cmd[1:]] + [(v * g, ) for v in r[:3]], atol=1e-9)
        ctx.closes(f'outputs, evaluation {k}', [nz * g, ps * g, nyr * g], [(out[0] * g, ), tuple(t * g for t in p), tuple(t * g for t in n)], rel=1e-9)


def cases(tier):
    out = [Case('lifetime', lifetime, dict(n=130)), Case('independent', independent), Case('refused', refused)]
    out += [Case(f'near-{"v2" if v else "v1"}', near, dict(v2=v), opts=dict(max_decisions=20000)) for v in (False, True)]
    for model in (None, 'stevens', 'morelli'):
        for v2 in (False, True):
            out.append(Case(f'wiring-{model}-{"v2" if v2 else "v1"}', wiring, dict(model=model, v2=v2)))
    return out

"""C44: the table-based F-16 is left-right symmetric."""
from checks.c28 import alpha, fn, within
from checks.c32 import *

BOUNDS = ('tables: every angle of attack in [-10, 45], sideslip within 30 deg, surfaces within their limits; rigid body: every state of the envelope of C32 with '
          'arbitrary symmetric coefficients (lower levels replaced by arbitrary functions); controller: every state and reference of C35; the whole model without aileron and rudder at one flight condition and every sideslip within 30 deg')
MIRROR = (1, 1, -1, -1, 1, -1, -1, 1, -1, 1, -1, 1, 1, 1, -1, -1)  # sideslip, roll, yaw, roll and yaw rate, east, side integrators change sign


def table(ctx, name, i, lo, hi):
    """rolling and yawing moment are odd in sideslip"""
    a, _, _ = alpha(ctx, lo, hi)
    b = ctx.real('beta', 0, 30)
    within(ctx, b, 5 * i, 5, 30)
    ctx.close(name, fn(ctx, name)(a, -b), -fn(ctx, name)(a, b))


def straight(ctx, name, lo, hi):
    """no rolling or yawing moment without sideslip"""
    a, _, _ = alpha(ctx, lo, hi)
    ctx.close(name, fn(ctx, name)(a, 0.0), 0.0)


def lift(ctx, lo, hi):
    a, _, _ = alpha(ctx, lo, hi)
    b, e = ctx.real('beta', 0, 30), ctx.real('el', -25, 25)
    ctx.close('cz', fn(ctx, 'cz')(a, -b, e), fn(ctx, 'cz')(a, b, e))


def side(ctx):
    b, a, r = ctx.real('beta', -90, 90), ctx.real('ail', -21.5, 21.5), ctx.real('rdr', -30, 30)
    f = fn(ctx, 'cy')
    ctx.close('cy', f(-b, -a, -r), -f(b, a, r))


class Mirrored:
    """the same lower levels for the mirrored flight condition"""

    def __init__(self, ctx, look):
        self.all = []
        for s in look.all:
            v = list(s.values)
            if s.attr in ('cy', 'cl', 'cn'):
                v = [-x for x in v]
            self.all.append(Arbitrary(ctx, LOW + s.attr, s.attr, v, s.shape))


def body_(ctx, adjust, part):
    x = flight_state(ctx, 13)
    u = [ctx.real('thr', 0, 1), ctx.real('el', -25, 25), ctx.real('ail', -21.5, 21.5), ctx.real('rdr', -30, 30)]
    look = Lookups(ctx, 'stevens')
    m = ctx.mod(LOW + 'subf16_model').subf16_model
    k = {} if adjust is None else dict(adjust_cy=adjust)
    with replaced(*look.all):
        one = m(ctx.arr(x), ctx.arr(u), 'stevens', **k)
    with replaced(*Mirrored(ctx, look).all):
        two = m(ctx.arr([s * v for s, v in zip(MIRROR, x)]), ctx.arr([u[0], u[1], -u[2], -u[3]]), 'stevens', **k)
    d1, d2 = ctx.flat(one[0]), ctx.flat(two[0])
    q, r = x[7], x[8]
    # the engine's angular momentum is the one thing that does not mirror
    spin = {6: 2 * C[4] * HE * q, 7: 2 * C[7] * HE * r, 8: 2 * C[9] * HE * q}
    names = ('speed', 'angle of attack', 'sideslip', 'roll', 'pitch', 'yaw', 'roll acceleration', 'pitch acceleration', 'yaw acceleration', 'north', 'east', 'climb',
             'power')
    for i, nm in enumerate(names):
        if (i in (0, 1, 2, 12)) == (part == 'force'):
            ctx.close(nm + ' of the mirror image', d2[i], MIRROR[i] * d1[i], spin.get(i, 0.0), rel=1e-5, atol=1e-6)
    if part != 'force':
        (_, nz1, ny1, az1, ay1), (_, nz2, ny2, az2, ay2) = one, two
        ctx.close('normal acceleration of the mirror image', az2, az1, -XA * spin[7], rel=1e-5, atol=1e-6)
        ctx.close('load factor of the mirror image', nz2, nz1, XA * spin[7] / G, rel=1e-5, atol=1e-6)
        s = 0.0 if adjust is False else XA * spin[8]
        ctx.close('side acceleration of the mirror image', ay2, -ay1, s, rel=1e-5, atol=1e-6)
        ctx.close('side load of the mirror image', ny2, -ny1, s / G, rel=1e-5, atol=1e-6)


def whole(ctx, lo, hi, adjust):
    """the model with its own tables, every sideslip and one flight condition"""
    b = ctx.real('beta', 0, 0.53)
    ctx.assume(ctx.And(b >= lo, b <= hi))
    x = [480.0, 0.19, b, 0.3, 0.12, 0.7, 0.2, 0.0, 0.0, 0.0, 0.0, 4200.0, 37.0]
    u = [0.4, -3.0, 0.0, 0.0]  # the published effectiveness of aileron and rudder is not symmetric
    m = ctx.mod(LOW + 'subf16_model').subf16_model
    one = m(ctx.arr(x), ctx.arr(u), 'stevens', adjust_cy=adjust)
    two = m(ctx.arr([s * v for s, v in zip(MIRROR, x)]), ctx.arr([u[0], u[1], -u[2], -u[3]]), 'stevens', adjust_cy=adjust)
    for i, (p, q) in enumerate(zip(ctx.flat(two[0]), ctx.flat(one[0]))):
        ctx.close(f'derivative[{i}] of the mirror image', p, MIRROR[i] * q, rel=1e-5, atol=1e-6)
    for nm, p, q, s in zip(('normal load', 'side load', 'normal acceleration', 'side acceleration'), two[1:], one[1:], (1, -1, 1, -1)):
        ctx.close(nm + ' of the mirror image', p, s * q, rel=1e-5, atol=1e-6)


def feedback(ctx):
    x, r = flight_state(ctx), ctx.vec('r', 3, -1e3, 1e3) + [ctx.real('thr', -1, 2)]
    c = llc(ctx)
    _, u = c.get_u_deg(ctx.arr(r), ctx.arr(x))
    xm, rm = [s * v for s, v in zip(MIRROR, x)], [r[0], -r[1], -r[2], r[3]]
    _, v = c.get_u_deg(ctx.arr(rm), ctx.arr(xm))
    u, v = ctx.flat(u), ctx.flat(v)
    for nm, a, b, s in zip(('throttle', 'elevator', 'aileron', 'rudder'), v, u, (1, 1, -1, -1)):
        ctx.close(f'{nm} of the mirror image', a, s * b)
    nz, ps, ny = ctx.vec('o', 3, -20, 20)
    d, e = list(c.get_integrator_derivatives(r, nz, ps, ny)), list(c.get_integrator_derivatives(rm, nz, -ps, -ny))
    for nm, a, b, s in zip(('load factor', 'roll', 'side'), e, d, (1, -1, -1)):
        ctx.close(f'{nm} integrator of the mirror image', a, s * b)


def cases(tier):
    out = [Case('side', side), Case('feedback', feedback)]
    o = dict(witnesses=4, eager_int=True)
    for lo, hi in ((0, 4), (4, 8), (8, 11)):
        p, s = dict(lo=lo, hi=hi), f'{lo}-{hi}'
        out.append(Case(f'cz-{s}', lift, p, opts=o))
        for n in ('cl', 'cn'):
            out += [Case(f'{n}-{i}-{s}', table, dict(p, name=n, i=i), opts=o) for i in range(6)]
            out.append(Case(f'{n}-straight-{s}', straight, dict(p, name=n), opts=o))
    for i in range(6):
        out.append(Case(f'whole-{i}', whole, dict(lo=i * 5 / 57.29578, hi=(i + 1) * 5 / 57.29578, adjust=bool(i % 2)), opts=o))
    for adjust in (None, False):
        for part in ('force', 'motion'):
            out.append(Case(f'body-{adjust}-{part}', body_, dict(adjust=adjust, part=part), tier='quick' if adjust is None or part == 'motion' else 'thorough'))
    return out

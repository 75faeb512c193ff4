"""C29: engine thrust map."""
from checks import f16_tables as T
from checks.c28 import fn, within
from checks.common import *

BOUNDS = ('every altitude 0..50000 ft, Mach 0..1 and power 0..100, split into the 25 map cells and the idle-military / military-maximum ranges; '
          'outside the map: altitude -5000..150000, Mach up to 4, power up to 150; 60 neighbouring conditions in a row')


def cell(ctx, i):
    m = ctx.choice('mach cell', list(range(5)))
    alt, mach = ctx.real('alt', 0, 50000), ctx.real('mach', 0, 1)
    within(ctx, alt, 10000 * i, 10000, 50000)
    within(ctx, mach, 0.2 * m, 0.2, 1.0)
    return alt, mach, i, m, alt / 10000 - i, 5 * mach - m


def at(t, i, m, f, g):
    a, b, c, d = t[m][i], t[m][i + 1], t[m + 1][i], t[m + 1][i + 1]
    return (a + 0.0, f * (b - a), g * (c - a), f * g * (d - b - c + a))


def thrust(ctx, low, i):
    alt, mach, i, m, f, g = cell(ctx, i)
    p = ctx.real('power', 0, 50) if low else ctx.real('power', 50, 100)
    mil, other = at(T.MIL, i, m, f, g), at(T.IDLE if low else T.MAX, i, m, f, g)
    w = p / 50 if low else 2 - p / 50  # weight of military thrust
    ctx.close('thrust', fn(ctx, 'thrust')(p, alt, mach), *[w * x for x in mil], *[(1 - w) * x for x in other])


def outside(ctx, low, where):
    """beyond the map the outermost cells are continued; below sea level counts as sea level"""
    alt = ctx.real('alt', *(dict(high=(50000, 150000), deep=(-5000, 0)).get(where, (0, 50000))))
    mach = ctx.real('mach', *((1, 4) if where == 'fast' or where == 'high' else (0, 1)))
    i = 4 if where == 'high' else (0 if where == 'deep' else ctx.choice('i', list(range(5))))
    m = 4 if where in ('fast', 'high') else ctx.choice('m', list(range(5)))
    if where == 'deep':
        ctx.assume(alt < 0)
    elif where != 'high':
        within(ctx, alt, 10000 * i, 10000, 50000)
    if where not in ('fast', 'high'):
        within(ctx, mach, 0.2 * m, 0.2, 1.0)
    p = ctx.real('power', 0, 50) if low else ctx.real('power', 100 if where == 'power' else 50, 150)
    f, g = (0.0 if where == 'deep' else alt / 10000 - i), 5 * mach - m
    mil, other = at(T.MIL, i, m, f, g), at(T.IDLE if low else T.MAX, i, m, f, g)
    w = p / 50 if low else 2 - p / 50
    ctx.close('thrust', fn(ctx, 'thrust')(p, alt, mach), *[w * x for x in mil], *[(1 - w) * x for x in other], rel=1e-5, atol=0.1)


def anchors(ctx, i):
    """published values at idle, military and maximum power on every breakpoint"""
    m = ctx.choice('m', list(range(6)))
    for p, t in ((0.0, T.IDLE), (50.0, T.MIL), (100.0, T.MAX)):
        ctx.close(f'power {p}', fn(ctx, 'thrust')(p, 10000.0 * i, 0.2 * m), t[m][i] + 0.0, atol=1e-6)


def near(ctx, low):
    """thrust asked for altitudes, Mach numbers and power settings that differ a little"""
    p = ctx.real('power', 1, 49) if low else ctx.real('power', 51, 99)
    for k, d in enumerate(offsets(6)):
        alt, mach = (13000.0 + 1000 * d * (k % 2), 0.53 + 0.1 * d * (k % 3 > 0))
        q = p + d * (k % 4 == 3)
        mil, other = at(T.MIL, 1, 2, alt / 10000 - 1, 5 * mach - 2), at(T.IDLE if low else T.MAX, 1, 2, alt / 10000 - 1, 5 * mach - 2)
        w = q / 50 if low else 2 - q / 50
        ctx.close(f'thrust, call {k}', fn(ctx, 'thrust')(q, alt, mach), *[w * x for x in mil], *[(1 - w) * x for x in other], rel=1e-9)


def cases(tier):
    o = dict(witnesses=6, eager_int=True)
    out = [Case(f'near-{n}', near, dict(low=n == 'low'), opts=dict(o, max_decisions=20000)) for n in ('low', 'high')]
    for i in range(6):
        out.append(Case(f'anchors-{i}', anchors, dict(i=i), opts=o))
    for i in range(5):
        out.append(Case(f'low-{i}', thrust, dict(low=True, i=i), opts=o))
        out.append(Case(f'high-{i}', thrust, dict(low=False, i=i), opts=o))
    for where in ('high', 'deep', 'fast', 'power'):
        for low in (True, False):
            if where != 'power' or not low:
                out.append(Case(f'outside-{where}-{"low" if low else "high"}', outside, dict(low=low, where=where), opts=o))
    return out

"""C31: air data."""
from checks.c28 import fn
from checks.common import *

BOUNDS = 'every altitude -1000..140000 ft and speed 0..5000 ft/s; the power function is uninterpreted (positive, functional), its arguments exact; 100 neighbouring altitudes in a row, at three altitudes'


def parts(ctx):
    alt, vt = ctx.real('alt', -1000, 140000), ctx.real('vt', 0, 5000)
    m, q = fn(ctx, 'adc')(vt, alt)
    return alt, vt, m, q, 1 - 0.703e-5 * alt


def mach(ctx):
    alt, vt, m, _, tf = parts(ctx)
    t = ctx.ite(alt >= 35000, 390.0, 519 * tf)
    ctx.close('mach', m, vt / ctx.sqrt(1.4 * 1716.3 * t))


def speed_of_sound(ctx):
    alt, vt, m, _, tf = parts(ctx)
    ctx.assume(vt >= 1)
    t = ctx.ite(alt >= 35000, 390.0, 519 * tf)
    ctx.close('squared', m * m * (1.4 * 1716.3) * t, vt * vt)
    ctx.check(m > 0, 'positive')


def pressure(ctx):
    _, vt, _, q, tf = parts(ctx)
    ctx.close('dynamic pressure', q, 0.5 * 2.377e-3 * ctx.pow(tf, 4.14) * vt * vt)
    ctx.check(q >= 0, 'not negative')


def sea_level(ctx):
    vt = ctx.real('vt', 0, 5000)
    m, q = fn(ctx, 'adc')(vt, 0.0)
    ctx.close('sea level', q, 0.5 * 2.377e-3 * vt * vt)
    ctx.close('sea level mach', m, vt / 1116.7186, rel=1e-4)


def near(ctx):
    """air data asked for altitudes that differ a little"""
    vt = ctx.real('vt', 1, 5000)
    for base in (9000.0, 35000.0, 51000.0):
        for d in offsets(10):
            alt = base + d
            m, q = fn(ctx, 'adc')(vt, alt)
            tf = 1 - 0.703e-5 * alt
            ctx.close(f'mach at {alt}', m, vt / math.sqrt(1.4 * 1716.3 * (390.0 if alt >= 35000 else 519 * tf)), rel=1e-9)
            ctx.close(f'dynamic pressure at {alt}', q, 0.5 * 2.377e-3 * tf**4.14 * vt * vt, rel=1e-9)
    for d in offsets(10):
        m, q = fn(ctx, 'adc')(600 + d, 9000.0)
        ctx.close(f'mach at speed {600 + d}', m, (600 + d) / math.sqrt(1.4 * 1716.3 * 519 * (1 - 0.703e-5 * 9000)), rel=1e-9)


def cases(tier):
    return [Case(f.__name__, f) for f in (mach, speed_of_sound, pressure, sea_level)] + [Case('near', near, opts=dict(max_decisions=20000))]

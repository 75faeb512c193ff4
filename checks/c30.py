"""C30: throttle gearing and engine lag."""
from checks.c28 import fn
from checks.common import *

BOUNDS = 'every throttle in [-1, 2], power and commanded power in [-20, 150], power difference in [-200, 200]; 60 neighbouring settings in a row'


def tgear(ctx):
    t = ctx.real('throttle', -1, 2)
    ctx.close('commanded power', fn(ctx, 'tgear')(t), ctx.ite(t <= 0.77, 64.94 * t, 217.38 * t - 117.38))


def gear_grows(ctx):
    t, d = ctx.real('throttle', 0, 1), ctx.real('d', 1e-2, 1)
    ctx.assume(t + d <= 1)
    a, b = fn(ctx, 'tgear')(t), fn(ctx, 'tgear')(t + d)
    ctx.check(ctx.And(a < b, a >= -1e-6, b <= 100 + 1e-6), 'idle to full power, increasing')


def lag(d, ctx):
    return ctx.ite(d <= 25, 1.0, ctx.ite(d >= 50, 0.1, 1.9 - 0.036 * d))


def rtau(ctx):
    d = ctx.real('d', -200, 200)
    ctx.close('inverse time constant', fn(ctx, 'rtau')(d), lag(d, ctx))


def pdot(ctx):
    p, c = ctx.real('power', -20, 150), ctx.real('command', -20, 150)
    target = ctx.ite(c >= 50, ctx.ite(p >= 50, c, 60.0), ctx.ite(p >= 50, 40.0, c))
    k = ctx.ite(p >= 50, 5.0, lag(target - p, ctx))
    r = fn(ctx, 'pdot')(p, c)
    ctx.close('power rate', r, k * target, -k * p)


def towards(ctx):
    p, c = ctx.real('power', -20, 150), ctx.real('command', -20, 150)
    r = fn(ctx, 'pdot')(p, c)
    ctx.check(ctx.And(ctx.Iff(r > 0, c > p), ctx.Iff(r < 0, c < p)), 'towards the command')


def near(ctx):
    """throttles and power settings that differ a little"""
    g = ctx.real('g', 0.5, 1)
    for k, d in enumerate(offsets(6)):
        for t in (0.41 + d, 0.86 + 0.1 * d):
            ctx.close(f'commanded power, call {k}', fn(ctx, 'tgear')(t) * g, (64.94 * t if t <= 0.77 else 217.38 * t - 117.38) * g, rel=1e-9)
        for x in (12.0 + d, 36.0 + d, 70.0 + d):
            l = 1.0 if x <= 25 else 0.1 if x >= 50 else 1.9 - 0.036 * x
            ctx.close(f'inverse time constant, call {k}', fn(ctx, 'rtau')(x) * g, l * g, rel=1e-9)
        for p, c in ((20.0 + d, 34.0), (20.0, 31.0 + d), (20.0 + d, 80.0 + d), (60.0 + d, 81.0 - d), (60.0 - d, 20.0 + d)):
            t = (c if p >= 50 else 60.0) if c >= 50 else 40.0 if p >= 50 else c
            x = t - p
            r = 5.0 if p >= 50 else 1.0 if x <= 25 else 0.1 if x >= 50 else 1.9 - 0.036 * x
            ctx.close(f'power rate, call {k}', fn(ctx, 'pdot')(p, c) * g, r * t * g, -r * p * g, rel=1e-9)


def cases(tier):
    return [Case(f.__name__, f) for f in (tgear, gear_grows, rtau, pdot, towards, near)]

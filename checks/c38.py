"""C38: fixed-step Euler integrator."""
import numpy as np

from checks.f16 import *

BOUNDS = ('every start times within 1e9, step 0.01..10, end time up to 5 (thorough 8) whole steps and an arbitrary fraction of a step later, 3 states, arbitrary '
          'derivatives within 1e3; runs of 40, 101 and 130 steps (thorough 600) of 0.25 with any constant derivative; fractions within 1e-6 of 0 or 1 only exactly 0 (whole steps)')


class Rates:
    """arbitrary derivative, one per call; records when it was asked"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.asked, self.given = ctx, n, [], []

    def __call__(self, t, x):
        self.asked.append((t, list(self.ctx.flat(x))))
        d = self.ctx.vec(f'd{len(self.given)}_', self.n, -1e3, 1e3)
        self.given.append(d)
        return self.ctx.arr(d)


def run(ctx, steps, whole):
    u = ctx.mod(AB + 'util')
    n = 3
    t0, h = ctx.real('t0', -100, 100), ctx.real('h', 0.01, 10)
    frac = 1.0 if whole else ctx.real('frac', 1e-6, 1 - 1e-6)
    y0 = ctx.vec('y', n, -1e3, 1e3)
    rest = h * frac
    ctx.assume(rest > 1e-7)
    ctx.assume(ctx.Or(h - rest > 1e-7, frac == 1.0))
    end = t0 + (steps - 1) * h + rest
    f = Rates(ctx, n)
    start = ctx.arr(y0)
    e = u.Euler(f, t0, start, end, step=h)
    ctx.check(e.status == 'running', 'running at first')
    ctx.check(e.t == t0, 'starts at the start')
    y, t = list(y0), t0
    for k in range(steps):
        ctx.check(e.status == 'running', f'running before step {k}')
        e.step()
        last = k == steps - 1
        t1 = end if last else t0 + (k + 1) * h
        dt = rest if last else h
        ctx.check(len(f.asked) == k + 1, f'one derivative per step ({k})')
        ctx.close(f'derivative time {k}', f.asked[k][0], t0, k * h)
        ctx.closes(f'derivative state {k}', f.asked[k][1], [(v, ) for v in y])
        prev = y
        y = [a + dt * d for a, d in zip(y, f.given[k])]
        ctx.closes(f'state {k}', ctx.flat(e.y), [(a, dt * d) for a, d in zip(prev, f.given[k])], atol=1e-6)
        ctx.close(f'time {k}', e.t, t0, (k + 1) * h if not last else (steps - 1) * h, 0.0 if not last else rest)
        if last:
            ctx.check(e.t == end, 'lands on the end')
        ctx.close(f'previous time {k}', e.tprev, t0, k * h)
        ctx.closes(f'previous state {k}', ctx.flat(e.yprev), [(v, ) for v in prev])
        g = e.dense_output()
        w = ctx.real(f'w{k}', 0, 1)
        q = g(t + w * (t1 - t))
        ctx.closes(f'dense output {k}', ctx.flat(q), [(a, w * dt * d) for a, d in zip(prev, f.given[k])], rel=1e-5, atol=1e-4)
        t = t1
    ctx.check(e.status == 'finished', 'finished')
    for _ in range(2):
        e.step()
        ctx.check(e.status == 'finished', 'stays finished')
        ctx.check(e.t == end, 'time stays')
        ctx.closes('state stays', ctx.flat(e.y), [(v, ) for v in y], atol=1e-6)
        ctx.check(len(f.asked) == steps, 'no further derivatives')
    ctx.closes('initial state untouched', ctx.flat(start), [(v, ) for v in y0])


def long(ctx, steps, parts):
    """a long run with a derivative that depends on the time: every step counts, none is lost and none is taken twice"""
    u = ctx.mod(AB + 'util')
    c, y0 = ctx.real('c', -1e2, 1e2), ctx.real('y0', -1e3, 1e3)
    t0 = ctx.real('t0', -100, 100)
    h, asked = 0.25, []

    def f(t, x):
        asked.append(t)
        return ctx.arr([c, 1.0])

    rest = h * parts
    e = u.Euler(f, t0, ctx.arr([y0, 0.0]), t0 + (steps - 1) * h + rest, step=h)
    for k in range(steps):
        ctx.check(e.status == 'running', f'running before step {k}')
        e.step()
    ctx.check(e.status == 'finished', 'finished')
    ctx.check(len(asked) == steps, 'number of derivatives')
    span = (steps - 1) * h + rest
    ctx.closes('state at the end', ctx.flat(e.y), [(y0, c * span), (span, )], atol=1e-5)
    ctx.close('last derivative', asked[-1], t0, (steps - 1) * h)


def tolerance(ctx, steps):
    """a step that ends within the time tolerance of the end time is the last one"""
    u = ctx.mod(AB + 'util')
    t0, h, gap = ctx.real('t0', -100, 100), ctx.real('h', 0.01, 10), ctx.real('gap', -0.9e-9, 0.9e-9)
    y0 = ctx.vec('y', 2, -1e3, 1e3)
    end = t0 + steps * h + gap
    f = Rates(ctx, 2)
    e = u.Euler(f, t0, ctx.arr(y0), end, step=h)
    for k in range(steps):
        ctx.check(e.status == 'running', f'running before step {k}')
        e.step()
    ctx.check(e.status == 'finished', 'finished')
    ctx.check(e.t == end, 'lands on the end')
    ctx.check(len(f.asked) == steps, 'number of derivatives')
    d, prev = e.dense_output(), ctx.flat(e.yprev)
    ctx.closes('dense output at the end', ctx.flat(d(end)), [(a, h * b) for a, b in zip(prev, f.given[-1])], rel=1e-5, atol=1e-4)


def two(ctx):
    """two integrators from the same array do not interact; their step function may return the same array each time"""
    u = ctx.mod(AB + 'util')
    y0, d = ctx.vec('y', 2, -1e3, 1e3), ctx.vec('d', 2, -1e3, 1e3)
    start, da = ctx.arr(y0), ctx.arr(d)
    a = u.Euler(lambda t, x: da, 0.0, start, 1.0, step=0.25)
    b = u.Euler(lambda t, x: x, 0.0, start, 1.0, step=0.5)
    a.step()
    b.step()
    a.step()
    ctx.closes('first', ctx.flat(a.y), [(v, 0.5 * w) for v, w in zip(y0, d)])
    ctx.closes('second', ctx.flat(b.y), [(v, 0.5 * v) for v in y0])
    ctx.closes('derivative array untouched', ctx.flat(da), [(v, ) for v in d])
    ctx.closes('initial state untouched', ctx.flat(start), [(v, ) for v in y0])
    ctx.closes('dense output of the second step at its start', ctx.flat(a.dense_output()(0.25)), [(v, 0.25 * w) for v, w in zip(y0, d)])


def keeps(ctx, end):
    """a dense output goes on describing the step it was taken from"""
    u = ctx.mod(AB + 'util')
    y0 = ctx.vec('y', 2, -1e3, 1e3)
    f = Rates(ctx, 2)
    e = u.Euler(f, 0.0, ctx.arr(y0), end, step=0.25)
    e.step()
    g = e.dense_output()
    w = ctx.real('w', 0, 1)
    for k in range(3):
        ctx.closes(f'dense output of the first step, {k} steps later', ctx.flat(g(0.25 * w)),
                   [(v, 0.25 * w * x) for v, x in zip(y0, f.given[0])], rel=1e-5, atol=1e-4)
        e.step()


def refused(ctx):
    u = ctx.mod(AB + 'util')
    h, t = ctx.real('h', -5, 0), ctx.real('t', -5, 5)
    d = ctx.real('d', 0, 5)
    y = ctx.arr([1.0, 2.0])
    ctx.expect_raise(lambda: u.Euler(lambda t, x: x, 0.0, y, 1.0, step=h), 'AssertionError', 'step not positive')
    ctx.expect_raise(lambda: u.Euler(lambda t, x: x, 0.0, y, 1.0), 'AssertionError', 'no step')
    ctx.expect_raise(lambda: u.Euler(lambda t, x: x, t, y, t - d, step=0.1), 'AssertionError', 'end not after start')
    e = u.Euler(lambda t, x: x, 0.0, y, 1.0, step=0.1)
    ctx.expect_raise(e.dense_output, 'AssertionError', 'no dense output before a step')
    ctx.expect_raise(lambda: setattr(e, 'other', 1), 'TypeError', 'frozen')


def cases(tier):
    out = [Case('two', two), Case('keeps', keeps, dict(end=1.0)), Case('keeps-short', keeps, dict(end=0.6)), Case('refused', refused)]
    for n in (40, 101, 130) if tier == 'quick' else (40, 101, 130, 257, 600):
        for part in (1.0, 0.5):
            out.append(Case(f'long-{n}-{part}', long, dict(steps=n, parts=part)))
    for n in (1, 2, 3, 10):
        out.append(Case(f'tolerance-{n}', tolerance, dict(steps=n)))
    for n in range(1, 6 if tier == 'quick' else 9):
        for whole in (False, True):
            out.append(Case(f'run-{n}-{"whole" if whole else "part"}', run, dict(steps=n, whole=whole)))
    return out

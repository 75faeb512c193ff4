"""C27: per-axis limits accept a number, a list or an array equivalently."""
import numpy as np

from checks.common import *

BOUNDS = ('every value within 1e6, lengths 1 to 4, containers number / list / array, also nested shapes (2,2); limits of the six-DOF spacecraft and its '
          'dynamics given each way with values in [1e-3, 10]; wrong lengths 0-5, 6 foreign types, non-numeric elements, wrong dtypes')


def fn(ctx):
    return ctx.mod('utils').number_list_to_np


def number(ctx, n):
    v = ctx.real('v', -1e6, 1e6)
    a = fn(ctx)(v, (n, ))
    ctx.check(a.shape == (n, ) and a.dtype == np.float64, 'shape and type')
    ctx.closes('number on every axis', ctx.flat(a), [(v, )] * n)


def kinds_of_number(ctx, n):
    x = ctx.real('x', -1, 1)
    for v in (-2, 0, 1, 3, 2**40 + 1, -7, np.float64(2.5), np.float64(-0.1), 1e300, -1e-300, 0.1):
        a = fn(ctx)(v, (n, ))
        ctx.check(a.shape == (n, ) and a.dtype == np.float64, f'shape and type for {v!r}')
        for k in range(n):
            ctx.check(ctx.flat(a)[k] == float(v), f'{v!r} exactly')
        ctx.closes(f'list of {v!r}', [y * x for y in ctx.flat(fn(ctx)([v] * n, (n, )))], [(float(v) * x, )] * n)


def listed(ctx, n):
    v = ctx.vec('v', n, -1e6, 1e6)
    a, b = fn(ctx)(list(v), (n, )), fn(ctx)(ctx.arr(v), (n, ))
    for r, w in ((a, 'list'), (b, 'array')):
        ctx.check(r.shape == (n, ) and r.dtype == np.float64, f'shape and type of a {w}')
        ctx.closes(f'{w}', ctx.flat(r), [(x, ) for x in v])
    ctx.closes('list with an integer', ctx.flat(fn(ctx)([2] + list(v[1:]), (n, ))), [(2.0, )] + [(x, ) for x in v[1:]])


def square(ctx):
    v = ctx.vec('v', 4, -1e6, 1e6)
    ctx.closes('nested list', ctx.flat(fn(ctx)([[v[0], v[1]], [v[2], v[3]]], (2, 2))), [(x, ) for x in v])
    ctx.closes('number', ctx.flat(fn(ctx)(v[0], (2, 2))), [(v[0], )] * 4)
    ctx.expect_raise(lambda: fn(ctx)(list(v), (2, 2)), ['AssertionError', 'ValueError'], 'flat list for a square')
    ctx.expect_raise(lambda: fn(ctx)(ctx.arr(v), (2, 2)), ['AssertionError', 'ValueError'], 'flat array for a square')
    ctx.expect_raise(lambda: fn(ctx)([[v[0], v[1]], [v[2]]], (2, 2)), ['AssertionError', 'ValueError'], 'ragged list')


def lengths(ctx, n):
    m = ctx.choice('m', [k for k in range(6) if k != n])
    v = ctx.vec('v', m, -1e6, 1e6)
    ctx.expect_raise(lambda: fn(ctx)(list(v), (n, )), ['AssertionError', 'ValueError'], f'list of {m} for {n}')
    ctx.expect_raise(lambda: fn(ctx)(ctx.arr(v) if m else np.zeros((0, )), (n, )), ['AssertionError', 'ValueError'], f'array of {m} for {n}')
    if m:
        ctx.expect_raise(lambda: fn(ctx)(ctx.arr([v]), (n, )), ['AssertionError', 'ValueError'], 'array of one more dimension')
        ctx.expect_raise(lambda: fn(ctx)([list(v)], (n, )), ['AssertionError', 'ValueError'], 'list of one more dimension')


def types(ctx, n):
    v = ctx.real('v', -1e6, 1e6)
    E = ['TypeError', 'AssertionError', 'ValueError']
    for bad in (None, 'abc', '1.0', {'x': v}, {1.0, 2.0}, object()):
        ctx.expect_raise(lambda bad=bad: fn(ctx)(bad, (n, )), E, f'{type(bad).__name__}')
    for bad in (['a'] * n, [None] * (n - 1) + ['x'], [[v]] * n):
        ctx.expect_raise(lambda bad=bad: fn(ctx)(bad, (n, )), E, 'list of non-numbers')
    for dt in (np.float32, np.int64, np.int32):
        ctx.expect_raise(lambda dt=dt: fn(ctx)(np.ones((n, ), dtype=dt), (n, )), E, f'array of {np.dtype(dt)}')


def dtypes(ctx, n):
    """another element type on request"""
    v = ctx.vec('v', n, -1000, 1000)
    a = fn(ctx)(list(v), (n, ), dtype=np.float32)
    ctx.check(a.dtype == np.float32, 'requested type')
    ctx.closes('list', ctx.flat(a), [(x, ) for x in v])
    b = fn(ctx)(v[0], (n, ), dtype=np.float32)
    ctx.check(b.dtype == np.float32, 'requested type')
    ctx.closes('number', ctx.flat(b), [(v[0], )] * n)
    ctx.expect_raise(lambda: fn(ctx)(ctx.arr(v), (n, ), dtype=np.float32), ['AssertionError', 'ValueError', 'TypeError'], 'array of another type')


def limits(ctx, style, what):
    """limits of the six-DOF spacecraft are those of the equivalent array"""
    mod = ctx.mod('cwh.sixdof_model')
    big = dict(inertia_wheel=1.0, acc_limit_wheel=1e4, vel_limit_wheel=1e4)
    if style == 'number':
        v = ctx.real('v', 1e-3, 10)
        arg, vals = v, [v] * 3
    else:
        vals = ctx.vec('v', 3, 1e-3, 10)
        arg = list(vals) if style == 'list' else ctx.arr(vals)
    if what == 'spacecraft':
        e = mod.SixDOFSpacecraft(name='a', ang_acc_limit=arg, **big)
        hi, lo = ctx.flat(e.control_max), ctx.flat(e.control_min)
        for i in range(3):
            ctx.close(f'moment maximum {i}', hi[3 + i], vals[i] * INERTIA)
            ctx.close(f'moment minimum {i}', lo[3 + i], -vals[i] * INERTIA)
        e = mod.SixDOFSpacecraft(name='a', ang_vel_limit=arg, **big)
        d = e.dynamics
    else:
        d = mod.SixDOFDynamics(ang_vel_limit=arg, ang_acc_limit=arg)
    hi, lo = ctx.flat(d.state_max), ctx.flat(d.state_min)
    ctx.closes('rate maximum', hi[10:], [(x, ) for x in vals])
    ctx.closes('rate minimum', lo[10:], [(-x, ) for x in vals])


def refused(ctx, key):
    mod = ctx.mod('cwh.sixdof_model')
    v = ctx.vec('v', 4, 1e-3, 10)
    bad = ctx.choice('bad', [0, 1, 2, 3, 4])
    arg = [list(v[:2]), list(v), ctx.arr(v[:2]), 'abc', None][bad]
    for cls in ('SixDOFSpacecraft', 'SixDOFDynamics'):
        kw = dict(name='a') if cls == 'SixDOFSpacecraft' else {}
        ctx.expect_raise(lambda cls=cls, kw=kw: getattr(mod, cls)(**{key: arg}, **kw), ['TypeError', 'AssertionError', 'ValueError'], f'{cls} {key} {bad}')


def cases(tier):
    out = [Case('square', square)]
    for n in (1, 2, 3, 4):
        for f in (number, kinds_of_number, listed, lengths, types, dtypes):
            out.append(Case(f'{f.__name__}-{n}', f, dict(n=n)))
    for st in ('number', 'list', 'array'):
        for w in ('spacecraft', 'dynamics'):
            out.append(Case(f'limits-{st}-{w}', limits, dict(style=st, what=w)))
    for k in ('ang_acc_limit', 'ang_vel_limit'):
        out.append(Case(f'refused-{k}', refused, dict(key=k)))
    return out

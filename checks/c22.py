"""C22: unit-carrying read-outs equal plain read-outs in declared units."""
import pint

from checks.common import *
from checks import c19, c20

BOUNDS = ('every state as in C19/C20 (positions within 1e6, any attitude), every unit-carrying read-out of every entity class, and a generic entity with '
          '4 other unit systems; 7 neighbouring states in a row')
SP = [('x', 'length'), ('y', 'length'), ('z', 'length'), ('position', 'length'), ('velocity', 'velocity'), ('x_dot', 'velocity'), ('y_dot', 'velocity'),
      ('z_dot', 'velocity')]
ROT = [('wx', 'angular_velocity', '_with_unit'), ('wy', 'angular_velocity', '_with_unit'), ('wz', 'angular_velocity', '_with_unit'),
       ('angular_velocity', 'angular_velocity')]
AIR = SP[:5] + [('v', 'velocity'), ('acceleration', 'acceleration'), ('heading', 'angle'), ('gamma', 'angle'), ('roll', 'angle'), ('yaw', 'angle'),
                ('pitch', 'angle')]
READ = {'cwh3d': SP, 'rot2d': SP + ROT, 'sixdof': SP + ROT, 'dub2d': AIR, 'dub3d': AIR, 'int1d': SP[:5], 'int2d': SP[:5], 'int3d': SP[:5]}
METRIC = dict(length='meter', velocity='meter/second', acceleration='meter/second**2', angle='radian', angular_velocity='radian/second',
              angular_acceleration='radian/second**2', time='second')
FEET = dict(METRIC, length='foot', velocity='foot/second', acceleration='foot/second**2')


def one(ctx, e, entry, units, acc=0):
    n, dim = entry[:2]
    q = getattr(e, n + (entry[2] if len(entry) > 2 else '_with_units'))
    plain = getattr(e, n)
    m = q.magnitude
    if hasattr(plain, 'shape') and plain.shape:
        ctx.check(tuple(m.shape) == tuple(plain.shape), f'{n}: shape')
        ctx.closes(n, ctx.flat(m), [(w, ) for w in ctx.flat(plain)])
    else:
        m = ctx.flat(m)[0] if hasattr(m, 'shape') else m
        ctx.close(n, m, plain if not hasattr(plain, 'shape') else ctx.flat(plain)[0])
    unit(ctx, n, q.units, units[dim])


def unit(ctx, what, got, want):
    w = pint.Unit(want)
    same_dim = got.dimensionality == w.dimensionality
    ctx.check(same_dim, f'{what}: unit {got} instead of {want}')
    if same_dim:
        f = float(pint.Quantity(1.0, got).to(w).magnitude)
        ctx.check(abs(f - 1) < 1e-9, f'{what}: unit {got} instead of {want}')


def readouts(ctx, tag):
    keys = c19.COMP.get(tag) or c20.KEYS.get(tag) or [p + s for s in ('', 'dot') for p in 'xyz'[:KINDS[tag].dim]]
    ini = c19.state(ctx, tag, 'ini') if tag.startswith('dub') else KINDS[tag].state(ctx, 'ini') if tag.startswith('int') else c20.state(ctx, tag, 'ini')
    e = KINDS[tag].make(ctx, **dict(zip(keys, ini)))
    if ctx.boolean('as built'):
        pass
    elif tag.startswith('dub'):
        s = c19.state(ctx, tag)
        e.state = ctx.arr(s)
        d = ctx.vec('d', KINDS[tag].n, -200, 200)
        e.state_dot = ctx.arr(d)
    else:
        e.state = ctx.arr(KINDS[tag].state(ctx) if tag.startswith('int') else c20.state(ctx, tag))
    units = FEET if tag.startswith('dub') else METRIC
    for entry in READ[tag]:
        one(ctx, e, entry, units)
    for n, w in units.items():
        unit(ctx, f'declared {n}', getattr(e.base_units, n), w)


def moving(ctx, tag):
    """read-outs of an entity that moves a little between them"""
    kind = KINDS[tag]
    e = kind.make(ctx)
    units = FEET if tag.startswith('dub') else METRIC
    g = ctx.real('g', 0.5, 1)
    for d in (0.0, 4e-7, -4e-5, 4.9e-4, -4.9e-4, 4e-3, 9e-3):
        s = [(0.0123 + d * (i + 1)) * (g if kind.slo[i] < -1e3 else 1.0) for i in range(kind.n)]
        if tag == 'sixdof':
            s[3:7] = [0.0, math.sin(0.3 + d), 0.0, math.cos(0.3 + d)]
        if tag.startswith('dub'):
            s[-1] = 300 + d
        e.state = ctx.arr(s)
        if tag.startswith('dub'):
            e.state_dot = ctx.arr([d * (i + 1) for i in range(kind.n)])
        for entry in READ[tag]:
            one(ctx, e, entry, units)


def exact(ctx, tag):
    """magnitudes that single precision can not hold"""
    e = KINDS[tag].make(ctx)
    x = ctx.real('x', -1, 1)
    s = [123456789.0 + i + 1 / 3 for i in range(KINDS[tag].n)]
    if tag == 'sixdof':
        s[3:7] = [0.0, 0.6, 0.0, 0.8]
    e.state = ctx.arr(s)
    for entry in READ[tag]:
        n = entry[0]
        q, p = getattr(e, n + (entry[2] if len(entry) > 2 else '_with_units')), getattr(e, n)
        for i, (a, b) in enumerate(zip(ctx.flat(q.magnitude), ctx.flat(p))):
            ctx.close(f'{n}[{i}]', (a - b) * x, 0.0 * x, atol=1e-9)


def systems(ctx, length, time, angle):
    """units derived from other base units"""
    bm = ctx.mod('base_models')
    b = bm.BaseUnits(length, time, angle)
    want = dict(length=length, time=time, angle=angle, velocity=f'{length}/{time}', acceleration=f'{length}/{time}**2', angular_velocity=f'{angle}/{time}',
                angular_acceleration=f'{angle}/{time}**2')
    for n, w in want.items():
        unit(ctx, n, getattr(b, n), w)
    e = generic(ctx, 3, 3, field=lambda t, s, u: list(u))
    type(e).base_units = b
    s = ctx.vec('s', 3, -1e6, 1e6)
    e.state = ctx.arr(s)
    for n, dim in (('x', 'length'), ('y', 'length'), ('z', 'length'), ('position', 'length'), ('velocity', 'velocity')):
        one(ctx, e, (n, dim), want)


def convert(ctx, tag):
    """a converted read-out is the value in that other unit"""
    kind = KINDS[tag]
    e = kind.make(ctx)
    x = ctx.real('x', -1e6, 1e6)
    s = [0.0] * kind.n
    s[0] = x
    if tag == 'sixdof':
        s[6] = 1.0
    if tag.startswith('dub'):
        s[-1] = 300.0
    e.state = ctx.arr(s)
    f = 0.3048 if tag.startswith('dub') else 1.0
    ctx.close('x in kilometres', e.x_with_units.to('km').magnitude, x * (f / 1000))
    ctx.close('position in feet', ctx.flat(e.position_with_units.to('foot').magnitude)[0], x * (f / 0.3048))


def cases(tier):
    out = [Case(f'readouts-{t}', readouts, dict(tag=t)) for t in READ] + [Case(f'exact-{t}', exact, dict(tag=t)) for t in READ]
    for i, u in enumerate((('kilometer', 'hour', 'degree'), ('foot', 'second', 'radian'), ('mile', 'minute', 'turn'), ('meter', 'millisecond', 'degree'))):
        out.append(Case(f'system-{i}', systems, dict(length=u[0], time=u[1], angle=u[2])))
    out += [Case(f'moving-{t}', moving, dict(tag=t)) for t in READ]
    out += [Case(f'convert-{t}', convert, dict(tag=t)) for t in ('cwh3d', 'rot2d', 'sixdof', 'dub2d', 'dub3d', 'int1d', 'int3d')]
    return out

"""C21: construction converts units, places every value, and rejects bad input."""
import numpy as np
import pint

from checks.common import *

BOUNDS = ('every magnitude within 1e6 (0.034 rad/s for rates with limits not applying at construction), for every entity class and parameter, in 5 length, '
          '5 speed, 5 angle and 4 angular-rate units, mixed and one parameter at a time, and six entities of different own units in a row; wrong dimensions, unknown names and missing or non-string names')
U = dict(
    length=[('meter', 1.0), ('kilometer', 1000.0), ('foot', 0.3048), ('mile', 1609.344), ('centimeter', 0.01)],
    speed=[('meter/second', 1.0), ('kilometer/hour', 1 / 3.6), ('foot/second', 0.3048), ('knot', 1852 / 3600), ('mile/hour', 1609.344 / 3600)],
    angle=[('radian', 1.0), ('degree', PI / 180), ('turn', 2 * PI), ('milliradian', 1e-3), ('arcminute', PI / 10800)],
    rate=[('radian/second', 1.0), ('degree/second', PI / 180), ('revolution/minute', 2 * PI / 60), ('degree/hour', PI / 180 / 3600)],
)
L, S, A, R, F = 'length', 'speed', 'angle', 'rate', None
PARAMS = {
    'cwh3d': [('x', L), ('y', L), ('z', L), ('x_dot', S), ('y_dot', S), ('z_dot', S)],
    'rot2d': [('x', L), ('y', L), ('theta', A), ('x_dot', S), ('y_dot', S), ('wz', R)],
    'sixdof': [('x', L), ('y', L), ('z', L), ('q1', F), ('q2', F), ('q3', F), ('q4', F), ('x_dot', S), ('y_dot', S), ('z_dot', S), ('wx', R), ('wy', R),
               ('wz', R)],
    'dub2d': [('x', L), ('y', L), ('heading', A), ('v', S)],
    'dub3d': [('x', L), ('y', L), ('z', L), ('heading', A), ('gamma', A), ('roll', A), ('v', S)],
    'int1d': [('x', F), ('xdot', F)],
    'int2d': [('x', F), ('y', F), ('xdot', F), ('ydot', F)],
    'int3d': [('x', F), ('y', F), ('z', F), ('xdot', F), ('ydot', F), ('zdot', F)],
    'sun': [('theta', A)],
}
PARAMS['rot2d-jax'], PARAMS['sun-jax'], PARAMS['sixdof-hill'] = PARAMS['rot2d'], PARAMS['sun'], PARAMS['sixdof']
DEFAULT = {k: [{'v': 200.0, 'q4': 1.0}.get(p, 0.0) for p, _ in v] for k, v in PARAMS.items()}


def own(tag, dim):
    """SI value of the entity's own unit of this dimension"""
    return 0.3048 if tag.startswith('dub') and dim in (L, S) else 1.0


def given(ctx, tag, name, dim, unit):
    """argument and expected state value"""
    v = ctx.real(name, -1e6, 1e6)
    if dim is None or unit is None:
        return v, (v, )
    u, si = unit
    return pint.Quantity(v, u), (v * (si / own(tag, dim)), )


def every(ctx, tag, shift):
    """all parameters at once, different units"""
    kw, want = {}, []
    for i, (p, dim) in enumerate(PARAMS[tag]):
        fam = U[dim] if dim else [None]
        kw[p], w = given(ctx, tag, p, dim, None if shift is None else fam[(i + shift) % len(fam)])
        want.append(w)
    e = KINDS[tag].make(ctx, **kw)
    ctx.closes('initial state', ctx.flat(e.state), want)
    ctx.closes('initial derivative', ctx.flat(e.state_dot), [(0.0, )] * len(want))
    ctx.check(e.name == 'e', 'name kept')
    ctx.check(str(e.state.dtype) == 'float32', 'state is a float array')


def single(ctx, tag, k):
    """one parameter given, every unit of its family; the others take their defaults"""
    p, dim = PARAMS[tag][k]
    fam = [None] + (U[dim] if dim else [])
    unit = ctx.choice('unit', fam)
    v, w = given(ctx, tag, p, dim, unit)
    e = KINDS[tag].make(ctx, name='other', **{p: v})
    want = [(x, ) for x in DEFAULT[tag]]
    want[k] = w
    ctx.closes('initial state', ctx.flat(e.state), want)
    ctx.check(e.name == 'other', 'name kept')


def defaults(ctx, tag):
    e = KINDS[tag].make(ctx)
    x = ctx.real('x', -1, 1)
    got = ctx.flat(e.state)
    ctx.closes('default state', [g + x for g in got], [(d + x, ) for d in DEFAULT[tag]])
    if tag == 'sixdof':
        q = got[3:7]
        ctx.close('default attitude normalised', sum(c * c for c in q) + x, 1.0 + x)
        ctx.closes('default attitude', ctx.flat(e.orientation.apply(ctx.arr([x, 2.0, 3.0]))), [(x, ), (2.0, ), (3.0, )])


def wrong(ctx, tag):
    """a value of the wrong dimension, for any parameter that carries units"""
    ps = [(p, d) for p, d in PARAMS[tag] if d]
    p, dim = ctx.choice('param', ps)
    bad = {L: ('second', 'radian', 'meter/second', 'kilogram'), S: ('meter', 'second', 'radian/second', 'meter/second**2'),
           A: ('meter', 'second', 'radian/second', 'kelvin'), R: ('radian', 'second', 'meter/second', 'radian/second**2')}[dim]
    u = ctx.choice('unit', bad)
    v = ctx.real('v', -1e3, 1e3)
    ctx.expect_raise(lambda: KINDS[tag].make(ctx, **{p: pint.Quantity(v, u)}), 'ValueError', f'{p} in {u}')


def unknown(ctx, tag):
    """parameters this entity does not have"""
    known = {p for p, _ in PARAMS[tag]}
    names = [n for n in ('foo', 'x', 'y', 'z', 'theta', 'gamma', 'roll', 'heading', 'v', 'q1', 'wx', 'wz', 'x_dot', 'xdot', 'zdot', 'z_dot', 'position', 'X',
                         'state') if n not in known]
    if tag == 'dub2d':
        names = [n for n in names if n != 'z']  # documented parameter of every Dubins aircraft
    if tag.startswith('int'):
        names = [n for n in names if n not in ('x', 'y', 'z', 'zdot', 'ydot')]
    n = ctx.choice('name', names)
    v = ctx.real('v', -1, 1)
    ctx.expect_raise(lambda: KINDS[tag].make(ctx, **{n: v}), ['ValueError', 'TypeError'], f'unknown parameter {n}')


def nameless(ctx, tag):
    v = ctx.real('v', -1, 1)
    kind = KINDS[tag]
    p = PARAMS[tag][0][0]
    ctx.expect_raise(lambda: ctx.entity(kind.path, **{p: v}), 'ValueError', 'missing name')
    bad = ctx.choice('bad', [None, 3, 1.5, ['a'], {'a': 1}])
    ctx.expect_raise(lambda: ctx.entity(kind.path, name=bad, **{p: v}), 'ValueError', f'name {bad!r}')


def garbage(ctx, tag):
    """values that are not numbers"""
    v = ctx.real('v', -1, 1)
    p = ctx.choice('param', [p for p, _ in PARAMS[tag]])
    bad = ctx.choice('bad', [None, 'abc', [1.0], {'x': 1.0}, (1.0, 2.0)])
    ctx.expect_raise(lambda: KINDS[tag].make(ctx, **{p: bad}), ['ValueError', 'TypeError'], f'{p}={bad!r}')
    e = KINDS[tag].make(ctx, **{p: v})
    ctx.close(f'{p} after a rejected construction', ctx.flat(e.state)[[q for q, _ in PARAMS[tag]].index(p)], v)


def fleet(ctx):
    """entities with different own units, one after the other, from quantities of the same units"""
    v, w, a = ctx.real('v', -1e5, 1e5), ctx.real('w', -1e5, 1e5), ctx.real('a', -1e3, 1e3)
    lu, su, au = ctx.choice('length', U[L]), ctx.choice('speed', U[S]), U[A][1]
    for k, tag in enumerate(('cwh3d', 'dub3d', 'rot2d', 'dub2d', 'sixdof', 'cwh3d')):
        names = dict(PARAMS[tag])
        kw = dict(x=pint.Quantity(v, lu[0]), y=pint.Quantity(w, lu[0]))
        if 'x_dot' in names:
            kw['x_dot'] = pint.Quantity(w, su[0])
        if 'v' in names:
            kw['v'] = pint.Quantity(v, su[0])
        for p in ('theta', 'heading'):
            if p in names:
                kw[p] = pint.Quantity(a, au[0])
        si = dict(x=v * lu[1], y=w * lu[1], x_dot=w * su[1], v=v * su[1], theta=a * au[1], heading=a * au[1])
        e = KINDS[tag].make(ctx, name=f'e{k}', **kw)
        want = [(si[p] / own(tag, d), ) if p in kw else (x, ) for (p, d), x in zip(PARAMS[tag], DEFAULT[tag])]
        ctx.closes(f'initial state of entity {k}, {tag}', ctx.flat(e.state), want)


def whole(ctx):
    """whole-number and numpy magnitudes convert like others"""
    fn, x = ctx.mod('base_models').build_unit_conversion_validator_fn, ctx.real('x', -1, 1)
    for dim in U:
        target, tsi = U[dim][0]
        for v in (3, -7, 0, 1, np.int64(5), np.int32(-2), np.float32(0.5), np.float64(1 / 3), 10**7):
            ctx.close(f'plain {v!r}', (fn(target)(v) - float(v)) * x, 0.0 * x, atol=1e-9)
            for u, si in U[dim]:
                got = fn(target)(pint.Quantity(v, u))
                ctx.check(isinstance(got, float), 'a float')
                ctx.close(f'{v!r} {u}', got * x, float(v) * (si / tsi) * x)
    for tag, p, u, si in (('cwh3d', 'x', 'foot', 0.3048), ('dub2d', 'v', 'knot', 1852 / 3600 / 0.3048), ('rot2d', 'theta', 'degree', PI / 180), ('sixdof', 'y', 'mile', 1609.344)):
        e = KINDS[tag].make(ctx, **{p: pint.Quantity(3, u)})
        ctx.close(f'{p} of {tag}', getattr(e, 'heading' if p == 'heading' else p if p != 'theta' else 'theta') * x if hasattr(e, p) else ctx.flat(e.state)[2] * x, 3 * si * x)


def validator(ctx, dim):
    """the conversion function itself, and a validator built for another unit of the dimension"""
    bm = ctx.mod('base_models')
    target, tsi = ctx.choice('target', U[dim])
    fn = bm.build_unit_conversion_validator_fn(target)
    v = ctx.real('v', -1e6, 1e6)
    ctx.close('plain number', fn(v), v)
    u, si = ctx.choice('unit', U[dim])
    ctx.close('converted', fn(pint.Quantity(v, u)), v * (si / tsi))
    ctx.expect_raise(lambda: fn(pint.Quantity(v, 'kilogram')), 'ValueError', 'mass')
    fn2 = bm.build_unit_conversion_validator_fn(pint.Unit(target))
    ctx.close('converted with a Unit object', fn2(pint.Quantity(v, u)), v * (si / tsi))


def cases(tier):
    out = []
    for t in PARAMS:
        if t in ('sixdof-hill', 'sun-jax'):
            continue
        united = any(d for _, d in PARAMS[t])
        for sh in (None, 0, 1, 2, 3, 4) if united else (None, ):
            out.append(Case(f'all-{t}-{"plain" if sh is None else sh}', every, dict(tag=t, shift=sh),
                            tier='quick' if sh in (None, 1, 2) else 'thorough'))
        for k, (p, _) in enumerate(PARAMS[t]):
            out.append(Case(f'single-{t}-{p}', single, dict(tag=t, k=k), tier='quick' if t != 'rot2d-jax' else 'thorough'))
        for f in (defaults, unknown, nameless, garbage):
            out.append(Case(f'{f.__name__}-{t}', f, dict(tag=t), tier='thorough' if f is garbage and t not in ('dub3d', 'sixdof') else 'quick'))
        if united:
            out.append(Case(f'wrong-{t}', wrong, dict(tag=t)))
    out += [Case('fleet', fleet), Case('whole', whole)]
    for d in U:
        out.append(Case(f'validator-{d}', validator, dict(dim=d)))
    return out

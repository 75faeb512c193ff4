"""C45: symmetries and conserved quantities of the vehicle models."""
from checks.common import *

BOUNDS = ('any state and control within twice the operating box, any step size in [0.001, 10], shifts within 1e6, turns within 10 rad, any times; mass, mean motion '
          'and damping as constructed with arbitrary values; derivative and one Euler step')


def place(kind, s):
    """indices of position components and the components that do not take part in a shift"""
    return range({'dub2d': 2, 'rot2d': 2, 'rot2d-jax': 2}.get(kind.tag, getattr(kind, 'dim', 3)))


def settings(ctx, kind):
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-5


def deriv(ctx, e, kind, s, u, t=0.0):
    mk = ctx.jarr if kind.jax else ctx.arr
    return ctx.flat(e.dynamics.compute_state_dot(t, mk(list(s)), mk(list(u))))


def autonomous(ctx, tag):
    """the derivative does not depend on when it is evaluated"""
    kind = KINDS[tag]
    settings(ctx, kind)
    s, u, t1, t2 = kind.state(ctx), kind.control(ctx), ctx.real('t1', 0, 100), ctx.real('t2', 0, 1e6)
    e = kind.make(ctx)
    a, b = deriv(ctx, e, kind, s, u, t1), deriv(ctx, e, kind, s, u, t2)
    ctx.closes('derivative at another time', b, [(x, ) for x in a])


def shift(ctx, tag, axes, via):
    """moving the vehicle does not change its motion"""
    kind = KINDS[tag]
    settings(ctx, kind)
    s, u, h = kind.state(ctx), kind.control(ctx, scale=2.0), ctx.real('h', 0.001, 10)
    d = ctx.vec('d', len(axes), -1e6, 1e6)
    s2 = list(s)
    for k, i in enumerate(axes):
        s2[i] = s[i] + d[k]
    e = kind.make(ctx)
    if via == 'derivative':
        a, b = deriv(ctx, e, kind, s, u), deriv(ctx, e, kind, s2, u)
        for i, (x, y) in enumerate(zip(b, a)):
            ctx.close(f'derivative[{i}] after a shift', x, y, atol=1e-6 if not kind.jax else 1e-3)
        return
    kind.put(ctx, e, s)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    a = ctx.flat(e.state)
    kind.put(ctx, e, s2)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    b = ctx.flat(e.state)
    for i in range(kind.n):
        k = axes.index(i) if i in axes else None
        if kind.wrap[i]:
            turns_close(ctx, f'state[{i}] after a shift', b[i], a[i], 1e-5)
        else:
            ctx.close(f'state[{i}] after a shift', b[i], *([a[i]] if k is None else [s2[i], a[i] - s[i]]), rel=1e-5, atol=1e-5)


def turned(ctx, tag, via):
    """turning an aircraft turns its path by the same angle and changes nothing else"""
    kind = KINDS[tag]
    s, u, h = kind.state(ctx), kind.control(ctx), ctx.real('h', 0.001, 10)
    a = ctx.real('turn', -10, 10)
    hd = 2 if tag == 'dub2d' else 3
    s2 = list(s)
    s2[hd] = s[hd] + a
    ca, sa = ctx.cos(a), ctx.sin(a)
    e = kind.make(ctx)
    if via == 'derivative':
        p, q = deriv(ctx, e, kind, s, u), deriv(ctx, e, kind, s2, u)
    else:
        kind.put(ctx, e, s)
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
        p = [x - y for x, y in zip(ctx.flat(e.state), s)]
        kind.put(ctx, e, s2)
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
        q = [x - y for x, y in zip(ctx.flat(e.state), s2)]
    ctx.close('north part of the turned path', q[0], ca * p[0], -sa * p[1], rel=1e-5, atol=1e-4)
    ctx.close('east part of the turned path', q[1], sa * p[0], ca * p[1], rel=1e-5, atol=1e-4)
    for i in range(2, kind.n):
        if kind.wrap[i]:
            turns_close(ctx, f'component {i} of the turned path', q[i], p[i], 1e-5)
        else:
            ctx.close(f'component {i} of the turned path', q[i], p[i], rel=1e-5, atol=1e-4)


def mirrored(ctx):
    """the 3D aircraft banking right moves as the mirror image of the one banking left"""
    kind = KINDS['dub3d']
    s, u = kind.state(ctx), kind.control(ctx)
    sg, su = (1, -1, 1, -1, 1, -1, 1), (1, -1, 1)
    e = kind.make(ctx)
    a = deriv(ctx, e, kind, s, u)
    b = deriv(ctx, e, kind, [x * y for x, y in zip(sg, s)], [x * y for x, y in zip(su, u)])
    for i in range(7):
        ctx.close(f'derivative[{i}] of the mirror image', b[i], sg[i] * a[i])


def speed(ctx, tag):
    """path speed is the airspeed"""
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx)
    d = deriv(ctx, kind.make(ctx), kind, s, u)
    k = 2 if tag == 'dub2d' else 3
    ctx.close('speed over the path squared', sum(x * x for x in d[:k]), s[kind.n - 1] * s[kind.n - 1])


def superposition(ctx, tag, via):
    """linear vehicles: motions add up"""
    kind = KINDS[tag]
    n, m = kind.n, kind.m
    s, t, u, v = kind.state(ctx, 's'), kind.state(ctx, 't'), kind.control(ctx, 'u', 0.5), kind.control(ctx, 'v', 0.5)
    e = kind.make(ctx)
    k, h = ctx.real('k', -1, 1), ctx.real('h', 0.001, 10)

    def go(x, c):
        if via == 'derivative':
            return deriv(ctx, e, kind, x, c)
        kind.put(ctx, e, x)
        ctx.quiet(lambda: e.step(h, ctx.arr(list(c))))
        return ctx.flat(e.state)

    a, b = go(s, u), go(t, v)
    c = go([x + k * y for x, y in zip(s, t)], [x + k * y for x, y in zip(u, v)])
    for i in range(n):
        ctx.close(f'component {i} of the sum', c[i], a[i], k * b[i], rel=1e-5, atol=1e-5)
    z = go([0.0] * n, [0.0] * m)
    ctx.closes('at rest at the origin', z, [(0.0, )] * n)


def work(ctx, tag):
    """the energy of the relative motion changes only by the work of thrust"""
    kind = KINDS[tag]
    settings(ctx, kind)
    m, n = ctx.real('m', 1, 100), ctx.real('n', 0.0, 0.01)
    s, u = kind.state(ctx), kind.control(ctx)
    e = kind.make(ctx, m=m, n=n)
    d = deriv(ctx, e, kind, s, u)
    dim = 3 if kind.n != 6 or tag == 'cwh3d' else 2
    at = {'cwh3d': 3, 'rot2d': 3, 'rot2d-jax': 3}.get(tag, 7)
    v, a = s[at:at + dim], d[at:at + dim]
    gravity = [3 * n * n * s[0] * v[0]] + ([-n * n * s[2] * v[2]] if dim == 3 else [])
    power = sum(x * y for x, y in zip(v, a))
    if tag == 'cwh3d' or tag == 'sixdof-hill':
        thrust = [x * y / m for x, y in zip(u, v)]
        ctx.close('rate of change of energy', power, *gravity, *thrust, rel=1e-5, atol=1e-5)
        return
    # thrust is turned into the orbital frame: its size stays
    rest = [0.0] * kind.m
    f = deriv(ctx, e, kind, s, rest)
    ctx.close('rate of change of energy without thrust', sum(x * y for x, y in zip(v, f[at:at + dim])), *gravity, rel=1e-5, atol=1e-4)
    acc = [x - y for x, y in zip(a, f[at:at + dim])]
    ctx.close('thrust acceleration squared', sum(x * x for x in acc), *[x * x / (m * m) for x in u[:dim]], rel=1e-4, atol=1e-5)


def sheet(ctx):
    """the two quaternions of one attitude move the spacecraft alike"""
    kind = KINDS['sixdof']
    s, u = kind.state(ctx), kind.control(ctx)
    t = s[:3] + [-x for x in s[3:7]] + s[7:]
    e = kind.make(ctx)
    a, b = deriv(ctx, e, kind, s, u), deriv(ctx, e, kind, t, u)
    for i in range(13):
        ctx.close(f'derivative[{i}] for the opposite quaternion', b[i], -a[i] if 3 <= i < 7 else a[i])


def momentum(ctx):
    """translation and rotation do not influence each other except through thrust direction"""
    kind = KINDS['sixdof']
    s, t, u, v = kind.state(ctx, 's'), kind.state(ctx, 't'), kind.control(ctx, 'u'), kind.control(ctx, 'v')
    e = kind.make(ctx)
    a = deriv(ctx, e, kind, s, u)
    b = deriv(ctx, e, kind, t[:3] + s[3:7] + t[7:10] + s[10:], v[:3] + u[3:])
    for i in (3, 4, 5, 6, 10, 11, 12):
        ctx.close(f'derivative[{i}] for another position and thrust', b[i], a[i])
    c = deriv(ctx, e, kind, s[:10] + t[10:], u[:3] + v[3:])
    for i in (0, 1, 2, 7, 8, 9):
        ctx.close(f'derivative[{i}] for other rates and moments', c[i], a[i])


def axes(ctx, dim, via):
    """integrators treat all axes alike and independently"""
    kind = KINDS[f'int{dim}d']
    one = KINDS['int1d']
    kw = dict(m=ctx.real('m', 0.5, 100), damping=ctx.real('c', 0, 10))
    s, u, h = kind.state(ctx), kind.control(ctx, scale=2.0), ctx.real('h', 0.001, 10)
    e, f = kind.make(ctx, **kw), one.make(ctx, name='f', **kw)
    if via == 'derivative':
        d = deriv(ctx, e, kind, s, u)
    else:
        kind.put(ctx, e, s)
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
        d = ctx.flat(e.state)
    for i in range(dim):
        x, c = [s[i], s[dim + i]], [u[i]]
        if via == 'derivative':
            g = deriv(ctx, f, one, x, c)
        else:
            one.put(ctx, f, x)
            ctx.quiet(lambda: f.step(h, ctx.arr(c)))
            g = ctx.flat(f.state)
        ctx.close(f'position along axis {i} as in one dimension', d[i], g[0])
        ctx.close(f'velocity along axis {i} as in one dimension', d[dim + i], g[1])


def boost(ctx, dim):
    """without damping a constant extra velocity is just carried along"""
    kind = KINDS[f'int{dim}d']
    s, u, h, w = kind.state(ctx), kind.control(ctx), ctx.real('h', 0.001, 10), ctx.vec('w', dim, -100, 100)
    e = kind.make(ctx, m=ctx.real('m', 0.5, 100))
    out = []
    for x in (s, s[:dim] + [a + b for a, b in zip(s[dim:], w)]):
        kind.put(ctx, e, x)
        ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
        out.append(ctx.flat(e.state))
    for i in range(dim):
        ctx.close(f'position[{i}] with extra velocity', out[1][i], out[0][i], h * w[i], rel=1e-5)
        ctx.close(f'velocity[{i}] with extra velocity', out[1][dim + i], out[0][dim + i], w[i], rel=1e-5)


def cases(tier):
    out = []
    for k in kinds():
        out.append(Case(f'autonomous-{k}', autonomous, dict(tag=k.tag)))
    for via in ('derivative', 'step'):
        for t, ax in (('dub2d', (0, 1)), ('dub3d', (0, 1, 2)), ('int1d', (0, )), ('int2d', (0, 1)), ('int3d', (0, 1, 2)), ('cwh3d', (1, )), ('rot2d', (1, )),
                      ('rot2d-jax', (1, )), ('sixdof', (1, )), ('sixdof-hill', (1, ))):
            out.append(Case(f'shift-{t}-{via}', shift, dict(tag=t, axes=ax, via=via), tier='quick' if via == 'derivative' or t not in ('rot2d-jax', 'sixdof-hill') else 'thorough'))
        for t in ('dub2d', 'dub3d'):
            out.append(Case(f'turned-{t}-{via}', turned, dict(tag=t, via=via)))
        for t in ('cwh3d', 'int1d', 'int2d', 'int3d'):
            out.append(Case(f'superposition-{t}-{via}', superposition, dict(tag=t, via=via)))
        for d in (2, 3):
            out.append(Case(f'axes-{d}-{via}', axes, dict(dim=d, via=via)))
    for t in ('dub2d', 'dub3d'):
        out.append(Case(f'speed-{t}', speed, dict(tag=t)))
    for t in ('cwh3d', 'rot2d', 'rot2d-jax', 'sixdof', 'sixdof-hill'):
        out.append(Case(f'work-{t}', work, dict(tag=t)))
    out += [Case('mirrored', mirrored), Case('sheet', sheet), Case('momentum', momentum)]
    out += [Case(f'boost-{d}', boost, dict(dim=d)) for d in (1, 2, 3)]
    return out
